//! The part of ureq 2 the library uses; what the server answers is decided by the harness.
use std::cell::RefCell;
use std::io::Read;
/// a request for this URL, and the answer: a status, or none if nothing comes back at all
pub type Serve = fn(&str) -> Option<u16>;
pub type Body = fn(&mut [u8]) -> std::io::Result<usize>;
thread_local! { pub static SERVER: RefCell<Option<(Serve, Body)>> = RefCell::new(None); }
pub struct Request {
    url: String,
}
pub struct Response {
    status: u16,
}
#[derive(Debug)]
pub struct Transport;
#[derive(Debug)]
pub enum Error {
    Status(u16, Response),
    Transport(Transport),
}
impl std::fmt::Debug for Response {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Response")
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            Error::Status(..) => "status code",
            Error::Transport(_) => "transport error",
        })
    }
}
impl std::error::Error for Error {}
pub fn get(url: &str) -> Request {
    Request { url: url.to_string() }
}
pub fn request(_: &str, url: &str) -> Request {
    get(url)
}
pub struct Agent;
pub fn agent() -> Agent {
    Agent
}
pub struct AgentBuilder;
impl AgentBuilder {
    pub fn new() -> AgentBuilder {
        AgentBuilder
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn timeout_connect(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn timeout_read(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn redirects(self, _: u32) -> Self {
        self
    }
    pub fn user_agent(self, _: &str) -> Self {
        self
    }
    pub fn build(self) -> Agent {
        Agent
    }
}
impl Error {
    pub fn into_response(self) -> Option<Response> {
        match self {
            Error::Status(_, r) => Some(r),
            Error::Transport(_) => None,
        }
    }
}
/// the answer comes in parts of no announced length
fn header(name: &str) -> Option<&'static str> {
    if name.eq_ignore_ascii_case("content-type") { Some("application/json") } else { None }
}
impl Agent {
    pub fn request(&self, _: &str, url: &str) -> Request {
        get(url)
    }
    pub fn new() -> Agent {
        Agent
    }
    pub fn get(&self, url: &str) -> Request {
        get(url)
    }
}
impl Request {
    pub fn set(self, _: &str, _: &str) -> Self {
        self
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn call(self) -> Result<Response, Error> {
        match SERVER.with(|s| *s.borrow()).and_then(|s| s.0(&self.url)) {
            None => Err(Error::Transport(Transport)),
            Some(status) if status >= 400 => Err(Error::Status(status, Response { status })),
            Some(status) => Ok(Response { status }),
        }
    }
}
struct Reader;
impl Read for Reader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match SERVER.with(|s| *s.borrow()) {
            Some(s) => s.1(b),
            None => Ok(0),
        }
    }
}
impl Response {
    pub fn status_text(&self) -> &str {
        "status"
    }
    pub fn header(&self, name: &str) -> Option<&str> {
        header(name)
    }
    pub fn has(&self, name: &str) -> bool {
        header(name).is_some()
    }
    pub fn content_type(&self) -> &str {
        "application/json"
    }
    pub fn charset(&self) -> &str {
        "utf-8"
    }
    pub fn status(&self) -> u16 {
        self.status
    }
    pub fn into_reader(self) -> Box<dyn Read + Send + Sync + 'static> {
        Box::new(Reader)
    }
    pub fn into_string(self) -> std::io::Result<String> {
        let mut s = String::new();
        Reader.read_to_string(&mut s)?;
        Ok(s)
    }
}
