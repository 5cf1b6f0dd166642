//! The part of clap 2 the command line program uses, over an argument list given by the harness.
//! The program's own logic is the code under test; argument parsing is modelled.
use std::cell::RefCell;
thread_local! { pub static ARGV: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub struct Arg<'a> {
    name: &'a str,
    short: Option<&'a str>,
    long: Option<&'a str>,
    takes: bool,
    required: bool,
    possible: Vec<&'a str>,
    default: Option<&'a str>,
}
impl<'a> Arg<'a> {
    pub fn with_name(name: &'a str) -> Self {
        Arg { name, short: None, long: None, takes: false, required: false, possible: vec![], default: None }
    }
    pub fn help(self, _: &str) -> Self {
        self
    }
    pub fn long_help(self, _: &str) -> Self {
        self
    }
    pub fn display_order(self, _: usize) -> Self {
        self
    }
    pub fn hidden(self, _: bool) -> Self {
        self
    }
    pub fn hide_possible_values(self, _: bool) -> Self {
        self
    }
    pub fn next_line_help(self, _: bool) -> Self {
        self
    }
    pub fn value_name(self, _: &str) -> Self {
        self
    }
    pub fn index(self, _: u64) -> Self {
        self
    }
    pub fn short(mut self, s: &'a str) -> Self {
        self.short = Some(s.trim_start_matches('-'));
        self
    }
    pub fn long(mut self, s: &'a str) -> Self {
        self.long = Some(s.trim_start_matches('-'));
        self
    }
    pub fn takes_value(mut self, b: bool) -> Self {
        self.takes = b;
        self
    }
    pub fn required(mut self, b: bool) -> Self {
        self.required = b;
        self
    }
    pub fn possible_values(mut self, v: &[&'a str]) -> Self {
        self.possible = v.to_vec();
        self.takes = true;
        self
    }
    pub fn possible_value(mut self, v: &'a str) -> Self {
        self.possible.push(v);
        self.takes = true;
        self
    }
    pub fn default_value(mut self, v: &'a str) -> Self {
        self.default = Some(v);
        self.takes = true;
        self
    }
}
pub struct App<'a> {
    args: Vec<Arg<'a>>,
}
impl<'a> App<'a> {
    pub fn new(_: &str) -> Self {
        App { args: vec![] }
    }
    pub fn version(self, _: &str) -> Self {
        self
    }
    pub fn about(self, _: &str) -> Self {
        self
    }
    pub fn after_help(self, _: &str) -> Self {
        self
    }
    pub fn long_about(self, _: &str) -> Self {
        self
    }
    pub fn author(self, _: &str) -> Self {
        self
    }
    pub fn arg(mut self, a: Arg<'a>) -> Self {
        self.args.push(a);
        self
    }
    pub fn args(mut self, a: Vec<Arg<'a>>) -> Self {
        self.args.extend(a);
        self
    }
    pub fn get_matches(self) -> ArgMatches {
        match self.matches() {
            Some(m) => m,
            // clap prints the usage and exits
            None => std::process::exit(1),
        }
    }
    fn matches(&self) -> Option<ArgMatches> {
        let argv = ARGV.with(|a| a.borrow().clone());
        let mut m = ArgMatches { v: vec![] };
        let mut i = 0;
        while i < argv.len() {
            let a = &argv[i][..];
            i += 1;
            let by_flag = |x: &&Arg| match (a.strip_prefix("--"), a.strip_prefix('-')) {
                (Some(l), _) => x.long == Some(l),
                (_, Some(s)) => !s.is_empty() && x.short == Some(s),
                _ => false,
            };
            let d = if a.len() > 1 && a.starts_with('-') {
                self.args.iter().find(by_flag)?
            } else {
                let d = self.args.iter().find(|x| x.short.is_none() && x.long.is_none() && !m.v.iter().any(|(n, _)| n == x.name))?;
                i -= 1;
                d
            };
            if m.v.iter().any(|(n, _)| n == d.name) {
                return None;
            }
            let mut val = String::new();
            if d.takes || (d.short.is_none() && d.long.is_none()) {
                val = argv.get(i)?.clone();
                i += 1;
                if !d.possible.is_empty() && !d.possible.iter().any(|p| *p == val) {
                    return None;
                }
            }
            m.v.push((d.name.to_string(), val));
        }
        for d in &self.args {
            if !m.v.iter().any(|(n, _)| n == d.name) {
                if d.required {
                    return None;
                }
                if let Some(v) = d.default {
                    m.v.push((d.name.to_string(), v.to_string()));
                }
            }
        }
        Some(m)
    }
}
pub struct ArgMatches {
    v: Vec<(String, String)>,
}
impl ArgMatches {
    pub fn value_of(&self, n: &str) -> Option<&str> {
        self.v.iter().find(|x| x.0 == n).map(|x| &x.1[..])
    }
    pub fn occurrences_of(&self, n: &str) -> u64 {
        self.v.iter().filter(|x| x.0 == n).count() as u64
    }
    pub fn is_present(&self, n: &str) -> bool {
        self.value_of(n).is_some()
    }
}
