//! A token stream that is its text.
pub struct TokenStream(pub String);
#[derive(Debug)]
pub struct LexError;
impl std::fmt::Display for LexError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cannot lex")
    }
}
impl std::error::Error for LexError {}
impl std::str::FromStr for TokenStream {
    type Err = LexError;
    fn from_str(s: &str) -> Result<Self, LexError> {
        Ok(TokenStream(s.to_string()))
    }
}
impl std::fmt::Display for TokenStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
