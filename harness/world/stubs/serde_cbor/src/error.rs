use std::fmt;
#[derive(Debug)]
pub struct Error {
    msg: String,
    offset: usize,
}
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    pub(crate) fn new(m: impl Into<String>, offset: usize) -> Self {
        Self { msg: m.into(), offset }
    }
    pub fn is_eof(&self) -> bool {
        self.msg.starts_with("EOF")
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.offset == 0 { write!(f, "{}", self.msg) } else { write!(f, "{} at offset {}", self.msg, self.offset) }
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Self::new(m.to_string(), 0)
    }
}
impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Self::new(m.to_string(), 0)
    }
}
