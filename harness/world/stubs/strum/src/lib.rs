//! Stand-in for strum.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ParseError {
    VariantNotFound,
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Matching variant not found")
    }
}
impl std::error::Error for ParseError {}
pub trait IntoEnumIterator: Sized {
    type Iterator: Iterator<Item = Self> + Clone + DoubleEndedIterator + ExactSizeIterator;
    fn iter() -> Self::Iterator;
}
