//! Stand-in for slicestring: character (not byte) ranges, empty when out of range.
pub trait Slice {
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> String;
}
impl Slice for str {
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> String {
        self.chars().enumerate().filter(|(i, _)| r.contains(i)).map(|x| x.1).collect()
    }
}
impl Slice for String {
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> String {
        self.as_str().slice(r)
    }
}
