use std::fmt;
use std::ops::{Add, AddAssign, Bound, Index, IndexMut, Range, RangeBounds, Sub, SubAssign};

#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TextSize { raw: u32 }

impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.raw) }
}
impl TextSize {
    pub const fn new(raw: u32) -> Self { Self { raw } }
    pub fn of<T: AsRef<str>>(text: T) -> Self { Self { raw: text.as_ref().len() as u32 } }
    pub fn checked_add(self, rhs: TextSize) -> Option<TextSize> { self.raw.checked_add(rhs.raw).map(|raw| TextSize { raw }) }
    pub fn checked_sub(self, rhs: TextSize) -> Option<TextSize> { self.raw.checked_sub(rhs.raw).map(|raw| TextSize { raw }) }
}
impl From<u32> for TextSize { fn from(raw: u32) -> Self { Self { raw } } }
impl From<TextSize> for u32 { fn from(v: TextSize) -> u32 { v.raw } }
impl From<TextSize> for usize { fn from(v: TextSize) -> usize { v.raw as usize } }
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(v: usize) -> Result<Self, Self::Error> { Ok(u32::try_from(v)?.into()) }
}
macro_rules! ops {
    ($($o:ident $f:ident $op:tt),*) => {$(
        impl $o<TextSize> for TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $o<&TextSize> for TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { self $op *o } }
        impl $o<TextSize> for &TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { *self $op o } }
    )*};
}
ops!(Add add +, Sub sub -);
impl<A> AddAssign<A> for TextSize where TextSize: Add<A, Output = TextSize> { fn add_assign(&mut self, r: A) { *self = *self + r } }
impl<S> SubAssign<S> for TextSize where TextSize: Sub<S, Output = TextSize> { fn sub_assign(&mut self, r: S) { *self = *self - r } }
impl std::iter::Sum for TextSize { fn sum<I: Iterator<Item = TextSize>>(i: I) -> TextSize { i.fold(0.into(), |a, b| a + b) } }

#[derive(Copy, Clone, Default, PartialEq, Eq, Hash)]
pub struct TextRange { start: TextSize, end: TextSize }

impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}..{}", self.start.raw, self.end.raw) }
}
impl TextRange {
    pub fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start <= end, "TextRange::new: start {start:?} > end {end:?}");
        TextRange { start, end }
    }
    pub fn at(offset: TextSize, len: TextSize) -> TextRange { TextRange::new(offset, offset + len) }
    pub fn empty(offset: TextSize) -> TextRange { TextRange { start: offset, end: offset } }
    pub fn up_to(end: TextSize) -> TextRange { TextRange { start: 0.into(), end } }
    pub const fn start(self) -> TextSize { self.start }
    pub const fn end(self) -> TextSize { self.end }
    pub const fn len(self) -> TextSize { TextSize { raw: self.end.raw - self.start.raw } }
    pub const fn is_empty(self) -> bool { self.start.raw == self.end.raw }
    pub fn contains(self, o: TextSize) -> bool { self.start <= o && o < self.end }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.start <= o && o <= self.end }
    pub fn contains_range(self, o: TextRange) -> bool { self.start <= o.start && o.end <= self.end }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let start = self.start.max(o.start);
        let end = self.end.min(o.end);
        (start <= end).then_some(TextRange { start, end })
    }
    pub fn cover(self, o: TextRange) -> TextRange { TextRange { start: self.start.min(o.start), end: self.end.max(o.end) } }
    pub fn cover_offset(self, o: TextSize) -> TextRange { self.cover(TextRange::empty(o)) }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? }) }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? }) }
    pub fn ordering(self, o: TextRange) -> std::cmp::Ordering {
        if self.end <= o.start { std::cmp::Ordering::Less } else if o.end <= self.start { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }
    }
    pub fn sub_start(&self, n: TextSize) -> Option<TextRange> { Some(TextRange::new(self.start.checked_sub(n)?, self.end)) }
    pub fn add_start(&self, n: TextSize) -> TextRange { TextRange::new(self.start + n, self.end) }
    pub fn sub_end(&self, n: TextSize) -> TextRange { TextRange::new(self.start, self.end - n) }
    pub fn add_end(&self, n: TextSize) -> TextRange { TextRange::new(self.start, self.end + n) }
}
impl Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { self.checked_add(o).expect("TextRange +offset overflowed") } }
impl Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { self.checked_sub(o).expect("TextRange -offset overflowed") } }
impl From<TextRange> for Range<usize> { fn from(r: TextRange) -> Self { r.start.into()..r.end.into() } }
impl From<TextRange> for Range<u32> { fn from(r: TextRange) -> Self { r.start.into()..r.end.into() } }
impl Index<TextRange> for str { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }
impl Index<TextRange> for String { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }
impl IndexMut<TextRange> for String { fn index_mut(&mut self, r: TextRange) -> &mut str { &mut self[Range::<usize>::from(r)] } }
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&TextSize> { Bound::Excluded(&self.end) }
}
impl PartialOrd for TextRange { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for TextRange { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (self.start, self.end).cmp(&(o.start, o.end)) } }
impl serde::Serialize for TextSize { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.raw.serialize(s) } }
impl<'de> serde::Deserialize<'de> for TextSize { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u32::deserialize(d).map(TextSize::from) } }
impl serde::Serialize for TextRange { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { (self.start, self.end).serialize(s) } }
impl<'de> serde::Deserialize<'de> for TextRange {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (start, end) = <(TextSize, TextSize)>::deserialize(d)?;
        if start > end { return Err(serde::de::Error::custom(format!("invalid range: {start:?}..{end:?}"))); }
        Ok(TextRange { start, end })
    }
}
pub trait TextLen: Copy { fn text_len(self) -> TextSize; }
impl TextLen for &str { fn text_len(self) -> TextSize { TextSize::of(self) } }
impl TextLen for char { fn text_len(self) -> TextSize { TextSize::new(self.len_utf8() as u32) } }
