use std::fmt;
use std::ops::{Add, AddAssign, Bound, Index, IndexMut, Range, RangeBounds, Sub, SubAssign};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize {
    raw: u32,
}
impl TextSize {
    pub fn of<T: AsRef<str>>(t: T) -> TextSize {
        TextSize { raw: t.as_ref().len() as u32 }
    }
    pub const fn new(raw: u32) -> Self {
        TextSize { raw }
    }
    pub fn checked_add(self, rhs: TextSize) -> Option<TextSize> {
        self.raw.checked_add(rhs.raw).map(TextSize::new)
    }
    pub fn checked_sub(self, rhs: TextSize) -> Option<TextSize> {
        self.raw.checked_sub(rhs.raw).map(TextSize::new)
    }
}
impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.raw)
    }
}
impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        TextSize { raw }
    }
}
impl From<TextSize> for u32 {
    fn from(v: TextSize) -> u32 {
        v.raw
    }
}
impl From<TextSize> for usize {
    fn from(v: TextSize) -> usize {
        v.raw as usize
    }
}
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(v: usize) -> Result<Self, Self::Error> {
        Ok(u32::try_from(v)?.into())
    }
}
macro_rules! ops {
    ($t:ident $f:ident $op:tt) => {
        impl $t<TextSize> for TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $t<&TextSize> for TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $t<TextSize> for &TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $t<TextSize> for TextRange { type Output = TextRange; fn $f(self, o: TextSize) -> TextRange { TextRange { start: self.start $op o, end: self.end $op o } } }
    };
}
ops!(Add add +);
ops!(Sub sub -);
impl AddAssign for TextSize {
    fn add_assign(&mut self, o: TextSize) {
        *self = *self + o
    }
}
impl SubAssign for TextSize {
    fn sub_assign(&mut self, o: TextSize) {
        *self = *self - o
    }
}
impl std::iter::Sum for TextSize {
    fn sum<I: Iterator<Item = TextSize>>(i: I) -> TextSize {
        i.fold(0.into(), Add::add)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}
impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start.raw, self.end.raw)
    }
}
impl TextRange {
    #[track_caller]
    pub fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start <= end);
        TextRange { start, end }
    }
    pub fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, offset + len)
    }
    pub fn empty(offset: TextSize) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub fn up_to(end: TextSize) -> TextRange {
        TextRange { start: 0.into(), end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub fn len(self) -> TextSize {
        self.end - self.start
    }
    pub fn is_empty(self) -> bool {
        self.start == self.end
    }
    pub fn contains(self, offset: TextSize) -> bool {
        self.start <= offset && offset < self.end
    }
    pub fn contains_inclusive(self, offset: TextSize) -> bool {
        self.start <= offset && offset <= self.end
    }
    pub fn contains_range(self, other: TextRange) -> bool {
        self.start <= other.start && other.end <= self.end
    }
    pub fn intersect(self, other: TextRange) -> Option<TextRange> {
        let start = self.start.max(other.start);
        let end = self.end.min(other.end);
        (end >= start).then(|| TextRange::new(start, end))
    }
    pub fn cover(self, other: TextRange) -> TextRange {
        TextRange::new(self.start.min(other.start), self.end.max(other.end))
    }
    pub fn cover_offset(self, offset: TextSize) -> TextRange {
        self.cover(TextRange::empty(offset))
    }
    pub fn checked_add(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_add(offset)?, end: self.end.checked_add(offset)? })
    }
    pub fn checked_sub(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_sub(offset)?, end: self.end.checked_sub(offset)? })
    }
    pub fn add_start(&self, a: TextSize) -> TextRange {
        TextRange::new(self.start + a, self.end)
    }
    pub fn add_end(&self, a: TextSize) -> TextRange {
        TextRange::new(self.start, self.end + a)
    }
    pub fn sub_start(&self, a: TextSize) -> TextRange {
        TextRange::new(self.start - a, self.end)
    }
    pub fn sub_end(&self, a: TextSize) -> TextRange {
        TextRange::new(self.start, self.end - a)
    }
    pub fn ordering(self, r2: TextRange) -> std::cmp::Ordering {
        if self.end <= r2.start {
            std::cmp::Ordering::Less
        } else if r2.end <= self.start {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    }
}
impl From<TextRange> for Range<usize> {
    fn from(r: TextRange) -> Range<usize> {
        r.start.into()..r.end.into()
    }
}
impl From<TextRange> for Range<u32> {
    fn from(r: TextRange) -> Range<u32> {
        r.start.into()..r.end.into()
    }
}
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> {
        Bound::Included(&self.start)
    }
    fn end_bound(&self) -> Bound<&TextSize> {
        Bound::Excluded(&self.end)
    }
}
impl Index<TextRange> for str {
    type Output = str;
    fn index(&self, i: TextRange) -> &str {
        &self[Range::<usize>::from(i)]
    }
}
impl Index<TextRange> for String {
    type Output = str;
    fn index(&self, i: TextRange) -> &str {
        &self[Range::<usize>::from(i)]
    }
}
impl IndexMut<TextRange> for str {
    fn index_mut(&mut self, i: TextRange) -> &mut str {
        &mut self[Range::<usize>::from(i)]
    }
}
impl PartialOrd for TextRange {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TextRange {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.start, self.end).cmp(&(o.start, o.end))
    }
}

mod serde_impls {
    use super::{TextRange, TextSize};
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    impl Serialize for TextSize {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.raw.serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for TextSize {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            u32::deserialize(d).map(TextSize::from)
        }
    }
    impl Serialize for TextRange {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            (self.start(), self.end()).serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for TextRange {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let (a, b) = Deserialize::deserialize(d)?;
            if a > b {
                return Err(de::Error::custom(format!("invalid range: {a:?}..{b:?}")));
            }
            Ok(TextRange::new(a, b))
        }
    }
}
