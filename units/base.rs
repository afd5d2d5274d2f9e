// the comparison that core derives
pub assume_specification [ <core::cmp::Ordering as PartialEq>::eq ] (a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool) ensures r == (*a == *b);
// base: io error, checks that must hold, the newtypes of semtype.rs
pub struct IoErr { pub code: u64 }
pub type Result<T> = core::result::Result<T, IoErr>;

/// an assert!/debug_assert! of the source: a proof obligation
pub fn vassert(b: bool)
    requires b,
{}
/// a panic!/unreachable! of the source must not be reachable
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T)
    requires false,
{ unimplemented!() }

// the newtypes of semtype.rs, without their phantom parameter (rustc keeps the kinds apart in the crate itself)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Offset { pub val: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Size { pub val: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Length { pub val: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Count { pub val: u16 }
pub type PieceOffset = Offset;
pub type KeyPieceOffset = Offset;
pub type ValuePieceOffset = Offset;
pub type NodePieceOffset = Offset;
pub type PieceSize = Size;
pub type KeyPieceSize = Size;
pub type ValuePieceSize = Size;
pub type NodePieceSize = Size;
pub type KeyLength = Length;
pub type ValueLength = Length;
pub type KeysCount = Count;
//@ file src/filedb/inner/semtype.rs
//@ dropgen Offset Size Length Count PieceOffset PieceSize KeyPiece KeyFile VarFileKeyCache FileDbXxxInner
//@ nogenerics on
impl Offset {
    pub fn new(val: u64) -> (r: Self) ensures r.val == val { Self { val } }
//@ fn Offset::as_value
    ensures ret == self.val,
//@ end
//@ fn Offset::is_zero
    ensures ret == (self.val == 0),
//@ end
}
impl Size {
    pub fn new(val: u32) -> (r: Self) ensures r.val == val { Self { val } }
//@ fn Size::as_value
    ensures ret == self.val,
//@ end
//@ fn Size::is_zero
    ensures ret == (self.val == 0),
//@ end
}
impl Length {
    pub fn new(val: u32) -> (r: Self) ensures r.val == val { Self { val } }
//@ fn Length::as_value
    ensures ret == self.val,
//@ end
//@ fn Length::is_zero
    ensures ret == (self.val == 0),
//@ end
}
impl Count {
    pub fn new(val: u16) -> (r: Self) ensures r.val == val { Self { val } }
//@ fn Count::as_value
    ensures ret == self.val,
//@ end
//@ fn Count::is_zero
    ensures ret == (self.val == 0),
//@ end
}
impl FromSpecImpl<Offset> for u64 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Offset) -> u64 { v.val as u64 }
}
impl From<Offset> for u64 {
//@ fn From for u64::from @Offset
//@ end
}
impl FromSpecImpl<Size> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Size) -> u32 { v.val as u32 }
}
impl From<Size> for u32 {
//@ fn From for u32::from @Size
//@ end
}
impl FromSpecImpl<Size> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Size) -> usize { v.val as usize }
}
impl From<Size> for usize {
//@ fn From for usize::from @Size
//@ end
}
impl FromSpecImpl<Length> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Length) -> u32 { v.val as u32 }
}
impl From<Length> for u32 {
//@ fn From for u32::from @Length
//@ end
}
impl FromSpecImpl<Length> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Length) -> usize { v.val as usize }
}
impl From<Length> for usize {
//@ fn From for usize::from @Length
//@ end
}
impl FromSpecImpl<Count> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Count) -> u16 { v.val as u16 }
}
impl From<Count> for u16 {
//@ fn From for u16::from @Count
//@ end
}
impl FromSpecImpl<Count> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Count) -> usize { v.val as usize }
}
impl From<Count> for usize {
//@ fn From for usize::from @Count
//@ end
}
impl AddSpecImpl<Size> for Offset {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Size) -> bool { self.val + rhs.val <= u64::MAX }
    open spec fn add_spec(self, rhs: Size) -> Offset { Offset { val: (self.val + rhs.val) as u64 } }
}
impl std::ops::Add<Size> for Offset {
    type Output = Offset;
//@ fn Add for Offset::add @PieceSize
//@ end
}
impl SubSpecImpl<Offset> for Offset {
    open spec fn obeys_sub_spec() -> bool { true }
    // the result has 32 bits in the source: it must fit
    open spec fn sub_req(self, rhs: Offset) -> bool { rhs.val <= self.val && self.val - rhs.val <= u32::MAX }
    open spec fn sub_spec(self, rhs: Offset) -> Size { Size { val: (self.val - rhs.val) as u32 } }
}
impl std::ops::Sub<Offset> for Offset {
    type Output = Size;
//@ fn Sub for Offset::sub
//@ end
}
impl PartialOrdSpecImpl for Offset {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Offset) -> Option<Ordering> {
        Some(if self.val < o.val { Ordering::Less } else if self.val == o.val { Ordering::Equal } else { Ordering::Greater })
    }
}
impl std::cmp::PartialOrd for Offset {
    // derived in the source
    fn partial_cmp(&self, o: &Offset) -> Option<Ordering> { Some(if self.val < o.val { Ordering::Less } else if self.val == o.val { Ordering::Equal } else { Ordering::Greater }) }
}
impl PartialOrdSpecImpl for Size {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Size) -> Option<Ordering> {
        Some(if self.val < o.val { Ordering::Less } else if self.val == o.val { Ordering::Equal } else { Ordering::Greater })
    }
}
impl std::cmp::PartialOrd for Size {
    // derived in the source
    fn partial_cmp(&self, o: &Size) -> Option<Ordering> { Some(if self.val < o.val { Ordering::Less } else if self.val == o.val { Ordering::Equal } else { Ordering::Greater }) }
}
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
/// not going on after an error is allowed (the source panics there)
#[verifier::external_body]
pub fn vget<T>(r: Result<T>) -> (v: T)
    ensures r is Ok, v == r->Ok_0,
{ match r { Ok(v) => v, Err(_) => panic!() } }
