// ---------------------------------------------------------------- keys and their order
pub type KeyV = Seq<u8>;
pub uninterp spec fn klt(a: KeyV, b: KeyV) -> bool;
pub uninterp spec fn khash(a: KeyV) -> u64;
pub uninterp spec fn hslot(h: u64) -> u64;
pub broadcast axiom fn klt_irr(a: KeyV)
    ensures !#[trigger] klt(a, a);
pub broadcast axiom fn klt_trans(a: KeyV, b: KeyV, c: KeyV)
    requires #[trigger] klt(a, b), #[trigger] klt(b, c),
    ensures klt(a, c);
pub proof fn klt_asym(a: KeyV, b: KeyV)
    requires klt(a, b),
    ensures !klt(b, a), a != b,
{ if klt(b, a) { klt_trans(a, b, a); } klt_irr(a); }
