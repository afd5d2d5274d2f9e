//@ include head.rs
verus! {
//@ include base.rs
//@ nogenerics on
//@ rename clone vclone
//@ rename to_vec vto_vec
//@ rename cloned vcloned
// ---------------------------------------------------------------- the memory database: every operation as on one map (the contract the file map has: C01)
pub type M = Map<Seq<u8>, Seq<u8>>;
pub open spec fn mget(m: M, k: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn ov(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub trait KeyB: Sized { spec fn kb(&self) -> Seq<u8>; fn vclone(&self) -> (r: Self) ensures r.kb() == self.kb(); }
pub struct DbString(pub Vec<u8>);
pub struct DbInt(pub Vec<u8>);
pub struct DbBytes(pub Vec<u8>);
impl KeyB for DbString { open spec fn kb(&self) -> Seq<u8> { self.0@ } #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn own_DbString(k: &DbString) -> DbString;
/// unit kt
pub broadcast axiom fn own_b_DbString(k: &DbString) ensures (#[trigger] own_DbString(k)).0@ == k.0@;
impl vstd::std_specs::convert::FromSpecImpl<&DbString> for DbString {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: &DbString) -> DbString { own_DbString(k) }
}
impl From<&DbString> for DbString { #[verifier::external_body] fn from(k: &DbString) -> DbString { unimplemented!() } }
impl KeyB for DbInt { open spec fn kb(&self) -> Seq<u8> { self.0@ } #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn own_DbInt(k: &DbInt) -> DbInt;
/// unit kt
pub broadcast axiom fn own_b_DbInt(k: &DbInt) ensures (#[trigger] own_DbInt(k)).0@ == k.0@;
impl vstd::std_specs::convert::FromSpecImpl<&DbInt> for DbInt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: &DbInt) -> DbInt { own_DbInt(k) }
}
impl From<&DbInt> for DbInt { #[verifier::external_body] fn from(k: &DbInt) -> DbInt { unimplemented!() } }
impl KeyB for DbBytes { open spec fn kb(&self) -> Seq<u8> { self.0@ } #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn own_DbBytes(k: &DbBytes) -> DbBytes;
/// unit kt
pub broadcast axiom fn own_b_DbBytes(k: &DbBytes) ensures (#[trigger] own_DbBytes(k)).0@ == k.0@;
impl vstd::std_specs::convert::FromSpecImpl<&DbBytes> for DbBytes {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: &DbBytes) -> DbBytes { own_DbBytes(k) }
}
impl From<&DbBytes> for DbBytes { #[verifier::external_body] fn from(k: &DbBytes) -> DbBytes { unimplemented!() } }

/// BTreeMap whose key type has an order in which equal is equal bytes (unit kt)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { _p: Vec<(K, V)> }
impl<K: KeyB> BTreeMap<K, Vec<u8>> {
    pub uninterp spec fn m(&self) -> M;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == M::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&Vec<u8>>)
        ensures r is Some == self.m().contains_key(k.kb()), r is Some ==> r->Some_0@ == self.m()[k.kb()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(k.kb()), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: Vec<u8>) -> (r: Option<Vec<u8>>)
        ensures final(self).m() == old(self).m().insert(k.kb(), v@), ov(r) == mget(old(self).m(), k.kb()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<Vec<u8>>)
        ensures final(self).m() == old(self).m().remove(k.kb()), ov(r) == mget(old(self).m(), k.kb()),
    { unimplemented!() }
}
pub trait VOpt { fn vcloned(self) -> (r: Option<Vec<u8>>) ensures r is Some == self.is(), r is Some ==> r->Some_0@ == self.v(); spec fn is(&self) -> bool; spec fn v(&self) -> Seq<u8>; }
impl VOpt for Option<&Vec<u8>> {
    open spec fn is(&self) -> bool { self is Some }
    open spec fn v(&self) -> Seq<u8> { self->Some_0@ }
    #[verifier::external_body] fn vcloned(self) -> (r: Option<Vec<u8>>) { unimplemented!() }
}
pub trait VSl { fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.sv(); spec fn sv(&self) -> Seq<u8>; }
impl VSl for [u8] { open spec fn sv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
/// the database a map belongs to: nothing is read or written there
#[verifier::external_body]
pub struct MemoryDbNode { _p: u8 }
impl MemoryDbNode {
//@ file src/memdb.rs
//@ fn MemoryDbNode::read_fill_buffer
//@ end
//@ fn MemoryDbNode::flush
//@ end
//@ fn MemoryDbNode::sync_all
//@ end
//@ fn MemoryDbNode::sync_data
//@ end
}
pub struct MemoryDbMapDbStringInner { pub parent: Option<MemoryDbNode>, pub mem: BTreeMap<DbString, Vec<u8>> }
impl MemoryDbMapDbStringInner {
//@ file src/memdb.rs
//@ fn MemoryDbMapDbStringInner::new
    ensures ret.mem.m() == M::empty(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbStringInner::read_fill_buffer as read_fill_buffer
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbStringInner::flush as flush
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbStringInner::sync_all as sync_all
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbStringInner::sync_data as sync_data
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbStringInner::get_kt as get_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), ov(ret->Ok_0) == mget(old(self).mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbString;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbStringInner::put_kt as put_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m().insert(key.kb(), value@), // C14
//@ start
    broadcast use own_b_DbString;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbStringInner::del_kt as del_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m().remove(key.kb()), ov(ret->Ok_0) == mget(old(self).mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbString;
//@ end
}
pub struct MemoryDbMapDbString(pub MemoryDbMapDbStringInner);
impl MemoryDbMapDbString {
//@ file src/memdb.rs
//@ fn MemoryDbMapDbString::new
    ensures ret.0.mem.m() == M::empty(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbString::read_fill_buffer as read_fill_buffer
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbString::flush as flush
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbString::sync_all as sync_all
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbString::sync_data as sync_data
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbString::get_kt as get_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), ov(ret->Ok_0) == mget(old(self).0.mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbString;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbString::put_kt as put_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m().insert(key.kb(), value@), // C14
//@ start
    broadcast use own_b_DbString;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbString::del_kt as del_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m().remove(key.kb()), ov(ret->Ok_0) == mget(old(self).0.mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbString;
//@ end
}
pub struct MemoryDbMapDbIntInner { pub parent: Option<MemoryDbNode>, pub mem: BTreeMap<DbInt, Vec<u8>> }
impl MemoryDbMapDbIntInner {
//@ file src/memdb.rs
//@ fn MemoryDbMapDbIntInner::new
    ensures ret.mem.m() == M::empty(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbIntInner::read_fill_buffer as read_fill_buffer
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbIntInner::flush as flush
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbIntInner::sync_all as sync_all
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbIntInner::sync_data as sync_data
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbIntInner::get_kt as get_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), ov(ret->Ok_0) == mget(old(self).mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbInt;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbIntInner::put_kt as put_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m().insert(key.kb(), value@), // C14
//@ start
    broadcast use own_b_DbInt;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbIntInner::del_kt as del_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m().remove(key.kb()), ov(ret->Ok_0) == mget(old(self).mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbInt;
//@ end
}
pub struct MemoryDbMapDbInt(pub MemoryDbMapDbIntInner);
impl MemoryDbMapDbInt {
//@ file src/memdb.rs
//@ fn MemoryDbMapDbInt::new
    ensures ret.0.mem.m() == M::empty(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbInt::read_fill_buffer as read_fill_buffer
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbInt::flush as flush
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbInt::sync_all as sync_all
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbInt::sync_data as sync_data
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbInt::get_kt as get_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), ov(ret->Ok_0) == mget(old(self).0.mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbInt;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbInt::put_kt as put_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m().insert(key.kb(), value@), // C14
//@ start
    broadcast use own_b_DbInt;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbInt::del_kt as del_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m().remove(key.kb()), ov(ret->Ok_0) == mget(old(self).0.mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbInt;
//@ end
}
pub struct MemoryDbMapDbBytesInner { pub parent: Option<MemoryDbNode>, pub mem: BTreeMap<DbBytes, Vec<u8>> }
impl MemoryDbMapDbBytesInner {
//@ file src/memdb.rs
//@ fn MemoryDbMapDbBytesInner::new
    ensures ret.mem.m() == M::empty(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytesInner::read_fill_buffer as read_fill_buffer
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytesInner::flush as flush
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytesInner::sync_all as sync_all
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytesInner::sync_data as sync_data
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), // C14
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbBytesInner::get_kt as get_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m(), ov(ret->Ok_0) == mget(old(self).mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbBytes;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbBytesInner::put_kt as put_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m().insert(key.kb(), value@), // C14
//@ start
    broadcast use own_b_DbBytes;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbBytesInner::del_kt as del_kt
    ensures ret is Ok, final(self).mem.m() == old(self).mem.m().remove(key.kb()), ov(ret->Ok_0) == mget(old(self).mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbBytes;
//@ end
}
pub struct MemoryDbMapDbBytes(pub MemoryDbMapDbBytesInner);
impl MemoryDbMapDbBytes {
//@ file src/memdb.rs
//@ fn MemoryDbMapDbBytes::new
    ensures ret.0.mem.m() == M::empty(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytes::read_fill_buffer as read_fill_buffer
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytes::flush as flush
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytes::sync_all as sync_all
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxBase for MemoryDbMapDbBytes::sync_data as sync_data
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), // C14
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbBytes::get_kt as get_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m(), ov(ret->Ok_0) == mget(old(self).0.mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbBytes;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbBytes::put_kt as put_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m().insert(key.kb(), value@), // C14
//@ start
    broadcast use own_b_DbBytes;
//@ end
//@ fn DbXxxObjectSafe for MemoryDbMapDbBytes::del_kt as del_kt
    ensures ret is Ok, final(self).0.mem.m() == old(self).0.mem.m().remove(key.kb()), ov(ret->Ok_0) == mget(old(self).0.mem.m(), key.kb()), // C14
//@ start
    broadcast use own_b_DbBytes;
//@ end
}
}
fn main() {}
