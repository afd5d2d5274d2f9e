// the files as the inspection functions see them (read only here)
pub struct VarFile { pub img: Ghost<int> }
pub struct VarFileNodeCache(pub VarFile, pub Ghost<NMap>, pub NodePieceOffset);
pub struct IdxFile(pub VarFileNodeCache);
/// the size of the piece of a node; of a key record; of a value record
pub uninterp spec fn nsz(img: int, o: NodePieceOffset) -> u32;
impl VarFileNodeCache {
    pub open spec fn n(&self) -> NMap { self.1@ }
    pub open spec fn nsize(&self) -> spec_fn(Tree) -> int { |t: Tree| nsz(self.0.img@, t.off) as int }
    // unit dur: reading leaves what the node file says as it is
    #[verifier::external_body]
    pub fn read_node(&mut self, offset: NodePieceOffset) -> (ret: Result<IdxNode>)
        requires old(self).n().dom().contains(offset),
        ensures *final(self) == *old(self), ret is Ok ==> ret->Ok_0.nv() == old(self).n()[offset] && ret->Ok_0.off() == offset && ret->Ok_0.0.size.val == nsz(old(self).0.img@, offset),
    { unimplemented!() }
    // unit dur: writing the cache back leaves what the node file says as it is
    #[verifier::external_body]
    pub fn flush_node_cache(&mut self) -> (ret: Result<()>)
        ensures *final(self) == *old(self),
    { unimplemented!() }
}
impl IdxFile {
    pub open spec fn n(&self) -> NMap { self.0.1@ }
    pub open spec fn top(&self) -> NodePieceOffset { self.0.2 }
    #[verifier::external_body]
    pub fn read_node(&self, offset: NodePieceOffset) -> (ret: Result<IdxNode>)
        requires self.n().dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.nv() == self.n()[offset] && ret->Ok_0.off() == offset && ret->Ok_0.0.size.val == nsz(self.0.0.img@, offset),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_top_node(&self) -> (ret: Result<IdxNode>)
        requires self.n().dom().contains(self.top()),
        ensures ret is Ok ==> ret->Ok_0.nv() == self.n()[self.top()] && ret->Ok_0.off() == self.top() && ret->Ok_0.0.size.val == nsz(self.0.0.img@, self.top()),
    { unimplemented!() }
    /// the tree of the whole map
    pub open spec fn tree(&self) -> Tree { tree_at(self.n(), self.top()) }
    pub open spec fn ok(&self) -> bool {
        let t = self.tree();
        is_tree(self.n(), self.top()) && sound(t) && inord(t).len() <= u64::MAX && t.ht() < 64 && ntot(t) <= u64::MAX
    }
}
#[verifier::external_body]
pub fn vlock<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub struct KeyFile { pub k: Ghost<KMap>, pub sz: Ghost<Map<KeyPieceOffset, u32>> }
impl KeyFile {
    pub open spec fn k(&self) -> KMap { self.k@ }
    // unit kf
    #[verifier::external_body]
    pub fn read_piece_only_size(&self, offset: KeyPieceOffset) -> (ret: Result<KeyPieceSize>)
        requires self.k().dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.val == self.sz@[offset],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece_only_key_length(&self, offset: KeyPieceOffset) -> (ret: Result<KeyLength>)
        requires self.k().dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.val == self.k()[offset].key.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece_only_key(&self, offset: KeyPieceOffset) -> (ret: Result<KT>)
        requires self.k().dom().contains(offset),
        ensures ret is Ok ==> kt_v(&ret->Ok_0) == self.k()[offset].key,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece_only_value_offset(&self, offset: KeyPieceOffset) -> (ret: Result<ValuePieceOffset>)
        requires self.k().dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0 == self.k()[offset].voff,
    { unimplemented!() }
    // unit kf: of every size, the free records of it
    #[verifier::external_body]
    pub fn count_of_free_key_piece(&self) -> (ret: Result<Vec<(u32, u64)>>)
        ensures ret is Ok ==> ret->Ok_0 == kfree(self),
    { unimplemented!() }
}
pub uninterp spec fn kfree(f: &KeyFile) -> Vec<(u32, u64)>;
pub struct ValueFile { pub v: Ghost<VMap>, pub sz: Ghost<Map<ValuePieceOffset, u32>> }
impl ValueFile {
    // unit vl
    #[verifier::external_body]
    pub fn read_piece_only_size(&self, offset: ValuePieceOffset) -> (ret: Result<ValuePieceSize>)
        requires self.v@.dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.val == self.sz@[offset],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece_only_value_length(&self, offset: ValuePieceOffset) -> (ret: Result<ValueLength>)
        requires self.v@.dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.val == self.v@[offset].len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count_of_free_value_piece(&self) -> (ret: Result<Vec<(u32, u64)>>)
        ensures ret is Ok ==> ret->Ok_0 == vfree(self),
    { unimplemented!() }
}
pub uninterp spec fn vfree(f: &ValueFile) -> Vec<(u32, u64)>;
pub struct HtxFile { pub h: Ghost<HMap> }
impl HtxFile {
    // unit htx
    #[verifier::external_body]
    pub fn ht_size_and_count(&self) -> (ret: Result<(u64, u64)>)
        ensures ret is Ok ==> ret->Ok_0 == hcount(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn htx_filling_rate_per_mill(&self) -> (ret: Result<(u64, u32)>)
        ensures ret is Ok ==> ret->Ok_0 == hfill(self),
    { unimplemented!() }
}
pub uninterp spec fn hcount(f: &HtxFile) -> (u64, u64);
pub uninterp spec fn hfill(f: &HtxFile) -> (u64, u32);
pub open spec fn hget(h: HMap, s: u64) -> KeyPieceOffset {
    if h.dom().contains(s) { h[s] } else { KeyPieceOffset { val: 0 } }
}
