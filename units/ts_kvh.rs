pub struct KeyPiece { pub offset: KeyPieceOffset, pub key: KT, pub value_offset: ValuePieceOffset }
impl KeyPiece {
    #[verifier::external_body]
    pub fn hash_value(&self) -> (r: u64) ensures r == khash(kt_v(&self.key)), { unimplemented!() }
}
pub struct ValuePiece { pub offset: ValuePieceOffset, pub value: Vec<u8> }
pub struct VarFileKeyCache { pub k: Ghost<KMap> }
impl VarFileKeyCache {
    #[verifier::external_body]
    pub fn read_piece_only_key_maybeslice(&mut self, offset: KeyPieceOffset) -> (ret: Result<MaybeSlice>)
        requires old(self).k@.dom().contains(offset),
        ensures final(self).k == old(self).k, ret is Ok ==> ms_v(&ret->Ok_0) == old(self).k@[offset].key,
    { unimplemented!() }
}
pub struct KeyFile(pub VarFileKeyCache);
impl KeyFile {
    pub open spec fn k(&self) -> KMap { self.0.k@ }
    #[verifier::external_body]
    pub fn add_key_piece(&mut self, key: &KT, value_offset: ValuePieceOffset) -> (ret: Result<KeyPiece>)
        ensures ret is Ok ==> ({
            let o = ret->Ok_0.offset;
            &&& o.val != 0 && !old(self).k().dom().contains(o)
            &&& final(self).k() == old(self).k().insert(o, KeyRec { key: kt_v(key), voff: value_offset })
            &&& kt_v(&ret->Ok_0.key) == kt_v(key) && ret->Ok_0.value_offset == value_offset
        }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece(&self, offset: KeyPieceOffset) -> (ret: Result<KeyPiece>)
        requires self.k().dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.offset == offset && kt_v(&ret->Ok_0.key) == self.k()[offset].key && ret->Ok_0.value_offset == self.k()[offset].voff,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece_only_key(&self, offset: KeyPieceOffset) -> (ret: Result<KT>)
        requires self.k().dom().contains(offset),
        ensures ret is Ok ==> kt_v(&ret->Ok_0) == self.k()[offset].key,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece_only_value_offset(&self, offset: KeyPieceOffset) -> (ret: Result<ValuePieceOffset>)
        requires self.k().dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0 == self.k()[offset].voff,
    { unimplemented!() }
    /// the size of a key piece depends on the key only, so the piece stays where it is
    #[verifier::external_body]
    pub fn write_piece(&mut self, piece: KeyPiece) -> (ret: Result<KeyPiece>)
        requires old(self).k().dom().contains(piece.offset), old(self).k()[piece.offset].key == kt_v(&piece.key),
        ensures ret is Ok ==> ret->Ok_0.offset == piece.offset
            && final(self).k() == old(self).k().insert(piece.offset, KeyRec { key: kt_v(&piece.key), voff: piece.value_offset }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_piece(&mut self, offset: KeyPieceOffset) -> (ret: Result<()>)
        requires old(self).k().dom().contains(offset),
        ensures ret is Ok ==> final(self).k() == old(self).k().remove(offset),
    { unimplemented!() }
}
pub struct ValueFile { pub v: Ghost<VMap> }
impl ValueFile {
    #[verifier::external_body]
    pub fn add_value_piece(&mut self, value: &[u8]) -> (ret: Result<ValuePiece>)
        ensures ret is Ok ==> ({
            let o = ret->Ok_0.offset;
            &&& o.val != 0 && !old(self).v@.dom().contains(o)
            &&& final(self).v@ == old(self).v@.insert(o, value@)
        }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece(&self, offset: ValuePieceOffset) -> (ret: Result<ValuePiece>)
        requires self.v@.dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.offset == offset && ret->Ok_0.value@ == self.v@[offset],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_piece_only_value(&self, offset: ValuePieceOffset) -> (ret: Result<Vec<u8>>)
        requires self.v@.dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0@ == self.v@[offset],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_piece(&mut self, piece: ValuePiece) -> (ret: Result<ValuePiece>)
        requires old(self).v@.dom().contains(piece.offset),
        ensures ret is Ok ==> ({
            let o = ret->Ok_0.offset;
            &&& o.val != 0 && (o == piece.offset || !old(self).v@.dom().contains(o))
            &&& final(self).v@ == old(self).v@.remove(piece.offset).insert(o, piece.value@)
        }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_piece(&mut self, offset: ValuePieceOffset) -> (ret: Result<()>)
        requires old(self).v@.dom().contains(offset),
        ensures ret is Ok ==> final(self).v@ == old(self).v@.remove(offset),
    { unimplemented!() }
}
pub struct HtxFile { pub h: Ghost<HMap> }
impl HtxFile {
    #[verifier::external_body]
    pub fn write_key_piece_offset(&mut self, hash: u64, offset: KeyPieceOffset) -> (ret: Result<()>)
        ensures ret is Ok ==> final(self).h@ == old(self).h@.insert(hslot(hash), offset),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_key_piece_offset(&mut self, hash: u64) -> (ret: Result<KeyPieceOffset>)
        ensures final(self).h@ == old(self).h@, ret is Ok ==> ret->Ok_0 == hget(old(self).h@, hslot(hash)),
    { unimplemented!() }
}
pub open spec fn hget(h: HMap, s: u64) -> KeyPieceOffset {
    if h.dom().contains(s) { h[s] } else { KeyPieceOffset { val: 0 } }
}
