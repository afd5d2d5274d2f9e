pub struct FileDbXxxInner {
    pub dirty: bool,
    pub key_file: KeyFile,
    pub val_file: ValueFile,
    pub idx_file: IdxFile,
    pub htx_file: HtxFile,
}
impl FileDbXxxInner {
    pub open spec fn n(&self) -> NMap { self.idx_file.n() }
    pub open spec fn top(&self) -> NodePieceOffset { self.idx_file.top() }
    pub open spec fn k(&self) -> KMap { self.key_file.k() }
    pub open spec fn v(&self) -> VMap { self.val_file.v@ }
    pub open spec fn h(&self) -> HMap { self.htx_file.h@ }
    /// nothing but the node store may differ
    pub open spec fn same_kvh(&self, o: Self) -> bool {
        self.k() == o.k() && self.v() == o.v() && self.h() == o.h() && self.top() == o.top() && (o.dirty ==> self.dirty)
    }
    pub open spec fn same_all(&self, o: Self) -> bool { self.same_kvh(o) && self.n() == o.n() }
}
