pub struct VarFile { pub img: Ghost<int> }
pub struct VarFileNodeCache(pub VarFile, pub Ghost<NMap>, pub NodePieceOffset);
pub struct IdxFile(pub VarFileNodeCache);
impl IdxFile {
    pub open spec fn n(&self) -> NMap { self.0.1@ }
    pub open spec fn top(&self) -> NodePieceOffset { self.0.2 }
    #[verifier::external_body]
    pub fn read_node(&self, offset: NodePieceOffset) -> (ret: Result<IdxNode>)
        requires self.n().dom().contains(offset),
        ensures ret is Ok ==> ret->Ok_0.nv() == self.n()[offset] && ret->Ok_0.off() == offset && !ret->Ok_0.act(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_top_node(&self) -> (ret: Result<IdxNode>)
        requires self.n().dom().contains(self.top()),
        ensures ret is Ok ==> ret->Ok_0.nv() == self.n()[self.top()] && ret->Ok_0.off() == self.top() && !ret->Ok_0.act(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_node(&mut self, node: IdxNode) -> (ret: Result<IdxNode>)
        requires old(self).n().dom().contains(node.off()), !node.act(), writable(node.nv()),
            marked(old(self).n(), node), // C01 C16
        ensures
            ret is Ok ==> upd_node(old(self).n(), final(self).n(), node.off(), ret->Ok_0.off(), node.nv()) && ret->Ok_0.nv() == node.nv() && !ret->Ok_0.act(),
            final(self).top() == old(self).top(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_new_node(&mut self, node: IdxNode) -> (ret: Result<IdxNode>)
        requires !node.act(), writable(node.nv()),
            node.0.is_dirty, // C01 C16
        ensures
            ret is Ok ==> !old(self).n().dom().contains(ret->Ok_0.off()) && ret->Ok_0.off().val != 0 && final(self).n() == old(self).n().insert(ret->Ok_0.off(), node.nv())
                && ret->Ok_0.nv() == node.nv() && !ret->Ok_0.act(),
            final(self).top() == old(self).top(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_node(&mut self, node: IdxNode) -> (ret: Result<NodePieceSize>)
        requires old(self).n().dom().contains(node.off()),
        ensures
            ret is Ok ==> final(self).n() == old(self).n().remove(node.off()),
            final(self).top() == old(self).top(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_top_node(&mut self, node: IdxNode) -> (ret: Result<IdxNode>)
        requires !node.act(), writable(node.nv()), node.off().val == 0 || old(self).n().dom().contains(node.off()),
            marked(old(self).n(), node), // C01 C16
        ensures
            ret is Ok ==> final(self).top() == ret->Ok_0.off() && ret->Ok_0.nv() == node.nv() && !ret->Ok_0.act() && (
                if node.off().val == 0 { !old(self).n().dom().contains(final(self).top()) && final(self).top().val != 0 && final(self).n() == old(self).n().insert(final(self).top(), node.nv()) }
                else { upd_node(old(self).n(), final(self).n(), node.off(), final(self).top(), node.nv()) }),
    { unimplemented!() }
}
