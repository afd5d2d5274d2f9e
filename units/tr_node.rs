// ---------------------------------------------------------------- nodes in memory
//@ file src/filedb/inner/idx.rs
//@ const NODE_SLOTS_MAX
//@ const NODE_SLOTS_MAX_HALF
pub mod idx { pub use super::NODE_SLOTS_MAX; pub use super::NODE_SLOTS_MAX_HALF; }

pub struct TreeNode {
    pub is_active: bool,
    pub is_dirty: bool,
    pub offset: NodePieceOffset,
    pub size: NodePieceSize,
    pub keys: Vec<KeyPieceOffset>,
    pub downs: Vec<NodePieceOffset>,
}
impl Clone for TreeNode {
    // derived in the source
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `.. Default::default()` of a TreeNode (derived in the source)
pub fn vdefault() -> (r: TreeNode)
    ensures !r.is_active, !r.is_dirty, r.offset.val == 0, r.size.val == 0, r.keys@ == Seq::<KeyPieceOffset>::empty(), r.downs@ == Seq::<NodePieceOffset>::empty(),
{ TreeNode { is_active: false, is_dirty: false, offset: Offset { val: 0 }, size: Size { val: 0 }, keys: Vec::new(), downs: Vec::new() } }
/// a slice of a vector, from a pointer
pub fn vslice<T>(v: &Vec<T>, st: usize, n: usize) -> (r: &[T])
    requires st + n <= v@.len(),
    ensures r@ == v@.subrange(st as int, st + n),
{ let l = v.len(); vstd::slice::slice_subrange(v.as_slice(), st, st + n) }
pub open spec fn leaf_d(d: Seq<NodePieceOffset>) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).val == 0 }
impl TreeNode {
    pub open spec fn nv(&self) -> NodeV { NodeV { keys: self.keys@, downs: self.downs@ } }
    /// the same node but for its content
    pub open spec fn same(&self, o: TreeNode) -> bool { self.offset == o.offset && self.size == o.size && self.is_active == o.is_active }
//@ file src/filedb/inner/tr.rs
//@ fn TreeNode::offset
    ensures ret == self.offset,
//@ end
//@ fn TreeNode::keys
    ensures ret@ == self.keys@,
//@ end
//@ fn TreeNode::keys_is_empty
    ensures ret == (self.keys@.len() == 0),
//@ end
//@ fn TreeNode::keys_len
    ensures ret == self.keys@.len(),
//@ end
//@ fn TreeNode::keys_get
    requires idx < self.keys@.len(),
    ensures ret == self.keys@[idx as int],
//@ end
//@ fn TreeNode::keys_push
    ensures final(self).keys@ == old(self).keys@.push(val), final(self).downs@ == old(self).downs@, final(self).same(*old(self)), final(self).is_dirty,
//@ end
//@ fn TreeNode::keys_insert
    requires idx <= old(self).keys@.len(),
    ensures final(self).keys@ == old(self).keys@.insert(idx as int, val), final(self).downs@ == old(self).downs@, final(self).same(*old(self)), final(self).is_dirty,
//@ end
//@ fn TreeNode::keys_remove
    requires idx < old(self).keys@.len(),
    ensures ret == old(self).keys@[idx as int], final(self).keys@ == old(self).keys@.remove(idx as int), final(self).downs@ == old(self).downs@, final(self).same(*old(self)), final(self).is_dirty,
//@ end
//@ fn TreeNode::downs_is_empty
    ensures ret == (self.downs@.len() == 0),
//@ end
//@ fn TreeNode::downs_len
    ensures ret == self.downs@.len(),
//@ end
//@ fn TreeNode::downs_get
    requires idx < self.downs@.len(),
    ensures ret == self.downs@[idx as int],
//@ end
//@ fn TreeNode::downs_push
    ensures final(self).downs@ == old(self).downs@.push(val), final(self).keys@ == old(self).keys@, final(self).same(*old(self)), final(self).is_dirty,
//@ end
//@ fn TreeNode::downs_insert
    requires idx <= old(self).downs@.len(),
    ensures final(self).downs@ == old(self).downs@.insert(idx as int, val), final(self).keys@ == old(self).keys@, final(self).same(*old(self)), final(self).is_dirty,
//@ end
//@ fn TreeNode::downs_remove
    requires idx < old(self).downs@.len(),
    ensures ret == old(self).downs@[idx as int], final(self).downs@ == old(self).downs@.remove(idx as int), final(self).keys@ == old(self).keys@, final(self).same(*old(self)), final(self).is_dirty,
//@ end
//@ fn TreeNode::is_over_len
    ensures ret == (self.keys@.len() >= NODE_SLOTS_MAX || self.downs@.len() > NODE_SLOTS_MAX),
//@ end
//@ fn TreeNode::is_active_on_insert
    ensures ret == self.is_active,
//@ end
//@ fn TreeNode::is_active_on_delete
    ensures ret == (self.downs@.len() < NODE_SLOTS_MAX_HALF),
//@ end
//@ fn TreeNode::keys_get_unchecked
    requires idx < self.keys@.len(),
    ensures ret == self.keys@[idx as int],
//@ end
//@ fn TreeNode::downs_get_unchecked
    requires idx < self.downs@.len(),
    ensures ret == self.downs@[idx as int],
//@ end
//@ fn TreeNode::keys_set
    requires idx < old(self).keys@.len(),
    ensures final(self).keys@ =~= old(self).keys@.update(idx as int, val), final(self).downs@ == old(self).downs@, final(self).same(*old(self)),
        final(self).is_dirty || final(self).nv() == old(self).nv(), old(self).is_dirty ==> final(self).is_dirty,
//@ end
//@ fn TreeNode::downs_set
    requires idx < old(self).downs@.len(),
    ensures final(self).downs@ =~= old(self).downs@.update(idx as int, val), final(self).keys@ == old(self).keys@, final(self).same(*old(self)),
        final(self).is_dirty || final(self).nv() == old(self).nv(), old(self).is_dirty ==> final(self).is_dirty,
//@ end
//@ fn TreeNode::keys_downs_extend_from_node
    requires old(self).keys@.len() == old(self).downs@.len(), st <= other.keys@.len(), st <= other.downs@.len(),
    ensures
        final(self).keys@ == old(self).keys@ + other.keys@.subrange(st as int, other.keys@.len() as int),
        final(self).downs@ == old(self).downs@ + other.downs@.subrange(st as int, other.downs@.len() as int),
        final(self).same(*old(self)), final(self).is_dirty,
//@ tail
    assert(self.keys@ =~= old(self).keys@ + other.keys@.subrange(st as int, other.keys@.len() as int));
    assert(self.downs@ =~= old(self).downs@ + other.downs@.subrange(st as int, other.downs@.len() as int));
//@ end
//@ fn TreeNode::keys_downs_resize
    requires 1 <= new_downs_size <= old(self).keys@.len(), old(self).keys@.len() + 1 == old(self).downs@.len(),
    ensures
        ret == old(self).keys@[new_downs_size - 1],
        final(self).keys@ == old(self).keys@.subrange(0, new_downs_size - 1),
        final(self).downs@ == old(self).downs@.subrange(0, new_downs_size as int),
        final(self).same(*old(self)), final(self).is_dirty,
//@ tail
    assert(self.keys@ =~= old(self).keys@.subrange(0, new_downs_size - 1));
    assert(self.downs@ =~= old(self).downs@.subrange(0, new_downs_size as int));
//@ end
//@ fn TreeNode::create_empty_keys_vec
    ensures ret@ == Seq::<KeyPieceOffset>::empty(),
//@ end
//@ fn TreeNode::create_empty_downs_vec
    ensures ret@ == Seq::<NodePieceOffset>::empty(),
//@ end
//@ fn TreeNode::new_empty
    ensures ret.keys@ == Seq::<KeyPieceOffset>::empty(), ret.downs@ == Seq::<NodePieceOffset>::empty(), !ret.is_active,
//@ end
//@ fn TreeNode::new
    ensures ret.keys@ == Seq::<KeyPieceOffset>::empty(), ret.downs@ == seq![Offset { val: 0 }], !ret.is_active, ret.is_dirty, ret.offset == offset,
//@ end
//@ fn TreeNode::with_node_size
    ensures ret.keys@ == Seq::<KeyPieceOffset>::empty(), ret.downs@ == seq![Offset { val: 0 }], !ret.is_active, ret.is_dirty, ret.offset == offset, ret.size == size,
//@ tail
    assert(downs@ =~= seq![Offset { val: 0 }]);
//@ end
//@ fn TreeNode::with_node_size_vec_1
    ensures ret.keys@ == keys@, ret.downs@ == downs@, !ret.is_active, !ret.is_dirty, ret.offset == offset, ret.size == size,
//@ end
//@ fn TreeNode::new_active
    ensures ret.keys@ == seq![piece_offset], ret.downs@ == seq![l_node_offset, r_node_offset], ret.is_active, ret.is_dirty, ret.offset.val == 0,
//@ tail
    assert(r.keys@ =~= seq![piece_offset]);
    assert(r.downs@ =~= seq![l_node_offset, r_node_offset]);
//@ end
//@ fn TreeNode::deactivate
    requires self.is_active ==> self.keys@.len() == 1 && self.downs@.len() == 2,
    ensures !ret.is_active, ret.nv() == self.nv(), self.is_active ==> ret.offset.val == 0 && ret.is_dirty, !self.is_active ==> ret == *self,
//@ after push 2
    assert(keys@ =~= self.keys@);
    assert(downs@ =~= self.downs@);
//@ end
//@ fn TreeNode::set_offset
    ensures final(self).nv() == old(self).nv(), final(self).is_active == old(self).is_active, final(self).is_dirty == old(self).is_dirty, final(self).size == old(self).size, final(self).offset == offset,
//@ end
//@ fn TreeNode::set_size
    ensures final(self).nv() == old(self).nv(), final(self).is_active == old(self).is_active, final(self).is_dirty == old(self).is_dirty, final(self).size == size, final(self).offset == old(self).offset,
//@ end
//@ fn TreeNode::size
    ensures ret == self.size,
//@ end
//@ fn TreeNode::is_leaf
    ensures ret == leaf_d(self.downs@),
//@ loop 0
    invariant
        ptr + len == self.downs@.len(), ptr + len <= usize::MAX,
        forall|i: int| 0 <= i < ptr ==> (#[trigger] self.downs@[i]).val == 0,
    decreases len,
//@ end
}
pub struct IdxNode(pub TreeNode);
impl IdxNode {
    pub open spec fn nv(&self) -> NodeV { self.0.nv() }
    pub open spec fn off(&self) -> NodePieceOffset { self.0.offset }
    pub open spec fn act(&self) -> bool { self.0.is_active }
    pub fn get_mut(&mut self) -> (r: &mut TreeNode)
        ensures *r == old(self).0, final(self).0 == *final(r),
    { &mut self.0 }
    pub fn get_ref(&self) -> (r: &TreeNode)
        ensures *r == self.0,
    { &self.0 }
//@ fn IdxNode::new
    ensures ret.nv().keys == Seq::<KeyPieceOffset>::empty(), ret.nv().downs == seq![Offset { val: 0 }], !ret.act(), ret.0.is_dirty, ret.off() == offset,
//@ end
//@ fn IdxNode::new_empty
    ensures ret.nv().keys == Seq::<KeyPieceOffset>::empty(), ret.nv().downs == Seq::<NodePieceOffset>::empty(), !ret.act(),
//@ end
//@ fn IdxNode::new_active
    ensures ret.nv().keys == seq![piece_offset], ret.nv().downs == seq![l_node_offset, r_node_offset], ret.act(), ret.0.is_dirty, ret.off().val == 0,
//@ end
//@ fn IdxNode::with_node_size_vec_1
    ensures ret.0.keys@ == keys@, ret.0.downs@ == downs@, !ret.act(), !ret.0.is_dirty, ret.0.offset == offset, ret.0.size == size,
//@ end
//@ fn IdxNode::deactivate
    requires self.act() ==> self.nv().keys.len() == 1 && self.nv().downs.len() == 2,
    ensures !ret.act(), ret.nv() == self.nv(), self.act() ==> ret.off().val == 0 && ret.0.is_dirty, !self.act() ==> ret == *self,
//@ end
//@ fn IdxNode::is_over_len
    ensures ret == (self.nv().keys.len() >= NODE_SLOTS_MAX || self.nv().downs.len() > NODE_SLOTS_MAX),
//@ end
//@ fn IdxNode::is_active_on_insert
    ensures ret == self.act(),
//@ end
//@ fn IdxNode::is_active_on_delete
    ensures ret == (self.nv().downs.len() < NODE_SLOTS_MAX_HALF),
//@ end
}

