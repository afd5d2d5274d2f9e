pub struct VarFileNodeCache(pub VarFile, pub NodeCache, pub NodePieceOffset);
pub struct IdxFile(pub VarFileNodeCache);
impl VarFileNodeCache {
    pub open spec fn st(&self, s: Store) -> bool { store(self.0.img(), self.1, s) }
    pub open spec fn ok(&self) -> bool { stored(self.0, self.1) }
    /// the nodes stay as they are, whatever they are
    pub open spec fn keeps(&self, o: VarFileNodeCache) -> bool { keeps(o.0, o.1, self.0, self.1) && self.2 == o.2 && self.ok() }
    /// the nodes stay as they are, the one at off is among them
    pub open spec fn keeps_with(&self, o: VarFileNodeCache, off: u64) -> bool {
        self.0.piece_mgr == o.0.piece_mgr && self.2 == o.2
            && forall|s: Store| #[trigger] o.st(s) && s.dom().contains(off) ==> self.st(s) && outside(o.0.img(), self.0.img(), s)
    }
    /// all nodes of s are in the file itself
    pub open spec fn all_on_disk(&self, s: Store) -> bool {
        forall|o: u64| #[trigger] s.dom().contains(o) ==> node_at(self.0.disk(), o as int, s[o].sz as int, s[o].v)
    }
    pub open spec fn has_node(&self, off: NodePieceOffset) -> bool { exists|s: Store| #[trigger] self.st(s) && s.dom().contains(off.val) }
    pub open spec fn is_node(&self, off: NodePieceOffset, n: IdxNode) -> bool {
        &&& n.off() == off && !n.act()
        &&& forall|s: Store| #[trigger] self.st(s) && s.dom().contains(off.val) ==> n.nv() == s[off.val].v && n.0.size.val == s[off.val].sz
    }
    pub proof fn clean_store(&self, s: Store)
        requires self.st(s), self.1.clean(),
        ensures forall|o: u64| #[trigger] s.dom().contains(o) ==> node_at(self.0.img(), o as int, s[o].sz as int, s[o].v),
    {
        assert forall|o: u64| #[trigger] s.dom().contains(o) implies node_at(self.0.img(), o as int, s[o].sz as int, s[o].v) by {
            assert(holds(self.0.img(), self.1, o, s[o]));
            if self.1.has(o) { assert(!self.1.vec@[self.1.m()[o] as int].dirty); }
        }
    }
    pub proof fn same_nodes(&self, o: VarFileNodeCache)
        requires o.1.eqv(self.1), self.0 == o.0,
        ensures self.ok() ==> keeps(self.0, self.1, o.0, o.1), self.1.wf() == o.1.wf(), forall|s: Store| #[trigger] self.st(s) == o.st(s), self.1.clean() == o.1.clean(),
    {
        o.1.eqv_store(self.1);
    }
//@ file src/filedb/inner/idx.rs
//@ fn VarFileNodeCache::flush_node_cache
    requires old(self).ok(),
    ensures
        ret is Ok ==> final(self).keeps(*old(self)) && final(self).1.clean(), // C04 C05 C16
        old(self).1.clean() ==> final(self).0 == old(self).0 && final(self).1.clean(), // C04 C05
//@ start
    let ghost s = choose|s: Store| store(self.0.img(), self.1, s);
//@ after flush 0
    assert(store(self.0.img(), self.1, s));
//@ end
//@ fn VarFileNodeCache::flush_node_cache_clear
    requires old(self).ok(),
    ensures
        ret is Ok ==> final(self).keeps(*old(self)) && final(self).1.clean(), // C04 C05 C16
        old(self).1.clean() ==> final(self).0 == old(self).0 && final(self).1.clean(), // C04 C05
//@ start
    let ghost s = choose|s: Store| store(self.0.img(), self.1, s);
//@ after clear 0
    assert(store(self.0.img(), self.1, s));
//@ end
//@ fn VarFileNodeCache::read_node_no_cache
    requires offset.val != 0, offset.val & 0x0f == 0, exists|sz: int, v: NodeV| node_at(old(self).0.img(), offset.val as int, sz, v),
    ensures
        final(self).0.same(old(self).0), final(self).1 == old(self).1, final(self).2 == old(self).2,
        ret is Ok ==> ({
            let n = ret->Ok_0.0.0;
            &&& node_at(old(self).0.img(), offset.val as int, ret->Ok_0.1.val as int, n.nv()) // C01 C05 C16
            &&& n.offset == offset && n.size == ret->Ok_0.1 && !n.is_active && !n.is_dirty
        }),
//@ end
//@ fn VarFileNodeCache::read_node
    requires old(self).has_node(offset), offset.val & 0x0f == 0,
    ensures
        ret is Ok ==> final(self).keeps_with(*old(self), offset.val) && old(self).is_node(offset, ret->Ok_0), // C01 C05 C16
        old(self).1.clean() ==> final(self).0.same(old(self).0) && final(self).1.clean(), // C04 C05
//@ start
    let ghost f0 = *self;
    let ghost s0 = choose|s: Store| #[trigger] self.st(s) && s.dom().contains(offset.val);
    proof {
        assert(s0.dom().contains(offset.val));
        assert(holds(self.0.img(), self.1, offset.val, s0[offset.val]));
        if self.1.has(offset.val) { bean_of(self.1, offset.val); }
        assert(self.1.wf());
    }
//@ before return 0
    proof {
        f0.same_nodes(*self);
        assert(self.st(s0));
        assert forall|s: Store| #[trigger] f0.st(s) && s.dom().contains(offset.val) implies s[offset.val].sz == cached_node.0.size.val && s[offset.val].v == cached_node.nv() by {
            assert(holds(f0.0.img(), f0.1, offset.val, s[offset.val]));
        }
    }
//@ after get 0
    proof {
        f0.same_nodes(*self);
        assert(self.st(s0));
    }
    let ghost f1 = *self;
//@ before put 0
    let ghost f2 = *self;
    proof {
        assert(f2.st(s0)) by { assert(f2.0.img() == f1.0.img()); }
        assert forall|s: Store| #[trigger] f0.st(s) && s.dom().contains(offset.val) implies s[offset.val].sz == node_size.val && s[offset.val].v == node_.nv() by {
            assert(holds(f0.0.img(), f0.1, offset.val, s[offset.val]));
            node_at_fun(f0.0.img(), offset.val as int, s[offset.val].sz as int, s[offset.val].v, node_size.val as int, node_.nv());
        }
    }
    let ghost gn = node_;
//@ after put 0
    proof {
        assert forall|s: Store| #[trigger] f0.st(s) && s.dom().contains(offset.val) implies self.st(s) && outside(f0.0.img(), self.0.img(), s) by {
            assert(f1.st(s));
            assert(store(f2.0.img(), f2.1, s));
            assert(s.insert(offset.val, SNode { sz: gn.0.size.val, v: gn.nv() }) =~= s);
        }
    }
//@ end
}
