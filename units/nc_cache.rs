// ---------------------------------------------------------------- the map from offsets to cache places (offidx.rs)
#[verifier::external_body]
pub struct HashMap { _p: Vec<u8> }
impl HashMap {
    pub uninterp spec fn m(&self) -> Map<u64, usize>;
    // std::collections::HashMap of u64, by contract
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, h: u64) -> (r: Self) ensures r.m() == Map::<u64, usize>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &u64) -> (r: Option<&usize>) ensures r == (if self.m().dom().contains(*k) { Some(&self.m()[*k]) } else { None }), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: usize) -> (r: Option<usize>) ensures final(self).m() == old(self).m().insert(k, v), { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &u64) -> (r: Option<usize>)
        ensures final(self).m() == old(self).m().remove(*k), r == (if old(self).m().dom().contains(*k) { Some(old(self).m()[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).m() == Map::<u64, usize>::empty(), { unimplemented!() }
}
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None }),
;
pub struct OffsetIndex { pub map: HashMap }
impl OffsetIndex {
    pub open spec fn m(&self) -> Map<u64, usize> { self.map.m() }
//@ file src/filedb/inner/offidx.rs
//@ fn OffsetIndex::get
    ensures final(self).m() == old(self).m(), ret == (if old(self).m().dom().contains(*offset) { Some(old(self).m()[*offset]) } else { None }),
//@ end
//@ fn OffsetIndex::insert
    ensures final(self).m() == old(self).m().insert(*offset, idx),
//@ end
//@ fn OffsetIndex::remove
    ensures final(self).m() == old(self).m().remove(*offset), ret == (if old(self).m().dom().contains(*offset) { Some(old(self).m()[*offset]) } else { None }),
//@ end
//@ fn OffsetIndex::clear
    ensures final(self).m() == Map::<u64, usize>::empty(),
//@ end
    #[verifier::external_body]
    pub fn with_capacity(_cap: usize) -> (ret: Self) ensures ret.m() == Map::<u64, usize>::empty(), { unimplemented!() }
}
//@ include node_clone.rs
// ---------------------------------------------------------------- the node cache (nc.rs)
pub struct NodeCacheBean { pub node: Option<IdxNode>, pub node_offset: NodePieceOffset, pub node_size: NodePieceSize, pub dirty: bool }
pub struct NodeCache { pub vec: Vec<NodeCacheBean>, pub map: OffsetIndex, pub cache_size: usize }
/// a node of the store: the size of its piece and its content
pub ghost struct SNode { pub sz: u32, pub v: NodeV }
pub type Store = Map<u64, SNode>;
impl NodeCacheBean {
    pub open spec fn live(&self) -> bool { self.node is Some }
    pub open spec fn n(&self) -> TreeNode { self.node->Some_0.0 }
    /// what a kept node has to be
    pub open spec fn ok(&self) -> bool {
        self.live() ==> {
            let n = self.n();
            &&& n.offset == self.node_offset && n.size == self.node_size && !n.is_active
            &&& okv(n.nv()) && nbytes(n.nv()) <= n.size.val <= u16::MAX
        }
    }
    /// a write of this bean to the file is due
    pub open spec fn due(&self) -> bool { self.dirty && self.n().is_dirty }
//@ file src/filedb/inner/nc.rs
//@ fn NodeCacheBean::new
    ensures ret.node == Some(node), ret.node_offset == node.off(), ret.node_size == node_size, ret.dirty == dirty,
//@ end
}
//@ const CACHE_SIZE
impl NodeCache {
    pub open spec fn m(&self) -> Map<u64, usize> { self.map.m() }
    pub open spec fn has(&self, off: u64) -> bool { self.m().dom().contains(off) }
    pub open spec fn bean(&self, off: u64) -> NodeCacheBean { self.vec@[self.m()[off] as int] }
    /// the map and the kept nodes belong together
    pub open spec fn wf(&self) -> bool {
        &&& forall|off: u64| #[trigger] self.has(off) ==> self.m()[off] < self.vec@.len() && self.bean(off).live() && self.bean(off).node_offset.val == off
        &&& forall|i: int| 0 <= i < self.vec@.len() && (#[trigger] self.vec@[i]).live() ==> self.has(self.vec@[i].node_offset.val) && self.m()[self.vec@[i].node_offset.val] == i
        &&& forall|i: int| 0 <= i < self.vec@.len() ==> (#[trigger] self.vec@[i]).ok()
    }
    pub open spec fn eqv(&self, o: NodeCache) -> bool { self.vec@ =~= o.vec@ && self.m() == o.m() && self.cache_size == o.cache_size }
    /// nothing is left to be written
    pub open spec fn clean(&self) -> bool { forall|i: int| 0 <= i < self.vec@.len() ==> !(#[trigger] self.vec@[i]).dirty }
}
/// pieces of a store do not overlap and lie in the file, behind the header
pub open spec fn pieces(len: int, s: Store) -> bool {
    &&& forall|o: u64| #[trigger] s.dom().contains(o) ==> 128 <= o && o + s[o].sz <= len && 6 <= s[o].sz
    &&& forall|o: u64, p: u64| #[trigger] s.dom().contains(o) && #[trigger] s.dom().contains(p) && o < p ==> o + s[o].sz <= p
}
/// the file and the cache together hold the nodes of s: a node is kept (and due to be written, or equal to the file) or it is in the file
pub open spec fn store(img: Seq<u8>, nc: NodeCache, s: Store) -> bool {
    &&& nc.wf()
    &&& pieces(img.len() as int, s)
    &&& forall|o: u64| #[trigger] nc.has(o) ==> s.dom().contains(o)
    &&& forall|o: u64| #[trigger] s.dom().contains(o) ==> holds(img, nc, o, s[o])
}
pub open spec fn holds(img: Seq<u8>, nc: NodeCache, o: u64, n: SNode) -> bool {
    if nc.has(o) {
        let b = nc.bean(o);
        b.n().nv() == n.v && b.node_size.val == n.sz && u16_at(img, o as int) == n.sz && (b.due() || node_at(img, o as int, n.sz as int, n.v))
    } else {
        node_at(img, o as int, n.sz as int, n.v)
    }
}
/// nothing outside of the nodes of s differs
pub open spec fn outside(a: Seq<u8>, b: Seq<u8>, s: Store) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() && (forall|o: u64| #[trigger] s.dom().contains(o) ==> !(o <= j < o + s[o].sz)) ==> #[trigger] a[j] == b[j]
}
/// the store stays as it is, whatever it is, and nothing outside of it is touched
pub open spec fn keeps(a: VarFile, na: NodeCache, b: VarFile, nb: NodeCache) -> bool {
    b.piece_mgr == a.piece_mgr && forall|s: Store| #[trigger] store(a.img(), na, s) ==> store(b.img(), nb, s) && outside(a.img(), b.img(), s)
}
pub open spec fn stored(a: VarFile, na: NodeCache) -> bool { exists|s: Store| store(a.img(), na, s) }
pub proof fn keeps_trans(a: VarFile, na: NodeCache, b: VarFile, nb: NodeCache, c: VarFile, nc: NodeCache)
    requires keeps(a, na, b, nb), keeps(b, nb, c, nc),
    ensures keeps(a, na, c, nc),
{
    assert forall|s: Store| #[trigger] store(a.img(), na, s) implies store(c.img(), nc, s) && outside(a.img(), c.img(), s) by {
        assert(store(b.img(), nb, s));
    }
}
pub open spec fn wrote(a: Seq<u8>, b: Seq<u8>, o: NodeCacheBean, f: NodeCacheBean) -> bool {
    &&& f.node_offset == o.node_offset && f.node_size == o.node_size && !f.dirty && f.live() == o.live()
    &&& o.live() ==> f.n().nv() == o.n().nv() && f.n().same(o.n())
    &&& if o.dirty && o.live() && o.n().is_dirty {
            node_at(b, o.node_offset.val as int, o.node_size.val as int, o.n().nv()) && only(a, b, o.node_offset.val as int, o.node_size.val as int)
        } else { a == b }
}
/// a node of the store, or a new one in a piece of its own whose size is in the file
pub open spec fn put_pre(img: Seq<u8>, na: NodeCache, s: Store, node: IdxNode, dirty: bool) -> bool {
    let o = node.off().val;
    let n = SNode { sz: node.0.size.val, v: node.nv() };
    if s.dom().contains(o) { s[o].sz == n.sz && (dirty && node.0.is_dirty || s[o].v == n.v && !(na.has(o) && na.bean(o).due())) }
    else { pieces(img.len() as int, s.insert(o, n)) && u16_at(img, o as int) == n.sz && dirty && node.0.is_dirty }
}
/// a node was put to the cache
pub open spec fn put_post(a: VarFile, na: NodeCache, b: VarFile, nb: NodeCache, node: IdxNode, dirty: bool) -> bool {
    let o = node.off().val;
    let n = SNode { sz: node.0.size.val, v: node.nv() };
    b.piece_mgr == a.piece_mgr && forall|s: Store| #[trigger] store(a.img(), na, s) && put_pre(a.img(), na, s, node, dirty)
        ==> store(b.img(), nb, s.insert(o, n)) && outside(a.img(), b.img(), s)
}
/// the size of a piece that is not of the store stays
proof fn other_size(a: Seq<u8>, b: Seq<u8>, s: Store, o: u64, n: SNode)
    requires outside(a, b, s), !s.dom().contains(o), pieces(a.len() as int, s.insert(o, n)),
    ensures u16_at(a, o as int) == u16_at(b, o as int), pieces(b.len() as int, s.insert(o, n)),
{
    let s2 = s.insert(o, n);
    assert(s2.dom().contains(o));
    assert forall|j: int| o <= j < o + 2 implies a[j] == b[j] by {
        assert forall|p: u64| #[trigger] s.dom().contains(p) implies !(p <= j < p + s[p].sz) by { assert(s2.dom().contains(p)); }
    }
    assert(at(a, o as int, 2) =~= at(b, o as int, 2));
}
pub proof fn put_trans(a: VarFile, na: NodeCache, b: VarFile, nb: NodeCache, nc: NodeCache, node: IdxNode, dirty: bool)
    requires keeps(a, na, b, nb), put_post(b, nb, b, nc, node, dirty), !na.has(node.off().val), !nb.has(node.off().val),
    ensures put_post(a, na, b, nc, node, dirty),
{
    let o = node.off().val;
    let n = SNode { sz: node.0.size.val, v: node.nv() };
    assert forall|s: Store| #[trigger] store(a.img(), na, s) && put_pre(a.img(), na, s, node, dirty) implies store(b.img(), nc, s.insert(o, n)) && outside(a.img(), b.img(), s) by {
        assert(store(b.img(), nb, s));
        if !s.dom().contains(o) { other_size(a.img(), b.img(), s, o, n); }
    }
}
/// in the place of an older value of the node
pub proof fn put_same(f: VarFile, na: NodeCache, nb: NodeCache, node: IdxNode, dirty: bool)
    requires
        na.wf(), na.has(node.off().val), nb.m() == na.m(), nb.vec@ == na.vec@.update(na.m()[node.off().val] as int, nb.bean(node.off().val)),
        ({ let b = nb.bean(node.off().val); b.node == Some(node) && b.node_size == node.0.size && b.node_offset == node.off() && b.ok() && b.dirty == (dirty || na.bean(node.off().val).dirty) }),
    ensures put_post(f, na, f, nb, node, dirty), nb.wf(),
{
    let o = node.off().val;
    let i = na.m()[o] as int;
    assert(na.has(o));
    assert(nb.wf()) by {
        assert forall|q: u64| #[trigger] nb.has(q) implies nb.m()[q] < nb.vec@.len() && nb.bean(q).live() && nb.bean(q).node_offset.val == q by { assert(na.has(q)); }
        assert forall|j: int| 0 <= j < nb.vec@.len() && (#[trigger] nb.vec@[j]).live() implies nb.has(nb.vec@[j].node_offset.val) && nb.m()[nb.vec@[j].node_offset.val] == j by {
            assert(na.vec@[j].live());
        }
        assert forall|j: int| 0 <= j < nb.vec@.len() implies (#[trigger] nb.vec@[j]).ok() by { assert(na.vec@[j].ok()); }
    }
    let n = SNode { sz: node.0.size.val, v: node.nv() };
    assert forall|s: Store| #[trigger] store(f.img(), na, s) && put_pre(f.img(), na, s, node, dirty) implies store(f.img(), nb, s.insert(o, n)) by {
        let s2 = s.insert(o, n);
        assert(holds(f.img(), na, o, s[o]));
        assert forall|p: u64| #[trigger] s2.dom().contains(p) implies holds(f.img(), nb, p, s2[p]) by {
            if p != o { assert(s.dom().contains(p)); assert(holds(f.img(), na, p, s[p])); if na.has(p) { assert(na.m()[p] != i) by { assert(na.bean(p).node_offset.val == p); } } }
        }
        assert forall|p: u64| #[trigger] nb.has(p) implies s2.dom().contains(p) by { assert(na.has(p)); }
        assert forall|p: u64| #[trigger] s2.dom().contains(p) implies 128 <= p && p + s2[p].sz <= f.img().len() && 6 <= s2[p].sz by { assert(s.dom().contains(p)); }
        assert forall|p: u64, q: u64| #[trigger] s2.dom().contains(p) && #[trigger] s2.dom().contains(q) && p < q implies p + s2[p].sz <= q by { assert(s.dom().contains(p) && s.dom().contains(q)); }
    }
}
/// at a new place of the cache
pub proof fn put_new(f: VarFile, na: NodeCache, nb: NodeCache, node: IdxNode, dirty: bool)
    requires
        na.wf(), !na.has(node.off().val), nb.m() == na.m().insert(node.off().val, na.vec@.len() as usize), na.vec@.len() <= usize::MAX,
        nb.vec@.len() == na.vec@.len() + 1, nb.vec@ == na.vec@.push(nb.vec@[na.vec@.len() as int]),
        ({ let b = nb.bean(node.off().val); b.node == Some(node) && b.node_size == node.0.size && b.node_offset == node.off() && b.ok() && b.dirty == dirty }),
    ensures put_post(f, na, f, nb, node, dirty), nb.wf(),
{
    let o = node.off().val;
    let i = na.vec@.len() as int;
    assert(nb.wf()) by {
        assert forall|q: u64| #[trigger] nb.has(q) implies nb.m()[q] < nb.vec@.len() && nb.bean(q).live() && nb.bean(q).node_offset.val == q by { if q != o { assert(na.has(q)); } }
        assert forall|j: int| 0 <= j < nb.vec@.len() && (#[trigger] nb.vec@[j]).live() implies nb.has(nb.vec@[j].node_offset.val) && nb.m()[nb.vec@[j].node_offset.val] == j by {
            if j < i { assert(na.vec@[j].live()); assert(na.has(na.vec@[j].node_offset.val)); }
        }
        assert forall|j: int| 0 <= j < nb.vec@.len() implies (#[trigger] nb.vec@[j]).ok() by { if j < i { assert(na.vec@[j].ok()); } }
    }
    let n = SNode { sz: node.0.size.val, v: node.nv() };
    assert forall|s: Store| #[trigger] store(f.img(), na, s) && put_pre(f.img(), na, s, node, dirty) implies store(f.img(), nb, s.insert(o, n)) by {
        let s2 = s.insert(o, n);
        if s.dom().contains(o) { assert(holds(f.img(), na, o, s[o])); }
        assert(pieces(f.img().len() as int, s2));
        assert forall|p: u64| #[trigger] s2.dom().contains(p) implies holds(f.img(), nb, p, s2[p]) by {
            if p != o { assert(s.dom().contains(p)); assert(holds(f.img(), na, p, s[p])); if na.has(p) { assert(na.m()[p] != i); } }
        }
        assert forall|p: u64| #[trigger] nb.has(p) implies s2.dom().contains(p) by { if p != o { assert(na.has(p)); } }
    }
}
pub proof fn bean_of(c: NodeCache, o: u64)
    requires c.wf(), c.has(o),
    ensures c.m()[o] < c.vec@.len(), c.bean(o).live(), c.bean(o).ok(), c.bean(o).node_offset.val == o, c.bean(o).n().offset.val == o,
{}
pub proof fn del_post_(na: NodeCache, nb: NodeCache, o: u64)
    requires
        na.wf(), nb.m() == na.m().remove(o),
        if na.has(o) { nb.vec@ == na.vec@.update(na.m()[o] as int, nb.vec@[na.m()[o] as int]) && nb.vec@[na.m()[o] as int].node is None } else { nb.vec@ == na.vec@ },
    ensures nb.wf(), forall|img: Seq<u8>, s: Store| #[trigger] store(img, na, s) ==> store(img, nb, s.remove(o)),
{
    assert(nb.wf()) by {
        assert forall|q: u64| #[trigger] nb.has(q) implies nb.m()[q] < nb.vec@.len() && nb.bean(q).live() && nb.bean(q).node_offset.val == q by { assert(na.has(q)); if na.has(o) { assert(na.bean(o).node_offset.val == o); } }
        assert forall|j: int| 0 <= j < nb.vec@.len() && (#[trigger] nb.vec@[j]).live() implies nb.has(nb.vec@[j].node_offset.val) && nb.m()[nb.vec@[j].node_offset.val] == j by {
            assert(na.vec@[j].live());
        }
        assert forall|j: int| 0 <= j < nb.vec@.len() implies (#[trigger] nb.vec@[j]).ok() by { assert(na.vec@[j].ok()); }
    }
    assert forall|img: Seq<u8>, s: Store| #[trigger] store(img, na, s) implies store(img, nb, s.remove(o)) by {
        let s2 = s.remove(o);
        assert forall|p: u64| #[trigger] s2.dom().contains(p) implies holds(img, nb, p, s2[p]) by {
            assert(s.dom().contains(p)); assert(holds(img, na, p, s[p]));
            if na.has(p) { assert(na.bean(p).node_offset.val == p); if na.has(o) { assert(na.bean(o).node_offset.val == o); } }
        }
        assert forall|p: u64| #[trigger] nb.has(p) implies s2.dom().contains(p) by { assert(na.has(p)); }
        assert forall|p: u64| #[trigger] s2.dom().contains(p) implies 128 <= p && p + s2[p].sz <= img.len() && 6 <= s2[p].sz by { assert(s.dom().contains(p)); }
        assert forall|p: u64, q: u64| #[trigger] s2.dom().contains(p) && #[trigger] s2.dom().contains(q) && p < q implies p + s2[p].sz <= q by { assert(s.dom().contains(p) && s.dom().contains(q)); }
    }
}
//@ fn write_node
    requires old(ncb).ok(), old(ncb).live() && old(ncb).dirty ==> old(ncb).node_offset.val != 0 && old(ncb).node_offset.val + old(ncb).node_size.val <= old(file).len(),
    ensures
        final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> wrote(old(file).img(), final(file).img(), *old(ncb), *final(ncb)), // C01 C04 C05 C16
        !old(ncb).dirty ==> *final(file) == *old(file) && !final(ncb).dirty,
//@ end
/// the bean i of the cache was written
pub proof fn flush_step(a: VarFile, na: NodeCache, b: VarFile, nb: NodeCache, i: int)
    requires
        na.wf(), 0 <= i < na.vec@.len(), nb.map == na.map, b.piece_mgr == a.piece_mgr, nb.vec@ == na.vec@.update(i, nb.vec@[i]),
        wrote(a.img(), b.img(), na.vec@[i], nb.vec@[i]), na.vec@[i].live() ==> na.vec@[i].node_offset.val + na.vec@[i].node_size.val <= a.len(),
    ensures keeps(a, na, b, nb), nb.wf(),
{
    let o = na.vec@[i];
    let f = nb.vec@[i];
    assert(nb.wf()) by {
        assert forall|off: u64| #[trigger] nb.has(off) implies nb.m()[off] < nb.vec@.len() && nb.bean(off).live() && nb.bean(off).node_offset.val == off by { assert(na.has(off)); }
        assert forall|j: int| 0 <= j < nb.vec@.len() && (#[trigger] nb.vec@[j]).live() implies nb.has(nb.vec@[j].node_offset.val) && nb.m()[nb.vec@[j].node_offset.val] == j by {
            assert(na.vec@[j].live());
        }
        assert forall|j: int| 0 <= j < nb.vec@.len() implies (#[trigger] nb.vec@[j]).ok() by { assert(na.vec@[j].ok()); }
    }
    assert forall|s: Store| #[trigger] store(a.img(), na, s) implies store(b.img(), nb, s) && outside(a.img(), b.img(), s) by {
        let off = o.node_offset.val;
        if o.dirty && o.live() && o.n().is_dirty {
            assert(na.has(off));
            assert(s.dom().contains(off));
            assert(holds(a.img(), na, off, s[off]));
            assert forall|j: int| 0 <= j < a.len() && (forall|o: u64| #[trigger] s.dom().contains(o) ==> !(o <= j < o + s[o].sz)) implies #[trigger] a.img()[j] == b.img()[j] by { }
        }
        assert forall|p: u64| #[trigger] s.dom().contains(p) implies holds(b.img(), nb, p, s[p]) by {
            assert(holds(a.img(), na, p, s[p]));
            if o.dirty && o.live() && o.n().is_dirty {
                if p != off {
                    assert(at(a.img(), p as int, 2) =~= at(b.img(), p as int, 2));
                    if node_at(a.img(), p as int, s[p].sz as int, s[p].v) { node_at_frame(a.img(), b.img(), p as int, s[p].sz as int, s[p].v); }
                }
            }
        }
        assert forall|p: u64| #[trigger] nb.has(p) implies s.dom().contains(p) by { assert(na.has(p)); }
    }
}
impl NodeCache {
pub proof fn eqv_store(&self, o: NodeCache)
    requires self.eqv(o),
    ensures self.wf() == o.wf(), forall|img: Seq<u8>, s: Store| #[trigger] store(img, *self, s) == store(img, o, s),
{
    if self.wf() { assert(o.wf()) by {
        assert forall|off: u64| #[trigger] o.has(off) implies o.m()[off] < o.vec@.len() && o.bean(off).live() && o.bean(off).node_offset.val == off by { assert(self.has(off)); }
        assert forall|i: int| 0 <= i < o.vec@.len() && (#[trigger] o.vec@[i]).live() implies o.has(o.vec@[i].node_offset.val) && o.m()[o.vec@[i].node_offset.val] == i by { assert(self.has(self.vec@[i].node_offset.val)); }
    } }
    if o.wf() { assert(self.wf()) by {
        assert forall|off: u64| #[trigger] self.has(off) implies self.m()[off] < self.vec@.len() && self.bean(off).live() && self.bean(off).node_offset.val == off by { assert(o.has(off)); }
        assert forall|i: int| 0 <= i < self.vec@.len() && (#[trigger] self.vec@[i]).live() implies self.has(self.vec@[i].node_offset.val) && self.m()[self.vec@[i].node_offset.val] == i by { assert(o.has(o.vec@[i].node_offset.val)); }
    } }
    assert forall|img: Seq<u8>, s: Store| #[trigger] store(img, *self, s) == store(img, o, s) by {
        if store(img, *self, s) {
            assert forall|q: u64| #[trigger] o.has(q) implies s.dom().contains(q) by { assert(self.has(q)); }
            assert forall|q: u64| #[trigger] s.dom().contains(q) implies holds(img, o, q, s[q]) by { assert(holds(img, *self, q, s[q])); }
        }
        if store(img, o, s) {
            assert forall|q: u64| #[trigger] self.has(q) implies s.dom().contains(q) by { assert(o.has(q)); }
            assert forall|q: u64| #[trigger] s.dom().contains(q) implies holds(img, *self, q, s[q]) by { assert(holds(img, o, q, s[q])); }
        }
    }
}
//@ fn NodeCache::with_cache_size
    ensures ret.wf(), ret.m() == Map::<u64, usize>::empty(), ret.vec@.len() == 0, ret.cache_size == cache_size,
//@ end
//@ fn NodeCache::new
    ensures ret.wf(), ret.m() == Map::<u64, usize>::empty(), ret.vec@.len() == 0,
//@ end
//@ fn NodeCache::touch
    ensures *final(self) == *old(self),
//@ end
//@ fn NodeCache::flush
    requires stored(*old(file), *old(self)),
    ensures
        final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> keeps(*old(file), *old(self), *final(file), *final(self)), // C01 C05 C06 C16
        ret is Ok ==> final(self).clean(), // C04 C05
        old(self).clean() ==> *final(file) == *old(file) && final(self).clean(), // C04 C05
        ret is Ok ==> final(self).map == old(self).map && final(self).vec@.len() == old(self).vec@.len(),
//@ loop 0
    invariant
        stored(*old(file), *old(self)),
        keeps(*old(file), *old(self), *file, *self),
        self.map == old(self).map, self.vec@.len() == old(self).vec@.len(),
        forall|j: int| 0 <= j < i_ ==> !(#[trigger] self.vec@[j]).dirty,
        old(self).clean() ==> *file == *old(file) && self.clean(),
//@ loopstart 0
    let ghost s = choose|s: Store| store(old(file).img(), *old(self), s);
    let ghost f0 = *file;
    let ghost c0 = *self;
    assert(store(file.img(), *self, s));
    proof {
        if c0.vec@[i_ as int].live() {
            let off = c0.vec@[i_ as int].node_offset.val;
            assert(c0.has(off));
            assert(s.dom().contains(off));
            assert(holds(f0.img(), c0, off, s[off]));
        }
    }
//@ loopend 0
    proof {
        assert(self.vec@ =~= c0.vec@.update(i_ as int, self.vec@[i_ as int]));
        flush_step(f0, c0, *file, *self, i_ as int);
        keeps_trans(*old(file), *old(self), f0, c0, *file, *self);
    }
//@ end
//@ fn NodeCache::clear
    requires stored(*old(file), *old(self)),
    ensures
        final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> keeps(*old(file), *old(self), *final(file), *final(self)), // C01 C05 C06 C16
        ret is Ok ==> final(self).vec@.len() == 0 && final(self).m() == Map::<u64, usize>::empty(), // C04 C05
        old(self).clean() ==> *final(file) == *old(file) && final(self).clean(), // C04 C05
//@ start
    let ghost s0 = choose|s: Store| store(file.img(), *self, s);
//@ after flush 0
    let ghost c1 = *self;
    let ghost f1 = *file;
//@ tail
    proof {
        assert forall|s: Store| #[trigger] store(old(file).img(), *old(self), s) implies store(file.img(), *self, s) && outside(old(file).img(), file.img(), s) by {
            assert(store(f1.img(), c1, s));
            assert forall|o: u64| #[trigger] s.dom().contains(o) implies holds(file.img(), *self, o, s[o]) by {
                assert(holds(f1.img(), c1, o, s[o]));
                if c1.has(o) { assert(!c1.vec@[c1.m()[o] as int].dirty); }
            }
        }
    }
//@ end
//@ fn NodeCache::get
    requires old(self).wf(),
    ensures
        final(self).eqv(*old(self)),
        old(self).has(offset.val) ==> ret == old(self).bean(offset.val).node, // C01 C16
        !old(self).has(offset.val) ==> ret is None,
//@ start
    assert(self.has(offset.val) ==> self.m()[offset.val] < self.vec@.len() && self.bean(offset.val).live() && self.bean(offset.val).ok() && self.bean(offset.val).node_offset == *offset);
//@ end
//@ fn NodeCache::get_node_size
    requires old(self).wf(),
    ensures
        final(self).eqv(*old(self)),
        ret == (if old(self).has(offset.val) { Some(old(self).bean(offset.val).node_size) } else { None }),
//@ start
    assert(self.has(offset.val) ==> self.m()[offset.val] < self.vec@.len() && self.bean(offset.val).live() && self.bean(offset.val).ok() && self.bean(offset.val).node_offset == *offset);
//@ end
//@ fn NodeCache::put
    requires
        stored(*old(file), *old(self)), !node.act(), okv(node.nv()), nbytes(node.nv()) <= node.0.size.val <= u16::MAX, node_size == node.0.size,
    ensures
        final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> final(self).has(node.off().val) && ret->Ok_0.0 == node.0,
        ret is Ok ==> put_post(*old(file), *old(self), *final(file), *final(self), node, dirty), // C01 C05 C16
        old(self).clean() && !dirty ==> *final(file) == *old(file) && final(self).clean(), // C04 C05
//@ start
    hide(store); hide(outside); hide(NodeCache::wf);
    let ghost off = node.off().val;
    let ghost s0 = choose|s: Store| store(file.img(), *self, s);
    proof { assert(self.wf()) by { reveal(store); } if self.has(off) { bean_of(*self, off); } }
    let ghost c0 = *self;
    let ghost f0 = *file;
    let ghost mut c3 = *self;
    let ghost mut f3 = *file;
    let ghost mut c2_ = *self;
//@ before clear 0
    proof { c0.eqv_store(*self); assert(store(file.img(), *self, s0)); }
    let ghost c1 = *self;
//@ after clear 0
    proof { assert forall|s: Store| #[trigger] store(f0.img(), c0, s) implies store(file.img(), *self, s) && outside(f0.img(), file.img(), s) by { assert(store(f0.img(), c1, s)); } }
//@ before push 0
    proof {
        if *file == f0 && self.eqv(c0) { c0.eqv_store(*self); assert(keeps(f0, c0, *file, *self)) by { reveal(outside); } }
        assert(keeps(f0, c0, *file, *self));
        assert(store(file.img(), *self, s0));
        assert(self.wf()) by { reveal(store); }
    }
    let ghost c2 = *self;
//@ after insert 0
    proof {
        c3 = *self; f3 = *file; c2_ = c2;
        put_new(*file, c2, *self, node, dirty);
    }
//@ after get 0
    proof {
        if c0.has(off) { put_same(f0, c0, *self, node, dirty); }
        else {
            c3.eqv_store(*self);
            put_trans(f0, c0, f3, c2_, *self, node, dirty);
            assert(put_post(*old(file), *old(self), *file, *self, node, dirty));
        }
    }
//@ end
//@ fn NodeCache::delete
    requires old(self).wf(),
    ensures
        ret == (if old(self).has(node_offset.val) { Some(old(self).bean(node_offset.val).node_size) } else { None }),
        !final(self).has(node_offset.val),
        final(self).wf(),
        forall|img: Seq<u8>, s: Store| #[trigger] store(img, *old(self), s) ==> store(img, *final(self), s.remove(node_offset.val)), // C01 C05 C16
//@ start
    let ghost c0 = *self;
    proof { if c0.has(node_offset.val) { bean_of(c0, node_offset.val); } }
//@ after remove 0
    assert(self.m() == c0.m().remove(node_offset.val));
    proof { del_post_(c0, *self, node_offset.val); }
//@ end
}
