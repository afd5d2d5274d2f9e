//@ include head.rs
verus! {
//@ resultmap on
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ include nodev.rs
//@ include tr_node.rs
//@ proofs off
//@ include eqon.rs
//@ include hp_model.rs
//@ include piece.rs
//@ include bodies.rs
//@ include nc_codec.rs
//@ include nc_cache.rs
//@ include nfile.rs
//@ stubs off
//@ proofs on
//@ file src/filedb/inner/idx.rs
//@ const IDX_HEADER_TOP_NODE_OFFSET
//@ const NODE_SIZE_FREE_OFFSET_1ST
//@ const NODE_SIZE_FREE_OFFSET
//@ const NODE_SIZE_ARY
// ---------------------------------------------------------------- the node file: its nodes are exactly the pieces in use
pub open spec fn nmgr(m: PieceMgr) -> bool { m.size_ary@ == NODE_SIZE_ARY@ && m.free_list_offset@ == NODE_SIZE_FREE_OFFSET@ }
proof fn nmgr_ok(m: PieceMgr)
    requires nmgr(m),
    ensures m.ok(), m.n() == 8, m.sz(0) == 256, m.sz(6) == 4608, m.sz(7) == 4864, m.hl() == 128, m.nb() == 2, m.al() == 16,
{
    let a = NODE_SIZE_ARY@;
    assert(m.sz(0) == 256 && m.sz(1) == 512 && m.sz(2) == 1024 && m.sz(3) == 2048 && m.sz(4) == 4096 && m.sz(5) == 4352 && m.sz(6) == 4608 && m.sz(7) == 4864); // C06 C07
    assert(forall|c: int| 0 <= c < 8 ==> #[trigger] m.fo(c) == 24 + 8 * c); // C06 C07
}
/// the pieces in use are the nodes of s
pub open spec fn same_pieces(b: IMap<u64, Seq<u8>>, s: Store) -> bool {
    &&& forall|o: u64| #[trigger] b.dom().contains(o) <==> s.dom().contains(o)
    &&& forall|o: u64| #[trigger] s.dom().contains(o) ==> b[o].len() == s[o].sz
}
/// every node is in a piece of the least size for it
pub open spec fn snug(m: PieceMgr, s: Store) -> bool { forall|o: u64| #[trigger] s.dom().contains(o) ==> s[o].sz == m.rup(nbytes(s[o].v)) }
pub open spec fn xst(f: VarFile, c: NodeCache, s: Store) -> bool {
    nmgr(f.piece_mgr) && f.hok() && store(f.img(), c, s) && same_pieces(f.b(), s) && snug(f.piece_mgr, s)
}
impl VarFileNodeCache {
    pub open spec fn xo(&self) -> bool { exists|s: Store| xst(self.0, self.1, s) }
    /// the nodes
    pub open spec fn nodes(&self) -> Store { choose|s: Store| xst(self.0, self.1, s) }
    /// the node is as it is stored, and not waiting in the cache to be written
    pub open spec fn settled(&self, node: IdxNode) -> bool {
        let o = node.off().val;
        self.nodes().dom().contains(o) && self.nodes()[o].v == node.nv() && !(self.1.has(o) && self.1.bean(o).due())
    }
}
pub proof fn x_is(f: VarFileNodeCache, s: Store)
    requires xst(f.0, f.1, s),
    ensures f.xo(), f.nodes() == s,
{
    hide(PieceMgr::ok);
    let t = f.nodes();
    assert(xst(f.0, f.1, t));
    assert forall|o: u64| #[trigger] s.dom().contains(o) <==> t.dom().contains(o) by { assert(f.0.b().dom().contains(o) <==> s.dom().contains(o)); assert(f.0.b().dom().contains(o) <==> t.dom().contains(o)); }
    assert forall|o: u64| #[trigger] s.dom().contains(o) implies s[o] == t[o] by {
        assert(t.dom().contains(o));
        assert(holds(f.0.img(), f.1, o, s[o]) && holds(f.0.img(), f.1, o, t[o]));
        if !f.1.has(o) { node_at_fun(f.0.img(), o as int, s[o].sz as int, s[o].v, t[o].sz as int, t[o].v); }
    }
    assert(s =~= t);
}
pub proof fn x_of(f: VarFileNodeCache)
    requires f.xo(),
    ensures xst(f.0, f.1, f.nodes()), snug(f.0.piece_mgr, f.nodes()), nmgr(f.0.piece_mgr), f.0.hok(), f.1.wf(), stored(f.0, f.1), f.0.piece_mgr.ok(), f.0.len() >= 128,
{
    assert(stored(f.0, f.1));
    hv_ok(f.0);
    nmgr_ok(f.0.piece_mgr);
}
/// a node of the file
pub proof fn x_at(f: VarFileNodeCache, o: u64)
    requires f.xo(), f.nodes().dom().contains(o),
    ensures ({ let n = f.nodes()[o];
        &&& f.0.b().dom().contains(o) && f.0.b()[o].len() == n.sz && f.0.piece_mgr.vsz(n.sz as int) && 16 <= n.sz <= 0xffff && 128 <= o && o + n.sz <= f.0.len() && o as int % 16 == 0 && o & 0x0f == 0
        &&& u16_at(f.0.img(), o as int) == n.sz && live(f.0.hv(), o as int, n.sz as int) && holds(f.0.img(), f.1, o, n)
        &&& f.1.has(o) ==> f.1.bean(o).node_size.val == n.sz && f.1.bean(o).n().nv() == n.v
        &&& okv(n.v) && nbytes(n.v) <= n.sz && n.sz == f.0.piece_mgr.rup(nbytes(n.v))
    }),
{
    hide(PieceMgr::ok); hide(PieceMgr::vsz);
    x_of(f);
    nmgr_ok(f.0.piece_mgr);
    let n = f.nodes()[o];
    assert(f.0.b().dom().contains(o));
    body_at(f.0, o);
    assert(holds(f.0.img(), f.1, o, n));
    if f.1.has(o) { bean_of(f.1, o); }
    assert(o & 0x0f == 0) by(bit_vector) requires o % 16 == 0;
}
pub proof fn x_same(a: VarFileNodeCache, b: VarFileNodeCache)
    requires a.xo(), b.0.img() == a.0.img(), b.0.piece_mgr == a.0.piece_mgr, b.1.eqv(a.1),
    ensures b.xo(), b.nodes() == a.nodes(), b.0.hv() == a.0.hv(),
{
    x_of(a);
    b_same(a.0, b.0);
    a.1.eqv_store(b.1);
    x_is(b, a.nodes());
}
/// a settled node is settled after a change of the file's position or of the order in the cache
proof fn settled_same(a: VarFileNodeCache, b: VarFileNodeCache, node: IdxNode)
    requires a.xo(), b.0.img() == a.0.img(), b.0.piece_mgr == a.0.piece_mgr, b.1.eqv(a.1), a.settled(node),
    ensures b.settled(node), a.nodes()[node.off().val].sz == a.0.piece_mgr.rup(nbytes(node.nv())),
{
    x_same(a, b);
    x_at(a, node.off().val);
}
/// the header before the free lists, and the nodes, may have changed; nothing else
proof fn kept(a: VarFile, b: VarFile, s: Store, s2: Store)
    requires a.hok(), nmgr(a.piece_mgr), b.piece_mgr == a.piece_mgr, same_pieces(a.b(), s), s2.dom() == s.dom(), forall|o: u64| #[trigger] s2.dom().contains(o) ==> s2[o].sz == s[o].sz,
        forall|o: u64| #[trigger] s2.dom().contains(o) ==> u16_at(b.img(), o as int) == s2[o].sz,
        a.len() == b.len(), forall|j: int| 24 <= j < a.len() && (forall|o: u64| #[trigger] s2.dom().contains(o) ==> !(o <= j < o + s2[o].sz)) ==> #[trigger] a.img()[j] == b.img()[j],
    ensures b.hok(), b.hv() == a.hv(), same_pieces(b.b(), s2),
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(nmgr);
    let m = a.piece_mgr;
    nmgr_ok(m);
    hv_ok(a);
    let hp = a.hv();
    assert forall|o: int, n: int| #[trigger] live(hp, o, n) implies a.b().dom().contains(o as u64) && o == o as u64 && s2.dom().contains(o as u64) && s2[o as u64].sz == n by {
        piece_size(m, a.img(), hp, o, n);
        broadcast use bf_len;
        body_is(a, o as u64, n);
        assert(s.dom().contains(o as u64));
    }
    assert(outside_live(a.img(), b.img(), hp)) by {
        assert forall|j: int| 24 <= j < a.len() && (forall|o: int, n: int| #[trigger] live(hp, o, n) ==> !(o <= j < o + n)) implies a.img()[j] == b.img()[j] by {
            assert forall|o: u64| #[trigger] s2.dom().contains(o) implies !(o <= j < o + s2[o].sz) by {
                assert(a.b().dom().contains(o));
                body_at(a, o);
            }
        }
    }
    assert forall|o: int, n: int| #[trigger] live(hp, o, n) implies lenb(m, b.img(), o) == n by { piece_size(m, a.img(), hp, o, n); assert(a.b().dom().contains(o as u64)); le_bound(at(b.img(), o, 2)); p256_vals(); }
    heap_rewrite(m, a.img(), b.img(), hp);
    hv_is(b, hp);
    assert forall|o: u64| #[trigger] b.b().dom().contains(o) implies s2.dom().contains(o) && b.b()[o].len() == s2[o].sz by {
        body_at(b, o);
        assert(live(hp, o as int, b.b()[o].len() as int));
    }
    assert forall|o: u64| #[trigger] s2.dom().contains(o) implies b.b().dom().contains(o) by {
        assert(a.b().dom().contains(o));
        body_at(a, o);
        body_is(b, o, s2[o].sz as int);
    }
}
/// the size of every node is in the file
proof fn sizes_in(img: Seq<u8>, c: NodeCache, s: Store)
    requires store(img, c, s),
    ensures forall|o: u64| #[trigger] s.dom().contains(o) ==> u16_at(img, o as int) == s[o].sz,
{
    assert forall|o: u64| #[trigger] s.dom().contains(o) implies u16_at(img, o as int) == s[o].sz by { assert(holds(img, c, o, s[o])); }
}
/// the cache wrote nodes, or took one
proof fn x_kept(a: VarFile, s: Store, b: VarFileNodeCache, s2: Store)
    requires a.hok(), nmgr(a.piece_mgr), b.0.piece_mgr == a.piece_mgr, same_pieces(a.b(), s), s2.dom() == s.dom(), forall|o: u64| #[trigger] s2.dom().contains(o) ==> s2[o].sz == s[o].sz,
        store(b.0.img(), b.1, s2), outside(a.img(), b.0.img(), s2), snug(a.piece_mgr, s2),
    ensures b.xo(), b.nodes() == s2, b.0.hv() == a.hv(), b.0.len() == a.len(),
{
    hide(store); hide(nmgr); hide(PieceMgr::ok);
    sizes_in(b.0.img(), b.1, s2);
    kept(a, b.0, s, s2);
    x_is(b, s2);
}
/// the bytes of the nodes are the same in another file
proof fn moved(a: Seq<u8>, b: Seq<u8>, c: NodeCache, s: Store)
    requires store(a, c, s), forall|o: u64| #[trigger] s.dom().contains(o) ==> o + s[o].sz <= b.len() && eq_on(a, b, o as int, s[o].sz as int),
    ensures store(b, c, s),
{
    assert forall|o: u64| #[trigger] s.dom().contains(o) implies holds(b, c, o, s[o]) by {
        assert(holds(a, c, o, s[o]));
        assert(at(a, o as int, 2) =~= at(b, o as int, 2));
        if node_at(a, o as int, s[o].sz as int, s[o].v) { node_at_frame(a, b, o as int, s[o].sz as int, s[o].v); }
    }
}
proof fn bodies_eq(a: VarFile, b: VarFile, s: Store)
    requires a.hok(), b.hok(), forall|o: u64| #[trigger] s.dom().contains(o) ==> a.b().dom().contains(o) && b.b().dom().contains(o) && a.b()[o] == b.b()[o] && a.b()[o].len() == s[o].sz,
    ensures forall|o: u64| #[trigger] s.dom().contains(o) ==> o + s[o].sz <= b.len() && eq_on(a.img(), b.img(), o as int, s[o].sz as int),
{
    hide(heap); hide(tiled);
    assert forall|o: u64| #[trigger] s.dom().contains(o) implies o + s[o].sz <= b.len() && eq_on(a.img(), b.img(), o as int, s[o].sz as int) by {
        body_at(a, o);
        body_at(b, o);
        let n = s[o].sz as int;
        assert forall|j: int| o <= j < o + n implies a.img()[j] == b.img()[j] by {
            assert(at(a.img(), o as int, n)[j - o] == at(b.img(), o as int, n)[j - o]);
        }
    }
}
/// a node was given up and its piece freed
proof fn x_deleted(a: VarFileNodeCache, p: VarFile, b: VarFileNodeCache, o: u64)
    requires a.xo(), a.nodes().dom().contains(o), p.img() == a.0.img(), p.piece_mgr == a.0.piece_mgr, b.0.piece_mgr == p.piece_mgr,
        forall|img: Seq<u8>, s: Store| #[trigger] store(img, a.1, s) ==> store(img, b.1, s.remove(o)),
        b.0.hok(), b.0.b() == p.b().remove(o),
    ensures b.xo(), b.nodes() == a.nodes().remove(o),
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(store); hide(VarFile::b); hide(VarFile::hok); hide(nmgr);
    x_of(a);
    b_same(a.0, p);
    let s = a.nodes();
    let s2 = s.remove(o);
    assert(store(a.0.img(), b.1, s2));
    assert forall|q: u64| #[trigger] s2.dom().contains(q) implies a.0.b().dom().contains(q) && b.0.b().dom().contains(q) && a.0.b()[q] == b.0.b()[q] && a.0.b()[q].len() == s2[q].sz by { assert(s.dom().contains(q)); }
    bodies_eq(a.0, b.0, s2);
    moved(a.0.img(), b.0.img(), b.1, s2);
    assert(same_pieces(b.0.b(), s2)) by {
        assert forall|q: u64| #[trigger] b.0.b().dom().contains(q) implies s2.dom().contains(q) by { assert(a.0.b().dom().contains(q)); }
    }
    assert(snug(b.0.piece_mgr, s2)) by { assert forall|q: u64| #[trigger] s2.dom().contains(q) implies s2[q].sz == b.0.piece_mgr.rup(nbytes(s2[q].v)) by { assert(s.dom().contains(q)); } }
    x_is(b, s2);
}
/// a piece for a new node was taken: g holds the nodes of s, and the piece r
proof fn x_room(a: VarFile, c: NodeCache, s: Store, g: VarFile, r: u64, n: SNode)
    requires xst(a, c, s), g.piece_mgr == a.piece_mgr, g.hok(), g.b().dom().contains(r), g.b().remove(r) == a.b(), !a.b().dom().contains(r), g.b()[r].len() == n.sz,
    ensures store(g.img(), c, s), same_pieces(g.b(), s.insert(r, n)), !s.dom().contains(r), pieces(g.len(), s.insert(r, n)), u16_at(g.img(), r as int) == n.sz, stored(g, c),
        128 <= r, r as int % 16 == 0, r & 0x0f == 0,
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(VarFile::b); hide(VarFile::hok); hide(nmgr); hide(PieceMgr::vsz);
    let s2 = s.insert(r, n);
    nmgr_ok(a.piece_mgr);
    assert(!s.dom().contains(r)) by { if s.dom().contains(r) { assert(a.b().dom().contains(r)); } }
    assert forall|q: u64| #[trigger] s.dom().contains(q) implies a.b().dom().contains(q) && g.b().dom().contains(q) && a.b()[q] == g.b()[q] && a.b()[q].len() == s[q].sz by {
        assert(a.b().dom().contains(q));
        assert(g.b().remove(r).dom().contains(q));
    }
    bodies_eq(a, g, s);
    moved(a.img(), g.img(), c, s);
    assert forall|q: u64| #[trigger] g.b().dom().contains(q) <==> s2.dom().contains(q) by {
        if q != r { assert(g.b().remove(r).dom().contains(q) <==> g.b().dom().contains(q)); assert(a.b().dom().contains(q) <==> s.dom().contains(q)); }
    }
    assert forall|q: u64| #[trigger] s2.dom().contains(q) implies g.b()[q].len() == s2[q].sz by { if q != r { assert(s.dom().contains(q)); } }
    body_at(g, r);
    assert forall|p: u64| #[trigger] s2.dom().contains(p) implies 128 <= p && p + s2[p].sz <= g.len() && 6 <= s2[p].sz by { assert(g.b().dom().contains(p)); body_at(g, p); }
    assert forall|p: u64, q: u64| #[trigger] s2.dom().contains(p) && #[trigger] s2.dom().contains(q) && p < q implies p + s2[p].sz <= q by {
        assert(g.b().dom().contains(p) && g.b().dom().contains(q));
        body_at(g, p);
        bodies_apart(g, p, q);
    }
    assert(r & 0x0f == 0) by(bit_vector) requires r % 16 == 0;
}
/// the same node file with the header unchanged up to the free lists
pub open spec fn head_same(a: VarFile, b: VarFile) -> bool { eq_on(a.img(), b.img(), 0, 24) }
/// a node needs little
proof fn need_ok(m: PieceMgr, v: NodeV)
    requires nmgr(m), okv(v),
    ensures v.keys.len() <= 63, v.downs.len() == v.keys.len() + 1, 6 <= nbytes(v) <= 1022, m.ok(), nbytes(v) <= m.sz(m.n() - 2), m.vsz(m.rup(nbytes(v))), nbytes(v) <= m.rup(nbytes(v)) < m.sz(m.n() - 1),
        16 <= m.rup(nbytes(v)) <= 0xffff, m.n() == 8, m.sz(6) == 4608, m.rup(nbytes(v)) <= m.sz(m.n() - 2), m.rup(m.rup(nbytes(v))) == m.rup(nbytes(v)),
{
    nmgr_ok(m);
    let s = nbytes(v);
    fits_one(m, s, 6);
    let c = choose|c: int| m.fits(s, c);
    assert(m.sz(c) == m.rup(s) && m.sz(c) < m.sz(7));
    cls_in(m, m.rup(s));
    if c < 6 { assert(m.sz(c) < m.sz(6)); }
    assert(m.fits(m.sz(c), c)) by { assert forall|d: int| 0 <= d < c implies #[trigger] m.sz(d) < m.sz(c) by {} }
    rup_at(m, m.sz(c), c);
}
proof fn fits_one(m: PieceMgr, s: int, n: int)
    requires 0 <= n < m.n() - 1, s <= m.sz(n),
    ensures exists|c: int| m.fits(s, c),
    decreases n,
{
    if exists|d: int| 0 <= d < n && #[trigger] m.sz(d) >= s {
        let d = choose|d: int| 0 <= d < n && #[trigger] m.sz(d) >= s;
        fits_one(m, s, d);
    } else { assert(m.fits(s, n)); }
}
/// pieces of one class have one size
proof fn pop_exact(a: VarFile, b: VarFile, size: int, r: u64)
    requires a.hok(), a.piece_mgr == b.piece_mgr, a.piece_mgr.vsz(size), r != 0, VarFile::pop_post(a, b, size, r as int), size < a.piece_mgr.sz(a.piece_mgr.n() - 1),
    ensures le4(a.img(), r as int) == size, le4(b.img(), r as int) == size,
{
    hide(heap); hide(tiled);
    reveal(VarFile::pop_post);
    hv_ok(a);
    let m = a.piece_mgr;
    cls_in(m, size);
    let c = m.cls(size);
    let i = choose|i: int| 0 <= i < a.list(size).len() && #[trigger] a.list(size)[i] == r as int && b.is_heap(popped(a.hv(), c, i)) && b.hok() && b.hv() == popped(a.hv(), c, i)
                && same_but(a.img(), b.img(), r as int, le4(a.img(), r as int), link(a.piece_mgr, a.hv(), c, i), 8);
    item_at(m, a.img(), a.hv(), c, i);
}
proof fn push_fit(a: VarFile, o: int, s: int, size: int)
    requires a.hok(), a.piece_mgr.vsz(size), a.piece_mgr.vsz(s),
    ensures no_fit(a.piece_mgr, pushed(a.piece_mgr, a.hv(), o, s), size) ==> no_fit(a.piece_mgr, a.hv(), size),
{
    hv_ok(a);
    if no_fit(a.piece_mgr, pushed(a.piece_mgr, a.hv(), o, s), size) { pushed_no_fit(a.piece_mgr, a.hv(), o, s, size); }
}
/// a new node was written to the piece r of g
proof fn done_new(q: VarFileNodeCache, g: VarFile, f: VarFileNodeCache, r: u64, n: SNode)
    requires q.xo(), g.piece_mgr == q.0.piece_mgr, g.hok(), g.b().dom().contains(r), g.b().remove(r) == q.0.b(), !q.0.b().dom().contains(r), g.b()[r].len() == n.sz,
        n.sz == q.0.piece_mgr.rup(nbytes(n.v)), f.1 == q.1, node_at(f.0.img(), r as int, n.sz as int, n.v), only(g.img(), f.0.img(), r as int, n.sz as int), f.0.piece_mgr == g.piece_mgr,
    ensures f.xo(), f.nodes() == q.nodes().insert(r, n), !q.nodes().dom().contains(r), head_same(g, f.0), f.0.len() == g.len(),
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(VarFile::b); hide(VarFile::hok); hide(nmgr); hide(PieceMgr::vsz); hide(node_at);
    x_of(q);
    let s = q.nodes();
    let s2 = s.insert(r, n);
    x_room(q.0, q.1, s, g, r, n);
    assert(s2.dom().contains(r));
    assert forall|o: u64| #[trigger] s.dom().contains(o) implies o + s[o].sz <= f.0.len() && eq_on(g.img(), f.0.img(), o as int, s[o].sz as int) by { assert(s2.dom().contains(o)); }
    moved(g.img(), f.0.img(), f.1, s);
    sizes_in(f.0.img(), f.1, s);
    assert(u16_at(f.0.img(), r as int) == n.sz) by { reveal(node_at); }
    assert forall|o: u64| #[trigger] s2.dom().contains(o) implies u16_at(f.0.img(), o as int) == s2[o].sz by { if o != r { assert(s.dom().contains(o)); } }
    kept(g, f.0, s2, s2);
    assert(store(f.0.img(), f.1, s2)) by {
        assert forall|o: u64| #[trigger] s2.dom().contains(o) implies holds(f.0.img(), f.1, o, s2[o]) by { if o != r { assert(s.dom().contains(o)); assert(holds(f.0.img(), f.1, o, s[o])); } }
    }
    assert(snug(f.0.piece_mgr, s2)) by { assert forall|o: u64| #[trigger] s2.dom().contains(o) implies s2[o].sz == f.0.piece_mgr.rup(nbytes(s2[o].v)) by { if o != r { assert(s.dom().contains(o)); } } }
    x_is(f, s2);
}
/// the cache took the node at o
proof fn done_put(a: VarFileNodeCache, p: VarFileNodeCache, f: VarFileNodeCache, node: IdxNode)
    requires p.xo(), p.nodes().dom().contains(node.off().val), p.nodes()[node.off().val].sz == node.0.size.val, node.0.size.val == p.0.piece_mgr.rup(nbytes(node.nv())), node.0.is_dirty || p.settled(node), f.0.piece_mgr == p.0.piece_mgr,
        put_post(p.0, p.1, f.0, f.1, node, true),
    ensures f.xo(), f.nodes() == p.nodes().insert(node.off().val, SNode { sz: node.0.size.val, v: node.nv() }), head_same(p.0, f.0), f.0.len() == p.0.len(),
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(VarFile::b); hide(VarFile::hok); hide(nmgr); hide(store); hide(NodeCache::wf);
    x_of(p);
    let s = p.nodes();
    let s2 = s.insert(node.off().val, SNode { sz: node.0.size.val, v: node.nv() });
    assert(put_pre(p.0.img(), p.1, s, node, true));
    assert(store(f.0.img(), f.1, s2) && outside(p.0.img(), f.0.img(), s));
    assert(s2.dom() =~= s.dom());
    assert forall|j: int| 0 <= j < p.0.len() && (forall|o: u64| #[trigger] s2.dom().contains(o) ==> !(o <= j < o + s2[o].sz)) implies #[trigger] p.0.img()[j] == f.0.img()[j] by {
        assert forall|o: u64| #[trigger] s.dom().contains(o) implies !(o <= j < o + s[o].sz) by { assert(s2.dom().contains(o)); }
    }
    assert(snug(p.0.piece_mgr, s2)) by { assert forall|o: u64| #[trigger] s2.dom().contains(o) implies s2[o].sz == p.0.piece_mgr.rup(nbytes(s2[o].v)) by { assert(s.dom().contains(o)); } }
    x_kept(p.0, s, f, s2);
    assert forall|j: int| 0 <= j < 24 implies p.0.img()[j] == f.0.img()[j] by {
        assert forall|o: u64| #[trigger] s.dom().contains(o) implies !(o <= j < o + s[o].sz) by { x_at(p, o); }
    }
}
proof fn ins_rem(s: Store, o: u64, n: SNode)
    ensures s.remove(o).insert(o, n) == s.insert(o, n),
{ assert(s.remove(o).insert(o, n) =~= s.insert(o, n)); }
proof fn b_ins_rem(a: IMap<u64, Seq<u8>>, b: IMap<u64, Seq<u8>>, r: u64, e: Seq<u8>)
    requires b == a.insert(r, e), !a.dom().contains(r),
    ensures b.remove(r) == a, b.dom().contains(r), b[r] == e,
{ assert(b.remove(r) =~= a); }
proof fn cleared_len(s: u32)
    requires 16 <= s <= 0xffff,
    ensures cleared(2, s).len() == s, le(cleared(2, s).subrange(0, 2)) == s,
{
    p256_vals();
    le_enc(2, s as nat);
    enc_len(2, s as nat);
    assert(cleared(2, s).subrange(0, 2) =~= enc(2, s as nat));
}
proof fn head_push(a: VarFile, b: VarFile, o: int, s: int)
    requires a.hok(), nmgr(a.piece_mgr), live(a.hv(), o, s), same_but(a.img(), b.img(), o, s, a.piece_mgr.fo(a.piece_mgr.cls(s)), 8),
    ensures head_same(a, b), a.len() == b.len(),
{
    hide(heap); hide(tiled);
    hv_ok(a);
    nmgr_ok(a.piece_mgr);
    piece_size(a.piece_mgr, a.img(), a.hv(), o, s);
    cls_in(a.piece_mgr, s);
    fo_in(a.piece_mgr, a.piece_mgr.cls(s));
}
proof fn head_pop(a: VarFile, b: VarFile, size: int, r: int)
    requires a.hok(), nmgr(a.piece_mgr), a.piece_mgr.vsz(size), VarFile::pop_post(a, b, size, r),
    ensures head_same(a, b), a.len() == b.len(),
{
    hide(heap); hide(tiled);
    reveal(VarFile::pop_post);
    hv_ok(a);
    nmgr_ok(a.piece_mgr);
    let m = a.piece_mgr;
    if r != 0 {
        cls_in(m, size);
        let c = m.cls(size);
        let i = choose|i: int| 0 <= i < a.list(size).len() && #[trigger] a.list(size)[i] == r as int && b.is_heap(popped(a.hv(), c, i)) && b.hok() && b.hv() == popped(a.hv(), c, i)
                    && same_but(a.img(), b.img(), r as int, le4(a.img(), r as int), link(a.piece_mgr, a.hv(), c, i), 8);
        item_at(m, a.img(), a.hv(), c, i);
        fo_in(m, c);
        if i > 0 { item_at(m, a.img(), a.hv(), c, i - 1); }
    }
}
proof fn head_grow(a: VarFile, b: VarFile, e: Seq<u8>)
    requires b.img() == put_at(a.img(), a.len(), e), a.len() >= 24,
    ensures head_same(a, b),
{}
proof fn head_eq(a: VarFile, b: VarFile)
    requires a.img() == b.img(),
    ensures head_same(a, b), a.len() == b.len(),
{}
proof fn head_trans(a: VarFile, b: VarFile, c: VarFile)
    requires head_same(a, b), head_same(b, c),
    ensures head_same(a, c),
{
    assert forall|j: int| 0 <= j < 24 implies a.img()[j] == c.img()[j] by { assert(a.img()[j] == b.img()[j]); assert(b.img()[j] == c.img()[j]); }
}
impl VarFileNodeCache {
    /// node r holds v; base are the other nodes; the file is longer only if there was no room
    pub open spec fn wrote(a: VarFileNodeCache, f: VarFileNodeCache, base: Store, r: IdxNode, v: NodeV) -> bool {
        let m = a.0.piece_mgr;
        let need = m.rup(nbytes(v));
        &&& f.xo() && f.0.piece_mgr == m && r.off().val >= 128 && r.off().val & 0x0f == 0
        &&& f.nodes() == base.insert(r.off().val, SNode { sz: r.0.size.val, v: v }) && need == r.0.size.val
        &&& r.nv() == v && !r.act()
        &&& f.0.len() == a.0.len() || f.0.len() == a.0.len() + need && no_fit(m, a.0.hv(), need)
    }
//@ fn VarFileNodeCache::delete_node
    requires old(self).xo(), old(self).nodes().dom().contains(node_.off().val),
    ensures ret is Ok ==> ({
        let (o, s) = (node_.off().val, old(self).nodes()[node_.off().val].sz);
        &&& final(self).xo() && final(self).nodes() == old(self).nodes().remove(o) // C01 C06 C07
        &&& final(self).0.len() == old(self).0.len() && final(self).0.hv() == pushed(old(self).0.piece_mgr, old(self).0.hv(), o as int, s as int) // C07
        &&& final(self).2 == old(self).2 && head_same(old(self).0, final(self).0) && final(self).0.piece_mgr == old(self).0.piece_mgr // C12 C16
        &&& ret->Ok_0.val == s
    }),
//@ start
    hide(heap); hide(tiled); hide(flist); hide(le); hide(enc); hide(put_at); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(PieceMgr::rup); hide(store); hide(stored); hide(xst); hide(NodeCache::wf); hide(NodeCache::clean); hide(VarFile::is_heap); hide(VarFile::b); hide(VarFile::hok); hide(VarFile::hv); hide(VarFileNodeCache::xo); hide(VarFileNodeCache::nodes); hide(nmgr); hide(live); hide(holds); hide(okv); hide(no_fit); hide(node_at);
    broadcast use bf_len;
    let ghost a = *self;
    let ghost o = node_.off().val;
    proof { x_of(a); x_at(a, o); nmgr_ok(a.0.piece_mgr); }
//@ before push_free_piece_list 0
    let ghost p = self.0;
    proof { b_same(a.0, p); }
//@ after push_free_piece_list 0
    proof {
        x_deleted(a, p, *self, o);
        cls_in(a.0.piece_mgr, old_node_size.val as int);
        fo_in(a.0.piece_mgr, a.0.piece_mgr.cls(old_node_size.val as int));
    }
//@ end
//@ fn VarFileNodeCache::write_node
//@ attr #[verifier::rlimit(100)]
    requires old(self).xo(), !node_.act(), okv(node_.nv()), node_.0.is_dirty || !is_new && old(self).settled(node_), node_.off().val != 0, node_.off().val & 0x0f == 0,
        !is_new ==> old(self).nodes().dom().contains(node_.off().val) && old(self).nodes()[node_.off().val].sz == node_.0.size.val,
    ensures ret is Ok ==> ({
        let o = node_.off().val;
        let base = if is_new { old(self).nodes() } else { old(self).nodes().remove(o) };
        &&& Self::wrote(*old(self), *final(self), base, ret->Ok_0, node_.nv()) // C01 C05 C06 C07 C16
        &&& !base.dom().contains(ret->Ok_0.off().val) // C01 C06
        &&& final(self).2 == old(self).2 && head_same(old(self).0, final(self).0) // C12 C16
    }),
//@ start
    hide(heap); hide(tiled); hide(flist); hide(le); hide(enc); hide(put_at); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(PieceMgr::rup); hide(store); hide(stored); hide(xst); hide(NodeCache::wf); hide(NodeCache::clean); hide(VarFile::is_heap); hide(VarFile::b); hide(VarFile::hok); hide(VarFile::hv); hide(VarFileNodeCache::xo); hide(VarFileNodeCache::nodes); hide(nmgr); hide(live); hide(holds); hide(okv); hide(no_fit); hide(node_at); hide(nbytes); hide(only); hide(outside); hide(keeps); hide(put_post); hide(fits); hide(NodeCache::eqv); hide(VarFile::pop_post); hide(cleared); hide(head_same); hide(same_but); hide(pushed); hide(grown); hide(same_pieces); hide(pieces); hide(VarFileNodeCache::settled);
    broadcast use bf_len;
    let ghost a = *self;
    let ghost m = self.0.piece_mgr;
    let ghost o = node_.off().val;
    let ghost v = node_.nv();
    let ghost need = m.rup(nbytes(v));
    let ghost mut p = *self;
    let ghost mut q = *self;
    let ghost mut g = self.0;
    let ghost mut n = SNode { sz: 0, v: v };
    proof { x_of(a); need_ok(m, v); nmgr_ok(m); if !is_new { x_at(a, o); } }
//@ after let:old_node_size
    proof {
        x_same(a, *self);
        head_eq(a.0, self.0);
        p = *self;
        x_of(p);
        x_at(p, o);
        assert(old_node_size.val == p.nodes()[o].sz);
        if !node_.0.is_dirty { settled_same(a, p, node_); assert(need == p.nodes()[o].sz); }
    }
//@ before put 0
    let ghost gn = node_;
//@ before return 0
    proof { done_put(a, p, *self, gn); head_trans(a.0, p.0, self.0); ins_rem(p.nodes(), o, SNode { sz: gn.0.size.val, v: v }); }
//@ after push_free_piece_list 0
    proof {
        x_deleted(p, p.0, *self, o);
        head_push(p.0, self.0, o as int, old_node_size.val as int);
        push_fit(p.0, o as int, old_node_size.val as int, need);
        cls_in(m, old_node_size.val as int);
        fo_in(m, m.cls(old_node_size.val as int));
        q = *self;
        x_of(q);
    }
//@ after pop_free_piece_list 0
    let ghost r = free_node_offset.val;
    proof {
        g = self.0;
        head_pop(q.0, g, need, r as int);
        if r != 0 {
            b_popped(q.0, g, need, r);
            pop_exact(q.0, g, need, r);
            body_at(g, r);
            n = SNode { sz: g.b()[r].len() as u32, v: v };
            x_room(q.0, q.1, q.nodes(), g, r, n);
        } else { popped_none(q.0, g, need); }
    }
//@ after write_node_clear 0
    proof {
        cleared_len(new_node_size.val);
        head_grow(q.0, self.0, cleared(2, new_node_size.val));
        g = self.0;
        b_grown(q.0, g, cleared(2, new_node_size.val));
        b_ins_rem(q.0.b(), g.b(), node_offset.val, cleared(2, new_node_size.val));
        n = SNode { sz: new_node_size.val, v: v };
        x_room(q.0, q.1, q.nodes(), g, node_offset.val, n);
    }
//@ before idx_write_node_one 0
    let ghost gn = node_;
    proof {
        b_same(g, self.0);
        body_at(g, gn.off().val);
        assert(fits(self.0.img(), gn.0)) by { reveal(fits); }
    }
//@ after idx_write_node_one 0
    proof {
        done_new(q, g, *self, gn.off().val, n);
        head_trans(q.0, g, self.0);
        if !is_new { head_trans(p.0, q.0, self.0); head_trans(a.0, p.0, self.0); }
        assert(head_same(a.0, self.0));
        assert(self.0.len() == a.0.len() || self.0.len() == a.0.len() + need);
        assert(self.0.len() == a.0.len() || no_fit(m, a.0.hv(), need));
        assert(self.nodes() == (if is_new { a.nodes() } else { a.nodes().remove(o) }).insert(gn.off().val, n));
        assert(need == gn.0.size.val);
    }
//@ end
}
// ---------------------------------------------------------------- the file as a whole
/// the header names the top node
pub open spec fn tops(f: VarFileNodeCache) -> bool { u64_at(f.0.img(), 16) == f.2.val }
proof fn tops_same(a: VarFileNodeCache, b: VarFileNodeCache)
    requires head_same(a.0, b.0), tops(a), a.2 == b.2, a.0.len() >= 24, b.0.len() >= 24,
    ensures tops(b),
{ assert(at(a.0.img(), 16, 8) =~= at(b.0.img(), 16, 8)); }
/// the cache wrote back, or read
pub proof fn x_keeps(a: VarFileNodeCache, b: VarFileNodeCache)
    requires a.xo(), b.0.piece_mgr == a.0.piece_mgr, store(b.0.img(), b.1, a.nodes()), outside(a.0.img(), b.0.img(), a.nodes()),
    ensures b.xo(), b.nodes() == a.nodes(), b.0.hv() == a.0.hv(), b.0.len() == a.0.len(), head_same(a.0, b.0), // C05 C06 C07 C16
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(VarFile::b); hide(VarFile::hok); hide(nmgr); hide(store); hide(snug);
    x_of(a);
    x_kept(a.0, a.nodes(), b, a.nodes());
    assert forall|j: int| 0 <= j < 24 implies a.0.img()[j] == b.0.img()[j] by {
        assert forall|o: u64| #[trigger] a.nodes().dom().contains(o) implies !(o <= j < o + a.nodes()[o].sz) by { x_at(a, o); }
    }
}
/// flushing and closing keep the nodes and the free pieces
pub proof fn x_flushed(a: VarFileNodeCache, b: VarFileNodeCache)
    requires a.xo(), b.keeps(a),
    ensures b.xo(), b.nodes() == a.nodes(), b.0.hv() == a.0.hv(), b.0.len() == a.0.len(), head_same(a.0, b.0), // C05 C06 C07 C16
{
    x_of(a);
    x_keeps(a, b);
}
/// the file opened again, when nothing was left in the cache only
pub proof fn x_reopened(a: VarFileNodeCache, b: VarFileNodeCache)
    requires a.xo(), a.1.clean(), b.0.img() == a.0.img(), nmgr(b.0.piece_mgr), b.1.wf(), b.1.m() == Map::<u64, usize>::empty(),
    ensures b.xo(), b.nodes() == a.nodes(), b.0.hv() == a.0.hv(), // C05
{
    hide(heap); hide(PieceMgr::ok); hide(bodies);
    assert(b.0.piece_mgr.size_ary@ =~= a.0.piece_mgr.size_ary@ && b.0.piece_mgr.free_list_offset@ =~= a.0.piece_mgr.free_list_offset@) by { x_of(a); }
    assert(a.0.piece_mgr.size_ary =~= b.0.piece_mgr.size_ary && a.0.piece_mgr.free_list_offset =~= b.0.piece_mgr.free_list_offset);
    x_of(a);
    b_same(a.0, b.0);
    let s = a.nodes();
    a.clean_store(s);
    assert(store(b.0.img(), b.1, s)) by {
        assert forall|o: u64| #[trigger] s.dom().contains(o) implies holds(b.0.img(), b.1, o, s[o]) by { assert(!b.1.has(o)); }
        assert forall|o: u64| !(#[trigger] b.1.has(o)) by {}
    }
    x_is(b, s);
}
/// a new file has no node
pub proof fn x_new(f: VarFileNodeCache)
    requires nmgr(f.0.piece_mgr), f.0.len() == 128, forall|i: int| 24 <= i < f.0.len() ==> f.0.img()[i] == 0, f.1.wf(), f.1.m() == Map::<u64, usize>::empty(),
    ensures f.xo(), f.nodes() == Map::<u64, SNode>::empty(), forall|c: int| 0 <= c < 8 ==> (#[trigger] f.0.hv().fl[c]).len() == 0, // C05 C06 C07
{
    nmgr_ok(f.0.piece_mgr);
    fresh_heap(f.0);
    let s = Map::<u64, SNode>::empty();
    assert(store(f.0.img(), f.1, s)) by { assert forall|o: u64| !(#[trigger] f.1.has(o)) by {} }
    x_is(f, s);
}
/// the header word of the top node was written
proof fn x_head(a: VarFileNodeCache, b: VarFileNodeCache, v: u64)
    requires a.xo(), b.0.piece_mgr == a.0.piece_mgr, b.1 == a.1, b.0.img() == put_at(a.0.img(), 16, enc(8, v as nat)),
    ensures b.xo(), b.nodes() == a.nodes(), b.0.hv() == a.0.hv(), b.0.len() == a.0.len(), u64_at(b.0.img(), 16) == v,
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(VarFile::b); hide(VarFile::hok); hide(nmgr);
    x_of(a);
    let s = a.nodes();
    p256_vals();
    le_enc(8, v as nat);
    assert(at(b.0.img(), 16, 8) =~= enc(8, v as nat));
    assert forall|o: u64| #[trigger] s.dom().contains(o) implies o + s[o].sz <= b.0.len() && eq_on(a.0.img(), b.0.img(), o as int, s[o].sz as int) by { x_at(a, o); }
    moved(a.0.img(), b.0.img(), b.1, s);
    sizes_in(b.0.img(), b.1, s);
    kept(a.0, b.0, s, s);
    x_is(b, s);
}
impl VarFile {
//@ fn VarFile::write_top_node_offset
    requires old(self).len() >= 24,
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).img() == put_at(old(self).img(), 16, enc(8, offset.val as nat)), // C05
//@ start
    broadcast use bf_len;
//@ end
}
proof fn x_len(f: VarFileNodeCache)
    requires f.xo(),
    ensures f.0.len() >= 24,
{ x_of(f); }
proof fn x_node(f: VarFileNodeCache, o: u64)
    requires f.xo(), f.nodes().dom().contains(o),
    ensures f.1.wf(), f.st(f.nodes()), f.0.b().dom().contains(o), o & 0x0f == 0,
{ x_of(f); x_at(f, o); }
/// the end of the file is a place for a node
proof fn end_ok(f: VarFileNodeCache)
    requires f.xo(),
    ensures f.0.len() as u64 & 0x0f == 0, f.0.len() >= 128,
{
    hide(heap); hide(tiled); hide(PieceMgr::ok);
    x_of(f);
    hv_ok(f.0);
    nmgr_ok(f.0.piece_mgr);
    reveal(heap);
    end_al(f.0.piece_mgr, f.0.hv().ps, f.0.len());
    bf_len(&f.0.buf_file);
    let n = f.0.len() as u64;
    assert(n & 0x0f == 0) by (bit_vector) requires n % 16 == 0;
}
/// the header names another top node
proof fn top_moved(a: VarFileNodeCache, b: VarFileNodeCache, v: NodePieceOffset)
    requires a.xo(), b.0.piece_mgr == a.0.piece_mgr, b.1 == a.1, b.0.img() == put_at(a.0.img(), 16, enc(8, v.val as nat)),
    ensures ({
        let c = VarFileNodeCache(b.0, b.1, v);
        c.xo() && c.nodes() == a.nodes() && c.0.hv() == a.0.hv() && c.0.len() == a.0.len() && tops(c)
    }),
{ x_head(a, VarFileNodeCache(b.0, b.1, v), v.val); }
pub open spec fn sn(n: IdxNode) -> SNode { SNode { sz: n.0.size.val, v: n.nv() } }
//@ arrays sz_ary
//@ mutself read_node read_top_node write_node write_new_node write_top_node delete_node count_of_free_node
impl IdxFile {
    pub open spec fn ok(&self) -> bool { self.0.xo() && tops(self.0) }
    pub open spec fn n(&self) -> Store { self.0.nodes() }
    /// the node at o, as it is stored
    pub open spec fn of(&self, o: NodePieceOffset, n: IdxNode) -> bool { n.off() == o && !n.act() && self.n().dom().contains(o.val) && self.n()[o.val] == sn(n) }
    pub open spec fn wrote(&self, a: IdxFile, base: Store, r: IdxNode, v: NodeV) -> bool {
        VarFileNodeCache::wrote(a.0, self.0, base, r, v) && !base.dom().contains(r.off().val) && self.ok()
    }
//@ fn IdxFile::read_node
    requires old(self).ok(), old(self).n().dom().contains(offset.val),
    ensures ret is Ok ==> final(self).ok() && final(self).n() == old(self).n() && final(self).0.0.hv() == old(self).0.0.hv() && final(self).0.2 == old(self).0.2 && old(self).of(offset, ret->Ok_0), // C01 C06 C16
//@ start
    hide(VarFileNodeCache::xo); hide(snug); hide(VarFileNodeCache::nodes); hide(VarFile::hv); hide(tops); hide(head_same); hide(pushed); hide(okv);
    proof { x_len(self.0); x_node(self.0, offset.val); }
//@ after read_node 0
    proof { if tail_ is Ok { x_keeps(old(self).0, self.0); x_len(self.0); tops_same(old(self).0, self.0); } }
//@ end
//@ fn IdxFile::read_top_node
    requires old(self).ok(), old(self).n().dom().contains(old(self).0.2.val),
    ensures ret is Ok ==> final(self).ok() && final(self).n() == old(self).n() && final(self).0.0.hv() == old(self).0.0.hv() && final(self).0.2 == old(self).0.2 && old(self).of(old(self).0.2, ret->Ok_0), // C01 C06 C16
//@ end
//@ fn IdxFile::write_node
    requires old(self).ok(), !node.act(), okv(node.nv()), node.0.is_dirty || old(self).0.settled(node), old(self).n().dom().contains(node.off().val), old(self).n()[node.off().val].sz == node.0.size.val,
    ensures ret is Ok ==> final(self).wrote(*old(self), old(self).n().remove(node.off().val), ret->Ok_0, node.nv()) && final(self).0.2 == old(self).0.2, // C01 C05 C06 C07 C16
//@ start
    hide(VarFileNodeCache::settled); hide(VarFileNodeCache::xo); hide(snug); hide(VarFileNodeCache::nodes); hide(VarFile::hv); hide(tops); hide(head_same); hide(pushed); hide(okv);
    proof { x_len(self.0); x_at(self.0, node.off().val); }
//@ after write_node 0
    proof { if tail_ is Ok { x_len(self.0); tops_same(old(self).0, self.0); } }
//@ end
//@ fn IdxFile::write_new_node
    requires old(self).ok(), !node.act(), okv(node.nv()), node.0.is_dirty,
    ensures ret is Ok ==> final(self).wrote(*old(self), old(self).n(), ret->Ok_0, node.nv()) && final(self).0.2 == old(self).0.2, // C01 C05 C06 C07 C16
//@ start
    hide(VarFileNodeCache::xo); hide(snug); hide(VarFileNodeCache::nodes); hide(VarFile::hv); hide(tops); hide(head_same); hide(pushed); hide(okv);
    proof { x_len(self.0); end_ok(self.0); }
//@ before write_node 0
    let ghost q = *locked;
    proof { x_same(old(self).0, q); head_eq(old(self).0.0, q.0); x_len(q); tops_same(old(self).0, q); }
//@ after write_node 0
    proof { if tail_ is Ok { x_len(self.0); tops_same(q, self.0); } }
//@ end
//@ fn IdxFile::delete_node
    requires old(self).ok(), old(self).n().dom().contains(node.off().val),
    ensures ret is Ok ==> final(self).ok() && final(self).n() == old(self).n().remove(node.off().val) && final(self).0.2 == old(self).0.2 // C01 C06 C07
        && final(self).0.0.len() == old(self).0.0.len(),
//@ start
    hide(VarFileNodeCache::xo); hide(snug); hide(VarFileNodeCache::nodes); hide(VarFile::hv); hide(tops); hide(head_same); hide(pushed); hide(okv);
    proof { x_len(self.0); }
//@ after delete_node 0
    proof { if tail_ is Ok { x_len(self.0); tops_same(old(self).0, self.0); } }
//@ end
//@ fn IdxFile::write_top_node
    requires old(self).ok(), !node.act(), okv(node.nv()), node.0.is_dirty || node.off().val != 0 && old(self).0.settled(node),
        node.off().val != 0 ==> old(self).n().dom().contains(node.off().val) && old(self).n()[node.off().val].sz == node.0.size.val,
    ensures ret is Ok ==> final(self).wrote(*old(self), if node.off().val == 0 { old(self).n() } else { old(self).n().remove(node.off().val) }, ret->Ok_0, node.nv()) // C01 C05 C06 C07 C16
        && final(self).0.2 == ret->Ok_0.off(), // C01 C05
//@ start
    hide(VarFileNodeCache::settled); hide(VarFileNodeCache::xo); hide(snug); hide(VarFileNodeCache::nodes); hide(VarFile::hv); hide(tops); hide(head_same); hide(pushed); hide(okv);
    proof { x_len(self.0); }
    let ghost mut p = *self;
//@ after write_new_node 0
    proof { p = *self; x_len(p.0); }
//@ after write_top_node_offset 0
    proof { top_moved(p.0, *locked, new_top_node_offset); }
//@ after write_node 0
    proof { p = *self; x_len(p.0); }
//@ after write_top_node_offset 1
    proof { top_moved(p.0, *locked, new_top_node_offset); }
//@ end
//@ fn IdxFile::count_of_free_node
//@ attr #[verifier::loop_isolation(false)]
    requires old(self).ok(),
    ensures final(self).0.0.same(old(self).0.0), ret is Ok ==> frees(ret->Ok_0, old(self).0.0, 8), // C15
//@ start
    proof { x_of(self.0); nmgr_ok(self.0.0.piece_mgr); }
//@ loop 0
    invariant locked.0.same(old(self).0.0), frees(vec, old(self).0.0, i_ as int),
//@ loopstart 0
    proof {
        let m = locked.0.piece_mgr;
        b_same(old(self).0.0, locked.0);
        let z = sz_ary@[i_ as int] as int;
        assert(m.sz(i_ as int) == z);
        assert(m.vsz(z));
        cls_at(m, z, i_ as int);
    }
//@ end
}
}
fn main() {}
