// ---------------------------------------------------------------- the bytes of the pieces in use
/// the pieces in use: offset -> bytes
pub open spec fn live_at(hp: Hp, o: int) -> bool { exists|s: int| live(hp, o, s) }
pub open spec fn bodies(m: PieceMgr, img: Seq<u8>, hp: Hp) -> IMap<u64, Seq<u8>> {
    IMap::new(|o: u64| live_at(hp, o as int), |o: u64| at(img, o as int, lenb(m, img, o as int)))
}
impl VarFile {
    pub open spec fn b(&self) -> IMap<u64, Seq<u8>> { bodies(self.piece_mgr, self.img(), self.hv()) }
}
pub proof fn body_at(f: VarFile, o: u64)
    requires f.hok(), f.b().dom().contains(o),
    ensures ({ let s = f.b()[o].len() as int;
        &&& live(f.hv(), o as int, s) && f.b()[o] == at(f.img(), o as int, s) && lenb(f.piece_mgr, f.img(), o as int) == s
        &&& f.piece_mgr.hl() <= o && o + s <= f.len() && 16 <= s <= 0xffff_ff00 && f.piece_mgr.vsz(s) && (f.piece_mgr.n() == 8 ==> s <= 0xffff) && o as int % f.piece_mgr.al() == 0 }),
{
    hide(heap);
    let s = choose|s: int| live(f.hv(), o as int, s);
    hv_ok(f);
    piece_size(f.piece_mgr, f.img(), f.hv(), o as int, s);
}
pub proof fn body_is(f: VarFile, o: u64, s: int)
    requires f.hok(), live(f.hv(), o as int, s),
    ensures f.b().dom().contains(o), f.b()[o] == at(f.img(), o as int, s), f.b()[o].len() == s, lenb(f.piece_mgr, f.img(), o as int) == s, f.piece_mgr.hl() <= o, o + s <= f.len(), s >= 16,
{
    hide(heap);
    hv_ok(f);
    piece_size(f.piece_mgr, f.img(), f.hv(), o as int, s);
    assert(live_at(f.hv(), o as int));
}
/// pieces in use do not overlap
pub proof fn bodies_apart(f: VarFile, o: u64, p: u64)
    requires f.hok(), f.b().dom().contains(o), f.b().dom().contains(p), o != p,
    ensures o + f.b()[o].len() <= p || p + f.b()[p].len() <= o,
{
    hide(heap);
    body_at(f, o);
    body_at(f, p);
    hv_ok(f);
    assert(tiled(f.piece_mgr, f.hv().ps, f.len())) by { reveal(heap); }
    two_pieces(f.piece_mgr, f.hv().ps, f.len(), o as int, f.b()[o].len() as int, p as int, f.b()[p].len() as int);
}
/// the piece at r is r's only change
proof fn bodies_same(a: VarFile, b: VarFile, r: int, s: int, q: int, k: int)
    requires a.hok(), b.hok(), a.piece_mgr == b.piece_mgr, is_piece(a.hv(), r, s), same_but(a.img(), b.img(), r, s, q, k),
        q + k <= a.piece_mgr.hl() || (exists|u: int, v: int| is_piece(a.hv(), u, v) && is_free(a.hv(), u) && u + 8 <= q && q + k <= #[trigger] (u + v)),
        forall|u: int, v: int| u != r ==> (#[trigger] live(b.hv(), u, v) <==> live(a.hv(), u, v)),
    ensures forall|o: u64| o != r ==> (#[trigger] b.b().dom().contains(o) <==> a.b().dom().contains(o)),
        forall|o: u64| o != r && #[trigger] a.b().dom().contains(o) ==> b.b()[o] == a.b()[o],
{
    hide(heap); hide(tiled);
    hv_ok(a);
    assert(tiled(a.piece_mgr, a.hv().ps, a.len())) by { reveal(heap); }
    assert forall|o: u64| o != r && #[trigger] a.b().dom().contains(o) implies b.b().dom().contains(o) && b.b()[o] == a.b()[o] by {
        body_at(a, o);
        let n = a.b()[o].len() as int;
        assert(live(b.hv(), o as int, n));
        two_pieces(a.piece_mgr, a.hv().ps, a.len(), o as int, n, r, s);
        if q + k > a.piece_mgr.hl() {
            let (x, y) = choose|u: int, v: int| is_piece(a.hv(), u, v) && is_free(a.hv(), u) && u + 8 <= q && q + k <= #[trigger] (u + v);
            two_pieces(a.piece_mgr, a.hv().ps, a.len(), o as int, n, x, y);
        }
        assert(at(a.img(), o as int, n) =~= at(b.img(), o as int, n));
        body_is(b, o, n);
    }
    assert forall|o: u64| o != r && #[trigger] b.b().dom().contains(o) implies a.b().dom().contains(o) by {
        body_at(b, o);
        assert(live(a.hv(), o as int, b.b()[o].len() as int));
        body_is(a, o, b.b()[o].len() as int);
    }
}
pub proof fn b_same(a: VarFile, b: VarFile)
    requires b.img() == a.img(), b.piece_mgr == a.piece_mgr, a.hok(),
    ensures b.hok(), b.hv() == a.hv(), b.b() == a.b(),
{ same_heap(a, b); assert(b.b() =~= a.b()); }
pub proof fn b_pushed(a: VarFile, b: VarFile, o: u64, s: int)
    requires a.hok(), a.piece_mgr == b.piece_mgr, live(a.hv(), o as int, s), b.is_heap(pushed(a.piece_mgr, a.hv(), o as int, s)),
        same_but(a.img(), b.img(), o as int, s, a.piece_mgr.fo(a.piece_mgr.cls(s)), 8),
        forall|u: int, v: int| u != o ==> (#[trigger] live(pushed(a.piece_mgr, a.hv(), o as int, s), u, v) <==> live(a.hv(), u, v)),
        is_free(pushed(a.piece_mgr, a.hv(), o as int, s), o as int),
    ensures b.hok(), b.b() == a.b().remove(o),
{
    hide(heap); hide(tiled);
    hv_ok(a);
    hv_is(b, pushed(a.piece_mgr, a.hv(), o as int, s));
    piece_size(a.piece_mgr, a.img(), a.hv(), o as int, s);
    cls_in(a.piece_mgr, s);
    fo_in(a.piece_mgr, a.piece_mgr.cls(s));
    bodies_same(a, b, o as int, s, a.piece_mgr.fo(a.piece_mgr.cls(s)), 8);
    if b.b().dom().contains(o) { body_at(b, o); }
    assert(b.b() =~= a.b().remove(o));
}
/// a free piece of the right size was taken
pub proof fn b_popped(a: VarFile, b: VarFile, size: int, r: u64)
    requires a.hok(), a.piece_mgr == b.piece_mgr, a.piece_mgr.vsz(size), r != 0, VarFile::pop_post(a, b, size, r as int),
    ensures b.hok(), !a.b().dom().contains(r), b.b().dom().contains(r), b.b().remove(r) == a.b(), b.b()[r].len() >= size, b.b()[r].len() == lenb(b.piece_mgr, b.img(), r as int),
        le4(b.img(), r as int) == b.b()[r].len(), b.len() == a.len(),
{
    hide(heap); hide(tiled);
    reveal(VarFile::pop_post);
    hv_ok(a);
    cls_in(a.piece_mgr, size);
    let m = a.piece_mgr;
    let c = m.cls(size);
    let s = le4(a.img(), r as int);
    let i = choose|i: int| 0 <= i < a.list(size).len() && #[trigger] a.list(size)[i] == r as int && b.is_heap(popped(a.hv(), c, i)) && b.hok() && b.hv() == popped(a.hv(), c, i)
                && same_but(a.img(), b.img(), r as int, le4(a.img(), r as int), link(a.piece_mgr, a.hv(), c, i), 8);
    item_at(m, a.img(), a.hv(), c, i);
    fo_in(m, c);
    if i > 0 {
        item_at(m, a.img(), a.hv(), c, i - 1);
        let x = a.hv().fl[c][i - 1];
        let y = le4(a.img(), x);
        assert(is_piece(a.hv(), x, y) && is_free(a.hv(), x) && x + 8 <= link(m, a.hv(), c, i) && link(m, a.hv(), c, i) + 8 <= x + y);
    }
    bodies_same(a, b, r as int, s, link(m, a.hv(), c, i), 8);
    body_is(b, r, s);
    if a.b().dom().contains(r) { body_at(a, r); }
    assert(b.b().remove(r) =~= a.b());
}
/// a piece in use gets new bytes
pub proof fn b_written(a: VarFile, b: VarFile, o: u64, e: Seq<u8>)
    requires a.hok(), a.piece_mgr == b.piece_mgr, a.b().dom().contains(o), e.len() == a.b()[o].len(), b.img() == put_at(a.img(), o as int, e),
        le(e.subrange(0, a.piece_mgr.nb())) == e.len(),
    ensures b.hok(), b.b() == a.b().insert(o, e), b.len() == a.len(),
{
    hide(heap); hide(tiled);
    hv_ok(a);
    body_at(a, o);
    let s = e.len() as int;
    assert(at(b.img(), o as int, s) =~= e);
    assert(at(b.img(), o as int, a.piece_mgr.nb()) =~= e.subrange(0, a.piece_mgr.nb()));
    assert(same_but(a.img(), b.img(), o as int, s, 0, 0));
    heap_write(a.piece_mgr, a.img(), b.img(), a.hv(), o as int, s);
    hv_is(b, a.hv());
    bodies_same(a, b, o as int, s, 0, 0);
    body_is(b, o, s);
    assert(b.b() =~= a.b().insert(o, e));
}
/// a new piece at the end of the file
pub proof fn b_grown(a: VarFile, b: VarFile, e: Seq<u8>)
    requires a.hok(), a.piece_mgr == b.piece_mgr, a.piece_mgr.vsz(e.len() as int), b.img() == put_at(a.img(), a.len(), e), a.len() <= u64::MAX,
        le(e.subrange(0, a.piece_mgr.nb())) == e.len(),
    ensures b.hok(), b.b() == a.b().insert(a.len() as u64, e), !a.b().dom().contains(a.len() as u64), b.hv() == grown(a.hv(), a.len(), e.len() as int),
        b.len() == a.len() + e.len(), a.len() >= a.piece_mgr.hl(),
{
    hide(heap); hide(tiled);
    hv_ok(a);
    let m = a.piece_mgr;
    let (o, s) = (a.len(), e.len() as int);
    cls_in(m, s);
    assert(at(b.img(), o, s) =~= e);
    assert(at(b.img(), o, m.nb()) =~= e.subrange(0, m.nb()));
    heap_grow(m, a.img(), b.img(), a.hv(), s);
    hv_is(b, grown(a.hv(), o, s));
    body_is(b, o as u64, s);
    assert forall|p: u64| #[trigger] a.b().dom().contains(p) implies p != o && b.b().dom().contains(p) && b.b()[p] == a.b()[p] by {
        body_at(a, p);
        let n = a.b()[p].len() as int;
        assert(live(b.hv(), p as int, n));
        assert(at(a.img(), p as int, n) =~= at(b.img(), p as int, n));
        body_is(b, p, n);
    }
    assert forall|p: u64| p != o && #[trigger] b.b().dom().contains(p) implies a.b().dom().contains(p) by {
        body_at(b, p);
        assert(live(a.hv(), p as int, b.b()[p].len() as int));
        body_is(a, p, b.b()[p].len() as int);
    }
    if a.b().dom().contains(o as u64) { body_at(a, o as u64); }
    assert(b.b() =~= a.b().insert(o as u64, e));
}
/// no free record of this size class is large enough
pub open spec fn no_fit(m: PieceMgr, hp: Hp, s: int) -> bool {
    let l = hp.fl[m.cls(s)];
    forall|i: int, z: int| 0 <= i < l.len() && #[trigger] is_piece(hp, l[i], z) ==> z < s
}
pub proof fn popped_none(a: VarFile, b: VarFile, size: int)
    requires a.hok(), a.piece_mgr == b.piece_mgr, a.piece_mgr.vsz(size), VarFile::pop_post(a, b, size, 0),
    ensures b.same(a), b.hok(), b.b() == a.b(), b.hv() == a.hv(), no_fit(a.piece_mgr, a.hv(), size),
{
    hide(heap); hide(tiled);
    reveal(VarFile::pop_post);
    b_same(a, b);
    hv_ok(a);
    let m = a.piece_mgr;
    let hp = a.hv();
    let c = m.cls(size);
    let l = hp.fl[c];
    cls_in(m, size);
    assert(tiled(m, hp.ps, a.len())) by { reveal(heap); }
    assert forall|i: int, z: int| 0 <= i < l.len() && #[trigger] is_piece(hp, l[i], z) implies z < size by {
        item_at(m, a.img(), hp, c, i);
        assert(a.list(size)[i] == l[i]);
        assert(le4(a.img(), l[i]) < size);
        two_pieces(m, hp.ps, a.len(), l[i], z, l[i], le4(a.img(), l[i]));
    }
}
pub proof fn pushed_no_fit(m: PieceMgr, hp: Hp, o: int, s: int, size: int)
    requires m.ok(), hp.fl.len() == m.n(), m.vsz(size), m.vsz(s), no_fit(m, pushed(m, hp, o, s), size),
    ensures no_fit(m, hp, size),
{
    cls_in(m, s);
    cls_in(m, size);
    let h2 = pushed(m, hp, o, s);
    let c = m.cls(size);
    let l = hp.fl[c];
    assert forall|i: int, z: int| 0 <= i < l.len() && #[trigger] is_piece(hp, l[i], z) implies z < size by {
        if c == m.cls(s) { assert(h2.fl[c][i + 1] == l[i]); assert(is_piece(h2, h2.fl[c][i + 1], z)); } else { assert(is_piece(h2, h2.fl[c][i], z)); }
    }
}
proof fn le_zeros(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
    ensures le(s) == 0,
    decreases s.len(),
{ if s.len() > 0 { le_zeros(s.subrange(1, s.len() as int)); } }
/// a file that is a header with empty lists
pub proof fn fresh_heap(f: VarFile)
    requires f.piece_mgr.ok(), f.len() == f.piece_mgr.hl(), forall|i: int| 24 <= i < f.len() ==> f.img()[i] == 0,
    ensures f.hok(), f.b() == IMap::<u64, Seq<u8>>::empty(), f.hv().ps.len() == 0, forall|c: int| 0 <= c < f.piece_mgr.n() ==> (#[trigger] f.hv().fl[c]).len() == 0,
{
    let m = f.piece_mgr;
    let h = Hp { ps: Seq::empty(), fl: Seq::new(m.n() as nat, |c: int| Seq::empty()) };
    assert forall|c: int| 0 <= c < m.n() implies flist(m, f.img(), h.ps, #[trigger] h.fl[c], c) by {
        fo_in(m, c);
        le_zeros(at(f.img(), m.fo(c), 8));
    }
    assert(f.is_heap(h));
    hv_is(f, h);
    assert forall|o: u64| !f.b().dom().contains(o) by { if live_at(f.hv(), o as int) { let s = choose|s: int| live(f.hv(), o as int, s); assert(is_piece(h, o as int, s)); } }
    assert(f.b() =~= IMap::<u64, Seq<u8>>::empty());
}
/// the number of free records of each of the first n classes
pub open spec fn frees(v: Vec<(u32, u64)>, f: VarFile, n: int) -> bool {
    v@.len() == n && forall|c: int| 0 <= c < n ==> (#[trigger] v@[c]).0 == f.piece_mgr.sz(c) && v@[c].1 == f.hv().fl[c].len()
}
