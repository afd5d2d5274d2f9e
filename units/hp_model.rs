// ---------------------------------------------------------------- record areas: pieces in use and free lists
impl PieceMgr {
    pub open spec fn n(&self) -> int { self.size_ary@.len() as int }
    pub open spec fn sz(&self, c: int) -> int { self.size_ary@[c] as int }
    pub open spec fn fo(&self, c: int) -> int { self.free_list_offset@[c] as int }
    /// of a node file (8 classes), of a key or a value file (16)
    pub open spec fn hl(&self) -> int { if self.n() == 16 { 192 } else { 128 } }
    /// the width of the size of a record
    pub open spec fn nb(&self) -> int { if self.n() == 16 { 4 } else { 2 } }
    pub open spec fn al(&self) -> int { if self.n() == 16 { 8 } else { 16 } }
    pub open spec fn ok(&self) -> bool {
        &&& (self.n() == 8 || self.n() == 16) && self.free_list_offset@.len() == self.n()
        &&& forall|c: int| 0 <= c < self.n() ==> 16 <= #[trigger] self.sz(c) <= 0x10000 && self.sz(c) % self.al() == 0
        &&& forall|c: int, d: int| 0 <= c < d < self.n() ==> #[trigger] self.sz(c) < #[trigger] self.sz(d)
        &&& forall|c: int| 0 <= c < self.n() ==> 24 <= #[trigger] self.fo(c) && self.fo(c) + 8 <= self.hl()
        &&& forall|c: int, d: int| 0 <= c < d < self.n() ==> #[trigger] self.fo(c) + 8 <= #[trigger] self.fo(d)
        &&& self.n() == 8 ==> self.sz(7) <= 0xffff
    }
    /// the declared sizes: the classes, and above the last one any multiple
    pub open spec fn vsz(&self, s: int) -> bool {
        ||| exists|c: int| 0 <= c < self.n() && #[trigger] self.sz(c) == s
        ||| self.sz(self.n() - 1) <= s <= 0xffff_ff00 && s % self.al() == 0 && (self.n() == 8 ==> s <= 0xffff)
    }
    pub open spec fn is_cls(&self, s: int, c: int) -> bool {
        0 <= c < self.n() && (self.sz(c) == s || (c == self.n() - 1 && s >= self.sz(c)))
    }
    /// class c is the first that holds s bytes
    pub open spec fn fits(&self, s: int, c: int) -> bool { 0 <= c < self.n() - 1 && s <= self.sz(c) && forall|d: int| 0 <= d < c ==> #[trigger] self.sz(d) < s }
    /// the size of the record for s bytes
    pub open spec fn rup(&self, s: int) -> int {
        if s <= self.sz(self.n() - 2) { self.sz(choose|c: int| self.fits(s, c)) } else { ((s + 128) / 128) * 128 }
    }
    /// the class of a size
    pub open spec fn cls(&self, s: int) -> int { choose|c: int| self.is_cls(s, c) }
}
pub proof fn cls_at(m: PieceMgr, s: int, c: int)
    requires m.ok(), m.is_cls(s, c),
    ensures m.cls(s) == c,
{
    let d = m.cls(s);
    assert(m.is_cls(s, d));
    if c < d { assert(m.sz(c) < m.sz(d)); }
    if d < c { assert(m.sz(d) < m.sz(c)); }
}
pub proof fn cls_in(m: PieceMgr, s: int)
    requires m.ok(), m.vsz(s),
    ensures m.is_cls(s, m.cls(s)), 0 <= m.cls(s) < m.n(), 16 <= s <= 0xffff_ff00, m.n() == 8 ==> s <= 0xffff, s % m.al() == 0,
        s < m.sz(m.n() - 1) ==> m.sz(m.cls(s)) == s,
{
    if m.sz(m.n() - 1) <= s && s % m.al() == 0 {
        assert(m.is_cls(s, m.n() - 1));
        assert(m.sz(m.n() - 1) >= 16);
    } else {
        let c = choose|c: int| 0 <= c < m.n() && #[trigger] m.sz(c) == s;
        assert(m.is_cls(s, c));
        if c < 7 { assert(m.sz(c) < m.sz(7)); }
    }
    if m.n() == 8 {
        assert(forall|c: int| 0 <= c < 7 ==> #[trigger] m.sz(c) < m.sz(7));
    }
}
pub proof fn rup_at(m: PieceMgr, s: int, c: int)
    requires m.ok(), m.fits(s, c),
    ensures m.rup(s) == m.sz(c),
{
    let d = choose|d: int| m.fits(s, d);
    assert(m.fits(s, d));
    if c < d { assert(m.sz(c) < s); }
    if d < c { assert(m.sz(d) < s); }
    if c < m.n() - 2 { assert(m.sz(c) < m.sz(m.n() - 2)); }
}
/// pieces in order (offset and size), and the free list of each class
pub struct Hp { pub ps: Seq<(int, int)>, pub fl: Seq<Seq<int>> }
pub open spec fn le4(img: Seq<u8>, p: int) -> int { le(at(img, p, 4)) as int }
pub open spec fn le8(img: Seq<u8>, p: int) -> int { le(at(img, p, 8)) as int }
pub open spec fn lenb(m: PieceMgr, img: Seq<u8>, p: int) -> int { le(at(img, p, m.nb())) as int }
pub open spec fn nx(l: Seq<int>, i: int) -> int { if 0 <= i < l.len() { l[i] } else { 0 } }
pub open spec fn pend(ps: Seq<(int, int)>, i: int) -> int { ps[i].0 + ps[i].1 }
/// the record area is cut into pieces of declared sizes: nothing is lost, nothing overlaps
pub open spec fn tiled(m: PieceMgr, ps: Seq<(int, int)>, len: int) -> bool {
    &&& len >= m.hl()
    &&& ps.len() == 0 ==> len == m.hl()
    &&& ps.len() > 0 ==> ps[0].0 == m.hl() && pend(ps, ps.len() - 1) == len
    &&& forall|i: int| 0 <= i && i + 1 < ps.len() ==> #[trigger] pend(ps, i) == ps[i + 1].0
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> #[trigger] pend(ps, i) <= (#[trigger] ps[j]).0
    &&& forall|i: int| 0 <= i < ps.len() ==> m.vsz((#[trigger] ps[i]).1) && ps[i].0 >= m.hl() && pend(ps, i) <= len && ps[i].0 % m.al() == 0
}
/// item i of the list of class c
pub open spec fn fitem(m: PieceMgr, img: Seq<u8>, ps: Seq<(int, int)>, l: Seq<int>, c: int, i: int) -> bool {
    let o = l[i];
    let s = le4(img, o);
    ps.contains((o, s)) && m.is_cls(s, c) && le4(img, o + 4) == 0 && le8(img, o + 8) == nx(l, i + 1)
}
pub open spec fn flist(m: PieceMgr, img: Seq<u8>, ps: Seq<(int, int)>, l: Seq<int>, c: int) -> bool {
    &&& le8(img, m.fo(c)) == nx(l, 0)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] fitem(m, img, ps, l, c, i)
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i] != #[trigger] l[j]
}
pub open spec fn heap(m: PieceMgr, img: Seq<u8>, hp: Hp) -> bool {
    &&& tiled(m, hp.ps, img.len() as int)
    &&& forall|i: int| 0 <= i < hp.ps.len() ==> lenb(m, img, (#[trigger] hp.ps[i]).0) == hp.ps[i].1
    &&& hp.fl.len() == m.n()
    &&& forall|c: int| 0 <= c < m.n() ==> flist(m, img, hp.ps, #[trigger] hp.fl[c], c)
}
pub open spec fn is_free(hp: Hp, o: int) -> bool { exists|c: int, i: int| 0 <= c < hp.fl.len() && 0 <= i < hp.fl[c].len() && #[trigger] hp.fl[c][i] == o }
pub open spec fn is_piece(hp: Hp, o: int, s: int) -> bool { hp.ps.contains((o, s)) }
/// the piece at o, of size s, is in use
pub open spec fn live(hp: Hp, o: int, s: int) -> bool { is_piece(hp, o, s) && !is_free(hp, o) }
// ---- lemmas
pub proof fn two_pieces(m: PieceMgr, ps: Seq<(int, int)>, len: int, o1: int, s1: int, o2: int, s2: int)
    requires m.ok(), tiled(m, ps, len), ps.contains((o1, s1)), ps.contains((o2, s2)),
    ensures o1 == o2 ==> s1 == s2, o1 < o2 ==> o1 + s1 <= o2, o2 < o1 ==> o2 + s2 <= o1,
        m.hl() <= o1, o1 + s1 <= len, m.hl() <= o2, o2 + s2 <= len, s1 >= 16, s2 >= 16, m.vsz(s1), m.vsz(s2), o1 % m.al() == 0,
{
    let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (o1, s1);
    let j = choose|j: int| 0 <= j < ps.len() && ps[j] == (o2, s2);
    cls_in(m, s1);
    cls_in(m, s2);
    assert(pend(ps, i) == o1 + s1 && pend(ps, j) == o2 + s2);
    if i < j { assert(pend(ps, i) <= ps[j].0); }
    if j < i { assert(pend(ps, j) <= ps[i].0); }
}
pub proof fn piece_at(m: PieceMgr, ps: Seq<(int, int)>, len: int, o: int, s: int)
    requires m.ok(), tiled(m, ps, len), ps.contains((o, s)),
    ensures m.hl() <= o, o + s <= len, 16 <= s <= 0xffff_ff00, m.vsz(s), m.n() == 8 ==> s <= 0xffff, o % m.al() == 0, s % m.al() == 0,
{ two_pieces(m, ps, len, o, s, o, s); cls_in(m, s); }
pub proof fn piece_size(m: PieceMgr, img: Seq<u8>, hp: Hp, o: int, s: int)
    requires m.ok(), heap(m, img, hp), is_piece(hp, o, s),
    ensures lenb(m, img, o) == s, o + s <= img.len(), o >= m.hl(), 16 <= s <= 0xffff_ff00, m.vsz(s), m.n() == 8 ==> s <= 0xffff,
        o % m.al() == 0, s % m.al() == 0,
{
    let i = choose|i: int| 0 <= i < hp.ps.len() && hp.ps[i] == (o, s);
    assert(lenb(m, img, hp.ps[i].0) == hp.ps[i].1);
    piece_at(m, hp.ps, img.len() as int, o, s);
}
proof fn ps_uni(m: PieceMgr, img: Seq<u8>, a: Hp, b: Hp, i: int)
    requires m.ok(), heap(m, img, a), heap(m, img, b), 0 <= i < a.ps.len(), i < b.ps.len(),
    ensures a.ps[i] == b.ps[i],
    decreases i,
{
    if i > 0 {
        ps_uni(m, img, a, b, i - 1);
        assert(pend(a.ps, i - 1) == a.ps[i].0);
        assert(pend(b.ps, i - 1) == b.ps[i].0);
    }
    assert(lenb(m, img, a.ps[i].0) == a.ps[i].1);
    assert(lenb(m, img, b.ps[i].0) == b.ps[i].1);
}
proof fn ps_len(m: PieceMgr, img: Seq<u8>, a: Hp, b: Hp)
    requires m.ok(), heap(m, img, a), heap(m, img, b),
    ensures a.ps.len() >= b.ps.len(),
{
    if a.ps.len() < b.ps.len() {
        let k = a.ps.len() as int;
        let l = img.len() as int;
        assert(b.ps[k].0 < l) by {
            assert(b.ps.contains(b.ps[k]));
            piece_at(m, b.ps, l, b.ps[k].0, b.ps[k].1);
        }
        if k > 0 {
            ps_uni(m, img, a, b, k - 1);
            assert(pend(b.ps, k - 1) == b.ps[k].0);
            assert(pend(a.ps, k - 1) == l);
        }
    }
}
proof fn fl_uni(m: PieceMgr, img: Seq<u8>, a: Hp, b: Hp, c: int, i: int)
    requires m.ok(), heap(m, img, a), heap(m, img, b), 0 <= c < m.n(), 0 <= i < a.fl[c].len(),
    ensures i < b.fl[c].len(), a.fl[c][i] == b.fl[c][i],
    decreases i,
{
    assert(flist(m, img, a.ps, a.fl[c], c));
    assert(flist(m, img, b.ps, b.fl[c], c));
    assert(fitem(m, img, a.ps, a.fl[c], c, i));
    piece_at(m, a.ps, img.len() as int, a.fl[c][i], le4(img, a.fl[c][i]));
    if i > 0 {
        fl_uni(m, img, a, b, c, i - 1);
        assert(fitem(m, img, a.ps, a.fl[c], c, i - 1));
        assert(fitem(m, img, b.ps, b.fl[c], c, i - 1));
    }
    assert(nx(a.fl[c], i) == nx(b.fl[c], i));
}
/// the bytes determine the pieces and the lists
pub proof fn heap_uni(m: PieceMgr, img: Seq<u8>, a: Hp, b: Hp)
    requires m.ok(), heap(m, img, a), heap(m, img, b),
    ensures a == b,
{
    ps_len(m, img, a, b);
    ps_len(m, img, b, a);
    assert forall|i: int| 0 <= i < a.ps.len() implies a.ps[i] == b.ps[i] by { ps_uni(m, img, a, b, i); }
    assert(a.ps =~= b.ps);
    assert forall|c: int| 0 <= c < m.n() implies a.fl[c] == b.fl[c] by {
        assert forall|i: int| 0 <= i < a.fl[c].len() implies i < b.fl[c].len() && a.fl[c][i] == b.fl[c][i] by { fl_uni(m, img, a, b, c, i); }
        let (k, l) = (a.fl[c].len() as int, b.fl[c].len() as int);
        if k < l { fl_uni(m, img, b, a, c, k); }
        if l < k { fl_uni(m, img, a, b, c, l); }
        assert(a.fl[c] =~= b.fl[c]);
    }
    assert(a.fl =~= b.fl);
}
/// what the lists hold does not depend on bytes elsewhere
pub proof fn flist_frame(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, ps: Seq<(int, int)>, l: Seq<int>, c: int)
    requires m.ok(), tiled(m, ps, a.len() as int), a.len() <= b.len(), flist(m, a, ps, l, c), 0 <= c < m.n(), eq_on(a, b, m.fo(c), 8),
        forall|i: int| 0 <= i < l.len() ==> eq_on(a, b, #[trigger] l[i], 16),
    ensures flist(m, b, ps, l, c),
{
    assert(m.fo(c) + 8 <= m.hl());
    assert(at(a, m.fo(c), 8) =~= at(b, m.fo(c), 8));
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] fitem(m, b, ps, l, c, i) by {
        assert(fitem(m, a, ps, l, c, i));
        let o = l[i];
        piece_at(m, ps, a.len() as int, o, le4(a, o));
        assert(eq_on(a, b, o, 16));
        assert(at(a, o, 4) =~= at(b, o, 4));
        assert(at(a, o + 4, 4) =~= at(b, o + 4, 4));
        assert(at(a, o + 8, 8) =~= at(b, o + 8, 8));
    }
}
/// sizes of the pieces do not depend on bytes elsewhere
pub proof fn size_frame(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, o: int)
    requires m.ok(), 0 <= o, o + m.nb() <= a.len(), a.len() <= b.len(), eq_on(a, b, o, m.nb()),
    ensures lenb(m, a, o) == lenb(m, b, o),
{ assert(at(a, o, m.nb()) =~= at(b, o, m.nb())); }
/// equal but for two stretches
pub open spec fn same_but(a: Seq<u8>, b: Seq<u8>, p: int, n: int, q: int, k: int) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() && !(p <= j < p + n) && !(q <= j < q + k) ==> #[trigger] a[j] == b[j]
}
pub open spec fn pushed(m: PieceMgr, hp: Hp, o: int, s: int) -> Hp {
    let c = m.cls(s);
    Hp { ps: hp.ps, fl: hp.fl.update(c, seq![o] + hp.fl[c]) }
}
pub open spec fn popped(hp: Hp, c: int, i: int) -> Hp { Hp { ps: hp.ps, fl: hp.fl.update(c, hp.fl[c].remove(i)) } }
pub open spec fn grown(hp: Hp, o: int, s: int) -> Hp { Hp { ps: hp.ps.push((o, s)), fl: hp.fl } }
/// the pieces other than the one at o keep their sizes
proof fn sizes_keep(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, o: int, s: int, q: int, k: int)
    requires m.ok(), heap(m, a, hp), is_piece(hp, o, s), lenb(m, b, o) == s, same_but(a, b, o, s, q, k),
        q + k <= m.hl() || (exists|u: int, v: int| is_piece(hp, u, v) && u + 8 <= q && q + k <= #[trigger] (u + v)),
    ensures forall|i: int| 0 <= i < hp.ps.len() ==> lenb(m, b, (#[trigger] hp.ps[i]).0) == hp.ps[i].1,
{
    assert forall|i: int| 0 <= i < hp.ps.len() implies lenb(m, b, (#[trigger] hp.ps[i]).0) == hp.ps[i].1 by {
        let (u, v) = hp.ps[i];
        assert(hp.ps.contains((u, v)));
        two_pieces(m, hp.ps, a.len() as int, o, s, u, v);
        if u != o {
            if q + k > m.hl() {
                let (x, y) = choose|x: int, y: int| is_piece(hp, x, y) && x + 8 <= q && q + k <= #[trigger] (x + y);
                two_pieces(m, hp.ps, a.len() as int, x, y, u, v);
            }
            assert(eq_on(a, b, u, m.nb()));
            size_frame(m, a, b, u);
        }
    }
}
pub proof fn not_on(m: PieceMgr, img: Seq<u8>, hp: Hp, c: int, i: int, d: int, j: int)
    requires m.ok(), heap(m, img, hp), 0 <= c < m.n(), 0 <= i < hp.fl[c].len(), 0 <= d < m.n(), 0 <= j < hp.fl[d].len(), c != d || i != j,
    ensures hp.fl[c][i] != hp.fl[d][j],
{
    assert(flist(m, img, hp.ps, hp.fl[c], c));
    assert(flist(m, img, hp.ps, hp.fl[d], d));
    assert(fitem(m, img, hp.ps, hp.fl[c], c, i));
    assert(fitem(m, img, hp.ps, hp.fl[d], d, j));
    if hp.fl[c][i] == hp.fl[d][j] {
        cls_at(m, le4(img, hp.fl[c][i]), c);
        cls_at(m, le4(img, hp.fl[c][i]), d);
    }
}
/// an item of a list is a piece
pub proof fn item_at(m: PieceMgr, img: Seq<u8>, hp: Hp, c: int, i: int)
    requires m.ok(), heap(m, img, hp), 0 <= c < m.n(), 0 <= i < hp.fl[c].len(),
    ensures ({ let o = hp.fl[c][i]; let s = le4(img, o);
        &&& is_piece(hp, o, s) && is_free(hp, o) && m.is_cls(s, c) && m.cls(s) == c && lenb(m, img, o) == s
        &&& m.hl() <= o && o + s <= img.len() && 16 <= s <= 0xffff_ff00 && m.vsz(s) && (m.n() == 8 ==> s <= 0xffff)
        &&& le4(img, o + 4) == 0 && le8(img, o + 8) == nx(hp.fl[c], i + 1) }),
{
    assert(flist(m, img, hp.ps, hp.fl[c], c));
    assert(fitem(m, img, hp.ps, hp.fl[c], c, i));
    let o = hp.fl[c][i];
    cls_at(m, le4(img, o), c);
    piece_size(m, img, hp, o, le4(img, o));
    le_bound(at(img, o, 4));
}
proof fn push_live(m: PieceMgr, hp: Hp, o: int, s: int)
    requires m.ok(), hp.fl.len() == m.n(), 0 <= m.cls(s) < m.n(),
    ensures is_free(pushed(m, hp, o, s), o), forall|u: int, v: int| u != o ==> (#[trigger] live(pushed(m, hp, o, s), u, v) <==> live(hp, u, v)),
{
    hide(PieceMgr::ok); hide(PieceMgr::vsz);
    let c = m.cls(s);
    let h2 = pushed(m, hp, o, s);
    assert(h2.fl[c][0] == o);
    assert forall|u: int, v: int| u != o implies (#[trigger] live(h2, u, v) <==> live(hp, u, v)) by {
        if is_free(h2, u) {
            let (d, i) = choose|d: int, i: int| 0 <= d < h2.fl.len() && 0 <= i < h2.fl[d].len() && #[trigger] h2.fl[d][i] == u;
            if d != c { assert(hp.fl[d][i] == u); } else { assert(hp.fl[d][i - 1] == u); }
        }
        if is_free(hp, u) {
            let (d, i) = choose|d: int, i: int| 0 <= d < hp.fl.len() && 0 <= i < hp.fl[d].len() && #[trigger] hp.fl[d][i] == u;
            if d != c { assert(h2.fl[d][i] == u); } else { assert(h2.fl[d][i + 1] == u); }
        }
    }
}
proof fn push_list(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, o: int, s: int, d: int)
    requires m.ok(), heap(m, a, hp), live(hp, o, s), same_but(a, b, o, s, m.fo(m.cls(s)), 8), 0 <= d < m.n(),
        lenb(m, b, o) == s, le4(b, o) == s, le4(b, o + 4) == 0, le8(b, o + 8) == nx(hp.fl[m.cls(s)], 0), le8(b, m.fo(m.cls(s))) == o,
    ensures flist(m, b, hp.ps, pushed(m, hp, o, s).fl[d], d),
{
    hide(PieceMgr::vsz); hide(tiled); hide(le); hide(PieceMgr::ok);
    let c = m.cls(s);
    let len = a.len() as int;
    assert(tiled(m, hp.ps, len));
    piece_size(m, a, hp, o, s);
    cls_in(m, s);
    fo_in(m, c);
    fo_in(m, d);
    let l = hp.fl[d];
    assert(flist(m, a, hp.ps, l, d));
    assert forall|i: int| 0 <= i < l.len() implies eq_on(a, b, #[trigger] l[i], 16) && l[i] != o by {
        assert(fitem(m, a, hp.ps, l, d, i));
        assert(hp.fl[d][i] != o);
        two_pieces(m, hp.ps, len, o, s, l[i], le4(a, l[i]));
    }
    if d != c {
        assert(if d < c { m.fo(d) + 8 <= m.fo(c) } else { m.fo(c) + 8 <= m.fo(d) }) by { reveal(PieceMgr::ok); }
        flist_frame(m, a, b, hp.ps, l, d);
    } else {
        let l2 = seq![o] + l;
        assert forall|i: int| 0 <= i < l2.len() implies #[trigger] fitem(m, b, hp.ps, l2, d, i) by {
            if i > 0 {
                assert(fitem(m, a, hp.ps, l, d, i - 1));
                let u = l[i - 1];
                assert(l2[i] == u);
                piece_at(m, hp.ps, len, u, le4(a, u));
                assert(eq_on(a, b, u, 16));
                assert(at(a, u, 4) =~= at(b, u, 4));
                assert(at(a, u + 4, 4) =~= at(b, u + 4, 4));
                assert(at(a, u + 8, 8) =~= at(b, u + 8, 8));
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < l2.len() implies #[trigger] l2[i] != #[trigger] l2[j] by {
            if i > 0 { assert(l[i - 1] != l[j - 1]); } else { assert(l2[j] == l[j - 1]); }
        }
    }
}
pub proof fn heap_push(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, o: int, s: int)
    requires m.ok(), heap(m, a, hp), live(hp, o, s), same_but(a, b, o, s, m.fo(m.cls(s)), 8),
        lenb(m, b, o) == s, le4(b, o) == s, le4(b, o + 4) == 0, le8(b, o + 8) == nx(hp.fl[m.cls(s)], 0), le8(b, m.fo(m.cls(s))) == o,
    ensures heap(m, b, pushed(m, hp, o, s)), is_free(pushed(m, hp, o, s), o),
        forall|u: int, v: int| u != o ==> (#[trigger] live(pushed(m, hp, o, s), u, v) <==> live(hp, u, v)),
{
    hide(PieceMgr::vsz); hide(tiled); hide(le); hide(flist);
    let c = m.cls(s);
    let h2 = pushed(m, hp, o, s);
    piece_size(m, a, hp, o, s);
    cls_in(m, s);
    fo_in(m, c);
    sizes_keep(m, a, b, hp, o, s, m.fo(c), 8);
    assert forall|d: int| 0 <= d < m.n() implies flist(m, b, hp.ps, #[trigger] h2.fl[d], d) by { push_list(m, a, b, hp, o, s, d); }
    push_live(m, hp, o, s);
}
/// where the link to item i of the list of class c is
pub open spec fn link(m: PieceMgr, hp: Hp, c: int, i: int) -> int { if i == 0 { m.fo(c) } else { hp.fl[c][i - 1] + 8 } }
/// what popping does to the bytes
pub open spec fn pop_bytes(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, c: int, i: int) -> bool {
    &&& m.ok() && heap(m, a, hp) && 0 <= c < m.n() && 0 <= i < hp.fl[c].len()
    &&& same_but(a, b, hp.fl[c][i], le4(a, hp.fl[c][i]), link(m, hp, c, i), 8)
    &&& lenb(m, b, hp.fl[c][i]) == le4(a, hp.fl[c][i]) && le8(b, link(m, hp, c, i)) == nx(hp.fl[c], i + 1)
}
proof fn pop_item(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, c: int, i: int, d: int, j: int)
    requires pop_bytes(m, a, b, hp, c, i), 0 <= d < m.n(), 0 <= j < hp.fl[d].len(), !(d == c && j == i),
    ensures le4(a, hp.fl[d][j]) == le4(b, hp.fl[d][j]), le4(b, hp.fl[d][j] + 4) == 0,
        le8(b, hp.fl[d][j] + 8) == nx(hp.fl[d], if d == c && j == i - 1 { j + 2 } else { j + 1 }),
{
    hide(heap); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(tiled); hide(le);
    let o = hp.fl[c][i];
    let s = le4(a, o);
    let len = a.len() as int;
    let u = hp.fl[d][j];
    item_at(m, a, hp, c, i);
    item_at(m, a, hp, d, j);
    not_on(m, a, hp, d, j, c, i);
    assert(tiled(m, hp.ps, len)) by { reveal(heap); }
    two_pieces(m, hp.ps, len, o, s, u, le4(a, u));
    fo_in(m, c);
    if i > 0 {
        item_at(m, a, hp, c, i - 1);
        not_on(m, a, hp, c, i, c, i - 1);
        let w = hp.fl[c][i - 1];
        two_pieces(m, hp.ps, len, o, s, w, le4(a, w));
        two_pieces(m, hp.ps, len, w, le4(a, w), u, le4(a, u));
        if !(d == c && j == i - 1) { not_on(m, a, hp, d, j, c, i - 1); }
    }
    assert(at(a, u, 4) =~= at(b, u, 4));
    assert(at(a, u + 4, 4) =~= at(b, u + 4, 4));
    if !(d == c && j == i - 1) { assert(at(a, u + 8, 8) =~= at(b, u + 8, 8)); }
}
proof fn pop_list(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, c: int, i: int, d: int)
    requires pop_bytes(m, a, b, hp, c, i), 0 <= d < m.n(),
    ensures flist(m, b, hp.ps, popped(hp, c, i).fl[d], d),
{
    hide(heap);
    hide(flist);
    hide(tiled);
    let k = hp.fl[d];
    let k2 = popped(hp, c, i).fl[d];
    let len = a.len() as int;
    assert(flist(m, a, hp.ps, k, d) && hp.fl.len() == m.n()) by { reveal(heap); }
    assert(d == c ==> k2 == k.remove(i));
    assert(d != c ==> k2 == k);
    assert(le8(b, m.fo(d)) == nx(k2, 0)) by {
        assert(le8(a, m.fo(d)) == nx(k, 0)) by { reveal(flist); }
        assert(m.fo(d) + 8 <= m.hl() && m.fo(c) + 8 <= m.hl());
        if d < c { assert(m.fo(d) + 8 <= m.fo(c)); }
        if c < d { assert(m.fo(c) + 8 <= m.fo(d)); }
        item_at(m, a, hp, c, i);
        if i > 0 { item_at(m, a, hp, c, i - 1); }
        if d != c || i > 0 { assert(at(a, m.fo(d), 8) =~= at(b, m.fo(d), 8)); }
    }
    assert forall|j: int| 0 <= j < k2.len() implies #[trigger] fitem(m, b, hp.ps, k2, d, j) by {
        let jj = if d == c && j >= i { j + 1 } else { j };
        assert(k2[j] == k[jj]);
        pop_item(m, a, b, hp, c, i, d, jj);
        item_at(m, a, hp, d, jj);
    }
    assert forall|x: int, y: int| 0 <= x < y < k2.len() implies #[trigger] k2[x] != #[trigger] k2[y] by {
        let xx = if d == c && x >= i { x + 1 } else { x };
        let yy = if d == c && y >= i { y + 1 } else { y };
        assert(k2[x] == k[xx] && k2[y] == k[yy]);
        not_on(m, a, hp, d, xx, d, yy);
    }
    reveal(flist);
}
proof fn pop_live(m: PieceMgr, a: Seq<u8>, hp: Hp, c: int, i: int)
    requires m.ok(), heap(m, a, hp), 0 <= c < m.n(), 0 <= i < hp.fl[c].len(),
    ensures live(popped(hp, c, i), hp.fl[c][i], le4(a, hp.fl[c][i])),
        forall|u: int, v: int| u != hp.fl[c][i] ==> (#[trigger] live(popped(hp, c, i), u, v) <==> live(hp, u, v)),
{
    hide(heap);
    let h2 = popped(hp, c, i);
    let o = hp.fl[c][i];
    let s = le4(a, o);
    assert(hp.fl.len() == m.n()) by { reveal(heap); }
    item_at(m, a, hp, c, i);
    if is_free(h2, o) {
        let (d, j) = choose|d: int, j: int| 0 <= d < h2.fl.len() && 0 <= j < h2.fl[d].len() && #[trigger] h2.fl[d][j] == o;
        let jj = if d == c && j >= i { j + 1 } else { j };
        assert(hp.fl[d][jj] == o);
        not_on(m, a, hp, d, jj, c, i);
    }
    assert forall|u: int, v: int| u != o implies (#[trigger] live(h2, u, v) <==> live(hp, u, v)) by {
        if is_free(h2, u) {
            let (d, j) = choose|d: int, j: int| 0 <= d < h2.fl.len() && 0 <= j < h2.fl[d].len() && #[trigger] h2.fl[d][j] == u;
            let jj = if d == c && j >= i { j + 1 } else { j };
            assert(hp.fl[d][jj] == u);
        }
        if is_free(hp, u) {
            let (d, j) = choose|d: int, j: int| 0 <= d < hp.fl.len() && 0 <= j < hp.fl[d].len() && #[trigger] hp.fl[d][j] == u;
            let jj = if d == c && j > i { j - 1 } else { j };
            assert(h2.fl[d][jj] == u);
        }
    }
}
pub proof fn heap_pop(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, c: int, i: int)
    requires pop_bytes(m, a, b, hp, c, i),
    ensures heap(m, b, popped(hp, c, i)), live(popped(hp, c, i), hp.fl[c][i], le4(a, hp.fl[c][i])),
        forall|u: int, v: int| u != hp.fl[c][i] ==> (#[trigger] live(popped(hp, c, i), u, v) <==> live(hp, u, v)),
{
    hide(heap);
    let h2 = popped(hp, c, i);
    let o = hp.fl[c][i];
    let s = le4(a, o);
    let q = link(m, hp, c, i);
    let l = hp.fl[c];
    assert(hp.fl.len() == m.n() && tiled(m, hp.ps, a.len() as int)) by { reveal(heap); }
    assert(forall|k: int| 0 <= k < hp.ps.len() ==> lenb(m, b, (#[trigger] hp.ps[k]).0) == hp.ps[k].1) by {
        item_at(m, a, hp, c, i);
        if i > 0 {
            item_at(m, a, hp, c, i - 1);
            let u = l[i - 1];
            let v = le4(a, u);
            assert(is_piece(hp, u, v) && u + 8 <= q && q + 8 <= u + v);
        } else {
            assert(m.fo(c) + 8 <= m.hl());
        }
        sizes_keep(m, a, b, hp, o, s, q, 8);
    }
    assert forall|d: int| 0 <= d < m.n() implies flist(m, b, hp.ps, #[trigger] h2.fl[d], d) by { pop_list(m, a, b, hp, c, i, d); }
    assert(heap(m, b, h2)) by { reveal(heap); }
    item_at(m, a, hp, c, i);
    pop_live(m, a, hp, c, i);
}
/// a piece in use may get any content that starts with its size
pub proof fn heap_write(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, o: int, s: int)
    requires m.ok(), heap(m, a, hp), live(hp, o, s), same_but(a, b, o, s, 0, 0), lenb(m, b, o) == s,
    ensures heap(m, b, hp),
{
    let len = a.len() as int;
    piece_size(m, a, hp, o, s);
    sizes_keep(m, a, b, hp, o, s, 0, 0);
    assert forall|d: int| 0 <= d < m.n() implies flist(m, b, hp.ps, #[trigger] hp.fl[d], d) by {
        let l = hp.fl[d];
        assert(flist(m, a, hp.ps, l, d));
        assert forall|i: int| 0 <= i < l.len() implies eq_on(a, b, #[trigger] l[i], 16) by {
            assert(fitem(m, a, hp.ps, l, d, i));
            assert(hp.fl[d][i] != o);
            two_pieces(m, hp.ps, len, o, s, l[i], le4(a, l[i]));
        }
        assert(m.fo(d) + 8 <= m.hl());
        flist_frame(m, a, b, hp.ps, l, d);
    }
}
/// only the first 24 bytes and the pieces in use have other bytes
pub open spec fn outside_live(a: Seq<u8>, b: Seq<u8>, hp: Hp) -> bool {
    a.len() == b.len() && forall|j: int| 24 <= j < a.len() && (forall|o: int, s: int| #[trigger] live(hp, o, s) ==> !(o <= j < o + s)) ==> #[trigger] a[j] == b[j]
}
pub proof fn heap_rewrite(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp)
    requires m.ok(), heap(m, a, hp), outside_live(a, b, hp), forall|o: int, s: int| #[trigger] live(hp, o, s) ==> lenb(m, b, o) == s,
    ensures heap(m, b, hp),
{
    hide(PieceMgr::ok); hide(PieceMgr::vsz);
    let len = a.len() as int;
    assert forall|j: int| 24 <= j < m.hl() implies a[j] == b[j] by {
        assert forall|o: int, s: int| #[trigger] live(hp, o, s) implies !(o <= j < o + s) by { piece_at(m, hp.ps, len, o, s); }
    }
    assert forall|d: int| 0 <= d < m.n() implies flist(m, b, hp.ps, #[trigger] hp.fl[d], d) by {
        let l = hp.fl[d];
        assert(flist(m, a, hp.ps, l, d));
        assert forall|i: int| 0 <= i < l.len() implies eq_on(a, b, #[trigger] l[i], 16) by {
            free_kept(m, a, b, hp, d, i);
        }
        fo_in(m, d);
        flist_frame(m, a, b, hp.ps, l, d);
    }
    assert forall|i: int| 0 <= i < hp.ps.len() implies lenb(m, b, (#[trigger] hp.ps[i]).0) == hp.ps[i].1 by {
        let (o, s) = hp.ps[i];
        assert(hp.ps.contains((o, s)));
        if is_free(hp, o) {
            let (c, k) = choose|c: int, k: int| 0 <= c < hp.fl.len() && 0 <= k < hp.fl[c].len() && #[trigger] hp.fl[c][k] == o;
            free_kept(m, a, b, hp, c, k);
            assert(m.nb() <= 4);
            size_frame(m, a, b, o);
        } else { assert(live(hp, o, s)); }
    }
}
proof fn free_kept(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, d: int, i: int)
    requires m.ok(), heap(m, a, hp), outside_live(a, b, hp), 0 <= d < m.n(), 0 <= i < hp.fl[d].len(),
    ensures eq_on(a, b, hp.fl[d][i], 16), hp.fl[d][i] + 16 <= a.len(), hp.fl[d][i] >= 0,
{
    let len = a.len() as int;
    let o = hp.fl[d][i];
    item_at(m, a, hp, d, i);
    let s = le4(a, o);
    piece_at(m, hp.ps, len, o, s);
    assert forall|j: int| o <= j < o + 16 implies #[trigger] a[j] == b[j] by {
        assert forall|p: int, n: int| #[trigger] live(hp, p, n) implies !(p <= j < p + n) by {
            assert(hp.fl[d][i] == o);
            two_pieces(m, hp.ps, len, p, n, o, s);
        }
    }
}
proof fn end_al(m: PieceMgr, ps: Seq<(int, int)>, len: int)
    requires m.ok(), tiled(m, ps, len),
    ensures len % m.al() == 0, m.hl() <= len,
{
    hide(PieceMgr::ok);
    hide(PieceMgr::vsz);
    hide(tiled);
    assert(m.hl() <= len && (ps.len() == 0 ==> len == m.hl()) && (ps.len() > 0 ==> pend(ps, ps.len() - 1) == len)) by { reveal(tiled); }
    if ps.len() > 0 {
        let x = ps[ps.len() - 1];
        assert(ps.contains(x));
        piece_at(m, ps, len, x.0, x.1);
        assert(x.0 + x.1 == len);
        if m.n() == 16 { assert(len % 8 == 0); } else { assert(len % 16 == 0); }
    }
}
proof fn grow_tiled(m: PieceMgr, ps: Seq<(int, int)>, len: int, s: int)
    requires m.ok(), m.vsz(s), tiled(m, ps, len),
    ensures tiled(m, ps.push((len, s)), len + s), !ps.contains((len, s)), len % m.al() == 0,
{
    hide(PieceMgr::ok);
    hide(PieceMgr::vsz);
    hide(PieceMgr::al);
    let p2 = ps.push((len, s));
    cls_in(m, s);
    end_al(m, ps, len);
    assert forall|i: int| 0 <= i < p2.len() implies m.vsz((#[trigger] p2[i]).1) && p2[i].0 >= m.hl() && pend(p2, i) <= len + s && p2[i].0 % m.al() == 0 by {
        if i < ps.len() { assert(pend(ps, i) <= len && m.vsz(ps[i].1)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < p2.len() implies #[trigger] pend(p2, i) <= (#[trigger] p2[j]).0 by {
        assert(pend(p2, i) == pend(ps, i));
        if j < ps.len() { assert(p2[j] == ps[j]); }
    }
    assert forall|i: int| 0 <= i && i + 1 < p2.len() implies #[trigger] pend(p2, i) == p2[i + 1].0 by {
        assert(pend(p2, i) == pend(ps, i));
        if i + 1 < ps.len() { assert(p2[i + 1] == ps[i + 1]); }
    }
    if ps.contains((len, s)) { piece_at(m, ps, len, len, s); }
}
/// a new piece at the end
pub proof fn heap_grow(m: PieceMgr, a: Seq<u8>, b: Seq<u8>, hp: Hp, s: int)
    requires m.ok(), heap(m, a, hp), m.vsz(s), b.len() == a.len() + s, eq_on(a, b, 0, a.len() as int), lenb(m, b, a.len() as int) == s,
    ensures heap(m, b, grown(hp, a.len() as int, s)), live(grown(hp, a.len() as int, s), a.len() as int, s),
        (a.len() as int) % m.al() == 0, forall|v: int| !#[trigger] is_piece(hp, a.len() as int, v),
        forall|u: int, v: int| u != a.len() ==> (#[trigger] live(grown(hp, a.len() as int, s), u, v) <==> live(hp, u, v)),
{
    hide(heap);
    hide(tiled);
    let len = a.len() as int;
    let h2 = grown(hp, len, s);
    assert(hp.fl.len() == m.n() && tiled(m, hp.ps, a.len() as int)) by { reveal(heap); }
    grow_tiled(m, hp.ps, len, s);
    assert forall|i: int| 0 <= i < h2.ps.len() implies lenb(m, b, (#[trigger] h2.ps[i]).0) == h2.ps[i].1 by {
        if i < hp.ps.len() {
            let x = hp.ps[i];
            assert(hp.ps.contains(x));
            assert(lenb(m, a, x.0) == x.1) by { reveal(heap); }
            piece_size(m, a, hp, x.0, x.1);
            size_frame(m, a, b, x.0);
        }
    }
    assert forall|d: int| 0 <= d < m.n() implies flist(m, b, h2.ps, #[trigger] h2.fl[d], d) by {
        let l = hp.fl[d];
        assert(flist(m, a, hp.ps, l, d)) by { reveal(heap); }
        assert forall|i: int| 0 <= i < l.len() implies eq_on(a, b, #[trigger] l[i], 16) by { item_at(m, a, hp, d, i); }
        assert(m.fo(d) + 8 <= m.hl());
        assert(m.hl() <= len) by { reveal(tiled); }
        flist_frame(m, a, b, hp.ps, l, d);
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] fitem(m, b, h2.ps, l, d, i) by {
            assert(fitem(m, b, hp.ps, l, d, i));
            let e = (l[i], le4(b, l[i]));
            let k = choose|k: int| 0 <= k < hp.ps.len() && hp.ps[k] == e;
            assert(h2.ps[k] == e);
        }
    }
    assert(heap(m, b, h2)) by { reveal(heap); }
    assert(h2.ps[hp.ps.len() as int] == (len, s));
    if is_free(h2, len) {
        let (d, j) = choose|d: int, j: int| 0 <= d < h2.fl.len() && 0 <= j < h2.fl[d].len() && #[trigger] h2.fl[d][j] == len;
        item_at(m, a, hp, d, j);
    }
    assert forall|v: int| !#[trigger] is_piece(hp, len, v) by {
        if is_piece(hp, len, v) { piece_at(m, hp.ps, len, len, v); }
    }
    assert forall|u: int, v: int| u != len implies (#[trigger] live(h2, u, v) <==> live(hp, u, v)) by {
        if is_piece(hp, u, v) {
            let k = choose|k: int| 0 <= k < hp.ps.len() && hp.ps[k] == (u, v);
            assert(h2.ps[k] == (u, v));
        }
        if is_piece(h2, u, v) {
            let k = choose|k: int| 0 <= k < h2.ps.len() && h2.ps[k] == (u, v);
            assert(hp.ps[k] == (u, v));
        }
        assert(is_free(hp, u) == is_free(h2, u));
    }
}
impl VarFile {
    pub open spec fn is_heap(&self, h: Hp) -> bool { self.piece_mgr.ok() && heap(self.piece_mgr, self.img(), h) }
    pub open spec fn hok(&self) -> bool { exists|h: Hp| self.is_heap(h) }
    pub open spec fn hv(&self) -> Hp { choose|h: Hp| self.is_heap(h) }
}
pub proof fn hv_is(f: VarFile, h: Hp)
    requires f.is_heap(h),
    ensures f.hok(), f.hv() == h,
{
    assert(f.is_heap(f.hv()));
    heap_uni(f.piece_mgr, f.img(), f.hv(), h);
}
pub proof fn hv_ok(f: VarFile)
    requires f.hok(),
    ensures f.is_heap(f.hv()), f.piece_mgr.ok(), heap(f.piece_mgr, f.img(), f.hv()), f.hv().fl.len() == f.piece_mgr.n(), f.piece_mgr.hl() <= f.len(),
{}
proof fn enc42(s: nat)
    requires s < 0x1_0000,
    ensures enc(4, s).subrange(0, 2) =~= enc(2, s),
{ reveal_with_fuel(enc, 5); assert(s / 256 / 256 == 0); }
/// the size of a record that starts with it
pub proof fn size_at(m: PieceMgr, img: Seq<u8>, o: int, s: int)
    requires m.ok(), 0 <= o, o + 4 <= img.len(), at(img, o, 4) == enc(4, s as nat), 0 <= s <= 0xffff_ffff, m.n() == 8 ==> s <= 0xffff,
    ensures lenb(m, img, o) == s, le4(img, o) == s,
{
    p256_vals();
    le_enc(4, s as nat);
    if m.n() == 8 {
        enc42(s as nat);
        le_enc(2, s as nat);
        assert(at(img, o, 2) =~= at(img, o, 4).subrange(0, 2));
    }
}
/// the bytes of a free piece
pub open spec fn free_enc(s: u32, next: u64) -> Seq<u8> { enc(4, s as nat) + enc(4, 0) + enc(8, next as nat) + zeros(s - 16) }
proof fn free_at(m: PieceMgr, a: Seq<u8>, o: int, s: u32, next: u64)
    requires m.ok(), 0 <= o, s >= 16, o + s <= a.len(), m.n() == 8 ==> s <= 0xffff,
    ensures ({ let b = put_at(a, o, free_enc(s, next)); b.len() == a.len() && le4(b, o) == s && lenb(m, b, o) == s && le4(b, o + 4) == 0 && le8(b, o + 8) == next
        && forall|j: int| 0 <= j < a.len() && !(o <= j < o + s) ==> #[trigger] a[j] == b[j] }),
{
    p256_vals();
    le_enc(4, s as nat);
    le_enc(4, 0);
    le_enc(8, next as nat);
    let e = free_enc(s, next);
    let b = put_at(a, o, e);
    assert(e.len() == s);
    assert(at(b, o, 4) =~= enc(4, s as nat)) by { assert forall|j: int| 0 <= j < 4 implies b[o + j] == e[j] by {} }
    assert(at(b, o + 4, 4) =~= enc(4, 0));
    assert(at(b, o + 8, 8) =~= enc(8, next as nat));
    size_at(m, b, o, s as int);
}
proof fn link_at(a: Seq<u8>, q: int, v: u64)
    requires 0 <= q, q + 8 <= a.len(),
    ensures ({ let b = put_at(a, q, enc(8, v as nat)); b.len() == a.len() && le8(b, q) == v && forall|j: int| 0 <= j < a.len() && !(q <= j < q + 8) ==> #[trigger] a[j] == b[j] }),
{
    p256_vals();
    le_enc(8, v as nat);
    assert(at(put_at(a, q, enc(8, v as nat)), q, 8) =~= enc(8, v as nat));
}
proof fn clear_at(m: PieceMgr, a: Seq<u8>, o: int, s: u32)
    requires m.ok(), 0 <= o, s >= 16, o + s <= a.len(), m.n() == 8 ==> s <= 0xffff,
    ensures ({ let b = put_at(a, o, cleared(4, s)); b.len() == a.len() && le4(b, o) == s && lenb(m, b, o) == s
        && forall|j: int| 0 <= j < a.len() && !(o <= j < o + s) ==> #[trigger] a[j] == b[j] }),
{
    enc_len(4, s as nat);
    let b = put_at(a, o, cleared(4, s));
    assert(at(b, o, 4) =~= enc(4, s as nat));
    size_at(m, b, o, s as int);
}
pub proof fn same_heap(a: VarFile, b: VarFile)
    requires b.img() == a.img(), b.piece_mgr == a.piece_mgr, a.hok(),
    ensures b.hok(), b.hv() == a.hv(),
{ assert(b.is_heap(a.hv())); hv_is(b, a.hv()); }
pub proof fn list_len(m: PieceMgr, img: Seq<u8>, hp: Hp, c: int)
    requires m.ok(), heap(m, img, hp), 0 <= c < m.n(),
    ensures hp.fl[c].len() <= img.len(),
{
    let l = hp.fl[c];
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by { not_on(m, img, hp, c, i, c, j); }
    assert(l.no_duplicates());
    l.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, img.len() as int);
    vstd::set_lib::lemma_int_range(0, img.len() as int);
    assert forall|x: int| #[trigger] l.to_set().contains(x) implies r.contains(x) by {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
        item_at(m, img, hp, c, i);
    }
    vstd::set_lib::lemma_len_subset(l.to_set(), r);
}

pub proof fn fo_in(m: PieceMgr, c: int)
    requires m.ok(), 0 <= c < m.n(),
    ensures 24 <= m.fo(c), m.fo(c) + 8 <= m.hl(),
{}
pub proof fn last_two(m: PieceMgr)
    requires m.ok(),
    ensures m.sz(m.n() - 2) < m.sz(m.n() - 1), m.n() >= 8,
{}
/// items of a list are different pieces
pub proof fn items_apart(m: PieceMgr, img: Seq<u8>, hp: Hp, c: int, i: int, j: int)
    requires m.ok(), heap(m, img, hp), 0 <= c < m.n(), 0 <= i < hp.fl[c].len(), 0 <= j < hp.fl[c].len(), i != j,
    ensures hp.fl[c][i] + le4(img, hp.fl[c][i]) <= hp.fl[c][j] || hp.fl[c][j] + le4(img, hp.fl[c][j]) <= hp.fl[c][i],
{
    item_at(m, img, hp, c, i);
    item_at(m, img, hp, c, j);
    not_on(m, img, hp, c, i, c, j);
    two_pieces(m, hp.ps, img.len() as int, hp.fl[c][i], le4(img, hp.fl[c][i]), hp.fl[c][j], le4(img, hp.fl[c][j]));
}
