// ---------------------------------------------------------------- piece.rs
proof fn pop_done(o: VarFile, f: VarFile, size: int, r: int, i: int)
    requires o.hok(), o.piece_mgr == f.piece_mgr, o.piece_mgr.vsz(size), 0 <= i < o.list(size).len(), o.list(size)[i] == r, size <= le4(o.img(), r),
        pop_bytes(o.piece_mgr, o.img(), f.img(), o.hv(), o.piece_mgr.cls(size), i), le4(f.img(), r) == le4(o.img(), r),
    ensures VarFile::pop_post(o, f, size, r),
{
    hide(heap);
    let c = o.piece_mgr.cls(size);
    hv_ok(o);
    cls_in(o.piece_mgr, size);
    item_at(o.piece_mgr, o.img(), o.hv(), c, i);
    heap_pop(o.piece_mgr, o.img(), f.img(), o.hv(), c, i);
    hv_is(f, popped(o.hv(), c, i));
    reveal(VarFile::pop_post);
}
proof fn pop_same(o: VarFile, o2: VarFile, f: VarFile, size: int, r: int)
    requires o2.same(o), o.hok(), VarFile::pop_post(o2, f, size, r),
    ensures VarFile::pop_post(o, f, size, r),
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(VarFile::is_heap); hide(VarFile::hok); hide(VarFile::hv); hide(le); hide(live);
    same_heap(o, o2);
    reveal(VarFile::pop_post);
    assert(o.list(size) == o2.list(size));
}
proof fn pop_none(o: VarFile, f: VarFile, size: int)
    requires f.same(o), size < o.piece_mgr.sz(o.piece_mgr.n() - 1) ==> o.list(size).len() == 0, forall|i: int| 0 <= i < o.list(size).len() ==> le4(o.img(), #[trigger] o.list(size)[i]) < size,
    ensures VarFile::pop_post(o, f, size, 0),
{ reveal(VarFile::pop_post); }
//@ file src/filedb/inner/piece.rs
/// where x is among ascending numbers, or where it goes
pub open spec fn found_u32(s: Seq<u32>, x: u32, r: core::result::Result<usize, usize>) -> bool {
    match r {
        Ok(i) => i < s.len() && s[i as int] == x,
        Err(i) => i <= s.len() && (forall|j: int| 0 <= j < i ==> #[trigger] s[j] < x) && (forall|j: int| i <= j < s.len() ==> #[trigger] s[j] > x),
    }
}
pub trait BSearchTo { 
    spec fn items(&self) -> Seq<u32>;
    /// <[u32]>::binary_search of the first n items
    fn bsearch_to(&self, n: usize, x: &u32) -> (r: core::result::Result<usize, usize>)
        requires n <= self.items().len(), forall|i: int, j: int| 0 <= i < j < n ==> self.items()[i] <= self.items()[j],
        ensures found_u32(self.items().subrange(0, n as int), *x, r);
}
impl BSearchTo for [u32] {
    open spec fn items(&self) -> Seq<u32> { self@ }
    #[verifier::external_body]
    fn bsearch_to(&self, n: usize, x: &u32) -> (r: core::result::Result<usize, usize>) { unimplemented!() }
}
impl PieceMgr {
//@ fn PieceMgr::new
    ensures ret.free_list_offset == free_list_offset, ret.size_ary == size_ary,
//@ end
//@ fn PieceMgr::free_piece_list_offset_of_header
//@ attr #[verifier::loop_isolation(false)]
    requires self.ok(), self.vsz(piece_size.val as int),
    ensures ret == self.fo(self.cls(piece_size.val as int)), // C06 C07
//@ start
    let ghost s = piece_size.val as int;
    proof { cls_in(*self, s); last_two(*self); }
//@ loop 0
    invariant self.ok(), self.vsz(s), s == piece_size, forall|c: int| 0 <= c < i ==> #[trigger] self.sz(c) != s,
//@ before return 0
    proof { assert(self.sz(i as int) == s); cls_at(*self, s, i as int); }
//@ tail
    proof {
        let k = self.cls(s);
        assert(self.is_cls(s, k));
        assert(k == self.n() - 1);
        last_two(*self);
    }
//@ end
//@ fn PieceMgr::is_large_piece_size
    requires self.ok(),
    ensures ret == (piece_size.val >= self.sz(self.n() - 1)),
//@ end
//@ fn PieceMgr::roundup
//@ attr #[verifier::loop_isolation(false)]
    requires self.ok(), 0 < piece_size.val <= 0xffff_fe00, piece_size.val <= self.sz(self.n() - 2) || self.sz(self.n() - 1) <= self.sz(self.n() - 2) + 128 && self.sz(self.n() - 1) % 128 == 0 && self.n() == 16,
    ensures self.vsz(ret.val as int), // C06
        piece_size.val <= ret.val, // C06 C08
        ret.val == self.rup(piece_size.val as int), // C06 C08
//@ start
    let ghost s = piece_size.val as int;
//@ loop 0
    invariant self.ok(), s == piece_size, forall|c: int| 0 <= c < i_ ==> #[trigger] self.sz(c) < s,
//@ before return 0
    proof { assert(self.sz(i_ as int) == n_sz); rup_at(*self, s, i_ as int); }
//@ tail
    proof {
        assert(self.sz(self.n() - 2) < s);
        assert(((s + 128) / 128) * 128 % 8 == 0 && ((s + 128) / 128) * 128 > s && ((s + 128) / 128) * 128 <= s + 128) by(nonlinear_arith);
        assert(((s + 128) / 128) * 128 >= self.sz(self.n() - 1)) by(nonlinear_arith) requires s > self.sz(self.n() - 1) - 128, self.sz(self.n() - 1) % 128 == 0;
    }
//@ end
//@ fn PieceMgr::can_down
    requires self.ok(), piece_size.val > 0, need_size.val <= self.sz(self.n() - 2),
    ensures ret == (self.rup(need_size.val as int) < piece_size.val), // C06 C07
//@ start
    let ghost s = need_size.val as int;
    let ghost a = self.size_ary@.subrange(0, self.n() - 1);
    proof {
        last_two(*self);
        assert forall|i: int, j: int| 0 <= i < j < self.n() - 1 implies self.size_ary@[i] <= self.size_ary@[j] by { assert(self.sz(i) < self.sz(j)); }
    }
//@ before return 0
    proof {
        assert(a[k as int] == s && self.sz(k as int) == s);
        assert(self.fits(s, k as int)) by { assert forall|d: int| 0 <= d < k implies #[trigger] self.sz(d) < s by { assert(self.sz(d) < self.sz(k as int)); } }
        rup_at(*self, s, k as int);
    }
//@ before return 1
    proof {
        assert(a[k as int] == self.size_ary@[k as int]);
        assert(self.fits(s, k as int)) by { assert forall|d: int| 0 <= d < k implies #[trigger] self.sz(d) < s by { assert(a[d] == self.size_ary@[d]); } }
        rup_at(*self, s, k as int);
    }
//@ tail
    assert(a[self.n() - 2] == self.size_ary@[self.n() - 2]);
//@ end
}
impl Size {
//@ fn PieceSizeHelper for PieceSize::is_large_piece_size as is_large_piece_size
    requires pi_mgr.ok(),
    ensures ret == (self.val >= pi_mgr.sz(pi_mgr.n() - 1)),
//@ end
}
impl VarFile {
    #[verifier::opaque]
    pub open spec fn pop_post(o: VarFile, f: VarFile, size: int, r: int) -> bool {
        let c = o.piece_mgr.cls(size);
        let l = o.list(size);
        if r == 0 {
            // nothing that fits
            &&& f.same(o)
            &&& size < o.piece_mgr.sz(o.piece_mgr.n() - 1) ==> l.len() == 0
            &&& forall|i: int| 0 <= i < l.len() ==> le4(o.img(), #[trigger] l[i]) < size
        } else {
            &&& live(f.hv(), r, le4(o.img(), r)) && !live(o.hv(), r, le4(o.img(), r)) && lenb(f.piece_mgr, f.img(), r) == le4(o.img(), r) && le4(f.img(), r) == le4(o.img(), r)
            &&& size <= le4(o.img(), r)
            &&& exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == r && f.is_heap(popped(o.hv(), c, i)) && f.hok() && f.hv() == popped(o.hv(), c, i)
                && same_but(o.img(), f.img(), r, le4(o.img(), r), link(o.piece_mgr, o.hv(), c, i), 8)
            &&& forall|u: int, v: int| u != r ==> (#[trigger] live(f.hv(), u, v) <==> live(o.hv(), u, v))
        }
    }
    /// the free list for this size
    pub open spec fn list(&self, s: int) -> Seq<int> { self.hv().fl[self.piece_mgr.cls(s)] }
//@ fn VarFile::read_free_piece_offset_on_header
    requires old(self).hok(), old(self).piece_mgr.vsz(piece_size.val as int),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == nx(old(self).list(piece_size.val as int), 0), // C06 C07
//@ start
    let ghost c = self.piece_mgr.cls(piece_size.val as int);
    proof {
        hv_ok(*self);
        cls_in(self.piece_mgr, piece_size.val as int);
        assert(flist(self.piece_mgr, self.img(), self.hv().ps, self.hv().fl[c], c));
        assert(self.piece_mgr.fo(c) + 8 <= self.piece_mgr.hl());
        le_bound(at(self.img(), self.piece_mgr.fo(c), 8));
        p256_vals();
    }
//@ end
//@ fn VarFile::write_free_piece_offset_on_header
    requires old(self).piece_mgr.ok(), old(self).piece_mgr.hl() <= old(self).len(), old(self).piece_mgr.vsz(piece_size.val as int),
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> final(self).img() == put_at(old(self).img(), old(self).piece_mgr.fo(old(self).piece_mgr.cls(piece_size.val as int)), enc(8, offset.val as nat)), // C06 C07
//@ start
    let ghost c = self.piece_mgr.cls(piece_size.val as int);
    proof {
        cls_in(self.piece_mgr, piece_size.val as int);
        assert(self.piece_mgr.fo(c) + 8 <= self.piece_mgr.hl());
    }
//@ end
//@ fn VarFile::read_free_piece_size_next
    requires old(self).hok(), exists|c: int, i: int| 0 <= c < old(self).hv().fl.len() && 0 <= i < old(self).hv().fl[c].len() && #[trigger] old(self).hv().fl[c][i] == curr_free_piece.val,
    ensures final(self).same(*old(self)),
        ret is Ok ==> ret->Ok_0.0.val == le4(old(self).img(), curr_free_piece.val as int),
        ret is Ok ==> forall|c: int, i: int| 0 <= c < old(self).hv().fl.len() && 0 <= i < old(self).hv().fl[c].len() && #[trigger] old(self).hv().fl[c][i] == curr_free_piece.val
            ==> ret->Ok_0.1.val == nx(old(self).hv().fl[c], i + 1), // C06 C07
//@ start
    proof {
        hv_ok(*self);
        let o = curr_free_piece.val as int;
        assert forall|c: int, i: int| 0 <= c < self.hv().fl.len() && 0 <= i < self.hv().fl[c].len() && #[trigger] self.hv().fl[c][i] == o implies
            le8(self.img(), o + 8) == nx(self.hv().fl[c], i + 1) && o + 16 <= self.len() && le4(self.img(), o + 4) == 0 by { item_at(self.piece_mgr, self.img(), self.hv(), c, i); }
        le_bound(at(self.img(), o, 4));
        le_bound(at(self.img(), o + 4, 4));
        le_bound(at(self.img(), o + 8, 8));
        p256_vals();
    }
    broadcast use bf_len;
//@ end
//@ fn VarFile::push_free_piece_list
    requires old(self).hok(), old_piece_offset.val != 0 ==> live(old(self).hv(), old_piece_offset.val as int, old_piece_size.val as int), // C06
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok && old_piece_offset.val == 0 ==> final(self).same(*old(self)),
        ret is Ok && old_piece_offset.val != 0 ==> {
            let (o, s) = (old_piece_offset.val as int, old_piece_size.val as int);
            &&& final(self).is_heap(pushed(old(self).piece_mgr, old(self).hv(), o, s)) // C06 C07
            &&& final(self).hok() && final(self).hv() == pushed(old(self).piece_mgr, old(self).hv(), o, s) // C06 C07
            &&& final(self).b() == old(self).b().remove(old_piece_offset.val) // C06 C08
            &&& same_but(old(self).img(), final(self).img(), o, s, old(self).piece_mgr.fo(old(self).piece_mgr.cls(s)), 8) // C06 C08
        },
//@ start
    broadcast use bf_len;
    let ghost m = self.piece_mgr;
    let ghost i0 = self.img();
    let ghost hp = self.hv();
    let ghost (o, s) = (old_piece_offset.val as int, old_piece_size.val as int);
    let ghost c = m.cls(s);
    proof {
        hv_ok(*self);
        if o != 0 {
            piece_size(m, i0, hp, o, s);
            cls_in(m, s);
            fo_in(m, c);
        }
        enc_len(4, s as nat);
        enc_len(4, 0);
    }
//@ after read_free_piece_offset_on_header 0
    let ghost f1 = free_1st.val;
    proof { enc_len(8, f1 as nat); }
//@ after write_key_len 0
    proof { put2(i0, o, enc(4, s as nat), enc(4, 0)); }
//@ after write_free_piece_offset 0
    proof { put2(i0, o, enc(4, s as nat) + enc(4, 0), enc(8, f1 as nat)); }
//@ after write_zero_to_offset 0
    proof {
        put2(i0, o, enc(4, s as nat) + enc(4, 0) + enc(8, f1 as nat), zeros(s - 16));
        assert(self.img() == put_at(i0, o, free_enc(old_piece_size.val, f1)));
        free_at(m, i0, o, old_piece_size.val, f1);
    }
//@ after write_free_piece_offset_on_header 0
    proof {
        let i1 = put_at(i0, o, free_enc(old_piece_size.val, f1));
        link_at(i1, m.fo(c), old_piece_offset.val);
        let i2 = self.img();
        assert(eq_on(i1, i2, o, 16));
        assert(at(i1, o, 4) =~= at(i2, o, 4));
        assert(at(i1, o + 4, 4) =~= at(i2, o + 4, 4));
        assert(at(i1, o + 8, 8) =~= at(i2, o + 8, 8));
        size_frame(m, i1, i2, o);
        heap_push(m, i0, i2, hp, o, s);
        hv_is(*self, pushed(m, hp, o, s));
        b_pushed(*old(self), *self, old_piece_offset.val, s);
    }
//@ end
//@ fn VarFile::pop_free_piece_list
    requires old(self).hok(), old(self).piece_mgr.vsz(new_piece_size.val as int),
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> Self::pop_post(*old(self), *final(self), new_piece_size.val as int, ret->Ok_0.val as int), // C06 C07 C08
//@ start
    hide(heap); hide(tiled); hide(flist); hide(put_at); hide(le); hide(enc); hide(PieceMgr::ok); hide(PieceMgr::vsz);
    broadcast use bf_len;
    let ghost m = self.piece_mgr;
    let ghost mut f1 = *self;
    let ghost i0 = self.img();
    let ghost hp = self.hv();
    let ghost s = new_piece_size.val as int;
    let ghost c = m.cls(s);
    proof {
        hv_ok(*self);
        cls_in(m, s);
        if hp.fl[c].len() > 0 {
            item_at(m, i0, hp, c, 0);
            if s < m.sz(m.n() - 1) {
                // only the last class has pieces of several sizes
                if c == m.n() - 1 { assert(m.sz(c) == s); }
            }
        }
    }
//@ after read_free_piece_offset_on_header 0
    proof {
        same_heap(*old(self), *self);
        f1 = *self;
        if hp.fl[c].len() > 0 { assert(self.hv().fl[c][0] == free_1st.val); } else { pop_none(*old(self), *self, s); }
    }
//@ after write_piece_clear 0
    proof { clear_at(m, i0, free_1st.val as int, piece_size.val); }
//@ after pop_free_piece_list_large 0
    proof { if tail_ is Ok { pop_same(*old(self), f1, *self, s, tail_->Ok_0.val as int); } }
//@ after write_free_piece_offset_on_header 0
    proof {
        let o = free_1st.val as int;
        let i1 = put_at(i0, o, cleared(4, le4(i0, o) as u32));
        clear_at(m, i0, o, le4(i0, o) as u32);
        fo_in(m, c);
        link_at(i1, m.fo(c), free_next.val);
        assert(eq_on(i1, self.img(), o, 4));
        size_frame(m, i1, self.img(), o);
        assert(at(i1, o, 4) =~= at(self.img(), o, 4));
        assert(hp.fl[c][0] == o);
        pop_done(*old(self), *self, s, o, 0);
    }
//@ end
//@ fn VarFile::pop_free_piece_list_large
    requires old(self).hok(), old(self).piece_mgr.vsz(new_piece_size.val as int), new_piece_size.val >= old(self).piece_mgr.sz(old(self).piece_mgr.n() - 1),
        free_1st.val == nx(old(self).list(new_piece_size.val as int), 0),
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> Self::pop_post(*old(self), *final(self), new_piece_size.val as int, ret->Ok_0.val as int), // C06 C07 C08
//@ start
    hide(heap); hide(tiled); hide(flist); hide(put_at); hide(le); hide(enc); hide(PieceMgr::ok); hide(PieceMgr::vsz);
    broadcast use bf_len;
    let ghost m = self.piece_mgr;
    let ghost f0 = *self;
    let ghost i0 = self.img();
    let ghost hp = self.hv();
    let ghost s = new_piece_size.val as int;
    let ghost c = m.cls(s);
    let ghost l = hp.fl[c];
    let ghost mut i = 0int;
    proof {
        hv_ok(*self);
        cls_in(m, s);
        p256_vals();
    }
//@ loop 0
    invariant
        *old(self) == f0, self.same(f0), self.img() == i0, self.piece_mgr == m, m.ok(), heap(m, i0, hp), f0.hok(), hp == f0.hv(), l == hp.fl[c], 0 <= c < m.n(), c == m.cls(s), m.vsz(s), s == new_piece_size.val,
        f0.piece_mgr == m, f0.img() == i0,
        0 <= i <= l.len(), free_curr.val == nx(l, i), free_prev.val == (if i == 0 { 0 } else { l[i - 1] }),
        forall|k: int| 0 <= k < i ==> le4(i0, #[trigger] l[k]) < s,
        s >= m.sz(m.n() - 1), p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000,
    decreases l.len() - i,
//@ loopstart 0
    broadcast use bf_len;
    let ghost o = free_curr.val as int;
    proof {
        assert(i < l.len() && l[i] == o);
        item_at(m, i0, hp, c, i);
        le_bound(at(i0, o, 4));
        le_bound(at(i0, o + 4, 4));
        le_bound(at(i0, o + 8, 8));
        if i > 0 {
            item_at(m, i0, hp, c, i - 1);
            items_apart(m, i0, hp, c, i, i - 1);
        }
        fo_in(m, c);
        link_at(i0, link(m, hp, c, i), nx(l, i + 1) as u64);
        assert(at(put_at(i0, link(m, hp, c, i), enc(8, nx(l, i + 1) as nat)), o, 4) =~= at(i0, o, 4));
    }
//@ after write_piece_clear 0
    proof {
        let q = link(m, hp, c, i);
        let i1 = put_at(i0, q, enc(8, nx(l, i + 1) as nat));
        assert(piece_size.val == le4(i0, o) && free_next.val == nx(l, i + 1));
        clear_at(m, i1, o, piece_size.val);
        assert(self.img() == put_at(i1, o, cleared(4, piece_size.val)));
        assert(at(i1, q, 8) =~= at(self.img(), q, 8));
        pop_done(f0, *self, s, o, i);
    }
//@ loopend 0
    proof { i = i + 1; }
//@ tail
    proof { if i < l.len() { item_at(m, i0, hp, c, i); } pop_none(f0, *self, s); }
//@ end
//@ fn VarFile::count_of_free_piece_list
//@ attr #[verifier::loop_isolation(false)]
    requires old(self).hok(), old(self).piece_mgr.vsz(new_piece_size.val as int),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0 == old(self).list(new_piece_size.val as int).len(), // C15
//@ start
    hide(heap); hide(tiled); hide(flist); hide(put_at); hide(le); hide(enc); hide(PieceMgr::ok); hide(PieceMgr::vsz);
    broadcast use bf_len;
    let ghost f0 = *self;
    let ghost m = self.piece_mgr;
    let ghost s = new_piece_size.val as int;
    let ghost c = m.cls(s);
    let ghost l = self.hv().fl[c];
    proof {
        hv_ok(*self);
        cls_in(m, s);
        list_len(m, self.img(), self.hv(), c);
        if l.len() > 0 { item_at(m, self.img(), self.hv(), c, 0); }
    }
//@ loop 0
    invariant self.same(f0), f0.hok(), m == f0.piece_mgr, m.ok(), 0 <= c < m.n(), f0.hv().fl.len() == m.n(), l == f0.hv().fl[c], heap(m, f0.img(), f0.hv()), l.len() <= MAXF, 0 <= count <= l.len(), free_next_offset.val == nx(l, count as int),
    decreases l.len() - count,
//@ loopstart 0
    proof {
        same_heap(f0, *self);
        assert(self.hv().fl[c][count as int] == free_next_offset.val);
        if count as int + 1 < l.len() { item_at(m, f0.img(), f0.hv(), c, count as int + 1); }
    }
//@ tail
    proof { if (count as int) < l.len() { item_at(m, f0.img(), f0.hv(), c, count as int); } }
//@ end
}
