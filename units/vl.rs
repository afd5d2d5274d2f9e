//@ include head.rs
verus! {
//@ resultmap on
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ proofs off
//@ include eqon.rs
//@ include hp_model.rs
//@ include piece.rs
//@ include bodies.rs
//@ stubs off
//@ proofs on
//@ rename to_vec vto_vec
pub trait VToVec {
    spec fn vb(&self) -> Seq<u8>;
    fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vb();
}
impl VToVec for [u8] {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VToVec for MaybeSlice {
    open spec fn vb(&self) -> Seq<u8> { ms_v(self) }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub struct PhantomData;
pub type HeaderSignature = [u8; 8];
//@ file src/filedb/inner/val.rs
//@ const DAT_HEADER_SIGNATURE
//@ const REC_SIZE_FREE_OFFSET_1ST
//@ const REC_SIZE_FREE_OFFSET
//@ const REC_SIZE_ARY
pub struct VarFileValueCache(pub VarFile, pub PhantomData);
pub struct ValueFile(pub VarFileValueCache);
pub struct ValuePiece { pub offset: ValuePieceOffset, pub size: ValuePieceSize, pub value: Vec<u8> }
/// derived in the source
#[verifier::external_body]
pub fn vdefault() -> (r: ValuePiece)
    ensures r.offset.val == 0, r.size.val == 0, r.value@.len() == 0,
{ unimplemented!() }
pub type VMap = IMap<ValuePieceOffset, Seq<u8>>;
/// the bytes of a value record: its size, the length of the value, the value, zeros
pub open spec fn venc(size: int, value: Seq<u8>) -> Seq<u8> { enc(4, size as nat) + enc(4, value.len()) + value + zeros(size - 8 - value.len()) }
pub open spec fn vlen(b: Seq<u8>) -> int { le(at(b, 4, 4)) as int }
pub open spec fn vrec(b: Seq<u8>) -> Seq<u8> { at(b, 8, vlen(b)) }
pub open spec fn vvalid(b: Seq<u8>) -> bool { 8 + vlen(b) <= b.len() }
pub open spec fn vmgr(m: PieceMgr) -> bool { m.size_ary@ == REC_SIZE_ARY@ && m.free_list_offset@ == REC_SIZE_FREE_OFFSET@ }
/// the longest value
pub spec const MAXVAL: nat = 0xf000_0000;
proof fn vmgr_ok(m: PieceMgr)
    requires vmgr(m),
    ensures m.ok(), m.n() == 16, m.sz(14) == 896, m.sz(15) == 1024, m.hl() == 192, m.nb() == 4,
{
    let a = REC_SIZE_ARY@;
    assert(m.sz(0) == 16 && m.sz(1) == 24 && m.sz(2) == 32 && m.sz(3) == 48 && m.sz(4) == 64 && m.sz(5) == 80 && m.sz(6) == 96 && m.sz(7) == 112 && m.sz(8) == 128 && m.sz(9) == 256
        && m.sz(10) == 384 && m.sz(11) == 512 && m.sz(12) == 640 && m.sz(13) == 768 && m.sz(14) == 896 && m.sz(15) == 1024); // C06 C07 C08
    assert(forall|c: int| 0 <= c < 16 ==> #[trigger] m.fo(c) == 32 + 8 * c); // C06 C07 C08
}
impl VarFileValueCache {
    pub open spec fn ok(&self) -> bool {
        vmgr(self.0.piece_mgr) && self.0.hok() && forall|o: u64| #[trigger] self.0.b().dom().contains(o) ==> vvalid(self.0.b()[o])
    }
    pub open spec fn v(&self) -> VMap { vmap(self.0.b()) }
}
proof fn vrec_venc(size: int, value: Seq<u8>)
    requires 8 + value.len() <= size <= 0xffff_ffff,
    ensures ({ let e = venc(size, value);
        e.len() == size && vlen(e) == value.len() && vrec(e) == value && le(at(e, 0, 4)) == size }),
{
    p256_vals();
    le_enc(4, size as nat);
    le_enc(4, value.len());
    let e = venc(size, value);
    assert(at(e, 0, 4) =~= enc(4, size as nat));
    assert(at(e, 4, 4) =~= enc(4, value.len()));
    assert(at(e, 8, value.len() as int) =~= value);
}
/// the fields of a stored record, in the file
proof fn vrec_at(f: VarFileValueCache, o: u64)
    requires f.ok(), f.0.b().dom().contains(o),
    ensures ({ let b = f.0.b()[o]; let i = f.0.img(); let p = o as int;
        &&& u32_at(i, p) == b.len() && u32_at(i, p + 4) == vlen(b) && at(i, p + 8, vlen(b)) == vrec(b)
        &&& p >= 192 && p + b.len() <= f.0.len() && 8 + vlen(b) <= b.len() && vlen(b) <= u32::MAX && b.len() <= 0xffff_ff00 && f.0.piece_mgr.vsz(b.len() as int)
        &&& live(f.0.hv(), p, b.len() as int)
    }),
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(vmgr); hide(live);
    let i = f.0.img();
    let b = f.0.b()[o];
    let p = o as int;
    body_at(f.0, o);
    vmgr_ok(f.0.piece_mgr);
    p256_vals();
    le_bound(at(b, 4, 4));
    assert(at(i, p + 4, 4) =~= at(b, 4, 4));
    assert(at(i, p + 8, vlen(b)) =~= at(b, 8, vlen(b)));
}
/// what roundup returns is a declared size
proof fn body_vsz(m: PieceMgr, s: int)
    requires vmgr(m), 0 < s <= 0xffff_fe00,
    ensures m.vsz(m.rup(s)), m.rup(s) >= s,
{
    vmgr_ok(m);
    if s <= m.sz(14) {
        fits_one(m, s, 14);
        let c = choose|c: int| m.fits(s, c);
        assert(m.sz(c) == m.rup(s));
    } else {
        assert(((s + 128) / 128) * 128 % 8 == 0 && ((s + 128) / 128) * 128 > s && ((s + 128) / 128) * 128 <= s + 128) by(nonlinear_arith);
        assert(((s + 128) / 128) * 128 >= 1024) by(nonlinear_arith) requires s > 896;
    }
}
proof fn fits_one(m: PieceMgr, s: int, n: int)
    requires 0 <= n < m.n() - 1, s <= m.sz(n),
    ensures exists|c: int| m.fits(s, c),
    decreases n,
{
    if exists|d: int| 0 <= d < n && #[trigger] m.sz(d) >= s {
        let d = choose|d: int| 0 <= d < n && #[trigger] m.sz(d) >= s;
        fits_one(m, s, d);
    } else { assert(m.fits(s, n)); }
}
pub open spec fn vmap(b: IMap<u64, Seq<u8>>) -> VMap { IMap::new(|o: ValuePieceOffset| b.dom().contains(o.val), |o: ValuePieceOffset| vrec(b[o.val])) }
proof fn v_ins(m: PieceMgr, base: IMap<u64, Seq<u8>>, f: VarFileValueCache, o: u64, size: int, value: Seq<u8>)
    requires vmgr(m), f.0.piece_mgr == m, f.0.hok(), f.0.b() == base.insert(o, venc(size, value)), m.rup(8 + value.len() as int) <= size, 8 + value.len() <= size <= 0xffff_ffff,
        forall|x: u64| x != o && #[trigger] base.dom().contains(x) ==> vvalid(base[x]),
    ensures f.ok(), f.v() == vmap(base).insert(Offset { val: o }, value),
{
    vrec_venc(size, value);
    assert(f.v() =~= vmap(base).insert(Offset { val: o }, value));
}
/// the record at off is rewritten in place
proof fn done_in(a: VarFileValueCache, f: VarFileValueCache, p: VarFile, off: ValuePieceOffset, value: Seq<u8>)
    requires a.ok(), p.same(a.0), a.v().dom().contains(off), value.len() <= MAXVAL, f.0.piece_mgr == a.0.piece_mgr,
        a.0.piece_mgr.rup(8 + value.len() as int) <= a.0.b()[off.val].len(), f.0.img() == put_at(p.img(), off.val as int, venc(a.0.b()[off.val].len() as int, value)),
    ensures f.ok(), f.v() == a.v().remove(off).insert(off, value), f.0.len() == a.0.len(),
{
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(vvalid); hide(VarFile::is_heap); hide(heap); hide(tiled); hide(vmgr); hide(venc);
    let m = a.0.piece_mgr;
    vmgr_ok(m);
    body_vsz(m, 8 + value.len() as int);
    vrec_at(a, off.val);
    b_same(a.0, p);
    let s = a.0.b()[off.val].len() as int;
    vrec_venc(s, value);
    b_written(p, f.0, off.val, venc(s, value));
    v_ins(m, a.0.b(), f, off.val, s, value);
    assert(f.v() =~= a.v().remove(off).insert(off, value));
}
/// a free record is used
proof fn done_old(a: VarFileValueCache, f: VarFileValueCache, is_new: bool, off: u64, base: IMap<u64, Seq<u8>>, g: VarFile, r: u64, value: Seq<u8>, s: int)
    requires a.ok(), base == (if is_new { a.0.b() } else { a.0.b().remove(off) }), g.piece_mgr == a.0.piece_mgr, f.0.piece_mgr == a.0.piece_mgr, g.hok(), g.b().dom().contains(r), g.b().remove(r) == base, !base.dom().contains(r), value.len() <= MAXVAL, g.b()[r].len() == s,
        a.0.piece_mgr.rup(8 + value.len() as int) <= s, f.0.img() == put_at(g.img(), r as int, venc(s, value)), r != 0,
        g.len() == a.0.len(),
    ensures f.ok(), f.v() == vmap(base).insert(Offset { val: r }, value), f.0.len() == a.0.len(), !vmap(base).dom().contains(Offset { val: r }),
{
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(vvalid); hide(VarFile::is_heap); hide(heap); hide(tiled); hide(vmgr); hide(venc); hide(vrec);
    let m = a.0.piece_mgr;
    vmgr_ok(m);
    body_vsz(m, 8 + value.len() as int);
    body_at(g, r);
    vrec_venc(s, value);
    b_written(g, f.0, r, venc(s, value));
    assert(f.0.b() =~= base.insert(r, venc(s, value)));
    v_ins(m, base, f, r, s, value);
}
/// the record is new, at the end
proof fn done_end(a: VarFileValueCache, f: VarFileValueCache, is_new: bool, off: u64, base: IMap<u64, Seq<u8>>, g: VarFile, value: Seq<u8>)
    requires a.ok(), base == (if is_new { a.0.b() } else { a.0.b().remove(off) }), g.piece_mgr == a.0.piece_mgr, f.0.piece_mgr == a.0.piece_mgr, g.hok(), g.b() == base, value.len() <= MAXVAL,
        f.0.img() == put_at(g.img(), g.len(), venc(a.0.piece_mgr.rup(8 + value.len() as int), value)), g.len() == a.0.len(),
       
    ensures ({ let o = g.len() as u64;
        &&& f.ok() && !vmap(base).dom().contains(Offset { val: o }) && o >= 192 && o == g.len()
        &&& f.v() == vmap(base).insert(Offset { val: o }, value) && f.0.len() == a.0.len() + a.0.piece_mgr.rup(8 + value.len() as int)
    }),
{
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(vvalid); hide(VarFile::is_heap); hide(heap); hide(tiled); hide(vmgr); hide(venc); hide(vrec);
    broadcast use bf_len;
    let m = a.0.piece_mgr;
    vmgr_ok(m);
    body_vsz(m, 8 + value.len() as int);
    let s = m.rup(8 + value.len() as int);
    cls_in(m, s);
    vrec_venc(s, value);
    b_grown(g, f.0, venc(s, value));
    v_ins(m, base, f, g.len() as u64, s, value);
}
proof fn rec_len(a: VarFileValueCache, off: ValuePieceOffset)
    requires a.ok(), a.v().dom().contains(off),
    ensures a.0.b().dom().contains(off.val), a.v()[off].len() == vlen(a.0.b()[off.val]), 8 + a.v()[off].len() <= a.0.b()[off.val].len(),
{
    let b = a.0.b()[off.val];
    assert(vvalid(b));
}
proof fn vmgr_is(a: VarFileValueCache)
    requires a.ok(),
    ensures vmgr(a.0.piece_mgr), a.0.hok(),
{}
proof fn v_rem(a: VarFileValueCache, off: ValuePieceOffset)
    ensures vmap(a.0.b().remove(off.val)) == a.v().remove(off),
{ assert(vmap(a.0.b().remove(off.val)) =~= a.v().remove(off)); }
proof fn push_fit(a: VarFile, o: int, s: int, size: int)
    requires a.hok(), a.piece_mgr.vsz(size), a.piece_mgr.vsz(s),
    ensures no_fit(a.piece_mgr, pushed(a.piece_mgr, a.hv(), o, s), size) ==> no_fit(a.piece_mgr, a.hv(), size),
{
    hv_ok(a);
    if no_fit(a.piece_mgr, pushed(a.piece_mgr, a.hv(), o, s), size) { pushed_no_fit(a.piece_mgr, a.hv(), o, s, size); }
}
proof fn vs_same(a: VarFileValueCache, f: VarFileValueCache)
    requires a.ok(), f.0.same(a.0),
    ensures f.same(a),
{ b_same(a.0, f.0); }
/// for reading the record at o
proof fn reading(a: VarFileValueCache, o: ValuePieceOffset)
    requires a.ok(), a.v().dom().contains(o),
    ensures a.0.b().dom().contains(o.val), a.v()[o] == vrec(a.0.b()[o.val]),
        vrec(a.0.b()[o.val]).len() == vlen(a.0.b()[o.val]), o.val != 0, vmgr(a.0.piece_mgr),
{
    rec_len(a, o);
    vrec_at(a, o.val);
}
impl Size {
//@ fn ValuePieceSize::is_valid_value
//@ attr #[verifier::loop_isolation(false)]
    requires exists|m: PieceMgr| vmgr(m) && m.vsz(self.val as int),
    ensures ret, // C06
//@ start
    let ghost m = choose|m: PieceMgr| vmgr(m) && m.vsz(self.val as int);
    proof { vmgr_ok(m); cls_in(m, self.val as int); }
//@ loop 0
    invariant forall|c: int| 0 <= c < i_ ==> #[trigger] m.sz(c) != self.val,
//@ end
}
impl ValuePiece {
//@ fn ValuePiece::with
    ensures ret == (ValuePiece { offset, size, value }),
//@ end
//@ fn ValuePiece::with_value
    ensures ret.value@ == value@, ret.offset.val == 0,
//@ end
//@ fn ValuePiece::encoded_piece_size
    requires self.value@.len() <= MAXVAL,
    ensures ret.0 + ret.1 == 8 + self.value@.len(), // C06 C08
        ret.2.val == self.value@.len(),
//@ end
//@ fn ValuePiece::dat_write_piece_one
    requires 8 + self.value@.len() <= self.size.val, self.value@.len() <= MAXVAL, self.offset.val <= old(file).len(),
    ensures final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> final(file).img() == put_at(old(file).img(), self.offset.val as int, venc(self.size.val as int, self.value@)), // C08
//@ start
    broadcast use bf_len;
    let ghost i0 = file.img();
    let ghost p = self.offset.val as int;
    let ghost k = self.value@;
    let ghost s = self.size.val as int;
    proof { enc_len(4, s as nat); enc_len(4, k.len()); }
//@ after write_value_len 0
    proof { put2(i0, p, enc(4, s as nat), enc(4, k.len())); }
//@ after write_all 0
    proof { put2(i0, p, enc(4, s as nat) + enc(4, k.len()), k); }
//@ after write_zero_to_offset 0
    proof { put2(i0, p, enc(4, s as nat) + enc(4, k.len()) + k, zeros(s - 8 - k.len())); }
//@ end
}
impl VarFileValueCache {
//@ fn VarFileValueCache::delete_piece
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures ret is Ok ==> final(self).ok() && final(self).v() == old(self).v().remove(offset), // C06 C07 C08
        ret is Ok ==> final(self).0.len() == old(self).0.len(), // C07
//@ start
    broadcast use bf_len;
    let ghost b = self.0.b()[offset.val];
    proof { vrec_at(*self, offset.val); vmgr_ok(self.0.piece_mgr); }
//@ after read_piece_size 0
    proof { b_same(old(self).0, self.0); }
//@ tail
    proof { assert(self.v() =~= old(self).v().remove(offset)); }
//@ end
//@ fn VarFileValueCache::add_value_piece
    requires old(self).ok(), value@.len() <= MAXVAL,
    ensures ret is Ok ==> Self::wrote(*old(self), *final(self), old(self).v(), ret->Ok_0, value@), // C06 C07 C08
        ret is Ok ==> !old(self).v().dom().contains(ret->Ok_0.offset), // C06 C08
//@ end
    /// o is written, and the file is longer only if there was no room
    pub open spec fn wrote(a: VarFileValueCache, f: VarFileValueCache, base: VMap, o: ValuePiece, value: Seq<u8>) -> bool {
        let m = a.0.piece_mgr;
        &&& f.ok() && o.offset.val != 0
        &&& f.v() == base.insert(o.offset, value)
        &&& o.value@ == value
        &&& f.0.len() == a.0.len() || f.0.len() == a.0.len() + m.rup(8 + value.len() as int) && no_fit(m, a.0.hv(), m.rup(8 + value.len() as int))
    }
//@ fn VarFileValueCache::write_piece
    requires old(self).ok(), piece.value@.len() <= MAXVAL, is_new || old(self).v().dom().contains(piece.offset),
    ensures ret is Ok ==> ({
        let base = if is_new { old(self).v() } else { old(self).v().remove(piece.offset) };
        &&& Self::wrote(*old(self), *final(self), base, ret->Ok_0, piece.value@) // C06 C07 C08
        &&& !base.dom().contains(ret->Ok_0.offset) // C06 C08
    }),
//@ start
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(venc); hide(vvalid); hide(VarFile::is_heap); hide(no_fit); hide(heap); hide(tiled); hide(flist); hide(le); hide(enc); hide(vmgr); hide(live); hide(PieceMgr::rup); hide(vmap); hide(VarFileValueCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(vlen);
    broadcast use bf_len;
    let ghost a = *self;
    let ghost m = self.0.piece_mgr;
    let ghost off = piece.offset;
    let ghost value = piece.value@;
    let ghost need = 8 + value.len() as int;
    let ghost mut p = self.0;
    let ghost mut g = self.0;
    let ghost mut r = 0u64;
    proof {
        vmgr_is(*self);
        vmgr_ok(m);
        body_vsz(m, need);
        if !is_new { rec_len(*self, off); vrec_at(*self, off.val); }
    }
//@ after read_piece_size 0
    proof { b_same(a.0, self.0); p = self.0; }
//@ before return 0
    proof { done_in(a, *self, p, off, value); }
//@ after push_free_piece_list 0
    proof { p = self.0; push_fit(a.0, off.val as int, a.0.b()[off.val].len() as int, m.rup(need)); }
//@ after pop_free_piece_list 0
    proof {
        g = self.0;
        r = free_piece_offset.val;
        if r != 0 { b_popped(p, g, m.rup(need), r); body_at(g, r); } else { popped_none(p, g, m.rup(need)); }
    }
//@ after read_piece_size 1
    proof { b_same(g, self.0); }
//@ tail
    proof {
        if r != 0 { done_old(a, *self, is_new, off.val, p.b(), g, r, value, g.b()[r].len() as int); } else { done_end(a, *self, is_new, off.val, p.b(), g, value); }
        if !is_new { v_rem(a, off); }
    }
//@ end
//@ fn VarFileValueCache::read_piece
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).0.same(old(self).0),
        ret is Ok ==> ret->Ok_0.offset == offset && ret->Ok_0.value@ == old(self).v()[offset], // C08
        ret is Ok ==> ret->Ok_0.size.val == old(self).0.b()[offset.val].len(), // C15
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(vmgr); hide(live); hide(vvalid); hide(VarFileValueCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(vlen); hide(vmap); hide(VarFileValueCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); vrec_at(*self, offset.val); }
//@ end
//@ fn VarFileValueCache::read_piece_only_size
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> ret->Ok_0.val == old(self).0.b()[offset.val].len(), // C15
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(vmgr); hide(live); hide(vvalid); hide(VarFileValueCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(vlen); hide(vmap); hide(VarFileValueCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); vrec_at(*self, offset.val); }
//@ end
//@ fn VarFileValueCache::read_piece_only_value_length
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> ret->Ok_0.val == old(self).v()[offset].len(), // C15
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(vmgr); hide(live); hide(vvalid); hide(VarFileValueCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(vlen); hide(vmap); hide(VarFileValueCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); vrec_at(*self, offset.val); }
//@ end
//@ fn VarFileValueCache::read_piece_only_value
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> ret->Ok_0@ == old(self).v()[offset], // C08
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(vmgr); hide(live); hide(vvalid); hide(VarFileValueCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(vlen); hide(vmap); hide(VarFileValueCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); vrec_at(*self, offset.val); }
//@ end
    /// the content is as it was
    pub open spec fn same(&self, o: VarFileValueCache) -> bool { self.0.same(o.0) && self.ok() && self.v() == o.v() && self.0.hv() == o.0.hv() }
}
//@ fn write_valrecf_init_header
//@ attr #[verifier::loop_isolation(false)]
    requires old(file).len() == 0, vmgr(old(file).piece_mgr),
    ensures ret is Ok ==> ({ let f = VarFileValueCache(*final(file), PhantomData); f.ok() && f.v() == IMap::<ValuePieceOffset, Seq<u8>>::empty() }), // C05 C06 C07
//@ start
    proof { enc_len(8, 0); vmgr_ok(file.piece_mgr); enc_zero(8); }
    broadcast use bf_len;
//@ after write_all 0
    assert(file.img() =~= DAT_HEADER_SIGNATURE@);
//@ after write_all 1
    assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@);
//@ tail
    proof {
        assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@ + enc(8, 0) + enc(8, 0) + zeros(160));
        fresh_heap(*file);
        assert(vmap(file.b()) =~= IMap::<ValuePieceOffset, Seq<u8>>::empty());
    }
//@ end
proof fn enc_zero(n: nat)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] enc(n, 0)[i] == 0, enc(n, 0).len() == n,
    decreases n,
{ if n > 0 { enc_zero((n - 1) as nat); } }
/// a file that is opened again has the records it had
proof fn reopen(a: VarFileValueCache, f: VarFileValueCache)
    requires a.ok(), f.0.img() == a.0.img(), f.0.piece_mgr == a.0.piece_mgr,
    ensures f.ok(), f.v() == a.v(), // C05
{ b_same(a.0, f.0); }
proof fn img_keep(a: VarFileValueCache)
    requires a.ok(),
    ensures forall|f: VarFileValueCache| #[trigger] f.0.img() == a.0.img() && f.0.piece_mgr == a.0.piece_mgr ==> f.ok() && f.v() == a.v(),
{
    assert forall|f: VarFileValueCache| #[trigger] f.0.img() == a.0.img() && f.0.piece_mgr == a.0.piece_mgr implies f.ok() && f.v() == a.v() by { reopen(a, f); }
}
//@ arrays sz_ary
//@ mutself read_fill_buffer flush sync_all sync_data read_piece_only_size read_piece_only_value_length read_piece_only_value read_piece write_piece delete_piece add_value_piece count_of_free_value_piece
impl ValueFile {
    pub open spec fn ok(&self) -> bool { self.0.ok() }
    pub open spec fn v(&self) -> VMap { self.0.v() }
    /// reading does not change it
    pub open spec fn same(&self, o: ValueFile) -> bool { self.0.same(o.0) }
//@ fn ValueFile::read_fill_buffer
    requires old(self).ok(),
    ensures final(self).same(*old(self)), // C16
//@ after read_fill_buffer 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn ValueFile::flush
    requires old(self).ok(),
    ensures final(self).ok(), final(self).v() == old(self).v(), ret is Ok ==> final(self).0.0.disk() == old(self).0.0.img(), // C04 C16
//@ start
    proof { img_keep(self.0); }
//@ end
//@ fn ValueFile::sync_all
    requires old(self).ok(),
    ensures final(self).ok(), final(self).v() == old(self).v(), ret is Ok ==> final(self).0.0.disk() == old(self).0.0.img() && bf_synced(&final(self).0.0.buf_file), // C04 C16
//@ start
    proof { img_keep(self.0); }
//@ end
//@ fn ValueFile::sync_data
    requires old(self).ok(),
    ensures final(self).ok(), final(self).v() == old(self).v(), ret is Ok ==> final(self).0.0.disk() == old(self).0.0.img() && bf_synced(&final(self).0.0.buf_file), // C04 C16
//@ start
    proof { img_keep(self.0); }
//@ end
//@ fn ValueFile::read_piece_only_size
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == old(self).0.0.b()[offset.val].len(), // C15
//@ after read_piece_only_size 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn ValueFile::read_piece_only_value_length
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == old(self).v()[offset].len(), // C15
//@ after read_piece_only_value_length 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn ValueFile::read_piece_only_value
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0@ == old(self).v()[offset], // C08
//@ after read_piece_only_value 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn ValueFile::read_piece
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures final(self).same(*old(self)),
        ret is Ok ==> ret->Ok_0.offset == offset && ret->Ok_0.value@ == old(self).v()[offset], // C08
        ret is Ok ==> ret->Ok_0.size.val == old(self).0.0.b()[offset.val].len(), // C15
//@ after read_piece 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn ValueFile::write_piece
    requires old(self).ok(), old(self).v().dom().contains(piece.offset), piece.value@.len() <= MAXVAL,
    ensures ret is Ok ==> ({
        let o = ret->Ok_0.offset;
        &&& final(self).ok() && o.val != 0 && (o == piece.offset || !old(self).v().dom().contains(o))
        &&& final(self).v() == old(self).v().remove(piece.offset).insert(o, piece.value@) // C06 C07 C08
    }),
//@ end
//@ fn ValueFile::delete_piece
    requires old(self).ok(), old(self).v().dom().contains(offset),
    ensures ret is Ok ==> final(self).ok() && final(self).v() == old(self).v().remove(offset), // C06 C07 C08
//@ end
//@ fn ValueFile::add_value_piece
    requires old(self).ok(), value@.len() <= MAXVAL,
    ensures ret is Ok ==> ({
        let o = ret->Ok_0.offset;
        &&& final(self).ok() && o.val != 0 && !old(self).v().dom().contains(o)
        &&& final(self).v() == old(self).v().insert(o, value@) // C06 C07 C08
    }),
//@ end
//@ fn ValueFile::count_of_free_value_piece
//@ attr #[verifier::loop_isolation(false)]
    requires old(self).ok(),
    ensures final(self).0.0.same(old(self).0.0), ret is Ok ==> frees(ret->Ok_0, old(self).0.0, 16), // C15
//@ start
    proof { vmgr_is(self.0); vmgr_ok(self.0.0.piece_mgr); }
//@ loop 0
    invariant locked.0.same(old(self).0.0), frees(vec, old(self).0.0, i_ as int),
//@ loopstart 0
    proof {
        let m = locked.0.piece_mgr;
        b_same(old(self).0.0, locked.0);
        let z = sz_ary@[i_ as int] as int;
        assert(m.sz(i_ as int) == z);
        assert(m.vsz(z));
        cls_at(m, z, i_ as int);
    }
//@ end
}
// ---------------------------------------------------------------- opening (the bytes at hand are those of the file: unit hdr)
/// a new file is an empty heap
pub proof fn new_file(f: VarFileValueCache)
    requires vmgr(f.0.piece_mgr), f.0.img().len() == 192, forall|j: int| 16 <= j < 192 ==> #[trigger] f.0.img()[j] == 0,
    ensures f.ok(), forall|o: ValuePieceOffset| !(#[trigger] f.v().dom().contains(o)), // C05 C06 C07
{
    let m = f.0.piece_mgr;
    let i = f.0.img();
    vmgr_ok(m);
    let h = Hp { ps: Seq::empty(), fl: Seq::new(16, |c: int| Seq::<int>::empty()) };
    assert forall|c: int| 0 <= c < 16 implies flist(m, i, h.ps, #[trigger] h.fl[c], c) by {
        let p = m.fo(c);
        assert(at(i, p, 8) =~= zeros(8));
        assert(at(i, p, 8) =~= enc(8, 0)) by { reveal_with_fuel(enc, 9); }
        p256_vals();
        le_enc(8, 0);
    }
    assert(heap(m, i, h));
    hv_is(f.0, h);
}
/// a file opened again holds the same
pub proof fn reopened(a: VarFileValueCache, b: VarFileValueCache)
    requires a.ok(), vmgr(b.0.piece_mgr), b.0.img() == a.0.img(),
    ensures b.ok(), b.v() == a.v(), b.0.hv() == a.0.hv(), // C05
{
    hide(heap); hide(PieceMgr::ok); hide(bodies); hide(vmgr);
    assert(b.0.piece_mgr.size_ary@ =~= a.0.piece_mgr.size_ary@ && b.0.piece_mgr.free_list_offset@ =~= a.0.piece_mgr.free_list_offset@) by { reveal(vmgr); }
    assert(a.0.piece_mgr.size_ary =~= b.0.piece_mgr.size_ary && a.0.piece_mgr.free_list_offset =~= b.0.piece_mgr.free_list_offset);
    assert(a.0.piece_mgr == b.0.piece_mgr);
    hv_ok(a.0);
    hv_is(b.0, a.0.hv());
    assert(b.0.b() == a.0.b());
    assert(b.0.hok());
}
}
fn main() {}
