//@ include head.rs
verus! {
//@ resultmap on
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ proofs off
//@ include eqon.rs
//@ include hp_model.rs
//@ include piece.rs
//@ include bodies.rs
//@ stubs off
//@ proofs on
// ---------------------------------------------------------------- keys, by contract (unit kt)
#[verifier::external_body]
pub struct KT { _p: Vec<u8> }
pub uninterp spec fn kt_v(k: &KT) -> Seq<u8>;
pub uninterp spec fn khash(a: Seq<u8>) -> u64;
impl KT {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == kt_v(self), { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: &MaybeSlice) -> (r: KT) ensures kt_v(&r) == ms_v(b), { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: KT) ensures kt_v(&r) == kt_v(self), { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_value(&self) -> (r: u64) ensures r == khash(kt_v(self)), { unimplemented!() }
}
pub struct PhantomData;
pub type HeaderSignature = [u8; 8];
//@ file src/filedb/inner/key.rs
//@ const DAT_HEADER_SIGNATURE
//@ const REC_SIZE_FREE_OFFSET_1ST
//@ const REC_SIZE_FREE_OFFSET
//@ const REC_SIZE_ARY
pub struct VarFileKeyCache(pub VarFile, pub PhantomData);
pub struct KeyFile(pub VarFileKeyCache);
pub struct KeyPiece { pub offset: KeyPieceOffset, pub size: KeyPieceSize, pub key: KT, pub value_offset: ValuePieceOffset }
/// derived in the source
#[verifier::external_body]
pub fn vdefault() -> (r: KeyPiece)
    ensures r.offset.val == 0, r.size.val == 0, r.value_offset.val == 0,
{ unimplemented!() }
pub ghost struct KeyRec { pub key: Seq<u8>, pub voff: ValuePieceOffset }
pub type KMap = IMap<KeyPieceOffset, KeyRec>;
/// the bytes of a key record: its size, the length of the key, the key, the offset of the value, zeros
pub open spec fn kenc(size: int, key: Seq<u8>, voff: u64) -> Seq<u8> {
    enc(4, size as nat) + enc(4, key.len()) + key + enc(8, voff as nat) + zeros(size - 16 - key.len())
}
pub open spec fn klen(b: Seq<u8>) -> int { le(at(b, 4, 4)) as int }
pub open spec fn kvoff(b: Seq<u8>) -> u64 { le(at(b, 8 + klen(b), 8)) as u64 }
pub open spec fn krec(b: Seq<u8>) -> KeyRec { KeyRec { key: at(b, 8, klen(b)), voff: Offset { val: kvoff(b) } } }
pub open spec fn kvalid(m: PieceMgr, b: Seq<u8>) -> bool { 16 + klen(b) <= b.len() && m.rup(16 + klen(b)) <= b.len() }
pub open spec fn kmgr(m: PieceMgr) -> bool { m.size_ary@ == REC_SIZE_ARY@ && m.free_list_offset@ == REC_SIZE_FREE_OFFSET@ }
/// the longest key
pub spec const MAXKEY: nat = 0xf000_0000;
proof fn kmgr_ok(m: PieceMgr)
    requires kmgr(m),
    ensures m.ok(), m.n() == 16, m.sz(14) == 896, m.sz(15) == 1024, m.hl() == 192, m.nb() == 4,
{
    let a = REC_SIZE_ARY@;
    assert(m.sz(0) == 16 && m.sz(1) == 24 && m.sz(2) == 32 && m.sz(3) == 48 && m.sz(4) == 64 && m.sz(5) == 80 && m.sz(6) == 96 && m.sz(7) == 112 && m.sz(8) == 128 && m.sz(9) == 256
        && m.sz(10) == 384 && m.sz(11) == 512 && m.sz(12) == 640 && m.sz(13) == 768 && m.sz(14) == 896 && m.sz(15) == 1024); // C06 C07 C08
    assert(forall|c: int| 0 <= c < 16 ==> #[trigger] m.fo(c) == 32 + 8 * c); // C06 C07 C08
}
impl VarFileKeyCache {
    pub open spec fn ok(&self) -> bool {
        kmgr(self.0.piece_mgr) && self.0.hok() && forall|o: u64| #[trigger] self.0.b().dom().contains(o) ==> kvalid(self.0.piece_mgr, self.0.b()[o])
    }
    pub open spec fn k(&self) -> KMap { kmap(self.0.b()) }
}
proof fn krec_kenc(size: int, key: Seq<u8>, voff: u64)
    requires 16 + key.len() <= size <= 0xffff_ffff,
    ensures ({ let e = kenc(size, key, voff);
        e.len() == size && klen(e) == key.len() && krec(e).key == key && krec(e).voff.val == voff && le(at(e, 0, 4)) == size }),
{
    p256_vals();
    le_enc(4, size as nat);
    le_enc(4, key.len());
    le_enc(8, voff as nat);
    let e = kenc(size, key, voff);
    assert(at(e, 0, 4) =~= enc(4, size as nat));
    assert(at(e, 4, 4) =~= enc(4, key.len()));
    assert(at(e, 8, key.len() as int) =~= key);
    assert(at(e, 8 + key.len() as int, 8) =~= enc(8, voff as nat));
}
/// the fields of a stored record, in the file
proof fn krec_at(f: VarFileKeyCache, o: u64)
    requires f.ok(), f.0.b().dom().contains(o),
    ensures ({ let b = f.0.b()[o]; let i = f.0.img(); let p = o as int;
        &&& u32_at(i, p) == b.len() && u32_at(i, p + 4) == klen(b) && at(i, p + 8, klen(b)) == krec(b).key && u64_at(i, p + 8 + klen(b)) == kvoff(b)
        &&& p >= 192 && p + b.len() <= f.0.len() && 16 + klen(b) <= b.len() && klen(b) <= u32::MAX && b.len() <= 0xffff_ff00 && f.0.piece_mgr.vsz(b.len() as int)
        &&& live(f.0.hv(), p, b.len() as int)
    }),
{
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(kmgr); hide(live);
    let i = f.0.img();
    let b = f.0.b()[o];
    let p = o as int;
    body_at(f.0, o);
    kmgr_ok(f.0.piece_mgr);
    p256_vals();
    le_bound(at(b, 4, 4));
    assert(at(i, p + 4, 4) =~= at(b, 4, 4));
    assert(at(i, p + 8, klen(b)) =~= at(b, 8, klen(b)));
    assert(at(i, p + 8 + klen(b), 8) =~= at(b, 8 + klen(b), 8));
    le_bound(at(b, 8 + klen(b), 8));
}
/// what roundup returns is a declared size
proof fn body_vsz(m: PieceMgr, s: int)
    requires kmgr(m), 0 < s <= 0xffff_fe00,
    ensures m.vsz(m.rup(s)), m.rup(s) >= s,
{
    kmgr_ok(m);
    if s <= m.sz(14) {
        fits_one(m, s, 14);
        let c = choose|c: int| m.fits(s, c);
        assert(m.sz(c) == m.rup(s));
    } else {
        assert(((s + 128) / 128) * 128 % 8 == 0 && ((s + 128) / 128) * 128 > s && ((s + 128) / 128) * 128 <= s + 128) by(nonlinear_arith);
        assert(((s + 128) / 128) * 128 >= 1024) by(nonlinear_arith) requires s > 896;
    }
}
proof fn fits_one(m: PieceMgr, s: int, n: int)
    requires 0 <= n < m.n() - 1, s <= m.sz(n),
    ensures exists|c: int| m.fits(s, c),
    decreases n,
{
    if exists|d: int| 0 <= d < n && #[trigger] m.sz(d) >= s {
        let d = choose|d: int| 0 <= d < n && #[trigger] m.sz(d) >= s;
        fits_one(m, s, d);
    } else { assert(m.fits(s, n)); }
}
pub open spec fn kmap(b: IMap<u64, Seq<u8>>) -> KMap { IMap::new(|o: KeyPieceOffset| b.dom().contains(o.val), |o: KeyPieceOffset| krec(b[o.val])) }
proof fn k_ins(m: PieceMgr, base: IMap<u64, Seq<u8>>, f: VarFileKeyCache, o: u64, size: int, key: Seq<u8>, voff: u64)
    requires kmgr(m), f.0.piece_mgr == m, f.0.hok(), f.0.b() == base.insert(o, kenc(size, key, voff)), m.rup(16 + key.len() as int) <= size, 16 + key.len() <= size <= 0xffff_ffff,
        forall|x: u64| x != o && #[trigger] base.dom().contains(x) ==> kvalid(m, base[x]),
    ensures f.ok(), f.k() == kmap(base).insert(Offset { val: o }, KeyRec { key, voff: Offset { val: voff } }),
{
    krec_kenc(size, key, voff);
    assert(f.k() =~= kmap(base).insert(Offset { val: o }, KeyRec { key, voff: Offset { val: voff } }));
}
/// the record at off is rewritten in place
proof fn done_in(a: VarFileKeyCache, f: VarFileKeyCache, p: VarFile, off: KeyPieceOffset, key: Seq<u8>, voff: ValuePieceOffset)
    requires a.ok(), p.same(a.0), a.k().dom().contains(off), key.len() <= MAXKEY, f.0.piece_mgr == a.0.piece_mgr,
        a.0.piece_mgr.rup(16 + key.len() as int) <= a.0.b()[off.val].len(), f.0.img() == put_at(p.img(), off.val as int, kenc(a.0.b()[off.val].len() as int, key, voff.val)),
    ensures f.ok(), f.k() == a.k().remove(off).insert(off, KeyRec { key, voff }), f.0.len() == a.0.len(),
{
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(VarFile::is_heap); hide(heap); hide(tiled); hide(kmgr); hide(kenc);
    let m = a.0.piece_mgr;
    kmgr_ok(m);
    body_vsz(m, 16 + key.len() as int);
    krec_at(a, off.val);
    b_same(a.0, p);
    let s = a.0.b()[off.val].len() as int;
    krec_kenc(s, key, voff.val);
    b_written(p, f.0, off.val, kenc(s, key, voff.val));
    k_ins(m, a.0.b(), f, off.val, s, key, voff.val);
    assert(f.k() =~= a.k().remove(off).insert(off, KeyRec { key, voff }));
}
/// a free record is used
proof fn done_old(a: VarFileKeyCache, f: VarFileKeyCache, is_new: bool, off: u64, base: IMap<u64, Seq<u8>>, g: VarFile, r: u64, key: Seq<u8>, voff: ValuePieceOffset, s: int)
    requires a.ok(), base == (if is_new { a.0.b() } else { a.0.b().remove(off) }), g.piece_mgr == a.0.piece_mgr, f.0.piece_mgr == a.0.piece_mgr, g.hok(), g.b().dom().contains(r), g.b().remove(r) == base, !base.dom().contains(r), key.len() <= MAXKEY, g.b()[r].len() == s,
        a.0.piece_mgr.rup(16 + key.len() as int) <= s, f.0.img() == put_at(g.img(), r as int, kenc(s, key, voff.val)), r != 0,
        g.len() == a.0.len(),
    ensures f.ok(), f.k() == kmap(base).insert(Offset { val: r }, KeyRec { key, voff }), f.0.len() == a.0.len(), !kmap(base).dom().contains(Offset { val: r }),
{
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(VarFile::is_heap); hide(heap); hide(tiled); hide(kmgr); hide(kenc); hide(krec);
    let m = a.0.piece_mgr;
    kmgr_ok(m);
    body_vsz(m, 16 + key.len() as int);
    body_at(g, r);
    krec_kenc(s, key, voff.val);
    b_written(g, f.0, r, kenc(s, key, voff.val));
    assert(f.0.b() =~= base.insert(r, kenc(s, key, voff.val)));
    k_ins(m, base, f, r, s, key, voff.val);
}
/// the record is new, at the end
proof fn done_end(a: VarFileKeyCache, f: VarFileKeyCache, is_new: bool, off: u64, base: IMap<u64, Seq<u8>>, g: VarFile, key: Seq<u8>, voff: ValuePieceOffset)
    requires a.ok(), base == (if is_new { a.0.b() } else { a.0.b().remove(off) }), g.piece_mgr == a.0.piece_mgr, f.0.piece_mgr == a.0.piece_mgr, g.hok(), g.b() == base, key.len() <= MAXKEY,
        f.0.img() == put_at(g.img(), g.len(), kenc(a.0.piece_mgr.rup(16 + key.len() as int), key, voff.val)), g.len() == a.0.len(),
       
    ensures ({ let o = g.len() as u64;
        &&& f.ok() && !kmap(base).dom().contains(Offset { val: o }) && o >= 192 && o == g.len()
        &&& f.k() == kmap(base).insert(Offset { val: o }, KeyRec { key, voff }) && f.0.len() == a.0.len() + a.0.piece_mgr.rup(16 + key.len() as int)
    }),
{
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(VarFile::is_heap); hide(heap); hide(tiled); hide(kmgr); hide(kenc); hide(krec);
    broadcast use bf_len;
    let m = a.0.piece_mgr;
    kmgr_ok(m);
    body_vsz(m, 16 + key.len() as int);
    let s = m.rup(16 + key.len() as int);
    cls_in(m, s);
    krec_kenc(s, key, voff.val);
    b_grown(g, f.0, kenc(s, key, voff.val));
    k_ins(m, base, f, g.len() as u64, s, key, voff.val);
}
proof fn rec_len(a: VarFileKeyCache, off: KeyPieceOffset)
    requires a.ok(), a.k().dom().contains(off),
    ensures a.0.b().dom().contains(off.val), a.k()[off].key.len() == klen(a.0.b()[off.val]), a.0.piece_mgr.rup(16 + a.k()[off].key.len() as int) <= a.0.b()[off.val].len(),
{
    let b = a.0.b()[off.val];
    assert(kvalid(a.0.piece_mgr, b));
}
proof fn kmgr_is(a: VarFileKeyCache)
    requires a.ok(),
    ensures kmgr(a.0.piece_mgr), a.0.hok(),
{}
proof fn k_rem(a: VarFileKeyCache, off: KeyPieceOffset)
    ensures kmap(a.0.b().remove(off.val)) == a.k().remove(off),
{ assert(kmap(a.0.b().remove(off.val)) =~= a.k().remove(off)); }
proof fn push_fit(a: VarFile, o: int, s: int, size: int)
    requires a.hok(), a.piece_mgr.vsz(size), a.piece_mgr.vsz(s),
    ensures no_fit(a.piece_mgr, pushed(a.piece_mgr, a.hv(), o, s), size) ==> no_fit(a.piece_mgr, a.hv(), size),
{
    hv_ok(a);
    if no_fit(a.piece_mgr, pushed(a.piece_mgr, a.hv(), o, s), size) { pushed_no_fit(a.piece_mgr, a.hv(), o, s, size); }
}
proof fn vs_same(a: VarFileKeyCache, f: VarFileKeyCache)
    requires a.ok(), f.0.same(a.0),
    ensures f.same(a),
{ b_same(a.0, f.0); }
/// for reading the record at o
proof fn reading(a: VarFileKeyCache, o: KeyPieceOffset)
    requires a.ok(), a.k().dom().contains(o),
    ensures a.0.b().dom().contains(o.val), a.k()[o] == krec(a.0.b()[o.val]),
        krec(a.0.b()[o.val]).key.len() == klen(a.0.b()[o.val]), o.val != 0, kmgr(a.0.piece_mgr),
{
    rec_len(a, o);
    krec_at(a, o.val);
}
impl Size {
//@ fn KeyPieceSize::is_valid_key
//@ attr #[verifier::loop_isolation(false)]
    requires exists|m: PieceMgr| kmgr(m) && m.vsz(self.val as int),
    ensures ret, // C06
//@ start
    let ghost m = choose|m: PieceMgr| kmgr(m) && m.vsz(self.val as int);
    proof { kmgr_ok(m); cls_in(m, self.val as int); }
//@ loop 0
    invariant forall|c: int| 0 <= c < i_ ==> #[trigger] m.sz(c) != self.val,
//@ end
}
impl KeyPiece {
//@ fn KeyPiece::with
    ensures ret == (KeyPiece { offset, size, key, value_offset }),
//@ end
//@ fn KeyPiece::with_key_value
    ensures ret.key == key, ret.value_offset == value_offset, ret.offset.val == 0,
//@ end
//@ fn KeyPiece::hash_value
    ensures ret == khash(kt_v(&self.key)), // C09
//@ end
//@ fn KeyPiece::encoded_piece_size
    requires kt_v(&self.key).len() <= MAXKEY,
    ensures ret.0 + ret.1 == 16 + kt_v(&self.key).len(), // C06 C08
        ret.2.val == kt_v(&self.key).len(),
//@ end
//@ fn KeyPiece::dat_write_piece_one
    requires 16 + kt_v(&self.key).len() <= self.size.val, kt_v(&self.key).len() <= MAXKEY, self.offset.val <= old(file).len(),
    ensures final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> final(file).img() == put_at(old(file).img(), self.offset.val as int, kenc(self.size.val as int, kt_v(&self.key), self.value_offset.val)), // C08
//@ start
    broadcast use bf_len;
    let ghost i0 = file.img();
    let ghost p = self.offset.val as int;
    let ghost k = kt_v(&self.key);
    let ghost s = self.size.val as int;
    proof { enc_len(4, s as nat); enc_len(4, k.len()); enc_len(8, self.value_offset.val as nat); }
//@ after write_key_len 0
    proof { put2(i0, p, enc(4, s as nat), enc(4, k.len())); }
//@ after write_all 0
    proof { put2(i0, p, enc(4, s as nat) + enc(4, k.len()), k); }
//@ after write_value_piece_offset 0
    proof { put2(i0, p, enc(4, s as nat) + enc(4, k.len()) + k, enc(8, self.value_offset.val as nat)); }
//@ after write_zero_to_offset 0
    proof { put2(i0, p, enc(4, s as nat) + enc(4, k.len()) + k + enc(8, self.value_offset.val as nat), zeros(s - 16 - k.len())); }
//@ end
}
impl VarFileKeyCache {
//@ fn VarFileKeyCache::delete_piece
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures ret is Ok ==> final(self).ok() && final(self).k() == old(self).k().remove(offset), // C06 C07 C08
        ret is Ok ==> final(self).0.len() == old(self).0.len(), // C07
//@ start
    broadcast use bf_len;
    let ghost b = self.0.b()[offset.val];
    proof { krec_at(*self, offset.val); kmgr_ok(self.0.piece_mgr); }
//@ after read_piece_size 0
    proof { b_same(old(self).0, self.0); }
//@ tail
    proof { assert(self.k() =~= old(self).k().remove(offset)); }
//@ end
//@ fn VarFileKeyCache::add_key_piece
    requires old(self).ok(), kt_v(key).len() <= MAXKEY,
    ensures ret is Ok ==> Self::wrote(*old(self), *final(self), old(self).k(), ret->Ok_0, kt_v(key), value_offset), // C06 C07 C08
        ret is Ok ==> !old(self).k().dom().contains(ret->Ok_0.offset), // C06 C08
//@ end
    /// o is written, and the file is longer only if there was no room
    pub open spec fn wrote(a: VarFileKeyCache, f: VarFileKeyCache, base: KMap, o: KeyPiece, key: Seq<u8>, voff: ValuePieceOffset) -> bool {
        let m = a.0.piece_mgr;
        &&& f.ok() && o.offset.val != 0
        &&& f.k() == base.insert(o.offset, KeyRec { key, voff })
        &&& kt_v(&o.key) == key && o.value_offset == voff
        &&& f.0.len() == a.0.len() || f.0.len() == a.0.len() + m.rup(16 + key.len() as int) && no_fit(m, a.0.hv(), m.rup(16 + key.len() as int))
    }
//@ fn VarFileKeyCache::write_piece
    requires old(self).ok(), kt_v(&piece.key).len() <= MAXKEY, is_new || old(self).k().dom().contains(piece.offset),
    ensures ret is Ok ==> ({
        let base = if is_new { old(self).k() } else { old(self).k().remove(piece.offset) };
        &&& Self::wrote(*old(self), *final(self), base, ret->Ok_0, kt_v(&piece.key), piece.value_offset) // C06 C07 C08
        &&& !base.dom().contains(ret->Ok_0.offset) // C06 C08
        &&& !is_new && old(self).k()[piece.offset].key.len() == kt_v(&piece.key).len() ==> ret->Ok_0.offset == piece.offset // C08 C09
    }),
//@ start
    hide(put_at); hide(PieceMgr::vsz); hide(PieceMgr::ok); hide(kenc); hide(VarFile::is_heap); hide(no_fit); hide(heap); hide(tiled); hide(flist); hide(le); hide(enc); hide(kmgr); hide(live); hide(PieceMgr::rup); hide(kmap); hide(VarFileKeyCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(klen);
    broadcast use bf_len;
    let ghost a = *self;
    let ghost m = self.0.piece_mgr;
    let ghost off = piece.offset;
    let ghost key = kt_v(&piece.key);
    let ghost voff = piece.value_offset;
    let ghost need = 16 + key.len() as int;
    let ghost mut p = self.0;
    let ghost mut g = self.0;
    let ghost mut r = 0u64;
    proof {
        kmgr_is(*self);
        kmgr_ok(m);
        body_vsz(m, need);
        if !is_new { rec_len(*self, off); krec_at(*self, off.val); }
    }
//@ after read_piece_size 0
    proof { b_same(a.0, self.0); p = self.0; }
//@ before return 0
    proof { done_in(a, *self, p, off, key, voff); }
//@ after push_free_piece_list 0
    proof { p = self.0; push_fit(a.0, off.val as int, a.0.b()[off.val].len() as int, m.rup(need)); }
//@ after pop_free_piece_list 0
    proof {
        g = self.0;
        r = free_piece_offset.val;
        if r != 0 { b_popped(p, g, m.rup(need), r); body_at(g, r); } else { popped_none(p, g, m.rup(need)); }
    }
//@ after read_piece_size 1
    proof { b_same(g, self.0); }
//@ tail
    proof {
        if r != 0 { done_old(a, *self, is_new, off.val, p.b(), g, r, key, voff, g.b()[r].len() as int); } else { done_end(a, *self, is_new, off.val, p.b(), g, key, voff); }
        if !is_new { k_rem(a, off); }
    }
//@ end
//@ fn VarFileKeyCache::read_piece
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).0.same(old(self).0),
        ret is Ok ==> ret->Ok_0.offset == offset && (KeyRec { key: kt_v(&ret->Ok_0.key), voff: ret->Ok_0.value_offset }) == old(self).k()[offset], // C08
        ret is Ok ==> ret->Ok_0.size.val == old(self).0.b()[offset.val].len(), // C15
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(kmgr); hide(live); hide(VarFileKeyCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(klen); hide(kvoff); hide(kmap); hide(VarFileKeyCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); krec_at(*self, offset.val); }
//@ end
//@ fn VarFileKeyCache::read_piece_only_size
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> ret->Ok_0.val == old(self).0.b()[offset.val].len(), // C15
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(kmgr); hide(live); hide(VarFileKeyCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(klen); hide(kvoff); hide(kmap); hide(VarFileKeyCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); krec_at(*self, offset.val); }
//@ end
//@ fn VarFileKeyCache::read_piece_only_key_length
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> ret->Ok_0.val == old(self).k()[offset].key.len(), // C15
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(kmgr); hide(live); hide(VarFileKeyCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(klen); hide(kvoff); hide(kmap); hide(VarFileKeyCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); krec_at(*self, offset.val); }
//@ end
//@ fn VarFileKeyCache::read_piece_only_key_maybeslice
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> ms_v(&ret->Ok_0) == old(self).k()[offset].key, // C08
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(kmgr); hide(live); hide(VarFileKeyCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(klen); hide(kvoff); hide(kmap); hide(VarFileKeyCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); krec_at(*self, offset.val); }
//@ end
//@ fn VarFileKeyCache::read_piece_only_key
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> kt_v(&ret->Ok_0) == old(self).k()[offset].key, // C08
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(kmgr); hide(live); hide(VarFileKeyCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(klen); hide(kvoff); hide(kmap); hide(VarFileKeyCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); krec_at(*self, offset.val); }
//@ end
//@ fn VarFileKeyCache::read_piece_only_value_offset
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).0.same(old(self).0), ret is Ok ==> ret->Ok_0 == old(self).k()[offset].voff, // C08
//@ start
    hide(heap); hide(tiled); hide(PieceMgr::ok); hide(PieceMgr::vsz); hide(le); hide(kmgr); hide(live); hide(VarFileKeyCache::ok); hide(VarFile::hok); hide(VarFile::b); hide(VarFile::hv); hide(klen); hide(kvoff); hide(kmap); hide(VarFileKeyCache::same);
    broadcast use bf_len;
    proof { reading(*self, offset); krec_at(*self, offset.val); }
//@ end
    /// the content is as it was
    pub open spec fn same(&self, o: VarFileKeyCache) -> bool { self.0.same(o.0) && self.ok() && self.k() == o.k() && self.0.hv() == o.0.hv() }
}
//@ fn write_keyrecf_init_header
//@ attr #[verifier::loop_isolation(false)]
    requires old(file).len() == 0, kmgr(old(file).piece_mgr),
    ensures ret is Ok ==> ({ let f = VarFileKeyCache(*final(file), PhantomData); f.ok() && f.k() == IMap::<KeyPieceOffset, KeyRec>::empty() }), // C05 C06 C07
//@ start
    proof { enc_len(8, 0); kmgr_ok(file.piece_mgr); enc_zero(8); }
    broadcast use bf_len;
//@ after write_all 0
    assert(file.img() =~= DAT_HEADER_SIGNATURE@);
//@ after write_all 1
    assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@);
//@ tail
    proof {
        assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@ + enc(8, 0) + enc(8, 0) + zeros(160));
        fresh_heap(*file);
        assert(kmap(file.b()) =~= IMap::<KeyPieceOffset, KeyRec>::empty());
    }
//@ end
proof fn enc_zero(n: nat)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] enc(n, 0)[i] == 0, enc(n, 0).len() == n,
    decreases n,
{ if n > 0 { enc_zero((n - 1) as nat); } }
/// a file that is opened again has the records it had
proof fn reopen(a: VarFileKeyCache, f: VarFileKeyCache)
    requires a.ok(), f.0.img() == a.0.img(), f.0.piece_mgr == a.0.piece_mgr,
    ensures f.ok(), f.k() == a.k(), // C05
{ b_same(a.0, f.0); }
proof fn img_keep(a: VarFileKeyCache)
    requires a.ok(),
    ensures forall|f: VarFileKeyCache| #[trigger] f.0.img() == a.0.img() && f.0.piece_mgr == a.0.piece_mgr ==> f.ok() && f.k() == a.k(),
{
    assert forall|f: VarFileKeyCache| #[trigger] f.0.img() == a.0.img() && f.0.piece_mgr == a.0.piece_mgr implies f.ok() && f.k() == a.k() by { reopen(a, f); }
}
//@ arrays sz_ary
//@ mutself read_fill_buffer flush sync_all sync_data read_piece_only_size read_piece_only_key_length read_piece_only_key read_piece_only_value_offset read_piece write_piece delete_piece add_key_piece count_of_free_key_piece
impl KeyFile {
    pub open spec fn ok(&self) -> bool { self.0.ok() }
    pub open spec fn k(&self) -> KMap { self.0.k() }
    /// reading does not change it
    pub open spec fn same(&self, o: KeyFile) -> bool { self.0.same(o.0) }
//@ fn KeyFile::read_fill_buffer
    requires old(self).ok(),
    ensures final(self).same(*old(self)), // C16
//@ after read_fill_buffer 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn KeyFile::flush
    requires old(self).ok(),
    ensures final(self).ok(), final(self).k() == old(self).k(), ret is Ok ==> final(self).0.0.disk() == old(self).0.0.img(), // C04 C16
//@ start
    proof { img_keep(self.0); }
//@ end
//@ fn KeyFile::sync_all
    requires old(self).ok(),
    ensures final(self).ok(), final(self).k() == old(self).k(), ret is Ok ==> final(self).0.0.disk() == old(self).0.0.img() && bf_synced(&final(self).0.0.buf_file), // C04 C16
//@ start
    proof { img_keep(self.0); }
//@ end
//@ fn KeyFile::sync_data
    requires old(self).ok(),
    ensures final(self).ok(), final(self).k() == old(self).k(), ret is Ok ==> final(self).0.0.disk() == old(self).0.0.img() && bf_synced(&final(self).0.0.buf_file), // C04 C16
//@ start
    proof { img_keep(self.0); }
//@ end
//@ fn KeyFile::read_piece_only_size
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == old(self).0.0.b()[offset.val].len(), // C15
//@ after read_piece_only_size 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn KeyFile::read_piece_only_key_length
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == old(self).k()[offset].key.len(), // C15
//@ after read_piece_only_key_length 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn KeyFile::read_piece_only_key
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).same(*old(self)), ret is Ok ==> kt_v(&ret->Ok_0) == old(self).k()[offset].key, // C08
//@ after read_piece_only_key 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn KeyFile::read_piece_only_value_offset
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0 == old(self).k()[offset].voff, // C08
//@ after read_piece_only_value_offset 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn KeyFile::read_piece
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures final(self).same(*old(self)),
        ret is Ok ==> ret->Ok_0.offset == offset && kt_v(&ret->Ok_0.key) == old(self).k()[offset].key && ret->Ok_0.value_offset == old(self).k()[offset].voff, // C08
        ret is Ok ==> ret->Ok_0.size.val == old(self).0.0.b()[offset.val].len(), // C15
//@ after read_piece 0
    proof { vs_same(old(self).0, *locked); }
//@ end
//@ fn KeyFile::write_piece
    requires old(self).ok(), old(self).k().dom().contains(piece.offset), old(self).k()[piece.offset].key == kt_v(&piece.key), kt_v(&piece.key).len() <= MAXKEY,
    ensures ret is Ok ==> final(self).ok() && ret->Ok_0.offset == piece.offset // C08
            && final(self).k() == old(self).k().insert(piece.offset, KeyRec { key: kt_v(&piece.key), voff: piece.value_offset }), // C06 C08
//@ end
//@ fn KeyFile::delete_piece
    requires old(self).ok(), old(self).k().dom().contains(offset),
    ensures ret is Ok ==> final(self).ok() && final(self).k() == old(self).k().remove(offset), // C06 C07 C08
//@ end
//@ fn KeyFile::add_key_piece
    requires old(self).ok(), kt_v(key).len() <= MAXKEY,
    ensures ret is Ok ==> ({
        let o = ret->Ok_0.offset;
        &&& final(self).ok() && o.val != 0 && !old(self).k().dom().contains(o)
        &&& final(self).k() == old(self).k().insert(o, KeyRec { key: kt_v(key), voff: value_offset }) // C06 C07 C08
        &&& kt_v(&ret->Ok_0.key) == kt_v(key) && ret->Ok_0.value_offset == value_offset
    }),
//@ end
//@ fn KeyFile::count_of_free_key_piece
//@ attr #[verifier::loop_isolation(false)]
    requires old(self).ok(),
    ensures final(self).0.0.same(old(self).0.0), ret is Ok ==> frees(ret->Ok_0, old(self).0.0, 16), // C15
//@ start
    proof { kmgr_is(self.0); kmgr_ok(self.0.0.piece_mgr); }
//@ loop 0
    invariant locked.0.same(old(self).0.0), frees(vec, old(self).0.0, i_ as int),
//@ loopstart 0
    proof {
        let m = locked.0.piece_mgr;
        b_same(old(self).0.0, locked.0);
        let z = sz_ary@[i_ as int] as int;
        assert(m.sz(i_ as int) == z);
        assert(m.vsz(z));
        cls_at(m, z, i_ as int);
    }
//@ end
}
// ---------------------------------------------------------------- opening (the bytes at hand are those of the file: unit hdr)
/// a new file is an empty heap
pub proof fn new_file(f: VarFileKeyCache)
    requires kmgr(f.0.piece_mgr), f.0.img().len() == 192, forall|j: int| 16 <= j < 192 ==> #[trigger] f.0.img()[j] == 0,
    ensures f.ok(), forall|o: KeyPieceOffset| !(#[trigger] f.k().dom().contains(o)), // C05 C06 C07
{
    let m = f.0.piece_mgr;
    let i = f.0.img();
    kmgr_ok(m);
    let h = Hp { ps: Seq::empty(), fl: Seq::new(16, |c: int| Seq::<int>::empty()) };
    assert forall|c: int| 0 <= c < 16 implies flist(m, i, h.ps, #[trigger] h.fl[c], c) by {
        let p = m.fo(c);
        assert(at(i, p, 8) =~= zeros(8));
        assert(at(i, p, 8) =~= enc(8, 0)) by { reveal_with_fuel(enc, 9); }
        p256_vals();
        le_enc(8, 0);
    }
    assert(heap(m, i, h));
    hv_is(f.0, h);
}
/// a file opened again holds the same
pub proof fn reopened(a: VarFileKeyCache, b: VarFileKeyCache)
    requires a.ok(), kmgr(b.0.piece_mgr), b.0.img() == a.0.img(),
    ensures b.ok(), b.k() == a.k(), b.0.hv() == a.0.hv(), // C05
{
    hide(heap); hide(PieceMgr::ok); hide(bodies); hide(kmgr);
    assert(b.0.piece_mgr.size_ary@ =~= a.0.piece_mgr.size_ary@ && b.0.piece_mgr.free_list_offset@ =~= a.0.piece_mgr.free_list_offset@) by { reveal(kmgr); }
    assert(a.0.piece_mgr.size_ary =~= b.0.piece_mgr.size_ary && a.0.piece_mgr.free_list_offset =~= b.0.piece_mgr.free_list_offset);
    assert(a.0.piece_mgr == b.0.piece_mgr);
    hv_ok(a.0);
    hv_is(b.0, a.0.hv());
    assert(b.0.b() == a.0.b());
    assert(b.0.hok());
}
}
fn main() {}
