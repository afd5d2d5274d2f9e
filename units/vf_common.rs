// ---------------------------------------------------------------- bytes
/// the little endian number that the bytes of s spell
pub open spec fn le(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.subrange(1, s.len() as int)) } }
pub open spec fn enc(n: nat, v: nat) -> Seq<u8>
    decreases n
{ if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + enc((n - 1) as nat, v / 256) } }
pub proof fn enc_len(n: nat, v: nat)
    ensures enc(n, v).len() == n,
    decreases n,
{ if n > 0 { enc_len((n - 1) as nat, v / 256); } }
pub open spec fn p256(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub proof fn le_enc(n: nat, v: nat)
    requires v < p256(n),
    ensures le(enc(n, v)) == v, enc(n, v).len() == n,
    decreases n,
{
    enc_len(n, v);
    if n > 0 {
        let m = (n - 1) as nat;
        assert(v / 256 < p256(m)) by(nonlinear_arith) requires v < 256 * p256(m);
        le_enc(m, v / 256);
        let s = enc(n, v);
        assert(s.subrange(1, s.len() as int) =~= enc(m, v / 256));
        assert(s[0] as nat == v % 256);
        assert(256 * (v / 256) + v % 256 == v) by(nonlinear_arith);
    }
}
pub proof fn le_bound(s: Seq<u8>)
    ensures le(s) < p256(s.len()),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        le_bound(t);
        assert(p256(s.len()) == 256 * p256(t.len()));
    }
}
pub proof fn p256_vals()
    ensures p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000,
{ reveal_with_fuel(p256, 9); }
/// the bytes [p, p+n) of an image
pub open spec fn at(s: Seq<u8>, p: int, n: int) -> Seq<u8> { s.subrange(p, p + n) }
pub open spec fn u16_at(s: Seq<u8>, p: int) -> u16 { le(at(s, p, 2)) as u16 }
pub open spec fn u32_at(s: Seq<u8>, p: int) -> u32 { le(at(s, p, 4)) as u32 }
pub open spec fn u64_at(s: Seq<u8>, p: int) -> u64 { le(at(s, p, 8)) as u64 }
/// there are zeros behind the end
pub open spec fn u32_atz(s: Seq<u8>, p: int) -> u32 { if p == s.len() { 0 } else { u32_at(s, p) } }
/// u64 numbers, one after the other
pub open spec fn encs(s: Seq<u64>) -> Seq<u8> { Seq::new(8 * s.len(), |j: int| enc(8, s[j / 8] as nat)[j % 8]) }
pub proof fn encs_at(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(),
    ensures at(encs(s), 8 * i, 8) == enc(8, s[i] as nat), le(at(encs(s), 8 * i, 8)) == s[i], encs(s).len() == 8 * s.len(),
{
    p256_vals();
    le_enc(8, s[i] as nat);
    let a = at(encs(s), 8 * i, 8);
    assert forall|j: int| 0 <= j < 8 implies #[trigger] a[j] == enc(8, s[i] as nat)[j] by {
        let q = 8 * i + j;
        assert(q / 8 == i && q % 8 == j) by(nonlinear_arith) requires q == 8 * i + j, 0 <= j < 8;
    }
    assert(a =~= enc(8, s[i] as nat));
}
/// s with b written at p (the end may move)
pub open spec fn put_at(s: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    s.subrange(0, p) + b + (if p + b.len() <= s.len() { s.subrange(p + b.len(), s.len() as int) } else { Seq::empty() })
}
pub open spec fn put_len(s: Seq<u8>, p: int, n: int) -> int { if p + n <= s.len() { s.len() as int } else { p + n } }
pub proof fn put_at_len(s: Seq<u8>, p: int, b: Seq<u8>)
    requires 0 <= p <= s.len(),
    ensures put_at(s, p, b).len() == put_len(s, p, b.len() as int), at(put_at(s, p, b), p, b.len() as int) =~= b,
{}
/// a write leaves the bytes outside of it alone
pub proof fn put_at_frame(s: Seq<u8>, p: int, b: Seq<u8>, q: int, n: int)
    requires 0 <= p <= s.len(), 0 <= q, 0 <= n, q + n <= s.len(), q + n <= p || p + b.len() <= q,
    ensures at(put_at(s, p, b), q, n) =~= at(s, q, n),
{}
/// files are smaller than this (writes beyond fail)
pub spec const MAXF: nat = 0x3fff_ffff_ffff_ffff;

// ---------------------------------------------------------------- rabuf::BufFile, by contract
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body]
pub struct MaybeSlice { _p: Vec<u8> }
pub uninterp spec fn ms_v(k: &MaybeSlice) -> Seq<u8>;
impl MaybeSlice {
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == ms_v(self), { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<u8>) ensures r@ == ms_v(&self), { unimplemented!() }
}
#[verifier::external_body]
pub struct BufFile { _p: Vec<u8> }
pub uninterp spec fn bf_img(f: &BufFile) -> Seq<u8>;
pub uninterp spec fn bf_pos(f: &BufFile) -> u64;
/// what the file itself holds
pub uninterp spec fn bf_disk(f: &BufFile) -> Seq<u8>;
/// the operating system was asked to make the data (and the metadata) durable since the last write
pub uninterp spec fn bf_synced(f: &BufFile) -> bool;
pub broadcast axiom fn bf_len(f: &BufFile)
    ensures (#[trigger] bf_img(f)).len() <= MAXF;
pub open spec fn bf_read(o: &BufFile, f: &BufFile, n: int) -> bool {
    &&& bf_img(f) == bf_img(o) && bf_disk(f) == bf_disk(o)
    &&& bf_pos(f) == bf_pos(o) + n
}
pub open spec fn bf_write(o: &BufFile, f: &BufFile, b: Seq<u8>) -> bool {
    &&& bf_img(f) == put_at(bf_img(o), bf_pos(o) as int, b)
    &&& bf_pos(f) == bf_pos(o) + b.len()
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// the bytes of an empty piece: its size (in n bytes) and zeros
pub open spec fn cleared(n: nat, size: u32) -> Seq<u8> { enc(n, size as nat) + zeros(size - n) }
/// the numbers of offsets
pub open spec fn offs(s: Seq<Offset>) -> Seq<u64> { Seq::new(s.len(), |i: int| s[i].val) }
/// the same bytes: an Offset is a u64 (repr of a one-field struct with a phantom)
#[verifier::external_body]
pub fn vtransmute(s: &[Offset]) -> (r: &[u64])
    ensures r@ == offs(s@),
{ unimplemented!() }
/// an open file
#[verifier::external_body]
pub struct File { _p: Vec<u8> }
pub uninterp spec fn file_img(f: &File) -> Seq<u8>;
pub open spec fn bf_fresh(r: &Result<BufFile>, f: &File) -> bool {
    r is Ok ==> bf_img(&r->Ok_0) == file_img(f) && bf_disk(&r->Ok_0) == file_img(f) && bf_pos(&r->Ok_0) == 0
}
pub mod rabuf {
    use vstd::prelude::*;
    verus! {
    pub use crate::MaybeSlice;
    pub open spec fn pow2(v: u32) -> bool { v > 0 && v & ((v - 1) as u32) == 0 }
    #[verifier::external_body]
    pub fn roundup_powerof2(v: u32) -> (r: u32)
        ensures pow2(v) ==> r == v,
    { unimplemented!() }
    }
}
impl BufFile {
    #[verifier::external_body]
    pub fn new(name: &str, file: File) -> (ret: Result<BufFile>)
        ensures bf_fresh(&ret, &file),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(name: &str, file: File, chunk_size: u32, max_num_chunks: u16) -> (ret: Result<BufFile>)
        requires rabuf::pow2(chunk_size), max_num_chunks >= 2, // fewer chunks are refused
        ensures bf_fresh(&ret, &file),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_per_mille(name: &str, file: File, chunk_size: u32, per_mille: u16) -> (ret: Result<BufFile>)
        requires rabuf::pow2(chunk_size),
        ensures bf_fresh(&ret, &file),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (ret: Result<u64>)
        requires match to {
            SeekFrom::Start(n) => n <= MAXF,
            SeekFrom::Current(d) => 0 <= bf_pos(old(self)) + d <= MAXF,
            SeekFrom::End(d) => d == 0,
        },
        ensures
            bf_img(final(self)) == bf_img(old(self)), bf_disk(final(self)) == bf_disk(old(self)),
            ret is Ok ==> ret->Ok_0 == bf_pos(final(self)) && bf_pos(final(self)) == match to {
                SeekFrom::Start(n) => n as int,
                SeekFrom::Current(d) => bf_pos(old(self)) + d,
                SeekFrom::End(d) => bf_img(old(self)).len() as int,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (ret: Result<u64>)
        ensures bf_read(old(self), final(self), 0), ret is Ok ==> ret->Ok_0 == bf_pos(old(self)),
    { unimplemented!() }
    /// loads the chunk of this offset
    #[verifier::external_body]
    pub fn prepare(&mut self, offset: u64) -> (ret: Result<()>)
        ensures bf_read(old(self), final(self), 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_fill_buffer(&mut self) -> (ret: Result<()>)
        ensures bf_img(final(self)) == bf_img(old(self)), bf_disk(final(self)) == bf_disk(old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (ret: Result<u8>)
        requires bf_pos(old(self)) + 1 <= bf_img(old(self)).len(),
        ensures bf_img(final(self)) == bf_img(old(self)), bf_disk(final(self)) == bf_disk(old(self)), ret is Ok ==> bf_read(old(self), final(self), 1) && ret->Ok_0 == bf_img(old(self))[bf_pos(old(self)) as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16_le(&mut self) -> (ret: Result<u16>)
        requires bf_pos(old(self)) + 2 <= bf_img(old(self)).len(),
        ensures bf_img(final(self)) == bf_img(old(self)), bf_disk(final(self)) == bf_disk(old(self)), ret is Ok ==> bf_read(old(self), final(self), 2) && ret->Ok_0 == u16_at(bf_img(old(self)), bf_pos(old(self)) as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32_le(&mut self) -> (ret: Result<u32>)
        // behind the end of the file there are zeros
        requires bf_pos(old(self)) + 4 <= bf_img(old(self)).len() || bf_pos(old(self)) == bf_img(old(self)).len(),
        ensures bf_img(final(self)) == bf_img(old(self)), bf_disk(final(self)) == bf_disk(old(self)),
            ret is Ok ==> bf_read(old(self), final(self), 4) && ret->Ok_0 == u32_atz(bf_img(old(self)), bf_pos(old(self)) as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64_le(&mut self) -> (ret: Result<u64>)
        requires bf_pos(old(self)) + 8 <= bf_img(old(self)).len(),
        ensures bf_img(final(self)) == bf_img(old(self)), bf_disk(final(self)) == bf_disk(old(self)), ret is Ok ==> bf_read(old(self), final(self), 8) && ret->Ok_0 == u64_at(bf_img(old(self)), bf_pos(old(self)) as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact_maybeslice(&mut self, size: usize) -> (ret: Result<MaybeSlice>)
        requires bf_pos(old(self)) + size <= bf_img(old(self)).len(),
        ensures bf_img(final(self)) == bf_img(old(self)), bf_disk(final(self)) == bf_disk(old(self)),
            ret is Ok ==> bf_read(old(self), final(self), size as int) && ms_v(&ret->Ok_0) == at(bf_img(old(self)), bf_pos(old(self)) as int, size as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u16_le(&mut self, val: u16) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), enc(2, val as nat)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u32_le(&mut self, val: u32) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), enc(4, val as nat)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64_le(&mut self, val: u64) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), enc(8, val as nat)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64_le_slice(&mut self, val_slice: &[u64]) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), encs(val_slice@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64_le_slice2(&mut self, val_slice1: &[u64], val_slice2: &[u64]) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), encs(val_slice1@) + encs(val_slice2@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all_small(&mut self, buf: &[u8]) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), buf@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_zero(&mut self, size: u32) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), zeros(size as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, buf: &[u8]) -> (ret: Result<()>)
        requires bf_pos(old(self)) <= bf_img(old(self)).len(),
        ensures ret is Ok ==> bf_write(old(self), final(self), buf@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, size: u64) -> (ret: Result<()>)
        ensures ret is Ok ==> bf_img(final(self)).len() == size && bf_pos(final(self)) == bf_pos(old(self))
            && (forall|i: int| 0 <= i < size ==> #[trigger] bf_img(final(self))[i] == (if i < bf_img(old(self)).len() { bf_img(old(self))[i] } else { 0u8 })),
    { unimplemented!() }
    /// all buffered data goes to the file
    #[verifier::external_body]
    pub fn flush(&mut self) -> (ret: Result<()>)
        ensures bf_img(final(self)) == bf_img(old(self)), ret is Ok ==> bf_disk(final(self)) == bf_img(old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&mut self) -> (ret: Result<()>)
        ensures bf_img(final(self)) == bf_img(old(self)), ret is Ok ==> bf_disk(final(self)) == bf_img(old(self)) && bf_synced(final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_data(&mut self) -> (ret: Result<()>)
        ensures bf_img(final(self)) == bf_img(old(self)), ret is Ok ==> bf_disk(final(self)) == bf_img(old(self)) && bf_synced(final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) -> (ret: Result<()>)
        ensures bf_img(final(self)) == bf_img(old(self)), ret is Ok ==> bf_disk(final(self)) == bf_img(old(self)),
    { unimplemented!() }
}

// ---------------------------------------------------------------- VarFile
pub struct PieceMgr { pub free_list_offset: &'static [u64], pub size_ary: &'static [u32] }
pub struct VarFile { pub buf_file: BufFile, pub piece_mgr: PieceMgr }
impl VarFile {
    pub open spec fn img(&self) -> Seq<u8> { bf_img(&self.buf_file) }
    pub open spec fn pos(&self) -> int { bf_pos(&self.buf_file) as int }
    pub open spec fn disk(&self) -> Seq<u8> { bf_disk(&self.buf_file) }
    pub open spec fn len(&self) -> int { self.img().len() as int }
    /// only the position may differ
    pub open spec fn same(&self, o: VarFile) -> bool { self.img() == o.img() && self.disk() == o.disk() && self.piece_mgr == o.piece_mgr }
    /// n bytes were read
    pub open spec fn rd(&self, o: VarFile, n: int) -> bool { self.same(o) && self.pos() == o.pos() + n }
    /// b was written at the position
    pub open spec fn wr(&self, o: VarFile, b: Seq<u8>) -> bool {
        self.img() == put_at(o.img(), o.pos(), b) && self.pos() == o.pos() + b.len() && self.piece_mgr == o.piece_mgr
    }
}
