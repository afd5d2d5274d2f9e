//@ include head.rs
use vstd::string::StringSliceAdditionalSpecFns;
verus! {
//@ include base.rs
//@ include lex.rs
//@ rename cmp vcmp
//@ rename to_vec vto_vec
//@ rename clone vto_vec
//@ rename to_be_bytes vto_be_bytes
//@ rename copy_from_slice vcopy_from_slice
//@ rename from_le_bytes vfrom_le_bytes
//@ refs chunk8
// ---------------------------------------------------------------- std, by contract
#[verifier::external_body]
pub struct String { _p: Vec<u8> }
pub uninterp spec fn sb(s: &String) -> Seq<u8>;
impl String {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == sb(self), { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == sb(&self), { unimplemented!() }
}
pub trait VBytes {
    spec fn vb(&self) -> Seq<u8>;
    fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vb();
}
impl VBytes for [u8] {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl<const N: usize> VBytes for [u8; N] {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VBytes for Vec<u8> {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait VCmp {
    spec fn vl(&self) -> Seq<u8>;
    fn vcmp(&self, o: &[u8]) -> (r: Ordering) ensures r == lex(self.vl(), o@);
    fn vcopy_from_slice(&mut self, o: &[u8]) requires old(self).vl().len() == o@.len(), ensures final(self).vl() == o@;
}
impl<const N: usize> VCmp for [u8; N] {
    open spec fn vl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vcmp(&self, o: &[u8]) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn vcopy_from_slice(&mut self, o: &[u8]) { unimplemented!() }
}
impl VCmp for [u8] {
    open spec fn vl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vcmp(&self, o: &[u8]) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn vcopy_from_slice(&mut self, o: &[u8]) { unimplemented!() }
}
pub trait VInt: Sized {
    fn vto_be_bytes(self) -> (r: [u8; 8]) ensures r@ == be(8, self.vn());
    spec fn vn(self) -> nat;
    fn vfrom_le_bytes(b: [u8; 8]) -> (r: Self) ensures r.vn() == leval(b@);
}
impl VInt for u64 {
    open spec fn vn(self) -> nat { self as nat }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body]
    fn vfrom_le_bytes(b: [u8; 8]) -> (r: Self) { unimplemented!() }
}
/// the number that these bytes are, the lowest first
pub open spec fn leval(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { s[0] as nat + 256 * leval(s.skip(1)) } }
pub open spec fn le8(v: nat) -> Seq<u8> { be(8, v).reverse() }
pub open spec fn nchunks(n: int, k: int) -> int { (n + k - 1) / k }
#[verifier::external_body]
pub fn vchunks(s: &[u8], k: usize) -> (r: usize) requires k > 0, ensures r == nchunks(s@.len() as int, k as int), { unimplemented!() }
#[verifier::external_body]
pub fn vchunk(s: &[u8], k: usize, i: usize) -> (r: &[u8])
    requires k > 0, i < nchunks(s@.len() as int, k as int),
    ensures r@ == s@.subrange(i * k, if (i + 1) * k <= s@.len() { (i + 1) * k } else { s@.len() as int }),
{ unimplemented!() }
// ---------------------------------------------------------------- the hash
pub open spec fn xs(a: u64) -> u64 {
    let x = a ^ (a >> 12u64);
    let y = x ^ (x << 25u64);
    y ^ (y >> 27u64)
}
pub open spec fn wadd(a: u64, b: nat) -> u64 { ((a + b) % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn bigval(s: Seq<u8>) -> u64
    decreases s.len()
{ if s.len() == 0 { 0 } else { (bigval(s.drop_last()) << 8u64) | (s.last() as u64) } }
pub open spec fn mwrite(h: u64, s: Seq<u8>) -> u64
    decreases s.len()
{
    if s.len() == 0 { h }
    else if s.len() >= 8 { mwrite(xs(wadd(h, leval(s.take(8)))), s.skip(8)) }
    else { xs(wadd(h, bigval(s) as nat)) }
}
/// the hash is a function of the stored bytes
pub open spec fn hash_of(b: Seq<u8>) -> u64 { mwrite(mwrite(0, le8(b.len())), b) }
/// what is left after n chunks of 8
pub open spec fn rest8(b: Seq<u8>, n: int) -> Seq<u8> { if 8 * n <= b.len() { b.skip(8 * n) } else { Seq::empty() } }
proof fn rest_step(b: Seq<u8>, i: int)
    requires 0 <= i < nchunks(b.len() as int, 8),
    ensures ({
        let r = rest8(b, i);
        let c = b.subrange(i * 8, if (i + 1) * 8 <= b.len() { (i + 1) * 8 } else { b.len() as int });
        &&& r.len() > 0
        &&& r.len() >= 8 ==> c.len() == 8 && c == r.take(8) && rest8(b, i + 1) == r.skip(8)
        &&& r.len() < 8 ==> c == r && rest8(b, i + 1).len() == 0
    }),
{
    let r = rest8(b, i);
    let c = b.subrange(i * 8, if (i + 1) * 8 <= b.len() { (i + 1) * 8 } else { b.len() as int });
    if r.len() >= 8 {
        assert(c =~= r.take(8));
        assert(rest8(b, i + 1) =~= r.skip(8));
    } else {
        assert(c =~= r);
    }
}
pub struct MyHasher(pub u64);
//@ file src/lib.rs
//@ derives MyHasher Default
impl MyHasher {
    pub fn default() -> (r: Self) ensures r.0 == 0, { MyHasher(0) }
//@ fn Hasher for MyHasher::finish as finish
    ensures ret == self.0,
//@ end
//@ fn Hasher for MyHasher::write as write
    ensures final(self).0 == mwrite(old(self).0, bytes@),
//@ loop 0
    invariant mwrite(self.0, rest8(bytes@, i_ as int)) == mwrite(old(self).0, bytes@),
//@ loopstart 0
    proof { rest_step(bytes@, i_ as int); }
//@ loop 1
    invariant a == bigval(chunk8@.take(i_ as int)),
//@ loopend 1
    assert(chunk8@.take(i_ + 1).drop_last() =~= chunk8@.take(i_ as int));
//@ loopend 0
    assert(chunk8@.take(chunk8@.len() as int) =~= chunk8@);
    assert(chunk8@.take(8) =~= chunk8@ || chunk8@.len() < 8);
//@ start
    assert(rest8(bytes@, 0) =~= bytes@);
//@ end
}
//@ fn _xorshift64s
    ensures ret == xs(a),
//@ end

//@ file src/filedb/dbmap/kt_dbstring.rs
//@ derives DbString Clone PartialEq Eq PartialOrd Ord Hash Default
pub struct DbString(pub Vec<u8>);
impl DbString {
//@ fn DbMapKeyType for DbString::from_bytes as from_bytes
    ensures ret.0@ == bytes@,
//@ end
//@ fn DbMapKeyType for DbString::as_bytes as as_bytes
    ensures ret@ == self.0@,
//@ end
//@ fn DbMapKeyType for DbString::cmp_u8 as cmp_u8
    ensures ret == lex(self.0@, other@),
//@ end
//@ fn From for DbString::from @=From<&[u8]> as from_slice
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbString::from @=From<Vec<u8>> as from_vec
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbString::from @=From<&str> as from_str
    ensures ret.0@ == a.spec_bytes(),
//@ end
//@ fn From for DbString::from @=From<String> as from_string
    ensures ret.0@ == sb(&a),
//@ end
//@ fn From for DbString::from @=From<&String> as from_string_ref
    ensures ret.0@ == sb(a),
//@ end
//@ fn From for DbString::from @=From<&[u8;N]> as from_array
//@ sig pub fn from_array<const N: usize>(a: &[u8; N]) -> (ret: Self)
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbString::from @=From<u64> as from_u64
    ensures ret.0@ == be(8, a as nat),
//@ end
//@ fn From for DbString::from @=From<&u64> as from_u64_ref
    ensures ret.0@ == be(8, *a as nat),
//@ end
//@ fn From for DbString::from @=From<&DbString> as from_key
    ensures ret.0@ == a.0@,
//@ end
//@ fn Deref for DbString::deref as deref
//@ sig pub fn deref(&self) -> (ret: &[u8])
    ensures ret@ == self.0@,
//@ end
    // derived (checked above): hashes the length and the bytes
    #[verifier::external_body]
    fn hash(&self, h: &mut MyHasher)
        ensures final(h).0 == mwrite(mwrite(old(h).0, le8(self.0@.len())), self.0@),
    { unimplemented!() }
//@ file src/lib.rs
//@ fn trait HashValue::hash_value
    ensures ret == hash_of(self.0@),
//@ end
}
//@ file src/filedb/dbmap/kt_dbint.rs
//@ derives DbInt Clone PartialEq Eq PartialOrd Ord Hash Default
pub struct DbInt(pub Vec<u8>);
impl DbInt {
//@ fn DbMapKeyType for DbInt::from_bytes as from_bytes
    ensures ret.0@ == bytes@,
//@ end
//@ fn DbMapKeyType for DbInt::as_bytes as as_bytes
    ensures ret@ == self.0@,
//@ end
//@ fn DbMapKeyType for DbInt::cmp_u8 as cmp_u8
    ensures ret == lex(self.0@, other@),
//@ end
//@ fn From for DbInt::from @=From<&[u8]> as from_slice
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbInt::from @=From<Vec<u8>> as from_vec
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbInt::from @=From<&str> as from_str
    ensures ret.0@ == a.spec_bytes(),
//@ end
//@ fn From for DbInt::from @=From<String> as from_string
    ensures ret.0@ == sb(&a),
//@ end
//@ fn From for DbInt::from @=From<&String> as from_string_ref
    ensures ret.0@ == sb(a),
//@ end
//@ fn From for DbInt::from @=From<&[u8;N]> as from_array
//@ sig pub fn from_array<const N: usize>(a: &[u8; N]) -> (ret: Self)
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbInt::from @=From<u64> as from_u64
    ensures ret.0@ == be(8, a as nat),
//@ end
//@ fn From for DbInt::from @=From<&u64> as from_u64_ref
    ensures ret.0@ == be(8, *a as nat),
//@ end
//@ fn From for DbInt::from @=From<&DbInt> as from_key
    ensures ret.0@ == a.0@,
//@ end
//@ fn Deref for DbInt::deref as deref
//@ sig pub fn deref(&self) -> (ret: &[u8])
    ensures ret@ == self.0@,
//@ end
    // derived (checked above): hashes the length and the bytes
    #[verifier::external_body]
    fn hash(&self, h: &mut MyHasher)
        ensures final(h).0 == mwrite(mwrite(old(h).0, le8(self.0@.len())), self.0@),
    { unimplemented!() }
//@ file src/lib.rs
//@ fn trait HashValue::hash_value
    ensures ret == hash_of(self.0@),
//@ end
}
//@ file src/filedb/dbmap/kt_dbbytes.rs
//@ derives DbBytes Clone PartialEq Eq PartialOrd Ord Hash Default
pub struct DbBytes(pub Vec<u8>);
impl DbBytes {
//@ fn DbMapKeyType for DbBytes::from_bytes as from_bytes
    ensures ret.0@ == bytes@,
//@ end
//@ fn DbMapKeyType for DbBytes::as_bytes as as_bytes
    ensures ret@ == self.0@,
//@ end
//@ fn DbMapKeyType for DbBytes::cmp_u8 as cmp_u8
    ensures ret == lex(self.0@, other@),
//@ end
//@ fn From for DbBytes::from @=From<&[u8]> as from_slice
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbBytes::from @=From<Vec<u8>> as from_vec
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbBytes::from @=From<&str> as from_str
    ensures ret.0@ == a.spec_bytes(),
//@ end
//@ fn From for DbBytes::from @=From<String> as from_string
    ensures ret.0@ == sb(&a),
//@ end
//@ fn From for DbBytes::from @=From<&String> as from_string_ref
    ensures ret.0@ == sb(a),
//@ end
//@ fn From for DbBytes::from @=From<&[u8;N]> as from_array
//@ sig pub fn from_array<const N: usize>(a: &[u8; N]) -> (ret: Self)
    ensures ret.0@ == a@,
//@ end
//@ fn From for DbBytes::from @=From<u64> as from_u64
    ensures ret.0@ == be(8, a as nat),
//@ end
//@ fn From for DbBytes::from @=From<&u64> as from_u64_ref
    ensures ret.0@ == be(8, *a as nat),
//@ end
//@ fn From for DbBytes::from @=From<&DbBytes> as from_key
    ensures ret.0@ == a.0@,
//@ end
//@ fn Deref for DbBytes::deref as deref
//@ sig pub fn deref(&self) -> (ret: &[u8])
    ensures ret@ == self.0@,
//@ end
    // derived (checked above): hashes the length and the bytes
    #[verifier::external_body]
    fn hash(&self, h: &mut MyHasher)
        ensures final(h).0 == mwrite(mwrite(old(h).0, le8(self.0@.len())), self.0@),
    { unimplemented!() }
//@ file src/lib.rs
//@ fn trait HashValue::hash_value
    ensures ret == hash_of(self.0@),
//@ end
}

}
fn main() {}
