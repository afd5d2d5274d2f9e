pub open spec fn eq_on(a: Seq<u8>, b: Seq<u8>, p: int, n: int) -> bool {
    forall|j: int| p <= j < p + n ==> #[trigger] a[j] == b[j]
}
/// writes that follow each other
pub proof fn put2(s: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= p <= s.len(),
    ensures put_at(put_at(s, p, a), p + a.len(), b) == put_at(s, p, a + b), p + a.len() <= put_at(s, p, a).len(),
        p + a.len() + b.len() <= put_at(s, p, a + b).len(), p + a.len() + b.len() <= s.len() ==> put_at(s, p, a + b).len() == s.len(),
{ assert(put_at(put_at(s, p, a), p + a.len(), b) =~= put_at(s, p, a + b)); }
