//@ include head.rs
use vstd::string::StringSliceAdditionalSpecFns;
verus! {
//@ include base.rs
//@ nogenerics on
//@ resultmap on
//@ vecloops on
//@ rename clone vclone
//@ rename to_vec vto_vec
// ---------------------------------------------------------------- the user's keys
/// a key as the user gives it (any Q with KT: From<&Q>)
#[verifier::external_body]
pub struct Q { _p: Vec<u8> }
/// the bytes it is stored as
pub uninterp spec fn qb(q: &Q) -> Seq<u8>;
pub uninterp spec fn qcmp(a: &Q, b: &Q) -> Ordering;
/// keys stored as the same bytes are equal (key types, C10)
pub broadcast axiom fn qcmp_eq(a: &Q, b: &Q)
    ensures qb(a) == qb(b) ==> #[trigger] qcmp(a, b) == Ordering::Equal;
impl PartialEqSpecImpl for Q { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Q) -> bool { qcmp(self, o) == Ordering::Equal } }
impl PartialEq for Q { #[verifier::external_body] fn eq(&self, o: &Q) -> bool { unimplemented!() } }
impl Eq for Q {}
impl PartialOrdSpecImpl for Q { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Q) -> Option<Ordering> { Some(qcmp(self, o)) } }
impl PartialOrd for Q { #[verifier::external_body] fn partial_cmp(&self, o: &Q) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for Q { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Q) -> Ordering { qcmp(self, o) } }
impl Ord for Q { #[verifier::external_body] fn cmp(&self, o: &Q) -> Ordering { unimplemented!() } }
#[verifier::external_body]
pub struct KT { _p: Vec<u8> }
pub uninterp spec fn kb(k: &KT) -> Seq<u8>;
pub uninterp spec fn kt_of(q: &Q) -> KT;
pub broadcast axiom fn kt_of_b(q: &Q)
    ensures #[trigger] kb(&kt_of(q)) == qb(q);
impl vstd::std_specs::convert::FromSpecImpl<&Q> for KT {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(q: &Q) -> KT { kt_of(q) }
}
impl From<&Q> for KT { #[verifier::external_body] fn from(q: &Q) -> KT { unimplemented!() } }
// ---------------------------------------------------------------- texts
#[verifier::external_body]
pub struct String { _p: Vec<u8> }
#[verifier::external_body]
pub struct Text { _p: Vec<u8> }
#[verifier::external_body]
pub struct Cow { _p: Vec<u8> }
pub uninterp spec fn sb(s: &String) -> Seq<u8>;
pub uninterp spec fn txb(s: &Text) -> Seq<u8>;
/// the text that from_utf8_lossy makes of bytes
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn cowb(c: &Cow) -> Seq<u8>;
impl String {
    #[verifier::external_body]
    pub fn from_utf8_lossy(b: &Vec<u8>) -> (r: Cow) ensures cowb(&r) == lossy(b@), { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == sb(self), { unimplemented!() }
}
impl Cow {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures sb(&r) == cowb(self), { unimplemented!() }
}
impl Text {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == txb(self), { unimplemented!() }
}
// ---------------------------------------------------------------- slices and vectors, by contract
pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
pub trait SCmp { spec fn scmp(&self, o: &Self) -> Ordering; }
impl SCmp for Q { open spec fn scmp(&self, o: &Q) -> Ordering { qcmp(self, o) } }
impl SCmp for usize { open spec fn scmp(&self, o: &usize) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } } }
/// clone gives an equal value
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl VClone for Option<Vec<u8>> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn vtake<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{ unimplemented!() }
/// p says where the elements of r were in o, q where those of o went
pub open spec fn perm<T>(o: Seq<T>, r: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& r.len() == o.len() && p.len() == o.len() && q.len() == o.len()
    &&& forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] p[i] < o.len() && r[i] == o[p[i]] && q[p[i]] == i
    &&& forall|j: int| 0 <= j < o.len() ==> 0 <= #[trigger] q[j] < o.len() && p[q[j]] == j
}
/// in order for the comparison f; if stable, equal ones are in the order they came in
pub open spec fn in_order<T, F: Fn(&T, &T) -> Ordering>(r: Seq<T>, p: Seq<int>, f: F, stable: bool) -> bool {
    forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> exists|c: Ordering| #[trigger] f.ensures((&r[i], &r[j]), c) && c != Ordering::Greater && (stable && c == Ordering::Equal ==> p[i] < p[j])
}
pub open spec fn sorted_by<T, F: Fn(&T, &T) -> Ordering>(o: Seq<T>, r: Seq<T>, f: F, stable: bool) -> bool {
    exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(o, r, p, q) && in_order(r, p, f, stable)
}
pub trait VVec<T> {
    spec fn vs(&self) -> Seq<T>;
    fn vsort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| f.requires((a, b)),
        ensures sorted_by(old(self).vs(), final(self).vs(), f, true);
    fn vsort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| f.requires((a, b)),
        ensures sorted_by(old(self).vs(), final(self).vs(), f, false);
    fn vmap_collect<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>)
        requires forall|a: &T| f.requires((a,)),
        ensures r@.len() == self.vs().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.vs()[i],), #[trigger] r@[i]);
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vsort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vsort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vmap_collect<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
}
pub trait VSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    fn venum_map_copy<U, F: Fn(usize, T) -> U>(&self, f: F) -> (r: Vec<U>)
        requires forall|i: usize, a: T| f.requires((i, a)),
        ensures r@.len() == self.sv().len(), r@.len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> f.ensures((i as usize, self.sv()[i]), #[trigger] r@[i]);
    fn vto_vec(&self) -> (r: Vec<T>)
        ensures r@ == self.sv();
}
impl<T> VSlice<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn venum_map_copy<U, F: Fn(usize, T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
// ---------------------------------------------------------------- one after the other
pub type M = Map<Seq<u8>, Seq<u8>>;
pub open spec fn mget(m: M, k: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn ov(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn os(o: Option<String>) -> Option<Seq<u8>> { match o { Some(v) => Some(sb(&v)), None => None } }
pub open spec fn olossy(o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(lossy(v)), None => None } }
/// the map after putting these, in this order
pub open spec fn puts(m: M, s: Seq<(Seq<u8>, Seq<u8>)>) -> M
    decreases s.len()
{ if s.len() == 0 { m } else { puts(m, s.drop_last()).insert(s.last().0, s.last().1) } }
/// the map after deleting these, in this order
pub open spec fn dels(m: M, s: Seq<Seq<u8>>) -> M
    decreases s.len()
{ if s.len() == 0 { m } else { dels(m, s.drop_last()).remove(s.last()) } }
pub open spec fn kvs(b: Seq<(&Q, &[u8])>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(b.len(), |i: int| (qb(b[i].0), b[i].1@)) }
pub open spec fn kss(b: Seq<(&Q, String)>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(b.len(), |i: int| (qb(b[i].0), sb(&b[i].1))) }
pub open spec fn ks(b: Seq<&Q>) -> Seq<Seq<u8>> { Seq::new(b.len(), |i: int| qb(b[i])) }
pub open spec fn iks(b: Seq<(usize, &Q)>) -> Seq<Seq<u8>> { Seq::new(b.len(), |i: int| qb(b[i].1)) }
/// r is s reordered, and what has the same key keeps its order
pub open spec fn reordered<T>(s: Seq<(Seq<u8>, T)>, r: Seq<(Seq<u8>, T)>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& perm(s, r, p, q)
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() && r[i].0 == r[j].0 ==> p[i] < p[j]
}
pub open spec fn kept<T>(r: Seq<(&Q, T)>, p: Seq<int>) -> bool {
    forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() && qb(r[i].0) == qb(r[j].0) ==> p[i] < p[j]
}
proof fn kvs_reordered(s: Seq<(&Q, &[u8])>, r: Seq<(&Q, &[u8])>, p: Seq<int>, q: Seq<int>)
    requires perm(s, r, p, q), kept(r, p),
    ensures reordered(kvs(s), kvs(r), p, q),
{
    assert forall|i: int, j: int| #![trigger kvs(r)[i], kvs(r)[j]] 0 <= i < j < r.len() && kvs(r)[i].0 == kvs(r)[j].0 implies p[i] < p[j] by { assert(qb(r[i].0) == qb(r[j].0)); }
}
proof fn kss_reordered(s: Seq<(&Q, String)>, r: Seq<(&Q, String)>, p: Seq<int>, q: Seq<int>)
    requires perm(s, r, p, q), kept(r, p),
    ensures reordered(kss(s), kss(r), p, q),
{
    assert forall|i: int, j: int| #![trigger kss(r)[i], kss(r)[j]] 0 <= i < j < r.len() && kss(r)[i].0 == kss(r)[j].0 implies p[i] < p[j] by { assert(qb(r[i].0) == qb(r[j].0)); }
}
/// the last one that puts k decides
proof fn puts_at(m: M, s: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>, i: int)
    requires
        -1 <= i < s.len(), i >= 0 ==> s[i].0 == k,
        forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != k,
    ensures mget(puts(m, s), k) == if i < 0 { mget(m, k) } else { Some(s[i].1) },
    decreases s.len(),
{
    if s.len() > 0 && i != s.len() - 1 {
        let t = s.drop_last();
        assert(forall|j: int| i < j < t.len() ==> (#[trigger] t[j]) == s[j]);
        puts_at(m, t, k, i);
        assert(s[s.len() - 1].0 != k);
    }
}
spec fn last_of(s: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else if s.last().0 == k { s.len() - 1 } else { last_of(s.drop_last(), k) } }
proof fn last_of_is(s: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>)
    ensures ({
        let i = last_of(s, k);
        &&& -1 <= i < s.len() && (i >= 0 ==> s[i].0 == k)
        &&& forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != k
    }),
    decreases s.len(),
{
    if s.len() > 0 && s.last().0 != k {
        let t = s.drop_last();
        last_of_is(t, k);
        assert forall|j: int| last_of(s, k) < j < s.len() implies (#[trigger] s[j]).0 != k by { if j < t.len() { assert(t[j] == s[j]); } }
    }
}
proof fn puts_reordered(m: M, s: Seq<(Seq<u8>, Seq<u8>)>, r: Seq<(Seq<u8>, Seq<u8>)>, p: Seq<int>, q: Seq<int>)
    requires reordered(s, r, p, q),
    ensures puts(m, r) == puts(m, s),
{
    let a = puts(m, s);
    let b = puts(m, r);
    assert forall|k: Seq<u8>| mget(a, k) == mget(b, k) by {
        last_of_is(r, k);
        let i = last_of(r, k);
        puts_at(m, r, k, i);
        let l = if i < 0 { -1 } else { p[i] };
        assert forall|j: int| l < j < s.len() implies (#[trigger] s[j]).0 != k by {
            if s[j].0 == k {
                let n = q[j];
                assert(p[n] == j);
                assert(r[n] == s[j]);
                assert(n <= i);
                if n < i { assert(p[n] < p[i]); }
            }
        }
        puts_at(m, s, k, l);
    }
    assert forall|k: Seq<u8>| #[trigger] a.contains_key(k) == b.contains_key(k) by { assert(mget(a, k) == mget(b, k)); }
    assert forall|k: Seq<u8>| a.contains_key(k) implies #[trigger] a[k] == b[k] by { assert(mget(a, k) == mget(b, k)); }
    assert(a =~= b);
}
/// deleted once is deleted
proof fn dels_at(m: M, s: Seq<Seq<u8>>, k: Seq<u8>)
    ensures mget(dels(m, s), k) == if s.contains(k) { None } else { mget(m, k) },
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        dels_at(m, t, k);
        if s.contains(k) {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == k;
            if s.last() != k { assert(t[j] == k); }
        } else {
            assert(s[s.len() - 1] != k);
            if t.contains(k) { let j = choose|j: int| 0 <= j < t.len() && t[j] == k; assert(s[j] == k); }
        }
    }
}
/// what deleting ks[i] gives, after the ones before it
pub open spec fn del_res(m: M, s: Seq<Seq<u8>>, i: int) -> Option<Seq<u8>> { mget(dels(m, s.take(i)), s[i]) }
pub open spec fn same_keys_in_order(s: Seq<Seq<u8>>, r: Seq<Seq<u8>>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& perm(s, r, p, q)
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() && r[i] == r[j] ==> p[i] < p[j]
}
proof fn dels_reordered(m: M, s: Seq<Seq<u8>>, r: Seq<Seq<u8>>, p: Seq<int>, q: Seq<int>)
    requires same_keys_in_order(s, r, p, q),
    ensures dels(m, r) == dels(m, s), forall|j: int| 0 <= j < r.len() ==> #[trigger] del_res(m, r, j) == del_res(m, s, p[j]),
{
    let a = dels(m, s);
    let b = dels(m, r);
    assert forall|k: Seq<u8>| mget(a, k) == mget(b, k) by {
        dels_at(m, s, k);
        dels_at(m, r, k);
        if s.contains(k) { let j = choose|j: int| 0 <= j < s.len() && s[j] == k; let n = q[j]; assert(p[n] == j); assert(r[n] == k); }
        if r.contains(k) { let j = choose|j: int| 0 <= j < r.len() && r[j] == k; assert(s[p[j]] == k); }
    }
    assert forall|k: Seq<u8>| #[trigger] a.contains_key(k) == b.contains_key(k) by { assert(mget(a, k) == mget(b, k)); }
    assert forall|k: Seq<u8>| a.contains_key(k) implies #[trigger] a[k] == b[k] by { assert(mget(a, k) == mget(b, k)); }
    assert(a =~= b);
    assert forall|j: int| 0 <= j < r.len() implies #[trigger] del_res(m, r, j) == del_res(m, s, p[j]) by {
        let k = r[j];
        let u = r.take(j);
        let v = s.take(p[j]);
        dels_at(m, u, k);
        dels_at(m, v, k);
        if u.contains(k) {
            let i = choose|i: int| 0 <= i < u.len() && u[i] == k;
            assert(r[i] == r[j]);
            assert(p[i] < p[j]);
            assert(v[p[i]] == k);
        }
        if v.contains(k) {
            let i0 = choose|i: int| 0 <= i < v.len() && v[i] == k;
            assert(s[i0] == k);
            let i = q[i0];
            assert(p[i] == i0);
            assert(r[i] == k);
            if i > j { assert(p[j] < p[i]); }
            assert(u[i] == k);
        }
    }
}
/// n different numbers below n in ascending order are 0, 1, ..
proof fn ascending_is_identity(s: Seq<int>, i: int)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j], 0 <= i < s.len(),
    ensures s[i] == i,
{
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] >= k by { low(s, k); }
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] <= k by { high(s, k); }
}
proof fn low(s: Seq<int>, k: int)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j], 0 <= k < s.len(),
    ensures s[k] >= k,
    decreases k,
{ if k > 0 { low(s, k - 1); assert(s[k - 1] < s[k]); } }
proof fn high(s: Seq<int>, k: int)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j], 0 <= k < s.len(),
    ensures s[k] <= k,
    decreases s.len() - k,
{ if k < s.len() - 1 { high(s, k + 1); assert(s[k] < s[k + 1]); } }
/// the answers, each with the number of its request
pub open spec fn answers(res: Seq<(usize, Option<Vec<u8>>)>, want: spec_fn(int) -> Option<Seq<u8>>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& p.len() == res.len() && q.len() == res.len()
    &&& forall|i: int| 0 <= i < res.len() ==> 0 <= #[trigger] p[i] < res.len() && q[p[i]] == i && res[i].0 == p[i] && ov(res[i].1) == want(p[i])
}
pub open spec fn by_number(r: Seq<(usize, Option<Vec<u8>>)>) -> bool {
    forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].0 <= r[j].0
}
/// put in the order of their numbers they are in the positions of their requests
proof fn in_place(a: Seq<(usize, Option<Vec<u8>>)>, r: Seq<(usize, Option<Vec<u8>>)>, want: spec_fn(int) -> Option<Seq<u8>>, p: Seq<int>, q: Seq<int>, p2: Seq<int>, q2: Seq<int>)
    requires answers(a, want, p, q), perm(a, r, p2, q2), by_number(r),
    ensures forall|i: int| 0 <= i < r.len() ==> ov((#[trigger] r[i]).1) == want(i),
{
    let s = Seq::new(r.len(), |i: int| r[i].0 as int);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < s.len() && s[i] == p[p2[i]] && r[i] == a[p2[i]] by { let j = p2[i]; assert(0 <= p[j] < r.len()); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] < s[j] by {
        assert(r[i].0 <= r[j].0);
        if s[i] == s[j] {
            let (x, y) = (p2[i], p2[j]);
            assert(p[x] == s[i] && p[y] == s[j]);
            assert(q[p[x]] == x && q[p[y]] == y);
            assert(q2[x] == i && q2[y] == j);
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies ov((#[trigger] r[i]).1) == want(i) by {
        ascending_is_identity(s, i);
        let j = p2[i];
        assert(r[i] == a[j]);
        assert(p[j] == s[i]);
    }
}

pub open spec fn kept2(r: Seq<(usize, &Q)>, p: Seq<int>) -> bool {
    forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() && qb(r[i].1) == qb(r[j].1) ==> p[i] < p[j]
}
pub open spec fn numbered(b: Seq<&Q>, req: Seq<(usize, &Q)>) -> bool {
    req.len() == b.len() && b.len() <= usize::MAX && forall|i: int| 0 <= i < req.len() ==> #[trigger] req[i] == (i as usize, b[i])
}
/// answered from the last of v0 to its first
proof fn requests_backwards(b: Seq<&Q>, req: Seq<(usize, &Q)>, v0: Seq<(usize, &Q)>, p: Seq<int>, q: Seq<int>, res: Seq<(usize, Option<Vec<u8>>)>, want: spec_fn(int) -> Option<Seq<u8>>)
    requires numbered(b, req), perm(req, v0, p, q), res.len() == v0.len(),
        forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]).0 == v0[v0.len() - 1 - j].0 && ov(res[j].1) == want(p[v0.len() - 1 - j]),
    ensures exists|p2: Seq<int>, q2: Seq<int>| #[trigger] answers(res, want, p2, q2),
{
    let n = v0.len();
    let p2 = Seq::new(n, |j: int| p[n - 1 - j]);
    let q2 = Seq::new(n, |j: int| n - 1 - q[j]);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] p2[i] < n && q2[p2[i]] == i && res[i].0 == p2[i] && ov(res[i].1) == want(p2[i]) by {
        let j = n - 1 - i;
        assert(0 <= p[j] < n && v0[j] == req[p[j]]);
    }
    assert(answers(res, want, p2, q2));
}
proof fn requests_reordered(m: M, b: Seq<&Q>, req: Seq<(usize, &Q)>, v0: Seq<(usize, &Q)>, p: Seq<int>, q: Seq<int>, res: Seq<(usize, Option<Vec<u8>>)>, want: spec_fn(int) -> Option<Seq<u8>>)
    requires numbered(b, req), perm(req, v0, p, q), kept2(v0, p), res.len() == v0.len(),
        forall|i: int| #[trigger] want(i) == del_res(m, ks(b), i),
        forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]).0 == v0[j].0 && ov(res[j].1) == del_res(m, iks(v0), j),
    ensures exists|p2: Seq<int>, q2: Seq<int>| #[trigger] answers(res, want, p2, q2), dels(m, iks(v0)) == dels(m, ks(b)),
{
    let (s, r) = (ks(b), iks(v0));
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] p[i] < s.len() && r[i] == s[p[i]] && q[p[i]] == i by { assert(v0[i] == req[p[i]]); }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() && r[i] == r[j] implies p[i] < p[j] by { assert(qb(v0[i].1) == qb(v0[j].1)); }
    dels_reordered(m, s, r, p, q);
    assert forall|i: int| 0 <= i < res.len() implies 0 <= #[trigger] p[i] < res.len() && q[p[i]] == i && res[i].0 == p[i] && ov(res[i].1) == want(p[i]) by {
        assert(v0[i] == req[p[i]]);
        assert(del_res(m, r, i) == del_res(m, s, p[i]));
    }
    assert(answers(res, want, p, q));
}

// ---------------------------------------------------------------- lib.rs
/// a map behind the contracts of get, put and delete (C01)
pub struct Db { pub m: Ghost<M> }
impl Db {
    #[verifier::external_body]
    pub fn get_kt(&mut self, key: &KT) -> (ret: Result<Option<Vec<u8>>>)
        ensures final(self).m@ == old(self).m@, ret is Ok ==> ov(ret->Ok_0) == mget(old(self).m@, kb(key)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_kt(&mut self, key: &KT, value: &[u8]) -> (ret: Result<()>)
        ensures ret is Ok ==> final(self).m@ == old(self).m@.insert(kb(key), value@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn del_kt(&mut self, key: &KT) -> (ret: Result<Option<Vec<u8>>>)
        ensures ret is Ok ==> final(self).m@ == old(self).m@.remove(kb(key)) && ov(ret->Ok_0) == mget(old(self).m@, kb(key)),
    { unimplemented!() }
//@ file src/lib.rs
//@ fn trait DbXxx::get
    ensures final(self).m@ == old(self).m@, ret is Ok ==> ov(ret->Ok_0) == mget(old(self).m@, qb(key)),
//@ start
    broadcast use kt_of_b;
//@ end
//@ fn trait DbXxx::get_string
    ensures final(self).m@ == old(self).m@, ret is Ok ==> os(ret->Ok_0) == olossy(mget(old(self).m@, qb(key))),
//@ optmap 1
//@ end
//@ fn trait DbXxx::put
    ensures ret is Ok ==> final(self).m@ == old(self).m@.insert(qb(key), value@),
//@ start
    broadcast use kt_of_b;
//@ end
//@ fn trait DbXxx::put_string
    ensures ret is Ok ==> final(self).m@ == old(self).m@.insert(qb(key), value.spec_bytes()),
//@ end
//@ fn trait DbXxx::delete
    ensures ret is Ok ==> final(self).m@ == old(self).m@.remove(qb(key)) && ov(ret->Ok_0) == mget(old(self).m@, qb(key)),
//@ start
    broadcast use kt_of_b;
//@ end
//@ fn trait DbXxx::delete_string
    ensures ret is Ok ==> final(self).m@ == old(self).m@.remove(qb(key)) && os(ret->Ok_0) == olossy(mget(old(self).m@, qb(key))),
//@ optmap 1
//@ end
//@ fn trait DbXxx::bulk_put
    ensures ret is Ok ==> final(self).m@ == puts(old(self).m@, kvs(bulk@)),
//@ after sort_by 0
    broadcast use qcmp_eq;
    assert(exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(bulk@, vec@, p, q) && kept(vec@, p));
//@ loop 0
    invariant self.m@ == puts(old(self).m@, kvs(vec@).take(i_ as int)),
//@ loopend 0
    proof {
        let t = kvs(vec@).take(i_ + 1);
        assert(t.drop_last() =~= kvs(vec@).take(i_ as int));
    }
//@ tail
    proof {
        assert(kvs(vec@).take(vec@.len() as int) =~= kvs(vec@));
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(bulk@, vec@, p, q) && kept(vec@, p);
        kvs_reordered(bulk@, vec@, p, q);
        puts_reordered(old(self).m@, kvs(bulk@), kvs(vec@), p, q);
    }
//@ end
//@ fn trait DbXxx::bulk_put_string
    ensures ret is Ok ==> final(self).m@ == puts(old(self).m@, kss(bulk@)),
//@ after sort_by 0
    broadcast use qcmp_eq;
    assert(exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(bulk@, vec@, p, q) && kept(vec@, p));
//@ loop 0
    invariant self.m@ == puts(old(self).m@, kss(vec@).take(i_ as int)),
//@ loopend 0
    proof {
        let t = kss(vec@).take(i_ + 1);
        assert(t.drop_last() =~= kss(vec@).take(i_ as int));
    }
//@ tail
    proof {
        assert(kss(vec@).take(vec@.len() as int) =~= kss(vec@));
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(bulk@, vec@, p, q) && kept(vec@, p);
        kss_reordered(bulk@, vec@, p, q);
        puts_reordered(old(self).m@, kss(bulk@), kss(vec@), p, q);
    }
//@ end
//@ fn trait DbXxx::bulk_get
    ensures final(self).m@ == old(self).m@,
        ret is Ok ==> ret->Ok_0@.len() == bulk_keys@.len() && forall|i: int| 0 <= i < bulk_keys@.len() ==> ov(#[trigger] ret->Ok_0@[i]) == mget(old(self).m@, qb(bulk_keys@[i])),
//@ start
    let ghost want = |i: int| mget(old(self).m@, qb(bulk_keys@[i]));
//@ after collect 0
    let ghost req = vec@;
    assert(forall|i: int| 0 <= i < vec@.len() ==> #[trigger] vec@[i] == (i as usize, bulk_keys@[i]));
//@ after sort_unstable_by 0
    let ghost v0 = vec@;
    assert(exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(req, v0, p, q));
//@ loop 0
    invariant
        self.m@ == old(self).m@, vec@.len() + result@.len() == v0.len(), vec@ == v0.take(vec@.len() as int),
        forall|j: int| 0 <= j < result@.len() ==> (#[trigger] result@[j]).0 == v0[v0.len() - 1 - j].0 && ov(result@[j].1) == mget(old(self).m@, qb(v0[v0.len() - 1 - j].1)),
    ensures vec@.len() == 0,
    decreases vec@.len(),
//@ before sort_by 0
    let ghost res = result@;
    proof {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(req, v0, p, q);
        requests_backwards(bulk_keys@, req, v0, p, q, res, want);
    }
//@ after sort_by 0
    assert(exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(res, result@, p, q) && by_number(result@));
    proof {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] answers(res, want, p, q);
        let (p2, q2) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(res, result@, p, q) && by_number(result@);
        in_place(res, result@, want, p, q, p2, q2);
    }
//@ end
//@ fn trait DbXxx::bulk_delete
    ensures
        ret is Ok ==> final(self).m@ == dels(old(self).m@, ks(bulk_keys@)) && ret->Ok_0@.len() == bulk_keys@.len()
            && forall|i: int| 0 <= i < bulk_keys@.len() ==> ov(#[trigger] ret->Ok_0@[i]) == del_res(old(self).m@, ks(bulk_keys@), i),
//@ start
    let ghost want = |i: int| del_res(old(self).m@, ks(bulk_keys@), i);
    broadcast use qcmp_eq;
//@ after collect 0
    let ghost req = vec@;
    assert(forall|i: int| 0 <= i < vec@.len() ==> #[trigger] vec@[i] == (i as usize, bulk_keys@[i]));
//@ after sort_by 0
    let ghost v0 = vec@;
    assert(exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(req, v0, p, q) && kept2(v0, p));
//@ loop 0
    invariant
        self.m@ == dels(old(self).m@, iks(v0).take(i_ as int)), result@.len() == i_, vec@ == v0,
        forall|j: int| 0 <= j < result@.len() ==> (#[trigger] result@[j]).0 == v0[j].0 && ov(result@[j].1) == del_res(old(self).m@, iks(v0), j),
//@ loopend 0
    proof {
        let t = iks(v0).take(i_ + 1);
        assert(t.drop_last() =~= iks(v0).take(i_ as int));
    }
//@ before sort_by 1
    let ghost res = result@;
    proof {
        assert(iks(v0).take(v0.len() as int) =~= iks(v0));
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(req, v0, p, q) && kept2(v0, p);
        requests_reordered(old(self).m@, bulk_keys@, req, v0, p, q, res, want);
    }
//@ after sort_by 1
    assert(exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(res, result@, p, q) && by_number(result@));
    proof {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] answers(res, want, p, q);
        let (p2, q2) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(res, result@, p, q) && by_number(result@);
        in_place(res, result@, want, p, q, p2, q2);
    }
//@ end
//@ fn trait DbXxx::bulk_get_string
    ensures final(self).m@ == old(self).m@,
        ret is Ok ==> ret->Ok_0@.len() == bulk_keys@.len() && forall|i: int| 0 <= i < bulk_keys@.len() ==> os(#[trigger] ret->Ok_0@[i]) == olossy(mget(old(self).m@, qb(bulk_keys@[i]))),
//@ optmap 0
//@ loop 0
    invariant ret@.len() == i_, self.m@ == old(self).m@, vec@.len() == bulk_keys@.len(),
        forall|i: int| 0 <= i < vec@.len() ==> ov(#[trigger] vec@[i]) == mget(old(self).m@, qb(bulk_keys@[i])),
        forall|i: int| 0 <= i < i_ ==> os(#[trigger] ret@[i]) == olossy(ov(vec@[i])),
//@ end
//@ fn trait DbXxx::bulk_delete_string
    ensures
        ret is Ok ==> final(self).m@ == dels(old(self).m@, ks(bulk_keys@)) && ret->Ok_0@.len() == bulk_keys@.len()
            && forall|i: int| 0 <= i < bulk_keys@.len() ==> os(#[trigger] ret->Ok_0@[i]) == olossy(del_res(old(self).m@, ks(bulk_keys@), i)),
//@ optmap 0
//@ loop 0
    invariant ret@.len() == i_, self.m@ == dels(old(self).m@, ks(bulk_keys@)), vec@.len() == bulk_keys@.len(),
        forall|i: int| 0 <= i < vec@.len() ==> ov(#[trigger] vec@[i]) == del_res(old(self).m@, ks(bulk_keys@), i),
        forall|i: int| 0 <= i < i_ ==> os(#[trigger] ret@[i]) == olossy(ov(vec@[i])),
//@ end
}
}
fn main() {}
