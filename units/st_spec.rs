// ---------------------------------------------------------------- counting
pub trait Ky { spec fn kv(self) -> int; }
impl Ky for Size { open spec fn kv(self) -> int { self.val as int } }
impl Ky for Length { open spec fn kv(self) -> int { self.val as int } }
impl Ky for Count { open spec fn kv(self) -> int { self.val as int } }
pub type Hist<K> = Seq<(K, u64)>;
/// the bins are in ascending order
pub open spec fn asc<K: Ky>(s: Hist<K>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() < (#[trigger] s[j]).0.kv()
}
/// a histogram: its bins in ascending order, none of them empty
pub open spec fn hist<K: Ky>(s: Hist<K>) -> bool {
    asc(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 >= 1
}
/// what s counts for y
pub open spec fn cval<K: Ky>(s: Hist<K>, y: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { cval(s.drop_last(), y) + if s.last().0.kv() == y { s.last().1 as int } else { 0 } } }
pub open spec fn b01(b: bool) -> int { if b { 1 } else { 0 } }
/// y counted once more
pub open spec fn once_more<K: Ky>(a: Hist<K>, b: Hist<K>, x: int) -> bool { forall|y: int| #[trigger] cval(b, y) == cval(a, y) + b01(x == y) }
pub proof fn cval_pos<K: Ky>(s: Hist<K>, y: int)
    ensures cval(s, y) >= 0,
    decreases s.len(),
{ if s.len() > 0 { cval_pos(s.drop_last(), y); } }
pub proof fn cval_at<K: Ky>(s: Hist<K>, i: int)
    requires 0 <= i < s.len(),
    ensures s[i].1 <= cval(s, s[i].0.kv()),
    decreases s.len(),
{
    let y = s[i].0.kv();
    cval_pos(s.drop_last(), y);
    if i < s.len() - 1 { cval_at(s.drop_last(), i); assert(s.drop_last()[i] == s[i]); }
}
pub proof fn cval_set<K: Ky>(s: Hist<K>, i: int, e: (K, u64), y: int)
    requires 0 <= i < s.len(), e.0 == s[i].0, e.1 == s[i].1 + 1,
    ensures cval(s.update(i, e), y) == cval(s, y) + b01(e.0.kv() == y),
    decreases s.len(),
{
    let t = s.update(i, e);
    if i < s.len() - 1 {
        cval_set(s.drop_last(), i, e, y);
        assert(t.drop_last() =~= s.drop_last().update(i, e));
    } else {
        assert(t.drop_last() =~= s.drop_last());
    }
}
pub proof fn cval_ins<K: Ky>(s: Hist<K>, i: int, e: (K, u64), y: int)
    requires 0 <= i <= s.len(), e.1 == 1,
    ensures cval(s.insert(i, e), y) == cval(s, y) + b01(e.0.kv() == y),
    decreases s.len(),
{
    let t = s.insert(i, e);
    if i < s.len() {
        cval_ins(s.drop_last(), i, e, y);
        assert(t.drop_last() =~= s.drop_last().insert(i, e));
        assert(t.last() == s.last());
    } else {
        assert(t.drop_last() =~= s);
    }
}
/// where x is, or where it goes
pub open spec fn found<K: Ky>(s: Hist<K>, x: K, r: core::result::Result<usize, usize>) -> bool {
    match r {
        Ok(i) => i < s.len() && s[i as int].0 == x,
        Err(i) => {
            &&& i <= s.len()
            &&& forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0.kv() < x.kv()
            &&& forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).0.kv() > x.kv()
        }
    }
}
pub trait Pairs<K: Ky> {
    spec fn prs(&self) -> Hist<K>;
    /// <[T]>::binary_search_by_key by the first of the pair
    fn bsearch_fst(&self, x: &K) -> (r: core::result::Result<usize, usize>)
        requires asc(self.prs()),
        ensures found(self.prs(), *x, r);
}
impl<K: Ky> Pairs<K> for Vec<(K, u64)> {
    open spec fn prs(&self) -> Hist<K> { self@ }
    #[verifier::external_body]
    fn bsearch_fst(&self, x: &K) -> (r: core::result::Result<usize, usize>) { unimplemented!() }
}
/// x counted at the place r
pub open spec fn tch<K: Ky>(s: Hist<K>, x: K, r: core::result::Result<usize, usize>) -> bool {
    match r {
        Ok(i) => (s[i as int].1 < u64::MAX ==> ({
            let t = s.update(i as int, (s[i as int].0, (s[i as int].1 + 1) as u64));
            hist(t) && once_more(s, t, x.kv())
        })) && s[i as int].1 <= cval(s, x.kv()),
        Err(i) => ({ let t = s.insert(i as int, (x, 1u64)); hist(t) && once_more(s, t, x.kv()) }),
    }
}
pub proof fn touched<K: Ky>(s: Hist<K>, x: K, r: core::result::Result<usize, usize>)
    requires hist(s), found(s, x, r),
    ensures tch(s, x, r),
{
    match r {
        Ok(i) => {
            cval_at(s, i as int);
            if s[i as int].1 < u64::MAX {
                let e = (s[i as int].0, (s[i as int].1 + 1) as u64);
                assert forall|y: int| #[trigger] cval(s.update(i as int, e), y) == cval(s, y) + b01(x.kv() == y) by { cval_set(s, i as int, e, y); }
            }
        }
        Err(i) => {
            assert forall|y: int| #[trigger] cval(s.insert(i as int, (x, 1u64)), y) == cval(s, y) + b01(x.kv() == y) by { cval_ins(s, i as int, (x, 1u64), y); }
        }
    }
}
// ---------------------------------------------------------------- bins of fixed sizes
pub type Bins = Seq<(u32, u64)>;
/// the bin of a size: its own, or the last one
pub open spec fn bin(s: Bins, x: u32) -> int
{ if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0 != x } else { s.len() - 1 } }
/// the place of the first of x, if there is one
pub open spec fn at(a: Bins, x: u32, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < a.len() && a[i as int].0 == x && forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).0 != x,
        None => forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 != x,
    }
}
pub trait PosFst {
    spec fn bns(&self) -> Bins;
    /// iter().position(..) by the first of the pair
    fn pos_fst(&self, x: u32) -> (r: Option<usize>)
        ensures at(self.bns(), x, r);
}
impl PosFst for Vec<(u32, u64)> {
    open spec fn bns(&self) -> Bins { self@ }
    #[verifier::external_body]
    fn pos_fst(&self, x: u32) -> (r: Option<usize>) { unimplemented!() }
}
/// the same bins
pub open spec fn alike(a: Bins, b: Bins) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 }
pub proof fn bin_alike(a: Bins, b: Bins, x: u32)
    requires alike(a, b), a.len() > 0,
    ensures bin(a, x) == bin(b, x), 0 <= bin(a, x) < a.len(),
{
    if exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == x {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == x;
        assert(b[i].0 == x);
        first(a, x, i);
        first(b, x, i);
        let (p, q) = (bin(a, x), bin(b, x));
        if p < q { assert(b[p].0 == a[p].0); }
        if q < p { assert(a[q].0 == b[q].0); }
    } else {
        if exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x; assert(a[i].0 == x); }
    }
}
proof fn first(a: Bins, x: u32, i: int)
    requires 0 <= i < a.len(), a[i].0 == x,
    ensures ({ let p = bin(a, x); 0 <= p < a.len() && a[p].0 == x && forall|j: int| 0 <= j < p ==> (#[trigger] a[j]).0 != x }),
    decreases i,
{
    if exists|j: int| 0 <= j < i && (#[trigger] a[j]).0 == x {
        let j = choose|j: int| 0 <= j < i && (#[trigger] a[j]).0 == x;
        first(a, x, j);
    } else {
        assert(0 <= i < a.len() && a[i].0 == x && forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).0 != x);
    }
}
pub proof fn bin_is(a: Bins, x: u32, r: Option<usize>)
    requires a.len() > 0, match r {
        Some(i) => i < a.len() && a[i as int].0 == x && forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).0 != x,
        None => forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 != x,
    },
    ensures bin(a, x) == match r { Some(i) => i as int, None => a.len() - 1 },
{ match r { Some(i) => { first(a, x, i as int); let p = bin(a, x); if p < i { assert(a[p].0 == x); } if i < p { assert(a[i as int].0 == x); } } None => {} } }
// ---------------------------------------------------------------- what a scan of the tree gives
pub type G = spec_fn(KeyPieceOffset) -> int;
/// how many of s measure y
pub open spec fn cnt(s: Seq<KeyPieceOffset>, g: G, y: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { cnt(s.drop_last(), g, y) + b01(g(s.last()) == y) } }
pub proof fn cnt_add(s: Seq<KeyPieceOffset>, t: Seq<KeyPieceOffset>, g: G, y: int)
    ensures cnt(s + t, g, y) == cnt(s, g, y) + cnt(t, g, y),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); }
    else { assert((s + t).drop_last() =~= s + t.drop_last()); cnt_add(s, t.drop_last(), g, y); }
}
pub proof fn cnt_one(x: KeyPieceOffset, g: G, y: int)
    ensures cnt(seq![x], g, y) == b01(g(x) == y),
{ assert(seq![x].drop_last() =~= Seq::empty()); reveal_with_fuel(cnt, 2); }
pub proof fn cnt_le(s: Seq<KeyPieceOffset>, g: G, y: int)
    ensures 0 <= cnt(s, g, y) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { cnt_le(s.drop_last(), g, y); } }
/// what the walk backwards has seen of t, at the place i
pub open spec fn sfx(t: Tree, i: int) -> Seq<KeyPieceOffset> { if t.leaf() { t.keys.skip(i) } else { from_kid(t, i) } }
pub open spec fn kid_seq(t: Tree, i: int) -> Seq<KeyPieceOffset> { if t.leaf() { Seq::empty() } else { inord(t.kids[i]) } }
pub proof fn sfx_last(t: Tree)
    requires t.bal(),
    ensures sfx(t, t.keys.len() as int) =~= kid_seq(t, t.keys.len() as int), sfx(t, 0) =~= inord(t),
{}
pub proof fn sfx_step(t: Tree, i: int)
    requires t.bal(), 0 <= i < t.keys.len(),
    ensures sfx(t, i) =~= kid_seq(t, i) + (seq![t.keys[i]] + sfx(t, i + 1)), sfx(t, i).len() == kid_seq(t, i).len() + 1 + sfx(t, i + 1).len(),
{ if t.leaf() { assert(t.keys.skip(i) =~= seq![t.keys[i]] + t.keys.skip(i + 1)); } }
pub proof fn sfx_le(t: Tree, i: int)
    requires t.bal(), 0 <= i <= t.keys.len(),
    ensures sfx(t, i).len() <= inord(t).len(),
    decreases i,
{ if i > 0 { sfx_le(t, i - 1); sfx_step(t, i - 1); } else { sfx_last(t); } }
/// the nodes of t that measure y
pub open spec fn ncnt(t: Tree, g: spec_fn(Tree) -> int, y: int) -> int
    decreases t, 1nat, 0nat
{ b01(g(t) == y) + nfrom(t, 0, g, y) }
pub open spec fn nfrom(t: Tree, i: int, g: spec_fn(Tree) -> int, y: int) -> int
    decreases t, 0nat, (t.kids.len() - i) as nat
{ if 0 <= i < t.kids.len() { ncnt(t.kids[i], g, y) + nfrom(t, i + 1, g, y) } else { 0 } }
pub open spec fn zg() -> spec_fn(Tree) -> int { |u: Tree| 0 }
/// how many nodes
pub open spec fn ntot(t: Tree) -> int { ncnt(t, zg(), 0) }
pub proof fn ncnt_le(t: Tree, g: spec_fn(Tree) -> int, y: int)
    ensures 0 <= ncnt(t, g, y) <= ntot(t),
    decreases t, 1nat, 0nat,
{ nfrom_le(t, 0, g, y); }
pub proof fn nfrom_le(t: Tree, i: int, g: spec_fn(Tree) -> int, y: int)
    ensures 0 <= nfrom(t, i, g, y) <= nfrom(t, i, zg(), 0),
    decreases t, 0nat, (t.kids.len() - i) as nat,
{ if 0 <= i < t.kids.len() { ncnt_le(t.kids[i], g, y); nfrom_le(t, i + 1, g, y); } }
/// there are no more nodes than keys, an empty root apart
pub proof fn ntot_le(t: Tree)
    requires t.bal(), t.fill(), t.keys.len() >= 1,
    ensures ntot(t) <= inord(t).len(),
    decreases t,
{ if t.leaf() { assert(nfrom(t, 0, zg(), 0) == 0); } else { nfrom_tot(t, 0); sfx_last(t); } }
proof fn nfrom_tot(t: Tree, i: int)
    requires t.bal(), t.fill(), !t.leaf(), 0 <= i <= t.keys.len(),
    ensures nfrom(t, i, zg(), 0) <= sfx(t, i).len() - (t.keys.len() - i),
    decreases t, t.kids.len() - i,
{
    ntot_le(t.kids[i]);
    if i < t.keys.len() { nfrom_tot(t, i + 1); sfx_step(t, i); } else { sfx_last(t); assert(nfrom(t, i + 1, zg(), 0) == 0); }
}
/// a walk can be made from the node in hand
pub open spec fn walk(n: NMap, node: IdxNode) -> bool {
    let t = tree_at(n, node.off());
    is_tree(n, node.off()) && sound(t) && node.nv() == t.nv()
}
pub open spec fn sound(t: Tree) -> bool {
    t.bal() && t.fill() && forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> x.val != 0
}
pub proof fn sound_kid(n: NMap, t: Tree, i: int)
    requires sound(t), t.rep(n), 0 <= i < t.kids.len(),
    ensures ({
        let c = t.kids[i];
        &&& sound(c) && c.rep(n) && tree_at(n, c.off) == c && is_tree(n, c.off) && c.off.val != 0 && n.dom().contains(c.off) && n[c.off] == c.nv() && c.keys.len() >= MINK
        &&& t.nv().downs[i] == c.off && t.kids.len() == t.keys.len() + 1 && c.ht() < t.ht() && c.ht() == t.kids[0].ht()
        &&& forall|x: KeyPieceOffset| #[trigger] c.has(x) ==> t.has(x)
    }),
{
    let c = t.kids[i];
    assert(c.rep(n));
    tree_at_is(n, c);
    assert(t.kids[i].ht() == t.kids[0].ht());
    assert forall|x: KeyPieceOffset| #[trigger] c.has(x) implies x.val != 0 && t.has(x) by { assert(t.kids[i].has(x)); assert(t.has(x)); }
}
pub proof fn walk_at(n: NMap, node: IdxNode)
    requires walk(n, node),
    ensures ({
        let t = tree_at(n, node.off());
        &&& t.rep(n) && t.off == node.off() && t.keys.len() <= MAXK && node.nv().downs.len() == t.keys.len() + 1 && node.nv().keys == t.keys
        &&& forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf()
        &&& forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i])
    }),
{
    let t = tree_at(n, node.off());
    let u = choose|u: Tree| u.off == node.off() && #[trigger] u.rep(n);
    assert forall|i: int| 0 <= i < node.nv().downs.len() implies ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf() by { if !t.leaf() { sound_kid(n, t, i); } }
    assert forall|i: int| 0 <= i < t.keys.len() implies (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]) by { assert(t.has(t.keys[i])); }
}
/// a tree of height h has at least 2^(h+1) - 1 keys
pub proof fn tall(t: Tree)
    requires t.bal(), t.fill(), t.keys.len() >= 1,
    ensures inord(t).len() + 1 >= vstd::arithmetic::power2::pow2(t.ht() + 1),
    decreases t,
{
    vstd::arithmetic::power2::lemma_pow2_unfold(t.ht() + 1);
    if t.leaf() { vstd::arithmetic::power2::lemma2_to64(); }
    else {
        let l = t.keys.len() as int;
        tall(t.kids[0]);
        tall(t.kids[l]);
        assert(t.kids[l].ht() == t.kids[0].ht());
        sfx_last(t);
        sfx_step(t, 0);
        sfx_tail(t, 1, l);
    }
}
proof fn sfx_tail(t: Tree, i: int, l: int)
    requires t.bal(), 0 <= i <= l, l == t.keys.len(),
    ensures sfx(t, l).len() <= sfx(t, i).len(),
    decreases l - i,
{ if i < l { sfx_step(t, i); sfx_tail(t, i + 1, l); } }

/// b is a with s counted, by the measure g
pub open spec fn counted<K: Ky>(a: Hist<K>, b: Hist<K>, s: Seq<KeyPieceOffset>, g: G) -> bool { forall|y: int| #[trigger] cval(b, y) == cval(a, y) + cnt(s, g, y) }
pub open spec fn ncounted<K: Ky>(a: Hist<K>, b: Hist<K>, c: spec_fn(int) -> int) -> bool { forall|y: int| #[trigger] cval(b, y) == cval(a, y) + c(y) }
/// no bin of b counts over n more than it does in a
pub open spec fn within<K: Ky>(a: Hist<K>, b: Hist<K>, n: int) -> bool { forall|y: int| #[trigger] cval(b, y) <= cval(a, y) + n }
/// there is room for n more
pub open spec fn room<K: Ky>(a: Hist<K>, n: int) -> bool { forall|y: int| #[trigger] cval(a, y) + n <= u64::MAX }
/// what f reads of the records of t is what g measures
pub open spec fn tells<K: Ky, F: Fn(KeyPieceOffset) -> Result<K>>(f: F, g: G, t: Tree) -> bool {
    forall|x: KeyPieceOffset, r: K| t.has(x) && #[trigger] f.ensures((x,), Ok(r)) ==> r.kv() == g(x)
}
pub open spec fn reads<K, F: Fn(KeyPieceOffset) -> Result<K>>(f: F, t: Tree) -> bool {
    forall|x: KeyPieceOffset| t.has(x) ==> #[trigger] f.requires((x,))
}
/// from the child i of t (and what comes after it, which has been seen) on to what the child itself holds
pub proof fn seen_kid<K: Ky>(a: Hist<K>, b: Hist<K>, c: Hist<K>, s: Seq<KeyPieceOffset>, k: Seq<KeyPieceOffset>, g: G)
    requires counted(a, b, s, g), counted(b, c, k, g),
    ensures counted(a, c, k + s, g),
{ assert forall|y: int| #[trigger] cval(c, y) == cval(a, y) + cnt(k + s, g, y) by { cnt_add(k, s, g, y); assert(cval(b, y) == cval(a, y) + cnt(s, g, y)); } }
pub proof fn seen_key<K: Ky>(a: Hist<K>, b: Hist<K>, c: Hist<K>, s: Seq<KeyPieceOffset>, x: KeyPieceOffset, g: G)
    requires counted(a, b, s, g), once_more(b, c, g(x)),
    ensures counted(a, c, seq![x] + s, g),
{ assert forall|y: int| #[trigger] cval(c, y) == cval(a, y) + cnt(seq![x] + s, g, y) by { cnt_add(seq![x], s, g, y); cnt_one(x, g, y); assert(cval(b, y) == cval(a, y) + cnt(s, g, y)); } }

// the same for nodes: the nodes of t below, from the child i on
pub type TG = spec_fn(Tree) -> int;
pub open spec fn tcounted<K: Ky>(a: Hist<K>, b: Hist<K>, t: Tree, g: TG) -> bool { forall|y: int| #[trigger] cval(b, y) == cval(a, y) + ncnt(t, g, y) }
pub open spec fn tseen<K: Ky>(a: Hist<K>, b: Hist<K>, t: Tree, i: int, g: TG) -> bool { forall|y: int| #[trigger] cval(b, y) == cval(a, y) + b01(g(t) == y) + nfrom(t, i, g, y) }
pub proof fn tseen_kid<K: Ky>(a: Hist<K>, b: Hist<K>, c: Hist<K>, t: Tree, i: int, g: TG)
    requires tseen(a, b, t, i + 1, g), if t.leaf() { b == c } else { 0 <= i < t.kids.len() && tcounted(b, c, t.kids[i], g) },
    ensures tseen(a, c, t, i, g),
{
    assert forall|y: int| #[trigger] cval(c, y) == cval(a, y) + b01(g(t) == y) + nfrom(t, i, g, y) by {
        assert(cval(b, y) == cval(a, y) + b01(g(t) == y) + nfrom(t, i + 1, g, y));
    }
}
pub proof fn tseen_all<K: Ky>(a: Hist<K>, b: Hist<K>, t: Tree, g: TG)
    requires tseen(a, b, t, 0, g),
    ensures tcounted(a, b, t, g),
{}
pub proof fn tseen_one<K: Ky>(a: Hist<K>, b: Hist<K>, t: Tree, g: TG)
    requires once_more(a, b, g(t)),
    ensures tseen(a, b, t, t.kids.len() as int, g), t.leaf() ==> tseen(a, b, t, t.keys.len() + 1int, g),
{}
/// how many nodes there are from the child i on, t itself included
pub open spec fn nleft(t: Tree, i: int) -> int { 1 + nfrom(t, i, zg(), 0) }
pub proof fn tseen_le<K: Ky>(a: Hist<K>, b: Hist<K>, t: Tree, i: int, g: TG)
    requires tseen(a, b, t, i, g),
    ensures within(a, b, nleft(t, i)),
{ assert forall|y: int| #[trigger] cval(b, y) <= cval(a, y) + nleft(t, i) by { nfrom_le(t, i, g, y); } }
pub proof fn nleft_le(t: Tree, i: int)
    requires 0 <= i <= t.kids.len(),
    ensures nleft(t, i) <= ntot(t), i < t.kids.len() ==> nleft(t, i) == ntot(t.kids[i]) + nleft(t, i + 1), nleft(t, 0) == ntot(t),
    decreases i,
{ if i > 0 { nleft_le(t, i - 1); ncnt_le(t.kids[i - 1], zg(), 0); } nfrom_le(t, i, zg(), 0); if i < t.kids.len() { ncnt_le(t.kids[i], zg(), 0); } ncnt_le(t, zg(), 0); if i == 0 { let z = zg(); assert(ncnt(t, z, 0) == b01(z(t) == 0) + nfrom(t, 0, z, 0)); } }
/// keys in a node
pub open spec fn nkeys() -> TG { |t: Tree| t.keys.len() as int }

// and for the bins of fixed sizes
pub type GS = spec_fn(KeyPieceOffset) -> u32;
pub open spec fn bg(a: Bins, g: GS) -> G { |x: KeyPieceOffset| bin(a, g(x)) }
pub open spec fn bonce(a: Bins, b: Bins, x: u32) -> bool { alike(a, b) && forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).1 == a[j].1 + b01(bin(a, x) == j) }
pub open spec fn bcounted(a: Bins, b: Bins, s: Seq<KeyPieceOffset>, g: GS) -> bool { alike(a, b) && forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).1 == a[j].1 + cnt(s, bg(a, g), j) }
pub open spec fn bwithin(a: Bins, b: Bins, n: int) -> bool { alike(a, b) && forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).1 <= a[j].1 + n }
pub open spec fn broom(a: Bins, n: int) -> bool { forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).1 + n <= u64::MAX }
pub open spec fn tells2<F: Fn(KeyPieceOffset) -> Result<(Size, Size)>>(f: F, p: (GS, GS), t: Tree) -> bool {
    forall|x: KeyPieceOffset, r: (Size, Size)| t.has(x) && #[trigger] f.ensures((x,), Ok(r)) ==> r.0.val == (p.0)(x) && r.1.val == (p.1)(x)
}
pub proof fn bg_alike(a: Bins, b: Bins, g: GS)
    requires alike(a, b), a.len() > 0,
    ensures bg(a, g) == bg(b, g),
{ assert forall|x: KeyPieceOffset| #[trigger] bg(a, g)(x) == bg(b, g)(x) by { bin_alike(a, b, g(x)); } assert(bg(a, g) =~= bg(b, g)); }
pub proof fn bseen_kid(a: Bins, b: Bins, c: Bins, s: Seq<KeyPieceOffset>, k: Seq<KeyPieceOffset>, g: GS)
    requires a.len() > 0, bcounted(a, b, s, g), bcounted(b, c, k, g),
    ensures bcounted(a, c, k + s, g),
{
    bg_alike(a, b, g);
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).1 == a[j].1 + cnt(k + s, bg(a, g), j) by { cnt_add(k, s, bg(a, g), j); assert(b[j].1 == a[j].1 + cnt(s, bg(a, g), j)); }
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).0 == a[j].0 by { assert(b[j].0 == a[j].0); }
}
pub proof fn bseen_key(a: Bins, b: Bins, c: Bins, s: Seq<KeyPieceOffset>, x: KeyPieceOffset, g: GS)
    requires a.len() > 0, bcounted(a, b, s, g), bonce(b, c, g(x)),
    ensures bcounted(a, c, seq![x] + s, g),
{
    bg_alike(a, b, g);
    bin_alike(a, b, g(x));
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).1 == a[j].1 + cnt(seq![x] + s, bg(a, g), j) by { cnt_add(seq![x], s, bg(a, g), j); cnt_one(x, bg(a, g), j); assert(b[j].1 == a[j].1 + cnt(s, bg(a, g), j)); }
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).0 == a[j].0 by { assert(b[j].0 == a[j].0); }
}
pub proof fn bwithin_add(a: Bins, b: Bins, c: Bins, m: int, n: int)
    requires bwithin(a, b, m), bwithin(b, c, n),
    ensures bwithin(a, c, m + n),
{
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).1 <= a[j].1 + (m + n) by { assert(b[j].1 <= a[j].1 + m); }
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).0 == a[j].0 by { assert(b[j].0 == a[j].0); }
}
pub proof fn bonce_within(a: Bins, b: Bins, x: u32)
    requires bonce(a, b, x),
    ensures bwithin(a, b, 1),
{}
pub proof fn broom_left(a: Bins, b: Bins, m: int, n: int)
    requires broom(a, m), bwithin(a, b, n),
    ensures broom(b, m - n),
{ assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).1 + (m - n) <= u64::MAX by { assert(b[j].1 <= a[j].1 + n); assert(a[j].1 + m <= u64::MAX); } }
/// the bin of the size of the node of a tree
pub open spec fn nbin(a: Bins, img: int) -> TG { |t: Tree| bin(a, nsz(img, t.off)) }
pub open spec fn tbcounted(a: Bins, b: Bins, t: Tree, img: int) -> bool { alike(a, b) && forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).1 == a[j].1 + ncnt(t, nbin(a, img), j) }
pub open spec fn tbseen(a: Bins, b: Bins, t: Tree, i: int, img: int) -> bool {
    alike(a, b) && forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).1 == a[j].1 + b01(nbin(a, img)(t) == j) + nfrom(t, i, nbin(a, img), j)
}
pub proof fn nbin_alike(a: Bins, b: Bins, img: int)
    requires alike(a, b), a.len() > 0,
    ensures nbin(a, img) == nbin(b, img),
{ assert forall|t: Tree| #[trigger] nbin(a, img)(t) == nbin(b, img)(t) by { bin_alike(a, b, nsz(img, t.off)); } assert(nbin(a, img) =~= nbin(b, img)); }
pub proof fn tbseen_kid(a: Bins, b: Bins, c: Bins, t: Tree, i: int, img: int)
    requires a.len() > 0, tbseen(a, b, t, i + 1, img), if t.leaf() { b == c } else { 0 <= i < t.kids.len() && tbcounted(b, c, t.kids[i], img) },
    ensures tbseen(a, c, t, i, img),
{
    nbin_alike(a, b, img);
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).1 == a[j].1 + b01(nbin(a, img)(t) == j) + nfrom(t, i, nbin(a, img), j) by {
        assert(b[j].1 == a[j].1 + b01(nbin(a, img)(t) == j) + nfrom(t, i + 1, nbin(a, img), j));
    }
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).0 == a[j].0 by { assert(b[j].0 == a[j].0); }
}
pub proof fn tbseen_one(a: Bins, b: Bins, t: Tree, img: int)
    requires bonce(a, b, nsz(img, t.off)),
    ensures tbseen(a, b, t, t.kids.len() as int, img), t.leaf() ==> tbseen(a, b, t, t.keys.len() + 1int, img),
{}
pub proof fn tbseen_all(a: Bins, b: Bins, t: Tree, img: int)
    requires tbseen(a, b, t, 0, img),
    ensures tbcounted(a, b, t, img),
{}
pub proof fn tbseen_le(a: Bins, b: Bins, t: Tree, i: int, img: int)
    requires tbseen(a, b, t, i, img),
    ensures bwithin(a, b, nleft(t, i)),
{ assert forall|j: int| 0 <= j < a.len() implies (#[trigger] b[j]).1 <= a[j].1 + nleft(t, i) by { nfrom_le(t, i, nbin(a, img), j); } }
pub open spec fn both(k0: Bins, k1: Bins, v0: Bins, v1: Bins, s: Seq<KeyPieceOffset>, p: (GS, GS)) -> bool { bcounted(k0, k1, s, p.0) && bcounted(v0, v1, s, p.1) }
/// one more in the bin of x, that is at r
pub open spec fn one(a: Bins, x: u32, r: Option<usize>) -> bool {
    let p = match r { Some(i) => i as int, None => a.len() - 1 };
    a[p].1 < u64::MAX && bonce(a, a.update(p, (a[p].0, (a[p].1 + 1) as u64)), x)
}
pub proof fn bone(a: Bins, x: u32, r: Option<usize>)
    requires a.len() > 0, broom(a, 1), at(a, x, r),
    ensures one(a, x, r),
{ bin_is(a, x, r); }
