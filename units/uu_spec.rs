// ---------------------------------------------------------------- the tree and the nodes of the file
/// n is what the store s holds
pub open spec fn agree(n: NMap, s: Store) -> bool {
    &&& forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) == s.dom().contains(o.val)
    &&& forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) ==> n[o] == s[o.val].v
}
/// every node of s is in the file itself
pub open spec fn plain(img: Seq<u8>, s: Store) -> bool {
    forall|o: u64| #[trigger] s.dom().contains(o) ==> node_at(img, o as int, s[o].sz as int, s[o].v)
}
/// the key of bytes b is under t, with the value w
pub open spec fn holds_key(t: Tree, k: KMap, v: VMap, b: KeyV, w: Option<Seq<u8>>) -> bool {
    match w {
        Some(y) => exists|x: KeyPieceOffset| #[trigger] t.has(x) && k[x].key == b && v[k[x].voff] == y,
        None => forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> k[x].key != b,
    }
}
/// the key is in the child i of t, if anywhere
pub open spec fn only_kid(t: Tree, k: KMap, i: int, b: KeyV) -> bool {
    forall|x: KeyPieceOffset| #[trigger] t.has(x) && k[x].key == b ==> !t.leaf() && t.kids[i].has(x)
}
pub proof fn find_kid(t: Tree, k: KMap, i: int, b: KeyV)
    requires
        t.ord(k), t.bal(), 0 <= i <= t.keys.len(),
        forall|j: int| 0 <= j < i ==> klt(k[#[trigger] t.keys[j]].key, b),
        forall|j: int| i <= j < t.keys.len() ==> klt(b, k[#[trigger] t.keys[j]].key),
    ensures only_kid(t, k, i, b),
{
    assert forall|x: KeyPieceOffset| #[trigger] t.has(x) && k[x].key == b implies !t.leaf() && t.kids[i].has(x) by {
        if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
            let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
            klt_irr(b);
        } else {
            let c = choose|c: int| 0 <= c < t.kids.len() && (#[trigger] t.kids[c]).has(x);
            if c < i { assert(t.kids[c].has(x)); klt_asym(k[x].key, k[t.keys[c]].key); }
            if c > i { assert(t.kids[c].has(x)); klt_asym(b, k[t.keys[i]].key); }
        }
    }
}
pub proof fn holds_up(t: Tree, k: KMap, v: VMap, i: int, b: KeyV, w: Option<Seq<u8>>)
    requires only_kid(t, k, i, b), !t.leaf() ==> 0 <= i < t.kids.len() && holds_key(t.kids[i], k, v, b, w), t.leaf() ==> w is None,
    ensures holds_key(t, k, v, b, w),
{
    if w is Some { let x = choose|x: KeyPieceOffset| #[trigger] t.kids[i].has(x) && k[x].key == b && v[k[x].voff] == w->Some_0; assert(t.has(x)); }
}
pub proof fn holds_shows(t: Tree, k: KMap, v: VMap, b: KeyV, w: Option<Seq<u8>>)
    requires holds_key(t, k, v, b, w), keys_own(t, k),
    ensures forall|m: M| #[trigger] shows(k, v, m) ==> w == mget(m, b),
{
    assert forall|m: M| #[trigger] shows(k, v, m) implies w == mget(m, b) by {
        if w is Some {
            let x = choose|x: KeyPieceOffset| #[trigger] t.has(x) && k[x].key == b && v[k[x].voff] == w->Some_0;
            assert(k.dom().contains(x));
        } else if m.dom().contains(b) {
            let x = choose|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].key == b;
            assert(t.has(x));
        }
    }
}
pub open spec fn plain_tree(img: Seq<u8>, s: Store, n: NMap, t: Tree, k: KMap) -> bool {
    plain(img, s) && agree(n, s) && t.rep(n) && t.bal() && t.ord(k) && t.fill() && (t.keys.len() == 0 ==> t.leaf())
}
/// the bytes at off fix the node of a tree there
pub proof fn same_level(img: Seq<u8>, s: Store, n: NMap, t: Tree, s2: Store, n2: NMap, t2: Tree, k: KMap)
    requires plain_tree(img, s, n, t, k), plain_tree(img, s2, n2, t2, k), t.off == t2.off,
    ensures t.keys == t2.keys, t.nv() == t2.nv(), t.leaf() == t2.leaf(), t.leaf() == leaf_d(t.nv().downs),
{
    level(img, s, n, t, k);
    level(img, s2, n2, t2, k);
    node_at_fun(img, t.off.val as int, s[t.off.val].sz as int, t.nv(), s2[t.off.val].sz as int, t2.nv());
}
pub proof fn level(img: Seq<u8>, s: Store, n: NMap, t: Tree, k: KMap)
    requires plain_tree(img, s, n, t, k),
    ensures node_at(img, t.off.val as int, s[t.off.val].sz as int, t.nv()), t.leaf() == leaf_d(t.nv().downs), sorted_keys(t.keys, k),
        t.nv().downs.len() == t.keys.len() + 1, !t.leaf() ==> t.kids.len() == t.keys.len() + 1,
        forall|i: int| 0 <= i < t.kids.len() ==> t.nv().downs[i] == (#[trigger] t.kids[i]).off && t.kids[i].off.val != 0 && plain_tree(img, s, n, t.kids[i], k),
{
    assert(n.dom().contains(t.off));
    assert(s.dom().contains(t.off.val));
    assert forall|i: int| 0 <= i < t.kids.len() implies t.nv().downs[i] == (#[trigger] t.kids[i]).off && t.kids[i].off.val != 0 && plain_tree(img, s, n, t.kids[i], k) by { assert(t.kids[i].rep(n)); }
    if !t.leaf() { assert(t.nv().downs[0] == t.kids[0].off); }
}
pub proof fn found_all(img: Seq<u8>, s: Store, n: NMap, t: Tree, k: KMap, i: int)
    requires plain_tree(img, s, n, t, k), 0 <= i < t.keys.len(),
    ensures forall|s2: Store, n2: NMap, t2: Tree| #[trigger] plain_tree(img, s2, n2, t2, k) && t2.off == t.off ==> t2.has(t.keys[i]),
{
    assert forall|s2: Store, n2: NMap, t2: Tree| #[trigger] plain_tree(img, s2, n2, t2, k) && t2.off == t.off implies t2.has(t.keys[i]) by {
        same_level(img, s, n, t, s2, n2, t2, k);
        assert(t2.keys[i] == t.keys[i]);
    }
}
/// the search goes on at o, or ends
pub open spec fn next_is(t: Tree, k: KMap, b: KeyV, o: NodePieceOffset) -> bool {
    exists|i: int| #[trigger] only_kid(t, k, i, b) && 0 <= i <= t.keys.len() && if t.leaf() { o.val == 0 } else { o == t.kids[i].off }
}
pub proof fn miss_all(img: Seq<u8>, s: Store, n: NMap, t: Tree, k: KMap, i: int, b: KeyV, o: NodePieceOffset)
    requires
        plain_tree(img, s, n, t, k), 0 <= i <= t.keys.len(),
        forall|j: int| 0 <= j < i ==> klt(k[#[trigger] t.keys[j]].key, b),
        forall|j: int| i <= j < t.keys.len() ==> klt(b, k[#[trigger] t.keys[j]].key),
        if t.leaf() { o.val == 0 } else { o == t.nv().downs[i] },
    ensures forall|s2: Store, n2: NMap, t2: Tree| #[trigger] plain_tree(img, s2, n2, t2, k) && t2.off == t.off ==> next_is(t2, k, b, o),
{
    assert forall|s2: Store, n2: NMap, t2: Tree| #[trigger] plain_tree(img, s2, n2, t2, k) && t2.off == t.off implies next_is(t2, k, b, o) by {
        same_level(img, s, n, t, s2, n2, t2, k);
        level(img, s2, n2, t2, k);
        find_kid(t2, k, i, b);
        if !t2.leaf() { assert(t2.kids[i].off == t2.nv().downs[i]); }
        assert(only_kid(t2, k, i, b));
    }
}
pub proof fn plain_unique(img: Seq<u8>, s: Store, n: NMap, t: Tree, s2: Store, n2: NMap, t2: Tree, k: KMap)
    requires plain_tree(img, s, n, t, k), plain_tree(img, s2, n2, t2, k), t.off == t2.off,
    ensures t == t2,
    decreases t,
{
    level(img, s, n, t, k);
    level(img, s2, n2, t2, k);
    same_level(img, s, n, t, s2, n2, t2, k);
    assert forall|i: int| 0 <= i < t.kids.len() implies t.kids[i] == t2.kids[i] by {
        assert(t.kids[i].off == t.nv().downs[i] && t2.kids[i].off == t2.nv().downs[i]);
        plain_unique(img, s, n, t.kids[i], s2, n2, t2.kids[i], k);
    }
    assert(t.kids =~= t2.kids);
}
/// the tree that the file holds at off
pub open spec fn is_at(img: Seq<u8>, off: NodePieceOffset, k: KMap, t: Tree) -> bool {
    exists|s: Store, n: NMap| #[trigger] plain_tree(img, s, n, t, k) && t.off == off
}
pub open spec fn the_tree(img: Seq<u8>, off: NodePieceOffset, k: KMap) -> Tree { choose|t: Tree| is_at(img, off, k, t) }
pub proof fn the_tree_is(img: Seq<u8>, s: Store, n: NMap, t: Tree, k: KMap)
    requires plain_tree(img, s, n, t, k),
    ensures the_tree(img, t.off, k) == t,
{
    assert(is_at(img, t.off, k, t));
    let u = the_tree(img, t.off, k);
    assert(is_at(img, t.off, k, u));
    let (s2, n2) = choose|s2: Store, n2: NMap| #[trigger] plain_tree(img, s2, n2, u, k) && u.off == t.off;
    plain_unique(img, s, n, t, s2, n2, u, k);
}
pub proof fn kid_ht(t: Tree, i: int)
    requires t.bal(), 0 <= i < t.kids.len(),
    ensures t.kids[i].ht() < t.ht(),
{ assert(t.kids[i].ht() == t.kids[0].ht()); }
pub proof fn top_kept(a: Seq<u8>, b: Seq<u8>, s: Store)
    requires outside(a, b, s), pieces(a.len() as int, s), a.len() >= 24,
    ensures u64_at(a, 16) == u64_at(b, 16), a.len() == b.len(),
{
    assert forall|j: int| 16 <= j < 24 implies #[trigger] a[j] == b[j] by { }
    assert(at(a, 16, 8) =~= at(b, 16, 8));
}
