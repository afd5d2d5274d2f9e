// ---------------------------------------------------------------- the whole map
pub type M = Map<KeyV, Seq<u8>>;
/// no two keys name the same value, and every stored value is named
pub open spec fn vals_own(k: KMap, v: VMap) -> bool {
    &&& forall|x: KeyPieceOffset, y: KeyPieceOffset| #![trigger k[x], k[y]] k.dom().contains(x) && k.dom().contains(y) && x != y ==> k[x].voff != k[y].voff
    &&& forall|o: ValuePieceOffset| #[trigger] v.dom().contains(o) ==> exists|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].voff == o
}
/// every slot in use names a live key that selects this slot
pub open spec fn slots_ok(k: KMap, h: HMap) -> bool {
    forall|s: u64| (#[trigger] hget(h, s)).val != 0 ==> k.dom().contains(hget(h, s)) && hslot(khash(k[hget(h, s)].key)) == s
}
/// the key records are exactly those of the tree
pub open spec fn keys_own(t: Tree, k: KMap) -> bool { forall|x: KeyPieceOffset| #[trigger] k.dom().contains(x) == t.has(x) }
/// the node records are exactly those of the tree
pub open spec fn nodes_own(t: Tree, n: NMap) -> bool { forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) == t.inf(o) }
pub open spec fn tree_ok(n: NMap, top: NodePieceOffset, k: KMap) -> bool {
    let t = tree_at(n, top);
    &&& is_tree(n, top) && t.good(n, k) && (t.keys.len() == 0 ==> t.leaf())
}
pub open spec fn dbok(n: NMap, top: NodePieceOffset, k: KMap, v: VMap, h: HMap) -> bool {
    &&& tree_ok(n, top, k)
    &&& keys_own(tree_at(n, top), k) && nodes_own(tree_at(n, top), n)
    &&& vals_ok(k, v) && vals_own(k, v)
    &&& slots_ok(k, h)
}
/// m is what the files say
pub open spec fn shows(k: KMap, v: VMap, m: M) -> bool {
    &&& forall|x: KeyPieceOffset| #[trigger] k.dom().contains(x) ==> m.dom().contains(k[x].key) && m[k[x].key] == v[k[x].voff]
    &&& forall|b: KeyV| #[trigger] m.dom().contains(b) ==> exists|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].key == b
}
pub open spec fn mget(m: M, k: KeyV) -> Option<Seq<u8>> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub open spec fn ov(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
/// different records of a search tree have different keys
pub proof fn ord_inj(t: Tree, k: KMap, x: KeyPieceOffset, y: KeyPieceOffset)
    requires t.ord(k), t.has(x), t.has(y), k[x].key == k[y].key, t.bal(),
    ensures x == y,
    decreases t,
{
    let a = exists|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == x;
    let b = exists|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == y;
    if a && b {
        let i = choose|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == x;
        let j = choose|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == y;
        if i < j { klt_asym(k[t.keys[i]].key, k[t.keys[j]].key); }
        if j < i { klt_asym(k[t.keys[j]].key, k[t.keys[i]].key); }
    } else if a {
        let j = choose|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == x;
        let i = choose|i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).has(y);
        kid_key(t, k, i, j, y);
    } else if b {
        let j = choose|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == y;
        let i = choose|i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).has(x);
        kid_key(t, k, i, j, x);
    } else {
        let i = choose|i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).has(x);
        let j = choose|i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).has(y);
        assert(t.kids[i].ord(k) && t.kids[i].bal());
        if i == j { ord_inj(t.kids[i], k, x, y); }
        else if i < j { kid_key(t, k, i, i, x); kid_key(t, k, j, i, y); klt_trans(k[x].key, k[t.keys[i]].key, k[y].key); klt_irr(k[x].key); }
        else { kid_key(t, k, j, j, y); kid_key(t, k, i, j, x); klt_trans(k[y].key, k[t.keys[j]].key, k[x].key); klt_irr(k[x].key); }
    }
}
/// the key j of t and what its child i holds
proof fn kid_key(t: Tree, k: KMap, i: int, j: int, x: KeyPieceOffset)
    requires t.ord(k), 0 <= i < t.kids.len(), 0 <= j < t.keys.len(), t.kids[i].has(x),
    ensures if j < i { klt(k[t.keys[j]].key, k[x].key) } else { klt(k[x].key, k[t.keys[j]].key) }, k[x].key != k[t.keys[j]].key,
{
    assert(t.kids[i].has(x));
    let y = t.keys[j];
    if j < i { klt_asym(k[y].key, k[x].key); } else { klt_asym(k[x].key, k[y].key); }
}
pub proof fn keys_differ(t: Tree, k: KMap)
    requires t.ord(k), t.bal(), keys_own(t, k),
    ensures forall|x: KeyPieceOffset, y: KeyPieceOffset| #![trigger k[x], k[y]] k.dom().contains(x) && k.dom().contains(y) && k[x].key == k[y].key ==> x == y,
{
    assert forall|x: KeyPieceOffset, y: KeyPieceOffset| #![trigger k[x], k[y]] k.dom().contains(x) && k.dom().contains(y) && k[x].key == k[y].key implies x == y by {
        assert(t.has(x) && t.has(y));
        ord_inj(t, k, x, y);
    }
}
/// value put for key: nothing else changes
pub proof fn ins_shows(t2: Tree, k: KMap, v: VMap, h: HMap, k2: KMap, v2: VMap, h2: HMap, key: KeyV, value: Seq<u8>, ko: KeyPieceOffset)
    requires kv_ins(k, v, h, k2, v2, h2, key, value, ko), t2.ord(k2), t2.bal(), keys_own(t2, k2), vals_ok(k, v), vals_own(k, v), slots_ok(k, h),
    ensures
        vals_ok(k2, v2), vals_own(k2, v2), slots_ok(k2, h2),
        forall|m: M| #[trigger] shows(k, v, m) ==> shows(k2, v2, m.insert(key, value)),
{
    keys_differ(t2, k2);
    let vo = k2[ko].voff;
    let old = k.dom().contains(ko);
    assert forall|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) implies v2.dom().contains(k2[x].voff) && k2[x].voff.val != 0 by {
        if x != ko { assert(k.dom().contains(x)); assert(k2[x] == k[x]); if old { assert(k[x].voff != k[ko].voff); } }
    }
    assert forall|x: KeyPieceOffset, y: KeyPieceOffset| #![trigger k2[x], k2[y]] k2.dom().contains(x) && k2.dom().contains(y) && x != y implies k2[x].voff != k2[y].voff by {
        if x != ko { assert(k.dom().contains(x)); assert(k2[x] == k[x]); }
        if y != ko { assert(k.dom().contains(y)); assert(k2[y] == k[y]); }
        if x != ko && y != ko { assert(k[x].voff != k[y].voff); }
        else {
            let z = if x == ko { y } else { x };
            assert(v.dom().contains(k[z].voff));
            if old { assert(k[z].voff != k[ko].voff); }
        }
    }
    assert forall|o: ValuePieceOffset| #[trigger] v2.dom().contains(o) implies exists|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) && k2[x].voff == o by {
        if o == vo { assert(k2.dom().contains(ko)); }
        else {
            assert(v.dom().contains(o));
            let x = choose|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].voff == o;
            assert(x != ko);
            assert(k2.dom().contains(x) && k2[x] == k[x]);
        }
    }
    assert forall|s: u64| (#[trigger] hget(h2, s)).val != 0 implies k2.dom().contains(hget(h2, s)) && hslot(khash(k2[hget(h2, s)].key)) == s by {
        if hget(h2, s) != ko { assert(hget(h, s) == hget(h2, s)); }
        else if old { assert(hget(h, s) == hget(h2, s)); }
        else if s != hslot(khash(key)) { assert(hget(h, s) == hget(h2, s)); assert(k.dom().contains(ko)); }
    }
    assert forall|m: M| #[trigger] shows(k, v, m) implies shows(k2, v2, m.insert(key, value)) by {
        let m2 = m.insert(key, value);
        assert forall|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) implies m2.dom().contains(k2[x].key) && m2[k2[x].key] == v2[k2[x].voff] by {
            if x != ko {
                assert(k.dom().contains(x)); assert(k2[x] == k[x]);
                assert(k2[ko].key == key);
                assert(k2[x].key != key);
                if old { assert(k[x].voff != k[ko].voff); }
                assert(v.dom().contains(k[x].voff));
            }
        }
        assert forall|b: KeyV| #[trigger] m2.dom().contains(b) implies exists|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) && k2[x].key == b by {
            if b == key { assert(k2.dom().contains(ko) && k2[ko].key == key); }
            else {
                assert(m.dom().contains(b));
                let x = choose|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].key == b;
                assert(x != ko);
                assert(k2.dom().contains(x) && k2[x] == k[x]);
            }
        }
    }
}
/// the key of ko deleted: nothing else changes
pub proof fn del_shows(t: Tree, k: KMap, v: VMap, h: HMap, k2: KMap, v2: VMap, h2: HMap, ko: KeyPieceOffset)
    requires kv_del(k, v, h, k2, v2, h2, ko), t.ord(k), t.bal(), keys_own(t, k), vals_ok(k, v), vals_own(k, v), slots_ok(k, h),
    ensures
        vals_ok(k2, v2), vals_own(k2, v2), slots_ok(k2, h2),
        forall|m: M| #[trigger] shows(k, v, m) ==> m.dom().contains(k[ko].key) && m[k[ko].key] == v[k[ko].voff] && shows(k2, v2, m.remove(k[ko].key)),
{
    keys_differ(t, k);
    assert forall|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) implies k.dom().contains(x) && k2[x] == k[x] && x != ko && k[x].voff != k[ko].voff && k[x].key != k[ko].key by {
        assert(k.dom().contains(x));
        let (a, b) = (k[x], k[ko]);
    }
    assert forall|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) implies v2.dom().contains(k2[x].voff) && k2[x].voff.val != 0 by { }
    assert forall|x: KeyPieceOffset, y: KeyPieceOffset| #![trigger k2[x], k2[y]] k2.dom().contains(x) && k2.dom().contains(y) && x != y implies k2[x].voff != k2[y].voff by { assert(k[x].voff != k[y].voff); }
    assert forall|o: ValuePieceOffset| #[trigger] v2.dom().contains(o) implies exists|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) && k2[x].voff == o by {
        let x = choose|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].voff == o;
        assert(k2.dom().contains(x));
    }
    assert forall|s: u64| (#[trigger] hget(h2, s)).val != 0 implies k2.dom().contains(hget(h2, s)) && hslot(khash(k2[hget(h2, s)].key)) == s by {
        assert(s != hslot(khash(k[ko].key)));
        assert(hget(h, s) == hget(h2, s));
    }
    assert forall|m: M| #[trigger] shows(k, v, m) implies m.dom().contains(k[ko].key) && m[k[ko].key] == v[k[ko].voff] && shows(k2, v2, m.remove(k[ko].key)) by {
        let m2 = m.remove(k[ko].key);
        assert forall|b: KeyV| #[trigger] m2.dom().contains(b) implies exists|x: KeyPieceOffset| #[trigger] k2.dom().contains(x) && k2[x].key == b by {
            assert(m.dom().contains(b));
            let x = choose|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].key == b;
            assert(x != ko);
            assert(k2.dom().contains(x));
        }
    }
}
/// a key that no record has is not in the map
pub proof fn absent(k: KMap, v: VMap, key: KeyV)
    requires forall|x: KeyPieceOffset| #[trigger] k.dom().contains(x) ==> k[x].key != key,
    ensures forall|m: M| #[trigger] shows(k, v, m) ==> !m.dom().contains(key) && m.remove(key) == m,
{
    assert forall|m: M| #[trigger] shows(k, v, m) implies !m.dom().contains(key) && m.remove(key) == m by {
        if m.dom().contains(key) { let x = choose|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].key == key; }
        assert(m.remove(key) =~= m);
    }
}
/// the tree changed from t to t2, everything in the store is still in the tree
pub proof fn still_own(n: NMap, t: Tree, n2: NMap, t2: Tree)
    requires nodes_own(t, n), tpost(n, t, n2, t2), t2.rep(n2),
    ensures nodes_own(t2, n2),
{
    all_in_dom(n2, t2);
}
/// the root t2 of a changed tree is now stored at top
pub open spec fn rooted(n: NMap, n2: NMap, t2: Tree, top: NodePieceOffset) -> bool {
    if t2.off.val == 0 { !n.dom().contains(top) && top.val != 0 && n2 == n.insert(top, t2.nv()) }
    else { upd_node(n, n2, t2.off, top, t2.nv()) }
}
proof fn new_root_rep(n: NMap, n2: NMap, t2: Tree, top: NodePieceOffset)
    requires t2.krep(n), !n.dom().contains(top), top.val != 0, n2 == n.insert(top, t2.nv()),
    ensures (Tree { off: top, ..t2 }).rep(n2),
{
    let t3 = Tree { off: top, ..t2 };
    assert(t3.nv() == t2.nv());
    kids_dom(n, t2);
    assert forall|i: int| 0 <= i < t3.kids.len() implies (#[trigger] t3.kids[i]).rep(n2) by {
        let c = t2.kids[i];
        assert(c.rep(n));
        assert forall|o: NodePieceOffset| #[trigger] c.inf(o) && n.dom().contains(o) implies n2.dom().contains(o) && n2[o] == n[o] by { }
        rep_frame(n, n2, c);
    }
}
proof fn new_root_inf(t2: Tree, top: NodePieceOffset, o: NodePieceOffset)
    requires t2.off.val == 0, top.val != 0,
    ensures (Tree { off: top, ..t2 }).inf(o) == (o == top || t2.inf(o)), t2.inf(o) == t2.kinf(o), (Tree { off: top, ..t2 }).kinf(o) == t2.kinf(o),
{
    let t3 = Tree { off: top, ..t2 };
    inf_kids(t2);
    inf_kids(t3);
    if t2.kinf(o) { let i = choose|i: int| 0 <= i < t2.kids.len() && (#[trigger] t2.kids[i]).inf(o); assert(t3.kids[i].inf(o)); }
    if t3.kinf(o) { let i = choose|i: int| 0 <= i < t3.kids.len() && (#[trigger] t3.kids[i]).inf(o); assert(t2.kids[i].inf(o)); }
}
proof fn new_root(n0: NMap, t: Tree, n: NMap, t2: Tree, n2: NMap, top: NodePieceOffset)
    requires nodes_own(t, n0), tpost(n0, t, n, t2), t2.krep(n), t2.dis(), t2.off.val == 0, !n.dom().contains(top), top.val != 0, n2 == n.insert(top, t2.nv()),
    ensures ({ let t3 = Tree { off: top, ..t2 }; t3.rep(n2) && t3.dis() && nodes_own(t3, n2) }),
{
    let t3 = Tree { off: top, ..t2 };
    new_root_rep(n, n2, t2, top);
    kids_dom(n, t2);
    assert(!t3.kinf(top)) by { new_root_inf(t2, top, top); }
    assert(t3.dis());
    all_in_dom(n2, t3);
    assert forall|o: NodePieceOffset| #[trigger] n2.dom().contains(o) == t3.inf(o) by {
        new_root_inf(t2, top, o);
        if n2.dom().contains(o) && o != top { assert(n.dom().contains(o)); assert(n0.dom().contains(o) == t.inf(o)); }
    }
}
pub proof fn root_stored(n0: NMap, t: Tree, n: NMap, t2: Tree, n2: NMap, top: NodePieceOffset, k: KMap)
    requires nodes_own(t, n0), tpost(n0, t, n, t2), t2.krep(n), t2.dis(), t2.bal(), t2.fill(), t2.ord(k), rooted(n, n2, t2, top), t2.off.val != 0 ==> n.dom().contains(t2.off),
        t2.keys.len() == 0 ==> t2.leaf(),
    ensures tree_ok(n2, top, k), nodes_own(tree_at(n2, top), n2), tree_at(n2, top).has_eq(t2),
{
    hide(Tree::rep); hide(Tree::krep); hide(Tree::dis); hide(Tree::bal); hide(Tree::ord); hide(Tree::has); hide(Tree::inf); hide(Tree::ht);
    let t3 = Tree { off: top, ..t2 };
    if t2.off.val != 0 {
        root_write(n, n2, t2, top);
        tpost_trans(n0, t, n, t2, n2, t3);
        still_own(n0, t, n2, t3);
    } else {
        new_root(n0, t, n, t2, n2, top);
    }
    moved_shape(t2, top);
    moved_ord(t2, top, k);
    tree_at_is(n2, t3);
}
/// a new map: one node without keys
pub proof fn fresh_ok(n: NMap, top: NodePieceOffset, k: KMap, v: VMap, h: HMap)
    requires top.val != 0, n == NMap::empty().insert(top, (Tree { off: top, keys: Seq::empty(), kids: Seq::empty() }).nv()), k == KMap::empty(), v == VMap::empty(), forall|s: u64| (#[trigger] hget(h, s)).val == 0,
    ensures dbok(n, top, k, v, h), shows(k, v, M::empty()),
{
    let t = Tree { off: top, keys: Seq::empty(), kids: Seq::empty() };
    assert(t.rep(n));
    tree_at_is(n, t);
    inf_kids(t);
    assert(!t.kinf(top));
    assert forall|x: KeyPieceOffset| !#[trigger] t.has(x) by {}
}
