// ---------------------------------------------------------------- replacing one child
/// t with child i replaced by c2
pub open spec fn with_kid(t: Tree, i: int, c2: Tree) -> Tree { Tree { kids: t.kids.update(i, c2), ..t } }

pub proof fn inf_kids(t: Tree)
    ensures forall|o: NodePieceOffset| #[trigger] t.inf(o) == ((o == t.off && o.val != 0) || t.kinf(o)),
{}
/// child i of t was changed (store n to n1), it is c2 now
pub proof fn kid_store(n: NMap, t: Tree, i: int, n1: NMap, c2: Tree)
    requires
        t.rep(n), t.dis(), 0 <= i < t.kids.len(), c2.rep(n1), c2.dis(), tpost(n, t.kids[i], n1, c2),
    ensures ({
        let t2 = with_kid(t, i, c2);
        &&& t2.krep(n1) && t2.dis() && n1.dom().contains(t.off) && n1[t.off] == n[t.off]
        &&& tpost(n, t, n1, t2)
    }),
{
    let t2 = with_kid(t, i, c2);
    let c = t.kids[i];
    kids_dom(n, t);
    inf_kids(t);
    inf_kids(t2);
    assert(t.inf(t.off));
    assert(!t.kinf(t.off));
    assert(!c.inf(t.off));
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).rep(n1) by {
        if j != i {
            let d = t.kids[j];
            assert(t2.kids[j] == d);
            assert(d.rep(n));
            assert forall|o: NodePieceOffset| #[trigger] d.inf(o) && n.dom().contains(o) implies n1.dom().contains(o) && n1[o] == n[o] by {
                if c.inf(o) { assert(t.kids[i].inf(o) && t.kids[j].inf(o)); }
            }
            rep_frame(n, n1, d);
        }
    }
    // where the nodes of t2 are
    assert forall|j: int, o: NodePieceOffset| 0 <= j < t2.kids.len() && #[trigger] t2.kids[j].inf(o) implies
        (if j == i { c2.inf(o) } else { t.kids[j].inf(o) }) by {}
    assert forall|j: int, l: int, o: NodePieceOffset| 0 <= j < t2.kids.len() && 0 <= l < t2.kids.len() && #[trigger] t2.kids[j].inf(o) && #[trigger] t2.kids[l].inf(o)
        implies j == l by {
        if j != l {
            if j == i {
                assert(t.kids[l].inf(o)); assert(n.dom().contains(o)); assert(c.inf(o)); assert(t.kids[i].inf(o));
            } else if l == i {
                assert(t.kids[j].inf(o)); assert(n.dom().contains(o)); assert(c.inf(o)); assert(t.kids[i].inf(o));
            } else {
                assert(t.kids[j].inf(o) && t.kids[l].inf(o));
            }
        }
    }
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).dis() by {
        if j != i { assert(t.kids[j].dis()); }
    }
    assert(!t2.kinf(t.off)) by {
        if t2.kinf(t.off) {
            let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).inf(t.off);
            if j == i { assert(c.inf(t.off)); } else { assert(t.kids[j].inf(t.off)); }
        }
    }
    assert(t2.dis());
    assert forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) && !t.inf(o) implies n1.dom().contains(o) && n1[o] == n[o] by {
        if c.inf(o) { assert(t.kids[i].inf(o)); }
    }
    assert forall|o: NodePieceOffset| #[trigger] t2.inf(o) implies t.inf(o) || !n.dom().contains(o) by {
        if o != t.off {
            let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).inf(o);
            if j == i { if c.inf(o) { assert(t.kids[i].inf(o)); } } else { assert(t.kids[j].inf(o)); }
        }
    }
    assert forall|o: NodePieceOffset| #[trigger] n1.dom().contains(o) implies (n.dom().contains(o) && !t.inf(o)) || t2.inf(o) by {
        if c2.inf(o) { assert(t2.kids[i].inf(o)); }
        else if t.inf(o) && o != t.off {
            let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).inf(o);
            if j == i { assert(c.inf(o)); } else { assert(t2.kids[j].inf(o)); }
        }
    }
}
/// balance, when a child is replaced by one of the same height
pub proof fn kid_bal(t: Tree, i: int, c2: Tree)
    requires t.bal(), 0 <= i < t.kids.len(), c2.bal(), c2.ht() == t.kids[i].ht(),
    ensures with_kid(t, i, c2).bal(), with_kid(t, i, c2).ht() == t.ht(),
{
    let t2 = with_kid(t, i, c2);
    assert(t.kids[0].ht() == t.kids[i].ht());
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).ht() == t2.kids[0].ht() && t2.kids[j].bal() by {
        assert(t.kids[j].ht() == t.kids[0].ht());
        assert(t.kids[j].bal());
    }
}
pub proof fn kid_fill(t: Tree, i: int, c2: Tree)
    requires t.fill(), 0 <= i < t.kids.len(), c2.fill(), c2.keys.len() >= MINK,
    ensures with_kid(t, i, c2).fill(),
{
    let t2 = with_kid(t, i, c2);
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).keys.len() >= MINK && t2.kids[j].fill() by {
        if j != i { assert(t.kids[j].keys.len() >= MINK); assert(t.kids[j].fill()); }
    }
}
/// the child i gained the key piece ko
pub proof fn kid_has_add(t: Tree, i: int, c2: Tree, ko: KeyPieceOffset)
    requires 0 <= i < t.kids.len(), forall|x: KeyPieceOffset| #[trigger] c2.has(x) == (t.kids[i].has(x) || x == ko),
    ensures forall|x: KeyPieceOffset| #[trigger] with_kid(t, i, c2).has(x) == (t.has(x) || x == ko),
{
    let t2 = with_kid(t, i, c2);
    assert(t2.kids[i] == c2);
    assert forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) || x == ko) by {
        if x == ko { assert(t2.kids[i].has(x)); }
        if t.has(x) {
            if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
                let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
                assert(t2.keys[j] == x);
            } else {
                let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
                assert(t2.kids[j].has(x));
            }
        }
        if t2.has(x) && x != ko {
            if exists|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x {
                let j = choose|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x;
                assert(t.keys[j] == x);
            } else {
                let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).has(x);
                if j == i { assert(t.kids[i].has(x)); } else { assert(t.kids[j].has(x)); }
            }
        }
    }
}
/// key lies in the gap g of the keys of t
pub open spec fn in_gap(t: Tree, k: KMap, g: int, key: KeyV) -> bool {
    &&& forall|j: int| 0 <= j < g && j < t.keys.len() ==> klt(k[#[trigger] t.keys[j]].key, key)
    &&& forall|j: int| g <= j < t.keys.len() ==> klt(key, k[#[trigger] t.keys[j]].key)
}
/// the order, when the key pieces of child i change to a set whose new members lie in the same gap; k2 holds the keys now
pub proof fn kid_ord(t: Tree, i: int, c2: Tree, k: KMap, k2: KMap)
    requires
        t.ord(k), 0 <= i < t.kids.len(), c2.ord(k2),
        forall|x: KeyPieceOffset| #[trigger] c2.has(x) ==> t.kids[i].has(x) || in_gap(t, k, i, k2[x].key),
        forall|x: KeyPieceOffset| #[trigger] t.has(x) && (c2.has(x) || !t.kids[i].has(x)) ==> k2.dom().contains(x) && k2[x].key == k[x].key,
        forall|x: KeyPieceOffset| #[trigger] t.kids[i].has(x) ==> (forall|j: int| 0 <= j < t.keys.len() ==> #[trigger] t.keys[j] != x)
            && (forall|j: int| 0 <= j < t.kids.len() && j != i ==> !(#[trigger] t.kids[j]).has(x)),
    ensures with_kid(t, i, c2).ord(k2),
{
    let t2 = with_kid(t, i, c2);
    let c = t.kids[i];
    assert forall|j: int| 0 <= j < t2.keys.len() implies k2.dom().contains(#[trigger] t2.keys[j]) && t2.keys[j].val != 0 && k2[t2.keys[j]].key == k[t.keys[j]].key by {
        assert(t.has(t.keys[j]));
        assert(!c.has(t.keys[j]));
    }
    assert forall|a: int, b: int| 0 <= a < b < t2.keys.len() implies klt(k2[#[trigger] t2.keys[a]].key, k2[#[trigger] t2.keys[b]].key) by {
        assert(klt(k[t.keys[a]].key, k[t.keys[b]].key));
    }
    assert forall|a: int, b: int, x: KeyPieceOffset| 0 <= a < t2.kids.len() && 0 <= b < t2.keys.len() && #[trigger] t2.kids[a].has(x) implies
        (if b < a { klt(k2[#[trigger] t2.keys[b]].key, k2[x].key) } else { klt(k2[x].key, k2[t2.keys[b]].key) }) by {
        let y = t.keys[b];
        assert(k2[t2.keys[b]].key == k[y].key);
        if a == i {
            if c.has(x) {
                assert(t.kids[i].has(x));
                assert(t.has(x));
                assert(k2[x].key == k[x].key);
            }
        } else {
            assert(t.kids[a].has(x));
            assert(t.has(x));
            if c.has(x) { assert(t.kids[i].has(x)); }
            assert(k2[x].key == k[x].key);
        }
    }
    assert forall|a: int| 0 <= a < t2.kids.len() implies (#[trigger] t2.kids[a]).ord(k2) by {
        if a != i {
            let d = t.kids[a];
            assert(d.ord(k));
            assert forall|x: KeyPieceOffset| #[trigger] d.has(x) implies k2.dom().contains(x) && k2[x].key == k[x].key by {
                assert(t.kids[a].has(x));
                assert(t.has(x));
                if c.has(x) { assert(t.kids[i].has(x)); }
            }
            ord_frame(k, k2, d);
        }
    }
}
/// a key piece occurs once
pub proof fn once(t: Tree, k: KMap, i: int)
    requires t.ord(k), 0 <= i < t.kids.len() <= t.keys.len() + 1,
    ensures
        forall|x: KeyPieceOffset| #[trigger] t.kids[i].has(x) ==> (forall|j: int| 0 <= j < t.keys.len() ==> #[trigger] t.keys[j] != x)
            && (forall|j: int| 0 <= j < t.kids.len() && j != i ==> !(#[trigger] t.kids[j]).has(x)),
    {
    assert forall|x: KeyPieceOffset| #[trigger] t.kids[i].has(x) implies (forall|j: int| 0 <= j < t.keys.len() ==> #[trigger] t.keys[j] != x)
            && (forall|j: int| 0 <= j < t.kids.len() && j != i ==> !(#[trigger] t.kids[j]).has(x)) by {
        klt_irr(k[x].key);
        assert forall|j: int| 0 <= j < t.keys.len() implies #[trigger] t.keys[j] != x by {}
        assert forall|j: int| 0 <= j < t.kids.len() && j != i implies !(#[trigger] t.kids[j]).has(x) by {
            if t.kids[j].has(x) {
                let m = if i < j { i } else { j };
                if m < t.keys.len() {
                    let y = t.keys[m];
                    klt_asym(k[x].key, k[y].key);
                    if i < j { assert(klt(k[x].key, k[y].key)); assert(klt(k[y].key, k[x].key)); }
                    else { assert(klt(k[x].key, k[y].key)); assert(klt(k[y].key, k[x].key)); }
                }
            }
        }
    }
}
