// ---------------------------------------------------------------- a child was split: the active node a takes its place
pub open spec fn with_split(t: Tree, i: int, a: Tree) -> Tree {
    Tree {
        off: t.off,
        keys: t.keys.insert(i, a.keys[0]),
        kids: if t.leaf() { t.kids } else { t.kids.update(i, a.kids[1]).insert(i, a.kids[0]) },
    }
}
pub open spec fn is_split(a: Tree) -> bool { a.off.val == 0 && a.keys.len() == 1 && (a.kids.len() == 0 || a.kids.len() == 2) }

pub proof fn split_kids(t: Tree, i: int, a: Tree)
    requires is_split(a), 0 <= i < t.kids.len(), a.kids.len() == 2,
    ensures
        with_split(t, i, a).kids.len() == t.kids.len() + 1,
        forall|j: int| 0 <= j < t.kids.len() + 1 ==> #[trigger] with_split(t, i, a).kids[j] ==
            (if j < i { t.kids[j] } else if j == i { a.kids[0] } else if j == i + 1 { a.kids[1] } else { t.kids[j - 1] }),
{}
pub proof fn split_keys(t: Tree, i: int, a: Tree)
    requires 0 <= i <= t.keys.len(),
    ensures
        with_split(t, i, a).keys.len() == t.keys.len() + 1,
        forall|j: int| 0 <= j < t.keys.len() + 1 ==> #[trigger] with_split(t, i, a).keys[j] ==
            (if j < i { t.keys[j] } else if j == i { a.keys[0] } else { t.keys[j - 1] }),
{}
pub proof fn split_store(n: NMap, t: Tree, i: int, n1: NMap, a: Tree)
    requires
        t.rep(n), t.dis(), 0 <= i < t.kids.len(), is_split(a), a.kids.len() == 2, a.krep(n1), a.dis(), tpost(n, t.kids[i], n1, a),
    ensures ({
        let t2 = with_split(t, i, a);
        &&& t2.krep(n1) && t2.dis() && n1.dom().contains(t.off) && n1[t.off] == n[t.off]
        &&& tpost(n, t, n1, t2)
    }),
{
    let t2 = with_split(t, i, a);
    let c = t.kids[i];
    split_kids(t, i, a);
    kids_dom(n, t);
    inf_kids(t); inf_kids(t2); inf_kids(a);
    assert(t.inf(t.off));
    assert(!c.inf(t.off));
    assert forall|o: NodePieceOffset| #[trigger] a.inf(o) == (a.kids[0].inf(o) || a.kids[1].inf(o)) by {
        if a.kids[0].inf(o) { assert(a.kinf(o)); }
        if a.kids[1].inf(o) { assert(a.kinf(o)); }
    }
    let g = |j: int| if j < i { j } else if j == i || j == i + 1 { i } else { j - 1 };
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).rep(n1) by {
        if j == i { assert(a.kids[0].rep(n1)); }
        else if j == i + 1 { assert(a.kids[1].rep(n1)); }
        else {
            let d = t.kids[g(j)];
            assert(d.rep(n));
            assert forall|o: NodePieceOffset| #[trigger] d.inf(o) && n.dom().contains(o) implies n1.dom().contains(o) && n1[o] == n[o] by {
                if c.inf(o) { assert(t.kids[i].inf(o) && t.kids[g(j)].inf(o)); }
            }
            rep_frame(n, n1, d);
        }
    }
    assert forall|j: int, o: NodePieceOffset| 0 <= j < t2.kids.len() && #[trigger] t2.kids[j].inf(o) implies
        (if j == i || j == i + 1 { a.inf(o) && a.kids[j - i].inf(o) } else { t.kids[g(j)].inf(o) && n.dom().contains(o) && !a.inf(o) }) by {
        if j == i || j == i + 1 { assert(a.kids[j - i].inf(o)); }
        else {
            assert(t.kids[g(j)].inf(o));
            if a.inf(o) { assert(c.inf(o)); assert(t.kids[i].inf(o)); }
        }
    }
    assert forall|j: int, l: int, o: NodePieceOffset| 0 <= j < t2.kids.len() && 0 <= l < t2.kids.len() && #[trigger] t2.kids[j].inf(o) && #[trigger] t2.kids[l].inf(o)
        implies j == l by {
        if j == i || j == i + 1 {
            assert(a.inf(o));
            assert(l == i || l == i + 1);
            assert(a.kids[j - i].inf(o) && a.kids[l - i].inf(o));
        } else {
            assert(!a.inf(o));
            assert(!(l == i || l == i + 1));
            assert(t.kids[g(j)].inf(o) && t.kids[g(l)].inf(o));
        }
    }
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).dis() by {
        if j == i || j == i + 1 { assert(a.kids[j - i].dis()); } else { assert(t.kids[g(j)].dis()); }
    }
    assert(!t2.kinf(t.off)) by {
        if t2.kinf(t.off) {
            let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).inf(t.off);
            if j == i || j == i + 1 { assert(a.inf(t.off)); assert(c.inf(t.off) || !n.dom().contains(t.off)); } else { assert(t.kids[g(j)].inf(t.off)); assert(t.kinf(t.off)); }
        }
    }
    assert(t2.dis());
    assert forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) && !t.inf(o) implies n1.dom().contains(o) && n1[o] == n[o] by {
        if c.inf(o) { assert(t.kids[i].inf(o)); assert(t.kinf(o)); }
    }
    assert forall|o: NodePieceOffset| #[trigger] t2.inf(o) implies t.inf(o) || !n.dom().contains(o) by {
        if o != t.off {
            let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).inf(o);
            if j == i || j == i + 1 { assert(a.inf(o)); if c.inf(o) { assert(t.kids[i].inf(o)); assert(t.kinf(o)); } } else { assert(t.kids[g(j)].inf(o)); assert(t.kinf(o)); }
        }
    }
    assert forall|o: NodePieceOffset| #[trigger] n1.dom().contains(o) implies (n.dom().contains(o) && !t.inf(o)) || t2.inf(o) by {
        if a.inf(o) {
            if a.kids[0].inf(o) { assert(t2.kids[i].inf(o)); } else { assert(t2.kids[i + 1].inf(o)); }
            assert(t2.kinf(o));
        } else if t.inf(o) && o != t.off {
            let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).inf(o);
            if j == i { assert(c.inf(o)); } else if j < i { assert(t2.kids[j].inf(o)); assert(t2.kinf(o)); } else { assert(t2.kids[j + 1].inf(o)); assert(t2.kinf(o)); }
        }
    }
}
pub proof fn split_shape(t: Tree, i: int, a: Tree)
    requires
        t.bal(), t.fill(), is_split(a), a.bal(), a.kids_fill(), 0 <= i <= t.keys.len(), a.leaf() == t.leaf(),
        !t.leaf() ==> a.ht() == t.kids[i].ht() + 1,
    ensures with_split(t, i, a).bal(), with_split(t, i, a).kids_fill(), with_split(t, i, a).ht() == t.ht(),
{
    let t2 = with_split(t, i, a);
    if !t.leaf() {
        split_kids(t, i, a);
        assert(a.kids[0].ht() + 1 == a.ht());
        assert(a.kids[1].ht() == a.kids[0].ht());
        assert(t.kids[i].ht() == t.kids[0].ht());
        assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).ht() == t.kids[0].ht() && t2.kids[j].bal() && t2.kids[j].fill() && t2.kids[j].keys.len() >= MINK by {
            if j == i || j == i + 1 { let d = a.kids[j - i]; assert(d.bal() && d.fill() && d.keys.len() >= MINK); }
            else { let d = t.kids[if j < i { j } else { j - 1 }]; assert(d.ht() == t.kids[0].ht()); assert(d.bal() && d.fill() && d.keys.len() >= MINK); }
        }
    }
}
pub proof fn split_has(t: Tree, i: int, a: Tree, ko: KeyPieceOffset)
    requires
        is_split(a), 0 <= i <= t.keys.len(), a.leaf() == t.leaf(), !t.leaf() ==> i < t.kids.len(),
        t.leaf() ==> a.keys[0] == ko,
        !t.leaf() ==> forall|x: KeyPieceOffset| #[trigger] a.has(x) == (t.kids[i].has(x) || x == ko),
    ensures forall|x: KeyPieceOffset| #[trigger] with_split(t, i, a).has(x) == (t.has(x) || x == ko),
{
    let t2 = with_split(t, i, a);
    split_keys(t, i, a);
    if !t.leaf() { split_kids(t, i, a); }
    assert forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) || x == ko) by {
        assert(t2.keys[i] == a.keys[0]);
        if a.has(x) && !t.leaf() {
            if a.keys[0] == x { assert(t2.keys[i] == x); }
            else {
                let l = choose|l: int| 0 <= l < a.kids.len() && (#[trigger] a.kids[l]).has(x);
                assert(t2.kids[i + l].has(x));
            }
            assert(t2.has(x));
        }
        if t.has(x) {
            if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
                let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
                assert(t2.keys[if j < i { j } else { j + 1 }] == x);
            } else {
                let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
                if j == i { assert(a.has(x)); } else { assert(t2.kids[if j < i { j } else { j + 1 }].has(x)); }
            }
        }
        if t2.has(x) {
            if exists|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x {
                let j = choose|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x;
                if j == i {
                    assert(a.keys[0] == x); assert(a.has(x));
                    if !t.leaf() { if t.kids[i].has(x) { assert(t.has(x)); } }
                } else { assert(t.keys[if j < i { j } else { j - 1 }] == x); }
            } else {
                let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).has(x);
                if j == i || j == i + 1 { assert(a.kids[j - i].has(x)); assert(a.has(x)); if t.kids[i].has(x) { assert(t.has(x)); } }
                else { assert(t.kids[if j < i { j } else { j - 1 }].has(x)); }
            }
        }
    }
}
/// order: every key of a lies in the gap i of t
pub proof fn split_ord(t: Tree, i: int, a: Tree, k: KMap, k2: KMap)
    requires
        t.ord(k), a.ord(k2), is_split(a), 0 <= i <= t.keys.len(), a.leaf() == t.leaf(), t.leaf() || t.kids.len() == t.keys.len() + 1,
        forall|x: KeyPieceOffset| #[trigger] a.has(x) ==> in_gap(t, k, i, k2[x].key),
        forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> k2.dom().contains(x) && k2[x].key == k[x].key,
    ensures with_split(t, i, a).ord(k2),
{
    let t2 = with_split(t, i, a);
    split_keys(t, i, a);
    if !t.leaf() { split_kids(t, i, a); }
    let ka = a.keys[0];
    assert(a.has(ka));
    assert(k2.dom().contains(a.keys[0]) && a.keys[0].val != 0);
    assert forall|j: int| 0 <= j < t2.keys.len() implies k2.dom().contains(#[trigger] t2.keys[j]) && t2.keys[j].val != 0 by {
        if j != i { assert(t.has(t.keys[if j < i { j } else { j - 1 }])); }
    }
    assert forall|j: int| 0 <= j < t.keys.len() implies k2[#[trigger] t.keys[j]].key == k[t.keys[j]].key by { assert(t.has(t.keys[j])); }
    assert forall|x: int, y: int| 0 <= x < y < t2.keys.len() implies klt(k2[#[trigger] t2.keys[x]].key, k2[#[trigger] t2.keys[y]].key) by {
        if x == i { assert(klt(k2[ka].key, k[t.keys[y - 1]].key)); }
        else if y == i { assert(klt(k[t.keys[x]].key, k2[ka].key)); }
        else {
            let p = if x < i { x } else { x - 1 };
            let q = if y < i { y } else { y - 1 };
            assert(klt(k[t.keys[p]].key, k[t.keys[q]].key));
        }
    }
    assert forall|p: int, q: int, x: KeyPieceOffset| 0 <= p < t2.kids.len() && 0 <= q < t2.keys.len() && #[trigger] t2.kids[p].has(x) implies
        (if q < p { klt(k2[#[trigger] t2.keys[q]].key, k2[x].key) } else { klt(k2[x].key, k2[t2.keys[q]].key) }) by {
        if p == i || p == i + 1 {
            assert(a.kids[p - i].has(x));
            assert(a.has(x));
            if q == i {
                assert(a.keys[0] == t2.keys[q]);
            } else {
                let y = t.keys[if q < i { q } else { q - 1 }];
                assert(k2[y].key == k[y].key);
            }
        } else {
            let d = if p < i { p } else { p - 1 };
            assert(t.kids[d].has(x));
            assert(t.has(x));
            if q == i {
                // through a key of t between d and i
                if d < i { let y = t.keys[i - 1]; assert(klt(k[x].key, k[y].key)); assert(klt(k[y].key, k2[ka].key)); klt_trans(k[x].key, k[y].key, k2[ka].key); }
                else { let y = t.keys[i]; assert(klt(k[y].key, k[x].key)); assert(klt(k2[ka].key, k[y].key)); klt_trans(k2[ka].key, k[y].key, k[x].key); }
            } else {
                let y = t.keys[if q < i { q } else { q - 1 }];
                assert(k2[y].key == k[y].key);
            }
        }
    }
    assert forall|p: int| 0 <= p < t2.kids.len() implies (#[trigger] t2.kids[p]).ord(k2) by {
        if p == i || p == i + 1 { assert(a.kids[p - i].ord(k2)); }
        else {
            let d = t.kids[if p < i { p } else { p - 1 }];
            assert(d.ord(k));
            assert forall|x: KeyPieceOffset| #[trigger] d.has(x) implies k2.dom().contains(x) && k2[x].key == k[x].key by { assert(t.has(x)); }
            ord_frame(k, k2, d);
        }
    }
}
// ---------------------------------------------------------------- splitting an overfull node
pub open spec fn left_part(t: Tree, m: int, off: NodePieceOffset) -> Tree {
    Tree { off, keys: t.keys.subrange(0, m - 1), kids: if t.leaf() { t.kids } else { t.kids.subrange(0, m) } }
}
pub open spec fn right_part(t: Tree, m: int, off: NodePieceOffset) -> Tree {
    Tree { off, keys: t.keys.subrange(m, t.keys.len() as int), kids: if t.leaf() { t.kids } else { t.kids.subrange(m, t.kids.len() as int) } }
}
pub open spec fn split_of(t: Tree, m: int, ol: NodePieceOffset, or: NodePieceOffset) -> Tree {
    Tree { off: NodePieceOffset { val: 0 }, keys: seq![t.keys[m - 1]], kids: seq![left_part(t, m, ol), right_part(t, m, or)] }
}
/// first the right half is stored at a fresh place or, then the left half replaces the node t.off
pub proof fn split_node_store(n: NMap, t: Tree, m: int, n1: NMap, or: NodePieceOffset, n2: NMap, ol: NodePieceOffset)
    requires
        t.krep(n), t.dis(), t.off.val != 0, n.dom().contains(t.off), 1 <= m < t.keys.len(), t.leaf() || t.kids.len() == t.keys.len() + 1,
        or.val != 0, !n.dom().contains(or), n1 == n.insert(or, right_part(t, m, or).nv()),
        upd_node(n1, n2, t.off, ol, left_part(t, m, ol).nv()),
    ensures ({
        let a = split_of(t, m, ol, or);
        &&& a.krep(n2) && a.dis() && tpost(n, t, n2, a)
    }),
{
    let a = split_of(t, m, ol, or);
    let l = left_part(t, m, ol);
    let r = right_part(t, m, or);
    kids_dom(n, t);
    inf_kids(t); inf_kids(a); inf_kids(l); inf_kids(r);
    assert(!t.kinf(t.off));
    assert(a.kids[0] == l && a.kids[1] == r);
    assert forall|j: int| 0 <= j < t.kids.len() implies (#[trigger] t.kids[j]).rep(n2) by {
        let d = t.kids[j];
        assert(d.rep(n));
        assert forall|o: NodePieceOffset| #[trigger] d.inf(o) && n.dom().contains(o) implies n2.dom().contains(o) && n2[o] == n[o] by {
            assert(t.kinf(o));
        }
        rep_frame(n, n2, d);
    }
    assert(ol != or);
    assert(l.rep(n2)) by {
        assert forall|j: int| 0 <= j < l.kids.len() implies (#[trigger] l.kids[j]).rep(n2) by { assert(t.kids[j].rep(n2)); }
        assert(n2[ol] == l.nv());
    }
    assert(r.rep(n2)) by {
        assert forall|j: int| 0 <= j < r.kids.len() implies (#[trigger] r.kids[j]).rep(n2) by { assert(t.kids[j + m].rep(n2)); }
        assert(n2[or] == r.nv());
    }
    assert(a.krep(n2));
    assert forall|o: NodePieceOffset| #[trigger] l.kinf(o) implies t.kinf(o) && o != or && o != ol by {
        let j = choose|j: int| 0 <= j < l.kids.len() && (#[trigger] l.kids[j]).inf(o);
        assert(t.kids[j].inf(o));
    }
    assert forall|o: NodePieceOffset| #[trigger] r.kinf(o) implies t.kinf(o) && o != or && o != ol by {
        let j = choose|j: int| 0 <= j < r.kids.len() && (#[trigger] r.kids[j]).inf(o);
        assert(t.kids[j + m].inf(o));
    }
    assert(l.dis()) by {
        assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < l.kids.len() && 0 <= j < l.kids.len() && #[trigger] l.kids[i].inf(o) && #[trigger] l.kids[j].inf(o) implies i == j by {
            assert(t.kids[i].inf(o) && t.kids[j].inf(o));
        }
        assert forall|j: int| 0 <= j < l.kids.len() implies (#[trigger] l.kids[j]).dis() by { assert(t.kids[j].dis()); }
    }
    assert(r.dis()) by {
        assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < r.kids.len() && 0 <= j < r.kids.len() && #[trigger] r.kids[i].inf(o) && #[trigger] r.kids[j].inf(o) implies i == j by {
            assert(t.kids[i + m].inf(o) && t.kids[j + m].inf(o));
        }
        assert forall|j: int| 0 <= j < r.kids.len() implies (#[trigger] r.kids[j]).dis() by { assert(t.kids[j + m].dis()); }
    }
    assert forall|o: NodePieceOffset| !(#[trigger] l.inf(o) && r.inf(o)) by {
        if l.inf(o) && r.inf(o) {
            if l.kinf(o) && r.kinf(o) {
                let i = choose|j: int| 0 <= j < l.kids.len() && (#[trigger] l.kids[j]).inf(o);
                let j = choose|j: int| 0 <= j < r.kids.len() && (#[trigger] r.kids[j]).inf(o);
                assert(t.kids[i].inf(o) && t.kids[j + m].inf(o));
            }
        }
    }
    assert(a.dis()) by {
        assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < a.kids.len() && 0 <= j < a.kids.len() && #[trigger] a.kids[i].inf(o) && #[trigger] a.kids[j].inf(o) implies i == j by {
            if i != j { assert(l.inf(o) && r.inf(o)); }
        }
    }
    assert forall|o: NodePieceOffset| #[trigger] a.inf(o) == (l.inf(o) || r.inf(o)) by {
        if l.inf(o) { assert(a.kids[0].inf(o)); assert(a.kinf(o)); }
        if r.inf(o) { assert(a.kids[1].inf(o)); assert(a.kinf(o)); }
    }
    assert forall|o: NodePieceOffset| #[trigger] t.kinf(o) implies l.inf(o) || r.inf(o) by {
        let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).inf(o);
        if j < m { assert(l.kids[j].inf(o)); assert(l.kinf(o)); } else { assert(r.kids[j - m].inf(o)); assert(r.kinf(o)); }
    }
    assert(l.inf(ol) && r.inf(or));
    assert forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) && !t.inf(o) implies n2.dom().contains(o) && n2[o] == n[o] by {}
    assert forall|o: NodePieceOffset| #[trigger] a.inf(o) implies t.inf(o) || !n.dom().contains(o) by {}
    assert forall|o: NodePieceOffset| #[trigger] n2.dom().contains(o) implies (n.dom().contains(o) && !t.inf(o)) || a.inf(o) by {}
}
pub proof fn split_node_shape(t: Tree, m: int, ol: NodePieceOffset, or: NodePieceOffset)
    requires
        t.bal(), t.kids_fill(), MINK + 1 <= m <= MAXK + 1, MINK <= t.keys.len() - m <= MAXK,
    ensures split_of(t, m, ol, or).bal(), split_of(t, m, ol, or).kids_fill(), split_of(t, m, ol, or).ht() == t.ht() + 1,
{
    let a = split_of(t, m, ol, or);
    let l = left_part(t, m, ol);
    let r = right_part(t, m, or);
    assert(a.kids[0] == l && a.kids[1] == r);
    assert forall|j: int| 0 <= j < l.kids.len() implies (#[trigger] l.kids[j]).ht() == t.kids[0].ht() && l.kids[j].bal() && l.kids[j].fill() && l.kids[j].keys.len() >= MINK by {
        let d = t.kids[j];
        assert(d.ht() == t.kids[0].ht() && d.bal() && d.fill() && d.keys.len() >= MINK);
    }
    assert forall|j: int| 0 <= j < r.kids.len() implies (#[trigger] r.kids[j]).ht() == t.kids[0].ht() && r.kids[j].bal() && r.kids[j].fill() && r.kids[j].keys.len() >= MINK by {
        let d = t.kids[j + m];
        assert(d.ht() == t.kids[0].ht() && d.bal() && d.fill() && d.keys.len() >= MINK);
    }
    assert(l.bal() && r.bal());
    assert(l.ht() == t.ht() && r.ht() == t.ht());
    assert(l.fill() && r.fill());
    assert forall|j: int| 0 <= j < a.kids.len() implies (#[trigger] a.kids[j]).ht() == a.kids[0].ht() && a.kids[j].bal() by { }
    assert(a.bal());
}
pub proof fn split_node_has(t: Tree, m: int, ol: NodePieceOffset, or: NodePieceOffset)
    requires 1 <= m < t.keys.len(), t.leaf() || t.kids.len() == t.keys.len() + 1,
    ensures split_of(t, m, ol, or).has_eq(t),
{
    let a = split_of(t, m, ol, or);
    let l = left_part(t, m, ol);
    let r = right_part(t, m, or);
    assert(a.kids[0] == l && a.kids[1] == r);
    assert forall|x: KeyPieceOffset| #[trigger] a.has(x) == t.has(x) by {
        if t.has(x) {
            if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
                let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
                if j < m - 1 { assert(l.keys[j] == x); assert(a.kids[0].has(x)); }
                else if j == m - 1 { assert(a.keys[0] == x); }
                else { assert(r.keys[j - m] == x); assert(a.kids[1].has(x)); }
            } else {
                let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
                if j < m { assert(l.kids[j].has(x)); assert(a.kids[0].has(x)); } else { assert(r.kids[j - m].has(x)); assert(a.kids[1].has(x)); }
            }
        }
        if a.has(x) {
            if a.keys[0] == x { assert(t.keys[m - 1] == x); }
            else {
                let i = choose|i: int| 0 <= i < a.kids.len() && (#[trigger] a.kids[i]).has(x);
                let c = a.kids[i];
                let s = if i == 0 { 0 } else { m };
                if exists|j: int| 0 <= j < c.keys.len() && #[trigger] c.keys[j] == x {
                    let j = choose|j: int| 0 <= j < c.keys.len() && #[trigger] c.keys[j] == x;
                    assert(t.keys[j + s] == x);
                } else {
                    let j = choose|j: int| 0 <= j < c.kids.len() && (#[trigger] c.kids[j]).has(x);
                    assert(t.kids[j + s].has(x));
                }
            }
        }
    }
}
pub proof fn part_ord(t: Tree, m: int, off: NodePieceOffset, k: KMap)
    requires t.ord(k), 1 <= m < t.keys.len(), t.leaf() || t.kids.len() == t.keys.len() + 1,
    ensures left_part(t, m, off).ord(k), right_part(t, m, off).ord(k),
        forall|x: KeyPieceOffset| #[trigger] left_part(t, m, off).has(x) ==> klt(k[x].key, k[t.keys[m - 1]].key),
        forall|x: KeyPieceOffset| #[trigger] right_part(t, m, off).has(x) ==> klt(k[t.keys[m - 1]].key, k[x].key),
{
    let l = left_part(t, m, off);
    let r = right_part(t, m, off);
    assert forall|x: KeyPieceOffset| #[trigger] l.has(x) implies klt(k[x].key, k[t.keys[m - 1]].key) by {
        if exists|j: int| 0 <= j < l.keys.len() && #[trigger] l.keys[j] == x {
            let j = choose|j: int| 0 <= j < l.keys.len() && #[trigger] l.keys[j] == x;
            assert(t.keys[j] == x);
        } else {
            let j = choose|j: int| 0 <= j < l.kids.len() && (#[trigger] l.kids[j]).has(x);
            assert(t.kids[j].has(x));
        }
    }
    assert forall|x: KeyPieceOffset| #[trigger] r.has(x) implies klt(k[t.keys[m - 1]].key, k[x].key) by {
        if exists|j: int| 0 <= j < r.keys.len() && #[trigger] r.keys[j] == x {
            let j = choose|j: int| 0 <= j < r.keys.len() && #[trigger] r.keys[j] == x;
            assert(t.keys[j + m] == x);
        } else {
            let j = choose|j: int| 0 <= j < r.kids.len() && (#[trigger] r.kids[j]).has(x);
            assert(t.kids[j + m].has(x));
        }
    }
    assert(l.ord(k)) by {
        assert forall|i: int| 0 <= i < l.keys.len() implies k.dom().contains(#[trigger] l.keys[i]) && l.keys[i].val != 0 by { let y = t.keys[i]; assert(k.dom().contains(t.keys[i])); }
        assert forall|i: int, j: int| 0 <= i < j < l.keys.len() implies klt(k[#[trigger] l.keys[i]].key, k[#[trigger] l.keys[j]].key) by { assert(klt(k[t.keys[i]].key, k[t.keys[j]].key)); }
        assert forall|i: int, j: int, x: KeyPieceOffset| 0 <= i < l.kids.len() && 0 <= j < l.keys.len() && #[trigger] l.kids[i].has(x) implies
            (if j < i { klt(k[#[trigger] l.keys[j]].key, k[x].key) } else { klt(k[x].key, k[l.keys[j]].key) }) by {
            assert(t.kids[i].has(x)); let y = t.keys[j];
            assert(l.keys[j] == y);
        }
        assert forall|i: int| 0 <= i < l.kids.len() implies (#[trigger] l.kids[i]).ord(k) by { assert(t.kids[i].ord(k)); }
    }
    assert(r.ord(k)) by {
        assert forall|i: int| 0 <= i < r.keys.len() implies k.dom().contains(#[trigger] r.keys[i]) && r.keys[i].val != 0 by { assert(k.dom().contains(t.keys[i + m])); }
        assert forall|i: int, j: int| 0 <= i < j < r.keys.len() implies klt(k[#[trigger] r.keys[i]].key, k[#[trigger] r.keys[j]].key) by { assert(klt(k[t.keys[i + m]].key, k[t.keys[j + m]].key)); }
        assert forall|i: int, j: int, x: KeyPieceOffset| 0 <= i < r.kids.len() && 0 <= j < r.keys.len() && #[trigger] r.kids[i].has(x) implies
            (if j < i { klt(k[#[trigger] r.keys[j]].key, k[x].key) } else { klt(k[x].key, k[r.keys[j]].key) }) by {
            assert(t.kids[i + m].has(x)); let y = t.keys[j + m];
            assert(r.keys[j] == y);
        }
        assert forall|i: int| 0 <= i < r.kids.len() implies (#[trigger] r.kids[i]).ord(k) by { assert(t.kids[i + m].ord(k)); }
    }
}
pub proof fn split_node_ord(t: Tree, m: int, ol: NodePieceOffset, or: NodePieceOffset, k: KMap)
    requires t.ord(k), 1 <= m < t.keys.len(), t.leaf() || t.kids.len() == t.keys.len() + 1,
    ensures split_of(t, m, ol, or).ord(k),
{
    let a = split_of(t, m, ol, or);
    part_ord(t, m, ol, k);
    part_ord(t, m, or, k);
    assert(a.kids[0] == left_part(t, m, ol) && a.kids[1] == right_part(t, m, or));
    assert(k.dom().contains(t.keys[m - 1]));
    assert forall|i: int, j: int, x: KeyPieceOffset| 0 <= i < a.kids.len() && 0 <= j < a.keys.len() && #[trigger] a.kids[i].has(x) implies
        (if j < i { klt(k[#[trigger] a.keys[j]].key, k[x].key) } else { klt(k[x].key, k[a.keys[j]].key) }) by {
    }
    assert forall|i: int| 0 <= i < a.kids.len() implies (#[trigger] a.kids[i]).ord(k) by { }
}

/// where the root is stored does not matter for order and shape
pub proof fn moved_ord(t: Tree, off: NodePieceOffset, k: KMap)
    requires t.ord(k),
    ensures (Tree { off, ..t }).ord(k),
{}
pub proof fn moved_shape(t: Tree, off: NodePieceOffset)
    ensures (Tree { off, ..t }).bal() == t.bal(), (Tree { off, ..t }).fill() == t.fill(), (Tree { off, ..t }).ht() == t.ht(), (Tree { off, ..t }).kids_fill() == t.kids_fill(),
        (Tree { off, ..t }).has_eq(t),
{}
