// ---------------------------------------------------------------- two neighbours, flattened and regrouped
pub open spec fn pair(l: Tree, key: KeyPieceOffset, r: Tree) -> Tree { Tree { off: NodePieceOffset { val: 0 }, keys: seq![key], kids: seq![l, r] } }
pub open spec fn only(m: Tree) -> Tree { Tree { off: NodePieceOffset { val: 0 }, keys: Seq::empty(), kids: seq![m] } }
pub open spec fn flat(l: Tree, key: KeyPieceOffset, r: Tree, off: NodePieceOffset) -> Tree {
    Tree { off, keys: l.keys.push(key) + r.keys, kids: l.kids + r.kids }
}
pub open spec fn twins(l: Tree, r: Tree) -> bool {
    &&& l.leaf() == r.leaf()
    &&& l.leaf() || (l.kids.len() == l.keys.len() + 1 && r.kids.len() == r.keys.len() + 1)
}
pub proof fn flat_split(l: Tree, key: KeyPieceOffset, r: Tree, off: NodePieceOffset)
    requires twins(l, r),
    ensures split_of(flat(l, key, r, off), l.keys.len() as int + 1, l.off, r.off) == pair(l, key, r),
{
    let f = flat(l, key, r, off);
    let m = l.keys.len() as int + 1;
    assert(f.keys[m - 1] == key);
    assert(left_part(f, m, l.off).keys =~= l.keys);
    assert(right_part(f, m, r.off).keys =~= r.keys);
    assert(left_part(f, m, l.off).kids =~= l.kids);
    assert(right_part(f, m, r.off).kids =~= r.kids);
    assert(split_of(f, m, l.off, r.off).keys =~= seq![key]);
    assert(split_of(f, m, l.off, r.off).kids =~= seq![l, r]);
}
pub proof fn flat_has(l: Tree, key: KeyPieceOffset, r: Tree, off: NodePieceOffset)
    requires twins(l, r),
    ensures flat(l, key, r, off).has_eq(pair(l, key, r)), only(flat(l, key, r, off)).has_eq(pair(l, key, r)),
{
    let f = flat(l, key, r, off);
    let p = pair(l, key, r);
    let o = only(f);
    assert(o.kids[0] == f);
    assert(p.kids[0] == l && p.kids[1] == r && p.keys[0] == key);
    assert forall|x: KeyPieceOffset| #[trigger] f.has(x) == p.has(x) by {
        if f.has(x) {
            if exists|j: int| 0 <= j < f.keys.len() && #[trigger] f.keys[j] == x {
                let j = choose|j: int| 0 <= j < f.keys.len() && #[trigger] f.keys[j] == x;
                if j < l.keys.len() { assert(l.keys[j] == x); assert(p.kids[0].has(x)); }
                else if j > l.keys.len() { assert(r.keys[j - l.keys.len() - 1] == x); assert(p.kids[1].has(x)); }
                else { assert(p.keys[0] == x); }
            } else {
                let j = choose|j: int| 0 <= j < f.kids.len() && (#[trigger] f.kids[j]).has(x);
                if j < l.kids.len() { assert(l.kids[j].has(x)); assert(p.kids[0].has(x)); }
                else { assert(r.kids[j - l.kids.len()].has(x)); assert(p.kids[1].has(x)); }
            }
        }
        if p.has(x) {
            if p.keys[0] == x { assert(f.keys[l.keys.len() as int] == x); }
            else {
                let i = choose|i: int| 0 <= i < p.kids.len() && (#[trigger] p.kids[i]).has(x);
                let c = p.kids[i];
                if exists|j: int| 0 <= j < c.keys.len() && #[trigger] c.keys[j] == x {
                    let j = choose|j: int| 0 <= j < c.keys.len() && #[trigger] c.keys[j] == x;
                    if i == 0 { assert(f.keys[j] == x); } else { assert(f.keys[j + l.keys.len() + 1] == x); }
                } else {
                    let j = choose|j: int| 0 <= j < c.kids.len() && (#[trigger] c.kids[j]).has(x);
                    if i == 0 { assert(f.kids[j].has(x)); } else { assert(f.kids[j + l.kids.len()].has(x)); }
                }
            }
        }
    }
    assert forall|x: KeyPieceOffset| #[trigger] o.has(x) == p.has(x) by {
        if f.has(x) { assert(o.kids[0].has(x)); }
    }
}
pub proof fn flat_ord(l: Tree, key: KeyPieceOffset, r: Tree, off: NodePieceOffset, k: KMap)
    requires twins(l, r), pair(l, key, r).ord(k),
    ensures flat(l, key, r, off).ord(k),
{
    broadcast use klt_trans;
    let f = flat(l, key, r, off);
    let p = pair(l, key, r);
    let ll = l.keys.len() as int;
    assert(p.kids[0] == l && p.kids[1] == r && p.keys[0] == key);
    assert(l.ord(k) && r.ord(k));
    assert forall|x: KeyPieceOffset| #[trigger] l.has(x) implies klt(k[x].key, k[key].key) by { assert(p.kids[0].has(x)); }
    assert forall|x: KeyPieceOffset| #[trigger] r.has(x) implies klt(k[key].key, k[x].key) by { assert(p.kids[1].has(x)); }
    assert forall|i: int| 0 <= i < l.keys.len() implies l.has(#[trigger] l.keys[i]) by {}
    assert forall|i: int| 0 <= i < r.keys.len() implies r.has(#[trigger] r.keys[i]) by {}
    assert forall|i: int, x: KeyPieceOffset| 0 <= i < l.kids.len() && #[trigger] l.kids[i].has(x) implies l.has(x) by {}
    assert forall|i: int, x: KeyPieceOffset| 0 <= i < r.kids.len() && #[trigger] r.kids[i].has(x) implies r.has(x) by {}
    assert forall|i: int| 0 <= i < f.keys.len() implies k.dom().contains(#[trigger] f.keys[i]) && f.keys[i].val != 0 by {
        if i < ll { assert(f.keys[i] == l.keys[i]); } else if i > ll { assert(f.keys[i] == r.keys[i - ll - 1]); } else { assert(k.dom().contains(p.keys[0])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < f.keys.len() implies klt(k[#[trigger] f.keys[i]].key, k[#[trigger] f.keys[j]].key) by {
        if i < ll { assert(f.keys[i] == l.keys[i]); } else if i > ll { assert(f.keys[i] == r.keys[i - ll - 1]); }
        if j < ll { assert(f.keys[j] == l.keys[j]); } else if j > ll { assert(f.keys[j] == r.keys[j - ll - 1]); }
    }
    assert forall|i: int, j: int, x: KeyPieceOffset| 0 <= i < f.kids.len() && 0 <= j < f.keys.len() && #[trigger] f.kids[i].has(x) implies
        (if j < i { klt(k[#[trigger] f.keys[j]].key, k[x].key) } else { klt(k[x].key, k[f.keys[j]].key) }) by {
        if j < ll { assert(f.keys[j] == l.keys[j]); } else if j > ll { assert(f.keys[j] == r.keys[j - ll - 1]); }
        if i <= ll { assert(f.kids[i] == l.kids[i]); assert(l.kids[i].has(x)); } else { assert(f.kids[i] == r.kids[i - ll - 1]); assert(r.kids[i - ll - 1].has(x)); }
    }
    assert forall|i: int| 0 <= i < f.kids.len() implies (#[trigger] f.kids[i]).ord(k) by {
        if i < l.kids.len() { assert(f.kids[i] == l.kids[i]); } else { assert(f.kids[i] == r.kids[i - l.kids.len()]); }
    }
}
pub proof fn flat_shape(l: Tree, key: KeyPieceOffset, r: Tree, off: NodePieceOffset)
    requires pair(l, key, r).bal(), l.fill(), r.fill(),
    ensures twins(l, r), flat(l, key, r, off).bal(), flat(l, key, r, off).kids_fill(), flat(l, key, r, off).ht() == l.ht(), l.ht() == r.ht(), pair(l, key, r).ht() == l.ht() + 1,
{
    let f = flat(l, key, r, off);
    let p = pair(l, key, r);
    assert(p.kids[0] == l && p.kids[1] == r);
    assert(l.ht() == r.ht() && l.bal() && r.bal());
    assert forall|i: int| 0 <= i < f.kids.len() implies (#[trigger] f.kids[i]).ht() == f.kids[0].ht() && f.kids[i].bal() && f.kids[i].keys.len() >= MINK && f.kids[i].fill() by {
        if i < l.kids.len() { assert(f.kids[i] == l.kids[i]); assert(l.kids[i].ht() == l.kids[0].ht() && l.kids[i].bal() && l.kids[i].keys.len() >= MINK && l.kids[i].fill()); }
        else { let c = r.kids[i - l.kids.len()]; assert(f.kids[i] == c); assert(c.ht() == r.kids[0].ht() && c.bal() && c.keys.len() >= MINK && c.fill()); }
        assert(f.kids[0] == l.kids[0]);
        assert(r.kids[0].ht() == l.kids[0].ht());
    }
}
/// the roots of l and r are gone or rewritten, everything else is as it was
pub open spec fn roots_changed(n: NMap, l: NodePieceOffset, r: NodePieceOffset, n2: NMap, new: Set<NodePieceOffset>) -> bool {
    &&& forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) && o != l && o != r ==> n2.dom().contains(o) && n2[o] == n[o]
    &&& forall|o: NodePieceOffset| #[trigger] n2.dom().contains(o) ==> (n.dom().contains(o) && o != l && o != r) || new.contains(o)
    &&& forall|o: NodePieceOffset| #[trigger] new.contains(o) ==> o.val != 0 && n2.dom().contains(o) && (o == l || o == r || !n.dom().contains(o))
}
pub proof fn flat_kids(n: NMap, l: Tree, key: KeyPieceOffset, r: Tree, off: NodePieceOffset)
    requires pair(l, key, r).krep(n), pair(l, key, r).dis(), twins(l, r),
    ensures ({
        let f = flat(l, key, r, off);
        let p = pair(l, key, r);
        &&& f.krep(n) && l.off.val != 0 && r.off.val != 0 && l.off != r.off && !f.kinf(l.off) && !f.kinf(r.off)
        &&& n.dom().contains(l.off) && n.dom().contains(r.off)
        &&& forall|o: NodePieceOffset| #[trigger] f.kinf(o) ==> n.dom().contains(o)
        &&& forall|o: NodePieceOffset| #[trigger] p.inf(o) == (f.kinf(o) || o == l.off || o == r.off)
        &&& forall|i: int, j: int, o: NodePieceOffset| 0 <= i < f.kids.len() && 0 <= j < f.kids.len() && #[trigger] f.kids[i].inf(o) && #[trigger] f.kids[j].inf(o) ==> i == j
        &&& forall|i: int| 0 <= i < f.kids.len() ==> (#[trigger] f.kids[i]).dis()
    }),
{
    let f = flat(l, key, r, off);
    let p = pair(l, key, r);
    assert(p.kids[0] == l && p.kids[1] == r);
    assert(l.rep(n) && r.rep(n) && l.dis() && r.dis());
    inf_kids(p); inf_kids(l); inf_kids(r);
    kids_dom(n, p);
    assert(l.inf(l.off) && r.inf(r.off));
    assert(p.kids[0].inf(l.off) && p.kids[1].inf(r.off));
    assert forall|o: NodePieceOffset| #[trigger] p.inf(o) == (l.inf(o) || r.inf(o)) by {
        if l.inf(o) { assert(p.kids[0].inf(o)); assert(p.kinf(o)); }
        if r.inf(o) { assert(p.kids[1].inf(o)); assert(p.kinf(o)); }
        if p.inf(o) { let i = choose|i: int| 0 <= i < p.kids.len() && (#[trigger] p.kids[i]).inf(o); }
    }
    assert forall|o: NodePieceOffset| !(#[trigger] l.inf(o) && r.inf(o)) by {
        if l.inf(o) && r.inf(o) { assert(p.kids[0].inf(o) && p.kids[1].inf(o)); }
    }
    assert forall|o: NodePieceOffset| #[trigger] f.kinf(o) == (l.kinf(o) || r.kinf(o)) by {
        if f.kinf(o) {
            let i = choose|i: int| 0 <= i < f.kids.len() && (#[trigger] f.kids[i]).inf(o);
            if i < l.kids.len() { assert(l.kids[i].inf(o)); } else { assert(r.kids[i - l.kids.len()].inf(o)); }
        }
        if l.kinf(o) { let i = choose|i: int| 0 <= i < l.kids.len() && (#[trigger] l.kids[i]).inf(o); assert(f.kids[i].inf(o)); }
        if r.kinf(o) { let i = choose|i: int| 0 <= i < r.kids.len() && (#[trigger] r.kids[i]).inf(o); assert(f.kids[i + l.kids.len()].inf(o)); }
    }
    assert forall|o: NodePieceOffset| #[trigger] f.kinf(o) implies n.dom().contains(o) by {
        if l.inf(o) { inf_dom(n, l, o); } else { inf_dom(n, r, o); }
    }
    assert(l.inf(l.off) && r.inf(r.off));
    assert(!l.inf(r.off) && !r.inf(l.off));
    assert forall|i: int| 0 <= i < f.kids.len() implies (#[trigger] f.kids[i]).rep(n) && f.kids[i].dis() by {
        if i < l.kids.len() { assert(l.kids[i].rep(n) && l.kids[i].dis()); } else { let c = r.kids[i - l.kids.len()]; assert(c.rep(n) && c.dis()); }
    }
    assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < f.kids.len() && 0 <= j < f.kids.len() && #[trigger] f.kids[i].inf(o) && #[trigger] f.kids[j].inf(o) implies i == j by {
        let ll = l.kids.len() as int;
        if i < ll { assert(l.kids[i].inf(o)); assert(l.kinf(o)); } else { assert(r.kids[i - ll].inf(o)); assert(r.kinf(o)); }
        if j < ll { assert(l.kids[j].inf(o)); assert(l.kinf(o)); } else { assert(r.kids[j - ll].inf(o)); assert(r.kinf(o)); }
        assert(!(l.inf(o) && r.inf(o)));
    }
}
/// regrouped into two at m
pub proof fn regroup_store(n: NMap, l: Tree, key: KeyPieceOffset, r: Tree, m: int, ol: NodePieceOffset, or: NodePieceOffset, n2: NMap)
    requires
        pair(l, key, r).krep(n), pair(l, key, r).dis(), twins(l, r), 1 <= m < l.keys.len() + 1 + r.keys.len(),
        roots_changed(n, l.off, r.off, n2, set![ol, or]), ol != or,
        n2[ol] == left_part(flat(l, key, r, l.off), m, ol).nv(), n2[or] == right_part(flat(l, key, r, l.off), m, or).nv(),
    ensures ({
        let a = split_of(flat(l, key, r, l.off), m, ol, or);
        &&& a.krep(n2) && a.dis() && tpost(n, pair(l, key, r), n2, a)
    }),
{
    let t = flat(l, key, r, l.off);
    let p = pair(l, key, r);
    let a = split_of(t, m, ol, or);
    let lp = left_part(t, m, ol);
    let rp = right_part(t, m, or);
    flat_kids(n, l, key, r, l.off);
    inf_kids(a); inf_kids(lp); inf_kids(rp); inf_kids(p);
    let new = set![ol, or];
    assert(new.contains(ol) && new.contains(or));
    assert(a.kids[0] == lp && a.kids[1] == rp);
    assert forall|j: int| 0 <= j < t.kids.len() implies (#[trigger] t.kids[j]).rep(n2) by {
        let d = t.kids[j];
        assert(d.rep(n));
        assert forall|o: NodePieceOffset| #[trigger] d.inf(o) && n.dom().contains(o) implies n2.dom().contains(o) && n2[o] == n[o] by {
            assert(t.kinf(o));
        }
        rep_frame(n, n2, d);
    }
    assert(lp.rep(n2)) by {
        assert forall|j: int| 0 <= j < lp.kids.len() implies (#[trigger] lp.kids[j]).rep(n2) by { assert(t.kids[j].rep(n2)); }
    }
    assert(rp.rep(n2)) by {
        assert forall|j: int| 0 <= j < rp.kids.len() implies (#[trigger] rp.kids[j]).rep(n2) by { assert(t.kids[j + m].rep(n2)); }
    }
    assert(a.krep(n2));
    assert forall|o: NodePieceOffset| #[trigger] lp.kinf(o) implies t.kinf(o) && o != or && o != ol by {
        let j = choose|j: int| 0 <= j < lp.kids.len() && (#[trigger] lp.kids[j]).inf(o);
        assert(t.kids[j].inf(o));
    }
    assert forall|o: NodePieceOffset| #[trigger] rp.kinf(o) implies t.kinf(o) && o != or && o != ol by {
        let j = choose|j: int| 0 <= j < rp.kids.len() && (#[trigger] rp.kids[j]).inf(o);
        assert(t.kids[j + m].inf(o));
    }
    assert(lp.dis()) by {
        assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < lp.kids.len() && 0 <= j < lp.kids.len() && #[trigger] lp.kids[i].inf(o) && #[trigger] lp.kids[j].inf(o) implies i == j by {
            assert(t.kids[i].inf(o) && t.kids[j].inf(o));
        }
        assert forall|j: int| 0 <= j < lp.kids.len() implies (#[trigger] lp.kids[j]).dis() by { assert(t.kids[j].dis()); }
    }
    assert(rp.dis()) by {
        assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < rp.kids.len() && 0 <= j < rp.kids.len() && #[trigger] rp.kids[i].inf(o) && #[trigger] rp.kids[j].inf(o) implies i == j by {
            assert(t.kids[i + m].inf(o) && t.kids[j + m].inf(o));
        }
        assert forall|j: int| 0 <= j < rp.kids.len() implies (#[trigger] rp.kids[j]).dis() by { assert(t.kids[j + m].dis()); }
    }
    assert forall|o: NodePieceOffset| !(#[trigger] lp.inf(o) && rp.inf(o)) by {
        if lp.inf(o) && rp.inf(o) {
            if lp.kinf(o) && rp.kinf(o) {
                let i = choose|j: int| 0 <= j < lp.kids.len() && (#[trigger] lp.kids[j]).inf(o);
                let j = choose|j: int| 0 <= j < rp.kids.len() && (#[trigger] rp.kids[j]).inf(o);
                assert(t.kids[i].inf(o) && t.kids[j + m].inf(o));
            }
        }
    }
    assert(a.dis()) by {
        assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < a.kids.len() && 0 <= j < a.kids.len() && #[trigger] a.kids[i].inf(o) && #[trigger] a.kids[j].inf(o) implies i == j by {
            if i != j { assert(lp.inf(o) && rp.inf(o)); }
        }
    }
    assert forall|o: NodePieceOffset| #[trigger] a.inf(o) == (lp.inf(o) || rp.inf(o)) by {
        if lp.inf(o) { assert(a.kids[0].inf(o)); assert(a.kinf(o)); }
        if rp.inf(o) { assert(a.kids[1].inf(o)); assert(a.kinf(o)); }
    }
    assert forall|o: NodePieceOffset| #[trigger] t.kinf(o) implies lp.inf(o) || rp.inf(o) by {
        let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).inf(o);
        if j < m { assert(lp.kids[j].inf(o)); assert(lp.kinf(o)); } else { assert(rp.kids[j - m].inf(o)); assert(rp.kinf(o)); }
    }
    assert(lp.inf(ol) && rp.inf(or));
    assert forall|o: NodePieceOffset| #[trigger] n2.dom().contains(o) implies (n.dom().contains(o) && !p.inf(o)) || a.inf(o) by {
        if new.contains(o) { assert(o == ol || o == or); }
    }
    assert forall|o: NodePieceOffset| #[trigger] a.inf(o) implies p.inf(o) || !n.dom().contains(o) by {}
}
/// merged into one
pub proof fn merge_store(n: NMap, l: Tree, key: KeyPieceOffset, r: Tree, ol: NodePieceOffset, n2: NMap)
    requires
        pair(l, key, r).krep(n), pair(l, key, r).dis(), twins(l, r),
        roots_changed(n, l.off, r.off, n2, set![ol]),
        n2[ol] == flat(l, key, r, ol).nv(),
    ensures ({
        let a = only(flat(l, key, r, ol));
        &&& a.krep(n2) && a.dis() && tpost(n, pair(l, key, r), n2, a)
    }),
{
    let t = flat(l, key, r, ol);
    let p = pair(l, key, r);
    let a = only(t);
    flat_kids(n, l, key, r, ol);
    inf_kids(a); inf_kids(t); inf_kids(p);
    let new = set![ol];
    assert(new.contains(ol));
    assert(a.kids[0] == t);
    assert forall|j: int| 0 <= j < t.kids.len() implies (#[trigger] t.kids[j]).rep(n2) by {
        let d = t.kids[j];
        assert(d.rep(n));
        assert forall|o: NodePieceOffset| #[trigger] d.inf(o) && n.dom().contains(o) implies n2.dom().contains(o) && n2[o] == n[o] by {
            assert(t.kinf(o));
        }
        rep_frame(n, n2, d);
    }
    assert(t.rep(n2));
    assert(t.dis());
    assert(a.dis());
    assert forall|o: NodePieceOffset| #[trigger] a.inf(o) == t.inf(o) by {
        if t.inf(o) { assert(a.kids[0].inf(o)); assert(a.kinf(o)); }
    }
    assert(t.inf(ol));
}
// ---------------------------------------------------------------- a stands for the children i, i+1 and the key i of t
pub open spec fn splice(t: Tree, i: int, a: Tree) -> Tree {
    Tree {
        off: t.off,
        keys: t.keys.subrange(0, i) + a.keys + t.keys.subrange(i + 1, t.keys.len() as int),
        kids: t.kids.subrange(0, i) + a.kids + t.kids.subrange(i + 2, t.kids.len() as int),
    }
}
pub open spec fn pair_at(t: Tree, i: int) -> Tree { pair(t.kids[i], t.keys[i], t.kids[i + 1]) }
pub open spec fn can_splice(t: Tree, i: int, a: Tree) -> bool {
    0 <= i < t.keys.len() && t.kids.len() == t.keys.len() + 1 && a.off.val == 0 && a.kids.len() == a.keys.len() + 1
}
/// where child j of the splice comes from
pub open spec fn src(i: int, d: int, j: int) -> int { if j < i { j } else { j - d + 2 } }
pub proof fn splice_kids(t: Tree, i: int, a: Tree)
    requires can_splice(t, i, a),
    ensures ({
        let s = splice(t, i, a);
        let d = a.kids.len() as int;
        &&& s.kids.len() == t.kids.len() + d - 2 && s.keys.len() == t.keys.len() + a.keys.len() - 1
        &&& forall|j: int| 0 <= j < s.kids.len() ==> #[trigger] s.kids[j] == (if i <= j < i + d { a.kids[j - i] } else { t.kids[src(i, d, j)] })
        &&& forall|j: int| 0 <= j < s.keys.len() ==> #[trigger] s.keys[j] == (if i <= j < i + d - 1 { a.keys[j - i] } else { t.keys[src(i, d, j)] })
    }),
{}
pub proof fn pair_of(n: NMap, t: Tree, i: int, k: KMap)
    requires t.krep(n), t.dis(), t.bal(), t.ord(k), 0 <= i < t.keys.len(), t.kids.len() > 0,
    ensures pair_at(t, i).krep(n), pair_at(t, i).dis(), pair_at(t, i).bal(), pair_at(t, i).ord(k), twins(t.kids[i], t.kids[i + 1]),
        pair_at(t, i).ht() == t.ht(),
        forall|x: NodePieceOffset| #[trigger] pair_at(t, i).inf(x) ==> t.kinf(x),
{
    let p = pair_at(t, i);
    let l = t.kids[i];
    let r = t.kids[i + 1];
    assert(p.kids[0] == l && p.kids[1] == r && p.keys[0] == t.keys[i]);
    assert(l.rep(n) && r.rep(n) && l.dis() && r.dis() && l.bal() && r.bal() && l.ht() == t.kids[0].ht() && r.ht() == t.kids[0].ht() && l.ord(k) && r.ord(k));
    assert forall|a: int| 0 <= a < p.kids.len() implies #[trigger] p.kids[a] == t.kids[i + a] by {}
    assert forall|a: int, b: int, o: NodePieceOffset| 0 <= a < p.kids.len() && 0 <= b < p.kids.len() && #[trigger] p.kids[a].inf(o) && #[trigger] p.kids[b].inf(o) implies a == b by {
        assert(t.kids[i + a].inf(o) && t.kids[i + b].inf(o));
    }
    assert(k.dom().contains(t.keys[i]));
    assert forall|a: int, b: int, x: KeyPieceOffset| 0 <= a < p.kids.len() && 0 <= b < p.keys.len() && #[trigger] p.kids[a].has(x) implies
        (if b < a { klt(k[#[trigger] p.keys[b]].key, k[x].key) } else { klt(k[x].key, k[p.keys[b]].key) }) by {
        assert(t.kids[i + a].has(x));
        let y = t.keys[i];
        assert(p.keys[b] == y);
    }
    inf_kids(p);
}
pub proof fn splice_store(n: NMap, t: Tree, i: int, n1: NMap, a: Tree)
    requires t.rep(n), t.dis(), can_splice(t, i, a), a.krep(n1), a.dis(), tpost(n, pair_at(t, i), n1, a),
    ensures ({
        let t2 = splice(t, i, a);
        &&& t2.krep(n1) && t2.dis() && n1.dom().contains(t.off) && n1[t.off] == n[t.off]
        &&& tpost(n, t, n1, t2)
    }),
{
    let t2 = splice(t, i, a);
    let p = pair_at(t, i);
    let dd = a.kids.len() as int;
    splice_kids(t, i, a);
    kids_dom(n, t);
    inf_kids(t); inf_kids(t2); inf_kids(a); inf_kids(p);
    assert(p.kids[0] == t.kids[i] && p.kids[1] == t.kids[i + 1]);
    assert forall|o: NodePieceOffset| #[trigger] p.inf(o) == (t.kids[i].inf(o) || t.kids[i + 1].inf(o)) by {
        if t.kids[i].inf(o) { assert(p.kids[0].inf(o)); assert(p.kinf(o)); }
        if t.kids[i + 1].inf(o) { assert(p.kids[1].inf(o)); assert(p.kinf(o)); }
    }
    assert(t.inf(t.off));
    assert(!t.kinf(t.off));
    assert(!p.inf(t.off));
    assert forall|j: int, o: NodePieceOffset| 0 <= j < t.kids.len() && j != i && j != i + 1 && #[trigger] t.kids[j].inf(o) implies n.dom().contains(o) && !p.inf(o) && n1.dom().contains(o) && n1[o] == n[o] && !a.inf(o) by {
        if t.kids[i].inf(o) { assert(t.kids[i].inf(o) && t.kids[j].inf(o)); }
        if t.kids[i + 1].inf(o) { assert(t.kids[i + 1].inf(o) && t.kids[j].inf(o)); }
        assert(n.dom().contains(o));
    }
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).rep(n1) && t2.kids[j].dis() by {
        if i <= j < i + dd { assert(a.kids[j - i].rep(n1) && a.kids[j - i].dis()); }
        else {
            let q = src(i, dd, j);
            let d = t.kids[q];
            assert(t2.kids[j] == d);
            assert(d.rep(n) && d.dis());
            assert forall|o: NodePieceOffset| #[trigger] d.inf(o) && n.dom().contains(o) implies n1.dom().contains(o) && n1[o] == n[o] by {
                assert(t.kids[q].inf(o));
            }
            rep_frame(n, n1, d);
        }
    }
    assert forall|j: int, o: NodePieceOffset| 0 <= j < t2.kids.len() && #[trigger] t2.kids[j].inf(o) implies
        (if i <= j < i + dd { a.inf(o) && a.kids[j - i].inf(o) } else { t.kids[src(i, dd, j)].inf(o) && n.dom().contains(o) && !a.inf(o) }) by {
        if i <= j < i + dd { assert(a.kids[j - i].inf(o)); assert(a.kinf(o)); } else { assert(t.kids[src(i, dd, j)].inf(o)); }
    }
    assert forall|j: int, l: int, o: NodePieceOffset| 0 <= j < t2.kids.len() && 0 <= l < t2.kids.len() && #[trigger] t2.kids[j].inf(o) && #[trigger] t2.kids[l].inf(o)
        implies j == l by {
        if i <= j < i + dd {
            assert(a.inf(o));
            assert(i <= l < i + dd);
            assert(a.kids[j - i].inf(o) && a.kids[l - i].inf(o));
        } else {
            assert(!a.inf(o));
            assert(!(i <= l < i + dd));
            assert(t.kids[src(i, dd, j)].inf(o) && t.kids[src(i, dd, l)].inf(o));
        }
    }
    assert(!t2.kinf(t.off)) by {
        if t2.kinf(t.off) {
            let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).inf(t.off);
            if i <= j < i + dd { assert(a.inf(t.off)); assert(p.inf(t.off) || !n.dom().contains(t.off)); } else { assert(t.kids[src(i, dd, j)].inf(t.off)); assert(t.kinf(t.off)); }
        }
    }
    assert(t2.dis());
    assert forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) && !t.inf(o) implies n1.dom().contains(o) && n1[o] == n[o] by {
        if t.kids[i].inf(o) { assert(t.kinf(o)); }
        if t.kids[i + 1].inf(o) { assert(t.kinf(o)); }
        assert(!p.inf(o));
    }
    assert forall|o: NodePieceOffset| #[trigger] t2.inf(o) implies t.inf(o) || !n.dom().contains(o) by {
        if o != t.off {
            let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).inf(o);
            if i <= j < i + dd { assert(a.inf(o)); if p.inf(o) { assert(t.kids[i].inf(o) || t.kids[i + 1].inf(o)); assert(t.kinf(o)); } }
            else { assert(t.kids[src(i, dd, j)].inf(o)); assert(t.kinf(o)); }
        }
    }
    assert forall|o: NodePieceOffset| #[trigger] n1.dom().contains(o) implies (n.dom().contains(o) && !t.inf(o)) || t2.inf(o) by {
        if a.inf(o) {
            let j = choose|j: int| 0 <= j < a.kids.len() && (#[trigger] a.kids[j]).inf(o);
            assert(t2.kids[i + j].inf(o)); assert(t2.kinf(o));
        } else if t.inf(o) && o != t.off {
            let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).inf(o);
            if j == i || j == i + 1 { assert(p.inf(o)); }
            else if j < i { assert(t2.kids[j].inf(o)); assert(t2.kinf(o)); }
            else { assert(src(i, dd, j + dd - 2) == j); assert(t2.kids[j + dd - 2].inf(o)); assert(t2.kinf(o)); }
        }
    }
}
pub proof fn splice_shape(t: Tree, i: int, a: Tree)
    requires
        t.bal(), can_splice(t, i, a), a.bal(), a.kids_fill(), a.ht() == t.ht(), a.keys.len() <= 1, t.keys.len() <= MAXK,
        forall|j: int| 0 <= j < t.kids.len() ==> (#[trigger] t.kids[j]).fill(),
        forall|j: int| 0 <= j < t.kids.len() && j != i && j != i + 1 ==> (#[trigger] t.kids[j]).keys.len() >= MINK,
    ensures splice(t, i, a).bal(), splice(t, i, a).fill(), splice(t, i, a).ht() == t.ht(),
{
    let t2 = splice(t, i, a);
    let dd = a.kids.len() as int;
    splice_kids(t, i, a);
    assert(a.kids[0].ht() == t.kids[0].ht());
    assert forall|j: int| 0 <= j < t2.kids.len() implies (#[trigger] t2.kids[j]).ht() == t.kids[0].ht() && t2.kids[j].bal() && t2.kids[j].fill() && t2.kids[j].keys.len() >= MINK by {
        if i <= j < i + dd { let c = a.kids[j - i]; assert(c.ht() == a.kids[0].ht() && c.bal() && c.fill() && c.keys.len() >= MINK); }
        else { let c = t.kids[src(i, dd, j)]; assert(c.ht() == t.kids[0].ht() && c.bal() && c.fill() && c.keys.len() >= MINK); }
    }
    let z = t2.kids[0];
    assert(z.ht() == t.kids[0].ht());
}
pub proof fn splice_has(t: Tree, i: int, a: Tree)
    requires can_splice(t, i, a), a.has_eq(pair_at(t, i)),
    ensures splice(t, i, a).has_eq(t),
{
    let t2 = splice(t, i, a);
    let p = pair_at(t, i);
    let dd = a.kids.len() as int;
    splice_kids(t, i, a);
    assert(p.kids[0] == t.kids[i] && p.kids[1] == t.kids[i + 1] && p.keys[0] == t.keys[i]);
    assert forall|x: KeyPieceOffset| #[trigger] p.has(x) implies t.has(x) by {
        if p.keys[0] == x { assert(t.keys[i] == x); }
        else { let j = choose|j: int| 0 <= j < p.kids.len() && (#[trigger] p.kids[j]).has(x); assert(t.kids[i + j].has(x)); }
    }
    assert forall|x: KeyPieceOffset| #[trigger] a.has(x) implies t2.has(x) by {
        if exists|j: int| 0 <= j < a.keys.len() && #[trigger] a.keys[j] == x {
            let j = choose|j: int| 0 <= j < a.keys.len() && #[trigger] a.keys[j] == x;
            assert(t2.keys[i + j] == x);
        } else { let j = choose|j: int| 0 <= j < a.kids.len() && (#[trigger] a.kids[j]).has(x); assert(t2.kids[i + j].has(x)); }
    }
    assert forall|x: KeyPieceOffset| #[trigger] t2.has(x) == t.has(x) by {
        if t.has(x) {
            if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
                let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
                if j < i { assert(t2.keys[j] == x); }
                else if j == i { assert(p.keys[0] == x); assert(p.has(x)); assert(a.has(x)); }
                else { assert(src(i, dd, j + dd - 2) == j); assert(t2.keys[j + dd - 2] == x); }
            } else {
                let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
                if j < i { assert(t2.kids[j].has(x)); }
                else if j <= i + 1 { assert(p.kids[j - i].has(x)); assert(p.has(x)); assert(a.has(x)); }
                else { assert(src(i, dd, j + dd - 2) == j); assert(t2.kids[j + dd - 2].has(x)); }
            }
        }
        if t2.has(x) {
            if exists|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x {
                let j = choose|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x;
                if i <= j < i + dd - 1 { assert(a.keys[j - i] == x); assert(a.has(x)); assert(p.has(x)); } else { assert(t.keys[src(i, dd, j)] == x); }
            } else {
                let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).has(x);
                if i <= j < i + dd { assert(a.kids[j - i].has(x)); assert(a.has(x)); assert(p.has(x)); } else { assert(t.kids[src(i, dd, j)].has(x)); }
            }
        }
    }
}
/// the keys of the pair lie between the keys of t around it
pub proof fn pair_between(t: Tree, i: int, k: KMap, x: KeyPieceOffset)
    requires t.ord(k), 0 <= i < t.keys.len(), t.kids.len() == t.keys.len() + 1, pair_at(t, i).has(x),
    ensures forall|j: int| 0 <= j < i ==> klt(k[#[trigger] t.keys[j]].key, k[x].key), forall|j: int| i < j < t.keys.len() ==> klt(k[x].key, k[#[trigger] t.keys[j]].key),
        t.has(x),
{
    let p = pair_at(t, i);
    assert(p.kids[0] == t.kids[i] && p.kids[1] == t.kids[i + 1] && p.keys[0] == t.keys[i]);
    if p.keys[0] == x { assert(t.keys[i] == x); }
    else {
        let q = choose|q: int| 0 <= q < p.kids.len() && (#[trigger] p.kids[q]).has(x);
        assert(t.kids[i + q].has(x));
    }
}
pub proof fn splice_ord(t: Tree, i: int, a: Tree, k: KMap)
    requires t.ord(k), can_splice(t, i, a), a.ord(k), a.has_eq(pair_at(t, i)),
    ensures splice(t, i, a).ord(k),
{
    broadcast use klt_trans;
    let t2 = splice(t, i, a);
    let p = pair_at(t, i);
    let dd = a.kids.len() as int;
    splice_kids(t, i, a);
    assert forall|x: KeyPieceOffset, j: int| #[trigger] a.has(x) && 0 <= j < t.keys.len() && j != i implies
        (if j < i { klt(k[#[trigger] t.keys[j]].key, k[x].key) } else { klt(k[x].key, k[t.keys[j]].key) }) by {
        assert(p.has(x));
        pair_between(t, i, k, x);
    }
    assert forall|j: int| 0 <= j < a.keys.len() implies a.has(#[trigger] a.keys[j]) by {}
    assert forall|q: int, x: KeyPieceOffset| 0 <= q < a.kids.len() && #[trigger] a.kids[q].has(x) implies a.has(x) by {}
    // the children of t outside the pair, against the keys of a: through the key of t beside the pair
    assert forall|q: int, x: KeyPieceOffset, y: KeyPieceOffset| 0 <= q < t.kids.len() && (q < i || q > i + 1) && #[trigger] t.kids[q].has(x) && #[trigger] a.has(y) implies
        (if q < i { klt(k[x].key, k[y].key) } else { klt(k[y].key, k[x].key) }) by {
        if q < i { let z = t.keys[i - 1]; assert(klt(k[x].key, k[z].key)); assert(klt(k[z].key, k[y].key)); }
        else { let z = t.keys[i + 1]; assert(klt(k[z].key, k[x].key)); assert(klt(k[y].key, k[z].key)); }
    }
    assert forall|j: int| 0 <= j < t2.keys.len() implies k.dom().contains(#[trigger] t2.keys[j]) && t2.keys[j].val != 0 by {
        if i <= j < i + dd - 1 { assert(k.dom().contains(a.keys[j - i])); } else { assert(k.dom().contains(t.keys[src(i, dd, j)])); }
    }
    assert forall|x: int, y: int| 0 <= x < y < t2.keys.len() implies klt(k[#[trigger] t2.keys[x]].key, k[#[trigger] t2.keys[y]].key) by {
        let ax = i <= x < i + dd - 1;
        let ay = i <= y < i + dd - 1;
        if ax && ay { assert(klt(k[a.keys[x - i]].key, k[a.keys[y - i]].key)); }
        else if ax { let z = t.keys[src(i, dd, y)]; assert(a.has(a.keys[x - i])); }
        else if ay { let z = t.keys[src(i, dd, x)]; assert(a.has(a.keys[y - i])); }
        else { assert(klt(k[t.keys[src(i, dd, x)]].key, k[t.keys[src(i, dd, y)]].key)); }
    }
    assert forall|q: int, j: int, x: KeyPieceOffset| 0 <= q < t2.kids.len() && 0 <= j < t2.keys.len() && #[trigger] t2.kids[q].has(x) implies
        (if j < q { klt(k[#[trigger] t2.keys[j]].key, k[x].key) } else { klt(k[x].key, k[t2.keys[j]].key) }) by {
        let aq = i <= q < i + dd;
        let aj = i <= j < i + dd - 1;
        if aq && aj { assert(a.kids[q - i].has(x)); let z = a.keys[j - i]; }
        else if aq { assert(a.kids[q - i].has(x)); assert(a.has(x)); let z = t.keys[src(i, dd, j)]; }
        else if aj { assert(t.kids[src(i, dd, q)].has(x)); assert(a.has(a.keys[j - i])); }
        else { assert(t.kids[src(i, dd, q)].has(x)); let z = t.keys[src(i, dd, j)]; }
    }
    assert forall|q: int| 0 <= q < t2.kids.len() implies (#[trigger] t2.kids[q]).ord(k) by {
        if i <= q < i + dd { assert(a.kids[q - i].ord(k)); } else { assert(t.kids[src(i, dd, q)].ord(k)); }
    }
}
/// the whole of a rebalancing step but for writing the parent
pub proof fn splice_all(n: NMap, t: Tree, i: int, n1: NMap, a: Tree, k: KMap)
    requires
        t.rep(n), t.dis(), can_splice(t, i, a), a.krep(n1), a.dis(), tpost(n, pair_at(t, i), n1, a),
        t.bal(), a.bal(), a.kids_fill(), a.ht() == t.ht(), a.keys.len() <= 1, t.keys.len() <= MAXK,
        forall|j: int| 0 <= j < t.kids.len() ==> (#[trigger] t.kids[j]).fill(),
        forall|j: int| 0 <= j < t.kids.len() && j != i && j != i + 1 ==> (#[trigger] t.kids[j]).keys.len() >= MINK,
        t.ord(k), a.ord(k), a.has_eq(pair_at(t, i)),
    ensures ({
        let t2 = splice(t, i, a);
        &&& t2.krep(n1) && t2.dis() && n1.dom().contains(t.off) && tpost(n, t, n1, t2)
        &&& t2.bal() && t2.fill() && t2.ht() == t.ht()
        &&& t2.has_eq(t) && t2.ord(k) && t2.keys.len() == t.keys.len() + a.keys.len() - 1
    }),
{
    splice_store(n, t, i, n1, a);
    splice_shape(t, i, a);
    splice_has(t, i, a);
    splice_ord(t, i, a, k);
    splice_kids(t, i, a);
}
// ---------------------------------------------------------------- taking a key piece out
pub proof fn kid_has_sub(t: Tree, i: int, c2: Tree, ko: KeyPieceOffset, gone: bool)
    requires
        0 <= i < t.kids.len(), forall|x: KeyPieceOffset| #[trigger] c2.has(x) == (t.kids[i].has(x) && !(gone && x == ko)),
        gone ==> (forall|j: int| 0 <= j < t.keys.len() ==> #[trigger] t.keys[j] != ko) && (forall|j: int| 0 <= j < t.kids.len() && j != i ==> !(#[trigger] t.kids[j]).has(ko)),
    ensures forall|x: KeyPieceOffset| #[trigger] with_kid(t, i, c2).has(x) == (t.has(x) && !(gone && x == ko)),
{
    let t2 = with_kid(t, i, c2);
    assert(t2.kids[i] == c2);
    assert forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) && !(gone && x == ko)) by {
        if t.has(x) && !(gone && x == ko) {
            if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
                let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
                assert(t2.keys[j] == x);
            } else {
                let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
                assert(t2.kids[j].has(x));
            }
        }
        if t2.has(x) {
            if exists|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x {
                let j = choose|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x;
                assert(t.keys[j] == x);
            } else {
                let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).has(x);
                if j == i { assert(t.kids[i].has(x)); } else { assert(t.kids[j].has(x)); }
            }
        }
    }
}
pub open spec fn without_key(t: Tree, i: int) -> Tree { Tree { keys: t.keys.remove(i), ..t } }
pub proof fn leaf_del(t: Tree, i: int, k: KMap, k2: KMap)
    requires t.ord(k), t.leaf(), 0 <= i < t.keys.len(), forall|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && x != t.keys[i] ==> k2.dom().contains(x) && k2[x].key == k[x].key,
    ensures
        without_key(t, i).ord(k2),
        forall|x: KeyPieceOffset| #[trigger] without_key(t, i).has(x) == (t.has(x) && x != t.keys[i]),
{
    let t2 = without_key(t, i);
    assert forall|a: int, b: int| 0 <= a < b < t.keys.len() implies t.keys[a] != t.keys[b] by {
        let x = t.keys[a]; let y = t.keys[b];
        assert(klt(k[t.keys[a]].key, k[t.keys[b]].key)); klt_irr(k[x].key);
    }
    assert forall|j: int| 0 <= j < t2.keys.len() implies #[trigger] t2.keys[j] == t.keys[if j < i { j } else { j + 1 }] by {}
    assert forall|j: int| 0 <= j < t2.keys.len() implies k2.dom().contains(#[trigger] t2.keys[j]) && t2.keys[j].val != 0 && t2.keys[j] != t.keys[i] && k2[t2.keys[j]].key == k[t2.keys[j]].key by {
        assert(k.dom().contains(t.keys[if j < i { j } else { j + 1 }]));
    }
    assert forall|a: int, b: int| 0 <= a < b < t2.keys.len() implies klt(k2[#[trigger] t2.keys[a]].key, k2[#[trigger] t2.keys[b]].key) by {
        assert(klt(k[t.keys[if a < i { a } else { a + 1 }]].key, k[t.keys[if b < i { b } else { b + 1 }]].key));
    }
    assert forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) && x != t.keys[i]) by {
        if t.has(x) && x != t.keys[i] {
            let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
            assert(t2.keys[if j < i { j } else { j - 1 }] == x);
        }
        if t2.has(x) {
            let j = choose|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x;
            assert(t.keys[if j < i { j } else { j + 1 }] == x);
        }
    }
}
/// key i is replaced by the largest key ko of child i, which is c2 now
pub open spec fn with_max(t: Tree, i: int, c2: Tree, ko: KeyPieceOffset) -> Tree { Tree { keys: t.keys.update(i, ko), ..with_kid(t, i, c2) } }
pub proof fn max_has(t: Tree, i: int, c2: Tree, ko: KeyPieceOffset, k: KMap)
    requires
        t.ord(k), t.bal(), 0 <= i < t.keys.len(), t.kids.len() > 0, t.kids[i].has(ko),
        forall|x: KeyPieceOffset| #[trigger] c2.has(x) == (t.kids[i].has(x) && x != ko),
    ensures forall|x: KeyPieceOffset| #[trigger] with_max(t, i, c2, ko).has(x) == (t.has(x) && x != t.keys[i]),
{
    let t2 = with_max(t, i, c2, ko);
    assert forall|a: int, b: int| 0 <= a < b < t.keys.len() implies t.keys[a] != t.keys[b] by {
        assert(klt(k[t.keys[a]].key, k[t.keys[b]].key)); klt_irr(k[t.keys[a]].key);
    }
    assert forall|j: int| 0 <= j < t.kids.len() implies !(#[trigger] t.kids[j]).has(t.keys[i]) by { once(t, k, j); }
    assert forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) && x != t.keys[i]) by {
        if t.has(x) && x != t.keys[i] {
            if x == ko { assert(t2.keys[i] == ko); }
            else if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
                let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
                assert(t2.keys[j] == x);
            } else {
                let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
                assert(t2.kids[j].has(x));
            }
        }
        if t2.has(x) {
            if exists|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x {
                let j = choose|j: int| 0 <= j < t2.keys.len() && #[trigger] t2.keys[j] == x;
                if j != i { assert(t.keys[j] == x); } else { assert(t.kids[i].has(x)); }
            } else {
                let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).has(x);
                if j == i { assert(t.kids[i].has(x)); } else { assert(t.kids[j].has(x)); }
            }
        }
    }
}
pub proof fn max_ord(t: Tree, i: int, c2: Tree, ko: KeyPieceOffset, k: KMap, k2: KMap)
    requires
        t.ord(k), t.bal(), 0 <= i < t.keys.len(), t.kids.len() > 0, t.kids[i].has(ko), c2.ord(k2),
        forall|x: KeyPieceOffset| #[trigger] c2.has(x) == (t.kids[i].has(x) && x != ko),
        forall|x: KeyPieceOffset| #[trigger] c2.has(x) ==> klt(k[x].key, k[ko].key),
        forall|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && x != t.keys[i] ==> k2.dom().contains(x) && k2[x].key == k[x].key,
    ensures with_max(t, i, c2, ko).ord(k2),
{
    broadcast use klt_trans;
    let t2 = with_max(t, i, c2, ko);
    let z = t.keys[i];
    assert(klt(k[ko].key, k[z].key));
    klt_irr(k[z].key);
    has_dom(k, t.kids[i], ko);
    assert forall|a: int, b: int| 0 <= a < b < t.keys.len() implies t.keys[a] != t.keys[b] && klt(k[t.keys[a]].key, k[t.keys[b]].key) by {
        assert(klt(k[t.keys[a]].key, k[t.keys[b]].key)); klt_irr(k[t.keys[a]].key);
    }
    assert forall|j: int, x: KeyPieceOffset| 0 <= j < t.kids.len() && #[trigger] t.kids[j].has(x) implies x != z && k.dom().contains(x) && k2.dom().contains(x) && k2[x].key == k[x].key by {
        once(t, k, j); has_dom(k, t.kids[j], x);
    }
    assert forall|j: int| 0 <= j < t.keys.len() && j != i implies #[trigger] t.keys[j] != z && k2.dom().contains(t.keys[j]) && t.keys[j].val != 0 && k2[t.keys[j]].key == k[t.keys[j]].key
        && (if j < i { klt(k[t.keys[j]].key, k[ko].key) } else { klt(k[ko].key, k[t.keys[j]].key) }) by {
        assert(k.dom().contains(t.keys[j]));
        if j < i { assert(t.kids[i].has(ko)); }
    }
    assert forall|j: int| 0 <= j < t2.keys.len() implies k2.dom().contains(#[trigger] t2.keys[j]) && t2.keys[j].val != 0 by {
        if j == i { assert(t.kids[i].has(ko)); } else { assert(t.keys[j] != z); }
    }
    assert forall|a: int, b: int| 0 <= a < b < t2.keys.len() implies klt(k2[#[trigger] t2.keys[a]].key, k2[#[trigger] t2.keys[b]].key) by {
        assert(t.kids[i].has(ko));
        if a != i { assert(t.keys[a] != z); }
        if b != i { assert(t.keys[b] != z); }
    }
    assert forall|p: int, q: int, x: KeyPieceOffset| 0 <= p < t2.kids.len() && 0 <= q < t2.keys.len() && #[trigger] t2.kids[p].has(x) implies
        (if q < p { klt(k2[#[trigger] t2.keys[q]].key, k2[x].key) } else { klt(k2[x].key, k2[t2.keys[q]].key) }) by {
        assert(t.kids[p].has(x));
        assert(t.kids[i].has(ko));
        let y = t.keys[q];
        if q != i {
            assert(t.keys[q] != z);
        } else if p == i {
            assert(c2.has(x));
        } else if p > i {
            assert(klt(k[z].key, k[x].key));
        } else {
            // p < i: through key p
            let w = t.keys[p];
            assert(klt(k[x].key, k[w].key));
            assert(klt(k[w].key, k[ko].key));
        }
    }
    assert forall|p: int| 0 <= p < t2.kids.len() implies (#[trigger] t2.kids[p]).ord(k2) by {
        if p != i {
            let d = t.kids[p];
            assert(d.ord(k));
            assert forall|x: KeyPieceOffset| #[trigger] d.has(x) implies k2.dom().contains(x) && k2[x].key == k[x].key by { assert(t.kids[p].has(x)); }
            ord_frame(k, k2, d);
        }
    }
}
/// a key that lies in a gap of t and is not in the child there is not in t
pub proof fn not_in(t: Tree, k: KMap, g: int, key: KeyV)
    requires
        t.ord(k), t.bal(), 0 <= g <= t.keys.len(), in_gap(t, k, g, key),
        t.kids.len() > 0 ==> forall|x: KeyPieceOffset| #[trigger] t.kids[g].has(x) ==> k[x].key != key,
    ensures forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> k[x].key != key,
{
    broadcast use klt_trans, klt_irr;
    assert forall|x: KeyPieceOffset| #[trigger] t.has(x) implies k[x].key != key by {
        if exists|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x {
            let j = choose|j: int| 0 <= j < t.keys.len() && #[trigger] t.keys[j] == x;
            let y = t.keys[j];
        } else {
            let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
            if j < g { let y = t.keys[j]; assert(klt(k[x].key, k[t.keys[j]].key)); assert(klt(k[y].key, key)); }
            else if j > g { let y = t.keys[g]; assert(klt(k[t.keys[g]].key, k[x].key)); assert(klt(key, k[y].key)); }
        }
    }
}
pub proof fn kid_loose(t: Tree, i: int, c2: Tree)
    requires t.fill(), 0 <= i < t.kids.len(), c2.fill(),
    ensures forall|j: int| 0 <= j < t.kids.len() ==> (#[trigger] with_kid(t, i, c2).kids[j]).fill() && (j != i ==> with_kid(t, i, c2).kids[j].keys.len() >= MINK),
{
    assert forall|j: int| 0 <= j < t.kids.len() implies (#[trigger] with_kid(t, i, c2).kids[j]).fill() && (j != i ==> with_kid(t, i, c2).kids[j].keys.len() >= MINK) by {
        if j != i { assert(t.kids[j].fill() && t.kids[j].keys.len() >= MINK); }
    }
}
/// other keys at the root, as far as the store is concerned
pub proof fn rekey(n: NMap, n0: NMap, t0: Tree, t: Tree, ks: Seq<KeyPieceOffset>)
    requires t.krep(n), t.dis(), tpost(n0, t0, n, t),
    ensures (Tree { keys: ks, ..t }).krep(n), (Tree { keys: ks, ..t }).dis(), tpost(n0, t0, n, Tree { keys: ks, ..t }),
{
    let t2 = Tree { keys: ks, ..t };
    inf_kids(t); inf_kids(t2);
    assert forall|o: NodePieceOffset| #[trigger] t2.kinf(o) == t.kinf(o) by {
        if t.kinf(o) { let j = choose|j: int| 0 <= j < t.kids.len() && (#[trigger] t.kids[j]).inf(o); assert(t2.kids[j].inf(o)); }
        if t2.kinf(o) { let j = choose|j: int| 0 <= j < t2.kids.len() && (#[trigger] t2.kids[j]).inf(o); assert(t.kids[j].inf(o)); }
    }
    assert forall|o: NodePieceOffset| #[trigger] t2.inf(o) == t.inf(o) by {}
    assert forall|i: int, j: int, o: NodePieceOffset| 0 <= i < t2.kids.len() && 0 <= j < t2.kids.len() && #[trigger] t2.kids[i].inf(o) && #[trigger] t2.kids[j].inf(o) implies i == j by {
        assert(t.kids[i].inf(o) && t.kids[j].inf(o));
    }
    assert forall|i: int| 0 <= i < t2.kids.len() implies (#[trigger] t2.kids[i]).dis() && t2.kids[i].rep(n) by { assert(t.kids[i].dis() && t.kids[i].rep(n)); }
}
