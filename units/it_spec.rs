//@ include it_spec1.rs
/// a node of the stack: the place in it is a key (k) or a child (d)
pub type Fr = (IdxNode, i32, i32);
pub open spec fn ft(n: NMap, f: Fr) -> Tree { tree_at(n, f.0.off()) }
pub open spec fn fr_ok(n: NMap, k: KMap, f: Fr) -> bool {
    let t = ft(n, f);
    node_pre(f.0, n, k) && t.keys.len() >= 1
}
/// the child d is being walked
pub open spec fn busy(n: NMap, f: Fr) -> bool { let t = ft(n, f); !t.leaf() && f.1 == f.2 && 0 <= f.2 < t.kids.len() }
pub open spec fn here(n: NMap, f: Fr) -> bool {
    let t = ft(n, f);
    if t.leaf() { f.2 == 0 && 0 <= f.1 < t.keys.len() }
    else { 0 <= f.2 < t.kids.len() && (f.1 == f.2 || (f.1 + 1 == f.2 && 0 <= f.1 < t.keys.len())) }
}
pub open spec fn rest_here(n: NMap, f: Fr) -> Seq<KeyPieceOffset> {
    let t = ft(n, f);
    if t.leaf() { t.keys.skip(f.1 as int) } else if f.1 == f.2 { from_kid(t, f.2 as int) } else { from_key(t, f.1 as int) }
}
pub open spec fn rest_up(n: NMap, s: Seq<Fr>) -> Seq<KeyPieceOffset>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { from_key(ft(n, s.last()), s.last().1 as int) + rest_up(n, s.drop_last()) } }
/// what the iterator has yet to yield
pub open spec fn rest(n: NMap, s: Seq<Fr>) -> Seq<KeyPieceOffset> {
    if s.len() == 0 { Seq::empty() } else { rest_here(n, s.last()) + rest_up(n, s.drop_last()) }
}
pub open spec fn stack_up(n: NMap, k: KMap, s: Seq<Fr>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> fr_ok(n, k, #[trigger] s[i]) && busy(n, s[i])
}
pub open spec fn stack(n: NMap, k: KMap, s: Seq<Fr>) -> bool {
    s.len() > 0 ==> fr_ok(n, k, s.last()) && here(n, s.last()) && stack_up(n, k, s.drop_last())
}
/// the child d of the node of a frame
pub proof fn fr_kid(n: NMap, k: KMap, f: Fr, d: int)
    requires fr_ok(n, k, f), !ft(n, f).leaf(), 0 <= d < ft(n, f).kids.len(),
    ensures ({
        let t = ft(n, f);
        let c = t.kids[d];
        &&& f.0.nv().downs[d] == c.off && c.off.val != 0 && n.dom().contains(c.off) && is_tree(n, c.off) && tree_at(n, c.off) == c && c.good(n, k) && c.keys.len() >= 1 && n[c.off] == c.nv()
        &&& c.ht() < t.ht()
        &&& t.kids.len() == t.keys.len() + 1 && f.0.nv().downs.len() == t.kids.len() && t.keys.len() <= MAXK
    }),
{
    let t = ft(n, f);
    let c = t.kids[d];
    assert(c.rep(n));
    tree_at_is(n, c);
    assert(t.kids[d].ht() == t.kids[0].ht());
    assert(t.kids[d].dis());
}
pub proof fn fr_leaf(n: NMap, k: KMap, f: Fr)
    requires fr_ok(n, k, f),
    ensures ft(n, f).leaf() == (f.0.nv().downs[0].val == 0), f.0.nv().keys == ft(n, f).keys, f.0.nv().downs.len() == ft(n, f).keys.len() + 1, ft(n, f).keys.len() <= MAXK,
        forall|i: int| 0 <= i < ft(n, f).keys.len() ==> (#[trigger] ft(n, f).keys[i]).val != 0 && k.dom().contains(ft(n, f).keys[i]),
{ if !ft(n, f).leaf() { fr_kid(n, k, f, 0); } }
/// one key of the node in hand is yielded
pub proof fn one_key(n: NMap, f: Fr)
    requires here(n, f), ft(n, f).bal(), ft(n, f).leaf() || f.1 < f.2,
    ensures f.1 < ft(n, f).keys.len(), ({
        let g = (f.0, (f.1 + 1) as i32, f.2);
        rest_here(n, f) =~= seq![ft(n, f).keys[f.1 as int]] + (if ft(n, f).leaf() { ft(n, f).keys.skip(f.1 + 1) } else { from_kid(ft(n, f), f.2 as int) })
    }),
{}
/// a child is entered
pub proof fn push_kid(n: NMap, k: KMap, s: Seq<Fr>, g: Fr)
    requires stack_up(n, k, s), s.len() > 0, s.last().1 == s.last().2, fr_ok(n, k, g), g.1 == 0, g.2 == 0, g.0.off() == ft(n, s.last()).kids[s.last().2 as int].off, ft(n, g) == ft(n, s.last()).kids[s.last().2 as int],
    ensures stack(n, k, s.push(g)), rest(n, s.push(g)) =~= from_kid(ft(n, s.last()), s.last().2 as int) + rest_up(n, s.drop_last()),
{
    let u = s.push(g);
    assert(u.drop_last() =~= s);
    let t = ft(n, g);
    assert(rest_here(n, g) =~= inord(t));
}
/// the first child of a node that nothing has been yielded from is entered
pub proof fn deeper(n: NMap, k: KMap, s: Seq<Fr>, g: Fr)
    requires s.len() > 0, stack(n, k, s), s.last().1 == s.last().2, !ft(n, s.last()).leaf(), fr_ok(n, k, g), g.1 == 0, g.2 == 0,
        g.0.off() == ft(n, s.last()).kids[s.last().2 as int].off, ft(n, g) == ft(n, s.last()).kids[s.last().2 as int],
    ensures stack(n, k, s.push(g)), rest(n, s.push(g)) == rest(n, s),
{
    let f = s.last();
    assert(stack_up(n, k, s)) by {
        assert forall|i: int| 0 <= i < s.len() implies fr_ok(n, k, #[trigger] s[i]) && busy(n, s[i]) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    }
    push_kid(n, k, s, g);
}
pub open spec fn nextkey(f: Fr) -> Fr { (f.0, (f.1 + 1) as i32, f.2) }
pub open spec fn nextkid(f: Fr) -> Fr { (f.0, f.1, (f.2 + 1) as i32) }
/// g is the child d of f, and nothing in it has been yielded
pub open spec fn fresh(n: NMap, k: KMap, f: Fr, g: Fr) -> bool {
    fr_ok(n, k, g) && g.1 == 0 && g.2 == 0 && g.0.off() == ft(n, f).kids[f.2 as int].off && ft(n, g) == ft(n, f).kids[f.2 as int]
}
/// one step from the stack s
pub proof fn step(n: NMap, k: KMap, s: Seq<Fr>)
    requires s.len() > 0, stack(n, k, s),
    ensures ({
        let f = s.last();
        let t = ft(n, f);
        let x = t.keys[f.1 as int];
        let s1 = s.drop_last().push(nextkey(f));
        &&& t.keys.len() <= MAXK && f.0.nv() == t.nv() && f.0.nv().downs.len() == t.keys.len() + 1
        &&& t.leaf() ==> f.1 < t.keys.len() && f.2 == 0 && f.0.nv().downs[0].val == 0 && if f.1 + 1 < t.keys.len() { stack(n, k, s1) && rest(n, s) == seq![x] + rest(n, s1) } else { rest(n, s) == seq![x] + rest_up(n, s.drop_last()) && stack_up(n, k, s.drop_last()) }
        &&& f.1 < t.keys.len() ==> x.val != 0 && k.dom().contains(x)
        &&& !t.leaf() ==> {
            let c = t.kids[f.2 as int];
            &&& (0 <= f.2 < f.0.nv().downs.len() && f.0.nv().downs[f.2 as int] == c.off && c.off.val != 0 && n.dom().contains(c.off))
            &&& is_tree(n, c.off) && tree_at(n, c.off) == c && c.good(n, k) && c.keys.len() >= 1 && n[c.off] == c.nv() && c.ht() < t.ht()
        }
        &&& (!t.leaf() && f.1 < f.2 ==> f.1 + 1 == f.2 && f.1 < t.keys.len() && stack(n, k, s1) && rest(n, s) == seq![x] + rest(n, s1))
        &&& (!t.leaf() && f.1 < f.2 ==> forall|g: Fr| #![trigger stack(n, k, s1.push(g))] #![trigger rest(n, s1.push(g))] fresh(n, k, f, g) ==> stack(n, k, s1.push(g)) && rest(n, s1.push(g)) == rest(n, s1))
        &&& (!t.leaf() && !(f.1 < f.2) ==> f.1 == f.2 && forall|g: Fr| #![trigger stack(n, k, s.push(g))] #![trigger rest(n, s.push(g))] fresh(n, k, f, g) ==> stack(n, k, s.push(g)) && rest(n, s.push(g)) == rest(n, s))
    }),
{
    let f = s.last();
    let t = ft(n, f);
    let s1 = s.drop_last().push(nextkey(f));
    fr_leaf(n, k, f);
    if t.leaf() || f.1 < f.2 {
        one_key(n, f);
        assert(s1.drop_last() =~= s.drop_last());
        assert(ft(n, nextkey(f)) == t);
        if t.leaf() && f.1 + 1 == t.keys.len() {
            assert(t.keys.skip(f.1 + 1) =~= Seq::empty());
            assert(rest(n, s) =~= seq![t.keys[f.1 as int]] + rest_up(n, s.drop_last()));
        } else {
            assert(stack(n, k, s1));
            assert(rest(n, s) =~= seq![t.keys[f.1 as int]] + rest(n, s1));
        }
    }
    if !t.leaf() {
        fr_kid(n, k, f, f.2 as int);
        assert forall|g: Fr| fresh(n, k, f, g) && f.1 < f.2 implies #[trigger] stack(n, k, s1.push(g)) && rest(n, s1.push(g)) == rest(n, s1) by { deeper(n, k, s1, g); }
        assert forall|g: Fr| fresh(n, k, f, g) && f.1 >= f.2 implies #[trigger] stack(n, k, s.push(g)) && rest(n, s.push(g)) == rest(n, s) by { deeper(n, k, s, g); }
    }
}
/// the child that was being walked is done
pub proof fn up(n: NMap, k: KMap, s: Seq<Fr>)
    requires s.len() > 0, stack_up(n, k, s),
    ensures ({
        let f = s.last();
        let t = ft(n, f);
        let s1 = s.drop_last().push(nextkid(f));
        &&& t.keys.len() <= MAXK && f.0.nv().downs.len() == t.keys.len() + 1
        &&& stack_up(n, k, s.drop_last())
        &&& 0 <= f.2 < f.0.nv().downs.len()
        &&& if f.2 + 1 < f.0.nv().downs.len() { forall|w: Seq<Fr>| #![trigger stack(n, k, w)] #![trigger rest(n, w)] w.len() == s.len() && w.last() == nextkid(f) && w.drop_last() =~= s.drop_last() ==> stack(n, k, w) && rest(n, w) == rest_up(n, s) } else { rest_up(n, s.drop_last()) == rest_up(n, s) }
    }),
{
    let f = s.last();
    let t = ft(n, f);
    let s1 = s.drop_last().push(nextkid(f));
    fr_leaf(n, k, f);
    fr_kid(n, k, f, 0);
    assert(stack_up(n, k, s.drop_last())) by {
        assert forall|i: int| 0 <= i < s.len() - 1 implies fr_ok(n, k, #[trigger] s.drop_last()[i]) && busy(n, s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
    }
    assert(s1.drop_last() =~= s.drop_last());
    if f.2 + 1 < f.0.nv().downs.len() {
        assert(stack(n, k, s1));
        assert forall|w: Seq<Fr>| w.len() == s.len() && w.last() == nextkid(f) && w.drop_last() =~= s.drop_last() implies #[trigger] stack(n, k, w) && rest(n, w) == rest_up(n, s) by { assert(w =~= s1); }
    } else {
        assert(from_key(t, f.1 as int) =~= Seq::empty());
        assert(rest_up(n, s) =~= rest_up(n, s.drop_last()));
    }
}
// ---------------------------------------------------------------- what the caller sees
pub type P = (KeyV, Seq<u8>);
pub open spec fn pairs(k: KMap, v: VMap, s: Seq<KeyPieceOffset>) -> Seq<P> { Seq::new(s.len(), |i: int| (k[s[i]].key, v[k[s[i]].voff])) }
/// every entry of m, once, in ascending key order, with its value
pub open spec fn lists(m: M, s: Seq<P>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> klt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|b: KeyV| #[trigger] m.dom().contains(b) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == b
}
pub proof fn all_listed(n: NMap, top: NodePieceOffset, k: KMap, v: VMap, h: HMap, m: M)
    requires dbok(n, top, k, v, h), shows(k, v, m),
    ensures lists(m, pairs(k, v, inord(tree_at(n, top)))),
{
    let t = tree_at(n, top);
    inord_ok(t, k);
    let s = inord(t);
    let q = pairs(k, v, s);
    assert forall|i: int| 0 <= i < q.len() implies m.dom().contains((#[trigger] q[i]).0) && m[q[i].0] == q[i].1 by { assert(s.contains(s[i])); assert(k.dom().contains(s[i])); }
    assert forall|b: KeyV| #[trigger] m.dom().contains(b) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == b by {
        let x = choose|x: KeyPieceOffset| #[trigger] k.dom().contains(x) && k[x].key == b;
        assert(t.has(x));
        assert(s.contains(x));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(q[i].0 == b);
    }
}
