/// a stored tree whose child i may be one key short
#[verifier::opaque]
pub open spec fn bal_pre(n: NMap, t: Tree, k: KMap, i: int) -> bool {
    &&& t.rep(n) && t.dis() && t.bal() && t.ord(k)
    &&& 1 <= t.keys.len() <= MAXK && 0 <= i <= t.keys.len()
    &&& forall|j: int| 0 <= j < t.kids.len() ==> (#[trigger] t.kids[j]).fill()
    &&& forall|j: int| 0 <= j < t.kids.len() && j != i ==> (#[trigger] t.kids[j]).keys.len() >= MINK
    &&& t.leaf() || t.kids[i].keys.len() >= MINK - 1
}
/// a good tree again, with the same keys
#[verifier::opaque]
pub open spec fn bal_post(n: NMap, t: Tree, k: KMap, n2: NMap, t2: Tree) -> bool {
    &&& t2.rep(n2) && t2.dis() && tpost(n, t, n2, t2)
    &&& t2.bal() && t2.fill() && t2.ht() == t.ht()
    &&& t2.ord(k) && t2.has_eq(t)
    &&& t.keys.len() - 1 <= t2.keys.len() <= t.keys.len()
}
pub open spec fn is_node(node: IdxNode, n: NMap, t: Tree) -> bool { t.rep(n) && t.off == node.off() && node.nv() == t.nv() && !node.act() }
/// the tree after a deletion below it: without ko if gone, with the same keys otherwise
pub open spec fn del_tree(n: NMap, t: Tree, n2: NMap, t2: Tree, k2: KMap, ko: KeyPieceOffset, gone: bool) -> bool {
    &&& t2.rep(n2) && t2.dis() && tpost(n, t, n2, t2)
    &&& t2.bal() && t2.fill() && t2.ht() == t.ht()
    &&& t2.ord(k2)
    &&& forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) && !(gone && x == ko))
    &&& t.keys.len() - 1 <= t2.keys.len() <= t.keys.len()
}
/// a deletion in the tree of node
pub open spec fn del_post(o: FileDbXxxInner, t: Tree, f: FileDbXxxInner, ret: IdxNode, val: Option<Vec<u8>>, key: KeyV) -> bool {
    let t2 = tree_at(f.n(), ret.off());
    &&& is_node(ret, f.n(), t2)
    &&& match val {
        Some(x) => exists|ko: KeyPieceOffset| #[trigger] kv_del(o.k(), o.v(), o.h(), f.k(), f.v(), f.h(), ko)
            && o.k()[ko].key == key && t.has(ko) && x@ == o.v()[o.k()[ko].voff] && del_tree(o.n(), t, f.n(), t2, f.k(), ko, true),
        None => f.k() == o.k() && f.v() == o.v() && f.h() == o.h() && del_tree(o.n(), t, f.n(), t2, f.k(), KeyPieceOffset { val: 0 }, false)
            && forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> o.k()[x].key != key,
    }
}
/// the parent t2 of a changed child is written, as t3
pub proof fn parent_written(n0: NMap, t: Tree, n1: NMap, t2: Tree, n2: NMap, off: NodePieceOffset, k: KMap) -> (t3: Tree)
    requires t2.krep(n1), t2.dis(), t2.off.val != 0, n1.dom().contains(t2.off), upd_node(n1, n2, t2.off, off, t2.nv()), tpost(n0, t, n1, t2), t2.ord(k),
    ensures
        t3 == (Tree { off, ..t2 }), t3.rep(n2), t3.dis(), t3.nv() == t2.nv(), tpost(n0, t, n2, t3), t3.ord(k), t3.has_eq(t2),
        t3.bal() == t2.bal(), t3.fill() == t2.fill(), t3.ht() == t2.ht(), t3.keys == t2.keys, t3.kids == t2.kids, tree_at(n2, off) == t3,
{
    let t3 = Tree { off, ..t2 };
    root_write(n1, n2, t2, off);
    moved_shape(t2, off);
    moved_ord(t2, off, k);
    tpost_trans(n0, t, n1, t2, n2, t3);
    tree_at_is(n2, t3);
    t3
}
/// what the code that rebalances the children p and p + 1 of t finds there; s is the one that may be short
pub open spec fn neighbours(n: NMap, t: Tree, p: int) -> bool {
    let l = t.kids[p];
    let r = t.kids[p + 1];
    &&& l.off.val != 0 && r.off.val != 0 && l.off != r.off && l.off != t.off && r.off != t.off
    &&& n.dom().contains(l.off) && n.dom().contains(r.off) && n.dom().contains(t.off)
    &&& n[l.off] == l.nv() && n[r.off] == r.nv()
    &&& l.nv().downs.len() == l.keys.len() + 1 && r.nv().downs.len() == r.keys.len() + 1
    &&& l.keys.len() <= MAXK && r.keys.len() <= MAXK
    &&& t.nv().downs[p] == l.off && t.nv().downs[p + 1] == r.off && t.keys[p].val != 0
}
pub proof fn bal_start(n: NMap, t: Tree, k: KMap, i: int, p: int)
    requires bal_pre(n, t, k, i), i == p || i == p + 1, 0 <= p < t.keys.len(),
    ensures
        t.nv().downs.len() == t.keys.len() + 1, t.keys.len() <= MAXK, t.off.val != 0, n.dom().contains(t.off),
        t.leaf() ==> t.nv().downs[i].val == 0,
        !t.leaf() ==> neighbours(n, t, p) && t.kids[i].keys.len() >= MINK - 1 && t.kids[if i == p { p + 1 } else { p }].keys.len() >= MINK,
        t.leaf() || t.kids[i].keys.len() >= MINK ==> bal_post(n, t, k, n, t) && t.rep(n) && tree_at(n, t.off) == t,
{
    reveal(bal_pre); reveal(bal_post);
    tree_at_is(n, t);
    all_in_dom(n, t);
    if !t.leaf() {
        let l = t.kids[p];
        let r = t.kids[p + 1];
        assert(t.kids[p].rep(n) && t.kids[p + 1].rep(n));
        assert(l.bal() && r.bal() && l.fill() && r.fill());
        pair_of(n, t, p, k);
        flat_kids(n, l, t.keys[p], r, l.off);
        assert(t.keys[p].val != 0);
        inf_kids(t);
        assert(t.kids[p].inf(l.off) && t.kids[p + 1].inf(r.off));
        assert(!t.kinf(t.off));
        let s = if i == p { p + 1 } else { p };
        assert(t.kids[s].keys.len() >= MINK);
        if t.kids[i].keys.len() >= MINK { assert(t.fill()); }
    }
}
pub open spec fn ready(n0: NMap, t: Tree, n1: NMap, t2: Tree, k: KMap) -> bool {
    &&& t2.krep(n1) && t2.dis() && n1.dom().contains(t2.off) && t2.off == t.off && t.off.val != 0 && tpost(n0, t, n1, t2)
    &&& t2.bal() && t2.fill() && t2.ht() == t.ht()
    &&& t2.has_eq(t) && t2.ord(k) && t.keys.len() - 1 <= t2.keys.len() <= t.keys.len()
}
#[verifier::opaque]
pub open spec fn ready_(n0: NMap, t: Tree, n1: NMap, t2: Tree, k: KMap) -> bool { ready(n0, t, n1, t2, k) }
/// what replaces a pair of children of t
#[verifier::opaque]
pub open spec fn good_part(n0: NMap, b: Tree, n2: NMap, a: Tree, k: KMap) -> bool {
    &&& a.krep(n2) && a.dis() && tpost(n0, b, n2, a)
    &&& a.bal() && a.kids_fill() && a.ht() == b.ht() && a.ord(k) && a.has_eq(b)
}
#[verifier::opaque]
pub open spec fn good_pair(n: NMap, l: Tree, key: KeyPieceOffset, r: Tree, k: KMap) -> bool {
    &&& pair(l, key, r).krep(n) && pair(l, key, r).dis() && pair(l, key, r).bal() && pair(l, key, r).ord(k)
    &&& twins(l, r) && l.fill() && r.fill()
}
pub proof fn pair_good(n: NMap, t: Tree, k: KMap, i: int, p: int)
    requires bal_pre(n, t, k, i), i == p || i == p + 1, 0 <= p < t.keys.len(), !t.leaf(),
    ensures good_pair(n, t.kids[p], t.keys[p], t.kids[p + 1], k), t.off.val != 0, t.kids.len() == t.keys.len() + 1,
        t.kids[p].keys.len() + t.kids[p + 1].keys.len() + 1 >= MINK + MINK, t.keys.len() <= MAXK,
{
    reveal(bal_pre); reveal(good_pair);
    assert(t.kids[p].rep(n) && t.kids[p + 1].rep(n));
    assert(t.kids[if i == p { p + 1 } else { p }].keys.len() >= MINK);
    pair_of(n, t, p, k);
}
pub proof fn splice_step(n0: NMap, t: Tree, k: KMap, i: int, p: int, n2: NMap, a: Tree)
    requires bal_pre(n0, t, k, i), i == p || i == p + 1, 0 <= p < t.keys.len(), !t.leaf(),
        good_part(n0, pair_at(t, p), n2, a, k), a.keys.len() <= 1, a.kids.len() == a.keys.len() + 1, a.off.val == 0,
    ensures ready_(n0, t, n2, splice(t, p, a), k), can_splice(t, p, a), n2.dom().contains(t.off), t.keys.len() <= MAXK,
{
    reveal(bal_pre); reveal(good_part); reveal(ready_);
    pair_of(n0, t, p, k);
    splice_all(n0, t, p, n2, a, k);
}
pub proof fn merge_part(n0: NMap, l: Tree, key: KeyPieceOffset, r: Tree, k: KMap, n2: NMap, ol: NodePieceOffset, v: NodeV)
    requires
        good_pair(n0, l, key, r, k), MINK <= l.keys.len() + r.keys.len() + 1 <= MAXK,
        v.keys =~= l.keys.push(key) + r.keys, v.downs =~= l.nv().downs + r.nv().downs,
        roots_changed(n0, l.off, r.off, n2, set![ol]), n2[ol] == v,
    ensures
        good_part(n0, pair(l, key, r), n2, only(flat(l, key, r, ol)), k),
{
    reveal(good_pair); reveal(good_part);
    let fo = flat(l, key, r, ol);
    let a = only(fo);
    flat_kids(n0, l, key, r, ol);
    assert(fo.nv().keys =~= v.keys);
    assert(fo.nv().downs =~= v.downs);
    merge_store(n0, l, key, r, ol, n2);
    flat_shape(l, key, r, ol);
    flat_ord(l, key, r, ol, k);
    flat_has(l, key, r, ol);
    assert(a.kids[0] == fo);
}
pub proof fn pair_roots(n0: NMap, l: Tree, key: KeyPieceOffset, r: Tree, k: KMap)
    requires good_pair(n0, l, key, r, k),
    ensures l.off != r.off, n0.dom().contains(l.off), n0.dom().contains(r.off), l.off.val != 0, r.off.val != 0,
        l.leaf() == r.leaf(), l.nv().downs.len() == l.keys.len() + 1, r.nv().downs.len() == r.keys.len() + 1,
{
    reveal(good_pair);
    flat_kids(n0, l, key, r, l.off);
}
pub proof fn merge_step(n0: NMap, t: Tree, k: KMap, i: int, p: int, n1: NMap, n2: NMap, ol: NodePieceOffset, v: NodeV) -> (t2: Tree)
    requires
        bal_pre(n0, t, k, i), i == p || i == p + 1, 0 <= p < t.keys.len(), !t.leaf(),
        t.kids[p].keys.len() + t.kids[p + 1].keys.len() + 1 <= MAXK,
        v.keys =~= t.kids[p].keys.push(t.keys[p]) + t.kids[p + 1].keys, v.downs =~= t.kids[p].nv().downs + t.kids[p + 1].nv().downs,
        // one of the two is deleted, the other one written with the content of both
        n1 == n0.remove(t.kids[p].off) && upd_node(n1, n2, t.kids[p + 1].off, ol, v) || n1 == n0.remove(t.kids[p + 1].off) && upd_node(n1, n2, t.kids[p].off, ol, v),
    ensures
        ready_(n0, t, n2, t2, k), n2.dom().contains(t.off), t2.off == t.off, t2.nv().keys == t.keys.remove(p), t2.nv().downs == t.nv().downs.remove(p + 1).update(p, ol),
        t2.nv().keys.len() + 1 == t2.nv().downs.len(), t2.nv().keys.len() <= MAXK,
{
    hide(Tree::rep); hide(Tree::dis); hide(Tree::bal); hide(Tree::ord); hide(Tree::has); hide(Tree::inf); hide(Tree::ht);
    let l = t.kids[p];
    let r = t.kids[p + 1];
    let key = t.keys[p];
    pair_good(n0, t, k, i, p);
    pair_roots(n0, l, key, r, k);
    assert(roots_changed(n0, l.off, r.off, n2, set![ol]));
    merge_part(n0, l, key, r, k, n2, ol, v);
    let a = only(flat(l, key, r, ol));
    splice_step(n0, t, k, i, p, n2, a);
    let t2 = splice(t, p, a);
    splice_kids(t, p, a);
    assert(a.kids[0].off == ol);
    assert(t2.keys =~= t.keys.remove(p));
    assert(t2.nv().downs =~= t.nv().downs.remove(p + 1).update(p, ol));
    t2
}
pub open spec fn moved_key(l: Tree, key: KeyPieceOffset, r: Tree, to_left: bool, lv: NodeV, rv: NodeV, key3: KeyPieceOffset) -> bool {
    if to_left {
        &&& r.keys.len() >= 1 && key3 == r.keys[0]
        &&& lv.keys =~= l.keys.push(key) && lv.downs =~= l.nv().downs.push(r.nv().downs[0])
        &&& rv.keys =~= r.keys.remove(0) && rv.downs =~= r.nv().downs.remove(0)
    } else {
        &&& l.keys.len() >= 1 && key3 == l.keys.last()
        &&& rv.keys =~= r.keys.insert(0, key) && rv.downs =~= r.nv().downs.insert(0, l.nv().downs.last())
        &&& lv.keys =~= l.keys.remove(l.keys.len() - 1) && lv.downs =~= l.nv().downs.remove(l.nv().downs.len() - 1)
    }
}
pub proof fn move_nv(l: Tree, key: KeyPieceOffset, r: Tree, to_left: bool, lv: NodeV, rv: NodeV, key3: KeyPieceOffset, ol: NodePieceOffset, or: NodePieceOffset)
    requires moved_key(l, key, r, to_left, lv, rv, key3), twins(l, r), MINK <= lv.keys.len() <= MAXK, MINK <= rv.keys.len() <= MAXK,
        l.nv().downs.len() == l.keys.len() + 1, r.nv().downs.len() == r.keys.len() + 1,
    ensures ({
        let m = lv.keys.len() as int + 1;
        let f = flat(l, key, r, l.off);
        left_part(f, m, ol).nv() == lv && right_part(f, m, or).nv() == rv && f.keys[m - 1] == key3 && f.keys.len() == lv.keys.len() + rv.keys.len() + 1
    }),
{
    let f = flat(l, key, r, l.off);
    let m = lv.keys.len() as int + 1;
    assert(left_part(f, m, ol).keys =~= lv.keys);
    assert(left_part(f, m, ol).nv().downs =~= lv.downs);
    assert(right_part(f, m, or).keys =~= rv.keys);
    assert(right_part(f, m, or).nv().downs =~= rv.downs);
    assert(f.keys[m - 1] == key3);
}
pub proof fn move_part(n0: NMap, l: Tree, key: KeyPieceOffset, r: Tree, k: KMap, n2: NMap, ol: NodePieceOffset, or: NodePieceOffset, m: int)
    requires
        good_pair(n0, l, key, r, k), MINK <= m - 1 <= MAXK, MINK <= l.keys.len() + 1 + r.keys.len() - m <= MAXK,
        roots_changed(n0, l.off, r.off, n2, set![ol, or]), ol != or,
        n2[ol] == left_part(flat(l, key, r, l.off), m, ol).nv(), n2[or] == right_part(flat(l, key, r, l.off), m, or).nv(),
    ensures
        good_part(n0, pair(l, key, r), n2, split_of(flat(l, key, r, l.off), m, ol, or), k),
{
    hide(Tree::rep); hide(Tree::dis); hide(Tree::bal); hide(Tree::ord); hide(Tree::has); hide(Tree::inf); hide(Tree::ht);
    reveal(good_pair); reveal(good_part);
    let f = flat(l, key, r, l.off);
    flat_shape(l, key, r, l.off);
    flat_ord(l, key, r, l.off, k);
    flat_has(l, key, r, l.off);
    flat_kids(n0, l, key, r, l.off);
    flat_split(l, key, r, l.off);
    regroup_store(n0, l, key, r, m, ol, or, n2);
    split_node_shape(f, m, ol, or);
    split_node_has(f, m, ol, or);
    split_node_ord(f, m, ol, or, k);
}
/// a key moves through the parent: lv and rv are the new contents, key3 the key that goes up
pub proof fn move_step(n0: NMap, t: Tree, k: KMap, i: int, p: int, n2: NMap, ol: NodePieceOffset, or: NodePieceOffset, lv: NodeV, rv: NodeV, key3: KeyPieceOffset) -> (t2: Tree)
    requires
        bal_pre(n0, t, k, i), i == p || i == p + 1, 0 <= p < t.keys.len(), !t.leaf(),
        MINK <= lv.keys.len() <= MAXK, MINK <= rv.keys.len() <= MAXK,
        moved_key(t.kids[p], t.keys[p], t.kids[p + 1], i == p, lv, rv, key3),
        roots_changed(n0, t.kids[p].off, t.kids[p + 1].off, n2, set![ol, or]), ol != or, n2[ol] == lv, n2[or] == rv,
    ensures
        ready_(n0, t, n2, t2, k), n2.dom().contains(t.off), t2.off == t.off, t2.nv().keys == t.keys.update(p, key3), t2.nv().downs == t.nv().downs.update(p, ol).update(p + 1, or),
        t2.nv().keys.len() + 1 == t2.nv().downs.len(), t2.nv().keys.len() <= MAXK,
{
    hide(Tree::rep); hide(Tree::dis); hide(Tree::bal); hide(Tree::ord); hide(Tree::has); hide(Tree::inf); hide(Tree::ht);
    let l = t.kids[p];
    let r = t.kids[p + 1];
    let key = t.keys[p];
    pair_good(n0, t, k, i, p);
    pair_roots(n0, l, key, r, k);
    assert(twins(l, r)) by { reveal(good_pair); }
    move_nv(l, key, r, i == p, lv, rv, key3, ol, or);
    let m = lv.keys.len() as int + 1;
    let f = flat(l, key, r, l.off);
    move_part(n0, l, key, r, k, n2, ol, or, m);
    let a = split_of(f, m, ol, or);
    splice_step(n0, t, k, i, p, n2, a);
    let t2 = splice(t, p, a);
    splice_kids(t, p, a);
    assert(a.kids[0].off == ol && a.kids[1].off == or);
    assert(t2.keys =~= t.keys.update(p, key3));
    assert(t2.nv().downs =~= t.nv().downs.update(p, ol).update(p + 1, or));
    t2
}
/// two writes in a row
pub proof fn two_writes(n0: NMap, n1: NMap, n2: NMap, a: NodePieceOffset, a2: NodePieceOffset, av: NodeV, b: NodePieceOffset, b2: NodePieceOffset, bv: NodeV)
    requires n0.dom().contains(a), n0.dom().contains(b), a != b, upd_node(n0, n1, a, a2, av), upd_node(n1, n2, b, b2, bv),
    ensures
        n1.dom().contains(b), roots_changed(n0, a, b, n2, set![a2, b2]), roots_changed(n0, b, a, n2, set![b2, a2]), a2 != b2, n2[a2] == av, n2[b2] == bv,
{
    assert(set![a2, b2] =~= set![b2, a2]);
}
pub proof fn bal_done(n0: NMap, t: Tree, n1: NMap, t2: Tree, n2: NMap, off: NodePieceOffset, k: KMap)
    requires ready_(n0, t, n1, t2, k), upd_node(n1, n2, t2.off, off, t2.nv()),
    ensures ({
        let t3 = tree_at(n2, off);
        t3.rep(n2) && t3.off == off && t3.nv() == t2.nv() && bal_post(n0, t, k, n2, t3)
    }),
{
    reveal(ready_); reveal(bal_post);
    let t3 = parent_written(n0, t, n1, t2, n2, off, k);
}
