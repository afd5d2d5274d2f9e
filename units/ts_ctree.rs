// ---------------------------------------------------------------- trees by content
/// the tree of a node with content v, over the nodes stored in n
pub open spec fn ctree(n: NMap, off: NodePieceOffset, v: NodeV) -> Tree {
    Tree {
        off,
        keys: v.keys,
        kids: if v.downs.len() == 0 || v.downs[0].val == 0 { Seq::empty() } else { Seq::new(v.downs.len(), |i: int| tree_at(n, v.downs[i])) },
    }
}
pub proof fn ctree_is(n: NMap, t: Tree)
    requires t.krep(n),
    ensures ctree(n, t.off, t.nv()) == t,
{
    if !t.leaf() {
        assert(t.kids[0].rep(n));
        assert(t.nv().downs[0] == t.kids[0].off);
        assert forall|i: int| 0 <= i < t.kids.len() implies #[trigger] tree_at(n, t.nv().downs[i]) == t.kids[i] by {
            assert(t.kids[i].rep(n));
            tree_at_is(n, t.kids[i]);
        }
        assert(ctree(n, t.off, t.nv()).kids =~= t.kids);
    } else {
        assert(t.nv().downs.len() > 0 && t.nv().downs[0].val == 0);
        assert(ctree(n, t.off, t.nv()).kids =~= t.kids);
    }
}
/// the node store changed from n to n2 only in the tree t, which is now t2
pub open spec fn tpost(n: NMap, t: Tree, n2: NMap, t2: Tree) -> bool {
    &&& forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) && !t.inf(o) ==> n2.dom().contains(o) && n2[o] == n[o]
    &&& forall|o: NodePieceOffset| #[trigger] t2.inf(o) ==> t.inf(o) || !n.dom().contains(o)
    &&& forall|o: NodePieceOffset| #[trigger] n2.dom().contains(o) ==> (n.dom().contains(o) && !t.inf(o)) || t2.inf(o)
}
pub proof fn tpost_trans(n: NMap, t: Tree, n1: NMap, t1: Tree, n2: NMap, t2: Tree)
    requires tpost(n, t, n1, t1), tpost(n1, t1, n2, t2),
    ensures tpost(n, t, n2, t2),
{
    assert forall|o: NodePieceOffset| #[trigger] n.dom().contains(o) && !t.inf(o) implies n2.dom().contains(o) && n2[o] == n[o] by {
        assert(n1.dom().contains(o));
        assert(!t1.inf(o));
    }
    assert forall|o: NodePieceOffset| #[trigger] t2.inf(o) implies t.inf(o) || !n.dom().contains(o) by {
        if !t1.inf(o) && n.dom().contains(o) && !t.inf(o) { assert(n1.dom().contains(o)); }
    }
}
pub proof fn tpost_refl(n: NMap, t: Tree)
    ensures tpost(n, t, n, t) || !(forall|o: NodePieceOffset| #[trigger] t.inf(o) ==> n.dom().contains(o)),
{}
/// the order below the root stays if the root node moves
pub proof fn root_write(n: NMap, n2: NMap, t: Tree, off2: NodePieceOffset)
    requires t.krep(n), t.dis(), t.off.val != 0, n.dom().contains(t.off), upd_node(n, n2, t.off, off2, t.nv()),
    ensures ({
        let t2 = Tree { off: off2, ..t };
        &&& t2.rep(n2) && t2.dis() && t2.nv() == t.nv() && tpost(n, t, n2, t2)
        &&& t2.has_eq(t)
    }),
{
    let t2 = Tree { off: off2, ..t };
    assert(t2.nv() == t.nv());
    kids_dom(n, t);
    assert forall|i: int| 0 <= i < t2.kids.len() implies (#[trigger] t2.kids[i]).rep(n2) by {
        let c = t.kids[i];
        assert(c.rep(n));
        assert forall|o: NodePieceOffset| #[trigger] c.inf(o) && n.dom().contains(o) implies n2.dom().contains(o) && n2[o] == n[o] by {
            assert(t.kinf(o));
        }
        rep_frame(n, n2, c);
    }
    assert forall|o: NodePieceOffset| #[trigger] t2.inf(o) == ((o == off2 && o.val != 0) || t.kinf(o)) by {
        assert(t2.inf(o) == ((o == off2 && o.val != 0) || exists|i: int| 0 <= i < t2.kids.len() && (#[trigger] t2.kids[i]).inf(o)));
    }
    assert forall|o: NodePieceOffset| #[trigger] t.inf(o) == ((o == t.off && o.val != 0) || t.kinf(o)) by { }
    assert(!t2.kinf(off2)) by { if t2.kinf(off2) { assert(t.kinf(off2)); } }
    assert(t2.dis());
}
pub proof fn kids_dom(n: NMap, t: Tree)
    requires t.krep(n),
    ensures forall|i: int, o: NodePieceOffset| 0 <= i < t.kids.len() && #[trigger] t.kids[i].inf(o) ==> n.dom().contains(o),
{
    assert forall|i: int, o: NodePieceOffset| 0 <= i < t.kids.len() && #[trigger] t.kids[i].inf(o) implies n.dom().contains(o) by {
        assert(t.kids[i].rep(n));
        inf_dom(n, t.kids[i], o);
    }
}
impl Tree {
    pub open spec fn has_eq(self, o: Tree) -> bool { forall|x: KeyPieceOffset| #[trigger] self.has(x) == o.has(x) }
}
