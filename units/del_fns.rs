//@ fn FileDbXxxInner::move_a_node_from_right_to_left
    requires old(node_r).nv().keys.len() >= 1, old(node_r).nv().downs.len() >= 1,
    ensures
        *final(self) == *old(self),
        ret == old(node_r).nv().keys[0],
        final(node_l).nv() == (NodeV { keys: old(node_l).nv().keys.push(key_offset), downs: old(node_l).nv().downs.push(old(node_r).nv().downs[0]) }),
        final(node_r).nv() == (NodeV { keys: old(node_r).nv().keys.remove(0), downs: old(node_r).nv().downs.remove(0) }),
        final(node_l).off() == old(node_l).off(), final(node_r).off() == old(node_r).off(),
        final(node_l).act() == old(node_l).act(), final(node_r).act() == old(node_r).act(),
        final(node_l).0.is_dirty, final(node_r).0.is_dirty,
//@ end
//@ fn FileDbXxxInner::move_left_right
    requires old(node_l).nv().keys.len() >= 1, old(node_l).nv().downs.len() == old(node_l).nv().keys.len() + 1,
    ensures
        *final(self) == *old(self),
        ret == old(node_l).nv().keys.last(),
        final(node_r).nv() == (NodeV { keys: old(node_r).nv().keys.insert(0, key_offset), downs: old(node_r).nv().downs.insert(0, old(node_l).nv().downs.last()) }),
        final(node_l).nv() == (NodeV { keys: old(node_l).nv().keys.remove(old(node_l).nv().keys.len() - 1), downs: old(node_l).nv().downs.remove(old(node_l).nv().downs.len() - 1) }),
        final(node_l).off() == old(node_l).off(), final(node_r).off() == old(node_r).off(),
        final(node_l).act() == old(node_l).act(), final(node_r).act() == old(node_r).act(),
        final(node_l).0.is_dirty, final(node_r).0.is_dirty,
//@ end
//@ fn FileDbXxxInner::trim
//@ sig pub fn trim(&mut self, node_: IdxNode) -> (ret: Result<IdxNode>)
    requires ({
        let t = tree_at(old(self).n(), node_.off());
        is_node(node_, old(self).n(), t) && t.dis() && t.bal() && t.fill() && t.ord(old(self).k())
    }),
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> ({
            let t = tree_at(old(self).n(), node_.off());
            let t2 = tree_at(final(self).n(), ret->Ok_0.off());
            &&& is_node(ret->Ok_0, final(self).n(), t2) && t2.dis() && t2.bal() && t2.fill() && t2.ord(old(self).k())
            &&& tpost(old(self).n(), t, final(self).n(), t2) && t2.has_eq(t)
            &&& t2.keys.len() == 0 ==> t2.leaf() // C03
        }),
//@ start
    let ghost n0 = self.n();
    let ghost t = tree_at(self.n(), node_.off());
    proof {
        all_in_dom(n0, t);
        if !t.leaf() { assert(t.kids[0].rep(n0)); assert(t.nv().downs[0] == t.kids[0].off); assert(t.kids[0].keys.len() >= MINK); }
    }
//@ after delete_node
    proof {
        let c = t.kids[0];
        inf_kids(t);
        assert(t.kids.len() == 1);
        assert(c.dis() && c.bal() && c.fill() && c.ord(self.k()));
        assert forall|o: NodePieceOffset| #[trigger] c.inf(o) && n0.dom().contains(o) implies self.n().dom().contains(o) && self.n()[o] == n0[o] by { assert(t.kinf(o)); }
        rep_frame(n0, self.n(), c);
        tree_at_is(self.n(), c);
        assert forall|x: KeyPieceOffset| #[trigger] c.has(x) == t.has(x) by {
            if c.has(x) { assert(t.kids[0].has(x)); }
        }
        assert forall|o: NodePieceOffset| #[trigger] c.inf(o) implies t.inf(o) by { assert(t.kids[0].inf(o)); assert(t.kinf(o)); }
        assert forall|o: NodePieceOffset| t.inf(o) && o != t.off implies #[trigger] c.inf(o) by { }
    }
//@ end
//@ fn FileDbXxxInner::balance_left
    requires
        bal_pre(old(self).n(), tree_at(old(self).n(), node_.off()), old(self).k(), i as int), is_node(node_, old(self).n(), tree_at(old(self).n(), node_.off())),
        i < node_.nv().keys.len(),
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> ({
            let t2 = tree_at(final(self).n(), ret->Ok_0.off());
            is_node(ret->Ok_0, final(self).n(), t2) && bal_post(old(self).n(), tree_at(old(self).n(), node_.off()), old(self).k(), final(self).n(), t2)
        }),
//@ start
    let ghost n0 = self.n();
    let ghost k0 = self.k();
    let ghost t = tree_at(self.n(), node_.off());
    let ghost p = i as int;
    let ghost mut t2 = t;
    proof { bal_start(n0, t, k0, i as int, p); }
//@ after delete_node
    let ghost nd = self.n();
//@ after downs_set 0
    proof { t2 = merge_step(n0, t, k0, i as int, p, nd, self.n(), node1_.off(), node1_.nv()); }
//@ after write_node 1
    let ghost nw = self.n();
//@ after downs_set 2
    proof {
        two_writes(n0, nw, self.n(), t.kids[p + 1].off, node2_.off(), node2_.nv(), t.kids[p].off, node1_.off(), node1_.nv());
        t2 = move_step(n0, t, k0, i as int, p, self.n(), node1_.off(), node2_.off(), node1_.nv(), node2_.nv(), key_offset3);
        assert(node_.nv().downs =~= t2.nv().downs);
    }
//@ before let:new_node_
    let ghost nb = self.n();
//@ after let:new_node_
    proof { bal_done(n0, t, nb, t2, self.n(), new_node_.off(), k0); }
//@ end
//@ fn FileDbXxxInner::balance_right
    requires
        bal_pre(old(self).n(), tree_at(old(self).n(), node_.off()), old(self).k(), j as int), is_node(node_, old(self).n(), tree_at(old(self).n(), node_.off())),
        1 <= j <= node_.nv().keys.len(),
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> ({
            let t2 = tree_at(final(self).n(), ret->Ok_0.off());
            is_node(ret->Ok_0, final(self).n(), t2) && bal_post(old(self).n(), tree_at(old(self).n(), node_.off()), old(self).k(), final(self).n(), t2)
        }),
//@ start
    let ghost n0 = self.n();
    let ghost k0 = self.k();
    let ghost t = tree_at(self.n(), node_.off());
    let ghost p = j as int - 1;
    let ghost mut t2 = t;
    proof { bal_start(n0, t, k0, j as int, p); }
//@ after delete_node
    let ghost nd = self.n();
//@ after downs_set 0
    proof { t2 = merge_step(n0, t, k0, j as int, p, nd, self.n(), node2_.off(), node2_.nv()); }
//@ after write_node 1
    let ghost nw = self.n();
//@ after downs_set 2
    proof {
        two_writes(n0, nw, self.n(), t.kids[p + 1].off, node1_.off(), node1_.nv(), t.kids[p].off, node2_.off(), node2_.nv());
        t2 = move_step(n0, t, k0, j as int, p, self.n(), node2_.off(), node1_.off(), node2_.nv(), node1_.nv(), key_offset3);
        assert(node_.nv().downs =~= t2.nv().downs);
    }
//@ before let:new_node_
    let ghost nb = self.n();
//@ after let:new_node_
    proof { bal_done(n0, t, nb, t2, self.n(), new_node_.off(), k0); }
//@ end
//@ fn FileDbXxxInner::delete_max
    requires
        node_pre(node_, old(self).n(), old(self).k()), node_.nv().keys.len() >= 1,
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> ({
            let t = tree_at(old(self).n(), node_.off());
            let ko = ret->Ok_0.0;
            let t2 = tree_at(final(self).n(), ret->Ok_0.1.off());
            &&& is_node(ret->Ok_0.1, final(self).n(), t2) && t.has(ko) && ko.val != 0
            &&& del_tree(old(self).n(), t, final(self).n(), t2, old(self).k(), ko, true)
            &&& forall|x: KeyPieceOffset| #[trigger] t2.has(x) ==> klt(old(self).k()[x].key, old(self).k()[ko].key)
        }),
    decreases tree_at(old(self).n(), node_.off()),
//@ start
    let ghost n0 = self.n();
    let ghost k0 = self.k();
    let ghost t = tree_at(self.n(), node_.off());
    let ghost g = t.keys.len() as int;
    let ghost c = t.kids[g];
    proof {
        all_in_dom(n0, t);
        if !t.leaf() {
            assert(t.nv().downs[g] == t.kids[g].off);
            assert(c.rep(n0));
            tree_at_is(n0, c);
            assert(c.bal() && c.fill() && c.dis() && c.ord(k0) && c.keys.len() >= MINK);
        }
    }
//@ after let:new_node_ 0
    proof {
        let t1 = without_key(t, g - 1);
        leaf_del(t, g - 1, k0, k0);
        assert(t.has(t.keys[g - 1]));
        inf_kids(t); inf_kids(t1);
        assert(node_.nv().downs =~= t1.nv().downs);
        let t3 = parent_written(n0, t, n0, t1, self.n(), new_node_.off(), k0);
        assert forall|x: KeyPieceOffset| #[trigger] t3.has(x) implies klt(k0[x].key, k0[key_offset2].key) by {
            assert(t.has(x));
            let a = choose|a: int| 0 <= a < t.keys.len() && #[trigger] t.keys[a] == x;
            let z = t.keys[g - 1];
            assert(klt(k0[t.keys[a]].key, k0[t.keys[g - 1]].key));
        }
    }
//@ after downs_set
    let ghost n1 = self.n();
    let ghost c2 = tree_at(n1, node1_.off());
    let ghost t2 = with_kid(t, g, c2);
    proof {
        kid_store(n0, t, g, n1, c2);
        kid_bal(t, g, c2);
        kid_loose(t, g, c2);
        once(t, k0, g);
        kid_has_sub(t, g, c2, key_offset2, true);
        assert forall|x: KeyPieceOffset| #[trigger] t.has(x) implies k0.dom().contains(x) by { has_dom(k0, t, x); }
        kid_ord(t, g, c2, k0, k0);
        assert(node_.nv().downs =~= t2.nv().downs);
    }
//@ before balance_right
    let ghost n3 = self.n();
    let ghost t3 = Tree { off: node_.off(), ..t2 };
    proof { let t4 = parent_written(n0, t, n1, t2, self.n(), node_.off(), k0);
        reveal(bal_pre); reveal(bal_post); assert(bal_pre(n3, t3, k0, g));
    }
//@ after balance_right
    proof {
        let t4 = tree_at(self.n(), new_node_.off());
        tpost_trans(n0, t, n3, t3, self.n(), t4);
        assert(t.has(key_offset2)) by { assert(t.kids[g].has(key_offset2)); }
        assert forall|x: KeyPieceOffset| #[trigger] t4.has(x) implies klt(k0[x].key, k0[key_offset2].key) by {
            assert(t3.has(x)); assert(t2.has(x));
            if exists|a: int| 0 <= a < t.keys.len() && #[trigger] t.keys[a] == x {
                let a = choose|a: int| 0 <= a < t.keys.len() && #[trigger] t.keys[a] == x;
                assert(klt(k0[t.keys[a]].key, k0[key_offset2].key)) by { assert(t.kids[g].has(key_offset2)); }
            } else {
                let a = choose|a: int| 0 <= a < t2.kids.len() && (#[trigger] t2.kids[a]).has(x);
                if a == g { assert(c2.has(x)); }
                else {
                    assert(t.kids[a].has(x));
                    let z = t.keys[a];
                    assert(klt(k0[x].key, k0[z].key));
                    assert(t.kids[g].has(key_offset2));
                    assert(klt(k0[z].key, k0[key_offset2].key));
                    klt_trans(k0[x].key, k0[z].key, k0[key_offset2].key);
                }
            }
        }
    }
//@ end
//@ fn FileDbXxxInner::delete_at
    requires
        node_pre(node_, old(self).n(), old(self).k()), i < node_.nv().keys.len(), vals_ok(old(self).k(), old(self).v()),
    ensures
        final(self).top() == old(self).top(), old(self).dirty ==> final(self).dirty,
        ret is Ok ==> del_post(*old(self), tree_at(old(self).n(), node_.off()), *final(self), ret->Ok_0.0, ret->Ok_0.1, old(self).k()[node_.nv().keys[i as int]].key) && ret->Ok_0.1 is Some,
//@ start
    let ghost n0 = self.n();
    let ghost k0 = self.k();
    let ghost v0 = self.v();
    let ghost h0 = self.h();
    let ghost t = tree_at(self.n(), node_.off());
    let ghost g = i as int;
    let ghost c = t.kids[g];
    let ghost kd = t.keys[g];
    proof {
        all_in_dom(n0, t);
        assert(k0.dom().contains(t.keys[g]));
        assert(t.has(t.keys[g]));
        if !t.leaf() {
            assert(t.nv().downs[g] == t.kids[g].off);
            assert(c.rep(n0));
            tree_at_is(n0, c);
            assert(c.bal() && c.fill() && c.dis() && c.ord(k0) && c.keys.len() >= MINK);
        }
    }
//@ after let:opt_value
    let ghost k1 = self.k();
    proof {
        assert(kv_del(k0, v0, h0, self.k(), self.v(), self.h(), kd)); // C01 C02 C09
        if !t.leaf() {
            once(t, k0, g);
            assert forall|x: KeyPieceOffset| #[trigger] c.has(x) implies x != kd && k1.dom().contains(x) && k1[x].key == k0[x].key by { has_dom(k0, c, x); }
            ord_frame(k0, k1, c);
        }
    }
//@ after let:new_node_ 0
    proof {
        let t1 = without_key(t, g);
        leaf_del(t, g, k0, k1);
        inf_kids(t); inf_kids(t1);
        assert(node_.nv().downs =~= t1.nv().downs);
        let t3 = parent_written(n0, t, n0, t1, self.n(), new_node_.off(), k1);
        assert(del_tree(n0, t, self.n(), t3, self.k(), kd, true));
        assert(kv_del(k0, v0, h0, self.k(), self.v(), self.h(), kd)); // C01 C02 C09
    }
//@ after downs_set
    let ghost n1 = self.n();
    let ghost c2 = tree_at(n1, node1_.off());
    let ghost t2 = with_max(t, g, c2, key_offset);
    proof {
        let ta = with_kid(t, g, c2);
        kid_store(n0, t, g, n1, c2);
        kid_bal(t, g, c2);
        kid_loose(t, g, c2);
        rekey(n1, n0, t, ta, t2.keys);
        assert forall|x: KeyPieceOffset| #[trigger] c2.has(x) implies klt(k0[x].key, k0[key_offset].key) by { assert(c.has(x)); assert(c.has(key_offset)); }
        max_has(t, g, c2, key_offset, k0);
        max_ord(t, g, c2, key_offset, k0, k1);
        assert(t2.nv().downs =~= ta.nv().downs);
        assert(node_.nv().downs =~= t2.nv().downs);
        assert(node_.nv().keys =~= t2.nv().keys);
        assert forall|j: int| 0 <= j < t2.kids.len() implies #[trigger] t2.kids[j] == ta.kids[j] by {}
        assert(t2.bal() && t2.ht() == t.ht());
    }
//@ before balance_left
    let ghost n3 = self.n();
    let ghost t3 = Tree { off: node_.off(), ..t2 };
    proof { let t4 = parent_written(n0, t, n1, t2, self.n(), node_.off(), k1);
        reveal(bal_pre); reveal(bal_post); assert(bal_pre(n3, t3, k1, g));
    }
//@ after balance_left
    proof {
        let t4 = tree_at(self.n(), new_node_.off());
        tpost_trans(n0, t, n3, t3, self.n(), t4);
        assert(del_tree(n0, t, self.n(), t4, self.k(), kd, true));
        assert(kv_del(k0, v0, h0, self.k(), self.v(), self.h(), kd)); // C01 C02 C09
    }
//@ end
//@ fn FileDbXxxInner::delete_from_node_tree_kt
//@ attr #[verifier::rlimit(60)]
    requires
        node_pre(node_, old(self).n(), old(self).k()), vals_ok(old(self).k(), old(self).v()),
        tree_at(old(self).n(), node_.off()).keys.len() == 0 ==> tree_at(old(self).n(), node_.off()).leaf(),
    ensures
        final(self).top() == old(self).top(), old(self).dirty ==> final(self).dirty,
        ret is Ok ==> del_post(*old(self), tree_at(old(self).n(), node_.off()), *final(self), ret->Ok_0.0, ret->Ok_0.1, kt_v(key_kt)),
    decreases tree_at(old(self).n(), node_.off()),
//@ start
    let ghost n0 = self.n();
    let ghost k0 = self.k();
    let ghost v0 = self.v();
    let ghost h0 = self.h();
    let ghost t = tree_at(self.n(), node_.off());
    let ghost key = kt_v(key_kt);
    proof {
        all_in_dom(n0, t);
        assert(t.keys.len() == 0 ==> forall|x: KeyPieceOffset| !#[trigger] t.has(x));
    }
//@ after let:node_offset1
    let ghost g = k as int;
    let ghost c = t.kids[g];
    proof {
        assert(in_gap(t, k0, g, key));
        if t.leaf() {
            assert(t.nv().downs[g] == NodePieceOffset { val: 0 });
            not_in(t, k0, g, key);
        } else {
            assert(t.nv().downs[g] == t.kids[g].off);
            assert(c.rep(n0));
            tree_at_is(n0, c);
            assert(c.bal() && c.fill() && c.dis() && c.ord(k0) && c.keys.len() >= MINK);
        }
    }
//@ after downs_set
    let ghost n1 = self.n();
    let ghost k1 = self.k();
    let ghost c2 = tree_at(n1, node1_.off());
    let ghost t2 = with_kid(t, g, c2);
    let ghost gone = val is Some;
    let ghost ko: KeyPieceOffset = if gone {
        choose|ko: KeyPieceOffset| #[trigger] kv_del(k0, v0, h0, self.k(), self.v(), self.h(), ko)
            && k0[ko].key == key && c.has(ko) && val->0@ == v0[k0[ko].voff] && del_tree(n0, c, n1, c2, k1, ko, true) } else { KeyPieceOffset { val: 0 } };
    proof {
        assert(del_tree(n0, c, n1, c2, k1, ko, gone));
        if !gone { not_in(t, k0, g, key); }
        assert forall|x: KeyPieceOffset| #[trigger] t.has(x) implies k0.dom().contains(x) by { has_dom(k0, t, x); }
        kid_store(n0, t, g, n1, c2);
        kid_bal(t, g, c2);
        kid_loose(t, g, c2);
        once(t, k0, g);
        kid_has_sub(t, g, c2, ko, gone);
        kid_ord(t, g, c2, k0, k1);
        assert(node_.nv().downs =~= t2.nv().downs);
        if gone { assert(t.kids[g].has(ko)); assert(t.has(ko)); }
    }
//@ after let:node_ 0
    let ghost n3 = self.n();
    let ghost t3 = Tree { off: node_.off(), ..t2 };
    proof { let t4 = parent_written(n0, t, n1, t2, self.n(), node_.off(), k1);
        reveal(bal_pre); reveal(bal_post); assert(bal_pre(n3, t3, k1, g));
    }
//@ after balance_right
    proof {
        let t4 = tree_at(self.n(), node_.off());
        tpost_trans(n0, t, n3, t3, self.n(), t4);
        assert(del_tree(n0, t, self.n(), t4, self.k(), ko, gone));
        assert(gone ==> kv_del(k0, v0, h0, self.k(), self.v(), self.h(), ko)); // C01 C02 C09
    }
//@ after balance_left
    proof {
        let t4 = tree_at(self.n(), node_.off());
        tpost_trans(n0, t, n3, t3, self.n(), t4);
        assert(del_tree(n0, t, self.n(), t4, self.k(), ko, gone));
        assert(gone ==> kv_del(k0, v0, h0, self.k(), self.v(), self.h(), ko)); // C01 C02 C09
    }
//@ end
