//@ fn FileDbXxxInner::split_on_insert
    requires ({
        let t = ctree(old(self).n(), node_.off(), node_.nv());
        &&& t.krep(old(self).n()) && t.nv() == node_.nv() && t.bal() && t.kids_fill() && t.dis() && t.ord(old(self).k())
        &&& !node_.act() && node_.off().val != 0 && old(self).n().dom().contains(node_.off())
        &&& t.keys.len() == MAXK + 1
    }),
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> ({
            let t = ctree(old(self).n(), node_.off(), node_.nv());
            let t2 = ctree(final(self).n(), ret->Ok_0.off(), ret->Ok_0.nv());
            &&& t2.nv() == ret->Ok_0.nv() && ret->Ok_0.act() && is_split(t2)
            &&& t2.krep(final(self).n()) && t2.dis() && tpost(old(self).n(), t, final(self).n(), t2)
            &&& t2.bal() && t2.kids_fill() && t2.ht() == t.ht() + 1
            &&& t2.ord(old(self).k())
            &&& t2.has_eq(t)
        }),
//@ start
    let ghost t = ctree(self.n(), node_.off(), node_.nv());
    let ghost n0 = self.n();
    let ghost nv0 = node_.nv();
    proof {
        assert(t.keys == nv0.keys);
        assert(t.nv().downs == nv0.downs);
        assert(nv0.downs.len() == 65);
    }
//@ tail
    proof {
        let m = 32int;
        let ol = node_.off();
        let or = node1_.off();
        assert(node1_.nv().keys =~= right_part(t, m, or).nv().keys);
        assert(node1_.nv().downs =~= right_part(t, m, or).nv().downs);
        assert(node_.nv().keys =~= left_part(t, m, ol).nv().keys);
        assert(node_.nv().downs =~= left_part(t, m, ol).nv().downs);
        let n1 = n0.insert(or, right_part(t, m, or).nv());
        split_node_store(n0, t, m, n1, or, self.n(), ol);
        split_node_shape(t, m, ol, or);
        split_node_has(t, m, ol, or);
        split_node_ord(t, m, ol, or, self.k());
        let a = split_of(t, m, ol, or);
        assert(a.nv().downs =~= seq![ol, or]);
        ctree_is(self.n(), a);
        assert(new_active_node.nv() == a.nv());
    }
//@ end
//@ fn FileDbXxxInner::balance_on_insert
    requires ({
        let t = with_split(ctree(old(self).n(), node_.off(), node_.nv()), i as int, ctree(old(self).n(), active_node_.off(), active_node_.nv()));
        &&& i <= node_.nv().keys.len() && node_.nv().downs.len() == node_.nv().keys.len() + 1
        &&& t.nv().keys == node_.nv().keys.insert(i as int, active_node_.nv().keys[0])
        &&& t.nv().downs == node_.nv().downs.update(i as int, active_node_.nv().downs[1]).insert(i as int, active_node_.nv().downs[0])
        &&& t.krep(old(self).n()) && t.bal() && t.kids_fill() && t.dis() && t.ord(old(self).k())
        &&& !node_.act() && node_.off().val != 0 && old(self).n().dom().contains(node_.off())
        &&& active_node_.act() && active_node_.nv().keys.len() == 1 && active_node_.nv().downs.len() == 2
        &&& t.keys.len() <= MAXK + 1
    }),
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> ({
            let t = with_split(ctree(old(self).n(), node_.off(), node_.nv()), i as int, ctree(old(self).n(), active_node_.off(), active_node_.nv()));
            let t2 = ctree(final(self).n(), ret->Ok_0.off(), ret->Ok_0.nv());
            &&& t2.nv() == ret->Ok_0.nv()
            &&& t2.krep(final(self).n()) && t2.dis() && tpost(old(self).n(), t, final(self).n(), t2)
            &&& t2.bal() && t2.kids_fill()
            &&& t2.ord(old(self).k())
            &&& t2.has_eq(t)
            &&& if ret->Ok_0.act() { is_split(t2) && t2.ht() == t.ht() + 1 }
                else { t2.rep(final(self).n()) && t2.ht() == t.ht() && t2.keys.len() == t.keys.len() && t2.keys.len() <= MAXK }
        }),
//@ start
    let ghost n0 = self.n();
    let ghost t = with_split(ctree(self.n(), node_.off(), node_.nv()), i as int, ctree(self.n(), active_node_.off(), active_node_.nv()));
//@ before is_over_len
    proof {
        assert(node_.nv().keys =~= t.nv().keys);
        assert(node_.nv().downs =~= t.nv().downs);
        ctree_is(n0, t);
    }
//@ after let:node 1
    proof {
        root_write(n0, self.n(), t, node.off());
        let t2 = Tree { off: node.off(), ..t };
        ctree_is(self.n(), t2);
        assert(t2.ord(self.k())) by { moved_ord(t, node.off(), self.k()); }
        moved_shape(t, node.off());
    }
//@ end
//@ fn FileDbXxxInner::store_value_on_insert
    requires old(self).k().dom().contains(piece_offset), old(self).v().dom().contains(old(self).k()[piece_offset].voff), piece_offset.val != 0,
        old(self).k()[piece_offset].voff.val != 0,
    ensures
        final(self).n() == old(self).n(), final(self).top() == old(self).top(), final(self).dirty == old(self).dirty,
        ret is Ok ==> ret->Ok_0 == piece_offset
            && kv_ins(old(self).k(), old(self).v(), old(self).h(), final(self).k(), final(self).v(), final(self).h(), old(self).k()[piece_offset].key, value@, piece_offset), // C01 C02 C09
//@ after to_vec
    assert(val_piece.value@ =~= value@);
//@ tail
    proof {
        let k0 = old(self).k();
        if key_piece.value_offset == k0[piece_offset].voff {
            assert(self.k() =~= k0.insert(piece_offset, KeyRec { key: k0[piece_offset].key, voff: k0[piece_offset].voff }));
        }
    }
//@ end
//@ fn FileDbXxxInner::keys_is_empty_on_insert_
    ensures
        final(self).n() == old(self).n(), final(self).top() == old(self).top(), final(self).dirty == old(self).dirty,
        ret is Ok ==> ret->Ok_0.act() && ret->Ok_0.off().val == 0 && ret->Ok_0.nv().keys.len() == 1
            && ret->Ok_0.nv().downs == seq![NodePieceOffset { val: 0 }, NodePieceOffset { val: 0 }]
            && !old(self).k().dom().contains(ret->Ok_0.nv().keys[0])
            && kv_ins(old(self).k(), old(self).v(), old(self).h(), final(self).k(), final(self).v(), final(self).h(), kt_v(key_kt), value@, ret->Ok_0.nv().keys[0]), // C01 C02 C09
//@ end

//@ fn FileDbXxxInner::insert_into_node_tree_kt
//@ attr #[verifier::rlimit(60)]
    requires
        node_pre(node_, old(self).n(), old(self).k()), vals_ok(old(self).k(), old(self).v()),
        tree_at(old(self).n(), node_.off()).keys.len() == 0 ==> tree_at(old(self).n(), node_.off()).leaf(),
    ensures
        final(self).top() == old(self).top(), old(self).dirty ==> final(self).dirty,
        ret is Ok ==> exists|ko: KeyPieceOffset| ({
            &&& #[trigger] kv_ins(old(self).k(), old(self).v(), old(self).h(), final(self).k(), final(self).v(), final(self).h(), kt_v(key_kt), value@, ko) // C01 C02 C09
            &&& ins_post(old(self).n(), tree_at(old(self).n(), node_.off()), old(self).k(), final(self).n(),
                    ctree(final(self).n(), ret->Ok_0.off(), ret->Ok_0.nv()), final(self).k(), ret->Ok_0, ko)
            &&& old(self).k().dom().contains(ko) ==> tree_at(old(self).n(), node_.off()).has(ko)
        }),
    decreases tree_at(old(self).n(), node_.off()),
//@ start
    let ghost n0 = self.n();
    let ghost k0 = self.k();
    let ghost v0 = self.v();
    let ghost h0 = self.h();
    let ghost t = tree_at(self.n(), node_.off());
    let ghost off0 = node_.off();
    let ghost key = kt_v(key_kt);
    proof {
        tree_at_is(n0, t);
        ctree_is(n0, t);
        all_in_dom(n0, t);
    }
//@ after delete_node
    proof {
        let ko = active_node.nv().keys[0];
        let t2 = ctree(self.n(), active_node.off(), active_node.nv());
        assert(t2.kids =~= Seq::empty());
        assert(t2.nv().downs =~= active_node.nv().downs);
        inf_kids(t2); inf_kids(t);
        assert(t2.keys[0] == ko);
        assert forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) || x == ko) by {}
        assert(ins_post(n0, t, k0, self.n(), t2, self.k(), active_node, ko));
        assert(kv_ins(k0, v0, h0, self.k(), self.v(), self.h(), key, value@, ko)); // C01 C02 C09
    }
//@ after store_value_on_insert
    proof {
        let ko = key_offset;
        assert(t.keys[k as int] == ko);
        assert(t.has(ko));
        assert forall|x: KeyPieceOffset| #[trigger] t.has(x) implies k0.dom().contains(x) by { has_dom(k0, t, x); }
        ord_frame(k0, self.k(), t);
        assert(ins_post(n0, t, k0, self.n(), t, self.k(), node_, ko));
        assert(kv_ins(k0, v0, h0, self.k(), self.v(), self.h(), key, value@, ko)); // C01 C02 C09
    }
//@ after let:node_offset1
    proof {
        if t.leaf() {
            assert(t.nv().downs[k as int] == NodePieceOffset { val: 0 });
        } else {
            assert(t.nv().downs[k as int] == t.kids[k as int].off);
            let c = t.kids[k as int];
            assert(c.rep(n0));
            tree_at_is(n0, c);
            assert(c.bal() && c.fill() && c.dis() && c.ord(k0) && c.keys.len() >= MINK);
            assert(n0[c.off] == c.nv());
        }
    }
    let ghost c = t.kids[k as int];
//@ after let:node2_
    let ghost n1 = self.n();
    let ghost k1 = self.k();
    let ghost a = ctree(n1, node2_.off(), node2_.nv());
    let ghost ko: KeyPieceOffset = if t.leaf() { node2_.nv().keys[0] } else {
        choose|ko: KeyPieceOffset| #[trigger] kv_ins(k0, v0, h0, self.k(), self.v(), self.h(), key, value@, ko)
            && ins_post(n0, c, k0, n1, a, k1, node2_, ko) && (k0.dom().contains(ko) ==> c.has(ko)) };
    proof {
        if t.leaf() {
            assert(a.kids =~= Seq::empty());
            assert(a.nv().downs =~= node2_.nv().downs);
        }
        assert(kv_ins(k0, v0, h0, self.k(), self.v(), self.h(), key, value@, ko)); // C01 C02 C09
        assert(k0.dom().contains(ko) ==> t.has(ko));
        assert forall|x: KeyPieceOffset| #[trigger] t.has(x) implies k0.dom().contains(x) && k1.dom().contains(x) && k1[x].key == k0[x].key by { has_dom(k0, t, x); }
        assert(in_gap(t, k0, k as int, key));
        if !t.leaf() { once(t, k0, k as int); }
    }
//@ after let:node2_ 1
    let ghost n2 = self.n();
    let ghost c3 = Tree { off: node2_.off(), ..a };
    let ghost t2 = with_kid(t, k as int, c3);
    proof {
        assert(!t.leaf());
        root_write(n1, n2, a, node2_.off());
        moved_shape(a, node2_.off());
        moved_ord(a, node2_.off(), k1);
        tpost_trans(n0, c, n1, a, n2, c3);
        kid_store(n0, t, k as int, n2, c3);
        kid_bal(t, k as int, c3);
        kid_fill(t, k as int, c3);
        kid_has_add(t, k as int, c3, ko);
        kid_ord(t, k as int, c3, k0, k1);
    }
//@ before write_node 2
    proof {
        assert(node_.nv().downs =~= t2.nv().downs);
        assert(node_.nv().keys =~= t2.nv().keys);
    }
//@ after write_node 2
    proof {
        if tail_ is Ok {
            let off3 = tail_->Ok_0.off();
            let t3 = Tree { off: off3, ..t2 };
            root_write(n2, self.n(), t2, off3);
            moved_shape(t2, off3);
            moved_ord(t2, off3, k1);
            tpost_trans(n0, t, n2, t2, self.n(), t3);
            ctree_is(self.n(), t3);
            assert(ins_post(n0, t, k0, self.n(), t3, self.k(), tail_->Ok_0, ko));
            assert(kv_ins(k0, v0, h0, self.k(), self.v(), self.h(), key, value@, ko)); // C01 C02 C09
        }
    }
//@ before balance_on_insert
    let ghost t2 = with_split(t, k as int, a);
    proof {
        if t.leaf() {
            all_in_dom(n0, t);
            inf_kids(t); inf_kids(t2);
            assert(a.ord(k1));
            assert(t2.nv().downs =~= t.nv().downs.update(k as int, a.nv().downs[1]).insert(k as int, a.nv().downs[0]));
        } else {
            split_store(n0, t, k as int, n1, a);
            split_kids(t, k as int, a);
            assert(t2.nv().downs =~= t.nv().downs.update(k as int, a.nv().downs[1]).insert(k as int, a.nv().downs[0]));
        }
        split_shape(t, k as int, a);
        split_has(t, k as int, a, ko);
        split_ord(t, k as int, a, k0, k1);
        let u = ctree(n1, node_.off(), node_.nv());
        if t.leaf() {
            assert(u.kids =~= t.kids);
        } else {
            assert(t.nv().downs[0] == t.kids[0].off);
            assert(t.kids[0].rep(n0));
            split_kids(u, k as int, a);
            assert forall|j: int| 0 <= j < t.kids.len() && j != k implies #[trigger] u.kids[j] == t.kids[j] by {
                let l = if j < k { j } else { j + 1 };
                assert(t2.kids[l] == t.kids[j]);
                assert(t2.kids[l].rep(n1));
                assert(t.nv().downs[j] == t.kids[j].off);
                tree_at_is(n1, t.kids[j]);
            }
            assert(with_split(u, k as int, a).kids =~= t2.kids);
        }
        assert(with_split(u, k as int, a) == t2);
    }
//@ after balance_on_insert
    proof {
        if tail_ is Ok {
            let t3 = ctree(self.n(), tail_->Ok_0.off(), tail_->Ok_0.nv());
            tpost_trans(n0, t, n1, t2, self.n(), t3);
            assert(ins_post(n0, t, k0, self.n(), t3, self.k(), tail_->Ok_0, ko));
            assert(kv_ins(k0, v0, h0, self.k(), self.v(), self.h(), key, value@, ko)); // C01 C02 C09
        }
    }
//@ end
