//@ include head.rs
verus! {
//@ include base.rs
//@ include nodev.rs
//@ include tree_common.rs
//@ stubs on
//@ include tr_node.rs
//@ stubs off
//@ include tree_state.rs
//@ proofs off
//@ include tree_lemmas.rs
//@ include ins_lemmas.rs
//@ include tree_kv.rs
//@ include del_lemmas.rs
//@ include ins_spec.rs
//@ include del_spec.rs
//@ proofs on
//@ include top_spec.rs
//@ file src/filedb/inner/dbxxx.rs
//@ resultmap on
impl FileDbXxxInner {
    pub open spec fn ok(&self) -> bool { dbok(self.n(), self.top(), self.k(), self.v(), self.h()) }
    pub open spec fn shows(&self, m: M) -> bool { shows(self.k(), self.v(), m) }
//@ stubs on
//@ include ins_fns.rs
//@ include del_fns.rs
//@ stubs off
//@ include load_fns.rs
//@ fn DbXxxObjectSafe for FileDbXxxInner::put_kt as put_kt
//@ attr #[verifier::rlimit(60)]
    requires old(self).ok(),
    ensures
        ret is Ok ==> final(self).ok() && final(self).dirty,
        ret is Ok ==> forall|m: M| #[trigger] old(self).shows(m) ==> final(self).shows(m.insert(kt_v(key_kt), value@)), // C01 C02 C09
//@ start
    let ghost (n0, k0, v0, h0) = (self.n(), self.k(), self.v(), self.h());
    let ghost t = tree_at(self.n(), self.top());
    proof { tree_at_is(n0, t); }
//@ before return 0
    proof {
        assert(t.has(key_offset));
        assert forall|x: KeyPieceOffset| #[trigger] t.has(x) implies self.k().dom().contains(x) && self.k()[x].key == k0[x].key by { assert(k0.dom().contains(x)); }
        ord_frame(k0, self.k(), t);
        assert(keys_own(t, self.k()));
        ins_shows(t, k0, v0, h0, self.k(), self.v(), self.h(), kt_v(key_kt), value@, key_offset);
    }
//@ after insert_into_node_tree_kt 0
    let ghost n1 = self.n();
    let ghost t2 = ctree(n1, active_node.off(), active_node.nv());
    let ghost ko = choose|ko: KeyPieceOffset| #[trigger] kv_ins(k0, v0, h0, self.k(), self.v(), self.h(), kt_v(key_kt), value@, ko)
            && ins_post(n0, t, k0, n1, t2, self.k(), active_node, ko) && (k0.dom().contains(ko) ==> t.has(ko));
    proof {
        assert(keys_own(t2, self.k())) by {
            assert forall|x: KeyPieceOffset| #[trigger] self.k().dom().contains(x) == t2.has(x) by { assert(k0.dom().contains(x) == t.has(x)); }
        }
        ins_shows(t2, k0, v0, h0, self.k(), self.v(), self.h(), kt_v(key_kt), value@, ko);
    }
//@ tail
    proof {
        root_stored(n0, t, n1, t2, self.n(), self.top(), self.k());
        assert(keys_own(tree_at(self.n(), self.top()), self.k()));
    }
//@ end
//@ fn DbXxxObjectSafe for FileDbXxxInner::del_kt as del_kt
//@ attr #[verifier::rlimit(60)]
    requires old(self).ok(),
    ensures
        ret is Ok ==> final(self).ok() && final(self).dirty,
        ret is Ok ==> forall|m: M| #[trigger] old(self).shows(m) ==> final(self).shows(m.remove(kt_v(key_kt))) && ov(ret->Ok_0) == mget(m, kt_v(key_kt)), // C01 C02 C09
//@ start
    let ghost (n0, k0, v0, h0) = (self.n(), self.k(), self.v(), self.h());
    let ghost t = tree_at(self.n(), self.top());
    proof { tree_at_is(n0, t); }
//@ after delete_from_node_tree_kt 0
    let ghost n1 = self.n();
    let ghost t1 = tree_at(n1, top_node.off());
    let ghost k1 = self.k();
    proof {
        if opt_val is Some {
            let ko = choose|ko: KeyPieceOffset| #[trigger] kv_del(k0, v0, h0, self.k(), self.v(), self.h(), ko)
                && k0[ko].key == kt_v(key_kt) && t.has(ko) && opt_val->0@ == v0[k0[ko].voff] && del_tree(n0, t, n1, t1, self.k(), ko, true);
            del_shows(t, k0, v0, h0, self.k(), self.v(), self.h(), ko);
            assert(keys_own(t1, self.k())) by {
                assert forall|x: KeyPieceOffset| #[trigger] self.k().dom().contains(x) == t1.has(x) by { assert(k0.dom().contains(x) == t.has(x)); }
            }
        } else {
            assert forall|x: KeyPieceOffset| #[trigger] k0.dom().contains(x) implies k0[x].key != kt_v(key_kt) by { assert(t.has(x)); }
            absent(k0, v0, kt_v(key_kt));
        }
        assert(keys_own(t1, self.k()));
        still_own(n0, t, n1, t1);
        assert(shows(k0, v0, arbitrary()) || true);
    }
//@ after trim 0
    let ghost n2 = self.n();
    let ghost t2 = tree_at(n2, new_top_node.off());
    proof {
        tpost_trans(n0, t, n1, t1, n2, t2);
        still_own(n1, t1, n2, t2);
        tree_at_is(n2, t2);
    }
//@ tail
    proof {
        if self.n() != n2 || self.top() != t2.off { root_stored(n0, t, n2, t2, self.n(), self.top(), k1); }
        assert(keys_own(tree_at(self.n(), self.top()), self.k()));
    }
//@ end
}
/// the handle passes on to the map
pub struct FileDbMap(pub FileDbXxxInner);
impl FileDbMap {
//@ file src/filedb/dbmap/mod.rs
//@ fn DbXxxObjectSafe for FileDbMap::put_kt as put_kt
    requires old(self).0.ok(),
    ensures
        ret is Ok ==> final(self).0.ok() && final(self).0.dirty,
        ret is Ok ==> forall|m: M| #[trigger] old(self).0.shows(m) ==> final(self).0.shows(m.insert(kt_v(key), value@)), // C01 C02 C09
//@ end
//@ fn DbXxxObjectSafe for FileDbMap::del_kt as del_kt
    requires old(self).0.ok(),
    ensures
        ret is Ok ==> final(self).0.ok() && final(self).0.dirty,
        ret is Ok ==> forall|m: M| #[trigger] old(self).0.shows(m) ==> final(self).0.shows(m.remove(kt_v(key))) && ov(ret->Ok_0) == mget(m, kt_v(key)), // C01 C02 C09
//@ end
}
}
fn main() {}
