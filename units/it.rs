//@ include head.rs
verus! {
//@ include base.rs
//@ include nodev.rs
//@ include tree_common.rs
//@ stubs on
//@ include tr_node.rs
//@ stubs off
//@ include tree_state.rs
//@ proofs off
//@ include tree_lemmas.rs
//@ include ins_lemmas.rs
//@ include tree_kv.rs
//@ include top_spec.rs
//@ proofs on
//@ include node_clone.rs
//@ include it_spec.rs
//@ file src/filedb/inner/dbxxx.rs
//@ resultmap on
impl FileDbXxxInner {
    pub open spec fn ok(&self) -> bool { dbok(self.n(), self.top(), self.k(), self.v(), self.h()) }
    pub open spec fn shows(&self, m: M) -> bool { shows(self.k(), self.v(), m) }
//@ stubs on
//@ include load_fns.rs
//@ stubs off
}
//@ nogenerics on
//@ dropcalls drop
//@ vgets read_node load_key_data load_value new
pub struct DbXxxIterMut { pub db_map: FileDbXxxInner, pub depth_nodes: Vec<Fr> }
impl Clone for FileDbXxxInner {
    // the clone of the shared pointer: the same map
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl DbXxxIterMut {
    pub open spec fn ok(&self) -> bool { self.db_map.ok() && stack(self.db_map.n(), self.db_map.k(), self.depth_nodes@) }
    /// what is yet to come
    pub open spec fn rest(&self) -> Seq<KeyPieceOffset> { rest(self.db_map.n(), self.depth_nodes@) }
    /// the pairs yet to come
    pub open spec fn yet(&self) -> Seq<P> { pairs(self.db_map.k(), self.db_map.v(), self.rest()) }
//@ fn DbXxxIterMut::new
    requires db_map.ok(),
    ensures ret is Ok ==> ret->Ok_0.ok() && ret->Ok_0.db_map == db_map && ret->Ok_0.rest() == inord(tree_at(db_map.n(), db_map.top())), // C02
        ret is Ok ==> forall|m: M| #[trigger] db_map.shows(m) ==> lists(m, ret->Ok_0.yet()), // C02
//@ start
    let ghost n = db_map.n();
    let ghost k = db_map.k();
    let ghost t = tree_at(n, db_map.top());
    proof {
        tree_at_is(n, t);
        assert forall|m: M| #[trigger] db_map.shows(m) implies lists(m, pairs(k, db_map.v(), inord(t))) by { all_listed(n, db_map.top(), k, db_map.v(), db_map.h(), m); }
    }
//@ before return 0
    proof { assert(t.leaf()); assert(inord(t) =~= Seq::<KeyPieceOffset>::empty()); }
//@ loop 0
    invariant
        *db_map_inner == db_map, db_map.ok(), n == db_map.n(), k == db_map.k(), t == tree_at(n, db_map.top()),
        depth_nodes@.len() > 0, depth_nodes@.last() == (node, 0i32, 0i32),
        stack(n, k, depth_nodes@), rest(n, depth_nodes@) == inord(t),
    ensures stack(n, k, depth_nodes@), rest(n, depth_nodes@) == inord(t),
    decreases tree_at(n, node.off()).ht(),
//@ loopstart 0
    proof { fr_leaf(n, k, depth_nodes@.last()); if !ft(n, depth_nodes@.last()).leaf() { fr_kid(n, k, depth_nodes@.last(), 0); } }
    let ghost s0 = depth_nodes@;
//@ loopend 0
    proof { deeper(n, k, s0, depth_nodes@.last()); assert(depth_nodes@ =~= s0.push(depth_nodes@.last())); }
//@ end
//@ fn DbXxxIterMut::next_piece_offset
    requires old(self).ok(),
    ensures
        final(self).ok() && final(self).db_map == old(self).db_map,
        ret is Some ==> old(self).db_map.k().dom().contains(ret->Some_0) && ret->Some_0.val != 0, // C02
        ret is Some ==> old(self).rest() == seq![ret->Some_0] + final(self).rest(), // C02
        ret is None ==> old(self).rest().len() == 0 && final(self).rest().len() == 0, // C02
    decreases if old(self).depth_nodes@.len() == 0 { 0 } else { ft(old(self).db_map.n(), old(self).depth_nodes@.last()).ht() },
//@ start
    let ghost n = self.db_map.n();
    let ghost k = self.db_map.k();
    let ghost s0 = self.depth_nodes@;
    let ghost f = s0.last();
    let ghost s1 = s0.drop_last().push(nextkey(f));
    proof { if s0.len() > 0 { step(n, k, s0); } }
//@ before return 2
    proof { assert(self.depth_nodes@ =~= s0.push(self.depth_nodes@.last())); }
//@ before loop 0
    proof { assert(self.depth_nodes@.drop_last() =~= s0.drop_last()); }
//@ loop 0
    invariant_except_break
        self.depth_nodes@.len() > 0, stack_up(n, k, self.depth_nodes@.drop_last()),
        rest_up(n, self.depth_nodes@.drop_last()) == rest_up(n, s0.drop_last()),
    invariant
        n == self.db_map.n(), k == self.db_map.k(), self.db_map.ok(), self.db_map == old(self).db_map,
    ensures stack(n, k, self.depth_nodes@), rest(n, self.depth_nodes@) == rest_up(n, s0.drop_last()),
    decreases self.depth_nodes@.len(),
//@ loopstart 0
    let ghost u = self.depth_nodes@.drop_last();
    proof { if u.len() > 0 { up(n, k, u); } }
//@ loopend 0
    proof { assert(self.depth_nodes@.drop_last() =~= u.drop_last()); }
//@ tail
    proof {
        if sw == 0 { assert(self.depth_nodes@ =~= s1); }
        if sw == 1 { assert(self.depth_nodes@ =~= s1.push(self.depth_nodes@.last())); }
    }
//@ end
//@ fn Iterator for DbXxxIterMut::next as next
    requires old(self).ok(),
    ensures
        final(self).ok(),
        match ret { // C02
            Some((key, value)) => old(self).yet() == seq![(kt_v(&key), value@)] + final(self).yet(),
            None => old(self).yet().len() == 0 && final(self).yet().len() == 0,
        },
//@ start
    let ghost (k, v) = (self.db_map.k(), self.db_map.v());
    let ghost s = self.rest();
//@ before let:db_map_inner
    let ghost r = self.rest();
    proof {
        assert(pairs(k, v, s) =~= seq![(k[key_offset].key, v[k[key_offset].voff])] + pairs(k, v, r)) by {
            assert(s[0] == key_offset);
            assert forall|i: int| 0 < i < s.len() implies s[i] == r[i - 1] by {}
        }
    }
//@ end
}
pub struct DbXxxIter { pub iter: DbXxxIterMut }
impl DbXxxIter {
    pub open spec fn ok(&self) -> bool { self.iter.ok() }
    pub open spec fn yet(&self) -> Seq<P> { self.iter.yet() }
//@ fn DbXxxIter::new
    requires db_map.ok(),
    ensures ret is Ok ==> ret->Ok_0.ok(),
        ret is Ok ==> forall|m: M| #[trigger] db_map.shows(m) ==> lists(m, ret->Ok_0.yet()), // C02
//@ end
//@ fn Iterator for DbXxxIter::next as next
    requires old(self).ok(),
    ensures
        final(self).ok(),
        match ret { // C02
            Some((key, value)) => old(self).yet() == seq![(kt_v(&key), value@)] + final(self).yet(),
            None => old(self).yet().len() == 0 && final(self).yet().len() == 0,
        },
//@ end
}
pub struct DbXxxIntoIter { pub iter: DbXxxIterMut }
impl DbXxxIntoIter {
    pub open spec fn ok(&self) -> bool { self.iter.ok() }
    pub open spec fn yet(&self) -> Seq<P> { self.iter.yet() }
//@ fn DbXxxIntoIter::new
    requires db_map.ok(),
    ensures ret is Ok ==> ret->Ok_0.ok(),
        ret is Ok ==> forall|m: M| #[trigger] db_map.shows(m) ==> lists(m, ret->Ok_0.yet()), // C02
//@ end
//@ fn Iterator for DbXxxIntoIter::next as next
    requires old(self).ok(),
    ensures
        final(self).ok(),
        match ret { // C02
            Some((key, value)) => old(self).yet() == seq![(kt_v(&key), value@)] + final(self).yet(),
            None => old(self).yet().len() == 0 && final(self).yet().len() == 0,
        },
//@ end
}
//@ file src/filedb/dbmap/mod.rs
pub struct FileDbMap(pub FileDbXxxInner);
impl FileDbMap {
//@ fn DbMap for FileDbMap::iter
//@ sig pub fn iter(&self) -> (ret: DbXxxIter)
    requires self.0.ok(),
    ensures ret.ok(), forall|m: M| #[trigger] self.0.shows(m) ==> lists(m, ret.yet()), // C02
//@ end
//@ fn DbMap for FileDbMap::iter_mut
//@ sig pub fn iter_mut(&mut self) -> (ret: DbXxxIterMut)
    requires old(self).0.ok(),
    ensures ret.ok(), forall|m: M| #[trigger] old(self).0.shows(m) ==> lists(m, ret.yet()), // C02
//@ end
//@ fn IntoIterator for FileDbMap::into_iter
//@ sig pub fn into_iter(self) -> (ret: DbXxxIntoIter)
    requires self.0.ok(),
    ensures ret.ok(), forall|m: M| #[trigger] self.0.shows(m) ==> lists(m, ret.yet()), // C02
//@ end
//@ fn IntoIterator for &FileDbMap::into_iter @for=&FileDbMap<KT>
//@ sig pub fn into_iter_ref(&self) -> (ret: DbXxxIter)
    requires self.0.ok(),
    ensures ret.ok(), forall|m: M| #[trigger] self.0.shows(m) ==> lists(m, ret.yet()), // C02
//@ end
//@ fn IntoIterator for &FileDbMap::into_iter @for=&mutFileDbMap<KT>
//@ sig pub fn into_iter_mut(&mut self) -> (ret: DbXxxIterMut)
    requires old(self).0.ok(),
    ensures ret.ok(), forall|m: M| #[trigger] old(self).0.shows(m) ==> lists(m, ret.yet()), // C02
//@ end
}
}
fn main() {}
