//@ include head.rs
verus! {
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ include nodev.rs
//@ include tr_node.rs
//@ include eqon.rs
//@ include nc_codec.rs
//@ include nc_cache.rs
//@ mutself flush sync_all sync_data read_node read_top_node
//@ include nfile.rs
//@ stubs off
//@ include klt.rs
//@ include kt_stub.rs
//@ include tree_model.rs
//@ include ts_upd.rs
//@ include ts_kvh.rs
//@ proofs off
//@ include ts_ctree.rs
//@ include tree_lemmas.rs
//@ include ins_lemmas.rs
//@ include tree_kv.rs
//@ include top_spec.rs
//@ proofs on
//@ include uu_spec.rs
pub struct FileDbXxxInner { pub dirty: bool, pub key_file: KeyFile, pub val_file: ValueFile, pub idx_file: IdxFile, pub htx_file: HtxFile }
//@ file src/filedb/inner/idx.rs
//@ const IDX_HEADER_TOP_NODE_OFFSET
impl VarFile {
//@ fn VarFile::read_top_node_offset
    requires old(self).len() >= 24,
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == u64_at(old(self).img(), 16), // C01 C05
//@ end
}
impl FileDbXxxInner {
    pub open spec fn k(&self) -> KMap { self.key_file.k() }
    pub open spec fn v(&self) -> VMap { self.val_file.v@ }
    pub open spec fn h(&self) -> HMap { self.htx_file.h@ }
    pub open spec fn idx(&self) -> VarFileNodeCache { self.idx_file.0 }
    pub open spec fn img(&self) -> Seq<u8> { self.idx().0.img() }
    pub open spec fn top(&self) -> NodePieceOffset { self.idx().2 }
    /// the files hold a map; its nodes are s, in the file or in the cache
    pub open spec fn is(&self, n: NMap, s: Store) -> bool {
        &&& self.idx().st(s) && agree(n, s)
        &&& dbok(n, self.top(), self.k(), self.v(), self.h())
        &&& self.img().len() >= 128 && u64_at(self.img(), 16) == self.top().val
    }
    pub open spec fn shows(&self, m: M) -> bool { shows(self.k(), self.v(), m) }
    pub open spec fn same_kvh(&self, o: Self) -> bool { self.k() == o.k() && self.v() == o.v() && self.h() == o.h() && self.dirty == o.dirty }
    /// nothing changed that any operation sees
    pub open spec fn same_all(&self, o: Self) -> bool { self.same_kvh(o) && self.top() == o.top() && self.idx().1 == o.idx().1 && self.idx().0.same(o.idx().0) }
//@ file src/filedb/inner/dbxxx.rs
//@ resultmap on
//@ stubs on
//@ include load_fns.rs
//@ stubs off
//@ fn FileDbXxxInner::keys_binary_search_uu_kt
//@ attr #[verifier::loop_isolation(false)]
    requires exists|s: Store, n: NMap, t: Tree| #[trigger] plain_tree(old(self).img(), s, n, t, old(self).k()) && t.off == node_offset,
    ensures
        final(self).same_all(*old(self)),
        ret is Ok ==> forall|s: Store, n: NMap, t: Tree| #[trigger] plain_tree(old(self).img(), s, n, t, old(self).k()) && t.off == node_offset ==> match ret->Ok_0 { // C01 C09
            Ok(x) => t.has(x) && old(self).k()[x].key == kt_v(key_kt),
            Err(o) => next_is(t, old(self).k(), kt_v(key_kt), o),
        },
//@ start
    broadcast use bf_len;
    let ghost k0 = self.k();
    let ghost img = self.img();
    let ghost off = node_offset.val as int;
    let ghost (s, n, t) = choose|s: Store, n: NMap, t: Tree| #[trigger] plain_tree(img, s, n, t, k0) && t.off == node_offset;
    let ghost v = t.nv();
    let ghost sz = s[node_offset.val].sz as int;
    proof {
        level(img, s, n, t, k0);
    }
//@ before return 0
    proof { miss_all(img, s, n, t, k0, 0, kt_v(key_kt), NodePieceOffset { val: 0 }); }
//@ before return 1
    proof { found_all(img, s, n, t, k0, mid as int); }
//@ after loop 0
    proof {
        if t.leaf() { miss_all(img, s, n, t, k0, left as int, kt_v(key_kt), NodePieceOffset { val: 0 }); }
        else { assert(t.nv().downs[left as int].val == u64_at(img, off + 6 + 8 * t.keys.len() + 8 * left)); miss_all(img, s, n, t, k0, left as int, kt_v(key_kt), t.nv().downs[left as int]); }
    }
//@ loop 0
    invariant
        left <= right <= keys_count, keys_count == t.keys.len(), keys_start.val == off + 6,
        locked_idx.0.same(old(self).idx().0), locked_idx.1 == old(self).idx().1, locked_idx.2 == old(self).idx().2,
        locked_key.k@ == k0,
        forall|j: int| 0 <= j < left ==> klt(k0[#[trigger] t.keys[j]].key, kt_v(key_kt)),
        forall|j: int| right <= j < t.keys.len() ==> klt(kt_v(key_kt), k0[#[trigger] t.keys[j]].key),
    decreases right - left,
//@ loopstart 0
    broadcast use klt_trans;
    assert(t.keys[((left + right) / 2) as int].val == u64_at(img, off + 6 + 8 * ((left + right) / 2)));
//@ end
//@ fn FileDbXxxInner::find_in_node_tree_uu_kt
    requires vals_ok(old(self).k(), old(self).v()), exists|s: Store, n: NMap, t: Tree| #[trigger] plain_tree(old(self).img(), s, n, t, old(self).k()) && t.off == node_offset,
    ensures
        final(self).same_all(*old(self)),
        ret is Ok ==> forall|s: Store, n: NMap, t: Tree| #[trigger] plain_tree(old(self).img(), s, n, t, old(self).k()) && t.off == node_offset ==> holds_key(t, old(self).k(), old(self).v(), kt_v(key_kt), ov(ret->Ok_0)), // C01 C09
    decreases the_tree(old(self).img(), node_offset, old(self).k()).ht(),
//@ start
    let ghost (k0, v0, img) = (self.k(), self.v(), self.img());
    let ghost (s, n, t) = choose|s: Store, n: NMap, t: Tree| #[trigger] plain_tree(img, s, n, t, k0) && t.off == node_offset;
    let ghost b = kt_v(key_kt);
    proof { level(img, s, n, t, k0); the_tree_is(img, s, n, t, k0); }
//@ before load_value 0
    assert(holds_key(t, k0, v0, b, Some(v0[k0[key_offset].voff])));
//@ before find_in_node_tree_uu_kt 0
    assert(self.img() == img && plain_tree(img, s, n, t.kids[gi], k0) && node_offset == t.kids[gi].off);
//@ after find_in_node_tree_uu_kt 0
    assert(tail_ is Ok ==> holds_key(t, k0, v0, b, ov(tail_->Ok_0)));
//@ after keys_binary_search_uu_kt 0
    assert(r is Err ==> next_is(t, k0, b, r->Err_0));
    let ghost gi = if r is Err { choose|i: int| #[trigger] only_kid(t, k0, i, b) && 0 <= i <= t.keys.len() && if t.leaf() { r->Err_0.val == 0 } else { r->Err_0 == t.kids[i].off } } else { 0 };
    proof {
        if r is Ok { has_dom(k0, t, r->Ok_0); }
        assert forall|s2: Store, n2: NMap, t2: Tree| #[trigger] plain_tree(img, s2, n2, t2, k0) && t2.off == t.off implies t2 == t by { plain_unique(img, s, n, t, s2, n2, t2, k0); }
        assert forall|w: Option<Seq<u8>>| (t.leaf() ==> w is None) && (!t.leaf() ==> holds_key(t.kids[gi], k0, v0, b, w)) && r is Err implies #[trigger] holds_key(t, k0, v0, b, w) by { holds_up(t, k0, v0, gi, b, w); }
        if r is Err && !t.leaf() {
            assert(plain_tree(img, s, n, t.kids[gi], k0));
            the_tree_is(img, s, n, t.kids[gi], k0);
            kid_ht(t, gi);
        }
    }
//@ end
//@ fn DbXxxObjectSafe for FileDbXxxInner::get_kt as get_kt
    requires exists|n: NMap, s: Store| #[trigger] old(self).is(n, s),
    ensures
        final(self).same_kvh(*old(self)),
        forall|n: NMap, s: Store| #[trigger] old(self).is(n, s) && ret is Ok ==> final(self).is(n, s), // C01 C04 C16
        ret is Ok ==> forall|m: M| #[trigger] old(self).shows(m) ==> ov(ret->Ok_0) == mget(m, kt_v(key_kt)), // C01 C09
//@ start
    let ghost f0 = *self;
    let ghost mut f1 = *self;
    let ghost b = kt_v(key_kt);
    let ghost (n, s) = choose|n: NMap, s: Store| #[trigger] self.is(n, s);
    let ghost t = tree_at(n, self.top());
    let ghost (k0, v0) = (self.k(), self.v());
    proof { assert(store(self.img(), self.idx().1, s)); tree_at_is(n, t); }
//@ before load_value 0
    proof {
        assert(holds_key(t, k0, v0, b, Some(v0[k0[key_offset].voff]))) by { assert(t.has(key_offset)); }
        holds_shows(t, k0, v0, b, Some(v0[k0[key_offset].voff]));
    }
//@ after flush_node_cache_clear 0
    proof {
        assert forall|n2: NMap, s2: Store| #[trigger] f0.is(n2, s2) implies self.is(n2, s2) by {
            assert(store(f0.img(), f0.idx().1, s2));
            top_kept(f0.img(), self.img(), s2);
        }
        assert(self.is(n, s));
        self.idx().clean_store(s);
        assert(plain_tree(self.img(), s, n, t, k0));
        f1 = *self;
    }
//@ before find_in_node_tree_uu_kt 0
    assert(self.img() == f1.img());
    assert(self.k() == k0 && self.v() == v0 && vals_ok(k0, v0));
    assert(plain_tree(self.img(), s, n, t, self.k()) && t.off == node_offset);
//@ after find_in_node_tree_uu_kt 0
    proof {
        assert(f1.img() == self.img());
        if tail_ is Ok { holds_shows(t, k0, v0, b, ov(tail_->Ok_0)); }
        assert forall|n2: NMap, s2: Store| #[trigger] f0.is(n2, s2) implies self.is(n2, s2) by { assert(f1.is(n2, s2)); }
    }
//@ end
}
/// the handle passes on to the map
pub struct FileDbMap(pub FileDbXxxInner);
impl FileDbMap {
//@ file src/filedb/dbmap/mod.rs
//@ fn DbXxxObjectSafe for FileDbMap::get_kt as get_kt
    requires exists|n: NMap, s: Store| #[trigger] old(self).0.is(n, s),
    ensures
        final(self).0.same_kvh(old(self).0),
        forall|n: NMap, s: Store| #[trigger] old(self).0.is(n, s) && ret is Ok ==> final(self).0.is(n, s), // C01 C04 C16
        ret is Ok ==> forall|m: M| #[trigger] old(self).0.shows(m) ==> ov(ret->Ok_0) == mget(m, kt_v(key)), // C01 C09
//@ end
}
}
fn main() {}
