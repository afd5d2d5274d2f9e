//@ include head.rs
verus! {
//@ include base.rs
//@ include nodev.rs
//@ include tree_common.rs
//@ stubs on
//@ include tr_node.rs
//@ stubs off
//@ include ts_upd.rs
//@ proofs off
//@ include it_spec1.rs
//@ proofs on
//@ include st_spec.rs
//@ include st_state.rs
//@ include ts_inner.rs
//@ proofs off
//@ include ts_ctree.rs
//@ include tree_kv.rs
//@ include top_spec.rs
//@ proofs on
//@ include st_all.rs
//@ file src/filedb/mod.rs
//@ file src/filedb/inner/semtype.rs
//@ derives Piece PartialEq PartialOrd Eq Ord
//@ derives Node PartialEq PartialOrd Eq Ord
//@ derives Key PartialEq PartialOrd Eq Ord
//@ derives Value PartialEq PartialOrd Eq Ord
//@ derives Offset PartialEq PartialOrd Eq Ord
//@ derives Size PartialEq PartialOrd Eq Ord
//@ derives Length PartialEq PartialOrd Eq Ord
//@ derives Count PartialEq PartialOrd Eq Ord
//@ file src/filedb/dbmap/kt_dbstring.rs
//@ derives DbString PartialEq Eq PartialOrd Ord
//@ file src/filedb/dbmap/kt_dbint.rs
//@ derives DbInt PartialEq Eq PartialOrd Ord
//@ file src/filedb/dbmap/kt_dbbytes.rs
//@ derives DbBytes PartialEq Eq PartialOrd Ord
//@ file src/filedb/mod.rs
//@ derives RecordSizeStats Default
//@ derives KeysCountStats Default
//@ derives LengthStats Default
pub struct RecordSizeStats(pub Vec<(Size, u64)>);
pub struct KeysCountStats(pub Vec<(Count, u64)>);
pub struct LengthStats(pub Vec<(Length, u64)>);
impl RecordSizeStats {
    // derived in the source
    pub fn default() -> (r: Self) ensures r.0@.len() == 0 { RecordSizeStats(Vec::new()) }
//@ fn RecordSizeStats::touch_size
    requires hist(old(self).0@), cval(old(self).0@, piece_size.kv()) < u64::MAX,
    ensures hist(final(self).0@), once_more(old(self).0@, final(self).0@, piece_size.kv()), // C15
//@ start
    let ghost s = self.0@;
    proof {
        assert forall|r: core::result::Result<usize, usize>| #[trigger] found(s, piece_size, r) implies tch(s, piece_size, r) by { touched(s, piece_size, r); }
    }
//@ end
}
impl KeysCountStats {
    pub fn default() -> (r: Self) ensures r.0@.len() == 0 { KeysCountStats(Vec::new()) }
//@ fn KeysCountStats::touch_size
    requires hist(old(self).0@), cval(old(self).0@, keys_count.kv()) < u64::MAX,
    ensures hist(final(self).0@), once_more(old(self).0@, final(self).0@, keys_count.kv()), // C15
//@ start
    let ghost s = self.0@;
    proof {
        assert forall|r: core::result::Result<usize, usize>| #[trigger] found(s, keys_count, r) implies tch(s, keys_count, r) by { touched(s, keys_count, r); }
    }
//@ end
}
impl LengthStats {
    pub fn default() -> (r: Self) ensures r.0@.len() == 0 { LengthStats(Vec::new()) }
//@ fn LengthStats::touch_length
    requires hist(old(self).0@), cval(old(self).0@, key_length.kv()) < u64::MAX,
    ensures hist(final(self).0@), once_more(old(self).0@, final(self).0@, key_length.kv()), // C15
//@ start
    let ghost s = self.0@;
    proof {
        assert forall|r: core::result::Result<usize, usize>| #[trigger] found(s, key_length, r) implies tch(s, key_length, r) by { touched(s, key_length, r); }
    }
//@ end
}
//@ file src/filedb/inner/idx.rs
//@ lockcopy on
//@ vgets read_node
impl VarFileNodeCache {
//@ fn VarFileNodeCache::idx_piece_size_stats
//@ sig pub fn idx_piece_size_stats<F: Fn(KeyPieceOffset) -> Result<Size> + Copy>(&mut self, node_: &IdxNode, piece_vec: &mut RecordSizeStats, read_piece_size_func: F) -> (ret: Result<()>)
    requires
        walk(old(self).n(), *node_), reads(read_piece_size_func, tree_at(old(self).n(), node_.off())),
        hist(old(piece_vec).0@), room(old(piece_vec).0@, inord(tree_at(old(self).n(), node_.off())).len() as int),
    ensures
        *final(self) == *old(self),
        ret is Ok ==> hist(final(piece_vec).0@) && within(old(piece_vec).0@, final(piece_vec).0@, inord(tree_at(old(self).n(), node_.off())).len() as int),
        ret is Ok ==> forall|g: G| #[trigger] tells(read_piece_size_func, g, tree_at(old(self).n(), node_.off())) ==> counted(old(piece_vec).0@, final(piece_vec).0@, inord(tree_at(old(self).n(), node_.off())), g), // C15
    decreases tree_at(old(self).n(), node_.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node_.off());
    let ghost v0 = piece_vec.0@;
    proof { walk_at(n, *node_); sfx_last(t); if !t.leaf() { sound_kid(n, t, t.keys.len() as int); } sfx_le(t, t.keys.len() as int); }
//@ before loop 0
    proof {
        assert forall|g: G| tells(read_piece_size_func, g, t) implies #[trigger] counted(v0, piece_vec.0@, sfx(t, t.keys.len() as int), g) by { if !t.leaf() { assert(tells(read_piece_size_func, g, t.kids[t.keys.len() as int])); } }
    }
//@ loop 0
    invariant
        *self == *old(self), n == self.n(), walk(n, *node_), t == tree_at(n, node_.off()), *node == node_.0, 0 <= i <= t.keys.len(),
        t.rep(n), t.off == node_.off(), t.keys.len() <= MAXK, node.nv().downs.len() == t.keys.len() + 1, node.nv().keys == t.keys, reads(read_piece_size_func, t),
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]),
        hist(piece_vec.0@), room(v0, inord(t).len() as int), within(v0, piece_vec.0@, sfx(t, i as int).len() as int),
        forall|g: G| tells(read_piece_size_func, g, t) ==> #[trigger] counted(v0, piece_vec.0@, sfx(t, i as int), g),
    decreases i,
//@ loopstart 0
    let ghost w0 = piece_vec.0@;
    proof {
        sfx_step(t, i - 1); sfx_le(t, i - 1);
        if !t.leaf() { sound_kid(n, t, i - 1); }
    }
//@ after touch_size 0
    proof {
        assert forall|g: G| tells(read_piece_size_func, g, t) implies #[trigger] counted(v0, piece_vec.0@, seq![t.keys[i as int]] + sfx(t, i + 1), g) by { seen_key(v0, w0, piece_vec.0@, sfx(t, i + 1), t.keys[i as int], g); }
    }
//@ before let:node_offset 1
    let ghost w1 = piece_vec.0@;
//@ loopend 0
    proof {
        assert forall|g: G| tells(read_piece_size_func, g, t) implies #[trigger] counted(v0, piece_vec.0@, sfx(t, i as int), g) by {
            if t.leaf() { assert(kid_seq(t, i as int) + (seq![t.keys[i as int]] + sfx(t, i + 1)) =~= seq![t.keys[i as int]] + sfx(t, i + 1)); }
            else { assert(tells(read_piece_size_func, g, t.kids[i as int])); seen_kid(v0, w1, piece_vec.0@, seq![t.keys[i as int]] + sfx(t, i + 1), kid_seq(t, i as int), g); }
        }
    }
//@ end
//@ fn VarFileNodeCache::idx_kv_length_stats
//@ sig pub fn idx_kv_length_stats<F: Fn(KeyPieceOffset) -> Result<Length> + Copy>(&mut self, node_: &IdxNode, length_vec: &mut LengthStats, read_kv_length_func: F) -> (ret: Result<()>)
    requires
        walk(old(self).n(), *node_), reads(read_kv_length_func, tree_at(old(self).n(), node_.off())),
        hist(old(length_vec).0@), room(old(length_vec).0@, inord(tree_at(old(self).n(), node_.off())).len() as int),
    ensures
        *final(self) == *old(self),
        ret is Ok ==> hist(final(length_vec).0@) && within(old(length_vec).0@, final(length_vec).0@, inord(tree_at(old(self).n(), node_.off())).len() as int),
        ret is Ok ==> forall|g: G| #[trigger] tells(read_kv_length_func, g, tree_at(old(self).n(), node_.off())) ==> counted(old(length_vec).0@, final(length_vec).0@, inord(tree_at(old(self).n(), node_.off())), g), // C15
    decreases tree_at(old(self).n(), node_.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node_.off());
    let ghost v0 = length_vec.0@;
    proof { walk_at(n, *node_); sfx_last(t); if !t.leaf() { sound_kid(n, t, t.keys.len() as int); } sfx_le(t, t.keys.len() as int); }
//@ before loop 0
    proof {
        assert forall|g: G| tells(read_kv_length_func, g, t) implies #[trigger] counted(v0, length_vec.0@, sfx(t, t.keys.len() as int), g) by { if !t.leaf() { assert(tells(read_kv_length_func, g, t.kids[t.keys.len() as int])); } }
    }
//@ loop 0
    invariant
        *self == *old(self), n == self.n(), walk(n, *node_), t == tree_at(n, node_.off()), *node == node_.0, 0 <= i <= t.keys.len(),
        t.rep(n), t.off == node_.off(), t.keys.len() <= MAXK, node.nv().downs.len() == t.keys.len() + 1, node.nv().keys == t.keys, reads(read_kv_length_func, t),
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]),
        hist(length_vec.0@), room(v0, inord(t).len() as int), within(v0, length_vec.0@, sfx(t, i as int).len() as int),
        forall|g: G| tells(read_kv_length_func, g, t) ==> #[trigger] counted(v0, length_vec.0@, sfx(t, i as int), g),
    decreases i,
//@ loopstart 0
    let ghost w0 = length_vec.0@;
    proof {
        sfx_step(t, i - 1); sfx_le(t, i - 1);
        if !t.leaf() { sound_kid(n, t, i - 1); }
    }
//@ after touch_length 0
    proof {
        assert forall|g: G| tells(read_kv_length_func, g, t) implies #[trigger] counted(v0, length_vec.0@, seq![t.keys[i as int]] + sfx(t, i + 1), g) by { seen_key(v0, w0, length_vec.0@, sfx(t, i + 1), t.keys[i as int], g); }
    }
//@ before let:node_offset 1
    let ghost w1 = length_vec.0@;
//@ loopend 0
    proof {
        assert forall|g: G| tells(read_kv_length_func, g, t) implies #[trigger] counted(v0, length_vec.0@, sfx(t, i as int), g) by {
            if t.leaf() { assert(kid_seq(t, i as int) + (seq![t.keys[i as int]] + sfx(t, i + 1)) =~= seq![t.keys[i as int]] + sfx(t, i + 1)); }
            else { assert(tells(read_kv_length_func, g, t.kids[i as int])); seen_kid(v0, w1, length_vec.0@, seq![t.keys[i as int]] + sfx(t, i + 1), kid_seq(t, i as int), g); }
        }
    }
//@ end
//@ fn VarFileNodeCache::count_of_used_node
//@ sig pub fn count_of_used_node<F: Fn(KeyPieceOffset) -> Result<(KeyPieceSize, ValuePieceSize)> + Copy>(&mut self, node_: &IdxNode, node_vec: &mut Vec<(u32, u64)>, key_piece_vec: &mut Vec<(u32, u64)>, value_piece_vec: &mut Vec<(u32, u64)>, read_key_value_piece_size_func: F) -> (ret: Result<()>)
    requires
        walk(old(self).n(), *node_), reads(read_key_value_piece_size_func, tree_at(old(self).n(), node_.off())), node_.0.size.val == nsz(old(self).0.img@, node_.off()),
        old(node_vec)@.len() > 0, old(key_piece_vec)@.len() > 0, old(value_piece_vec)@.len() > 0,
        broom(old(node_vec)@, ntot(tree_at(old(self).n(), node_.off()))),
        broom(old(key_piece_vec)@, inord(tree_at(old(self).n(), node_.off())).len() as int), broom(old(value_piece_vec)@, inord(tree_at(old(self).n(), node_.off())).len() as int),
    ensures
        *final(self) == *old(self),
        ret is Ok ==> bwithin(old(key_piece_vec)@, final(key_piece_vec)@, inord(tree_at(old(self).n(), node_.off())).len() as int),
        ret is Ok ==> bwithin(old(value_piece_vec)@, final(value_piece_vec)@, inord(tree_at(old(self).n(), node_.off())).len() as int),
        ret is Ok ==> tbcounted(old(node_vec)@, final(node_vec)@, tree_at(old(self).n(), node_.off()), old(self).0.img@), // C15
        ret is Ok ==> forall|p: (GS, GS)| #[trigger] tells2(read_key_value_piece_size_func, p, tree_at(old(self).n(), node_.off())) ==>
            bcounted(old(key_piece_vec)@, final(key_piece_vec)@, inord(tree_at(old(self).n(), node_.off())), p.0)
            && bcounted(old(value_piece_vec)@, final(value_piece_vec)@, inord(tree_at(old(self).n(), node_.off())), p.1), // C15
    decreases tree_at(old(self).n(), node_.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost img = self.0.img@;
    let ghost t = tree_at(n, node_.off());
    let ghost e = t.keys.len() as int;
    let ghost f = read_key_value_piece_size_func;
    let ghost (a0, k0, v0) = (node_vec@, key_piece_vec@, value_piece_vec@);
    proof {
        walk_at(n, *node_); sfx_last(t); sfx_le(t, e); nleft_le(t, 0); nleft_le(t, t.kids.len() as int);
        if !t.leaf() { sound_kid(n, t, e); nleft_le(t, e); }
        ncnt_le(t, zg(), 0);
        assert(broom(a0, 1)) by { assert forall|j: int| 0 <= j < a0.len() implies (#[trigger] a0[j]).1 + 1 <= u64::MAX by { assert(a0[j].1 + ntot(t) <= u64::MAX); } }
        assert forall|r: Option<usize>| #[trigger] at(a0, nsz(img, t.off), r) implies one(a0, nsz(img, t.off), r) by { bone(a0, nsz(img, t.off), r); }
    }
//@ after match 0
    let ghost a1 = node_vec@;
    proof {
        assert(bonce(a0, a1, nsz(img, t.off)));
        tbseen_one(a0, a1, t, img);
        tbseen_le(a0, a1, t, if t.leaf() { e + 1 } else { t.kids.len() as int }, img);
        broom_left(a0, a1, ntot(t), nleft(t, if t.leaf() { e + 1 } else { t.kids.len() as int }));
    }
//@ before loop 0
    proof {
        tbseen_kid(a0, a1, node_vec@, t, e, img);
        assert forall|p: (GS, GS)| tells2(f, p, t) implies #[trigger] both(k0, key_piece_vec@, v0, value_piece_vec@, sfx(t, e), p) by { if !t.leaf() { assert(tells2(f, p, t.kids[e])); } }
    }
//@ loop 0
    invariant
        *self == *old(self), n == self.n(), img == self.0.img@, walk(n, *node_), t == tree_at(n, node_.off()), *node == node_.0, 0 <= i <= t.keys.len(),
        t.rep(n), t.off == node_.off(), t.keys.len() <= MAXK, node.nv().downs.len() == t.keys.len() + 1, node.nv().keys == t.keys, reads(read_key_value_piece_size_func, t), f == read_key_value_piece_size_func,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]),
        a0.len() > 0, k0.len() > 0, v0.len() > 0,
        broom(a0, ntot(t)), tbseen(a0, node_vec@, t, i as int, img),
        broom(k0, inord(t).len() as int), bwithin(k0, key_piece_vec@, sfx(t, i as int).len() as int),
        broom(v0, inord(t).len() as int), bwithin(v0, value_piece_vec@, sfx(t, i as int).len() as int),
        forall|p: (GS, GS)| tells2(f, p, t) ==> #[trigger] both(k0, key_piece_vec@, v0, value_piece_vec@, sfx(t, i as int), p),
    decreases i,
//@ loopstart 0
    let ghost (wa, wk, wv) = (node_vec@, key_piece_vec@, value_piece_vec@);
    proof {
        let l = sfx(t, i as int).len() as int;
        sfx_step(t, i - 1); sfx_le(t, i - 1);
        tbseen_le(a0, wa, t, i as int, img);
        broom_left(a0, wa, ntot(t), nleft(t, i as int));
        broom_left(k0, wk, inord(t).len() as int, l);
        broom_left(v0, wv, inord(t).len() as int, l);
        if !t.leaf() { sound_kid(n, t, i - 1); nleft_le(t, i - 1); nleft_le(t, i as int); }
        assert(broom(wk, 1) && broom(wv, 1)) by {
            assert forall|j: int| 0 <= j < wk.len() implies (#[trigger] wk[j]).1 + 1 <= u64::MAX by { assert(wk[j].1 + (inord(t).len() as int - l) <= u64::MAX); }
            assert forall|j: int| 0 <= j < wv.len() implies (#[trigger] wv[j]).1 + 1 <= u64::MAX by { assert(wv[j].1 + (inord(t).len() as int - l) <= u64::MAX); }
        }
        assert forall|x: u32, r: Option<usize>| #[trigger] at(wk, x, r) implies one(wk, x, r) by { bone(wk, x, r); }
        assert forall|x: u32, r: Option<usize>| #[trigger] at(wv, x, r) implies one(wv, x, r) by { bone(wv, x, r); }
    }
//@ after match 2
    let ghost (uk, uv) = (key_piece_vec@, value_piece_vec@);
    proof {
        assert(bonce(wk, uk, key_piece_size.val));
        assert(bonce(wv, uv, value_piece_size.val));
        bonce_within(wk, uk, key_piece_size.val);
        bonce_within(wv, uv, value_piece_size.val);
        bwithin_add(k0, wk, uk, sfx(t, i + 1).len() as int, 1);
        bwithin_add(v0, wv, uv, sfx(t, i + 1).len() as int, 1);
        broom_left(k0, uk, inord(t).len() as int, sfx(t, i + 1).len() + 1int);
        broom_left(v0, uv, inord(t).len() as int, sfx(t, i + 1).len() + 1int);
        assert forall|p: (GS, GS)| tells2(f, p, t) implies #[trigger] both(k0, uk, v0, uv, seq![t.keys[i as int]] + sfx(t, i + 1), p) by {
            assert(both(k0, wk, v0, wv, sfx(t, i + 1), p));
            bseen_key(k0, wk, uk, sfx(t, i + 1), t.keys[i as int], p.0);
            bseen_key(v0, wv, uv, sfx(t, i + 1), t.keys[i as int], p.1);
        }
    }
//@ before let:node_offset 1
    let ghost (xk, xv) = (key_piece_vec@, value_piece_vec@);
//@ loopend 0
    proof {
        tbseen_kid(a0, wa, node_vec@, t, i as int, img);
        if !t.leaf() {
            bwithin_add(k0, xk, key_piece_vec@, sfx(t, i + 1).len() + 1int, kid_seq(t, i as int).len() as int);
            bwithin_add(v0, xv, value_piece_vec@, sfx(t, i + 1).len() + 1int, kid_seq(t, i as int).len() as int);
        }
        assert forall|p: (GS, GS)| tells2(f, p, t) implies #[trigger] both(k0, key_piece_vec@, v0, value_piece_vec@, sfx(t, i as int), p) by {
            assert(both(k0, xk, v0, xv, seq![t.keys[i as int]] + sfx(t, i + 1), p));
            if t.leaf() { assert(kid_seq(t, i as int) + (seq![t.keys[i as int]] + sfx(t, i + 1)) =~= seq![t.keys[i as int]] + sfx(t, i + 1)); }
            else {
                assert(tells2(f, p, t.kids[i as int]));
                bseen_kid(k0, xk, key_piece_vec@, seq![t.keys[i as int]] + sfx(t, i + 1), kid_seq(t, i as int), p.0);
                bseen_kid(v0, xv, value_piece_vec@, seq![t.keys[i as int]] + sfx(t, i + 1), kid_seq(t, i as int), p.1);
            }
        }
    }
//@ tail
    proof {
        tbseen_all(a0, node_vec@, t, img);
        assert forall|p: (GS, GS)| #[trigger] tells2(f, p, t) implies bcounted(k0, key_piece_vec@, inord(t), p.0) && bcounted(v0, value_piece_vec@, inord(t), p.1) by { assert(both(k0, key_piece_vec@, v0, value_piece_vec@, sfx(t, 0), p)); }
    }
//@ end
//@ fn VarFileNodeCache::idx_keys_count_stats
    requires
        walk(old(self).n(), *node_),
        hist(old(keys_vec).0@), room(old(keys_vec).0@, ntot(tree_at(old(self).n(), node_.off()))),
    ensures
        *final(self) == *old(self),
        ret is Ok ==> hist(final(keys_vec).0@) && tcounted(old(keys_vec).0@, final(keys_vec).0@, tree_at(old(self).n(), node_.off()), nkeys()), // C15
    decreases tree_at(old(self).n(), node_.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node_.off());
    let ghost v0 = keys_vec.0@;
    let ghost e = t.keys.len() as int;
    proof { walk_at(n, *node_); nleft_le(t, 0); nleft_le(t, t.kids.len() as int); if !t.leaf() { sound_kid(n, t, e); nleft_le(t, e); } }
//@ after touch_size 0
    let ghost w0 = keys_vec.0@;
    proof { tseen_one(v0, w0, t, nkeys()); tseen_le(v0, w0, t, if t.leaf() { e + 1 } else { t.kids.len() as int }, nkeys()); }
//@ before loop 0
    proof { tseen_kid(v0, w0, keys_vec.0@, t, e, nkeys()); }
//@ loop 0
    invariant
        *self == *old(self), n == self.n(), walk(n, *node_), t == tree_at(n, node_.off()), *node == node_.0, 0 <= i <= t.keys.len(),
        t.rep(n), t.off == node_.off(), t.keys.len() <= MAXK, node.nv().downs.len() == t.keys.len() + 1,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        hist(keys_vec.0@), room(v0, ntot(t)), tseen(v0, keys_vec.0@, t, i as int, nkeys()),
    decreases i,
//@ loopstart 0
    let ghost w1 = keys_vec.0@;
    proof {
        tseen_le(v0, w1, t, i as int, nkeys());
        if !t.leaf() { sound_kid(n, t, i - 1); nleft_le(t, i - 1); nleft_le(t, i as int); }
    }
//@ loopend 0
    proof { tseen_kid(v0, w1, keys_vec.0@, t, i as int, nkeys()); }
//@ tail
    proof { tseen_all(v0, keys_vec.0@, t, nkeys()); }
//@ end
}

//@ nogenerics on
//@ dropgen RecordSizeStats LengthStats length_stats piece_size_stats
//@ const NODE_SIZE_ARY
//@ file src/filedb/inner/key.rs
//@ const REC_SIZE_ARY as KEY_SIZE_ARY
//@ file src/filedb/inner/val.rs
//@ const REC_SIZE_ARY as VAL_SIZE_ARY
//@ path super::key::REC_SIZE_ARY KEY_SIZE_ARY
//@ path super::val::REC_SIZE_ARY VAL_SIZE_ARY
//@ arrays NODE_SIZE_ARY KEY_SIZE_ARY VAL_SIZE_ARY
pub type CountOfPerSize = Vec<(u32, u64)>;
impl PartialEqSpecImpl for KT {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &KT) -> bool { kt_v(self) == kt_v(o) }
}
impl PartialEq for KT {
    #[verifier::external_body]
    fn eq(&self, o: &KT) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for KT {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &KT) -> Option<Ordering> {
        Some(if klt(kt_v(self), kt_v(o)) { Ordering::Less } else if kt_v(self) == kt_v(o) { Ordering::Equal } else { Ordering::Greater })
    }
}
impl std::cmp::PartialOrd for KT {
    // derived in the source: the order of the bytes, which is that of cmp_u8 (unit kt)
    #[verifier::external_body]
    fn partial_cmp(&self, o: &KT) -> Option<Ordering> { unimplemented!() }
}
impl Default for KT {
    #[verifier::external_body]
    fn default() -> KT { unimplemented!() }
}
/// the keys of t are stored, and all of them are below (above) b
pub open spec fn below(t: Tree, k: KMap, b: KeyV) -> bool { forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> k.dom().contains(x) && klt(k[x].key, b) }
pub open spec fn above(t: Tree, k: KMap, b: KeyV) -> bool { forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> k.dom().contains(x) && klt(b, k[x].key) }
/// the bins of the sizes a, empty
pub open spec fn bins0(a: Seq<u32>, n: int) -> Bins { Seq::new(n as nat, |j: int| (a[j], 0u64)) }
/// a histogram of what g measures of s
pub open spec fn hist_of<K: Ky>(h: Hist<K>, s: Seq<KeyPieceOffset>, g: G) -> bool { hist(h) && forall|y: int| #[trigger] cval(h, y) == cnt(s, g, y) }
pub open spec fn nhist_of<K: Ky>(h: Hist<K>, t: Tree, g: TG) -> bool { hist(h) && forall|y: int| #[trigger] cval(h, y) == ncnt(t, g, y) }
/// per size of a (the last one: that and every other size), how many of s (of the nodes of t) have it
pub open spec fn bins_of(h: Bins, a: Seq<u32>, s: Seq<KeyPieceOffset>, g: GS) -> bool { bcounted(bins0(a, a.len() as int), h, s, g) }
pub open spec fn nbins_of(h: Bins, a: Seq<u32>, t: Tree, img: int) -> bool { tbcounted(bins0(a, a.len() as int), h, t, img) }
impl FileDbXxxInner {
    pub open spec fn ok(&self) -> bool { dbok(self.n(), self.top(), self.k(), self.v(), self.h()) }
//@ file src/filedb/inner/dbxxx.rs
//@ fn FileDbXxxInner::load_key_data
    requires self.k().dom().contains(piece_offset), piece_offset.val != 0,
    ensures ret is Ok ==> kt_v(&ret->Ok_0) == self.k()[piece_offset].key,
//@ end
//@ fn FileDbXxxInner::load_key_piece_size
    requires self.k().dom().contains(piece_offset), piece_offset.val != 0,
    ensures ret is Ok ==> ret->Ok_0.val == (self.kpsz())(piece_offset), // C15
//@ end
//@ fn FileDbXxxInner::load_key_length
    requires self.k().dom().contains(piece_offset), piece_offset.val != 0,
    ensures ret is Ok ==> ret->Ok_0.val == (self.klen())(piece_offset), // C15
//@ end
//@ fn FileDbXxxInner::load_value_piece_size
    requires self.k().dom().contains(piece_offset), piece_offset.val != 0, vals_ok(self.k(), self.v()),
    ensures ret is Ok ==> ret->Ok_0.val == (self.vpsz())(piece_offset), // C15
//@ end
//@ fn FileDbXxxInner::load_value_length
    requires self.k().dom().contains(piece_offset), piece_offset.val != 0, vals_ok(self.k(), self.v()),
    ensures ret is Ok ==> ret->Ok_0.val == (self.vlen())(piece_offset), // C15
//@ end
    pub open spec fn kpsz(&self) -> GS { |x: KeyPieceOffset| self.key_file.sz@[x] }
    pub open spec fn vpsz(&self) -> GS { |x: KeyPieceOffset| self.val_file.sz@[self.k()[x].voff] }
    pub open spec fn klen(&self) -> G { |x: KeyPieceOffset| self.k()[x].key.len() as int }
    pub open spec fn vlen(&self) -> G { |x: KeyPieceOffset| self.v()[self.k()[x].voff].len() as int }
}
//@ file src/filedb/inner/idx.rs
impl IdxFile {
//@ fn IdxFile::read_top_node_for_check
    requires self.n().dom().contains(self.top()),
    ensures ret is Ok ==> ret->Ok_0.nv() == self.n()[self.top()] && ret->Ok_0.off() == self.top() && ret->Ok_0.0.size.val == nsz(self.0.0.img@, self.top()),
//@ after flush_node_cache 0
    proof { assert(locked == self.0); }
//@ end
//@ fn IdxFile::is_balanced
    requires walk(self.n(), *node), tree_at(self.n(), node.off()).ht() < 64,
    ensures ret is Ok ==> ret->Ok_0, // C15
    decreases tree_at(self.n(), node.off()).ht(), 1nat,
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node.off());
    proof { walk_at(n, *node); if !t.leaf() { sound_kid(n, t, 0); } }
//@ loop 0
    invariant
        n == self.n(), walk(n, *node), t == tree_at(n, node.off()), t.rep(n), t.ht() < 64, node.nv().downs.len() == t.keys.len() + 1,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        h == t.ht(),
//@ loopstart 0
    proof { if !t.leaf() { sound_kid(n, t, i as int); } }
//@ end
//@ fn IdxFile::height
    requires walk(self.n(), *node), tree_at(self.n(), node.off()).ht() < 64,
    ensures ret is Ok ==> ret->Ok_0 == tree_at(self.n(), node.off()).ht() + 1, // C15
    decreases tree_at(self.n(), node.off()).ht(), 0nat,
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node.off());
    proof { walk_at(n, *node); if !t.leaf() { sound_kid(n, t, 0); } }
//@ loop 0
    invariant
        n == self.n(), walk(n, *node), t == tree_at(n, node.off()), t.rep(n), t.ht() < 64, node.nv().downs.len() == t.keys.len() + 1,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        mx == t.ht(),
//@ loopstart 0
    proof { if !t.leaf() { sound_kid(n, t, i as int); } }
//@ end
//@ fn IdxFile::depth_of_node_tree
    requires walk(self.n(), *node), tree_at(self.n(), node.off()).ht() < 64,
    ensures ret is Ok ==> ret->Ok_0 == tree_at(self.n(), node.off()).ht() + 1, // C15
    decreases tree_at(self.n(), node.off()).ht(),
//@ start
    proof { let n = self.n(); let t = tree_at(n, node.off()); walk_at(n, *node); if !t.leaf() { sound_kid(n, t, 0); } }
//@ end
//@ fn IdxFile::is_dense_half
    requires walk(self.n(), *node), tree_at(self.n(), node.off()).keys.len() >= MINK,
    ensures ret is Ok ==> ret->Ok_0, // C15
    decreases tree_at(self.n(), node.off()).ht(),
//@ start
    let ghost m = self.n();
    let ghost t = tree_at(m, node.off());
    proof { walk_at(m, *node); }
//@ loop 0
    invariant
        m == self.n(), walk(m, *node), t == tree_at(m, node.off()), t.rep(m), node.nv().downs.len() == t.keys.len() + 1, n == node.nv().downs.len(),
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
//@ loopstart 0
    proof { if !t.leaf() { sound_kid(m, t, i as int); } }
//@ end
//@ fn IdxFile::is_dense
    requires walk(self.n(), *top_node), tree_at(self.n(), top_node.off()).keys.len() == 0 ==> tree_at(self.n(), top_node.off()).leaf(),
    ensures ret is Ok ==> ret->Ok_0, // C15
//@ start
    let ghost m = self.n();
    let ghost t = tree_at(m, top_node.off());
    proof { walk_at(m, *top_node); }
//@ loop 0
    invariant
        m == self.n(), walk(m, *top_node), t == tree_at(m, top_node.off()), t.rep(m), top_node.nv().downs.len() == t.keys.len() + 1, n == top_node.nv().downs.len(),
        forall|i: int| 0 <= i < top_node.nv().downs.len() ==> ((#[trigger] top_node.nv().downs[i]).val == 0) == t.leaf(),
//@ loopstart 0
    proof { if !t.leaf() { sound_kid(m, t, i as int); } }
//@ end
//@ fn IdxFile::is_small
    requires walk(self.n(), *node), below(tree_at(self.n(), node.off()), dbxxx.k(), kt_v(key)),
    ensures ret is Ok ==> ret->Ok_0, // C15
    decreases tree_at(self.n(), node.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node.off());
    let ghost k = dbxxx.k();
    proof { walk_at(n, *node); if !t.leaf() { sound_kid(n, t, t.keys.len() as int); } }
//@ loop 0
    invariant
        n == self.n(), k == dbxxx.k(), walk(n, *node), t == tree_at(n, node.off()), t.rep(n), node.nv().downs.len() == t.keys.len() + 1, node.nv().keys == t.keys,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]),
        below(t, k, kt_v(key)),
//@ loopstart 0
    proof { if !t.leaf() { sound_kid(n, t, i as int); } assert(t.has(t.keys[i as int])); klt_asyms(); }
//@ end
//@ fn IdxFile::is_large
    requires walk(self.n(), *node), above(tree_at(self.n(), node.off()), dbxxx.k(), kt_v(key)),
    ensures ret is Ok ==> ret->Ok_0, // C15
    decreases tree_at(self.n(), node.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node.off());
    let ghost k = dbxxx.k();
    proof { walk_at(n, *node); if !t.leaf() { sound_kid(n, t, t.keys.len() as int); } }
//@ loop 0
    invariant
        n == self.n(), k == dbxxx.k(), walk(n, *node), t == tree_at(n, node.off()), t.rep(n), node.nv().downs.len() == t.keys.len() + 1, node.nv().keys == t.keys,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]),
        above(t, k, kt_v(key)),
//@ loopstart 0
    proof { if !t.leaf() { sound_kid(n, t, i as int); } assert(t.has(t.keys[i as int])); klt_asyms(); }
//@ end
//@ fn IdxFile::is_between
    requires walk(self.n(), *node), above(tree_at(self.n(), node.off()), dbxxx.k(), kt_v(key1)), below(tree_at(self.n(), node.off()), dbxxx.k(), kt_v(key2)),
    ensures ret is Ok ==> ret->Ok_0, // C15
    decreases tree_at(self.n(), node.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node.off());
    let ghost k = dbxxx.k();
    proof { walk_at(n, *node); if !t.leaf() { sound_kid(n, t, t.keys.len() as int); } }
//@ loop 0
    invariant
        n == self.n(), k == dbxxx.k(), walk(n, *node), t == tree_at(n, node.off()), t.rep(n), node.nv().downs.len() == t.keys.len() + 1, node.nv().keys == t.keys,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]),
        above(t, k, kt_v(key1)), below(t, k, kt_v(key2)),
//@ loopstart 0
    proof { if !t.leaf() { sound_kid(n, t, i as int); } assert(t.has(t.keys[i as int])); klt_asyms(); }
//@ end
//@ fn IdxFile::is_mst_valid
    requires walk(self.n(), *node), tree_at(self.n(), node.off()).ord(dbxxx.k()),
    ensures ret is Ok ==> ret->Ok_0, // C15
    decreases tree_at(self.n(), node.off()).ht(),
//@ start
    let ghost n = self.n();
    let ghost t = tree_at(n, node.off());
    let ghost k = dbxxx.k();
    proof {
        walk_at(n, *node);
        klt_asyms();
        if !t.leaf() { sound_kid(n, t, 0); sound_kid(n, t, t.keys.len() as int); ord_kid(t, k, 0); ord_kid(t, k, t.keys.len() as int); }
    }
//@ loop 0
    invariant
        n == self.n(), k == dbxxx.k(), walk(n, *node), t == tree_at(n, node.off()), t.rep(n), t.ord(k), node.nv().downs.len() == t.keys.len() + 1, node.nv().keys == t.keys,
        forall|i: int| 0 <= i < node.nv().downs.len() ==> ((#[trigger] node.nv().downs[i]).val == 0) == t.leaf(),
        forall|i: int| 0 <= i < t.keys.len() ==> (#[trigger] t.keys[i]).val != 0 && t.has(t.keys[i]),
//@ loopstart 0
    proof { klt_asyms(); if !t.leaf() { sound_kid(n, t, i as int); ord_kid(t, k, i as int); } }
//@ end
//@ fn IdxFile::keys_count_stats
    requires self.ok(),
    ensures ret is Ok ==> nhist_of(ret->Ok_0.0@, self.tree(), nkeys()), // C15
//@ start
    proof { self.at_top(); }
//@ tail
    proof { assert(locked == self.0); }
//@ end
//@ fn IdxFile::piece_size_stats
//@ sig pub fn piece_size_stats<F: Fn(KeyPieceOffset) -> Result<Size> + Copy>(&self, read_piece_size_func: F) -> (ret: Result<RecordSizeStats>)
    requires self.ok(), reads(read_piece_size_func, self.tree()),
    ensures ret is Ok ==> forall|g: G| tells(read_piece_size_func, g, self.tree()) ==> #[trigger] hist_of(ret->Ok_0.0@, inord(self.tree()), g), // C15
//@ start
    proof { self.at_top(); }
//@ tail
    proof { assert(locked == self.0); }
//@ end
//@ fn IdxFile::length_stats
//@ sig pub fn length_stats<F: Fn(KeyPieceOffset) -> Result<Length> + Copy>(&self, read_key_length_func: F) -> (ret: Result<LengthStats>)
    requires self.ok(), reads(read_key_length_func, self.tree()),
    ensures ret is Ok ==> forall|g: G| tells(read_key_length_func, g, self.tree()) ==> #[trigger] hist_of(ret->Ok_0.0@, inord(self.tree()), g), // C15
//@ start
    proof { self.at_top(); }
//@ tail
    proof { assert(locked == self.0); }
//@ end
//@ fn IdxFile::count_of_used_node
//@ sig pub fn count_of_used_node<F: Fn(KeyPieceOffset) -> Result<(KeyPieceSize, ValuePieceSize)> + Copy>(&self, read_key_value_piece_size_func: F) -> (ret: Result<(CountOfPerSize, CountOfPerSize, CountOfPerSize)>)
    requires self.ok(), reads(read_key_value_piece_size_func, self.tree()),
    ensures
        ret is Ok ==> nbins_of(ret->Ok_0.2@, NODE_SIZE_ARY@, self.tree(), self.0.0.img@), // C15
        ret is Ok ==> forall|p: GS, q: GS| tells2(read_key_value_piece_size_func, (p, q), self.tree()) ==>
            #[trigger] bins_of(ret->Ok_0.0@, KEY_SIZE_ARY@, inord(self.tree()), p) && #[trigger] bins_of(ret->Ok_0.1@, VAL_SIZE_ARY@, inord(self.tree()), q), // C15
//@ start
    proof { self.at_top(); }
//@ loop 0
    invariant node_vec@ =~= bins0(NODE_SIZE_ARY@, i_ as int),
//@ loop 1
    invariant key_piece_vec@ =~= bins0(KEY_SIZE_ARY@, i_ as int),
//@ loop 2
    invariant value_piece_vec@ =~= bins0(VAL_SIZE_ARY@, i_ as int),
//@ tail
    proof { assert(locked == self.0); }
//@ end
    pub proof fn at_top(&self)
        requires self.ok(),
        ensures self.n().dom().contains(self.top()), self.tree().rep(self.n()), self.n()[self.top()] == self.tree().nv(), self.tree().off == self.top(),
    { let u = choose|u: Tree| u.off == self.top() && #[trigger] u.rep(self.n()); }
}
impl FileDbXxxInner {
    pub open spec fn kpg(&self) -> G { |x: KeyPieceOffset| (self.kpsz())(x) as int }
    pub open spec fn vpg(&self) -> G { |x: KeyPieceOffset| (self.vpsz())(x) as int }
    pub open spec fn tree(&self) -> Tree { tree_at(self.n(), self.top()) }
    /// the records of the key file, each of them once
    pub open spec fn all(&self) -> Seq<KeyPieceOffset> { inord(self.tree()) }
    pub proof fn facts(&self)
        requires self.ok(),
        ensures
            self.idx_file.ok(), self.tree() == self.idx_file.tree(), self.tree().ord(self.k()), vals_ok(self.k(), self.v()),
            stored(self.k(), self.all()), self.tree().ht() < 64, self.n().dom().contains(self.top()), self.n()[self.top()] == self.tree().nv(), self.tree().off == self.top(),
            self.tree().keys.len() == 0 ==> self.tree().leaf(),
            forall|x: KeyPieceOffset| #[trigger] self.tree().has(x) ==> self.k().dom().contains(x) && x.val != 0,
    { all_stored(self.n(), self.top(), self.k()); self.idx_file.at_top(); }
//@ file src/filedb/inner/dbxxx.rs
//@ fn CheckFileDbMap for FileDbXxxInner::is_balanced as is_balanced
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0, // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::is_mst_valid as is_mst_valid
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0, // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::is_dense as is_dense
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0, // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::depth_of_node_tree as depth_of_node_tree
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0 == self.tree().ht() + 1, // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::count_of_free_key_piece as count_of_free_key_piece
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0 == kfree(&self.key_file), // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::count_of_free_value_piece as count_of_free_value_piece
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0 == vfree(&self.val_file), // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::ht_size_and_count as ht_size_and_count
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0 == hcount(&self.htx_file), // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::htx_filling_rate_per_mill as htx_filling_rate_per_mill
    requires self.ok(),
    ensures ret is Ok ==> ret->Ok_0 == hfill(&self.htx_file), // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::count_of_used_node as count_of_used_node
    requires self.ok(),
    ensures ret is Ok ==> bins_of(ret->Ok_0.0@, KEY_SIZE_ARY@, self.all(), self.kpsz()) && bins_of(ret->Ok_0.1@, VAL_SIZE_ARY@, self.all(), self.vpsz()) && nbins_of(ret->Ok_0.2@, NODE_SIZE_ARY@, self.tree(), self.idx_file.0.0.img@) && stored(self.k(), self.all()), // C15
//@ closure 0 |c_0: KeyPieceOffset| -> (r: Result<(KeyPieceSize, ValuePieceSize)>)
    requires self.k().dom().contains(c_0), c_0.val != 0, vals_ok(self.k(), self.v()),
    ensures r is Ok ==> r->Ok_0.0.val == (self.kpsz())(c_0) && r->Ok_0.1.val == (self.vpsz())(c_0),
//@ start
    proof { self.facts(); }
//@ after count_of_used_node 0
    proof {
        if tail_ is Ok {
            let (a, b) = (bins_of(tail_->Ok_0.0@, KEY_SIZE_ARY@, self.all(), self.kpsz()), bins_of(tail_->Ok_0.1@, VAL_SIZE_ARY@, self.all(), self.vpsz()));
            assert(a && b);
        }
    }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::key_piece_size_stats as key_piece_size_stats
    requires self.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.all(), self.kpg()) && stored(self.k(), self.all()), // C15
//@ closure 0 |c_0: KeyPieceOffset| -> (r: Result<Size>)
    requires self.k().dom().contains(c_0), c_0.val != 0,
    ensures r is Ok ==> r->Ok_0.val == (self.kpsz())(c_0),
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::value_piece_size_stats as value_piece_size_stats
    requires self.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.all(), self.vpg()) && stored(self.k(), self.all()), // C15
//@ closure 0 |c_0: KeyPieceOffset| -> (r: Result<Size>)
    requires self.k().dom().contains(c_0), c_0.val != 0, vals_ok(self.k(), self.v()),
    ensures r is Ok ==> r->Ok_0.val == (self.vpsz())(c_0),
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::keys_count_stats as keys_count_stats
    requires self.ok(),
    ensures ret is Ok ==> nhist_of(ret->Ok_0.0@, self.tree(), nkeys()), // C15
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::key_length_stats as key_length_stats
    requires self.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.all(), self.klen()) && stored(self.k(), self.all()), // C15
//@ closure 0 |c_0: KeyPieceOffset| -> (r: Result<Length>)
    requires self.k().dom().contains(c_0), c_0.val != 0,
    ensures r is Ok ==> r->Ok_0.val == (self.klen())(c_0),
//@ start
    proof { self.facts(); }
//@ end
//@ fn CheckFileDbMap for FileDbXxxInner::value_length_stats as value_length_stats
    requires self.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.all(), self.vlen()) && stored(self.k(), self.all()), // C15
//@ closure 0 |c_0: KeyPieceOffset| -> (r: Result<Length>)
    requires self.k().dom().contains(c_0), c_0.val != 0, vals_ok(self.k(), self.v()),
    ensures r is Ok ==> r->Ok_0.val == (self.vlen())(c_0),
//@ start
    proof { self.facts(); }
//@ end
}
pub struct FileDbMap(pub FileDbXxxInner);
impl FileDbMap {
//@ file src/filedb/dbmap/mod.rs
//@ fn CheckFileDbMap for FileDbMap::is_balanced as is_balanced
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0, // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::is_mst_valid as is_mst_valid
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0, // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::is_dense as is_dense
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0, // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::depth_of_node_tree as depth_of_node_tree
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0 == self.0.tree().ht() + 1, // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::count_of_free_key_piece as count_of_free_key_piece
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0 == kfree(&self.0.key_file), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::count_of_free_value_piece as count_of_free_value_piece
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0 == vfree(&self.0.val_file), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::ht_size_and_count as ht_size_and_count
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0 == hcount(&self.0.htx_file), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::htx_filling_rate_per_mill as htx_filling_rate_per_mill
    requires self.0.ok(),
    ensures ret is Ok ==> ret->Ok_0 == hfill(&self.0.htx_file), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::count_of_used_node as count_of_used_node
    requires self.0.ok(),
    ensures ret is Ok ==> bins_of(ret->Ok_0.0@, KEY_SIZE_ARY@, self.0.all(), self.0.kpsz()) && bins_of(ret->Ok_0.1@, VAL_SIZE_ARY@, self.0.all(), self.0.vpsz()) && nbins_of(ret->Ok_0.2@, NODE_SIZE_ARY@, self.0.tree(), self.0.idx_file.0.0.img@) && stored(self.0.k(), self.0.all()), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::key_piece_size_stats as key_piece_size_stats
    requires self.0.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.0.all(), self.0.kpg()) && stored(self.0.k(), self.0.all()), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::value_piece_size_stats as value_piece_size_stats
    requires self.0.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.0.all(), self.0.vpg()) && stored(self.0.k(), self.0.all()), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::keys_count_stats as keys_count_stats
    requires self.0.ok(),
    ensures ret is Ok ==> nhist_of(ret->Ok_0.0@, self.0.tree(), nkeys()), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::key_length_stats as key_length_stats
    requires self.0.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.0.all(), self.0.klen()) && stored(self.0.k(), self.0.all()), // C15
//@ end
//@ fn CheckFileDbMap for FileDbMap::value_length_stats as value_length_stats
    requires self.0.ok(),
    ensures ret is Ok ==> hist_of(ret->Ok_0.0@, self.0.all(), self.0.vlen()) && stored(self.0.k(), self.0.all()), // C15
//@ end
}
pub proof fn klt_asyms()
    ensures forall|a: KeyV, b: KeyV| #[trigger] klt(a, b) ==> !klt(b, a) && a != b,
{ assert forall|a: KeyV, b: KeyV| #[trigger] klt(a, b) implies !klt(b, a) && a != b by { klt_asym(a, b); } }
pub proof fn ord_kid(t: Tree, k: KMap, i: int)
    requires t.ord(k), 0 <= i < t.kids.len(), t.kids.len() == t.keys.len() + 1,
    ensures t.kids[i].ord(k), i > 0 ==> above(t.kids[i], k, k[t.keys[i - 1]].key), i < t.keys.len() ==> below(t.kids[i], k, k[t.keys[i]].key),
{
    let c = t.kids[i];
    assert(t.kids[i].ord(k));
    assert forall|x: KeyPieceOffset| #[trigger] c.has(x) implies k.dom().contains(x) && (i > 0 ==> klt(k[t.keys[i - 1]].key, k[x].key)) && (i < t.keys.len() ==> klt(k[x].key, k[t.keys[i]].key)) by {
        has_dom(k, c, x);
        assert(t.kids[i].has(x));
        if i > 0 { let j = i - 1; assert(t.kids[i].has(x) && klt(k[t.keys[j]].key, k[x].key)); }
        if i < t.keys.len() { assert(t.kids[i].has(x) && klt(k[x].key, k[t.keys[i]].key)); }
    }
}
}
fn main() {}
