//@ include head.rs
verus! {
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ stubs off
//@ include htx_spec.rs
//@ resultmap on
//@ file src/filedb/inner/htx.rs
//@ const HTX_HEADER_SZ
//@ const HTX_HT_SIZE_OFFSET
pub struct VarFileHtxCache(pub VarFile, pub u64);
pub struct HtxFile(pub VarFileHtxCache);
//@ mutself read_key_piece_offset write_key_piece_offset ht_size_and_count htx_filling_rate_per_mill
impl VarFile {
//@ fn VarFile::read_hash_table_size
    requires old(self).len() >= 24,
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0 == u64_at(old(self).img(), 16),
//@ end
//@ fn VarFile::read_key_piece_offset
    requires htx_ok(old(self).img()), idx < tsize(old(self).img()),
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == slot(old(self).img(), idx as int), // C01 C05 C09 C15
//@ start
    broadcast use bf_len;
//@ end
//@ fn VarFile::write_key_piece_offset
    requires htx_ok(old(self).img()), idx < tsize(old(self).img()),
    ensures
        final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> final(self).img() == put_at(old(self).img(), 128 + 8 * idx, enc(8, offset.val as nat)), // C01 C05 C09
//@ start
    broadcast use bf_len;
//@ end
}
impl HtxFile {
    pub open spec fn img(&self) -> Seq<u8> { self.0.0.img() }
    /// the table is whole, and its size is the one at hand
    pub open spec fn ok(&self) -> bool { htx_ok(self.img()) && self.0.1 == tsize(self.img()) }
    /// the slot of a hash
    pub open spec fn at(&self, hash: u64) -> int { hash as int % tsize(self.img()) }
//@ fn HtxFile::read_key_piece_offset
    requires old(self).ok(),
    ensures
        final(self).0.0.same(old(self).0.0), final(self).0.1 == old(self).0.1, final(self).ok(),
        ret is Ok ==> ret->Ok_0.val == slot(old(self).img(), old(self).at(hash)), // C01 C05 C09
//@ end
//@ fn HtxFile::write_key_piece_offset
    requires old(self).ok(),
    ensures
        ret is Ok ==> final(self).ok() && final(self).0.1 == old(self).0.1 && at(final(self).img(), 0, 128) == at(old(self).img(), 0, 128) && final(self).img().len() == old(self).img().len(), // C05 C09 C12
        ret is Ok ==> forall|i: int| 0 <= i < tsize(old(self).img()) ==> #[trigger] slot(final(self).img(), i) == if i == old(self).at(hash) { offset.val } else { slot(old(self).img(), i) }, // C01 C05 C09
//@ start
    proof { slot_put(self.img(), self.at(hash), offset.val); }
//@ end
//@ fn HtxFile::htx_filling_rate_per_mill
//@ attr #[verifier::loop_isolation(false)]
    requires old(self).ok(),
    ensures
        final(self).0.0.same(old(self).0.0), final(self).0.1 == old(self).0.1,
        ret is Ok ==> ret->Ok_0.0 == used(old(self).img(), tsize(old(self).img())) && ret->Ok_0.1 == used(old(self).img(), tsize(old(self).img())) * 1000 / tsize(old(self).img()), // C09 C15
//@ loop 0
    invariant
        htx_ok(locked.0.img()), locked.0.same(old(self).0.0), locked.1 == old(self).0.1, old(self).ok(), ht_size == locked.1, count == used(locked.0.img(), idx as int), count <= idx,
//@ after loop 0
    proof { per_mill(count as int, ht_size as int); used_le(old(self).img(), ht_size as int); }
//@ end
//@ fn HtxFile::ht_size_and_count
    requires old(self).ok(),
    ensures
        final(self).0.0.same(old(self).0.0), final(self).0.1 == old(self).0.1,
        ret is Ok ==> ret->Ok_0.0 == tsize(old(self).img()) && ret->Ok_0.1 == used(old(self).img(), tsize(old(self).img())), // C09 C15
//@ end
}
}
fn main() {}
