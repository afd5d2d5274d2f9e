// ---------------------------------------------------------------- vfile.rs
//@ file src/filedb/inner/vfile.rs
impl VarFile {
    pub open spec fn fresh(r: &Result<VarFile>, p: PieceMgr, f: &File) -> bool {
        r is Ok ==> r->Ok_0.img() == file_img(f) && r->Ok_0.disk() == file_img(f) && r->Ok_0.pos() == 0 && r->Ok_0.piece_mgr == p
    }
//@ fn VarFile::new
    ensures Self::fresh(&ret, piece_mgr, &file),
//@ end
//@ fn VarFile::with_capacity
    requires rabuf::pow2(chunk_size),
    ensures Self::fresh(&ret, piece_mgr, &file),
//@ end
//@ fn VarFile::with_per_mille
    requires rabuf::pow2(chunk_size),
    ensures Self::fresh(&ret, piece_mgr, &file),
//@ start
    assert(rabuf::pow2(32768)) by(bit_vector);
//@ end
//@ fn Seek for VarFile::seek as seek
    requires match pos {
        SeekFrom::Start(n) => n <= MAXF,
        SeekFrom::Current(d) => 0 <= old(self).pos() + d <= MAXF,
        SeekFrom::End(d) => d == 0,
    },
    ensures
        final(self).same(*old(self)),
        ret is Ok ==> ret->Ok_0 == final(self).pos() && final(self).pos() == match pos {
            SeekFrom::Start(n) => n as int,
            SeekFrom::Current(d) => old(self).pos() + d,
            SeekFrom::End(d) => old(self).len(),
        },
//@ end
    // provided method of std::io::Seek
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (ret: Result<u64>)
        ensures final(self).rd(*old(self), 0), ret is Ok ==> ret->Ok_0 == old(self).pos(),
    { unimplemented!() }
    // provided method of std::io::Write: writes everything or fails
    #[verifier::external_body]
    pub fn write_all(&mut self, buf: &[u8]) -> (ret: Result<()>)
        requires old(self).pos() <= old(self).len(),
        ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), buf@),
    { unimplemented!() }
    // provided method of std::io::Read
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8; 8]) -> (ret: Result<()>)
        ensures final(self).same(*old(self)), ret is Ok ==> old(self).pos() + 8 <= old(self).len() && final(self).rd(*old(self), 8) && final(buf)@ == at(old(self).img(), old(self).pos(), 8),
    { unimplemented!() }
//@ fn VarFile::prepare
    ensures final(self).rd(*old(self), 0),
//@ end
//@ fn VarFile::seek_from_start
    requires offset.val <= MAXF,
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0 == offset && final(self).pos() == offset.val,
//@ end
//@ fn VarFile::seek_skip_length
    requires old(self).pos() + length.val <= MAXF,
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).pos() == old(self).pos() + length.val && ret->Ok_0.val == final(self).pos(),
//@ end
//@ fn VarFile::seek_to_end
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).pos() == old(self).len() && ret->Ok_0.val == old(self).len(),
//@ end
//@ fn VarFile::seek_position
    ensures final(self).rd(*old(self), 0), ret is Ok ==> ret->Ok_0.val == old(self).pos(),
//@ end
//@ fn VarFile::set_file_length
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> final(self).len() == file_length.val && final(self).pos() == old(self).pos()
            && (forall|i: int| 0 <= i < file_length.val ==> #[trigger] final(self).img()[i] == (if i < old(self).len() { old(self).img()[i] } else { 0u8 })),
//@ end
//@ fn VarFile::read_fill_buffer
    ensures final(self).same(*old(self)),
//@ end
//@ fn VarFile::sync_all
    ensures final(self).img() == old(self).img(), final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).disk() == old(self).img() && bf_synced(&final(self).buf_file),
//@ end
//@ fn VarFile::sync_data
    ensures final(self).img() == old(self).img(), final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).disk() == old(self).img() && bf_synced(&final(self).buf_file),
//@ end
//@ fn Write for VarFile::flush as flush
    ensures final(self).img() == old(self).img(), final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).disk() == old(self).img(),
//@ end
//@ fn SmallRead for VarFile::read_u8 as read_u8
    requires old(self).pos() + 1 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 1) && ret->Ok_0 == old(self).img()[old(self).pos()],
//@ end
//@ fn SmallRead for VarFile::read_u16_le as read_u16_le
    requires old(self).pos() + 2 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 2) && ret->Ok_0 == u16_at(old(self).img(), old(self).pos()),
//@ end
//@ fn SmallRead for VarFile::read_u32_le as read_u32_le
    requires old(self).pos() + 4 <= old(self).len() || old(self).pos() == old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 4) && ret->Ok_0 == u32_atz(old(self).img(), old(self).pos()),
//@ end
//@ fn SmallRead for VarFile::read_u64_le as read_u64_le
    requires old(self).pos() + 8 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 8) && ret->Ok_0 == u64_at(old(self).img(), old(self).pos()),
//@ end
//@ fn SmallRead for VarFile::read_exact_maybeslice as read_exact_maybeslice
    requires old(self).pos() + size <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), size as int) && ms_v(&ret->Ok_0) == at(old(self).img(), old(self).pos(), size as int),
//@ end
//@ fn SmallWrite for VarFile::write_u16_le as write_u16_le
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(2, val as nat)),
//@ end
//@ fn SmallWrite for VarFile::write_u32_le as write_u32_le
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(4, val as nat)),
//@ end
//@ fn SmallWrite for VarFile::write_u64_le as write_u64_le
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(8, val as nat)),
//@ end
//@ fn SmallWrite for VarFile::write_u64_le_slice as write_u64_le_slice
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), encs(val_slice@)),
//@ end
//@ fn SmallWrite for VarFile::write_u64_le_slice2 as write_u64_le_slice2
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), encs(val_slice1@) + encs(val_slice2@)),
//@ end
//@ fn SmallWrite for VarFile::write_all_small as write_all_small
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), buf@),
//@ end
//@ fn SmallWrite for VarFile::write_zero as write_zero
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), zeros(size as int)),
//@ end
//@ fn VarFile::write_zero_to_offset
    requires old(self).pos() <= old(self).len(), offset.val <= old(self).pos() + u32::MAX,
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> final(self).wr(*old(self), zeros(if offset.val > old(self).pos() { offset.val - old(self).pos() } else { 0 })),
//@ start
    broadcast use bf_len;
    assert(put_at(old(self).img(), old(self).pos(), zeros(0)) =~= old(self).img());
//@ end
//@ fn VarFile::write_piece_offset_u64_slice
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), encs(offs(piece_offset_slice@))),
//@ end
//@ fn VarFile::write_piece_offset_and_node_offset_u64_slice
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), encs(offs(piece_offset_slice@)) + encs(offs(node_offset_slice@))),
//@ end
//@ fn VarFile::write_piece_clear
    requires size.val >= 4, offset.val <= MAXF, old(self).len() == offset.val || (offset.val + 4 <= old(self).len() && (u32_at(old(self).img(), offset.val as int) == 0 || u32_at(old(self).img(), offset.val as int) == size.val)),
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> final(self).img() == put_at(old(self).img(), offset.val as int, cleared(4, size.val)) && final(self).pos() == offset.val + size.val,
//@ start
    proof { enc_len(4, size.val as nat); }
    broadcast use bf_len;
//@ after write_zero_to_offset 0
    assert(self.img() =~= put_at(old(self).img(), offset.val as int, cleared(4, size.val)));
//@ end
//@ fn VarFile::write_node_clear
    requires 4 <= size.val <= u16::MAX, offset.val <= MAXF, old(self).len() == offset.val || (offset.val + 4 <= old(self).len() && (u32_at(old(self).img(), offset.val as int) == 0 || u32_at(old(self).img(), offset.val as int) == size.val)),
    ensures final(self).piece_mgr == old(self).piece_mgr,
        ret is Ok ==> final(self).img() == put_at(old(self).img(), offset.val as int, cleared(2, size.val)) && final(self).pos() == offset.val + size.val,
//@ start
    proof { enc_len(2, size.val as nat); }
    broadcast use bf_len;
//@ after write_zero_to_offset 0
    assert(self.img() =~= put_at(old(self).img(), offset.val as int, cleared(2, size.val)));
//@ end
//@ fn VarFile::read_piece_offset_u64
    requires old(self).pos() + 8 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 8) && ret->Ok_0.val == u64_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::read_node_offset_u64
    requires old(self).pos() + 8 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 8) && ret->Ok_0.val == u64_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::read_value_piece_offset
    requires old(self).pos() + 8 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 8) && ret->Ok_0.val == u64_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::write_value_piece_offset
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(8, piece_offset.val as nat)),
//@ end
//@ fn VarFile::read_free_piece_offset
    requires old(self).pos() + 8 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 8) && ret->Ok_0.val == u64_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::write_free_piece_offset
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(8, offset.val as nat)),
//@ end
//@ fn VarFile::read_piece_size
    requires old(self).pos() + 4 <= old(self).len() || old(self).pos() == old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 4) && ret->Ok_0.val == u32_atz(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::write_piece_size
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(4, piece_size.val as nat)),
//@ end
//@ fn VarFile::read_key_len
    requires old(self).pos() + 4 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 4) && ret->Ok_0.val == u32_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::write_key_len
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(4, key_len.val as nat)),
//@ end
//@ fn VarFile::read_value_len
    requires old(self).pos() + 4 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 4) && ret->Ok_0.val == u32_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::write_value_len
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(4, value_len.val as nat)),
//@ end
//@ fn VarFile::read_node_size
    requires old(self).pos() + 2 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 2) && ret->Ok_0.val == u16_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::write_node_size
    requires old(self).pos() <= old(self).len(), node_size.val <= u16::MAX,
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(2, node_size.val as nat)),
//@ end
//@ fn VarFile::read_keys_count
    requires old(self).pos() + 2 <= old(self).len(),
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).rd(*old(self), 2) && ret->Ok_0.val == u16_at(old(self).img(), old(self).pos()),
//@ end
//@ fn VarFile::write_keys_count
    requires old(self).pos() <= old(self).len(),
    ensures final(self).piece_mgr == old(self).piece_mgr, ret is Ok ==> final(self).wr(*old(self), enc(2, keys_len.val as nat)),
//@ end
//@ fn VarFile::seek_skip_to_piece_key
    requires offset.val + 4 <= MAXF,
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).pos() == offset.val + 4,
//@ end
//@ fn VarFile::seek_skip_to_piece_value
    requires offset.val + 4 <= MAXF,
    ensures final(self).same(*old(self)), ret is Ok ==> final(self).pos() == offset.val + 4,
//@ end
}
