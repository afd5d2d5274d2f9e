// ---------------------------------------------------------------- nodes on disk (tr.rs)
pub open spec fn okv(v: NodeV) -> bool {
    v.keys.len() <= 63 && v.downs.len() == v.keys.len() + 1
        && (forall|i: int| 0 <= i < v.keys.len() ==> (#[trigger] v.keys[i]).val != 0)
        && (forall|i: int| 0 <= i < v.downs.len() ==> (#[trigger] v.downs[i]).val & 0x0f == 0)
}
/// the bytes that a node needs
pub open spec fn nbytes(v: NodeV) -> int { 6 + 8 * v.keys.len() as int + if leaf_d(v.downs) { 0int } else { 8 * (v.keys.len() as int + 1) } }
/// the node of content v, in a piece of sz bytes, is at off
pub open spec fn node_at(img: Seq<u8>, off: int, sz: int, v: NodeV) -> bool {
    let k = v.keys.len() as int;
    &&& 0 <= off && off + sz <= img.len()
    &&& okv(v) && nbytes(v) <= sz <= u16::MAX
    &&& u16_at(img, off) == sz
    &&& u16_at(img, off + 2) == (if leaf_d(v.downs) { 1u16 } else { 0u16 })
    &&& u16_at(img, off + 4) == k
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] v.keys[i]).val == u64_at(img, off + 6 + 8 * i)
    &&& !leaf_d(v.downs) ==> forall|i: int| 0 <= i <= k ==> (#[trigger] v.downs[i]).val == u64_at(img, off + 6 + 8 * k + 8 * i)
}
/// a piece holds one node only
pub proof fn node_at_fun(img: Seq<u8>, off: int, sz1: int, v1: NodeV, sz2: int, v2: NodeV)
    requires node_at(img, off, sz1, v1), node_at(img, off, sz2, v2),
    ensures sz1 == sz2, v1 == v2,
{
    assert(v1.keys =~= v2.keys);
    assert(v1.downs =~= v2.downs);
}
pub proof fn node_at_frame(a: Seq<u8>, b: Seq<u8>, off: int, sz: int, v: NodeV)
    requires node_at(a, off, sz, v), off + sz <= b.len(), eq_on(a, b, off, sz),
    ensures node_at(b, off, sz, v),
{
    let k = v.keys.len() as int;
    assert(at(a, off, 2) =~= at(b, off, 2));
    assert(at(a, off + 2, 2) =~= at(b, off + 2, 2));
    assert(at(a, off + 4, 2) =~= at(b, off + 4, 2));
    assert forall|i: int| 0 <= i < k implies (#[trigger] v.keys[i]).val == u64_at(b, off + 6 + 8 * i) by {
        assert(at(a, off + 6 + 8 * i, 8) =~= at(b, off + 6 + 8 * i, 8));
    }
    if !leaf_d(v.downs) {
        assert forall|i: int| 0 <= i <= k implies (#[trigger] v.downs[i]).val == u64_at(b, off + 6 + 8 * k + 8 * i) by {
            assert(at(a, off + 6 + 8 * k + 8 * i, 8) =~= at(b, off + 6 + 8 * k + 8 * i, 8));
        }
    }
}
/// the bytes of a node
pub open spec fn node_enc(sz: u16, v: NodeV) -> Seq<u8> {
    enc(2, sz as nat) + enc(2, if leaf_d(v.downs) { 1 } else { 0 }) + enc(2, v.keys.len()) + encs(offs(v.keys))
        + (if leaf_d(v.downs) { Seq::empty() } else { encs(offs(v.downs)) }) + zeros(sz - nbytes(v))
}
pub proof fn node_enc_len(sz: u16, v: NodeV)
    requires okv(v), nbytes(v) <= sz,
    ensures node_enc(sz, v).len() == sz,
{ enc_len(2, sz as nat); enc_len(2, 1); enc_len(2, 0); enc_len(2, v.keys.len()); }
pub proof fn node_enc_at(img: Seq<u8>, off: int, sz: u16, v: NodeV)
    requires 0 <= off, off + sz <= img.len(), okv(v), nbytes(v) <= sz, at(img, off, sz as int) =~= node_enc(sz, v),
    ensures node_at(img, off, sz as int, v),
{
    let k = v.keys.len() as int;
    let e = node_enc(sz, v);
    p256_vals();
    le_enc(2, sz as nat);
    le_enc(2, 1);
    le_enc(2, 0);
    le_enc(2, v.keys.len());
    let l: nat = if leaf_d(v.downs) { 1 } else { 0 };
    node_enc_len(sz, v);
    let w = at(img, off, sz as int);
    assert(at(w, 0, 2) =~= enc(2, sz as nat));
    assert(at(w, 2, 2) =~= enc(2, l));
    assert(at(w, 4, 2) =~= enc(2, v.keys.len()));
    assert(at(img, off, 2) =~= at(w, 0, 2));
    assert(at(img, off + 2, 2) =~= at(w, 2, 2));
    assert(at(img, off + 4, 2) =~= at(w, 4, 2));
    assert forall|i: int| 0 <= i < k implies (#[trigger] v.keys[i]).val == u64_at(img, off + 6 + 8 * i) by {
        encs_at(offs(v.keys), i);
        assert(at(w, 6 + 8 * i, 8) =~= at(encs(offs(v.keys)), 8 * i, 8));
        assert(at(img, off + 6 + 8 * i, 8) =~= at(w, 6 + 8 * i, 8));
    }
    if !leaf_d(v.downs) {
        assert forall|i: int| 0 <= i <= k implies (#[trigger] v.downs[i]).val == u64_at(img, off + 6 + 8 * k + 8 * i) by {
            encs_at(offs(v.downs), i);
            assert(at(w, 6 + 8 * k + 8 * i, 8) =~= at(encs(offs(v.downs)), 8 * i, 8));
            assert(at(img, off + 6 + 8 * k + 8 * i, 8) =~= at(w, 6 + 8 * k + 8 * i, 8));
        }
    }
}
pub proof fn put_only(s: Seq<u8>, p: int, b: Seq<u8>)
    requires 0 <= p, p + b.len() <= s.len(),
    ensures only(s, put_at(s, p, b), p, b.len() as int), at(put_at(s, p, b), p, b.len() as int) == b, put_at(s, p, b).len() == s.len(),
{ assert(at(put_at(s, p, b), p, b.len() as int) =~= b); }
pub proof fn put_node(img: Seq<u8>, off: int, sz: u16, v: NodeV)
    requires 0 <= off, off + sz <= img.len(), okv(v), nbytes(v) <= sz,
    ensures node_at(put_at(img, off, node_enc(sz, v)), off, sz as int, v), only(img, put_at(img, off, node_enc(sz, v)), off, sz as int),
{
    hide(put_at); hide(node_enc); hide(node_at); hide(okv); hide(only); hide(nbytes); hide(at);
    node_enc_len(sz, v);
    put_only(img, off, node_enc(sz, v));
    node_enc_at(put_at(img, off, node_enc(sz, v)), off, sz, v);
}
/// the bytes of a node up to its padding
pub open spec fn node_body(sz: u16, v: NodeV) -> Seq<u8> {
    enc(2, sz as nat) + enc(2, if leaf_d(v.downs) { 1 } else { 0 }) + enc(2, v.keys.len()) + encs(offs(v.keys))
        + (if leaf_d(v.downs) { Seq::empty() } else { encs(offs(v.downs)) })
}
pub proof fn node_body_is(sz: u16, v: NodeV)
    requires okv(v), nbytes(v) <= sz,
    ensures ({
        let e3 = enc(2, sz as nat) + enc(2, if leaf_d(v.downs) { 1 } else { 0 }) + enc(2, v.keys.len());
        &&& e3.len() == 6
        &&& node_body(sz, v).len() == nbytes(v)
        &&& node_body(sz, v) + zeros(sz - nbytes(v)) == node_enc(sz, v)
        &&& leaf_d(v.downs) ==> e3 + encs(offs(v.keys)) == node_body(sz, v)
        &&& !leaf_d(v.downs) ==> e3 + (encs(offs(v.keys)) + encs(offs(v.downs))) == node_body(sz, v)
        &&& v.keys.len() == 0 && leaf_d(v.downs) ==> e3 == node_body(sz, v)
        &&& v.keys.len() == 0 && !leaf_d(v.downs) ==> e3 + encs(offs(v.downs)) == node_body(sz, v)
    }),
{
    enc_len(2, sz as nat); enc_len(2, 1); enc_len(2, 0); enc_len(2, v.keys.len());
    let e3 = enc(2, sz as nat) + enc(2, if leaf_d(v.downs) { 1 } else { 0 }) + enc(2, v.keys.len());
    assert(node_body(sz, v) + zeros(sz - nbytes(v)) =~= node_enc(sz, v));
    assert(leaf_d(v.downs) ==> e3 + encs(offs(v.keys)) =~= node_body(sz, v));
    assert(!leaf_d(v.downs) ==> e3 + (encs(offs(v.keys)) + encs(offs(v.downs))) =~= node_body(sz, v));
    assert(v.keys.len() == 0 && leaf_d(v.downs) ==> e3 =~= node_body(sz, v));
    assert(v.keys.len() == 0 && !leaf_d(v.downs) ==> e3 + encs(offs(v.downs)) =~= node_body(sz, v));
}
/// nothing but the piece [off, off+sz) differs
pub open spec fn only(a: Seq<u8>, b: Seq<u8>, off: int, sz: int) -> bool {
    a.len() == b.len() && eq_on(a, b, 0, off) && eq_on(a, b, off + sz, a.len() - off - sz)
}
/// a node that can be written to its piece
pub open spec fn fits(img: Seq<u8>, n: TreeNode) -> bool {
    &&& n.offset.val != 0 && n.offset.val + n.size.val <= img.len() && n.size.val <= u16::MAX
    &&& okv(n.nv()) && nbytes(n.nv()) <= n.size.val
}
/// u8::from of a bool
pub broadcast axiom fn u8_from_bool(b: bool)
    ensures <u8 as FromSpec<bool>>::obeys_from_spec(), #[trigger] <u8 as FromSpec<bool>>::from_spec(b) == (if b { 1u8 } else { 0u8 });
impl TreeNode {
//@ file src/filedb/inner/tr.rs
//@ fn TreeNode::encoded_node_size
    requires self.keys@.len() <= 63,
    ensures ret == nbytes(self.nv()) - 2,
//@ end
//@ fn TreeNode::idx_write_node_one
    requires fits(old(file).img(), *old(self)),
    ensures
        final(file).piece_mgr == old(file).piece_mgr,
        !old(self).is_dirty ==> ret is Ok && *final(self) == *old(self) && *final(file) == *old(file),
        ret is Ok ==> final(self).nv() == old(self).nv() && final(self).same(*old(self)) && !final(self).is_dirty,
        ret is Ok && old(self).is_dirty ==> node_at(final(file).img(), old(self).offset.val as int, old(self).size.val as int, old(self).nv()) // C01 C05 C08 C16
            && only(old(file).img(), final(file).img(), old(self).offset.val as int, old(self).size.val as int), // C06
//@ start
    hide(put_at); hide(encs); hide(node_at); hide(enc); hide(le); hide(node_body); hide(node_enc); hide(okv);
    broadcast use bf_len;
    proof { u8_from_bool(true); u8_from_bool(false); assert(okv(self.nv()) ==> self.downs@.len() == self.keys@.len() + 1 && self.keys@.len() <= 63) by { reveal(okv); } }
    let ghost img0 = file.img();
    let ghost off = self.offset.val as int;
    let ghost sz = self.size.val as u16;
    let ghost v = self.nv();
    let ghost l: nat = if leaf_d(self.downs@) { 1 } else { 0 };
    proof { enc_len(2, sz as nat); enc_len(2, l); enc_len(2, v.keys.len()); node_body_is(sz, v); node_enc_len(sz, v); assert(zeros(sz - nbytes(v)).len() == sz - nbytes(v)); }
    let ghost e1 = enc(2, sz as nat);
    let ghost e2 = e1 + enc(2, l);
    let ghost e3 = e2 + enc(2, v.keys.len());
//@ after write_node_size 0
    proof { put2(img0, off, e1, enc(2, l)); }
//@ after write_u16_le 0
    proof { put2(img0, off, e2, enc(2, v.keys.len())); }
    assert(file.img() == put_at(img0, off, e2));
//@ after write_keys_count 0
    proof { put2(img0, off, e3, Seq::empty()); put2(img0, off, e3, encs(offs(v.keys))); put2(img0, off, e3, encs(offs(v.downs))); put2(img0, off, e3, encs(offs(v.keys)) + encs(offs(v.downs))); }
    assert(file.img() == put_at(img0, off, e3));
//@ after if 1
    assert(file.img() == put_at(img0, off, node_body(sz, v)));
    assert(file.pos() == off + nbytes(v));
    proof { put2(img0, off, node_body(sz, v), zeros(sz - nbytes(v))); put_node(img0, off, sz, v); }
//@ after write_zero_to_offset 0
    assert(file.img() == put_at(img0, off, node_enc(sz, v)));
//@ end
}
impl IdxNode {
//@ mutself idx_write_node_one
//@ fn IdxNode::idx_write_node_one
    requires fits(old(file).img(), old(self).0),
    ensures
        final(file).piece_mgr == old(file).piece_mgr,
        !old(self).0.is_dirty ==> ret is Ok && *final(self) == *old(self) && *final(file) == *old(file),
        ret is Ok ==> final(self).0.nv() == old(self).0.nv() && final(self).0.same(old(self).0) && !final(self).0.is_dirty,
        ret is Ok && old(self).0.is_dirty ==> node_at(final(file).img(), old(self).0.offset.val as int, old(self).0.size.val as int, old(self).0.nv()) // C01 C05 C08 C16
            && only(old(file).img(), final(file).img(), old(self).0.offset.val as int, old(self).0.size.val as int), // C06
//@ end
//@ fn IdxNode::idx_read_node_one
    requires offset.val != 0, offset.val & 0x0f == 0, exists|sz: int, v: NodeV| node_at(old(file).img(), offset.val as int, sz, v),
    ensures
        final(file).same(*old(file)),
        ret is Ok ==> ({
            let n = ret->Ok_0.0.0;
            &&& node_at(old(file).img(), offset.val as int, ret->Ok_0.1.val as int, n.nv()) // C01 C05 C16
            &&& n.offset == offset && n.size == ret->Ok_0.1 && !n.is_active && !n.is_dirty
        }),
//@ start
    broadcast use bf_len;
    let ghost img = file.img();
    let ghost off = offset.val as int;
    let ghost (sz, v) = choose|sz: int, v: NodeV| node_at(img, off, sz, v);
//@ loop 0
    invariant
        file.same(*old(file)), img == file.img(), off == offset.val, node_at(img, off, sz, v), keys@.len() == v.keys.len(), keys_count == v.keys.len(),
        file.pos() == off + 6 + 8 * _i, keys_ptr == 0,
        forall|j: int| 0 <= j < _i ==> #[trigger] keys@[j] == v.keys[j],
//@ loopstart 0
    proof { assert(v.keys[_i as int].val == u64_at(img, off + 6 + 8 * _i)); }
//@ loop 1
    invariant
        file.same(*old(file)), img == file.img(), off == offset.val, node_at(img, off, sz, v), keys_count == v.keys.len(), !leaf_d(v.downs),
        downs@.len() == v.keys.len() + 1, file.pos() == off + 6 + 8 * v.keys.len() + 8 * _i, downs_ptr == 0,
        forall|j: int| 0 <= j < _i ==> #[trigger] downs@[j] == v.downs[j],
//@ loopstart 1
    proof { assert(v.downs[_i as int].val == u64_at(img, off + 6 + 8 * v.keys.len() + 8 * _i)); }
//@ after if 0
    assert(keys@ =~= v.keys);
    assert(downs@ =~= v.downs);
//@ end
}
