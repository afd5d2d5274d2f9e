/// s is the records of the key file, each of them once
pub open spec fn stored(k: KMap, s: Seq<KeyPieceOffset>) -> bool {
    &&& s.no_duplicates()
    &&& forall|x: KeyPieceOffset| #[trigger] s.contains(x) == k.dom().contains(x)
}
pub proof fn all_stored(n: NMap, top: NodePieceOffset, k: KMap)
    requires tree_ok(n, top, k), keys_own(tree_at(n, top), k),
    ensures ({
        let t = tree_at(n, top);
        &&& t.off == top && t.rep(n)
        &&& sound(t) && stored(k, inord(t)) && inord(t).len() <= u64::MAX && t.ht() < 64 && ntot(t) <= u64::MAX
        &&& forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> k.dom().contains(x)
    }),
{
    let t = tree_at(n, top);
    let u = choose|u: Tree| u.off == top && #[trigger] u.rep(n);
    inord_ok(t, k);
    let s = inord(t);
    assert(s.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            if i < j { klt_asym(k[s[i]].key, k[s[j]].key); } else { klt_asym(k[s[j]].key, k[s[i]].key); }
        }
    }
    assert forall|x: KeyPieceOffset| #[trigger] t.has(x) implies x.val != 0 by { has_dom(k, t, x); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).val != 0 by { assert(s.contains(s[i])); assert(t.has(s[i])); }
    few(s);
    if t.keys.len() >= 1 {
        tall(t);
        if t.ht() >= 64 {
            if t.ht() > 64 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(64, t.ht() + 1); } 
            vstd::arithmetic::power2::lemma2_to64_rest();
            vstd::arithmetic::power2::lemma_pow2_strictly_increases(64, t.ht() + 1);
            assert(false);
        }
        ntot_le(t);
    } else {
        assert(nfrom(t, 0, zg(), 0) == 0);
    }
}
/// different offsets that are not 0
proof fn few(s: Seq<KeyPieceOffset>)
    requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val != 0,
    ensures s.len() <= u64::MAX,
{
    let w = s.map_values(|x: KeyPieceOffset| x.val as int);
    assert(w.no_duplicates());
    w.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(1, u64::MAX + 1);
    let r = vstd::set_lib::set_int_range(1, u64::MAX + 1);
    assert(w.to_set().subset_of(r)) by {
        assert forall|v: int| w.to_set().contains(v) implies r.contains(v) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == v; assert(s[i].val != 0); }
    }
    vstd::set_lib::lemma_len_subset(w.to_set(), r);
}
