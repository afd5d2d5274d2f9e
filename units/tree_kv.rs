// ---------------------------------------------------------------- key/value bookkeeping
/// value is now stored for the key piece ko: overwritten when ko was there, added otherwise
pub open spec fn kv_ins(k: KMap, v: VMap, h: HMap, k2: KMap, v2: VMap, h2: HMap, key: KeyV, value: Seq<u8>, ko: KeyPieceOffset) -> bool {
    let vo = k2[ko].voff;
    &&& ko.val != 0 && vo.val != 0
    &&& k2 == k.insert(ko, KeyRec { key, voff: vo })
    &&& if k.dom().contains(ko) {
            &&& k[ko].key == key
            &&& v2 == v.remove(k[ko].voff).insert(vo, value)
            &&& vo == k[ko].voff || !v.dom().contains(vo)
            &&& h2 == h
        } else {
            &&& v2 == v.insert(vo, value)
            &&& !v.dom().contains(vo)
            &&& h2 == h.insert(hslot(khash(key)), ko)
        }
}
/// every value that a key of k names is stored
pub open spec fn vals_ok(k: KMap, v: VMap) -> bool {
    forall|x: KeyPieceOffset| #[trigger] k.dom().contains(x) ==> v.dom().contains(k[x].voff) && k[x].voff.val != 0
}
pub open spec fn sorted_keys(s: Seq<KeyPieceOffset>, k: KMap) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> k.dom().contains(#[trigger] s[i]) && s[i].val != 0
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> klt(k[#[trigger] s[i]].key, k[#[trigger] s[j]].key)
}
/// the node in hand is the stored root of a good tree
pub open spec fn node_pre(node: IdxNode, n: NMap, k: KMap) -> bool {
    let t = tree_at(n, node.off());
    &&& is_tree(n, node.off())
    &&& t.good(n, k)
    &&& node.nv() == t.nv() && !node.act()
}
pub proof fn all_in_dom(n: NMap, t: Tree)
    requires t.rep(n),
    ensures forall|o: NodePieceOffset| #[trigger] t.inf(o) ==> n.dom().contains(o),
{
    assert forall|o: NodePieceOffset| #[trigger] t.inf(o) implies n.dom().contains(o) by { inf_dom(n, t, o); }
}
/// the key piece ko is gone, with its value and its slot
pub open spec fn kv_del(k: KMap, v: VMap, h: HMap, k2: KMap, v2: VMap, h2: HMap, ko: KeyPieceOffset) -> bool {
    &&& k.dom().contains(ko)
    &&& k2 == k.remove(ko)
    &&& v2 == v.remove(k[ko].voff)
    &&& h2 == h.insert(hslot(khash(k[ko].key)), KeyPieceOffset { val: 0 })
}
