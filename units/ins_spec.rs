/// what an insertion below t leaves: t2 (active when the node split, or when t had no key)
pub open spec fn ins_post(n: NMap, t: Tree, k: KMap, n2: NMap, t2: Tree, k2: KMap, ret: IdxNode, ko: KeyPieceOffset) -> bool {
    &&& t2.nv() == ret.nv()
    &&& t2.krep(n2) && t2.dis() && tpost(n, t, n2, t2)
    &&& t2.bal() && t2.kids_fill()
    &&& t2.ord(k2)
    &&& forall|x: KeyPieceOffset| #[trigger] t2.has(x) == (t.has(x) || x == ko)
    &&& if ret.act() {
            &&& is_split(t2)
            &&& t2.ht() == (if t.keys.len() == 0 { 0 } else { t.ht() + 1 })
        } else {
            &&& t2.rep(n2) && t2.ht() == t.ht() && t.keys.len() <= t2.keys.len() <= MAXK
        }
}
