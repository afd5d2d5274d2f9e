// ---------------------------------------------------------------- tree model

pub ghost struct KeyRec { pub key: KeyV, pub voff: ValuePieceOffset }
pub type NMap = Map<NodePieceOffset, NodeV>;
pub type KMap = Map<KeyPieceOffset, KeyRec>;
pub type VMap = Map<ValuePieceOffset, Seq<u8>>;
pub type HMap = Map<u64, KeyPieceOffset>;

pub ghost struct Tree { pub off: NodePieceOffset, pub keys: Seq<KeyPieceOffset>, pub kids: Seq<Tree> }

pub spec const MAXK: nat = 63;
pub spec const MINK: nat = 31;

impl Tree {
    pub open spec fn leaf(self) -> bool { self.kids.len() == 0 }
    /// content of the node of the root of this tree
    pub open spec fn nv(self) -> NodeV {
        NodeV {
            keys: self.keys,
            downs: if self.leaf() { Seq::new(self.keys.len() + 1, |i: int| NodePieceOffset { val: 0 }) }
                   else { Seq::new(self.kids.len(), |i: int| self.kids[i].off) },
        }
    }
    pub open spec fn ht(self) -> nat
        decreases self
    { if self.kids.len() == 0 { 0 } else { 1 + self.kids[0].ht() } }
    /// all leaves are at the same depth; one more child than keys
    pub open spec fn bal(self) -> bool
        decreases self
    {
        &&& self.leaf() || self.kids.len() == self.keys.len() + 1
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).ht() == self.kids[0].ht()
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).bal()
    }
    /// the children are not underfull, and no node is overfull
    pub open spec fn fill(self) -> bool
        decreases self
    {
        &&& self.keys.len() <= MAXK
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).keys.len() >= MINK
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).fill()
    }
    pub open spec fn kids_fill(self) -> bool {
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).keys.len() >= MINK
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).fill()
    }
    /// the key piece k is in this tree
    pub open spec fn has(self, k: KeyPieceOffset) -> bool
        decreases self
    {
        ||| exists|i: int| 0 <= i < self.keys.len() && #[trigger] self.keys[i] == k
        ||| exists|i: int| 0 <= i < self.kids.len() && (#[trigger] self.kids[i]).has(k)
    }
    /// the node o is in this tree
    pub open spec fn inf(self, o: NodePieceOffset) -> bool
        decreases self
    {
        ||| self.off == o && o.val != 0
        ||| exists|i: int| 0 <= i < self.kids.len() && (#[trigger] self.kids[i]).inf(o)
    }
    pub open spec fn kinf(self, o: NodePieceOffset) -> bool {
        exists|i: int| 0 <= i < self.kids.len() && (#[trigger] self.kids[i]).inf(o)
    }
    /// no node occurs twice
    pub open spec fn dis(self) -> bool
        decreases self
    {
        &&& self.off.val != 0 ==> !self.kinf(self.off)
        &&& forall|i: int, j: int, o: NodePieceOffset| 0 <= i < self.kids.len() && 0 <= j < self.kids.len() && #[trigger] self.kids[i].inf(o) && #[trigger] self.kids[j].inf(o) ==> i == j
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).dis()
    }
    /// the nodes below the root are stored in n
    pub open spec fn krep(self, n: NMap) -> bool
        decreases self, 0nat
    { forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).rep(n) }
    /// this tree is stored in n
    pub open spec fn rep(self, n: NMap) -> bool
        decreases self, 1nat
    {
        &&& self.off.val != 0
        &&& n.dom().contains(self.off)
        &&& n[self.off] == self.nv()
        &&& self.krep(n)
    }
    /// search tree order, by the keys that the key file k holds
    pub open spec fn ord(self, k: KMap) -> bool
        decreases self
    {
        &&& forall|i: int| 0 <= i < self.keys.len() ==> k.dom().contains(#[trigger] self.keys[i]) && self.keys[i].val != 0
        &&& forall|i: int, j: int| 0 <= i < j < self.keys.len() ==> klt(k[#[trigger] self.keys[i]].key, k[#[trigger] self.keys[j]].key)
        &&& forall|i: int, j: int, x: KeyPieceOffset| 0 <= i < self.kids.len() && 0 <= j < self.keys.len() && #[trigger] self.kids[i].has(x) ==>
            (if j < i { klt(k[#[trigger] self.keys[j]].key, k[x].key) } else { klt(k[x].key, k[self.keys[j]].key) })
        &&& forall|i: int| 0 <= i < self.kids.len() ==> (#[trigger] self.kids[i]).ord(k)
    }
    /// everything that holds of a (sub)tree between two operations, the fill of its root apart
    pub open spec fn good(self, n: NMap, k: KMap) -> bool {
        &&& self.rep(n)
        &&& self.bal()
        &&& self.fill()
        &&& self.dis()
        &&& self.ord(k)
    }
}
/// the tree stored at off
pub open spec fn tree_at(n: NMap, off: NodePieceOffset) -> Tree {
    choose|t: Tree| t.off == off && #[trigger] t.rep(n)
}
pub open spec fn is_tree(n: NMap, off: NodePieceOffset) -> bool {
    exists|t: Tree| t.off == off && #[trigger] t.rep(n)
}

pub proof fn rep_unique(n: NMap, a: Tree, b: Tree)
    requires a.rep(n), b.rep(n), a.off == b.off,
    ensures a == b,
    decreases a,
{
    assert(a.nv() == b.nv());
    assert(a.keys == b.keys);
    if a.leaf() {
        if !b.leaf() {
            assert(a.nv().downs[0] == b.nv().downs[0]);
            assert(b.kids[0].rep(n));
        }
        assert(a.kids =~= b.kids);
    } else {
        if b.leaf() {
            assert(a.nv().downs[0] == b.nv().downs[0]);
            assert(a.kids[0].rep(n));
        }
        assert(a.nv().downs.len() == b.nv().downs.len());
        assert forall|i: int| 0 <= i < a.kids.len() implies a.kids[i] == b.kids[i] by {
            assert(a.nv().downs[i] == b.nv().downs[i]);
            assert(a.kids[i].rep(n) && b.kids[i].rep(n));
            rep_unique(n, a.kids[i], b.kids[i]);
        }
        assert(a.kids =~= b.kids);
    }
}
pub proof fn tree_at_is(n: NMap, t: Tree)
    requires t.rep(n),
    ensures tree_at(n, t.off) == t,
{
    let u = tree_at(n, t.off);
    assert(u.off == t.off && u.rep(n));
    rep_unique(n, u, t);
}
/// stores that agree on the nodes of t store t alike
pub proof fn rep_frame(n: NMap, m: NMap, t: Tree)
    requires t.rep(n), forall|o: NodePieceOffset| #[trigger] t.inf(o) && n.dom().contains(o) ==> m.dom().contains(o) && m[o] == n[o],
    ensures t.rep(m),
    decreases t,
{
    assert(t.inf(t.off));
    assert forall|i: int| 0 <= i < t.kids.len() implies (#[trigger] t.kids[i]).rep(m) by {
        assert(t.kids[i].rep(n));
        assert forall|o: NodePieceOffset| #[trigger] t.kids[i].inf(o) && n.dom().contains(o) implies m.dom().contains(o) && m[o] == n[o] by {
            assert(t.inf(o));
        }
        rep_frame(n, m, t.kids[i]);
    }
}
pub proof fn inf_dom(n: NMap, t: Tree, o: NodePieceOffset)
    requires t.rep(n), t.inf(o),
    ensures n.dom().contains(o), o.val != 0,
    decreases t,
{
    if t.off != o {
        let i = choose|i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).inf(o);
        assert(t.kids[i].rep(n));
        inf_dom(n, t.kids[i], o);
    }
}
/// the order only looks at the keys in t
pub proof fn ord_frame(k: KMap, m: KMap, t: Tree)
    requires t.ord(k), forall|x: KeyPieceOffset| #[trigger] t.has(x) ==> m.dom().contains(x) && m[x].key == k[x].key,
    ensures t.ord(m),
    decreases t,
{
    assert forall|i: int| 0 <= i < t.keys.len() implies t.has(#[trigger] t.keys[i]) by {}
    assert forall|i: int, x: KeyPieceOffset| 0 <= i < t.kids.len() && #[trigger] t.kids[i].has(x) implies t.has(x) by {}
    assert forall|i: int| 0 <= i < t.kids.len() implies (#[trigger] t.kids[i]).ord(m) by {
        ord_frame(k, m, t.kids[i]);
    }
}
pub proof fn has_dom(k: KMap, t: Tree, x: KeyPieceOffset)
    requires t.ord(k), t.has(x),
    ensures k.dom().contains(x), x.val != 0,
    decreases t,
{
    if !exists|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == x {
        let i = choose|i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).has(x);
        assert(t.kids[i].ord(k));
        has_dom(k, t.kids[i], x);
    }
}
