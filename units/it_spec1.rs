// ---------------------------------------------------------------- walking the tree in order
/// the key records of t in order
pub open spec fn inord(t: Tree) -> Seq<KeyPieceOffset>
    decreases t, 1nat, 0nat
{ if t.kids.len() == 0 { t.keys } else { from_kid(t, 0) } }
/// what comes from the child i on
pub open spec fn from_kid(t: Tree, i: int) -> Seq<KeyPieceOffset>
    decreases t, 0nat, (2 * (t.kids.len() - i) + 1) as nat
{ if 0 <= i < t.kids.len() { inord(t.kids[i]) + from_key(t, i) } else { Seq::empty() } }
/// what comes from the key i on
pub open spec fn from_key(t: Tree, i: int) -> Seq<KeyPieceOffset>
    decreases t, 0nat, (2 * (t.kids.len() - i)) as nat
{ if 0 <= i < t.keys.len() && i < t.kids.len() { seq![t.keys[i]] + from_kid(t, i + 1) } else { Seq::empty() } }
/// everything in s comes before everything in t
pub open spec fn before(s: Seq<KeyPieceOffset>, t: Seq<KeyPieceOffset>, k: KMap) -> bool {
    forall|x: KeyPieceOffset, y: KeyPieceOffset| #[trigger] s.contains(x) && #[trigger] t.contains(y) ==> klt(k[x].key, k[y].key)
}
pub open spec fn ascending(s: Seq<KeyPieceOffset>, k: KMap) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> klt(k[#[trigger] s[i]].key, k[#[trigger] s[j]].key)
}
pub proof fn asc_add(s: Seq<KeyPieceOffset>, t: Seq<KeyPieceOffset>, k: KMap)
    requires ascending(s, k), ascending(t, k), before(s, t, k),
    ensures ascending(s + t, k),
{
    let u = s + t;
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies klt(k[#[trigger] u[i]].key, k[#[trigger] u[j]].key) by {
        if i < s.len() && j >= s.len() { assert(s.contains(s[i]) && t.contains(t[j - s.len()])); }
    }
}
pub proof fn has_add(s: Seq<KeyPieceOffset>, t: Seq<KeyPieceOffset>, x: KeyPieceOffset)
    ensures (s + t).contains(x) == (s.contains(x) || t.contains(x)),
{
    let u = s + t;
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(u[i] == x); }
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(u[s.len() + i] == x); }
    if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i < s.len() { assert(s[i] == x); } else { assert(t[i - s.len()] == x); } }
}
/// the keys of t from the child i on
pub open spec fn has_from(t: Tree, i: int, x: KeyPieceOffset) -> bool {
    ||| exists|j: int| i <= j < t.keys.len() && #[trigger] t.keys[j] == x
    ||| exists|j: int| i <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x)
}
pub proof fn inord_ok(t: Tree, k: KMap)
    requires t.bal(), t.ord(k),
    ensures ascending(inord(t), k), forall|x: KeyPieceOffset| #[trigger] inord(t).contains(x) == t.has(x),
    decreases t, 1nat, 0nat,
{
    if t.kids.len() == 0 {
        assert forall|x: KeyPieceOffset| #[trigger] inord(t).contains(x) == t.has(x) by {
            if t.has(x) { let i = choose|i: int| 0 <= i < t.keys.len() && #[trigger] t.keys[i] == x; assert(inord(t)[i] == x); }
            if inord(t).contains(x) { let i = choose|i: int| 0 <= i < inord(t).len() && inord(t)[i] == x; assert(t.keys[i] == x); }
        }
    } else {
        from_ok(t, 0, k);
    }
}
proof fn from_ok(t: Tree, i: int, k: KMap)
    requires t.bal(), t.ord(k), 0 <= i < t.kids.len(),
    ensures ascending(from_kid(t, i), k), forall|x: KeyPieceOffset| #[trigger] from_kid(t, i).contains(x) == has_from(t, i, x),
    decreases t, 0nat, (t.kids.len() - i) as nat,
{
    let c = t.kids[i];
    inord_ok(c, k);
    let a = inord(c);
    if i + 1 < t.kids.len() {
        from_ok(t, i + 1, k);
        let b = seq![t.keys[i]];
        let r = from_kid(t, i + 1);
        assert(b.contains(t.keys[i])) by { assert(b[0] == t.keys[i]); }
        assert(from_key(t, i) == b + r);
        assert(before(b, r, k)) by {
            assert forall|x: KeyPieceOffset, y: KeyPieceOffset| #[trigger] b.contains(x) && #[trigger] r.contains(y) implies klt(k[x].key, k[y].key) by {
                assert(x == t.keys[i]);
                assert(has_from(t, i + 1, y));
                if exists|j: int| i + 1 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(y) { let j = choose|j: int| i + 1 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(y); assert(t.kids[j].has(y) && t.keys[i] == x); }
            }
        }
        asc_add(b, r, k);
        assert(before(a, b + r, k)) by {
            assert forall|x: KeyPieceOffset, y: KeyPieceOffset| #[trigger] a.contains(x) && #[trigger] (b + r).contains(y) implies klt(k[x].key, k[y].key) by {
                has_add(b, r, y);
                assert(c.has(x));
                assert(t.kids[i].has(x) && klt(k[x].key, k[t.keys[i]].key));
                if r.contains(y) { assert(b.contains(t.keys[i]) && r.contains(y)); klt_trans(k[x].key, k[t.keys[i]].key, k[y].key); }
            }
        }
        asc_add(a, b + r, k);
        assert forall|x: KeyPieceOffset| #[trigger] from_kid(t, i).contains(x) == has_from(t, i, x) by {
            has_add(a, b + r, x);
            has_add(b, r, x);
            if b.contains(x) { assert(t.keys[i] == x); }
            if a.contains(x) { assert(t.kids[i].has(x)); }
            if r.contains(x) {
                assert(has_from(t, i + 1, x));
                if exists|j: int| i + 1 <= j < t.keys.len() && #[trigger] t.keys[j] == x { let j = choose|j: int| i + 1 <= j < t.keys.len() && #[trigger] t.keys[j] == x; assert(t.keys[j] == x); }
                else { let j = choose|j: int| i + 1 <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x); assert(t.kids[j].has(x)); }
            }
            if has_from(t, i, x) {
                if exists|j: int| i <= j < t.keys.len() && #[trigger] t.keys[j] == x {
                    let j = choose|j: int| i <= j < t.keys.len() && #[trigger] t.keys[j] == x;
                    if j == i { assert(b[0] == x); } else { assert(has_from(t, i + 1, x)); }
                } else {
                    let j = choose|j: int| i <= j < t.kids.len() && (#[trigger] t.kids[j]).has(x);
                    if j == i { assert(c.has(x)); } else { assert(has_from(t, i + 1, x)); }
                }
            }
        }
    } else {
        assert(from_key(t, i) =~= Seq::empty());
        assert(from_kid(t, i) =~= a);
        assert forall|x: KeyPieceOffset| #[trigger] from_kid(t, i).contains(x) == has_from(t, i, x) by {
            if a.contains(x) { assert(t.kids[i].has(x)); }
            if has_from(t, i, x) { assert(c.has(x)); }
        }
    }
}
