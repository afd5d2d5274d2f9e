// ---------------------------------------------------------------- byte order
/// the order of byte strings
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}
/// equal in this order is equal
pub proof fn lex_eq(a: Seq<u8>, b: Seq<u8>)
    ensures lex(a, b) == Ordering::Equal <==> a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lex_eq(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    } else if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
    } else if a.len() > 0 && b.len() > 0 {
        assert(a[0] != b[0]);
    }
}
pub proof fn lex_anti(a: Seq<u8>, b: Seq<u8>)
    ensures lex(a, b) == Ordering::Less <==> lex(b, a) == Ordering::Greater,
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lex_anti(a.skip(1), b.skip(1)); } }
pub proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) == Ordering::Less, lex(b, c) == Ordering::Less,
    ensures lex(a, c) == Ordering::Less,
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.skip(1), b.skip(1), c.skip(1)); } }
/// n bytes of v, the highest first
pub open spec fn be(n: nat, v: nat) -> Seq<u8>
    decreases n
{ if n == 0 { Seq::empty() } else { be((n - 1) as nat, v / 256).push((v % 256) as u8) } }
pub proof fn be_len(n: nat, v: nat)
    ensures be(n, v).len() == n,
    decreases n,
{ if n > 0 { be_len((n - 1) as nat, v / 256); } }
proof fn lex_push(a: Seq<u8>, b: Seq<u8>, x: u8, y: u8)
    requires a.len() == b.len(),
    ensures lex(a.push(x), b.push(y)) == (if lex(a, b) != Ordering::Equal { lex(a, b) } else if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal }),
    decreases a.len(),
{
    reveal_with_fuel(lex, 2);
    if a.len() > 0 {
        assert(a.push(x).skip(1) =~= a.skip(1).push(x));
        assert(b.push(y).skip(1) =~= b.skip(1).push(y));
        lex_push(a.skip(1), b.skip(1), x, y);
    }
}
pub open spec fn p256n(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 256 * p256n((n - 1) as nat) } }
/// numbers of n bytes are ordered as their bytes
pub proof fn be_order(n: nat, a: nat, b: nat)
    requires a < p256n(n), b < p256n(n),
    ensures lex(be(n, a), be(n, b)) == (if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        assert(a / 256 < p256n(m) && b / 256 < p256n(m)) by(nonlinear_arith) requires a < 256 * p256n(m), b < 256 * p256n(m);
        be_order(m, a / 256, b / 256);
        be_len(m, a / 256);
        be_len(m, b / 256);
        lex_push(be(m, a / 256), be(m, b / 256), (a % 256) as u8, (b % 256) as u8);
    }
}
/// u64 keys: lossless, injective, in numeric order
pub proof fn u64_keys(a: u64, b: u64)
    ensures
        lex(be(8, a as nat), be(8, b as nat)) == (if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }),
        be(8, a as nat) == be(8, b as nat) <==> a == b,
{
    reveal_with_fuel(p256n, 9);
    be_order(8, a as nat, b as nat);
    lex_eq(be(8, a as nat), be(8, b as nat));
}
