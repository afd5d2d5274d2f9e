// ---------------------------------------------------------------- the hash table in its file
pub open spec fn tsize(img: Seq<u8>) -> int { u64_at(img, 16) as int }
pub open spec fn slot(img: Seq<u8>, i: int) -> u64 { u64_at(img, 128 + 8 * i) }
/// the file holds a table of the size its header tells
pub open spec fn htx_ok(img: Seq<u8>) -> bool { 0 < tsize(img) <= 0x1_0000_0000_0000 && img.len() >= 128 + 8 * tsize(img) }
/// the slots below n in use
pub open spec fn used(img: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { used(img, n - 1) + if slot(img, n - 1) != 0 { 1int } else { 0int } } }
pub proof fn used_le(img: Seq<u8>, n: int)
    requires 0 <= n,
    ensures 0 <= used(img, n) <= n,
    decreases n,
{ if n > 0 { used_le(img, n - 1); } }
/// writing slot i changes slot i only
pub proof fn slot_put(img: Seq<u8>, i: int, x: u64)
    requires htx_ok(img), 0 <= i < tsize(img),
    ensures ({
        let b = put_at(img, 128 + 8 * i, enc(8, x as nat));
        &&& b.len() == img.len() && htx_ok(b) && tsize(b) == tsize(img)
        &&& forall|j: int| 0 <= j < tsize(img) ==> #[trigger] slot(b, j) == if j == i { x } else { slot(img, j) }
        &&& at(b, 0, 128) == at(img, 0, 128)
    }),
{
    let b = put_at(img, 128 + 8 * i, enc(8, x as nat));
    enc_len(8, x as nat);
    p256_vals();
    le_enc(8, x as nat);
    assert(at(b, 16, 8) =~= at(img, 16, 8));
    assert(at(b, 0, 128) =~= at(img, 0, 128));
    assert forall|j: int| 0 <= j < tsize(img) implies #[trigger] slot(b, j) == if j == i { x } else { slot(img, j) } by {
        if j == i { assert(at(b, 128 + 8 * i, 8) =~= enc(8, x as nat)); }
        else { assert(at(b, 128 + 8 * j, 8) =~= at(img, 128 + 8 * j, 8)); }
    }
}
pub proof fn per_mill(c: int, n: int)
    requires 0 <= c <= n, 0 < n,
    ensures 0 <= c * 1000 / n <= 1000,
{ assert(0 <= c * 1000 / n <= 1000) by(nonlinear_arith) requires 0 <= c <= n, 0 < n; }
/// a new table: the header, then zeros
pub proof fn new_table(img: Seq<u8>, n: nat)
    requires 0 < n <= 0x1_0000_0000_0000, img.len() == 128 + 8 * n, at(img, 16, 8) =~= enc(8, n), forall|j: int| 128 <= j < img.len() ==> #[trigger] img[j] == 0,
    ensures htx_ok(img), tsize(img) == n, forall|i: int| 0 <= i < n ==> #[trigger] slot(img, i) == 0,
{
    p256_vals();
    le_enc(8, n);
    le_enc(8, 0);
    enc_len(8, 0);
    assert forall|i: int| 0 <= i < n implies #[trigger] slot(img, i) == 0 by { zeros8(at(img, 128 + 8 * i, 8)); }
}
pub proof fn zeros8(s: Seq<u8>)
    requires s.len() == 8, forall|j: int| 0 <= j < 8 ==> #[trigger] s[j] == 0,
    ensures le(s) == 0,
{ reveal_with_fuel(le, 9); }
pub proof fn zero_enc()
    ensures enc(8, 0) =~= zeros(8),
{ reveal_with_fuel(enc, 9); }
