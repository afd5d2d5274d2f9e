//! Script generation, one recipe per property.
use crate::exec::pool;
use crate::maps::{hash, NPARAMS};
use crate::script::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// keys whose hash slots collide in groups
fn colliding(kt: Kt, r: &mut Rng, want: usize) -> Vec<Blob> {
    use std::collections::HashMap;
    let mut out = Vec::new();
    for _ in 0..40 {
        let mut by: HashMap<u64, Vec<Vec<u8>>> = HashMap::new();
        let pre: Vec<u8> = (0..7).map(|_| (r.next() % 120) as u8).collect();
        for a in 0..=255u8 {
            let mut k = pre.clone();
            k.push(a);
            by.entry(hash(kt, &k) % (16 * 1024 * 1024)).or_default().push(k);
        }
        let mut g: Vec<Vec<Vec<u8>>> = by.into_values().filter(|v| v.len() > 1).collect();
        g.sort();
        for _ in 0..3 {
            if !g.is_empty() {
                let i = r.below(g.len());
                out.extend(g.swap_remove(i).into_iter().take(4).map(Blob::Raw));
            }
        }
        if out.len() >= want {
            break;
        }
    }
    out.truncate(want);
    if out.is_empty() {
        out = small_keys(kt, r, want);
    }
    out
}

fn small_keys(kt: Kt, r: &mut Rng, n: usize) -> Vec<Blob> {
    let seed = 1 + r.below(23) as u32;
    let p = pool(kt, seed, 200);
    let mut v: Vec<Blob> = Vec::new();
    let start = r.below(200 - n.min(199));
    for i in 0..n {
        v.push(Blob::Raw(p[(start + i) % p.len()].clone()));
    }
    if kt != Kt::Int && r.chance(40) {
        // empty key, prefixes, odd bytes
        for k in [&b""[..], &b"\0"[..], &b"\xff"[..], &b"a"[..], &b"a\0"[..], &b"ab"[..], &b"\xc3\x28"[..], &b"\xc3\x29"[..]] {
            if r.chance(60) {
                let i = r.below(v.len());
                v[i] = Blob::Raw(k.to_vec());
            }
        }
    }
    if kt == Kt::Int && r.chance(40) {
        for k in [0u64, 1, 255, 256, 1 << 32, u64::MAX, 1 << 63] {
            if r.chance(50) {
                let i = r.below(v.len());
                v[i] = Blob::Raw(k.to_be_bytes().to_vec());
            }
        }
    }
    v
}

const EDGES: [usize; 30] = [0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 40, 56, 88, 104, 120, 121, 248, 249, 376, 504, 632, 760, 887, 888, 889, 1008, 1015, 1016, 1017];
const BIG: [usize; 14] = [1015, 1016, 1017, 1143, 1144, 1145, 1272, 2000, 4080, 4088, 4096, 4104, 8192, 9000];

fn vlen(r: &mut Rng, big: usize) -> usize {
    let c = r.below(100);
    if c < big / 4 {
        *r.pick(&[10_000, 20_000, 40_000, 70_000, 131_064, 131_072, 140_000, 300_000])
    } else if c < big {
        *r.pick(&BIG) + r.below(3)
    } else if c < 60 {
        *r.pick(&EDGES)
    } else if c < 90 {
        r.below(48)
    } else {
        r.below(1100)
    }
}
fn val(r: &mut Rng, big: usize) -> Blob {
    let n = vlen(r, big);
    if n <= 6 && r.chance(50) {
        return Blob::Raw((0..n).map(|_| r.next() as u8).collect());
    }
    Blob::Gen(n, r.below(100_000) as u32)
}
fn kt(r: &mut Rng) -> Kt {
    *r.pick(&[Kt::Int, Kt::Str, Kt::Bytes])
}

/// the weights of one recipe
struct Mix {
    nkeys: usize,
    ops: usize,
    big: usize,
    del: usize,
    get: usize,
    bulk: usize,
    iter: usize,
    sync: usize,
    snap: usize,
    reopen: usize,
    fsck: (usize, u32),
    stats: usize,
    fill: usize,
    verify: usize,
    checks: usize,
    grow: usize,
    clash: usize,
    params: bool,
    mem: bool,
    collide: bool,
    maps: usize,
    keylen: usize,
}
impl Default for Mix {
    fn default() -> Mix {
        Mix { nkeys: 12, ops: 120, big: 4, del: 30, get: 30, bulk: 0, iter: 0, sync: 0, snap: 0, reopen: 0, fsck: (0, 0), stats: 0, fill: 0, verify: 2, checks: 0, grow: 0, clash: 0, params: false, mem: false, collide: false, maps: 1, keylen: 0 }
    }
}

fn churn(r: &mut Rng, x: &Mix) -> Vec<Op> {
    let mut ops = Vec::new();
    let nmaps = if x.maps > 1 { 1 + r.below(x.maps) } else { 1 };
    let par = |r: &mut Rng| if x.params { r.below(NPARAMS) } else { 0 };
    let mut hs: Vec<(usize, usize, Kt)> = Vec::new(); // handle, db, kt
    // names that share a part, with dots of their own, or with a suffix of a file of a map
    let style = if nmaps > 1 { r.below(4) } else { 0 };
    let nm = |i: usize| match style {
        0 | 1 => format!("m{i}"),
        2 => format!("m.{i}"),
        _ => ["m", "m.key", "m.v1", "m.idx.v1", "m.htx"][i % 5].to_string(),
    };
    for i in 0..nmaps {
        let t = kt(r);
        let db = if nmaps > 1 && r.chance(25) { 1 } else { 0 };
        let p = par(r);
        ops.push(Op::Open { m: i, db, kt: t, name: nm(i), par: p });
        hs.push((i, db, t));
        if nmaps > 1 && r.chance(50) {
            // a second handle of the same map
            ops.push(Op::Open { m: i + 100, db, kt: t, name: nm(i), par: par(r) });
            hs.push((i + 100, db, t));
        }
        if nmaps > 1 && r.chance(30) {
            // the same name in the other directory
            ops.push(Op::Open { m: i + 200, db: 1 - db, kt: t, name: nm(i), par: p });
            hs.push((i + 200, 1 - db, t));
        }
    }
    if nmaps > 1 {
        // file names that could be confused
        let t = kt(r);
        ops.push(Op::Open { m: 300, db: 0, kt: t, name: r.pick(&["m_", "m00", "m0_", "M0", "m0x", "m0.x", "m0.val", "M.0"]).to_string(), par: 0 });
        hs.push((300, 0, t));
    }
    if x.mem {
        // every handle of a map has a handle of the memory twin
        for h in &hs {
            ops.push(Op::Mem { m: h.0 });
        }
    }
    let mut keys: Vec<(Kt, Vec<Blob>)> = Vec::new();
    for t in [Kt::Int, Kt::Str, Kt::Bytes] {
        if hs.iter().any(|h| h.2 == t) {
            let n = 2 + r.below(x.nkeys);
            let mut k = if x.collide { colliding(t, r, n) } else { small_keys(t, r, n) };
            if x.keylen > 0 && t != Kt::Int {
                for b in k.iter_mut() {
                    if r.chance(60) {
                        *b = Blob::Gen(r.below(x.keylen), r.below(1000) as u32);
                    } else if r.chance(20) {
                        *b = Blob::Gen(*r.pick(&EDGES), 1 + r.below(1000) as u32);
                    } else if r.chance(6) {
                        *b = Blob::Gen(*r.pick(&[1007, 1008, 1009, 4000, 5000, 130_000, 131_060, 131_072, 200_000, 270_000]), 1 + r.below(1000) as u32);
                    }
                }
            }
            keys.push((t, k));
        }
    }
    let extra = |r: &mut Rng, ops: &mut Vec<Op>, m: usize, db: usize| {
        let p = if x.params { r.below(NPARAMS) } else { 0 };
        let roll = |r: &mut Rng, w: usize| w > 0 && r.below(1000) < w;
        if roll(r, x.iter) {
            ops.push(Op::Iter { m, form: r.below(5) as u8 });
        }
        if roll(r, x.iter / 3) {
            ops.push(Op::IterPart { m, form: r.below(5) as u8, n: r.below(5) });
        }
        if roll(r, x.sync) {
            ops.push(match r.below(5) {
                0 => Op::Flush { m },
                1 => Op::SyncAll { m },
                2 => Op::SyncData { m },
                3 => Op::DbSyncAll { db },
                _ => Op::DbSyncData { db },
            });
        }
        if x.mem && roll(r, 15) {
            ops.push(Op::Mem { m });
        }
        if roll(r, x.snap) {
            ops.push(Op::Snap { m, how: r.below(5) as u8, par: p });
        }
        if roll(r, x.reopen) {
            ops.push(Op::Reopen { db, par: p });
        }
        if roll(r, x.fsck.0) {
            ops.push(Op::Fsck { m, mask: x.fsck.1 });
        }
        if roll(r, x.stats) {
            ops.push(Op::Stats { m, htx: false });
        }
        if roll(r, x.fill) {
            ops.push(Op::Fill { m });
        }
        if roll(r, x.verify * 5) {
            ops.push(Op::Verify { m });
        }
        if roll(r, x.checks) {
            ops.push(Op::Checks { m });
        }
        if roll(r, x.clash) {
            ops.push(Op::Clash { m });
        }
    };
    if r.chance(30) || x.ops < 5 {
        // states right after opening
        for (m, db, _) in hs.clone() {
            for _ in 0..3 {
                extra(r, &mut ops, m, db);
            }
        }
    }
    let n = 5 + r.below(x.ops);
    for _ in 0..n {
        let (m, db, t) = *r.pick(&hs);
        let ks = &keys.iter().find(|k| k.0 == t).unwrap().1;
        let form = r.below(4) as u8;
        let c = r.below(100);
        if r.below(100) < x.bulk {
            let cnt = if r.chance(15) { r.below(2) } else { r.below(3 + 2 * ks.len()) };
            let kk: Vec<Blob> = (0..cnt).map(|_| r.pick(ks).clone()).collect();
            ops.push(match r.below(3) {
                0 => {
                    let kv = kk.into_iter().map(|k| (k, if r.chance(50) { Blob::Gen(r.below(30), 1 + 4 * r.below(1000) as u32) } else { val(r, x.big) })).collect();
                    Op::BPut { m, form, kv }
                }
                1 => Op::BGet { m, form, k: kk },
                _ => Op::BDel { m, form, k: kk },
            });
        } else if c < x.del {
            ops.push(Op::Del { m, form, k: r.pick(ks).clone() });
        } else if c < x.del + x.get {
            ops.push(Op::Get { m, form, k: r.pick(ks).clone() });
        } else if r.below(100) < x.grow {
            ops.push(Op::GrowPut { m, k: r.pick(ks).clone(), v: val(r, x.big) });
        } else {
            ops.push(Op::Put { m, form, k: r.pick(ks).clone(), v: val(r, x.big) });
        }
        extra(r, &mut ops, m, db);
    }
    finish(r, x, &mut ops, &hs);
    ops
}

fn finish(r: &mut Rng, x: &Mix, ops: &mut Vec<Op>, hs: &[(usize, usize, Kt)]) {
    for &(m, db, _) in hs {
        if x.fsck.0 > 0 {
            ops.push(Op::Fsck { m, mask: x.fsck.1 });
        }
        if x.snap > 0 {
            ops.push(Op::Snap { m, how: r.below(5) as u8, par: if x.params { r.below(NPARAMS) } else { 0 } });
        }
        if x.iter > 0 {
            ops.push(Op::Iter { m, form: r.below(5) as u8 });
        }
        if x.stats > 0 {
            ops.push(Op::Stats { m, htx: false });
        }
        if x.checks > 0 {
            ops.push(Op::Checks { m });
        }
        if x.reopen > 0 {
            ops.push(Op::Reopen { db, par: if x.params { r.below(NPARAMS) } else { 0 } });
        }
        if x.clash > 0 {
            ops.push(Op::Clash { m });
        }
        ops.push(Op::Verify { m });
    }
}

/// large trees: build, thin out, rebuild
fn tree(r: &mut Rng, x: &Mix, max: usize) -> Vec<Op> {
    let mut ops = Vec::new();
    let t = kt(r);
    let p = if x.params { r.below(NPARAMS) } else { 0 };
    ops.push(Op::Open { m: 0, db: 0, kt: t, name: "t".into(), par: p });
    if x.mem {
        ops.push(Op::Mem { m: 0 });
    }
    let n = *r.pick(&[63usize, 64, 65, 127, 128, 200, 400, 700, 1100, 1500, 2200, 3000, 4200]);
    let n = n.min(max);
    let pl = 1 + r.below(30) as u32;
    let vl = *r.pick(&[0usize, 4, 20, 60]);
    let probe = |r: &mut Rng, ops: &mut Vec<Op>| {
        let roll = |r: &mut Rng, w: usize| w > 0 && r.below(100) < w;
        if roll(r, x.fsck.0 / 2) {
            ops.push(Op::Fsck { m: 0, mask: x.fsck.1 });
        }
        if roll(r, x.checks / 2) {
            ops.push(Op::Checks { m: 0 });
        }
        if roll(r, x.iter / 2) {
            ops.push(Op::Iter { m: 0, form: r.below(5) as u8 });
        }
        if roll(r, x.stats / 2) {
            ops.push(Op::Stats { m: 0, htx: false });
        }
        if roll(r, x.snap / 2) {
            ops.push(Op::Snap { m: 0, how: r.below(5) as u8, par: if x.params { r.below(NPARAMS) } else { 0 } });
        }
        if roll(r, x.reopen / 2) {
            ops.push(Op::Reopen { db: 0, par: if x.params { r.below(NPARAMS) } else { 0 } });
        }
        if roll(r, x.sync / 2) {
            ops.push(Op::SyncData { m: 0 });
        }
        if roll(r, x.verify * 4) {
            ops.push(Op::Verify { m: 0 });
        }
        if roll(r, x.get / 2) {
            let f = r.below(n);
            ops.push(Op::MGet { m: 0, pool: pl, n, from: f, to: (f + 20).min(n), ord: r.below(5) as u8 });
        }
    };
    let rounds = 1 + r.below(3);
    for round in 0..rounds {
        // build in slices
        let mut at = 0;
        let ord = r.below(5) as u8;
        if round > 0 || r.chance(40) {
            let cuts = 1 + r.below(4);
            for c in 0..cuts {
                let to = if c + 1 == cuts { n } else { (at + 1 + r.below(n)).min(n) };
                ops.push(Op::MPut { m: 0, pool: pl, n, from: at, to, ord: r.below(5) as u8, vl });
                at = to;
                probe(r, &mut ops);
            }
        } else {
            ops.push(Op::MPut { m: 0, pool: pl, n, from: 0, to: n, ord, vl });
            probe(r, &mut ops);
        }
        // thin out
        let steps = 2 + r.below(6);
        for _ in 0..steps {
            match r.below(6) {
                0 => {
                    let f = r.below(n);
                    let to = (f + 1 + r.below(n / 2 + 1)).min(n);
                    ops.push(Op::MDel { m: 0, pool: pl, n, from: f, to, ord: r.below(5) as u8 });
                }
                1 => ops.push(Op::MDel { m: 0, pool: pl, n, from: 0, to: 1 + r.below(n), ord: r.below(5) as u8 }),
                2 => ops.push(Op::MDel { m: 0, pool: pl, n, from: r.below(n), to: n, ord: r.below(5) as u8 }),
                3 => {
                    let f = r.below(n);
                    let to = (f + 1 + r.below(80)).min(n);
                    ops.push(Op::MPut { m: 0, pool: pl, n, from: f, to, ord: r.below(5) as u8, vl: vl + r.below(8) });
                }
                4 => {
                    // single deletes of inner keys, with probes between
                    let p = pool(t, pl, n);
                    for _ in 0..6 {
                        ops.push(Op::Del { m: 0, form: 1, k: Blob::Raw(p[r.below(n)].clone()) });
                        probe(r, &mut ops);
                    }
                }
                _ => {
                    let f = r.below(n);
                    let to = (f + 1 + r.below(n / 6 + 2)).min(n);
                    ops.push(Op::MDel { m: 0, pool: pl, n, from: f, to, ord: 2 });
                }
            }
            probe(r, &mut ops);
        }
        if r.chance(35) {
            ops.push(Op::MDel { m: 0, pool: pl, n, from: 0, to: n, ord: r.below(5) as u8 });
            probe(r, &mut ops);
        }
    }
    finish(r, x, &mut ops, &[(0, 0, t)]);
    ops
}

pub fn generate(prop: &str, seed: u64) -> Vec<Op> {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let d = Mix::default();
    let c = r.below(100);
    match prop {
        "C01" => match c {
            0..=29 => churn(r, &Mix { reopen: 4, sync: 10, iter: 10, nkeys: 14, ..d }),
            30..=39 => churn(r, &Mix { nkeys: 100, ops: 500, del: 40, verify: 3, reopen: 2, ..d }),
            40..=49 => churn(r, &Mix { collide: true, reopen: 4, ..d }),
            50..=59 => churn(r, &Mix { keylen: 200, big: 30, reopen: 4, ..d }),
            60..=69 => churn(r, &Mix { maps: 2, bulk: 15, mem: false, ..d }),
            _ => tree(r, &Mix { verify: 8, get: 40, ..d }, 4200),
        },
        "C02" => match c {
            0..=44 => churn(r, &Mix { iter: 200, reopen: 5, keylen: if c < 10 { 60 } else { 0 }, ..d }),
            45..=54 => churn(r, &Mix { iter: 100, nkeys: 100, ops: 300, ..d }),
            _ => tree(r, &Mix { iter: 120, verify: 1, ..d }, 4200),
        },
        "C03" => match c {
            0..=14 => churn(r, &Mix { checks: 100, fsck: (100, 9), nkeys: 150, ops: 500, del: 35, get: 5, ..d }),
            _ => tree(r, &Mix { checks: 60, fsck: (110, 9), verify: 1, get: 10, ..d }, 4200),
        },
        "C04" => match c {
            0..=64 => churn(r, &Mix { snap: 130, sync: 60, nkeys: 8, ops: 60, big: 8, params: c % 2 == 0, maps: if c % 4 == 0 { 3 } else { 1 }, ..d }),
            65..=74 => churn(r, &Mix { snap: 200, nkeys: 4, ops: 6, ..d }),
            75..=84 => churn(r, &Mix { snap: 60, nkeys: 8, ops: 60, keylen: 300, big: 30, ..d }),
            _ => tree(r, &Mix { snap: 90, sync: 40, params: c % 2 == 0, ..d }, 1500),
        },
        "C05" => match c {
            0..=49 => churn(r, &Mix { reopen: 120, params: true, sync: 20, ops: 100, iter: 10, ..d }),
            50..=59 => churn(r, &Mix { reopen: 100, params: true, maps: 3, ops: 100, ..d }),
            60..=69 => churn(r, &Mix { reopen: 100, params: true, collide: true, ..d }),
            70..=79 => churn(r, &Mix { reopen: 80, params: true, keylen: 300, big: 30, ..d }),
            _ => tree(r, &Mix { reopen: 90, params: true, verify: 4, ..d }, 3000),
        },
        "C06" => match c {
            0..=49 => churn(r, &Mix { fsck: (120, 2 | 8), big: 25, keylen: if c % 2 == 0 { 150 } else { 0 }, del: 35, get: 5, reopen: 10, nkeys: 20, ops: 200, ..d }),
            50..=59 => churn(r, &Mix { fsck: (40, 2 | 8), big: 60, keylen: 1500, del: 35, get: 2, ..d }),
            _ => tree(r, &Mix { fsck: (110, 2 | 8), ..d }, 3000),
        },
        "C07" => match c {
            0..=29 => churn(r, &Mix { fsck: (120, 4), big: 25, keylen: if c % 2 == 0 { 150 } else { 0 }, del: 35, get: 2, grow: 30, reopen: 10, nkeys: 16, ..d }),
            30..=39 => churn(r, &Mix { fsck: (60, 4), big: 70, del: 35, get: 2, grow: 40, keylen: 1500, ..d }),
            40..=59 => {
                let t = kt(r);
                let n = *r.pick(&[1usize, 2, 5, 30, 70, 150, 600]);
                let p = 1 + r.below(60) as u32;
                let mut ops = vec![Op::Open { m: 0, db: 0, kt: t, name: "c".into(), par: 0 }];
                let vl = *r.pick(&[0usize, 20, 100, 800]);
                ops.push(Op::Cycle { m: 0, pool: p, n, rounds: 6, vl });
                ops.push(Op::Fsck { m: 0, mask: 4 });
                ops
            }
            _ => tree(r, &Mix { fsck: (110, 4), ..d }, 3000),
        },
        "C08" => match c {
            0..=39 => churn(r, &Mix { big: 50, keylen: 300, ops: 80, reopen: 20, sync: 30, verify: 6, ..d }),
            40..=69 => churn(r, &Mix { big: 40, nkeys: 5, ops: 150, reopen: 10, verify: 6, params: true, ..d }),
            70..=84 => churn(r, &Mix { big: 10, keylen: 3000, nkeys: 10, reopen: 20, verify: 6, ..d }),
            _ => churn(r, &Mix { big: 10, keylen: 1200, nkeys: 70, ops: 300, reopen: 10, verify: 4, params: true, ..d }),
        },
        "C09" => match c {
            0..=59 => {
                let mut o = churn(r, &Mix { collide: true, fsck: (110, 16 | 8), nkeys: 20, del: 35, reopen: 15, sync: 20, bulk: 5, big: 8, ..d });
                if c < 3 {
                    o.push(Op::Stats { m: 0, htx: true });
                }
                o
            }
            60..=74 => churn(r, &Mix { fsck: (80, 16 | 8), nkeys: 30, del: 40, reopen: 20, keylen: 100, ..d }),
            _ => tree(r, &Mix { fsck: (70, 16 | 8), get: 60, reopen: 20, verify: 5, ..d }, 2200),
        },
        "C10" => match c {
            0..=49 => (0..20).map(|_| Op::KeyLaws { seed: r.below(1 << 30) as u32 }).collect(),
            50..=79 => churn(r, &Mix { iter: 80, nkeys: 30, keylen: if c % 2 == 0 { 40 } else { 0 }, verify: 5, ..d }),
            _ => tree(r, &Mix { iter: 40, verify: 4, ..d }, 700),
        },
        "C11" => match c {
            0..=84 => churn(r, &Mix { bulk: 60, nkeys: 3 + c % 40, ops: 60, verify: 8, reopen: 5, ..d }),
            _ => {
                let mut o = tree(r, &Mix { ..d }, 700);
                o.truncate(3);
                let n = 300;
                for _ in 0..6 {
                    let t = match &o[0] {
                        Op::Open { kt, .. } => *kt,
                        _ => Kt::Int,
                    };
                    let p = pool(t, 7, n);
                    let form = r.below(4) as u8;
                    let cnt = 50 + r.below(400);
                    let ks: Vec<Blob> = (0..cnt).map(|_| Blob::Raw(p[r.below(n)].clone())).collect();
                    o.push(match r.below(3) {
                        0 => Op::BPut { m: 0, form, kv: ks.into_iter().map(|k| (k, Blob::Gen(r.below(20), 1 + 4 * r.below(99) as u32))).collect() },
                        1 => Op::BGet { m: 0, form, k: ks },
                        _ => Op::BDel { m: 0, form, k: ks },
                    });
                }
                o.push(Op::Verify { m: 0 });
                o
            }
        },
        "C12" => {
            let mut o = churn(r, &Mix { clash: 60, nkeys: 5, ops: 20, maps: if c % 3 == 0 { 2 } else { 1 }, reopen: 20, params: true, ..d });
            for _ in 0..6 {
                o.push(Op::Corrupt { m: 0, file: r.below(4) as u8, byte: if r.chance(75) { r.below(16) as u8 } else { 16 + r.below(3) as u8 }, xor: 1 << r.below(8) });
            }
            o.push(Op::Verify { m: 0 });
            o
        }
        "C13" => churn(r, &Mix { params: c % 3 == 1, maps: 4, ops: 250, bulk: 5, iter: 20, sync: 20, reopen: 5, verify: 4, snap: if c < 20 { 10 } else { 0 }, fsck: (20, 8), ..d }),
        "C14" => match c {
            0..=59 => churn(r, &Mix { mem: true, bulk: 20, sync: 20, fill: 3, nkeys: 14, keylen: if c % 4 == 0 { 60 } else { 0 }, ..d }),
            60..=79 => churn(r, &Mix { mem: true, maps: 3, bulk: 10, reopen: 5, ..d }),
            _ => tree(r, &Mix { mem: true, get: 60, verify: 6, ..d }, 2200),
        },
        "C15" => match c {
            0..=49 => {
                let mut o = churn(r, &Mix { stats: 90, big: 20, keylen: if c % 2 == 0 { 200 } else { 0 }, nkeys: 40, ops: 150, get: 5, reopen: 10, checks: 20, ..d });
                if c < 4 {
                    o.push(Op::Stats { m: 0, htx: true });
                }
                o
            }
            _ => tree(r, &Mix { stats: 80, checks: 60, reopen: 10, verify: 3, ..d }, 3000),
        },
        "C16" => match c {
            0..=49 => churn(r, &Mix { params: true, reopen: 60, sync: 80, fill: 15, big: 15, nkeys: 30, ops: 250, iter: 20, verify: 4, ..d }),
            50..=64 => churn(r, &Mix { params: true, reopen: 30, sync: 30, fill: 10, big: 60, keylen: 2000, ops: 80, ..d }),
            _ => tree(r, &Mix { params: true, reopen: 60, sync: 80, get: 60, iter: 30, verify: 6, checks: 30, ..d }, 4200),
        },
        _ => churn(r, &d),
    }
}
