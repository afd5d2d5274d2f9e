//! The operation scripts: one line per operation, so that a failing history is a readable replay file.
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kt {
    Int,
    Str,
    Bytes,
}

/// bytes, either literal or generated (`~len:seed`)
#[derive(Clone, Debug, PartialEq)]
pub enum Blob {
    Raw(Vec<u8>),
    Gen(usize, u32),
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Raw(v) => v.clone(),
            Blob::Gen(n, seed) => {
                let mut x = (*seed as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
                let mut v = Vec::with_capacity(*n);
                for _ in 0..*n {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    let b = (x >> 32) as u8;
                    v.push(match seed % 4 {
                        0 => b,
                        1 => b'a' + b % 26,
                        2 => b | 1, // never zero
                        _ => b % 3, // mostly small, many zeros
                    });
                }
                v
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// make handle `m` of map `name` (key type kt) in database directory `db`
    Open { m: usize, db: usize, kt: Kt, name: String, par: usize },
    /// drop handle m only
    DropHandle { m: usize },
    /// drop all handles of db and the db, then open the same handles again with parameters `par`
    Reopen { db: usize, par: usize },
    /// give map m a twin in a memory database
    Mem { m: usize },
    Put { m: usize, form: u8, k: Blob, v: Blob },
    Get { m: usize, form: u8, k: Blob },
    Del { m: usize, form: u8, k: Blob },
    BPut { m: usize, form: u8, kv: Vec<(Blob, Blob)> },
    BGet { m: usize, form: u8, k: Vec<Blob> },
    BDel { m: usize, form: u8, k: Vec<Blob> },
    /// many puts / deletes of the keys from..to of a pool
    MPut { m: usize, pool: u32, n: usize, from: usize, to: usize, ord: u8, vl: usize },
    MDel { m: usize, pool: u32, n: usize, from: usize, to: usize, ord: u8 },
    MGet { m: usize, pool: u32, n: usize, from: usize, to: usize, ord: u8 },
    Iter { m: usize, form: u8 },
    /// iterate, but put/get values on other handles in between is not done: just partial iteration
    IterPart { m: usize, form: u8, n: usize },
    Flush { m: usize },
    SyncAll { m: usize },
    SyncData { m: usize },
    DbSyncAll { db: usize },
    DbSyncData { db: usize },
    Fill { m: usize },
    /// how: 0 flush, 1 sync_all, 2 sync_data, 3 db.sync_all, 4 db.sync_data; then copy the files and open the copy
    Snap { m: usize, how: u8, par: usize },
    /// flush, then check the raw files. mask: 1 tree, 2 overlap, 4 leak, 8 content, 16 htx, 32 headers
    Fsck { m: usize, mask: u32 },
    /// compare the inspection functions to a scan of the raw files. htx: also the (slow) hash index scan
    Stats { m: usize, htx: bool },
    /// is_balanced / is_mst_valid / is_dense / depth
    Checks { m: usize },
    /// everything the map says against the model
    Verify { m: usize },
    /// put with free-list accounting (value and key file must not grow when a fitting free record exists)
    GrowPut { m: usize, k: Blob, v: Blob },
    /// repeat a put/delete cycle of the pool; the files must stop growing
    Cycle { m: usize, pool: u32, n: usize, rounds: usize, vl: usize },
    /// copy files of m; every other key type must be refused on the copy, unchanged
    Clash { m: usize },
    /// copy files of m, damage a signature byte of one file: must be refused, unchanged
    Corrupt { m: usize, file: u8, byte: u8, xor: u8 },
    /// key type laws on a few values
    KeyLaws { seed: u32 },
    /// file size of the map is a no-op check (comment)
    Note(String),
}

fn hex(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 2);
    for b in v {
        s += &format!("{:02x}", b);
    }
    s
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

impl fmt::Display for Blob {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Blob::Raw(v) => write!(f, "x{}", hex(v)),
            Blob::Gen(n, s) => write!(f, "~{}:{}", n, s),
        }
    }
}
impl Blob {
    pub fn parse(s: &str) -> Option<Blob> {
        if let Some(r) = s.strip_prefix('x') {
            return unhex(r).map(Blob::Raw);
        }
        let r = s.strip_prefix('~')?;
        let (a, b) = r.split_once(':')?;
        Some(Blob::Gen(a.parse().ok()?, b.parse().ok()?))
    }
}
impl fmt::Display for Kt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self {
            Kt::Int => "int",
            Kt::Str => "string",
            Kt::Bytes => "bytes",
        })
    }
}
fn list(v: &[Blob]) -> String {
    v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ")
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Op::Open { m, db, kt, name, par } => write!(f, "open {m} {db} {kt} {name} {par}"),
            Op::DropHandle { m } => write!(f, "drop {m}"),
            Op::Reopen { db, par } => write!(f, "reopen {db} {par}"),
            Op::Mem { m } => write!(f, "mem {m}"),
            Op::Put { m, form, k, v } => write!(f, "put {m} {form} {k} {v}"),
            Op::Get { m, form, k } => write!(f, "get {m} {form} {k}"),
            Op::Del { m, form, k } => write!(f, "del {m} {form} {k}"),
            Op::BPut { m, form, kv } => {
                write!(f, "bput {m} {form}")?;
                for (k, v) in kv {
                    write!(f, " {k} {v}")?;
                }
                Ok(())
            }
            Op::BGet { m, form, k } => write!(f, "bget {m} {form} {}", list(k)),
            Op::BDel { m, form, k } => write!(f, "bdel {m} {form} {}", list(k)),
            Op::MPut { m, pool, n, from, to, ord, vl } => {
                write!(f, "mput {m} {pool} {n} {from} {to} {ord} {vl}")
            }
            Op::MDel { m, pool, n, from, to, ord } => {
                write!(f, "mdel {m} {pool} {n} {from} {to} {ord}")
            }
            Op::MGet { m, pool, n, from, to, ord } => {
                write!(f, "mget {m} {pool} {n} {from} {to} {ord}")
            }
            Op::Iter { m, form } => write!(f, "iter {m} {form}"),
            Op::IterPart { m, form, n } => write!(f, "iterpart {m} {form} {n}"),
            Op::Flush { m } => write!(f, "flush {m}"),
            Op::SyncAll { m } => write!(f, "syncall {m}"),
            Op::SyncData { m } => write!(f, "syncdata {m}"),
            Op::DbSyncAll { db } => write!(f, "dbsyncall {db}"),
            Op::DbSyncData { db } => write!(f, "dbsyncdata {db}"),
            Op::Fill { m } => write!(f, "fill {m}"),
            Op::Snap { m, how, par } => write!(f, "snap {m} {how} {par}"),
            Op::Fsck { m, mask } => write!(f, "fsck {m} {mask}"),
            Op::Stats { m, htx } => write!(f, "stats {m} {}", *htx as u8),
            Op::Checks { m } => write!(f, "checks {m}"),
            Op::Verify { m } => write!(f, "verify {m}"),
            Op::GrowPut { m, k, v } => write!(f, "growput {m} {k} {v}"),
            Op::Cycle { m, pool, n, rounds, vl } => write!(f, "cycle {m} {pool} {n} {rounds} {vl}"),
            Op::Clash { m } => write!(f, "clash {m}"),
            Op::Corrupt { m, file, byte, xor } => write!(f, "corrupt {m} {file} {byte} {xor}"),
            Op::KeyLaws { seed } => write!(f, "keylaws {seed}"),
            Op::Note(s) => write!(f, "# {s}"),
        }
    }
}

pub fn parse_line(l: &str) -> Result<Option<Op>, String> {
    let l = l.trim();
    if l.is_empty() || l.starts_with('#') {
        return Ok(None);
    }
    let w: Vec<&str> = l.split_whitespace().collect();
    let bad = || format!("bad script line: {l}");
    fn num<T: std::str::FromStr>(w: &[&str], i: usize) -> Option<T> {
        w.get(i)?.parse().ok()
    }
    let blobs = |i: usize| -> Option<Vec<Blob>> { w[i..].iter().map(|s| Blob::parse(s)).collect() };
    let r: Option<Op> = (|| {
        Some(match w[0] {
            "open" => Op::Open {
                m: num(&w, 1)?,
                db: num(&w, 2)?,
                kt: match *w.get(3)? {
                    "int" => Kt::Int,
                    "string" => Kt::Str,
                    "bytes" => Kt::Bytes,
                    _ => return None,
                },
                name: w.get(4)?.to_string(),
                par: num(&w, 5)?,
            },
            "drop" => Op::DropHandle { m: num(&w, 1)? },
            "reopen" => Op::Reopen { db: num(&w, 1)?, par: num(&w, 2)? },
            "mem" => Op::Mem { m: num(&w, 1)? },
            "put" => Op::Put { m: num(&w, 1)?, form: num(&w, 2)?, k: Blob::parse(w.get(3)?)?, v: Blob::parse(w.get(4)?)? },
            "get" => Op::Get { m: num(&w, 1)?, form: num(&w, 2)?, k: Blob::parse(w.get(3)?)? },
            "del" => Op::Del { m: num(&w, 1)?, form: num(&w, 2)?, k: Blob::parse(w.get(3)?)? },
            "bput" => {
                let b = blobs(3)?;
                Op::BPut {
                    m: num(&w, 1)?,
                    form: num(&w, 2)?,
                    kv: b.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect(),
                }
            }
            "bget" => Op::BGet { m: num(&w, 1)?, form: num(&w, 2)?, k: blobs(3)? },
            "bdel" => Op::BDel { m: num(&w, 1)?, form: num(&w, 2)?, k: blobs(3)? },
            "mput" => Op::MPut { m: num(&w, 1)?, pool: num(&w, 2)?, n: num(&w, 3)?, from: num(&w, 4)?, to: num(&w, 5)?, ord: num(&w, 6)?, vl: num(&w, 7)? },
            "mdel" => Op::MDel { m: num(&w, 1)?, pool: num(&w, 2)?, n: num(&w, 3)?, from: num(&w, 4)?, to: num(&w, 5)?, ord: num(&w, 6)? },
            "mget" => Op::MGet { m: num(&w, 1)?, pool: num(&w, 2)?, n: num(&w, 3)?, from: num(&w, 4)?, to: num(&w, 5)?, ord: num(&w, 6)? },
            "iter" => Op::Iter { m: num(&w, 1)?, form: num(&w, 2)? },
            "iterpart" => Op::IterPart { m: num(&w, 1)?, form: num(&w, 2)?, n: num(&w, 3)? },
            "flush" => Op::Flush { m: num(&w, 1)? },
            "syncall" => Op::SyncAll { m: num(&w, 1)? },
            "syncdata" => Op::SyncData { m: num(&w, 1)? },
            "dbsyncall" => Op::DbSyncAll { db: num(&w, 1)? },
            "dbsyncdata" => Op::DbSyncData { db: num(&w, 1)? },
            "fill" => Op::Fill { m: num(&w, 1)? },
            "snap" => Op::Snap { m: num(&w, 1)?, how: num(&w, 2)?, par: num(&w, 3)? },
            "fsck" => Op::Fsck { m: num(&w, 1)?, mask: num(&w, 2)? },
            "stats" => Op::Stats { m: num(&w, 1)?, htx: num::<u8>(&w, 2)? != 0 },
            "checks" => Op::Checks { m: num(&w, 1)? },
            "verify" => Op::Verify { m: num(&w, 1)? },
            "growput" => Op::GrowPut { m: num(&w, 1)?, k: Blob::parse(w.get(2)?)?, v: Blob::parse(w.get(3)?)? },
            "cycle" => Op::Cycle { m: num(&w, 1)?, pool: num(&w, 2)?, n: num(&w, 3)?, rounds: num(&w, 4)?, vl: num(&w, 5)? },
            "clash" => Op::Clash { m: num(&w, 1)? },
            "corrupt" => Op::Corrupt { m: num(&w, 1)?, file: num(&w, 2)?, byte: num(&w, 3)?, xor: num(&w, 4)? },
            "keylaws" => Op::KeyLaws { seed: num(&w, 1)? },
            _ => return None,
        })
    })();
    r.map(Some).ok_or_else(bad)
}

pub fn parse(text: &str) -> Result<Vec<Op>, String> {
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(o) = parse_line(l)? {
            v.push(o);
        }
    }
    Ok(v)
}
pub fn print(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops {
        s += &o.to_string();
        s.push('\n');
    }
    s
}
