//! Runs one script against the real library and compares everything it says and stores with a plain model.
use crate::fsck;
use crate::maps::*;
use crate::script::*;
use siamesedb::filedb::FileDb;
use siamesedb::memdb::MemoryDb;
use siamesedb::{DbBytes, DbInt, DbMapKeyType, DbString, HashValue};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub type Model = BTreeMap<Vec<u8>, Vec<u8>>;
type MapId = (usize, Kt, String);

#[derive(Default, Clone, Copy)]
pub struct Counts {
    pub ops: u64,
    pub compares: u64,
    pub fscks: u64,
    pub stats: u64,
    pub snaps: u64,
    pub reopens: u64,
    pub max_depth: u64,
    pub max_entries: u64,
}

struct Handle {
    id: MapId,
    par: usize,
    map: Option<Box<dyn AnyMap>>,
    mem: Option<Box<dyn BasicMap>>,
}

pub struct World {
    root: PathBuf,
    dbs: HashMap<usize, FileDb>,
    hs: HashMap<usize, Handle>,
    model: BTreeMap<MapId, Rc<RefCell<Model>>>,
    memdb: Option<&'static MemoryDb<'static>>,
    mems: std::collections::BTreeSet<MapId>,
    pub counts: Counts,
    snapno: usize,
}

thread_local! {
    static POOLS: RefCell<HashMap<(u8, u32, usize), Rc<Vec<Vec<u8>>>>> = RefCell::new(HashMap::new());
}

const HT: u64 = 16 * 1024 * 1024;

/// `n` distinct keys in ascending order; for most seeds their hash slots lie in few buffer chunks (to keep files small)
pub fn pool(kt: Kt, seed: u32, n: usize) -> Rc<Vec<Vec<u8>>> {
    let id = (kt as u8, seed, n);
    if let Some(p) = POOLS.with(|p| p.borrow().get(&id).cloned()) {
        return p;
    }
    let cluster = seed % 8 != 0 || n > 300;
    let mut x = (seed as u64 + 77).wrapping_mul(0xD134_2543_DE82_EF95) | 1;
    let mut set = BTreeSet::new();
    let mut tries = 0u64;
    while set.len() < n {
        tries += 1;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let y = x.wrapping_mul(0x2545_F491_4F6C_DD1D);
        let k: Vec<u8> = match kt {
            Kt::Int => (y >> (if seed % 3 == 0 { 16 } else { 0 })).to_be_bytes().to_vec(),
            Kt::Str => format!("k{:x}", y >> 24).into_bytes(),
            Kt::Bytes => y.to_be_bytes()[..(5 + (y % 3) as usize)].to_vec(),
        };
        if cluster && tries < 8_000_000 && (hash(kt, &k) % HT) >> 14 >= 6 {
            continue;
        }
        set.insert(k);
    }
    let v = Rc::new(set.into_iter().collect::<Vec<_>>());
    POOLS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 400 {
            p.clear();
        }
        p.insert(id, v.clone());
    });
    v
}

fn order(from: usize, to: usize, ord: u8, seed: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (from..to).collect();
    match ord {
        0 => {}
        1 => v.reverse(),
        2 => {
            let mut x = (seed as u64 + 5).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            for i in (1..v.len()).rev() {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                v.swap(i, (x >> 20) as usize % (i + 1));
            }
        }
        3 => {
            let mut w = Vec::new();
            let (mut a, mut b) = (0, v.len());
            while a < b {
                w.push(v[a]);
                a += 1;
                if a < b {
                    b -= 1;
                    w.push(v[b]);
                }
            }
            v = w;
        }
        _ => {
            // from the middle outwards
            let mut w = Vec::new();
            let (mut a, mut b) = (v.len() / 2, v.len() / 2);
            while a > 0 || b < v.len() {
                if a > 0 {
                    a -= 1;
                    w.push(v[a]);
                }
                if b < v.len() {
                    w.push(v[b]);
                    b += 1;
                }
            }
            v = w;
        }
    }
    v
}

fn io<T>(what: &str, r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{what} failed: {e}"))
}
fn so(o: &Option<Vec<u8>>) -> String {
    match o {
        None => "nothing".into(),
        Some(v) => fsck::short(v),
    }
}

impl World {
    pub fn new(root: &Path) -> World {
        World { root: root.to_path_buf(), dbs: HashMap::new(), hs: HashMap::new(), model: BTreeMap::new(), memdb: None, mems: Default::default(), counts: Counts::default(), snapno: 0 }
    }
    fn dir(&self, db: usize) -> PathBuf {
        self.root.join(format!("d{db}"))
    }
    fn db(&mut self, db: usize) -> Result<&FileDb, String> {
        if !self.dbs.contains_key(&db) {
            let d = io("open_file", siamesedb::open_file(self.dir(db)))?;
            self.dbs.insert(db, d);
        }
        Ok(&self.dbs[&db])
    }
    fn map(&mut self, m: usize) -> Result<&mut dyn AnyMap, String> {
        let (id, par, closed) = match self.hs.get(&m) {
            None => return Err("SKIP".into()),
            Some(h) => (h.id.clone(), h.par, h.map.is_none()),
        };
        if closed {
            let db = self.db(id.0)?;
            let map = io("open map", open(db, id.1, &id.2, par))?;
            self.hs.get_mut(&m).unwrap().map = Some(map);
        }
        Ok(&mut **self.hs.get_mut(&m).unwrap().map.as_mut().unwrap())
    }
    fn kt(&self, m: usize) -> Result<Kt, String> {
        self.hs.get(&m).map(|h| h.id.1).ok_or_else(|| "SKIP".into())
    }
    fn md(&self, m: usize) -> Rc<RefCell<Model>> {
        self.model[&self.hs[&m].id].clone()
    }
    fn base_path(&self, m: usize) -> PathBuf {
        let id = &self.hs[&m].id;
        self.dir(id.0).join(&id.2)
    }

    fn put(&mut self, m: usize, form: u8, k: &[u8], v: &[u8]) -> Result<(), String> {
        io("put", self.map(m)?.put(form, k, v))?;
        if let Some(mm) = self.hs.get_mut(&m).unwrap().mem.as_mut() {
            io("memory put", mm.put(form, k, v))?;
        }
        let md = self.md(m);
        md.borrow_mut().insert(k.to_vec(), v.to_vec());
        let n = md.borrow().len() as u64;
        self.counts.max_entries = self.counts.max_entries.max(n);
        Ok(())
    }
    fn get(&mut self, m: usize, form: u8, k: &[u8]) -> Result<(), String> {
        let r = io("get", self.map(m)?.get(form, k))?;
        self.counts.compares += 1;
        let want = self.md(m).borrow().get(k).cloned();
        if let Some(mm) = self.hs.get_mut(&m).unwrap().mem.as_mut() {
            let q = io("memory get", mm.get(form, k))?;
            if q != r {
                return Err(format!("get({}): memory map returned {}, file map {}", fsck::short(k), so(&q), so(&r)));
            }
        }
        if r != want {
            return Err(format!("get({}) returned {}, expected {}", fsck::short(k), so(&r), so(&want)));
        }
        Ok(())
    }
    fn del(&mut self, m: usize, form: u8, k: &[u8]) -> Result<(), String> {
        let r = io("delete", self.map(m)?.del(form, k))?;
        self.counts.compares += 1;
        let want = self.md(m).borrow_mut().remove(k);
        if let Some(mm) = self.hs.get_mut(&m).unwrap().mem.as_mut() {
            let q = io("memory delete", mm.del(form, k))?;
            if q != r {
                return Err(format!("delete({}): memory map returned {}, file map {}", fsck::short(k), so(&q), so(&r)));
            }
        }
        if r != want {
            return Err(format!("delete({}) returned {}, expected {}", fsck::short(k), so(&r), so(&want)));
        }
        Ok(())
    }
    fn iter(&mut self, m: usize, form: u8, limit: usize) -> Result<(), String> {
        let r = self.map(m)?.iter(form, limit);
        self.counts.compares += 1;
        let md = self.md(m);
        let md = md.borrow();
        cmp_entries(&format!("iteration (form {form})"), &r, md.iter().take(limit), md.len().min(limit))
    }
    fn verify(&mut self, m: usize) -> Result<(), String> {
        self.iter(m, 0, usize::MAX)?;
        let keys: Vec<Vec<u8>> = self.md(m).borrow().keys().cloned().collect();
        let step = 1 + keys.len() / 150;
        for (i, k) in keys.iter().enumerate() {
            if i % step == 0 {
                self.get(m, (i % 4) as u8, k)?;
                // a near miss
                let mut q = k.clone();
                if let Some(b) = q.last_mut() {
                    *b ^= 1;
                }
                self.get(m, 1, &q)?;
            }
        }
        Ok(())
    }
    fn flush(&mut self, m: usize) -> Result<(), String> {
        io("flush", self.map(m)?.base().flush())
    }
    fn scan(&mut self, m: usize) -> Result<fsck::Scan, String> {
        let p = self.base_path(m);
        let s = fsck::scan(&p, &sig(self.hs[&m].id.1))?;
        self.counts.fscks += 1;
        self.counts.max_depth = self.counts.max_depth.max(s.depth());
        Ok(s)
    }
    fn open_ids(&self, db: usize) -> Vec<MapId> {
        self.hs.values().filter(|h| h.id.0 == db && h.map.is_some()).map(|h| h.id.clone()).collect::<BTreeSet<_>>().into_iter().collect()
    }
    /// nothing of these maps is only in the memory of the operating system
    fn durable(&self, ids: &[MapId]) -> Result<(), String> {
        for id in ids {
            for x in ["key", "val", "idx", "htx"] {
                let p = self.dir(id.0).join(format!("{}.{}", id.2, x));
                if crate::oswatch::unsynced(&p) {
                    return Err(format!("the sync returned, but what was written to {}.{} was never synced to the storage", id.2, x));
                }
            }
        }
        Ok(())
    }
    fn copy_dir(&mut self, db: usize) -> Result<PathBuf, String> {
        self.snapno += 1;
        let to = self.root.join(format!("snap{}", self.snapno));
        io("mkdir", std::fs::create_dir_all(&to))?;
        for e in io("readdir", std::fs::read_dir(self.dir(db)))? {
            let e = io("readdir", e)?;
            io("copy", fsck::copy_sparse(&e.path(), &to.join(e.file_name())))?;
        }
        Ok(to)
    }
    fn check_copy(&mut self, dir: &Path, id: &MapId, par: usize) -> Result<(), String> {
        let md = self.model[id].clone();
        let db = io("open copy", siamesedb::open_file(dir))?;
        let mut map = io("open map of the copy", open(&db, id.1, &id.2, par))?;
        let r = map.iter(0, usize::MAX);
        let md = md.borrow();
        self.counts.compares += 1;
        cmp_entries("the copied files", &r, md.iter(), md.len())?;
        for (i, (k, v)) in md.iter().enumerate() {
            if i % (1 + md.len() / 40) == 0 {
                let g = io("get on copy", map.get(1, k))?;
                if g.as_ref() != Some(v) {
                    return Err(format!("the copied files: get({}) returned {}", fsck::short(k), so(&g)));
                }
            }
        }
        Ok(())
    }

    pub fn step(&mut self, op: &Op) -> Result<(), String> {
        self.counts.ops += 1;
        match op {
            Op::Note(_) => Ok(()),
            Op::Open { m, db, kt, name, par } => {
                let id = (*db, *kt, name.clone());
                if self.hs.values().any(|h| h.id.0 == *db && h.id.2 == *name && h.id.1 != *kt) {
                    return Err("SKIP".into());
                }
                self.model.entry(id.clone()).or_default();
                self.hs.insert(*m, Handle { id, par: *par, map: None, mem: None });
                self.map(*m)?;
                Ok(())
            }
            Op::DropHandle { m } => {
                if let Some(h) = self.hs.get_mut(m) {
                    h.map = None;
                }
                Ok(())
            }
            Op::Reopen { db, par } => {
                self.counts.reopens += 1;
                for h in self.hs.values_mut() {
                    if h.id.0 == *db {
                        h.map = None;
                        h.par = *par;
                    }
                }
                self.dbs.remove(db);
                let mut ms: Vec<usize> = self.hs.iter().filter(|(_, h)| h.id.0 == *db).map(|(m, _)| *m).collect();
                ms.sort();
                for m in ms {
                    self.map(m)?;
                }
                Ok(())
            }
            Op::Mem { m } => {
                let id = match self.hs.get(m) {
                    None => return Err("SKIP".into()),
                    Some(h) => h.id.clone(),
                };
                let db = *self.memdb.get_or_insert_with(mem_db);
                let mut mm = open_mem(db, id.1, &format!("{}_{}", id.0, id.2));
                let fresh = self.mems.insert(id);
                for (k, v) in self.md(*m).borrow().iter() {
                    if fresh {
                        io("memory put", mm.put(1, k, v))?;
                    } else if io("memory get", mm.get(1, k))?.as_ref() != Some(v) {
                        return Err(format!("the memory map got again lacks {}", fsck::short(k)));
                    }
                }
                self.hs.get_mut(m).unwrap().mem = Some(mm);
                Ok(())
            }
            Op::Put { m, form, k, v } => self.put(*m, *form, &k.bytes(), &v.bytes()),
            Op::Get { m, form, k } => self.get(*m, *form, &k.bytes()),
            Op::Del { m, form, k } => self.del(*m, *form, &k.bytes()),
            Op::BPut { m, form, kv } => {
                let kv: Vec<KV> = kv.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect();
                io("bulk_put", self.map(*m)?.bput(*form, &kv))?;
                if let Some(mm) = self.hs.get_mut(m).unwrap().mem.as_mut() {
                    io("memory bulk_put", mm.bput(*form, &kv))?;
                }
                let md = self.md(*m);
                for (k, v) in kv {
                    md.borrow_mut().insert(k, v);
                }
                Ok(())
            }
            Op::BGet { m, form, k } => {
                let k: Vec<Vec<u8>> = k.iter().map(|k| k.bytes()).collect();
                let r = io("bulk_get", self.map(*m)?.bget(*form, &k))?;
                let md = self.md(*m);
                let want: Vec<_> = k.iter().map(|k| md.borrow().get(k).cloned()).collect();
                self.bulk_cmp(*m, "bulk_get", *form, &k, r, want)
            }
            Op::BDel { m, form, k } => {
                let k: Vec<Vec<u8>> = k.iter().map(|k| k.bytes()).collect();
                let r = io("bulk_delete", self.map(*m)?.bdel(*form, &k))?;
                let md = self.md(*m);
                let want: Vec<_> = k.iter().map(|k| md.borrow_mut().remove(k)).collect();
                self.bulk_cmp(*m, "bulk_delete", *form, &k, r, want)
            }
            Op::MPut { m, pool: p, n, from, to, ord, vl } => {
                let ks = pool(self.kt(*m)?, *p, *n);
                for i in order(*from, (*to).min(*n), *ord, *p) {
                    let l = if *vl == 0 { 0 } else { (i * 7 + *vl) % (2 * *vl) };
                    self.put(*m, 1, &ks[i], &Blob::Gen(l, i as u32 + *ord as u32).bytes())?;
                }
                Ok(())
            }
            Op::MDel { m, pool: p, n, from, to, ord } => {
                let ks = pool(self.kt(*m)?, *p, *n);
                for i in order(*from, (*to).min(*n), *ord, *p) {
                    self.del(*m, 1, &ks[i])?;
                }
                Ok(())
            }
            Op::MGet { m, pool: p, n, from, to, ord } => {
                let ks = pool(self.kt(*m)?, *p, *n);
                for i in order(*from, (*to).min(*n), *ord, *p) {
                    self.get(*m, 1, &ks[i])?;
                }
                Ok(())
            }
            Op::Iter { m, form } => self.iter(*m, *form, usize::MAX),
            Op::IterPart { m, form, n } => self.iter(*m, *form, *n),
            Op::Flush { m } => {
                self.mem_base(*m, 0)?;
                self.flush(*m)
            }
            Op::SyncAll { m } => {
                self.mem_base(*m, 1)?;
                io("sync_all", self.map(*m)?.base().sync_all())?;
                self.durable(&[self.hs[m].id.clone()])
            }
            Op::SyncData { m } => {
                self.mem_base(*m, 2)?;
                io("sync_data", self.map(*m)?.base().sync_data())?;
                self.durable(&[self.hs[m].id.clone()])
            }
            Op::Fill { m } => {
                self.mem_base(*m, 3)?;
                io("read_fill_buffer", self.map(*m)?.base().read_fill_buffer())
            }
            Op::DbSyncAll { db } => {
                io("db sync_all", self.db(*db)?.sync_all())?;
                self.durable(&self.open_ids(*db))
            }
            Op::DbSyncData { db } => {
                io("db sync_data", self.db(*db)?.sync_data())?;
                self.durable(&self.open_ids(*db))
            }
            Op::Snap { m, how, par } => {
                self.map(*m)?;
                let id = self.hs[m].id.clone();
                match how {
                    0 => io("flush", self.map(*m)?.base().flush())?,
                    1 => io("sync_all", self.map(*m)?.base().sync_all())?,
                    2 => io("sync_data", self.map(*m)?.base().sync_data())?,
                    3 => io("db sync_all", self.db(id.0)?.sync_all())?,
                    _ => io("db sync_data", self.db(id.0)?.sync_data())?,
                }
                self.counts.snaps += 1;
                let dir = self.copy_dir(id.0)?;
                let ids: Vec<MapId> = if *how >= 3 { self.open_ids(id.0) } else { vec![id] };
                if *how > 0 {
                    self.durable(&ids)?;
                }
                for id in ids {
                    self.check_copy(&dir, &id, *par)?;
                }
                let _ = std::fs::remove_dir_all(&dir);
                Ok(())
            }
            Op::Fsck { m, mask } => {
                self.flush(*m)?;
                let mut s = self.scan(*m)?;
                let md = self.md(*m);
                if mask & 2 != 0 {
                    s.check_areas(true, false)?;
                }
                if mask & 1 != 0 {
                    s.check_tree()?;
                }
                if mask & 4 != 0 {
                    s.check_areas(false, true)?;
                }
                if mask & 8 != 0 {
                    s.check_content(&md.borrow())?;
                }
                if mask & 48 != 0 {
                    let kt = self.kt(*m)?;
                    fsck::scan_htx(&mut s, &self.base_path(*m), &sig(kt))?;
                    if mask & 16 != 0 {
                        s.check_htx(&|k| hash(kt, k))?;
                    }
                }
                Ok(())
            }
            Op::Stats { m, htx } => self.stats(*m, *htx),
            Op::Checks { m } => {
                let (b, s, d, depth) = io("checks", self.map(*m)?.checks())?;
                if !(b && s && d) {
                    return Err(format!("is_balanced {b}, is_mst_valid {s}, is_dense {d}: all must be true"));
                }
                self.counts.max_depth = self.counts.max_depth.max(depth);
                let n = self.md(*m).borrow().len() as u64;
                // at least half full: at depth d there are at least 2*32^(d-1)-1 keys
                if depth >= 2 && n < 2 * 32u64.pow(depth as u32 - 1) - 1 {
                    return Err(format!("depth {depth} with only {n} keys"));
                }
                Ok(())
            }
            Op::Verify { m } => self.verify(*m),
            Op::GrowPut { m, k, v } => self.growput(*m, &k.bytes(), &v.bytes()),
            Op::Cycle { m, pool: p, n, rounds, vl } => self.cycle(*m, *p, *n, *rounds, *vl),
            Op::Clash { m } => self.clash(*m),
            Op::Corrupt { m, file, byte, xor } => self.corrupt(*m, *file, *byte, *xor),
            Op::KeyLaws { seed } => key_laws(*seed),
        }
    }
    fn mem_base(&mut self, m: usize, how: u8) -> Result<(), String> {
        if let Some(mm) = self.hs.get_mut(&m).and_then(|h| h.mem.as_mut()) {
            io(
                "memory map maintenance",
                match how {
                    0 => mm.base().flush(),
                    1 => mm.base().sync_all(),
                    2 => mm.base().sync_data(),
                    _ => mm.base().read_fill_buffer(),
                },
            )?;
        }
        Ok(())
    }
    fn bulk_cmp(&mut self, m: usize, what: &str, form: u8, k: &[Vec<u8>], r: Vec<Option<Vec<u8>>>, want: Vec<Option<Vec<u8>>>) -> Result<(), String> {
        self.counts.compares += 1;
        if let Some(mm) = self.hs.get_mut(&m).unwrap().mem.as_mut() {
            let q = io("memory bulk", if what == "bulk_get" { mm.bget(form, k) } else { mm.bdel(form, k) })?;
            if q != r {
                return Err(format!("{what}: the memory map and the file map return different results"));
            }
        }
        if r.len() != want.len() {
            return Err(format!("{what} returned {} results for {} requests", r.len(), want.len()));
        }
        for i in 0..r.len() {
            if r[i] != want[i] {
                return Err(format!("{what}: result {i} for key {} is {}, expected {}", fsck::short(&k[i]), so(&r[i]), so(&want[i])));
            }
        }
        Ok(())
    }
    fn sizes(&self, m: usize) -> Result<[u64; 3], String> {
        let p = self.base_path(m);
        let l = |e: &str| std::fs::metadata(fsck::ext_of(&p, e)).map(|m| m.len()).map_err(|e| e.to_string());
        Ok([l("idx")?, l("key")?, l("val")?])
    }
    fn growput(&mut self, m: usize, k: &[u8], v: &[u8]) -> Result<(), String> {
        self.flush(m)?;
        let a = self.scan(m)?;
        self.put(m, 1, k, v)?;
        self.flush(m)?;
        let b = self.scan(m)?;
        self.counts.compares += 1;
        for (what, live, fa, fb, la, lb) in
            [("key", b.keys.iter().map(|(o, r)| (*o, r.size)).collect::<Vec<_>>(), &a.free_key, &b.free_key, a.len_key, b.len_key), ("val", b.vals.iter().map(|(o, r)| (*o, r.size)).collect(), &a.free_val, &b.free_val, a.len_val, b.len_val)]
        {
            if lb <= la {
                continue;
            }
            for (o, s) in live {
                if o >= la {
                    let c = fsck::class_of(&fsck::REC_SIZES, s).unwrap_or(15);
                    let now: BTreeSet<_> = fb[c].iter().collect();
                    // for the list of large records a size up to `s` is needed
                    if let Some(f) = fa[c].iter().find(|f| f.1 >= s && now.contains(f)) {
                        return Err(format!("the .{what} file grew for a record of size {s} although the free record {:#x} of size {} was available", f.0, f.1));
                    }
                }
            }
        }
        Ok(())
    }
    fn cycle(&mut self, m: usize, p: u32, n: usize, rounds: usize, vl: usize) -> Result<(), String> {
        let ks = pool(self.kt(m)?, p, n);
        let mut hist = Vec::new();
        for k in ks.iter() {
            self.del(m, 1, k)?;
        }
        for _r in 0..rounds {
            for i in order(0, n, (p % 4) as u8, p) {
                self.put(m, 1, &ks[i], &Blob::Gen((i * 13) % (vl + 1), i as u32).bytes())?;
            }
            for i in order(0, n, (p / 4 % 4) as u8, p) {
                self.put(m, 1, &ks[i], &Blob::Gen((i * 29) % (vl + 1), i as u32).bytes())?;
            }
            for i in order(0, n, (p / 16 % 4) as u8, p + 1) {
                self.del(m, 1, &ks[i])?;
            }
            self.flush(m)?;
            hist.push(self.sizes(m)?);
        }
        self.counts.compares += 1;
        if rounds >= 5 {
            let l = hist.len();
            if hist[l - 1] != hist[l - 3] && hist[l - 1] != hist[l - 2] && hist[l - 2] != hist[l - 3] {
                return Err(format!("the files keep growing while the same cycle is repeated: idx/key/val lengths {:?}", hist));
            }
        }
        Ok(())
    }
    fn file_state(dir: &Path, name: &str) -> Result<Vec<(u64, Vec<(u64, u64)>)>, String> {
        let mut v = Vec::new();
        for e in ["idx", "key", "val", "htx"] {
            v.push(io("read", fsck::read_nonzero_u64s(&fsck::ext_of(&dir.join(name), e)))?);
        }
        Ok(v)
    }
    fn must_refuse(dir: &Path, kt: Kt, name: &str, what: &str) -> Result<(), String> {
        let before = Self::file_state(dir, name)?;
        let d = dir.to_path_buf();
        let n = name.to_string();
        let r = crate::quiet(move || {
            let db = siamesedb::open_file(&d)?;
            open(&db, kt, &n, 0).map(|_| ())
        });
        if let Ok(Ok(())) = r {
            return Err(format!("opening {what} was not refused"));
        }
        let after = Self::file_state(dir, name)?;
        if before != after {
            return Err(format!("refusing {what} modified the files"));
        }
        Ok(())
    }
    fn clash(&mut self, m: usize) -> Result<(), String> {
        self.flush(m)?;
        let id = self.hs[&m].id.clone();
        let dir = self.copy_dir(id.0)?;
        for kt in [Kt::Int, Kt::Str, Kt::Bytes] {
            if kt != id.1 {
                self.counts.compares += 1;
                Self::must_refuse(&dir, kt, &id.2, &format!("a {} map as a {} map", id.1, kt))?;
            }
        }
        // a fresh map must carry its signatures
        let mut s = fsck::scan(&dir.join(&id.2), &sig(id.1))?;
        fsck::scan_htx(&mut s, &dir.join(&id.2), &sig(id.1))?;
        self.check_copy(&dir, &id, 0)?;
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    }
    fn corrupt(&mut self, m: usize, file: u8, byte: u8, xor: u8) -> Result<(), String> {
        use std::os::unix::fs::FileExt;
        self.flush(m)?;
        let id = self.hs[&m].id.clone();
        let dir = self.copy_dir(id.0)?;
        let ext = ["idx", "key", "val", "htx"];
        let f = fsck::ext_of(&dir.join(&id.2), ext[file as usize % 4]);
        let what;
        if byte < 16 {
            let h = io("open", std::fs::OpenOptions::new().read(true).write(true).open(&f))?;
            let mut b = [0u8];
            io("read", h.read_exact_at(&mut b, byte as u64))?;
            b[0] ^= if xor == 0 { 1 } else { xor };
            io("write", h.write_all_at(&b, byte as u64))?;
            what = format!("a map whose .{} has a damaged signature byte {byte}", ext[file as usize % 4]);
        } else {
            let g = fsck::ext_of(&dir.join(&id.2), ext[(file as usize + 1 + byte as usize % 3) % 4]);
            io("copy", fsck::copy_sparse(&g, &f))?;
            what = format!("a map whose .{} is another kind of file", ext[file as usize % 4]);
        }
        self.counts.compares += 1;
        Self::must_refuse(&dir, id.1, &id.2, &what)?;
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    }
    fn stats(&mut self, m: usize, htx: bool) -> Result<(), String> {
        self.counts.stats += 1;
        let got = io("statistics", self.map(m)?.stats())?;
        let h = if htx { Some(io("htx statistics", self.map(m)?.htx())?) } else { None };
        self.flush(m)?;
        let mut s = self.scan(m)?;
        let cnt = |l: &Vec<Vec<(u64, u32)>>, sizes: &[u32]| -> Vec<(u32, u64)> { sizes.iter().zip(l.iter()).map(|(a, b)| (*a, b.len() as u64)).collect() };
        let used = |it: Vec<u32>, sizes: &[u32]| -> Vec<(u32, u64)> {
            let mut v: Vec<(u32, u64)> = sizes.iter().map(|s| (*s, 0)).collect();
            for s in it {
                let l = sizes.len() - 1;
                v[sizes.iter().position(|&x| x == s).unwrap_or(l)].1 += 1;
            }
            v
        };
        let hist = |it: Vec<u64>| -> String {
            let mut c: BTreeMap<u64, u64> = BTreeMap::new();
            for x in it {
                *c.entry(x).or_default() += 1;
            }
            format!("[{}]", c.iter().map(|(a, b)| format!("({a}, {b})")).collect::<Vec<_>>().join(", "))
        };
        let mut graph = String::new();
        let mut graph_keys = String::new();
        {
            let map = self.map(m)?;
            fn g(s: &fsck::Scan, off: u64, head: &str, a: &mut String, b: &mut String, map: &dyn AnyMap) {
                let n = s.node(off);
                *a += &format!("{}^:{:04x}\n", head, off);
                *b += &format!("{}^:0x{:04x},{}\n", head, off, n.size);
                let h2 = format!("{head}    ");
                if let Some(&d) = n.downs.last() {
                    g(s, d, &h2, a, b, map);
                }
                for i in (0..n.keys.len()).rev() {
                    *a += &format!("{}{:04x}\n", head, n.keys[i]);
                    *b += &format!("{}{:04x}:'{}'\n", head, n.keys[i], map.disp(&s.keys[&n.keys[i]].data));
                    if !n.downs.is_empty() {
                        g(s, n.downs[i], &h2, a, b, map);
                    }
                }
                *a += &format!("{}v\n", head);
                *b += &format!("{}v\n", head);
            }
            g(&s, s.top, "", &mut graph, &mut graph_keys, &*map);
        }
        let kv = |f: &dyn Fn(u64) -> u64| s.order.iter().map(|&o| f(o)).collect::<Vec<u64>>();
        let want = StatsOut {
            free_node: cnt(&s.free_idx, &fsck::NODE_SIZES),
            free_key: cnt(&s.free_key, &fsck::REC_SIZES),
            free_val: cnt(&s.free_val, &fsck::REC_SIZES),
            used: (
                used(s.keys.values().map(|r| r.size).collect(), &fsck::REC_SIZES),
                used(s.vals.values().map(|r| r.size).collect(), &fsck::REC_SIZES),
                used(s.nodes.iter().map(|n| n.size).collect(), &fsck::NODE_SIZES),
            ),
            key_piece: hist(kv(&|o| s.keys[&o].size as u64)),
            val_piece: hist(kv(&|o| s.vals[&s.keys[&o].val].size as u64)),
            keys_count: hist(s.nodes.iter().map(|n| n.keys.len() as u64).collect()),
            key_len: hist(kv(&|o| s.keys[&o].data.len() as u64)),
            val_len: hist(kv(&|o| s.vals[&s.keys[&o].val].data.len() as u64)),
            depth: s.depth(),
            balanced: true,
            mst: true,
            dense: true,
            graph,
            graph_keys,
        };
        self.counts.compares += 1;
        macro_rules! c {
            ($($f:ident),*) => { $( if got.$f != want.$f { return Err(format!("statistics: {} reports {:?}, a scan of the files gives {:?}", stringify!($f), got.$f, want.$f)); } )* };
        }
        c!(free_node, free_key, free_val, used, key_piece, val_piece, keys_count, key_len, val_len, depth, balanced, mst, dense, graph, graph_keys);
        if let Some(((size, count), (count2, mill))) = h {
            let kt = self.kt(m)?;
            fsck::scan_htx(&mut s, &self.base_path(m), &sig(kt))?;
            let n = s.slots.len() as u64;
            if size != s.ht_size || count != n || count2 != n || mill as u64 != n * 1000 / s.ht_size {
                return Err(format!("statistics: hash index ({size}, {count}), filling ({count2}, {mill}); a scan gives size {}, {n} slots in use", s.ht_size));
            }
        }
        Ok(())
    }
    pub fn close(mut self) -> Counts {
        self.hs.clear();
        self.dbs.clear();
        self.counts
    }
}

fn cmp_entries<'a>(what: &str, r: &[KV], want: impl Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)>, n: usize) -> Result<(), String> {
    for (i, (k, v)) in want.enumerate() {
        match r.get(i) {
            None => return Err(format!("{what}: {} entries, expected {n}", r.len())),
            Some((a, b)) => {
                if a != k {
                    return Err(format!("{what}: entry {i} has key {}, expected {}", fsck::short(a), fsck::short(k)));
                }
                if b != v {
                    return Err(format!("{what}: entry {i} (key {}) has value {}, expected {}", fsck::short(a), fsck::short(b), fsck::short(v)));
                }
            }
        }
    }
    if r.len() != n {
        return Err(format!("{what}: {} entries, expected {n}", r.len()));
    }
    Ok(())
}

fn key_laws(seed: u32) -> Result<(), String> {
    let mut x = (seed as u64 + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let mut nums = vec![0u64, 1, 255, 256, 65535, 65536, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1];
    for _ in 0..12 {
        let s = rnd() % 64;
        nums.push(rnd() >> s);
    }
    let mut strs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![255], vec![0x7f], vec![0x80], vec![255, 254], b"a".to_vec(), b"ab".to_vec(), b"a\0".to_vec()];
    for _ in 0..16 {
        let l = rnd() % 20;
        let alpha = rnd() % 3;
        strs.push((0..l).map(|_| if alpha == 0 { (rnd() % 3) as u8 } else { (rnd() >> 8) as u8 }).collect());
    }
    for w in 0..strs.len() / 2 {
        let mut v = strs[w].clone();
        v.push((rnd() >> 9) as u8);
        strs.push(v);
    }
    macro_rules! common {
        ($t:ty, $n:expr) => {
            for a in &strs {
                let ka = <$t>::from_bytes(a);
                if ka.as_bytes() != &a[..] {
                    return Err(format!("{}: from_bytes/as_bytes is not the identity on {}", $n, fsck::short(a)));
                }
                if <$t>::from(&a[..]).as_bytes() != &a[..] || <$t>::from(a.clone()).as_bytes() != &a[..] {
                    return Err(format!("{}: conversion from bytes changes {}", $n, fsck::short(a)));
                }
                if let Ok(s) = std::str::from_utf8(a) {
                    if <$t>::from(s).as_bytes() != &a[..] || <$t>::from(s.to_string()).as_bytes() != &a[..] || <$t>::from(&s.to_string()).as_bytes() != &a[..] {
                        return Err(format!("{}: conversion from a string changes {:?}", $n, s));
                    }
                }
                if <$t>::from(&ka) != ka || ka.clone() != ka {
                    return Err(format!("{}: copying changes a key", $n));
                }
                for b in &strs {
                    let kb = <$t>::from_bytes(b);
                    let o = a.cmp(b);
                    if ka.cmp_u8(b) != o || ka.cmp(&kb) != o || ka.partial_cmp(&kb) != Some(o) || (ka == kb) != (a == b) {
                        return Err(format!("{}: comparing {} with {} is not the byte order", $n, fsck::short(a), fsck::short(b)));
                    }
                    if a == b && ka.hash_value() != kb.hash_value() {
                        return Err(format!("{}: equal keys with different hashes", $n));
                    }
                }
            }
            for &a in &nums {
                let ka = <$t>::from(a);
                if ka.as_bytes() != a.to_be_bytes() || <$t>::from(&a) != ka {
                    return Err(format!("{}: {a} is not stored as its big-endian bytes", $n));
                }
                for &b in &nums {
                    let kb = <$t>::from(b);
                    if ka.cmp(&kb) != a.cmp(&b) || ka.cmp_u8(kb.as_bytes()) != a.cmp(&b) {
                        return Err(format!("{}: {a} and {b} do not order numerically", $n));
                    }
                }
            }
        };
    }
    common!(DbInt, "DbInt");
    common!(DbString, "DbString");
    common!(DbBytes, "DbBytes");
    let sigs = [DbInt::signature(), DbString::signature(), DbBytes::signature()];
    if sigs != [sig(Kt::Int), sig(Kt::Str), sig(Kt::Bytes)] {
        return Err("type signatures changed".into());
    }
    Ok(())
}
