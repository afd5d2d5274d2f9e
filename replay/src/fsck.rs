//! A reader of the raw files, written from the documented file format only (it shares no code with the library).
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub const NODE_SIZES: [u32; 8] = [256, 512, 1024, 2048, 4096, 4352, 4608, 4864];
pub const REC_SIZES: [u32; 16] = [16, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024];
pub const MAX_KEYS: usize = 63;
pub const MIN_KEYS: usize = 31;

pub struct Node {
    pub off: u64,
    pub size: u32,
    pub depth: usize,
    pub keys: Vec<u64>,
    pub downs: Vec<u64>,
}
pub struct Rec {
    pub size: u32,
    pub data: Vec<u8>,
    pub val: u64,
}
#[derive(Default)]
pub struct Scan {
    pub nodes: Vec<Node>,
    pub top: u64,
    pub leaf_depths: BTreeSet<usize>,
    /// key record offsets in tree order
    pub order: Vec<u64>,
    pub keys: BTreeMap<u64, Rec>,
    pub vals: BTreeMap<u64, Rec>,
    /// free lists per file: list index -> [(offset, size)]
    pub free_idx: Vec<Vec<(u64, u32)>>,
    pub free_key: Vec<Vec<(u64, u32)>>,
    pub free_val: Vec<Vec<(u64, u32)>>,
    pub len_idx: u64,
    pub len_key: u64,
    pub len_val: u64,
    pub htx_len: u64,
    pub ht_size: u64,
    pub slots: Vec<(u64, u64)>,
}

fn u16at(b: &[u8], o: usize) -> Result<u16, String> {
    b.get(o..o + 2).map(|s| u16::from_le_bytes([s[0], s[1]])).ok_or_else(|| format!("read beyond the end at {o}"))
}
fn u32at(b: &[u8], o: usize) -> Result<u32, String> {
    b.get(o..o + 4)
        .map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]))
        .ok_or_else(|| format!("read beyond the end at {o}"))
}
fn u64at(b: &[u8], o: usize) -> Result<u64, String> {
    let mut a = [0u8; 8];
    a.copy_from_slice(b.get(o..o + 8).ok_or_else(|| format!("read beyond the end at {o}"))?);
    Ok(u64::from_le_bytes(a))
}

pub fn class_of(sizes: &[u32], size: u32) -> Option<usize> {
    sizes.iter().position(|&s| s == size).or(if size > sizes[sizes.len() - 1] { Some(sizes.len() - 1) } else { None })
}

fn free_lists(b: &[u8], first: usize, sizes: &[u32], what: &str, node: bool) -> Result<Vec<Vec<(u64, u32)>>, String> {
    let mut all = Vec::new();
    let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
    for i in 0..sizes.len() {
        let mut v = Vec::new();
        let mut o = u64at(b, first + 8 * i)?;
        while o != 0 {
            if let Some(j) = seen.insert(o, i) {
                return Err(format!("{what}: free record {o:#x} reached twice (lists {j} and {i}): shared or cyclic"));
            }
            let (size, zero, next) = if node {
                (u32at(b, o as usize)? & 0xFFFF_FFFF, u32at(b, o as usize + 4)?, u64at(b, o as usize + 8)?)
            } else {
                (u32at(b, o as usize)?, u32at(b, o as usize + 4)?, u64at(b, o as usize + 8)?)
            };
            if zero != 0 {
                return Err(format!("{what}: free record {o:#x} looks like a live one (second word {zero})"));
            }
            match class_of(sizes, size) {
                Some(c) if c == i => {}
                _ => return Err(format!("{what}: free record {o:#x} of size {size} is on list {i} (class {})", sizes[i])),
            }
            v.push((o, size));
            o = next;
        }
        all.push(v);
    }
    Ok(all)
}

#[repr(C)]
struct Dummy;
extern "C" {
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}
const SEEK_DATA: i32 = 3;
const SEEK_HOLE: i32 = 4;

/// ranges of the file that hold data
pub fn data_ranges(f: &std::fs::File) -> std::io::Result<Vec<(u64, u64)>> {
    use std::os::unix::io::AsRawFd;
    let _ = Dummy;
    let len = f.metadata()?.len();
    let mut v = Vec::new();
    let mut pos = 0u64;
    while pos < len {
        let a = unsafe { lseek(f.as_raw_fd(), pos as i64, SEEK_DATA) };
        if a < 0 {
            break;
        }
        let b = unsafe { lseek(f.as_raw_fd(), a, SEEK_HOLE) };
        let b = if b < 0 { len } else { (b as u64).min(len) };
        v.push((a as u64, b));
        pos = b;
    }
    Ok(v)
}

pub fn copy_sparse(from: &Path, to: &Path) -> std::io::Result<()> {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::open(from)?;
    let t = std::fs::File::create(to)?;
    t.set_len(f.metadata()?.len())?;
    let mut buf = vec![0u8; 1 << 17];
    for (a, b) in data_ranges(&f)? {
        let mut p = a;
        while p < b {
            let n = ((b - p) as usize).min(buf.len());
            f.read_exact_at(&mut buf[..n], p)?;
            if buf[..n].iter().any(|&x| x != 0) {
                t.write_all_at(&buf[..n], p)?;
            }
            p += n as u64;
        }
    }
    Ok(())
}

pub fn read_nonzero_u64s(path: &Path) -> std::io::Result<(u64, Vec<(u64, u64)>)> {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::open(path)?;
    let len = f.metadata()?.len();
    let mut v = Vec::new();
    let mut buf = vec![0u8; 1 << 17];
    for (a, b) in data_ranges(&f)? {
        let mut p = a & !7;
        while p < b {
            let n = ((b - p) as usize).min(buf.len());
            f.read_exact_at(&mut buf[..n], p)?;
            for (i, c) in buf[..n].chunks(8).enumerate() {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                let x = u64::from_le_bytes(w);
                if x != 0 {
                    v.push((p + 8 * i as u64, x));
                }
            }
            p += n as u64;
        }
    }
    Ok((len, v))
}

pub fn scan(base: &Path, sig2: &[u8; 8]) -> Result<Scan, String> {
    let rd = |ext: &str| std::fs::read(ext_of(base, ext)).map_err(|e| format!("cannot read .{ext}: {e}"));
    let idx = rd("idx")?;
    let key = rd("key")?;
    let val = rd("val")?;
    for (b, n, s1) in [(&idx, "idx", b"siamdbT\0"), (&key, "key", b"siamdbK\0"), (&val, "val", b"siamdbV\0")] {
        if b.get(0..8) != Some(&s1[..]) {
            return Err(format!("header: .{n} has file signature {:?}", b.get(0..8)));
        }
        if b.get(8..16) != Some(&sig2[..]) {
            return Err(format!("header: .{n} has type signature {:?}", b.get(8..16)));
        }
    }
    let mut s = Scan { len_idx: idx.len() as u64, len_key: key.len() as u64, len_val: val.len() as u64, ..Default::default() };
    s.top = u64at(&idx, 16)?;
    // tree
    let mut seen = BTreeSet::new();
    fn walk(s: &mut Scan, b: &[u8], off: u64, depth: usize, seen: &mut BTreeSet<u64>) -> Result<(), String> {
        if !seen.insert(off) {
            return Err(format!("tree: node {off:#x} reached twice"));
        }
        if depth > 40 {
            return Err("tree: too deep".into());
        }
        let o = off as usize;
        let size = u16at(b, o)? as u32;
        let is_leaf = u16at(b, o + 2)?;
        let n = u16at(b, o + 4)? as usize;
        if is_leaf > 1 {
            return Err(format!("tree: node {off:#x} has is_leaf {is_leaf}"));
        }
        let mut keys = Vec::new();
        for i in 0..n {
            keys.push(u64at(b, o + 6 + 8 * i)?);
        }
        let mut downs = Vec::new();
        let mut used = 6 + 8 * n;
        if is_leaf == 0 {
            for i in 0..=n {
                downs.push(u64at(b, o + 6 + 8 * n + 8 * i)?);
            }
            used += 8 * (n + 1);
        }
        if used as u32 > size {
            return Err(format!("overlap: node {off:#x} needs {used} bytes but has {size}"));
        }
        let leaf = downs.iter().all(|&d| d == 0);
        if leaf {
            s.leaf_depths.insert(depth);
        } else if downs.iter().any(|&d| d == 0) {
            return Err(format!("tree: node {off:#x} has a missing child"));
        }
        let d2 = downs.clone();
        s.nodes.push(Node { off, size, depth, keys: keys.clone(), downs: if leaf { vec![] } else { downs } });
        for i in 0..=n {
            if !leaf {
                walk(s, b, d2[i], depth + 1, seen)?;
            }
            if i < n {
                s.order.push(keys[i]);
            }
        }
        Ok(())
    }
    let top = s.top;
    walk(&mut s, &idx, top, 0, &mut seen)?;
    // records
    for &k in &s.order {
        let o = k as usize;
        let size = u32at(&key, o)?;
        let len = u32at(&key, o + 4)? as usize;
        let data = key.get(o + 8..o + 8 + len).ok_or(format!("content: key {k:#x} reaches beyond the end"))?.to_vec();
        let v = u64at(&key, o + 8 + len)?;
        if (len + 16) as u64 > size as u64 {
            return Err(format!("overlap: key record {k:#x} of size {size} holds {len} key bytes"));
        }
        if s.keys.insert(k, Rec { size, data, val: v }).is_some() {
            return Err(format!("tree: key record {k:#x} is referred to twice"));
        }
        let o = v as usize;
        let size = u32at(&val, o)?;
        let len = u32at(&val, o + 4)? as usize;
        let data = val.get(o + 8..o + 8 + len).ok_or(format!("content: value {v:#x} reaches beyond the end"))?.to_vec();
        if (len + 8) as u64 > size as u64 {
            return Err(format!("overlap: value record {v:#x} of size {size} holds {len} bytes"));
        }
        if s.vals.insert(v, Rec { size, data, val: 0 }).is_some() {
            return Err(format!("overlap: value record {v:#x} is referred to twice"));
        }
    }
    s.free_idx = free_lists(&idx, 24, &NODE_SIZES, "overlap: .idx", true)?;
    s.free_key = free_lists(&key, 32, &REC_SIZES, "overlap: .key", false)?;
    s.free_val = free_lists(&val, 32, &REC_SIZES, "overlap: .val", false)?;
    Ok(s)
}

pub fn scan_htx(s: &mut Scan, base: &Path, sig2: &[u8; 8]) -> Result<(), String> {
    let (len, words) = read_nonzero_u64s(&ext_of(base, "htx")).map_err(|e| format!("cannot read .htx: {e}"))?;
    s.htx_len = len;
    let w = |o: u64| words.iter().find(|&&(p, _)| p == o).map(|&(_, x)| x).unwrap_or(0);
    if w(0) != u64::from_le_bytes(*b"siamdbH\0") {
        return Err("header: .htx has another file signature".into());
    }
    if w(8) != u64::from_le_bytes(*sig2) {
        return Err("header: .htx has another type signature".into());
    }
    s.ht_size = w(16);
    if s.ht_size == 0 || 128 + 8 * s.ht_size > len {
        return Err(format!("htx: table size {} does not fit the file of {len} bytes", s.ht_size));
    }
    for &(p, x) in &words {
        if p >= 128 {
            let slot = (p - 128) / 8;
            if slot >= s.ht_size {
                return Err(format!("htx: data behind the table at {p:#x}"));
            }
            s.slots.push((slot, x));
        }
    }
    Ok(())
}

fn tiles(what: &str, header: u64, len: u64, live: &[(u64, u32)], free: &[Vec<(u64, u32)>], sizes: &[u32], leak: bool, overlap: bool) -> Result<(), String> {
    let mut all: Vec<(u64, u32, bool)> = live.iter().map(|&(o, s)| (o, s, true)).collect();
    for l in free {
        all.extend(l.iter().map(|&(o, s)| (o, s, false)));
    }
    all.sort();
    let mut end = header;
    for (o, s, l) in all {
        let k = if l { "live" } else { "free" };
        if overlap {
            if o < end {
                return Err(format!("overlap: .{what}: {k} record {o:#x} (size {s}) starts before {end:#x}"));
            }
            if o % 8 != 0 {
                return Err(format!("overlap: .{what}: {k} record {o:#x} is not aligned"));
            }
            if class_of(sizes, s).is_none() || s % 8 != 0 {
                return Err(format!("overlap: .{what}: {k} record {o:#x} has size {s}"));
            }
            if o + s as u64 > len {
                return Err(format!("overlap: .{what}: {k} record {o:#x} (size {s}) reaches beyond the end {len:#x}"));
            }
        }
        if leak && o > end {
            return Err(format!("leak: .{what}: {} bytes at {end:#x} are neither live nor free", o - end));
        }
        end = end.max(o + s as u64);
    }
    if leak && end < len {
        return Err(format!("leak: .{what}: {} bytes at the end ({end:#x}..{len:#x}) are neither live nor free", len - end));
    }
    Ok(())
}

impl Scan {
    pub fn check_tree(&self) -> Result<(), String> {
        if self.leaf_depths.len() > 1 {
            return Err(format!("tree: leaves at depths {:?}", self.leaf_depths));
        }
        for n in &self.nodes {
            if n.keys.len() > MAX_KEYS {
                return Err(format!("tree: node {:#x} holds {} keys", n.off, n.keys.len()));
            }
            if n.off != self.top && n.keys.len() < MIN_KEYS {
                return Err(format!("tree: node {:#x} at depth {} holds only {} keys", n.off, n.depth, n.keys.len()));
            }
            if n.off == self.top && !n.downs.is_empty() && n.keys.is_empty() {
                return Err("tree: inner root without a key".into());
            }
        }
        for w in self.order.windows(2) {
            if self.keys[&w[0]].data >= self.keys[&w[1]].data {
                return Err(format!("tree: keys not ascending: {:?} then {:?}", self.keys[&w[0]].data, self.keys[&w[1]].data));
            }
        }
        Ok(())
    }
    pub fn check_areas(&self, overlap: bool, leak: bool) -> Result<(), String> {
        let n: Vec<_> = self.nodes.iter().map(|n| (n.off, n.size)).collect();
        tiles("idx", 128, self.len_idx, &n, &self.free_idx, &NODE_SIZES, leak, overlap)?;
        let k: Vec<_> = self.keys.iter().map(|(o, r)| (*o, r.size)).collect();
        tiles("key", 192, self.len_key, &k, &self.free_key, &REC_SIZES, leak, overlap)?;
        let v: Vec<_> = self.vals.iter().map(|(o, r)| (*o, r.size)).collect();
        tiles("val", 192, self.len_val, &v, &self.free_val, &REC_SIZES, leak, overlap)
    }
    pub fn check_content(&self, model: &BTreeMap<Vec<u8>, Vec<u8>>) -> Result<(), String> {
        if self.order.len() != model.len() {
            return Err(format!("content: {} entries in the files, {} expected", self.order.len(), model.len()));
        }
        for r in self.keys.values() {
            match model.get(&r.data) {
                None => return Err(format!("content: unexpected key {:?}", short(&r.data))),
                Some(v) => {
                    if *v != self.vals[&r.val].data {
                        return Err(format!("content: wrong value for key {:?}", short(&r.data)));
                    }
                }
            }
        }
        Ok(())
    }
    pub fn check_htx(&self, hash: &dyn Fn(&[u8]) -> u64) -> Result<(), String> {
        for &(slot, off) in &self.slots {
            match self.keys.get(&off) {
                None => return Err(format!("htx: slot {slot} refers to {off:#x}, which is no live key record")),
                Some(r) => {
                    if hash(&r.data) % self.ht_size != slot {
                        return Err(format!("htx: slot {slot} refers to key {:?}, whose hash selects another slot", short(&r.data)));
                    }
                }
            }
        }
        Ok(())
    }
    pub fn depth(&self) -> u64 {
        self.nodes.iter().map(|n| n.depth as u64 + 1).max().unwrap_or(0)
    }
    pub fn node(&self, off: u64) -> &Node {
        self.nodes.iter().find(|n| n.off == off).unwrap()
    }
}
pub fn short(v: &[u8]) -> String {
    if v.len() > 24 {
        format!("{:02x?}.. ({} bytes)", &v[..24], v.len())
    } else {
        format!("{:02x?}", v)
    }
}

/// the file of a map: its name may have dots of its own
pub fn ext_of(p: &Path, e: &str) -> PathBuf {
    let mut n = p.file_name().unwrap().to_os_string();
    n.push(".");
    n.push(e);
    p.with_file_name(n)
}
