//! One interface over the three file map types and the three memory map types.
use crate::script::Kt;
use siamesedb::filedb::{CheckFileDbMap, FileBufSizeParam, FileDb, FileDbParams};
use siamesedb::{DbBytes, DbInt, DbMap, DbMapKeyType, DbString, DbXxx, DbXxxBase, DbXxxObjectSafe, HashValue};
use std::io::Result;

pub type KV = (Vec<u8>, Vec<u8>);

pub trait BasicMap {
    fn get(&mut self, form: u8, k: &[u8]) -> Result<Option<Vec<u8>>>;
    fn put(&mut self, form: u8, k: &[u8], v: &[u8]) -> Result<()>;
    fn del(&mut self, form: u8, k: &[u8]) -> Result<Option<Vec<u8>>>;
    fn bget(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>>;
    fn bput(&mut self, form: u8, kv: &[KV]) -> Result<()>;
    fn bdel(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>>;
    fn base(&mut self) -> &mut dyn DbXxxBase;
}
#[derive(Debug, PartialEq)]
pub struct StatsOut {
    pub free_node: Vec<(u32, u64)>,
    pub free_key: Vec<(u32, u64)>,
    pub free_val: Vec<(u32, u64)>,
    pub used: (Vec<(u32, u64)>, Vec<(u32, u64)>, Vec<(u32, u64)>),
    pub key_piece: String,
    pub val_piece: String,
    pub keys_count: String,
    pub key_len: String,
    pub val_len: String,
    pub depth: u64,
    pub balanced: bool,
    pub mst: bool,
    pub dense: bool,
    pub graph: String,
    pub graph_keys: String,
}
pub trait AnyMap: BasicMap {
    fn iter(&mut self, form: u8, limit: usize) -> Vec<KV>;
    fn stats(&self) -> Result<StatsOut>;
    fn checks(&self) -> Result<(bool, bool, bool, u64)>;
    fn htx(&self) -> Result<((u64, u64), (u64, u32))>;
    fn dirty(&self) -> bool;
    fn disp(&self, k: &[u8]) -> String;
}

/// forms: 0 natural query type; 1 raw bytes; 2 key object (_kt); 3 string value functions
/// (the value functions only when value is UTF-8)
macro_rules! basic {
    ($t:ty, $kt:ty, [$($lt:tt)*], $nat:ident) => {
        impl $($lt)* BasicMap for $t {
            fn get(&mut self, form: u8, k: &[u8]) -> Result<Option<Vec<u8>>> {
                match form {
                    0 => $nat!(k, q, DbXxx::<$kt>::get(self, q)),
                    2 => DbXxxObjectSafe::<$kt>::get_kt(self, &<$kt>::from_bytes(k)),
                    3 => {
                        let s: Option<String> = $nat!(k, q, DbXxx::<$kt>::get_string(self, q))?;
                        let b = DbXxx::<$kt>::get(self, k)?;
                        let want = b.as_ref().map(|v| String::from_utf8_lossy(v).to_string());
                        if s != want { panic!("get_string differs from get"); }
                        Ok(b)
                    }
                    _ => DbXxx::<$kt>::get(self, k),
                }
            }
            fn put(&mut self, form: u8, k: &[u8], v: &[u8]) -> Result<()> {
                match form {
                    0 => $nat!(k, q, DbXxx::<$kt>::put(self, q, v)),
                    2 => DbXxxObjectSafe::<$kt>::put_kt(self, &<$kt>::from_bytes(k), v),
                    3 => match std::str::from_utf8(v) {
                        Ok(s) => $nat!(k, q, DbXxx::<$kt>::put_string(self, q, s)),
                        Err(_) => DbXxx::<$kt>::put(self, k, v),
                    },
                    _ => DbXxx::<$kt>::put(self, k, v),
                }
            }
            fn del(&mut self, form: u8, k: &[u8]) -> Result<Option<Vec<u8>>> {
                match form {
                    0 => $nat!(k, q, DbXxx::<$kt>::delete(self, q)),
                    2 => DbXxxObjectSafe::<$kt>::del_kt(self, &<$kt>::from_bytes(k)),
                    3 => {
                        let b = DbXxx::<$kt>::get(self, k)?;
                        let want = b.as_ref().map(|v| String::from_utf8_lossy(v).to_string());
                        let s: Option<String> = $nat!(k, q, DbXxx::<$kt>::delete_string(self, q))?;
                        if s != want { panic!("delete_string differs from get"); }
                        Ok(b)
                    }
                    _ => DbXxx::<$kt>::delete(self, k),
                }
            }
            fn bget(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>> {
                if form == 3 {
                    let q: Vec<&[u8]> = k.iter().map(|v| v.as_slice()).collect();
                    let r = DbXxx::<$kt>::bulk_get(self, &q)?;
                    let s = DbXxx::<$kt>::bulk_get_string(self, &q)?;
                    let w: Vec<Option<String>> = r.iter().map(|o| o.as_ref().map(|v| String::from_utf8_lossy(v).to_string())).collect();
                    if s != w { panic!("bulk_get_string differs from bulk_get"); }
                    return Ok(r);
                }
                bulkq!($nat, form, k, q, DbXxx::<$kt>::bulk_get(self, &q))
            }
            fn bput(&mut self, form: u8, kv: &[KV]) -> Result<()> {
                if form == 3 && kv.iter().all(|(_, v)| std::str::from_utf8(v).is_ok()) {
                    let q: Vec<(&[u8], String)> = kv.iter().map(|(k, v)| (k.as_slice(), String::from_utf8(v.clone()).unwrap())).collect();
                    return DbXxx::<$kt>::bulk_put_string(self, &q);
                }
                let ks: Vec<Vec<u8>> = kv.iter().map(|x| x.0.clone()).collect();
                bulkq!($nat, form, ks, q, {
                    let p: Vec<_> = q.into_iter().zip(kv.iter()).map(|(a, b)| (a, b.1.as_slice())).collect();
                    DbXxx::<$kt>::bulk_put(self, &p)
                })
            }
            fn bdel(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>> {
                if form == 3 {
                    let q: Vec<&[u8]> = k.iter().map(|v| v.as_slice()).collect();
                    // values read as strings: only exact for UTF-8; fetch the bytes first
                    let before: Vec<Option<Vec<u8>>> = DbXxx::<$kt>::bulk_get(self, &q)?;
                    let s = DbXxx::<$kt>::bulk_delete_string(self, &q)?;
                    let mut seen = std::collections::BTreeSet::new();
                    let mut r = Vec::new();
                    for (i, o) in before.into_iter().enumerate() {
                        r.push(if seen.insert(k[i].clone()) { o } else { None });
                    }
                    let w: Vec<Option<String>> = r.iter().map(|o| o.as_ref().map(|v| String::from_utf8_lossy(v).to_string())).collect();
                    if s != w { panic!("bulk_delete_string differs from single deletes"); }
                    return Ok(r);
                }
                bulkq!($nat, form, k, q, DbXxx::<$kt>::bulk_delete(self, &q))
            }
            fn base(&mut self) -> &mut dyn DbXxxBase { self }
        }
    };
}
macro_rules! nat_int {
    ($k:expr, $q:ident, $e:expr) => {
        if $k.len() == 8 {
            let mut a = [0u8; 8];
            a.copy_from_slice(&$k[..]);
            let n = u64::from_be_bytes(a);
            let $q = &n;
            $e
        } else {
            let $q: &[u8] = &$k[..];
            $e
        }
    };
}
macro_rules! nat_str {
    ($k:expr, $q:ident, $e:expr) => {
        match std::str::from_utf8(&$k[..]) {
            Ok($q) => $e,
            Err(_) => {
                let $q: &[u8] = &$k[..];
                $e
            }
        }
    };
}
macro_rules! nat_bytes {
    ($k:expr, $q:ident, $e:expr) => {{
        let $q: &[u8] = &$k[..];
        $e
    }};
}
macro_rules! bulkq {
    (nat_int, $form:expr, $k:expr, $q:ident, $e:expr) => {
        if $form == 0 && $k.iter().all(|x| x.len() == 8) {
            let ns: Vec<u64> = $k.iter().map(|x| { let mut a = [0u8; 8]; a.copy_from_slice(x); u64::from_be_bytes(a) }).collect();
            let $q: Vec<&u64> = ns.iter().collect();
            $e
        } else {
            let $q: Vec<&[u8]> = $k.iter().map(|v| v.as_slice()).collect();
            $e
        }
    };
    (nat_str, $form:expr, $k:expr, $q:ident, $e:expr) => {
        if $form == 0 && $k.iter().all(|x| std::str::from_utf8(x).is_ok()) {
            let $q: Vec<&str> = $k.iter().map(|x| std::str::from_utf8(x).unwrap()).collect();
            $e
        } else {
            let $q: Vec<&[u8]> = $k.iter().map(|v| v.as_slice()).collect();
            $e
        }
    };
    (nat_bytes, $form:expr, $k:expr, $q:ident, $e:expr) => {{
        let $q: Vec<&[u8]> = $k.iter().map(|v| v.as_slice()).collect();
        $e
    }};
}
macro_rules! file {
    ($t:ty, $kt:ty) => {
        impl AnyMap for $t {
            fn iter(&mut self, form: u8, limit: usize) -> Vec<KV> {
                let c = |(k, v): ($kt, Vec<u8>)| (k.as_bytes().to_vec(), v);
                match form {
                    0 => DbMap::<$kt>::iter(self).take(limit).map(c).collect(),
                    1 => DbMap::<$kt>::iter_mut(self).take(limit).map(c).collect(),
                    2 => (&*self).into_iter().take(limit).map(c).collect(),
                    3 => (&mut *self).into_iter().take(limit).map(c).collect(),
                    _ => self.clone().into_iter().take(limit).map(c).collect(),
                }
            }
            fn stats(&self) -> Result<StatsOut> {
                Ok(StatsOut {
                    free_node: self.count_of_free_node()?,
                    free_key: self.count_of_free_key_piece()?,
                    free_val: self.count_of_free_value_piece()?,
                    used: self.count_of_used_node()?,
                    key_piece: self.key_piece_size_stats()?.to_string(),
                    val_piece: self.value_piece_size_stats()?.to_string(),
                    keys_count: self.keys_count_stats()?.to_string(),
                    key_len: self.key_length_stats()?.to_string(),
                    val_len: self.value_length_stats()?.to_string(),
                    depth: self.depth_of_node_tree()?,
                    balanced: self.is_balanced()?,
                    mst: self.is_mst_valid()?,
                    dense: self.is_dense()?,
                    graph: self.graph_string()?,
                    graph_keys: self.graph_string_with_key_string()?,
                })
            }
            fn checks(&self) -> Result<(bool, bool, bool, u64)> {
                Ok((self.is_balanced()?, self.is_mst_valid()?, self.is_dense()?, self.depth_of_node_tree()?))
            }
            fn htx(&self) -> Result<((u64, u64), (u64, u32))> {
                Ok((self.ht_size_and_count()?, self.htx_filling_rate_per_mill()?))
            }
            fn dirty(&self) -> bool { self.is_dirty() }
            fn disp(&self, k: &[u8]) -> String { <$kt>::from_bytes(k).to_string() }
        }
    };
}
use siamesedb::filedb::{FileDbMapDbBytes, FileDbMapDbInt, FileDbMapDbString};
use siamesedb::memdb::{MemoryDb, MemoryDbMapDbBytes, MemoryDbMapDbInt, MemoryDbMapDbString};
basic!(FileDbMapDbInt, DbInt, [], nat_int);
basic!(FileDbMapDbString, DbString, [], nat_str);
basic!(FileDbMapDbBytes, DbBytes, [], nat_bytes);
basic!(MemoryDbMapDbInt<'a>, DbInt, [<'a>], nat_int);
basic!(MemoryDbMapDbString<'a>, DbString, [<'a>], nat_str);
basic!(MemoryDbMapDbBytes<'a>, DbBytes, [<'a>], nat_bytes);
file!(FileDbMapDbInt, DbInt);
file!(FileDbMapDbString, DbString);
file!(FileDbMapDbBytes, DbBytes);

pub fn params(p: usize) -> FileDbParams {
    use FileBufSizeParam::*;
    let f = |v, k, i, h| FileDbParams { val_buf_size: v, key_buf_size: k, idx_buf_size: i, htx_buf_size: h };
    match p {
        1 => f(Size(1 << 18), Size(1 << 18), Size(1 << 18), Size(1 << 18)),
        2 => f(Size(1 << 20), Size(1 << 19), Size(1 << 18), Size(1 << 19)),
        3 => f(PerMille(100), PerMille(100), PerMille(100), PerMille(100)),
        4 => f(PerMille(1000), PerMille(1000), PerMille(1000), PerMille(1000)),
        5 => f(Size(1), Size(1), Size(1), Size(1)),
        6 => f(Auto, Auto, Auto, Auto),
        7 => f(PerMille(1), Size(4096), Auto, PerMille(10)),
        8 => f(Size(0), PerMille(0), PerMille(1), Size(0)),
        9 => f(Size(1 << 16), Size(1 << 17), Size((1 << 18) - 1), PerMille(999)),
        10 => f(Auto, PerMille(1000), Size(1 << 17), PerMille(500)),
        _ => FileDbParams::default(),
    }
}
pub const NPARAMS: usize = 11;

pub fn open(db: &FileDb, kt: Kt, name: &str, par: usize) -> Result<Box<dyn AnyMap>> {
    Ok(match (kt, par) {
        (Kt::Int, 0) => Box::new(db.db_map_int(name)?),
        (Kt::Str, 0) => Box::new(db.db_map_string(name)?),
        (Kt::Bytes, 0) => Box::new(db.db_map_bytes(name)?),
        (Kt::Int, _) => Box::new(db.db_map_int_with_params(name, params(par))?),
        (Kt::Str, _) => Box::new(db.db_map_string_with_params(name, params(par))?),
        (Kt::Bytes, _) => Box::new(db.db_map_bytes_with_params(name, params(par))?),
    })
}
pub fn mem_db() -> &'static MemoryDb<'static> {
    Box::leak(Box::new(siamesedb::open_memory()))
}
pub fn open_mem(db: &'static MemoryDb<'static>, kt: Kt, name: &str) -> Box<dyn BasicMap> {
    match kt {
        Kt::Int => Box::new(db.db_map_dbint(name)),
        Kt::Str => Box::new(db.db_map_string(name)),
        Kt::Bytes => Box::new(db.db_map_bytes(name)),
    }
}
pub fn hash(kt: Kt, k: &[u8]) -> u64 {
    match kt {
        Kt::Int => DbInt::from_bytes(k).hash_value(),
        Kt::Str => DbString::from_bytes(k).hash_value(),
        Kt::Bytes => DbBytes::from_bytes(k).hash_value(),
    }
}
pub fn sig(kt: Kt) -> [u8; 8] {
    match kt {
        Kt::Int => *b"uint64\0\0",
        Kt::Str => *b"string\0\0",
        Kt::Bytes => *b"bytes\0\0\0",
    }
}
