//@ include head.rs
verus! {
//@ include base.rs
//@ nogenerics on
//@ vecloops on
// ---------------------------------------------------------------- names, directories, parameters (by contract)
#[verifier::external_body]
pub struct Pth { _p: Vec<u8> }
/// any type that names a path
pub type P<'a> = &'a Pth;
#[verifier::external_body]
pub struct Path { _p: Vec<u8> }
#[verifier::external_body]
pub struct PathBuf { _p: Vec<u8> }
pub uninterp spec fn p_dir(p: &Pth) -> Seq<u8>;
pub uninterp spec fn path_dir(p: &Path) -> Seq<u8>;
pub uninterp spec fn buf_dir(p: &PathBuf) -> Seq<u8>;
impl Pth {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Path) ensures path_dir(r) == p_dir(self), { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures buf_dir(&r) == path_dir(self), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures path_dir(r) == buf_dir(self), { unimplemented!() }
}
#[verifier::external_body]
pub fn vmkdir(p: &Path) -> (r: Result<()>) { unimplemented!() }
pub enum FileBufSizeParam { Size(u32), PerMille(u16), Auto }
pub struct FileDbParams { pub val_buf_size: FileBufSizeParam, pub key_buf_size: FileBufSizeParam, pub idx_buf_size: FileBufSizeParam, pub htx_buf_size: FileBufSizeParam }
impl Default for FileDbParams {
    // the values only size buffers (C16)
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
// ---------------------------------------------------------------- an open map and the handles to it
/// an open map: which one it is (no two that were opened are the same), and the files it was opened on
pub struct FileDbXxxInner { pub id: Ghost<int>, pub dir: Ghost<Seq<u8>>, pub name: Ghost<Seq<char>> }
impl FileDbXxxInner {
    // unit hdr: the four files are those of this name in this directory
    #[verifier::external_body]
    pub fn open_with_params(path: &Path, ks_name: &str, params: FileDbParams) -> (ret: Result<FileDbXxxInner>)
        ensures ret is Ok ==> ret->Ok_0.dir@ == path_dir(path) && ret->Ok_0.name@ == ks_name@,
    { unimplemented!() }
}
//@ file src/filedb/dbmap/mod.rs
//@ derives FileDbMap Clone
/// a handle (in the source a shared pointer to the open map; the clone derived for it points to the same)
pub struct FileDbMap(pub FileDbXxxInner);
impl Clone for FileDbMap {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
/// sync_all (sync_data) of this map returned without an error; what that promises: unit dur
pub uninterp spec fn synced(m: FileDbMap, all: bool) -> bool;
impl FileDbMap {
    #[verifier::external_body]
    pub fn sync_all(&mut self) -> (r: Result<()>) ensures *final(self) == *old(self), r is Ok ==> synced(*old(self), true), { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_data(&mut self) -> (r: Result<()>) ensures *final(self) == *old(self), r is Ok ==> synced(*old(self), false), { unimplemented!() }
}
pub type FileDbMapDbBytes = FileDbMap;
pub type FileDbMapDbInt = FileDbMap;
pub type FileDbMapDbString = FileDbMap;
/// h is the open map of this name in this directory
pub open spec fn is_map(h: FileDbMap, dir: Seq<u8>, name: Seq<char>) -> bool { h.0.dir@ == dir && h.0.name@ == name }
impl FileDbMap {
//@ dropgen FileDbMap FileDbXxxInner
//@ fn FileDbMap::open
//@ sig pub fn open(path: &Path, ks_name: &str, params: FileDbParams) -> (ret: Result<FileDbMap>)
    ensures ret is Ok ==> is_map(ret->Ok_0, path_dir(path), ks_name@), // C13
//@ end
}
// ---------------------------------------------------------------- std: ordered map with text keys
pub struct BTreeMap { pub m: Ghost<Map<Seq<char>, FileDbMap>> }
impl BTreeMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m@ == Map::<Seq<char>, FileDbMap>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&FileDbMap>)
        ensures r is Some == self.m@.dom().contains(k@), r is Some ==> *r->Some_0 == self.m@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: FileDbMap) -> (r: Option<FileDbMap>)
        ensures final(self).m@ == old(self).m@.insert(k@, v),
    { unimplemented!() }
}
// the value of the place i, moved out
#[verifier::external_body]
pub fn vtake<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int], { unimplemented!() }
pub struct Keys { pub m: Ghost<Maps> }
/// the keys
pub open spec fn keys_of(s: Seq<String>, m: Maps) -> bool { forall|n: Seq<char>| #[trigger] m.dom().contains(n) == exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n }
impl BTreeMap {
    pub fn keys(&self) -> (r: Keys) ensures r.m@ == self.m@, { Keys { m: self.m } }
}
impl Keys {
    pub fn cloned(self) -> (r: Keys) ensures r == self, { self }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<String>) ensures keys_of(r@, self.m@), { unimplemented!() }
}
/// f was called with m and returned no error
pub open spec fn done<F: Fn(&mut FileDbMap) -> Result<()>>(f: F, m: FileDbMap) -> bool { exists|x: &mut FileDbMap, r: Result<()>| #[trigger] f.ensures((x,), r) && *x == m && r is Ok }
pub open spec fn all_done<F: Fn(&mut FileDbMap) -> Result<()>>(f: F, m: Maps) -> bool { forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> done(f, m[n]) }
pub open spec fn all_synced(m: Maps, all: bool) -> bool { forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> synced(m[n], all) }
pub type Maps = Map<Seq<char>, FileDbMap>;
/// each entry is the map of its name in this directory
pub open spec fn named(m: Maps, dir: Seq<u8>) -> bool { forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> is_map(m[n], dir, n) }
/// the map of this name is open now; what was open still is
pub open spec fn opened(a: Maps, b: Maps, n: Seq<char>) -> bool {
    b.dom().contains(n) && if a.dom().contains(n) { b == a } else { exists|h: FileDbMap| b == #[trigger] a.insert(n, h) }
}
pub struct FileDbInner { pub db_bytes_map: BTreeMap, pub db_int_map: BTreeMap, pub db_string_map: BTreeMap, pub path: PathBuf }
impl FileDbInner {
    pub open spec fn dir(&self) -> Seq<u8> { buf_dir(&self.path) }
    pub open spec fn b(&self) -> Maps { self.db_bytes_map.m@ }
    pub open spec fn i(&self) -> Maps { self.db_int_map.m@ }
    pub open spec fn s(&self) -> Maps { self.db_string_map.m@ }
    pub open spec fn ok(&self) -> bool { named(self.b(), self.dir()) && named(self.i(), self.dir()) && named(self.s(), self.dir()) }
//@ file src/filedb/inner/mod.rs
//@ path std::fs::create_dir_all vmkdir
//@ fn FileDbInner::open
    ensures ret is Ok ==> ret->Ok_0.ok() && ret->Ok_0.dir() == p_dir(path), // C13
//@ end
//@ fn FileDbInner::path
    ensures path_dir(ret) == self.dir(),
//@ end
//@ fn FileDbInner::db_map_bytes
    ensures ret is Some == self.b().dom().contains(name@), ret is Some ==> ret->Some_0 == self.b()[name@], // C13
//@ end
//@ fn FileDbInner::db_map_int
    ensures ret is Some == self.i().dom().contains(name@), ret is Some ==> ret->Some_0 == self.i()[name@], // C13
//@ end
//@ fn FileDbInner::db_map_string
    ensures ret is Some == self.s().dom().contains(name@), ret is Some ==> ret->Some_0 == self.s()[name@], // C13
//@ end
//@ fn FileDbInner::db_map_bytes_insert
    ensures final(self).b() == old(self).b().insert(name@, child), final(self).i() == old(self).i(), final(self).s() == old(self).s(), final(self).dir() == old(self).dir(), // C13
//@ end
//@ fn FileDbInner::db_map_dbint_insert
    ensures final(self).i() == old(self).i().insert(name@, child), final(self).b() == old(self).b(), final(self).s() == old(self).s(), final(self).dir() == old(self).dir(), // C13
//@ end
//@ fn FileDbInner::db_map_insert
    ensures final(self).s() == old(self).s().insert(name@, child), final(self).b() == old(self).b(), final(self).i() == old(self).i(), final(self).dir() == old(self).dir(), // C13
//@ end
//@ fn FileDbInner::applay_all
//@ sig fn applay_all<F: Fn(&mut FileDbMap) -> Result<()>>(&self, func: F) -> (ret: Result<()>)
    requires forall|x: &mut FileDbMap| #[trigger] func.requires((x,)),
    ensures ret is Ok ==> all_done(func, self.b()) && all_done(func, self.i()) && all_done(func, self.s()), // C04
//@ loop 0
    invariant
        keys_of(keys@, self.b()), forall|x: &mut FileDbMap| #[trigger] func.requires((x,)),
        forall|j: int| 0 <= j < i_ ==> done(func, self.b()[(#[trigger] keys@[j])@]),
//@ loop 1
    invariant
        keys_of(keys@, self.i()), forall|x: &mut FileDbMap| #[trigger] func.requires((x,)),
        forall|j: int| 0 <= j < i_ ==> done(func, self.i()[(#[trigger] keys@[j])@]),
//@ loop 2
    invariant
        keys_of(keys@, self.s()), forall|x: &mut FileDbMap| #[trigger] func.requires((x,)),
        forall|j: int| 0 <= j < i_ ==> done(func, self.s()[(#[trigger] keys@[j])@]),
//@ end
//@ fn FileDbInner::sync_all
    ensures ret is Ok ==> all_synced(self.b(), true) && all_synced(self.i(), true) && all_synced(self.s(), true), // C04
//@ closure 0 |c_0: &mut FileDbMap| -> (r: Result<()>)
    ensures r is Ok ==> synced(*old(c_0), true),
//@ end
//@ fn FileDbInner::sync_data
    ensures ret is Ok ==> all_synced(self.b(), false) && all_synced(self.i(), false) && all_synced(self.s(), false), // C04
//@ closure 0 |c_0: &mut FileDbMap| -> (r: Result<()>)
    ensures r is Ok ==> synced(*old(c_0), false),
//@ end
//@ fn FileDbInner::create_db_map
    requires old(self).ok(), !old(self).s().dom().contains(name@),
    ensures final(self).ok(), final(self).b() == old(self).b(), final(self).i() == old(self).i(), final(self).dir() == old(self).dir(), // C13
        ret is Ok ==> opened(old(self).s(), final(self).s(), name@), ret is Err ==> final(self).s() == old(self).s(), // C13
//@ end
//@ fn FileDbInner::create_db_map_bytes
    requires old(self).ok(), !old(self).b().dom().contains(name@),
    ensures final(self).ok(), final(self).s() == old(self).s(), final(self).i() == old(self).i(), final(self).dir() == old(self).dir(), // C13
        ret is Ok ==> opened(old(self).b(), final(self).b(), name@), ret is Err ==> final(self).b() == old(self).b(), // C13
//@ end
//@ fn FileDbInner::create_db_map_dbint
    requires old(self).ok(), !old(self).i().dom().contains(name@),
    ensures final(self).ok(), final(self).s() == old(self).s(), final(self).b() == old(self).b(), final(self).dir() == old(self).dir(), // C13
        ret is Ok ==> opened(old(self).i(), final(self).i(), name@), ret is Err ==> final(self).i() == old(self).i(), // C13
//@ end
}
//@ file src/filedb/mod.rs
//@ derives FileDb Clone
//@ mutself db_map_string db_map_string_with_params db_map_bytes db_map_bytes_with_params db_map_int db_map_int_with_params sync_all sync_data
/// the database: in the source a shared pointer to the registry, its clone points to the same
pub struct FileDb(pub FileDbInner);
impl FileDb {
//@ fn FileDb::open
    ensures ret is Ok ==> ret->Ok_0.0.ok() && ret->Ok_0.0.dir() == p_dir(path), // C13
//@ end
//@ fn FileDb::path
    ensures buf_dir(&ret) == self.0.dir(),
//@ end
//@ fn FileDb::db_map_string
    requires old(self).0.ok(),
    ensures final(self).0.ok(), final(self).0.b() == old(self).0.b(), final(self).0.i() == old(self).0.i(), final(self).0.dir() == old(self).0.dir(), // C13
        ret is Ok ==> opened(old(self).0.s(), final(self).0.s(), name@) && ret->Ok_0 == final(self).0.s()[name@] && is_map(ret->Ok_0, old(self).0.dir(), name@), // C13
        ret is Err ==> final(self).0.s() == old(self).0.s(), // C13
//@ end
//@ fn FileDb::db_map_string_with_params
    requires old(self).0.ok(),
    ensures final(self).0.ok(), final(self).0.b() == old(self).0.b(), final(self).0.i() == old(self).0.i(), final(self).0.dir() == old(self).0.dir(), // C13
        ret is Ok ==> opened(old(self).0.s(), final(self).0.s(), name@) && ret->Ok_0 == final(self).0.s()[name@] && is_map(ret->Ok_0, old(self).0.dir(), name@), // C13
        ret is Err ==> final(self).0.s() == old(self).0.s(), // C13
//@ end
//@ fn FileDb::db_map_bytes
    requires old(self).0.ok(),
    ensures final(self).0.ok(), final(self).0.s() == old(self).0.s(), final(self).0.i() == old(self).0.i(), final(self).0.dir() == old(self).0.dir(), // C13
        ret is Ok ==> opened(old(self).0.b(), final(self).0.b(), name@) && ret->Ok_0 == final(self).0.b()[name@] && is_map(ret->Ok_0, old(self).0.dir(), name@), // C13
        ret is Err ==> final(self).0.b() == old(self).0.b(), // C13
//@ end
//@ fn FileDb::db_map_bytes_with_params
    requires old(self).0.ok(),
    ensures final(self).0.ok(), final(self).0.s() == old(self).0.s(), final(self).0.i() == old(self).0.i(), final(self).0.dir() == old(self).0.dir(), // C13
        ret is Ok ==> opened(old(self).0.b(), final(self).0.b(), name@) && ret->Ok_0 == final(self).0.b()[name@] && is_map(ret->Ok_0, old(self).0.dir(), name@), // C13
        ret is Err ==> final(self).0.b() == old(self).0.b(), // C13
//@ end
//@ fn FileDb::db_map_int
    requires old(self).0.ok(),
    ensures final(self).0.ok(), final(self).0.s() == old(self).0.s(), final(self).0.b() == old(self).0.b(), final(self).0.dir() == old(self).0.dir(), // C13
        ret is Ok ==> opened(old(self).0.i(), final(self).0.i(), name@) && ret->Ok_0 == final(self).0.i()[name@] && is_map(ret->Ok_0, old(self).0.dir(), name@), // C13
        ret is Err ==> final(self).0.i() == old(self).0.i(), // C13
//@ end
//@ fn FileDb::db_map_int_with_params
    requires old(self).0.ok(),
    ensures final(self).0.ok(), final(self).0.s() == old(self).0.s(), final(self).0.b() == old(self).0.b(), final(self).0.dir() == old(self).0.dir(), // C13
        ret is Ok ==> opened(old(self).0.i(), final(self).0.i(), name@) && ret->Ok_0 == final(self).0.i()[name@] && is_map(ret->Ok_0, old(self).0.dir(), name@), // C13
        ret is Err ==> final(self).0.i() == old(self).0.i(), // C13
//@ end
//@ fn FileDb::sync_all
    ensures *final(self) == *old(self), ret is Ok ==> all_synced(old(self).0.b(), true) && all_synced(old(self).0.i(), true) && all_synced(old(self).0.s(), true), // C04
//@ end
//@ fn FileDb::sync_data
    ensures *final(self) == *old(self), ret is Ok ==> all_synced(old(self).0.b(), false) && all_synced(old(self).0.i(), false) && all_synced(old(self).0.s(), false), // C04
//@ end
}
/// two handles got for one name are the same map, also when maps of other names were opened in between
pub proof fn one_name_one_map(a: Maps, b: Maps, c: Maps, d: Maps, n: Seq<char>, o: Seq<char>)
    requires opened(a, b, n), opened(b, c, o), opened(c, d, n),
    ensures d[n] == b[n], d.dom().contains(o) && d[o] == c[o], // C13
{}
}
fn main() {}
