//@ include head.rs
verus! {
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ include nodev.rs
//@ include tr_node.rs
//@ include eqon.rs
//@ include nc_codec.rs
//@ include nc_cache.rs
//@ stubs off
//@ mutself read_fill_buffer flush sync_all sync_data read_node read_top_node
/// everything is in the file itself
pub open spec fn on_disk(f: VarFile) -> bool { f.disk() == f.img() }
/// and made durable
pub open spec fn durable(f: VarFile) -> bool { on_disk(f) && bf_synced(&f.buf_file) }
pub struct KT;
pub struct PhantomData;
pub struct VarFileKeyCache(pub VarFile, pub PhantomData);
pub struct KeyFile(pub VarFileKeyCache);
pub struct VarFileValueCache(pub VarFile, pub PhantomData);
pub struct ValueFile(pub VarFileValueCache);
//@ include nfile.rs
pub struct VarFileHtxCache(pub VarFile, pub u64);
pub struct HtxFile(pub VarFileHtxCache);
impl IdxFile {
//@ file src/filedb/inner/idx.rs
//@ fn IdxFile::read_fill_buffer
    ensures final(self).0.1 == old(self).0.1, final(self).0.2 == old(self).0.2, final(self).0.0.same(old(self).0.0), // C04 C16
//@ end
//@ fn IdxFile::flush
    requires old(self).0.ok(),
    ensures
        ret is Ok ==> final(self).0.keeps(old(self).0) && final(self).0.1.clean() && on_disk(final(self).0.0), // C04 C05
//@ end
//@ fn IdxFile::sync_all
    requires old(self).0.ok(),
    ensures
        ret is Ok ==> final(self).0.keeps(old(self).0) && final(self).0.1.clean() && durable(final(self).0.0), // C04
//@ end
//@ fn IdxFile::sync_data
    requires old(self).0.ok(),
    ensures
        ret is Ok ==> final(self).0.keeps(old(self).0) && final(self).0.1.clean() && durable(final(self).0.0), // C04
//@ end
//@ fn IdxFile::read_node
    requires old(self).0.has_node(offset), offset.val & 0x0f == 0,
    ensures
        ret is Ok ==> final(self).0.keeps_with(old(self).0, offset.val) && old(self).0.is_node(offset, ret->Ok_0), // C01 C05 C16
        old(self).0.1.clean() ==> final(self).0.0.same(old(self).0.0) && final(self).0.1.clean(), // C04 C05
//@ end
//@ fn IdxFile::read_top_node
    requires old(self).0.has_node(old(self).0.2), old(self).0.2.val & 0x0f == 0,
    ensures
        ret is Ok ==> final(self).0.keeps_with(old(self).0, old(self).0.2.val) && old(self).0.is_node(old(self).0.2, ret->Ok_0), // C01 C05 C16
        old(self).0.1.clean() ==> final(self).0.0.same(old(self).0.0) && final(self).0.1.clean(), // C04 C05
//@ end
}
impl KeyFile {
//@ file src/filedb/inner/key.rs
//@ fn KeyFile::read_fill_buffer
    ensures final(self).0.0.same(old(self).0.0), // C04 C16
//@ end
//@ fn KeyFile::flush
    ensures final(self).0.0.img() == old(self).0.0.img(), ret is Ok ==> on_disk(final(self).0.0), // C04 C05
//@ end
//@ fn KeyFile::sync_all
    ensures final(self).0.0.img() == old(self).0.0.img(), ret is Ok ==> durable(final(self).0.0), // C04
//@ end
//@ fn KeyFile::sync_data
    ensures final(self).0.0.img() == old(self).0.0.img(), ret is Ok ==> durable(final(self).0.0), // C04
//@ end
}
impl ValueFile {
//@ file src/filedb/inner/val.rs
//@ fn ValueFile::read_fill_buffer
    ensures final(self).0.0.same(old(self).0.0), // C04 C16
//@ end
//@ fn ValueFile::flush
    ensures final(self).0.0.img() == old(self).0.0.img(), ret is Ok ==> on_disk(final(self).0.0), // C04 C05
//@ end
//@ fn ValueFile::sync_all
    ensures final(self).0.0.img() == old(self).0.0.img(), ret is Ok ==> durable(final(self).0.0), // C04
//@ end
//@ fn ValueFile::sync_data
    ensures final(self).0.0.img() == old(self).0.0.img(), ret is Ok ==> durable(final(self).0.0), // C04
//@ end
}
impl HtxFile {
//@ file src/filedb/inner/htx.rs
//@ fn HtxFile::read_fill_buffer
    ensures final(self).0.1 == old(self).0.1, final(self).0.0.same(old(self).0.0), // C04 C16
//@ end
//@ fn HtxFile::flush
    ensures final(self).0.0.img() == old(self).0.0.img(), final(self).0.1 == old(self).0.1, ret is Ok ==> on_disk(final(self).0.0), // C04 C05
//@ end
//@ fn HtxFile::sync_all
    ensures final(self).0.0.img() == old(self).0.0.img(), final(self).0.1 == old(self).0.1, ret is Ok ==> durable(final(self).0.0), // C04
//@ end
//@ fn HtxFile::sync_data
    ensures final(self).0.0.img() == old(self).0.0.img(), final(self).0.1 == old(self).0.1, ret is Ok ==> durable(final(self).0.0), // C04
//@ end
}
pub mod key { pub use super::KeyFile; }
pub mod val { pub use super::ValueFile; }
pub mod idx2 { pub use super::IdxFile; }
pub mod htx { pub use super::HtxFile; }
pub struct FileDbXxxInner { pub dirty: bool, pub key_file: KeyFile, pub val_file: ValueFile, pub idx_file: IdxFile, pub htx_file: HtxFile }
impl FileDbXxxInner {
    pub open spec fn idx(&self) -> VarFileNodeCache { self.idx_file.0 }
    /// every file holds what was put and deleted, and no node waits in the cache
    pub open spec fn flushed(&self) -> bool {
        &&& on_disk(self.key_file.0.0) && on_disk(self.val_file.0.0) && on_disk(self.idx_file.0.0) && on_disk(self.htx_file.0.0)
        &&& self.idx().1.clean()
    }
    pub open spec fn hard(&self) -> bool {
        &&& durable(self.key_file.0.0) && durable(self.val_file.0.0) && durable(self.idx_file.0.0) && durable(self.htx_file.0.0)
        &&& self.idx().1.clean()
    }
    /// nothing of the content changes
    pub open spec fn keeps(&self, o: FileDbXxxInner) -> bool {
        &&& self.key_file.0.0.img() == o.key_file.0.0.img() && self.val_file.0.0.img() == o.val_file.0.0.img() && self.htx_file.0.0.img() == o.htx_file.0.0.img() && self.htx_file.0.1 == o.htx_file.0.1
        &&& self.idx().keeps(o.idx())
    }
    /// not dirty: nothing waits to be written
    pub open spec fn dirt(&self) -> bool { self.dirty || self.flushed() }
    /// what keeps and flushed mean: every node of the map is in the file itself
    pub proof fn flushed_nodes(&self, o: FileDbXxxInner, s: Store)
        requires self.keeps(o), self.flushed(), o.idx().st(s),
        ensures self.idx().all_on_disk(s), self.idx().st(s), // C04 C05
    {
        assert(store(o.idx().0.img(), o.idx().1, s));
        self.idx().clean_store(s);
    }
//@ file src/filedb/inner/dbxxx.rs
//@ fn FileDbXxxInner::is_dirty
    ensures ret == self.dirty,
//@ end
//@ fn DbXxxBase for FileDbXxxInner::read_fill_buffer as read_fill_buffer
    requires old(self).idx().ok(), old(self).dirt(),
    ensures final(self).dirty == old(self).dirty && final(self).keeps(*old(self)) && final(self).dirt(), // C04 C16
//@ after read_fill_buffer 0
    proof { assert(forall|s: Store| #[trigger] store(self.idx().0.img(), self.idx().1, s) ==> store(old(self).idx().0.img(), old(self).idx().1, s)); }
//@ end
//@ fn DbXxxBase for FileDbXxxInner::flush as flush
    requires old(self).idx().ok(), old(self).dirt(),
    ensures ret is Ok ==> final(self).keeps(*old(self)) && final(self).flushed() && final(self).dirt(), // C04 C05
//@ start
    let ghost s0 = choose|s: Store| store(self.idx().0.img(), self.idx().1, s);
    assert(self.idx().keeps(self.idx())) by { assert(store(self.idx().0.img(), self.idx().1, s0)); }
//@ end
//@ fn DbXxxBase for FileDbXxxInner::sync_all as sync_all
    requires old(self).idx().ok(), old(self).dirt(),
    ensures ret is Ok ==> final(self).keeps(*old(self)) && final(self).flushed() && final(self).hard() && final(self).dirt(), // C04 C05
//@ end
//@ fn DbXxxBase for FileDbXxxInner::sync_data as sync_data
    requires old(self).idx().ok(), old(self).dirt(),
    ensures ret is Ok ==> final(self).keeps(*old(self)) && final(self).flushed() && final(self).hard() && final(self).dirt(), // C04 C05
//@ end
// closing: an error of the flush cannot be reported; where nothing fails, everything is in the files
//@ fn Drop for FileDbXxxInner::drop
//@ sig pub fn closing(&mut self)
    requires old(self).idx().ok(), old(self).dirt(),
    ensures io_ok() && !panicking() ==> final(self).keeps(*old(self)) && final(self).flushed(), // C04 C05
//@ after flush 0
    proof { no_error(ignored_); }
//@ end
}
/// the handle passes on to the map
pub struct FileDbMap(pub FileDbXxxInner);
impl FileDbMap {
//@ file src/filedb/dbmap/mod.rs
//@ fn FileDbMap::is_dirty
    ensures ret == self.0.dirty,
//@ end
//@ fn DbXxxBase for FileDbMap::flush as flush
    requires old(self).0.idx().ok(), old(self).0.dirt(),
    ensures ret is Ok ==> final(self).0.keeps(old(self).0) && final(self).0.flushed() && final(self).0.dirt(), // C04 C05
//@ end
//@ fn DbXxxBase for FileDbMap::sync_all as sync_all
    requires old(self).0.idx().ok(), old(self).0.dirt(),
    ensures ret is Ok ==> final(self).0.keeps(old(self).0) && final(self).0.flushed() && final(self).0.hard() && final(self).0.dirt(), // C04 C05
//@ end
//@ fn DbXxxBase for FileDbMap::sync_data as sync_data
    requires old(self).0.idx().ok(), old(self).0.dirt(),
    ensures ret is Ok ==> final(self).0.keeps(old(self).0) && final(self).0.flushed() && final(self).0.hard() && final(self).0.dirt(), // C04 C05
//@ end
//@ fn DbXxxBase for FileDbMap::read_fill_buffer as read_fill_buffer
    requires old(self).0.idx().ok(), old(self).0.dirt(),
    ensures final(self).0.dirty == old(self).0.dirty && final(self).0.keeps(old(self).0) && final(self).0.dirt(), // C04 C16
//@ end
}
pub uninterp spec fn panicking() -> bool;
pub assume_specification[ std::thread::panicking ]() -> (r: bool) ensures r == panicking();
/// no operation of the operating system fails
pub uninterp spec fn io_ok() -> bool;
#[verifier::external_body]
pub proof fn no_error<T>(r: Result<T>) ensures io_ok() ==> r is Ok {}
/// an index file opened again holds the same nodes
pub proof fn reopened(a: VarFileNodeCache, b: VarFileNodeCache, s: Store)
    requires a.st(s), a.1.clean(), b.1.wf(), b.1.m() == Map::<u64, usize>::empty(), b.0.img() == a.0.img(),
    ensures b.st(s), // C05
{
    a.clean_store(s);
    assert forall|o: u64| #[trigger] s.dom().contains(o) implies holds(b.0.img(), b.1, o, s[o]) by { assert(!b.1.has(o)); }
}
}
fn main() {}
