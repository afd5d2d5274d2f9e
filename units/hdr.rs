//@ include head.rs
verus! {
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ stubs off
//@ include htx_spec.rs
//@ resultmap on
//@ refuse on
/// not going on is allowed (the source panics there)
#[verifier::external_body]
pub fn refuse_unless(b: bool)
    ensures b,
{ if !b { panic!() } }
#[verifier::external_body]
pub fn refuse<T>() -> (r: T)
    ensures false,
{ panic!() }
pub type HeaderSignature = [u8; 8];
/// the first bytes say: this file, this key type
pub open spec fn is_kind(img: Seq<u8>, s1: Seq<u8>, s2: Seq<u8>) -> bool {
    img.len() >= 24 && at(img, 0, 8) =~= s1 && at(img, 8, 8) =~= s2
}
pub proof fn put_end(s: Seq<u8>, b: Seq<u8>)
    ensures put_at(s, s.len() as int, b) =~= s + b,
{}
/// opening leaves an old file as it is and makes a new one what it has to be
/// not a file cut off in the middle of its header
pub open spec fn short_ok(img: Seq<u8>) -> bool { img.len() >= 16 ==> img.len() >= 24 }
pub open spec fn opened(img0: Seq<u8>, img: Seq<u8>, s1: Seq<u8>, s2: Seq<u8>) -> bool {
    is_kind(img, s1, s2) && (img0.len() > 0 ==> img == img0)
}

// ---------------------------------------------------------------- names and files, by contract
pub struct PhantomData;
#[verifier::external_body]
pub struct Pth { _p: Vec<u8> }
/// any type that names a path
pub type P<'a> = &'a Pth;
#[verifier::external_body]
pub struct Path { _p: Vec<u8> }
pub struct PathBuf { pub dir: Ghost<Seq<u8>>, pub name: Ghost<Seq<char>> }
pub uninterp spec fn p_dir(p: &Pth) -> Seq<u8>;
pub uninterp spec fn path_dir(p: &Path) -> Seq<u8>;
impl Pth {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Path) ensures path_dir(r) == p_dir(self), { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.dir@ == path_dir(self), { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn push(&mut self, s: String) ensures final(self).dir == old(self).dir, final(self).name@ == s@, { unimplemented!() }
}
/// the text of format!(f, a)
pub open spec fn fmt1(f: Seq<char>, a: Seq<char>) -> Seq<char> { a + f.subrange(2, f.len() as int) }
#[verifier::external_body]
pub fn vformat1(f: &str, a: &str) -> (r: String)
    requires f@.len() >= 2, f@[0] == '{', f@[1] == '}',
    ensures r@ == fmt1(f@, a@),
{ unimplemented!() }
/// what the file of this name in this directory held before
pub uninterp spec fn fs_img(dir: Seq<u8>, name: Seq<char>) -> Seq<u8>;
pub uninterp spec fn file_of(f: &File, dir: Seq<u8>, name: Seq<char>) -> bool;
pub struct OpenOptions { pub r: bool, pub w: bool, pub c: bool, pub t: bool }
impl OpenOptions {
    pub fn new() -> (o: Self) ensures o == (OpenOptions { r: false, w: false, c: false, t: false }) { OpenOptions { r: false, w: false, c: false, t: false } }
    pub fn read(self, b: bool) -> (o: Self) ensures o == (OpenOptions { r: b, ..self }) { OpenOptions { r: b, ..self } }
    pub fn write(self, b: bool) -> (o: Self) ensures o == (OpenOptions { w: b, ..self }) { OpenOptions { w: b, ..self } }
    pub fn create(self, b: bool) -> (o: Self) ensures o == (OpenOptions { c: b, ..self }) { OpenOptions { c: b, ..self } }
    pub fn truncate(self, b: bool) -> (o: Self) ensures o == (OpenOptions { t: b, ..self }) { OpenOptions { t: b, ..self } }
    #[verifier::external_body]
    pub fn open(self, pb: PathBuf) -> (ret: Result<File>)
        requires self.r, self.w, self.c, // C12
        ensures ret is Ok ==> file_of(&ret->Ok_0, pb.dir@, pb.name@) && file_img(&ret->Ok_0) == if self.t { Seq::empty() } else { fs_img(pb.dir@, pb.name@) },
    { unimplemented!() }
}
/// the file behind a VarFile; reading and writing keep it
pub uninterp spec fn vf_of(f: &VarFile, dir: Seq<u8>, name: Seq<char>) -> bool;
pub enum FileBufSizeParam { Size(u32), PerMille(u16), Auto }
pub struct FileDbParams { pub val_buf_size: FileBufSizeParam, pub key_buf_size: FileBufSizeParam, pub idx_buf_size: FileBufSizeParam, pub htx_buf_size: FileBufSizeParam }
//@ file src/filedb/inner/piece.rs
impl PieceMgr {
//@ fn PieceMgr::new
    ensures ret.free_list_offset == free_list_offset, ret.size_ary == size_ary,
//@ end
}

// ---------------------------------------------------------------- key.rs
//@ file src/filedb/inner/key.rs
pub mod key {
use super::*;
//@ const CHUNK_SIZE
//@ const DAT_HEADER_SIGNATURE
//@ const REC_SIZE_FREE_OFFSET_1ST
//@ const REC_SIZE_FREE_OFFSET
//@ const REC_SIZE_ARY
//@ fn write_keyrecf_init_header
//@ attr #[verifier::loop_isolation(false)]
    requires old(file).len() == 0,
    ensures final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> final(file).img() == DAT_HEADER_SIGNATURE@ + signature2@ + enc(8, 0) + enc(8, 0) + zeros(160) && is_kind(final(file).img(), DAT_HEADER_SIGNATURE@, signature2@), // C12
//@ start
    proof { enc_len(8, 0); }
    broadcast use bf_len;
//@ after write_all 0
    assert(file.img() =~= DAT_HEADER_SIGNATURE@);
//@ after write_all 1
    assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@);
//@ tail
    assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@ + enc(8, 0) + enc(8, 0) + zeros(160));
    assert(at(file.img(), 0, 8) =~= DAT_HEADER_SIGNATURE@);
    assert(at(file.img(), 8, 8) =~= signature2@);
//@ end
//@ fn check_keyrecf_header
    requires short_ok(old(file).img()),
    ensures final(file).same(*old(file)),
        ret is Ok ==> is_kind(old(file).img(), DAT_HEADER_SIGNATURE@, signature2@), // C12

//@ end
pub struct VarFileKeyCache(pub VarFile, pub PhantomData);
pub struct KeyFile(pub VarFileKeyCache);

impl KeyFile {
//@ fn KeyFile::open_with_params
    requires forall|n: Seq<char>| short_ok(#[trigger] fs_img(p_dir(&path), n)),
    ensures ret is Ok ==> ({
        let name = fmt1("{}.key"@, ks_name@);
        let f = ret->Ok_0.0.0;
        &&& opened(fs_img(p_dir(&path), name), f.img(), DAT_HEADER_SIGNATURE@, sig2@) // C12
        &&& f.piece_mgr.size_ary@ == REC_SIZE_ARY@ && f.piece_mgr.free_list_offset@ == REC_SIZE_FREE_OFFSET@ // C05 C06 C07
        &&& fs_img(p_dir(&path), name).len() == 0 ==> f.img().len() == 192 && (forall|j: int| 16 <= j < 192 ==> #[trigger] f.img()[j] == 0) // C05 C06 C07
    }),
//@ start
    proof { reveal_strlit("{}.key"); }
    assert(rabuf::pow2(131072)) by(bit_vector);
    proof { enc_len(8, 0); zero_enc(); }
    broadcast use bf_len;
//@ end
}
}

// ---------------------------------------------------------------- val.rs
//@ file src/filedb/inner/val.rs
pub mod val {
use super::*;
//@ const CHUNK_SIZE
//@ const DAT_HEADER_SIGNATURE
//@ const REC_SIZE_FREE_OFFSET_1ST
//@ const REC_SIZE_FREE_OFFSET
//@ const REC_SIZE_ARY
//@ fn write_valrecf_init_header
//@ attr #[verifier::loop_isolation(false)]
    requires old(file).len() == 0,
    ensures final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> final(file).img() == DAT_HEADER_SIGNATURE@ + signature2@ + enc(8, 0) + enc(8, 0) + zeros(160) && is_kind(final(file).img(), DAT_HEADER_SIGNATURE@, signature2@), // C12
//@ start
    proof { enc_len(8, 0); }
    broadcast use bf_len;
//@ after write_all 0
    assert(file.img() =~= DAT_HEADER_SIGNATURE@);
//@ after write_all 1
    assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@);
//@ tail
    assert(file.img() =~= DAT_HEADER_SIGNATURE@ + signature2@ + enc(8, 0) + enc(8, 0) + zeros(160));
    assert(at(file.img(), 0, 8) =~= DAT_HEADER_SIGNATURE@);
    assert(at(file.img(), 8, 8) =~= signature2@);
//@ end
//@ fn check_valrecf_header
    requires short_ok(old(file).img()),
    ensures final(file).same(*old(file)),
        ret is Ok ==> is_kind(old(file).img(), DAT_HEADER_SIGNATURE@, signature2@), // C12

//@ end
pub struct VarFileValueCache(pub VarFile, pub PhantomData);
pub struct ValueFile(pub VarFileValueCache);

impl ValueFile {
//@ fn ValueFile::open_with_params
    requires forall|n: Seq<char>| short_ok(#[trigger] fs_img(p_dir(&path), n)),
    ensures ret is Ok ==> ({
        let name = fmt1("{}.val"@, ks_name@);
        let f = ret->Ok_0.0.0;
        &&& opened(fs_img(p_dir(&path), name), f.img(), DAT_HEADER_SIGNATURE@, sig2@) // C12
        &&& f.piece_mgr.size_ary@ == REC_SIZE_ARY@ && f.piece_mgr.free_list_offset@ == REC_SIZE_FREE_OFFSET@ // C05 C06 C07
        &&& fs_img(p_dir(&path), name).len() == 0 ==> f.img().len() == 192 && (forall|j: int| 16 <= j < 192 ==> #[trigger] f.img()[j] == 0) // C05 C06 C07
    }),
//@ start
    proof { reveal_strlit("{}.val"); }
    assert(rabuf::pow2(131072)) by(bit_vector);
    proof { enc_len(8, 0); zero_enc(); }
    broadcast use bf_len;
//@ end
}
}

// ---------------------------------------------------------------- idx.rs
//@ file src/filedb/inner/idx.rs
pub mod idx {
use super::*;
//@ const IDX_HEADER_SZ
//@ const IDX_HEADER_SIGNATURE
//@ fn write_idxf_init_header
//@ attr #[verifier::loop_isolation(false)]
    requires old(file).len() == 0,
    ensures final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> final(file).img() == IDX_HEADER_SIGNATURE@ + signature2@ + enc(8, IDX_HEADER_SZ as nat) + zeros(104) && is_kind(final(file).img(), IDX_HEADER_SIGNATURE@, signature2@), // C12
        ret is Ok ==> final(file).len() == 128,
//@ start
    proof { enc_len(8, IDX_HEADER_SZ as nat); }
    broadcast use bf_len;
//@ after write_all 0
    assert(file.img() =~= IDX_HEADER_SIGNATURE@);
//@ after write_all 1
    assert(file.img() =~= IDX_HEADER_SIGNATURE@ + signature2@);
//@ tail
    assert(file.img() =~= IDX_HEADER_SIGNATURE@ + signature2@ + enc(8, IDX_HEADER_SZ as nat) + zeros(104));
    assert(at(file.img(), 0, 8) =~= IDX_HEADER_SIGNATURE@);
    assert(at(file.img(), 8, 8) =~= signature2@);
//@ end
//@ fn check_idxf_header
    requires short_ok(old(file).img()),
    ensures final(file).same(*old(file)),
        ret is Ok ==> is_kind(old(file).img(), IDX_HEADER_SIGNATURE@, signature2@), // C12
        ret is Ok ==> u64_at(old(file).img(), 16) != 0,
//@ end
#[verifier::external_body]
pub struct NodeCache { _p: Vec<u8> }
/// no node is in it (unit nc)
pub uninterp spec fn nc_empty() -> NodeCache;
impl NodeCache {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r == nc_empty() { unimplemented!() }
}
pub struct IdxNode { pub o: NodePieceOffset }
impl IdxNode {
    pub fn new(o: NodePieceOffset) -> (r: Self) ensures r.o == o, { IdxNode { o } }
    pub fn get_ref(&self) -> (r: &IdxNode) ensures r == self, { self }
    pub fn offset(&self) -> (r: NodePieceOffset) ensures r == self.o, { self.o }
}
pub struct VarFileNodeCache(pub VarFile, pub NodeCache, pub NodePieceOffset);
pub struct IdxFile(pub VarFileNodeCache);
impl VarFileNodeCache {
    /// nodes lie behind the header
    #[verifier::external_body]
    pub fn write_node(&mut self, node: IdxNode, is_new: bool) -> (ret: Result<IdxNode>)
        requires node.o.val >= 128, old(self).0.len() >= 128,
        ensures ret is Ok ==> final(self).0.len() >= 128 && at(final(self).0.img(), 0, 128) == at(old(self).0.img(), 0, 128) && final(self).2 == old(self).2 && final(self).0.piece_mgr == old(self).0.piece_mgr
            && (is_new && node.o.val == old(self).0.len() ==> ret->Ok_0.o == node.o),
    { unimplemented!() }
}
//@ const IDX_HEADER_TOP_NODE_OFFSET
//@ const CHUNK_SIZE
//@ const NODE_SIZE_FREE_OFFSET_1ST
//@ const NODE_SIZE_FREE_OFFSET
//@ const NODE_SIZE_ARY
impl VarFile {
//@ fn VarFile::read_top_node_offset
    requires old(self).len() >= 24,
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0.val == u64_at(old(self).img(), 16),
//@ end
}
impl IdxFile {
//@ fn IdxFile::open_with_params
    requires forall|n: Seq<char>| short_ok(#[trigger] fs_img(p_dir(&path), n)),
    ensures ret is Ok ==> ({
        let name = fmt1("{}.idx"@, ks_name@);
        let f = ret->Ok_0.0.0;
        &&& opened(fs_img(p_dir(&path), name), f.img(), IDX_HEADER_SIGNATURE@, sig2@) // C12
        &&& f.piece_mgr.size_ary@ == NODE_SIZE_ARY@ && f.piece_mgr.free_list_offset@ == NODE_SIZE_FREE_OFFSET@ // C05 C06 C07
        &&& ret->Ok_0.0.2.val == u64_at(f.img(), 16) && ret->Ok_0.0.2.val != 0 // C05
        &&& fs_img(p_dir(&path), name).len() > 0 ==> ret->Ok_0.0.1 == nc_empty() // C05
    }),
//@ start
    proof { reveal_strlit("{}.idx"); }
    assert(rabuf::pow2(131072)) by(bit_vector);
    assert(rabuf::pow2(32768)) by(bit_vector);
    assert(rabuf::pow2(65536)) by(bit_vector);
    broadcast use bf_len;
//@ after write_idxf_init_header 0
    proof { enc_len(8, IDX_HEADER_SZ as nat); }
    assert(at(at(file_nc.0.img(), 0, 128), 16, 8) =~= enc(8, IDX_HEADER_SZ as nat));
//@ after write_node 0
    assert(at(file_nc.0.img(), 16, 8) =~= at(at(file_nc.0.img(), 0, 128), 16, 8));
    assert(at(at(file_nc.0.img(), 0, 128), 16, 8) =~= enc(8, IDX_HEADER_SZ as nat));
    proof { p256_vals(); le_enc(8, IDX_HEADER_SZ as nat); }
    assert(at(at(file_nc.0.img(), 0, 128), 0, 8) =~= at(file_nc.0.img(), 0, 8));
    assert(at(at(file_nc.0.img(), 0, 128), 8, 8) =~= at(file_nc.0.img(), 8, 8));
//@ end
}
}

// ---------------------------------------------------------------- htx.rs
//@ file src/filedb/inner/htx.rs
pub mod htx {
use super::*;
//@ const CHUNK_SIZE
//@ const HTX_HEADER_SZ
//@ const HTX_HEADER_SIGNATURE
//@ const DEFAULT_HT_SIZE
//@ const HTX_HT_SIZE_OFFSET
//@ const HTX_SIZE_FREE_OFFSET
//@ const HTX_SIZE_ARY
//@ fn write_htxf_init_header
//@ attr #[verifier::loop_isolation(false)]
    requires old(file).len() == 0,
    ensures final(file).piece_mgr == old(file).piece_mgr,
        ret is Ok ==> final(file).img() == HTX_HEADER_SIGNATURE@ + signature2@ + enc(8, DEFAULT_HT_SIZE as nat) + zeros(104) && is_kind(final(file).img(), HTX_HEADER_SIGNATURE@, signature2@), // C12
//@ start
    proof { enc_len(8, DEFAULT_HT_SIZE as nat); }
    broadcast use bf_len;
//@ after write_all 0
    assert(file.img() =~= HTX_HEADER_SIGNATURE@);
//@ after write_all 1
    assert(file.img() =~= HTX_HEADER_SIGNATURE@ + signature2@);
//@ tail
    assert(file.img() =~= HTX_HEADER_SIGNATURE@ + signature2@ + enc(8, DEFAULT_HT_SIZE as nat) + zeros(104));
    assert(at(file.img(), 0, 8) =~= HTX_HEADER_SIGNATURE@);
    assert(at(file.img(), 8, 8) =~= signature2@);
//@ end
//@ fn check_htxf_header
    requires short_ok(old(file).img()),
    ensures final(file).same(*old(file)),
        ret is Ok ==> is_kind(old(file).img(), HTX_HEADER_SIGNATURE@, signature2@), // C12
        ret is Ok ==> u64_at(old(file).img(), 16) != 0,
//@ end
pub struct VarFileHtxCache(pub VarFile, pub u64);
pub struct HtxFile(pub VarFileHtxCache);
impl VarFile {
//@ fn VarFile::read_hash_table_size
    requires old(self).len() >= 24,
    ensures final(self).same(*old(self)), ret is Ok ==> ret->Ok_0 == u64_at(old(self).img(), 16),
//@ end
}

impl HtxFile {
//@ fn HtxFile::open_with_params
    requires forall|n: Seq<char>| short_ok(#[trigger] fs_img(p_dir(&path), n)),
    ensures ret is Ok ==> ({
        let name = fmt1("{}.htx"@, ks_name@);
        let f = ret->Ok_0.0.0;
        &&& opened(fs_img(p_dir(&path), name), f.img(), HTX_HEADER_SIGNATURE@, sig2@) // C12
        &&& ret->Ok_0.0.1 == tsize(f.img()) // C05 C09
        &&& fs_img(p_dir(&path), name).len() == 0 ==> htx_ok(f.img()) && (forall|i: int| 0 <= i < tsize(f.img()) ==> #[trigger] slot(f.img(), i) == 0) // C09
    }),
//@ start
    proof { reveal_strlit("{}.htx"); }
    assert(rabuf::pow2(131072)) by(bit_vector);
    broadcast use bf_len;
//@ after set_file_length 0
    assert(at(file_nc.0.img(), 0, 8) =~= HTX_HEADER_SIGNATURE@);
    assert(at(file_nc.0.img(), 8, 8) =~= sig2@);
    let ghost img1 = file_nc.0.img();
    assert(at(img1, 16, 8) =~= enc(8, DEFAULT_HT_SIZE as nat)) by { enc_len(8, DEFAULT_HT_SIZE as nat); }
    assert forall|j: int| 128 <= j < img1.len() implies #[trigger] img1[j] == 0 by { }
//@ after write_u64_le 0
    proof {
        zero_enc();
        let img2 = file_nc.0.img();
        assert(at(img2, 0, 8) =~= at(img1, 0, 8));
        assert(at(img2, 8, 8) =~= at(img1, 8, 8));
        assert(at(img2, 16, 8) =~= at(img1, 16, 8));
        new_table(img2, DEFAULT_HT_SIZE as nat);
    }
//@ end
}
}

// ---------------------------------------------------------------- dbxxx.rs: one key type for the four files of a map
//@ file src/filedb/inner/dbxxx.rs
pub mod dbx {
use super::*;
pub struct KT;
pub uninterp spec fn kt_sig() -> Seq<u8>;
impl KT {
    #[verifier::external_body]
    pub fn signature() -> (r: HeaderSignature) ensures r@ == kt_sig(), { unimplemented!() }
}
pub struct FileDbXxxInner { pub dirty: bool, pub key_file: key::KeyFile, pub val_file: val::ValueFile, pub idx_file: idx::IdxFile, pub htx_file: htx::HtxFile, pub _phantom: std::marker::PhantomData<KT> }
impl FileDbXxxInner {
//@ fn FileDbXxxInner::open_with_params
    requires forall|n: Seq<char>| short_ok(#[trigger] fs_img(p_dir(&path), n)),
    ensures ret is Ok ==> ({
        let d = p_dir(&path);
        let r = ret->Ok_0;
        &&& opened(fs_img(d, fmt1("{}.key"@, ks_name@)), r.key_file.0.0.img(), key::DAT_HEADER_SIGNATURE@, kt_sig()) // C12 C13
        &&& opened(fs_img(d, fmt1("{}.val"@, ks_name@)), r.val_file.0.0.img(), val::DAT_HEADER_SIGNATURE@, kt_sig()) // C12 C13
        &&& opened(fs_img(d, fmt1("{}.idx"@, ks_name@)), r.idx_file.0.0.img(), idx::IDX_HEADER_SIGNATURE@, kt_sig()) // C12 C13
        &&& opened(fs_img(d, fmt1("{}.htx"@, ks_name@)), r.htx_file.0.0.img(), htx::HTX_HEADER_SIGNATURE@, kt_sig()) // C12 C13
    }),
        ret is Ok ==> ret->Ok_0.dirty, // C04
//@ end
}
}
// ---------------------------------------------------------------- the key types
pub mod kt {
use super::*;
pub struct DbString;
pub struct DbInt;
pub struct DbBytes;
//@ file src/filedb/dbmap/kt_dbstring.rs
impl DbString {
//@ fn DbMapKeyType for DbString::signature as signature
    ensures ret@ =~= seq![115u8, 116, 114, 105, 110, 103, 0, 0], // C12
//@ end
}
//@ file src/filedb/dbmap/kt_dbint.rs
impl DbInt {
//@ fn DbMapKeyType for DbInt::signature as signature
    ensures ret@ =~= seq![117u8, 105, 110, 116, 54, 52, 0, 0], // C12
//@ end
}
//@ file src/filedb/dbmap/kt_dbbytes.rs
impl DbBytes {
//@ fn DbMapKeyType for DbBytes::signature as signature
    ensures ret@ =~= seq![98u8, 121, 116, 101, 115, 0, 0, 0], // C12
//@ end
}
}
/// no file is of two kinds, or of two key types
pub proof fn kinds_differ()
    ensures
        key::DAT_HEADER_SIGNATURE@ != val::DAT_HEADER_SIGNATURE@, key::DAT_HEADER_SIGNATURE@ != idx::IDX_HEADER_SIGNATURE@, key::DAT_HEADER_SIGNATURE@ != htx::HTX_HEADER_SIGNATURE@,
        val::DAT_HEADER_SIGNATURE@ != idx::IDX_HEADER_SIGNATURE@, val::DAT_HEADER_SIGNATURE@ != htx::HTX_HEADER_SIGNATURE@, idx::IDX_HEADER_SIGNATURE@ != htx::HTX_HEADER_SIGNATURE@,
        seq![115u8, 116, 114, 105, 110, 103, 0, 0] != seq![117u8, 105, 110, 116, 54, 52, 0, 0],
        seq![115u8, 116, 114, 105, 110, 103, 0, 0] != seq![98u8, 121, 116, 101, 115, 0, 0, 0],
        seq![117u8, 105, 110, 116, 54, 52, 0, 0] != seq![98u8, 121, 116, 101, 115, 0, 0, 0],
{
    assert(key::DAT_HEADER_SIGNATURE@[6] == 75 && val::DAT_HEADER_SIGNATURE@[6] == 86 && idx::IDX_HEADER_SIGNATURE@[6] == 84 && htx::HTX_HEADER_SIGNATURE@[6] == 72);
    assert(seq![115u8, 116, 114, 105, 110, 103, 0, 0][0] == 115 && seq![117u8, 105, 110, 116, 54, 52, 0, 0][0] == 117 && seq![98u8, 121, 116, 101, 115, 0, 0, 0][0] == 98);
}
/// maps of different names have no file in common, and the four files of a map are different ones
pub proof fn files_apart(n: Seq<char>, m: Seq<char>)
    ensures
        n != m ==> fmt1("{}.key"@, n) != fmt1("{}.key"@, m) && fmt1("{}.key"@, n) != fmt1("{}.val"@, m) && fmt1("{}.key"@, n) != fmt1("{}.idx"@, m) && fmt1("{}.key"@, n) != fmt1("{}.htx"@, m), // C13
        n != m ==> fmt1("{}.val"@, n) != fmt1("{}.val"@, m) && fmt1("{}.val"@, n) != fmt1("{}.idx"@, m) && fmt1("{}.val"@, n) != fmt1("{}.htx"@, m), // C13
        n != m ==> fmt1("{}.idx"@, n) != fmt1("{}.idx"@, m) && fmt1("{}.idx"@, n) != fmt1("{}.htx"@, m) && fmt1("{}.htx"@, n) != fmt1("{}.htx"@, m), // C13
        fmt1("{}.key"@, n) != fmt1("{}.val"@, n) && fmt1("{}.key"@, n) != fmt1("{}.idx"@, n) && fmt1("{}.key"@, n) != fmt1("{}.htx"@, n), // C13
        fmt1("{}.val"@, n) != fmt1("{}.idx"@, n) && fmt1("{}.val"@, n) != fmt1("{}.htx"@, n) && fmt1("{}.idx"@, n) != fmt1("{}.htx"@, n), // C13
{
    reveal_strlit("{}.key"); reveal_strlit("{}.val"); reveal_strlit("{}.idx"); reveal_strlit("{}.htx");
    apart("{}.key"@, "{}.key"@, n, m); apart("{}.key"@, "{}.val"@, n, m); apart("{}.key"@, "{}.idx"@, n, m); apart("{}.key"@, "{}.htx"@, n, m);
    apart("{}.val"@, "{}.val"@, n, m); apart("{}.val"@, "{}.idx"@, n, m); apart("{}.val"@, "{}.htx"@, n, m);
    apart("{}.idx"@, "{}.idx"@, n, m); apart("{}.idx"@, "{}.htx"@, n, m); apart("{}.htx"@, "{}.htx"@, n, m);
    let l = n.len() as int;
    assert(fmt1("{}.key"@, n)[l + 1] == 'k' && fmt1("{}.val"@, n)[l + 1] == 'v' && fmt1("{}.idx"@, n)[l + 1] == 'i' && fmt1("{}.htx"@, n)[l + 1] == 'h');
}
proof fn apart(f: Seq<char>, g: Seq<char>, n: Seq<char>, m: Seq<char>)
    requires f.len() == 6, g.len() == 6,
    ensures fmt1(f, n) == fmt1(g, m) ==> n == m,
{
    if fmt1(f, n) != fmt1(g, m) { return; }
    assert(fmt1(f, n).len() == n.len() + 4 && fmt1(g, m).len() == m.len() + 4);
    assert(n =~= fmt1(f, n).subrange(0, n.len() as int));
    assert(m =~= fmt1(g, m).subrange(0, m.len() as int));
}
}
fn main() {}
