//! Type-level stand-in for lmdb-rs-mintlayer; never run.
use std::marker::PhantomData;
use std::path::Path;
bitflags::bitflags! {
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct EnvironmentFlags: u32 { const WRITE_MAP = 0x80000; const READ_ONLY = 0x20000; const NO_SYNC = 0x10000; const NO_META_SYNC = 0x40000; const MAP_ASYNC = 0x100000; const NO_TLS = 0x200000; const NO_LOCK = 0x400000; }
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct DatabaseFlags: u32 { const REVERSE_KEY = 2; const DUP_SORT = 4; const INTEGER_KEY = 8; }
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct WriteFlags: u32 { const NO_OVERWRITE = 0x10; const NO_DUP_DATA = 0x20; const APPEND = 0x20000; const APPEND_DUP = 0x40000; const CURRENT = 0x40; }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    KeyExist, NotFound, PageNotFound, Corrupted, Panic, VersionMismatch, Invalid, MapFull, DbsFull, ReadersFull, TlsFull, TxnFull,
    CursorFull, PageFull, MapResized, Incompatible, BadRslot, BadTxn, BadValSize, BadDbi, Other(i32),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone)]
pub struct DatabaseResizeInfo { pub old_size: u64, pub new_size: u64, pub occupied_size_before_resize: u64 }
#[derive(Debug, Clone)]
pub struct DatabaseResizeSettings { pub min_resize_step: u64, pub max_resize_step: u64, pub default_resize_ratio_percentage: u64, pub resize_trigger_percentage: f32 }
impl Default for DatabaseResizeSettings { fn default() -> Self { unimplemented!() } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Database(u32);
pub struct Environment(());
unsafe impl Send for Environment {}
unsafe impl Sync for Environment {}
pub struct EnvironmentBuilder(());
pub struct RoTransaction<'e>(PhantomData<&'e Environment>);
pub struct RwTransaction<'e>(PhantomData<&'e Environment>);
pub struct RoCursor<'t>(PhantomData<&'t ()>);
pub struct Iter<'t, C>(PhantomData<(&'t (), C)>);
impl<'t, C> Iterator for Iter<'t, C> { type Item = Result<(&'t [u8], &'t [u8])>; fn next(&mut self) -> Option<Self::Item> { unimplemented!() } }
pub trait Cursor<'t>: Sized { fn into_iter_start(self) -> Iter<'t, Self>; fn into_iter_from<K: AsRef<[u8]>>(self, k: K) -> Iter<'t, Self>; }
impl<'t> Cursor<'t> for RoCursor<'t> { fn into_iter_start(self) -> Iter<'t, Self> { unimplemented!() } fn into_iter_from<K: AsRef<[u8]>>(self, _k: K) -> Iter<'t, Self> { unimplemented!() } }
pub trait Transaction: Sized {
    fn commit(self) -> Result<()>;
    fn abort(self) {}
    fn open_ro_cursor(&self, db: Database) -> Result<RoCursor<'_>>;
    fn get<'t, K: AsRef<[u8]>>(&'t self, db: Database, k: &K) -> Result<&'t [u8]>;
}
macro_rules! tx { ($t:ident) => { impl Transaction for $t<'_> {
    fn commit(self) -> Result<()> { unimplemented!() }
    fn open_ro_cursor(&self, _db: Database) -> Result<RoCursor<'_>> { unimplemented!() }
    fn get<'t, K: AsRef<[u8]>>(&'t self, _db: Database, _k: &K) -> Result<&'t [u8]> { unimplemented!() }
} impl Drop for $t<'_> { fn drop(&mut self) {} } } }
tx!(RoTransaction);
tx!(RwTransaction);
impl RwTransaction<'_> {
    pub fn put<K: AsRef<[u8]>, D: AsRef<[u8]>>(&mut self, _db: Database, _k: &K, _d: &D, _f: WriteFlags) -> Result<()> { unimplemented!() }
    pub fn del<K: AsRef<[u8]>>(&mut self, _db: Database, _k: &K, _d: Option<&[u8]>) -> Result<()> { unimplemented!() }
}
impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder { unimplemented!() }
    pub fn open_db(&self, _n: Option<&str>) -> Result<Database> { unimplemented!() }
    pub fn create_db(&self, _n: Option<&str>, _f: DatabaseFlags) -> Result<Database> { unimplemented!() }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> { unimplemented!() }
    pub fn begin_rw_txn(&self, _s: Option<usize>) -> Result<RwTransaction<'_>> { unimplemented!() }
    pub fn begin_rw_txn_generic(&self, _s: Option<usize>, _no_sync: bool, _no_meta_sync: bool) -> Result<RwTransaction<'_>> { unimplemented!() }
    pub fn do_resize(&self, _s: Option<u64>) -> Result<()> { unimplemented!() }
    pub fn sync(&self, _f: bool) -> Result<()> { unimplemented!() }
}
impl EnvironmentBuilder {
    pub fn set_map_size(self, _s: usize) -> Self { self }
    pub fn set_resize_settings(self, _s: DatabaseResizeSettings) -> Self { self }
    pub fn set_resize_callback(self, _s: Option<Box<dyn Fn(DatabaseResizeInfo)>>) -> Self { self }
    pub fn set_max_dbs(self, _s: u32) -> Self { self }
    pub fn set_flags(self, _s: EnvironmentFlags) -> Self { self }
    pub fn open(self, _p: &Path) -> Result<Environment> { unimplemented!() }
}
