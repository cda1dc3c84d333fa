pub mod fs_std { pub trait FileExt { fn try_lock_exclusive(&self) -> std::io::Result<()>; } impl FileExt for std::fs::File { fn try_lock_exclusive(&self) -> std::io::Result<()> { unimplemented!() } } }
