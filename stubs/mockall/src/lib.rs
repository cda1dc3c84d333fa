pub use mockall_derive_stub::{automock, mock};
