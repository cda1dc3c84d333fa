//! Type-checked next to /repo's crates and never run: instances of its macros whose expansion the rules read.
#![allow(dead_code)]
pub mod tagged {
    use serialization::{Decode, DirectDecode, DirectEncode, Encode, Tag, Tagged};

    #[derive(Tagged, Encode, Decode)]
    pub struct Plain {
        version: Tag<25>,
        data: u64,
    }

    #[derive(Tagged, Encode, Decode)]
    pub struct Nested {
        inner: Plain,
        more: u32,
    }

    #[derive(Tagged, Encode, Decode)]
    pub enum ByDiscriminant {
        It = 55,
    }

    #[derive(Tagged, Encode, Decode)]
    pub enum ByIndex {
        #[codec(index = 42)]
        It(u16, u64),
    }

    #[derive(DirectEncode, DirectDecode)]
    pub enum Many {
        A(ByDiscriminant),
        B(ByIndex, u32),
        C { tag: Tag<7>, bytes: [u8; 3] },
        D(Nested),
    }

    #[derive(DirectEncode, DirectDecode)]
    pub enum Two<T> {
        X(Tag<1>, T),
        Y(Tag<2>, T, T),
    }
}

pub mod schema {
    use storage::schema::HasDbMap;

    storage::decl_schema! {
        pub Three {
            pub A: Map<u8, u16>,
            pub B: Map<u8, u32>,
            pub C: Map<u8, u64>,
        }
    }

    pub const A_INDEX: usize = <Three as HasDbMap<A, _>>::INDEX.as_usize();
    pub const B_INDEX: usize = <Three as HasDbMap<B, _>>::INDEX.as_usize();
    pub const C_INDEX: usize = <Three as HasDbMap<C, _>>::INDEX.as_usize();
}

/// what the named atomic types are
pub mod atomics {
    use utils::atomics::*;

    pub fn relaxed(_: (RelaxedAtomicBool, RelaxedAtomicI8, RelaxedAtomicU8, RelaxedAtomicI16, RelaxedAtomicU16, RelaxedAtomicI32, RelaxedAtomicU32, RelaxedAtomicI64, RelaxedAtomicU64, RelaxedAtomicIsize, RelaxedAtomicUsize)) {}
    pub fn acq_rel(_: (AcqRelAtomicBool, AcqRelAtomicI8, AcqRelAtomicU8, AcqRelAtomicI16, AcqRelAtomicU16, AcqRelAtomicI32, AcqRelAtomicU32, AcqRelAtomicI64, AcqRelAtomicU64, AcqRelAtomicIsize, AcqRelAtomicUsize)) {}
    pub fn seq_cst(_: (SeqCstAtomicBool, SeqCstAtomicI8, SeqCstAtomicU8, SeqCstAtomicI16, SeqCstAtomicU16, SeqCstAtomicI32, SeqCstAtomicU32, SeqCstAtomicI64, SeqCstAtomicU64, SeqCstAtomicIsize, SeqCstAtomicUsize)) {}
}

/// functions wrapped by #[log_error]
pub mod logerr {
    use utils::log_error;

    pub struct E;
    impl std::fmt::Display for E {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("e")
        }
    }

    pub fn body(_: u32) -> Result<u64, E> {
        Err(E)
    }
    pub async fn abody(_: u32) -> Result<u64, E> {
        Err(E)
    }

    #[log_error]
    pub fn plain(x: u32) -> Result<u64, E> {
        body(x)
    }
    #[log_error]
    pub fn early(x: u32, y: bool) -> Result<u64, E> {
        if y {
            return body(x);
        }
        body(x)?;
        Ok(7)
    }
    #[log_error(level = "trace")]
    pub fn trace(x: u32) -> Result<u64, E> {
        body(x)
    }
    #[log_error(level = "Debug")]
    pub fn debug(x: u32) -> Result<u64, E> {
        body(x)
    }
    #[log_error(level = "INFO")]
    pub fn info(x: u32) -> Result<u64, E> {
        body(x)
    }
    #[log_error(level = "warn")]
    pub fn warn(x: u32) -> Result<u64, E> {
        body(x)
    }
    #[log_error(level = "error")]
    pub fn error(x: u32) -> Result<u64, E> {
        body(x)
    }
    #[log_error]
    pub async fn later(x: u32) -> Result<u64, E> {
        abody(x).await
    }
    #[log_error(level = "warn")]
    pub async fn later_early(x: u32, y: bool) -> Result<u64, E> {
        if y {
            return abody(x).await;
        }
        abody(x).await?;
        Ok(7)
    }
    pub struct Owner<'a>(pub &'a u32);
    impl<'a> Owner<'a> {
        #[log_error(level = "info", async_fn_captures_lifetimes('a))]
        pub async fn method(&self, x: u32) -> Result<u64, E> {
            abody(x).await
        }
    }
}

/// sums written with amount_sum!
pub mod sums {
    use common::{amount_sum, primitives::{Amount, amount::SignedAmount}};

    pub fn two(a: Amount, b: Amount) -> Option<Amount> {
        amount_sum!(a, b)
    }
    pub fn three(a: SignedAmount, b: SignedAmount, c: SignedAmount) -> Option<SignedAmount> {
        amount_sum!(a, b, c)
    }
}
