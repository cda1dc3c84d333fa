//! A small stand-in for parity-scale-codec 3.7 (the pinned git commit cannot be fetched here).
//! Same public API surface as used by mintlayer-core; the SCALE encoding itself is implemented
//! for real so that harnesses may run it.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub use parity_scale_codec_derive::{Decode, Encode};

#[derive(Clone, Eq)]
pub struct Error {
    cause: Option<Box<Error>>,
    desc: Cow<'static, str>,
}
impl PartialEq for Error {
    fn eq(&self, o: &Self) -> bool {
        self.desc == o.desc
    }
}
impl Error {
    pub fn chain(self, desc: impl Into<Cow<'static, str>>) -> Self {
        Error { desc: desc.into(), cause: Some(Box::new(self)) }
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error({})", self.desc)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.desc)?;
        if let Some(c) = &self.cause {
            write!(f, ":\n\t{c}")?;
        }
        Ok(())
    }
}
impl std::error::Error for Error {}
impl From<&'static str> for Error {
    fn from(s: &'static str) -> Self {
        Error { cause: None, desc: Cow::Borrowed(s) }
    }
}

pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> {
        let mut b = [0u8];
        self.read(&mut b)?;
        Ok(b[0])
    }
    fn descend_ref(&mut self) -> Result<(), Error> {
        Ok(())
    }
    fn ascend_ref(&mut self) {}
    fn on_before_alloc_mem(&mut self, _size: usize) -> Result<(), Error> {
        Ok(())
    }
}
impl Input for &[u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(Some(self.len()))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() {
            return Err("Not enough data to fill buffer".into());
        }
        let n = into.len();
        into.copy_from_slice(&self[..n]);
        *self = &self[n..];
        Ok(())
    }
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.0.read_exact(into).map_err(|_| "io error".into())
    }
}

pub trait Output {
    fn write(&mut self, bytes: &[u8]);
    fn push_byte(&mut self, byte: u8) {
        self.write(&[byte]);
    }
}
impl<W: std::io::Write> Output for W {
    fn write(&mut self, bytes: &[u8]) {
        (self as &mut dyn std::io::Write).write_all(bytes).expect("Codec outputs are infallible");
    }
}
struct SizeTracker(usize);
impl std::io::Write for SizeTracker {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub trait Encode {
    fn size_hint(&self) -> usize {
        0
    }
    fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
        self.using_encoded(|b| dest.write(b));
    }
    fn encode(&self) -> Vec<u8> {
        let mut r = Vec::with_capacity(self.size_hint());
        self.encode_to(&mut r);
        r
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&self.encode())
    }
    fn encoded_size(&self) -> usize {
        let mut s = SizeTracker(0);
        self.encode_to(&mut s);
        s.0
    }
}
pub trait DecodeLength {
    fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
pub trait Decode: Sized {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
        Self::decode(input).map(|_| ())
    }
    fn encoded_fixed_size() -> Option<usize> {
        None
    }
}
pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait DecodeAll: Sized {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
        let r = T::decode(input)?;
        if input.is_empty() {
            Ok(r)
        } else {
            Err("Input buffer has still data left after decoding!".into())
        }
    }
}
pub trait DecodeLimit: Sized {
    fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
    fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
    fn decode_all_with_depth_limit(_l: u32, input: &mut &[u8]) -> Result<Self, Error> {
        T::decode_all(input)
    }
    fn decode_with_depth_limit<I: Input>(_l: u32, input: &mut I) -> Result<Self, Error> {
        T::decode(input)
    }
}

pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub struct Ref<'a, T: EncodeLike<U>, U: Encode>(&'a T, PhantomData<U>);
impl<T: EncodeLike<U>, U: Encode> Encode for Ref<'_, T, U> {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        self.0.encode_to(d)
    }
}

pub trait WrapperTypeEncode: Deref {}
impl<T: Encode + ?Sized, X: WrapperTypeEncode<Target = T>> Encode for X {
    fn size_hint(&self) -> usize {
        (**self).size_hint()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        (**self).using_encoded(f)
    }
    fn encode(&self) -> Vec<u8> {
        (**self).encode()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (**self).encode_to(dest)
    }
}
pub trait WrapperTypeDecode: Sized {
    type Wrapped: Into<Self>;
}
impl<T: Decode + Into<X>, X: WrapperTypeDecode<Wrapped = T>> Decode for X {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        input.descend_ref()?;
        let r = Ok(T::decode(input)?.into());
        input.ascend_ref();
        r
    }
}
impl<T> WrapperTypeDecode for Box<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Rc<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Arc<T> {
    type Wrapped = T;
}

impl<T> WrapperTypeEncode for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<&[U]> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized + Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized + Encode> EncodeLike for &T {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<&T> for T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ?Sized + Encode> EncodeLike for &mut T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'_, T> {}
impl<T: ToOwned + Encode + ?Sized> EncodeLike for Cow<'_, T> {}
impl<T: ToOwned + Encode> EncodeLike<T> for Cow<'_, T> {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<T: ?Sized + Encode> EncodeLike for Rc<T> {}
impl<T: Encode> EncodeLike<T> for Rc<T> {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl<T: ?Sized + Encode> EncodeLike for Arc<T> {}
impl<T: Encode> EncodeLike<T> for Arc<T> {}
impl WrapperTypeEncode for String {}
impl EncodeLike for String {}
impl EncodeLike<&str> for String {}
impl EncodeLike<String> for &str {}

impl<'a, T: ToOwned + ?Sized> Decode for Cow<'a, T>
where
    <T as ToOwned>::Owned: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(Cow::Owned(Decode::decode(input)?))
    }
}

macro_rules! num {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
            fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.write(&self.to_le_bytes()) }
        }
        impl EncodeLike for $t {}
        impl Decode for $t {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                input.read(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
            fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
        }
    )*};
}
num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

impl Encode for bool {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        d.push_byte(*self as u8)
    }
    fn size_hint(&self) -> usize {
        1
    }
}
impl EncodeLike for bool {}
impl Decode for bool {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err("Invalid boolean representation".into()),
        }
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}
impl Encode for () {
    fn encode_to<O: Output + ?Sized>(&self, _d: &mut O) {}
}
impl EncodeLike for () {}
impl Decode for () {
    fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
        Ok(())
    }
}
impl<T> Encode for PhantomData<T> {
    fn encode_to<O: Output + ?Sized>(&self, _d: &mut O) {}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> Decode for PhantomData<T> {
    fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
        Ok(PhantomData)
    }
}
impl<T: Encode> Encode for Option<T> {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        match self {
            Some(t) => {
                d.push_byte(1);
                t.encode_to(d)
            }
            None => d.push_byte(0),
        }
    }
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Decode> Decode for Option<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(None),
            1 => Ok(Some(T::decode(input)?)),
            _ => Err("unexpected first byte decoding Option".into()),
        }
    }
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        match self {
            Ok(t) => {
                d.push_byte(0);
                t.encode_to(d)
            }
            Err(t) => {
                d.push_byte(1);
                t.encode_to(d)
            }
        }
    }
}
impl<T: EncodeLike<LT>, LT: Encode, E: EncodeLike<LE>, LE: Encode> EncodeLike<Result<LT, LE>> for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(Ok(T::decode(input)?)),
            1 => Ok(Err(E::decode(input)?)),
            _ => Err("unexpected first byte decoding Result".into()),
        }
    }
}
impl<T: Encode, const N: usize> Encode for [T; N] {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        for x in self {
            x.encode_to(d)
        }
    }
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N {
            v.push(T::decode(input)?);
        }
        v.try_into().map_err(|_| "array".into())
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(<T as Decode>::encoded_fixed_size()? * N)
    }
}
impl Encode for str {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        self.as_bytes().encode_to(d)
    }
}
impl<T: Encode> Encode for [T] {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        Compact(u32::try_from(self.len()).expect("length fits u32")).encode_to(d);
        for x in self {
            x.encode_to(d)
        }
    }
}
impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let n = Compact::<u32>::decode(input)?.0 as usize;
        let mut v = Vec::with_capacity(n.min(4096));
        for _ in 0..n {
            v.push(T::decode(input)?);
        }
        Ok(v)
    }
}
impl Decode for String {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        String::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
    }
}
macro_rules! coll {
    ($t:ident<$($g:ident : $b:path),*> item $it:ty; $($like:tt)*) => {
        impl<$($g: Encode),*> Encode for $t<$($g),*> where $($g: $b),* {
            fn encode_to<OO: Output + ?Sized>(&self, d: &mut OO) {
                Compact(self.len() as u32).encode_to(d);
                for x in self.iter() { x.encode_to(d) }
            }
        }
        impl<$($g: Decode),*> Decode for $t<$($g),*> where $($g: $b),* {
            fn decode<II: Input>(input: &mut II) -> Result<Self, Error> {
                let n = Compact::<u32>::decode(input)?.0 as usize;
                let mut v: Vec<$it> = Vec::new();
                for _ in 0..n { v.push(Decode::decode(input)?); }
                Ok(v.into_iter().collect())
            }
        }
        $($like)*
    };
}
pub trait Any0 {}
impl<T> Any0 for T {}
coll!(BTreeMap<K: Ord, V: Any0> item (K, V);
  impl<K: EncodeLike<LK> + Ord, LK: Encode + Ord, V: EncodeLike<LV>, LV: Encode> EncodeLike<BTreeMap<LK, LV>> for BTreeMap<K, V> {});
coll!(BTreeSet<T: Ord> item T;
  impl<T: EncodeLike<LT> + Ord, LT: Encode + Ord> EncodeLike<BTreeSet<LT>> for BTreeSet<T> {});
coll!(VecDeque<T: Any0> item T;
  impl<T: EncodeLike<LT>, LT: Encode> EncodeLike<VecDeque<LT>> for VecDeque<T> {});
coll!(LinkedList<T: Any0> item T;
  impl<T: EncodeLike<LT>, LT: Encode> EncodeLike<LinkedList<LT>> for LinkedList<T> {});
coll!(BinaryHeap<T: Ord> item T; );

macro_rules! tuple {
    ($($t:ident $l:ident $i:tt),*) => {
        impl<$($t: Encode),*> Encode for ($($t,)*) {
            fn encode_to<OO: Output + ?Sized>(&self, d: &mut OO) { $(self.$i.encode_to(d);)* }
        }
        impl<$($t: Decode),*> Decode for ($($t,)*) {
            fn decode<II: Input>(input: &mut II) -> Result<Self, Error> { Ok(($($t::decode(input)?,)*)) }
        }
        impl<$($t: EncodeLike<$l>, $l: Encode),*> EncodeLike<($($l,)*)> for ($($t,)*) {}
    };
}
tuple!(A LA 0);
tuple!(A LA 0, B LB 1);
tuple!(A LA 0, B LB 1, C LC 2);
tuple!(A LA 0, B LB 1, C LC 2, D LD 3);
tuple!(A LA 0, B LB 1, C LC 2, D LD 3, E LE 4);
tuple!(A LA 0, B LB 1, C LC 2, D LD 3, E LE 4, F LF 5);
tuple!(A LA 0, B LB 1, C LC 2, D LD 3, E LE 4, F LF 5, G LG 6);
tuple!(A LA 0, B LB 1, C LC 2, D LD 3, E LE 4, F LF 5, G LG 6, H LH 7);

impl Encode for Duration {
    fn encode(&self) -> Vec<u8> {
        (self.as_secs(), self.subsec_nanos()).encode()
    }
}
impl EncodeLike for Duration {}
impl Decode for Duration {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (s, n) = <(u64, u32)>::decode(input)?;
        if n >= 1_000_000_000 {
            return Err("Could not decode `Duration` as number of nanoseconds is higher than 999_999_999.".into());
        }
        Ok(Duration::new(s, n))
    }
}
impl<T: Encode> Encode for Range<T> {
    fn encode(&self) -> Vec<u8> {
        (&self.start, &self.end).encode()
    }
}
impl<T: Decode> Decode for Range<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (a, b) = <(T, T)>::decode(input)?;
        Ok(a..b)
    }
}
impl<T: Encode> Encode for RangeInclusive<T> {
    fn encode(&self) -> Vec<u8> {
        (self.start(), self.end()).encode()
    }
}
impl<T: Decode> Decode for RangeInclusive<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (a, b) = <(T, T)>::decode(input)?;
        Ok(a..=b)
    }
}
macro_rules! nonzero {
    ($($t:ty, $u:ty);*) => {$(
        impl Encode for $t { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.get().encode_to(d) } }
        impl EncodeLike for $t {}
        impl Decode for $t { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
            <$t>::new(<$u>::decode(input)?).ok_or_else(|| "cannot create non-zero number from 0".into())
        } }
    )*};
}
nonzero!(std::num::NonZeroU8, u8; std::num::NonZeroU16, u16; std::num::NonZeroU32, u32; std::num::NonZeroU64, u64; std::num::NonZeroU128, u128);

#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Debug, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
    fn from(t: T) -> Self {
        Compact(t)
    }
}
pub struct CompactRef<'a, T>(pub &'a T);
impl<'a, T> From<&'a T> for CompactRef<'a, T> {
    fn from(t: &'a T) -> Self {
        CompactRef(t)
    }
}
pub trait CompactLen<T> {
    fn compact_len(val: &T) -> usize;
}
pub trait EncodeAsRef<'a, T: 'a> {
    type RefType: Encode + From<&'a T>;
}
pub trait HasCompact: Sized {
    type Type: for<'a> EncodeAsRef<'a, Self> + Decode + From<Self> + Into<Self>;
}
fn enc_compact<O: Output + ?Sized>(v: u128, d: &mut O) {
    if v < 1 << 6 {
        d.push_byte((v as u8) << 2)
    } else if v < 1 << 14 {
        d.write(&(((v as u16) << 2) | 1).to_le_bytes())
    } else if v < 1 << 30 {
        d.write(&(((v as u32) << 2) | 2).to_le_bytes())
    } else {
        let n = 16 - (v.leading_zeros() / 8) as usize;
        d.push_byte(3 + ((n - 4) << 2) as u8);
        d.write(&v.to_le_bytes()[..n])
    }
}
fn len_compact(v: u128) -> usize {
    if v < 1 << 6 {
        1
    } else if v < 1 << 14 {
        2
    } else if v < 1 << 30 {
        4
    } else {
        17 - (v.leading_zeros() / 8) as usize
    }
}
fn dec_compact<I: Input>(max_bytes: usize, input: &mut I) -> Result<u128, Error> {
    const OOR: &str = "out of range decoding Compact";
    let p = input.read_byte()?;
    Ok(match p % 4 {
        0 => (p >> 2) as u128,
        1 => {
            let b = input.read_byte()?;
            let v = (u16::from_le_bytes([p, b]) >> 2) as u128;
            if v < 1 << 6 {
                return Err(OOR.into());
            }
            v
        }
        2 => {
            let mut b = [p, 0, 0, 0];
            input.read(&mut b[1..])?;
            let v = (u32::from_le_bytes(b) >> 2) as u128;
            if v < 1 << 14 {
                return Err(OOR.into());
            }
            v
        }
        _ => {
            let n = (p >> 2) as usize + 4;
            if n > max_bytes.max(4) || n > 16 {
                return Err("unexpected prefix decoding Compact".into());
            }
            let mut b = [0u8; 16];
            input.read(&mut b[..n])?;
            let v = u128::from_le_bytes(b);
            if v < 1 << 30 || (n > 4 && v >> ((n - 1) * 8) == 0) {
                return Err(OOR.into());
            }
            v
        }
    })
}
macro_rules! compact {
    ($($t:ty),*) => {$(
        impl Encode for Compact<$t> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { enc_compact(self.0 as u128, d) } }
        impl EncodeLike for Compact<$t> {}
        impl Encode for CompactRef<'_, $t> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { enc_compact(*self.0 as u128, d) } }
        impl Decode for Compact<$t> { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
            let v = dec_compact(std::mem::size_of::<$t>(), input)?;
            Ok(Compact(<$t>::try_from(v).map_err(|_| Error::from("out of range decoding Compact"))?))
        } }
        impl CompactLen<$t> for Compact<$t> { fn compact_len(v: &$t) -> usize { len_compact(*v as u128) } }
        impl<'a> EncodeAsRef<'a, $t> for Compact<$t> { type RefType = CompactRef<'a, $t>; }
        impl HasCompact for $t { type Type = Compact<$t>; }
        impl From<Compact<$t>> for $t { fn from(c: Compact<$t>) -> $t { c.0 } }
    )*};
}
compact!(u8, u16, u32, u64, u128);
