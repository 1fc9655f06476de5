//! Stand-in for parity-scale-codec (a git dependency that is not in the offline cache).
//! It implements the SCALE encoding of the types this workspace encodes: fixed-width little-endian
//! integers, compact integers (with the canonicity checks of the original), length-prefixed
//! collections with memory bounded by the remaining input, options, results, tuples, arrays, strings.

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

pub use parity_scale_codec_derive::{CompactAs, Decode, Encode};

#[derive(PartialEq, Eq, Clone)]
pub struct Error {
    cause: Option<Box<Error>>,
    desc: Cow<'static, str>,
}

impl Error {
    pub fn chain(self, desc: impl Into<Cow<'static, str>>) -> Self {
        Self { desc: desc.into(), cause: Some(Box::new(self)) }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.desc)?;
        if let Some(c) = &self.cause {
            f.write_str(":\n\t")?;
            fmt::Display::fmt(c, f)?;
        }
        Ok(())
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Error(")?;
        f.write_str(&self.desc)?;
        f.write_str(")")
    }
}
impl std::error::Error for Error {}
impl From<&'static str> for Error {
    fn from(desc: &'static str) -> Error {
        Error { desc: Cow::Borrowed(desc), cause: None }
    }
}

pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> {
        let mut buf = [0u8];
        self.read(&mut buf[..])?;
        Ok(buf[0])
    }
    fn descend_ref(&mut self) -> Result<(), Error> {
        Ok(())
    }
    fn ascend_ref(&mut self) {}
    fn on_before_alloc_mem(&mut self, _size: usize) -> Result<(), Error> {
        Ok(())
    }
}

impl Input for &[u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(Some(self.len()))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() {
            return Err("Not enough data to fill buffer".into());
        }
        let len = into.len();
        into.copy_from_slice(&self[..len]);
        *self = &self[len..];
        Ok(())
    }
}

pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.0.read_exact(into).map_err(|_| Error::from("io error"))
    }
}

pub trait Output {
    fn write(&mut self, bytes: &[u8]);
    fn push_byte(&mut self, byte: u8) {
        self.write(&[byte]);
    }
}
impl<W: std::io::Write> Output for W {
    fn write(&mut self, bytes: &[u8]) {
        (self as &mut dyn std::io::Write).write_all(bytes).expect("Codec outputs are infallible");
    }
}
struct SizeTracker {
    written: usize,
}
impl Output for SizeTracker {
    fn write(&mut self, bytes: &[u8]) {
        self.written += bytes.len();
    }
}

pub trait Encode {
    fn size_hint(&self) -> usize {
        0
    }
    fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
        self.using_encoded(|buf| dest.write(buf));
    }
    fn encode(&self) -> Vec<u8> {
        let mut r = Vec::with_capacity(self.size_hint());
        self.encode_to(&mut r);
        r
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&self.encode())
    }
    fn encoded_size(&self) -> usize {
        let mut size_tracker = SizeTracker { written: 0 };
        self.encode_to(&mut size_tracker);
        size_tracker.written
    }
}

pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}

pub trait Decode: Sized {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
        Self::decode(input).map(|_| ())
    }
    fn encoded_fixed_size() -> Option<usize> {
        None
    }
}

pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}

pub trait DecodeAll: Sized {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
        let res = T::decode(input)?;
        if input.is_empty() {
            Ok(res)
        } else {
            Err("Input buffer has still data left after decoding!".into())
        }
    }
}

pub trait WrapperTypeEncode: std::ops::Deref {}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'_, T> {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl WrapperTypeEncode for String {}
impl<T> WrapperTypeEncode for Vec<T> {}

impl<T, X> Encode for X
where
    T: Encode + ?Sized,
    X: WrapperTypeEncode<Target = T>,
{
    fn size_hint(&self) -> usize {
        (**self).size_hint()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        (**self).using_encoded(f)
    }
    fn encode(&self) -> Vec<u8> {
        (**self).encode()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (**self).encode_to(dest)
    }
}
impl<T: Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode + ?Sized> EncodeLike for &T {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: Encode + ?Sized> EncodeLike for &mut T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<'a, T: ToOwned + Encode + ?Sized> EncodeLike for Cow<'a, T> {}
impl<'a, T: ToOwned + Encode> EncodeLike<T> for Cow<'a, T> {}
impl<T: Encode + ?Sized> EncodeLike for Rc<T> {}
impl<T: Encode> EncodeLike<T> for Rc<T> {}
impl<T: Encode + ?Sized> EncodeLike for Arc<T> {}
impl<T: Encode> EncodeLike<T> for Arc<T> {}

pub trait WrapperTypeDecode: Sized {
    type Wrapped: Into<Self>;
}
impl<T> WrapperTypeDecode for Box<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Rc<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Arc<T> {
    type Wrapped = T;
}
impl<T, X> Decode for X
where
    T: Decode + Into<X>,
    X: WrapperTypeDecode<Wrapped = T>,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        input.descend_ref()?;
        let r = T::decode(input)?.into();
        input.ascend_ref();
        Ok(r)
    }
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl EncodeLike for $t {}
        impl Encode for $t {
            fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) }
        }
        impl Decode for $t {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let mut buf = [0u8; std::mem::size_of::<$t>()];
                input.read(&mut buf)?;
                Ok(<$t>::from_le_bytes(buf))
            }
            fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
        }
    )*};
}
int!(u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl EncodeLike for u8 {}
impl Encode for u8 {
    fn size_hint(&self) -> usize {
        1
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[*self])
    }
}
impl Decode for u8 {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        input.read_byte()
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}
impl EncodeLike for bool {}
impl Encode for bool {
    fn size_hint(&self) -> usize {
        1
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[*self as u8])
    }
}
impl Decode for bool {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err("Invalid boolean representation".into()),
        }
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}

macro_rules! nonzero {
    ($($t:ty, $i:ty;)*) => {$(
        impl EncodeLike for $t {}
        impl Encode for $t {
            fn size_hint(&self) -> usize { self.get().size_hint() }
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { self.get().using_encoded(f) }
        }
        impl Decode for $t {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                Self::new(<$i>::decode(input)?).ok_or_else(|| Error::from("cannot create non-zero number from 0"))
            }
        }
    )*};
}
nonzero! {
    std::num::NonZeroU8, u8; std::num::NonZeroU16, u16; std::num::NonZeroU32, u32; std::num::NonZeroU64, u64;
    std::num::NonZeroU128, u128; std::num::NonZeroI32, i32; std::num::NonZeroI64, i64;
}

impl<T> EncodeLike for PhantomData<T> {}
impl<T> Encode for PhantomData<T> {
    fn encode_to<W: Output + ?Sized>(&self, _dest: &mut W) {}
}
impl<T> Decode for PhantomData<T> {
    fn decode<I: Input>(_input: &mut I) -> Result<Self, Error> {
        Ok(PhantomData)
    }
}

impl EncodeLike for std::time::Duration {}
impl Encode for std::time::Duration {
    fn encode(&self) -> Vec<u8> {
        (self.as_secs(), self.subsec_nanos()).encode()
    }
}
impl Decode for std::time::Duration {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (secs, nanos) = <(u64, u32)>::decode(input)?;
        if nanos >= 1_000_000_000 {
            return Err("Could not decode `Duration` as nanos > 999_999_999.".into());
        }
        Ok(std::time::Duration::new(secs, nanos))
    }
}

impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Encode> Encode for Option<T> {
    fn size_hint(&self) -> usize {
        1 + match self {
            Some(t) => t.size_hint(),
            None => 0,
        }
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            Some(t) => {
                dest.push_byte(1);
                t.encode_to(dest);
            }
            None => dest.push_byte(0),
        }
    }
}
impl<T: Decode> Decode for Option<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte().map_err(|e| e.chain("Could not decode variant byte for `Option`"))? {
            0 => Ok(None),
            1 => Ok(Some(T::decode(input).map_err(|e| e.chain("Could not decode `Option::Some(T)`"))?)),
            _ => Err("unexpected first byte decoding Option".into()),
        }
    }
}

impl<T: EncodeLike<U>, U: Encode, E: EncodeLike<F>, F: Encode> EncodeLike<Result<U, F>> for Result<T, E> {}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            Ok(t) => {
                dest.push_byte(0);
                t.encode_to(dest);
            }
            Err(e) => {
                dest.push_byte(1);
                e.encode_to(dest);
            }
        }
    }
}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(Ok(T::decode(input)?)),
            1 => Ok(Err(E::decode(input)?)),
            _ => Err("unexpected first byte decoding Result".into()),
        }
    }
}

impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Encode, const N: usize> Encode for [T; N] {
    fn size_hint(&self) -> usize {
        self.iter().map(Encode::size_hint).sum()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        for x in self {
            x.encode_to(dest);
        }
    }
}
impl<T: Decode, const N: usize> Decode for [T; N] {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N {
            v.push(T::decode(input)?);
        }
        match v.try_into() {
            Ok(a) => Ok(a),
            Err(_) => Err("array length".into()),
        }
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(<T as Decode>::encoded_fixed_size()? * N)
    }
}

fn compact_encode_len_to<W: Output + ?Sized>(dest: &mut W, len: usize) {
    assert!(len <= u32::MAX as usize, "Attempted to serialize a collection with too many elements.");
    Compact(len as u32).encode_to(dest);
}

impl Encode for str {
    fn size_hint(&self) -> usize {
        self.as_bytes().size_hint()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        self.as_bytes().encode_to(dest)
    }
    fn encode(&self) -> Vec<u8> {
        self.as_bytes().encode()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        self.as_bytes().using_encoded(f)
    }
}
impl<T: Encode> Encode for [T] {
    fn size_hint(&self) -> usize {
        4 + self.iter().map(Encode::size_hint).sum::<usize>()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        compact_encode_len_to(dest, self.len());
        for x in self {
            x.encode_to(dest);
        }
    }
}
impl EncodeLike for String {}
impl EncodeLike<&str> for String {}
impl EncodeLike<String> for &str {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<&[U]> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}

fn decode_vec<T: Decode, I: Input>(input: &mut I, len: usize) -> Result<Vec<T>, Error> {
    // Allocate no more than the remaining input can justify.
    let cap = match input.remaining_len()? {
        Some(l) => len.min(l.checked_div(std::mem::size_of::<T>()).unwrap_or(0)),
        None => 0,
    };
    let mut r = Vec::with_capacity(cap);
    input.descend_ref()?;
    for _ in 0..len {
        r.push(T::decode(input)?);
    }
    input.ascend_ref();
    Ok(r)
}
impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let Compact(len) = <Compact<u32>>::decode(input)?;
        decode_vec(input, len as usize)
    }
}
impl Decode for String {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Self::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
    }
}
impl<'a, T: ToOwned + ?Sized> Decode for Cow<'a, T>
where
    <T as ToOwned>::Owned: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(Cow::Owned(Decode::decode(input)?))
    }
}

impl<K: Encode, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        compact_encode_len_to(dest, self.len());
        for kv in self {
            kv.0.encode_to(dest);
            kv.1.encode_to(dest);
        }
    }
}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let Compact(len) = <Compact<u32>>::decode(input)?;
        input.descend_ref()?;
        let mut m = BTreeMap::new();
        for _ in 0..len {
            let k = K::decode(input)?;
            let v = V::decode(input)?;
            m.insert(k, v);
        }
        input.ascend_ref();
        Ok(m)
    }
}
impl<K: Encode> EncodeLike for BTreeSet<K> {}
impl<K: Encode> Encode for BTreeSet<K> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        compact_encode_len_to(dest, self.len());
        for k in self {
            k.encode_to(dest);
        }
    }
}
impl<K: Decode + Ord> Decode for BTreeSet<K> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let Compact(len) = <Compact<u32>>::decode(input)?;
        input.descend_ref()?;
        let mut m = BTreeSet::new();
        for _ in 0..len {
            m.insert(K::decode(input)?);
        }
        input.ascend_ref();
        Ok(m)
    }
}
impl<K: Encode> EncodeLike for VecDeque<K> {}
impl<K: Encode> Encode for VecDeque<K> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        compact_encode_len_to(dest, self.len());
        for k in self {
            k.encode_to(dest);
        }
    }
}
impl<K: Decode> Decode for VecDeque<K> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(<Vec<K>>::decode(input)?.into())
    }
}

impl EncodeLike for () {}
impl Encode for () {
    fn encode_to<W: Output + ?Sized>(&self, _dest: &mut W) {}
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[])
    }
    fn encode(&self) -> Vec<u8> {
        Vec::new()
    }
}
impl Decode for () {
    fn decode<I: Input>(_: &mut I) -> Result<(), Error> {
        Ok(())
    }
}

macro_rules! tuple {
    ($($first:ident $fu:ident),+) => {
        impl<$($first: EncodeLike<$fu>, $fu: Encode),+> EncodeLike<($($fu,)+)> for ($($first,)+) {}
        impl<$($first: Encode),+> Encode for ($($first,)+) {
            #[allow(non_snake_case)]
            fn size_hint(&self) -> usize {
                let ($($first,)+) = self;
                0 $(+ $first.size_hint())+
            }
            #[allow(non_snake_case)]
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
                let ($($first,)+) = self;
                $($first.encode_to(dest);)+
            }
        }
        impl<$($first: Decode),+> Decode for ($($first,)+) {
            fn decode<INPUT: Input>(input: &mut INPUT) -> Result<Self, Error> {
                Ok(($($first::decode(input)?,)+))
            }
        }
    };
}
tuple!(A A1);
tuple!(A A1, B B1);
tuple!(A A1, B B1, C C1);
tuple!(A A1, B B1, C C1, D D1);
tuple!(A A1, B B1, C C1, D D1, E E1);
tuple!(A A1, B B1, C C1, D D1, E E1, F F1);
tuple!(A A1, B B1, C C1, D D1, E E1, F F1, G G1);
tuple!(A A1, B B1, C C1, D D1, E E1, F F1, G G1, H H1);
tuple!(A A1, B B1, C C1, D D1, E E1, F F1, G G1, H H1, I I1);
tuple!(A A1, B B1, C C1, D D1, E E1, F F1, G G1, H H1, I I1, J J1);
tuple!(A A1, B B1, C C1, D D1, E E1, F F1, G G1, H H1, I I1, J J1, K K1);

// --- compact -------------------------------------------------------------------------------

#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Default, Debug, Hash)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
    fn from(x: T) -> Compact<T> {
        Compact(x)
    }
}

pub trait CompactLen<T> {
    fn compact_len(val: &T) -> usize;
}

pub trait CompactAs: From<Compact<Self>> {
    type As;
    fn encode_as(&self) -> &Self::As;
    fn decode_from(_: Self::As) -> Result<Self, Error>;
}

pub trait HasCompact: Sized {
    type Type;
    #[doc(hidden)]
    fn compact_encode<W: Output + ?Sized>(v: &Self, dest: &mut W);
    #[doc(hidden)]
    fn compact_decode<I: Input>(input: &mut I) -> Result<Self, Error>;
}

const OUT_OF_RANGE: &str = "out of range";

macro_rules! compact {
    ($($t:ty),*) => {$(
        impl HasCompact for $t {
            type Type = Compact<$t>;
            fn compact_encode<W: Output + ?Sized>(v: &Self, dest: &mut W) {
                Compact(*v).encode_to(dest)
            }
            fn compact_decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                Ok(Compact::<$t>::decode(input)?.0)
            }
        }
        impl EncodeLike for Compact<$t> {}
        impl Encode for Compact<$t> {
            fn size_hint(&self) -> usize { Self::compact_len(&self.0) }
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
                let v = self.0 as u128;
                if v < 1 << 6 {
                    dest.push_byte((v as u8) << 2);
                } else if v < 1 << 14 {
                    dest.write(&(((v as u16) << 2) | 1).to_le_bytes());
                } else if v < 1 << 30 {
                    dest.write(&(((v as u32) << 2) | 2).to_le_bytes());
                } else {
                    let bytes_needed = (16 - (v.leading_zeros() / 8) as usize).max(4);
                    dest.push_byte(3 + (((bytes_needed - 4) as u8) << 2));
                    let b = v.to_le_bytes();
                    dest.write(&b[..bytes_needed]);
                }
            }
        }
        impl CompactLen<$t> for Compact<$t> {
            fn compact_len(val: &$t) -> usize {
                let v = *val as u128;
                if v < 1 << 6 { 1 } else if v < 1 << 14 { 2 } else if v < 1 << 30 { 4 }
                else { (16 - (v.leading_zeros() / 8) as usize).max(4) + 1 }
            }
        }
        impl Decode for Compact<$t> {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let prefix = input.read_byte()?;
                let v: u128 = match prefix % 4 {
                    0 => (prefix >> 2) as u128,
                    1 if std::mem::size_of::<$t>() == 1 => {
                        let x = u16::from_le_bytes([prefix, input.read_byte()?]) >> 2;
                        if (0b0011_1111..=255).contains(&x) && x > 0b0011_1111 { x as u128 } else { return Err(OUT_OF_RANGE.into()) }
                    }
                    1 => {
                        let x = u16::from_le_bytes([prefix, input.read_byte()?]) >> 2;
                        if x > 0b0011_1111 { x as u128 } else { return Err(OUT_OF_RANGE.into()) }
                    }
                    2 if std::mem::size_of::<$t>() == 1 => return Err("unexpected prefix decoding Compact<u8>".into()),
                    2 => {
                        let mut b = [prefix, 0, 0, 0];
                        input.read(&mut b[1..])?;
                        let x = u32::from_le_bytes(b) >> 2;
                        if x <= 0b0011_1111_1111_1111 || (x as u128) > (<$t>::MAX as u128) { return Err(OUT_OF_RANGE.into()) }
                        x as u128
                    }
                    _ => {
                        let n = (prefix >> 2) as usize + 4;
                        if n > std::mem::size_of::<$t>().max(4) || std::mem::size_of::<$t>() < 4 {
                            return Err("unexpected prefix decoding Compact".into());
                        }
                        let mut b = [0u8; 16];
                        input.read(&mut b[..n])?;
                        let x = u128::from_le_bytes(b);
                        // canonical: needs exactly n bytes (and more than 30 bits)
                        let ok = if n == 4 { x > (u32::MAX >> 2) as u128 } else { b[n - 1] != 0 };
                        if !ok { return Err(OUT_OF_RANGE.into()) }
                        x
                    }
                };
                Ok(Compact(v as $t))
            }
        }
        impl From<Compact<$t>> for $t { fn from(x: Compact<$t>) -> $t { x.0 } }
    )*};
}
compact!(u8, u16, u32, u64, u128);

#[doc(hidden)]
pub mod __private {
    pub fn encode_compact<T: super::HasCompact, W: super::Output + ?Sized>(v: &T, dest: &mut W) {
        T::compact_encode(v, dest)
    }
    pub fn decode_compact<T: super::HasCompact, I: super::Input>(input: &mut I) -> Result<T, super::Error> {
        T::compact_decode(input)
    }
}
