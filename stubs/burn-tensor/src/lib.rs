//! Environment stub: the small part of `burn_tensor` that burn-onnx relies on
//! (an element type tag and a byte buffer with a shape).  The real crate is a
//! git dependency that is not present offline.  Semantics follow the documented
//! contract of burn 0.21: element views are type-checked, conversions are
//! value-preserving or panic, `new` checks the element count.

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DType { F64, F32, Flex32, F16, BF16, I64, I32, I16, I8, U64, U32, U16, U8, Bool, QFloat }

impl DType {
    pub const fn size(&self) -> usize {
        match self {
            DType::F64 | DType::I64 | DType::U64 => 8,
            DType::F32 | DType::Flex32 | DType::I32 | DType::U32 => 4,
            DType::F16 | DType::BF16 | DType::I16 | DType::U16 => 2,
            DType::I8 | DType::U8 | DType::Bool | DType::QFloat => 1,
        }
    }
    pub fn is_float(&self) -> bool { matches!(self, DType::F64 | DType::F32 | DType::Flex32 | DType::F16 | DType::BF16) }
    pub fn is_int(&self) -> bool { matches!(self, DType::I64 | DType::I32 | DType::I16 | DType::I8) }
    pub fn is_uint(&self) -> bool { matches!(self, DType::U64 | DType::U32 | DType::U16 | DType::U8) }
    pub fn is_bool(&self) -> bool { matches!(self, DType::Bool) }
    pub fn name(&self) -> &'static str {
        match self {
            DType::F64 => "f64", DType::F32 => "f32", DType::Flex32 => "flex32", DType::F16 => "f16", DType::BF16 => "bf16",
            DType::I64 => "i64", DType::I32 => "i32", DType::I16 => "i16", DType::I8 => "i8",
            DType::U64 => "u64", DType::U32 => "u32", DType::U16 => "u16", DType::U8 => "u8",
            DType::Bool => "bool", DType::QFloat => "qfloat",
        }
    }
}

#[derive(Debug)]
pub enum DataError { CastError(bytemuck::checked::CheckedCastError), TypeMismatch(String) }
impl core::fmt::Display for DataError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        match self {
            DataError::CastError(_) => f.write_str("cast error"),
            DataError::TypeMismatch(m) => { f.write_str("type mismatch: ")?; f.write_str(m) }
        }
    }
}
impl std::error::Error for DataError {}

/// Byte storage (the allocator returns 16-byte aligned blocks).
#[derive(Clone, PartialEq, Eq)]
pub struct Bytes(Vec<u8>);
impl Bytes {
    pub fn from_bytes_vec(v: Vec<u8>) -> Self { Bytes(v) }
    pub fn from_elems<E: Element>(v: Vec<E>) -> Self {
        Bytes(bytemuck::cast_slice::<E, u8>(&v).to_vec())
    }
}
impl core::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl core::ops::DerefMut for Bytes { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl core::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { let d = &self.0; write!(f, "Bytes {{ data: [")?; for (i, b) in d.iter().take(3).enumerate() { write!(f, "{}{b}", if i > 0 { ", " } else { "" })?; } if d.len() > 3 { write!(f, ", \"...\"")?; } write!(f, "], len: {} }}", d.len()) }
}

/// A number in transit between element types.
#[derive(Clone, Copy, Debug)]
pub enum Num { I(i64), U(u64), F32(f32), F(f64), B(bool) }

pub trait Element: bytemuck::NoUninit + bytemuck::CheckedBitPattern + core::fmt::Debug + 'static {
    fn dtype() -> DType;
    fn to_num(self) -> Num;
    fn from_num(n: Num) -> Self;
}
fn n_i64(n: Num) -> i64 { match n {
    Num::I(v) => v, Num::U(v) => i64::try_from(v).expect("element not representable"),
    Num::F32(v) => n_i64(Num::F(v as f64)),
    Num::F(v) => { assert!(v.is_finite() && v > -9.3e18 && v < 9.3e18, "element not representable"); v as i64 }
    Num::B(b) => b as i64 } }
fn n_f64(n: Num) -> f64 { match n { Num::I(v) => v as f64, Num::U(v) => v as f64, Num::F32(v) => v as f64, Num::F(v) => v, Num::B(b) => b as u8 as f64 } }
fn n_f32(n: Num) -> f32 { match n { Num::I(v) => v as f32, Num::U(v) => v as f32, Num::F32(v) => v, Num::F(v) => v as f32, Num::B(b) => b as u8 as f32 } }
macro_rules! int_el { ($($t:ty, $d:ident, $k:ident, $w:ty);*) => { $(impl Element for $t {
    fn dtype() -> DType { DType::$d }
    fn to_num(self) -> Num { Num::$k(self as $w) }
    fn from_num(n: Num) -> Self { match n { Num::U(v) => <$t>::try_from(v).expect("element not representable"), n => <$t>::try_from(n_i64(n)).expect("element not representable") } }
})* } }
int_el!(i64, I64, I, i64; i32, I32, I, i64; i16, I16, I, i64; i8, I8, I, i64; u64, U64, U, u64; u32, U32, U, u64; u16, U16, U, u64; u8, U8, U, u64);
impl Element for f64 { fn dtype() -> DType { DType::F64 } fn to_num(self) -> Num { Num::F(self) } fn from_num(n: Num) -> Self { n_f64(n) } }
impl Element for f32 { fn dtype() -> DType { DType::F32 } fn to_num(self) -> Num { Num::F32(self) } fn from_num(n: Num) -> Self { n_f32(n) } }
impl Element for half::f16 { fn dtype() -> DType { DType::F16 } fn to_num(self) -> Num { Num::F32(self.to_f32()) } fn from_num(n: Num) -> Self { half::f16::from_f32(n_f32(n)) } }
impl Element for half::bf16 { fn dtype() -> DType { DType::BF16 } fn to_num(self) -> Num { Num::F32(self.to_f32()) } fn from_num(n: Num) -> Self { half::bf16::from_f32(n_f32(n)) } }
impl Element for bool { fn dtype() -> DType { DType::Bool } fn to_num(self) -> Num { Num::B(self) }
    fn from_num(n: Num) -> Self { match n { Num::B(b) => b, Num::I(v) => v != 0, Num::U(v) => v != 0, Num::F32(v) => v != 0.0, Num::F(v) => v != 0.0 } } }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TensorData { pub bytes: Bytes, pub shape: Vec<usize>, pub dtype: DType }

/// Shape arguments accepted by [`TensorData::new`].
pub trait IntoShape { fn into_shape(self) -> Vec<usize>; }
impl IntoShape for Vec<usize> { fn into_shape(self) -> Vec<usize> { self } }
impl IntoShape for &Vec<usize> { fn into_shape(self) -> Vec<usize> { self.clone() } }
impl IntoShape for &[usize] { fn into_shape(self) -> Vec<usize> { self.to_vec() } }
impl<const N: usize> IntoShape for [usize; N] { fn into_shape(self) -> Vec<usize> { self.to_vec() } }

impl TensorData {
    pub fn new<E: Element, S: IntoShape>(value: Vec<E>, shape: S) -> Self {
        let shape = shape.into_shape();
        let n: usize = shape.iter().product();
        assert_eq!(n, value.len(), "Shape is invalid for input of this size");
        TensorData { bytes: Bytes::from_elems(value), shape, dtype: E::dtype() }
    }
    pub fn from_bytes_vec<S: IntoShape>(bytes: Vec<u8>, shape: S, dtype: DType) -> Self {
        TensorData { bytes: Bytes::from_bytes_vec(bytes), shape: shape.into_shape(), dtype }
    }
    pub fn from_bytes<S: IntoShape>(bytes: Bytes, shape: S, dtype: DType) -> Self {
        TensorData { bytes, shape: shape.into_shape(), dtype }
    }
    pub fn as_bytes(&self) -> &[u8] { &self.bytes }
    pub fn into_bytes(self) -> Bytes { self.bytes }
    pub fn num_elements(&self) -> usize { self.shape.iter().product() }
    pub fn rank(&self) -> usize { self.shape.len() }
    pub fn as_slice<E: Element>(&self) -> Result<&[E], DataError> {
        if E::dtype() != self.dtype {
            return Err(DataError::TypeMismatch(format!("Invalid target element type (expected {:?}, got {:?})", self.dtype, E::dtype())));
        }
        if self.bytes.is_empty() { return Ok(&[]); }
        bytemuck::checked::try_cast_slice(&self.bytes).map_err(DataError::CastError)
    }
    pub fn to_vec<E: Element>(&self) -> Result<Vec<E>, DataError> { Ok(self.as_slice::<E>()?.to_vec()) }
    pub fn into_vec<E: Element>(self) -> Result<Vec<E>, DataError> { self.to_vec() }
    fn nums(&self) -> Vec<Num> {
        fn go<E: Element>(d: &TensorData) -> Vec<Num> { d.as_slice::<E>().unwrap().iter().map(|v| v.to_num()).collect() }
        match self.dtype {
            DType::F64 => go::<f64>(self), DType::F32 | DType::Flex32 => go::<f32>(self),
            DType::F16 => go::<half::f16>(self), DType::BF16 => go::<half::bf16>(self),
            DType::I64 => go::<i64>(self), DType::I32 => go::<i32>(self), DType::I16 => go::<i16>(self), DType::I8 => go::<i8>(self),
            DType::U64 => go::<u64>(self), DType::U32 => go::<u32>(self), DType::U16 => go::<u16>(self), DType::U8 => go::<u8>(self),
            DType::Bool => go::<bool>(self), DType::QFloat => unimplemented!(),
        }
    }
    pub fn iter<E: Element>(&self) -> impl Iterator<Item = E> { self.nums().into_iter().map(E::from_num) }
    pub fn convert<E: Element>(self) -> Self {
        if E::dtype() == self.dtype { return self; }
        let v: Vec<E> = self.iter::<E>().collect();
        TensorData { bytes: Bytes::from_elems(v), shape: self.shape, dtype: E::dtype() }
    }
    pub fn convert_dtype(self, dtype: DType) -> Self {
        match dtype {
            DType::F64 => self.convert::<f64>(), DType::F32 | DType::Flex32 => self.convert::<f32>(),
            DType::F16 => self.convert::<half::f16>(), DType::BF16 => self.convert::<half::bf16>(),
            DType::I64 => self.convert::<i64>(), DType::I32 => self.convert::<i32>(), DType::I16 => self.convert::<i16>(), DType::I8 => self.convert::<i8>(),
            DType::U64 => self.convert::<u64>(), DType::U32 => self.convert::<u32>(), DType::U16 => self.convert::<u16>(), DType::U8 => self.convert::<u8>(),
            DType::Bool => self.convert::<bool>(), DType::QFloat => unimplemented!(),
        }
    }
}
impl<E: Element> From<&[E]> for TensorData { fn from(v: &[E]) -> Self { TensorData::new(v.to_vec(), [v.len()]) } }
impl<E: Element, const A: usize> From<[E; A]> for TensorData { fn from(v: [E; A]) -> Self { TensorData::new(v.to_vec(), [A]) } }
impl<E: Element, const A: usize, const B: usize> From<[[E; B]; A]> for TensorData {
    fn from(v: [[E; B]; A]) -> Self { TensorData::new(v.iter().flatten().copied().collect::<Vec<E>>(), [A, B]) } }
