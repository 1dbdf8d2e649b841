//! Environment stub: the CPU backend tag.
use core::marker::PhantomData;
#[derive(Clone, Debug)]
pub struct NdArray<E>(PhantomData<E>);
#[derive(Clone, Debug, Default)]
pub struct NdArrayDevice;
impl<E: Clone> burn::tensor::Backend for NdArray<E> { type Device = NdArrayDevice; }
