//! Environment stub for the part of `burn` the importer itself calls (element
//! data, a small CPU tensor used to re-pack recurrent weights, module ids and
//! a few plain configuration enums).
pub mod tensor {
    pub use burn_tensor::*;
    use core::marker::PhantomData;
    use core::ops::Range;

    pub trait Backend: Clone { type Device: Default; }

    /// Row-major dense tensor of f64 (the importer only uses the f64 CPU backend).
    #[derive(Clone, Debug)]
    pub struct Tensor<B: Backend, const D: usize> { data: Vec<f64>, dims: [usize; D], b: PhantomData<B> }
    impl<B: Backend, const D: usize> Tensor<B, D> {
        pub fn from_data(data: TensorData, _device: &B::Device) -> Self {
            assert_eq!(data.shape.len(), D, "rank mismatch");
            let mut dims = [0; D];
            dims.copy_from_slice(&data.shape);
            let data = data.convert::<f64>().to_vec::<f64>().unwrap();
            Tensor { data, dims, b: PhantomData }
        }
        pub fn zeros(dims: [usize; D], _device: &B::Device) -> Self {
            Tensor { data: vec![0.0; dims.iter().product()], dims, b: PhantomData }
        }
        pub fn dims(&self) -> [usize; D] { self.dims }
        pub fn slice<const D2: usize>(self, ranges: [Range<usize>; D2]) -> Self {
            let mut cur = self;
            for (d, r) in ranges.iter().enumerate() {
                assert!(r.start <= r.end && r.end <= cur.dims[d], "slice out of range");
                let inner: usize = cur.dims[d + 1..].iter().product();
                let outer: usize = cur.dims[..d].iter().product();
                let mut out = Vec::with_capacity(outer * (r.end - r.start) * inner);
                for o in 0..outer {
                    let base = o * cur.dims[d] * inner;
                    out.extend_from_slice(&cur.data[base + r.start * inner..base + r.end * inner]);
                }
                cur.data = out;
                cur.dims[d] = r.end - r.start;
            }
            cur
        }
        pub fn squeeze<const D2: usize>(self) -> Tensor<B, D2> {
            let kept: Vec<usize> = self.dims.iter().copied().filter(|&d| d != 1).collect();
            let mut dims = [1; D2];
            if kept.len() == D2 { dims.copy_from_slice(&kept); }
            else {
                // drop leading unit dimensions only as far as needed
                let mut v: Vec<usize> = self.dims.to_vec();
                let mut i = 0;
                while v.len() > D2 && i < v.len() { if v[i] == 1 { v.remove(i); } else { i += 1; } }
                assert_eq!(v.len(), D2, "cannot squeeze");
                dims.copy_from_slice(&v);
            }
            Tensor { data: self.data, dims, b: PhantomData }
        }
        pub fn transpose(self) -> Self {
            let (r, c) = (self.dims[D - 2], self.dims[D - 1]);
            let mut out = Vec::with_capacity(self.data.len());
            for blk in self.data.chunks(r * c) {
                for j in 0..c { for i in 0..r { out.push(blk[i * c + j]); } }
            }
            let mut dims = self.dims;
            dims.swap(D - 2, D - 1);
            Tensor { data: out, dims, b: PhantomData }
        }
        pub fn into_data(self) -> TensorData { TensorData::new(self.data, self.dims.to_vec()) }
        #[allow(clippy::should_implement_trait)]
        pub fn add(self, o: Self) -> Self {
            assert_eq!(self.dims, o.dims);
            Tensor { data: self.data.iter().zip(&o.data).map(|(a, b)| a + b).collect(), dims: self.dims, b: PhantomData }
        }
        pub fn to_data(&self) -> TensorData { self.clone().into_data() }
    }
}
pub mod module {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ParamId(u64);
    impl ParamId { pub fn new() -> Self { ParamId(0) } }
    impl Default for ParamId { fn default() -> Self { Self::new() } }
}
pub mod nn {
    macro_rules! cfg { ($($n:ident),*) => { $(#[derive(Clone, Debug)] pub struct $n; impl $n { #[allow(clippy::new_without_default)] pub fn new() -> Self { $n } })* } }
    cfg!(HardSigmoidConfig, LeakyReluConfig, SoftplusConfig);
    pub mod activation {
        #[derive(Clone, Debug)]
        pub enum ActivationConfig { Sigmoid, Tanh, Relu, HardSigmoid(super::HardSigmoidConfig), LeakyRelu(super::LeakyReluConfig), Softplus(super::SoftplusConfig) }
    }
}
