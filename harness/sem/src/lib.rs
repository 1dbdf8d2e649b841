//! Reference semantics of ONNX operators over a free algebra: tensor elements
//! are integers (possibly symbolic) or polynomials with real coefficients over
//! uninterpreted atoms, so one evaluation speaks for every value of the inputs.
pub mod alg; pub mod cases; pub mod ops; pub mod pb;
pub use alg::*;
