//! Stored tensors, decoded independently of the code under test.
use burn_tensor::{DType, TensorData};
use sem::*;
use symrt::conc;
pub fn code(d: DType) -> i32 { match d { DType::F32 => 1, DType::U8 => 2, DType::I8 => 3, DType::U16 => 4, DType::I16 => 5, DType::I32 => 6, DType::I64 => 7, DType::Bool => 9, DType::F16 => 10, DType::F64 => 11, DType::U32 => 12, DType::U64 => 13, DType::BF16 => 16, _ => 0 } }
fn cf(bits: i64, wide: bool) -> E { let b = conc(bits) as u64; k(if wide { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 }) }
/// value of stored tensor data, decoded independently of the importer
pub fn val(d: &TensorData) -> V {
    let b = d.as_bytes(); let mut o = vec![];
    match d.dtype {
        DType::F32 => for c in b.chunks_exact(4) { o.push(cf(u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64, false)); },
        DType::F64 => for c in b.chunks_exact(8) { o.push(cf(i64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]), true)); },
        DType::I64 | DType::U64 => for c in b.chunks_exact(8) { o.push(E::I(i64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))); },
        DType::I32 => for c in b.chunks_exact(4) { o.push(E::I(i32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64)); },
        DType::U32 => for c in b.chunks_exact(4) { o.push(E::I(u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64)); },
        DType::I16 => for c in b.chunks_exact(2) { o.push(E::I(i16::from_le_bytes([c[0], c[1]]) as i64)); },
        DType::U16 => for c in b.chunks_exact(2) { o.push(E::I(u16::from_le_bytes([c[0], c[1]]) as i64)); },
        DType::I8 => for c in b { o.push(E::I(*c as i8 as i64)); }, DType::U8 | DType::Bool => for c in b { o.push(E::I(*c as i64)); },
        _ => {}
    }
    V { s: d.shape.iter().map(|v| conc(*v as i64) as usize).collect(), d: o, t: code(d.dtype) }
}
