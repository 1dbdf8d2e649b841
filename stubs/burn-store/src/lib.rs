//! Environment stub: lazily loaded tensor snapshots and a recording writer.
use burn::{module::ParamId, tensor::{DType, TensorData}};
use std::{path::Path, rc::Rc};

#[derive(Debug)]
pub enum TensorSnapshotError { DataError(String), IoError(String), PanicError(String) }
type DataFn = Rc<dyn Fn() -> Result<TensorData, TensorSnapshotError>>;

#[derive(Clone)]
pub struct TensorSnapshot {
    data_fn: DataFn,
    pub dtype: DType,
    pub shape: Vec<usize>,
    pub path_stack: Option<Vec<String>>,
    pub container_stack: Option<Vec<String>>,
    pub tensor_id: Option<ParamId>,
}
impl core::fmt::Debug for TensorSnapshot {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("TensorSnapshot") }
}
impl TensorSnapshot {
    pub fn from_closure(data_fn: DataFn, dtype: DType, shape: Vec<usize>, path_stack: Vec<String>, container_stack: Vec<String>, tensor_id: ParamId) -> Self {
        TensorSnapshot { data_fn, dtype, shape, path_stack: Some(path_stack), container_stack: Some(container_stack), tensor_id: Some(tensor_id) }
    }
    pub fn to_data(&self) -> Result<TensorData, TensorSnapshotError> { (self.data_fn)() }
    pub fn full_path(&self) -> String { self.path_stack.as_ref().map(|p| p.join(".")).unwrap_or_default() }
}

/// Records what would be written; `write_to_file` creates a small marker file.
pub struct BurnpackWriter { snapshots: Vec<TensorSnapshot>, meta: Vec<(String, String)> }
thread_local! { pub static WRITTEN: std::cell::RefCell<Vec<(std::path::PathBuf, Vec<TensorSnapshot>)>> = const { std::cell::RefCell::new(Vec::new()) }; }
impl BurnpackWriter {
    pub fn new(snapshots: Vec<TensorSnapshot>) -> Self { BurnpackWriter { snapshots, meta: vec![] } }
    pub fn with_metadata(mut self, k: &str, v: &str) -> Self { self.meta.push((k.into(), v.into())); self }
    pub fn write_to_file<P: AsRef<Path>>(self, p: P) -> Result<(), std::io::Error> {
        let path = p.as_ref().to_path_buf();
        if !path.starts_with("/dev/null") { std::fs::write(&path, format!("burnpack stub: {} tensors\n", self.snapshots.len()))?; }
        WRITTEN.with(|w| w.borrow_mut().push((path, self.snapshots)));
        Ok(())
    }
}
