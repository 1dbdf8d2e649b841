#![allow(invalid_runtime_symbol_definitions)]
use symrt::*;
use sem::pb; mod ext; mod fs; mod irsem; mod semt; mod shapes; mod shapes2; mod simp;
entries! { import_op => semt::import_op; simplify_op => semt::simplify_op; rewrite => simp::rewrite; ext_location => ext::location; ext_range => ext::range; shape_move => shapes::movement; shape_spatial => shapes2::spatial; shape_index => shapes2::indexing; shape_elem => shapes2::elementwise; }
