PROPS = []


def P(id, title, statement, over, text, why, files, mech, note=None, na=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if na:
        d["na"] = na
    PROPS.append(d)


I = "crates/onnx-ir/src/"
P("C01", "External tensor data never leaves the model's directory",
  "Whatever location string a model gives for a tensor's external data, and however the model file itself is named, an import never opens a file outside the directory that holds the model file, whether by an absolute path, by parent references or through a symbolic link; such locations, and locations containing NUL bytes, are refused.",
  ["inputs"], "every location string within the length bound, every way of naming the model file (absolute, relative, bare file name)",
  "The tests try a dozen hand-picked locations; a traversal needs one unusual combination of separators, dots, links and base directory.",
  [I + "external_data.rs", I + "proto_conversion.rs", I + "pipeline.rs"],
  [("location validation and canonical containment check", I + "external_data.rs resolve_path"), ("base directory of the model", I + "pipeline.rs parse_buffer")])
P("C02", "External tensor data is exactly the requested byte range",
  "When a tensor's data lives in an external file, the value the importer hands out consists of exactly the bytes from the given offset (default 0) over the given length (default: element count times element size), independent of the order of the entries; a range that reaches beyond the end of the file, or a malformed or overflowing offset or length, is refused.",
  ["inputs"], "every offset/length text within the digit bound, every file content, several element types and sizes",
  "The tests parse a few fixed offsets and never read data; off-by-one ranges, defaulting and overflow depend on values the tests do not sample.",
  [I + "external_data.rs", I + "tensor_store.rs", I + "proto_conversion.rs"],
  [("entry parsing", I + "external_data.rs from_proto_entries"), ("mmap and read loading", I + "tensor_store.rs load_external_data"), ("default length", I + "proto_conversion.rs create_external_data_ref")])
_tw = "The tests fix one shape per operator; a wrong rank or dimension claim shows only for particular combinations of ranks, axes, attribute values and unknown dimensions."
_pr = I + "processor.rs"
P("C10", "Types claimed for data-movement operators are right",
  "For every valid ONNX node that rearranges data (Reshape, Flatten, Squeeze, Unsqueeze, Transpose, Expand, Tile, Pad, Slice, Concat, Split, DepthToSpace, SpaceToDepth, Shape, Size, ConstantOfShape, EyeLike, Trilu, Identity), the rank, element type and every concrete dimension or shape length the importer claims for an output equal what the ONNX operator produces; a dimension that cannot be known is left unknown, and a supported node is not refused.",
  ["inputs"], "all input dimensions, axes, sizes and attribute values within the bounds, each dimension declared or undeclared", _tw,
  [I + "node/" + f for f in ("reshape.rs", "squeeze.rs", "unsqueeze.rs", "slice.rs", "concat.rs", "split.rs", "shape.rs", "expand.rs", "transpose.rs", "flatten.rs", "depth_to_space.rs", "space_to_depth.rs", "constant_of_shape.rs", "pad.rs", "tile.rs")] + [I + "phases/type_inference.rs"],
  [("per-operator type inference", I + "node/*.rs infer_types"), ("propagation through the graph", I + "phases/type_inference.rs")])
P("C11", "Types claimed for convolution, pooling, resampling and recurrent operators are right",
  "For every valid Conv, ConvTranspose, MaxPool, AveragePool, GlobalAveragePool, Resize, GridSample, Col2Im, DeformConv, normalisation, LSTM, GRU and RNN node, the rank, element type and every concrete dimension the importer claims for an output equal what the ONNX operator produces, for every kernel, stride, dilation, padding, auto_pad and ceil_mode setting and for partly unknown inputs.",
  ["inputs"], "all dimensions, kernels, strides, dilations and paddings within the bounds, declared or undeclared", _tw,
  [I + "node/" + f for f in ("conv1d.rs", "conv2d.rs", "conv3d.rs", "conv_transpose1d.rs", "conv_transpose2d.rs", "conv_transpose3d.rs", "max_pool1d.rs", "max_pool2d.rs", "avg_pool1d.rs", "avg_pool2d.rs", "global_avg_pool.rs", "resize.rs", "grid_sample.rs", "col2im.rs", "deform_conv.rs", "lstm.rs", "gru.rs", "rnn.rs")] + [_pr],
  [("spatial output sizes", I + "node/conv*.rs, max_pool*.rs infer_types"), ("rank-preserving outputs", _pr + " same_as_input, same_rank_as_input")])
P("C12", "Types claimed for reduction, indexing and matrix operators are right",
  "For every valid reduction, ArgMax, ArgMin, TopK, Gather, GatherElements, GatherND, Scatter, CumSum, Softmax family, OneHot, NonZero, Range, MatMul, Gemm, Linear and Attention node, the rank, element type and every concrete dimension the importer claims for an output equal what the ONNX operator produces, for every axis (also negative), keepdims setting and combination of ranks.",
  ["inputs"], "all dimensions, axes, keepdims and ranks within the bounds, declared or undeclared", _tw,
  [I + "node/" + f for f in ("reduce.rs", "argmax.rs", "argmin.rs", "topk.rs", "gather.rs", "gather_elements.rs", "gathernd.rs", "scatter_elements.rs", "scatter_nd.rs", "one_hot.rs", "matmul.rs", "gemm.rs", "linear.rs", "range.rs", "attention.rs")],
  [("reduction output shapes", I + "node/reduce.rs"), ("gather output types", I + "node/gather.rs"), ("matrix product ranks", I + "node/matmul.rs")])
P("C13", "Types claimed for elementwise and broadcasting operators are right",
  "For every valid elementwise node (unary, binary, comparison, logical, variadic, Where, Cast), the rank, element type and every concrete dimension claimed for the output equal the ONNX broadcast of the operands, also when some operands' shapes are unknown or are shape values; comparisons yield booleans, and arithmetic on shape values yields shape values of the broadcast length.",
  ["inputs"], "all dimensions within the bounds, every pair of ranks, declared or undeclared or hidden shapes", _tw,
  [_pr, I + "node/where_op.rs", I + "node/cast.rs", I + "node/comparison.rs", I + "node/arithmetic.rs"],
  [("broadcast inference", _pr + " broadcast_output_type, compute_broadcast_static_shape, compute_broadcast_rank")])

_ts = "The tests compare a handful of configurations with recorded outputs; a lost, defaulted or permuted attribute shows only for attribute combinations, ranks and sizes they do not contain."
P("C14", "Imported convolution, pooling and normalisation nodes keep their meaning",
  "Every Conv, ConvTranspose, MaxPool, AveragePool, GlobalAveragePool, BatchNormalization, InstanceNormalization, LayerNormalization and GroupNormalization node that the importer accepts carries, in the imported graph, a configuration (kernel, strides, dilations, begin and end padding, auto_pad, groups, ceil_mode, count_include_pad, epsilon with the ONNX default) and operands under which it computes exactly what the ONNX node computes, for every input; a setting that the imported form cannot express is refused, never ignored.",
  ["inputs"], "all attribute values and dimensions within the bounds, all real inputs", _ts,
  [I + "node/" + f for f in ("conv1d.rs", "conv2d.rs", "conv3d.rs", "conv_transpose1d.rs", "conv_transpose2d.rs", "conv_transpose3d.rs", "max_pool1d.rs", "max_pool2d.rs", "avg_pool1d.rs", "avg_pool2d.rs", "padding.rs", "batch_norm.rs", "instance_norm.rs", "layer_norm.rs", "group_norm.rs")],
  [("attribute extraction", I + "node/*.rs extract_config"), ("padding order", I + "node/padding.rs"), ("splitting by dimensionality", I + "phases/node_conversion.rs")])
P("C15", "Imported data-movement, indexing, reduction and elementwise nodes keep their meaning",
  "Every other non-recurrent, non-control-flow operator that the importer accepts (reshaping, slicing, padding, gathering, scattering, reductions, ArgMax, TopK, CumSum, Softmax, MatMul, Gemm, Attention, activations, comparisons, casts, generators) computes in the imported graph exactly what the ONNX node computes: negative axes, defaulted attributes, absent optional inputs, parameters given as attributes, constants or run-time values, and the opset's own defaults are all resolved as the ONNX specification says; a setting that the imported form cannot express is refused, never ignored.",
  ["inputs"], "all attribute and parameter values and dimensions within the bounds, all input values", _ts,
  [I + "node", I + "phases/node_conversion.rs", I + "processor.rs"],
  [("attribute extraction and axis normalisation", I + "node/*.rs extract_config"), ("lifting of constant parameters", I + "node/*.rs lift_constants")])

_tp = "The tests run each rewrite on one or two hand-built graphs; whether it is right depends on the operand order, the values of constants and shapes, and on who else uses a value, which they do not vary."
P("C04", "Imported graphs are well formed",
  "Whatever rewriting was applied, in the graph an import returns every operand is a graph input, a constant with data or the output of an earlier node, value and node names are unique, both ends of an edge have the same type, and the inputs and outputs are those of the model in number and order, each output still meaning what the model says, also when outputs repeat, are inputs, or belong to operators with several outputs of which only some are used.",
  ["inputs"], "every graph of the bounded size: all operator choices, all operand choices, all choices of outputs", _tp,
  [I + "pipeline.rs", I + "graph_state.rs", I + "phases/finalization.rs", I + "phases/post_processing.rs", I + "simplify"],
  [("node insertion and output renaming", I + "graph_state.rs add_node"), ("rewiring", I + "phases/post_processing.rs, simplify/mod.rs"), ("removal of unreferenced constants", I + "phases/finalization.rs")])
P("C05", "Folding of shapes and constants keeps the meaning of the model",
  "Replacing computations on Shape() values, Gather, Slice and Concat of shapes, ConstantOfShape and arithmetic on constants by constants gives exactly the tensors (shape, element type, every value) the ONNX operators would compute, for every input shape the model admits and every element value, with integer arithmetic as in ONNX; where a dimension is unknown, nothing is folded.",
  ["inputs"], "all shapes, indices, bounds and constant values within the bounds, dimensions declared or undeclared", _tp,
  [I + "simplify/constant_shape.rs", I + "simplify/constant_fold.rs"],
  [("shape folding", I + "simplify/constant_shape.rs"), ("constant folding", I + "simplify/constant_fold.rs")])
P("C06", "Structural simplification keeps the meaning of the model",
  "Merging equal nodes, collapsing repeated operations, replacing transpose-like reshapes and removing dead nodes leaves every output of the model with the value it had, for all inputs; nodes that differ in an operand, an attribute or the state they draw on are never merged, and a node is dropped only if nothing needs it.",
  ["inputs"], "all attribute and operand choices of the templates, all input values", _tp,
  [I + "simplify/redundant_nodes.rs", I + "simplify/idempotent.rs", I + "simplify/permute_reshape.rs", I + "simplify/dead_nodes.rs", I + "simplify/mod.rs"],
  [("common subexpressions", I + "simplify/redundant_nodes.rs"), ("idempotent chains", I + "simplify/idempotent.rs"), ("permute via reshape", I + "simplify/permute_reshape.rs")])
P("C07", "Attention fusion keeps the meaning of the model",
  "Where the importer replaces MatMul, scaling, masking, Softmax and MatMul by a single Attention node, that node computes what the pattern computed: same operands and transposition, same overall scale, same mask and softmax axis; graphs that only resemble the pattern, or whose intermediate values are used elsewhere, are left alone.",
  ["inputs"], "all placements and values of scales, masks, transpositions and extra uses in the templates, all real inputs", _tp,
  [I + "simplify/coalesce_attention.rs"], [("pattern match and scale computation", I + "simplify/coalesce_attention.rs")])
P("C08", "Fusion into Linear keeps the meaning of the model",
  "A MatMul, MatMul followed by Add, or Gemm is imported as Linear only if its weight is a constant matrix and its bias a constant vector with one element per output feature, and then computes the same output for every input; the product stays available to every other user of it, and alpha, beta and the transposition flags are honoured.",
  ["inputs"], "all bias shapes, operand orders, attributes, ranks and extra uses in the templates, all real inputs", _tp,
  [I + "phases/node_conversion.rs", I + "node/linear.rs", I + "node/gemm.rs"], [("fusion", I + "phases/node_conversion.rs coalesce")])
P("C09", "Eliminating no-ops keeps the meaning of the model",
  "A node is removed as a no-op (Identity, Dropout, Cast, Transpose, Flatten, Reshape, Expand, Pad, Concat, Split, Sum and its kind with one operand, adding 0, multiplying by 1, and so on) only if for every input its output has the same shape, element type and values as the operand that replaces it; chains of no-ops, no-ops on graph inputs, constants and graph outputs, and no-ops with further outputs resolve to the right value.",
  ["inputs"], "all attribute and operand values of the templates, all chains of two, all positions in the graph, all input values", _tp,
  [I + "phases/post_processing.rs", I + "simplify/identity_element.rs", I + "node"], [("no-op elimination", I + "phases/post_processing.rs"), ("identity elements", I + "simplify/identity_element.rs"), ("no-op predicates", I + "node/*.rs is_noop")])
GN = "crates/burn-onnx/src/burn/node"
_gt = "The tests compare the generated text of single configurations with recorded snapshots, right or wrong, and run it only in a separate test crate on a few fixed models; attribute, rank and shape combinations outside of them are never executed."
_gm = [("code of a node", GN + "/*.rs forward"), ("assembly of the model", "crates/burn-onnx/src/burn/graph.rs"), ("moves and clones", "crates/burn-onnx/src/burn/scope.rs")]
_gp = "The Rust code generated for a model computes, for every input, exactly what the ONNX model computes, and runs without panicking or using names, ranks or element kinds that do not exist; what cannot be generated faithfully is refused when the code is generated. "
P("C16", "Generated code of data-movement operators computes what the model computes",
  _gp + "This holds for every reshaping, transposing, expanding, tiling, padding, slicing, joining and splitting operator, for shape queries, constant fills, EyeLike and Trilu, in every configuration the importer accepts.",
  ["inputs"], "all attribute and parameter values and dimensions within the bounds, all input values", _gt, [GN, "crates/burn-onnx/src/burn/graph.rs"], _gm)
P("C17", "Generated code of reduction, indexing and matrix operators computes what the model computes",
  _gp + "This holds for reductions, ArgMax and ArgMin, TopK, gathering and scattering, OneHot, Range, CumSum, Softmax and its kind, matrix products, Gemm and Attention, in every configuration the importer accepts.",
  ["inputs"], "all attribute and parameter values and dimensions within the bounds, all input values", _gt, [GN, "crates/burn-onnx/src/burn/graph.rs"], _gm)
P("C18", "Generated code of elementwise operators computes what the model computes",
  _gp + "This holds for arithmetic, comparison, logical, bitwise and unary operators, activations, Clip, Where, Cast and random generators, with operands of different ranks and shapes broadcast as in ONNX, constants and scalars on either side, in every configuration the importer accepts.",
  ["inputs"], "all attribute values, operand ranks and dimensions within the bounds, all input values", _gt, [GN, "crates/burn-onnx/src/burn/graph.rs"], _gm)
P("C19", "Generated code and parameter file of layers with weights compute what the model computes",
  _gp + "This holds for convolutions, transposed convolutions, pooling and normalisation layers: every weight of the model is stored exactly once in the parameter file, under the path, with the shape, element type, layout and values with which the generated module loads it, and every setting of the layer reaches the module.",
  ["inputs"], "all attribute values, dimensions and weight shapes within the bounds, all input values", _gt, [GN, "crates/burn-onnx/src/burn/graph.rs", "crates/burn-onnx/src/model_gen.rs"], _gm + [("parameter snapshots", GN + "/*.rs collect_snapshots, burn/node_traits.rs create_lazy_snapshot")])
NOTES = {
 "C16": "generating the code for single-operator models with symbolic configuration, executing the generated program (parsed from the token stream, with the meaning of burn's API in `harness/gen`) on abstract tensors and requiring equal terms for every output element of the ONNX reference; weights are read from the snapshots handed to the parameter writer",
 "C17": "generating the code for single-operator models with symbolic configuration, executing the generated program (parsed from the token stream, with the meaning of burn's API in `harness/gen`) on abstract tensors and requiring equal terms for every output element of the ONNX reference; weights are read from the snapshots handed to the parameter writer",
 "C18": "generating the code for single-operator models with symbolic configuration, executing the generated program (parsed from the token stream, with the meaning of burn's API in `harness/gen`) on abstract tensors and requiring equal terms for every output element of the ONNX reference; weights are read from the snapshots handed to the parameter writer",
 "C19": "generating the code for single-operator models with symbolic configuration, executing the generated program (parsed from the token stream, with the meaning of burn's API in `harness/gen`) on abstract tensors and requiring equal terms for every output element of the ONNX reference; weights are read from the snapshots handed to the parameter writer",
 "C01": "running the location validation and the loading code on a symbolic file-system (path strings of symbolic bytes, links): the assertion is on every path the code passes to open/canonicalize",
 "C02": "running entry parsing and loading with symbolic digits and file contents; each byte of the result must be the term of the file byte the specification names",
 "C10": "importing single-operator models with symbolic dimensions and attributes; the claimed type is compared with the shape function of the ONNX reference on the same symbols",
 "C11": "importing single-operator models with symbolic dimensions and attributes; the claimed type is compared with the shape function of the ONNX reference on the same symbols",
 "C12": "importing single-operator models with symbolic dimensions and attributes; the claimed type is compared with the shape function of the ONNX reference on the same symbols",
 "C13": "importing single-operator models with symbolic dimensions and attributes; the claimed type is compared with the shape function of the ONNX reference on the same symbols",
 "C14": "evaluating the imported graph (meaning of every onnx-ir node configuration, `irsem.rs`) and the ONNX model on abstract tensors and requiring equal terms for every output element",
 "C15": "evaluating the imported graph (meaning of every onnx-ir node configuration, `irsem.rs`) and the ONNX model on abstract tensors and requiring equal terms for every output element",
 "C04": "enumerating, by solver forks over the operator and operand choices, all graphs of the bounded size, importing each with and without simplification, checking well-formedness and evaluating outputs",
 "C05": "importing rewrite templates with symbolic parameters, with simplification, and requiring the evaluated outputs to equal the model's on abstract tensors",
 "C06": "importing rewrite templates with symbolic parameters, with simplification, and requiring the evaluated outputs to equal the model's on abstract tensors",
 "C07": "importing rewrite templates with symbolic parameters, with simplification, and requiring the evaluated outputs to equal the model's on abstract tensors",
 "C08": "importing rewrite templates with symbolic parameters, with simplification, and requiring the evaluated outputs to equal the model's on abstract tensors",
 "C09": "importing rewrite templates with symbolic parameters, with simplification, and requiring the evaluated outputs to equal the model's on abstract tensors"
}
for _p in PROPS:
    _p.setdefault("note", NOTES.get(_p["id"]))
PROPS.sort(key=lambda p: p["id"])
