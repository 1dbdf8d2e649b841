"""Which harness entries decide which property, and within which bounds."""
ASSUMPTIONS = [
    "symx (LLVM-IR symbolic executor, /verif/symx) and Z3 are trusted; every run replays a sample of path witnesses natively and compares all observations",
    "burn's git dependencies are replaced by the environment stubs in /verif/stubs (onnx-ir's 764 and burn-onnx's 665 own unit tests pass with them)",
    "code compiled with rustc -O1, overflow checks on, panic=abort; allocation never fails",
]
PROPS = {}
# planted bugs not caught by their property's check
CAUGHT = {}


def prop(id, bounds, entries, outside="", assumptions=(), level="model_checking"):
    PROPS[id] = dict(bounds=bounds, entries=entries, outside=outside, assumptions=list(assumptions), level=level)


def e(entry, *args, thorough=None, harness="ir", tier="quick", covers=(), **kw):
    d = dict(entry=entry, args=[list(a) if isinstance(a, tuple) else [a] for a in args] or [[]], harness=harness, tier=tier, covers=list(covers), **kw)
    if thorough is not None:
        d["args_thorough"] = d["args"] + [list(a) if isinstance(a, tuple) else [a] for a in thorough]
    return d


prop("C01", "location = optional fixed prefix + up to 5 (thorough: 6) symbolic ASCII bytes; five ways of naming the model file; data file present or not; simulated file system with one escaping and one contained symbolic link",
     [e("ext_location", *[(n, b, m, 0) for n in (0, 1, 3) for b in range(5) for m in (0, 1)], (5, 0, 0, 0), (5, 1, 0, 0), *[(2, b, 0, p) for b in (0, 1) for p in range(1, 7)], covers=["loaded"],
        thorough=[(6, b, 0, 0) for b in range(5)] + [(4, b, 0, p) for b in range(5) for p in range(1, 7)])],
     outside="longer location strings, non-ASCII bytes, more than one symbolic link, changes of the file system during the import")
prop("C02", "12-byte file with symbolic contents; offset and length decimal strings of up to 2 (thorough: 3) symbolic digits or absent, with sign and 20-digit overflow variants; 0 to 3 elements of five element types",
     [e("ext_range", (2, 0, 0, 0, 0), (1, 1, 1, 1, 0), (2, 1, 4, 0, 0), (0, 2, 2, 1, 0), (1, 0, 1, 0, 1), (1, 0, 0, 0, 2), (1, 0, 0, 0, 3), (0, 0, 3, 0, 0), (2, 1, 0, 0, 0, 1), (1, 0, 1, 0, 0, 1), covers=["loaded"],
        thorough=[(2, 2, t, o, 0) for t in range(5) for o in (0, 1)] + [(3, 0, t, 1, 0) for t in range(5)] + [(2, 2, t, 0, 0, 1) for t in range(5)])],
     outside="files longer than 12 bytes")

# --- types inferred for values ---------------------------------------------
_TB = "every input dimension 1..4 (thorough 1..5) and every attribute value symbolic within the operator's small range; "
_OUT = "dimension 0, larger dimensions and ranks, operators not listed; control-flow operators"
prop("C10", _TB + "ranks 1..3 (4 for the depth/space operators); every axis position; input dimensions declared, partly declared or undeclared; shapes given as constants or computed from Shape()",
     [e("shape_move",
        *[(0, m, v) for v in (11, 22, 23, 32, 33) for m in (0,)], (0, 3, 22), (0, 2, 32), (0, 5, 32), (0, 7, 33), (1, 0, 1), (1, 0, 3), (1, 2, 3), (1, 0, 4),
        *[(2, 0, v) for v in (300, 310, 320, 311)], (2, 2, 310), (2, 2, 300), (3, 0, 110), (3, 0, 220), (3, 0, 211), (3, 1, 220),
        (4, 0, 20), (4, 0, 30), (4, 0, 31), (4, 2, 30), (5, 0, 22), (5, 0, 23), (5, 0, 32), (5, 1, 22), (5, 2, 33), (6, 0, 2), (6, 1, 2), (6, 0, 3),
        (7, 0, 20), (7, 0, 21), (7, 0, 22), (7, 1, 20), (7, 3, 20), (8, 0, 11), (8, 0, 21), (8, 0, 20), (8, 0, 22), (8, 1, 22), (8, 0, 1011), (8, 0, 1021), (8, 0, 2021),
        (9, 0, 12), (9, 0, 22), (9, 1, 22), (9, 0, 33), (9, 5, 22), (10, 0, 220), (10, 1, 220), (10, 0, 221), (10, 1, 221), (10, 0, 222), (10, 0, 232), (10, 0, 223), (10, 2, 222),
        (11, 0), (11, 2), (11, 5), (12, 0), (12, 6), (13, 0, 1), (13, 0, 3), (13, 7, 3), (14, 0, 1), (14, 0, 3), (14, 3, 3), (15, 0, 10), (15, 0, 20), (15, 0, 21), (15, 0, 30),
        (16, 0, 1), (16, 0, 3), (16, 5, 3), (17, 0, 1), (17, 0, 2), (17, 0, 3), (17, 4, 2), (17, 3, 2), (18, 0, 1), (18, 0, 2), (18, 0, 3), (18, 5, 2), (18, 12, 2),
        (19, 0, 0), (19, 0, 1), (19, 0, 2), (19, 1, 0), (20, 0, 0), (20, 0, 1), (20, 7, 1), covers=["accepted", "claimed", "shape", "scalar", "refused"],
        thorough=[(0, m, v) for v in (34, 43) for m in (0, 5)] + [(8, 0, 1022), (8, 0, 32), (8, 2, 1022), (2, 0, 430), (3, 0, 320), (4, 0, 40), (9, 0, 43), (9, 0, 34), (10, 0, 332), (10, 0, 340), (13, 0, 5)]
        + [(c, 0, v, 0, 0, 0, 0, 0, 1) for c, v in ((0, 22), (0, 33), (2, 310), (5, 22), (8, 21), (9, 22), (10, 220), (13, 3), (17, 2), (18, 2), (20, 1))])],
     outside=_OUT)
prop("C11", _TB + "1-, 2- and 3-D windows: kernel, stride, dilation and padding symbolic (1..3, pads 0..2), all four auto_pad modes, ceil_mode, groups; 1..3 batch and channels; recurrent layers with sequence up to 4 in all directions",
     [e("shape_spatial", *[(c, 0, 0, v) for c in (0, 1, 2, 6, 7, 8, 9, 4, 5, 11, 12, 13, 14, 16, 17, 18) for v in (0, 1, 2) if not (c < 3 and v == 1) and not (c in (11, 12, 13, 14) and v)],
        *[(c, m, a) for c in (0, 1, 2, 6, 7) for a in (1, 2, 3) for m in (0,)], *[(c, 1, 0) for c in range(4, 10)], (0, 1, 0), (1, 12, 0), (1, 2, 1), (8, 0, 1), (9, 0, 1), (4, 0, 1), (5, 0, 1),
        (10, 0, 0, 2), (10, 0, 0, 3), *[(7, 4, 0, v) for v in (0, 2, 3, 4)], *[(7, 0, 0, v) for v in (4, 7, 8)], (9, 0, 0, 4), (1, 0, 0, 4), (1, 0, 0, 6), *[(4, 0, 0, v) for v in (4, 7, 8)], *[(15, 0, 0, v) for v in (0, 1, 3, 4, 5)],
        covers=["accepted", "claimed"], thorough=[(c, m, a, v) for c in (0, 1, 2) for m in (4, 12) for a in (0, 1) for v in (0, 2)] + [(c, m, 0, 0) for c in (16, 17, 18, 14, 13) for m in (1, 3, 7)] + [(c, m, 0, v) for c in (6, 7, 8, 9) for m in (2, 4) for v in (0, 1, 2, 4)])],
     outside=_OUT)
prop("C12", _TB + "ranks 1..3 (MatMul up to 4); every axis, keepdims both ways, axes as input and as attribute",
     [e("shape_index", *[(0, 0, o * 100 + 31) for o in range(10)], (0, 0, 30), (0, 0, 20, 1), (0, 0, 31, 1), (0, 0, 32, 1), (0, 0, 32), (0, 0, 31, 2), (0, 0, 30, 2), (0, 2, 31), (0, 0, 11), (0, 0, 10),
        (1, 0, 1), (1, 0, 3), (2, 0, 2), (1, 1, 2), (3, 0, 1), (3, 0, 2), (3, 2, 3), *[(4, 0, v) for v in (10, 11, 20, 22, 31)], (4, 0, 20, 1), (4, 0, 10, 1), (4, 0, 21, 1), (4, 3, 21), (5, 0, 2), (5, 1, 2), (5, 0, 3),
        (6, 0, 22), (6, 0, 32), (6, 0, 33, 1), (7, 0, 0), (7, 0, 1), *[(8, 0, v) for v in range(4)], (9, 0, 1), (9, 0, 2), (10, 0, 1), (10, 0, 2), (11, 0, 0),
        *[(12, 0, v) for v in (11, 12, 21, 22, 23, 32, 33, 44)], (12, 1, 22), (12, 2, 33), *[(13, 0, v) for v in range(4)], (13, 1, 1), *[(14, 0, v) for v in (10, 20, 21, 30, 31)], (14, 1, 30), (15, 0, 0), (15, 1, 0), (16, 0, 0), (16, 15, 0),
        covers=["accepted", "claimed", "scalar"], thorough=[(0, m, o * 100 + 42) for o in (0, 4) for m in (0, 5)] + [(0, 0, o * 100 + 31, 1) for o in range(10)] + [(1, 0, 4), (3, 0, 4), (4, 0, 33), (4, 5, 32), (9, 0, 3), (12, 0, 34), (12, 0, 43)])],
     outside=_OUT)
prop("C13", _TB + "every pair of ranks 1..3, 14 binary, 31 unary and 4 variadic operators, Where of three ranks, Cast to eight types; operands with declared, partly declared or unknown shapes; arithmetic on Shape() values and constants",
     [e("shape_elem", *[(0, m, o * 100 + v) for o in range(14) for v, m in ((22, 0), (12, 0), (21, 1))], (0, 0, 33), (0, 9, 33), (0, 0, 22, 1), (0, 0, 12, 1), (0, 0, 21, 1), (0, 4, 22, 1),
        (1, 0, 222), (1, 0, 123), (1, 3, 212), (1, 0, 321), *[(2, 0, u) for u in range(31)], (2, 5, 11), *[(3, 0, v) for v in (1, 2, 3, 6, 7, 9, 10, 11, 100, 101, 102)], *[(4, 0, v) for v in range(4)], (4, 2, 0),
        *[(5, 0, a, b) for a, b in ((2, 0), (1, 0), (2, 2), (1, 2), (2, 3))], *[(6, 0, a, b, c) for a, b, c in ((3, 0, 0), (1, 0, 0), (1, 1, 0), (3, 2, 0), (3, 3, 0), (3, 0, 1), (1, 0, 1))], (7, 0, 0), (7, 1, 0),
        covers=["accepted", "claimed", "shape"], thorough=[(0, m, o * 100 + v, h) for o in (0, 5, 8, 10, 12) for v in (13, 31, 23, 32, 33) for m in (0, 10) for h in (0, 1)] + [(2, m, u) for u in range(31) for m in (2, 7)])],
     outside=_OUT)

# --- meaning of imported operators -------------------------------------------
_SB = "input elements abstract (every real value at once); every dimension, axis, size and attribute symbolic in its small range; "
_SO = "larger ranks and dimensions, operators without reference semantics (Resize, GridSample, DeformConv, Col2Im, recurrent layers, control flow), rounding of floating-point arithmetic"
prop("C14", _SB + "1- to 3-D convolutions and transposed convolutions, 1- and 2-D pooling, groups, all auto_pad modes, ceil_mode; batch, instance, layer and group normalisation",
     [e("import_op", *[(1, c, 0, v) for c in (0, 1, 2, 3) for v in (1, 2)], (1, 0, 0, 3), (1, 1, 0, 3), *[(1, c, 0, v) for c in (2, 3) for v in (11, 21, 31)], (1, 0, 0, 12), (1, 0, 0, 22), (1, 0, 0, 32), (1, 4, 0, 2), (1, 5, 0, 1), (1, 5, 0, 11), (1, 6, 0, 1), (1, 7, 0, 2), (1, 8, 0, 1), (1, 8, 0, 11),
        covers=["imported", "refused"], thorough=[(1, 0, 0, 11), (1, 0, 0, 21), (1, 0, 0, 31), (1, 2, 0, 12), (1, 3, 0, 22), (1, 7, 0, 3), (1, 5, 0, 2), (1, 6, 0, 2), (1, 0, 4, 1), (1, 1, 4, 1), (1, 2, 4, 1), (1, 3, 12, 2)])],
     outside=_SO)
prop("C15", _SB + "ranks 1 to 3; parameters given as initializers, Constant nodes, attributes or run-time inputs; opsets on both sides of the Softmax and Reduce changes",
     [e("import_op", (0, 0, 0, 132), (0, 0, 0, 22), (0, 0, 0, 212), (0, 1, 0, 1), (0, 1, 0, 3), (0, 2, 0, 31), (0, 2, 0, 32), (0, 2, 0, 20), (0, 2, 0, 131), (0, 2, 0, 531), (0, 2, 0, 520), (0, 3, 0, 521), (0, 7, 0, 520), (0, 7, 0, 521), (0, 7, 0, 522), (0, 8, 0, 511), (0, 8, 0, 521), (0, 10, 0, 512), (0, 10, 0, 522), (2, 3, 0, 5002), (2, 17, 0, 3), (2, 17, 0, 1003), (2, 17, 0, 1002), (0, 3, 0, 21), (0, 3, 0, 12), (0, 3, 0, 111), (0, 4, 0, 2), (0, 4, 0, 3), (0, 4, 0, 4), (0, 5, 0, 22), (0, 5, 0, 23), (0, 5, 0, 32), (0, 5, 0, 222), (0, 6, 0, 2), (0, 6, 0, 3), (0, 6, 0, 202),
        *[(0, 7, 0, v) for v in (20, 21, 22, 23, 24, 120, 220)], (0, 8, 0, 11), (0, 8, 0, 111), (0, 8, 0, 211), (0, 9, 0, 22), (0, 9, 0, 23), (0, 9, 0, 12), (0, 10, 0, 12), (0, 10, 0, 22), (0, 10, 0, 13), (0, 11), (0, 12), (0, 13, 0, 2), (0, 13, 0, 3), (0, 14, 0, 2), (0, 15, 0, 2), (0, 15, 0, 202), (0, 16), (0, 17, 0, 2), (0, 17, 0, 3), (0, 17, 0, 202), (0, 18, 0, 2),
        *[(2, 0, 0, o * 100 + 21) for o in range(10)], (2, 0, 0, 31), (2, 0, 0, 32), (2, 0, 0, 30), (2, 0, 0, 1022), (2, 1, 0, 2), (2, 2, 0, 2), (2, 3, 0, 2), (2, 4, 0, 21), (2, 4, 0, 12), (2, 4, 0, 20), (2, 4, 0, 1021), (2, 5, 0, 2), (2, 6, 0, 22), (2, 6, 0, 21), (2, 6, 0, 121), (2, 7, 0, 1), (2, 7, 0, 2), (2, 16, 0, 1), (2, 8, 0, 21), (2, 8, 0, 22), (2, 9, 0, 1), (2, 10, 0, 0), (2, 10, 0, 1000), (2, 11, 0, 2), (2, 11, 0, 1002), (2, 12, 0, 2), (2, 12, 0, 3), (2, 12, 0, 1002), (2, 12, 0, 1003), (2, 13, 0, 2), (2, 13, 0, 1003),
        *[(2, 14, 0, v) for v in (11, 12, 21, 22, 23, 32, 33, 1022, 1021, 1032)], *[(2, 15, 0, v) for v in (0, 1, 3, 1001, 1002)], (2, 17, 0, 2),
        *[(3, 0, 0, o * 100 + 12) for o in range(7)], (3, 0, 0, 22), (3, 0, 0, 10322), (3, 0, 0, 20322), *[(3, 1, 0, o * 100 + 12) for o in range(5)], *[(3, 2, 0, o * 100 + 21) for o in range(3)], *[(3, 3, 0, o * 10 + 2) for o in range(36)], (3, 4, 0, 2), (3, 5, 0, 2), (3, 6, 0, 2), (3, 6, 0, 20002), *[(3, 7, 0, o * 100 + 22) for o in range(4)], (3, 8, 0, 122), (3, 8, 0, 212), *[(3, 9, 0, f * 10 + t) for f in range(4) for t in range(8)], (3, 10, 0, 2), (3, 11, 0, 2), *[(3, 12, 0, o * 100 + 22) for o in range(4)], (3, 13, 0, 0), (3, 13, 0, 1), (3, 14, 0, 0), (3, 14, 0, 1), (3, 14, 0, 2),
        covers=["imported", "refused"], thorough=[(0, 0, 0, 23), (0, 8, 0, 21), (0, 8, 0, 22), (0, 7, 0, 30), (0, 10, 0, 23), (2, 9, 0, 2), (2, 16, 0, 0), (2, 4, 0, 31), (2, 5, 0, 3), *[(2, 0, 0, o * 100 + 32) for o in range(10)], *[(2, 15, 0, v) for v in (2, 4, 5, 1000, 1003, 1004, 1005)], (2, 1, 0, 3), (2, 2, 0, 3), (2, 3, 0, 3), (3, 0, 0, 33), (3, 0, 5, 22), (3, 8, 0, 222)])],
     outside=_SO)

# --- generated code ----------------------------------------------------------
_GB = "single-operator models, every dimension 1..3 and every attribute and constant operand within the operator's small range, symbolic; inputs are abstract tensors (every real or integer value at once); the generated Rust code, as the token stream the code generator returns, is parsed and executed with the meaning of burn's API; "
_GO = "the meaning of burn's own operations (modelled after burn's documentation), rustc's type checking of the generated code beyond names, ranks, kinds and const shapes, dimension 0, larger dimensions and ranks"
_GA = ["burn's tensor operations and modules mean what burn's documentation says (harness/gen/src/burn.rs)"]
def _g(*groups):
    out = []
    for p in ("C14", "C15"):
        for d in PROPS[p]["entries"]:
            for a in d["args"]:
                if a[0] in groups and d["entry"] == "import_op" and a not in out and tuple(a) != (0, 7, 0, 24) and len(a) <= 4:
                    out.append(tuple(a))
    return out
_slow = {(2, 7, 0, 2)}
def gen(groups, *more, thorough=(), covers=("generated", "computed")):
    l = [a for a in _g(*groups) if a not in _slow] + list(more)
    return [e("gen_op", *l, harness="gen", covers=covers, thorough=[a for a in _slow if a[0] in groups] + list(thorough))]
prop("C16", _GB + "ranks 1 to 3", gen((0,)), outside=_GO, assumptions=_GA)
prop("C17", _GB + "ranks 1 to 3", gen((2,), (2, 7, 0, 12)), outside=_GO, assumptions=_GA)
prop("C18", _GB + "ranks 1 to 3", gen((3,), (3, 0, 0, 633), (3, 0, 0, 631), (3, 0, 0, 621)), outside=_GO, assumptions=_GA)
prop("C19", _GB + "1- to 3-D convolutions and transposed convolutions, 1- and 2-D pooling, groups, all auto_pad modes, ceil_mode; batch, instance, layer and group normalisation; weights of up to some dozen elements", gen((1,)), outside=_GO, assumptions=_GA)

# --- graph rewriting ---------------------------------------------------------
_RB = "input elements abstract (every real value at once); each template's operator choices, operand order, attributes, dimensions (1..3) and constant values symbolic or exhaustively forked by the solver; "
_RO = "larger graphs, ranks above 4, rewriting inside control-flow bodies, rounding of floating-point arithmetic"
def across(id, entry="import_op"):
    """the same models in the oldest and newest opset that define the operators alike"""
    for d in PROPS[id]["entries"]:
        if d["entry"] == entry:
            d["args"] = d["args"] + [(list(a) + [0] * 4)[:4] + [o] for a in d["args"] for o in (13, 24)]
            if "args_thorough" in d: d["args_thorough"] = d["args"] + [a for a in d["args_thorough"] if a not in d["args"]]
base = [a for d in PROPS["C15"]["entries"] for a in d["args"]]
across("C14"); across("C15")


def rw(*a, thorough=(), covers=("imported", "simplified")):
    return [e("rewrite", *a, thorough=list(thorough), covers=list(covers))]
prop("C04", _RB + "all graphs of up to 2 (thorough: 3) nodes over Relu, Identity, Sub, Mul, two inputs (or one and two constants) and one or two outputs; Split and Dropout with every subset of outputs used",
     rw((9, 0, 1), (9, 0, 2), (9, 0, 12), (9, 0, 21), (9, 0, 22), (10, 0, 0), (10, 0, 1), thorough=[(9, 0, 3), (9, 0, 13)]), outside=_RO)
prop("C05", _RB + "shapes of rank 1..3 read by Shape, Gather, Slice, Concat and ConstantOfShape; constants of up to 3 elements with full 32/64-bit symbolic integers for integer arithmetic",
     rw(*[(2, 0, v) for v in (10, 11, 12, 13, 14, 20, 21, 23, 110, 112)], (2, 1, 10), (2, 0, 310), (2, 0, 430), *[(3, 0, v) for v in (0, 1, 11, 12, 22, 23, 33, 44, 100, 102, 103, 104, 105, 163, 164, 200, 203, 204, 300, 302, 303, 310, 312, 320, 323, 400, 402, 404, 500, 501, 505, 510, 515, 520, 525, 530, 535, 610, 620, 621, 622, 700, 701, 702, 703, 704, 705)],
        thorough=[(2, 0, 22), (2, 0, 24), (2, 0, 114), (2, 0, 120), (2, 0, 122), (2, 0, 210), (2, 0, 212), (2, 1, 12), (2, 2, 11)]), outside=_RO)
prop("C06", _RB + "reshapes through gathered dimensions of rank 2 and 3; chains of two idempotent or involutive operators; 11 families of duplicated nodes",
     rw((1, 0, 23), (1, 0, 32), (1, 0, 132), (1, 0, 122), (4, 0, 30), *[(6, 0, v) for v in range(11)], (10, 0, 0), thorough=[(1, 0, 33), (1, 0, 133), (1, 1, 23), (4, 1, 30), (6, 1, 1), (6, 1, 5)]), outside=_RO)
prop("C07", _RB + "attention with head dimension 1 or 4, 1 head, 2x2 positions; scales by constants of several values and shapes, by Div, Mul, Sqrt or run-time values; masks; extra uses of intermediate values",
     rw(*[(0, 0, v) for v in range(8)]), outside=_RO + "; more heads and positions")
prop("C08", _RB + "input rank 1..3, weights 1..2 by 1..2 as initializer, Constant node or run-time value, biases of seven shapes, extra uses of the product, alpha, beta, transA, transB present or absent",
     rw(*[(8, 0, v) for v in (20, 21, 22, 23, 24, 25, 26, 30, 34, 35, 10, 13, 120, 130, 330, 420, 220, 222, 227)], (8, 1, 20), covers=("imported",), thorough=[(8, 0, v) for v in (223, 224, 226, 32, 221)] + [(8, 1, 220), (8, 3, 30)]), outside=_RO)
prop("C09", _RB + "12 kinds of no-op candidates, alone and (Identity, Flatten, Concat; thorough: all) in chains, on a graph input, a computed value or a constant, feeding nodes, outputs or both; constants around 0 and 1 of several shapes with 10 operators",
     rw((7, 0, 0), (5, 0, 0), (5, 0, 1), (5, 0, 2), (5, 0, 3), (5, 0, 4), *[(5, 0, v) for v in (100, 101, 102, 103, 104)], (10, 0, 1), (7, 0, 2), thorough=[(7, 0, 1), (7, 1, 0), (5, 1, 0)])
     + [e("simplify_op", *[tuple(a) for a in base], covers=["imported", "simplified"])], outside=_RO)
