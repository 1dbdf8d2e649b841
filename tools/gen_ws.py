#!/usr/bin/env python3
"""Generates a workspace around /repo's current sources in which the whole of
onnx-ir (and burn-onnx) compiles offline: burn's git dependencies are replaced
by the environment stubs in /verif/stubs, every source file mirrors the
one in /repo, every manifest is derived from the one in /repo.

usage: gen_ws.py OUTDIR [--repo DIR] [--tests]"""
import os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
W = sys.argv[1]
TESTS = "--tests" in sys.argv


def put(path, text):
    path = f"{W}/{path}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def link(path, target):
    path = f"{W}/{path}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        os.unlink(path)
    os.symlink(target, path)


def sync(path, src):
    """Mirrors a source tree, rewriting only files whose content changed: what
    cargo rebuilds then depends on contents, not on time stamps."""
    import filecmp, shutil
    dst = f"{W}/{path}"
    if os.path.islink(dst):
        os.unlink(dst)
    if os.path.isfile(src):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst) or not filecmp.cmp(src, dst, shallow=False):
            shutil.copyfile(src, dst)
        return
    seen = set()
    for d, _, fs in os.walk(src):
        r = os.path.relpath(d, src)
        for f in fs:
            rel = os.path.normpath(os.path.join(r, f))
            seen.add(rel)
            sync(os.path.join(path, rel), os.path.join(d, f))
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.normpath(os.path.join(os.path.relpath(d, dst), f)) not in seen:
                os.unlink(os.path.join(d, f))


def read(path):
    return open(f"{R}/{path}").read()


def sections(text):
    parts = re.split(r"(?m)^(\[[^\n]*\]+)[ \t]*\n", text)
    return [("", parts[0])] + list(zip(parts[1::2], parts[2::2]))


def join(secs):
    return "".join((h + "\n" if h else "") + b for h, b in secs)


STUBS = ["burn-tensor", "burn-store", "burn-ndarray", "burn"]
HARNESS = sorted(d for d in os.listdir(f"{V}/harness")) if os.path.isdir(f"{V}/harness") else []

root = []
for h, b in sections(read("Cargo.toml")):
    if h == "[workspace]":
        members = ["crates/onnx-ir-derive", "crates/onnx-ir", "crates/burn-onnx", "symrt"]
        members += [f"harness/{d}" for d in HARNESS]
        b = 'resolver = "2"\nmembers = [' + ", ".join(f'"{m}"' for m in members) + "]\n\n"
    if h == "[workspace.dependencies]":
        b = re.sub(
            r"(?m)^(burn(?:-ndarray|-store|-tensor)?) = \{[^}]*\}[^\n]*\n",
            lambda m: f'{m.group(1)} = {{ path = "stubs/{m.group(1)}", default-features = false }}\n',
            b,
        )
        b += '\nonnx-ir = { path = "crates/onnx-ir", default-features = false }\nburn-onnx = { path = "crates/burn-onnx", default-features = false }\nsymrt = { path = "symrt" }\n'
    if h.startswith("[profile"):
        continue
    root.append((h, b))
root.append(("[profile.sym]", 'inherits = "release"\nopt-level = 1\ndebug = "line-tables-only"\ndebug-assertions = false\noverflow-checks = true\nlto = "fat"\ncodegen-units = 1\npanic = "abort"\nincremental = false\n'))
root.append(("[profile.sym.build-override]", "opt-level = 0\n"))
root.append(("[profile.dev]", 'debug = "line-tables-only"\n'))
put("Cargo.toml", join(root))
stamp = read("Cargo.lock")
if not os.path.exists(f"{W}/Cargo.lock") or not os.path.exists(f"{W}/.lock-src") or open(f"{W}/.lock-src").read() != stamp:
    put("Cargo.lock", stamp)
    put(".lock-src", stamp)

for s in STUBS:
    sync(f"stubs/{s}", f"{V}/stubs/{s}")
sync("symrt", f"{V}/symrt")
for d in HARNESS:
    sync(f"harness/{d}", f"{V}/harness/{d}")
sync("crates/onnx-ir-derive", f"{R}/crates/onnx-ir-derive")
for crate in ("onnx-ir", "burn-onnx"):
    secs = []
    for h, b in sections(read(f"crates/{crate}/Cargo.toml")):
        if h.startswith(("[[bench", "[[test", "[[bin")):
            continue
        if h == "[package]":
            b = re.sub(r"(?m)^(readme|default-run) = .*\n", "", b)
            b += "autobins = false\nautotests = false\nautobenches = false\nautoexamples = false\n"
        secs.append((h, b if b.endswith("\n") else b + "\n"))
    put(f"crates/{crate}/Cargo.toml", join(secs))
    sync(f"crates/{crate}/src", f"{R}/crates/{crate}/src")
sync("crates/onnx-ir/build.rs", f"{R}/crates/onnx-ir/build.rs")
