#!/usr/bin/env python3
"""Lays out BUILD/ws: the crates of /repo that the harnesses execute, from /repo's current working tree.

Source files are copied unchanged (written only when their content differs, so cargo rebuilds
incrementally), except for the few named in CUTS, in which whole items that need a crate absent
from the offline cache are blanked (line numbers stay). Manifests are derived from /repo's: dev-
and build-dependencies and members that are out of scope go; crates that are absent from the cache
are taken from /verif/stubs. Nothing of /repo is written."""
import json, os, re, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
WS = f"{BUILD}/ws"

SCOPE = [
    "accounting", "chainstate/constraints-value-accumulator", "chainstate/storage", "chainstate/tx-verifier",
    "chainstate/types", "common", "consensus", "crypto", "logging", "mintscript", "orders-accounting",
    "pos-accounting", "randomness", "rpc/description", "rpc/description-macro", "rpc/types", "script",
    "serialization", "serialization/core", "serialization/tagged", "serialization/tagged/derive",
    "storage", "storage/core", "storage/inmemory", "tokens-accounting", "utils", "utils/build_utils",
    "utils/networking", "utils/typename", "utils/typename-derive", "utils/log_error", "utxo", "rpc", "subsystem",
]

#: external crates that are replaced by a stand-in
STUBS = {
    "parity-scale-codec": "parity-scale-codec",
    "merkletree-mintlayer": "merkletree-mintlayer",
    "enum-iterator": "enum-iterator",
    "argon2": "argon2",
}
#: external crates that are dropped (the items that use them are cut)
DROP = {"ml_primitives", "mockall", "storage-lmdb"}

#: file: regexes; the item whose first line (after indentation) matches is blanked with its attributes
CUTS = {
    "common/src/lib.rs": [r"pub mod primitives_converters;"],
}

#: file: (pattern, text put behind it): a switch to the definition of an operation that is decided by a property
#: of its own. Off unless a harness asks for it, and never on in native runs.
# The arithmetic of the wide integers can be switched to the engine's own (sym::model_div) in checks of code
# built on it; C01 decides the arithmetic itself.
_D = (" unsafe extern \"C\" { fn __sym_model_div() -> bool;"
      " fn __sym_udivrem(a: *const u64, b: *const u64, q: *mut u64, r: *mut u64, n: u64);"
      " fn __sym_uint(kind: u32, a: *const u64, b: *const u64, o: *mut u64, o2: *mut u64, n: u64) -> u64; }"
      " if unsafe { __sym_model_div() } {")
SWITCHES = {
    "common/src/uint/impls.rs": [
        (r"fn div_rem\(self, other: Self\) -> \(Self, Self\) \{",
         _D + " assert!(other.0.iter().any(|x| *x != 0));"
         " let (mut q, mut r) = ([0u64; $n_words], [0u64; $n_words]);"
         " unsafe { __sym_udivrem(self.0.as_ptr(), other.0.as_ptr(), q.as_mut_ptr(), r.as_mut_ptr(), $n_words) };"
         " return ($name(q), $name(r)); }"),
        (r"fn widening_mul\(&self, other: &Self\) -> \(Self, Self\) \{",
         _D + " let (mut q, mut r) = ([0u64; $n_words], [0u64; $n_words]);"
         " unsafe { __sym_uint(0, self.0.as_ptr(), other.0.as_ptr(), q.as_mut_ptr(), r.as_mut_ptr(), $n_words) };"
         " return ($name(q), $name(r)); }"),
        (r"fn overflowing_add_with_carry\(&self, other: &Self, mut carry: bool\) -> \(Self, bool\) \{",
         _D + " let mut q = [0u64; $n_words]; let mut c = carry as u64;"
         " let k = unsafe { __sym_uint(1, self.0.as_ptr(), other.0.as_ptr(), q.as_mut_ptr(), &mut c, $n_words) };"
         " return ($name(q), k != 0); }"),
        (r"fn unchecked_sub\(&self, other: &Self\) -> Self \{",
         _D + " let mut q = [0u64; $n_words]; let mut c = 0;"
         " unsafe { __sym_uint(2, self.0.as_ptr(), other.0.as_ptr(), q.as_mut_ptr(), &mut c, $n_words) };"
         " return $name(q); }"),
        (r"fn cmp\(&self, other: &\$name\) -> ::core::cmp::Ordering \{",
         _D + " let mut c = 0; let mut d = 0;"
         " let k = unsafe { __sym_uint(3, self.0.as_ptr(), other.0.as_ptr(), &mut c, &mut d, $n_words) };"
         " return if k == 0 { ::core::cmp::Ordering::Less } else if k == 1 { ::core::cmp::Ordering::Equal }"
         " else { ::core::cmp::Ordering::Greater }; }"),
    ],
}


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def blank_items(text, pats):
    lines = text.split("\n")
    out = list(lines)
    i = 0
    while i < len(lines):
        s = lines[i].lstrip()
        if any(re.match(p, s) for p in pats):
            # attributes and doc comments above
            j = i - 1
            while j >= 0 and re.match(r"\s*(#\[|///)", lines[j]):
                out[j] = ""
                j -= 1
            # the item: to the matching bracket or the semicolon
            depth = 0
            k = i
            done = False
            while k < len(lines) and not done:
                code = re.sub(r'"(\\.|[^"\\])*"|//.*', "", lines[k])
                for ch in code:
                    if ch in "{([":
                        depth += 1
                    elif ch in "})]":
                        depth -= 1
                        if depth == 0 and ch == "}":
                            done = True
                            break
                    elif ch == ";" and depth == 0:
                        done = True
                        break
                out[k] = ""
                k += 1
            i = k
        else:
            i += 1
    return "\n".join(out)


def val(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {val(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(val(x) for x in v) + "]"
    return json.dumps(v)


def table(name, kv):
    return f"[{name}]\n" + "".join(f"{json.dumps(k)} = {val(v)}\n" for k, v in kv.items()) + "\n"


def ext_deps(root):
    out = {}
    for k, v in root["workspace"]["dependencies"].items():
        if k in DROP or (isinstance(v, dict) and "git" in v):
            continue
        if k in STUBS:
            v = {"path": f"{VERIF}/stubs/{STUBS[k]}"}
        out[k] = v
    return out


def manifest(pkg, external):
    m = tomllib.load(open(f"{REPO}/{pkg}/Cargo.toml", "rb"))
    text = ""
    dropped = set()

    def deps(d):
        out = {}
        for k, v in d.items():
            if isinstance(v, dict) and "path" in v:
                p = os.path.normpath(os.path.join(pkg, v["path"]))
                if p not in SCOPE:
                    dropped.add(k)
                    continue
                v = dict(v)
                v.pop("features", None) if False else None
                out[k] = v
            elif isinstance(v, dict) and v.get("workspace"):
                if k in external:
                    out[k] = v
                else:
                    dropped.add(k)
            elif k not in DROP:
                out[k] = v
        return out

    for key, value in m.items():
        if key == "dependencies":
            text += table(key, deps(value))
        elif key == "build-dependencies":
            text += table(key, deps(value))
        elif key == "target":
            for cfg, t in value.items():
                if "dependencies" in t:
                    text += table(f"target.{json.dumps(cfg)}.dependencies", deps(t["dependencies"]))
        elif key in ("dev-dependencies", "bench", "test", "bin", "example", "lints"):
            continue
        elif key == "features":
            feats = {}
            for f, l in value.items():
                feats[f] = [x for x in l if x.split("/")[0].removeprefix("dep:").rstrip("?") not in dropped]
            text += table(key, feats)
        elif key == "package":
            value = dict(value)
            value["autotests"] = False
            value["autobenches"] = False
            value["autoexamples"] = False
            text += table(key, value)
        else:
            text += table(key, value)
    return text


PROFILE = """[profile.release]
lto = "fat"
codegen-units = 1
panic = "abort"
overflow-checks = true
opt-level = 2
debug = "line-tables-only"
strip = "none"
incremental = false
"""


def harness_crates():
    d = f"{VERIF}/harness"
    return sorted(x for x in os.listdir(d) if os.path.exists(f"{d}/{x}/Cargo.toml")) if os.path.isdir(d) else []


def scan(h):
    """The harness functions of a crate: [(module, name, {directive: text})]. Directives are `//@ key=value` lines
    directly above the function."""
    out = []
    d = f"{VERIF}/harness/{h}/src"
    for f in sorted(os.listdir(d)):
        if not f.endswith(".rs"):
            continue
        ann = {}
        mod = "" if f == "main.rs" else f[:-3]
        for line in open(f"{d}/{f}"):
            m = re.match(r"\s*//@\s*(\w+)=(.*)$", line)
            if m:
                k, v = m.group(1), m.group(2).strip()
                ann[k] = ann[k] + " " + v if k in ann and k in ("bounds", "assumes") else v
                continue
            m = re.search(r'extern "C" fn (\w+)\(', line)
            if m and ann:
                out.append((mod, m.group(1), ann))
                ann = {}
    return out


def harness_list(h):
    names = [f"{m}::{n}" if m else n for m, n, _ in scan(h)]
    return "sym::main!(" + ", ".join(names) + ");\n"


def lay_out():
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    external = ext_deps(root)
    wanted = {"Cargo.toml", "Cargo.lock", ".cargo/config.toml", "base.lock"}
    scope = [p for p in SCOPE if os.path.isdir(f"{REPO}/{p}")]
    hs = harness_crates()
    text = table("workspace", {"members": scope + [f"h/{h}" for h in hs], "resolver": "3"})
    text += table("workspace.dependencies", external)
    for key in ("package",):
        text += table(f"workspace.{key}", root["workspace"][key])
    text += PROFILE
    write(f"{WS}/Cargo.toml", text)
    write(f"{WS}/.cargo/config.toml", "[net]\noffline = true\n")
    for pkg in scope:
        write(f"{WS}/{pkg}/Cargo.toml", manifest(pkg, external))
        wanted.add(f"{pkg}/Cargo.toml")
        for base, dirs, files in os.walk(f"{REPO}/{pkg}"):
            rel = os.path.relpath(base, REPO)
            dirs[:] = [d for d in dirs if d not in ("target", "tests", "benches") or "/src" in base]
            dirs[:] = [d for d in dirs if not os.path.exists(f"{base}/{d}/Cargo.toml")]
            for f in files:
                if f == "Cargo.toml":
                    continue
                path = f"{rel}/{f}"
                wanted.add(path)
                with open(f"{REPO}/{path}", "rb") as fh:
                    data = fh.read()
                if path in CUTS:
                    data = blank_items(data.decode(), CUTS[path]).encode()
                if path in SWITCHES:
                    for pat, ins in SWITCHES[path]:
                        data = re.sub(pat, lambda m: m.group(0) + ins, data.decode(), count=1).encode()
                write(f"{WS}/{path}", data)
    for h in hs:
        for base, dirs, files in os.walk(f"{VERIF}/harness/{h}"):
            rel = os.path.relpath(base, f"{VERIF}/harness")
            dirs[:] = [d for d in dirs if d != "target"]
            for f in files:
                data = open(f"{base}/{f}", "rb").read()
                if f == "Cargo.toml":
                    data = data.decode().replace("@VERIF@", VERIF).replace("@WS@", WS).encode()
                write(f"{WS}/h/{rel}/{f}", data)
                wanted.add(f"h/{rel}/{f}")
        write(f"{WS}/h/{h}/src/list.rs", harness_list(h))
        wanted.add(f"h/{h}/src/list.rs")
    for base, dirs, files in os.walk(WS, topdown=False):
        if base == f"{WS}/target" or base.startswith(f"{WS}/target/"):
            continue
        for f in files:
            if os.path.relpath(f"{base}/{f}", WS) not in wanted:
                os.remove(f"{base}/{f}")
    # a new resolution whenever the manifests change; versions come from /repo's lock file
    lock = open(f"{REPO}/Cargo.lock").read()
    key = lock + text + "".join(open(f"{WS}/{p}/Cargo.toml").read() for p in scope) + "".join(open(f"{WS}/h/{h}/Cargo.toml").read() for h in hs)
    try:
        same = open(f"{WS}/base.lock").read() == key
    except OSError:
        same = False
    if not same or not os.path.exists(f"{WS}/Cargo.lock"):
        write(f"{WS}/Cargo.lock", lock)
        write(f"{WS}/base.lock", key)


if __name__ == "__main__":
    lay_out()
