#!/bin/bash
# Builds demo.rs as a program over the crates that build.sh laid out from /repo, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp /opt/vp/ws/Cargo.lock "$t/"
python3 - "$t" <<'X' || exit 3
import glob, re, sys
t = sys.argv[1]
names = {}
for p in glob.glob("/opt/vp/ws/**/Cargo.toml", recursive=True):
    m = re.search(r'^"?name"?\s*=\s*"([^"]+)"', open(p).read(), re.M)
    if m and "/target/" not in p:
        names[m.group(1).replace("-", "_")] = (m.group(1), p[:-len("/Cargo.toml")])
used = set(re.findall(r"^(?:pub )?(?:use|extern crate) ([a-z0-9_]+)", open(t + "/src/main.rs").read(), re.M))
deps = "".join(f'{names[u][0]} = {{ path = "{names[u][1]}" }}\n' for u in sorted(used) if u in names)
open(t + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' + deps)
X
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> "$t/log" || { tail -30 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
