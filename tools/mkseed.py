"""Helper to write /verif/seeded/<id>: seed(id, prop, file, [(old, new)], demo_rs, needs, breaks)."""
import json, os, subprocess, textwrap
DEMO = r'''#!/bin/bash
# copies the pallets to a scratch workspace, adds demo.rs as a test module there and runs it
here=$(cd "$(dirname "$0")" && pwd)
P=@PALLET@
S=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
export HOME=/root LANG=C.UTF-8 PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true SKIP_WASM_BUILD=1 RUST_LOG=off
mkdir "$S/ws" "$S/target" "$S/target/debug" || exit 2
cp -a "$PWD/target/.rustc_info.json" "$S/target/" 2>/dev/null
for d in deps build .fingerprint; do cp -a "$PWD/target/debug/$d" "$S/target/debug/" || exit 2; done
export CARGO_TARGET_DIR="$S/target"
cp -a pallets macros polimec-common runtimes nodes integration-tests README.md LICENSE Cargo.lock "$S/ws/" || exit 2
python3 - "$S/ws/Cargo.toml" <<'P' || exit 2
import re, sys
t = open("Cargo.toml").read()
t = re.sub(r"^members\s*=\s*\[[^\]]*\]", 'members = ["pallets/democracy", "pallets/elections-phragmen", "pallets/on-slash-vesting", "macros", "macros/tests"]', t, count=1, flags=re.M)
t = re.sub(r"^default-members\s*=\s*\[[^\]]*\]", "", t, count=1, flags=re.M)
open(sys.argv[1], "w").write(t)
P
python3 - "$here/demo.rs" "$S/ws/pallets/$P/src/@HOST@" @NESTED@ <<'P' || exit 2
import sys
demo, f = open(sys.argv[1]).read(), open(sys.argv[2]).read()
if sys.argv[3] == "1":  # inside the last module (the tests) of the file
    i = f.index("{", f.index("\nmod tests")) + 1
    f = f[:i] + demo + f[i:]
else:
    f += demo
open(sys.argv[2], "w").write(f)
P
cd "$S/ws" && timeout 280 cargo test --offline -p @PKG@ --lib vp_demo 2>&1 | tail -40 > "$S/log"
cat "$S/log"
grep -q "^test result: ok. [1-9]" "$S/log"
'''
PK = {"democracy": ("pallet-democracy", "tests.rs"), "elections-phragmen": ("pallet-elections-phragmen", "lib.rs"), "on-slash-vesting": ("on-slash-vesting", "test.rs")}
def seed(id, prop, pallet, edits, demo, needs, breaks):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = "/tmp/seedwt"
    subprocess.run(f"rm -rf {w}; git -C /repo worktree prune; git clone -q /repo {w}", shell=True, check=True)
    for f, old, new in edits:
        p = f"{w}/pallets/{pallet}/src/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(f"git -C {w} diff", shell=True, text=True)
    subprocess.run(f"rm -rf {w}", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write("\n" + textwrap.dedent(demo).strip() + "\n")
    pkg, host = PK[pallet]
    open(d + "/demo.sh", "w").write(DEMO.replace("@PALLET@", pallet).replace("@PKG@", pkg).replace("@HOST@", host).replace("@NESTED@", "1" if host == "lib.rs" else "0"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
