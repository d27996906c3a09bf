"""seed(id, prop, [(file, old, new)], demo_rs, needs, breaks) for linear-release, proxy-bonding and polimec-common."""
import json, os, subprocess, textwrap, shutil, re
DEMO = r'''#!/bin/bash
# compiles the pallets' sources with the stand-ins beside this file and runs the test in demo/src/lib.rs
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
export HOME=/root LANG=C.UTF-8 PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true SKIP_WASM_BUILD=1 RUST_LOG=off CARGO_TARGET_DIR="$S/target"
unset RUSTFLAGS
cp -a "$here/bundle" "$S/b" || exit 2
mkdir "$S/src" && cp -a pallets polimec-common "$S/src/" || exit 2
sed -i "s#@SRC@#$S/src#" "$S"/b/ws/*/Cargo.toml || exit 2
cd "$S/b/demo" && timeout 290 cargo test --offline > "$S/log" 2>&1
tail -40 "$S/log"
grep -q "^test result: ok. [1-9]" "$S/log"
'''
STUBS = ["jwt-compact", "pallet-timestamp", "staging-xcm"]
WS = ["linear-release", "proxy-bonding", "polimec-common"]
def seed(id, prop, edits, demo, needs, breaks):
    d = f"/verif/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/bundle/demo/src")
    w = "/tmp/seedwt"
    subprocess.run(f"rm -rf {w}; git clone -q /repo {w}", shell=True, check=True)
    for f, old, new in edits:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(f"git -C {w} diff", shell=True, text=True)
    subprocess.run(f"rm -rf {w}", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    for x in STUBS:
        shutil.copytree(f"/verif/stubs/{x}", d + "/bundle/stubs/" + x)
    for x in WS:
        os.makedirs(d + "/bundle/ws/" + x)
        s = open(f"/verif/grp/ws/{x}/Cargo.toml").read().replace('"/repo/', '"@SRC@/').replace("../../../stubs", "../../stubs")
        open(d + f"/bundle/ws/{x}/Cargo.toml", "w").write(s)
    c = open("/verif/grp/fin/harness/Cargo.toml").read()
    c = c.replace('symrt = { path = "../../../symrt" }\n', '').replace('\t"symrt/native",\n', '').replace("../../../stubs", "../stubs").replace("../../ws", "../ws")
    c = c.replace("native = [", "default = [").replace('"hfin"', '"demo"')
    open(d + "/bundle/demo/Cargo.toml", "w").write(c)
    shutil.copy("/verif/grp/fin/replay/Cargo.lock", d + "/bundle/demo/Cargo.lock")
    m = open("/verif/grp/fin/harness/src/mock.rs").read()
    m = m.replace("use symrt::*;\n", "").replace("v > 0 || is_symbolic(v)", "v > 0")
    m = re.sub(r"pub fn flag\(.*?\n}\n", "", m, flags=re.S)
    open(d + "/bundle/demo/src/mock.rs", "w").write(m)
    open(d + "/bundle/demo/src/lib.rs", "w").write("extern crate alloc;\npub mod mock;\n#[cfg(test)]\nmod tests {\nuse crate::mock::*;\n" +
        "fn ext(f: impl FnOnce()) { sp_io::TestExternalities::new_empty().execute_with(f) }\n" + textwrap.dedent(demo).strip() + "\n}\n")
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
