"""seed(id, prop, [(file, old, new)], demo_rs, needs, breaks) for pallet-funding (and what it uses)."""
import json, os, subprocess, textwrap, shutil, re
from mkseedfin import DEMO
SYM = '''
pub fn any(_: &str, lo: u128, _: u128) -> u128 { lo }
pub fn choice(_: &str, _: u32) -> u32 { 0 }
'''
def seed(id, prop, edits, demo, needs, breaks):
    d = f"/verif/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/bundle/demo/src")
    w = "/tmp/seedwt"
    subprocess.run(f"rm -rf {w}; git clone -q /repo {w}", shell=True, check=True)
    for f, old, new in edits:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(f"git -C {w} diff", shell=True, text=True)
    subprocess.run(f"rm -rf {w}", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copytree("/verif/stubs", d + "/bundle/stubs", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    for x in os.listdir("/verif/grp/ws"):
        os.makedirs(d + "/bundle/ws/" + x)
        s = open(f"/verif/grp/ws/{x}/Cargo.toml").read().replace('"/repo/', '"@SRC@/').replace("../../../stubs", "../../stubs")
        open(d + f"/bundle/ws/{x}/Cargo.toml", "w").write(s)
    c = open("/verif/grp/fund/harness/Cargo.toml").read()
    c = c.replace('symrt = { path = "../../../symrt" }\n', '').replace('\t"symrt/native",\n', '').replace("../../../stubs", "../stubs").replace("../../ws", "../ws")
    c = c.replace("native = [", "default = [\"native\"]\nnative = [").replace('"hfund"', '"demo"')
    open(d + "/bundle/demo/Cargo.toml", "w").write(c)
    shutil.copy("/verif/grp/fund/replay/Cargo.lock", d + "/bundle/demo/Cargo.lock")
    for f in ["mock", "base"]:
        m = open(f"/verif/grp/fund/harness/src/{f}.rs").read()
        m = m.replace("use symrt::*;\n", "use crate::symrt::*;\n").replace("v > 0 || is_symbolic(v)", "v > 0")
        open(d + f"/bundle/demo/src/{f}.rs", "w").write(m)
    open(d + "/bundle/demo/src/lib.rs", "w").write("#![allow(warnings)]\nextern crate alloc;\npub mod base;\npub mod mock;\npub mod symrt {" + SYM + "}\n#[cfg(test)]\nmod tests {\nuse crate::{base::*, mock::*};\nuse pallet_funding::*;\nuse polimec_common::{credentials::*, migration_types::*};\nuse sp_runtime::FixedU128;\nuse alloc::vec;\n" +
        "fn ext(f: impl FnOnce()) { sp_io::TestExternalities::new_empty().execute_with(f) }\n" + textwrap.dedent(demo).strip() + "\n}\n")
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
