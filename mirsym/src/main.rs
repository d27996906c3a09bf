#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod big;
mod exec;
mod hash;
mod ir;
mod lower;
mod mem;
mod models;
mod solver;
mod term;

use rustc_driver::Compilation;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::ty::{Instance, TyCtxt};
use std::fmt::Write as _;

struct Cb {
    harness: String,
    out: String,
}

fn children(tcx: TyCtxt<'_>, d: DefId) -> Vec<(String, DefId, DefKind)> {
    let mut out = vec![];
    for c in tcx.module_children(d) {
        if let Res::Def(k, id) = c.res {
            out.push((c.ident.name.to_string(), id, k));
        }
    }
    out
}

fn find(tcx: TyCtxt<'_>, path: &str) -> Option<DefId> {
    let mut it = path.split("::");
    let krate = it.next()?;
    let cn = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == krate)?;
    let mut cur = cn.as_def_id();
    for seg in it {
        let c = children(tcx, cur);
        cur = c.into_iter().find(|(n, _, k)| n == seg && matches!(k, DefKind::Mod | DefKind::Fn))?.1;
    }
    Some(cur)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jpairs(v: &[(String, String)]) -> String {
    let x: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
    format!("[{}]", x.join(","))
}

fn envn(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let _ = LOCAL_CRATE;
        let t0 = std::time::Instant::now();
        let d = match find(tcx, &self.harness) {
            Some(d) => d,
            None => {
                eprintln!("harness {} not found", self.harness);
                std::process::exit(2);
            }
        };
        let mut lo = lower::Lower::new(tcx);
        if let Some(r) = find(tcx, "symrt::redir") {
            for (n, id, k) in children(tcx, r) {
                if k == DefKind::Fn {
                    lo.redirects.insert(n.replace("__", "::"), id);
                }
            }
        }
        let solver = solver::Solver::new(envn("MIRSYM_QMS", 4000), envn("MIRSYM_FB", 60));
        let mut ex = exec::Exec::new(lo, solver);
        ex.want_samples = envn("MIRSYM_SAMPLES", 8) as usize;
        ex.trace_calls = envn("MIRSYM_TRACE", 0) > 0;
        ex.prop = std::env::var("MIRSYM_PROP").unwrap_or_default();
        if let Ok(x) = std::env::var("MIRSYM_SHARD") {
            let v: Vec<u64> = x.split('/').filter_map(|y| y.parse().ok()).collect();
            if v.len() == 3 {
                ex.shard = Some((v[0], v[1], v[2] as u32));
            }
        }
        ex.forks_on = envn("MIRSYM_FORKS", 0) > 0;
        ex.max_viol = envn("MIRSYM_MAXV", 1) as usize;
        ex.deadline = t0 + std::time::Duration::from_secs(envn("MIRSYM_SECS", 600));
        let inst = Instance::mono(tcx, d);
        let id = ex.lo.inst_id(inst);
        let res = match ex.resolve(id) {
            Ok((Some(f), _)) => {
                ex.push(id, f, &[], 0, 0, None).unwrap();
                ex.explore()
            }
            e => Err(format!("{:?}", e.err())),
        };
        let mut fsite: Vec<_> = ex.fork_sites.iter().collect();
        fsite.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in fsite.into_iter().take(25) {
            eprintln!("FORK {v} {k}");
        }
        let mut s = String::from("{");
        let _ = write!(s, "\"harness\":{},", js(&self.harness));
        let status = match &res {
            Err(_) => "error",
            Ok(()) if !ex.violations.is_empty() => "violated",
            Ok(()) if ex.stats.unknown_checks > 0 => "unknown",
            Ok(()) => "ok",
        };
        let _ = write!(s, "\"status\":{},", js(status));
        let _ = write!(s, "\"error\":{},", js(&res.err().unwrap_or_default()));
        let st = &ex.stats;
        let _ = write!(
            s,
            "\"paths\":{},\"cut\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"check_queries\":{},\"unknown_branches\":{},\"unknown_checks\":{},",
            st.paths, st.cut, st.forks, st.steps, st.checks, st.check_queries, st.unknown_branches, st.unknown_checks
        );
        let q = &ex.solver.stats;
        let _ = write!(
            s,
            "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},",
            q.queries, q.sat, q.unsat, q.unknown, q.fallback, q.time, q.max_time
        );
        let mut fs: Vec<String> = ex
            .funcs_run
            .iter()
            .map(|i| {
                let f = ex.lo.insts[*i as usize].func.as_ref().unwrap();
                (f.file.clone(), ex.lo.insts[*i as usize].name.to_string())
            })
            .filter(|x| x.0.contains("/repo/"))
            .map(|x| x.1)
            .collect();
        fs.sort();
        fs.dedup();
        let _ = write!(s, "\"functions_total\":{},", ex.funcs_run.len());
        let _ = write!(s, "\"functions\":[{}],", fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let mut cs: Vec<_> = ex.checks_seen.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect();
        cs.sort();
        let _ = write!(s, "\"assertions\":{{{}}},", cs.join(","));
        let mut rs: Vec<_> = ex.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        rs.sort();
        let _ = write!(s, "\"reach\":{{{}}},", rs.join(","));
        let ws: Vec<_> = ex.witness.iter().map(|(k, v)| format!("{}:{}", js(k), jpairs(v))).collect();
        let _ = write!(s, "\"witness\":{{{}}},", ws.join(","));
        let sm: Vec<_> = ex
            .samples
            .iter()
            .map(|(i, o)| format!("{{\"inputs\":{},\"obs\":{}}}", jpairs(i), jpairs(o)))
            .collect();
        let _ = write!(s, "\"samples\":[{}],", sm.join(","));
        let vs: Vec<_> = ex
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"msg\":{},\"inputs\":{},\"trace\":[{}]}}",
                    js(&v.msg),
                    jpairs(&v.inputs),
                    v.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let _ = write!(s, "\"violations\":[{}],", vs.join(","));
        let _ = write!(s, "\"wall_s\":{:.3}}}\n", t0.elapsed().as_secs_f64());
        if self.out == "-" {
            print!("{s}");
        } else {
            std::fs::write(&self.out, s).expect("write result");
        }
        Compilation::Stop
    }
}

/// usage: mirsym <harness path> <result json> <rustc args...>
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: mirsym <harness> <out.json|-> <rustc args>");
        std::process::exit(2);
    }
    let mut args = vec!["rustc".to_string()];
    args.extend_from_slice(&a[3..]);
    let mut cb = Cb { harness: a[1].clone(), out: a[2].clone() };
    std::process::exit({
        let r = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
        let _ = r;
        0
    });
}
