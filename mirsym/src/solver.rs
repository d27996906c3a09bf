//! SMT back end: an incremental z3 process (integer encoding, wrap-around explicit) following the DFS of
//! path conditions, with one-shot portfolio fallbacks (bit-vector encoding, cvc5) for hard queries.
use crate::big::{Z, ZERO};
use crate::term::*;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub type Model = FxHashMap<u32, Z>;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: FxHashSet<T>,
    vars: Vec<(u32, T)>,
    stack: Vec<T>,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub fb_timeout_s: u64,
    pub dump: Option<String>,
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn zs(z: Z) -> String {
    if z.is_neg() {
        format!("(- {})", z.neg())
    } else {
        format!("{z}")
    }
}

pub fn children(t: T) -> Vec<T> {
    match tt().k(t) {
        K::Lin(_, v) => v.iter().map(|x| x.0).collect(),
        K::Mul(a, b) | K::Div(a, b) | K::Mod(a, b) | K::And(a, b) | K::Or(a, b) => vec![*a, *b],
        K::Ext(a, ..) | K::B2I(a) | K::Not(a) | K::Ge0(a) | K::Eq0(a) => vec![*a],
        K::Ite(a, b, c) => vec![*a, *b, *c],
        _ => vec![],
    }
}

fn name(t: T) -> String {
    match tt().k(t) {
        K::True => "true".into(),
        K::False => "false".into(),
        K::Const(z) => zs(*z),
        K::Var(v) => format!("v{v}"),
        _ => format!("t{t}"),
    }
}

fn lin_str(k: Z, v: &[(T, Z)]) -> String {
    let mut s = String::from("(+");
    for (t, c) in v {
        if c.is_one() {
            let _ = write!(s, " {}", name(*t));
        } else {
            let _ = write!(s, " (* {} {})", zs(*c), name(*t));
        }
    }
    if !k.is_zero() || v.len() == 1 {
        let _ = write!(s, " {}", zs(k));
    }
    s.push(')');
    s
}

/// definition body in the Int encoding
fn body(t: T) -> (String, &'static str) {
    let tm = tt();
    match tm.k(t).clone() {
        K::Lin(k, v) => (lin_str(k, &v), "Int"),
        K::Mul(a, b) => (format!("(* {} {})", name(a), name(b)), "Int"),
        K::Div(a, b) => (format!("(div {} {})", name(a), name(b)), "Int"),
        K::Mod(a, b) => (format!("(mod {} {})", name(a), name(b)), "Int"),
        K::Ext(a, o, n) => {
            let d = if o == 0 { name(a) } else { format!("(div {} {})", name(a), Z::pow2(8 * o as u32)) };
            (format!("(mod {d} {})", Z::pow2(8 * n as u32)), "Int")
        }
        K::Ite(c, a, b) => (format!("(ite {} {} {})", name(c), name(a), name(b)), "Int"),
        K::B2I(c) => (format!("(ite {} 1 0)", name(c)), "Int"),
        K::Not(a) => (format!("(not {})", name(a)), "Bool"),
        K::And(a, b) => (format!("(and {} {})", name(a), name(b)), "Bool"),
        K::Or(a, b) => (format!("(or {} {})", name(a), name(b)), "Bool"),
        K::Ge0(a) => {
            // positive parts >= negative parts reads better for the solver
            (format!("(>= {} 0)", name(a)), "Bool")
        }
        K::Eq0(a) => (format!("(= {} 0)", name(a)), "Bool"),
        _ => unreachable!(),
    }
}

pub fn topo(roots: &[T], seen: &mut FxHashSet<T>, out: &mut Vec<T>) {
    let mut st: Vec<(T, bool)> = roots.iter().map(|t| (*t, false)).collect();
    while let Some((t, done)) = st.pop() {
        if done {
            out.push(t);
            continue;
        }
        if !seen.insert(t) {
            continue;
        }
        st.push((t, true));
        for c in children(t) {
            if !seen.contains(&c) {
                st.push((c, false));
            }
        }
    }
}

impl Solver {
    pub fn new(timeout_ms: u64, fb: u64) -> Solver {
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3-new");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            child,
            inp,
            out,
            defined: Default::default(),
            vars: vec![],
            stack: vec![],
            stats: Default::default(),
            timeout_ms,
            fb_timeout_s: fb,
            dump: None,
        };
        s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n");
        let t = s.timeout_ms;
        s.send(&format!("(set-option :timeout {t})\n"));
        s
    }
    fn send(&mut self, x: &str) {
        self.inp.write_all(x.as_bytes()).expect("solver pipe");
    }
    fn define(&mut self, t: T) {
        let mut order = vec![];
        let mut seen = std::mem::take(&mut self.defined);
        topo(&[t], &mut seen, &mut order);
        self.defined = seen;
        let mut s = String::new();
        for x in order {
            match tt().k(x) {
                K::Const(_) | K::True | K::False => {}
                K::Var(v) => {
                    let _ = write!(s, "(declare-const v{v} Int)\n");
                    self.vars.push((*v, x));
                    // global range fact, asserted at the current level is not enough: re-asserted via stack base
                    let _ = v;
                }
                _ => {
                    let (b, sort) = body(x);
                    let _ = write!(s, "(define-fun t{x} () {sort} {b})\n");
                }
            }
        }
        self.send(&s);
    }
    fn vars_of(&self, ts: &[T]) -> Vec<(u32, T)> {
        let mut seen = FxHashSet::default();
        let mut out = vec![];
        topo(ts, &mut seen, &mut out);
        out.into_iter().filter_map(|t| if let K::Var(v) = tt().k(t) { Some((*v, t)) } else { None }).collect()
    }
    fn assert_level(&mut self, t: T) {
        self.define(t);
        let mut s = String::from("(push 1)\n");
        // the variable ranges used by this assertion
        for (v, x) in self.vars_of(&[t]) {
            let _ = write!(s, "(assert (and (<= {} v{v}) (<= v{v} {})))\n", zs(tt().lo(x)), zs(tt().hi(x)));
        }
        let _ = write!(s, "(assert {})\n", name(t));
        self.send(&s);
        self.stack.push(t);
    }
    fn sync(&mut self, path: &[T]) {
        let mut k = 0;
        while k < path.len() && k < self.stack.len() && path[k] == self.stack[k] {
            k += 1;
        }
        let n = self.stack.len() - k;
        if n > 0 {
            self.send(&format!("(pop {n})\n"));
            self.stack.truncate(k);
        }
        for &t in &path[k..] {
            self.assert_level(t);
        }
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let n = self.out.read_line(&mut l).unwrap_or(0);
        if n == 0 {
            return "eof".into();
        }
        l.trim().to_string()
    }
    fn sexp(&mut self) -> String {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.line();
            if l == "eof" {
                return s;
            }
            for c in l.bytes() {
                if c == b'(' {
                    depth += 1
                }
                if c == b')' {
                    depth -= 1
                }
            }
            s.push_str(&l);
            s.push(' ');
            if depth <= 0 {
                return s;
            }
        }
    }
    pub fn check(&mut self, path: &[T], extra: T) -> Res {
        if extra == FALSE {
            return Res::Unsat;
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        self.sync(path);
        self.assert_level(extra);
        self.send("(check-sat)\n");
        let r = self.line();
        let res = match r.as_str() {
            "sat" => {
                let mut all = path.to_vec();
                all.push(extra);
                let vs = self.vars_of(&all);
                if vs.is_empty() {
                    Res::Sat(Default::default())
                } else {
                    let mut q = String::from("(get-value (");
                    for (v, _) in &vs {
                        let _ = write!(q, "v{v} ");
                    }
                    q.push_str("))\n");
                    self.send(&q);
                    let s = self.sexp();
                    Res::Sat(parse_model(&s))
                }
            }
            "unsat" => Res::Unsat,
            "unknown" | "timeout" => Res::Unknown,
            e => panic!("solver said: {e}"),
        };
        let res = match res {
            Res::Unknown => {
                self.stats.fallback += 1;
                let mut all = path.to_vec();
                all.push(extra);
                portfolio(&all, self.fb_timeout_s)
            }
            r => r,
        };
        if let Res::Sat(m) = &res {
            // validate the model against our own evaluator
            let mut memo = FxHashMap::default();
            for &t in path.iter().chain([&extra]) {
                if let Some(v) = tt().eval(t, m, &mut memo) {
                    assert!(v.is_one(), "solver model does not satisfy the encoding");
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match &res {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        res
    }
}

fn parse_model(s: &str) -> Model {
    let mut m = Model::default();
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(v) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
            let mut j = i + 1;
            let mut neg = false;
            loop {
                match toks.get(j).map(|s| s.as_str()) {
                    Some("(") => j += 1,
                    Some("-") => {
                        neg = true;
                        j += 1
                    }
                    Some(x) => {
                        let z = if let Some(h) = x.strip_prefix("#x") {
                            Some(hexz(h))
                        } else if let Some(b) = x.strip_prefix("#b") {
                            Some(binz(b))
                        } else {
                            Z::parse(x)
                        };
                        if let Some(z) = z {
                            m.insert(v, if neg { z.neg() } else { z });
                        }
                        i = j;
                        break;
                    }
                    None => {
                        i = j;
                        break;
                    }
                }
            }
        }
        i += 1;
    }
    m
}
fn hexz(h: &str) -> Z {
    let mut z = ZERO;
    for c in h.chars() {
        z = z.mul(Z::u(16)).add(Z::u(c.to_digit(16).unwrap() as u128));
    }
    z
}
fn binz(h: &str) -> Z {
    let mut z = ZERO;
    for c in h.chars() {
        z = z.mul(Z::u(2)).add(Z::u(c.to_digit(2).unwrap() as u128));
    }
    z
}

/// Int encoding as a stand-alone script.
fn script_int(ts: &[T], opts: &str) -> (String, Vec<u32>) {
    let mut seen = FxHashSet::default();
    let mut order = vec![];
    topo(ts, &mut seen, &mut order);
    let mut s = String::from(opts);
    let mut vs = vec![];
    for x in order {
        match tt().k(x) {
            K::Const(_) | K::True | K::False => {}
            K::Var(v) => {
                let _ = write!(
                    s,
                    "(declare-const v{v} Int)\n(assert (and (<= {} v{v}) (<= v{v} {})))\n",
                    zs(tt().lo(x)),
                    zs(tt().hi(x))
                );
                vs.push(*v);
            }
            _ => {
                let (b, sort) = body(x);
                let _ = write!(s, "(define-fun t{x} () {sort} {b})\n");
            }
        }
    }
    for t in ts {
        let _ = write!(s, "(assert {})\n", name(*t));
    }
    s.push_str("(check-sat)\n");
    (s, vs)
}

fn width(lo: Z, hi: Z) -> u32 {
    lo.bits().max(hi.bits()) + 1
}
fn tw(t: T) -> u32 {
    width(tt().lo(t), tt().hi(t))
}
fn bvc(z: Z, w: u32) -> String {
    let z = if z.is_neg() { z.add(Z::pow2(w)) } else { z };
    format!("(_ bv{z} {w})")
}
/// the term as a signed bit-vector of width w >= tw(t)
fn bvn(t: T, w: u32) -> String {
    if let Some(z) = tt().as_const(t) {
        return bvc(z, w);
    }
    let n = match tt().k(t) {
        K::Var(v) => format!("v{v}"),
        _ => format!("t{t}"),
    };
    let k = tw(t);
    if w == k {
        n
    } else if w > k {
        format!("((_ sign_extend {}) {n})", w - k)
    } else {
        format!("((_ extract {} 0) {n})", w - 1)
    }
}

/// Bit-vector encoding with interval-derived widths (every intermediate result fits, so it is exact).
fn script_bv(ts: &[T], opts: &str) -> Option<(String, Vec<u32>)> {
    let mut seen = FxHashSet::default();
    let mut order = vec![];
    topo(ts, &mut seen, &mut order);
    let mut s = String::from(opts);
    s.push_str("(set-logic QF_BV)\n");
    let mut vs = vec![];
    let tm = tt();
    for x in order {
        let w = tw(x);
        let def = match tm.k(x).clone() {
            K::Const(_) | K::True | K::False => continue,
            K::Var(v) => {
                let _ = write!(
                    s,
                    "(declare-const v{v} (_ BitVec {w}))\n(assert (and (bvsle {} v{v}) (bvsle v{v} {})))\n",
                    bvc(tm.lo(x), w),
                    bvc(tm.hi(x), w)
                );
                vs.push(v);
                continue;
            }
            K::Lin(k, v) => {
                let mut bound = if k.is_neg() { k.neg() } else { k };
                for (t, c) in &v {
                    let m = tm.lo(*t).bits().max(tm.hi(*t).bits());
                    let cb = c.bits();
                    bound = bound.add(Z::pow2(m + cb));
                }
                let ww = bound.bits() + 1;
                let mut e = bvc(k, ww);
                for (t, c) in &v {
                    let y = bvn(*t, ww);
                    e = if c.is_one() {
                        format!("(bvadd {e} {y})")
                    } else if c.neg().is_one() {
                        format!("(bvsub {e} {y})")
                    } else {
                        format!("(bvadd {e} (bvmul {} {y}))", bvc(*c, ww))
                    };
                }
                if ww > w {
                    format!("((_ extract {} 0) {e})", w - 1)
                } else {
                    format!("((_ sign_extend {}) {e})", w - ww)
                }
            }
            K::Mul(a, b) => {
                let ww = (tw(a) + tw(b)).max(w);
                let e = format!("(bvmul {} {})", bvn(a, ww), bvn(b, ww));
                format!("((_ extract {} 0) {e})", w - 1)
            }
            K::Div(a, b) | K::Mod(a, b) => {
                let div = matches!(tm.k(x), K::Div(..));
                if tm.lo(a).is_neg() || tm.lo(b).is_neg() {
                    return None;
                }
                let ww = tw(a).max(tw(b)).max(w);
                let e = format!("({} {} {})", if div { "bvudiv" } else { "bvurem" }, bvn(a, ww), bvn(b, ww));
                format!("((_ extract {} 0) {e})", w - 1)
            }
            K::Ext(a, o, n) => {
                if tm.lo(a).is_neg() {
                    return None;
                }
                let need = 8 * (o as u32 + n as u32);
                let ww = tw(a).max(need);
                let e = format!("((_ extract {} {}) {})", need - 1, 8 * o as u32, bvn(a, ww));
                let nw = 8 * n as u32;
                if w > nw {
                    format!("((_ zero_extend {}) {e})", w - nw)
                } else {
                    format!("((_ extract {} 0) {e})", w - 1)
                }
            }
            K::Ite(c, a, b) => {
                let ww = w.max(tw(a)).max(tw(b));
                let e = format!("(ite {} {} {})", name(c), bvn(a, ww), bvn(b, ww));
                format!("((_ extract {} 0) {e})", w - 1)
            }
            K::B2I(c) => format!("(ite {} {} {})", name(c), bvc(Z::u(1), w), bvc(ZERO, w)),
            K::Not(a) => format!("(not {})", name(a)),
            K::And(a, b) => format!("(and {} {})", name(a), name(b)),
            K::Or(a, b) => format!("(or {} {})", name(a), name(b)),
            K::Ge0(a) => format!("(bvsle {} {})", bvc(ZERO, tw(a)), bvn(a, tw(a))),
            K::Eq0(a) => format!("(= {} {})", bvc(ZERO, tw(a)), bvn(a, tw(a))),
        };
        let sort = match tm.k(x) {
            K::Not(_) | K::And(..) | K::Or(..) | K::Ge0(_) | K::Eq0(_) => "Bool".to_string(),
            _ => format!("(_ BitVec {w})"),
        };
        let _ = write!(s, "(define-fun t{x} () {sort} {def})\n");
    }
    for t in ts {
        let _ = write!(s, "(assert {})\n", name(*t));
    }
    s.push_str("(check-sat)\n");
    Some((s, vs))
}

/// Runs several solver/encoding combinations in parallel; first definite answer wins.
pub fn portfolio(ts: &[T], secs: u64) -> Res {
    let (si, vs) = script_int(ts, "(set-option :produce-models true)\n(set-logic ALL)\n");
    if let Ok(d) = std::env::var("MIRSYM_DUMP") {
        let n = std::fs::read_dir(&d).map(|x| x.count()).unwrap_or(0);
        let _ = std::fs::write(format!("{d}/q{n}.smt2"), &si);
    }
    let mut jobs: Vec<(Vec<String>, String)> = vec![];
    let ms = secs * 1000;
    let mut gv = String::from("(get-value (");
    for v in &vs {
        let _ = write!(gv, "v{v} ");
    }
    gv.push_str("))\n");
    let z3 = |x: &str| vec!["z3-new".to_string(), "-smt2".into(), format!("-T:{secs}"), x.to_string()];
    jobs.push((z3("/dev/stdin"), si.clone()));
    jobs.push((
        vec![
            "cvc5".into(),
            "--lang=smt2".into(),
            "--produce-models".into(),
            format!("--tlimit={ms}"),
            "--nl-ext-tplanes".into(),
            "-".into(),
        ],
        si.clone(),
    ));
    if let Some((sb, vb)) = script_bv(ts, "(set-option :produce-models true)\n") {
        // models come back as bit-vectors: reinterpret as signed of the variable's width below
        let _ = vb;
        jobs.push((z3("/dev/stdin"), sb.clone()));
        jobs.push((
            vec![
                "cvc5".into(),
                "--lang=smt2".into(),
                "--produce-models".into(),
                format!("--tlimit={ms}"),
                "--bitblast=eager".into(),
                "-".into(),
            ],
            sb,
        ));
    }
    let mut procs = vec![];
    for (cmd, script) in jobs {
        let c = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        if let Ok(mut c) = c {
            let mut i = c.stdin.take().unwrap();
            let body = format!("{script}{gv}");
            let h = std::thread::spawn(move || {
                let _ = i.write_all(body.as_bytes());
            });
            let mut o = c.stdout.take().unwrap();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let mut s = String::new();
                let _ = o.read_to_string(&mut s);
                let _ = tx.send(s);
            });
            procs.push((c, h, rx, false));
        }
    }
    let t0 = Instant::now();
    let mut ans = Res::Unknown;
    'o: loop {
        let mut live = 0;
        for p in procs.iter_mut() {
            if p.3 {
                continue;
            }
            match p.2.try_recv() {
                Ok(s) => {
                    p.3 = true;
                    let first = s.lines().next().unwrap_or("").trim().to_string();
                    if first == "unsat" {
                        ans = Res::Unsat;
                        break 'o;
                    }
                    if first == "sat" {
                        let m = parse_model(&s);
                        ans = Res::Sat(m);
                        break 'o;
                    }
                }
                Err(std::sync::mpsc::TryRecvError::Empty) => live += 1,
                Err(_) => p.3 = true,
            }
        }
        if live == 0 || t0.elapsed() > Duration::from_secs(secs + 5) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for p in procs.iter_mut() {
        let _ = p.0.kill();
        let _ = p.0.wait();
    }
    ans
}
