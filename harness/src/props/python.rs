//! The Python extension, driven by programs whose results the library itself predicts.
//! The worker generates a program and computes every instruction's result through the Rust API;
//! tools/pyexec.py executes it against the extension and reports what it sees.
use super::eval::{no_set, parse, rand_cfg};
use super::{DEF, Prop};
use crate::ast::{VARS, gen_num, gen_point, generate};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use num_traits::Float as _;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead as _, BufReader, Write as _};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;
use symb_anafis::parallel::{EvalResult, ExprInput, Value, VarInput, evaluate_parallel};
use symb_anafis::visitor::{ExprView, NodeCounter, VariableCollector, walk_expr};
use symb_anafis::{CompiledEvaluator, Context, CovEntry, CovarianceMatrix, Diff, DiffError, Dual, Expr, Simplify, Symbol, UserFunction, symb};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P23", case: p23, directed: Some(directed), rule: "distinct (program, instruction) results of the Python extension compared with the library's own, plus hostile calls survived", secs: 40, min_judged: 2000, stall_secs: 30, ..DEF }]
}

// ---- the other side ----
struct Py { child: Child, to: ChildStdin, from: BufReader<ChildStdout>, log: String }
thread_local! { static PY: RefCell<Option<Py>> = const { RefCell::new(None) }; }
fn python() -> String { ["/opt/vp/venv/bin/python", "/opt/veriftools/pyvenv/bin/python"].iter().find(|p| std::path::Path::new(p).exists()).map_or_else(|| "python3".to_string(), ToString::to_string) }
fn start() -> Py {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let log = format!("{}/pylog-{}-{:?}", std::env::var("PYEXT").unwrap_or_else(|_| "/tmp".into()), std::process::id(), std::thread::current().id()).replace(['(', ')'], "");
    let mut child = Command::new(python()).arg(format!("{dir}/tools/pyexec.py")).env("PYLOG", &log).env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", "3").env("OPENBLAS_NUM_THREADS", "1")
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("python");
    let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Py { child, to, from, log }
}
/// One response per line, or what happened to the process.
fn exchange(lines: &[String]) -> Result<Vec<String>, String> {
    PY.with_borrow_mut(|slot| {
        let p = slot.get_or_insert_with(start);
        let mut text = lines.join("\n"); text.push_str("\nGO\n");
        let mut out = vec![];
        let ok = p.to.write_all(text.as_bytes()).and_then(|()| p.to.flush()).is_ok();
        while ok {
            let mut l = String::new();
            match p.from.read_line(&mut l) { Ok(0) | Err(_) => break, Ok(_) => {} }
            let l = l.trim_end().to_string();
            if l == "END" { return Ok(out); }
            out.push(l);
        }
        let st = p.child.wait();
        let last = std::fs::read_to_string(&p.log).unwrap_or_default();
        let _ = std::fs::remove_file(&p.log);
        *slot = None;
        Err(format!("the Python process ended ({}) while executing: {last}", st.map_or_else(|e| e.to_string(), |s| s.to_string())))
    })
}

// ---- values ----
#[derive(Clone)]
enum V { N, F(f64), I(i64), B(bool), S(String), E(Expr), Y(Symbol), D(Dual<f64>), L(Vec<V>), Set(Vec<V>), A(Vec<usize>, Vec<f64>), View(Expr), O(&'static str), Opaque }
fn hx(s: &str) -> String { if s.is_empty() { "-".into() } else { s.bytes().fold(String::new(), |mut o, b| { let _ = write!(o, "{b:02x}"); o }) } }
fn unhx(s: &str) -> String { if s == "-" { return String::new(); } let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(63)).collect(); String::from_utf8_lossy(&b).into_owned() }
fn bits(x: f64) -> String { if x.is_nan() { "nan".into() } else { format!("{:016x}", x.to_bits()) } }
fn number(e: &Expr) -> Option<f64> { match e.view() { ExprView::Number(n) => Some(n), _ => None } }
fn enc(v: &V) -> String {
    match v {
        V::N => "N".into(), V::F(x) => format!("f{}", bits(*x)), V::I(i) => format!("i{i}"), V::B(b) => format!("b{}", u8::from(*b)), V::S(s) => format!("s{}", hx(s)),
        V::E(e) => format!("e{},{},{},{},{},{},{}{}{}{}", hx(&e.to_string()), hx(&format!("Expr({e})")), hx(&e.to_latex()), hx(&e.to_unicode()), e.node_count(), e.max_depth(),
            u8::from(matches!(e.view(), ExprView::Symbol(_))), u8::from(number(e).is_some()), u8::from(e.is_zero_num()), u8::from(e.is_one_num())),
        V::Y(s) => format!("y{}", hx(&s.name().unwrap_or_default())),
        V::D(d) => format!("d{},{}", bits(d.val), bits(d.eps)),
        V::L(v) => format!("[{}]", v.iter().map(enc).collect::<Vec<_>>().join(";")),
        V::Set(v) => { let mut s: Vec<String> = v.iter().map(enc).collect(); s.sort(); format!("{{{}}}", s.join(";")) }
        V::A(sh, v) => format!("a{}:{}", sh.iter().map(ToString::to_string).collect::<Vec<_>>().join("x"), v.iter().map(|x| bits(*x)).collect::<Vec<_>>().join(",")),
        V::View(e) => {
            let (kind, k, value, name, ch, dv, ord): (&str, usize, Option<f64>, Option<String>, Vec<String>, Option<String>, Option<u32>) = match e.view() {
                ExprView::Number(n) => ("Number", 0, Some(n), None, vec![], None, None),
                ExprView::Symbol(s) => ("Symbol", 1, None, Some(s.to_string()), vec![], None, None),
                ExprView::Sum(t) => ("Sum", 2, None, None, t.iter().map(|x| x.to_string()).collect(), None, None),
                ExprView::Product(t) => ("Product", 3, None, None, t.iter().map(|x| x.to_string()).collect(), None, None),
                ExprView::Div(a, b) => ("Div", 4, None, None, vec![a.to_string(), b.to_string()], None, None),
                ExprView::Pow(a, b) => ("Pow", 5, None, None, vec![a.to_string(), b.to_string()], None, None),
                ExprView::Function { name, args } => ("Function", 6, None, Some(name.to_string()), args.iter().map(|x| x.to_string()).collect(), None, None),
                ExprView::Derivative { inner, var, order } => ("Derivative", 7, None, None, vec![inner.to_string()], Some(var.to_string()), Some(order)),
            };
            let flags: String = (0..8).map(|i| if i == k { '1' } else { '0' }).collect();
            let opt = |s: Option<String>| s.map_or("N".to_string(), |s| hx(&s));
            format!("v{kind},{flags},{},{},{},{},{},1", value.map_or("N".into(), bits), opt(name), ch.iter().map(|c| hx(c)).collect::<Vec<_>>().join("|"), opt(dv), ord.map_or("None".to_string(), |o| o.to_string()))
        }
        V::O(n) => format!("o{n}"), V::Opaque => String::new(),
    }
}
/// What an instruction must answer.
enum Want { Is(V), Err(String), ErrType(&'static str), AnyErr, Any, Text(String), Near(V), Whole }

struct Prog { lines: Vec<String>, want: Vec<Want>, regs: Vec<Option<V>> }
impl Prog {
    fn new() -> Self { Self { lines: vec![], want: vec![], regs: vec![] } }
    fn push(&mut self, line: String, want: Want, reg: Option<V>) -> usize { self.lines.push(line); self.want.push(want); self.regs.push(reg); self.lines.len() - 1 }
    fn is(&mut self, line: String, v: V) -> usize { self.push(line, Want::Is(v.clone()), Some(v)) }
    /// Library result: the value, or an exception carrying the library's message
    fn res(&mut self, line: String, v: Result<V, DiffError>) -> usize { match v { Ok(v) => self.is(line, v), Err(e) => self.push(line, Want::Err(e.to_string()), None) } }
    fn exprs(&self) -> Vec<usize> { (0..self.regs.len()).filter(|&i| matches!(self.regs[i], Some(V::E(_) | V::Y(_)))).collect() }
    fn expr(&self, i: usize) -> Expr { match &self.regs[i] { Some(V::E(e)) => e.clone(), Some(V::Y(s)) => s.to_expr(), _ => unreachable!() } }
    fn run(self, cx: &mut Cx, what: &str, seed: u64) {
        let answers = match exchange(&self.lines) {
            Ok(a) => a,
            Err(e) => { cx.violation("the Python process died", format!("{what} seed {seed}: {e}")); return }
        };
        if answers.len() != self.lines.len() { cx.count("executor_confused"); return; }
        for (k, a) in answers.iter().enumerate() {
            let line = &self.lines[k];
            let show = || format!("{} [{what}]", readable(line, &self.lines));
            if let Some(p) = a.strip_prefix("PANIC ") { cx.violation("a panic reached Python", format!("{}: {}", show(), unhx(p))); return; }
            if let Some(p) = a.strip_prefix("BAD ") { cx.violation(format!("{} violated", line.split(' ').next().unwrap_or("")), format!("{}: {}", show(), unhx(p))); return; }
            let exc = a.strip_prefix("EXC ").map(|s| { let (t, m) = s.split_once(' ').unwrap_or((s, "-")); (t.to_string(), unhx(m)) });
            let got = || exc.as_ref().map_or_else(|| readable_answer(a), |(t, m)| format!("{t}: {m}"));
            let bad = match &self.want[k] {
                Want::Is(V::Opaque) => exc.is_some().then(|| "a result".to_string()),
                Want::Is(v) => (a.strip_prefix("OK ") != Some(&enc(v))).then(|| readable_answer(&format!("OK {}", enc(v)))),
                Want::Text(s) => (a != s).then(|| readable_answer(s)),
                Want::Err(m) => (!exc.as_ref().is_some_and(|(t, g)| ["ValueError", "SyntaxError", "RuntimeError"].contains(&t.as_str()) && g == m)).then(|| format!("an exception saying {m}")),
                Want::ErrType(t) => (exc.as_ref().map(|e| e.0.as_str()) != Some(t)).then(|| format!("a {t}")),
                Want::AnyErr => exc.is_none().then(|| "an exception".to_string()),
                Want::Any => None,
                Want::Near(V::E(e)) => near(a, e).then(|| format!("the value of {e}")),
                Want::Near(_) => None,
                Want::Whole => { if let Some(n) = a.strip_prefix("OK i").and_then(|s| s.split(' ').next()?.parse::<u64>().ok()) { cx.add("hostile_calls", n); for j in 0..n { cx.observed(mix(seed ^ j)); } } None }
            };
            if let Some(b) = bad { cx.violation(format!("Python disagrees: {}", sig(line)), format!("{} gives {}, the library {b}", show(), got())); return; }
            cx.count(if exc.is_some() { "exceptions" } else { "results" });
            if !matches!(self.want[k], Want::Any | Want::Whole) { cx.observed(mix(seed ^ ((k as u64) << 40))); }
        }
        cx.count(what);
        cx.sample(|| format!("{what}: {}", (0..self.lines.len()).take(6).map(|k| format!("{} -> {}", readable(&self.lines[k], &self.lines), readable_answer(&answers[k]))).collect::<Vec<_>>().join(" ; ").chars().take(600).collect::<String>()));
    }
}
/// Differs in value from `e` (only the value is judged)
fn near(a: &str, e: &Expr) -> bool {
    let Some(t) = a.strip_prefix("OK e").and_then(|s| s.split(',').next()) else { return true };
    if [e.to_string(), (Expr::number(0.0) + e.clone()).to_string(), (Expr::number(0.0) - (-e.clone())).to_string()].contains(&unhx(t)) { return false; }
    let known: HashSet<String> = VARS.iter().map(ToString::to_string).collect();
    let Ok(g) = symb_anafis::parse(&unhx(t), &known, &no_set(), None) else { return false };
    let mut r = Rng::new(7);
    for _ in 0..4 {
        let p = gen_point(&mut r, VARS.len(), 0);
        let m: HashMap<&str, f64> = VARS.iter().copied().zip(p).collect();
        if let (Some(x), Some(y)) = (number(&g.evaluate(&m, &HashMap::new())), number(&e.evaluate(&m, &HashMap::new())))
            && x.is_finite() && y.is_finite() && (x - y).abs() > 1e-6 * x.abs().max(y.abs()).max(1.0) { return true; }
    }
    false
}
fn readable(line: &str, all: &[String]) -> String {
    line.split(' ').map(|t| {
        let (c, r) = t.split_at(t.len().min(1));
        match c {
            "s" if r == "-" || (!r.is_empty() && r.len() % 2 == 0 && r.bytes().all(|b| b.is_ascii_hexdigit())) => format!("{:?}", unhx(r)),
            "f" | "n" if r.len() == 16 => u64::from_str_radix(r, 16).map_or(t.into(), |b| f64::from_bits(b).to_string()),
            "r" if all.len() > 1 => r.parse::<usize>().ok().and_then(|i| all.get(i)).map_or(t.into(), |l| format!("<{}>", readable(l, &[]))),
            _ => t.to_string(),
        }
    }).collect::<Vec<_>>().join(" ").chars().take(700).collect()
}
fn readable_answer(a: &str) -> String {
    let a = a.strip_prefix("OK ").unwrap_or(a);
    a.split(';').map(|p| match p.trim_start_matches('[').split_at(p.trim_start_matches('[').len().min(1)) {
        ("e", r) => { let f: Vec<&str> = r.trim_end_matches(']').split(',').collect(); format!("Expr {} (latex {}, nodes {:?})", unhx(f[0]), f.get(2).map_or(String::new(), |s| unhx(s)), &f[4.min(f.len())..]) }
        ("s", r) => format!("{:?}", unhx(r.trim_end_matches(']'))),
        ("f", r) if r.len() >= 16 => u64::from_str_radix(&r[..16], 16).map_or(p.into(), |b| format!("{:e}", f64::from_bits(b))),
        _ => p.to_string() }).collect::<Vec<_>>().join("; ").chars().take(600).collect()
}
fn sig(line: &str) -> String {
    let w: Vec<&str> = line.split(' ').collect();
    match w[0] { "meth" => format!("method {}", w.get(2).unwrap_or(&"")), "bin" | "call" | "new" => format!("{} {}", w[0], w.get(1).unwrap_or(&"")), "static" | "attr" => format!("{} {}", w[0], w.get(2).unwrap_or(&"")), w => w.to_string() }
}
fn sx(s: &str) -> String { format!("s{}", hx(s)) }
fn fx(x: f64) -> String { format!("f{:016x}", x.to_bits()) }
fn strs(v: &[&str]) -> String { let mut o = format!("l{}", v.len()); for s in v { let _ = write!(o, " {}", sx(s)); } o }
fn floats(v: &[f64], form: &str) -> String { let mut o = format!("{form}{}", v.len()); for x in v { let _ = write!(o, " {}", fx(*x)); } o }

const UN: &[&str] = &["sin", "cos", "tan", "cot", "sec", "csc", "asin", "acos", "atan", "acot", "asec", "acsc", "sinh", "cosh", "tanh", "coth", "sech", "csch", "asinh", "acosh", "atanh", "acoth", "asech", "acsch", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs", "signum", "sinc", "erf", "erfc", "floor", "ceil", "round", "exp_polar",
    "gamma", "digamma", "trigamma", "tetragamma", "elliptic_k", "elliptic_e", "zeta", "lambertw"];
/// Methods of two and more arguments: the order in which self and the arguments appear in the function
const MULTI: &[(&str, &[usize])] = &[("log", &[1, 0]), ("polygamma", &[1, 0]), ("beta", &[0, 1]), ("besselj", &[1, 0]), ("bessely", &[1, 0]), ("besseli", &[1, 0]), ("besselk", &[1, 0]), ("atan2", &[0, 1]), ("hermite", &[1, 0]), ("zeta_deriv", &[1, 0]),
    ("assoc_legendre", &[1, 2, 0]), ("spherical_harmonic", &[1, 2, 0, 3]), ("ynm", &[1, 2, 0, 3])];
/// Does the method of an expression refuse these numbers as outside the function's domain? None: too close to tell.
fn refuses(f: &str, a: &[Option<f64>]) -> Option<bool> {
    let pole = |x: Option<f64>| match x { None => Some(false), Some(x) if !x.is_finite() => None, Some(x) if x > 0.5 => Some(false), Some(x) => { let d = (x - x.round()).abs(); if d == 0.0 { Some(true) } else if d < 1e-6 { None } else { Some(false) } } };
    let order = |x: Option<f64>| match x { None => Some(false), Some(x) if !x.is_finite() => None, Some(x) => { let d = (x - x.round()).abs(); if d == 0.0 { Some(x < 0.0) } else if d < 1e-6 { None } else { Some(true) } } };
    let beyond = |x: Option<f64>, lim: f64, at: bool| match x { None => Some(false), Some(x) if x.is_nan() => None, Some(x) => { let d = x - lim; if d == 0.0 { Some(at) } else if d.abs() < 1e-6 { None } else { Some(d > 0.0) } } };
    let or = |v: &[Option<bool>]| if v.contains(&Some(true)) { Some(true) } else if v.contains(&None) { None } else { Some(false) };
    let neg = |x: Option<f64>| x.map(|x| -x);
    let is_one = |x: Option<f64>| match x { None => Some(false), Some(x) if x == 1.0 => Some(true), Some(x) if (x - 1.0).abs() < 1e-6 || x.is_nan() => None, _ => Some(false) };
    match f {
        "gamma" | "digamma" | "trigamma" | "tetragamma" => pole(a[0]),
        "elliptic_k" => beyond(a[0].map(f64::abs), 1.0, true),
        "elliptic_e" => beyond(a[0].map(f64::abs), 1.0, false),
        "zeta" => is_one(a[0]),
        "lambertw" => beyond(neg(a[0]), (-1.0f64).exp(), false),
        "log" => or(&[beyond(neg(a[1]), 0.0, true), is_one(a[1]), beyond(neg(a[0]), 0.0, true)]),
        "polygamma" => or(&[order(a[1]), pole(a[0])]),
        "beta" => or(&[pole(a[0]), pole(a[1])]),
        "bessely" | "besselk" => beyond(neg(a[0]), 0.0, true),
        "hermite" => order(a[1]),
        "zeta_deriv" => or(&[is_one(a[0]), order(a[1])]),
        "assoc_legendre" | "spherical_harmonic" | "ynm" => {
            let m = match (a[1], a[2]) { (Some(l), Some(m)) if l.is_finite() && m.is_finite() => Some(m.abs() > l), (Some(_), Some(_)) => None, _ => Some(false) };
            let x = if f == "assoc_legendre" { beyond(a[0].map(f64::abs), 1.0, false) } else { Some(false) };
            or(&[order(a[1]), m, x])
        }
        _ => Some(false),
    }
}
fn has_nan(e: &Expr) -> bool { match e.view() { ExprView::Number(n) => n.is_nan(), ExprView::Symbol(_) => false, ExprView::Sum(t) => t.iter().any(|x| has_nan(x)), ExprView::Product(t) => t.iter().any(|x| has_nan(x)), ExprView::Div(a, b) => has_nan(&a) || has_nan(&b), ExprView::Pow(a, b) => has_nan(&a) || has_nan(&b), ExprView::Function { args, .. } => args.iter().any(|x| has_nan(x)), ExprView::Derivative { inner, .. } => has_nan(&inner) } }

/// A number operand in one of the forms Python offers, and its value
fn num_form(r: &mut Rng) -> (String, f64) {
    match r.below(9) {
        0 | 1 => { let i = *r.pick(&[0i64, 1, -1, 2, 3, -2, 5, 10, 1_000_003, -7]); (format!("i{i}"), i as f64) }
        2 => { let i = *r.pick(&[9_007_199_254_740_993i64, i64::MAX, i64::MIN, 1 << 40]); (format!("i{i}"), i as f64) }
        3 => ("i100000000000000000000000000000".into(), 1e29),
        4 => { let x = gen_num(r, 1); (format!("n{:016x}", x.to_bits()), x) }
        5 => { let i = r.range(-9, 9); (format!("m{i}"), i as f64) }
        6 => if r.chance(0.5) { ("T".into(), 1.0) } else { ("F".into(), 0.0) },
        7 => { let x = *r.pick(&[0.5, -0.5, 0.25, 1.5, -2.5, 1e-300, 1e300, -0.0, 0.1]); (fx(x), x) }
        _ => { let x = gen_num(r, 1); (fx(x), x) }
    }
}
/// Any operand accepted where an expression is expected
fn operand(r: &mut Rng, p: &Prog) -> (String, Expr) {
    let es = p.exprs();
    match r.below(10) {
        0..=5 if !es.is_empty() => { let i = *r.pick(&es); (format!("r{i}"), p.expr(i)) }
        6 => { let n = *r.pick(&["x", "y", "alpha", "T"]); (sx(n), symb(n).to_expr()) }
        _ => { let (t, x) = num_form(r); (t, Expr::number(x)) }
    }
}
fn small(e: &Expr) -> bool { e.node_count() < 60 && !has_nan(e) }

fn expressions(r: &mut Rng, p: &mut Prog, n: usize) {
    for _ in 0..r.range(2, 4) {
        let name = *r.pick(&VARS[..9]);
        match r.below(3) { 0 => p.is(format!("call symb {}", sx(name)), V::Y(symb(name))), 1 => p.is(format!("new Symbol {}", sx(name)), V::Y(symb(name))), _ => p.is(format!("new Expr {}", sx(name)), V::E(symb(name).to_expr())) };
    }
    let c = rand_cfg(r);
    for _ in 0..r.range(0, 2) {
        let a = generate(r, &c, 3);
        let t = a.show();
        let e = parse(&t);
        if e.as_ref().is_ok_and(|e| !small(e)) { continue; }
        p.res(format!("call parse {}", sx(&t)), e.map(V::E));
    }
    let (t, x) = num_form(r);
    p.is(format!("new Expr {t}"), V::E(Expr::number(x)));
    for _ in 0..n {
        let es = p.exprs();
        let i = *r.pick(&es);
        let (a, sym) = (p.expr(i), matches!(p.regs[i], Some(V::Y(_))));
        if !small(&a) { continue; }
        match r.below(16) {
            0..=3 => {
                let (bt, b) = operand(r, p);
                if !small(&b) { continue; }
                let op = *r.pick(&["+", "-", "*", "/", "^"]);
                let v = match op { "+" => a + b, "-" => a - b, "*" => a * b, "/" => a / b, _ => Expr::pow_static(a, b) };
                p.is(format!("bin {op} r{i} {bt}"), V::E(v));
            }
            4 | 5 => {
                let (bt, x) = num_form(r);
                if bt.starts_with(['n', 'm']) { continue; }
                let b = Expr::number(x);
                let op = *r.pick(&["+", "-", "*", "/", "^"]);
                let v = match op { "+" => b + a, "-" => b - a, "*" => b * a, "/" => b / a, _ => Expr::pow_static(b, a) };
                p.is(format!("bin {op} {bt} r{i}"), V::E(v));
            }
            6..=8 => {
                let f = *r.pick(UN);
                if (f == "round" || f == "elliptic_k") && sym && !["elliptic_k"].contains(&f) && false { continue; }
                let line = format!("meth r{i} {f}");
                match if sym { Some(false) } else { refuses(f, &[number(&a)]) } {
                    Some(true) => { p.push(line, Want::ErrType("ValueError"), None); }
                    Some(false) => { p.is(line, V::E(Expr::func(f, a))); }
                    None => {}
                }
            }
            9 | 10 => {
                let (f, ord) = *r.pick(MULTI);
                let mut line = format!("meth r{i} {f}");
                let mut args = vec![a];
                for k in 1..ord.len() {
                    let (t, e) = if r.chance(0.5) { let j = r.range(if k == 2 { -2 } else { -1 }, 4); (format!("i{j}"), Expr::number(j as f64)) } else { operand(r, p) };
                    let _ = write!(line, " {t}"); args.push(e);
                }
                // the recurrences run over all orders
                if !args.iter().all(small) || args.iter().any(|a| number(a).is_some_and(|x| x.abs() > 1e4)) { continue; }
                let nums: Vec<Option<f64>> = args.iter().map(number).collect();
                match if sym { Some(false) } else { refuses(f, &nums) } {
                    Some(true) => { p.push(line, Want::ErrType("ValueError"), None); }
                    Some(false) => { p.is(line, V::E(Expr::func_multi(f, ord.iter().map(|&k| args[k].clone()).collect()))); }
                    None => {}
                }
            }
            11 if !sym => { let (bt, b) = operand(r, p); if small(&b) { p.is(format!("meth r{i} pow {bt}"), V::E(Expr::pow_static(a, b))); } }
            11 => { p.is(format!("meth r{i} to_expr"), V::E(a)); }
            12 => { p.push(format!("neg r{i}"), Want::Near(V::E(-a)), None); }
            13 if !sym => { let n = *r.pick(&VARS[..5]); let (bt, b) = operand(r, p); if small(&b) { p.is(format!("meth r{i} substitute {} {bt}", sx(n)), V::E(a.substitute(n, &b))); } }
            14 if !sym => { p.is(format!("meth r{i} view"), V::View(a)); }
            15 if !sym => match number(&a) { Some(x) => { p.is(format!("float r{i}"), V::F(x)); } None => { p.push(format!("float r{i}"), Want::ErrType("TypeError"), None); } },
            _ => {}
        }
        if p.regs.last().is_some_and(|v| matches!(v, Some(V::E(e)) if has_nan(e))) { p.lines.pop(); p.want.pop(); p.regs.pop(); }
    }
}
/// Calls on the registers that hold expressions
fn calculus(r: &mut Rng, p: &mut Prog, n: usize) {
    let es: Vec<usize> = p.exprs().into_iter().filter(|&i| matches!(p.regs[i], Some(V::E(_))) && small(&p.expr(i)) && p.expr(i).node_count() < 24).collect();
    if es.is_empty() { return; }
    let ex = |e: Result<Expr, DiffError>| e.map(V::E);
    for _ in 0..n {
        let i = *r.pick(&es);
        let a = p.expr(i);
        let v = *r.pick(&VARS[..5]);
        let vars: Vec<&str> = { let k = r.range(0, 3) as usize; let mut v: Vec<&str> = VARS[..5].to_vec(); r.shuffle(&mut v); v.truncate(k); v };
        let syms: Vec<Symbol> = vars.iter().map(|s| symb(s)).collect();
        let sr: Vec<&Symbol> = syms.iter().collect();
        match r.below(12) {
            0 => { p.res(format!("meth r{i} diff {}", sx(v)), ex(Diff::new().differentiate(&a, &symb(v)))); }
            1 => { p.res(format!("meth r{i} simplify"), ex(Simplify::new().simplify(&a))); }
            2 => {
                let vals: Vec<(&str, f64)> = vars.iter().map(|v| (*v, gen_num(r, 1))).collect();
                let m: HashMap<&str, f64> = vals.iter().copied().collect();
                let e = a.evaluate(&m, &HashMap::new());
                if has_nan(&e) && number(&e).is_none() { continue; }
                let kv = |t: &str| vals.iter().map(|(k, x)| format!(" {t}{} {}", sx(k), fx(*x))).collect::<String>();
                if r.chance(0.5) { p.is(format!("meth r{i} evaluate d{}{}", vals.len(), kv("")), V::E(e)); } else { p.is(format!("call evaluate r{i} l{}{}", vals.len(), kv("t2 ")), V::E(e)); }
            }
            3 => { p.res(format!("call gradient r{i} {}", strs(&vars)), symb_anafis::gradient(&a, &sr).map(|g| V::L(g.into_iter().map(V::E).collect()))); }
            4 if vars.len() <= 2 => { p.res(format!("call hessian r{i} {}", strs(&vars)), symb_anafis::hessian(&a, &sr).map(|g| V::L(g.into_iter().map(|w| V::L(w.into_iter().map(V::E).collect())).collect()))); }
            5 => {
                let j = *r.pick(&es); let b = p.expr(j);
                p.res(format!("call jacobian l2 r{i} r{j} {}", strs(&vars)), symb_anafis::jacobian(&[a, b], &sr).map(|g| V::L(g.into_iter().map(|w| V::L(w.into_iter().map(V::E).collect())).collect())));
            }
            6 => {
                let rel = r.chance(0.4);
                let var: Option<Vec<f64>> = r.chance(0.5).then(|| (0..vars.len() + usize::from(r.chance(0.1))).map(|_| gen_num(r, 1).abs()).collect());
                let cov = var.as_ref().map(|v| CovarianceMatrix::diagonal(v.iter().map(|x| CovEntry::Num(*x)).collect()));
                let res = if rel { symb_anafis::relative_uncertainty(&a, &vars, cov.as_ref()) } else { symb_anafis::uncertainty_propagation(&a, &vars, cov.as_ref()) };
                p.res(format!("call {} r{i} {}{}", if rel { "relative_uncertainty" } else { "uncertainty_propagation" }, strs(&vars), var.map_or(String::new(), |v| format!(" {}", floats(&v, "l")))), res.map(|e| V::S(e.to_string())));
            }
            7 => { let mut c = NodeCounter::default(); walk_expr(&a, &mut c); p.is(format!("call count_nodes r{i}"), V::I(c.count as i64)); }
            8 => { let mut c = VariableCollector::default(); walk_expr(&a, &mut c); p.is(format!("call collect_variables r{i}"), V::Set(c.variable_names().into_iter().map(V::S).collect())); }
            9 => {
                let (d, s) = (r.range(0, 8) as usize, r.chance(0.5));
                let lim = r.below(3);
                let mut b = Simplify::new().domain_safe(s);
                let k = p.push("new Simplify".into(), Want::Is(V::O("Simplify")), None);
                p.push(format!("meth r{k} domain_safe {}", if s { "T" } else { "F" }), Want::Is(V::O("Simplify")), None);
                if lim == 1 { b = b.max_depth(d); p.push(format!("meth r{k} max_depth i{d}"), Want::Is(V::O("Simplify")), None); }
                if lim == 2 { b = b.max_nodes(d * 4); p.push(format!("meth r{k} max_nodes i{}", d * 4), Want::Is(V::O("Simplify")), None); }
                p.res(format!("meth r{k} simplify r{i}"), ex(b.simplify(&a)));
            }
            10 => {
                let (d, s) = (r.range(0, 8) as usize, r.chance(0.5));
                let lim = r.below(3);
                let mut b = Diff::new().domain_safe(s);
                let k = p.push("new Diff".into(), Want::Is(V::O("Diff")), None);
                p.push(format!("meth r{k} domain_safe {}", if s { "T" } else { "F" }), Want::Is(V::O("Diff")), None);
                if lim == 1 { b = b.max_depth(d); p.push(format!("meth r{k} max_depth i{d}"), Want::Is(V::O("Diff")), None); }
                if lim == 2 { b = b.max_nodes(d * 4); p.push(format!("meth r{k} max_nodes i{}", d * 4), Want::Is(V::O("Diff")), None); }
                if r.chance(0.3) {
                    let f = *r.pick(&VARS[..5]);
                    b = b.fixed_var(&f);
                    if r.chance(0.5) { p.push(format!("meth r{k} fixed_var {}", sx(f)), Want::Is(V::O("Diff")), None); } else { p.push(format!("meth r{k} fixed_vars l1 {}", sx(f)), Want::Is(V::O("Diff")), None); }
                }
                if r.chance(0.5) { p.res(format!("meth r{k} differentiate r{i} {}", sx(v)), ex(b.differentiate(&a, &symb(v)))); }
                else { let y = p.is(format!("call symb {}", sx(v)), V::Y(symb(v))); p.res(format!("meth r{k} differentiate r{i} r{y}"), ex(b.differentiate(&a, &symb(v)))); }
            }
            _ => { p.is(format!("meth r{i} view"), V::View(a)); }
        }
    }
}
fn strings(r: &mut Rng, p: &mut Prog) {
    let c = rand_cfg(r);
    for _ in 0..3 {
        let mut t = generate(r, &c, 3).show();
        if r.chance(0.25) { // spoil
            let mut ch: Vec<char> = t.chars().collect();
            let k = r.below(ch.len() + 1);
            match r.below(3) { 0 if !ch.is_empty() => { ch.remove(k.min(ch.len() - 1)); } 1 => ch.insert(k, *r.pick(&['(', ')', '+', '^', ',', '#', 'é', '\0', '2', '.', ' '])), _ => ch.truncate(k) }
            t = ch.into_iter().collect();
        }
        if t.len() > 120 { continue; }
        let v = *r.pick(&VARS[..9]);
        let known: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(VARS)).collect();
        let custom: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&["f", "g", "uf1", "sin", "x"])).collect();
        let vars: Vec<&str> = (0..r.range(0, 3)).map(|k| VARS[k as usize]).collect();
        let (ks, cs) = (strs(&known), strs(&custom));
        let set = |v: &[&str]| v.iter().map(ToString::to_string).collect::<HashSet<String>>();
        let form = r.below(3);
        let (kk, cc): (&[&str], Option<&[&str]>) = match form { 0 => (&[], None), 1 => (&known, None), _ => (&known, Some(&custom)) };
        let tail = match form { 0 => String::new(), 1 => format!(" {ks}"), _ => format!(" {ks} {cs}") };
        let st = |s: Result<String, DiffError>| s.map(V::S);
        let list = |s: Result<Vec<String>, DiffError>| s.map(|v| V::L(v.into_iter().map(V::S).collect()));
        let mat = |s: Result<Vec<Vec<String>>, DiffError>| s.map(|v| V::L(v.into_iter().map(|w| V::L(w.into_iter().map(V::S).collect())).collect()));
        match r.below(9) {
            0 => { p.res(format!("call diff {} {}{tail}", sx(&t), sx(v)), st(symb_anafis::diff(&t, v, kk, cc))); }
            1 => { p.res(format!("call simplify {}{tail}", sx(&t)), st(symb_anafis::simplify(&t, kk, cc))); }
            2 => { p.res(format!("call parse {}{tail}", sx(&t)), symb_anafis::parse(&t, &set(kk), &set(cc.unwrap_or(&[])), None).map(V::E)); }
            3 => {
                let vals: Vec<(&str, f64)> = vars.iter().map(|v| (*v, gen_num(r, 1))).collect();
                p.res(format!("call evaluate_str {} l{}{}", sx(&t), vals.len(), vals.iter().map(|(k, x)| format!(" t2 {} {}", sx(k), fx(*x))).collect::<String>()), st(symb_anafis::evaluate_str(&t, &vals)));
            }
            4 => { p.res(format!("call gradient_str {} {}", sx(&t), strs(&vars)), list(symb_anafis::gradient_str(&t, &vars))); }
            5 if vars.len() < 3 => { p.res(format!("call hessian_str {} {}", sx(&t), strs(&vars)), mat(symb_anafis::hessian_str(&t, &vars))); }
            6 => { let t2 = generate(r, &c, 2).show(); if t2.len() < 80 { p.res(format!("call jacobian_str l2 {} {} {}", sx(&t), sx(&t2), strs(&vars)), mat(symb_anafis::jacobian_str(&[&t, &t2], &vars))); } }
            7 => { let k = p.push("new Diff".into(), Want::Is(V::O("Diff")), None); let s = r.chance(0.5); p.push(format!("meth r{k} domain_safe {}", if s { "T" } else { "F" }), Want::Any, None); p.res(format!("meth r{k} diff_str {} {}", sx(&t), sx(v)), st(Diff::new().domain_safe(s).diff_str(&t, v, &[]))); }
            _ => { let k = p.push("new Simplify".into(), Want::Is(V::O("Simplify")), None); p.res(format!("meth r{k} simplify_str {}", sx(&t)), st(Simplify::new().simplify_str(&t, &[]))); }
        }
    }
}
/// Columns as lists or arrays; the layout that cannot be read in place must be refused, not misread
fn column(r: &mut Rng, v: &[f64], np: bool) -> (String, bool) {
    if !np { return (floats(v, "l"), false); }
    if r.chance(0.06) && v.len() > 1 { (floats(v, "A"), true) } else { (floats(v, "a"), false) }
}
fn numeric(r: &mut Rng, p: &mut Prog) {
    let c = rand_cfg(r);
    let a = generate(r, &c, 3);
    let Ok(e) = parse(&a.show()) else { return };
    if !small(&e) { return; }
    let i = p.is(format!("call parse {}", sx(&a.show())), V::E(e.clone()));
    let nv = c.vars.max(1);
    let names: Vec<&str> = VARS[..nv].to_vec();
    let auto = r.chance(0.3);
    let ev = if auto { CompiledEvaluator::compile_auto(&e, None) } else { CompiledEvaluator::compile(&e, &names, None) };
    let line = if auto { format!("new CompiledEvaluator r{i}") } else { format!("new CompiledEvaluator r{i} {}", strs(&names)) };
    match ev {
        Err(er) => { p.push(line, Want::Err(er.to_string()), None); }
        Ok(ev) => {
            let k = p.push(line, Want::Is(V::O("CompiledEvaluator")), None);
            p.is(format!("meth r{k} param_names"), V::L(ev.param_names().iter().map(|s| V::S(s.clone())).collect()));
            p.is(format!("meth r{k} param_count"), V::I(ev.param_count() as i64));
            p.is(format!("meth r{k} instruction_count"), V::I(ev.instruction_count() as i64));
            p.is(format!("meth r{k} stack_size"), V::I(ev.stack_size() as i64));
            let m = ev.param_count();
            for _ in 0..2 {
                let x: Vec<f64> = gen_point(r, m, 0);
                let np = r.chance(0.5);
                if r.chance(0.5) { let q = p.is(format!("val {}", floats(&x, if np { "a" } else { "l" })), if np { V::A(vec![m], x.clone()) } else { V::L(x.iter().map(|y| V::F(*y)).collect()) }); p.is(format!("meth r{k} evaluate r{q}"), V::F(ev.evaluate(&x))); }
                else { p.is(format!("meth r{k} evaluate {}", floats(&x, if np { "a" } else { "l" })), V::F(ev.evaluate(&x))); }
            }
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 13, 300]);
            let cols: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| r.uniform(-3.0, 3.0)).collect()).collect();
            if m > 0 {
                let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                let mut o = vec![0.0; n];
                let ok = ev.eval_batch(&refs, &mut o, None);
                let (mut line, mut any_np, mut strided) = (format!("meth r{k} eval_batch l{m}"), false, false);
                for c in &cols { let np = r.chance(0.5); let (t, s) = column(r, c, np); any_np |= np; strided |= s; let _ = write!(line, " {t}"); }
                if strided { p.push(line, Want::Any, None); }
                else { p.res(line, ok.map(|()| if any_np { V::A(vec![n], o) } else { V::L(o.into_iter().map(V::F).collect()) })); }
                // refused shapes
                match r.below(3) {
                    0 => { p.push(format!("meth r{k} eval_batch l{}{}", m + 1, (0..=m).map(|_| " l1 f3ff0000000000000").collect::<String>()), Want::ErrType("ValueError"), None); }
                    1 if m >= 2 => { p.push(format!("meth r{k} eval_batch l{m} l2 f3ff0000000000000 f3ff0000000000000{}", (1..m).map(|_| " l1 f3ff0000000000000").collect::<String>()), Want::ErrType("ValueError"), None); }
                    _ => { p.push(format!("meth r{k} eval_batch l{m} sff{}", (1..m).map(|_| " l1 f3ff0000000000000").collect::<String>()), Want::AnyErr, None); }
                }
            }
        }
    }
    // several expressions
    let b = generate(r, &c, 2);
    let Ok(e2) = parse(&b.show()) else { return };
    if !small(&e2) { return; }
    let j = p.is(format!("call parse {}", sx(&b.show())), V::E(e2.clone()));
    let which: Vec<usize> = (0..r.range(1, 3)).map(|_| if r.chance(0.5) { i } else { j }).collect();
    let same = r.chance(0.7);
    let n0 = r.range(1, 9) as usize;
    let lens: Vec<usize> = which.iter().map(|_| if same { n0 } else { r.range(1, 5) as usize }).collect();
    let np = r.chance(0.5);
    let data: Vec<Vec<Vec<f64>>> = lens.iter().map(|&n| (0..nv).map(|_| (0..n).map(|_| r.uniform(-3.0, 3.0)).collect()).collect()).collect();
    let (mut le, mut ln, mut ld) = (format!("l{}", which.len()), format!("l{}", which.len()), format!("l{}", which.len()));
    for (w, d) in which.iter().zip(&data) {
        let _ = write!(le, " r{w}"); let _ = write!(ln, " {}", strs(&names)); let _ = write!(ld, " l{nv}");
        for c in d { let _ = write!(ld, " {}", floats(c, if np { "a" } else { "l" })); }
    }
    let ex: Vec<Expr> = which.iter().map(|&w| if w == i { e.clone() } else { e2.clone() }).collect();
    let er: Vec<&Expr> = ex.iter().collect();
    let nn: Vec<&[&str]> = which.iter().map(|_| names.as_slice()).collect();
    let cr: Vec<Vec<&[f64]>> = data.iter().map(|d| d.iter().map(Vec::as_slice).collect()).collect();
    let dr: Vec<&[&[f64]]> = cr.iter().map(Vec::as_slice).collect();
    let res = symb_anafis::eval_f64(&er, &nn, &dr);
    let line = format!("call eval_f64 {le} {ln} {ld}");
    let ragged = lens.iter().any(|n| *n != lens[0]);
    match res {
        Err(er) => { p.push(line, Want::Err(er.to_string()), None); }
        Ok(_) if np && ragged => { p.push(line, Want::AnyErr, None); }
        Ok(v) if np => { let sh = vec![v.len(), lens[0]]; p.is(line, V::A(sh, v.into_iter().flatten().collect())); }
        Ok(v) => { p.is(line, V::L(v.into_iter().map(|w| V::L(w.into_iter().map(V::F).collect())).collect())); }
    }
    // mixed requests
    let skip = r.chance(0.5);
    let strs_in: Vec<bool> = which.iter().map(|_| r.chance(0.5)).collect();
    let (mut le, mut ld) = (format!("l{}", which.len()), format!("l{}", which.len()));
    let (mut xs, mut vs) = (vec![], vec![]);
    for (q, (w, d)) in which.iter().zip(&data).enumerate() {
        let (ee, t) = if *w == i { (&e, a.show()) } else { (&e2, b.show()) };
        if strs_in[q] { let _ = write!(le, " {}", sx(&t)); xs.push(ExprInput::String(t)); } else { let _ = write!(le, " r{w}"); xs.push(ExprInput::Parsed(ee.clone())); }
        let _ = write!(ld, " l{nv}");
        let mut vals = vec![];
        for c in d {
            if skip && r.chance(0.5) {
                let o: Vec<Option<f64>> = c.iter().map(|x| r.chance(0.7).then_some(*x)).collect();
                let _ = write!(ld, " l{}", o.len());
                for x in &o { let _ = write!(ld, " {}", x.map_or("N".to_string(), fx)); }
                vals.push(o.into_iter().map(|x| x.map_or(Value::Skip, Value::Num)).collect::<Vec<_>>());
            } else { let f = *r.pick(&["l", "a", "A", "t"]); let _ = write!(ld, " {}", floats(c, f)); vals.push(c.iter().map(|x| Value::Num(*x)).collect()); }
        }
        vs.push(vals);
    }
    let line = format!("call evaluate_parallel {le} {ln} {ld}");
    match evaluate_parallel(xs, which.iter().map(|_| names.iter().map(|s| VarInput::from(*s)).collect()).collect(), vs) {
        Err(er) => { p.push(line, Want::Err(er.to_string()), None); }
        Ok(rows) => {
            let mut nan = false;
            let v: Vec<V> = rows.into_iter().zip(&strs_in).map(|(row, s)| V::L(row.into_iter().map(|q| match q {
                EvalResult::String(t) => t.parse::<f64>().map_or(V::S(t), V::F),
                EvalResult::Expr(x) => { if has_nan(&x) && number(&x).is_none() { nan = true; } number(&x).map_or_else(|| if *s { V::S(x.to_string()) } else { V::E(x.clone()) }, V::F) }
            }).collect())).collect();
            if nan { p.push(line, Want::Any, None); } else { p.push(line, Want::Is(V::L(v)), None); }
        }
    }
}
/// A callback: its text for the executor and what it does to the arguments
#[derive(Clone)]
enum Cb { Tree(Vec<String>), Num(f64, &'static str), Sym, Fails(&'static str) }
impl Cb {
    fn gen_one(r: &mut Rng, arity: usize) -> Self {
        match r.below(12) {
            0 => Self::Num(2.5, "num"), 1 => Self::Num(3.0, "int"), 2 => Self::Sym,
            3 => Self::Fails(*r.pick(&["raise", "none", "badarity"])),
            _ => {
                let mut t = vec![format!("a{}", r.below(arity))];
                for _ in 0..r.range(1, 3) {
                    match r.below(4) { 0 => t.push((*r.pick(&["sin", "cos", "exp"])).to_string()), 1 => { t.push(fx(*r.pick(&[2.0, 3.0, 0.5]))); t.push((*r.pick(&["+", "*", "^"])).to_string()); } _ => { t.push(format!("a{}", r.below(arity))); t.push((*r.pick(&["+", "*", "-"])).to_string()); } }
                }
                Self::Tree(t)
            }
        }
    }
    fn text(&self) -> String { match self { Self::Tree(t) => format!("c{} {}", t.len(), t.join(" ")), Self::Num(_, n) => format!("c1 {n}"), Self::Sym => "c1 sym".into(), Self::Fails(n) => format!("c1 {n}") } }
    fn apply(&self, a: &[Arc<Expr>], failed: &std::sync::atomic::AtomicBool) -> Expr {
        match self {
            Self::Num(x, _) => Expr::number(*x), Self::Sym => symb("x").to_expr(),
            Self::Fails(_) => { failed.store(true, std::sync::atomic::Ordering::Relaxed); Expr::number(f64::NAN) }
            Self::Tree(t) => {
                let mut s: Vec<Expr> = vec![];
                for w in t {
                    if let Some(i) = w.strip_prefix('a') { s.push((*a[i.parse::<usize>().unwrap()]).clone()); }
                    else if w.len() == 17 { s.push(Expr::number(f64::from_bits(u64::from_str_radix(&w[1..], 16).unwrap()))); }
                    else if w.len() == 3 { let x = s.pop().unwrap(); s.push(Expr::func(w, x)); }
                    else { let y = s.pop().unwrap(); let x = s.pop().unwrap(); s.push(match w.as_str() { "+" => x + y, "-" => x - y, "*" => x * y, _ => Expr::pow_static(x, y) }); }
                }
                s.pop().unwrap()
            }
        }
    }
}
fn callbacks(r: &mut Rng, p: &mut Prog) {
    let arity = r.range(1, 2) as usize;
    let name = *r.pick(&["f", "my_fn", "g2"]);
    let body = r.chance(0.7).then(|| Cb::gen_one(r, arity));
    let partials: Option<Vec<Cb>> = r.chance(0.7).then(|| (0..r.range(0, arity as i64 + 1)).map(|_| Cb::gen_one(r, arity)).collect());
    let failed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut uf = UserFunction::new(arity..=arity);
    if let Some(b) = &body { let (b, f) = (b.clone(), failed.clone()); uf = uf.body(move |a| b.apply(a, &f)); }
    let mut refused = false;
    for (i, c) in partials.iter().flatten().enumerate() {
        let (c, f) = (c.clone(), failed.clone());
        match uf.clone().partial(i, move |a| c.apply(a, &f)) { Ok(u) => uf = u, Err(_) => { refused = true; break; } }
    }
    let tail = format!("{} i{arity} {} {}", sx(name), body.as_ref().map_or("N".into(), Cb::text), partials.as_ref().map_or("N".into(), |v| format!("l{}{}", v.len(), v.iter().map(|c| format!(" {}", c.text())).collect::<String>())));
    let c = rand_cfg(r);
    let args: Vec<String> = (0..arity).map(|_| generate(r, &c, 1).show()).collect();
    let text = match r.below(3) { 0 => format!("{name}({})", args.join(", ")), 1 => format!("x*{name}({})^2", args.join(", ")), _ => format!("sin({name}({})) + x", args.join(", ")) };
    let var = *r.pick(&["x", "y"]);
    let via_ctx = r.chance(0.5);
    if via_ctx {
        let k = p.push("new Context".into(), Want::Is(V::O("Context")), None);
        if refused { p.push(format!("meth r{k} with_function {tail}"), Want::ErrType("ValueError"), None); return; }
        p.push(format!("meth r{k} with_function {tail}"), Want::Is(V::O("Context")), None);
        let ctx = Context::new().with_function(name, uf);
        let set: HashSet<String> = [name.to_string()].into();
        let Ok(e) = symb_anafis::parse(&text, &no_set(), &set, None) else { return };
        let i = p.is(format!("call parse {} l0 {}", sx(&text), strs(&[name])), V::E(e.clone()));
        let d = p.push("new Diff".into(), Want::Is(V::O("Diff")), None);
        p.push(format!("meth r{d} with_context r{k}"), Want::Is(V::O("Diff")), None);
        let verdict = |p: &mut Prog, line: String, v: Result<V, DiffError>| { if failed.swap(false, std::sync::atomic::Ordering::Relaxed) { p.push(line, Want::AnyErr, None); } else { p.res(line, v); } };
        let v = Diff::new().with_context(&ctx).diff_str(&text, var, &[]).map(V::S);
        verdict(p, format!("meth r{d} diff_str {} {}", sx(&text), sx(var)), v);
        let v = Diff::new().with_context(&ctx).differentiate(&e, &symb(var)).map(V::E);
        verdict(p, format!("meth r{d} differentiate r{i} {}", sx(var)), v);
        let s = p.push("new Simplify".into(), Want::Is(V::O("Simplify")), None);
        p.push(format!("meth r{s} with_context r{k}"), Want::Is(V::O("Simplify")), None);
        let v = Simplify::new().with_context(&ctx).simplify(&e).map(V::E);
        verdict(p, format!("meth r{s} simplify r{i}"), v);
        let names = ["x", "y", "z", "t", "u"];
        let ev = CompiledEvaluator::compile(&e, &names, Some(&ctx));
        let line = format!("new CompiledEvaluator r{i} {} r{k}", strs(&names));
        let bad = failed.swap(false, std::sync::atomic::Ordering::Relaxed);
        match ev {
            _ if bad => { p.push(line, Want::AnyErr, None); }
            Err(er) => { p.push(line, Want::Err(er.to_string()), None); }
            Ok(ev) => {
                let q = p.push(line, Want::Is(V::O("CompiledEvaluator")), None);
                let x = gen_point(r, 5, 0);
                p.is(format!("meth r{q} evaluate {}", floats(&x, "l")), V::F(ev.evaluate(&x)));
            }
        }
    } else {
        let d = p.push("new Diff".into(), Want::Is(V::O("Diff")), None);
        if refused { p.push(format!("meth r{d} user_fn {tail}"), Want::ErrType("ValueError"), None); return; }
        p.push(format!("meth r{d} user_fn {tail}"), Want::Is(V::O("Diff")), None);
        let v = Diff::new().user_fn(name, uf).diff_str(&text, var, &[]).map(V::S);
        let line = format!("meth r{d} diff_str {} {}", sx(&text), sx(var));
        if failed.load(std::sync::atomic::Ordering::Relaxed) { p.push(line, Want::AnyErr, None); } else { p.res(line, v); }
    }
}
fn duals(r: &mut Rng, p: &mut Prog) {
    let d = |r: &mut Rng| Dual::new(r.uniform(-2.5, 2.5), r.uniform(-2.0, 2.0));
    let mut ds: Vec<(usize, Dual<f64>)> = vec![];
    for _ in 0..2 { let v = d(r); let k = p.is(format!("new Dual {} {}", fx(v.val), fx(v.eps)), V::D(v)); ds.push((k, v)); }
    { let x = gen_num(r, 1); let v = Dual::constant(x); let k = p.is(format!("static Dual constant {}", fx(x)), V::D(v)); ds.push((k, v)); }
    for _ in 0..10 {
        let (i, a) = *r.pick(&ds);
        let (j, b) = *r.pick(&ds);
        let (line, v): (String, Option<Dual<f64>>) = match r.below(8) {
            0 | 1 => { let op = *r.pick(&["+", "-", "*", "/", "^"]); (format!("bin {op} r{i} r{j}"), Some(match op { "+" => a + b, "-" => a - b, "*" => a * b, "/" => a / b, _ => a.powf(b) })) }
            2 => {
                let (t, x) = num_form(r);
                if t.len() > 20 && t.starts_with('i') || t.starts_with(['T', 'F']) { continue; }
                let c = Dual::constant(x);
                let op = *r.pick(&["+", "-", "*", "/"]);
                let left = r.chance(0.5) && !t.starts_with(['n', 'm']);
                let v = match (op, left) { ("+", false) => a + c, ("-", false) => a - c, ("*", false) => a * c, ("/", false) => a / c, ("+", true) => c + a, ("-", true) => c - a, ("*", true) => c * a, _ => c / a };
                (if left { format!("bin {op} {t} r{i}") } else { format!("bin {op} r{i} {t}") }, Some(v))
            }
            3 => (format!("neg r{i}"), Some(-a)),
            4 => { let n = r.range(-4, 5) as i32; match r.below(4) { 0 => (format!("meth r{i} powi i{n}"), Some(a.powi(n))), 1 => (format!("meth r{i} bessel_j i{n}"), a.bessel_j(n)), 2 => (format!("meth r{i} polygamma i{n}"), a.polygamma(n)), _ => { let x = gen_num(r, 1); (format!("meth r{i} powf {}", fx(x)), Some(a.powf(Dual::constant(x)))) } } }
            5 => match r.below(4) { 0 => (format!("meth r{i} hypot r{j}"), Some(a.hypot(b))), 1 => (format!("meth r{i} atan2 r{j}"), Some(a.atan2(b))), 2 => (format!("meth r{i} log r{j}"), Some(a.log(b))), _ => (format!("meth r{i} beta r{j}"), a.beta(b)) },
            _ => {
                let f = *r.pick(&["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "ln", "log2", "log10", "sqrt", "cbrt", "abs", "signum", "floor", "ceil", "round", "trunc", "fract", "recip", "exp_m1", "ln_1p", "erf", "erfc", "gamma", "digamma", "trigamma", "zeta", "lambert_w", "sinc", "elliptic_k", "elliptic_e"]);
                let v = match f { "sin" => Some(a.sin()), "cos" => Some(a.cos()), "tan" => Some(a.tan()), "asin" => Some(a.asin()), "acos" => Some(a.acos()), "atan" => Some(a.atan()), "sinh" => Some(a.sinh()), "cosh" => Some(a.cosh()), "tanh" => Some(a.tanh()), "asinh" => Some(a.asinh()), "acosh" => Some(a.acosh()), "atanh" => Some(a.atanh()),
                    "exp" => Some(a.exp()), "exp2" => Some(a.exp2()), "ln" => Some(a.ln()), "log2" => Some(a.log2()), "log10" => Some(a.log10()), "sqrt" => Some(a.sqrt()), "cbrt" => Some(a.cbrt()), "abs" => Some(a.abs()), "signum" => Some(a.signum()), "floor" => Some(a.floor()), "ceil" => Some(a.ceil()), "round" => Some(a.round()), "trunc" => Some(a.trunc()), "fract" => Some(a.fract()), "recip" => Some(a.recip()), "exp_m1" => Some(a.exp_m1()), "ln_1p" => Some(a.ln_1p()),
                    "erf" => Some(a.erf()), "erfc" => Some(a.erfc()), "gamma" => a.gamma(), "digamma" => a.digamma(), "trigamma" => a.trigamma(), "zeta" => a.zeta(), "lambert_w" => a.lambert_w(), "sinc" => Some(a.sinc()), "elliptic_k" => a.elliptic_k(), _ => a.elliptic_e() };
                (format!("meth r{i} {f}"), v)
            }
        };
        match v { Some(v) => { let k = p.is(line, V::D(v)); ds.push((k, v)); } None => { p.push(line, Want::ErrType("ValueError"), None); } }
    }
}
/// Context and global registries, judged against sets of names
fn registries(r: &mut Rng, p: &mut Prog, seed: u64) {
    let name = |k: usize| format!("reg{seed:x}_{k}");
    let mut global: BTreeSet<String> = BTreeSet::new();
    let k = p.push("new Context".into(), Want::Is(V::O("Context")), None);
    let mut ctx: BTreeSet<String> = BTreeSet::new();
    p.is(format!("meth r{k} is_empty"), V::B(true));
    for _ in 0..14 {
        let n = name(r.below(4));
        let s = sx(&n);
        let y = |p: &mut Prog, line: String, ok: bool| { if ok { p.push(line, Want::Text(format!("OK y{}", hx(&n))), None); } else { p.push(line, Want::ErrType("ValueError"), None); } };
        match r.below(13) {
            0 => { y(p, format!("call symb {s}"), true); global.insert(n.clone()); }
            1 => { y(p, format!("call symb_new {s}"), !global.contains(&n)); global.insert(n.clone()); }
            2 => { y(p, format!("call symb_get {s}"), global.contains(&n)); }
            3 => { p.is(format!("call symbol_exists {s}"), V::B(global.contains(&n))); }
            4 => { p.is(format!("call remove_symbol {s}"), V::B(global.remove(&n))); }
            5 => { y(p, format!("meth r{k} symb {s}"), true); ctx.insert(n.clone()); }
            6 => { y(p, format!("meth r{k} symb_new {s}"), !ctx.contains(&n)); ctx.insert(n.clone()); }
            7 => { let t = if ctx.contains(&n) { format!("OK y{}", hx(&n)) } else { "OK N".into() }; p.push(format!("meth r{k} get_symbol {s}"), Want::Text(t), None); }
            8 => { p.is(format!("meth r{k} contains_symbol {s}"), V::B(ctx.contains(&n))); }
            9 => { p.is(format!("meth r{k} symbol_count"), V::I(ctx.len() as i64)); }
            10 => { p.is(format!("meth r{k} remove_symbol {s}"), V::B(ctx.remove(&n))); }
            11 => { p.is(format!("meth r{k} is_empty"), V::B(ctx.is_empty())); }
            _ => if r.chance(0.3) { p.push(format!("meth r{k} clear_all"), Want::Is(V::N), None); ctx.clear(); },
        }
    }
    // clean up, so that the name pool stays small
    for n in &global { p.push(format!("call remove_symbol {}", sx(n)), Want::Is(V::B(true)), None); }
}
/// Equality as the library sees it, lower triangle
fn expect_pairs(p: &mut Prog) {
    let es = p.exprs();
    let v: Vec<Expr> = es.iter().map(|&i| p.expr(i)).collect();
    let mut s = String::from("OK ");
    for i in 0..v.len() { for j in 0..=i { s.push(if v[i] == v[j] { '1' } else { '0' }); } }
    p.push(format!("pairs {}", es.iter().map(ToString::to_string).collect::<Vec<_>>().join(" ")), Want::Text(s), None);
}
fn p23(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(mix(seed));
    let mut p = Prog::new();
    match r.below(12) {
        0..=3 => {
            expressions(&mut r, &mut p, 12);
            if r.chance(0.4) { calculus(&mut r, &mut p, 3); }
            if p.exprs().len() <= 24 { expect_pairs(&mut p); }
            let n = p.lines.len();
            if r.chance(0.5) { let lo = r.below(n); p.push(format!("threads {} {lo} {}", r.range(2, 4), n - 1), Want::Text("OK b1".into()), None); }
            p.push("check".into(), Want::Text("OK b1".into()), None);
            p.run(cx, "expressions", seed);
        }
        4 => { expressions(&mut r, &mut p, 4); calculus(&mut r, &mut p, 6); p.push("check".into(), Want::Text("OK b1".into()), None); p.run(cx, "calculus", seed); }
        5 => { strings(&mut r, &mut p); p.run(cx, "strings", seed); }
        6 | 7 => {
            numeric(&mut r, &mut p);
            let n = p.lines.len();
            if n > 2 && r.chance(0.5) { let lo = r.below(n); p.push(format!("threads 3 {lo} {n}"), Want::Text("OK b1".into()), None); }
            p.push("check".into(), Want::Text("OK b1".into()), None);
            p.run(cx, "numeric", seed);
        }
        8 => { callbacks(&mut r, &mut p); p.run(cx, "callbacks", seed); }
        9 => { duals(&mut r, &mut p); p.push("check".into(), Want::Text("OK b1".into()), None); p.run(cx, "duals", seed); }
        10 => { registries(&mut r, &mut p, seed); p.run(cx, "registries", seed); }
        _ => { p.push(format!("hostile {} 60", seed >> 16), Want::Whole, None); p.run(cx, "hostile", seed); }
    }
}
fn directed(_cx: &mut Cx) {}
