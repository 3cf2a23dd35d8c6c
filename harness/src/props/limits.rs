//! Size limits, and large (wide or deep) expressions through every operation.
use super::eval::{no_set, num, parse, rand_cfg};
use super::{DEF, Prop};
use crate::ast::{self, Ast, VARS, eval, from_expr, generate};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;
use symb_anafis::visitor::ExprView;
use symb_anafis::{CompiledEvaluator, Context, Diff, DiffError, Expr, Simplify, Symbol, UserFunction, symb};

pub fn props() -> Vec<Prop> {
    // the usual stack of a main thread, so that recursion which is too deep shows
    vec![Prop { id: "P20", case: p20, directed: Some(directed), stack_mb: 8, min_judged: 400, rule: "distinct (expression, limits, entry point) decisions compared with an independent count, and distinct (large shape, size, operation) results compared with known values", ..DEF }]
}
/// depth and number of nodes through the public view
fn measure(e: &Expr) -> (usize, usize) {
    let many = |c: &[Arc<Expr>]| c.iter().map(|a| measure(a)).fold((0, 0), |(d, n), (a, b)| (d.max(a), n + b));
    let (d, n) = match e.view() {
        ExprView::Number(_) | ExprView::Symbol(_) => (0, 0),
        ExprView::Function { args, .. } => many(args),
        ExprView::Sum(t) | ExprView::Product(t) => many(&t),
        ExprView::Div(a, b) | ExprView::Pow(a, b) => { let (x, y) = (measure(a), measure(b)); (x.0.max(y.0), x.1 + y.1) }
        ExprView::Derivative { inner, .. } => measure(inner),
    };
    (d + 1, n + 1)
}
fn p20(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    match r.below(10) { 0..=4 => limits(&mut r, cx), 5 => free_limits(&mut r, cx), 6..=7 => wide(&mut r, cx), _ => deep(&mut r, cx) }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Which { Depth, Nodes, Fine }
fn limits(r: &mut Rng, cx: &mut Cx) {
    let mut c = rand_cfg(r);
    c.depth = c.depth.min(5);
    c.special = false;
    let a = generate(r, &c, c.depth);
    let text = a.show();
    let as_text = r.chance(0.5);
    let e = if as_text { match parse(&text) { Ok(e) => e, Err(_) => return } } else { a.build() };
    // a user function of everything: its definition must not run when the expression is refused
    let calls = Arc::new(AtomicU64::new(0));
    let (c1, c2) = (calls.clone(), calls.clone());
    let f = UserFunction::new(1..=1)
        .body(move |a| { c1.fetch_add(1, Ordering::SeqCst); (*a[0]).clone() * 3.0 })
        .partial(0, move |_| { c2.fetch_add(1, Ordering::SeqCst); Expr::number(3.0) }).unwrap();
    let wrap = r.chance(0.5);
    let (e, text, a) = if !wrap { (e, text, a) } else if as_text {
        let t = format!("uf({text})");
        match symb_anafis::parse(&t, &no_set(), &["uf".to_string()].into(), None) { Ok(e) => (e, t, Ast::Mul(vec![Ast::Num(3.0), a])), Err(_) => return }
    } else { (Expr::func("uf", e), text, Ast::Mul(vec![Ast::Num(3.0), a])) };
    let (d, n) = measure(&e);
    let near = |r: &mut Rng, v: usize| match r.below(8) { 0 => 0, 1 => v.saturating_sub(1), 2 | 3 => v, 4 => v + 1, 5 => r.below(v + 3), 6 => v * 2 + 5, _ => v - usize::from(v > 2) * 2 };
    let md = r.chance(0.7).then(|| near(r, d));
    let mn = r.chance(0.7).then(|| near(r, n));
    let want = if md.is_some_and(|m| d > m) { Which::Depth } else if mn.is_some_and(|m| n > m) { Which::Nodes } else { Which::Fine };
    let both = want == Which::Depth && mn.is_some_and(|m| n > m);
    let op = r.below(2);
    let safe = r.chance(0.3);
    let via_ctx = r.chance(0.3);
    let x = symb(VARS[0]);
    let out: Result<Result<Expr, String>, DiffError> = if op == 0 {
        let mut b = Diff::new().domain_safe(safe).skip_simplification(r.chance(0.4));
        if r.chance(0.5) { if let Some(m) = md { b = b.max_depth(m); } if let Some(m) = mn { b = b.max_nodes(m); } } else { if let Some(m) = mn { b = b.max_nodes(m); } if let Some(m) = md { b = b.max_depth(m); } }
        b = if via_ctx { b.with_context(&Context::new().with_function("uf", f)) } else { b.user_fn("uf", f) };
        if as_text { b.diff_str(&text, VARS[0], &[]).map(|t| reparse(&t)) } else { b.differentiate(&e, &x).map(Ok) }
    } else {
        let mut b = Simplify::new().domain_safe(safe);
        if let Some(m) = md { b = b.max_depth(m); }
        if let Some(m) = mn { b = b.max_nodes(m); }
        b = if via_ctx { b.with_context(&Context::new().with_function("uf", f)) } else { b.user_fn("uf", f) };
        if as_text { b.simplify_str(&text, &[]).map(|t| reparse(&t)) } else { b.simplify(&e).map(Ok) }
    };
    let ran = calls.load(Ordering::SeqCst);
    let show = || format!("{} {} (depth {d}, {n} nodes), limits {md:?} {mn:?}{}", if op == 0 { "d/dx of" } else { "simplify" }, if as_text { format!("text {text}") } else { e.to_string() }, if via_ctx { ", function in a context" } else { "" });
    cx.observed(mix(e.node_count() as u64 ^ mix(r.u64())));
    cx.count(match want { Which::Depth => "over_depth_limit", Which::Nodes => "over_node_limit", Which::Fine => "within_limits" });
    match out {
        Err(DiffError::MaxDepthExceeded) if want == Which::Depth => {}
        Err(DiffError::MaxNodesExceeded) if want == Which::Nodes || both => {}
        Err(er) if want == Which::Fine => { cx.violation("an expression within the limits is refused", format!("{er}: {}", show())); return; }
        Err(er) => { cx.violation("refused with another error", format!("{er}: {}", show())); return; }
        Ok(_) if want != Which::Fine => { cx.violation("an expression beyond the limits is accepted", show()); return; }
        Ok(res) => {
            let res = match res { Ok(e) => e, Err(t) => { if !t.contains("NaN") && !t.contains("inf") { cx.violation("result text cannot be read", t); } return } };
            // a limit allows or refuses, it does not change the value
            let s = from_expr(&res);
            if s.any(&mut |t| matches!(t, Ast::Opaque(_) | Ast::Call(..) | Ast::Deriv(..) | Ast::Part(..))) { cx.count("value_unjudged"); return; }
            for k in 0..2 {
                let p = ast::gen_point(r, c.vars.max(1), k);
                if op == 1 && !safe && p.iter().any(|v| *v <= 0.0) { continue; }
                let v = if op == 1 { let b = eval(&a, &p); if !b.usable(1e-6) || !ast::regular(&a, &p) { continue } Some(b.v) } else {
                    super::deriv::reference(&a, &p, 0).map(|b| b.v)
                };
                let Some(v) = v else { continue };
                let g = eval(&s, &p);
                if !(g.v.is_finite() && g.e <= 1e-7 * g.v.abs().max(1e-3)) { continue; }
                cx.count("values_compared");
                if (g.v - v).abs() > 1e-5 * v.abs().max(g.v.abs()).max(1e-2) { cx.count(if safe || op == 0 { "value_differs" } else { "value_differs_default_mode" });
                    if safe || op == 0 { cx.violation("a limit changes the result", format!("{} -> {res} = {} at {p:?}, expected {v}", show(), g.v)); return; } }
            }
        }
    }
    if want != Which::Fine && ran > 0 { cx.violation("a refused expression was worked on", format!("{ran} calls of the user function: {}", show())); }
    cx.sample(show);
}
fn reparse(t: &str) -> Result<Expr, String> { symb_anafis::parse(t, &no_set(), &["uf".to_string()].into(), None).map_err(|e| format!("{t}: {e}")) }

/// diff and simplify refuse beyond 100 levels or 10000 nodes
fn free_limits(r: &mut Rng, cx: &mut Cx) {
    let text = match r.below(3) {
        0 => { let k = r.range(94, 103) as usize; let f = *r.pick(&["sin", "cos", "tanh", "atan"]); format!("{}x{}", format!("{f}(").repeat(k), ")".repeat(k)) }
        1 => { let k = r.range(3320, 3345); (0..k).map(|i| format!("a{i}*b{i}")).collect::<Vec<_>>().join("+") + if r.chance(0.5) { "+x" } else { "" } }
        _ => { let k = r.range(9990, 10005); (0..k).map(|i| format!("a{i}")).collect::<Vec<_>>().join(*r.pick(&["+", "*"])) }
    };
    let (d, n) = match parse(&text) { Ok(e) => measure(&e), Err(e) => { cx.violation("a large formula is rejected", format!("{e}: {}...", &text[..60])); return } };
    let want = if d > 100 { Which::Depth } else if n > 10_000 { Which::Nodes } else { Which::Fine };
    let dif = r.chance(0.5);
    // simplification of a large admissible formula may be slow: only its acceptance matters here
    if want == Which::Fine && !dif && d > 60 { cx.count("skipped_slow"); return; }
    let out = if dif { symb_anafis::diff(&text, "q", &[], None) } else { symb_anafis::simplify(&text, &[], None) };
    cx.observed(mix(text.len() as u64 ^ r.u64()));
    cx.count("free_function_limits");
    let show = || format!("{}({}...) with {d} levels, {n} nodes", if dif { "diff" } else { "simplify" }, &text[..40]);
    match (want, &out) {
        (Which::Depth, Err(DiffError::MaxDepthExceeded)) | (Which::Nodes, Err(DiffError::MaxNodesExceeded)) => {}
        (Which::Fine, Ok(t)) => if dif && t != "0" { cx.violation("wrong derivative of a large formula", format!("{}: {}", show(), &t[..t.len().min(80)])); },
        _ => cx.violation("limit of diff/simplify is not kept", format!("{}: {:?}", show(), out.as_ref().map(|t| t.len()).map_err(ToString::to_string))),
    }
}

/// value and derivative
type D = (f64, f64);
#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape { SumSin, Poly, ProdSums, ManyVars, ProdVars, SumX, AltX, Fracs, ProdX, Args, PolyVars, SumPow, // wide
    Sin, Sqrt, Horner, Exp, Cont, Tower, Parens, Minus, Ln, Abs, User, Base, DivChain, Mixed } // deep
use Shape::*;
impl Shape {
    fn text(self, n: usize) -> String {
        let j = |s: &str, f: &dyn Fn(usize) -> String| (1..=n).map(f).collect::<Vec<_>>().join(s);
        let nest = |a: &str, b: &str| format!("{}x{}", a.repeat(n), b.repeat(n));
        match self {
            SumSin => j(" + ", &|i| format!("sin({i}*x)/{}", i * i)),
            Poly => j(" + ", &|i| format!("{}*x^{i}", i % 7 + 1)),
            ProdSums => j("*", &|i| format!("(1 + x/{})", i * i)),
            ManyVars => j(" + ", &|i| if i == 1 { "x".into() } else { format!("{i}*v{i}") }),
            ProdVars => j("*", &|i| if i == 1 { "x".into() } else { format!("v{i}") }),
            SumX => j(" + ", &|_| "x".into()),
            AltX => (1..=n).map(|i| format!("{}{}*x", if i % 2 == 1 { " + " } else { " - " }, i)).collect::<String>().trim_start_matches(" + ").to_string(),
            Fracs => j(" + ", &|i| format!("1/(x + {i})")),
            ProdX => j("*", &|_| "x".into()),
            Args => format!("g({})", j(",", &|i| if i == 1 { "x".into() } else { format!("v{i}") })),
            PolyVars => j(" + ", &|i| format!("v{i}*x^{i}")),
            SumPow => j(" + ", &|i| format!("x^(1/{})", i + 1)),
            Sin => nest("sin(", ")"),
            Sqrt => nest("sqrt(1 + ", ")"),
            Horner => nest("(", "*0.5 + 1)"),
            Exp => nest("exp(-", ")"),
            Cont => nest("1/(1 + ", ")"),
            Tower => nest("0.7^(", ")"),
            Parens => nest("(", ")"),
            Minus => nest("-", ""),
            Ln => nest("ln(2 + ", ")"),
            Abs => nest("abs(1 - ", "/2)"),
            User => nest("f(", ")"),
            Base => nest("(", "^2/4 + 0.1)"),
            DivChain => nest("(", "/1.01)"),
            Mixed => (0..n).fold("x".to_string(), |t, i| match i % 4 { 0 => format!("cos({t})"), 1 => format!("(1 + {t}^2)"), 2 => format!("{t}/3"), _ => format!("sqrt({t} + y)") }),
        }
    }
    fn build(self, n: usize) -> Expr {
        let x = || Expr::symbol("x");
        let v = |i: usize| if i == 1 { Expr::symbol("x") } else { Expr::symbol(format!("v{i}")) };
        let k = |c: f64| Expr::number(c);
        let sum = |f: &dyn Fn(usize) -> Expr| Expr::sum((1..=n).map(f).collect());
        let prod = |f: &dyn Fn(usize) -> Expr| Expr::product((1..=n).map(f).collect());
        let nest = |f: &dyn Fn(Expr) -> Expr| (0..n).fold(x(), |e, _| f(e));
        match self {
            SumSin => sum(&|i| Expr::func("sin", x() * i as f64) / (i * i) as f64),
            Poly => sum(&|i| x().pow(i as f64) * (i % 7 + 1) as f64),
            ProdSums => prod(&|i| x() / (i * i) as f64 + 1.0),
            ManyVars => sum(&|i| if i == 1 { x() } else { v(i) * i as f64 }),
            ProdVars => prod(&v),
            SumX => sum(&|_| x()),
            AltX => sum(&|i| x() * if i % 2 == 1 { i as f64 } else { -(i as f64) }),
            Fracs => sum(&|i| k(1.0) / (x() + i as f64)),
            ProdX => prod(&|_| x()),
            Args => Expr::func_multi("g", (1..=n).map(v).collect()),
            PolyVars => sum(&|i| Expr::symbol(format!("v{i}")) * x().pow(i as f64)),
            SumPow => sum(&|i| x().pow(k(1.0) / k(i as f64 + 1.0))),
            Sin => nest(&|e| Expr::func("sin", e)),
            Sqrt => nest(&|e| Expr::func("sqrt", k(1.0) + e)),
            Horner => nest(&|e| e * 0.5 + 1.0),
            Exp => nest(&|e| Expr::func("exp", -e)),
            Cont => nest(&|e| k(1.0) / (k(1.0) + e)),
            Tower => nest(&|e| k(0.7).pow(e)),
            Parens => x(),
            Minus => nest(&|e| -e),
            Ln => nest(&|e| Expr::func("ln", k(2.0) + e)),
            Abs => nest(&|e| Expr::func("abs", k(1.0) - e / 2.0)),
            User => nest(&|e| Expr::func("f", e)),
            Base => nest(&|e| e.pow(2.0) / 4.0 + 0.1),
            DivChain => nest(&|e| e / 1.01),
            Mixed => (0..n).fold(x(), |t, i| match i % 4 { 0 => Expr::func("cos", t), 1 => k(1.0) + t.pow(2.0), 2 => t / 3.0, _ => Expr::func("sqrt", t + Expr::symbol("y")) }),
        }
    }
    /// the value at x (the other variables are `other(i)`) and its derivative in x
    fn value(self, n: usize, x: f64) -> D {
        let mut s = 0.0; let mut d = 0.0;
        let nest = |f: &dyn Fn(f64) -> D| (0..n).fold((x, 1.0), |(v, d), _| { let (w, k) = f(v); (w, k * d) });
        match self {
            SumSin => for i in 1..=n { let t = i as f64; s += (t * x).sin() / (t * t); d += (t * x).cos() / t; },
            Poly => for i in 1..=n { let (t, c) = (i as f64, (i % 7 + 1) as f64); s += c * x.powf(t); d += c * t * x.powf(t - 1.0); },
            ProdSums => { s = 1.0; for i in 1..=n { let q = 1.0 / (i * i) as f64; d = d * (1.0 + q * x) + s * q; s *= 1.0 + q * x; } }
            ManyVars => { for i in 2..=n { s += i as f64 * other(i); } s += x; d = 1.0; }
            ProdVars => { s = x; d = 1.0; for i in 2..=n { s *= other(i); d *= other(i); } }
            SumX => { s = n as f64 * x; d = n as f64; }
            AltX => { for i in 1..=n { d += if i % 2 == 1 { i as f64 } else { -(i as f64) }; } s = d * x; }
            Fracs => for i in 1..=n { let t = x + i as f64; s += 1.0 / t; d -= 1.0 / (t * t); },
            ProdX => { s = x.powf(n as f64); d = n as f64 * x.powf(n as f64 - 1.0); }
            Args => { s = x; for i in 2..=n { s += other(i); } d = f64::NAN; }
            PolyVars => for i in 1..=n { let t = i as f64; s += other(i) * x.powf(t); d += other(i) * t * x.powf(t - 1.0); },
            SumPow => for i in 1..=n { let t = 1.0 / (i as f64 + 1.0); s += x.powf(t); d += t * x.powf(t - 1.0); },
            Sin => return nest(&|v| (v.sin(), v.cos())),
            Sqrt => return nest(&|v| ((1.0 + v).sqrt(), 0.5 / (1.0 + v).sqrt())),
            Horner => return nest(&|v| (v * 0.5 + 1.0, 0.5)),
            Exp => return nest(&|v| ((-v).exp(), -(-v).exp())),
            Cont => return nest(&|v| (1.0 / (1.0 + v), -1.0 / ((1.0 + v) * (1.0 + v)))),
            Tower => return nest(&|v| (0.7f64.powf(v), 0.7f64.powf(v) * 0.7f64.ln())),
            Parens => return (x, 1.0),
            Minus => return if n % 2 == 0 { (x, 1.0) } else { (-x, -1.0) },
            Ln => return nest(&|v| ((2.0 + v).ln(), 1.0 / (2.0 + v))),
            Abs => return nest(&|v| ((1.0 - v / 2.0).abs(), -0.5 * (1.0 - v / 2.0).signum())),
            User => return nest(&|v| (v * 0.5 + 1.0, 0.5)),
            Base => return nest(&|v| (v * v / 4.0 + 0.1, v / 2.0)),
            DivChain => return nest(&|v| (v / 1.01, 1.0 / 1.01)),
            Mixed => return (0..n).fold((x, 1.0), |(v, d), i| match i % 4 { 0 => (v.cos(), -v.sin() * d), 1 => (1.0 + v * v, 2.0 * v * d), 2 => (v / 3.0, d / 3.0), _ => { let q = (v + 0.75).sqrt(); (q, d / (2.0 * q)) } }),
        }
        (s, d)
    }
    fn names(self, n: usize) -> Vec<String> {
        let mut v = vec!["x".to_string()];
        match self { ManyVars | ProdVars | Args => v.extend((2..=n).map(|i| format!("v{i}"))), PolyVars => v.extend((1..=n).map(|i| format!("v{i}"))), Mixed if n > 3 => v.push("y".into()), _ => {} }
        v
    }
}
fn other(i: usize) -> f64 { 1.0 + ((i * 7) % 13) as f64 / (13.0 * 997.0) }
fn bind(names: &[String], x: f64) -> Vec<f64> { names.iter().map(|s| match s.as_str() { "x" => x, "y" => 0.75, s => other(s[1..].parse().unwrap()) }).collect() }
fn user() -> UserFunction { UserFunction::new(1..=1).body(|a| (*a[0]).clone() * 0.5 + 1.0).partial(0, |_| Expr::number(0.5)).unwrap() }
fn wide(r: &mut Rng, cx: &mut Cx) {
    let s = *r.pick(&[SumSin, Poly, ProdSums, ManyVars, ProdVars, SumX, AltX, Fracs, ProdX, Args, PolyVars, SumPow]);
    let big = if cx.thorough { 20_000 } else { 8_000 };
    let n = match r.below(4) { 0 => r.range(2, 40), 1 => r.range(40, 300), 2 => r.range(300, 2000), _ => r.range(2000, big) } as usize;
    let n = match s { ProdSums | Fracs | SumPow => n.min(300), Poly | PolyVars | ProdVars => n.min(1500), _ => n };
    large(s, n, r, cx);
}
fn deep(r: &mut Rng, cx: &mut Cx) {
    let s = *r.pick(&[Sin, Sqrt, Horner, Exp, Cont, Tower, Parens, Minus, Ln, Abs, User, Base, DivChain, Mixed]);
    let n = match r.below(3) { 0 => r.range(1, 30), 1 => r.range(30, 120), _ => r.range(120, 300) } as usize;
    let n = match s { Base => n.min(12), _ => n };
    large(s, n, r, cx);
}
const OPS: [&str; 14] = ["parse", "evaluate", "print", "latex", "unicode", "analyse", "raw derivative", "derivative", "simplify", "compile", "batch", "copy", "substitute", "text derivative"];
fn large(s: Shape, n: usize, r: &mut Rng, cx: &mut Cx) {
    let heavy = matches!(s, Fracs | ProdSums | SumPow | Cont | Mixed | SumSin);
    for _ in 0..3 { large_op(s, n, *r.pick(&OPS), heavy, r, cx); }
}
fn large_op(s: Shape, n: usize, op: &str, heavy: bool, r: &mut Rng, cx: &mut Cx) {
    // simplification is allowed to take its time on large inputs: keep the shapes it is given moderate
    let deep = s as usize >= Sin as usize;
    let n = match op {
        "derivative" | "simplify" | "text derivative" => if heavy { n.min(if deep { 18 } else { 24 }) } else if deep { n.min(70) } else { n.min(1000) },
        "raw derivative" if deep => n.min(200),
        // the compiler expands calls down to 100 levels, by design
        "compile" | "batch" if s == User => n.min(90),
        _ => n,
    };
    // over a common denominator its constants leave the range of the numbers
    let n = if s == Base && matches!(op, "derivative" | "simplify" | "text derivative") { n.min(8) } else { n };
    let n = n.max(1);
    let x = match s { Poly | PolyVars | ProdX => r.uniform(0.85, 0.999), Tower | Abs => r.uniform(0.1, 0.9), Fracs => r.uniform(0.1, 2.0), _ => r.uniform(0.2, 1.5) };
    let (v, d) = s.value(n, x);
    let names = s.names(n);
    let vals = bind(&names, x);
    let t0 = Instant::now();
    let mut funcs: std::collections::HashSet<String> = no_set();
    if s == User { funcs.insert("f".into()); }
    if s == Args { funcs.insert("g".into()); }
    let what = format!("{op} of {s:?} of size {n}");
    let text = s.text(n);
    let from_text = r.chance(0.5);
    let e = if from_text || op == "parse" { match symb_anafis::parse(&text, &no_set(), &funcs, None) { Ok(e) => e, Err(e) => { cx.violation("a large formula is rejected", format!("{what}: {e}")); return } } } else { s.build(n) };
    let map: HashMap<&str, f64> = names.iter().map(String::as_str).zip(vals.iter().copied()).collect();
    let value_of = |e: &Expr| -> Option<f64> {
        let mut ev: HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>> = HashMap::new();
        ev.insert("f".into(), Arc::new(|a| Some(a[0] * 0.5 + 1.0)));
        ev.insert("g".into(), Arc::new(|a| Some(a.iter().sum())));
        num(&e.evaluate(&map, &ev))
    };
    let tol = |w: f64| 1e-9 * w.abs().max(1e-9) * if s == ProdX { 10.0 } else { 1.0 };
    let mut judge = |what: &str, got: Option<f64>, want: f64| {
        cx.observed(mix(n as u64 ^ mix(s as u64 ^ mix(op.len() as u64 * 31 + op.as_bytes()[0] as u64))));
        cx.count(&format!("{} {}", if deep { "deep" } else { "wide" }, op.replace(' ', "_")));
        match got { Some(g) if (g - want).abs() <= tol(want) || want.is_nan() || want.abs() < 1e-200 => {}
            g => cx.violation(format!("wrong value of a large expression ({op})"), format!("{what} at {x}: {g:?}, expected {want}")) }
    };
    let dv = |e: &Expr| value_of(e);
    match op {
        "parse" | "evaluate" => judge(&what, value_of(&e), v),
        "print" => { let t = e.to_string(); match symb_anafis::parse(&t, &no_set(), &funcs, None) { Ok(b) => judge(&what, value_of(&b), v), Err(er) => cx.violation("the printed large expression is rejected", format!("{what}: {er}")) } }
        "latex" | "unicode" => {
            let t = if op == "latex" { e.to_latex() } else { e.to_unicode() };
            let bal = |a: char, b: char| t.matches(a).count() == t.matches(b).count();
            judge(&what, Some(if t.is_empty() || !bal('(', ')') || !bal('{', '}') || t.matches("\\left").count() != t.matches("\\right").count() { 0.0 } else { 1.0 }), 1.0);
        }
        "analyse" => {
            let (dd, nn) = measure(&e);
            let ok = e.node_count() == nn && e.max_depth() == dd && e.variables() == names.iter().cloned().collect() && names.iter().all(|v| e.contains_var(v)) && !e.contains_var("zz") && e.fold(0usize, |k, _| k + 1) >= names.len();
            judge(&format!("{what}: {} nodes, {} levels, {} variables; counted {nn}, {dd}, {}", e.node_count(), e.max_depth(), e.variables().len(), names.len()), Some(f64::from(u8::from(ok))), 1.0);
        }
        "raw derivative" | "derivative" => {
            if s == Args { return; }
            let mut b = Diff::new().skip_simplification(op != "derivative");
            if s == User { b = b.user_fn("f", user()); }
            match b.differentiate(&e, &symb("x")) { Ok(q) => judge(&what, dv(&q), d), Err(er) => cx.violation("a large expression is refused", format!("{what}: {er}")) }
        }
        "text derivative" => {
            if s == Args { return; }
            let mut b = Diff::new();
            if s == User { b = b.user_fn("f", user()); }
            match b.diff_str(&text, "x", &[]) { Ok(t) => match symb_anafis::parse(&t, &no_set(), &funcs, None) { Ok(q) => judge(&what, dv(&q), d), Err(er) => cx.violation("a large result text is rejected", format!("{what}: {er}")) }, Err(er) => cx.violation("a large expression is refused", format!("{what}: {er}")) }
        }
        "simplify" => {
            let safe = r.chance(0.5);
            let mut b = Simplify::new().domain_safe(safe);
            if s == User && r.chance(0.5) { b = b.user_fn("f", user()); }
            match b.simplify(&e) { Ok(q) => judge(&what, value_of(&q), v), Err(er) => cx.violation("a large expression is refused", format!("{what}: {er}")) }
        }
        "compile" | "batch" => {
            if s == Args { return; }
            let ctx = Context::new().with_function("f", user());
            match CompiledEvaluator::compile(&e, &names.iter().map(String::as_str).collect::<Vec<_>>(), if s == User { Some(&ctx) } else { None }) {
                Err(er) => cx.violation("a large expression is not compiled", format!("{what}: {er}")),
                Ok(ev) if op == "compile" => judge(&what, Some(ev.evaluate(&vals)), v),
                Ok(ev) => {
                    let k = r.range(1, 9) as usize;
                    let cols: Vec<Vec<f64>> = vals.iter().map(|v| vec![*v; k]).collect();
                    let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                    let mut out = vec![0.0; k];
                    if let Err(er) = ev.eval_batch(&refs, &mut out, None) { cx.violation("a large expression is not evaluated in a batch", format!("{what}: {er}")); return; }
                    for o in out { judge(&what, Some(o), v); }
                }
            }
        }
        "copy" => {
            let c = e.clone(); let q = e.deep_clone(); let m = e.map(Clone::clone);
            let ok = c == e && q == e && value_of(&m).is_some_and(|g| (g - v).abs() <= tol(v));
            drop(e); drop(c);
            judge(&what, Some(if ok { 1.0 } else { 0.0 }), 1.0);
            judge(&what, value_of(&q), v);
        }
        _ => { let q = e.substitute("x", &Expr::number(x)); judge(&what, value_of(&q), v); let w = e.substitute("x", &(Expr::symbol("x") * 1.0 + 0.0)); judge(&what, value_of(&w), v); }
    }
    let ms = t0.elapsed().as_millis() as u64;
    if ms > 1000 && std::env::var("SLOW").is_ok() { eprintln!("SLOW {what} {ms} ms"); }
    if ms > 5000 { cx.count("slower_than_5_s"); cx.sample(|| format!("{what} took {ms} ms")); }
}
fn directed(cx: &mut Cx) {
    // every shape and operation at a few sizes
    let mut r = Rng::new(20);
    for s in [SumSin, Poly, ProdSums, ManyVars, ProdVars, SumX, AltX, Fracs, ProdX, Args, PolyVars, SumPow, Sin, Sqrt, Horner, Exp, Cont, Tower, Parens, Minus, Ln, Abs, User, Base, DivChain, Mixed] {
        let deep = s as usize >= Sin as usize;
        let heavy = matches!(s, Fracs | ProdSums | SumPow | Cont | Mixed | SumSin);
        for op in OPS { for n in [1, 2, 3, 12, if deep { 60 } else { 200 }] { let n = if s == Base { n.min(8) } else { n }; large_op(s, n, op, heavy, &mut r, cx); } }
    }
    let x: Symbol = symb("x");
    for (d, ok) in [(2usize, true), (1, false)] { if Diff::new().max_depth(d).differentiate(&x.pow(2.0), &x).is_ok() != ok { cx.violation("documented depth limit", format!("{d}")); } }
}
