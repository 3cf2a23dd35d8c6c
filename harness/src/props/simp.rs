//! Simplification: value preservation, domain safety.
use super::eval::{build_expr, rand_cfg};
use super::{DEF, Prop};
use crate::ast::{self, Ast, Ball, eval, from_expr};
use crate::funcs::FUNS;
use crate::report::Cx;
use crate::rng::{Rng, mix};
use symb_anafis::{Expr, Simplify};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P05", case: p05, rule: "distinct (expression, point) pairs at which the reference value of the original and of its simplified form were both tight and were compared", ..DEF },
        Prop { id: "P06", case: p06, rule: "distinct (expression, point) pairs judged in domain-safe mode (value or definedness)", ..DEF },
    ]
}
pub fn simp(e: &Expr, safe: bool) -> Result<Expr, String> {
    Simplify::new().domain_safe(safe).simplify(e).map_err(|e| e.to_string())
}
/// the same through one of the entry points; None when this one does not apply
fn simp_via(a: &Ast, e: &Expr, safe: bool, via: usize) -> Option<Result<Expr, String>> {
    let b = Simplify::new().domain_safe(safe);
    let er = |e: symb_anafis::DiffError| e.to_string();
    Some(match via {
        1 => b.fixed_vars(&ast::VARS[..2]).simplify(e).map_err(er),
        2 => b.with_context(&symb_anafis::Context::new()).simplify(e).map_err(er),
        3 => b.max_depth(1000).max_nodes(100_000).simplify(e).map_err(er),
        4 if !a.any(&mut |t| matches!(t, Ast::Opaque(_) | Ast::Call(..) | Ast::Part(..) | Ast::Deriv(..))) => match b.simplify_str(&a.show(), &[]).map_err(er) { Ok(t) => super::eval::parse(&t).map_err(er), Err(t) => Err(t) },
        5 if !a.any(&mut |t| matches!(t, Ast::Opaque(_) | Ast::Call(..) | Ast::Part(..) | Ast::Deriv(..))) && !safe => match symb_anafis::simplify(&a.show(), &[], None).map_err(er) { Ok(t) => super::eval::parse(&t).map_err(er), Err(t) => Err(t) },
        6 if !safe => e.simplified().map_err(er),
        4.. => return None,
        _ => b.simplify(e).map_err(er),
    })
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Verdict { Skip, Same, Wrong, Lost }
/// original at a regular point vs other form
pub fn compare(a: &Ast, s: &Ast, x: &[f64]) -> (Verdict, Ball, Ball) {
    let b = eval(a, x);
    if !b.usable(1e-6) || !ast::regular(a, x) { return (Verdict::Skip, b, b); }
    let (v, c) = compare_with(b, s, x);
    (v, b, c)
}
/// reference value vs the tool's expression
pub fn compare_with(b: Ball, s: &Ast, x: &[f64]) -> (Verdict, Ball) {
    let c = eval(s, x);
    if extreme(s, x) { return (Verdict::Skip, c); }
    if c.e.is_infinite() { return (Verdict::Skip, c); }
    if c.v.is_nan() { return (if c.e.is_nan() { Verdict::Lost } else { Verdict::Skip }, c); }
    if c.v.is_infinite() { return (Verdict::Lost, c); }
    if !c.e.is_finite() { return (Verdict::Skip, c); }
    // simplification may drop/merge constants within 1e-12 relative
    let tol = 64.0 * (b.e + c.e + f64::EPSILON * (b.v.abs() + c.v.abs())) + 1e-12 * b.v.abs() + 1e-290;
    if c.e > if ast::loose() { 3e-3 } else { 1e-4 } * c.v.abs().max(1e-3) { return (Verdict::Skip, c); }
    (if (b.v - c.v).abs() <= tol { Verdict::Same } else { Verdict::Wrong }, c)
}
/// some part leaves the comfortable floating-point range (overflow / underflow, not a domain matter)
fn extreme(s: &Ast, x: &[f64]) -> bool {
    s.any(&mut |t| { let v = eval(t, x).v; (v.is_finite() && (v.abs() > 1e120 || (v != 0.0 && v.abs() < 1e-120))) || (v.is_infinite() && !matches!(t, Ast::Div(..))) || ast::underflow(t, v, x) })
}
/// Default mode assumes positive factors under roots, logarithms and non-integer powers, and
/// principal ranges for a trigonometric function directly under its inverse.
pub fn assumptions_hold(a: &Ast, x: &[f64]) -> bool {
    // the arguments of a function other than a root are not factors
    fn all_positive(t: &Ast, x: &[f64]) -> bool {
        if !(eval(t, x).v > 0.0) || matches!(t, Ast::Neg(_)) { return false; }
        if let Ast::Fun(i, _) = t && !matches!(FUNS[*i].name, "sqrt" | "cbrt") { return true; }
        t.children().iter().all(|c| all_positive(c, x))
    }
    let all_positive = |t: &Ast| all_positive(t, x);
    const TRIG: [&str; 6] = ["sin", "cos", "tan", "cot", "sec", "csc"];
    !a.any(&mut |n| match n {
        Ast::Pow(b, p) => !matches!(**p, Ast::Num(k) if k.fract() == 0.0) && !all_positive(b),
        Ast::Fun(i, v) => {
            let name = FUNS[*i].name;
            match name {
                "sqrt" | "cbrt" | "ln" | "log10" | "log2" => !all_positive(&v[0]),
                "log" => !v.iter().all(|t| all_positive(t)),
                "asin" | "acos" | "atan" | "acot" | "asec" | "acsc" => {
                    let trig = |t: &Ast| t.any(&mut |m| matches!(m, Ast::Fun(j, _) if TRIG.contains(&FUNS[*j].name)));
                    trig(&v[0]) && !matches!(&v[0], Ast::Fun(_, w) if !trig(&w[0]) && matches!(w[0], Ast::Var(_) | Ast::Num(_)) && {
                        let t = eval(&w[0], x).v;
                        t > 0.0 && t < std::f64::consts::FRAC_PI_2
                    })
                }
                _ => false,
            }
        }
        _ => false,
    })
}
fn p05(seed: u64, cx: &mut Cx) { run(seed, cx, false) }
fn p06(seed: u64, cx: &mut Cx) { run(seed, cx, true) }
fn run(seed: u64, cx: &mut Cx, safe: bool) {
    let mut r = Rng::new(seed);
    let mut c = rand_cfg(&mut r);
    c.depth = r.range(1, 4) as usize; c.vars = r.range(1, 3) as usize;
    if r.chance(0.1) { c.calls = 0.15; }
    let a = if r.chance(0.5) { cx.count("rule_shaped"); super::templates::gen_template(&mut r, &c) } else { ast::generate(&mut r, &c, c.depth) };
    let Some(e) = (if c.calls > 0.0 { Some(a.build()) } else { build_expr(&mut r, &a, cx) }) else { return };

    judge(&a, &e, &mut r, c.vars, cx, safe);
}
fn judge(a: &Ast, e: &Expr, r: &mut Rng, nv: usize, cx: &mut Cx, safe: bool) {
    let via = if r.chance(0.6) { 0 } else { r.below(7) };
    let (via, s) = match simp_via(a, e, safe, via) { Some(s) => (via, s), None => (0, simp(e, safe)) };
    cx.count(["entry_builder", "entry_fixed_vars", "entry_with_context", "entry_with_limits", "entry_text", "entry_free_text", "entry_method"][via]);
    let s = match s { Ok(s) => s, Err(er) => { cx.violation("simplification refused", format!("{}: {er}", a.show())); return; } };
    let sa = from_expr(&s);
    if s != *e { cx.count("changed_by_simplification"); }
    let new: Vec<String> = s.variables().into_iter().filter(|v| !e.contains_var(v) && !matches!(v.as_str(), "e" | "pi")).collect();
    // an overflowed constant has no text form that parses back
    if via >= 4 && via != 6 && new.iter().all(|v| matches!(v.as_str(), "Infinity" | "NaN")) && !new.is_empty() { cx.count("overflowed"); return; }
    if !new.is_empty() { cx.violation("simplification introduced a variable", format!("{} -> {s}: {new:?}", a.show())); return; }
    for k in 0..8 {
        let x = ast::gen_point(r, nv, k);
        if !safe && !assumptions_hold(a, &x) { cx.count("outside_documented_assumptions"); continue; }
        let (v, b, c) = compare(a, &sa, &x);
        match v {
            Verdict::Skip => { cx.count("skipped"); continue; }
            Verdict::Same => {}
            Verdict::Lost if a.any(&mut |t| !matches!(t, Ast::Num(_)) && eval(t, &x).v == 0.0) => { cx.count("exact_zero_point"); continue; }
            Verdict::Lost if !safe => { cx.count("domain_shrunk_default_mode"); continue; }
            _ => {
                let x0 = x.clone();
                let small = a.clone().shrink(&mut |t| { let Some(Ok(s)) = simp_via(t, &t.build(), safe, via) else { return false }; (safe || assumptions_hold(t, &x0)) && compare(t, &from_expr(&s), &x0).0 == v });
                let ss = simp_via(&small, &small.build(), safe, via).and_then(Result::ok).map(|s| s.to_string()).unwrap_or_default();
                cx.violation(format!("simplified value differs ({v:?})"), format!("{} -> {s} at {x:?}: {b:?} vs {c:?}; shrunk {} -> {ss}", a.show(), small.show()));
                return;
            }
        }
        cx.observed(mix(a.hash() ^ x.iter().fold(7, |h, v| mix(h ^ v.to_bits()))));
        if k == 0 { cx.sample(|| format!("{} -> {s} at {x:?}: {}", a.show(), b.v)); }
    }
}
