//! Printed forms: plain text (round trip through the parser), LaTeX and Unicode (independent readers).
use super::deriv::differ;
use super::eval::{build_expr, rand_cfg};
use super::simp::simp;
use super::{DEF, Prop};
use crate::ast::{self, Ast, Ball, CALLS, VARS, eval, from_expr};
use crate::readers;
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::HashSet;
use symb_anafis::{Expr, symb};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P07", case: p07, directed: Some(p07_directed), rule: "distinct (expression, point) pairs at which the printed text was parsed back and its value compared", ..DEF },
        Prop { id: "P22", case: p22, rule: "distinct (expression, notation, point) triples at which the rendering was read by the independent reader and its value compared", ..DEF },
    ]
}
fn customs() -> HashSet<String> { CALLS.iter().map(|c| c.0.to_string()).collect() }
pub fn back(t: &str) -> Result<Expr, symb_anafis::DiffError> { symb_anafis::parse(t, &HashSet::new(), &customs(), None) }

/// An expression as a user could come by it.
pub fn any_expr(r: &mut Rng, cx: &mut Cx, wide: bool) -> Option<(Expr, &'static str)> {
    let mut c = rand_cfg(r);
    c.depth = r.range(1, 4) as usize;
    c.vars = r.range(1, 4) as usize;
    if wide { c.vars = VARS.len(); c.nums = 2; }
    if r.chance(0.2) { c.calls = 0.1; }
    let a = ast::generate(r, &c, c.depth);
    let e = if c.calls > 0.0 { a.build() } else { build_expr(r, &a, cx)? };
    let v = symb(VARS[r.below(c.vars)]);
    let d = |e: &Expr, raw: bool| differ(false).skip_simplification(raw).differentiate(e, &v).ok();
    Some(match r.below(9) {
        0 | 1 => (e, "built"),
        2 => (simp(&e, false).ok()?, "simplified"),
        3 => (simp(&e, true).ok()?, "domain_safe"),
        4 | 5 => (d(&e, true)?, "derivative_raw"),
        6 => (d(&e, false)?, "derivative_simplified"),
        7 => { let f = d(&e, true)?; if f.node_count() > 60 { return None; } (d(&f, r.chance(0.5))?, "second_derivative") }
        _ => (programs(r, &c), "operator_program"),
    })
}
/// Random stack program over the public constructors.
pub fn programs(r: &mut Rng, c: &ast::GenCfg) -> Expr {
    let mut st: Vec<Expr> = vec![];
    let atom = |r: &mut Rng| if r.chance(0.45) { Expr::number(ast::gen_num(r, c.nums)) } else { symb(VARS[r.below(c.vars)]).to_expr() };
    for _ in 0..r.range(4, 14) {
        if st.len() < 2 || r.chance(0.35) { st.push(atom(r)); continue; }
        let n = st.len();
        let (a, b) = (st[r.below(n)].clone(), st.pop().unwrap());
        st.push(match r.below(12) {
            0 => Expr::sum(vec![a, b, atom(r)]),
            1 => Expr::product(vec![a, b, atom(r)]),
            2 => Expr::div_expr(a, b),
            3 => Expr::pow_static(b, Expr::number(*r.pick(&[2.0, 3.0, -1.0, -2.0, 0.5, -0.5, 1.5]))),
            4 => b.negate(),
            5 => a - b,
            6 => Expr::product(vec![Expr::number(ast::gen_num(r, c.nums)), b]) * Expr::number(ast::gen_num(r, 0)),
            7 => Expr::func(*r.pick(&["sin", "exp", "sqrt", "ln", "abs", "floor", "uk1"]), b),
            8 => b.pow(a),
            9 => Expr::product(vec![a.negate(), b.negate()]),
            10 => Expr::sum(vec![a, b.negate()]),
            _ => a * b,
        });
        if st.last().unwrap().node_count() > 60 { st.pop(); }
    }
    st.pop().unwrap_or_else(|| Expr::number(1.0))
}
pub fn finite_numbers(a: &Ast) -> bool { !a.any(&mut |t| matches!(t, Ast::Num(n) if !n.is_finite())) }
/// Only rounding may separate the two.
pub fn same(b: Ball, c: Ball) -> Option<bool> {
    if !b.usable(1e-6) || c.e.is_infinite() || c.e > 1e-3 * c.v.abs().max(1e-3) { return None; }
    if c.v.is_nan() { return Some(false); }
    Some((b.v - c.v).abs() <= 64.0 * (b.e + c.e + f64::EPSILON * (b.v.abs() + c.v.abs())) + 1e-290)
}
fn p07(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let wide = r.chance(0.3);
    let Some((e, how)) = any_expr(&mut r, cx, wide) else { return };
    round_trip(&e, how, &mut r, cx);
}
fn round_trip(e: &Expr, how: &str, r: &mut Rng, cx: &mut Cx) {
    let a = from_expr(e);
    if !finite_numbers(&a) { cx.count("non_finite_number"); return; }
    let t = e.to_string();
    let e2 = match back(&t) { Ok(x) => x, Err(er) => { cx.violation("printed text is rejected by the parser", format!("{t:?} ({how}): {er}; structure {}", a.show())); return; } };
    let t2 = e2.to_string();
    let e3 = match back(&t2) { Ok(x) => x, Err(er) => { cx.violation("text printed from a reparsed expression is rejected", format!("{t:?} -> {t2:?}: {er}")); return; } };
    let extra: Vec<String> = e2.variables().into_iter().filter(|v| !e.contains_var(v) && !matches!(v.as_str(), "e" | "pi")).collect();
    if !extra.is_empty() { cx.violation("reparsed text has another variable", format!("{t:?} ({how}): {extra:?}; structure {}", a.show())); return; }
    let (a2, a3) = (from_expr(&e2), from_expr(&e3));
    if e2 == *e { cx.count("reparsed_equal"); }
    for k in 0..4 {
        let x = ast::gen_point(r, VARS.len(), k);
        if !ast::regular(&a, &x) { cx.count("skipped"); continue; }
        let b = eval(&a, &x);
        for (n, o, src) in [(1, &a2, &t), (2, &a3, &t2)] {
            match same(b, eval(o, &x)) {
                None => { cx.count("skipped"); }
                Some(true) => if n == 1 { cx.count(how); cx.observed(mix(a.hash() ^ x.iter().fold(7, |h, v| mix(h ^ v.to_bits())))); },
                Some(false) => { cx.violation(if n == 1 { "printed text has another value" } else { "text of the reparsed expression has another value" }, format!("{src:?} ({how}) at {x:?}: {} reads as {:?}, is {b:?}; structure {}", src, eval(o, &x), a.show())); return; }
            }
        }
        if k == 0 { cx.sample(|| t.clone()); }
    }
}
/// Every pair of node kinds nested in every operand position, with every sign.
fn p07_directed(cx: &mut Cx) {
    let mut r = Rng::new(9);
    for e in pairs() { round_trip(&e, "pair_of_node_kinds", &mut r, cx); }
}
thread_local! { pub static PAIRS: Vec<Expr> = pairs(); }
pub fn pairs() -> Vec<Expr> {
    let x = || symb("x").to_expr();
    let y = || symb("y").to_expr();
    let base: Vec<Expr> = vec![
        x(), Expr::number(2.0), Expr::number(-2.0), Expr::number(0.5), Expr::number(-0.5), Expr::number(1e-7), Expr::number(-3e12), Expr::number(1e25), symb("e").to_expr(), symb("pi").to_expr(),
        x() + y(), x() - y(), -x() - y(), -x(), x() * y(), Expr::number(-3.0) * x() * y(), x() / y(), -x() / y(), Expr::number(-2.0) / x(), x().pow(y()), x().pow(2.0), x().pow(-2.0), x().pow(0.5), x().pow(-0.5),
        x().pow(2.0) + x() + 1.0, Expr::number(-1.0) * x().pow(2.0) + x() * 3.0 - 1.0, x() * 3.0 - 2.0, Expr::func("sin", x()), -Expr::func("sin", x()), Expr::func("exp", x()), symb("e").to_expr().pow(x()),
        symb("e").to_expr().pow(Expr::number(-1.0)), Expr::func("uk1", x()), Expr::derivative(Expr::func("uk1", x()), "x", 1), Expr::number(1.0) / x(), Expr::number(-1.0) / (x() * y()), x() / (y() / Expr::number(3.0)),
        Expr::func("sin", x()).pow(2.0) + Expr::func("sin", x()), -(x() + y()), Expr::func("sqrt", x()), Expr::func("abs", -x()),
        Expr::number(-1.0) * (x() - 1.0), Expr::number(-1.0) * Expr::number(-4.0) * x(), Expr::derivative(Expr::func_multi("uk2", vec![x(), y()]), "arg0", 1), Expr::derivative(Expr::func_multi("uk2", vec![x(), y()]), "arg1", 2),
        (x() + y()).pow(2.0) * 3.0 + (x() + y()), (x() / y()).pow(2.0) - (x() / y()) * 2.0, Expr::number(-1.0) * (x() + y()) + (x() + y()).pow(2.0),
    ];
    let mut out = base.clone();
    let z = || symb("z").to_expr();
    for b in &base {
        let b = || b.clone();
        out.extend([-b(), z() - b(), b() - z(), z() * b(), b() * z(), z() / b(), b() / z(), z().pow(b()), b().pow(z()), b().pow(2.0), b().pow(-1.0), b().pow(0.5), b().pow(-1.5), Expr::func("cos", b()), Expr::number(3.0) * b(), Expr::number(-3.0) * b(),
            Expr::number(-1.0) * b() * z(), b() / Expr::number(-3.0), symb("e").to_expr().pow(b()), Expr::number(-2.0).pow(b()), Expr::sum(vec![b().pow(2.0), b(), Expr::number(1.0)]), Expr::sum(vec![b() * -2.0, b().pow(3.0) * -1.0])]);
        for c in &base {
            let c = || c.clone();
            out.extend([b() * c(), b() + c(), b() - c(), b() / c(), b().pow(c()), Expr::product(vec![b(), c(), z()]), Expr::product(vec![b().negate(), c().negate()]), -(b() / c()), b() / (c() * z()), (b() * c()).pow(2.0), b().pow(c()).pow(2.0), z().pow(b().pow(c())), z() / (b() / c()), b().pow(-c())]);
        }
    }
    out
}

// ---------------------------------------------------------------------------------------
fn p22(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let Some((e, how)) = (if r.chance(0.15) { PAIRS.with(|p| Some((p[r.below(p.len())].clone(), "pair_of_node_kinds"))) } else { { let wide = r.chance(0.3); any_expr(&mut r, cx, wide) } }) else { return };
    let a = from_expr(&e);
    if !finite_numbers(&a) { cx.count("non_finite_number"); return; }
    let forms = [("latex", e.to_latex()), ("unicode", e.to_unicode())];
    let own_alpha = VARS.iter().position(|v| *v == "α").unwrap();
    for (n, t) in &forms {
        if *n == "unicode" && a.has_var(own_alpha) { cx.count("symbol_α_not_distinguished_from_alpha"); continue; }
        if *n == "latex" && let Err(m) = readers::balanced(t) { cx.violation("LaTeX delimiters unbalanced", format!("{t}: {m}; {e}")); return; }
        let s = match if *n == "latex" { readers::latex(t) } else { readers::unicode(t) } {
            Ok(s) => s,
            Err(readers::Unread::Bad(m)) => { cx.violation(format!("{n} is not readable"), format!("{t} ({how}): {m}; expression {e}; structure {}", a.show())); return; }
        };
        for k in 0..4 {
            let x = ast::gen_point(&mut r, VARS.len(), k);
            if !ast::regular(&a, &x) { cx.count("skipped"); continue; }
            let b = eval(&a, &x);
            match same(b, eval(&s, &x)) {
                None => cx.count("skipped"),
                Some(true) => { cx.count(n); cx.observed(mix(a.hash() ^ x.iter().fold(n.len() as u64, |h, v| mix(h ^ v.to_bits())))); if k == 0 { cx.sample(|| t.clone()); } }
                Some(false) => { cx.violation(format!("{n} denotes another value"), format!("{t} ({how}) at {x:?}: reads as {} = {:?}, is {b:?}; expression {e}; structure {}", s.show(), eval(&s, &x), a.show())); return; }
            }
        }
    }
}
