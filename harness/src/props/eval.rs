//! Numeric evaluation: compiled scalar, tree walk, batch/SIMD/parallel.
use super::{DEF, Prop};
use crate::ast::{self, Ast, GenCfg, VARS, eval, generate};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::{HashMap, HashSet};
use symb_anafis::{CompiledEvaluator, Expr, visitor::ExprView};

pub fn no_set() -> HashSet<String> { HashSet::new() }
pub fn parse(s: &str) -> Result<Expr, symb_anafis::DiffError> { symb_anafis::parse(s, &no_set(), &no_set(), None) }
pub fn num(e: &Expr) -> Option<f64> { match e.view() { ExprView::Number(n) => Some(n), _ => None } }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", case: p01, rule: "distinct (expression, point) pairs at which compiled or tree-walk result was compared with the reference ball and the ball was tight (finite, relative error bound <= 1e-6)", ..DEF },
    ]
}
pub fn rand_cfg(r: &mut Rng) -> GenCfg {
    GenCfg {
        vars: r.range(1, 5) as usize,
        depth: r.range(1, 5) as usize,
        elem: r.chance(0.75),
        step: r.chance(0.12),
        special: r.chance(0.12),
        consts: true,
        max_nary: r.range(2, 6) as usize,
        nums: r.below(3) as u8,
        p_fun: *r.pick(&[0.1, 0.25, 0.45]),
        allow: |_| true,
        calls: 0.0,
    }
}
pub fn build_expr(r: &mut Rng, a: &Ast, cx: &mut Cx) -> Option<Expr> {
    if r.chance(0.5) { cx.count("built_by_operators"); Some(a.build()) }
    else {
        cx.count("built_by_parser");
        match parse(&a.show()) { Ok(e) => Some(e), Err(e) => { cx.violation("well-formed input rejected", format!("parse({}) = {e}", a.show())); None } }
    }
}

fn p01(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let c = rand_cfg(&mut r);
    let a = generate(&mut r, &c, c.depth);
    let a = if r.chance(0.03) { cx.count("huge_exponents"); huge_power(&mut r, a) } else { a };
    let Some(e) = build_expr(&mut r, &a, cx) else { return };
    check_p01(&a, &e, &mut r, c.vars, cx, true);
}
/// a + x^n with |n| far beyond the 32-bit range, scaled so that it is tame near the point used
fn huge_power(r: &mut Rng, a: Ast) -> Ast {
    let n = match r.below(5) { 0 => 2147483647.0, 1 => 2147483648.0, 2 => 4294967296.0 + r.range(-3, 3) as f64, 3 => 65536.0 * r.range(1, 9) as f64, _ => (10f64.powf(r.uniform(2.5, 9.9))).round() };
    let n = if r.chance(0.4) { -n } else { n };
    let n = if r.chance(0.1) { n + 0.5 } else { n };
    // exp(u/n) is close to 1: raising it to n gives exp(u)
    let u = Ast::Var(0);
    let near1 = match r.below(3) { 0 => Ast::Fun(crate::funcs::fun_idx("exp"), vec![Ast::Div(Box::new(u), Box::new(Ast::Num(n)))]), 1 => Ast::Add(vec![Ast::Num(1.0), Ast::Div(Box::new(u), Box::new(Ast::Num(n)))]), _ => Ast::Fun(crate::funcs::fun_idx("cos"), vec![Ast::Div(Box::new(u), Box::new(Ast::Num(n)))]) };
    let p = Ast::Pow(Box::new(near1), Box::new(Ast::Num(n)));
    match r.below(3) { 0 => p, 1 => Ast::Add(vec![a, p]), _ => Ast::Mul(vec![Ast::Num(2.0), p]) }
}
pub fn check_p01(a: &Ast, e: &Expr, r: &mut Rng, nv: usize, cx: &mut Cx, shrink: bool) -> bool {
    let mut params: Vec<&str> = VARS[..nv].to_vec();
    if r.chance(0.3) { params.push("unused_q"); }
    r.shuffle(&mut params);
    let ev = match CompiledEvaluator::compile(e, &params, None) {
        Ok(ev) => ev,
        Err(er) => { cx.violation("compile rejected a fully bound expression", format!("{} params {params:?}: {er}", a.show())); return false; }
    };
    cx.count("compiled");
    cx.add("instructions", ev.instruction_count() as u64);
    let mut bad = false;
    for k in 0..6 {
        let x = ast::gen_point(r, nv, k);
        let b = eval(a, &x);
        if !b.usable(1e-6) || !ast::regular(a, &x) { cx.count("skipped_ill_conditioned_or_undefined"); continue; }
        let args: Vec<f64> = params.iter().map(|p| VARS[..nv].iter().position(|v| v == p).map_or(123.0, |i| x[i])).collect();
        let got = ev.evaluate(&args);
        let h = mix(a.hash() ^ x.iter().fold(7, |h, v| mix(h ^ v.to_bits())));
        cx.observed(h);
        if !b.agrees(got, 64.0) {
            bad = true;
            if shrink { report(a, &x, nv, got, b, cx); }
            break;
        }
        // tree walk
        let vars: HashMap<&str, f64> = (0..nv).map(|i| (VARS[i], x[i])).collect();
        let t = e.evaluate(&vars, &HashMap::new());
        match num(&t) {
            Some(v) if b.agrees(v, 64.0) => cx.count("tree_walk_agreed"),
            Some(v) => { bad = true; if shrink { cx.violation("tree-walk value wrong", format!("{} at {x:?}: evaluate gives {v}, reference {b:?} (expr {e})", a.show())); } }
            None => { cx.count("tree_walk_symbolic"); bad = true; if shrink { cx.violation("fully bound expression left symbolic by evaluate", format!("{} at {x:?}: {t}; reference {b:?}", a.show())); } }
        }
        if bad { break; }
        if k == 0 { cx.sample(|| format!("{} at {x:?} = {got}", a.show())); }
    }
    bad
}
fn report(a: &Ast, x: &[f64], nv: usize, got: f64, b: ast::Ball, cx: &mut Cx) {
    let x0 = x.to_vec();
    let names = &VARS[..nv];
    let small = a.clone().shrink(&mut |s| {
        let b = eval(s, &x0); if !b.usable(1e-6) || !ast::regular(s, &x0) { return false; }
        match CompiledEvaluator::compile(&s.build(), names, None) { Ok(ev) => !b.agrees(ev.evaluate(&x0), 64.0), Err(_) => false }
    });
    let sb = eval(&small, x);
    let sg = CompiledEvaluator::compile(&small.build(), names, None).map(|e| e.evaluate(x)).ok();
    cx.violation("compiled value wrong", format!("{} at {x:?}: compiled {got}, reference {b:?}; shrunk: {} compiled {sg:?} reference {sb:?}", a.show(), small.show()));
}
