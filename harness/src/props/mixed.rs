//! Parallel evaluation of mixed text / expression inputs over mixed value lists.
use super::eval::{build_expr, parse, rand_cfg};
use super::simp::{Verdict, compare};
use super::{DEF, Prop};
use crate::ast::{Ast, VARS, eval, from_expr, generate};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use symb_anafis::parallel::{EvalResult, ExprInput, Value, VarInput, evaluate_parallel};
use symb_anafis::{Expr, symb};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P15", case: p15, directed: Some(directed), rule: "distinct (request, expression, point) results of evaluate_parallel whose value, form and remaining variables were compared with the expression at that point", ..DEF }]
}
#[derive(Clone, Debug)]
enum V { Num(f64), Int(i64), Sub(usize, Ast), Skip }
fn subst(a: &Ast, m: &dyn Fn(usize) -> Option<Ast>) -> Ast {
    match a { Ast::Var(i) => m(*i).unwrap_or_else(|| a.clone()), _ => { let c: Vec<Ast> = a.children().iter().map(|c| subst(c, m)).collect(); a.with_children(c) } }
}
struct Req { a: Ast, nv: usize, text: Option<String>, e: Option<Expr>, list: Vec<usize>, vals: Vec<Vec<V>> }

fn request(r: &mut Rng, cx: &mut Cx) -> Option<Req> {
    let mut c = rand_cfg(r);
    c.depth = c.depth.min(5);
    let a = generate(r, &c, c.depth);
    let nv = c.vars;
    let (text, e) = if r.chance(0.5) { (Some(a.show()), None) } else { (None, Some(build_expr(r, &a, cx)?)) };
    // variable list: usually all of them in any order, sometimes some missing or superfluous ones
    let mut list: Vec<usize> = (0..nv).filter(|_| r.chance(0.9)).collect();
    if r.chance(0.15) { list.push(nv + r.below(3)); }
    r.shuffle(&mut list);
    let n = match r.below(12) { 0 => 0, 1 => 1, 2..=8 => r.range(2, 12) as usize, 9 => *r.pick(&[255usize, 256, 257, 300]), _ => r.range(13, 60) as usize };
    let kind = r.below(4); // 0, 1: numbers only; 2: mixed; 3: one odd entry
    let odd = (r.below(list.len().max(1)), r.below(n.max(1)));
    let vals = list.iter().enumerate().map(|(k, v)| {
        // shorter lists repeat their last value
        let len = if r.chance(0.2) && n > 0 { r.range(1, n as i64) as usize } else { n };
        let fixed = r.chance(0.3);
        (0..len).map(|i| {
            let number = |r: &mut Rng| if r.chance(0.15) { V::Int(r.range(-3, 5)) } else { V::Num(if r.chance(0.6) { r.uniform(0.2, 3.0) } else { r.uniform(-3.0, 3.0) }) };
            let symbolic = kind == 2 && !fixed && r.chance(0.3) || kind == 3 && odd == (k, i);
            if !symbolic { number(r) } else if r.chance(0.5) { V::Skip } else {
                // an expression over variables that are not in the list
                let mut c2 = crate::ast::GenCfg { vars: 2, depth: 1, special: false, ..Default::default() };
                c2.p_fun = 0.3;
                let g = generate(r, &c2, 1);
                V::Sub(*v, subst(&g, &|i| Some(Ast::Var(VARS.len() - 1 - i))))
            }
        }).collect()
    }).collect();
    Some(Req { a, nv, text, e, list, vals })
}
fn p15(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let k = match r.below(8) { 0 => 0, 1..=4 => 1, _ => r.range(2, 5) as usize };
    let mut reqs = vec![];
    for _ in 0..k { match request(&mut r, cx) { Some(q) => reqs.push(q), None => return } }
    let mut exprs: Vec<ExprInput> = reqs.iter().map(|q| match (&q.text, &q.e) { (Some(t), _) => if t.len() % 2 == 0 { ExprInput::from(t.as_str()) } else { ExprInput::from(t.clone()) }, (_, Some(e)) => ExprInput::from(e), _ => unreachable!() }).collect();
    let mut names: Vec<Vec<VarInput>> = reqs.iter().map(|q| q.list.iter().map(|v| match v % 3 { 0 => VarInput::from(VARS[*v]), 1 => VarInput::from(&symb(VARS[*v])), _ => VarInput::from(VARS[*v].to_string()) }).collect()).collect();
    let mut vals: Vec<Vec<Vec<Value>>> = reqs.iter().map(|q| q.vals.iter().map(|c| c.iter().map(|v| match v { V::Num(x) => Value::Num(*x), V::Int(i) => Value::from(*i), V::Sub(_, a) => Value::Expr(a.build()), V::Skip => Value::Skip }).collect()).collect()).collect();
    if k > 0 && r.chance(0.08) { // malformed request
        let j = r.below(k);
        let what = match r.below(5) {
            0 => { exprs.pop(); "fewer expressions than lists" }
            1 => { names.pop(); "fewer variable lists than expressions" }
            2 => { vals.push(vec![]); "more value lists than expressions" }
            3 => { vals[j].push(vec![Value::Num(1.0)]); if vals[j].len() == names[j].len() { return } "a value list without a variable" }
            _ => { if vals[j].len() < 2 || !vals[j][1..].iter().any(|c| !c.is_empty()) { return } vals[j][0].clear(); "an empty value list beside others" }
        };
        cx.count("malformed_requests");
        cx.observed(mix(seed));
        if let Ok(v) = evaluate_parallel(exprs, names, vals) { cx.violation(format!("a malformed request is answered: {what}"), format!("{} lists", v.len())); }
        return;
    }
    let out = match evaluate_parallel(exprs, names, vals) { Ok(v) => v, Err(e) => { cx.violation("a well-formed request is refused", format!("{e}: {}", reqs.iter().map(|q| format!("{} over {:?}", q.a.show(), q.list)).collect::<Vec<_>>().join(" ; "))); return } };
    if out.len() != k { cx.violation("wrong number of result lists", format!("{} for {k}", out.len())); return; }
    for (j, q) in reqs.iter().enumerate() {
        let n = if q.list.is_empty() { 1 } else { q.vals.iter().map(Vec::len).max().unwrap_or(0) };
        let show = |i: usize| format!("expression {j} {} {} at point {i} of {n} with {:?}", if q.text.is_some() { "text" } else { "expr" }, q.a.show(), q.list.iter().zip(&q.vals).map(|(v, c)| format!("{}={:?}", VARS[*v], c.get(i).or(c.last()).unwrap())).collect::<Vec<_>>());
        if out[j].len() != n { cx.violation("wrong number of results", format!("{} results, {n} points: {}", out[j].len(), q.a.show())); return; }
        for i in 0..n {
            if n > 40 && i > 6 && i + 6 < n && !(250..262).contains(&i) && !r.chance(0.1) { continue; }
            if let Some((s, d)) = judge(q, i, &out[j][i], &mut r, seed ^ (j * 1000 + i) as u64, cx) { cx.violation(s, format!("{}: {d}", show(i))); return; }
        }
    }
    cx.sample(|| reqs.iter().zip(&out).map(|(q, o)| format!("{} over {:?} -> {}", q.a.show(), q.list.iter().map(|v| VARS[*v]).collect::<Vec<_>>(), o.iter().take(3).map(ToString::to_string).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" | ").chars().take(400).collect());
}
fn judge(q: &Req, i: usize, got: &EvalResult, r: &mut Rng, seed: u64, cx: &mut Cx) -> Option<(String, String)> {
    if got.is_string() != q.text.is_some() { return Some(("the result has another form than the input".into(), format!("{got}"))); }
    let at = |v: usize| q.list.iter().position(|l| *l == v).map(|k| q.vals[k].get(i).unwrap_or_else(|| q.vals[k].last().unwrap()).clone());
    let want = subst(&q.a, &|v| match at(v) { Some(V::Num(x)) => Some(Ast::Num(x)), Some(V::Int(x)) => Some(Ast::Num(x as f64)), Some(V::Sub(_, a)) => Some(a), _ => None });
    let e = match got { EvalResult::Expr(e) => e.clone(), EvalResult::String(s) => match parse(s) { Ok(e) => e, Err(x) => {
        if s.contains("NaN") || s.contains("inf") { cx.count("undefined_results"); return None }
        return Some(("result text cannot be read".into(), format!("{s}: {x}"))) } } };
    let bound = !(0..VARS.len()).any(|v| want.has_var(v));
    cx.count(if bound { "fully_bound_points" } else { "partly_bound_points" });
    if bound {
        let w = eval(&want, &[]);
        let x: Vec<f64> = (0..VARS.len()).map(|v| match at(v) { Some(V::Num(x)) => x, Some(V::Int(x)) => x as f64, _ => 0.5 }).collect();
        if !w.usable(1e-6) || !crate::ast::regular(&q.a, &x) { cx.count("skipped_ill_conditioned_or_undefined"); return None; }
        let Some(g) = e.as_number() else { return Some(("a fully bound point is not a number".into(), format!("{e}"))) };
        if let EvalResult::String(s) = got { if s.parse::<f64>().is_ok_and(|v| (v - g).abs() > 2e-14 * g.abs()) { return Some(("number text differs from its value".into(), s.clone())); } }
        cx.observed(mix(seed));
        if !w.agrees(g, 256.0) { return Some(("wrong number".into(), format!("{g}, reference {w:?}"))); }
    } else {
        let vars = e.variables();
        for (v, name) in VARS.iter().enumerate() { if vars.contains(*name) && !want.has_var(v) { return Some(("a bound or absent variable is left in the result".into(), format!("{e}"))); } }
        let s = from_expr(&e);
        let mut judged = false;
        for _ in 0..2 {
            let x: Vec<f64> = (0..VARS.len()).map(|_| r.uniform(0.3, 2.5)).collect();
            let (v, b, c) = compare(&want, &s, &x);
            if v == Verdict::Skip { continue; }
            judged = true;
            if v != Verdict::Same { return Some(("wrong symbolic result".into(), format!("{e} has the value {c:?} at {x:?}, expected {b:?}"))); }
        }
        if judged { cx.observed(mix(seed)); } else { cx.count("symbolic_unjudged"); }
    }
    None
}
fn directed(cx: &mut Cx) {
    // the documented forms: macro, skip, broadcasting, no variables
    let e = symb("x").pow(2.0);
    let out = symb_anafis::eval_parallel!(exprs: ["x^2 + y", e], vars: [["x", "y"], ["x"]], values: [[[1.0, 2.0], [3.0]], [[1.0, symb_anafis::parallel::SKIP, 3.0]]]);
    let t: Vec<Vec<String>> = out.map(|v| v.iter().map(|v| v.iter().map(ToString::to_string).collect()).collect()).unwrap_or_default();
    if t != vec![vec!["4".to_string(), "7".into()], vec!["1".into(), "x^2".into(), "9".into()]] { cx.violation("documented request answered differently", format!("{t:?}")); }
    for (bad, name) in [("x +", "incomplete"), ("2 ** ", "no exponent"), ("x y +* z", "two operators")] { if evaluate_parallel(vec![ExprInput::from(bad)], vec![vec![VarInput::from("x")]], vec![vec![vec![Value::Num(1.0)]]]).is_ok() { cx.violation("malformed text is accepted", name); } }
    cx.observed(1);
}
