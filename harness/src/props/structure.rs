//! Expressions as data: construction, equality, substitution, structural queries.
use super::eval::{build_expr, num, rand_cfg};
use super::print::{any_expr, finite_numbers, same};
use super::{DEF, Prop};
use crate::ast::{self, Ast, CALLS, VARS, eval, from_expr};
use crate::funcs::{FUNS, fun_idx};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher as _, BuildHasherDefault, Hash};
use std::sync::Arc;
use symb_anafis::visitor::{ExprView, ExprVisitor, NodeCounter, VariableCollector, walk_expr};
use symb_anafis::{ArcExprExt as _, Expr, Symbol, symb};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P09", case: p09, rule: "distinct (expression, bindings or replacement, point) triples at which a partially evaluated or substituted expression was compared with the reference", ..DEF },
        Prop { id: "P10", case: p10, rule: "distinct pairs of expressions whose equality, hash and value were compared (rebuilt, reordered, mutated, copied)", ..DEF },
        Prop { id: "P11", case: p11, rule: "distinct (construction program, point) pairs at which the built expression was compared with the operations the program performed", ..DEF },
        Prop { id: "P24", case: p24, rule: "distinct expressions whose counts, variables, traversals and mappings were compared with an independent walk over the structural view", ..DEF },
    ]
}

// --------------------------------------------------------------------------------------- P11
macro_rules! binop { ($op:expr, $a:expr, $b:expr) => { match $op { 0 => $a + $b, 1 => $a - $b, 2 => $a * $b, _ => $a / $b } } }
macro_rules! methods { ($($n:ident),*) => { &[$((stringify!($n), |e: Expr| e.$n(), |s: &Symbol| s.$n(), |a: &Arc<Expr>| a.$n())),*] } }
type Method = (&'static str, fn(Expr) -> Expr, fn(&Symbol) -> Expr, fn(&Arc<Expr>) -> Expr);
const METHODS: &[Method] = methods![sin, cos, tan, cot, sec, csc, asin, acos, atan, acot, asec, acsc, sinh, cosh, tanh, coth, sech, csch, asinh, acosh, atanh, acoth, asech, acsch,
    exp, ln, log10, log2, sqrt, cbrt, floor, ceil, round, abs, signum, sinc, erf, erfc, gamma, digamma, trigamma, tetragamma, zeta, lambertw, elliptic_k, elliptic_e, exp_polar];
type Item = (Expr, Ast);
fn fun(n: &str, v: Vec<Ast>) -> Ast { Ast::Fun(fun_idx(n), v) }
fn node(op: usize, a: Ast, b: Ast) -> Ast { match op { 0 => Ast::Add(vec![a, b]), 1 => Ast::Sub(Box::new(a), Box::new(b)), 2 => Ast::Mul(vec![a, b]), _ => Ast::Div(Box::new(a), Box::new(b)) } }
fn pow(a: Ast, b: Ast) -> Ast { Ast::Pow(Box::new(a), Box::new(b)) }
fn n(x: f64) -> Ast { Ast::Num(x) }
fn binary(r: &mut Rng, (a, aa): Item, (b, ba): Item, cx: &mut Cx) -> Item {
    let op = r.below(4);
    let t = node(op, aa.clone(), ba.clone());
    let (sa, sb) = (if let Ast::Var(i) = aa { Some(symb(VARS[i])) } else { None }, if let Ast::Var(i) = ba { Some(symb(VARS[i])) } else { None });
    let (na, nb) = (if let Ast::Num(v) = aa { Some(v) } else { None }, if let Ast::Num(v) = ba { Some(v) } else { None });
    let i = |v: f64| (v.fract() == 0.0 && v.abs() < 1e9 && (v != 0.0 || v.is_sign_positive())).then_some(v as i32);
    let plain = r.chance(0.3);
    let by_ref = r.below(4);
    let e = match (sa, sb, na, nb) {
        (Some(s), Some(t), ..) if !plain => { cx.count("symbol∘symbol"); match by_ref { 0 => binop!(op, s, t), 1 => binop!(op, &s, &t), 2 => binop!(op, s, &t), _ => binop!(op, &s, t) } }
        (Some(s), _, _, Some(v)) if !plain => { cx.count("symbol∘number"); match (by_ref, i(v)) { (0, _) => binop!(op, s, v), (1, _) => binop!(op, &s, v), (2, Some(k)) => binop!(op, s, k), (_, Some(k)) => binop!(op, &s, k), _ => binop!(op, s, v) } }
        (_, Some(s), Some(v), _) if !plain => { cx.count("number∘symbol"); match (by_ref, i(v)) { (0, _) => binop!(op, v, s), (1, _) => binop!(op, v, &s), (_, Some(k)) => binop!(op, k, s), _ => binop!(op, v, s) } }
        (Some(s), ..) if !plain => { cx.count("symbol∘expr"); match by_ref { 0 => binop!(op, s, b), 1 => binop!(op, s, &b), _ => binop!(op, &s, b) } }
        (_, Some(s), ..) if !plain => { cx.count("expr∘symbol"); match by_ref { 0 => binop!(op, a, s), 1 => binop!(op, a, &s), 2 => binop!(op, &a, s), _ => binop!(op, &a, &s) } }
        (.., Some(v)) if !plain => { cx.count("expr∘number"); match (by_ref, i(v)) { (0, _) => binop!(op, a, v), (1, _) => binop!(op, &a, v), (2, Some(k)) => binop!(op, a, k), (_, Some(k)) => binop!(op, &a, k), _ => binop!(op, a, v) } }
        (_, _, Some(v), _) if !plain => { cx.count("number∘expr"); match (by_ref, i(v)) { (0, _) => binop!(op, v, b), (1, _) => binop!(op, v, &b), (2, Some(k)) => binop!(op, k, b), (_, Some(k)) => binop!(op, k, &b), _ => binop!(op, v, b) } }
        _ => { cx.count("expr∘expr"); match r.below(8) {
            0 => binop!(op, a, &b), 1 => binop!(op, &a, &b), 2 => binop!(op, &a, b), 3 => binop!(op, a, Arc::new(b)), 4 => binop!(op, a, &Arc::new(b)),
            5 => match op { 0 => Expr::add_expr(a, b), 1 => Expr::sub_expr(a, b), 2 => Expr::mul_expr(a, b), _ => Expr::div_expr(a, b) },
            6 => match op { 0 => Expr::sum_from_arcs(vec![Arc::new(a), Arc::new(b)]), 2 => Expr::product_from_arcs(vec![Arc::new(a), Arc::new(b)]), 3 => Expr::div_from_arcs(Arc::new(a), Arc::new(b)), _ => a - b },
            _ => binop!(op, a, b),
        } }
    };
    (e, t)
}
fn atom(r: &mut Rng, c: &ast::GenCfg) -> Item {
    if r.chance(0.4) { let v = ast::gen_num(r, c.nums); (Expr::number(v), n(v)) } else { let i = r.below(c.vars); (if r.chance(0.5) { symb(VARS[i]).to_expr() } else { Expr::symbol(VARS[i]) }, Ast::Var(i)) }
}
fn program(r: &mut Rng, c: &ast::GenCfg, steps: i64, cx: &mut Cx) -> Item {
    let mut st: Vec<Item> = vec![];
    for _ in 0..steps {
        if st.len() < 2 || r.chance(0.3) { let a = atom(r, c); st.push(a); continue; }
        let k = st.len();
        let a = st[r.below(k)].clone();
        let b = st.pop().unwrap();
        let some = |r: &mut Rng, st: &[Item]| -> Vec<Item> { (0..r.range(0, 6)).map(|_| if st.is_empty() || r.chance(0.4) { atom(r, c) } else { st[r.below(st.len())].clone() }).collect() };
        let it: Item = match r.below(16) {
            0..=6 => binary(r, a, b, cx),
            7 => { let mut v = some(r, &st); v.push(a); v.push(b); r.shuffle(&mut v); cx.count("sum"); let t = Ast::Add(v.iter().map(|i| i.1.clone()).collect());
                (if r.chance(0.5) { Expr::sum(v.into_iter().map(|i| i.0).collect()) } else { Expr::sum_from_arcs(v.into_iter().map(|i| Arc::new(i.0)).collect()) }, t) }
            8 => { let mut v = some(r, &st); v.push(a); v.push(b); r.shuffle(&mut v); cx.count("product"); let t = Ast::Mul(v.iter().map(|i| i.1.clone()).collect());
                (if r.chance(0.5) { Expr::product(v.into_iter().map(|i| i.0).collect()) } else { Expr::product_from_arcs(v.into_iter().map(|i| Arc::new(i.0)).collect()) }, t) }
            9 => { cx.count("negation"); let t = Ast::Neg(Box::new(b.1.clone())); (match (r.below(4), &b.1) { (0, Ast::Var(i)) => -symb(VARS[*i]), (1, Ast::Var(i)) => -&symb(VARS[*i]), (0 | 1, _) => -b.0, (2, _) => -&b.0, _ => b.0.negate() }, t) }
            10 | 11 => { cx.count("power"); let p = *r.pick(&[2.0, 3.0, 2.0, 4.0, -1.0, -2.0, 0.5, -0.5, 1.5, 0.0, 1.0]); let t = pow(b.1.clone(), n(p));
                (match (r.below(5), &b.1) { (0, Ast::Var(i)) => symb(VARS[*i]).pow(p), (1, _) if p.fract() == 0.0 => b.0.pow(p as i32), (2, _) => Arc::new(b.0).pow(p), (3, _) => Expr::pow_from_arcs(Arc::new(b.0), Arc::new(Expr::number(p))), (4, _) => Expr::pow_static(b.0, Expr::number(p)), _ => b.0.pow(p) }, t) }
            12 => { cx.count("general_power"); let t = pow(b.1, a.1.clone()); (match &a.1 { Ast::Var(i) => b.0.pow(symb(VARS[*i])), _ => b.0.pow(a.0) }, t) }
            13 | 14 => { let m = r.pick(METHODS); cx.count("method"); let t = fun(m.0, vec![b.1.clone()]);
                (match (r.below(5), &b.1) { (0 | 1, Ast::Var(i)) => m.2(&symb(VARS[*i])), (2, _) => m.3(&Arc::new(b.0)), (3, _) => Expr::func(m.0, b.0), _ => m.1(b.0) }, t) }
            _ => { cx.count("parametric_method"); parametric(r, a, b, c.special) }
        };
        if it.1.nodes() > 120 { continue; }
        st.push(it);
    }
    st.pop().unwrap_or_else(|| (Expr::number(1.0), n(1.0)))
}
fn parametric(r: &mut Rng, (a, at): Item, (b, bt): Item, special: bool) -> Item {
    let k = r.range(0, 3);
    let kf = k as f64;
    let s = if let Ast::Var(i) = bt { if r.chance(0.5) { Some(symb(VARS[i])) } else { None } } else { None };
    macro_rules! m { ($f:ident($($x:expr),*)) => { match &s { Some(s) => s.$f($($x),*), None => b.clone().$f($($x),*) } } }
    match if special { r.below(12) } else { r.below(2) } {
        0 => (m!(log(a)), fun("log", vec![at, bt])),
        1 => (m!(atan2(a)), fun("atan2", vec![bt, at])),
        2 => (m!(besselj(kf)), fun("besselj", vec![n(kf), bt])),
        3 => (m!(bessely(kf)), fun("bessely", vec![n(kf), bt])),
        4 => (m!(besseli(k as i32)), fun("besseli", vec![n(kf), bt])),
        5 => (m!(besselk(kf)), fun("besselk", vec![n(kf), bt])),
        6 => (m!(polygamma(k as i32)), fun("polygamma", vec![n(kf), bt])),
        7 => (m!(beta(a)), fun("beta", vec![bt, at])),
        8 => (m!(hermite(kf)), fun("hermite", vec![n(kf), bt])),
        9 => (m!(zeta_deriv(1)), fun("zeta_deriv", vec![n(1.0), bt])),
        10 => (m!(assoc_legendre(k as i32, 1)), fun("assoc_legendre", vec![n(kf), n(1.0), bt])),
        _ => if r.chance(0.5) { (m!(ynm(kf, 0.0, a)), fun("ynm", vec![n(kf), n(0.0), bt, at])) } else { (m!(spherical_harmonic(kf, 1, a)), fun("spherical_harmonic", vec![n(kf), n(1.0), bt, at])) },
    }
}
fn key(a: &Ast, x: &[f64], salt: u64) -> u64 { mix(a.hash() ^ x.iter().fold(salt, |h, v| mix(h ^ v.to_bits()))) }
fn p11(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let mut c = rand_cfg(&mut r);
    c.vars = r.range(1, 4) as usize;
    let steps = r.range(4, 24);
    let (e, a) = program(&mut r, &c, steps, cx);
    let b = from_expr(&e);
    if a.any(&mut |t| matches!(t, Ast::Num(v) if v.is_nan())) { return; }
    for k in 0..5 {
        let x = ast::gen_point(&mut r, c.vars, k);
        if !ast::regular(&a, &x) { cx.count("skipped"); continue; }
        match same(eval(&a, &x), eval(&b, &x)) {
            None => cx.count("skipped"),
            Some(true) => { cx.observed(key(&a, &x, 11)); if k == 0 { cx.sample(|| format!("{} built as {e}", a.show())); } }
            Some(false) => {
                cx.violation("built expression has another value", format!("{} at {x:?} = {:?}; built {e} = {:?}; structure {}", a.show(), eval(&a, &x), eval(&b, &x), b.show()));
                return;
            }
        }
    }
}

// --------------------------------------------------------------------------------------- P10
/// exact arithmetic only: small integers, no division
fn exact(r: &mut Rng, vars: usize, depth: usize) -> Ast {
    if depth == 0 || r.chance(0.15) { return match r.below(10) { 0..=2 => n(r.range(-3, 5) as f64), 3 => n(*r.pick(&[0.5, -0.25, 1.5])), _ => Ast::Var(r.below(vars)) }; }
    match r.below(9) {
        0..=3 => Ast::Add((0..r.range(2, 5)).map(|_| exact(r, vars, depth - 1)).collect()),
        4..=6 => Ast::Mul((0..r.range(2, 4)).map(|_| exact(r, vars, depth - 1)).collect()),
        7 => pow(exact(r, vars, depth - 1), n(*r.pick(&[2.0, 3.0, -1.0, 0.5, 2.0]))),
        _ => fun(r.pick(&["sin", "exp", "sqrt", "abs"]), vec![exact(r, vars, depth - 1)]),
    }
}
fn scrambled(a: &Ast, r: &mut Rng, regroup: bool) -> Expr {
    match a {
        Ast::Add(v) | Ast::Mul(v) => {
            let add = matches!(a, Ast::Add(_));
            let mut e: Vec<Expr> = v.iter().map(|t| scrambled(t, r, regroup)).collect();
            r.shuffle(&mut e);
            if !regroup { return match (add, r.chance(0.5)) { (true, true) => Expr::sum(e), (true, false) => Expr::sum_from_arcs(e.into_iter().map(Arc::new).collect()), (false, true) => Expr::product(e), (false, false) => Expr::product_from_arcs(e.into_iter().map(Arc::new).collect()) }; }
            while e.len() > 1 {
                let k = r.range(2, e.len() as i64) as usize;
                let rest = e.split_off(k);
                let j = match (add, e.len()) { (true, 2) if r.chance(0.7) => { let b = e.pop().unwrap(); e.pop().unwrap() + b } (false, 2) if r.chance(0.7) => { let b = e.pop().unwrap(); e.pop().unwrap() * b } (true, _) => Expr::sum(e), (false, _) => Expr::product(e) };
                e = rest; e.push(j); r.shuffle(&mut e);
            }
            e.pop().unwrap()
        }
        Ast::Pow(p, q) => scrambled(p, r, regroup).pow(q.build()),
        Ast::Fun(i, v) => Expr::func(FUNS[*i].name, scrambled(&v[0], r, regroup)),
        _ => a.build(),
    }
}

fn fx(e: &Expr) -> u64 { BuildHasherDefault::<std::hash::DefaultHasher>::default().hash_one(e) }
/// The same tree through another route: every node copied, or rebuilt from the structural view.
fn copies(e: &Expr, a: &Ast) -> Vec<(&'static str, Expr)> {
    let mut v = vec![("clone", e.clone()), ("deep_clone", e.deep_clone()), ("Arc round trip", Expr::from(&Arc::new(e.clone())))];
    if normal(e, a) { v.push(("map(identity)", e.map(Expr::clone))); v.push(("substitute(absent)", e.substitute("never_used_name", &Expr::number(5.0)))); }
    v.push(("clone of a deep clone", v[1].1.clone()));
    v
}
/// Mapping rebuilds its nodes through the (normalising) constructors, so it can only be asked to
/// return an equal expression where rebuilding does: a raw derivative such as `2^3` is folded.
fn normal(e: &Expr, a: &Ast) -> bool { a.build() == *e }
/// One small structural change somewhere in the tree.
fn mutate(a: &Ast, r: &mut Rng) -> Ast {
    let kids = match a { Ast::Add(v) | Ast::Mul(v) | Ast::Fun(_, v) | Ast::Call(_, v) | Ast::Part(_, v, _) => v.len(), Ast::Sub(..) | Ast::Div(..) | Ast::Pow(..) => 2, Ast::Neg(_) | Ast::Deriv(..) => 1, _ => 0 };
    if kids > 0 && r.chance(0.75) {
        let mut b = a.clone();
        let k = r.below(kids);
        match &mut b {
            Ast::Add(v) | Ast::Mul(v) | Ast::Fun(_, v) | Ast::Call(_, v) | Ast::Part(_, v, _) => v[k] = mutate(&v[k], r),
            Ast::Sub(p, q) | Ast::Div(p, q) | Ast::Pow(p, q) => { let t = if k == 0 { p } else { q }; **t = mutate(t, r); }
            Ast::Neg(p) | Ast::Deriv(p, _, _) => **p = mutate(p, r),
            _ => {}
        }
        return b;
    }
    match a {
        Ast::Num(v) => n(match r.below(5) { 0 => v + 1.0, 1 => -v, 2 => v * 2.0, 3 => f64::from_bits(v.to_bits() ^ 1), _ => v + 0.5 }),
        Ast::Var(i) => Ast::Var((i + 1) % 4),
        Ast::Const(c) => Ast::Const(if *c == "pi" { "e" } else { "pi" }),
        Ast::Add(v) => if r.chance(0.5) { Ast::Mul(v.clone()) } else { let mut w = v.clone(); let k = r.below(w.len()); if r.chance(0.5) && w.len() > 2 { w.remove(k); } else { let t = w[k].clone(); w.push(t); } Ast::Add(w) },
        Ast::Mul(v) => if r.chance(0.5) { Ast::Add(v.clone()) } else { let mut w = v.clone(); let k = r.below(w.len()); if r.chance(0.5) && w.len() > 2 { w.remove(k); } else { let t = w[k].clone(); w.push(t); } Ast::Mul(w) },
        Ast::Sub(p, q) => Ast::Sub(q.clone(), p.clone()),
        Ast::Div(p, q) => Ast::Div(q.clone(), p.clone()),
        Ast::Pow(p, q) => if r.chance(0.5) { Ast::Pow(q.clone(), p.clone()) } else { Ast::Mul(vec![(**p).clone(), (**q).clone()]) },
        Ast::Neg(p) => (**p).clone(),
        Ast::Fun(i, v) => { let mut w = v.clone(); if w.len() > 1 && r.chance(0.6) { w.reverse(); Ast::Fun(*i, w) } else { let same: Vec<usize> = (0..FUNS.len()).filter(|k| FUNS[*k].arity == FUNS[*i].arity).collect(); Ast::Fun(*r.pick(&same), w) } }
        Ast::Call(nm, v) => { let mut w = v.clone(); w.reverse(); let o: Vec<&str> = CALLS.iter().filter(|c| c.1 == v.len()).map(|c| c.0).collect(); if w.len() > 1 && r.chance(0.5) { Ast::Call(nm.clone(), w) } else { Ast::Call((*r.pick(&o)).into(), v.clone()) } }
        Ast::Part(nm, v, k) => { let mut k = k.clone(); k.push(0); Ast::Part(nm.clone(), v.clone(), k) }
        Ast::Deriv(p, i, o) => if r.chance(0.5) { Ast::Deriv(p.clone(), (i + 1) % 4, *o) } else { Ast::Deriv(p.clone(), *i, o + 1) },
        Ast::Opaque(_) => a.clone(),
    }
}
fn clean(a: &Ast) -> bool { !a.any(&mut |t| matches!(t, Ast::Num(v) if v.is_nan())) }
fn p10(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    match r.below(4) { 0 | 1 => reordered(&mut r, cx), _ => related(&mut r, cx) }
}
fn reordered(r: &mut Rng, cx: &mut Cx) {
    let (vars, d) = (r.range(1, 4) as usize, r.range(1, 3) as usize);
    let a = exact(r, vars, d);
    let (e, f) = (scrambled(&a, r, false), scrambled(&a, r, false));
    cx.observed(mix(a.hash()));
    cx.count("reordered_pairs");
    if e != f || f != e { cx.violation("reordered operands give another expression", format!("{}: {e} vs {f}", a.show())); return; }
    agree(&e, &f, &a.show(), cx);
    // the binary operators commute
    let (b, s) = (exact(r, vars, d.min(2)).build(), r.chance(0.5));
    let (p, q) = if s { (&e + &b, &b + &e) } else { (&e * &b, &b * &e) };
    cx.count("commuted_pairs");
    if p != q { cx.violation("commuted operands give another expression", format!("({e}) and ({b}) with {}: {p} vs {q}", if s { '+' } else { '*' })); return; }
    agree(&p, &q, "commuted", cx);
    // the regrouped sum or product need not be equal, but has the same value
    let g = scrambled(&a, r, true);
    compare(&a, &e, &g, r, vars, cx, "regrouped operands give another value");
}
/// equal expressions: equal hashes, interchangeable as keys
fn agree(e: &Expr, f: &Expr, what: &str, cx: &mut Cx) -> bool {
    if fx(e) != fx(f) || e.structural_hash() != f.structural_hash() { cx.violation("equal expressions with different hashes", format!("{what}: {e} vs {f}")); return false; }
    let mut m: HashMap<Expr, u8> = HashMap::new();
    m.insert(e.clone(), 1);
    if m.get(f) != Some(&1) || m.insert(f.clone(), 2) != Some(1) || m.len() != 1 || m.remove(e) != Some(2) { cx.violation("equal expressions are not one map key", format!("{what}: {e} vs {f}")); return false; }
    true
}
fn compare(a: &Ast, e: &Expr, f: &Expr, r: &mut Rng, vars: usize, cx: &mut Cx, sig: &str) -> bool {
    let (x, y) = (from_expr(e), from_expr(f));
    for k in 0..4 {
        let p = ast::gen_point(r, vars.max(4), k);
        if !ast::regular(a, &p) { continue; }
        match same(eval(&x, &p), eval(&y, &p)) {
            Some(true) => cx.count("values_compared"),
            Some(false) => { cx.violation(sig, format!("{e} = {:?} and {f} = {:?} at {p:?} (from {})", eval(&x, &p), eval(&y, &p), a.show())); return false; }
            None => {}
        }
    }
    true
}
fn related(r: &mut Rng, cx: &mut Cx) {
    let mut c = rand_cfg(r);
    c.vars = r.range(1, 4) as usize;
    c.depth = r.range(1, 3) as usize;
    if r.chance(0.3) { c.calls = 0.2; }
    // a family of near-identical expressions, from several routes
    let (e0, a0) = if r.chance(0.5) { let a = ast::generate(r, &c, c.depth); (a.build(), a) } else { match any_expr(r, cx, false) { Some((e, _)) => { let a = from_expr(&e); (e, a) } None => return } };
    if !clean(&a0) || e0.to_string().contains("NaN") || a0.any(&mut |t| matches!(t, Ast::Opaque(_))) || a0.nodes() > 200 { return; }
    let mut fam: Vec<(Expr, Ast)> = vec![(e0.clone(), a0.clone()), (a0.build(), a0.clone())];
    for _ in 0..r.range(2, 5) { let m = mutate(&fam[r.below(fam.len())].1.clone(), r); if clean(&m) { fam.push((m.build(), m)); } }
    if let Ok(s) = super::simp::simp(&e0, true) { let b = from_expr(&s); if clean(&b) { fam.push((s, b)); } }
    if let Ok(b) = super::print::back(&e0.to_string()) { let t = from_expr(&b); if clean(&t) { fam.push((b, t)); } }
    for (what, k) in copies(&e0, &a0) {
        cx.count("copies");
        if k != e0 || e0 != k { cx.violation("a copy is not equal to its original", format!("{what} of {e0}: {k}; structure {} vs {}", a0.show(), from_expr(&k).show())); return; }
        if !agree(&e0, &k, what, cx) { return; }
        if !compare(&a0, &e0, &k, r, 4, cx, "a copy has another value") { return; }
    }
    let eq: Vec<Vec<bool>> = fam.iter().map(|p| fam.iter().map(|q| p.0 == q.0).collect()).collect();
    let name = |i: usize| format!("{} [{}]", fam[i].0, fam[i].1.show());
    for i in 0..fam.len() {
        if !eq[i][i] { cx.violation("equality is not reflexive", name(i)); return; }
        for j in 0..fam.len() {
            if i < j { cx.observed(mix(fam[i].1.hash() ^ fam[j].1.hash().rotate_left(17))); cx.count(if eq[i][j] { "equal_pairs" } else { "unequal_pairs" }); }
            if eq[i][j] != eq[j][i] { cx.violation("equality is not symmetric", format!("{} vs {}", name(i), name(j))); return; }
            if !eq[i][j] || i == j { continue; }
            if !agree(&fam[i].0, &fam[j].0, "family", cx) { return; }
            if !compare(&fam[i].1, &fam[i].0, &fam[j].0, r, 4, cx, "equal expressions with different values") { return; }
            if fam[i].0.to_string() != fam[j].0.to_string() { cx.violation("equal expressions print differently", format!("{} vs {}", name(i), name(j))); return; }
            for k in 0..fam.len() { if eq[j][k] && !eq[i][k] { cx.violation("equality is not transitive", format!("{} / {} / {}", name(i), name(j), name(k))); return; } }
        }
    }
    // as map keys: exactly one entry per class
    let classes = (0..fam.len()).filter(|i| (0..*i).all(|j| !eq[*i][j])).count();
    let set: HashSet<Expr> = fam.iter().map(|p| p.0.clone()).collect();
    if set.len() != classes { cx.violation("a set of expressions keeps a wrong number of them", format!("{classes} classes, {} kept: {:?}", set.len(), (0..fam.len()).map(name).collect::<Vec<_>>())); }
    for (e, _) in &fam { if !set.contains(e) { cx.violation("a set does not contain a member", format!("{e}")); } }
    cx.sample(|| format!("{} expressions in {classes} classes, e.g. {}", fam.len(), name(0)));
}

// --------------------------------------------------------------------------------------- P09
/// `a` with variable i replaced
fn replaced(a: &Ast, i: usize, by: &Ast) -> Ast {
    let f = |t: &Ast| replaced(t, i, by);
    let b = |t: &Ast| Box::new(replaced(t, i, by));
    match a {
        Ast::Var(k) if *k == i => by.clone(),
        Ast::Num(_) | Ast::Var(_) | Ast::Const(_) | Ast::Opaque(_) => a.clone(),
        Ast::Add(v) => Ast::Add(v.iter().map(f).collect()),
        Ast::Mul(v) => Ast::Mul(v.iter().map(f).collect()),
        Ast::Sub(p, q) => Ast::Sub(b(p), b(q)),
        Ast::Div(p, q) => Ast::Div(b(p), b(q)),
        Ast::Pow(p, q) => Ast::Pow(b(p), b(q)),
        Ast::Neg(p) => Ast::Neg(b(p)),
        Ast::Fun(k, v) => Ast::Fun(*k, v.iter().map(f).collect()),
        Ast::Call(k, v) => Ast::Call(k.clone(), v.iter().map(f).collect()),
        Ast::Part(k, v, d) => Ast::Part(k.clone(), v.iter().map(f).collect(), d.clone()),
        Ast::Deriv(p, k, o) => Ast::Deriv(b(p), *k, *o),
    }
}
fn custom_evals() -> symb_anafis_evals::Map {
    let mut m: symb_anafis_evals::Map = HashMap::new();
    for (nm, k) in CALLS {
        let (nm, k) = (*nm, *k);
        let c = ast::call_coeffs(nm, k);
        m.insert(nm.to_string(), Arc::new(move |v: &[f64]| if v.len() == k { Some((c[0] + v.iter().zip(&c[1..]).map(|(a, b)| a * b).sum::<f64>()).sin() + c[0]) } else { None }));
    }
    m
}
mod symb_anafis_evals { pub type Map = std::collections::HashMap<String, std::sync::Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>>; }
fn bind(e: &Expr, who: &[usize], x: &[f64], how: usize, ev: &symb_anafis_evals::Map) -> Expr {
    match how % 3 {
        0 => { let m: HashMap<&str, f64> = who.iter().map(|i| (VARS[*i], x[*i])).collect(); e.evaluate(&m, ev) }
        1 => { let m: HashMap<u64, f64> = who.iter().map(|i| (symb(VARS[*i]).id(), x[*i])).collect(); e.evaluate(&m, ev) }
        _ => { let mut m: rustc_hash::FxHashMap<u64, f64> = Default::default(); for i in who { m.insert(symb(VARS[*i]).id(), x[*i]); } e.evaluate(&m, ev) }
    }
}
fn deriv_vars(a: &Ast) -> Vec<usize> { let mut v = vec![]; a.any(&mut |t| { if let Ast::Deriv(_, i, _) = t { v.push(*i); } false }); v }
fn p09(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let mut c = rand_cfg(&mut r);
    c.vars = r.range(1, 5) as usize;
    c.depth = r.range(1, 4) as usize;
    if r.chance(0.3) { c.calls = 0.15; }
    let (e, a) = match r.below(4) {
        0 => match any_expr(&mut r, cx, false) { Some((e, _)) => { let a = from_expr(&e); (e, a) } None => return },
        1 => program(&mut r, &c, 12, cx),
        2 => { let a = exact(&mut r, c.vars, c.depth.min(3)); (scrambled(&a, &mut r, true), a) }
        _ => { let a = ast::generate(&mut r, &c, c.depth); let e = if c.calls > 0.0 { a.build() } else { match build_expr(&mut r, &a, cx) { Some(e) => e, None => return } }; (e, a) }
    };
    if !finite_numbers(&a) || a.nodes() > 400 { return; }
    if r.chance(0.5) { staged(&mut r, &e, &a, cx) } else { substituted(&mut r, &e, &a, c.special, cx) }
}
fn staged(r: &mut Rng, e: &Expr, a: &Ast, cx: &mut Cx) {
    const NV: usize = 5;
    let evals = if r.chance(0.6) { custom_evals() } else { HashMap::new() };
    let bound_in = deriv_vars(a);
    for k in 0..3 {
        let x = ast::gen_point(r, NV, k);
        if !ast::regular(a, &x) { cx.count("skipped"); continue; }
        let want = eval(a, &x);
        if !want.usable(1e-6) { cx.count("skipped"); continue; }
        let mut order: Vec<usize> = (0..NV).collect();
        r.shuffle(&mut order);
        let cuts = r.range(1, 4) as usize;
        let mut cur = e.clone();
        let mut done: Vec<usize> = vec![];
        let mut path = vec![];
        for s in 0..cuts {
            let part: Vec<usize> = if s + 1 == cuts { order.drain(..).collect() } else { let m = r.below(order.len() + 1); order.drain(..m).collect() };
            if r.chance(0.15) { cur = cur.evaluate(&(), &evals); cx.count("empty_bindings"); }
            let how = r.below(3);
            let before = from_expr(&cur);
            cur = bind(&cur, &part, &x, how, &evals);
            done.extend(&part);
            path.push(format!("{:?} -> {cur}", part.iter().map(|i| format!("{}={}", VARS[*i], x[*i])).collect::<Vec<_>>()));
            let vars = cur.variables();
            for i in &done { if vars.contains(VARS[*i]) && !bound_in.contains(i) { cx.violation("a bound variable is still there", format!("{} in {cur}; {} via {path:?}", VARS[*i], a.show())); return; } }
            for v in &vars { if !e.contains_var(v) && !matches!(v.as_str(), "pi" | "e") { cx.violation("evaluation brought in a variable", format!("{v} in {cur}; {}", a.show())); return; } }
            let t = from_expr(&cur);
            // unbound variables stay free: the value still depends on them where it did
            let mut y = x.clone();
            for i in &order { y[*i] = ast::gen_point(r, 1, k)[0]; }
            for p in [&x, &y] {
                if !ast::regular(&before, p) { continue; }
                match same(eval(&before, p), eval(&t, p)) {
                    None => cx.count("skipped"),
                    Some(true) => { cx.observed(key(a, p, s as u64)); cx.count("partial_values"); }
                    Some(false) => { cx.violation("partially evaluated expression has another value", format!("{} at {p:?}: {} = {:?}, then {cur} = {:?}; path {path:?}", a.show(), before.show(), eval(&before, p), eval(&t, p))); return; }
                }
            }
        }
        let all = bind(e, &(0..NV).collect::<Vec<_>>(), &x, r.below(3), &evals);
        match (num(&cur), num(&all)) {
            (Some(p), Some(q)) => {
                cx.count("full_values");
                if !want.agrees(p, 64.0) || !want.agrees(q, 64.0) { cx.violation("staged and direct evaluation disagree", format!("{} at {x:?}: staged {p}, at once {q}, reference {want:?}; path {path:?}", a.show())); return; }
            }
            (p, q) => {
                let symbolic = a.any(&mut |t| matches!(t, Ast::Deriv(..) | Ast::Opaque(_) | Ast::Part(..)) || (evals.is_empty() && matches!(t, Ast::Call(..))));
                if !symbolic { cx.violation("fully bound expression left symbolic", format!("{} at {x:?}: staged {cur} ({p:?}), at once {all} ({q:?})", a.show())); return; }
                cx.count("symbolic_result");
            }
        }
        if k == 0 { cx.sample(|| format!("{} {path:?}", a.show())); }
    }
}
fn substituted(r: &mut Rng, e: &Expr, a: &Ast, special: bool, cx: &mut Cx) {
    let i = r.below(4);
    let c = ast::GenCfg { vars: 4, depth: 2, special, ..Default::default() };
    let by = match r.below(6) { 0 => n(ast::gen_num(r, 1)), 1 => Ast::Var(r.below(4)), 2 => exact(r, 4, 1), _ => ast::generate(r, &c, 2) };
    let dv = deriv_vars(a);
    if dv.contains(&i) || dv.iter().any(|k| by.has_var(*k)) { cx.count("derivative_variable_excluded"); return; }
    let rep = by.build();
    let s = e.substitute(VARS[i], &rep);
    let b = from_expr(&s);
    if !rep.contains_var(VARS[i]) && s.contains_var(VARS[i]) { cx.violation("the substituted variable is still there", format!("{} := {rep} in {e}: {s}; structure {}", VARS[i], b.show())); return; }
    for v in s.variables() { if !e.contains_var(&v) && !rep.contains_var(&v) { cx.violation("substitution brought in a variable", format!("{v}: {} := {rep} in {e}: {s}", VARS[i])); return; } }
    if !e.contains_var(VARS[i]) && s != *e && normal(e, a) { cx.violation("substituting an absent variable changes the expression", format!("{} in {e}: {s}", VARS[i])); return; }
    for k in 0..4 {
        let x = ast::gen_point(r, 5, k);
        let rv = eval(&by, &x);
        if !ast::regular(&by, &x) || !rv.v.is_finite() { continue; }
        let direct = replaced(a, i, &by);
        if !ast::regular(&direct, &x) { cx.count("skipped"); continue; }
        // and with the variable set to the value of the replacement
        let mut y = x.clone();
        y[i] = rv.v;
        let want = eval(&direct, &x);
        match same(want, eval(&b, &x)) {
            None => cx.count("skipped"),
            Some(true) => {
                cx.observed(key(&direct, &x, 5)); cx.count("substituted_values");
                if want.usable(1e-8) && ast::regular(a, &y) && want.e * 1e3 < want.v.abs() { let w = eval(a, &y); if w.usable(1e-8) && (w.v - want.v).abs() > 1e3 * (want.e + w.e) + 1e-6 * want.v.abs() { eprintln!("reference substitution disagrees with itself"); } }
                if k == 0 { cx.sample(|| format!("{e} with {} := {rep} is {s}", VARS[i])); }
            }
            Some(false) => { cx.violation("substituted expression has another value", format!("{} := {rep} in {e} at {x:?}: {s} = {:?}, expected {want:?}; structure {} -> {}", VARS[i], eval(&b, &x), a.show(), b.show())); return; }
        }
    }
    cx.count(if s == *e { "unchanged" } else { "changed" });
}

// --------------------------------------------------------------------------------------- P24
#[derive(Default, PartialEq, Debug, Clone)]
struct Seen { nodes: usize, depth: usize, vars: BTreeSet<String>, calls: usize, numbers: Vec<u64> }
/// Independent walk over the public structural view.
fn walk(e: &Expr, d: usize, s: &mut Seen) {
    s.nodes += 1;
    s.depth = s.depth.max(d);
    match e.view() {
        ExprView::Number(v) => s.numbers.push(v.to_bits()),
        ExprView::Symbol(v) => { s.vars.insert(v.into_owned()); }
        ExprView::Function { args, .. } => { s.calls += 1; for t in args { walk(t, d + 1, s); } }
        ExprView::Sum(v) | ExprView::Product(v) => for t in v.iter() { walk(t, d + 1, s); },
        ExprView::Div(p, q) | ExprView::Pow(p, q) => { walk(p, d + 1, s); walk(q, d + 1, s); }
        ExprView::Derivative { inner, var, .. } => { s.vars.insert(var.to_string()); walk(inner, d + 1, s); }
    }
}
#[derive(Default)]
struct Rec { unclear: bool, trace: Vec<String>, stop: u64, stopped: Vec<usize>, kids: usize }
impl Rec {
    fn hit(&mut self, t: String) -> bool { let go = self.stop == 0 || mix(self.stop ^ self.trace.len() as u64) % 4 != 0; self.trace.push(t); go }
}
impl ExprVisitor for Rec {
    fn visit_number(&mut self, v: f64) -> bool { self.hit(format!("n{}", v.to_bits())) }
    fn visit_symbol(&mut self, s: &str) -> bool { self.hit(format!("s{s}")) }
    fn visit_function(&mut self, s: &str, a: &[Arc<Expr>]) -> bool { self.hit(format!("f{s}/{}", a.len())) }
    fn visit_binary(&mut self, o: &str, l: &Expr, q: &Expr) -> bool { self.hit(format!("b{o}({l})({q})")) }
    fn visit_sum(&mut self, t: &[Arc<Expr>]) -> bool { self.hit(format!("+{}", t.len())) }
    fn visit_product(&mut self, t: &[Arc<Expr>]) -> bool { self.hit(format!("*{}", t.len())) }
    fn visit_derivative(&mut self, i: &Expr, v: &str, o: u32) -> bool { self.hit(format!("d({i}){v}^{o}")) }
}
/// The polynomial form is presented as a sum by `view` but traversed through its base
/// (documented): it is the one node whose view owns its terms.
fn model(e: &Expr, rec: &mut Rec) {
    match e.view() {
        ExprView::Number(v) => { rec.hit(format!("n{}", v.to_bits())); }
        ExprView::Symbol(v) => { rec.hit(format!("s{v}")); }
        ExprView::Function { name, args } => if rec.hit(format!("f{name}/{}", args.len())) { for t in args { model(t, rec); } },
        ExprView::Sum(v) if matches!(v, std::borrow::Cow::Owned(_)) => match poly_base(&v) { Some(b) => model(&b, rec), None => rec.unclear = true },
        ExprView::Sum(v) => if rec.hit(format!("+{}", v.len())) { for t in v.iter() { model(t, rec); } },
        ExprView::Product(v) => if rec.hit(format!("*{}", v.len())) { for t in v.iter() { model(t, rec); } },
        ExprView::Div(p, q) => if rec.hit(format!("b/({p})({q})")) { model(p, rec); model(q, rec); },
        ExprView::Pow(p, q) => if rec.hit(format!("b^({p})({q})")) { model(p, rec); model(q, rec); },
        ExprView::Derivative { inner, var, order } => if rec.hit(format!("d({inner}){var}^{order}")) { model(inner, rec); },
    }
}
/// base of c_1*B^n_1 + c_2*B^n_2 + ...: the last term is c*B^n
fn poly_base(v: &[Arc<Expr>]) -> Option<Expr> {
    let t = v.last().unwrap();
    // a power of a number may be the base or a power of it: undecidable from the view
    let strip = |t: &Expr| match t.view() { ExprView::Pow(b, q) if num(q).is_some_and(|k| k >= 2.0) => if num(b).is_some() || num(q).is_some_and(|k| k > 4e9) { None } else { Some(b.clone()) }, _ => Some(t.clone()) };
    match t.view() {
        ExprView::Product(f) => match f.iter().position(|k| num(k).is_some()) {
            Some(k) => { let rest: Vec<Arc<Expr>> = f.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, t)| t.clone()).collect(); if rest.len() == 1 { strip(&rest[0]) } else { Some(Expr::product_from_arcs(rest)) } }
            None => Some(t.as_ref().clone()),
        },
        _ => strip(t),
    }
}
fn p24(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let wide = r.chance(0.3);
    let (e, how) = match r.below(4) {
        0 => { let c = rand_cfg(&mut r); (program(&mut r, &c, 14, cx).0, "program") }
        1 => { let (v, d) = (r.range(1, 4) as usize, r.range(1, 3) as usize); let a = exact(&mut r, v, d); (scrambled(&a, &mut r, true), "regrouped") }
        _ => match any_expr(&mut r, cx, wide) { Some(t) => t, None => return },
    };
    let a = from_expr(&e);
    if !clean(&a) || e.to_string().contains("NaN") { return; }
    let mut s = Seen::default();
    walk(&e, 1, &mut s);
    let say = |what: &str, got: String, want: String, cx: &mut Cx| cx.violation(what, format!("{e} ({how}): {got}, the view says {want}; structure {}", a.show()));
    cx.observed(a.hash()); cx.count(how); cx.add("nodes", s.nodes as u64);
    if e.node_count() != s.nodes { say("wrong node count", e.node_count().to_string(), s.nodes.to_string(), cx); return; }
    if e.max_depth() != s.depth { say("wrong depth", e.max_depth().to_string(), s.depth.to_string(), cx); return; }
    let vars: BTreeSet<String> = e.variables().into_iter().collect();
    if vars != s.vars { say("wrong set of variables", format!("{vars:?}"), format!("{:?}", s.vars), cx); return; }
    for v in VARS.iter().copied().chain(["pi", "e", "nope", "sin", ""]) {
        if e.contains_var(v) != s.vars.contains(v) { say("wrong occurrence test", format!("contains_var({v}) = {}", e.contains_var(v)), format!("{:?}", s.vars), cx); return; }
        if !v.is_empty() && v != "sin" && e.contains_var_id(symb(v).id()) != s.vars.contains(v) { say("wrong occurrence test by id", v.to_string(), format!("{:?}", s.vars), cx); return; }
    }
    let excl: HashSet<String> = VARS.iter().copied().chain(["pi", "e"]).filter(|_| r.chance(0.8)).map(str::to_string).collect();
    if e.has_free_variables(&excl) != s.vars.iter().any(|v| !excl.contains(v)) { say("wrong free-variable test", format!("excluding {excl:?}: {}", e.has_free_variables(&excl)), format!("{:?}", s.vars), cx); return; }
    // traversal: full, and with a visitor that declines some children
    for stop in [0, mix(seed) | 1] {
        let (mut got, mut want) = (Rec { stop, ..Rec::default() }, Rec { stop, ..Rec::default() });
        walk_expr(&e, &mut got);
        model(&e, &mut want);
        if want.unclear { cx.count("unclear_polynomial_base"); break; }
        cx.count(if stop == 0 { "full_traversals" } else { "pruned_traversals" });
        if got.trace != want.trace { say("wrong traversal", format!("{:?}", got.trace), format!("{:?}", want.trace), cx); return; }
        if stop == 0 {
            let mut c = NodeCounter::default();
            walk_expr(&e, &mut c);
            if c.count != want.trace.len() { say("wrong visitor count", c.count.to_string(), want.trace.len().to_string(), cx); return; }
            let mut c = VariableCollector::default();
            walk_expr(&e, &mut c);
            let names: BTreeSet<String> = c.variable_names().into_iter().collect();
            if names != s.vars { say("wrong collected variables", format!("{names:?}"), format!("{:?}", s.vars), cx); return; }
            let syms = e.fold(0usize, |k, t| k + usize::from(matches!(t.view(), ExprView::Symbol(_))));
            let want_syms = want.trace.iter().filter(|t| t.starts_with('s')).count();
            if syms != want_syms { say("fold misses symbols", syms.to_string(), want_syms.to_string(), cx); return; }
            let fv = e.fold(0u64, |k, t| match t.view() { ExprView::Symbol(v) => v.bytes().fold(mix(k), |h, b| mix(h ^ u64::from(b))), _ => k });
            let wv = want.trace.iter().filter(|t| t.starts_with('s')).fold(0u64, |k, t| t[1..].bytes().fold(mix(k), |h, b| mix(h ^ u64::from(b))));
            if fv != wv { say("fold visits symbols in another order", fv.to_string(), wv.to_string(), cx); return; }
        }
    }
    // mapping
    let id = e.map(Expr::clone);
    cx.count(if normal(&e, &a) { "normal_form" } else { "raw_form" });
    if !compare(&a, &e, &id, &mut r, VARS.len(), cx, "identity mapping changes the value") { return; }
    if id != e && normal(&e, &a) { say("identity mapping changes the expression", id.to_string(), e.to_string(), cx); return; }
    let i = r.below(4);
    let (from, to) = (symb(VARS[i]), symb("mapped_q"));
    let (from_id, to_e) = (from.id(), to.to_expr());
    let has_deriv = !deriv_vars(&a).is_empty() || a.any(&mut |t| matches!(t, Ast::Opaque(_) | Ast::Part(..)));
    let m = e.map(|t| match t.view() { ExprView::Symbol(_) if t.contains_var_id(from_id) => to_e.clone(), _ => t.clone() });
    if !has_deriv {
        let mut want = s.vars.clone();
        if want.remove(VARS[i]) { want.insert("mapped_q".into()); }
        let got: BTreeSet<String> = m.variables().into_iter().collect();
        if if normal(&e, &a) { got != want } else { !got.is_subset(&want) } { say("renaming by map misses occurrences", format!("{m}: {got:?}"), format!("{want:?}"), cx); return; }
        let back = m.substitute("mapped_q", &from.to_expr());
        if !compare(&a, &e, &back, &mut r, VARS.len(), cx, "renaming there and back changes the value") { return; }
    }
    cx.sample(|| format!("{e}: {} nodes, depth {}, {:?}", s.nodes, s.depth, s.vars));
}
