//! Differentiation, vector calculus, uncertainty propagation.
use super::eval::{build_expr, parse, rand_cfg};
use super::simp::{assumptions_hold, compare_with};
use super::{DEF, Prop};
use crate::ast::{self, Ast, Ball, VARS, add, call_coeffs, deval, div, eval, from_expr, fun_ball, mul};
use crate::funcs::fun_idx;
use crate::report::Cx;
use crate::rng::{Rng, mix};
use super::simp::Verdict;
use symb_anafis::{CovEntry, CovarianceMatrix, Diff, Expr, Symbol, UserFunction, gradient, gradient_str, hessian, hessian_str, jacobian, jacobian_str, relative_uncertainty, symb, uncertainty_propagation};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P04", case: p04, directed: Some(p04_directed), rule: "distinct (expression, variable, point) triples at which a derivative of the tool was compared with the forward-mode reference", ..DEF },
        Prop { id: "P16", case: p16, rule: "distinct (formula, covariance, point) triples at which the propagated uncertainty was compared with the recomputed formula", ..DEF },
        Prop { id: "P17", case: p17, rule: "distinct (expressions, variable list, entry, point) at which an entry was compared with the forward-mode reference", ..DEF },
    ]
}
/// sin(c0 + sum c_k a_k) + c0 and its partials, as expressions
fn pseudo(name: &'static str, arity: usize, part: Option<usize>) -> impl Fn(&[std::sync::Arc<Expr>]) -> Expr + Send + Sync + 'static {
    let c = call_coeffs(name, arity);
    move |a| {
        let mut s = Expr::number(c[0]);
        for k in 0..arity { s = s + Expr::number(c[k + 1]) * (*a[k]).clone(); }
        match part { None => Expr::func("sin", s) + c[0], Some(k) => Expr::number(c[k + 1]) * Expr::func("cos", s) }
    }
}
pub fn user_fn(name: &'static str, arity: usize, body: bool) -> UserFunction {
    let mut f = UserFunction::new(arity..=arity);
    if body { f = f.body(pseudo(name, arity, None)); }
    for k in 0..arity { f = f.partial(k, pseudo(name, arity, Some(k))).unwrap(); }
    f
}
pub fn differ(body: bool) -> Diff { Diff::new().user_fn("uf1", user_fn("uf1", 1, body)).user_fn("uf2", user_fn("uf2", 2, body)) }

fn size(r: &mut Rng, c: &mut ast::GenCfg) {
    c.depth = r.range(1, 4) as usize;
    c.vars = r.range(1, 4) as usize;
    if r.chance(0.05) { c.max_nary = 13; c.depth = r.range(1, 2) as usize; }
}
/// Reference: derivative of `a` wrt VARS[i] at x; None when the point is not a good one
pub(super) fn reference(a: &Ast, x: &[f64], i: usize) -> Option<Ball> {
    if !ast::regular(a, x) { return None; }
    let (v, d) = deval(a, x, i);
    let k = if ast::loose() { 1e3 } else { 1.0 };
    (v.usable(1e-6 * k) && d.usable(1e-5 * k)).then_some(d)
}
fn check(what: &str, a: &Ast, i: usize, d: &Expr, x: &[f64], cx: &mut Cx, lost_ok: bool) -> bool {
    let Some(b) = reference(a, x, i) else { cx.count("skipped"); return false };
    let (v, c) = compare_with(b, &from_expr(d), x);
    match v {
        Verdict::Skip => { cx.count("skipped"); false }
        Verdict::Same => { cx.count(what); false }
        Verdict::Lost if lost_ok => { cx.count("domain_shrunk_default_mode"); false }
        _ => {
            let x0 = x.to_vec();
            let small = a.clone().shrink(&mut |t| {
                let Some(b) = reference(t, &x0, i) else { return false };
                let d = differ(false).skip_simplification(true).differentiate(&t.build(), &symb(VARS[i]));
                d.is_ok_and(|d| compare_with(b, &from_expr(&d), &x0).0 == v)
            });
            let sd = differ(false).skip_simplification(true).differentiate(&small.build(), &symb(VARS[i])).map(|d| d.to_string()).unwrap_or_default();
            cx.violation(format!("{what}: derivative wrong ({v:?})"), format!("d/d{} of {} at {x:?}: {d} = {c:?}, reference {b:?}; shrunk (raw derivative) {} -> {sd}", VARS[i], a.show(), small.show()));
            true
        }
    }
}
/// The theta-derivative of a spherical harmonic with |m| = l: the only place the reference skips.
fn p04_directed(cx: &mut Cx) {
    for name in ["ynm", "spherical_harmonic"] { for (l, m) in [(0, 0), (1, 1), (1, -1), (2, 2), (3, -3), (2, 1), (3, 0)] {
        let f = |t: f64| crate::funcs::tool_call(name, &[f64::from(l), f64::from(m), t, 0.5]);
        let (want, err) = ast::richardson(&f, 0.8);
        let d = Diff::new().differentiate(&Expr::func_multi(name, vec![Expr::number(l.into()), Expr::number(m.into()), symb("x").to_expr(), Expr::number(0.5)]), &symb("x")).unwrap();
        let got = eval(&from_expr(&d), &[0.8]).v;
        cx.count("spherical_harmonic_derivatives");
        if (got - want).abs() <= 1e-7 + 10.0 * err { continue; }
        if got.is_nan() && l == i32::abs(m) { cx.violation("theta-derivative of ynm / spherical_harmonic with |m| = l is undefined", format!("{name}({l},{m},x,0.5) at x = 0.8: {d} = {got}, differences {want}")); }
        else { cx.violation("theta-derivative of a spherical harmonic is wrong", format!("{name}({l},{m},x,0.5) at x = 0.8: {d} = {got}, differences {want}")); }
    } }
}
fn p04(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let mut c = rand_cfg(&mut r);
    size(&mut r, &mut c);
    ast::LOOSE.set(c.special);
    if r.chance(0.25) { c.calls = 0.15; }
    let a = ast::generate(&mut r, &c, c.depth);
    let e = if c.calls > 0.0 { a.build() } else { match build_expr(&mut r, &a, cx) { Some(e) => e, None => return } };
    let body = r.chance(0.3);
    let i = r.below(c.vars);
    let s = symb(VARS[i]);
    let df = differ(false);
    let raw = match df.clone().skip_simplification(true).differentiate(&e, &s) { Ok(d) => d, Err(er) => { cx.violation("differentiation refused", format!("{}: {er}", a.show())); return; } };
    let rast = from_expr(&raw);
    // one more way to the same derivative
    let mode = r.below(8);
    let other: Option<(Expr, &str, bool)> = match mode {
        0 => df.differentiate(&e, &s).ok().map(|d| (d, "simplified", false)),
        1 => df.domain_safe(true).differentiate(&e, &s).ok().map(|d| (d, "domain_safe", true)),
        2 => if c.calls == 0.0 { e.diff(VARS[i]).ok().map(|d| (d, "Expr::diff", false)) } else { None },
        3 => if c.calls == 0.0 { Some((e.derive_raw(VARS[i]), "derive_raw", true)) } else { None },
        4 => differ(body).domain_safe(true).differentiate(&e, &s).ok().map(|d| (d, "with_body", true)),
        5 => { let fixed: Vec<&str> = VARS[..c.vars].iter().filter(|v| **v != VARS[i]).copied().collect();
            if c.vars > 1 { df.domain_safe(true).fixed_vars(&fixed).differentiate(&e, &s).ok().map(|d| (d, "fixed_vars", true)) } else { None } }
        6 => if c.calls == 0.0 {
            match Diff::new().domain_safe(true).diff_str(&a.show(), VARS[i], &[]) { Ok(t) => parse(&t).ok().map(|d| (d, "diff_str", true)), Err(er) => { cx.violation("diff_str refused", format!("{}: {er}", a.show())); None } }
        } else { None },
        _ => if c.calls == 0.0 {
            match symb_anafis::diff(&a.show(), VARS[i], &[], None) { Ok(t) => parse(&t).ok().map(|d| (d, "diff", false)), Err(er) => { cx.violation("diff refused", format!("{}: {er}", a.show())); None } }
        } else { None },
    };
    let j = r.below(c.vars);
    let second = if r.chance(0.4) && rast.nodes() < 300 { df2(&raw, j) } else { None };
    for k in 0..5 {
        let x = ast::gen_point(&mut r, c.vars, k);
        if check("raw", &a, i, &raw, &x, cx, false) { return; }
        if reference(&a, &x, i).is_some() { cx.observed(mix(a.hash() ^ x.iter().fold(7 + i as u64, |h, v| mix(h ^ v.to_bits())))); }
        if let Some((d, w, safe)) = &other && (*safe || assumptions_hold(&rast, &x)) && check(w, &a, i, d, &x, cx, !*safe) { return; }
        if let Some(d2) = &second && check("second", &rast, j, d2, &x, cx, false) { return; }
        if k == 0 { cx.sample(|| format!("d/d{} {} = {raw}", VARS[i], a.show())); }
    }
    // a variable that does not occur
    if r.chance(0.05) {
        let z = Diff::new().differentiate(&e, &symb("not_there")).unwrap();
        if z.as_number() != Some(0.0) { cx.violation("derivative by an absent variable is not zero", format!("{} -> {z}", a.show())); }
        else { cx.count("absent_variable_zero"); }
    }
}
fn df2(raw: &Expr, j: usize) -> Option<Expr> { differ(false).skip_simplification(true).differentiate(raw, &symb(VARS[j])).ok() }

// ---------------------------------------------------------------------------------------
fn p17(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let ne = r.range(1, 3) as usize;
    let mut c = rand_cfg(&mut r);
    c.depth = r.range(1, 3) as usize; c.vars = r.range(1, 3) as usize; c.special = false;
    let asts: Vec<Ast> = (0..ne).map(|_| ast::generate(&mut r, &c, c.depth)).collect();
    let exprs: Vec<Expr> = asts.iter().map(Ast::build).collect();
    let nl = r.range(0, 4) as usize;
    let vi: Vec<usize> = (0..nl).map(|_| r.below(4)).collect(); // repeats and absent ones (vars <= 3)
    let syms: Vec<Symbol> = vi.iter().map(|i| symb(VARS[*i])).collect();
    let sr: Vec<&Symbol> = syms.iter().collect();
    let names: Vec<&str> = vi.iter().map(|i| VARS[*i]).collect();
    let text = r.chance(0.4);
    let shown: Vec<String> = asts.iter().map(Ast::show).collect();
    let conv = |v: Vec<Vec<String>>, cx: &mut Cx| -> Option<Vec<Vec<Expr>>> {
        v.iter().map(|row| row.iter().map(|t| match parse(t) { Ok(e) => Some(e), Err(er) => { cx.violation("entry text is not parseable", format!("{t}: {er} (from {shown:?})")); None } }).collect::<Option<Vec<_>>>()).collect()
    };
    let raw = |e: &Expr, i: usize| from_expr(&Diff::new().skip_simplification(true).differentiate(e, &symb(VARS[i])).unwrap());
    let kind = r.below(3);
    let (m, refs): (Option<Vec<Vec<Expr>>>, Vec<&Ast>) = match (kind, text) {
        (0, false) => (gradient(&exprs[0], &sr).ok().map(|g| vec![g]), vec![&asts[0]]),
        (0, true) => (match gradient_str(&shown[0], &names) { Ok(g) => conv(vec![g], cx), Err(_) => None }, vec![&asts[0]]),
        (1, false) => (jacobian(&exprs, &sr).ok(), asts.iter().collect()),
        (1, true) => { let t: Vec<&str> = shown.iter().map(String::as_str).collect(); (match jacobian_str(&t, &names) { Ok(g) => conv(g, cx), Err(_) => None }, asts.iter().collect()) }
        (_, false) => (hessian(&exprs[0], &sr).ok(), vec![]),
        (_, true) => (match hessian_str(&shown[0], &names) { Ok(g) => conv(g, cx), Err(_) => None }, vec![]),
    };
    let Some(m) = m else { cx.violation("vector calculus refused a valid request", format!("{shown:?} {names:?} kind {kind} text {text}")); return };
    // reference expressions per row: the function itself, or its (raw) first derivative
    let firsts: Vec<Ast> = if kind == 2 { vi.iter().map(|i| raw(&exprs[0], *i)).collect() } else { vec![] };
    let rows: Vec<&Ast> = if kind == 2 { firsts.iter().collect() } else { refs };
    let what = ["gradient", "jacobian", "hessian"][kind];
    if m.len() != rows.len() || m.iter().any(|row| row.len() != nl) { cx.violation(format!("{what}: wrong shape"), format!("{shown:?} {names:?}: {m:?}")); return; }
    for k in 0..4 {
        let kind_of = if r.chance(0.7) { 0 } else { k };
        let x = ast::gen_point(&mut r, 4, kind_of);
        for (ri, row) in m.iter().enumerate() {
            for (ci, d) in row.iter().enumerate() {
                if !assumptions_hold(rows[ri], &x) { cx.count("outside_documented_assumptions"); continue; }
                let raw1 = from_expr(&Diff::new().skip_simplification(true).differentiate(&rows[ri].build(), &symb(VARS[vi[ci]])).unwrap());
                if !assumptions_hold(&raw1, &x) { cx.count("outside_documented_assumptions"); continue; }
                if !ast::regular(&asts[if kind == 2 { 0 } else { ri }], &x) { continue; }
                let Some(b) = reference(rows[ri], &x, vi[ci]) else { cx.count("skipped"); continue };
                let (v, cval) = compare_with(b, &from_expr(d), &x);
                match v {
                    Verdict::Skip => cx.count("skipped"),
                    Verdict::Same => { cx.observed(mix(rows[ri].hash() ^ x.iter().fold((ri * 31 + ci) as u64, |h, v| mix(h ^ v.to_bits())))); cx.count(what); }
                    Verdict::Lost => cx.count("domain_shrunk_default_mode"),
                    Verdict::Wrong => { cx.violation(format!("{what}: wrong entry"), format!("{shown:?} by {names:?}, entry ({ri},{ci}) = {d} at {x:?}: {cval:?}, reference {b:?}")); return; }
                }
            }
        }
        if k == 0 { cx.sample(|| format!("{what} of {shown:?} by {names:?}")); }
    }
}

// ---------------------------------------------------------------------------------------
fn p16(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let mut c = rand_cfg(&mut r);
    c.depth = r.range(1, 3) as usize; c.vars = r.range(1, 3) as usize; c.special = false; c.step = false;
    let a = ast::generate(&mut r, &c, c.depth);
    let e = a.build();
    let mut vi: Vec<usize> = vec![0, 1, 2, 3];
    r.shuffle(&mut vi);
    vi.truncate(r.range(0, 4) as usize);
    let n = vi.len();
    let names: Vec<&str> = vi.iter().map(|i| VARS[*i]).collect();
    // covariance: symbols sg_ij live in VARS 8.. ; numeric or mixed
    let mode = r.below(5);
    let scale = if r.chance(0.3) { 10f64.powi(r.range(-24, 8) as i32) } else { 1.0 };
    let mut num = vec![vec![Ball::exact(0.0); n]; n];
    let mut ent: Vec<Vec<CovEntry>> = vec![vec![CovEntry::Num(0.0); n]; n];
    let sigma: Vec<f64> = (0..n).map(|_| r.uniform(0.1, 2.0)).collect();
    let extra: Vec<f64> = (0..6).map(|_| r.uniform(0.3, 2.0)).collect();
    for i in 0..n { for j in i..n {
        let zero = i != j && r.chance(0.4);
        let (v, en) = match mode {
            0 => (0.0, CovEntry::Num(0.0)),
            1 if i != j => (0.0, CovEntry::Num(0.0)),
            1 | 2 => { let v = if zero { 0.0 } else if i == j { sigma[i] * sigma[i] * scale } else { sigma[i] * sigma[j] * r.uniform(-0.5, 0.5) * scale }; (v, CovEntry::Num(v)) }
            _ => { // symbolic: rho * s_i * s_j with symbols standing for numbers
                if zero { (0.0, CovEntry::Symbolic(Expr::number(0.0))) }
                else {
                    let (p, q) = (r.below(6), r.below(6));
                    let f = if i == j { r.uniform(0.5, 2.0) } else { r.uniform(-0.2, 0.2) };
                    (f * extra[p] * extra[q], CovEntry::Symbolic(f * symb(VARS[6 + p]).to_expr() * symb(VARS[6 + q]).to_expr()))
                }
            }
        };
        num[i][j] = Ball { v, e: 4.0 * f64::EPSILON * v.abs() }; num[j][i] = num[i][j];
        ent[i][j] = en.clone(); ent[j][i] = en;
    } }
    let cov = match mode {
        0 => { for i in 0..n { num[i][i] = Ball { v: sigma[i] * sigma[i], e: 4.0 * f64::EPSILON }; } None }
        1 => Some(CovarianceMatrix::diagonal((0..n).map(|i| ent[i][i].clone()).collect())),
        _ => match CovarianceMatrix::new(ent.clone()) { Ok(m) => Some(m), Err(er) => { cx.violation("symmetric covariance refused", format!("{ent:?}: {er}")); return; } },
    };
    let rel = r.chance(0.3);
    let res = if rel { relative_uncertainty(&e, &names, cov.as_ref()) } else { uncertainty_propagation(&e, &names, cov.as_ref()) };
    let Ok(u) = res else { cx.violation("uncertainty propagation refused valid input", format!("{} {names:?} {res:?}", a.show())); return };
    // default symbols sigma_<name> are not in VARS: substitute their values
    let mut u2 = u.clone();
    if mode == 0 { for i in 0..n { u2 = u2.substitute(&format!("sigma_{}", names[i]), &Expr::number(sigma[i])); } }
    let ua = from_expr(&u2);
    let raws: Vec<Ast> = vi.iter().map(|i| from_expr(&Diff::new().skip_simplification(true).differentiate(&e, &symb(VARS[*i])).unwrap())).collect();
    for k in 0..5 {
        let mut x = ast::gen_point(&mut r, 4, k);
        x.truncate(4);
        x.resize(6, 1.0);
        x.extend(&extra);
        if !ast::regular(&a, &x) { continue; }
        let b = eval(&a, &x);
        if !b.usable(1e-6) { continue; }
        if !raws.iter().all(|t| assumptions_hold(t, &x)) { cx.count("outside_documented_assumptions"); continue; }
        let ds: Vec<Ball> = vi.iter().map(|i| deval(&a, &x, *i).1).collect();
        if ds.iter().any(|d| !d.usable(1e-5)) { cx.count("skipped"); continue; }
        let mut s = Ball::exact(0.0);
        for i in 0..n { for j in 0..n { s = add(s, mul(mul(ds[i], ds[j]), num[i][j])); } }
        if s.v < 0.0 || s.e > 1e-6 * s.v { cx.count("skipped_not_positive"); if s.v != 0.0 || s.e != 0.0 { continue; } }
        let mut want = if s.v == 0.0 { s } else { fun_ball(fun_idx("sqrt"), &[s]) };
        if rel { want = div(want, Ball { v: b.v.abs(), e: b.e }); }
        if !want.e.is_finite() || want.e > 1e-5 * want.v.abs() { continue; }
        let (v, got) = compare_with(want, &ua, &x);
        match v {
            Verdict::Skip => cx.count("skipped"),
            Verdict::Same => { cx.observed(mix(a.hash() ^ x.iter().fold(mode as u64 + vi.iter().fold(1, |h, i| h * 7 + *i as u64), |h, v| mix(h ^ v.to_bits())))); cx.count(["default_symbolic", "diagonal_numeric", "full_numeric", "symbolic", "symbolic"][mode]); if rel { cx.count("relative"); } }
            Verdict::Lost => cx.count("domain_shrunk_default_mode"),
            Verdict::Wrong => { cx.violation("uncertainty wrong", format!("{} by {names:?} cov {ent:?} rel {rel} at {x:?}: {u} = {got:?}, reference {want:?}", a.show())); return; }
        }
        if k == 0 { cx.sample(|| format!("{} by {names:?}: {u}", a.show())); }
    }
    // refusals
    if r.chance(0.2) && n > 0 {
        let mut bad = ent.clone();
        match r.below(3) {
            0 => { bad.pop(); if n > 1 || !bad.is_empty() { if CovarianceMatrix::new(bad).is_ok() { cx.violation("non-square covariance accepted", format!("{n}")); } } }
            1 if n > 1 => { let d = scale * r.uniform(0.1, 1.0); bad[0][n - 1] = CovEntry::Num(d); bad[n - 1][0] = CovEntry::Num(d * 1.5); if CovarianceMatrix::new(bad).is_ok() { cx.violation("asymmetric covariance accepted", format!("{d} vs {}", d * 1.5)); } }
            _ => { let m = CovarianceMatrix::diagonal(vec![CovEntry::Num(1.0); n + 1]); if uncertainty_propagation(&e, &names, Some(&m)).is_ok() { cx.violation("covariance of the wrong dimension accepted", format!("{n}")); } }
        }
        cx.count("malformed_requests_refused");
    }
}
