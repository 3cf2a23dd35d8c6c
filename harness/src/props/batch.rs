//! Batch / SIMD / parallel evaluation against the reference, and memory safety of the VM.
use super::eval::{build_expr, parse, rand_cfg};
use super::{DEF, Prop};
use crate::ast::{self, Ast, VARS, eval, generate};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use symb_anafis::{CompiledEvaluator, DiffError, Expr, eval_f64};
use wide::f64x4;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P02", case: p02, directed: Some(p02_directed), rule: "distinct (expression, batch length, position) triples at which a batch, parallel or multi-expression result was compared with the reference ball (tight and regular)", secs: 30, ..DEF },
        Prop { id: "P03", case: p03, directed: Some(p03_directed), rule: "distinct (expression, buffer/batch shape) evaluator executions completed under AddressSanitizer plus the tree's own debug assertions", secs: 45, min_judged: 300, ..DEF },
    ]
}
const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 31, 63, 64, 65, 255, 256, 257, 259, 511, 512, 513, 767, 1025];

pub fn columns(r: &mut Rng, nv: usize, n: usize) -> Vec<Vec<f64>> {
    let kind = r.below(5);
    (0..nv).map(|_| (0..n).map(|i| match kind {
        0 => r.uniform(0.2, 3.0),
        1 => r.uniform(-3.0, 3.0),
        2 => r.uniform(0.05, 0.95),
        3 => *r.pick(&[-2.5, -1.5, -0.5, 0.5, 1.5, 2.5, -1.0, 1.0, 2.0, 3.0, 0.25, 4.5]),
        _ => { let m = 10f64.powf(r.uniform(-1.5, 1.5)); if (i + r.below(2)) % 2 == 0 { m } else { -m } }
    }).collect()).collect()
}
fn judge(a: &Ast, cols: &[Vec<f64>], i: usize, got: f64, what: &str, n: usize, cx: &mut Cx) -> bool {
    let x: Vec<f64> = cols.iter().map(|c| c[i]).collect();
    let b = eval(a, &x);
    if !b.usable(1e-6) || !ast::regular(a, &x) { cx.count("skipped_ill_conditioned_or_undefined"); return false; }
    cx.observed(mix(a.hash() ^ mix(n as u64 * 8191 + i as u64)));
    cx.count(what);
    if !b.agrees(got, 256.0) {
        let names = &VARS[..cols.len()];
        let x0 = x.clone();
        let small = a.clone().shrink(&mut |s| { let b = eval(s, &x0); b.usable(1e-6) && ast::regular(s, &x0) && batch4(&s.build(), names, &x0).is_some_and(|g| g.iter().any(|g| !b.agrees(*g, 256.0))) });
        cx.violation(format!("{what} value wrong"), format!("{} with {n} points, position {i}, x={x:?}: got {got}, reference {b:?}; shrunk (7 equal points): {} -> {:?} want {:?}", a.show(), small.show(), batch4(&small.build(), names, &x0), eval(&small, &x0)));
        return true;
    }
    false
}
/// the same point 7 times: one SIMD chunk and three remainder points
fn batch4(e: &Expr, names: &[&str], x: &[f64]) -> Option<Vec<f64>> {
    let ev = CompiledEvaluator::compile(e, names, None).ok()?;
    let cols: Vec<Vec<f64>> = x.iter().map(|v| vec![*v; 7]).collect();
    let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
    let mut out = vec![0.0; 7];
    ev.eval_batch(&refs, &mut out, None).ok()?;
    Some(out)
}

fn p02(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let mut buf: Vec<f64x4> = Vec::with_capacity(r.below(40));
    let k = r.range(1, 4) as usize;
    let mut asts = vec![]; let mut exprs = vec![]; let mut allcols = vec![]; let mut nvs = vec![];
    for _ in 0..k {
        let mut c = rand_cfg(&mut r);
        if r.chance(0.15) { c.step = true; c.p_fun = 0.5; }
        let a = generate(&mut r, &c, c.depth);
        let Some(e) = build_expr(&mut r, &a, cx) else { return };
        let n = if r.chance(0.8) { *r.pick(LENS) } else { r.range(0, 1500) as usize };
        let cols = columns(&mut r, c.vars, n);
        if batch_one(&a, &e, &cols, n, &mut buf, &mut r, cx) { return; }
        asts.push(a); exprs.push(e); allcols.push(cols); nvs.push(c.vars);
    }
    // several expressions at once, each with its own variables and data
    let er: Vec<&Expr> = exprs.iter().collect();
    let names: Vec<&[&str]> = nvs.iter().map(|n| &VARS[..*n]).collect();
    let refs: Vec<Vec<&[f64]>> = allcols.iter().map(|c| c.iter().map(Vec::as_slice).collect()).collect();
    let data: Vec<&[&[f64]]> = refs.iter().map(Vec::as_slice).collect();
    match eval_f64(&er, &names, &data) {
        Err(e) => cx.violation("eval_f64 rejected valid input", format!("{:?}: {e}", asts.iter().map(Ast::show).collect::<Vec<_>>())),
        Ok(res) => {
            if res.len() != k { cx.violation("eval_f64 result count", format!("{} results for {k} expressions", res.len())); return; }
            for j in 0..k {
                let n = allcols[j].first().map_or(1, Vec::len);
                if res[j].len() != n { cx.violation("eval_f64 result length", format!("{} values for {n} points of {}", res[j].len(), asts[j].show())); return; }
                for i in positions(&mut r, n) { if judge(&asts[j], &allcols[j], i, res[j][i], "eval_f64", n, cx) { return; } }
            }
        }
    }
}
fn positions(r: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 16 { return (0..n).collect(); }
    let mut v = vec![0, 1, 2, 3, 4, n - 1, n - 2, n - 3, n - 4, n / 2];
    for b in [255, 256, 257, 511, 512, 513] { if b < n { v.push(b); } }
    for _ in 0..6 { v.push(r.below(n)); }
    v
}
fn batch_one(a: &Ast, e: &Expr, cols: &[Vec<f64>], n: usize, buf: &mut Vec<f64x4>, r: &mut Rng, cx: &mut Cx) -> bool {
    let nv = cols.len();
    // permuted parameter list
    let mut ord: Vec<usize> = (0..nv).collect();
    r.shuffle(&mut ord);
    let params: Vec<&str> = ord.iter().map(|i| VARS[*i]).collect();
    let ev = match CompiledEvaluator::compile(e, &params, None) { Ok(v) => v, Err(er) => { cx.violation("compile rejected a fully bound expression", format!("{}: {er}", a.show())); return true; } };
    let refs: Vec<&[f64]> = ord.iter().map(|i| cols[*i].as_slice()).collect();
    let pad = r.below(6);
    let sentinel = f64::from_bits(0x7ff8_dead_beef_0001);
    let mut out = vec![sentinel; n + pad];
    let reuse = r.chance(0.6);
    cx.count(if reuse { "with_reused_buffer" } else { "without_buffer" });
    if let Err(er) = ev.eval_batch(&refs, &mut out, if reuse { Some(&mut *buf) } else { None }) { cx.violation("eval_batch rejected valid input", format!("{} n={n}: {er}", a.show())); return true; }
    if out[n..].iter().any(|v| v.to_bits() != sentinel.to_bits()) { cx.violation("eval_batch wrote past the data points", format!("{} n={n}", a.show())); return true; }
    for i in positions(r, n) { if judge(a, cols, i, out[i], "eval_batch", n, cx) { return true; } }
    match ev.eval_batch_parallel(&refs) {
        Err(er) => { cx.violation("eval_batch_parallel rejected valid input", format!("{} n={n}: {er}", a.show())); return true; }
        Ok(p) => {
            if p.len() != n { cx.violation("eval_batch_parallel result length", format!("{} values for {n} points", p.len())); return true; }
            for i in 0..n { if p[i].to_bits() != out[i].to_bits() && !(p[i].is_nan() && out[i].is_nan()) && judge(a, cols, i, p[i], "eval_batch_parallel", n, cx) { return true; } }
            cx.add("parallel_points_compared", n as u64);
        }
    }
    // every remaining position against the scalar VM: only a disagreement needs the reference
    if r.chance(0.3) {
        for i in 0..n {
            let args: Vec<f64> = refs.iter().map(|c| c[i]).collect();
            let s = ev.evaluate(&args);
            if (s - out[i]).abs() > 1e-12 * s.abs() && judge(a, cols, i, out[i], "eval_batch", n, cx) { return true; }
        }
        cx.add("scalar_points_compared", n as u64);
    }
    // malformed requests are refused, output untouched
    if r.chance(0.25) {
        let mut o2 = vec![sentinel; n + 3];
        let extra = [0.5; 3];
        let mut more = refs.clone(); more.push(&extra[..n.min(3)]);
        match ev.eval_batch(&more, &mut o2, None) { Err(DiffError::EvalColumnMismatch { .. }) => {}, o => { cx.violation("column count mismatch not refused", format!("{o:?} n={n}")); return true; } }
        if nv > 1 && n > 0 {
            let mut un = refs.clone(); let k = r.below(nv); un[k] = &un[k][..r.below(n)];
            let vars: Vec<&str> = params.clone();
            match ev.eval_batch(&un, &mut o2, None) { Err(DiffError::EvalColumnLengthMismatch) => {}, o => { cx.violation("column length mismatch not refused", format!("{o:?} n={n} k={k}")); return true; } }
            match ev.eval_batch_parallel(&un) { Err(DiffError::EvalColumnLengthMismatch) => {}, o => { cx.violation("column length mismatch not refused (parallel)", format!("{o:?} n={n} k={k}")); return true; } }
            if eval_f64(&[e], &[&vars[..]], &[&un[..]]).is_ok() && un[0].len() != 0 { cx.violation("column length mismatch not refused (eval_f64)", format!("n={n} k={k}")); return true; }
        }
        if n > 0 {
            let mut small = vec![sentinel; r.below(n)];
            match ev.eval_batch(&refs, &mut small, None) { Err(DiffError::EvalOutputTooSmall { .. }) => {}, o => { cx.violation("short output not refused", format!("{o:?} n={n}")); return true; } }
            if small.iter().any(|v| v.to_bits() != sentinel.to_bits()) { cx.violation("refused request wrote output", format!("n={n}")); return true; }
        }
        if o2.iter().any(|v| v.to_bits() != sentinel.to_bits()) { cx.violation("refused request wrote output", format!("n={n}")); return true; }
        cx.count("malformed_requests_refused");
    }
    false
}
fn p02_directed(cx: &mut Cx) {
    // chunked code at and around its chunk boundaries, big batches
    let a = Ast::Add(vec![Ast::Mul(vec![Ast::Var(0), Ast::Var(1)]), Ast::Fun(crate::funcs::fun_idx("sin"), vec![Ast::Var(0)])]);
    let e = a.build();
    let mut r = Rng::new(11);
    let mut buf = vec![];
    for n in [0usize, 1, 3, 4, 255, 256, 257, 258, 259, 260, 1023, 1024, 1025, 4096, 20_001] {
        let cols = columns(&mut r, 2, n);
        batch_one(&a, &e, &cols, n, &mut buf, &mut r, cx);
    }
    // constant expressions: no columns
    let e = parse("2*pi + 3^2").unwrap();
    let none: &[&str] = &[];
    let ev = CompiledEvaluator::compile(&e, none, None).unwrap();
    let mut out = [0.0];
    if ev.eval_batch(&[], &mut out, None).is_err() || (out[0] - (std::f64::consts::TAU + 9.0)).abs() > 1e-12 { cx.violation("constant batch wrong", format!("{out:?}")); }
    let k = eval_f64(&[&e], &[none], &[&[]]);
    if !matches!(&k, Ok(v) if v.len() == 1 && v[0].len() == 1 && (v[0][0] - (std::f64::consts::TAU + 9.0)).abs() < 1e-12) { cx.violation("constant eval_f64 wrong", format!("{k:?}")); }
}

// ------------------------------------------------------------------------------------------
/// expression shapes that stress the VM's stack, cache and instruction fusion
pub fn hostile_shape(r: &mut Rng) -> Ast {
    let v = |r: &mut Rng| Ast::Var(r.below(4));
    match r.below(9) {
        // deep right nesting: stack depth grows with n
        0 => { let n = r.range(3, 150); let mut a = core(r); for i in 0..n { a = if i % 2 == 0 { Ast::Div(Box::new(v(r)), Box::new(Ast::Add(vec![Ast::Num(1.5), a]))) } else { Ast::Sub(Box::new(v(r)), Box::new(a)) }; } a }
        1 => { let n = r.range(3, 120); let mut a = core(r); for _ in 0..n { a = Ast::Pow(Box::new(Ast::Num(1.01)), Box::new(Ast::Fun(crate::funcs::fun_idx("atan2"), vec![v(r), a]))); } a }
        // many repeated subexpressions: cache slots
        2 => { let n = r.range(2, 90) as usize; let subs: Vec<Ast> = (0..n).map(|i| Ast::Fun(crate::funcs::fun_idx("sin"), vec![Ast::Mul(vec![v(r), Ast::Num(1.0 + i as f64 * 0.37)])])).collect();
               let mut t = vec![]; for s in &subs { t.push(Ast::Mul(vec![s.clone(), v(r)])); } for s in &subs { t.push(Ast::Pow(Box::new(s.clone()), Box::new(v(r)))); } r.shuffle(&mut t); Ast::Add(t) }
        // products minus things: fusion
        3 => { let n = r.range(2, 6) as usize; Ast::Sub(Box::new(Ast::Mul((0..n).map(|_| small(r)).collect())), Box::new(small(r))) }
        4 => { let n = r.range(2, 6) as usize; Ast::Add((0..n).map(|_| Ast::Mul(vec![small(r), small(r)])).collect()) }
        5 => Ast::Add(vec![Ast::Div(Box::new(Ast::Num(2.0)), Box::new(Ast::Fun(crate::funcs::fun_idx("exp"), vec![small(r)]))), small(r)]),
        // polynomials, dense and sparse, of compound bases
        6 => { let b = if r.chance(0.5) { v(r) } else { small(r) }; let mut t = vec![]; for _ in 0..r.range(2, 8) { t.push(Ast::Mul(vec![Ast::Num(r.range(-5, 9) as f64), Ast::Pow(Box::new(b.clone()), Box::new(Ast::Num(*r.pick(&[1.0, 2.0, 3.0, 5.0, 9.0, 64.0, 65.0, 70.0, 130.0]))))])); } Ast::Add(t) }
        7 => { let n = r.range(60, 300) as usize; Ast::Add((0..n).map(|i| Ast::Mul(vec![Ast::Num(1.0 + i as f64), v(r), Ast::Fun(crate::funcs::fun_idx("cos"), vec![Ast::Add(vec![v(r), Ast::Num(i as f64)])])])).collect()) }
        _ => { let c = rand_cfg(r); let d = r.range(3, 7) as usize; generate(r, &ast::GenCfg { vars: 4, depth: d, ..c }, d) }
    }
}
/// what sits at the deepest point of the stack: shapes instruction fusion rewrites
fn core(r: &mut Rng) -> Ast {
    let v = |r: &mut Rng| Ast::Var(r.below(4));
    match r.below(6) {
        0 => v(r),
        1 => Ast::Sub(Box::new(Ast::Mul(vec![v(r), v(r)])), Box::new(v(r))),
        2 => Ast::Sub(Box::new(Ast::Mul(vec![v(r), v(r), v(r)])), Box::new(v(r))),
        3 => Ast::Add(vec![Ast::Mul(vec![v(r), Ast::Fun(crate::funcs::fun_idx("sin"), vec![v(r)])]), v(r)]),
        4 => Ast::Add(vec![Ast::Div(Box::new(Ast::Num(2.0)), Box::new(Ast::Fun(crate::funcs::fun_idx("exp"), vec![v(r)]))), v(r)]),
        _ => small(r),
    }
}
fn small(r: &mut Rng) -> Ast { let c = ast::GenCfg { vars: 4, depth: 2, ..Default::default() }; generate(r, &c, 2) }

fn p03(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let a = hostile_shape(&mut r);
    exercise(&a, &mut r, cx);
}
fn exercise(a: &Ast, r: &mut Rng, cx: &mut Cx) {
    let e = a.build();
    let names = &VARS[..4];
    let Ok(ev) = CompiledEvaluator::compile(&e, names, None) else { cx.violation("compile rejected a fully bound expression", a.show()); return };
    cx.add("instructions", ev.instruction_count() as u64);
    if ev.stack_size() > 64 { cx.count("stack_deeper_than_inline_buffer"); }
    for _ in 0..3 {
        let n = *r.pick(LENS) % 70;
        let cols = columns(r, 4, n);
        // exact-size heap columns: any overread hits a red zone
        let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
        let mut out: Vec<f64> = Vec::with_capacity(n); out.resize(n, 0.0);
        let cap = match r.below(4) { 0 => 0, 1 => r.below(ev.stack_size() + 1), 2 => ev.stack_size() / 2 + 1, _ => ev.stack_size() };
        let mut buf: Vec<f64x4> = Vec::with_capacity(cap);
        if r.chance(0.3) { for _ in 0..r.below(cap + 1) { buf.push(f64x4::splat(1.0)); } }
        let res = if r.chance(0.8) { ev.eval_batch(&refs, &mut out, Some(&mut buf)) } else { ev.eval_batch(&refs, &mut out, None) };
        if res.is_err() { cx.violation("eval_batch rejected valid input", a.show()); }
        let mut args = vec![0.3, 0.7, 1.1, 1.9];
        args.truncate(r.below(5)); // fewer parameters than expected is a tolerated call
        let _ = ev.evaluate(&args);
        let _ = ev.evaluate(&[0.3, 0.7, 1.1, 1.9]);
        if r.chance(0.1) { let _ = ev.eval_batch_parallel(&refs); }
        cx.observed(mix(a.hash() ^ mix((n * 1000 + cap) as u64)));
        cx.add("points", n as u64);
    }
    cx.sample(|| format!("{} ({} instructions, stack {})", a.show().chars().take(120).collect::<String>(), ev.instruction_count(), ev.stack_size()));
}
fn p03_directed(cx: &mut Cx) {
    let mut r = Rng::new(3);
    for s in ["x*t", "x*y*z - t", "x*y*z + t", "2/exp(x)+y", "x*y - z", "x*y + z*t", "(x+y)*(z-t) - x", "x - y*z", "1/(x*y) + z", "x*exp(y) - z", "sin(x)*cos(y) - z", "x^2*y - z", "x/y*z - t", "-x*y + z", "x*y*z*t - x", "(x*y)^2 - z", "sqrt(x)*y - z", "x*y", "x^3 + y^3 - z", "exp(-x*y) - z", "exp(x^2)*y - 1", "ln(1+x)*y - z"] {
        let Ok(e) = parse(s) else { continue };
        let a = ast::from_expr(&e);
        if a.has_opaque() { continue; }
        for _ in 0..4 { exercise(&a, &mut r, cx); }
    }
}
