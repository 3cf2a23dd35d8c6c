//! Built-in functions against an arbitrary-precision table, independent reference formulas and functional equations.
use super::{DEF, Prop};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::{BTreeMap, HashMap};
use std::f64::consts::PI;
use std::sync::LazyLock;
use std::sync::mpsc;
use std::time::Duration;
use symb_anafis::{CompiledEvaluator, Expr, symb};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P19", case: p19, directed: Some(directed), rule: "distinct (function, arguments, way of evaluating) whose value was compared with a table or reference value or tied to others by a functional equation", ..DEF }]
}
struct Row { a: Vec<f64>, v: f64, k: f64 }
static TABLE: LazyLock<BTreeMap<&'static str, Vec<Row>>> = LazyLock::new(|| {
    let mut m: BTreeMap<&'static str, Vec<Row>> = BTreeMap::new();
    for l in include_str!("../../golden.tsv").lines() {
        let f: Vec<&'static str> = l.split('\t').collect();
        m.entry(f[0]).or_default().push(Row { a: f[1].split(',').map(|x| x.parse().unwrap()).collect(), v: f[2].parse().unwrap(), k: f[3].parse().unwrap() });
    }
    m
});
/// number of leading integer arguments
fn orders(n: &str) -> usize { match n { "besselj" | "bessely" | "besseli" | "besselk" | "polygamma" | "zeta_deriv" | "hermite" => 1, "assoc_legendre" | "spherical_harmonic" | "ynm" => 2, _ => 0 } }
/// relative accuracy at condition number zero (twice to ten times the worst seen against the table)
fn tol(n: &str) -> f64 {
    match n {
        "besselj" | "bessely" | "besseli" | "besselk" => 2e-7, // eight-digit approximations
        "digamma" => 5e-9, "trigamma" | "polygamma" => 2e-8, "zeta_deriv" => 1e-7,
        "zeta" => 1e-12, "beta" | "erfc" | "tetragamma" => 1e-13, "assoc_legendre" | "spherical_harmonic" | "ynm" | "hermite" | "gamma" | "elliptic_k" | "elliptic_e" | "lambertw" | "erf" => 3e-14,
        _ => 4e-15,
    }
}
/// the ways of evaluating a call; all values for a list of argument lists
fn ways(n: &str, rows: &[Vec<f64>], r: &mut Rng) -> Vec<(&'static str, Vec<f64>)> {
    let ar = rows[0].len();
    let names = ["p", "q", "s", "t"];
    let vars = || Expr::func_multi(n, (0..ar).map(|i| symb(names[i]).into()).collect());
    let tree: Vec<f64> = rows.iter().map(|a| num(&Expr::func_multi(n, a.iter().map(|&v| Expr::number(v)).collect()).evaluate(&HashMap::<&str, f64>::new(), &HashMap::new()))).collect();
    let e = vars();
    let bound: Vec<f64> = rows.iter().map(|a| num(&e.evaluate(&(0..ar).map(|i| (names[i], a[i])).collect::<HashMap<&str, f64>>(), &HashMap::new()))).collect();
    let mut out = vec![("tree", tree), ("bound variables", bound)];
    let Ok(ev) = CompiledEvaluator::compile(&e, &names[..ar], None) else { return out };
    out.push(("compiled", rows.iter().map(|a| ev.evaluate(a)).collect()));
    let off = r.below(3); // shift the rows over the vector lanes
    let cols: Vec<Vec<f64>> = (0..ar).map(|i| (0..off).map(|_| rows[0][i]).chain(rows.iter().map(|a| a[i])).collect()).collect();
    let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
    let mut o = vec![0.0; rows.len() + off];
    if ev.eval_batch(&refs, &mut o, None).is_ok() { out.push(("batch", o[off..].to_vec())); }
    // fixed leading orders, as a user writes them
    let k = orders(n);
    if k > 0 {
        let i = r.below(rows.len());
        let fixed = &rows[i][..k];
        let e = Expr::func_multi(n, (0..ar).map(|j| if j < k { Expr::number(fixed[j]) } else { symb(names[j]).into() }).collect());
        if let Ok(ev) = CompiledEvaluator::compile(&e, &names[k..ar], None) {
            let v = rows.iter().map(|a| if a[..k] == *fixed { ev.evaluate(&a[k..]) } else { f64::INFINITY }).collect::<Vec<_>>();
            // rows of other orders are not judged: marked by repeating the compiled value
            let base = out[2].1.clone();
            out.push(("compiled, order fixed", v.iter().zip(rows).zip(base).map(|((v, a), b)| if a[..k] == *fixed { *v } else { b }).collect()));
        }
    }
    out
}
fn num(e: &Expr) -> f64 { match e.view() { symb_anafis::visitor::ExprView::Number(n) => n, _ => f64::NAN } }
/// None: agrees
fn verdict(n: &str, got: f64, want: f64, k: f64, t: f64) -> Option<String> {
    let _ = n;
    if want.is_nan() { return if got.is_finite() { Some(format!("{got:e} where the function is undefined")) } else { None }; }
    if want.abs() > 1e290 { return if got.is_nan() || got.abs() > 1e280 && got.signum() == want.signum() || want.is_infinite() && got.is_infinite() { None } else { Some(format!("{got:e}, not {want:e}")) }; }
    if want != 0.0 && want.abs() < 1e-290 || want == 0.0 { return if got.abs() <= 1e-14 { None } else { Some(format!("{got:e}, not {want:e}")) }; }
    if !got.is_finite() { return Some(format!("{got} where the value is {want:e}")); }
    let lim = t * want.abs() * (1.0 + k) + 1e-300;
    if (got - want).abs() <= lim { None } else { Some(format!("{got:e}, not {want:e} (off by {:.1e}, allowed {lim:.1e})", (got - want).abs())) }
}
fn judge(n: &str, a: &[f64], way: &str, got: f64, want: f64, k: f64, t: f64, src: &str, cx: &mut Cx) -> bool {
    // intermediate results beyond the range of doubles
    if out_of_range(n, a) { cx.count("skipped_range"); return false; }
    cx.observed(mix(hash(n) ^ mix(a.iter().fold(7, |h, v| mix(h ^ v.to_bits()))) ^ hash(way)));
    cx.count(&format!("fn_{n}"));
    cx.sample(|| format!("{n}{a:?} by {way}: {got:e}, {src} {want:e} (condition {k:.1e})"));
    if let Some(m) = verdict(n, got, want, k, t) { cx.violation(format!("{n} {} ({src})", if want.is_nan() { "defined outside its domain" } else if got.is_finite() { "inaccurate" } else { "undefined in its domain" }), format!("{n}({a:?}) by {way} = {m}")); return true; }
    false
}
fn out_of_range(n: &str, a: &[f64]) -> bool {
    match n {
        "zeta" => a[0] < -165.0, "zeta_deriv" => a[1] < -150.0,
        "beta" => (a[0] < 0.0 || a[1] < 0.0) && a.iter().any(|x| x.abs() > 80.0),
        "gamma" => a[0] < -160.0 || a[0] > 170.0,
        _ => false,
    }
}
fn hash(s: &str) -> u64 { s.bytes().fold(11, |h, b| mix(h ^ u64::from(b))) }

// ---- independent reference formulas (double precision) ----
fn stirling_shift(x: f64) -> (f64, f64) { let (mut p, mut y) = (1.0, x); while y < 16.0 { p *= y; y += 1.0; } (p, y) }
fn ref_gamma(x: f64) -> f64 {
    if x <= 0.0 && x == x.floor() { return f64::NAN; }
    if x < 0.0 { return PI / ((sin_pi(x)) * ref_gamma(1.0 - x)); }
    let (p, y) = stirling_shift(x);
    let y2 = y * y;
    let s = 1.0 / 12.0 / y - 1.0 / 360.0 / (y * y2) + 1.0 / 1260.0 / (y * y2 * y2) - 1.0 / 1680.0 / (y * y2 * y2 * y2) + 1.0 / 1188.0 / (y * y2.powi(4));
    let h = y.powf(0.5 * (y - 0.5));
    (2.0 * PI).sqrt() * h * (-y + s).exp() * h / p
}
fn sin_pi(x: f64) -> f64 { let n = x.round(); let s = (PI * (x - n)).sin(); if n.rem_euclid(2.0) == 0.0 { s } else { -s } }
const BERN: [f64; 12] = [1.0 / 6.0, -1.0 / 30.0, 1.0 / 42.0, -1.0 / 30.0, 5.0 / 66.0, -691.0 / 2730.0, 7.0 / 6.0, -3617.0 / 510.0, 43867.0 / 798.0, -174611.0 / 330.0, 854513.0 / 138.0, -236364091.0 / 2730.0];
/// Hurwitz zeta by Euler-Maclaurin, s > 1 (or any s with shift 1)
fn hurwitz(s: f64, a: f64) -> f64 {
    let mut sum = 0.0;
    let mut y = a;
    while y < 20.0 { sum += pw(y, -s); y += 1.0; }
    let mut t = pw(y, 1.0 - s) / (s - 1.0) + 0.5 * pw(y, -s);
    let mut c = s * pw(y, -s - 1.0) / 2.0;
    for (k, b) in BERN.iter().enumerate() { t += b * c; let m = (2 * k + 1) as f64; c *= (s + m) * (s + m + 1.0) / (y * y) / ((m + 2.0) * (m + 3.0)); }
    sum + t
}
fn pw(y: f64, e: f64) -> f64 { if e == e.floor() && e.abs() < 200.0 { y.powi(e as i32) } else { y.powf(e) } }
fn ref_polygamma(n: i32, x: f64) -> f64 {
    if n < 0 || x <= 0.0 && x == x.floor() { return f64::NAN; }
    if n == 0 {
        let mut s = 0.0;
        let mut y = x;
        while y < 20.0 { s -= 1.0 / y; y += 1.0; }
        let mut t = y.ln() - 0.5 / y;
        for (k, b) in BERN.iter().enumerate() { let m = 2.0 * (k as f64 + 1.0); t -= b / (m * y.powi(2 * k as i32 + 2)); }
        return s + t;
    }
    let f: f64 = (1..=n).map(f64::from).product();
    (if n % 2 == 1 { f } else { -f }) * hurwitz(f64::from(n) + 1.0, x)
}
/// integral of f over [a, b], 16-point Gauss-Legendre in `m` panels
fn gl(a: f64, b: f64, m: usize, f: impl Fn(f64) -> f64) -> f64 {
    const X: [f64; 8] = [0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.755404408355003, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499];
    const W: [f64; 8] = [0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541];
    let h = (b - a) / m as f64;
    (0..m).map(|i| { let c = a + (i as f64 + 0.5) * h; (0..8).map(|j| W[j] * (f(c + 0.5 * h * X[j]) + f(c - 0.5 * h * X[j]))).sum::<f64>() * 0.5 * h }).sum()
}
fn ref_bessel(n: &str, o: i32, x: f64) -> f64 {
    let of = f64::from(o);
    let panels = 8 + (x.abs() as usize + o.unsigned_abs() as usize) / 3;
    match n {
        "besselj" | "besseli" if n == "besseli" || x * x < 4.0 * (of.abs() + 1.0) => { // ascending series: no cancellation
            let (m, s) = (of.abs(), if n == "besseli" { 1.0 } else { -1.0 });
            let mut t = (1..=m as i32).fold(1.0, |t, i| t * x / 2.0 / f64::from(i));
            let mut sum = t;
            for k in 1..500 { let k = f64::from(k); t *= s * x * x / 4.0 / k / (m + k); sum += t; if t.abs() < 1e-18 * sum.abs() { break; } }
            if o < 0 && n == "besselj" && o % 2 != 0 { -sum } else { sum }
        }
        "besselj" => { let v = gl(0.0, PI, panels, |t| (of * t - x * t.sin()).cos()) / PI; if v.abs() < 1e-6 { f64::INFINITY } else { v } }
        "besselk" => if x <= 0.0 { f64::NAN } else { let top = (2.0 * (700.0 + 20.0 * of.abs()) / x).ln().max(1.0).min(40.0); gl(0.0, top, 200, |t| (-x * t.cosh() + (of * t).abs()).exp() * 0.5 * (1.0 + (-2.0 * (of * t).abs()).exp())) },
        _ => if x <= 0.0 { f64::NAN } else {
            let m = o.abs(); let mf = f64::from(m);
            let sg = if m % 2 == 0 { 1.0 } else { -1.0 };
            let top = (2.0 * (700.0 + 20.0 * mf) / x).ln().max(1.0).min(40.0);
            let v = gl(0.0, PI, panels, |t| (x * t.sin() - mf * t).sin()) / PI - gl(0.0, top, 200, |t| ((mf * t) - x * t.sinh()).exp() + sg * (-mf * t - x * t.sinh()).exp()) / PI;
            if o < 0 { sg * v } else { v }
        },
    }
}
fn ref_legendre(l: i32, m: i32, x: f64) -> f64 {
    if l < 0 || m.abs() > l { return f64::NAN; }
    let am = m.abs();
    let s = ((1.0 - x) * (1.0 + x)).max(0.0).sqrt();
    let mut p = (0..am).fold(1.0, |p, i| -p * f64::from(2 * i + 1) * s);
    let mut q = 0.0;
    for k in am..l { let t = (x * f64::from(2 * k + 1) * p - f64::from(k + am) * q) / f64::from(k - am + 1); q = p; p = t; }
    if m < 0 { for i in (l - am + 1)..=(l + am) { p /= f64::from(i); } if am % 2 == 1 { p = -p; } }
    p
}
/// reference value: `None` where there is none (or none precise enough)
fn reference(n: &str, a: &[f64]) -> Option<f64> {
    let x = a[a.len() - 1];
    Some(match n {
        "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "cot" => 1.0 / x.tan(), "sec" => 1.0 / x.cos(), "csc" => 1.0 / x.sin(),
        "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "acot" => if x > 0.0 { (1.0 / x).atan() } else if x == 0.0 { PI / 2.0 } else { PI + (1.0 / x).atan() },
        "asec" => (1.0 / x).acos(), "acsc" => (1.0 / x).asin(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "coth" => 1.0 / x.tanh(), "sech" => 1.0 / x.cosh(), "csch" => 1.0 / x.sinh(),
        "asinh" => x.asinh(), "acosh" => x.acosh(), "atanh" => x.atanh(), "acoth" => (1.0 / x).atanh(), "asech" => (1.0 / x).acosh(), "acsch" => if x == 0.0 { f64::NAN } else { (1.0 / x).asinh() },
        "exp" | "exp_polar" => x.exp(), "ln" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "sqrt" => x.sqrt(), "cbrt" => x.cbrt(), "abs" => x.abs(),
        "signum" => if x == 0.0 { return None } else { x.signum() }, "floor" => x.floor(), "ceil" => x.ceil(), "round" => x.round(), "sinc" => if x == 0.0 { 1.0 } else { x.sin() / x },
        "atan2" => a[0].atan2(a[1]), "log" => if a[0] <= 0.0 || a[0] == 1.0 || a[1] <= 0.0 { f64::NAN } else { a[1].ln() / a[0].ln() },
        "erf" => if x.abs() > 6.0 { x.signum() } else { 2.0 / PI.sqrt() * gl(0.0, x, 6, |t| (-t * t).exp()) },
        "erfc" => if x < 0.5 { 1.0 - reference("erf", a)? } else { (-x * x).exp() * 2.0 / PI.sqrt() * gl(0.0, 12.0 / (1.0 + x / 3.0), 12, |t| (-t * t - 2.0 * x * t).exp()) },
        "gamma" => if x.abs() > 150.0 { return None } else { ref_gamma(x) },
        "beta" => { if a.iter().any(|v| v.abs() > 60.0) { return None } let (p, q) = (ref_gamma(a[0]), ref_gamma(a[1])); let s = a[0] + a[1]; if p.is_nan() || q.is_nan() { f64::NAN } else if s <= 0.0 && s == s.floor() { 0.0 } else { p * q / ref_gamma(s) } },
        "digamma" => if x.abs() > 200.0 && x < 0.0 { return None } else { ref_polygamma(0, x) }, "trigamma" => if x < -200.0 { return None } else { ref_polygamma(1, x) }, "tetragamma" => if x < -200.0 { return None } else { ref_polygamma(2, x) },
        "polygamma" => if a[0] > 12.0 || x < -200.0 { return None } else { ref_polygamma(a[0] as i32, x) },
        "zeta" => if x < -0.5 || (x - 1.0).abs() < 1e-9 { return None } else if x > 100.0 { 1.0 } else { hurwitz(x, 1.0) },
        "besselj" | "besseli" | "besselk" | "bessely" => if a[0].abs() > 30.0 || x.abs() > 60.0 || x.abs() < 1e-3 { return None } else { ref_bessel(n, a[0] as i32, x) },
        "hermite" => if a[0] < 0.0 { f64::NAN } else { let (mut p, mut q) = (1.0, 0.0); for k in 0..a[0] as i32 { let t = 2.0 * x * p - 2.0 * f64::from(k) * q; q = p; p = t; } p },
        "assoc_legendre" => if x.abs() > 1.0 { return None } else { ref_legendre(a[0] as i32, a[1] as i32, x) },
        "spherical_harmonic" | "ynm" => {
            let (l, m) = (a[0] as i32, a[1] as i32);
            if a[2].sin().abs() < 0.05 { return None } // the cosine loses the small angle
            let p = ref_legendre(l, m.abs(), a[2].cos());
            let ratio: f64 = ((l - m.abs() + 1)..=(l + m.abs())).map(|i| 1.0 / f64::from(i)).product();
            // the library documents a real form, even in m
            (f64::from(2 * l + 1) / (4.0 * PI) * ratio).sqrt() * p * (f64::from(m) * a[3]).cos()
        }
        "elliptic_k" => if x.abs() > 0.999 { return None } else { gl(0.0, PI / 2.0, 60, |t| 1.0 / (1.0 - (x * t.sin()).powi(2)).sqrt()) },
        "elliptic_e" => if x.abs() > 0.9999 { return None } else { gl(0.0, PI / 2.0, 60, |t| (1.0 - (x * t.sin()).powi(2)).sqrt()) },
        "lambertw" => if x < -0.36 || x == 0.0 { return None } else { let mut w = if x < 1.0 { x / (1.0 + x) } else { x.ln().max(0.1) }; for _ in 0..200 { let e = w.exp(); let d = (w - x / e) / (1.0 + w); let s = if d.abs() > 1.0 { d.signum() } else { d }; w -= s; if s.abs() < 1e-16 * w.abs() { break; } } w },
        _ => return None,
    })
}
/// condition number at `a` from the reference itself; None where the function is not smooth or too close to the edge of its domain
fn condition(n: &str, a: &[f64]) -> Option<f64> {
    let v = reference(n, a)?;
    if n == "besselj" && v.is_infinite() { return None; }
    let mut k = 0.0;
    for i in orders(n)..a.len() {
        for h in [1e-6, -1e-6] {
            let mut b = a.to_vec();
            let d = a[i].abs().max(1e-3 * f64::from(u8::from(a[i] == 0.0))) * h;
            b[i] += d;
            let w = reference(n, &b)?;
            if w.is_nan() != v.is_nan() { return None; }
            if v.is_nan() { continue; }
            if !w.is_finite() || !v.is_finite() || v == 0.0 || w == 0.0 || w.signum() != v.signum() && v.abs() > 1e-3 { return None; }
            k += ((w - v) / v / h).abs();
        }
    }
    Some(k)
}
/// random arguments: table arguments, moved
fn arguments(n: &str, r: &mut Rng) -> Vec<f64> {
    let rows = &TABLE[n];
    let mut a = r.pick(rows).a.clone();
    let o = orders(n);
    if o == 1 && r.chance(0.4) { a[0] = match n { "polygamma" | "zeta_deriv" => r.range(0, 6) as f64, "hermite" => r.range(0, 40) as f64, _ => r.range(-20, 20) as f64 }; }
    if o == 2 && r.chance(0.6) { a[0] = r.range(0, 20) as f64; a[1] = r.range(-(a[0] as i64), a[0] as i64) as f64; }
    let ar = a.len();
    for v in &mut a[o..ar] {
        match r.below(8) {
            0 => {}
            1 => *v *= 1.0 + r.uniform(-1e-3, 1e-3),
            2 => *v = (*v + r.uniform(-1.0, 1.0)).clamp(-300.0, 300.0),
            3 => *v = r.uniform(-8.0, 8.0),
            4 => *v = r.uniform(-1.0, 1.0),
            5 => *v = r.uniform(0.0, 30.0),
            6 => *v = (0.25 * r.range(-40, 40) as f64) * (1.0 + r.uniform(-1e-9, 1e-9)),
            _ => *v *= r.uniform(0.5, 2.0),
        }
    }
    a
}
fn p19(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let names: Vec<&'static str> = TABLE.keys().copied().collect();
    let n = *r.pick(&names);
    match r.below(6) {
        0 => { // table rows, mixed over the lanes
            let rows: Vec<&Row> = (0..24).map(|_| r.pick(&TABLE[n])).collect();
            let args: Vec<Vec<f64>> = rows.iter().map(|w| w.a.clone()).collect();
            for (way, vals) in ways(n, &args, &mut r) { for (w, v) in rows.iter().zip(vals) { if judge(n, &w.a, way, v, w.v, w.k, tol(n), "table", cx) { return; } } }
        }
        1 | 2 | 3 => { // random arguments against the reference formulas
            let mut good = vec![];
            for _ in 0..40 { let a = arguments(n, &mut r); if let (Some(v), Some(k)) = (reference(n, &a), condition(n, &a)) && k < 1e6 { good.push((a, v, k)); } if good.len() == 12 { break; } }
            if good.is_empty() { cx.count("no_reference"); return; }
            let args: Vec<Vec<f64>> = good.iter().map(|g| g.0.clone()).collect();
            for (way, vals) in ways(n, &args, &mut r) { for ((a, v, k), got) in good.iter().zip(vals) { if judge(n, a, way, got, *v, *k, 3.0 * tol(n).max(1e-13), "reference", cx) { return; } } }
        }
        4 => equations(&mut r, cx),
        _ => { // all ways of evaluating agree, at any arguments
            let args: Vec<Vec<f64>> = (0..9).map(|_| { let mut a = arguments(n, &mut r); let o = orders(n); let ar = a.len(); if r.chance(0.3) { let i = o + r.below(ar - o); a[i] *= 10f64.powi(r.range(-12, 12) as i32); } a }).collect();
            if args.iter().any(|a| out_of_range(n, a)) { return; }
            let w = ways(n, &args, &mut r);
            for (way, vals) in &w[1..] {
                for ((a, x), y) in args.iter().zip(&w[0].1).zip(vals) {
                    cx.observed(mix(hash(n) ^ hash(way) ^ a.iter().fold(7, |h, v| mix(h ^ v.to_bits()))));
                    cx.count("ways_compared");
                    let same = x.is_nan() && y.is_nan() || x == y || (x - y).abs() <= 1e-12 * x.abs().max(y.abs()) * (1.0 + amplification(n, a)) + 1e-290 || !x.is_finite() && !y.is_finite();
                    if !same { cx.violation(format!("{n} tree and {way} differ"), format!("{n}({a:?}): tree {x:e}, {way} {y:e}")); return; }
                }
            }
        }
    }
}
fn amplification(n: &str, a: &[f64]) -> f64 { if matches!(n, "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "sinc") { a[0].abs() * 10.0 + 1e3 } else { 10.0 } }

/// value and error bound of a call by a random way of evaluating
fn call(n: &str, a: &[f64], r: &mut Rng) -> f64 {
    let mut w = ways(n, &[a.to_vec()], r);
    let i = r.below(w.len());
    w.swap_remove(i).1[0]
}
fn equations(r: &mut Rng, cx: &mut Cx) {
    let o = r.range(0, 20) as f64;
    let x = match r.below(4) { 0 => r.uniform(0.05, 4.0), 1 => r.uniform(0.05, 20.0), 2 => 10f64.powf(r.uniform(-3.0, 2.0)), _ => 0.25 * r.range(1, 80) as f64 };
    let k = r.below(16);
    let y = r.uniform(-0.98, 0.98);
    let f = |n: &str, a: &[f64], r: &mut Rng| call(n, a, r);
    // (name, left, right, scale of the terms, tolerance)
    let (name, l, rr, sc, t) = match k {
        0 => { let s = if r.chance(0.5) { x } else { -x - 0.0123 }; let (a, b) = (f("gamma", &[s + 1.0], r), f("gamma", &[s], r)); if s.abs() > 140.0 { return } ("gamma(x+1)=x gamma(x)", a, s * b, a.abs() * (1.0 + near_pole(s)), 1e-13) }
        1 => { let s = if r.chance(0.5) { x } else { -x - 0.0123 }; let (a, b) = (f("digamma", &[s + 1.0], r), f("digamma", &[s], r)); ("digamma(x+1)=digamma(x)+1/x", a, b + 1.0 / s, (a.abs() + b.abs() + 1.0 / s.abs() + 1.0) * (1.0 + near_pole(s)), 5e-9) }
        2 => { let n = r.range(1, 8) as f64; let (a, b) = (f("polygamma", &[n, x + 1.0], r), f("polygamma", &[n, x], r)); let t = (1..=n as i32).map(f64::from).product::<f64>() * x.powi(-(n as i32) - 1) * if n as i32 % 2 == 0 { 1.0 } else { -1.0 }; ("polygamma recurrence", a, b + t, a.abs() + b.abs() + t.abs(), 2e-8) }
        3 => { let s = if r.chance(0.5) { x } else { -x }; ("erf+erfc=1", f("erf", &[s], r) + f("erfc", &[s], r), 1.0, 1.0, 1e-14) }
        4 => { let s = if r.chance(0.7) { x } else { -0.367 * y.abs() }; let w = f("lambertw", &[s], r); ("w exp(w)=x", w * w.exp(), s, s.abs() * (1.0 + w.abs()), 1e-13) }
        5 => { let (n, m) = (r.range(-12, 12) as f64, x); let p = if r.chance(0.5) { "besselj" } else { "bessely" }; let (a, b, c) = (f(p, &[n - 1.0, m], r), f(p, &[n + 1.0, m], r), f(p, &[n, m], r)); ("Bessel recurrence", a + b, 2.0 * n / m * c, (a.abs() + b.abs() + (2.0 * n / m * c).abs()).max((1.0 / m.max(1.0)).sqrt()), 4e-7) }
        6 => { let o = o.min(12.0); let (a, b, c, d) = (f("besselj", &[o + 1.0, x], r), f("bessely", &[o, x], r), f("besselj", &[o, x], r), f("bessely", &[o + 1.0, x], r)); ("Bessel Wronskian", a * b - c * d, 2.0 / (PI * x), ((a * b).abs() + (c * d).abs()) * 2.0 + 1.0 / x, 1e-6) }
        7 => { let (o, x) = (o.min(12.0), x.min(30.0)); let (a, b, c, d) = (f("besseli", &[o, x], r), f("besselk", &[o + 1.0, x], r), f("besseli", &[o + 1.0, x], r), f("besselk", &[o, x], r)); ("modified Bessel Wronskian", a * b + c * d, 1.0 / x, 1.0 / x, 1e-6) }
        8 => { let k = y.abs(); let q = ((1.0 - k) * (1.0 + k)).sqrt(); let (e1, e2, k1, k2) = (f("elliptic_e", &[k], r), f("elliptic_e", &[q], r), f("elliptic_k", &[k], r), f("elliptic_k", &[q], r)); ("Legendre's relation", e1 * k2 + e2 * k1 - k1 * k2, PI / 2.0, e1 * k2 + e2 * k1 + k1 * k2, 1e-12) }
        9 => { let s = -x.min(60.0); if (s / 2.0).fract().abs() < 1e-3 { return } let (a, b) = (f("zeta", &[s], r), f("zeta", &[1.0 - s], r)); let h = sin_pi(s / 2.0); ("zeta reflection", a, 2f64.powf(s) * PI.powf(s - 1.0) * h * ref_gamma(1.0 - s) * b, a.abs() * (1.0 + s.abs() / h.abs()), 1e-12) }
        10 => { let n = r.range(1, 30) as f64; let s = r.uniform(-4.0, 4.0); let (a, b, c) = (f("hermite", &[n + 1.0, s], r), f("hermite", &[n, s], r), f("hermite", &[n - 1.0, s], r)); ("Hermite recurrence", a, 2.0 * s * b - 2.0 * n * c, a.abs() + (2.0 * s * b).abs() + (2.0 * n * c).abs(), 1e-12) }
        11 => { let l = r.range(1, 20); let m = r.range(-l + 1, l - 1); let (lf, mf) = (l as f64, m as f64); let (a, b, c) = (f("assoc_legendre", &[lf + 1.0, mf, y], r), f("assoc_legendre", &[lf, mf, y], r), f("assoc_legendre", &[lf - 1.0, mf, y], r)); ("Legendre recurrence", (lf - mf + 1.0) * a, (2.0 * lf + 1.0) * y * b - (lf + mf) * c, ((lf - mf + 1.0) * a).abs() + ((2.0 * lf + 1.0) * y * b).abs() + ((lf + mf) * c).abs(), 1e-11) }
        12 => { let (p, q) = (x.min(60.0), r.uniform(0.1, 60.0)); let a = f("beta", &[p, q], r); ("beta(a,b)=beta(a+1,b)+beta(a,b+1)", a, f("beta", &[p + 1.0, q], r) + f("beta", &[p, q + 1.0], r), a.abs() * (1.0 + p + q), 1e-13) }
        13 => { let (p, q) = (x * 10.0, r.uniform(0.1, 400.0)); let a = f("beta", &[p, q], r); ("beta symmetric", a, f("beta", &[q, p], r), a.abs() * (1.0 + p + q), 1e-13) }
        14 => { let l = r.range(0, 12); let m = r.range(-l, l); let a = [l as f64, m as f64, r.uniform(0.0, PI), r.uniform(-PI, PI)]; let v = f("ynm", &a, r); ("ynm=spherical_harmonic", v, f("spherical_harmonic", &a, r), v.abs() + 1e-9, 1e-9) }
        _ => { // derivatives of zeta against differences of the derivative one order lower
            let n = r.range(1, 3) as f64; let s = r.uniform(1.3, 12.0); let h = 1e-4 * s;
            let (a, b, c) = (f("zeta_deriv", &[n, s], r), f("zeta_deriv", &[n - 1.0, s + h], r), f("zeta_deriv", &[n - 1.0, s - h], r));
            ("zeta_deriv is the derivative", a, (b - c) / (2.0 * h), a.abs() + b.abs() * 1e-3, 1e-4)
        }
    };
    if !sc.is_finite() || sc > 1e250 || sc < 1e-250 { cx.count("equation_range"); return; }
    cx.observed(mix(hash(name) ^ x.to_bits() ^ mix(o.to_bits() ^ y.to_bits())));
    cx.count("equations");
    if !((l - rr).abs() <= t * sc) { cx.violation(format!("{name} fails"), format!("{name}: {l:e} against {rr:e} at x={x:?} y={y:?} order {o}")); }
}
fn near_pole(s: f64) -> f64 { if s > 0.5 { s.abs() } else { let d = (s - s.round()).abs(); s.abs() * (1.0 + 1.0 / d) } }

/// CPU seconds used by thread `tid` of this process
fn cpu(tid: u64) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).unwrap_or_default();
    s.split_whitespace().next().and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}
unsafe extern "C" { fn gettid() -> i32; }
fn directed(cx: &mut Cx) {
    let mut r = Rng::new(5);
    // every row of the table
    for (n, rows) in TABLE.iter() {
        for c in rows.chunks(50) {
            let args: Vec<Vec<f64>> = c.iter().map(|w| w.a.clone()).collect();
            for (way, vals) in ways(n, &args, &mut r) { for (w, v) in c.iter().zip(vals) { judge(n, &w.a, way, v, w.v, w.k, tol(n), "table", cx); } }
        }
    }
    // every function returns, whatever its arguments
    let ext = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-300, -1e-300, 5e-324, 1e-12, -1e-12, 1e300, -1e300, 1e18, -1e18, 1e9, -1e9, 1e5, -1e5, -170.5, 171.0, 1.0 - 1e-16, 1.0 + 3e-16, -1.0 - 3e-16, -0.36787944117144233, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE];
    let ords = [0.0, 1.0, -1.0, 2.0, 7.0, 30.0, -30.0, 171.0, 400.0, 1e4, -1e4, 1e5, f64::NAN];
    let (tx, rx) = mpsc::channel();
    let (wx, wr) = mpsc::channel::<(u64, String)>();
    std::thread::spawn(move || {
        let mut r = Rng::new(9);
        let tid = u64::try_from(unsafe { gettid() }).unwrap_or(0);
        let mut n_calls = 0u64;
        for (n, rows) in TABLE.iter() {
            let (o, ar) = (orders(n), rows[0].a.len());
            let mut lists: Vec<Vec<f64>> = vec![vec![]];
            for i in 0..ar { lists = lists.iter().flat_map(|l| { let s: &[f64] = if i < o { &ords } else if ar - o > 1 { &ext[..28] } else { &ext }; s.iter().map(move |v| { let mut l = l.clone(); l.push(*v); l }) }).collect(); }
            r.shuffle(&mut lists);
            lists.truncate(600);
            for l in lists {
                let _ = wx.send((tid, format!("{n}({l:?})")));
                if std::panic::catch_unwind(|| ways(n, std::slice::from_ref(&l), &mut Rng::new(1))).is_err() { let _ = tx.send(Err(format!("{n}({l:?})"))); return; }
                n_calls += 1;
            }
        }
        let _ = tx.send(Ok(n_calls));
    });
    let (mut current, mut since, mut tid) = (String::new(), 0.0, 0);
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Ok(n)) => { cx.add("extreme_calls", n); break; }
            Ok(Err(w)) => { cx.violation("panic on extreme arguments", w); break; }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let mut moved = false;
                while let Ok((t, w)) = wr.try_recv() { tid = t; current = w; moved = true; }
                let used = cpu(tid);
                if moved { since = used; }
                if used - since > 8.0 { cx.violation("a call does not return", format!("{current}: {:.1} s of CPU time and still running", used - since)); break; }
            }
        }
    }
}
