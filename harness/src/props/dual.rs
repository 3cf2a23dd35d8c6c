//! Dual numbers: every operation shadowed by error-bounded values and derivatives.
use super::{DEF, Prop};
use crate::ast::{self, BAD, Ball, add, div, fun_ball, gen_point, mul, neg, partial_ball, powb, richardson, sample};
use crate::funcs::fun_idx;
use crate::report::Cx;
use crate::rng::{Rng, mix};
use num_traits::{Bounded, Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use symb_anafis::{Dual, MathScalar};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P18", case: p18, directed: Some(directed), rule: "distinct (program of dual operations, point, seed direction, component) at which a dual number's component was compared with the reference", ..DEF }]
}
const EPS: f64 = f64::EPSILON;

#[derive(Clone, Debug, PartialEq)]
enum D { X(usize), C(f64), Un(usize, Box<D>), Ord(usize, i32, Box<D>), Bin(usize, Box<D>, Box<D>), Fma(Box<D>, Box<D>, Box<D>) }
use D::*;

type F = fn(f64) -> f64;
/// name, value, derivative, 0 = smooth where finite / 1 = jumps at integers / 2 = jumps at half-integers / 3 = not smooth at 0
const UN: &[(&str, F, F, u8)] = &[
    ("neg", |x| -x, |_| -1.0, 0), ("recip", |x| 1.0 / x, |x| -1.0 / (x * x), 0), ("sqrt", f64::sqrt, |x| 0.5 / x.sqrt(), 0), ("cbrt", f64::cbrt, |x| 1.0 / (3.0 * x.cbrt() * x.cbrt()), 0),
    ("exp", f64::exp, f64::exp, 0), ("exp2", f64::exp2, |x| x.exp2() * std::f64::consts::LN_2, 0), ("exp_m1", f64::exp_m1, f64::exp, 0),
    ("ln", f64::ln, |x| 1.0 / x, 0), ("ln_1p", f64::ln_1p, |x| 1.0 / (1.0 + x), 0), ("log2", f64::log2, |x| 1.0 / (x * std::f64::consts::LN_2), 0), ("log10", f64::log10, |x| 1.0 / (x * std::f64::consts::LN_10), 0),
    ("sin", f64::sin, f64::cos, 0), ("cos", f64::cos, |x| -x.sin(), 0), ("tan", f64::tan, |x| 1.0 / (x.cos() * x.cos()), 0),
    ("asin", f64::asin, |x| 1.0 / ((1.0 - x) * (1.0 + x)).sqrt(), 0), ("acos", f64::acos, |x| -1.0 / ((1.0 - x) * (1.0 + x)).sqrt(), 0), ("atan", f64::atan, |x| 1.0 / (1.0 + x * x), 0),
    ("sinh", f64::sinh, f64::cosh, 0), ("cosh", f64::cosh, f64::sinh, 0), ("tanh", f64::tanh, |x| 1.0 / (x.cosh() * x.cosh()), 0),
    ("asinh", f64::asinh, |x| 1.0 / x.hypot(1.0), 0), ("acosh", f64::acosh, |x| 1.0 / ((x - 1.0) * (x + 1.0)).sqrt(), 0), ("atanh", f64::atanh, |x| 1.0 / ((1.0 - x) * (1.0 + x)), 0),
    ("abs", f64::abs, f64::signum, 3), ("signum", f64::signum, |_| 0.0, 3), ("sign", f64::signum, |_| 0.0, 3),
    ("floor", f64::floor, |_| 0.0, 1), ("ceil", f64::ceil, |_| 0.0, 1), ("round", f64::round, |_| 0.0, 2), ("trunc", f64::trunc, |_| 0.0, 1), ("fract", f64::fract, |_| 1.0, 1),
    ("to_degrees", f64::to_degrees, |_| 180.0 / std::f64::consts::PI, 0), ("to_radians", f64::to_radians, |_| std::f64::consts::PI / 180.0, 0),
    ("sinc", |x| if x.abs() < 1e-3 { 1.0 - x * x / 6.0 + x * x * x * x / 120.0 } else { x.sin() / x }, |x| if x.abs() < 0.02 { -x / 3.0 + x.powi(3) / 30.0 - x.powi(5) / 840.0 } else { (x * x.cos() - x.sin()) / (x * x) }, 0),
    ("erf", |x| crate::funcs::tool_call("erf", &[x]), |x| 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp(), 0),
    ("erfc", |x| crate::funcs::tool_call("erfc", &[x]), |x| -2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp(), 0),
    ("sin_cos.0", f64::sin, f64::cos, 0), ("sin_cos.1", f64::cos, |x| -x.sin(), 0), ("signed_abs", f64::abs, f64::signum, 3), ("signed_signum", f64::signum, |_| 0.0, 3),
];
/// special functions judged against differences of the tool's own plain function
const SP: &[&str] = &["gamma", "digamma", "trigamma", "zeta", "lambertw", "elliptic_k", "elliptic_e"];
const ORD: &[&str] = &["powi", "polygamma", "bessel_j"];
const BIN: &[&str] = &["+", "-", "*", "/", "+=", "-=", "*=", "/=", "powf", "log", "atan2", "hypot", "max", "min", "abs_sub", "signed_abs_sub", "beta", "%", "%=", "copysign"];

fn run<T: MathScalar>(d: &D, x: &[Dual<T>]) -> Option<Dual<T>> {
    Some(match d {
        X(i) => x[*i],
        C(c) => Dual::constant(T::from(*c)?),
        Fma(a, b, c) => run(a, x)?.mul_add(run(b, x)?, run(c, x)?),
        Ord(k, n, a) => { let a = run(a, x)?; match ORD[*k] { "powi" => a.powi(*n), "polygamma" => a.polygamma(*n)?, _ => a.bessel_j(*n)? } }
        Un(k, a) => {
            let a = run(a, x)?;
            if *k >= UN.len() { return match SP[*k - UN.len()] { "gamma" => a.gamma(), "digamma" => a.digamma(), "trigamma" => a.trigamma(), "zeta" => a.zeta(), "lambertw" => a.lambert_w(), "elliptic_k" => a.elliptic_k(), _ => a.elliptic_e() }; }
            match UN[*k].0 {
                "neg" => -a, "recip" => a.recip(), "sqrt" => a.sqrt(), "cbrt" => a.cbrt(), "exp" => a.exp(), "exp2" => a.exp2(), "exp_m1" => a.exp_m1(), "ln" => a.ln(), "ln_1p" => a.ln_1p(), "log2" => a.log2(), "log10" => a.log10(),
                "sin" => a.sin(), "cos" => a.cos(), "tan" => a.tan(), "asin" => a.asin(), "acos" => a.acos(), "atan" => a.atan(), "sinh" => a.sinh(), "cosh" => a.cosh(), "tanh" => a.tanh(), "asinh" => a.asinh(), "acosh" => a.acosh(), "atanh" => a.atanh(),
                "abs" => Float::abs(a), "signum" => Float::signum(a), "sign" => a.sign(), "floor" => a.floor(), "ceil" => a.ceil(), "round" => a.round(), "trunc" => a.trunc(), "fract" => a.fract(), "to_degrees" => a.to_degrees(), "to_radians" => a.to_radians(),
                "sinc" => a.sinc(), "erf" => a.erf(), "erfc" => a.erfc(), "sin_cos.0" => a.sin_cos().0, "sin_cos.1" => a.sin_cos().1, "signed_abs" => Signed::abs(&a), "signed_signum" => Signed::signum(&a),
                n => unreachable!("{n}"),
            }
        }
        Bin(k, a, b) => {
            let (a, b) = (run(a, x)?, run(b, x)?);
            let mut m = a;
            match BIN[*k] {
                "+" => a + b, "-" => a - b, "*" => a * b, "/" => a / b, "+=" => { m += b; m } "-=" => { m -= b; m } "*=" => { m *= b; m } "/=" => { m /= b; m }
                "powf" => a.powf(b), "log" => a.log(b), "atan2" => a.atan2(b), "hypot" => a.hypot(b), "max" => Float::max(a, b), "min" => Float::min(a, b), "abs_sub" => Float::abs_sub(a, b), "signed_abs_sub" => Signed::abs_sub(&a, &b),
                "beta" => a.beta(b)?, "%" => a % b, "%=" => { m %= b; m } "copysign" => a.copysign(b),
                n => unreachable!("{n}"),
            }
        }
    })
}
fn widen(b: Ball) -> Ball { Ball { v: b.v, e: b.e.max(2.0 * EPS * b.v.abs()) } }
/// reference (value, derivative); BAD where the point is not smooth or not well conditioned
fn reference(d: &D, x: &[(f64, f64)]) -> (Ball, Ball) {
    let bad = (BAD, BAD);
    match d {
        X(i) => (Ball::exact(x[*i].0), Ball::exact(x[*i].1)),
        C(c) => (Ball::exact(*c), Ball::exact(0.0)),
        Fma(a, b, c) => { let (a, b, c) = (reference(a, x), reference(b, x), reference(c, x)); let (v, t) = times(a, b); (add(v, c.0), add(t, c.1)) }
        Ord(k, n, a) => {
            let a = reference(a, x);
            if !fine(a.0) { return bad; }
            match ORD[*k] {
                "powi" => {
                    if *n == 0 { return (Ball::exact(1.0), Ball::exact(0.0)); }
                    if a.0.v == 0.0 && *n < 0 { return bad; }
                    let e = Ball::exact(<f64 as From<_>>::from(*n));
                    (powb(a.0, e), mul(a.1, mul(e, powb(a.0, Ball::exact(<f64 as From<_>>::from(*n) - 1.0)))))
                }
                n0 => {
                    let f = fun_idx(if n0 == "polygamma" { "polygamma" } else { "besselj" });
                    let args = [Ball::exact(<f64 as From<_>>::from(*n)), a.0];
                    if n0 == "polygamma" && a.0.v < 0.05 { return bad; }
                    (fun_ball(f, &args), mul(a.1, partial_ball(f, &args, 1)))
                }
            }
        }
        Un(k, a) => {
            let a = reference(a, x);
            if !fine(a.0) || a.1.e.is_infinite() { return bad; }
            if *k >= UN.len() {
                let n = SP[*k - UN.len()];
                if n.starts_with("elliptic") && (1.0 - a.0.v.abs()).abs() < 1e-2 { return bad; }
                if matches!(n, "digamma" | "trigamma") && a.0.v < 0.05 || n == "lambertw" && a.0.v < -0.36 { return bad; }
                let f = fun_idx(n);
                return (fun_ball(f, &[a.0]), mul(a.1, partial_ball(f, &[a.0], 0)));
            }
            let (n, f, df, jump) = UN[*k];
            let near = |p: f64| (a.0.v - p).abs() <= 1e-9 + 4.0 * a.0.e;
            if jump == 1 && near(a.0.v.round()) || jump == 2 && near(a.0.v.floor() + 0.5) || jump == 3 && near(0.0) { return bad; }
            let mono = matches!(n, "neg" | "sqrt" | "cbrt" | "exp" | "ln" | "exp2" | "exp_m1" | "ln_1p" | "log2" | "log10" | "abs" | "tanh" | "atan" | "to_degrees" | "to_radians");
            if (a.0.e > 0.02 && !mono) || a.0.e > 0.02 * a.0.v.abs().max(0.1) { return bad; }
            let (mut v, mut t) = (sample(&|x| f(x), widen(a.0), 8.0), sample(&|x| df(x), widen(a.0), 16.0));
            if !t.v.is_finite() { return bad; }
            // formulas such as 1 - tanh^2 or 1 - erf carry an absolute rounding error
            if matches!(n, "tanh" | "sinc") { t.e += 4.0 * EPS; }
            if n == "sinc" { t.e += 1e-12; v.e += 4.0 * EPS; }
            if matches!(n, "erf" | "erfc") { v.e += 1e-12; }
            (v, mul(a.1, t))
        }
        Bin(k, a, b) => {
            let fixed = !moves(b, x);
            let (a, b) = (reference(a, x), reference(b, x));
            if !fine(a.0) || !fine(b.0) { return bad; }
            let apart = (a.0.v - b.0.v).abs() > 4.0 * (a.0.e + b.0.e) + 1e-9;
            match BIN[*k] {
                "+" | "+=" => (add(a.0, b.0), add(a.1, b.1)),
                "-" | "-=" => (add(a.0, neg(b.0)), add(a.1, neg(b.1))),
                "*" | "*=" => times(a, b),
                "/" | "/=" => { if b.0.v == 0.0 { return bad; } let v = div(a.0, b.0); (v, div(add(a.1, neg(mul(v, b.1))), b.0)) }
                "powf" => {
                    let v = powb(a.0, b.0);
                    // smooth in the base for a constant integer exponent, in both for a positive base
                    if fixed && b.0.e == 0.0 {
                        if a.0.v <= 4.0 * a.0.e && !(b.0.v.fract() == 0.0 && b.0.v.abs() < 1e3 && (b.0.v >= 1.0 || a.0.v != 0.0)) { return bad; }
                        return (v, mul(a.1, mul(b.0, powb(a.0, Ball::exact(b.0.v - 1.0)))));
                    }
                    if a.0.v <= 8.0 * a.0.e || a.0.v < 1e-100 { return bad; }
                    let l = fun_ball(fun_idx("ln"), &[a.0]);
                    // exp(n ln x) looses digits in proportion to its exponent
                    let grow = 1.0 + (b.0.v * l.v).abs();
                    let mut v = v; v.e += grow * 4.0 * EPS * v.v.abs();
                    let r = add(mul(b.1, l), mul(b.0, div(a.1, a.0)));
                    (v, mul(v, r))
                }
                "log" => {
                    let ln = fun_idx("ln");
                    if a.0.v <= 0.0 || b.0.v <= 0.0 { return bad; }
                    let (la, lb) = (fun_ball(ln, &[a.0]), fun_ball(ln, &[b.0]));
                    let v = div(la, lb);
                    (v, div(add(div(a.1, a.0), neg(mul(v, div(b.1, b.0)))), lb))
                }
                "atan2" => {
                    if b.0.v <= 4.0 * b.0.e && a.0.v.abs() <= 1e-9 + 4.0 * a.0.e { return bad; }
                    let r2 = add(mul(a.0, a.0), mul(b.0, b.0));
                    (fun_ball(fun_idx("atan2"), &[a.0, b.0]), div(add(mul(b.0, a.1), neg(mul(a.0, b.1))), r2))
                }
                "hypot" => {
                    let h = a.0.v.hypot(b.0.v);
                    if h <= 8.0 * (a.0.e + b.0.e) || h < 1e-100 { return bad; }
                    let h = Ball { v: h, e: a.0.e + b.0.e + 4.0 * EPS * h };
                    (h, div(add(mul(a.0, a.1), mul(b.0, b.1)), h))
                }
                "max" => if !apart { bad } else if a.0.v > b.0.v { a } else { b },
                "min" => if !apart { bad } else if a.0.v < b.0.v { a } else { b },
                "abs_sub" | "signed_abs_sub" => if !apart { bad } else if a.0.v > b.0.v { (add(a.0, neg(b.0)), add(a.1, neg(b.1))) } else { (Ball::exact(0.0), Ball::exact(0.0)) },
                "copysign" => { if b.0.v.abs() <= 1e-9 + 4.0 * b.0.e || a.0.v.abs() <= 1e-9 + 4.0 * a.0.e { return bad; } let s = Ball::exact(if a.0.v.signum() == b.0.v.signum() { 1.0 } else { -1.0 }); (mul(a.0, s), mul(a.1, s)) }
                "beta" => {
                    let f = fun_idx("beta");
                    if a.0.v < 0.05 || b.0.v < 0.05 { return bad; }
                    (fun_ball(f, &[a.0, b.0]), add(mul(a.1, partial_ball(f, &[a.0, b.0], 0)), mul(b.1, partial_ball(f, &[a.0, b.0], 1))))
                }
                // documented as not differentiable: value only
                "%" | "%=" => { let q = a.0.v / b.0.v; if !q.is_finite() || (q - q.round()).abs() < 1e-6 * q.abs().max(1.0) || b.0.e > 0.0 && q.abs() > 1e3 { return bad; } (Ball { v: a.0.v % b.0.v, e: a.0.e + (q.abs() + 1.0) * b.0.e }, BAD) }
                n => unreachable!("{n}"),
            }
        }
    }
}
/// does it depend on an input that is being differentiated along?
fn moves(d: &D, x: &[(f64, f64)]) -> bool { match d { X(i) => x[*i].1 != 0.0, _ => kids(d).iter().any(|k| moves(k, x)) } }
fn tame(d: &D, x: &[(f64, f64)]) -> bool { let (v, t) = reference(d, x); v.v.abs() < 30.0 && t.v.abs() < 30.0 && v.e <= 1e-7 * v.v.abs() && t.e <= 1e-7 * t.v.abs() && kids(d).iter().all(|k| tame(k, x)) }
fn times(a: (Ball, Ball), b: (Ball, Ball)) -> (Ball, Ball) { (mul(a.0, b.0), add(mul(a.1, b.0), mul(a.0, b.1))) }
fn fine(b: Ball) -> bool { b.v.is_finite() && b.e.is_finite() && b.v.abs() < 1e120 && (b.v == 0.0 || b.v.abs() > 1e-120) }

fn show(d: &D) -> String {
    match d {
        X(i) => format!("x{i}"), C(c) => format!("{c:?}"), Fma(a, b, c) => format!("mul_add({}, {}, {})", show(a), show(b), show(c)), Ord(k, n, a) => format!("{}({n}, {})", ORD[*k], show(a)),
        Un(k, a) => format!("{}({})", if *k < UN.len() { UN[*k].0 } else { SP[*k - UN.len()] }, show(a)),
        Bin(k, a, b) => if BIN[*k].len() <= 2 { format!("({} {} {})", show(a), BIN[*k], show(b)) } else { format!("{}({}, {})", BIN[*k], show(a), show(b)) },
    }
}
fn kids(d: &D) -> Vec<D> { match d { X(_) | C(_) => vec![], Un(_, a) | Ord(_, _, a) => vec![(**a).clone()], Bin(_, a, b) => vec![(**a).clone(), (**b).clone()], Fma(a, b, c) => vec![(**a).clone(), (**b).clone(), (**c).clone()] } }
fn special(d: &D) -> bool { matches!(d, Un(k, _) if *k >= UN.len()) || matches!(d, Ord(1..=2, ..)) || matches!(d, Bin(16, ..)) || matches!(d, Un(k, _) if UN.get(*k).is_some_and(|u| u.0.starts_with("erf"))) || kids(d).iter().any(special) }
fn stepy(d: &D) -> bool { matches!(d, Un(k, _) if UN.get(*k).is_some_and(|u| u.3 > 0)) || matches!(d, Bin(12..=15 | 17..=19, ..)) || kids(d).iter().any(stepy) }
fn generate(r: &mut Rng, depth: usize, n: usize, sp: bool) -> D {
    if depth == 0 || r.chance(0.06) { return if r.chance(0.25) { C(*r.pick(&[0.0, 1.0, 2.0, 3.0, -1.0, 0.5, -2.0, 1.5, 10.0, 0.25, -0.3])) } else { X(r.below(n)) }; }
    let mut g = |r: &mut Rng| Box::new(generate(r, depth - 1, n, sp));
    match r.below(20) {
        0..=7 => Un(r.below(UN.len()), g(r)),
        8 if sp => Un(UN.len() + r.below(SP.len()), g(r)),
        9 if sp => { let k = 1 + r.below(2); Ord(k, if k == 1 { r.range(0, 3) } else { r.range(-3, 4) } as i32, g(r)) }
        8 | 9 | 10 => Ord(0, *r.pick(&[0, 1, 2, 3, -1, -2, 4, 7, -5, 12]), g(r)),
        11 => Fma(g(r), g(r), g(r)),
        12 | 13 => { let mut k = r.below(BIN.len()); if !sp && k == 16 { k = 8; } Bin(k, g(r), g(r)) }
        14 => { let n = C(*r.pick(&[2.0, 3.0, -1.0, 0.5, 1.5, -2.0, 0.0, 1.0])); Bin(8, g(r), Box::new(n)) }
        _ => Bin(r.below(8), g(r), g(r)),
    }
}
const K: f64 = 64.0;
fn judge(cx: &mut Cx, d: &D, x: &[(f64, f64)], got: Option<(f64, f64)>) -> Option<String> {
    let (v, t) = reference(d, x);
    if !fine(v) || !v.usable(1e-6) { cx.count("skipped"); return None; }
    // every intermediate value has to be a regular one
    if !regular(d, x) { cx.count("skipped"); return None; }
    let Some((gv, ge)) = got else { return Some(format!("is None, reference {v:?}")) };
    if !v.agrees(gv, K) { return Some(format!("value {gv:?}, reference {v:?}")); }
    cx.count("values");
    if fine(t) && t.usable(1e-5) {
        if !t.agrees(ge, K) { return Some(format!("derivative {ge:?}, reference {t:?}")); }
        cx.count("derivatives");
    }
    None
}
fn regular(d: &D, x: &[(f64, f64)]) -> bool { let (v, t) = reference(d, x); fine(v) && (!t.v.is_finite() || fine(t) || t.v == 0.0) && !t.v.is_infinite() && kids(d).iter().all(|k| regular(k, x)) }

fn p18(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let sp = r.chance(0.25);
    ast::LOOSE.set(true);
    let n = r.range(1, 3) as usize;
    let depth = r.range(1, if sp { 3 } else { 5 }) as usize;
    let d = generate(&mut r, depth, n, sp);
    let sp = special(&d);
    let h = show(&d).bytes().fold(3, |h, b| mix(h ^ <u64 as From<u8>>::from(b)));
    for k in 0..8usize {
        let mut pt = gen_point(&mut r, n, k);
        for p in &mut pt { match r.below(10) { 0 => *p = *r.pick(&[0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0]), 1 => *p = *r.pick(&[1e-9, -3e-7, 1e-5, 2e-10, -1e-4, 5e-3]), 2 => *p *= *r.pick(&[10.0, 100.0, 1e5]), _ => {} } }
        let x: Vec<(f64, f64)> = pt.iter().enumerate().map(|(i, p)| (*p, if n == 1 || r.chance(0.3) { if i == 0 { 1.0 } else { 0.0 } } else { *r.pick(&[1.0, 0.0, -1.0, 2.0, 0.37, -5.5]) })).collect();
        let duals: Vec<Dual<f64>> = x.iter().map(|(v, e)| Dual::new(*v, *e)).collect();
        let got = run(&d, &duals).map(|g| (g.val, g.eps));
        let before = cx.counters.get("values").copied().unwrap_or(0);
        if let Some(m) = judge(cx, &d, &x, got) {
            // shrink to the innermost wrong operation
            let mut cur = d.clone();
            'o: loop { for k in kids(&cur) { let g = run(&k, &duals).map(|g| (g.val, g.eps)); if judge(cx, &k, &x, g).is_some() { cur = k; continue 'o; } } break; }
            let g = run(&cur, &duals).map(|g| (g.val, g.eps));
            let what = judge(cx, &cur, &x, g).unwrap_or_default();
            let op = show(&cur); let op = op.split('(').next().unwrap_or("").to_string();
            cx.violation(format!("dual number wrong: {op}"), format!("{} at {x:?}: {m}; innermost {}: {what}", show(&d), show(&cur)));
            return;
        }
        if cx.counters.get("values").copied().unwrap_or(0) == before { continue; }
        cx.observed(mix(h ^ pt.iter().fold(5, |h, p| mix(h ^ p.to_bits()))));
        cx.sample(|| format!("{} at {x:?} -> {got:?}", show(&d)));
        // duals of duals: second derivative along the same direction
        if !sp && !stepy(&d) {
            let dd: Vec<Dual<Dual<f64>>> = x.iter().map(|(v, e)| Dual::new(Dual::new(*v, *e), Dual::new(*e, 0.0))).collect();
            let Some(g) = run(&d, &dd) else { cx.violation("nested dual is None", show(&d)); return };
            let (_, t) = reference(&d, &x);
            if fine(t) && t.usable(1e-5) {
                for (what, v) in [("inner", g.val.eps), ("outer", g.eps.val)] { if !t.agrees(v, 4.0 * K) { cx.violation("nested dual: first derivative wrong", format!("{what}: {} at {x:?}: {v}, reference {t:?}", show(&d))); return; } }
                cx.count("nested_first");
                let (w, e) = richardson(&|s| { let y: Vec<(f64, f64)> = x.iter().map(|(v, e)| (v + (s - 1.0) * e * 0.1, *e)).collect(); let (_, t) = reference(&d, &y); if fine(t) { t.v } else { f64::NAN } }, 1.0);
                let (w, e) = (w * 10.0, e * 10.0);
                let scale = w.abs().max(t.v.abs()).max(1e-3);
                if e.is_finite() && e < 1e-5 * scale && tame(&d, &x) && x.iter().all(|p| p.0.abs() > 0.05) {
                    cx.count("nested_second");
                    if (g.eps.eps - w).abs() > 1e-4 * scale + 10.0 * e { cx.violation("nested dual: second derivative wrong", format!("{} at {x:?}: {}, differences {w} +- {e}", show(&d), g.eps.eps)); return; }
                }
            }
        }
    }
    if r.chance(0.1) { plain(&mut r, cx); }
}
/// comparisons, predicates and conversions act on the value
fn plain(r: &mut Rng, cx: &mut Cx) {
    let pick = |r: &mut Rng| match r.below(8) { 0 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 5e-324, f64::EPSILON]), 1 => r.range(-100, 100) as f64, 2 => r.uniform(-1e19, 1e19), _ => r.uniform(-50.0, 50.0) };
    let (a, b) = (pick(r), pick(r));
    let (x, y) = (Dual::new(a, r.uniform(-3.0, 3.0)), Dual::new(b, r.uniform(-3.0, 3.0)));
    let nb = |v: f64| if v.is_nan() { u64::MAX } else { v.to_bits() };
    let mut bad: Vec<String> = vec![];
    let mut t = |what: &str, ok: bool| if !ok { bad.push(what.to_string()); };
    if a != b { t("partial_cmp", x.partial_cmp(&y) == a.partial_cmp(&b)); t("<", (x < y) == (a < b)); t(">=", (x >= y) == (a >= b)); t("==", x != y); }
    t("is_nan", Float::is_nan(x) == a.is_nan()); t("is_infinite", Float::is_infinite(x) == a.is_infinite()); t("is_finite", Float::is_finite(x) == a.is_finite()); t("is_normal", Float::is_normal(x) == a.is_normal()); t("classify", Float::classify(x) == a.classify());
    t("is_sign_positive", Float::is_sign_positive(x) == a.is_sign_positive()); t("is_sign_negative", Float::is_sign_negative(x) == a.is_sign_negative()); t("integer_decode", Float::integer_decode(x) == Float::integer_decode(a));
    t("to_i64", x.to_i64() == a.to_i64()); t("to_u64", x.to_u64() == a.to_u64()); t("to_i32", x.to_i32() == a.to_i32()); t("to_f64", nb(x.to_f64().unwrap()) == nb(a)); t("to_f32", x.to_f32().map(f32::to_bits) == a.to_f32().map(f32::to_bits) || a.is_nan());
    t("max", nb(Float::max(x, y).val) == nb(a.max(b)) || a == b); t("min", nb(Float::min(x, y).val) == nb(a.min(b)) || a == b);
    t("abs of a plain", nb(Float::abs(x).val) == nb(a.abs())); t("signum value", nb(Float::signum(x).val) == nb(a.signum()));
    for (n, g, w) in [("floor", x.floor(), a.floor()), ("ceil", x.ceil(), a.ceil()), ("round", x.round(), a.round()), ("trunc", x.trunc(), a.trunc()), ("fract", x.fract(), a.fract())] { t(n, nb(g.val) == nb(w)); }
    t("is_positive", a == 0.0 || a.is_nan() || Signed::is_positive(&x) == (a > 0.0)); t("is_negative", a == 0.0 || a.is_nan() || Signed::is_negative(&x) == (a < 0.0));
    let k = r.range(-1 << 40, 1 << 40);
    t("from_i64", Dual::<f64>::from_i64(k) == Some(Dual::constant(k as f64))); t("from_u64", Dual::<f64>::from_u64(k.unsigned_abs()) == Some(Dual::constant(k.unsigned_abs() as f64))); t("from_f64", Dual::<f64>::from_f64(b).is_some_and(|d| nb(d.val) == nb(b) && d.eps == 0.0));
    t("NumCast", <Dual<f64> as NumCast>::from(k).is_some_and(|d| d == Dual::constant(k as f64))); t("NumCast of dual", a.is_nan() || <Dual<f64> as NumCast>::from(x).is_some_and(|d| d.val == a && d.eps == 0.0));
    t("from_str_radix", a.is_nan() || !a.is_finite() || Dual::<f64>::from_str_radix(&format!("{k}"), 10) .is_ok_and(|d| d == Dual::constant(k as f64)));
    t("zero one", Dual::<f64>::zero() == Dual::constant(0.0) && Dual::<f64>::one() == Dual::constant(1.0) && Dual::<f64>::zero().is_zero() && !Dual::new(1.0, 0.0).is_zero());
    t("x + 0, x * 1", a.is_nan() || ((x + Dual::zero()).val == a && (x * Dual::one()).val == a && (x + Dual::zero()).eps == x.eps));
    t("Display", format!("{}", Dual::new(1.5, -2.0)).contains("1.5") && format!("{}", Dual::new(1.5, -2.0)).contains("-2"));
    cx.add("plain_comparisons", 40);
    for w in bad { cx.violation(format!("dual number does not act like its value: {w}"), format!("{w}: {x:?}, {y:?}, {k}")); }
}
fn directed(cx: &mut Cx) {
    let c = |n: &str, got: Dual<f64>, want: f64, cx: &mut Cx| { cx.count("constants"); if got.val.to_bits() != want.to_bits() && !(got.val.is_nan() && want.is_nan()) || got.eps != 0.0 { cx.violation(format!("constant {n} of dual numbers wrong"), format!("{got:?} instead of {want:?}")); } };
    macro_rules! consts { ($($n:ident)*) => { $( c(stringify!($n), <Dual<f64> as FloatConst>::$n(), <f64 as FloatConst>::$n(), cx); )* } }
    consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_2 LOG10_E LOG2_10 LOG2_E PI SQRT_2 TAU);
    c("nan", Float::nan(), f64::NAN, cx); c("infinity", Float::infinity(), f64::INFINITY, cx); c("neg_infinity", Float::neg_infinity(), f64::NEG_INFINITY, cx); c("neg_zero", Float::neg_zero(), -0.0, cx);
    c("min_value", Float::min_value(), f64::MIN, cx); c("max_value", Float::max_value(), f64::MAX, cx); c("Bounded::min", Bounded::min_value(), f64::MIN, cx); c("Bounded::max", Bounded::max_value(), f64::MAX, cx);
    c("min_positive_value", Float::min_positive_value(), f64::MIN_POSITIVE, cx); c("epsilon", Float::epsilon(), f64::EPSILON, cx);
    // points where closed forms divide by zero although the function is smooth
    let pi = std::f64::consts::PI;
    let mut at = |what: String, got: Option<Dual<f64>>, v: f64, e: f64| {
        cx.count("closed_forms");
        let bad = |g: f64, w: f64| !((g - w).abs() <= 1e-7 * w.abs().max(1.0));
        match got { Some(g) if !bad(g.val, v) && !bad(g.eps, 3.0 * e) => {} g => cx.violation(format!("dual number wrong: {}", what.split('(').next().unwrap_or("")), format!("{what} along 3: {g:?}, should be {v} and {}", 3.0 * e)) }
    };
    for tiny in [0.0, -0.0, 1e-300, -1e-12, 1e-11, 3e-9, -1e-8] {
        let x = Dual::new(tiny, 3.0);
        for n in -4..=5 { let (v, e) = match n { 0 => (1.0, 0.0), 1 => (0.0, 0.5), -1 => (0.0, -0.5), _ => (0.0, 0.0) }; at(format!("bessel_j({n}, {tiny:e})"), x.bessel_j(n), v, e); }
        for (n, g, v, e) in [("sin", x.sin(), 0.0, 1.0), ("cos", x.cos(), 1.0, 0.0), ("tan", x.tan(), 0.0, 1.0), ("asin", x.asin(), 0.0, 1.0), ("acos", x.acos(), pi / 2.0, -1.0), ("atan", x.atan(), 0.0, 1.0), ("sinh", x.sinh(), 0.0, 1.0), ("cosh", x.cosh(), 1.0, 0.0), ("tanh", x.tanh(), 0.0, 1.0), ("asinh", x.asinh(), 0.0, 1.0), ("atanh", x.atanh(), 0.0, 1.0),
            ("exp", x.exp(), 1.0, 1.0), ("exp2", x.exp2(), 1.0, std::f64::consts::LN_2), ("exp_m1", x.exp_m1(), 0.0, 1.0), ("ln_1p", x.ln_1p(), 0.0, 1.0), ("sinc", x.sinc(), 1.0, 0.0), ("erf", x.erf(), 0.0, 2.0 / pi.sqrt()), ("erfc", x.erfc(), 1.0, -2.0 / pi.sqrt()),
            ("powi 1", x.powi(1), 0.0, 1.0), ("powi 2", x.powi(2), 0.0, 0.0), ("powi 3", x.powi(3), 0.0, 0.0), ("powi 0", x.powi(0), 1.0, 0.0), ("powf 1", x.powf(Dual::constant(1.0)), 0.0, 1.0), ("powf 2", x.powf(Dual::constant(2.0)), 0.0, 0.0), ("powf 3", x.powf(Dual::constant(3.0)), 0.0, 0.0), ("powf 0", x.powf(Dual::constant(0.0)), 1.0, 0.0),
            ("atan2 with 1", x.atan2(Dual::constant(1.0)), 0.0, 1.0), ("hypot with 1", x.hypot(Dual::constant(1.0)), 1.0, 0.0), ("hypot of 1", Dual::constant(1.0).hypot(x), 1.0, 0.0), ("mul", x * x, 0.0, 0.0), ("mul_add", x.mul_add(x, x), 0.0, 1.0)] { at(format!("{n}({tiny:e})"), Some(g), v, e); }
        at(format!("lambert_w({tiny:e})"), x.lambert_w(), 0.0, 1.0);
        at(format!("elliptic_k({tiny:e})"), x.elliptic_k(), pi / 2.0, 0.0);
        at(format!("elliptic_e({tiny:e})"), x.elliptic_e(), pi / 2.0, 0.0);
        at(format!("zeta({tiny:e})"), x.zeta(), -0.5, -0.5 * (2.0 * pi).ln());
    }
    let eg = 0.577_215_664_901_532_9;
    for (n, x) in [(0.0, 1.0), (1.0, 2.0)] { at(format!("gamma({x})"), Dual::new(x, 3.0).gamma(), 1.0, n - eg); at(format!("digamma({x})"), Dual::new(x, 3.0).digamma(), n - eg, pi * pi / 6.0 - n); }
    at("lambert_w(e)".into(), Dual::new(1f64.exp(), 3.0).lambert_w(), 1.0, 0.5 / 1f64.exp());
    at("beta(1, 1)".into(), Dual::new(1.0, 3.0).beta(Dual::constant(1.0)), 1.0, -1.0);
    at("log(1)".into(), Some(Dual::new(1.0, 3.0).log(Dual::constant(10.0))), 0.0, 1.0 / 10f64.ln());
    at("acosh(2)".into(), Some(Dual::new(2.0, 3.0).acosh()), 2f64.acosh(), 1.0 / 3f64.sqrt());
    // values whose squares overflow
    let h = Dual::new(3e200, 1.0).hypot(Dual::new(4e200, 1.0));
    if (h.val / 5e200 - 1.0).abs() > 1e-12 || (h.eps - 1.4).abs() > 1e-12 { cx.violation("dual number wrong: hypot", format!("hypot(3e200, 4e200) = {h:?}")); }
    for n in [i32::MIN, i32::MIN + 1, i32::MAX] { let g = Dual::new(1.0, 1.0).powi(n); if g.val != 1.0 || (g.eps / <f64 as From<_>>::from(n) - 1.0).abs() > 1e-9 { cx.violation("dual number wrong: powi", format!("1^{n} = {g:?}")); } }
    cx.add("judged", 40);
}
