//! Function table of the reference evaluator: independent std-only definitions of the
//! elementary functions and their derivatives; special functions go through the tool's own
//! numeric definition of the *single call* (their accuracy is a property of its own).
use std::collections::HashMap;
use symb_anafis::Expr;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class { Elem, Step, Special }

pub struct Fun {
    pub name: &'static str,
    pub arity: usize,
    pub class: Class,
    /// Integer "order" arguments come first: how many.
    pub orders: usize,
    pub f: fn(&[f64]) -> f64,
    /// Partial derivative w.r.t. argument i.
    pub df: Option<fn(&[f64], usize) -> f64>,
    /// Derivative of the tool is only claimed w.r.t. non-order args.
    /// relative accuracy multiple of eps of the tool's own evaluation
    pub ulps: f64,
}

/// Numeric value the tool gives a single function call on numbers (NaN when it stays symbolic).
pub fn tool_call(name: &str, args: &[f64]) -> f64 {
    let e = Expr::func_multi(name, args.iter().map(|&a| Expr::number(a)).collect());
    let r = e.evaluate(&HashMap::<&str, f64>::new(), &HashMap::new());
    match r.view() { symb_anafis::visitor::ExprView::Number(n) => n, _ => f64::NAN }
}

macro_rules! sp {
    ($n:literal, $a:expr, $o:expr) => {
        Fun { name: $n, arity: $a, class: Class::Special, orders: $o, f: |x| tool_call($n, x), df: None, ulps: 4096.0 }
    };
}
macro_rules! el {
    ($n:literal, $f:expr, $d:expr) => {
        Fun { name: $n, arity: 1, class: Class::Elem, orders: 0, f: |x: &[f64]| { let g: fn(f64) -> f64 = $f; g(x[0]) },
              df: Some(|x: &[f64], _i| { let g: fn(f64) -> f64 = $d; g(x[0]) }), ulps: 8.0 }
    };
}
macro_rules! st {
    ($n:literal, $f:expr) => {
        Fun { name: $n, arity: 1, class: Class::Step, orders: 0, f: |x: &[f64]| { let g: fn(f64) -> f64 = $f; g(x[0]) },
              df: Some(|_x, _i| 0.0), ulps: 1.0 }
    };
}
fn sq(x: f64) -> f64 { x * x }
pub static FUNS: std::sync::LazyLock<Vec<Fun>> = std::sync::LazyLock::new(|| vec![
    el!("sin", f64::sin, f64::cos),
    el!("cos", f64::cos, |x| -x.sin()),
    el!("tan", f64::tan, |x| 1.0 / sq(x.cos())),
    el!("cot", |x| x.cos() / x.sin(), |x| -1.0 / sq(x.sin())),
    el!("sec", |x| 1.0 / x.cos(), |x| x.sin() / sq(x.cos())),
    el!("csc", |x| 1.0 / x.sin(), |x| -x.cos() / sq(x.sin())),
    el!("asin", f64::asin, |x| 1.0 / (1.0 - x * x).sqrt()),
    el!("acos", f64::acos, |x| -1.0 / (1.0 - x * x).sqrt()),
    el!("atan", f64::atan, |x| 1.0 / (1.0 + x * x)),
    el!("acot", |x| 1f64.atan2(x), |x| -1.0 / (1.0 + x * x)),
    el!("asec", |x| (1.0 / x).acos(), |x| 1.0 / (x.abs() * (x * x - 1.0).sqrt())),
    el!("acsc", |x| (1.0 / x).asin(), |x| -1.0 / (x.abs() * (x * x - 1.0).sqrt())),
    el!("sinh", f64::sinh, f64::cosh),
    el!("cosh", f64::cosh, f64::sinh),
    el!("tanh", f64::tanh, |x| 1.0 / sq(x.cosh())),
    el!("coth", |x| 1.0 / x.tanh(), |x| -1.0 / sq(x.sinh())),
    el!("sech", |x| 1.0 / x.cosh(), |x| -x.sinh() / sq(x.cosh())),
    el!("csch", |x| 1.0 / x.sinh(), |x| -x.cosh() / sq(x.sinh())),
    el!("asinh", f64::asinh, |x| 1.0 / (x * x + 1.0).sqrt()),
    el!("acosh", f64::acosh, |x| if x > 1.0 { 1.0 / (x * x - 1.0).sqrt() } else { f64::NAN }),
    el!("atanh", f64::atanh, |x| if x.abs() < 1.0 { 1.0 / (1.0 - x * x) } else { f64::NAN }),
    el!("acoth", |x| if x.abs() > 1.0 { (1.0 / x).atanh() } else { f64::NAN }, |x| if x.abs() > 1.0 { 1.0 / (1.0 - x * x) } else { f64::NAN }),
    el!("asech", |x| if x > 0.0 && x <= 1.0 { (1.0 / x).acosh() } else { f64::NAN }, |x| if x > 0.0 && x < 1.0 { -1.0 / (x * (1.0 - x * x).sqrt()) } else { f64::NAN }),
    el!("acsch", |x| if x == 0.0 { f64::NAN } else { (1.0 / x).asinh() }, |x| -1.0 / (x.abs() * (1.0 + x * x).sqrt())),
    el!("exp", f64::exp, f64::exp),
    el!("ln", f64::ln, |x| if x > 0.0 { 1.0 / x } else { f64::NAN }),
    el!("log10", f64::log10, |x| if x > 0.0 { 1.0 / (x * std::f64::consts::LN_10) } else { f64::NAN }),
    el!("log2", f64::log2, |x| if x > 0.0 { 1.0 / (x * std::f64::consts::LN_2) } else { f64::NAN }),
    el!("sqrt", f64::sqrt, |x| if x > 0.0 { 0.5 / x.sqrt() } else { f64::NAN }),
    el!("cbrt", f64::cbrt, |x| 1.0 / (3.0 * sq(x.cbrt()))),
    el!("abs", f64::abs, |x| if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { f64::NAN }),
    el!("sinc", |x| if x.abs() < 1e-4 { 1.0 - x * x / 6.0 } else { x.sin() / x }, |x| if x.abs() < 1e-3 { -x / 3.0 } else { (x * x.cos() - x.sin()) / (x * x) }),
    st!("signum", |x| if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { f64::NAN }),
    st!("floor", f64::floor),
    st!("ceil", f64::ceil),
    st!("round", f64::round),
    Fun { name: "atan2", arity: 2, class: Class::Elem, orders: 0, f: |x| x[0].atan2(x[1]),
          df: Some(|x, i| { let d = x[0] * x[0] + x[1] * x[1]; if i == 0 { x[1] / d } else { -x[0] / d } }), ulps: 8.0 },
    Fun { name: "log", arity: 2, class: Class::Elem, orders: 0,
          f: |x| if x[0] > 0.0 && x[0] != 1.0 && x[1] > 0.0 { x[1].ln() / x[0].ln() } else { f64::NAN },
          df: Some(|x, i| { if !(x[0] > 0.0 && x[0] != 1.0 && x[1] > 0.0) { return f64::NAN; } let lb = x[0].ln();
              if i == 1 { 1.0 / (x[1] * lb) } else { -x[1].ln() / (x[0] * lb * lb) } }), ulps: 16.0 },
    sp!("erf", 1, 0), sp!("erfc", 1, 0), sp!("gamma", 1, 0), sp!("digamma", 1, 0), sp!("trigamma", 1, 0),
    sp!("tetragamma", 1, 0), sp!("zeta", 1, 0), sp!("lambertw", 1, 0), sp!("elliptic_k", 1, 0), sp!("elliptic_e", 1, 0),
    sp!("exp_polar", 1, 0),
    sp!("beta", 2, 0),
    sp!("polygamma", 2, 1), sp!("besselj", 2, 1), sp!("bessely", 2, 1), sp!("besseli", 2, 1), sp!("besselk", 2, 1),
    sp!("zeta_deriv", 2, 1), sp!("hermite", 2, 1), sp!("assoc_legendre", 3, 2),
    sp!("spherical_harmonic", 4, 2), sp!("ynm", 4, 2),
]);
pub fn fun_idx(name: &str) -> usize { FUNS.iter().position(|f| f.name == name).unwrap() }
