//! The harness' own expression language: generator, printer, builder and reference evaluator.
//! Nothing here calls the code under test except `tool_call` for special-function leaves and
//! the constructors in `build`.
use crate::funcs::{Class, FUNS};
use crate::rng::{Rng, mix};
use std::fmt::Write as _;
use symb_anafis::{Expr, symb, visitor::ExprView};

pub const VARS: &[&str] = &["x", "y", "z", "t", "u", "w", "alpha", "v1", "a", "b", "foo", "xy", "x_1", "α", "β2", "T", "sinx", "expo", "v_max", "k_B_2"];

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Num(f64),
    Var(usize),
    Const(&'static str),
    Add(Vec<Ast>),
    Sub(Box<Ast>, Box<Ast>),
    Mul(Vec<Ast>),
    Div(Box<Ast>, Box<Ast>),
    Pow(Box<Ast>, Box<Ast>),
    Neg(Box<Ast>),
    Fun(usize, Vec<Ast>),
    /// function the tool has no definition of: evaluated as a smooth pseudo-random function of its name
    Call(String, Vec<Ast>),
    /// partial derivative of such a function with respect to the listed argument positions
    Part(String, Vec<Ast>, Vec<usize>),
    /// derivative node: inner, variable, order
    Deriv(Box<Ast>, usize, u32),
    /// opaque (derivative node, unknown function): evaluates to "unknown"
    Opaque(String),
}
use Ast::*;

pub fn const_val(n: &str) -> f64 {
    match n { "pi" | "PI" | "Pi" => std::f64::consts::PI, "e" | "E" => std::f64::consts::E, _ => f64::NAN }
}

#[derive(Clone)]
pub struct GenCfg {
    pub vars: usize,
    pub depth: usize,
    pub elem: bool,
    pub step: bool,
    pub special: bool,
    pub consts: bool,
    pub max_nary: usize,
    /// 0 = small ints and simple fractions only; 1 = also generic decimals; 2 = wide
    pub nums: u8,
    pub p_fun: f64,
    /// only functions for which this is true
    pub allow: fn(&str) -> bool,
    /// probability of a call of a user / unknown function
    pub calls: f64,
}
/// name, arity of the functions the tool does not know (the first two get partials registered)
pub const CALLS: &[(&str, usize)] = &[("uf1", 1), ("uf2", 2), ("uk1", 1), ("uk2", 2)];
impl Default for GenCfg {
    fn default() -> Self {
        Self { vars: 3, depth: 4, elem: true, step: false, special: false, consts: true, max_nary: 4, nums: 1, p_fun: 0.25, allow: |_| true, calls: 0.0 }
    }
}

pub fn gen_num(r: &mut Rng, mode: u8) -> f64 {
    let small = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 10.0, 12.0];
    let v = match r.below(10) {
        0..=5 => *r.pick(&small[1..]),
        6 => *r.pick(&[0.5, 0.25, 1.5, 2.5, 0.75, 0.125]),
        7 if mode >= 1 => (r.uniform(0.05, 9.5) * 1000.0).round() / 1000.0,
        8 if mode >= 1 => r.uniform(0.1, 3.0),
        8 if mode >= 2 => 10f64.powf(r.uniform(-6.0, 6.0)),
        9 if mode >= 2 => 0.0,
        _ => *r.pick(&small[1..5]),
    };
    if r.chance(0.15) { -v } else { v }
}

pub fn generate(r: &mut Rng, c: &GenCfg, depth: usize) -> Ast {
    if depth == 0 || r.chance(0.08) {
        return if r.chance(0.3) { Num(gen_num(r, c.nums)) }
        else if c.consts && r.chance(0.06) { Const(if r.chance(0.5) { "pi" } else { "e" }) }
        else { Var(r.below(c.vars)) };
    }
    if c.calls > 0.0 && r.chance(c.calls) { let (n, k) = *r.pick(CALLS); return Call(n.into(), (0..k).map(|_| generate(r, c, depth - 1)).collect()); }
    if r.chance(c.p_fun) && (c.elem || c.step || c.special) {
        for _ in 0..40 {
            let i = r.below(FUNS.len());
            let f = &FUNS[i];
            let ok = match f.class { Class::Elem => c.elem, Class::Step => c.step, Class::Special => c.special };
            if !ok || !(c.allow)(f.name) { continue; }
            let mut args = vec![];
            for k in 0..f.arity {
                if k < f.orders { args.push(Num(r.range(0, 3) as f64)); } else { args.push(generate(r, c, depth - 1)); }
            }
            return Fun(i, args);
        }
    }
    let d = depth - 1;
    match r.below(16) {
        0..=3 => Add((0..r.range(2, c.max_nary as i64)).map(|_| generate(r, c, d)).collect()),
        4 | 5 => Sub(Box::new(generate(r, c, d)), Box::new(generate(r, c, d))),
        6..=9 => Mul((0..r.range(2, c.max_nary as i64)).map(|_| generate(r, c, d)).collect()),
        10 | 11 => Div(Box::new(generate(r, c, d)), Box::new(generate(r, c, d))),
        12 | 13 => {
            let e = match r.below(10) {
                0..=5 => Num(*r.pick(&[2.0, 3.0, 2.0, 4.0, -1.0, -2.0, 5.0, 1.0, 0.0])),
                6 => Num(*r.pick(&[0.5, -0.5, 1.5, 2.5])),
                7 => Div(Box::new(Num(*r.pick(&[1.0, 1.0, 2.0, 3.0]))), Box::new(Num(*r.pick(&[2.0, 3.0, 4.0])))),
                _ => generate(r, c, d.min(1)),
            };
            Pow(Box::new(generate(r, c, d)), Box::new(e))
        }
        14 => Neg(Box::new(generate(r, c, d))),
        _ => {
            // repeated structure: like terms / common factors / shared subexpressions
            let s = generate(r, c, d.min(2));
            match r.below(5) {
                0 => Add(vec![Mul(vec![Num(gen_num(r, c.nums)), s.clone()]), generate(r, c, d.min(1)), s]),
                1 => Mul(vec![s.clone(), generate(r, c, d.min(1)), Pow(Box::new(s), Box::new(Num(r.range(1, 3) as f64)))]),
                2 => Div(Box::new(Mul(vec![s.clone(), generate(r, c, d.min(1))])), Box::new(s)),
                3 => Sub(Box::new(Mul(vec![s.clone(), generate(r, c, d.min(1))])), Box::new(Mul(vec![generate(r, c, d.min(1)), s]))),
                _ => Add(vec![Pow(Box::new(s.clone()), Box::new(Num(2.0))), Mul(vec![Num(gen_num(r, 0)), s]), Num(gen_num(r, 0))]),
            }
        }
    }
}

impl Ast {
    pub fn nodes(&self) -> usize {
        match self {
            Num(_) | Var(_) | Const(_) | Opaque(_) => 1,
            Add(v) | Mul(v) | Fun(_, v) | Call(_, v) | Part(_, v, _) => 1 + v.iter().map(Ast::nodes).sum::<usize>(),
            Sub(a, b) | Div(a, b) | Pow(a, b) => 1 + a.nodes() + b.nodes(),
            Neg(a) | Deriv(a, ..) => 1 + a.nodes(),
        }
    }
    pub fn has_opaque(&self) -> bool {
        match self {
            Opaque(_) => true,
            Num(_) | Var(_) | Const(_) => false,
            Add(v) | Mul(v) | Fun(_, v) | Call(_, v) | Part(_, v, _) => v.iter().any(Ast::has_opaque),
            Sub(a, b) | Div(a, b) | Pow(a, b) => a.has_opaque() || b.has_opaque(),
            Neg(a) | Deriv(a, ..) => a.has_opaque(),
        }
    }
    pub fn has_var(&self, i: usize) -> bool {
        match self {
            Var(k) => *k == i,
            Num(_) | Const(_) | Opaque(_) => false,
            Add(v) | Mul(v) | Fun(_, v) | Call(_, v) | Part(_, v, _) => v.iter().any(|a| a.has_var(i)),
            Sub(a, b) | Div(a, b) | Pow(a, b) => a.has_var(i) || b.has_var(i),
            Neg(a) | Deriv(a, ..) => a.has_var(i),
        }
    }
    pub fn any(&self, p: &mut dyn FnMut(&Ast) -> bool) -> bool {
        if p(self) { return true; }
        match self {
            Num(_) | Var(_) | Const(_) | Opaque(_) => false,
            Add(v) | Mul(v) | Fun(_, v) | Call(_, v) | Part(_, v, _) => v.iter().any(|a| a.any(p)),
            Sub(a, b) | Div(a, b) | Pow(a, b) => a.any(p) || b.any(p),
            Neg(a) | Deriv(a, ..) => a.any(p),
        }
    }
    pub fn hash(&self) -> u64 { let mut h = 1469598103934665603u64; for b in self.show().bytes() { h = (h ^ u64::from(b)).wrapping_mul(1099511628211); } mix(h) }
    /// children, for shrinking
    pub fn children(&self) -> Vec<Ast> {
        match self {
            Num(_) | Var(_) | Const(_) | Opaque(_) => vec![],
            Add(v) | Mul(v) | Fun(_, v) | Call(_, v) | Part(_, v, _) => v.clone(),
            Sub(a, b) | Div(a, b) | Pow(a, b) => vec![(**a).clone(), (**b).clone()],
            Neg(a) | Deriv(a, ..) => vec![(**a).clone()],
        }
    }
    pub fn with_children(&self, c: Vec<Ast>) -> Ast {
        let mut it = c.clone().into_iter();
        match self {
            Num(_) | Var(_) | Const(_) | Opaque(_) => self.clone(),
            Add(_) => Add(c), Mul(_) => Mul(c), Fun(i, _) => Fun(*i, c), Call(n, _) => Call(n.clone(), c), Part(n, _, k) => Part(n.clone(), c, k.clone()),
            Deriv(_, v, o) => Deriv(Box::new(it.next().unwrap()), *v, *o),
            Sub(..) => { let a = it.next().unwrap(); Sub(Box::new(a), Box::new(it.next().unwrap())) }
            Div(..) => { let a = it.next().unwrap(); Div(Box::new(a), Box::new(it.next().unwrap())) }
            Pow(..) => { let a = it.next().unwrap(); Pow(Box::new(a), Box::new(it.next().unwrap())) }
            Neg(_) => Neg(Box::new(it.next().unwrap())),
        }
    }
    /// one-step smaller variants
    pub fn shrinks(&self) -> Vec<Ast> {
        let mut out = self.children();
        if let Add(v) | Mul(v) = self && v.len() > 2 {
            for i in 0..v.len() { let mut w = v.clone(); w.remove(i); out.push(if matches!(self, Add(_)) { Add(w) } else { Mul(w) }); }
        }
        match self {
            Num(n) => { for c in [1.0, 2.0, n.trunc()] { if c != *n && (c.abs() < n.abs() || n.fract() != 0.0) { out.push(Num(c)); } } }
            Var(i) if *i > 0 => out.push(Var(0)),
            Const(_) => out.push(Var(0)),
            Var(_) => {}
            _ => { out.push(Var(0)); out.push(Num(1.0)); }
        }
        let ch = self.children();
        let keep = if let Fun(f, _) = self { FUNS[*f].orders } else { 0 };
        for i in keep..ch.len() {
            for s in ch[i].shrinks() { let mut w = ch.clone(); w[i] = s; out.push(self.with_children(w)); }
        }
        out
    }
    pub fn shrink(self, fails: &mut dyn FnMut(&Ast) -> bool) -> Ast {
        let mut cur = self;
        let mut budget = 600;
        'o: loop {
            let mut c = cur.shrinks();
            c.sort_by_key(Ast::nodes);
            for s in c {
                if budget == 0 { break 'o; }
                budget -= 1;
                if s != cur && (s.nodes() < cur.nodes() || s.show().len() <= cur.show().len()) && fails(&s) { cur = s; continue 'o; }
            }
            break;
        }
        cur
    }

    /// Fully parenthesised rendering in the tool's input syntax.
    pub fn show(&self) -> String { let mut s = String::new(); self.w(&mut s, 0); s }
    fn w(&self, s: &mut String, prec: u8) {
        // prec: 0 top, 1 additive operand, 2 multiplicative operand, 3 pow operand
        let p = |s: &mut String, need: bool, f: &mut dyn FnMut(&mut String)| { if need { s.push('('); } f(s); if need { s.push(')'); } };
        match self {
            Num(n) => { let neg = n.is_sign_negative(); p(s, neg && prec > 0, &mut |s| { let _ = write!(s, "{}", fmt_num(*n)); }); }
            Var(i) => s.push_str(VARS[*i]),
            Const(c) => s.push_str(c),
            Opaque(o) => s.push_str(o),
            Add(v) => p(s, prec > 0, &mut |s| for (i, a) in v.iter().enumerate() { if i > 0 { s.push_str(" + "); } a.w(s, 1); }),
            Sub(a, b) => p(s, prec > 0, &mut |s| { a.w(s, 1); s.push_str(" - "); b.w(s, 2); }),
            Mul(v) => p(s, prec > 1, &mut |s| for (i, a) in v.iter().enumerate() { if i > 0 { s.push('*'); } a.w(s, 2); }),
            Div(a, b) => p(s, prec > 1, &mut |s| { a.w(s, 2); s.push('/'); b.w(s, 3); }),
            Pow(a, b) => p(s, prec > 2, &mut |s| { a.w(s, 3); s.push('^'); b.w(s, 3); }),
            Neg(a) => p(s, prec > 0, &mut |s| { s.push('-'); a.w(s, 2); }),
            Call(n, v) => { s.push_str(n); s.push('('); for (i, a) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } a.w(s, 0); } s.push(')'); }
            Part(n, v, k) => { let _ = write!(s, "{n}'{k:?}("); for (i, a) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } a.w(s, 0); } s.push(')'); }
            Deriv(a, v, o) => { let _ = write!(s, "D[{},{}^{o}]", a.show(), VARS[*v]); }
            Fun(f, v) => { s.push_str(FUNS[*f].name); s.push('('); for (i, a) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } a.w(s, 0); } s.push(')'); }
        }
    }
    /// Build with the public operators/constructors.
    pub fn build(&self) -> Expr {
        match self {
            Num(n) => Expr::number(*n),
            Var(i) => symb(VARS[*i]).to_expr(),
            Const(c) => symb(c).to_expr(),
            Add(v) => { let mut it = v.iter(); let f = it.next().unwrap().build(); it.fold(f, |a, b| a + b.build()) }
            Sub(a, b) => a.build() - b.build(),
            Mul(v) => { let mut it = v.iter(); let f = it.next().unwrap().build(); it.fold(f, |a, b| a * b.build()) }
            Div(a, b) => a.build() / b.build(),
            Pow(a, b) => a.build().pow(b.build()),
            Neg(a) => -a.build(),
            Fun(f, v) => Expr::func_multi(FUNS[*f].name, v.iter().map(Ast::build).collect()),
            Call(n, v) => Expr::func_multi(n.as_str(), v.iter().map(Ast::build).collect::<Vec<_>>()),
            Part(n, v, k) => k.iter().fold(Call(n.clone(), v.clone()).build(), |e, i| Expr::derivative(e, format!("arg{i}"), 1)),
            Deriv(a, v, o) => Expr::derivative(a.build(), VARS[*v], *o),
            Opaque(_) => Expr::func("opaque_fn", 1.0),
        }
    }
}
pub fn fmt_num(n: f64) -> String {
    if n == 0.0 { return "0".into(); }
    let a = n.abs();
    if !(1e-5..1e15).contains(&a) { format!("{n:e}") } else { format!("{n}") }
}

/// Structural import through the public view.
pub fn from_expr(e: &Expr) -> Ast {
    match e.view() {
        ExprView::Number(n) => Num(n),
        ExprView::Symbol(s) => {
            if let Some(i) = VARS.iter().position(|v| *v == s.as_ref()) { return Var(i); }
            match s.as_ref() { "pi" | "PI" | "Pi" => Const("pi"), "e" | "E" => Const("e"), o => Opaque(o.to_string()) }
        }
        ExprView::Function { name, args } => {
            let a: Vec<Ast> = args.iter().map(|a| from_expr(a)).collect();
            let name = match name { "sen" => "sin", "sign" | "sgn" => "signum", n => n };
            match FUNS.iter().position(|f| f.name == name && f.arity == a.len()) {
                Some(i) => Fun(i, a),
                None => Call(name.to_string(), a),
            }
        }
        ExprView::Sum(t) => { let v: Vec<Ast> = t.iter().map(|a| from_expr(a)).collect(); if v.len() == 1 { v[0].clone() } else if v.is_empty() { Num(0.0) } else { Add(v) } }
        ExprView::Product(t) => { let v: Vec<Ast> = t.iter().map(|a| from_expr(a)).collect(); if v.len() == 1 { v[0].clone() } else if v.is_empty() { Num(1.0) } else { Mul(v) } }
        ExprView::Div(a, b) => Div(Box::new(from_expr(a)), Box::new(from_expr(b))),
        ExprView::Pow(a, b) => Pow(Box::new(from_expr(a)), Box::new(from_expr(b))),
        ExprView::Derivative { inner, var, order } => mk_deriv(from_expr(inner), var, order).unwrap_or_else(|| Opaque(format!("{e}"))),
    }
}
pub fn mk_deriv(inner: Ast, var: &str, order: u32) -> Option<Ast> {
    if let Some(k) = var.strip_prefix("arg").and_then(|k| k.parse::<usize>().ok()) {
        return match inner {
            Call(n, v) if k < v.len() && order < 4 => Some(Part(n, v, vec![k; order as usize])),
            Part(n, v, mut ks) if k < v.len() && order < 4 => { ks.extend(vec![k; order as usize]); Some(Part(n, v, ks)) }
            _ => None,
        };
    }
    VARS.iter().position(|v| *v == var).map(|i| Deriv(Box::new(inner), i, order))
}

// ---------------------------------------------------------------------------------------
// Reference evaluation with running error bound
// ---------------------------------------------------------------------------------------
/// value, absolute error bound. `e` infinite/NaN means "unreliable at this point".
#[derive(Clone, Copy, Debug)]
pub struct Ball { pub v: f64, pub e: f64 }
const EPS: f64 = f64::EPSILON;
pub const BAD: Ball = Ball { v: f64::NAN, e: f64::INFINITY };

impl Ball {
    pub fn exact(v: f64) -> Self { Self { v, e: 0.0 } }
    /// Defined, finite and well conditioned enough to judge anything by it.
    pub fn usable(&self, rel: f64) -> bool {
        self.v.is_finite() && self.e.is_finite() && self.v.abs() < 1e150 && self.e <= rel * self.v.abs().max(1e-3)
    }
    /// Undefined for certain: NaN here and in the whole neighbourhood the inputs could round to.
    pub fn agrees(&self, got: f64, k: f64) -> bool {
        let tol = k * (self.e + EPS * self.v.abs()) + 1e-290;
        (got - self.v).abs() <= tol
    }
}
fn rnd(v: f64, e: f64) -> Ball { if e.is_infinite() || (v.is_nan() && !e.is_nan() && e > 0.0) { BAD } else { Ball { v, e: e + EPS * v.abs() } } }
fn unknown(a: Ball, b: Ball) -> bool { a.e.is_infinite() || b.e.is_infinite() }
pub fn add(a: Ball, b: Ball) -> Ball { if unknown(a, b) { return BAD; } rnd(a.v + b.v, a.e + b.e + EPS * (a.v.abs().max(b.v.abs()))) }
pub fn neg(a: Ball) -> Ball { Ball { v: -a.v, e: a.e } }
pub fn mul(a: Ball, b: Ball) -> Ball { if unknown(a, b) { return BAD; } rnd(a.v * b.v, a.e * b.v.abs() + b.e * a.v.abs() + a.e * b.e) }
pub fn div(a: Ball, b: Ball) -> Ball {
    if unknown(a, b) { return BAD; }
    if b.v.is_nan() || a.v.is_nan() { return Ball { v: f64::NAN, e: f64::NAN }; }
    if b.v == 0.0 && b.e == 0.0 { return Ball { v: a.v / b.v, e: f64::NAN }; }
    if b.e >= b.v.abs() * 0.5 && b.e > 0.0 { return BAD; }
    let v = a.v / b.v;
    rnd(v, (a.e + v.abs() * b.e) / (b.v.abs() - b.e).max(0.0) + 2.0 * EPS * v.abs())
}
pub fn sample(f: &dyn Fn(f64) -> f64, x: Ball, ulps: f64) -> Ball {
    let v = f(x.v);
    if x.e == 0.0 { return Ball { v, e: ulps * EPS * v.abs() + if v.is_nan() { f64::NAN } else { 0.0 } }; }
    let (l, h) = (f(x.v - 2.0 * x.e), f(x.v + 2.0 * x.e));
    if v.is_nan() && l.is_nan() && h.is_nan() { return Ball { v, e: f64::NAN }; }
    if v.is_nan() || l.is_nan() || h.is_nan() { return BAD; }
    let e = (v - l).abs().max((v - h).abs());
    Ball { v, e: e + ulps * EPS * v.abs() }
}
pub fn powb(a: Ball, b: Ball) -> Ball {
    if unknown(a, b) { return BAD; }
    if a.v.is_nan() || b.v.is_nan() { return Ball { v: f64::NAN, e: f64::NAN }; }
    let v = a.v.powf(b.v);
    let mut e: f64 = 0.0;
    if a.e > 0.0 { for s in [-2.0, 2.0] { e = e.max((v - (a.v + s * a.e).powf(b.v)).abs()); if (a.v + s * a.e).powf(b.v).is_nan() { e = f64::INFINITY; } } }
    if b.e > 0.0 { for s in [-2.0, 2.0] { let w = a.v.powf(b.v + s * b.e); e = e.max((v - w).abs()); if w.is_nan() && !v.is_nan() { e = f64::INFINITY; } } }
    // computed exponent next to an integer over a negative base, e.g. (-8)^(1/3): unreliable
    if a.v <= 0.0 && b.v.fract() != 0.0 { return if b.e > 0.0 || a.v + 2.0 * a.e > 0.0 { BAD } else { Ball { v, e: f64::NAN } }; }
    // repeated squaring for integer powers looses about |b| ulps
    let k = 4.0 + if b.v.abs() < 64.0 { b.v.abs() } else { 4.0 };
    Ball { v, e: e + k * EPS * v.abs() }
}
thread_local! {
    /// When set, the tool's own accuracy for a special function (documented or measured, see
    /// DESIGN.md) is part of the error bound: needed wherever two *different* formulas are
    /// compared, e.g. a derivative rule against differences of the function itself.
    pub static LOOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn loose() -> bool { LOOSE.get() }
fn accuracy(name: &str) -> f64 {
    if !loose() { return 1e-11; }
    match name {
        "besselj" | "bessely" | "besseli" | "polygamma" | "digamma" | "trigamma" | "tetragamma" => 2e-6,
        "besselk" => 2e-5,
        "zeta" | "zeta_deriv" => 1e-7,
        _ => 1e-10,
    }
}
/// Evaluate f and keep the domain honest: any unreliable sub-value makes the result unreliable.
pub fn fun_ball(i: usize, a: &[Ball]) -> Ball {
    let f = &FUNS[i];
    if a.iter().any(|b| b.e.is_infinite()) { return BAD; }
    if a.iter().any(|b| b.v.is_nan()) { return Ball { v: f64::NAN, e: f64::NAN }; }
    // sampling the neighbourhood says nothing about an oscillating function unless it is small
    let monotone = matches!(f.name, "sqrt" | "cbrt" | "abs" | "exp" | "ln" | "log" | "log10" | "log2" | "sinh" | "tanh" | "asinh" | "atan" | "acosh");
    if a.iter().any(|b| (b.e > 0.02 && !monotone) || b.e > 0.02 * b.v.abs().max(0.1)) { return BAD; }
    // branch cut: the sign of a zero first argument is not determined by the mathematics
    if f.name == "atan2" && a[1].v - a[1].e <= 0.0 && a[0].v.abs() <= 2.0 * a[0].e { return BAD; }
    let mut vals: Vec<f64> = a.iter().map(|b| b.v).collect();
    let v = (f.f)(&vals);
    let mut e = f.ulps * EPS * v.abs();
    if f.class == Class::Special { e += accuracy(f.name) * if loose() && f.name.starts_with("bessel") { v.abs().max(1.0) } else { v.abs() }; }
    // formulas such as ln((x+1)/(x-1)) or 1-erf carry an absolute rounding error
    if matches!(f.name, "acoth" | "erfc" | "asech" | "acsch") { e += 4.0 * EPS; }
    for k in f.orders..a.len() {
        // the tool may evaluate e.g. 1/x first: allow for a rounding of the argument
        if a[k].e == 0.0 && f.class != Class::Step {
            for t in [1.0 + 2.0 * EPS, 1.0 - 2.0 * EPS] {
                let mut w = vals.clone(); w[k] *= t;
                let d = ((f.f)(&w) - v).abs();
                if d.is_nan() && !v.is_nan() { e = f64::INFINITY; } else { e += d; }
            }
        }
        if a[k].e == 0.0 { continue; }
        let x0 = vals[k];
        let s = sample(&|x| { let mut w = vals.clone(); w[k] = x; (f.f)(&w) }, a[k], 0.0);
        vals[k] = x0;
        if v.is_nan() && s.v.is_nan() && s.e.is_nan() { continue; }
        if !s.e.is_finite() { return BAD; }
        e += s.e;
    }
    if matches!(f.class, Class::Step) && e > 0.5 { return BAD; }
    if v.is_nan() { return Ball { v, e: f64::NAN }; }
    Ball { v, e }
}
pub fn eval(a: &Ast, x: &[f64]) -> Ball {
    match a {
        Num(n) => Ball::exact(*n),
        Var(i) => x.get(*i).map_or(BAD, |v| Ball::exact(*v)),
        Const(c) => Ball::exact(const_val(c)),
        Opaque(_) => BAD,
        Call(n, v) => { let b: Vec<Ball> = v.iter().map(|a| eval(a, x)).collect(); call_ball(n, &b, &[]) }
        Part(n, v, k) => { let b: Vec<Ball> = v.iter().map(|a| eval(a, x)).collect(); call_ball(n, &b, k) }
        Deriv(p, i, o) => match *o { 0 => eval(p, x), 1 => deval(p, x, *i).1, _ => BAD },
        Add(v) => { let mut it = v.iter(); let f = eval(it.next().unwrap(), x); let mut big = f.v.abs(); let mut s = it.fold(f, |acc, b| { let b = eval(b, x); big = big.max(b.v.abs()); add(acc, b) }); if s.e.is_infinite() { return BAD; } s.e += 2.0 * EPS * big * v.len() as f64; s }
        Sub(p, q) => add(eval(p, x), neg(eval(q, x))),
        Mul(v) => { let mut it = v.iter(); let f = eval(it.next().unwrap(), x); it.fold(f, |acc, b| mul(acc, eval(b, x))) }
        Div(p, q) => div(eval(p, x), eval(q, x)),
        Pow(p, q) => powb(eval(p, x), eval(q, x)),
        Neg(p) => neg(eval(p, x)),
        Fun(i, v) => { let b: Vec<Ball> = v.iter().map(|a| eval(a, x)).collect(); fun_ball(*i, &b) }
    }
}
/// coefficients of the pseudo-random function named n: f(a) = sin(c0 + sum c_k a_k) + c0
pub fn call_coeffs(n: &str, arity: usize) -> Vec<f64> {
    let mut h = n.bytes().fold(99, |h, b| mix(h ^ u64::from(b)));
    (0..=arity).map(|_| { h = mix(h); 0.25 + (h % 1024) as f64 / 1024.0 }).collect()
}
fn call_ball(n: &str, a: &[Ball], part: &[usize]) -> Ball {
    let c = call_coeffs(n, a.len());
    let mut s = Ball::exact(c[0]);
    for k in 0..a.len() { s = add(s, mul(Ball::exact(c[k + 1]), a[k])); }
    if s.e.is_infinite() || s.e > 0.02 { return BAD; }
    if s.v.is_nan() { return Ball { v: f64::NAN, e: f64::NAN }; }
    let t = match part.len() % 4 { 0 => s.v.sin(), 1 => s.v.cos(), 2 => -s.v.sin(), _ => -s.v.cos() };
    let mut t = Ball { v: t, e: s.e + 2.0 * EPS };
    if part.is_empty() { t = add(t, Ball::exact(c[0])); }
    for k in part { t = mul(t, Ball::exact(c[k + 1])); }
    t
}
/// True when every subexpression is finite, defined and not an exact zero divisor / log argument:
/// a "regular point" of the expression.
pub fn regular(a: &Ast, x: &[f64]) -> bool {
    let b = eval(a, x);
    if !b.v.is_finite() || !b.e.is_finite() || b.v.abs() > 1e120 || (b.v != 0.0 && b.v.abs() < 1e-120) { return false; }
    !underflow(a, b.v, x) && a.children().iter().all(|c| regular(c, x))
}
/// an exact zero that is a rounded tiny number
pub fn underflow(a: &Ast, v: f64, x: &[f64]) -> bool {
    v == 0.0 && match a {
        Pow(p, _) => eval(p, x).v != 0.0,
        Fun(i, _) => matches!(FUNS[*i].name, "exp" | "exp_polar" | "sech" | "csch" | "erfc" | "besselk" | "gamma" | "beta" | "coth"),
        Mul(v) => v.iter().all(|t| eval(t, x).v != 0.0),
        Div(p, _) => eval(p, x).v != 0.0,
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------
// Forward-mode reference derivative
// ---------------------------------------------------------------------------------------
/// (value, d/dx_i) as balls.
pub fn deval(a: &Ast, x: &[f64], i: usize) -> (Ball, Ball) {
    let zero = Ball::exact(0.0);
    match a {
        Num(_) | Const(_) => (eval(a, x), zero),
        Var(k) => (eval(a, x), Ball::exact(if *k == i { 1.0 } else { 0.0 })),
        Opaque(_) | Deriv(..) => (BAD, BAD),
        Call(n, v) | Part(n, v, _) => {
            let mut part = if let Part(_, _, k) = a { k.clone() } else { vec![] };
            let b: Vec<(Ball, Ball)> = v.iter().map(|t| deval(t, x, i)).collect();
            let vals: Vec<Ball> = b.iter().map(|t| t.0).collect();
            let val = call_ball(n, &vals, &part);
            let mut d = zero;
            for k in 0..v.len() { if v[k].has_var(i) { part.push(k); d = add(d, mul(call_ball(n, &vals, &part), b[k].1)); part.pop(); } }
            (val, d)
        }
        Add(v) => { let d: Vec<_> = v.iter().map(|t| deval(t, x, i)).collect(); d[1..].iter().fold(d[0], |acc, t| (add(acc.0, t.0), add(acc.1, t.1))) }
        Sub(p, q) => { let (p, q) = (deval(p, x, i), deval(q, x, i)); (add(p.0, neg(q.0)), add(p.1, neg(q.1))) }
        Mul(v) => { let d: Vec<_> = v.iter().map(|t| deval(t, x, i)).collect(); d[1..].iter().fold(d[0], |acc, t| (mul(acc.0, t.0), add(mul(acc.1, t.0), mul(acc.0, t.1)))) }
        Div(p, q) => { let (p, q) = (deval(p, x, i), deval(q, x, i)); let v = div(p.0, q.0); (v, div(add(p.1, neg(mul(v, q.1))), q.0)) }
        Neg(p) => { let p = deval(p, x, i); (neg(p.0), neg(p.1)) }
        Pow(p, q) => {
            let qv = q.has_var(i);
            let (pb, qb) = (deval(p, x, i), deval(q, x, i));
            let v = powb(pb.0, qb.0);
            let mut d = zero;
            if p.has_var(i) { let t = mul(qb.0, powb(pb.0, add(qb.0, Ball::exact(-1.0)))); d = add(d, mul(t, pb.1)); }
            if qv { let l = fun_ball(crate::funcs::fun_idx("ln"), &[pb.0]); d = add(d, mul(mul(v, l), qb.1)); }
            (v, d)
        }
        Fun(f, v) => {
            let b: Vec<(Ball, Ball)> = v.iter().map(|t| deval(t, x, i)).collect();
            let vals: Vec<Ball> = b.iter().map(|t| t.0).collect();
            let val = fun_ball(*f, &vals);
            let mut d = zero;
            for k in 0..v.len() {
                if !v[k].has_var(i) { continue; }
                d = add(d, mul(partial_ball(*f, &vals, k), b[k].1));
            }
            (val, d)
        }
    }
}
pub fn partial_ball(i: usize, a: &[Ball], k: usize) -> Ball {
    let f = &FUNS[i];
    if a.iter().any(|b| !b.v.is_finite() || !b.e.is_finite()) { return BAD; }
    let vals: Vec<f64> = a.iter().map(|b| b.v).collect();
    // removable singularity of the derivative formula
    if f.name == "sinc" && vals[0] == 0.0 { return BAD; }
    // differences say nothing about fast oscillation or next to a pole
    let near = match f.name {
        "zeta" | "zeta_deriv" => (vals[k] - 1.0).abs() < 0.05,
        "gamma" | "digamma" | "trigamma" | "tetragamma" | "polygamma" | "beta" => vals[k] < 0.5 && (vals[k] - vals[k].round()).abs() < 0.02,
        _ => false,
    };
    // known finding of P04 (pinned by the repository's own tests): judged separately there
    if near || (matches!(f.name, "ynm" | "spherical_harmonic") && vals[0] == vals[1].abs()) { return BAD; }
    if f.df.is_none() && !(1e-3..20.0).contains(&vals[k].abs()) { return BAD; }
    let g: Box<dyn Fn(&[f64]) -> (f64, f64)> = match f.df {
        Some(df) => Box::new(move |x: &[f64]| { let v = df(x, k); (v, 16.0 * EPS * v.abs()) }),
        None => Box::new(move |x: &[f64]| {
            let (v, e) = richardson(&|t| { let mut w = x.to_vec(); w[k] = t; (f.f)(&w) }, x[k]);
            (v, if loose() { e + accuracy(f.name) * (10.0 * v.abs() + 30.0 * if f.name == "erfc" { 1.0 } else { (f.f)(x).abs() } / x[k].abs().min(1.0)) } else { e })
        }),
    };
    let (v, mut e) = g(&vals);
    for j in 0..a.len() {
        if a[j].e == 0.0 { continue; }
        for s in [-2.0, 2.0] { let mut w = vals.clone(); w[j] += s * a[j].e; let (h, _) = g(&w); if h.is_nan() { return BAD; } e = e.max((h - v).abs() + e); }
    }
    Ball { v, e: if e.is_nan() { f64::INFINITY } else { e } }
}
/// Central differences with Richardson extrapolation; second component is an error estimate.
pub fn richardson(f: &dyn Fn(f64) -> f64, x: f64) -> (f64, f64) {
    let h0 = 1e-2 * x.abs().clamp(1e-3, 1.0);
    let (v, e) = rich(f, x, h0);
    let (w, d) = rich(f, x, h0 * 0.3);
    let (v, e) = if d < e { (w, d.max((v - w).abs().min(e))) } else { (v, e.max((v - w).abs().min(d))) };
    (v, if (v - w).abs() > 10.0 * (e + d) { f64::INFINITY } else { e })
}
fn rich(f: &dyn Fn(f64) -> f64, x: f64, h0: f64) -> (f64, f64) {
    let mut best = (f64::NAN, f64::INFINITY);
    let mut prev: Vec<f64> = vec![];
    let mut h = h0;
    for _ in 0..7 {
        let mut row = vec![(f(x + h) - f(x - h)) / (2.0 * h)];
        let mut p = 4.0;
        for j in 0..prev.len() { let v = row[j] + (row[j] - prev[j]) / (p - 1.0); row.push(v); p *= 4.0; }
        if let (Some(a), Some(b)) = (row.last(), prev.last()) { let err = (a - b).abs(); if err < best.1 { best = (*a, err); } }
        prev = row; h *= 0.5;
    }
    (best.0, best.1 * 4.0 + 1e-11 * best.0.abs())
}
/// Random evaluation point.
pub fn gen_point(r: &mut Rng, n: usize, kind: usize) -> Vec<f64> {
    (0..n).map(|_| match kind % 4 {
        0 => r.uniform(0.2, 3.0),
        1 => r.uniform(-3.0, 3.0),
        2 => r.uniform(0.05, 0.95) * if r.chance(0.3) { -1.0 } else { 1.0 },
        _ => { let m = 10f64.powf(r.uniform(-1.5, 1.5)); if r.chance(0.5) { -m } else { m } }
    }).collect()
}
