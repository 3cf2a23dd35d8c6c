//! Expressions shaped like the left-hand sides of rewrite rules, and near misses of them.
//! a, b, u: arbitrary subexpressions; w, t: numbers; v1, alpha: small integers.
use crate::ast::{self, Ast, GenCfg};
use crate::funcs::FUNS;
use crate::refparse::{self, Names};
use crate::rng::Rng;

const TEMPLATES: &[&str] = &[
    // numeric / algebraic
    "a + 0", "1*a", "a/1", "0/a", "a^0", "a^1", "1^a", "a/(-b)", "(-a)/b", "sqrt(9)*a", "sqrt(w)", "cbrt(w)", "0.5*a", "w*a/(t*b)", "(v1*a)/(alpha*b)",
    "exp(ln(a))", "ln(exp(a))", "exp(w*ln(a))", "exp(b*ln(a))", "a/a", "(a^v1)^alpha", "(a^w)^t", "(a^2)^(1/2)", "(a^b)^u", "a^w*a^t", "a^v1/a^alpha", "a^b*a^u", "a^b/a^u",
    "(a*b)^v1/a", "(a*b)^w/a", "a/(a*b)^w", "(a/b)^v1*b", "(a/b)^w", "a^(-v1)", "a^(-w)", "b/a^(-v1)", "(a+b)^2", "(a+b)^3", "(a-b)^3", "(a+w)^4", "(w*a+t)^3", "(a+b)*(a-b)", "(a+b)^2-(a-b)^2",
    "a*(b/u)", "(a/b)/(u/a)", "(a+b/u)/a", "(a-b/u)/b", "(a/b)/u", "a/(b/u)", "a^v1*b^v1", "a^v1/b^v1", "a^w/b^w", "sqrt(a)/sqrt(b)", "sqrt(a)*sqrt(b)", "a^(1/2)*b^(1/2)", "w*a+t*a", "w*a*b+t*b*a", "a*b-b*a", "a+a+a",
    "((1/a)*b)/u", "a+b/u", "a/b+u/b", "a/b+b/u", "a/b-u/(b*a)", "1/a+1/b", "w/a+t/b", "1/(a+1)-1/(a-1)", "a^2-b^2", "a^4-b^4", "w^2*a^2-b^2", "4*a^2-9*b^2", "a^2-w", "a^6-b^2", "a-b^2", "a^3-b", "v1*a+alpha*b", "6*a+9*b", "v1*a*b+alpha*a", "a*b+a*u", "a*b-a", "a^3+a^2", "a^v1+a^alpha", "a^v1*b+a^alpha*u", "w*a^3+t*a^2",
    "(a*b)/(a*u)", "(a^2*b)/(a*u)", "(w*a)/(t*a^2)", "(a^2*b^3)/(a^3*b)", "sqrt(a)/a", "a/sqrt(a)", "a^2/sqrt(a)", "a/a^w", "a^w/a", "(a*b)/sqrt(a)", "(a+b)/(b+a)", "(a-b)/(b-a)", "(a-b)^3/(b-a)", "(a-b)^2/(b-a)^2", "(a^2-1)/(a-1)", "(a^2-b^2)/(a-b)", "(a^2+2*a+1)/(a+1)", "(a^3-1)/(a-1)", "(a^2-w)/(a-t)", "(2*a^2+3*a+1)/(2*a+1)", "(a^3+a)/(a^2)", "(a^4-1)/(a^2-1)",
    "a^2+2*a*b+b^2", "a^2-2*a*b+b^2", "a^2+2*a+1", "4*a^2+12*a*b+9*b^2", "v1^2*a^2+2*v1*alpha*a+alpha^2", "a^2+v1*a+alpha", "w*a^2+t*a+w", "a^2+b^2+2*a*u", "a^3+b^3", "a^3-b^3", "8*a^3-27", "a^3+w", "a^3+3*a^2*b+3*a*b^2+b^3", "a^2*b^2+2*a*b+1",
    "(-a)*(-b)", "(-1)*(-1)*a", "-(a+b)", "-(a-b)", "(-a)^2", "(-a)^3", "(-a)^v1", "(-a)^w", "w*(a+b)", "w*(a-b)/t", "-(w*a)", "a-(b-u)", "a*(-b)/u",
    "abs(-3)*a", "abs(abs(a))", "abs(-a)", "abs(a^2)", "abs(a^3)", "abs(a)^2", "abs(a)^3", "abs(a)^v1", "abs(a)^w", "abs(a)^b", "signum(a)^v1", "abs(a)^(1/2)", "sqrt(abs(a))", "sqrt(abs(a)^2)", "ln(abs(a)^v1)", "abs(a*b)", "abs(a)*abs(b)", "abs(w*a)", "signum(signum(a))", "signum(abs(a))", "abs(a)*signum(a)", "abs(exp(a))", "abs(sqrt(a))", "abs(cosh(a))", "signum(-a)", "signum(w*a)", "signum(a^2)", "a/abs(a)", "abs(a)/a",
    // trigonometric
    "sin(0)+a", "sin(pi)*a", "sin(pi/2)", "cos(pi/2)*a", "sin(pi/6)*a", "cos(pi/3)", "tan(pi/4)*a", "sin(pi/4)", "cos(pi/6)", "tan(pi/3)", "sin(v1*pi/alpha)", "cos(v1*pi/alpha)", "tan(v1*pi/alpha)", "cot(v1*pi/alpha)", "sec(v1*pi/alpha)", "csc(v1*pi/alpha)", "sin(w*pi)", "asin(0.5)", "asin(1)*a", "acos(0)", "acos(1/2)", "atan(1)*a", "atan(0)", "acos(-1)",
    "sin(a)^2+cos(a)^2", "w*sin(a)^2+w*cos(a)^2", "w*sin(a)^2+t*cos(a)^2", "sin(a)^2+cos(b)^2", "1-cos(a)^2", "1-sin(a)^2", "w-w*sin(a)^2", "sin(a)^2-1", "tan(a)^2+1", "sec(a)^2-1", "sec(a)^2-tan(a)^2", "cot(a)^2+1", "csc(a)^2-1", "csc(a)^2-cot(a)^2", "1-tan(a)^2", "1-sec(a)^2", "sin(a)^2+cos(a)^2+b", "b*sin(a)^2+b*cos(a)^2", "sin(a)^v1+cos(a)^v1",
    "sin(asin(a))", "cos(acos(a))", "tan(atan(a))", "asin(sin(a))", "acos(cos(a))", "atan(tan(a))", "sin(acos(a))", "cos(asin(a))", "tan(acos(a))",
    "sin(pi/2-a)", "cos(pi/2-a)", "tan(pi/2-a)", "cot(pi/2-a)", "sec(pi/2-a)", "csc(pi/2-a)", "sin(a+pi/2)", "cos(a-pi/2)", "sin(a+2*pi)", "cos(a+4*pi)", "sin(a-2*pi)", "tan(a+pi)", "sin(a+v1*pi)", "cos(a+v1*pi)", "tan(a+v1*pi)", "sin(a+w*pi)", "sin(pi-a)", "cos(pi-a)", "tan(pi-a)", "sin(pi+a)", "cos(pi+a)", "sin(3*pi/2-a)", "cos(3*pi/2-a)", "sin(3*pi/2+a)", "sin(v1*pi/2-a)", "cos(v1*pi/2+a)",
    "sin(-a)", "cos(-a)", "tan(-a)", "cot(-a)", "sec(-a)", "csc(-a)", "sin(-w*a)", "cos(-w*a)", "sin(a-b)+sin(b-a)", "asin(-a)", "acos(-a)", "atan(-a)",
    "cos(a)^2-sin(a)^2", "sin(a)^2-cos(a)^2", "1-2*sin(a)^2", "2*cos(a)^2-1", "w*cos(a)^2-w*sin(a)^2", "cos(a)^2-sin(b)^2", "cos(a)^4-sin(a)^4", "sin(a)*cos(b)+cos(a)*sin(b)", "sin(a)*cos(b)-cos(a)*sin(b)", "cos(a)*cos(b)-sin(a)*sin(b)", "cos(a)*cos(b)+sin(a)*sin(b)", "w*sin(a)*cos(b)+w*cos(a)*sin(b)", "sin(a)*cos(b)+cos(a)*sin(u)", "(cos(a)-sin(a))*(cos(a)+sin(a))", "(cos(a)-sin(a))*(cos(b)+sin(a))", "2*sin(a)*cos(a)", "w*sin(a)*cos(a)", "sin(a)*cos(a)*b", "sin(2*a)", "cos(2*a)", "sin(2*a)/cos(a)", "2*tan(a)/(1-tan(a)^2)", "2*tan(a)/(1+tan(a)^2)",
    "3*sin(a)-4*sin(a)^3", "4*cos(a)^3-3*cos(a)", "3*sin(a)+4*sin(a)^3", "w*3*sin(a)-w*4*sin(a)^3", "3*sin(a)-4*sin(b)^3", "6*sin(a)-8*sin(a)^3", "w*sin(a)-t*sin(a)^3", "3*cos(a)-4*cos(a)^3",
    "1/cos(a)", "1/cos(a)^v1", "1/sin(a)", "1/sin(a)^2", "1/tan(a)", "1/cot(a)", "1/sec(a)", "1/csc(a)", "sin(a)/cos(a)", "cos(a)/sin(a)", "sin(a)^2/cos(a)^2", "sin(a)/cos(b)", "b*sin(a)/cos(a)", "sin(a)^3/cos(a)", "w/cos(a)", "b/(u*cos(a))", "tan(a)*cos(a)", "tan(a)/sin(a)", "sec(a)*cos(a)", "tan(a)*cot(a)", "sin(a)/tan(a)", "cot(a)*sin(a)", "csc(a)*sin(a)",
    // hyperbolic
    "sinh(0)+a", "cosh(0)*a", "sinh(asinh(a))", "cosh(acosh(a))", "tanh(atanh(a))", "asinh(sinh(a))", "acosh(cosh(a))", "atanh(tanh(a))", "cosh(a)^2-sinh(a)^2", "sinh(a)^2-cosh(a)^2", "sinh(a)^2+1", "cosh(a)^2-1", "1-tanh(a)^2", "1-sech(a)^2", "sech(a)^2+tanh(a)^2", "coth(a)^2-1", "coth(a)^2-csch(a)^2", "1+csch(a)^2", "tanh(a)^2-1", "w*cosh(a)^2-w*sinh(a)^2", "cosh(a)^2-sinh(b)^2", "cosh(a)^2+sinh(a)^2", "(cosh(a)-sinh(a))*(cosh(a)+sinh(a))", "cosh(a)+sinh(a)", "cosh(a)-sinh(a)",
    "sinh(-a)", "cosh(-a)", "tanh(-a)", "coth(-a)", "sech(-a)", "csch(-a)", "asinh(-a)", "atanh(-a)", "sinh(a)/cosh(a)", "cosh(a)/sinh(a)", "1/cosh(a)", "1/sinh(a)", "1/tanh(a)", "1/coth(a)", "1/sech(a)", "1/csch(a)", "b/cosh(a)^2", "sinh(a)*cosh(a)", "w*sinh(a)*cosh(a)", "tanh(a)*cosh(a)", "tanh(a)*coth(a)", "tanh(a)/sinh(a)",
    "(exp(a)-exp(-a))/2", "(exp(a)+exp(-a))/2", "(exp(a)-exp(-b))/2", "(e^a-e^(-a))/2", "(e^a+1/e^a)/2", "(exp(a)-1/exp(a))/2", "exp(a)-exp(-a)", "exp(a)+exp(-a)", "w*exp(a)-w*exp(-a)", "w*exp(a)+t*exp(-a)", "(exp(a)-exp(-a))/(exp(a)+exp(-a))", "(exp(a)+exp(-a))/(exp(a)-exp(-a))", "2/(exp(a)+exp(-a))", "2/(exp(a)-exp(-a))", "w/(exp(a)+exp(-a))", "(exp(2*a)+1)/(2*exp(a))", "(exp(2*a)-1)/(2*exp(a))", "(2*exp(a))/(exp(2*a)+1)", "(2*exp(a))/(exp(2*a)-1)", "(exp(2*a)-1)/(exp(2*a)+1)", "(exp(2*a)+1)/(exp(2*a)-1)", "(exp(w*a)-1)/(exp(w*a)+1)", "(exp(-a)-exp(a))/2", "(exp(2*a)-1)/(exp(2*b)+1)", "(exp(a)-1)/(exp(a)+1)", "(exp(a)-exp(-a))/w", "e^(2*a)+1", "((exp(a)-1/exp(a))*exp(a))/(exp(2*a)+1)", "((exp(a)-1/exp(a))*exp(a)*b)/(exp(2*a)+1)", "(exp(2*a)+1)/((e^a-1/e^a)*e^a*w)", "(e^(2*a)-1)/(2*e^a)", "(2*e^a)/(e^(2*a)+1)",
    "4*sinh(a)^3+3*sinh(a)", "4*cosh(a)^3-3*cosh(a)", "w*4*sinh(a)^3+w*3*sinh(a)", "8*sinh(a)^3+6*sinh(a)", "4*sinh(a)^3-3*sinh(a)",
    // exponential / logarithm
    "ln(1)+a", "ln(e)*a", "exp(0)*a", "exp(1)", "e^a*e^b", "exp(a)*exp(b)", "exp(a)/exp(b)", "exp(a)^v1", "exp(a)^b", "e^(ln(a))", "e^(w*ln(a))", "e^(ln(a)*b)", "e^(ln(a)+b)", "ln(a^v1)", "ln(a^2)", "ln(a^w)", "ln(a^b)", "ln(exp(a)^b)", "log10(a^v1)", "log2(a^3)", "log(w, a^v1)", "log(b, a^2)", "log10(1)", "log10(10)*a", "log10(w)", "log2(8)*a", "log2(1)", "log(b, b)", "log(b, 1)", "log(2, 8)", "log(10, a)", "log(v1+1, alpha)", "ln(a)+ln(b)", "ln(a)-ln(b)", "w*ln(a)+t*ln(b)", "ln(a)+ln(b)+ln(u)", "ln(a*b)", "ln(a/b)", "ln(sqrt(a))", "ln(1/a)", "ln(a)/ln(b)", "log10(a)+log10(b)", "log2(a)-log2(b)", "log10(a)-ln(b)", "10^(log10(a))", "2^(log2(a))", "log10(10^a)", "w^a*w^b", "w^a*t^a", "2^a*4^a", "ln(abs(a))", "ln(a)*b+ln(u)*b",
    // roots
    "sqrt(a^2)", "sqrt(a^3)", "sqrt(a^4)", "sqrt(a^6)", "sqrt(a^v1)", "sqrt(a^b)", "cbrt(a^3)", "cbrt(a^2)", "cbrt(a^6)", "cbrt(a^v1)", "sqrt(a)^2", "sqrt(a)^3", "sqrt(a)^v1", "sqrt(sqrt(a))", "cbrt(a)^3", "sqrt(a*b^2)", "sqrt(4*a)", "sqrt(w*a^2)", "sqrt(v1*a)", "sqrt(a^2*b)", "sqrt(a^4*b^2)", "sqrt(a^2+b^2)", "sqrt(a)*sqrt(a)", "sqrt(a)*a", "cbrt(a)*cbrt(b)", "cbrt(a)/cbrt(b)", "sqrt(a/b)", "sqrt(a^2/b)", "sqrt(1/a)", "1/sqrt(a)", "a^(1/2)", "a^(1/3)", "a^(2/3)", "a^(3/2)", "a^0.5", "a^1.5", "a^(-1/2)", "(a^2)^0.5", "(a^4)^(1/4)", "(a^3)^(1/3)", "(a*b)^(1/2)", "(a^2*b)^(1/2)", "(a/b)^0.5", "(a^2/b^2)^(1/2)", "((a+b)^2)^(1/2)", "(a^2+2*a*b+b^2)^(1/2)", "sqrt(a^2-2*a*b+b^2)", "sqrt((a-b)^2)", "sqrt(exp(a))", "sqrt(exp(2*a))", "sqrt(1-sin(a)^2)", "sqrt(1+tan(a)^2)", "sqrt(cosh(a)^2-1)", "sqrt(1+sinh(a)^2)", "a^w*b^w", "a^(1/v1)*a^(1/alpha)", "(-a)^(1/3)", "(w*a)^(1/2)", "(w*a)^t", "sqrt(-a)", "sqrt(-a*b)", "sqrt(-w*a^2)",
];
fn subst(a: &Ast, r: &mut Rng, memo: &mut Vec<(usize, Ast)>, c: &GenCfg) -> Ast {
    if let Ast::Var(i) = a {
        if let Some((_, v)) = memo.iter().find(|m| m.0 == *i) { return v.clone(); }
        let v = match i {
            8 | 9 | 4 => {
                let d = *r.pick(&[0, 0, 1, 1, 2]);
                if d == 0 { Ast::Var(r.below(c.vars)) } else { ast::generate(r, c, d) }
            }
            7 => Ast::Num(r.range(1, 6) as f64),
            6 => Ast::Num(r.range(-4, 8) as f64),
            5 | 3 => Ast::Num(ast::gen_num(r, 1)),
            _ => a.clone(),
        };
        memo.push((*i, v.clone()));
        return v;
    }
    a.with_children(a.children().iter().map(|k| subst(k, r, memo, c)).collect())
}
const KIN: &[&[&str]] = &[
    &["sin", "cos", "tan", "cot", "sec", "csc"], &["sinh", "cosh", "tanh", "coth", "sech", "csch"], &["sin", "sinh"], &["cos", "cosh"],
    &["ln", "log10", "log2"], &["sqrt", "cbrt", "abs"], &["asin", "acos", "atan", "asinh", "acosh", "atanh"], &["abs", "signum"], &["exp", "sinh", "cosh"],
];
fn mutate(a: &Ast, r: &mut Rng, c: &GenCfg) -> Ast {
    let n = a.nodes();
    let mut at = r.below(n);
    go(a, &mut at, r, c)
}
fn go(a: &Ast, at: &mut usize, r: &mut Rng, c: &GenCfg) -> Ast {
    if *at == 0 { *at = usize::MAX; return point(a, r, c); }
    *at -= 1;
    let keep = if let Ast::Fun(f, _) = a { FUNS[*f].orders } else { 0 };
    let ch: Vec<Ast> = a.children().iter().enumerate().map(|(i, k)| if *at == usize::MAX { k.clone() } else if i < keep { *at = at.saturating_sub(k.nodes()); k.clone() } else { go(k, at, r, c) }).collect();
    a.with_children(ch)
}
fn point(a: &Ast, r: &mut Rng, c: &GenCfg) -> Ast {
    let b = |x: Ast| Box::new(x);
    match a {
        Ast::Num(v) => Ast::Num(match r.below(7) { 0 => v + 1.0, 1 => v - 1.0, 2 => -v, 3 => v * 2.0, 4 => v * 0.5, 5 => v + 1e-9, _ => ast::gen_num(r, 1) }),
        Ast::Fun(f, v) if FUNS[*f].arity == 1 && r.chance(0.7) => {
            let name = FUNS[*f].name;
            let fam: Vec<&&[&str]> = KIN.iter().filter(|k| k.contains(&name)).collect();
            if fam.is_empty() { return Ast::Neg(b(a.clone())); }
            let fam = *r.pick(&fam);
            let o = *r.pick(fam);
            Ast::Fun(crate::funcs::fun_idx(o), v.clone())
        }
        Ast::Add(v) | Ast::Mul(v) if r.chance(0.6) => {
            let mut w = v.clone();
            match r.below(4) { 0 if w.len() > 2 => { let i = r.below(w.len()); w.remove(i); } 1 => r.shuffle(&mut w), 2 => { let i = r.below(w.len()); let t = w[i].clone(); w.push(t); } _ => w.push(ast::generate(r, c, 1)) }
            if matches!(a, Ast::Add(_)) { Ast::Add(w) } else { Ast::Mul(w) }
        }
        Ast::Sub(p, q) if r.chance(0.5) => if r.chance(0.5) { Ast::Add(vec![(**p).clone(), (**q).clone()]) } else { Ast::Sub(q.clone(), p.clone()) },
        Ast::Pow(p, q) if r.chance(0.6) => match r.below(4) { 0 => Ast::Pow(p.clone(), b(Ast::Add(vec![(**q).clone(), Ast::Num(1.0)]))), 1 => Ast::Pow(p.clone(), b(Ast::Neg(q.clone()))), 2 => Ast::Pow(b(Ast::Neg(p.clone())), q.clone()), _ => Ast::Pow(p.clone(), b(Ast::Div(q.clone(), b(Ast::Num(2.0))))) },
        _ => match r.below(5) {
            0 => Ast::Neg(b(a.clone())),
            1 => Ast::Mul(vec![Ast::Num(ast::gen_num(r, 1)), a.clone()]),
            2 => Ast::Pow(b(a.clone()), b(Ast::Num(*r.pick(&[2.0, 3.0, -1.0, 0.5])))),
            3 => ast::generate(r, c, 1),
            _ => Ast::Add(vec![a.clone(), Ast::Num(ast::gen_num(r, 0))]),
        },
    }
}
fn instance(r: &mut Rng, c: &GenCfg, memo: &mut Vec<(usize, Ast)>) -> Ast {
    static T: std::sync::LazyLock<Vec<Ast>> = std::sync::LazyLock::new(|| TEMPLATES.iter().map(|t| refparse::parse(t, &Names { fixed: &[], custom: &[] }).unwrap_or_else(|_| panic!("template {t}"))).collect());
    let t = r.pick(&T).clone();
    let mut a = subst(&t, r, memo, c);
    if r.chance(0.45) { for _ in 0..r.range(1, 2) { a = mutate(&a, r, c); } }
    a
}
pub fn gen_template(r: &mut Rng, c: &GenCfg) -> Ast {
    let mut memo = vec![];
    let a = instance(r, c, &mut memo);
    let b = |x: Ast| Box::new(x);
    match r.below(14) {
        0..=5 => a,
        6 => Ast::Add(vec![a, ast::generate(r, c, 1)]),
        7 => Ast::Mul(vec![a, ast::generate(r, c, 1)]),
        8 => Ast::Div(b(a), b(ast::generate(r, c, 1))),
        9 => Ast::Div(b(ast::generate(r, c, 1)), b(a)),
        10 => { let k = instance(r, c, &mut memo); match r.below(4) { 0 => Ast::Add(vec![a, k]), 1 => Ast::Mul(vec![a, k]), 2 => Ast::Div(b(a), b(k)), _ => Ast::Sub(b(a), b(k)) } }
        11 => Ast::Pow(b(a), b(Ast::Num(*r.pick(&[2.0, 3.0, -1.0, 0.5, -2.0])))),
        12 => { let f = *r.pick(&["sin", "cos", "exp", "ln", "sqrt", "abs", "tanh", "atan", "cbrt"]); Ast::Fun(crate::funcs::fun_idx(f), vec![a]) }
        _ => { let k = instance(r, c, &mut memo); Ast::Add(vec![ast::generate(r, c, 0), Ast::Mul(vec![Ast::Num(ast::gen_num(r, 1)), a]), k]) }
    }
}
