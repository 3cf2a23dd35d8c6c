//! Text: parsing against the reference grammar, hostile input.
use super::simp::{Verdict, compare};
use super::{DEF, Prop};
use crate::ast::{self, Ast, GenCfg, VARS, from_expr, generate};
use crate::funcs::FUNS;
use crate::refparse::{self, Names};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::HashSet;
use symb_anafis::{DiffError, Expr, Span};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P08", case: p08, directed: Some(p08_directed), rule: "distinct input texts whose acceptance, value (at random points) or error position was judged against the reference grammar", ..DEF },
    ]
}
const FIXED: &[&str] = &["alpha", "xy", "foo", "x_1", "sinx", "a", "v1", "β2", "T"];
const CUSTOM: &[&str] = &["f", "g", "h2", "Foo", "T"];

fn set(v: &[&str]) -> HashSet<String> { v.iter().map(|s| (*s).to_string()).collect() }
fn tool(s: &str, f: &[&str], c: &[&str]) -> Result<Expr, DiffError> { symb_anafis::parse(s, &set(f), &set(c), None) }
pub fn span_of(e: &DiffError) -> Option<Span> {
    match e {
        DiffError::InvalidSyntax { span, .. } | DiffError::InvalidNumber { span, .. } | DiffError::InvalidToken { span, .. }
        | DiffError::UnexpectedToken { span, .. } | DiffError::AmbiguousSequence { span, .. } => *span,
        _ => None,
    }
}
fn ordered_parens(s: &str) -> bool {
    let mut d = 0i64;
    for c in s.chars() { match c { '(' => d += 1, ')' => { d -= 1; if d < 0 { return false; } } _ => {} } }
    d == 0
}

/// Render with random but unambiguous-by-grammar notation.
fn noisy(a: &Ast, r: &mut Rng, lvl: u8) -> String {
    let sp = |r: &mut Rng| match r.below(4) { 0 => " ", 1 => "  ", _ => "" };
    let (s, l) = match a {
        Ast::Num(n) => {
            let m = n.abs();
            let t = match r.below(6) {
                0 if m.fract() == 0.0 && m < 1e9 => format!("{m}."),
                1 if m < 1.0 && m > 1e-4 => format!("{m}").trim_start_matches('0').to_string(),
                2 => format!("{m:e}"),
                3 => format!("{m:E}"),
                4 if m.fract() == 0.0 && m >= 10.0 && m < 1e9 => { let d = format!("{m}"); format!("{}_{}", &d[..1], &d[1..]) }
                _ => format!("{m}"),
            };
            if *n < 0.0 { (format!("-{t}"), 2) } else { (t, 4) }
        }
        Ast::Var(i) => (VARS[*i].to_string(), 4),
        Ast::Const(c) => (if *c == "pi" && r.chance(0.4) { "π".into() } else { (*c).to_string() }, 4),
        Ast::Opaque(o) => (o.clone(), 4),
        Ast::Deriv(..) | Ast::Part(..) => ("1".into(), 4),
        Ast::Add(v) => { let mut s = String::new(); for (i, t) in v.iter().enumerate() { if i > 0 { s += sp(r); s.push('+'); s += sp(r); } s += &noisy(t, r, if i == 0 { 0 } else { 1 }); } (s, 0) }
        Ast::Sub(p, q) => (format!("{}{}-{}{}", noisy(p, r, 0), sp(r), sp(r), noisy(q, r, 1)), 0),
        Ast::Mul(v) => {
            let mut s = String::new();
            for (i, t) in v.iter().enumerate() {
                if i > 0 { match r.below(6) { 0 => s.push(' '), 1 => {} 2 => s += " * ", _ => s.push('*') } }
                s += &noisy(t, r, if i == 0 { 1 } else { 2 });
            }
            (s, 1)
        }
        Ast::Div(p, q) => (format!("{}{}/{}{}", noisy(p, r, 1), sp(r), sp(r), noisy(q, r, 2)), 1),
        Ast::Neg(p) => (format!("-{}{}", sp(r), noisy(p, r, 2)), 2),
        Ast::Pow(p, q) => { let l = if r.chance(0.5) { 4 } else { 2 }; (format!("{}{}{}", noisy(p, r, 4), if r.chance(0.3) { "**" } else { "^" }, noisy(q, r, l)), 3) },
        Ast::Call(n, v) => (call(n, v, r), 4),
        Ast::Fun(i, v) => { let n = FUNS[*i].name; (call(if n == "sin" && r.chance(0.1) { "sen" } else { n }, v, r), 4) }
    };
    if l < lvl || r.chance(0.06) { let (p, q) = (sp(r), sp(r)); format!("({p}{s}{q})") }
    else if r.chance(0.02) && lvl <= 2 { format!("+{s}") } else { s }
}
fn call(n: &str, v: &[Ast], r: &mut Rng) -> String {
    let mut s = format!("{n}{}(", if r.chance(0.1) { " " } else { "" });
    for (i, t) in v.iter().enumerate() { if i > 0 { s += if r.chance(0.5) { ", " } else { "," }; } s += &noisy(t, r, 0); }
    s.push(')');
    s
}
fn with_calls(a: Ast, r: &mut Rng) -> Ast {
    let ch: Vec<Ast> = a.children().into_iter().map(|c| with_calls(c, r)).collect();
    let keep = if let Ast::Fun(f, _) = &a { FUNS[*f].orders } else { 0 };
    let orig = a.children();
    let ch = ch.into_iter().enumerate().map(|(i, c)| if i < keep { orig[i].clone() } else { c }).collect();
    let b = a.with_children(ch);
    if r.chance(0.05) { let n = (*r.pick(CUSTOM)).to_string(); Ast::Call(n, if r.chance(0.3) { vec![b, Ast::Var(r.below(VARS.len()))] } else { vec![b] }) } else { b }
}
const SOUP: &[&str] = &["x", "y", "2", "3.5", "1e3", "2e-2", "7", "(", "(", ")", ")", "+", "-", "*", "/", "^", "**", ",", "sin", "sin(", "f", "f(", "T(", "foo", "pi", "π", "e", " ", " ", "log(2,", "xsin(", "alpha",
    "sqrt(x)", ".5", "5.", "1_0", "alphax", "fooxy", "cos(y)", "2x", "x2", "tan", "E", "\t", "\n", "a", "β2", "αα", "besselj(1,", "exp(", "ln(", "@", ".", "=", "√", "x²", "1.2.3", "2exp(x)", "3e"];

fn p08(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    let mut fixed: Vec<&str> = FIXED.iter().filter(|_| r.chance(0.5)).copied().collect();
    r.shuffle(&mut fixed);
    let custom: Vec<&str> = CUSTOM.iter().filter(|_| r.chance(0.6)).copied().collect();
    let mode = r.below(10);
    let text = match mode {
        0..=4 => {
            let c = GenCfg { vars: VARS.len(), depth: r.range(1, 5) as usize, elem: true, step: true, special: r.chance(0.2), consts: true, max_nary: 4, nums: 2, p_fun: 0.25, allow: |_| true, calls: 0.0 };
            let a = generate(&mut r, &c, c.depth);
            let a = with_calls(a, &mut r);
            noisy(&a, &mut r, 0)
        }
        5 | 6 => (0..r.range(1, 9)).map(|_| *r.pick(SOUP)).collect(),
        7 => {
            // well-formed text with a few edits
            let c = GenCfg { vars: 6, depth: r.range(1, 3) as usize, ..GenCfg::default() };
            let a = generate(&mut r, &c, c.depth);
            let mut t: Vec<char> = noisy(&a, &mut r, 0).chars().collect();
            for _ in 0..r.range(1, 3) {
                let i = r.below(t.len() + 1);
                match r.below(3) {
                    0 if !t.is_empty() => { t.remove(i.min(t.len() - 1)); }
                    1 if t.len() > 1 => { let j = r.below(t.len()); let i = i.min(t.len() - 1); t.swap(i, j); }
                    _ => t.insert(i, *r.pick(&['(', ')', '+', '-', '*', '/', '^', ',', '.', '2', 'x', 'e', ' ', '_', 'E', '$', 'π'])),
                }
            }
            t.into_iter().collect()
        }
        8 => hostile(&mut r),
        _ => {
            // arbitrary characters
            (0..r.range(0, 24)).map(|_| match r.below(6) {
                0 => char::from_u32(r.below(0x0011_0000) as u32).unwrap_or('\u{2202}'),
                1 => *r.pick(&['∂', 'π', '\u{200b}', '\u{feff}', '\u{a0}', '½', '²', '𝑥', 'é', '−', '×', '·', '٣', 'ß', '\0']),
                2 => char::from(r.below(128) as u8),
                _ => *r.pick(&['x', '(', ')', '1', '+', '^', ',', '_', '/', 's', 'i', 'n', 'e', '.']),
            }).collect()
        }
    };
    judge(&text, &fixed, &custom, &mut r, cx, mode);
}
fn hostile(r: &mut Rng) -> String {
    let parts = ["∂", "∂_", "∂^2_f(x)/∂_x^2", "∂_f(", ")/∂_x", "∂^", "f(x)", "/∂_", "x", "^", "(", ")", ",", "101", "-1", "_", "∂_f(x,y)/∂_y", "∂_f(∂_g(x)/∂_x)/∂_x", "∂^100_f(x)/∂_x^100", "∂^99999999999_f/∂_x", " ", "+"];
    (0..r.range(1, 7)).map(|_| *r.pick(&parts)).collect()
}
fn judge(text: &str, fixed: &[&str], custom: &[&str], r: &mut Rng, cx: &mut Cx, mode: usize) {
    let got = tool(text, fixed, custom);
    let h = text.bytes().fold(mode as u64, |h, b| mix(h ^ u64::from(b)));
    let balanced = ordered_parens(text);
    if let Err(e) = &got {
        let _ = e.to_string();
        if balanced && let Some(s) = span_of(e) {
            cx.count("error_positions_checked");
            if s.end() > text.len() || !text.is_char_boundary(s.start()) || !text.is_char_boundary(s.end()) {
                cx.violation("error position outside the text or inside a character", format!("{text:?}: {e:?}"));
            }
        }
    } else if let Ok(e) = &got { let _ = e.to_string(); }
    if text.trim().is_empty() { if got.is_ok() { cx.violation("empty input accepted", format!("{text:?}")); } cx.observed(h); return; }
    if !balanced || text.contains('∂') { cx.count("totality_only"); cx.observed(h); return; }
    let names = Names { fixed, custom };
    let want = refparse::parse(text, &names);
    match (&got, &want) {
        (Err(_), Err(())) => { cx.count("both_reject"); cx.observed(h); }
        (Ok(e), Err(())) => cx.violation("accepts malformed input", format!("{text:?} (names {fixed:?}, functions {custom:?}) parsed as {e}")),
        (Err(e), Ok(a)) => cx.violation("rejects well-formed input", format!("{text:?} (names {fixed:?}, functions {custom:?}): {e}; should be {}", a.show())),
        (Ok(e), Ok(a)) => {
            cx.count("both_accept");
            let g = from_expr(e);
            for k in 0..3 {
                let x = ast::gen_point(r, VARS.len(), k);
                match compare(a, &g, &x) {
                    (Verdict::Skip, ..) => cx.count("skipped_point"),
                    (Verdict::Same, ..) => { cx.observed(h ^ k as u64); if k == 0 { cx.sample(|| format!("{text:?} = {}", a.show())); } }
                    (v, b, c) => { cx.violation(format!("parsed with another meaning ({v:?})"), format!("{text:?} (names {fixed:?}, functions {custom:?}): parsed as {e}, should be {}; at {x:?}: {b:?} vs {c:?}", a.show())); return; }
                }
            }
        }
    }
}
/// Every pair and triple of elementary tokens, exhaustively.
fn p08_directed(cx: &mut Cx) {
    let toks = ["x", "y", "2", "1.5", "(", ")", "+", "-", "*", "/", "^", "**", ",", "sin", "f", "foo", "pi", " ", "e", "1e3"];
    let mut r = Rng::new(1);
    let n = toks.len();
    for k in 0..n.pow(4) {
        let t: String = [k % n, k / n % n, k / n / n % n, k / n / n / n].iter().map(|i| toks[*i]).collect();
        judge(&t, &["foo"], &["f"], &mut r, cx, 99);
        if cx.viol.len() > 20 { return; }
    }
    cx.add("exhaustive_short_texts", n.pow(4) as u64);
}
