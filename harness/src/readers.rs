//! Independent readers of the LaTeX and Unicode renderings (ordinary mathematical conventions).
use crate::ast::{self, Ast, CALLS, VARS};
use crate::funcs::{FUNS, fun_idx};
use crate::refparse::{self, Names};

pub enum Unread { Bad(String) }
fn bad<T>(m: impl Into<String>) -> Result<T, Unread> { Err(Unread::Bad(m.into())) }

pub const GREEK: &[(&str, &str)] = &[("alpha", "α"), ("beta", "β"), ("gamma", "γ"), ("delta", "δ"), ("epsilon", "ε"), ("zeta", "ζ"), ("eta", "η"), ("theta", "θ"), ("iota", "ι"), ("kappa", "κ"), ("lambda", "λ"),
    ("mu", "μ"), ("nu", "ν"), ("xi", "ξ"), ("omicron", "ο"), ("pi", "π"), ("rho", "ρ"), ("sigma", "σ"), ("tau", "τ"), ("upsilon", "υ"), ("phi", "φ"), ("chi", "χ"), ("psi", "ψ"), ("omega", "ω")];

pub fn unicode(t: &str) -> Result<Ast, Unread> {
    let mut dn: Vec<String> = vec![];
    let flat = flatten(t, &mut dn)?;
    let t = flat.as_str();
    let mut s = String::new();
    let mut it = t.chars().peekable();
    let sup = |c: char| match c { '⁰' => '0', '¹' => '1', '²' => '2', '³' => '3', '⁴' => '4', '⁵' => '5', '⁶' => '6', '⁷' => '7', '⁸' => '8', '⁹' => '9', '⁻' => '-', '⁺' => '+', _ => '\0' };
    let mut raised = false; // an exponent written as superscript just ended
    while let Some(c) = it.next() {
        if sup(c) != '\0' {
            if raised { return bad("superscript follows a superscript"); }
            s.push_str("^(");
            s.push(sup(c));
            while let Some(&d) = it.peek() { if sup(d) == '\0' { break; } s.push(sup(d)); it.next(); }
            s.push(')');
            raised = true;
            continue;
        }
        if raised && c == '^' { return bad("exponent of an exponent without grouping"); }
        raised = false;
        match c {
            '−' => s.push('-'),
            '·' => s.push('*'),
            c if it.peek().is_some_and(|d| d.is_alphanumeric() && sup(*d) == '\0') => s.push(c),
            c => match GREEK.iter().find(|g| g.1.starts_with(c)) { Some(g) => s.push_str(g.0), None => s.push(c) },
        }
    }
    let mut custom: Vec<&str> = CALLS.iter().map(|c| c.0).collect();
    custom.extend(dn.iter().map(String::as_str));
    // no implicit multiplication is ever emitted, so names stand for themselves
    refparse::parse(&s, &Names { fixed: VARS, custom: &custom }).or_else(|()| bad(format!("as {s}"))).map(|a| derivs(a))
}
fn digit(c: char) -> Option<char> { "⁰¹²³⁴⁵⁶⁷⁸⁹".chars().position(|d| d == c).map(|i| char::from(b'0' + i as u8)) }
/// `∂ⁿ(F)/∂vⁿ` becomes a call of a made-up function
fn flatten(t: &str, names: &mut Vec<String>) -> Result<String, Unread> {
    let c: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '∂' { out.push(c[i]); i += 1; continue; }
        i += 1;
        let mut n = String::new();
        while i < c.len() && let Some(d) = digit(c[i]) { n.push(d); i += 1; }
        if c.get(i) != Some(&'(') { return bad("derivative without parenthesised operand"); }
        let st = i + 1;
        let mut d = 0;
        loop { match c.get(i) { Some('(') => d += 1, Some(')') => { d -= 1; if d == 0 { break; } } None => return bad("unclosed derivative"), _ => {} } i += 1; }
        let inner: String = c[st..i].iter().collect();
        i += 1;
        if c.get(i) != Some(&'/') || c.get(i + 1) != Some(&'∂') { return bad("derivative without variable"); }
        i += 2;
        let mut v = String::new();
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') && digit(c[i]).is_none() { v.push(c[i]); i += 1; }
        let mut m = String::new();
        while i < c.len() && let Some(d) = digit(c[i]) { m.push(d); i += 1; }
        if n != m { return bad("derivative orders differ"); }
        let name = format!("D{}of{v}", if n.is_empty() { "1" } else { &n });
        out += &format!("{name}({})", flatten(&inner, names)?);
        names.push(name);
    }
    Ok(out)
}
fn derivs(a: Ast) -> Ast {
    let ch: Vec<Ast> = a.children().into_iter().map(derivs).collect();
    let a = a.with_children(ch);
    if let Ast::Call(n, v) = &a && let Some((o, var)) = n.strip_prefix('D').and_then(|n| n.split_once("of")) && let Ok(o) = o.parse::<u32>() { return ast::mk_deriv(v[0].clone(), var, o).unwrap_or(Ast::Opaque(n.clone())); }
    a
}

pub fn balanced(t: &str) -> Result<(), String> {
    let mut st: Vec<&str> = vec![];
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '\\' => {
                let mut j = i + 1;
                while j < c.len() && c[j].is_ascii_alphabetic() { j += 1; }
                match c[i + 1..j].iter().collect::<String>().as_str() {
                    "left" => st.push("left"),
                    "right" => if st.pop() != Some("left") { return Err("\\right without \\left".into()); },
                    "lfloor" => st.push("lfloor"),
                    "rfloor" => if st.pop() != Some("lfloor") { return Err("rfloor".into()); },
                    "lceil" => st.push("lceil"),
                    "rceil" => if st.pop() != Some("lceil") { return Err("rceil".into()); },
                    _ => {}
                }
                i = if j == i + 1 { i + 2 } else { j };
                continue;
            }
            '{' => st.push("{"),
            '}' => if st.pop() != Some("{") { return Err("} without {".into()); },
            _ => {}
        }
        i += 1;
    }
    if st.is_empty() { Ok(()) } else { Err(format!("unclosed {st:?}")) }
}

#[derive(Clone, Debug, PartialEq)]
enum T { Cmd(String), Num(f64), Id(String), Ch(char) }
fn lex(t: &str) -> Result<Vec<T>, Unread> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch == ' ' { i += 1; continue; }
        if ch == '\\' {
            let mut j = i + 1;
            while j < c.len() && c[j].is_ascii_alphabetic() { j += 1; }
            if j == i + 1 { out.push(T::Ch(c[j])); i = j + 1; continue; } // \_ and the like
            out.push(T::Cmd(c[i + 1..j].iter().collect()));
            i = j;
        } else if ch.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_digit() || c[j] == '.') { j += 1; }
            if j < c.len() && c[j] == 'e' && (c.get(j + 1).is_some_and(char::is_ascii_digit) || (c.get(j + 1) == Some(&'-') && c.get(j + 2).is_some_and(char::is_ascii_digit))) { j += 2; while j < c.len() && c[j].is_ascii_digit() { j += 1; } }
            out.push(T::Num(c[i..j].iter().collect::<String>().parse().or_else(|_| bad("number"))?));
            i = j;
        } else if ch.is_alphabetic() {
            let mut j = i;
            while j < c.len() && c[j].is_alphanumeric() { j += 1; }
            // without braces a subscript is a single character
            if j + 1 < c.len() && c[j] == '_' && c[j + 1].is_alphanumeric() { j += 2; if c.get(j).is_some_and(|d| d.is_alphanumeric() || *d == '_') { return bad("subscript without braces"); } }
            out.push(T::Id(c[i..j].iter().collect()));
            i = j;
        } else { out.push(T::Ch(ch)); i += 1; }
    }
    Ok(out)
}
struct L { t: Vec<T>, i: usize }
pub fn latex(t: &str) -> Result<Ast, Unread> {
    let mut l = L { t: lex(t)?, i: 0 };
    let a = l.sum()?;
    if l.i < l.t.len() { return bad(format!("rest starts at {:?}", l.t[l.i])); }
    Ok(a)
}
fn fun(n: &str, a: Vec<Ast>) -> Result<Ast, Unread> {
    if let Some(i) = FUNS.iter().position(|f| f.name == n) { return if FUNS[i].arity == a.len() { Ok(Ast::Fun(i, a)) } else { bad(format!("{n} of {} arguments", a.len())) }; }
    if CALLS.iter().any(|c| c.0 == n) { return Ok(Ast::Call(n.into(), a)); }
    bad(format!("unknown function {n}"))
}
impl L {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn ch(&mut self, c: char) -> bool { if self.peek() == Some(&T::Ch(c)) { self.i += 1; true } else { false } }
    fn cmd(&mut self, c: &str) -> bool { if self.peek() == Some(&T::Cmd(c.into())) { self.i += 1; true } else { false } }
    fn need(&mut self, c: char) -> Result<(), Unread> { if self.ch(c) { Ok(()) } else { bad(format!("expected {c} at {:?}", self.peek())) } }
    fn sum(&mut self) -> Result<Ast, Unread> {
        let mut a = self.prod()?;
        loop {
            if self.ch('+') { a = Ast::Add(vec![a, self.prod()?]); }
            else if self.ch('-') { a = Ast::Sub(Box::new(a), Box::new(self.prod()?)); }
            else { return Ok(a); }
        }
    }
    fn prod(&mut self) -> Result<Ast, Unread> {
        let mut a = self.signed()?;
        while self.cmd("cdot") { a = Ast::Mul(vec![a, self.signed()?]); }
        Ok(a)
    }
    fn signed(&mut self) -> Result<Ast, Unread> {
        if self.ch('-') { return Ok(Ast::Neg(Box::new(self.signed()?))); }
        let a = self.atom()?;
        if self.ch('^') {
            self.need('{')?;
            let e = self.sum()?;
            self.need('}')?;
            if self.peek() == Some(&T::Ch('^')) { return bad("double superscript"); }
            return Ok(Ast::Pow(Box::new(a), Box::new(e)));
        }
        Ok(a)
    }
    fn group(&mut self) -> Result<Ast, Unread> { self.need('{')?; let a = self.sum()?; self.need('}')?; Ok(a) }
    fn args(&mut self) -> Result<Vec<Ast>, Unread> {
        if !self.cmd("left") { return bad(format!("expected an argument list at {:?}", self.peek())); }
        self.need('(')?;
        let mut v = vec![];
        if !(self.peek() == Some(&T::Cmd("right".into()))) { loop { v.push(self.sum()?); if !self.ch(',') { break; } } }
        if !self.cmd("right") { return bad("expected \\right"); }
        self.need(')')?;
        Ok(v)
    }
    fn name_in_braces(&mut self) -> Result<String, Unread> {
        self.need('{')?;
        let mut s = String::new();
        while let Some(t) = self.t.get(self.i).cloned() {
            self.i += 1;
            match t { T::Ch('}') => return Ok(s), T::Id(x) => s += &x, T::Ch(c) => s.push(c), T::Num(n) => s += &n.to_string(), T::Cmd(_) => return bad("command inside a name") }
        }
        bad("unclosed name")
    }
    /// indexed function: after _{...} (and ^{...} for two orders)
    fn indexed(&mut self, name: &str, two: bool) -> Result<Ast, Unread> {
        self.need('_')?;
        let mut v = vec![self.group()?];
        if two { self.need('^')?; v.push(self.group()?); }
        v.extend(self.args()?);
        fun(name, v)
    }
    fn atom(&mut self) -> Result<Ast, Unread> {
        let Some(t) = self.peek().cloned() else { return bad("ends early") };
        self.i += 1;
        match t {
            T::Num(n) => Ok(Ast::Num(n)),
            T::Id(w) => {
                let next = self.peek().cloned();
                match (w.as_str(), next) {
                    ("J" | "Y" | "I" | "K" | "H" | "P", Some(T::Ch('_'))) => {
                        // Y_{n}(x) is a Bessel function, Y_{l}^{m}(θ, φ) a spherical harmonic
                        let save = self.i;
                        self.i += 1; let _ = self.group()?;
                        let two = self.peek() == Some(&T::Ch('^'));
                        self.i = save;
                        match (w.as_str(), two) {
                            ("J", false) => self.indexed("besselj", false), ("Y", false) => self.indexed("bessely", false),
                            ("I", false) => self.indexed("besseli", false), ("K", false) => self.indexed("besselk", false),
                            ("H", false) => self.indexed("hermite", false), ("P", true) => self.indexed("assoc_legendre", true),
                            ("Y", true) => self.indexed("ynm", true), _ => bad("index"),
                        }
                    }
                    ("K", Some(T::Cmd(c))) if c == "left" => fun("elliptic_k", self.args()?),
                    ("E", Some(T::Cmd(c))) if c == "left" => fun("elliptic_e", self.args()?),
                    ("W", Some(T::Cmd(c))) if c == "left" => fun("lambertw", self.args()?),
                    _ => { let w = self.subscript(w)?; match VARS.iter().position(|v| *v == w) { Some(i) => Ok(Ast::Var(i)), None if w == "e" => Ok(Ast::Const("e")), None => bad(format!("name {w}")) } },
                }
            }
            T::Ch(c) => bad(format!("unexpected {c}")),
            T::Cmd(c) => match c.as_str() {
                "left" => {
                    if self.ch('(') { let a = self.sum()?; if !self.cmd("right") { return bad("\\right"); } self.need(')')?; return Ok(a); }
                    self.need('|')?;
                    let a = self.sum()?; if !self.cmd("right") { return bad("\\right"); } self.need('|')?; fun("abs", vec![a])
                }
                "lfloor" => { let a = self.sum()?; if !self.cmd("rfloor") { return bad("rfloor"); } fun("floor", vec![a]) }
                "lceil" => { let a = self.sum()?; if !self.cmd("rceil") { return bad("rceil"); } fun("ceil", vec![a]) }
                "frac" if self.t.get(self.i) == Some(&T::Ch('{')) && self.t.get(self.i + 1) == Some(&T::Cmd("partial".into())) => {
                    self.i += 2;
                    let mut o = [1.0; 2];
                    if self.ch('^') { o[0] = self.order()?; }
                    let f = self.sum()?;
                    self.need('}')?;
                    self.need('{')?;
                    if !self.cmd("partial") { return bad("derivative without variable"); }
                    let v = match self.atom_name()? { Some(v) => v, None => return bad("derivative variable") };
                    if self.ch('^') { o[1] = self.order()?; }
                    self.need('}')?;
                    if o[0] != o[1] { return bad("derivative orders differ"); }
                    Ok(ast::mk_deriv(f, &v, o[0] as u32).unwrap_or(Ast::Opaque("derivative".into())))
                }
                "frac" => { let a = self.group()?; let b = self.group()?; Ok(Ast::Div(Box::new(a), Box::new(b))) }
                "sqrt" => {
                    if self.ch('[') { if self.peek() != Some(&T::Num(3.0)) { return bad("root index"); } self.i += 1; self.need(']')?; return fun("cbrt", vec![self.group()?]); }
                    let a = self.group()?; fun("sqrt", vec![a])
                }
                "log" => {
                    if self.ch('_') {
                        if self.peek() == Some(&T::Num(2.0)) { self.i += 1; return fun("log2", self.args()?); }
                        let b = self.group()?; let mut v = vec![b]; v.extend(self.args()?); return fun("log", v);
                    }
                    fun("log10", self.args()?)
                }
                "psi" if matches!(self.peek(), Some(T::Cmd(c)) if c == "left") => fun("digamma", self.args()?),
                "psi" if self.peek() == Some(&T::Ch('_')) => { self.i += 1; let n = self.peek().cloned(); self.i += 1; match n { Some(T::Num(1.0)) => fun("trigamma", self.args()?), Some(T::Num(2.0)) => fun("tetragamma", self.args()?), _ => bad("psi index") } }
                "psi" if self.peek() == Some(&T::Ch('^')) => { self.i += 1; let n = self.paren_group()?; let mut v = vec![n]; v.extend(self.args()?); fun("polygamma", v) }
                "zeta" if self.peek() == Some(&T::Ch('^')) => {
                    let save = self.i; self.i += 1;
                    match self.paren_group() { Ok(n) => { let mut v = vec![n]; v.extend(self.args()?); fun("zeta_deriv", v) } Err(e) => { self.i = save; Err(e) } }
                }
                "zeta" if matches!(self.peek(), Some(T::Cmd(c)) if c == "left") => fun("zeta", self.args()?),
                "Gamma" => fun("gamma", self.args()?),
                "mathrm" => { let n = self.name_in_braces()?; if n == "B" { fun("beta", self.args()?) } else { bad(n) } }
                "operatorname" => {
                    let n = self.name_in_braces()?;
                    let n = match n.as_str() { "arsinh" => "asinh", "arcosh" => "acosh", "artanh" => "atanh", "arcoth" => "acoth", "arsech" => "asech", "arcsch" => "acsch", "sgn" => "signum", o => o }.to_string();
                    fun(&n, self.args()?)
                }
                "text" => { let n = self.name_in_braces()?; fun(&n, self.args()?) }
                "arcsin" => fun("asin", self.args()?), "arccos" => fun("acos", self.args()?), "arctan" => fun("atan", self.args()?),
                "pi" => Ok(Ast::Const("pi")),
                g if GREEK.iter().any(|x| x.0 == g) => match VARS.iter().position(|v| *v == g) { Some(i) => Ok(Ast::Var(i)), None => bad(format!("name {g}")) },
                f if FUNS.iter().any(|x| x.name == f) => { let f = FUNS[fun_idx(f)].name; fun(f, self.args()?) }
                o => bad(format!("command {o}")),
            },
        }
    }
    fn order(&mut self) -> Result<f64, Unread> {
        self.need('{')?;
        let n = self.peek().cloned();
        self.i += 1;
        self.need('}')?;
        if let Some(T::Num(n)) = n { Ok(n) } else { bad("derivative order") }
    }
    fn atom_name(&mut self) -> Result<Option<String>, Unread> {
        let t = self.peek().cloned();
        self.i += 1;
        match t { Some(T::Id(w)) => self.subscript(w).map(Some), Some(T::Cmd(w)) => Ok(Some(w)), _ => Ok(None) }
    }
    /// `w_{...}` is one name
    fn subscript(&mut self, w: String) -> Result<String, Unread> {
        if self.peek() != Some(&T::Ch('_')) || matches!(w.as_str(), "J" | "Y" | "I" | "K" | "H" | "P") { return Ok(w); }
        self.i += 1;
        Ok(format!("{w}_{}", self.name_in_braces()?))
    }
    fn paren_group(&mut self) -> Result<Ast, Unread> { self.need('{')?; self.need('(')?; let a = self.sum()?; self.need(')')?; self.need('}')?; Ok(a) }
}
