//! Independent reference parser for the documented input language.
use crate::ast::{Ast, VARS};
use crate::funcs::FUNS;

#[derive(Clone, Debug, PartialEq)]
enum T { Num(f64), Id(String), Fn(String), Op(char), L, R, C }

/// (spelling, canonical name, minimum number of arguments)
fn builtin(s: &str) -> Option<(&'static str, usize)> {
    let s = match s { "sen" => "sin", "spherical_harmonic" => "ynm", o => o };
    FUNS.iter().find(|f| f.name == s).map(|f| (f.name, if s == "log" { 1 } else { f.arity }))
}
fn builtin_names() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = FUNS.iter().map(|f| f.name).collect();
    v.push("sen");
    v.sort_by_key(|n| std::cmp::Reverse(n.len()));
    v.dedup();
    v
}
pub struct Names<'a> { pub fixed: &'a [&'a str], pub custom: &'a [&'a str] }

fn lex(s: &str, n: &Names) -> Result<Vec<T>, ()> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_ascii() && (ch as u8).is_ascii_whitespace() { i += 1; continue; }
        match ch {
            '(' => { out.push(T::L); i += 1; }
            ')' => { out.push(T::R); i += 1; }
            ',' => { out.push(T::C); i += 1; }
            '*' if c.get(i + 1) == Some(&'*') => { out.push(T::Op('^')); i += 2; }
            '+' | '-' | '*' | '/' | '^' => { out.push(T::Op(ch)); i += 1; }
            '0'..='9' | '.' => {
                let mut t = String::new();
                let mut seen_e = false;
                while i < c.len() {
                    match c[i] {
                        '0'..='9' | '.' => t.push(c[i]),
                        '_' => {}
                        'e' | 'E' if !seen_e => {
                            let k = if matches!(c.get(i + 1), Some('+' | '-')) { 2 } else { 1 };
                            if !c.get(i + k).is_some_and(char::is_ascii_digit) { break; }
                            seen_e = true;
                            t.push('e');
                            if k == 2 { t.push(c[i + 1]); i += 1; }
                        }
                        _ => break,
                    }
                    i += 1;
                }
                out.push(T::Num(t.parse::<f64>().map_err(|_| ())?));
            }
            'π' => { ident("pi", n, &c, i + 1, &mut out); i += 1; }
            _ if ch.is_alphabetic() || ch == '_' => {
                let st = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
                let w: String = c[st..i].iter().collect();
                ident(&w, n, &c, i, &mut out);
            }
            _ => return Err(()),
        }
    }
    Ok(out)
}
/// Resolve a word; `after` is where the text continues.
fn ident(w: &str, n: &Names, c: &[char], after: usize, out: &mut Vec<T>) {
    let call = c[after..].iter().find(|ch| !(ch.is_ascii() && (**ch as u8).is_ascii_whitespace())) == Some(&'(');
    resolve(w, n, call, out);
}
fn resolve(w: &str, n: &Names, call: bool, out: &mut Vec<T>) {
    if n.fixed.contains(&w) || matches!(w, "pi" | "PI" | "Pi" | "e" | "E") { out.push(T::Id(w.into())); return; }
    if call {
        if builtin(w).is_some() { out.push(T::Fn(w.into())); return; }
        if n.custom.contains(&w) { out.push(T::Id(w.into())); return; }
        for b in builtin_names() {
            if let Some(pre) = w.strip_suffix(b) && !pre.is_empty() { resolve(pre, n, false, out); out.push(T::Fn(b.into())); return; }
        }
    }
    let idx: Vec<usize> = w.char_indices().map(|(i, _)| i).skip(1).chain([w.len()]).collect();
    for e in idx {
        if n.fixed.contains(&&w[..e]) {
            out.push(T::Id(w[..e].into()));
            if e < w.len() { resolve(&w[e..], n, call && false, out); }
            return;
        }
    }
    out.push(T::Id(w.into()));
}
fn juxtapose(a: &T, b: &T, n: &Names) -> bool {
    match (a, b) {
        (T::Num(_) | T::Id(_) | T::R, T::Id(_) | T::Fn(_)) => true,
        (T::Id(f), T::L) => !n.custom.contains(&f.as_str()),
        (T::Num(_) | T::R, T::L) => true,
        (T::Id(_) | T::R, T::Num(_)) => true,
        _ => false,
    }
}
pub fn parse(s: &str, n: &Names) -> Result<Ast, ()> {
    let raw = lex(s, n)?;
    let mut t = vec![];
    for (i, a) in raw.iter().enumerate() {
        t.push(a.clone());
        if let Some(b) = raw.get(i + 1) && juxtapose(a, b, n) { t.push(T::Op('*')); }
    }
    let mut p = P { t, i: 0, n };
    let a = p.sum()?;
    if p.i < p.t.len() { return Err(()); }
    Ok(a)
}
struct P<'a> { t: Vec<T>, i: usize, n: &'a Names<'a> }
impl P<'_> {
    fn op(&self) -> Option<char> { if let Some(T::Op(c)) = self.t.get(self.i) { Some(*c) } else { None } }
    // sum := prod (('+'|'-') prod)*
    fn sum(&mut self) -> Result<Ast, ()> {
        let mut a = self.prod()?;
        while let Some(c @ ('+' | '-')) = self.op() {
            self.i += 1;
            let b = self.prod()?;
            a = if c == '+' { Ast::Add(vec![a, b]) } else { Ast::Sub(Box::new(a), Box::new(b)) };
        }
        Ok(a)
    }
    // prod := signed (('*'|'/') signed)*
    fn prod(&mut self) -> Result<Ast, ()> {
        let mut a = self.signed()?;
        while let Some(c @ ('*' | '/')) = self.op() {
            self.i += 1;
            let b = self.signed()?;
            a = if c == '*' { Ast::Mul(vec![a, b]) } else { Ast::Div(Box::new(a), Box::new(b)) };
        }
        Ok(a)
    }
    // signed := ('+'|'-') signed | power      power := atom ('^' signed)?
    fn signed(&mut self) -> Result<Ast, ()> {
        match self.op() {
            Some('-') => { self.i += 1; Ok(Ast::Neg(Box::new(self.signed()?))) }
            Some('+') => { self.i += 1; self.signed() }
            _ => {
                let a = self.atom()?;
                if self.op() == Some('^') { self.i += 1; let b = self.signed()?; return Ok(Ast::Pow(Box::new(a), Box::new(b))); }
                Ok(a)
            }
        }
    }
    fn args(&mut self) -> Result<Vec<Ast>, ()> {
        self.i += 1; // (
        let mut v = vec![];
        if self.t.get(self.i) == Some(&T::R) { self.i += 1; return Ok(v); }
        loop {
            v.push(self.sum()?);
            match self.t.get(self.i) { Some(T::C) => self.i += 1, Some(T::R) => { self.i += 1; return Ok(v); } _ => return Err(()) }
        }
    }
    fn atom(&mut self) -> Result<Ast, ()> {
        match self.t.get(self.i).cloned() {
            Some(T::Num(x)) => { self.i += 1; Ok(Ast::Num(x)) }
            Some(T::Id(w)) => {
                self.i += 1;
                if self.t.get(self.i) == Some(&T::L) && self.n.custom.contains(&w.as_str()) { let a = self.args()?; return Ok(Ast::Call(w, a)); }
                Ok(match VARS.iter().position(|v| *v == w) {
                    Some(i) => Ast::Var(i),
                    None => match w.as_str() { "pi" | "PI" | "Pi" => Ast::Const("pi"), "e" | "E" => Ast::Const("e"), _ => Ast::Opaque(w) },
                })
            }
            Some(T::Fn(w)) => {
                self.i += 1;
                if self.t.get(self.i) != Some(&T::L) { return Err(()); }
                let a = self.args()?;
                let (name, min) = builtin(&w).unwrap();
                if a.len() < min { return Err(()); }
                Ok(if a.len() == FUNS[crate::funcs::fun_idx(name)].arity { Ast::Fun(crate::funcs::fun_idx(name), a) } else { Ast::Call(name.into(), a) })
            }
            Some(T::L) => {
                self.i += 1;
                let a = self.sum()?;
                if self.t.get(self.i) == Some(&T::R) { self.i += 1; Ok(a) } else { Err(()) }
            }
            _ => Err(()),
        }
    }
}
