//! Histories of the symbol registry (concurrent) and of contexts (model-based).
use super::{DEF, Prop};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use symb_anafis::{CompiledEvaluator, Context, Diff, Expr, Simplify, Symbol, UserFunction, clear_symbols, parse, remove_symbol, symb, symb_get, symb_new, symbol_count, symbol_exists, symbol_names};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P12", case: p12, workers: 1, rule: "distinct recorded histories of registry operations (order of invocations and responses and their results) that were checked for linearizability against a map, or step by step when sequential", ..DEF },
        Prop { id: "P13", case: p13, rule: "distinct (history step, expression, point) observations of a context compared with the model of that context", ..DEF },
    ]
}

// --------------------------------------------------------------------------------------- P12
static CLOCK: AtomicU64 = AtomicU64::new(0);
#[derive(Clone, Debug, PartialEq)]
enum Op { Symb(u64), New(Option<u64>), Get(Option<u64>), Exists(bool), Remove(bool), Clear, Name(u64, Option<String>), Expr(u64) }
#[derive(Clone, Debug)]
struct Ev { t: usize, name: usize, op: Op, start: u64, end: u64 }

const POOL: [&str; 6] = ["hqa", "hqb", "reg_c", "long_registry_name_d", "hqe", "hqf"];

/// Is there an order of these operations on one name, consistent with real time, in which a single
/// cell `absent | id` explains every result?  (Wing-Gong search with memoisation.)
fn linearizable(evs: &[Ev], name: &str, explored: &mut u64) -> bool {
    let n = evs.len();
    assert!(n <= 60);
    fn apply(op: &Op, s: Option<u64>, used: &dyn Fn(u64) -> bool, name: &str) -> Option<Option<u64>> {
        match op {
            Op::Symb(r) | Op::Expr(r) => match s { Some(i) => (i == *r).then_some(s), None => (!used(*r)).then_some(Some(*r)) },
            Op::New(Some(r)) => (s.is_none() && !used(*r)).then_some(Some(*r)),
            Op::New(None) => s.is_some().then_some(s),
            Op::Get(r) => (s == *r).then_some(s),
            Op::Exists(b) => (s.is_some() == *b).then_some(s),
            Op::Remove(b) => (s.is_some() == *b).then_some(None),
            Op::Clear => Some(None),
            Op::Name(i, Some(nm)) => (s == Some(*i) && nm == name).then_some(s),
            Op::Name(i, None) => (s != Some(*i)).then_some(s),
        }
    }
    let mut seen: HashSet<(u64, Option<u64>)> = HashSet::new();
    let mut stack = vec![(0u64, None::<u64>)];
    while let Some((done, s)) = stack.pop() {
        if done.count_ones() as usize == n { return true; }
        if !seen.insert((done, s)) { continue; }
        *explored += 1;
        if *explored > 2_000_000 { return true; }
        let horizon = (0..n).filter(|i| done >> i & 1 == 0).map(|i| evs[i].end).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 1 || evs[i].start > horizon { continue; }
            // an identity is never given out again once the name lost it
            let used = |r: u64| (0..n).any(|j| done >> j & 1 == 1 && matches!(&evs[j].op, Op::Symb(k) | Op::Expr(k) | Op::New(Some(k)) if *k == r));
            if let Some(t) = apply(&evs[i].op, s, &used, name) { stack.push((done | 1 << i, t)); }
            // building an expression registers the name and looks the symbol up; when somebody removes
            // it in between, it registers it once more: the first registration may be seen as well
            if s.is_none() && matches!(evs[i].op, Op::Expr(_)) {
                stack.push((done, Some(u64::MAX / 2)));
                for e in evs { if let Op::Symb(k) | Op::Expr(k) | Op::Get(Some(k)) = e.op { if !used(k) { stack.push((done, Some(k))); } } }
            }
        }
    }
    false
}
fn p12(seed: u64, cx: &mut Cx) {
    let mut r = Rng::new(seed);
    if r.chance(0.15) { sequential(&mut r, seed, cx); return; }
    for n in POOL { remove_symbol(n); }
    let threads = r.range(2, 6) as usize;
    let names = r.range(1, 3) as usize;
    let per = r.range(3, 26 / threads as i64 + 3) as usize;
    let clears = r.chance(0.3);
    let spin = r.below(3);
    let bar = Barrier::new(threads);
    let anon: Mutex<Vec<u64>> = Mutex::new(vec![]);
    let bad: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let evs: Vec<Ev> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let mut r = Rng::new(mix(seed ^ (t as u64 + 1)));
            let (bar, anon, bad) = (&bar, &anon, &bad);
            sc.spawn(move || {
                let mut out: Vec<Ev> = vec![];
                let mut held: Vec<(usize, u64)> = vec![];
                let mut exprs: Vec<(Expr, usize, f64, String)> = vec![];
                let mut loose: Vec<(usize, Expr)> = vec![];
                bar.wait();
                for _ in 0..per {
                    let k = r.below(names);
                    let nm = POOL[k];
                    match spin { 0 => {} 1 => for _ in 0..r.below(400) { std::hint::spin_loop(); }, _ => if r.chance(0.3) { std::thread::yield_now(); } }
                    let start = CLOCK.fetch_add(1, SeqCst);
                    let op = match r.below(if clears { 13 } else { 12 }) {
                        0 | 1 => { let s = symb(nm); Op::Symb(s.id()) }
                        2 | 3 => Op::New(symb_new(nm).ok().map(|s| s.id())),
                        4 | 5 => Op::Get(symb_get(nm).ok().map(|s| s.id())),
                        6 => Op::Exists(symbol_exists(nm)),
                        7 | 8 => Op::Remove(remove_symbol(nm)),
                        9 => { let e = Expr::symbol(nm); let end = CLOCK.fetch_add(1, SeqCst); let full = e.clone().pow(2.0) + 3.0 * e.clone(); let text = full.to_string(); exprs.push((full, k, f64::from(r.range(-4, 4) as i32), text)); loose.push((out.len(), e)); out.push(Ev { t, name: k, op: Op::Expr(0), start, end }); continue }
                        10 => { let a = Symbol::anon(); if a.name().is_some() { bad.lock().unwrap().push(("an anonymous symbol has a name".into(), format!("{:?}", a.name()))); } anon.lock().unwrap().push(a.id()); continue }
                        11 => match held.is_empty() { true => continue, false => { let (h, id) = held[r.below(held.len())]; let got = Symbol::from_id(id).name(); let end = CLOCK.fetch_add(1, SeqCst); out.push(Ev { t, name: h, op: Op::Name(id, got), start, end }); continue } },
                        _ => Op::Clear,
                    };
                    if op == Op::Clear { clear_symbols(); }
                    let end = CLOCK.fetch_add(1, SeqCst);
                    if let Op::Symb(i) | Op::New(Some(i)) | Op::Get(Some(i)) = &op { held.push((k, *i)); }
                    if op == Op::Clear { for k in 0..names { out.push(Ev { t, name: k, op: Op::Clear, start, end }); } } else { out.push(Ev { t, name: k, op, start, end }); }
                }
                bar.wait();
                // expressions built on the way keep working
                for (e, k, v, text) in &exprs {
                    let m: HashMap<&str, f64> = [(POOL[*k], *v)].into();
                    let got = e.evaluate(&m, &HashMap::new());
                    let want = v * v + 3.0 * v;
                    if e.to_string() != *text || got.to_string() != Expr::number(want).to_string() || !e.contains_var(POOL[*k]) { bad.lock().unwrap().push(("an expression stopped working when its symbols were removed".into(), format!("{text} is now {e}, at {v} it gives {got}, expected {want}"))); }
                }
                (out, loose)
            })
        }).collect();
        let (mut all, mut loose): (Vec<Ev>, Vec<(usize, Expr)>) = (vec![], vec![]);
        for h in hs { let (v, l) = h.join().unwrap(); cx.add("expressions_kept", l.len() as u64); loose.extend(l.into_iter().map(|(i, e)| (i + all.len(), e))); all.extend(v); }
        // which symbol did an expression get? one of those handed out, or one only expressions have
        let ids: BTreeSet<u64> = all.iter().filter_map(|e| match &e.op { Op::Symb(i) | Op::New(Some(i)) | Op::Get(Some(i)) => Some(*i), _ => None }).collect();
        let mut private: Vec<Expr> = vec![];
        for (i, e) in loose {
            let id = match ids.iter().find(|i| e.contains_var_id(**i)) { Some(i) => *i, None => u64::MAX - match private.iter().position(|p| *p == e) { Some(k) => k as u64, None => { private.push(e); private.len() as u64 - 1 } } };
            all[i].op = Op::Expr(id);
        }
        all
    });
    for (s, d) in bad.into_inner().unwrap() { cx.violation(s, d); }
    // identities
    let mut owner: BTreeMap<u64, usize> = BTreeMap::new();
    for e in &evs { if let Op::Symb(i) | Op::New(Some(i)) | Op::Get(Some(i)) | Op::Expr(i) = &e.op { if *owner.entry(*i).or_insert(e.name) != e.name { cx.violation("two names share an identity", format!("{i}: {} and {}", POOL[owner[i]], POOL[e.name])); } } }
    let anon = anon.into_inner().unwrap();
    let set: BTreeSet<u64> = anon.iter().copied().collect();
    if set.len() != anon.len() || set.iter().any(|i| owner.contains_key(i)) { cx.violation("anonymous symbols share an identity", format!("{anon:?} {owner:?}")); }
    cx.add("anonymous_symbols", anon.len() as u64);
    let overlaps = evs.iter().enumerate().map(|(i, a)| evs[i + 1..].iter().filter(|b| a.t != b.t && a.start < b.end && b.start < a.end).count() as u64).sum::<u64>();
    cx.add("operations", evs.len() as u64);
    cx.add("overlapping_pairs", overlaps);
    let mut explored = 0;
    for k in 0..names {
        let mut h: Vec<Ev> = evs.iter().filter(|e| e.name == k).cloned().collect();
        h.sort_by_key(|e| e.start);
        if h.is_empty() || h.len() > 60 { continue; }
        // shape of the history: who did what in which order, with identities renamed in order of appearance
        let mut ren: HashMap<u64, u64> = HashMap::new();
        let mut sig = 17u64;
        let mut pts: Vec<(u64, usize, bool)> = h.iter().enumerate().flat_map(|(i, e)| [(e.start, i, true), (e.end, i, false)]).collect();
        pts.sort_unstable();
        for (_, i, open) in pts {
            let e = &h[i];
            let c = match &e.op { Op::Symb(x) | Op::New(Some(x)) | Op::Get(Some(x)) | Op::Expr(x) | Op::Name(x, _) => { let l = ren.len() as u64 + 1; *ren.entry(*x).or_insert(l) } _ => 0 };
            let d = match &e.op { Op::Symb(_) => 1, Op::New(o) => 2 + u64::from(o.is_some()), Op::Get(o) => 4 + u64::from(o.is_some()), Op::Exists(b) => 6 + u64::from(*b), Op::Remove(b) => 8 + u64::from(*b), Op::Clear => 10, Op::Name(_, o) => 11 + u64::from(o.is_some()), Op::Expr(_) => 13 };
            sig = mix(sig ^ (e.t as u64) << 40 ^ c << 20 ^ d << 4 ^ u64::from(open));
        }
        cx.observed(sig);
        cx.count(if overlaps > 0 { "concurrent_histories" } else { "non_overlapping_histories" });
        if !linearizable(&h, POOL[k], &mut explored) { cx.violation("registry history has no sequential explanation", h.iter().map(|e| format!("[t{} {}-{}] {:?}", e.t, e.start, e.end, e.op)).collect::<Vec<_>>().join(", ")); return; }
        cx.sample(|| format!("{} threads on {}: {}", threads, POOL[k], h.iter().map(|e| format!("[t{} {}-{}] {:?}", e.t, e.start, e.end, e.op)).collect::<Vec<_>>().join(", ")));
    }
    cx.add("search_states", explored);
}
/// A long script on one thread, every answer (including the counts and the list of names) compared
/// with a map.
fn sequential(r: &mut Rng, seed: u64, cx: &mut Cx) {
    clear_symbols();
    let base: BTreeSet<String> = symbol_names().into_iter().collect();
    let hidden = symbol_count() - base.len();
    let mut model: BTreeMap<String, u64> = BTreeMap::new();
    let mut all: BTreeSet<u64> = base.iter().filter_map(|n| symb_get(n).ok()).map(|s| s.id()).collect();
    let mut dead: Vec<u64> = vec![];
    let mut anons = 0usize;
    let mut log: Vec<String> = vec![];
    let n = r.range(5, 60);
    let names: Vec<String> = (0..r.range(1, 8)).map(|i| if r.chance(0.7) { POOL[i as usize % 6].to_string() } else { format!("s{}", r.below(40)) }).chain(["sin".to_string(), "pi".into(), "x".into()]).collect();
    for step in 0..n {
        let nm = r.pick(&names).clone();
        let builtin = base.contains(&nm);
        let was = if builtin { symb_get(&nm).ok().map(|s| s.id()) } else { model.get(&nm).copied() };
        let mut fail: Option<String> = None;
        let mut fresh = |id: u64, all: &mut BTreeSet<u64>| all.insert(id);
        match r.below(10) {
            0 | 1 => { log.push(format!("symb({nm})")); let id = symb(&nm).id(); match was { Some(w) => if w != id { fail = Some(format!("identity changed from {w} to {id}")) }, None => { if !fresh(id, &mut all) { fail = Some(format!("identity {id} was in use")) } model.insert(nm, id); } } }
            2 => { log.push(format!("symb_new({nm})")); match (symb_new(&nm), was) { (Ok(s), None) => { if !fresh(s.id(), &mut all) { fail = Some("identity was in use".into()) } model.insert(nm, s.id()); } (Err(_), Some(_)) => {} (got, _) => fail = Some(format!("{got:?}, it was {was:?}")) } }
            3 => { log.push(format!("symb_get({nm})")); let got = symb_get(&nm).ok().map(|s| s.id()); if got != was { fail = Some(format!("{got:?}, expected {was:?}")) } }
            4 => { log.push(format!("symbol_exists({nm})")); let got = symbol_exists(&nm); if got != was.is_some() { fail = Some(format!("{got}")) } }
            5 => { log.push(format!("remove_symbol({nm})")); let got = remove_symbol(&nm); if got != (was.is_some() && !builtin) { fail = Some(format!("{got}, it was {was:?}")) } if let Some(i) = model.remove(&nm) { dead.push(i); } }
            6 => if r.chance(0.3) { log.push("clear_symbols()".into()); clear_symbols(); dead.extend(model.values()); model.clear(); },
            7 => { log.push("anon".into()); let a = Symbol::anon(); anons += 1; if a.name().is_some() || !fresh(a.id(), &mut all) { fail = Some(format!("{a:?} {:?}", a.name())) } if !a.to_expr().contains_var_id(a.id()) { fail = Some("expression without the symbol".into()) } }
            8 => if let (true, Some(i)) = (r.chance(0.5), was) { log.push(format!("name({nm})")); let s = Symbol::from_id(i); if s.name().as_deref() != Some(nm.as_str()) { fail = Some(format!("{:?}", s.name())) } } else if !dead.is_empty() { log.push("name(removed)".into()); let s = Symbol::from_id(*r.pick(&dead)); if s.name().is_some() { fail = Some(format!("a removed symbol is still called {:?}", s.name())) } },
            _ => {
                log.push("count/names".into());
                let got: BTreeSet<String> = symbol_names().into_iter().collect();
                let want: BTreeSet<String> = base.iter().cloned().chain(model.keys().cloned()).collect();
                if got != want { fail = Some(format!("names {:?} should be {:?}", got.symmetric_difference(&want).collect::<Vec<_>>(), model.keys())) }
                let c = symbol_count();
                if c != want.len() + anons + hidden { fail = Some(format!("count {c}, expected {} named + {} anonymous", want.len(), anons + hidden)) }
            }
        }
        cx.observed(mix(seed ^ step as u64)); cx.count("sequential_steps");
        if let Some(f) = fail { cx.violation(format!("wrong answer in a sequential history: {}", log.last().unwrap().split('(').next().unwrap()), format!("{}: {f}", log.join("; "))); return; }
    }
}

// --------------------------------------------------------------------------------------- P13
/// Miniature expressions: symbols and functions are names, so that one text can mean different
/// things in different contexts.
#[derive(Clone, Debug)]
enum M { Num(f64), Sym(String), Param(usize), Add(Vec<M>), Mul(Vec<M>), Pow(Box<M>, u8), Sin(Box<M>), Cos(Box<M>), Call(String, Vec<M>) }
#[derive(Clone, Debug)]
struct Def { lo: usize, hi: usize, truth: M, body: bool, partials: BTreeMap<usize, M>, placeholder: bool }
type Defs = BTreeMap<String, Def>;
type Env = HashMap<String, f64>;
/// value and derivative w.r.t. a symbol; None: undefined (unknown function, missing partial)
impl M {
    fn value(&self, env: &Env, args: &[f64], defs: &Defs, depth: usize) -> Option<f64> {
        if depth > 12 { return None; }
        let f = |m: &M| m.value(env, args, defs, depth + 1);
        let v = match self {
            M::Num(v) => *v,
            M::Sym(s) => *env.get(s)?,
            M::Param(i) => *args.get(*i)?,
            M::Add(v) => { let mut t = 0.0; for m in v { t += f(m)?; } t }
            M::Mul(v) => { let mut t = 1.0; for m in v { t *= f(m)?; } t }
            M::Pow(b, k) => f(b)?.powi(i32::from(*k)),
            M::Sin(a) => f(a)?.sin(),
            M::Cos(a) => f(a)?.cos(),
            M::Call(n, a) => { let d = defs.get(n)?; if a.len() < d.lo || a.len() > d.hi || d.placeholder { return None; } let v = a.iter().map(f).collect::<Option<Vec<f64>>>()?; d.truth.value(&HashMap::new(), &v, defs, depth + 1)? }
        };
        // beyond this, sine and cosine amplify rounding too much to compare values
        (v.abs() < 1e4).then_some(v)
    }
    fn deriv(&self, x: &str, env: &Env, defs: &Defs) -> Option<f64> {
        let (v, d) = (|m: &M| m.value(env, &[], defs, 0), |m: &M| m.deriv(x, env, defs));
        Some(match self {
            M::Num(_) | M::Param(_) => 0.0,
            M::Sym(s) => f64::from(u8::from(s == x)),
            M::Add(t) => { let mut s = 0.0; for m in t { s += d(m)?; } s }
            M::Mul(t) => { let mut s = 0.0; for i in 0..t.len() { let mut p = d(&t[i])?; for (j, m) in t.iter().enumerate() { if j != i { p *= v(m)?; } } s += p; } s }
            M::Pow(b, k) => f64::from(*k) * v(b)?.powi(i32::from(*k) - 1) * d(b)?,
            M::Sin(a) => v(a)?.cos() * d(a)?,
            M::Cos(a) => -v(a)?.sin() * d(a)?,
            M::Call(n, a) => {
                let def = defs.get(n)?;
                if a.len() < def.lo || a.len() > def.hi { return None; }
                let vals = a.iter().map(v).collect::<Option<Vec<f64>>>()?;
                let mut s = 0.0;
                for (i, m) in a.iter().enumerate() { if !m.has(x) { continue; } s += def.partials.get(&i)?.value(&HashMap::new(), &vals, defs, 0)? * d(m)?; }
                s
            }
        })
    }
    fn has(&self, x: &str) -> bool { match self { M::Sym(s) => s == x, M::Num(_) | M::Param(_) => false, M::Add(v) | M::Mul(v) | M::Call(_, v) => v.iter().any(|m| m.has(x)), M::Pow(b, _) | M::Sin(b) | M::Cos(b) => b.has(x) } }
    fn syms(&self, s: &mut BTreeSet<String>) { match self { M::Sym(n) => { s.insert(n.clone()); } M::Num(_) | M::Param(_) => {} M::Add(v) | M::Mul(v) | M::Call(_, v) => for m in v { m.syms(s) }, M::Pow(b, _) | M::Sin(b) | M::Cos(b) => b.syms(s) } }
    fn calls(&self, f: &mut dyn FnMut(&str, usize)) { match self { M::Call(n, v) => { f(n, v.len()); for m in v { m.calls(f) } } M::Add(v) | M::Mul(v) => for m in v { m.calls(f) }, M::Pow(b, _) | M::Sin(b) | M::Cos(b) => b.calls(f), _ => {} } }
    fn text(&self) -> String {
        match self {
            M::Num(v) => if *v < 0.0 { format!("({v})") } else { format!("{v}") },
            M::Sym(s) => s.clone(),
            M::Param(i) => format!("#{i}"),
            M::Add(v) => format!("({})", v.iter().map(M::text).collect::<Vec<_>>().join(" + ")),
            M::Mul(v) => format!("({})", v.iter().map(M::text).collect::<Vec<_>>().join("*")),
            M::Pow(b, k) => format!("({})^{k}", b.text()),
            M::Sin(a) => format!("sin({})", a.text()),
            M::Cos(a) => format!("cos({})", a.text()),
            M::Call(n, v) => format!("{n}({})", v.iter().map(M::text).collect::<Vec<_>>().join(", ")),
        }
    }
    fn build(&self, sym: &dyn Fn(&str) -> Expr, args: &[Arc<Expr>]) -> Expr {
        let f = |m: &M| m.build(sym, args);
        match self {
            M::Num(v) => Expr::number(*v),
            M::Sym(s) => sym(s),
            M::Param(i) => args[*i].as_ref().clone(),
            M::Add(v) => v.iter().map(f).reduce(|a, b| a + b).unwrap(),
            M::Mul(v) => v.iter().map(f).reduce(|a, b| a * b).unwrap(),
            M::Pow(b, k) => f(b).pow(f64::from(*k)),
            M::Sin(a) => f(a).sin(),
            M::Cos(a) => f(a).cos(),
            M::Call(n, v) => Expr::func_multi(n.as_str(), v.iter().map(f).collect::<Vec<_>>()),
        }
    }
    fn random(r: &mut Rng, syms: &[String], fns: &[(String, usize)], params: usize, depth: usize) -> M {
        let g = |r: &mut Rng| M::random(r, syms, fns, params, depth - 1);
        if depth == 0 || r.chance(0.15) {
            return match r.below(4) { 0 => M::Num(f64::from(r.range(-4, 4) as i32) / 2.0), _ if params > 0 => M::Param(r.below(params)), _ if !syms.is_empty() => M::Sym(r.pick(syms).clone()), _ => M::Num(1.5) };
        }
        match r.below(if fns.is_empty() { 6 } else { 10 }) {
            0 | 1 => M::Add((0..r.range(2, 3)).map(|_| g(r)).collect()),
            2 | 3 => M::Mul((0..r.range(2, 3)).map(|_| g(r)).collect()),
            4 => M::Pow(Box::new(g(r)), r.range(2, 3) as u8),
            5 => if r.chance(0.5) { M::Sin(Box::new(g(r))) } else { M::Cos(Box::new(g(r))) },
            _ => { let (n, k) = r.pick(fns).clone(); M::Call(n, (0..k).map(|_| g(r)).collect()) }
        }
    }
}
struct Model { ctx: Context, syms: Arc<Mutex<BTreeMap<String, u64>>>, defs: Defs }
impl Model { fn note(&self, t: &M, x: &str) { let mut s = BTreeSet::new(); t.syms(&mut s); s.insert(x.to_string()); for n in s { let id = self.ctx.symb(&n).id(); self.syms.lock().unwrap().insert(n, id); } } }
static WRONG_ARITY: Mutex<Vec<String>> = Mutex::new(vec![]);
fn user_function(name: &str, d: &Def) -> UserFunction {
    let check = |name: String, d: &Def| { let (lo, hi) = (d.lo, d.hi); move |a: &[Arc<Expr>], what: &str| if a.len() < lo || a.len() > hi { WRONG_ARITY.lock().unwrap().push(format!("{what} of {name} ({lo}..={hi} arguments) called with {}", a.len())); false } else { true } };
    let mut u = UserFunction::new(d.lo..=d.hi);
    if d.body { let (t, c) = (d.truth.clone(), check(name.to_string(), d)); u = u.body(move |a| if c(a, "body") { t.build(&|_| unreachable!(), a) } else { Expr::number(0.0) }); }
    for (i, p) in &d.partials { let (p, c) = (p.clone(), check(name.to_string(), d)); u = u.partial(*i, move |a| if c(a, "partial") { p.build(&|_| unreachable!(), a) } else { Expr::number(0.0) }).expect("index below arity"); }
    u
}
fn random_def(r: &mut Rng, name: &str, fns: &[String], known: &Defs) -> Def {
    let arity = r.range(1, 3) as usize;
    // bodies may call functions that come earlier in the alphabet, so that nothing recurses
    let callable: Vec<(String, usize)> = fns.iter().filter(|f| f.as_str() < name).filter_map(|f| known.get(f).filter(|d| !d.placeholder).map(|d| (f.clone(), d.lo))).collect();
    let body = r.chance(0.7);
    let truth = M::random(r, &[], &callable, arity, 2);
    let partials = (0..arity).filter(|_| r.chance(0.8)).collect::<Vec<_>>().into_iter().map(|i| (i, M::random(r, &[], &callable, arity, 2))).collect();
    Def { lo: arity, hi: if r.chance(0.8) { arity } else { arity + 1 }, truth, body, partials, placeholder: false }
}
fn close(a: f64, b: f64, scale: f64) -> bool { (a - b).abs() <= 1e-8 * (1.0 + a.abs().max(b.abs()) + scale) || !a.is_finite() || !b.is_finite() }
thread_local! { static WORKER: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) }; }
static NEXT_WORKER: AtomicU64 = AtomicU64::new(0);

fn p13(seed: u64, cx: &mut Cx) {
    if WORKER.get() == u64::MAX { WORKER.set(NEXT_WORKER.fetch_add(1, SeqCst)); }
    // names private to this worker thread: other workers' global removals do not disturb the case
    let tag = ['j', 'k', 'm', 'n', 'p', 'q', 'v', 'w'][WORKER.get() as usize % 8];
    let mut r = Rng::new(seed);
    let sym_names: Vec<String> = ["z", "zz", "r_w", "bqr"].iter().map(|s| format!("{s}{tag}")).collect();
    let fn_names: Vec<String> = ["fq", "gq", "hqq"].iter().map(|s| format!("{s}{tag}")).collect();
    for n in sym_names.iter().chain(&fn_names) { remove_symbol(n); }
    let mut global: BTreeMap<String, u64> = BTreeMap::new();
    let mut ctxs: Vec<Model> = vec![];
    let mut log: Vec<String> = vec![];
    let new_ctx = || Model { ctx: Context::new(), syms: Arc::default(), defs: Defs::new() };
    ctxs.push(new_ctx());
    for step in 0..r.range(6, 26) {
        let k = r.below(ctxs.len());
        let s = r.pick(&sym_names).clone();
        let f = r.pick(&fn_names).clone();
        let mut fail: Option<(String, String)> = None;
        match r.below(24) {
            0 => if ctxs.len() < 4 { log.push("new context".into()); ctxs.push(new_ctx()); },
            1 => if ctxs.len() < 4 { log.push(format!("clone {k}")); let m = &ctxs[k]; let c = Model { ctx: m.ctx.clone(), syms: m.syms.clone(), defs: m.defs.clone() }; ctxs.push(c); },
            2 | 3 => { log.push(format!("{k}.with_symbol({s})")); let m = &mut ctxs[k]; m.ctx = m.ctx.clone().with_symbol(&s); let id = m.ctx.symb(&s).id(); m.syms.lock().unwrap().entry(s).or_insert(id); }
            4 => {
                log.push(format!("{k}.symb({s})"));
                let m = &ctxs[k];
                let was_global = symbol_exists(&s);
                let got = m.ctx.symb(&s);
                let before = m.syms.lock().unwrap().get(&s).copied();
                if got.name().as_deref() != Some(s.as_str()) { fail = Some(("a context symbol lost its name".into(), format!("{:?}", got.name()))); }
                if before.is_none() && !was_global && ctxs.iter().any(|o| !Arc::ptr_eq(&o.syms, &m.syms) && o.syms.lock().unwrap().values().any(|i| *i == got.id())) { fail = Some(("two contexts share an isolated symbol".into(), s.clone())); }
                m.syms.lock().unwrap().insert(s, got.id());
            }
            5 => { log.push(format!("{k}.remove_symbol({s})")); let m = &mut ctxs[k]; let got = m.ctx.remove_symbol(&s); let want = m.syms.lock().unwrap().remove(&s).is_some(); if got != want { fail = Some(("remove_symbol".into(), format!("{got}"))) } }
            6 => if r.chance(0.3) { log.push(format!("{k}.clear_symbols()")); let m = &mut ctxs[k]; m.ctx.clear_symbols(); m.syms.lock().unwrap().clear(); },
            7 | 8 => { let d = random_def(&mut r, &f, &fn_names, &ctxs[k].defs); log.push(format!("{k}.with_function({f}, {} args, body {}, partials {:?}, truth {})", d.lo, d.body, d.partials.keys(), d.truth.text())); let m = &mut ctxs[k]; m.ctx = m.ctx.clone().with_function(&f, user_function(&f, &d)); m.defs.insert(f, d); }
            9 => { log.push(format!("{k}.with_function_name({f})")); let m = &mut ctxs[k]; m.ctx = m.ctx.clone().with_function_name(&f); m.defs.entry(f).or_insert(Def { lo: 0, hi: usize::MAX, truth: M::Num(0.0), body: false, partials: BTreeMap::new(), placeholder: true }); }
            10 => { log.push(format!("{k}.remove_function({f})")); let m = &mut ctxs[k]; let got = m.ctx.remove_function(&f); if got != m.defs.remove(&f).is_some() { fail = Some(("remove_function".into(), format!("{got}"))) } }
            11 => if r.chance(0.2) { log.push(format!("{k}.clear_all()")); let m = &mut ctxs[k]; m.ctx.clear_all(); m.syms.lock().unwrap().clear(); m.defs.clear(); },
            12 => { let n = if r.chance(0.7) { s } else { f }; log.push(format!("global symb({n})")); let id = symb(&n).id(); global.insert(n, id); }
            13 => { let n = if r.chance(0.7) { s } else { f }; log.push(format!("global remove_symbol({n})")); remove_symbol(&n); global.remove(&n); }
            14 => { if let Some(f) = outside(&mut r, &sym_names, &fn_names, cx, seed ^ step as u64) { fail = Some(f) } log.push("outside".into()); }
            15 => { log.push("queries".into()); for (k, m) in ctxs.iter().enumerate() { if let Some(f) = queries(m, &sym_names, &fn_names) { fail = Some((f.0, format!("context {k}: {}", f.1))) } } cx.observed(mix(seed ^ step as u64 ^ 5)); cx.count("query_rounds"); }
            _ => { log.push(format!("use {k}")); if let Some((a, b)) = use_context(&mut r, &ctxs[k], &sym_names, &fn_names, seed ^ step as u64, cx) { fail = Some((a, format!("context {k}: {b}"))) } }
        }
        for w in WRONG_ARITY.lock().unwrap().drain(..) { if w.contains(&format!("q{tag} ")) || w.contains(&format!("qq{tag} ")) { fail = Some(("a definition was called with a wrong number of arguments".into(), w)); } }
        if let Some((s, d)) = fail { cx.violation(s, format!("{d} after: {}", log.join("; "))); return; }
    }
    cx.count("histories");
    cx.add("contexts", ctxs.len() as u64);
    cx.sample(|| log.join("; "));
}
type Fail = Option<(String, String)>;
fn queries(m: &Model, sym_names: &[String], fn_names: &[String]) -> Fail {
    let syms = m.syms.lock().unwrap();
    let names: BTreeSet<String> = m.ctx.symbol_names().into_iter().collect();
    let want: BTreeSet<String> = syms.keys().cloned().collect();
    if names != want || m.ctx.symbol_count() != want.len() || m.ctx.symbol_names_set().into_iter().collect::<BTreeSet<_>>() != want { return Some(("wrong symbols in a context".into(), format!("{names:?}, expected {want:?}"))); }
    for s in sym_names {
        if m.ctx.contains_symbol(s) != want.contains(s) { return Some(("contains_symbol".into(), s.clone())); }
        let g = m.ctx.get_symbol(s);
        if g.is_some() != want.contains(s) || g.is_some_and(|g| g.name().as_deref() != Some(s.as_str())) { return Some(("get_symbol".into(), format!("{s}: {:?}", g.map(|g| g.name())))); }
    }
    let fns: BTreeSet<String> = m.ctx.function_names().into_iter().collect();
    if fns != m.defs.keys().cloned().collect() { return Some(("wrong functions in a context".into(), format!("{fns:?}"))); }
    for f in fn_names {
        let d = m.defs.get(f);
        let u = m.ctx.get_user_fn(f);
        if m.ctx.has_function(f) != d.is_some() || u.is_some() != d.is_some() || m.ctx.get_body(f).is_some() != d.is_some_and(|d| d.body) { return Some(("a context lost or gained a function".into(), f.clone())); }
        for i in 0..4 { if m.ctx.get_partial(f, i).is_some() != d.is_some_and(|d| d.partials.contains_key(&i)) { return Some(("a context lost or gained a partial".into(), format!("{f} {i}"))); } if let (Some(d), Some(u)) = (d, u) { if u.accepts_arity(i) != (i >= d.lo && i <= d.hi) { return Some(("wrong arity".into(), f.clone())); } } }
    }
    if m.ctx.is_empty() != (want.is_empty() && m.defs.is_empty()) { return Some(("is_empty".into(), String::new())); }
    None
}
/// Without a context the private function names mean nothing: they are variables, multiplied by the
/// parenthesis that follows.
fn outside(r: &mut Rng, sym_names: &[String], fn_names: &[String], cx: &mut Cx, seed: u64) -> Fail {
    let s = r.pick(&sym_names[..2]).clone();
    let f = r.pick(fn_names).clone();
    let text = format!("2*{s} + {f}(3)");
    let none: HashSet<String> = HashSet::new();
    for ctx in [None, Some(Context::new())] {
        let e = match parse(&text, &none, &none, ctx.as_ref()) { Ok(e) => e, Err(e) => return Some(("text without context is refused".into(), format!("{text}: {e}"))) };
        let want: BTreeSet<String> = [s.clone(), f.clone()].into();
        let got: BTreeSet<String> = e.variables().into_iter().collect();
        if got != want { return Some(("a definition leaked out of its context".into(), format!("{text} parsed to {e} with variables {got:?}"))); }
    }
    // built expression: unknown function stays symbolic
    let e = Expr::func(f.as_str(), symb(&s).to_expr());
    let m: HashMap<&str, f64> = [(s.as_str(), 0.5)].into();
    if e.evaluate(&m, &HashMap::new()).to_string() != format!("{f}(0.5)") { return Some(("a user function is evaluated outside its context".into(), e.evaluate(&m, &HashMap::new()).to_string())); }
    if CompiledEvaluator::compile_auto(&e, None).is_ok() || CompiledEvaluator::compile_auto(&e, Some(&Context::new())).is_ok() { return Some(("a user function is compiled outside its context".into(), f)); }
    if Simplify::new().simplify(&e).map(|t| t.to_string()).ok() != Some(format!("{f}({s})")) { return Some(("a user function is expanded outside its context".into(), f)); }
    match Diff::new().differentiate(&e, &symb(&s)) { Ok(d) if d.to_string().contains('∂') => {} other => return Some(("a user function is differentiated outside its context".into(), format!("{other:?}"))) }
    cx.observed(mix(seed)); cx.count("outside_probes");
    None
}
fn use_context(r: &mut Rng, m: &Model, sym_names: &[String], fn_names: &[String], seed: u64, cx: &mut Cx) -> Fail {
    let known: Vec<String> = m.syms.lock().unwrap().keys().cloned().collect();
    let mut names = known.clone();
    names.push("y".into());
    let arities: Vec<(String, usize)> = fn_names.iter().filter_map(|f| m.defs.get(f).map(|d| (f.clone(), if d.placeholder { 1 } else if r.chance(0.05) { d.hi + 1 } else { d.lo + r.below(d.hi - d.lo + 1) }))).collect();
    let t = M::random(r, &names, &arities, 0, 3);
    let none: HashSet<String> = HashSet::new();
    let text = t.text();
    let from_text = r.chance(0.6);
    let e = if from_text {
        match parse(&text, &none, &none, Some(&m.ctx)) { Ok(e) => e, Err(e) => return Some(("text over names of the context is refused".into(), format!("{text}: {e}"))) }
    } else { t.build(&|s| m.ctx.symb(s).to_expr(), &[]) };
    // using a context registers the variables it meets
    m.note(&t, "y");

    let mut vars = BTreeSet::new();
    t.syms(&mut vars);
    let got: BTreeSet<String> = e.variables().into_iter().collect();
    if !got.is_subset(&vars) { return Some(("text is read with other names than the context's".into(), format!("{text} is {e} with variables {got:?}"))); }
    let mut env = Env::new();
    for n in sym_names.iter().chain([&"y".to_string()]) { env.insert(n.clone(), r.uniform(-1.5, 1.5)); }
    let params: Vec<String> = env.keys().cloned().collect();
    let at: Vec<f64> = params.iter().map(|p| env[p]).collect();
    let by_name: HashMap<&str, f64> = env.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    let mut evals: HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>> = HashMap::new();
    for (f, d) in &m.defs { if d.placeholder { continue; } let (d, defs) = (d.clone(), m.defs.clone()); evals.insert(f.clone(), Arc::new(move |a: &[f64]| if a.len() < d.lo || a.len() > d.hi { None } else { d.truth.value(&HashMap::new(), a, &defs, 0) })); }
    let (mut all_bodies, mut any_wrong, mut ncalls) = (true, false, 0u64);
    let mut todo: Vec<(String, usize)> = vec![];
    t.calls(&mut |n, k| todo.push((n.to_string(), k)));
    let mut seen: HashSet<(String, usize)> = HashSet::new();
    while let Some((n, k)) = todo.pop() { ncalls += 1; if !seen.insert((n.clone(), k)) { continue; } match m.defs.get(&n) { None => all_bodies = false, Some(d) => { if !d.body { all_bodies = false; } if k < d.lo || k > d.hi { any_wrong = true; } d.truth.calls(&mut |n, k| todo.push((n.to_string(), k))); } } }
    cx.add("user_calls", ncalls);
    let want = t.value(&env, &[], &m.defs, 0);
    // compiled within the context
    let c = CompiledEvaluator::compile(&e, &params, Some(&m.ctx));
    let present = e.fold(Vec::<String>::new(), |mut p, t| { if let symb_anafis::visitor::ExprView::Function { name, .. } = t.view() { p.push(name.to_string()); } p });
    match (&c, want) {
        (Ok(c), Some(w)) if all_bodies && !any_wrong => { let g = c.evaluate(&at); if !close(g, w, 0.0) { return Some(("compiled value differs from the definition".into(), format!("{text} ({e}) at {env:?}: {g}, expected {w}"))); } cx.count("compiled_values"); }
        (Err(x), Some(_)) if all_bodies && !any_wrong => return Some(("an expression of the context cannot be compiled in it".into(), format!("{text} ({e}): {x}"))),
        (Ok(_), _) if any_wrong && present.iter().any(|n| fn_names.contains(n)) => cx.count("wrong_arity_vanished"),
        (Err(_), _) => cx.count("refused_compilations"),
        _ => {}
    }
    if any_wrong { cx.count("wrong_arity_expressions"); }
    // evaluated with the definitions as custom evaluations
    if let Some(w) = want { let g = e.evaluate(&by_name, &evals); match g.as_number() { Some(g) => if !close(g, w, 0.0) { return Some(("evaluated value differs from the definition".into(), format!("{text} ({e}) at {env:?}: {g}, expected {w}"))); }, None => return Some(("a bound expression of the context stays symbolic".into(), format!("{text}: {g}"))) } cx.observed(mix(seed ^ 1)); cx.count("evaluated_values"); }
    // differentiated within the context
    let x = if known.is_empty() || r.chance(0.2) { "y".to_string() } else { r.pick(&known).clone() };
    let dw = t.deriv(&x, &env, &m.defs);
    let raw = r.chance(0.3);
    let how = r.below(3);
    let extra_def = m.defs.iter().next().map(|(n, d)| (n.clone(), d.clone()));
    let d = match how {
        0 => Diff::new().with_context(&m.ctx).skip_simplification(raw).differentiate(&e, &m.ctx.symb(&x)),
        1 => { let mut b = Diff::new().with_context(&m.ctx).skip_simplification(raw); if let Some((n, d)) = &extra_def { if !d.placeholder { b = b.user_fn(n.clone(), user_function(n, d)); } } b.differentiate(&e, &m.ctx.symb(&x)) }
        _ => match Diff::new().with_context(&m.ctx).skip_simplification(raw).diff_str(&text, &x, &[]) {
            Ok(s) if s.contains('∂') || fn_names.iter().any(|f| !m.defs.contains_key(f) && s.contains(&format!("{f}("))) => { cx.count("symbolic_partials"); m.note(&t, &x); return None }
            Ok(s) => match parse(&s, &none, &none, Some(&m.ctx)) { Ok(e) => Ok(e), Err(x) => return Some(("derivative text of the context cannot be read in it".into(), format!("{text} -> {s}: {x}"))) },
            Err(e) => Err(e),
        },
    };
    m.note(&t, &x);
    let d = match d { Ok(d) => d, Err(e) => return Some(("differentiation within a context fails".into(), format!("d/d{x} {text}: {e}"))) };
    if let Some(w) = dw {
        let g = d.evaluate(&by_name, &evals);
        match g.as_number() { Some(g) => if !close(g, w, want.unwrap_or(0.0).abs()) { return Some(("derivative differs from the given partials".into(), format!("d/d{x} {text} = {d} at {env:?}: {g}, expected {w} (way {how})"))); }, None => return Some(("derivative stays symbolic although all partials are given".into(), format!("d/d{x} {text} = {d}: {g} (way {how})"))) }
        cx.observed(mix(seed ^ 2)); cx.count("derivatives");
    } else { cx.count("derivatives_without_partials"); }
    // simplified: same value, whether or not the bodies are expanded
    let mut b = Simplify::new().with_context(&m.ctx);
    if let (true, Some((n, d))) = (r.chance(0.5), &extra_def) { if !d.placeholder { b = b.user_fn(n.clone(), user_function(n, d)); } }
    let s = match b.simplify(&e) { Ok(s) => s, Err(x) => return Some(("simplification within a context fails".into(), format!("{text}: {x}"))) };
    if let Some(w) = want { let g = s.evaluate(&by_name, &evals); match g.as_number() { Some(g) => if !close(g, w, 1.0) { return Some(("simplified value differs from the definition".into(), format!("{text} -> {s} at {env:?}: {g}, expected {w}"))); }, None => return Some(("a simplified bound expression stays symbolic".into(), format!("{text} -> {s}: {g}"))) } cx.observed(mix(seed ^ 3)); cx.count("simplified_values"); }
    None
}
