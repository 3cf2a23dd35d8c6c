//! Concurrent use: data races (ThreadSanitizer build) and results equal to those of one thread.
use super::eval::rand_cfg;
use super::{DEF, Prop};
use crate::ast::{VARS, generate};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use symb_anafis::parallel::{ExprInput, Value, VarInput, evaluate_parallel};
use symb_anafis::visitor::{NodeCounter, walk_expr};
use symb_anafis::{CompiledEvaluator, Context, CovEntry, CovarianceMatrix, Diff, Expr, Simplify, Symbol, UserFunction, eval_f64, gradient, hessian, parse, remove_symbol, symb, symb_get, symb_new, symbol_exists, uncertainty_propagation};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P14", case: p14, workers: 2, min_judged: 300, secs: 40, stall_secs: 100, rule: "distinct (shared object, operation) results obtained while other threads used the same objects, in fresh processes under ThreadSanitizer, compared with the same operation on one thread", ..DEF }]
}

/// one case = one fresh process, so that lazily built tables are raced for as well
fn p14(seed: u64, cx: &mut Cx) {
    let exe = std::env::current_exe().unwrap();
    let mut o = Command::new("timeout");
    o.args(["-s", "KILL", "80"]).arg(exe).args(["race", &seed.to_string()]).env("RAYON_NUM_THREADS", ["1", "2", "4", "7"][(seed % 4) as usize]).stdin(Stdio::null());
    let o = o.output().unwrap();
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    for l in out.lines() {
        if let Some(h) = l.strip_prefix("J ") { if let Ok(h) = h.parse() { cx.observed(h); } }
        else if let Some(c) = l.strip_prefix("C ") { if let Some((k, n)) = c.split_once(' ') { cx.add(k, n.parse().unwrap_or(0)); } }
        else if let Some(m) = l.strip_prefix("M ") { let (a, b) = m.split_once(" :: ").unwrap_or((m, "")); cx.violation(a, b); }
        else if let Some(m) = l.strip_prefix("S ") { cx.sample(|| m.to_string()); }
    }
    if err.contains("WARNING: ThreadSanitizer") {
        for s in err.lines().filter(|l| l.starts_with("SUMMARY: ThreadSanitizer")).collect::<HashSet<_>>() {
            let what = s.trim_start_matches("SUMMARY: ThreadSanitizer: ");
            let kind: String = what.split(" /").next().unwrap_or(what).chars().take(60).collect();
            let at = err.find("WARNING: ThreadSanitizer").unwrap_or(0);
            cx.violation(format!("ThreadSanitizer: {kind}"), format!("{what}\n{}", err[at..].chars().take(3000).collect::<String>()));
        }
    } else if !o.status.success() {
        use std::os::unix::process::ExitStatusExt as _;
        if let Some(l) = err.lines().find(|l| l.contains("panicked at")) && !l.contains("src/props") && !l.contains("harness/src") {
            cx.violation("panic in a concurrent workload", err.lines().skip_while(|l| !l.contains("panicked at")).take(3).collect::<Vec<_>>().join(" "));
        } else if matches!(o.status.signal(), Some(4 | 6 | 7 | 8 | 11)) { cx.violation("a concurrent workload ended the process", format!("{:?} {}", o.status, err.chars().take(800).collect::<String>())); }
        else if o.status.signal() == Some(9) || o.status.code() == Some(137) { cx.count("stalled_processes_inconclusive"); }
        else { eprintln!("HARNESS: race process {:?}: {}", o.status, err.chars().take(500).collect::<String>()); cx.count("harness_panics"); }
    } else { cx.count("processes"); }
}

struct Shared { exprs: Vec<Expr>, evs: Vec<CompiledEvaluator>, nv: Vec<usize>, ctx: Context, texts: Vec<String>, cols: Vec<Vec<f64>>, deep: Mutex<Vec<Expr>> }
fn context() -> Context {
    Context::new().with_symbol("ctxsym").with_function("uf", UserFunction::new(1..=2).body(|a| (*a[0]).clone().sin() * 2.0 + (*a[a.len() - 1]).clone().pow(2.0)).partial(0, |a| (*a[0]).clone().cos() * 2.0).expect("index"))
        .with_function("ug", UserFunction::new(1..=1).body(|a| Expr::func("uf", (*a[0]).clone() + 1.0)))
}
fn texts(r: &mut Rng) -> Vec<(String, usize)> {
    (0..6).map(|_| { let mut c = rand_cfg(r); c.depth = c.depth.min(4); let a = generate(r, &c, c.depth); (a.show(), c.vars) }).collect()
}
fn p(s: &str) -> Result<Expr, String> { parse(s, &HashSet::new(), &HashSet::new(), None).map_err(|e| e.to_string()) }
fn bits(v: &[f64]) -> String { let mut h = 7u64; for x in v { h = mix(h ^ if x.is_nan() { 1 } else { x.to_bits() }); } format!("{h:x}") }

/// a job that only needs text: everything else is built by the thread itself
fn cold(job: u64, t: &(String, usize)) -> String {
    let (text, nv) = (t.0.as_str(), t.1);
    let e = match p(text) { Ok(e) => e, Err(e) => return e };
    match job % 9 {
        0 => format!("{e}"),
        1 => symb_anafis::diff(text, VARS[0], &[], None).map_or_else(|e| e.to_string(), |s| s),
        2 => symb_anafis::simplify(text, &[], None).map_or_else(|e| e.to_string(), |s| s),
        3 => match CompiledEvaluator::compile(&e, &VARS[..nv], None) { Ok(v) => bits(&[v.evaluate(&[0.7, 1.3, 2.1, 0.4][..nv.min(4)])]), Err(e) => e.to_string() },
        4 => format!("{} {}", e.to_latex(), e.to_unicode()),
        5 => { let m: HashMap<&str, f64> = VARS[..nv].iter().map(|v| (*v, 0.6)).collect(); e.evaluate(&m, &HashMap::new()).to_string() }
        6 => { let s: Vec<Symbol> = VARS[..nv].iter().map(|v| symb(v)).collect(); gradient(&e, &s.iter().collect::<Vec<_>>()).map_or_else(|e| e.to_string(), |g| g.iter().map(ToString::to_string).collect::<Vec<_>>().join("; ")) }
        7 => Simplify::new().domain_safe(true).simplify(&e).map_or_else(|e| e.to_string(), |s| s.to_string()),
        _ => symb_anafis::evaluate_str(text, &[("x", 0.3), ("y", 1.2)]).unwrap_or_else(|e| e.to_string()),
    }
}
/// a job on shared objects; `me` distinguishes the names a thread creates for itself
fn warm(job: u64, i: usize, sh: &Shared, me: &str) -> String {
    let e = &sh.exprs[i % sh.exprs.len()];
    let ev = &sh.evs[i % sh.evs.len()];
    let nv = sh.nv[i % sh.nv.len()];
    let cols: Vec<&[f64]> = sh.cols[..nv].iter().map(Vec::as_slice).collect();
    match job % 18 {
        0 => cold(job / 18, &(sh.texts[i % sh.texts.len()].clone(), nv)),
        1 => format!("{e} {} {}", e.to_latex(), e.node_count()),
        2 => { let mut v: Vec<String> = e.variables().into_iter().collect(); v.sort(); let mut c = NodeCounter::default(); walk_expr(e, &mut c); format!("{v:?} {} {}", c.count, e.max_depth()) }
        3 => Diff::new().differentiate(e, &symb(VARS[0])).map_or_else(|e| e.to_string(), |d| d.to_string()),
        4 => Simplify::new().simplify(e).map_or_else(|e| e.to_string(), |d| d.to_string()),
        5 => { let x: Vec<f64> = cols.iter().map(|c| c[i % c.len()]).collect(); bits(&[ev.evaluate(&x)]) }
        6 => { let mut out = vec![0.0; sh.cols[0].len()]; match ev.eval_batch(&cols, &mut out, None) { Ok(()) => bits(&out), Err(e) => e.to_string() } }
        7 => { let mut buf = vec![]; let mut out = vec![0.0; sh.cols[0].len()]; match ev.eval_batch(&cols, &mut out, Some(&mut buf)) { Ok(()) => bits(&out), Err(e) => e.to_string() } }
        8 => ev.eval_batch_parallel(&cols).map_or_else(|e| e.to_string(), |o| bits(&o)),
        9 => { let m: HashMap<&str, f64> = VARS[..nv].iter().enumerate().map(|(k, v)| (*v, 0.3 + k as f64)).collect(); e.evaluate(&m, &HashMap::new()).to_string() }
        10 => { let es: Vec<&Expr> = sh.exprs.iter().take(3).collect(); let names: Vec<&[&str]> = sh.nv.iter().take(3).map(|n| &VARS[..*n]).collect(); let d: Vec<Vec<&[f64]>> = sh.nv.iter().take(3).map(|n| sh.cols[..*n].iter().map(Vec::as_slice).collect()).collect(); let dd: Vec<&[&[f64]]> = d.iter().map(Vec::as_slice).collect(); eval_f64(&es, &names, &dd).map_or_else(|e| e.to_string(), |v| v.iter().map(|v| bits(v)).collect()) }
        11 => {
            let vals: Vec<Vec<Value>> = (0..nv).map(|k| (0..5).map(|j| if (i + k + j) % 4 == 0 { Value::Skip } else { Value::Num(sh.cols[k][j]) }).collect()).collect();
            let names: Vec<VarInput> = VARS[..nv].iter().map(|v| VarInput::from(*v)).collect();
            evaluate_parallel(vec![ExprInput::from(e), ExprInput::from(sh.texts[i % sh.texts.len()].as_str())], vec![names.clone(), names], vec![vals.clone(), vals]).map_or_else(|e| e.to_string(), |v| v.iter().flatten().map(ToString::to_string).collect::<Vec<_>>().join("; "))
        }
        12 => {
            let t = format!("uf(x, ctxsym) + ug(y)*{me}_a + uf({me}_a)");
            let e = match parse(&t, &HashSet::new(), &HashSet::new(), Some(&sh.ctx)) { Ok(e) => e, Err(e) => return e.to_string() };
            let d = Diff::new().with_context(&sh.ctx).differentiate(&e, &sh.ctx.symb("x")).map_or_else(|e| e.to_string(), |d| d.to_string());
            let c = CompiledEvaluator::compile(&e, &["x", "y", "ctxsym", &format!("{me}_a")], Some(&sh.ctx)).map_or_else(|e| e.to_string(), |c| bits(&[c.evaluate(&[0.1, 0.2, 0.3, 0.4])]));
            format!("{e} {d} {c} {}", sh.ctx.contains_symbol(&format!("{me}_a"))).replace(me, "ME")
        }
        13 => {
            let n = format!("{me}_reg{}", i % 3);
            let a = symb_new(&n).is_ok();
            let b = symb(&n) == symb_get(&n).unwrap() && symbol_exists(&n);
            let f = symb(&n).to_expr().pow(2.0) + 1.0;
            let g = remove_symbol(&n);
            let d = symb_get(&n).is_err();
            format!("{a} {b} {g} {d} {}", f.to_string().replace(me, "ME"))
        }
        14 => { let s: Vec<Symbol> = VARS[..nv.min(2)].iter().map(|v| symb(v)).collect(); hessian(e, &s.iter().collect::<Vec<_>>()).map_or_else(|e| e.to_string(), |g| g.iter().flatten().map(ToString::to_string).collect::<Vec<_>>().join("; ")) }
        15 => { let c = e.clone(); let mut h = std::collections::hash_map::DefaultHasher::new(); c.hash(&mut h); let q = sh.exprs.iter().filter(|o| **o == c).count(); let s = c.substitute("x", &sh.exprs[(i + 1) % sh.exprs.len()]); format!("{} {q} {s}", c.contains_var("x")) }
        16 => { let d = sh.deep.lock().unwrap().pop(); match d { Some(d) => { let ok = d.contains_var("x"); drop(d); format!("{ok}") } None => "true".into() } }
        _ => uncertainty_propagation(e, &VARS[..nv], Some(&CovarianceMatrix::diagonal((0..nv).map(|k| CovEntry::Num(0.1 + k as f64)).collect()))).map_or_else(|e| e.to_string(), |d| d.to_string()),
    }
}

pub fn race(seed: u64) -> i32 {
    // a panic ends the process at once: the other threads may be waiting for the panicking one
    std::panic::set_hook(Box::new(|i| { eprintln!("panicked at {i}"); std::process::exit(3) }));
    let mut r = Rng::new(seed);
    let ts = Arc::new(texts(&mut r));
    let threads = r.range(3, 8) as usize;
    let jobs = r.range(4, 14) as usize;
    let bar = Barrier::new(threads);
    let cell: OnceLock<Shared> = OnceLock::new();
    let spin = r.below(3);
    type Rec = (bool, u64, usize, String);
    // (name, symbol in the shared context, global symbol, value of a formula of the context)
    type Same = Vec<(usize, Symbol, Symbol, bool)>;
    let common = r.range(5, 60) as usize;
    let shared_ctx = Context::new().with_symbol("ctxsym");
    let same: Mutex<Vec<Same>> = Mutex::default();
    let done: Vec<Vec<Rec>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let (bar, cell, ts, shared_ctx, same) = (&bar, &cell, Arc::clone(&ts), &shared_ctx, &same);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut r = Rng::new(mix(seed ^ (t as u64 + 77)));
                let mut out: Vec<Rec> = vec![];
                bar.wait();
                for _ in 0..3 { let (j, i) = (r.u64() % 9, r.below(ts.len())); let s = cold(j, &ts[i]); out.push((false, j, i, s)); }
                let sh = cell.get_or_init(|| build(&ts, seed));
                bar.wait();
                let me = format!("th{t}q");
                // every thread asks for the same new names at the same moment
                let mut mine: Same = vec![];
                for k in 0..common {
                    let (n, g) = (format!("common{k}"), format!("everywhere{k}"));
                    if k % 4 == 0 { bar.wait(); }
                    let a = if (k + t) % 3 == 0 { // through a formula of the context
                        match parse(&format!("2*{n} + ctxsym"), &HashSet::new(), &HashSet::new(), Some(shared_ctx)) { Ok(_) => shared_ctx.symb(&n), Err(_) => continue }
                    } else { shared_ctx.symb(&n) };
                    let e = a.to_expr() * 2.0 - shared_ctx.symb(&n).to_expr() * 2.0;
                    let zero = e.evaluate(&HashMap::from([(n.as_str(), 1.5)]), &HashMap::new()).to_string() == "0" && a == shared_ctx.symb(&n);
                    let gs = if (k + t) % 3 == 1 { match symb_new(&g) { Ok(s) => s, Err(_) => symb(&g) } } else { symb(&g) };
                    mine.push((k, a, gs, zero));
                }
                same.lock().unwrap().push(mine);
                for _ in 0..jobs {
                    match spin { 0 => {} 1 => for _ in 0..r.below(2000) { std::hint::spin_loop(); }, _ => if r.chance(0.3) { std::thread::yield_now(); } }
                    let (j, i) = (r.u64() % (18 * 9), r.below(24)); let s = warm(j, i, sh, &me); out.push((true, j, i, s));
                }
                out
            }).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // the same jobs again, alone
    let sh = cell.get().unwrap();
    let (mut n, mut bad) = (0u64, 0);
    for (t, recs) in done.iter().enumerate() {
        for (w, j, i, s) in recs {
            let alone = if *w { warm(*j, *i, sh, &format!("th{t}q")) } else { cold(*j, &ts[*i]) };
            n += 1;
            println!("J {}", mix(seed ^ mix(*j ^ (*i as u64) << 20 ^ u64::from(*w) << 40 ^ (t as u64) << 50)) );
            if alone != *s && bad < 3 { bad += 1; println!("M a concurrent result differs from the result of one thread (job {}) :: seed {seed}: job {j} on item {i} of {:?}: {:?} concurrently, {:?} alone", if *w { format!("{}", j % 18) } else { format!("text {}", j % 9) }, ts.iter().map(|t| &t.0).collect::<Vec<_>>(), s.chars().take(600).collect::<String>(), alone.chars().take(600).collect::<String>()); }
        }
    }
    let mut names = 0u64;
    let all = same.into_inner().unwrap();
    for t in &all { for (k, a, g, zero) in t {
        names += 1;
        let (n, gn) = (format!("common{k}"), format!("everywhere{k}"));
        if bad < 3 && (*a != shared_ctx.symb(&n) || !zero) { bad += 1; println!("M threads got different symbols of one name from a shared context :: seed {seed}: {n} of {threads} threads"); }
        if bad < 3 && *g != symb(&gn) { bad += 1; println!("M threads got different symbols of one global name :: seed {seed}: {gn} of {threads} threads"); }
    } }
    println!("C common_names {names}");
    println!("C jobs {n}"); println!("C threads {threads}");
    println!("S {threads} threads, {n} jobs on {}", ts.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join(" ; ").chars().take(300).collect::<String>());
    0
}
fn build(ts: &[(String, usize)], seed: u64) -> Shared {
    let mut r = Rng::new(seed ^ 5);
    let mut sh = Shared { exprs: vec![], evs: vec![], nv: vec![], ctx: context(), texts: vec![], cols: vec![], deep: Mutex::default() };
    for (t, nv) in ts {
        let Ok(e) = p(t) else { continue };
        let Ok(ev) = CompiledEvaluator::compile(&e, &VARS[..*nv], None) else { continue };
        sh.exprs.push(e); sh.evs.push(ev); sh.nv.push(*nv); sh.texts.push(t.clone());
    }
    if sh.exprs.is_empty() { let e = p("x^2 + sin(x)").unwrap(); sh.evs.push(CompiledEvaluator::compile(&e, &VARS[..1], None).unwrap()); sh.exprs.push(e); sh.nv.push(1); sh.texts.push("x^2 + sin(x)".into()); }
    let n = *r.pick(&[1usize, 5, 9, 300, 600]);
    sh.cols = (0..VARS.len().max(4)).map(|_| (0..n.max(5)).map(|_| r.uniform(0.1, 2.0)).collect()).collect();
    let mut d = symb("x").to_expr();
    for i in 0..200 { d = if i % 2 == 0 { d.sin() } else { d + 1.0 }; }
    for _ in 0..6 { sh.deep.lock().unwrap().push(d.clone()); }
    sh
}
