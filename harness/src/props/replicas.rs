//! The same calls in other processes, threads, orders and histories.
use super::eval::{no_set, parse, rand_cfg};
use super::{DEF, Prop};
use crate::ast::{self, VARS, gen_point, generate};
use crate::report::Cx;
use crate::rng::{Rng, mix};
use std::collections::HashMap;
use std::time::Instant;
use symb_anafis::{CompiledEvaluator, Context, Diff, Expr, Simplify, UserFunction, symb};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P21", case: p21, rule: "distinct (input, call, replica) results compared bit for bit with those of a fresh process", stall_secs: 200, ..DEF }]
}

/// The observed calls of one input: (call, result text)
pub fn probe(seed: u64, noise: &mut dyn FnMut()) -> (String, Vec<(&'static str, String)>) {
    let mut r = Rng::new(mix(seed));
    let mut c = rand_cfg(&mut r);
    c.depth = c.depth.min(4);
    let a = if r.chance(0.5) { super::templates::gen_template(&mut r, &c) } else { let d = c.depth; generate(&mut r, &c, d) };
    let text = a.show();
    let nv = c.vars.max(1);
    let var = VARS[r.below(nv)];
    let p = gen_point(&mut r, nv, 0);
    let mut v: Vec<(&'static str, String)> = vec![];
    let mut put = |k: &'static str, s: String| v.push((k, s));
    let safe = r.chance(0.5);
    put("simplify", symb_anafis::simplify(&text, &[], None).unwrap_or_else(|e| format!("! {e}")));
    noise();
    put("diff", symb_anafis::diff(&text, var, &[], None).unwrap_or_else(|e| format!("! {e}")));
    let Ok(e) = parse(&text) else { return (text, v) };
    put("display", format!("{e}\n{}\n{}", e.to_latex(), e.to_unicode()));
    put("simplify_expr", Simplify::new().domain_safe(safe).simplify(&e).map_or_else(|e| format!("! {e}"), |e| format!("{e}\n{}", e.to_latex())));
    noise();
    put("raw_derivative", Diff::new().skip_simplification(true).differentiate(&e, &symb(var)).map_or_else(|e| format!("! {e}"), |e| e.to_string()));
    let b = a.build();
    put("built", b.to_string());
    put("built_simplified", Simplify::new().simplify(&b).map_or_else(|e| format!("! {e}"), |e| e.to_string()));
    let vals: HashMap<&str, f64> = VARS.iter().copied().take(nv).zip(p.iter().copied()).collect();
    put("evaluate", e.evaluate(&vals, &HashMap::new()).to_string());
    let mut few = vals.clone(); few.remove(var);
    put("partial_evaluation", e.evaluate(&few, &HashMap::new()).to_string());
    noise();
    let names: Vec<&str> = VARS[..nv].to_vec();
    put("compiled", match CompiledEvaluator::compile(&e, &names, None) { Ok(ev) => format!("{:016x}", ev.evaluate(&p).to_bits()), Err(e) => format!("! {e}") });
    put("auto", match CompiledEvaluator::compile_auto(&e, None) { Ok(ev) => format!("{:?}", ev.param_names()), Err(e) => format!("! {e}") });
    put("gradient", symb_anafis::gradient_str(&text, &names).map_or_else(|e| format!("! {e}"), |g| g.join("\n")));
    if nv <= 2 { put("hessian", symb_anafis::hessian_str(&text, &names).map_or_else(|e| format!("! {e}"), |g| format!("{g:?}"))); }
    if nv <= 2 { put("uncertainty", symb_anafis::uncertainty_propagation(&e, &names, None).map_or_else(|e| format!("! {e}"), |e| e.to_string())); }
    noise();
    put("simplify_again", symb_anafis::simplify(&text, &[], None).unwrap_or_else(|e| format!("! {e}")));
    // bits of many points, in chunks and threads
    let k = *r.pick(&[3usize, 70, 300, 600]);
    let cols: Vec<Vec<f64>> = (0..nv).map(|_| (0..k).map(|_| r.uniform(-3.0, 3.0)).collect()).collect();
    let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
    let hash = |o: &[f64]| o.iter().fold(0u64, |h, x| mix(h ^ x.to_bits()));
    if let Ok(ev) = CompiledEvaluator::compile(&e, &names, None) {
        let mut o = vec![0.0; k];
        put("batch", ev.eval_batch(&refs, &mut o, None).map_or_else(|e| format!("! {e}"), |()| format!("{:016x}", hash(&o))));
        put("parallel_batch", ev.eval_batch_parallel(&refs).map_or_else(|e| format!("! {e}"), |o| format!("{:016x}", hash(&o))));
    }
    put("matrix", symb_anafis::eval_f64(&[&e, &b], &[&names, &names], &[&refs, &refs]).map_or_else(|e| format!("! {e}"), |o| format!("{:016x}", o.iter().fold(0, |h, o| mix(h ^ hash(o))))));
    (text, v)
}

/// Unrelated work of the kind a long-lived program does between two calls
fn unrelated(r: &mut Rng) {
    match r.below(10) {
        0 => { let _ = symb(&format!("noise{}", r.below(5000))); }
        1 => { let c = rand_cfg(r); let d = c.depth.min(3); let a = generate(r, &c, d); let _ = symb_anafis::simplify(&a.show(), &[], None); }
        2 => { let c = rand_cfg(r); let d = c.depth.min(3); let a = generate(r, &c, d); if let Ok(e) = parse(&a.show()) { let _ = Diff::new().differentiate(&e, &symb("y")); } }
        3 => for t in ["1 +", "sin(", "2 x)", "\u{0}", "f(x", "1..2"] { let _ = symb_anafis::simplify(t, &[], None); },
        4 => {
            // functions of other contexts, some named like built-in ones
            let k = r.uniform(1.0, 3.0);
            let f = UserFunction::new(1..=1).body(move |a| (*a[0]).clone() * k).partial(0, move |_| Expr::number(k)).unwrap();
            let name = *r.pick(&["sin", "exp", "uf1", "x", "noise"]);
            let ctx = Context::new().with_function(name, f).with_symbol("x").with_symbol("y");
            let e = Expr::func(name, ctx.symb("x").to_expr());
            let _ = CompiledEvaluator::compile(&e, &["x"], Some(&ctx)).map(|v| v.evaluate(&[1.0]));
            let _ = Diff::new().with_context(&ctx).differentiate(&e, &ctx.symb("x"));
            let _ = Simplify::new().with_context(&ctx).simplify(&e);
        }
        5 => {
            // a definition that panics
            let f = UserFunction::new(1..=1).body(|_| panic!("no")).partial(0, |_| panic!("no")).unwrap();
            let f2 = f.clone();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = Diff::new().user_fn("bad", f).diff_str("bad(x)^2", "x", &[]); }));
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let ctx = Context::new().with_function("bad", f2); let _ = CompiledEvaluator::compile(&Expr::func("bad", Expr::symbol("x")), &["x"], Some(&ctx)); }));
        }
        6 => { let s: Vec<_> = (0..r.below(50)).map(|_| symb_anafis::Symbol::anon()).collect(); let e = Expr::sum(s.iter().map(|s| s.to_expr()).collect()); let _ = Simplify::new().simplify(&e); }
        7 => { let e = Expr::sum((0..r.below(400)).map(|i| Expr::symbol("x") * i as f64).collect()); let _ = e.to_string(); let _ = CompiledEvaluator::compile(&e, &["x"], None).map(|v| v.evaluate(&[2.0])); }
        8 => { let _ = symb_anafis::parse("g(x, y) + h2(a)", &no_set(), &["g".to_string(), "h2".to_string()].into(), None); let _ = symb_anafis::diff("abc + ab*c + xy", "ab", &["abc", "ab"], None); }
        _ => { let _ = symb_anafis::uncertainty_propagation(&(Expr::symbol("x") * Expr::symbol("y")), &["x", "y"], None); }
    }
}
/// Process entry: replica <mode> <seed> <n>; prints one line per observed call
pub fn replica(a: &[String]) {
    let (mode, seed, n): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut r = Rng::new(mix(seed ^ mode << 32));
    let mut order: Vec<u64> = (0..n).collect();
    match mode {
        1 => {
            order.reverse();
            for v in VARS.iter().rev() { let _ = symb(v); }
        }
        2 | 3 => {
            for i in (1..order.len()).rev() { order.swap(i, r.below(i + 1)); }
            for _ in 0..40 { unrelated(&mut r); }
        }
        _ => {}
    }
    let show = |i: u64, seed: u64, noise: &mut dyn FnMut()| {
        let (t, v) = probe(mix(seed ^ i), noise);
        let mut o = format!("{i}\tINPUT\t{t}\n");
        for (k, s) in v { o += &format!("{i}\t{k}\t{}\n", s.replace('\n', "\\n")); }
        o
    };
    if mode == 3 {
        // threads: every input is asked for by two of them
        let out = std::sync::Mutex::new(String::new());
        std::thread::scope(|s| for t in 0..4u64 {
            let (order, out) = (&order, &out);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut r = Rng::new(mix(seed ^ t << 40));
                for (k, i) in order.iter().enumerate() {
                    if (k as u64 + t) % 4 > 1 { continue; }
                    let o = show(*i, seed, &mut || if r.chance(0.3) { unrelated(&mut r) });
                    out.lock().unwrap().push_str(&o);
                }
            }).unwrap();
        });
        print!("{}", out.into_inner().unwrap());
        return;
    }
    for i in order {
        if mode == 1 && r.chance(0.1) { symb_anafis::clear_symbols(); for _ in 0..r.below(4) { let _ = symb(VARS[r.below(VARS.len())]); } }
        let noisy = mode == 2;
        print!("{}", show(i, seed, &mut || if noisy { unrelated(&mut r) }));
    }
}
const MODES: [&str; 4] = ["a fresh process", "reverse order, symbols created in reverse", "shuffled, with unrelated work in between", "threads"];
fn p21(seed: u64, cx: &mut Cx) {
    let n = 12;
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..4).map(|m| std::process::Command::new(&exe).args(["replica", &m.to_string(), &seed.to_string(), &n.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().unwrap()).collect();
    let mut base: HashMap<(String, String), String> = HashMap::new();
    let mut text: HashMap<String, String> = HashMap::new();
    for (m, k) in kids.into_iter().enumerate() {
        let o = wait(k);
        let Some((ok, out, err)) = o else { cx.count("replica_timeouts"); if m == 0 { return } continue };
        if !ok { cx.violation("a replica crashed", format!("replica ({}) of inputs seed {seed}: {}", MODES[m], err.chars().take(600).collect::<String>())); return; }
        for l in out.lines() {
            let mut f = l.splitn(3, '\t');
            let (Some(i), Some(k), Some(v)) = (f.next(), f.next(), f.next()) else { continue };
            if k == "INPUT" { text.insert(i.into(), v.into()); if m == 0 { cx.count("inputs"); } }
            let key = (i.to_string(), k.to_string());
            if m == 0 {
                // the second call of the same process
                if k == "simplify_again" && base.get(&(i.to_string(), "simplify".to_string())).is_some_and(|s| s != v) { cx.violation("the same call gives another result later in the process", format!("simplify {}: {} then {v}", text[i], base[&(i.to_string(), "simplify".to_string())])); return; }
                base.insert(key, v.into());
                continue;
            }
            cx.count(["", "compared_reverse_order", "compared_after_other_work", "compared_in_threads"][m]);
            cx.observed(mix(seed ^ mix(i.parse::<u64>().unwrap()) ^ (k.len() as u64) << 8 ^ m as u64));
            match base.get(&key) {
                Some(b) if b == v => {}
                b => { cx.violation(format!("{k}: result depends on the history or process"), format!("{k} of {}: first process {:?}, {}: {v}", text.get(i).map_or("", String::as_str), b, MODES[m])); return; }
            }
        }
    }
    cx.sample(|| format!("{} inputs, e.g. {}", text.len(), text.get("0").map_or("", String::as_str)));
    settled(seed, cx);
}
/// Simplifying again keeps the value
fn settled(seed: u64, cx: &mut Cx) {
    for k in 0..12 {
        let mut r = Rng::new(mix(seed ^ k << 20));
        let c = rand_cfg(&mut r);
        let a = if r.chance(0.6) { super::templates::gen_template(&mut r, &c) } else { let d = c.depth.min(4); generate(&mut r, &c, d) };
        let safe = r.chance(0.7);
        let one = |e: &Expr| Simplify::new().domain_safe(safe).simplify(e);
        let Ok(s1) = one(&a.build()) else { continue };
        let Ok(s2) = one(&s1) else { cx.violation("a simplified expression is refused", s1.to_string()); continue };
        let (a1, a2) = (ast::from_expr(&s1), ast::from_expr(&s2));
        for j in 0..3 {
            let p = gen_point(&mut r, c.vars.max(1), j);
            if !safe && !super::simp::assumptions_hold(&a, &p) { continue; }
            let (v, b1, b2) = super::simp::compare(&a1, &a2, &p);
            if v == super::simp::Verdict::Skip { continue; }
            cx.count("simplified_again");
            if v == super::simp::Verdict::Wrong || safe && v == super::simp::Verdict::Lost { cx.violation("simplifying again changes the value", format!("{} -> {s1} -> {s2}: {b1:?}, {b2:?} at {p:?} (safe {safe})", a.show())); }
        }
    }
}
fn wait(mut k: std::process::Child) -> Option<(bool, String, String)> {
    use std::io::Read as _;
    let (mut o, mut e) = (k.stdout.take().unwrap(), k.stderr.take().unwrap());
    let t = std::thread::spawn(move || { let mut s = String::new(); let _ = o.read_to_string(&mut s); s });
    let u = std::thread::spawn(move || { let mut s = vec![]; let _ = e.read_to_end(&mut s); String::from_utf8_lossy(&s).into_owned() });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = k.try_wait().unwrap() { break s; }
        if t0.elapsed().as_secs() > 40 { let _ = k.kill(); let _ = k.wait(); return None; }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    Some((st.success(), t.join().unwrap(), u.join().unwrap()))
}
