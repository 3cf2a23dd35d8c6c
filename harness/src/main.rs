//! mon: workload driver + monitors for SymbAnaFis.
//!   mon run <ID> <quick|thorough> <seed>     parent: spawns workers, decides, writes evidence
//!   mon worker ...                           internal
//!   mon replay <ID> <case-seed>              re-run one case, print what the monitors say
mod ast; mod funcs; mod props; mod readers; mod refparse; mod report; mod rng;
use report::{Cx, esc};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::os::unix::process::ExitStatusExt as _;
use std::process::{Command, Stdio, exit};
use std::time::{Duration, Instant};

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

fn run_case(p: &props::Prop, seed: u64, cx: &mut Cx) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(seed, cx)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
        let loc = LAST_PANIC.with(|l| l.borrow().clone());
        if loc.contains("/harness/src/") || loc.starts_with("src/") { eprintln!("HARNESS PANIC {m} at {loc}"); cx.count("harness_panics"); }
        else { cx.violation(format!("panic at {}", strip_line(&loc)), format!("library panicked: {m} at {loc}")); }
    }
}
fn strip_line(l: &str) -> String { l.split(".rs").next().unwrap_or(l).rsplit("/src/").next().unwrap_or(l).to_string() }
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MON_BT").is_ok() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); }
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = l);
    }));
    match a.get(1).map(String::as_str) {
        Some("run") => exit(parent(&a[2], &a[3], a[4].parse().unwrap_or(1))),
        Some("worker") => worker(&a[2..]),
        Some("replay") => {
            let p = props::get(&a[2]);
            let s = a[3].clone();
            let h = std::thread::Builder::new().stack_size(p.stack_mb << 20).spawn(move || {
                let mut cx = Cx { replay: true, thorough: true, ..Cx::default() };
                if let Some(d) = s.strip_prefix("directed") { let _ = d; if let Some(f) = p.directed { f(&mut cx); } }
                else { run_case(&p, s.parse().unwrap(), &mut cx); }
                for (k, v) in &cx.counters { println!("counter {k} = {v}"); }
                for s in &cx.samples { println!("sample {s}"); }
                for (s, d) in &cx.viol { println!("violation [{s}] {d}"); }
                i32::from(!cx.viol.is_empty())
            }).unwrap();
            exit(h.join().unwrap_or(3));
        }
        Some("call") => for l in std::io::stdin().lines() { let l = l.unwrap(); let mut it = l.split_whitespace(); let Some(n) = it.next() else { continue };
            let v: Vec<f64> = it.map(|x| x.parse().unwrap()).collect(); println!("{:e}", funcs::tool_call(n, &v)); },
        Some("race") => exit(props::races::race(a[2].parse().unwrap())),
        Some("replica") => props::replicas::replica(&a[2..]),
        Some("list") => for p in props::all() { println!("{}", p.id); },
        _ => { eprintln!("usage: mon run|replay|list"); exit(2) }
    }
}

/// worker <id> <tier> <seed> <idx> <start> <deadline_ms> <prefix>
fn worker(a: &[String]) {
    let p = props::get(&a[0]);
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let idx: u64 = a[3].parse().unwrap();
    let start: u64 = a[4].parse().unwrap();
    let ms: u64 = a[5].parse().unwrap();
    let prefix = a[6].clone();
    let h = std::thread::Builder::new().stack_size(p.stack_mb << 20).spawn(move || {
        let t0 = Instant::now();
        let cf = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(format!("{prefix}.case")).unwrap();
        let mut log = std::fs::OpenOptions::new().create(true).append(true).open(format!("{prefix}.log")).unwrap();
        let mut cx = Cx { thorough, ..Cx::default() };
        let flush = |cx: &mut Cx, log: &mut std::fs::File, which: &str| {
            for (s, d) in cx.viol.drain(..) { writeln!(log, "V\t{which}\t{}\t{}", esc(&s), esc(&d)).unwrap(); }
        };
        if idx == 0 && start == 0 && let Some(f) = p.directed {
            write_case(&cf, "directed", 0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
            if r.is_err() { let loc = LAST_PANIC.with(|l| l.borrow().clone());
                if loc.contains("/harness/src/") || loc.starts_with("src/") { eprintln!("HARNESS PANIC (directed) at {loc}"); cx.count("harness_panics"); }
                else { cx.violation(format!("panic at {}", strip_line(&loc)), format!("library panicked in the directed workload at {loc}")); } }
            flush(&mut cx, &mut log, "directed");
        }
        let mut i = start;
        let max = if thorough { p.max_cases_thorough } else { p.max_cases };
        while t0.elapsed().as_millis() < u128::from(ms) && i < max {
            let cs = rng::mix(seed.wrapping_mul(0x1000_0000_01b3) ^ (idx << 48) ^ i) >> 1;
            write_case(&cf, &cs.to_string(), i);
            cx.count("cases");
            run_case(&p, cs, &mut cx);
            if !cx.viol.is_empty() { flush(&mut cx, &mut log, &cs.to_string()); }
            i += 1;
            if cx.counters.get("harness_panics").copied().unwrap_or(0) > 20 { break; }
        }
        write_case(&cf, "done", i);
        for (k, v) in &cx.counters { writeln!(log, "C\t{k}\t{v}").unwrap(); }
        for s in &cx.samples { writeln!(log, "S\t{}", esc(s)).unwrap(); }
        let mut b = Vec::with_capacity(cx.distinct.len() * 8);
        for d in &cx.distinct { b.extend_from_slice(&d.to_le_bytes()); }
        std::fs::write(format!("{prefix}.{start}.hash"), b).unwrap();
        writeln!(log, "DONE").unwrap();
    }).unwrap();
    if h.join().is_err() { exit(4); }
}
fn write_case(f: &std::fs::File, c: &str, i: u64) { let _ = f.write_at(format!("{c:<24} {i:<20}\n").as_bytes(), 0); }
fn read_case(p: &str) -> (String, u64) {
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let mut it = s.split_whitespace();
    (it.next().unwrap_or("").to_string(), it.next().and_then(|x| x.parse().ok()).unwrap_or(0))
}

fn known(id: &str) -> Vec<String> {
    // lines: known: property=<id> sig=<exact signature> :: <what fails>
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    s.lines().filter_map(|l| l.strip_prefix(&format!("known: property={id} sig="))).map(str::to_string).collect()
}

fn parent(id: &str, tier: &str, seed: u64) -> i32 {
    let p = props::get(id);
    let t0 = Instant::now();
    let n = p.workers;
    let ms: u64 = std::env::var("MON_SECS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(if tier == "thorough" { p.secs_thorough } else { p.secs }) * 1000;
    let dir = format!("{}/out/{id}.{}.{}", verif_dir(), tier, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    struct W { child: Option<std::process::Child>, start: u64, last: (String, u64), since: Instant, crashes: u32 }
    let spawn = |i: usize, start: u64| {
        let left = ms.saturating_sub(t0.elapsed().as_millis() as u64).max(if start == 0 { 1000 } else { 0 });
        Command::new(&exe).args(["worker", id, tier, &seed.to_string(), &i.to_string(), &start.to_string(), &left.to_string(), &format!("{dir}/w{i}")])
            .env("RAYON_NUM_THREADS", "3").stdin(Stdio::null()).stdout(Stdio::null())
            .stderr(std::fs::OpenOptions::new().create(true).append(true).open(format!("{dir}/w{i}.err")).unwrap()).spawn().unwrap()
    };
    let mut ws: Vec<W> = (0..n).map(|i| W { child: Some(spawn(i, 0)), start: 0, last: (String::new(), 0), since: Instant::now(), crashes: 0 }).collect();
    let mut viol: Vec<(String, String, String)> = vec![]; // case, sig, detail
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut inconclusive = 0u64;
    while ws.iter().any(|w| w.child.is_some()) {
        std::thread::sleep(Duration::from_millis(50));
        for i in 0..n {
            let w = &mut ws[i];
            let Some(ch) = w.child.as_mut() else { continue };
            match ch.try_wait().unwrap() {
                Some(st) => {
                    w.child = None;
                    let c = read_case(&format!("{dir}/w{i}.case"));
                    if st.success() && c.0 == "done" { continue; }
                    // died while running case c
                    let sig = st.signal();
                    let fatal = matches!(sig, Some(4 | 6 | 7 | 8 | 11)) || st.code() == Some(66) || st.code() == Some(77);
                    if fatal && !c.0.is_empty() && c.0 != "done" {
                        // confirm in isolation, twice
                        let mut hits = 0; let mut err = String::new();
                        for _ in 0..2 {
                            let o = Command::new("timeout").args(["-s", "KILL", "120"]).arg(&exe).args(["replay", id, &c.0]).output().unwrap();
                            let s2 = o.status.signal();
                            if matches!(s2, Some(4 | 6 | 7 | 8 | 11)) || matches!(o.status.code(), Some(66 | 77 | 132 | 134 | 135 | 136 | 139)) { hits += 1; err = String::from_utf8_lossy(&o.stderr).chars().take(1500).collect(); }
                        }
                        if hits == 2 { let cls = crash_class(&err); viol.push((c.0.clone(), format!("process killed by a fatal signal{cls}"), format!("case {} ends the process (signal {sig:?}): {err}", c.0))); }
                        else { inconclusive += 1; *counters.entry("unconfirmed_crashes".into()).or_default() += 1; eprintln!("unconfirmed crash at case {} ({st:?})", c.0); }
                    } else { inconclusive += 1; eprintln!("worker {i} ended with {st:?} at case {c:?}"); *counters.entry("worker_errors".into()).or_default() += 1; }
                    w.crashes += 1;
                    if w.crashes < 25 && (t0.elapsed().as_millis() as u64) < ms { w.start = c.1 + 1; w.child = Some(spawn(i, w.start)); w.since = Instant::now(); }
                }
                None => {
                    let c = read_case(&format!("{dir}/w{i}.case"));
                    if c != w.last { w.last = c; w.since = Instant::now(); }
                    else if w.since.elapsed() > Duration::from_secs(p.stall_secs) {
                        let _ = ch.kill(); let _ = ch.wait();
                        w.child = None; inconclusive += 1; *counters.entry("stalled_cases_inconclusive".into()).or_default() += 1;
                        eprintln!("stalled (inconclusive) at case {:?}", w.last);
                        let next = w.last.1 + 1;
                        w.crashes += 1;
                        if w.crashes < 25 && (t0.elapsed().as_millis() as u64) < ms { w.start = next; w.child = Some(spawn(i, next)); w.since = Instant::now(); }
                    }
                }
            }
        }
    }
    let mut samples = vec![]; let mut distinct: HashSet<u64> = HashSet::new();
    for i in 0..n {
        for l in std::fs::read_to_string(format!("{dir}/w{i}.log")).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" if f.len() >= 4 => viol.push((f[1].into(), f[2].into(), f[3].into())),
                "C" => *counters.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "S" => samples.push(f[1].to_string()),
                _ => {}
            }
        }
        for ent in std::fs::read_dir(&dir).unwrap().flatten() {
            let nm = ent.file_name().to_string_lossy().to_string();
            if nm.starts_with(&format!("w{i}.")) && nm.ends_with(".hash") {
                let b = std::fs::read(ent.path()).unwrap_or_default();
                for c in b.chunks_exact(8) { distinct.insert(u64::from_le_bytes(c.try_into().unwrap())); }
            }
        }
    }
    // decide
    let kn = known(id);
    let mut fresh: Vec<&(String, String, String)> = vec![];
    let mut seen: BTreeMap<&str, u64> = BTreeMap::new();
    for v in &viol { if let Some(k) = kn.iter().find(|k| k.split(" :: ").next() == Some(v.1.as_str())) { *seen.entry(k).or_default() += 1; } else { fresh.push(v); } }
    for k in &kn { println!("KNOWN-FINDING: property={id} {}", k.split(" :: ").nth(1).unwrap_or(k)); }
    let judged = counters.get("judged").copied().unwrap_or(0);
    let hp = counters.get("harness_panics").copied().unwrap_or(0);
    let cov: Vec<String> = counters.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect();
    let smp: Vec<String> = samples.iter().take(12).map(|s| format!("\"{s}\"")).collect();
    let ev = format!("{{\n \"property\": \"{id}\", \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"exploration\", \"wall_s\": {:.1},\n \"coverage\": {{\"evaluations\": {judged}, \"distinct_nontrivial\": {}, \"rule\": \"{}\", \"samples\": [{}],\n  \"observed\": {{{}}}, \"workers\": {n}, \"inconclusive\": {inconclusive}, \"known_findings_hit\": {}, \"violations\": {}}}\n}}\n",
        t0.elapsed().as_secs_f64(), distinct.len(), esc(p.rule), smp.join(", "), cov.join(", "), seen.values().sum::<u64>(), fresh.len());
    std::fs::create_dir_all(format!("{}/evidence", verif_dir())).unwrap();
    std::fs::write(format!("{}/evidence/{id}.json", verif_dir()), ev).unwrap();
    let mut groups: BTreeMap<&str, Vec<&(String, String, String)>> = BTreeMap::new();
    for v in &fresh { groups.entry(v.1.as_str()).or_default().push(v); }
    println!("{id} {tier} seed={seed}: cases={} judged={judged} distinct={} inconclusive={inconclusive} wall={:.1}s", counters.get("cases").copied().unwrap_or(0), distinct.len(), t0.elapsed().as_secs_f64());
    if !fresh.is_empty() {
        let rp = format!("{}/out/{id}-{tier}-{seed}.replay.txt", verif_dir());
        let mut s = String::new();
        for (g, v) in &groups {
            println!("  [{g}] x{}  e.g. {}", v.len(), v[0].2.chars().take(900).collect::<String>());
            for x in v.iter().take(10) { s += &format!("mon replay {id} {}   # [{}] {}\n", x.0, x.1, x.2); }
        }
        std::fs::write(&rp, s).unwrap();
        println!("VIOLATION property={id} replay={rp}");
        cleanup(&dir);
        return 1;
    }
    if hp > 0 { for i in 0..n { eprint!("{}", std::fs::read_to_string(format!("{dir}/w{i}.err")).unwrap_or_default().lines().take(5).collect::<Vec<_>>().join("\n")); } }
    cleanup(&dir);
    if judged < p.min_judged || hp > 0 {
        println!("INCONCLUSIVE property={id}: only {judged} observations judged (need {}), harness panics {hp}", p.min_judged);
        return 3;
    }
    0
}
fn cleanup(d: &str) { if std::env::var("MON_KEEP").is_err() && d.contains("/out/") { let _ = std::fs::remove_dir_all(d); } }
fn crash_class(err: &str) -> String {
    if err.contains("overflowed its stack") { " (stack overflow)".into() }
    else if let Some(l) = err.lines().find(|l| l.contains("ERROR: AddressSanitizer")) { format!(" ({})", l.split("AddressSanitizer: ").nth(1).unwrap_or("asan").split_whitespace().next().unwrap_or("asan")) }
    else { String::new() }
}
