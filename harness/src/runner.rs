//! Drives one property: proptest's seeded runner draws the choice strings, the property turns
//! each into a case, failures are shrunk and written as replay files, and the evidence file is
//! written from what was counted.

use crate::ctx::{clip, hex, unhex, Ctx, Failure, Res};
use crate::src::Src;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Check = fn(&mut Src, &mut Ctx) -> Res;
pub type Fixed = (&'static str, fn() -> Res);

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Longest choice string.
    pub max_len: usize,
    pub check: Check,
    pub fixed: &'static [Fixed],
    pub assumptions: &'static [&'static str],
}

pub const SHARDS: u64 = 8;

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

pub fn eval(check: Check, choices: &[u8], ctx: &mut Ctx) -> (Res, usize) {
    let mut s = Src::new(choices);
    let r = catch_unwind(AssertUnwindSafe(|| check(&mut s, ctx)));
    let used = s.used();
    match r {
        Ok(r) => (r, used),
        Err(_) => {
            let m = LAST_PANIC.with(|l| l.borrow().clone());
            (Err(Failure::new(format!("panicked: {}", clip(&m, 500)))), used)
        }
    }
}

pub fn eval_fixed(f: fn() -> Res) -> Res {
    match catch_unwind(f) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|l| l.borrow().clone());
            Err(Failure::new(format!("panicked: {}", clip(&m, 500))))
        }
    }
}

/// Shrink by deleting, zeroing and lowering choice bytes while the check still fails.
pub fn shrink<F: FnMut(&[u8]) -> Option<(Failure, usize)>>(
    start: Vec<u8>,
    first: Failure,
    max_evals: u64,
    max_time: Duration,
    mut fails: F,
) -> (Vec<u8>, Failure, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut fail = first;
    let mut evals = 0u64;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u8> = $cand;
            if cand == best || evals >= max_evals || t0.elapsed() > max_time {
                false
            } else {
                evals += 1;
                match fails(&cand) {
                    Some((f, used)) => {
                        best = cand;
                        best.truncate(used.max(1));
                        fail = f;
                        true
                    }
                    None => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // halve from the end
        while best.len() > 1 && attempt!(best[..best.len() / 2].to_vec()) {}
        for size in [64usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[i + size..]);
                if !attempt!(c) {
                    i += size.max(1);
                }
            }
        }
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|b| *b != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|b| *b = 0);
                    attempt!(c);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut step = 128u8;
            while step > 0 && i < best.len() {
                if best[i] >= step {
                    let mut c = best.clone();
                    c[i] -= step;
                    if attempt!(c) {
                        continue;
                    }
                }
                step /= 2;
            }
            i += 1;
        }
        if best == before || evals >= max_evals || t0.elapsed() > max_time {
            return (best, fail, evals);
        }
    }
}

pub struct Known {
    /// property, key, text
    pub entries: Vec<(String, String, String)>,
}

impl Known {
    /// Lines `known: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing.
    pub fn load(path: &Path) -> Known {
        let mut entries = vec![];
        for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
            if let Some(rest) = line.strip_prefix("known: property=") {
                let mut it = rest.splitn(3, ' ');
                let id = it.next().unwrap_or("").to_string();
                let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                entries.push((id, key, it.next().unwrap_or("").to_string()));
            }
        }
        Known { entries }
    }
    pub fn matches(&self, id: &str, f: &Failure) -> bool {
        match &f.key {
            Some(k) => self.entries.iter().any(|e| e.0 == id && e.1 == *k),
            None => false,
        }
    }
}

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_total: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub skipped: u64,
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
    pub journal: Option<PathBuf>,
    pub cases: Option<u64>,
}

impl Env {
    pub fn read() -> Env {
        let var = |k: &str| std::env::var(k).ok();
        Env {
            seed: var("VERIF_SEED").and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64,
            thorough: var("VERIF_TIER").as_deref() == Some("thorough"),
            verif: PathBuf::from(var("VH_VERIF").unwrap_or_else(|| "/verif".into())),
            journal: var("VH_JOURNAL").map(PathBuf::from),
            cases: var("VH_CASES").and_then(|s| s.parse().ok()),
        }
    }
}

#[cfg(feature = "pbt")]
pub struct Drawer {
    runner: proptest::test_runner::TestRunner,
    strat: proptest::strategy::BoxedStrategy<(usize, u8)>,
}

#[cfg(feature = "pbt")]
impl Drawer {
    pub fn new(seed: u64, id: &str, shard: u64, max_len: usize) -> Drawer {
        use proptest::prelude::*;
        use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&shard.to_le_bytes());
        for (i, b) in id.bytes().enumerate() {
            s[16 + i % 16] ^= b;
        }
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &s);
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let m = max_len;
        let strat = prop_oneof![
            2 => 0..(m.min(64)),
            3 => (m.min(32))..(m.min(300).max(33)),
            2 => (m / 4)..m,
        ]
        .prop_flat_map(|n| (Just(n), any::<u8>()))
        .boxed();
        Drawer { runner: TestRunner::new_with_rng(cfg, rng), strat }
    }
    pub fn draw(&mut self) -> Vec<u8> {
        use proptest::prelude::Rng;
        use proptest::strategy::{Strategy, ValueTree};
        let (n, mode) = self.strat.new_tree(&mut self.runner).unwrap().current();
        let mut v = vec![0u8; n];
        self.runner.rng().fill_bytes(&mut v);
        // some strings are biased towards simple choices
        if mode < 40 {
            let mut m = vec![0u8; n];
            self.runner.rng().fill_bytes(&mut m);
            for (x, k) in v.iter_mut().zip(m) {
                if k < 128 {
                    *x = (*x as usize * (*x as usize) / 256) as u8
                }
            }
        }
        v
    }
}

pub fn write_replay(env: &Env, id: &str, mut body: serde_json::Value) -> PathBuf {
    let dir = env.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    body["dict"] = crate::dict::to_json();
    let text = serde_json::to_string_pretty(&body).unwrap();
    let h = crate::model::keccak(text.as_bytes());
    let p = dir.join(format!("{}-{}.json", id, hex(&h[..4])));
    let _ = std::fs::write(&p, text);
    p
}

pub fn evidence(env: &Env, p: &Prop, t: &Tally, fixed: u64, wall: f64, violations: u64, extra: serde_json::Value) {
    let dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut cov = serde_json::json!({
        "evaluations": t.evals,
        "distinct_nontrivial": t.nontrivial.len(),
        "nontrivial_total": t.nontrivial_total,
        "rule": p.rule,
        "samples": t.samples,
        "labels": t.labels,
        "fixed_regression_cases": fixed,
        "undecided_skipped": t.skipped,
        "known_findings_hit": t.known,
        "shards": SHARDS,
    });
    if let (Some(o), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            o.insert(k.clone(), v.clone());
        }
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed as i64,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap());
}

pub fn known_lines(known: &Known, id: &str) {
    for (pid, _, text) in &known.entries {
        if pid == id {
            println!("KNOWN-FINDING: property={} {}", id, text);
        }
    }
}

#[cfg(feature = "pbt")]
pub fn work(p: &Prop, env: &Env) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let known = Known::load(&env.verif.join("KNOWN_FINDINGS.txt"));
    let mut tally = Tally::default();

    // fixed regression cases first
    let fixed_slot = env.journal.as_ref().map(|d| d.join("fixed"));
    for (name, f) in p.fixed {
        if let Some(j) = &fixed_slot {
            let _ = std::fs::write(j, name);
        }
        let f = *f;
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let _ = tx.send(eval_fixed(f));
        });
        let r = match rx.recv_timeout(Duration::from_secs(240)) {
            Ok(r) => r,
            Err(_) => {
                eprintln!("fixed case {} does not end", name);
                return 97;
            }
        };
        let _ = h.map(|h| h.join());
        if let Err(e) = r {
            if known.matches(p.id, &e) {
                *tally.known.entry(e.key.unwrap()).or_insert(0) += 1;
                continue;
            }
            let path = write_replay(
                env,
                p.id,
                serde_json::json!({"property": p.id, "fixed": name, "message": clip(&e.msg, 4000)}),
            );
            println!("fixed case {}: {}", name, clip(&e.msg, 2000));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            evidence(env, p, &tally, p.fixed.len() as u64, t0.elapsed().as_secs_f64(), 1, serde_json::json!({}));
            return 1;
        }
    }
    if let Some(j) = &fixed_slot {
        let _ = std::fs::remove_file(j);
    }

    let total = env.cases.unwrap_or(if env.thorough { p.thorough } else { p.quick });
    let per = (total + SHARDS - 1) / SHARDS;
    let stop = Arc::new(AtomicBool::new(false));
    let beats: Arc<Vec<AtomicU64>> = Arc::new((0..SHARDS).map(|_| AtomicU64::new(0)).collect());
    let fails: Arc<Mutex<BTreeMap<u64, (Vec<u8>, Failure)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let known = Arc::new(known);
    let mut handles = vec![];
    for shard in 0..SHARDS {
        let (p, stop, beats, fails, known) = (*p, stop.clone(), beats.clone(), fails.clone(), known.clone());
        let (seed, journal) = (env.seed, env.journal.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut d = Drawer::new(seed, p.id, shard, p.max_len);
                    let mut t = Tally::default();
                    let mut jf = journal.map(|j| std::fs::File::create(j.join(format!("{}", shard))).unwrap());
                    for i in 0..per {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let c = d.draw();
                        if let Some(f) = &mut jf {
                            use std::os::unix::fs::FileExt;
                            let mut rec = (c.len() as u32).to_le_bytes().to_vec();
                            rec.extend_from_slice(&c);
                            let _ = f.write_all_at(&rec, 0);
                        }
                        beats[shard as usize].fetch_add(1, Ordering::Relaxed);
                        let want = t.samples.len() < 2 && i > per / 3;
                        let mut ctx = Ctx::new(want);
                        let (r, _) = eval(p.check, &c, &mut ctx);
                        t.evals += 1;
                        if ctx.skipped {
                            t.skipped += 1;
                        }
                        for (k, n) in ctx.labels {
                            *t.labels.entry(k).or_insert(0) += n;
                        }
                        match r {
                            Ok(()) => {
                                if ctx.nontrivial {
                                    t.nontrivial_total += 1;
                                    // bounded memory: the count of distinct cases is a lower bound beyond this
                                    if t.nontrivial.len() < 2_000_000 {
                                        t.nontrivial.insert(ctx.key);
                                    }
                                    if let Some(s) = ctx.desc {
                                        t.samples.push(clip(&s, 700));
                                    }
                                }
                            }
                            Err(e) if known.matches(p.id, &e) => {
                                *t.known.entry(e.key.unwrap()).or_insert(0) += 1;
                            }
                            Err(e) => {
                                fails.lock().unwrap().insert(shard, (c, e));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                    if let Some(f) = &mut jf {
                        let _ = f.set_len(0);
                        let _ = f.flush();
                    }
                    beats[shard as usize].store(u64::MAX, Ordering::Relaxed);
                    t
                })
                .unwrap(),
        );
    }
    // watchdog: a case that does not end is handed to the parent for confirmation
    let mut last: Vec<(u64, Instant)> = (0..SHARDS).map(|_| (0, Instant::now())).collect();
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut done = true;
        for (i, b) in beats.iter().enumerate() {
            let v = b.load(Ordering::Relaxed);
            if v == u64::MAX {
                continue;
            }
            done = false;
            if v != last[i].0 {
                last[i] = (v, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(100) {
                eprintln!("shard {} makes no progress", i);
                return 97;
            }
        }
        if done || handles.iter().all(|h| h.is_finished()) {
            break;
        }
    }
    for h in handles {
        let t = match h.join() {
            Ok(t) => t,
            Err(_) => return 98,
        };
        tally.evals += t.evals;
        tally.skipped += t.skipped;
        tally.nontrivial.extend(t.nontrivial);
        tally.nontrivial_total += t.nontrivial_total;
        for (k, n) in t.labels {
            *tally.labels.entry(k).or_insert(0) += n;
        }
        for (k, n) in t.known {
            *tally.known.entry(k).or_insert(0) += n;
        }
        tally.samples.extend(t.samples);
    }
    tally.samples.truncate(12);
    let fails = std::mem::take(&mut *fails.lock().unwrap());
    let mut code = 0;
    if let Some((shard, (c, f))) = fails.into_iter().next() {
        let check = p.check;
        let id = p.id;
        let kn = known.clone();
        let (best, f, evals) = std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                shrink(c, f, 6000, Duration::from_secs(25), |c| {
                    let mut ctx = Ctx::new(false);
                    match eval(check, c, &mut ctx) {
                        (Err(e), used) if !kn.matches(id, &e) => Some((e, used)),
                        _ => None,
                    }
                })
            })
            .unwrap()
            .join()
            .unwrap();
        let mut ctx = Ctx::new(true);
        let (_, _) = eval(p.check, &best, &mut ctx);
        let desc = ctx.desc.unwrap_or_default();
        let path = write_replay(
            env,
            p.id,
            serde_json::json!({
                "property": p.id, "choices": hex(&best), "message": clip(&f.msg, 6000),
                "case": clip(&desc, 4000), "found_by": {"seed": env.seed, "shard": shard}, "shrink_evaluations": evals,
            }),
        );
        println!("case: {}", clip(&desc, 1500));
        println!("{}", clip(&f.msg, 3000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    }
    if code == 0 {
        known_lines(&known, p.id);
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(env, p, &tally, p.fixed.len() as u64, wall, code as u64, serde_json::json!({}));
    println!(
        "{} {} evaluations={} distinct_nontrivial={} skipped={} wall={:.1}s",
        p.id,
        if code == 0 { "ok" } else { "VIOLATED" },
        tally.evals,
        tally.nontrivial.len(),
        tally.skipped,
        wall
    );
    code
}

/// Replay one recorded case; 0 = the property holds on it, 1 = it fails.
pub fn replay(p: &Prop, path: &Path) -> i32 {
    install_hook();
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path.display(), e);
            return 2;
        }
    };
    let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
    let p = *p;
    let r: Res = if let Some(name) = v["fixed"].as_str() {
        let name = name.to_string();
        on_big_stack(move || match p.fixed.iter().find(|f| f.0 == name) {
            Some(f) => eval_fixed(f.1),
            None => Err(Failure::new("no such fixed case")),
        })
    } else {
        let c = v["choices"].as_str().and_then(unhex).unwrap_or_default();
        on_big_stack(move || {
            let mut ctx = Ctx::new(true);
            let (r, _) = eval(p.check, &c, &mut ctx);
            println!("case: {}", clip(&ctx.desc.unwrap_or_default(), 3000));
            r
        })
    };
    match r {
        Ok(()) => {
            println!("replay: property {} holds on this case", p.id);
            0
        }
        Err(e) => {
            println!("{}", clip(&e.msg, 6000));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}

/// Runs `f` on a stack of the size Rust gives threads by default: running out of it ends the
/// process, which the supervising process reports.
pub fn on_plain_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap()
}

pub fn on_big_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap()
}

/// Parent: run the worker; if it is killed by a signal or hangs, find the responsible case by
/// replaying the journalled cases in processes of their own.
pub fn supervise(p: &Prop, env: &Env) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let jdir = env.verif.join("target").join(format!("journal-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&jdir);
    std::fs::create_dir_all(&jdir).unwrap();
    let st = Command::new(&exe).arg("work").arg(p.id).env("VH_JOURNAL", &jdir).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            return 2;
        }
    };
    let code = st.code();
    if let Some(c @ (0 | 1)) = code {
        let _ = std::fs::remove_dir_all(&jdir);
        return c;
    }
    eprintln!("worker ended with {:?} signal {:?}; replaying the journalled cases", code, st.signal());
    let mut cands: Vec<serde_json::Value> = vec![];
    if let Ok(name) = std::fs::read_to_string(jdir.join("fixed")) {
        cands.push(serde_json::json!({"property": p.id, "fixed": name}));
    }
    for s in 0..SHARDS {
        if let Ok(b) = std::fs::read(jdir.join(format!("{}", s))) {
            if b.len() >= 4 {
                let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
                if b.len() >= 4 + n {
                    cands.push(serde_json::json!({"property": p.id, "choices": hex(&b[4..4 + n])}));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&jdir);
    let mut found = None;
    let mut kids = vec![];
    for c in cands {
        let path = write_replay(env, p.id, c);
        // 120 s of processor time for a case that normally takes milliseconds
        let kid = Command::new("bash")
            .arg("-c")
            .arg(format!(
                "ulimit -t 120; ulimit -c 0; ulimit -v 12000000; exec '{}' replay '{}' >/dev/null 2>&1",
                exe.display(),
                path.display()
            ))
            .spawn();
        if let Ok(k) = kid {
            kids.push((k, path));
        }
    }
    for (mut k, path) in kids {
        if let Ok(s) = k.wait() {
            let bad = s.signal().is_some() || s.code() == Some(1);
            if bad && found.is_none() {
                found = Some((path, s.signal()));
            } else {
                let _ = std::fs::remove_file(&path);
            }
        }
    }
    match found {
        Some((path, sig)) => {
            println!("the process dies (signal {:?}) or does not end on this case", sig);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            evidence(
                env,
                p,
                &Tally { evals: 1, ..Default::default() },
                0,
                0.0,
                1,
                serde_json::json!({"note": "worker process died; counts lost"}),
            );
            1
        }
        None => 2,
    }
}
