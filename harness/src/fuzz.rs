//! Coverage-guided stage of the thorough tier: libFuzzer over the same choice strings.

use crate::ctx::{clip, hex, Ctx};
use crate::runner::{eval, install_hook, on_big_stack, shrink, write_replay, Env, Known, Prop};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::Duration;

const PROCESSES: u64 = 8;

/// Run after the random tier has passed; adds to its evidence file.
pub fn run(p: &Prop, env: &Env, bin: &Path) -> i32 {
    let secs: u64 = std::env::var("VH_FUZZ_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
    let dir = env.verif.join("target").join(format!("fuzz-{}", p.id));
    let _ = std::fs::remove_dir_all(&dir);
    let corpus = dir.join("corpus");
    std::fs::create_dir_all(&corpus).unwrap();
    let mut kids = vec![];
    for i in 0..PROCESSES {
        let log = std::fs::File::create(dir.join(format!("log{}", i))).unwrap();
        let kid = Command::new(bin)
            .arg(&corpus)
            .arg(format!("-max_total_time={}", secs))
            .arg(format!("-max_len={}", p.max_len))
            .arg(format!("-seed={}", env.seed.wrapping_mul(100).wrapping_add(i) % 2_000_000_000 + 1))
            .arg(format!("-artifact_prefix={}/crash{}-", dir.display(), i))
            .args(["-len_control=20", "-timeout=100", "-rss_limit_mb=3500", "-print_final_stats=1", "-use_value_profile=1"])
            .env("VH_FUZZ", p.id)
            .env("VH_VERIF", &env.verif)
            .current_dir(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(log)
            .spawn();
        match kid {
            Ok(k) => kids.push(k),
            Err(e) => eprintln!("cannot start the fuzzer: {}", e),
        }
    }
    for mut k in kids {
        let _ = k.wait();
    }
    let mut execs = 0u64;
    for i in 0..PROCESSES {
        let t = std::fs::read(dir.join(format!("log{}", i))).unwrap_or_default();
        for l in String::from_utf8_lossy(&t).lines() {
            if let Some(n) = l.strip_prefix("stat::number_of_executed_units:") {
                execs += n.trim().parse::<u64>().unwrap_or(0);
            }
        }
    }
    let corpus_size = std::fs::read_dir(&corpus).map(|d| d.count()).unwrap_or(0);
    let mut arts: Vec<_> = std::fs::read_dir(&dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter(|e| e.file_name().to_string_lossy().starts_with("crash"))
        .map(|e| e.path())
        .collect();
    arts.sort();
    let mut code = 0;
    for a in arts {
        let c = std::fs::read(&a).unwrap_or_default();
        // the ordinary build decides whether it is a failure
        let known = Arc::new(Known::load(&env.verif.join("KNOWN_FINDINGS.txt")));
        let (check, id) = (p.check, p.id);
        let r = on_big_stack(move || {
            install_hook();
            let fails = |c: &[u8]| {
                let mut ctx = Ctx::new(false);
                match eval(check, c, &mut ctx) {
                    (Err(e), used) if !known.matches(id, &e) => Some((e, used)),
                    _ => None,
                }
            };
            let (f, _) = fails(&c)?;
            let (best, f, n) = shrink(c, f, 6000, Duration::from_secs(25), fails);
            let mut ctx = Ctx::new(true);
            let _ = eval(check, &best, &mut ctx);
            Some((best, f, n, ctx.desc.unwrap_or_default()))
        });
        if let Some((best, f, n, desc)) = r {
            let path = write_replay(
                env,
                p.id,
                serde_json::json!({"property": p.id, "choices": hex(&best), "message": clip(&f.msg, 6000),
                    "case": clip(&desc, 4000), "found_by": "libFuzzer", "shrink_evaluations": n}),
            );
            println!("case: {}\n{}", clip(&desc, 1500), clip(&f.msg, 3000));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            code = 1;
            break;
        }
        eprintln!("the fuzzer's artifact {} does not fail in the ordinary build", a.display());
    }
    let ev = env.verif.join("evidence").join(format!("{}.json", p.id));
    if let Ok(t) = std::fs::read_to_string(&ev) {
        let mut v: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
        if v.is_object() {
            v["coverage"]["coverage_guided"] = serde_json::json!({"executions": execs, "corpus": corpus_size, "seconds": secs, "processes": PROCESSES});
            if code == 1 {
                v["violations"] = serde_json::json!(1);
            }
            let w = v["wall_s"].as_f64().unwrap_or(0.0) + secs as f64;
            v["wall_s"] = serde_json::json!(w);
            let _ = std::fs::write(&ev, serde_json::to_string_pretty(&v).unwrap());
        }
    }
    println!("{} coverage-guided: executions={} corpus={} seconds={}", p.id, execs, corpus_size, secs);
    if code == 0 {
        let _ = std::fs::remove_dir_all(&dir);
    }
    code
}
