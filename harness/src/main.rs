use std::path::Path;
use vh::runner;

#[global_allocator]
static ALLOC: vh::props::mem::Counting = vh::props::mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = runner::Env::read();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("list"), _) => {
            for p in vh::props::all() {
                println!("{}", p.id);
            }
            0
        }
        (Some("prepare"), _) => vh::derive::prepare(&env),
        (Some("run"), Some(id)) if id == "C24" || id == "C25" => vh::derive::run(prop(id), &env),
        (Some("run"), Some(id)) => runner::supervise(prop(id), &env),
        (Some("work"), Some(id)) => runner::work(prop(id), &env),
        (Some("fuzz"), Some(id)) => vh::fuzz::run(prop(id), &env, Path::new(a.get(3).map_or("", |s| s.as_str()))),
        (Some("replay"), Some(f)) => {
            let text = std::fs::read_to_string(f).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
            if v["dict"].is_object() {
                vh::dict::install(&v["dict"]);
            }
            let p = prop(v["property"].as_str().unwrap_or(""));
            if p.id == "C24" || p.id == "C25" {
                vh::derive::replay(p, &env, Path::new(f))
            } else {
                runner::replay(p, Path::new(f))
            }
        }
        _ => {
            eprintln!("usage: vh list | run ID | work ID | replay FILE");
            2
        }
    };
    std::process::exit(code)
}

fn prop(id: &str) -> &'static runner::Prop {
    match vh::props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}
