mod checks;
mod engine;
mod gen;
mod refm;

use engine::{Config, Prop};

fn known(path: &str) -> Vec<(String, String, String)> {
    // Lines: known: property=<id> signature=<sig> <text>      (fixed: lines suppress nothing)
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: property=") {
                let mut it = rest.splitn(3, ' ');
                let id = it.next().unwrap_or("").to_string();
                let sig = it.next().unwrap_or("").trim_start_matches("signature=").to_string();
                v.push((id, sig, it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props: Vec<Prop> = checks::all();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let get = |k: &str| std::env::var(k).ok();
    let cfg = Config {
        seed: get("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: get("VERIF_TIER").unwrap_or_else(|| "quick".into()),
        scale: get("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        evidence_dir: get("VERIF_EVIDENCE").unwrap_or_else(|| format!("{}/evidence", root)),
        known: known(&format!("{}/known_findings.txt", root)),
    };
    engine::install_panic_hook();
    let id = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if id == "list" {
        for p in &props {
            println!("{}\t{}\t{}", p.id, p.quick, p.thorough);
        }
        return;
    }
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    engine::set_listed(p.id, &cfg.known);
    match get("VERIF_WORKER").as_deref() {
        Some("case") => {
            let case = get("VERIF_CASE").and_then(|s| s.parse().ok()).unwrap_or(0);
            std::process::exit(engine::run_case(p, &cfg, case, &get("VERIF_TRACE").unwrap_or_default()));
        }
        Some(_) => {}
        None => std::process::exit(engine::supervise(p, &cfg, &args)),
    }
    if let Some(f) = get("VERIF_SLOTS") {
        if let Err(e) = engine::share_slots(&f) {
            println!("ERROR cannot share {}: {}", f, e);
            std::process::exit(2);
        }
    }
    if get("VERIF_MARGIN").is_some() {
        engine::collect_margins();
    }
    let code = if args.get(2).map(|s| s == "--replay").unwrap_or(false) {
        engine::replay(p, args.get(3).map(|s| s.as_str()).unwrap_or(""))
    } else {
        engine::run(p, &cfg)
    };
    engine::show_margins();
    std::process::exit(code);
}
