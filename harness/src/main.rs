//! Property-based checks of reCTBN. See /verif/DESIGN.md.
mod fw;
mod gen;
mod model;
mod props;
mod wrap;

use fw::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn subs_of(id: &str) -> Option<Vec<Sub>> {
    Some(match id {
        "C01" => props::c01::subs(),
        "C02" => props::c02::subs(),
        "C03" => props::c03::subs(),
        "C04" => props::c04::subs(),
        "C05" => props::c05::subs(),
        "C06" => props::c06::subs(),
        "C07" => props::c07::subs(),
        "C08" => props::c08::subs(),
        "C09" => props::c09::subs_mle(),
        "C10" => props::c09::subs_bayes(),
        "C11" => props::c11::subs(),
        "C12" => props::c12::subs(),
        "C13" => props::c13::subs(),
        "C14" => props::c14::subs(),
        "C15" => props::c15::subs(),
        "C16" => props::c16::subs(),
        "C17" => props::c17::subs(),
        "C18" => props::c18::subs(),
        "C19" => props::c19::subs(),
        "C20" => props::c20::subs(),
        "C21" => props::c21::subs(),
        "C22" => props::c22::subs(),
        "C23" => props::c23::subs(),
        _ => return None,
    })
}

/// Multiplier of the case counts written in the property modules, balancing the run times.
fn factor(id: &str) -> f64 {
    match id {
        "C03" | "C17" | "C18" => 8.0,
        "C21" => 20.0,
        "C01" | "C02" | "C05" | "C16" => 5.0,
        "C04" | "C09" | "C10" => 4.0,
        "C08" | "C11" | "C12" | "C14" | "C15" => 3.0,
        "C13" | "C20" | "C22" => 2.0,
        "C07" | "C19" | "C23" => 1.5,
        _ => 1.0,
    }
}

fn die(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", msg);
    std::process::exit(4)
}

struct Finding {
    property: String,
    case: String,
    expect: String,
    text: String,
}

/// `finding: property=<id> case=<replay file> expect="<part of the failure text>" <what fails>`
fn findings(root: &Path) -> Vec<Finding> {
    let text = std::fs::read_to_string(root.join("KNOWN_FINDINGS")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let parse = || -> Option<Finding> {
                let (property, rest) = rest.strip_prefix("property=")?.split_once(' ')?;
                let (case, rest) = rest.strip_prefix("case=")?.split_once(' ')?;
                let (expect, text) = rest.strip_prefix("expect=\"")?.split_once("\" ")?;
                Some(Finding { property: property.into(), case: case.into(), expect: expect.into(), text: text.into() })
            };
            out.push(parse().unwrap_or_else(|| die(&format!("bad line in KNOWN_FINDINGS: {}", l))));
        }
    }
    out
}

/// 'f', 'c': do not tolerate the known finding of the F test, of the chi-squared test.
fn strict(which: &str) {
    model::STRICT_F.store(which.contains('f'), std::sync::atomic::Ordering::SeqCst);
    model::STRICT_CHI.store(which.contains('c'), std::sync::atomic::Ordering::SeqCst);
}

fn load(path: &Path) -> (String, String, Value) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{}: {}", path.display(), e))))
        .unwrap_or_else(|e| die(&format!("{}: {}", path.display(), e)));
    let s = |k: &str| v[k].as_str().unwrap_or_else(|| die(&format!("{}: no {}", path.display(), k))).to_string();
    (s("property"), s("sub"), v["case"].clone())
}

fn raw_field(path: &Path, key: &str) -> String {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    v[key].as_str().unwrap_or_else(|| die(&format!("{}: no {}", path.display(), key))).to_string()
}

fn write_replay(root: &Path, id: &str, sub: &str, seed: u64, case: &Value, message: &str) -> PathBuf {
    let dir = root.join("replays");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&e.to_string()));
    let slug: String = sub.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let path = dir.join(format!("{}-{}-seed{}.json", id, slug, seed));
    let v = json!({"property": id, "sub": sub, "case": case, "message": message,
                   "how": format!("./check.sh {} --replay {}", id, path.display())});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
    path
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let id = args.get(1).cloned().unwrap_or_else(|| die("usage: rectbn-pbt <property> [--replay FILE]"));
    let subs = subs_of(&id).unwrap_or_else(|| die("unknown property"));

    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let path = PathBuf::from(args.get(3).cloned().unwrap_or_else(|| die("--replay needs a file")));
        let (p, s, case) = load(&path);
        if p != id {
            die("the replay file belongs to another property");
        }
        let sub = subs.iter().find(|x| x.name == s).unwrap_or_else(|| die("no such sub-check"));
        match (sub.replay)(&case) {
            Ok(_) => println!("replay of {} holds", path.display()),
            Err(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", id, path.display());
                std::process::exit(1);
            }
        }
        return;
    }

    // A run that does not come back is an error of the check, never a verdict.
    let limit = if thorough { 6 * 3600 } else { 780 };
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("HARNESS ERROR: no result after {} s", limit);
        std::process::exit(5);
    });

    let t0 = Instant::now();
    let known = findings(&root);
    let mut violations: Vec<String> = vec![];
    let mut regressions = 0u64;

    // committed reproductions of repaired defects first
    let dir = root.join("regressions").join(&id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let (_, s, case) = load(&f);
        let sub = subs.iter().find(|x| x.name == s).unwrap_or_else(|| die(&format!("{}: no such sub-check", f.display())));
        regressions += 1;
        if let Err(m) = (sub.replay)(&case) {
            eprintln!("[{}] regression {}: {}", id, f.display(), m);
            violations.push(f.display().to_string());
        }
    }

    // known findings: exactly these inputs, failing exactly this way
    for k in known.iter().filter(|k| k.property == id) {
        let f = root.join(&k.case);
        let (_, s, case) = load(&f);
        let sub = subs.iter().find(|x| x.name == s).unwrap_or_else(|| die(&format!("{}: no such sub-check", f.display())));
        regressions += 1;
        strict(&raw_field(&f, "strict"));
        let outcome = (sub.replay)(&case);
        strict("");
        match outcome {
            Ok(_) => eprintln!("[{}] known finding {} no longer fails", id, f.display()),
            Err(m) if m.contains(&k.expect) => println!("KNOWN-FINDING: property={} {}", id, k.text),
            Err(m) => {
                eprintln!("[{}] known finding {} fails in another way: {}", id, f.display(), m);
                violations.push(f.display().to_string());
            }
        }
    }

    // for looking at the known findings: do not tolerate them in the search
    strict(&std::env::var("VERIF_STRICT").unwrap_or_default());
    let only = std::env::var("VERIF_SUB").ok();
    let ctx = RunCtx { property: id.clone(), seed, thorough, scale: scale * factor(&id) };
    let (mut evaluations, mut distinct) = (regressions, 0u64);
    let (mut samples, mut detail, mut rules) = (vec![], vec![], vec![]);
    for s in &subs {
        if only.as_ref().map_or(false, |o| !s.name.starts_with(o.as_str())) {
            continue;
        }
        let r = (s.run)(&ctx);
        evaluations += r.evaluations;
        distinct += r.distinct;
        rules.push(format!("[{}] {}", r.name, r.rule));
        for x in &r.samples {
            samples.push(json!({"sub": r.name, "case": x}));
        }
        detail.push(json!({"sub": r.name, "evaluations": r.evaluations, "nontrivial": r.nontrivial,
                           "distinct_nontrivial": r.distinct, "classes": r.tags, "wall_s": r.wall_s}));
        eprintln!("[{}] {}: {} cases, {} non-trivial, {:.1}s, classes {:?}", id, r.name, r.evaluations, r.nontrivial, r.wall_s, r.tags);
        if let Some(f) = &r.failure {
            let hash = format!("{:016x}", fnv(f.case.to_string().as_bytes()));
            eprintln!("[{}] {} FAILED after {} shrink steps: {}\n  case (hash {}): {}", id, r.name, f.shrinks, f.message, hash, clip(&f.case, 3000));
            violations.push(write_replay(&root, &id, r.name, seed, &f.case, &f.message).display().to_string());
        }
    }

    let evidence = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" "),
            "samples": samples,
            "regression_cases": regressions,
            "subchecks": detail,
        },
        "assumptions": [
            "the reference implementations in harness/src/model.rs are right",
            "floating-point comparisons use the tolerances stated in DESIGN.md",
            "statistical comparisons use the deviation bound of DESIGN.md (false-alarm probability below 1e-8 per run)"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = root.join("evidence");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&e.to_string()));
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&evidence).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
    for v in &violations {
        println!("VIOLATION property={} replay={}", id, v);
    }
    if !violations.is_empty() {
        std::process::exit(1);
    }
    println!("{}: held on {} cases ({} distinct non-trivial), {:.1} s", id, evaluations, distinct, t0.elapsed().as_secs_f64());
}
