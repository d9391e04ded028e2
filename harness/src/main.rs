//! `raki-pbt <property> [--replay FILE]`: decides one property of raki by generated-input search.

mod api;
mod case;
mod crash;
mod debug;
mod engine;
mod expand;
mod heap;
mod history;
mod known;
mod model;
mod ops;
mod program;
mod props;
mod text;

use engine::{Progress, Search};
use props::{Prop, PROPS};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .expect("parent")
        .to_path_buf()
}

fn die(msg: &str) -> ! {
    eprintln!("error: {msg}");
    std::process::exit(2);
}

struct Run {
    id: String,
    tier: String,
    seed: u64,
    start: Instant,
}

impl Run {
    fn evidence(&self, mut coverage: Value, violations: u64) {
        // Counts of the run without debug assertions that preceded this one.
        if let (Some(p), None) = (
            std::env::var_os("RAKI_PBT_PLAIN"),
            std::env::var_os("RAKI_PBT_EVIDENCE"),
        ) {
            let text = std::fs::read_to_string(p).unwrap_or_default();
            if let Ok(v) = serde_json::from_str::<Value>(&text) {
                coverage["without_debug_assertions"] = json!({
                    "evaluations": v["coverage"]["evaluations"],
                    "distinct_nontrivial": v["coverage"]["distinct_nontrivial"],
                    "exhaustive": v["coverage"]["exhaustive"],
                });
            }
        }
        let v = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": [
                "the reference model (harness/src/model.rs) states the RISC-V encodings correctly",
                "raki is built from the working tree of /repo by the harness's cargo profile"
            ],
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": violations,
        });
        let path = match std::env::var_os("RAKI_PBT_EVIDENCE") {
            Some(p) => PathBuf::from(p),
            None => root().join("evidence").join(format!("{}.json", self.id)),
        };
        let dir = path.parent().expect("directory");
        std::fs::create_dir_all(dir).unwrap_or_else(|e| die(&e.to_string()));
        let text = serde_json::to_string_pretty(&v).expect("json") + "\n";
        std::fs::write(&path, text).unwrap_or_else(|e| die(&e.to_string()));
    }

    fn violation(&self, case: &Value, msg: &str, stage: &str) -> ! {
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&e.to_string()));
        let path = dir.join(format!("{}-{}-{}.json", self.id, self.tier, self.seed));
        let v = json!({"property": self.id, "case": case, "why": msg, "stage": stage, "seed": self.seed});
        std::fs::write(
            &path,
            serde_json::to_string_pretty(&v).expect("json") + "\n",
        )
        .unwrap_or_else(|e| die(&e.to_string()));
        println!("{}: {case}: {msg}", self.id);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        std::process::exit(1);
    }
}

fn replay(id: &str, file: &str) -> ! {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{file}: {e}")));
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| die(&format!("{file}: {e}")));
    let case = &v["case"];
    let outcome = if case["kind"] == "history" {
        let h = history::from_json(case).unwrap_or_else(|| die("bad history"));
        history::check(&h)
    } else if case["kind"] == "program" {
        let p = program::Program::from_json(case).unwrap_or_else(|| die("bad program"));
        program::check(&model::Model::new(), &p, &|_| ())
    } else {
        let p = PROPS
            .iter()
            .find(|p| p.id == id)
            .unwrap_or_else(|| die("no such property"));
        let c = case::Case::from_json(case).unwrap_or_else(|| die("bad case"));
        let m = model::Model::new();
        crash::alone(id, c).or_else(|| {
            println!("{}", c.describe());
            props::judge(p, &m, &c).err().map(|f| f.msg)
        })
    };
    match outcome {
        Some(msg) => {
            println!("{id}: {msg}");
            println!("VIOLATION property={id} replay={file}");
            std::process::exit(1);
        }
        None => {
            println!("{id}: the case holds");
            std::process::exit(0);
        }
    }
}

fn class_name(p: &Prop, k: u32) -> String {
    let k = k as usize;
    if p.id == "C11" {
        return props::REASONS.get(k - 1).unwrap_or(&"?").to_string();
    }
    match k.checked_sub(1).and_then(|i| ops::OPS.get(i)) {
        Some(o) => o.mnem.into(),
        None if k == props::OVER_WIDE as usize => "over-wide".into(),
        None => "unlisted".into(),
    }
}

fn words(run: &Run, p: &'static Prop) {
    let thorough = run.tier == "thorough";
    let m: &'static model::Model = Box::leak(Box::new(model::Model::new()));
    let known: &'static known::Known = Box::leak(Box::new(
        known::Known::load(&root().join("known_findings.txt")).unwrap_or_else(|e| die(&e)),
    ));
    let path = std::env::var_os(crash::WORKER).unwrap_or_else(|| die("no progress file"));
    let progress: &'static Progress =
        Box::leak(Box::new(Progress::new(crash::slots(Path::new(&path)))));
    std::thread::spawn(move || loop {
        if progress.stuck(Duration::from_secs(20)) {
            std::process::exit(crash::STUCK);
        }
    });
    let budget = match (thorough, cfg!(debug_assertions)) {
        (true, true) => 440,
        (true, false) => 300,
        _ => 600,
    };
    let search = Search {
        prop: p,
        model: m,
        known,
        deadline: run.start + Duration::from_secs(budget),
        progress,
    };
    let mut s = engine::Stats::default();
    let majors = p.majors.list();
    let n = if thorough { 4_000_000 } else { 300_000 };
    let mut streams = program::Stats::default();
    if p.id == "C23" {
        let at = |c| progress.at(0, c);
        if let Some((program, why)) = program::search(m, run.seed, n / 10, &at, &mut streams) {
            let coverage = json!({
                "evaluations": streams.programs,
                "distinct_nontrivial": streams.nontrivial.len(),
                "rule": p.rule,
                "samples": streams.samples,
                "exhaustive": false,
            });
            run.evidence(coverage, 1);
            run.violation(&program.to_json(), &why, "programs");
        }
    }
    let found = search
        .random(n, run.seed, 0, &majors, &mut s)
        .or_else(|| {
            let (per_op, step) = if thorough {
                (2_000_000, 5)
            } else {
                (20_000, 31)
            };
            search.pairs(run.seed, per_op, step, &mut s)
        })
        .or_else(|| search.sweep(&majors, &mut s));
    let classes: serde_json::Map<String, Value> = s
        .classes
        .iter()
        .map(|(k, n)| (class_name(p, *k), json!(n)))
        .collect();
    let mut coverage = json!({
        "evaluations": s.random + s.enumerated + streams.programs,
        "distinct_nontrivial": s.enumerated_nontrivial + (s.extra.len() + streams.nontrivial.len()) as u64,
        "rule": format!(
            "cases: seeded random encodings of the model with boundary-biased operands and disturbed \
             fields ({}), then enumeration of the domain; {}", s.random, p.rule),
        "samples": s.samples.iter().map(|c| c.describe()).collect::<Vec<_>>(),
        "exhaustive": s.complete && p.sampled.is_none(),
        "words_enumerated_completely": s.complete,
        "sampled_part": p.sampled,
        "random_cases": s.random,
        "random_nontrivial": s.random_nontrivial,
        "majors_enumerated_completely": majors.len(),
        "enumerated_halfwords": p.half,
        "classes": classes,
        "known_finding_hits": s.known_hits.values().sum::<u64>(),
    });
    if p.id == "C23" {
        coverage["programs"] = json!(streams.programs);
        coverage["programs_nontrivial"] = json!(streams.nontrivial.len());
        coverage["program_instructions"] = json!(streams.instructions);
        coverage["program_samples"] = json!(streams.samples);
    }
    run.evidence(coverage, u64::from(found.is_some()));
    for (i, k) in known
        .0
        .iter()
        .enumerate()
        .filter(|(_, k)| k.property == p.id)
    {
        if s.known_hits.get(&i).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    if let Some(f) = found {
        run.violation(&f.case.to_json(), &f.fail.msg, f.stage);
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial, {} classes, exhaustive: {}) in {:.1} s",
        p.id,
        s.random + s.enumerated + streams.programs,
        s.enumerated_nontrivial + (s.extra.len() + streams.nontrivial.len()) as u64,
        s.classes.len(),
        s.complete && p.sampled.is_none(),
        run.start.elapsed().as_secs_f64()
    );
}

/// The search in a worker process, which may crash.
fn supervised(run: &Run) {
    let search = || crash::supervise(&run.id, &root().join("target"));
    let mut end = search();
    if matches!(end, Err(None)) && run.start.elapsed() < Duration::from_secs(120) {
        // Nothing to blame: perhaps the machine stood still.
        end = search();
    }
    let c = match end {
        Ok(code) => std::process::exit(code),
        Err(None) => die("the search was killed"),
        Err(Some(c)) => c,
    };
    if !crash::counts(&run.id, &model::Model::new(), c.case) {
        die(&format!("{} on {}", c.how, c.case.to_json()));
    }
    let coverage = json!({
        "evaluations": c.evaluations,
        "distinct_nontrivial": 1,
        "rule": "the search ended at a case that brings the process down; only that case is counted",
        "samples": [c.case.to_json()],
        "exhaustive": false,
    });
    run.evidence(coverage, 1);
    run.violation(&c.case.to_json(), &c.how, "crash");
}

/// Judge, or only decode, the case on stdin.
fn one(id: &str, decode: bool) {
    let text = std::io::read_to_string(std::io::stdin()).unwrap_or_else(|e| die(&e.to_string()));
    let v = serde_json::from_str(&text).unwrap_or_else(|e| die(&e.to_string()));
    let c = case::Case::from_json(&v).unwrap_or_else(|| die("bad case"));
    match (c, PROPS.iter().find(|p| p.id == id)) {
        (case::Case::Word { width, word, isa }, _) if decode => {
            let _ = api::decode(width, word, isa);
        }
        (_, Some(p)) => {
            let _ = props::judge(p, &model::Model::new(), &c);
        }
        _ => die("no such property"),
    }
}

fn histories(run: &Run) {
    let m = model::Model::new();
    let mut s = history::Stats::default();
    let budget = std::env::var("RAKI_PBT_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok());
    let budget = Duration::from_secs(budget.unwrap_or(600));
    let found = history::search(&m, run.seed, run.tier == "thorough", budget, &mut s);
    let coverage = json!({
        "evaluations": s.histories,
        "distinct_nontrivial": s.nontrivial.len(),
        "rule": "a case is a history of calls over a pool of confusable calls, run in four fresh processes \
                 (forward twice, reversed, grouped, on six threads) whose results must agree per call; \
                 non-trivial when a call that decodes recurs after a different call; besides, calls of \
                 every opcode are repeated very often, and the supported words are swept forwards and \
                 backwards, where the results must be the same both ways and a panel of calls is \
                 evaluated again after every 2^15 words",
        "samples": s.samples,
        "exhaustive": false,
        "calls_executed": s.calls,
        "longest_history": s.longest,
        "words_swept_between_panel_rounds": s.swept,
        "panel_calls": s.panel,
        "panel_rounds": s.panel_rounds,
        "calls_repeated": s.repeated,
        "skipped_for_lack_of_time": s.skipped,
    });
    run.evidence(coverage, u64::from(found.is_some()));
    if let Some(f) = found {
        run.violation(&history::to_json(&f.history), &f.msg, "histories");
    }
    println!(
        "{}: held on {} histories ({} distinct non-trivial, {} calls) in {:.1} s",
        run.id,
        s.histories,
        s.nontrivial.len(),
        s.calls,
        run.start.elapsed().as_secs_f64()
    );
}

fn main() {
    api::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        ["--eval-history", order, ..] => return history::child(order),
        ["--dump", isa] => return dump(isa),
        [id, "--replay", file] => replay(id, file),
        [id, "--one"] => return one(id, false),
        [id, "--decode"] => return one(id, true),
        [_] => {}
        _ => die("usage: raki-pbt <property> [--replay FILE]"),
    }
    // Any seed will do; one that is no number is hashed.
    let seed = std::env::var("VERIF_SEED").unwrap_or_default();
    let seed = match seed.trim() {
        "" => 1,
        s => s.parse::<u64>().unwrap_or_else(|_| {
            s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
                (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3)
            })
        }),
    };
    let run = Run {
        id: args[0].clone(),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough".into(),
            _ => "quick".into(),
        },
        seed,
        start: Instant::now(),
    };
    if run.id == "C17" {
        histories(&run);
    } else {
        match PROPS.iter().find(|p| p.id == run.id) {
            Some(p) if std::env::var_os(crash::WORKER).is_some() => words(&run, p),
            Some(_) => supervised(&run),
            None => die("no such property"),
        }
    }
}

/// Words of the model with their mnemonic and operands, for cross-checking the model.
fn dump(isa: &str) {
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::{Config, TestRunner};
    let m = model::Model::new();
    let x = if isa == "rv32" {
        model::X::Rv32
    } else {
        model::X::Rv64
    };
    let mut r = TestRunner::new_with_rng(Config::default(), engine::rng(1, 9));
    let st = engine::word(&m, None);
    for _ in 0..200_000 {
        let (width, w) = st.new_tree(&mut r).expect("tree").current();
        match m.decode(width, w, x) {
            Some(e) => println!("{width} {w:#x} {} {:?}", ops::OPS[e.op].mnem, e.fields(w)),
            None => println!("{width} {w:#x} - -"),
        }
    }
}
