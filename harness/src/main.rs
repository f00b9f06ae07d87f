//! Model checker of the RGB consensus engine: exhaustively explores bounded spaces of consignments
//! on the real code and compares every verdict, error and report with a reference specification.
#![allow(clippy::all)]
extern crate alloc;
mod base;
mod chain;
#[cfg(feature = "btc")]
mod btc;
#[cfg(feature = "fserde")]
mod enc;
mod fam;
mod hostile;
mod led;
mod reach;
mod rep;
mod seal;
mod spec;
mod world;

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rep::*;
use seal::MSeal;

pub const PROPS: [&str; 23] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23",
];

fn verif() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

fn explore(g: &Global, t: &mut Stats) {
    type M = MSeal;
    if let Ok(x) = std::env::var("MC_TRY") {
        match x.as_str() {
            "closure" => reach::closure::<M>(g, t, true, false, 200000),
            "closurebig" => reach::closure::<M>(g, t, false, false, 20000),
            "kinds" => reach::kinds::<M>(g, t),
            "hist" => reach::histories::<M>(g, t, 20000, false),
            "histf" => reach::histories::<M>(g, t, 20000, true),
            "sizes" => reach::sizes::<M>(g, t, 34, &[64, 100, 128, 256, 512, 1000, 1024]),
            "lengths" => reach::lengths::<M>(g, t, 70, &[100, 128, 256, 512, 1000, 1024, 2048]),
            "tokens" => {
                fam::tokens::<M>(g, t);
                #[cfg(feature = "btc")]
                fam::tokens::<bp::seals::TxoSeal>(g, t);
            }
            "ff" => fam::ff::<M>(g, t, 2),
            "ft" => fam::ft::<M>(g, t, false),
            "largest" => {
                hostile::largest::<M>(g, t, 4097, false);
                hostile::largest::<M>(g, t, 4097, true);
            }
            "widths" => reach::widths::<M>(g, t, 34, &[64, 128, 256]),
            #[cfg(feature = "btc")]
            "bwidths" => reach::widths::<bp::seals::TxoSeal>(g, t, 12, &[32]),
            "sizes2" => reach::sizes::<M>(g, t, 40, &[512, 1024, 2048, 4096]),
            "lengths2" => reach::lengths::<M>(g, t, 30, &[512, 1024, 2048]),
            "crash" => fam::crash::<M>(g, t, false),
            "crash2" => fam::crash::<M>(g, t, true),
            #[cfg(feature = "btc")]
            "bsizes" => reach::sizes::<bp::seals::TxoSeal>(g, t, 20, &[256]),
            #[cfg(feature = "btc")]
            "blengths" => reach::lengths::<bp::seals::TxoSeal>(g, t, 20, &[64]),
            #[cfg(feature = "btc")]
            "bclosure" => reach::closure::<bp::seals::TxoSeal>(g, t, true, false, 20000),
            #[cfg(feature = "btc")]
            "bwide" => fam::fj::<bp::seals::TxoSeal>(g, t, 1300, 60),
            _ => {}
        }
        for (k, v) in &t.notes {
            println!("{k}: {v}");
        }
        return;
    }
    let th = g.tier_thorough;
    let prop = g.prop;
    let is = |l: &[&str]| l.contains(&prop);
    // the common ground of everything the evaluation decides
    let core = !is(&["C18", "C19", "C20", "C22"]);
    if is(&["C14"]) {
        // every case once, and again after everything else, in the opposite order
        for second in [false, true] {
            if second {
                let _ = g.baseline.set(std::mem::take(&mut t.memo));
                g.backwards.store(true, Ordering::Relaxed);
            }
            fam::fa::<M>(g, t, 3, true);
            fam::fe::<M>(g, t, true);
            fam::fc::<M>(g, t, 2);
            fam::fi::<M>(g, t);
            fam::ff::<M>(g, t, 1);
            fam::pairs::<M>(g, t, 2, false);
        }
        g.memo.store(false, Ordering::Relaxed);
        g.backwards.store(false, Ordering::Relaxed);
    }
    if core {
        fam::fa::<M>(g, t, if th { 5 } else { 3 }, false);
        fam::fa::<M>(g, t, if th { 6 } else { 4 }, true);
        fam::fe::<M>(g, t, true);
        fam::fj::<M>(g, t, 300, 300);
        let n = if th { 65535 } else { 4097 };
        hostile::largest::<M>(g, t, n, false);
        hostile::largest::<M>(g, t, n, true);
        reach::kinds::<M>(g, t);
        if th {
            reach::sizes::<M>(g, t, 260, &[512, 1024, 2048, 4096]);
            reach::lengths::<M>(g, t, 300, &[512, 1024, 2048]);
            reach::widths::<M>(g, t, 160, &[256, 512]);
        } else {
            reach::sizes::<M>(g, t, 34, &[64, 100, 128, 256, 512, 1000, 1024]);
            reach::lengths::<M>(g, t, 70, &[100, 128, 256, 512, 1000, 1024, 2048]);
            reach::widths::<M>(g, t, 34, &[64, 100, 128, 256]);
        }
    }
    // every reachable state of an evaluation
    if core && !is(&["C04", "C14", "C15", "C17", "C21", "C23"]) {
        reach::closure::<M>(g, t, true, th, 100_000);
        if th && is(&["C03", "C09", "C16"]) {
            reach::closure::<M>(g, t, false, is(&["C16"]), 100_000);
        }
    }
    // every reachable state of a contract
    if is(&["C09", "C10", "C13", "C14", "C15"]) {
        reach::histories::<M>(g, t, 100_000, th || is(&["C14", "C15"]));
    }
    if is(&["C01", "C08", "C10", "C11", "C12"]) {
        fam::fd::<M>(g, t);
    }
    if is(&["C02", "C04", "C09", "C10", "C12", "C13", "C23"]) {
        fam::fc::<M>(g, t, if th { 4 } else { 3 });
        fam::fc_wide::<M>(g, t, 300);
    }
    if is(&["C05", "C16"]) {
        fam::tokens::<M>(g, t);
    }
    if is(&["C05", "C16", "C11", "C12"]) {
        fam::fb::<M>(g, t, 1, true);
        fam::fb::<M>(g, t, 2, is(&["C05"]));
        if th || is(&["C05"]) {
            fam::fb::<M>(g, t, 3, th && is(&["C05"]));
        }
    }
    if is(&["C06", "C03", "C16", "C09"]) {
        fam::ff::<M>(g, t, if th { 3 } else { 2 });
    }
    if is(&["C08", "C07", "C01"]) {
        fam::fg::<M>(g, t);
    }
    if is(&["C09", "C01", "C03", "C02", "C04", "C05", "C12", "C16"]) {
        fam::fh::<M>(g, t);
    }
    if is(&["C07", "C08", "C10", "C11", "C12"]) {
        fam::fi::<M>(g, t);
    }
    if is(&["C17", "C10", "C12", "C11"]) {
        fam::ft::<M>(g, t, th || is(&["C17"]));
    }
    if is(&["C15", "C10", "C14"]) {
        fam::crash::<M>(g, t, th && is(&["C15"]));
    }
    if is(&["C13", "C16", "C06"]) {
        fam::orders::<M>(g, t, if is(&["C13"]) { if th { 4 } else { 3 } } else { 2 });
    }
    if is(&["C14", "C09", "C16"]) {
        fam::pairs::<M>(g, t, if th { 3 } else { 2 }, th);
    }
    if is(&["C04"]) {
        chain::worlds::<M>(g, t, th && prop == "C04");
        chain::open::<M>(g, t, th);
    }
    if is(&["C21"]) {
        hostile::hostile::<M>(g, t, th);
    }
    if th && core {
        fam::fe2::<M>(g, t, &["chain-abs", "chain-rel", "same-seal", "fork-join"], is(&["C09", "C14"]));
    }
    #[cfg(feature = "btc")]
    {
        use bp::seals::TxoSeal as B;
        if core {
            fam::fe::<B>(g, t, is(&["C23"]) || th);
        }
        if is(&["C23", "C02", "C06"]) {
            fam::fa::<B>(g, t, if th { 4 } else { 2 }, true);
            fam::fc::<B>(g, t, if th { 3 } else { 2 });
        }
        if is(&["C23", "C06", "C19"]) {
            fam::ff::<B>(g, t, 1);
        }
        if is(&["C23", "C02", "C05", "C06"]) {
            if th {
                reach::sizes::<B>(g, t, 260, &[512, 1024]);
                reach::lengths::<B>(g, t, 130, &[256]);
                reach::widths::<B>(g, t, 40, &[64, 128]);
            } else {
                reach::sizes::<B>(g, t, 20, &[128, 256]);
                reach::lengths::<B>(g, t, 20, &[64]);
                reach::widths::<B>(g, t, 12, &[32]);
            }
        }
        if is(&["C23"]) {
            reach::closure::<B>(g, t, true, th, 100_000);
        }
        if is(&["C05", "C18"]) {
            fam::fb::<B>(g, t, 2, true);
            fam::tokens::<B>(g, t);
        }
        if is(&["C13", "C15"]) {
            fam::orders::<B>(g, t, 2);
            fam::crash::<B>(g, t, false);
        }
        if is(&["C04"]) {
            chain::worlds::<B>(g, t, th);
            if th {
                chain::open::<B>(g, t, false);
            }
            btc::open_protocol(g, t);
        }
        if is(&["C18", "C19"]) {
            btc::defs(g, t, th);
        }
        if is(&["C23"]) {
            btc::closings(g, t, th);
        }
    }
    #[cfg(feature = "fserde")]
    if is(&["C20"]) {
        enc::encodings(g, t, th);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    // replays of recorded cases
    let mut replay = None;
    let mut prop = args.get(1).cloned().unwrap_or_default();
    let mut tier_thorough = thorough;
    if prop == "replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&text).expect("json");
        prop = v["property"].as_str().unwrap().to_string();
        tier_thorough = v["tier"] == "thorough";
        replay = Some((v["family"].as_str().unwrap().to_string(), v["case"].as_str().unwrap().to_string()));
    }
    let digest = prop == "digest";
    if digest {
        prop = "C22".into();
    }
    let Some(prop) = PROPS.iter().find(|p| **p == prop).copied() else {
        eprintln!("usage: mc C01..C23 | mc replay FILE | mc digest");
        std::process::exit(2);
    };
    std::panic::set_hook(Box::new(|info| {
        // panics of the engine are caught and judged; panics of the harness itself must be seen
        if !rep::JUDGED.get() || std::env::var("MC_PANICS").is_ok() {
            eprintln!("{info}");
        }
    }));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let g: &'static Global = Box::leak(Box::new(Global {
        prop,
        tier_thorough,
        replay,
        threads,
        start: Instant::now(),
        slots: (0..threads).map(|_| Mutex::new((0, String::new()))).collect(),
        done: AtomicBool::new(false),
        stop: AtomicBool::new(false),
        nviol: AtomicU64::new(0),
        cases: std::env::var("MC_CASES").is_ok(),
        twice: std::env::var("MC_TWICE").is_ok(),
        reverse: std::env::var("MC_REVERSE").is_ok(),
        memo: AtomicBool::new(prop == "C14"),
        baseline: Default::default(),
        backwards: AtomicBool::new(false),
    }));
    // watchdog: an evaluation which does not return
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if g.done.load(Ordering::Relaxed) {
            return;
        }
        let now = g.start.elapsed().as_millis() as u64;
        for s in &g.slots {
            let s = s.lock().unwrap();
            if s.0 > 0 && now > s.0 + 120_000 {
                let (f, l) = s.1.split_once('\u{1}').unwrap_or(("?", "?"));
                let v = Viol { family: f.into(), label: l.into(), msg: "the evaluation does not terminate".into(), dump: String::new() };
                let path = write_replay(g, &v, 0);
                println!("{}: the evaluation does not terminate in {f}/{l}", g.prop);
                println!("VIOLATION property={} replay={path}", g.prop);
                let mut t = Stats::default();
                t.nviol = 1;
                t.viols.push(v);
                evidence(g, &t);
                std::process::exit(1);
            }
        }
    });
    let mut t = Stats::default();
    if digest {
        let show = |kit: &str, t: &Stats| {
            let fams: u64 = t.families.len() as u64;
            println!(
                "DIGEST {kit} {:016x} evaluations={} operations={} states={} families={fams} deviations={}",
                t.digest,
                t.evals,
                t.transitions,
                t.states.len(),
                t.nviol
            );
            for (k, v) in &t.outcomes {
                println!("  {k}: {v}");
            }
            for (f, l, m) in t.viols.iter().map(|v| (&v.family, &v.label, &v.msg)) {
                println!("  UNSTABLE {f}/{l}: {m}");
            }
            if let Ok(path) = std::env::var("MC_CASES") {
                let mut v = t.cases.clone();
                v.sort();
                std::fs::write(format!("{path}.{kit}"), v.join("\n")).expect("can't write cases");
            }
        };
        digest_run::<MSeal>(g, &mut t, thorough);
        show("mock", &t);
        #[cfg(feature = "btc")]
        {
            let mut t = Stats::default();
            digest_run::<bp::seals::TxoSeal>(g, &mut t, thorough);
            show("bitcoin", &t);
        }
        std::process::exit(0);
    }
    explore(g, &mut t);
    g.done.store(true, Ordering::Relaxed);
    if g.replay.is_some() {
        if t.evals == 0 && t.families.is_empty() {
            println!("no such case");
            std::process::exit(2);
        }
        println!("{} deviation(s) from property {}", t.nviol, g.prop);
        std::process::exit(if t.nviol > 0 { 1 } else { 0 });
    }
    finish(g, t);
}

/// The families every build configuration must agree upon.
fn digest_run<S: seal::Kit>(g: &Global, t: &mut Stats, th: bool) {
    let mock = S::NAME == "mock";
    fam::fa::<S>(g, t, if th { 4 } else { 3 }, true);
    fam::fe::<S>(g, t, th);
    if th {
        fam::fd_small::<S>(g, t);
    }
    if th || mock {
        hostile::contents::<S>(g, t, false);
    }
    fam::fc::<S>(g, t, 2);
    if th || mock {
        fam::fc_wide::<S>(g, t, 20);
        fam::fj::<S>(g, t, 260, 20);
    }
    fam::fb::<S>(g, t, 1, true);
    fam::fi::<S>(g, t);
    fam::ft::<S>(g, t, false);
    fam::ff::<S>(g, t, 1);
    hostile::locks::<S>(g, t, false);
    hostile::largest::<S>(g, t, if th { 4097 } else { 300 }, false);
    if th {
        hostile::structure::<S>(g, t, false);
    }
}

fn write_replay(g: &Global, v: &Viol, n: usize) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{n}.json", g.prop);
    let j = serde_json::json!({
        "property": g.prop,
        "tier": if g.tier_thorough { "thorough" } else { "quick" },
        "family": v.family,
        "case": v.label,
        "deviation": v.msg,
        "consignment": v.dump,
        "how_to_replay": "cd /verif && ./check.sh replay <this file>",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn findings() -> Vec<(String, String, String)> {
    // "finding: property=Cnn key=<key> <what fails>"
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(" key=")?;
            let (k, what) = rest.split_once(' ')?;
            Some((p.to_string(), k.to_string(), what.to_string()))
        })
        .collect()
}

fn finish(g: &Global, mut t: Stats) {
    // known findings: listed ones are only reported
    let list = findings();
    let kf = std::mem::take(&mut t.kf);
    let mut lines: BTreeMap<String, String> = BTreeMap::new();
    for (key, (n, example)) in &kf {
        // keys are "<property>" or "<property>:<key>"
        let (p, k) = key.split_once(':').unwrap_or((key.as_str(), "foreign-genesis"));
        if p != g.prop {
            continue;
        }
        match list.iter().find(|(lp, lk, _)| lp == p && lk == k) {
            Some((_, _, what)) => {
                lines.insert(k.to_string(), format!("KNOWN-FINDING: property={p} {what} [{n} case(s) here, e.g. {example}]"));
            }
            None => {
                t.nviol += *n;
                let (f, l) = example.split_once('/').unwrap_or(("?", example));
                t.viols.push(Viol { family: f.into(), label: l.into(), msg: format!("unlisted finding {k}"), dump: String::new() });
            }
        }
    }
    for l in lines.values() {
        println!("{l}");
    }
    evidence(g, &t);
    println!(
        "{}: {} evaluations of the real engine, {} operations judged, {} distinct states, {} families, {:.1}s",
        g.prop,
        t.evals,
        t.transitions,
        t.states.len(),
        t.families.len(),
        g.start.elapsed().as_secs_f64()
    );
    if t.nviol == 0 {
        println!("{}: held on everything explored", g.prop);
        return;
    }
    t.viols.sort_by_key(|v| (v.dump.len(), v.label.len()));
    for (n, v) in t.viols.iter().take(5).enumerate() {
        let path = write_replay(g, v, n);
        println!("{}: {}\n   in {}/{}", g.prop, v.msg, v.family, v.label);
        println!("VIOLATION property={} replay={path}", g.prop);
    }
    println!("{} violation(s) in total", t.nviol);
    std::process::exit(1);
}

fn evidence(g: &Global, t: &Stats) {
    let samples: Vec<serde_json::Value> =
        t.samples.iter().map(|(k, v)| serde_json::json!({ "outcome": k, "first_case": v })).take(40).collect();
    let fams: BTreeMap<&String, serde_json::Value> =
        t.families.iter().map(|(k, v)| (k, serde_json::json!({ "cases": v.cases, "evaluations": v.evals }))).collect();
    let stopped = g.stop.load(Ordering::Relaxed);
    let j = serde_json::json!({
        "property": g.prop,
        "tier": if g.tier_thorough { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": t.states.len(),
            "transitions": t.transitions,
            "traces_validated_against_impl": t.evals,
            "samples": samples,
            "exhaustive": !stopped,
            "operations_accepted": t.accepted_ops,
            "outcomes": t.outcomes,
            "families": fams,
            "exhausted_state_spaces": t.notes,
            "deviations_concerning_other_properties": t.other,
        },
        "assumptions": [
            "the specification (harness/src/spec.rs) and the recording contract (harness/src/led.rs) are right",
            "ultrasonic (Codex::verify, operation ids), single_use_seals and bp-core behave as pinned",
            "behaviour outside the stated bounds is not covered"
        ],
        "wall_s": g.start.elapsed().as_secs_f64(),
        "violations": t.nviol,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{}.json", verif(), g.prop), serde_json::to_string_pretty(&j).unwrap())
        .expect("can't write evidence");
}
