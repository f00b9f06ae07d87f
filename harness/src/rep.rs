//! Running cases, collecting what they show, and reporting it.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

use amplify::ByteArray;
use ultrasonic::Opid;

use crate::led::*;
use crate::seal::*;
use crate::spec::*;
use crate::world::*;

thread_local! {
    /// Whether a panic on this thread is one to be judged (as opposed to a failure of the harness).
    pub static JUDGED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs something which may panic.
pub fn judged<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let was = JUDGED.replace(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    JUDGED.set(was);
    r
}

pub struct Global {
    pub prop: &'static str,
    pub tier_thorough: bool,
    pub replay: Option<(String, String)>,
    pub threads: usize,
    pub start: Instant,
    pub slots: Vec<Mutex<(u64, String)>>,
    pub done: AtomicBool,
    pub stop: AtomicBool,
    /// stop exploring once this many violations are recorded
    pub nviol: AtomicU64,
    /// C22: record every case; evaluate everything twice; explore in the opposite order
    pub cases: bool,
    pub twice: bool,
    pub reverse: bool,
    /// C14: every outcome of a first pass, to compare a second pass with
    pub memo: AtomicBool,
    pub baseline: OnceLock<HashMap<u64, u64>>,
    pub backwards: AtomicBool,
}

#[derive(Clone)]
pub struct Viol {
    pub family: String,
    pub label: String,
    pub msg: String,
    pub dump: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub transitions: u64,
    pub accepted_ops: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub families: BTreeMap<String, FamStat>,
    pub viols: Vec<Viol>,
    pub nviol: u64,
    pub samples: BTreeMap<String, String>,
    pub kf: BTreeMap<String, (u64, String)>,
    pub other: BTreeMap<&'static str, u64>,
    pub digest: u64,
    /// every case with its outcome, when asked for (MC_CASES)
    pub cases: Vec<String>,
    pub memo: HashMap<u64, u64>,
    /// remarks on what was covered
    pub notes: BTreeMap<String, String>,
}
#[derive(Default, Clone)]
pub struct FamStat {
    pub cases: u64,
    pub evals: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.transitions += o.transitions;
        self.accepted_ops += o.accepted_ops;
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for (k, v) in o.families {
            let f = self.families.entry(k).or_default();
            f.cases += v.cases;
            f.evals += v.evals;
        }
        self.nviol += o.nviol;
        self.viols.extend(o.viols);
        for (k, v) in o.samples {
            self.samples.entry(k).or_insert(v);
        }
        for (k, v) in o.kf {
            let e = self.kf.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        for (k, v) in o.other {
            *self.other.entry(k).or_default() += v;
        }
        self.digest = self.digest.wrapping_add(o.digest);
        self.cases.extend(o.cases);
        self.memo.extend(o.memo);
        self.notes.extend(o.notes);
    }
}

/// A worker's view: where it reports to.
pub struct Rep<'g> {
    pub g: &'g Global,
    pub worker: usize,
    pub family: String,
    pub st: Stats,
    label: String,
    /// which case of which index
    nth: (usize, u32),
}

pub fn dump_blocks<S: Kit>(blocks: &[Block<S>]) -> String {
    let mut s = String::new();
    for (i, b) in blocks.iter().enumerate() {
        let raw = b.operation.opid();
        s += &format!("  block {i}: opid(as given) {raw}\n    operation: {:?}\n    seals: ", b.operation);
        for (p, d) in &b.defined_seals {
            s += &format!("{p}=>{d} ");
        }
        match &b.witness {
            Some(w) => s += &format!("\n    witness {:?}: {:?} / {:?}\n", S::s_wid(w), w.published, w.client),
            None => s += "\n    no witness\n",
        }
        if s.len() > 60_000 {
            s += "  ... (long; use replay)\n";
            break;
        }
    }
    s
}

impl<'g> Rep<'g> {

    /// Announces a case. False: the case is to be skipped (replay of another one).
    pub fn case(&mut self, label: impl FnOnce() -> String) -> bool {
        if self.g.stop.load(Ordering::Relaxed) {
            return false;
        }
        self.label = label();
        if let Some((fam, l)) = &self.g.replay {
            if *fam != self.family || *l != self.label {
                return false;
            }
            println!("--- replaying case {}/{}", self.family, self.label);
        }
        self.st.families.entry(self.family.clone()).or_default().cases += 1;
        true
    }
    pub fn replaying(&self) -> bool { self.g.replay.is_some() }

    pub fn violation(&mut self, msg: String, dump: impl FnOnce() -> String) {
        if self.g.replay.is_some() {
            println!("DEVIATION property={} {msg}", self.g.prop);
        }
        self.st.nviol += 1;
        if self.st.viols.len() < 4 {
            self.st.viols.push(Viol { family: self.family.clone(), label: self.label.clone(), msg, dump: dump() });
        }
        if self.g.nviol.fetch_add(1, Ordering::Relaxed) > 200 {
            self.g.stop.store(true, Ordering::Relaxed);
        }
    }
    /// charges relating to the property being decided
    pub fn charge<S: Kit>(&mut self, ch: &Charges, blocks: &[Block<S>]) {
        for (p, m) in ch {
            if *p == self.g.prop {
                self.violation(m.clone(), || dump_blocks(blocks));
            } else {
                *self.st.other.entry(*p).or_default() += 1;
                if self.g.replay.is_some() {
                    println!("(also concerns {p}: {m})");
                }
            }
        }
    }
    pub fn fail_if(&mut self, props: &[&'static str], cond: bool, msg: impl FnOnce() -> String, dump: impl FnOnce() -> String) {
        if cond && props.contains(&self.g.prop) {
            self.violation(msg(), dump)
        }
    }
    pub fn known_finding(&mut self, id: &str) {
        let e = self.st.kf.entry(id.to_string()).or_insert((0, format!("{}/{}", self.family, self.label)));
        e.0 += 1;
    }
    pub fn outcome(&mut self, kind: &str) {
        *self.st.outcomes.entry(kind.to_string()).or_default() += 1;
        if !self.st.samples.contains_key(kind) {
            self.st.samples.insert(kind.to_string(), format!("{}/{}", self.family, self.label));
        }
    }
    pub fn state<S: Kit>(&mut self, st: &Store<S>, run: Option<&Run<S>>) {
        let mut h = DefaultHasher::new();
        self.family.hash(&mut h);
        for id in st.known.keys() {
            id.to_byte_array().hash(&mut h);
        }
        for (id, s) in &st.seals {
            id.to_byte_array().hash(&mut h);
            for k in s.keys() {
                k.hash(&mut h);
            }
        }
        for (id, v) in &st.wits {
            id.to_byte_array().hash(&mut h);
            v.len().hash(&mut h);
        }
        if let Some(run) = run {
            for (a, (s, _)) in &run.avail {
                a.pos.hash(&mut h);
                a.opid.to_byte_array().hash(&mut h);
                s.outpoint().hash(&mut h);
            }
            run.first.hash(&mut h);
            run.ever.len().hash(&mut h);
        }
        self.st.states.insert(h.finish());
    }

    /// One evaluation: the engine on `blocks`, judged against the specification. `st` is advanced
    /// to the expected contract.
    pub fn eval<S: Kit>(
        &mut self,
        w: &World<S>,
        st: &mut Store<S>,
        extra: &[Opid],
        blocks: &[Block<S>],
        plan: &Plan,
        prior: bool,
    ) -> (Outcome<S>, Expect, Run<S>) {
        {
            let mut slot = self.g.slots[self.worker].lock().unwrap();
            slot.0 = self.g.start.elapsed().as_millis() as u64 + 1;
            slot.1.clear();
            slot.1.push_str(&self.family);
            slot.1.push('\u{1}');
            slot.1.push_str(&self.label);
        }
        let tail = blocks.first().cloned().into_iter().collect::<Vec<_>>();
        let before = self.g.twice.then(|| st.clone());
        let out = run_engine(w, st.clone(), extra, blocks.to_vec(), tail, plan);
        self.g.slots[self.worker].lock().unwrap().0 = 0;
        if let (Verdict::Err(e), true) = (&out.verdict, self.g.prop == "C21") {
            // the error must be presentable
            let r = judged(|| format!("{e}{e:?}").len());
            if let Err(p) = r {
                let m = panic_text(p);
                self.violation(format!("the error can't be displayed: {m}"), || dump_blocks(blocks));
                return (out, Expect { ok: false, accepted: 0, why: vec![] }, Run::new());
            }
        }
        let mut seen = Seen::default();
        let (ch, exp, run) = check(w, st, extra, blocks, plan, &out, prior, &mut seen);
        self.st.evals += 1;
        self.st.families.entry(self.family.clone()).or_default().evals += 1;
        self.st.transitions += seen.judged;
        self.st.accepted_ops += seen.accepted;
        let kind = match &out.verdict {
            Verdict::Err(rgbcore::VerificationError::Vm(e)) => {
                format!("Vm::{}", format!("{e:?}").split(['(', ' ', '{']).next().unwrap_or("?"))
            }
            v => v.kind().to_string(),
        };
        if !self.st.samples.contains_key(&kind) {
            let text: String = dump_blocks(blocks).chars().take(900).collect();
            self.st.samples.insert(kind.clone(), format!("{}/{}\n{text}", self.family, self.label));
        }
        self.outcome(&kind);
        self.state(st, Some(&run));
        for k in seen.known_findings {
            self.known_finding(k);
        }
        if self.replaying() {
            println!("{}", dump_blocks(blocks));
            println!("engine:   {}", out.verdict.text());
            println!("reports:  {}", out.log.iter().map(ev_short).collect::<Vec<_>>().join(" "));
            println!("expected: {} ({} operations accepted) {}", if exp.ok { "accepted" } else { "rejected" }, exp.accepted, exp.why.join("; "));
        }
        if !ch.is_empty() {
            self.charge(&ch, blocks);
        }
        if self.g.memo.load(Ordering::Relaxed) {
            self.nth.1 += 1;
            let hash = |x: &dyn Fn(&mut DefaultHasher)| {
                let mut h = DefaultHasher::new();
                x(&mut h);
                h.finish()
            };
            let key = hash(&|h| (&self.family, &self.label, self.nth).hash(h));
            let is = hash(&|h| outcome_text(&out).hash(h));
            match self.g.baseline.get() {
                None => {
                    self.st.memo.insert(key, is);
                }
                Some(b) if b.get(&key).is_some_and(|was| *was != is) => self.violation(
                    format!("the outcome depends on what was evaluated before; this time: {}", out.verdict.text()),
                    || dump_blocks(blocks),
                ),
                _ => {}
            }
        }
        if self.g.prop == "C22" {
            let text = outcome_text(&out);
            let mut h = DefaultHasher::new();
            self.family.hash(&mut h);
            self.label.hash(&mut h);
            text.hash(&mut h);
            self.st.digest = self.st.digest.wrapping_add(h.finish());
            if self.g.cases {
                self.st.cases.push(format!("{}\u{1}{}\u{1}{:016x}\u{1}{}", self.family, self.label, h.finish(), out.verdict.text()));
            }
            if let Some(before) = before {
                // again, in the same process
                let tail = blocks.first().cloned().into_iter().collect::<Vec<_>>();
                let again = run_engine(w, before, extra, blocks.to_vec(), tail, plan);
                if outcome_text(&again) != text {
                    self.violation(
                        format!("evaluated again it gives {} instead of {}", again.verdict.text(), out.verdict.text()),
                        || dump_blocks(blocks),
                    );
                }
            }
        }
        (out, exp, run)
    }
}

pub fn outcome_text<S: Kit>(out: &Outcome<S>) -> String { format!("{}|{:?}", out.verdict.text(), out.log) }

pub fn ev_short<S: Kit>(e: &Ev<S>) -> String {
    match e {
        Ev::Read(i) => format!("read#{i}"),
        Ev::ReadEnd => "read-end".into(),
        Ev::ReadErr(n) => format!("read-error#{n}"),
        Ev::Wit(id, w) => format!("witness({:.6},{:?})", id.to_string(), S::s_wid(w)),
        Ev::Op(id, _) => format!("operation({:.6})", id.to_string()),
        Ev::Seals(id, m) => format!("seals({:.6},{:?})", id.to_string(), m.keys().collect::<Vec<_>>()),
    }
}

/// Runs `f` on every index, on all cores.
pub fn par(g: &Global, total: &mut Stats, family: &str, n: usize, f: impl Fn(usize, &mut Rep) + Sync) {
    let next = AtomicUsize::new(0);
    let began = Instant::now();
    let res: Vec<Stats> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for worker in 0..g.threads.min(n.max(1)) {
            let next = &next;
            let f = &f;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut rep = Rep {
                            g,
                            worker,
                            family: family.to_string(),
                            st: Stats::default(),
                            label: String::new(),
                            nth: (0, 0),
                        };
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || g.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = if g.reverse || g.backwards.load(Ordering::Relaxed) { n - 1 - i } else { i };
                            rep.nth = (i, 0);
                            f(i, &mut rep);
                        }
                        rep.st
                    })
                    .unwrap(),
            );
        }
        hs.into_iter().map(|h| h.join().expect("harness worker failed")).collect()
    });
    for s in res {
        total.merge(s);
    }
    if std::env::var("MC_TIMES").is_ok() {
        let f = total.families.get(family).cloned().unwrap_or_default();
        eprintln!("{:8.2}s {:8} evaluations  {family}", began.elapsed().as_secs_f64(), f.evals);
    }
}
