//! The reference specification: for each operation of a consignment, which rules it violates, and
//! what an accepted one must do to the contract. Written as a list of independent rules, in no
//! particular order and without early exits; the engine's verdicts and reports are compared with it.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

use amplify::ByteArray;
use rgbcore::VerificationError;
use single_use_seals::SealError;
use ultrasonic::{AuthToken, CallError, CellAddr, Operation, Opid};

use crate::led::*;
use crate::seal::*;
use crate::world::*;

#[derive(Clone, Debug)]
pub enum Rule<S: Kit> {
    /// first operation does not commit to the codex
    NoCodex,
    /// first operation is not the contract's genesis
    Foreign,
    /// a reported definition does not belong to its cell
    Binding,
    /// a destroyed cell has no available seal
    Unknown { addr: CellAddr, consumed: bool, rel_unresolved: bool },
    /// the codex rejects
    Vm(CallError),
    /// the virtual machine itself panics
    VmPanic(String),
    NoWitness,
    NotClosed { not_included: Vec<S>, uncommitted: bool, rel: bool },
}

/// What has been disclosed in the consignment being evaluated.
#[derive(Clone)]
pub struct Run<S: Kit> {
    pub first: bool,
    /// available seals; the flag tells the ones resolved relatively to a witness
    pub avail: BTreeMap<CellAddr, (S, bool)>,
    pub ever: BTreeSet<CellAddr>,
    pub rel_unresolved: BTreeSet<CellAddr>,
    /// accepted spenders: (cell, operation, seal, witness id)
    pub spent: Vec<(CellAddr, Opid)>,
}
impl<S: Kit> Run<S> {
    pub fn new() -> Self {
        Run {
            first: true,
            avail: BTreeMap::new(),
            ever: BTreeSet::new(),
            rel_unresolved: BTreeSet::new(),
            spent: vec![],
        }
    }
}

pub struct Judgement<S: Kit> {
    pub opid: Opid,
    pub op: Operation,
    pub known: bool,
    pub genesis: bool,
    pub rules: Vec<Rule<S>>,
    /// inputs involve relatively defined seals
    pub rel_inputs: bool,
}
impl<S: Kit> Judgement<S> {
    pub fn ok(&self) -> bool { self.rules.is_empty() }
    /// rejected for nothing but the genesis being unknown to the contract
    pub fn only_foreign(&self) -> bool { self.rules.len() == 1 && matches!(self.rules[0], Rule::Foreign) }
}

/// Collects what is hashed instead of hashing it.
struct Collect(Vec<u8>);
impl Hasher for Collect {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 { unreachable!() }
}
/// All the contents of an operation.
fn contents(op: &Operation) -> Collect {
    let mut h = Collect(Vec::with_capacity(512));
    op.version.hash(&mut h);
    (op.contract_id, op.call_id, op.nonce, op.witness).hash(&mut h);
    op.destructible_in[..].hash(&mut h);
    op.immutable_in[..].hash(&mut h);
    op.destructible_out[..].hash(&mut h);
    op.immutable_out[..].hash(&mut h);
    h
}

struct Memo<T> {
    map: HashMap<Vec<u8>, T>,
    bytes: usize,
}
impl<T> Default for Memo<T> {
    fn default() -> Self { Memo { map: HashMap::new(), bytes: 0 } }
}
impl<T: Clone> Memo<T> {
    fn get(&mut self, key: Vec<u8>, f: impl FnOnce() -> T) -> T {
        if let Some(v) = self.map.get(&key) {
            return v.clone();
        }
        let v = f();
        if key.len() < 4096 {
            if self.bytes > 64 << 20 {
                self.map.clear();
                self.bytes = 0;
            }
            self.bytes += key.len() + 128;
            self.map.insert(key, v.clone());
        }
        v
    }
}

#[derive(Clone)]
enum Codexed {
    Accepts,
    Rejects(CallError),
    Panics(String),
}

thread_local! {
    // (pure functions of what they are given, remembered by the complete arguments)
    static IDS: RefCell<Memo<Opid>> = RefCell::default();
    static VERDICTS: RefCell<Memo<Codexed>> = RefCell::default();
}

pub fn opid_of(op: &Operation) -> Opid { IDS.with(|m| m.borrow_mut().get(contents(op).0, || op.opid())) }

/// What the codex says about an operation in a state.
fn codexed<S: Kit>(w: &World<S>, st: &Store<S>, op: &Operation) -> Codexed {
    let mut h = contents(op);
    (w.codex_id, w.cid).hash(&mut h);
    for id in w.libs.keys() {
        id.as_ref()[..8].hash(&mut h);
    }
    for i in &op.destructible_in {
        st.owned.get(&i.addr).hash(&mut h);
    }
    for a in &op.immutable_in {
        st.global.get(a).hash(&mut h);
    }
    VERDICTS.with(|m| {
        m.borrow_mut().get(h.0, || {
            let libs = LibSet(w.libs.clone());
            match crate::rep::judged(|| w.codex.verify(w.cid, op.clone(), st, &libs)) {
                Ok(Ok(_)) => Codexed::Accepts,
                Ok(Err(e)) => Codexed::Rejects(e),
                Err(p) => Codexed::Panics(panic_text(p)),
            }
        })
    })
}

pub fn judge<S: Kit>(w: &World<S>, st: &Store<S>, extra: &[Opid], run: &Run<S>, b: &Block<S>) -> Judgement<S> {
    let mut rules = vec![];
    let mut op = b.operation.clone();
    let genesis = run.first;
    if genesis {
        if op.contract_id.to_byte_array() != w.codex_id.to_byte_array() {
            rules.push(Rule::NoCodex);
        }
        op.contract_id = w.cid;
    }
    let opid = opid_of(&op);
    let known = st.known.contains_key(&opid) || extra.contains(&opid);
    if genesis && !known {
        rules.push(Rule::Foreign);
    }
    for (pos, def) in &b.defined_seals {
        let cell = op.destructible_out.iter().nth(*pos as usize);
        if cell.map(|c| c.auth) != Some(S::s_token(def)) {
            rules.push(Rule::Binding);
            break;
        }
    }
    let mut taken = BTreeSet::new();
    let mut closed = vec![];
    for inp in &op.destructible_in {
        match run.avail.get(&inp.addr) {
            Some(s) if !taken.contains(&inp.addr) => {
                taken.insert(inp.addr);
                closed.push(*s);
            }
            _ => rules.push(Rule::Unknown {
                addr: inp.addr,
                consumed: run.ever.contains(&inp.addr),
                rel_unresolved: run.rel_unresolved.contains(&inp.addr),
            }),
        }
    }
    if !known {
        match codexed(w, st, &op) {
            Codexed::Accepts => {}
            Codexed::Rejects(e) => rules.push(Rule::Vm(e)),
            Codexed::Panics(p) => rules.push(Rule::VmPanic(p)),
        }
    }
    let msg = opid.to_byte_array();
    match &b.witness {
        None => {
            if !op.destructible_in.is_empty() {
                rules.push(Rule::NoWitness);
            }
        }
        Some(wit) => {
            let bad: Vec<(S, bool)> = closed.iter().filter(|(s, _)| !s.s_included(wit, msg)).copied().collect();
            let uncommitted = !S::s_committed(wit, msg);
            if !bad.is_empty() || uncommitted {
                rules.push(Rule::NotClosed {
                    rel: bad.iter().any(|(_, r)| *r),
                    not_included: bad.iter().map(|(s, _)| *s).collect(),
                    uncommitted,
                });
            }
        }
    }
    let rel_inputs = closed.iter().any(|(_, r)| *r);
    Judgement { opid, op, known, genesis, rules, rel_inputs }
}

/// Effects of an accepted block on the contract and on the consignment context.
pub fn accept<S: Kit>(st: &mut Store<S>, run: &mut Run<S>, b: &Block<S>, j: &Judgement<S>) {
    for inp in &j.op.destructible_in {
        run.avail.remove(&inp.addr);
        run.spent.push((inp.addr, j.opid));
    }
    for (pos, def) in &b.defined_seals {
        let addr = CellAddr::new(j.opid, *pos);
        let seal = match (S::s_abs(def), &b.witness) {
            (Some(s), _) => Some((s, false)),
            (None, Some(w)) => Some((S::s_rel(def, S::s_wid(w)), true)),
            (None, None) => None,
        };
        match seal {
            Some(s) => {
                run.avail.insert(addr, s);
                run.ever.insert(addr);
                run.rel_unresolved.remove(&addr);
            }
            None => {
                if !run.ever.contains(&addr) {
                    run.rel_unresolved.insert(addr);
                }
            }
        }
    }
    run.first = false;
    if let Some(w) = &b.witness {
        st.add_wit(j.opid, w);
    }
    if !j.genesis && !j.known {
        st.apply(j.opid, &j.op);
    }
    if !b.defined_seals.is_empty() {
        let map = b.defined_seals.iter().map(|(k, v)| (*k, v.clone())).collect();
        st.add_seals(j.opid, &map);
    }
}

/// Field-by-field comparison (the operation type itself compares only ids).
pub fn op_eq(a: &Operation, b: &Operation) -> bool {
    a.version == b.version
        && a.contract_id == b.contract_id
        && a.call_id == b.call_id
        && a.nonce == b.nonce
        && a.witness == b.witness
        && a.destructible_in == b.destructible_in
        && a.immutable_in == b.immutable_in
        && a.destructible_out == b.destructible_out
        && a.immutable_out == b.immutable_out
}

/// Is the error true of the block? Returns what is wrong with it otherwise.
#[allow(unreachable_patterns)]
pub fn untrue<S: Kit>(e: &VerificationError<S>, b: &Block<S>, j: &Judgement<S>) -> Option<String> {
    let has = |f: &dyn Fn(&Rule<S>) -> bool| j.rules.iter().any(f);
    match e {
        VerificationError::Stream(_) => Some("a stream error for a block which was read".into()),
        VerificationError::NoCodexCommitment => {
            (!has(&|r| matches!(r, Rule::NoCodex | Rule::Foreign))).then(|| "NoCodexCommitment is not true".into())
        }
        VerificationError::NoWitness(id) => {
            if *id != j.opid {
                Some(format!("NoWitness names {id} instead of {}", j.opid))
            } else if !has(&|r| matches!(r, Rule::NoWitness)) {
                Some("NoWitness is not true".into())
            } else {
                None
            }
        }
        VerificationError::SealsNotClosed(wid, id, err) => {
            if *id != j.opid {
                return Some(format!("SealsNotClosed names {id} instead of {}", j.opid));
            }
            let Some(wit) = &b.witness else { return Some("SealsNotClosed without a witness".into()) };
            if *wid != S::s_wid(wit) {
                return Some("SealsNotClosed names another witness".into());
            }
            for r in &j.rules {
                if let Rule::NotClosed { not_included, uncommitted, .. } = r {
                    let fine = match err {
                        SealError::NotIncluded(s, id) => not_included.contains(s) && *id == S::s_wid(wit),
                        SealError::Client(_) | SealError::Published(_) => *uncommitted,
                    };
                    return (!fine).then(|| "the details of SealsNotClosed are not true".into());
                }
            }
            Some("SealsNotClosed is not true".into())
        }
        VerificationError::SealUnknown(a) => {
            (!has(&|r| matches!(r, Rule::Unknown { addr, .. } if addr == a))).then(|| "SealUnknown is not true".into())
        }
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources } => {
            if *opid != j.opid {
                return Some("SealsDefinitionMismatch names another operation".into());
            }
            if !has(&|r| matches!(r, Rule::Binding)) {
                return Some("SealsDefinitionMismatch is not true".into());
            }
            let d: BTreeSet<AuthToken> = j.op.destructible_out.iter().map(|c| c.auth).collect();
            let r: BTreeSet<AuthToken> = b.defined_seals.values().map(|s| S::s_token(s)).collect();
            let s: BTreeMap<u16, String> = b.defined_seals.iter().map(|(p, s)| (*p, s.to_string())).collect();
            if d != *defined {
                return Some("SealsDefinitionMismatch: tokens of the cells are not those of the operation".into());
            }
            if r != *reported {
                return Some("SealsDefinitionMismatch: tokens of the seals are not those reported".into());
            }
            if s != *sources {
                return Some("SealsDefinitionMismatch: sources are not those reported".into());
            }
            None
        }
        VerificationError::Vm(e) => {
            (!has(&|r| matches!(r, Rule::Vm(x) if x == e))).then(|| format!("codex error is not true: {e}"))
        }
        // an error kind this harness does not know: its truth can't be judged
        _ => None,
    }
}

/// What the error carries must be visible to whoever reads it.
#[allow(unreachable_patterns)]
fn unsaid<S: Kit>(e: &VerificationError<S>) -> Option<String> {
    let parts: Vec<String> = match e {
        VerificationError::NoWitness(id) => vec![id.to_string()],
        VerificationError::SealsNotClosed(wid, id, err) => vec![wid.to_string(), id.to_string(), err.to_string()],
        VerificationError::SealUnknown(a) => vec![a.to_string()],
        VerificationError::SealsDefinitionMismatch { opid, .. } => vec![opid.to_string()],
        VerificationError::Vm(e) => vec![e.to_string()],
        _ => return None,
    };
    let text = e.to_string();
    parts.iter().find(|p| !text.contains(p.as_str())).map(|p| format!("the error text ({text}) does not tell {p}"))
}

pub type Charges = Vec<(&'static str, String)>;

/// Properties broken if a block violating the rule is accepted.
fn charge_accept<S: Kit>(r: &Rule<S>, j: &Judgement<S>, prior: bool) -> Vec<&'static str> {
    let mut v = match r {
        Rule::NoCodex | Rule::Foreign => vec!["C07"],
        Rule::Binding => vec!["C05", "C04"],
        // a cell destroyed without closing the seal it is assigned to
        Rule::Unknown { .. } => vec!["C16", "C03", "C02", "C04", "C06"],
        Rule::Vm(CallError::WrongContract { .. }) => vec!["C08", "C01"],
        Rule::Vm(_) | Rule::VmPanic(_) => vec!["C01"],
        Rule::NoWitness => vec!["C02", "C23", "C04"],
        Rule::NotClosed { .. } => vec!["C02", "C23", "C04", "C06"],
    };
    if j.known {
        v.push("C09");
    }
    if prior {
        v.push("C14");
    }
    v
}

#[allow(unreachable_patterns)]
fn charge_reject<S: Kit>(e: &Verdict<S>, b: &Block<S>, j: &Judgement<S>, prior: bool) -> Vec<&'static str> {
    let mut v = vec!["C13"];
    match e {
        Verdict::Err(e) => match e {
            VerificationError::Stream(_) => v.push("C17"),
            VerificationError::NoCodexCommitment => v.push("C07"),
            VerificationError::NoWitness(_) => v.extend(["C02", "C23"]),
            VerificationError::SealsNotClosed(..) => v.extend(["C02", "C23", "C06"]),
            VerificationError::SealUnknown(_) => v.extend(["C16", "C03", "C06"]),
            VerificationError::SealsDefinitionMismatch { .. } => v.push("C05"),
            VerificationError::Vm(CallError::WrongContract { .. }) => v.extend(["C08", "C01"]),
            VerificationError::Vm(_) => v.push("C01"),
            _ => {}
        },
        Verdict::Panic(_) => v.push("C21"),
        _ => {}
    }
    if j.rel_inputs || b.defined_seals.values().any(|d| S::is_rel(d)) {
        v.push("C06");
    }
    if b.witness.is_some() {
        v.extend(["C02", "C23"]);
    }
    if j.genesis {
        v.push("C07");
    } else if j.known {
        v.push("C09");
    } else {
        v.push("C01");
    }
    if !b.defined_seals.is_empty() {
        v.push("C05");
    }
    if !j.op.destructible_in.is_empty() {
        v.extend(["C16", "C03"]);
    }
    if prior {
        v.extend(["C14", "C15"]);
    }
    v.sort();
    v.dedup();
    v
}

/// What a run covered.
#[derive(Default, Clone)]
pub struct Seen {
    pub judged: u64,
    pub accepted: u64,
    pub known_findings: Vec<&'static str>,
}

/// Expected result of one evaluation according to the specification.
pub struct Expect {
    pub ok: bool,
    pub accepted: usize,
    pub why: Vec<String>,
}

/// Compares one evaluation by the engine with the specification. `st` is the contract before the
/// evaluation and is advanced to what it must be afterwards. `prior`: the contract has seen earlier
/// evaluations.
pub fn check<S: Kit>(
    w: &World<S>,
    st: &mut Store<S>,
    extra: &[Opid],
    blocks: &[Block<S>],
    plan: &Plan,
    out: &Outcome<S>,
    prior: bool,
    seen: &mut Seen,
) -> (Charges, Expect, Run<S>) {
    let mut ch: Charges = vec![];
    let mut run = Run::<S>::new();
    // a contract with a history: whatever happens on it must not depend on anything else
    let prior = prior || st.known.len() + extra.len() > 1;
    // split the log
    #[derive(Clone, Copy, PartialEq)]
    enum Src {
        Block(usize),
        End,
        Fail(usize),
    }
    let mut segs: Vec<(Option<Src>, Vec<&Ev<S>>)> = vec![(None, vec![])];
    for ev in &out.log {
        match ev {
            Ev::Read(i) => segs.push((Some(Src::Block(*i)), vec![])),
            Ev::ReadEnd => segs.push((Some(Src::End), vec![])),
            Ev::ReadErr(n) => segs.push((Some(Src::Fail(*n)), vec![])),
            ev => segs.last_mut().unwrap().1.push(ev),
        }
    }
    let mut add = |v: Vec<&'static str>, m: String| {
        for p in v {
            ch.push((p, m.clone()));
        }
    };
    if !segs[0].1.is_empty() {
        add(vec!["C11", "C10"], "the contract was given a report before anything was read".into());
    }
    let segs = &segs[1..];
    let mut si = 0;
    let mut accepted = 0;
    let mut why = vec![];
    let mut ok = true;
    let mut attempt = 0;
    let mut bi = 0;
    let is_panic = matches!(out.verdict, Verdict::Panic(_));
    // a panic of the virtual machine itself, which is a known finding
    let mut excused = false;
    loop {
        // what must be read now?
        let want = if plan.fails.contains(&attempt) {
            Src::Fail(attempt)
        } else if bi < blocks.len() {
            Src::Block(bi)
        } else {
            Src::End
        };
        attempt += 1;
        let Some((src, evs)) = segs.get(si) else {
            // the engine has stopped reading
            if ok {
                match &out.verdict {
                    Verdict::Ok => add(vec!["C17", "C13", "C14", "C09"], format!("succeeded without reading the consignment to its end (stopped before read {attempt})")),
                    Verdict::Crashed => {}
                    v if is_panic => {
                        let _ = v;
                    }
                    v => add(vec!["C17", "C12", "C13"], format!("failed before reading on: {}", v.text())),
                }
            }
            ok = false;
            break;
        };
        si += 1;
        if *src != Some(want) {
            add(vec!["C17"], "operations are not read in order".into());
            ok = false;
            break;
        }
        match want {
            Src::Fail(n) => {
                ok = false;
                why.push("reader failure".to_string());
                if !evs.is_empty() {
                    add(vec!["C17", "C10"], "effects after a reader failure".into());
                }
                match &out.verdict {
                    Verdict::Ok => add(vec!["C17"], format!("a reader failure at read {n} is reported as success")),
                    Verdict::Err(VerificationError::Stream(e)) => {
                        if !is_failure(&**e, plan.flavour, n) {
                            add(vec!["C17"], format!("the reader error is not the one carried: {e}"));
                        }
                    }
                    Verdict::Err(_) => add(vec!["C17", "C12"], format!("a reader failure is reported as {}", out.verdict.text())),
                    Verdict::Panic(_) => add(vec!["C17"], "a reader failure makes the evaluation panic".into()),
                    Verdict::Crashed => {}
                }
                if segs.len() > si {
                    add(vec!["C17"], "reading goes on after a reader failure".into());
                }
                break;
            }
            Src::End => {
                if !evs.is_empty() {
                    add(vec!["C11"], "reports after the end of the consignment".into());
                }
                if segs.len() > si {
                    add(vec!["C17"], "reading goes on after the end of the consignment".into());
                }
                match &out.verdict {
                    Verdict::Ok => {}
                    Verdict::Crashed => {}
                    Verdict::Panic(_) => add(vec!["C13"], "panic after a valid consignment".into()),
                    v => add(vec!["C13", "C17", "C12"], format!("a valid consignment fails after it was read: {}", v.text())),
                }
                break;
            }
            Src::Block(i) => {
                let b = &blocks[i];
                bi += 1;
                let j = judge(w, st, extra, &run, b);
                seen.judged += 1;
                let last = segs.len() == si;
                let failed_here = last && !out.verdict.is_ok();
                if !j.ok() {
                    why = j.rules.iter().map(|r| format!("{r:?}")).collect();
                    if failed_here {
                        ok = false;
                        match &out.verdict {
                            Verdict::Err(e) => {
                                if let Some(m) = untrue(e, b, &j).or_else(|| unsaid(e)) {
                                    add(vec!["C12"], m);
                                }
                            }
                            Verdict::Panic(m)
                                if m.contains("exceeds field order")
                                    && j.rules.iter().any(|r| matches!(r, Rule::VmPanic(x) if x == m)) =>
                            {
                                excused = true;
                                seen.known_findings.push("C21:field-order");
                            }
                            Verdict::Panic(m) => {
                                for r in &j.rules {
                                    let mut v = charge_accept(r, &j, prior);
                                    v.push("C12");
                                    add(v, format!("panic instead of an error: {m}"));
                                }
                            }
                            _ => {}
                        }
                        if !evs.is_empty() {
                            let mut v = vec!["C10"];
                            for r in &j.rules {
                                v.extend(charge_accept(r, &j, prior));
                            }
                            add(v, format!("operation {i} is rejected ({}) but has effects: {}", out.verdict.kind(), ev_kinds(evs)));
                        }
                        break;
                    }
                    // the engine has let it pass
                    if j.only_foreign() {
                        // known finding: an operation under the right codex, unknown to the contract,
                        // valid in itself, passes for the genesis
                        seen.known_findings.push("C07");
                    } else {
                        ok = false;
                        let mut fatal = false;
                        for r in &j.rules {
                            if matches!(r, Rule::Foreign) {
                                continue;
                            }
                            fatal = true;
                            add(charge_accept(r, &j, prior), format!("operation {i} is accepted although {r:?}"));
                        }
                        if j.rules.iter().any(|r| matches!(r, Rule::Foreign)) {
                            add(vec!["C07"], format!("a wrong genesis which is also invalid in itself is accepted: {:?}", j.rules));
                        }
                        // effects reported for something that must have none
                        if fatal && !evs.is_empty() {
                            add(vec!["C10"], format!("operation {i} must be rejected but has effects: {}", ev_kinds(evs)));
                        }
                        break;
                    }
                } else if failed_here && !matches!(out.verdict, Verdict::Crashed) {
                    ok = false;
                    add(charge_reject(&out.verdict, b, &j, prior), format!("valid operation {i} is rejected: {}", out.verdict.text()));
                    if !is_panic {
                        add(vec!["C12"], format!("error reported for a valid operation: {}", out.verdict.text()));
                    }
                    if !evs.is_empty() {
                        add(vec!["C10"], format!("an operation failing with {} has effects: {}", out.verdict.kind(), ev_kinds(evs)));
                    }
                    break;
                }
                seen.accepted += 1;
                accepted += 1;
                let crashed = last && matches!(out.verdict, Verdict::Crashed);
                accept(st, &mut run, b, &j);
                if crashed {
                    ok = false;
                    break;
                }
                // reports of an accepted operation
                for (props, m) in compare_reports(b, &j, evs) {
                    add(props, format!("operation {i}: {m}"));
                }
            }
        }
    }
    if let Verdict::Panic(m) = &out.verdict {
        if !excused {
            ch.push(("C21", format!("the evaluation panicked: {m}")));
        }
    }
    (ch, Expect { ok, accepted, why }, run)
}

fn ev_kinds<S: Kit>(evs: &[&Ev<S>]) -> String {
    evs.iter()
        .map(|e| match e {
            Ev::Wit(..) => "witness",
            Ev::Op(..) => "operation",
            Ev::Seals(..) => "seals",
            _ => "",
        })
        .collect::<Vec<_>>()
        .join("+")
}

fn compare_reports<S: Kit>(b: &Block<S>, j: &Judgement<S>, evs: &[&Ev<S>]) -> Vec<(Vec<&'static str>, String)> {
    let mut r: Vec<(Vec<&'static str>, String)> = vec![];
    let (mut nw, mut no, mut ns) = (0, 0, 0);
    for ev in evs {
        match ev {
            Ev::Wit(id, wit) => {
                nw += 1;
                if no > 0 {
                    r.push((vec!["C11"], "the witness is reported after the operation".into()));
                }
                if *id != j.opid {
                    r.push((vec!["C11"], "witness is reported under another operation id".into()));
                }
                if b.witness.as_ref() != Some(wit) {
                    r.push((vec!["C11"], "the reported witness is not the supplied one".into()));
                }
            }
            Ev::Op(id, op) => {
                no += 1;
                if *id != j.opid || !op_eq(op, &j.op) {
                    r.push((vec!["C11", "C01"], "the reported operation is not the supplied one".into()));
                }
            }
            Ev::Seals(id, map) => {
                ns += 1;
                if *id != j.opid {
                    r.push((vec!["C11"], "seals are reported under another operation id".into()));
                }
                if map.len() != b.defined_seals.len() || !map.iter().all(|(k, v)| b.defined_seals.get(k) == Some(v)) {
                    r.push((vec!["C11"], "the reported seals are not the supplied ones".into()));
                }
            }
            _ => {}
        }
    }
    let ew = b.witness.is_some() as usize;
    let eo = (!j.genesis && !j.known) as usize;
    let es = (!b.defined_seals.is_empty()) as usize;
    if nw != ew {
        let mut v = vec!["C11"];
        if j.known {
            v.push("C09");
        }
        r.push((v, format!("{nw} witness report(s) instead of {ew}")));
    }
    if no != eo {
        let mut v = vec!["C11"];
        if j.genesis {
            v.push("C07");
        } else if j.known {
            v.push("C09");
        } else {
            v.push("C01");
        }
        r.push((v, format!("{no} operation report(s) instead of {eo}")));
    }
    if ns != es {
        let mut v = vec!["C11"];
        if j.known {
            v.push("C09");
        }
        r.push((v, format!("{ns} seal report(s) instead of {es}")));
    }
    for (v, _) in &mut r {
        if j.genesis {
            v.push("C07");
        } else if j.known {
            v.push("C09");
        }
        v.sort();
        v.dedup();
    }
    r
}
