//! The contract ("ledger") and the consignment reader the engine runs against. Both record every
//! call, and both can be told to fail at any point.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

use amplify::confinement::SmallOrdMap;
use rgbcore::{ContractApi, ContractVerify, OperationSeals, ReadOperation, VerificationError};
use ultrasonic::aluvm::alu::{Lib, LibId};
use ultrasonic::{CellAddr, Codex, ContractId, LibRepo, Memory, Operation, Opid, StateCell, StateValue, VerifiedOperation};

use crate::seal::*;
use crate::world::*;

#[derive(Clone, Debug)]
pub enum Ev<S: Kit> {
    Read(usize),
    ReadEnd,
    ReadErr(usize),
    Wit(Opid, Wit<S>),
    Op(Opid, Operation),
    Seals(Opid, BTreeMap<u16, Def<S>>),
}
pub type Log<S> = Rc<RefCell<Vec<Ev<S>>>>;

/// The persistent part of a contract.
#[derive(Clone)]
pub struct Store<S: Kit> {
    pub known: BTreeMap<Opid, Operation>,
    pub owned: BTreeMap<CellAddr, StateCell>,
    pub global: BTreeMap<CellAddr, StateValue>,
    pub seals: BTreeMap<Opid, BTreeMap<u16, Def<S>>>,
    pub wits: BTreeMap<Opid, Vec<Wit<S>>>,
}
impl<S: Kit> Store<S> {
    pub fn fresh(w: &World<S>) -> Self {
        let mut s = Store {
            known: BTreeMap::new(),
            owned: BTreeMap::new(),
            global: BTreeMap::new(),
            seals: BTreeMap::new(),
            wits: BTreeMap::new(),
        };
        s.apply(w.gid, &w.gop);
        s
    }
    /// The definition of what applying an operation means.
    pub fn apply(&mut self, opid: Opid, op: &Operation) {
        for inp in &op.destructible_in {
            self.owned.remove(&inp.addr);
        }
        for (no, c) in op.destructible_out.iter().enumerate() {
            self.owned.insert(CellAddr::new(opid, no as u16), *c);
        }
        for (no, d) in op.immutable_out.iter().enumerate() {
            self.global.insert(CellAddr::new(opid, no as u16), d.value);
        }
        self.known.insert(opid, op.clone());
    }
    pub fn add_seals(&mut self, opid: Opid, seals: &BTreeMap<u16, Def<S>>) {
        self.seals.entry(opid).or_default().extend(seals.iter().map(|(k, v)| (*k, v.clone())));
    }
    /// Witnesses are kept as a set.
    pub fn add_wit(&mut self, opid: Opid, w: &Wit<S>) {
        let v = self.wits.entry(opid).or_default();
        if !v.contains(w) {
            v.push(w.clone());
        }
    }
    /// Canonical digest of the state: operations, cells, globals.
    pub fn state_digest(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for (id, op) in &self.known {
            fnv(&mut h, format!("{id}|{op:?}").as_bytes());
        }
        fnv(&mut h, format!("{:?}|{:?}", self.owned, self.global).as_bytes());
        h
    }
    /// Digest including seal definitions and witnesses (as sets).
    pub fn full_digest(&self) -> u64 {
        let mut h = self.state_digest();
        for (id, s) in &self.seals {
            fnv(&mut h, format!("{id}|{s:?}").as_bytes());
        }
        for (id, w) in &self.wits {
            let mut v: Vec<String> = w.iter().map(|w| format!("{:?}{:?}", w.published, w.client)).collect();
            v.sort();
            fnv(&mut h, format!("{id}|{v:?}").as_bytes());
        }
        h
    }
}
impl<S: Kit> Memory for Store<S> {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> { self.owned.get(&addr).copied() }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> { self.global.get(&addr).copied() }
}

pub struct LibSet(pub Arc<Libs>);
impl LibRepo for LibSet {
    fn get_lib(&self, id: LibId) -> Option<&Lib> { self.0.get(&id) }
}

/// Payload of an injected storage failure.
pub struct Crash;

pub struct Led<S: Kit> {
    pub cid: ContractId,
    pub codex: Arc<Codex>,
    pub libs: LibSet,
    pub st: Store<S>,
    pub log: Log<S>,
    /// fail inside the n-th report: (n, after the effect is stored?)
    pub crash: Option<(usize, bool)>,
    pub reports: usize,
    /// fail inside the n-th question put to the contract
    pub crash_query: Option<usize>,
    pub queries: std::cell::Cell<usize>,
    /// operations whose transitions are claimed to be known without being in `st`
    pub extra_known: Vec<Opid>,
}
impl<S: Kit> Led<S> {
    pub fn new(w: &World<S>, st: Store<S>, log: Log<S>) -> Self {
        Led {
            cid: w.cid,
            codex: w.codex.clone(),
            libs: LibSet(w.libs.clone()),
            st,
            log,
            crash: None,
            reports: 0,
            crash_query: None,
            queries: Default::default(),
            extra_known: vec![],
        }
    }
    fn query(&self) {
        let n = self.queries.get();
        self.queries.set(n + 1);
        if self.crash_query == Some(n) {
            std::panic::panic_any(Crash);
        }
    }
    fn report(&mut self, ev: Ev<S>, f: impl FnOnce(&mut Store<S>)) {
        let n = self.reports;
        self.reports += 1;
        if self.crash == Some((n, false)) {
            std::panic::panic_any(Crash);
        }
        f(&mut self.st);
        self.log.borrow_mut().push(ev);
        if self.crash == Some((n, true)) {
            std::panic::panic_any(Crash);
        }
    }
}

impl<S: Kit> Memory for Led<S> {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> {
        self.query();
        self.st.destructible(addr)
    }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> {
        self.query();
        self.st.immutable(addr)
    }
}
impl<S: Kit> LibRepo for Led<S> {
    fn get_lib(&self, id: LibId) -> Option<&Lib> {
        self.query();
        self.libs.get_lib(id)
    }
}
impl<S: Kit> ContractApi<S> for Led<S> {
    fn contract_id(&self) -> ContractId {
        self.query();
        self.cid
    }
    fn codex(&self) -> &Codex {
        self.query();
        &self.codex
    }
    fn repo(&self) -> &impl LibRepo {
        self.query();
        self
    }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool {
        self.query();
        self.st.known.contains_key(&opid) || self.extra_known.contains(&opid)
    }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        let op = op.into_operation();
        self.report(Ev::Op(opid, op.clone()), |st| st.apply(opid, &op));
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, Def<S>>) {
        let map: BTreeMap<u16, Def<S>> = seals.into_iter().collect();
        self.report(Ev::Seals(opid, map.clone()), |st| st.add_seals(opid, &map));
    }
    fn apply_witness(&mut self, opid: Opid, witness: Wit<S>) {
        self.report(Ev::Wit(opid, witness.clone()), |st| st.add_wit(opid, &witness));
    }
}

#[derive(Debug)]
pub struct RdErr(pub usize);
impl std::fmt::Display for RdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "reader-failure-#{}#", self.0) }
}
impl std::error::Error for RdErr {}

/// A reader failure with a text of its own.
#[derive(Debug)]
pub struct TextErr(pub &'static str);
impl std::fmt::Display for TextErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) }
}
impl std::error::Error for TextErr {}

/// A reader failure caused by another one.
#[derive(Debug)]
pub struct CausedErr(pub std::io::Error);
impl std::fmt::Display for CausedErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("cannot read") }
}
impl std::error::Error for CausedErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) }
}

/// How a reader fails: the errors are of different types, kinds, texts and causes.
pub const KINDS: [std::io::ErrorKind; 21] = {
    use std::io::ErrorKind::*;
    [
        UnexpectedEof, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted,
        NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput,
        InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, OutOfMemory, HostUnreachable, Other,
    ]
};
pub const TEXTS: [&str; 12] = [
    "", "eof", "EOF", "end of file", "unexpected end of file", "end of stream", "no more data", "success", "ok", "none",
    "failed to fill whole buffer", "interrupted",
];
/// Number of the ways a reader may fail (way 0 is `RdErr`).
pub const FLAVOURS: usize = 1 + 3 * KINDS.len() + TEXTS.len() + 3;
pub enum Failure {
    Own(RdErr),
    Io(std::io::Error),
    Text(TextErr),
    Caused(CausedErr),
    Decode(strict_encoding::DecodeError),
    Fmt(std::fmt::Error),
}
pub fn failure(flavour: usize, n: usize) -> Failure {
    use std::io::{Error, ErrorKind};
    let k = KINDS.len();
    match flavour {
        0 => Failure::Own(RdErr(n)),
        f if f <= k => Failure::Io(Error::from(KINDS[f - 1])),
        f if f <= 2 * k => Failure::Io(Error::new(KINDS[f - 1 - k], RdErr(n))),
        f if f <= 3 * k => Failure::Caused(CausedErr(Error::from(KINDS[f - 1 - 2 * k]))),
        f if f <= 3 * k + TEXTS.len() => Failure::Text(TextErr(TEXTS[f - 1 - 3 * k])),
        f => match f - 3 * k - TEXTS.len() {
            1 => Failure::Decode(strict_encoding::DecodeError::Io(Error::from(ErrorKind::UnexpectedEof).into())),
            2 => Failure::Decode(strict_encoding::DecodeError::DataIntegrityError("broken".into())),
            _ => Failure::Fmt(std::fmt::Error),
        },
    }
}
/// Is `e`, or what it says it is caused by, the very error the reader failed with?
pub fn is_failure(e: &(dyn std::error::Error + 'static), flavour: usize, n: usize) -> bool {
    fn is<T: std::error::Error + 'static>(mut e: &(dyn std::error::Error + 'static), x: &T) -> bool {
        loop {
            if e.downcast_ref::<T>().is_some_and(|y| y.to_string() == x.to_string() && format!("{y:?}") == format!("{x:?}")) {
                return true;
            }
            match e.source() {
                Some(s) => e = s,
                None => return false,
            }
        }
    }
    match &failure(flavour, n) {
        Failure::Own(x) => is(e, x),
        Failure::Io(x) => is(e, x),
        Failure::Text(x) => is(e, x),
        Failure::Caused(x) => is(e, x),
        Failure::Decode(x) => is(e, x),
        Failure::Fmt(x) => is(e, x),
    }
}

/// Reader serving blocks; fails at the given read attempts (without consuming a block), and goes
/// on serving afterwards if it is asked to. `tail` is served if somebody reads past the end.
pub struct Rd<S: Kit> {
    pub blocks: std::vec::IntoIter<Block<S>>,
    pub tail: std::vec::IntoIter<Block<S>>,
    pub fails: Vec<usize>,
    pub attempts: usize,
    pub served: usize,
    pub ended: bool,
    pub log: Log<S>,
}
/// The reader, failing in a chosen way.
struct Fails<S: Kit, E>(Rd<S>, fn(usize, usize) -> E, usize);
impl<S: Kit, E: core::error::Error + 'static> ReadOperation for Fails<S, E> {
    type Seal = S;
    fn read_operation(&mut self) -> Result<Option<OperationSeals<S>>, impl core::error::Error + 'static> {
        self.0.next().map_err(|RdErr(n)| (self.1)(self.2, n))
    }
}
impl<S: Kit> Rd<S> {
    fn next(&mut self) -> Result<Option<OperationSeals<S>>, RdErr> {
        let n = self.attempts;
        self.attempts += 1;
        if self.attempts > 10_000 && self.ended {
            panic!("runaway reading after the end of the consignment");
        }
        if self.fails.contains(&n) {
            self.log.borrow_mut().push(Ev::ReadErr(n));
            return Err(RdErr(n));
        }
        match if self.ended { None } else { self.blocks.next() } {
            Some(b) => {
                self.log.borrow_mut().push(Ev::Read(self.served));
                self.served += 1;
                Ok(Some(b))
            }
            None if !self.ended => {
                self.ended = true;
                self.log.borrow_mut().push(Ev::ReadEnd);
                Ok(None)
            }
            None => match self.tail.next() {
                Some(b) => {
                    self.log.borrow_mut().push(Ev::Read(self.served));
                    self.served += 1;
                    Ok(Some(b))
                }
                None => {
                    self.log.borrow_mut().push(Ev::ReadEnd);
                    Ok(None)
                }
            },
        }
    }
}

pub enum Verdict<S: Kit> {
    Ok,
    Err(VerificationError<S>),
    Panic(String),
    Crashed,
}
impl<S: Kit> Verdict<S> {
    pub fn is_ok(&self) -> bool { matches!(self, Verdict::Ok) }
    #[allow(unreachable_patterns)]
    pub fn kind(&self) -> &'static str {
        match self {
            Verdict::Ok => "accepted",
            Verdict::Panic(_) => "PANIC",
            Verdict::Crashed => "storage-crash",
            Verdict::Err(e) => match e {
                VerificationError::Stream(_) => "Stream",
                VerificationError::NoCodexCommitment => "NoCodexCommitment",
                VerificationError::NoWitness(_) => "NoWitness",
                VerificationError::SealsNotClosed(..) => "SealsNotClosed",
                VerificationError::SealUnknown(_) => "SealUnknown",
                VerificationError::SealsDefinitionMismatch { .. } => "SealsDefinitionMismatch",
                VerificationError::Vm(_) => "Vm",
                _ => "Other",
            },
        }
    }
    pub fn text(&self) -> String {
        match self {
            Verdict::Ok => "accepted".into(),
            Verdict::Panic(m) => format!("PANIC {m}"),
            Verdict::Crashed => "storage-crash".into(),
            Verdict::Err(e) => format!("{}: {e}", self.kind()).replace('\n', " "),
        }
    }
}

/// One consignment, and everything that may go wrong around it.
#[derive(Clone, Default)]
pub struct Plan {
    pub fails: Vec<usize>,
    /// In which way the reader fails (see [`failure`]).
    pub flavour: usize,
    pub crash: Option<(usize, bool)>,
    pub crash_query: Option<usize>,
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    match (p.downcast_ref::<String>(), p.downcast_ref::<&str>()) {
        (Some(s), _) => s.clone(),
        (_, Some(s)) => s.to_string(),
        _ => "?".to_string(),
    }
}

pub struct Outcome<S: Kit> {
    pub verdict: Verdict<S>,
    pub log: Vec<Ev<S>>,
    pub st: Store<S>,
    pub reports: usize,
    pub queries: usize,
}

/// Runs the real engine.
pub fn run_engine<S: Kit>(
    w: &World<S>,
    st: Store<S>,
    extra_known: &[Opid],
    blocks: Vec<Block<S>>,
    tail: Vec<Block<S>>,
    plan: &Plan,
) -> Outcome<S> {
    let log: Log<S> = Rc::new(RefCell::new(vec![]));
    let mut led = Led::new(w, st, log.clone());
    led.crash = plan.crash;
    led.crash_query = plan.crash_query;
    led.extra_known = extra_known.to_vec();
    let rd = Rd {
        blocks: blocks.into_iter(),
        tail: tail.into_iter(),
        fails: plan.fails.clone(),
        attempts: 0,
        served: 0,
        ended: false,
        log: log.clone(),
    };
    macro_rules! run {
        ($way:ident) => {{
            fn make(flavour: usize, n: usize) -> impl core::error::Error + 'static {
                match failure(flavour, n) {
                    Failure::$way(e) => e,
                    _ => unreachable!(),
                }
            }
            let rd = Fails(rd, make, plan.flavour);
            crate::rep::judged(|| led.evaluate(rd))
        }};
    }
    let res = match failure(plan.flavour, 0) {
        Failure::Own(_) => run!(Own),
        Failure::Io(_) => run!(Io),
        Failure::Text(_) => run!(Text),
        Failure::Caused(_) => run!(Caused),
        Failure::Decode(_) => run!(Decode),
        Failure::Fmt(_) => run!(Fmt),
    };
    let verdict = match res {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(e)) => Verdict::Err(e),
        Err(p) => {
            if p.is::<Crash>() {
                Verdict::Crashed
            } else {
                Verdict::Panic(panic_text(p))
            }
        }
    };
    let log = std::mem::take(&mut *log.borrow_mut());
    let queries = led.queries.get();
    Outcome { verdict, log, st: led.st, reports: led.reports, queries }
}
