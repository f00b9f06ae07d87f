//! Contracts, operations and honest histories the explorations start from.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use amplify::confinement::{Confined, SmallOrdMap};
use amplify::ByteArray;
use rgbcore::OperationSeals;
use strict_encoding::StrictDumb;
use ultrasonic::aluvm::alu::{aluasm, CoreConfig, Lib, LibId, LibSite};
use ultrasonic::aluvm::zk_aluasm;
use ultrasonic::aluvm::FIELD_ORDER_SECP;
use ultrasonic::{
    fe256, uasm, AuthToken, CellAddr, CellLock, Codex, CodexId, ContractId, Genesis, Identity, Input, Operation, Opid,
    StateCell, StateData, StateValue,
};

use crate::seal::*;

pub type Block<S> = OperationSeals<S>;
pub type Libs = BTreeMap<LibId, Lib>;

/// Methods of the test codex.
pub const ACCEPT: u16 = 0;
/// always fails, with code 1
pub const FAIL: u16 = 1;
/// has no verifier
pub const MISSING: u16 = 2;
/// first input value must be equal to the first output value (and both must exist)
pub const KEEP: u16 = 3;
/// the first read immutable value must be equal to the first output value
pub const READ: u16 = 4;
/// the operation-level witness must be 77
pub const OPWIT: u16 = 5;
/// always fails, without a code
pub const FAILNONE: u16 = 6;
/// field arithmetics on everything which can be loaded; never fails
pub const ARITH: u16 = 8;
/// library is absent from the repository
pub const NOLIB: u16 = 7;

pub fn lib_accept() -> Lib { Lib::assemble(&aluasm! { stop; }).unwrap() }
pub fn lib_fail() -> Lib {
    Lib::assemble(&zk_aluasm! {
        put E1, 1;
        test E2;
        chk CO;
    })
    .unwrap()
}
pub fn lib_failnone() -> Lib {
    Lib::assemble(&zk_aluasm! {
        clr E1;
        test E2;
        chk CO;
    })
    .unwrap()
}
pub fn lib_keep() -> Lib {
    Lib::assemble(&uasm! {
        ldi destructible;
        put E1, 3;
        test EA;
        chk CO;
        mov EH, EA;
        clr EA;
        ldo destructible;
        test EA;
        chk CO;
        eq EA, EH;
        chk CO;
        stop;
    })
    .unwrap()
}
pub fn lib_read() -> Lib {
    Lib::assemble(&uasm! {
        ldi immutable;
        put E1, 4;
        test EA;
        chk CO;
        mov EH, EA;
        clr EA;
        ldo destructible;
        test EA;
        chk CO;
        eq EA, EH;
        chk CO;
        stop;
    })
    .unwrap()
}
pub fn lib_opwit() -> Lib {
    Lib::assemble(&uasm! {
        put E1, 5;
        put E2, 77;
        ldw;
        test EA;
        chk CO;
        eq EA, E2;
        chk CO;
        stop;
    })
    .unwrap()
}
pub fn lib_arith() -> Lib {
    Lib::assemble(&uasm! {
        put EE, 5;
        put EF, 6;
        ldw;
        ldo immutable;
        ldo destructible;
        test EA;
        chk CO;
        mov EE, EA;
        fits EA, 8.bits;
        neg EG, EA;
        mul EE, EE;
        add EE, EG;
        add EE, EF;
        stop;
    })
    .unwrap()
}
/// lock: computes with the token of the cell
pub fn lib_lock_auth() -> Lib {
    Lib::assemble(&uasm! {
        ldi auth;
        test EA;
        chk CO;
        mov EE, EA;
        add EE, EA;
        stop;
    })
    .unwrap()
}
/// lock: succeeds
pub fn lib_lock_ok() -> Lib {
    Lib::assemble(&uasm! {
        nop;
        stop;
    })
    .unwrap()
}
/// lock: fails with code 9
pub fn lib_lock_fail() -> Lib {
    Lib::assemble(&zk_aluasm! {
        put E8, 9;
        test E2;
        chk CO;
    })
    .unwrap()
}
/// lock: the input witness must be 48
pub fn lib_lock_secret() -> Lib {
    Lib::assemble(&uasm! {
        put E2, 48;
        put E8, 2;
        ldi witness;
        test EA;
        chk CO;
        eq EA, E2;
        chk CO;
        stop;
    })
    .unwrap()
}

fn verifiers() -> Vec<(u16, Lib)> {
    vec![
        (ACCEPT, lib_accept()),
        (FAIL, lib_fail()),
        (KEEP, lib_keep()),
        (READ, lib_read()),
        (OPWIT, lib_opwit()),
        (FAILNONE, lib_failnone()),
        (ARITH, lib_arith()),
    ]
}

pub fn codex(name: &'static str) -> Codex {
    let mut map: BTreeMap<u16, LibSite> =
        verifiers().into_iter().map(|(call, lib)| (call, LibSite::new(lib.lib_id(), 0))).collect();
    map.insert(NOLIB, LibSite::new(LibId::strict_dumb(), 0));
    Codex {
        name: name.try_into().unwrap(),
        developer: Identity::default(),
        version: Default::default(),
        features: Default::default(),
        timestamp: 1732529307,
        field_order: FIELD_ORDER_SECP,
        input_config: CoreConfig::default(),
        verification_config: CoreConfig::default(),
        verifiers: Confined::try_from(map).unwrap(),
    }
}
pub fn libs() -> Libs {
    verifiers()
        .into_iter()
        .map(|(_, l)| l)
        .chain([lib_lock_ok(), lib_lock_fail(), lib_lock_secret(), lib_lock_auth()])
        .map(|l| (l.lib_id(), l))
        .collect()
}

pub fn lock(lib: &Lib) -> Option<CellLock> { Some(CellLock { aux: StateValue::None, script: Some(LibSite::new(lib.lib_id(), 0)) }) }
pub fn lock_aux() -> Option<CellLock> { Some(CellLock { aux: val(3), script: None }) }
pub fn lock_nolib() -> Option<CellLock> {
    Some(CellLock { aux: StateValue::None, script: Some(LibSite::new(LibId::strict_dumb(), 0)) })
}

pub fn val(v: u64) -> StateValue { StateValue::Single { first: fe256::from(v) } }

/// A contract: the codex, the libraries and the genesis.
#[derive(Clone)]
pub struct World<S: Kit> {
    pub cid: ContractId,
    pub codex: Arc<Codex>,
    pub codex_id: CodexId,
    pub libs: Arc<Libs>,
    /// genesis in the form it has in a consignment (committing to the codex)
    pub graw: Operation,
    /// genesis bound to the contract id
    pub gop: Operation,
    pub gid: Opid,
    pub gdefs: BTreeMap<u16, Def<S>>,
}

#[derive(Clone, Debug)]
pub struct OutS<S: Kit> {
    pub val: u64,
    pub def: Def<S>,
    pub lock: Option<CellLock>,
    /// The token the cell carries instead of the one of the definition.
    pub auth: Option<AuthToken>,
}
pub fn out<S: Kit>(val: u64, def: Def<S>) -> OutS<S> { OutS { val, def, lock: None, auth: None } }
pub fn outl<S: Kit>(val: u64, def: Def<S>, lock: Option<CellLock>) -> OutS<S> { OutS { val, def, lock, auth: None } }

pub fn cells<S: Kit>(outs: &[OutS<S>]) -> Vec<StateCell> {
    outs.iter().map(|o| StateCell { data: val(o.val), auth: o.auth.unwrap_or_else(|| S::s_token(&o.def)), lock: o.lock }).collect()
}
pub fn defs_of<S: Kit>(outs: &[OutS<S>]) -> BTreeMap<u16, Def<S>> {
    outs.iter().enumerate().map(|(i, o)| (i as u16, o.def.clone())).collect()
}

pub fn genesis<S: Kit>(codex_id: CodexId, nonce: u64, outs: &[OutS<S>], imm: &[u64]) -> Genesis {
    let mut g = Genesis::strict_dumb();
    g.codex_id = codex_id;
    g.call_id = ACCEPT;
    g.nonce = fe256::from(nonce);
    g.destructible_out = Confined::try_from(cells(outs)).unwrap();
    g.immutable_out = Confined::try_from(imm.iter().map(|v| StateData::new(*v, *v)).collect::<Vec<_>>()).unwrap();
    g
}

impl<S: Kit> World<S> {
    pub fn new(cid: u8, outs: &[OutS<S>], imm: &[u64]) -> Self {
        Self::with(ContractId::from_byte_array([cid; 32]), codex("McCodex"), 1, outs, imm)
    }
    pub fn with(cid: ContractId, codex: Codex, nonce: u64, outs: &[OutS<S>], imm: &[u64]) -> Self {
        let codex_id = codex.codex_id();
        let g = genesis(codex_id, nonce, outs, imm);
        let graw = g.to_operation(codex_id.to_byte_array().into());
        let gop = g.to_operation(cid);
        let gid = gop.opid();
        World {
            cid,
            codex: Arc::new(codex),
            codex_id,
            libs: Arc::new(libs()),
            graw,
            gop,
            gid,
            gdefs: defs_of(outs),
        }
    }
    pub fn gblock(&self) -> Block<S> { mk_block(self.graw.clone(), self.gdefs.clone(), None) }
}

pub fn mk_block<S: Kit>(operation: Operation, defs: BTreeMap<u16, Def<S>>, witness: Option<Wit<S>>) -> Block<S> {
    OperationSeals { operation, defined_seals: mk_seals::<S>(defs), witness }
}
pub fn mk_seals<S: Kit>(defs: BTreeMap<u16, Def<S>>) -> SmallOrdMap<u16, Def<S>> { Confined::try_from(defs).unwrap() }

#[derive(Clone)]
pub struct OpSpec<S: Kit> {
    pub call: u16,
    pub nonce: u64,
    pub ins: Vec<(CellAddr, StateValue)>,
    pub reads: Vec<CellAddr>,
    pub outs: Vec<OutS<S>>,
    pub imm: Vec<u64>,
    pub witness: StateValue,
}

pub fn mk_op<S: Kit>(cid: ContractId, s: &OpSpec<S>) -> Operation {
    Operation {
        version: Default::default(),
        contract_id: cid,
        call_id: s.call,
        nonce: fe256::from(s.nonce),
        witness: s.witness,
        destructible_in: Confined::try_from(s.ins.iter().map(|(addr, w)| Input { addr: *addr, witness: *w }).collect::<Vec<_>>())
            .unwrap(),
        immutable_in: Confined::try_from(s.reads.clone()).unwrap(),
        destructible_out: Confined::try_from(cells(&s.outs)).unwrap(),
        immutable_out: Confined::try_from(s.imm.iter().map(|v| StateData::new(*v, *v)).collect::<Vec<_>>()).unwrap(),
    }
}

/// How an operation of an honest history is witnessed.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WMode {
    /// a witness iff it destroys something
    Auto,
    /// a witness even if nothing is destroyed
    Always,
    /// none at all (only for operations without inputs)
    Never,
}

#[derive(Clone)]
pub struct Step<S: Kit> {
    pub opid: Opid,
    /// as it appears in the consignment
    pub op: Operation,
    pub defs: BTreeMap<u16, Def<S>>,
    pub closes: Vec<S>,
    pub witness: Option<Wit<S>>,
}
impl<S: Kit> Step<S> {
    pub fn block(&self) -> Block<S> { mk_block(self.op.clone(), self.defs.clone(), self.witness.clone()) }
    pub fn block_with(&self, defs: BTreeMap<u16, Def<S>>) -> Block<S> { mk_block(self.op.clone(), defs, self.witness.clone()) }
}

/// Builder of honest histories.
#[derive(Clone)]
pub struct Hist<S: Kit> {
    pub name: String,
    pub w: World<S>,
    pub steps: Vec<Step<S>>,
    /// the actual seal of each cell, where one exists
    pub seals: BTreeMap<CellAddr, S>,
    pub salt: u32,
}

/// A step to be added: inputs and reads are (step index, position).
#[derive(Clone)]
pub struct St<S: Kit> {
    pub call: u16,
    pub ins: Vec<(usize, u16)>,
    pub inw: Vec<StateValue>,
    pub reads: Vec<(usize, u16)>,
    pub outs: Vec<OutS<S>>,
    pub imm: Vec<u64>,
    pub witness: StateValue,
    pub wmode: WMode,
}
pub fn st<S: Kit>(ins: &[(usize, u16)], outs: Vec<OutS<S>>) -> St<S> {
    St {
        call: ACCEPT,
        ins: ins.to_vec(),
        inw: vec![],
        reads: vec![],
        outs,
        imm: vec![],
        witness: StateValue::None,
        wmode: WMode::Auto,
    }
}
impl<S: Kit> St<S> {
    pub fn call(mut self, c: u16) -> Self {
        self.call = c;
        self
    }
    pub fn reads(mut self, r: &[(usize, u16)]) -> Self {
        self.reads = r.to_vec();
        self
    }
    pub fn imm(mut self, i: &[u64]) -> Self {
        self.imm = i.to_vec();
        self
    }
    pub fn wmode(mut self, m: WMode) -> Self {
        self.wmode = m;
        self
    }
    pub fn inw(mut self, w: &[StateValue]) -> Self {
        self.inw = w.to_vec();
        self
    }
    pub fn opw(mut self, w: StateValue) -> Self {
        self.witness = w;
        self
    }
}

impl<S: Kit> Hist<S> {
    pub fn new(name: &str, w: World<S>) -> Self {
        let mut seals = BTreeMap::new();
        for (pos, def) in &w.gdefs {
            if let Some(s) = S::s_abs(def) {
                seals.insert(CellAddr::new(w.gid, *pos), s);
            }
        }
        let g = Step { opid: w.gid, op: w.graw.clone(), defs: w.gdefs.clone(), closes: vec![], witness: None };
        Hist { name: name.to_string(), w, steps: vec![g], seals, salt: 10 }
    }
    pub fn addr(&self, step: usize, pos: u16) -> CellAddr { CellAddr::new(self.steps[step].opid, pos) }
    pub fn op_of(&self, s: &St<S>) -> Operation {
        mk_op(self.w.cid, &OpSpec {
            call: s.call,
            nonce: self.steps.len() as u64 + 100,
            ins: s
                .ins
                .iter()
                .enumerate()
                .map(|(i, (a, p))| (self.addr(*a, *p), s.inw.get(i).copied().unwrap_or(StateValue::None)))
                .collect(),
            reads: s.reads.iter().map(|(a, p)| self.addr(*a, *p)).collect(),
            outs: s.outs.clone(),
            imm: s.imm.clone(),
            witness: s.witness,
        })
    }
    /// Appends a step whose inputs are all closed in its own witness.
    pub fn add(&mut self, s: St<S>) -> usize {
        let op = self.op_of(&s);
        let opid = op.opid();
        let closes: Vec<S> = op.destructible_in.iter().map(|i| self.seals[&i.addr]).collect();
        let witness = match s.wmode {
            WMode::Never => None,
            WMode::Auto if closes.is_empty() => None,
            _ => {
                self.salt += 1;
                let mut cl: Vec<Closing<S>> = closes.iter().map(|c| (Some(*c), opid)).collect();
                if cl.is_empty() {
                    cl.push((None, opid));
                }
                Some(S::mk_witness(self.salt, &closes, &cl))
            }
        };
        self.push(op, defs_of(&s.outs), closes, witness)
    }
    /// Appends several steps, all closed in one and the same witness.
    pub fn add_shared(&mut self, list: Vec<St<S>>) {
        let mut all = vec![];
        let mut spends = vec![];
        let base = self.steps.len();
        let mut ops = vec![];
        for s in &list {
            let mut op = self.op_of(s);
            op.nonce = fe256::from((base + ops.len()) as u64 + 100);
            let opid = op.opid();
            let closes: Vec<S> = op.destructible_in.iter().map(|i| self.seals[&i.addr]).collect();
            all.extend(closes.iter().map(|c| (Some(*c), opid)));
            spends.extend(closes.iter().copied());
            ops.push((op, defs_of(&s.outs), closes));
        }
        self.salt += 1;
        let w = S::mk_witness(self.salt, &spends, &all);
        for (op, defs, closes) in ops {
            self.push(op, defs, closes, Some(w.clone()));
        }
    }
    pub fn push(&mut self, op: Operation, defs: BTreeMap<u16, Def<S>>, closes: Vec<S>, witness: Option<Wit<S>>) -> usize {
        let opid = op.opid();
        for (pos, def) in &defs {
            let seal = match (S::s_abs(def), &witness) {
                (Some(s), _) => Some(s),
                (None, Some(w)) => Some(S::s_rel(def, S::s_wid(w))),
                _ => None,
            };
            if let Some(seal) = seal {
                self.seals.insert(CellAddr::new(opid, *pos), seal);
            }
        }
        self.steps.push(Step { opid, op, defs, closes, witness });
        self.steps.len() - 1
    }
    pub fn blocks(&self) -> Vec<Block<S>> { self.steps.iter().map(|s| s.block()).collect() }
    /// indexes of steps this step directly depends on (inputs and reads)
    pub fn deps(&self, i: usize) -> BTreeSet<usize> {
        let op = &self.steps[i].op;
        let ids: Vec<Opid> = op.destructible_in.iter().map(|i| i.addr.opid).chain(op.immutable_in.iter().map(|a| a.opid)).collect();
        let mut r: BTreeSet<usize> = ids.iter().filter_map(|id| self.steps.iter().position(|s| s.opid == *id)).collect();
        if i != 0 {
            r.insert(0);
        }
        r
    }
    /// All dependency-closed subsets of the non-genesis steps, as bit masks over step indexes
    /// (bit 0, the genesis, is always set).
    pub fn down_closed(&self) -> Vec<u32> {
        let n = self.steps.len();
        let deps: Vec<u32> = (0..n).map(|i| self.deps(i).iter().fold(0, |m, d| m | 1 << d)).collect();
        (0..1u32 << n).filter(|m| m & 1 == 1 && (1..n).all(|i| m >> i & 1 == 0 || deps[i] & !m == 0)).collect()
    }
}

pub fn token_raw(b: [u8; 32]) -> AuthToken { AuthToken::from(fe256::from(b)) }
