//! Hostile consignments (C21): extreme and self-contradictory entries. The verdicts are compared
//! with the specification as everywhere else; what matters here is that there is one.
use std::collections::BTreeMap;

use amplify::confinement::Confined;
use amplify::ByteArray;
use ultrasonic::aluvm::alu::LibSite;
use ultrasonic::{fe256, AuthToken, CellAddr, CellLock, ContractId, Opid, StateCell, StateData, StateValue};

use crate::base::*;
use crate::fam::one;
use crate::led::*;
use crate::rep::*;
use crate::seal::*;
use crate::world::*;

fn max() -> fe256 { fe256::from([0xFFu8; 32]) }
fn order_minus_1() -> fe256 {
    let mut b = [0xFFu8; 32];
    // FIELD_ORDER_SECP of the virtual machine is 2^256 - 2^32 - 978
    b[0] = 0x2D;
    b[1] = 0xFC;
    b[4] = 0xFE;
    fe256::from(b)
}
fn values() -> Vec<(&'static str, StateValue)> {
    let (m, o, z) = (max(), order_minus_1(), fe256::ZERO);
    vec![
        ("none", StateValue::None),
        ("zero", StateValue::Single { first: z }),
        ("max", StateValue::Single { first: m }),
        ("order-1", StateValue::Single { first: o }),
        ("2-later-max", StateValue::Double { first: o, second: m }),
        ("3-later-max", StateValue::Triple { first: z, second: o, third: m }),
        ("4-order-1", StateValue::Quadruple { first: o, second: o, third: o, fourth: o }),
        ("4-max", StateValue::Quadruple { first: m, second: m, third: m, fourth: m }),
    ]
}
fn tokens() -> Vec<(&'static str, AuthToken)> {
    let mut b31 = [0u8; 32];
    b31[30] = 1;
    let mut b32 = [0u8; 32];
    b32[31] = 0x80;
    vec![
        ("tok-zero", token_raw([0; 32])),
        ("tok-30", token_raw({
            let mut b = [0xFF; 32];
            b[30] = 0;
            b[31] = 0;
            b
        })),
        ("tok-31", token_raw(b31)),
        ("tok-32", token_raw(b32)),
        ("tok-max", token_raw([0xFF; 32])),
    ]
}

/// The stage: a contract with three cells, to which hostile entries are submitted first or second.
fn stage<S: Kit>() -> Hist<S> {
    Hist::new(
        "stage",
        World::new(1, &[
            out(10, S::abs(1)),
            outl(20, S::abs(2), lock(&lib_lock_secret())),
            outl(30, S::abs(3), lock(&lib_lock_auth())),
        ], &[5]),
    )
}

fn submit<S: Kit>(rep: &mut Rep, h: &Hist<S>, block: Block<S>, first: bool) {
    let store = store_with(h, 1);
    if first {
        // as the genesis, followed by the genesis
        one(rep, &h.w, &store, &[block, h.w.gblock()]);
    } else {
        // twice, so that it is judged as both a new and, if valid, a known operation
        one(rep, &h.w, &store, &[h.w.gblock(), block.clone(), block]);
    }
}

/// Witnesses of a hostile entry.
fn witnesses<S: Kit>(h: &Hist<S>, b: &Block<S>, first: bool, all: bool) -> Vec<(String, Block<S>)> {
    let mut v = vec![];
    let r = resign(h, b, first, 700, true);
    let mut x = b.clone();
    x.witness = None;
    v.push(("none".to_string(), x));
    if let (true, Some(w)) = (all, &r.witness) {
        for (n, m) in S::mutate(w) {
            let mut x = b.clone();
            x.witness = Some(m);
            v.push((n.to_string(), x));
        }
    }
    let mut x = b.clone();
    x.witness = Some(S::mk_witness(701, &[], &[]));
    v.push(("empty".into(), x));
    v.push(("closing".into(), r));
    v
}

/// Structure: which cells are destroyed, how many are created, where seals are reported.
pub fn structure<S: Kit>(g: &Global, t: &mut Stats, th: bool) {
    let h = stage::<S>();
    let gid = h.w.gid;
    let mut ins: Vec<(String, Vec<CellAddr>)> = vec![("none".into(), vec![])];
    let ids = [("gen", gid), ("zero", Opid::from([0; 32])), ("ff", Opid::from([0xFF; 32]))];
    let poss = [0u16, 1, 2, 3, 255, 256, 65534, 65535];
    for (n, id) in ids {
        for p in poss {
            ins.push((format!("{n}:{p}"), vec![CellAddr::new(id, p)]));
        }
    }
    ins.push(("same-twice".into(), vec![CellAddr::new(gid, 0); 2]));
    ins.push(("two".into(), vec![CellAddr::new(gid, 0), CellAddr::new(gid, 2)]));
    ins.push(("good-bad".into(), vec![CellAddr::new(gid, 0), CellAddr::new(gid, 65535)]));
    ins.push(("bad-good".into(), vec![CellAddr::new(gid, 65535), CellAddr::new(gid, 0)]));
    let def = S::abs(50);
    let rel = S::rel(u16::MAX as u32, 0);
    let cell = |d: &Def<S>| StateCell { data: val(1), auth: S::s_token(d), lock: None };
    let outs: Vec<(&str, Vec<StateCell>)> = vec![
        ("0", vec![]),
        ("abs", vec![cell(&def)]),
        ("rel", vec![cell(&rel)]),
        ("abs,rel", vec![cell(&def), cell(&rel)]),
        ("same", vec![cell(&def), cell(&def)]),
        ("257", vec![cell(&def); 257]),
    ];
    let mut defs: Vec<(String, BTreeMap<u16, Def<S>>)> = vec![("none".into(), BTreeMap::new())];
    for p in [0u16, 1, 255, 256, 257, 32768, 65534, 65535] {
        defs.push((format!("abs@{p}"), [(p, def.clone())].into()));
        defs.push((format!("rel@{p}"), [(p, rel.clone())].into()));
        if p > 0 {
            defs.push((format!("abs@0,{p}"), [(0, def.clone()), (p, def.clone())].into()));
        }
    }
    let (ni, no, nd) = (ins.len(), outs.len(), defs.len());
    let name = format!("hostile-structure-{}", S::NAME);
    par(g, t, &name, ni * no * nd, |i, rep| {
        let (a, b, c) = (i % ni, i / ni % no, i / ni / no);
        for first in [false, true] {
            for (cn, cid) in [("contract", h.w.cid), ("codex", ContractId::from(h.w.codex_id.to_byte_array()))] {
                let mut op = mk_op::<S>(cid, &OpSpec {
                    call: ACCEPT,
                    nonce: 5,
                    ins: ins[a].1.iter().map(|a| (*a, StateValue::None)).collect(),
                    reads: vec![],
                    outs: vec![],
                    imm: vec![],
                    witness: StateValue::None,
                });
                op.destructible_out = Confined::try_from(outs[b].1.clone()).unwrap();
                let block = mk_block::<S>(op, defs[c].1.clone(), None);
                for (wn, x) in witnesses(&h, &block, first, th) {
                    if rep.case(|| format!("in={} out={} defs={} first={first} cid={cn} wit={wn}", ins[a].0, outs[b].0, defs[c].0)) {
                        submit(rep, &h, x, first);
                    }
                }
            }
        }
    });
}

/// Contents: extreme values, tokens, locks, methods.
pub fn contents<S: Kit>(g: &Global, t: &mut Stats, th: bool) {
    let h = stage::<S>();
    let vals = values();
    let toks = tokens();
    let calls = [ACCEPT, FAIL, MISSING, KEEP, READ, OPWIT, ARITH, NOLIB, 0xFFFF];
    let (nv, nt, nc) = (vals.len(), toks.len(), calls.len());
    let name = format!("hostile-contents-{}", S::NAME);
    par(g, t, &name, nv * nt * nc, |i, rep| {
        let (v, k, c) = (i % nv, i / nv % nt, i / nv / nt);
        for (inn, inw) in [("none", StateValue::None), ("48", val(48)), ("same", vals[v].1)] {
            for (ln, lock) in [("no", None), ("secret", lock(&lib_lock_secret())), ("aux", Some(CellLock { aux: vals[v].1, script: None }))] {
                for cells in [0usize, 1, 2] {
                    for field in 0..if th { 15 } else { 5 } {
                        let mut op = mk_op::<S>(h.w.cid, &OpSpec {
                            call: calls[c],
                            nonce: 5,
                            ins: vec![(h.addr(0, cells as u16), inw)],
                            reads: vec![h.addr(0, 0)],
                            outs: vec![],
                            imm: vec![],
                            witness: StateValue::None,
                        });
                        let x = vals[v].1;
                        let mut oc = StateCell { data: val(10 * (cells as u64 + 1)), auth: toks[k].1, lock };
                        let mut od = StateData::new(1u64, 1u64);
                        let bit = |n: usize| if th { (field + 1) >> n & 1 == 1 } else { field == n || field == 4 };
                        if bit(0) {
                            oc.data = x;
                        }
                        if bit(1) {
                            od.value = x;
                        }
                        if bit(2) {
                            op.witness = x;
                        }
                        if bit(3) {
                            op.nonce = max();
                        }
                        op.destructible_out = Confined::try_from(vec![oc]).unwrap();
                        op.immutable_out = Confined::try_from(vec![od]).unwrap();
                        let block = resign(&h, &mk_block::<S>(op, BTreeMap::new(), None), false, 700, true);
                        if rep.case(|| format!("value={} token={} call={} inwit={inn} lock={ln} cell={cells} field={field}", vals[v].0, toks[k].0, calls[c])) {
                            submit(rep, &h, block, false);
                        }
                    }
                }
            }
        }
    });
    // hostile tokens against definitions: none can be reported for them
    let name = format!("hostile-tokens-{}", S::NAME);
    par(g, t, &name, nt * nt, |i, rep| {
        for d in [S::abs(50), S::rel(0, 0)] {
            for known in [false, true] {
                if rep.case(|| format!("tokens {} {} def {d} known={known}", toks[i % nt].0, toks[i / nt].0)) {
                    let mut op = mk_op::<S>(h.w.cid, &OpSpec {
                        call: ACCEPT,
                        nonce: 5,
                        ins: vec![],
                        reads: vec![],
                        outs: vec![],
                        imm: vec![],
                        witness: StateValue::None,
                    });
                    let cell = |a| StateCell { data: val(1), auth: a, lock: None };
                    op.destructible_out = Confined::try_from(vec![cell(toks[i % nt].1), cell(S::s_token(&d)), cell(toks[i / nt].1)]).unwrap();
                    let mut store = store_with(&h, 1);
                    if known {
                        store.apply(op.opid(), &op);
                    }
                    for defs in [
                        BTreeMap::from([(0u16, d.clone())]),
                        BTreeMap::from([(1u16, d.clone())]),
                        BTreeMap::from([(2u16, d.clone())]),
                        BTreeMap::from([(0u16, d.clone()), (1, d.clone()), (2, d.clone())]),
                        BTreeMap::new(),
                    ] {
                        one(rep, &h.w, &store, &[h.w.gblock(), mk_block::<S>(op.clone(), defs, None)]);
                    }
                }
            }
        }
    });
}

/// Locks pointing to every offset of every library: instructions may be entered in the middle.
pub fn locks<S: Kit>(g: &Global, t: &mut Stats, th: bool) {
    let libs = libs();
    let mut sites = vec![];
    for (id, lib) in &libs {
        let n = lib.code.len() as u16;
        for off in (0..=n + 3).chain([255, 256, 0x7FFF, 0xFFFE, 0xFFFF]) {
            sites.push(LibSite::new(*id, off));
        }
    }
    let name = format!("hostile-locks-{}", S::NAME);
    par(g, t, &name, sites.len(), |i, rep| {
        let mut h = Hist::<S>::new(
            "lock",
            World::new(1, &[out(10, S::abs(1)), outl(20, S::abs(2), Some(CellLock { aux: StateValue::None, script: Some(sites[i]) }))], &[5]),
        );
        let l = Some(CellLock { aux: val(7), script: Some(sites[i]) });
        h.add(st(&[(0, 0)], vec![outl(10, S::rel(0, 0), l)]));
        h.add(st(&[(1, 0), (0, 1)], vec![out(10, S::abs(9))]).inw(&[val(48), val(1)]));
        let mut h2 = Hist::new("lock", h.w.clone());
        h2.add(st(&[(0, 1)], vec![out(20, S::abs(9))]).call(KEEP).inw(&[StateValue::None]));
        for (n, h) in [("new-cell", &h), ("genesis-cell", &h2)] {
            if rep.case(|| format!("{n} lib={:?} offset={}", sites[i].lib_id, sites[i].offset)) {
                one(rep, &h.w, &store_with(h, 1), &h.blocks());
            }
        }
        let _ = th;
    });
}

/// The largest entries there can be.
pub fn largest<S: Kit>(g: &Global, t: &mut Stats, n: usize, opid_of_known: bool) {
    let name = format!("hostile-largest-{}-{n}", S::NAME);
    const KINDS: usize = 14;
    par(g, t, &name, KINDS, |i, rep| {
        let label = [
            "everything spent", "one input many times", "last input unknown", "last input used twice", "definition beyond the last output",
            "last two definitions swapped", "reads", "one definition of many", "long values",
            "last one not closed", "middle one closed over something else", "first one not closed",
            "another one as large, both spent", "another one as large, its last one not closed",
        ][i];
        if !rep.case(|| format!("{label} known={opid_of_known}")) {
            return;
        }
        let outs: Vec<OutS<S>> = (0..n).map(|k| out(k as u64, if k % 2 == 0 { S::abs(k as u32 + 10) } else { S::rel(k as u32, 0) })).collect();
        let mut h = Hist::<S>::new("largest", World::new(1, &[out(1, S::abs(1)), out(2, S::abs(2))], &[5]));
        h.add(st(&[(0, 0)], outs));
        if i >= 12 {
            // (the seals of both are disclosed at the same time)
            let outs: Vec<OutS<S>> = (0..n).map(|k| out(k as u64, S::abs(k as u32 + 100_000))).collect();
            h.add(st(&[(0, 1)], outs));
        }
        let mut blocks = h.blocks();
        let mut defs = h.steps[1].defs.clone();
        let last = (n - 1) as u16;
        let mut ins: Vec<CellAddr> = (0..n).map(|k| h.addr(1, k as u16)).collect();
        let mut reads = vec![];
        match i {
            1 => ins = vec![h.addr(1, last); n],
            2 => ins[n - 1] = CellAddr::new(h.steps[1].opid, u16::MAX),
            3 => ins[n - 1] = h.addr(1, 0),
            4 => {
                let d = defs.remove(&last).unwrap();
                defs.insert(n as u16, d);
            }
            5 => {
                let (a, b) = (defs[&last].clone(), defs[&(last - 1)].clone());
                defs.insert(last, b);
                defs.insert(last - 1, a);
            }
            6 => {
                reads = vec![h.addr(0, 0); n];
                ins = vec![h.addr(0, 1)];
            }
            7 => {
                defs = [(last, defs[&last].clone())].into();
                ins = vec![h.addr(1, last)];
            }
            8 => ins = vec![h.addr(1, last)],
            12 | 13 => ins = vec![h.addr(1, 0), h.addr(1, last), h.addr(2, 0), h.addr(2, last)],
            _ => {}
        }
        blocks[1].defined_seals = mk_seals::<S>(defs);
        let mut op = mk_op::<S>(h.w.cid, &OpSpec {
            call: ACCEPT,
            nonce: 7,
            ins: ins.iter().map(|a| (*a, if i == 8 { values()[7].1 } else { StateValue::None })).collect(),
            reads,
            outs: vec![],
            imm: if i == 8 { vec![3; n] } else { vec![] },
            witness: StateValue::None,
        });
        if i == 8 {
            for d in op.immutable_out.iter_mut() {
                d.value = values()[6].1;
            }
        }
        let mut closes: Vec<S> = ins.iter().filter_map(|a| h.seals.get(a).copied()).collect();
        closes.dedup();
        let opid = op.opid();
        let mut cl: Vec<Closing<S>> = closes.iter().map(|c| (Some(*c), opid)).collect();
        match i {
            9 => {
                closes.pop();
            }
            10 => cl[n / 2].1 = h.w.gid,
            11 => {
                closes.remove(0);
            }
            13 => cl[3].1 = h.w.gid,
            _ => {}
        }
        let wit = S::mk_witness(900, &closes, &cl);
        blocks.push(mk_block(op, BTreeMap::new(), Some(wit)));
        let mut stx = store_with(&h, if opid_of_known { if i >= 12 { 7 } else { 3 } } else { 1 });
        rep.eval(&h.w, &mut stx, &[], &blocks, &Plan::default(), false);
    });
}

pub fn hostile<S: Kit>(g: &Global, t: &mut Stats, th: bool) {
    structure::<S>(g, t, th);
    contents::<S>(g, t, th);
    locks::<S>(g, t, th);
    if g.prop == "C21" {
        largest::<S>(g, t, 65535, false);
        largest::<S>(g, t, 65535, true);
    }
    largest::<S>(g, t, 4097, false);
}
