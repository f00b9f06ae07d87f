//! The explored families. Each enumerates a finite space of consignments (or of sequences of
//! evaluations) completely and compares every evaluation by the engine with the specification.
use std::collections::{BTreeMap, BTreeSet};

use amplify::ByteArray;
use ultrasonic::{fe256, AuthToken, CellAddr, ContractId, Operation, Opid, StateValue};

use crate::base::*;
use crate::led::*;
use crate::rep::*;
use crate::seal::*;
use crate::spec::*;
use crate::world::*;

/// One consignment on a fresh (or partially known) contract.
pub fn one<S: Kit>(rep: &mut Rep, w: &World<S>, st: &Store<S>, blocks: &[Block<S>]) -> Expect {
    let mut st = st.clone();
    let (_, exp, _) = rep.eval(w, &mut st, &[], blocks, &Plan::default(), false);
    exp
}

// ------------------------------------------------------------------------------------------------
// FA: all sequences over an alphabet of operations x disclosures x witnesses
// ------------------------------------------------------------------------------------------------

pub struct Sym<S: Kit> {
    pub name: String,
    pub block: Block<S>,
}

pub fn alphabet<S: Kit>(small: bool) -> (Hist<S>, Vec<Sym<S>>) {
    let w: World<S> = World::new(1, &[out(10, S::abs(1)), out(20, S::abs(2))], &[5]);
    let mut h = Hist::new("story", w);
    // two witnesses of T1, two of the others
    let t1 = h.add(st(&[(0, 0)], vec![out(4, S::rel(0, 0)), out(6, S::abs(3))]).imm(&[7]));
    let t2 = h.add(st(&[(0, 0)], vec![out(10, S::abs(4))]));
    let t3 = h.add(st(&[(1, 0)], vec![out(4, S::rel(0, 0))]).reads(&[(1, 0)]));
    let t4 = h.add(st(&[(1, 1), (0, 1)], vec![out(9, S::abs(5)), out(9, S::rel(0, 0))]));
    let n1 = h.add(st(&[], vec![out(5, S::rel(0, 0)), out(2, S::abs(6))]).wmode(WMode::Never));
    let f1 = h.add(st(&[(0, 1)], vec![out(5, S::abs(5))]).call(FAIL));
    let k1 = h.add(st(&[(0, 1), (0, 1)], vec![out(5, S::abs(5))]));
    let mut xop = h.op_of(&st(&[(0, 1)], vec![out(5, S::abs(5))]));
    xop.contract_id = ContractId::from_byte_array([0xEE; 32]);
    let seal1 = h.seals[&h.addr(0, 1)];
    let xid = xop.opid();
    let xw = S::mk_witness(90, &[seal1], &[(Some(seal1), xid)]);
    let x1 = h.push(xop, defs_of::<S>(&[out(5, S::abs(5))]), vec![seal1], Some(xw));
    let mut syms = vec![];
    let g = h.steps[0].clone();
    syms.push(Sym { name: "G".into(), block: g.block() });
    syms.push(Sym { name: "G-hidden".into(), block: g.block_with(BTreeMap::new()) });
    let mut gb = g.block();
    gb.operation = h.w.gop.clone();
    syms.push(Sym { name: "Gbound".into(), block: gb });
    let w1b = resign(&h, &h.steps[t1].block(), false, 50, true).witness.unwrap();
    for (name, i) in [("T1", t1), ("T2", t2), ("T3", t3), ("T4", t4), ("N", n1), ("F", f1), ("K", k1), ("X", x1)] {
        let s = h.steps[i].clone();
        let mut defs: Vec<(&str, BTreeMap<u16, Def<S>>)> = vec![("", s.defs.clone())];
        if !small || i == t1 {
            defs.push(("-hidden", BTreeMap::new()));
        }
        if i == t1 || i == t4 {
            let mut d = s.defs.clone();
            let (a, b) = (d[&0].clone(), d[&1].clone());
            d.insert(0, b.clone());
            d.insert(1, a);
            defs.push(("-swapped", d));
            let mut d = s.defs.clone();
            d.remove(&0);
            d.insert(1, b.clone());
            defs.push(("-only1", d));
            let mut d = s.defs.clone();
            d.insert(2, b);
            defs.push(("-extra", d));
        }
        let mut wits: Vec<(String, Option<Wit<S>>)> = vec![("".into(), s.witness.clone())];
        if let Some(wit) = &s.witness {
            wits.push(("/none".into(), None));
            if i == t1 {
                wits.push(("/alt".into(), Some(w1b.clone())));
            }
            if i == t3 {
                // the same operation after the alternative witness of T1
                let d = h.steps[t1].defs[&0].clone();
                let seal = S::s_rel(&d, S::s_wid(&w1b));
                wits.push(("/after-alt".into(), Some(S::mk_witness(51, &[seal], &[(Some(seal), s.opid)]))));
            }
            for (n, m) in S::mutate(wit) {
                if n == "other-message-for-one" || (!small && (n == "spends-all-but-one" || n == "client-broken" || n == "prevout")) {
                    wits.push((format!("/{n}{}", wits.len()), Some(m)));
                }
            }
        } else {
            let f = resign(&h, &s.block(), false, 60, true).witness;
            wits.push(("/with".into(), f));
            let f = h.steps[t1].witness.clone();
            wits.push(("/wrong".into(), f));
        }
        for (dn, d) in &defs {
            for (wn, wit) in &wits {
                syms.push(Sym { name: format!("{name}{dn}{wn}"), block: mk_block(s.op.clone(), d.clone(), wit.clone()) });
            }
        }
    }
    (h, syms)
}

pub fn fa<S: Kit>(g: &Global, total: &mut Stats, depth: usize, small: bool) {
    let (h, syms) = alphabet::<S>(small);
    // what the contract knows beforehand
    let masks: Vec<u32> = if small { vec![1] } else { vec![1, 0b11, 0b1011] };
    for mask in masks {
        let name = format!("sequences-{}{}-known{mask:b}", S::NAME, if small { "-small" } else { "" });
        let store = store_with(&h, mask);
        let n = syms.len();
        par(g, total, &name, n * n, |i, rep| {
            let (a, b) = (i / n, i % n);
            let mut run = Run::new();
            let mut stx = store.clone();
            if b == 0 {
                // the sequence of one
                if rep.case(|| syms[a].name.clone()) {
                    one(rep, &h.w, &store, &[syms[a].block.clone()]);
                }
            }
            let j = judge(&h.w, &stx, &[], &run, &syms[a].block);
            if !j.ok() {
                return;
            }
            accept(&mut stx, &mut run, &syms[a].block, &j);
            rec(rep, &h, &store, &syms, &stx, &run, &mut vec![a], b, depth);
        });
    }
    fn rec<S: Kit>(
        rep: &mut Rep,
        h: &Hist<S>,
        store: &Store<S>,
        syms: &[Sym<S>],
        stx: &Store<S>,
        run: &Run<S>,
        path: &mut Vec<usize>,
        sym: usize,
        depth: usize,
    ) {
        path.push(sym);
        let ok = {
            let blocks: Vec<Block<S>> = path.iter().map(|i| syms[*i].block.clone()).collect();
            if rep.case(|| path.iter().map(|i| syms[*i].name.as_str()).collect::<Vec<_>>().join(" ; ")) {
                one(rep, &h.w, store, &blocks);
            }
            let j = judge(&h.w, stx, &[], run, &syms[sym].block);
            if j.ok() && path.len() < depth {
                let mut st2 = stx.clone();
                let mut run2 = run.clone();
                accept(&mut st2, &mut run2, &syms[sym].block, &j);
                Some((st2, run2))
            } else {
                None
            }
        };
        if let Some((st2, run2)) = ok {
            for s in 0..syms.len() {
                rec(rep, h, store, syms, &st2, &run2, path, s, depth);
            }
        }
        path.pop();
    }
}

// ------------------------------------------------------------------------------------------------
// FE: deviations from honest histories
// ------------------------------------------------------------------------------------------------

pub fn fe<S: Kit>(g: &Global, total: &mut Stats, all_masks: bool) {
    for h in bases::<S>() {
        let blocks = h.blocks();
        let mut devs = vec![("honest".to_string(), blocks.clone())];
        devs.extend(deviate(&h, &blocks));
        let mut masks = h.down_closed();
        if !all_masks && masks.len() > 3 {
            let n = masks.len();
            masks = vec![masks[0], masks[n / 2], masks[n - 1]];
        }
        let name = format!("deviations-{}-{}", S::NAME, h.name);
        let nm = masks.len();
        par(g, total, &name, devs.len() * nm, |i, rep| {
            let (d, m) = (i / nm, i % nm);
            if rep.case(|| format!("{} known={:b}", devs[d].0, masks[m])) {
                one(rep, &h.w, &store_with(&h, masks[m]), &devs[d].1);
            }
        });
    }
}

/// Two deviations at once.
pub fn fe2<S: Kit>(g: &Global, total: &mut Stats, names: &[&str], known_all: bool) {
    for h in bases::<S>() {
        if !names.is_empty() && !names.contains(&h.name.as_str()) {
            continue;
        }
        let blocks = h.blocks();
        let devs = deviate(&h, &blocks);
        let masks = if known_all {
            let m = h.down_closed();
            vec![m[0], m[m.len() - 1]]
        } else {
            vec![1]
        };
        let name = format!("double-deviations-{}-{}", S::NAME, h.name);
        par(g, total, &name, devs.len(), |i, rep| {
            let (n1, b1) = &devs[i];
            if b1.is_empty() {
                return;
            }
            let second = deviate(&h, b1);
            for mask in &masks {
                let store = store_with(&h, *mask);
                // only where the first deviation leaves something to deviate: prefix accepted so far
                for (n2, b2) in &second {
                    if rep.case(|| format!("{n1} & {n2} known={mask:b}")) {
                        one(rep, &h.w, &store, b2);
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// FB: which definitions are reported for which positions
// ------------------------------------------------------------------------------------------------

pub fn fb<S: Kit>(g: &Global, total: &mut Stats, nout: usize, spend: bool) {
    let pool: Vec<Def<S>> = vec![S::abs(1), S::rel(0, 0), S::retweak(&S::abs(1), 5), S::rel(1, 0)];
    let foreign: Def<S> = S::abs(99);
    let nd = if nout >= 3 { 3 } else { pool.len() };
    // cells: every assignment of definitions to cells (duplicates allowed)
    let mut cellsets = vec![vec![]];
    for _ in 0..nout {
        cellsets = cellsets.into_iter().flat_map(|v: Vec<usize>| (0..nd).map(move |d| { let mut v = v.clone(); v.push(d); v })).collect();
    }
    // where the definitions may be reported
    let mut positions: Vec<u16> = (0..=nout as u16).collect();
    positions.push(256);
    let nchoice = nd + 2;
    let nrep = nchoice.pow(positions.len() as u32);
    for genesis in [true, false] {
        let name = format!("bindings-{}-{nout}-{}", S::NAME, if genesis { "genesis" } else { "operation" });
        par(g, total, &name, cellsets.len(), |ci, rep| {
            let cs = &cellsets[ci];
            let outs: Vec<OutS<S>> = cs.iter().enumerate().map(|(i, d)| out(i as u64, pool[*d].clone())).collect();
            let h = if genesis {
                Hist::new("b", World::new(1, &outs, &[]))
            } else {
                let mut h = Hist::new("b", World::new(1, &[out(1, S::abs(50))], &[]));
                h.add(st(&[(0, 0)], outs.clone()));
                h
            };
            let mut store2 = store_with(&h, 3);
            if genesis {
                store2 = store_with(&h, 1);
            }
            let store = store_with(&h, 1);
            let target = h.steps.len() - 1;
            for code in 0..nrep {
                let mut c = code;
                let mut defs = BTreeMap::new();
                for p in &positions {
                    let k = c % nchoice;
                    c /= nchoice;
                    if k == nd + 1 {
                        defs.insert(*p, foreign.clone());
                    } else if k > 0 {
                        defs.insert(*p, pool[k - 1].clone());
                    }
                }
                let mut blocks = h.blocks();
                blocks[target].defined_seals = mk_seals::<S>(defs.clone());
                if rep.case(|| format!("cells={cs:?} reported={code}")) {
                    let exp = one(rep, &h.w, &store, &blocks);
                    if !genesis {
                        one(rep, &h.w, &store2, &blocks);
                    }
                    if spend && exp.ok {
                        // try to destroy each cell by closing each of the seals
                        let wid = blocks[target].witness.as_ref().map(|w| S::s_wid(w));
                        for k in 0..nout as u16 {
                            for d in 0..nd {
                                let seal = match (S::s_abs(&pool[d]), wid) {
                                    (Some(s), _) => s,
                                    (None, Some(wid)) => S::s_rel(&pool[d], wid),
                                    _ => continue,
                                };
                                let op = mk_op::<S>(h.w.cid, &OpSpec {
                                    call: ACCEPT,
                                    nonce: 7,
                                    ins: vec![(CellAddr::new(h.steps[target].opid, k), StateValue::None)],
                                    reads: vec![],
                                    outs: vec![],
                                    imm: vec![],
                                    witness: StateValue::None,
                                });
                                let wit = S::mk_witness(500, &[seal], &[(Some(seal), op.opid())]);
                                let mut bs = blocks.clone();
                                bs.push(mk_block(op, BTreeMap::new(), Some(wit)));
                                one(rep, &h.w, &store, &bs);
                            }
                        }
                    }
                }
            }
        });
    }
}

/// Cells carrying a token which isn't the one of the definition reported for them, but is close to
/// it, or special.
pub fn tokens<S: Kit>(g: &Global, total: &mut Stats) {
    let defs: Vec<Def<S>> = vec![S::abs(1), S::rel(0, 0)];
    for (di, def) in defs.iter().enumerate() {
        let real = S::s_token(def);
        let mut raw = [0u8; 32];
        raw[..30].copy_from_slice(&real.to_byte_array());
        let mut all: Vec<(String, [u8; 32])> = vec![];
        for bit in 0..256 {
            let mut x = raw;
            x[bit / 8] ^= 1 << (bit % 8);
            all.push((format!("bit-{bit}"), x));
        }
        for k in 0..30 {
            for fill in [0u8, 0xFF] {
                let mut x = raw;
                x[k..30].fill(fill);
                all.push((format!("head-{k}-{fill:x}"), x));
                let mut x = raw;
                x[..=k].fill(fill);
                all.push((format!("tail-{k}-{fill:x}"), x));
                let mut x = [fill; 32];
                x[30..].fill(0);
                x[k] = raw[k];
                all.push((format!("byte-{k}-{fill:x}"), x));
            }
            let mut x = [0; 32];
            x[k] = 1;
            all.push((format!("one-{k}"), x));
            let mut x = raw;
            x[..30].rotate_left(k);
            all.push((format!("rotated-{k}"), x));
            let mut x = raw;
            x.swap(k, (k + 1) % 30);
            all.push((format!("swapped-{k}"), x));
        }
        let mut x = raw;
        x[..30].reverse();
        all.push(("reversed".into(), x));
        all.push(("all".into(), [0xFF; 32]));
        all.push(("complement".into(), raw.map(|b| !b)));
        let w = World::<S>::new(1, &[out(1, S::abs(50))], &[]);
        for (n, id) in [("genesis", w.gid.to_byte_array()), ("contract", w.cid.to_byte_array()), ("codex", w.codex_id.to_byte_array())] {
            all.push((format!("{n}-id"), id));
            let mut x = id;
            x[30..].fill(0);
            all.push((format!("{n}-id-cut"), x));
        }
        for (n, d) in [("noise", S::retweak(def, 5)), ("next", S::abs(2)), ("genesis", S::abs(50)), ("other", defs[1 - di].clone())] {
            let mut x = [0; 32];
            x[..30].copy_from_slice(&S::s_token(&d).to_byte_array());
            all.push((format!("{n}-token"), x));
        }
        let all: Vec<(String, AuthToken)> = all.into_iter().map(|(n, x)| (n, token_raw(x))).filter(|(_, t)| *t != real).collect();
        let name = format!("tokens-{}-{}", S::NAME, if di == 0 { "absolute" } else { "relative" });
        par(g, total, &name, all.len(), |i, rep| {
            let (n, token) = &all[i];
            let bad: OutS<S> = OutS { auth: Some(*token), ..out::<S>(1, def.clone()) };
            let good: OutS<S> = out(2, S::abs(3));
            for (layout, outs) in [(0, vec![bad.clone()]), (1, vec![good.clone(), bad.clone()]), (2, vec![bad.clone(), good.clone()])] {
                for place in 0..3 {
                    let h = if place == 0 {
                        Hist::new("t", World::new(1, &outs, &[]))
                    } else {
                        let mut h = Hist::new("t", World::new(1, &[out(1, S::abs(50))], &[]));
                        h.add(st(if place == 1 { &[] } else { &[(0, 0)] }, outs.clone()));
                        h
                    };
                    let target = h.steps.len() - 1;
                    // which of the definitions are reported
                    for which in 0..1u32 << outs.len() {
                        let mut blocks = h.blocks();
                        let mut d: BTreeMap<u16, Def<S>> = BTreeMap::new();
                        for (k, o) in outs.iter().enumerate() {
                            if which >> k & 1 == 1 {
                                d.insert(k as u16, o.def.clone());
                            }
                        }
                        blocks[target].defined_seals = mk_seals::<S>(d);
                        for known in [1, 3] {
                            if place == 0 && known == 3 {
                                continue;
                            }
                            if rep.case(|| format!("{n} layout={layout} place={place} reported={which} known={known}")) {
                                one(rep, &h.w, &store_with(&h, known), &blocks);
                            }
                        }
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// FC: closings
// ------------------------------------------------------------------------------------------------

/// Every combination of what a witness does to each of the destroyed cells' seals.
pub fn fc<S: Kit>(g: &Global, total: &mut Stats, kmax: usize) {
    for k in 0..=kmax {
        for mixed in [false, true] {
            if mixed && k == 0 {
                continue;
            }
            // the cells: absolute ones from the genesis, relative ones from an operation
            let outs: Vec<OutS<S>> = (0..=k).map(|i| out(i as u64, S::abs(i as u32 + 1))).collect();
            let mut h = Hist::new("closings", World::new(1, &outs, &[]));
            let outs1: Vec<OutS<S>> = (0..k).map(|i| out(i as u64, S::rel(i as u32, 0))).collect();
            h.add(st(&[(0, k as u16)], outs1));
            let ins: Vec<(usize, u16)> = (0..k).map(|i| (if mixed && i % 2 == 0 { 1 } else { 0 }, i as u16)).collect();
            let s = h.add(st(&ins, vec![out(1, S::rel(0, 0)), out(2, S::abs(44))]).wmode(WMode::Always));
            let step = h.steps[s].clone();
            let follow = h.add(st(&[(s, 0)], vec![]));
            let follow = h.steps[follow].block();
            let name = format!("closings-{}-{k}{}", S::NAME, if mixed { "-mixed" } else { "" });
            // status of each seal: 0 closed, 1 unspent, 2 unmapped, 3 over another operation, 4 nothing
            let n = 5usize.pow(k as u32);
            par(g, total, &name, n, |code, rep| {
                let mut c = code;
                let mut other = step.opid.to_byte_array();
                other[31] ^= 1;
                let other: Opid = other.into();
                let (mut spends, mut cl): (Vec<S>, Vec<Closing<S>>) = (vec![], vec![]);
                for seal in &step.closes {
                    let s = c % 5;
                    c /= 5;
                    if s != 1 && s != 4 {
                        spends.push(*seal);
                    }
                    match s {
                        0 | 1 => cl.push((Some(*seal), step.opid)),
                        3 => cl.push((Some(*seal), other)),
                        _ => {}
                    }
                }
                for extra in 0..3 {
                    // whether the message is committed anyway, through an unrelated input
                    let mut cl = cl.clone();
                    match extra {
                        1 => cl.push((None, step.opid)),
                        2 => cl.push((None, other)),
                        _ => {}
                    }
                    let wit = S::mk_witness(70, &spends, &cl);
                    let mut wits = vec![(0, "as is", wit.clone())];
                    for (mi, (mn, m)) in S::mutate(&wit).into_iter().enumerate() {
                        if code == 0 || mi < 3 {
                            wits.push((mi + 1, mn, m));
                        }
                    }
                    for (mi, mn, wit) in wits {
                        for mask in [1u32, 0b11, 0b111] {
                            if rep.case(|| format!("status={code} extra={extra} witness={mi}:{mn} known={mask:b}")) {
                                let mut blocks = sub(&h, 0b11);
                                blocks.push(mk_block(step.op.clone(), step.defs.clone(), Some(wit.clone())));
                                if mask == 1 {
                                    blocks.push(follow.clone());
                                }
                                one(rep, &h.w, &store_with(&h, mask), &blocks);
                            }
                        }
                    }
                }
            });
        }
    }
}

/// Operations with many inputs of which exactly one is not closed.
pub fn fc_wide<S: Kit>(g: &Global, total: &mut Stats, k: usize) {
    let outs: Vec<OutS<S>> = (0..k).map(|i| out(i as u64, S::abs(i as u32 + 1))).collect();
    let mut h = Hist::new("wide-closings", World::new(1, &outs, &[]));
    let ins: Vec<(usize, u16)> = (0..k).map(|i| (0, i as u16)).collect();
    h.add(st(&ins, vec![out(1, S::rel(0, 0))]));
    let step = h.steps[1].clone();
    let name = format!("wide-closings-{}-{k}", S::NAME);
    par(g, total, &name, (k + 1) * 3, |i, rep| {
        let (i, how) = (i / 3, i % 3);
        let mut other = step.opid.to_byte_array();
        other[0] ^= 1;
        let spends: Vec<S> = step.closes.iter().enumerate().filter(|(n, _)| *n != i || how != 0).map(|(_, s)| *s).collect();
        let cl: Vec<Closing<S>> = step
            .closes
            .iter()
            .enumerate()
            .filter(|(n, _)| *n != i || how != 1)
            .map(|(n, s)| (Some(*s), if n == i && how == 2 { other.into() } else { step.opid }))
            .collect();
        for mask in [1u32, 3] {
            if rep.case(|| format!("unclosed={i} how={how} known={mask:b}")) {
                let b = mk_block(step.op.clone(), step.defs.clone(), Some(S::mk_witness(70, &spends, &cl)));
                one(rep, &h.w, &store_with(&h, mask), &[h.w.gblock(), b]);
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// FD: the codex as a gatekeeper
// ------------------------------------------------------------------------------------------------

pub fn fd<S: Kit>(g: &Global, total: &mut Stats) { fd_grid::<S>(g, total, false) }
pub fn fd_small<S: Kit>(g: &Global, total: &mut Stats) { fd_grid::<S>(g, total, true) }
fn fd_grid<S: Kit>(g: &Global, total: &mut Stats, small: bool) {
    let locks = [None, lock_aux(), lock(&lib_lock_ok()), lock(&lib_lock_fail()), lock(&lib_lock_secret()), lock_nolib()];
    let calls = [ACCEPT, FAIL, MISSING, KEEP, READ, OPWIT, FAILNONE, NOLIB];
    // nin: 0..2 inputs, lock of the last, its witness, value relation, reads, op witness, knownness
    let name = format!("codex-grid-{}", S::NAME);
    par(g, total, &name, calls.len() * locks.len(), |i, rep| {
        let (call, lk) = (calls[i % calls.len()], i / calls.len());
        for nin in 0..3usize {
            for via in [false, true] {
                // the cells come from the genesis or from a preceding operation
                let outs = vec![outl(10, S::abs(1), if nin == 1 { locks[lk] } else { None }), outl(20, S::abs(2), locks[lk]), out(30, S::abs(3))];
                let mut h = Hist::new("grid", World::new(1, &outs, &[10]));
                if via {
                    let outs = vec![
                        outl(10, S::rel(0, 0), if nin == 1 { locks[lk] } else { None }),
                        outl(20, S::abs(12), locks[lk]),
                        out(30, S::abs(13)),
                    ];
                    h.add(st(&[(0, 2)], outs).imm(&[10, 11]));
                }
                let src = via as usize;
                for inwit in [StateValue::None, val(48), val(47)] {
                    for outv in [vec![], vec![10u64], vec![11], vec![10, 99]] {
                        for reads in 0..if small { 2 } else { 6 } {
                            for opw in [StateValue::None, val(77), val(78)] {
                                if nin == 0 && inwit != StateValue::None {
                                    continue;
                                }
                                let mut h2 = h.clone();
                                let ins: Vec<(usize, u16)> = (0..nin).map(|p| (src, p as u16)).collect();
                                let rd: Vec<(usize, u16)> = match reads {
                                    0 => vec![],
                                    1 => vec![(src, 0)],
                                    2 => vec![(0, 5)],
                                    3 => vec![(src, 0), (src, 7)],
                                    4 => vec![(src, 0), (src, 0)],
                                    // second global (exists only in the operation)
                                    _ => vec![(src, 1)],
                                };
                                let outs: Vec<OutS<S>> = outv.iter().enumerate().map(|(i, v)| out(*v, S::abs(60 + i as u32))).collect();
                                let inw: Vec<StateValue> = (0..nin).map(|i| if i + 1 == nin { inwit } else { StateValue::None }).collect();
                                h2.add(st(&ins, outs).call(call).reads(&rd).opw(opw).inw(&inw).imm(&[1]));
                                let masks = if via { vec![1, 0b11, 0b111] } else { vec![1, 0b11] };
                                for mask in masks {
                                    if rep.case(|| {
                                        format!("call={call} lock={lk} nin={nin} via={via} inwit={inwit:?} out={outv:?} reads={reads} opw={opw:?} known={mask:b}")
                                    }) {
                                        one(rep, &h2.w, &store_with(&h2, mask), &h2.blocks());
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// FF: what witness-output seals denote
// ------------------------------------------------------------------------------------------------

pub fn ff<S: Kit>(g: &Global, total: &mut Stats, len: usize) {
    // whose outputs: of an operation without or with an input, of the genesis
    for kind in ["free", "spending", "genesis"] {
        let (with_input, genesis) = (kind == "spending", kind == "genesis");
        let outs = vec![out(1, S::rel(0, 0)), out(2, S::rel(1, 0)), out(3, S::abs(3)), out(4, S::rel(0, 9)), out(5, S::rel(0x0101_0401, 0))];
        let gouts = if genesis { outs.clone() } else { vec![out(10, S::abs(1)), out(20, S::abs(2))] };
        let w: World<S> = World::new(1, &gouts, &[]);
        let mut h = Hist::new("wout", w);
        let a = if genesis {
            0
        } else if with_input {
            h.add(st(&[(0, 0)], outs))
        } else {
            h.add(st(&[], outs).wmode(WMode::Always))
        };
        let mut sa = h.steps[a].clone();
        // the definitions reported: all; only first; only absolute
        let full = sa.defs.clone();
        let firsts: BTreeMap<u16, Def<S>> = full.iter().filter(|(k, _)| **k == 0).map(|(k, v)| (*k, v.clone())).collect();
        let absol: BTreeMap<u16, Def<S>> = full.iter().filter(|(k, _)| **k == 2).map(|(k, v)| (*k, v.clone())).collect();
        if genesis {
            sa.witness = resign(&h, &sa.block(), true, 100, true).witness;
        }
        let wa = sa.witness.clone().unwrap();
        let wb = resign(&h, &sa.block(), genesis, 200, true).witness.unwrap();
        let wc = resign(&h, &sa.block(), genesis, 300, true).witness.unwrap();
        let mut opts: Vec<(String, Block<S>)> = vec![];
        for (wn, wit) in [("a", Some(wa.clone())), ("b", Some(wb.clone())), ("none", None)] {
            for (dn, d) in [("all", &full), ("first", &firsts), ("abs", &absol), ("no", &BTreeMap::new())] {
                if wn == "none" && dn == "first" && !with_input {
                    // kept: a relative seal with no witness
                }
                sa.witness = wit.clone();
                opts.push((format!("{wn}/{dn}"), sa.block_with(d.clone())));
            }
        }
        // who spends what: each cell, closing each candidate seal
        let mut seals: Vec<(String, S)> = vec![];
        for (n, x) in [("a", &wa), ("b", &wb), ("c", &wc)] {
            for (k, d) in &full {
                let s = S::s_abs(d).unwrap_or_else(|| S::s_rel(d, S::s_wid(x)));
                if !seals.iter().any(|(_, x)| *x == s) {
                    seals.push((format!("{n}:{k}"), s));
                }
            }
        }
        let no = opts.len();
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut all = vec![];
        for _ in 0..len {
            seqs = seqs.into_iter().flat_map(|v| (0..no).map(move |o| { let mut v = v.clone(); v.push(o); v })).collect();
            all.extend(seqs.iter().cloned());
        }
        let name = format!("witness-outputs-{}-{}", S::NAME, kind);
        par(g, total, &name, all.len(), |i, rep| {
            let seq = &all[i];
            let mut pre: Vec<Block<S>> = std::iter::once(h.w.gblock()).chain(seq.iter().map(|o| opts[*o].1.clone())).collect();
            if genesis {
                pre.remove(0);
                for b in pre.iter_mut().skip(1) {
                    b.operation = h.w.gop.clone();
                }
            }
            for known in [false, true] {
                if genesis && known {
                    continue;
                }
                // with an input only a re-supply on a contract... (the genesis seal is consumed by the first)
                let blocks_pre: Vec<Block<S>> = if with_input {
                    // re-disclose the consumed seal between the repetitions
                    let mut v = vec![];
                    for (n, b) in pre.iter().enumerate() {
                        if n > 1 {
                            let mut g = h.w.gblock();
                            g.operation = h.w.gop.clone();
                            v.push(g);
                        }
                        v.push(b.clone());
                    }
                    v
                } else {
                    pre.clone()
                };
                let store = store_with(&h, if known { 3 } else { 1 });
                if rep.case(|| format!("{} known={known}", seq.iter().map(|o| opts[*o].0.as_str()).collect::<Vec<_>>().join(" "))) {
                    one(rep, &h.w, &store, &blocks_pre);
                }
                for pos in 0..full.len() as u16 {
                    for (sn, seal) in &seals {
                        let op = mk_op::<S>(h.w.cid, &OpSpec {
                            call: ACCEPT,
                            nonce: 7,
                            ins: vec![(CellAddr::new(sa.opid, pos), StateValue::None)],
                            reads: vec![],
                            outs: vec![out(1, S::rel(0, 0))],
                            imm: vec![],
                            witness: StateValue::None,
                        });
                        if rep.case(|| {
                            format!("{} known={known} spend {pos} by {sn}", seq.iter().map(|o| opts[*o].0.as_str()).collect::<Vec<_>>().join(" "))
                        }) {
                            let wit = S::mk_witness(500, &[*seal], &[(Some(*seal), op.opid())]);
                            let mut bs = blocks_pre.clone();
                            bs.push(mk_block(op, defs_of::<S>(&[out(1, S::rel(0, 0))]), Some(wit)));
                            one(rep, &h.w, &store, &bs);
                        }
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// FG: two contracts with the same codex
// ------------------------------------------------------------------------------------------------

pub fn fg<S: Kit>(g: &Global, total: &mut Stats) {
    for h1 in bases::<S>() {
        // the same history replayed under another contract id
        let mut w2 = h1.w.clone();
        w2.cid = ContractId::from_byte_array([2; 32]);
        w2.gop.contract_id = w2.cid;
        w2.gid = w2.gop.opid();
        let mut h2 = Hist::new(&h1.name, w2);
        let remap = |a: CellAddr, h2: &Hist<S>| -> CellAddr {
            match h1.steps.iter().position(|s| s.opid == a.opid) {
                Some(i) => CellAddr::new(h2.steps[i].opid, a.pos),
                None => a,
            }
        };
        for s in h1.steps.iter().skip(1) {
            let mut op = s.op.clone();
            op.contract_id = h2.w.cid;
            for i in 0..op.destructible_in.len() {
                op.destructible_in[i].addr = remap(op.destructible_in[i].addr, &h2);
            }
            for i in 0..op.immutable_in.len() {
                op.immutable_in[i] = remap(op.immutable_in[i], &h2);
            }
            let opid = op.opid();
            let closes: Vec<S> = op.destructible_in.iter().map(|i| h2.seals[&i.addr]).collect();
            let witness = s.witness.as_ref().map(|_| {
                // one witness closes the seals for both contracts
                h2.salt += 1;
                let mut cl: Vec<Closing<S>> = closes.iter().map(|c| (Some(*c), opid)).collect();
                if cl.is_empty() {
                    cl.push((None, opid));
                }
                cl.push((None, s.opid));
                S::mk_witness(h2.salt + 400, &closes, &cl)
            });
            h2.push(op, s.defs.clone(), closes, witness);
        }
        let n = h1.steps.len();
        let masks = h1.down_closed();
        let name = format!("two-contracts-{}-{}", S::NAME, h1.name);
        // each operation is taken from the first contract, from the second, or replaced by a
        // version of the first one relabelled with the other contract id
        let nopt = 4usize;
        let combos = nopt.pow((n - 1).min(4) as u32);
        par(g, total, &name, combos, |code, rep| {
            let mut c = code;
            let mut blocks = vec![h1.w.gblock()];
            for i in 1..n {
                let k = if i <= 4 {
                    let k = c % nopt;
                    c /= nopt;
                    k
                } else {
                    0
                };
                let b = match k {
                    0 => h1.steps[i].block(),
                    1 => h2.steps[i].block(),
                    2 => {
                        let mut b = h1.steps[i].block();
                        b.operation.contract_id = h2.w.cid;
                        resign(&h1, &b, false, 600 + i as u32, false)
                    }
                    _ => {
                        let mut b = h2.steps[i].block();
                        b.operation.contract_id = h1.w.cid;
                        resign(&h1, &b, false, 650 + i as u32, false)
                    }
                };
                blocks.push(b);
            }
            for mask in [masks[0], masks[masks.len() / 2], masks[masks.len() - 1]] {
                if rep.case(|| format!("mix={code} known={mask:b}")) {
                    let store = store_with(&h1, mask);
                    one(rep, &h1.w, &store, &blocks);
                    one(rep, &h2.w, &store_with(&h2, mask), &blocks);
                    if code == 0 {
                        // a consignment evaluated against a contract differing in one bit of the id
                        for bit in [0usize, 7, 31] {
                            let mut w3 = h1.w.clone();
                            let mut id = w3.cid.to_byte_array();
                            id[bit] ^= 1;
                            w3.cid = id.into();
                            w3.gop.contract_id = w3.cid;
                            w3.gid = w3.gop.opid();
                            one(rep, &w3, &Store::fresh(&w3), &blocks);
                        }
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// FH: what the contract claims to know is believed
// ------------------------------------------------------------------------------------------------

pub fn fh<S: Kit>(g: &Global, total: &mut Stats) {
    for h in bases::<S>() {
        let blocks = h.blocks();
        let n = h.steps.len();
        // deviating operations are claimed to be known: the codex must not be asked
        let mut items: Vec<(String, Vec<Block<S>>, Opid)> = vec![];
        for i in 1..n {
            for (name, b) in deviate_block(&h, &blocks, i) {
                if name.starts_with("seal") || name.starts_with("wit") {
                    continue;
                }
                let id = b.operation.opid();
                let mut x = blocks.clone();
                x[i] = b;
                items.push((format!("b{i}:{name}"), x, id));
            }
        }
        let name = format!("claimed-known-{}-{}", S::NAME, h.name);
        par(g, total, &name, items.len(), |i, rep| {
            let (l, b, id) = &items[i];
            for mask in [1u32, (1 << n) - 1] {
                let store = store_with(&h, mask);
                if rep.case(|| format!("{l} known={mask:b}")) {
                    let mut stx = store.clone();
                    rep.eval(&h.w, &mut stx, &[*id], b, &Plan::default(), false);
                }
            }
        });
        // every subset (not only dependency-closed ones) claimed to be known, with the state of the
        // honest prefix; alone and with each single deviation of seals and witnesses
        let mut devs = vec![("honest".to_string(), blocks.clone())];
        for i in 0..n {
            for (name, b) in deviate_block(&h, &blocks, i) {
                if name.starts_with("seal") || name.starts_with("wit") {
                    let mut x = blocks.clone();
                    x[i] = b;
                    devs.push((format!("b{i}:{name}"), x));
                }
            }
        }
        let nsub = 1usize << (n - 1).min(5);
        let name = format!("known-subsets-{}-{}", S::NAME, h.name);
        par(g, total, &name, devs.len(), |d, rep| {
            for sub in 0..nsub {
                let extra: Vec<Opid> = (1..n).filter(|i| *i <= 5 && sub >> (i - 1) & 1 == 1).map(|i| h.steps[i].opid).collect();
                if rep.case(|| format!("{} claimed={sub:b}", devs[d].0)) {
                    let mut stx = Store::fresh(&h.w);
                    rep.eval(&h.w, &mut stx, &extra, &devs[d].1, &Plan::default(), false);
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// FI: what comes first
// ------------------------------------------------------------------------------------------------

pub fn fi<S: Kit>(g: &Global, total: &mut Stats) {
    for h in bases::<S>() {
        let codex2 = codex("OtherCodex");
        let raw = |op: &Operation| {
            let mut op = op.clone();
            op.contract_id = h.w.codex_id.to_byte_array().into();
            op
        };
        let gb = h.w.gblock();
        let mut firsts: Vec<(String, Option<Block<S>>)> = vec![("genesis".into(), Some(gb.clone())), ("nothing".into(), None)];
        let mut with = |n: &str, f: &dyn Fn(&mut Operation)| {
            let mut b = gb.clone();
            f(&mut b.operation);
            firsts.push((n.into(), Some(b)));
        };
        with("bound", &|o| o.contract_id = h.w.cid);
        with("other-codex", &|o| o.contract_id = codex2.codex_id().to_byte_array().into());
        with("zero", &|o| o.contract_id = ContractId::from_byte_array([0; 32]));
        for byte in [0usize, 15, 31] {
            with(&format!("codex-bit-{byte}"), &|o| {
                let mut c = o.contract_id.to_byte_array();
                c[byte] ^= 1;
                o.contract_id = c.into();
            });
        }
        // foreign ones, under the right codex
        with("foreign-nonce", &|o| o.nonce = fe256::from(55u64));
        with("foreign-fail", &|o| o.call_id = FAIL);
        with("foreign-missing-method", &|o| o.call_id = MISSING);
        with("foreign-keep", &|o| o.call_id = KEEP);
        with("foreign-value", &|o| {
            if !o.destructible_out.is_empty() {
                o.destructible_out[0].data = val(1_000_000)
            }
        });
        with("foreign-reads", &|o| {
            let _ = o.immutable_in.push(CellAddr::new(h.w.gid, 0));
        });
        with("foreign-reads-missing", &|o| {
            let _ = o.immutable_in.push(CellAddr::new(h.w.gid, 500));
        });
        with("foreign-spends", &|o| {
            let _ = o.destructible_in.push(ultrasonic::Input { addr: CellAddr::new(h.w.gid, 0), witness: StateValue::None });
        });
        with("foreign-fail-other-codex", &|o| {
            o.call_id = FAIL;
            o.contract_id = codex2.codex_id().to_byte_array().into()
        });
        for (i, s) in h.steps.iter().enumerate().skip(1) {
            firsts.push((format!("step{i}-raw"), Some(mk_block(raw(&s.op), s.defs.clone(), s.witness.clone()))));
            firsts.push((format!("step{i}-raw-no-witness"), Some(mk_block(raw(&s.op), s.defs.clone(), None))));
            firsts.push((format!("step{i}"), Some(s.block())));
        }
        // variants of seals and witness of the first block
        let mut all: Vec<(String, Option<Block<S>>)> = vec![];
        for (n, b) in &firsts {
            all.push((n.clone(), b.clone()));
            if let Some(b) = b {
                let mut x = b.clone();
                x.defined_seals = mk_seals::<S>(BTreeMap::new());
                all.push((format!("{n}+hidden"), Some(x)));
                let mut x = b.clone();
                x.defined_seals = mk_seals::<S>([(0u16, S::abs(98))].into());
                all.push((format!("{n}+wrong-seal"), Some(x)));
                all.push((format!("{n}+witness"), Some(resign(&h, b, true, 3000, true))));
                let mut x = b.clone();
                x.witness = Some(S::mk_witness(3001, &[], &[]));
                all.push((format!("{n}+empty-witness"), Some(x)));
            }
        }
        let masks = h.down_closed();
        let name = format!("first-operation-{}-{}", S::NAME, h.name);
        par(g, total, &name, all.len(), |i, rep| {
            let (n, b) = &all[i];
            // what follows: nothing, the real history, the real genesis and history
            for tail in 0..4 {
                for mask in [masks[0], masks[masks.len() / 2], masks[masks.len() - 1]] {
                    if rep.case(|| format!("{n} tail={tail} known={mask:b}")) {
                        let mut bs: Vec<Block<S>> = b.iter().cloned().collect();
                        match tail {
                            1 => bs.extend(h.blocks().into_iter().skip(1)),
                            2 => bs.extend(h.blocks()),
                            3 => {
                                // spends the cells of whatever came first
                                if let Some(b) = b {
                                    let mut op = b.operation.clone();
                                    op.contract_id = h.w.cid;
                                    let id = op.opid();
                                    if let Some(s) = h.w.gdefs.get(&0).and_then(|d| S::s_abs(d)) {
                                        let op = mk_op::<S>(h.w.cid, &OpSpec {
                                            call: ACCEPT,
                                            nonce: 7,
                                            ins: vec![(CellAddr::new(id, 0), StateValue::None)],
                                            reads: vec![],
                                            outs: vec![],
                                            imm: vec![],
                                            witness: StateValue::None,
                                        });
                                        let wit = S::mk_witness(3500, &[s], &[(Some(s), op.opid())]);
                                        bs.push(mk_block(op, BTreeMap::new(), Some(wit)));
                                    }
                                }
                            }
                            _ => {}
                        }
                        one(rep, &h.w, &store_with(&h, mask), &bs);
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// FJ: wide and long shapes
// ------------------------------------------------------------------------------------------------

pub fn fj<S: Kit>(g: &Global, total: &mut Stats, wide: usize, long: usize) {
    // an operation with many outputs, of which one at a time is reported / spent
    let outs: Vec<OutS<S>> = (0..wide).map(|i| out(i as u64, if i % 3 == 0 { S::rel(i as u32, 0) } else { S::abs(i as u32 + 10) })).collect();
    let mut h = Hist::new("wide", World::new(1, &[out(1, S::abs(1)), out(2, S::abs(2))], &[]));
    h.add(st(&[(0, 0)], outs));
    let b = h.steps[1].block();
    let interesting: Vec<u16> = [0usize, 1, 2, 127, 128, 254, 255, 256, 257, 258, 511, 512, wide - 1]
        .into_iter()
        .filter(|i| *i < wide)
        .map(|i| i as u16)
        .collect();
    let name = format!("wide-outputs-{}-{wide}", S::NAME);
    let ni = interesting.len();
    par(g, total, &name, ni * ni, |i, rep| {
        let (p, q) = (interesting[i / ni], interesting[i % ni]);
        let store = store_with(&h, 1);
        let full = h.steps[1].defs.clone();
        // reported at q is the definition of p
        for only in [true, false] {
            let mut d = if only { BTreeMap::new() } else { full.clone() };
            d.insert(q, full[&p].clone());
            if rep.case(|| format!("def of {p} at {q} only={only}")) {
                let mut x = b.clone();
                x.defined_seals = mk_seals::<S>(d);
                one(rep, &h.w, &store, &[h.w.gblock(), x]);
            }
        }
        // cell p is spent while closing the seal of q; only q is disclosed, or all
        let seal = h.seals[&h.addr(1, q)];
        let op = mk_op::<S>(h.w.cid, &OpSpec {
            call: ACCEPT,
            nonce: 7,
            ins: vec![(h.addr(1, p), StateValue::None)],
            reads: vec![],
            outs: vec![],
            imm: vec![],
            witness: StateValue::None,
        });
        let wit = S::mk_witness(500, &[seal], &[(Some(seal), op.opid())]);
        for disclosed in [true, false] {
            if rep.case(|| format!("spend {p} by {q} all={disclosed}")) {
                let mut x = b.clone();
                if !disclosed {
                    x.defined_seals = mk_seals::<S>([(q, full[&q].clone())].into());
                }
                one(rep, &h.w, &store, &[h.w.gblock(), x, mk_block(op.clone(), BTreeMap::new(), Some(wit.clone()))]);
            }
        }
    });
    // beyond the last position
    let name = format!("beyond-{}-{wide}", S::NAME);
    par(g, total, &name, 6, |i, rep| {
        let to = [wide as u16, wide as u16 + 1, 256, 512, 65535, 32768][i];
        for from in [0u16, (to as usize % 256) as u16, (wide - 1) as u16] {
            if from as usize >= wide {
                continue;
            }
            for mask in [1u32, 3] {
                if rep.case(|| format!("def of {from} at {to} known={mask}")) {
                    let mut x = b.clone();
                    x.defined_seals = mk_seals::<S>([(to, h.steps[1].defs[&from].clone())].into());
                    one(rep, &h.w, &store_with(&h, mask), &[h.w.gblock(), x]);
                }
            }
        }
    });
    // a long chain; honest, and broken at one place
    let mut h = Hist::new("long", World::new(1, &[out(1, S::abs(1)), out(2, S::abs(2)), out(3, S::abs(3))], &[]));
    for i in 0..long {
        let d = if i % 2 == 0 { S::rel(0, i as u32) } else { S::abs(10 + i as u32) };
        h.add(st(&[(i, 0)], vec![out(1, d)]));
    }
    // a seal disclosed at the very beginning is spent at the very end; and twice
    let e1 = h.add(st(&[(0, 1)], vec![out(1, S::abs(5))]));
    let mut op = h.steps[e1].op.clone();
    op.nonce = fe256::from(123456u64);
    let dbl = resign(&h, &mk_block(op, BTreeMap::new(), None), false, 60000, true);
    let blocks = h.blocks();
    let store = store_with(&h, 1);
    let mut full_store = store.clone();
    for s in h.steps.iter().skip(1) {
        full_store.apply(s.opid, &s.op);
    }
    let breaks: Vec<usize> = [1usize, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, long, long + 1]
        .into_iter()
        .filter(|i| *i < blocks.len())
        .collect();
    let name = format!("long-chain-{}-{long}", S::NAME);
    par(g, total, &name, breaks.len() * 5 + 2, |i, rep| {
        for (known, store) in [(false, &store), (true, &full_store)] {
            if i == 0 {
                if rep.case(|| format!("honest known={known}")) {
                    one(rep, &h.w, store, &blocks);
                }
                continue;
            }
            if i == 1 {
                if rep.case(|| format!("double-spend-at-end known={known}")) {
                    let mut x = blocks.clone();
                    x.push(dbl.clone());
                    one(rep, &h.w, store, &x);
                }
                continue;
            }
            let (k, how) = (breaks[(i - 2) / 5], (i - 2) % 5);
            let mut x = blocks.clone();
            match how {
                0 => x[k].witness = None,
                1 => {
                    let Some((_, w)) = S::mutate(x[k].witness.as_ref().unwrap()).into_iter().find(|(n, _)| *n == "other-message-for-one") else { return };
                    x[k].witness = Some(w)
                }
                2 => x[k].defined_seals = mk_seals::<S>([(0u16, S::abs(7))].into()),
                3 => {
                    x[k].operation.call_id = FAIL;
                    x[k] = resign(&h, &x[k], false, 61000, true);
                }
                _ => x.insert(k, dbl.clone()),
            }
            if rep.case(|| format!("break {how} at {k} known={known}")) {
                one(rep, &h.w, store, &x);
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// FT: the stream
// ------------------------------------------------------------------------------------------------

pub fn ft<S: Kit>(g: &Global, total: &mut Stats, pairs: bool) {
    for h in bases::<S>() {
        let blocks = h.blocks();
        let n = blocks.len();
        let mut devs = vec![("honest".to_string(), blocks.clone()), ("empty".into(), vec![])];
        if pairs {
            devs.extend(deviate(&h, &blocks));
        } else {
            for i in 0..n {
                let mut x = blocks.clone();
                x[i].defined_seals = mk_seals::<S>([(0u16, S::abs(97))].into());
                devs.push((format!("bad-{i}"), x));
                devs.push((format!("cut-{i}"), blocks[..i].to_vec()));
                let mut x = blocks.clone();
                x[i].defined_seals = mk_seals::<S>(BTreeMap::new());
                devs.push((format!("hide-{i}"), x));
            }
        }
        let full = (1u32 << n) - 1;
        let name = format!("stream-{}-{}", S::NAME, h.name);
        par(g, total, &name, devs.len(), |d, rep| {
            let len = devs[d].1.len();
            let mut plans = vec![vec![]];
            for i in 0..=len + 1 {
                plans.push(vec![i]);
                for j in i + 1..=len + 1 {
                    plans.push(vec![i, j]);
                }
            }
            plans.push((0..=len + 1).collect());
            for p in &plans {
                for mask in [1, full] {
                    if rep.case(|| format!("{} fail={p:?} known={mask:b}", devs[d].0)) {
                        let mut stx = store_with(&h, mask);
                        rep.eval(&h.w, &mut stx, &[], &devs[d].1, &Plan { fails: p.clone(), ..Plan::default() }, false);
                    }
                }
            }
            // the ways a reader may fail
            if d <= 1 || (pairs && g.tier_thorough) {
                for flavour in 1..FLAVOURS {
                    for i in 0..=len {
                        if rep.case(|| format!("{} fail={i} way={flavour}", devs[d].0)) {
                            let plan = Plan { fails: vec![i], flavour, ..Plan::default() };
                            rep.eval(&h.w, &mut store_with(&h, 1), &[], &devs[d].1, &plan, false);
                        }
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// Sequences of evaluations: convergence (C14), interruption (C15), orders (C13)
// ------------------------------------------------------------------------------------------------

fn expect_full<S: Kit>(h: &Hist<S>) -> Store<S> {
    let mut st = Store::fresh(&h.w);
    for (i, s) in h.steps.iter().enumerate() {
        if i > 0 {
            st.apply(s.opid, &s.op);
        }
        if !s.defs.is_empty() {
            st.add_seals(s.opid, &s.defs);
        }
        if let Some(w) = &s.witness {
            st.add_wit(s.opid, w);
        }
    }
    st
}

/// Interruptions at every report (before and after its effect is stored) and at every read, then
/// the complete consignment again.
pub fn crash<S: Kit>(g: &Global, total: &mut Stats, double: bool) {
    for h in bases::<S>() {
        let blocks = h.blocks();
        let want = expect_full(&h).full_digest();
        let probe = {
            let w = &h.w;
            run_engine(w, Store::fresh(w), &[], blocks.clone(), vec![], &Plan::default())
        };
        // interruptions: (is a read?, index, after?)
        #[derive(Clone, Copy, Debug)]
        enum Cut {
            Report(usize, bool),
            Read(usize),
            Trunc(usize),
            /// inside a question put to the contract (its id, codex, libraries, cells, knowledge)
            Query(usize),
        }
        let mut cuts = vec![];
        for i in 0..probe.queries {
            cuts.push(Cut::Query(i));
        }
        for i in 0..probe.reports {
            cuts.push(Cut::Report(i, false));
            cuts.push(Cut::Report(i, true));
        }
        for i in 0..=blocks.len() {
            cuts.push(Cut::Read(i));
            cuts.push(Cut::Trunc(i));
        }
        let exts = linear_extensions(&h, (1 << h.steps.len()) - 1, 6);
        let name = format!("interruptions-{}-{}", S::NAME, h.name);
        let nseq = if double { cuts.len() * (cuts.len() + 1) } else { cuts.len() };
        let mut masks = h.down_closed();
        if !double && masks.len() > 4 {
            let k = masks.len();
            masks = vec![masks[0], masks[k / 3], masks[2 * k / 3], masks[k - 1]];
        }
        par(g, total, &name, nseq, |i, rep| {
            let first = cuts[i % cuts.len()];
            let second = if i / cuts.len() == 0 { None } else { Some(cuts[i / cuts.len() - 1]) };
            for mask in &masks {
                for (ei, ext) in exts.iter().enumerate() {
                    if ei > 0 && second.is_some() {
                        break;
                    }
                    if !rep.case(|| format!("{first:?} then {second:?} order={ei} known={mask:b}")) {
                        continue;
                    }
                    let mut cur = store_with(&h, *mask);
                    let order: Vec<Block<S>> = ext.iter().map(|i| blocks[*i].clone()).collect();
                    let mut good = true;
                    for (k, cut) in [Some(first), second].into_iter().flatten().enumerate() {
                        let mut plan = Plan::default();
                        let mut bs = order.clone();
                        match cut {
                            Cut::Report(n, after) => plan.crash = Some((n, after)),
                            Cut::Read(n) => plan.fails = vec![n],
                            Cut::Trunc(n) => bs.truncate(n),
                            Cut::Query(n) => plan.crash_query = Some(n),
                        }
                        let mut spec = cur.clone();
                        let (out, _, _) = rep.eval(&h.w, &mut spec, &[], &bs, &plan, k > 0);
                        // the stored contract is what the storage really holds
                        cur = out.st;
                        if matches!(out.verdict, Verdict::Panic(_)) {
                            good = false;
                        }
                    }
                    let mut spec = cur.clone();
                    let (out, _, _) = rep.eval(&h.w, &mut spec, &[], &order, &Plan::default(), true);
                    // with part of the history known beforehand the reports of the known part still come
                    let got = out.st.full_digest();
                    rep.fail_if(
                        &["C15"],
                        !out.verdict.is_ok() || !good,
                        || format!("after {first:?} {second:?} the complete consignment is not accepted: {}", out.verdict.text()),
                        || dump_blocks(&order),
                    );
                    rep.fail_if(
                        &["C15"],
                        out.verdict.is_ok() && got != want,
                        || format!("after {first:?} {second:?} and a complete evaluation the contract differs from an uninterrupted one"),
                        || dump_blocks(&order),
                    );
                }
            }
        });
    }
}

/// Orders of valid histories: the bases and all small operation graphs.
pub fn orders<S: Kit>(g: &Global, total: &mut Stats, nops: usize) {
    let graphs = {
        let mut v = bases::<S>();
        v.extend(op_graphs::<S>(nops));
        v
    };
    let name = format!("orders-{}-{nops}", S::NAME);
    par(g, total, &name, graphs.len(), |gi, rep| {
        let h = &graphs[gi];
        let full = (1u32 << h.steps.len()) - 1;
        let want = expect_full(h);
        let (wd, ws) = (want.full_digest(), want.state_digest());
        // seals nobody spends may be hidden; those which are spent must be there
        let spent: BTreeSet<CellAddr> = h.steps.iter().flat_map(|s| s.op.destructible_in.iter().map(|i| i.addr)).collect();
        for (ei, ext) in linear_extensions(h, full, 5000).iter().enumerate() {
            for minimal in [false, true] {
                if !rep.case(|| format!("{}#{gi} order={ei} minimal={minimal}", h.name)) {
                    continue;
                }
                let order: Vec<Block<S>> = ext
                    .iter()
                    .map(|i| {
                        let s = &h.steps[*i];
                        if minimal {
                            s.block_with(s.defs.iter().filter(|(p, _)| spent.contains(&CellAddr::new(s.opid, **p))).map(|(p, d)| (*p, d.clone())).collect())
                        } else {
                            s.block()
                        }
                    })
                    .collect();
                let mut st = Store::fresh(&h.w);
                let (out, exp, _) = rep.eval(&h.w, &mut st, &[], &order, &Plan::default(), false);
                if !exp.ok && out.verdict.is_ok() {
                    continue;
                }
                rep.fail_if(
                    &["C13"],
                    !out.verdict.is_ok(),
                    || format!("a valid history is rejected: {}", out.verdict.text()),
                    || dump_blocks(&order),
                );
                let same = if minimal { out.st.state_digest() == ws } else { out.st.full_digest() == wd };
                rep.fail_if(
                    &["C13"],
                    out.verdict.is_ok() && !same,
                    || "an order of a valid history leaves another contract state".to_string(),
                    || dump_blocks(&order),
                );
            }
        }
    });
}

/// All histories of up to `n` operations, each destroying any subset of at most two of the cells
/// existing before it, with two outputs (absolute, witness-output).
pub fn op_graphs<S: Kit>(n: usize) -> Vec<Hist<S>> {
    let mut res = vec![];
    let w: World<S> = World::new(1, &[out(10, S::abs(1)), out(20, S::abs(2))], &[5]);
    let h0 = Hist::new("graph", w);
    fn rec<S: Kit>(h: &Hist<S>, unspent: Vec<(usize, u16)>, left: usize, res: &mut Vec<Hist<S>>) {
        if h.steps.len() > 1 {
            res.push(h.clone());
        }
        if left == 0 {
            return;
        }
        let m = unspent.len();
        let mut choices: Vec<Vec<usize>> = vec![vec![]];
        for a in 0..m {
            choices.push(vec![a]);
            for b in a + 1..m {
                choices.push(vec![a, b]);
            }
        }
        if m == 3 {
            choices.push(vec![0, 1, 2]);
        }
        for c in choices {
            let mut h2 = h.clone();
            let ins: Vec<(usize, u16)> = c.iter().map(|i| unspent[*i]).collect();
            let k = h2.steps.len() as u32;
            let last = k as usize - 1;
            let mode = if ins.is_empty() { WMode::Always } else { WMode::Auto };
            let mut s = st(&ins, vec![out(1, S::rel(0, 0)), out(2, S::abs(10 + k))]).imm(&[k as u64]).wmode(mode);
            if ins.len() == 1 && k > 1 {
                s = s.reads(&[(last, 0)]);
            }
            let me = h2.add(s);
            let mut u: Vec<(usize, u16)> = unspent.iter().enumerate().filter(|(i, _)| !c.contains(i)).map(|(_, x)| *x).collect();
            u.push((me, 0));
            u.push((me, 1));
            rec(&h2, u, left - 1, res);
        }
    }
    rec(&h0, vec![(0, 0), (0, 1)], n, &mut res);
    res
}

/// Pairs (and repetitions) of consignments of one history.
pub fn pairs<S: Kit>(g: &Global, total: &mut Stats, graph_ops: usize, triples: bool) {
    let mut hs = bases::<S>();
    hs.extend(op_graphs::<S>(graph_ops));
    for (hi, h) in hs.iter().enumerate() {
        let masks = h.down_closed();
        let n = masks.len();
        let name = format!("overlaps-{}-{}#{hi}", S::NAME, h.name);
        let fam = format!("overlaps-{}-{}", S::NAME, h.name);
        let _ = name;
        let union_store = |m: u32| {
            let mut st = Store::fresh(&h.w);
            for (i, s) in h.steps.iter().enumerate() {
                if m >> i & 1 == 1 {
                    if i > 0 {
                        st.apply(s.opid, &s.op);
                    }
                    if !s.defs.is_empty() {
                        st.add_seals(s.opid, &s.defs);
                    }
                    if let Some(w) = &s.witness {
                        st.add_wit(s.opid, w);
                    }
                }
            }
            st
        };
        par(g, total, &fam, n * n, |i, rep| {
            let (a, b) = (masks[i / n], masks[i % n]);
            if rep.case(|| format!("#{hi} {a:b} then {b:b}")) {
            let want = union_store(a | b);
            let mut cur = Store::fresh(&h.w);
            let mut seq = vec![a, b, a, a | b];
            if triples {
                seq.extend([b, b]);
            }
            let mut all_ok = true;
            for (k, m) in seq.iter().enumerate() {
                let mut spec = cur.clone();
                let blocks = sub(h, *m);
                let (out, _, _) = rep.eval(&h.w, &mut spec, &[], &blocks, &Plan::default(), k > 0);
                let ok = out.verdict.is_ok();
                rep.fail_if(&["C14"], !ok, || format!("evaluation {k} of {m:b} fails: {}", out.verdict.text()), || dump_blocks(&blocks));
                all_ok &= ok;
                let known_before: Vec<Opid> = cur.known.keys().copied().collect();
                cur = out.st;
                // nothing known before is lost
                rep.fail_if(&["C14"], !known_before.iter().all(|k| cur.known.contains_key(k)), || "operations got lost".into(), || dump_blocks(&blocks));
            }
            rep.fail_if(
                &["C14"],
                all_ok && cur.full_digest() != want.full_digest(),
                || format!("{a:b} then {b:b} (and again) leaves another contract than their union"),
                || dump_blocks(&sub(h, a | b)),
            );
            }
            // The other side of it: what was disclosed earlier does not count. The second
            // consignment hides the seals of one operation.
            for hide in 0..h.steps.len() {
                if b >> hide & 1 == 0 || h.steps[hide].defs.is_empty() {
                    continue;
                }
                let mut cur = union_store(a);
                let mut blocks = sub(h, b);
                let at = (0..hide).filter(|k| b >> k & 1 == 1).count();
                blocks[at].defined_seals = mk_seals::<S>(BTreeMap::new());
                if rep.case(|| format!("#{hi} {a:b} then {b:b} hiding {hide}")) {
                    let mut first = Store::fresh(&h.w);
                    rep.eval(&h.w, &mut first, &[], &sub(h, a), &Plan::default(), false);
                    rep.eval(&h.w, &mut cur, &[], &blocks, &Plan::default(), true);
                }
            }
        });
    }
}
