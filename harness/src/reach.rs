//! Explorations which are not bounded by a length: all reachable states (of one consignment, of a
//! contract over any number of consignments), and all sizes up to a bound.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

use amplify::ByteArray;
use ultrasonic::{CellAddr, Opid, StateValue};

use crate::base::*;
use crate::fam::*;
use crate::led::*;
use crate::rep::*;
use crate::seal::*;
use crate::spec::*;
use crate::world::*;

/// Everything the future of an evaluation may depend on.
fn run_key<S: Kit>(st: &Store<S>, run: &Run<S>) -> u64 {
    let mut h = DefaultHasher::new();
    for id in st.known.keys() {
        id.to_byte_array().hash(&mut h);
    }
    for (a, (s, _)) in &run.avail {
        (a.opid.to_byte_array(), a.pos, s.outpoint()).hash(&mut h);
    }
    run.first.hash(&mut h);
    h.finish()
}

/// All reachable states of an evaluation over an alphabet: breadth first, to the fixpoint (or
/// `max` states). In each state every symbol is tried. With `ahead`, every symbol is tried behind
/// each accepted one even if the state reached is already known, so that every way into a state is
/// followed by every way out of it (what the engine remembers besides the state would show).
pub fn closure<S: Kit>(g: &Global, total: &mut Stats, small: bool, ahead: bool, max: usize) {
    let (h, syms) = alphabet::<S>(small);
    let masks: Vec<u32> = if small { vec![1, 0b11] } else { vec![1] };
    for mask in masks {
        let start = store_with(&h, mask);
        let name = format!("reachable-{}{}-known{mask:b}", S::NAME, if small { "-small" } else { "" });
        let mut seen: HashMap<u64, ()> = HashMap::new();
        let mut frontier: Vec<(Vec<usize>, Store<S>, Run<S>, bool)> = vec![(vec![], start.clone(), Run::new(), true)];
        seen.insert(run_key(&frontier[0].1, &frontier[0].2), ());
        let mut complete = true;
        let mut depth = 0;
        while !frontier.is_empty() {
            depth += 1;
            let found: Mutex<BTreeMap<(usize, usize), (u64, Store<S>, Run<S>)>> = Mutex::new(BTreeMap::new());
            par(g, total, &name, frontier.len(), |i, rep| {
                let (path, st, run, expand) = &frontier[i];
                for s in 0..syms.len() {
                    let j = judge(&h.w, st, &[], run, &syms[s].block);
                    let mut p = path.clone();
                    p.push(s);
                    try_path(rep, &h, &start, &syms, &p);
                    if !j.ok() || !expand {
                        continue;
                    }
                    let (mut st2, mut run2) = (st.clone(), run.clone());
                    accept(&mut st2, &mut run2, &syms[s].block, &j);
                    let key = run_key(&st2, &run2);
                    if seen.contains_key(&key) {
                        if !ahead {
                            continue;
                        }
                        // another way into a known state
                        for u in 0..syms.len() {
                            p.push(u);
                            try_path(rep, &h, &start, &syms, &p);
                            p.pop();
                        }
                    } else {
                        found.lock().unwrap().insert((i, s), (key, st2, run2));
                    }
                }
            });
            let mut next = vec![];
            for ((i, s), (key, st, run)) in found.into_inner().unwrap() {
                let mut p = frontier[i].0.clone();
                p.push(s);
                // ways into a state found in the same round: the first one is expanded, the others
                // are only followed by every symbol
                let new = seen.insert(key, ()).is_none();
                if new || ahead {
                    next.push((p, st, run, new));
                }
            }
            if seen.len() > max && !next.is_empty() {
                complete = false;
                break;
            }
            frontier = next;
            if g.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
        }
        total.notes.insert(
            name,
            format!("{} states, {} rounds, {}", seen.len(), depth, if complete { "fixpoint reached" } else { "stopped at the bound" }),
        );
    }
}

fn try_path<S: Kit>(rep: &mut Rep, h: &Hist<S>, start: &Store<S>, syms: &[Sym<S>], path: &[usize]) {
    if rep.case(|| path.iter().map(|i| syms[*i].name.as_str()).collect::<Vec<_>>().join(" ; ")) {
        let blocks: Vec<Block<S>> = path.iter().map(|i| syms[*i].block.clone()).collect();
        one(rep, &h.w, start, &blocks);
    }
}

/// All reachable states of a contract evaluating consignments, in any number and order, including
/// failing, interrupted and truncated ones and ones which are mutually exclusive.
pub fn histories<S: Kit>(g: &Global, total: &mut Stats, max: usize, faults: bool) {
    for h in bases::<S>().into_iter().filter(|h| h.steps.len() <= 5) {
        let n = h.steps.len();
        let full = (1u32 << n) - 1;
        // the menu
        let mut menu: Vec<(String, Vec<Block<S>>, Plan)> = vec![];
        for m in h.down_closed() {
            let blocks = sub(&h, m);
            menu.push((format!("{m:b}"), blocks.clone(), Plan::default()));
            // seals which are not spent are kept back
            let spent: BTreeSet<CellAddr> = blocks.iter().flat_map(|b| b.operation.destructible_in.iter().map(|i| i.addr)).collect();
            let mut hid = blocks.clone();
            for (b, i) in hid.iter_mut().zip((0..n).filter(|i| m >> i & 1 == 1)) {
                let s = &h.steps[i];
                b.defined_seals = mk_seals::<S>(
                    s.defs.iter().filter(|(p, _)| spent.contains(&CellAddr::new(s.opid, **p))).map(|(p, d)| (*p, d.clone())).collect(),
                );
            }
            menu.push((format!("{m:b}-minimal"), hid, Plan::default()));
            if m != 1 {
                // the last operation is wrong
                let mut x = blocks.clone();
                let k = x.len() - 1;
                x[k].operation.call_id = FAIL;
                x[k] = resign(&h, &x[k], false, 5000, true);
                menu.push((format!("{m:b}-last-fails"), x, Plan::default()));
                let mut x = blocks.clone();
                let salt = 5100 + m;
                x[k] = resign(&h, &x[k], false, salt, true);
                menu.push((format!("{m:b}-last-witnessed-otherwise"), x, Plan::default()));
            }
        }
        let blocks = h.blocks();
        // a history excluding the first operation
        {
            let mut op = blocks[1].operation.clone();
            op.nonce = ultrasonic::fe256::from(777u64);
            let b = resign(&h, &mk_block(op, h.steps[1].defs.clone(), blocks[1].witness.clone()), false, 5200, false);
            menu.push(("rival".into(), vec![blocks[0].clone(), b.clone()], Plan::default()));
            let mut x = blocks.clone();
            x.push(b);
            menu.push(("full-then-rival".into(), x, Plan::default()));
        }
        if faults {
            let probe = run_engine(&h.w, Store::fresh(&h.w), &[], blocks.clone(), vec![], &Plan::default());
            for i in 0..probe.reports {
                for after in [false, true] {
                    menu.push((format!("interrupted-{i}-{after}"), blocks.clone(), Plan { crash: Some((i, after)), ..Plan::default() }));
                }
            }
            for i in 0..=blocks.len() {
                menu.push((format!("read-fails-{i}"), blocks.clone(), Plan { fails: vec![i], ..Plan::default() }));
            }
        }
        let name = format!("contract-states-{}-{}{}", S::NAME, h.name, if faults { "-faults" } else { "" });
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let fresh = Store::fresh(&h.w);
        seen.insert(fresh.full_digest());
        let mut frontier: Vec<(Vec<usize>, Store<S>)> = vec![(vec![], fresh)];
        let mut complete = true;
        while !frontier.is_empty() {
            let found: Mutex<BTreeMap<(usize, usize), (u64, Store<S>)>> = Mutex::new(BTreeMap::new());
            par(g, total, &name, frontier.len(), |i, rep| {
                let (path, st) = &frontier[i];
                let tell = |k: usize| {
                    path.iter().chain([&k]).map(|i| menu[*i].0.as_str()).collect::<Vec<_>>().join(" / ")
                };
                for (k, (_, blocks, plan)) in menu.iter().enumerate() {
                    let mut spec = st.clone();
                    let mut end = None;
                    if rep.case(|| tell(k)) {
                        let (out, exp, _) = rep.eval(&h.w, &mut spec, &[], blocks, plan, true);
                        let crashed = matches!(out.verdict, Verdict::Crashed);
                        rep.fail_if(
                            &["C14", "C10"],
                            !crashed && out.st.full_digest() != spec.full_digest(),
                            || format!("the contract is not what the accepted operations make of it ({})", if exp.ok { "accepted" } else { "rejected" }),
                            || dump_blocks(blocks),
                        );
                        end = Some(out.st);
                    }
                    // (a replay walks along the specification)
                    let st2 = match end {
                        Some(s) => s,
                        None => {
                            let out = run_engine(&h.w, st.clone(), &[], blocks.clone(), vec![], plan);
                            out.st
                        }
                    };
                    let key = st2.full_digest();
                    if !seen.contains(&key) {
                        found.lock().unwrap().insert((i, k), (key, st2));
                    }
                }
            });
            let mut next = vec![];
            for ((i, k), (key, st)) in found.into_inner().unwrap() {
                let mut p = frontier[i].0.clone();
                p.push(k);
                if seen.insert(key) {
                    next.push((p, st));
                }
            }
            if seen.len() > max && !next.is_empty() {
                complete = false;
                break;
            }
            frontier = next;
            if g.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
        }
        let _ = full;
        total.notes.insert(
            name,
            format!("{} contract states, menu of {}, {}", seen.len(), menu.len(), if complete { "fixpoint reached" } else { "stopped at the bound" }),
        );
    }
}

/// Operations with every number of inputs and of outputs up to a bound.
pub fn sizes<S: Kit>(g: &Global, total: &mut Stats, all: usize, around: &[usize]) {
    let mut ks: Vec<usize> = (1..=all).collect();
    for a in around {
        ks.extend([a - 1, *a, a + 1, a + 2]);
    }
    // (the largest ones first)
    ks.sort();
    ks.dedup();
    ks.reverse();
    let spots = |k: usize| -> BTreeSet<usize> { [0, k / 2, k.saturating_sub(2), k - 1].into_iter().collect() };
    // every number of inputs; all closed, or one of them not
    par(g, total, &format!("input-numbers-{}", S::NAME), ks.len(), |i, rep| {
        let k = ks[i];
        let outs: Vec<OutS<S>> = (0..k).map(|i| out(i as u64, S::abs(i as u32 + 1))).collect();
        let mut h = Hist::new("sizes", World::new(1, &outs, &[]));
        let ins: Vec<(usize, u16)> = (0..k).map(|i| (0, i as u16)).collect();
        h.add(st(&ins, vec![out(1, S::rel(0, 0))]));
        let s = h.steps[1].clone();
        let gb = h.w.gblock();
        for mask in [1u32, 3] {
            let store = store_with(&h, mask);
            if rep.case(|| format!("{k} inputs, all closed, known={mask:b}")) {
                one(rep, &h.w, &store, &[gb.clone(), s.block()]);
            }
            for bad in spots(k) {
                for how in 0..4 {
                    if rep.case(|| format!("{k} inputs, {bad} not closed ({how}), known={mask:b}")) {
                        let mut other = s.opid.to_byte_array();
                        other[(k + bad) % 32] ^= 1 << (k % 8);
                        let spends: Vec<S> = s.closes.iter().enumerate().filter(|(n, _)| *n != bad || how != 0).map(|(_, s)| *s).collect();
                        let cl: Vec<Closing<S>> = s
                            .closes
                            .iter()
                            .enumerate()
                            .filter(|(n, _)| *n != bad || how != 1)
                            .map(|(n, x)| (Some(*x), if (n == bad && how == 2) || how == 3 { other.into() } else { s.opid }))
                            .collect();
                        let b = mk_block(s.op.clone(), s.defs.clone(), Some(S::mk_witness(70, &spends, &cl)));
                        one(rep, &h.w, &store, &[gb.clone(), b]);
                    }
                }
                if rep.case(|| format!("{k} inputs, seal of {bad} unknown, known={mask:b}")) {
                    let mut g2 = gb.clone();
                    g2.defined_seals = mk_seals::<S>((0..k as u16).filter(|p| *p as usize != bad).map(|p| (p, h.w.gdefs[&p].clone())).collect());
                    one(rep, &h.w, &store, &[g2, s.block()]);
                }
            }
        }
    });
    // every number of outputs; a wrong definition for one of them, and each spent afterwards
    par(g, total, &format!("output-numbers-{}", S::NAME), ks.len(), |i, rep| {
        let k = ks[i];
        let mut h = Hist::new("outs", World::new(1, &[out(1, S::abs(1))], &[]));
        let outs: Vec<OutS<S>> =
            (0..k).map(|i| out(i as u64, if i % 2 == 0 { S::abs(i as u32 + 5) } else { S::rel(i as u32, 0) })).collect();
        let a = h.add(st(&[(0, 0)], outs));
        let b = h.steps[a].block();
        let gb = h.w.gblock();
        for mask in [1u32, 3] {
            let store = store_with(&h, mask);
            for p in spots(k) {
                let seal = h.seals[&h.addr(a, p as u16)];
                let op = mk_op::<S>(h.w.cid, &OpSpec {
                    call: ACCEPT,
                    nonce: 7,
                    ins: vec![(h.addr(a, p as u16), StateValue::None)],
                    reads: vec![],
                    outs: vec![],
                    imm: vec![],
                    witness: StateValue::None,
                });
                let wit = S::mk_witness(500, &[seal], &[(Some(seal), op.opid())]);
                let sp = mk_block(op, BTreeMap::new(), Some(wit));
                let (all, only): (BTreeMap<u16, Def<S>>, BTreeMap<u16, Def<S>>) =
                    (h.steps[a].defs.clone(), [(p as u16, h.steps[a].defs[&(p as u16)].clone())].into());
                for how in 0..6 {
                    let mut d = if how % 2 == 0 { all.clone() } else { only.clone() };
                    match how / 2 {
                        0 => {}
                        1 => {
                            d.insert(p as u16, S::retweak(&all[&(p as u16)], 9));
                        }
                        _ => {
                            d.remove(&(p as u16));
                            d.insert(k as u16, all[&(p as u16)].clone());
                        }
                    }
                    if rep.case(|| format!("{k} outputs, {p} spent, reported {how}, known={mask:b}")) {
                        let mut x = b.clone();
                        x.defined_seals = mk_seals::<S>(d);
                        one(rep, &h.w, &store, &[gb.clone(), x, sp.clone()]);
                    }
                }
            }
        }
    });
}

/// Consignments of every length up to a bound (a chain), each with every kind of wrong end.
pub fn lengths<S: Kit>(g: &Global, total: &mut Stats, all: usize, around: &[usize]) {
    let mut ns: Vec<usize> = (1..=all).collect();
    for a in around {
        ns.extend([a - 1, *a, a + 1]);
    }
    ns.sort();
    ns.dedup();
    ns.reverse();
    let long = ns[0];
    let mut h = Hist::new("lengths", World::new(1, &[out(1, S::abs(1)), out(2, S::abs(2))], &[]));
    for i in 0..long {
        let d = if i % 2 == 0 { S::rel(0, i as u32) } else { S::abs(10 + i as u32) };
        h.add(st(&[(i, 0)], vec![out(1, d)]));
    }
    let blocks = h.blocks();
    let mut stores = vec![store_with(&h, 1)];
    let mut st2 = stores[0].clone();
    for s in h.steps.iter().skip(1) {
        st2.apply(s.opid, &s.op);
    }
    stores.push(st2);
    // the second cell of the genesis, and the first once more
    let mk = |pos: u16, nonce: u64| {
        let op = mk_op::<S>(h.w.cid, &OpSpec {
            call: ACCEPT,
            nonce,
            ins: vec![(h.addr(0, pos), StateValue::None)],
            reads: vec![],
            outs: vec![],
            imm: vec![],
            witness: StateValue::None,
        });
        let seal = h.seals[&h.addr(0, pos)];
        let wit = S::mk_witness(90000, &[seal], &[(Some(seal), op.opid())]);
        mk_block::<S>(op, BTreeMap::new(), Some(wit))
    };
    let (late, twice) = (mk(1, 50000), mk(0, 50001));
    let _ = Opid::from_byte_array([0; 32]);
    par(g, total, &format!("lengths-{}", S::NAME), ns.len(), |i, rep| {
        let n = ns[i];
        for (known, store) in stores.iter().enumerate() {
            let mut tell = |what: &str, x: Vec<Block<S>>| {
                if rep.case(|| format!("{n} operations, {what}, known={known}")) {
                    one(rep, &h.w, store, &x);
                }
            };
            let mut x = blocks[..=n].to_vec();
            x.push(late.clone());
            tell("then an early seal", x);
            let mut x = blocks[..=n].to_vec();
            x.push(twice.clone());
            tell("then a consumed cell", x);
            let mut x = blocks[..=n].to_vec();
            x[n].witness = None;
            tell("the last without witness", x);
            let mut x = blocks[..=n].to_vec();
            if let Some((_, w)) = S::mutate(x[n].witness.as_ref().unwrap()).into_iter().find(|(n, _)| *n == "other-message-for-one") {
                x[n].witness = Some(w);
            }
            tell("the last closed over another", x);
            let mut x = blocks[..=n].to_vec();
            x[n].defined_seals = mk_seals::<S>([(0u16, S::abs(7))].into());
            tell("the last with a wrong seal", x);
            let mut x = blocks[..=n].to_vec();
            x[n].operation.call_id = FAIL;
            x[n] = resign(&h, &x[n], false, 61000, true);
            tell("the last failing", x);
            let mut x = blocks[..=n].to_vec();
            x[n - 1].defined_seals = mk_seals::<S>(BTreeMap::new());
            tell("the seal before the last hidden", x);
        }
    });
}

/// Every kind of contents: cells without data and with data of every size, locks, global state with
/// and without raw data, witnesses of inputs and of operations, nonces; in the genesis as well.
pub fn kinds<S: Kit>(g: &Global, total: &mut Stats) {
    use amplify::confinement::Confined;
    use ultrasonic::{fe256, CellLock, Identity, StateData};
    let _ = Identity::default();
    let f = |v: u64| fe256::from(v);
    let v = [
        StateValue::None,
        StateValue::Single { first: f(0) },
        StateValue::Single { first: f(5) },
        StateValue::Double { first: f(5), second: f(0) },
        StateValue::Quadruple { first: f(0), second: f(1), third: f(2), fourth: f(u64::MAX) },
    ];
    let globals: Vec<Vec<StateData>> = vec![
        vec![],
        vec![StateData { value: v[0], raw: None }],
        vec![StateData::new(0u64, 0u64), StateData { value: v[4], raw: None }],
        vec![StateData { value: StateValue::Triple { first: f(1), second: f(0), third: f(3) }, raw: None }, StateData::new(7u64, 8u64)],
    ];
    let locks = [None, Some(CellLock { aux: v[4], script: None }), Some(CellLock { aux: v[0], script: None })];
    let nonces = [0u64, 5, u64::MAX];
    par(g, total, &format!("kinds-of-contents-{}", S::NAME), 25 * globals.len(), |i, rep| {
        let (a, b, gl) = (i % 5, i / 5 % 5, i / 25);
        for same in [false, true] {
            let mut w = World::<S>::new(1, &[out(1, S::abs(1)), out(2, S::abs(2))], &[]);
            if same {
                // the genesis is made of the same
                w.graw.destructible_out[0].data = v[a];
                w.graw.destructible_out[1].data = v[b];
                w.graw.immutable_out = Confined::try_from(globals[gl].clone()).unwrap();
                w.graw.nonce = f(nonces[(a + b) % 3]);
                w.gop = w.graw.clone();
                w.gop.contract_id = w.cid;
                w.gid = w.gop.opid();
            }
            let h0 = Hist::new("kinds", w);
            for lk in 0..locks.len() {
                for inw in [0usize, 2, 4] {
                    for opw in [0usize, 1, 4] {
                        let mut h = h0.clone();
                        let mut op = h.op_of(&st::<S>(&[(0, 0)], vec![out(0, S::rel(0, 0)), out(0, S::abs(3))]).inw(&[v[inw]]).opw(v[opw]));
                        op.destructible_out[0].data = v[a];
                        op.destructible_out[1].data = v[b];
                        op.destructible_out[0].lock = locks[lk];
                        op.immutable_out = Confined::try_from(globals[gl].clone()).unwrap();
                        op.nonce = f(nonces[(inw + opw) % 3]);
                        let opid = op.opid();
                        let seal = h.seals[&h.addr(0, 0)];
                        let wit = S::mk_witness(20, &[seal], &[(Some(seal), opid)]);
                        h.push(op, defs_of::<S>(&[out(0, S::rel(0, 0)), out(0, S::abs(3))]), vec![seal], Some(wit));
                        let rd: Vec<(usize, u16)> = (0..globals[gl].len()).map(|p| (1usize, p as u16)).collect();
                        h.add(st(&[(1, 1), (1, 0)], vec![]).reads(&rd));
                        h.add(st(&[(0, 1)], vec![]).reads(&rd));
                        for mask in [1u32, 0b11, 0b1111] {
                            if rep.case(|| format!("cells {a} {b} globals {gl} lock {lk} witnesses {inw} {opw} genesis alike={same} known={mask:b}")) {
                                one(rep, &h.w, &store_with(&h, mask), &h.blocks());
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Histories of every width up to a bound: joins of k operations, k operations closed by one and the
/// same witness, one operation supplied k times, k cells read or written; each with every kind of
/// wrong end.
pub fn widths<S: Kit>(g: &Global, total: &mut Stats, all: usize, around: &[usize]) {
    let mut ks: Vec<usize> = (1..=all).collect();
    for a in around {
        ks.extend([a - 1, *a, a + 1]);
    }
    ks.sort();
    ks.dedup();
    ks.reverse();
    let spots = |k: usize| -> BTreeSet<usize> { [0, k / 2, k - 1].into_iter().collect() };
    let knowing = |h: &Hist<S>| {
        let none = store_with(h, 1);
        let mut full = none.clone();
        for s in h.steps.iter().skip(1) {
            full.apply(s.opid, &s.op);
        }
        [none, full]
    };
    let strangers = |s: &Step<S>, bad: usize| {
        let mut other = s.opid.to_byte_array();
        other[bad % 32] ^= 1;
        let cl: Vec<Closing<S>> =
            s.closes.iter().enumerate().map(|(n, x)| (Some(*x), if n == bad { other.into() } else { s.opid })).collect();
        S::mk_witness(70, &s.closes, &cl)
    };
    par(g, total, &format!("joins-{}", S::NAME), ks.len(), |i, rep| {
        let k = ks[i];
        let outs: Vec<OutS<S>> = (0..k).map(|i| out(i as u64, S::abs(i as u32 + 1))).collect();
        let mut h = Hist::new("joins", World::new(1, &outs, &[3]));
        for i in 0..k {
            h.add(st(&[(0, i as u16)], vec![out(1, if i % 3 == 0 { S::rel(0, 0) } else { S::abs(1000 + i as u32) })]).imm(&[i as u64]));
        }
        let ins: Vec<(usize, u16)> = (0..k).map(|i| (i + 1, 0)).collect();
        let j = h.add(st(&ins, vec![out(5, S::abs(9000))]).reads(&ins));
        let full = h.blocks();
        let stores = knowing(&h);
        for (known, store) in stores.iter().enumerate() {
            let mut tell = |what: String, x: Vec<Block<S>>| {
                if rep.case(|| format!("{k} joined, {what}, known={known}")) {
                    one(rep, &h.w, store, &x);
                }
            };
            tell("right".into(), full.clone());
            for bad in spots(k) {
                let mut x = full.clone();
                x[bad + 1].defined_seals = mk_seals::<S>(BTreeMap::new());
                tell(format!("seal of {bad} hidden"), x);
                let mut x = full.clone();
                x[j].witness = Some(strangers(&h.steps[j], bad));
                tell(format!("input {bad} closed over another"), x);
                let mut x = full.clone();
                x.remove(bad + 1);
                tell(format!("{bad} missing"), x);
                let mut x = full.clone();
                let b = x.remove(bad + 1);
                x.push(b);
                tell(format!("{bad} comes late"), x);
                let mut x = full.clone();
                x[bad + 1].witness = None;
                tell(format!("{bad} without witness"), x);
                // a rival of one of the branches, at the end
                let mut op = h.steps[bad + 1].op.clone();
                op.nonce = ultrasonic::fe256::from(777u64);
                let mut x = full.clone();
                x.push(resign(&h, &mk_block(op, h.steps[bad + 1].defs.clone(), full[bad + 1].witness.clone()), false, 5200, false));
                tell(format!("{bad} has a rival"), x);
                // reads what does not exist
                let mut y = full[j].clone();
                let mut op = y.operation.clone();
                let mut reads: Vec<CellAddr> = op.immutable_in.iter().copied().collect();
                reads[bad].pos = 1;
                op.immutable_in = amplify::confinement::Confined::try_from(reads).unwrap();
                y.operation = op;
                let mut x = full.clone();
                x[j] = resign(&h, &y, false, 5300, true);
                tell(format!("read {bad} does not exist"), x);
                // lists a cell twice
                let mut y = full[j].clone();
                let mut ins: Vec<_> = y.operation.destructible_in.iter().copied().collect();
                let again = ins[bad];
                ins.push(again);
                y.operation.destructible_in = amplify::confinement::Confined::try_from(ins).unwrap();
                let mut x = full.clone();
                x[j] = resign(&h, &y, false, 5400, true);
                tell(format!("input {bad} listed twice"), x);
            }
            let mut y = full[j].clone();
            y.operation.call_id = FAIL;
            let mut x = full.clone();
            x[j] = resign(&h, &y, false, 5500, true);
            tell("the join fails".into(), x);
        }
    });
    par(g, total, &format!("batches-{}", S::NAME), ks.len(), |i, rep| {
        let k = ks[i];
        let outs: Vec<OutS<S>> = (0..k).map(|i| out(i as u64, S::abs(i as u32 + 1))).collect();
        let mk = |but: Option<usize>| {
            let mut h = Hist::new("batch", World::new(1, &outs, &[]));
            let list = (0..k).map(|i| st(&[(0, i as u16)], vec![out(1, S::rel(i as u32, 0))])).collect::<Vec<_>>();
            h.add_shared(list);
            if let Some(bad) = but {
                // one of them is not among what the common witness closes
                let (mut spends, mut cl) = (vec![], vec![]);
                for (n, s) in h.steps.iter().skip(1).enumerate() {
                    let mut other = s.opid.to_byte_array();
                    other[31] ^= 1;
                    spends.extend(s.closes.iter().copied());
                    cl.extend(s.closes.iter().map(|c| (Some(*c), if n == bad { other.into() } else { s.opid })));
                }
                let w = S::mk_witness(71, &spends, &cl);
                let steps = std::mem::take(&mut h.steps);
                for (n, s) in steps.into_iter().enumerate() {
                    if n == 0 {
                        h.steps.push(s);
                    } else {
                        h.push(s.op, s.defs, s.closes, Some(w.clone()));
                    }
                }
            }
            h
        };
        for but in [None].into_iter().chain(spots(k).into_iter().map(Some)) {
            let mut h = mk(but);
            // each output is spent in the end
            let last = h.add(st(&(0..k).map(|i| (i + 1, 0)).collect::<Vec<_>>(), vec![out(5, S::abs(9000))]));
            let blocks = h.blocks();
            for (known, store) in knowing(&h).iter().enumerate() {
                if rep.case(|| format!("{k} in one witness, all but {but:?}, known={known}")) {
                    one(rep, &h.w, store, &blocks);
                }
                if but.is_none() {
                    for bad in spots(k) {
                        if rep.case(|| format!("{k} in one witness, then {bad} closed over another, known={known}")) {
                            let mut x = blocks.clone();
                            x[last].witness = Some(strangers(&h.steps[last], bad));
                            one(rep, &h.w, store, &x);
                        }
                        if rep.case(|| format!("{k} in one witness, {bad} of another contract, known={known}")) {
                            let mut x = blocks.clone();
                            x[bad + 1].operation.contract_id = ultrasonic::ContractId::from_byte_array([0xEE; 32]);
                            one(rep, &h.w, store, &x);
                        }
                    }
                }
            }
        }
    });
    par(g, total, &format!("repetitions-{}", S::NAME), ks.len(), |i, rep| {
        let k = ks[i];
        for free in [false, true] {
            let mut h = Hist::new("repeat", World::new(1, &[out(1, S::abs(1)), out(2, S::abs(2))], &[]));
            let s = st(if free { &[] } else { &[(0, 0)] }, vec![out(1, S::rel(0, 0)), out(2, S::abs(3))]).wmode(WMode::Always);
            h.add(s);
            h.add(st(&[(1, 0), (1, 1)], vec![out(5, S::abs(9000))]));
            let mut gb = h.w.gblock();
            let blocks = h.blocks();
            gb.operation = h.w.gop.clone();
            for (known, store) in knowing(&h).iter().enumerate() {
                // (what is consumed has to be disclosed again)
                let mut x = vec![blocks[0].clone()];
                for _ in 0..k {
                    x.push(blocks[1].clone());
                    if !free {
                        x.push(gb.clone());
                    }
                }
                let mut tell = |what: &str, x: Vec<Block<S>>| {
                    if rep.case(|| format!("{k} times the same ({free}), {what}, known={known}")) {
                        one(rep, &h.w, store, &x);
                    }
                };
                let mut y = x.clone();
                y.push(blocks[2].clone());
                tell("then spent", y.clone());
                y.push(blocks[2].clone());
                tell("then spent twice", y);
                let mut y = x.clone();
                y.push(resign(&h, &blocks[1], false, 5600, true));
                tell("then with another witness", y.clone());
                y.push(blocks[2].clone());
                tell("then with another witness and spent", y);
                let mut y = x.clone();
                y.push(blocks[1].clone());
                let n = y.len() - 1;
                y[n].witness = Some(strangers(&h.steps[1], 0));
                if free {
                    y[n].witness = h.steps[2].witness.clone();
                }
                tell("then with a wrong witness", y);
                let mut y = x.clone();
                y.push(blocks[1].clone());
                let n = y.len() - 1;
                y[n].witness = None;
                tell("then without witness", y.clone());
                y.push(blocks[2].clone());
                tell("then without witness and spent", y);
                let mut y = x.clone();
                y.push(blocks[1].clone());
                let n = y.len() - 1;
                y[n].defined_seals = mk_seals::<S>([(0, S::abs(3)), (1, S::abs(3))].into());
                tell("then with a wrong definition", y);
                let mut y = x.clone();
                y.push(blocks[1].clone());
                let n = y.len() - 1;
                y[n].defined_seals = mk_seals::<S>(BTreeMap::new());
                y.push(blocks[2].clone());
                tell("then hidden and spent", y);
            }
        }
    });
    par(g, total, &format!("global-{}", S::NAME), ks.len(), |i, rep| {
        let k = ks[i];
        let mut h = Hist::new("global", World::new(1, &[out(1, S::abs(1)), out(2, S::abs(2))], &[]));
        let imm: Vec<u64> = (0..k as u64).collect();
        h.add(st(&[(0, 0)], vec![out(1, S::abs(3))]).imm(&imm));
        let reads: Vec<(usize, u16)> = (0..k).map(|i| (1, i as u16)).collect();
        h.add(st(&[(0, 1)], vec![out(1, S::abs(4))]).reads(&reads));
        let blocks = h.blocks();
        for (known, store) in knowing(&h).iter().enumerate() {
            let mut tell = |what: String, x: Vec<Block<S>>| {
                if rep.case(|| format!("{k} read, {what}, known={known}")) {
                    one(rep, &h.w, store, &x);
                }
            };
            tell("right".into(), blocks.clone());
            for bad in spots(k) {
                for how in 0..3 {
                    let mut y = blocks[2].clone();
                    let mut r: Vec<CellAddr> = y.operation.immutable_in.iter().copied().collect();
                    match how {
                        0 => r[bad].pos = k as u16,
                        1 => r[bad].opid = h.steps[2].opid,
                        _ => r[bad] = h.addr(0, 0),
                    }
                    y.operation.immutable_in = amplify::confinement::Confined::try_from(r).unwrap();
                    let mut x = blocks.clone();
                    x[2] = resign(&h, &y, false, 5700 + how, true);
                    tell(format!("{bad} wrong ({how})"), x);
                }
            }
            let mut y = blocks[2].clone();
            y.operation.call_id = FAIL;
            let mut x = blocks.clone();
            x[2] = resign(&h, &y, false, 5800, true);
            tell("fails".into(), x);
            let mut y = blocks[1].clone();
            y.operation.call_id = FAIL;
            let mut x = blocks.clone();
            x[1] = resign(&h, &y, false, 5801, true);
            tell("writing fails".into(), x);
        }
    });
}
