//! C04: worlds of published witnesses obeying the chain rule, everything that can be assembled from
//! them, and the search for a cell with two accepted spenders.
use std::collections::{BTreeMap, BTreeSet};

use ultrasonic::{CellAddr, Operation, Opid};

use crate::led::*;
use crate::rep::*;
use crate::seal::*;
use crate::world::*;

/// An operation of the pool, with the alternative seal disclosures it may be supplied with.
struct Cand<S: Kit> {
    name: &'static str,
    op: Operation,
    opid: Opid,
    defs: Vec<BTreeMap<u16, Def<S>>>,
    /// may it be supplied with witnesses of the world
    witnessed: bool,
}

/// A seal of the world: an external one, or an output of one of the transactions.
#[derive(Clone, Copy)]
enum Loc {
    Ext(u32),
    Out(usize, u32),
}

struct Game<S: Kit> {
    name: &'static str,
    w: World<S>,
    pool: Vec<Cand<S>>,
    /// seal, transactions which may close it, operations it may be closed over
    seals: Vec<(Loc, Vec<usize>, Vec<usize>)>,
    ntx: usize,
    depth: usize,
    /// operations without inputs are witnessed as well
    open: bool,
    /// wrong disclosures for the genesis, and contracts knowing everything beforehand
    large: bool,
}

fn cand<S: Kit>(w: &World<S>, name: &'static str, nonce: u64, ins: &[CellAddr], outs: &[OutS<S>], alts: bool, witnessed: bool) -> Cand<S> {
    let op = mk_op::<S>(w.cid, &OpSpec {
        call: ACCEPT,
        nonce,
        ins: ins.iter().map(|a| (*a, ultrasonic::StateValue::None)).collect(),
        reads: vec![],
        outs: outs.to_vec(),
        imm: vec![],
        witness: ultrasonic::StateValue::None,
    });
    let opid = op.opid();
    Cand { name, op, opid, defs: alternatives::<S>(&defs_of(outs), alts), witnessed }
}

/// The right disclosure, and (if asked for) wrong ones which would move seals between cells.
fn alternatives<S: Kit>(d: &BTreeMap<u16, Def<S>>, alts: bool) -> Vec<BTreeMap<u16, Def<S>>> {
    let mut v = vec![d.clone()];
    if alts && d.len() > 1 {
        let (a, b) = (d[&0].clone(), d[&1].clone());
        let mut x = d.clone();
        x.insert(0, b.clone());
        x.insert(1, a.clone());
        v.push(x);
        let mut x = d.clone();
        x.insert(0, b);
        v.push(x);
        let mut x = d.clone();
        x.insert(1, a);
        v.push(x);
    }
    v
}

fn addr(o: Opid, p: u16) -> CellAddr { CellAddr::new(o, p) }

fn main_game<S: Kit>(large: bool) -> Game<S> {
    let w: World<S> = World::new(1, &[out(10, S::abs(1)), out(20, S::abs(2))], &[]);
    let g = w.gid;
    let mut pool = vec![];
    pool.push(cand(&w, "P1", 1, &[addr(g, 0)], &[out(4, S::rel(0, 0)), out(6, S::abs(3))], true, true));
    let p1 = pool[0].opid;
    pool.push(cand(&w, "P2", 2, &[addr(g, 0)], &[out(10, S::rel(0, 0))], false, true));
    let p2 = pool[1].opid;
    pool.push(cand(&w, "P3", 3, &[addr(g, 0), addr(g, 1)], &[out(30, S::rel(0, 0))], false, true));
    let p3 = pool[2].opid;
    pool.push(cand(&w, "Q1", 4, &[addr(p1, 0)], &[out(4, S::rel(0, 0))], false, true));
    let q1 = pool[3].opid;
    pool.push(cand(&w, "Q2", 5, &[addr(p1, 0)], &[out(4, S::abs(5))], false, true));
    pool.push(cand(&w, "Q3", 6, &[addr(p1, 1), addr(g, 1)], &[out(4, S::abs(5))], false, true));
    pool.push(cand(&w, "R1", 7, &[addr(p2, 0)], &[out(4, S::rel(0, 0))], false, true));
    pool.push(cand(&w, "R2", 8, &[addr(p2, 0), addr(g, 1)], &[out(4, S::abs(5))], false, true));
    let mut seals = vec![
        (Loc::Ext(1), vec![0, 1], vec![0, 1, 2]),
        (Loc::Ext(2), if large { vec![0, 1, 2] } else { vec![0, 1] }, vec![2, 5, 7]),
        (Loc::Ext(3), vec![1], vec![5, 3]),
        (Loc::Out(0, 0), vec![1, 2], vec![3, 4, 6, 7]),
        (Loc::Out(1, 0), vec![2], vec![3, 6]),
    ];
    if large {
        pool.push(cand(&w, "S1", 9, &[addr(p3, 0)], &[], false, true));
        pool.push(cand(&w, "S2", 10, &[addr(q1, 0), addr(g, 1)], &[], false, true));
        // without inputs, never witnessed
        pool.push(cand(&w, "N", 11, &[], &[out(4, S::abs(7)), out(6, S::rel(0, 0))], true, false));
        let n = pool[10].opid;
        pool.push(cand(&w, "M1", 12, &[addr(n, 0)], &[out(5, S::rel(0, 0))], false, true));
        pool.push(cand(&w, "M2", 13, &[addr(n, 1)], &[out(5, S::rel(0, 0))], false, true));
        pool.push(cand(&w, "M3", 14, &[addr(n, 0), addr(g, 1)], &[out(5, S::rel(0, 0))], false, true));
        seals = vec![
            (Loc::Ext(1), vec![0, 1], vec![0, 1, 2]),
            (Loc::Ext(2), vec![0, 1, 2], vec![2, 5, 7, 9, 13]),
            (Loc::Ext(3), vec![1], vec![5, 3]),
            (Loc::Ext(7), vec![0, 2], vec![11, 12, 13]),
            (Loc::Out(0, 0), vec![1, 2], vec![3, 4, 6, 8]),
            (Loc::Out(1, 0), vec![2], vec![3, 4, 6, 8]),
        ];
    }
    Game { name: if large { "large" } else { "small" }, large: true, w, pool, seals, ntx: 3, depth: 3 + large as usize, open: false }
}

/// Operations destroying nothing, with witnesses.
fn open_game<S: Kit>(large: bool) -> Game<S> {
    let w: World<S> = World::new(1, &[out(10, S::abs(1)), out(20, S::rel(0, 0))], &[]);
    let g = w.gid;
    let mut pool = vec![];
    pool.push(cand(&w, "N", 1, &[], &[out(4, S::rel(0, 0)), out(6, S::abs(3))], large, true));
    let n = pool[0].opid;
    pool.push(cand(&w, "M1", 2, &[addr(n, 0)], &[out(5, S::rel(0, 0))], false, true));
    pool.push(cand(&w, "M2", 3, &[addr(n, 0)], &[out(5, S::abs(6))], false, true));
    pool.push(cand(&w, "M3", 4, &[addr(n, 1)], &[out(5, S::abs(6))], false, true));
    pool.push(cand(&w, "M4", 5, &[addr(n, 1), addr(g, 0)], &[], false, true));
    pool.push(cand(&w, "P1", 6, &[addr(g, 0)], &[], false, true));
    pool.push(cand(&w, "P2", 7, &[addr(g, 1)], &[], false, true));
    let mut seals = vec![
        (Loc::Ext(1), vec![0, 1], vec![4]),
        (Loc::Ext(3), vec![1], vec![3]),
        (Loc::Out(0, 0), vec![1, 2], vec![1, 2, 6]),
        (Loc::Out(1, 0), vec![2], vec![1, 2, 6]),
    ];
    if large {
        pool.push(cand(&w, "P3", 8, &[addr(g, 1), addr(g, 0)], &[], false, true));
        seals = vec![
            (Loc::Ext(1), vec![0, 1], vec![4, 5, 7]),
            (Loc::Ext(3), vec![1], vec![3, 4]),
            (Loc::Out(0, 0), vec![1, 2], vec![1, 2, 6, 7]),
            (Loc::Out(1, 0), vec![2], vec![1, 2, 6, 7]),
        ];
    }
    Game { name: if large { "open-large" } else { "open" }, large, w, pool, seals, ntx: 3, depth: 3, open: true }
}

struct Found {
    /// cell -> spender -> how it was reached
    spenders: BTreeMap<CellAddr, BTreeMap<Opid, String>>,
    /// operation -> witness ids (debug text) it was accepted with
    wids: BTreeMap<Opid, BTreeSet<String>>,
}

fn play<S: Kit>(g: &Global, total: &mut Stats, game: &Game<S>) {
    let choices: Vec<usize> = game.seals.iter().map(|(_, t, o)| 1 + t.len() * o.len()).collect();
    let n: usize = choices.iter().product();
    let fam = format!("worlds-{}-{}", S::NAME, game.name);
    par(g, total, &fam, n, |code, rep| {
        let mut c = code;
        // seal -> (tx, operation)
        let mut assign: Vec<(Loc, usize, usize)> = vec![];
        for (k, (loc, txs, ops)) in game.seals.iter().enumerate() {
            let v = c % choices[k];
            c /= choices[k];
            if v > 0 {
                assign.push((*loc, txs[(v - 1) / ops.len()], ops[(v - 1) % ops.len()]));
            }
        }
        // transactions, in order
        let mut txs: Vec<Option<Wit<S>>> = vec![];
        let mut label = vec![];
        for t in 0..game.ntx {
            let mut spends = vec![];
            let mut closes: Vec<Closing<S>> = vec![];
            let mut txt = vec![];
            for (loc, at, op) in &assign {
                if *at != t {
                    continue;
                }
                let seal = match loc {
                    Loc::Ext(n) => S::s_abs(&S::abs(*n)).unwrap(),
                    Loc::Out(src, vout) => match &txs[*src] {
                        Some(w) => S::s_rel(&S::rel(*vout, 0), S::s_wid(w)),
                        // output of a transaction which does not exist: the same world as without
                        None => return,
                    },
                };
                spends.push(seal);
                closes.push((Some(seal), game.pool[*op].opid));
                txt.push(format!(
                    "{}>{}",
                    match loc {
                        Loc::Ext(n) => format!("e{n}"),
                        Loc::Out(s, v) => format!("t{s}:{v}"),
                    },
                    game.pool[*op].name
                ));
            }
            if game.open {
                // commits to the operations without inputs (and the genesis) on top, closing nothing
                closes.push((None, game.pool[0].opid));
                closes.push((None, game.w.gid));
            }
            if closes.is_empty() {
                txs.push(None);
            } else {
                txs.push(Some(S::mk_witness(300 + t as u32, &spends, &closes)));
                label.push(format!("t{t}({})", txt.join(",")));
            }
        }
        if assign.is_empty() && !game.open {
            return;
        }
        if !rep.case(|| format!("world {code}: {}", label.join(" "))) {
            return;
        }
        let mut found = Found { spenders: BTreeMap::new(), wids: BTreeMap::new() };
        let all: Vec<Opid> = game.pool.iter().map(|c| c.opid).collect();
        // what can be put next
        let mut syms: Vec<(String, Block<S>)> = vec![];
        for cand in &game.pool {
            for (k, d) in cand.defs.iter().enumerate() {
                syms.push((format!("{}#{k}", cand.name), mk_block(cand.op.clone(), d.clone(), None)));
                if cand.witnessed {
                    for (t, w) in txs.iter().enumerate() {
                        if let Some(w) = w {
                            syms.push((format!("{}#{k}/t{t}", cand.name), mk_block(cand.op.clone(), d.clone(), Some(w.clone()))));
                        }
                    }
                }
            }
        }
        for known in [false, true] {
            if known && !game.large {
                continue;
            }
            let extra: &[Opid] = if known { &all } else { &[] };
            let mut starts = vec![];
            for (k, d) in alternatives::<S>(&game.w.gdefs, game.large).into_iter().enumerate() {
                starts.push((format!("G#{k}"), mk_block(game.w.graw.clone(), d.clone(), None)));
                if game.open && k == 0 {
                    for (t, w) in txs.iter().enumerate() {
                        starts.push((format!("G#{k}/t{t}"), mk_block(game.w.graw.clone(), d.clone(), w.clone())));
                    }
                }
            }
            for (n, b) in starts {
                grow(rep, game, &syms, extra, &mut vec![b], &mut vec![n], game.depth, &mut found);
            }
        }
        for (cell, sp) in &found.spenders {
            if sp.len() < 2 {
                continue;
            }
            if free_witness(game, &found, *cell) {
                rep.known_finding("C04:free-witness");
                continue;
            }
            let l: Vec<String> = sp.iter().map(|(o, how)| format!("{o} by [{how}]")).collect();
            let msg = format!("cell {cell} has {} accepted spenders: {}", sp.len(), l.join(" and "));
            rep.fail_if(&["C04"], true, || msg.clone(), || format!("world: {}\n{}", label.join(" "), l.join("\n")));
        }
    });
}

/// The signature of the known finding: the cell goes back to an operation which destroys nothing
/// and has a witness-output seal, accepted with two different witnesses.
fn free_witness<S: Kit>(game: &Game<S>, found: &Found, cell: CellAddr) -> bool {
    let mut todo = vec![cell.opid];
    let mut seen = BTreeSet::new();
    while let Some(o) = todo.pop() {
        if !seen.insert(o) {
            continue;
        }
        let (ins, defs) = if o == game.w.gid {
            (vec![], &game.w.gdefs)
        } else {
            let c = game.pool.iter().find(|c| c.opid == o).unwrap();
            (c.op.destructible_in.iter().map(|i| i.addr.opid).collect(), &c.defs[0])
        };
        if ins.is_empty() && defs.values().any(|d| S::is_rel(d)) && found.wids.get(&o).map(|w| w.len()).unwrap_or(0) > 1 {
            return true;
        }
        todo.extend(ins);
    }
    false
}

fn grow<S: Kit>(
    rep: &mut Rep,
    game: &Game<S>,
    syms: &[(String, Block<S>)],
    extra: &[Opid],
    blocks: &mut Vec<Block<S>>,
    names: &mut Vec<String>,
    left: usize,
    found: &mut Found,
) {
    let mut st = Store::fresh(&game.w);
    let (out, _, _) = rep.eval(&game.w, &mut st, extra, blocks, &Plan::default(), false);
    let reads = out.log.iter().filter(|e| matches!(e, Ev::Read(_))).count();
    let accepted = if out.verdict.is_ok() { reads } else { reads.saturating_sub(1) };
    if accepted < blocks.len() {
        return;
    }
    let last = blocks.last().unwrap();
    let mut op = last.operation.clone();
    if blocks.len() == 1 {
        op.contract_id = game.w.cid;
    }
    let opid = op.opid();
    if let Some(w) = &last.witness {
        found.wids.entry(opid).or_default().insert(format!("{:?}", S::s_wid(w)));
    }
    for i in &op.destructible_in {
        found.spenders.entry(i.addr).or_default().entry(opid).or_insert_with(|| names.join(" ; "));
    }
    if left == 0 {
        return;
    }
    for (n, b) in syms {
        // operations without inputs need not be repeated
        if b.operation.destructible_in.is_empty() && blocks.iter().any(|x| x.operation == b.operation && x.witness == b.witness) {
            continue;
        }
        blocks.push(b.clone());
        names.push(n.clone());
        grow(rep, game, syms, extra, blocks, names, left - 1, found);
        blocks.pop();
        names.pop();
    }
}

pub fn worlds<S: Kit>(g: &Global, t: &mut Stats, th: bool) {
    play(g, t, &main_game::<S>(false));
    if th {
        play(g, t, &main_game::<S>(true));
    }
}
pub fn open<S: Kit>(g: &Global, t: &mut Stats, th: bool) { play(g, t, &open_game::<S>(th)); }
