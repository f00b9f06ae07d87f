//! Base histories and deviations from them.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use ultrasonic::{fe256, CellAddr, ContractId, Input, Operation, Opid, StateValue};

use crate::led::*;
use crate::seal::*;
use crate::world::*;

pub fn bases<S: Kit>() -> Vec<Hist<S>> {
    let mut v = vec![];
    {
        let mut h = Hist::new("chain-abs", World::new(1, &[out(10, S::abs(1)), out(20, S::abs(2))], &[5]));
        h.add(st(&[(0, 0)], vec![out(10, S::abs(3))]));
        h.add(st(&[(1, 0)], vec![out(10, S::abs(4))]));
        v.push(h);
    }
    {
        let mut h = Hist::new("chain-rel", World::new(1, &[out(10, S::abs(1))], &[]));
        h.add(st(&[(0, 0)], vec![out(4, S::rel(0, 0)), out(6, S::rel(1, 0))]));
        h.add(st(&[(1, 0)], vec![out(4, S::rel(0, 0))]));
        h.add(st(&[(2, 0), (1, 1)], vec![out(10, S::rel(0, 1))]));
        v.push(h);
    }
    {
        let mut h = Hist::new("fork-join", World::new(1, &[out(10, S::abs(1)), out(20, S::abs(2))], &[5]));
        h.add(st(&[(0, 0)], vec![out(3, S::rel(0, 0)), out(7, S::abs(3))]));
        h.add(st(&[(0, 1)], vec![out(20, S::rel(0, 0))]));
        h.add(st(&[(1, 0), (2, 0), (1, 1)], vec![out(30, S::abs(5))]));
        v.push(h);
    }
    {
        let mut h = Hist::new("diamond-reads", World::new(1, &[out(10, S::abs(1)), out(1, S::abs(2))], &[5]));
        h.add(st(&[(0, 0)], vec![out(4, S::rel(0, 0)), out(6, S::rel(1, 0))]).imm(&[7]));
        h.add(st(&[(1, 0)], vec![out(7, S::rel(0, 0))]).reads(&[(1, 0)]).call(READ));
        h.add(st(&[(1, 1)], vec![out(6, S::abs(7))]).reads(&[(0, 0), (1, 0)]).imm(&[8, 9]));
        h.add(st(&[(3, 0), (2, 0)], vec![out(9, S::rel(2, 0))]).reads(&[(3, 1)]).call(READ));
        v.push(h);
    }
    {
        let outs: Vec<_> = (0..4).map(|i| out(i as u64, S::abs(i + 1))).collect();
        let mut h = Hist::new("wide-join", World::new(1, &outs, &[]));
        h.add(st(&[(0, 3), (0, 1), (0, 0), (0, 2)], vec![out(10, S::rel(0, 0)), out(1, S::abs(8))]));
        h.add(st(&[(1, 1)], vec![]));
        v.push(h);
    }
    {
        let mut h = Hist::new("inputless", World::new(1, &[out(10, S::abs(1))], &[5]));
        h.add(st(&[], vec![out(4, S::abs(3)), out(6, S::rel(0, 0))]).wmode(WMode::Never));
        h.add(st(&[], vec![out(5, S::rel(0, 0))]).wmode(WMode::Always));
        h.add(st(&[(1, 0), (2, 0)], vec![out(9, S::rel(0, 0))]));
        h.add(st(&[(3, 0), (0, 0)], vec![]));
        v.push(h);
    }
    {
        let mut h = Hist::new(
            "scripts-locks",
            World::new(
                1,
                &[outl(10, S::abs(1), lock(&lib_lock_ok())), outl(20, S::abs(2), lock(&lib_lock_secret()))],
                &[10],
            ),
        );
        h.add(st(&[(0, 0)], vec![outl(10, S::rel(0, 0), lock(&lib_lock_secret())), outl(3, S::rel(1, 0), lock_aux())]).call(KEEP));
        h.add(st(&[(0, 1), (1, 1)], vec![out(20, S::abs(4))]).call(KEEP).inw(&[val(48), val(1)]));
        h.add(st(&[(1, 0), (2, 0)], vec![out(10, S::rel(0, 0))]).call(READ).reads(&[(0, 0)]).inw(&[val(48)]));
        h.add(st(&[(3, 0)], vec![out(1, S::abs(5))]).call(OPWIT).opw(val(77)));
        v.push(h);
    }
    {
        let mut h = Hist::new("long-chain", World::new(1, &[out(10, S::abs(1)), out(20, S::abs(2))], &[]));
        for i in 0..7usize {
            let prev = (i, 0u16);
            let d = if i % 2 == 0 { S::rel(i as u32 % 3, i as u32) } else { S::abs(10 + i as u32) };
            h.add(st(&[prev], vec![out(10, d), out(1, S::abs(30 + i as u32))]));
        }
        v.push(h);
    }
    {
        // two cells of one operation defined by one and the same seal
        let mut h = Hist::new("same-seal", World::new(1, &[out(10, S::abs(1)), out(20, S::abs(1)), out(30, S::abs(2))], &[]));
        h.add(st(&[(0, 0), (0, 1)], vec![out(10, S::rel(0, 0)), out(12, S::rel(0, 0)), out(13, S::abs(6))]));
        h.add(st(&[(1, 1), (1, 0), (0, 2)], vec![out(10, S::abs(7))]));
        v.push(h);
    }
    {
        let mut h = Hist::new("shared-witness", World::new(1, &[out(10, S::abs(1)), out(20, S::abs(2))], &[]));
        h.add_shared(vec![st(&[(0, 0)], vec![out(10, S::rel(0, 0))]), st(&[(0, 1)], vec![out(20, S::rel(0, 0)), out(2, S::rel(1, 0))])]);
        h.add(st(&[(1, 0)], vec![out(30, S::abs(5))]));
        h.add(st(&[(2, 1)], vec![out(30, S::abs(6))]));
        v.push(h);
    }
    v
}

/// Pre-known part of a history: the operations selected by the mask.
pub fn store_with<S: Kit>(h: &Hist<S>, mask: u32) -> Store<S> {
    let mut s = Store::fresh(&h.w);
    for (i, step) in h.steps.iter().enumerate().skip(1) {
        if i < 32 && mask >> i & 1 == 1 {
            s.apply(step.opid, &step.op);
        }
    }
    s
}

fn bound_opid<S: Kit>(w: &World<S>, op: &Operation, first: bool) -> Opid {
    let mut op = op.clone();
    if first {
        op.contract_id = w.cid;
    }
    op.opid()
}

/// A fresh witness closing all the inputs of the operation whose seals are known.
pub fn resign<S: Kit>(h: &Hist<S>, b: &Block<S>, first: bool, salt: u32, force: bool) -> Block<S> {
    let opid = bound_opid(&h.w, &b.operation, first);
    let closes: Vec<S> = b.operation.destructible_in.iter().filter_map(|i| h.seals.get(&i.addr).copied()).collect();
    let mut b = b.clone();
    if closes.is_empty() && !force && b.witness.is_none() {
        return b;
    }
    let mut cl: Vec<Closing<S>> = closes.iter().map(|c| (Some(*c), opid)).collect();
    if cl.is_empty() {
        cl.push((None, opid));
    }
    b.witness = Some(S::mk_witness(salt, &closes, &cl));
    b
}

pub type Dev<S> = (String, Vec<Block<S>>);

fn ops_of<S: Kit>(h: &Hist<S>, op: &Operation, wide: bool) -> Vec<(String, Operation)> {
    let mut v: Vec<(String, Operation)> = vec![];
    let mut add = |n: String, f: &dyn Fn(&mut Operation)| {
        let mut o = op.clone();
        f(&mut o);
        v.push((n, o));
    };
    add("cid=codex".into(), &|o| o.contract_id = h.w.codex_id.to_byte_array().into());
    add("cid=contract".into(), &|o| o.contract_id = h.w.cid);
    add("cid=other".into(), &|o| o.contract_id = ContractId::from_byte_array([0xEE; 32]));
    add("cid=bitflip".into(), &|o| {
        let mut c = o.contract_id.to_byte_array();
        c[31] ^= 0x80;
        o.contract_id = c.into();
    });
    for call in [ACCEPT, FAIL, MISSING, KEEP, READ, FAILNONE, NOLIB, 0x100, 0xFFFF] {
        if op.call_id != call {
            add(format!("call={call}"), &|o| o.call_id = call);
        }
    }
    add("nonce".into(), &|o| o.nonce = fe256::from(9999u64));
    add("opwitness".into(), &|o| o.witness = val(1));
    let nin = op.destructible_in.len();
    let idx = |n: usize| -> Vec<usize> {
        if n <= 4 {
            (0..n).collect()
        } else {
            vec![0, n - 1]
        }
    };
    let others: Vec<CellAddr> = h
        .seals
        .keys()
        .filter(|a| op.destructible_in.iter().all(|i| i.addr != **a))
        .copied()
        .take(if wide { 12 } else { 5 })
        .collect();
    for k in idx(nin) {
        add(format!("in{k}-drop"), &|o| {
            let mut x: Vec<Input> = o.destructible_in.iter().copied().collect();
            x.remove(k);
            o.destructible_in = Confined::try_from(x).unwrap();
        });
        add(format!("in{k}-dup"), &|o| {
            let x = o.destructible_in[k];
            let _ = o.destructible_in.push(x);
        });
        add(format!("in{k}-dup-otherwit"), &|o| {
            let mut x = o.destructible_in[k];
            x.witness = val(8);
            let _ = o.destructible_in.push(x);
        });
        add(format!("in{k}-witness"), &|o| o.destructible_in[k].witness = val(47));
        for d in [1u16, 256] {
            add(format!("in{k}-pos+{d}"), &|o| o.destructible_in[k].addr.pos = o.destructible_in[k].addr.pos.wrapping_add(d));
        }
        add(format!("in{k}-opid"), &|o| {
            let mut id = o.destructible_in[k].addr.opid.to_byte_array();
            id[0] ^= 1;
            o.destructible_in[k].addr.opid = id.into();
        });
        for (n, a) in others.iter().enumerate() {
            add(format!("in{k}-retarget{n}"), &|o| o.destructible_in[k].addr = *a);
        }
    }
    for (n, a) in others.iter().enumerate() {
        add(format!("in-add{n}"), &|o| {
            let _ = o.destructible_in.push(Input { addr: *a, witness: StateValue::None });
        });
    }
    add("in-swap".into(), &|o| {
        if nin > 1 {
            let mut x: Vec<Input> = o.destructible_in.iter().copied().collect();
            x.swap(0, nin - 1);
            o.destructible_in = Confined::try_from(x).unwrap();
        }
    });
    let nout = op.destructible_out.len();
    for k in idx(nout) {
        add(format!("out{k}-drop"), &|o| {
            let mut x: Vec<_> = o.destructible_out.iter().copied().collect();
            x.remove(k);
            o.destructible_out = Confined::try_from(x).unwrap();
        });
        add(format!("out{k}-value"), &|o| o.destructible_out[k].data = val(424242));
        add(format!("out{k}-lock"), &|o| o.destructible_out[k].lock = lock(&lib_lock_fail()));
        add(format!("out{k}-token"), &|o| o.destructible_out[k].auth = token_raw([0x11; 32]));
    }
    if nout > 1 {
        add("out-swap-auth".into(), &|o| {
            let a = o.destructible_out[0].auth;
            o.destructible_out[0].auth = o.destructible_out[1].auth;
            o.destructible_out[1].auth = a;
        });
        add("out-same-auth".into(), &|o| o.destructible_out[0].auth = o.destructible_out[1].auth);
    }
    for k in idx(op.immutable_in.len()) {
        add(format!("read{k}-drop"), &|o| {
            let mut x: Vec<_> = o.immutable_in.iter().copied().collect();
            x.remove(k);
            o.immutable_in = Confined::try_from(x).unwrap();
        });
    }
    add("read-missing".into(), &|o| {
        let _ = o.immutable_in.push(CellAddr::new(h.w.gid, 77));
    });
    add("read-owned".into(), &|o| {
        let _ = o.immutable_in.push(CellAddr::new(h.w.gid, 0));
    });
    v
}

fn seals_of<S: Kit>(op: &Operation, defs: &BTreeMap<u16, Def<S>>) -> Vec<(String, BTreeMap<u16, Def<S>>)> {
    let mut v = vec![];
    let keys: Vec<u16> = if defs.len() <= 4 {
        defs.keys().copied().collect()
    } else {
        vec![*defs.keys().next().unwrap(), *defs.keys().last().unwrap()]
    };
    if defs.len() > 1 {
        v.push(("seals-none".to_string(), BTreeMap::new()));
    }
    let n = op.destructible_out.len() as u16;
    for k in &keys {
        let d = defs[k].clone();
        let mut m = defs.clone();
        m.remove(k);
        v.push((format!("seal{k}-hide"), m.clone()));
        for to in [n, k.wrapping_add(256), 65535] {
            let mut x = defs.clone();
            x.insert(to, d.clone());
            v.push((format!("seal{k}-also-at-{to}"), x));
            let mut x = m.clone();
            x.insert(to, d.clone());
            v.push((format!("seal{k}-moved-to-{to}"), x));
        }
        let mut x = defs.clone();
        x.insert(*k, S::retweak(&d, 77));
        v.push((format!("seal{k}-tweak"), x));
        let mut x = defs.clone();
        x.insert(*k, if S::is_rel(&d) { S::abs(66) } else { S::rel(0, 0) });
        v.push((format!("seal{k}-kind"), x));
        for k2 in &keys {
            if k2 <= k {
                continue;
            }
            let mut x = defs.clone();
            x.insert(*k, defs[k2].clone());
            x.insert(*k2, d.clone());
            v.push((format!("seal{k}-swap-{k2}"), x));
            let mut x = defs.clone();
            x.insert(*k2, d.clone());
            v.push((format!("seal{k}-copied-to-{k2}"), x));
            let mut x = defs.clone();
            x.insert(*k, defs[k2].clone());
            v.push((format!("seal{k2}-copied-to-{k}"), x));
        }
    }
    v
}

fn defs_map<S: Kit>(b: &Block<S>) -> BTreeMap<u16, Def<S>> { b.defined_seals.iter().map(|(k, v)| (*k, v.clone())).collect() }

fn wits_of<S: Kit>(h: &Hist<S>, blocks: &[Block<S>], i: usize) -> Vec<(String, Block<S>)> {
    let b = &blocks[i];
    let mut v = vec![];
    if let Some(w) = &b.witness {
        let mut x = b.clone();
        x.witness = None;
        v.push(("wit-none".to_string(), x));
        for (n, (name, m)) in S::mutate(w).into_iter().enumerate() {
            let mut x = b.clone();
            x.witness = Some(m);
            v.push((format!("wit{n}-{name}"), x));
        }
        for (j, o) in blocks.iter().enumerate() {
            if j != i {
                if let Some(ow) = &o.witness {
                    let mut x = b.clone();
                    x.witness = Some(ow.clone());
                    v.push((format!("wit-of-{j}"), x));
                    // published part of one with the client part of the other
                    let mut x = b.clone();
                    x.witness = Some(Wit::<S>::new(w.published.clone(), ow.client.clone()));
                    v.push((format!("wit-client-of-{j}"), x));
                    let mut x = b.clone();
                    x.witness = Some(Wit::<S>::new(ow.published.clone(), w.client.clone()));
                    v.push((format!("wit-published-of-{j}"), x));
                }
            }
        }
        v.push(("wit-alternative".to_string(), resign(h, b, i == 0, 7000 + i as u32, true)));
        // per-seal: everything closed but one, or one closed over another operation
        let opid = bound_opid(&h.w, &b.operation, i == 0);
        let closes: Vec<S> = b.operation.destructible_in.iter().filter_map(|i| h.seals.get(&i.addr).copied()).collect();
        let n = closes.len();
        for k in 0..n {
            if n > 6 && k != 0 && k != n / 2 && k != n - 1 {
                continue;
            }
            let spends: Vec<S> = closes.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, s)| *s).collect();
            let all: Vec<Closing<S>> = closes.iter().map(|s| (Some(*s), opid)).collect();
            let mut less = all.clone();
            less.remove(k);
            let mut other = all.clone();
            let mut id = opid.to_byte_array();
            id[5] ^= 4;
            other[k].1 = id.into();
            for (name, sp, cl) in [
                ("unspent", &spends, &all),
                ("unmapped", &closes, &less),
                ("unclosed", &spends, &less),
                ("other-op", &closes, &other),
            ] {
                let mut x = b.clone();
                x.witness = Some(S::mk_witness(7100 + k as u32, sp, cl));
                v.push((format!("wit-{name}-{k}"), x));
            }
        }
    } else {
        v.push(("wit-added".to_string(), resign(h, b, i == 0, 7300 + i as u32, true)));
        let mut x = b.clone();
        x.witness = Some(S::mk_witness(7400, &[], &[]));
        v.push(("wit-added-empty".to_string(), x));
        for (j, o) in blocks.iter().enumerate() {
            if let (true, Some(ow)) = (j != i, &o.witness) {
                let mut x = b.clone();
                x.witness = Some(ow.clone());
                v.push((format!("wit-added-of-{j}"), x));
            }
        }
    }
    v
}

/// Deviations of a single block.
pub fn deviate_block<S: Kit>(h: &Hist<S>, blocks: &[Block<S>], i: usize) -> Vec<(String, Block<S>)> {
    let mut v = vec![];
    let b = &blocks[i];
    for (n, op) in ops_of(h, &b.operation, false) {
        let mut x = b.clone();
        x.operation = op;
        let r = resign(h, &x, i == 0, 8000 + i as u32, false);
        if b.witness.is_some() {
            v.push((format!("{n}+stale"), x));
        }
        v.push((n, r));
    }
    for (n, defs) in seals_of::<S>(&b.operation, &defs_map(b)) {
        let mut x = b.clone();
        x.defined_seals = mk_seals::<S>(defs);
        v.push((n, x));
    }
    v.extend(wits_of(h, blocks, i));
    v
}

/// Deviations which change the list of blocks.
pub fn deviate_list<S: Kit>(h: &Hist<S>, blocks: &[Block<S>]) -> Vec<Dev<S>> {
    let mut v: Vec<Dev<S>> = vec![];
    let n = blocks.len();
    for i in 0..n {
        let mut x = blocks.to_vec();
        x.remove(i);
        v.push((format!("delete-{i}"), x));
        for j in 0..n {
            if j != i {
                let mut x = blocks.to_vec();
                let b = x.remove(i);
                x.insert(j, b);
                v.push((format!("move-{i}-to-{j}"), x));
            }
        }
        // copies (exact or deviating) inserted anywhere
        let b = &blocks[i];
        let mut copies: Vec<(String, Block<S>)> = vec![("exact".into(), b.clone())];
        let mut x = b.clone();
        x.operation.nonce = fe256::from(31337u64);
        copies.push(("nonce-stale".into(), x.clone()));
        copies.push(("nonce-resigned".into(), resign(h, &x, false, 9000 + i as u32, true)));
        // other operation committed in a witness spending the same, with the copy's outputs hidden
        x.defined_seals = mk_seals::<S>(BTreeMap::new());
        copies.push(("nonce-resigned-hidden".into(), resign(h, &x, false, 9050 + i as u32, true)));
        let mut x = b.clone();
        x.witness = None;
        copies.push(("no-witness".into(), x));
        let mut x = b.clone();
        x.defined_seals = mk_seals::<S>(BTreeMap::new());
        copies.push(("no-seals".into(), x));
        copies.push(("other-witness".into(), resign(h, b, i == 0, 9100 + i as u32, true)));
        if let Some(w) = &b.witness {
            for (name, m) in S::mutate(w) {
                let mut x = b.clone();
                x.witness = Some(m);
                copies.push((format!("wit-{name}"), x));
            }
        }
        let mut x = b.clone();
        x.operation.contract_id = h.w.cid;
        copies.push(("bound".into(), x));
        if defs_map(b).len() > 1 {
            let mut d = defs_map(b);
            let ps: Vec<u16> = d.keys().copied().take(2).collect();
            let (a, c) = (d[&ps[0]].clone(), d[&ps[1]].clone());
            d.insert(ps[0], c);
            d.insert(ps[1], a);
            let mut x = b.clone();
            x.defined_seals = mk_seals::<S>(d);
            copies.push(("swapped-seals".into(), x));
        }
        for (name, c) in copies {
            for j in 0..=n {
                let mut x = blocks.to_vec();
                x.insert(j, c.clone());
                v.push((format!("copy-{i}-{name}-at-{j}"), x));
            }
        }
    }
    for k in 0..=n {
        if k < n {
            v.push((format!("cut-{k}"), blocks[..k].to_vec()));
        }
    }
    v
}

/// Every single deviation.
pub fn deviate<S: Kit>(h: &Hist<S>, blocks: &[Block<S>]) -> Vec<Dev<S>> {
    let mut v = vec![];
    for i in 0..blocks.len() {
        for (n, b) in deviate_block(h, blocks, i) {
            let mut x = blocks.to_vec();
            x[i] = b;
            v.push((format!("b{i}:{n}"), x));
        }
    }
    v.extend(deviate_list(h, blocks));
    v
}

pub fn sub<S: Kit>(h: &Hist<S>, mask: u32) -> Vec<Block<S>> {
    h.steps.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| s.block()).collect()
}

/// All orders of the given steps in which each follows what it depends on (genesis first).
pub fn linear_extensions<S: Kit>(h: &Hist<S>, mask: u32, limit: usize) -> Vec<Vec<usize>> {
    let n = h.steps.len();
    let deps: Vec<BTreeSet<usize>> = (0..n).map(|i| h.deps(i).into_iter().filter(|d| mask >> d & 1 == 1).collect()).collect();
    let mut res = vec![];
    fn rec(n: usize, mask: u32, deps: &[BTreeSet<usize>], cur: &mut Vec<usize>, res: &mut Vec<Vec<usize>>, limit: usize) {
        if res.len() >= limit {
            return;
        }
        if cur.len() == mask.count_ones() as usize {
            res.push(cur.clone());
            return;
        }
        for i in 0..n {
            if mask >> i & 1 == 1 && !cur.contains(&i) && deps[i].iter().all(|d| cur.contains(d)) && (i == 0 || cur.first() == Some(&0)) {
                cur.push(i);
                rec(n, mask, deps, cur, res, limit);
                cur.pop();
            }
        }
    }
    rec(n, mask, &deps, &mut vec![], &mut res, limit);
    res
}
