//! C20: consignment entries survive cloning, strict encoding and serde serialization.
use std::collections::{BTreeMap, HashSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use strict_encoding::{StreamReader, StrictDecode, StrictEncode, StrictReader, StrictWriter};
use ultrasonic::{fe256, CellAddr, Input, Opid, StateCell, StateData, StateValue};

use crate::base::*;
use crate::led::*;
use crate::rep::*;
use crate::seal::*;
use crate::spec::op_eq;
use crate::world::*;

const MAX: usize = 1 << 30;

pub fn strict<T: StrictEncode>(v: &T) -> Vec<u8> {
    v.strict_encode(StrictWriter::in_memory::<MAX>()).expect("in-memory encoding").unbox().unconfine()
}

/// What the property talks about, for a seal protocol.
pub trait Wire: Kit {
    fn enc(b: &Block<Self>) -> Result<Vec<u8>, String>;
    /// the decoded entry and the number of bytes consumed
    fn dec(data: &[u8]) -> Result<(Block<Self>, usize), String>;
    fn to_json(b: &Block<Self>) -> Result<String, String>;
    fn of_json(s: &str) -> Result<Block<Self>, String>;
    fn to_value(b: &Block<Self>) -> Result<serde_json::Value, String>;
    fn of_value(v: serde_json::Value) -> Result<Block<Self>, String>;
    /// entries with unusual witnesses and definitions, particular to the protocol
    fn special(h: &Hist<Self>) -> Vec<(String, Block<Self>)>;
}
macro_rules! wire {
    ($ty:ty, $special:expr) => {
        impl Wire for $ty {
            fn enc(b: &Block<Self>) -> Result<Vec<u8>, String> {
                b.strict_encode(StrictWriter::in_memory::<MAX>()).map(|w| w.unbox().unconfine()).map_err(|e| e.to_string())
            }
            fn dec(data: &[u8]) -> Result<(Block<Self>, usize), String> {
                let mut r = StrictReader::with(StreamReader::cursor::<MAX>(data));
                let b = Block::<Self>::strict_decode(&mut r).map_err(|e| e.to_string())?;
                Ok((b, r.into_cursor().position() as usize))
            }
            fn to_json(b: &Block<Self>) -> Result<String, String> { serde_json::to_string(b).map_err(|e| e.to_string()) }
            fn of_json(s: &str) -> Result<Block<Self>, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
            fn to_value(b: &Block<Self>) -> Result<serde_json::Value, String> { serde_json::to_value(b).map_err(|e| e.to_string()) }
            fn of_value(v: serde_json::Value) -> Result<Block<Self>, String> { serde_json::from_value(v).map_err(|e| e.to_string()) }
            fn special(h: &Hist<Self>) -> Vec<(String, Block<Self>)> { $special(h) }
        }
    };
}
wire!(MSeal, |_| vec![]);
#[cfg(feature = "btc")]
wire!(bp::seals::TxoSeal, crate::btc::special_entries);

fn wit_eq<S: Kit>(a: &Option<Wit<S>>, b: &Option<Wit<S>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            a.published == b.published
                && a.client == b.client
                && strict(&a.published) == strict(&b.published)
                && strict(&a.client) == strict(&b.client)
        }
        _ => false,
    }
}
pub fn entry_diff<S: Kit>(a: &Block<S>, b: &Block<S>) -> Option<&'static str> {
    if !op_eq(&a.operation, &b.operation) || strict(&a.operation) != strict(&b.operation) {
        return Some("the operation");
    }
    let l: Vec<_> = a.defined_seals.iter().collect();
    let r: Vec<_> = b.defined_seals.iter().collect();
    if l != r {
        return Some("the seal definitions");
    }
    if !wit_eq::<S>(&a.witness, &b.witness) {
        return Some("the witness");
    }
    None
}

/// The entry with the tokens of its cells cut to 30 bytes, if any of them is longer.
fn cut_tokens<S: Kit>(b: &Block<S>) -> Option<Block<S>> {
    let mut x = b.clone();
    let mut any = false;
    for k in 0..b.operation.destructible_out.len() {
        let mut t = b.operation.destructible_out[k].auth.to_fe256().to_u256().to_le_bytes();
        if t[30] != 0 || t[31] != 0 {
            t[30] = 0;
            t[31] = 0;
            x.operation.destructible_out[k].auth = token_raw(t);
            any = true;
        }
    }
    any.then_some(x)
}

/// Is decoding of prefixes to be explored byte by byte?
fn roundtrip<S: Wire>(rep: &mut Rep, b: &Block<S>, prefixes: bool) {
    let dump = || dump_blocks(std::slice::from_ref(b));
    rep.st.evals += 1;
    rep.st.families.entry(rep.family.clone()).or_default().evals += 1;
    let mut bad: Vec<String> = vec![];
    // known finding: tokens outside of the 30-byte range are cut by their textual form
    let cut = cut_tokens(b);
    let mut known = 0;
    let mut same = |how: &str, r: Result<Block<S>, String>| match r {
        Ok(x) => {
            if let Some(d) = entry_diff::<S>(b, &x) {
                if how.starts_with("serialization") && cut.as_ref().is_some_and(|c| entry_diff::<S>(c, &x).is_none()) {
                    known += 1;
                } else {
                    bad.push(format!("{d} changed by {how}"));
                }
            }
        }
        Err(e) => bad.push(format!("{how} fails: {e}")),
    };
    same("cloning", Ok(b.clone()));
    // as text and as a document (dependencies support self-describing formats only)
    same("serialization as text", S::to_json(b).and_then(|j| S::of_json(&j)));
    same("serialization as a document", S::to_value(b).and_then(|j| S::of_value(j)));
    let enc = S::enc(b);
    match &enc {
        Err(e) => same("strict encoding", Err(e.clone())),
        Ok(enc) => {
            let r = S::dec(enc);
            let used = r.as_ref().map(|r| r.1).unwrap_or(enc.len());
            same("strict encoding", r.map(|r| r.0));
            if used != enc.len() {
                bad.push(format!("decoding consumes {used} of {} bytes", enc.len()));
            }
            // the layout
            let mut want = strict(&b.operation);
            let mut bounds = vec![0, want.len() / 2, want.len()];
            want.extend((b.defined_seals.len() as u16).to_le_bytes());
            bounds.push(want.len());
            for (pos, def) in &b.defined_seals {
                want.extend(pos.to_le_bytes());
                want.extend(strict(def));
            }
            bounds.push(want.len());
            match &b.witness {
                None => want.push(0),
                Some(w) => {
                    want.push(1);
                    bounds.push(want.len());
                    want.extend(strict(&w.published));
                    bounds.push(want.len());
                    want.extend(strict(&w.client));
                    bounds.push(want.len() - 1);
                }
            }
            if *enc != want {
                bad.push("the encoding is not the operation, the definitions and the witness in this order".to_string());
            }
            // bytes which follow do not matter and are not consumed
            let mut more = enc.clone();
            more.extend([0xFF; 3]);
            match S::dec(&more) {
                Ok((x, n)) if n == enc.len() && entry_diff::<S>(b, &x).is_none() => {}
                Ok((_, n)) => bad.push(format!("decoding within a stream consumes {n} of {} bytes or changes the entry", enc.len())),
                Err(e) => bad.push(format!("decoding within a stream fails: {e}")),
            }
            let cuts: Vec<usize> = if prefixes { (0..enc.len()).collect() } else { bounds };
            for k in cuts {
                if k >= enc.len() {
                    continue;
                }
                rep.st.transitions += 1;
                if S::dec(&enc[..k]).is_ok() {
                    bad.push(format!("a prefix of {k} of {} bytes is decoded as an entry", enc.len()));
                    break;
                }
            }
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            fnv(&mut h, enc);
            rep.st.states.insert(h);
        }
    }
    for _ in 0..known {
        rep.known_finding("C20:token-range");
    }
    rep.outcome(if bad.is_empty() { "unchanged" } else { "changed" });
    for m in bad {
        rep.violation(m, dump);
    }
}

fn fe(v: [u8; 32]) -> fe256 { fe256::from(v) }

/// Entries for every combination of the variants of the fields.
fn grid<S: Wire>(th: bool) -> Vec<(String, Block<S>)> {
    let h = &bases::<S>()[3];
    let base = h.steps[1].block();
    let (m, z) = (fe([0xFF; 32]), fe256::ZERO);
    let o = {
        let mut b = [0u8; 32];
        b[31] = 0x80;
        b[0] = 1;
        fe(b)
    };
    let vals = [
        StateValue::None,
        StateValue::Single { first: m },
        StateValue::Double { first: z, second: o },
        StateValue::Triple { first: o, second: z, third: m },
        StateValue::Quadruple { first: z, second: o, third: m, fourth: z },
    ];
    let addrs = [
        CellAddr::new(h.steps[0].opid, 0),
        CellAddr::new(Opid::from_byte_array([0xFF; 32]), 65535),
        CellAddr::new(Opid::from_byte_array([0; 32]), 256),
    ];
    let d = |k: usize| -> Def<S> {
        match k {
            0 => S::abs(1),
            1 => S::rel(0, 0),
            2 => S::rel(u32::MAX, 1),
            3 => S::retweak(&S::abs(u32::MAX), 1),
            _ => S::retweak(&S::abs(7), 78),
        }
    };
    let mut v: Vec<(String, Block<S>)> = vec![];
    let mut push = |n: String, b: Block<S>| v.push((n, b));
    // operation, field by field (with and without the rest)
    let bare = {
        let mut b = base.clone();
        b.operation.destructible_in = Confined::try_from(vec![]).unwrap();
        b.operation.immutable_in = Confined::try_from(vec![]).unwrap();
        b.operation.destructible_out = Confined::try_from(vec![]).unwrap();
        b.operation.immutable_out = Confined::try_from(vec![]).unwrap();
        b.defined_seals = mk_seals::<S>(BTreeMap::new());
        b.witness = None;
        b
    };
    for (bn, bb) in [("bare", &bare), ("full", &base)] {
        for call in [0u16, 1, 255, 256, 0xFFFF] {
            for (ni, nonce) in [z, m, o].into_iter().enumerate() {
                let mut b = bb.clone();
                b.operation.call_id = call;
                b.operation.nonce = nonce;
                push(format!("{bn}-call={call}-nonce{ni}"), b);
            }
        }
        for id in [[0u8; 32], [0xFF; 32], h.w.codex_id.to_byte_array()] {
            let mut b = bb.clone();
            b.operation.contract_id = id.into();
            push(format!("{bn}-contract={:02x}", id[0]), b);
        }
        for (i, x) in vals.iter().enumerate() {
            let mut b = bb.clone();
            b.operation.witness = *x;
            push(format!("{bn}-opwitness{i}"), b);
            for n in 1..=2usize {
                for (a, addr) in addrs.iter().enumerate() {
                    let mut b = bb.clone();
                    b.operation.destructible_in =
                        Confined::try_from((0..n).map(|k| Input { addr: addrs[(a + k) % 3], witness: vals[(i + k) % 5] }).collect::<Vec<_>>()).unwrap();
                    push(format!("{bn}-in{n}-{a}-{i}"), b);
                    let mut b = bb.clone();
                    b.operation.immutable_in = Confined::try_from((0..n).map(|k| addrs[(a + k) % 3]).collect::<Vec<_>>()).unwrap();
                    let _ = addr;
                    if i == 0 {
                        push(format!("{bn}-read{n}-{a}"), b);
                    }
                }
                for (ri, raw) in [None, Some(vec![]), Some(vec![0u8]), Some(vec![0xFFu8; 300])].into_iter().enumerate() {
                    let mut b = bb.clone();
                    b.operation.immutable_out = Confined::try_from(
                        (0..n)
                            .map(|k| StateData {
                                value: vals[(i + k) % 5],
                                raw: if k == 0 { raw.clone().map(|r| Confined::try_from(r).unwrap()).map(ultrasonic::RawData::from) } else { None },
                            })
                            .collect::<Vec<_>>(),
                    )
                    .unwrap();
                    push(format!("{bn}-imm{n}-raw{ri}-{i}"), b);
                }
                for (li, lck) in
                    [None, lock(&lib_lock_ok()), lock_aux(), lock_nolib(), Some(ultrasonic::CellLock { aux: vals[4], script: lock(&lib_keep()).unwrap().script })]
                        .into_iter()
                        .enumerate()
                {
                    for (ti, tok) in [token_raw([0; 32]), token_raw([0xFF; 32]), S::s_token(&d(2))].into_iter().enumerate() {
                        let mut b = bb.clone();
                        b.operation.destructible_out = Confined::try_from(
                            (0..n)
                                .map(|k| StateCell { data: vals[(i + k) % 5], auth: tok, lock: if k == 0 { lck } else { None } })
                                .collect::<Vec<_>>(),
                        )
                        .unwrap();
                        push(format!("{bn}-out{n}-lock{li}-token{ti}-{i}"), b);
                    }
                }
            }
        }
        // definitions: every subset of the positions, every kind at each
        let poss = [0u16, 1, 255, 256, 65535];
        for mask in 0..32u32 {
            for k in 0..5usize {
                let mut defs = BTreeMap::new();
                for (i, p) in poss.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        defs.insert(*p, d((i + k) % 5));
                    }
                }
                let mut b = bb.clone();
                b.defined_seals = mk_seals::<S>(defs);
                push(format!("{bn}-defs{mask:05b}-{k}"), b);
                if mask == 0 {
                    break;
                }
            }
        }
        for n in [127usize, 128, 255, 256, 300, if th { 65535 } else { 4096 }] {
            let mut b = bb.clone();
            b.defined_seals = mk_seals::<S>((0..n).map(|i| (i as u16, S::abs(i as u32))).collect());
            push(format!("{bn}-defs-{n}"), b);
        }
        // witnesses
        let mut wits: Vec<(String, Option<Wit<S>>)> = vec![("none".into(), None)];
        for n in [0u32, 1, 2, 3, 130, 300] {
            let ss: Vec<S> = (0..n).map(|i| S::s_abs(&S::abs(i)).unwrap()).collect();
            let cl: Vec<Closing<S>> = ss.iter().map(|s| (Some(*s), h.steps[1].opid)).collect();
            for salt in [0u32, 1, u32::MAX] {
                let w = S::mk_witness(salt, &ss, &cl);
                for (mn, x) in S::mutate(&w) {
                    wits.push((format!("{n}-{salt}-{mn}-{}", wits.len()), Some(x)));
                }
                wits.push((format!("{n}-{salt}"), Some(w)));
            }
        }
        for (n, w) in wits {
            let mut b = bb.clone();
            b.witness = w;
            push(format!("{bn}-witness-{n}"), b);
        }
    }
    for (n, b) in S::special(h) {
        push(n, b);
    }
    // the operation of everything at its largest
    for n in [255usize, 256, if th { 65535 } else { 5000 }] {
        let mut b = base.clone();
        b.operation.destructible_in =
            Confined::try_from((0..n).map(|k| Input { addr: CellAddr::new(h.w.gid, k as u16), witness: vals[k % 5] }).collect::<Vec<_>>()).unwrap();
        b.operation.immutable_in = Confined::try_from((0..n).map(|k| CellAddr::new(h.w.gid, k as u16)).collect::<Vec<_>>()).unwrap();
        b.operation.destructible_out = Confined::try_from(
            (0..n).map(|k| StateCell { data: vals[k % 5], auth: token_raw([k as u8; 32]), lock: None }).collect::<Vec<_>>(),
        )
        .unwrap();
        b.operation.immutable_out = Confined::try_from((0..n).map(|k| StateData { value: vals[k % 5], raw: None }).collect::<Vec<_>>()).unwrap();
        b.defined_seals = mk_seals::<S>((0..n).map(|i| (i as u16, d(i % 5))).collect());
        v.push((format!("largest-{n}"), b));
    }
    v
}

fn fields<S: Wire>(g: &Global, t: &mut Stats, th: bool) {
    let entries = grid::<S>(th);
    par(g, t, &format!("encoding-fields-{}", S::NAME), entries.len(), |i, rep| {
        let (n, b) = &entries[i];
        if rep.case(|| n.clone()) {
            let small = S::enc(b).map(|e| e.len() < 3000).unwrap_or(false);
            roundtrip::<S>(rep, b, small);
        }
    });
}

fn histories<S: Wire>(g: &Global, t: &mut Stats, th: bool) {
    let hs = bases::<S>();
    for h in &hs {
        let blocks = h.blocks();
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut list: Vec<(String, Block<S>)> = vec![];
        for (i, b) in blocks.iter().enumerate() {
            for (n, x) in [("as-is".to_string(), b.clone())].into_iter().chain(deviate_block(h, &blocks, i)) {
                let k = S::enc(&x).unwrap_or_default();
                if k.is_empty() || seen.insert(k) {
                    list.push((format!("b{i}:{n}"), x));
                }
            }
        }
        par(g, t, &format!("encoding-entries-{}-{}", h.name, S::NAME), list.len(), |i, rep| {
            let (n, b) = &list[i];
            if rep.case(|| n.clone()) {
                roundtrip::<S>(rep, b, th || n.ends_with(":as-is"));
            }
        });
        // consignments: written as a stream, read back, evaluated
        let mut devs: Vec<Dev<S>> = vec![("as-is".into(), blocks.clone())];
        devs.extend(deviate(h, &blocks));
        let store = Store::fresh(&h.w);
        par(g, t, &format!("encoding-evaluation-{}-{}", h.name, S::NAME), devs.len(), |i, rep| {
            let (n, blocks) = &devs[i];
            if !rep.case(|| n.clone()) {
                return;
            }
            rep.st.evals += 1;
            rep.st.transitions += blocks.len() as u64;
            rep.st.families.entry(rep.family.clone()).or_default().evals += 1;
            let orig = run_engine(&h.w, store.clone(), &[], blocks.clone(), vec![], &Plan::default());
            rep.outcome(orig.verdict.kind());
            let want = outcome_text(&orig);
            // known finding: see above; such a consignment is compared with what it is cut to
            let cut: Vec<Block<S>> = blocks.iter().map(|b| cut_tokens(b).unwrap_or_else(|| b.clone())).collect();
            let is_cut = blocks.iter().any(|b| cut_tokens(b).is_some());
            let orig_cut = is_cut.then(|| run_engine(&h.w, store.clone(), &[], cut.clone(), vec![], &Plan::default()));
            for how in ["strict", "text", "document"] {
                let res: Result<Vec<Block<S>>, String> = match how {
                    "strict" => (|| {
                        let mut data = vec![];
                        for b in blocks {
                            data.extend(S::enc(b)?);
                        }
                        let mut v = vec![];
                        let mut at = 0;
                        while at < data.len() {
                            let (b, n) = S::dec(&data[at..])?;
                            v.push(b);
                            at += n;
                        }
                        Ok(v)
                    })(),
                    "text" => blocks.iter().map(|b| S::of_json(&S::to_json(b)?)).collect(),
                    _ => blocks.iter().map(|b| S::of_value(S::to_value(b)?)).collect(),
                };
                match res {
                    Err(e) => rep.violation(format!("the consignment can't be read back ({how}): {e}"), || dump_blocks(blocks)),
                    Ok(v) => {
                        let out = run_engine(&h.w, store.clone(), &[], v, vec![], &Plan::default());
                        let got = outcome_text(&out);
                        if let (Some(o), true) = (&orig_cut, how != "strict") {
                            if got == outcome_text(o) && out.st.full_digest() == o.st.full_digest() {
                                rep.known_finding("C20:token-range");
                                continue;
                            }
                        }
                        if got != want || out.st.full_digest() != orig.st.full_digest() {
                            rep.violation(
                                format!(
                                    "the consignment read back ({how}) evaluates differently: {} instead of {}",
                                    out.verdict.text(),
                                    orig.verdict.text()
                                ),
                                || dump_blocks(blocks),
                            );
                        }
                    }
                }
            }
        });
    }
}

pub fn encodings(g: &Global, t: &mut Stats, th: bool) {
    fields::<MSeal>(g, t, th);
    histories::<MSeal>(g, t, th);
    #[cfg(feature = "btc")]
    {
        fields::<bp::seals::TxoSeal>(g, t, th);
        histories::<bp::seals::TxoSeal>(g, t, th);
    }
}
