//! The bitcoin seal protocol: an independent statement of what it means, builders, and the
//! explorations specific to it (C04 finding, C18, C19, C23).
use std::collections::{BTreeMap, BTreeSet, HashMap};

use amplify::confinement::Confined;
use amplify::num::u5;
use amplify::{ByteArray, Bytes};
use bp::dbc::tapret::{TapretCommitment, TapretPathProof, TapretProof};
use bp::seals::mpc::{MessageMap, MessageSource, ProtocolId};
use bp::seals::{mmb, mpc, Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
use bp::{
    InternalPk, LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, TapLeafHash, TapScript, Tx, TxIn, TxOut, Txid, Vout,
};
use commit_verify::{CommitId, CommitVerify, DigestExt, Sha256};
use rgbcore::RgbSealDef;
use single_use_seals::SealWitness;
use ultrasonic::{AuthToken, CellAddr, Opid, StateValue};

use crate::led::*;
use crate::rep::*;
use crate::spec::Expect;
use crate::seal::*;
use crate::world::*;

pub const PROTO: [u8; 32] = [0xAD; 32];
pub const PROTO2: [u8; 32] = [0x1C; 32];

pub fn pk() -> InternalPk {
    // the generator point: a valid x-only key
    InternalPk::from_byte_array([
        0x79, 0xBE, 0x66, 0x7E, 0xF9, 0xDC, 0xBB, 0xAC, 0x55, 0xA0, 0x62, 0x95, 0xCE, 0x87, 0x0B, 0x07, 0x02, 0x9B, 0xFC, 0xDB,
        0x2D, 0xCE, 0x28, 0xD9, 0x59, 0xF2, 0x81, 0x5B, 0x16, 0xF8, 0x17, 0x98,
    ])
    .unwrap()
}
pub fn pk2() -> InternalPk {
    // 2*G
    InternalPk::from_byte_array([
        0xC6, 0x04, 0x7F, 0x94, 0x41, 0xED, 0x7D, 0x6D, 0x30, 0x45, 0x40, 0x6E, 0x95, 0xC0, 0x7C, 0xD8, 0x5C, 0x77, 0x8E, 0x4B,
        0x8C, 0xEF, 0x3C, 0xA7, 0xAB, 0xAC, 0x09, 0xB9, 0x5C, 0x70, 0x9E, 0xE5,
    ])
    .unwrap()
}
pub fn ext_txid() -> Txid { Txid::from_byte_array([0xE0; 32]) }
pub fn noise(t: u32) -> TxoSealExt {
    let mut b = [0u8; 40];
    b[..4].copy_from_slice(&t.to_le_bytes());
    TxoSealExt::Noise(Noise::from(Bytes::from_byte_array(b)))
}
fn second(t: u32) -> TxoSealExt {
    if t % 2 == 1 {
        TxoSealExt::Fallback(Outpoint::new(Txid::from_byte_array([0xFA; 32]), t))
    } else {
        noise(t)
    }
}

pub fn bundle(map: &BTreeMap<u32, [u8; 32]>) -> mmb::BundleProof {
    mmb::BundleProof { map: Confined::try_from_iter(map.iter().map(|(k, v)| (*k, mmb::Message::from_byte_array(*v)))).unwrap() }
}
pub fn tree(sources: &[([u8; 32], mmb::BundleProof)]) -> mpc::MerkleTree {
    let messages: BTreeMap<ProtocolId, MessageSource> =
        sources.iter().map(|(p, b)| (ProtocolId::from_byte_array(*p), MessageSource::Mmb(b.clone()))).collect();
    mpc::Source { min_depth: u5::with(3), entropy: 0xFE, messages: MessageMap::from(Confined::try_from(messages).unwrap()) }
        .into_merkle_tree()
        .unwrap()
}
pub fn proof_of(tree: &mpc::MerkleTree, proto: [u8; 32]) -> mpc::MerkleProof {
    let p = ProtocolId::from_byte_array(proto);
    tree.clone().into_proofs().find(|(x, _)| *x == p).unwrap().1
}
pub fn tapret_spk(commit: mpc::Commitment, key: InternalPk, nonce: u8) -> ScriptPubkey {
    let script = TapScript::commit(&TapretCommitment::with(commit, nonce));
    ScriptPubkey::p2tr(key, Some(TapLeafHash::with_tap_script(&script).into()))
}
pub fn txin(o: Outpoint) -> TxIn {
    TxIn { prev_output: o, sig_script: Default::default(), sequence: SeqNo::ZERO, witness: Default::default() }
}
pub fn txout(s: ScriptPubkey) -> TxOut { TxOut { value: Sats::ZERO, script_pubkey: s } }
pub fn mk_tx(salt: u32, ins: &[Outpoint], outs: Vec<TxOut>) -> Tx {
    Tx {
        version: Default::default(),
        inputs: Confined::try_from(ins.iter().map(|o| txin(*o)).collect::<Vec<_>>()).unwrap(),
        outputs: Confined::try_from(outs).unwrap(),
        lock_time: LockTime::from_consensus_u32(salt),
    }
}
/// A complete witness: inputs, bundle map, commitment.
pub fn build(salt: u32, ins: &[Outpoint], map: &BTreeMap<u32, [u8; 32]>, tapret: bool) -> SealWitness<TxoSeal> {
    let b = bundle(map);
    let t = tree(&[(PROTO, b.clone())]);
    let commit = t.commit_id();
    let proof = TapretProof { path_proof: TapretPathProof::root(0), internal_pk: pk() };
    let spk = if tapret { tapret_spk(commit, pk(), 0) } else { ScriptPubkey::op_return(commit.as_slice()) };
    let anchor = Anchor {
        mmb_proof: b,
        mpc_protocol: ProtocolId::from_byte_array(PROTO),
        mpc_proof: proof_of(&t, PROTO),
        dbc_proof: tapret.then_some(proof),
        fallback_proof: Default::default(),
    };
    SealWitness::new(mk_tx(salt, ins, vec![txout(spk)]), anchor)
}
/// The noise is opaque but for its hexadecimal display.
fn noise_bytes(n: &Noise) -> Vec<u8> {
    let h = n.to_string();
    assert_eq!(h.len(), 80);
    (0..40).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn is_opret(s: &[u8]) -> bool { s.first() == Some(&0x6a) }
fn is_p2tr(s: &[u8]) -> bool { s.len() == 34 && s[0] == 0x51 && s[1] == 0x20 }

impl Kit for TxoSeal {
    const NAME: &'static str = "bitcoin";

    fn s_token(def: &WTxoSeal) -> AuthToken {
        let mut b = vec![];
        let outpoint = |b: &mut Vec<u8>, o: &Outpoint| {
            b.extend(o.txid.to_byte_array());
            b.extend(o.vout.to_u32().to_le_bytes());
        };
        match &def.primary {
            WOutpoint::Wout(v) => {
                b.push(0);
                b.extend(v.to_u32().to_le_bytes());
            }
            WOutpoint::Extern(o) => {
                b.push(1);
                outpoint(&mut b, o);
            }
        }
        match &def.secondary {
            TxoSealExt::Noise(n) => {
                b.push(0);
                b.extend(noise_bytes(n));
            }
            TxoSealExt::Fallback(o) => {
                b.push(1);
                outpoint(&mut b, o);
            }
        }
        let mut e = Sha256::from_tag("urn:ubideco:strict-types:value-hash#2024-02-10");
        e.input_raw(&b);
        let h = e.finish();
        let mut t = [0u8; 32];
        t[..30].copy_from_slice(&h[..30]);
        token_raw(t)
    }
    fn s_abs(def: &WTxoSeal) -> Option<Self> {
        match def.primary {
            WOutpoint::Wout(_) => None,
            WOutpoint::Extern(primary) => Some(TxoSeal { primary, secondary: def.secondary }),
        }
    }
    fn s_rel(def: &WTxoSeal, wid: Txid) -> Self {
        let WOutpoint::Wout(v) = def.primary else { panic!("harness: not relative") };
        TxoSeal { primary: Outpoint::new(wid, v), secondary: def.secondary }
    }
    fn s_wid(w: &Wit<Self>) -> Txid { w.published.txid() }
    fn s_included(&self, w: &Wit<Self>, msg: [u8; 32]) -> bool {
        // the number of the (first) input spending the outpoint must be mapped to the message
        for (no, i) in w.published.inputs.iter().enumerate() {
            if i.prev_output.txid == self.primary.txid && i.prev_output.vout == self.primary.vout {
                return w.client.mmb_proof.map.iter().any(|(k, m)| *k == no as u32 && m.to_byte_array() == msg);
            }
        }
        false
    }
    fn s_committed(w: &Wit<Self>, msg: [u8; 32]) -> bool {
        let a = &w.client;
        if !a.mmb_proof.map.iter().any(|(_, m)| m.to_byte_array() == msg) {
            return false;
        }
        let bundle_id = mpc::Message::from_byte_array(a.mmb_proof.commit_id().to_byte_array());
        let Ok(commit) = a.mpc_proof.convolve(a.mpc_protocol, bundle_id) else { return false };
        let Some(spk) = w.published.outputs.iter().map(|o| o.script_pubkey.as_slice()).find(|s| is_opret(s) || is_p2tr(s)) else {
            return false;
        };
        match &a.dbc_proof {
            None => is_opret(spk) && spk.len() == 34 && spk[1] == 0x20 && spk[2..] == commit.to_byte_array(),
            Some(p) => {
                is_p2tr(spk) && p.path_proof.partner_node().is_none() && spk == tapret_spk(commit, p.internal_pk, p.path_proof.nonce()).as_slice()
            }
        }
    }

    fn abs(n: u32) -> WTxoSeal { WTxoSeal { primary: WOutpoint::Extern(Outpoint::new(ext_txid(), n)), secondary: second(0) } }
    fn rel(no: u32, tweak: u32) -> WTxoSeal { WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(no)), secondary: second(tweak) } }
    fn retweak(def: &WTxoSeal, tweak: u32) -> WTxoSeal { WTxoSeal { primary: def.primary, secondary: second(tweak) } }
    fn mk_witness(salt: u32, spends: &[Self], closes: &[Closing<Self>]) -> Wit<Self> {
        let mut ins: Vec<Outpoint> = vec![];
        for s in spends {
            if !ins.contains(&s.primary) {
                ins.push(s.primary);
            }
        }
        let mut map = BTreeMap::new();
        let mut free = 1000;
        for (s, o) in closes {
            let no = s.and_then(|s| ins.iter().position(|i| *i == s.primary));
            let no = match no {
                Some(n) => n as u32,
                None => {
                    free += 1;
                    free
                }
            };
            map.insert(no, o.to_byte_array());
        }
        build(salt, &ins, &map, salt % 4 == 3)
    }
    fn mutate(w: &Wit<Self>) -> Vec<(&'static str, Wit<Self>)> {
        let mut res = vec![];
        let salt = w.published.lock_time.to_consensus_u32();
        let ins: Vec<Outpoint> = w.published.inputs.iter().map(|i| i.prev_output).collect();
        let map: BTreeMap<u32, [u8; 32]> = w.client.mmb_proof.map.iter().map(|(k, v)| (*k, v.to_byte_array())).collect();
        let tapret = w.client.dbc_proof.is_some();
        let mut x = w.clone();
        x.client.mpc_protocol = ProtocolId::from_byte_array([0xAE; 32]);
        res.push(("client-broken", x));
        let mut x = w.clone();
        for o in &mut x.published.outputs {
            let mut s = o.script_pubkey.as_slice().to_vec();
            if tapret {
                o.script_pubkey = ScriptPubkey::p2tr(pk2(), None);
            } else {
                let n = s.len() - 1;
                s[n] ^= 1;
                o.script_pubkey = ScriptPubkey::try_from(s).unwrap();
            }
        }
        res.push(("commit-broken", x));
        let mut x = w.clone();
        x.published.inputs = Default::default();
        res.push(("spends-none", x));
        let mut x = w.clone();
        x.published.lock_time = LockTime::from_consensus_u32(salt ^ 0x4000);
        res.push(("other-id", x));
        let mut x = w.clone();
        x.client.dbc_proof =
            if tapret { None } else { Some(TapretProof { path_proof: TapretPathProof::root(0), internal_pk: pk() }) };
        res.push(("dbc-proof-kind", x));
        let mut x = w.clone();
        let mut outs = x.published.outputs.to_vec();
        outs.insert(0, txout(ScriptPubkey::p2tr(pk2(), None)));
        x.published.outputs = Confined::try_from(outs).unwrap();
        res.push(("output-before", x));
        let pick = |n: usize| -> Vec<usize> { if n > 4 { vec![0, n - 1] } else { (0..n).collect() } };
        for k in pick(ins.len()) {
            let mut i2 = ins.clone();
            i2.remove(k);
            res.push(("spends-all-but-one", build(salt, &i2, &map, tapret)));
            let mut i2 = ins.clone();
            i2[k].vout = Vout::from_u32(i2[k].vout.to_u32() ^ 1);
            res.push(("prevout", build(salt, &i2, &map, tapret)));
        }
        if ins.len() > 1 {
            let mut i2 = ins.clone();
            i2.swap(0, 1);
            res.push(("input-order", build(salt, &i2, &map, tapret)));
        }
        let keys: Vec<u32> = map.keys().copied().collect();
        for k in pick(keys.len()) {
            let mut m = map.clone();
            m.get_mut(&keys[k]).unwrap()[31] ^= 1;
            res.push(("other-message-for-one", build(salt, &ins, &m, tapret)));
            m.remove(&keys[k]);
            res.push(("message-dropped-for-one", build(salt, &ins, &m, tapret)));
        }
        let mut m = map.clone();
        m.insert(777, [7; 32]);
        let mut x = w.clone();
        x.client.mmb_proof = bundle(&m);
        res.push(("client-map-extended-uncommitted", x));
        res.push(("client-map-extended-committed", build(salt, &ins, &m, tapret)));
        res
    }
    fn outpoint(&self) -> (Vec<u8>, u32) { (self.primary.txid.to_byte_array().to_vec(), self.primary.vout.to_u32()) }
}

// ------------------------------------------------------------------------------------------------
// C18, C19
// ------------------------------------------------------------------------------------------------

fn bits(n: usize) -> impl Iterator<Item = usize> { 0..n * 8 }

fn vouts() -> Vec<u32> {
    let mut v = vec![0, 1, 2, 255, 256, 65535, 65536, u32::MAX - 1, u32::MAX];
    v.extend((0..32).map(|b| 1u32 << b));
    v.sort();
    v.dedup();
    v
}
fn txids(all: bool) -> Vec<Txid> {
    let mut v: Vec<[u8; 32]> = vec![[0; 32], [0xFF; 32], [0xE0; 32]];
    if all {
        for b in bits(32) {
            for base in [[0u8; 32], [0xE0; 32]] {
                let mut t = base;
                t[b / 8] ^= 1 << (b % 8);
                v.push(t);
            }
        }
    }
    v.sort();
    v.dedup();
    v.into_iter().map(Txid::from_byte_array).collect()
}
fn outpoints(all: bool) -> Vec<Outpoint> {
    let mut v = vec![];
    for t in txids(all) {
        v.push(Outpoint::new(t, 0));
    }
    for t in txids(false) {
        for o in vouts() {
            v.push(Outpoint::new(t, o));
        }
    }
    v.sort();
    v.dedup();
    v
}
fn primaries() -> Vec<WOutpoint> {
    vouts().into_iter().map(|v| WOutpoint::Wout(Vout::from_u32(v))).chain(outpoints(true).into_iter().map(WOutpoint::Extern)).collect()
}
fn secondaries(all: bool) -> Vec<TxoSealExt> {
    let mut v: BTreeSet<[u8; 40]> = [[0; 40], [0xFF; 40]].into();
    for base in [[0u8; 40], [0xFF; 40]] {
        for b in bits(40) {
            if !all && b % 13 != 0 {
                continue;
            }
            let mut n = base;
            n[b / 8] ^= 1 << (b % 8);
            v.insert(n);
        }
    }
    v.into_iter()
        .map(|n| TxoSealExt::Noise(Noise::from(Bytes::from_byte_array(n))))
        .chain(outpoints(all).into_iter().map(TxoSealExt::Fallback))
        .collect()
}

pub fn defs(g: &Global, total: &mut Stats, th: bool) {
    let prim = primaries();
    let sec = secondaries(th);
    let wids: Vec<Txid> = txids(false);
    let wids_all: Vec<Txid> = txids(true);
    let n = prim.len();
    let chunk = 8;
    let pieces = n.div_ceil(chunk);
    let tokens: std::sync::Mutex<HashMap<[u8; 32], WTxoSeal>> = Default::default();
    par(g, total, "seal-definitions", pieces, |pi, rep| {
        let mut local = vec![];
        for p in &prim[pi * chunk..((pi + 1) * chunk).min(n)] {
            for (si, s) in sec.iter().enumerate() {
                let def = WTxoSeal { primary: *p, secondary: *s };
                if !rep.case(|| format!("{def}")) {
                    continue;
                }
                rep.st.evals += 1;
                rep.st.transitions += 1;
                let dump = || format!("{def:?}");
                let tok = def.auth_token();
                let raw: [u8; 32] = tok.to_fe256().to_u256().to_le_bytes();
                local.push((raw, def));
                if g.prop == "C18" {
                    let want = TxoSeal::s_token(&def);
                    rep.fail_if(&["C18"], tok != want, || format!("token {tok} of {def} is not the commitment of the definition ({want})"), dump);
                    let twice = { let d = def; d.auth_token() };
                    rep.fail_if(&["C18"], tok != twice, || format!("two tokens of one definition {def}"), dump);
                    let id = def.commit_id().to_byte_array();
                    rep.fail_if(&["C18"], raw[..30] != id[..30], || format!("token of {def} is not the first 30 bytes of the id"), dump);
                    rep.fail_if(&["C18"], raw[30..] != [0, 0], || format!("token of {def} does not fit 30 bytes"), dump);
                    let b30 = { let mut b = [0u8; 30]; b.copy_from_slice(&raw[..30]); b };
                    let back = AuthToken::from_byte_array(b30);
                    rep.fail_if(&["C18"], back != tok || tok.to_byte_array() != b30, || format!("token of {def} does not survive the 30-byte form"), dump);
                }
                if g.prop == "C19" {
                    let want = TxoSeal::s_abs(&def);
                    let src = def.to_src();
                    rep.fail_if(&["C19"], src != want, || format!("{def} converts to {src:?} instead of {want:?}"), dump);
                    let ids = if si < 4 || si % 97 == 0 { &wids_all } else { &wids };
                    for id in ids {
                        rep.st.transitions += 1;
                        let got = def.resolve(*id);
                        let want = TxoSeal::s_abs(&def).unwrap_or_else(|| TxoSeal::s_rel(&def, *id));
                        rep.fail_if(&["C19"], got != want, || format!("{def} resolves to {got} for {id} instead of {want}"), dump);
                    }
                }
            }
        }
        rep.st.states.extend(local.iter().map(|(t, _)| u64::from_le_bytes(t[..8].try_into().unwrap())));
        let clashes: Vec<(WTxoSeal, WTxoSeal)> = {
            let mut m = tokens.lock().unwrap();
            local.iter().filter_map(|(t, d)| m.insert(*t, *d).filter(|o| o != d).map(|o| (o, *d))).collect()
        };
        for (a, b) in clashes {
            rep.fail_if(&["C18"], true, || format!("two definitions with one token: {a} and {b}"), || format!("{a:?}\n{b:?}"));
        }
    });
}

// ------------------------------------------------------------------------------------------------
// C23
// ------------------------------------------------------------------------------------------------

fn follow<S: Kit>(w: &World<S>, addr: CellAddr, seal: S) -> Block<S> {
    let op = mk_op::<S>(w.cid, &OpSpec {
        call: ACCEPT,
        nonce: 777,
        ins: vec![(addr, StateValue::None)],
        reads: vec![],
        outs: vec![],
        imm: vec![],
        witness: StateValue::None,
    });
    let wit = S::mk_witness(778, &[seal], &[(Some(seal), op.opid())]);
    mk_block(op, BTreeMap::new(), Some(wit))
}

fn case(rep: &mut Rep, w: &World<TxoSeal>, blocks: &[Block<TxoSeal>]) -> Expect {
    let mut st = Store::fresh(w);
    rep.eval(w, &mut st, &[], blocks, &Plan::default(), false).1
}

pub fn closings(g: &Global, total: &mut Stats, th: bool) {
    // --- commitments: output sequences x proofs
    let w: World<TxoSeal> = World::new(1, &[out(10, TxoSeal::abs(1)), out(20, TxoSeal::abs(2)), out(30, TxoSeal::retweak(&TxoSeal::abs(3), 1))], &[]);
    let o = |n: u32| Outpoint::new(ext_txid(), n);
    let spend = |k: usize, nonce: u64| {
        mk_op::<TxoSeal>(w.cid, &OpSpec {
            call: ACCEPT,
            nonce,
            ins: (0..k).map(|i| (CellAddr::new(w.gid, i as u16), StateValue::None)).collect(),
            reads: vec![],
            outs: vec![out(1, TxoSeal::rel(0, 0)), out(2, TxoSeal::rel(1, 1)), out(3, TxoSeal::abs(9))],
            imm: vec![],
            witness: StateValue::None,
        })
    };
    let defs: BTreeMap<u16, WTxoSeal> = [(0, TxoSeal::rel(0, 0)), (1, TxoSeal::rel(1, 1)), (2, TxoSeal::abs(9))].into();
    let op = spend(1, 5);
    let opid = op.opid();
    let b = bundle(&[(0, opid.to_byte_array())].into());
    let t = tree(&[(PROTO, b.clone())]);
    let commit = t.commit_id();
    let mut bad = commit.to_byte_array();
    bad[0] ^= 1;
    let bad_commit = mpc::Commitment::from(bad);
    let mut short = vec![0x6a, 0x1f];
    short.extend(&commit.to_byte_array()[..31]);
    let mut long = vec![0x6a, 0x21];
    long.extend(commit.to_byte_array());
    long.push(0);
    let mut pushdata = vec![0x6a, 0x4c, 0x20];
    pushdata.extend(commit.to_byte_array());
    let mut p2wsh = vec![0x00, 0x20];
    p2wsh.extend(commit.to_byte_array());
    let spks: Vec<(&str, ScriptPubkey)> = vec![
        ("plain", ScriptPubkey::try_from(vec![0x51u8]).unwrap()),
        ("opret", ScriptPubkey::op_return(commit.as_slice())),
        ("opret-bad", ScriptPubkey::op_return(bad_commit.as_slice())),
        ("tapret", tapret_spk(commit, pk(), 0)),
        ("tapret-bad", tapret_spk(bad_commit, pk(), 0)),
        ("p2tr", ScriptPubkey::p2tr(pk(), None)),
        ("p2wsh", ScriptPubkey::try_from(p2wsh).unwrap()),
        ("opret-short", ScriptPubkey::try_from(short).unwrap()),
        ("opret-long", ScriptPubkey::try_from(long).unwrap()),
        ("opret-pushdata", ScriptPubkey::try_from(pushdata).unwrap()),
        ("opret-empty", ScriptPubkey::try_from(vec![0x6au8]).unwrap()),
        ("empty", ScriptPubkey::try_from(Vec::<u8>::new()).unwrap()),
    ];
    let tp = |nonce: u8, key: InternalPk| Some(TapretProof { path_proof: TapretPathProof::root(nonce), internal_pk: key });
    let proofs: Vec<(&str, Option<TapretProof>)> =
        vec![("none", None), ("tapret", tp(0, pk())), ("nonce", tp(1, pk())), ("key", tp(0, pk2()))];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let maxlen = if th { 4 } else { 3 };
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..maxlen {
        layer = layer.into_iter().flat_map(|v| (0..spks.len()).map(move |k| { let mut v = v.clone(); v.push(k); v })).collect();
        seqs.extend(layer.iter().cloned());
    }
    par(g, total, "commitment-outputs-bitcoin", seqs.len(), |i, rep| {
        for (pn, proof) in &proofs {
            let names: Vec<&str> = seqs[i].iter().map(|k| spks[*k].0).collect();
            if !rep.case(|| format!("outputs={names:?} proof={pn}")) {
                continue;
            }
            let anchor = Anchor {
                mmb_proof: b.clone(),
                mpc_protocol: ProtocolId::from_byte_array(PROTO),
                mpc_proof: proof_of(&t, PROTO),
                dbc_proof: proof.clone(),
                fallback_proof: Default::default(),
            };
            let tx = mk_tx(3, &[o(1)], seqs[i].iter().map(|k| txout(spks[*k].1.clone())).collect());
            let wit = SealWitness::new(tx, anchor);
            let wid = TxoSeal::s_wid(&wit);
            let blocks = vec![w.gblock(), mk_block(op.clone(), defs.clone(), Some(wit))];
            if case(rep, &w, &blocks).ok {
                // and on: the outputs of this very transaction (and no other) can be closed next
                for (pos, seal) in [
                    (0u16, TxoSeal::s_rel(&defs[&0], wid)),
                    (0, TxoSeal::s_rel(&defs[&1], wid)),
                    (1, TxoSeal::s_rel(&defs[&1], wid)),
                    (0, TxoSeal::s_rel(&defs[&0], ext_txid())),
                    (2, TxoSeal::s_abs(&defs[&2]).unwrap()),
                    (2, TxoSeal::s_rel(&defs[&0], wid)),
                ] {
                    let mut bs = blocks.clone();
                    bs.push(follow(&w, CellAddr::new(opid, pos), seal));
                    case(rep, &w, &bs);
                }
            }
        }
    });
    // --- inputs: sequences of spent outpoints x bundle maps x number of destroyed cells
    let pool = [o(1), o(2), o(3), Outpoint::new(ext_txid(), 0x0101), Outpoint::new(Txid::from_byte_array([0xE1; 32]), 1)];
    let mut inseqs: Vec<Vec<usize>> = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..3 {
        layer = layer.into_iter().flat_map(|v| (0..pool.len()).map(move |k| { let mut v = v.clone(); v.push(k); v })).collect();
        inseqs.extend(layer.iter().cloned());
    }
    par(g, total, "spent-outpoints-bitcoin", inseqs.len() * 3, |i, rep| {
        let (seq, k) = (&inseqs[i / 3], i % 3 + 1);
        let op = spend(k, 6 + k as u64);
        let opid = op.opid();
        let mut other = opid.to_byte_array();
        other[31] ^= 0x80;
        // per map slot 0..3: absent, the operation, another one
        for code in 0..81u32 {
            let mut c = code;
            let mut map = BTreeMap::new();
            for slot in 0..4u32 {
                match c % 3 {
                    1 => {
                        map.insert(slot, opid.to_byte_array());
                    }
                    2 => {
                        map.insert(slot, other);
                    }
                    _ => {}
                }
                c /= 3;
            }
            let tapret = th && code % 5 == 1;
            if !rep.case(|| format!("destroyed={k} spent={seq:?} map={map:?}", map = map.iter().map(|(k, v)| (*k, *v == opid.to_byte_array())).collect::<Vec<_>>())) {
                continue;
            }
            let ins: Vec<Outpoint> = seq.iter().map(|x| pool[*x]).collect();
            let wit = build(9, &ins, &map, tapret);
            case(rep, &w, &[w.gblock(), mk_block(op.clone(), BTreeMap::new(), Some(wit))]);
        }
    });
    // --- multi-protocol commitments: which protocol, which proof, which bundle
    let op2 = spend(1, 55);
    let (ida, idb) = (opid.to_byte_array(), op2.opid().to_byte_array());
    let bundles: Vec<mmb::BundleProof> =
        vec![bundle(&[(0, ida)].into()), bundle(&[(0, idb)].into()), bundle(&[(0, ida), (1, idb)].into()), bundle(&[(0, idb), (1, ida)].into())];
    let nb = bundles.len();
    par(g, total, "protocol-commitments-bitcoin", nb * (nb + 1), |i, rep| {
        let (b1, b2) = (i % nb, i / nb);
        let mut src = vec![(PROTO, bundles[b1].clone())];
        if b2 < nb {
            src.push((PROTO2, bundles[b2].clone()));
        }
        let t = tree(&src);
        let c = t.commit_id();
        for (pa, claimed) in [PROTO, PROTO2, [0; 32]].iter().enumerate() {
            for (pp, from) in src.iter().map(|s| s.0).enumerate() {
                for (bb, bnd) in bundles.iter().enumerate() {
                    for tapret in [false, true] {
                        for (oo, o2) in [&op, &op2].iter().enumerate() {
                            if !rep.case(|| format!("tree={b1},{b2} claimed={pa} proof={pp} bundle={bb} tapret={tapret} operation={oo}")) {
                                continue;
                            }
                            let anchor = Anchor {
                                mmb_proof: bnd.clone(),
                                mpc_protocol: ProtocolId::from_byte_array(*claimed),
                                mpc_proof: proof_of(&t, from),
                                dbc_proof: if tapret { tp(0, pk()) } else { None },
                                fallback_proof: Default::default(),
                            };
                            let spk = if tapret { tapret_spk(c, pk(), 0) } else { ScriptPubkey::op_return(c.as_slice()) };
                            let wit = SealWitness::new(mk_tx(3, &[o(1), o(2)], vec![txout(spk)]), anchor);
                            case(rep, &w, &[w.gblock(), mk_block((*o2).clone(), BTreeMap::new(), Some(wit))]);
                        }
                    }
                }
            }
        }
    });
    // --- kinds of destroyed seals: every definition of the alphabet, closed at every outpoint
    let kinds: Vec<WTxoSeal> = {
        let mut v = vec![];
        for v0 in [0u32, 1, 2, 255, 256, 65536, u32::MAX] {
            for t in [0u32, 1, 2, 3] {
                v.push(TxoSeal::rel(v0, t));
                v.push(TxoSeal::retweak(&TxoSeal::abs(v0), t));
            }
        }
        v
    };
    par(g, total, "seal-kinds-bitcoin", kinds.len(), |i, rep| {
        let def = kinds[i];
        // genesis -> T (with witness) defines the seal; then U destroys it
        let w: World<TxoSeal> = World::new(1, &[out(10, TxoSeal::abs(50))], &[]);
        let mut h = Hist::new("kinds", w);
        h.add(st(&[(0, 0)], vec![out(1, def)]));
        let blocks = h.blocks();
        let wid = TxoSeal::s_wid(blocks[1].witness.as_ref().unwrap());
        for (di, d2) in kinds.iter().enumerate() {
            for (wi, id) in [wid, ext_txid(), Txid::from_byte_array([0; 32])].iter().enumerate() {
                let seal = TxoSeal::s_abs(d2).unwrap_or_else(|| TxoSeal::s_rel(d2, *id));
                if !rep.case(|| format!("defined={i} closed={di} at={wi}")) {
                    continue;
                }
                let mut bs = blocks.clone();
                bs.push(follow(&h.w, h.addr(1, 0), seal));
                case(rep, &h.w, &bs);
            }
        }
    });
}

/// C04, known finding: the protocol slot of the anchor is not bound to the contract.
pub fn open_protocol(g: &Global, total: &mut Stats) {
    let w: World<TxoSeal> = World::new(1, &[out(10, TxoSeal::abs(1))], &[]);
    let op = |nonce: u64| {
        mk_op::<TxoSeal>(w.cid, &OpSpec {
            call: ACCEPT,
            nonce,
            ins: vec![(CellAddr::new(w.gid, 0), StateValue::None)],
            reads: vec![],
            outs: vec![],
            imm: vec![],
            witness: StateValue::None,
        })
    };
    let ops = [op(1), op(2)];
    let o = Outpoint::new(ext_txid(), 1);
    par(g, total, "one-transaction-two-slots-bitcoin", 2, |two, rep| {
        let two = two == 1;
        // one published transaction; every anchor which can be presented for it
        let bs: Vec<mmb::BundleProof> = ops.iter().map(|op| bundle(&[(0, op.opid().to_byte_array())].into())).collect();
        let src = if two { vec![(PROTO, bs[0].clone()), (PROTO2, bs[1].clone())] } else { vec![(PROTO, bs[0].clone())] };
        let t = tree(&src);
        let tx = mk_tx(3, &[o], vec![txout(ScriptPubkey::op_return(t.commit_id().as_slice()))]);
        let mut ok: BTreeMap<Opid, BTreeSet<[u8; 32]>> = BTreeMap::new();
        if !rep.case(|| format!("slots={}", src.len())) {
            return;
        }
        for op in &ops {
            for b in &bs {
                for claimed in [PROTO, PROTO2] {
                    for (from, _) in &src {
                        let anchor = Anchor {
                            mmb_proof: b.clone(),
                            mpc_protocol: ProtocolId::from_byte_array(claimed),
                            mpc_proof: proof_of(&t, *from),
                            dbc_proof: None,
                            fallback_proof: Default::default(),
                        };
                        let wit = SealWitness::new(tx.clone(), anchor);
                        let mut st = Store::fresh(&w);
                        let blocks = [w.gblock(), mk_block(op.clone(), BTreeMap::new(), Some(wit))];
                        let (out, _, _) = rep.eval(&w, &mut st, &[], &blocks, &Plan::default(), false);
                        if out.verdict.is_ok() {
                            ok.entry(op.opid()).or_default().insert(claimed);
                        }
                    }
                }
            }
        }
        if ok.len() > 1 {
            let slots: Vec<&BTreeSet<[u8; 32]>> = ok.values().collect();
            if slots[0].is_disjoint(slots[1]) {
                rep.known_finding("C04:protocol-slot");
            } else {
                rep.fail_if(&["C04"], true, || "one transaction closes one seal over two operations under one protocol".into(), String::new);
            }
        }
    });
}

/// C20: entries with unusual transactions and anchors.
#[cfg(feature = "fserde")]
pub fn special_entries(h: &Hist<TxoSeal>) -> Vec<(String, Block<TxoSeal>)> {
    use bp::{SigScript, TxVer, Witness};
    let base = h.steps[1].block();
    let opid = h.steps[1].opid.to_byte_array();
    let mut v = vec![];
    for tapret in [false, true] {
        let w = build(7, &[Outpoint::new(ext_txid(), 1)], &BTreeMap::from([(0, opid)]), tapret);
        let mut txs: Vec<(String, Tx)> = vec![("plain".into(), w.published.clone())];
        for (n, sig) in [("empty", vec![]), ("one", vec![0x00]), ("long", vec![0x6a; 300])] {
            let mut tx = w.published.clone();
            tx.inputs[0].sig_script = SigScript::try_from(sig).unwrap();
            txs.push((format!("sigscript-{n}"), tx));
        }
        for (n, items) in [("one", vec![vec![]]), ("two", vec![vec![1u8, 2, 3], vec![0xFF; 260]])] {
            let mut tx = w.published.clone();
            tx.inputs[0].witness = Witness::from_consensus_stack(items);
            txs.push((format!("witness-{n}"), tx));
        }
        for ver in [-1i32, 0, 1, 2, i32::MAX] {
            let mut tx = w.published.clone();
            tx.version = TxVer::from_consensus_i32(ver);
            txs.push((format!("version{ver}"), tx));
        }
        for lt in [0u32, 499_999_999, 500_000_000, u32::MAX] {
            let mut tx = w.published.clone();
            tx.lock_time = LockTime::from_consensus_u32(lt);
            tx.inputs[0].sequence = SeqNo::from_consensus_u32(lt);
            txs.push((format!("locktime{lt}"), tx));
        }
        for (n, sats) in [0u64, 1, 2_100_000_000_000_000, u64::MAX].into_iter().enumerate() {
            let mut tx = w.published.clone();
            tx.outputs[0].value = Sats::from(sats);
            let o = tx.outputs[0].clone();
            let _ = tx.outputs.push(o);
            txs.push((format!("sats{n}"), tx));
        }
        for (n, tx) in &txs {
            let mut b = base.clone();
            b.witness = Some(SealWitness::new(tx.clone(), w.client.clone()));
            v.push((format!("tx-{tapret}-{n}"), b));
        }
        let mut anchors: Vec<(String, Anchor)> = vec![];
        for (n, m) in [
            ("none", BTreeMap::new()),
            ("one", BTreeMap::from([(u32::MAX, [0xFF; 32])])),
            ("many", (0..300u32).map(|i| (i * 7, [i as u8; 32])).collect()),
        ] {
            let mut a = w.client.clone();
            a.mmb_proof = bundle(&m);
            anchors.push((format!("bundle-{n}"), a));
        }
        let mut a = w.client.clone();
        a.mpc_protocol = ProtocolId::from_byte_array([0xFF; 32]);
        anchors.push(("protocol".into(), a));
        let t = tree(&[(PROTO, bundle(&BTreeMap::from([(0, opid)]))), (PROTO2, bundle(&BTreeMap::from([(1, opid)])))]);
        for p in [PROTO, PROTO2] {
            let mut a = w.client.clone();
            a.mpc_proof = proof_of(&t, p);
            anchors.push((format!("proof{:x}", p[0]), a));
        }
        for (n, key) in [("", pk()), ("2", pk2())] {
            for nonce in [0u8, 255] {
                let mut a = w.client.clone();
                a.dbc_proof = Some(TapretProof { path_proof: TapretPathProof::root(nonce), internal_pk: key });
                anchors.push((format!("tapret{n}-{nonce}"), a));
            }
        }
        for (n, a) in anchors {
            let mut b = base.clone();
            b.witness = Some(SealWitness::new(w.published.clone(), a));
            v.push((format!("anchor-{tapret}-{n}"), b));
        }
    }
    v
}
