//! Seal protocols the engine is explored with: an abstract ("mock") protocol mirroring the bitcoin
//! one, and (feature `btc`) the real bitcoin protocol. For both there is an independent statement
//! (`Kit::s_*`) of what the protocol means, which the reference specification uses.
use core::fmt::{self, Debug, Display, Formatter};

use amplify::confinement::{Confined, SmallOrdMap, SmallOrdSet};
use rgbcore::{RgbSeal, RgbSealDef};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
use ultrasonic::{AuthToken, Opid};
use amplify::ByteArray;

pub type Def<S> = <S as RgbSeal>::Definition;
pub type Wit<S> = SealWitness<S>;
pub type Wid<S> = <S as RgbSeal>::WitnessId;
/// A closing: which seal (None: no seal, only a commitment) over which operation.
pub type Closing<S> = (Option<S>, Opid);

pub trait Kit:
    RgbSeal<
        Definition: Clone + Eq + Ord + Debug + Send + Sync,
        Published: Clone + Eq + Debug + StrictEncode + Send + Sync,
        Client: Clone + Eq + Debug + StrictEncode + Send + Sync,
        WitnessId: Copy + Ord + Debug,
    > + Copy
    + Eq
    + Ord
    + Debug
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;

    // ---- the independent statement of the protocol ----
    fn s_token(def: &Def<Self>) -> AuthToken;
    fn s_abs(def: &Def<Self>) -> Option<Self>;
    fn s_rel(def: &Def<Self>, wid: Wid<Self>) -> Self;
    fn s_wid(w: &Wit<Self>) -> Wid<Self>;
    fn s_included(&self, w: &Wit<Self>, msg: [u8; 32]) -> bool;
    /// Does the published witness commit (through the client part) to the message?
    fn s_committed(w: &Wit<Self>, msg: [u8; 32]) -> bool;

    // ---- builders ----
    /// A definition pointing to the external, pre-existing seal number `n`.
    fn abs(n: u32) -> Def<Self>;
    fn rel(no: u32, tweak: u32) -> Def<Self>;
    /// Same outpoint, different noise.
    fn retweak(def: &Def<Self>, tweak: u32) -> Def<Self>;
    fn mk_witness(salt: u32, spends: &[Self], closes: &[Closing<Self>]) -> Wit<Self>;
    /// Deviations of a witness, each labelled.
    fn mutate(w: &Wit<Self>) -> Vec<(&'static str, Wit<Self>)>;
    /// the outpoint which must be spent (several seals may share one)
    fn outpoint(&self) -> (Vec<u8>, u32);
    fn is_rel(def: &Def<Self>) -> bool { Self::s_abs(def).is_none() }
}

// ------------------------------------------------------------------------------------------------

pub const LIB: &str = "McMock";

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "fserde", derive(serde::Serialize, serde::Deserialize))]
pub struct MSeal {
    pub wid: u32,
    pub no: u32,
    pub tweak: u32,
}
impl Display for MSeal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}:{}/{}", self.wid, self.no, self.tweak) }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "fserde", derive(serde::Serialize, serde::Deserialize))]
pub struct MDef {
    pub rel: u8,
    pub wid: u32,
    pub no: u32,
    pub tweak: u32,
}
impl Display for MDef {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if self.rel != 0 {
            write!(f, "~:{}/{}", self.no, self.tweak)
        } else {
            write!(f, "{}:{}/{}", self.wid, self.no, self.tweak)
        }
    }
}

/// Published witness of the mock protocol ("transaction").
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "fserde", derive(serde::Serialize, serde::Deserialize))]
pub struct MPub {
    pub id: u32,
    pub spends: SmallOrdSet<MSeal>,
    pub commit: u64,
}

/// Client-side witness of the mock protocol ("anchor").
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "fserde", derive(serde::Serialize, serde::Deserialize))]
pub struct MCli {
    pub map: SmallOrdMap<MapKey, Msg>,
    pub broken: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "fserde", derive(serde::Serialize, serde::Deserialize), serde(into = "String", try_from = "String"))]
pub struct MapKey {
    pub wid: u32,
    pub no: u32,
    pub tweak: u32,
}
impl From<MapKey> for String {
    fn from(k: MapKey) -> String { format!("{}:{}:{}", k.wid, k.no, k.tweak) }
}
impl TryFrom<String> for MapKey {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        let v: Vec<u32> = s.split(':').map(|x| x.parse::<u32>().map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        match v[..] {
            [wid, no, tweak] => Ok(MapKey { wid, no, tweak }),
            _ => Err(s),
        }
    }
}
impl From<MSeal> for MapKey {
    fn from(s: MSeal) -> Self { MapKey { wid: s.wid, no: s.no, tweak: s.tweak } }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "fserde", derive(serde::Serialize, serde::Deserialize))]
pub struct Msg(pub [u8; 32]);
impl From<[u8; 32]> for Msg {
    fn from(v: [u8; 32]) -> Self { Msg(v) }
}

pub fn fnv(h: &mut u64, bytes: &[u8]) {
    for b in bytes {
        *h ^= *b as u64;
        *h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
}
fn map_hash(c: &MCli) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for (k, v) in &c.map {
        fnv(&mut h, &k.wid.to_le_bytes());
        fnv(&mut h, &k.no.to_le_bytes());
        fnv(&mut h, &k.tweak.to_le_bytes());
        fnv(&mut h, &v.0);
    }
    h
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MErr(pub &'static str);
impl Display for MErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str(self.0) }
}
impl std::error::Error for MErr {}

impl SingleUseSeal for MSeal {
    type Message = Msg;
    type PubWitness = MPub;
    type CliWitness = MCli;
    fn is_included(&self, message: Msg, witness: &SealWitness<Self>) -> bool {
        witness.published.spends.contains(self) && witness.client.map.get(&MapKey::from(*self)) == Some(&message)
    }
}
impl PublishedWitness<MSeal> for MPub {
    type PubId = u32;
    type Error = MErr;
    fn pub_id(&self) -> u32 { self.id }
    fn verify_commitment(&self, proof: u64) -> Result<(), MErr> {
        if self.commit == proof {
            Ok(())
        } else {
            Err(MErr("commitment mismatch"))
        }
    }
}
impl ClientSideWitness for MCli {
    type Seal = MSeal;
    type Proof = u64;
    type Error = MErr;
    fn convolve_commit(&self, msg: Msg) -> Result<u64, MErr> {
        if self.broken != 0 {
            return Err(MErr("broken client witness"));
        }
        if self.map.values().all(|m| *m != msg) {
            return Err(MErr("message is not a part of the witness"));
        }
        Ok(map_hash(self))
    }
    fn merge(&mut self, _other: Self) -> Result<(), impl std::error::Error>
    where Self: Sized {
        Result::<(), MErr>::Err(MErr("no merge"))
    }
}
impl RgbSeal for MSeal {
    type Definition = MDef;
    type Published = MPub;
    type Client = MCli;
    type WitnessId = u32;
}
impl RgbSealDef for MDef {
    type Src = MSeal;
    fn auth_token(&self) -> AuthToken {
        let mut b = [0u8; 30];
        b[0] = self.rel + 1;
        b[1..5].copy_from_slice(&self.wid.to_le_bytes());
        b[5..9].copy_from_slice(&self.no.to_le_bytes());
        b[9..13].copy_from_slice(&self.tweak.to_le_bytes());
        AuthToken::from_byte_array(b)
    }
    fn resolve(&self, wid: u32) -> MSeal {
        MSeal { wid: if self.rel != 0 { wid } else { self.wid }, no: self.no, tweak: self.tweak }
    }
    fn to_src(&self) -> Option<MSeal> {
        if self.rel != 0 {
            return None;
        }
        Some(MSeal { wid: self.wid, no: self.no, tweak: self.tweak })
    }
}

impl Kit for MSeal {
    const NAME: &'static str = "mock";

    fn s_token(def: &MDef) -> AuthToken { def.auth_token() }
    fn s_abs(def: &MDef) -> Option<Self> {
        (def.rel == 0).then_some(MSeal { wid: def.wid, no: def.no, tweak: def.tweak })
    }
    fn s_rel(def: &MDef, wid: u32) -> Self { MSeal { wid, no: def.no, tweak: def.tweak } }
    fn s_wid(w: &Wit<Self>) -> u32 { w.published.id }
    fn s_included(&self, w: &Wit<Self>, msg: [u8; 32]) -> bool {
        w.published.spends.contains(self)
            && w.client.map.get(&MapKey::from(*self)).is_some_and(|m| m.0 == msg)
    }
    fn s_committed(w: &Wit<Self>, msg: [u8; 32]) -> bool {
        w.client.broken == 0 && w.client.map.iter().any(|(_, m)| m.0 == msg) && w.published.commit == map_hash(&w.client)
    }

    fn abs(n: u32) -> MDef { MDef { rel: 0, wid: 0, no: n, tweak: 0 } }
    fn rel(no: u32, tweak: u32) -> MDef { MDef { rel: 1, wid: 0, no, tweak } }
    fn retweak(def: &MDef, tweak: u32) -> MDef { MDef { tweak, ..*def } }
    fn mk_witness(salt: u32, spends: &[Self], closes: &[Closing<Self>]) -> Wit<Self> {
        let mut set = std::collections::BTreeSet::new();
        set.extend(spends.iter().copied());
        let mut map = std::collections::BTreeMap::new();
        let mut dummy = 0;
        for (s, o) in closes {
            let key = match s {
                Some(s) => MapKey::from(*s),
                None => {
                    dummy += 1;
                    MapKey { wid: u32::MAX, no: salt, tweak: dummy }
                }
            };
            map.insert(key, Msg(o.to_byte_array()));
        }
        let client = MCli { map: Confined::try_from(map).unwrap(), broken: 0 };
        let published = MPub { id: salt, spends: Confined::try_from(set).unwrap(), commit: map_hash(&client) };
        SealWitness::new(published, client)
    }
    fn mutate(w: &Wit<Self>) -> Vec<(&'static str, Wit<Self>)> {
        let mut res = vec![];
        let mut x = w.clone();
        x.client.broken = 1;
        res.push(("client-broken", x));
        let mut x = w.clone();
        x.published.commit ^= 1;
        res.push(("commit-broken", x));
        let mut x = w.clone();
        x.published.spends = none_set();
        res.push(("spends-none", x));
        let mut x = w.clone();
        x.published.id ^= 0x4000;
        res.push(("other-id", x));
        let n = w.published.spends.len();
        for k in 0..n {
            if n > 4 && k != 0 && k != n - 1 {
                continue;
            }
            let mut x = w.clone();
            let set = w.published.spends.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, s)| *s);
            x.published.spends = Confined::try_from_iter(set).unwrap();
            res.push(("spends-all-but-one", x));
        }
        // the client maps one of the seals to another message; published commitment follows
        let n = w.client.map.len();
        for k in 0..n {
            if n > 4 && k != 0 && k != n - 1 {
                continue;
            }
            let mut m: std::collections::BTreeMap<MapKey, Msg> = w.client.map.iter().map(|(a, b)| (*a, *b)).collect();
            let key = *m.keys().nth(k).unwrap();
            m.get_mut(&key).unwrap().0[31] ^= 1;
            let mut x = w.clone();
            x.client.map = Confined::try_from(m.clone()).unwrap();
            x.published.commit = map_hash(&x.client);
            res.push(("other-message-for-one", x));
            m.remove(&key);
            let mut x = w.clone();
            x.client.map = Confined::try_from(m).unwrap();
            x.published.commit = map_hash(&x.client);
            res.push(("message-dropped-for-one", x));
        }
        // self-contradictory: client does not match what is committed
        let mut x = w.clone();
        let mut m: std::collections::BTreeMap<MapKey, Msg> = w.client.map.iter().map(|(a, b)| (*a, *b)).collect();
        m.insert(MapKey { wid: 7, no: 7, tweak: 7 }, Msg([7; 32]));
        x.client.map = Confined::try_from(m.clone()).unwrap();
        res.push(("client-map-extended-uncommitted", x.clone()));
        x.published.commit = map_hash(&x.client);
        res.push(("client-map-extended-committed", x));
        res
    }
    fn outpoint(&self) -> (Vec<u8>, u32) {
        let mut v = self.wid.to_le_bytes().to_vec();
        v.extend(self.tweak.to_le_bytes());
        (v, self.no)
    }
}
fn none_set() -> SmallOrdSet<MSeal> { Confined::try_from_iter(core::iter::empty()).unwrap() }
