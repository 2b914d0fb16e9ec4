//! Deterministic cryptographic back ends registered through the library's
//! public callbacks. All state is per thread.

use crate::engine::{expand, fnv, mix};
use crate::sha2::{self, Hasher, H};
use spdmlib::crypto::*;
use spdmlib::error::*;
use spdmlib::message::{VendorDefinedReqPayloadStruct, VendorDefinedRspPayloadStruct};
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;
use spdmlib::secret;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Party {
    Req = 0,
    Rsp = 1,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    Hash = 0,
    HashInit,
    HashUpdate,
    HashFinal,
    HashDup,
    Hmac,
    HmacVerify,
    Encrypt,
    Decrypt,
    Verify,
    Sign,
    DheGen,
    DheCompute,
    CertGet,
    CertVerify,
    Extract,
    Expand,
    Rand,
    MeasCollect,
    MeasSummary,
    PskHs,
    PskMaster,
    App,
    Vendor,
    Send,
    Recv,
}
pub const OPS: usize = 26;
pub const ALL_OPS: [Op; OPS] = [
    Op::Hash,
    Op::HashInit,
    Op::HashUpdate,
    Op::HashFinal,
    Op::HashDup,
    Op::Hmac,
    Op::HmacVerify,
    Op::Encrypt,
    Op::Decrypt,
    Op::Verify,
    Op::Sign,
    Op::DheGen,
    Op::DheCompute,
    Op::CertGet,
    Op::CertVerify,
    Op::Extract,
    Op::Expand,
    Op::Rand,
    Op::MeasCollect,
    Op::MeasSummary,
    Op::PskHs,
    Op::PskMaster,
    Op::App,
    Op::Vendor,
    Op::Send,
    Op::Recv,
];

#[derive(Clone, Debug)]
pub struct AeadRec {
    pub party: Party,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub aad: Vec<u8>,
    pub pt: Vec<u8>,
    pub ok: bool,
}

#[derive(Clone, Debug)]
pub struct SignRec {
    pub party: Party,
    pub data: Vec<u8>,
    pub sig: Vec<u8>,
    pub asym: u32,
    pub hash: u32,
    pub ok: bool,
    pub key: u64,
}

#[derive(Clone, Debug)]
pub struct MeasBlock {
    pub index: u8,
    pub typ: u8,
    pub value: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct AppRec {
    pub session: u32,
    pub data: Vec<u8>,
    pub aux: Vec<u8>,
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub party: Party,
    pub op: Op,
    pub nth: u64,
    pub sticky: bool,
}

pub struct Toy {
    pub party: Party,
    pub rng: u64,
    pub rand_log: Vec<(Party, Vec<u8>)>,
    pub ctxs: HashMap<usize, Hasher>,
    pub dups: std::collections::HashSet<usize>,
    pub next_ctx: usize,
    pub dhe: Vec<(Party, Vec<u8>, u64)>,
    pub secrets: Vec<(Party, Vec<u8>, Vec<u8>, Vec<u8>)>,
    /// every key derivation: party, info, output
    pub okm: Vec<(Party, Vec<u8>, Vec<u8>)>,
    pub signs: Vec<SignRec>,
    pub verifies: Vec<SignRec>,
    pub enc: Vec<AeadRec>,
    pub dec: Vec<AeadRec>,
    pub counts: [[u64; OPS]; 2],
    pub faults: Vec<Fault>,
    pub fault_hits: u64,
    /// the random source gives only so many bytes: party, call, bytes, from then on
    pub short: Option<(Party, u64, usize, bool)>,
    pub short_hits: u32,
    /// the responder's first failure: messages sent and records sealed before it
    pub rsp_mark: Option<(u64, usize)>,
    pub fault_armed: bool,
    pub sign_key: [u64; 2],
    pub psk: [Vec<u8>; 2],
    pub hints: Vec<(Party, Vec<u8>)>,
    pub meas: Vec<MeasBlock>,
    pub meas_calls: Vec<usize>,
    pub app_log: Vec<AppRec>,
    pub app_reply: Vec<Vec<u8>>,
    pub app_fail: bool,
    pub vendor_log: Vec<Vec<u8>>,
    pub vendor_reply: Vec<Vec<u8>>,
    pub vendor_fail: bool,
    pub bad_ctx: u64,
    pub log: Vec<String>,
    pub log_on: bool,
}

impl Toy {
    fn new() -> Toy {
        Toy {
            party: Party::Req,
            rng: 1,
            rand_log: vec![],
            ctxs: HashMap::new(),
            dups: Default::default(),
            next_ctx: 1,
            dhe: vec![],
            secrets: vec![],
            okm: vec![],
            signs: vec![],
            verifies: vec![],
            enc: vec![],
            dec: vec![],
            counts: [[0; OPS]; 2],
            faults: vec![],
            fault_hits: 0,
            short: None,
            short_hits: 0,
            rsp_mark: None,
            fault_armed: true,
            sign_key: [0x51, 0xA1],
            psk: [b"toy-psk".to_vec(), b"toy-psk".to_vec()],
            hints: vec![],
            meas: vec![],
            meas_calls: vec![],
            app_log: vec![],
            app_reply: vec![],
            app_fail: false,
            vendor_log: vec![],
            vendor_reply: vec![],
            vendor_fail: false,
            bad_ctx: 0,
            log: vec![],
            log_on: false,
        }
    }
}

thread_local! {
    static TOY: RefCell<Toy> = RefCell::new(Toy::new());
}

pub fn with<R>(f: impl FnOnce(&mut Toy) -> R) -> R {
    TOY.with(|t| f(&mut t.borrow_mut()))
}

pub fn reset() {
    TOY.with(|t| *t.borrow_mut() = Toy::new());
}

/// Run `f` as the given party (the callbacks do not know who calls them).
pub fn as_party<R>(p: Party, f: impl FnOnce() -> R) -> R {
    let old = with(|t| {
        let o = t.party;
        t.party = p;
        o
    });
    let r = f();
    with(|t| t.party = old);
    r
}

/// Count a back-end call; true if the fault plan says it must fail.
pub fn gate(op: Op) -> bool {
    with(|t| {
        let p = t.party;
        let n = t.counts[p as usize][op as usize];
        t.counts[p as usize][op as usize] += 1;
        if !t.fault_armed {
            return false;
        }
        let hit = t
            .faults
            .iter()
            .any(|f| f.party == p && f.op == op && (f.nth == n || (f.sticky && n >= f.nth)));
        if hit {
            t.fault_hits += 1;
            if p == Party::Rsp && t.rsp_mark.is_none() {
                t.rsp_mark = Some((t.counts[1][Op::Send as usize], t.enc.len()));
            }
        }
        hit
    })
}

fn put_log(f: impl FnOnce() -> String) {
    with(|t| {
        if t.log_on {
            let s = f();
            t.log.push(s);
        }
    })
}

pub fn h_of(a: SpdmBaseHashAlgo) -> Option<H> {
    match a.bits() {
        1 => Some(H::S256),
        2 => Some(H::S384),
        4 => Some(H::S512),
        _ => None,
    }
}

fn dig(v: Vec<u8>) -> SpdmDigestStruct {
    SpdmDigestStruct::from(&v[..])
}

fn hash_all(a: SpdmBaseHashAlgo, d: &[u8]) -> Option<SpdmDigestStruct> {
    if gate(Op::Hash) {
        return None;
    }
    Some(dig(sha2::hash(h_of(a)?, d)))
}
#[cfg(feature = "hashed")]
fn hash_init(a: SpdmBaseHashAlgo) -> Option<usize> {
    if gate(Op::HashInit) {
        return None;
    }
    let h = h_of(a)?;
    Some(with(|t| {
        let id = t.next_ctx;
        t.next_ctx += 1;
        t.ctxs.insert(id, Hasher::new(h));
        id
    }))
}
#[cfg(feature = "hashed")]
fn hash_update(c: usize, d: &[u8]) -> SpdmResult {
    if gate(Op::HashUpdate) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    with(|t| match t.ctxs.get_mut(&c) {
        Some(h) => {
            h.update(d);
            Ok(())
        }
        None => {
            t.bad_ctx += 1;
            Err(SPDM_STATUS_CRYPTO_ERROR)
        }
    })
}
#[cfg(feature = "hashed")]
fn hash_final(c: usize) -> Option<SpdmDigestStruct> {
    // finalize releases the context also when it fails; an original context is
    // finalized when it is dropped, which nobody can report
    let dup = with(|t| t.dups.remove(&c));
    let bad = dup && gate(Op::HashFinal);
    let h = with(|t| {
        let h = t.ctxs.remove(&c);
        if h.is_none() {
            t.bad_ctx += 1;
        }
        h
    })?;
    if bad {
        return None;
    }
    Some(dig(h.finish()))
}
#[cfg(feature = "hashed")]
fn hash_dup(c: usize) -> Option<usize> {
    if gate(Op::HashDup) {
        return None;
    }
    with(|t| {
        let h = t.ctxs.get(&c).cloned();
        match h {
            Some(h) => {
                let id = t.next_ctx;
                t.next_ctx += 1;
                t.ctxs.insert(id, h);
                t.dups.insert(id);
                Some(id)
            }
            None => {
                t.bad_ctx += 1;
                None
            }
        }
    })
}

fn hmac(a: SpdmBaseHashAlgo, k: &[u8], d: &[u8]) -> Option<SpdmDigestStruct> {
    if gate(Op::Hmac) {
        return None;
    }
    Some(dig(sha2::hmac(h_of(a)?, k, d)))
}
fn hmac_verify(a: SpdmBaseHashAlgo, k: &[u8], d: &[u8], m: &SpdmDigestStruct) -> SpdmResult {
    if gate(Op::HmacVerify) {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    let h = h_of(a).ok_or(SPDM_STATUS_VERIF_FAIL)?;
    if sha2::hmac(h, k, d) == m.as_ref() {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}

pub fn aead_key_size(a: SpdmAeadAlgo) -> Option<usize> {
    match a.bits() {
        1 => Some(16),
        2 | 4 => Some(32),
        _ => None,
    }
}

fn keystream(algo: u16, key: &[u8], iv: &[u8], len: usize) -> Vec<u8> {
    let mut seed = vec![algo as u8];
    seed.extend_from_slice(key);
    seed.extend_from_slice(iv);
    let h = sha2::hash(H::S256, &seed);
    let mut s = [0u8; 8];
    s.copy_from_slice(&h[..8]);
    expand(u64::from_le_bytes(s) | 1, len)
}
fn aead_tag(algo: u16, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut d = vec![algo as u8];
    d.extend_from_slice(iv);
    d.extend_from_slice(&(aad.len() as u32).to_le_bytes());
    d.extend_from_slice(aad);
    d.extend_from_slice(ct);
    let mut t = sha2::hmac(H::S256, key, &d);
    t.truncate(16);
    t
}
/// Reference AEAD used by the oracle too.
pub fn seal(algo: u16, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let ks = keystream(algo, key, iv, pt.len());
    let ct: Vec<u8> = pt.iter().zip(ks).map(|(a, b)| a ^ b).collect();
    let tag = aead_tag(algo, key, iv, aad, &ct);
    (ct, tag)
}
pub fn open(
    algo: u16,
    key: &[u8],
    iv: &[u8],
    aad: &[u8],
    ct: &[u8],
    tag: &[u8],
) -> Option<Vec<u8>> {
    if aead_tag(algo, key, iv, aad, ct) != tag {
        return None;
    }
    let ks = keystream(algo, key, iv, ct.len());
    Some(ct.iter().zip(ks).map(|(a, b)| a ^ b).collect())
}

fn encrypt(
    a: SpdmAeadAlgo,
    key: &SpdmAeadKeyStruct,
    iv: &SpdmAeadIvStruct,
    aad: &[u8],
    pt: &[u8],
    tag: &mut [u8],
    ct: &mut [u8],
) -> SpdmResult<(usize, usize)> {
    let bad = gate(Op::Encrypt);
    let ok = !bad
        && aead_key_size(a) == Some(key.data_size as usize)
        && iv.data_size == 12
        && tag.len() == 16
        && ct.len() == pt.len();
    with(|t| {
        let party = t.party;
        t.enc.push(AeadRec {
            party,
            key: key.as_ref().to_vec(),
            iv: iv.as_ref().to_vec(),
            aad: aad.to_vec(),
            pt: pt.to_vec(),
            ok,
        })
    });
    if !ok {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let (c, tg) = seal(a.bits(), key.as_ref(), iv.as_ref(), aad, pt);
    ct.copy_from_slice(&c);
    tag.copy_from_slice(&tg);
    Ok((pt.len(), 16))
}
fn decrypt(
    a: SpdmAeadAlgo,
    key: &SpdmAeadKeyStruct,
    iv: &SpdmAeadIvStruct,
    aad: &[u8],
    ct: &[u8],
    tag: &[u8],
    pt: &mut [u8],
) -> SpdmResult<usize> {
    let bad = gate(Op::Decrypt);
    if bad
        || aead_key_size(a) != Some(key.data_size as usize)
        || iv.data_size != 12
        || tag.len() != 16
        || ct.len() != pt.len()
    {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let r = open(a.bits(), key.as_ref(), iv.as_ref(), aad, ct, tag);
    with(|t| {
        let party = t.party;
        t.dec.push(AeadRec {
            party,
            key: key.as_ref().to_vec(),
            iv: iv.as_ref().to_vec(),
            aad: aad.to_vec(),
            pt: r.clone().unwrap_or_default(),
            ok: r.is_some(),
        })
    });
    match r {
        Some(p) => {
            pt.copy_from_slice(&p);
            Ok(p.len())
        }
        None => Err(SPDM_STATUS_CRYPTO_ERROR),
    }
}

// ---- signatures and certificates ------------------------------------

pub fn sig_size(asym: u32) -> Option<usize> {
    match asym {
        1 | 2 => Some(256),
        4 | 8 => Some(384),
        0x20 | 0x40 => Some(512),
        0x10 => Some(64),
        0x80 => Some(96),
        _ => None,
    }
}

pub fn sign_with(key: u64, hash: u32, asym: u32, data: &[u8]) -> Option<Vec<u8>> {
    let n = sig_size(asym)?;
    let mut d = b"sig".to_vec();
    d.extend_from_slice(&key.to_le_bytes());
    d.extend_from_slice(&hash.to_le_bytes());
    d.extend_from_slice(&asym.to_le_bytes());
    d.extend_from_slice(data);
    let h = sha2::hash(H::S256, &d);
    Some(sha2::hkdf_expand(H::S256, &h, b"s", n))
}

/// One toy certificate: 30 82 len | subject(8) issuer(8) fill | mac(32).
pub fn make_cert(subject: u64, issuer: u64, fill: &[u8]) -> Vec<u8> {
    let body_len = 16 + fill.len() + 32;
    let mut c = vec![0x30, 0x82, (body_len >> 8) as u8, body_len as u8];
    c.extend_from_slice(&subject.to_le_bytes());
    c.extend_from_slice(&issuer.to_le_bytes());
    c.extend_from_slice(fill);
    let mut m = b"cert".to_vec();
    m.extend_from_slice(&issuer.to_le_bytes());
    m.extend_from_slice(&c);
    let mac = sha2::hash(H::S256, &m);
    c.extend_from_slice(&mac);
    c
}
pub const CERT_MIN: usize = 4 + 16 + 32;

pub fn split_chain(chain: &[u8]) -> Option<Vec<(usize, usize)>> {
    let mut v = vec![];
    let mut p = 0;
    while p < chain.len() {
        if chain.len() - p < 4 || chain[p] != 0x30 || chain[p + 1] != 0x82 {
            return None;
        }
        let l = (chain[p + 2] as usize) << 8 | chain[p + 3] as usize;
        if l < 48 || p + 4 + l > chain.len() {
            return None;
        }
        v.push((p, p + 4 + l));
        p += 4 + l;
    }
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}
fn rd64(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[..8]);
    u64::from_le_bytes(x)
}
pub fn cert_subject(c: &[u8]) -> u64 {
    rd64(&c[4..])
}
pub fn chain_ok(chain: &[u8]) -> bool {
    let v = match split_chain(chain) {
        Some(v) => v,
        None => return false,
    };
    let mut prev: Option<u64> = None;
    for (a, b) in v {
        let c = &chain[a..b];
        let subject = rd64(&c[4..]);
        let issuer = rd64(&c[12..]);
        match prev {
            None => {
                if subject != issuer {
                    return false;
                }
            }
            Some(p) => {
                if issuer != p {
                    return false;
                }
            }
        }
        let mut m = b"cert".to_vec();
        m.extend_from_slice(&issuer.to_le_bytes());
        m.extend_from_slice(&c[..c.len() - 32]);
        if sha2::hash(H::S256, &m) != c[c.len() - 32..] {
            return false;
        }
        prev = Some(subject);
    }
    true
}
/// A chain root -> ... -> leaf whose total is exactly `total` bytes when
/// total >= n * CERT_MIN.
pub fn make_chain(root: u64, leaf: u64, n: usize, total: usize, seed: u64) -> Vec<u8> {
    let n = n.max(1);
    let total = total.max(n * CERT_MIN);
    let extra = total - n * CERT_MIN;
    let mut out = vec![];
    let mut issuer = root;
    for i in 0..n {
        let subject = if i == n - 1 {
            if n == 1 {
                leaf
            } else {
                leaf
            }
        } else if i == 0 {
            root
        } else {
            mix(root, i as u64)
        };
        let iss = if i == 0 { subject } else { issuer };
        let share = if i == n - 1 {
            extra - (extra / n) * (n - 1)
        } else {
            extra / n
        };
        out.extend_from_slice(&make_cert(
            subject,
            iss,
            &expand(mix(seed, i as u64), share),
        ));
        issuer = subject;
    }
    out
}

fn cert_get(chain: &[u8], index: isize) -> SpdmResult<(usize, usize)> {
    if gate(Op::CertGet) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    let v = split_chain(chain).ok_or(SPDM_STATUS_INVALID_CERT)?;
    if index == -1 {
        return Ok(*v.last().unwrap());
    }
    v.get(index as usize)
        .copied()
        .ok_or(SPDM_STATUS_INVALID_CERT)
}
fn cert_verify(chain: &[u8]) -> SpdmResult {
    if gate(Op::CertVerify) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    if chain_ok(chain) {
        Ok(())
    } else {
        Err(SPDM_STATUS_INVALID_CERT)
    }
}

fn verify(
    h: SpdmBaseHashAlgo,
    a: SpdmBaseAsymAlgo,
    chain: &[u8],
    data: &[u8],
    sig: &SpdmSignatureStruct,
) -> SpdmResult {
    let bad = gate(Op::Verify);
    let v = split_chain(chain).ok_or(SPDM_STATUS_VERIF_FAIL)?;
    let (s, e) = *v.last().unwrap();
    let key = cert_subject(&chain[s..e]);
    let good = sign_with(key, h.bits(), a.bits(), data);
    let ok = !bad && good.is_some() && good.as_deref() == Some(sig.as_ref());
    with(|t| {
        let party = t.party;
        t.verifies.push(SignRec {
            party,
            data: data.to_vec(),
            sig: sig.as_ref().to_vec(),
            asym: a.bits(),
            hash: h.bits(),
            ok,
            key,
        })
    });
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}

fn sign(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, data: &[u8]) -> Option<SpdmSignatureStruct> {
    let bad = gate(Op::Sign);
    let key = with(|t| t.sign_key[t.party as usize]);
    let s = sign_with(key, h.bits(), a.bits(), data)?;
    with(|t| {
        let party = t.party;
        t.signs.push(SignRec {
            party,
            data: data.to_vec(),
            sig: s.clone(),
            asym: a.bits(),
            hash: h.bits(),
            ok: !bad,
            key,
        })
    });
    put_log(|| {
        format!(
            "sign {} {:x} {:x}",
            crate::engine::hex(data),
            h.bits(),
            a.bits()
        )
    });
    if bad {
        return None;
    }
    let mut o = SpdmSignatureStruct {
        data_size: s.len() as u16,
        data: [0; SPDM_MAX_ASYM_KEY_SIZE],
    };
    o.data[..s.len()].copy_from_slice(&s);
    Some(o)
}

// ---- DHE -------------------------------------------------------------

const P: u128 = (1 << 61) - 1;
fn modexp(mut b: u128, mut e: u64) -> u64 {
    let mut r = 1u128;
    b %= P;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r as u64
}
pub fn dhe_size(a: u16) -> Option<usize> {
    match a {
        8 => Some(64),
        0x10 => Some(96),
        _ => None,
    }
}
pub fn dhe_pub(algo: u16, x: u64) -> Vec<u8> {
    let n = dhe_size(algo).unwrap();
    let v = modexp(7, x);
    let mut o = v.to_le_bytes().to_vec();
    o.extend_from_slice(&expand(v | (1 << 62), n - 8));
    o
}
pub fn dhe_secret(algo: u16, x: u64, peer: &[u8]) -> Option<Vec<u8>> {
    let n = dhe_size(algo)?;
    if peer.len() != n {
        return None;
    }
    let v = rd64(peer);
    if v == 0 || v as u128 >= P || expand(v | (1 << 62), n - 8) != peer[8..] {
        return None;
    }
    let s = modexp(v as u128, x);
    Some(sha2::hkdf_expand(
        H::S256,
        &sha2::hash(H::S256, &s.to_le_bytes()),
        b"z",
        n / 2,
    ))
}

struct ToyDhe {
    algo: u16,
    x: u64,
    me: Vec<u8>,
}
impl SpdmDheKeyExchange for ToyDhe {
    fn compute_final_key(
        self: Box<Self>,
        peer: &SpdmDheExchangeStruct,
    ) -> Option<SpdmDheFinalKeyStruct> {
        if gate(Op::DheCompute) {
            return None;
        }
        let s = dhe_secret(self.algo, self.x, peer.as_ref())?;
        with(|t| {
            let p = t.party;
            t.secrets
                .push((p, self.me.clone(), peer.as_ref().to_vec(), s.clone()))
        });
        Some(SpdmDheFinalKeyStruct::from(&s[..]))
    }
}
fn dhe_gen(a: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn SpdmDheKeyExchange>)> {
    if gate(Op::DheGen) {
        return None;
    }
    dhe_size(a.bits())?;
    let x = with(|t| {
        t.rng = mix(t.rng, 0xD4E);
        (t.rng % ((1 << 61) - 3)) + 2
    });
    let p = dhe_pub(a.bits(), x);
    with(|t| {
        let party = t.party;
        t.dhe.push((party, p.clone(), x))
    });
    let mut o = SpdmDheExchangeStruct::default();
    o.data_size = p.len() as u16;
    o.data[..p.len()].copy_from_slice(&p);
    Some((
        o,
        Box::new(ToyDhe {
            algo: a.bits(),
            x,
            me: p,
        }),
    ))
}

// ---- HKDF, random -----------------------------------------------------

fn extract(
    a: SpdmBaseHashAlgo,
    salt: &[u8],
    ikm: &SpdmHkdfInputKeyingMaterial,
) -> Option<SpdmHkdfPseudoRandomKey> {
    if gate(Op::Extract) {
        return None;
    }
    Some(SpdmHkdfPseudoRandomKey::from(
        &sha2::hmac(h_of(a)?, salt, ikm.as_ref())[..],
    ))
}
fn hk_expand(
    a: SpdmBaseHashAlgo,
    prk: &SpdmHkdfPseudoRandomKey,
    info: &[u8],
    n: u16,
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if gate(Op::Expand) {
        return None;
    }
    let h = h_of(a)?;
    if n as usize > SPDM_MAX_HKDF_OKM_SIZE || prk.data_size as usize != h.size() {
        return None;
    }
    let o = sha2::hkdf_expand(h, prk.as_ref(), info, n as usize);
    with(|t| {
        let p = t.party;
        t.okm.push((p, info.to_vec(), o.clone()))
    });
    Some(SpdmHkdfOutputKeyingMaterial::from(&o[..]))
}
fn get_random(d: &mut [u8]) -> SpdmResult<usize> {
    if gate(Op::Rand) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    with(|t| {
        t.rng = mix(t.rng, d.len() as u64);
        let v = expand(t.rng | 1, d.len());
        let p = t.party;
        // the source may come up short
        let n = t.counts[p as usize][Op::Rand as usize] - 1;
        let k = match t.short {
            Some((q, nth, k, sticky)) if q == p && (n == nth || sticky && n > nth) && k < d.len() => {
                t.short_hits += 1;
                k
            }
            _ => d.len(),
        };
        d[..k].copy_from_slice(&v[..k]);
        t.rand_log.push((p, v[..k].to_vec()));
        Ok(k)
    })
}

// ---- measurements, PSK, handlers --------------------------------------

pub fn meas_block(b: &MeasBlock) -> Vec<u8> {
    let mut o = vec![b.index, 1];
    let l = b.value.len() + 3;
    o.extend_from_slice(&(l as u16).to_le_bytes());
    o.push(b.typ);
    o.extend_from_slice(&(b.value.len() as u16).to_le_bytes());
    o.extend_from_slice(&b.value);
    o
}

fn meas_collect(
    _v: SpdmVersion,
    _s: SpdmMeasurementSpecification,
    _h: SpdmMeasurementHashAlgo,
    index: usize,
) -> Option<SpdmMeasurementRecordStructure> {
    if gate(Op::MeasCollect) {
        return None;
    }
    let (blocks, total) = with(|t| {
        t.meas_calls.push(index);
        let total = t.meas.len();
        let sel: Vec<Vec<u8>> = match index {
            0 => vec![],
            0xff => t.meas.iter().map(meas_block).collect(),
            i => t
                .meas
                .iter()
                .filter(|b| b.index as usize == i)
                .map(meas_block)
                .collect(),
        };
        (sel, total)
    });
    if index == 0 {
        return Some(SpdmMeasurementRecordStructure {
            number_of_blocks: total as u8,
            ..Default::default()
        });
    }
    if blocks.is_empty() && index != 0xff {
        return None;
    }
    let mut r = SpdmMeasurementRecordStructure {
        number_of_blocks: blocks.len() as u8,
        ..Default::default()
    };
    let data: Vec<u8> = blocks.concat();
    r.measurement_record_length = codec::u24::new(data.len() as u32);
    r.measurement_record_data[..data.len()].copy_from_slice(&data);
    Some(r)
}
pub fn summary_of(typ: u8, hash: H) -> Vec<u8> {
    let d: Vec<u8> = with(|t| t.meas.iter().map(meas_block).collect::<Vec<_>>().concat());
    let mut x = vec![typ];
    x.extend_from_slice(&d);
    sha2::hash(hash, &x)
}
fn meas_summary(
    _v: SpdmVersion,
    h: SpdmBaseHashAlgo,
    _s: SpdmMeasurementSpecification,
    _m: SpdmMeasurementHashAlgo,
    typ: SpdmMeasurementSummaryHashType,
) -> Option<SpdmDigestStruct> {
    if gate(Op::MeasSummary) {
        return None;
    }
    match typ {
        SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb
        | SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll => {
            Some(dig(summary_of(typ.get_u8(), h_of(h)?)))
        }
        _ => None,
    }
}

pub fn psk_key(p: Party, hint: &[u8]) -> Vec<u8> {
    let mut d = with(|t| t.psk[p as usize].clone());
    d.extend_from_slice(b"|");
    d.extend_from_slice(hint);
    sha2::hash(H::S256, &d)
}
pub fn bin_concat(len: usize, ver: u8, label: &str, ctx: &[u8]) -> Vec<u8> {
    let mut v = (len as u16).to_le_bytes().to_vec();
    v.extend_from_slice(
        format!("spdm{}.{}  ", ver >> 4, ver & 15)
            .as_bytes()
            .get(..8)
            .unwrap(),
    );
    v.extend_from_slice(label.as_bytes());
    v.extend_from_slice(ctx);
    v
}
fn psk_hs(
    _v: SpdmVersion,
    h: SpdmBaseHashAlgo,
    hint: &SpdmPskHintStruct,
    info: &[u8],
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if gate(Op::PskHs) {
        return None;
    }
    let a = h_of(h)?;
    let p = with(|t| {
        let p = t.party;
        t.hints.push((p, hint.as_ref().to_vec()));
        p
    });
    let hs = sha2::hmac(a, &vec![0; a.size()], &psk_key(p, hint.as_ref()));
    let o = sha2::hkdf_expand(a, &hs, info, a.size());
    with(|t| {
        let p = t.party;
        t.okm.push((p, info.to_vec(), o.clone()))
    });
    Some(SpdmHkdfOutputKeyingMaterial::from(&o[..]))
}
fn psk_master(
    v: SpdmVersion,
    h: SpdmBaseHashAlgo,
    hint: &SpdmPskHintStruct,
    info: &[u8],
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if gate(Op::PskMaster) {
        return None;
    }
    let a = h_of(h)?;
    let p = with(|t| t.party);
    let hs = sha2::hmac(a, &vec![0; a.size()], &psk_key(p, hint.as_ref()));
    let salt1 = sha2::hkdf_expand(
        a,
        &hs,
        &bin_concat(a.size(), v.get_u8(), "derived", &[]),
        a.size(),
    );
    let ms = sha2::hmac(a, &salt1, &vec![0; a.size()]);
    let o = sha2::hkdf_expand(a, &ms, info, a.size());
    with(|t| {
        let p = t.party;
        t.okm.push((p, info.to_vec(), o.clone()))
    });
    Some(SpdmHkdfOutputKeyingMaterial::from(&o[..]))
}

fn app(
    _c: &mut ResponderContext,
    sid: u32,
    d: &[u8],
    aux: &[u8],
) -> SpdmResult<([u8; 4096], usize)> {
    if gate(Op::App) {
        return Err(SPDM_STATUS_INVALID_PARAMETER);
    }
    let (bad, r) = with(|t| {
        t.app_log.push(AppRec {
            session: sid,
            data: d.to_vec(),
            aux: aux.to_vec(),
        });
        let r = if t.app_reply.is_empty() {
            d.to_vec()
        } else {
            t.app_reply.remove(0)
        };
        (t.app_fail, r)
    });
    if bad {
        return Err(SPDM_STATUS_INVALID_PARAMETER);
    }
    let mut o = [0u8; 4096];
    let n = r.len().min(4096);
    o[..n].copy_from_slice(&r[..n]);
    Ok((o, n))
}

fn vendor(req: &VendorDefinedReqPayloadStruct) -> SpdmResult<VendorDefinedRspPayloadStruct> {
    if gate(Op::Vendor) {
        return Err(SPDM_STATUS_INVALID_PARAMETER);
    }
    let n = (req.req_length as usize).min(req.vendor_defined_req_payload.len());
    let over = req.req_length as usize > req.vendor_defined_req_payload.len();
    let (bad, r) = with(|t| {
        let mut rec = req.vendor_defined_req_payload[..n].to_vec();
        if over {
            rec.extend_from_slice(b"<declared length exceeds buffer>");
        }
        t.vendor_log.push(rec.clone());
        let r = if t.vendor_reply.is_empty() {
            req.vendor_defined_req_payload[..n].to_vec()
        } else {
            t.vendor_reply.remove(0)
        };
        (t.vendor_fail, r)
    });
    if bad {
        return Err(SPDM_STATUS_INVALID_PARAMETER);
    }
    let mut o = VendorDefinedRspPayloadStruct {
        rsp_length: r.len() as u16,
        vendor_defined_rsp_payload: [0; spdmlib::message::MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
    };
    let k = r.len().min(o.vendor_defined_rsp_payload.len());
    o.vendor_defined_rsp_payload[..k].copy_from_slice(&r[..k]);
    Ok(o)
}

pub fn register() {
    let _ = fnv(b"");
    #[cfg(feature = "hashed")]
    hash::register(SpdmHash {
        hash_all_cb: hash_all,
        hash_ctx_init_cb: hash_init,
        hash_ctx_update_cb: hash_update,
        hash_ctx_finalize_cb: hash_final,
        hash_ctx_dup_cb: hash_dup,
    });
    #[cfg(not(feature = "hashed"))]
    hash::register(SpdmHash {
        hash_all_cb: hash_all,
    });
    hmac::register(SpdmHmac {
        hmac_cb: self::hmac,
        hmac_verify_cb: hmac_verify,
    });
    aead::register(SpdmAead {
        encrypt_cb: encrypt,
        decrypt_cb: decrypt,
    });
    asym_verify::register(SpdmAsymVerify { verify_cb: verify });
    dhe::register(SpdmDhe {
        generate_key_pair_cb: dhe_gen,
    });
    cert_operation::register(SpdmCertOperation {
        get_cert_from_cert_chain_cb: cert_get,
        verify_cert_chain_cb: cert_verify,
    });
    hkdf::register(SpdmHkdf {
        hkdf_extract_cb: extract,
        hkdf_expand_cb: hk_expand,
    });
    rand::register(SpdmCryptoRandom {
        get_random_cb: get_random,
    });
    secret::measurement::register(secret::SpdmSecretMeasurement {
        measurement_collection_cb: meas_collect,
        generate_measurement_summary_hash_cb: meas_summary,
    });
    secret::psk::register(secret::SpdmSecretPsk {
        handshake_secret_hkdf_expand_cb: psk_hs,
        master_secret_hkdf_expand_cb: psk_master,
    });
    secret::asym_sign::register(secret::SpdmSecretAsymSign { sign_cb: sign });
    spdmlib::responder::app_message_handler::register(
        spdmlib::responder::app_message_handler::SpdmAppMessageHandler {
            dispatch_secured_app_message_cb: app,
        },
    );
    spdmlib::message::vendor::register_vendor_defined_struct(
        spdmlib::message::vendor::VendorDefinedStruct {
            vendor_defined_request_handler: vendor,
        },
    );
}
