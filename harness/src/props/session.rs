//! C11 key exchange, C12 key schedule, C13 PSK, C14 mutual authentication.

use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::tap::{self, Shared};
use crate::toy::{self, Party};
use crate::wire::{self, code::*, Tr};
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "honest: a certificate-based session was established, checked on both sides and carried data both ways; tamper/forge/replay: the chosen modification was applied to a frame of the handshake",
            level: "exploration",
            assumptions: &["toy cryptography: signatures, HMAC, DHE and AEAD behave like ideal primitives and depend on every input byte"],
            subs: vec![
                Sub { name: "honest", f: ke_honest, quick: 12000, thorough: 400_000 },
                Sub { name: "tamper", f: ke_tamper, quick: 60000, thorough: 2_000_000 },
                Sub { name: "forge", f: ke_forge, quick: 24000, thorough: 600_000 },
                Sub { name: "replay", f: ke_replay, quick: 16000, thorough: 400_000 },
            ],
        },
        Prop {
            id: "C12",
            rule: "at least one session was established and its handshake, application and exporter secrets and keys were compared with the reference schedule",
            level: "exploration",
            assumptions: &["toy cryptography stands in for the hash, HMAC, DHE and AEAD primitives (SHA-2, HMAC and HKDF are the real algorithms)"],
            subs: vec![Sub { name: "schedule", f: schedule, quick: 40000, thorough: 600_000 }],
        },
        Prop {
            id: "C13",
            rule: "honest: a PSK session was established and carried data; otherwise: the chosen modification or mismatch was applied",
            level: "exploration",
            assumptions: &["toy cryptography: HMAC and AEAD behave like ideal primitives"],
            subs: vec![
                Sub { name: "honest", f: psk_honest, quick: 18000, thorough: 400_000 },
                Sub { name: "tamper", f: psk_tamper, quick: 90000, thorough: 2_000_000 },
                Sub { name: "mismatch", f: psk_mismatch, quick: 18000, thorough: 300_000 },
                Sub { name: "forge", f: psk_forge, quick: 30000, thorough: 500_000 },
            ],
        },
        Prop {
            id: "C14",
            rule: "a session start with mutual authentication ran (honestly, or with the chosen attack applied); plain: a session start without it ran",
            level: "exploration",
            assumptions: &["toy cryptography: signatures and HMAC behave like ideal primitives"],
            subs: vec![
                Sub { name: "honest", f: mut_honest, quick: 6000, thorough: 300_000 },
                Sub { name: "forge", f: mut_forge, quick: 16000, thorough: 800_000 },
                Sub { name: "chain", f: mut_chain, quick: 10000, thorough: 500_000 },
                Sub { name: "known-slot", f: mut_slot, quick: 5000, thorough: 250_000 },
                Sub { name: "served", f: mut_served, quick: 8000, thorough: 400_000 },
                Sub { name: "asked", f: mut_asked, quick: 6000, thorough: 300_000 },
            ],
        },
    ]
}

/// Sessions both sides hold as established with the same keys.
pub fn shared_sessions(w: &mut World) -> Vec<u32> {
    let q = w.req_sessions();
    let s = w.rsp_sessions();
    let mut v = vec![];
    for (id, st) in q {
        if st != SpdmSessionStateN::Established
            || !s.contains(&(id, SpdmSessionStateN::Established))
        {
            continue;
        }
        if keys_of(w, Party::Req, id) == keys_of(w, Party::Rsp, id) {
            v.push(id);
        }
    }
    v
}

pub type Keys = ((Vec<u8>, Vec<u8>, u64), (Vec<u8>, Vec<u8>, u64));
/// (request, response) direction: key, iv, sequence number
pub fn keys_of(w: &mut World, p: Party, id: u32) -> Option<Keys> {
    let c = match p {
        Party::Req => &mut w.req.common,
        Party::Rsp => &mut w.rsp.common,
    };
    let s = c.get_session_via_id(id)?;
    let (a, b) = s.export_keys();
    let f = |x: &spdmlib::common::session::SpdmSessionSecretParam| {
        (
            x.encryption_key.as_ref().to_vec(),
            x.salt.as_ref().to_vec(),
            x.sequence_number,
        )
    };
    Some((f(&a), f(&b)))
}

/// The session both sides hold is the one the specification prescribes.
pub fn check_session(fl: &mut Flow, id: u32) -> CaseResult {
    fl.same_sessions()?;
    let want = match fl
        .a
        .sess
        .iter()
        .rev()
        .find(|s| s.id == id && s.st == St::Established)
    {
        Some(s) => s.clone(),
        None => return fail("observer does not see the session established", fl.ctx()),
    };
    for p in [Party::Req, Party::Rsp] {
        let k = match keys_of(&mut fl.w, p, id) {
            Some(k) => k,
            None => return fail("session missing", format!("{:?} {}", p, fl.ctx())),
        };
        for (i, (key, iv, seq)) in [k.0, k.1].iter().enumerate() {
            let d = &want.app[i];
            ensure!(
                key == &d.key && iv == &d.iv,
                "session keys differ from the specification's",
                "{:?} direction {} {}",
                p,
                i,
                fl.ctx()
            );
            ensure!(
                *seq == d.seq,
                "sequence number differs",
                "{:?} direction {}: {} {} {}",
                p,
                i,
                seq,
                d.seq,
                fl.ctx()
            );
        }
        let c = match p {
            Party::Req => &fl.w.req.common,
            Party::Rsp => &fl.w.rsp.common,
        };
        let s = c.get_immutable_session_via_id(id).unwrap();
        ensure!(
            s.heartbeat_period == fl.g.rsp.heartbeat,
            "heartbeat period",
            "{:?} {} {}",
            p,
            s.heartbeat_period,
            fl.ctx()
        );
        ensure!(
            s.get_use_psk() == want.psk,
            "use_psk",
            "{:?} {}",
            p,
            fl.ctx()
        );
        let cp = s.get_crypto_param();
        ensure!(
            cp.base_hash_algo.bits() == want.neg.hash
                && cp.aead_algo.bits() == want.neg.aead
                && (want.psk || cp.dhe_algo.bits() == want.neg.dhe),
            "session algorithms",
            "{:?} {:?} {}",
            p,
            cp,
            fl.ctx()
        );
    }
    Ok(())
}

/// Data both ways in a session.
pub fn exchange_data(c: &mut Case, fl: &mut Flow, id: u32) -> CaseResult {
    let i = fl.w.open_sessions().iter().position(|x| *x == id);
    let i = match i {
        Some(i) => i,
        None => return fail("session not open at the requester", fl.ctx()),
    };
    let n = c.len_biased(300).max(1);
    let m = c.blob(n);
    if fl.f.mctp && c.chance(2, 3) {
        let reply = c.len_biased(300).max(1);
        let reply = c.blob(reply);
        toy::with(|t| t.app_reply = vec![reply.clone()]);
        let k = toy::with(|t| t.app_log.len());
        match fl.must(Act::App(i, m.clone()))? {
            Out::App(b) => ensure!(
                b == reply,
                "application reply altered",
                "{} {}",
                hex(&b),
                fl.ctx()
            ),
            _ => return fail("session unusable", fl.ctx()),
        }
        let log = toy::with(|t| t.app_log[k..].to_vec());
        ensure!(
            log.len() == 1 && log[0].session == id && log[0].data == m,
            "application message altered",
            "{}",
            fl.ctx()
        );
    } else {
        match fl.must(Act::Vendor(Some(i), 3, vec![1, 2], m.clone()))? {
            Out::Vendor(b) => ensure!(b == m, "vendor reply altered", "{} {}", hex(&b), fl.ctx()),
            _ => return fail("session unusable", fl.ctx()),
        }
    }
    Ok(())
}

fn need_kex(c: &mut Case) -> Cfg {
    let mut g = gen_wide(c);
    g.req.caps |= RQ_KEX;
    g.rsp.caps |= RS_KEX;
    if g.req.versions == [0x10] {
        g.set_versions(&[0x11]);
    }
    g
}

fn ke_honest(c: &mut Case) -> CaseResult {
    let g = need_kex(c);
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let n = c.range(0, 2);
    fl.history(c, n)?;
    let n = c.range(1, 3);
    for _ in 0..n {
        if fl.open() >= 4 {
            break;
        }
        let slot = c.pick(&fl.f.slots);
        let sum = if fl.f.meas {
            c.pick(&[0u8, 1, 0xff])
        } else {
            0
        };
        let id = match fl.must(Act::Ke(slot, sum))? {
            Out::Session(i) => i,
            _ => return fail("no session id", fl.ctx()),
        };
        c.label(if fl.f.clear {
            "handshake in the clear"
        } else {
            "protected handshake"
        });
        if fl.f.mutual {
            c.label("mutual authentication");
        }
        check_session(&mut fl, id)?;
        ensure!(
            fl.w.rsp
                .common
                .get_immutable_session_via_id(id)
                .unwrap()
                .get_slot_id()
                == slot,
            "slot of the session",
            "{}",
            fl.ctx()
        );
        exchange_data(c, &mut fl, id)?;
        let n = c.range(0, 2);
        fl.history(c, n)?;
        c.nontrivial();
    }
    fl.clean(&[])?;
    c.sample(|| format!("{:?} {}", fl.hist, fl.a.dump()));
    Ok(())
}

/// How a message was changed.
pub fn mutate(c: &mut Case, m: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = m.to_vec();
    if v.is_empty() {
        return (vec![c.byte()], "grow");
    }
    match c.weighted(&[6, 2, 1, 1]) {
        0 => {
            let i = c.usize(v.len());
            v[i] ^= 1 << c.below(8);
            (v, "bit")
        }
        1 => {
            let i = c.usize(v.len());
            let old = v[i];
            v[i] = c.byte();
            if v[i] == old {
                v[i] ^= 0xff;
            }
            (v, "byte")
        }
        2 => {
            let i = c.usize(v.len());
            v.truncate(i);
            (v, "truncate")
        }
        _ => {
            // two bytes swapped
            let i = c.usize(v.len());
            let j = c.usize(v.len());
            if v[i] == v[j] {
                v[i] ^= 0x55;
            } else {
                v.swap(i, j);
            }
            (v, "swap")
        }
    }
}

/// Is this message part of the transcript a session start authenticates byte
/// for byte?
fn binding(code: u8) -> bool {
    matches!(
        code,
        GET_VERSION
            | VERSION
            | GET_CAPABILITIES
            | CAPABILITIES
            | NEGOTIATE_ALGORITHMS
            | ALGORITHMS
            | KEY_EXCHANGE
            | KEY_EXCHANGE_RSP
            | FINISH
            | FINISH_RSP
            | PSK_EXCHANGE
            | PSK_EXCHANGE_RSP
            | PSK_FINISH
            | PSK_FINISH_RSP
    )
}

/// Run connect + session start with one message modified in transit. Returns
/// what was modified and the outcome.
struct Tampered {
    hit: Option<(u8, Party, &'static str, bool)>,
    resealed: bool,
    ok: Result<u32, String>,
}
fn tampered_start(
    c: &mut Case,
    g: &Cfg,
    psk: bool,
    hint: &[u8],
    keys: bool,
) -> (World, Shared, Tampered) {
    let mut w = World::new(g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(g)));
    // which frame: the handshake itself more often than the negotiation
    let late = c.chance(2, 3);
    let skip = if late { c.range(0, 9) } else { c.range(0, 14) };
    // the mutation is drawn now, as a tape, so that the closure is pure
    let seed = c.u64();
    let reseal = keys && c.bool();
    let hit: Rc<RefCell<Option<(u8, Party, &'static str, bool)>>> = Rc::new(RefCell::new(None));
    let h2 = hit.clone();
    let started = Rc::new(Cell::new(!late));
    let st2 = started.clone();
    let n = Cell::new(0usize);
    tap::tap(&w, &a, move |a, p, m, b| {
        if !st2.get() || h2.borrow().is_some() {
            return None;
        }
        let i = n.get();
        n.set(i + 1);
        if i != skip {
            return None;
        }
        let mut c = Case::random(seed, false);
        match m {
            Some(m) if m.session.is_none() || reseal => {
                let (v, how) = mutate(&mut c, &m.bytes);
                let f = tap::reframe(a, m, &v);
                if f == b {
                    return None;
                }
                *h2.borrow_mut() = Some((
                    m.bytes.get(1).copied().unwrap_or(0),
                    p,
                    how,
                    m.session.is_some(),
                ));
                Some(vec![f])
            }
            _ => {
                // a protected record: damage the record itself
                let (_, pl) = wire::unframe(a.tr, b)?;
                let mut pl = pl.to_vec();
                let l = rec_len(a.tr, &pl);
                pl.truncate(l);
                let (v, how) = mutate(&mut c, &pl);
                let code = m.map(|m| m.bytes.get(1).copied().unwrap_or(0)).unwrap_or(0);
                *h2.borrow_mut() = Some((code, p, how, true));
                Some(vec![wire::frame(a.tr, true, &v)])
            }
        }
    });
    let mut ok = w.init().map(|_| 0u32).map_err(|e| format!("{:?}", e));
    if ok.is_ok() && !psk {
        if c.bool() {
            let r = w.digest(None);
            ok = r.map(|_| 0).map_err(|e| format!("{:?}", e));
        }
        if ok.is_ok() {
            ok = w.cert(None, 0).map(|_| 0).map_err(|e| format!("{:?}", e));
        }
    }
    started.set(true);
    if ok.is_ok() {
        let sum = 0;
        ok = if psk { w.psk(sum, hint) } else { w.ke(0, sum) }.map_err(|e| format!("{:?}", e));
    }
    let hit = *hit.borrow();
    (
        w,
        a,
        Tampered {
            hit,
            resealed: reseal,
            ok,
        },
    )
}

/// Length of a record without transport padding.
pub fn rec_len(t: Tr, r: &[u8]) -> usize {
    let o = 4 + wire::seq_bytes(t);
    if r.len() < o + 2 {
        return r.len();
    }
    (o + 2 + u16::from_le_bytes([r[o], r[o + 1]]) as usize).min(r.len())
}

fn ke_tamper(c: &mut Case) -> CaseResult {
    let g = need_kex(c);
    toy::with(|t| t.meas = vec![]);
    let (mut w, a, t) = tampered_start(c, &g, false, &[], true);
    let (code, p, how, sealed) = match t.hit {
        None => return Ok(()),
        Some(x) => x,
    };
    c.nontrivial();
    c.label(how);
    let both = shared_sessions(&mut w);
    let ctx = || {
        format!(
            "code {:02x} from {:?} ({}, sealed {}) -> {:?} {} {}",
            code,
            p,
            how,
            sealed,
            t.ok,
            a.borrow().dump(),
            cfg_str(&g)
        )
    };
    if binding(code) {
        c.label("bound message");
        ensure!(
            both.is_empty(),
            "tampered handshake established",
            "{}",
            ctx()
        );
        // (whoever can seal a FINISH_RSP anew is the responder itself)
        if !(sealed && t.resealed) {
            ensure!(
                t.ok.is_err(),
                "tampered handshake reported as a session",
                "{}",
                ctx()
            );
        }
    } else {
        c.label("other message");
        // not part of the session transcript: harmless only if the identities are right
        if !both.is_empty() {
            let n = a.borrow().neg.clone();
            let want = chain_blob(n.h(), g.rsp_chain[0].as_ref().unwrap());
            let have = w.req.common.peer_info.peer_cert_chain[0]
                .as_ref()
                .map(|x| x.as_ref().to_vec());
            ensure!(
                have == Some(want),
                "session with an altered certificate chain",
                "{}",
                ctx()
            );
            let mutual = w
                .rsp
                .common
                .get_immutable_session_via_id(both[0])
                .map_or(false, |s| !s.get_mut_auth_requested().is_empty());
            if mutual {
                let want = chain_blob(n.h(), g.req_chain[0].as_ref().unwrap());
                let have = w.rsp.common.peer_info.peer_cert_chain[0]
                    .as_ref()
                    .map(|x| x.as_ref().to_vec());
                ensure!(
                    have == Some(want),
                    "session with an altered requester chain",
                    "{}",
                    ctx()
                );
            }
        }
    }
    c.sample(ctx);
    Ok(())
}

/// Handshakes that are consistent except for one proof made with a wrong key.
fn ke_forge(c: &mut Case) -> CaseResult {
    let mut g = need_kex(c);
    let kind = c.below(6);
    if kind == 3 || kind == 5 {
        g.req.caps |= RQ_CLEAR;
        g.rsp.caps |= RS_CLEAR;
    } else if kind == 1 {
        g.req.caps &= !RQ_CLEAR;
    }
    let mut fl = Flow::new(c, g.clone());
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let r = fl.w.init();
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    // the audit must see everything from the start: replay the log into it
    {
        let mut b = a.borrow_mut();
        b.catch_up(&fl.w);
    }
    tap::watch(&fl.w, &a);
    let r = fl.w.cert(None, 0);
    ensure!(r.is_ok(), "honest certificate retrieval fails", "{:?}", r);
    let done = Rc::new(Cell::new(false));
    let d2 = done.clone();
    let bit = c.below(8) as u8;
    let pos = c.u64();
    let name = match kind {
        0 => {
            // the device's signature made with another key
            toy::with(|t| t.sign_key[1] = 0xBAD);
            done.set(true);
            "signature by another key"
        }
        1 => {
            // a responder with the right secrets that sends a wrong HMAC in
            // KEY_EXCHANGE_RSP but keeps to its own transcript afterwards
            tap::tap(&fl.w, &a, move |a, p, m, _b| {
                let m = m?.clone();
                if p == Party::Rsp && m.bytes.get(1) == Some(&KEY_EXCHANGE_RSP) && m.p.is_some() {
                    let mut v = m.bytes.clone();
                    let n = v.len();
                    let h = a.neg.h().size();
                    v[n - h + (pos as usize % h)] ^= 1 << bit;
                    let s = a.sess.last_mut().unwrap();
                    let k = s.k.len();
                    s.k[k - h..].copy_from_slice(&v[n - h..]);
                    d2.set(true);
                    return Some(vec![tap::reframe(a, &m, &v)]);
                }
                if p == Party::Req && m.bytes.get(1) == Some(&FINISH) && m.session.is_some() {
                    // the attacker answers itself
                    let ver = a.neg.ver;
                    let tr = a.tr;
                    let id = m.session.unwrap();
                    let f = a
                        .session(id)
                        .map(|s| s.forge(tr, Party::Rsp, false, &[ver, FINISH_RSP, 0, 0]));
                    if let Some(f) = f {
                        answer(f);
                    }
                    return Some(vec![]);
                }
                None
            });
            "KEY_EXCHANGE_RSP HMAC wrong"
        }
        2 | 3 => {
            // the requester's FINISH carries a wrong HMAC (properly sealed)
            tap::tap(&fl.w, &a, move |a, p, m, _b| {
                let m = m?.clone();
                if p == Party::Req && m.bytes.get(1) == Some(&FINISH) {
                    let mut v = m.bytes.clone();
                    let n = v.len();
                    let h = a.neg.h().size();
                    v[n - h + (pos as usize % h)] ^= 1 << bit;
                    d2.set(true);
                    return Some(vec![tap::reframe(a, &m, &v)]);
                }
                None
            });
            "FINISH HMAC wrong"
        }
        4 => {
            // FINISH HMAC made with the response finished key
            tap::tap(&fl.w, &a, move |a, p, m, _b| {
                let m = m?.clone();
                if p == Party::Req && m.bytes.get(1) == Some(&FINISH) {
                    let mut v = m.bytes.clone();
                    let n = v.len();
                    let h = a.neg.h().size();
                    let s = a.sess.last().unwrap();
                    let mut t = s.th(&[&s.ct_req]);
                    t.extend_from_slice(&v[..n - h]);
                    let x = s.hmac(Party::Rsp, &t);
                    v[n - h..].copy_from_slice(&x);
                    d2.set(true);
                    return Some(vec![tap::reframe(a, &m, &v)]);
                }
                None
            });
            "FINISH HMAC by the other key"
        }
        _ => {
            // FINISH never reaches the responder; a made-up FINISH_RSP comes back
            let zero = c.bool();
            tap::tap(&fl.w, &a, move |a, p, m, _b| {
                let m = m?;
                if p == Party::Req && m.bytes.get(1) == Some(&FINISH) {
                    let h = a.neg.h().size();
                    let mut v = vec![a.neg.ver, FINISH_RSP, 0, 0];
                    if a.neg.clear() {
                        let body = if zero {
                            vec![0; h]
                        } else {
                            crate::gen::fill(h, bit)
                        };
                        v.extend_from_slice(&body);
                    }
                    d2.set(true);
                    answer(wire::frame(a.tr, false, &v));
                    return Some(vec![]);
                }
                None
            });
            "made-up FINISH_RSP"
        }
    };
    let r = fl.w.ke(0, 0);
    if !done.get() {
        return Ok(());
    }
    c.nontrivial();
    c.label(name);
    let both = shared_sessions(&mut fl.w);
    ensure!(
        both.is_empty(),
        format!("session established with {}", name),
        "{:?} {} {}",
        r,
        a.borrow().dump(),
        cfg_str(&g)
    );
    ensure!(
        r.is_err(),
        format!("session reported with {}", name),
        "{:?} {} {}",
        r,
        a.borrow().dump(),
        cfg_str(&g)
    );
    if matches!(kind, 2 | 3 | 4) {
        let e =
            fl.w.rsp_sessions()
                .iter()
                .any(|s| s.1 == SpdmSessionStateN::Established);
        ensure!(
            !e,
            format!("responder established with {}", name),
            "{} {}",
            a.borrow().dump(),
            cfg_str(&g)
        );
    }
    Ok(())
}

/// One handshake message replaced by the same message of an earlier handshake.
fn ke_replay(c: &mut Case) -> CaseResult {
    let g = need_kex(c);
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let old: Rc<RefCell<Vec<(Party, u8, usize, Vec<u8>)>>> = Rc::new(RefCell::new(vec![]));
    let o2 = old.clone();
    let seen: Rc<RefCell<HashMap<(bool, u8), usize>>> = Rc::new(RefCell::new(HashMap::new()));
    let s1 = seen.clone();
    tap::tap(&w, &a, move |_a, p, m, b| {
        let m = m?;
        let code = m.bytes.get(1).copied().unwrap_or(0);
        let mut s = s1.borrow_mut();
        let k = s.entry((p == Party::Req, code)).or_insert(0);
        o2.borrow_mut().push((p, code, *k, b.to_vec()));
        *k += 1;
        None
    });
    let r = w
        .init()
        .and_then(|_| w.cert(None, 0))
        .and_then(|_| w.ke(0, 0));
    let id = match r {
        Ok(i) => i,
        Err(e) => {
            return fail(
                "honest session start fails",
                format!("{:?} {}", e, cfg_str(&g)),
            )
        }
    };
    // a second handshake, with or without ending the first session or
    // reconnecting before it
    let mode = c.below(3);
    let wide = mode == 2;
    if mode == 1 {
        let r = w.end(id);
        ensure!(r.is_ok(), "honest End fails", "{:?}", r);
    }
    seen.borrow_mut().clear();
    let recs = old.borrow().clone();
    let first = if wide {
        0
    } else {
        recs.iter().position(|x| x.1 == KEY_EXCHANGE).unwrap_or(0)
    };
    let pick = first + c.usize(recs.len() - first);
    let (tp, tcode, tk, bytes) = recs[pick].clone();
    let base = recs[..first]
        .iter()
        .filter(|x| x.0 == tp && x.1 == tcode)
        .count();
    let tk = tk - base.min(tk);
    let hit = Rc::new(Cell::new(false));
    let h2 = hit.clone();
    tap::tap(&w, &a, move |_a, p, m, b| {
        let m = m?;
        let code = m.bytes.get(1).copied().unwrap_or(0);
        let mut s = seen.borrow_mut();
        let k = s.entry((p == Party::Req, code)).or_insert(0);
        let now = *k;
        *k += 1;
        if p == tp && code == tcode && now == tk && b != &bytes[..] {
            h2.set(true);
            return Some(vec![bytes.clone()]);
        }
        None
    });
    let before = shared_sessions(&mut w);
    let r = if wide {
        w.init().and_then(|_| w.cert(None, 0))
    } else {
        Ok(())
    };
    let r = r.and_then(|_| w.ke(0, 0));
    if !hit.get() {
        return Ok(());
    }
    c.nontrivial();
    let both: Vec<u32> = shared_sessions(&mut w)
        .into_iter()
        .filter(|x| wide || !before.contains(x))
        .collect();
    let ctx = || {
        format!(
            "{:02x} from {:?} replayed, mode {} -> {:?} {} {}",
            tcode,
            tp,
            mode,
            r,
            a.borrow().dump(),
            cfg_str(&g)
        )
    };
    if binding(tcode) {
        c.label("bound message");
        ensure!(
            both.is_empty(),
            "replayed handshake established",
            "{}",
            ctx()
        );
        ensure!(
            r.is_err(),
            "replayed handshake reported as a session",
            "{}",
            ctx()
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn schedule(c: &mut Case) -> CaseResult {
    let mut g = gen_wide(c);
    if c.chance(1, 4) {
        // PSK sessions exist from 1.1 on and need no signatures
        g.set_versions(&[0x11]);
        g.req.caps |= RQ_PSK;
        if g.rsp.caps & RS_PSK_NOCTX == 0 {
            g.rsp.caps |= RS_PSK_CTX;
        }
    }
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let n = c.range(2, 9);
    for _ in 0..n {
        let open = fl.open();
        let act = if open < 4 && c.chance(1, 3) {
            match (fl.f.kex, fl.f.psk) {
                (true, false) => Act::Ke(0, 0),
                (true, true) if c.bool() => Act::Ke(0, 0),
                (_, true) => {
                    let k = c.range(0, 32);
                    Act::Psk(0, c.blob(k))
                }
                _ => gen_op(c, &fl.f, open),
            }
        } else {
            gen_op(c, &fl.f, open)
        };
        fl.must(act)?;
    }
    for id in fl.w.open_sessions() {
        check_session(&mut fl, id)?;
    }
    fl.clean(&[
        "record",
        "hmac",
        "key-exchange",
        "psk",
        "finish",
        "session-id",
    ])?;
    let okm = toy::with(|t| t.okm.clone());
    let sess = fl.a.sess.clone();
    let mut keys: HashMap<Vec<u8>, String> = HashMap::new();
    for (i, s) in sess.iter().enumerate() {
        if s.th2.is_empty() {
            continue;
        }
        c.nontrivial();
        c.label(match (s.psk, s.neg.aead) {
            (true, _) => "PSK",
            (_, 1) => "DHE AES-128-GCM",
            (_, 2) => "DHE AES-256-GCM",
            _ => "DHE ChaCha20-Poly1305",
        });
        if s.neg.ver == 0x11 {
            c.label("version 1.1");
        }
        // every secret of the schedule, derived by both parties
        let h = s.neg.h();
        let want: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![
            ("req hs data", s.th1.clone(), s.hs_sec[0].clone()),
            ("rsp hs data", s.th1.clone(), s.hs_sec[1].clone()),
            ("finished", vec![], s.fin[0].clone()),
            ("finished", vec![], s.fin[1].clone()),
            ("req app data", s.th2.clone(), s.app_sec[0].clone()),
            ("rsp app data", s.th2.clone(), s.app_sec[1].clone()),
            ("exp master", s.th2.clone(), s.exporter.clone()),
        ];
        for p in [Party::Req, Party::Rsp] {
            for (l, x, out) in &want {
                let info = toy::bin_concat(h.size(), s.neg.ver, l, x);
                ensure!(
                    okm.iter().any(|o| o.0 == p && o.1 == info && o.2 == *out),
                    format!("secret \"{}\" is not the specification's", l),
                    "{:?} session {:x} {}",
                    p,
                    s.id,
                    fl.ctx()
                );
            }
        }
        let mut add = |k: &Vec<u8>, what: String| -> CaseResult {
            if let Some(o) = keys.insert(k.clone(), what.clone()) {
                return fail("key shared", format!("{} and {}", o, what));
            }
            Ok(())
        };
        for d in 0..2 {
            add(&s.hs[d].key, format!("session {} handshake {}", i, d))?;
            add(&s.app[d].key, format!("session {} application {}", i, d))?;
            add(&s.fin[d], format!("session {} finished {}", i, d))?;
        }
        add(&s.exporter, format!("session {} exporter", i))?;
    }
    // what the AEAD was really given: one key, one sender, one session
    let mut by: HashMap<Vec<u8>, (Party, Vec<u8>)> = HashMap::new();
    for e in toy::with(|t| t.enc.clone()) {
        let id = e.aad[..4.min(e.aad.len())].to_vec();
        let v = by.entry(e.key.clone()).or_insert((e.party, id.clone()));
        ensure!(
            *v == (e.party, id),
            "record key used by two senders or sessions",
            "{}",
            fl.ctx()
        );
        let want = if fl.a.neg.aead == 1 { 16 } else { 32 };
        ensure!(
            e.key.len() == want,
            "record key length",
            "{} {}",
            e.key.len(),
            fl.ctx()
        );
    }
    c.sample(|| format!("{:?} {}", fl.hist, fl.a.dump()));
    Ok(())
}

// ---------------------------------------------------------------- C13

fn need_psk(c: &mut Case) -> Cfg {
    let mut g = gen_wide(c);
    g.req.caps |= RQ_PSK;
    if g.rsp.caps & RS_PSK_NOCTX == 0 {
        g.rsp.caps |= RS_PSK_CTX;
    }
    if c.chance(1, 3) || g.req.versions == [0x10] {
        g.set_versions(&[0x11]);
    }
    g
}

fn psk_honest(c: &mut Case) -> CaseResult {
    let g = need_psk(c);
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let key = c.blob(16);
    toy::with(|t| t.psk = [key.clone(), key.clone()]);
    let n = c.range(0, 2);
    fl.history(c, n)?;
    let n = c.range(1, 3);
    for _ in 0..n {
        if fl.open() >= 4 {
            break;
        }
        let k = c.range(0, 32);
        let hint = c.blob(k);
        let sum = if fl.f.meas {
            c.pick(&[0u8, 1, 0xff])
        } else {
            0
        };
        let id = if c.chance(1, 3) {
            // the library's own session start (no hint)
            let r = fl.w.rq(|r| r.start_session(true, 0, summary(sum)));
            fl.a.catch_up(&fl.w);
            match r {
                Ok(i) => i,
                Err(e) => {
                    return fail(
                        "honest PSK session start fails",
                        format!("{:?} {}", e, fl.ctx()),
                    )
                }
            }
        } else {
            let id = match fl.must(Act::Psk(sum, hint.clone()))? {
                Out::Session(i) => i,
                _ => return fail("no session id", fl.ctx()),
            };
            let h = toy::with(|t| t.hints.clone());
            for p in [Party::Req, Party::Rsp] {
                let l = h.iter().rev().find(|x| x.0 == p);
                ensure!(
                    l.map(|x| &x.1) == Some(&hint),
                    "hint altered",
                    "{:?} {:?} {}",
                    p,
                    l,
                    fl.ctx()
                );
            }
            id
        };
        c.label(if fl.g.rsp.caps & RS_PSK_NOCTX != 0 {
            "no responder context"
        } else {
            "responder context"
        });
        check_session(&mut fl, id)?;
        exchange_data(c, &mut fl, id)?;
        let n = c.range(0, 2);
        fl.history(c, n)?;
        c.nontrivial();
    }
    fl.clean(&[])?;
    c.sample(|| format!("{:?} {}", fl.hist, fl.a.dump()));
    Ok(())
}

fn psk_tamper(c: &mut Case) -> CaseResult {
    let g = need_psk(c);
    toy::with(|t| t.meas = vec![]);
    let k = c.range(0, 32);
    let hint = c.blob(k);
    let (mut w, a, t) = tampered_start(c, &g, true, &hint, true);
    let (code, p, how, sealed) = match t.hit {
        None => return Ok(()),
        Some(x) => x,
    };
    if !binding(code) {
        return Ok(());
    }
    c.nontrivial();
    c.label(how);
    let both = shared_sessions(&mut w);
    let ctx = || {
        format!(
            "code {:02x} from {:?} ({}, sealed {}) -> {:?} {} {}",
            code,
            p,
            how,
            sealed,
            t.ok,
            a.borrow().dump(),
            cfg_str(&g)
        )
    };
    ensure!(
        both.is_empty(),
        "tampered PSK handshake established",
        "{}",
        ctx()
    );
    if !(sealed && t.resealed && code == PSK_FINISH_RSP) {
        ensure!(
            t.ok.is_err(),
            "tampered PSK handshake reported as a session",
            "{}",
            ctx()
        );
    }
    if code == PSK_FINISH && p == Party::Req {
        let e = w
            .rsp_sessions()
            .iter()
            .any(|s| s.1 == SpdmSessionStateN::Established);
        ensure!(
            !e,
            "responder established with an altered PSK_FINISH",
            "{}",
            ctx()
        );
    }
    c.sample(ctx);
    Ok(())
}

fn psk_mismatch(c: &mut Case) -> CaseResult {
    let g = need_psk(c);
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let r = w.init();
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    let (a, b) = (c.blob(16), c.blob(16));
    if a == b {
        return Ok(());
    }
    let side = c.usize(2);
    toy::with(|t| {
        t.psk[side] = a;
        t.psk[1 - side] = b;
    });
    let k = c.range(0, 32);
    let hint = c.blob(k);
    let r = w.psk(0, &hint);
    c.nontrivial();
    let both = shared_sessions(&mut w);
    ensure!(
        both.is_empty() && r.is_err(),
        "session with different pre-shared keys",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    ensure!(
        w.req_sessions().is_empty(),
        "requester keeps a session with another key",
        "{}",
        cfg_str(&g)
    );
    if g.rsp.caps & RS_PSK_NOCTX == 0 {
        let e = w
            .rsp_sessions()
            .iter()
            .any(|s| s.1 == SpdmSessionStateN::Established);
        ensure!(
            !e,
            "responder established with another key",
            "{}",
            cfg_str(&g)
        );
    }
    Ok(())
}

fn psk_forge(c: &mut Case) -> CaseResult {
    let mut g = need_psk(c);
    let kind = c.below(4);
    if kind > 0 {
        g.rsp.caps &= !RS_PSK_NOCTX;
        g.rsp.caps |= RS_PSK_CTX;
    }
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let done = Rc::new(Cell::new(false));
    let d2 = done.clone();
    let (bit, pos) = (c.below(8) as u8, c.u64());
    let name = [
        "PSK_EXCHANGE_RSP HMAC wrong",
        "PSK_FINISH HMAC wrong",
        "PSK_FINISH HMAC by the other key",
        "made-up PSK_FINISH_RSP",
    ][kind as usize];
    tap::tap(&w, &a, move |a, p, m, _b| {
        let m = m?.clone();
        let code = m.bytes.get(1).copied().unwrap_or(0);
        let mut v = m.bytes.clone();
        let n = v.len();
        let h = a.neg.h().size();
        match (kind, p, code) {
            (0, Party::Rsp, PSK_EXCHANGE_RSP) => {
                v[n - h + (pos as usize % h)] ^= 1 << bit;
                let s = a.sess.last_mut().unwrap();
                let k = s.k.len();
                s.k[k - h..].copy_from_slice(&v[n - h..]);
                d2.set(true);
                Some(vec![tap::reframe(a, &m, &v)])
            }
            (0, Party::Req, PSK_FINISH) => {
                // the attacker answers itself
                let (ver, tr) = (a.neg.ver, a.tr);
                let f = a
                    .session(m.session?)
                    .map(|s| s.forge(tr, Party::Rsp, false, &[ver, PSK_FINISH_RSP, 0, 0]));
                answer(f?);
                Some(vec![])
            }
            (1, Party::Req, PSK_FINISH) => {
                v[n - h + (pos as usize % h)] ^= 1 << bit;
                d2.set(true);
                Some(vec![tap::reframe(a, &m, &v)])
            }
            (2, Party::Req, PSK_FINISH) => {
                let s = a.sess.last().unwrap();
                let mut t = s.th(&[]);
                t.extend_from_slice(&v[..n - h]);
                let x = s.hmac(Party::Rsp, &t);
                v[n - h..].copy_from_slice(&x);
                d2.set(true);
                Some(vec![tap::reframe(a, &m, &v)])
            }
            (3, Party::Req, PSK_FINISH) => {
                d2.set(true);
                answer(wire::frame(a.tr, false, &[a.neg.ver, PSK_FINISH_RSP, 0, 0]));
                Some(vec![])
            }
            _ => None,
        }
    });
    let k = c.range(0, 32);
    let hint = c.blob(k);
    let r = w.init();
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    let r = w.psk(0, &hint);
    if !done.get() {
        return Ok(());
    }
    c.nontrivial();
    c.label(name);
    let both = shared_sessions(&mut w);
    let ctx = || format!("{:?} {} {}", r, a.borrow().dump(), cfg_str(&g));
    ensure!(
        both.is_empty(),
        format!("PSK session established with {}", name),
        "{}",
        ctx()
    );
    ensure!(
        r.is_err(),
        format!("PSK session reported with {}", name),
        "{}",
        ctx()
    );
    if kind == 1 || kind == 2 {
        let e = w
            .rsp_sessions()
            .iter()
            .any(|s| s.1 == SpdmSessionStateN::Established);
        ensure!(
            !e,
            format!("responder established with {}", name),
            "{}",
            ctx()
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn need_mut(c: &mut Case) -> Cfg {
    let mut g = need_kex(c);
    g.req.caps |= RQ_MUT | RQ_ENCAP;
    g.rsp.caps |= RS_MUT | RS_ENCAP;
    g.req.caps &= !RQ_CLEAR;
    g
}

fn mut_honest(c: &mut Case) -> CaseResult {
    let plain = c.chance(1, 3);
    let mut g = if plain { need_kex(c) } else { need_mut(c) };
    if plain {
        match c.below(3) {
            0 => g.req.caps &= !RQ_MUT,
            1 => g.rsp.caps &= !RS_MUT,
            _ => {
                g.req.caps |= RQ_CLEAR;
                g.rsp.caps |= RS_CLEAR;
            }
        }
    }
    // requester chains of every length, in several slots
    let n = c.range(1, 4);
    let len = if c.chance(1, 6) {
        c.range(n * toy::CERT_MIN, 4096)
    } else {
        c.range(n * toy::CERT_MIN, 1500)
    };
    let seed = c.below(1 << 16) + 1;
    let ch = toy::make_chain(REQ_ROOT, 0x51, n, len, seed);
    if g.rsp_trust.is_some() {
        let v = toy::split_chain(&ch).unwrap();
        g.rsp_trust = Some(ch[..v[0].1].to_vec());
    }
    g.req_chain[0] = Some(ch);
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let n = c.range(1, 3);
    for _ in 0..n {
        if fl.open() >= 4 {
            break;
        }
        let s0 = fl.a.signed[3];
        let slot = c.pick(&fl.f.slots);
        let id = match fl.must(Act::Ke(slot, 0))? {
            Out::Session(i) => i,
            _ => return fail("no session id", fl.ctx()),
        };
        c.nontrivial();
        check_session(&mut fl, id)?;
        let asked = !fl
            .w
            .rsp
            .common
            .get_immutable_session_via_id(id)
            .unwrap()
            .get_mut_auth_requested()
            .is_empty();
        ensure!(
            asked == !plain,
            "mutual authentication requested",
            "{} {}",
            asked,
            fl.ctx()
        );
        if asked {
            c.label("mutual");
            let h = fl.a.neg.h();
            let want = chain_blob(h, fl.g.req_chain[0].as_ref().unwrap());
            let have = fl.w.rsp.common.peer_info.peer_cert_chain[0]
                .as_ref()
                .map(|x| x.as_ref().to_vec());
            ensure!(
                have == Some(want),
                "requester chain not retrieved exactly",
                "{}",
                fl.ctx()
            );
            ensure!(
                fl.a.signed[3] == s0 + 1,
                "FINISH without a signature",
                "{}",
                fl.ctx()
            );
        } else {
            c.label("plain");
            ensure!(
                fl.a.signed[3] == s0,
                "FINISH with a signature",
                "{}",
                fl.ctx()
            );
        }
        exchange_data(c, &mut fl, id)?;
        let n = c.range(0, 2);
        fl.history(c, n)?;
    }
    fl.clean(&[])?;
    c.sample(|| format!("{:?} {}", fl.hist, fl.a.dump()));
    Ok(())
}

/// Requesters that know the session secrets but not the key of the chain.
fn mut_forge(c: &mut Case) -> CaseResult {
    let g = need_mut(c);
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let done = Rc::new(Cell::new(false));
    let d2 = done.clone();
    let kind = c.below(8);
    let seed = c.u64();
    let name = [
        "a signature by another key",
        "no signature",
        "an altered signature",
        "a signature over another transcript",
        "a signature with the wrong context",
        "the signature of an earlier session",
        "the responder's signing key",
        "no certificate retrieval",
    ][kind as usize];
    let prev: Rc<RefCell<Vec<u8>>> = Rc::new(RefCell::new(vec![]));
    let armed = Rc::new(Cell::new(kind != 5));
    let (pv, ar) = (prev.clone(), armed.clone());
    tap::tap(&w, &a, move |a, p, m, _b| {
        let m = m?.clone();
        let code = m.bytes.get(1).copied().unwrap_or(0);
        if p == Party::Req && kind == 7 && (code == GET_ENCAP) && m.session.is_some() {
            // skip the retrieval: tell the requester there is nothing to do
            let (ver, tr) = (a.neg.ver, a.tr);
            let id = m.session?;
            let f = a
                .session(id)
                .map(|s| s.forge(tr, Party::Rsp, false, &[ver, ENCAP_RESPONSE_ACK, 1, 0]))?;
            answer(f);
            d2.set(true);
            return Some(vec![]);
        }
        if p != Party::Req || code != FINISH || m.session.is_none() {
            return None;
        }
        let p = m.p.clone()?;
        let mut v = m.bytes.clone();
        let h = a.neg.h().size();
        let sl = toy::sig_size(a.neg.req_asym as u32)?;
        let n = v.len();
        if n != 4 + sl + h {
            return None;
        }
        let _ = p;
        if !ar.get() {
            *pv.borrow_mut() = v[4..4 + sl].to_vec();
            return None;
        }
        let s = a.session(m.session?)?.clone();
        let base = s.th(&[&s.ct_req, &v[..4]]);
        let sign = |key: u64, ctx: &str, t: &[u8]| {
            toy::sign_with(
                key,
                s.neg.hash,
                s.neg.req_asym as u32,
                &sign_data(s.neg.ver, s.neg.h(), ctx, t),
            )
            .unwrap()
        };
        let good = "requester-finish signing";
        match kind {
            0 => v[4..4 + sl].copy_from_slice(&sign(0xBAD ^ (seed & 0xff0), good, &base)),
            1 => {
                v[2] &= !1;
                v.drain(4..4 + sl);
            }
            2 => {
                let i = 4 + (seed as usize) % sl;
                v[i] ^= 1 << ((seed >> 40) & 7);
            }
            3 => {
                let t = match seed % 3 {
                    0 => s.th(&[&v[..4]]),
                    1 => [&s.a[..], &s.k[..], &s.ct_req[..], &v[..4]].concat(),
                    _ => s.th(&[&s.ct_req]),
                };
                v[4..4 + sl].copy_from_slice(&sign(0x51, good, &t));
            }
            4 => {
                let x = [
                    "responder-finish signing",
                    "requester-challenge_auth signing",
                    "responder-key_exchange_rsp signing",
                ][seed as usize % 3];
                v[4..4 + sl].copy_from_slice(&sign(0x51, x, &base));
            }
            5 => {
                let o = pv.borrow().clone();
                if o.len() != sl || v[4..4 + sl] == o[..] {
                    return None;
                }
                v[4..4 + sl].copy_from_slice(&o);
            }
            6 => v[4..4 + sl].copy_from_slice(&sign(0xA1, good, &base)),
            _ => return None,
        }
        // with an HMAC that fits
        let n = v.len();
        let mut t = s.th(&[&s.ct_req]);
        t.extend_from_slice(&v[..n - h]);
        let x = s.hmac(Party::Req, &t);
        v[n - h..].copy_from_slice(&x);
        d2.set(true);
        Some(vec![tap::reframe(a, &m, &v)])
    });
    if a.borrow().neg.ver < 0x12 && kind == 4 && g.req.versions[0] < 0x12 {
        // contexts exist from 1.2 on
        return Ok(());
    }
    let r = w.init().and_then(|_| w.cert(None, 0));
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    let mut keep = None;
    if kind == 5 {
        let r = w.ke(0, 0);
        ensure!(r.is_ok(), "honest Ke fails", "{:?} {}", r, cfg_str(&g));
        keep = r.ok();
        armed.set(true);
    }
    let r = w.ke(0, 0);
    if !done.get() {
        return Ok(());
    }
    c.nontrivial();
    c.label(name);
    let ctx = || format!("{:?} {} {}", r, a.borrow().dump(), cfg_str(&g));
    let e = w
        .rsp_sessions()
        .iter()
        .any(|s| s.1 == SpdmSessionStateN::Established && Some(s.0) != keep);
    ensure!(
        !e,
        format!("responder established a session on {}", name),
        "{}",
        ctx()
    );
    ensure!(
        r.is_err(),
        format!("session reported with {}", name),
        "{}",
        ctx()
    );
    Ok(())
}

/// The requester's chain altered or replaced on its way to the responder.
fn mut_chain(c: &mut Case) -> CaseResult {
    let mut g = need_mut(c);
    let kind = c.below(7);
    let other = c.below(1 << 16) + 1;
    let name = [
        "foreign root",
        "altered chain",
        "altered digest or length",
        "altered encapsulated response",
        "key not of the chain",
        "another encapsulated response",
        "certificate of another slot or size",
    ][kind as usize];
    match kind {
        0 => {
            // the responder trusts another root
            let ch = toy::make_chain(0x9999, 0x51, 2, 200, other);
            let v = toy::split_chain(&ch).unwrap();
            g.rsp_trust = Some(ch[..v[0].1].to_vec());
        }
        4 => {
            // a chain of somebody else
            g.req_chain[0] = Some(toy::make_chain(REQ_ROOT, 0x52, 2, 300, other));
            g.rsp_trust = None;
        }
        _ => {}
    }
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let done = Rc::new(Cell::new(kind == 0 || kind == 4));
    let d2 = done.clone();
    let seed = c.u64();
    let skip = c.range(0, 3);
    let seen = Cell::new(0usize);
    if kind != 0 && kind != 4 {
        tap::tap(&w, &a, move |a, p, m, _b| {
            let m = m?.clone();
            if p != Party::Req
                || m.bytes.get(1) != Some(&DELIVER_ENCAP)
                || m.session.is_none()
                || d2.get()
            {
                return None;
            }
            let mut v = m.bytes.clone();
            let code = *v.get(5)?;
            let mut c = Case::random(seed, false);
            match kind {
                1 if code == CERTIFICATE && v.len() > 12 => {
                    let i = seen.get();
                    seen.set(i + 1);
                    if i != skip % 2 {
                        return None;
                    }
                    // any byte of the chain portion
                    let i = 12 + c.usize(v.len() - 12);
                    v[i] ^= 1 << c.below(8);
                }
                2 if code == CERTIFICATE && v.len() > 12 => {
                    // the length fields or the root hash at the chain's start
                    let i = 12 + c.usize((4 + 32).min(v.len() - 12));
                    if (14..16).contains(&i) {
                        return None; // reserved bytes of the chain header
                    }
                    v[i] ^= 1 << c.below(8);
                }
                3 => {
                    let i = seen.get();
                    seen.set(i + 1);
                    if i != skip {
                        return None;
                    }
                    let (x, _) = mutate(&mut c, &v[4..]);
                    v.truncate(4);
                    v.extend_from_slice(&x);
                }
                6 if code == CERTIFICATE && v.len() > 12 => {
                    let i = seen.get();
                    seen.set(i + 1);
                    if i != skip % 2 {
                        return None;
                    }
                    match c.below(5) {
                        0 => v[6] = (v[6] & 0xf0) | ((v[6] + 1 + c.below(7) as u8) & 7),
                        1 => v[6] = c.pick(&[8u8, 0x7f, 0x80, 0xff]),
                        2 => v[4] = c.pick(&[0x10u8, 0x11, 0x12, 0x13, 0x20, 0]),
                        3 => v[10] ^= 1 << c.below(8),
                        _ => v[11] ^= 1 << c.below(4),
                    }
                    if v == m.bytes {
                        return None;
                    }
                }
                5 => {
                    let i = seen.get();
                    seen.set(i + 1);
                    if i != skip {
                        return None;
                    }
                    let ver = a.neg.ver;
                    let x = match c.below(7) {
                        0 | 1 => vec![
                            ver,
                            ERROR,
                            c.pick(&[1u8, 3, 4, 5, 6, 7, 0x41, 0x42, 0x43, 0xff]),
                            0,
                        ],
                        2 => vec![ver, ERROR, 0x42, 0, 1, 0x82, 1, 1],
                        3 => vec![ver, CERTIFICATE, 0, 0, 0, 0, 0, 0],
                        4 => {
                            let n = c.pick(&[1u16, 100, 4096, 0xffff]);
                            vec![ver, CERTIFICATE, 0, 0, 0, 0, n as u8, (n >> 8) as u8]
                        }
                        5 => vec![ver, c.byte(), 0, 0],
                        _ => vec![],
                    };
                    if x == v[4..] {
                        return None;
                    }
                    v.truncate(4);
                    v.extend_from_slice(&x);
                }
                _ => return None,
            }
            d2.set(true);
            Some(vec![tap::reframe(a, &m, &v)])
        });
    }
    let r = w.init().and_then(|_| w.cert(None, 0));
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    let r = w.ke(0, 0);
    if !done.get() {
        return Ok(());
    }
    c.nontrivial();
    c.label(name);
    let ctx = || format!("{:?} {} {}", r, a.borrow().dump(), cfg_str(&g));
    let est = w
        .rsp_sessions()
        .iter()
        .any(|s| s.1 == SpdmSessionStateN::Established);
    if kind == 3 || kind == 5 {
        // harmless changes exist (reserved fields, digests); what is kept must be right
        if est {
            let n = w.rsp.common.negotiate_info.base_hash_sel.bits();
            let h = match n {
                1 => crate::sha2::H::S256,
                4 => crate::sha2::H::S512,
                _ => crate::sha2::H::S384,
            };
            let want = chain_blob(h, g.req_chain[0].as_ref().unwrap());
            let have = w.rsp.common.peer_info.peer_cert_chain[0]
                .as_ref()
                .map(|x| x.as_ref().to_vec());
            ensure!(
                have == Some(want),
                "session with an altered requester chain",
                "{}",
                ctx()
            );
        }
        return Ok(());
    }
    ensure!(
        !est,
        format!("responder established a session: {}", name),
        "{}",
        ctx()
    );
    ensure!(
        r.is_err(),
        format!("session reported: {}", name),
        "{}",
        ctx()
    );
    Ok(())
}

/// A responder that asks for the chain of a slot it already knows.
fn mut_slot(c: &mut Case) -> CaseResult {
    let mut g = need_mut(c);
    let slot = c.usize(8);
    let n = c.range(1, 3);
    let seed = c.below(1 << 16) + 1;
    g.req_chain[slot] = Some(toy::make_chain(
        REQ_ROOT + 5,
        0x51,
        n,
        c.range(n * 52, 700),
        seed,
    ));
    let ask = if c.chance(1, 4) { c.usize(8) } else { slot };
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let done = Rc::new(Cell::new(0));
    let d2 = done.clone();
    tap::tap_pre(&w, &a, move |a, p, b| {
        let (sec, pl) = wire::unframe(a.tr, b)?;
        if p == Party::Rsp && !sec && pl.get(1) == Some(&KEY_EXCHANGE_RSP) {
            let q = wire::parse(pl, &a.px()).ok()?;
            let mut v = pl[..q.used].to_vec();
            let o = q.off("mut_auth");
            v[o] = 1;
            v[q.off("req_slot")] = ask as u8;
            let v = tap::resign_ke(a, &v, 0xA1)?;
            d2.set(1);
            return Some(vec![wire::frame(a.tr, false, &v)]);
        }
        if p == Party::Req && sec && d2.get() == 1 {
            // the model responder takes over: this should be FINISH
            let mut x = a.clone();
            x.feed(p, b);
            let m = x.msgs.last()?.clone();
            if m.bytes.get(1) == Some(&FINISH) {
                d2.set(2);
                let (ver, tr) = (a.neg.ver, a.tr);
                let f = x
                    .session(m.session?)
                    .map(|s| s.forge(tr, Party::Rsp, false, &[ver, FINISH_RSP, 0, 0]))?;
                a.feed(p, b);
                answer(f);
            } else {
                a.feed(p, b);
            }
            return Some(vec![]);
        }
        None
    });
    let r = w.init().and_then(|_| w.cert(None, 0));
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    let r = w.ke(0, 0);
    if done.get() == 0 {
        return Ok(());
    }
    c.nontrivial();
    let a = a.borrow();
    let ctx = || {
        format!(
            "slot {} {:?} {} {:?} {}",
            ask,
            r,
            a.dump(),
            a.issues,
            cfg_str(&g)
        )
    };
    if g.req_chain[ask].is_none() {
        c.label("slot not provisioned");
        ensure!(
            r.is_err(),
            "mutual authentication with an empty slot",
            "{}",
            ctx()
        );
        return Ok(());
    }
    c.label("known slot");
    let m = a
        .msgs
        .iter()
        .rev()
        .find(|m| m.from == Party::Req && m.bytes.get(1) == Some(&FINISH));
    match m {
        None => return fail("no FINISH for a known slot", ctx()),
        Some(m) => {
            ensure!(m.bytes[2] & 1 == 1, "FINISH without signature", "{}", ctx());
            ensure!(
                m.bytes[3] == ask as u8,
                "FINISH for another slot",
                "{} {}",
                m.bytes[3],
                ctx()
            );
        }
    }
    ensure!(
        a.issues_of(&["finish"]).is_none(),
        "FINISH of a known slot does not verify",
        "{}",
        ctx()
    );
    ensure!(r.is_ok(), "session with a known slot fails", "{}", ctx());
    Ok(())
}

/// What the requester owes for an encapsulated request: the exact answer, an
/// ERROR, or nothing at all.
#[derive(Clone, Debug)]
enum Owed {
    This(Vec<u8>),
    Error,
    Silence,
}

fn gen_inner(c: &mut Case, a: &Audit, g: &Cfg) -> (Vec<u8>, Owed) {
    let (ver, h) = (a.neg.ver, a.neg.h());
    let blobs: Vec<Option<Vec<u8>>> = g
        .req_chain
        .iter()
        .map(|x| x.as_ref().map(|x| chain_blob(h, x)))
        .collect();
    let (mut m, mut owed) = if c.chance(1, 3) {
        let mut o = vec![ver, DIGESTS, 0, 0];
        for (i, b) in blobs.iter().enumerate() {
            if let Some(b) = b {
                o[3] |= 1 << i;
                o.extend(crate::sha2::hash(h, b));
            }
        }
        (vec![ver, GET_DIGESTS, 0, 0], Owed::This(o))
    } else {
        let slot = if c.chance(3, 4) {
            let v: Vec<usize> = (0..8).filter(|i| blobs[*i].is_some()).collect();
            c.pick(&v)
        } else {
            c.usize(16)
        };
        let size = blobs
            .get(slot)
            .and_then(|x| x.as_ref())
            .map(|x| x.len())
            .unwrap_or(100);
        let off = match c.weighted(&[3, 3, 1, 1, 1]) {
            0 => 0,
            1 => c.usize(size),
            2 => size,
            3 => size + 1,
            _ => c.usize(0x10000),
        };
        let len = match c.weighted(&[3, 3, 2, 1]) {
            0 => 512,
            1 => c.usize(600),
            2 => size.saturating_sub(off).min(0xffff),
            _ => c.usize(0x10000),
        };
        let mut m = vec![ver, GET_CERTIFICATE, slot as u8, 0];
        m.extend_from_slice(&(off as u16).to_le_bytes());
        m.extend_from_slice(&(len as u16).to_le_bytes());
        let owed = match blobs.get(slot).and_then(|x| x.as_ref()) {
            Some(b) if off <= b.len() => {
                let n = len.min(512).min(b.len() - off);
                let mut o = vec![ver, CERTIFICATE, slot as u8, 0];
                o.extend_from_slice(&(n as u16).to_le_bytes());
                o.extend_from_slice(&((b.len() - off - n) as u16).to_le_bytes());
                o.extend_from_slice(&b[off..off + n]);
                Owed::This(o)
            }
            _ => Owed::Error,
        };
        (m, owed)
    };
    match c.weighted(&[10, 1, 1, 1, 1]) {
        1 => {
            m[0] = c.pick(&[0u8, 0x10, 0x11, 0x12, 0x13, 0xff]);
            if m[0] != ver {
                owed = Owed::Error;
            }
        }
        2 => {
            let x = c.byte();
            if x != m[1] && ![GET_DIGESTS, GET_CERTIFICATE].contains(&x) {
                m[1] = x;
                owed = Owed::Error;
            }
        }
        3 => {
            let n = c.usize(m.len());
            m.truncate(n);
            owed = if n < 2 { Owed::Silence } else { Owed::Error };
        }
        4 => {
            let n = c.range(1, 40);
            m.extend(c.blob(n));
        }
        _ => {}
    }
    (m, owed)
}

/// The requester's side of the encapsulated exchange, against a responder that
/// asks for anything in any order.
fn mut_served(c: &mut Case) -> CaseResult {
    let mut g = need_mut(c);
    for _ in 0..c.range(0, 2) {
        let slot = c.usize(8);
        let n = c.range(1, 3);
        let len = c.range(n * 52, 1400);
        let seed = c.below(1 << 16) + 1;
        g.req_chain[slot] = Some(toy::make_chain(REQ_ROOT, 0x51, n, len, seed));
    }
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let mode = c.pick(&[2u8, 4, 4]);
    let seed = c.u64();
    let rounds = c.range(1, 5);
    // how the responder ends it: no more, a slot, a bad slot, an error, a
    // wrong acknowledgement, no number where one is due
    let end = c.weighted(&[3, 4, 1, 1, 1, 1]);
    let end_slot = if end == 2 {
        let r = c.range(8, 255) as u8;
        c.pick(&[8u8, 8, 9, 0x10, 0x80, 0xFF, r])
    } else {
        let v: Vec<u8> = (0..8u8)
            .filter(|i| g.req_chain[*i as usize].is_some())
            .collect();
        c.pick(&v)
    };
    let state = Rc::new(Cell::new(0u32));
    let bad: Rc<RefCell<Option<String>>> = Rc::default();
    let log: Rc<RefCell<Vec<String>>> = Rc::default();
    let owed: Rc<RefCell<Option<(u8, Owed)>>> = Rc::default();
    let ended = Rc::new(Cell::new(false));
    let silent = Rc::new(Cell::new(false));
    let (st, bd, lg, ow, en, si) = (
        state.clone(),
        bad.clone(),
        log.clone(),
        owed.clone(),
        ended.clone(),
        silent.clone(),
    );
    let g2 = g.clone();
    let mut round = 0usize;
    tap::tap_pre(&w, &a, move |a, p, b| {
        let (sec, pl) = wire::unframe(a.tr, b)?;
        if p == Party::Rsp && !sec && pl.get(1) == Some(&KEY_EXCHANGE_RSP) && st.get() == 0 {
            let q = wire::parse(pl, &a.px()).ok()?;
            let mut v = pl[..q.used].to_vec();
            let o = q.off("mut_auth");
            v[o] = mode;
            v[q.off("req_slot")] = 0;
            let v = tap::resign_ke(a, &v, 0xA1)?;
            st.set(1);
            if mode == 4 {
                // GET_DIGESTS is understood
                let (ver, h) = (a.neg.ver, a.neg.h());
                let mut o = vec![ver, DIGESTS, 0, 0];
                for (i, x) in g2.req_chain.iter().enumerate() {
                    if let Some(x) = x {
                        o[3] |= 1 << i;
                        o.extend(crate::sha2::hash(h, &chain_blob(h, x)));
                    }
                }
                *ow.borrow_mut() = Some((0, Owed::This(o)));
            }
            return Some(vec![wire::frame(a.tr, false, &v)]);
        }
        if p != Party::Req || !sec || st.get() != 1 {
            return None;
        }
        a.feed(p, b);
        let m = a.msgs.last()?.clone();
        let (ver, tr) = (a.neg.ver, a.tr);
        let id = m.session?;
        let say = |a: &mut Audit, x: &[u8]| {
            lg.borrow_mut().push(format!("say {}", hex(x)));
            if let Some(f) = a.session(id).map(|s| s.forge(tr, Party::Rsp, false, x)) {
                a.feed(Party::Rsp, &f);
                answer(f);
            }
        };
        lg.borrow_mut().push(format!("hear {}", hex(&m.bytes)));
        let code = m.bytes.get(1).copied().unwrap_or(0);
        let mut c = Case::random(seed ^ (round as u64).wrapping_mul(0x9E37_79B9), false);
        match code {
            GET_ENCAP if mode == 2 && round == 0 => {
                round = 1;
                let (i, o) = gen_inner(&mut c, a, &g2);
                let rid = c.byte();
                si.set(matches!(o, Owed::Silence));
                *ow.borrow_mut() = Some((rid, o));
                let mut v = vec![ver, ENCAP_REQUEST, rid, 0];
                v.extend(i);
                say(a, &v);
            }
            DELIVER_ENCAP => {
                let due = ow.borrow_mut().take();
                let rid = m.bytes.get(2).copied().unwrap_or(0);
                let inner = m.bytes.get(4..).unwrap_or(&[]).to_vec();
                let ok = match &due {
                    None => false,
                    Some((r, o)) => {
                        *r == rid
                            && match o {
                                Owed::This(x) => *x == inner,
                                Owed::Error => {
                                    inner.len() >= 4 && inner[0] == ver && inner[1] == ERROR
                                }
                                Owed::Silence => false,
                            }
                    }
                };
                if !ok && bd.borrow().is_none() {
                    *bd.borrow_mut() = Some(format!("{:?} owed {:?}", hex(&m.bytes), due));
                }
                round += 1;
                let ack = |t: u8, next: u8, of: u8| {
                    let mut v = vec![ver, ENCAP_RESPONSE_ACK, next, t];
                    if ver >= 0x12 {
                        v.extend_from_slice(&[of, 0, 0, 0]);
                    }
                    v
                };
                if round <= rounds {
                    let (i, o) = gen_inner(&mut c, a, &g2);
                    let next = c.byte();
                    si.set(matches!(o, Owed::Silence));
                    *ow.borrow_mut() = Some((next, o));
                    let mut v = ack(1, next, rid);
                    v.extend(i);
                    say(a, &v);
                } else {
                    en.set(true);
                    let mut v = match end {
                        0 => ack(0, 0, rid),
                        1 | 2 | 5 => ack(2, 0, rid),
                        3 => vec![ver, ERROR, c.pick(&[1u8, 3, 4, 5, 7, 0x41]), 0],
                        _ => ack(0, 0, rid.wrapping_add(c.range(1, 255) as u8)),
                    };
                    if end == 1 || end == 2 {
                        v.push(end_slot);
                    }
                    say(a, &v);
                }
            }
            FINISH => {
                st.set(2);
                say(a, &[ver, FINISH_RSP, 0, 0]);
            }
            _ => st.set(3),
        }
        Some(vec![])
    });
    let r = w.init().and_then(|_| w.cert(None, 0));
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    let n = w.log_len();
    let r = w.ke(0, 0);
    if state.get() == 0 {
        return Ok(());
    }
    c.nontrivial();
    let frames = w.log_len() - n;
    w.set_mitm(None);
    let a = a.borrow();
    let ctx = || {
        format!(
            "mode {} end {} slot {} rounds {} {:?} state {} {:?} {}",
            mode,
            end,
            end_slot,
            rounds,
            r,
            state.get(),
            log.borrow(),
            cfg_str(&g)
        )
    };
    if let Some(b) = bad.borrow().as_ref() {
        return fail(
            "an encapsulated request is not answered as it should be",
            format!("{} {}", b, ctx()),
        );
    }
    ensure!(frames <= 40, "too many messages", "{} {}", frames, ctx());
    ensure!(
        state.get() != 3,
        "an unexpected message in the exchange",
        "{}",
        ctx()
    );
    // a request without a header is the only one that ends it early
    if !ended.get() {
        ensure!(
            silent.get() && r.is_err() && state.get() == 1,
            "the exchange ends early",
            "{}",
            ctx()
        );
        c.label("no header");
        return Ok(());
    }
    let good = end <= 1 || end == 4 && a.neg.ver < 0x12;
    c.label(if good { "completed" } else { "ended badly" });
    if !good {
        ensure!(
            r.is_err() && state.get() == 1,
            "FINISH after a mutual authentication that failed",
            "{}",
            ctx()
        );
        ensure!(
            w.req_sessions().is_empty(),
            "a session is left",
            "{}",
            ctx()
        );
        return Ok(());
    }
    let m = a
        .msgs
        .iter()
        .rev()
        .find(|m| m.from == Party::Req && m.bytes.get(1) == Some(&FINISH));
    let m = match m {
        None => return fail("no FINISH", ctx()),
        Some(m) => m,
    };
    ensure!(m.bytes[2] & 1 == 1, "FINISH without signature", "{}", ctx());
    if end == 1 {
        ensure!(
            m.bytes[3] == end_slot,
            "FINISH for another slot",
            "{}",
            ctx()
        );
    }
    ensure!(
        a.issues_of(&["finish"]).is_none(),
        "FINISH does not verify",
        "{:?} {}",
        a.issues,
        ctx()
    );
    ensure!(r.is_ok(), "the session fails", "{}", ctx());
    Ok(())
}

/// A responder that asks for mutual authentication in every way the field of
/// KEY_EXCHANGE_RSP allows, also where the capabilities do not: the requester
/// goes on only where it may and can, and then with the slot that was asked for.
fn mut_asked(c: &mut Case) -> CaseResult {
    let mut g = need_mut(c);
    let caps = c.weighted(&[4, 1, 1, 1]);
    if caps & 1 != 0 {
        g.req.caps &= !RQ_MUT;
    }
    if caps & 2 != 0 {
        g.rsp.caps &= !RS_MUT;
    }
    for _ in 0..c.range(0, 3) {
        let slot = c.usize(8);
        let n = c.range(1, 3);
        let len = c.range(n * 52, 1400);
        let seed = c.below(1 << 16) + 1;
        g.req_chain[slot] = Some(toy::make_chain(REQ_ROOT, 0x51, n, len, seed));
    }
    let slot = match c.below(3) {
        0 => c.below(16) as u8,
        1 => c.range(8, 15) as u8,
        _ => {
            let v: Vec<u8> = (0..8u8)
                .filter(|i| g.req_chain[*i as usize].is_some())
                .collect();
            c.pick(&v)
        }
    };
    let mode = c.pick(&[1u8, 1, 1, 2, 3, 4, 5, 6, 7]);
    if caps == 0 && (mode == 4 || mode == 2 && slot < 8) {
        // see "served"
        return Ok(());
    }
    toy::with(|t| t.meas = vec![]);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let st = Rc::new(Cell::new(0u32));
    let s2 = st.clone();
    tap::tap_pre(&w, &a, move |a, p, b| {
        let (sec, pl) = wire::unframe(a.tr, b)?;
        if p == Party::Rsp && !sec && pl.get(1) == Some(&KEY_EXCHANGE_RSP) && s2.get() == 0 {
            let q = wire::parse(pl, &a.px()).ok()?;
            let mut v = pl[..q.used].to_vec();
            v[q.off("mut_auth")] = mode;
            v[q.off("req_slot")] = slot;
            let v = tap::resign_ke(a, &v, 0xA1)?;
            s2.set(1);
            return Some(vec![wire::frame(a.tr, false, &v)]);
        }
        if p != Party::Req || s2.get() == 0 {
            return None;
        }
        a.feed(p, b);
        let m = a.msgs.last()?.clone();
        let (ver, tr) = (a.neg.ver, a.tr);
        s2.set(if m.bytes.get(1) == Some(&FINISH) && s2.get() == 1 {
            2
        } else {
            3
        });
        let f = m.session.and_then(|i| {
            a.session(i)
                .map(|s| s.forge(tr, Party::Rsp, false, &[ver, FINISH_RSP, 0, 0]))
        });
        if let (2, Some(f)) = (s2.get(), f) {
            a.feed(Party::Rsp, &f);
            answer(f);
        }
        Some(vec![])
    });
    let r = w.init().and_then(|_| w.cert(None, 0));
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(&g)
    );
    let r = w.rq(|r| r.start_session(false, 0, summary(0)));
    if st.get() == 0 {
        return Ok(());
    }
    c.nontrivial();
    w.set_mitm(None);
    let a = a.borrow();
    let ctx = || {
        format!(
            "mode {} slot {} caps {} {:?} state {} {} {}",
            mode,
            slot,
            caps,
            r,
            st.get(),
            a.dump(),
            cfg_str(&g)
        )
    };
    let good = caps == 0 && mode == 1 && slot < 8 && g.req_chain[slot as usize].is_some();
    c.label(if good {
        "granted"
    } else if caps != 0 {
        "without the capability"
    } else if mode == 1 {
        "no such slot"
    } else {
        "not a way to ask"
    });
    if !good {
        ensure!(
            st.get() == 1,
            "the requester goes on with a mutual authentication it cannot do",
            "{}",
            ctx()
        );
        ensure!(r.is_err(), "a session is reported", "{}", ctx());
        ensure!(
            w.req_sessions().is_empty(),
            "a session is left",
            "{}",
            ctx()
        );
        return Ok(());
    }
    let m = a
        .msgs
        .iter()
        .rev()
        .find(|m| m.from == Party::Req && m.bytes.get(1) == Some(&FINISH));
    let m = match (m, st.get()) {
        (Some(m), 2) => m,
        _ => return fail("no FINISH", ctx()),
    };
    ensure!(
        m.bytes[2] & 1 == 1 && m.bytes[3] == slot,
        "FINISH without signature or for another slot",
        "{}",
        ctx()
    );
    ensure!(
        a.issues_of(&["finish"]).is_none(),
        "FINISH does not verify",
        "{:?} {}",
        a.issues,
        ctx()
    );
    ensure!(r.is_ok(), "the session fails", "{}", ctx());
    Ok(())
}
