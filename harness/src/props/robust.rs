//! C01 a responder and C02 a requester survive whatever the other side sends.

use super::nego::gen_pair;
use super::rec::*;
use super::session::mutate;
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::gen;
use crate::ops::*;
use crate::tap;
use crate::toy::{self, Party};
use crate::wire::{self, code::*, Tr};
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "bytes: at least three hostile messages were processed, one of them answered; altered: a message of a genuine exchange was altered; each followed by a complete run of a genuine requester",
            level: "exploration",
            assumptions: &["toy cryptography; built with overflow checks, so that an overflow ends in a panic"],
            subs: vec![
                Sub { name: "bytes", f: rsp_bytes, quick: 32000, thorough: 400_000 },
                Sub { name: "altered", f: rsp_altered, quick: 24000, thorough: 300_000 },
                Sub { name: "raw", f: rsp_raw, quick: 80000, thorough: 1_000_000 },
            ],
        },
        Prop {
            id: "C02",
            rule: "altered: a message of a genuine exchange was altered; scripted: an answer made up by the harness was delivered; endless: the other side tried to prolong an operation",
            level: "exploration",
            assumptions: &["toy cryptography; built with overflow checks, so that an overflow ends in a panic"],
            subs: vec![
                Sub { name: "altered", f: req_altered, quick: 24000, thorough: 400_000 },
                Sub { name: "scripted", f: req_scripted, quick: 30000, thorough: 500_000 },
                Sub { name: "endless", f: req_endless, quick: 4500, thorough: 50_000 },
            ],
        },
    ]
}

/// Key material of one direction of a session as its holder has it: the AEAD,
/// key, iv and the sequence number it expects next. (The holder seals an empty
/// message; what the AEAD was given tells the key.)
pub fn keyline(
    w: &mut World,
    p: Party,
    id: u32,
    requests: bool,
) -> Option<(u16, Vec<u8>, Vec<u8>, u64)> {
    let n0 = toy::with(|t| t.enc.len());
    let c = match p {
        Party::Req => &mut w.req.common,
        Party::Rsp => &mut w.rsp.common,
    };
    let aead = c.negotiate_info.aead_sel.bits();
    let s = c.get_session_via_id(id)?;
    use spdmlib::common::session::SpdmSessionState as S;
    match s.get_session_state() {
        S::SpdmSessionHandshaking | S::SpdmSessionEstablished => {}
        _ => return None,
    }
    let mut b = [0u8; 64];
    toy::as_party(p, || s.encode_spdm_secured_message(&[], &mut b, requests)).ok()?;
    toy::with(|t| {
        let r = t.enc.get(n0)?.clone();
        let ivs: Vec<Vec<u8>> = t
            .okm
            .iter()
            .rev()
            .filter(|x| x.2.len() == 12)
            .map(|x| x.2.clone())
            .collect();
        for iv in ivs {
            let mut x = [0u8; 8];
            for i in 0..8 {
                x[i] = iv[i] ^ r.iv[i];
            }
            let s = u64::from_le_bytes(x);
            if s < 1 << 20 && iv[8..] == r.iv[8..12] {
                return Some((aead, r.key, iv, s + 1));
            }
        }
        None
    })
}

pub fn env_of(c: &mut Case, w: &World, p: Party) -> gen::Env {
    let n = match p {
        Party::Req => &w.req.common.negotiate_info,
        Party::Rsp => &w.rsp.common.negotiate_info,
    };
    let mut e = gen::Env::gen(c);
    let or = |x: u32, d: u32| if x == 0 { d } else { x };
    e.ver = match n.spdm_version_sel.get_u8() {
        0 => 0x10,
        v => v,
    };
    e.hash = or(n.base_hash_sel.bits(), e.hash);
    if e.hash.count_ones() != 1 {
        e.hash = 2;
    }
    let one = |x: u32, d: u32| {
        if x.count_ones() == 1 && toy::sig_size(x).is_some() {
            x
        } else {
            d
        }
    };
    e.asym = one(n.base_asym_sel.bits(), e.asym);
    e.req_asym = one(n.req_asym_sel.bits() as u32, e.req_asym);
    if n.dhe_sel.bits().count_ones() == 1 {
        e.dhe = n.dhe_sel.bits();
    }
    if n.measurement_hash_sel.bits().count_ones() == 1 {
        e.meas_hash = n.measurement_hash_sel.bits();
    }
    e.clear = n.req_capabilities_sel.bits() & RQ_CLEAR != 0
        && n.rsp_capabilities_sel.bits() & RS_CLEAR != 0;
    e.psk_noctx = n.rsp_capabilities_sel.bits() & RS_PSK_NOCTX != 0;
    e
}

const REQS: [u8; 18] = [
    GET_VERSION,
    GET_CAPABILITIES,
    NEGOTIATE_ALGORITHMS,
    GET_DIGESTS,
    GET_CERTIFICATE,
    CHALLENGE,
    GET_MEASUREMENTS,
    KEY_EXCHANGE,
    PSK_EXCHANGE,
    FINISH,
    PSK_FINISH,
    HEARTBEAT,
    KEY_UPDATE,
    END_SESSION,
    VENDOR_REQ,
    GET_ENCAP,
    DELIVER_ENCAP,
    RESPOND_IF_READY,
];

/// A message that may or may not make sense.
fn hostile(c: &mut Case, w: &World, to: Party) -> Vec<u8> {
    let e = env_of(c, w, to);
    let code = match (to, c.weighted(&[8, 1, 1])) {
        (Party::Rsp, 0) => c.pick(&REQS),
        (Party::Req, 0) => c.pick(&REQS[..17]) & 0x7f,
        (_, 1) => c.pick(&REQS) & 0x7f,
        _ => c.byte(),
    };
    let mut m = match c.weighted(&[6, 1, 1]) {
        0 => match code {
            DELIVER_ENCAP => {
                let k = c.pick(&[DIGESTS, CERTIFICATE, ERROR, CHALLENGE_AUTH, 0]);
                let mut m = vec![e.ver, code, c.pick(&[0u8, 1, 2, 255]), 0];
                let mut i = if k == 0 {
                    let n = c.len_biased(300);
                    c.blob(n)
                } else {
                    gen::message(c, k, &e)
                };
                if c.bool() && !i.is_empty() {
                    i = mutate(c, &i).0;
                }
                m.extend(i);
                m
            }
            GET_ENCAP | RESPOND_IF_READY => vec![e.ver, code, c.byte(), c.byte()],
            _ => gen::message(c, code, &e),
        },
        1 => {
            let n = c.len_biased(4160);
            let mut m = vec![e.ver, code];
            m.extend(expand(c.u64(), n));
            m
        }
        _ => {
            let n = c.len_biased(80);
            let mut m = vec![e.ver, code];
            m.extend(c.blob(n));
            m
        }
    };
    for _ in 0..c.weighted(&[3, 3, 1, 1]) {
        if m.len() > 2 {
            m = mutate(c, &m).0;
        }
    }
    if c.chance(1, 8) {
        let n = c.len_biased(200);
        m.extend(expand(c.u64(), n));
    }
    m
}
/// The same under the protection of a session, in ways honest parties do not.
fn hostile_record(c: &mut Case, w: &mut World, tr: Tr, to: Party, m: &[u8]) -> Option<Vec<u8>> {
    let ids: Vec<u32> = match to {
        Party::Rsp => w.rsp_sessions(),
        Party::Req => w.req_sessions(),
    }
    .iter()
    .map(|x| x.0)
    .collect();
    if ids.is_empty() {
        return None;
    }
    let id = c.pick(&ids);
    let (aead, key, iv, seq) = keyline(w, to, id, to == Party::Rsp)?;
    let m = &m[..m.len().min(4090)];
    let inner = match c.weighted(&[6, 1, 1, 1]) {
        0 => wire::app_wrap(tr, false, m),
        1 => wire::app_wrap(tr, true, m),
        2 => m.to_vec(),
        _ => vec![],
    };
    let declared = match c.weighted(&[8, 1, 1]) {
        0 => inner.len() as u16,
        1 => c.below(65536) as u16,
        _ => (inner.len() as u16).wrapping_add(c.pick(&[1u16, 2, 0xffff, 0xfffe, 16])),
    };
    let seq = if c.chance(1, 10) { c.u64() } else { seq };
    let mut r = wire::seal_record_ex(tr, aead, &key, &iv, id, seq, &inner, declared);
    if c.chance(1, 5) {
        r = mutate(c, &r).0;
    }
    if c.chance(1, 10) {
        let n = c.len_biased(100);
        r.extend(c.blob(n));
    }
    Some(wire::frame(tr, true, &r))
}

/// What the other side is handed on the wire.
fn hostile_frame(c: &mut Case, w: &mut World, tr: Tr, to: Party) -> (Vec<u8>, &'static str) {
    let m = hostile(c, w, to);
    match c.weighted(&[8, 8, 2, 2, 2, 1]) {
        0 => (wire::frame(tr, false, &m), "in the clear"),
        1 => match hostile_record(c, w, tr, to, &m) {
            Some(f) => (f, "in a session"),
            None => (wire::frame(tr, false, &m), "in the clear"),
        },
        2 => (wire::frame(tr, true, &m), "noise as a record"),
        3 => {
            let f = if c.bool() {
                wire::frame(tr, false, &m)
            } else {
                hostile_record(c, w, tr, to, &m).unwrap_or_else(|| wire::frame(tr, false, &m))
            };
            (mutate(c, &f).0, "frame altered")
        }
        4 => {
            let l = w.log();
            if l.is_empty() {
                return (vec![], "nothing");
            }
            let i = c.usize(l.len());
            let f = l[i].sent.clone();
            if c.bool() {
                (f, "repeated")
            } else {
                (mutate(c, &f).0, "repeated")
            }
        }
        _ => {
            let n = c.len_biased(MAX_FRAME);
            (expand(c.u64(), n), "noise")
        }
    }
}

/// After anything, a genuine requester is served as ever.
pub fn served(c: &mut Case, fl: &mut Flow) -> CaseResult {
    fl.w.set_mitm(None);
    fl.w.set_peer(None);
    fl.w.drain();
    fl.a = Audit::new(&fl.g);
    fl.a.frames = fl.w.log_len();
    toy::with(|t| {
        t.fault_armed = false;
        t.faults.clear();
    });
    fl.connect()?;
    let n = c.range(1, 3);
    if fl.f.kex && fl.f.cert {
        let s = c.pick(&fl.f.slots);
        fl.must(Act::Ke(s, 0))?;
    } else if fl.f.psk {
        fl.must(Act::Psk(0, vec![1]))?;
    }
    fl.history(c, n)?;
    fl.clean(&[])?;
    fl.same_sessions()
}

pub fn start(c: &mut Case) -> Result<Flow, Failure> {
    let g = match c.weighted(&[5, 1]) {
        0 => sess_cfg(c),
        _ => gen_wide(c),
    };
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    Ok(fl)
}
/// Some sessions, whole or with their handshake under way.
pub fn sessions_up(c: &mut Case, fl: &mut Flow, n: usize) -> CaseResult {
    for _ in 0..n {
        if fl.w.req_sessions().len() >= 4 {
            break;
        }
        match (fl.f.kex && fl.f.cert, fl.f.psk) {
            (false, false) => break,
            (k, p) => {
                let psk = p && (!k || c.bool());
                if c.bool() {
                    let s = c.pick(&fl.f.slots);
                    fl.must(if psk {
                        Act::Psk(0, vec![3])
                    } else {
                        Act::Ke(s, 0)
                    })?;
                } else {
                    let s = c.pick(&fl.f.slots);
                    let h = hint(&[7]);
                    let r = fl.w.rq(|r| {
                        if psk {
                            r.send_receive_spdm_psk_exchange(summary(0), Some(&h))
                        } else {
                            r.send_receive_spdm_key_exchange(s, summary(0))
                        }
                    });
                    ensure!(
                        r.is_ok(),
                        "honest key exchange fails",
                        "{:?} {}",
                        r,
                        fl.ctx()
                    );
                    fl.a.catch_up(&fl.w);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C01

fn one_message(
    c: &mut Case,
    w: &mut World,
    f: &[u8],
    ctx: &dyn Fn(&World) -> String,
) -> Result<bool, Failure> {
    w.set_mitm(None);
    if c.chance(1, 6) {
        let n = c.len_biased(64);
        w.sh.borrow_mut().aux = c.blob(n);
    }
    let sends = w.sh.borrow().rsp_sends;
    let r = w.feed(f);
    let sends = w.sh.borrow().rsp_sends - sends;
    ensure!(
        sends <= 1 && r.sent.len() <= 1,
        "more than one response to a message",
        "{} {} {}",
        sends,
        hex(f),
        ctx(w)
    );
    ensure!(
        r.receives <= 1,
        "more than one message taken at a time",
        "{} {} {}",
        r.receives,
        hex(f),
        ctx(w)
    );
    ensure!(
        f.is_empty() || r.receives == 1,
        "a waiting message is not taken",
        "{}",
        ctx(w)
    );
    if let Some(s) = r.sent.first() {
        ensure!(
            s.len() <= spdmlib::config::SENDER_BUFFER_SIZE,
            "a response exceeds the buffers",
            "{}",
            ctx(w)
        );
    }
    Ok(!r.sent.is_empty())
}

fn rsp_bytes(c: &mut Case) -> CaseResult {
    let mut fl = start(c)?;
    let n = c.range(0, 3);
    sessions_up(c, &mut fl, n)?;
    let tr = fl.g.tr;
    let mut log: Vec<String> = vec![];
    let mut answered = 0;
    let n = c.range(3, 16);
    for _ in 0..n {
        // now and then the genuine requester goes on in between
        if c.chance(1, 8) {
            let o = fl.open();
            let a = if c.chance(1, 3) {
                Act::Init
            } else {
                gen_op(c, &fl.f, o)
            };
            log.push(format!("{:?}", a));
            let _ = fl.w.act(&a);
            fl.w.drain();
            continue;
        }
        let (f, l) = match c.weighted(&[1, 12]) {
            0 => {
                // stages of the negotiation
                let ver = c.pick(&[0x10u8, 0x11, 0x12]);
                let m = match c.below(3) {
                    0 => vec![0x10, GET_VERSION, 0, 0],
                    _ => {
                        let k = c.pick(&[GET_CAPABILITIES, NEGOTIATE_ALGORITHMS]);
                        let p =
                            fl.a.msgs
                                .iter()
                                .find(|m| m.from == Party::Req && m.bytes.get(1) == Some(&k));
                        match p {
                            Some(m) => m.bytes.clone(),
                            None => vec![ver, k, 0, 0],
                        }
                    }
                };
                (wire::frame(tr, false, &m), "negotiation")
            }
            _ => hostile_frame(c, &mut fl.w, tr, Party::Rsp),
        };
        c.label(l);
        log.push(format!("{} {}", l, hex(&f[..f.len().min(40)])));
        let g = cfg_str(&fl.g);
        let log = &log;
        let y = one_message(c, &mut fl.w, &f, &|_| format!("{:?} {}", log, g))?;
        answered += y as u32;
        if y && l == "in a session" {
            c.label("answered in a session");
        }
    }
    if answered > 0 {
        c.nontrivial();
    }
    if c.chance(1, 2) {
        served(c, &mut fl)?;
    }
    Ok(())
}

/// No connection to begin with, only bytes.
fn rsp_raw(c: &mut Case) -> CaseResult {
    let g = match c.weighted(&[1, 1]) {
        0 => gen_wide(c),
        _ => gen_pair(c),
    };
    let mut fl = Flow::new(c, g);
    let tr = fl.g.tr;
    let n = c.range(1, 8);
    let mut log: Vec<String> = vec![];
    let mut answered = 0;
    for _ in 0..n {
        let (f, l) = hostile_frame(c, &mut fl.w, tr, Party::Rsp);
        c.label(l);
        log.push(format!("{} {}", l, hex(&f[..f.len().min(40)])));
        let g = cfg_str(&fl.g);
        let log = &log;
        answered += one_message(c, &mut fl.w, &f, &|_| format!("{:?} {}", log, g))? as u32;
    }
    if answered > 0 {
        c.nontrivial();
    }
    let r =
        fl.w.feed(&wire::frame(tr, false, &[0x10, GET_VERSION, 0, 0]));
    let ok = r
        .sent
        .first()
        .and_then(|f| wire::unframe(tr, f))
        .map_or(false, |(s, m)| {
            !s && m.len() >= 6 && m[..2] == [0x10, VERSION]
        });
    ensure!(
        ok,
        "GET_VERSION is not served after hostile bytes",
        "{:?} {:?} {}",
        r,
        log,
        cfg_str(&fl.g)
    );
    Ok(())
}

/// A random operation of the requester; whether it succeeds is not asked.
pub fn some_op(c: &mut Case, fl: &Flow) -> Act {
    let o = fl.open();
    match c.weighted(&[10, 1]) {
        0 => {
            // session starts are where most of the protocol is
            if o < 4 && c.chance(1, 3) && (fl.f.kex || fl.f.psk) {
                if fl.f.psk && (!fl.f.kex || c.bool()) {
                    Act::Psk(0, vec![1, 2])
                } else {
                    Act::Ke(c.pick(&fl.f.slots), 0)
                }
            } else {
                gen_op(c, &fl.f, o)
            }
        }
        _ => Act::Init,
    }
}

/// Alter messages of one side under way, inside the records as well.
fn meddle(
    c: &mut Case,
    fl: &Flow,
    a: &tap::Shared,
    from: Party,
    hits: Rc<RefCell<u32>>,
    one_in: u64,
) {
    let mut k = Case::random(c.u64(), false);
    let tr = fl.g.tr;
    tap::tap(&fl.w, a, move |a, p, m, f| {
        if p != from || !k.chance(1, one_in) {
            return None;
        }
        *hits.borrow_mut() += 1;
        let f = f.to_vec();
        Some(match (k.weighted(&[10, 1, 1, 1, 1]), m) {
            (0, Some(m)) => {
                let mut b = m.bytes.clone();
                for _ in 0..k.range(1, 3) {
                    if !b.is_empty() {
                        b = mutate(&mut k, &b).0;
                    }
                }
                if k.chance(1, 8) {
                    let n = k.len_biased(100);
                    b.extend(k.blob(n));
                }
                if p == Party::Rsp && m.bytes.get(1) == Some(&KEY_EXCHANGE_RSP) && k.bool() {
                    // as a responder would that means it
                    b = tap::resign_ke(a, &b, toy::with(|t| t.sign_key[1])).unwrap_or(b);
                }
                vec![tap::reframe(a, m, &b)]
            }
            (1, _) => vec![],
            (2, _) => vec![f.clone(), f],
            (3, _) => vec![wire::frame(tr, k.bool(), &expand(k.u64(), 60))],
            _ => vec![mutate(&mut k, &f).0],
        })
    });
}

fn rsp_altered(c: &mut Case) -> CaseResult {
    let mut fl = start(c)?;
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    let hits = Rc::new(RefCell::new(0u32));
    let one_in = c.range(1, 8) as u64;
    meddle(c, &fl, &a, Party::Req, hits.clone(), one_in);
    let mut log = vec![];
    for _ in 0..c.range(2, 8) {
        let act = some_op(c, &fl);
        let rets = fl.w.sh.borrow().rets.len();
        let r = fl.w.act(&act);
        log.push(format!("{:?} {}", act, r.map_or(false, |r| r.is_ok())));
        let s = fl.w.sh.borrow();
        for r in &s.rets[rets..] {
            ensure!(
                r.sent.len() <= 1 && r.receives <= 1,
                "more than one response to a message",
                "{:?} {:?} {}",
                r,
                log,
                cfg_str(&fl.g)
            );
        }
        drop(s);
        fl.w.drain();
    }
    if *hits.borrow() > 0 {
        c.nontrivial();
    }
    served(c, &mut fl)
}

// ---------------------------------------------------------------- C02

/// How many requests an operation may send at most.
fn most(act: &Act) -> usize {
    match act {
        Act::Init => 3,
        // at worst one byte at a time
        Act::Cert(..) => 4096 + 80 + 2,
        // and the encapsulated exchange
        Act::Ke(..) => 2 + 260,
        Act::Psk(..) => 2,
        Act::Update(..) => 2,
        _ => 1,
    }
}
struct Before {
    sends: usize,
    recvs: usize,
    ids: Vec<(u32, SpdmSessionStateN)>,
}
fn before(w: &World) -> Before {
    Before {
        sends: w.sh.borrow().req_sends,
        recvs: w.sh.borrow().recv_timeouts.len(),
        ids: w.req_sessions(),
    }
}
fn judged(
    w: &World,
    b: &Before,
    act: &Act,
    ok: bool,
    out: Option<&Out>,
    ctx: &dyn Fn() -> String,
) -> CaseResult {
    let n = w.sh.borrow().req_sends - b.sends;
    let m = w.sh.borrow().recv_timeouts.len() - b.recvs;
    ensure!(
        n <= most(act) && m <= most(act) + 1 && !w.sh.borrow().overrun,
        "an operation sends without end",
        "{:?} {} {} {}",
        act,
        n,
        m,
        ctx()
    );
    let ids = w.req_sessions();
    let fresh: Vec<u32> = ids
        .iter()
        .filter(|x| x.1 == SpdmSessionStateN::Established && !b.ids.contains(x))
        .map(|x| x.0)
        .collect();
    match (act, ok) {
        (Act::Ke(..), true) | (Act::Psk(..), true) => {
            let id = match out {
                Some(Out::Session(i)) => *i,
                _ => 0,
            };
            ensure!(
                fresh == vec![id] && id != 0,
                "a session start reports another session than it leaves",
                "{:?} {:x} {:x?} {}",
                act,
                id,
                fresh,
                ctx()
            );
        }
        _ => ensure!(
            fresh.is_empty(),
            "a session is established by an operation that did not report one",
            "{:?} {} {:x?} {}",
            act,
            ok,
            fresh,
            ctx()
        ),
    }
    Ok(())
}

fn req_altered(c: &mut Case) -> CaseResult {
    let mut fl = start(c)?;
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    let hits = Rc::new(RefCell::new(0u32));
    let one_in = c.range(1, 8) as u64;
    meddle(c, &fl, &a, Party::Rsp, hits.clone(), one_in);
    let mut log = vec![];
    fl.w.sh.borrow_mut().max_sends = 40_000;
    for _ in 0..c.range(2, 8) {
        let act = some_op(c, &fl);
        fl.w.drain();
        let b = before(&fl.w);
        let r = fl.w.act(&act);
        let (ok, out) = match &r {
            Some(Ok(o)) => (true, Some(o)),
            _ => (false, None),
        };
        log.push(format!("{:?} {}", act, ok));
        judged(&fl.w, &b, &act, ok, out, &|| {
            format!("{:?} {}", log, cfg_str(&fl.g))
        })?;
    }
    if *hits.borrow() > 0 {
        c.nontrivial();
    }
    served(c, &mut fl)
}

/// A peer that makes its answers up.
fn req_scripted(c: &mut Case) -> CaseResult {
    let mut fl = start(c)?;
    let n = c.range(0, 2);
    sessions_up(c, &mut fl, n)?;
    let tr = fl.g.tr;
    fl.w.sh.borrow_mut().max_sends = 40_000;
    let mut log = vec![];
    for _ in 0..c.range(1, 5) {
        let act = some_op(c, &fl);
        // enough answers for whatever the operation asks; each is prepared with the
        // keys as they are now
        let mut ans: Vec<Vec<u8>> = vec![];
        let e = env_of(c, &fl.w, Party::Req);
        let sess_op = matches!(
            act,
            Act::Heartbeat(_)
                | Act::Update(..)
                | Act::End(_)
                | Act::App(..)
                | Act::Digest(Some(_))
                | Act::Cert(Some(_), _)
                | Act::Meas(Some(_), ..)
                | Act::Vendor(Some(_), ..)
        );
        for _ in 0..c.range(1, 4) {
            let code = match &act {
                Act::Init => c.pick(&[VERSION, CAPABILITIES, ALGORITHMS]),
                Act::Digest(_) => DIGESTS,
                Act::Cert(..) => CERTIFICATE,
                Act::Challenge(..) => CHALLENGE_AUTH,
                Act::Meas(..) => MEASUREMENTS,
                Act::Ke(..) => KEY_EXCHANGE_RSP,
                Act::Psk(..) => PSK_EXCHANGE_RSP,
                Act::Heartbeat(_) => HEARTBEAT & 0x7f,
                Act::Update(..) => KEY_UPDATE & 0x7f,
                Act::End(_) => END_SESSION & 0x7f,
                _ => VENDOR_REQ & 0x7f,
            };
            if c.chance(1, 5) {
                ans.push(hostile_frame(c, &mut fl.w, tr, Party::Req).0);
                continue;
            }
            let mut m = gen::message(c, code, &e);
            if c.bool() {
                m = mutate(c, &m).0;
            }
            let f = if sess_op {
                // one of the sessions, most likely the right one
                let ids = fl.w.open_sessions();
                match ids.first().copied() {
                    Some(_) => {
                        let id = c.pick(&ids);
                        match keyline(&mut fl.w, Party::Req, id, false) {
                            Some((aead, key, iv, seq)) => {
                                let m = &m[..m.len().min(4090)];
                                wire::frame(
                                    tr,
                                    true,
                                    &wire::seal_record(
                                        tr,
                                        aead,
                                        &key,
                                        &iv,
                                        id,
                                        seq,
                                        &wire::app_wrap(tr, c.chance(1, 10), m),
                                    ),
                                )
                            }
                            None => wire::frame(tr, false, &m),
                        }
                    }
                    None => wire::frame(tr, false, &m),
                }
            } else {
                wire::frame(tr, false, &m)
            };
            ans.push(f);
        }
        let mut left = ans.clone().into_iter();
        fl.w.set_peer(Some(Box::new(move |_| left.next().into_iter().collect())));
        fl.w.drain();
        let b = before(&fl.w);
        let r = fl.w.act(&act);
        let (ok, out) = match &r {
            Some(Ok(o)) => (true, Some(o)),
            _ => (false, None),
        };
        if ok {
            c.label("accepted");
        }
        log.push(format!(
            "{:?} {} {:?}",
            act,
            ok,
            ans.iter()
                .map(|x| hex(&x[..x.len().min(24)]))
                .collect::<Vec<_>>()
        ));
        judged(&fl.w, &b, &act, ok, out, &|| {
            format!("{:?} {}", log, cfg_str(&fl.g))
        })?;
        fl.w.set_peer(None);
    }
    c.nontrivial();
    if c.bool() {
        served(c, &mut fl)?;
    }
    Ok(())
}

/// A peer that would like to go on for ever.
fn req_endless(c: &mut Case) -> CaseResult {
    let g = sess_cfg(c);
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    fl.w.sh.borrow_mut().max_sends = 40_000;
    let kind = c.weighted(&[3, 3, 2]);
    let mode = c.below(4);
    let size = c.range(1, 3);
    let seed = c.u64();
    let tr = fl.g.tr;
    let n = Rc::new(RefCell::new(0u32));
    let k = n.clone();
    let mut first = true;
    tap::tap(&fl.w, &a, move |a, p, m, _f| {
        if p != Party::Rsp {
            return None;
        }
        let m = m?;
        match (kind, m.bytes[1]) {
            // certificate portions that do not get anywhere
            (0, CERTIFICATE) => {
                *k.borrow_mut() += 1;
                let (po, re): (u16, u16) = match mode {
                    0 => (
                        size as u16,
                        4095 - (*k.borrow() as u16 * size as u16).min(4000),
                    ),
                    1 => (0, 1000),
                    2 => (size as u16, 1),
                    _ => (
                        1,
                        if first {
                            4095
                        } else {
                            4095u16.saturating_sub(*k.borrow() as u16 - 1)
                        },
                    ),
                };
                first = false;
                let mut v = m.bytes[..4].to_vec();
                v.extend(&po.to_le_bytes());
                v.extend(&re.to_le_bytes());
                v.extend(expand(seed, po as usize));
                Some(vec![tap::reframe(a, m, &v)])
            }
            // encapsulated requests that do not end
            (1, ENCAP_RESPONSE_ACK) => {
                *k.borrow_mut() += 1;
                let ver = m.bytes[0];
                let mut v = vec![ver, ENCAP_RESPONSE_ACK, *k.borrow() as u8, 1];
                if ver >= 0x12 {
                    v.extend(&[m.bytes.get(4).copied().unwrap_or(0), 0, 0, 0]);
                }
                match mode {
                    0 => v.extend(&[ver, GET_DIGESTS, 0, 0]),
                    1 | 2 => v.extend(&[ver, GET_CERTIFICATE, 0, 0, 0, 0, size as u8, 0]),
                    _ => v.extend(&[ver, CHALLENGE, 0, 0]),
                }
                Some(vec![tap::reframe(a, m, &v)])
            }
            // never ready, always busy
            (2, c) if c != VERSION => {
                *k.borrow_mut() += 1;
                let e = match mode {
                    0 => 3u8,
                    1 | 2 => 0x42,
                    _ => 0x43,
                };
                let mut v = vec![m.bytes[0], ERROR, e, 0];
                if e == 0x42 {
                    v.extend(&[1, c | 0x80, 1, 1]);
                }
                Some(vec![tap::reframe(a, m, &v)])
            }
            _ => None,
        }
    });
    let _ = tr;
    let act = match kind {
        0 => Act::Cert(None, c.pick(&fl.f.slots)),
        1 if fl.f.kex => Act::Ke(c.pick(&fl.f.slots), 0),
        _ => some_op(c, &fl),
    };
    let b = before(&fl.w);
    let r = fl.w.act(&act);
    let (ok, out) = match &r {
        Some(Ok(o)) => (true, Some(o)),
        _ => (false, None),
    };
    if *n.borrow() > 0 {
        c.nontrivial();
        c.label(match kind {
            0 => "certificate",
            1 => "encapsulated",
            _ => "not ready",
        });
    }
    judged(&fl.w, &b, &act, ok, out, &|| {
        format!("{:?} {} {} {} {}", act, ok, kind, mode, cfg_str(&fl.g))
    })?;
    ensure!(
        !(ok && *n.borrow() > 0 && kind != 0),
        "an operation succeeds although its peer would not",
        "{:?} {} {}",
        act,
        mode,
        cfg_str(&fl.g)
    );
    served(c, &mut fl)
}
