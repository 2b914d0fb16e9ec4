//! C22 a requester takes no error and no mismatched answer for success.

use super::nego::{view_of, View};
use super::rec::*;
use super::robust::{env_of, served, some_op, start};
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::gen;
use crate::ops::*;
use crate::tap;
use crate::toy::{self, Party};
use crate::wire::{self, code::*};
use crate::world::*;
use codec::Codec;
use spdmlib::message::*;
use spdmlib::protocol::SpdmMeasurementRecordStructure;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "an answer of the operation was replaced by one that must be refused",
        level: "exploration",
        assumptions: &["toy cryptography"],
        subs: vec![
            Sub {
                name: "errors",
                f: errors,
                quick: 20000,
                thorough: 300_000,
            },
            Sub {
                name: "kinds",
                f: kinds,
                quick: 20000,
                thorough: 300_000,
            },
            Sub {
                name: "echoes",
                f: echoes,
                quick: 24000,
                thorough: 300_000,
            },
            Sub {
                name: "resynch",
                f: resynch,
                quick: 10000,
                thorough: 150_000,
            },
        ],
    }]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Error,
    Other,
    Version,
    Echo,
    Channel,
    Short,
}
/// What to do with which answer, and what came of it.
#[derive(Default)]
struct Plan {
    left: Option<usize>,
    kind: Option<Kind>,
    err: (u8, u8, Vec<u8>),
    seed: u64,
    other: Vec<u8>,
    /// key line of another session
    hit: Option<(u8, String, bool)>,
    before: Option<Box<Audit>>,
}
type Pl = Rc<RefCell<Plan>>;

/// The altered answer with a signature that fits it.
fn resigned(q: &Audit, m: &Msg, v: &[u8]) -> Option<Vec<u8>> {
    let n = &q.neg;
    let sl = toy::sig_size(n.asym)?;
    let body = v.len().checked_sub(sl)?;
    // the request itself is counted once it is answered
    let req = &q.msgs.last()?.bytes[..];
    let req = match req.get(1) {
        // (without the padding of the transport)
        Some(&CHALLENGE) => &req[..req.len().min(36)],
        _ if q.neg.ver >= 0x11 => &req[..req.len().min(37)],
        _ => &req[..req.len().min(36)],
    };
    let (ctx, mut t) = match v[1] {
        CHALLENGE_AUTH => {
            let mut t = q.a.clone();
            for b in &q.b {
                t.extend_from_slice(&b.1);
            }
            t.extend_from_slice(req);
            ("responder-challenge_auth signing", t)
        }
        MEASUREMENTS => {
            let mut t = if n.ver >= 0x12 { q.a.clone() } else { vec![] };
            let l = match m.session {
                Some(id) => q.sess.iter().rev().find(|s| s.id == id)?.m.clone(),
                None => q.m.clone(),
            };
            t.extend(l.concat());
            t.extend_from_slice(req);
            ("responder-measurements signing", t)
        }
        _ => return None,
    };
    t.extend_from_slice(&v[..body]);
    let key = toy::with(|t| t.sign_key[1]);
    let s = toy::sign_with(key, n.hash, n.asym, &sign_data(n.ver, n.h(), ctx, &t))?;
    let mut v = v[..body].to_vec();
    v.extend(s);
    Some(v)
}

/// The answer to give instead of `m`: message bytes and how to frame them.
fn instead(k: &mut Case, p: &Plan, a: &Audit, m: &Msg) -> Option<(Vec<u8>, String)> {
    let b = &m.bytes;
    let sign_if = |v: Vec<u8>| -> Vec<u8> {
        match v[1] {
            KEY_EXCHANGE_RSP => tap::resign_ke(a, &v, toy::with(|t| t.sign_key[1])).unwrap_or(v),
            CHALLENGE_AUTH => p
                .before
                .as_ref()
                .and_then(|q| resigned(q, m, &v))
                .unwrap_or(v),
            MEASUREMENTS if a.sig_req => p
                .before
                .as_ref()
                .and_then(|q| resigned(q, m, &v))
                .unwrap_or(v),
            _ => v,
        }
    };
    let version = |k: &mut Case| {
        let mut v = b.clone();
        let l = [0u8, 0x10, 0x11, 0x12, 0x13, 0x20, 0xff];
        v[0] = k.pick(&l);
        if v[0] == b[0] {
            v[0] ^= 1;
        }
        (sign_if(v), "version".to_string())
    };
    Some(match p.kind? {
        Kind::Error => {
            let mut v = vec![b[0], ERROR, p.err.0, p.err.1];
            v.extend(&p.err.2);
            (v, format!("error {:x}", p.err.0))
        }
        Kind::Other => {
            let mut v = p.other.clone();
            // what does not fit into a message is not a matter of its kind
            v.truncate(3000);
            if v.len() < 2 || v[1] == b[1] || v[1] == ERROR {
                v = b.clone();
                v[1] = k.pick(&[b[1] ^ 0x80, b[1] ^ 1, b[1] ^ 2, 0x7e, 0x61]);
                if v[1] == b[1] || v[1] == ERROR {
                    v[1] = 0x7d;
                }
            } else if k.chance(2, 3) {
                v[0] = b[0];
            }
            (v, "another kind".into())
        }
        Kind::Version => version(k),
        Kind::Short => {
            let n = k.usize(2);
            (b[..n].to_vec(), "short".into())
        }
        Kind::Echo => {
            let mut v = b.clone();
            let slot = |k: &mut Case, x: u8| {
                let s = (x & 15) ^ (k.range(1, 7) as u8);
                x & 0xf0 | s
            };
            match b[1] {
                CERTIFICATE => {
                    v[2] = slot(k, v[2]);
                    (v, "slot".into())
                }
                CHALLENGE_AUTH => {
                    if k.bool() {
                        v[2] = slot(k, v[2]);
                        (sign_if(v), "slot".into())
                    } else {
                        let n = a.neg.h().size();
                        v[4 + k.usize(n)] ^= 1 << k.below(8);
                        (sign_if(v), "certificate hash".into())
                    }
                }
                MEASUREMENTS if a.sig_req && a.neg.ver >= 0x11 => {
                    v[3] = slot(k, v[3]);
                    (sign_if(v), "slot".into())
                }
                KEY_UPDATE_ACK => {
                    if k.bool() {
                        v[2] = v[2].wrapping_add(k.range(1, 255) as u8);
                        (v, "operation".into())
                    } else {
                        v[3] = v[3].wrapping_add(k.range(1, 255) as u8);
                        (v, "tag".into())
                    }
                }
                ENCAP_RESPONSE_ACK if a.neg.ver >= 0x12 => {
                    v[4] = v[4].wrapping_add(k.range(1, 255) as u8);
                    (v, "acknowledged id".into())
                }
                _ => version(k),
            }
        }
        Kind::Channel => (b.clone(), "channel".into()),
    })
}

fn arm(fl: &Flow, a: &tap::Shared, pl: &Pl, seed: u64) {
    let pl = pl.clone();
    let tr = fl.g.tr;
    let mut k = Case::random(seed, false);
    tap::tap(&fl.w, a, move |a, p, m, f| {
        let mut pl = pl.borrow_mut();
        if p == Party::Req {
            if pl.left.is_some() {
                pl.before = Some(Box::new(a.clone()));
            }
            return None;
        }
        let m = m?;
        match pl.left {
            None => return None,
            Some(0) => {}
            Some(n) => {
                pl.left = Some(n - 1);
                return None;
            }
        }
        if m.bytes.len() < 2 || m.app || m.bytes[1] == ERROR {
            return None;
        }
        let (v, what) = instead(&mut k, &pl, a, m)?;
        let frame = if pl.kind == Some(Kind::Channel) {
            match (&m.dir, m.session) {
                (Some(_), Some(id)) => {
                    let other = a
                        .sess
                        .iter()
                        .rev()
                        .find(|s| s.id != id && s.st == St::Established)
                        .cloned();
                    match (k.below(3), other) {
                        (0, Some(s)) => s.forge(tr, Party::Rsp, false, &v),
                        (1, _) if tr == wire::Tr::Mctp => {
                            let mut m = m.clone();
                            m.app = true;
                            tap::reframe(a, &m, &v)
                        }
                        _ => wire::frame(tr, false, &v),
                    }
                }
                _ => {
                    let s = a
                        .sess
                        .iter()
                        .rev()
                        .find(|s| s.st == St::Established)
                        .cloned();
                    match s {
                        Some(s) => s.forge(tr, Party::Rsp, false, &v),
                        None => wire::frame(tr, true, &v),
                    }
                }
            }
        } else {
            tap::reframe(a, m, &v)
        };
        if frame == f {
            return None;
        }
        pl.left = None;
        pl.hit = Some((m.bytes[1], what, m.session.is_some()));
        Some(vec![frame])
    });
}

#[derive(Clone, Debug, PartialEq)]
struct Held {
    view: View,
    chains: Vec<Option<(usize, Vec<u8>)>>,
    changed: String,
}
fn held(w: &World) -> Held {
    let c = &w.req.common;
    Held {
        view: view_of(c),
        chains: c
            .peer_info
            .peer_cert_chain
            .iter()
            .map(|x| {
                x.as_ref().map(|x| {
                    (
                        x.data_size as usize,
                        x.data[..x.data_size as usize].to_vec(),
                    )
                })
            })
            .collect(),
        changed: format!("{:?}", c.runtime_info.content_changed),
    }
}
/// Measurements into buffers whose contents are known.
fn meas_into(w: &mut World, s: Option<u32>, slot: u8, sig: bool, op: u8) -> (bool, bool) {
    let attr = if sig {
        SpdmMeasurementAttributes::SIGNATURE_REQUESTED
    } else {
        SpdmMeasurementAttributes::empty()
    };
    let op = SpdmMeasurementOperation::read_bytes(&[op]).unwrap();
    let mut total = 0xEEu8;
    let mut rec = Box::new(SpdmMeasurementRecordStructure::default());
    rec.number_of_blocks = 0xEE;
    for (i, x) in rec.measurement_record_data.iter_mut().enumerate() {
        *x = (i * 7) as u8;
    }
    let r = w.rq(|r| r.send_receive_spdm_measurement(s, slot, attr, op, &mut total, &mut rec));
    let same = total == 0xEE
        && rec.number_of_blocks == 0xEE
        && rec
            .measurement_record_data
            .iter()
            .enumerate()
            .all(|(i, x)| *x == (i * 7) as u8);
    (r.is_ok(), same)
}

const CODES: [u8; 14] = [1, 3, 4, 5, 6, 7, 8, 0xA, 0xB, 0xD, 0x41, 0x42, 0xff, 0];

fn errors(c: &mut Case) -> CaseResult {
    replaced(c, &[Kind::Error])
}
fn kinds(c: &mut Case) -> CaseResult {
    replaced(c, &[Kind::Other, Kind::Version, Kind::Short])
}
fn echoes(c: &mut Case) -> CaseResult {
    replaced(c, &[Kind::Echo, Kind::Echo, Kind::Echo, Kind::Channel])
}

fn replaced(c: &mut Case, how: &[Kind]) -> CaseResult {
    let mut fl = start(c)?;
    for _ in 0..c.range(0, 2) {
        if fl.f.kex && fl.f.cert || fl.f.psk {
            open_one(c, &mut fl)?;
        }
    }
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    let pl: Pl = Rc::new(RefCell::new(Plan::default()));
    let seed = c.u64();
    arm(&fl, &a, &pl, seed);
    let mut log: Vec<String> = vec![];
    let mut hits = 0;
    for _ in 0..c.range(1, 4) {
        let mut act = some_op(c, &fl);
        if how.contains(&Kind::Echo) && c.bool() {
            // what carries echoes most
            let o = fl.open();
            let slot = c.pick(&fl.f.slots);
            act = match c.below(4) {
                0 if fl.f.upd && o > 0 => Act::Update(c.usize(o), c.range(1, 2) as u8),
                1 if fl.f.chal && fl.f.cert => Act::Challenge(slot, 0),
                2 if fl.f.meas_sig && fl.f.cert => {
                    let s = if o > 0 && c.bool() {
                        Some(c.usize(o))
                    } else {
                        None
                    };
                    Act::Meas(s, slot, true, 0xff)
                }
                _ if fl.f.kex && fl.f.cert && o < 4 => Act::Ke(slot, 0),
                _ if fl.f.cert => Act::Cert(None, slot),
                _ => act,
            };
        }
        let multi = matches!(
            act,
            Act::Init | Act::Cert(..) | Act::Ke(..) | Act::Psk(..) | Act::Update(..)
        );
        {
            let env = env_of(c, &fl.w, Party::Req);
            let mut p = pl.borrow_mut();
            *p = Plan::default();
            p.kind = Some(c.pick(how));
            p.left = Some(if multi { c.usize(5) } else { 0 });
            let n = c.range(0, 4);
            p.err = (
                if c.chance(1, 4) {
                    c.byte()
                } else {
                    c.pick(&CODES)
                },
                c.byte(),
                c.blob(n),
            );
            if p.err.0 == 0x43 {
                p.err.0 = 0x42;
            }
            let code = c.pick(&ALL_RSP);
            p.other = match c.below(3) {
                0 => gen::message(c, code, &env),
                1 => {
                    let a = a.borrow();
                    let l: Vec<&Msg> = a.msgs.iter().filter(|m| !m.app).collect();
                    l[c.usize(l.len())].bytes.clone()
                }
                _ => vec![],
            };
        }
        let b = held(&fl.w);
        let s0 = snap(&mut fl.w, Party::Req);
        let at = match &act {
            Act::Digest(s) | Act::Cert(s, _) | Act::Vendor(s, ..) | Act::Meas(s, ..) => *s,
            Act::Heartbeat(s) | Act::Update(s, _) | Act::End(s) | Act::App(s, _) => Some(*s),
            _ => None,
        };
        let ids = fl.w.open_sessions();
        let at = at.and_then(|i| {
            if ids.is_empty() {
                None
            } else {
                Some(ids[i % ids.len()])
            }
        });
        let (ok, clean) = match &act {
            Act::Meas(s, slot, sig, op) if s.is_none() || at.is_some() => {
                meas_into(&mut fl.w, at, *slot, *sig, *op)
            }
            _ => (fl.w.act(&act).map_or(false, |r| r.is_ok()), true),
        };
        let p = pl.replace(Plan::default());
        log.push(format!("{:?} {} {:?} {:?}", act, ok, p.hit, p.err));
        let gs = fl.g.clone();
        let ctx = || format!("{:?} {}", log, cfg_str(&gs));
        let (code, what, _) = match p.hit {
            Some(h) => h,
            None => continue,
        };
        hits += 1;
        c.label(match p.kind.unwrap() {
            Kind::Error => "error",
            Kind::Other => "another kind",
            Kind::Version => "version",
            Kind::Echo => "echo",
            Kind::Channel => "channel",
            Kind::Short => "short",
        });
        let w0 = what.split(' ').next().unwrap().to_string();
        ensure!(
            !ok,
            format!("taken for success: {} for {:02x}", w0, code),
            "{} {}",
            what,
            ctx()
        );
        ensure!(
            clean,
            "results are handed out by an operation that fails",
            "{} {}",
            what,
            ctx()
        );
        let h = held(&fl.w);
        if let Act::Init = act {
            // the negotiation starts anew; what was not answered is not settled
            let stage = match code {
                VERSION => 0,
                CAPABILITIES => 1,
                _ => 2,
            };
            let v = &h.view;
            ensure!(
                (stage > 0 || v.ver == 0)
                    && (stage > 1 || v.rsp_caps == 0)
                    && v.hash == 0
                    && v.asym == 0
                    && v.aead == 0,
                "a refused answer leaves something behind",
                "{} {:?} {}",
                what,
                v,
                ctx()
            );
            let sends = fl.w.sh.borrow().req_sends;
            for s in 0..2 {
                let r = if s == 0 {
                    fl.w.digest(None)
                } else {
                    fl.w.challenge(0, 0)
                };
                ensure!(
                    r.is_err() && fl.w.sh.borrow().req_sends == sends,
                    "an operation goes on without a negotiation",
                    "{}",
                    ctx()
                );
            }
            fl.w.drain();
            let r = fl.w.init();
            ensure!(r.is_ok(), "connecting again fails", "{:?} {}", r, ctx());
            break;
        }
        ensure!(
            h == b,
            format!("a refused answer leaves something behind: {:02x}", code),
            "{} {:?} {:?} {}",
            what,
            b.view,
            h.view,
            ctx()
        );
        // sessions: those before, the one the operation ran in apart
        let s1 = snap(&mut fl.w, Party::Req);
        let start = matches!(act, Act::Ke(..) | Act::Psk(..));
        let but = |s: &Snap| -> Snap {
            s.iter()
                .filter(|x| Some(x.0) != at && !(start && !s0.iter().any(|y| y.0 == x.0)))
                .cloned()
                .collect()
        };
        ensure!(
            but(&s0) == but(&s1),
            "a refused answer changes another session",
            "{} {:x?} {:x?} {}",
            what,
            s0,
            s1,
            ctx()
        );
        for x in &s1 {
            ensure!(
                s0.iter().any(|y| y.0 == x.0) || x.1 != SpdmSessionStateN::Established,
                "a refused answer establishes a session",
                "{} {}",
                what,
                ctx()
            );
        }
        if let Some(id) = at {
            let x0 = s0.iter().find(|x| x.0 == id);
            let x1 = s1.iter().find(|x| x.0 == id);
            match (x0, x1) {
                (Some(x), Some(y)) => {
                    let same = x.1 == y.1 && x.3 == y.3 && x.4 == y.4;
                    let keys = match (&x.2, &y.2) {
                        (Some(k), Some(l)) => {
                            matches!(act, Act::Update(..))
                                || k.0 .0 == l.0 .0
                                    && k.1 .0 == l.1 .0
                                    && k.0 .1 == l.0 .1
                                    && k.1 .1 == l.1 .1
                        }
                        (k, l) => k == l,
                    };
                    ensure!(
                        same && keys,
                        "a refused answer changes its session",
                        "{} {:x?} {:x?} {}",
                        what,
                        x,
                        y,
                        ctx()
                    );
                }
                // dropped: only on the word of a decrypt error
                (_, None) => ensure!(
                    p.kind == Some(Kind::Error) && p.err.0 == 6,
                    "a refused answer ends its session",
                    "{} {}",
                    what,
                    ctx()
                ),
                _ => {}
            }
        }
        if matches!(act, Act::Update(..) | Act::End(..)) || start {
            break;
        }
        fl.w.drain();
        // and everything goes on
        if let Some(id) = at {
            let alive = s1.iter().any(|x| x.0 == id);
            if alive && p.kind != Some(Kind::Channel) {
                let r = fl.w.vendor(Some(id), 1, &[1], &[2, 3]);
                ensure!(
                    r.is_ok(),
                    "a refused answer leaves a session unusable",
                    "{} {:?} {}",
                    what,
                    r,
                    ctx()
                );
            } else {
                break;
            }
        } else if fl.f.cert && fl.f.chal && c.bool() {
            let slot = c.pick(&fl.f.slots);
            let r =
                fl.w.digest(None)
                    .and_then(|_| fl.w.cert(None, slot))
                    .and_then(|_| fl.w.challenge(slot, 0));
            ensure!(
                r.is_ok(),
                "a refused answer spoils what follows",
                "{} {:?} {}",
                what,
                r,
                ctx()
            );
        }
    }
    if hits > 0 {
        c.nontrivial();
    }
    if c.chance(1, 4) {
        served(c, &mut fl)?;
    }
    Ok(())
}

/// The responder asks to start over.
fn resynch(c: &mut Case) -> CaseResult {
    let mut fl = start(c)?;
    for _ in 0..c.range(0, 3) {
        if fl.f.kex && fl.f.cert || fl.f.psk {
            open_one(c, &mut fl)?;
        }
    }
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    let pl: Pl = Rc::new(RefCell::new(Plan::default()));
    let seed = c.u64();
    arm(&fl, &a, &pl, seed);
    let act = some_op(c, &fl);
    {
        let mut p = pl.borrow_mut();
        p.kind = Some(Kind::Error);
        p.left = Some(match act {
            Act::Init => c.range(1, 2),
            Act::Cert(..) | Act::Ke(..) | Act::Psk(..) | Act::Update(..) => c.usize(5),
            _ => 0,
        });
        p.err = (0x43, c.pick(&[0u8, 0, 1, 0xff]), vec![]);
    }
    let r = fl.w.act(&act);
    let hit = pl.replace(Plan::default()).hit;
    let gs = fl.g.clone();
    let ctx = || format!("{:?} {:?} {:?} {}", act, r, hit, cfg_str(&gs));
    let hit = match &hit {
        Some(h) => h.clone(),
        None => return Ok(()),
    };
    c.nontrivial();
    ensure!(
        !matches!(r, Some(Ok(_))),
        "a resynchronisation request is taken for success",
        "{}",
        ctx()
    );
    let h = held(&fl.w);
    ensure!(
        h.view.hash == 0
            && h.view.ver == 0
            && h.view.rsp_caps == 0
            && h.view.aead == 0
            && h.chains.iter().all(|x| x.is_none()),
        format!(
            "a resynchronisation request leaves the negotiated state: {:02x}",
            hit.0
        ),
        "{:?} {}",
        h.view,
        ctx()
    );
    ensure!(
        fl.w.req_sessions().is_empty(),
        format!("a resynchronisation request leaves sessions: {:02x}", hit.0),
        "{}",
        ctx()
    );
    fl.w.drain();
    for _ in 0..c.range(1, 3) {
        let o = 0;
        let x = gen_op(c, &fl.f, o);
        let r = fl.w.act(&x);
        ensure!(
            !matches!(r, Some(Ok(_))),
            "an operation succeeds after a resynchronisation request",
            "{:?} {}",
            x,
            ctx()
        );
        fl.w.drain();
    }
    served(c, &mut fl)
}
