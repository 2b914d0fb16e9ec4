//! C15 secured records, C16 nonces, C17 key updates.

use super::session::{check_session, exchange_data, keys_of, Keys};
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::toy::{self, Fault, Op, Party};
use crate::wire::{self, code::*, Tr};
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "layout: a record was built and compared byte for byte with the independent implementation and opened by the peer; requests/responses: at least one genuine record was accepted and at least one other delivery was judged; ops: the chosen record of the operation was replaced",
            level: "exploration",
            assumptions: &["toy cryptography: the AEAD authenticates every input and depends on every byte"],
            subs: vec![
                Sub { name: "layout", f: layout, quick: 9000, thorough: 300_000 },
                Sub { name: "requests", f: requests, quick: 18000, thorough: 600_000 },
                Sub { name: "responses", f: responses, quick: 18000, thorough: 600_000 },
                Sub { name: "ops", f: altered_ops, quick: 18000, thorough: 600_000 },
            ],
        },
        Prop {
            id: "C16",
            rule: "history: at least two records were encrypted under one key in a history with a key update, a failed operation, a second session or a reconnect; exhaust: a counter was driven to its end",
            level: "exploration",
            assumptions: &["every record is encrypted through the registered AEAD, which logs key and nonce"],
            subs: vec![
                Sub { name: "history", f: nonce_history, quick: 24000, thorough: 300_000 },
                Sub { name: "exhaust", f: exhaust, quick: 16000, thorough: 150_000 },
            ],
        },
        Prop {
            id: "C17",
            rule: "agree: at least one key update completed and both sides' keys were compared with the update derivation; retired: a record under a retired key was delivered; refused: an update was disturbed; byhand: at least two key-update requests in an order chosen freely; renewed: an update completed for keys both entries were seen to hold",
            level: "exploration",
            assumptions: &["toy cryptography: the AEAD authenticates; HKDF is the real algorithm"],
            subs: vec![
                Sub { name: "agree", f: agree, quick: 6000, thorough: 300_000 },
                Sub { name: "retired", f: retired, quick: 6000, thorough: 300_000 },
                Sub { name: "refused", f: refused, quick: 12000, thorough: 600_000 },
                Sub { name: "byhand", f: byhand, quick: 6000, thorough: 300_000 },
                Sub { name: "renewed", f: super::life::renewed, quick: 3000, thorough: 150_000 },
            ],
        },
    ]
}

/// What one side's session table holds.
pub type Snap = Vec<(u32, SpdmSessionStateN, Option<Keys>, u8, bool)>;
pub fn snap(w: &mut World, p: Party) -> Snap {
    let v = match p {
        Party::Req => w.req_sessions(),
        Party::Rsp => w.rsp_sessions(),
    };
    v.into_iter()
        .map(|(id, st)| {
            let k = keys_of(w, p, id);
            let c = match p {
                Party::Req => &w.req.common,
                Party::Rsp => &w.rsp.common,
            };
            let s = c.get_immutable_session_via_id(id).unwrap();
            (id, st, k, s.get_slot_id(), s.get_use_psk())
        })
        .collect()
}
/// `b` is `a` but for the counter of direction `dir` (0 requests, 1 responses)
/// of session `id`, which may have moved on by at most `by`.
pub fn moved(a: &Snap, b: &Snap, id: Option<u32>, dir: usize, by: u64) -> bool {
    if a.len() != b.len() {
        return false;
    }
    a.iter().zip(b).all(|(x, y)| {
        if Some(x.0) == id {
            let mut x = x.clone();
            if let (Some(k), Some(l)) = (&mut x.2, &y.2) {
                let (m, n) = if dir == 0 {
                    (&mut k.0 .2, l.0 .2)
                } else {
                    (&mut k.1 .2, l.1 .2)
                };
                if n >= *m && n - *m <= by {
                    *m = n;
                }
            }
            x == *y
        } else {
            x == y
        }
    })
}

/// A configuration in which sessions can be started.
pub fn sess_cfg(c: &mut Case) -> Cfg {
    let mut g = gen_wide(c);
    if !g
        .req
        .versions
        .iter()
        .any(|v| *v >= 0x11 && g.rsp.versions.contains(v))
    {
        g.set_versions(&[c.pick(&[0x11u8, 0x12])]);
    }
    if c.bool() {
        g.req.caps |= RQ_PSK;
        if g.rsp.caps & (RS_PSK_CTX | RS_PSK_NOCTX) == 0 {
            g.rsp.caps |= c.pick(&[RS_PSK_CTX, RS_PSK_NOCTX]);
        }
    }
    let f = feat(&g, &[]);
    if !f.kex && !f.psk {
        g.req.caps |= RQ_KEX;
        g.rsp.caps |= RS_KEX;
        let f = feat(&g, &[]);
        if !f.kex {
            g.set_versions(&[0x12]);
        }
    }
    g
}
pub fn open_one(c: &mut Case, fl: &mut Flow) -> Result<u32, Failure> {
    let psk = if fl.f.kex && fl.f.psk {
        c.bool()
    } else {
        fl.f.psk
    };
    let sum = if fl.f.meas {
        c.pick(&[0u8, 1, 0xff])
    } else {
        0
    };
    let act = if psk {
        let n = c.range(0, 32);
        Act::Psk(sum, c.blob(n))
    } else {
        let s = c.pick(&fl.f.slots);
        Act::Ke(s, sum)
    };
    match fl.must(act)? {
        Out::Session(i) => Ok(i),
        _ => fail("no session id", fl.ctx()),
    }
}
/// A connection with `n` open sessions.
pub fn opened(c: &mut Case, n: usize) -> Result<(Flow, Vec<u32>), Failure> {
    let g = sess_cfg(c);
    let (mut fl, ids) = opened_with(c, g, n)?;
    if c.chance(1, 3) {
        for id in ids.iter() {
            far(c, &mut fl, *id);
        }
    }
    Ok((fl, ids))
}
/// Put a session where it is after a long time of traffic.
fn far(c: &mut Case, fl: &mut Flow, id: u32) {
    for dir in 0..2 {
        let k = c.range(1, 8) as u32;
        let top = u64::MAX - 100_000;
        let v = match c.below(4) {
            0 => continue,
            1 => 1u64.checked_shl(8 * k).unwrap_or(top) - c.below(6),
            2 => c.u64() >> (64 - 8 * k),
            _ => c.u64(),
        };
        jump(fl, id, dir, v.min(top));
    }
}
fn jump(fl: &mut Flow, id: u32, dir: usize, v: u64) {
    for p in [Party::Req, Party::Rsp] {
        set_seq(&mut fl.w, p, id, dir, v);
    }
    if let Some(s) = fl.a.session(id) {
        s.app[dir].seq = v;
    }
}
pub fn opened_with(c: &mut Case, g: Cfg, n: usize) -> Result<(Flow, Vec<u32>), Failure> {
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let mut ids = vec![];
    for _ in 0..n {
        ids.push(open_one(c, &mut fl)?);
    }
    Ok((fl, ids))
}
/// The session as the observer knows it.
pub fn seen(fl: &mut Flow, id: u32) -> Result<Sess, Failure> {
    match fl.a.session(id) {
        Some(s) => Ok(s.clone()),
        None => fail("the observer lost a session", fl.ctx()),
    }
}
pub fn vendor_msg(ver: u8, id: u16, vid: &[u8], pl: &[u8]) -> Vec<u8> {
    let mut v = vec![ver, VENDOR_REQ, 0, 0];
    v.extend_from_slice(&id.to_le_bytes());
    v.push(vid.len() as u8);
    v.extend_from_slice(vid);
    v.extend_from_slice(&(pl.len() as u16).to_le_bytes());
    v.extend_from_slice(pl);
    v
}
/// A record under the given key and position, framed.
pub fn sealed(tr: Tr, aead: u16, k: &Dir, id: u32, seq: u64, app: bool, m: &[u8]) -> Vec<u8> {
    wire::frame(
        tr,
        true,
        &wire::seal_record(
            tr,
            aead,
            &k.key,
            &k.iv,
            id,
            seq,
            &wire::app_wrap(tr, app, m),
        ),
    )
}
/// Keep what a party sends from now on instead of delivering it.
fn hold(w: &mut World) -> Rc<RefCell<Vec<Vec<u8>>>> {
    let s: Rc<RefCell<Vec<Vec<u8>>>> = Rc::default();
    let t = s.clone();
    w.set_mitm(Some(Box::new(move |_, _, b| {
        t.borrow_mut().push(b.to_vec());
        vec![]
    })));
    s
}
/// Position a party expects the next record of direction `dir` at.
fn seq_at(w: &mut World, p: Party, id: u32, dir: usize) -> u64 {
    match keys_of(w, p, id) {
        Some(k) => {
            if dir == 0 {
                k.0 .2
            } else {
                k.1 .2
            }
        }
        None => 0,
    }
}
fn set_seq(w: &mut World, p: Party, id: u32, dir: usize, v: u64) {
    let c = match p {
        Party::Req => &mut w.req.common,
        Party::Rsp => &mut w.rsp.common,
    };
    if let Some(s) = c.get_session_via_id(id) {
        if dir == 0 {
            s.set_request_direction_sequence_number(v)
        } else {
            s.set_response_direction_sequence_number(v)
        }
    }
}

// ---------------------------------------------------------------- C15

/// Records of every payload size, compared with the independent layout.
fn layout(c: &mut Case) -> CaseResult {
    let (mut fl, ids) = opened(c, 1)?;
    let id = ids[0];
    let tr = fl.g.tr;
    let aead = fl.a.neg.aead;
    let n = c.range(2, 5);
    for _ in 0..n {
        let len = match c.weighted(&[3, 2, 2]) {
            0 => c.len_biased(1200),
            1 => c.range(4050, 4160),
            _ => c.usize(4200),
        };
        let inner = c.blob(len);
        let dir = c.usize(2);
        // both sides advance alike, whichever of them sends
        let (from, to) = if dir == 0 {
            (Party::Req, Party::Rsp)
        } else {
            (Party::Rsp, Party::Req)
        };
        let before = keys_of(&mut fl.w, from, id).unwrap();
        let k = if dir == 0 { &before.0 } else { &before.1 };
        let want = if len + 2 <= 65535 - 16 {
            Some(wire::seal_record(tr, aead, &k.0, &k.1, id, k.2, &inner))
        } else {
            None
        };
        let room = match c.weighted(&[4, 1, 1]) {
            0 => 4160usize,
            1 => c.usize(len + 40),
            _ => len + 2 + 16 + 6 + wire::seq_bytes(tr),
        };
        let mut out = vec![0u8; room];
        let enc = {
            let r = |x: &mut spdmlib::common::SpdmContext, o: &mut [u8]| {
                x.get_session_via_id(id)
                    .unwrap()
                    .encode_spdm_secured_message(&inner, o, dir == 0)
            };
            match from {
                Party::Req => fl.w.rq(|q| r(&mut q.common, &mut out)),
                Party::Rsp => fl.w.rs(|s| r(&mut s.common, &mut out)),
            }
        };
        let need = len + 2 + 16 + 6 + wire::seq_bytes(tr);
        match enc {
            Ok(n) => {
                c.nontrivial();
                c.label("record");
                ensure!(
                    want.as_deref() == Some(&out[..n]),
                    "record differs from the secured-message layout",
                    "{} bytes payload: {} for {:?}, {}",
                    len,
                    hex(&out[..n.min(40)]),
                    want.as_ref().map(|w| hex(&w[..w.len().min(40)])),
                    fl.ctx()
                );
                // transports may leave alignment padding behind the record
                let pad = c.usize(4);
                let mut rec = out[..n].to_vec();
                rec.extend(std::iter::repeat(0).take(pad));
                let mut back = vec![0u8; 4200];
                let dec = {
                    let r = |x: &mut spdmlib::common::SpdmContext, o: &mut [u8]| {
                        x.get_session_via_id(id)
                            .unwrap()
                            .decode_spdm_secured_message(&rec, o, dir == 0)
                    };
                    match to {
                        Party::Req => fl.w.rq(|q| r(&mut q.common, &mut back)),
                        Party::Rsp => fl.w.rs(|s| r(&mut s.common, &mut back)),
                    }
                };
                ensure!(
                    matches!(dec, Ok(m) if m == len && back[..m] == inner[..]),
                    "record does not give the data back",
                    "{} bytes: {:?} {}",
                    len,
                    dec,
                    fl.ctx()
                );
            }
            Err(e) => {
                c.label("does not fit");
                ensure!(
                    need > room || len + 2 > 4160 || need > 4160,
                    "a payload that fits is refused",
                    "{} bytes into {}: {:?} {}",
                    len,
                    room,
                    e,
                    fl.ctx()
                );
                // the positions of both sides stay together for what follows
                let v = seq_at(&mut fl.w, to, id, dir);
                set_seq(&mut fl.w, from, id, dir, v);
            }
        }
        let (a, b) = (
            seq_at(&mut fl.w, from, id, dir),
            seq_at(&mut fl.w, to, id, dir),
        );
        ensure!(a == b, "positions differ", "{} {} {}", a, b, fl.ctx());
    }
    Ok(())
}

/// What an attacker makes of the records at hand. `k` are genuine records
/// (frames) of the direction, `other` frames of the other direction or other
/// sessions. Returns the frame, what it is, and the genuine record it equals.
fn junk(
    c: &mut Case,
    tr: Tr,
    s: &Sess,
    dir: usize,
    next: u64,
    k: &[Vec<u8>],
    other: &[Vec<u8>],
    sess2: Option<&Sess>,
    msg: &[u8],
    app: bool,
) -> (Vec<u8>, &'static str) {
    let aead = s.neg.aead;
    let good = s.app[dir].clone();
    let f = |rec: Vec<u8>| wire::frame(tr, true, &rec);
    let r0 = {
        let i = c.usize(k.len());
        let (_, r) = wire::unframe(tr, &k[i]).unwrap();
        let hl = 4 + wire::seq_bytes(tr) + 2;
        let l = r[hl - 2] as usize | (r[hl - 1] as usize) << 8;
        r[..(hl + l).min(r.len())].to_vec()
    };
    let hl = 4 + wire::seq_bytes(tr) + 2;
    match c.weighted(&[6, 2, 2, 2, 1, 1, 2, 3, 2, 2, 2, 1, 2, 1, 2, 2]) {
        0 => {
            let mut r = r0;
            let i = c.usize(r.len());
            r[i] ^= 1 << c.below(8);
            (f(r), "bit flipped")
        }
        1 => {
            let mut r = r0;
            let n = c.usize(r.len());
            r.truncate(n);
            (f(r), "truncated")
        }
        2 => {
            // bytes added inside the protected part
            let mut r = r0;
            let at = c.range(hl, r.len());
            let n = c.range(1, 8);
            for x in c.blob(n) {
                r.insert(at, x);
            }
            let l = (r.len() - hl) as u16;
            r[hl - 2..hl].copy_from_slice(&l.to_le_bytes());
            (f(r), "extended")
        }
        3 => {
            let mut r = r0;
            let l = c.u64() as u16;
            r[hl - 2..hl].copy_from_slice(&l.to_le_bytes());
            (f(r), "length field")
        }
        4 => {
            // header of one record, body of another
            let mut r = r0;
            let j = c.usize(k.len());
            let (_, q) = wire::unframe(tr, &k[j]).unwrap();
            let n = r.len().min(q.len());
            r[hl.min(n)..n].copy_from_slice(&q[hl.min(n)..n]);
            (f(r), "spliced")
        }
        5 => {
            let mut r = r0;
            for b in r[..hl].iter_mut() {
                if c.bool() {
                    *b = c.byte();
                }
            }
            (f(r), "header")
        }
        6 if !other.is_empty() => {
            let o = c.pick(other);
            let mut r = wire::unframe(tr, &o).unwrap().1.to_vec();
            if c.bool() && r.len() > hl {
                r[..4].copy_from_slice(&s.id.to_le_bytes());
                r[4..4 + wire::seq_bytes(tr)]
                    .copy_from_slice(&next.to_le_bytes()[..wire::seq_bytes(tr)]);
            }
            (f(r), "of another direction, session or time")
        }
        6 | 7 => {
            // the right key at another position
            let d = c.range(1, 5) as u64;
            let q = if c.bool() && next >= d {
                next - d
            } else {
                next + d
            };
            let mut r = wire::seal_record(
                tr,
                aead,
                &good.key,
                &good.iv,
                s.id,
                q,
                &wire::app_wrap(tr, app, msg),
            );
            if c.bool() {
                r[4..4 + wire::seq_bytes(tr)]
                    .copy_from_slice(&next.to_le_bytes()[..wire::seq_bytes(tr)]);
            }
            (f(r), "another position")
        }
        8 => {
            let o = &s.app[1 - dir];
            (
                sealed(tr, aead, o, s.id, next, app, msg),
                "key of the other direction",
            )
        }
        9 => {
            let o = &s.hs[c.usize(2)];
            if o.key.is_empty() {
                (f(vec![]), "empty")
            } else {
                (sealed(tr, aead, o, s.id, next, app, msg), "handshake key")
            }
        }
        10 => match sess2 {
            Some(t) => {
                let o = &t.app[dir];
                (
                    sealed(tr, aead, o, s.id, next, app, msg),
                    "key of another session",
                )
            }
            None => (f(s.id.to_le_bytes().to_vec()), "only an id"),
        },
        11 => {
            let mut d = good.clone();
            match c.usize(3) {
                0 => d.key = vec![0; d.key.len()],
                1 => d.iv = vec![0; d.iv.len()],
                _ => {
                    let i = c.usize(d.key.len());
                    d.key[i] ^= 1 << c.below(8);
                }
            }
            (
                sealed(tr, aead, &d, s.id, next, app, msg),
                "another key or IV",
            )
        }
        12 => {
            // properly protected, but the inner length goes beyond the record
            let inner = wire::app_wrap(tr, app, msg);
            let by = c.range(1, 300) as u64;
            let n = (inner.len() as u64 + by).min(65535) as u16;
            (
                f(wire::seal_record_ex(
                    tr, aead, &good.key, &good.iv, s.id, next, &inner, n,
                )),
                "inner length beyond the record",
            )
        }
        13 => {
            let n = c.usize(40);
            let mut r = s.id.to_le_bytes().to_vec();
            r.extend(c.blob(n));
            (f(r), "noise")
        }
        14 => {
            // protected for an id the session does not have
            let id = s.id ^ (1 << c.below(32));
            let mut r = wire::seal_record(
                tr,
                aead,
                &good.key,
                &good.iv,
                id,
                next,
                &wire::app_wrap(tr, app, msg),
            );
            if c.bool() {
                r[..4].copy_from_slice(&s.id.to_le_bytes());
            }
            (f(r), "another session id")
        }
        _ => {
            let mut r = r0;
            let n = r.len();
            let i = c.range(1, 16);
            for b in r[n - i.min(n)..].iter_mut() {
                *b = c.byte();
            }
            (f(r), "tag")
        }
    }
}

/// The genuine record a frame is, alignment padding aside.
fn same_as(tr: Tr, frame: &[u8], k: &[Vec<u8>]) -> Option<usize> {
    let (_, r) = wire::unframe(tr, frame)?;
    k.iter().position(|g| {
        let (_, x) = wire::unframe(tr, g).unwrap();
        let hl = 4 + wire::seq_bytes(tr) + 2;
        let l = x[hl - 2] as usize | (x[hl - 1] as usize) << 8;
        let x = &x[..(hl + l).min(x.len())];
        r.len() >= x.len() && r[..x.len()] == *x
    })
}

/// Requests captured and delivered in an order, with changes, of the
/// attacker's choice.
fn requests(c: &mut Case) -> CaseResult {
    let n = c.range(1, 3);
    let (mut fl, ids) = opened(c, n)?;
    let h = c.range(0, 3);
    for _ in 0..h {
        let i = c.pick(&ids);
        exchange_data(c, &mut fl, i)?;
    }
    fl.clean(&[])?;
    let tr = fl.g.tr;
    let id = c.pick(&ids);
    let s = seen(&mut fl, id)?;
    let s2 = match ids.iter().find(|x| **x != id) {
        Some(x) => Some(seen(&mut fl, *x)?),
        None => None,
    };
    // frames of other directions, sessions and times
    let mut other: Vec<Vec<u8>> =
        fl.w.log()
            .iter()
            .map(|f| f.sent.clone())
            .filter(|f| matches!(wire::unframe(tr, f), Some((true, _))))
            .collect();
    let kept = hold(&mut fl.w);
    let n = c.range(1, 5);
    let mut msgs = vec![];
    for _ in 0..n {
        let app = fl.f.mctp && c.bool();
        let l = c.len_biased(200).max(1);
        let pl = c.blob(l);
        let m = if app {
            pl.clone()
        } else {
            vendor_msg(fl.f.ver, 3, &[7], &pl)
        };
        let r = fl.w.rq(|r| r.send_secured_message(id, &m, app));
        ensure!(r.is_ok(), "send in a session fails", "{:?} {}", r, fl.ctx());
        msgs.push((app, m, pl));
    }
    let k: Vec<Vec<u8>> = kept.borrow().clone();
    ensure!(
        k.len() == msgs.len(),
        "records and messages differ in number",
        "{} {} {}",
        k.len(),
        msgs.len(),
        fl.ctx()
    );
    let base = s.app[0].seq;
    if let Some(t) = &s2 {
        let kept = hold(&mut fl.w);
        let m = vendor_msg(fl.f.ver, 3, &[7], &[1, 2, 3]);
        let _ = fl.w.rq(|r| r.send_secured_message(t.id, &m, false));
        // (as it is, that session would rightly accept it)
        for f in kept.borrow().iter() {
            let mut r = wire::unframe(tr, f).unwrap().1.to_vec();
            r[..4].copy_from_slice(&id.to_le_bytes());
            other.push(wire::frame(tr, true, &r));
        }
        // keep that session in step
        let v = seq_at(&mut fl.w, Party::Rsp, t.id, 0);
        set_seq(&mut fl.w, Party::Req, t.id, 0, v);
    }
    fl.w.set_mitm(None);
    let steps = c.range(msgs.len(), msgs.len() + 8);
    let mut cursor = 0usize;
    let (mut taken, mut judged) = (0, 0);
    for _ in 0..steps {
        let pos = seq_at(&mut fl.w, Party::Rsp, id, 0);
        let (frame, what) = match c.weighted(&[4, 2, 4]) {
            0 if cursor < k.len() => {
                cursor += 1;
                (k[cursor - 1].clone(), "next")
            }
            0 | 1 => (c.pick(&k), "any"),
            _ => {
                let i = c.usize(msgs.len());
                let (app, m, _) = msgs[i].clone();
                junk(c, tr, &s, 0, pos, &k, &other, s2.as_ref(), &m, app)
            }
        };
        let which = same_as(tr, &frame, &k);
        let expect = which.filter(|i| base + *i as u64 == pos);
        let sid = wire::unframe(tr, &frame)
            .and_then(|x| wire::record_sid(x.1))
            .unwrap_or(0);
        let (al, vl) = toy::with(|t| (t.app_log.len(), t.vendor_log.len()));
        let before = snap(&mut fl.w, Party::Rsp);
        let ret = fl.w.feed(&frame);
        let after = snap(&mut fl.w, Party::Rsp);
        let (al2, vl2) = toy::with(|t| (t.app_log.len(), t.vendor_log.len()));
        match expect {
            Some(i) => {
                taken += 1;
                let (app, m, pl) = &msgs[i];
                let got = toy::with(|t| {
                    if *app {
                        (al2 == al + 1 && vl2 == vl).then(|| t.app_log[al].data.clone())
                    } else {
                        (al2 == al && vl2 == vl + 1).then(|| t.vendor_log[vl].clone())
                    }
                });
                ensure!(
                    got.as_ref() == Some(if *app { m } else { pl }),
                    "a genuine record in its place is not delivered as sent",
                    "{}: record {} at {}: {:?} {}",
                    what,
                    i,
                    pos,
                    got.as_ref().map(|g| hex(g)),
                    fl.ctx()
                );
                ensure!(
                    ret.sent.len() == 1,
                    "not exactly one answer",
                    "{} {}",
                    ret.sent.len(),
                    fl.ctx()
                );
                let d = &s.app[1];
                let q = before
                    .iter()
                    .find(|x| x.0 == id)
                    .unwrap()
                    .2
                    .clone()
                    .unwrap();
                let (sec, rec) = wire::unframe(tr, &ret.sent[0]).unwrap();
                let o = wire::open_record(tr, s.neg.aead, &d.key, &d.iv, id, q.1 .2, rec);
                ensure!(
                    sec && o.is_ok(),
                    "the answer is not a record of the session",
                    "{:?} {}",
                    o,
                    fl.ctx()
                );
            }
            None => {
                judged += 1;
                c.label(what);
                ensure!(
                    al2 == al && vl2 == vl,
                    "a record that was not sent for this place reaches a handler",
                    "{} (record {:?} at position {}) {}",
                    what,
                    which,
                    pos - base,
                    fl.ctx()
                );
                ensure!(
                    ret.sent
                        .iter()
                        .all(|f| matches!(wire::unframe(tr, f), Some((false, m)) if m.len() >= 4 && m[1] == ERROR)),
                    "a record that was not sent for this place gets an answer",
                    "{} (record {:?} at position {}): {} {}",
                    what,
                    which,
                    pos - base,
                    ret.sent.iter().map(|f| hex(f)).collect::<Vec<_>>().join(" "),
                    fl.ctx()
                );
                ensure!(
                    moved(&before, &after, Some(sid), 0, 1),
                    "a rejected record changes a session",
                    "{}: {:x?} {:x?} {}",
                    what,
                    before,
                    after,
                    fl.ctx()
                );
            }
        }
    }
    if taken > 0 && judged > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// The same towards the requester.
fn responses(c: &mut Case) -> CaseResult {
    let n = c.range(1, 3);
    let (mut fl, ids) = opened(c, n)?;
    let h = c.range(0, 3);
    for _ in 0..h {
        let i = c.pick(&ids);
        exchange_data(c, &mut fl, i)?;
    }
    fl.clean(&[])?;
    let tr = fl.g.tr;
    let id = c.pick(&ids);
    let s = seen(&mut fl, id)?;
    let s2 = match ids.iter().find(|x| **x != id) {
        Some(x) => Some(seen(&mut fl, *x)?),
        None => None,
    };
    let other: Vec<Vec<u8>> =
        fl.w.log()
            .iter()
            .map(|f| f.sent.clone())
            .filter(|f| matches!(wire::unframe(tr, f), Some((true, _))))
            .collect();
    let kept = hold(&mut fl.w);
    let n = c.range(1, 5);
    let mut msgs = vec![];
    for _ in 0..n {
        let app = fl.f.mctp;
        let l = c.len_biased(200).max(1);
        let pl = c.blob(l);
        let m = if app {
            pl
        } else {
            let mut v = vendor_msg(fl.f.ver, 3, &[7], &pl);
            v[1] = VENDOR_RSP;
            v
        };
        let r = fl.w.rs(|r| r.send_secured_message(id, &m, app));
        ensure!(r.is_ok(), "send in a session fails", "{:?} {}", r, fl.ctx());
        msgs.push((app, m));
    }
    let k: Vec<Vec<u8>> = kept.borrow().clone();
    fl.w.set_mitm(None);
    ensure!(
        k.len() == msgs.len(),
        "records and messages differ in number",
        "{} {} {}",
        k.len(),
        msgs.len(),
        fl.ctx()
    );
    let base = s.app[1].seq;
    let steps = c.range(msgs.len(), msgs.len() + 8);
    let mut cursor = 0usize;
    let (mut taken, mut judged) = (0, 0);
    for _ in 0..steps {
        let pos = seq_at(&mut fl.w, Party::Req, id, 1);
        let (frame, what) = match c.weighted(&[4, 2, 4]) {
            0 if cursor < k.len() => {
                cursor += 1;
                (k[cursor - 1].clone(), "next")
            }
            0 | 1 => (c.pick(&k), "any"),
            _ => {
                let i = c.usize(msgs.len());
                let (app, m) = msgs[i].clone();
                junk(c, tr, &s, 1, pos, &k, &other, s2.as_ref(), &m, app)
            }
        };
        let which = same_as(tr, &frame, &k);
        let expect = which.filter(|i| base + *i as u64 == pos);
        let before = snap(&mut fl.w, Party::Req);
        fl.w.drain();
        fl.w.sh.borrow_mut().to_req.push_back(frame.clone());
        let mut b = vec![0u8; MAX_FRAME];
        let r = fl.w.rq(|r| r.receive_secured_message(id, &mut b, false));
        let after = snap(&mut fl.w, Party::Req);
        match expect {
            Some(i) => {
                taken += 1;
                let ok = matches!(r, Ok(n) if b[..n] == msgs[i].1[..]);
                ensure!(
                    ok,
                    "a genuine record in its place is not delivered as sent",
                    "{}: record {} at {}: {:?} {}",
                    what,
                    i,
                    pos,
                    r,
                    fl.ctx()
                );
            }
            None => {
                judged += 1;
                c.label(what);
                ensure!(
                    r.is_err(),
                    "a record that was not sent for this place is accepted",
                    "{} (record {:?} at position {}) {}",
                    what,
                    which,
                    pos - base,
                    fl.ctx()
                );
                ensure!(
                    moved(&before, &after, Some(id), 1, 1),
                    "a rejected record changes a session",
                    "{}: {:x?} {:x?} {}",
                    what,
                    before,
                    after,
                    fl.ctx()
                );
            }
        }
    }
    if taken > 0 && judged > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// A session operation of the requester, one record of which is replaced.
fn altered_ops(c: &mut Case) -> CaseResult {
    let n = c.range(1, 3);
    let (mut fl, ids) = opened(c, n)?;
    let h = c.range(0, 2);
    for _ in 0..h {
        let i = c.pick(&ids);
        exchange_data(c, &mut fl, i)?;
    }
    fl.clean(&[])?;
    let tr = fl.g.tr;
    let pick = c.usize(ids.len());
    let id = fl.w.open_sessions()[pick];
    let s = seen(&mut fl, id)?;
    let s2 = match ids.iter().find(|x| **x != id) {
        Some(x) => Some(seen(&mut fl, *x)?),
        None => None,
    };
    let other: Vec<Vec<u8>> =
        fl.w.log()
            .iter()
            .map(|f| f.sent.clone())
            .filter(|f| matches!(wire::unframe(tr, f), Some((true, _))))
            .collect();
    let l = c.len_biased(100).max(1);
    let mut acts = vec![
        Act::Vendor(Some(pick), 3, vec![7], c.blob(l)),
        Act::End(pick),
    ];
    if fl.f.mctp {
        acts.push(Act::App(pick, c.blob(l)));
    }
    if fl.f.cert {
        acts.push(Act::Digest(Some(pick)));
        acts.push(Act::Cert(Some(pick), c.pick(&fl.f.slots)));
    }
    if fl.f.meas {
        acts.push(Act::Meas(Some(pick), 0, false, 0));
    }
    if fl.f.hb {
        acts.push(Act::Heartbeat(pick));
    }
    if fl.f.upd {
        acts.push(Act::Update(pick, c.range(1, 2) as u8));
    }
    let act = c.pick(&acts);
    let dir = c.usize(2);
    let seed = c.u64();
    let from = if dir == 0 { Party::Req } else { Party::Rsp };
    let next = s.app[dir].seq;
    let what: Rc<Cell<&'static str>> = Rc::new(Cell::new(""));
    let (w2, s1) = (what.clone(), s.clone());
    let msg = vendor_msg(fl.f.ver, 3, &[7], &[9, 9, 9]);
    let fresh = Rc::new(Cell::new(true));
    fl.w.set_mitm(Some(Box::new(move |p, _, b| {
        if p != from || !fresh.get() {
            return vec![b.to_vec()];
        }
        fresh.set(false);
        let mut r = Case::random(seed, false);
        let k = vec![b.to_vec()];
        let (f, t) = junk(
            &mut r,
            tr,
            &s1,
            dir,
            next,
            &k,
            &other,
            s2.as_ref(),
            &msg,
            false,
        );
        if same_as(tr, &f, &k).is_none() {
            w2.set(t);
        }
        vec![f]
    })));
    let (al, vl, ml) = toy::with(|t| (t.app_log.len(), t.vendor_log.len(), t.meas_calls.len()));
    let (rq, rs) = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
    let others = |v: &Snap| -> Snap { v.iter().filter(|x| x.0 != id).cloned().collect() };
    let r = fl.w.act(&act);
    fl.w.set_mitm(None);
    let what = what.get();
    if what.is_empty() {
        return Ok(());
    }
    c.nontrivial();
    c.label(what);
    let info = format!(
        "{} of the {} of {:?}",
        what,
        if dir == 0 { "request" } else { "response" },
        act
    );
    ensure!(
        !matches!(r, Some(Ok(_))),
        "an operation succeeds with a replaced record",
        "{} {}",
        info,
        fl.ctx()
    );
    let (rq2, rs2) = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
    ensure!(
        others(&rq) == others(&rq2),
        "a replaced record changes another session of the requester",
        "{} {}",
        info,
        fl.ctx()
    );
    if dir == 0 {
        let (al2, vl2, ml2) =
            toy::with(|t| (t.app_log.len(), t.vendor_log.len(), t.meas_calls.len()));
        ensure!(
            (al, vl, ml) == (al2, vl2, ml2),
            "a replaced request reaches a handler",
            "{} {}",
            info,
            fl.ctx()
        );
        // it may name another session, whose receive then failed
        let ok = rs.len() == rs2.len() && rs.iter().any(|x| moved(&rs, &rs2, Some(x.0), 0, 1));
        ensure!(
            ok,
            "a replaced request changes a session of the responder",
            "{}: {:x?} {:x?} {}",
            info,
            rs,
            rs2,
            fl.ctx()
        );
    } else {
        ensure!(
            others(&rs) == others(&rs2),
            "a replaced response changes another session of the responder",
            "{} {}",
            info,
            fl.ctx()
        );
        if !matches!(act, Act::End(_)) {
            let (a, b) = (
                rq.iter().find(|x| x.0 == id).cloned(),
                rq2.iter().find(|x| x.0 == id).cloned(),
            );
            let same = match (a, b) {
                (Some(a), Some(b)) => {
                    let (x, y) = (a.2.unwrap(), b.2.unwrap());
                    // a failed update keeps the keys it had (C17 looks closer)
                    a.1 == b.1
                        && x.0 .0 == y.0 .0
                        && x.1 .0 == y.1 .0
                        && y.0 .2 == x.0 .2 + 1
                        && y.1 .2 <= x.1 .2 + 1
                }
                _ => false,
            };
            ensure!(
                same,
                "a replaced response changes the requester's session",
                "{}: {:x?} {:x?} {}",
                info,
                rq,
                rq2,
                fl.ctx()
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

/// Every record encrypted so far.
fn nonces(ctx: &str, contiguous: bool) -> Result<usize, Failure> {
    let (enc, okm) = toy::with(|t| (t.enc.clone(), t.okm.clone()));
    let mut seen = HashSet::new();
    let mut per: HashMap<Vec<u8>, Vec<Vec<u8>>> = HashMap::new();
    for e in enc.iter().filter(|e| e.ok) {
        if !seen.insert((e.key.clone(), e.iv.clone())) {
            return fail(
                "a nonce is used twice under a key",
                format!("{:?} nonce {} {}", e.party, hex(&e.iv), ctx),
            );
        }
        per.entry(e.key.clone()).or_default().push(e.iv.clone());
    }
    let mut most = 0;
    for (_, v) in &per {
        most = most.max(v.len());
        let base = &v[0];
        let mut last: Option<u64> = None;
        // the IV the key schedule gave
        let known = okm.iter().any(|o| &o.2 == base);
        if contiguous && !known {
            return fail(
                "the first nonce of a key is not its IV",
                format!("{} {}", hex(base), ctx),
            );
        }
        for n in v {
            let mut x = [0u8; 8];
            for i in 0..8 {
                x[i] = n[i] ^ base[i];
            }
            let x = u64::from_le_bytes(x);
            let tail = n[8..] == base[8..];
            let ok = match last {
                None => x == 0,
                Some(l) => x == l + 1,
            };
            if contiguous && !(ok && tail) {
                return fail(
                    "sequence numbers do not count up by one",
                    format!("{:?} then {} {}", last, x, ctx),
                );
            }
            last = Some(x);
        }
    }
    Ok(most)
}

fn nonce_history(c: &mut Case) -> CaseResult {
    let mut g = sess_cfg(c);
    g.req.caps |= RQ_UPD;
    g.rsp.caps |= RS_UPD;
    let n = c.range(1, 3);
    let (mut fl, _) = opened_with(c, g, n)?;
    let faulty = c.chance(1, 3);
    let lossy = c.chance(1, 2);
    let mut eventful = n > 1;
    let mut jumped = false;
    // losses and changes on the wire
    let on = Rc::new(Cell::new(0u32));
    if lossy {
        let o = on.clone();
        let seed = c.u64();
        let k = Rc::new(Cell::new(0u64));
        fl.w.set_mitm(Some(Box::new(move |_, _, b| {
            k.set(k.get() + 1);
            let mut r = Case::random(mix(seed, k.get()), false);
            if o.get() == 0 || !r.chance(o.get() as u64, 100) {
                return vec![b.to_vec()];
            }
            match r.usize(4) {
                0 => vec![],
                1 => vec![b.to_vec(), b.to_vec()],
                2 => {
                    let mut v = b.to_vec();
                    let i = r.usize(v.len());
                    v[i] ^= 1 << r.below(8);
                    vec![v]
                }
                _ => {
                    let n = r.usize(40);
                    vec![r.blob(n)]
                }
            }
        })));
    }
    let steps = c.range(4, 24);
    let long = c.chance(1, 3);
    for _ in 0..steps {
        on.set(if lossy && c.bool() { 30 } else { 0 });
        if long && fl.open() > 0 && c.chance(1, 4) {
            // much later, where the lower bytes of the counter are what they were
            let ids = fl.w.open_sessions();
            let (id, dir) = (c.pick(&ids), c.usize(2));
            let k = 8 * c.range(1, 7);
            let off = c.below(3);
            let now = [Party::Req, Party::Rsp]
                .iter()
                .filter_map(|p| keys_of(&mut fl.w, *p, id))
                .map(|k| if dir == 0 { k.0 .2 } else { k.1 .2 })
                .max()
                .unwrap_or(0);
            let v = ((now >> k) + 1) << k;
            if now < 1 << 62 && v > now {
                jump(&mut fl, id, dir, v + off);
                jumped = true;
            }
        }
        if faulty && c.chance(1, 4) {
            let op = c.pick(&[
                Op::Encrypt,
                Op::Decrypt,
                Op::Expand,
                Op::Hmac,
                Op::Send,
                Op::Recv,
                Op::App,
                Op::Vendor,
                Op::Rand,
                Op::Hash,
            ]);
            let party = c.pick(&[Party::Req, Party::Rsp]);
            let ahead = c.below(6);
            toy::with(|t| {
                let n = t.counts[party as usize][op as usize] + ahead;
                t.faults = vec![Fault {
                    party,
                    op,
                    nth: n,
                    sticky: false,
                }];
                t.fault_armed = true;
            });
            eventful = true;
        }
        let open = fl.open();
        match c.weighted(&[8, 3, 1, 1, 2]) {
            1 if open > 0 && fl.f.upd => {
                let i = c.usize(open);
                let k = c.range(1, 2) as u8;
                if matches!(fl.w.act(&Act::Update(i, k)), Some(Ok(_))) {
                    eventful = true;
                }
            }
            2 => {
                // connect anew
                eventful = true;
                on.set(0);
                if fl.w.init().is_ok() && fl.f.cert {
                    let s = c.pick(&fl.f.slots);
                    let _ = fl.w.digest(None);
                    let _ = fl.w.cert(None, s);
                }
            }
            3 => {
                // garbage towards the responder
                let n = c.len_biased(60);
                let b = c.blob(n);
                let _ = fl.w.feed(&b);
            }
            4 if open > 0 => {
                // one-way records
                let id = fl.w.open_sessions()[c.usize(open)];
                let n = c.range(1, 3);
                for _ in 0..n {
                    let m = vendor_msg(fl.f.ver, 3, &[], &[1]);
                    if c.bool() {
                        let _ = fl.w.rq(|r| r.send_secured_message(id, &m, false));
                    } else {
                        let _ = fl.w.rs(|r| {
                            if r.common.get_session_via_id(id).is_some() {
                                let _ = r.send_secured_message(id, &m, true);
                            }
                        });
                    }
                }
            }
            _ => {
                let act = gen_op(c, &fl.f, open);
                let r = fl.w.act(&act);
                if !matches!(r, Some(Ok(_))) {
                    eventful = true;
                }
            }
        }
        fl.w.drain();
        toy::with(|t| t.fault_armed = false);
    }
    let ctx = fl.ctx();
    let most = nonces(&ctx, !faulty && !jumped)?;
    if most >= 2 && eventful {
        c.nontrivial();
    }
    if jumped {
        c.label("a long time");
    }
    c.label(match (faulty, lossy) {
        (false, false) => "clean",
        (true, false) => "internal faults",
        (false, true) => "lossy wire",
        _ => "faults and losses",
    });
    c.sample(|| {
        format!(
            "{} records, {} under one key",
            toy::with(|t| t.enc.len()),
            most
        )
    });
    Ok(())
}

/// Counters at the end of their range.
fn exhaust(c: &mut Case) -> CaseResult {
    let mut g = sess_cfg(c);
    g.req.caps |= RQ_UPD;
    g.rsp.caps |= RS_UPD;
    let (mut fl, ids) = opened_with(c, g, 1)?;
    let id = ids[0];
    let left = c.range(0, 5) as u64;
    let dir = c.usize(2);
    for p in [Party::Req, Party::Rsp] {
        set_seq(&mut fl.w, p, id, dir, u64::MAX - left);
    }
    let steps = c.range(3, 12);
    let mut stuck = false;
    let mut failed = 0;
    for _ in 0..steps {
        let l0 = fl.w.log_len();
        let e0 = toy::with(|t| t.enc.len());
        let at = keys_of(
            &mut fl.w,
            if dir == 0 { Party::Req } else { Party::Rsp },
            id,
        );
        match c.weighted(&[6, 1, 2]) {
            0 => {
                let m = vendor_msg(fl.f.ver, 3, &[], &[1]);
                let r = if dir == 0 {
                    fl.w.rq(|r| r.send_secured_message(id, &m, false))
                } else {
                    fl.w.rs(|r| r.send_secured_message(id, &m, true))
                };
                fl.w.drain();
                let sent = fl.w.log_len() - l0;
                ensure!(
                    sent == r.is_ok() as usize,
                    "a failed send puts a record on the wire",
                    "{:?} {} {}",
                    r,
                    sent,
                    fl.ctx()
                );
                if r.is_err() {
                    stuck = true;
                    failed += 1;
                } else if stuck {
                    let a = at.map(|k| if dir == 0 { k.0 .2 } else { k.1 .2 });
                    ensure!(
                        a.map(|x| x < 1000).unwrap_or(false),
                        "sends go on after the counter ended",
                        "{:?} {}",
                        a,
                        fl.ctx()
                    );
                }
            }
            1 if fl.f.upd && !stuck => {
                let k = if dir == 0 { c.range(1, 2) as u8 } else { 2 };
                let _ = fl.w.act(&Act::Update(0, k));
                fl.w.drain();
            }
            _ => {
                let _ = fl.w.act(&Act::Vendor(Some(0), 3, vec![], vec![5]));
                fl.w.drain();
            }
        }
        let _ = e0;
    }
    let ctx = format!("{} left, direction {} {}", left, dir, fl.ctx());
    nonces(&ctx, false)?;
    if failed > 0 {
        c.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub fn upd_cfg(c: &mut Case) -> Cfg {
    let mut g = sess_cfg(c);
    g.req.caps |= RQ_UPD;
    g.rsp.caps |= RS_UPD;
    g
}

fn agree(c: &mut Case) -> CaseResult {
    let g = upd_cfg(c);
    let n = c.range(1, 3);
    let (mut fl, ids) = opened_with(c, g, n)?;
    let steps = c.range(2, 14);
    let mut done = 0;
    for _ in 0..steps {
        let i = c.pick(&ids);
        let at = fl.w.open_sessions().iter().position(|x| *x == i).unwrap();
        match c.weighted(&[4, 3, 1]) {
            0 => {
                let k = c.range(1, 2) as u8;
                fl.must(Act::Update(at, k))?;
                done += 1;
                c.label(if k == 1 { "one key" } else { "all keys" });
            }
            1 => exchange_data(c, &mut fl, i)?,
            _ => {
                if fl.f.hb {
                    fl.must(Act::Heartbeat(at))?;
                }
            }
        }
        fl.clean(&[])?;
        for j in &ids {
            check_session(&mut fl, *j)?;
        }
    }
    for j in &ids {
        exchange_data(c, &mut fl, *j)?;
    }
    fl.clean(&[])?;
    if done > 0 {
        c.nontrivial();
    }
    c.sample(|| format!("{:?}", fl.hist));
    Ok(())
}

/// Does a party accept a record of the session under this key at the position
/// it expects? Leaves its counters as they were.
fn accepts(fl: &mut Flow, p: Party, id: u32, k: &Dir) -> bool {
    let tr = fl.g.tr;
    let aead = fl.a.neg.aead;
    let dir = if p == Party::Rsp { 0 } else { 1 };
    let (q0, q1) = (seq_at(&mut fl.w, p, id, 0), seq_at(&mut fl.w, p, id, 1));
    let pos = if dir == 0 { q0 } else { q1 };
    let f = sealed(
        tr,
        aead,
        k,
        id,
        pos,
        false,
        &vendor_msg(fl.f.ver, 3, &[7], b"probe"),
    );
    let r = match p {
        Party::Rsp => {
            let v = toy::with(|t| t.vendor_log.len());
            let r = fl.w.feed(&f);
            toy::with(|t| t.vendor_log.len()) > v
                || r.sent
                    .iter()
                    .any(|f| matches!(wire::unframe(tr, f), Some((true, _))))
        }
        Party::Req => {
            fl.w.drain();
            fl.w.sh.borrow_mut().to_req.push_back(f);
            let mut b = vec![0u8; MAX_FRAME];
            fl.w.rq(|r| r.receive_secured_message(id, &mut b, false))
                .is_ok()
        }
    };
    fl.w.drain();
    set_seq(&mut fl.w, p, id, 0, q0);
    set_seq(&mut fl.w, p, id, 1, q1);
    r
}

/// Records under keys that were replaced.
fn retired(c: &mut Case) -> CaseResult {
    let g = upd_cfg(c);
    let n = c.range(1, 2);
    let (mut fl, ids) = opened_with(c, g, n)?;
    let id = c.pick(&ids);
    let at = fl.w.open_sessions().iter().position(|x| *x == id).unwrap();
    let rounds = c.range(1, 4);
    let tr = fl.g.tr;
    let mut old: [Vec<Dir>; 2] = [vec![], vec![]];
    for d in 0..2 {
        let s = seen(&mut fl, id)?;
        if !s.hs[d].key.is_empty() {
            old[d].push(s.hs[d].clone());
        }
    }
    for _ in 0..rounds {
        let s = seen(&mut fl, id)?;
        let k = c.range(1, 2) as u8;
        if c.bool() {
            exchange_data(c, &mut fl, id)?;
        }
        fl.must(Act::Update(at, k))?;
        old[0].push(s.app[0].clone());
        if k == 2 {
            old[1].push(s.app[1].clone());
        }
        fl.clean(&[])?;
    }
    let s = seen(&mut fl, id)?;
    for (p, d) in [(Party::Rsp, 0), (Party::Req, 1)] {
        for o in &old[d] {
            if c.bool() {
                continue;
            }
            c.nontrivial();
            ensure!(
                !accepts(&mut fl, p, id, o),
                "a record under a retired key is accepted",
                "{:?} {}",
                p,
                fl.ctx()
            );
            // also at the place it would have had
            let tail = sealed(
                tr,
                s.neg.aead,
                o,
                id,
                o.seq + c.below(3),
                false,
                &vendor_msg(fl.f.ver, 3, &[7], b"late"),
            );
            let (q0, q1) = (seq_at(&mut fl.w, p, id, 0), seq_at(&mut fl.w, p, id, 1));
            let took = match p {
                Party::Rsp => {
                    let v = toy::with(|t| t.vendor_log.len());
                    fl.w.feed(&tail);
                    toy::with(|t| t.vendor_log.len()) > v
                }
                Party::Req => {
                    fl.w.drain();
                    fl.w.sh.borrow_mut().to_req.push_back(tail);
                    let mut b = vec![0u8; MAX_FRAME];
                    fl.w.rq(|r| r.receive_secured_message(id, &mut b, false))
                        .is_ok()
                }
            };
            set_seq(&mut fl.w, p, id, 0, q0);
            set_seq(&mut fl.w, p, id, 1, q1);
            ensure!(
                !took,
                "a record under a retired key is accepted at its old place",
                "{:?} {}",
                p,
                fl.ctx()
            );
        }
        ensure!(
            accepts(&mut fl, p, id, &s.app[d]),
            "a record under the current key is rejected",
            "{:?} {}",
            p,
            fl.ctx()
        );
    }
    Ok(())
}

/// A key update that the peer refuses or that is disturbed.
fn refused(c: &mut Case) -> CaseResult {
    let g = upd_cfg(c);
    let n = c.range(1, 2);
    let (mut fl, ids) = opened_with(c, g, n)?;
    let id = c.pick(&ids);
    let at = fl.w.open_sessions().iter().position(|x| *x == id).unwrap();
    if c.bool() {
        exchange_data(c, &mut fl, id)?;
    }
    if c.chance(1, 3) {
        let k = c.range(1, 2) as u8;
        fl.must(Act::Update(at, k))?;
    }
    fl.clean(&[])?;
    let s = seen(&mut fl, id)?;
    let kind = c.range(1, 2) as u8;
    let round = c.usize(2);
    let tr = fl.g.tr;
    let (h, ver, aead) = (s.neg.h(), s.neg.ver, s.neg.aead);
    // generations: what is in use, and what the update leads to
    let next = |d: &Dir| upd_dir(h, ver, aead, d);
    let gens: [[Dir; 3]; 2] = [
        [s.app[0].clone(), next(&s.app[0]), next(&next(&s.app[0]))],
        [s.app[1].clone(), next(&s.app[1]), next(&next(&s.app[1]))],
    ];
    let how = c.weighted(&[2, 2, 2, 2, 3, 3, 2]);
    let seed = c.u64();
    let count = Rc::new(Cell::new(0usize));
    let done = Rc::new(Cell::new(false));
    let label: Rc<Cell<&'static str>> = Rc::new(Cell::new(""));
    if how == 6 {
        // the derivation fails inside one of the parties
        let party = c.pick(&[Party::Req, Party::Rsp]);
        let ahead = c.below(8);
        toy::with(|t| {
            let op = c.pick(&[Op::Expand, Op::Encrypt, Op::Decrypt, Op::Send, Op::Recv]);
            let n = t.counts[party as usize][op as usize]
                + if op == Op::Expand { ahead } else { ahead / 4 };
            t.faults = vec![Fault {
                party,
                op,
                nth: n,
                sticky: false,
            }];
            t.fault_armed = true;
        });
        label.set("internal failure");
    } else {
        let (cn, dn, lb) = (count.clone(), done.clone(), label.clone());
        let gens = gens.clone();
        let wseq = [s.app[0].seq, s.app[1].seq];
        fl.w.set_mitm(Some(Box::new(move |p, _, b| {
            let mut r = Case::random(mix(seed, 7), false);
            let i = cn.get();
            if p == Party::Rsp {
                cn.set(i + 1);
            }
            if dn.get() || i != round {
                return vec![b.to_vec()];
            }
            // the key the answer to this request belongs under
            let k = &gens[1][if kind == 2 { 1 } else { 0 }];
            let sq = match (i, kind) {
                (0, 2) => 0,
                (0, _) => wseq[1],
                (_, 2) => 1,
                (_, _) => wseq[1] + 1,
            };
            match (how, p) {
                (0, Party::Req) => {
                    dn.set(true);
                    lb.set("request lost");
                    vec![]
                }
                (1, Party::Req) => {
                    dn.set(true);
                    lb.set("request altered");
                    let mut v = b.to_vec();
                    let j = v.len() - 1 - r.usize(v.len().min(16));
                    v[j] ^= 0x10;
                    vec![v]
                }
                (2, Party::Rsp) => {
                    dn.set(true);
                    lb.set("answer lost");
                    vec![]
                }
                (3, Party::Rsp) => {
                    dn.set(true);
                    lb.set("answer altered");
                    let mut v = b.to_vec();
                    let j = v.len() - 1 - r.usize(v.len().min(16));
                    v[j] ^= 0x10;
                    vec![v]
                }
                (4, Party::Req) => {
                    // refused: the responder keeps its keys
                    dn.set(true);
                    lb.set("refused");
                    let code = r.pick(&[1u8, 3, 4, 5, 7, 0x41]);
                    let kk = if r.bool() || i > 0 { k } else { &gens[1][0] };
                    let q = if kk.key == gens[1][0].key {
                        wseq[1]
                    } else {
                        sq
                    };
                    let m = vec![ver, ERROR, code, 0];
                    answer(sealed(tr, aead, kk, s.id, q, false, &m));
                    vec![]
                }
                (5, Party::Rsp) => {
                    // an acknowledgement of something else
                    dn.set(true);
                    lb.set("another acknowledgement");
                    let good = [kind, if i == 0 { 1 } else { 2 }];
                    let mut m = vec![
                        ver,
                        KEY_UPDATE_ACK,
                        if i == 0 { good[0] } else { 3 },
                        good[1],
                    ];
                    match r.usize(4) {
                        0 => {
                            m[2] = r.pick(
                                &[0u8, 1, 2, 3, 4, 0xff]
                                    .iter()
                                    .copied()
                                    .filter(|x| *x != m[2])
                                    .collect::<Vec<_>>(),
                            )
                        }
                        1 => m[3] ^= 1 << r.below(8),
                        2 => {
                            m[0] = r.pick(
                                &[0x10u8, 0x11, 0x12, 0x13]
                                    .iter()
                                    .copied()
                                    .filter(|x| *x != ver)
                                    .collect::<Vec<_>>(),
                            )
                        }
                        _ => m[1] = r.pick(&[HEARTBEAT_ACK, ERROR, KEY_UPDATE, 0x64]),
                    }
                    vec![sealed(tr, aead, k, s.id, sq, false, &m)]
                }
                _ => vec![b.to_vec()],
            }
        })));
    }
    let r = fl.w.act(&Act::Update(at, kind));
    fl.w.set_mitm(None);
    fl.w.drain();
    let hits = toy::with(|t| {
        t.fault_armed = false;
        t.fault_hits
    });
    let what = label.get();
    if what.is_empty() || (how == 6 && hits == 0) {
        return Ok(());
    }
    c.nontrivial();
    c.label(what);
    let info = format!("{} round {} kind {} -> {:?}", what, round, kind, r);
    ensure!(
        how == 6 || !matches!(r, Some(Ok(_))),
        "a disturbed key update succeeds",
        "{} {}",
        info,
        fl.ctx()
    );
    nonces(&fl.ctx(), false)?;
    // no side takes two generations
    let mut took: [Vec<usize>; 2] = [vec![], vec![]];
    for (p, d) in [(Party::Rsp, 0usize), (Party::Req, 1)] {
        for (i, k) in gens[d].iter().enumerate() {
            if accepts(&mut fl, p, id, k) {
                took[d].push(i);
            }
        }
        ensure!(
            took[d].len() <= 1,
            "two key generations are accepted",
            "{:?}: {:?} {} {}",
            p,
            took[d],
            info,
            fl.ctx()
        );
    }
    // what each side holds is a generation of the schedule
    for p in [Party::Req, Party::Rsp] {
        if let Some(k) = keys_of(&mut fl.w, p, id) {
            for (d, x) in [(0usize, &k.0), (1, &k.1)] {
                ensure!(
                    gens[d].iter().any(|g| g.key == x.0 && g.iv == x.1),
                    "a failed key update leaves keys that are not of the schedule",
                    "{:?} direction {} {} {}",
                    p,
                    d,
                    info,
                    fl.ctx()
                );
            }
        }
    }
    // either both go on or the session is unusable, but nothing in between
    let reply = vec![0x5a; 5];
    toy::with(|t| t.vendor_reply = vec![reply.clone()]);
    let open = fl.w.open_sessions().iter().position(|x| *x == id);
    let go = match open {
        Some(i) => match fl.w.act(&Act::Vendor(Some(i), 3, vec![1], vec![2, 3])) {
            Some(Ok(Out::Vendor(b))) => {
                ensure!(
                    b == reply,
                    "data altered after a failed key update",
                    "{} {}",
                    info,
                    fl.ctx()
                );
                true
            }
            _ => false,
        },
        None => false,
    };
    c.label(if go { "goes on" } else { "unusable" });
    if go {
        let (a, b) = (
            keys_of(&mut fl.w, Party::Req, id),
            keys_of(&mut fl.w, Party::Rsp, id),
        );
        ensure!(
            a == b,
            "a session goes on with keys that differ",
            "{} {}",
            info,
            fl.ctx()
        );
        // and can still update its keys
        let i = fl.w.open_sessions().iter().position(|x| *x == id).unwrap();
        let k = c.range(1, 2) as u8;
        let r = fl.w.act(&Act::Update(i, k));
        ensure!(
            matches!(r, Some(Ok(_))),
            "a later key update fails",
            "{:?} {} {}",
            r,
            info,
            fl.ctx()
        );
        let (a, b) = (
            keys_of(&mut fl.w, Party::Req, id),
            keys_of(&mut fl.w, Party::Rsp, id),
        );
        ensure!(
            a == b && a.is_some(),
            "keys differ after a later key update",
            "{} {}",
            info,
            fl.ctx()
        );
    }
    Ok(())
}

/// Key-update requests in any order, against a model of the responder's keys.
fn byhand(c: &mut Case) -> CaseResult {
    let g = upd_cfg(c);
    let (mut fl, ids) = opened_with(c, g, 1)?;
    let id = ids[0];
    fl.clean(&[])?;
    let s = seen(&mut fl, id)?;
    if !fl.f.upd {
        return Ok(());
    }
    let tr = fl.g.tr;
    let (h, ver, aead) = (s.neg.h(), s.neg.ver, s.neg.aead);
    let mut k = s.app.clone();
    let steps = c.range(2, 10);
    let mut n = 0;
    let mut hist = vec![];
    for _ in 0..steps {
        let (m, want) = match c.weighted(&[3, 3, 3, 2, 1, 1]) {
            x @ 0..=2 => {
                let tag = c.byte();
                let op = x as u8 + 1;
                n += 1;
                (
                    vec![ver, KEY_UPDATE, op, tag],
                    vec![ver, KEY_UPDATE_ACK, op, tag],
                )
            }
            3 => {
                let l = c.len_biased(40).max(1);
                let pl = c.blob(l);
                let q = vendor_msg(ver, 3, &[], &pl);
                let mut a = q.clone();
                a[1] = VENDOR_RSP;
                (q, a)
            }
            4 => {
                let op = c.pick(&[0u8, 4, 5, 0x80, 0xff]);
                (vec![ver, KEY_UPDATE, op, c.byte()], vec![ver, ERROR, 1])
            }
            _ => (vec![ver, KEY_UPDATE, 1], vec![ver, ERROR, 1]),
        };
        hist.push(m.clone());
        let f = sealed(tr, aead, &k[0], id, k[0].seq, false, &m);
        let r = fl.w.feed(&f);
        k[0].seq += 1;
        // what the request does to the keys
        if want[1] == KEY_UPDATE_ACK {
            match want[2] {
                1 => k[0] = upd_dir(h, ver, aead, &k[0]),
                2 => {
                    k[0] = upd_dir(h, ver, aead, &k[0]);
                    k[1] = upd_dir(h, ver, aead, &k[1]);
                }
                _ => {}
            }
        }
        ensure!(
            r.sent.len() == 1,
            "not exactly one answer",
            "{:x?} {} {}",
            hist,
            r.sent.len(),
            fl.ctx()
        );
        let (_, rec) = wire::unframe(tr, &r.sent[0]).unwrap();
        let o = wire::open_record(tr, aead, &k[1].key, &k[1].iv, id, k[1].seq, rec);
        k[1].seq += 1;
        let o = match o {
            Ok(x) => wire::app_unwrap(tr, &x).map(|x| x.1).unwrap_or_default(),
            Err(e) => {
                return fail(
                    "the answer is not under the key it belongs under",
                    format!("{} {:x?} {}", e, hist, fl.ctx()),
                )
            }
        };
        ensure!(
            o.len() >= want.len() && o[..want.len()] == want[..],
            "wrong answer to a key update",
            "{} for {} after {:x?} {}",
            hex(&o),
            hex(&want),
            hist,
            fl.ctx()
        );
        let got = keys_of(&mut fl.w, Party::Rsp, id);
        let want: Option<Keys> = Some((
            (k[0].key.clone(), k[0].iv.clone(), k[0].seq),
            (k[1].key.clone(), k[1].iv.clone(), k[1].seq),
        ));
        ensure!(
            got == want,
            "keys differ from the update derivation",
            "{:x?} {:x?} after {:x?} {}",
            got,
            want,
            hist,
            fl.ctx()
        );
    }
    if n >= 2 {
        c.nontrivial();
    }
    nonces(&fl.ctx(), false)?;
    Ok(())
}
