//! C09 challenge authentication, C10 measurements.

use crate::audit::{sign_data, Audit};
use crate::engine::*;
use crate::flow::*;
use crate::gen::block;
use crate::ops::*;
use crate::props::session::mutate;
use crate::tap::{self, Shared};
use crate::toy::{self, MeasBlock, Party};
use crate::wire::code::*;
use crate::world::*;
use spdmlib::common::SpdmMeasurementContentChanged;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "honest: a challenge was answered and its signature recomputed; tamper, forge: a message of the exchange was changed, exchanged or signed otherwise",
            level: "exploration",
            assumptions: &["toy signatures: unforgeable by construction, only the signer's key makes one that verifies"],
            subs: vec![
                Sub { name: "honest", f: chal_honest, quick: 15000, thorough: 120_000 },
                Sub { name: "tamper", f: chal_tamper, quick: 72000, thorough: 600_000 },
                Sub { name: "forge", f: chal_forge, quick: 30000, thorough: 250_000 },
                Sub { name: "foreign", f: chal_foreign, quick: 8000, thorough: 150_000 },
            ],
        },
        Prop {
            id: "C10",
            rule: "honest: at least one block was reported or a signature recomputed; tamper, forge: a contributing message was changed, exchanged or signed otherwise",
            level: "exploration",
            assumptions: &["toy signatures: unforgeable by construction, only the signer's key makes one that verifies"],
            subs: vec![
                Sub { name: "honest", f: meas_honest, quick: 9000, thorough: 150_000 },
                Sub { name: "tamper", f: meas_tamper, quick: 24000, thorough: 400_000 },
                Sub { name: "forge", f: meas_forge, quick: 15000, thorough: 250_000 },
                Sub { name: "foreign", f: meas_foreign, quick: 8000, thorough: 150_000 },
            ],
        },
    ]
}

/// Configurations where signatures are made: device certificates in several
/// slots, all with the device key.
fn signing(c: &mut Case) -> Cfg {
    let mut g = gen_wide(c);
    g.rsp.caps |= RS_CERT | RS_CHAL | RS_MEAS_SIG;
    g.rsp.caps &= !8;
    g
}
fn any_sum(c: &mut Case) -> u8 {
    c.pick(&[0u8, 1, 0xff])
}

fn chal_honest(c: &mut Case) -> CaseResult {
    let g = signing(c);
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let rounds = c.range(1, 4);
    for _ in 0..rounds {
        // what goes before: nothing, digests and certificates, or anything
        match c.below(4) {
            0 => {}
            1 => {
                let s = c.pick(&fl.f.slots);
                fl.must(Act::Digest(None))?;
                if cfg!(feature = "hashed") {
                    for _ in 0..c.range(0, 2) {
                        fl.must(Act::Cert(None, s))?;
                    }
                }
            }
            2 => {
                let s = c.pick(&fl.f.slots);
                fl.must(Act::Cert(None, s))?;
            }
            _ => {
                let n = c.range(1, 3);
                fl.history(c, n)?;
            }
        }
        let slot = c.pick(&fl.f.slots);
        let sum = any_sum(c);
        let before = fl.a.signed[0];
        let (s0, v0) = toy::with(|t| (t.signs.len(), t.verifies.len()));
        fl.must(Act::Challenge(slot, sum))?;
        fl.clean(&[])?;
        c.nontrivial();
        c.label(match slot {
            0 => "slot 0",
            _ => "other slot",
        });
        ensure!(
            fl.a.signed[0] == before + 1,
            "challenge without a signature",
            "{}",
            fl.ctx()
        );
        let (s, v) = toy::with(|t| (t.signs[s0..].to_vec(), t.verifies[v0..].to_vec()));
        ensure!(
            s.len() == 1 && s[0].party == Party::Rsp,
            "responder does not sign exactly once",
            "{} {}",
            s.len(),
            fl.ctx()
        );
        ensure!(
            v.len() == 1 && v[0].party == Party::Req && v[0].ok && v[0].sig == s[0].sig,
            "requester does not verify the signature exactly once",
            "{} {}",
            v.len(),
            fl.ctx()
        );
        ensure!(
            v[0].data == s[0].data,
            "signed and verified data differ",
            "{}",
            fl.ctx()
        );
    }
    c.sample(|| format!("{:?} {}", fl.hist, fl.a.dump()));
    Ok(())
}

/// Change the `skip`-th message that carries the transcript from now on.
/// `live` turns it on. Reports (code, sender, how).
type Hit = Rc<Cell<Option<(u8, Party, &'static str)>>>;
fn alter(w: &World, a: &Shared, skip: usize, seed: u64, live: Rc<Cell<bool>>) -> Hit {
    let hit: Hit = Rc::new(Cell::new(None));
    let h = hit.clone();
    let n = Cell::new(0usize);
    tap::tap(w, a, move |a, p, m, b| {
        if !live.get() || h.get().is_some() {
            return None;
        }
        let m = m?;
        let i = n.get();
        n.set(i + 1);
        if i != skip {
            return None;
        }
        let mut c = Case::random(seed, false);
        let (v, how) = mutate(&mut c, &m.bytes);
        let f = tap::reframe(a, m, &v);
        if f == b {
            return None;
        }
        h.set(Some((m.bytes.get(1).copied().unwrap_or(0), p, how)));
        Some(vec![f])
    });
    hit
}

fn chal_tamper(c: &mut Case) -> CaseResult {
    let mut g = signing(c);
    // short chains: every message is as likely
    let root = RSP_ROOT;
    g.rsp_chain[0] = Some(toy::make_chain(root, 0xA1, 2, c.range(104, 1100), 3));
    g.req_trust = None;
    let meas = gen_meas_for(c, g.rsp.meas_hash);
    toy::with(|t| t.meas = meas);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let live = Rc::new(Cell::new(false));
    let late = c.bool();
    let skip = c.range(0, if late { 5 } else { 14 });
    let seed = c.u64();
    let hit = alter(&w, &a, skip, seed, live.clone());
    live.set(!late);
    let digest = c.chance(2, 3);
    let sum = any_sum(c);
    let mut r = w.init();
    let late_at = c.below(3);
    if late_at == 0 {
        live.set(true);
    }
    if r.is_ok() && digest {
        r = w.digest(None);
    }
    if late_at == 1 {
        live.set(true);
    }
    if r.is_ok() {
        r = w.cert(None, 0);
    }
    live.set(true);
    let r = r.and_then(|_| w.challenge(0, sum));
    if let Some((code, p, how)) = hit.get() {
        c.nontrivial();
        c.label(match code {
            CHALLENGE | CHALLENGE_AUTH => "challenge message",
            GET_DIGESTS | DIGESTS | GET_CERTIFICATE | CERTIFICATE => "identity message",
            _ => "negotiation message",
        });
        ensure!(
            r.is_err(),
            "challenge succeeds over an altered exchange",
            "code {:02x} from {:?} {} {} {}",
            code,
            p,
            how,
            a.borrow().dump(),
            cfg_str(&g)
        );
    } else {
        ensure!(
            r.is_ok(),
            "honest challenge fails",
            "{:?} {} {}",
            r,
            a.borrow().dump(),
            cfg_str(&g)
        );
    }
    Ok(())
}

/// Answers that are well-formed but not the device's to this exchange.
fn chal_forge(c: &mut Case) -> CaseResult {
    let mut g = signing(c);
    g.req_trust = None;
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, c.range(104, 900), 3));
    g.rsp_chain[2] = Some(toy::make_chain(RSP_ROOT ^ 2, 0xA1, 2, c.range(104, 900), 4));
    let meas = gen_meas_for(c, g.rsp.meas_hash);
    toy::with(|t| t.meas = meas);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    tap::watch(&w, &a);
    let slot = c.pick(&[0u8, 2]);
    let sum = any_sum(c);
    let mut r = w.init();
    let first = c.bool();
    if first {
        r = r.and_then(|_| w.digest(None));
    }
    r = r.and_then(|_| w.cert(None, slot));
    let how = c.below(10);
    // an earlier exchange to take things from
    let old: Rc<RefCell<Option<Vec<u8>>>> = Rc::new(RefCell::new(None));
    let o2 = old.clone();
    if how == 0 || how == 1 {
        tap::tap(&w, &a, move |_, p, m, _| {
            let m = m?;
            if p == Party::Rsp && m.bytes[1] == CHALLENGE_AUTH {
                *o2.borrow_mut() = Some(m.bytes.clone());
            }
            None
        });
        r = r.and_then(|_| w.challenge(slot, sum));
        if how == 1 {
            r = r.and_then(|_| w.init()).and_then(|_| w.cert(None, slot));
        }
    }
    ensure!(
        r.is_ok(),
        "honest exchange fails",
        "{:?} {} {}",
        r,
        a.borrow().dump(),
        cfg_str(&g)
    );
    let b = c.below(256) as u8;
    let bad = c.u64() | 1;
    let done = Rc::new(Cell::new(false));
    let d2 = done.clone();
    let replay = old.borrow().clone();
    let q: RefCell<Vec<u8>> = RefCell::new(vec![]);
    tap::tap_pre(&w, &a, move |a, p, f| {
        let (_, m) = crate::wire::unframe(a.tr, f)?;
        if p == Party::Req {
            *q.borrow_mut() = m.to_vec();
            return None;
        }
        if m.get(1) != Some(&CHALLENGE_AUTH) {
            return None;
        }
        a.summary = sum;
        let px = a.px();
        let pr = crate::wire::parse(m, &px).ok()?;
        let mut v = m[..pr.used].to_vec();
        let off = pr.off("signature");
        let n = a.neg.clone();
        let qr = {
            let q = q.borrow();
            let k = crate::wire::parse(&q, &px)
                .map(|x| x.used)
                .unwrap_or(q.len());
            q[..k].to_vec()
        };
        let bb: Vec<u8> = a.b.iter().map(|x| x.1.clone()).collect::<Vec<_>>().concat();
        let sign = |key: u64, ctx: &str, parts: &[&[u8]]| {
            toy::sign_with(
                key,
                n.hash,
                n.asym,
                &sign_data(n.ver, n.h(), ctx, &parts.concat()),
            )
        };
        let good = "responder-challenge_auth signing";
        let body = v[..off].to_vec();
        let key = 0xA1;
        match how {
            0 | 1 => v = replay.clone()?,
            2 => {
                // another key
                let k = if bad == 0xA1 { 3 } else { bad };
                let s = sign(k, good, &[&a.a, &bb, &qr, &body])?;
                v[off..].copy_from_slice(&s);
            }
            3 => {
                // another signing context (1.2 has contexts)
                if n.ver < 0x12 {
                    return None;
                }
                let s = sign(
                    key,
                    "responder-measurements signing",
                    &[&a.a, &bb, &qr, &body],
                )?;
                v[off..].copy_from_slice(&s);
            }
            4 => {
                // a part of the transcript left out
                let parts: Vec<&[u8]> = match b % 4 {
                    0 => vec![&bb, &qr, &body],
                    1 => vec![&a.a, &qr, &body],
                    2 => vec![&a.a, &bb, &body],
                    _ => vec![&a.a, &bb, &qr],
                };
                let s = sign(key, good, &parts)?;
                v[off..].copy_from_slice(&s);
            }
            5 => {
                // the device's signature over the answer for another slot
                v[2] = v[2] & 0xf0 | (slot ^ 2);
                let body = v[..off].to_vec();
                let s = sign(key, good, &[&a.a, &bb, &qr, &body])?;
                v[off..].copy_from_slice(&s);
            }
            6 => {
                // ... or with another chain hash
                let o = pr.off("cert_hash");
                v[o] ^= 1;
                let body = v[..off].to_vec();
                let s = sign(key, good, &[&a.a, &bb, &qr, &body])?;
                v[off..].copy_from_slice(&s);
            }
            7 => {
                // a signature over the digest without the prefix
                let t = [&a.a[..], &bb, &qr, &body].concat();
                let d = if n.ver >= 0x12 {
                    t
                } else {
                    sign_data(0x12, n.h(), good, &t)
                };
                let s = toy::sign_with(key, n.hash, n.asym, &d)?;
                v[off..].copy_from_slice(&s);
            }
            8 => {
                // no signature, or half of one
                if b & 1 == 0 {
                    v.truncate(off);
                } else {
                    for x in &mut v[off + 8..] {
                        *x = 0;
                    }
                }
            }
            _ => {
                // the transcript in another order
                let s = sign(key, good, &[&bb, &a.a, &qr, &body])?;
                if bb.is_empty() {
                    return None;
                }
                v[off..].copy_from_slice(&s);
            }
        }
        if v[..] == m[..pr.used] {
            return None;
        }
        d2.set(true);
        Some(vec![crate::wire::frame(a.tr, false, &v)])
    });
    let r = w.challenge(slot, sum);
    if !done.get() {
        return Ok(());
    }
    c.nontrivial();
    c.label(match how {
        0 | 1 => "replayed answer",
        2 => "another key",
        3 => "another context",
        4 | 7 | 9 => "another transcript",
        5 => "another slot",
        6 => "another chain hash",
        _ => "no signature",
    });
    ensure!(
        r.is_err(),
        "challenge accepts a forged answer",
        "{} {} {} {}",
        how,
        b,
        a.borrow().dump(),
        cfg_str(&g)
    );
    // and the connection can still be used
    tap::watch(&w, &a);
    if cfg!(feature = "hashed") || c.bool() {
        let r = w
            .init()
            .and_then(|_| w.cert(None, slot))
            .and_then(|_| w.challenge(slot, sum));
        ensure!(
            r.is_ok(),
            "no challenge after a forged answer",
            "{:?} {}",
            r,
            cfg_str(&g)
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn want(meas: &[MeasBlock], op: u8) -> (Vec<u8>, u8) {
    let v: Vec<&MeasBlock> = match op {
        0 => vec![],
        0xff => meas.iter().collect(),
        i => meas.iter().filter(|b| b.index == i).collect(),
    };
    (
        v.iter()
            .map(|b| block(b.index, b.typ, &b.value))
            .collect::<Vec<_>>()
            .concat(),
        v.len() as u8,
    )
}

fn meas_honest(c: &mut Case) -> CaseResult {
    let mut g = signing(c);
    if c.chance(1, 4) {
        g.rsp.caps &= !RS_MEAS_SIG;
        g.rsp.caps |= 8;
    }
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let n = c.range(2, 8);
    for _ in 0..n {
        if c.chance(1, 3) {
            let k = c.range(1, 2);
            fl.history(c, k)?;
            continue;
        }
        if c.chance(1, 6) {
            // the device's measurements change
            let m = gen_meas_for(c, fl.g.rsp.meas_hash);
            fl.f.idx = m.iter().map(|b| b.index).collect();
            toy::with(|t| t.meas = m);
        }
        let open = fl.open();
        let sess = if open > 0 && c.bool() {
            Some(c.usize(open))
        } else {
            None
        };
        let sig = fl.f.meas_sig && c.bool();
        let slot = if sig { c.pick(&fl.f.slots) } else { 0 };
        let meas = toy::with(|t| t.meas.clone());
        let op = if c.chance(1, 8) {
            c.byte()
        } else {
            gen_meas_op(c, &fl.f.idx)
        };
        let (rec, k) = want(&meas, op);
        let before = fl.a.signed[1];
        // what the device says about changes since they were last asked for
        let news = c.pick(&[0u8, 0x10, 0x20]);
        fl.w.rsp.common.runtime_info.content_changed =
            SpdmMeasurementContentChanged::from_bits(news).unwrap();
        let act = Act::Meas(sess, slot, sig, op);
        if op != 0 && op != 0xff && k == 0 {
            // no such measurement
            c.label("no such index");
            fl.hist.push(act.clone());
            let r = fl.w.act(&act);
            fl.a.catch_up(&fl.w);
            ensure!(
                matches!(r, Some(Err(_))),
                "a measurement that does not exist",
                "{:?} {}",
                r,
                fl.ctx()
            );
            fl.clean(&[])?;
            continue;
        }
        let (total, count, got) = match fl.must(act)? {
            Out::Meas(t, n, r) => (t, n, r),
            _ => continue,
        };
        if sig || k > 0 {
            c.nontrivial();
        }
        c.label(match (sess, sig) {
            (None, false) => "plain",
            (None, true) => "signed",
            (_, false) => "plain in a session",
            _ => "signed in a session",
        });
        fl.clean(&[])?;
        ensure!(
            got == rec && count == k,
            "delivered measurements are not the device's",
            "index {:02x} got {} blocks {} wanted {} blocks {} {}",
            op,
            count,
            hex(&got),
            k,
            hex(&rec),
            fl.ctx()
        );
        let t = if op == 0 { meas.len() as u8 } else { k };
        ensure!(
            total == t,
            "wrong number of measurements",
            "index {:02x}: {} wanted {} {}",
            op,
            total,
            t,
            fl.ctx()
        );
        ensure!(
            fl.a.signed[1] - before == sig as u32,
            "signature present or absent against the request",
            "{}",
            fl.ctx()
        );
        let said =
            fl.a.msgs
                .iter()
                .rev()
                .find(|m| m.from == Party::Rsp && m.bytes.get(1) == Some(&0x60))
                .map(|m| m.bytes[3] & 0x30)
                .unwrap_or(0xff);
        let due = if fl.g.rsp.change && fl.a.neg.ver >= 0x12 {
            news
        } else {
            0
        };
        ensure!(
            said == due || !sig && said == 0,
            "the content-changed field is not the device's",
            "{:02x} wanted {:02x} {}",
            said,
            due,
            fl.ctx()
        );
        ensure!(
            fl.a.neg.ver < 0x12 || fl.w.req.common.runtime_info.content_changed.bits() == said,
            "the content-changed field is not passed on",
            "{:02x} {}",
            said,
            fl.ctx()
        );
    }
    c.sample(|| format!("{:?} {}", fl.hist, fl.a.dump()));
    Ok(())
}

/// A signed measurement at the end of a chain of measurements, one message of
/// which was altered.
fn meas_tamper(c: &mut Case) -> CaseResult {
    let mut g = signing(c);
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, c.range(104, 900), 3));
    g.req_trust = None;
    let mut meas = gen_meas_for(c, g.rsp.meas_hash);
    if !cfg!(feature = "hashed") {
        meas.truncate(3);
        meas.retain(|m| m.value.len() < 300);
    }
    let idx: Vec<u8> = meas.iter().map(|m| m.index).collect();
    toy::with(|t| t.meas = meas);
    let mut w = World::new(&g);
    let f = feat(&g, &[]);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let live = Rc::new(Cell::new(false));
    let nego = f.ver >= 0x12 && c.chance(1, 3);
    let plain = c.range(0, 3);
    let session = f.psk && c.chance(1, 3);
    let skip = if nego {
        c.range(0, 5)
    } else {
        c.range(0, 2 * plain + 1)
    };
    let seed = c.u64();
    let hit = alter(&w, &a, skip, seed, live.clone());
    live.set(nego);
    let mut r = w.init();
    live.set(false);
    let mut sid = None;
    r = r.and_then(|_| w.cert(None, 0));
    if session && !nego {
        let x = w.psk(0, &[9]);
        r = r.and_then(|_| x.map(|_| ()));
        sid = x.ok();
    }
    if r.is_err() {
        ensure!(
            hit.get().is_some(),
            "honest connection fails",
            "{:?} {}",
            r,
            cfg_str(&g)
        );
        c.nontrivial();
        c.label("negotiation fails");
        return Ok(());
    }
    live.set(!nego);
    let mut hist = vec![];
    let mut plain_ok = true;
    for _ in 0..plain {
        let op = gen_meas_op(c, &idx);
        let r = w.meas(sid, 0, false, op);
        plain_ok &= r.is_ok();
        hist.push((op, r.is_ok()));
        if r.is_err() {
            break;
        }
    }
    if !plain_ok {
        // the requester saw the failure itself
        c.label("plain measurement fails");
        ensure!(
            hit.get().is_some(),
            "honest measurement fails",
            "{:?} {}",
            hist,
            cfg_str(&g)
        );
        return Ok(());
    }
    let op = gen_meas_op(c, &idx);
    let r = w.meas(sid, 0, true, op);
    let ctx = || {
        format!(
            "{:?} {:?} {:02x} -> {:?} session {:?} {} {}",
            hit.get(),
            hist,
            op,
            r.as_ref().map(|x| x.0),
            sid,
            a.borrow().dump(),
            cfg_str(&g)
        )
    };
    match hit.get() {
        None => ensure!(r.is_ok(), "honest signed measurement fails", "{}", ctx()),
        Some((code, _, _)) => {
            c.nontrivial();
            c.label(match code {
                GET_MEASUREMENTS => "altered request",
                MEASUREMENTS => "altered response",
                _ => "altered negotiation",
            });
            ensure!(
                r.is_err(),
                "signed measurement succeeds over altered messages",
                "{}",
                ctx()
            );
        }
    }
    Ok(())
}

fn meas_forge(c: &mut Case) -> CaseResult {
    let mut g = signing(c);
    g.req_trust = None;
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, c.range(104, 900), 3));
    g.rsp_chain[2] = Some(toy::make_chain(RSP_ROOT ^ 2, 0xA1, 2, c.range(104, 900), 4));
    let mut meas = gen_meas_for(c, g.rsp.meas_hash);
    if !cfg!(feature = "hashed") {
        meas.truncate(3);
        meas.retain(|m| m.value.len() < 300);
    }
    let idx: Vec<u8> = meas.iter().map(|m| m.index).collect();
    toy::with(|t| t.meas = meas);
    let mut w = World::new(&g);
    let f = feat(&g, &[]);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    tap::watch(&w, &a);
    let slot = c.pick(&[0u8, 2]);
    let mut r = w.init().and_then(|_| w.cert(None, slot));
    let mut sid = None;
    if f.psk && c.chance(1, 3) {
        let x = w.psk(0, &[9]);
        r = r.and_then(|_| x.map(|_| ()));
        sid = x.ok();
    }
    let op = gen_meas_op(c, &idx);
    let how = c.below(9);
    let old: Rc<RefCell<Option<Vec<u8>>>> = Rc::new(RefCell::new(None));
    if how == 0 {
        // an earlier signed answer
        let o2 = old.clone();
        tap::tap(&w, &a, move |_, p, m, _| {
            let m = m?;
            if p == Party::Rsp && m.bytes[1] == MEASUREMENTS {
                *o2.borrow_mut() = Some(m.bytes.clone());
            }
            None
        });
        r = r.and_then(|_| w.meas(sid, slot, true, op).map(|_| ()));
    }
    let pre = c.range(0, 2);
    for _ in 0..pre {
        let op = gen_meas_op(c, &idx);
        r = r.and_then(|_| w.meas(sid, 0, false, op).map(|_| ()));
    }
    ensure!(
        r.is_ok(),
        "honest exchange fails",
        "{:?} {} {}",
        r,
        a.borrow().dump(),
        cfg_str(&g)
    );
    let b = c.byte();
    let bad = c.u64() | 1;
    let x = c.range(1, 255) as u8;
    let done = Rc::new(Cell::new(false));
    let d2 = done.clone();
    let replay = old.borrow().clone();
    let req: RefCell<Vec<u8>> = RefCell::new(vec![]);
    // the transcript before this exchange, as the audit has it
    let before: RefCell<Vec<u8>> = RefCell::new(vec![]);
    tap::tap(&w, &a, move |a, p, m, _| {
        let m = m?;
        if p == Party::Req {
            *req.borrow_mut() = m.bytes.clone();
            *before.borrow_mut() = match m.session {
                None => a.m.concat(),
                Some(i) => a.session(i).map(|s| s.m.concat()).unwrap_or_default(),
            };
            return None;
        }
        if m.bytes[1] != MEASUREMENTS {
            return None;
        }
        let pr = m.p.clone()?;
        let mut v = m.bytes.clone();
        let off = pr.off("signature");
        let n = a.neg.clone();
        let head: Vec<u8> = if n.ver >= 0x12 { a.a.clone() } else { vec![] };
        let mm = before.borrow().clone();
        let q = req.borrow().clone();
        let ctx = "responder-measurements signing";
        let sign = |key: u64, ctx: &str, parts: &[&[u8]]| {
            toy::sign_with(
                key,
                n.hash,
                n.asym,
                &sign_data(n.ver, n.h(), ctx, &parts.concat()),
            )
        };
        let body = v[..off].to_vec();
        let s = match how {
            0 => {
                let r = replay.clone()?;
                if r == v {
                    return None;
                }
                d2.set(true);
                return Some(vec![tap::reframe(a, m, &r)]);
            }
            1 => sign(
                if bad == 0xA1 { 5 } else { bad },
                ctx,
                &[&head, &mm, &q, &body],
            )?,
            2 => {
                if n.ver < 0x12 {
                    return None;
                }
                sign(
                    0xA1,
                    "responder-challenge_auth signing",
                    &[&head, &mm, &q, &body],
                )?
            }
            3 => {
                // earlier measurements or the negotiation left out
                if mm.is_empty() || b & 1 == 0 && !head.is_empty() {
                    if head.is_empty() {
                        return None;
                    }
                    sign(0xA1, ctx, &[&mm, &q, &body])?
                } else {
                    sign(0xA1, ctx, &[&head, &q, &body])?
                }
            }
            4 => sign(0xA1, ctx, &[&head, &mm, &body])?,
            5 => {
                // the record changed under the old signature
                let o = 8;
                if v.len() <= o || off <= o {
                    return None;
                }
                let i = o + b as usize % (off - o);
                v[i] ^= x;
                v[off..].to_vec()
            }
            6 => vec![0; v.len() - off],
            7 => {
                // version 1.0 does not carry a slot
                if n.ver < 0x11 {
                    return None;
                }
                v[3] = v[3] & 0xf0 | (slot ^ 2);
                let body = v[..off].to_vec();
                sign(0xA1, ctx, &[&head, &mm, &q, &body])?
            }
            _ => {
                v.truncate(off);
                vec![]
            }
        };
        if v.len() > off {
            v[off..].copy_from_slice(&s);
        }
        if v == m.bytes {
            return None;
        }
        d2.set(true);
        Some(vec![tap::reframe(a, m, &v)])
    });
    let r = w.meas(sid, slot, true, op);
    if !done.get() {
        return Ok(());
    }
    c.nontrivial();
    c.label(match how {
        0 => "replayed answer",
        1 => "another key",
        2 => "another context",
        3 | 4 => "another transcript",
        5 => "changed record",
        7 => "another slot",
        _ => "no signature",
    });
    ensure!(
        r.is_err(),
        "signed measurement accepts a forged answer",
        "{} {} slot {} session {:?} {} {}",
        how,
        b,
        slot,
        sid,
        a.borrow().dump(),
        cfg_str(&g)
    );
    Ok(())
}

/// An answer as another implementation may give it: opaque data, another
/// nonce, other free fields.
fn dress(c_seed: u64, v: &[u8], pr: &crate::wire::Parsed, room: usize) -> (Vec<u8>, usize) {
    let lens = [0usize, 1, 2, 3, 16, 255, 256, 257, 700, 1023, 1024];
    let l = lens[(mix(c_seed, 1) % lens.len() as u64) as usize].min(room);
    let at = pr.off("opaque_len");
    let old = u16::from_le_bytes([v[at], v[at + 1]]) as usize;
    let mut o = v[..at].to_vec();
    let n = pr.off("nonce");
    for (i, x) in o[n..n + 32].iter_mut().enumerate() {
        *x = mix(c_seed, 10 + i as u64) as u8;
    }
    o.extend_from_slice(&(l as u16).to_le_bytes());
    o.extend_from_slice(&expand(c_seed, l));
    let tail = &v[at + 2 + old..];
    let sig = o.len();
    o.extend_from_slice(tail);
    (o, sig)
}

/// An honest responder that is another implementation: challenges succeed.
fn chal_foreign(c: &mut Case) -> CaseResult {
    let mut g = signing(c);
    g.req_trust = None;
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, c.range(104, 900), 3));
    g.rsp_chain[2] = Some(toy::make_chain(RSP_ROOT ^ 2, 0xA1, 2, c.range(104, 900), 4));
    let meas = gen_meas_for(c, g.rsp.meas_hash);
    toy::with(|t| t.meas = meas);
    let mut w = World::new(&g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    let seed = c.u64();
    let on: Rc<Cell<Option<u8>>> = Rc::new(Cell::new(None));
    let on2 = on.clone();
    let done = Rc::new(Cell::new(0u64));
    let d2 = done.clone();
    let q: RefCell<Vec<u8>> = RefCell::new(vec![]);
    tap::tap_pre(&w, &a, move |a, p, f| {
        let sum = on2.get()?;
        let (_, m) = crate::wire::unframe(a.tr, f)?;
        a.summary = sum;
        let px = a.px();
        let pr = crate::wire::parse(m, &px).ok()?;
        if p == Party::Req {
            *q.borrow_mut() = m[..pr.used].to_vec();
            return None;
        }
        if m.get(1) != Some(&CHALLENGE_AUTH) {
            return None;
        }
        let s = mix(seed, d2.get());
        let (mut v, off) = dress(s, &m[..pr.used], &pr, 1024);
        if s & 2 != 0 {
            v[3] = s.to_le_bytes()[3];
        }
        if sum != 0 && s & 1 != 0 {
            let o = pr.off("summary");
            v[o] ^= 0x55;
        }
        let bb: Vec<u8> = a.b.iter().map(|x| x.1.clone()).collect::<Vec<_>>().concat();
        let n = a.neg.clone();
        let t = [&a.a[..], &bb, &q.borrow(), &v[..off]].concat();
        let sig = toy::sign_with(
            0xA1,
            n.hash,
            n.asym,
            &sign_data(n.ver, n.h(), "responder-challenge_auth signing", &t),
        )?;
        v[off..].copy_from_slice(&sig);
        d2.set(d2.get() + 1);
        Some(vec![crate::wire::frame(a.tr, false, &v)])
    });
    let mut r = w.init();
    for i in 0..c.range(1, 3) {
        let slot = c.pick(&[0u8, 2]);
        if i == 0 || c.bool() {
            if c.bool() {
                r = r.and_then(|_| w.digest(None));
            }
            r = r.and_then(|_| w.cert(None, slot));
        }
        let have = w.req.common.peer_info.peer_cert_chain[slot as usize].is_some();
        if r.is_err() || !have {
            break;
        }
        let sum = any_sum(c);
        let k = done.get();
        on.set(Some(sum));
        let x = w.challenge(slot, sum);
        on.set(None);
        if done.get() == k {
            break;
        }
        c.nontrivial();
        ensure!(
            x.is_ok(),
            "an honest answer with opaque data is refused",
            "{:?} slot {} summary {} {} {}",
            x,
            slot,
            sum,
            a.borrow().dump(),
            cfg_str(&g)
        );
    }
    ensure!(
        r.is_ok(),
        "honest exchange fails",
        "{:?} {} {}",
        r,
        a.borrow().dump(),
        cfg_str(&g)
    );
    Ok(())
}

/// The same for measurements, in and out of sessions.
fn meas_foreign(c: &mut Case) -> CaseResult {
    let mut g = signing(c);
    g.req_trust = None;
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, c.range(104, 900), 3));
    g.rsp_chain[2] = Some(toy::make_chain(RSP_ROOT ^ 2, 0xA1, 2, c.range(104, 900), 4));
    let mut meas = gen_meas_for(c, g.rsp.meas_hash);
    let plain = !cfg!(feature = "hashed");
    if plain {
        meas.truncate(3);
        meas.retain(|m| m.value.len() < 200);
    }
    let idx: Vec<u8> = meas.iter().map(|m| m.index).collect();
    let size: usize = meas.iter().map(|m| m.value.len() + 7).sum();
    toy::with(|t| t.meas = meas.clone());
    let mut w = World::new(&g);
    let f = feat(&g, &[]);
    let a: Shared = Rc::new(RefCell::new(Audit::new(&g)));
    tap::watch(&w, &a);
    let slot = c.pick(&[0u8, 2]);
    let mut r = w.init().and_then(|_| w.cert(None, slot));
    let mut sids = vec![None];
    for _ in 0..c.range(0, 2) {
        if f.psk {
            let x = w.psk(0, &[9]);
            r = r.and_then(|_| x.map(|_| ()));
            sids.push(x.ok());
        }
    }
    ensure!(
        r.is_ok(),
        "honest exchange fails",
        "{:?} {} {}",
        r,
        a.borrow().dump(),
        cfg_str(&g)
    );
    let seed = c.u64();
    let room = if plain {
        60
    } else {
        3450usize.saturating_sub(size)
    };
    let logs: Rc<RefCell<Vec<(Option<u32>, Vec<u8>)>>> =
        Rc::new(RefCell::new(sids.iter().map(|s| (*s, vec![])).collect()));
    let l2 = logs.clone();
    let done = Rc::new(Cell::new(0u64));
    let d2 = done.clone();
    let sig_on = Rc::new(Cell::new(false));
    let s2 = sig_on.clone();
    tap::tap(&w, &a, move |a, p, m, _| {
        let m = m?;
        let mut logs = l2.borrow_mut();
        let log = &mut logs.iter_mut().find(|x| x.0 == m.session)?.1;
        let pr = m.p.clone()?;
        let body = &m.bytes[..pr.used.min(m.bytes.len())];
        if p == Party::Req {
            log.extend_from_slice(body);
            return None;
        }
        if m.bytes[1] != MEASUREMENTS {
            return None;
        }
        let (mut v, off) = dress(mix(seed, d2.get()), body, &pr, room.min(1024));
        d2.set(d2.get() + 1);
        log.extend_from_slice(&v[..off]);
        if s2.get() {
            let n = a.neg.clone();
            let head: Vec<u8> = if n.ver >= 0x12 { a.a.clone() } else { vec![] };
            let t = [&head[..], &log[..]].concat();
            let s = toy::sign_with(
                0xA1,
                n.hash,
                n.asym,
                &sign_data(n.ver, n.h(), "responder-measurements signing", &t),
            )?;
            v[off..].copy_from_slice(&s);
            log.clear();
        }
        Some(vec![tap::reframe(a, m, &v)])
    });
    for _ in 0..c.range(1, 6) {
        let sid = c.pick(&sids);
        let sig = c.bool();
        let op = gen_meas_op(c, &idx);
        let k = done.get();
        sig_on.set(sig);
        let long: usize = logs.borrow().iter().map(|x| x.1.len()).max().unwrap_or(0);
        if plain && long + size + 900 > 5615 {
            break;
        }
        let x = w.meas(sid, if sig { slot } else { 0 }, sig, op);
        if done.get() == k {
            break;
        }
        c.nontrivial();
        c.label(match (sid, sig) {
            (None, false) => "plain",
            (None, true) => "signed",
            (_, false) => "plain in a session",
            _ => "signed in a session",
        });
        let (rec, n) = want(&meas, op);
        ensure!(
            matches!(x, Ok((_, b, ref d)) if *d == rec && b == n),
            "an honest answer with opaque data is refused or misread",
            "{:?} session {:?} sig {} op {:x} {} {}",
            x,
            sid,
            sig,
            op,
            a.borrow().dump(),
            cfg_str(&g)
        );
    }
    Ok(())
}
