//! C18 independence and slots, C19 ended sessions, C23 vendor-defined
//! messages, C24 application data.

use super::rec::*;
use super::session::{check_session, exchange_data, keys_of, mutate, shared_sessions};
use crate::alloc::Track;
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::tap;
use crate::toy::{self, Fault, Op, Party};
use crate::wire::{self, code::*, Tr};
use crate::world::*;
use spdmlib::common::session::SpdmSession;
use spdmlib::error::SpdmResult;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "bounded: four sessions were open at once and a fifth was refused; apart: an operation ran in one session while another was open; leak: at least three handshakes failed, each seen failing; interleave: two handshakes overlapped",
            level: "exploration",
            assumptions: &["a malformed FINISH (InvalidRequest, VersionMismatch) is a refused request and not a failed handshake"],
            subs: vec![
                Sub { name: "bounded", f: bounded, quick: 3000, thorough: 150_000 },
                Sub { name: "apart", f: apart, quick: 8000, thorough: 400_000 },
                Sub { name: "leak", f: leak, quick: 4000, thorough: 200_000 },
                Sub { name: "interleave", f: interleave, quick: 4000, thorough: 200_000 },
            ],
        },
        Prop {
            id: "C19",
            rule: "erase: a session ended and its table entries were compared with unused ones and searched for its secrets; dead: a record or an operation for an ended session was tried; reuse: a later session got the id of an ended one; moment: END_SESSION or its answer was lost, altered or refused",
            level: "exploration",
            assumptions: &["what the session table refers to is found through the global allocator of the harness"],
            subs: vec![
                Sub { name: "erase", f: erase, quick: 4000, thorough: 200_000 },
                Sub { name: "dead", f: dead, quick: 4000, thorough: 200_000 },
                Sub { name: "reuse", f: reuse, quick: 3000, thorough: 150_000 },
                Sub { name: "moment", f: moment, quick: 6000, thorough: 300_000 },
            ],
        },
        Prop {
            id: "C23",
            rule: "through: a vendor-defined request reached the handler; handler: the handler failed; requests: a request with freely chosen lengths was judged; responses: the answer was replaced",
            level: "exploration",
            assumptions: &["the handler keeps its contract: its declared reply length is within its buffer"],
            subs: vec![
                Sub { name: "through", f: vendor_through, quick: 30000, thorough: 300_000 },
                Sub { name: "handler", f: vendor_handler, quick: 15000, thorough: 150_000 },
                Sub { name: "requests", f: vendor_requests, quick: 30000, thorough: 300_000 },
                Sub { name: "responses", f: vendor_responses, quick: 30000, thorough: 300_000 },
            ],
        },
        Prop {
            id: "C24",
            rule: "through: an application message reached the handler; states: an application record was sent to a session in its handshake; contained: the handler failed or a message did not fit",
            level: "exploration",
            assumptions: &["application messages exist on MCTP only: the DOE transport has no application message type"],
            subs: vec![
                Sub { name: "through", f: app_through, quick: 30000, thorough: 300_000 },
                Sub { name: "states", f: app_states, quick: 20000, thorough: 200_000 },
                Sub { name: "contained", f: app_contained, quick: 25000, thorough: 250_000 },
            ],
        },
    ]
}

// ---------------------------------------------------------------- helpers

/// What differs between this entry of a session table and an unused one.
fn used(s: &SpdmSession) -> Option<String> {
    let n = SpdmSession::new();
    let mut s2 = s.clone();
    let (a, b) = s2.export_keys();
    let mut d = vec![];
    if s.get_session_id() != n.get_session_id() {
        d.push(format!("id {:x}", s.get_session_id()));
    }
    if s.get_session_state() != n.get_session_state() {
        d.push(format!("state {:?}", s.get_session_state()));
    }
    if s.get_use_psk() {
        d.push("use_psk".into());
    }
    if s.get_slot_id() != 0 {
        d.push(format!("slot {}", s.get_slot_id()));
    }
    if !s.get_mut_auth_requested().is_empty() {
        d.push("mutual authentication".into());
    }
    let p = s.get_crypto_param();
    if p.base_hash_algo.bits() != 0
        || p.dhe_algo.bits() != 0
        || p.aead_algo.bits() != 0
        || p.key_schedule_algo.bits() != 0
    {
        d.push(format!("{:?}", p));
    }
    for (k, w) in [(&a, "request"), (&b, "response")] {
        if !k.encryption_key.as_ref().is_empty()
            || !k.salt.as_ref().is_empty()
            || k.sequence_number != 0
            || k.encryption_key.data.iter().any(|x| *x != 0)
            || k.salt.data.iter().any(|x| *x != 0)
        {
            d.push(format!("{} key or counter", w));
        }
    }
    if s.heartbeat_period != n.heartbeat_period {
        d.push("heartbeat period".into());
    }
    if s.secure_spdm_version_sel != n.secure_spdm_version_sel {
        d.push("secured message version".into());
    }
    let r = &s.runtime_info;
    if r.psk_hint.is_some() {
        d.push("PSK hint".into());
    }
    if r.rsp_cert_hash.is_some() || r.req_cert_hash.is_some() {
        d.push("certificate hash".into());
    }
    if !r.message_a.as_ref().is_empty() {
        d.push("transcript A".into());
    }
    #[cfg(feature = "hashed")]
    if r.message_f_initialized || r.digest_context_th.is_some() || r.digest_context_l1l2.is_some() {
        d.push("transcript hash".into());
    }
    #[cfg(not(feature = "hashed"))]
    if !r.message_k.as_ref().is_empty()
        || !r.message_f.as_ref().is_empty()
        || !r.message_m.as_ref().is_empty()
    {
        d.push("transcript".into());
    }
    if d.is_empty() {
        None
    } else {
        Some(d.join(", "))
    }
}
fn table(w: &World, p: Party) -> &[SpdmSession; 4] {
    match p {
        Party::Req => &w.req.common.session,
        Party::Rsp => &w.rsp.common.session,
    }
}
/// Every unused entry of a table equals a new one.
pub fn tidy(fl: &Flow, p: Party) -> CaseResult {
    for (i, s) in table(&fl.w, p).iter().enumerate() {
        if s.get_session_id() == 0 {
            if let Some(d) = used(s) {
                return fail(
                    "a free session entry is not in its initial state",
                    format!("{:?} entry {}: {} {}", p, i, d, fl.ctx()),
                );
            }
        }
    }
    Ok(())
}
fn ids_at(w: &World, p: Party) -> Vec<u32> {
    let mut v: Vec<u32> = match p {
        Party::Req => w.req_sessions(),
        Party::Rsp => w.rsp_sessions(),
    }
    .into_iter()
    .map(|x| x.0)
    .collect();
    v.sort();
    v
}
/// The snapshot without one session.
fn but(s: &Snap, id: Option<u32>) -> Snap {
    s.iter().filter(|x| Some(x.0) != id).cloned().collect()
}
/// What the responder does with this frame: (accepted, answers).
pub fn give(w: &mut World, f: &[u8]) -> RspRet {
    w.set_mitm(None);
    w.feed(f)
}
/// A request of the harness, which the observer follows as well.
pub fn inject(fl: &mut Flow, f: &[u8]) -> RspRet {
    fl.a.catch_up(&fl.w);
    fl.a.feed(Party::Req, f);
    fl.a.frames -= 1; // it is not in the log of the world
    let r = give(&mut fl.w, f);
    fl.a.catch_up(&fl.w);
    r
}
/// The responder drops a session whose handshake it has not seen fail yet:
/// its finish message arrives with a wrong verification value.
fn wrong_finish(fl: &mut Flow, id: u32) -> Result<(), Failure> {
    let s = match fl.a.sess.iter().rev().find(|s| s.id == id) {
        Some(s) => s.clone(),
        None => return fail("the observer lost a session", fl.ctx()),
    };
    let h = s.neg.h().size();
    let ver = s.neg.ver;
    let mut m = vec![ver, if s.psk { PSK_FINISH } else { FINISH }, 0, 0];
    if s.mut_auth != 0 {
        m[2] = 1;
        let n = toy::sig_size(s.neg.req_asym as u32).unwrap_or(64);
        m.extend(expand(7, n));
    }
    m.extend(expand(8, h));
    let f = if s.neg.clear() && !s.psk {
        wire::frame(fl.g.tr, false, &m)
    } else {
        s.forge(fl.g.tr, Party::Req, false, &m)
    };
    let _ = inject(fl, &f);
    Ok(())
}

// ---------------------------------------------------------------- C18

fn distinct(fl: &Flow, ids: &[u32]) -> CaseResult {
    let mut v = ids.to_vec();
    v.sort();
    v.dedup();
    ensure!(
        v.len() == ids.len() && !v.contains(&0),
        "session ids are not distinct and non-zero",
        "{:x?} {}",
        ids,
        fl.ctx()
    );
    Ok(())
}
fn start_act(c: &mut Case, fl: &Flow) -> Act {
    let psk = if fl.f.kex && fl.f.psk {
        c.bool()
    } else {
        fl.f.psk
    };
    if psk {
        let n = c.range(0, 32);
        Act::Psk(0, c.blob(n))
    } else {
        Act::Ke(c.pick(&fl.f.slots), 0)
    }
}

fn bounded(c: &mut Case) -> CaseResult {
    let (mut fl, mut ids) = opened(c, 4)?;
    distinct(&fl, &ids)?;
    fl.same_sessions()?;
    let rounds = c.range(1, 3);
    for _ in 0..rounds {
        let (q, r) = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let act = start_act(c, &fl);
        let x = fl.w.act(&act);
        ensure!(
            !matches!(x, Some(Ok(_))),
            "more sessions than the table holds",
            "{:?} {}",
            x,
            fl.ctx()
        );
        // the request on its own, as another requester would send it
        let old: Vec<Vec<u8>> =
            fl.a.msgs
                .iter()
                .filter(|m| {
                    m.from == Party::Req
                        && m.session.is_none()
                        && matches!(m.bytes.get(1), Some(&KEY_EXCHANGE) | Some(&PSK_EXCHANGE))
                })
                .map(|m| m.bytes.clone())
                .collect();
        if !old.is_empty() {
            let m = c.pick(&old);
            let f = wire::frame(fl.g.tr, false, &m);
            let ret = inject(&mut fl, &f);
            let ans: Vec<&[u8]> = ret
                .sent
                .iter()
                .filter_map(|x| wire::unframe(fl.g.tr, x).map(|y| y.1))
                .collect();
            ensure!(
                ans.len() == 1 && ans[0].get(1) == Some(&ERROR),
                "a session start beyond the table is not refused",
                "{:?} {}",
                ans.iter().map(|a| hex(a)).collect::<Vec<_>>(),
                fl.ctx()
            );
        }
        let (q2, r2) = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        ensure!(
            q == q2 && r == r2,
            "a refused session start disturbs the others",
            "{:?} {:?} / {:?} {:?} {}",
            q,
            r,
            q2,
            r2,
            fl.ctx()
        );
        for id in ids.clone() {
            check_session(&mut fl, id)?;
            exchange_data(c, &mut fl, id)?;
        }
        // one ends, another takes its place
        let k = c.usize(4);
        let open = fl.w.open_sessions();
        let p = open.iter().position(|x| *x == ids[k]).unwrap();
        fl.must(Act::End(p))?;
        ids.remove(k);
        tidy(&fl, Party::Req)?;
        tidy(&fl, Party::Rsp)?;
        let n = open_one(c, &mut fl)?;
        ids.push(n);
        distinct(&fl, &ids)?;
        fl.same_sessions()?;
        c.nontrivial();
    }
    for id in ids.clone() {
        check_session(&mut fl, id)?;
        exchange_data(c, &mut fl, id)?;
    }
    fl.clean(&[])
}

/// An operation in session `k` of the open ones, or starting a new one.
fn op_in(c: &mut Case, fl: &Flow, k: usize, fresh: bool) -> Act {
    let slot = c.pick(&fl.f.slots);
    match c.weighted(&[
        if fl.f.cert { 1 } else { 0 },
        if fl.f.cert { 1 } else { 0 },
        if fl.f.meas { 2 } else { 0 },
        if fl.f.hb { 2 } else { 0 },
        if fl.f.upd { 4 } else { 0 },
        2,
        2,
        if fl.f.mctp { 2 } else { 0 },
        if fresh { 4 } else { 0 },
    ]) {
        0 => Act::Digest(Some(k)),
        1 => Act::Cert(Some(k), slot),
        2 => {
            let sig = fl.f.meas_sig && c.bool();
            Act::Meas(Some(k), slot, sig, gen_meas_op(c, &fl.f.idx))
        }
        3 => Act::Heartbeat(k),
        4 => Act::Update(k, c.range(1, 2) as u8),
        5 => Act::End(k),
        6 => {
            let n = c.len_biased(100);
            Act::Vendor(Some(k), 3, vec![1], c.blob(n))
        }
        7 => {
            let n = c.len_biased(100).max(1);
            Act::App(k, c.blob(n))
        }
        _ => start_act(c, fl),
    }
}
pub fn gen_fault(c: &mut Case) -> Fault {
    let op = c.pick(&[
        Op::Encrypt,
        Op::Decrypt,
        Op::Expand,
        Op::Hmac,
        Op::HmacVerify,
        Op::Sign,
        Op::Verify,
        Op::DheGen,
        Op::Rand,
        Op::Send,
        Op::Recv,
        Op::App,
        Op::Vendor,
        Op::HashFinal,
        Op::HashUpdate,
        Op::Hash,
        Op::PskHs,
        Op::PskMaster,
        Op::MeasCollect,
    ]);
    Fault {
        party: if c.bool() { Party::Req } else { Party::Rsp },
        op,
        nth: c.usize(4) as u64,
        sticky: false,
    }
}

/// What happens in one session leaves the others alone.
fn apart(c: &mut Case) -> CaseResult {
    let n = c.range(1, 4);
    let (mut fl, _) = opened(c, n)?;
    let steps = c.range(1, 4);
    // sessions that no operation failed in
    let mut well: Vec<u32> = fl.w.open_sessions();
    for _ in 0..steps {
        let open = fl.w.open_sessions();
        if open.is_empty() {
            break;
        }
        let k = c.usize(open.len());
        let fresh = ids_at(&fl.w, Party::Req).len() < 4 && ids_at(&fl.w, Party::Rsp).len() < 4;
        let act = op_in(c, &fl, k, fresh);
        let target = match act {
            Act::Ke(..) | Act::Psk(..) => None,
            _ => Some(open[k]),
        };
        let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let how = c.weighted(&[2, 3, 3, 2]);
        fl.w.set_mitm(None);
        match how {
            0 => {}
            1 => {
                // a message is altered
                let (skip, seed) = (c.usize(4), c.u64());
                let tr = fl.g.tr;
                let i = Cell::new(0);
                fl.w.set_mitm(Some(Box::new(move |_, _, b| {
                    let n = i.get();
                    i.set(n + 1);
                    if n != skip {
                        return vec![b.to_vec()];
                    }
                    let mut c = Case::random(seed, false);
                    match wire::unframe(tr, b) {
                        Some((sec, m)) => vec![wire::frame(tr, sec, &mutate(&mut c, m).0)],
                        None => vec![],
                    }
                })));
            }
            2 => {
                let f = gen_fault(c);
                toy::with(|t| t.faults = vec![f]);
                toy::with(|t| t.fault_armed = true);
            }
            _ => {
                // a message is lost
                let skip = c.usize(4);
                let i = Cell::new(0);
                fl.w.set_mitm(Some(Box::new(move |_, _, b| {
                    let n = i.get();
                    i.set(n + 1);
                    if n == skip {
                        vec![]
                    } else {
                        vec![b.to_vec()]
                    }
                })));
            }
        }
        if how != 2 {
            toy::with(|t| t.faults.clear());
        }
        fl.hist.push(act.clone());
        let l0 = fl.w.log_len();
        let r = fl.w.act(&act);
        toy::with(|t| t.faults.clear());
        fl.w.set_mitm(None);
        fl.w.drain();
        // an altered clear message that asks for a new connection does reset
        let reset = fl.w.log()[l0..].iter().any(|f| {
            f.delivered.iter().any(|d| match wire::unframe(fl.g.tr, d) {
                Some((false, m)) => {
                    m.get(1) == Some(&GET_VERSION)
                        || (m.get(1) == Some(&ERROR) && m.get(2) == Some(&0x43))
                }
                _ => false,
            })
        });
        if reset {
            return Ok(());
        }
        let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let id = match (&r, target) {
            (_, Some(i)) => Some(i),
            (Some(Ok(Out::Session(i))), None) => Some(*i),
            _ => None,
        };
        let ok = matches!(r, Some(Ok(_)));
        for (p, x, y) in [
            (Party::Req, &before.0, &after.0),
            (Party::Rsp, &before.1, &after.1),
        ] {
            let (u, mut v) = (but(x, id), but(y, id));
            if target.is_none() && !ok {
                // a failed start may leave the responder waiting for the rest
                v.retain(|s| {
                    p == Party::Req
                        || u.iter().any(|t| t.0 == s.0)
                        || s.1 == SpdmSessionStateN::NotStarted
                });
                let extra = y.iter().filter(|s| !x.iter().any(|t| t.0 == s.0)).count();
                ensure!(
                    extra <= if p == Party::Req { 0 } else { 1 },
                    "a failed session start stays in the table",
                    "{:?} {:?} {:?} {}",
                    p,
                    x,
                    y,
                    fl.ctx()
                );
            }
            ensure!(
                u == v,
                "an operation in one session changes another",
                "{:?} {:?} on {:x?}, result {:?}: {:?} -> {:?} {}",
                p,
                act,
                target,
                r,
                x,
                y,
                fl.ctx()
            );
        }
        tidy(&fl, Party::Req)?;
        tidy(&fl, Party::Rsp)?;
        if before.0.len() > 1 || target.is_none() {
            c.nontrivial();
            c.label(["clean", "altered", "internal failure", "lost"][how]);
        }
        if !ok || matches!(act, Act::End(_)) || how != 0 {
            if let Some(i) = target {
                well.retain(|x| *x != i);
            }
        } else if let (Some(i), None) = (id, target) {
            well.push(i);
        }
        if how == 0 {
            ensure!(
                ok || target.map(|i| !well.contains(&i)).unwrap_or(false) || !still(&fl, target),
                "an operation in an undisturbed session fails",
                "{:?} {:?} {}",
                act,
                r,
                fl.ctx()
            );
        }
    }
    let shared = shared_sessions(&mut fl.w);
    for id in well {
        ensure!(
            shared.contains(&id),
            "an undisturbed session is lost",
            "{:x} of {:x?} {}",
            id,
            shared,
            fl.ctx()
        );
        let m = expand(id as u64, 20);
        let r = fl.w.vendor(Some(id), 3, &[1], &m);
        ensure!(
            matches!(&r, Ok(x) if *x == m),
            "an undisturbed session is unusable",
            "{:x} {:?} {}",
            id,
            r.is_ok(),
            fl.ctx()
        );
    }
    Ok(())
}
fn still(fl: &Flow, t: Option<u32>) -> bool {
    match t {
        Some(_) => true,
        None => !(ids_at(&fl.w, Party::Rsp).len() >= 4),
    }
}

/// Handshakes that fail leave nothing behind.
fn leak(c: &mut Case) -> CaseResult {
    let n = c.range(0, 2);
    let (mut fl, ids) = opened(c, n)?;
    let mut keep = ids.clone();
    keep.sort();
    let rounds = c.range(3, 9);
    let base = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
    let mut fails = 0;
    for _ in 0..rounds {
        let act = start_act(c, &fl);
        let how = c.weighted(&[3, 3, 3, 2, 2, 1]);
        let seed = c.u64();
        let what = Rc::new(Cell::new(0u8));
        let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
        let fine = Rc::new(Cell::new(false));
        {
            let what = what.clone();
            let fine = fine.clone();
            tap::tap(&fl.w, &a, move |a, _, m, _| {
                let m = m?;
                let code = *m.bytes.get(1)?;
                if what.get() != 0 {
                    return None;
                }
                let starts = code == KEY_EXCHANGE_RSP || code == PSK_EXCHANGE_RSP;
                let ends = code == FINISH || code == PSK_FINISH;
                let done = code == FINISH_RSP || code == PSK_FINISH_RSP;
                let mut c = Case::random(seed, false);
                let mut v = m.bytes.clone();
                match how {
                    0 if starts => {
                        let i = 4 + c.usize(v.len() - 4);
                        v[i] ^= 1 << c.usize(8);
                    }
                    1 if ends => {
                        let i = v.len() - 1 - c.usize(8);
                        v[i] ^= 1 << c.usize(8);
                    }
                    3 if done => {
                        what.set(code);
                        return Some(vec![]);
                    }
                    4 if starts || ends || done => {
                        if c.bool() {
                            return None;
                        }
                        // an error in place of the answer, or nothing
                        if ends {
                            what.set(code);
                            return Some(vec![]);
                        }
                        v = vec![m.bytes[0], ERROR, c.pick(&[1u8, 3, 4, 5, 6, 7, 0x42]), 0];
                    }
                    _ => return None,
                }
                what.set(code);
                fine.set(how == 1);
                Some(vec![tap::reframe(a, m, &v)])
            });
        }
        if how == 2 {
            let f = gen_fault(c);
            toy::with(|t| {
                t.faults = vec![f];
                t.fault_armed = true;
            });
        }
        let act = if how == 5 {
            // a slot without a certificate
            Act::Ke(c.range(0, 7) as u8, 0)
        } else {
            act
        };
        fl.hist.push(act.clone());
        let l0 = fl.w.log_len();
        let r = fl.w.act(&act);
        toy::with(|t| t.faults.clear());
        fl.w.set_mitm(None);
        fl.w.drain();
        fl.a = a.borrow().clone();
        let ok = match &r {
            Some(Ok(Out::Session(i))) => Some(*i),
            _ => None,
        };
        if let Some(i) = ok {
            // it went well after all: end it again, by hand if need be
            if how == 2 || what.get() != 0 {
                // the fault hit nothing that matters, or only the responder
                let both = shared_sessions(&mut fl.w).contains(&i);
                if !both {
                    return Ok(());
                }
            }
            let p = fl.w.open_sessions().iter().position(|x| *x == i);
            match p {
                Some(p) => {
                    let e = fl.w.act(&Act::End(p));
                    fl.a.catch_up(&fl.w);
                    ensure!(
                        matches!(e, Some(Ok(_))),
                        "a session cannot be ended",
                        "{:?} {}",
                        e,
                        fl.ctx()
                    );
                }
                None => return fail("a started session is not in the table", fl.ctx()),
            }
        } else {
            fails += 1;
            c.label(
                [
                    "answer altered",
                    "finish altered",
                    "internal failure",
                    "finish answer lost",
                    "error or loss",
                    "refused",
                ][how],
            );
        }
        let q = ids_at(&fl.w, Party::Req);
        ensure!(
            q == keep,
            "the requester keeps a session that failed or ended",
            "{:x?} not {:x?} {:?} {}",
            q,
            keep,
            act,
            fl.ctx()
        );
        tidy(&fl, Party::Req)?;
        let mut s = ids_at(&fl.w, Party::Rsp);
        s.retain(|i| !keep.contains(i));
        if !s.is_empty() {
            ensure!(
                ok.is_none() && s.len() == 1,
                "the responder keeps a session that failed or ended",
                "{:x?} {}",
                s,
                fl.ctx()
            );
            // did the responder see it fail?
            let saw = how == 1 && fine.get();
            let log = fl.w.log();
            let answered = log[l0..].iter().any(|f| f.from == Party::Rsp && f.sent_ok);
            ensure!(
                !saw && answered,
                "the responder keeps a session whose handshake failed",
                "{:x?} finish refused {} answered {} {}",
                s,
                saw,
                answered,
                fl.ctx()
            );
            let id = s[0];
            let st =
                fl.w.rsp_sessions()
                    .iter()
                    .find(|x| x.0 == id)
                    .map(|x| x.1)
                    .unwrap();
            match st {
                SpdmSessionStateN::Handshaking => wrong_finish(&mut fl, id)?,
                SpdmSessionStateN::Established => {
                    // the requester gave it up; only END_SESSION is left
                    let k = keys_of(&mut fl.w, Party::Rsp, id).unwrap();
                    let d = Dir {
                        key: k.0 .0,
                        iv: k.0 .1,
                        seq: k.0 .2,
                        secret: vec![],
                    };
                    let m = [fl.a.neg.ver, END_SESSION, 0, 0];
                    let f = sealed(fl.g.tr, fl.a.neg.aead, &d, id, d.seq, false, &m);
                    let _ = inject(&mut fl, &f);
                }
                _ => {
                    return fail(
                        "the responder keeps a session that did not start",
                        format!("{:x} {}", id, fl.ctx()),
                    )
                }
            }
            let s = ids_at(&fl.w, Party::Rsp);
            ensure!(
                s == keep,
                "the responder keeps a session whose handshake failed",
                "{:x?} not {:x?} ({:?}, {:?}) {}",
                s,
                keep,
                act,
                st,
                fl.ctx()
            );
        }
        tidy(&fl, Party::Rsp)?;
        let now = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        ensure!(
            now == base,
            "a failed handshake disturbs the open sessions",
            "{:?} -> {:?} {}",
            base,
            now,
            fl.ctx()
        );
    }
    if fails >= 3 {
        c.nontrivial();
    }
    // new sessions can be started, up to the limit
    let mut all = keep.clone();
    while all.len() < 4 {
        let act = start_act(c, &fl);
        fl.hist.push(act.clone());
        let r = fl.w.act(&act);
        match r {
            Some(Ok(Out::Session(i))) => all.push(i),
            r => {
                return fail(
                    "no new session after failed handshakes",
                    format!("{:?} {:?} open {:x?} {}", act, r, all, fl.ctx()),
                )
            }
        }
    }
    distinct(&fl, &all)?;
    let shared = shared_sessions(&mut fl.w);
    for id in all {
        let m = expand(id as u64, 20);
        let r = fl.w.vendor(Some(id), 3, &[1], &m);
        ensure!(
            shared.contains(&id) && matches!(&r, Ok(x) if *x == m),
            "a session is unusable after failed handshakes",
            "{:x} {}",
            id,
            fl.ctx()
        );
    }
    Ok(())
}

/// Handshakes that overlap.
fn interleave(c: &mut Case) -> CaseResult {
    let mut g = sess_cfg(c);
    // one mutual authentication at a time: its exchange has no session number
    g.req.caps &= !RQ_MUT;
    g.rsp.caps &= !RS_MUT;
    let n = c.range(0, 2);
    let (mut fl, _) = opened_with(c, g, n)?;
    // (id, psk) of handshakes under way, and of finished sessions
    let mut going: Vec<(u32, bool)> = vec![];
    let mut last_clear: Option<u32> = None;
    let mut overlap = false;
    let steps = c.range(3, 10);
    for step in 0..steps + 8 {
        let open = fl.w.open_sessions();
        let room = open.len() + going.len() < 4 && step < steps;
        let k = c.weighted(&[
            if room && fl.f.kex { 3 } else { 0 },
            if room && fl.f.psk { 3 } else { 0 },
            if going.is_empty() { 0 } else { 3 },
            if open.is_empty() || step >= steps {
                0
            } else {
                2
            },
            if step < steps { 1 } else { 0 },
            if step >= steps && going.is_empty() {
                1
            } else {
                0
            },
        ]);
        match k {
            0 => {
                let slot = c.pick(&fl.f.slots);
                let r =
                    fl.w.rq(|r| r.send_receive_spdm_key_exchange(slot, summary(0)));
                fl.a.catch_up(&fl.w);
                let id = match r {
                    Ok(i) => i,
                    Err(e) => {
                        return fail(
                            "an overlapping key exchange fails",
                            format!("{:?} {}", e, fl.ctx()),
                        )
                    }
                };
                going.push((id, false));
                if fl.f.clear {
                    last_clear = Some(id);
                }
            }
            1 => {
                let n = c.range(0, 32);
                let h = hint(&c.blob(n));
                let r =
                    fl.w.rq(|r| r.send_receive_spdm_psk_exchange(summary(0), Some(&h)));
                fl.a.catch_up(&fl.w);
                let id = match r {
                    Ok(i) => i,
                    Err(e) => {
                        return fail(
                            "an overlapping PSK exchange fails",
                            format!("{:?} {}", e, fl.ctx()),
                        )
                    }
                };
                if fl.g.rsp.caps & RS_PSK_NOCTX == 0 {
                    going.push((id, true));
                }
            }
            2 => {
                let i = c.usize(going.len());
                let (id, psk) = going.remove(i);
                let clear = fl.f.clear && !psk;
                let r = if psk {
                    fl.w.rq(|r| r.send_receive_spdm_psk_finish(id))
                } else {
                    fl.w.rq(|r| r.send_receive_spdm_finish(None, id))
                };
                if clear && last_clear != Some(id) {
                    // a clear FINISH belongs to the latest key exchange
                    return Ok(());
                }
                fl.a.catch_up(&fl.w);
                if clear {
                    last_clear = None;
                }
                ensure!(
                    r.is_ok(),
                    "an overlapping handshake fails",
                    "{:x} psk {}: {:?} {}",
                    id,
                    psk,
                    r,
                    fl.ctx()
                );
                check_session(&mut fl, id)?;
            }
            3 => {
                let i = c.usize(open.len());
                let act = match op_in(c, &fl, i, false) {
                    Act::End(_) => Act::Vendor(Some(i), 1, vec![], vec![5; 9]),
                    a => a,
                };
                fl.must(act)?;
            }
            4 => {
                let n = c.len_biased(60);
                let b = c.blob(n);
                fl.must(Act::Vendor(None, 1, vec![], b))?;
            }
            _ => break,
        }
        overlap |= going.len() > 1;
        let mut all: Vec<u32> = going.iter().map(|x| x.0).collect();
        all.extend(fl.w.open_sessions());
        distinct(&fl, &all)?;
        fl.same_sessions()?;
    }
    if overlap {
        c.nontrivial();
    }
    for id in fl.w.open_sessions() {
        check_session(&mut fl, id)?;
        exchange_data(c, &mut fl, id)?;
    }
    fl.clean(&[])
}

// ---------------------------------------------------------------- C19

fn windows(b: &[u8], out: &mut HashSet<[u8; 8]>) {
    for w in b.windows(8) {
        let mut k: [u8; 8] = [0; 8];
        k.copy_from_slice(w);
        let d: HashSet<&u8> = w.iter().collect();
        if d.len() >= 6 {
            out.insert(k);
        }
    }
}
/// The secrets of this session (what it exchanged, and a PSK hint, may stand
/// in unused places; `used` looks at the places in use).
fn secrets_of(s: &Sess, out: &mut HashSet<[u8; 8]>) {
    for v in [&s.dhe_secret, &s.hs_secret, &s.master, &s.exporter] {
        windows(v, out);
    }
    for i in 0..2 {
        for d in [&s.hs[i], &s.app[i]] {
            windows(&d.key, out);
            windows(&d.iv, out);
        }
        windows(&s.fin[i], out);
        windows(&s.hs_sec[i], out);
        windows(&s.app_sec[i], out);
    }
}
fn holds(p: *const u8, n: usize, set: &HashSet<[u8; 8]>) -> Option<usize> {
    let mut k = [0u8; 8];
    let mut b = vec![0u8; n];
    for (i, x) in b.iter_mut().enumerate() {
        *x = unsafe { std::ptr::read_volatile(p.add(i)) };
    }
    for i in 0..n.saturating_sub(7) {
        k.copy_from_slice(&b[i..i + 8]);
        if set.contains(&k) {
            return Some(i);
        }
    }
    None
}
fn entry_of(w: &World, p: Party, id: u32) -> Option<usize> {
    table(w, p).iter().position(|s| s.get_session_id() == id)
}
fn block(w: &World, p: Party, i: usize) -> (*const u8, usize) {
    let s = &table(w, p)[i] as *const SpdmSession;
    (s as *const u8, std::mem::size_of::<SpdmSession>())
}

#[inline(never)]
fn blank_stack() -> u8 {
    let mut b = [0u8; 1 << 17];
    for x in b.iter_mut() {
        unsafe { std::ptr::write_volatile(x, 0) }
    }
    b[77]
}
/// The words of a session entry that are its own boxes (unused places and
/// padding may hold any stale word): those that are live blocks in every new
/// entry, and in no two of them or twice in one the same.
fn places(track: &Track) -> Vec<usize> {
    let n = std::mem::size_of::<SpdmSession>() / 8;
    let mut sets: Vec<Vec<usize>> = vec![];
    let mut keep: Vec<Box<SpdmSession>> = vec![];
    for _ in 0..3 {
        blank_stack();
        let s = Box::new(SpdmSession::new());
        let p = &*s as *const SpdmSession as *const usize;
        let words: Vec<usize> = (0..n)
            .map(|i| unsafe { std::ptr::read_volatile(p.add(i)) })
            .collect();
        sets.push(words);
        keep.push(s);
    }
    let mut all: HashMap<usize, usize> = HashMap::new();
    for s in &sets {
        for w in s {
            *all.entry(*w).or_default() += 1;
        }
    }
    (0..n)
        .filter(|i| {
            sets.iter()
                .all(|s| all[&s[*i]] == 1 && track.size(s[*i]).is_some())
        })
        .collect()
}
fn secret_blocks(track: &Track, places: &[usize], b: *const u8) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in places {
        let w = unsafe { std::ptr::read_volatile((b as *const usize).add(*i)) };
        if let Some(n) = track.size(w) {
            v.push((w, n));
        }
    }
    v
}

/// The table entries of an ended session hold nothing of it.
fn erase(c: &mut Case) -> CaseResult {
    let track = Track::start();
    let places = places(&track);
    let n = c.range(1, 3);
    let (mut fl, ids) = opened(c, n)?;
    let h = c.range(0, 5);
    for _ in 0..h {
        let open = fl.w.open_sessions().len();
        let k = c.usize(open);
        let act = match op_in(c, &fl, k, false) {
            Act::End(_) => Act::Vendor(Some(k), 1, vec![], vec![5; 9]),
            a => a,
        };
        fl.must(act)?;
    }
    let id = c.pick(&ids);
    let all: Vec<Sess> = fl.a.sess.clone();
    let mut set = HashSet::new();
    let mut way = c.weighted(&[4, 2, 2, 2]);
    if fl.f.upd && c.chance(1, 3) {
        // a key update is under way
        c.label("in a key update");
        way = c.range(1, 2);
        let at = c.usize(4);
        let i = Cell::new(0);
        fl.w.set_mitm(Some(Box::new(move |_, _, b| {
            let n = i.get();
            i.set(n + 1);
            if n == at {
                vec![]
            } else {
                vec![b.to_vec()]
            }
        })));
        let p = fl.w.open_sessions().iter().position(|x| *x == id).unwrap();
        let act = Act::Update(p, c.range(1, 2) as u8);
        fl.hist.push(act.clone());
        let _ = fl.w.act(&act);
        fl.w.set_mitm(None);
        fl.w.drain();
    }
    let gone: Vec<u32> = if way == 1 || way == 2 {
        ids.clone()
    } else {
        vec![id]
    };
    for s in all.iter().filter(|s| gone.contains(&s.id)) {
        secrets_of(s, &mut set);
    }
    if way == 1 || way == 2 {
        // the traffic secrets of every session of the connection
        let okm: Vec<Vec<u8>> = toy::with(|t| t.okm.iter().map(|x| x.2.clone()).collect());
        for o in okm {
            windows(&o, &mut set);
        }
    }
    // where the entries are, and the secrets they refer to
    let mut at: Vec<(Party, usize)> = vec![];
    let mut watched = vec![];
    for p in [Party::Req, Party::Rsp] {
        for g in &gone {
            if let Some(i) = entry_of(&fl.w, p, *g) {
                at.push((p, i));
                let (b, _) = block(&fl.w, p, i);
                let v = secret_blocks(&track, &places, b);
                watched.extend(
                    v.into_iter()
                        .filter(|(p, n)| holds(*p as *const u8, *n, &set).is_some()),
                );
            }
        }
    }
    // were the secrets not in boxes of their own, they were in the entry
    // (whose padding and unused places may otherwise hold stale bytes)
    let inline = watched.len() < 2 * gone.len();
    track.watch(&watched);
    match way {
        0 => {
            c.label("END_SESSION");
            let p = fl.w.open_sessions().iter().position(|x| *x == id).unwrap();
            fl.must(Act::End(p))?;
        }
        1 => {
            c.label("connected anew");
            let r = fl.w.init();
            ensure!(r.is_ok(), "connecting again fails", "{:?} {}", r, fl.ctx());
        }
        2 => {
            // the connection is given up half way
            c.label("connection given up");
            let skip = c.usize(5);
            let i = Cell::new(0);
            fl.w.set_mitm(Some(Box::new(move |_, _, b| {
                let n = i.get();
                i.set(n + 1);
                if n == skip + 1 {
                    vec![]
                } else {
                    vec![b.to_vec()]
                }
            })));
            let _ = fl.w.init();
            fl.w.set_mitm(None);
            fl.w.drain();
        }
        _ => {
            // the responder reports that the session's keys do not work:
            // the requester drops it, and the responder at END_SESSION
            c.label("decrypt error");
            let s = seen(&mut fl, id)?;
            let f = s.forge(fl.g.tr, Party::Rsp, false, &[s.neg.ver, ERROR, 6, 0]);
            fl.w.set_mitm(Some(Box::new(move |p, _, b| {
                if p == Party::Rsp {
                    vec![f.clone()]
                } else {
                    vec![b.to_vec()]
                }
            })));
            let r = fl.w.vendor(Some(id), 0, &[], &[1, 2, 3]);
            ensure!(r.is_err(), "an error is taken for success", "{}", fl.ctx());
            let f = {
                let k = keys_of(&mut fl.w, Party::Rsp, id).unwrap();
                let d = Dir {
                    key: k.0 .0,
                    iv: k.0 .1,
                    seq: k.0 .2,
                    secret: vec![],
                };
                let m = [fl.a.neg.ver, END_SESSION, 0, 0];
                sealed(fl.g.tr, fl.a.neg.aead, &d, id, d.seq, false, &m)
            };
            let _ = give(&mut fl.w, &f);
        }
    }
    c.nontrivial();
    for p in [Party::Req, Party::Rsp] {
        for g in &gone {
            ensure!(
                entry_of(&fl.w, p, *g).is_none(),
                "an ended session is still in the table",
                "{:?} {:x} {}",
                p,
                g,
                fl.ctx()
            );
        }
        tidy(&fl, p)?;
    }
    for (p, i) in at {
        let (b, n) = block(&fl.w, p, i);
        if let Some(o) = holds(b, n, &set).filter(|_| inline) {
            return fail(
                "the entry of an ended session still holds its data",
                format!("{:?} entry {} offset {} {}", p, i, o, fl.ctx()),
            );
        }
        for (q, m) in secret_blocks(&track, &places, b) {
            if holds(q as *const u8, m, &set).is_some() {
                return fail(
                    "the entry of an ended session still refers to its secrets",
                    format!("{:?} entry {} {}", p, i, fl.ctx()),
                );
            }
        }
    }
    ensure!(
        track.dirty() == 0,
        "secrets of an ended session are released without being erased",
        "{} blocks {}",
        track.dirty(),
        fl.ctx()
    );
    Ok(())
}

/// A completed key update leaves nothing of the keys it retires.
pub fn renewed(c: &mut Case) -> CaseResult {
    let track = Track::start();
    let places = places(&track);
    let g = upd_cfg(c);
    let n = c.range(1, 2);
    let (mut fl, ids) = opened_with(c, g, n)?;
    for _ in 0..c.range(1, 4) {
        let p = c.usize(fl.w.open_sessions().len());
        let id = fl.w.open_sessions()[p];
        if c.chance(1, 3) {
            fl.must(Act::Vendor(Some(p), 1, vec![], vec![5; 9]))?;
        }
        let op = c.range(1, 2) as u8;
        let s = match fl.a.sess.iter().rev().find(|s| s.id == id) {
            Some(s) => s.clone(),
            None => return fail("the observer does not know the session", fl.ctx()),
        };
        let mut set = HashSet::new();
        for d in s.app.iter().take(op as usize) {
            for x in [&d.key, &d.iv, &d.secret] {
                windows(x, &mut set);
            }
        }
        ensure!(!set.is_empty(), "no keys before the update", "{}", fl.ctx());
        let held = |fl: &Flow, p: Party| {
            let i = entry_of(&fl.w, p, id)?;
            let (b, _) = block(&fl.w, p, i);
            let v = secret_blocks(&track, &places, b);
            Some(
                v.iter()
                    .filter(|x| holds(x.0 as *const u8, x.1, &set).is_some())
                    .count(),
            )
        };
        let had = [held(&fl, Party::Req), held(&fl, Party::Rsp)];
        fl.must(Act::Update(p, op))?;
        if had.iter().all(|x| x.unwrap_or(0) > 0) {
            c.nontrivial();
        }
        c.label(if op == 1 { "single" } else { "both" });
        for p in [Party::Req, Party::Rsp] {
            ensure!(
                held(&fl, p) == Some(0),
                "retired keys are kept after a key update",
                "{:?} op {} ids {:x?} {}",
                p,
                op,
                ids,
                fl.ctx()
            );
        }
    }
    Ok(())
}

fn ender(c: &mut Case, fl: &mut Flow, id: u32) -> CaseResult {
    if c.chance(3, 4) {
        let p = fl.w.open_sessions().iter().position(|x| *x == id).unwrap();
        fl.must(Act::End(p))?;
    } else {
        let r = fl.w.init();
        ensure!(r.is_ok(), "connecting again fails", "{:?} {}", r, fl.ctx());
        let slots = fl.f.slots.clone();
        if fl.f.cert {
            for s in slots {
                let r = if cfg!(feature = "hashed") {
                    Ok(())
                } else {
                    fl.w.digest(None)
                }
                .and_then(|_| fl.w.cert(None, s));
                ensure!(
                    r.is_ok(),
                    "honest certificate retrieval fails",
                    "{:?} {}",
                    r,
                    fl.ctx()
                );
            }
        }
        fl.a.catch_up(&fl.w);
    }
    Ok(())
}
/// Keys a session had: handshake, every application generation, and the last.
fn old_keys(s: &Sess) -> Vec<[Dir; 2]> {
    let mut v = vec![s.app.clone(), s.hs.clone()];
    let mut n = s.app.clone();
    for i in 0..2 {
        n[i] = upd_dir(s.neg.h(), s.neg.ver, s.neg.aead, &n[i]);
    }
    v.push(n);
    v
}
/// A request of some kind for the records below.
fn some_request(c: &mut Case, fl: &Flow) -> (bool, Vec<u8>) {
    let v = fl.a.neg.ver;
    match c.usize(7) {
        0 => (false, vec![v, HEARTBEAT, 0, 0]),
        1 => (false, vec![v, END_SESSION, 0, 0]),
        2 => (false, vec![v, KEY_UPDATE, c.range(1, 3) as u8, 0x55]),
        3 => (false, vec![v, GET_DIGESTS, 0, 0]),
        4 => (fl.f.mctp, vec![9; 20]),
        5 => (false, vec![v, FINISH, 0, 0, 1, 2, 3]),
        _ => (false, vendor_msg(v, 3, &[1], &[2; 30])),
    }
}
fn silent(fl: &mut Flow, f: &[u8], id: u32, what: &str) -> CaseResult {
    let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
    let logs = toy::with(|t| (t.app_log.len(), t.vendor_log.len(), t.meas_calls.len()));
    let ret = give(&mut fl.w, f);
    ensure!(
        ret.sent.is_empty()
            && logs == toy::with(|t| (t.app_log.len(), t.vendor_log.len(), t.meas_calls.len())),
        "the responder answers a record of an ended session",
        "{} for {:x}: {:?} {}",
        what,
        id,
        ret.sent.iter().map(|x| hex(x)).collect::<Vec<_>>(),
        fl.ctx()
    );
    let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
    // a record that names a live session may cost it its position
    let live = after.1.iter().any(|s| s.0 == id);
    ensure!(
        before.0 == after.0
            && (before.1 == after.1 || live && moved(&before.1, &after.1, Some(id), 0, 1)),
        "a record of an ended session changes the table",
        "{} for {:x}: {:?} -> {:?} {}",
        what,
        id,
        before.1,
        after.1,
        fl.ctx()
    );
    Ok(())
}

fn dead(c: &mut Case) -> CaseResult {
    let n = c.range(1, 3);
    let (mut fl, ids) = opened(c, n)?;
    let h = c.range(0, 4);
    for _ in 0..h {
        let open = fl.w.open_sessions().len();
        let k = c.usize(open);
        let act = match op_in(c, &fl, k, false) {
            Act::End(_) => Act::Vendor(Some(k), 1, vec![], vec![5; 9]),
            a => a,
        };
        fl.must(act)?;
    }
    let id = c.pick(&ids);
    let s = seen(&mut fl, id)?;
    ender(c, &mut fl, id)?;
    ensure!(
        entry_of(&fl.w, Party::Req, id).is_none() && entry_of(&fl.w, Party::Rsp, id).is_none(),
        "an ended session is still in the table",
        "{:x} {}",
        id,
        fl.ctx()
    );
    let recorded: Vec<(Party, Vec<u8>)> = fl
        .w
        .log()
        .iter()
        .filter(|f| {
            matches!(wire::unframe(fl.g.tr, &f.sent), Some((true, r)) if wire::record_sid(r) == Some(id))
        })
        .map(|f| (f.from, f.sent.clone()))
        .collect();
    c.nontrivial();
    let rounds = c.range(2, 6);
    for _ in 0..rounds {
        let target = if c.chance(1, 6) { 0 } else { id };
        match c.weighted(&[3, 3, 3, 3]) {
            0 if !recorded.is_empty() => {
                let f = c.pick(&recorded).1;
                c.label("replayed");
                silent(&mut fl, &f, id, "a recorded record")?;
            }
            1 => {
                let ks = old_keys(&s);
                let k = c.pick(&ks)[0].clone();
                let seq = match c.usize(3) {
                    0 => 0,
                    1 => k.seq,
                    _ => k.seq + 1,
                };
                let (app, m) = some_request(c, &fl);
                let f = sealed(fl.g.tr, s.neg.aead, &k, target, seq, app, &m);
                c.label("forged");
                silent(&mut fl, &f, target, "a new record under its keys")?;
            }
            2 => {
                // the requester produces nothing for it
                let l = fl.w.log_len();
                let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
                let r: SpdmResult = match c.usize(9) {
                    0 => fl.w.heartbeat(target),
                    1 => fl.w.update(target, 1),
                    2 => fl.w.update(target, 2),
                    3 => fl.w.end(target),
                    4 => fl.w.digest(Some(target)),
                    5 => fl.w.cert(Some(target), 0),
                    6 => fl.w.meas(Some(target), 0, false, 0xff).map(|_| ()),
                    7 => fl.w.vendor(Some(target), 1, &[], &[1, 2]).map(|_| ()),
                    _ => fl.w.app(target, &[1, 2, 3]).map(|_| ()),
                };
                c.label("operation");
                let sent = fl.w.log_len() - l;
                let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
                ensure!(
                    r.is_err() && sent == 0 && before == after,
                    "the requester uses an ended session",
                    "{:x}: {:?}, {} messages sent {}",
                    target,
                    r,
                    sent,
                    fl.ctx()
                );
            }
            _ => {
                // a record for the requester
                let ks = old_keys(&s);
                let k = c.pick(&ks)[1].clone();
                let f = if c.bool() || recorded.is_empty() {
                    let m = match c.usize(3) {
                        0 => vec![s.neg.ver, HEARTBEAT_ACK, 0, 0],
                        1 => vec![s.neg.ver, END_SESSION_ACK, 0, 0],
                        _ => vec![7; 30],
                    };
                    sealed(fl.g.tr, s.neg.aead, &k, target, k.seq, c.bool(), &m)
                } else {
                    c.pick(&recorded).1
                };
                c.label("received");
                let before = snap(&mut fl.w, Party::Req);
                fl.w.drain();
                fl.w.sh.borrow_mut().to_req.push_back(f);
                let mut b = vec![0u8; 4160];
                let r =
                    fl.w.rq(|r| r.receive_secured_message(target, &mut b, false));
                fl.w.drain();
                let after = snap(&mut fl.w, Party::Req);
                ensure!(
                    r.is_err() && before == after,
                    "the requester accepts a record of an ended session",
                    "{:x}: {:?} {}",
                    target,
                    r,
                    fl.ctx()
                );
            }
        }
    }
    // the others are as good as before
    for o in fl.w.open_sessions() {
        check_session(&mut fl, o)?;
        exchange_data(c, &mut fl, o)?;
    }
    Ok(())
}

/// A later session that gets the id of an ended one.
fn reuse(c: &mut Case) -> CaseResult {
    let n = c.range(1, 3);
    let (mut fl, ids) = opened(c, n)?;
    let h = c.range(0, 4);
    for _ in 0..h {
        let open = fl.w.open_sessions().len();
        let k = c.usize(open);
        let act = match op_in(c, &fl, k, false) {
            Act::End(_) => Act::Vendor(Some(k), 1, vec![], vec![5; 9]),
            a => a,
        };
        fl.must(act)?;
    }
    let id = c.pick(&ids);
    let old = seen(&mut fl, id)?;
    let recorded: Vec<Vec<u8>> = fl
        .w
        .log()
        .iter()
        .filter(|f| {
            f.from == Party::Req
                && matches!(wire::unframe(fl.g.tr, &f.sent), Some((true, r)) if wire::record_sid(r) == Some(id))
        })
        .map(|f| f.sent.clone())
        .collect();
    ender(c, &mut fl, id)?;
    let mut new = None;
    while fl.open() < 4 {
        let i = open_one(c, &mut fl)?;
        if i == id {
            new = Some(i);
            break;
        }
    }
    let id = match new {
        Some(i) => i,
        None => return Ok(()),
    };
    c.nontrivial();
    check_session(&mut fl, id)?;
    let now = seen(&mut fl, id)?;
    for i in 0..2 {
        ensure!(
            now.app[i].key != old.app[i].key && now.hs[i].key != old.hs[i].key,
            "a later session has the keys of an ended one",
            "{:x} {}",
            id,
            fl.ctx()
        );
    }
    let seq = keys_of(&mut fl.w, Party::Rsp, id).unwrap().0 .2;
    let rounds = c.range(1, 4);
    for _ in 0..rounds {
        let f = if c.bool() && !recorded.is_empty() {
            c.pick(&recorded)
        } else {
            let ks = old_keys(&old);
            let k = c.pick(&ks)[0].clone();
            let q = if c.bool() { seq } else { k.seq };
            let (app, m) = some_request(c, &fl);
            sealed(fl.g.tr, old.neg.aead, &k, id, q, app, &m)
        };
        let k0 = keys_of(&mut fl.w, Party::Rsp, id).unwrap();
        silent(&mut fl, &f, id, "a record of the former session")?;
        // put the position back: a refused record may have used it up
        if let Some(s) = fl.w.rsp.common.get_session_via_id(id) {
            s.set_request_direction_sequence_number(k0.0 .2);
        }
    }
    check_session(&mut fl, id)?;
    exchange_data(c, &mut fl, id)?;
    Ok(())
}

/// A session ends at the acknowledgement, and not before.
fn moment(c: &mut Case) -> CaseResult {
    let n = c.range(1, 3);
    let (mut fl, ids) = opened(c, n)?;
    let id = c.pick(&ids);
    let s = seen(&mut fl, id)?;
    let tr = fl.g.tr;
    let ver = s.neg.ver;
    let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
    let how = c.usize(8);
    let seed = c.u64();
    c.label(
        [
            "request altered",
            "request lost",
            "answer altered",
            "answer lost",
            "error answer",
            "other answer",
            "answer not sent",
            "malformed request",
        ][how],
    );
    let err = c.pick(&[1u8, 3, 4, 5, 7, 0x41, 0x42]);
    let other = c.pick(&[
        HEARTBEAT_ACK,
        KEY_UPDATE_ACK,
        DIGESTS,
        VENDOR_RSP,
        FINISH_RSP,
        VERSION,
    ]);
    let wrongver = c.bool();
    let rsp = match how {
        4 => Some(s.forge(tr, Party::Rsp, false, &[ver, ERROR, err, 0])),
        5 => Some(s.forge(
            tr,
            Party::Rsp,
            false,
            &if wrongver {
                [ver ^ 1, END_SESSION_ACK, 0, 0]
            } else {
                [ver, other, 0, 0]
            },
        )),
        _ => None,
    };
    let req = if how == 7 {
        let m: Vec<u8> = match c.usize(3) {
            0 => vec![ver, END_SESSION],
            1 => vec![ver, END_SESSION, 0],
            _ => vec![ver ^ 1, END_SESSION, 0, 0],
        };
        Some(s.forge(tr, Party::Req, false, &m))
    } else {
        None
    };
    if how == 6 {
        toy::with(|t| {
            t.faults = vec![Fault {
                party: Party::Rsp,
                op: if seed & 1 == 0 { Op::Send } else { Op::Encrypt },
                nth: 0,
                sticky: true,
            }];
            t.fault_armed = true;
            t.counts = Default::default();
        });
    }
    fl.w.set_mitm(Some(Box::new(move |p, _, b| {
        let mut c = Case::random(seed, false);
        let (_, r) = wire::unframe(tr, b).unwrap();
        let n = super::session::rec_len(tr, r);
        let mut r = r[..n].to_vec();
        match (how, p) {
            (0, Party::Req) | (2, Party::Rsp) => {
                let i = c.usize(r.len());
                r[i] ^= 1 << c.usize(8);
                vec![wire::frame(tr, true, &r)]
            }
            (1, Party::Req) | (3, Party::Rsp) => vec![],
            (4, Party::Rsp) | (5, Party::Rsp) => vec![rsp.clone().unwrap()],
            (7, Party::Req) => vec![req.clone().unwrap()],
            _ => vec![b.to_vec()],
        }
    })));
    let r = fl.w.end(id);
    toy::with(|t| t.faults.clear());
    fl.w.set_mitm(None);
    fl.w.drain();
    c.nontrivial();
    ensure!(
        r.is_err(),
        "a session is said to have ended without its acknowledgement",
        "{:x} case {} {}",
        id,
        how,
        fl.ctx()
    );
    let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
    // the requester holds on to it
    let q = after.0.iter().find(|x| x.0 == id).cloned();
    let q0 = before.0.iter().find(|x| x.0 == id).cloned().unwrap();
    ensure!(
        matches!(&q, Some(x) if x.1 == SpdmSessionStateN::Established
            && x.2.as_ref().map(|k| (&k.0 .0, &k.1 .0)) == q0.2.as_ref().map(|k| (&k.0 .0, &k.1 .0))),
        "the requester ends a session that was not acknowledged",
        "{:x} case {} {:?} {}",
        id,
        how,
        q,
        fl.ctx()
    );
    let s2 = after.1.iter().find(|x| x.0 == id).cloned();
    let acked = matches!(how, 2..=5);
    ensure!(
        s2.is_none() == acked,
        "the responder's session does not end exactly with its acknowledgement",
        "{:x} case {} {:?} {}",
        id,
        how,
        s2,
        fl.ctx()
    );
    ensure!(
        but(&before.0, Some(id)) == but(&after.0, Some(id))
            && but(&before.1, Some(id)) == but(&after.1, Some(id)),
        "ending a session changes another",
        "{:x} {}",
        id,
        fl.ctx()
    );
    tidy(&fl, Party::Rsp)?;
    // where both still have it at the same position it works and can be ended
    if shared_sessions(&mut fl.w).contains(&id) {
        c.label("goes on");
        let r = fl.w.vendor(Some(id), 0, &[], &[1, 2, 3]);
        ensure!(
            matches!(&r, Ok(x) if *x == [1, 2, 3]),
            "a session that was not ended is unusable",
            "{:x} case {} {}",
            id,
            how,
            fl.ctx()
        );
        let r = fl.w.end(id);
        ensure!(
            r.is_ok()
                && entry_of(&fl.w, Party::Req, id).is_none()
                && entry_of(&fl.w, Party::Rsp, id).is_none(),
            "a session cannot be ended",
            "{:?} {}",
            r,
            fl.ctx()
        );
    } else if how == 4 || how == 7 || how == 5 {
        // nothing was lost on the way to the requester
        let k = keys_of(&mut fl.w, Party::Req, id).unwrap();
        ensure!(
            k.1 .2 == s.app[1].seq + 1,
            "the answer did not use its position",
            "{} {}",
            k.1 .2,
            fl.ctx()
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn room(fl: &Flow, to: Party) -> usize {
    // 1.2 announces the size of one transfer
    let d = match to {
        Party::Rsp => fl.w.req.common.negotiate_info.rsp_data_transfer_size_sel,
        Party::Req => fl.w.rsp.common.negotiate_info.req_data_transfer_size_sel,
    } as usize;
    if d == 0 {
        4096
    } else {
        d.min(4096)
    }
}
fn gen_vendor(c: &mut Case) -> (u16, Vec<u8>, usize) {
    let id = if c.chance(1, 8) {
        c.below(65536) as u16
    } else {
        c.below(9) as u16
    };
    let k = if c.chance(1, 3) {
        c.len_biased(255)
    } else {
        c.range(0, 4)
    };
    let n = match c.weighted(&[4, 2, 2]) {
        0 => c.len_biased(300),
        1 => c.range(4087 - k.min(200), 4087),
        _ => c.usize(4088),
    };
    (id, c.blob(k), n)
}
pub fn moved2(a: &Snap, b: &Snap, id: Option<u32>, q: u64, s: u64) -> bool {
    // both counters of `id` may move
    if a.len() != b.len() {
        return false;
    }
    a.iter().zip(b).all(|(x, y)| {
        let mut x = x.clone();
        if Some(x.0) == id {
            if let (Some(k), Some(l)) = (&mut x.2, &y.2) {
                let d = |m: &mut u64, n: u64, by: u64| {
                    if n >= *m && n - *m <= by {
                        *m = n
                    }
                };
                d(&mut k.0 .2, l.0 .2, q);
                d(&mut k.1 .2, l.1 .2, s);
            }
        }
        x == *y
    })
}
fn is_vendor_rsp(m: &Msg, id: u16, vid: &[u8], pl: &[u8]) -> bool {
    match &m.p {
        Some(p) => {
            p.code == VENDOR_RSP
                && p.num(&m.bytes, "standard_id") == id as u64
                && p.get(&m.bytes, "vendor_id") == vid
                && p.get(&m.bytes, "payload") == pl
        }
        None => false,
    }
}
fn nego_of(w: &World) -> String {
    format!(
        "{:?} {:?} {:?}",
        w.req.common.negotiate_info,
        w.rsp.common.negotiate_info,
        w.rsp.common.runtime_info.get_connection_state()
    )
}

fn vendor_through(c: &mut Case) -> CaseResult {
    let n = c.range(0, 2);
    let (mut fl, _) = opened(c, n)?;
    let rounds = c.range(1, 4);
    for _ in 0..rounds {
        let open = fl.w.open_sessions();
        let s = if open.is_empty() || c.bool() {
            None
        } else {
            Some(c.pick(&open))
        };
        let (id, vid, n) = gen_vendor(c);
        let pl = c.blob(n);
        let reply = if c.bool() {
            None
        } else {
            let m = match c.weighted(&[4, 1]) {
                0 => c.len_biased(300),
                _ => c.usize(4088),
            };
            Some(c.blob(m))
        };
        toy::with(|t| t.vendor_reply = reply.iter().cloned().collect());
        let want = reply.clone().unwrap_or_else(|| pl.clone());
        let fits_req = 9 + vid.len() + pl.len() <= room(&fl, Party::Rsp);
        let fits_rsp = 9 + vid.len() + want.len() <= room(&fl, Party::Req);
        let l = toy::with(|t| t.vendor_log.len());
        let l0 = fl.w.log_len();
        let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let nego = nego_of(&fl.w);
        let r = fl.w.vendor(s, id, &vid, &pl);
        toy::with(|t| t.vendor_reply.clear());
        let got = toy::with(|t| t.vendor_log[l..].to_vec());
        let what = format!(
            "session {:x?} id {} vendor {} payload {} reply {}",
            s,
            id,
            vid.len(),
            pl.len(),
            want.len()
        );
        if fits_req {
            c.nontrivial();
            ensure!(
                got.len() == 1 && got[0] == pl,
                "vendor-defined request not delivered as sent",
                "{}: {:?}: {} calls, {} {}",
                what,
                r.is_ok(),
                got.len(),
                got.first().map(|x| x.len()).unwrap_or(0),
                fl.ctx()
            );
        } else {
            c.label("request too large");
            ensure!(
                got.is_empty() && r.is_err(),
                "vendor-defined request that does not fit is delivered",
                "{} {}",
                what,
                fl.ctx()
            );
        }
        if fits_req && fits_rsp {
            c.label(if s.is_some() {
                "in session"
            } else {
                "in clear"
            });
            ensure!(
                matches!(&r, Ok(x) if *x == want),
                "vendor-defined reply not returned as produced",
                "{}: {:?} {}",
                what,
                r.as_ref().map(|x| x.len()),
                fl.ctx()
            );
            fl.a.catch_up(&fl.w);
            let ok = match fl.a.msgs.last() {
                Some(m) => is_vendor_rsp(m, id, &vid, &want),
                None => false,
            };
            ensure!(
                ok,
                "vendor-defined reply names another registry or vendor",
                "{} {}",
                what,
                fl.ctx()
            );
        } else if fits_req {
            c.label("reply too large");
            ensure!(
                r.is_err(),
                "vendor-defined reply that does not fit is returned",
                "{} {}",
                what,
                fl.ctx()
            );
        }
        let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let sent = fl.w.log_len() > l0;
        ensure!(
            moved2(&before.0, &after.0, s, 1, 1)
                && moved2(&before.1, &after.1, s, 1, 1)
                && nego == nego_of(&fl.w),
            "a vendor-defined message disturbs the connection",
            "{}: {:?} -> {:?} {}",
            what,
            before,
            after,
            fl.ctx()
        );
        if s.is_some() && !sent {
            ensure!(
                before == after,
                "a vendor-defined request that was not sent uses a position",
                "{} {}",
                what,
                fl.ctx()
            );
        }
        fl.a.catch_up(&fl.w);
    }
    for id in fl.w.open_sessions() {
        check_session(&mut fl, id)?;
        exchange_data(c, &mut fl, id)?;
    }
    fl.clean(&["frame", "record", "format", "version", "pairing"])
}

fn vendor_handler(c: &mut Case) -> CaseResult {
    let n = c.range(0, 2);
    let (mut fl, _) = opened(c, n)?;
    let rounds = c.range(1, 4);
    for _ in 0..rounds {
        let open = fl.w.open_sessions();
        let s = if open.is_empty() || c.bool() {
            None
        } else {
            Some(c.pick(&open))
        };
        let n = c.len_biased(300);
        let pl = c.blob(n);
        let bad = c.chance(2, 3);
        toy::with(|t| t.vendor_fail = bad);
        let l = toy::with(|t| t.vendor_log.len());
        let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let nego = nego_of(&fl.w);
        let r = fl.w.vendor(s, c.below(9) as u16, &[1, 2], &pl);
        let calls = toy::with(|t| t.vendor_log.len()) - l;
        fl.a.catch_up(&fl.w);
        ensure!(calls == 1, "handler calls", "{} {}", calls, fl.ctx());
        if bad {
            c.nontrivial();
            let p = fl.a.msgs.last().and_then(|m| m.p.clone());
            ensure!(
                r.is_err() && matches!(&p, Some(p) if p.code == ERROR),
                "a failing vendor handler is not reported as an error",
                "{:?} {:?} {}",
                r.map(|x| x.len()),
                p.map(|p| p.code),
                fl.ctx()
            );
        } else {
            ensure!(
                matches!(&r, Ok(x) if *x == pl),
                "vendor-defined reply not returned as produced",
                "{}",
                fl.ctx()
            );
        }
        let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        ensure!(
            moved2(&before.0, &after.0, s, 1, 1)
                && moved2(&before.1, &after.1, s, 1, 1)
                && nego == nego_of(&fl.w),
            "a vendor-defined message disturbs the connection",
            "{:?} -> {:?} {}",
            before,
            after,
            fl.ctx()
        );
    }
    toy::with(|t| t.vendor_fail = false);
    for id in fl.w.open_sessions() {
        check_session(&mut fl, id)?;
        exchange_data(c, &mut fl, id)?;
    }
    fl.clean(&["frame", "record", "format", "version", "pairing"])
}

/// The payload a vendor-defined message carries, by the specification.
fn vendor_of(ver: u8, m: &[u8]) -> Option<(u16, Vec<u8>, Vec<u8>)> {
    if m.len() < 9 || m[0] != ver {
        return None;
    }
    let id = u16::from_le_bytes([m[4], m[5]]);
    let k = m[6] as usize;
    let l = m.get(7 + k..9 + k)?;
    let n = u16::from_le_bytes([l[0], l[1]]) as usize;
    if n > 4087 {
        return None;
    }
    Some((id, m[7..7 + k].to_vec(), m.get(9 + k..9 + k + n)?.to_vec()))
}
/// A vendor-defined message with freely chosen lengths.
fn odd_vendor(c: &mut Case, ver: u8, code: u8) -> Vec<u8> {
    let k = c.len_biased(40);
    let n = match c.weighted(&[5, 1]) {
        0 => c.len_biased(120),
        _ => c.range(3900, 4087 - k),
    };
    let mut m = vendor_msg(ver, c.below(9) as u16, &c.blob(k), &c.blob(n));
    m[1] = code;
    match c.weighted(&[3, 3, 2, 2, 2, 1, 1]) {
        0 => {}
        1 => {
            let d = match c.usize(3) {
                0 => n + 1 + c.usize(8),
                1 => c.pick(&[4087usize, 4088, 4096, 0x7fff, 0xffff, 0x1000]),
                _ => c.usize(n + 1),
            };
            m[7 + k..9 + k].copy_from_slice(&(d as u16).to_le_bytes());
        }
        2 => m[6] = c.byte(),
        3 => {
            let l = c.usize(m.len());
            m.truncate(l.max(2));
        }
        4 => {
            let x = c.range(1, 9);
            m.extend(c.blob(x));
        }
        5 => m[0] = c.pick(&[0x10u8, 0x11, 0x12, 0x13, 0]),
        _ => {
            m[2] = c.byte();
            m[3] = c.byte();
        }
    }
    m
}

fn vendor_requests(c: &mut Case) -> CaseResult {
    let n = c.range(0, 2);
    let (mut fl, _) = opened(c, n)?;
    let tr = fl.g.tr;
    // one session in its handshake as well
    let mut hand = None;
    if fl.f.kex && !fl.f.clear && fl.open() < 3 && c.bool() {
        let slot = c.pick(&fl.f.slots);
        let r =
            fl.w.rq(|r| r.send_receive_spdm_key_exchange(slot, summary(0)));
        fl.a.catch_up(&fl.w);
        hand = r.ok();
    }
    let rounds = c.range(2, 6);
    for _ in 0..rounds {
        let ver = fl.a.neg.ver;
        let open = fl.w.open_sessions();
        let s = match c.usize(3) {
            0 if !open.is_empty() => Some(c.pick(&open)),
            1 if hand.is_some() => hand,
            _ => None,
        };
        let m = odd_vendor(c, ver, VENDOR_REQ);
        let f = match s {
            Some(id) => seen(&mut fl, id)?.forge(tr, Party::Req, false, &m),
            None => wire::frame(tr, false, &m),
        };
        // what the responder gets to see, padding included
        let msg = match s {
            Some(_) => m.clone(),
            None => wire::unframe(tr, &f).unwrap().1.to_vec(),
        };
        let fit = msg.len() <= 4096;
        let before = snap(&mut fl.w, Party::Rsp);
        let nego = nego_of(&fl.w);
        let l = toy::with(|t| t.vendor_log.len());
        let ret = inject(&mut fl, &f);
        let got = toy::with(|t| t.vendor_log[l..].to_vec());
        let ans = fl.a.msgs.last().filter(|m| m.from == Party::Rsp).cloned();
        let what = format!(
            "session {:x?} {} bytes {}",
            s,
            m.len(),
            hex(&m[..m.len().min(60)])
        );
        c.nontrivial();
        if !fit {
            // beyond the largest message: delivered or not
            continue;
        }
        match vendor_of(ver, &msg) {
            Some((id, vid, pl)) => {
                c.label("well-formed");
                ensure!(
                    got.len() == 1 && got[0] == pl,
                    "vendor-defined request not delivered as sent",
                    "{}: {:?} {}",
                    what,
                    got.iter().map(|x| x.len()).collect::<Vec<_>>(),
                    fl.ctx()
                );
                let big = 9 + vid.len() + pl.len() > room(&fl, Party::Req);
                ensure!(
                    matches!(&ans, Some(m) if is_vendor_rsp(m, id, &vid, &pl)
                        || big && m.bytes.get(1) == Some(&ERROR)),
                    "vendor-defined request not answered by its reply",
                    "{}: {:?} {}",
                    what,
                    ret.sent
                        .iter()
                        .map(|x| hex(&x[..x.len().min(40)]))
                        .collect::<Vec<_>>(),
                    fl.ctx()
                );
            }
            None => {
                c.label("malformed");
                ensure!(
                    got.is_empty(),
                    "a malformed vendor-defined request is delivered",
                    "{} {}",
                    what,
                    fl.ctx()
                );
                let ok = match &ans {
                    Some(a) => {
                        a.bytes.len() >= 4
                            && a.bytes[1] == ERROR
                            && (a.bytes[2] == 1 || a.bytes[2] == 0x41)
                    }
                    None => msg.len() < 2,
                };
                ensure!(
                    ok,
                    "a malformed vendor-defined request is not answered by an error",
                    "{}: {:?} {}",
                    what,
                    ret.sent
                        .iter()
                        .map(|x| hex(&x[..x.len().min(40)]))
                        .collect::<Vec<_>>(),
                    fl.ctx()
                );
            }
        }
        let after = snap(&mut fl.w, Party::Rsp);
        ensure!(
            moved2(&before, &after, s, 1, 1) && nego == nego_of(&fl.w),
            "a vendor-defined message disturbs the connection",
            "{} {:?} -> {:?} {}",
            what,
            before,
            after,
            fl.ctx()
        );
    }
    Ok(())
}

fn vendor_responses(c: &mut Case) -> CaseResult {
    let n = c.range(0, 2);
    let (mut fl, _) = opened(c, n)?;
    let tr = fl.g.tr;
    let rounds = c.range(1, 4);
    for _ in 0..rounds {
        let ver = fl.a.neg.ver;
        let open = fl.w.open_sessions();
        let s = if !open.is_empty() && c.bool() {
            Some(c.pick(&open))
        } else {
            None
        };
        let m = odd_vendor(c, ver, VENDOR_RSP);
        let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
        let m2 = m.clone();
        tap::tap(&fl.w, &a, move |a, p, x, _| {
            if p == Party::Rsp {
                Some(vec![tap::reframe(a, x?, &m2)])
            } else {
                None
            }
        });
        let msg = match s {
            Some(_) => m.clone(),
            None => wire::unframe(tr, &wire::frame(tr, false, &m))
                .unwrap()
                .1
                .to_vec(),
        };
        let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let nego = nego_of(&fl.w);
        let r = fl.w.vendor(s, 3, &[1, 2], &[1, 2, 3]);
        fl.w.set_mitm(None);
        fl.w.drain();
        fl.a = a.borrow().clone();
        c.nontrivial();
        let what = format!(
            "session {:x?} answer of {} bytes {}",
            s,
            m.len(),
            hex(&m[..m.len().min(60)])
        );
        match vendor_of(ver, &msg) {
            Some((_, _, pl)) if msg.len() <= 4096 => {
                c.label("well-formed");
                ensure!(
                    matches!(&r, Ok(x) if *x == pl),
                    "vendor-defined reply not returned as produced",
                    "{}: {:?} {}",
                    what,
                    r.as_ref().map(|x| x.len()),
                    fl.ctx()
                );
            }
            Some(_) => {}
            None => {
                c.label("malformed");
                ensure!(
                    r.is_err(),
                    "a malformed vendor-defined reply is taken for success",
                    "{}: {:?} {}",
                    what,
                    r.map(|x| x.len()),
                    fl.ctx()
                );
            }
        }
        let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        ensure!(
            moved2(&before.0, &after.0, s, 1, 1)
                && moved2(&before.1, &after.1, s, 1, 1)
                && nego == nego_of(&fl.w),
            "a vendor-defined message disturbs the connection",
            "{} {:?} -> {:?} {}",
            what,
            before,
            after,
            fl.ctx()
        );
    }
    for id in fl.w.open_sessions() {
        check_session(&mut fl, id)?;
        exchange_data(c, &mut fl, id)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

/// Application bytes of any kind, SPDM messages and records among them.
fn app_data(c: &mut Case, fl: &Flow, max: usize) -> Vec<u8> {
    let ver = fl.a.neg.ver;
    match c.weighted(&[5, 3, 1, 1]) {
        0 => {
            let n = match c.weighted(&[4, 2, 1]) {
                0 => c.len_biased(300),
                1 => c.range(max.saturating_sub(40), max),
                _ => c.usize(max + 1),
            };
            c.blob(n)
        }
        1 => {
            let code = c.pick(&[
                END_SESSION,
                KEY_UPDATE,
                HEARTBEAT,
                ERROR,
                GET_VERSION,
                FINISH,
                VENDOR_REQ,
                END_SESSION_ACK,
                GET_DIGESTS,
                KEY_UPDATE_ACK,
            ]);
            let mut v = vec![ver, code, c.range(0, 6) as u8, c.byte()];
            let n = c.len_biased(30);
            v.extend(c.blob(n));
            v
        }
        2 => {
            let l = fl.w.log();
            let f = &l[c.usize(l.len())];
            f.sent[..f.sent.len().min(max)].to_vec()
        }
        _ => vec![c.pick(&[0u8, 1, 5, 6, 0xff]); c.range(1, 40)],
    }
}
fn mctp_cfg(c: &mut Case) -> Cfg {
    let mut g = sess_cfg(c);
    g.tr = Tr::Mctp;
    g
}

fn app_through(c: &mut Case) -> CaseResult {
    let g = mctp_cfg(c);
    let n = c.range(1, 3);
    let (mut fl, _) = opened_with(c, g, n)?;
    let k = c.len_biased(40);
    let aux = c.blob(k);
    fl.w.sh.borrow_mut().aux = aux.clone();
    let rounds = c.range(1, 5);
    for _ in 0..rounds {
        let open = fl.w.open_sessions();
        let id = c.pick(&open);
        let m = app_data(c, &fl, 4096);
        let reply = app_data(c, &fl, 4096);
        toy::with(|t| t.app_reply = vec![reply.clone()]);
        let l = toy::with(|t| (t.app_log.len(), t.vendor_log.len()));
        let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let nego = nego_of(&fl.w);
        let r = fl.w.app(id, &m);
        fl.a.catch_up(&fl.w);
        let got = toy::with(|t| t.app_log[l.0..].to_vec());
        c.nontrivial();
        let what = format!(
            "session {:x}: {} bytes {} reply {} bytes {}",
            id,
            m.len(),
            hex(&m[..m.len().min(12)]),
            reply.len(),
            hex(&reply[..reply.len().min(12)])
        );
        ensure!(
            got.len() == 1 && got[0].session == id && got[0].data == m && got[0].aux == aux,
            "application message not delivered as sent",
            "{}: {} calls {:?} {}",
            what,
            got.len(),
            got.first().map(|g| (g.session, g.data.len())),
            fl.ctx()
        );
        ensure!(
            matches!(&r, Ok(x) if *x == reply),
            "application reply not returned as produced",
            "{}: {:?} {}",
            what,
            r.as_ref().map(|x| x.len()),
            fl.ctx()
        );
        let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        ensure!(
            moved2(&before.0, &after.0, Some(id), 1, 1)
                && moved2(&before.1, &after.1, Some(id), 1, 1)
                && nego == nego_of(&fl.w)
                && l.1 == toy::with(|t| t.vendor_log.len()),
            "an application message disturbs the connection",
            "{}: {:?} -> {:?} {}",
            what,
            before,
            after,
            fl.ctx()
        );
        if fl.f.upd && c.chance(1, 4) {
            let p = open.iter().position(|x| *x == id).unwrap();
            fl.must(Act::Update(p, c.range(1, 2) as u8))?;
        }
    }
    for id in fl.w.open_sessions() {
        check_session(&mut fl, id)?;
    }
    fl.clean(&[])
}

/// Application data is taken in established sessions only.
fn app_states(c: &mut Case) -> CaseResult {
    let mut g = mctp_cfg(c);
    g.req.caps &= !RQ_MUT;
    g.rsp.caps &= !RS_MUT;
    let n = c.range(0, 2);
    let (mut fl, _) = opened_with(c, g, n)?;
    let tr = fl.g.tr;
    let psk = if fl.f.kex && fl.f.psk {
        c.bool()
    } else {
        fl.f.psk
    };
    if psk && fl.g.rsp.caps & RS_PSK_NOCTX != 0 {
        return Ok(());
    }
    let r = if psk {
        let h = hint(&[1, 2]);
        fl.w.rq(|r| r.send_receive_spdm_psk_exchange(summary(0), Some(&h)))
    } else {
        let slot = c.pick(&fl.f.slots);
        fl.w.rq(|r| r.send_receive_spdm_key_exchange(slot, summary(0)))
    };
    fl.a.catch_up(&fl.w);
    let id = match r {
        Ok(i) => i,
        Err(e) => {
            return fail(
                "honest session start fails",
                format!("{:?} {}", e, fl.ctx()),
            )
        }
    };
    let s = seen(&mut fl, id)?;
    c.nontrivial();
    let l = toy::with(|t| t.app_log.len());
    let before = snap(&mut fl.w, Party::Rsp);
    let rounds = c.range(1, 3);
    let mut used = 0;
    for _ in 0..rounds {
        let m = app_data(c, &fl, 300);
        let d = &s.hs[0];
        let f = sealed(tr, s.neg.aead, d, id, d.seq + used, true, &m);
        used += 1;
        let ret = give(&mut fl.w, &f);
        ensure!(
            ret.sent.is_empty() && toy::with(|t| t.app_log.len()) == l,
            "application data is accepted before the session is established",
            "{:x} {} {}",
            id,
            hex(&m[..m.len().min(20)]),
            fl.ctx()
        );
    }
    ensure!(
        before == snap(&mut fl.w, Party::Rsp),
        "application data changes a session in its handshake",
        "{}",
        fl.ctx()
    );
    // the requester produces its finish at the position that is due
    let late = c.bool();
    let clear = fl.f.clear && !psk;
    if !clear {
        let hold: Rc<RefCell<Vec<u8>>> = Rc::default();
        let (aead, d) = (s.neg.aead, s.hs[0].clone());
        let h2 = hold.clone();
        fl.w.set_mitm(Some(Box::new(move |p, _, b| {
            if p == Party::Req {
                // move the record to where the responder is
                let (_, r) = wire::unframe(tr, b).unwrap();
                let n = super::session::rec_len(tr, r);
                if let Ok(x) = wire::open_record(tr, aead, &d.key, &d.iv, id, d.seq, &r[..n]) {
                    let f = wire::frame(
                        tr,
                        true,
                        &wire::seal_record(tr, aead, &d.key, &d.iv, id, d.seq + used, &x),
                    );
                    *h2.borrow_mut() = f.clone();
                    return vec![f];
                }
            }
            vec![b.to_vec()]
        })));
    }
    let r = if psk {
        fl.w.rq(|r| r.send_receive_spdm_psk_finish(id))
    } else {
        fl.w.rq(|r| r.send_receive_spdm_finish(None, id))
    };
    fl.w.set_mitm(None);
    ensure!(
        r.is_ok(),
        "application data in the handshake breaks it",
        "{:?} {}",
        r,
        fl.ctx()
    );
    // now it is taken
    let m = app_data(c, &fl, 300);
    toy::with(|t| t.app_reply = vec![]);
    let r = fl.w.app(id, &m);
    ensure!(
        matches!(&r, Ok(x) if *x == m),
        "application data is not taken in an established session",
        "{:?} {}",
        r.map(|x| x.len()),
        fl.ctx()
    );
    if late {
        // the handshake keys are of no use any more
        let d = &s.hs[0];
        let l = toy::with(|t| t.app_log.len());
        let f = sealed(tr, s.neg.aead, d, id, d.seq + used, true, &m);
        let ret = give(&mut fl.w, &f);
        ensure!(
            ret.sent.is_empty() && toy::with(|t| t.app_log.len()) == l,
            "application data under handshake keys is accepted",
            "{}",
            fl.ctx()
        );
    }
    Ok(())
}

fn app_contained(c: &mut Case) -> CaseResult {
    let g = mctp_cfg(c);
    let n = c.range(1, 3);
    let (mut fl, _) = opened_with(c, g, n)?;
    let rounds = c.range(1, 4);
    let mut well: Vec<u32> = fl.w.open_sessions();
    for _ in 0..rounds {
        if well.is_empty() {
            break;
        }
        let id = c.pick(&well);
        let before = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        let nego = nego_of(&fl.w);
        let l = toy::with(|t| t.app_log.len());
        let l0 = fl.w.log_len();
        let how = c.usize(2);
        c.label(["handler fails", "too large"][how]);
        let m = if how == 0 {
            app_data(c, &fl, 4096)
        } else {
            let n = match c.weighted(&[3, 1]) {
                0 => c.range(4097, 4170),
                _ => c.range(4097, 9000),
            };
            c.blob(n)
        };
        toy::with(|t| t.app_fail = how == 0);
        let r = fl.w.app(id, &m);
        toy::with(|t| t.app_fail = false);
        fl.w.drain();
        fl.a.catch_up(&fl.w);
        c.nontrivial();
        let calls = toy::with(|t| t.app_log.len()) - l;
        ensure!(
            r.is_err() && calls == if how == 0 { 1 } else { 0 },
            "an application message that fails is taken for success or delivered",
            "{} bytes: {:?} {} calls {}",
            m.len(),
            r.map(|x| x.len()),
            calls,
            fl.ctx()
        );
        let log = fl.w.log();
        ensure!(
            !log[l0..].iter().any(|f| f.from == Party::Rsp),
            "a failed application message is answered",
            "{} bytes {}",
            m.len(),
            fl.ctx()
        );
        let after = (snap(&mut fl.w, Party::Req), snap(&mut fl.w, Party::Rsp));
        ensure!(
            moved2(&before.0, &after.0, Some(id), 1, 0)
                && moved2(&before.1, &after.1, Some(id), 1, 0)
                && nego == nego_of(&fl.w),
            "a failed application message disturbs the connection",
            "{} bytes: {:?} -> {:?} {}",
            m.len(),
            before,
            after,
            fl.ctx()
        );
        // a message that could not be sent may cost the session its position
        if !shared_sessions(&mut fl.w).contains(&id) {
            ensure!(
                how == 1,
                "a failing application handler breaks the session",
                "{}",
                fl.ctx()
            );
            well.retain(|x| *x != id);
        }
    }
    for id in well {
        let m = app_data(c, &fl, 4096);
        toy::with(|t| t.app_reply = vec![]);
        let r = fl.w.app(id, &m);
        ensure!(
            matches!(&r, Ok(x) if *x == m),
            "a session is unusable after a failed application message",
            "{:x} {:?} {}",
            id,
            r.map(|x| x.len()),
            fl.ctx()
        );
    }
    Ok(())
}
