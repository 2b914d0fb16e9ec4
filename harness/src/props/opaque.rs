//! C29 secured-message version selection through opaque data.

use super::codec::{element, enc_list, gen_version_list, sec_header};
use super::rec::{open_one, sess_cfg};
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::tap;
use crate::toy::{self, Party};
use crate::wire::{self, code::*};
use crate::world::*;
use codec::{Codec, Reader, Writer};
use spdmlib::common::opaque::*;
use spdmlib::common::spdm_codec::SpdmCodec;
use spdmlib::protocol::SpdmVersion;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "agree: the two sides' version sets differ from the default; offer, selection: the opaque data of the exchange was replaced and reached the other side; lists: more than one element or an irregular encoding",
        level: "exploration",
        assumptions: &["toy cryptography: altered answers are signed again as their sender would"],
        subs: vec![
            Sub { name: "agree", f: agree, quick: 8000, thorough: 400_000 },
            Sub { name: "offer", f: offer, quick: 8000, thorough: 400_000 },
            Sub { name: "selection", f: selection, quick: 8000, thorough: 400_000 },
            Sub { name: "lists", f: lists, quick: 40_000, thorough: 2_000_000 },
        ],
    }]
}

/// What an opaque data field says, read strictly: the general header, one
/// element with the DMTF's header, exact lengths, zero padding, nothing more.
#[derive(Debug, Clone, PartialEq)]
enum Said {
    Offer(Vec<(u8, u8)>),
    Choice((u8, u8)),
    Else,
}
fn strict(ver: u8, b: &[u8]) -> Said {
    let head = sec_header(ver, 1);
    if !b.starts_with(&head) {
        return Said::Else;
    }
    let e = &b[head.len()..];
    if e.len() < 6 || e.len() % 4 != 0 || e[0] != 0 || e[1] != 0 {
        return Said::Else;
    }
    let n = u16::from_le_bytes([e[2], e[3]]) as usize;
    let end = 4 + n;
    if end > e.len() || e.len() - end > 3 || e[end..].iter().any(|x| *x != 0) || n < 2 || e[4] != 1
    {
        return Said::Else;
    }
    let d = &e[6..end];
    match e[5] {
        0 if d.len() == 2 => Said::Choice((d[0], d[1])),
        1 if !d.is_empty() && d.len() == 1 + 2 * d[0] as usize => {
            Said::Offer(d[1..].chunks(2).map(|x| (x[0], x[1])).collect())
        }
        _ => Said::Else,
    }
}

fn versions(s: &[u8; 2]) -> Vec<u8> {
    s.iter().copied().filter(|x| *x != 0).collect()
}
fn gen_secver(c: &mut Case, usable: bool) -> [u8; 2] {
    let p: &[[u8; 2]] = if usable {
        &[
            [0x10, 0x11],
            [0x11, 0x10],
            [0x11, 0],
            [0, 0x10],
            [0x10, 0x10],
            [0x10, 0x12],
            [0x20, 0x11],
        ]
    } else {
        &[[0, 0], [0x12, 0], [0x13, 0x12], [0x20, 0x01], [0xff, 0xf0]]
    };
    c.pick(p)
}
fn psk_of(a: &Act) -> bool {
    matches!(a, Act::Psk(..))
}
fn opener(c: &mut Case, fl: &Flow) -> Act {
    let sum = if fl.f.meas {
        c.pick(&[0u8, 1, 0xff])
    } else {
        0
    };
    if fl.f.psk && (!fl.f.kex || c.bool()) {
        let n = c.range(0, 32);
        Act::Psk(sum, c.blob(n))
    } else {
        Act::Ke(c.pick(&fl.f.slots), sum)
    }
}
fn codes(psk: bool) -> (u8, u8) {
    if psk {
        (PSK_EXCHANGE, PSK_EXCHANGE_RSP)
    } else {
        (KEY_EXCHANGE, KEY_EXCHANGE_RSP)
    }
}
fn opaque_of(a: &Audit, m: &[u8]) -> Option<Vec<u8>> {
    let p = wire::parse(m, &a.px()).ok()?;
    p.find("opaque_len")?;
    Some(p.get(m, "opaque").to_vec())
}
fn with_opaque(a: &Audit, m: &[u8], o: &[u8]) -> Option<Vec<u8>> {
    let p = wire::parse(m, &a.px()).ok()?;
    let (l, f) = (p.find("opaque_len")?, p.find("opaque")?);
    let mut v = m.to_vec();
    v.splice(f.off..f.off + f.len, o.iter().copied());
    v[l.off..l.off + 2].copy_from_slice(&(o.len() as u16).to_le_bytes());
    Some(v)
}
fn selected(w: &World) -> (Vec<(u32, u8)>, Vec<(u32, u8)>) {
    let l = |c: &spdmlib::common::SpdmContext| {
        let mut v: Vec<(u32, u8)> = c
            .session
            .iter()
            .filter(|s| s.get_session_id() != spdmlib::common::INVALID_SESSION_ID)
            .map(|s| (s.get_session_id(), s.secure_spdm_version_sel))
            .collect();
        v.sort();
        v
    };
    (l(&w.req.common), l(&w.rsp.common))
}

/// Earlier sessions go on, and a new one can be opened.
fn goes_on(c: &mut Case, fl: &mut Flow, ids: &[u32]) -> CaseResult {
    fl.w.set_mitm(None);
    fl.w.drain();
    for (i, id) in ids.iter().enumerate() {
        let r = fl.w.act(&Act::Vendor(Some(i), 1, vec![1], c.blob(3)));
        ensure!(
            matches!(r, Some(Ok(_))),
            "an earlier session no longer works",
            "{:x} {:?} {}",
            id,
            r,
            fl.ctx()
        );
    }
    let a = opener(c, fl);
    let r = fl.w.act(&a);
    ensure!(
        matches!(r, Some(Ok(_))),
        "no session can be started afterwards",
        "{:?} {:?} {}",
        a,
        r,
        fl.ctx()
    );
    Ok(())
}

/// Both sides honest, each with its own set of versions.
fn agree(c: &mut Case) -> CaseResult {
    let mut g = sess_cfg(c);
    g.req.secver = [0x10, 0x11];
    if c.chance(1, 3) {
        g.req.secver = gen_secver(c, true);
    }
    let usable = c.chance(3, 4);
    g.rsp.secver = if c.chance(1, 4) {
        [c.byte(), c.byte()]
    } else {
        gen_secver(c, usable)
    };
    let plain = g.req.secver == [0x10, 0x11];
    let local = versions(&g.rsp.secver);
    let mut fl = Flow::new(c, g.clone());
    fl.connect()?;
    if !plain || g.rsp.secver != [0x10, 0x11] {
        c.nontrivial();
    }
    for _ in 0..c.range(1, 3) {
        let act = opener(c, &fl);
        let (qc, rc) = codes(psk_of(&act));
        let n = fl.a.msgs.len();
        fl.hist.push(act.clone());
        let (q0, s0) = (fl.w.req_sessions(), fl.w.rsp_sessions());
        let r = fl.w.act(&act);
        fl.a.catch_up(&fl.w);
        let ver = fl.a.neg.ver;
        let of = |code: u8| {
            fl.a.msgs[n..]
                .iter()
                .find(|m| m.bytes.get(1) == Some(&code))
                .and_then(|m| opaque_of(&fl.a, &m.bytes))
        };
        let offer = match of(qc) {
            Some(o) => o,
            None => return fail("no offer", format!("{:?} {:?} {}", act, r, fl.ctx())),
        };
        let list = match strict(ver, &offer) {
            Said::Offer(l) => l,
            x => {
                return fail(
                    "the offer is malformed",
                    format!("{:?} {} {}", x, hex(&offer), fl.ctx()),
                )
            }
        };
        let mut mine: Vec<u8> = list.iter().map(|x| x.1).collect();
        mine.sort();
        ensure!(
            !mine.is_empty()
                && mine.iter().all(|x| [0x10, 0x11].contains(x))
                && (!plain || mine == [0x10, 0x11]),
            "the offer is not what the requester supports",
            "{:x?} {}",
            list,
            fl.ctx()
        );
        let common: Vec<u8> = mine.iter().copied().filter(|x| local.contains(x)).collect();
        if common.is_empty() {
            c.label("none in common");
            ensure!(
                matches!(r, Some(Err(_))),
                "a session was started without a common version",
                "{:?} {}",
                r,
                fl.ctx()
            );
            ensure!(
                (fl.w.req_sessions(), fl.w.rsp_sessions()) == (q0, s0),
                "a failed start left a session",
                "{:x?} {:x?} {}",
                fl.w.req_sessions(),
                fl.w.rsp_sessions(),
                fl.ctx()
            );
            ensure!(
                of(rc).is_none(),
                "an answer without a common version",
                "{}",
                fl.ctx()
            );
            continue;
        }
        c.label(if common.len() == 1 {
            "one in common"
        } else {
            "two in common"
        });
        let id = match r {
            Some(Ok(Out::Session(id))) => id,
            x => {
                return fail(
                    "session start fails although a version is common",
                    format!("{:?} {}", x, fl.ctx()),
                )
            }
        };
        let choice = match of(rc).map(|o| (strict(ver, &o), o)) {
            Some((Said::Choice(v), _)) => v,
            x => return fail("the choice is malformed", format!("{:?} {}", x, fl.ctx())),
        };
        ensure!(
            choice.0 == 0 && common.contains(&choice.1),
            "the choice is not a common version",
            "{:x?} of {:x?} {}",
            choice,
            common,
            fl.ctx()
        );
        let (q, s) = selected(&fl.w);
        ensure!(
            q.contains(&(id, choice.1)) && s.contains(&(id, choice.1)),
            "the sides do not hold the chosen version",
            "{:x?} {:x?} {:x?} {}",
            choice,
            q,
            s,
            fl.ctx()
        );
    }
    let o = fl.open();
    for i in 0..o {
        fl.must(Act::Vendor(Some(i), 2, vec![], vec![1, 2]))?;
    }
    fl.clean(&[])?;
    Ok(())
}

/// An opaque data field around an offer or a choice, regular or not.
fn gen_opaque(c: &mut Case, ver: u8, choice: bool) -> Vec<u8> {
    let v = |c: &mut Case| {
        let lo = if c.chance(1, 4) { c.byte() } else { 0 };
        (
            lo,
            c.pick(&[0x10u8, 0x11, 0x11, 0x12, 0x20, 0x01, 0x00, 0x91]),
        )
    };
    let body = |c: &mut Case| -> Vec<u8> {
        if choice {
            let x = v(c);
            vec![1, 0, x.0, x.1]
        } else {
            let n = c.range(1, 2);
            let l: Vec<(u8, u8)> = (0..n).map(|_| v(c)).collect();
            let mut b = vec![1, 1];
            b.extend(enc_list(&l));
            b
        }
    };
    let el = body(c);
    let mut b = sec_header(ver, 1);
    let h = b.len();
    b.extend(element(&el));
    match c.weighted(&[10, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1]) {
        0 => {}
        // the general header of the other format
        1 => {
            b = sec_header(if ver >= 0x12 { 0x11 } else { 0x12 }, 1);
            b.extend(element(&el));
        }
        // number of elements
        2 => {
            let i = if ver >= 0x12 { 0 } else { 5 };
            b[i] = c.pick(&[0u8, 2, 3, 4, 0x81, 0xff]);
        }
        // any byte of the headers
        3 => {
            let i = c.usize(h + 6);
            b[i] ^= 1 << c.below(8);
        }
        // element length
        4 => {
            let d = c.pick(&[-7i32, -2, -1, 1, 2, 3, 1000]);
            let l = (el.len() as i32 + d) as u16;
            b[h + 2..h + 4].copy_from_slice(&l.to_le_bytes());
        }
        // a vendor's element
        5 => {
            let id = c.byte();
            let n = c.range(0, 16);
            let mut e = vec![id, n as u8];
            e.extend(c.blob(n));
            e.extend(&b[h + 2..]);
            b.truncate(h);
            b.extend(e);
        }
        // more than one element
        6 => {
            let n = c.range(2, 4);
            b = sec_header(ver, n as u8);
            for _ in 0..n {
                let x = body(c);
                b.extend(element(&x));
            }
        }
        // the other kind of element
        7 => {
            let e: Vec<u8> = if choice {
                vec![1, 1, 1, 0, 0x11]
            } else {
                vec![1, 0, 0, 0x11]
            };
            b.truncate(h);
            b.extend(element(&e));
        }
        // the list's own count
        8 if !choice => b[h + 6] = c.pick(&[0u8, 1, 2, 3, 4, 0xff]),
        8 => {
            let n = c.range(0, 3);
            b.truncate(b.len() - n - 1);
        }
        9 => {
            let n = c.usize(b.len());
            b.truncate(n);
        }
        10 => {
            let n = c.range(1, 60);
            b.extend(c.blob(n));
        }
        11 => {
            let n = c.len_biased(200);
            b = c.blob(n);
        }
        12 => b.clear(),
        // a long list, and the largest field
        _ => {
            let n = c.range(3, 40);
            let l: Vec<(u8, u8)> = (0..n).map(|_| v(c)).collect();
            let mut e = vec![1, 1];
            e.extend(enc_list(&l));
            b.truncate(h);
            b.extend(element(&e));
            if c.bool() {
                b.resize(c.pick(&[1024usize, 1023, 1020]), 0);
            }
        }
    }
    b
}

fn flow_up(c: &mut Case) -> Result<(Flow, Vec<u32>), Failure> {
    let mut g = sess_cfg(c);
    g.req.secver = [0x10, 0x11];
    g.rsp.secver = gen_secver(c, true);
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let mut ids = vec![];
    for _ in 0..c.weighted(&[3, 2, 1]) {
        ids.push(open_one(c, &mut fl)?);
    }
    Ok((fl, ids))
}

/// Opaque data of any sort reaches the responder.
fn offer(c: &mut Case) -> CaseResult {
    let (mut fl, ids) = flow_up(c)?;
    let act = opener(c, &fl);
    let (qc, rc) = codes(psk_of(&act));
    let ver = fl.a.neg.ver;
    let o = gen_opaque(c, ver, false);
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    let answers: Rc<RefCell<Vec<Vec<u8>>>> = Rc::default();
    let hit = Rc::new(Cell::new(false));
    let (n2, h2, o2) = (answers.clone(), hit.clone(), o.clone());
    let summary = match &act {
        Act::Psk(s, _) | Act::Ke(_, s) => *s,
        _ => 0,
    };
    tap::tap(&fl.w, &a, move |a, p, m, _| {
        let m = m?;
        if p == Party::Req && m.bytes.get(1) == Some(&qc) {
            let v = with_opaque(a, &m.bytes, &o2)?;
            // what the requester itself would have said
            if v == m.bytes {
                return None;
            }
            h2.set(true);
            return Some(vec![wire::frame(a.tr, false, &v)]);
        }
        if p == Party::Rsp && h2.get() && n2.borrow().is_empty() {
            n2.borrow_mut().push(m.bytes.clone());
        }
        None
    });
    let (q0, s0) = (fl.w.req_sessions(), selected(&fl.w).1);
    fl.hist.push(act.clone());
    let r = fl.w.act(&act);
    fl.w.set_mitm(None);
    if !hit.get() {
        return Ok(());
    }
    c.nontrivial();
    let local = versions(&fl.g.rsp.secver);
    let said = strict(ver, &o);
    let ans = answers.borrow().first().cloned();
    let s1 = selected(&fl.w).1;
    let ctx = |x: &str| {
        format!(
            "{} opaque {} {:x?} local {:x?} answer {:?} {:x?} -> {:x?} {:?} {}",
            x,
            hex(&o),
            said,
            local,
            ans.as_ref().map(|x| hex(x)),
            s0,
            s1,
            r,
            fl.ctx()
        )
    };
    let ans = match &ans {
        Some(a) => a.clone(),
        None => return fail("no answer to an offer", ctx("")),
    };
    let chosen = if ans.get(1) == Some(&rc) {
        let mut a2 = a.borrow().clone();
        a2.summary = summary;
        match opaque_of(&a2, &ans) {
            None => return fail("the answer does not parse", ctx("")),
            Some(x) if x.is_empty() => Some(None),
            Some(x) => match strict(ver, &x) {
                Said::Choice(v) if v.0 == 0 => Some(Some(v.1)),
                _ => return fail("the choice is malformed", ctx(&hex(&x))),
            },
        }
    } else {
        ensure!(
            ans.get(1) == Some(&ERROR),
            "neither choice nor error",
            "{}",
            ctx("")
        );
        None
    };
    match (&said, chosen) {
        (Said::Offer(l), x) if (1..=2).contains(&l.len()) => {
            let common: Vec<u8> = l
                .iter()
                .map(|x| x.1)
                .filter(|x| local.contains(x))
                .collect();
            match x {
                _ if common.is_empty() => {
                    c.label("none in common");
                    ensure!(
                        x.is_none(),
                        "an offer without a common version was answered",
                        "{}",
                        ctx("")
                    )
                }
                Some(Some(v)) => {
                    c.label("chosen");
                    ensure!(
                        common.contains(&v),
                        "the choice is not a common version",
                        "{}",
                        ctx("")
                    )
                }
                _ => return fail("a common version was not chosen", ctx("")),
            }
        }
        (_, Some(Some(v))) => {
            c.label("irregular: chosen");
            ensure!(
                local.contains(&v) && o.contains(&v),
                "a version was chosen that was not offered",
                "{}",
                ctx("")
            );
        }
        (_, Some(None)) => c.label("irregular: ignored"),
        (_, None) => c.label("irregular: refused"),
    }
    // nothing else is affected
    for s in &s0 {
        ensure!(s1.contains(s), "another session is affected", "{}", ctx(""));
    }
    ensure!(
        s1.len() <= s0.len() + (chosen.is_some() as usize),
        "a refused offer left a session",
        "{}",
        ctx("")
    );
    if let (Some(Some(v)), Some(n)) = (chosen, s1.iter().find(|s| !s0.contains(s))) {
        ensure!(
            n.1 == v,
            "the responder holds another version",
            "{}",
            ctx("")
        );
    }
    ensure!(
        matches!(r, Some(Err(_))) && fl.w.req_sessions() == q0,
        "the requester took an altered exchange",
        "{}",
        ctx("")
    );
    goes_on(c, &mut fl, &ids)
}

/// A changed PSK_EXCHANGE_RSP with an HMAC that fits it.
fn rehmac_psk(a: &Audit, v: &[u8]) -> Option<Vec<u8>> {
    let mut v = v.to_vec();
    let h = a.neg.h().size();
    let mut x = a.clone();
    x.feed(Party::Rsp, &wire::frame(a.tr, false, &v));
    let s = x.sess.last()?.clone();
    let n = s.k.len().checked_sub(h)?;
    let mut t = s.a.clone();
    t.extend_from_slice(&s.k[..n]);
    let m = s.hmac(Party::Rsp, &t);
    let at = v.len() - h;
    v[at..].copy_from_slice(&m);
    Some(v)
}

/// A choice of any sort reaches the requester, signed as it should be.
fn selection(c: &mut Case) -> CaseResult {
    let (mut fl, ids) = flow_up(c)?;
    let act = opener(c, &fl);
    let psk = psk_of(&act);
    let (_, rc) = codes(psk);
    let ver = fl.a.neg.ver;
    let o = gen_opaque(c, ver, true);
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    let hit = Rc::new(Cell::new(false));
    let on = Rc::new(Cell::new(0u32));
    let (h2, on2, o2) = (hit.clone(), on.clone(), o.clone());
    let same = Rc::new(Cell::new(false));
    let same2 = same.clone();
    fl.w.sh.borrow_mut().mitm = Some(Box::new({
        let a = a.clone();
        move |p, _, b| {
            let mut a = a.borrow_mut();
            a.dhe = toy::with(|t| t.dhe.clone());
            if h2.get() {
                if p == Party::Req {
                    on2.set(on2.get() + 1);
                }
                return vec![b.to_vec()];
            }
            let x = a.clone();
            a.feed(p, b);
            let m = match a.msgs.last() {
                Some(m) if p == Party::Rsp && m.bytes.get(1) == Some(&rc) => m.bytes.clone(),
                _ => return vec![b.to_vec()],
            };
            let v = with_opaque(&x, &m, &o2).and_then(|v| {
                if psk {
                    rehmac_psk(&x, &v)
                } else {
                    tap::resign_ke(&x, &v, toy::with(|t| t.sign_key[1]))
                }
            });
            match v {
                Some(v) => {
                    h2.set(true);
                    same2.set(v == m);
                    vec![wire::frame(x.tr, false, &v)]
                }
                None => vec![b.to_vec()],
            }
        }
    }));
    let q0 = selected(&fl.w).0;
    fl.hist.push(act.clone());
    let r = fl.w.act(&act);
    fl.w.set_mitm(None);
    if !hit.get() {
        return Ok(());
    }
    c.nontrivial();
    let took = on.get() > 0 || matches!(r, Some(Ok(_)));
    let said = strict(ver, &o);
    let ctx = || {
        format!(
            "opaque {} {:x?} messages after it {} {:?} {}",
            hex(&o),
            said,
            on.get(),
            r,
            fl.ctx()
        )
    };
    match &said {
        Said::Choice(v) if [0x10, 0x11].contains(&v.1) => {
            if v.0 == 0 {
                c.label("offered version");
                ensure!(took, "a choice from the offer was refused", "{}", ctx());
            } else {
                c.label("offered version with update or alpha");
            }
        }
        Said::Choice(_) => {
            c.label("version not offered");
            ensure!(!took, "a version not offered was accepted", "{}", ctx());
        }
        _ => {
            c.label(if took {
                "irregular: accepted"
            } else {
                "irregular: refused"
            });
            // leniency about reserved bytes, padding and trailing bytes only
            let lenient = lenient_choice(ver, &o);
            ensure!(
                !took || lenient,
                "a malformed choice was accepted",
                "{}",
                ctx()
            );
        }
    }
    let ok = matches!(r, Some(Ok(_)));
    let (q1, _) = selected(&fl.w);
    if !ok {
        ensure!(
            q1 == q0,
            "a refused choice left traces",
            "{:x?} {:x?} {}",
            q0,
            q1,
            ctx()
        );
    }
    if ok {
        // only where the responder has nothing to verify any more
        ensure!(
            same.get() || psk && fl.g.rsp.caps & RS_PSK_NOCTX != 0,
            "altered opaque data went unnoticed",
            "{}",
            ctx()
        );
        if let Some(n) = q1.iter().find(|s| !q0.contains(s)) {
            ensure!(
                o.contains(&n.1),
                "the requester holds another version",
                "{:x?} {}",
                n,
                ctx()
            );
        }
        return Ok(());
    }
    goes_on(c, &mut fl, &ids)
}

/// All elements are choices of offered versions once reserved bytes, padding
/// and what trails are left aside.
fn lenient_choice(ver: u8, b: &[u8]) -> bool {
    let (n, mut at) = if ver >= 0x12 {
        if b.len() < 4 {
            return false;
        }
        (b[0], 4)
    } else {
        if b.len() < 8 || b[..5] != sec_header(ver, 1)[..5] {
            return false;
        }
        (b[5], 8)
    };
    if n == 0 {
        return false;
    }
    for i in 0..n {
        match b.get(at..at + 8) {
            Some(e) if e[..6] == [0, 0, 4, 0, 1, 0] => {
                if i == 0 && ![0x10, 0x11].contains(&e[7]) {
                    return false;
                }
            }
            _ => return false,
        }
        at += 8;
    }
    true
}

/// Lists of every shape through their encoding and back.
fn lists(c: &mut Case) -> CaseResult {
    let g = Cfg::simple();
    let mut w = World::new(&g);
    let ver = c.pick(&[0x10u8, 0x11, 0x12]);
    let x = &mut w.req.common;
    x.negotiate_info.spdm_version_sel = SpdmVersion::read_bytes(&[ver]).unwrap();
    x.negotiate_info.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
    let choice = c.bool();
    let n = c.range(0, 3);
    let mut b = sec_header(ver, n as u8);
    let mut want = vec![];
    for _ in 0..n {
        let k = if choice { 1 } else { c.range(0, 2) };
        let l = gen_version_list(c, k);
        let mut e = vec![1, if choice { 0 } else { 1 }];
        if choice {
            e.extend([l[0].0, l[0].1]);
        } else {
            e.extend(enc_list(&l));
        }
        b.extend(element(&e));
        want.push(l);
    }
    let mut o = SpdmOpaqueStruct {
        data_size: b.len() as u16,
        ..Default::default()
    };
    o.data[..b.len()].copy_from_slice(&b);
    if c.chance(1, 4) {
        // the rest of the buffer is not part of the data
        for d in o.data[b.len()..].iter_mut() {
            *d = 0xA5;
        }
    }
    let bytes = |v: &SecuredMessageVersion| {
        (
            v.update_version_number << 4 | v.alpha,
            v.major_version << 4 | v.minor_version,
        )
    };
    let list = |v: &SecuredMessageVersionList| -> Vec<(u8, u8)> {
        v.versions_list[..v.version_count as usize]
            .iter()
            .map(bytes)
            .collect()
    };
    let got_s = o
        .rsp_get_dmtf_supported_secure_spdm_version_list(x)
        .map(|v| list(&v));
    let got_c = o
        .req_get_dmtf_secure_spdm_version_selection(x)
        .map(|v| bytes(&v));
    let first = want.first().cloned();
    ensure!(
        got_s == if choice { None } else { first.clone() },
        "the list of versions is read otherwise",
        "{} {:x?} {:x?}",
        hex(&b),
        got_s,
        want
    );
    ensure!(
        got_c == if choice { first.map(|l| l[0]) } else { None },
        "the selected version is read otherwise",
        "{} {:x?} {:x?}",
        hex(&b),
        got_c,
        want
    );
    let mut buf = [0u8; 256];
    let mut wr = Writer::init(&mut buf);
    let r = if choice {
        SecuredMessageDMTFVersionSelection::spdm_read(x, &mut Reader::init(&b))
            .map(|d| d.spdm_encode(x, &mut wr))
    } else {
        SecuredMessageDMTFSupportedVersion::spdm_read(x, &mut Reader::init(&b)).map(|d| {
            let k = d.secured_message_general_opaque_data_header.total_elements as usize;
            let l: Vec<_> = d.opaque_element_dmtf_supported_version_list[..k]
                .iter()
                .map(|e| list(&e.secured_msg_vers))
                .collect();
            if l != want {
                return Err(spdmlib::error::SPDM_STATUS_INVALID_MSG_FIELD);
            }
            d.spdm_encode(x, &mut wr)
        })
    };
    let used = wr.used();
    ensure!(
        matches!(r, Some(Ok(k)) if k == b.len()) && buf[..used] == b[..],
        "a list does not round-trip",
        "{} {} {:?}",
        hex(&b),
        hex(&buf[..used]),
        r
    );
    // every proper prefix and every changed element header is refused
    if n > 0 {
        c.nontrivial();
        let mut bad = b.clone();
        let h = sec_header(ver, 1).len();
        let what = match c.below(4) {
            0 => {
                // into the last element's data
                let pad = match want.last().map(|l| l.len()) {
                    _ if choice => 0,
                    Some(1) => 3,
                    _ => 1,
                };
                let k = c.range(pad + 1, pad + 4);
                bad.truncate(b.len() - k);
                "cut"
            }
            1 => {
                let i = c.usize(6);
                bad[h + i] ^= 1 << c.below(8);
                "element header"
            }
            2 if ver < 0x12 => {
                let i = c.usize(5);
                bad[i] ^= 1 << c.below(8);
                "general header"
            }
            _ => {
                bad[h - if ver < 0x12 { 3 } else { 4 }] = c.pick(&[4u8, 9, 0x80, 0xff]);
                "number of elements"
            }
        };
        let mut o = SpdmOpaqueStruct {
            data_size: bad.len() as u16,
            ..Default::default()
        };
        o.data[..bad.len()].copy_from_slice(&bad);
        let s = o.rsp_get_dmtf_supported_secure_spdm_version_list(x);
        let v = o.req_get_dmtf_secure_spdm_version_selection(x);
        // flipping the element's kind may make a list a choice and the reverse
        let turned = what == "element header" && bad[h + 5] != b[h + 5];
        if !turned {
            ensure!(
                s.is_none() && v.is_none(),
                "irregular opaque data was taken",
                "{}: {} {:?} {:?}",
                what,
                hex(&bad),
                s.map(|x| list(&x)),
                v.map(|x| bytes(&x))
            );
        }
        c.label(what);
    }
    Ok(())
}
