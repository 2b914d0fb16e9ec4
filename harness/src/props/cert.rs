//! C07 certificate retrieval, C08 digests.

use super::nego::{ask, get_caps, get_version, nego_algs};
use crate::audit::{chain_blob, Audit};
use crate::engine::*;
use crate::flow::*;
use crate::sha2;
use crate::tap::{self, Shared};
use crate::toy::{self, Party};
use crate::wire::{code::*, Tr};
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "windows: a window other than the first full portion of slot 0; fetch: more than one portion or slot; serve: the served chain or a portion was changed",
            level: "exploration",
            assumptions: &["toy certificates: a chain verifies iff every certificate carries the MAC of its issuer"],
            subs: vec![
                Sub { name: "windows", f: windows, quick: 64000, thorough: 400_000 },
                Sub { name: "fetch", f: fetch, quick: 20000, thorough: 120_000 },
                Sub { name: "serve", f: serve, quick: 96000, thorough: 600_000 },
            ],
        },
        Prop {
            id: "C08",
            rule: "more than one slot is provisioned",
            level: "exploration",
            assumptions: &[],
            subs: vec![
                Sub { name: "slots", f: digests, quick: 80000, thorough: 400_000 },
                Sub { name: "subsets", f: subsets, quick: 60000, thorough: 60_000 },
            ],
        },
    ]
}

fn chain(c: &mut Case, root: u64, max: usize) -> Vec<u8> {
    let n = c.range(1, 4);
    let lo = n * toy::CERT_MIN;
    let total = match c.below(6) {
        0 => lo,
        1 => max,
        2 => c.range(450, 600).max(lo),
        3 => c.range(1000, 1100).max(lo),
        _ => c.range(lo, max),
    };
    let seed = c.below(1 << 20) + 1;
    toy::make_chain(root, 0xA1, n, total.min(max), seed)
}
/// A configuration with chains in random slots.
fn provisioned(c: &mut Case, max: usize) -> Cfg {
    let mut g = gen_wide(c);
    g.req_trust = None;
    let k = c.weighted(&[2, 3, 2, 1]);
    let mask = match k {
        0 => 1,
        1 => 1 | 1 << c.below(8),
        2 => 1 | c.below(256),
        _ => 255,
    };
    for i in 0..8 {
        g.rsp_chain[i] = None;
        if mask >> i & 1 != 0 {
            g.rsp_chain[i] = Some(chain(c, RSP_ROOT + i as u64, max));
        }
    }
    g
}
fn any_version(c: &mut Case, g: &mut Cfg) -> u8 {
    let v = c.pick(&[0x12u8, 0x11, 0x10]);
    g.set_versions(&[v]);
    v
}
/// Negotiate with the responder by hand; false when that fails.
fn by_hand(w: &mut World, g: &Cfg, ver: u8) -> bool {
    for m in &[
        get_version(),
        get_caps(ver, g.req.ct, g.req.caps, 4096, 4096),
        nego_algs(
            ver,
            1,
            2,
            g.req.asym,
            g.req.hash,
            &[(2, g.req.dhe), (3, g.req.aead), (4, g.req.req_asym), (5, 1)],
        ),
    ] {
        match ask(w, g.tr, m) {
            Some(r) if r[1] != ERROR => {}
            _ => return false,
        }
    }
    true
}

/// A carrier of messages to the responder: in the clear or in a session.
struct Line {
    w: World,
    a: Shared,
    sid: Option<u32>,
    /// the requester is not part of the connection
    hand: bool,
}
impl Line {
    fn ask(&mut self, tr: Tr, m: &[u8]) -> Option<Vec<u8>> {
        match self.sid {
            None => ask(&mut self.w, tr, m),
            Some(id) => {
                let (f, n) = {
                    let mut a = self.a.borrow_mut();
                    let f = a.session(id)?.forge(tr, Party::Req, false, m);
                    a.feed(Party::Req, &f);
                    (f, a.msgs.len())
                };
                let r = self.w.feed(&f);
                let a = self.a.borrow();
                let m = a.msgs.get(n)?;
                if r.sent.len() != 1 || a.msgs.len() != n + 1 || m.session != Some(id) {
                    return None;
                }
                Some(m.bytes.clone())
            }
        }
    }
}
/// Connect; optionally open a session that later messages travel in.
fn line(c: &mut Case, g: &Cfg, ver: u8, session: bool) -> Result<Option<Line>, Failure> {
    let mut w = World::new(g);
    let a: Shared = Rc::new(RefCell::new(Audit::new(g)));
    tap::watch(&w, &a);
    if !session && c.bool() {
        let ok = by_hand(&mut w, g, ver);
        ensure!(ok, "negotiation by hand fails", "{}", cfg_str(g));
        return Ok(Some(Line {
            w,
            a,
            sid: None,
            hand: true,
        }));
    }
    let r = w.init();
    ensure!(
        r.is_ok(),
        "honest connection fails",
        "{:?} {}",
        r,
        cfg_str(g)
    );
    let mut sid = None;
    if session {
        let f = feat(g, &[]);
        if !f.psk {
            return Ok(None);
        }
        let r = w.psk(0, &[1]);
        ensure!(
            r.is_ok(),
            "honest PSK session fails",
            "{:?} {}",
            r,
            cfg_str(g)
        );
        sid = r.ok();
    }
    Ok(Some(Line {
        w,
        a,
        sid,
        hand: false,
    }))
}

fn windows(c: &mut Case) -> CaseResult {
    let mut g = provisioned(c, 4096);
    let ver = any_version(c, &mut g);
    let session = ver >= 0x11 && c.chance(1, 3);
    toy::with(|t| t.meas = vec![]);
    let mut l = match line(c, &g, ver, session)? {
        Some(l) => l,
        None => return Ok(()),
    };
    let h = feat_hash(&g);
    let n = c.range(1, 8);
    for _ in 0..n {
        let slot = match c.below(4) {
            0 => c.byte(),
            1 => c.below(9) as u8,
            _ => {
                let v: Vec<u8> = (0..8u8)
                    .filter(|i| g.rsp_chain[*i as usize].is_some())
                    .collect();
                c.pick(&v)
            }
        };
        let blob = g
            .rsp_chain
            .get(slot as usize)
            .and_then(|x| x.as_ref())
            .map(|x| chain_blob(h, x));
        let total = blob.as_ref().map(|b| b.len()).unwrap_or(1000);
        let off = match c.below(7) {
            0 => 0,
            1 => c.range(0, total),
            2 => total,
            3 => total - 1,
            4 => total + c.range(1, 5),
            5 => c.below(1 << 16) as usize,
            _ => c.range(0, total / 512 + 1) * 512,
        } as u16;
        let left = total.saturating_sub(off as usize);
        let len = match c.below(7) {
            0 => 512,
            1 => c.range(0, 600),
            2 => left,
            3 => left + 1,
            4 => left.saturating_sub(1),
            5 => c.below(1 << 16) as usize,
            _ => c.pick(&[0usize, 1, 511, 513, 0xffff]),
        }
        .min(0xffff) as u16;
        let mut m = vec![ver, GET_CERTIFICATE, slot, c.pick(&[0u8, 0, 1, 0xff])];
        m.extend(&off.to_le_bytes());
        m.extend(&len.to_le_bytes());
        let before = l.w.log_len();
        let r = l.ask(g.tr, &m);
        let ctx = || {
            format!(
                "{} (chain of {:?}) -> {:?} after {} frames, session {:?} {}",
                hex(&m),
                blob.as_ref().map(|b| b.len()),
                r.as_ref().map(|r| hex(&r[..r.len().min(16)])),
                before,
                l.sid,
                cfg_str(&g)
            )
        };
        let r = match &r {
            Some(r) => r,
            None => return fail("no answer to GET_CERTIFICATE", ctx()),
        };
        if g.rsp.caps & RS_CERT == 0 {
            ensure!(
                r[1] == ERROR,
                "certificates without the capability",
                "{}",
                ctx()
            );
            continue;
        }
        if !(slot == 0 && off == 0 && len == 512) {
            c.nontrivial();
        }
        match &blob {
            None => {
                c.label("slot not provisioned");
                ensure!(
                    r[1] == ERROR,
                    "answers for a slot that does not exist",
                    "{}",
                    ctx()
                );
            }
            Some(_) if off as usize > total => {
                c.label("offset beyond the chain");
                ensure!(
                    r[1] == ERROR,
                    "answers for an offset beyond the chain",
                    "{}",
                    ctx()
                );
            }
            Some(_) if off as usize == total && r[1] == ERROR => {}
            Some(b) => {
                c.label(if len as usize > left {
                    "window beyond the end"
                } else {
                    "window inside"
                });
                ensure!(
                    r[1] == CERTIFICATE && r.len() >= 8,
                    "valid window refused",
                    "{}",
                    ctx()
                );
                ensure!(
                    r[0] == ver && r[2] & 15 == slot,
                    "wrong version or slot",
                    "{}",
                    ctx()
                );
                let p = u16::from_le_bytes([r[4], r[5]]) as usize;
                let rem = u16::from_le_bytes([r[6], r[7]]) as usize;
                ensure!(
                    p <= len as usize && p <= left,
                    "portion larger than the window",
                    "{}",
                    ctx()
                );
                ensure!(p > 0 || len == 0 || left == 0, "empty portion", "{}", ctx());
                ensure!(
                    p == (len as usize).min(left).min(512),
                    "portion shorter than it could be",
                    "{}",
                    ctx()
                );
                ensure!(p + rem == left, "wrong remainder", "{}", ctx());
                ensure!(
                    r.len() >= 8 + p && r[8..8 + p] == b[off as usize..off as usize + p],
                    "wrong bytes",
                    "{}",
                    ctx()
                );
                let pad = if g.tr == Tr::Doe { 3 } else { 0 };
                ensure!(
                    r.len() <= 8 + p + pad,
                    "bytes after the portion",
                    "{}",
                    ctx()
                );
            }
        }
    }
    Ok(())
}
fn feat_hash(g: &Cfg) -> sha2::H {
    match super::nego::expect(g).hash {
        1 => sha2::H::S256,
        2 => sha2::H::S384,
        _ => sha2::H::S512,
    }
}
fn stored(w: &mut World, slot: usize) -> Option<Vec<u8>> {
    w.rq(|r| {
        r.common.peer_info.peer_cert_chain[slot]
            .as_ref()
            .map(|x| x.data[..x.data_size as usize].to_vec())
    })
}

/// Complete retrievals from honest responders that may return short portions.
fn fetch(c: &mut Case) -> CaseResult {
    let mut g = provisioned(c, 4096);
    let ver = any_version(c, &mut g);
    // trust the root of one slot
    let slots: Vec<u8> = (0..8u8)
        .filter(|i| g.rsp_chain[*i as usize].is_some())
        .collect();
    if c.chance(1, 4) {
        let s = c.pick(&slots);
        let ch = g.rsp_chain[s as usize].clone().unwrap();
        let v = toy::split_chain(&ch).unwrap();
        g.req_trust = Some(ch[..v[0].1].to_vec());
    }
    g.rsp.caps |= RS_CERT | RS_CHAL;
    let h = feat_hash(&g);
    let session = ver >= 0x11 && c.chance(1, 3);
    toy::with(|t| t.meas = vec![]);
    let mut l = match line(c, &g, ver, session)? {
        Some(l) => l,
        None => return Ok(()),
    };
    if l.hand {
        let r = l.w.init();
        ensure!(
            r.is_ok(),
            "honest connection fails",
            "{:?} {}",
            r,
            cfg_str(&g)
        );
    }
    l.w.sh.borrow_mut().max_sends = 40000;
    let style = c.below(4);
    let cap = c.range(1, 511);
    let seed = c.u64();
    let k = std::cell::Cell::new(0u64);
    let chains: Vec<Option<Vec<u8>>> = g
        .rsp_chain
        .iter()
        .map(|x| x.as_ref().map(|x| chain_blob(h, x)))
        .collect();
    let ch2 = chains.clone();
    let want: Rc<RefCell<Vec<(u8, u16, u16)>>> = Rc::new(RefCell::new(vec![]));
    let want2 = want.clone();
    tap::tap(&l.w, &l.a, move |a, p, m, _| {
        let m = m?;
        if p == Party::Req {
            if m.bytes[1] == GET_CERTIFICATE {
                let b = &m.bytes;
                want2.borrow_mut().push((
                    b[2],
                    u16::from_le_bytes([b[4], b[5]]),
                    u16::from_le_bytes([b[6], b[7]]),
                ));
            }
            return None;
        }
        if m.bytes[1] != CERTIFICATE || style == 0 {
            return None;
        }
        let (slot, off, len) = *want2.borrow().last()?;
        let b = ch2[slot as usize].as_ref()?;
        let left = b.len() - off as usize;
        k.set(k.get() + 1);
        let most = left.min(len as usize);
        let n = match style {
            1 => most.min(cap),
            2 => 1 + (mix(seed, k.get()) as usize % most),
            _ => {
                if k.get() == 1 {
                    most.min(1)
                } else {
                    most
                }
            }
        };
        let mut v = m.bytes[..4].to_vec();
        v.extend(&(n as u16).to_le_bytes());
        v.extend(&((left - n) as u16).to_le_bytes());
        v.extend(&b[off as usize..off as usize + n]);
        Some(vec![tap::reframe(a, m, &v)])
    });
    let n = c.range(1, 3);
    let mut have: Vec<Option<Vec<u8>>> = (0..8).map(|i| stored(&mut l.w, i)).collect();
    for _ in 0..n {
        let slot = match c.below(4) {
            0 => c.below(10) as u8,
            _ => c.pick(&slots),
        };
        // unhashed builds hold the transcript of one retrieval
        if !cfg!(feature = "hashed") && l.sid.is_none() {
            let _ = l.w.digest(None);
        }
        want.borrow_mut().clear();
        let sid = l.sid;
        let r = l.w.cert(sid, slot);
        let ctx = || {
            format!(
                "slot {} style {} cap {} -> {:?} windows {:?} session {:?} {}",
                slot,
                style,
                cap,
                r,
                want.borrow(),
                sid,
                cfg_str(&g)
            )
        };
        let blob = chains.get(slot as usize).and_then(|x| x.clone());
        let trusted = match (&g.req_trust, &blob) {
            (Some(t), Some(_)) => {
                let ch = g.rsp_chain[slot as usize].as_ref().unwrap();
                let v = toy::split_chain(ch).unwrap();
                &ch[..v[0].1] == &t[..]
            }
            _ => true,
        };
        if want.borrow().len() > 1 || slot != 0 {
            c.nontrivial();
        }
        match blob {
            Some(b) if trusted => {
                c.label("complete");
                let raw_full = !cfg!(feature = "hashed") && sid.is_none() && style != 0;
                if r.is_err() && raw_full {
                    // many small portions can exceed the transcript buffer
                    return Ok(());
                }
                ensure!(r.is_ok(), "honest retrieval fails", "{}", ctx());
                have[slot as usize] = Some(b);
            }
            Some(_) => {
                c.label("untrusted root");
                ensure!(
                    r.is_err(),
                    "chain with a root that is not trusted accepted",
                    "{}",
                    ctx()
                );
            }
            None => {
                c.label("no such slot");
                ensure!(
                    r.is_err(),
                    "retrieval from an empty slot succeeds",
                    "{}",
                    ctx()
                );
            }
        }
        for i in 0..8 {
            let s = stored(&mut l.w, i);
            ensure!(
                s == have[i],
                "stored chain is not the provisioned one",
                "slot {} stored {:?} wanted {:?} {}",
                i,
                s.as_ref().map(|s| s.len()),
                have[i].as_ref().map(|s| s.len()),
                ctx()
            );
        }
        if r.is_ok() {
            let blob = chains[slot as usize].as_ref().unwrap().len();
            let mut at = 0usize;
            for (i, x) in want.borrow().iter().enumerate() {
                ensure!(
                    x.0 == slot && x.1 as usize == at,
                    "retrieval asks for something else",
                    "{}",
                    ctx()
                );
                at = want
                    .borrow()
                    .get(i + 1)
                    .map(|y| y.1 as usize)
                    .unwrap_or(blob);
                ensure!(at > x.1 as usize, "retrieval does not advance", "{}", ctx());
            }
        }
    }
    Ok(())
}

/// A dishonest responder serves a changed chain or changed portions.
fn serve(c: &mut Case) -> CaseResult {
    let mut g = provisioned(c, 1500);
    let ver = any_version(c, &mut g);
    g.rsp.caps |= RS_CERT | RS_CHAL;
    let slots: Vec<u8> = (0..8u8)
        .filter(|i| g.rsp_chain[*i as usize].is_some())
        .collect();
    let slot = c.pick(&slots);
    let orig = g.rsp_chain[slot as usize].clone().unwrap();
    let parts = toy::split_chain(&orig).unwrap();
    let h = feat_hash(&g);
    let hs = h.size();
    let trust = c.chance(1, 3);
    if trust {
        g.req_trust = Some(orig[..parts[0].1].to_vec());
    }
    let mut blob = chain_blob(h, &orig);
    let how: &'static str = match c.below(13) {
        0 => {
            let i = c.usize(blob.len());
            let x = c.range(1, 255) as u8;
            blob[i] ^= x;
            "byte changed"
        }
        1 => {
            let n = c.range(1, 40.min(blob.len() - 1));
            let k = blob.len() - n;
            blob.truncate(k);
            if c.bool() {
                let l = blob.len() as u16;
                blob[..2].copy_from_slice(&l.to_le_bytes());
            }
            "shortened"
        }
        2 => {
            let n = c.range(1, 40);
            let x = c.blob(n);
            blob.extend(x);
            if c.bool() {
                let l = blob.len() as u16;
                blob[..2].copy_from_slice(&l.to_le_bytes());
            }
            "extended"
        }
        3 => {
            let l = match c.below(3) {
                0 => blob.len() as u16 + 1,
                1 => blob.len() as u16 - 1,
                _ => c.below(1 << 16) as u16,
            };
            blob[..2].copy_from_slice(&l.to_le_bytes());
            "length field"
        }
        4 => {
            let i = 4 + c.usize(hs);
            blob[i] ^= 1 << c.below(8);
            "root digest"
        }
        5 => {
            // a whole chain of another root
            let o = chain(c, RSP_ROOT ^ 0x77, 1500);
            blob = chain_blob(h, &o);
            "another root"
        }
        6 => {
            // the right root digest before another chain
            let o = chain(c, RSP_ROOT ^ 0x77, 1500);
            let mut b = chain_blob(h, &o);
            b[4..4 + hs].copy_from_slice(&blob[4..4 + hs]);
            blob = b;
            "another chain under the right digest"
        }
        7 => {
            // certificates of the chain left out or swapped
            let mut v: Vec<Vec<u8>> = parts.iter().map(|p| orig[p.0..p.1].to_vec()).collect();
            if v.len() > 1 {
                let i = c.usize(v.len());
                if c.bool() {
                    v.remove(i);
                } else {
                    let j = c.usize(v.len());
                    v.swap(i, j);
                }
            }
            blob = chain_blob(h, &v.concat());
            "certificates dropped or swapped"
        }
        8 => {
            let k = c.range(0, 4 + hs + 1);
            blob.truncate(k);
            if blob.len() >= 2 {
                let l = blob.len() as u16;
                blob[..2].copy_from_slice(&l.to_le_bytes());
            }
            "shorter than its header"
        }
        9 => {
            // root from the trusted chain, a foreign leaf under it
            let mut v: Vec<Vec<u8>> = parts.iter().map(|p| orig[p.0..p.1].to_vec()).collect();
            let f = c.blob(8);
            let n = v.len();
            v[n - 1] = toy::make_cert(0xBAD, if n > 1 { 0xBAD } else { 0xBAD }, &f);
            blob = chain_blob(h, &v.concat());
            "foreign leaf"
        }
        10 => {
            // same subject as the trusted root, other bytes
            let f = c.blob(9);
            let mut v: Vec<Vec<u8>> = parts.iter().map(|p| orig[p.0..p.1].to_vec()).collect();
            let s = toy::cert_subject(&v[0]);
            v[0] = toy::make_cert(s, s, &f);
            blob = chain_blob(h, &v.concat());
            "root replaced under the same name"
        }
        11 => {
            // the trusted root is only a part of the first certificate or the
            // first certificate only a part of it
            if trust {
                let t = g.req_trust.as_mut().unwrap();
                if c.bool() {
                    let n = c.range(1, 8);
                    let k = t.len() - n;
                    t.truncate(k);
                } else {
                    t.extend(&[0u8; 3]);
                }
            }
            "trusted root of another size"
        }
        _ => "unchanged",
    };
    // the manner of serving
    let lie = c.weighted(&[6, 1, 1, 1, 1, 1, 1]);
    let lie_at = c.range(0, 3) as u64;
    let cap = c.range(20, 512);
    let delta = c.range(1, 300);
    let session = ver >= 0x11 && c.chance(1, 4);
    toy::with(|t| t.meas = vec![]);
    let mut l = match line(c, &g, ver, session)? {
        Some(l) => l,
        None => return Ok(()),
    };
    if l.hand {
        let r = l.w.init();
        ensure!(
            r.is_ok(),
            "honest connection fails",
            "{:?} {}",
            r,
            cfg_str(&g)
        );
    }
    // sometimes the honest chain (when the requester takes it) is there before
    let before = if c.chance(1, 3) {
        let sid = l.sid;
        if !cfg!(feature = "hashed") && sid.is_none() {
            let _ = l.w.digest(None);
        }
        let _ = l.w.cert(sid, slot);
        if !cfg!(feature = "hashed") && sid.is_none() {
            let _ = l.w.digest(None);
        }
        stored(&mut l.w, slot as usize)
    } else {
        None
    };
    let b2 = blob.clone();
    let asked = Rc::new(RefCell::new((0u64, (0u16, 0u16))));
    let lied = Rc::new(std::cell::Cell::new(false));
    let lied2 = lied.clone();
    let as2 = asked.clone();
    tap::tap(&l.w, &l.a, move |a, p, m, _| {
        let m = m?;
        let b = &m.bytes;
        if p == Party::Req {
            if b[1] == GET_CERTIFICATE {
                let mut x = as2.borrow_mut();
                x.0 += 1;
                x.1 = (
                    u16::from_le_bytes([b[4], b[5]]),
                    u16::from_le_bytes([b[6], b[7]]),
                );
            }
            return None;
        }
        let (k, (off, len)) = *as2.borrow();
        if k == 0 || b[1] != CERTIFICATE && b[1] != ERROR {
            return None;
        }
        let off = off as usize;
        let left = b2.len().saturating_sub(off);
        let mut n = left.min(len as usize).min(cap);
        let mut rem = left - n;
        let mut sl = slot;
        let mut data = b2.get(off..off + n).unwrap_or(&[]).to_vec();
        if lie > 0 && k == lie_at + 1 {
            match lie {
                1 => {
                    // more than was asked for
                    n = len as usize + delta;
                    data.resize(n, 0x5a);
                    if n > 512 {
                        data.truncate(512);
                    }
                    lied2.set(true);
                }
                2 if k > 1 => {
                    rem += delta;
                    lied2.set(true);
                }
                3 if k > 1 && rem > 0 => {
                    rem -= delta.min(rem);
                    lied2.set(true);
                }
                4 => {
                    sl = ((slot as usize + 1 + delta) % 8) as u8;
                    if sl != slot {
                        lied2.set(true);
                    }
                }
                5 if left > 0 => {
                    // nothing, and the rest later
                    n = 0;
                    rem = left;
                    data.clear();
                    lied2.set(true);
                }
                6 => {
                    rem = 0xffff - delta;
                    lied2.set(true);
                }
                _ => {}
            }
        }
        let mut v = vec![ver, CERTIFICATE, sl, 0];
        v.extend(&(n as u16).to_le_bytes());
        v.extend(&(rem as u16).to_le_bytes());
        v.extend(&data);
        Some(vec![tap::reframe(a, m, &v)])
    });
    let sid = l.sid;
    let r = l.w.cert(sid, slot);
    let valid = {
        let hdr = 4 + hs;
        blob.len() > hdr
            && u16::from_le_bytes([blob[0], blob[1]]) as usize == blob.len()
            && toy::chain_ok(&blob[hdr..])
            && {
                let v = toy::split_chain(&blob[hdr..]).unwrap();
                let root = &blob[hdr..hdr + v[0].1];
                sha2::hash(h, root) == blob[4..hdr]
                    && g.req_trust.as_ref().map(|t| t == root).unwrap_or(true)
            }
    };
    let ctx = || {
        format!(
            "{} lie {} at {} cap {} slot {} session {:?}: {:?} after {} requests (chain of {}, valid {}) {}",
            how,
            lie,
            lie_at,
            cap,
            slot,
            sid,
            r,
            asked.borrow().0,
            blob.len(),
            valid,
            cfg_str(&g)
        )
    };
    let now = stored(&mut l.w, slot as usize);
    if lied.get() {
        c.nontrivial();
        c.label("dishonest portion");
        ensure!(r.is_err(), "dishonest portion accepted", "{}", ctx());
    } else if !valid {
        c.nontrivial();
        c.label(how);
        ensure!(
            r.is_err(),
            format!("bad chain accepted: {}", how),
            "{}",
            ctx()
        );
    } else {
        c.label("valid chain");
        let raw_full = !cfg!(feature = "hashed") && sid.is_none();
        ensure!(r.is_ok() || raw_full, "valid chain refused", "{}", ctx());
        // byte 2 and 3 are reserved
        if r.is_ok() {
            ensure!(
                now.as_ref() == Some(&blob),
                "stored chain is not the served one",
                "{}",
                ctx()
            );
        }
        return Ok(());
    }
    ensure!(
        now == before,
        "refused chain changes what is stored",
        "{}",
        ctx()
    );
    for i in 0..8 {
        if i != slot as usize {
            ensure!(
                stored(&mut l.w, i).is_none(),
                "another slot was filled",
                "{} {}",
                i,
                ctx()
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn check_digests(c: &mut Case, g: &Cfg, ver: u8, session: bool, times: usize) -> CaseResult {
    let mut l = match line(c, g, ver, session)? {
        Some(l) => l,
        None => return Ok(()),
    };
    let h = feat_hash(g);
    let mut want = vec![ver, DIGESTS, 0, 0];
    for i in 0..8 {
        if let Some(x) = &g.rsp_chain[i] {
            want[3] |= 1 << i;
            want.extend(sha2::hash(h, &chain_blob(h, x)));
        }
    }
    if !l.hand && g.rsp.caps & RS_CERT != 0 {
        let sid = l.sid;
        let r = l.w.digest(sid);
        ensure!(
            r.is_ok(),
            "requester refuses honest digests",
            "{:?} {}",
            r,
            cfg_str(g)
        );
    }
    for k in 0..times {
        let r = l.ask(g.tr, &[ver, GET_DIGESTS, 0, 0]);
        let ctx = || {
            format!(
                "request {} session {:?}: {} wanted {} {}",
                k,
                l.sid,
                r.as_ref().map(|r| hex(r)).unwrap_or_default(),
                hex(&want),
                cfg_str(g)
            )
        };
        let r = match &r {
            Some(r) => r,
            None => return fail("no answer to GET_DIGESTS", ctx()),
        };
        if g.rsp.caps & RS_CERT == 0 {
            ensure!(r[1] == ERROR, "digests without the capability", "{}", ctx());
            return Ok(());
        }
        ensure!(
            r[1] == DIGESTS && r.len() >= 4,
            "digests refused",
            "{}",
            ctx()
        );
        ensure!(r[3] == want[3], "wrong slot mask", "{}", ctx());
        let pad = if g.tr == Tr::Doe { 3 } else { 0 };
        ensure!(
            r.len() >= want.len() && r.len() <= want.len() + pad && r[4..want.len()] == want[4..],
            "wrong digests",
            "{}",
            ctx()
        );
        ensure!(r[0] == ver, "wrong version", "{}", ctx());
    }
    Ok(())
}
fn digests(c: &mut Case) -> CaseResult {
    let mut g = provisioned(c, 2000);
    let ver = any_version(c, &mut g);
    if c.chance(1, 8) {
        g.rsp_chain = Default::default();
        c.label("no slot");
    }
    // slot 0 need not be there
    if c.chance(1, 3) {
        g.rsp_chain[0] = None;
    }
    let n = g.rsp_chain.iter().filter(|x| x.is_some()).count();
    if n > 1 {
        c.nontrivial();
    }
    let session = ver >= 0x11 && c.chance(1, 3);
    if session {
        c.label("in a session");
    }
    toy::with(|t| t.meas = vec![]);
    let k = c.range(1, 3);
    check_digests(c, &g, ver, session, k)
}
/// Small chains in any subset of slots.
fn subsets(c: &mut Case) -> CaseResult {
    let mut g = Cfg::simple();
    let mask = c.below(256);
    let hash = c.pick(&[1u32, 2, 4]);
    let ver = c.pick(&[0x12u8, 0x11, 0x10]);
    g.set_versions(&[ver]);
    g.req.hash = hash;
    g.rsp.hash = hash;
    g.tr = if c.bool() { Tr::Doe } else { Tr::Mctp };
    for i in 0..8u64 {
        g.rsp_chain[i as usize] = if mask >> i & 1 != 0 {
            Some(toy::make_chain(
                RSP_ROOT + i,
                0xA1,
                1,
                60 + i as usize,
                i + 1,
            ))
        } else {
            None
        };
    }
    if mask.count_ones() > 1 {
        c.nontrivial();
    }
    toy::with(|t| t.meas = vec![]);
    check_digests(c, &g, ver, false, 1)
}
