//! C05 negotiation, C06 algorithm choice, C30 size limits.

use crate::audit::Audit;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::toy::{self, Party};
use crate::wire::{self, code::*, Tr};
use crate::world::*;
use spdmlib::common::SpdmContext;
use spdmlib::message::SpdmVersionResponsePayload;
use std::cell::Cell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "the two generated configurations differ and either were connected and compared field by field, or lack a common choice the model names",
            level: "exploration",
            assumptions: &[],
            subs: vec![
                Sub { name: "pair", f: pair, quick: 160000, thorough: 1_500_000 },
                Sub { name: "caps", f: caps, quick: 160000, thorough: 1_000_000 },
            ],
        },
        Prop {
            id: "C06",
            rule: "responder: the offer leaves a choice in at least one category or contains unknown bits; requester: the answer was changed",
            level: "exploration",
            assumptions: &[],
            subs: vec![
                Sub { name: "responder", f: choose, quick: 40000, thorough: 2_000_000 },
                Sub { name: "requester", f: judge, quick: 30000, thorough: 1_500_000 },
                Sub { name: "versions", f: versions, quick: 20000, thorough: 800_000 },
            ],
        },
        Prop {
            id: "C30",
            rule: "a message that would exceed the peer's limit was due, or a limit at the boundary of the minimum was announced",
            level: "exploration",
            assumptions: &[],
            subs: vec![
                Sub { name: "responder", f: rsp_limit, quick: 8000, thorough: 500_000 },
                Sub { name: "requester", f: req_limit, quick: 10000, thorough: 500_000 },
                Sub { name: "history", f: limits, quick: 3000, thorough: 200_000 },
                Sub { name: "edge", f: at_limit, quick: 6000, thorough: 300_000 },
                Sub { name: "minimum", f: minimum, quick: 20000, thorough: 500_000 },
            ],
        },
    ]
}

/// Everything a negotiation settles.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct View {
    pub ver: u8,
    pub req_caps: u32,
    pub rsp_caps: u32,
    pub req_ct: u8,
    pub rsp_ct: u8,
    pub meas_spec: u8,
    pub meas_hash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub req_asym: u16,
    pub ks: u16,
    pub opaque: u8,
    pub sizes: [u32; 4],
}
pub fn view_of(c: &SpdmContext) -> View {
    let n = &c.negotiate_info;
    View {
        ver: n.spdm_version_sel.get_u8(),
        req_caps: n.req_capabilities_sel.bits(),
        rsp_caps: n.rsp_capabilities_sel.bits(),
        req_ct: n.req_ct_exponent_sel,
        rsp_ct: n.rsp_ct_exponent_sel,
        meas_spec: n.measurement_specification_sel.bits(),
        meas_hash: n.measurement_hash_sel.bits(),
        hash: n.base_hash_sel.bits(),
        asym: n.base_asym_sel.bits(),
        dhe: n.dhe_sel.bits(),
        aead: n.aead_sel.bits(),
        req_asym: n.req_asym_sel.bits(),
        ks: n.key_schedule_sel.bits(),
        opaque: n.opaque_data_support.bits(),
        sizes: [
            n.req_data_transfer_size_sel,
            n.req_max_spdm_msg_size_sel,
            n.rsp_data_transfer_size_sel,
            n.rsp_max_spdm_msg_size_sel,
        ],
    }
}
pub fn views(w: &mut World) -> (View, View) {
    (w.rq(|r| view_of(&r.common)), w.rs(|r| view_of(&r.common)))
}

pub const ASYM_ORDER: [u32; 8] = [0x80, 0x10, 0x40, 8, 2, 0x20, 4, 1];
pub const HASH_ORDER: [u32; 3] = [4, 2, 1];
pub const DHE_ORDER: [u32; 2] = [0x10, 8];
pub const AEAD_ORDER: [u32; 3] = [2, 1, 4];
fn best(order: &[u32], both: u32) -> u32 {
    order.iter().copied().find(|b| both & b != 0).unwrap_or(0)
}

/// What connecting two configurations should settle on (the selection model).
pub fn expect(g: &Cfg) -> View {
    let (q, s) = (&g.req, &g.rsp);
    let ver = q
        .versions
        .iter()
        .filter(|v| s.versions.contains(v))
        .max()
        .copied()
        .unwrap_or(0);
    let two = ver >= 0x12;
    let one = ver >= 0x11;
    View {
        ver,
        req_caps: if one { q.caps } else { 0 },
        rsp_caps: s.caps,
        req_ct: if one { q.ct } else { 0 },
        rsp_ct: s.ct,
        meas_spec: q.meas_spec & s.meas_spec & 1,
        meas_hash: s.meas_hash,
        hash: best(&HASH_ORDER, q.hash & s.hash),
        asym: best(&ASYM_ORDER, q.asym & s.asym),
        dhe: if one {
            best(&DHE_ORDER, (q.dhe & s.dhe) as u32) as u16
        } else {
            0
        },
        aead: if one {
            best(&AEAD_ORDER, (q.aead & s.aead) as u32) as u16
        } else {
            0
        },
        req_asym: if one {
            best(&ASYM_ORDER, (q.req_asym & s.req_asym) as u32) as u16
        } else {
            0
        },
        ks: if one { q.ks & s.ks & 1 } else { 0 },
        opaque: if two { q.opaque & s.opaque & 2 } else { 0 },
        sizes: if two {
            [q.dts, q.max_msg, s.dts, s.max_msg]
        } else {
            [0; 4]
        },
    }
}
/// The categories without a common choice although the capabilities need one.
pub fn missing(g: &Cfg) -> Vec<&'static str> {
    let e = expect(g);
    let mut v = vec![];
    if e.ver == 0 {
        return vec!["version"];
    }
    if e.hash == 0 {
        v.push("hash");
    }
    if e.asym == 0 {
        v.push("asym");
    }
    let (q, s) = (g.req.caps, g.rsp.caps);
    if s & 0x18 != 0 && (e.meas_spec == 0 || e.meas_hash == 0) {
        v.push("measurement");
    }
    if e.ver >= 0x11 {
        let kex = q & RQ_KEX != 0 && s & RS_KEX != 0;
        let psk = q & RQ_PSK != 0 && s & (RS_PSK_CTX | RS_PSK_NOCTX) != 0;
        if kex && e.dhe == 0 {
            v.push("dhe");
        }
        // records are protected by encryption and MAC or by MAC alone
        let records = kex || psk || q & RQ_MAC != 0 && s & RS_MAC != 0;
        if records && e.aead == 0 {
            v.push("aead");
        }
        if (kex || psk) && e.ks == 0 {
            v.push("key schedule");
        }
        if q & RQ_MUT != 0 && s & RS_MUT != 0 && e.req_asym == 0 {
            v.push("requester asym");
        }
        if e.ver >= 0x12 && s & (RS_KEX | RS_PSK_CTX | RS_PSK_NOCTX) != 0 && e.opaque == 0 {
            v.push("opaque");
        }
    }
    v
}

const REQ_KNOWN: u32 = 0x3f7c6; // without PSK_RSVD
const RSP_KNOWN: u32 = 0x3f_ffff;
/// Capability flags that contradict no rule of the specification.
pub fn good_req_caps(c: &mut Case) -> u32 {
    let mut f = c.below(1 << 18) as u32 & (REQ_KNOWN & !0x800);
    if c.chance(2, 3) {
        f |= RQ_KEX | RQ_MAC | RQ_ENCRYPT | RQ_CERT;
    }
    if f & (RQ_KEX | RQ_PSK) != 0 {
        f |= RQ_MAC;
    } else {
        f &= !(RQ_MAC | RQ_ENCRYPT | RQ_CLEAR | RQ_HB | RQ_UPD);
    }
    if f & RQ_KEX == 0 {
        f &= !RQ_CLEAR;
    }
    if f & RQ_CERT != 0 {
        f &= !0x10000;
    }
    if f & (RQ_CERT | 0x10000) != 0 {
        if f & (RQ_CHAL | RQ_KEX) == 0 {
            f |= RQ_CHAL;
        }
    } else {
        f &= !(RQ_CHAL | RQ_MUT);
    }
    if f & RQ_MUT != 0 {
        f |= RQ_ENCAP;
    }
    f
}
pub fn good_rsp_caps(c: &mut Case) -> u32 {
    let mut f = c.below(1 << 22) as u32 & RSP_KNOWN;
    if c.chance(2, 3) {
        f |= RS_KEX | RS_MAC | RS_ENCRYPT | RS_CERT | RS_CHAL;
    }
    if f & RS_MEAS_SIG != 0 {
        f &= !8;
    }
    if f & 0x18 == 0 {
        f &= !0x20;
    }
    if f & RS_CERT != 0 {
        f &= !0x10000;
        // 1.0: certificates and challenges go together
        f |= RS_CHAL;
    }
    if f & (RS_CERT | 0x10000) == 0 {
        f &= !(RS_CHAL | RS_KEX | RS_MUT);
        if f & RS_MEAS_SIG != 0 {
            f = f & !RS_MEAS_SIG | 8;
        }
    } else if f & RS_CERT == 0 {
        // public keys instead of certificates need 1.1
        f &= !(RS_CHAL | RS_MEAS_SIG);
        f |= RS_KEX;
        if f & 0x18 == 0 {
            f &= !0x20;
        }
    }
    if f & RS_PSK_CTX != 0 {
        f &= !RS_PSK_NOCTX;
    }
    if f & (RS_KEX | RS_PSK_CTX | RS_PSK_NOCTX) != 0 {
        f |= RS_MAC;
    } else {
        f &= !(RS_MAC | RS_ENCRYPT | RS_CLEAR | RS_HB | RS_UPD);
    }
    if f & RS_KEX == 0 {
        f &= !RS_CLEAR;
    }
    if f & RS_MUT != 0 {
        f |= RS_ENCAP;
    }
    if f & RS_CERT == 0 {
        f &= !(0x40000 | 0x80000);
    }
    if f & 0x80000 == 0 {
        f &= !(0x100000 | 0x200000);
    }
    f
}

fn gen_versions(c: &mut Case) -> Vec<u8> {
    let n = c.range(1, 3);
    (0..n).map(|_| c.pick(&[0x12u8, 0x11, 0x10])).collect()
}
fn sizes(c: &mut Case) -> (u32, u32) {
    let d = c.pick(&[64u32, 100, 512, 1024, 4096, 5000, 0x10000, 0xffff_ffff]);
    let m = d.max(c.pick(&[64u32, 4096, 0xffff_ffff]));
    (d, m)
}
/// Two configurations drawn independently; each mask keeps a bias to overlap.
pub fn gen_pair(c: &mut Case) -> Cfg {
    let mut g = Cfg::simple();
    g.tr = if c.bool() { Tr::Doe } else { Tr::Mctp };
    g.rng = c.below(1 << 20) + 1;
    let few = c.bool();
    for req in [true, false].iter() {
        let caps = if *req {
            good_req_caps(c)
        } else {
            good_rsp_caps(c)
        };
        let v = gen_versions(c);
        let s = if *req { &mut g.req } else { &mut g.rsp };
        s.versions = v;
        s.caps = caps;
        s.ct = c.byte();
        let m = |c: &mut Case, all: u64| -> u64 {
            let v = c.below(all + 1) & all;
            if few && !c.chance(1, 12) {
                v | c.below(all + 1) & all
            } else {
                v
            }
        };
        s.hash = m(c, 7) as u32;
        s.asym = m(c, 0xff) as u32;
        s.dhe = (m(c, 3) << 3) as u16;
        s.aead = m(c, 7) as u16;
        s.req_asym = m(c, 0xff) as u16;
        s.ks = if c.chance(7, 8) { 1 } else { 0 };
        s.opaque = if c.chance(7, 8) { 2 } else { 0 };
        s.meas_spec = if c.chance(7, 8) { 1 } else { 0 };
        s.meas_hash = c.pick(&[1u32, 2, 4, 8]);
        let z = sizes(c);
        s.dts = z.0;
        s.max_msg = z.1;
    }
    if c.chance(1, 6) {
        g.rsp_chain = Default::default();
    }
    g
}

fn agree(c: &mut Case, g: &Cfg, must: bool) -> CaseResult {
    let mut w = World::new(g);
    let r = w.init();
    let (mut q, s) = views(&mut w);
    let mut e = expect(g);
    let miss = missing(g);
    let ctx = || {
        format!(
            "{:?} missing {:?}\n req {:x?}\n rsp {:x?}\n model {:x?}\n {}",
            r,
            miss,
            q,
            s,
            e,
            cfg_str(g)
        )
    };
    let mut a = Audit::new(g);
    a.catch_up(&w);
    if r.is_err() {
        ensure!(
            !must || !miss.is_empty(),
            "compatible configurations do not connect",
            "{} {}",
            a.dump(),
            ctx()
        );
        for m in &miss {
            c.label(match *m {
                "version" => "no common version",
                _ => "no common algorithm",
            });
        }
        if !miss.is_empty() {
            c.nontrivial();
        }
        return Ok(());
    }
    for m in &[
        "version",
        "hash",
        "asym",
        "measurement",
        "dhe",
        "aead",
        "key schedule",
    ] {
        ensure!(
            !miss.contains(m),
            format!("connected without a common {}", m),
            "{}",
            ctx()
        );
    }
    c.nontrivial();
    c.label(match e.ver {
        0x10 => "connected at 1.0",
        0x11 => "connected at 1.1",
        _ => "connected at 1.2",
    });
    if e.ver == 0x10 {
        // 1.0 carries no requester flags
        q.req_caps = 0;
        q.req_ct = 0;
    }
    if g.rsp.caps & 0x18 == 0 {
        // without measurements the measurement hash is of no use
        e.meas_hash = q.meas_hash;
        ensure!(
            e.meas_hash == 0 || e.meas_hash == g.rsp.meas_hash,
            "measurement hash nobody configured",
            "{:x}",
            e.meas_hash
        );
    }
    ensure!(
        q == s,
        "the two sides disagree",
        "\n req {:x?}\n rsp {:x?}\n {}",
        q,
        s,
        cfg_str(g)
    );
    ensure!(
        q == e,
        "negotiated something else than the model",
        "\n both {:x?}\n model {:x?}\n {}",
        q,
        e,
        cfg_str(g)
    );
    let codes: Vec<u8> = a.msgs.iter().map(|m| m.bytes[1]).collect();
    ensure!(
        codes
            == [
                GET_VERSION,
                VERSION,
                GET_CAPABILITIES,
                CAPABILITIES,
                NEGOTIATE_ALGORITHMS,
                ALGORITHMS
            ],
        "unexpected negotiation messages",
        "{:x?}",
        codes
    );
    ensure!(
        a.issues.is_empty(),
        "observer disagrees",
        "{:?} {}",
        a.issues,
        cfg_str(g)
    );
    ensure!(
        a.neg.ver == e.ver
            && a.neg.hash == e.hash
            && a.neg.asym == e.asym
            && a.neg.dhe == e.dhe
            && a.neg.aead == e.aead,
        "the wire shows another selection",
        "{:?} {:x?}",
        a.neg,
        e
    );
    Ok(())
}

fn pair(c: &mut Case) -> CaseResult {
    let g = gen_pair(c);
    agree(c, &g, true)
}
/// Arbitrary capability flags: agreement whenever connecting succeeds.
fn caps(c: &mut Case) -> CaseResult {
    let mut g = gen_pair(c);
    if c.bool() {
        g.req.caps = c.below(1 << 32) as u32 & REQ_KNOWN;
    }
    if c.bool() {
        g.rsp.caps = c.below(1 << 32) as u32 & RSP_KNOWN;
    }
    if c.bool() {
        let z = c.pick(&[1u32, 41, 42, 43, 100, 1 << 31]);
        g.req.dts = z;
    }
    agree(c, &g, false)
}

// ---------------------------------------------------------------- C06

pub fn get_version() -> Vec<u8> {
    vec![0x10, GET_VERSION, 0, 0]
}
pub fn get_caps(ver: u8, ct: u8, flags: u32, dts: u32, max: u32) -> Vec<u8> {
    let mut b = vec![ver, GET_CAPABILITIES, 0, 0];
    if ver >= 0x11 {
        b.extend(&[0, ct, 0, 0]);
        b.extend(&flags.to_le_bytes());
    }
    if ver >= 0x12 {
        b.extend(&dts.to_le_bytes());
        b.extend(&max.to_le_bytes());
    }
    b
}
pub fn nego_algs(ver: u8, spec: u8, opaque: u8, asym: u32, hash: u32, st: &[(u8, u16)]) -> Vec<u8> {
    let n = if ver >= 0x11 { st.len() } else { 0 };
    let mut b = vec![ver, NEGOTIATE_ALGORITHMS, n as u8, 0];
    b.extend(&((32 + 4 * n) as u16).to_le_bytes());
    b.extend(&[spec, opaque]);
    b.extend(&asym.to_le_bytes());
    b.extend(&hash.to_le_bytes());
    b.extend(&[0; 16]);
    for (t, v) in st.iter().take(n) {
        b.extend(&[*t, 0x20]);
        b.extend(&v.to_le_bytes());
    }
    b
}
/// Send one message in the clear to the responder and take the single answer.
pub fn ask(w: &mut World, tr: Tr, m: &[u8]) -> Option<Vec<u8>> {
    let r = w.feed(&wire::frame(tr, false, m));
    if r.sent.len() != 1 {
        return None;
    }
    wire::unframe(tr, &r.sent[0]).map(|x| x.1.to_vec())
}

fn choose(c: &mut Case) -> CaseResult {
    let mut g = gen_pair(c);
    g.rsp.versions = vec![0x10, 0x11, 0x12];
    g.rsp.dts = 4096;
    let ver = c.pick(&[0x12u8, 0x11, 0x10]);
    let mut w = World::new(&g);
    let tr = g.tr;
    let r = ask(&mut w, tr, &get_version());
    ensure!(
        r.as_ref().map(|x| x[1]) == Some(VERSION),
        "no VERSION",
        "{:?}",
        r
    );
    let fl = good_req_caps(c);
    let r = ask(&mut w, tr, &get_caps(ver, c.byte(), fl, 4096, 4096));
    ensure!(
        r.as_ref().map(|x| x[1]) == Some(CAPABILITIES),
        "no CAPABILITIES",
        "{:?} {:x} {:x}",
        r,
        ver,
        fl
    );
    let wild = |c: &mut Case, known: u64, all: u64| -> u64 {
        match c.below(4) {
            0 => c.below(known + 1) & known,
            1 => c.below(all + 1),
            2 => c.below(all + 1) | c.below(known + 1) & known,
            _ => all,
        }
    };
    let asym = wild(c, 0xff, 0xffff_ffff) as u32;
    let hash = wild(c, 7, 0xffff_ffff) as u32;
    let spec = wild(c, 1, 0xff) as u8;
    let op = c.pick(&[0u8, 2, 3, 0xff, 1]);
    let mut st = vec![];
    for (t, known) in &[(2u8, 0x18u64), (3, 7), (4, 0xff), (5, 1)] {
        if c.chance(5, 6) {
            st.push((*t, wild(c, *known, 0xffff) as u16));
        }
    }
    let m = nego_algs(ver, spec, op, asym, hash, &st);
    let before = toy::with(|t| t.rand_log.len());
    let r = ask(&mut w, tr, &m);
    let _ = before;
    let s = &g.rsp;
    let of = |t: u8| st.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(0);
    let b = |order: &[u32], offer: u32, mine: u32| {
        let known = order.iter().fold(0, |a, b| a | b);
        let free = (offer & mine).count_ones() > 1 || offer & !known != 0;
        (best(order, offer & mine) << 1) | free as u32
    };
    let mut choice = 0;
    let mut pick = |order: &[u32], offer: u32, mine: u32| {
        let x = b(order, offer, mine);
        choice += x & 1;
        x >> 1
    };
    // the length field counts 36 bytes of header and selections and 4 per structure
    let mut want = vec![ver, ALGORITHMS, if ver >= 0x11 { 4 } else { 0 }, 0];
    want.extend(&(if ver >= 0x11 { 52u16 } else { 36 }).to_le_bytes());
    want.push(spec & s.meas_spec & 1);
    want.push(if ver >= 0x12 { op & s.opaque & 2 } else { 0 });
    want.extend(&s.meas_hash.to_le_bytes());
    want.extend(&pick(&ASYM_ORDER, asym, s.asym).to_le_bytes());
    want.extend(&pick(&HASH_ORDER, hash, s.hash).to_le_bytes());
    want.extend(&[0; 16]);
    if ver >= 0x11 {
        for (t, order, mine) in &[
            (2u8, &DHE_ORDER[..], s.dhe),
            (3, &AEAD_ORDER[..], s.aead),
            (4, &ASYM_ORDER[..], s.req_asym),
            (5, &[1][..], s.ks),
        ] {
            want.extend(&[*t, 0x20]);
            want.extend(&(pick(order, of(*t) as u32, *mine as u32) as u16).to_le_bytes());
        }
    }
    if choice > 0 {
        c.nontrivial();
    }
    c.label(match ver {
        0x10 => "1.0",
        0x11 => "1.1",
        _ => "1.2",
    });
    let r = r.unwrap_or_default();
    let asym_sel = best(&ASYM_ORDER, asym & s.asym);
    let hash_sel = best(&HASH_ORDER, hash & s.hash);
    if asym_sel == 0 || hash_sel == 0 {
        c.label("nothing in common");
        // an error is as good as an answer without a selection
        if r.get(1) == Some(&ERROR) {
            return Ok(());
        }
    }
    let ctx = || {
        format!(
            "offer {}\n got {}\n want {}\n {}",
            hex(&m),
            hex(&r),
            hex(&want),
            cfg_str(&g)
        )
    };
    ensure!(r.get(1) == Some(&ALGORITHMS), "offer refused", "{}", ctx());
    let (mut rr, mut ww) = (r.clone(), want.clone());
    if s.caps & 0x18 == 0 && rr.len() > 12 {
        for i in 8..12 {
            rr[i] = 0;
            ww[i] = 0;
        }
    }
    // transports may pad
    rr.truncate(ww.len().max(rr.len() - rr.len() % 4));
    ensure!(
        rr[..ww.len().min(rr.len())] == ww[..],
        "selection differs from the strongest common one",
        "{}",
        ctx()
    );
    let (_, v) = views(&mut w);
    ensure!(
        v.hash == hash_sel && v.asym == asym_sel,
        "the responder uses another selection than it answered",
        "{:x?} {}",
        v,
        ctx()
    );
    Ok(())
}

/// A changed ALGORITHMS answer at the requester.
fn judge(c: &mut Case) -> CaseResult {
    let mut g = gen_pair(c);
    let ver = c.pick(&[0x12u8, 0x11, 0x10]);
    g.req.versions = vec![ver];
    g.rsp.versions = vec![ver];
    for s in [&mut g.req, &mut g.rsp].iter_mut() {
        s.ks = 1;
        s.opaque = 2;
        s.meas_spec = 1;
        s.dts = 4096;
        s.max_msg = 4096;
    }
    let set = |c: &mut Case, order: &[u32]| -> u32 {
        order.iter().filter(|_| c.bool()).fold(0, |a, b| a | b)
    };
    // offers that always contain something the responder takes
    let (h, a, d, e, r) = (
        c.pick(&HASH_ORDER),
        c.pick(&ASYM_ORDER),
        c.pick(&DHE_ORDER),
        c.pick(&AEAD_ORDER),
        c.pick(&ASYM_ORDER),
    );
    g.req.hash = h | set(c, &HASH_ORDER);
    g.req.asym = a | set(c, &ASYM_ORDER);
    g.req.dhe = (d | set(c, &DHE_ORDER)) as u16;
    g.req.aead = (e | set(c, &AEAD_ORDER)) as u16;
    g.req.req_asym = (r | set(c, &ASYM_ORDER)) as u16;
    g.rsp.hash = h;
    g.rsp.asym = a;
    g.rsp.dhe = d as u16;
    g.rsp.aead = e as u16;
    g.rsp.req_asym = r as u16;
    let cat = c.below(if ver >= 0x11 { 5 } else { 2 });
    let (order, offer): (&[u32], u32) = match cat {
        0 => (&HASH_ORDER, g.req.hash),
        1 => (&ASYM_ORDER, g.req.asym),
        2 => (&DHE_ORDER, g.req.dhe as u32),
        3 => (&AEAD_ORDER, g.req.aead as u32),
        _ => (&ASYM_ORDER, g.req.req_asym as u32),
    };
    let sel = match c.below(5) {
        // any single bit, two bits, nothing, everything offered
        0 | 1 => c.pick(order),
        2 => c.pick(order) | c.pick(order),
        3 => {
            if c.bool() {
                offer
            } else {
                order.iter().fold(0, |a, b| a | b)
            }
        }
        _ => 0,
    };
    let hit = Rc::new(Cell::new(false));
    let h2 = hit.clone();
    let tr = g.tr;
    let mut w = World::new(&g);
    w.set_mitm(Some(Box::new(move |p, _, b| {
        if p == Party::Rsp {
            if let Some((false, m)) = wire::unframe(tr, b) {
                if m.get(1) == Some(&ALGORITHMS) {
                    let mut v = m.to_vec();
                    let px = wire::Px {
                        ver,
                        ..Default::default()
                    };
                    if let Ok(q) = wire::parse(&v, &px) {
                        v.truncate(q.used);
                        match cat {
                            0 | 1 => {
                                let o = q.off(if cat == 0 { "base_hash" } else { "base_asym" });
                                v[o..o + 4].copy_from_slice(&sel.to_le_bytes());
                            }
                            _ => {
                                let o = 36 + 4 * (cat as usize - 2) + 2;
                                v[o..o + 2].copy_from_slice(&(sel as u16).to_le_bytes());
                            }
                        }
                        h2.set(true);
                        return vec![wire::frame(tr, false, &v)];
                    }
                }
            }
        }
        vec![b.to_vec()]
    })));
    let res = w.init();
    if !hit.get() {
        return fail(
            "negotiation ends before ALGORITHMS",
            format!("{:?} {}", res, cfg_str(&g)),
        );
    }
    c.nontrivial();
    let (v, _) = views(&mut w);
    let ctx = || {
        format!(
            "category {} offer {:x} selected {:x} -> {:?} {:x?} {}",
            cat,
            offer,
            sel,
            res,
            v,
            cfg_str(&g)
        )
    };
    let used = match cat {
        0 => v.hash,
        1 => v.asym,
        2 => v.dhe as u32,
        3 => v.aead as u32,
        _ => v.req_asym as u32,
    };
    if sel & !offer != 0 {
        c.label("not offered");
        ensure!(
            res.is_err(),
            "accepted an algorithm that was not offered",
            "{}",
            ctx()
        );
    } else if sel.count_ones() > 1 {
        c.label("more than one");
        ensure!(
            res.is_err(),
            "accepted more than one algorithm",
            "{}",
            ctx()
        );
    } else if sel == 0 {
        c.label("none");
        let (q, s) = (g.req.caps, g.rsp.caps);
        let kex = q & RQ_KEX != 0 && s & RS_KEX != 0;
        let psk = q & RQ_PSK != 0 && s & (RS_PSK_CTX | RS_PSK_NOCTX) != 0;
        let need = match cat {
            0 | 1 => true,
            2 => kex,
            3 => kex || psk,
            _ => false,
        };
        ensure!(
            !need || res.is_err(),
            "accepted no algorithm where one is needed",
            "{}",
            ctx()
        );
    } else {
        c.label("another offered one");
        ensure!(res.is_ok(), "refused a valid selection", "{}", ctx());
        ensure!(
            used == sel,
            "uses another algorithm than selected",
            "{}",
            ctx()
        );
    }
    Ok(())
}

/// Arbitrary VERSION lists at the requester.
fn versions(c: &mut Case) -> CaseResult {
    let mut g = Cfg::simple();
    g.tr = if c.bool() { Tr::Doe } else { Tr::Mctp };
    g.req.versions = gen_versions(c);
    g.rsp.versions = vec![0x10, 0x11, 0x12];
    let n = c.weighted(&[1, 3, 3, 3]);
    let list: Vec<(u8, u8)> = (0..n)
        .map(|_| {
            let v = match c.below(5) {
                0 => c.byte(),
                _ => c.pick(&[0x10u8, 0x11, 0x12]),
            };
            (c.byte(), v)
        })
        .collect();
    // the layout holds at most as many entries as this build reads
    let max = SpdmVersionResponsePayload::default().versions.len();
    ensure!(n <= max, "fewer version entries than expected", "{}", max);
    let l2 = list.clone();
    let tr = g.tr;
    let mut w = World::new(&g);
    w.set_mitm(Some(Box::new(move |p, i, b| {
        if p == Party::Rsp && i == 1 {
            let mut v = vec![0x10, VERSION, 0, 0, 0, l2.len() as u8];
            for x in &l2 {
                v.extend(&[x.0, x.1]);
            }
            return vec![wire::frame(tr, false, &v)];
        }
        vec![b.to_vec()]
    })));
    let r = w.init();
    let best = list
        .iter()
        .map(|x| x.1)
        .filter(|v| g.req.versions.contains(v))
        .max();
    let log = w.log();
    let next = log
        .get(2)
        .and_then(|f| wire::unframe(tr, &f.sent))
        .map(|x| x.1.to_vec());
    let ctx = || {
        format!(
            "listed {:x?} configured {:x?} -> {:?}, next {:?}",
            list, g.req.versions, r, next
        )
    };
    c.nontrivial();
    match best {
        None => {
            c.label("no common version");
            ensure!(
                r.is_err(),
                "connected without a common version",
                "{}",
                ctx()
            );
            ensure!(
                next.is_none(),
                "goes on without a common version",
                "{}",
                ctx()
            );
        }
        Some(v) => {
            c.label("common version");
            match next {
                None => return fail("refuses a version list with a common version", ctx()),
                Some(ref m) => {
                    ensure!(
                        m[0] == v && m[1] == GET_CAPABILITIES,
                        "not the highest common version",
                        "{}",
                        ctx()
                    )
                }
            }
            ensure!(
                r.is_ok(),
                "does not connect at a common version",
                "{}",
                ctx()
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

fn limited(c: &mut Case) -> Cfg {
    let mut g = gen_wide(c);
    g.set_versions(&[0x12]);
    g
}
fn limit(c: &mut Case) -> u32 {
    match c.below(4) {
        0 => c.range(52, 80) as u32,
        1 => c.range(80, 200) as u32,
        2 => c.range(200, 700) as u32,
        _ => c.range(700, 4096) as u32,
    }
}

/// The responder answers in full what fits, and an error else: two responders
/// that differ in the announced size only.
fn rsp_limit(c: &mut Case) -> CaseResult {
    let mut g = limited(c);
    g.req.caps &= !RQ_MUT;
    let n = if c.chance(1, 12) {
        c.range(42, 52) as u32
    } else {
        limit(c)
    };
    let meas = gen_meas_for(c, g.rsp.meas_hash);
    let mut small = g.clone();
    small.req.dts = n;
    // one request after the connection, chosen by what makes large answers
    let tr = g.tr;
    let mut seq = vec![];
    let k = c.range(1, 5);
    for _ in 0..k {
        let slot = c.below(8) as u8;
        let m = match c.below(6) {
            0 => vec![0x12, GET_DIGESTS, 0, 0],
            1 => {
                let mut m = vec![
                    0x12,
                    GET_CERTIFICATE,
                    if c.chance(2, 3) { 0 } else { slot },
                    0,
                ];
                m.extend(&(c.len_biased(600) as u16).to_le_bytes());
                let l = match c.below(4) {
                    0 => (n as usize).saturating_sub(8 + c.range(0, 3)),
                    1 => n as usize + c.range(0, 4),
                    2 => c.range(0, 0xffff),
                    _ => c.len_biased(4096),
                };
                m.extend(&(l as u16).to_le_bytes());
                m
            }
            2 | 3 => {
                let op = if meas.is_empty() || c.bool() {
                    0xff
                } else {
                    meas[c.usize(meas.len())].index
                };
                let sig = c.bool() && g.rsp.caps & RS_MEAS_SIG != 0;
                let mut m = vec![0x12, GET_MEASUREMENTS, sig as u8, op];
                if sig {
                    m.extend(&c.blob(32));
                    m.push(0);
                }
                m
            }
            4 => {
                let mut m = vec![0x12, CHALLENGE, 0, c.pick(&[0u8, 1, 0xff])];
                m.extend(&c.blob(32));
                m
            }
            _ => {
                let mut m = vec![0x12, VENDOR_REQ, 0, 0, 3, 0, 2, 1, 2];
                let p = c.len_biased(40);
                m.extend(&(p as u16).to_le_bytes());
                m.extend(&c.blob(p));
                m
            }
        };
        seq.push(m);
    }
    let reply = {
        let l = match c.below(3) {
            0 => (n as usize).saturating_sub(11 + c.range(0, 3)),
            1 => n as usize,
            _ => c.len_biased(1000),
        };
        c.blob(l.min(4000))
    };
    let run = |g: &Cfg| -> (Vec<Option<Vec<u8>>>, World) {
        let r = reply.clone();
        let m = meas.clone();
        toy::with(|t| {
            t.meas = m;
            t.vendor_reply = vec![r; 8];
        });
        let mut w = World::new(g);
        let mut v = vec![];
        let f = g.req.caps;
        for m in &[
            get_version(),
            get_caps(0x12, g.req.ct, f, g.req.dts, g.req.max_msg),
            nego_algs(
                0x12,
                1,
                2,
                g.req.asym,
                g.req.hash,
                &[(2, g.req.dhe), (3, g.req.aead), (4, g.req.req_asym), (5, 1)],
            ),
        ] {
            v.push(ask(&mut w, g.tr, m));
        }
        for m in &seq {
            v.push(ask(&mut w, g.tr, m));
        }
        (v, w)
    };
    let (full, _) = run(&g);
    toy::reset();
    let (got, _) = run(&small);
    for i in 0..full.len() {
        let what = if i < 3 {
            "negotiation".to_string()
        } else {
            hex(&seq[i - 3])
        };
        let (f, s) = (&full[i], &got[i]);
        let ctx = || {
            format!(
                "message {} ({}) limit {} full {:?} limited {:?} {}",
                i,
                what,
                n,
                f.as_ref().map(|x| (x.len(), hex(&x[..x.len().min(12)]))),
                s.as_ref().map(|x| (x.len(), hex(&x[..x.len().min(12)]))),
                cfg_str(&small)
            )
        };
        let (f, s) = match (f, s) {
            (Some(f), Some(s)) => (f, s),
            (None, None) => continue,
            _ => return fail("answer or silence depend on the size limit", ctx()),
        };
        // the exact length of the message without transport padding
        let sig = i >= 3 && seq[i - 3][1] == GET_MEASUREMENTS && seq[i - 3][2] & 1 != 0;
        let summary = i >= 3 && seq[i - 3][1] == CHALLENGE && seq[i - 3][3] != 0;
        let px = env_of(&g, sig, summary).px();
        let len = |m: &[u8]| wire::parse(m, &px).map(|p| p.used).unwrap_or(m.len());
        if i >= 1 {
            ensure!(
                len(s) <= n as usize,
                "response larger than the requester's transfer size",
                "{}",
                ctx()
            );
        }
        if len(f) > n as usize && i >= 1 {
            c.nontrivial();
            c.label("too large");
            ensure!(
                s[1] == ERROR && s[2] == 0x0d,
                "no response-too-large error",
                "{}",
                ctx()
            );
            // from here on the two responders differ
            if i < 3 {
                return Ok(());
            }
            if f[1] == CHALLENGE_AUTH || f[1] == MEASUREMENTS {
                continue;
            }
        } else if len(f) + 4 > n as usize {
            c.nontrivial();
            c.label("just fits");
        }
        if len(f) <= n as usize || i < 1 {
            let same = s[1] == f[1] && len(s) == len(f);
            ensure!(same, "a response that fits was withheld", "{}", ctx());
        }
    }
    let _ = tr;
    Ok(())
}
fn env_of(g: &Cfg, sig: bool, summary: bool) -> crate::gen::Env {
    let e = expect(g);
    crate::gen::Env {
        ver: e.ver,
        hash: e.hash,
        asym: e.asym,
        req_asym: e.req_asym as u32,
        dhe: e.dhe,
        meas_hash: e.meas_hash,
        summary,
        sig,
        clear: false,
        psk_noctx: false,
        caps: true,
        noise: false,
        unknown: false,
    }
}

/// Requests at the responder's limit.
fn req_limit(c: &mut Case) -> CaseResult {
    let mut g = limited(c);
    g.req.caps &= !RQ_MUT;
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, 300, 5));
    g.req_trust = None;
    let act = match c.below(5) {
        0 => Act::Ke(0, 0),
        1 => {
            let n = c.range(0, 32);
            Act::Psk(0, c.blob(n))
        }
        2 => Act::Meas(None, 0, g.rsp.caps & RS_MEAS_SIG != 0, 0xff),
        3 => Act::Challenge(0, 0),
        _ => {
            let n = c.len_biased(500);
            Act::Vendor(None, 3, vec![1, 2], c.blob(n))
        }
    };
    let mut sizes = vec![];
    let mut run = |g: &Cfg, act: &Act| -> (bool, Vec<usize>) {
        toy::with(|t| t.meas = vec![]);
        let mut w = World::new(g);
        let r = w.init().and_then(|_| w.cert(None, 0));
        if r.is_err() {
            return (false, vec![]);
        }
        let k = w.log_len();
        let r = w.act(act);
        let tr = g.tr;
        sizes = w.log()[k..]
            .iter()
            .filter(|f| f.from == Party::Req)
            .filter_map(|f| {
                wire::unframe(tr, &f.sent)
                    .filter(|x| !x.0)
                    .map(|x| x.1.len())
            })
            .collect();
        (matches!(r, Some(Ok(_))), sizes.clone())
    };
    let (ok, full) = run(&g, &act);
    if !ok || full.is_empty() {
        return Ok(());
    }
    // DOE pads to words: the true size is within three bytes
    let len = full[0];
    let n = match c.below(5) {
        0 => len.saturating_sub(4),
        1 => len.saturating_sub(5 + c.range(0, len.saturating_sub(60))),
        2 => len,
        3 => len + 1,
        _ => c.range(52, 600),
    }
    .max(52);
    let mut small = g.clone();
    small.rsp.dts = n as u32;
    toy::reset();
    let (ok, got) = run(&small, &act);
    let ctx = || {
        format!(
            "{:?} needs {:?}, limit {}, sent {:?} ok {} {}",
            act,
            full,
            n,
            got,
            ok,
            cfg_str(&small)
        )
    };
    for l in &got {
        let pad = if g.tr == Tr::Doe { 3 } else { 0 };
        ensure!(
            *l <= n + pad,
            "request larger than the responder's transfer size",
            "{}",
            ctx()
        );
    }
    if len <= n {
        // later requests of a session start may still be too large
        if full.iter().all(|l| *l <= n) {
            c.label("fits");
            if len + 2 > n {
                c.nontrivial();
            }
            if let Act::Vendor(..) | Act::Challenge(..) | Act::Meas(..) = act {
                ensure!(ok, "a request that fits was withheld", "{}", ctx());
            }
        }
        ensure!(
            !got.is_empty(),
            "a request that fits was not sent",
            "{}",
            ctx()
        );
    } else if len > n + 3 || g.tr == Tr::Mctp {
        c.nontrivial();
        c.label("too large");
        ensure!(
            !ok && got.is_empty(),
            "a request that does not fit was sent or reported as done",
            "{}",
            ctx()
        );
    }
    Ok(())
}

/// Whole histories under small limits on both sides, in and out of sessions.
fn limits(c: &mut Case) -> CaseResult {
    let mut g = limited(c);
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, 300, 5));
    g.req_trust = None;
    g.req.dts = limit(c);
    g.rsp.dts = limit(c);
    let big = c.len_biased(1500);
    let mut fl = Flow::new(c, g.clone());
    let reply = c.blob(big);
    toy::with(|t| t.vendor_reply = vec![reply; 16]);
    let r = fl.w.init();
    if r.is_err() {
        ensure!(
            g.req.dts < 60 || g.rsp.dts < 60,
            "no connection although every negotiation message fits",
            "{:?} {}",
            r,
            cfg_str(&g)
        );
        return Ok(());
    }
    let _ = fl.w.cert(None, 0);
    let n = c.range(2, 8);
    for _ in 0..n {
        let f = fl.f.clone();
        let open = fl.open();
        let act = if c.chance(1, 4) {
            let l = c.len_biased(900);
            let s = if open > 0 && c.bool() {
                Some(c.usize(open))
            } else {
                None
            };
            Act::Vendor(s, 3, vec![1, 2], c.blob(l))
        } else {
            gen_op(c, &f, open)
        };
        fl.hist.push(act.clone());
        let _ = fl.w.act(&act);
    }
    fl.a.catch_up(&fl.w);
    for (i, m) in fl.a.msgs.iter().enumerate() {
        if m.bytes.len() < 2 || m.app || i < 4 {
            continue;
        }
        let n = if m.from == Party::Req {
            g.rsp.dts
        } else {
            g.req.dts
        } as usize;
        let pad = if g.tr == Tr::Doe && m.session.is_none() {
            3
        } else {
            0
        };
        ensure!(
            m.bytes.len() <= n + pad,
            "message larger than the peer's transfer size",
            "message {} {:02x} of {} bytes, limit {} {}",
            i,
            m.bytes[1],
            m.bytes.len(),
            n,
            fl.ctx()
        );
        if m.bytes[1] == ERROR && m.bytes[2] == 0x0d {
            c.nontrivial();
            c.label("response too large");
        }
        if m.bytes.len() + 8 > n {
            c.nontrivial();
        }
    }
    Ok(())
}

/// Exactly at the limits, in and out of sessions.
fn at_limit(c: &mut Case) -> CaseResult {
    let mut g = limited(c);
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 2, 300, 5));
    g.req_trust = None;
    g.req.dts = c.range(900, 2000) as u32;
    g.rsp.dts = c.range(900, 2000) as u32;
    let lim = [g.rsp.dts as usize, g.req.dts as usize];
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    let mut up = 0;
    if fl.f.kex {
        fl.must(Act::Ke(0, 0))?;
        up += 1;
    }
    if fl.f.psk && (up == 0 || c.bool()) {
        fl.must(Act::Psk(0, vec![]))?;
        up += 1;
    }
    // how long a message is besides its payload
    let mut over = [0usize; 2];
    for k in 0..c.range(2, 6) {
        let sess = if up > 0 && !c.chance(1, 5) {
            Some(c.usize(up))
        } else {
            None
        };
        let mut near = |l: usize, o: usize| match c.below(6) {
            0 | 1 => l - o,
            2 => l - o + 1,
            3 => l - o - 1,
            4 => l - o + 2 + c.below(40) as usize,
            _ => c.len_biased(700),
        };
        let (q, r) = if k == 0 {
            (3, 5)
        } else {
            (near(lim[0], over[0]), near(lim[1], over[1]))
        };
        let (q, r) = (q.min(4000), r.min(4000));
        let (qs, rs) = (c.blob(q), c.blob(r));
        let (qs, rs) = (
            qs.into_iter().chain(vec![7; q]).take(q).collect::<Vec<u8>>(),
            rs.into_iter().chain(vec![7; r]).take(r).collect::<Vec<u8>>(),
        );
        toy::with(|t| t.vendor_reply = vec![rs.clone()]);
        fl.a.catch_up(&fl.w);
        let m0 = fl.a.msgs.len();
        let n0 = toy::with(|t| t.vendor_log.len());
        let act = Act::Vendor(sess, 3, vec![1, 2], qs);
        fl.hist.push(Act::Vendor(sess, 3, vec![1, 2], vec![]));
        let res = fl.w.act(&act);
        toy::with(|t| t.vendor_reply.clear());
        fl.a.catch_up(&fl.w);
        let ms: Vec<(Party, Vec<u8>)> = fl.a.msgs[m0..]
            .iter()
            .map(|m| (m.from, m.bytes.clone()))
            .collect();
        let served = toy::with(|t| t.vendor_log.len()) - n0;
        let ctx = || {
            format!(
                "payload {} reply {} besides {:?} limits {:?} {:?} {:?} served {} {}",
                q,
                r,
                over,
                lim,
                res,
                ms.iter()
                    .map(|m| (m.0, m.1.len(), hex(&m.1[..m.1.len().min(4)])))
                    .collect::<Vec<_>>(),
                served,
                fl.ctx()
            )
        };
        if k == 0 {
            ensure!(
                matches!(res, Some(Ok(_))) && ms.len() == 2,
                "a small exchange fails",
                "{}",
                ctx()
            );
            // padding of unprotected frames is not part of the message
            let used = |m: &[u8]| {
                let v = m[6] as usize;
                9 + v + u16::from_le_bytes([m[7 + v], m[8 + v]]) as usize
            };
            over = [used(&ms[0].1) - q, used(&ms[1].1) - r];
            continue;
        }
        let (ql, rl) = (q + over[0], r + over[1]);
        let edge = |l: usize, n: usize| l + 3 > n && l < n + 3;
        if edge(ql, lim[0]) || (ql <= lim[0] && edge(rl, lim[1])) {
            c.nontrivial();
        }
        if ql > lim[0] {
            c.label("request too large");
            ensure!(
                ms.is_empty() && matches!(res, Some(Err(_))) && served == 0,
                "a request that does not fit was sent or reported as done",
                "{}",
                ctx()
            );
            continue;
        }
        ensure!(
            served == 1 && ms.len() == 2,
            "a request that fits was withheld",
            "{}",
            ctx()
        );
        if rl > lim[1] {
            c.label("response too large");
            ensure!(
                ms[1].1.len() == 4 && ms[1].1[1] == ERROR && ms[1].1[2] == 0x0d,
                "no response-too-large error",
                "{}",
                ctx()
            );
            ensure!(
                matches!(res, Some(Err(_))),
                "an error taken for a response",
                "{}",
                ctx()
            );
            continue;
        }
        c.label("both fit");
        ensure!(
            matches!(res, Some(Ok(Out::Vendor(ref d))) if *d == rs),
            "a response that fits was withheld",
            "{}",
            ctx()
        );
    }
    fl.same_sessions()
}

/// The minimum transfer size, and message sizes below the transfer size.
fn minimum(c: &mut Case) -> CaseResult {
    let mut g = limited(c);
    let gen = |c: &mut Case| -> (u32, u32) {
        let d = match c.below(4) {
            0 => c.range(38, 46) as u32,
            1 => c.below(42) as u32,
            2 => c.pick(&[42u32, 41, 0, 0xffff_ffff, 1 << 16]),
            _ => c.below(1 << 32) as u32,
        };
        let m = match c.below(4) {
            0 => d,
            1 => d.wrapping_sub(1),
            2 => d.saturating_add(c.below(100) as u32),
            _ => c.below(1 << 32) as u32,
        };
        (d, m)
    };
    let (d, m) = gen(c);
    let bad = d < 42 || m < d;
    if d.wrapping_sub(40) < 6 || m.wrapping_sub(d).wrapping_add(2) < 4 {
        c.nontrivial();
    }
    c.label(if bad { "invalid" } else { "valid" });
    if c.bool() {
        // announced by the requester
        let mut w = World::new(&g);
        ask(&mut w, g.tr, &get_version());
        let r = ask(&mut w, g.tr, &get_caps(0x12, 0, g.req.caps, d, m)).unwrap_or_default();
        let ctx = || {
            format!(
                "transfer size {} message size {} -> {} {}",
                d,
                m,
                hex(&r),
                cfg_str(&g)
            )
        };
        if bad {
            ensure!(
                r.get(1) == Some(&ERROR),
                "responder accepts sizes below the minimum",
                "{}",
                ctx()
            );
            let r = ask(&mut w, g.tr, &nego_algs(0x12, 1, 2, 0x80, 2, &[])).unwrap_or_default();
            ensure!(
                r.get(1) == Some(&ERROR),
                "responder goes on after refused sizes",
                "{}",
                hex(&r)
            );
        } else {
            ensure!(
                r.get(1) == Some(&CAPABILITIES),
                "responder refuses valid sizes",
                "{}",
                ctx()
            );
            let (_, v) = views(&mut w);
            ensure!(
                v.sizes[0] == d && v.sizes[1] == m,
                "sizes recorded wrongly",
                "{:?} {}",
                v,
                ctx()
            );
        }
    } else {
        g.rsp.dts = d;
        g.rsp.max_msg = m;
        let mut w = World::new(&g);
        let r = w.init();
        let n = w.log().len();
        let ctx = || {
            format!(
                "transfer size {} message size {} -> {:?} after {} frames {}",
                d,
                m,
                r,
                n,
                cfg_str(&g)
            )
        };
        if bad {
            ensure!(
                r.is_err(),
                "requester accepts sizes below the minimum",
                "{}",
                ctx()
            );
            ensure!(n <= 4, "requester goes on after refused sizes", "{}", ctx());
        } else if d >= 52 {
            ensure!(r.is_ok(), "requester refuses valid sizes", "{}", ctx());
            let (v, _) = views(&mut w);
            ensure!(
                v.sizes[2] == d && v.sizes[3] == m,
                "sizes recorded wrongly",
                "{:?} {}",
                v,
                ctx()
            );
        }
    }
    Ok(())
}
