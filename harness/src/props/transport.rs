//! C25 transport framing round-trips and refuses foreign frames.

use super::rec::sess_cfg;
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::toy::{self, Party};
use crate::wire::Tr;
use codec::{Codec, Reader, Writer};
use mctp_transport::{MctpMessageHeader, MctpMessageType, MctpTransportEncap};
use pcidoe_transport::{
    PciDoeDataObjectType, PciDoeMessageHeader, PciDoeTransportEncap, PciDoeVendorId,
};
use spdmlib::common::SpdmTransportEncap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "a frame was made or taken apart, or the same history ran over both transports",
        level: "exploration",
        assumptions: &[],
        subs: vec![
            Sub {
                name: "round",
                f: round,
                quick: 300_000,
                thorough: 10_000_000,
            },
            Sub {
                name: "foreign",
                f: foreign,
                quick: 500_000,
                thorough: 20_000_000,
            },
            Sub {
                name: "headers",
                f: headers,
                quick: 200_000,
                thorough: 5_000_000,
            },
            Sub {
                name: "both",
                f: both,
                quick: 4000,
                thorough: 200_000,
            },
        ],
    }]
}

fn tr(c: &mut Case) -> (Tr, Box<dyn SpdmTransportEncap>) {
    if c.bool() {
        (Tr::Doe, Box::new(PciDoeTransportEncap {}))
    } else {
        (Tr::Mctp, Box::new(MctpTransportEncap {}))
    }
}
/// The standard layout; the second part says how long the payload is framed.
fn reference(t: Tr, secured: bool, m: &[u8]) -> Vec<u8> {
    match t {
        Tr::Mctp => {
            let mut v = vec![if secured { 6 } else { 5 }];
            v.extend(m);
            v
        }
        Tr::Doe => {
            let pad = (m.len() + 3) / 4 * 4;
            let dw = ((pad + 8) / 4) as u32;
            let dw = if dw == 0x40000 { 0 } else { dw };
            let mut v = vec![1, 0, if secured { 2 } else { 1 }, 0];
            v.extend(dw.to_le_bytes());
            v.extend(m);
            v.resize(8 + pad, 0);
            v
        }
    }
}
const DOE_MAX: usize = 0x40000 * 4 - 8;

fn length(c: &mut Case, t: Tr) -> usize {
    if c.chance(1, 3000) {
        c.label("huge");
        return match t {
            Tr::Doe => DOE_MAX - 6 + c.usize(13),
            Tr::Mctp => 70_000,
        };
    }
    match c.below(4) {
        0 => c.range(0, 12),
        1 => c.range(0, 300),
        2 => c.range(4080, 4170),
        _ => c.range(0, 5000),
    }
}

fn round(c: &mut Case) -> CaseResult {
    let (t, mut e) = tr(c);
    let n = length(c, t);
    let m = c.blob(n);
    let secured = c.bool();
    c.nontrivial();
    let want = reference(t, secured, &m);
    // a buffer of about the size needed
    let cap = match c.below(4) {
        0 => want.len() + c.usize(20),
        1 => want.len(),
        2 => want.len().saturating_sub(c.range(1, 9)),
        _ => c.usize(want.len() + 40),
    };
    let mut b = vec![0xEEu8; cap];
    let r = e.encap(&m, &mut b, secured);
    let fits = cap >= want.len() && (t == Tr::Mctp || m.len() <= DOE_MAX);
    let cx = || format!("{:?} secured {} message {} buffer {}", t, secured, n, cap);
    if !fits {
        ensure!(
            r.is_err(),
            "a message that does not fit is framed",
            "{:?} {}",
            r,
            cx()
        );
        return Ok(());
    }
    ensure!(
        r == Ok(want.len()),
        "a message that fits is not framed",
        "{:?} {}",
        r,
        cx()
    );
    ensure!(
        b[..want.len()] == want[..],
        "the frame is not laid out as it should be",
        "{} {}",
        hex(&b[..want.len().min(40)]),
        cx()
    );
    // and back
    let body = want.len() - if t == Tr::Mctp { 1 } else { 8 };
    let cap = match c.below(3) {
        0 => body + c.usize(20),
        1 => body,
        _ => c.usize(body + 20),
    };
    let mut d = vec![0xDDu8; cap];
    let r = e.decap(&b[..want.len()], &mut d);
    if cap < n {
        ensure!(
            r.is_err(),
            "a frame is unpacked into too small a buffer",
            "{:?} {} {}",
            r,
            cap,
            cx()
        );
    } else if cap >= body {
        ensure!(
            r == Ok((body, secured)),
            "a frame is not unpacked",
            "{:?} {} {}",
            r,
            cap,
            cx()
        );
        ensure!(
            d[..n] == m[..] && d[n..body].iter().all(|x| *x == 0) && body - n < 4,
            "unpacking changes the message",
            "{} {}",
            cap,
            cx()
        );
    }
    // the wrapping inside records
    let app = c.bool();
    let want: Vec<u8> = match t {
        Tr::Mctp => {
            let mut v = vec![if app { 1 } else { 5 }];
            v.extend(&m);
            v
        }
        Tr::Doe => m.clone(),
    };
    let cap = match c.below(3) {
        0 => want.len() + c.usize(9),
        1 => want.len(),
        _ => c.usize(want.len() + 2),
    };
    let mut b = vec![0xEEu8; cap];
    let r = e.encap_app(&m, &mut b, app);
    if cap < want.len() {
        ensure!(
            r.is_err(),
            "a message that does not fit is wrapped",
            "{:?} {}",
            r,
            cx()
        );
        return Ok(());
    }
    ensure!(
        r == Ok(want.len()) && b[..want.len()] == want[..],
        "a message is not wrapped as it should be",
        "{:?} {}",
        r,
        cx()
    );
    let cap = match c.below(3) {
        0 => n + c.usize(9),
        1 => n,
        _ => c.usize(n + 2),
    };
    let mut d = vec![0xDDu8; cap];
    let r = e.decap_app(&want, &mut d);
    if cap < n {
        ensure!(
            r.is_err(),
            "a message is unwrapped into too small a buffer",
            "{:?} {} {}",
            r,
            cap,
            cx()
        );
    } else {
        ensure!(
            r == Ok((n, app && t == Tr::Mctp)) && d[..n] == m[..],
            "unwrapping changes a message or its marking",
            "{:?} {} {}",
            r,
            cap,
            cx()
        );
    }
    Ok(())
}

fn foreign(c: &mut Case) -> CaseResult {
    let (t, mut e) = tr(c);
    let n = c.len_biased(200);
    let mut f = c.blob(n);
    match t {
        Tr::Mctp => {
            if !f.is_empty() && c.chance(2, 3) {
                f[0] = c.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 0x7e, 0x7f, 0x85, 0x86, 0x15]);
            }
        }
        Tr::Doe => {
            let h = [
                c.pick(&[1u8, 1, 1, 1, 0, 2, 0xff]),
                c.pick(&[0u8, 0, 0, 0, 1, 0x80]),
                c.pick(&[1u8, 2, 1, 2, 0, 3, 0x81]),
                c.pick(&[0u8, 0, 0, 1, 0xff]),
            ];
            let dw = match c.weighted(&[6, 2, 1]) {
                0 => ((f.len() / 4) as u32).wrapping_add(c.pick(&[0u32, 0, 0, 1, u32::MAX, 2])),
                1 => c.pick(&[0u32, 1, 2, 3, 0x3ffff, 0x40000, 0x40001, 0x40002, u32::MAX]),
                _ => c.u64() as u32,
            };
            for (i, x) in h.iter().chain(dw.to_le_bytes().iter()).enumerate() {
                if i < f.len() {
                    f[i] = *x;
                }
            }
        }
    }
    let cap = match c.below(3) {
        0 => f.len() + 8,
        1 => c.usize(f.len() + 8),
        _ => 5000,
    };
    let mut d = vec![0u8; cap];
    let r = e.decap(&f, &mut d);
    let cx = || format!("{:?} {} into {} -> {:?}", t, hex(&f), cap, r);
    // what the frame says it is
    let says: Option<(bool, usize, usize, bool)> = match t {
        Tr::Mctp => match f.first() {
            Some(5) => Some((false, 1, f.len() - 1, true)),
            Some(6) => Some((true, 1, f.len() - 1, true)),
            _ => None,
        },
        Tr::Doe => {
            if f.len() < 8 || f[..2] != [1, 0] || !matches!(f[2], 1 | 2) {
                None
            } else {
                let raw = u32::from_le_bytes([f[4], f[5], f[6], f[7]]);
                let dw = match raw & 0x3ffff {
                    0 => 0x40000usize,
                    x => x as usize,
                };
                // reserved bits may be ignored or refused
                let plain = raw >> 18 == 0 && f[3] == 0;
                if dw < 2 || dw * 4 > f.len() {
                    None
                } else {
                    Some((f[2] == 2, 8, dw * 4 - 8, plain && f.len() == dw * 4))
                }
            }
        }
    };
    c.nontrivial();
    match says {
        None => {
            ensure!(r.is_err(), "a foreign frame is taken", "{}", cx());
        }
        Some((sec, at, len, plain)) => {
            c.label("ours");
            match r {
                Ok((n, s)) => {
                    ensure!(
                        n == len && s == sec && d[..n] == f[at..at + len],
                        "a frame is unpacked wrongly",
                        "{}",
                        cx()
                    );
                }
                Err(_) => ensure!(cap < len || !plain, "a good frame is refused", "{}", cx()),
            }
        }
    }
    // wrapped messages
    let r = e.decap_app(&f, &mut d);
    match (t, f.first()) {
        (Tr::Mctp, Some(1)) | (Tr::Mctp, Some(5)) => {
            if cap >= f.len() - 1 {
                ensure!(
                    r == Ok((f.len() - 1, f[0] == 1)) && d[..f.len() - 1] == f[1..],
                    "a wrapped message is unwrapped wrongly",
                    "{:?} {}",
                    r,
                    cx()
                );
            } else {
                ensure!(
                    r.is_err(),
                    "a message is unwrapped into too small a buffer",
                    "{:?} {}",
                    r,
                    cx()
                );
            }
        }
        (Tr::Mctp, _) => ensure!(
            r.is_err(),
            "a foreign message is unwrapped",
            "{:?} {}",
            r,
            cx()
        ),
        (Tr::Doe, _) => {
            if cap >= f.len() {
                ensure!(
                    r == Ok((f.len(), false)) && d[..f.len()] == f[..],
                    "a wrapped message is unwrapped wrongly",
                    "{:?} {}",
                    r,
                    cx()
                );
            } else {
                ensure!(
                    r.is_err(),
                    "a message is unwrapped into too small a buffer",
                    "{:?} {}",
                    r,
                    cx()
                );
            }
        }
    }
    Ok(())
}

fn headers(c: &mut Case) -> CaseResult {
    c.nontrivial();
    let mut b = [0xAAu8; 12];
    if c.bool() {
        let t = c.byte();
        let h = MctpMessageHeader {
            r#type: MctpMessageType::read(&mut Reader::init(&[t])).unwrap(),
        };
        let n = h.encode(&mut Writer::init(&mut b));
        ensure!(
            matches!(n, Ok(1)) && b[0] == t,
            "MCTP header encoding",
            "{:02x} -> {:02x?}",
            t,
            b
        );
        let back = MctpMessageHeader::read(&mut Reader::init(&b[..1])).map(|h| h.r#type);
        ensure!(back == Some(h.r#type), "MCTP header reading", "{:02x}", t);
        ensure!(
            MctpMessageHeader::read(&mut Reader::init(&[])).is_none(),
            "MCTP header of nothing"
        );
        return Ok(());
    }
    let v = c.pick(&[1u16, 0, 2, 0xffff, 0x100]);
    let t = c.byte();
    let dw = match c.below(4) {
        0 => c.pick(&[2u32, 3, 0x3ffff, 0x40000]),
        _ => 2 + c.below(0x3ffff) as u32,
    };
    let h = PciDoeMessageHeader {
        vendor_id: PciDoeVendorId::read(&mut Reader::init(&v.to_le_bytes())).unwrap(),
        data_object_type: PciDoeDataObjectType::read(&mut Reader::init(&[t])).unwrap(),
        payload_length: dw * 4 - 8,
    };
    let n = h.encode(&mut Writer::init(&mut b));
    let mut want = v.to_le_bytes().to_vec();
    want.extend([t, 0]);
    want.extend((dw & 0x3ffff).to_le_bytes());
    ensure!(
        matches!(n, Ok(8)) && b[..8] == want[..] && b[8..] == [0xAA; 4],
        "DOE header encoding",
        "{} {:02x?}",
        dw,
        b
    );
    let back = PciDoeMessageHeader::read(&mut Reader::init(&b[..8]));
    ensure!(
        back.map_or(false, |x| x.vendor_id == h.vendor_id
            && x.data_object_type == h.data_object_type
            && x.payload_length == h.payload_length),
        "DOE header reading",
        "{} {:02x?}",
        dw,
        b
    );
    let n = c.usize(8);
    ensure!(
        PciDoeMessageHeader::read(&mut Reader::init(&b[..n])).is_none(),
        "a DOE header cut short is read",
        "{}",
        n
    );
    let mut s = [0u8; 8];
    ensure!(
        h.encode(&mut Writer::init(&mut s[..n])).is_err(),
        "a DOE header does not fit and is written",
        "{}",
        n
    );
    Ok(())
}

/// What a history amounts to, whatever carries it.
#[derive(PartialEq, Debug)]
struct Trail {
    results: Vec<String>,
    /// sender, session, code, param1 (not of random meaning), length in words
    msgs: Vec<(Party, Option<u32>, u8, u8, usize)>,
    sessions: Vec<(u32, crate::world::SpdmSessionStateN)>,
}
fn trail(fl: &mut Flow, acts: &[Act]) -> Result<Trail, Failure> {
    fl.connect()?;
    let mut results = vec![];
    for a in acts {
        let r = fl.w.act(a);
        fl.a.catch_up(&fl.w);
        let r = match r {
            // exported keys and the like depend on the random values
            Some(Ok(o)) => format!("{:?}", o),
            Some(Err(e)) => format!("{:?}", e),
            None => "-".into(),
        };
        results.push(r);
    }
    fl.clean(&[])?;
    let msgs =
        fl.a.msgs
            .iter()
            .map(|m: &Msg| {
                (
                    m.from,
                    m.session,
                    m.bytes.get(1).copied().unwrap_or(0),
                    m.bytes.get(2).copied().unwrap_or(0),
                    (m.bytes.len() + 3) / 4,
                )
            })
            .collect();
    Ok(Trail {
        results,
        msgs,
        sessions: fl
            .w
            .req_sessions()
            .into_iter()
            .chain(fl.w.rsp_sessions())
            .collect(),
    })
}

/// The same history over either transport.
fn both(c: &mut Case) -> CaseResult {
    let mut g = sess_cfg(c);
    g.tr = Tr::Mctp;
    let m = c.mark();
    let mut fl = Flow::new(c, g.clone());
    let mut k = c.span(m);
    let mut acts: Vec<Act> = vec![];
    let mut open = 0;
    for _ in 0..c.range(1, 8) {
        let a = gen_op(c, &fl.f, open);
        match a {
            Act::App(..) => continue,
            Act::Ke(..) | Act::Psk(..) => open += 1,
            Act::Cert(None, _) if !cfg!(feature = "hashed") => acts.push(Act::Digest(None)),
            Act::Meas(..)
                if !cfg!(feature = "hashed")
                    && acts.iter().filter(|x| matches!(x, Act::Meas(..))).count() > 0 =>
            {
                continue
            }
            _ => {}
        }
        acts.push(a);
    }
    let x = trail(&mut fl, &acts)?;
    c.nontrivial();
    c.sample(|| format!("{:?}", acts).chars().take(300).collect());
    drop(fl);
    toy::reset();
    g.tr = Tr::Doe;
    let mut fl = Flow::new(&mut k, g);
    let y = trail(&mut fl, &acts)?;
    if x != y {
        let i = x.msgs.iter().zip(y.msgs.iter()).position(|(a, b)| a != b);
        return fail(
            "a history differs between the transports",
            format!(
                "{:?} {:?} / {:?} {:?} {} / {:?} {}",
                acts,
                x.results,
                y.results,
                i.map(|i| (x.msgs[i], y.msgs[i])),
                x.msgs.len(),
                i,
                y.msgs.len()
            ),
        );
    }
    Ok(())
}
