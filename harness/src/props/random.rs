//! C32 nonces, random fields, contexts and ephemeral keys are fresh.

use super::robust::start;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::toy::{self, Party};
use crate::wire::{self, code::*};
use crate::world::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "two or more random fields were sent (fresh), or the random source came up short while a random field was being made (short)",
        level: "exploration",
        assumptions: &["a random source that logs what it gives out"],
        subs: vec![
            Sub { name: "fresh", f: fresh, quick: 36000, thorough: 500_000 },
            Sub { name: "short", f: short, quick: 24000, thorough: 300_000 },
        ],
    }]
}

#[derive(Default)]
struct Book {
    /// pieces of the draws already used, by draw position in the party's stream
    used: [Vec<(usize, usize)>; 2],
    seen: BTreeSet<Vec<u8>>,
    keys: BTreeSet<Vec<u8>>,
    fields: u32,
}

/// What a party drew since entry `from` of the log, with the position in its
/// whole stream at which that starts.
fn drawn(p: Party, from: usize) -> (usize, Vec<u8>) {
    toy::with(|t| {
        let at = t.rand_log[..from]
            .iter()
            .filter(|x| x.0 == p)
            .map(|x| x.1.len())
            .sum();
        let v = t.rand_log[from..]
            .iter()
            .filter(|x| x.0 == p)
            .flat_map(|x| x.1.clone())
            .collect();
        (at, v)
    })
}

impl Book {
    /// Judge one message sent while the log grew from `rand` and `dhe` on.
    fn judge(
        &mut self,
        px: &wire::Px,
        from: Party,
        m: &[u8],
        rand: usize,
        dhe: usize,
        fl: &Flow,
    ) -> CaseResult {
        if m.len() < 4 {
            return Ok(());
        }
        let name = match m[1] {
            CHALLENGE | CHALLENGE_AUTH | GET_MEASUREMENTS | MEASUREMENTS => "nonce",
            KEY_EXCHANGE | KEY_EXCHANGE_RSP => "random",
            PSK_EXCHANGE | PSK_EXCHANGE_RSP => "context",
            _ => return Ok(()),
        };
        let p = match wire::parse(m, px) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        let what = format!("{:02x} {}", m[1], name);
        let f = match p.find(name) {
            Some(f) => f.clone(),
            None => {
                ensure!(
                    m[1] == GET_MEASUREMENTS && m[2] & 1 == 0
                        || m[1] == PSK_EXCHANGE_RSP && fl.g.rsp.caps & RS_PSK_CTX == 0,
                    "no random field",
                    "{} {}",
                    what,
                    hex(m)
                );
                return Ok(());
            }
        };
        let v = m[f.off..f.off + f.len].to_vec();
        if v.is_empty() {
            ensure!(
                m[1] == PSK_EXCHANGE_RSP && fl.g.rsp.caps & RS_PSK_CTX == 0,
                "empty random field",
                "{} {}",
                what,
                hex(m)
            );
            return Ok(());
        }
        if name == "context" && m[1] == PSK_EXCHANGE {
            ensure!(
                v.len() >= px.hlen,
                "context is shorter than the hash",
                "{} {}",
                what,
                v.len()
            );
        }
        ensure!(
            self.seen.insert(v.clone()),
            "random value sent twice",
            "{} {} {}",
            what,
            hex(&v),
            fl.ctx()
        );
        let (at, s) = drawn(from, rand);
        let used = &mut self.used[from as usize];
        let i = (0..s.len().saturating_sub(v.len() - 1)).find(|i| {
            s[*i..*i + v.len()] == v[..]
                && !used.iter().any(|u| at + i < u.1 && u.0 < at + i + v.len())
        });
        match i {
            Some(i) => used.push((at + i, at + i + v.len())),
            None => {
                return fail(
                    format!("{} is not fresh randomness", what),
                    format!("{} drawn {} {}", hex(&v), hex(&s), fl.ctx()),
                )
            }
        }
        self.fields += 1;
        if name == "random" {
            let e = match p.find("exchange") {
                Some(e) => m[e.off..e.off + e.len].to_vec(),
                None => return fail("no exchange data", what),
            };
            ensure!(
                self.keys.insert(e.clone()),
                "ephemeral key used twice",
                "{} {} {}",
                what,
                hex(&e),
                fl.ctx()
            );
            let fresh = toy::with(|t| t.dhe[dhe..].iter().any(|d| d.0 == from && d.1 == e));
            ensure!(
                fresh,
                "ephemeral key was not generated for this exchange",
                "{} {} {}",
                what,
                hex(&e),
                fl.ctx()
            );
        }
        Ok(())
    }
    /// Everything the audit has seen since message `from`.
    fn round(&mut self, fl: &Flow, from: usize, rand: usize, dhe: usize) -> CaseResult {
        let px = fl.a.px();
        for m in &fl.a.msgs[from..] {
            if !m.app {
                self.judge(&px, m.from, &m.bytes, rand, dhe, fl)?;
            }
        }
        Ok(())
    }
}

fn marks(fl: &Flow) -> (usize, usize, usize) {
    let (r, d) = toy::with(|t| (t.rand_log.len(), t.dhe.len()));
    (fl.a.msgs.len(), r, d)
}

/// An operation, most often one with a random field.
fn op(c: &mut Case, fl: &Flow) -> Act {
    let o = fl.open();
    let slot = c.pick(&fl.f.slots);
    for _ in 0..2 {
        match c.below(5) {
            0 if fl.f.chal && fl.f.cert => return Act::Challenge(slot, 0),
            1 if fl.f.meas => {
                let s = if o > 0 && c.bool() {
                    Some(c.usize(o))
                } else {
                    None
                };
                let sig = fl.f.meas_sig && c.chance(2, 3);
                return Act::Meas(s, slot, sig, c.pick(&[0u8, 0xff]));
            }
            2 if fl.f.kex && fl.f.cert && o < 4 => return Act::Ke(slot, 0),
            3 if fl.f.psk && o < 4 => return Act::Psk(0, vec![7; 3]),
            4 if o == 4 => return Act::End(c.usize(o)),
            _ => {}
        }
    }
    gen_op(c, &fl.f, o)
}

/// A request seen before goes to the responder once more; its answers.
fn again(c: &mut Case, fl: &mut Flow) -> Option<(wire::Px, Vec<u8>)> {
    let old: Vec<Vec<u8>> = fl
        .a
        .msgs
        .iter()
        .filter(|m| {
            m.from == Party::Req
                && m.session.is_none()
                && m.bytes.len() > 2
                && [CHALLENGE, GET_MEASUREMENTS, KEY_EXCHANGE, PSK_EXCHANGE].contains(&m.bytes[1])
        })
        .map(|m| m.bytes.clone())
        .collect();
    if old.is_empty() {
        return None;
    }
    let m = c.pick(&old);
    let mut px = fl.a.px();
    px.summary = m[1] != GET_MEASUREMENTS && (m[2] == 1 || m[2] == 0xff);
    px.sig_req = m[1] == GET_MEASUREMENTS && m[2] & 1 == 1;
    let r = fl.w.feed(&wire::frame(fl.g.tr, false, &m));
    fl.a.frames = fl.w.log_len();
    let f = r.sent.first()?;
    let (_, b) = wire::unframe(fl.g.tr, f)?;
    if b.len() < 4 || b[1] == ERROR {
        return None;
    }
    Some((px, b.to_vec()))
}

fn fresh(c: &mut Case) -> CaseResult {
    let mut fl = start(c)?;
    let mut book = Book::default();
    let mut strayed = false;
    for _ in 0..c.range(3, 9) {
        let (m, r, d) = marks(&fl);
        match c.weighted(&[8, 2, if strayed { 3 } else { 0 }]) {
            0 => {
                let a = op(c, &fl);
                if strayed {
                    fl.hist.push(a.clone());
                    let _ = fl.w.act(&a);
                    fl.w.drain();
                    fl.a.catch_up(&fl.w);
                } else {
                    fl.must(a)?;
                }
                book.round(&fl, m, r, d)?;
            }
            1 => {
                if let Some((px, b)) = again(c, &mut fl) {
                    book.judge(&px, Party::Rsp, &b, r, d, &fl)?;
                    c.label("request fed again");
                }
                strayed = true;
            }
            _ => {
                let r = fl.w.init();
                ensure!(r.is_ok(), "connection fails", "{:?} {}", r, fl.ctx());
                fl.a.catch_up(&fl.w);
                if fl.f.cert {
                    for s in fl.f.slots.clone() {
                        let _ = fl.w.digest(None).and_then(|_| fl.w.cert(None, s));
                    }
                    fl.a.catch_up(&fl.w);
                }
                strayed = false;
            }
        }
    }
    c.label(match book.fields {
        0 => "no random field",
        1..=4 => "1-4 random fields",
        _ => "5 or more",
    });
    if book.fields >= 2 {
        c.nontrivial();
    }
    Ok(())
}

/// The source gives fewer bytes than asked for, once or from then on.
fn short(c: &mut Case) -> CaseResult {
    let mut fl = start(c)?;
    let mut book = Book::default();
    for _ in 0..c.range(0, 2) {
        let a = op(c, &fl);
        let (m, r, d) = marks(&fl);
        fl.must(a)?;
        book.round(&fl, m, r, d)?;
    }
    let a = op(c, &fl);
    if !fl.fits(&a) {
        return Ok(());
    }
    if let Act::Cert(None, _) = a {
        let _ = fl.fresh_b();
    }
    fl.a.catch_up(&fl.w);
    let (m, r, d) = marks(&fl);
    let party = c.pick(&[Party::Req, Party::Rsp]);
    let give = c.range(0, 31);
    let base = toy::with(|t| t.counts[party as usize][toy::Op::Rand as usize]);
    let nth = base + c.weighted(&[4, 2, 1]) as u64;
    let sticky = c.chance(1, 3);
    toy::with(|t| {
        t.short = Some((party, nth, give, sticky));
        t.short_hits = 0;
    });
    fl.hist.push(a.clone());
    let res = fl.w.act(&a);
    fl.a.catch_up(&fl.w);
    let hits = toy::with(|t| {
        t.short = None;
        t.short_hits
    });
    book.round(&fl, m, r, d)?;
    if hits > 0 {
        c.nontrivial();
        c.label(match (party, matches!(res, Some(Ok(_)))) {
            (Party::Req, true) => "requester: made up for",
            (Party::Req, false) => "requester: failed",
            (Party::Rsp, true) => "responder: made up for",
            (Party::Rsp, false) => "responder: failed",
        });
    } else {
        ensure!(
            !matches!(res, Some(Err(_))),
            "operation fails",
            "{:?} {:?} {}",
            a,
            res,
            fl.ctx()
        );
    }
    Ok(())
}
