//! C26 failures of the backends and the device are reported, never turned into success.

use super::robust::{served, sessions_up, some_op, start};
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::toy::{self, Fault, Op, Party};
use crate::wire;
use crate::world::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "a backend or device call that the operation makes was failed",
        level: "fault_enumeration",
        assumptions: &["toy cryptography"],
        subs: vec![
            Sub {
                name: "sweep",
                f: sweep,
                quick: 1000,
                thorough: 30_000,
            },
            Sub {
                name: "mixed",
                f: mixed,
                quick: 24000,
                thorough: 500_000,
            },
        ],
    }]
}

type Estab = [Vec<u32>; 2];
fn estab(w: &World) -> Estab {
    let of = |v: Vec<(u32, SpdmSessionStateN)>| -> Vec<u32> {
        v.iter()
            .filter(|s| s.1 == SpdmSessionStateN::Established)
            .map(|s| s.0)
            .collect()
    };
    [of(w.req_sessions()), of(w.rsp_sessions())]
}
/// Failures whose being reported is judged elsewhere (C23, C24).
fn ours(op: Op) -> bool {
    !matches!(op, Op::App | Op::Vendor)
}

fn judge(
    fl: &Flow,
    act: &Act,
    what: &str,
    hit: [bool; 2],
    before: &Estab,
    r: &spdmlib::error::SpdmResult<Out>,
) -> CaseResult {
    let after = estab(&fl.w);
    let ctx = || {
        format!(
            "{} at {} -> {:?}; {:?} {:?} {:?} {}",
            what,
            show(act),
            r.as_ref().map(|_| ()),
            before,
            after,
            fl.hist,
            cfg_str(&fl.g)
        )
    };
    ensure!(
        r.is_err(),
        format!(
            "an operation succeeds although a backend fails: {}",
            what.split(' ').take(2).collect::<Vec<_>>().join(" ")
        ),
        "{}",
        ctx()
    );
    for p in 0..2 {
        if p == 1 && !hit[1] {
            continue;
        }
        ensure!(
            after[p].iter().all(|x| before[p].contains(x)),
            "a session is established although a step of it failed",
            "side {} {}",
            p,
            ctx()
        );
    }
    Ok(())
}

/// The answer the responder gave to the request it failed in (application data: empty).
fn answer_after(w: &World, tr: wire::Tr, n0: usize, s0: u64) -> Option<Vec<u8>> {
    let (sends, encs) = toy::with(|t| t.rsp_mark)?;
    let log = w.log();
    let f = log[n0..]
        .iter()
        .filter(|f| f.from == Party::Rsp)
        .nth((sends - s0) as usize)?;
    let (secured, m) = wire::unframe(tr, &f.sent)?;
    if !secured {
        return Some(m.to_vec());
    }
    let pt = toy::with(|t| {
        t.enc[encs..]
            .iter()
            .find(|e| e.party == Party::Rsp)
            .map(|e| e.pt.clone())
    })?;
    let n = u16::from_le_bytes([pt[0], pt[1]]) as usize;
    let (app, m) = wire::app_unwrap(tr, &pt[2..2 + n])?;
    Some(if app { vec![] } else { m.to_vec() })
}

fn show(a: &Act) -> String {
    let s = format!("{:?}", a);
    s.chars().take(60).collect()
}

fn build(c: &mut Case) -> Result<(Flow, Act), Failure> {
    let mut fl = start(c)?;
    let n = c.weighted(&[4, 2, 1]);
    sessions_up(c, &mut fl, n)?;
    if c.chance(1, 4) {
        fl.history(c, 1)?;
    }
    let act = some_op(c, &fl);
    Ok((fl, act))
}

/// Every call of an operation fails in turn.
fn sweep(c: &mut Case) -> CaseResult {
    let m = c.mark();
    let (mut fl, act) = build(c)?;
    let k0 = toy::with(|t| t.counts);
    let r = match fl.w.act(&act) {
        None => return Ok(()),
        Some(r) => r,
    };
    let k1 = toy::with(|t| t.counts);
    let genuine = r.is_ok();
    let rest = c.u64();
    let sp = |c: &Case| c.span(m);
    let mut todo: Vec<Fault> = vec![];
    for p in [Party::Req, Party::Rsp] {
        for op in toy::ALL_OPS {
            let (a, b) = (k0[p as usize][op as usize], k1[p as usize][op as usize]);
            if !ours(op) {
                continue;
            }
            let n = b - a;
            for i in 0..n {
                let take = n <= 6 || i < 3 || i == n - 1 || mix(rest, i) % n < 3;
                if take {
                    todo.push(Fault {
                        party: p,
                        op,
                        nth: a + i,
                        sticky: false,
                    });
                }
            }
        }
    }
    c.sample(|| format!("{} calls of {}", todo.len(), show(&act)));
    for (i, f) in todo.iter().enumerate() {
        toy::reset();
        let mut k = sp(c);
        let (mut fl, act) = build(&mut k)?;
        let before = estab(&fl.w);
        let what = format!(
            "{:?} {:?} {}",
            f.party,
            f.op,
            f.nth - k0[f.party as usize][f.op as usize]
        );
        toy::with(|t| {
            t.faults = vec![f.clone()];
            t.fault_armed = true;
            t.fault_hits = 0;
        });
        let (n0, s0) = (fl.w.log_len(), k0[1][Op::Send as usize]);
        let r = fl.w.act(&act).unwrap();
        let h = toy::with(|t| {
            t.fault_armed = false;
            t.fault_hits
        });
        if h == 0 {
            return fail(
                "harness: the failing call is not reached",
                format!("{} {}", what, show(&act)),
            );
        }
        if genuine {
            c.nontrivial();
            let hit = [f.party == Party::Req, f.party == Party::Rsp];
            judge(&fl, &act, &what, hit, &before, &r)?;
            if !matches!(f.op, Op::Send | Op::Recv) {
                let m = answer_after(&fl.w, fl.g.tr, n0, s0);
                let ctx = || {
                    format!(
                        "{:x?} {} {} {}",
                        m.as_ref().map(|m| hex(m)),
                        what,
                        show(&act),
                        cfg_str(&fl.g)
                    )
                };
                ensure!(
                    m.as_ref().map_or(true, |m| m.get(1) == Some(&0x7f)),
                    "a success answer although a backend fails",
                    "{}",
                    ctx()
                );
                ensure!(
                    m.as_ref().map_or(true, |m| m.len() == 4),
                    "more than an error answer although a backend fails",
                    "{}",
                    ctx()
                );
            }
        }
        if mix(rest, i as u64) % 3 == 0 {
            served(&mut k, &mut fl)?;
        }
    }
    Ok(())
}

/// Failures here and there in a history.
fn mixed(c: &mut Case) -> CaseResult {
    let (mut fl, first) = build(c)?;
    let n = c.range(1, 5);
    let mut next = Some(first);
    let mut broken = false;
    for _ in 0..n {
        let act = match next.take() {
            Some(a) => a,
            None => some_op(c, &fl),
        };
        let faults: Vec<Fault> = (0..c.range(1, 3))
            .map(|_| {
                let party = if c.bool() { Party::Rsp } else { Party::Req };
                let op = c.pick(&toy::ALL_OPS);
                Fault {
                    party,
                    op,
                    nth: toy::with(|t| t.counts[party as usize][op as usize])
                        + c.weighted(&[4, 2, 2, 1, 1, 1]) as u64,
                    sticky: c.chance(1, 4),
                }
            })
            .filter(|f| ours(f.op))
            .collect();
        let what = faults
            .iter()
            .map(|f| format!("{:?} {:?}", f.party, f.op))
            .collect::<Vec<_>>()
            .join(" ");
        let before = estab(&fl.w);
        toy::with(|t| {
            t.faults = faults.clone();
            t.fault_armed = true;
            t.fault_hits = 0;
        });
        let r = fl.w.act(&act);
        let h = toy::with(|t| {
            t.fault_armed = false;
            t.fault_hits
        });
        fl.w.drain();
        let r = match r {
            None => continue,
            Some(r) => r,
        };
        if h > 0 {
            c.nontrivial();
            let only = |p| faults.iter().all(|f| f.party == p);
            let hit = [only(Party::Req), only(Party::Rsp)];
            if !broken || matches!(act, Act::Init | Act::Ke(..) | Act::Psk(..)) {
                judge(&fl, &act, &what, hit, &before, &r)?;
            }
            broken = true;
        }
    }
    served(c, &mut fl)
}
