//! C31 a connection that is initialised anew starts from a clean slate.

use super::life::gen_fault;
use super::nego::views;
use super::rec::sess_cfg;
use super::robust::{env_of, sessions_up, some_op};
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::gen;
use crate::tap;
use crate::toy::{self, Party};
use crate::wire::{self, code::*};
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "the connection before the re-initialisation was used, and afterwards more than the negotiation took place",
        level: "exploration",
        assumptions: &["toy cryptography with a seeded random source"],
        subs: vec![
            Sub { name: "same", f: same, quick: 6000, thorough: 300_000 },
            Sub { name: "other", f: other, quick: 12000, thorough: 300_000 },
            Sub { name: "halfway", f: halfway, quick: 5000, thorough: 250_000 },
        ],
    }]
}

/// Everything to be seen of a connection from its start on.
#[derive(PartialEq, Debug, Clone)]
struct Seen {
    events: Vec<String>,
    frames: Vec<(Party, Vec<u8>)>,
    keys: Vec<(Party, Vec<u8>, Vec<u8>)>,
    end: Vec<String>,
}

fn state(w: &mut World) -> Vec<String> {
    let mut v = vec![
        format!("{:?}", views(w)),
        format!("{:?}", (w.req_sessions(), w.rsp_sessions())),
    ];
    for c in [&w.req.common, &w.rsp.common] {
        v.push(format!(
            "{:?}",
            c.peer_info
                .peer_cert_chain
                .iter()
                .map(|x| x.as_ref().map(|x| hex(&x.data[..x.data_size as usize])))
                .collect::<Vec<_>>()
        ));
    }
    v
}

/// Connect and go on; what happens is drawn from `c`.
fn phase(c: &mut Case, w: &mut World, g: &Cfg, wild: bool) -> (Seen, u32) {
    let from = w.log_len();
    let keys = toy::with(|t| t.okm.len());
    let f = feat(g, &toy::with(|t| t.meas.clone()));
    let mut events = vec![];
    let mut good = 0;
    let r = w.init();
    let up = r.is_ok();
    events.push(format!("init {:?}", r));
    if c.chance(3, 4) && f.cert {
        for s in f.slots.clone() {
            let r = w.digest(None).and_then(|_| w.cert(None, s));
            events.push(format!("cert {:?}", r));
        }
    }
    for _ in 0..c.range(1, 6) {
        if wild && c.chance(1, 3) {
            let code = c.pick(&ALL_REQ);
            let env = env_of(c, w, Party::Rsp);
            let b = gen::message(c, code, &env);
            let r = w.feed(&wire::frame(g.tr, false, &b));
            events.push(format!("feed {:02x} {:?} {:?}", code, r.ret, r.sent.len()));
        } else {
            let a = gen_op(c, &f, w.open_sessions().len());
            let r = w.act(&a);
            if up && matches!(r, Some(Ok(_))) {
                good += 1;
            }
            events.push(format!("{:?} -> {:?}", a, r));
        }
        w.drain();
    }
    let log = w.log();
    let seen = Seen {
        events,
        frames: log[from..]
            .iter()
            .map(|f| (f.from, f.sent.clone()))
            .collect(),
        keys: toy::with(|t| t.okm[keys..].to_vec()),
        end: state(w),
    };
    (seen, good)
}

/// Something of everything happens on the old connection.
fn past(c: &mut Case, fl: &mut Flow) -> CaseResult {
    let n = c.weighted(&[2, 3, 2, 1]);
    sessions_up(c, fl, n)?;
    for _ in 0..c.range(0, 5) {
        match c.below(5) {
            0 => {
                let f = gen_fault(c);
                let base = toy::with(|t| t.counts[f.party as usize][f.op as usize]);
                toy::with(|t| {
                    t.faults = vec![toy::Fault {
                        nth: base + f.nth,
                        ..f
                    }];
                    t.fault_armed = true;
                });
                let a = some_op(c, fl);
                let _ = fl.w.act(&a);
                toy::with(|t| t.fault_armed = false);
            }
            1 => {
                let code = c.pick(&ALL_REQ);
                let env = env_of(c, &fl.w, Party::Rsp);
                let b = gen::message(c, code, &env);
                fl.w.feed(&wire::frame(fl.g.tr, false, &b));
            }
            2 => {
                // an altered answer
                let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
                let skip = RefCell::new(c.usize(3));
                let seed = c.u64();
                let k = RefCell::new(Case::random(seed, false));
                tap::tap(&fl.w, &a, move |a, p, m, _| {
                    let m: &Msg = m?;
                    if p == Party::Req {
                        return None;
                    }
                    let mut n = skip.borrow_mut();
                    if *n > 0 {
                        *n -= 1;
                        return None;
                    }
                    let mut b = m.bytes.clone();
                    let i = k.borrow_mut().usize(b.len());
                    b[i] ^= 1 << k.borrow_mut().below(8);
                    Some(vec![tap::reframe(a, m, &b)])
                });
                let a = some_op(c, fl);
                let _ = fl.w.act(&a);
                fl.w.set_mitm(None);
            }
            _ => {
                let a = some_op(c, fl);
                let _ = fl.w.act(&a);
            }
        }
        fl.w.drain();
    }
    Ok(())
}

fn compare(
    c: &mut Case,
    w: &mut World,
    x: &Cfg,
    meas: Vec<toy::MeasBlock>,
    past: &str,
) -> CaseResult {
    w.retune(x);
    toy::with(|t| t.meas = meas.clone());
    let wild = c.bool();
    let m = c.mark();
    let (b, good) = phase(c, w, x, wild);
    let mut k = c.span(m);
    toy::reset();
    toy::with(|t| t.meas = meas);
    let mut fresh = World::new(x);
    let (a, _) = phase(&mut k, &mut fresh, x, wild);
    if good > 0 {
        c.nontrivial();
    }
    c.sample(|| b.events.join("; ").chars().take(300).collect());
    if a != b {
        let e = a
            .events
            .iter()
            .zip(b.events.iter())
            .position(|(x, y)| x != y);
        let f = a
            .frames
            .iter()
            .zip(b.frames.iter())
            .position(|(x, y)| x != y);
        return fail(
            "a re-initialised connection differs from a fresh one",
            format!(
                "event {:?} frame {:?} keys {} state {:?}; events {:?}; before: {}; {}",
                e.map(|i| (&a.events[i], &b.events[i])),
                f.map(|i| (hex(&a.frames[i].1), hex(&b.frames[i].1))),
                a.keys == b.keys,
                a.end
                    .iter()
                    .zip(b.end.iter())
                    .filter(|(x, y)| x != y)
                    .collect::<Vec<_>>(),
                b.events,
                past,
                cfg_str(x)
            ),
        );
    }
    Ok(())
}

fn old(c: &mut Case) -> Result<Flow, Failure> {
    let g = match c.weighted(&[4, 1]) {
        0 => sess_cfg(c),
        _ => gen_wide(c),
    };
    let mut fl = Flow::new(c, g);
    fl.connect()?;
    Ok(fl)
}

/// The same configuration again.
fn same(c: &mut Case) -> CaseResult {
    let mut fl = old(c)?;
    past(c, &mut fl)?;
    let meas = toy::with(|t| t.meas.clone());
    let h = format!("{:?} {}", fl.hist, cfg_str(&fl.g));
    let mut g = fl.g.clone();
    g.rng = c.u64();
    compare(c, &mut fl.w, &g, meas, &h)
}

/// Both sides are configured anew.
fn other(c: &mut Case) -> CaseResult {
    let mut fl = old(c)?;
    past(c, &mut fl)?;
    let mut x = match c.weighted(&[2, 1]) {
        0 => sess_cfg(c),
        _ => gen_wide(c),
    };
    x.tr = fl.g.tr;
    match c.below(4) {
        0 => {}
        1 => {
            // another requester, the same responder
            x.rsp = fl.g.rsp.clone();
            keep_chains(&mut x, &fl.g);
        }
        2 => {
            x.req = fl.g.req.clone();
            keep_chains(&mut x, &fl.g);
        }
        _ => keep_chains(&mut x, &fl.g),
    }
    let meas = gen_meas_for(c, x.rsp.meas_hash);
    let h = format!("{:?} {}", fl.hist, cfg_str(&fl.g));
    compare(c, &mut fl.w, &x, meas, &h)
}

fn keep_chains(x: &mut Cfg, g: &Cfg) {
    x.rsp_chain = g.rsp_chain.clone();
    x.rsp_trust = g.rsp_trust.clone();
    x.req_chain = g.req_chain.clone();
    x.req_trust = g.req_trust.clone();
}

/// The old connection did not even get through its negotiation.
fn halfway(c: &mut Case) -> CaseResult {
    let g = sess_cfg(c);
    let mut fl = Flow::new(c, g);
    for _ in 0..c.range(1, 2) {
        match c.below(3) {
            0 => {
                let n = c.range(1, 2);
                let mut left = n;
                fl.w.set_mitm(Some(Box::new(move |p, _, f| {
                    if p == Party::Rsp {
                        if left == 0 {
                            return vec![];
                        }
                        left -= 1;
                    }
                    vec![f.to_vec()]
                })));
                let _ = fl.w.init();
                fl.w.set_mitm(None);
                fl.w.drain();
            }
            1 => {
                for _ in 0..c.range(1, 4) {
                    let code = c.pick(&[
                        GET_VERSION,
                        GET_CAPABILITIES,
                        NEGOTIATE_ALGORITHMS,
                        GET_DIGESTS,
                        KEY_EXCHANGE,
                        PSK_EXCHANGE,
                    ]);
                    let env = env_of(c, &fl.w, Party::Rsp);
                    let b = gen::message(c, code, &env);
                    fl.w.feed(&wire::frame(fl.g.tr, false, &b));
                }
            }
            _ => {
                let f = gen_fault(c);
                toy::with(|t| {
                    t.faults = vec![f];
                    t.fault_armed = true;
                });
                let _ = fl.w.init();
                toy::with(|t| t.fault_armed = false);
                fl.w.drain();
            }
        }
    }
    let x = if c.bool() {
        let mut x = sess_cfg(c);
        x.tr = fl.g.tr;
        x
    } else {
        let mut x = fl.g.clone();
        x.rng = c.u64();
        x
    };
    let meas = gen_meas_for(c, x.rsp.meas_hash);
    let h = cfg_str(&fl.g);
    compare(c, &mut fl.w, &x, meas, &h)
}
