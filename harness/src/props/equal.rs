//! C33 the two transcript builds behave identically at 1.2.
//!
//! The running build makes a trace of a case and asks the other build
//! (PBT_OTHER) for its trace of the same choices.

use super::life::gen_fault;
use super::nego::{gen_pair, views};
use super::rec::sess_cfg;
use super::robust::{env_of, some_op};
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::gen;
use crate::ops::*;
use crate::tap;
use crate::toy::{self, Op, Party};
use crate::wire::{self, code::*};
use crate::world::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "a connection was made and at least one further operation took place (negotiation: the connection got past the capabilities)",
        level: "exploration",
        assumptions: &["toy cryptography with the same seeded random source in both builds", "within the capacity of the stored transcripts"],
        subs: vec![
            Sub { name: "history", f: history, quick: 12000, thorough: 200_000 },
            Sub { name: "faults", f: faults, quick: 12000, thorough: 200_000 },
            Sub { name: "hostile", f: hostile, quick: 12000, thorough: 200_000 },
            Sub { name: "negotiation", f: negotiation, quick: 12000, thorough: 200_000 },
        ],
    }]
}

type Trace = Vec<String>;

fn history(c: &mut Case) -> CaseResult {
    compare(c, 0)
}
fn faults(c: &mut Case) -> CaseResult {
    compare(c, 1)
}
fn hostile(c: &mut Case) -> CaseResult {
    compare(c, 2)
}
fn negotiation(c: &mut Case) -> CaseResult {
    compare(c, 3)
}

fn trace(c: &mut Case, kind: usize) -> Trace {
    for_both_builds();
    match kind {
        3 => nego_trace(c),
        _ => flow_trace(c, kind),
    }
}

struct Rec {
    t: Trace,
    frames: usize,
    keys: usize,
    secrets: usize,
}
impl Rec {
    fn step(&mut self, w: &World, what: String) {
        self.t.push(what);
        let l = w.log();
        for f in &l[self.frames..] {
            self.t
                .push(format!("{:?} {} {}", f.from, hex(&f.sent), f.sent_ok));
        }
        self.frames = l.len();
        toy::with(|t| {
            for (p, i, o) in &t.okm[self.keys..] {
                self.t.push(format!("key {:?} {} {}", p, hex(i), hex(o)));
            }
            self.keys = t.okm.len();
            self.secrets = t.secrets.len();
        });
        let s = |c: &spdmlib::common::SpdmContext| -> Vec<_> {
            c.session
                .iter()
                .map(|s| {
                    (
                        s.get_session_id(),
                        s.get_session_state(),
                        s.get_use_psk(),
                        s.heartbeat_period,
                        s.secure_spdm_version_sel,
                    )
                })
                .collect()
        };
        self.t.push(format!(
            "sessions {:x?} {:x?}",
            s(&w.req.common),
            s(&w.rsp.common)
        ));
    }
    fn end(&mut self, w: &mut World) {
        self.t.push(format!("state {:?}", views(w)));
        for c in [&w.req.common, &w.rsp.common] {
            let v: Vec<_> = c
                .peer_info
                .peer_cert_chain
                .iter()
                .map(|x| x.as_ref().map(|x| hex(&x.data[..x.data_size as usize])))
                .collect();
            self.t.push(format!("certificates {:?}", v));
        }
        let n = toy::with(|t| {
            [
                Op::HmacVerify,
                Op::Encrypt,
                Op::Decrypt,
                Op::Verify,
                Op::Sign,
                Op::DheGen,
                Op::DheCompute,
                Op::Expand,
                Op::Rand,
                Op::App,
                Op::Vendor,
            ]
            .iter()
            .map(|o| (*o, t.counts[0][*o as usize], t.counts[1][*o as usize]))
            .collect::<Vec<_>>()
        });
        self.t.push(format!("calls {:?}", n));
    }
}

fn flow_trace(c: &mut Case, kind: usize) -> Trace {
    let mut g = match c.weighted(&[4, 1]) {
        0 => sess_cfg(c),
        _ => gen_wide(c),
    };
    g.set_versions(&[0x12]);
    if kind > 0 {
        // small, so that whatever is sent fits into stored transcripts
        let n = c.range(1, 2);
        let more = if kind == 1 { 500 } else { 40 };
        let ch = toy::make_chain(RSP_ROOT, 0xA1, n, n * toy::CERT_MIN + c.usize(more), 5);
        for s in g.rsp_chain.iter_mut() {
            if s.is_some() {
                *s = Some(ch.clone());
            }
        }
    }
    let mut fl = Flow::new(c, g);
    if kind == 2 {
        toy::with(|t| {
            let mut room = 200usize;
            t.meas.retain(|b| {
                let l = b.value.len() + 7;
                let ok = l <= room;
                if ok {
                    room -= l;
                }
                ok
            })
        });
        fl.f.idx = toy::with(|t| t.meas.iter().map(|m| m.index).collect());
    }
    let mut r = Rec {
        t: vec![cfg_str(&fl.g)],
        frames: 0,
        keys: 0,
        secrets: 0,
    };
    let up = fl.w.init();
    r.step(&fl.w, format!("init {:?}", up));
    if up.is_ok() {
        c.label("connected");
    }
    if fl.f.cert && c.chance(7, 8) {
        for s in fl.f.slots.clone() {
            let x = fl.attempt(&Act::Cert(None, s));
            r.step(&fl.w, format!("chain {} {:?}", s, x));
        }
    }
    fl.a.catch_up(&fl.w);
    for _ in 0..c.range(2, 7) {
        let open = fl.open();
        let mut what = String::new();
        let a = if kind == 0 {
            gen_op(c, &fl.f, open)
        } else {
            some_op(c, &fl)
        };
        if !fl.fits(&a) {
            continue;
        }
        if kind == 1 && c.bool() {
            let mut f = gen_fault(c);
            if matches!(
                f.op,
                Op::Hash | Op::HashInit | Op::HashUpdate | Op::HashFinal | Op::HashDup
            ) {
                f.op = Op::Send;
            }
            f.nth += toy::with(|t| t.counts[f.party as usize][f.op as usize]);
            what = format!("fault {:?} ", f);
            toy::with(|t| {
                t.faults = vec![f];
                t.fault_armed = true;
            });
        }
        if kind == 2 {
            match c.below(4) {
                0 => {
                    let code = c.pick(&ALL_REQ);
                    let env = env_of(c, &fl.w, Party::Rsp);
                    let mut b = gen::message(c, code, &env);
                    b.truncate(600);
                    let x = fl.w.feed(&wire::frame(fl.g.tr, false, &b));
                    r.step(&fl.w, format!("feed {} {:?} {:?}", hex(&b), x.ret, x.input));
                    fl.a.frames = fl.w.log_len();
                    continue;
                }
                1 | 2 => {
                    let seed = c.u64();
                    meddle(&mut fl, seed);
                    what = "altered ".into();
                }
                _ => {}
            }
        }
        let x = fl.attempt(&a);
        fl.w.set_mitm(None);
        fl.w.drain();
        toy::with(|t| {
            t.faults.clear();
            t.fault_armed = false;
        });
        c.label(match &x {
            Some(Ok(_)) => "operation succeeds",
            Some(Err(_)) => "operation fails",
            None => "nothing done",
        });
        if matches!(x, Some(Ok(_))) || kind > 0 {
            c.nontrivial();
        }
        r.step(&fl.w, format!("{}{:?} -> {:?}", what, a, x));
        if kind == 2 {
            // transcripts that grew by what was refused start anew
            if c.chance(1, 3) {
                let x = fl.w.init();
                r.step(&fl.w, format!("init {:?}", x));
            }
        }
    }
    r.end(&mut fl.w);
    r.t
}

/// Messages altered, lost, doubled or turned into errors under way.
fn meddle(fl: &mut Flow, seed: u64) {
    let mut k = Case::random(seed, false);
    let from = if k.bool() { Party::Req } else { Party::Rsp };
    let mut skip = k.usize(3);
    let a: tap::Shared = Rc::new(RefCell::new(fl.a.clone()));
    tap::tap(&fl.w, &a, move |a, p, m, f| {
        let m: &Msg = m?;
        if p != from {
            return None;
        }
        if skip > 0 {
            skip -= 1;
            return None;
        }
        skip = 1000;
        match k.below(6) {
            0 => Some(vec![]),
            1 => Some(vec![f.to_vec(), f.to_vec()]),
            2 => {
                let e = c_err(&mut k);
                Some(vec![tap::reframe(a, m, &[a.neg.ver, ERROR, e, 0])])
            }
            3 => {
                let n = k.usize(m.bytes.len());
                Some(vec![tap::reframe(a, m, &m.bytes[..n])])
            }
            _ => {
                let mut b = m.bytes.clone();
                let i = k.usize(b.len());
                b[i] ^= 1 << k.below(8);
                Some(vec![tap::reframe(a, m, &b)])
            }
        }
    });
}
fn c_err(k: &mut Case) -> u8 {
    k.pick(&[1u8, 3, 4, 5, 6, 7, 0xA, 0xD, 0x41, 0x42, 0x43, 0xff])
}

fn nego_trace(c: &mut Case) -> Trace {
    let mut g = gen_pair(c);
    // where they meet at all, they meet at 1.2 only
    for s in [&mut g.req, &mut g.rsp] {
        s.versions = vec![0x12];
    }
    let mut w = World::new(&g);
    let mut r = Rec {
        t: vec![cfg_str(&g)],
        frames: 0,
        keys: 0,
        secrets: 0,
    };
    for _ in 0..c.range(1, 2) {
        let x = w.init();
        c.label(if x.is_ok() {
            "connected"
        } else {
            "not connected"
        });
        if w.log_len() > 5 {
            c.nontrivial();
        }
        r.step(&w, format!("init {:?}", x));
        w.drain();
    }
    r.end(&mut w);
    r.t
}

// ---- the other build ----------------------------------------------------

struct Other {
    child: Child,
    out: BufReader<ChildStdout>,
    inp: ChildStdin,
}
impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static OTHER: RefCell<Option<Other>> = RefCell::new(None);
}

fn start() -> Other {
    let exe = std::env::var("PBT_OTHER").unwrap_or_else(|_| {
        let me = std::env::current_exe().unwrap().display().to_string();
        me.replace("/target/hashed/", "/target/raw/")
    });
    let mut child = Command::new(exe)
        .arg("trace")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("the other build runs");
    let out = BufReader::new(child.stdout.take().unwrap());
    let inp = child.stdin.take().unwrap();
    Other { child, out, inp }
}

/// Serve traces until the input ends (run by the other build).
pub fn serve() -> i32 {
    let inp = std::io::stdin();
    let out = std::io::stdout();
    for l in inp.lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let mut it = l.split(' ');
        let kind: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let thorough = it.next() == Some("1");
        let tape: Vec<u64> = it
            .next()
            .unwrap_or("")
            .split(',')
            .filter_map(|x| x.parse().ok())
            .collect();
        let mut c = Case::replay(tape, thorough);
        toy::reset();
        let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| trace(&mut c, kind)))
            .unwrap_or_else(|_| vec!["panicked".into()]);
        let mut o = out.lock();
        let line = t.join("\t").replace('\n', " ");
        if writeln!(o, "{}", line).is_err() || o.flush().is_err() {
            break;
        }
    }
    0
}

fn ask(c: &Case, kind: usize) -> Trace {
    OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let x = o.get_or_insert_with(start);
        let t: Vec<String> = c.taken().iter().map(|x| x.to_string()).collect();
        let _ = writeln!(x.inp, "{} {} {}", kind, c.thorough as u8, t.join(","));
        let _ = x.inp.flush();
        let mut l = String::new();
        match x.out.read_line(&mut l) {
            Ok(n) if n > 0 => l
                .trim_end_matches('\n')
                .split('\t')
                .map(|s| s.to_string())
                .collect(),
            _ => {
                *o = None;
                vec!["the other build died".into()]
            }
        }
    })
}

fn compare(c: &mut Case, kind: usize) -> CaseResult {
    let mine: Trace = trace(c, kind)
        .iter()
        .map(|x| x.replace('\n', " "))
        .collect();
    let theirs = ask(c, kind);
    if mine != theirs {
        let i = (0..).find(|i| mine.get(*i) != theirs.get(*i)).unwrap();
        let what = mine
            .get(i)
            .or_else(|| theirs.get(i))
            .cloned()
            .unwrap_or_default();
        let w = what.split(' ').next().unwrap_or("").to_string();
        let cut = |s: Option<&String>| s.map(|x| x.chars().take(400).collect::<String>());
        let before: Vec<String> = mine[..i]
            .iter()
            .rev()
            .filter(|x| {
                x.contains("->")
                    || x.starts_with("init")
                    || x.starts_with("feed")
                    || x.starts_with("chain")
            })
            .take(6)
            .map(|x| x.chars().take(200).collect())
            .collect();
        return fail(
            format!("the builds differ: {}", w),
            format!(
                "entry {}: this {:?} other {:?}; before it {:?} {:?}; {}",
                i,
                cut(mine.get(i)),
                cut(theirs.get(i)),
                before,
                mine[..i]
                    .iter()
                    .rev()
                    .take(4)
                    .map(|x| x.chars().take(120).collect::<String>())
                    .collect::<Vec<_>>(),
                mine[0]
            ),
        );
    }
    c.sample(|| {
        mine.iter()
            .filter(|x| x.contains("->"))
            .cloned()
            .collect::<Vec<_>>()
            .join("; ")
            .chars()
            .take(300)
            .collect()
    });
    Ok(())
}
