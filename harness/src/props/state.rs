//! C20 the responder's order of requests, C21 the form of its answers.

use super::life::{give, moved2};
use super::nego::{expect, gen_pair, missing, view_of, View};
use super::rec::*;
use crate::audit::*;
use crate::engine::*;
use crate::flow::*;
use crate::ops::*;
use crate::toy::{self, Fault, Party};
use crate::wire::{self, code::*, Px, Tr};
use crate::world::*;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "history: at least one request was due an answer and at least one was refused for its place in the order; order: at least four negotiation requests of which one was out of order; caps: at least one request the capabilities do not allow and one they do",
            level: "exploration",
            assumptions: &["toy cryptography"],
            subs: vec![
                Sub { name: "history", f: order_history, quick: 12000, thorough: 300_000 },
                Sub { name: "order", f: order_nego, quick: 12000, thorough: 300_000 },
                Sub { name: "caps", f: order_caps, quick: 12000, thorough: 300_000 },
            ],
        },
        Prop {
            id: "C21",
            rule: "answers: a well-formed and a malformed request were judged; truncated: every truncation of a request was judged; faults: a backend failed during a request",
            level: "exploration",
            assumptions: &["toy cryptography"],
            subs: vec![
                Sub { name: "answers", f: form_answers, quick: 14000, thorough: 300_000 },
                Sub { name: "truncated", f: form_cut, quick: 6000, thorough: 100_000 },
                Sub { name: "faults", f: form_faults, quick: 20000, thorough: 400_000 },
            ],
        },
    ]
}

pub const REQUESTS: [u8; 20] = [
    GET_VERSION,
    GET_CAPABILITIES,
    NEGOTIATE_ALGORITHMS,
    GET_DIGESTS,
    GET_CERTIFICATE,
    CHALLENGE,
    GET_MEASUREMENTS,
    KEY_EXCHANGE,
    PSK_EXCHANGE,
    FINISH,
    PSK_FINISH,
    HEARTBEAT,
    KEY_UPDATE,
    END_SESSION,
    VENDOR_REQ,
    GET_ENCAP,
    DELIVER_ENCAP,
    RESPOND_IF_READY,
    0xED,
    0xEE,
];
const INVALID: u8 = 1;
const UNEXPECTED: u8 = 4;
const UNSUPPORTED: u8 = 7;
const TOO_LARGE: u8 = 0xD;
const MISMATCH: u8 = 0x41;

/// Where a request is sent.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Clear,
    Sess(u32),
}

struct Side1 {
    fl: Flow,
    /// 0 nothing, 1 version, 2 capabilities, 3 algorithms
    stage: u8,
    /// what the first connection settled on
    view: View,
    tmpl: HashMap<u8, Vec<u8>>,
    /// session handshakes under way at the responder, opened by the requester
    log: Vec<String>,
    served: u32,
    refused: u32,
}

/// What is due for a request.
#[derive(Clone, Debug, Default)]
struct Due {
    /// the success answer is due (no other rule is broken)
    ok: bool,
    /// success is acceptable
    may: bool,
    errs: Vec<u8>,
    any_err: bool,
    silent: bool,
    /// this session may be dropped
    drops: Option<u32>,
    why: String,
}

fn state_of(w: &mut World) -> (View, u8) {
    w.rs(|r| {
        (
            view_of(&r.common),
            r.common.runtime_info.get_connection_state().get_u8(),
        )
    })
}

impl Side1 {
    fn new(c: &mut Case, narrow: bool) -> Result<Option<Side1>, Failure> {
        let g = if narrow {
            let mut g = gen_pair(c);
            for _ in 0..30 {
                if missing(&g).is_empty() {
                    break;
                }
                g = gen_pair(c);
            }
            if !missing(&g).is_empty() {
                return Ok(None);
            }
            g
        } else {
            sess_cfg(c)
        };
        let mut fl = Flow::new(c, g);
        let r = fl.w.init();
        if narrow && r.is_err() {
            return Ok(None);
        }
        ensure!(r.is_ok(), "honest connection fails", "{:?} {}", r, fl.ctx());
        fl.a.catch_up(&fl.w);
        let mut s = Side1 {
            view: state_of(&mut fl.w).0,
            fl,
            stage: 3,
            tmpl: HashMap::new(),
            log: vec![],
            served: 0,
            refused: 0,
        };
        ensure!(
            narrow || s.view == expect(&s.fl.g),
            "the connection settles on something else",
            "{:?} {}",
            s.view,
            s.ctx()
        );
        s.templates();
        Ok(Some(s))
    }
    fn ctx(&self) -> String {
        format!("{} {}", self.log.join(" "), self.fl.ctx())
    }
    fn templates(&mut self) {
        for m in &self.fl.a.msgs {
            if m.from == Party::Req
                && matches!(
                    m.bytes.get(1),
                    Some(&GET_CAPABILITIES)
                        | Some(&NEGOTIATE_ALGORITHMS)
                        | Some(&KEY_EXCHANGE)
                        | Some(&PSK_EXCHANGE)
                )
            {
                self.tmpl.insert(m.bytes[1], m.bytes.clone());
            }
        }
    }
    /// A session whose handshake stays open, or a complete one.
    fn open(&mut self, c: &mut Case, half: bool) -> CaseResult {
        if self.stage < 3 || self.fl.w.rsp_sessions().len() >= 4 {
            return Ok(());
        }
        let psk = match (self.fl.f.kex && self.fl.f.cert, self.fl.f.psk) {
            (false, false) => return Ok(()),
            (a, b) if a && b => c.bool(),
            (_, b) => b,
        };
        let slot = c.pick(&self.fl.f.slots);
        let n = c.range(0, 32);
        let h = hint(&c.blob(n));
        let fl = &mut self.fl;
        let id = if psk {
            fl.w.rq(|r| r.send_receive_spdm_psk_exchange(summary(0), Some(&h)))
        } else {
            let r = fl.w.cert(None, slot);
            ensure!(r.is_ok(), "certificate retrieval fails", "{}", fl.ctx());
            fl.w.rq(|r| r.send_receive_spdm_key_exchange(slot, summary(0)))
        };
        fl.a.catch_up(&fl.w);
        let id = match id {
            Ok(id) => id,
            Err(e) => {
                return fail(
                    "a key exchange is refused",
                    format!("{:?} {}", e, self.ctx()),
                )
            }
        };
        self.log
            .push(format!("open {:x} psk {} half {}", id, psk, half));
        let fl = &mut self.fl;
        let noctx = fl.view_noctx();
        if !half && !(psk && noctx) {
            let s = fl.a.session(id).cloned();
            if s.map_or(false, |s| s.mut_auth != 0) {
                return self.templates_ok();
            }
            let r = if psk {
                fl.w.rq(|r| r.send_receive_spdm_psk_finish(id))
            } else {
                fl.w.rq(|r| r.send_receive_spdm_finish(None, id))
            };
            fl.a.catch_up(&fl.w);
            ensure!(
                r.is_ok(),
                "a handshake cannot be finished",
                "{:?} {}",
                r,
                self.ctx()
            );
        }
        self.templates_ok()
    }
    fn templates_ok(&mut self) -> CaseResult {
        self.templates();
        Ok(())
    }
    fn sess(&mut self, id: u32) -> Option<Sess> {
        self.fl.a.session(id).cloned()
    }
    fn hashed_refuses(&self) -> bool {
        !can_sign(self.view.ver)
    }
    fn has(&self, q: u32, s: u32) -> bool {
        (q == 0 || self.view.req_caps & q != 0) && (s == 0 || self.view.rsp_caps & s != 0)
    }
    fn clear_hs(&self) -> bool {
        self.has(RQ_CLEAR, RS_CLEAR)
    }
    /// Do the advertised capabilities and negotiated algorithms allow it?
    fn allowed(&self, code: u8) -> bool {
        let v = &self.view;
        let h = v.hash != 0;
        let sess = h && v.aead != 0 && v.ks != 0 && v.ver >= 0x11;
        match code {
            GET_DIGESTS | GET_CERTIFICATE => self.has(0, RS_CERT) && h,
            CHALLENGE => self.has(0, RS_CHAL) && h && v.asym != 0,
            GET_MEASUREMENTS => self.has(0, 0x18),
            KEY_EXCHANGE => self.has(RQ_KEX, RS_KEX) && sess && v.asym != 0 && v.dhe != 0,
            PSK_EXCHANGE => self.has(RQ_PSK, RS_PSK_CTX | RS_PSK_NOCTX) && sess,
            HEARTBEAT => self.has(RQ_HB, RS_HB),
            KEY_UPDATE => self.has(RQ_UPD, RS_UPD),
            _ => true,
        }
    }
    /// A request with good contents for where it is sent.
    fn good(&mut self, c: &mut Case, code: u8, at: At) -> Vec<u8> {
        let ver = if self.stage >= 2 || self.stage == 0 && c.bool() {
            self.view.ver
        } else {
            c.pick(&[self.view.ver, 0x10])
        };
        let slot = if self.fl.f.slots.is_empty() {
            0
        } else {
            c.pick(&self.fl.f.slots)
        };
        let meas = self.view.rsp_caps & 0x18 != 0 && self.stage == 3;
        match code {
            GET_VERSION => vec![0x10, GET_VERSION, 0, 0],
            GET_CAPABILITIES | NEGOTIATE_ALGORITHMS => self.tmpl[&code].clone(),
            GET_CERTIFICATE => {
                let n = c.range(1, 512) as u16;
                let mut m = vec![ver, code, slot, 0, 0, 0];
                m.extend(&n.to_le_bytes());
                m
            }
            CHALLENGE => {
                let mut m = vec![
                    ver,
                    code,
                    slot,
                    if meas { c.pick(&[0u8, 1, 255]) } else { 0 },
                ];
                m.extend(c.blob(32));
                m
            }
            GET_MEASUREMENTS => {
                let sig =
                    self.view.rsp_caps & RS_MEAS_SIG != 0 && !self.hashed_refuses() && c.bool();
                let idx = self.fl.f.idx.clone();
                let op = match c.below(3) {
                    0 => 0,
                    1 => 255,
                    _ if idx.is_empty() => 0,
                    _ => c.pick(&idx),
                };
                let mut m = vec![ver, code, sig as u8, op];
                if sig {
                    m.extend(c.blob(32));
                    if ver >= 0x11 {
                        m.push(slot);
                    }
                }
                m
            }
            KEY_EXCHANGE | PSK_EXCHANGE => {
                let mut m = match self.tmpl.get(&code) {
                    Some(t) => t.clone(),
                    None => vec![ver, code, 0, 0],
                };
                if m.len() > 40 {
                    m[2] = if meas { c.pick(&[0u8, 1, 255]) } else { 0 };
                    if code == KEY_EXCHANGE {
                        m[3] = slot;
                        for x in m[8..40].iter_mut() {
                            *x = c.byte();
                        }
                    }
                }
                m
            }
            FINISH | PSK_FINISH => {
                let mut m = vec![ver, code, 0, 0];
                let s = match at {
                    At::Sess(id) => self.sess(id),
                    At::Clear => self.last_ke(),
                };
                match s {
                    Some(s) if s.st == St::Handshake => {
                        let t = s.th_f(&[&m]);
                        m.extend(s.hmac(Party::Req, &t));
                    }
                    _ => m.extend(c.blob(self.view_h())),
                }
                m
            }
            KEY_UPDATE => vec![ver, code, c.range(1, 2) as u8, c.byte()],
            END_SESSION => vec![ver, code, c.below(2) as u8, 0],
            VENDOR_REQ => {
                let n = c.range(0, 40);
                let mut m = vec![ver, code, 0, 0];
                m.extend(&(c.below(9) as u16).to_le_bytes());
                m.push(2);
                m.extend(c.blob(2));
                m.extend(&(n as u16).to_le_bytes());
                m.extend(c.blob(n));
                m
            }
            DELIVER_ENCAP => {
                let mut m = vec![ver, code, c.byte(), 0];
                let n = c.range(0, 60);
                m.extend(c.blob(n));
                m
            }
            RESPOND_IF_READY => vec![ver, code, GET_MEASUREMENTS, c.byte()],
            _ => vec![ver, code, 0, 0],
        }
    }
    fn view_h(&self) -> usize {
        match self.view.hash {
            1 => 32,
            2 => 48,
            _ => 64,
        }
    }
    fn last_ke(&self) -> Option<Sess> {
        self.fl.a.sess.iter().rev().find(|s| !s.psk).cloned()
    }
    fn px(&self, req: &[u8]) -> Px {
        let v = &self.view;
        let code = req.get(1).copied().unwrap_or(0);
        let summary = match code {
            CHALLENGE => req.get(3).map_or(false, |x| *x != 0),
            KEY_EXCHANGE | PSK_EXCHANGE => req.get(2).map_or(false, |x| *x != 0),
            _ => false,
        };
        Px {
            ver: if self.stage < 2 && code != GET_CAPABILITIES && code != CAPABILITIES {
                0x10
            } else {
                v.ver
            },
            hlen: self.view_h(),
            siglen: toy::sig_size(v.asym).unwrap_or(0),
            req_siglen: toy::sig_size(v.req_asym as u32).unwrap_or(0),
            dhe: toy::dhe_size(v.dhe).unwrap_or(0),
            summary: summary && v.rsp_caps & 0x18 != 0,
            sig_req: code == GET_MEASUREMENTS && req.get(2).map_or(false, |x| x & 1 != 0),
            clear: self.clear_hs(),
        }
    }
    /// The model: what is due for request `m` sent there.
    fn due(&mut self, m: &[u8], at: At) -> Due {
        let mut d = Due::default();
        let code = match m.get(1) {
            Some(x) => *x,
            None => {
                d.silent = true;
                d.any_err = true;
                d.why = "no header".into();
                return d;
            }
        };
        let mut order = false;
        let known = REQUESTS[..18].contains(&code);
        if !known {
            d.silent = true;
            d.any_err = true;
            d.why = "no such request".into();
            return d;
        }
        let s = match at {
            At::Sess(id) => self.sess(id),
            At::Clear => None,
        };
        let table = self.fl.w.rsp_sessions().len();
        match (at, &s) {
            (At::Clear, _) => match self.stage {
                0 | 1 | 2 => {
                    order = match code {
                        GET_VERSION => false,
                        GET_CAPABILITIES => self.stage != 1,
                        NEGOTIATE_ALGORITHMS => self.stage != 2,
                        _ => true,
                    };
                }
                _ => {
                    order = match code {
                        GET_CAPABILITIES | NEGOTIATE_ALGORITHMS | PSK_FINISH | HEARTBEAT
                        | KEY_UPDATE | END_SESSION => true,
                        FINISH => {
                            let l = self.last_ke();
                            let l = l.filter(|l| {
                                l.st == St::Handshake
                                    && self.fl.w.rsp_sessions().iter().any(|x| {
                                        x.0 == l.id && x.1 == SpdmSessionStateN::Handshaking
                                    })
                            });
                            if let (true, Some(l)) = (self.clear_hs(), &l) {
                                d.drops = Some(l.id);
                            }
                            !(self.clear_hs() && l.is_some())
                        }
                        _ => false,
                    };
                }
            },
            (At::Sess(id), Some(s)) if s.st == St::Handshake => {
                let clear = self.clear_hs() && !s.psk;
                if clear {
                    // this handshake goes on in the clear
                    d.silent = true;
                    d.any_err = true;
                    d.why = "secured message in a clear handshake".into();
                    return d;
                }
                match code {
                    FINISH => {
                        order = s.psk;
                        d.drops = Some(id);
                        if s.mut_auth != 0 {
                            d.any_err = true;
                            d.why = "FINISH without the requester's authentication".into();
                            return d;
                        }
                    }
                    PSK_FINISH => {
                        order = !s.psk;
                        d.drops = Some(id);
                    }
                    GET_ENCAP | DELIVER_ENCAP => {
                        d.any_err = true;
                        d.silent = true;
                        d.may = s.mut_auth != 0 && m.len() >= 4;
                        d.why = "encapsulated exchange".into();
                        return d;
                    }
                    VENDOR_REQ => {}
                    _ => order = true,
                }
                if order && matches!(code, FINISH | PSK_FINISH) {
                    d.any_err = true;
                }
            }
            (At::Sess(_), Some(_)) => {
                order = !matches!(
                    code,
                    GET_DIGESTS
                        | GET_CERTIFICATE
                        | GET_MEASUREMENTS
                        | HEARTBEAT
                        | KEY_UPDATE
                        | END_SESSION
                        | VENDOR_REQ
                        | GET_ENCAP
                        | DELIVER_ENCAP
                        | RESPOND_IF_READY
                );
            }
            _ => unreachable!(),
        }
        if order {
            d.errs.push(UNEXPECTED);
            d.why += "out of order ";
        }
        // encapsulated requests belong to handshakes
        if matches!(code, GET_ENCAP | DELIVER_ENCAP) {
            d.silent = true;
            d.any_err = true;
            d.why += "encapsulated exchange outside a handshake ";
        }
        if code == RESPOND_IF_READY {
            d.errs.push(UNSUPPORTED);
            d.errs.push(UNEXPECTED);
            d.why += "never deferred ";
        }
        if self.stage == 3 && !self.allowed(code) {
            d.errs.push(UNSUPPORTED);
            d.errs.push(UNEXPECTED);
            d.why += "not supported ";
        }
        let want = match (code, self.stage) {
            (GET_VERSION, _) => {
                if at != At::Clear {
                    // out of place whatever its version
                    d.errs.push(MISMATCH);
                }
                Some(0x10)
            }
            (GET_CAPABILITIES, 1) => None,
            (_, 2) | (_, 3) => Some(self.view.ver),
            _ => None,
        };
        if want.map_or(self.stage < 2 && code != GET_CAPABILITIES, |v| m[0] != v) {
            d.errs.push(MISMATCH);
            d.why += "version ";
        }
        if code == GET_CAPABILITIES && m[0] != self.tmpl[&GET_CAPABILITIES][0] {
            // another version may be possible, or not
            d.may = !order && self.fl.g.rsp.versions.contains(&m[0]);
            d.errs.push(MISMATCH);
            d.errs.push(INVALID);
        }
        let p = wire::parse(m, &self.px(m));
        if p.is_err() {
            d.errs.push(INVALID);
            d.why += "malformed ";
        }
        if d.errs.is_empty() && !d.any_err {
            // nothing against it; its contents decide
            let full = table >= 4;
            match code {
                KEY_EXCHANGE | PSK_EXCHANGE if full => {
                    d.any_err = true;
                    d.why += "no room ";
                }
                GET_CERTIFICATE | CHALLENGE | KEY_EXCHANGE if self.fl.f.slots.is_empty() => {
                    d.any_err = true;
                    d.why += "no certificate ";
                }
                GET_MEASUREMENTS if m[2] & 1 != 0 && self.fl.f.slots.is_empty() => {
                    d.any_err = true;
                    d.why += "no certificate ";
                }
                KEY_EXCHANGE | CHALLENGE if self.hashed_refuses() => {
                    d.any_err = true;
                    d.why += "cannot sign ";
                }
                GET_MEASUREMENTS if m[2] & 1 != 0 && self.hashed_refuses() => {
                    d.any_err = true;
                    d.why += "cannot sign ";
                }
                _ => d.ok = true,
            }
            if self.view.ver >= 0x12 && self.view.sizes[0] < 4096 && code > GET_CAPABILITIES
                || self.fl.g.req.dts < 4096
            {
                d.errs.push(TOO_LARGE);
            }
        }
        d
    }
    /// Send it, compare what comes with what is due, and follow.
    fn step(&mut self, m: &[u8], at: At, strict: bool) -> CaseResult {
        let tr = self.fl.g.tr;
        let f = match at {
            At::Clear => wire::frame(tr, false, m),
            At::Sess(id) => match self.sess(id) {
                Some(s) => s.forge(tr, Party::Req, false, m),
                None => return Ok(()),
            },
        };
        let seen: Vec<u8> = match at {
            At::Clear => match wire::unframe(tr, &f) {
                Some(x) => x.1.to_vec(),
                None => return Ok(()),
            },
            _ => m.to_vec(),
        };
        let m = &seen[..];
        let d = self.due(m, at);
        let a0 = state_of(&mut self.fl.w);
        let s0 = snap(&mut self.fl.w, Party::Rsp);
        let hooks = toy::with(|t| (t.vendor_log.len(), t.app_log.len()));
        self.log.push(format!(
            "{:?}<{}{}",
            at,
            hex(&m[..m.len().min(12)]),
            if m.len() > 12 { ".." } else { "" }
        ));
        self.fl.a.catch_up(&self.fl.w);
        let r = give(&mut self.fl.w, &f);
        let code = m.get(1).copied().unwrap_or(0);
        let rsp = self.answer(&r, &f, m, at)?;
        let s1 = snap(&mut self.fl.w, Party::Rsp);
        let a1 = state_of(&mut self.fl.w);
        let good = rsp.as_ref().map_or(false, |r| r[1] != ERROR);
        self.log.push(match &rsp {
            None => ">-".into(),
            Some(r) if r[1] == ERROR => format!(">error {:x}", r[2]),
            Some(r) => format!(">{:02x}", r[1]),
        });
        if good && !(d.ok || d.may) {
            return fail(
                format!("a request is served that must be refused: {}", d.why.trim()),
                format!("{:02x} {:?} {}", code, d, self.ctx()),
            );
        }
        if !good {
            self.refused += (!d.errs.is_empty()) as u32;
            match &rsp {
                None => ensure!(
                    d.silent,
                    "a request goes unanswered",
                    "{:02x} {:?} {}",
                    code,
                    d,
                    self.ctx()
                ),
                Some(r) => {
                    ensure!(
                        !d.ok || d.errs.contains(&r[2]) || !strict,
                        "a request is refused that is due an answer",
                        "{:02x} {:?} {}",
                        code,
                        d,
                        self.ctx()
                    );
                    ensure!(
                        d.any_err || d.errs.contains(&r[2]) || d.ok && !strict,
                        format!("refused with another error: {}", d.why.trim()),
                        "{:02x} {:?} {}",
                        code,
                        d,
                        self.ctx()
                    );
                    ensure!(
                        r[2] != UNSUPPORTED || r[3] == code,
                        "an unsupported-request error names another request",
                        "{}",
                        self.ctx()
                    );
                }
            }
            // what a refused NEGOTIATE_ALGORITHMS leaves behind counts only from the
            // point where a served one has written it anew (compared then)
            let early = |x: &(View, u8)| {
                let mut v = x.0.clone();
                if self.stage < 3 {
                    v.meas_spec = 0;
                    v.meas_hash = 0;
                    v.hash = 0;
                    v.asym = 0;
                    v.dhe = 0;
                    v.aead = 0;
                    v.req_asym = 0;
                    v.ks = 0;
                    v.opaque = 0;
                }
                (v, x.1)
            };
            ensure!(
                early(&a0) == early(&a1),
                "a refused request changes the connection",
                "{:02x} {:?} {:?} {}",
                code,
                a0,
                a1,
                self.ctx()
            );
            let id = match at {
                At::Sess(i) => Some(i),
                _ => None,
            };
            let gone = d
                .drops
                .filter(|i| !s1.iter().any(|x| x.0 == *i))
                .map(|i| s0.iter().filter(|x| x.0 != i).cloned().collect::<Snap>());
            ensure!(
                match &gone {
                    Some(g) => moved2(g, &s1, None, 0, 0),
                    None => moved2(&s0, &s1, id, 1, 1),
                },
                "a refused request changes a session",
                "{:02x} {:?} {:x?} {:x?} {}",
                code,
                d,
                s0,
                s1,
                self.ctx()
            );
            ensure!(
                hooks == toy::with(|t| (t.vendor_log.len(), t.app_log.len())),
                "a refused request reaches a handler",
                "{:02x} {}",
                code,
                self.ctx()
            );
            if gone.is_some() {
                let id = d.drops.unwrap();
                if let Some(s) = self.fl.a.session(id) {
                    s.st = St::Ended;
                }
            }
            return Ok(());
        }
        self.served += 1;
        // it was served: what follows
        let rsp = rsp.unwrap();
        let ids0: Vec<(u32, SpdmSessionStateN)> = s0.iter().map(|x| (x.0, x.1)).collect();
        let mut want = ids0.clone();
        match (code, at) {
            (GET_VERSION, _) => {
                self.stage = 1;
                want.clear();
                for s in self.fl.a.sess.iter_mut() {
                    s.st = St::Ended;
                }
            }
            (GET_CAPABILITIES, _) => {
                self.stage = 2;
                if m[0] != self.view.ver || m != &self.tmpl[&code][..] {
                    // with another version or other capabilities: start over
                    return self.step(&[0x10, GET_VERSION, 0, 0], At::Clear, true);
                }
            }
            (NEGOTIATE_ALGORITHMS, _) => {
                self.stage = 3;
                if m == &self.tmpl[&code][..] {
                    ensure!(
                        a1.0 == self.view,
                        "refused requests have an influence on what is negotiated",
                        "{:?} {:?} {}",
                        a1.0,
                        self.view,
                        self.ctx()
                    );
                } else {
                    return self.step(&[0x10, GET_VERSION, 0, 0], At::Clear, true);
                }
            }
            (KEY_EXCHANGE, _) | (PSK_EXCHANGE, _) => {
                let id = (rsp[5] as u32) << 24
                    | (rsp[4] as u32) << 16
                    | (m[5] as u32) << 8
                    | m[4] as u32;
                let st = if code == PSK_EXCHANGE && self.view.rsp_caps & RS_PSK_CTX == 0 {
                    SpdmSessionStateN::Established
                } else {
                    SpdmSessionStateN::Handshaking
                };
                want.push((id, st));
            }
            (FINISH, _) | (PSK_FINISH, _) => {
                let id = match at {
                    At::Sess(i) => i,
                    _ => d.drops.unwrap(),
                };
                for x in want.iter_mut().filter(|x| x.0 == id) {
                    x.1 = SpdmSessionStateN::Established;
                }
            }
            (END_SESSION, At::Sess(id)) => want.retain(|x| x.0 != id),
            _ => {}
        }
        let mut ids1: Vec<(u32, SpdmSessionStateN)> = s1.iter().map(|x| (x.0, x.1)).collect();
        ids1.sort();
        want.sort();
        let swap = |x: u32| x.rotate_left(16);
        let alt: Vec<(u32, SpdmSessionStateN)> = {
            let mut v: Vec<_> = want
                .iter()
                .map(|x| {
                    if ids0.iter().any(|y| y.0 == x.0) {
                        *x
                    } else {
                        (swap(x.0), x.1)
                    }
                })
                .collect();
            v.sort();
            v
        };
        ensure!(
            ids1 == want || ids1 == alt,
            "a served request has another effect on the sessions",
            "{:02x} {:x?} {:x?} {}",
            code,
            want,
            ids1,
            self.ctx()
        );
        if code == KEY_UPDATE && m[2] != 3 {
            let id = match at {
                At::Sess(i) => i,
                _ => 0,
            };
            let v = vec![m[0], KEY_UPDATE, 3, m[3] ^ 0x55];
            return self.step(&v, At::Sess(id), strict);
        }
        Ok(())
    }
    /// The answer in the frames sent, judged for its form (C21's oracle).
    fn answer(
        &mut self,
        r: &RspRet,
        f: &[u8],
        m: &[u8],
        at: At,
    ) -> Result<Option<Vec<u8>>, Failure> {
        let tr = self.fl.g.tr;
        let mut refused = false;
        ensure!(
            r.sent.len() <= 1,
            "more than one answer",
            "{} {}",
            r.sent.len(),
            self.ctx()
        );
        let a = match r.sent.first() {
            None => {
                self.refuse(at, 0);
                return Ok(None);
            }
            Some(a) => a,
        };
        let (sec, pl) = match wire::unframe(tr, a) {
            Some((s, p)) => (s, p.to_vec()),
            None => return fail("an answer is not a transport frame", self.ctx()),
        };
        ensure!(
            sec == (at != At::Clear),
            "the answer comes another way than the request",
            "{}",
            self.ctx()
        );
        let rsp = if sec {
            let id = match at {
                At::Sess(i) => i,
                _ => 0,
            };
            let s = self.sess(id).unwrap();
            let d = if s.st == St::Handshake {
                &s.hs[1]
            } else {
                &s.app[1]
            };
            let x = wire::open_record(tr, s.neg.aead, &d.key, &d.iv, id, d.seq, &pl)
                .ok()
                .and_then(|p| wire::app_unwrap(tr, &p));
            match x {
                Some((false, b)) if b.get(1) == Some(&ERROR) => {
                    refused = true;
                    if let Some(s) = self.fl.a.session(id) {
                        s.dir(Party::Rsp).seq += 1;
                    }
                    b
                }
                _ => {
                    // served: the keys may be new ones
                    self.follow(f);
                    match self.fl.a.msgs.last() {
                        Some(x)
                            if x.from == Party::Rsp
                                && self.fl.a.issues_of(&["record", "frame"]).is_none() =>
                        {
                            x.bytes.clone()
                        }
                        _ => {
                            return fail(
                                "the observer cannot follow an answer",
                                format!(
                                    "{:?} {}",
                                    self.fl.a.issues.last().map(|i| &i.text),
                                    self.ctx()
                                ),
                            )
                        }
                    }
                }
            }
        } else {
            pl
        };
        if !sec {
            refused = rsp.get(1) == Some(&ERROR);
            if !refused {
                self.follow(f);
            }
        }
        self.form(&rsp, m, !sec && tr == Tr::Doe)?;
        if refused {
            self.refuse(at, r.sent.len());
        }
        Ok(Some(rsp))
    }
    /// The observer sees a request that is served, and its answer.
    fn follow(&mut self, f: &[u8]) {
        let fl = &mut self.fl;
        fl.a.feed(Party::Req, f);
        fl.a.frames -= 1; // it is not in the log of the world
        fl.a.catch_up(&fl.w);
    }
    /// It sees nothing of one that is not but its place in the session.
    fn refuse(&mut self, at: At, sent: usize) {
        if let At::Sess(id) = at {
            if let Some(s) = self.fl.a.session(id) {
                s.dir(Party::Req).seq += 1;
            }
        }
        self.fl.a.frames += sent;
    }
    fn form(&mut self, rsp: &[u8], m: &[u8], padded: bool) -> CaseResult {
        let code = m.get(1).copied().unwrap_or(0);
        ensure!(
            rsp.len() >= 4,
            "an answer without a header",
            "{} {}",
            hex(rsp),
            self.ctx()
        );
        ensure!(
            rsp[1] == ERROR || rsp[1] == code & 0x7f && code & 0x80 != 0,
            "an answer of another kind",
            "{:02x} to {:02x} {}",
            rsp[1],
            code,
            self.ctx()
        );
        let ver = match (rsp[1], code, self.stage) {
            (VERSION, ..) => vec![0x10],
            (CAPABILITIES, ..) => vec![m[0]],
            // refused while a version is being chosen
            (ERROR, GET_CAPABILITIES, 1) => vec![0x10, m[0]],
            (ERROR, _, 0) | (ERROR, _, 1) => vec![0x10],
            _ => vec![self.view.ver],
        };
        ensure!(
            ver.contains(&rsp[0]),
            "an answer of another version",
            "{:02x} to {:02x} at stage {}: {:02x} {}",
            rsp[1],
            code,
            self.stage,
            rsp[0],
            self.ctx()
        );
        let mut px = self.px(m);
        px.ver = rsp[0];
        match wire::parse(rsp, &px) {
            Err(e) => {
                return fail(
                    "an answer does not parse",
                    format!("{} {} {}", e, hex(&rsp[..rsp.len().min(40)]), self.ctx()),
                )
            }
            Ok(p) => {
                let slack = &rsp[p.used..];
                ensure!(
                    slack.is_empty() || padded && slack.len() < 4 && slack.iter().all(|x| *x == 0),
                    "an answer with stray bytes",
                    "{:02x} {} of {} {}",
                    rsp[1],
                    slack.len(),
                    rsp.len(),
                    self.ctx()
                );
                for f in &p.f {
                    ensure!(
                        !f.name.starts_with("resv")
                            || rsp[f.off..f.off + f.len].iter().all(|x| *x == 0),
                        "a reserved field of an answer is not zero",
                        "{:02x} at {} {}",
                        rsp[1],
                        f.off,
                        self.ctx()
                    );
                }
                let mask = self
                    .fl
                    .g
                    .rsp_chain
                    .iter()
                    .enumerate()
                    .fold(0u8, |a, (i, x)| a | ((x.is_some() as u8) << i));
                let echo = match rsp[1] {
                    CERTIFICATE => rsp[2] == m[2],
                    CHALLENGE_AUTH => rsp[2] & 15 == m[2],
                    DIGESTS => rsp[3] == mask,
                    CHALLENGE | KEY_UPDATE_ACK => rsp[2..4] == m[2..4],
                    MEASUREMENTS if px.sig_req && px.ver >= 0x11 => {
                        rsp[3] & 15 == m.get(36).map_or(0, |x| x & 15)
                    }
                    ERROR => rsp[2] != 0 && (rsp[2] == UNSUPPORTED || rsp[3] == 0),
                    _ => true,
                };
                ensure!(
                    echo,
                    "an answer does not match its request",
                    "{} to {} {}",
                    hex(&rsp[..rsp.len().min(16)]),
                    hex(&m[..m.len().min(40)]),
                    self.ctx()
                );
            }
        }
        Ok(())
    }
    fn places(&mut self) -> Vec<At> {
        let live = self.fl.w.rsp_sessions();
        let mut v = vec![At::Clear];
        for (id, st) in live {
            let keys = match self.sess(id) {
                Some(s) => match st {
                    SpdmSessionStateN::Handshaking => {
                        s.st == St::Handshake && !s.hs[0].key.is_empty() && !s.dhe_bad()
                    }
                    SpdmSessionStateN::Established => s.st == St::Established,
                    _ => false,
                },
                None => false,
            };
            if keys {
                v.push(At::Sess(id));
            }
        }
        v
    }
    fn pick(&mut self, c: &mut Case) -> (At, u8) {
        let p = self.places();
        let at = if p.len() > 1 && c.chance(2, 3) {
            p[c.range(1, p.len() - 1)]
        } else {
            At::Clear
        };
        let code = match c.weighted(&[2, 5, 1]) {
            // what moves things on
            0 => match (at, self.stage) {
                (At::Clear, 0) => GET_VERSION,
                (At::Clear, 1) => GET_CAPABILITIES,
                (At::Clear, 2) => NEGOTIATE_ALGORITHMS,
                (At::Clear, _) => c.pick(&[GET_DIGESTS, CHALLENGE, FINISH, VENDOR_REQ]),
                (At::Sess(id), _) => match self.sess(id) {
                    Some(s) if s.st == St::Handshake && s.psk => PSK_FINISH,
                    Some(s) if s.st == St::Handshake => FINISH,
                    _ => c.pick(&[HEARTBEAT, KEY_UPDATE, GET_MEASUREMENTS, VENDOR_REQ]),
                },
            },
            1 => {
                if at != At::Clear || c.chance(1, 50) {
                    c.pick(&REQUESTS)
                } else {
                    c.pick(&REQUESTS[1..])
                }
            }
            _ => c.byte(),
        };
        (at, code)
    }
}

trait Known {
    fn dhe_bad(&self) -> bool;
}
impl Known for Sess {
    /// the observer has no secret for it
    fn dhe_bad(&self) -> bool {
        !self.psk && self.dhe_secret.is_empty()
    }
}
trait Ctxless {
    fn view_noctx(&self) -> bool;
}
impl Ctxless for Flow {
    fn view_noctx(&self) -> bool {
        self.g.rsp.caps & RS_PSK_CTX == 0
    }
}

fn order_history(c: &mut Case) -> CaseResult {
    let mut s = match Side1::new(c, false)? {
        Some(s) => s,
        None => return Ok(()),
    };
    for _ in 0..c.range(1, 3) {
        let half = c.bool();
        s.open(c, half)?;
    }
    for _ in 0..c.range(6, 24) {
        if c.chance(1, 12) {
            let half = c.bool();
            if s.stage == 3 {
                s.anew()?;
                s.open(c, half)?;
            }
            continue;
        }
        let (at, code) = s.pick(c);
        let m = s.good(c, code, at);
        s.step(&m, at, true)?;
    }
    if s.served > 0 && s.refused > 0 {
        c.nontrivial();
    }
    s.last()
}
impl Side1 {
    /// The requester connects anew.
    fn anew(&mut self) -> CaseResult {
        let r = self.fl.w.init();
        ensure!(
            r.is_ok(),
            "connecting again fails",
            "{:?} {}",
            r,
            self.ctx()
        );
        self.fl.a.catch_up(&self.fl.w);
        self.log.push("anew".into());
        self.stage = 3;
        for s in self.fl.a.sess.iter_mut() {
            s.st = St::Ended;
        }
        Ok(())
    }
    /// In the end, everything works.
    fn last(&mut self) -> CaseResult {
        self.anew()?;
        let v = state_of(&mut self.fl.w).0;
        ensure!(
            v == self.view,
            "refused requests have an influence on a later connection",
            "{:?} {:?} {}",
            v,
            self.view,
            self.ctx()
        );
        Ok(())
    }
}
/// Negotiation requests in any order.
fn order_nego(c: &mut Case) -> CaseResult {
    let narrow = c.bool();
    let mut s = match Side1::new(c, narrow)? {
        Some(s) => s,
        None => return Ok(()),
    };
    for _ in 0..c.range(6, 20) {
        let code = match c.weighted(&[5, 2]) {
            0 => match (s.stage, c.below(4)) {
                (0, 0..=2) => GET_VERSION,
                (1, 0..=2) => GET_CAPABILITIES,
                (2, 0..=2) => NEGOTIATE_ALGORITHMS,
                _ => c.pick(&[GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS]),
            },
            _ => c.pick(&REQUESTS),
        };
        let m = s.good(c, code, At::Clear);
        s.step(&m, At::Clear, true)?;
    }
    if s.served > 1 && s.refused > 0 {
        c.nontrivial();
    }
    s.last()
}
/// Every request under every set of capabilities.
fn order_caps(c: &mut Case) -> CaseResult {
    let mut s = match Side1::new(c, true)? {
        Some(s) => s,
        None => return Ok(()),
    };
    for _ in 0..c.range(8, 16) {
        let code = c.pick(&REQUESTS[1..]);
        let m = s.good(c, code, At::Clear);
        s.step(&m, At::Clear, true)?;
    }
    if s.served > 0 && s.refused > 0 {
        c.nontrivial();
    }
    s.last()
}

// ---------------------------------------------------------------- C21

fn bend(c: &mut Case, m: &mut Vec<u8>) -> &'static str {
    match c.weighted(&[3, 3, 2, 2, 1]) {
        0 => {
            let n = c.usize(m.len());
            m.truncate(n);
            "truncated"
        }
        1 => {
            let n = m.len();
            let i = c.usize(n);
            m[i] = c.byte();
            "byte changed"
        }
        2 => {
            m[0] = c.pick(&[0u8, 0x10, 0x11, 0x12, 0x13, 0xff]);
            "version"
        }
        3 => {
            let i = c.range(2, 3).min(m.len() - 1);
            m[i] = c.byte();
            "parameter"
        }
        _ => {
            let n = c.range(1, 40);
            m.extend(c.blob(n));
            "longer"
        }
    }
}
fn form_answers(c: &mut Case) -> CaseResult {
    let narrow = c.chance(1, 4);
    let mut s = match Side1::new(c, narrow)? {
        Some(s) => s,
        None => return Ok(()),
    };
    if !narrow {
        for _ in 0..c.range(0, 2) {
            let half = c.bool();
            s.open(c, half)?;
        }
    }
    let mut bent = 0;
    for _ in 0..c.range(4, 16) {
        let (at, code) = s.pick(c);
        let mut m = s.good(c, code, at);
        let b = c.bool();
        if b {
            let l = bend(c, &mut m);
            c.label(l);
            bent += 1;
        }
        s.step(&m, at, !b)?;
    }
    if bent > 0 && s.served > 0 {
        c.nontrivial();
    }
    s.last()
}
/// Every truncation of a request.
fn form_cut(c: &mut Case) -> CaseResult {
    let mut s = match Side1::new(c, false)? {
        Some(s) => s,
        None => return Ok(()),
    };
    for _ in 0..c.range(0, 2) {
        let half = c.bool();
        s.open(c, half)?;
    }
    let (at, code) = s.pick(c);
    if c.chance(1, 4) && at == At::Clear {
        s.step(&[0x10, GET_VERSION, 0, 0], At::Clear, true)?;
        if c.bool() {
            let m = s.tmpl[&GET_CAPABILITIES].clone();
            s.step(&m, At::Clear, true)?;
        }
    }
    let m = s.good(c, code, at);
    for n in 0..m.len() {
        s.step(&m[..n], at, false)?;
    }
    s.step(&m, at, true)?;
    c.nontrivial();
    s.last()
}
/// A failure of something this request needs.
fn fault_for(c: &mut Case, code: u8, sess: bool) -> Fault {
    use toy::Op::*;
    let mut v: Vec<(toy::Op, u64)> = vec![(Send, 1), (HashUpdate, 3), (HashFinal, 2)];
    if sess {
        v.extend([(Encrypt, 1), (Encrypt, 1), (Decrypt, 1)]);
    }
    match code {
        GET_DIGESTS => v.extend([(Hash, 3), (Hash, 3)]),
        CHALLENGE => v.extend([
            (Hash, 2),
            (Rand, 1),
            (Sign, 1),
            (MeasSummary, 1),
            (HashDup, 3),
        ]),
        GET_MEASUREMENTS => v.extend([
            (Rand, 1),
            (Sign, 1),
            (MeasCollect, 2),
            (HashDup, 3),
            (MeasCollect, 1),
        ]),
        KEY_EXCHANGE => v.extend([
            (Hash, 2),
            (Rand, 2),
            (Sign, 1),
            (MeasSummary, 1),
            (DheGen, 1),
            (DheCompute, 1),
            (Hmac, 2),
            (Extract, 3),
            (Expand, 10),
            (HashDup, 4),
        ]),
        PSK_EXCHANGE => v.extend([
            (Rand, 2),
            (MeasSummary, 1),
            (Hmac, 2),
            (PskHs, 4),
            (PskMaster, 4),
            (Expand, 10),
            (HashDup, 4),
        ]),
        FINISH | PSK_FINISH => v.extend([
            (HmacVerify, 1),
            (Hmac, 2),
            (Extract, 2),
            (PskMaster, 4),
            (Expand, 10),
            (HashDup, 4),
        ]),
        KEY_UPDATE => v.extend([(Expand, 6), (Expand, 6)]),
        VENDOR_REQ => v.extend([(Vendor, 1), (Vendor, 1)]),
        _ => {}
    }
    let (op, n) = c.pick(&v);
    Fault {
        party: Party::Rsp,
        op,
        nth: c.below(n),
        sticky: c.chance(1, 4),
    }
}
/// Whatever fails inside, the answer is one well-formed message.
fn form_faults(c: &mut Case) -> CaseResult {
    let mut s = match Side1::new(c, false)? {
        Some(s) => s,
        None => return Ok(()),
    };
    for _ in 0..c.range(0, 2) {
        let half = c.bool();
        s.open(c, half)?;
    }
    for _ in 0..c.range(0, 3) {
        let (at, code) = s.pick(c);
        let m = s.good(c, code, at);
        s.step(&m, at, true)?;
    }
    let (at, code) = s.pick(c);
    let m = s.good(c, code, at);
    let tr = s.fl.g.tr;
    let f = match at {
        At::Clear => wire::frame(tr, false, &m),
        At::Sess(id) => s.sess(id).unwrap().forge(tr, Party::Req, false, &m),
    };
    let ft = fault_for(c, code, at != At::Clear);
    let d = s.due(&m, at);
    toy::with(|t| {
        t.faults = vec![ft.clone()];
        t.fault_armed = true;
    });
    s.log.push(format!(
        "{:?} during {:?} {}",
        ft,
        at,
        hex(&m[..m.len().min(12)])
    ));
    let sess = match at {
        At::Sess(id) => s.sess(id),
        _ => None,
    };
    let r = give(&mut s.fl.w, &f);
    let hit = toy::with(|t| {
        t.fault_armed = false;
        t.faults.clear();
        t.fault_hits > 0
    });
    if hit {
        c.nontrivial();
    }
    ensure!(r.sent.len() <= 1, "more than one answer", "{}", s.ctx());
    if let Some(f) = r.sent.first() {
        let (sec, pl) = match wire::unframe(tr, f) {
            Some((a, b)) => (a, b.to_vec()),
            None => return fail("an answer is not a transport frame", s.ctx()),
        };
        let seen = match wire::unframe(tr, &wire::frame(tr, false, &m)) {
            Some(x) => x.1.to_vec(),
            None => return Ok(()),
        };
        let stage0 = s.stage;
        let rsp = if sec {
            let x = match &sess {
                Some(x) => x,
                None => return fail("a secured answer to a request in the clear", s.ctx()),
            };
            // after PSK_FINISH and a key update the keys are new ones
            let mut tried = vec![];
            let mut y = x.clone();
            for k in 0..3 {
                let dr = match k {
                    0 if x.st == St::Handshake => x.hs[1].clone(),
                    0 => x.app[1].clone(),
                    1 => {
                        y.f.extend_from_slice(&m);
                        upd_dir(x.neg.h(), x.neg.ver, x.neg.aead, &x.app[1])
                    }
                    _ => continue,
                };
                if dr.key.is_empty() {
                    continue;
                }
                tried.push(wire::open_record(
                    tr, x.neg.aead, &dr.key, &dr.iv, x.id, dr.seq, &pl,
                ));
            }
            match tried.into_iter().flatten().next() {
                Some(p) => match wire::app_unwrap(tr, &p) {
                    Some((false, b)) => b,
                    _ => return fail("an answer is not a protocol message", s.ctx()),
                },
                // sealed under keys only the responder has now
                None => return Ok(()),
            }
        } else {
            pl
        };
        if rsp.len() >= 2 && rsp[1] == ERROR && code == GET_VERSION {
            // the connection may already be gone
            if rsp[0] == 0x10 {
                s.stage = 1;
            }
        }
        if rsp.len() >= 2 && rsp[1] == ERROR && code == GET_CAPABILITIES && rsp[0] != 0x10 {
            s.stage = 2;
        }
        s.form(&rsp, &seen, !sec && tr == Tr::Doe)?;
        ensure!(
            rsp[1] == ERROR || d.ok || d.may,
            "a failure makes a request served that must be refused",
            "{:?} {}",
            d,
            s.ctx()
        );
        s.stage = stage0;
    }
    s.last()
}
