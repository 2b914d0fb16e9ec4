//! Independent observer of a conversation: rebuilds negotiation, transcripts,
//! key schedule and record protection from the frames alone (plus the shared
//! secrets the toy back ends logged) and reports every deviation.

use crate::sha2::{self, Hasher, H};
use crate::toy::{self, Party};
use crate::wire::{self, code::*, Parsed, Px, Tr};

#[derive(Clone, Debug, Default)]
pub struct Neg {
    pub ver: u8,
    pub req_caps: u32,
    pub rsp_caps: u32,
    pub req_ct: u8,
    pub rsp_ct: u8,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub req_asym: u16,
    pub ks: u16,
    pub meas_spec: u8,
    pub meas_hash: u32,
    pub opaque: u8,
    pub req_dts: u32,
    pub rsp_dts: u32,
    pub done: u8,
}
impl Neg {
    pub fn h(&self) -> H {
        match self.hash {
            1 => H::S256,
            4 => H::S512,
            _ => H::S384,
        }
    }
    pub fn clear(&self) -> bool {
        self.req_caps & 0x8000 != 0 && self.rsp_caps & 0x8000 != 0
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dir {
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Handshake,
    Established,
    Ended,
}

#[derive(Clone, Debug)]
pub struct Sess {
    pub id: u32,
    pub psk: bool,
    pub slot: u8,
    pub hint: Vec<u8>,
    pub neg: Neg,
    pub a: Vec<u8>,
    pub ct: Vec<u8>,
    pub mut_auth: u8,
    pub ct_req: Vec<u8>,
    pub k: Vec<u8>,
    pub f: Vec<u8>,
    pub m: Vec<Vec<u8>>,
    pub dhe_secret: Vec<u8>,
    pub hs_secret: Vec<u8>,
    pub master: Vec<u8>,
    pub exporter: Vec<u8>,
    pub th1: Vec<u8>,
    pub th2: Vec<u8>,
    pub hs: [Dir; 2],
    pub app: [Dir; 2],
    pub fin: [Vec<u8>; 2],
    /// handshake and (first) application traffic secrets
    pub hs_sec: [Vec<u8>; 2],
    pub app_sec: [Vec<u8>; 2],
    pub st: St,
    pub pend: Option<u8>,
    pub updates: u32,
    pub encap_cert: Vec<u8>,
    pub sig_req: bool,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub from: Party,
    pub session: Option<u32>,
    pub app: bool,
    pub bytes: Vec<u8>,
    pub p: Option<Parsed>,
    pub frame: usize,
    /// key, iv and sequence number of the record it came in
    pub dir: Option<Dir>,
}

#[derive(Clone, Debug)]
pub struct Issue {
    pub kind: &'static str,
    pub text: String,
    pub at: usize,
}

#[derive(Clone)]
pub struct Audit {
    pub tr: Tr,
    pub neg: Neg,
    pub a: Vec<u8>,
    /// (starts a GET_DIGESTS / GET_CERTIFICATE request, bytes)
    pub b: Vec<(bool, Vec<u8>)>,
    pub c: Vec<u8>,
    pub m: Vec<Vec<u8>>,
    pub sess: Vec<Sess>,
    pub msgs: Vec<Msg>,
    pub issues: Vec<Issue>,
    pub frames: usize,
    last: Option<Msg>,
    pub summary: u8,
    pub sig_req: bool,
    pub rsp_chain: [Option<Vec<u8>>; 8],
    pub req_chain: [Option<Vec<u8>>; 8],
    pub rsp_key: u64,
    pub req_key: u64,
    pub check_reserved: bool,
    pub signed: [u32; 8],
    /// a challenge is strict when only digest/certificate traffic preceded it
    pub strict_b: bool,
    pub dhe: Vec<(Party, Vec<u8>, u64)>,
    pub challenged: u32,
    pub digests: Vec<(u8, Vec<Vec<u8>>)>,
}

/// header, root hash, certificates
pub fn chain_blob(h: H, chain: &[u8]) -> Vec<u8> {
    let root = match toy::split_chain(chain) {
        Some(v) => sha2::hash(h, &chain[v[0].0..v[0].1]),
        None => vec![0; h.size()],
    };
    let n = 4 + root.len() + chain.len();
    let mut o = vec![n as u8, (n >> 8) as u8, 0, 0];
    o.extend_from_slice(&root);
    o.extend_from_slice(chain);
    o
}

pub fn sign_data(ver: u8, h: H, ctx: &str, transcript: &[u8]) -> Vec<u8> {
    if ver < 0x12 {
        return transcript.to_vec();
    }
    let mut d = vec![];
    for _ in 0..4 {
        d.extend_from_slice(b"dmtf-spdm-v1.2.*");
    }
    d.extend(std::iter::repeat(0).take(36 - ctx.len()));
    d.extend_from_slice(ctx.as_bytes());
    d.extend_from_slice(&sha2::hash(h, transcript));
    d
}

pub fn mk_dir(h: H, ver: u8, aead: u16, secret: &[u8]) -> Dir {
    let kl = if aead == 1 { 16 } else { 32 };
    Dir {
        secret: secret.to_vec(),
        key: sha2::hkdf_expand(h, secret, &toy::bin_concat(kl, ver, "key", &[]), kl),
        iv: sha2::hkdf_expand(h, secret, &toy::bin_concat(12, ver, "iv", &[]), 12),
        seq: 0,
    }
}
pub fn upd_dir(h: H, ver: u8, aead: u16, d: &Dir) -> Dir {
    let s = sha2::hkdf_expand(
        h,
        &d.secret,
        &toy::bin_concat(h.size(), ver, "traffic upd", &[]),
        h.size(),
    );
    mk_dir(h, ver, aead, &s)
}

impl Sess {
    fn x(&self, label: &str, secret: &[u8], ctx: &[u8]) -> Vec<u8> {
        let h = self.neg.h();
        sha2::hkdf_expand(
            h,
            secret,
            &toy::bin_concat(h.size(), self.neg.ver, label, ctx),
            h.size(),
        )
    }
    pub fn th(&self, tail: &[&[u8]]) -> Vec<u8> {
        let mut v = self.a.clone();
        v.extend_from_slice(&self.ct);
        v.extend_from_slice(&self.k);
        for t in tail {
            v.extend_from_slice(t);
        }
        v
    }
    pub fn th_f(&self, tail: &[&[u8]]) -> Vec<u8> {
        let mut v = self.th(&[&self.ct_req, &self.f]);
        for t in tail {
            v.extend_from_slice(t);
        }
        v
    }
    /// root secret of the schedule from the DHE secret or the PSK
    pub fn root(&mut self) {
        let h = self.neg.h();
        let ikm = if self.psk {
            toy::psk_key(Party::Req, &self.hint)
        } else {
            self.dhe_secret.clone()
        };
        self.hs_secret = sha2::hmac(h, &vec![0; h.size()], &ikm);
    }
    pub fn handshake_keys(&mut self, th1: &[u8]) {
        let h = self.neg.h();
        self.th1 = sha2::hash(h, th1);
        self.root();
        let (v, a) = (self.neg.ver, self.neg.aead);
        let t = self.th1.clone();
        let hs = self.hs_secret.clone();
        let r = self.x("req hs data", &hs, &t);
        let s = self.x("rsp hs data", &hs, &t);
        self.fin = [self.x("finished", &r, &[]), self.x("finished", &s, &[])];
        self.hs_sec = [r.clone(), s.clone()];
        self.hs = [mk_dir(h, v, a, &r), mk_dir(h, v, a, &s)];
    }
    pub fn app_keys(&mut self, th2: &[u8]) {
        let h = self.neg.h();
        self.th2 = sha2::hash(h, th2);
        let (v, a) = (self.neg.ver, self.neg.aead);
        let hs = self.hs_secret.clone();
        let salt1 = self.x("derived", &hs, &[]);
        self.master = sha2::hmac(h, &salt1, &vec![0; h.size()]);
        let m = self.master.clone();
        let t = self.th2.clone();
        let r = self.x("req app data", &m, &t);
        let s = self.x("rsp app data", &m, &t);
        self.exporter = self.x("exp master", &m, &t);
        self.app_sec = [r.clone(), s.clone()];
        self.app = [mk_dir(h, v, a, &r), mk_dir(h, v, a, &s)];
    }
    pub fn hmac(&self, p: Party, t: &[u8]) -> Vec<u8> {
        let h = self.neg.h();
        sha2::hmac(h, &self.fin[p as usize], &sha2::hash(h, t))
    }
    pub fn dir(&mut self, p: Party) -> &mut Dir {
        if self.st == St::Handshake {
            &mut self.hs[p as usize]
        } else {
            &mut self.app[p as usize]
        }
    }
    /// Build a record the given party would send next, without advancing.
    pub fn forge(&self, tr: Tr, p: Party, app: bool, m: &[u8]) -> Vec<u8> {
        let d = if self.st == St::Handshake {
            &self.hs[p as usize]
        } else {
            &self.app[p as usize]
        };
        wire::frame(
            tr,
            true,
            &wire::seal_record(
                tr,
                self.neg.aead,
                &d.key,
                &d.iv,
                self.id,
                d.seq,
                &wire::app_wrap(tr, app, m),
            ),
        )
    }
}

impl Audit {
    pub fn new(cfg: &crate::world::Cfg) -> Audit {
        Audit {
            tr: cfg.tr,
            neg: Neg::default(),
            a: vec![],
            b: vec![],
            c: vec![],
            m: vec![],
            sess: vec![],
            msgs: vec![],
            issues: vec![],
            frames: 0,
            last: None,
            summary: 0,
            sig_req: false,
            rsp_chain: cfg.rsp_chain.clone(),
            req_chain: cfg.req_chain.clone(),
            rsp_key: 0xA1,
            req_key: 0x51,
            check_reserved: true,
            signed: [0; 8],
            strict_b: true,
            dhe: vec![],
            challenged: 0,
            digests: vec![],
        }
    }
    /// Feed everything the world logged since the last call.
    pub fn catch_up(&mut self, w: &crate::world::World) {
        self.dhe = toy::with(|t| t.dhe.clone());
        let s = w.sh.borrow();
        while self.frames < s.log.len() {
            let f = &s.log[self.frames];
            let (from, b) = (f.from, f.sent.clone());
            self.feed(from, &b);
        }
    }
    pub fn issue(&mut self, kind: &'static str, text: impl Into<String>) {
        let at = self.frames;
        self.issues.push(Issue {
            kind,
            text: text.into(),
            at,
        });
    }
    pub fn px(&self) -> Px {
        Px {
            ver: self.neg.ver,
            hlen: self.neg.h().size(),
            siglen: toy::sig_size(self.neg.asym).unwrap_or(0),
            req_siglen: toy::sig_size(self.neg.req_asym as u32).unwrap_or(0),
            dhe: toy::dhe_size(self.neg.dhe).unwrap_or(0),
            summary: self.summary == 1 || self.summary == 0xff,
            sig_req: self.sig_req,
            clear: self.neg.clear(),
        }
    }
    pub fn session(&mut self, id: u32) -> Option<&mut Sess> {
        self.sess
            .iter_mut()
            .rev()
            .find(|s| s.id == id && s.st != St::Ended)
    }
    pub fn live(&self) -> Vec<u32> {
        self.sess
            .iter()
            .filter(|s| s.st != St::Ended)
            .map(|s| s.id)
            .collect()
    }

    pub fn feed(&mut self, from: Party, frame: &[u8]) {
        let at = self.frames;
        self.frames += 1;
        let (secured, pl) = match wire::unframe(self.tr, frame) {
            Some(x) => x,
            None => {
                self.issue(
                    "frame",
                    format!(
                        "unparsable frame {}",
                        crate::engine::hex(&frame[..frame.len().min(16)])
                    ),
                );
                return;
            }
        };
        if self.tr == Tr::Doe && frame.len() % 4 != 0 {
            self.issue("frame", "DOE object not a multiple of 4 bytes");
        }
        let pl = pl.to_vec();
        let mut dir = None;
        let (session, app, mut bytes) = if secured {
            match self.open(from, &pl) {
                Ok((id, app, b, d)) => {
                    dir = Some(d);
                    (Some(id), app, b)
                }
                Err(e) => {
                    self.issue(
                        "record",
                        format!("{:?} record at frame {}: {}", from, at, e),
                    );
                    return;
                }
            }
        } else {
            (None, false, pl)
        };
        let mut p = None;
        if !app {
            // requests announce what their answer contains
            if from == Party::Req && bytes.len() >= 4 {
                match bytes[1] {
                    CHALLENGE => self.summary = bytes[3],
                    KEY_EXCHANGE | PSK_EXCHANGE => self.summary = bytes[2],
                    GET_MEASUREMENTS => self.sig_req = bytes[2] & 1 != 0,
                    _ => {}
                }
            }
            match wire::parse(&bytes, &self.px()) {
                Ok(q) => {
                    let slack = bytes.len() - q.used;
                    if slack > 0 {
                        let pad_ok = session.is_none()
                            && self.tr == Tr::Doe
                            && slack <= 3
                            && bytes[q.used..].iter().all(|x| *x == 0);
                        if !pad_ok {
                            self.issue(
                                "format",
                                format!("code {:02x}: {} stray bytes", q.code, slack),
                            );
                        }
                        bytes.truncate(q.used);
                    }
                    if self.check_reserved {
                        for f in &q.f {
                            if f.name.starts_with("resv")
                                && bytes[f.off..f.off + f.len].iter().any(|x| *x != 0)
                            {
                                let t = format!(
                                    "code {:02x}: reserved field at {} not zero",
                                    q.code, f.off
                                );
                                self.issue("format", t);
                            }
                        }
                    }
                    p = Some(q);
                }
                Err(e) => {
                    self.issue(
                        "format",
                        format!(
                            "{:?} message {}: {}",
                            from,
                            crate::engine::hex(&bytes[..bytes.len().min(24)]),
                            e
                        ),
                    );
                }
            }
        }
        let m = Msg {
            from,
            session,
            app,
            bytes,
            p,
            frame: at,
            dir,
        };
        self.msgs.push(m.clone());
        if !app {
            self.track(m);
        }
    }

    fn open(&mut self, from: Party, r: &[u8]) -> Result<(u32, bool, Vec<u8>, Dir), String> {
        let id = wire::record_sid(r).ok_or("too short")?;
        let tr = self.tr;
        let s = self.session(id).ok_or(format!("no session {:x}", id))?;
        let aead = s.neg.aead;
        // the requester's record before it saw the end of its handshake and
        // vice versa never overlap in lockstep use
        let d = s.dir(from);
        if d.key.is_empty() {
            return Err("no keys yet".into());
        }
        let pt = wire::open_record(tr, aead, &d.key, &d.iv, id, d.seq, r)?;
        let used = d.clone();
        d.seq += 1;
        let (app, m) = wire::app_unwrap(tr, &pt).ok_or("application framing")?;
        let app = app || (tr == Tr::Doe && (m.len() < 4 || (m[0] & 0xF0) != 0x10));
        Ok((id, app, m, used))
    }

    fn reset_m(&mut self, code: u8, sid: Option<u32>) {
        if code != GET_MEASUREMENTS {
            match sid {
                None => self.m.clear(),
                Some(i) => {
                    if let Some(s) = self.session(i) {
                        s.m.clear()
                    }
                }
            }
        }
    }

    fn verify_sig(
        &mut self,
        kind: &'static str,
        rsp: bool,
        neg: &Neg,
        ctx: &str,
        candidates: Vec<Vec<u8>>,
        sig: &[u8],
    ) {
        let (key, asym) = if rsp {
            (self.rsp_key, neg.asym)
        } else {
            (self.req_key, neg.req_asym as u32)
        };
        let h = neg.h();
        for t in &candidates {
            let d = sign_data(neg.ver, h, ctx, t);
            if toy::sign_with(key, neg.hash, asym, &d).as_deref() == Some(sig) {
                return;
            }
        }
        self.issue(
            kind,
            format!(
                "signature does not cover the transcript ({} candidates tried)",
                candidates.len()
            ),
        );
    }

    fn track(&mut self, m: Msg) {
        let p = match m.p.clone() {
            Some(p) => p,
            None => {
                if m.from == Party::Req {
                    self.last = Some(m);
                }
                return;
            }
        };
        if self.neg.done >= 1
            && !matches!(p.code, GET_VERSION | VERSION)
            && !(p.code == ERROR && m.from == Party::Rsp)
            && p.ver != self.neg.ver
        {
            let t = format!(
                "code {:02x} carries version {:02x}, negotiated {:02x}",
                p.code, p.ver, self.neg.ver
            );
            self.issue("version", t);
        }
        if m.from == Party::Req {
            self.reset_m(p.code, m.session);
            if matches!(
                p.code,
                GET_MEASUREMENTS
                    | KEY_EXCHANGE
                    | FINISH
                    | PSK_EXCHANGE
                    | PSK_FINISH
                    | KEY_UPDATE
                    | HEARTBEAT
                    | END_SESSION
            ) {
                // these may restart what CHALLENGE covers
                self.strict_b = false;
            }
            if p.code == KEY_UPDATE {
                self.key_update_req(&m, &p);
            }
            if p.code == DELIVER_ENCAP {
                self.deliver(&m, &p);
            }
            if p.code == FINISH || p.code == PSK_FINISH {
                self.finish_req(&m, &p);
            }
            self.last = Some(m);
            return;
        }
        let q = match self.last.take() {
            Some(q) => q,
            None => {
                self.issue(
                    "pairing",
                    format!("response {:02x} without request", p.code),
                );
                return;
            }
        };
        let qc = q.bytes.get(1).copied().unwrap_or(0);
        if q.session != m.session {
            self.issue(
                "pairing",
                format!(
                    "request in session {:?} answered in {:?}",
                    q.session, m.session
                ),
            );
        }
        if p.code == ERROR {
            return;
        }
        let want = match qc {
            GET_ENCAP => ENCAP_REQUEST,
            DELIVER_ENCAP => ENCAP_RESPONSE_ACK,
            x => x & 0x7f,
        };
        if p.code != want {
            self.issue(
                "pairing",
                format!("request {:02x} answered by {:02x}", qc, p.code),
            );
            return;
        }
        self.exchange(&q, &m, &p);
    }

    fn exchange(&mut self, q: &Msg, r: &Msg, p: &Parsed) {
        let qp = match &q.p {
            Some(x) => x.clone(),
            None => return,
        };
        let both = [&q.bytes[..], &r.bytes[..]].concat();
        match p.code {
            VERSION => {
                self.neg = Neg::default();
                self.neg.done = 0;
                self.a = both;
                self.b.clear();
                self.c.clear();
                self.m.clear();
                self.strict_b = true;
                // sessions of the earlier connection do not survive a re-init
                for s in &mut self.sess {
                    s.st = St::Ended;
                }
            }
            CAPABILITIES => {
                self.neg.ver = qp.ver;
                self.neg.done = 1;
                self.neg.req_caps = qp.num(&q.bytes, "flags") as u32;
                self.neg.req_ct = qp.num(&q.bytes, "ct_exponent") as u8;
                self.neg.rsp_caps = p.num(&r.bytes, "flags") as u32;
                self.neg.rsp_ct = p.num(&r.bytes, "ct_exponent") as u8;
                self.neg.req_dts = qp.num(&q.bytes, "data_transfer_size") as u32;
                self.neg.rsp_dts = p.num(&r.bytes, "data_transfer_size") as u32;
                self.a.extend_from_slice(&both);
                if p.ver != qp.ver {
                    self.issue("version", "CAPABILITIES version differs");
                }
            }
            ALGORITHMS => {
                self.a.extend_from_slice(&both);
                let b = &r.bytes;
                self.neg.meas_spec = p.num(b, "meas_spec_sel") as u8;
                self.neg.opaque = p.num(b, "other_params") as u8;
                self.neg.meas_hash = p.num(b, "meas_hash") as u32;
                self.neg.asym = p.num(b, "base_asym") as u32;
                self.neg.hash = p.num(b, "base_hash") as u32;
                let mut i = 0;
                while i + 2 < p.f.len() {
                    if p.f[i].name == "alg_type" {
                        let t = b[p.f[i].off];
                        let o = p.f[i + 2].off;
                        let v = b[o] as u16 | (b[o + 1] as u16) << 8;
                        match t {
                            2 => self.neg.dhe = v,
                            3 => self.neg.aead = v,
                            4 => self.neg.req_asym = v,
                            5 => self.neg.ks = v,
                            _ => {}
                        }
                    }
                    i += 1;
                }
                self.neg.done = 3;
            }
            DIGESTS => {
                let d: Vec<Vec<u8>> =
                    p.f.iter()
                        .filter(|f| f.name == "digest")
                        .map(|f| r.bytes[f.off..f.off + f.len].to_vec())
                        .collect();
                self.digests.push((p.p2, d));
                if r.session.is_none() {
                    // both sides start B anew here
                    self.b.clear();
                    self.b.push((true, both));
                    self.strict_b = true;
                } else {
                    self.strict_b = false;
                }
            }
            CERTIFICATE => {
                if r.session.is_none() {
                    self.b.push((qp.num(&q.bytes, "offset") == 0, both));
                } else {
                    self.strict_b = false;
                }
            }
            CHALLENGE_AUTH => {
                self.challenged += 1;
                let off = p.off("signature");
                let mut cand = vec![];
                let c = [&q.bytes[..], &r.bytes[..off]].concat();
                let all: Vec<u8> = self
                    .b
                    .iter()
                    .map(|x| x.1.clone())
                    .collect::<Vec<_>>()
                    .concat();
                cand.push([&self.a[..], &all, &c].concat());
                if !self.strict_b {
                    for i in 0..self.b.len() {
                        if self.b[i].0 {
                            let t: Vec<u8> = self.b[i..]
                                .iter()
                                .map(|x| x.1.clone())
                                .collect::<Vec<_>>()
                                .concat();
                            cand.push([&self.a[..], &t, &c].concat());
                        }
                    }
                    cand.push([&self.a[..], &c].concat());
                }
                let n = self.neg.clone();
                self.signed[0] += 1;
                self.verify_sig(
                    "challenge-signature",
                    true,
                    &n,
                    "responder-challenge_auth signing",
                    cand,
                    p.get(&r.bytes, "signature"),
                );
                let slot = qp.p1 & 0xf;
                if p.p1 & 0xf != slot {
                    self.issue("challenge", format!("slot {} answered as {}", slot, p.p1));
                }
                if let Some(ch) = self.rsp_chain.get(slot as usize).cloned().flatten() {
                    if sha2::hash(n.h(), &chain_blob(n.h(), &ch)) != p.get(&r.bytes, "cert_hash") {
                        self.issue("challenge", "certificate chain hash");
                    }
                }
                if qp.p2 == 1 || qp.p2 == 0xff {
                    if toy::summary_of(qp.p2, n.h()) != p.get(&r.bytes, "summary") {
                        self.issue("challenge", "measurement summary hash");
                    }
                }
                self.b.clear();
            }
            MEASUREMENTS => {
                let neg = self.neg.clone();
                let sig = qp.p1 & 1 != 0;
                let off = if sig {
                    p.off("signature")
                } else {
                    r.bytes.len()
                };
                let piece = [&q.bytes[..], &r.bytes[..off]].concat();
                let a = self.a.clone();
                let ms: Vec<Vec<u8>> = match r.session {
                    None => {
                        self.m.push(piece);
                        self.m.clone()
                    }
                    Some(i) => match self.session(i) {
                        Some(s) => {
                            s.m.push(piece);
                            s.m.clone()
                        }
                        None => vec![],
                    },
                };
                if sig {
                    let pre: Vec<u8> = if neg.ver >= 0x12 { a } else { vec![] };
                    let cand = vec![[&pre[..], &ms.concat()[..]].concat()];
                    self.signed[1] += 1;
                    self.verify_sig(
                        "measurement-signature",
                        true,
                        &neg,
                        "responder-measurements signing",
                        cand,
                        p.get(&r.bytes, "signature"),
                    );
                    match r.session {
                        None => self.m.clear(),
                        Some(i) => {
                            if let Some(s) = self.session(i) {
                                s.m.clear()
                            }
                        }
                    }
                }
                self.strict_b = false;
            }
            KEY_EXCHANGE_RSP => {
                self.strict_b = false;
                let n = self.neg.clone();
                let slot = qp.p2 & 0xf;
                let ct = match self.rsp_chain.get(slot as usize).cloned().flatten() {
                    Some(c) => sha2::hash(n.h(), &chain_blob(n.h(), &c)),
                    None => vec![],
                };
                let id = qp.num(&q.bytes, "req_session_id") as u32
                    | (p.num(&r.bytes, "rsp_session_id") as u32) << 16;
                if self.session(id).is_some() || id & 0xffff == 0 || id >> 16 == 0 {
                    self.issue("session-id", format!("session id {:x} reused or zero", id));
                }
                let pq = qp.get(&q.bytes, "exchange").to_vec();
                let pr = p.get(&r.bytes, "exchange").to_vec();
                let x = self.dhe.iter().find(|d| d.1 == pq).map(|d| d.2);
                let y = self.dhe.iter().find(|d| d.1 == pr).map(|d| d.2);
                let sec = match (x, y) {
                    (Some(x), _) => toy::dhe_secret(n.dhe, x, &pr),
                    (_, Some(y)) => toy::dhe_secret(n.dhe, y, &pq),
                    _ => None,
                };
                let sec = match sec {
                    Some(s) => s,
                    None => {
                        self.issue("key-exchange", "public keys unknown to the DHE back end");
                        vec![]
                    }
                };
                let mut s = Sess {
                    id,
                    psk: false,
                    slot,
                    hint: vec![],
                    neg: n.clone(),
                    a: self.a.clone(),
                    ct,
                    mut_auth: p.num(&r.bytes, "mut_auth") as u8,
                    ct_req: vec![],
                    k: vec![],
                    f: vec![],
                    m: vec![],
                    dhe_secret: sec,
                    hs_secret: vec![],
                    master: vec![],
                    exporter: vec![],
                    th1: vec![],
                    th2: vec![],
                    hs: Default::default(),
                    app: Default::default(),
                    fin: Default::default(),
                    hs_sec: Default::default(),
                    app_sec: Default::default(),
                    st: St::Handshake,
                    pend: None,
                    updates: 0,
                    encap_cert: vec![],
                    sig_req: false,
                };
                let so = p.off("signature");
                let sig = p.get(&r.bytes, "signature").to_vec();
                s.k = [&q.bytes[..], &r.bytes[..so]].concat();
                let t = s.th(&[]);
                self.signed[2] += 1;
                self.verify_sig(
                    "key-exchange-signature",
                    true,
                    &n,
                    "responder-key_exchange_rsp signing",
                    vec![t],
                    &sig,
                );
                s.k.extend_from_slice(&sig);
                let t = s.th(&[]);
                s.handshake_keys(&t);
                if !n.clear() {
                    let h = p.get(&r.bytes, "hmac");
                    if s.hmac(Party::Rsp, &t) != h {
                        self.issue(
                            "key-exchange-hmac",
                            "KEY_EXCHANGE_RSP HMAC does not match the specification's",
                        );
                    }
                    s.k.extend_from_slice(h);
                }
                if qp.p1 == 1 || qp.p1 == 0xff {
                    if toy::summary_of(qp.p1, n.h()) != p.get(&r.bytes, "summary") {
                        self.issue("key-exchange", "measurement summary hash");
                    }
                }
                self.sess.push(s);
            }
            FINISH_RSP => {
                let id = match r.session {
                    Some(i) => Some(i),
                    None => self
                        .sess
                        .iter()
                        .rev()
                        .find(|s| s.st == St::Handshake && !s.psk)
                        .map(|s| s.id),
                };
                let clear = self.neg.clear();
                let mut bad = None;
                if let Some(s) = id.and_then(|i| self.session(i)) {
                    if clear {
                        let t = s.th_f(&[&r.bytes[..4]]);
                        if s.hmac(Party::Rsp, &t) != p.get(&r.bytes, "hmac") {
                            bad = Some("FINISH_RSP HMAC does not match the specification's");
                        }
                    }
                    s.f.extend_from_slice(&r.bytes);
                    let t = s.th_f(&[]);
                    s.app_keys(&t);
                    s.st = St::Established;
                }
                if let Some(b) = bad {
                    self.issue("finish-rsp-hmac", b);
                }
            }
            PSK_EXCHANGE_RSP => {
                self.strict_b = false;
                let n = self.neg.clone();
                let id = qp.num(&q.bytes, "req_session_id") as u32
                    | (p.num(&r.bytes, "rsp_session_id") as u32) << 16;
                if self.session(id).is_some() || id & 0xffff == 0 || id >> 16 == 0 {
                    self.issue("session-id", format!("session id {:x} reused or zero", id));
                }
                let mut s = Sess {
                    id,
                    psk: true,
                    slot: 0xff,
                    hint: qp.get(&q.bytes, "hint").to_vec(),
                    neg: n.clone(),
                    a: self.a.clone(),
                    ct: vec![],
                    mut_auth: 0,
                    ct_req: vec![],
                    k: vec![],
                    f: vec![],
                    m: vec![],
                    dhe_secret: vec![],
                    hs_secret: vec![],
                    master: vec![],
                    exporter: vec![],
                    th1: vec![],
                    th2: vec![],
                    hs: Default::default(),
                    app: Default::default(),
                    fin: Default::default(),
                    hs_sec: Default::default(),
                    app_sec: Default::default(),
                    st: St::Handshake,
                    pend: None,
                    updates: 0,
                    encap_cert: vec![],
                    sig_req: false,
                };
                let ho = p.off("hmac");
                s.k = [&q.bytes[..], &r.bytes[..ho]].concat();
                let t = s.th(&[]);
                s.handshake_keys(&t);
                let h = p.get(&r.bytes, "hmac");
                if s.hmac(Party::Rsp, &t) != h {
                    self.issue(
                        "psk-hmac",
                        "PSK_EXCHANGE_RSP HMAC does not match the specification's",
                    );
                }
                s.k.extend_from_slice(h);
                if qp.p1 == 1 || qp.p1 == 0xff {
                    if toy::summary_of(qp.p1, n.h()) != p.get(&r.bytes, "summary") {
                        self.issue("psk", "measurement summary hash");
                    }
                }
                if n.rsp_caps & 0x800 == 0 {
                    // no responder context: the session is established at once
                    let t = s.th(&[]);
                    s.app_keys(&t);
                    s.st = St::Established;
                }
                self.sess.push(s);
            }
            PSK_FINISH_RSP => {
                if let Some(s) = r.session.and_then(|i| self.session(i)) {
                    s.f.extend_from_slice(&r.bytes);
                    let t = s.th_f(&[]);
                    s.app_keys(&t);
                    s.st = St::Established;
                }
            }
            END_SESSION_ACK => {
                if let Some(s) = r.session.and_then(|i| self.session(i)) {
                    s.st = St::Ended;
                }
            }
            ENCAP_REQUEST | ENCAP_RESPONSE_ACK => {}
            _ => {}
        }
    }

    fn deliver(&mut self, m: &Msg, p: &Parsed) {
        let pl = p.get(&m.bytes, "payload").to_vec();
        if pl.len() >= 8 && pl[1] == CERTIFICATE {
            let n = pl[4] as usize | (pl[5] as usize) << 8;
            if let Some(s) = m.session.and_then(|i| self.session(i)) {
                let e = (8 + n).min(pl.len());
                s.encap_cert.extend_from_slice(&pl[8..e]);
            }
        }
    }

    fn finish_req(&mut self, m: &Msg, p: &Parsed) {
        let clear = self.neg.clear();
        let id = match m.session {
            Some(i) => Some(i),
            None if clear => self
                .sess
                .iter()
                .rev()
                .find(|s| s.st == St::Handshake && !s.psk)
                .map(|s| s.id),
            None => None,
        };
        let chain = self.req_chain.clone();
        let mut out: Vec<(&'static str, String)> = vec![];
        let mut signed = None;
        if let Some(s) = id.and_then(|i| self.session(i)) {
            if s.st != St::Handshake {
                return;
            }
            s.f.clear();
            s.ct_req.clear();
            let neg = s.neg.clone();
            if s.mut_auth != 0 && !s.psk {
                let slot = p.p2 & 0xf;
                if let Some(c) = chain.get(slot as usize).cloned().flatten() {
                    s.ct_req = sha2::hash(neg.h(), &chain_blob(neg.h(), &c));
                }
            }
            if p.find("signature").is_some() && m.bytes[1] == FINISH {
                let t = s.th_f(&[&m.bytes[..4]]);
                signed = Some((neg.clone(), t, p.get(&m.bytes, "signature").to_vec()));
            }
            let ho = p.off("hmac");
            let t = s.th_f(&[&m.bytes[..ho]]);
            if s.hmac(Party::Req, &t) != p.get(&m.bytes, "hmac") {
                out.push((
                    "finish-hmac",
                    format!("{:02x} HMAC does not match the specification's", m.bytes[1]),
                ));
            }
            s.f.extend_from_slice(&m.bytes);
        }
        for (k, t) in out {
            self.issue(k, t);
        }
        if let Some((neg, t, sig)) = signed {
            self.signed[3] += 1;
            self.verify_sig(
                "finish-signature",
                false,
                &neg,
                "requester-finish signing",
                vec![t],
                &sig,
            );
        }
    }

    fn key_update_req(&mut self, m: &Msg, p: &Parsed) {
        if let Some(s) = m.session.and_then(|i| self.session(i)) {
            if s.st != St::Established {
                return;
            }
            let (h, v, a) = (s.neg.h(), s.neg.ver, s.neg.aead);
            match p.p1 {
                1 => {
                    s.app[0] = upd_dir(h, v, a, &s.app[0]);
                    s.updates += 1;
                }
                2 => {
                    s.app[0] = upd_dir(h, v, a, &s.app[0]);
                    s.app[1] = upd_dir(h, v, a, &s.app[1]);
                    s.updates += 1;
                }
                _ => {}
            }
        }
    }
    pub fn issues_of(&self, kinds: &[&str]) -> Option<&Issue> {
        self.issues
            .iter()
            .find(|i| kinds.iter().any(|k| i.kind == *k || i.kind.starts_with(k)))
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for m in &self.msgs {
            s.push_str(&format!(
                "{}{}{:02x}{} ",
                if m.from == Party::Req { ">" } else { "<" },
                match m.session {
                    Some(i) => format!("[{:x}]", i),
                    None => "".into(),
                },
                m.bytes.get(1).copied().unwrap_or(0),
                if m.app { "app" } else { "" }
            ));
        }
        s
    }
}

/// keep the type checker honest about unused helpers
pub fn _h(h: H) -> Hasher {
    Hasher::new(h)
}
