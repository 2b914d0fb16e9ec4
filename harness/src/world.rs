//! A real requester and a real responder joined by in-memory device I/O.

use crate::engine::Case;
use crate::toy::{self, Op, Party};
use crate::wire::Tr;
use codec::Codec;
use spdmlib::common::*;
use spdmlib::config;
use spdmlib::error::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::mem::ManuallyDrop;
use std::rc::Rc;

pub const RQ_CERT: u32 = 2;
pub const RQ_CHAL: u32 = 4;
pub const RQ_ENCRYPT: u32 = 0x40;
pub const RQ_MAC: u32 = 0x80;
pub const RQ_MUT: u32 = 0x100;
pub const RQ_KEX: u32 = 0x200;
pub const RQ_PSK: u32 = 0x400;
pub const RQ_ENCAP: u32 = 0x1000;
pub const RQ_HB: u32 = 0x2000;
pub const RQ_UPD: u32 = 0x4000;
pub const RQ_CLEAR: u32 = 0x8000;
pub const RS_CERT: u32 = 2;
pub const RS_CHAL: u32 = 4;
pub const RS_MEAS_NOSIG: u32 = 8;
pub const RS_MEAS_SIG: u32 = 0x10;
pub const RS_ENCRYPT: u32 = 0x40;
pub const RS_MAC: u32 = 0x80;
pub const RS_MUT: u32 = 0x100;
pub const RS_KEX: u32 = 0x200;
pub const RS_PSK_NOCTX: u32 = 0x400;
pub const RS_PSK_CTX: u32 = 0x800;
pub const RS_ENCAP: u32 = 0x1000;
pub const RS_HB: u32 = 0x2000;
pub const RS_UPD: u32 = 0x4000;
pub const RS_CLEAR: u32 = 0x8000;

pub const RSP_ROOT: u64 = 0x2007;
pub const REQ_ROOT: u64 = 0x1007;

thread_local! {
    static BOTH: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// From now on generate only what both transcript builds can do.
pub fn for_both_builds() {
    BOTH.with(|b| b.set(true))
}
fn both() -> bool {
    BOTH.with(|b| b.get())
}
/// Without the capacity limits of stored transcripts.
pub fn unbounded() -> bool {
    cfg!(feature = "hashed") && !both()
}
/// A signing-capable version in every build.
pub fn sign_versions() -> &'static [u8] {
    if cfg!(feature = "hashed") || both() {
        &[0x12]
    } else {
        &[0x12, 0x11, 0x10]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Side {
    pub versions: Vec<u8>,
    pub caps: u32,
    pub ct: u8,
    pub meas_spec: u8,
    pub meas_hash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub req_asym: u16,
    pub ks: u16,
    pub opaque: u8,
    pub dts: u32,
    pub max_msg: u32,
    pub heartbeat: u8,
    pub secver: [u8; 2],
    pub policy: u8,
    pub change: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub tr: Tr,
    pub req: Side,
    pub rsp: Side,
    pub rsp_chain: [Option<Vec<u8>>; 8],
    pub req_chain: [Option<Vec<u8>>; 8],
    /// trusted root certificate data held by the requester / responder
    pub req_trust: Option<Vec<u8>>,
    pub rsp_trust: Option<Vec<u8>>,
    pub rng: u64,
}

pub const REQ_CAPS_ALL: u32 =
    RQ_CERT | RQ_CHAL | RQ_ENCRYPT | RQ_MAC | RQ_MUT | RQ_KEX | RQ_PSK | RQ_ENCAP | RQ_HB | RQ_UPD;
pub const RSP_CAPS_ALL: u32 = RS_CERT
    | RS_CHAL
    | RS_MEAS_SIG
    | RS_ENCRYPT
    | RS_MAC
    | RS_MUT
    | RS_KEX
    | RS_PSK_CTX
    | RS_ENCAP
    | RS_HB
    | RS_UPD
    | 0x20;

impl Side {
    pub fn full(req: bool) -> Side {
        Side {
            versions: vec![0x12],
            caps: if req { REQ_CAPS_ALL } else { RSP_CAPS_ALL },
            ct: 0,
            meas_spec: 1,
            meas_hash: 4,
            hash: 2,
            asym: 0x80,
            dhe: 0x10,
            aead: 2,
            req_asym: 0x80,
            ks: 1,
            opaque: 2,
            dts: 4096,
            max_msg: 4096,
            heartbeat: 0,
            secver: [0x10, 0x11],
            policy: 0,
            change: false,
        }
    }
    pub fn config(&self) -> SpdmConfigInfo {
        let ver = |v: u8| SpdmVersion::read_bytes(&[v]).unwrap();
        let mut vs = [SpdmVersion::Unknown(0); 3];
        for i in 0..3 {
            vs[i] = ver(*self.versions.get(i).or(self.versions.last()).unwrap());
        }
        // versions are listed in the configured order; the tail repeats the last
        unsafe {
            SpdmConfigInfo {
                spdm_version: vs,
                req_capabilities: SpdmRequestCapabilityFlags::from_bits_unchecked(self.caps),
                rsp_capabilities: SpdmResponseCapabilityFlags::from_bits_unchecked(self.caps),
                req_ct_exponent: self.ct,
                rsp_ct_exponent: self.ct,
                measurement_specification: SpdmMeasurementSpecification::from_bits_unchecked(
                    self.meas_spec,
                ),
                measurement_hash_algo: SpdmMeasurementHashAlgo::from_bits_unchecked(self.meas_hash),
                base_hash_algo: SpdmBaseHashAlgo::from_bits_unchecked(self.hash),
                base_asym_algo: SpdmBaseAsymAlgo::from_bits_unchecked(self.asym),
                dhe_algo: SpdmDheAlgo::from_bits_unchecked(self.dhe),
                aead_algo: SpdmAeadAlgo::from_bits_unchecked(self.aead),
                req_asym_algo: SpdmReqAsymAlgo::from_bits_unchecked(self.req_asym),
                key_schedule_algo: SpdmKeyScheduleAlgo::from_bits_unchecked(self.ks),
                opaque_support: SpdmOpaqueSupport::from_bits_unchecked(self.opaque),
                session_policy: self.policy,
                runtime_content_change_support: self.change,
                data_transfer_size: self.dts,
                max_spdm_msg_size: self.max_msg,
                heartbeat_period: self.heartbeat,
                secure_spdm_version: self.secver,
            }
        }
    }
}

impl Cfg {
    pub fn simple() -> Cfg {
        let mut c = Cfg {
            tr: Tr::Mctp,
            req: Side::full(true),
            rsp: Side::full(false),
            rsp_chain: Default::default(),
            req_chain: Default::default(),
            req_trust: None,
            rsp_trust: None,
            rng: 7,
        };
        c.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, 3, 700, 1));
        c.req_chain[0] = Some(toy::make_chain(REQ_ROOT, 0x51, 2, 400, 2));
        c
    }
    pub fn provision(&self, req: bool) -> SpdmProvisionInfo {
        let mut p = SpdmProvisionInfo::default();
        let (chains, trust) = if req {
            (&self.req_chain, &self.req_trust)
        } else {
            (&self.rsp_chain, &self.rsp_trust)
        };
        for i in 0..8 {
            if let Some(c) = &chains[i] {
                p.my_cert_chain_data[i] = Some(cert_data(c));
            }
        }
        if let Some(t) = trust {
            p.peer_root_cert_data = Some(cert_data(t));
        }
        p
    }
    /// Negotiate to exactly one algorithm set on both sides.
    pub fn set_algos(&mut self, hash: u32, asym: u32, dhe: u16, aead: u16, req_asym: u16) {
        for s in [&mut self.req, &mut self.rsp].iter_mut() {
            s.hash = hash;
            s.asym = asym;
            s.dhe = dhe;
            s.aead = aead;
            s.req_asym = req_asym;
        }
    }
    pub fn set_versions(&mut self, v: &[u8]) {
        self.req.versions = v.to_vec();
        self.rsp.versions = v.to_vec();
    }
}

pub fn cert_data(c: &[u8]) -> SpdmCertChainData {
    let mut d = SpdmCertChainData::default();
    d.data_size = c.len() as u16;
    d.data[..c.len()].copy_from_slice(c);
    d
}

pub const HASHES: [u32; 3] = [2, 1, 4];
pub const ASYMS: [u32; 8] = [0x80, 0x10, 1, 2, 4, 8, 0x20, 0x40];
pub const DHES: [u16; 2] = [0x10, 8];
pub const AEADS: [u16; 3] = [2, 1, 4];

/// A working configuration: both ends agree on one algorithm per category
/// (possibly among several offered).
pub fn gen_good(c: &mut Case) -> Cfg {
    let mut g = Cfg::simple();
    g.tr = if c.bool() { Tr::Doe } else { Tr::Mctp };
    g.rng = c.below(1 << 20) + 1;
    let v = c.pick(sign_versions());
    g.set_versions(&[v]);
    let (h, a, d, e, r) = (
        c.pick(&HASHES),
        c.pick(&ASYMS),
        c.pick(&DHES),
        c.pick(&AEADS),
        c.pick(&ASYMS),
    );
    g.set_algos(h, a, d, e, r as u16);
    // measurement hash is independent
    let mh = c.pick(&[4u32, 2, 8, 1]);
    g.req.meas_hash = mh;
    g.rsp.meas_hash = mh;
    // offers wider than the common choice
    if c.chance(1, 3) {
        g.req.hash |= c.below(8) as u32;
        g.req.asym |= c.below(256) as u32;
        g.req.dhe |= c.pick(&[0u16, 8, 0x10]);
        g.req.aead |= c.below(8) as u16;
    }
    let n = c.range(1, 4);
    let len = if c.chance(1, 8) {
        c.range(n * toy::CERT_MIN, 4096)
    } else {
        c.range(n * toy::CERT_MIN, 1500)
    };
    let seed = c.below(1 << 16) + 1;
    g.rsp_chain[0] = Some(toy::make_chain(RSP_ROOT, 0xA1, n, len, seed));
    g.req_chain[0] = Some(toy::make_chain(REQ_ROOT, 0x51, 2, c.range(104, 900), seed));
    match c.weighted(&[2, 1]) {
        1 => {
            let ch = g.rsp_chain[0].as_ref().unwrap();
            let v = toy::split_chain(ch).unwrap();
            g.req_trust = Some(ch[..v[0].1].to_vec());
            let ch = g.req_chain[0].as_ref().unwrap();
            let v = toy::split_chain(ch).unwrap();
            g.rsp_trust = Some(ch[..v[0].1].to_vec());
        }
        _ => {}
    }
    g.req.ct = c.below(20) as u8;
    g.rsp.ct = c.below(20) as u8;
    g
}

pub fn gen_meas(c: &mut Case) -> Vec<toy::MeasBlock> {
    let n = match c.weighted(&[4, 2, 1]) {
        0 => c.range(0, 4),
        1 => c.range(1, 12),
        _ => c.range(12, 100),
    };
    let mut v = vec![];
    let mut idx = 0usize;
    let mut room = 3900usize;
    // next to each other, or anywhere up to the last index
    let far = c.pick(&[2usize, 2, 2, 90, 254]);
    for _ in 0..n {
        idx += c.range(1, far);
        if idx > 0xfe || room < 12 {
            break;
        }
        let m = if c.chance(1, 10) { 1000 } else { 64 };
        let l = c.range(1, m.min(room - 7));
        room -= l + 7;
        let typ = c.below(5) as u8 | if c.bool() { 0x80 } else { 0 };
        v.push(toy::MeasBlock {
            index: idx as u8,
            typ,
            value: c.blob(l),
        });
    }
    v
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub from: Party,
    pub sent: Vec<u8>,
    pub delivered: Vec<Vec<u8>>,
    pub sent_ok: bool,
}

pub type Mitm = Box<dyn FnMut(Party, usize, &[u8]) -> Vec<Vec<u8>>>;
pub type Peer = Box<dyn FnMut(&[u8]) -> Vec<Vec<u8>>>;

#[derive(Clone, Debug)]
pub struct RspRet {
    /// Ok(b) as returned, or Err(used, raw bytes)
    pub ret: Result<bool, (usize, Vec<u8>)>,
    pub input: Vec<u8>,
    pub sent: Vec<Vec<u8>>,
    pub receives: usize,
}

pub struct Shared {
    pub log: Vec<Frame>,
    pub to_req: VecDeque<Vec<u8>>,
    pub to_rsp: VecDeque<Vec<u8>>,
    pub mitm: Option<Mitm>,
    pub peer: Option<Peer>,
    pub rsp: *mut ResponderContext<'static>,
    pub max_sends: usize,
    pub overrun: bool,
    pub rets: Vec<RspRet>,
    pub req_sends: usize,
    pub rsp_sends: usize,
    pub rsp_receives: usize,
    pub aux: Vec<u8>,
    pub recv_timeouts: Vec<usize>,
}

impl Shared {
    fn put(&mut self, from: Party, b: &[u8]) {
        let i = self.log.len();
        let delivered = match self.mitm.take() {
            Some(mut m) => {
                let d = m(from, i, b);
                self.mitm = Some(m);
                d
            }
            None => vec![b.to_vec()],
        };
        for d in &delivered {
            match from {
                Party::Req => self.to_rsp.push_back(d.clone()),
                Party::Rsp => self.to_req.push_back(d.clone()),
            }
        }
        for r in ANSWERS.with(|x| std::mem::take(&mut *x.borrow_mut())) {
            match from {
                Party::Req => self.to_req.push_back(r),
                Party::Rsp => self.to_rsp.push_back(r),
            }
        }
        self.log.push(Frame {
            from,
            sent: b.to_vec(),
            delivered,
            sent_ok: true,
        });
    }
}

thread_local! {
    static ANSWERS: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
}
/// Called by a man in the middle: send a frame back to whoever is sending.
pub fn answer(frame: Vec<u8>) {
    ANSWERS.with(|x| x.borrow_mut().push(frame));
}

type Sh = Rc<RefCell<Shared>>;

struct ReqIo(Sh);
impl SpdmDeviceIo for ReqIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        let mut s = self.0.borrow_mut();
        s.req_sends += 1;
        if s.req_sends > s.max_sends {
            s.overrun = true;
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        if toy::gate(Op::Send) {
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        s.put(Party::Req, b);
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], timeout: usize) -> Result<usize, usize> {
        if toy::gate(Op::Recv) {
            return Err(0);
        }
        {
            self.0.borrow_mut().recv_timeouts.push(timeout);
            let empty = self.0.borrow().to_req.is_empty();
            if empty {
                pump(&self.0);
            }
        }
        let mut s = self.0.borrow_mut();
        match s.to_req.pop_front() {
            Some(m) => {
                let n = m.len().min(b.len());
                b[..n].copy_from_slice(&m[..n]);
                Ok(n)
            }
            None => Err(0),
        }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}

struct RspIo(Sh);
impl SpdmDeviceIo for RspIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        let mut s = self.0.borrow_mut();
        s.rsp_sends += 1;
        if s.rsp_sends > s.max_sends {
            s.overrun = true;
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        if toy::gate(Op::Send) {
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        s.put(Party::Rsp, b);
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], _t: usize) -> Result<usize, usize> {
        let mut s = self.0.borrow_mut();
        s.rsp_receives += 1;
        if toy::gate(Op::Recv) {
            // the message is lost
            s.to_rsp.pop_front();
            return Err(0);
        }
        match s.to_rsp.pop_front() {
            Some(m) => {
                let n = m.len().min(b.len());
                b[..n].copy_from_slice(&m[..n]);
                Ok(n)
            }
            None => Err(0),
        }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}

/// Let the responder handle everything queued for it.
pub fn pump(sh: &Sh) {
    let peer = sh.borrow_mut().peer.take();
    if let Some(mut p) = peer {
        loop {
            let m = sh.borrow_mut().to_rsp.pop_front();
            match m {
                None => break,
                Some(m) => {
                    let out = p(&m);
                    let mut s = sh.borrow_mut();
                    for o in out {
                        s.put(Party::Rsp, &o);
                    }
                }
            }
        }
        sh.borrow_mut().peer = Some(p);
        return;
    }
    let mut guard = 0;
    while !sh.borrow().to_rsp.is_empty() && guard < 64 {
        guard += 1;
        step_rsp(sh);
    }
}

/// One process_message call on the real responder.
pub fn step_rsp(sh: &Sh) {
    let (p, l0, r0, input, aux) = {
        let s = sh.borrow();
        (
            s.rsp,
            s.log.len(),
            s.rsp_receives,
            s.to_rsp.front().cloned().unwrap_or_default(),
            s.aux.clone(),
        )
    };
    if p.is_null() {
        sh.borrow_mut().to_rsp.clear();
        return;
    }
    let r = toy::as_party(Party::Rsp, || unsafe { (*p).process_message(0, &aux) });
    let mut s = sh.borrow_mut();
    let sent = s.log[l0..]
        .iter()
        .filter(|f| f.from == Party::Rsp)
        .map(|f| f.sent.clone())
        .collect();
    let receives = s.rsp_receives - r0;
    s.rets.push(RspRet {
        ret: r.map_err(|(n, b)| (n, b[..n.min(b.len())].to_vec())),
        input,
        sent,
        receives,
    });
}

pub struct World {
    pub cfg: Cfg,
    pub sh: Sh,
    pub req: ManuallyDrop<Box<RequesterContext<'static>>>,
    pub rsp: ManuallyDrop<Box<ResponderContext<'static>>>,
    /// key exchanges attempted
    pub kes: usize,
    ios: Vec<*mut dyn SpdmDeviceIo>,
    trs: Vec<*mut dyn SpdmTransportEncap>,
}

fn leak_io(i: Box<dyn SpdmDeviceIo>) -> *mut dyn SpdmDeviceIo {
    Box::into_raw(i)
}
pub fn transport(t: Tr) -> Box<dyn SpdmTransportEncap> {
    match t {
        Tr::Mctp => Box::new(mctp_transport::MctpTransportEncap {}),
        Tr::Doe => Box::new(pcidoe_transport::PciDoeTransportEncap {}),
    }
}

#[inline(never)]
fn mk_req(
    io: *mut dyn SpdmDeviceIo,
    tr: *mut dyn SpdmTransportEncap,
    c: SpdmConfigInfo,
    p: SpdmProvisionInfo,
) -> Box<RequesterContext<'static>> {
    Box::new(RequesterContext::new(
        unsafe { &mut *io },
        unsafe { &mut *tr },
        c,
        p,
    ))
}
#[inline(never)]
fn mk_rsp(
    io: *mut dyn SpdmDeviceIo,
    tr: *mut dyn SpdmTransportEncap,
    c: SpdmConfigInfo,
    p: SpdmProvisionInfo,
) -> Box<ResponderContext<'static>> {
    Box::new(ResponderContext::new(
        unsafe { &mut *io },
        unsafe { &mut *tr },
        c,
        p,
    ))
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        toy::with(|t| t.rng = cfg.rng);
        let sh = Rc::new(RefCell::new(Shared {
            log: vec![],
            to_req: VecDeque::new(),
            to_rsp: VecDeque::new(),
            mitm: None,
            peer: None,
            rsp: std::ptr::null_mut(),
            max_sends: 4000,
            overrun: false,
            rets: vec![],
            req_sends: 0,
            rsp_sends: 0,
            rsp_receives: 0,
            aux: vec![],
            recv_timeouts: vec![],
        }));
        let io1 = leak_io(Box::new(ReqIo(sh.clone())));
        let io2 = leak_io(Box::new(RspIo(sh.clone())));
        let t1: *mut dyn SpdmTransportEncap = Box::into_raw(transport(cfg.tr));
        let t2: *mut dyn SpdmTransportEncap = Box::into_raw(transport(cfg.tr));
        let req = mk_req(io1, t1, cfg.req.config(), cfg.provision(true));
        let mut rsp = mk_rsp(io2, t2, cfg.rsp.config(), cfg.provision(false));
        sh.borrow_mut().rsp = &mut *rsp as *mut _;
        World {
            cfg: cfg.clone(),
            sh,
            req: ManuallyDrop::new(req),
            rsp: ManuallyDrop::new(rsp),
            kes: 0,
            ios: vec![io1, io2],
            trs: vec![t1, t2],
        }
    }
    /// Give both sides another configuration, as if they were configured anew.
    pub fn retune(&mut self, cfg: &Cfg) {
        assert_eq!(self.cfg.tr, cfg.tr);
        toy::with(|t| t.rng = cfg.rng);
        let mut old = self.cfg.clone();
        old.rng = cfg.rng;
        if format!("{:?}", old) != format!("{:?}", cfg) {
            self.req.common.config_info = cfg.req.config();
            self.rsp.common.config_info = cfg.rsp.config();
        }
        // what a device was provisioned with stays when only the rest changes
        let own = |g: &Cfg, req: bool| match req {
            true => (g.req_chain.clone(), g.req_trust.clone()),
            false => (g.rsp_chain.clone(), g.rsp_trust.clone()),
        };
        if own(&old, true) != own(cfg, true) {
            self.req.common.provision_info = cfg.provision(true);
        }
        if own(&old, false) != own(cfg, false) {
            self.rsp.common.provision_info = cfg.provision(false);
        }
        self.cfg = cfg.clone();
        self.kes = 0;
        let mut s = self.sh.borrow_mut();
        s.to_req.clear();
        s.to_rsp.clear();
        s.mitm = None;
        s.peer = None;
    }
    /// Run an operation of the requester.
    pub fn rq<R>(&mut self, f: impl FnOnce(&mut RequesterContext<'static>) -> R) -> R {
        let r = &mut **self.req;
        toy::as_party(Party::Req, || f(r))
    }
    pub fn rs<R>(&mut self, f: impl FnOnce(&mut ResponderContext<'static>) -> R) -> R {
        let r = &mut **self.rsp;
        toy::as_party(Party::Rsp, || f(r))
    }
    pub fn set_mitm(&mut self, m: Option<Mitm>) {
        self.sh.borrow_mut().mitm = m;
    }
    pub fn set_peer(&mut self, p: Option<Peer>) {
        self.sh.borrow_mut().peer = p;
    }
    pub fn log(&self) -> Vec<Frame> {
        self.sh.borrow().log.clone()
    }
    pub fn log_len(&self) -> usize {
        self.sh.borrow().log.len()
    }
    pub fn init(&mut self) -> SpdmResult {
        self.rq(|r| r.init_connection())
    }
    /// Feed one frame to the responder directly; what it sends is returned.
    pub fn feed(&mut self, frame: &[u8]) -> RspRet {
        {
            let mut s = self.sh.borrow_mut();
            s.to_rsp.clear();
            s.to_rsp.push_back(frame.to_vec());
        }
        step_rsp(&self.sh);
        let mut s = self.sh.borrow_mut();
        s.to_req.clear();
        s.to_rsp.clear();
        s.rets.last().unwrap().clone()
    }
    pub fn drain(&mut self) {
        let mut s = self.sh.borrow_mut();
        s.to_req.clear();
        s.to_rsp.clear();
    }
    pub fn req_sessions(&self) -> Vec<(u32, SpdmSessionStateN)> {
        sessions(&self.req.common)
    }
    pub fn rsp_sessions(&self) -> Vec<(u32, SpdmSessionStateN)> {
        sessions(&self.rsp.common)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum SpdmSessionStateN {
    NotStarted,
    Handshaking,
    Established,
    Other,
}
pub fn sessions(c: &SpdmContext) -> Vec<(u32, SpdmSessionStateN)> {
    use spdmlib::common::session::SpdmSessionState as S;
    c.get_session_status()
        .iter()
        .map(|(i, s)| {
            (
                *i,
                match s {
                    S::SpdmSessionNotStarted => SpdmSessionStateN::NotStarted,
                    S::SpdmSessionHandshaking => SpdmSessionStateN::Handshaking,
                    S::SpdmSessionEstablished => SpdmSessionStateN::Established,
                    _ => SpdmSessionStateN::Other,
                },
            )
        })
        .filter(|x| x.0 != 0)
        .collect()
}

impl Drop for World {
    fn drop(&mut self) {
        unsafe {
            self.sh.borrow_mut().rsp = std::ptr::null_mut();
            ManuallyDrop::drop(&mut self.req);
            ManuallyDrop::drop(&mut self.rsp);
            for i in &self.ios {
                drop(Box::from_raw(*i));
            }
            for t in &self.trs {
                drop(Box::from_raw(*t));
            }
            let mut s = self.sh.borrow_mut();
            s.mitm = None;
            s.peer = None;
        }
    }
}

pub const MAX_FRAME: usize = config::RECEIVER_BUFFER_SIZE;
