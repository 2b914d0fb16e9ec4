//! Generated configurations with every optional feature toggled, and valid
//! histories over them.

use crate::audit::Audit;
use crate::engine::*;
use crate::gen::meas_digest_size;
use crate::ops::*;
use crate::toy::{self, MeasBlock};
use crate::wire::Tr;
use crate::world::*;

/// What a configuration allows.
#[derive(Clone, Debug)]
pub struct Feat {
    pub ver: u8,
    pub cert: bool,
    pub chal: bool,
    pub meas: bool,
    pub meas_sig: bool,
    pub kex: bool,
    pub psk: bool,
    pub mutual: bool,
    pub clear: bool,
    pub upd: bool,
    pub hb: bool,
    pub mctp: bool,
    pub sign: bool,
    pub slots: Vec<u8>,
    pub idx: Vec<u8>,
}

pub fn can_sign(ver: u8) -> bool {
    sign_versions().contains(&ver)
}

pub fn feat(g: &Cfg, meas: &[MeasBlock]) -> Feat {
    let (q, s) = (g.req.caps, g.rsp.caps);
    let ver = g
        .req
        .versions
        .iter()
        .filter(|v| g.rsp.versions.contains(v))
        .max()
        .copied()
        .unwrap_or(0);
    let sess = ver >= 0x11;
    let sign = can_sign(ver);
    let enc = q & RQ_MAC != 0 && s & RS_MAC != 0 && q & RQ_ENCRYPT != 0 && s & RS_ENCRYPT != 0;
    Feat {
        ver,
        cert: s & RS_CERT != 0,
        chal: s & RS_CHAL != 0 && sign,
        meas: s & 0x18 != 0,
        meas_sig: s & RS_MEAS_SIG != 0 && sign,
        kex: sess && enc && sign && q & RQ_KEX != 0 && s & RS_KEX != 0,
        psk: sess && enc && q & RQ_PSK != 0 && s & (RS_PSK_CTX | RS_PSK_NOCTX) != 0,
        mutual: q & RQ_MUT != 0 && s & RS_MUT != 0,
        clear: q & RQ_CLEAR != 0 && s & RS_CLEAR != 0,
        upd: q & RQ_UPD != 0 && s & RS_UPD != 0,
        hb: q & RQ_HB != 0 && s & RS_HB != 0,
        mctp: g.tr == Tr::Mctp,
        sign,
        slots: (0..8u8)
            .filter(|i| g.rsp_chain[*i as usize].is_some())
            .collect(),
        idx: meas.iter().map(|m| m.index).collect(),
    }
}

/// Measurement blocks a device with this measurement hash reports.
pub fn gen_meas_for(c: &mut Case, meas_hash: u32) -> Vec<MeasBlock> {
    let mut v = gen_meas(c);
    let n = meas_digest_size(meas_hash);
    for b in v.iter_mut() {
        if meas_hash == 1 || n == 0 {
            b.typ |= 0x80;
        } else if b.typ & 0x80 == 0 {
            let x = b.value[0];
            b.value = crate::gen::fill(n, x);
        }
    }
    let mut room = if unbounded() {
        3500usize
    } else {
        1500
    };
    v.retain(|b| {
        let l = b.value.len() + 7;
        if l > room {
            false
        } else {
            room -= l;
            true
        }
    });
    v
}

/// A working configuration with optional capabilities toggled on either side
/// and several provisioned slots.
pub fn gen_wide(c: &mut Case) -> Cfg {
    let mut g = gen_good(c);
    let mut off = |c: &mut Case, both: (u32, u32)| match c.weighted(&[6, 1, 1, 1]) {
        1 => {
            g.req.caps &= !both.0;
            g.rsp.caps &= !both.1;
        }
        2 => g.req.caps &= !both.0,
        3 => g.rsp.caps &= !both.1,
        _ => {}
    };
    off(c, (RQ_MUT, RS_MUT));
    off(c, (RQ_HB, RS_HB));
    off(c, (RQ_UPD, RS_UPD));
    off(c, (RQ_PSK, RS_PSK_CTX));
    match c.weighted(&[4, 2, 1, 1]) {
        1 => {
            g.req.caps |= RQ_CLEAR;
            g.rsp.caps |= RS_CLEAR;
        }
        2 => g.req.caps |= RQ_CLEAR,
        3 => g.rsp.caps |= RS_CLEAR,
        _ => {}
    }
    if g.rsp.caps & RS_PSK_CTX != 0 && c.chance(1, 3) {
        g.rsp.caps &= !RS_PSK_CTX;
        g.rsp.caps |= RS_PSK_NOCTX;
    }
    if c.chance(1, 6) {
        g.rsp.caps &= !RS_MEAS_SIG;
        g.rsp.caps |= 0x8;
    }
    if c.chance(1, 4) {
        g.rsp.caps &= !0x20;
    }
    if g.req.caps & RQ_HB != 0 && g.rsp.caps & RS_HB != 0 {
        g.rsp.heartbeat = c.pick(&[0u8, 1, 30, 255]);
    }
    g.rsp.change = c.chance(1, 5);
    if c.chance(1, 4) {
        // both have 1.0 or 1.1 in common
        let v = c.pick(&[[0x10, 0], [0x11, 0], [0, 0x10], [0x11, 0x10]]);
        g.req.secver = v;
        g.rsp.secver = v;
    }
    g.rsp.policy = c.pick(&[0u8, 1]);
    if c.chance(1, 3) {
        for _ in 0..c.range(1, 4) {
            let s = c.range(1, 7);
            let n = c.range(1, 3);
            let len = c.range(n * toy::CERT_MIN, 900);
            let seed = c.below(1 << 16) + 1;
            // every slot is rooted where the requester's trust is
            g.rsp_chain[s] = if g.req_trust.is_some() {
                g.rsp_chain[0].clone()
            } else {
                Some(toy::make_chain(RSP_ROOT + s as u64, 0xA1, n, len, seed))
            };
        }
    }
    g
}

/// One operation a configuration supports; session operations only when
/// `sessions` says one is open.
pub fn gen_op(c: &mut Case, f: &Feat, open: usize) -> Act {
    let s = |c: &mut Case| {
        if open > 0 && c.bool() {
            Some(c.usize(open))
        } else {
            None
        }
    };
    let room = open < 4;
    let w = [
        if f.cert { 2 } else { 0 },
        if f.cert { 2 } else { 0 },
        if f.chal && f.cert { 2 } else { 0 },
        if f.meas { 4 } else { 0 },
        if f.kex && room { 4 } else { 0 },
        if f.psk && room { 4 } else { 0 },
        if f.hb && open > 0 { 2 } else { 0 },
        if f.upd && open > 0 { 4 } else { 0 },
        if open > 0 { 2 } else { 0 },
        2,
        if f.mctp && open > 0 { 4 } else { 0 },
    ];
    let slot = c.pick(&f.slots);
    let sum = |c: &mut Case| if f.meas { c.pick(&[0u8, 1, 0xff]) } else { 0 };
    match c.weighted(&w) {
        0 => Act::Digest(s(c)),
        1 => Act::Cert(s(c), slot),
        2 => Act::Challenge(slot, sum(c)),
        3 => {
            let sig = f.meas_sig && c.bool();
            Act::Meas(s(c), slot, sig, gen_meas_op(c, &f.idx))
        }
        4 => Act::Ke(slot, sum(c)),
        5 => {
            let n = c.range(0, 32);
            Act::Psk(sum(c), c.blob(n))
        }
        6 => Act::Heartbeat(c.usize(open)),
        7 => Act::Update(c.usize(open), c.range(1, 2) as u8),
        8 => Act::End(c.usize(open)),
        9 => {
            let n = c.len_biased(200);
            let id = c.below(9) as u16;
            let k = c.range(0, 4);
            Act::Vendor(s(c), id, c.blob(k), c.blob(n))
        }
        _ => {
            let n = c.len_biased(400).max(1);
            Act::App(c.usize(open), c.blob(n))
        }
    }
}

pub struct Flow {
    pub g: Cfg,
    pub f: Feat,
    pub w: World,
    pub a: Audit,
    pub hist: Vec<Act>,
}

impl Flow {
    pub fn new(c: &mut Case, g: Cfg) -> Flow {
        let meas = gen_meas_for(c, g.rsp.meas_hash);
        let f = feat(&g, &meas);
        toy::with(|t| t.meas = meas);
        let w = World::new(&g);
        let a = Audit::new(&g);
        Flow {
            g,
            f,
            w,
            a,
            hist: vec![],
        }
    }
    pub fn ctx(&self) -> String {
        let meas: Vec<(u8, u8, usize)> = toy::with(|t| {
            t.meas
                .iter()
                .map(|m| (m.index, m.typ, m.value.len()))
                .collect()
        });
        let last = self
            .a
            .msgs
            .last()
            .map(|m| hex(&m.bytes[..m.bytes.len().min(16)]));
        format!(
            "{:?} {} meas {:?} last {:?} {}",
            self.hist,
            self.a.dump(),
            meas,
            last,
            cfg_str(&self.g)
        )
    }
    /// Connect and fetch the certificate chains of every slot.
    pub fn connect(&mut self) -> CaseResult {
        let r = self.w.init();
        ensure!(
            r.is_ok(),
            "honest connection fails",
            "{:?} {}",
            r,
            self.ctx()
        );
        if self.f.cert {
            for s in self.f.slots.clone() {
                let r = self.fresh_b().and_then(|_| self.w.cert(None, s));
                ensure!(
                    r.is_ok(),
                    "honest certificate retrieval fails",
                    "{:?} {}",
                    r,
                    self.ctx()
                );
            }
        }
        self.a.catch_up(&self.w);
        Ok(())
    }
    /// Unhashed builds keep the certificate transcript in a buffer for one
    /// retrieval: GET_DIGESTS starts it anew.
    pub fn fresh_b(&mut self) -> spdmlib::error::SpdmResult {
        if unbounded() {
            Ok(())
        } else {
            self.w.digest(None)
        }
    }
    /// Whether the transcripts have room for an operation.
    pub fn fits(&mut self, act: &Act) -> bool {
        if let (false, Act::Meas(..)) = (unbounded(), act) {
            // unhashed builds keep the measurements' transcript in a buffer
            // with room for one full record
            self.a.catch_up(&self.w);
            let next: usize = toy::with(|t| t.meas.iter().map(|b| b.value.len() + 7).sum());
            let size = |m: &Vec<Vec<u8>>| m.iter().map(|x| x.len()).sum::<usize>();
            let most = self
                .a
                .sess
                .iter()
                .map(|s| size(&s.m))
                .max()
                .unwrap_or(0)
                .max(size(&self.a.m));
            if most + next + 150 > 5615 {
                return false;
            }
        }
        true
    }
    /// An operation, whatever comes of it.
    pub fn attempt(&mut self, act: &Act) -> Option<spdmlib::error::SpdmResult<Out>> {
        self.hist.push(act.clone());
        if let Act::Cert(None, _) = act {
            let _ = self.fresh_b();
        }
        let r = self.w.act(act);
        self.a.catch_up(&self.w);
        r
    }
    /// An operation that must succeed.
    pub fn must(&mut self, act: Act) -> Result<Out, Failure> {
        if !self.fits(&act) {
            return Ok(Out::None);
        }
        let r = self.attempt(&act);
        match r {
            Some(Ok(o)) => Ok(o),
            Some(Err(e)) => {
                let n = format!("{:?}", act);
                fail(
                    format!("honest {} fails", n.split('(').next().unwrap()),
                    format!("{:?}: {}", e, self.ctx()),
                )
            }
            None => Ok(Out::None),
        }
    }
    pub fn clean(&self, kinds: &[&str]) -> CaseResult {
        let i = if kinds.is_empty() {
            self.a.issues.first()
        } else {
            self.a.issues_of(kinds)
        };
        match i {
            None => Ok(()),
            Some(i) => fail(
                format!("observer: {}", i.kind),
                format!("{} {}", i.text, self.ctx()),
            ),
        }
    }
    /// Both sides hold the same live sessions.
    pub fn same_sessions(&self) -> CaseResult {
        let mut q = self.w.req_sessions();
        let mut s = self.w.rsp_sessions();
        q.sort();
        s.sort();
        ensure!(
            q == s,
            "session tables differ",
            "{:x?} {:x?} {}",
            q,
            s,
            self.ctx()
        );
        Ok(())
    }
    pub fn open(&self) -> usize {
        self.w.open_sessions().len()
    }
    /// `n` valid operations, each of which must succeed.
    pub fn history(&mut self, c: &mut Case, n: usize) -> CaseResult {
        for _ in 0..n {
            let o = self.open();
            let act = gen_op(c, &self.f, o);
            self.must(act)?;
        }
        Ok(())
    }
}

pub fn cfg_str(g: &Cfg) -> String {
    let l = |c: &[Option<Vec<u8>>; 8]| -> Vec<usize> {
        c.iter()
            .map(|x| x.as_ref().map(|v| v.len()).unwrap_or(0))
            .collect()
    };
    format!(
        "{:?} req {:x?} rsp {:x?} chains {:?} {:?} trust {} {} rng {}",
        g.tr,
        g.req,
        g.rsp,
        l(&g.rsp_chain),
        l(&g.req_chain),
        g.req_trust.is_some(),
        g.rsp_trust.is_some(),
        g.rng
    )
}
