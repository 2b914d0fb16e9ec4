//! Independent description of the SPDM 1.0/1.1/1.2 wire format, the secured
//! message header and the two transport framings.  Nothing here calls into
//! the code under test.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    pub name: &'static str,
    pub off: usize,
    pub len: usize,
}

/// What a parser must know from the negotiation.
#[derive(Clone, Debug, Default)]
pub struct Px {
    pub ver: u8,
    pub hlen: usize,
    pub siglen: usize,
    pub req_siglen: usize,
    pub dhe: usize,
    pub summary: bool,
    pub sig_req: bool,
    pub clear: bool,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub ver: u8,
    pub code: u8,
    pub p1: u8,
    pub p2: u8,
    pub f: Vec<Field>,
    pub used: usize,
}

impl Parsed {
    pub fn find(&self, n: &str) -> Option<&Field> {
        self.f.iter().find(|f| f.name == n)
    }
    pub fn get<'a>(&self, b: &'a [u8], n: &str) -> &'a [u8] {
        match self.find(n) {
            Some(f) => &b[f.off..f.off + f.len],
            None => &[],
        }
    }
    pub fn num(&self, b: &[u8], n: &str) -> u64 {
        let mut v = 0u64;
        for (i, x) in self.get(b, n).iter().enumerate().take(8) {
            v |= (*x as u64) << (8 * i);
        }
        v
    }
    pub fn off(&self, n: &str) -> usize {
        self.find(n).map(|f| f.off).unwrap_or(0)
    }
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    f: Vec<Field>,
}
impl<'a> Cur<'a> {
    fn take(&mut self, name: &'static str, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() - self.p < n {
            return Err(format!(
                "field {} wants {} bytes, {} left",
                name,
                n,
                self.b.len() - self.p
            ));
        }
        let s = &self.b[self.p..self.p + n];
        if n > 0 {
            self.f.push(Field {
                name,
                off: self.p,
                len: n,
            });
        }
        self.p += n;
        Ok(s)
    }
    fn u16(&mut self, name: &'static str) -> Result<usize, String> {
        let s = self.take(name, 2)?;
        Ok(s[0] as usize | (s[1] as usize) << 8)
    }
    fn u24(&mut self, name: &'static str) -> Result<usize, String> {
        let s = self.take(name, 3)?;
        Ok(s[0] as usize | (s[1] as usize) << 8 | (s[2] as usize) << 16)
    }
}

pub mod code {
    pub const DIGESTS: u8 = 0x01;
    pub const CERTIFICATE: u8 = 0x02;
    pub const CHALLENGE_AUTH: u8 = 0x03;
    pub const VERSION: u8 = 0x04;
    pub const MEASUREMENTS: u8 = 0x60;
    pub const CAPABILITIES: u8 = 0x61;
    pub const ALGORITHMS: u8 = 0x63;
    pub const KEY_EXCHANGE_RSP: u8 = 0x64;
    pub const FINISH_RSP: u8 = 0x65;
    pub const PSK_EXCHANGE_RSP: u8 = 0x66;
    pub const PSK_FINISH_RSP: u8 = 0x67;
    pub const HEARTBEAT_ACK: u8 = 0x68;
    pub const KEY_UPDATE_ACK: u8 = 0x69;
    pub const ENCAP_REQUEST: u8 = 0x6A;
    pub const ENCAP_RESPONSE_ACK: u8 = 0x6B;
    pub const END_SESSION_ACK: u8 = 0x6C;
    pub const VENDOR_RSP: u8 = 0x7E;
    pub const ERROR: u8 = 0x7F;
    pub const GET_DIGESTS: u8 = 0x81;
    pub const GET_CERTIFICATE: u8 = 0x82;
    pub const CHALLENGE: u8 = 0x83;
    pub const GET_VERSION: u8 = 0x84;
    pub const GET_MEASUREMENTS: u8 = 0xE0;
    pub const GET_CAPABILITIES: u8 = 0xE1;
    pub const NEGOTIATE_ALGORITHMS: u8 = 0xE3;
    pub const KEY_EXCHANGE: u8 = 0xE4;
    pub const FINISH: u8 = 0xE5;
    pub const PSK_EXCHANGE: u8 = 0xE6;
    pub const PSK_FINISH: u8 = 0xE7;
    pub const HEARTBEAT: u8 = 0xE8;
    pub const KEY_UPDATE: u8 = 0xE9;
    pub const GET_ENCAP: u8 = 0xEA;
    pub const DELIVER_ENCAP: u8 = 0xEB;
    pub const END_SESSION: u8 = 0xEC;
    pub const VENDOR_REQ: u8 = 0xFE;
    pub const RESPOND_IF_READY: u8 = 0xFF;
    pub const ALL_REQ: [u8; 18] = [
        0x84, 0xE1, 0xE3, 0x81, 0x82, 0x83, 0xE0, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xEB,
        0xEC, 0xFE, 0xFF,
    ];
    pub const ALL_RSP: [u8; 18] = [
        0x04, 0x61, 0x63, 0x01, 0x02, 0x03, 0x60, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x6B,
        0x6C, 0x7E, 0x7F,
    ];
}

fn algs(c: &mut Cur, n: usize) -> Result<(), String> {
    for _ in 0..n {
        c.take("alg_type", 1)?;
        let cnt = c.take("alg_count", 1)?[0];
        if cnt != 0x20 {
            return Err(format!("alg_count {:x}", cnt));
        }
        c.take("alg_sel", 2)?;
    }
    Ok(())
}

/// Parse one complete message by the specification's layout.
pub fn parse(b: &[u8], x: &Px) -> Result<Parsed, String> {
    let mut c = Cur { b, p: 0, f: vec![] };
    let ver = c.take("version", 1)?[0];
    let cd = c.take("code", 1)?[0];
    let p1 = c.take("p1", 1)?[0];
    let p2 = c.take("p2", 1)?[0];
    use code::*;
    match cd {
        GET_VERSION | GET_DIGESTS | HEARTBEAT | HEARTBEAT_ACK | END_SESSION | END_SESSION_ACK
        | KEY_UPDATE | KEY_UPDATE_ACK | PSK_FINISH_RSP | GET_ENCAP | RESPOND_IF_READY => {}
        VERSION => {
            c.take("resv", 1)?;
            let n = c.take("version_count", 1)?[0] as usize;
            for _ in 0..n {
                c.take("version_entry", 2)?;
            }
        }
        GET_CAPABILITIES => {
            if ver >= 0x11 {
                c.take("resv", 1)?;
                c.take("ct_exponent", 1)?;
                c.take("resv2", 2)?;
                c.take("flags", 4)?;
            }
            if ver >= 0x12 {
                c.take("data_transfer_size", 4)?;
                c.take("max_spdm_msg_size", 4)?;
            }
        }
        CAPABILITIES => {
            c.take("resv", 1)?;
            c.take("ct_exponent", 1)?;
            c.take("resv2", 2)?;
            c.take("flags", 4)?;
            if ver >= 0x12 {
                c.take("data_transfer_size", 4)?;
                c.take("max_spdm_msg_size", 4)?;
            }
        }
        NEGOTIATE_ALGORITHMS => {
            let l = c.u16("length")?;
            c.take("meas_spec", 1)?;
            c.take("other_params", 1)?;
            c.take("base_asym", 4)?;
            c.take("base_hash", 4)?;
            c.take("resv", 12)?;
            let a = c.take("ext_asym_count", 1)?[0] as usize;
            let h = c.take("ext_hash_count", 1)?[0] as usize;
            c.take("resv2", 2)?;
            c.take("ext_asym", 4 * a)?;
            c.take("ext_hash", 4 * h)?;
            algs(&mut c, if ver >= 0x11 { p1 as usize } else { 0 })?;
            if l != c.p {
                return Err(format!("length field {} but {} bytes", l, c.p));
            }
        }
        ALGORITHMS => {
            let l = c.u16("length")?;
            c.take("meas_spec_sel", 1)?;
            c.take("other_params", 1)?;
            c.take("meas_hash", 4)?;
            c.take("base_asym", 4)?;
            c.take("base_hash", 4)?;
            c.take("resv", 12)?;
            let a = c.take("ext_asym_count", 1)?[0] as usize;
            let h = c.take("ext_hash_count", 1)?[0] as usize;
            c.take("resv2", 2)?;
            c.take("ext_asym", 4 * a)?;
            c.take("ext_hash", 4 * h)?;
            algs(&mut c, if ver >= 0x11 { p1 as usize } else { 0 })?;
            if l != c.p {
                return Err(format!("length field {} but {} bytes", l, c.p));
            }
        }
        DIGESTS => {
            let n = (p2.count_ones()) as usize;
            for _ in 0..n {
                c.take("digest", x.hlen)?;
            }
        }
        GET_CERTIFICATE => {
            c.u16("offset")?;
            c.u16("length")?;
        }
        CERTIFICATE => {
            let n = c.u16("portion_len")?;
            c.u16("remainder")?;
            c.take("cert", n)?;
        }
        CHALLENGE => {
            c.take("nonce", 32)?;
        }
        CHALLENGE_AUTH => {
            c.take("cert_hash", x.hlen)?;
            c.take("nonce", 32)?;
            if x.summary {
                c.take("summary", x.hlen)?;
            }
            let n = c.u16("opaque_len")?;
            c.take("opaque", n)?;
            c.take("signature", x.siglen)?;
        }
        GET_MEASUREMENTS => {
            if p1 & 1 != 0 {
                c.take("nonce", 32)?;
                if ver >= 0x11 {
                    c.take("slot", 1)?;
                }
            }
        }
        MEASUREMENTS => {
            c.take("blocks", 1)?;
            let n = c.u24("record_len")?;
            c.take("record", n)?;
            c.take("nonce", 32)?;
            let n = c.u16("opaque_len")?;
            c.take("opaque", n)?;
            if x.sig_req {
                c.take("signature", x.siglen)?;
            }
        }
        KEY_EXCHANGE => {
            c.take("req_session_id", 2)?;
            if ver >= 0x12 {
                c.take("policy", 1)?;
                c.take("resv", 1)?;
            } else {
                c.take("resv", 2)?;
            }
            c.take("random", 32)?;
            c.take("exchange", x.dhe)?;
            let n = c.u16("opaque_len")?;
            c.take("opaque", n)?;
        }
        KEY_EXCHANGE_RSP => {
            c.take("rsp_session_id", 2)?;
            c.take("mut_auth", 1)?;
            c.take("req_slot", 1)?;
            c.take("random", 32)?;
            c.take("exchange", x.dhe)?;
            if x.summary {
                c.take("summary", x.hlen)?;
            }
            let n = c.u16("opaque_len")?;
            c.take("opaque", n)?;
            c.take("signature", x.siglen)?;
            if !x.clear {
                c.take("hmac", x.hlen)?;
            }
        }
        FINISH => {
            if p1 & 1 != 0 {
                c.take("signature", x.req_siglen)?;
            }
            c.take("hmac", x.hlen)?;
        }
        FINISH_RSP => {
            if x.clear {
                c.take("hmac", x.hlen)?;
            }
        }
        PSK_EXCHANGE => {
            c.take("req_session_id", 2)?;
            let h = c.u16("hint_len")?;
            let k = c.u16("context_len")?;
            let o = c.u16("opaque_len")?;
            c.take("hint", h)?;
            c.take("context", k)?;
            c.take("opaque", o)?;
        }
        PSK_EXCHANGE_RSP => {
            c.take("rsp_session_id", 2)?;
            c.take("resv", 2)?;
            let k = c.u16("context_len")?;
            let o = c.u16("opaque_len")?;
            if x.summary {
                c.take("summary", x.hlen)?;
            }
            c.take("context", k)?;
            c.take("opaque", o)?;
            c.take("hmac", x.hlen)?;
        }
        PSK_FINISH => {
            c.take("hmac", x.hlen)?;
        }
        ENCAP_REQUEST | DELIVER_ENCAP => {
            let n = b.len() - c.p;
            c.take("payload", n)?;
        }
        ENCAP_RESPONSE_ACK => {
            if ver >= 0x12 {
                c.take("ack_id", 1)?;
                c.take("resv", 3)?;
            }
            let n = b.len() - c.p;
            c.take("payload", n)?;
        }
        VENDOR_REQ | VENDOR_RSP => {
            c.u16("standard_id")?;
            let n = c.take("vendor_len", 1)?[0] as usize;
            c.take("vendor_id", n)?;
            let n = c.u16("payload_len")?;
            c.take("payload", n)?;
        }
        ERROR => {
            let n = match p1 {
                0x42 => 4,
                0xff => b.len() - c.p,
                _ => 0,
            };
            c.take("ext", n)?;
        }
        _ => return Err(format!("unknown code {:02x}", cd)),
    }
    Ok(Parsed {
        ver,
        code: cd,
        p1,
        p2,
        used: c.p,
        f: c.f,
    })
}

/// parse and require that nothing is left over
pub fn parse_all(b: &[u8], x: &Px) -> Result<Parsed, String> {
    let p = parse(b, x)?;
    if p.used != b.len() {
        return Err(format!(
            "code {:02x}: {} stray bytes",
            p.code,
            b.len() - p.used
        ));
    }
    Ok(p)
}

/// Success response code of a request.
pub fn answer_of(req: u8) -> u8 {
    req & 0x7f
}

// ---- framing ------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tr {
    Mctp,
    Doe,
}

pub fn frame(t: Tr, secured: bool, m: &[u8]) -> Vec<u8> {
    match t {
        Tr::Mctp => {
            let mut v = vec![if secured { 6 } else { 5 }];
            v.extend_from_slice(m);
            v
        }
        Tr::Doe => {
            let body = (m.len() + 3) / 4 * 4;
            let dw = (body + 8) / 4;
            let mut v = vec![1, 0, if secured { 2 } else { 1 }, 0];
            v.extend_from_slice(&(dw as u32).to_le_bytes());
            v.extend_from_slice(m);
            v.resize(8 + body, 0);
            v
        }
    }
}

/// (secured, payload); DOE payload keeps its padding.
pub fn unframe(t: Tr, f: &[u8]) -> Option<(bool, &[u8])> {
    match t {
        Tr::Mctp => match f.first() {
            Some(5) => Some((false, &f[1..])),
            Some(6) => Some((true, &f[1..])),
            _ => None,
        },
        Tr::Doe => {
            if f.len() < 8 || f[0] != 1 || f[1] != 0 || f[3] != 0 {
                return None;
            }
            let dw = u32::from_le_bytes([f[4], f[5], f[6], f[7]]) as usize;
            let dw = if dw == 0 { 0x40000 } else { dw };
            if dw < 2 || dw * 4 > f.len() {
                return None;
            }
            match f[2] {
                1 => Some((false, &f[8..dw * 4])),
                2 => Some((true, &f[8..dw * 4])),
                _ => None,
            }
        }
    }
}

/// Number of sequence-number bytes in a secured record.
pub fn seq_bytes(t: Tr) -> usize {
    match t {
        Tr::Mctp => 2,
        Tr::Doe => 0,
    }
}

/// Inner application framing: MCTP prepends the message type.
pub fn app_wrap(t: Tr, app: bool, m: &[u8]) -> Vec<u8> {
    match t {
        Tr::Mctp => {
            let mut v = vec![if app { 1 } else { 5 }];
            v.extend_from_slice(m);
            v
        }
        Tr::Doe => m.to_vec(),
    }
}
pub fn app_unwrap(t: Tr, m: &[u8]) -> Option<(bool, Vec<u8>)> {
    match t {
        Tr::Mctp => match m.first() {
            Some(1) => Some((true, m[1..].to_vec())),
            Some(5) => Some((false, m[1..].to_vec())),
            _ => None,
        },
        Tr::Doe => Some((false, m.to_vec())),
    }
}

/// Seal one secured record.
pub fn seal_record(
    t: Tr,
    aead: u16,
    key: &[u8],
    iv: &[u8],
    sid: u32,
    seq: u64,
    inner: &[u8],
) -> Vec<u8> {
    seal_record_ex(t, aead, key, iv, sid, seq, inner, inner.len() as u16)
}
pub fn seal_record_ex(
    t: Tr,
    aead: u16,
    key: &[u8],
    iv: &[u8],
    sid: u32,
    seq: u64,
    inner: &[u8],
    declared: u16,
) -> Vec<u8> {
    let mut h = sid.to_le_bytes().to_vec();
    h.extend_from_slice(&seq.to_le_bytes()[..seq_bytes(t)]);
    let mut pt = declared.to_le_bytes().to_vec();
    pt.extend_from_slice(inner);
    h.extend_from_slice(&((pt.len() + 16) as u16).to_le_bytes());
    let mut n = iv.to_vec();
    for i in 0..8 {
        n[i] ^= (seq >> (8 * i)) as u8;
    }
    let (ct, tag) = crate::toy::seal(aead, key, &n, &h, &pt);
    h.extend_from_slice(&ct);
    h.extend_from_slice(&tag);
    h
}
/// Open one secured record (which may carry transport padding behind it).
pub fn open_record(
    t: Tr,
    aead: u16,
    key: &[u8],
    iv: &[u8],
    sid: u32,
    seq: u64,
    r: &[u8],
) -> Result<Vec<u8>, String> {
    let hl = 4 + seq_bytes(t) + 2;
    if r.len() < hl + 18 {
        return Err("record too short".into());
    }
    if r[..4] != sid.to_le_bytes() {
        return Err("session id".into());
    }
    if r[4..4 + seq_bytes(t)] != seq.to_le_bytes()[..seq_bytes(t)] {
        return Err(format!("sequence bytes, expected {}", seq));
    }
    let l = r[hl - 2] as usize | (r[hl - 1] as usize) << 8;
    if l < 18 || hl + l > r.len() || r.len() - hl - l > 3 {
        return Err(format!("length field {} of {}", l, r.len() - hl));
    }
    let mut n = iv.to_vec();
    for i in 0..8 {
        n[i] ^= (seq >> (8 * i)) as u8;
    }
    let pt = crate::toy::open(
        aead,
        key,
        &n,
        &r[..hl],
        &r[hl..hl + l - 16],
        &r[hl + l - 16..hl + l],
    )
    .ok_or("AEAD open failed with the specification's key, nonce and header")?;
    let a = pt[0] as usize | (pt[1] as usize) << 8;
    if a + 2 > pt.len() {
        return Err("app length".into());
    }
    Ok(pt[2..2 + a].to_vec())
}
pub fn record_sid(r: &[u8]) -> Option<u32> {
    if r.len() < 4 {
        None
    } else {
        Some(u32::from_le_bytes([r[0], r[1], r[2], r[3]]))
    }
}
