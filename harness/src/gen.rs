//! Independent generator of valid SPDM wire messages.

use crate::engine::Case;
use crate::toy;
use crate::wire::{code::*, Px};

#[derive(Clone, Debug)]
pub struct Env {
    pub ver: u8,
    pub hash: u32,
    pub asym: u32,
    pub req_asym: u32,
    pub dhe: u16,
    pub meas_hash: u32,
    pub summary: bool,
    pub sig: bool,
    pub clear: bool,
    pub psk_noctx: bool,
    pub caps: bool,
    /// fill reserved fields with noise
    pub noise: bool,
    /// set bits outside the defined ones in capability and algorithm words
    pub unknown: bool,
}

impl Env {
    pub fn gen(c: &mut Case) -> Env {
        Env {
            ver: c.pick(&[0x12u8, 0x11, 0x10]),
            hash: c.pick(&[2u32, 1, 4]),
            asym: c.pick(&[0x80u32, 0x10, 1, 2, 4, 8, 0x20, 0x40]),
            req_asym: c.pick(&[0x80u32, 0x10, 1, 2, 4, 8, 0x20, 0x40]),
            dhe: c.pick(&[0x10u16, 8]),
            meas_hash: c.pick(&[4u32, 2, 8, 1]),
            summary: c.bool(),
            sig: c.bool(),
            clear: c.bool(),
            psk_noctx: c.bool(),
            caps: !c.chance(1, 3),
            noise: c.bool(),
            unknown: c.chance(1, 3),
        }
    }
    pub fn hlen(&self) -> usize {
        match self.hash {
            1 => 32,
            2 => 48,
            _ => 64,
        }
    }
    pub fn px(&self) -> Px {
        Px {
            ver: self.ver,
            hlen: self.hlen(),
            siglen: toy::sig_size(self.asym).unwrap(),
            req_siglen: toy::sig_size(self.req_asym).unwrap(),
            dhe: toy::dhe_size(self.dhe).unwrap(),
            summary: self.summary,
            sig_req: self.sig,
            clear: self.clear,
        }
    }
}

/// Which of the two parameter bytes the specification leaves reserved.
pub fn resv_params(code: u8) -> (bool, bool) {
    match code {
        GET_VERSION | VERSION | GET_CAPABILITIES | CAPABILITIES | GET_DIGESTS | FINISH_RSP
        | PSK_FINISH | PSK_FINISH_RSP | HEARTBEAT | HEARTBEAT_ACK | END_SESSION_ACK
        | VENDOR_REQ | VENDOR_RSP | GET_ENCAP => (true, true),
        DIGESTS => (true, false),
        NEGOTIATE_ALGORITHMS | ALGORITHMS | GET_CERTIFICATE | CERTIFICATE | KEY_EXCHANGE_RSP
        | PSK_EXCHANGE | PSK_EXCHANGE_RSP | END_SESSION | ENCAP_REQUEST | DELIVER_ENCAP => {
            (false, true)
        }
        _ => (false, false),
    }
}

pub const REQ_FLAGS: u32 = 0x3_ffc6;
pub const RSP_FLAGS: u32 = 0x3f_ffff;

/// One DMTF measurement block.
pub fn block(index: u8, typ: u8, v: &[u8]) -> Vec<u8> {
    let mut o = vec![index, 1];
    o.extend_from_slice(&((v.len() + 3) as u16).to_le_bytes());
    o.push(typ);
    o.extend_from_slice(&(v.len() as u16).to_le_bytes());
    o.extend_from_slice(v);
    o
}

pub fn meas_digest_size(m: u32) -> usize {
    match m {
        2 => 32,
        4 => 48,
        8 => 64,
        _ => 0,
    }
}

pub fn opaque(c: &mut Case) -> Vec<u8> {
    let n = match c.weighted(&[3, 3, 1]) {
        0 => 0,
        1 => c.len_biased(64),
        _ => c.len_biased(1024),
    };
    c.blob(n)
}

/// A complete valid message with the given code.
pub fn message(c: &mut Case, code: u8, e: &Env) -> Vec<u8> {
    let x = e.px();
    let noise = e.noise;
    let rz = |c: &mut Case, n: usize| if noise { c.vec(n) } else { vec![0; n] };
    let ver = match code {
        GET_VERSION | VERSION => 0x10,
        _ => e.ver,
    };
    let (r1, r2) = resv_params(code);
    let mut p1 = if r1 && noise { c.byte() } else { 0 };
    let mut p2 = if r2 && noise { c.byte() } else { 0 };
    let mut o: Vec<u8> = vec![];
    let u16b = |o: &mut Vec<u8>, v: usize| o.extend_from_slice(&(v as u16).to_le_bytes());
    match code {
        VERSION => {
            let n = c.range(1, 3);
            o.extend(rz(c, 1));
            o.push(n as u8);
            for _ in 0..n {
                o.push(c.byte());
                o.push(c.pick(&[0x12u8, 0x11, 0x10, 0x13, 0xff, 0]));
            }
        }
        GET_CAPABILITIES | CAPABILITIES => {
            let req = code == GET_CAPABILITIES;
            if !req || e.ver >= 0x11 {
                o.extend(rz(c, 1));
                o.push(c.byte());
                o.extend(rz(c, 2));
                let mut f: u32 = if req {
                    c.pick(&[
                        crate::world::REQ_CAPS_ALL,
                        0,
                        0x06,
                        0x206 | 0x80,
                        0x480,
                        0xC0 | 0x200 | 2,
                        0x7fc6 & !0x800,
                    ])
                } else {
                    c.pick(&[
                        crate::world::RSP_CAPS_ALL,
                        6,
                        0x16,
                        0x36,
                        0x2e | 0x280,
                        0x80 | 0x806,
                    ])
                };
                if !req && e.ver == 0x10 {
                    f &= 0x3f;
                }
                if e.unknown {
                    f |= 0xff00_0000 & ((c.byte() as u32) << 24);
                }
                o.extend_from_slice(&f.to_le_bytes());
            }
            if e.ver >= 0x12 {
                let d = match c.below(3) {
                    0 => 4096,
                    1 => c.range(42, 5000),
                    _ => 42 + c.below(0xffff_0000) as usize,
                } as u32;
                let m = d + c.below((u32::MAX - d) as u64 + 1) as u32;
                o.extend_from_slice(&d.to_le_bytes());
                o.extend_from_slice(&m.to_le_bytes());
            }
        }
        NEGOTIATE_ALGORITHMS | ALGORITHMS => {
            let req = code == NEGOTIATE_ALGORITHMS;
            let types: Vec<u8> = if e.ver < 0x11 {
                vec![]
            } else if req || !e.caps {
                (2u8..6).filter(|_| !c.chance(1, 4)).collect()
            } else {
                vec![2, 3, 4, 5]
            };
            if e.ver >= 0x11 {
                p1 = types.len() as u8;
            } else if noise {
                // param1 is reserved in 1.0 requests but counts structures later
                p1 = 0;
            }
            let len = if req { 32 } else { 36 } + 4 * types.len();
            u16b(&mut o, len);
            o.push(c.pick(&[1u8, 1, 0]) | if !req && e.caps { 1 } else { 0 });
            if e.ver >= 0x12 {
                o.push(if req { c.pick(&[2u8, 0, 3]) } else { 2 });
            } else {
                o.extend(rz(c, 1));
            }
            if !req {
                o.extend_from_slice(&c.pick(&[1u32, 2, 4, 8]).to_le_bytes());
            }
            let unk = e.unknown;
            let word = |c: &mut Case, valid: u32| -> u32 {
                if req {
                    let v = c.below(valid as u64 + 1) as u32 & valid;
                    v | if unk { (c.byte() as u32) << 20 } else { 0 }
                } else {
                    let bits: Vec<u32> = (0..16)
                        .map(|i| 1u32 << i)
                        .filter(|b| b & valid != 0)
                        .collect();
                    c.pick(&bits)
                }
            };
            let a = word(c, 0xff);
            let h = word(c, 7);
            o.extend_from_slice(&a.to_le_bytes());
            o.extend_from_slice(&h.to_le_bytes());
            o.extend(rz(c, 12));
            o.extend_from_slice(&[0, 0]);
            o.extend(rz(c, 2));
            for t in types {
                let valid = match t {
                    2 => 0x18,
                    3 => 7,
                    4 => 0xff,
                    _ => 1,
                };
                let mut v = word(c, valid) as u16;
                if req && unk {
                    v |= c.pick(&[0u16, 0x8000, 0x4000]);
                }
                o.push(t);
                o.push(0x20);
                o.extend_from_slice(&v.to_le_bytes());
            }
        }
        DIGESTS => {
            p2 = c.byte();
            for _ in 0..p2.count_ones() {
                o.extend(c.blob(x.hlen));
            }
        }
        GET_CERTIFICATE => {
            p1 = c.byte();
            o.extend(c.vec(4));
        }
        CERTIFICATE => {
            p1 = c.byte();
            let n = c.len_biased(512);
            u16b(&mut o, n);
            o.extend(c.vec(2));
            o.extend(c.blob(n));
        }
        CHALLENGE => {
            p1 = c.byte();
            p2 = if e.caps { c.pick(&[0u8, 1, 0xff]) } else { 0 };
            o.extend(c.blob(32));
        }
        CHALLENGE_AUTH => {
            p1 = c.byte() & 0x8f;
            p2 = c.byte();
            o.extend(c.blob(x.hlen));
            o.extend(c.blob(32));
            if x.summary {
                o.extend(c.blob(x.hlen));
            }
            let q = opaque(c);
            u16b(&mut o, q.len());
            o.extend(q);
            o.extend(c.blob(x.siglen));
        }
        GET_MEASUREMENTS => {
            p1 = c.below(4) as u8;
            p2 = c.byte();
            if p1 & 1 != 0 {
                o.extend(c.blob(32));
                if e.ver >= 0x11 {
                    o.push(c.byte());
                }
            }
        }
        MEASUREMENTS => {
            p1 = c.pick(&[0u8, 0, 2, 3, 254]);
            p2 = 0;
            if x.sig_req && e.ver >= 0x11 {
                p2 = c.below(16) as u8;
                if e.ver >= 0x12 {
                    p2 |= c.pick(&[0u8, 0x10, 0x20, 0x30]);
                }
            }
            let mut n = 0u8;
            let mut rec = vec![];
            let mut idx = 0u8;
            for _ in 0..c.range(0, 5) {
                idx += c.range(1, 20) as u8;
                let ds = meas_digest_size(e.meas_hash);
                let raw = ds == 0 || c.bool();
                let typ = if raw {
                    0x80 | c.below(8) as u8
                } else {
                    c.below(5) as u8
                };
                let l = if raw { c.len_biased(120) } else { ds };
                rec.extend(block(idx, typ, &c.blob(l)));
                n += 1;
            }
            o.push(n);
            o.extend_from_slice(&(rec.len() as u32).to_le_bytes()[..3]);
            o.extend(rec);
            o.extend(c.blob(32));
            let q = opaque(c);
            u16b(&mut o, q.len());
            o.extend(q);
            if x.sig_req {
                o.extend(c.blob(x.siglen));
            }
        }
        KEY_EXCHANGE => {
            p1 = if e.caps { c.pick(&[0u8, 1, 0xff]) } else { 0 };
            p2 = c.byte();
            o.extend(c.vec(2));
            if e.ver >= 0x12 {
                o.push(c.byte());
                o.extend(rz(c, 1));
            } else {
                o.extend(rz(c, 2));
            }
            o.extend(c.blob(32));
            o.extend(c.blob(x.dhe));
            let q = opaque(c);
            u16b(&mut o, q.len());
            o.extend(q);
        }
        KEY_EXCHANGE_RSP => {
            p1 = c.byte();
            o.extend(c.vec(2));
            o.push(c.pick(&[0u8, 1, 2, 4]));
            o.push(c.byte());
            o.extend(c.blob(32));
            o.extend(c.blob(x.dhe));
            if x.summary {
                o.extend(c.blob(x.hlen));
            }
            let q = opaque(c);
            u16b(&mut o, q.len());
            o.extend(q);
            o.extend(c.blob(x.siglen));
            if !x.clear {
                o.extend(c.blob(x.hlen));
            }
        }
        FINISH => {
            p1 = c.below(2) as u8;
            p2 = c.byte();
            if p1 == 1 {
                o.extend(c.blob(x.req_siglen));
            }
            o.extend(c.blob(x.hlen));
        }
        FINISH_RSP => {
            if x.clear {
                o.extend(c.blob(x.hlen));
            }
        }
        PSK_EXCHANGE => {
            p1 = if e.caps { c.pick(&[0u8, 1, 0xff]) } else { 0 };
            o.extend(c.vec(2));
            let (h, k) = (c.range(0, 32), c.range(0, 64));
            let q = opaque(c);
            u16b(&mut o, h);
            u16b(&mut o, k);
            u16b(&mut o, q.len());
            o.extend(c.blob(h));
            o.extend(c.blob(k));
            o.extend(q);
        }
        PSK_EXCHANGE_RSP => {
            p1 = c.byte();
            o.extend(c.vec(2));
            o.extend(rz(c, 2));
            let k = if e.psk_noctx { 0 } else { c.range(1, 64) };
            let q = opaque(c);
            u16b(&mut o, k);
            u16b(&mut o, q.len());
            if x.summary {
                o.extend(c.blob(x.hlen));
            }
            o.extend(c.blob(k));
            o.extend(q);
            o.extend(c.blob(x.hlen));
        }
        PSK_FINISH => o.extend(c.blob(x.hlen)),
        KEY_UPDATE | KEY_UPDATE_ACK => {
            p1 = c.range(1, 3) as u8;
            p2 = c.byte();
        }
        END_SESSION => p1 = c.below(2) as u8,
        ERROR => {
            p1 = c.pick(&[
                1u8, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x41, 0x42, 0x43, 0xff, 0x50,
            ]);
            p2 = c.byte();
            match p1 {
                0x42 => o.extend(c.vec(4)),
                0xff => {
                    let n = c.range(0, 32);
                    o.extend(c.vec(n))
                }
                _ => {}
            }
        }
        VENDOR_REQ | VENDOR_RSP => {
            o.extend_from_slice(
                &c.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xffff])
                    .to_le_bytes(),
            );
            let n = c.len_biased(255);
            o.push(n as u8);
            o.extend(c.blob(n));
            let n = match c.below(3) {
                0 => c.len_biased(40),
                1 => c.len_biased(600),
                _ => c.len_biased(4087),
            };
            u16b(&mut o, n);
            o.extend(c.blob(n));
        }
        ENCAP_REQUEST | DELIVER_ENCAP => p1 = c.byte(),
        ENCAP_RESPONSE_ACK => {
            p1 = c.byte();
            p2 = c.below(3) as u8;
            if e.ver >= 0x12 {
                o.push(c.byte());
                o.extend(rz(c, 3));
            }
        }
        RESPOND_IF_READY => {
            p1 = c.byte();
            p2 = c.byte();
        }
        _ => {}
    }
    let mut m = vec![ver, code, p1, p2];
    m.extend(o);
    m
}

/// The same message as a conforming encoder would emit it.
pub fn canonical(b: &[u8], e: &Env) -> Vec<u8> {
    let p = crate::wire::parse(b, &e.px()).expect("generator produced an unparsable message");
    let mut o = b[..p.used].to_vec();
    let (r1, r2) = resv_params(p.code);
    if r1 {
        o[2] = 0;
    }
    if r2 {
        o[3] = 0;
    }
    for f in &p.f {
        let zero = f.name.starts_with("resv") || (f.name == "other_params" && e.ver < 0x12);
        if zero {
            for x in &mut o[f.off..f.off + f.len] {
                *x = 0;
            }
        }
        let mask: u64 = match (f.name, p.code) {
            ("flags", GET_CAPABILITIES) => REQ_FLAGS as u64,
            ("flags", CAPABILITIES) => RSP_FLAGS as u64,
            ("other_params", NEGOTIATE_ALGORITHMS) => 2,
            ("base_asym", _) => 0xff,
            ("base_hash", _) => 7,
            ("alg_sel", _) => match b[f.off - 2] {
                2 => 0x18,
                3 => 7,
                4 => 0xff,
                _ => 1,
            },
            _ => u64::MAX,
        };
        for i in 0..f.len.min(8) {
            o[f.off + i] &= (mask >> (8 * i)) as u8;
        }
    }
    o
}

/// `n` bytes determined by a seed byte
pub fn fill(n: usize, x: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7) ^ x).collect()
}
