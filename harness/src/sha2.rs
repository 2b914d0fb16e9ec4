//! SHA-256/384/512, HMAC and HKDF written for the harness (no shared code
//! with the library under test).

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum H {
    S256,
    S384,
    S512,
}

impl H {
    pub fn size(self) -> usize {
        match self {
            H::S256 => 32,
            H::S384 => 48,
            H::S512 => 64,
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::S256 => 64,
            _ => 128,
        }
    }
}

fn primes(n: usize) -> Vec<u64> {
    let mut p: Vec<u64> = Vec::new();
    let mut c = 2u64;
    while p.len() < n {
        if p.iter().all(|q| c % q != 0) {
            p.push(c);
        }
        c += 1;
    }
    p
}

// floor(frac(p^(1/r)) * 2^64) by binary search on big integers (u128 pieces).
fn frac_root(p: u64, r: u32) -> u64 {
    // find largest x with x^r <= p * 2^(64 r); x has up to 64+4 bits
    fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut o = vec![0u64; a.len() + b.len() + 1];
        for (i, x) in a.iter().enumerate() {
            let mut carry = 0u64;
            for (j, y) in b.iter().enumerate() {
                let t = o[i + j] + (*x as u64) * (*y as u64) + carry;
                o[i + j] = t & 0xffff_ffff;
                carry = t >> 32;
            }
            let mut k = i + b.len();
            while carry > 0 {
                let t = o[k] + carry;
                o[k] = t & 0xffff_ffff;
                carry = t >> 32;
                k += 1;
            }
        }
        o.into_iter().map(|x| x as u32).collect()
    }
    fn le(a: &[u32], b: &[u32]) -> bool {
        let n = a.len().max(b.len());
        for i in (0..n).rev() {
            let x = a.get(i).copied().unwrap_or(0);
            let y = b.get(i).copied().unwrap_or(0);
            if x != y {
                return x < y;
            }
        }
        true
    }
    let mut target = vec![0u32; (2 * r) as usize];
    target.push(p as u32);
    target.push((p >> 32) as u32);
    let mut x: u128 = 0;
    for bit in (0..72).rev() {
        let c = x | (1u128 << bit);
        let limbs = [c as u32, (c >> 32) as u32, (c >> 64) as u32];
        let mut v = limbs.to_vec();
        for _ in 1..r {
            v = mul(&v, &limbs);
        }
        if le(&v, &target) {
            x = c;
        }
    }
    x as u64
}

struct Consts {
    k: [u64; 80],
    h256: [u32; 8],
    h384: [u64; 8],
    h512: [u64; 8],
}

fn consts() -> &'static Consts {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    static mut C: Option<Consts> = None;
    unsafe {
        ONCE.call_once(|| {
            let p = primes(80);
            let mut k = [0u64; 80];
            for i in 0..80 {
                k[i] = frac_root(p[i], 3);
            }
            let mut h256 = [0u32; 8];
            let mut h384 = [0u64; 8];
            let mut h512 = [0u64; 8];
            for i in 0..8 {
                h512[i] = frac_root(p[i], 2);
                h256[i] = (h512[i] >> 32) as u32;
                h384[i] = frac_root(p[i + 8], 2);
            }
            C = Some(Consts {
                k,
                h256,
                h384,
                h512,
            });
        });
        C.as_ref().unwrap()
    }
}

#[derive(Clone)]
pub struct Hasher {
    alg: H,
    buf: Vec<u8>,
    total: u128,
    s32: [u32; 8],
    s64: [u64; 8],
}

impl Hasher {
    pub fn new(alg: H) -> Hasher {
        let c = consts();
        Hasher {
            alg,
            buf: Vec::with_capacity(256),
            total: 0,
            s32: c.h256,
            s64: if alg == H::S384 { c.h384 } else { c.h512 },
        }
    }
    pub fn update(&mut self, mut data: &[u8]) {
        self.total += data.len() as u128;
        let bs = self.alg.block();
        if !self.buf.is_empty() {
            let need = bs - self.buf.len();
            let n = need.min(data.len());
            self.buf.extend_from_slice(&data[..n]);
            data = &data[n..];
            if self.buf.len() == bs {
                let b = std::mem::take(&mut self.buf);
                self.block(&b);
            }
        }
        while data.len() >= bs {
            self.block(&data[..bs]);
            data = &data[bs..];
        }
        self.buf.extend_from_slice(data);
    }
    fn block(&mut self, b: &[u8]) {
        let c = consts();
        if self.alg == H::S256 {
            let mut w = [0u32; 64];
            for i in 0..16 {
                w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
            }
            for i in 16..64 {
                let a = w[i - 15];
                let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
                let a = w[i - 2];
                let s1 = a.rotate_right(17) ^ a.rotate_right(19) ^ (a >> 10);
                w[i] = w[i - 16]
                    .wrapping_add(s0)
                    .wrapping_add(w[i - 7])
                    .wrapping_add(s1);
            }
            let mut s = self.s32;
            for i in 0..64 {
                let e = s[4];
                let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
                let ch = (e & s[5]) ^ (!e & s[6]);
                let t1 = s[7]
                    .wrapping_add(s1)
                    .wrapping_add(ch)
                    .wrapping_add((c.k[i] >> 32) as u32)
                    .wrapping_add(w[i]);
                let a = s[0];
                let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
                let maj = (a & s[1]) ^ (a & s[2]) ^ (s[1] & s[2]);
                let t2 = s0.wrapping_add(maj);
                s = [
                    t1.wrapping_add(t2),
                    s[0],
                    s[1],
                    s[2],
                    s[3].wrapping_add(t1),
                    s[4],
                    s[5],
                    s[6],
                ];
            }
            for i in 0..8 {
                self.s32[i] = self.s32[i].wrapping_add(s[i]);
            }
        } else {
            let mut w = [0u64; 80];
            for i in 0..16 {
                let mut x = [0u8; 8];
                x.copy_from_slice(&b[8 * i..8 * i + 8]);
                w[i] = u64::from_be_bytes(x);
            }
            for i in 16..80 {
                let a = w[i - 15];
                let s0 = a.rotate_right(1) ^ a.rotate_right(8) ^ (a >> 7);
                let a = w[i - 2];
                let s1 = a.rotate_right(19) ^ a.rotate_right(61) ^ (a >> 6);
                w[i] = w[i - 16]
                    .wrapping_add(s0)
                    .wrapping_add(w[i - 7])
                    .wrapping_add(s1);
            }
            let mut s = self.s64;
            for i in 0..80 {
                let e = s[4];
                let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
                let ch = (e & s[5]) ^ (!e & s[6]);
                let t1 = s[7]
                    .wrapping_add(s1)
                    .wrapping_add(ch)
                    .wrapping_add(c.k[i])
                    .wrapping_add(w[i]);
                let a = s[0];
                let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
                let maj = (a & s[1]) ^ (a & s[2]) ^ (s[1] & s[2]);
                let t2 = s0.wrapping_add(maj);
                s = [
                    t1.wrapping_add(t2),
                    s[0],
                    s[1],
                    s[2],
                    s[3].wrapping_add(t1),
                    s[4],
                    s[5],
                    s[6],
                ];
            }
            for i in 0..8 {
                self.s64[i] = self.s64[i].wrapping_add(s[i]);
            }
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        let bits = self.total * 8;
        let bs = self.alg.block();
        let lf = if self.alg == H::S256 { 8 } else { 16 };
        let mut pad = vec![0x80u8];
        while (self.buf.len() + pad.len() + lf) % bs != 0 {
            pad.push(0);
        }
        if lf == 8 {
            pad.extend_from_slice(&(bits as u64).to_be_bytes());
        } else {
            pad.extend_from_slice(&bits.to_be_bytes());
        }
        self.update(&pad);
        let mut out = Vec::new();
        if self.alg == H::S256 {
            for x in self.s32.iter() {
                out.extend_from_slice(&x.to_be_bytes());
            }
        } else {
            for x in self.s64.iter() {
                out.extend_from_slice(&x.to_be_bytes());
            }
        }
        out.truncate(self.alg.size());
        out
    }
}

pub fn hash(alg: H, data: &[u8]) -> Vec<u8> {
    let mut h = Hasher::new(alg);
    h.update(data);
    h.finish()
}

pub fn hmac(alg: H, key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > alg.block() {
        hash(alg, key)
    } else {
        key.to_vec()
    };
    k.resize(alg.block(), 0);
    let ik: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let ok: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    let mut h = Hasher::new(alg);
    h.update(&ik);
    h.update(data);
    let inner = h.finish();
    let mut h = Hasher::new(alg);
    h.update(&ok);
    h.update(&inner);
    h.finish()
}

pub fn hkdf_expand(alg: H, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut t: Vec<u8> = Vec::new();
    let mut i = 1u8;
    while out.len() < len {
        let mut d = t.clone();
        d.extend_from_slice(info);
        d.push(i);
        t = hmac(alg, prk, &d);
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}

pub fn selftest() {
    use crate::engine::hex;
    assert_eq!(
        hex(&hash(H::S256, b"abc")),
        "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
    );
    assert_eq!(
        hex(&hash(H::S384, b"abc")),
        "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7"
    );
    assert_eq!(
        hex(&hash(H::S512, b"abc")),
        "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"
    );
    // RFC 4231 case 2, RFC 5869 case 1
    assert_eq!(
        hex(&hmac(H::S256, b"Jefe", b"what do ya want for nothing?")),
        "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"
    );
    let ikm = [0x0bu8; 22];
    let salt: Vec<u8> = (0u8..=0x0c).collect();
    let info: Vec<u8> = (0xf0u8..=0xf9).collect();
    let prk = hmac(H::S256, &salt, &ikm);
    assert_eq!(
        hex(&hkdf_expand(H::S256, &prk, &info, 42)),
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"
    );
}
