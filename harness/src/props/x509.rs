//! C27 the certificate-chain format check accepts exactly well-formed chains.

use crate::engine::*;
use spdmlib::crypto::check_cert_chain_format;
use spdmlib::protocol::SpdmBaseAsymAlgo;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "the chain has at least one certificate, and an independent DER reader says whether it is well formed",
        level: "exploration",
        assumptions: &[],
        subs: vec![
            Sub { name: "valid", f: valid, quick: 300_000, thorough: 3_000_000 },
            Sub { name: "corrupt", f: corrupt, quick: 1_000_000, thorough: 8_000_000 },
            Sub { name: "cut", f: cut, quick: 10_000, thorough: 100_000 },
            Sub { name: "bytes", f: bytes, quick: 1_000_000, thorough: 8_000_000 },
        ],
    }]
}

const SHA256RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0b];
const SHA384RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0c];
const SHA512RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0d];
const EC256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
const EC384: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3];
const OTHERS: [&[u8]; 4] = [
    &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 4],
    &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 5],
    &[0x2b, 0x65, 0x70],
    &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0b, 1],
];
/// (algorithm bit, object identifier of the leaf's signature)
const ALGS: [(u32, &[u8]); 8] = [
    (0x01, SHA256RSA),
    (0x02, SHA256RSA),
    (0x04, SHA384RSA),
    (0x08, SHA384RSA),
    (0x10, EC256),
    (0x20, SHA512RSA),
    (0x40, SHA512RSA),
    (0x80, EC384),
];

fn len_of(n: usize) -> Vec<u8> {
    if n < 0x80 {
        vec![n as u8]
    } else {
        let b: Vec<u8> = n
            .to_be_bytes()
            .iter()
            .copied()
            .skip_while(|x| *x == 0)
            .collect();
        let mut v = vec![0x80 | b.len() as u8];
        v.extend(b);
        v
    }
}
fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(len_of(body.len()));
    v.extend(body);
    v
}

/// Where a field starts in the bytes of a certificate, for corruptions.
#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Cert,
    Tbs,
    Version,
    Serial,
    Alg,
    AlgOid,
    Issuer,
    Validity,
    Subject,
    Key,
    Extra,
    Alg2,
    Alg2Oid,
    Sig,
}
type Marks = Vec<(F, usize)>;

fn body_len(c: &mut Case) -> usize {
    match c.weighted(&[6, 3, 2, 1]) {
        0 => c.range(0, 20),
        1 => c.range(0x7c, 0x84),
        2 => c.range(0xfc, 0x104),
        _ => c.range(0, 700),
    }
}
/// Something made of `n` bytes or so of DER.
fn inner(c: &mut Case) -> Vec<u8> {
    let n = body_len(c);
    if n < 2 {
        return vec![];
    }
    let b = c.blob(n);
    tlv(c.pick(&[0x04u8, 0x0c, 0x13, 0x17]), &b)
}
fn alg_id(c: &mut Case, oid: &[u8], m: &mut Marks, at: usize, f: (F, F)) -> Vec<u8> {
    let mut b = tlv(6, oid);
    match c.below(3) {
        0 => {}
        1 => b.extend([5, 0]),
        _ => b.extend(tlv(0x30, &inner(c))),
    }
    let v = tlv(0x30, &b);
    m.push((f.0, at));
    m.push((f.1, at + v.len() - b.len()));
    v
}
fn cert(c: &mut Case, oid: &[u8], m: &mut Marks, at: usize) -> Vec<u8> {
    // positions inside the tbs are moved once its header is known
    let mut t: Vec<u8> = vec![];
    let mut tm: Marks = vec![(F::Version, 0)];
    t.extend([0xa0, 3, 2, 1, 2]);
    tm.push((F::Serial, t.len()));
    let n = c.range(1, 20);
    let b = c.blob(n);
    t.extend(tlv(2, &b));
    let a = alg_id(c, oid, &mut tm, t.len(), (F::Alg, F::AlgOid));
    t.extend(a);
    for f in [F::Issuer, F::Validity, F::Subject, F::Key] {
        tm.push((f, t.len()));
        let b = inner(c);
        t.extend(tlv(0x30, &b));
    }
    for tag in [0x81u8, 0x82, 0xa3] {
        if c.chance(1, if tag == 0xa3 { 2 } else { 6 }) {
            tm.push((F::Extra, t.len()));
            let b = if tag == 0xa3 {
                tlv(0x30, &inner(c))
            } else {
                let mut b = vec![0];
                b.extend(inner(c));
                b
            };
            t.extend(tlv(tag, &b));
        }
    }
    let tbs = tlv(0x30, &t);
    let mut body: Vec<u8> = tbs.clone();
    let mut bm: Marks = vec![(F::Tbs, 0)];
    let h = tbs.len() - t.len();
    bm.extend(tm.iter().map(|x| (x.0, x.1 + h)));
    let a = alg_id(c, oid, &mut bm, body.len(), (F::Alg2, F::Alg2Oid));
    body.extend(a);
    bm.push((F::Sig, body.len()));
    let mut s = vec![0];
    let n = body_len(c);
    s.extend(c.blob(n));
    body.extend(tlv(3, &s));
    let v = tlv(0x30, &body);
    let h = v.len() - body.len();
    m.push((F::Cert, at));
    m.extend(bm.iter().map(|x| (x.0, x.1 + h + at)));
    v
}
struct Chain {
    bits: u32,
    bytes: Vec<u8>,
    n: usize,
    marks: Marks,
}
fn gen(c: &mut Case, max: usize) -> Chain {
    let (bits, oid) = c.pick(&ALGS);
    let n = c.range(1, max);
    let mut k = Chain {
        bits,
        bytes: vec![],
        n,
        marks: vec![],
    };
    for i in 0..n {
        let o = if i + 1 == n {
            oid
        } else {
            match c.below(3) {
                0 => oid,
                1 => c.pick(&ALGS).1,
                _ => c.pick(&OTHERS),
            }
        };
        let at = k.bytes.len();
        let mut m = vec![];
        let b = cert(c, o, &mut m, at);
        k.bytes.extend(b);
        k.marks.extend(m);
    }
    k
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Say {
    Well(usize),
    Bad(&'static str),
    Open(&'static str),
}
/// An independent reading of the chain.
struct R<'a> {
    b: &'a [u8],
    open: Option<&'static str>,
}
type Rd<T> = Result<T, &'static str>;
impl<'a> R<'a> {
    fn header(&mut self, at: usize, end: usize) -> Rd<(u8, usize, usize)> {
        let b = self.b;
        if at >= end {
            return Err("nothing there");
        }
        let tag = b[at];
        if at + 1 >= end {
            return Err("no length");
        }
        let l = b[at + 1];
        let (n, h) = if l < 0x80 {
            (l as u64, 2)
        } else if l == 0x80 {
            return Err("indefinite length");
        } else {
            let k = (l & 0x7f) as usize;
            if at + 2 + k > end {
                return Err("length cut");
            }
            let d = &b[at + 2..at + 2 + k];
            if d[0] == 0 {
                self.open = Some("length not minimal");
            }
            if k > 8 && d[..k - 8].iter().any(|x| *x != 0) {
                return Err("huge length");
            }
            let mut n = 0u64;
            for x in d.iter().skip(k.saturating_sub(8)) {
                n = n << 8 | *x as u64;
            }
            if n < 0x80 {
                self.open = Some("length not minimal");
            }
            (n, 2 + k)
        };
        if n > (end - at - h) as u64 {
            return Err("contents cut");
        }
        Ok((tag, at + h, at + h + n as usize))
    }
    fn expect(&mut self, tag: u8, at: usize, end: usize) -> Rd<(usize, usize)> {
        let b = self.b;
        if at >= end {
            return Err("nothing there");
        }
        if b[at] != tag {
            return Err("wrong tag");
        }
        let (_, s, e) = self.header(at, end)?;
        Ok((s, e))
    }
    /// The contents of fields the check need not look into.
    fn loose(&mut self, s: usize, e: usize) {
        let mut at = s;
        while at < e {
            match self.header(at, e) {
                Err(_) => {
                    self.open = Some("odd contents");
                    return;
                }
                Ok((t, s, n)) => {
                    if t & 0x20 != 0 {
                        self.loose(s, n);
                    }
                    if t & 0x1f == 0x1f {
                        self.open = Some("odd contents");
                    }
                    at = n;
                }
            }
        }
    }
    fn alg(&mut self, at: usize, end: usize) -> Rd<(Vec<u8>, usize)> {
        let (s, e) = self.expect(0x30, at, end)?;
        let (os, oe) = self.expect(6, s, e)?;
        if oe - os > 0x7f || oe == os {
            self.open = Some("odd object identifier");
        }
        self.loose(oe, e);
        Ok((self.b[os..oe].to_vec(), e))
    }
    fn cert(&mut self, at: usize) -> Rd<(usize, [Vec<u8>; 2])> {
        let all = self.b.len();
        let (s, e) = self.expect(0x30, at, all)?;
        let (ts, te) = self.expect(0x30, s, e)?;
        if self.b[ts..te].len() < 5 || self.b[ts..ts + 5] != [0xa0, 3, 2, 1, 2] {
            return Err("wrong version");
        }
        let (ss, mut p) = self.expect(2, ts + 5, te)?;
        if ss == p {
            self.open = Some("empty serial number");
        }
        let (o1, q) = self.alg(p, te)?;
        p = q;
        for _ in 0..4 {
            let (a, b) = self.expect(0x30, p, te)?;
            self.loose(a, b);
            p = b;
        }
        let mut last = 0;
        while p < te {
            let (t, _, n) = self.header(p, te)?;
            let i = match t {
                0x81 | 0xa1 => 1,
                0x82 | 0xa2 => 2,
                0xa3 => 3,
                _ => 0,
            };
            if i <= last {
                self.open = Some("odd optional field");
            }
            last = i.max(last);
            p = n;
        }
        let (o2, p) = self.alg(te, e)?;
        let (bs, be) = self.expect(3, p, e)?;
        if bs == be {
            self.open = Some("empty signature");
        }
        if be != e {
            return Err("bytes after the signature");
        }
        Ok((e, [o1, o2]))
    }
}
fn oracle(b: &[u8], bits: u32) -> Say {
    let mut r = R { b, open: None };
    if b.is_empty() {
        return Say::Open("empty");
    }
    let oid = ALGS.iter().find(|x| x.0 == bits).unwrap().1;
    let mut at = 0;
    let mut n = 0;
    while at < b.len() {
        match r.cert(at) {
            Err(x) => return Say::Bad(x),
            Ok((e, o)) => {
                n += 1;
                if e == b.len() {
                    if o.iter().any(|x| x != oid) {
                        return Say::Bad("wrong leaf algorithm");
                    }
                } else if o[0] != o[1] {
                    r.open = Some("two algorithms");
                }
                at = e;
            }
        }
    }
    match r.open {
        Some(x) => Say::Open(x),
        None => Say::Well(n),
    }
}

fn judge(b: &[u8], bits: u32, what: &dyn Fn() -> String) -> Result<Say, Failure> {
    let say = oracle(b, bits);
    let r = check_cert_chain_format(b, SpdmBaseAsymAlgo::from_bits(bits).unwrap());
    match say {
        Say::Well(n) => ensure!(
            r == Ok(n),
            "a well-formed chain is refused or miscounted",
            "{:?} for {} certificates {:x} {} {}",
            r,
            n,
            bits,
            what(),
            hex(b)
        ),
        Say::Bad(x) => ensure!(
            r.is_err(),
            format!("a malformed chain is accepted: {}", x),
            "{:?} {:x} {} {}",
            r,
            bits,
            what(),
            hex(b)
        ),
        Say::Open(_) => {}
    }
    Ok(say)
}

fn valid(c: &mut Case) -> CaseResult {
    let max = [3, 6, 40][c.weighted(&[40, 8, 1])];
    let k = gen(c, max);
    c.nontrivial();
    if c.chance(1, 200) {
        // large fields: three length octets
        let n = c.pick(&[0xfffeusize, 0xffff, 0x10000, 0x10005]);
        let (_, oid) = *ALGS.iter().find(|x| x.0 == k.bits).unwrap();
        let mut b = vec![0xa0, 3, 2, 1, 2, 2, 1, 1];
        b.extend(tlv(0x30, &tlv(6, oid)));
        for i in 0..4 {
            b.extend(tlv(0x30, &tlv(4, &vec![0; if i == 3 { n } else { 3 }])));
        }
        let mut x = tlv(0x30, &b);
        x.extend(tlv(0x30, &tlv(6, oid)));
        x.extend(tlv(3, &[0, 1]));
        let x = tlv(0x30, &x);
        c.label("large");
        let s = judge(&x, k.bits, &|| "large".into())?;
        ensure!(s == Say::Well(1), "harness: large chain", "{:?}", s);
    }
    let s = judge(&k.bytes, k.bits, &|| "as made".into())?;
    ensure!(
        s == Say::Well(k.n),
        "harness: the oracle refuses a generated chain",
        "{:?}",
        s
    );
    Ok(())
}

fn corrupt(c: &mut Case) -> CaseResult {
    let mut k = gen(c, 3);
    for _ in 0..c.range(1, 2) {
        let (_, at) = c.pick(&k.marks);
        let len = k.bytes.len();
        let b = &mut k.bytes;
        if at + 8 >= len {
            continue;
        }
        match c.weighted(&[3, 4, 2, 2, 2, 2, 2]) {
            0 => {
                c.label("tag");
                b[at] = match c.below(3) {
                    0 => b[at] ^ 1 << c.below(8),
                    1 => c.pick(&[0x30, 0x31, 0x02, 0x03, 0x06, 0x10, 0xa0, 0x80, 0x04]),
                    _ => c.byte(),
                };
            }
            1 => {
                c.label("length");
                b[at + 1] = match c.below(4) {
                    0 => b[at + 1].wrapping_add(1),
                    1 => b[at + 1].wrapping_sub(1),
                    2 => c.pick(&[
                        0, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0x89, 0xff,
                    ]),
                    _ => c.byte(),
                };
                if b[at + 1] > 0x80 && c.bool() {
                    for i in 0..(b[at + 1] & 0x7f) as usize {
                        if at + 2 + i < len {
                            b[at + 2 + i] = c.pick(&[0, 0xff, 0x80, 1]);
                        }
                    }
                }
            }
            2 => {
                c.label("byte of the field");
                let i = at + c.usize((len - at).min(14));
                b[i] = c.byte();
            }
            3 => {
                c.label("byte removed");
                let i = at + c.usize((len - at).min(14));
                b.remove(i);
            }
            4 => {
                c.label("byte inserted");
                let i = at + c.usize((len - at).min(14));
                let x = c.byte();
                b.insert(i, x);
            }
            5 => {
                c.label("version or algorithm");
                let all: Vec<(F, usize)> = k
                    .marks
                    .iter()
                    .copied()
                    .filter(|m| matches!(m.0, F::Version | F::AlgOid | F::Alg2Oid))
                    .collect();
                if all.is_empty() {
                    continue;
                }
                let (_, a) = if c.bool() {
                    *all.last().unwrap()
                } else {
                    c.pick(&all)
                };
                let i = a + c.usize(10);
                if i < b.len() {
                    b[i] ^= 1 << c.below(8);
                }
            }
            _ => {
                // one algorithm short: negotiated another one
                c.label("another algorithm");
                k.bits = c.pick(&ALGS).0;
            }
        }
        k.marks.retain(|m| m.1 < at || m.1 == at);
    }
    match judge(&k.bytes, k.bits, &|| "corrupted".into())? {
        Say::Well(_) => c.label("still well formed"),
        Say::Bad(_) => c.nontrivial(),
        Say::Open(_) => c.label("unspecified"),
    }
    Ok(())
}

/// Every truncation, and bytes after the end.
fn cut(c: &mut Case) -> CaseResult {
    let k = gen(c, 2);
    c.nontrivial();
    for n in 1..k.bytes.len() {
        judge(&k.bytes[..n], k.bits, &|| format!("cut to {}", n))?;
        if n < 60 {
            judge(&k.bytes[n..], k.bits, &|| format!("from {}", n))?;
        }
    }
    let mut b = k.bytes.clone();
    let n = c.range(1, 9);
    b.extend(match c.below(3) {
        0 => vec![0; n],
        1 => c.blob(n),
        _ => k.bytes[..n.min(k.bytes.len())].to_vec(),
    });
    judge(&b, k.bits, &|| "trailing".into())?;
    Ok(())
}

fn bytes(c: &mut Case) -> CaseResult {
    let bits = c.pick(&ALGS).0;
    let b = match c.below(3) {
        0 => {
            let n = c.len_biased(300);
            c.blob(n)
        }
        1 => {
            // tags and lengths at random
            let mut v = vec![];
            for _ in 0..c.range(1, 12) {
                v.push(c.pick(&[0x30u8, 0x30, 0x30, 2, 3, 6, 0xa0, 0xa3, 0x80, 0xff]));
                v.push(c.pick(&[0u8, 1, 2, 3, 5, 9, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xff]));
                let n = c.usize(5);
                v.extend(c.vec(n));
            }
            v
        }
        _ => {
            let k = gen(c, 2);
            let mut b = k.bytes;
            for _ in 0..c.range(1, 6) {
                let i = c.usize(b.len());
                b[i] = c.byte();
            }
            b
        }
    };
    if !matches!(judge(&b, bits, &|| "bytes".into())?, Say::Open(_)) {
        c.nontrivial();
    }
    // whatever the algorithm
    let all = SpdmBaseAsymAlgo::from_bits(c.below(0x100) as u32);
    if let Some(a) = all {
        let _ = check_cert_chain_format(&b, a);
    }
    Ok(())
}
