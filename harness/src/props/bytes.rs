//! C28, the part on the containers of secrets: the scrubbed byte buffer and
//! the fixed-size key types with their conversions.
use crate::alloc::Track;
use crate::engine::*;
use ::bytes::Buf;
use spdmlib::crypto::bytes_mut_scrubbed::BytesMutStrubbed;
use spdmlib::protocol::*;
use std::borrow::{Borrow, BorrowMut};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hashed<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn fresh(c: &mut Case) -> (BytesMutStrubbed, Vec<u8>) {
    let n = c.len_biased(80);
    let v = c.blob(n);
    match c.below(8) {
        0 => (BytesMutStrubbed::new(), vec![]),
        1 => (BytesMutStrubbed::default(), vec![]),
        2 => (BytesMutStrubbed::with_capacity(n), vec![]),
        3 => (BytesMutStrubbed::zeroed(n), vec![0; n]),
        4 => {
            let s: String = v.iter().map(|x| (x & 0x7F) as char).collect();
            (BytesMutStrubbed::from(&s[..]), s.into_bytes())
        }
        5 => (v.iter().copied().collect(), v),
        6 => (v.iter().collect(), v),
        _ => (BytesMutStrubbed::from(&v[..]), v),
    }
}

/// The scrubbed buffer against a `Vec`.
pub fn scrubbed(c: &mut Case) -> CaseResult {
    let (mut b, mut m) = fresh(c);
    let mut hist: Vec<&'static str> = vec![];
    let n = c.range(1, 14);
    let mut moved = 0;
    for _ in 0..n {
        let k = c.below(16);
        let before = m.len();
        hist.push(match k {
            0 | 1 | 2 => {
                let k = c.len_biased(70);
                let v = c.blob(k);
                b.extend_from_slice(&v);
                m.extend_from_slice(&v);
                "extend_from_slice"
            }
            3 => {
                let (l, v) = (c.len_biased(120), c.byte());
                b.resize(l, v);
                m.resize(l, v);
                "resize"
            }
            4 => {
                b.clear();
                m.clear();
                "clear"
            }
            5 => {
                let l = c.len_biased(90);
                b.truncate(l);
                m.truncate(l);
                "truncate"
            }
            6 => {
                let v = c.byte();
                b.put_u8(v);
                m.push(v);
                "put_u8"
            }
            7 => {
                let l = c.usize(m.len() + 1);
                b.advance(l);
                m.drain(..l);
                "advance"
            }
            8 => {
                let l = c.usize(m.len() + 1);
                let x = b.copy_to_bytes(l);
                let y: Vec<u8> = m.drain(..l).collect();
                ensure!(x[..] == y[..], "copy_to_bytes", "{:?}", hist);
                "copy_to_bytes"
            }
            9 => {
                let l = c.range(0, 100);
                b.reserve(l);
                ensure!(b.capacity() >= m.len() + l, "reserve", "{:?}", hist);
                "reserve"
            }
            10 => {
                let k = c.range(0, 9);
                let v = c.blob(k);
                match c.below(3) {
                    0 => b.extend(v.iter()),
                    1 => b.extend(v.iter().copied()),
                    _ => b.extend(vec![::bytes::Bytes::copy_from_slice(&v)]),
                }
                m.extend_from_slice(&v);
                "extend"
            }
            11 if !m.is_empty() => {
                let (i, v) = (c.usize(m.len()), c.byte());
                match c.below(3) {
                    0 => b[i] = v,
                    1 => b.as_mut()[i] = v,
                    _ => BorrowMut::<[u8]>::borrow_mut(&mut b)[i] = v,
                }
                m[i] = v;
                "write"
            }
            12 => {
                let mut d = b.clone();
                ensure!(d == b && d[..] == m[..], "clone", "{:?}", hist);
                d.put_u8(1);
                ensure!(b.len() == m.len(), "a clone is not its own", "{:?}", hist);
                "clone"
            }
            13 => {
                let (o, w) = fresh(c);
                ensure!(
                    (o == b) == (w == m)
                        && o.cmp(&b) == w.cmp(&m)
                        && o.partial_cmp(&b) == Some(w.cmp(&m)),
                    "comparison",
                    "{} {} {:?}",
                    hex(&w),
                    hex(&m),
                    hist
                );
                "compare"
            }
            14 => {
                let v: Vec<u8> = b.clone().into_iter().collect();
                let w: Vec<u8> = (&b).into_iter().copied().collect();
                ensure!(v == m && w == m, "iteration", "{:?}", hist);
                "iterate"
            }
            _ => {
                let o = BytesMutStrubbed::from(&m[..]);
                ensure!(hashed(&o) == hashed(&b), "hash", "{:?}", hist);
                "hash"
            }
        });
        if m.len() != before {
            moved += 1;
        }
        let all = b.len() == m.len()
            && b.is_empty() == m.is_empty()
            && b.capacity() >= b.len()
            && b.remaining() == m.len()
            && b[..] == m[..]
            && b.as_ref() == &m[..]
            && b.chunk() == &m[..]
            && Borrow::<[u8]>::borrow(&b) == &m[..];
        ensure!(
            all,
            "scrubbed buffer",
            "{} wanted {} after {:?}",
            hex(&b),
            hex(&m),
            hist
        );
    }
    if moved >= 2 {
        c.nontrivial();
    }
    // given back without its contents
    let l = c.len_biased(299) + 1;
    let v: Vec<u8> = c.blob(l).iter().map(|x| x | 1).collect();
    let track = Track::start();
    let b = match c.below(3) {
        0 => BytesMutStrubbed::from(&v[..]),
        1 => {
            let mut b = BytesMutStrubbed::with_capacity(l);
            b.extend_from_slice(&v);
            b
        }
        _ => {
            let mut b = BytesMutStrubbed::zeroed(l);
            b[..].copy_from_slice(&v);
            b
        }
    };
    let p = b.as_ptr() as usize;
    if track.size(p) == Some(l) {
        c.label("dropped");
        track.watch(&[(p, l)]);
        drop(b);
        ensure!(
            track.dirty() == 0,
            "a scrubbed buffer is given back with its contents",
            "{} bytes",
            l
        );
    }
    Ok(())
}

fn zero_behind(d: &[u8], n: usize) -> bool {
    d[n..].iter().all(|x| *x == 0)
}

/// The fixed-size secrets: what goes in comes out, a size that does not fit
/// is refused, and the contents go when they do.
pub fn secrets(c: &mut Case) -> CaseResult {
    let kind = c.below(13);
    c.nontrivial();
    macro_rules! plain {
        ($t:ident, $max:expr) => {{
            let max = $max as usize;
            let n = c.len_biased(max);
            let v = c.blob(n);
            let x = match c.below(2) {
                0 => $t::from(&v[..]),
                _ => $t::from(BytesMutStrubbed::from(&v[..])),
            };
            ensure!(
                x.data_size as usize == n
                    && x.as_ref() == &v[..]
                    && x.data.len() == max
                    && zero_behind(&x.data[..], n),
                "a secret is not what it was made of",
                "{} {} {:?}",
                stringify!($t),
                hex(&v),
                x
            );
            let d = $t::default();
            ensure!(
                d.data_size == 0 && zero_behind(&d.data[..], 0),
                "a fresh secret is not empty",
                "{}",
                stringify!($t)
            );
            let track = Track::start();
            let y = x.clone();
            ensure!(
                y.data_size == x.data_size && y.data[..] == x.data[..],
                "clone",
                "{}",
                stringify!($t)
            );
            let p = y.data.as_ptr() as usize;
            ensure!(
                track.size(p) == Some(max),
                "a clone shares its bytes",
                "{}",
                stringify!($t)
            );
            track.watch(&[(p, max)]);
            drop(y);
            ensure!(
                track.dirty() == 0,
                "a secret is given back with its contents",
                "{} {}",
                stringify!($t),
                hex(&v)
            );
            (x, v)
        }};
    }
    macro_rules! derived {
        ($t:ident, $max:expr) => {{
            let max = $max as usize;
            let from_okm = c.bool();
            let cap = if from_okm {
                SPDM_MAX_HKDF_OKM_SIZE
            } else {
                SPDM_MAX_HASH_SIZE
            };
            let n = match c.below(5) {
                0 => 0,
                1 => max.min(cap),
                2 => (max + 1).min(cap),
                _ => c.len_biased(cap),
            };
            let v = c.blob(n);
            let r = if from_okm {
                $t::from_spdm_hkdf_okm(SpdmHkdfOutputKeyingMaterial::from(&v[..]))
            } else {
                $t::from_spdm_hkdf_prk(SpdmHkdfPseudoRandomKey::from(&v[..]))
            };
            let due = n > 0 && n <= max;
            ensure!(
                r.is_some() == due,
                "a derived secret of this size",
                "{} from okm {} of {}: {}",
                stringify!($t),
                from_okm,
                n,
                r.is_some()
            );
            c.label(if due { "derived" } else { "refused" });
            if let Some(x) = r {
                ensure!(
                    x.as_ref() == &v[..] && zero_behind(&x.data[..], n),
                    "a derived secret is not its source",
                    "{} {} {:?}",
                    stringify!($t),
                    hex(&v),
                    x
                );
            }
        }};
    }
    macro_rules! input {
        ($t:ident, $arm:ident, $max:expr) => {{
            let (x, v) = plain!($t, $max);
            let i = SpdmHkdfInputKeyingMaterial::$arm(&x);
            ensure!(
                i.as_ref() == &v[..] && i.get_data_size() as usize == v.len(),
                "keying material",
                "{}",
                stringify!($t)
            );
            let r = SpdmHkdfPseudoRandomKey::from_input_keying_material(&i);
            let due = !v.is_empty() && v.len() <= SPDM_MAX_HASH_SIZE;
            ensure!(
                r.is_some() == due,
                "keying material of this size",
                "{} {}",
                stringify!($t),
                v.len()
            );
            if let Some(r) = r {
                ensure!(
                    r.as_ref() == &v[..] && zero_behind(&r.data[..], v.len()),
                    "keying material is not its source",
                    "{} {} {:?}",
                    stringify!($t),
                    hex(&v),
                    r
                );
            }
        }};
    }
    match kind {
        0 => input!(SpdmZeroFilledStruct, SpdmZeroFilled, SPDM_MAX_HASH_SIZE),
        1 => input!(
            SpdmDheFinalKeyStruct,
            SpdmDheFinalKey,
            SPDM_MAX_DHE_KEY_SIZE
        ),
        2 => {
            input!(
                SpdmHandshakeSecretStruct,
                SpdmHandshakeSecret,
                SPDM_MAX_HASH_SIZE
            );
            derived!(SpdmHandshakeSecretStruct, SPDM_MAX_HASH_SIZE)
        }
        3 => {
            input!(
                SpdmDirectionHandshakeSecretStruct,
                SpdmDirectionHandshakeSecret,
                SPDM_MAX_HASH_SIZE
            );
            derived!(SpdmDirectionHandshakeSecretStruct, SPDM_MAX_HASH_SIZE)
        }
        4 => {
            input!(SpdmFinishedKeyStruct, SpdmFinishedKey, SPDM_MAX_HASH_SIZE);
            derived!(SpdmFinishedKeyStruct, SPDM_MAX_HASH_SIZE)
        }
        5 => input!(SpdmDigestStruct, SpdmDigest, SPDM_MAX_HASH_SIZE),
        6 => {
            input!(SpdmMasterSecretStruct, SpdmMasterSecret, SPDM_MAX_HASH_SIZE);
            derived!(SpdmMasterSecretStruct, SPDM_MAX_HASH_SIZE)
        }
        7 => {
            input!(
                SpdmDirectionDataSecretStruct,
                SpdmDirectionDataSecret,
                SPDM_MAX_HASH_SIZE
            );
            derived!(SpdmDirectionDataSecretStruct, SPDM_MAX_HASH_SIZE)
        }
        8 => {
            plain!(SpdmAeadKeyStruct, SPDM_MAX_AEAD_KEY_SIZE);
            derived!(SpdmAeadKeyStruct, SPDM_MAX_AEAD_KEY_SIZE)
        }
        9 => {
            plain!(SpdmAeadIvStruct, SPDM_MAX_AEAD_IV_SIZE);
            derived!(SpdmAeadIvStruct, SPDM_MAX_AEAD_IV_SIZE)
        }
        10 => {
            plain!(SpdmExportMasterSecretStruct, SPDM_MAX_HASH_SIZE);
            derived!(SpdmExportMasterSecretStruct, SPDM_MAX_HASH_SIZE)
        }
        11 => {
            plain!(SpdmHkdfPseudoRandomKey, SPDM_MAX_HASH_SIZE);
        }
        _ => {
            plain!(SpdmHkdfOutputKeyingMaterial, SPDM_MAX_HKDF_OKM_SIZE);
        }
    }
    // the public ones
    let n = c.len_biased(SPDM_MAX_ASYM_KEY_SIZE);
    let v = c.blob(n);
    let s = SpdmSignatureStruct::from(::bytes::BytesMut::from(&v[..]));
    let n2 = c.len_biased(SPDM_MAX_DHE_KEY_SIZE);
    let v2 = c.blob(n2);
    let e = SpdmDheExchangeStruct::from(::bytes::BytesMut::from(&v2[..]));
    ensure!(
        s.as_ref() == &v[..]
            && zero_behind(&s.data[..], n)
            && e.as_ref() == &v2[..]
            && zero_behind(&e.data[..], n2),
        "a signature or exchange is not what it was made of",
        "{} {}",
        hex(&v),
        hex(&v2)
    );
    // a certificate chain buffer
    let h = c.pick(&[0usize, 32, 48, 64]);
    let l = match c.below(3) {
        0 => SPDM_MAX_CERT_CHAIN_BUFFER_SIZE - 4 - h + c.usize(3) - 1,
        _ => c.range(0, 600),
    };
    let (chain, root) = (expand(c.u64(), l), c.blob(h));
    let due = l + h + 4 <= SPDM_MAX_CERT_CHAIN_BUFFER_SIZE;
    match SpdmCertChainBuffer::new(&chain, &root) {
        None => ensure!(!due, "a chain that fits is refused", "{} {}", l, h),
        Some(b) => {
            let t = ((l + h + 4) as u16).to_le_bytes();
            let mut w = vec![t[0], t[1], 0, 0];
            w.extend_from_slice(&root);
            w.extend_from_slice(&chain);
            ensure!(
                due && b.as_ref() == &w[..],
                "a chain buffer is not its chain",
                "{} {}",
                l,
                h
            );
        }
    }
    Ok(())
}
