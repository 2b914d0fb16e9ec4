//! C03 decoders total, C04 wire format and round trip, C28 readers/writers/buffers,
//! C29 (codec part) opaque structures.
use crate::engine::*;
use crate::gen::{self, Env};
use crate::wire::{self, code::*};
use crate::world::*;
use codec::{u24, Codec, Reader, Writer};
use spdmlib::common::opaque::*;
use spdmlib::common::spdm_codec::SpdmCodec;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "a case is non-trivial when the decoder got past the header (it consumed more than two bytes) on a message that differs from a valid one, or accepted it",
            level: "exploration",
            assumptions: &["negotiated parameters are ones the library can select (one algorithm per category)"],
            subs: vec![
                Sub { name: "mutated", f: c03_mutated, quick: 240000, thorough: 3_000_000 },
                Sub { name: "random", f: c03_random, quick: 160000, thorough: 2_000_000 },
                Sub { name: "lengths", f: c03_lengths, quick: 120000, thorough: 1_000_000 },
                Sub { name: "parts", f: c03_parts, quick: 120000, thorough: 1_000_000 },
            ],
        },
        Prop {
            id: "C04",
            rule: "every case decodes a complete valid message of one of 36 kinds, compares each field with the specification parser, re-encodes it and compares bytes, then encodes into smaller buffers",
            level: "exploration",
            assumptions: &["the layout tables in wire.rs and gen.rs are a correct reading of DSP0274 1.0-1.2"],
            subs: vec![
                Sub { name: "roundtrip", f: c04_roundtrip, quick: 240000, thorough: 2_000_000 },
                Sub { name: "small", f: c04_small, quick: 60000, thorough: 500_000 },
                Sub { name: "structs", f: c04_structs, quick: 80000, thorough: 500_000 },
            ],
        },
        Prop {
            id: "C28",
            rule: "a case is non-trivial when it performed at least three operations, one of which hit a bound or one of which succeeded after a refused one (scrubbed buffer: two that changed the length; secrets: every case)",
            level: "exploration",
            assumptions: &[],
            subs: vec![
                Sub { name: "reader", f: c28_reader, quick: 400000, thorough: 1_000_000 },
                Sub { name: "writer", f: c28_writer, quick: 400000, thorough: 1_000_000 },
                Sub { name: "buffers", f: c28_buffers, quick: 120000, thorough: 300_000 },
                Sub { name: "ints", f: c28_ints, quick: 400000, thorough: 1_000_000 },
                Sub { name: "scrubbed", f: super::bytes::scrubbed, quick: 60000, thorough: 2_000_000 },
                Sub { name: "secrets", f: super::bytes::secrets, quick: 60000, thorough: 2_000_000 },
            ],
        },
    ]
}

// ------------------------------------------------------------------ context

fn ctx_world(e: &Env) -> World {
    let cfg = Cfg::simple();
    let mut w = World::new(&cfg);
    {
        let x = &mut w.req.common;
        let n = &mut x.negotiate_info;
        n.spdm_version_sel = SpdmVersion::read_bytes(&[e.ver]).unwrap();
        n.base_hash_sel = SpdmBaseHashAlgo::from_bits(e.hash).unwrap();
        n.base_asym_sel = SpdmBaseAsymAlgo::from_bits(e.asym).unwrap();
        n.req_asym_sel = SpdmReqAsymAlgo::from_bits(e.req_asym as u16).unwrap();
        n.dhe_sel = SpdmDheAlgo::from_bits(e.dhe).unwrap();
        n.measurement_hash_sel = SpdmMeasurementHashAlgo::from_bits(e.meas_hash).unwrap();
        n.measurement_specification_sel = SpdmMeasurementSpecification::DMTF;
        let mut rq =
            SpdmRequestCapabilityFlags::CERT_CAP | SpdmRequestCapabilityFlags::MUT_AUTH_CAP;
        let mut rs = SpdmResponseCapabilityFlags::CERT_CAP | SpdmResponseCapabilityFlags::CHAL_CAP;
        if e.clear {
            rq |= SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
            rs |= SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
        }
        if e.caps {
            rs |= SpdmResponseCapabilityFlags::MEAS_CAP_SIG;
        }
        rs |= if e.psk_noctx {
            SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT
        } else {
            SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT
        };
        n.req_capabilities_sel = rq;
        n.rsp_capabilities_sel = rs;
        n.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
        x.runtime_info.need_measurement_summary_hash = e.summary;
        x.runtime_info.need_measurement_signature = e.sig;
    }
    w
}

/// A decoded message of any kind.
pub enum Dec {
    Msg(SpdmMessage),
    GetEncap(SpdmGetEncapsulatedRequestPayload),
    Encap(SpdmEncapsulatedRequestPayload),
    Deliver(SpdmDeliverEncapsulatedResponsePayload),
    Ack(SpdmEncapsulatedResponseAckPayload),
    Vreq(Box<SpdmVendorDefinedRequestPayload>),
    Vrsp(Box<SpdmVendorDefinedResponsePayload>),
}

/// The library has no message variant for these: only a payload decoder.
fn has_dec(code: u8) -> bool {
    code != RESPOND_IF_READY
}

fn decode(x: &mut SpdmContext, b: &[u8]) -> (Option<Dec>, usize) {
    let mut r = Reader::init(b);
    let d = match b.get(1).copied().unwrap_or(0) {
        c if c == GET_ENCAP
            || c == ENCAP_REQUEST
            || c == DELIVER_ENCAP
            || c == ENCAP_RESPONSE_ACK
            || c == VENDOR_REQ
            || c == VENDOR_RSP =>
        {
            if SpdmMessageHeader::read(&mut r).is_none() {
                None
            } else {
                match c {
                    GET_ENCAP => {
                        SpdmGetEncapsulatedRequestPayload::spdm_read(x, &mut r).map(Dec::GetEncap)
                    }
                    ENCAP_REQUEST => {
                        SpdmEncapsulatedRequestPayload::spdm_read(x, &mut r).map(Dec::Encap)
                    }
                    DELIVER_ENCAP => SpdmDeliverEncapsulatedResponsePayload::spdm_read(x, &mut r)
                        .map(Dec::Deliver),
                    VENDOR_REQ => SpdmVendorDefinedRequestPayload::spdm_read(x, &mut r)
                        .map(|p| Dec::Vreq(Box::new(p))),
                    VENDOR_RSP => SpdmVendorDefinedResponsePayload::spdm_read(x, &mut r)
                        .map(|p| Dec::Vrsp(Box::new(p))),
                    _ => SpdmEncapsulatedResponseAckPayload::spdm_read(x, &mut r).map(Dec::Ack),
                }
            }
        }
        RESPOND_IF_READY => {
            let _ = SpdmMessageHeader::read(&mut r);
            let _ = SpdmRespondIfReadyRequestPayload::spdm_read(x, &mut r);
            None
        }
        _ => SpdmMessage::spdm_read(x, &mut r).map(Dec::Msg),
    };
    let u = r.used();
    (d, u)
}

fn encode(
    x: &mut SpdmContext,
    d: &Dec,
    code: u8,
    ver: u8,
    buf: &mut [u8],
) -> (Result<usize, ()>, usize) {
    let mut w = Writer::init(buf);
    let r = match d {
        Dec::Msg(m) => m.spdm_encode(x, &mut w).map_err(|_| ()),
        _ => {
            let h = SpdmMessageHeader {
                version: SpdmVersion::read_bytes(&[ver]).unwrap(),
                request_response_code: SpdmRequestResponseCode::read_bytes(&[code]).unwrap(),
            };
            match h.encode(&mut w) {
                Err(_) => Err(()),
                Ok(n) => match d {
                    Dec::GetEncap(p) => p.spdm_encode(x, &mut w),
                    Dec::Encap(p) => p.spdm_encode(x, &mut w),
                    Dec::Deliver(p) => p.spdm_encode(x, &mut w),
                    Dec::Ack(p) => p.spdm_encode(x, &mut w),
                    Dec::Vreq(p) => p.spdm_encode(x, &mut w),
                    Dec::Vrsp(p) => p.spdm_encode(x, &mut w),
                    _ => unreachable!(),
                }
                .map(|k| k + n)
                .map_err(|_| ()),
            }
        }
    };
    let u = w.used();
    (r, u)
}

type View = Vec<(&'static str, Vec<u8>)>;

fn cat_alg(n: u8, a: &[SpdmAlgStruct; 4]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    for s in a.iter().take(n as usize) {
        let v = match s.alg_supported {
            SpdmAlg::SpdmAlgoDhe(x) => x.bits(),
            SpdmAlg::SpdmAlgoAead(x) => x.bits(),
            SpdmAlg::SpdmAlgoReqAsym(x) => x.bits(),
            SpdmAlg::SpdmAlgoKeySchedule(x) => x.bits(),
            _ => return Err("unknown algorithm struct".into()),
        };
        o.push(s.alg_type.get_u8());
        o.extend_from_slice(&v.to_le_bytes());
    }
    Ok(o)
}
fn sl<const N: usize>(d: &[u8; N], n: usize) -> Vec<u8> {
    d[..n.min(N)].to_vec()
}

/// Field values of a decoded message, by the names of wire.rs.
fn view(d: &Dec) -> Result<View, String> {
    let mut v: View = vec![];
    macro_rules! f {
        ($n:expr, $b:expr) => {
            v.push(($n, $b.to_vec()))
        };
    }
    use SpdmMessagePayload as P;
    match d {
        Dec::GetEncap(_) => {}
        Dec::Encap(p) => f!("p1", [p.request_id]),
        Dec::Deliver(p) => f!("p1", [p.request_id]),
        Dec::Ack(p) => {
            f!("p1", [p.request_id]);
            f!("p2", [p.payload_type.get_u8()]);
            f!("ack_id", [p.ack_request_id]);
        }
        Dec::Vreq(p) => {
            f!("standard_id", (p.standard_id.get_u16()).to_le_bytes());
            f!("vendor_len", [p.vendor_id.len]);
            f!(
                "vendor_id",
                sl(&p.vendor_id.vendor_id, p.vendor_id.len as usize)
            );
            f!("payload_len", p.req_payload.req_length.to_le_bytes());
            f!(
                "payload",
                sl(
                    &p.req_payload.vendor_defined_req_payload,
                    p.req_payload.req_length as usize
                )
            );
        }
        Dec::Vrsp(p) => {
            f!("standard_id", (p.standard_id.get_u16()).to_le_bytes());
            f!("vendor_len", [p.vendor_id.len]);
            f!(
                "vendor_id",
                sl(&p.vendor_id.vendor_id, p.vendor_id.len as usize)
            );
            f!("payload_len", p.rsp_payload.rsp_length.to_le_bytes());
            f!(
                "payload",
                sl(
                    &p.rsp_payload.vendor_defined_rsp_payload,
                    p.rsp_payload.rsp_length as usize
                )
            );
        }
        Dec::Msg(m) => {
            f!("version", [m.header.version.get_u8()]);
            f!("code", [m.header.request_response_code.get_u8()]);
            match &m.payload {
                P::SpdmGetVersionRequest(_)
                | P::SpdmGetDigestsRequest(_)
                | P::SpdmHeartbeatRequest(_)
                | P::SpdmHeartbeatResponse(_)
                | P::SpdmEndSessionResponse(_)
                | P::SpdmPskFinishResponse(_) => {}
                P::SpdmVersionResponse(p) => {
                    f!("version_count", [p.version_number_entry_count]);
                    let mut o = vec![];
                    for e in p
                        .versions
                        .iter()
                        .take(p.version_number_entry_count as usize)
                    {
                        o.push(e.update);
                        o.push(e.version.get_u8());
                    }
                    f!("version_entry", o);
                }
                P::SpdmGetCapabilitiesRequest(p) => {
                    f!("ct_exponent", [p.ct_exponent]);
                    f!("flags", p.flags.bits().to_le_bytes());
                    f!("data_transfer_size", p.data_transfer_size.to_le_bytes());
                    f!("max_spdm_msg_size", p.max_spdm_msg_size.to_le_bytes());
                }
                P::SpdmCapabilitiesResponse(p) => {
                    f!("ct_exponent", [p.ct_exponent]);
                    f!("flags", p.flags.bits().to_le_bytes());
                    f!("data_transfer_size", p.data_transfer_size.to_le_bytes());
                    f!("max_spdm_msg_size", p.max_spdm_msg_size.to_le_bytes());
                }
                P::SpdmNegotiateAlgorithmsRequest(p) => {
                    f!("p1", [p.alg_struct_count]);
                    f!("meas_spec", [p.measurement_specification.bits()]);
                    f!("other_params", [p.other_params_support.bits()]);
                    f!("base_asym", p.base_asym_algo.bits().to_le_bytes());
                    f!("base_hash", p.base_hash_algo.bits().to_le_bytes());
                    f!("algs", cat_alg(p.alg_struct_count, &p.alg_struct)?);
                }
                P::SpdmAlgorithmsResponse(p) => {
                    f!("p1", [p.alg_struct_count]);
                    f!("meas_spec_sel", [p.measurement_specification_sel.bits()]);
                    f!("other_params", [p.other_params_selection.bits()]);
                    f!("meas_hash", p.measurement_hash_algo.bits().to_le_bytes());
                    f!("base_asym", p.base_asym_sel.bits().to_le_bytes());
                    f!("base_hash", p.base_hash_sel.bits().to_le_bytes());
                    f!("algs", cat_alg(p.alg_struct_count, &p.alg_struct)?);
                }
                P::SpdmDigestsResponse(p) => {
                    f!("p2", [p.slot_mask]);
                    let mut o = vec![];
                    for i in 0..p.slot_mask.count_ones() as usize {
                        o.extend_from_slice(p.digests[i].as_ref());
                    }
                    f!("digest", o);
                }
                P::SpdmGetCertificateRequest(p) => {
                    f!("p1", [p.slot_id]);
                    f!("offset", p.offset.to_le_bytes());
                    f!("length", p.length.to_le_bytes());
                }
                P::SpdmCertificateResponse(p) => {
                    f!("p1", [p.slot_id]);
                    f!("portion_len", p.portion_length.to_le_bytes());
                    f!("remainder", p.remainder_length.to_le_bytes());
                    f!("cert", sl(&p.cert_chain, p.portion_length as usize));
                }
                P::SpdmChallengeRequest(p) => {
                    f!("p1", [p.slot_id]);
                    f!("p2", [p.measurement_summary_hash_type.get_u8()]);
                    f!("nonce", p.nonce.data);
                }
                P::SpdmChallengeAuthResponse(p) => {
                    f!("p1", [p.slot_id | p.challenge_auth_attribute.bits()]);
                    f!("p2", [p.slot_mask]);
                    f!("cert_hash", p.cert_chain_hash.as_ref());
                    f!("nonce", p.nonce.data);
                    f!("summary", p.measurement_summary_hash.as_ref());
                    f!("opaque_len", p.opaque.data_size.to_le_bytes());
                    f!("opaque", sl(&p.opaque.data, p.opaque.data_size as usize));
                    f!("signature", p.signature.as_ref());
                }
                P::SpdmGetMeasurementsRequest(p) => {
                    f!("p1", [p.measurement_attributes.bits()]);
                    f!("p2", [p.measurement_operation.get_u8()]);
                    f!("nonce", p.nonce.data);
                    f!("slot", [p.slot_id]);
                }
                P::SpdmMeasurementsResponse(p) => {
                    f!("p1", [p.number_of_measurement]);
                    f!("p2", [p.slot_id | p.content_changed.bits()]);
                    f!("blocks", [p.measurement_record.number_of_blocks]);
                    let l = p.measurement_record.measurement_record_length.get();
                    f!("record_len", l.to_le_bytes()[..3]);
                    f!(
                        "record",
                        sl(&p.measurement_record.measurement_record_data, l as usize)
                    );
                    f!("nonce", p.nonce.data);
                    f!("opaque_len", p.opaque.data_size.to_le_bytes());
                    f!("opaque", sl(&p.opaque.data, p.opaque.data_size as usize));
                    f!("signature", p.signature.as_ref());
                }
                P::SpdmKeyExchangeRequest(p) => {
                    f!("p1", [p.measurement_summary_hash_type.get_u8()]);
                    f!("p2", [p.slot_id]);
                    f!("req_session_id", p.req_session_id.to_le_bytes());
                    f!("policy", [p.session_policy]);
                    f!("random", p.random.data);
                    f!("exchange", p.exchange.as_ref());
                    f!("opaque_len", p.opaque.data_size.to_le_bytes());
                    f!("opaque", sl(&p.opaque.data, p.opaque.data_size as usize));
                }
                P::SpdmKeyExchangeResponse(p) => {
                    f!("p1", [p.heartbeat_period]);
                    f!("rsp_session_id", p.rsp_session_id.to_le_bytes());
                    f!("mut_auth", [p.mut_auth_req.bits()]);
                    f!("req_slot", [p.req_slot_id]);
                    f!("random", p.random.data);
                    f!("exchange", p.exchange.as_ref());
                    f!("summary", p.measurement_summary_hash.as_ref());
                    f!("opaque_len", p.opaque.data_size.to_le_bytes());
                    f!("opaque", sl(&p.opaque.data, p.opaque.data_size as usize));
                    f!("signature", p.signature.as_ref());
                    f!("hmac", p.verify_data.as_ref());
                }
                P::SpdmFinishRequest(p) => {
                    f!("p1", [p.finish_request_attributes.bits()]);
                    f!("p2", [p.req_slot_id]);
                    f!("signature", p.signature.as_ref());
                    f!("hmac", p.verify_data.as_ref());
                }
                P::SpdmFinishResponse(p) => f!("hmac", p.verify_data.as_ref()),
                P::SpdmPskExchangeRequest(p) => {
                    f!("p1", [p.measurement_summary_hash_type.get_u8()]);
                    f!("req_session_id", p.req_session_id.to_le_bytes());
                    f!("hint", p.psk_hint.as_ref());
                    f!("context", p.psk_context.as_ref());
                    f!("hint_len", p.psk_hint.data_size.to_le_bytes());
                    f!("context_len", p.psk_context.data_size.to_le_bytes());
                    f!("opaque_len", p.opaque.data_size.to_le_bytes());
                    f!("opaque", sl(&p.opaque.data, p.opaque.data_size as usize));
                }
                P::SpdmPskExchangeResponse(p) => {
                    f!("p1", [p.heartbeat_period]);
                    f!("rsp_session_id", p.rsp_session_id.to_le_bytes());
                    f!("summary", p.measurement_summary_hash.as_ref());
                    f!("context", p.psk_context.as_ref());
                    f!("context_len", p.psk_context.data_size.to_le_bytes());
                    f!("opaque_len", p.opaque.data_size.to_le_bytes());
                    f!("opaque", sl(&p.opaque.data, p.opaque.data_size as usize));
                    f!("hmac", p.verify_data.as_ref());
                }
                P::SpdmPskFinishRequest(p) => f!("hmac", p.verify_data.as_ref()),
                P::SpdmKeyUpdateRequest(p) => {
                    f!("p1", [p.key_update_operation.get_u8()]);
                    f!("p2", [p.tag]);
                }
                P::SpdmKeyUpdateResponse(p) => {
                    f!("p1", [p.key_update_operation.get_u8()]);
                    f!("p2", [p.tag]);
                }
                P::SpdmEndSessionRequest(p) => f!("p1", [p.end_session_request_attributes.bits()]),
                P::SpdmErrorResponse(p) => {
                    f!("p1", [p.error_code.get_u8()]);
                    f!("p2", [p.error_data]);
                    match &p.extended_data {
                        SpdmErrorResponseExtData::SpdmErrorExtDataNone(_) => f!("ext", []),
                        SpdmErrorResponseExtData::SpdmErrorExtDataNotReady(e) => {
                            f!("ext", [e.rdt_exponent, e.request_code, e.token, e.rdtm])
                        }
                        SpdmErrorResponseExtData::SpdmErrorExtDataVendorDefined(e) => {
                            f!("ext", sl(&e.data, e.data_size as usize))
                        }
                    }
                }
                #[allow(unreachable_patterns)]
                _ => return Err("unexpected payload kind".into()),
            }
        }
    }
    Ok(v)
}

fn gen_code(c: &mut Case, e: &Env) -> u8 {
    let all: Vec<u8> = ALL_REQ.iter().chain(ALL_RSP.iter()).copied().collect();
    let _ = e;
    c.pick(&all)
}

const BUF: usize = 4096 + 300;

// ------------------------------------------------------------------ C04

fn c04_roundtrip(c: &mut Case) -> CaseResult {
    let e = Env::gen(c);
    let code = gen_code(c, &e);
    if !has_dec(code) {
        return Ok(());
    }
    let b = gen::message(c, code, &e);
    let want = wire::parse(&b, &e.px()).expect("generator produced an unparsable message");
    let canon = gen::canonical(&b, &e);
    let mut w = ctx_world(&e);
    let x = &mut w.req.common;
    // trailing bytes after a complete message are not part of it
    let (d, used) = decode(x, &b);
    let d = match d {
        Some(d) => d,
        None => {
            return fail(
                format!("decode {:02x}", code),
                format!("{:?} refused {}", e, hex(&b)),
            )
        }
    };
    let whole = !matches!(code, ENCAP_REQUEST | DELIVER_ENCAP | ENCAP_RESPONSE_ACK);
    if whole {
        ensure!(
            used == want.used,
            format!("used {:02x}", code),
            "consumed {} of {} {:?} {}",
            used,
            want.used,
            e,
            hex(&b)
        );
    }
    // every specification field shows up unchanged in the value
    let pc = wire::parse(&canon, &e.px()).expect("canonical");
    let v = view(&d).or_else(|s| fail(format!("view {:02x}", code), s))?;
    for (n, got) in &v {
        let mut exp = vec![];
        if *n == "algs" {
            let (mut t, mut i) = (None, 0);
            for f in &pc.f {
                if f.name == "alg_type" {
                    t = Some(canon[f.off]);
                }
                if f.name == "alg_sel" {
                    exp.push(t.unwrap());
                    exp.extend_from_slice(&canon[f.off..f.off + 2]);
                    i += 1;
                }
            }
            ensure!(i == pc.p1 as usize, "alg count", "{}", i);
        } else {
            for f in &pc.f {
                if f.name == *n {
                    exp.extend_from_slice(&canon[f.off..f.off + f.len]);
                }
            }
        }
        // a field absent from this message may hold any default in the value
        let absent = exp.is_empty()
            && !matches!(
                *n,
                "cert" | "opaque" | "hint" | "context" | "payload" | "ext" | "digest" | "vendor_id"
            );
        if absent {
            continue;
        }
        ensure!(
            *got == exp,
            format!("field {:02x} {}", code, n),
            "got {} want {} in {} ({:?})",
            hex(got),
            hex(&exp),
            hex(&b),
            e
        );
    }
    // and re-encoding gives the canonical bytes
    let mut buf = vec![0xa5u8; BUF];
    let (r, u) = encode(x, &d, code, b[0], &mut buf);
    let out = match r {
        Ok(n) => {
            ensure!(
                n == u,
                format!("encode count {:02x}", code),
                "returned {} wrote {}",
                n,
                u
            );
            gen_mask(&buf[..n], &e)
        }
        Err(_) => {
            return fail(
                format!("encode {:02x}", code),
                format!("{:?} {}", e, hex(&b)),
            )
        }
    };
    let exp = match code {
        ENCAP_REQUEST | DELIVER_ENCAP | ENCAP_RESPONSE_ACK => {
            canon[..out.len().min(canon.len())].to_vec()
        }
        _ => canon.clone(),
    };
    ensure!(
        out == exp,
        format!("bytes {:02x}", code),
        "encoded {} want {} ({:?})",
        hex(&out),
        hex(&exp),
        e
    );
    ensure!(
        buf[u..].iter().all(|x| *x == 0xa5),
        format!("spill {:02x}", code),
        "bytes after the message were written"
    );
    c.nontrivial();
    c.label(code_label(code));
    c.sample(|| {
        format!(
            "{:02x} v{:02x} {} bytes noise={} unknown={}",
            code,
            e.ver,
            b.len(),
            e.noise,
            e.unknown
        )
    });
    Ok(())
}

/// unknown capability/algorithm bits may be kept or dropped by the value type
fn gen_mask(b: &[u8], e: &Env) -> Vec<u8> {
    if wire::parse(b, &e.px()).is_ok()
        && matches!(b[1], GET_CAPABILITIES | NEGOTIATE_ALGORITHMS | CAPABILITIES)
    {
        let raw = b.to_vec();
        let mut m = gen::canonical(b, &e.clone());
        // reserved bytes are compared as they were encoded
        if let Ok(p) = wire::parse(b, &e.px()) {
            for f in &p.f {
                if f.name.starts_with("resv") {
                    m[f.off..f.off + f.len].copy_from_slice(&raw[f.off..f.off + f.len]);
                }
            }
            m[2] = raw[2];
            m[3] = raw[3];
        }
        m
    } else {
        b.to_vec()
    }
}

fn code_label(c: u8) -> &'static str {
    match c {
        GET_VERSION | VERSION => "version",
        GET_CAPABILITIES | CAPABILITIES => "capabilities",
        NEGOTIATE_ALGORITHMS | ALGORITHMS => "algorithms",
        GET_DIGESTS | DIGESTS => "digests",
        GET_CERTIFICATE | CERTIFICATE => "certificate",
        CHALLENGE | CHALLENGE_AUTH => "challenge",
        GET_MEASUREMENTS | MEASUREMENTS => "measurements",
        KEY_EXCHANGE | KEY_EXCHANGE_RSP => "key-exchange",
        FINISH | FINISH_RSP => "finish",
        PSK_EXCHANGE | PSK_EXCHANGE_RSP => "psk-exchange",
        PSK_FINISH | PSK_FINISH_RSP => "psk-finish",
        HEARTBEAT | HEARTBEAT_ACK => "heartbeat",
        KEY_UPDATE | KEY_UPDATE_ACK => "key-update",
        END_SESSION | END_SESSION_ACK => "end-session",
        ERROR => "error",
        VENDOR_REQ | VENDOR_RSP => "vendor",
        GET_ENCAP | ENCAP_REQUEST | DELIVER_ENCAP | ENCAP_RESPONSE_ACK => "encapsulated",
        _ => "other",
    }
}

/// Encoding into every kind of too small buffer fails cleanly.
fn c04_small(c: &mut Case) -> CaseResult {
    let e = Env::gen(c);
    let code = gen_code(c, &e);
    if !has_dec(code) {
        return Ok(());
    }
    let b = gen::message(c, code, &e);
    let mut w = ctx_world(&e);
    let x = &mut w.req.common;
    let d = match decode(x, &b).0 {
        Some(d) => d,
        None => return Ok(()),
    };
    let mut full = vec![0u8; BUF];
    let n = match encode(x, &d, code, b[0], &mut full).0 {
        Ok(n) => n,
        Err(_) => return Ok(()),
    };
    full.truncate(n);
    let sizes: Vec<usize> = if n <= 64 {
        (0..=n).collect()
    } else {
        let mut s: Vec<usize> = (0..24).map(|_| c.usize(n)).collect();
        s.extend_from_slice(&[0, 1, 2, 3, 4, n - 2, n - 1, n]);
        s
    };
    for s in sizes {
        let mut buf = vec![0x5au8; s];
        let (r, u) = encode(x, &d, code, b[0], &mut buf);
        match r {
            Ok(m) => {
                ensure!(
                    s >= n && m == n && u == n && buf[..n] == full[..],
                    format!("short buffer accepted {:02x}", code),
                    "buffer {} message {} returned {}",
                    s,
                    n,
                    m
                );
            }
            Err(_) => {
                ensure!(
                    s < n,
                    format!("exact buffer refused {:02x}", code),
                    "buffer {} message {}",
                    s,
                    n
                );
                ensure!(u <= s, format!("used beyond {:02x}", code), "{} > {}", u, s);
            }
        }
    }
    c.nontrivial();
    c.label(code_label(code));
    Ok(())
}

/// Stand-alone protocol structures.
fn c04_structs(c: &mut Case) -> CaseResult {
    let e = Env::gen(c);
    let mut w = ctx_world(&e);
    let x = &mut w.req.common;
    let mut buf = vec![0u8; BUF];
    match c.below(8) {
        7 => {
            // a certificate chain as it is provisioned and sent
            let h = c.pick(&[32usize, 48, 64]);
            let n = match c.weighted(&[3, 2, 1]) {
                0 => c.len_biased(4096),
                1 => c.range(4080, 4120),
                _ => c.pick(&[5000usize, 0xfff0, 0x10000, 0x12345]),
            };
            let (root, chain) = (c.blob(h), c.blob(n));
            let mut want = ((4 + h + n) as u16).to_le_bytes().to_vec();
            want.extend_from_slice(&[0, 0]);
            want.extend_from_slice(&root);
            want.extend_from_slice(&chain);
            let got = SpdmCertChainBuffer::new(&chain, &root);
            let fits = want.len() <= SPDM_MAX_CERT_CHAIN_BUFFER_SIZE;
            ensure!(
                got.as_ref().map(|x| x.as_ref()) == Some(&want[..]).filter(|_| fits),
                "certificate chain format",
                "{} + {} bytes: {:?}",
                h,
                n,
                got.map(|x| x.data_size)
            );
            c.label(if fits { "certificate chain" } else { "too large a chain" });
        }
        0 => {
            // one measurement block
            let ds = gen::meas_digest_size(e.meas_hash);
            let raw = ds == 0 || c.bool();
            let typ = if raw {
                0x80 | c.below(8) as u8
            } else {
                c.below(5) as u8
            };
            let n = if raw { c.len_biased(1024) } else { ds };
            let v = c.blob(n);
            let b = gen::block(c.byte(), typ, &v);
            let mut r = Reader::init(&b);
            let d = SpdmMeasurementBlockStructure::spdm_read(x, &mut r);
            let d = match d {
                Some(d) => d,
                None => return fail("block refused", hex(&b)),
            };
            ensure!(
                d.index == b[0]
                    && d.measurement_size as usize == n + 3
                    && d.measurement.value_size as usize == n
                    && d.measurement.value[..n] == v[..]
                    && !r.any_left(),
                "block fields",
                "{}",
                hex(&b)
            );
            let mut wr = Writer::init(&mut buf);
            let k = d.spdm_encode(x, &mut wr).unwrap_or(0);
            ensure!(
                k == b.len() && wr.used() == k && buf[..k] == b[..],
                "block bytes",
                "{} {}",
                hex(&buf[..k]),
                hex(&b)
            );
            // the same without a context
            let mut r = Reader::init(&b);
            let d = match SpdmMeasurementBlockStructure::read(&mut r) {
                Some(d) => d,
                None => return fail("block refused by the plain codec", hex(&b)),
            };
            ensure!(
                d.index == b[0]
                    && d.measurement_size as usize == n + 3
                    && d.measurement.value_size as usize == n
                    && d.measurement.value[..n] == v[..]
                    && r.used() == b.len(),
                "block fields of the plain codec",
                "{}",
                hex(&b)
            );
            let mut wr = Writer::init(&mut buf);
            let k = d.encode(&mut wr).unwrap_or(0);
            ensure!(
                k == b.len() && wr.used() == k && buf[..k] == b[..],
                "block bytes of the plain codec",
                "{} {}",
                hex(&buf[..k]),
                hex(&b)
            );
            c.label("measurement block");
        }
        1 => {
            let n = c.range(0, 2);
            let l = gen_version_list(c, n);
            let b = enc_list(&l);
            let mut r = Reader::init(&b);
            let d = match SecuredMessageVersionList::spdm_read(x, &mut r) {
                Some(d) => d,
                None => return fail("version list refused", hex(&b)),
            };
            ensure!(
                d.version_count as usize == n && !r.any_left(),
                "version list fields",
                "{}",
                hex(&b)
            );
            for i in 0..n {
                let v = &d.versions_list[i];
                ensure!(
                    (
                        v.major_version,
                        v.minor_version,
                        v.update_version_number,
                        v.alpha
                    ) == (l[i].1 >> 4, l[i].1 & 15, l[i].0 >> 4, l[i].0 & 15),
                    "version nibbles",
                    "{:?} {:?}",
                    v,
                    l[i]
                );
            }
            let mut wr = Writer::init(&mut buf);
            let k = d.spdm_encode(x, &mut wr).unwrap_or(0);
            ensure!(
                k == b.len() && buf[..k] == b[..],
                "version list bytes",
                "{} {}",
                hex(&buf[..k]),
                hex(&b)
            );
            c.label("version list");
        }
        2 | 3 => {
            // selection opaque data (responder -> requester)
            let v = (c.byte(), c.byte());
            let mut b = sec_header(e.ver, 1);
            b.extend(element(&[1, 0, v.0, v.1]));
            let d = match SecuredMessageDMTFVersionSelection::spdm_read(x, &mut Reader::init(&b)) {
                Some(d) => d,
                None => return fail("selection refused", hex(&b)),
            };
            let s = &d.opaque_element_dmtf_version_selection_list[0].selected_version;
            ensure!(
                (
                    s.update_version_number,
                    s.alpha,
                    s.major_version,
                    s.minor_version
                ) == (v.0 >> 4, v.0 & 15, v.1 >> 4, v.1 & 15),
                "selection fields",
                "{}",
                hex(&b)
            );
            let mut wr = Writer::init(&mut buf);
            let k = d.spdm_encode(x, &mut wr).unwrap_or(0);
            ensure!(
                k == b.len() && wr.used() == k && buf[..k] == b[..],
                "selection bytes",
                "{} {}",
                hex(&buf[..k]),
                hex(&b)
            );
            c.label("version selection");
        }
        4 | 5 => {
            // supported list opaque data (requester -> responder)
            let n = c.range(0, 2);
            let l = gen_version_list(c, n);
            let mut b = sec_header(e.ver, 1);
            let mut el = vec![1u8, 1];
            el.extend(enc_list(&l));
            b.extend(element(&el));
            let d = match SecuredMessageDMTFSupportedVersion::spdm_read(x, &mut Reader::init(&b)) {
                Some(d) => d,
                None => return fail("supported refused", hex(&b)),
            };
            let got = &d.opaque_element_dmtf_supported_version_list[0].secured_msg_vers;
            ensure!(
                got.version_count as usize == n,
                "supported count",
                "{}",
                hex(&b)
            );
            let mut wr = Writer::init(&mut buf);
            let k = d.spdm_encode(x, &mut wr).unwrap_or(0);
            ensure!(
                k == b.len() && wr.used() == k && buf[..k] == b[..],
                "supported bytes",
                "{} {}",
                hex(&buf[..k]),
                hex(&b)
            );
            c.label("supported versions");
        }
        _ => {
            let n = c.len_biased(1024);
            let body = c.blob(n);
            let mut b = (n as u16).to_le_bytes().to_vec();
            b.extend(&body);
            let mut r = Reader::init(&b);
            let d = match SpdmOpaqueStruct::spdm_read(x, &mut r) {
                Some(d) => d,
                None => return fail("opaque refused", hex(&b)),
            };
            ensure!(
                d.data_size as usize == n && d.data[..n] == body[..] && r.used() == b.len(),
                "opaque fields",
                "{}",
                n
            );
            let mut wr = Writer::init(&mut buf);
            let k = d.spdm_encode(x, &mut wr).unwrap_or(0);
            ensure!(
                k == b.len() && buf[..k] == b[..],
                "opaque bytes",
                "{} {}",
                k,
                b.len()
            );
            c.label("opaque");
        }
    }
    c.nontrivial();
    Ok(())
}

/// (update/alpha byte, major/minor byte)
pub fn gen_version_list(c: &mut Case, n: usize) -> Vec<(u8, u8)> {
    (0..n).map(|_| (c.byte(), c.byte())).collect()
}
pub fn enc_list(l: &[(u8, u8)]) -> Vec<u8> {
    let mut o = vec![l.len() as u8];
    for v in l {
        o.push(v.0);
        o.push(v.1);
    }
    o
}
/// DSP0277 general opaque data header: id, version, elements, reserved
pub fn sec_header(ver: u8, n: u8) -> Vec<u8> {
    if ver >= 0x12 {
        return vec![n, 0, 0, 0];
    }
    let mut b = 0x444D_5446u32.to_le_bytes().to_vec();
    b.extend_from_slice(&[1, n, 0, 0]);
    b
}
/// DMTF element: id 0, vendor len 0, data length, data, padded to 4
pub fn element(data: &[u8]) -> Vec<u8> {
    let mut b = vec![0, 0];
    b.extend_from_slice(&(data.len() as u16).to_le_bytes());
    b.extend_from_slice(data);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    b
}

// ------------------------------------------------------------------ C03

fn total(c: &mut Case, e: &Env, b: &[u8]) -> CaseResult {
    let mut w = ctx_world(e);
    let x = &mut w.req.common;
    let code = b.get(1).copied().unwrap_or(0);
    let (d, used) = decode(x, b);
    ensure!(
        used <= b.len(),
        "used beyond input",
        "{} of {}",
        used,
        b.len()
    );
    let d = match d {
        Some(d) => d,
        None => {
            c.label("refused");
            if used > 2 {
                c.nontrivial();
            }
            return Ok(());
        }
    };
    c.nontrivial();
    c.label("accepted");
    c.label(code_label(code));
    let v1 = view(&d).unwrap_or_default();
    // only the consumed bytes matter; and all of them do
    let (d2, u2) = decode(x, &b[..used]);
    match d2 {
        Some(d2) => {
            let v2 = view(&d2).unwrap_or_default();
            // vendor error data takes what is there
            if !(code == ERROR) {
                ensure!(
                    v1 == v2 && u2 == used,
                    format!("prefix {:02x}", code),
                    "different on its own {} bytes",
                    used
                );
            }
        }
        None => {
            return fail(
                format!("prefix refused {:02x}", code),
                format!("{} {:?}", hex(b), e),
            )
        }
    }
    if used > 0 && code != ERROR {
        let k = if c.bool() { used - 1 } else { c.usize(used) };
        ensure!(
            decode(x, &b[..k]).0.is_none(),
            format!("truncated accepted {:02x}", code),
            "{} of {} bytes of {} {:?}",
            k,
            used,
            hex(b),
            e
        );
    }
    // re-encoding ends with a result whatever the buffer size
    let mut buf = vec![0u8; BUF];
    let (r, u) = encode(x, &d, code, b[0], &mut buf);
    if let Ok(n) = r {
        ensure!(
            n == u,
            format!("encode count {:02x}", code),
            "returned {} wrote {} for {}",
            n,
            u,
            hex(b)
        );
        for s in [n.saturating_sub(1), n / 2, c.usize(n + 1)].iter() {
            let mut small = vec![0u8; *s];
            let (r, u) = encode(x, &d, code, b[0], &mut small);
            ensure!(u <= *s, "small used", "{} {}", u, s);
            if let Ok(m) = r {
                ensure!(
                    m <= *s && m == u,
                    format!("short buffer accepted {:02x}", code),
                    "{} into {}",
                    m,
                    s
                );
            }
        }
    }
    Ok(())
}

fn c03_mutated(c: &mut Case) -> CaseResult {
    let e = Env::gen(c);
    let code = gen_code(c, &e);
    let mut b = gen::message(c, code, &e);
    // decode under a different negotiation now and then
    let e2 = if c.chance(1, 4) {
        Env::gen(c)
    } else {
        e.clone()
    };
    for _ in 0..c.range(1, 4) {
        if b.is_empty() {
            break;
        }
        match c.weighted(&[4, 2, 2, 2, 2, 1]) {
            0 => {
                let h = if c.bool() { b.len().min(48) } else { b.len() };
                let i = c.usize(h);
                b[i] = c.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xfe, 0xff]);
            }
            1 => {
                let i = c.usize(b.len());
                b[i] ^= 1 << c.below(8);
            }
            2 => {
                let k = c.usize(b.len() + 1);
                b.truncate(k);
            }
            3 => {
                let n = c.range(1, 40);
                b.extend(c.vec(n));
            }
            4 => {
                let i = c.usize(b.len());
                b.remove(i);
            }
            _ => {
                let i = c.usize(b.len() + 1);
                let x = c.byte();
                b.insert(i, x);
            }
        }
    }
    if c.chance(7, 8) && b.len() > 1 {
        b[1] = code;
    }
    total(c, &e2, &b)
}

fn c03_random(c: &mut Case) -> CaseResult {
    let e = Env::gen(c);
    let code = if c.chance(1, 10) {
        c.byte()
    } else {
        gen_code(c, &e)
    };
    let mut b = vec![c.pick(&[e.ver, 0x10, 0x11, 0x12, 0x13, 0]), code];
    let n = match c.below(4) {
        0 => c.len_biased(40),
        1 => c.len_biased(300),
        2 => c.len_biased(1200),
        _ => c.len_biased(4096),
    };
    let body = match c.below(3) {
        0 => c.blob(n),
        1 => vec![c.byte(); n],
        _ => {
            let m = n.min(64);
            let mut v = c.vec(m);
            v.extend(c.blob(n - m));
            v
        }
    };
    b.extend(body);
    if c.chance(1, 20) {
        let k = c.usize(3);
        b.truncate(k);
    }
    total(c, &e, &b)
}

/// Every count and length field takes extreme values with enough (or just not
/// enough) data behind it.
fn c03_lengths(c: &mut Case) -> CaseResult {
    let e = Env::gen(c);
    let code = c.pick(&[
        VERSION,
        NEGOTIATE_ALGORITHMS,
        ALGORITHMS,
        DIGESTS,
        CERTIFICATE,
        CHALLENGE_AUTH,
        MEASUREMENTS,
        KEY_EXCHANGE,
        KEY_EXCHANGE_RSP,
        PSK_EXCHANGE,
        PSK_EXCHANGE_RSP,
        VENDOR_REQ,
        VENDOR_RSP,
        ERROR,
        FINISH,
    ]);
    let mut b = gen::message(c, code, &e);
    let p = wire::parse(&b, &e.px()).expect("valid");
    let ls: Vec<(usize, usize)> =
        p.f.iter()
            .filter(|f| {
                f.name.ends_with("_len")
                    || f.name.ends_with("_count")
                    || f.name == "length"
                    || f.name == "blocks"
            })
            .map(|f| (f.off, f.len))
            .chain(vec![(2, 1), (3, 1)])
            .collect();
    for _ in 0..c.range(1, 2) {
        let (o, l) = c.pick(&ls);
        let cur: u64 = (0..l).map(|i| (b[o + i] as u64) << (8 * i)).sum();
        let max = (1u64 << (8 * l)) - 1;
        let v = match c.below(6) {
            0 => max,
            1 => max / 2 + 1,
            2 => cur + 1,
            3 => cur.wrapping_sub(1) & max,
            4 => c.pick(&[
                0u64, 32, 33, 64, 65, 255, 256, 512, 513, 1024, 1025, 4000, 4001, 4087, 4088, 4096,
                4097,
            ]),
            _ => c.below(max + 1),
        } & max;
        for i in 0..l {
            b[o + i] = (v >> (8 * i)) as u8;
        }
    }
    match c.below(3) {
        0 => {}
        1 => {
            let n = c.range(0, 5000);
            b.extend(c.blob(n));
        }
        _ => {
            let o = c.pick(&ls).0;
            let n = c.range(0, 200);
            let at = (o + 1).min(b.len());
            let x = c.blob(n);
            b.splice(at + 1.min(b.len() - at)..at + 1.min(b.len() - at), x);
        }
    }
    total(c, &e, &b)
}

/// Opaque-data and measurement sub-structures from arbitrary bytes.
fn c03_parts(c: &mut Case) -> CaseResult {
    let e = Env::gen(c);
    let mut w = ctx_world(&e);
    let x = &mut w.req.common;
    let mut b: Vec<u8> = match c.below(5) {
        0 => {
            let n = c.len_biased(80);
            c.vec(n)
        }
        1 => {
            let k = c.range(0, 4);
            let mut b = sec_header(e.ver, c.byte() % 6);
            for _ in 0..k {
                b.extend(element(&[1, 0, c.byte(), c.byte()]));
            }
            b
        }
        2 => {
            let mut b = sec_header(e.ver, c.byte() % 6);
            for _ in 0..c.range(0, 4) {
                let mut el = vec![1u8, 1];
                let n = c.range(0, 4);
                el.extend(enc_list(&gen_version_list(c, n)));
                b.extend(element(&el));
            }
            b
        }
        3 => {
            let n = c.range(0, 60);
            let mut b = (c.below(1100) as u16).to_le_bytes().to_vec();
            b.extend(c.blob(n));
            b
        }
        _ => {
            let n = c.range(0, 60);
            let v = c.blob(n);
            gen::block(c.byte(), c.byte(), &v)
        }
    };
    for _ in 0..c.below(4) {
        if !b.is_empty() {
            let i = c.usize(b.len());
            b[i] = c.pick(&[0u8, 1, 2, 3, 4, 5, 8, 0x7f, 0x80, 0xff]);
        }
    }
    let mut buf = vec![0u8; BUF];
    let n = b.len();
    macro_rules! one {
        ($t:ty, $l:expr) => {{
            let mut r = Reader::init(&b);
            let d = <$t>::spdm_read(x, &mut r);
            ensure!(r.used() <= n, "used", "{}", $l);
            if let Some(d) = d {
                c.label($l);
                c.nontrivial();
                let mut wr = Writer::init(&mut buf);
                let k = d.spdm_encode(x, &mut wr);
                if let Ok(k) = k {
                    ensure!(
                        k == wr.used(),
                        "parts count",
                        "{} returned {} wrote {} for {}",
                        $l,
                        k,
                        wr.used(),
                        hex(&b)
                    );
                }
                let mut tiny = vec![0u8; c.usize(12)];
                let cap = tiny.len();
                let mut wr = Writer::init(&mut tiny);
                if let Ok(k) = d.spdm_encode(x, &mut wr) {
                    ensure!(
                        k <= cap && k == wr.used(),
                        "parts tiny",
                        "{} {} into {}",
                        $l,
                        k,
                        cap
                    );
                }
            }
        }};
    }
    one!(SecuredMessageDMTFVersionSelection, "selection");
    one!(SecuredMessageDMTFSupportedVersion, "supported");
    one!(SpdmOpaqueStruct, "opaque struct");
    one!(SpdmMeasurementBlockStructure, "measurement block");
    one!(SpdmMeasurementRecordStructure, "measurement record");
    {
        let mut r = Reader::init(&b);
        if let Some(l) = SecuredMessageVersionList::spdm_read(x, &mut r) {
            let mut wr = Writer::init(&mut buf);
            let _ = l.spdm_encode(x, &mut wr);
        }
        ensure!(r.used() <= n, "used", "list");
    }
    // a whole opaque field as a peer could send it
    if n <= 1024 {
        let mut o = SpdmOpaqueStruct::default();
        o.data_size = n as u16;
        o.data[..n].copy_from_slice(&b);
        let _ = o.rsp_get_dmtf_supported_secure_spdm_version_list(x);
        let _ = o.req_get_dmtf_secure_spdm_version_selection(x);
    }
    Ok(())
}

// ------------------------------------------------------------------ C28

fn c28_reader(c: &mut Case) -> CaseResult {
    let n = c.len_biased(40);
    let data = c.blob(n);
    let mut r = Reader::init(&data);
    let mut pos = 0usize;
    let (mut ops, mut bound) = (0, false);
    for _ in 0..c.range(1, 14) {
        ops += 1;
        match c.below(8) {
            0 => {
                let k = c.range(0, n + 3);
                let got = r.take(k);
                if pos + k <= n {
                    ensure!(
                        got == Some(&data[pos..pos + k]),
                        "take",
                        "{:?} at {} of {}",
                        got,
                        pos,
                        n
                    );
                    pos += k;
                } else {
                    bound = true;
                    ensure!(got.is_none(), "take past end", "{:?}", got);
                }
            }
            1 => {
                let got = r.rest();
                ensure!(got == &data[pos..], "rest", "{} at {}", got.len(), pos);
                pos = n;
            }
            2 => {
                let k = c.range(0, n + 3);
                let got = r.sub(k);
                if pos + k <= n {
                    let mut s = match got {
                        Some(s) => s,
                        None => return fail("sub", "refused"),
                    };
                    ensure!(
                        s.left() == k && s.rest() == &data[pos..pos + k],
                        "sub bytes",
                        "{}",
                        k
                    );
                    pos += k;
                } else {
                    bound = true;
                    ensure!(got.is_none(), "sub past end", "{}", k);
                }
            }
            k => {
                let w = [1usize, 2, 3, 4, 8][(k - 3) as usize];
                let got: Option<u64> = match w {
                    1 => u8::read(&mut r).map(|v| v as u64),
                    2 => u16::read(&mut r).map(|v| v as u64),
                    3 => u24::read(&mut r).map(|v| v.get() as u64),
                    4 => u32::read(&mut r).map(|v| v as u64),
                    _ => u64::read(&mut r),
                };
                if pos + w <= n {
                    let exp: u64 = (0..w).map(|i| (data[pos + i] as u64) << (8 * i)).sum();
                    ensure!(
                        got == Some(exp),
                        "int",
                        "width {} {:?} want {:x}",
                        w,
                        got,
                        exp
                    );
                    pos += w;
                } else {
                    bound = true;
                    ensure!(got.is_none(), "int past end", "{:?}", got);
                }
            }
        }
        ensure!(
            r.used() == pos && r.left() == n - pos && r.any_left() == (pos < n),
            "cursor",
            "used {} left {} want {} of {}",
            r.used(),
            r.left(),
            pos,
            n
        );
    }
    if ops >= 3 && bound {
        c.nontrivial();
    }
    Ok(())
}

fn c28_writer(c: &mut Case) -> CaseResult {
    let cap = c.len_biased(40);
    let mut buf = vec![0xEEu8; cap];
    let mut model: Vec<u8> = vec![];
    let (mut ops, mut bound) = (0, false);
    {
        let mut w = Writer::init(&mut buf);
        for _ in 0..c.range(1, 14) {
            ops += 1;
            let before = model.clone();
            let k = c.below(8);
            let (enc, multi): (Vec<u8>, bool) = match k {
                0 | 1 => {
                    let n = c.range(0, cap + 3);
                    (c.blob(n), true)
                }
                2 => (vec![c.byte()], false),
                _ => {
                    let w = [1usize, 2, 3, 4, 8][(k - 3) as usize];
                    (c.vec(w), false)
                }
            };
            let fits = model.len() + enc.len() <= cap;
            let v = enc.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
            let ok: bool = match k {
                0 | 1 => match w.extend_from_slice(&enc) {
                    Some(n) => {
                        ensure!(n == enc.len(), "extend count", "{} for {}", n, enc.len());
                        true
                    }
                    None => false,
                },
                2 => w.push(enc[0]).is_some(),
                _ => {
                    let r = match enc.len() {
                        1 => (v as u8).encode(&mut w),
                        2 => (v as u16).encode(&mut w),
                        3 => u24::new(v as u32).encode(&mut w),
                        4 => (v as u32).encode(&mut w),
                        _ => v.encode(&mut w),
                    };
                    if let Ok(n) = r {
                        ensure!(n == enc.len(), "encode count", "{} for {}", n, enc.len());
                    }
                    r.is_ok()
                }
            };
            ensure!(
                ok == fits,
                "fit",
                "op {} len {} at {} of {}: {}",
                k,
                enc.len(),
                before.len(),
                cap,
                ok
            );
            if ok {
                model.extend_from_slice(&enc);
            } else {
                bound = true;
                // a refused write keeps what was there; nothing but a prefix of it may follow
                let u = w.used();
                ensure!(u >= before.len() && u <= cap, "refused used", "{}", u);
                ensure!(
                    w.used_slice()[..before.len()] == before[..],
                    "refused corrupts",
                    ""
                );
                if multi {
                    ensure!(
                        u == before.len(),
                        "refused slice advanced",
                        "{} -> {}",
                        before.len(),
                        u
                    );
                }
                model = w.used_slice().to_vec();
            }
            ensure!(
                w.used() == model.len()
                    && w.left() == cap - model.len()
                    && w.used_slice() == &model[..],
                "writer state",
                "used {} want {}",
                w.used(),
                model.len()
            );
        }
    }
    ensure!(
        buf[model.len()..].iter().all(|b| *b == 0xEE),
        "spill",
        "bytes after the end changed"
    );
    if ops >= 3 && bound {
        c.nontrivial();
    }
    Ok(())
}

macro_rules! buf_case {
    ($c:expr, $t:ty, $l:expr) => {{
        let c: &mut Case = $c;
        let mut b = Box::new(<$t>::default());
        // find the capacity by the documented refusal
        let mut model: Vec<u8> = vec![];
        let (mut ops, mut bound, mut after) = (0, false, false);
        let cap = {
            let mut p = Box::new(<$t>::default());
            let mut n = 0usize;
            let one = [0u8; 64];
            while p.append_message(&one).is_some() {
                n += 64;
                if n > 1 << 20 {
                    return fail("no bound", $l);
                }
            }
            while p.append_message(&one[..1]).is_some() {
                n += 1;
            }
            ensure!(
                p.as_ref().as_ref().len() == n,
                "capacity",
                "{} {} {}",
                $l,
                p.as_ref().as_ref().len(),
                n
            );
            n
        };
        for _ in 0..c.range(1, 10) {
            ops += 1;
            if c.chance(1, 8) {
                b.reset_message();
                model.clear();
                ensure!(b.as_ref().as_ref().is_empty(), "reset", "{}", $l);
                continue;
            }
            let n = match c.below(4) {
                0 => c.len_biased(64),
                1 => cap - model.len(),
                2 => cap - model.len() + 1,
                _ => c.len_biased(cap + 2),
            };
            let x = c.blob(n);
            let r = b.append_message(&x);
            if model.len() + n <= cap {
                ensure!(
                    r.is_some(),
                    "append refused",
                    "{} {} at {} of {}",
                    $l,
                    n,
                    model.len(),
                    cap
                );
                model.extend_from_slice(&x);
                after |= bound;
            } else {
                bound = true;
                ensure!(
                    r.is_none(),
                    "append past capacity",
                    "{} {} at {} of {}",
                    $l,
                    n,
                    model.len(),
                    cap
                );
            }
            ensure!(
                b.as_ref().as_ref() == &model[..],
                "contents",
                "{} {} bytes",
                $l,
                model.len()
            );
        }
        c.label($l);
        if ops >= 3 && (bound || after) {
            c.nontrivial();
        }
    }};
}

fn c28_buffers(c: &mut Case) -> CaseResult {
    match c.below(9) {
        0 => buf_case!(c, ManagedBufferA, "A"),
        1 => buf_case!(c, ManagedBufferB, "B"),
        2 => buf_case!(c, ManagedBufferC, "C"),
        3 => buf_case!(c, ManagedBufferM, "M"),
        4 => buf_case!(c, ManagedBufferK, "K"),
        5 => buf_case!(c, ManagedBufferF, "F"),
        6 => buf_case!(c, ManagedBufferM1M2, "M1M2"),
        7 => buf_case!(c, ManagedBufferL1L2, "L1L2"),
        _ => buf_case!(c, ManagedBufferTH, "TH"),
    }
    Ok(())
}

fn c28_ints(c: &mut Case) -> CaseResult {
    let v = match c.below(3) {
        0 => c.u64(),
        1 => 1u64 << c.below(64),
        _ => u64::MAX >> c.below(64),
    };
    let mut buf = [0u8; 32];
    {
        let mut w = Writer::init(&mut buf);
        let mut n = 0;
        n += (v as u8).encode(&mut w).unwrap_or(0);
        n += (v as u16).encode(&mut w).unwrap_or(0);
        n += u24::new(v as u32 & 0xff_ffff).encode(&mut w).unwrap_or(0);
        n += (v as u32).encode(&mut w).unwrap_or(0);
        n += v.encode(&mut w).unwrap_or(0);
        ensure!(n == 18 && w.used() == 18, "widths", "{}", n);
    }
    let mut exp = vec![];
    exp.extend_from_slice(&(v as u8).to_le_bytes());
    exp.extend_from_slice(&(v as u16).to_le_bytes());
    exp.extend_from_slice(&(v as u32).to_le_bytes()[..3]);
    exp.extend_from_slice(&(v as u32).to_le_bytes());
    exp.extend_from_slice(&v.to_le_bytes());
    ensure!(
        buf[..18] == exp[..],
        "little endian",
        "{} {}",
        hex(&buf[..18]),
        hex(&exp)
    );
    let mut r = Reader::init(&buf[..18]);
    ensure!(
        u8::read(&mut r) == Some(v as u8)
            && u16::read(&mut r) == Some(v as u16)
            && u24::read(&mut r).map(|x| x.get()) == Some(v as u32 & 0xff_ffff)
            && u32::read(&mut r) == Some(v as u32)
            && u64::read(&mut r) == Some(v)
            && !r.any_left(),
        "int round trip",
        "{:x}",
        v
    );
    let w = (v as u128) << 64 | c.u64() as u128;
    let mut b = [0u8; 16];
    {
        let mut wr = Writer::init(&mut b);
        ensure!(w.encode(&mut wr).unwrap_or(0) == 16, "u128 width", "");
    }
    ensure!(
        b == w.to_le_bytes() && u128::read_bytes(&b) == Some(w),
        "u128",
        "{:x}",
        w
    );
    c.nontrivial();
    Ok(())
}
