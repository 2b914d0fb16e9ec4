//! Requester operations used in generated histories.

use crate::engine::Case;
use crate::world::World;
use codec::Codec;
use spdmlib::error::SpdmResult;
use spdmlib::message::*;
use spdmlib::protocol::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Init,
    Digest(Option<usize>),
    Cert(Option<usize>, u8),
    Challenge(u8, u8),
    /// session, slot, signed, operation (0 total, 0xff all, else index), new spec flags
    Meas(Option<usize>, u8, bool, u8),
    Ke(u8, u8),
    Psk(u8, Vec<u8>),
    Heartbeat(usize),
    Update(usize, u8),
    End(usize),
    Vendor(Option<usize>, u16, Vec<u8>, Vec<u8>),
    App(usize, Vec<u8>),
}

pub fn summary(v: u8) -> SpdmMeasurementSummaryHashType {
    SpdmMeasurementSummaryHashType::read_bytes(&[v]).unwrap()
}
pub fn hint(b: &[u8]) -> SpdmPskHintStruct {
    let mut h = SpdmPskHintStruct::default();
    h.data_size = b.len() as u16;
    h.data[..b.len()].copy_from_slice(b);
    h
}

pub fn vendor_id(b: &[u8]) -> VendorIDStruct {
    let mut v = VendorIDStruct {
        len: b.len() as u8,
        vendor_id: [0; MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN],
    };
    v.vendor_id[..b.len()].copy_from_slice(b);
    v
}
pub fn std_id(v: u16) -> RegistryOrStandardsBodyID {
    RegistryOrStandardsBodyID::read_bytes(&v.to_le_bytes()).unwrap()
}
pub fn vendor_payload(b: &[u8]) -> Box<VendorDefinedReqPayloadStruct> {
    let mut p = Box::new(VendorDefinedReqPayloadStruct {
        req_length: b.len() as u16,
        vendor_defined_req_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
    });
    p.vendor_defined_req_payload[..b.len()].copy_from_slice(b);
    p
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    None,
    Session(u32),
    Meas(u8, u8, Vec<u8>),
    Vendor(Vec<u8>),
    App(Vec<u8>),
}

impl World {
    pub fn digest(&mut self, s: Option<u32>) -> SpdmResult {
        self.rq(|r| r.send_receive_spdm_digest(s))
    }
    pub fn cert(&mut self, s: Option<u32>, slot: u8) -> SpdmResult {
        self.rq(|r| r.send_receive_spdm_certificate(s, slot))
    }
    pub fn challenge(&mut self, slot: u8, sum: u8) -> SpdmResult {
        self.rq(|r| r.send_receive_spdm_challenge(slot, summary(sum)))
    }
    /// (total / count, blocks, record bytes)
    pub fn meas(
        &mut self,
        s: Option<u32>,
        slot: u8,
        signed: bool,
        op: u8,
    ) -> SpdmResult<(u8, u8, Vec<u8>)> {
        let attr = if signed {
            SpdmMeasurementAttributes::SIGNATURE_REQUESTED
        } else {
            SpdmMeasurementAttributes::empty()
        };
        let op = SpdmMeasurementOperation::read_bytes(&[op]).unwrap();
        let mut total = 0u8;
        let mut rec = Box::new(SpdmMeasurementRecordStructure::default());
        self.rq(|r| r.send_receive_spdm_measurement(s, slot, attr, op, &mut total, &mut rec))?;
        let n = rec.measurement_record_length.get() as usize;
        Ok((
            total,
            rec.number_of_blocks,
            rec.measurement_record_data[..n.min(rec.measurement_record_data.len())].to_vec(),
        ))
    }
    /// Start a session, either by the one call or by the steps it is made of.
    pub fn ke(&mut self, slot: u8, sum: u8) -> SpdmResult<u32> {
        self.kes += 1;
        let chains = self.cfg.rsp_chain.iter().chain(self.cfg.req_chain.iter());
        if (self.kes + chains.flatten().map(|c| c.len()).sum::<usize>()) % 2 == 0 {
            return self.rq(|r| r.start_session(false, slot, summary(sum)));
        }
        self.rq(|r| {
            let id = r.send_receive_spdm_key_exchange(slot, summary(sum))?;
            let asked = match r.common.get_immutable_session_via_id(id) {
                Some(s) => !s.get_mut_auth_requested().is_empty(),
                None => false,
            };
            #[cfg(feature = "mutauth")]
            if let Err(e) = r.session_based_mutual_authenticate(id) {
                if let Some(s) = r.common.get_session_via_id(id) {
                    let _ = s.teardown(id);
                }
                return Err(e);
            }
            let slot = r.common.runtime_info.get_local_used_cert_chain_slot_id();
            r.send_receive_spdm_finish(if asked { Some(slot) } else { None }, id)?;
            Ok(id)
        })
    }
    pub fn psk(&mut self, sum: u8, h: &[u8]) -> SpdmResult<u32> {
        let h = hint(h);
        self.rq(|r| {
            let id = r.send_receive_spdm_psk_exchange(summary(sum), Some(&h))?;
            // without a responder context the session is already established
            if r.common.negotiate_info.rsp_capabilities_sel.bits() & crate::world::RS_PSK_NOCTX == 0
            {
                r.send_receive_spdm_psk_finish(id)?;
            }
            Ok(id)
        })
    }
    pub fn vendor(
        &mut self,
        s: Option<u32>,
        id: u16,
        vid: &[u8],
        pl: &[u8],
    ) -> SpdmResult<Vec<u8>> {
        let p = vendor_payload(pl);
        let v = vendor_id(vid);
        let r = self.rq(|r| r.send_spdm_vendor_defined_request(s, std_id(id), v, *p))?;
        let n = (r.rsp_length as usize).min(r.vendor_defined_rsp_payload.len());
        Ok(r.vendor_defined_rsp_payload[..n].to_vec())
    }
    pub fn app(&mut self, s: u32, m: &[u8]) -> SpdmResult<Vec<u8>> {
        let mut b = vec![0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
        let n = self.rq(|r| {
            r.send_secured_message(s, m, true)?;
            r.receive_secured_message(s, &mut b, false)
        })?;
        Ok(b[..n].to_vec())
    }
    pub fn heartbeat(&mut self, s: u32) -> SpdmResult {
        self.rq(|r| r.send_receive_spdm_heartbeat(s))
    }
    pub fn update(&mut self, s: u32, op: u8) -> SpdmResult {
        let op = SpdmKeyUpdateOperation::read_bytes(&[op]).unwrap();
        self.rq(|r| r.send_receive_spdm_key_update(s, op))
    }
    pub fn end(&mut self, s: u32) -> SpdmResult {
        self.rq(|r| r.end_session(s))
    }
    /// Established sessions as the requester sees them.
    pub fn open_sessions(&self) -> Vec<u32> {
        self.req_sessions()
            .into_iter()
            .filter(|s| s.1 == crate::world::SpdmSessionStateN::Established)
            .map(|s| s.0)
            .collect()
    }
    fn sid(&self, s: &Option<usize>) -> Option<Option<u32>> {
        match s {
            None => Some(None),
            Some(i) => {
                let v = self.open_sessions();
                if v.is_empty() {
                    None
                } else {
                    Some(Some(v[i % v.len()]))
                }
            }
        }
    }
    /// Run an action; None when it does not apply in this state.
    pub fn act(&mut self, a: &Act) -> Option<SpdmResult<Out>> {
        Some(match a {
            Act::Init => self.init().map(|_| Out::None),
            Act::Digest(s) => {
                let s = self.sid(s)?;
                self.digest(s).map(|_| Out::None)
            }
            Act::Cert(s, slot) => {
                let s = self.sid(s)?;
                self.cert(s, *slot).map(|_| Out::None)
            }
            Act::Challenge(slot, sum) => self.challenge(*slot, *sum).map(|_| Out::None),
            Act::Meas(s, slot, sig, op) => {
                let s = self.sid(s)?;
                self.meas(s, *slot, *sig, *op)
                    .map(|x| Out::Meas(x.0, x.1, x.2))
            }
            Act::Ke(slot, sum) => self.ke(*slot, *sum).map(Out::Session),
            Act::Psk(sum, h) => self.psk(*sum, h).map(Out::Session),
            Act::Heartbeat(s) => {
                let s = self.sid(&Some(*s))??;
                self.heartbeat(s).map(|_| Out::None)
            }
            Act::Update(s, op) => {
                let s = self.sid(&Some(*s))??;
                self.update(s, *op).map(|_| Out::None)
            }
            Act::End(s) => {
                let s = self.sid(&Some(*s))??;
                self.end(s).map(|_| Out::None)
            }
            Act::Vendor(s, id, vid, p) => {
                let s = self.sid(s)?;
                self.vendor(s, *id, vid, p).map(Out::Vendor)
            }
            Act::App(s, m) => {
                let s = self.sid(&Some(*s))??;
                self.app(s, m).map(Out::App)
            }
        })
    }
}

/// An operation inside or outside sessions, for mixed histories.
pub fn gen_act(c: &mut Case, mctp: bool, meas: &[u8]) -> Act {
    let sess = |c: &mut Case| if c.bool() { Some(c.usize(4)) } else { None };
    match c.weighted(&[2, 2, 2, 3, 2, 2, 2, 3, 2, 2, if mctp { 3 } else { 0 }]) {
        0 => Act::Digest(sess(c)),
        1 => Act::Cert(sess(c), 0),
        2 => Act::Challenge(0, c.pick(&[0u8, 1, 0xff])),
        3 => {
            let op = gen_meas_op(c, meas);
            Act::Meas(sess(c), 0, c.bool(), op)
        }
        4 => Act::Ke(0, c.pick(&[0u8, 1, 0xff])),
        5 => {
            let n = c.range(0, 32);
            Act::Psk(c.pick(&[0u8, 1, 0xff]), c.blob(n))
        }
        6 => Act::Heartbeat(c.usize(4)),
        7 => Act::Update(c.usize(4), c.range(1, 2) as u8),
        8 => Act::End(c.usize(4)),
        9 => {
            let n = c.len_biased(200);
            Act::Vendor(sess(c), c.below(9) as u16, vec![1, 2], c.blob(n))
        }
        _ => {
            let n = c.len_biased(300).max(1);
            Act::App(c.usize(4), c.blob(n))
        }
    }
}
pub fn gen_meas_op(c: &mut Case, meas: &[u8]) -> u8 {
    match c.weighted(&[1, 2, if meas.is_empty() { 0 } else { 3 }]) {
        0 => 0,
        1 => 0xff,
        _ => c.pick(meas),
    }
}
