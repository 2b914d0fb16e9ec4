//! An active attacker on the wire who can also see and re-protect what the
//! parties send (the audit rebuilds their keys).

use crate::audit::{Audit, Msg};
use crate::toy::{self, Party};
use crate::wire;
use crate::world::World;
use std::cell::RefCell;
use std::rc::Rc;

pub type Shared = Rc<RefCell<Audit>>;

/// Watch every frame; `f` may replace it (None: pass it on unchanged).
/// `f` sees the audit after it was fed the original frame, and the message the
/// frame carried (None when it could not be opened).
pub fn tap(
    w: &World,
    a: &Shared,
    mut f: impl FnMut(&mut Audit, Party, Option<&Msg>, &[u8]) -> Option<Vec<Vec<u8>>> + 'static,
) {
    let a = a.clone();
    w.sh.borrow_mut().mitm = Some(Box::new(move |p, _i, b| {
        let mut a = a.borrow_mut();
        a.dhe = toy::with(|t| t.dhe.clone());
        let n = a.msgs.len();
        a.feed(p, b);
        let m = if a.msgs.len() > n {
            Some(a.msgs[n].clone())
        } else {
            None
        };
        f(&mut a, p, m.as_ref(), b).unwrap_or_else(|| vec![b.to_vec()])
    }));
}

/// Only watch.
pub fn watch(w: &World, a: &Shared) {
    tap(w, a, |_, _, _, _| None);
}

/// The frame that carries `bytes` in place of the message `m`, under the same
/// record protection.
pub fn reframe(a: &Audit, m: &Msg, bytes: &[u8]) -> Vec<u8> {
    match (&m.dir, m.session) {
        (Some(d), Some(id)) => {
            let aead = a
                .sess
                .iter()
                .rev()
                .find(|s| s.id == id)
                .map(|s| s.neg.aead)
                .unwrap_or(2);
            wire::frame(
                a.tr,
                true,
                &wire::seal_record(
                    a.tr,
                    aead,
                    &d.key,
                    &d.iv,
                    id,
                    d.seq,
                    &wire::app_wrap(a.tr, m.app, bytes),
                ),
            )
        }
        _ => wire::frame(a.tr, false, bytes),
    }
}

/// Rewrite frames before the audit sees them (it is fed what is delivered).
/// `f` returns the frames to deliver instead, or None.
pub fn tap_pre(
    w: &World,
    a: &Shared,
    mut f: impl FnMut(&mut Audit, Party, &[u8]) -> Option<Vec<Vec<u8>>> + 'static,
) {
    let a = a.clone();
    w.sh.borrow_mut().mitm = Some(Box::new(move |p, _i, b| {
        let mut a = a.borrow_mut();
        a.dhe = toy::with(|t| t.dhe.clone());
        let out = f(&mut a, p, b).unwrap_or_else(|| vec![b.to_vec()]);
        for o in &out {
            a.feed(p, o);
        }
        out
    }));
}

/// Give a changed KEY_EXCHANGE_RSP a signature by `key` and (outside clear
/// handshakes) an HMAC that fit it, as a responder that sent it would.
pub fn resign_ke(a: &Audit, rsp: &[u8], key: u64) -> Option<Vec<u8>> {
    let mut v = rsp.to_vec();
    let h = a.neg.h().size();
    let clear = a.neg.clear();
    let sl = toy::sig_size(a.neg.asym)?;
    let hl = if clear { 0 } else { h };
    let so = v.len().checked_sub(sl + hl)?;
    let mut x = a.clone();
    x.feed(Party::Rsp, &wire::frame(a.tr, false, &v));
    let s = x.sess.last()?.clone();
    let n = s.k.len().checked_sub(sl + hl)?;
    let mut t = s.a.clone();
    t.extend_from_slice(&s.ct);
    t.extend_from_slice(&s.k[..n]);
    let sig = toy::sign_with(
        key,
        a.neg.hash,
        a.neg.asym,
        &crate::audit::sign_data(
            a.neg.ver,
            a.neg.h(),
            "responder-key_exchange_rsp signing",
            &t,
        ),
    )?;
    v[so..so + sl].copy_from_slice(&sig);
    if !clear {
        let mut x = a.clone();
        x.feed(Party::Rsp, &wire::frame(a.tr, false, &v));
        let s = x.sess.last()?.clone();
        let n = s.k.len() - hl;
        let mut t = s.a.clone();
        t.extend_from_slice(&s.ct);
        t.extend_from_slice(&s.k[..n]);
        let m = s.hmac(Party::Rsp, &t);
        v[so + sl..].copy_from_slice(&m);
    }
    Some(v)
}
