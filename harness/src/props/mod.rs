//! One module per property (or family).
use crate::engine::Prop;
pub mod auth;
pub mod bytes;
pub mod cert;
pub mod codec;
pub mod nego;
pub mod life;
pub mod state;
pub mod opaque;
pub mod rec;
pub mod refuse;
pub mod equal;
pub mod fault;
pub mod reinit;
pub mod transport;
pub mod x509;
pub mod random;
pub mod robust;
pub mod session;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(codec::props());
    v.extend(nego::props());
    v.extend(cert::props());
    v.extend(auth::props());
    v.extend(session::props());
    v.extend(rec::props());
    v.extend(opaque::props());
    v.extend(refuse::props());
    v.extend(equal::props());
    v.extend(fault::props());
    v.extend(reinit::props());
    v.extend(transport::props());
    v.extend(x509::props());
    v.extend(random::props());
    v.extend(robust::props());
    v.extend(life::props());
    v.extend(state::props());
    v
}
