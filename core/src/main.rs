#![allow(dead_code)]
mod auth;
mod bodies;
mod inject;
mod xml;
mod dialog;
mod dns;
mod fuzz;
mod g;
mod prefs;
mod privacy;
mod rate;
mod oa;
mod observe;
mod sdp;
mod timers;
mod registrar;
mod hdr;
mod msg;
mod stir;
mod uri;
fn main() {
    let mut v = vec![];
    v.extend(msg::props());
    v.extend(uri::props());
    v.extend(hdr::props());
    v.extend(auth::props());
    v.extend(rate::props());
    v.extend(registrar::props());
    v.extend(dialog::props());
    v.extend(timers::props());
    v.extend(sdp::props());
    v.extend(oa::props());
    v.extend(dns::props());
    v.extend(stir::props());
    v.extend(fuzz::props());
    v.extend(bodies::props());
    v.extend(inject::props());
    v.extend(prefs::props());
    v.extend(privacy::props());
    v.extend(observe::props());
    vlib::main(v)
}
