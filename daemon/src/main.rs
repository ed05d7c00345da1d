#![allow(dead_code)]
#[path = "/repo/bins/siphond/src/b2bua_state.rs"]
mod b2bua_state;
#[path = "/repo/bins/siphond/src/config.rs"]
mod config;
#[path = "/repo/bins/siphond/src/dispatcher.rs"]
mod dispatcher;
mod ep;
#[path = "/repo/bins/siphond/src/handlers/mod.rs"]
mod handlers;
#[path = "/repo/bins/siphond/src/invite_state.rs"]
mod invite_state;
#[path = "/repo/bins/siphond/src/proxy_state.rs"]
mod proxy_state;
#[path = "/repo/bins/siphond/src/proxy_utils.rs"]
mod proxy_utils;
#[path = "/repo/bins/siphond/src/sdp_utils.rs"]
mod sdp_utils;
#[path = "/repo/bins/siphond/src/services.rs"]
mod services;
#[path = "../../core/src/g.rs"]
mod g;
fn main() {
    vlib::main(ep::props())
}
