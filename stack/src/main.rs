#![allow(dead_code)]
mod fsm;
#[path = "../../core/src/g.rs"]
mod g;
mod proxy;
mod txm;
mod ua;
mod wire;
fn main() {
    let mut v = vec![];
    v.extend(fsm::props());
    v.extend(proxy::props());
    v.extend(txm::props());
    v.extend(ua::props());
    v.extend(wire::props());
    vlib::main(v)
}
