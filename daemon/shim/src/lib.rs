//! Stand-in for sip-transport under the daemon's handlers: everything is the real
//! crate except that whatever would leave over a socket is recorded instead.
pub use real::*;
use std::cell::RefCell;
use std::net::SocketAddr;
pub mod pool {
    pub use real::pool::*;
    pub struct TlsClientConfig;
}
thread_local! {
    static SENT: RefCell<Vec<(&'static str, SocketAddr, Vec<u8>)>> = const { RefCell::new(vec![]) };
}
/// What was sent on this thread since the last call.
pub fn take_sent() -> Vec<(&'static str, SocketAddr, Vec<u8>)> {
    SENT.with(|s| std::mem::take(&mut *s.borrow_mut()))
}
fn put(k: &'static str, to: &SocketAddr, data: &[u8]) {
    SENT.with(|s| s.borrow_mut().push((k, *to, data.to_vec())));
}
pub async fn send_udp(_socket: &tokio::net::UdpSocket, to: &SocketAddr, data: &[u8]) -> anyhow::Result<()> {
    put("udp", to, data);
    Ok(())
}
pub async fn send_tcp(to: &SocketAddr, data: &[u8]) -> anyhow::Result<()> {
    put("tcp", to, data);
    Ok(())
}
pub async fn send_stream(_t: TransportKind, _w: &tokio::sync::mpsc::Sender<bytes::Bytes>, _d: bytes::Bytes) -> anyhow::Result<()> {
    Ok(())
}
