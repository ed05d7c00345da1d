//! C26, C31: real loopback sockets. Stream framing in the TCP server and in pooled client
//! connections, and what the connection pool promises its users.
use bytes::Bytes;
use sip_observe::{OpLabel, StageLabel, TransportLabel, TransportMetrics};
use sip_transport::pool::ConnectionPool;
use sip_transport::{InboundPacket, TransportKind};
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Once};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpSocket, TcpStream, UdpSocket};
use tokio::sync::mpsc;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

thread_local! {
    /// what the session of this thread has done: reads, framing errors
    static READS: Cell<u64> = const { Cell::new(0) };
    static ERRORS: Cell<u64> = const { Cell::new(0) };
    static NET: RefCell<Option<Net>> = const { RefCell::new(None) };
}
struct Count;
impl TransportMetrics for Count {
    fn on_packet_received(&self, _: TransportLabel) {
        READS.with(|r| r.set(r.get() + 1));
    }
    fn on_packet_sent(&self, _: TransportLabel) {}
    fn on_error(&self, _: TransportLabel, s: StageLabel) {
        if matches!(s, StageLabel::FramingError | StageLabel::BufferOverflow) {
            ERRORS.with(|r| r.set(r.get() + 1));
        }
    }
    fn on_accept(&self, _: TransportLabel) {}
    fn on_connect(&self, _: TransportLabel) {}
    fn on_latency(&self, _: TransportLabel, _: OpLabel, _: u64) {}
}
fn init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = sip_observe::set_transport_metrics(Arc::new(Count));
        sip_transport::set_stream_rate_limit(sip_ratelimit::RateLimitConfig::disabled());
        sip_transport::set_udp_rate_limit(sip_ratelimit::RateLimitConfig::disabled());
    });
}
/// A different loopback address every time, so that no address pair is ever short of ports.
fn fresh_ip() -> std::net::Ipv4Addr {
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    std::net::Ipv4Addr::new(127, 16 + (n / 62500 % 200) as u8, (n / 250 % 250) as u8, 1 + (n % 250) as u8)
}
struct Net {
    rt: tokio::runtime::Runtime,
    server: SocketAddr,
    rx: mpsc::Receiver<InboundPacket>,
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().event_interval(1).build().unwrap()
}
/// Runs `f` with this thread's runtime and TCP server.
fn net<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    init();
    NET.with(|n| {
        let mut n = n.borrow_mut();
        let net = n.get_or_insert_with(|| {
            static T: AtomicU64 = AtomicU64::new(0);
            let t = T.fetch_add(1, Ordering::Relaxed);
            let rt = runtime();
            let mut port = 5060;
            loop {
                let server = SocketAddr::from(([127, 1, (t / 250 % 250) as u8, 1 + (t % 250) as u8], port));
                let (tx, rx) = mpsc::channel(4096);
                let task = rt.spawn(async move { sip_transport::run_tcp(&server.to_string(), tx).await });
                let up = rt.block_on(async {
                    for _ in 0..1000 {
                        if TcpStream::connect(server).await.is_ok() && !task.is_finished() {
                            tokio::time::sleep(Duration::from_millis(2)).await;
                            return !task.is_finished();
                        }
                        if task.is_finished() {
                            return false;
                        }
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                    false
                });
                if up {
                    break Net { rt, server, rx };
                }
                port += 1;
                assert!(port < 5300, "no TCP server");
            }
        });
        f(net)
    })
}
async fn until(mut f: impl FnMut() -> bool) -> bool {
    for i in 0..6000 {
        if f() {
            return true;
        }
        if i < 1000 {
            tokio::task::yield_now().await;
        } else {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    false
}

// ---------------------------------------------------------------- streams

const MAX_HEAD: usize = 64 * 1024;
const MAX_BODY: usize = 10 * 1024 * 1024;

fn body(s: &mut Src) -> Vec<u8> {
    match s.below(7) {
        0 => vec![],
        1 => b"\r\n\r\n".to_vec(),
        2 => b"INVITE sip:in@body SIP/2.0\r\nContent-Length: 0\r\n\r\n".to_vec(),
        3 => bytes(s, 1, 30),
        4 => {
            let n = s.urange(1000, 9000);
            vec![*s.pick(b"ab\r\n"); n]
        }
        5 if s.chance(1, 8) => vec![b'z'; s.urange(60_000, 300_000)],
        _ => text(s, 1, 40).into_bytes(),
    }
}
fn length_line(s: &mut Src, n: &str) -> String {
    let name = *s.pick(&["Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH", "l", "L"]);
    let colon = *s.pick(&[":", ": ", ": ", " : ", "\t:\t", ":   ", ":\r\n "]);
    let end = *s.pick(&["", "", "", " ", "\t"]);
    format!("{name}{colon}{n}{end}\r\n")
}
fn other_line(s: &mut Src) -> String {
    match s.below(8) {
        0 => "Subject: folded\r\n l: 7\r\n".into(),
        1 => "Subject: folded\r\n\tContent-Length: 99\r\n".into(),
        2 => "X-Content-Length: 12\r\n".into(),
        3 => "Content-Length-X: 12\r\n".into(),
        4 => "X: Content-Length: 3\r\n".into(),
        5 => "X: l\r\n".into(),
        6 => format!("X-{}: {}\r\n", alnum(s, 1, 5), alnum(s, 0, 20)),
        _ => "Call-ID: a@b\r\n".into(),
    }
}
fn start_line(s: &mut Src) -> String {
    s.pick(&["OPTIONS sip:a@b SIP/2.0\r\n", "SIP/2.0 200 OK\r\n", "INVITE sip:l:5@h SIP/2.0\r\n", "SIP/2.0 200 l: 9\r\n", "x\r\n"]).to_string()
}
fn head(s: &mut Src, lengths: &[String]) -> String {
    let mut lines = s.vec(0, 4, other_line);
    for l in lengths {
        let i = s.idx(lines.len() + 1);
        lines.insert(i, l.clone());
    }
    start_line(s) + &lines.concat()
}
fn message(s: &mut Src) -> Vec<u8> {
    let b = body(s);
    let n = if s.chance(1, 8) { format!("{:0w$}", b.len(), w = s.urange(2, 12)) } else { b.len().to_string() };
    let mut ls = vec![length_line(s, &n)];
    if s.chance(1, 10) {
        ls.push(length_line(s, &b.len().to_string()));
    }
    let mut h = head(s, &ls);
    if s.chance(1, 40) {
        // headers of up to the largest size allowed
        let room = MAX_HEAD - h.len() + 2 - "Pad: \r\n".len() - s.idx(3);
        h += &format!("Pad: {}\r\n", "p".repeat(room));
    }
    let mut v = (h + "\r\n").into_bytes();
    v.extend(b);
    v
}
fn keepalive(s: &mut Src) -> Vec<u8> {
    s.pick(&["\r\n\r\n", "\r\n", "\r\n\r\n\r\n\r\n"]).as_bytes().to_vec()
}
/// Something no message can start with, and why.
fn broken(s: &mut Src) -> (Vec<u8>, &'static str) {
    let n = s.urange(0, 20);
    let (ls, why): (Vec<String>, _) = match s.below(7) {
        0 => (vec![], "no Content-Length"),
        1 => (vec![length_line(s, &n.to_string()), length_line(s, &(n + 1).to_string())], "two lengths"),
        2 => {
            let v = s.pick(&["+5", "-1", "5 5", "0x5", "5;a", "5,5", "five", "5.0", "1e1", "٥"]).to_string();
            (vec![length_line(s, &v)], "no number")
        }
        3 => (vec![length_line(s, "")], "empty"),
        4 => {
            let v = s.pick(&["18446744073709551616", "99999999999999999999999", "18446744073709551617"]).to_string();
            (vec![length_line(s, &v)], "overflow")
        }
        5 => {
            let v = (MAX_BODY as u64 + s.range(1, 1000)).to_string();
            (vec![length_line(s, &v)], "body too large")
        }
        _ => {
            let mut h = head(s, &[]);
            h += &format!("Pad: {}\r\n", "p".repeat(MAX_HEAD + s.idx(10)));
            h += &length_line(s, "0");
            return ((h + "\r\n").into_bytes(), "headers too large");
        }
    };
    let mut v = (head(s, &ls) + "\r\n").into_bytes();
    if s.coin() {
        v.extend(vec![b'x'; n]);
    }
    (v, why)
}
struct Stream {
    all: Vec<u8>,
    frames: Vec<Vec<u8>>,
    why: Option<&'static str>,
    /// ends inside a message
    open: bool,
}
fn stream(s: &mut Src) -> Stream {
    let mut st = Stream { all: vec![], frames: vec![], why: None, open: false };
    for _ in 0..s.urange(0, 5) {
        if s.chance(1, 3) {
            st.all.extend(keepalive(s));
        }
        let m = message(s);
        st.all.extend(&m);
        st.frames.push(m);
    }
    match s.below(4) {
        0 => {
            let (b, why) = broken(s);
            st.all.extend(b);
            st.why = Some(why);
        }
        1 => {
            let m = if s.chance(1, 4) { (head(s, &[format!("l:{MAX_BODY}\r\n")]) + "\r\nsome").into_bytes() } else { message(s) };
            let n = s.urange(1, m.len());
            let cut = &m[..n];
            let whole = n == m.len() && !m.ends_with(b"\r\n\r\nsome");
            if whole {
                st.frames.push(m.clone());
            } else {
                st.open = true;
            }
            st.all.extend(cut);
        }
        2 => st.all.extend(keepalive(s)),
        _ => {}
    }
    st
}
/// Cut points: anywhere, preferably next to line ends.
fn chunks(s: &mut Src, all: &[u8]) -> Vec<Vec<u8>> {
    if all.is_empty() {
        return vec![];
    }
    let ends: Vec<usize> = (0..all.len()).filter(|i| matches!(all[*i], b'\r' | b'\n')).take(400).collect();
    let mut cuts: Vec<usize> = vec![];
    for _ in 0..s.urange(0, 6) {
        let c = if !ends.is_empty() && s.chance(2, 3) { *s.pick(&ends) + s.idx(2) } else { s.idx(all.len()) };
        if c > 0 && c < all.len() {
            cuts.push(c);
        }
    }
    if all.len() < 60 && s.chance(1, 8) {
        cuts = (1..all.len()).collect();
    }
    cuts.sort();
    cuts.dedup();
    let mut v = vec![];
    let mut at = 0;
    for c in cuts.into_iter().chain([all.len()]) {
        v.push(all[at..c].to_vec());
        at = c;
    }
    v
}
fn show(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|b| if b.len() > 120 { format!("{}… ({} bytes)", String::from_utf8_lossy(&b[..80]), b.len()) } else { String::from_utf8_lossy(b).into_owned() }).collect()
}
const SENTINEL: &[u8] = b"OPTIONS sip:last SIP/2.0\r\nContent-Length: 0\r\n\r\n";

fn tcp_server(s: &mut Src, ctx: &mut Ctx) -> R {
    let st = stream(s);
    let cs = chunks(s, &st.all);
    let replies: Vec<Vec<u8>> = s.vec(0, 3, |s| bytes(s, 1, 20));
    ctx.desc(|| format!("chunks {:?}, broken: {:?}, ends inside a message: {}", show(&cs), st.why, st.open));
    ctx.label(st.why.unwrap_or(if st.open { "open end" } else { "whole" }));
    if cs.len() > 1 && !st.frames.is_empty() {
        ctx.nontrivial((&st.all, cs.iter().map(|c| c.len()).collect::<Vec<_>>()));
    }
    net(|n| {
        let (rt, server, rx) = (&n.rt, n.server, &mut n.rx);
        rt.block_on(async {
            while rx.try_recv().is_ok() {}
            let sock = TcpSocket::new_v4().unwrap();
            sock.bind((fresh_ip(), 0).into()).unwrap();
            let mut c = match sock.connect(server).await {
                Ok(c) => c,
                Err(e) => return fail("stream:connect", e.to_string()),
            };
            c.set_nodelay(true).unwrap();
            let me = c.local_addr().unwrap();
            let errors = ERRORS.with(|e| e.get());
            let mut sent_all = true;
            for ch in &cs {
                let before = READS.with(|r| r.get());
                if c.write_all(ch).await.is_err() || !until(|| READS.with(|r| r.get()) != before || ERRORS.with(|e| e.get()) != errors).await {
                    sent_all = false;
                    break;
                }
                if ERRORS.with(|e| e.get()) != errors {
                    sent_all = false;
                    break;
                }
            }
            let mut got: Vec<InboundPacket> = vec![];
            let mut want = st.frames.clone();
            if st.why.is_none() && !st.open {
                want.push(SENTINEL.to_vec());
                let _ = c.write_all(SENTINEL).await;
            }
            while got.len() < want.len() {
                match tokio::time::timeout(Duration::from_secs(if sent_all { 5 } else { 1 }), rx.recv()).await {
                    Ok(Some(p)) => got.push(p),
                    _ => break,
                }
            }
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            while let Ok(p) = rx.try_recv() {
                got.push(p);
            }
            let bytes: Vec<Vec<u8>> = got.iter().map(|p| p.payload().to_vec()).collect();
            ensure!(bytes == want, "stream:frames", "delivered {:?}, expected {:?}", show(&bytes), show(&want));
            for p in &got {
                ensure_eq!((p.transport(), p.peer(), p.local()), (TransportKind::Tcp, me, Some(server)), "stream:origin", "packet");
                ensure!(p.stream().is_some(), "stream:origin", "no way back");
            }
            if let Some(why) = st.why {
                // closed, and nothing more
                let mut buf = [0; 64];
                match tokio::time::timeout(Duration::from_secs(5), c.read(&mut buf)).await {
                    Ok(Ok(0)) | Ok(Err(_)) => {}
                    o => return fail("stream:not-closed", format!("after {why}: {o:?}")),
                }
            } else {
                ensure!(ERRORS.with(|e| e.get()) == errors, "stream:closed", "the server gave up on a sound stream");
                // the way back leads to this connection
                if let Some(p) = got.first() {
                    let mut expect: Vec<u8> = vec![];
                    for r in &replies {
                        expect.extend(r);
                        if sip_transport::send_stream(TransportKind::Tcp, p.stream().unwrap(), Bytes::from(r.clone())).await.is_err() {
                            return fail("stream:reply", "the connection's channel is closed");
                        }
                    }
                    let mut back = vec![0; expect.len()];
                    if tokio::time::timeout(Duration::from_secs(5), c.read_exact(&mut back)).await.is_err() {
                        return fail("stream:reply", "nothing came back");
                    }
                    ensure_eq!(back, expect, "stream:reply", "bytes sent back");
                }
                let mut b = [0; 1];
                match c.try_read(&mut b) {
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    o => return fail("stream:closed", format!("{o:?}")),
                }
            }
            Ok(())
        })
    })
}
fn udp(s: &mut Src, ctx: &mut Ctx) -> R {
    let ps: Vec<Vec<u8>> = s.vec(1, 6, |s| match s.below(4) {
        0 => bytes(s, 0, 40),
        1 => message(s),
        2 => vec![b'u'; s.urange(1000, 65_000)],
        _ => keepalive(s),
    });
    let ps: Vec<Vec<u8>> = ps.into_iter().filter(|p| p.len() <= 65_000).collect();
    let who: Vec<usize> = ps.iter().map(|_| s.idx(2)).collect();
    ctx.desc(|| format!("{:?} from {who:?}", show(&ps)));
    if ps.len() > 1 {
        ctx.nontrivial((&ps, &who));
    }
    init();
    thread_local!(static RT: tokio::runtime::Runtime = runtime());
    RT.with(|rt| {
        rt.block_on(async {
            let srv = Arc::new(UdpSocket::bind("127.0.0.1:0").await.unwrap());
            let at = srv.local_addr().unwrap();
            let (tx, mut rx) = mpsc::channel(64);
            let task = tokio::spawn(sip_transport::run_udp(srv, tx));
            let cl = [UdpSocket::bind("127.0.0.1:0").await.unwrap(), UdpSocket::bind("127.0.0.2:0").await.unwrap()];
            for (p, w) in ps.iter().zip(&who) {
                if let Err(e) = sip_transport::send_udp(&cl[*w], &at, p).await {
                    return fail("udp:send", e.to_string());
                }
                match tokio::time::timeout(Duration::from_secs(5), rx.recv()).await {
                    Ok(Some(g)) => {
                        ensure!(g.payload().as_ref() == &p[..], "udp:payload", "{:?} for {:?}", show(&[g.payload().to_vec()]), show(std::slice::from_ref(p)));
                        ensure_eq!((g.transport(), g.peer(), g.local(), g.stream().is_some()), (TransportKind::Udp, cl[*w].local_addr().unwrap(), Some(at), false), "udp:origin", "packet");
                    }
                    _ => return fail("udp:lost", format!("{:?}", show(std::slice::from_ref(p)))),
                }
            }
            task.abort();
            Ok(())
        })
    })
}

// ---------------------------------------------------------------- the pool

/// The far end of pooled connections.
struct Peer {
    listener: TcpListener,
    addr: SocketAddr,
    conn: Option<TcpStream>,
    /// bytes the current connection must still show, and frames expected from it
    expect: Vec<u8>,
}
impl Peer {
    async fn new() -> Peer {
        let sock = TcpSocket::new_v4().unwrap();
        sock.bind((fresh_ip(), 0).into()).unwrap();
        let listener = sock.listen(16).unwrap();
        Peer { addr: listener.local_addr().unwrap(), listener, conn: None, expect: vec![] }
    }
    /// Whether someone waits to be accepted.
    async fn knock(&mut self, ms: u64) -> Option<TcpStream> {
        tokio::time::timeout(Duration::from_millis(ms), self.listener.accept()).await.ok().and_then(|r| r.ok()).map(|r| r.0)
    }
    async fn check(&mut self) -> R {
        let Some(c) = &mut self.conn else { return fail("pool:unreached", "a message was sent but nobody connected") };
        let mut got = vec![0; self.expect.len()];
        match tokio::time::timeout(Duration::from_secs(5), c.read_exact(&mut got)).await {
            Ok(Ok(_)) => {}
            o => return fail("pool:lost", format!("{o:?} instead of {:?}", show(&[self.expect.clone()]))),
        }
        ensure!(got == self.expect, "pool:bytes", "{:?} instead of {:?}", show(&[got]), show(&[self.expect.clone()]));
        self.expect.clear();
        Ok(())
    }
}
#[derive(Debug, Clone)]
enum Op {
    /// sends of several messages to one peer, one after the other or together
    Send(usize, Vec<Vec<u8>>, bool),
    /// the peer sends these bytes in chunks; whether the stream is broken at its end
    Answer(usize),
    /// the peer closes
    Close(usize),
}
fn pool(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.urange(1, 3);
    let mut ops = s.vec(1, 8, |s| {
        let p = s.idx(n);
        match s.weighted(&[4, 3, 2]) {
            0 => Op::Send(p, s.vec(1, 4, |s| message(s)).into_iter().filter(|m| m.len() < 20_000).collect(), s.chance(1, 3)),
            1 => Op::Answer(p),
            _ => Op::Close(p),
        }
    });
    ops.retain(|o| !matches!(o, Op::Send(_, v, _) if v.is_empty()));
    let streams: Vec<(Stream, Vec<Vec<u8>>)> = ops
        .iter()
        .map(|_| {
            let st = stream(s);
            let cs = chunks(s, &st.all);
            (st, cs)
        })
        .collect();
    ctx.desc(|| {
        format!(
            "{n} peers {:?}",
            ops.iter()
                .zip(&streams)
                .map(|(o, st)| match o {
                    Op::Send(p, v, t) => format!("send{} to {p}: {:?}", if *t { " together" } else { "" }, show(v)),
                    Op::Answer(p) => format!("answer from {p}: {:?} broken {:?}", show(&st.1), st.0.why),
                    Op::Close(p) => format!("close {p}"),
                })
                .collect::<Vec<_>>()
        )
    });
    if ops.len() > 2 {
        ctx.nontrivial(format!("{ops:?}{:?}", streams.iter().map(|x| x.1.len()).collect::<Vec<_>>()));
    }
    init();
    thread_local!(static RT: tokio::runtime::Runtime = runtime());
    RT.with(|rt| {
        rt.block_on(async {
            let mut peers = vec![];
            for _ in 0..n {
                peers.push(Peer::new().await);
            }
            let pool = Arc::new(ConnectionPool::new());
            let (tx, mut rx) = mpsc::channel(4096);
            pool.set_inbound_tx(tx).await;
            for (op, (st, cs)) in ops.iter().zip(&streams) {
                match op {
                    Op::Send(p, v, together) => {
                        let peer = &mut peers[*p];
                        let fresh = peer.conn.is_none();
                        if *together {
                            let hs: Vec<_> = v
                                .iter()
                                .map(|m| {
                                    let (pool, m, a) = (pool.clone(), Bytes::from(m.clone()), peer.addr);
                                    tokio::spawn(async move { pool.send_tcp(a, m).await })
                                })
                                .collect();
                            let mut conns = vec![];
                            for h in hs {
                                if let Err(e) = h.await.unwrap() {
                                    return fail("pool:send", e.to_string());
                                }
                            }
                            // on whichever connections they went: all of them arrive
                            if let Some(c) = peer.conn.take() {
                                conns.push(c);
                            }
                            while let Some(c) = peer.knock(if conns.is_empty() { 3000 } else { 2 }).await {
                                conns.push(c);
                            }
                            let total: usize = v.iter().map(|m| m.len()).sum();
                            let mut got: Vec<Vec<u8>> = conns.iter().map(|_| vec![]).collect();
                            let all = until(|| {
                                for (c, g) in conns.iter().zip(&mut got) {
                                    let mut b = [0; 65536];
                                    while let Ok(k) = c.try_read(&mut b) {
                                        if k == 0 {
                                            break;
                                        }
                                        g.extend(&b[..k]);
                                    }
                                }
                                got.iter().map(|g| g.len()).sum::<usize>() >= total
                            })
                            .await;
                            let mut seen: Vec<Vec<u8>> = vec![];
                            for g in &got {
                                let mut rest = &g[..];
                                while let Some(m) = v.iter().filter(|m| rest.starts_with(m)).max_by_key(|m| m.len()) {
                                    seen.push(m.clone());
                                    rest = &rest[m.len()..];
                                }
                                ensure!(rest.is_empty(), "pool:bytes", "not a message: {:?}", show(&[rest.to_vec()]));
                            }
                            let mut want = v.clone();
                            want.sort();
                            seen.sort();
                            ensure!(all && seen == want, "pool:together", "{:?} of {:?} arrived", show(&seen), show(&want));
                            // the one that stays in use is found by sending once more
                            if let Err(e) = pool.send_tcp(peer.addr, Bytes::from_static(SENTINEL)).await {
                                return fail("pool:send", e.to_string());
                            }
                            let mut hit = None;
                            until(|| {
                                for (i, c) in conns.iter().enumerate() {
                                    let mut b = [0; 1];
                                    if matches!(c.try_read(&mut b), Ok(1)) {
                                        hit = Some(i);
                                        return true;
                                    }
                                }
                                false
                            })
                            .await;
                            let Some(i) = hit else { return fail("pool:lost", "a message after several at once") };
                            let mut c = conns.swap_remove(i);
                            let mut b = vec![0; SENTINEL.len() - 1];
                            if c.read_exact(&mut b).await.is_err() {
                                return fail("pool:lost", "a message after several at once");
                            }
                            peer.conn = Some(c);
                            continue;
                        }
                        for m in v {
                            if let Err(e) = pool.send_tcp(peer.addr, Bytes::from(m.clone())).await {
                                return fail("pool:send", e.to_string());
                            }
                            peer.expect.extend(m);
                        }
                        if fresh {
                            peer.conn = peer.knock(5000).await;
                        }
                        peer.check().await?;
                        ensure!(peer.knock(0).await.is_none(), "pool:reuse", "a second connection to the same peer");
                    }
                    Op::Answer(p) => {
                        let peer = &mut peers[*p];
                        let Some(c) = &mut peer.conn else { continue };
                        for ch in cs {
                            if c.write_all(ch).await.is_err() {
                                break;
                            }
                            for _ in 0..6 {
                                tokio::task::yield_now().await;
                            }
                        }
                        let mut got = vec![];
                        while got.len() < st.frames.len() {
                            match tokio::time::timeout(Duration::from_secs(5), rx.recv()).await {
                                Ok(Some(p)) => got.push(p),
                                _ => break,
                            }
                        }
                        for _ in 0..10 {
                            tokio::task::yield_now().await;
                        }
                        while let Ok(p) = rx.try_recv() {
                            got.push(p);
                        }
                        let b: Vec<Vec<u8>> = got.iter().map(|p: &InboundPacket| p.payload().to_vec()).collect();
                        ensure!(b == st.frames, "pool:frames", "delivered {:?}, expected {:?}", show(&b), show(&st.frames));
                        for g in &got {
                            ensure_eq!((g.transport(), g.peer()), (TransportKind::Tcp, peer.addr), "pool:origin", "packet");
                        }
                        // a stream that is not at a message boundary is of no more use
                        if st.why.is_some() {
                            let n = pool.len();
                            let mut b = [0; 1];
                            match tokio::time::timeout(Duration::from_secs(5), c.read(&mut b)).await {
                                Ok(Ok(0)) | Ok(Err(_)) => {}
                                o => return fail("pool:not-closed", format!("after {:?}: {o:?}, {n} connections", st.why)),
                            }
                            peer.conn = None;
                        } else if st.open {
                            close(&pool, peer).await?;
                        }
                    }
                    Op::Close(p) => close(&pool, &mut peers[*p]).await?,
                }
                let live = peers.iter().filter(|p| p.conn.is_some()).count();
                ensure!(until(|| pool.len() == live).await, "pool:len", "{} connections in the pool, {live} open", pool.len());
            }
            Ok(())
        })
    })
}
async fn close(pool: &ConnectionPool, peer: &mut Peer) -> R {
    if peer.conn.take().is_some() {
        let n = pool.len();
        ensure!(until(|| pool.len() < n).await, "pool:dead", "a closed connection stays in the pool");
    }
    Ok(())
}
/// One peer does not read. Nobody else may have to wait.
fn stalled(s: &mut Src, ctx: &mut Ctx) -> R {
    let big = s.urange(100_000, 200_000);
    let (same, others) = (s.urange(1, 4), s.urange(1, 3));
    ctx.desc(|| format!("messages of {big} bytes to a peer that does not read, {same} more tasks send to it, {others} to others"));
    ctx.nontrivial((big, same, others));
    init();
    let (done, wait) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = runtime();
        let r = rt.block_on(async {
            let pool = Arc::new(ConnectionPool::new());
            let sock = TcpSocket::new_v4().unwrap();
            sock.set_recv_buffer_size(4096).unwrap();
            sock.bind((fresh_ip(), 0).into()).unwrap();
            let dead = sock.listen(4).unwrap();
            let at = dead.local_addr().unwrap();
            let payload = Bytes::from(vec![b'x'; big]);
            let hs: Vec<_> = (0..=same)
                .map(|_| {
                    let (pool, payload) = (pool.clone(), payload.clone());
                    tokio::spawn(async move {
                        for _ in 0..120 {
                            if pool.send_tcp(at, payload.clone()).await.is_err() {
                                return;
                            }
                        }
                    })
                })
                .collect();
            let _conn = dead.accept().await;
            tokio::time::sleep(Duration::from_millis(20)).await;
            for _ in 0..others {
                let mut p = Peer::new().await;
                if let Err(e) = pool.send_tcp(p.addr, Bytes::from_static(SENTINEL)).await {
                    return fail("pool:stalled", e.to_string());
                }
                p.expect = SENTINEL.to_vec();
                p.conn = p.knock(5000).await;
                p.check().await?;
            }
            for h in hs {
                h.abort();
            }
            Ok(())
        });
        let _ = done.send(r);
        rt.shutdown_background();
    });
    match wait.recv_timeout(Duration::from_secs(30)) {
        Ok(r) => r,
        Err(_) => fail("pool:stalled", "a peer that does not read blocks sending to the others"),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "a stream in several chunks with at least one message; several datagrams",
            assumptions: &["TCP and UDP on the loopback; TLS and WebSocket are not built here", "Content-Length is required on streams, as the library documents"],
            units: vec![unit!("tcp-server", 12_000, 200_000, tcp_server), unit!("udp", 6_000, 60_000, udp)],
        },
        Prop {
            id: "C31",
            rule: "at least three operations on the pool; a peer that does not read",
            assumptions: &["TCP on the loopback, one runtime thread"],
            units: vec![unit!("pool", 6_000, 100_000, pool), unit!("stalled", 24, 400, stalled)],
        },
    ]
}
