//! C33: what the daemon answers, as an endpoint, to histories of requests.
use crate::config::{DaemonConfig, DaemonMode, SdpProfile};
use crate::dispatcher::RequestDispatcher;
use crate::g;
use crate::services::ServiceRegistry;
use async_trait::async_trait;
use bytes::Bytes;
use sip_auth::{DigestAlgorithm, DigestClient, Qop};
use sip_core::{Method, Request, Response};
use sip_ratelimit::RateLimiter;
use sip_transaction::{TransactionManager, TransportContext, TransportDispatcher, TransportKind};
use std::collections::BTreeSet;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

type Log = Arc<Mutex<Vec<(u64, TransportKind, SocketAddr, Vec<u8>)>>>;
struct Wire {
    log: Log,
    t0: Instant,
    /// INVITEs cannot be sent
    fail: Arc<std::sync::atomic::AtomicBool>,
}
#[async_trait]
impl TransportDispatcher for Wire {
    async fn dispatch(&self, ctx: &TransportContext, payload: Bytes) -> anyhow::Result<()> {
        if payload.starts_with(b"INVITE ") && self.fail.load(std::sync::atomic::Ordering::Relaxed) {
            anyhow::bail!("unreachable")
        }
        self.log.lock().unwrap().push((self.t0.elapsed().as_millis() as u64, ctx.transport(), ctx.peer(), payload.to_vec()));
        Ok(())
    }
}
/// All values of a header, one per field.
fn vals(h: &sip_core::Headers, n: &str) -> Vec<String> {
    h.iter().filter(|f| f.name().eq_ignore_ascii_case(n)).map(|f| f.value().to_string()).collect()
}
fn val(h: &sip_core::Headers, n: &str) -> String {
    vals(h, n).first().cloned().unwrap_or_default()
}
/// The tag parameter of a From or To value: after the closing bracket, if there is one.
fn tag(v: &str) -> Option<String> {
    let p = match v.rfind('>') {
        Some(i) => &v[i + 1..],
        None => v.split_once(';').map(|x| &v[x.0.len()..]).unwrap_or(""),
    };
    p.split(';').find_map(|x| {
        let (n, v) = x.split_once('=')?;
        n.trim().eq_ignore_ascii_case("tag").then(|| v.trim().to_string())
    })
}
fn branch(via: &str) -> String {
    via.split(';').find_map(|p| p.trim().strip_prefix("branch=")).unwrap_or("").to_string()
}
fn param(v: &str, name: &str) -> String {
    let k = format!("{name}=\"");
    v.find(&k).map(|i| v[i + k.len()..].split('"').next().unwrap().to_string()).unwrap_or_default()
}

const USERS: [(&str, &str); 2] = [("alice", "s3cret"), ("bob", "pass word")];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cred {
    None,
    Good(usize),
    Wrong,
    Unknown,
    Garbage,
}
/// What may come back.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Code(u16),
    /// any final response of these classes
    Class(&'static [u16]),
}
impl Want {
    fn ok(&self, c: u16) -> bool {
        match self {
            Want::Code(x) => *x == c,
            Want::Class(v) => v.contains(&(c / 100)),
        }
    }
}
#[derive(Clone, Debug)]
struct Sent {
    at: u64,
    req: Request,
    branch: String,
    tr: TransportKind,
    want: Want,
    /// for an INVITE: its call
    call: Option<usize>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// INVITE sent at
    Pending(u64),
    Up,
    Down,
}
#[derive(Clone, Debug)]
struct Call {
    id: String,
    from: String,
    to: String,
    contact: String,
    /// index of the INVITE among those sent
    invite: usize,
    st: St,
    cseq: u32,
    user: Option<usize>,
    /// the daemon's tag
    tag: Option<String>,
    rseq: Option<(u32, bool)>,
}
struct Sim {
    cfg: DaemonConfig,
    services: Arc<ServiceRegistry>,
    disp: Arc<RequestDispatcher>,
    mgr: Arc<TransactionManager>,
    log: Log,
    t0: Instant,
    n: u64,
    sent: Vec<Sent>,
    calls: Vec<Call>,
    nonces: [Option<(String, String, DigestClient)>; 8],
    /// expected subscriptions: (SUBSCRIBE or REFER, expires)
    subs: Vec<usize>,
    refers: Vec<(usize, Option<SocketAddr>)>,
    hist: Vec<String>,
    /// where requests come from
    peer: SocketAddr,
    /// no retransmissions, no Max-Forwards: 0
    plain: bool,
    fail: Arc<std::sync::atomic::AtomicBool>,
}
const HOSTS: [(&str, bool); 34] = [
    ("8.8.8.8", true),
    ("93.184.216.34", true),
    ("172.32.0.1", true),
    ("172.15.255.255", true),
    ("100.63.255.255", true),
    ("100.128.0.1", true),
    ("198.17.0.1", true),
    ("198.20.0.1", true),
    ("192.0.1.1", true),
    ("11.0.0.1", true),
    ("[2600::1]", true),
    ("[::ffff:8.8.4.4]", true),
    ("127.0.0.1", false),
    ("127.9.9.9", false),
    ("10.1.2.3", false),
    ("172.16.0.1", false),
    ("172.31.255.255", false),
    ("192.168.1.1", false),
    ("169.254.1.1", false),
    ("0.0.0.0", false),
    ("224.0.0.5", false),
    ("239.255.255.250", false),
    ("255.255.255.255", false),
    ("192.0.2.9", false),
    ("100.64.0.1", false),
    ("100.127.255.255", false),
    ("198.19.1.1", false),
    ("192.0.0.8", false),
    ("[::1]", false),
    ("[::]", false),
    ("[fe80::1]", false),
    ("[fd00::1]", false),
    ("[ff02::1]", false),
    ("[::ffff:10.0.0.1]", false),
];
impl Sim {
    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }
    fn calls_on(&self) -> bool {
        matches!(self.cfg.mode, DaemonMode::FullUas | DaemonMode::CallServer | DaemonMode::Interactive)
    }
    fn subs_on(&self) -> bool {
        matches!(self.cfg.mode, DaemonMode::FullUas | DaemonMode::SubscriptionServer | DaemonMode::Interactive)
    }
    fn registrar_on(&self) -> bool {
        matches!(self.cfg.mode, DaemonMode::FullUas | DaemonMode::Registrar)
    }
    fn handled(&self, m: &str) -> bool {
        match m {
            "OPTIONS" | "NOTIFY" => true,
            "INVITE" | "CANCEL" | "BYE" | "PRACK" | "UPDATE" | "INFO" | "MESSAGE" => self.calls_on(),
            "REGISTER" => self.registrar_on(),
            "SUBSCRIBE" => self.subs_on(),
            "REFER" => self.cfg.features.enable_refer,
            _ => false,
        }
    }
    /// Sends a request; `inner` is what its handler answers when it gets to it.
    #[allow(clippy::too_many_arguments)]
    async fn send(&mut self, s: &mut Src, m: &str, uri: &str, h: Vec<(&str, String)>, body: &[u8], cred: Cred, branch_of: Option<usize>, inner: Want) -> usize {
        let mut hs: Vec<(&str, String)> = vec![];
        self.n += 1;
        let (tr, br, via) = match branch_of {
            Some(i) => (self.sent[i].tr, self.sent[i].branch.clone(), vals(self.sent[i].req.headers(), "Via")),
            None => {
                let tr = if s.coin() { TransportKind::Udp } else { TransportKind::Tcp };
                let br = format!("z9hG4bK{}x{}", self.n, alnum(s, 1, 6));
                let mut v = vec![format!("SIP/2.0/{} 192.0.2.7:5060;branch={br}", if tr == TransportKind::Udp { "UDP" } else { "TCP" })];
                for _ in 0..s.weighted(&[4, 2, 1]) {
                    v.push(g::via(s));
                }
                if v.len() > 1 && s.chance(1, 4) {
                    v = vec![v.join(", ")];
                }
                (tr, br, v)
            }
        };
        hs.extend(via.iter().map(|v| ("Via", v.clone())));
        let zero = branch_of.is_none() && !self.plain && s.chance(1, 25);
        match s.weighted(&[6, 2, 1]) {
            _ if zero => hs.push(("Max-Forwards", "0".into())),
            0 => hs.push(("Max-Forwards", "70".into())),
            1 => hs.push(("Max-Forwards", s.range(1, 255).to_string())),
            _ => {}
        }
        hs.extend(h);
        let exempt = matches!(m, "CANCEL" | "OPTIONS" | "ACK");
        let auth = self.cfg.features.authentication && if m == "REGISTER" { self.registrar_on() } else { !exempt };
        // REGISTER and the rest keep different nonces
        let mut good = false;
        match cred {
            Cred::None => {}
            Cred::Garbage => hs.push(("Authorization", s.pick(&["Digest", "Basic YTpi", "Digest username=\"alice\"", "Digest nonce=\"\", response=\"\""]).to_string())),
            Cred::Good(_) | Cred::Wrong | Cred::Unknown => {
                let k = match cred {
                    Cred::Good(u) => u,
                    Cred::Wrong => 2,
                    _ => 3,
                } + if m == "REGISTER" { 4 } else { 0 };
                if let Some((nonce, opaque, cl)) = &mut self.nonces[k] {
                    let v = cl.generate_authorization(&Method::from_token(m).unwrap(), uri, &self.cfg.auth.realm, nonce, DigestAlgorithm::Sha256, Some(Qop::Auth), Some(opaque), body);
                    good = matches!(cred, Cred::Good(_));
                    hs.push(("Authorization", v));
                }
            }
        }
        if !body.is_empty() {
            hs.push(("Content-Length", body.len().to_string()));
        }
        let req = g::req(m, uri, &hs, body);
        let want = if zero {
            Want::Code(483)
        } else if auth && !good && m != "REGISTER" {
            Want::Code(401)
        } else if !self.handled(m) {
            Want::Code(501)
        } else if auth && !good {
            Want::Code(401)
        } else {
            inner
        };
        let ctx = TransportContext::new(tr, self.peer, (tr == TransportKind::Tcp).then(|| tokio::sync::mpsc::channel(1).0));
        self.hist.push(format!("{}ms {m} {:?} -> {want:?}", self.now(), cred));
        let i = self.sent.len();
        self.sent.push(Sent { at: self.now(), req: req.clone(), branch: br, tr, want, call: None });
        // requests are repeated over UDP only; an INVITE transaction ends with its 2xx
        let re = m == "INVITE" && val(req.headers(), "To").contains("tag=");
        let again = if tr == TransportKind::Udp && !re && !self.plain { s.weighted(&[6, 1, 1]) } else { 0 };
        for k in 0..=again {
            if k > 0 {
                tokio::time::sleep(Duration::from_millis(*s.pick(&[0u64, 7]))).await;
            }
            let handle = self.mgr.receive_request(req.clone(), ctx.clone()).await;
            let (d, r, c) = (self.disp.clone(), req.clone(), ctx.clone());
            tokio::spawn(async move { d.dispatch(&r, handle, &c).await });
        }
        i
    }
    fn responses(&self, i: usize) -> Vec<(u64, Response)> {
        let x = &self.sent[i];
        let cs = val(x.req.headers(), "CSeq");
        let mut v: Vec<(u64, Vec<u8>)> = vec![];
        for (t, _, _, b) in self.log.lock().unwrap().iter() {
            if b.starts_with(b"SIP/2.0 ") && !v.iter().any(|y| y.1 == *b) {
                v.push((*t, b.clone()));
            }
        }
        v.into_iter()
            .filter_map(|(t, b)| sip_parse::parse_response(&Bytes::from(b)).map(|r| (t, r)))
            .filter(|(_, r)| branch(&val(r.headers(), "Via").split(',').next().unwrap()) == x.branch && val(r.headers(), "CSeq") == cs)
            .collect()
    }
    fn final_of(&self, i: usize) -> Option<Response> {
        self.responses(i).into_iter().map(|x| x.1).find(|r| r.code() >= 200)
    }
    async fn settle(&mut self, ms: u64) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        let now = self.now();
        for c in 0..self.calls.len() {
            let inv = self.calls[c].invite;
            if let St::Pending(at) = self.calls[c].st {
                for (_, r) in self.responses(inv) {
                    if r.code() > 100 && r.code() < 200 {
                        self.calls[c].tag = tag(&val(r.headers(), "To"));
                        if let Ok(n) = val(r.headers(), "RSeq").parse() {
                            self.calls[c].rseq.get_or_insert((n, false));
                        }
                    }
                }
                if let Some(r) = self.final_of(inv) {
                    self.calls[c].tag = tag(&val(r.headers(), "To"));
                    self.calls[c].st = if r.code() < 300 { St::Up } else { St::Down };
                } else if now > at + 150 {
                    self.calls[c].st = St::Down;
                }
            }
        }
    }
    /// A nonce for a user, by way of a request that is refused.
    async fn prime(&mut self, s: &mut Src, k: usize) {
        let m = if k >= 4 { "REGISTER" } else { "PUBLISH" };
        if self.nonces[k].is_some() || k >= 4 && !self.registrar_on() {
            return;
        }
        let (f, t, id) = ("<sip:alice@example.com>;tag=p".to_string(), "<sip:alice@example.com>".to_string(), format!("prime{}", self.n));
        let i = self.send(s, m, "sip:example.com", vec![("From", f), ("To", t), ("Call-ID", id), ("CSeq", format!("1 {m}")), ("Contact", "<sip:alice@192.0.2.7>".into())], b"", Cred::None, None, Want::Code(401)).await;
        self.settle(20).await;
        if let Some(r) = self.final_of(i).filter(|r| r.code() == 401) {
            let (u, p) = match k % 4 {
                2 => ("alice", "wrong"),
                3 => ("mallory", "x"),
                u => USERS[u],
            };
            self.nonces[k] = Some((param(&val(r.headers(), "WWW-Authenticate"), "nonce"), param(&val(r.headers(), "WWW-Authenticate"), "opaque"), DigestClient::new(u, p)));
        }
    }
}

fn offer(s: &mut Src) -> Vec<u8> {
    let mut o = format!("v=0\r\no=a {} 1 IN IP4 192.0.2.7\r\ns=-\r\nc=IN IP4 192.0.2.7\r\nt=0 0\r\n", s.range(1, 1 << 40));
    // one section of a kind: several of one kind are C10's business
    let mut v = vec![
        *s.pick(&["m=audio 4000 RTP/AVP 0 8\r\na=rtpmap:0 PCMU/8000\r\na=rtpmap:8 PCMA/8000\r\n", "m=audio 4002 RTP/AVP 0\r\na=sendonly\r\n"]),
        "m=video 4004 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n",
        "m=application 9 UDP/BFCP *\r\n",
    ];
    s.shuffle(&mut v);
    for m in &v[..s.urange(1, 3)] {
        o += m;
    }
    o.into_bytes()
}
fn config(s: &mut Src) -> DaemonConfig {
    let mut c = DaemonConfig {
        mode: match s.weighted(&[8, 3, 2, 2, 2, 1]) {
            0 => DaemonMode::FullUas,
            1 => DaemonMode::CallServer,
            2 => DaemonMode::Interactive,
            3 => DaemonMode::SubscriptionServer,
            4 => DaemonMode::Registrar,
            _ => DaemonMode::Minimal,
        },
        sdp_profile: match s.weighted(&[6, 2, 1]) {
            0 => SdpProfile::AudioOnly,
            1 => SdpProfile::AudioVideo,
            _ => SdpProfile::None,
        },
        local_uri: s.pick(&["sip:siphond@192.0.2.1", "sip:siphond@192.0.2.1:5070", "sip:192.0.2.1;transport=tcp"]).to_string(),
        ..Default::default()
    };
    let f = &mut c.features;
    f.authentication = s.chance(1, 3);
    f.auto_accept_calls = s.chance(7, 8);
    f.auto_accept_subscriptions = s.chance(7, 8);
    f.enable_prack = s.chance(3, 4);
    f.enable_refer = s.chance(7, 8);
    f.enable_session_timers = s.chance(1, 3);
    f.allow_private_refer_targets = s.chance(1, 6);
    c
}
/// A file that goes away with its owner.
struct Tmp(std::path::PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn users_file(mode: u32) -> Tmp {
    use std::os::unix::fs::PermissionsExt;
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("verif-users-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    let j: Vec<String> = USERS.iter().map(|u| format!("{:?}: {:?}", u.0, u.1)).collect();
    std::fs::write(&p, format!("{{{}}}", j.join(", "))).unwrap();
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
    Tmp(p)
}
fn services(cfg: &DaemonConfig, free: bool) -> ServiceRegistry {
    let mut sv = ServiceRegistry::new(cfg.clone());
    if free {
        sv.auth_rate_limiter = Arc::new(RateLimiter::disabled());
        sv.register_rate_limiter = Arc::new(RateLimiter::disabled());
        sv.invite_rate_limiter = Arc::new(RateLimiter::disabled());
    }
    sv
}
fn sim(cfg: DaemonConfig, free: bool) -> Sim {
    let log: Log = Default::default();
    let fail = Arc::<std::sync::atomic::AtomicBool>::default();
    let t0 = Instant::now();
    let wire: Arc<dyn TransportDispatcher> = Arc::new(Wire { log: log.clone(), t0, fail: fail.clone() });
    let mgr = Arc::new(TransactionManager::new(wire.clone()));
    let sv = services(&cfg, free);
    let _ = sv.set_transaction_manager(mgr.clone());
    let _ = sv.set_transport_dispatcher(wire);
    let services = Arc::new(sv);
    let disp = Arc::new(RequestDispatcher::new(services.clone()));
    Sim { cfg, services, disp, mgr, log, t0, n: 0, sent: vec![], calls: vec![], nonces: Default::default(), subs: vec![], refers: vec![], hist: vec![], peer: SocketAddr::from(([192, 0, 2, 7], 5060)), plain: false, fail }
}
fn cred(s: &mut Src, user: usize) -> Cred {
    match s.weighted(&[10, 2, 1, 1, 1]) {
        0 => Cred::Good(user),
        1 => Cred::None,
        2 => Cred::Wrong,
        3 => Cred::Unknown,
        _ => Cred::Garbage,
    }
}
fn peer_uri(s: &mut Src) -> String {
    format!("sip:{}@example.com", s.pick(&["alice", "bob", "car&ol", "dave", "eve+x"]))
}
fn from_to(s: &mut Src, uri: &str, t: &str) -> String {
    match s.below(5) {
        0 => format!("\"A; tag=no\" <{uri}>;tag={t}"),
        1 => format!("<{uri}>;x=1;tag={t}"),
        2 => format!("Al <{uri}>; tag={t}"),
        _ => format!("<{uri}>;tag={t}"),
    }
}
async fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = config(s);
    let file = users_file(0o600);
    cfg.auth.users_file = Some(file.0.clone());
    let mut x = sim(cfg, true);
    let auth = x.cfg.features.authentication;
    x.hist.push(format!("{:?} {:?} {:?}", x.cfg.mode, x.cfg.features, x.cfg.sdp_profile));
    let ops = s.range(1, 9);
    for _ in 0..ops {
        let user = s.idx(2);
        let c = if auth { cred(s, user) } else if s.chance(1, 10) { Cred::Garbage } else { Cred::None };
        let kind = s.weighted(&[8, 5, 8, 3, 3, 3, 3]);
        if auth {
            for k in [user, 2, 3] {
                x.prime(s, k + if kind == 6 { 4 } else { 0 }).await;
            }
        }
        let target = x.cfg.local_uri.clone();
        let (id, ft) = (format!("call{}-{}", x.n, alnum(s, 1, 5)), alnum(s, 1, 6));
        let furi = peer_uri(s);
        let from = from_to(s, &furi, &ft);
        let to = s.pick(&["<sip:siphond@192.0.2.1>", "\"D\" <sip:siphond@192.0.2.1>;x=1", "sip:siphond@192.0.2.1"]).to_string();
        let contact = format!("<sip:{}@192.0.2.7:{}>", alnum(s, 1, 4), 5060 + s.below(3));
        let cs = s.range(1, 1000) as u32;
        match kind {
            // a call
            0 => {
                let mut h = vec![("From", from.clone()), ("To", to.clone()), ("Call-ID", id.clone()), ("CSeq", format!("{cs} INVITE")), ("Contact", contact.clone())];
                if s.coin() {
                    h.push(("Supported", s.pick(&["100rel", "timer, 100rel", "timer"]).to_string()));
                }
                let mut inner = Want::Code(200);
                if s.chance(1, 6) {
                    h.push(("Session-Expires", s.range(90, 7200).to_string()));
                }
                let body = if s.chance(1, 4) { vec![] } else if s.chance(1, 8) { b"v=0 nonsense".to_vec() } else { offer(s) };
                if body.starts_with(b"v=0 ") || matches!(x.cfg.sdp_profile, SdpProfile::None) {
                    inner = Want::Code(488);
                }
                if !body.is_empty() {
                    h.push(("Content-Type", "application/sdp".into()));
                }
                if !x.cfg.features.auto_accept_calls {
                    inner = Want::Code(486);
                }
                if s.chance(1, 8) {
                    // Replaces
                    let (v, w) = match x.calls.iter().position(|c| c.st == St::Up).filter(|_| s.coin()) {
                        Some(k) => {
                            let k = &x.calls[k];
                            let who = |u: &str| k.from.contains(&format!("sip:{u}@")) || u == "siphond";
                            let mine = if auth { matches!(c, Cred::Good(u) if who(USERS[u].0)) } else { who(furi[4..].split('@').next().unwrap()) };
                            (format!("{};to-tag={};from-tag={}", k.id, k.tag.clone().unwrap_or_default(), tag(&k.from).unwrap()), if mine { inner.clone() } else { Want::Code(481) })
                        }
                        None => match s.below(3) {
                            0 => ("nosuch@call;to-tag=a;from-tag=b".to_string(), Want::Code(481)),
                            1 => (";to-tag=a;from-tag=b".to_string(), Want::Code(400)),
                            _ => ("x;to-tag=a".to_string(), Want::Code(400)),
                        },
                    };
                    h.push(("Replaces", v));
                    inner = w;
                }
                let i = x.send(s, "INVITE", &target, h, &body, c, None, inner.clone()).await;
                let k = x.calls.len();
                x.sent[i].call = Some(k);
                let at = x.sent[i].at;
                let user = match c {
                    Cred::Good(u) => Some(u),
                    _ => None,
                };
                x.calls.push(Call { id, from, to, contact, invite: i, st: St::Pending(at), cseq: cs, user, tag: None, rseq: None });
            }
            // CANCEL
            1 => {
                let Some(k) = x.calls.iter().rposition(|c| matches!(c.st, St::Pending(_))).or(x.calls.len().checked_sub(1)) else { continue };
                let cl = x.calls[k].clone();
                if x.sent.iter().any(|q| q.req.method().as_str() == "CANCEL" && q.branch == x.sent[cl.invite].branch) {
                    continue;
                }
                let cs = val(x.sent[cl.invite].req.headers(), "CSeq").replace("INVITE", "CANCEL");
                if s.chance(1, 5) {
                    // one of another request, or of another caller: it ends nothing
                    let (n, other) = (cs.split(' ').next().unwrap().parse::<u32>().unwrap(), s.below(3));
                    let mut h = vec![("From", cl.from.clone()), ("To", cl.to.clone()), ("Call-ID", cl.id.clone()), ("CSeq", cs)];
                    match other {
                        0 => h[3].1 = format!("{} CANCEL", n + 1),
                        1 => h[0].1 = format!("<sip:mallory@example.com>;tag={}x", tag(&cl.from).unwrap()),
                        _ => h[2].1 += "x",
                    }
                    x.send(s, "CANCEL", &target, h, b"", Cred::None, None, Want::Class(&[2, 4])).await;
                    ctx.label("cancel-other");
                    continue;
                }
                let h = vec![("From", cl.from.clone()), ("To", cl.to.clone()), ("Call-ID", cl.id.clone()), ("CSeq", cs)];
                let age = x.now() - x.sent[cl.invite].at;
                let inv = &x.sent[cl.invite];
                let pending = (inv.want == Want::Code(200) || inv.want == Want::Code(488)) && x.final_of(cl.invite).is_none();
                let i = x.send(s, "CANCEL", &target, h, b"", Cred::None, Some(cl.invite), if pending && age < 80 { Want::Code(200) } else { Want::Class(&[2, 4]) }).await;
                if pending && x.sent[i].want == Want::Code(200) {
                    x.sent[cl.invite].want = Want::Code(487);
                    ctx.label("cancelled");
                } else if pending {
                    x.sent[cl.invite].want = Want::Class(&[2, 4]);
                }
            }
            // in a call, or not
            2 => {
                let up: Vec<usize> = (0..x.calls.len()).filter(|k| x.calls[*k].st == St::Up).collect();
                let early: Vec<usize> = (0..x.calls.len()).filter(|k| matches!(x.calls[*k].st, St::Pending(_)) && x.calls[*k].rseq.is_some()).collect();
                if !early.is_empty() && s.coin() {
                    let k = *s.pick(&early);
                    let cl = x.calls[k].clone();
                    let (rs, done) = cl.rseq.unwrap();
                    let bad = s.chance(1, 4);
                    x.calls[k].cseq += 1;
                    let rack = if bad { format!("{} {} INVITE", rs.wrapping_add(1), cl.cseq) } else { format!("{rs} {} INVITE", x.sent[cl.invite].req.headers().get("CSeq").unwrap().split(' ').next().unwrap()) };
                    let n = x.calls[k].cseq;
                    let h = vec![("From", cl.from.clone()), ("To", format!("<sip:siphond@192.0.2.1>;tag={}", cl.tag.clone().unwrap())), ("Call-ID", cl.id.clone()), ("CSeq", format!("{n} PRACK")), ("RAck", rack)];
                    let w = if bad || done { Want::Class(&[4, 5]) } else { Want::Code(200) };
                    let cr = if auth { Cred::Good(cl.user.unwrap_or(0)) } else { Cred::None };
                    if auth {
                        x.prime(s, cl.user.unwrap_or(0)).await;
                    }
                    // the call may be about to be answered
                    let w = if x.now() - x.sent[cl.invite].at < 80 { w } else { Want::Class(&[2, 4, 5]) };
                    let i = x.send(s, "PRACK", &target, h, b"", cr, None, w.clone()).await;
                    x.settle(10).await;
                    if !bad && x.final_of(i).is_some_and(|r| r.code() == 200) {
                        x.calls[k].rseq = Some((rs, true));
                        ctx.label("prack");
                    }
                    continue;
                }
                let m = *s.pick(&["BYE", "BYE", "INFO", "UPDATE", "INVITE", "REFER", "REFER", "NOTIFY", "PRACK"]);
                let inside = !up.is_empty() && s.chance(4, 5);
                let (mut h, n, k);
                if inside {
                    let kk = *s.pick(&up);
                    k = Some(kk);
                    x.calls[kk].cseq += s.range(1, 3) as u32;
                    let cl = &x.calls[kk];
                    n = cl.cseq;
                    h = vec![("From", cl.from.clone()), ("To", format!("<sip:siphond@192.0.2.1>;tag={}", cl.tag.clone().unwrap())), ("Call-ID", cl.id.clone()), ("CSeq", format!("{n} {m}")), ("Contact", cl.contact.clone())];
                } else {
                    k = None;
                    n = cs;
                    // a call that is over, or was never there
                    let over: Vec<&Call> = x.calls.iter().filter(|c| c.st == St::Down && c.tag.is_some() && x.sent[c.invite].at + 200 < x.now()).collect();
                    let (f, t, i) = match over.last().filter(|_| s.coin()) {
                        Some(c) => (c.from.clone(), c.tag.clone().unwrap(), c.id.clone()),
                        None => (from.clone(), "nosuchtag".into(), id.clone()),
                    };
                    h = vec![("From", f), ("To", format!("<sip:siphond@192.0.2.1>;tag={t}")), ("Call-ID", i), ("CSeq", format!("{n} {m}")), ("Contact", contact.clone())];
                }
                let mut inner = Want::Code(if inside { 200 } else { 481 });
                let mut body = vec![];
                let mut to_refer = None;
                match m {
                    "INVITE" | "UPDATE" => {
                        if s.coin() {
                            body = offer(s);
                            h.push(("Content-Type", "application/sdp".into()));
                        }
                        if matches!(x.cfg.sdp_profile, SdpProfile::None) && (m == "INVITE" || !body.is_empty()) && inside {
                            inner = Want::Code(488);
                        }
                        if m == "INVITE" && !inside {
                            continue;
                        }
                    }
                    "NOTIFY" => {
                        h.push(("Event", s.pick(&["presence", "refer", "dialog"]).to_string()));
                        h.push(("Subscription-State", "active".into()));
                        // subscriptions made by REFER live in the same dialog
                        inner = if inside { Want::Class(&[2, 4]) } else { Want::Code(481) };
                    }
                    "PRACK" => {
                        if s.chance(3, 4) {
                            h.push(("RAck", s.pick(&["9 1 INVITE", "77 1 INVITE", "x", "1 INVITE", "", "1 1 1"]).to_string()));
                        }
                        if inside {
                            inner = Want::Class(&[4, 5]);
                        }
                    }
                    "REFER" => {
                        let (host, open) = *s.pick(&HOSTS);
                        let p = s.opt(1, 2, |s| s.range(1024, 65535) as u16);
                        let mut u = format!("sip:zoe@{host}");
                        if let Some(p) = p {
                            u += &format!(":{p}");
                        }
                        // over TCP the transaction manager opens a connection of its own
                        u += ";transport=udp";
                        if s.chance(1, 5) {
                            u += "?Replaces=c%40d%3Bto-tag%3Dt1%3Bfrom-tag%3Df1";
                        }
                        let v = match s.below(3) {
                            0 => format!("Zoe <{u}>"),
                            _ => format!("<{u}>"),
                        };
                        if s.chance(1, 10) {
                            inner = Want::Code(400);
                        } else {
                            h.push(("Refer-To", v));
                            if inside {
                                inner = Want::Code(202);
                                let a: SocketAddr = format!("{host}:{}", p.unwrap_or(5060)).parse().unwrap();
                                to_refer = Some((open || x.cfg.features.allow_private_refer_targets).then_some(a));
                            }
                        }
                    }
                    _ => {}
                }
                let cr = if auth && !matches!(c, Cred::Good(_)) { c } else if auth { Cred::Good(user) } else { Cred::None };
                let i = x.send(s, m, &target, h, &body, cr, None, inner.clone()).await;
                let passed = x.sent[i].want == inner;
                if let Some(k) = k {
                    if m == "BYE" && passed {
                        x.calls[k].st = St::Down;
                        ctx.label("bye");
                    }
                }
                if let Some(t) = to_refer.filter(|_| passed) {
                    x.refers.push((i, t));
                    ctx.label(if t.is_some() { "refer" } else { "refer-blocked" });
                }
                x.settle(10).await;
            }
            // SUBSCRIBE
            3 => {
                let mut h = vec![("From", from.clone()), ("To", to.clone()), ("Call-ID", id.clone()), ("CSeq", format!("{cs} SUBSCRIBE")), ("Contact", contact.clone())];
                let mut inner = Want::Code(200);
                if s.chance(1, 8) {
                    inner = Want::Code(400);
                } else {
                    h.push(("Event", s.pick(&["presence", "dialog", "message-summary", "reg", "presence;id=7"]).to_string()));
                    if !x.cfg.features.auto_accept_subscriptions {
                        inner = Want::Code(603);
                    }
                }
                if s.chance(2, 3) {
                    h.push(("Expires", s.pick(&["0", "60", "3600", "7200"]).to_string()));
                }
                let i = x.send(s, "SUBSCRIBE", &target, h, b"", c, None, inner.clone()).await;
                if inner == Want::Code(200) && x.sent[i].want == inner {
                    x.subs.push(i);
                    ctx.label("subscribe");
                }
            }
            4 => {
                let h = vec![("From", from.clone()), ("To", to.clone()), ("Call-ID", id.clone()), ("CSeq", format!("{cs} OPTIONS"))];
                x.send(s, "OPTIONS", &target, h, b"", c, None, Want::Code(200)).await;
            }
            5 => {
                let m = *s.pick(&["MESSAGE", "PUBLISH", "FOO"]);
                let h = vec![("From", from.clone()), ("To", to.clone()), ("Call-ID", id.clone()), ("CSeq", format!("{cs} {m}")), ("Content-Type", "text/plain".into())];
                x.send(s, m, &target, h, b"hi", c, None, Want::Code(200)).await;
            }
            _ => {
                let aor = format!("<sip:{}@example.com>", USERS[user].0);
                let mut h = vec![("From", format!("{aor};tag={ft}")), ("To", aor), ("Call-ID", id.clone()), ("CSeq", format!("{cs} REGISTER")), ("Contact", contact.clone()), ("Expires", "600".into())];
                let mut inner = Want::Code(200);
                if s.chance(1, 4) {
                    let (k, v) = *s.pick(&[(1, "nonsense"), (1, "<sip:>"), (1, "<>"), (4, "*"), (4, "<sip:[::1>"), (4, "<nothing"), (4, ""), (5, "-1"), (5, "soon")]);
                    h[k].1 = v.into();
                    inner = Want::Class(&[2, 4, 5]);
                    ctx.label("odd-register");
                }
                let i = x.send(s, "REGISTER", "sip:example.com", h, b"", c, None, inner).await;
                x.settle(10).await;
                if x.sent[i].want == Want::Code(200) {
                    if let Some(r) = x.final_of(i).filter(|r| r.code() == 200) {
                        let u = contact.trim_matches(|c| c == '<' || c == '>');
                        ensure!(vals(r.headers(), "Contact").iter().any(|v| v.contains(u)), "register:contact", "{r:?}; {:?}", x.hist);
                    }
                }
            }
        }
        x.settle(*s.pick(&[1u64, 10, 40, 160, 160])).await;
        if let Some((i, _)) = x.sent.iter().enumerate().find(|(i, q)| q.at + 200 < x.now() && x.final_of(*i).is_none()) {
            return fail("response:none", format!("no final response to {:?}; {:?}", x.sent[i].req, x.hist));
        }
    }
    x.settle(700).await;
    // every call that is up can be ended, once; no other can
    for k in 0..x.calls.len() {
        for round in 0..2 {
            let cl = x.calls[k].clone();
            let Some(t) = cl.tag.clone() else { break };
            if auth {
                x.prime(s, 0).await;
            }
            x.calls[k].cseq += 1;
            let h = vec![("From", cl.from.clone()), ("To", format!("<sip:siphond@192.0.2.1>;tag={t}")), ("Call-ID", cl.id.clone()), ("CSeq", format!("{} BYE", x.calls[k].cseq))];
            let w = Want::Code(if cl.st == St::Up { 200 } else { 481 });
            let i = x.send(s, "BYE", "sip:siphond@192.0.2.1", h, b"", if auth { Cred::Good(0) } else { Cred::None }, None, w.clone()).await;
            if x.sent[i].want == w {
                x.calls[k].st = St::Down;
                if round == 1 {
                    break;
                }
            }
            x.settle(10).await;
        }
    }
    x.settle(300).await;
    judge(&x, ctx)
}
fn escaped(xml: &str) -> bool {
    // attribute values and character data hold no bare & or <
    let mut rest = xml;
    while let Some(i) = rest.find('&') {
        let e = &rest[i + 1..];
        let Some(j) = e.find(';') else { return false };
        if !["amp", "lt", "gt", "quot", "apos"].contains(&&e[..j]) && !e[..j].starts_with('#') {
            return false;
        }
        rest = &e[j..];
    }
    true
}
fn judge(x: &Sim, ctx: &mut Ctx) -> R {
    let hist = || format!("{:?}", x.hist);
    let allowed_keys: BTreeSet<(String, String)> = x.sent.iter().map(|q| (q.branch.clone(), val(q.req.headers(), "CSeq"))).collect();
    let mut outs: Vec<(u64, TransportKind, SocketAddr, Request)> = vec![];
    for (t, tr, to, b) in x.log.lock().unwrap().iter() {
        if b.starts_with(b"SIP/2.0 ") {
            let Some(r) = sip_parse::parse_response(&Bytes::from(b.clone())) else { return fail("response:form", format!("{:?}; {}", String::from_utf8_lossy(b), hist())) };
            let key = (branch(val(r.headers(), "Via").split(',').next().unwrap()), val(r.headers(), "CSeq"));
            ensure!(allowed_keys.contains(&key), "response:stray", "{r:?}; {}", hist());
            ensure_eq!(vals(r.headers(), "Content-Length").len() <= 1 && r.headers().get("Content-Length").is_none_or(|v| v == r.body().len().to_string()), true, "response:length", "{r:?}");
        } else {
            let Some(r) = sip_parse::parse_request(&Bytes::from(b.clone())) else { return fail("request:form", format!("{:?}; {}", String::from_utf8_lossy(b), hist())) };
            if !outs.iter().any(|o| o.3 == r) {
                // where the peer's response is to go, and how
                let host = x.cfg.local_uri.split(';').next().unwrap().rsplit([':', '@']).collect::<Vec<_>>();
                let by = if host[0].parse::<u16>().is_ok() { format!("{}:{}", host[1], host[0]) } else { host[0].to_string() };
                ensure!(val(r.headers(), "Via").starts_with(&format!("SIP/2.0/{} {by};", if *tr == TransportKind::Udp { "UDP" } else { "TCP" })), "request:via", "{r:?} over {tr:?}; {}", hist());
                outs.push((*t, *tr, *to, r));
            }
        }
    }
    for i in 0..x.sent.len() {
        let q = &x.sent[i];
        let rs = x.responses(i);
        let fin: Vec<&Response> = rs.iter().map(|r| &r.1).filter(|r| r.code() >= 200).collect();
        let d = || format!("{:?}; got {:?}; {}", q.req, rs, hist());
        ensure!(!fin.is_empty(), "response:none", "no final response to {}", d());
        ensure_eq!(fin.len(), 1, "response:once", "final responses to {}", d());
        ensure!(rs.last().unwrap().1.code() >= 200, "response:after", "provisional after the final one: {}", d());
        let f = fin[0];
        ensure!(q.want.ok(f.code()), "response:code", "expected {:?}, got {} for {}", q.want, f.code(), d());
        let mut tags = BTreeSet::new();
        for (_, r) in &rs {
            let (a, b) = (q.req.headers(), r.headers());
            for n in ["Via", "From", "Call-ID", "CSeq"] {
                ensure_eq!(vals(b, n), vals(a, n), "response:headers", "{n} of {}", d());
            }
            let (qt, rt) = (val(a, "To"), val(b, "To"));
            match (tag(&qt), tag(&rt)) {
                (Some(_), _) => ensure_eq!(rt, qt, "response:to", "To of {}", d()),
                (None, Some(t)) => {
                    ensure!(rt.starts_with(&qt), "response:to", "To of {}", d());
                    tags.insert(t);
                }
                (None, None) => ensure!(r.code() == 100, "response:to-tag", "no To tag in {}", d()),
            }
            ensure_eq!(vals(b, "To").len(), 1, "response:to", "To of {}", d());
        }
        ensure!(tags.len() <= 1, "response:one-tag", "tags {tags:?}: {}", d());
        let m = q.req.method().as_str();
        // nothing provisional leaves after the final response, not even again
        let done = rs.iter().find(|r| r.1.code() >= 200).unwrap().0;
        for (t, _, _, b) in x.log.lock().unwrap().iter() {
            let p = b.starts_with(b"SIP/2.0 1") && sip_parse::parse_response(&Bytes::from(b.clone())).is_some_and(|r| branch(val(r.headers(), "Via").split(',').next().unwrap()) == q.branch);
            ensure!(!p || *t <= done, "response:after", "{} at {t}: {}", String::from_utf8_lossy(b), d());
        }
        for (_, r) in &rs {
            // a reliable one is one the caller can acknowledge, and says so
            let rel = r.headers().get("RSeq").is_some();
            let may = x.cfg.features.enable_prack && val(q.req.headers(), "Supported").contains("100rel");
            ensure!(!rel || may && r.code() > 100 && r.code() < 200, "prack:reliable", "{}", d());
            ensure_eq!(rel, r.headers().get("Require").is_some_and(|v| v.contains("100rel")), "prack:reliable", "{}", d());
            ensure!(rel || !may || r.code() != 180, "prack:reliable", "{}", d());
        }
        match f.code() {
            401 => {
                let w = val(f.headers(), "WWW-Authenticate");
                ensure!(w.starts_with("Digest ") && param(&w, "realm") == x.cfg.auth.realm && !param(&w, "nonce").is_empty(), "auth:challenge", "{w}: {}", d());
                ctx.label("challenged");
            }
            200 if m == "OPTIONS" => {
                let al: Vec<String> = val(f.headers(), "Allow").split(',').map(|v| v.trim().to_string()).collect();
                ensure!(al.iter().all(|v| v == "ACK" || x.handled(v)), "options:allow", "{al:?} in {}", d());
                ensure!(al.iter().any(|v| v == "INVITE") == x.handled("INVITE"), "options:allow", "{al:?} in {}", d());
            }
            200 if m == "INVITE" => {
                ensure!(val(f.headers(), "Contact").contains(&x.cfg.local_uri), "invite:contact", "{}", d());
                let n = |b: &[u8]| String::from_utf8_lossy(b).lines().filter(|l| l.starts_with("m=")).count();
                ensure!(n(f.body()) > 0, "invite:sdp", "{}", d());
                if x.cfg.features.enable_session_timers && (tag(&val(q.req.headers(), "To")).is_none() || q.req.headers().get("Session-Expires").is_some()) {
                    // RFC 4028 9: the interval asked for is never lengthened, and the refresher is named
                    let asked = q.req.headers().get("Session-Expires").and_then(|v| v.split(';').next().unwrap().trim().parse::<u32>().ok());
                    let v = val(f.headers(), "Session-Expires");
                    let got = v.split(';').next().unwrap().trim().parse::<u32>();
                    ensure!(got.as_ref().is_ok_and(|g| *g >= 90 && asked.is_none_or(|a| *g <= a)), "invite:session", "asked {asked:?}, answered {v:?}: {}", d());
                    ensure!(asked.is_none() || v.contains("refresher="), "invite:refresher", "asked {asked:?}, answered {v:?}: {}", d());
                }
                // how profiles::negotiate_answer pairs the sections is C10's business
                ctx.label("accepted");
            }
            200 if m == "SUBSCRIBE" => {
                let e = q.req.headers().get("Expires").unwrap_or("3600");
                ensure_eq!(val(f.headers(), "Expires"), e, "subscribe:expires", "{}", d());
            }
            _ => {}
        }
    }
    // what the daemon sends of its own accord
    let mut left: Vec<&(u64, TransportKind, SocketAddr, Request)> = outs.iter().collect();
    let mut take = |f: &dyn Fn(&Request) -> bool| {
        let (a, b): (Vec<_>, Vec<_>) = left.iter().partition(|o| f(&o.3));
        left = b;
        a
    };
    for i in x.subs.iter().copied().chain(x.refers.iter().map(|r| r.0)) {
        let (q, f) = (&x.sent[i].req, x.final_of(i).unwrap());
        let refer = q.method().as_str() == "REFER";
        let event = if refer { "refer".to_string() } else { q.headers().get("Event").unwrap().to_string() };
        let state0 = if q.headers().get("Expires") == Some("0") { "terminated" } else { "active" };
        let seq = val(q.headers(), "CSeq");
        let ns = take(&|r| r.method().as_str() == "NOTIFY" && val(r.headers(), "Call-ID") == val(q.headers(), "Call-ID") && (!refer || {
            // the CSeq numbers of a REFER's NOTIFYs go on from its own
            let n: u32 = val(r.headers(), "CSeq").split(' ').next().unwrap().parse().unwrap();
            let from: u32 = seq.split(' ').next().unwrap().parse().unwrap();
            n > from
        }));
        if refer {
            continue;
        }
        ensure_eq!(ns.len(), 1, "notify:count", "NOTIFYs for {q:?}: {ns:?}; {}", hist());
        let n = &ns[0].3;
        let d = || format!("{n:?} for {q:?}; {}", hist());
        ensure_eq!(tag(&val(n.headers(), "From")), tag(&val(f.headers(), "To")), "notify:from", "{}", d());
        ensure_eq!(tag(&val(n.headers(), "To")), tag(&val(q.headers(), "From")), "notify:to", "{}", d());
        ensure_eq!(format!("<{}>", n.uri()), val(q.headers(), "Contact"), "notify:target", "{}", d());
        ensure_eq!(val(n.headers(), "Event"), event, "notify:event", "{}", d());
        ensure_eq!(val(n.headers(), "Subscription-State").split(';').next().unwrap(), state0, "notify:state", "{}", d());
        for h in ["Content-Type", "Content-Length", "CSeq", "Call-ID", "Max-Forwards", "Contact", "Event"] {
            ensure!(vals(n.headers(), h).len() <= 1, "notify:once", "{h}: {}", d());
        }
        if val(n.headers(), "Content-Type").ends_with("+xml") {
            ensure!(escaped(std::str::from_utf8(n.body()).unwrap()), "notify:xml", "{}", d());
        }
        ensure_eq!((ns[0].1, ns[0].2), (x.sent[i].tr, SocketAddr::from(([192, 0, 2, 7], 5060))), "notify:where", "{}", d());
    }
    let invites: Vec<_> = take(&|r| r.method().as_str() == "INVITE").into_iter().cloned().collect();
    let mut due = 0;
    for (i, want) in &x.refers {
        let q = &x.sent[*i].req;
        let rt = val(q.headers(), "Refer-To");
        let to = sip_core::SipUri::parse(rt.split_once('<').unwrap().1.split(['?', '>']).next().unwrap()).unwrap();
        let n = x.refers.iter().filter(|r| val(x.sent[r.0].req.headers(), "Refer-To").contains(to.as_str()) && r.1.is_some()).count();
        let mine: Vec<_> = invites.iter().filter(|o| o.3.uri().to_string() == to.as_str() && o.0 >= x.sent[*i].at && o.0 <= x.sent[*i].at + 5).collect();
        let d = || format!("{mine:?} of {invites:?} for {q:?}; {}", hist());
        match want {
            None => ensure!(mine.is_empty(), "refer:blocked", "{}", d()),
            Some(a) => {
                due += 1;
                ensure!(mine.len() == 1 || n > 1 && !mine.is_empty(), "refer:invite", "{}", d());
                ensure_eq!((mine[0].1, mine[0].2), (TransportKind::Udp, *a), "refer:target", "{}", d());
                if n == 1 {
                    ensure_eq!(val(mine[0].3.headers(), "Replaces"), if rt.contains("Replaces") { "c@d;to-tag=t1;from-tag=f1" } else { "" }, "refer:replaces", "{}", d());
                }
            }
        }
    }
    ensure_eq!(invites.len(), due, "refer:stray", "{invites:?}; {}", hist());
    if x.refers.is_empty() {
        ensure!(left.is_empty(), "request:stray", "{left:?}; {}", hist());
    }
    // timers of ended calls
    for c in &x.calls {
        if let Some(t) = &c.tag {
            let id = sip_dialog::DialogId::unchecked_new(c.id.as_str(), t.as_str(), tag(&c.from).unwrap().as_str());
            ensure!(c.st == St::Up || !x.services.session_timer_mgr.has_timer(&id), "bye:timer", "{c:?}; {}", hist());
            ensure!(c.st == St::Up || x.services.dialog_mgr.get(&id).is_none(), "bye:dialog", "{c:?}; {}", hist());
        }
    }
    ensure_eq!(x.services.dialog_mgr.count(), x.calls.iter().filter(|c| c.st == St::Up).count(), "dialogs:count", "{}", hist());
    if x.sent.len() >= 3 && x.calls.iter().any(|c| c.tag.is_some()) {
        ctx.nontrivial(&hist());
    }
    ctx.desc(|| hist());
    Ok(())
}
fn run<F: std::future::Future<Output = R>>(f: F) -> R {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap().block_on(f)
}
fn hist(s: &mut Src, ctx: &mut Ctx) -> R {
    run(history(s, ctx))
}
fn hdrs(x: &Sim, m: &str, id: &str) -> Vec<(&'static str, String)> {
    let mut h = vec![("From", "<sip:alice@example.com>;tag=a1".to_string()), ("To", "<sip:siphond@192.0.2.1>".to_string()), ("Call-ID", id.to_string()), ("CSeq", format!("{} {m}", x.n + 1)), ("Contact", "<sip:alice@192.0.2.7:5062>".to_string())];
    match m {
        "SUBSCRIBE" => h.push(("Event", "presence".into())),
        "REGISTER" => {
            h[1].1 = "<sip:alice@example.com>".into();
            h.push(("Expires", "600".into()));
        }
        "PUBLISH" | "MESSAGE" => h.push(("Content-Type", "text/plain".into())),
        _ => {}
    }
    h
}
/// Requests from several addresses, more than the limits allow.
async fn flood_(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = config(s);
    cfg.mode = DaemonMode::FullUas;
    cfg.sdp_profile = SdpProfile::AudioOnly;
    cfg.features.auto_accept_calls = true;
    cfg.features.auto_accept_subscriptions = true;
    let file = users_file(0o600);
    cfg.auth.users_file = Some(file.0.clone());
    let auth = cfg.features.authentication;
    let mut x = sim(cfg, false);
    x.plain = true;
    let ips: [std::net::IpAddr; 4] = ["192.0.2.7".parse().unwrap(), "192.0.2.8".parse().unwrap(), "2001:db8::7".parse().unwrap(), "192.0.2.70".parse().unwrap()];
    // left of each budget: authentication, INVITE, REGISTER
    let full = [3u32, 10, 10];
    let mut left = [full; 4];
    let mut blocked = 0;
    let mut passed = 0;
    let heavy = s.idx(4);
    let main = *s.pick(&["INVITE", "REGISTER", "SUBSCRIBE", "INVITE"]);
    for _ in 0..s.range(3, 40) {
        let k = if s.chance(3, 4) { heavy } else { s.idx(4) };
        x.peer = SocketAddr::new(ips[k], 1024 + s.below(60000) as u16);
        let m = if s.chance(2, 3) { main } else { *s.pick(&["INVITE", "REGISTER", "SUBSCRIBE", "OPTIONS", "MESSAGE"]) };
        let id = format!("flood{}", x.n);
        let body = if m == "INVITE" { offer(s) } else { vec![] };
        let mut h = hdrs(&x, m, &id);
        if m == "INVITE" {
            h.push(("Content-Type", "application/sdp".into()));
        }
        let authed = auth && !matches!(m, "OPTIONS" | "REGISTER");
        let mut want = Want::Code(if authed || auth && m == "REGISTER" { 401 } else { 200 });
        // which budget says no
        let b = if authed { Some(0) } else { match m { "INVITE" => Some(1), "REGISTER" => Some(2), _ => None } };
        if let Some(b) = b {
            if left[k][b] == 0 {
                want = Want::Code(503);
                blocked += 1;
            } else {
                left[k][b] -= 1;
                passed += 1;
            }
        }
        let i = x.send(s, m, "sip:siphond@192.0.2.1", h, &body, Cred::None, None, want.clone()).await;
        x.sent[i].want = want.clone();
        x.settle(150).await;
        let rs = x.responses(i);
        let Some(f) = x.final_of(i) else { return fail("response:none", format!("no final response to {:?}; {:?}", x.sent[i].req, x.hist)) };
        ensure!(want.ok(f.code()), "flood:code", "expected {want:?}, got {rs:?} from {}: {:?}", x.peer, x.hist);
        if f.code() == 503 {
            ensure!(f.headers().get("Retry-After").is_some_and(|v| v.trim().parse::<u32>().is_ok_and(|v| v > 0)), "flood:retry", "{f:?}");
            ensure_eq!(rs.len(), 1, "flood:effect", "{rs:?}");
        }
        let b = format!("branch={}", x.sent[i].branch);
        let to: Vec<SocketAddr> = x.log.lock().unwrap().iter().filter(|l| String::from_utf8_lossy(&l.3).contains(&b)).map(|l| l.2).collect();
        ensure!(to.iter().all(|l| *l == x.peer), "flood:where", "{to:?} {}", x.peer);
    }
    ctx.label(if blocked > 0 { "blocked" } else { "free" });
    if blocked > 0 && passed > 0 {
        ctx.nontrivial(&format!("{:?}", x.hist));
    }
    ctx.desc(|| format!("{:?}", x.hist));
    Ok(())
}
fn flood(s: &mut Src, ctx: &mut Ctx) -> R {
    vlib::clock::start();
    run(flood_(s, ctx))
}
/// Who may log in, by how the users file stands.
async fn users_(s: &mut Src, ctx: &mut Ctx) -> R {
    let mode = 0o400 | s.below(0o400) as u32 & if s.chance(1, 3) { 0o700 } else { 0o777 };
    let file = users_file(mode);
    let broken = s.chance(1, 6);
    if broken {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&file.0, std::fs::Permissions::from_mode(0o600)).unwrap();
        std::fs::write(&file.0, *s.pick(&["", "{\"alice\": \"s3cret\"", "[\"alice\"]", "{\"alice\": 7}", "alice: s3cret"])).unwrap();
        std::fs::set_permissions(&file.0, std::fs::Permissions::from_mode(mode)).unwrap();
    }
    let absent = !broken && s.chance(1, 10);
    let mut cfg = config(s);
    cfg.mode = DaemonMode::FullUas;
    cfg.features.authentication = true;
    cfg.features.auto_accept_subscriptions = true;
    cfg.auth.users_file = if absent { s.coin().then(|| "/nonexistent/verif-users".into()) } else { Some(file.0.clone()) };
    if s.coin() {
        cfg.auth.realm = format!("r{}", alnum(s, 1, 8));
    }
    let usable = mode & 0o077 == 0 && !broken && !absent;
    let mut x = sim(cfg, true);
    x.plain = true;
    let user = s.idx(2);
    let reg = s.coin();
    let k = if reg { 4 } else { 0 };
    let c = match s.weighted(&[5, 1, 1, 1]) {
        0 => Cred::Good(user),
        1 => Cred::Wrong,
        2 => Cred::Unknown,
        _ => Cred::None,
    };
    for u in [user, 2, 3] {
        x.prime(s, u + k).await;
        ensure!(x.nonces[u + k].is_some(), "users:challenge", "{mode:o}");
    }
    let m = if reg { "REGISTER" } else { *s.pick(&["SUBSCRIBE", "MESSAGE"]) };
    let mut h = hdrs(&x, m, "u1");
    if reg {
        let aor = format!("<sip:{}@example.com>", USERS[user].0);
        h[0].1 = format!("{aor};tag=a1");
        h[1].1 = aor;
    }
    let ok = usable && c == Cred::Good(user);
    let i = x.send(s, m, "sip:example.com", h, b"", c, None, Want::Code(200)).await;
    x.settle(100).await;
    let Some(f) = x.final_of(i) else { return fail("response:none", format!("{:?}", x.sent[i].req)) };
    ensure_eq!(f.code(), if ok { 200 } else { 401 }, "users:code", "mode {mode:o} broken {broken} absent {absent} {c:?} {:?}: {f:?}", x.sent[i].req);
    if c == Cred::Good(user) {
        ctx.nontrivial(&format!("{mode:o} {broken} {absent} {m} {user}"));
        ctx.label(if ok { "in" } else { "out" });
    }
    ctx.desc(|| format!("mode {mode:o} broken {broken} absent {absent} {c:?} {m}"));
    Ok(())
}
fn users(s: &mut Src, ctx: &mut Ctx) -> R {
    run(users_(s, ctx))
}
/// The call a REFER asked for, and what its sender hears of it.
async fn transfer_(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = DaemonConfig { mode: DaemonMode::FullUas, sdp_profile: if s.coin() { SdpProfile::AudioOnly } else { SdpProfile::AudioVideo }, local_uri: s.pick(&["sip:siphond@192.0.2.1", "sip:siphond@192.0.2.1:5070"]).to_string(), ..Default::default() };
    let mut x = sim(cfg, true);
    x.plain = true;
    x.cfg.features.enable_refer = true;
    let sock = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    sock.set_nonblocking(true).unwrap();
    let _ = x.services.set_udp_socket(Arc::new(tokio::net::UdpSocket::from_std(sock).unwrap()));
    let _ = sip_transport::take_sent();
    let mut h = hdrs(&x, "INVITE", "t1");
    h.push(("Content-Type", "application/sdp".into()));
    let body = offer(s);
    let i = x.send(s, "INVITE", "sip:siphond@192.0.2.1", h, &body, Cred::None, None, Want::Code(200)).await;
    x.settle(200).await;
    let Some(f) = x.final_of(i).filter(|r| r.code() == 200) else { return fail("transfer:call", format!("{:?}", x.responses(i))) };
    let dtag = tag(&val(f.headers(), "To")).unwrap_or_default();
    let cs = s.range(10, 1000) as u32;
    let host = *s.pick(&["8.8.8.8", "93.184.216.34", "[2600::1]"]);
    let port = s.opt(1, 2, |s| s.range(1024, 65535) as u16);
    let target = format!("sip:zoe@{host}{}", port.map(|p| format!(":{p}")).unwrap_or_default());
    let addr: SocketAddr = format!("{host}:{}", port.unwrap_or(5060)).parse().unwrap();
    let contact = format!("sip:alice@192.0.2.7:{}", 5060 + s.below(9));
    let dead = s.chance(1, 8);
    x.fail.store(dead, std::sync::atomic::Ordering::Relaxed);
    let h = vec![("From", "<sip:alice@example.com>;tag=a1".to_string()), ("To", format!("<sip:siphond@192.0.2.1>;tag={dtag}")), ("Call-ID", "t1".into()), ("CSeq", format!("{cs} REFER")), ("Contact", format!("<{contact}>")), ("Refer-To", format!("<{target};transport=udp>"))];
    let r = x.send(s, "REFER", "sip:siphond@192.0.2.1", h, b"", Cred::None, None, Want::Code(202)).await;
    x.settle(20).await;
    ensure!(x.final_of(r).is_some_and(|f| f.code() == 202), "transfer:refer", "{:?}", x.responses(r));
    let reqs = |x: &Sim, m: &str| -> Vec<(SocketAddr, Request)> {
        let mut v: Vec<(SocketAddr, Request)> = vec![];
        for (_, _, to, b) in x.log.lock().unwrap().iter() {
            if b.starts_with(m.as_bytes()) {
                let r = sip_parse::parse_request(&Bytes::from(b.clone())).unwrap();
                if !v.iter().any(|y| y.1 == r) {
                    v.push((*to, r));
                }
            }
        }
        v
    };
    // status lines the transferor is to hear, in order; None for a failure of the daemon's own choosing
    let mut want: Vec<Option<(u16, String)>> = vec![Some((100, "Trying".into()))];
    let mut ack = None;
    let mut said = vec![];
    if dead {
        want.push(None);
        said.push("unreachable".to_string());
    } else {
        let inv = reqs(&x, "INVITE ");
        ensure_eq!(inv.len(), 1, "transfer:invite", "{inv:?}");
        let (to, inv) = inv[0].clone();
        ensure_eq!((to, inv.uri().to_string()), (addr, format!("{target};transport=udp")), "transfer:target", "{inv:?}");
        ensure!(inv.body().starts_with(b"v=0"), "transfer:offer", "{inv:?}");
        let zt = alnum(s, 1, 6);
        let zc = format!("sip:zoe@{}", *s.pick(&["192.0.2.99", "192.0.2.98:5090", "zoe.example.com;transport=udp"]));
        let resp = |code: u16, reason: &str| {
            let mut o = format!("SIP/2.0 {code} {reason}\r\n");
            for n in ["Via", "From", "Call-ID", "CSeq"] {
                for v in vals(inv.headers(), n) {
                    o += &format!("{n}: {v}\r\n");
                }
            }
            o += &format!("To: {}{}\r\n", val(inv.headers(), "To"), if code == 100 { String::new() } else { format!(";tag={zt}") });
            if code > 100 && code < 300 {
                o += &format!("Contact: <{zc}>\r\n");
            }
            o += "Content-Length: 0\r\n\r\n";
            sip_parse::parse_response(&Bytes::from(o)).unwrap()
        };
        for _ in 0..s.weighted(&[2, 3, 2, 1]) {
            let (c, t) = *s.pick(&[(100u16, "Trying"), (180, "Ringing"), (183, "Session Progress"), (181, "Call Is Being Forwarded"), (182, "Queued, 2nd")]);
            said.push(format!("{c}"));
            x.mgr.receive_response(resp(c, t)).await;
            want.push(Some((c, t.into())));
            x.settle(*s.pick(&[1, 50, 700, 3000])).await;
        }
        match s.weighted(&[4, 4, 1]) {
            0 => {
                let (c, t) = *s.pick(&[(200u16, "OK"), (200, "Fine"), (200, ""), (202, "Accepted")]);
                x.mgr.receive_response(resp(c, t)).await;
                said.push(format!("{c}"));
                want.push(Some((c, t.into())));
                ack = Some((zc, zt.clone(), inv.clone()));
            }
            1 => {
                let (c, t) = *s.pick(&[(486u16, "Busy Here"), (404, "Not Found"), (302, "Moved Temporarily"), (480, ""), (403, "Nicht möglich"), (603, "Decline"), (500, "Server Error"), (487, "Gone (really)")]);
                x.mgr.receive_response(resp(c, t)).await;
                said.push(format!("{c}"));
                want.push(Some((c, t.into())));
                if s.coin() {
                    x.settle(100).await;
                    x.mgr.receive_response(resp(c, t)).await;
                    said.push(format!("{c}"));
                }
            }
            // no final response to be had
            _ if want.len() == 1 => {
                want.push(None);
                said.push("silence".to_string());
            }
            // ringing goes on
            _ => {}
        }
    }
    x.settle(200_000).await;
    let ns = reqs(&x, "NOTIFY ");
    let d = || format!("{said:?}: {:?}", ns.iter().map(|n| (val(n.1.headers(), "CSeq"), val(n.1.headers(), "Subscription-State"), String::from_utf8_lossy(n.1.body()).to_string())).collect::<Vec<_>>());
    ensure_eq!(ns.len(), want.len(), "transfer:notifies", "wanted {want:?}, {}", d());
    let mut last = 0;
    for (i, ((to, n), w)) in ns.iter().zip(&want).enumerate() {
        let h = n.headers();
        let d = || format!("{i}: {n:?} in {}", d());
        let line = String::from_utf8_lossy(n.body()).lines().next().unwrap_or("").to_string();
        let fin = match w {
            Some((c, t)) => {
                ensure_eq!(line, format!("SIP/2.0 {c} {t}"), "transfer:status", "{}", d());
                *c >= 200
            }
            None => {
                ensure!(line.starts_with("SIP/2.0 4") || line.starts_with("SIP/2.0 5"), "transfer:status", "{}", d());
                true
            }
        };
        let st = val(h, "Subscription-State");
        ensure_eq!(st.split(';').next().unwrap().trim(), if fin { "terminated" } else { "active" }, "transfer:state", "{}", d());
        ensure!(val(h, "Event").split(';').next() == Some("refer"), "transfer:event", "{}", d());
        ensure!(val(h, "Content-Type").starts_with("message/sipfrag"), "transfer:type", "{}", d());
        ensure_eq!(val(h, "Call-ID"), "t1", "transfer:dialog", "{}", d());
        ensure_eq!((tag(&val(h, "From")), tag(&val(h, "To"))), (Some(dtag.clone()), Some("a1".into())), "transfer:dialog", "{}", d());
        ensure_eq!(n.uri().to_string(), contact.clone(), "transfer:contact", "{}", d());
        ensure_eq!(*to, x.peer, "transfer:where", "{}", d());
        let c: u32 = val(h, "CSeq").split(' ').next().unwrap().parse().unwrap();
        ensure!(i == 0 || c == last + 1, "transfer:cseq", "{}", d());
        last = c;
    }
    let acks: Vec<_> = sip_transport::take_sent();
    match ack {
        None => ensure!(acks.is_empty(), "transfer:ack", "{acks:?}"),
        Some((zc, zt, inv)) => {
            ensure_eq!(acks.len(), 1, "transfer:ack", "{acks:?} {said:?}");
            let a = sip_parse::parse_request(&Bytes::from(acks[0].2.clone())).unwrap();
            ensure_eq!((acks[0].0, acks[0].1), ("udp", addr), "transfer:ack-where", "{a:?}");
            ensure_eq!((a.method().as_str().to_string(), a.uri().to_string()), ("ACK".into(), zc), "transfer:ack-line", "{a:?}");
            ensure_eq!(tag(&val(a.headers(), "To")), Some(zt), "transfer:ack-to", "{a:?}");
            for n in ["From", "Call-ID"] {
                ensure_eq!(val(a.headers(), n), val(inv.headers(), n), "transfer:ack-headers", "{a:?}");
            }
            ensure_eq!(val(a.headers(), "CSeq"), val(inv.headers(), "CSeq").replace("INVITE", "ACK"), "transfer:ack-cseq", "{a:?}");
        }
    }
    ctx.label(said.last().map(|v| if v.starts_with('2') { "answered" } else if v.parse::<u16>().is_ok() { "refused" } else { "dead" }).unwrap_or("silence"));
    ctx.nontrivial(&format!("{said:?} {target} {contact}"));
    ctx.desc(|| d());
    Ok(())
}
/// A call whose session the caller keeps alive, or not.
async fn session_(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = DaemonConfig { mode: DaemonMode::FullUas, sdp_profile: SdpProfile::AudioOnly, local_uri: "sip:siphond@192.0.2.1".into(), ..Default::default() };
    cfg.features.enable_session_timers = true;
    let mut x = sim(cfg, true);
    x.plain = true;
    let mut rx = x.services.session_timer_mgr.subscribe().await;
    let mut h = hdrs(&x, "INVITE", "s1");
    let role = *s.pick(&["", ";refresher=uac", ";refresher=uas", "; Refresher=UAS"]);
    let asked = s.opt(4, 5, |s| if s.coin() { s.range(90, 400) } else { s.range(90, 86400) });
    if let Some(a) = asked {
        h.push(("Session-Expires", format!("{a}{role}")));
        h.push(("Supported", "timer".into()));
    }
    let i = x.send(s, "INVITE", "sip:siphond@192.0.2.1", h, b"", Cred::None, None, Want::Code(200)).await;
    x.settle(150).await;
    let Some(f) = x.final_of(i).filter(|r| r.code() == 200) else { return fail("session:call", format!("{:?}", x.responses(i))) };
    let dtag = tag(&val(f.headers(), "To")).unwrap_or_default();
    let id = sip_dialog::DialogId::unchecked_new("s1", dtag.as_str(), "a1");
    let read = |v: &str| -> (u64, String) { (v.split(';').next().unwrap().trim().parse().unwrap_or(0), v.split_once("refresher=").map(|x| x.1.to_ascii_lowercase()).unwrap_or_default()) };
    let mut refresher = "uac".to_string();
    let (mut len, mut last) = (0, 100u64);
    let mut seen = vec![format!("asked {asked:?}{role}")];
    let check = |asked: Option<u64>, role: &str, f: &Response, len: &mut u64, refresher: &mut String| -> R {
        let v = val(f.headers(), "Session-Expires");
        if let Some(a) = asked {
            let (n, r) = read(&v);
            ensure!(n >= 90 && n <= a, "session:length", "asked {a}, answered {v:?}");
            let role = role.to_ascii_lowercase();
            let want = role.split_once('=').map(|x| x.1.to_string());
            ensure!(want.as_ref().is_none_or(|w| *w == r) && (r == "uac" || r == "uas"), "session:refresher", "asked {role:?}, answered {v:?}");
            ensure!(r == "uas" || vals(f.headers(), "Require").iter().any(|v| v.contains("timer")), "session:require", "{f:?}");
            *refresher = r;
            *len = n * 1000;
        } else if !v.is_empty() {
            *len = read(&v).0 * 1000;
        }
        Ok(())
    };
    check(asked, role, &f, &mut len, &mut refresher)?;
    ensure!(len >= 90_000, "session:length", "{f:?}");
    let mut cseq = 10;
    let mut over = false;
    for _ in 0..s.range(1, 5) {
        // just before the end, just after it, or sooner
        let left = (last + len).saturating_sub(x.now());
        let d = match s.weighted(&[4, 2, 1]) {
            0 => s.range(1, left.max(2) - 1),
            1 => left.saturating_sub(1000),
            _ => left + 1000,
        };
        x.settle(d).await;
        over |= x.now() > last + len;
        let mut ex = vec![];
        while let Ok(e) = rx.try_recv() {
            ex.push(e);
        }
        use sip_dialog::session_timer_manager::SessionTimerEvent as E;
        let gone = ex.iter().any(|e| *e == E::SessionExpired(id.clone()));
        ensure_eq!(gone, over, "session:expiry", "at {} of {last}+{len}: {ex:?}; {seen:?}", x.now());
        ensure!(refresher == "uas" || !ex.contains(&E::RefreshNeeded(id.clone())), "session:who", "{ex:?}; {seen:?}");
        ensure!(refresher != "uas" || over && len < 2000 || x.now() < last + len / 2 || ex.contains(&E::RefreshNeeded(id.clone())) || seen.last().is_some_and(|v| v.starts_with("due")), "session:due", "at {} of {last}+{len} {ex:?}; {seen:?}", x.now());
        if over {
            break;
        }
        if refresher == "uas" && x.now() >= last + len / 2 {
            seen.push("due".into());
        }
        cseq += 1;
        let m = *s.pick(&["UPDATE", "INVITE", "INFO"]);
        let mut h = vec![("From", "<sip:alice@example.com>;tag=a1".to_string()), ("To", format!("<sip:siphond@192.0.2.1>;tag={dtag}")), ("Call-ID", "s1".into()), ("CSeq", format!("{cseq} {m}")), ("Contact", "<sip:alice@192.0.2.7:5062>".into())];
        let again = (m != "INFO").then(|| s.opt(3, 4, |s| s.range(90, 500))).flatten();
        let role = *s.pick(&["", ";refresher=uac", ";refresher=uas"]);
        if let Some(a) = again {
            h.push(("Session-Expires", format!("{a}{role}")));
            h.push(("Supported", "timer".into()));
        }
        let at = x.now();
        let i = x.send(s, m, "sip:siphond@192.0.2.1", h, b"", Cred::None, None, Want::Code(200)).await;
        x.settle(20).await;
        let Some(f) = x.final_of(i).filter(|r| r.code() == 200) else { return fail("session:refresh", format!("{:?}; {seen:?}", x.responses(i))) };
        if m != "INFO" {
            check(again, role, &f, &mut len, &mut refresher)?;
            last = at;
            seen.push(format!("{m} at {at} {again:?}{role}"));
        }
    }
    ctx.label(if over { "expired" } else { "alive" });
    if seen.len() > 1 {
        ctx.nontrivial(&format!("{seen:?}"));
    }
    ctx.desc(|| format!("{seen:?} {over}"));
    Ok(())
}
fn session(s: &mut Src, ctx: &mut Ctx) -> R {
    run(session_(s, ctx))
}
fn transfer(s: &mut Src, ctx: &mut Ctx) -> R {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(transfer_(s, ctx))
}
/// Prefixes a REFER may not make the daemon call, unless allowed to.
const CLOSED: [(&str, u32); 22] = [
    ("127.0.0.0", 8),
    ("10.0.0.0", 8),
    ("172.16.0.0", 12),
    ("192.168.0.0", 16),
    ("169.254.0.0", 16),
    ("0.0.0.0", 32),
    ("224.0.0.0", 4),
    ("255.255.255.255", 32),
    ("192.0.2.0", 24),
    ("198.51.100.0", 24),
    ("203.0.113.0", 24),
    ("100.64.0.0", 10),
    ("198.18.0.0", 15),
    ("192.0.0.0", 24),
    ("::1", 128),
    ("::", 128),
    ("fe80::", 10),
    ("fc00::", 7),
    ("fd00::", 8),
    ("ff00::", 8),
    ("2001:db8::", 32),
    ("ff02::", 16),
];
fn closed(a: std::net::IpAddr) -> bool {
    use std::net::IpAddr;
    if let IpAddr::V6(v) = a {
        if let Some(m) = v.to_ipv4_mapped() {
            return closed(IpAddr::V4(m));
        }
    }
    CLOSED.iter().any(|(p, n)| match (p.parse::<IpAddr>().unwrap(), a) {
        (IpAddr::V4(p), IpAddr::V4(a)) => (u32::from(p) ^ u32::from(a)).checked_shr(32 - n).unwrap_or(0) == 0,
        (IpAddr::V6(p), IpAddr::V6(a)) => (u128::from(p) ^ u128::from(a)).checked_shr(128 - n).unwrap_or(0) == 0,
        _ => false,
    })
}
fn address(s: &mut Src) -> std::net::IpAddr {
    use std::net::IpAddr;
    let (p, n) = *s.pick(&CLOSED);
    let edge = s.below(5);
    let a = match p.parse().unwrap() {
        IpAddr::V4(p) => {
            let (p, w) = (u32::from(p), 32 - n);
            let host = if w == 32 { u32::MAX } else { (1u32 << w) - 1 };
            let v = match edge {
                0 => p,
                1 => p | host,
                2 => p.wrapping_sub(1),
                3 => (p | host).wrapping_add(1),
                _ => p | (s.below(u32::MAX as u64 + 1) as u32 & host),
            };
            let v4 = std::net::Ipv4Addr::from(v);
            if s.chance(1, 5) { IpAddr::V6(v4.to_ipv6_mapped()) } else { IpAddr::V4(v4) }
        }
        IpAddr::V6(p) => {
            let (p, w) = (u128::from(p), 128 - n);
            let host = if w == 0 { 0 } else { (1u128 << w) - 1 };
            IpAddr::V6(std::net::Ipv6Addr::from(match edge {
                0 => p,
                1 => p | host,
                _ => p | (((s.below(1 << 60) as u128) << 64 | s.below(1 << 60) as u128) & host),
            }))
        }
    };
    // what is neither one nor the other is left out: 0/8, 240/4, and the corners of IPv6
    match a {
        _ if closed(a) => a,
        IpAddr::V4(v) if v.octets()[0] == 0 || v.octets()[0] >= 224 => "8.8.8.8".parse().unwrap(),
        IpAddr::V6(v) if v.to_ipv4_mapped().is_some_and(|v| v.octets()[0] == 0 || v.octets()[0] >= 224) => "8.8.4.4".parse().unwrap(),
        a => a,
    }
}
/// Where REFERs may lead.
async fn targets_(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = DaemonConfig { mode: DaemonMode::FullUas, sdp_profile: SdpProfile::AudioOnly, local_uri: "sip:siphond@192.0.2.1".into(), ..Default::default() };
    cfg.features.allow_private_refer_targets = s.chance(1, 6);
    let open = cfg.features.allow_private_refer_targets;
    let mut x = sim(cfg, true);
    x.plain = true;
    let h = hdrs(&x, "INVITE", "r1");
    let i = x.send(s, "INVITE", "sip:siphond@192.0.2.1", h, b"", Cred::None, None, Want::Code(200)).await;
    x.settle(150).await;
    let Some(f) = x.final_of(i).filter(|r| r.code() == 200) else { return fail("targets:call", format!("{:?}", x.responses(i))) };
    let dtag = tag(&val(f.headers(), "To")).unwrap_or_default();
    let mut said = vec![];
    for k in 0..s.range(1, 8) {
        let a = address(s);
        let port = s.opt(1, 2, |s| s.range(1024, 65535) as u16);
        let host = if a.is_ipv6() { format!("[{a}]") } else { a.to_string() };
        let u = format!("sip:z{k}@{host}{};transport=udp", port.map(|p| format!(":{p}")).unwrap_or_default());
        let n0 = x.log.lock().unwrap().len();
        let h = vec![("From", "<sip:alice@example.com>;tag=a1".to_string()), ("To", format!("<sip:siphond@192.0.2.1>;tag={dtag}")), ("Call-ID", "r1".into()), ("CSeq", format!("{} REFER", 10 + k)), ("Contact", "<sip:alice@192.0.2.7:5062>".into()), ("Refer-To", format!("<{u}>"))];
        let r = x.send(s, "REFER", "sip:siphond@192.0.2.1", h, b"", Cred::None, None, Want::Code(202)).await;
        x.settle(5).await;
        ensure!(x.final_of(r).is_some_and(|f| f.code() == 202), "targets:refer", "{:?}", x.responses(r));
        let mut to = vec![];
        let mut frags = vec![];
        for (_, _, w, b) in x.log.lock().unwrap()[n0..].iter() {
            let Some(q) = sip_parse::parse_request(&Bytes::from(b.clone())) else { continue };
            let me = q.uri().to_string() == u;
            match q.method().as_str() {
                "INVITE" if me => to.push(*w),
                "NOTIFY" => frags.push(String::from_utf8_lossy(q.body()).trim().to_string()),
                _ => {}
            }
        }
        let ok = open || !closed(a);
        let at = SocketAddr::new(a, port.unwrap_or(5060));
        ensure_eq!(to, if ok { vec![at] } else { vec![] }, "targets:called", "{u} (private ones allowed: {open})");
        let refused = frags.iter().any(|f| f.starts_with("SIP/2.0 403"));
        ensure_eq!(refused, !ok, "targets:told", "{u}: {frags:?}");
        said.push(format!("{a} {ok}"));
    }
    if said.iter().any(|v| v.ends_with("false")) {
        ctx.nontrivial(&format!("{said:?}"));
        ctx.label("closed");
    }
    if said.iter().any(|v| v.ends_with("true")) {
        ctx.label("open");
    }
    ctx.desc(|| format!("{said:?}"));
    Ok(())
}
fn targets(s: &mut Src, ctx: &mut Ctx) -> R {
    run(targets_(s, ctx))
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "a history of at least three requests in which a call got a To tag",
        assumptions: &["endpoint modes; rate limiters off in histories"],
        units: vec![unit!("history", 1500, 60000, hist), unit!("flood", 120, 5000, flood), unit!("users", 120, 5000, users), unit!("transfer", 200, 10000, transfer), unit!("session", 200, 10000, session), unit!("targets", 300, 10000, targets)],
    }]
}
