//! C25: several transactions at once in the transaction manager, against one model per transaction.
use crate::fsm::{self, Ev, Fx, Kind, Machine, Model, Op, Times, REQ, T};
use crate::g;
use async_trait::async_trait;
use bytes::Bytes;
use sip_core::{Method, Request, Response};
use sip_transaction::*;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

/// What the outside world sees of one transaction.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Show {
    /// tried to send the request (REQ) or a response to a target; the last says whether it worked
    Send(usize, u16, bool),
    Deliver(usize),
    /// asked to acknowledge a response, towards a target
    Ack(usize, bool, u16),
    Prack(usize, u16),
    Unreachable,
    Failed,
}
type Log = Arc<Mutex<Vec<(u64, usize, Show)>>>;

/// Targets that do not answer: (port, from, to) in ms.
type Down = Vec<(u16, u64, u64)>;
fn down(d: &Down, port: u16, now: u64) -> bool {
    d.iter().any(|x| x.0 == port && x.1 <= now && now < x.2)
}
struct Wire {
    log: Log,
    t0: Instant,
    down: Down,
    /// the bytes of every message that may be sent: transaction and number
    known: BTreeMap<Vec<u8>, (usize, usize)>,
    strange: Arc<Mutex<Vec<String>>>,
}
fn ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64
}
#[async_trait]
impl TransportDispatcher for Wire {
    async fn dispatch(&self, ctx: &TransportContext, payload: Bytes) -> anyhow::Result<()> {
        let (port, now) = (ctx.peer().port(), ms(self.t0));
        let bad = down(&self.down, port, now);
        match self.known.get(payload.as_ref()) {
            Some((slot, i)) => self.log.lock().unwrap().push((now, *slot, Show::Send(*i, port, !bad))),
            None => self.strange.lock().unwrap().push(format!("sent {payload:?}")),
        }
        if bad {
            anyhow::bail!("down")
        }
        Ok(())
    }
}
struct User {
    slot: usize,
    key: TransactionKey,
    resps: Vec<Response>,
    log: Log,
    t0: Instant,
    strange: Arc<Mutex<Vec<String>>>,
}
impl User {
    fn put(&self, key: &TransactionKey, s: Show) {
        if *key != self.key {
            self.strange.lock().unwrap().push(format!("{key:?} reported to the user of {:?}", self.key));
        }
        self.log.lock().unwrap().push((ms(self.t0), self.slot, s));
    }
    fn no(&self, r: &Response) -> usize {
        self.resps.iter().position(|x| x == r).unwrap_or_else(|| {
            self.strange.lock().unwrap().push(format!("delivered to {}: {r:?}", self.slot));
            REQ + 1
        })
    }
}
#[async_trait]
impl ClientTransactionUser for User {
    async fn on_provisional(&self, key: &TransactionKey, r: &Response) {
        if r.code() >= 200 {
            self.strange.lock().unwrap().push(format!("{} as provisional", r.code()));
        }
        self.put(key, Show::Deliver(self.no(r)))
    }
    async fn on_final(&self, key: &TransactionKey, r: &Response) {
        if r.code() < 200 {
            self.strange.lock().unwrap().push(format!("{} as final", r.code()));
        }
        self.put(key, Show::Deliver(self.no(r)))
    }
    async fn on_terminated(&self, key: &TransactionKey, _reason: &str) {
        self.put(key, Show::Failed)
    }
    async fn send_ack(&self, key: &TransactionKey, r: Response, ctx: &TransportContext, is_2xx: bool) {
        self.put(key, Show::Ack(self.no(&r), is_2xx, ctx.peer().port()))
    }
    async fn send_prack(&self, key: &TransactionKey, r: Response, ctx: &TransportContext) {
        self.put(key, Show::Prack(self.no(&r), ctx.peer().port()))
    }
    async fn on_transport_error(&self, key: &TransactionKey) {
        self.put(key, Show::Unreachable)
    }
}

struct Slot {
    kind: Kind,
    method: &'static str,
    branch: String,
    tr: TransportKind,
    /// ports
    targets: Vec<u16>,
    req: Request,
    resps: Vec<Response>,
    codes: Vec<(u16, bool)>,
}
impl Slot {
    fn server(&self) -> bool {
        matches!(self.kind, Kind::Server | Kind::ServerInvite)
    }
    fn ctx(&self, i: usize) -> TransportContext {
        let stream = matches!(self.tr, TransportKind::Tcp).then(|| tokio::sync::mpsc::channel(1).0);
        TransportContext::new(self.tr, SocketAddr::from(([192, 0, 2, 1], self.targets[i])), stream)
    }
    fn key(&self) -> TransactionKey {
        TransactionKey::new(self.branch.as_str(), Method::from_token(self.method).unwrap(), self.server())
    }
}
fn via_with(s: &mut Src, branch: &str) -> String {
    let mut ps: Vec<String> = vec![];
    for p in ["rport", "received=192.0.2.7", "alias", "xbranch=z9hG4bKno"] {
        if s.chance(1, 6) {
            ps.push(p.into());
        }
    }
    let i = s.idx(ps.len() + 1);
    ps.insert(i, format!("{}={branch}", s.pick(&["branch", "branch", "branch", "Branch", "BRANCH"])));
    format!("SIP/2.0/UDP {}{}", s.pick(&["a.example.com", "192.0.2.9:5070", "[2001:db8::2]:5060"]), ps.iter().map(|p| format!(";{p}")).collect::<String>())
}
/// Via and CSeq as a message of the transaction carries them.
fn marks(s: &mut Src, branch: &str, method: &str) -> Vec<(&'static str, String)> {
    let top = via_with(s, branch);
    let mut h = vec![];
    match s.below(4) {
        0 => {
            h.push(("Via", top));
            h.push(("Via", via_with(s, "z9hG4bKbelow")));
        }
        1 => h.push(("Via", format!("{top}, {}", via_with(s, "z9hG4bKbelow")))),
        _ => h.push(("Via", top)),
    }
    h.push(("CSeq", format!("{}{}{method}", s.range(1, 99999), s.pick(&[" ", " ", "  ", "\t"]))));
    h
}
fn slot(s: &mut Src, n: usize, used: &mut Vec<(String, String, bool)>) -> Slot {
    let (kind, method) = loop {
        let kind = *s.pick(&[Kind::ClientInvite, Kind::Client, Kind::ServerInvite, Kind::Server]);
        let method = match kind {
            Kind::ClientInvite | Kind::ServerInvite => "INVITE",
            _ => *s.pick(&["CANCEL", "BYE", "OPTIONS", "INFO"]),
        };
        break (kind, method);
    };
    let server = matches!(kind, Kind::Server | Kind::ServerInvite);
    // few branches, so that only the method or the side tells transactions apart
    let mut branch = s.pick(&["z9hG4bKa", "z9hG4bKb", "z9hG4bKab", "old.style"]).to_string();
    while used.contains(&(branch.clone(), method.into(), server)) {
        branch.push(*s.pick(&['a', '1', '.']));
    }
    used.push((branch.clone(), method.into(), server));
    let (codes, plain) = fsm::responses(s, kind == Kind::ClientInvite);
    let resps = plain
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let mut h = marks(s, &branch, method);
            h.extend(r.headers().iter().filter(|x| x.name() != "X-N").map(|x| (if x.name() == "RSeq" { "RSeq" } else { "Require" }, x.value().to_string())));
            h.push(("X-N", format!("{n}.{i}")));
            g::resp(r.code(), &h, b"")
        })
        .collect();
    let mut h = marks(s, &branch, method);
    h.push(("Max-Forwards", "70".into()));
    h.push(("X-N", format!("{n}.r")));
    let req = g::req(method, "sip:b@example.com", &h, if s.coin() { b"body" } else { b"" });
    let k = if server { 1 } else { s.urange(1, 3) };
    Slot {
        kind,
        method,
        branch,
        tr: *s.pick(&[TransportKind::Udp, TransportKind::Udp, TransportKind::Udp, TransportKind::Tcp, TransportKind::Tls, TransportKind::Ws, TransportKind::Wss]),
        targets: (0..k).map(|j| 1000 + 10 * n as u16 + j as u16).collect(),
        req,
        resps,
        codes,
    }
}
/// Events of the script; the second is the transaction.
#[derive(Debug, Clone)]
enum Do {
    To(usize, Ev),
    /// a message that belongs to none
    Stray(String, Option<Response>, Option<Request>),
}
struct Live {
    m: Model,
    timers: BTreeMap<T, u64>,
    target: usize,
    rest: usize,
}
struct Sim<'a> {
    slots: &'a [Slot],
    live: Vec<Option<Live>>,
    down: &'a Down,
    times: Times,
    out: Vec<(u64, usize, Show)>,
    /// two timers of one transaction were due at once: either may come first
    clash: bool,
}
impl Sim<'_> {
    fn ev(&mut self, n: usize, now: u64, e: Ev) {
        let slot = &self.slots[n];
        if self.live[n].is_none() {
            let open = matches!(e, Ev::Start) || (slot.server() && e == Ev::Again);
            if !open {
                return;
            }
            let udp = slot.tr == TransportKind::Udp;
            self.live[n] =
                Some(Live { m: Model::new(slot.kind, Times { udp, ..self.times }, slot.codes.clone()), timers: BTreeMap::new(), target: 0, rest: slot.targets.len() - 1 });
            self.apply(n, now, Ev::Start);
            return;
        }
        self.apply(n, now, e);
    }
    fn apply(&mut self, n: usize, now: u64, e: Ev) {
        let slot = &self.slots[n];
        let l = self.live[n].as_mut().unwrap();
        let (fx, ops) = l.m.step(e);
        for o in ops {
            match o {
                Op::Set(t, d) => {
                    l.timers.insert(t, now + d / 1_000_000);
                }
                Op::Stop(t) => {
                    l.timers.remove(&t);
                }
            }
        }
        let mut broken = false;
        for f in fx {
            let port = slot.targets[l.target];
            match f {
                Fx::Send(i) => loop {
                    let port = slot.targets[l.target];
                    let bad = down(self.down, port, now);
                    self.out.push((now, n, Show::Send(i, port, !bad)));
                    if !bad {
                        break;
                    }
                    if l.rest == 0 {
                        broken = true;
                        break;
                    }
                    l.rest -= 1;
                    l.target += 1;
                },
                Fx::Deliver(i) => self.out.push((now, n, Show::Deliver(i))),
                Fx::Ack(i, ok) => self.out.push((now, n, Show::Ack(i, ok, port))),
                Fx::Prack(i) => self.out.push((now, n, Show::Prack(i, port))),
                Fx::Failed => self.out.push((now, n, Show::Failed)),
                Fx::Over => {}
            }
        }
        if broken && !l.m.done() {
            let (fx, _) = l.m.step(Ev::Error);
            if !slot.server() {
                self.out.push((now, n, Show::Unreachable));
            }
            if fx.contains(&Fx::Failed) {
                self.out.push((now, n, Show::Failed));
            }
        }
        if l.m.done() {
            self.live[n] = None;
        }
    }
    /// Fires all timers due up to `until`.
    fn timers(&mut self, until: u64) {
        loop {
            let due = self.live.iter().enumerate().filter_map(|(n, l)| l.as_ref().and_then(|l| l.timers.iter().map(|(t, d)| (*d, n, *t)).min())).min();
            match due {
                Some((d, n, t)) if d <= until => {
                    self.clash |= self.live[n].as_ref().unwrap().timers.values().filter(|x| **x == d).count() > 1;
                    self.live[n].as_mut().unwrap().timers.remove(&t);
                    self.apply(n, d, Ev::Timer(t));
                }
                _ => return,
            }
        }
    }
}
/// Every event has its own residue modulo this, and every interval is a multiple of it.
const GRID: u64 = 100;

fn interleave(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = 1_000_000;
    let (t1, t2, t4) = match s.below(3) {
        0 => (500, 4000, 5000),
        1 => {
            let a = GRID * s.range(1, 9);
            (a, a + GRID * s.range(0, 70), GRID * s.range(1, 60))
        }
        _ => (GRID * s.range(1, 5), 4000, 5000),
    };
    let times = Times { t1: t1 * m, t2: t2 * m, t4: t4 * m, udp: true };
    let mut used = vec![];
    let n = s.urange(1, 5);
    let slots: Vec<Slot> = (0..n).map(|i| slot(s, i, &mut used)).collect();
    // outages
    let mut gone: Down = vec![];
    for sl in &slots {
        for p in &sl.targets {
            if s.chance(1, 4) {
                let from = *s.pick(&[0, 0, t1, 3 * t1, 10 * t1]);
                gone.push((*p, from, from + *s.pick(&[1, t1 + 1, 2 * t1, 20 * t1, 1_000_000])));
            }
        }
    }
    // script
    let mut sc: Vec<(u64, Do)> = vec![];
    for (i, sl) in slots.iter().enumerate() {
        let start = s.below(20) * GRID * s.below(2);
        sc.push((start, Do::To(i, if sl.server() { Ev::Again } else { Ev::Start })));
        for _ in 0..s.urange(0, 7) {
            let off = match s.below(5) {
                0 => 0,
                1 => s.below(t1),
                2 => s.below(4 * t1),
                3 => *s.pick(&[t1, 3 * t1, 7 * t1, 15 * t1, 64 * t1, t4, t2, 32_000, 64 * t1 + t4]),
                _ => s.below(70 * t1 + t4),
            };
            let e = match s.weighted(&[3, 4, if sl.server() { 4 } else { 0 }, if sl.kind == Kind::ServerInvite { 3 } else { 0 }]) {
                0 => Ev::Prov(s.idx(3)),
                1 => Ev::Final(3 + s.idx(3)),
                2 => Ev::Again,
                _ => Ev::Ack,
            };
            sc.push((start + off / GRID * GRID, Do::To(i, e)));
        }
    }
    // messages for nobody
    for _ in 0..s.urange(0, 4) {
        let at = s.below(20 * t1) / GRID * GRID;
        let sl = s.pick(&slots);
        let code = *s.pick(&[100u16, 180, 200, 404, 487]);
        let taken = |b: &str, m: &str, srv: bool| used.iter().any(|x| x.0 == b && x.1 == m && x.2 == srv);
        let (what, h) = match s.below(5) {
            0 => {
                let other = *s.pick(&["INVITE", "BYE", "ACK", "OPTIONS", "CANCEL", "INFO", "REGISTER"]);
                if taken(&sl.branch, other, false) {
                    continue;
                }
                (format!("branch {} with method {other}", sl.branch), marks(s, &sl.branch, other))
            }
            1 => {
                let b = *s.pick(&["z9hG4bK", "z9hG4bKb2", "z9hG4bKA", "Z9HG4BKa2", "a"]);
                (format!("branch {b}"), marks(s, b, sl.method))
            }
            2 => ("no branch".into(), vec![("Via", "SIP/2.0/UDP a;rport".to_string()), ("Via", via_with(s, &sl.branch)), ("CSeq", format!("1 {}", sl.method))]),
            3 => ("no Via".into(), vec![("CSeq", format!("1 {}", sl.method))]),
            _ => ("no method".into(), vec![("Via", via_with(s, &sl.branch)), ("CSeq", s.pick(&["1", "", sl.method]).to_string())]),
        };
        sc.push((at, Do::Stray(what, Some(g::resp(code, &h, b"")), None)));
    }
    // an ACK that no INVITE transaction waits for
    for _ in 0..s.urange(0, 2) {
        let b = *s.pick(&["z9hG4bKack", "z9hG4bKa", "z9hG4bKb"]);
        if !used.iter().any(|x| x.0 == b && x.1 == "INVITE" && x.2) {
            let h = marks(s, b, "ACK");
            sc.push((s.below(20 * t1) / GRID * GRID, Do::Stray("ACK".into(), None, Some(g::req("ACK", "sip:b@example.com", &h, b"")))));
        }
    }
    sc.sort_by_key(|x| x.0);
    if sc.len() as u64 >= GRID {
        return Ok(());
    }
    for (i, x) in sc.iter_mut().enumerate() {
        x.0 += i as u64;
    }
    sc.sort_by_key(|x| x.0);
    // as for the machines alone: a 2xx after a refusal is open
    let mut refused = vec![false; n];
    sc.retain(|x| match &x.1 {
        Do::To(i, Ev::Final(r)) if slots[*i].kind == Kind::ClientInvite => {
            let ok = slots[*i].codes[*r].0 / 100 == 2;
            if !ok {
                refused[*i] = true;
            }
            !(ok && refused[*i])
        }
        _ => true,
    });
    let end = sc.last().unwrap().0 + 64 * t1 + t4 + 33_000;
    ctx.desc(|| {
        format!(
            "t1 {t1} t2 {t2} t4 {t4} transactions {:?} down {gone:?} script {:?}",
            slots.iter().map(|x| (x.kind, x.method, &x.branch, x.tr, &x.targets, &x.codes)).collect::<Vec<_>>(),
            sc.iter().map(|x| (x.0, match &x.1 {
                Do::To(i, e) => format!("{i}:{e:?}"),
                Do::Stray(w, r, _) => format!("stray {w} {:?}", r.as_ref().map(|r| r.code())),
            })).collect::<Vec<_>>()
        )
    });
    // the model
    let mut sim = Sim { slots: &slots, live: (0..n).map(|_| None).collect(), down: &gone, times, out: vec![], clash: false };
    for (at, d) in &sc {
        sim.timers(*at);
        if let Do::To(i, e) = d {
            sim.ev(*i, *at, *e);
        }
    }
    sim.timers(end);
    if sim.clash {
        ctx.label("timer clash");
        return Ok(());
    }
    let want = sim.out;
    if n > 1 && sc.len() > n + 2 {
        ctx.nontrivial(format!("{t1}/{t2}/{t4} {used:?} {gone:?} {}", sc.iter().map(|x| format!("{}{:?}", x.0, match &x.1 { Do::To(i, e) => (*i, format!("{e:?}")), Do::Stray(w, ..) => (99, w.clone()) })).collect::<String>()));
    }
    // the library
    let (got, strange) = real(&slots, &sc, &gone, times, end);
    ensure!(strange.is_empty(), "txm:content", "{strange:?}");
    for i in 0..n {
        let of = |v: &[(u64, usize, Show)]| {
            let mut v: Vec<(u64, Show)> = v.iter().filter(|x| x.1 == i).map(|x| (x.0, x.2.clone())).collect();
            v.sort();
            v
        };
        let (w, g) = (of(&want), of(&got));
        if let Some(k) = (0..w.len().max(g.len())).find(|k| w.get(*k) != g.get(*k)) {
            return fail(
                "txm:trace",
                format!("transaction {i} ({:?} {}): after {:?} got {:?}, expected {:?}", slots[i].kind, slots[i].method, &w[k.saturating_sub(3)..k], g.get(k), w.get(k)),
            );
        }
    }
    Ok(())
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
fn real(slots: &[Slot], sc: &[(u64, Do)], gone: &Down, t: Times, end: u64) -> (Vec<(u64, usize, Show)>, Vec<String>) {
    let log: Log = Default::default();
    let strange: Arc<Mutex<Vec<String>>> = Default::default();
    let mut known = BTreeMap::new();
    for (n, sl) in slots.iter().enumerate() {
        if sl.server() {
            for (i, r) in sl.resps.iter().enumerate() {
                known.insert(sip_parse::serialize_response(r).to_vec(), (n, i));
            }
        } else {
            known.insert(sip_parse::serialize_request(&sl.req).to_vec(), (n, REQ));
        }
    }
    let rt = runtime();
    rt.block_on(async {
        let t0 = Instant::now();
        let d = |x: u64| Duration::from_nanos(x);
        let mgr = TransactionManager::with_timers(
            Arc::new(Wire { log: log.clone(), t0, down: gone.clone(), known, strange: strange.clone() }),
            d(t.t1),
            d(t.t2),
            d(t.t4),
        );
        let mut handles: Vec<Option<ServerTransactionHandle>> = slots.iter().map(|_| None).collect();
        for (at, what) in sc {
            tokio::time::sleep_until(t0 + Duration::from_millis(*at)).await;
            match what {
                Do::Stray(_, Some(r), _) => mgr.receive_response(r.clone()).await,
                Do::Stray(_, _, Some(r)) => {
                    mgr.receive_request(r.clone(), slots[0].ctx(0)).await;
                }
                Do::Stray(..) => {}
                Do::To(n, e) => {
                    let sl = &slots[*n];
                    match (sl.server(), e) {
                        (false, Ev::Start) => {
                            let ctxs = (0..sl.targets.len()).map(|i| sl.ctx(i)).collect();
                            let tu = Arc::new(User { slot: *n, key: sl.key(), resps: sl.resps.clone(), log: log.clone(), t0, strange: strange.clone() });
                            match mgr.start_client_transaction_with_targets(sl.req.clone(), ctxs, tu).await {
                                Ok(k) if k == sl.key() => {}
                                o => strange.lock().unwrap().push(format!("start gave {o:?}")),
                            }
                        }
                        (false, Ev::Prov(i) | Ev::Final(i)) => mgr.receive_response(sl.resps[*i].clone()).await,
                        (true, Ev::Again) => {
                            let h = mgr.receive_request(sl.req.clone(), sl.ctx(0)).await;
                            if *h.key() != sl.key() {
                                strange.lock().unwrap().push(format!("request {n} went to {:?}", h.key()));
                            }
                            handles[*n] = Some(h);
                        }
                        (true, Ev::Prov(i)) => match (&handles[*n], at % 2) {
                            (Some(h), 0) => h.send_provisional(sl.resps[*i].clone()).await,
                            _ => mgr.send_provisional(&sl.key(), sl.resps[*i].clone()).await,
                        },
                        (true, Ev::Final(i)) => match (&handles[*n], at % 2) {
                            (Some(h), 0) => h.send_final(sl.resps[*i].clone()).await,
                            _ => mgr.send_final(&sl.key(), sl.resps[*i].clone()).await,
                        },
                        (true, Ev::Ack) => {
                            if at % 2 == 0 {
                                let h = [("Via", format!("SIP/2.0/UDP h;branch={}", sl.branch)), ("CSeq", "1 ACK".to_string())];
                                mgr.receive_request(g::req("ACK", "sip:b@example.com", &h, b""), sl.ctx(0)).await;
                            } else {
                                mgr.ack_received(&sl.key()).await;
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        tokio::time::sleep_until(t0 + Duration::from_millis(end)).await;
        tokio::task::yield_now().await;
    });
    drop(rt);
    let l = log.lock().unwrap().clone();
    let s = strange.lock().unwrap().clone();
    (l, s)
}

/// At the limit the oldest transaction goes, its user is told, and only it is affected.
fn limits(s: &mut Src, ctx: &mut Ctx) -> R {
    let (ms_, mc) = (s.urange(1, 5), s.urange(1, 5));
    let n = s.urange(1, 12);
    let servers: Vec<bool> = (0..n).map(|_| s.coin()).collect();
    let slots: Vec<Slot> = servers
        .iter()
        .enumerate()
        .map(|(i, server)| {
            let kind = match (server, s.coin()) {
                (true, true) => Kind::ServerInvite,
                (true, false) => Kind::Server,
                (false, true) => Kind::ClientInvite,
                (false, false) => Kind::Client,
            };
            let method = if matches!(kind, Kind::Server | Kind::Client) { "OPTIONS" } else { "INVITE" };
            let branch = format!("z9hG4bK{i}");
            let h = |x: String| vec![("Via", format!("SIP/2.0/UDP h;branch={branch}")), ("CSeq", format!("1 {method}")), ("Max-Forwards", "70".into()), ("X-N", x)];
            let resps = (0..2).map(|j| g::resp([180, 486][j], &h(format!("{i}.{j}")), b"")).collect();
            let req = g::req(method, "sip:b@example.com", &h(format!("{i}.r")), b"");
            Slot { kind, method, branch: branch.clone(), tr: TransportKind::Udp, targets: vec![1000 + i as u16], req, resps, codes: vec![(180, false), (486, false)] }
        })
        .collect();
    let acks = s.vec(0, 3, |s| s.idx(n));
    let again = s.chance(1, 2);
    let over = |server: bool, max: usize| (0..n).filter(|i| servers[*i] == server).rev().skip(max).collect::<Vec<_>>();
    let (gone_s, gone_c) = (over(true, ms_), over(false, mc));
    ctx.desc(|| format!("limits {ms_} {mc} servers {servers:?} acks after {acks:?} again {again}"));
    if !gone_s.is_empty() || !gone_c.is_empty() {
        ctx.nontrivial(format!("{ms_} {mc} {servers:?} {acks:?} {again} {:?}", slots.iter().map(|x| x.method).collect::<Vec<_>>()));
    }
    let log: Log = Default::default();
    let strange: Arc<Mutex<Vec<String>>> = Default::default();
    let mut known = BTreeMap::new();
    for (i, sl) in slots.iter().enumerate() {
        for (j, r) in sl.resps.iter().enumerate() {
            known.insert(sip_parse::serialize_response(r).to_vec(), (i, j));
        }
        known.insert(sip_parse::serialize_request(&sl.req).to_vec(), (i, REQ));
    }
    runtime().block_on(async {
        let t0 = Instant::now();
        let mgr = TransactionManager::with_limits(
            Arc::new(Wire { log: log.clone(), t0, down: vec![], known, strange: strange.clone() }),
            TransactionLimits::new(ms_, mc),
        );
        for (i, sl) in slots.iter().enumerate() {
            if sl.server() {
                mgr.receive_request(sl.req.clone(), sl.ctx(0)).await;
                if again {
                    mgr.receive_request(sl.req.clone(), sl.ctx(0)).await;
                }
            } else {
                let tu = Arc::new(User { slot: i, key: sl.key(), resps: sl.resps.clone(), log: log.clone(), t0, strange: strange.clone() });
                let _ = mgr.start_client_transaction(sl.req.clone(), sl.ctx(0), tu).await;
            }
            if acks.contains(&i) {
                // the ACK for a 2xx makes a request of its own, but no transaction
                let h = [("Via", format!("SIP/2.0/UDP h;branch=z9hG4bKack{i}")), ("CSeq", "1 ACK".to_string())];
                mgr.receive_request(g::req("ACK", "sip:b@example.com", &h, b""), sl.ctx(0)).await;
            }
            tokio::task::yield_now().await;
        }
        tokio::time::sleep_until(t0 + Duration::from_millis(10)).await;
        for sl in &slots {
            if sl.server() {
                mgr.send_final(&sl.key(), sl.resps[1].clone()).await;
            } else {
                mgr.receive_response(sl.resps[0].clone()).await;
            }
        }
        tokio::time::sleep_until(t0 + Duration::from_millis(400)).await;
    });
    let strange = strange.lock().unwrap().clone();
    ensure!(strange.is_empty(), "txm:content", "{strange:?}");
    let log = log.lock().unwrap().clone();
    for (i, sl) in slots.iter().enumerate() {
        let shown: Vec<Show> = log.iter().filter(|x| x.1 == i).map(|x| x.2.clone()).collect();
        let mut want = vec![];
        if sl.server() {
            if !gone_s.contains(&i) {
                want.push(Show::Send(1, sl.targets[0], true));
            }
        } else {
            want.push(Show::Send(REQ, sl.targets[0], true));
            want.push(if gone_c.contains(&i) { Show::Failed } else { Show::Deliver(0) });
        }
        ensure_eq!(shown, want, "txm:limits", "transaction {i} {:?}", sl.kind);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "several transactions and at least three messages beyond their first; a limit that is exceeded",
        assumptions: &[
            "server transactions are keyed by branch and method; the library leaves sent-by out (documented in SECURITY_AUDIT)",
            "a finished transaction leaves the table: later responses to it are dropped and a later request starts anew",
            "timer A is capped at T2, and an INVITE server transaction ends with its 2xx",
        ],
        units: vec![unit!("interleave", 120_000, 3_000_000, interleave), unit!("limits", 60_000, 1_000_000, limits)],
    }]
}
