//! C24: the four transaction state machines against models of RFC 3261 section 17.
//!
//! A script of network and user events runs on a virtual clock. The library's machine and the model
//! each keep their own timers; what each shows to the outside, and when, must be the same.
use crate::g;
use bytes::Bytes;
use sip_core::{Request, Response};
use sip_transaction::timers::{TimerDefaults, Transport, TransportAwareTimers};
use sip_transaction::*;
use std::collections::BTreeMap;
use std::time::Duration;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

/// What happens to a machine. Numbers are indices into the responses of the script.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ev {
    Start,
    Prov(usize),
    Final(usize),
    /// the request again (server machines)
    Again,
    Ack,
    Cancel,
    Error,
    Timer(T),
    /// a timer event that was under way when the timer was cancelled
    Stray(T),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    A,
    E,
    G,
    B,
    F,
    H,
    D,
    I,
    J,
    K,
}
const ALL: [(T, TransactionTimer); 10] = [
    (T::A, TransactionTimer::A),
    (T::B, TransactionTimer::B),
    (T::D, TransactionTimer::D),
    (T::E, TransactionTimer::E),
    (T::F, TransactionTimer::F),
    (T::G, TransactionTimer::G),
    (T::H, TransactionTimer::H),
    (T::I, TransactionTimer::I),
    (T::J, TransactionTimer::J),
    (T::K, TransactionTimer::K),
];
fn lib(t: T) -> TransactionTimer {
    ALL.iter().find(|x| x.0 == t).unwrap().1
}
fn own(t: TransactionTimer) -> Option<T> {
    ALL.iter().find(|x| x.1 == t).map(|x| x.0)
}
/// What a machine shows. `REQ` stands for the request.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fx {
    Send(usize),
    Deliver(usize),
    Ack(usize, bool),
    Prack(usize),
    /// the transaction user is told that the transaction failed
    Failed,
    /// the machine is done
    Over,
}
pub const REQ: usize = 999;
#[derive(Debug, Clone, Copy)]
pub enum Op {
    Set(T, u64),
    Stop(T),
}
pub trait Machine {
    fn step(&mut self, e: Ev) -> (Vec<Fx>, Vec<Op>);
    fn done(&self) -> bool;
}
pub type Trace = Vec<(u64, Vec<Fx>)>;
/// Runs the script, times in nanoseconds; timers fire in between. `strays` says which stray timer
/// events the model admits (those of timers that do not run in it).
pub fn run(m: &mut dyn Machine, script: &[(u64, Ev)], end: u64, strays: Option<&[bool]>) -> (Trace, Vec<bool>) {
    let mut timers: BTreeMap<T, u64> = BTreeMap::new();
    let mut out: Trace = vec![];
    let mut admitted = vec![];
    let mut over = false;
    let mut apply = |m: &mut dyn Machine, timers: &mut BTreeMap<T, u64>, now: u64, e: Ev| {
        let (mut fx, ops) = m.step(e);
        for o in ops {
            match o {
                Op::Set(t, d) => {
                    timers.insert(t, now + d);
                }
                Op::Stop(t) => {
                    timers.remove(&t);
                }
            }
        }
        if m.done() && !over {
            over = true;
            fx.push(Fx::Over);
        }
        if m.done() {
            timers.clear();
        }
        if !fx.is_empty() {
            fx.sort();
            match out.last_mut() {
                Some(l) if l.0 == now => {
                    l.1.extend(fx);
                    l.1.sort();
                }
                _ => out.push((now, fx)),
            }
        }
    };
    let mut n = 0;
    loop {
        let due = timers.iter().map(|(t, d)| (*d, *t)).min();
        let next = script.get(n).map(|x| x.0);
        match (due, next) {
            (Some((d, t)), _) if d <= end && next.map_or(true, |x| d <= x) => {
                timers.remove(&t);
                apply(m, &mut timers, d, Ev::Timer(t));
            }
            (_, Some(x)) if x <= end => {
                let e = script[n].1;
                n += 1;
                if let Ev::Stray(t) = e {
                    let ok = match strays {
                        None => !timers.contains_key(&t),
                        Some(v) => v[admitted.len()],
                    };
                    admitted.push(ok);
                    if !ok {
                        continue;
                    }
                }
                apply(m, &mut timers, x, e);
            }
            _ => break,
        }
    }
    (out, admitted)
}

// ---------------------------------------------------------------- models

#[derive(Debug, Clone, Copy)]
pub struct Times {
    pub t1: u64,
    pub t2: u64,
    pub t4: u64,
    pub udp: bool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum St {
    First,
    Proceeding,
    Completed,
    Confirmed,
    Terminated,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    ClientInvite,
    Client,
    ServerInvite,
    Server,
}
/// RFC 3261 section 17, with the two points the library documents: timer A is capped at T2 like
/// the others, and an INVITE server transaction ends with its 2xx.
pub struct Model {
    pub kind: Kind,
    st: St,
    t: Times,
    codes: Vec<(u16, bool)>,
    every: u64,
    last: Option<usize>,
}
impl Model {
    pub fn new(kind: Kind, t: Times, codes: Vec<(u16, bool)>) -> Model {
        Model { kind, st: St::First, t, codes, every: t.t1, last: None }
    }
    fn ok(&self, i: usize) -> bool {
        self.codes[i].0 / 100 == 2
    }
    fn wait(&self, d: u64) -> u64 {
        if self.t.udp {
            d
        } else {
            0
        }
    }
}
impl Machine for Model {
    fn done(&self) -> bool {
        self.st == St::Terminated
    }
    fn step(&mut self, e: Ev) -> (Vec<Fx>, Vec<Op>) {
        use Ev::*;
        use St::*;
        let (t, udp) = (self.t, self.t.udp);
        let (mut fx, mut ops) = (vec![], vec![]);
        if let Stray(_) = e {
            return (fx, ops);
        }
        match (self.kind, self.st, e) {
            (Kind::ClientInvite, First, Start) => {
                fx.push(Fx::Send(REQ));
                if udp {
                    ops.push(Op::Set(T::A, t.t1));
                }
                ops.push(Op::Set(T::B, 64 * t.t1));
            }
            (Kind::ClientInvite, First, Timer(T::A)) => {
                fx.push(Fx::Send(REQ));
                self.every = (2 * self.every).min(t.t2);
                ops.push(Op::Set(T::A, self.every));
            }
            (Kind::ClientInvite, First, Timer(T::B)) => {
                fx.push(Fx::Failed);
                self.st = Terminated;
            }
            (Kind::ClientInvite, First | Proceeding, Prov(i)) => {
                fx.push(Fx::Deliver(i));
                if self.codes[i].1 {
                    fx.push(Fx::Prack(i));
                }
                ops.extend([Op::Stop(T::A), Op::Stop(T::B)]);
                self.st = Proceeding;
            }
            (Kind::ClientInvite, First | Proceeding | Terminated, Final(i)) if self.ok(i) => {
                fx.extend([Fx::Deliver(i), Fx::Ack(i, true)]);
                self.st = Terminated;
            }
            (Kind::ClientInvite, First | Proceeding, Final(i)) => {
                fx.extend([Fx::Deliver(i), Fx::Ack(i, false)]);
                ops.extend([Op::Stop(T::A), Op::Stop(T::B), Op::Set(T::D, self.wait(32_000_000_000))]);
                self.st = Completed;
            }
            (Kind::ClientInvite, Completed, Final(i)) => fx.push(Fx::Ack(i, false)),
            (Kind::ClientInvite, Completed, Timer(T::D)) => self.st = Terminated,

            (Kind::Client, First, Start) => {
                fx.push(Fx::Send(REQ));
                if udp {
                    ops.push(Op::Set(T::E, t.t1));
                }
                ops.push(Op::Set(T::F, 64 * t.t1));
            }
            (Kind::Client, First | Proceeding, Timer(T::E)) => {
                fx.push(Fx::Send(REQ));
                self.every = if self.st == Proceeding { t.t2 } else { (2 * self.every).min(t.t2) };
                ops.push(Op::Set(T::E, self.every));
            }
            (Kind::Client, First | Proceeding, Timer(T::F)) => {
                fx.push(Fx::Failed);
                self.st = Terminated;
            }
            (Kind::Client, First | Proceeding, Prov(i)) => {
                fx.push(Fx::Deliver(i));
                self.st = Proceeding;
            }
            (Kind::Client, First | Proceeding, Final(i)) => {
                fx.push(Fx::Deliver(i));
                ops.extend([Op::Stop(T::E), Op::Stop(T::F), Op::Set(T::K, self.wait(t.t4))]);
                self.st = Completed;
            }
            (Kind::Client, Completed, Timer(T::K)) => self.st = Terminated,

            (Kind::ServerInvite | Kind::Server, First, Start) => self.st = Proceeding,
            (Kind::ServerInvite | Kind::Server, Proceeding, Prov(i)) => {
                fx.push(Fx::Send(i));
                self.last = Some(i);
            }
            (Kind::ServerInvite | Kind::Server, Proceeding | Completed, Again) => fx.extend(self.last.map(Fx::Send)),
            (Kind::ServerInvite, Proceeding, Final(i)) if self.ok(i) => {
                fx.push(Fx::Send(i));
                self.st = Terminated;
            }
            (Kind::ServerInvite, Proceeding, Final(i)) => {
                fx.push(Fx::Send(i));
                self.last = Some(i);
                if udp {
                    ops.push(Op::Set(T::G, t.t1));
                }
                ops.push(Op::Set(T::H, 64 * t.t1));
                self.st = Completed;
            }
            (Kind::ServerInvite, Completed, Timer(T::G)) => {
                fx.extend(self.last.map(Fx::Send));
                self.every = (2 * self.every).min(t.t2);
                ops.push(Op::Set(T::G, self.every));
            }
            (Kind::ServerInvite, Completed, Timer(T::H)) => self.st = Terminated,
            (Kind::ServerInvite, Completed, Ack) => {
                ops.extend([Op::Stop(T::G), Op::Stop(T::H), Op::Set(T::I, self.wait(t.t4))]);
                self.st = Confirmed;
            }
            (Kind::ServerInvite, Confirmed, Timer(T::I)) => self.st = Terminated,
            (Kind::Server, Proceeding, Final(i)) => {
                fx.push(Fx::Send(i));
                self.last = Some(i);
                ops.push(Op::Set(T::J, self.wait(64 * t.t1)));
                self.st = Completed;
            }
            (Kind::Server, Completed, Timer(T::J)) => self.st = Terminated,

            (k, s, Error) if s != Terminated => {
                if matches!(k, Kind::ClientInvite | Kind::Client) {
                    fx.push(Fx::Failed);
                }
                self.st = Terminated;
            }
            _ => {}
        }
        (fx, ops)
    }
}

// ---------------------------------------------------------------- the library's machines

enum M {
    Ci(ClientInviteFsm),
    C(ClientNonInviteFsm),
    Si(ServerInviteFsm),
    S(ServerNonInviteFsm),
}
struct Real {
    m: M,
    req: Request,
    resps: Vec<Response>,
    wires: Vec<Bytes>,
    strange: Vec<String>,
}
impl Real {
    fn wire(&mut self, b: &Bytes) -> Fx {
        if *b == sip_parse::serialize_request(&self.req) {
            return Fx::Send(REQ);
        }
        match self.wires.iter().position(|w| w == b) {
            Some(i) => Fx::Send(i),
            None => {
                self.strange.push(format!("sent {b:?}"));
                Fx::Send(REQ + 1)
            }
        }
    }
    fn resp(&mut self, r: &Response) -> usize {
        match self.resps.iter().position(|x| x == r) {
            Some(i) => i,
            None => {
                self.strange.push(format!("delivered {r:?}"));
                REQ + 1
            }
        }
    }
}
fn nanos(d: Duration) -> u64 {
    d.as_nanos() as u64
}
impl Machine for Real {
    fn done(&self) -> bool {
        match &self.m {
            M::Ci(m) => m.state() == ClientInviteState::Terminated,
            M::C(m) => m.state() == ClientNonInviteState::Terminated,
            M::Si(m) => m.state() == ServerInviteState::Terminated,
            M::S(m) => m.state() == ServerNonInviteState::Terminated,
        }
    }
    fn step(&mut self, e: Ev) -> (Vec<Fx>, Vec<Op>) {
        let (mut fx, mut ops) = (vec![], vec![]);
        let e = match e {
            Ev::Stray(t) => Ev::Timer(t),
            e => e,
        };
        let rs = |i: usize| self.resps[i].clone();
        macro_rules! timers {
            ($a:ident, $act:expr, $other:expr) => {
                match $act {
                    $a::Schedule { timer, duration } => {
                        if let Some(t) = own(timer) {
                            ops.push(Op::Set(t, nanos(duration)));
                        }
                    }
                    $a::Cancel(t) => {
                        if let Some(t) = own(t) {
                            ops.push(Op::Stop(t));
                        }
                    }
                    a => $other(self, a, &mut fx),
                }
            };
        }
        match &mut self.m {
            M::Ci(m) => {
                let acts = match e {
                    Ev::Start => m.on_event(ClientInviteEvent::SendInvite(self.req.clone())),
                    Ev::Prov(i) => m.on_event(ClientInviteEvent::ReceiveProvisional(rs(i))),
                    Ev::Final(i) => m.on_event(ClientInviteEvent::ReceiveFinal(rs(i))),
                    Ev::Timer(t) => m.on_event(ClientInviteEvent::TimerFired(lib(t))),
                    Ev::Error => m.on_event(ClientInviteEvent::TransportError),
                    _ => vec![],
                };
                for a in acts {
                    timers!(ClientInviteAction, a, |s: &mut Real, a, fx: &mut Vec<Fx>| match a {
                        ClientInviteAction::Transmit { bytes, .. } => fx.push(s.wire(&bytes)),
                        ClientInviteAction::Deliver(r) => fx.push(Fx::Deliver(s.resp(&r))),
                        ClientInviteAction::ExpectPrack(r) => fx.push(Fx::Prack(s.resp(&r))),
                        ClientInviteAction::GenerateAck { response, is_2xx } => fx.push(Fx::Ack(s.resp(&response), is_2xx)),
                        ClientInviteAction::Terminate { .. } => fx.push(Fx::Failed),
                        _ => unreachable!(),
                    });
                }
            }
            M::C(m) => {
                let acts = match e {
                    Ev::Start => m.on_event(ClientNonInviteEvent::SendRequest(self.req.clone())),
                    Ev::Prov(i) => m.on_event(ClientNonInviteEvent::ReceiveProvisional(rs(i))),
                    Ev::Final(i) => m.on_event(ClientNonInviteEvent::ReceiveFinal(rs(i))),
                    Ev::Timer(t) => m.on_event(ClientNonInviteEvent::TimerFired(lib(t))),
                    Ev::Error => m.on_event(ClientNonInviteEvent::TransportError),
                    _ => vec![],
                };
                for a in acts {
                    timers!(ClientAction, a, |s: &mut Real, a, fx: &mut Vec<Fx>| match a {
                        ClientAction::Transmit { bytes, .. } => fx.push(s.wire(&bytes)),
                        ClientAction::Deliver(r) => fx.push(Fx::Deliver(s.resp(&r))),
                        ClientAction::Terminate { .. } => fx.push(Fx::Failed),
                        _ => unreachable!(),
                    });
                }
            }
            M::Si(m) => {
                let acts = match e {
                    Ev::Start => m.on_event(ServerInviteEvent::ReceiveInvite(self.req.clone())),
                    Ev::Prov(i) => m.on_event(ServerInviteEvent::SendProvisional(rs(i))),
                    Ev::Final(i) => m.on_event(ServerInviteEvent::SendFinal(rs(i))),
                    Ev::Timer(t) => m.on_event(ServerInviteEvent::TimerFired(lib(t))),
                    Ev::Again => m.on_retransmit(),
                    Ev::Ack => m.on_event(ServerInviteEvent::ReceiveAck),
                    Ev::Cancel => m.on_event(ServerInviteEvent::ReceiveCancel),
                    Ev::Error => m.on_event(ServerInviteEvent::TransportError),
                    Ev::Stray(_) => vec![],
                };
                for a in acts {
                    timers!(ServerInviteAction, a, |s: &mut Real, a, fx: &mut Vec<Fx>| match a {
                        ServerInviteAction::Transmit { bytes, .. } => fx.push(s.wire(&bytes)),
                        ServerInviteAction::Terminate { .. } => {}
                        _ => unreachable!(),
                    });
                }
            }
            M::S(m) => {
                let acts = match e {
                    Ev::Start => m.on_event(ServerNonInviteEvent::ReceiveRequest(self.req.clone())),
                    Ev::Prov(i) => m.on_event(ServerNonInviteEvent::SendProvisional(rs(i))),
                    Ev::Final(i) => m.on_event(ServerNonInviteEvent::SendFinal(rs(i))),
                    Ev::Timer(t) => m.on_event(ServerNonInviteEvent::TimerFired(lib(t))),
                    Ev::Again => m.on_retransmit(),
                    Ev::Error => m.on_event(ServerNonInviteEvent::TransportError),
                    _ => vec![],
                };
                for a in acts {
                    timers!(ServerAction, a, |s: &mut Real, a, fx: &mut Vec<Fx>| match a {
                        ServerAction::Transmit { bytes, .. } => fx.push(s.wire(&bytes)),
                        ServerAction::Terminate { .. } => {}
                        _ => unreachable!(),
                    });
                }
            }
        }
        (fx, ops)
    }
}

// ---------------------------------------------------------------- scripts

pub fn times(s: &mut Src) -> (Times, Transport) {
    let ms = 1_000_000;
    let tr = *s.pick(&[Transport::Udp, Transport::Udp, Transport::Udp, Transport::Tcp, Transport::Tls]);
    let (t1, t2, t4) = match s.below(3) {
        0 => (500, 4000, 5000),
        1 => (s.range(1, 1000), s.range(1, 8000), s.range(1, 9000)),
        _ => {
            let a = s.range(10, 800);
            (a, a * *s.pick(&[1u64, 2, 3, 5, 8, 20]), s.range(100, 9000))
        }
    };
    // a maximum below the first interval makes no sense
    let t2 = t2.max(t1);
    (Times { t1: t1 * ms, t2: t2 * ms, t4: t4 * ms, udp: tr == Transport::Udp }, tr)
}
/// Responses of a script: (code, reliable provisional).
pub fn responses(s: &mut Src, invite: bool) -> (Vec<(u16, bool)>, Vec<Response>) {
    let mut codes = vec![];
    let mut rs = vec![];
    for i in 0..6 {
        let c = if i < 3 {
            *s.pick(&[100u16, 180, 183, 199, 181])
        } else {
            *s.pick(&[200u16, 202, 299, 300, 302, 401, 404, 486, 487, 500, 603, 699, 200])
        };
        let mut h = vec![("X-N", i.to_string())];
        let mut rel = false;
        if invite && (101..200).contains(&c) && s.chance(1, 3) {
            rel = s.chance(3, 4);
            if rel {
                h.push(("RSeq", s.range(1, 1000).to_string()));
            }
            h.push(("Require", s.pick(&["100rel", "timer, 100REL", "100rel,precondition"]).to_string()));
        }
        codes.push((c, rel));
        rs.push(g::resp(c, &h, b""));
    }
    (codes, rs)
}
/// Times at which something may happen: around timer deadlines or anywhere.
fn moment(s: &mut Src, t: &Times) -> u64 {
    let base = match s.below(4) {
        0 => s.below(t.t1 * 70),
        1 => s.below(t.t1 * 4),
        2 => *s.pick(&[t.t1, 3 * t.t1, 7 * t.t1, 64 * t.t1, t.t4, t.t2, 32_000_000_000, 64 * t.t1 + t.t4]),
        _ => s.below(t.t1 * 130 + t.t4 + 33_000_000_000),
    };
    base / 1_000_000 * 1_000_000
}
fn script(s: &mut Src, kind: Kind, t: &Times) -> Vec<(u64, Ev)> {
    let server = matches!(kind, Kind::ServerInvite | Kind::Server);
    let n = s.urange(1, 8);
    let mut v: Vec<(u64, Ev)> = (0..n)
        .map(|_| {
            let at = moment(s, t);
            let e = match s.weighted(&[3, 4, 1, 2, if server { 4 } else { 0 }, if kind == Kind::ServerInvite { 3 } else { 0 }]) {
                0 => Ev::Prov(s.idx(3)),
                1 => Ev::Final(3 + s.idx(3)),
                2 => Ev::Error,
                3 => Ev::Stray(s.pick(&ALL).0),
                4 => Ev::Again,
                _ => *s.pick(&[Ev::Ack, Ev::Ack, Ev::Cancel]),
            };
            (at, e)
        })
        .collect();
    // a burst: the same thing again shortly afterwards
    if s.chance(1, 2) {
        let (at, e) = *s.pick(&v);
        for _ in 0..s.urange(1, 3) {
            v.push((at + s.below(2 * t.t1) / 1_000_000 * 1_000_000, e));
        }
    }
    v.sort_by_key(|x| x.0);
    // no two events, and no event and timer, at the same instant
    for (i, x) in v.iter_mut().enumerate() {
        x.0 += i as u64 + 1;
    }
    v.sort_by_key(|x| x.0);
    v.insert(0, (0, Ev::Start));
    v
}
fn machine(s: &mut Src, ctx: &mut Ctx, kind: Kind) -> R {
    let invite = matches!(kind, Kind::ClientInvite | Kind::ServerInvite);
    let (t, tr) = times(s);
    let (codes, resps) = responses(s, invite);
    let mut sc = script(s, kind, &t);
    // events the state machines leave open: a transport error when nothing can have been sent, a
    // 2xx that follows a refusal
    let mut done: Option<u16> = None;
    sc.retain(|x| match x.1 {
        Ev::Final(i) => {
            let c = codes[i].0;
            let keep = !(kind == Kind::ClientInvite && c / 100 == 2 && done.is_some_and(|d| d / 100 != 2));
            if keep && done.is_none() {
                done = Some(c);
            }
            keep
        }
        Ev::Error => !(kind == Kind::Client && done.is_some()) && !(done.is_some_and(|d| d / 100 == 2)),
        _ => true,
    });
    let def = TimerDefaults { t1: Duration::from_nanos(t.t1), t2: Duration::from_nanos(t.t2), t4: Duration::from_nanos(t.t4) };
    let mk = || TransportAwareTimers::with_defaults(tr, def);
    let m = match kind {
        Kind::ClientInvite => M::Ci(ClientInviteFsm::new(mk())),
        Kind::Client => M::C(ClientNonInviteFsm::new(mk())),
        Kind::ServerInvite => M::Si(ServerInviteFsm::new(mk())),
        Kind::Server => M::S(ServerNonInviteFsm::new(mk())),
    };
    let req = g::req(if invite { "INVITE" } else { "OPTIONS" }, "sip:b@example.com", &[("Max-Forwards", "70".into()), ("X-N", "r".into())], b"");
    let mut real = Real { m, req, wires: resps.iter().map(sip_parse::serialize_response).collect(), resps, strange: vec![] };
    let end = sc.last().unwrap().0 + 140 * t.t1 + t.t4 + 40_000_000_000;
    // long runs of retransmissions are cut
    let end = end.min(sc.last().unwrap().0 + 64 * t.t1 + 64 * t.t2 + 40_000_000_000);
    ctx.desc(|| format!("{kind:?} {tr:?} {t:?} codes {codes:?} script {:?}", sc.iter().map(|x| (x.0 / 1_000_000, x.1)).collect::<Vec<_>>()));
    if sc.len() > 2 {
        ctx.nontrivial(format!("{t:?} {codes:?} {sc:?}"));
    }
    let mut model = Model::new(kind, t, codes);
    let (want, strays) = run(&mut model, &sc, end, None);
    let (got, _) = run(&mut real, &sc, end, Some(&strays));
    ensure!(real.strange.is_empty(), "fsm:content", "{:?}", real.strange);
    let i = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i));
    if let Some(i) = i {
        let show = |x: Option<&(u64, Vec<Fx>)>| x.map(|x| format!("{:?} at {} ms", x.1, x.0 as f64 / 1e6)).unwrap_or("nothing more".into());
        return fail("fsm:trace", format!("after {:?}: got {}, expected {}", want[..i].iter().rev().take(3).rev().map(|x| (x.0 / 1_000_000, &x.1)).collect::<Vec<_>>(), show(got.get(i)), show(want.get(i))));
    }
    Ok(())
}
fn client_invite(s: &mut Src, ctx: &mut Ctx) -> R {
    machine(s, ctx, Kind::ClientInvite)
}
fn client(s: &mut Src, ctx: &mut Ctx) -> R {
    machine(s, ctx, Kind::Client)
}
fn server_invite(s: &mut Src, ctx: &mut Ctx) -> R {
    machine(s, ctx, Kind::ServerInvite)
}
fn server(s: &mut Src, ctx: &mut Ctx) -> R {
    machine(s, ctx, Kind::Server)
}

// ---------------------------------------------------------------- timers and keys

fn durations(s: &mut Src, ctx: &mut Ctx) -> R {
    let (t, tr) = times(s);
    let d = TransportAwareTimers::with_defaults(tr, TimerDefaults { t1: Duration::from_nanos(t.t1), t2: Duration::from_nanos(t.t2), t4: Duration::from_nanos(t.t4) });
    let un = |x: u64| if t.udp { x } else { 0 };
    ctx.nontrivial(format!("{t:?}"));
    ctx.desc(|| format!("{tr:?} {t:?}"));
    for (k, want) in [
        (TransactionTimer::T1, t.t1),
        (TransactionTimer::T2, t.t2),
        (TransactionTimer::T4, t.t4),
        (TransactionTimer::A, un(t.t1)),
        (TransactionTimer::B, 64 * t.t1),
        (TransactionTimer::C, 180_000_000_000),
        (TransactionTimer::D, un(32_000_000_000)),
        (TransactionTimer::E, un(t.t1)),
        (TransactionTimer::F, 64 * t.t1),
        (TransactionTimer::G, un(t.t1)),
        (TransactionTimer::H, 64 * t.t1),
        (TransactionTimer::I, un(t.t4)),
        (TransactionTimer::J, un(64 * t.t1)),
        (TransactionTimer::K, un(t.t4)),
    ] {
        ensure_eq!(nanos(d.duration(k)), want, "timers:duration", "{k:?} on {tr:?}");
    }
    ensure_eq!(d.should_retransmit(), t.udp, "timers:retransmit", "{tr:?}");
    Ok(())
}
/// One Via element and its branch.
pub fn via(s: &mut Src) -> (String, Option<String>) {
    let host = match s.below(4) {
        0 => "[2001:db8::1]:5060".to_string(),
        1 => format!("{}:{}", ipv4(s), port(s)),
        _ => hostname(s),
    };
    let b = s.opt(9, 10, |s| if s.chance(1, 8) { token(s, 1, 6) } else { format!("z9hG4bK{}", token(s, 1, 10)) });
    let mut ps = vec![];
    if let Some(b) = &b {
        let eq = *s.pick(&["=", "=", " = ", "= "]);
        ps.push(format!("{}{eq}{b}", recase(s, "branch")));
    }
    for p in ["rport", "received=192.0.2.1", "ttl=3", "xbranch=z9hG4bKno", "alias", "branch-x=9", "maddr=[::1]"] {
        if s.chance(1, 5) {
            let i = s.idx(ps.len() + 1);
            ps.insert(i, p.to_string());
        }
    }
    let sep = *s.pick(&[";", ";", "; ", " ;", " ; "]);
    (format!("SIP/2.0/{} {host}{}", s.pick(&["UDP", "TCP", "TLS", "WS"]), ps.iter().map(|p| format!("{sep}{p}")).collect::<String>()), b)
}
fn keys(s: &mut Src, ctx: &mut Ctx) -> R {
    let vs = s.vec(0, 4, via);
    let mut h: Vec<(&str, String)> = vec![("CSeq", "1 INVITE".into())];
    let mut i = 0;
    while i < vs.len() {
        let n = s.urange(1, vs.len() - i);
        h.push(("Via", vs[i..i + n].iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(*s.pick(&[",", ", ", " , "]))));
        i += n;
    }
    let method = g::method(s);
    let r = g::req(&method, "sip:b@example.com", &h, b"");
    ctx.desc(|| format!("{method} {h:?}"));
    if vs.len() > 1 {
        ctx.nontrivial(format!("{h:?}"));
    }
    let want = vs.first().and_then(|v| v.1.clone());
    ensure_eq!(request_branch_id(&r).map(|b| b.to_string()), want, "key:branch", "{h:?}");
    let server = s.coin();
    match (TransactionKey::from_request(&r, server), want) {
        (None, None) => {}
        (Some(k), Some(w)) => {
            ensure_eq!((k.branch(), k.method().as_str(), k.is_server()), (w.as_str(), method.as_str(), server), "key:key", "{h:?}");
            ensure!(k == TransactionKey::new(w.as_str(), method.parse().unwrap(), server), "key:eq", "{h:?}");
        }
        (a, b) => return fail("key:key", format!("{a:?} for branch {b:?}")),
    }
    let (a, b) = (generate_branch_id(), generate_branch_id());
    ensure!(a != b && a.starts_with("z9hG4bK") && a.len() >= 7 + 8 && a.chars().all(|c| c.is_ascii_alphanumeric()), "key:fresh", "{a} {b}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "a script with at least two events after the start; a set of timer defaults; a message with several Via values",
        assumptions: &[
            "timer A is capped at T2, as the project documents",
            "an INVITE server transaction ends with its 2xx (RFC 3261), and a 2xx that reaches a finished INVITE client transaction is still delivered and acknowledged",
            "a transport error after the last message of a transaction and a 2xx after a refusal are not generated",
        ],
        units: vec![
            unit!("client-invite", 300_000, 6_000_000, client_invite),
            unit!("client-non-invite", 300_000, 6_000_000, client),
            unit!("server-invite", 300_000, 6_000_000, server_invite),
            unit!("server-non-invite", 300_000, 6_000_000, server),
            unit!("timers", 100_000, 1_000_000, durations),
            unit!("keys", 300_000, 6_000_000, keys),
        ],
    }]
}
