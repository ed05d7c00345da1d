//! C32: transport metrics are sampled and labelled as configured.
use sip_observe::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::num::NonZeroU64;
use std::sync::{Arc, Once};
use std::time::Duration;
use tracing::field::{Field, Visit};
use vlib::gen::*;
use vlib::{clock, ensure, ensure_eq, unit, Ctx, Prop, Src, R};

thread_local! {
    /// events emitted on this thread: level and fields
    static LOG: RefCell<Vec<(tracing::Level, Vec<(String, String)>)>> = const { RefCell::new(vec![]) };
    static SPANS: RefCell<Vec<Vec<(String, String)>>> = const { RefCell::new(vec![]) };
}
struct Rec;
struct Fields(Vec<(String, String)>);
impl Visit for Fields {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        self.0.push((f.name().into(), format!("{v:?}")));
    }
    fn record_str(&mut self, f: &Field, v: &str) {
        self.0.push((f.name().into(), v.into()));
    }
}
impl tracing::Subscriber for Rec {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut f = Fields(vec![("span".into(), a.metadata().name().into())]);
        a.record(&mut f);
        SPANS.with(|l| l.borrow_mut().push(f.0));
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = Fields(vec![]);
        e.record(&mut f);
        f.0.sort();
        LOG.with(|l| l.borrow_mut().push((*e.metadata().level(), f.0)));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn recorder() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Rec);
    });
    take();
}
fn take() -> Vec<(tracing::Level, Vec<(String, String)>)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

const TRANSPORTS: [(TransportLabel, &str); 7] = [
    (TransportLabel::Udp, "udp"),
    (TransportLabel::Tcp, "tcp"),
    (TransportLabel::Tls, "tls"),
    (TransportLabel::Sctp, "sctp"),
    (TransportLabel::TlsSctp, "tls-sctp"),
    (TransportLabel::Ws, "ws"),
    (TransportLabel::Wss, "wss"),
];
const STAGES: [(StageLabel, &str); 10] = [
    (StageLabel::Accept, "accept"),
    (StageLabel::BufferOverflow, "buffer_overflow"),
    (StageLabel::Dispatch, "dispatch"),
    (StageLabel::FramingError, "framing_error"),
    (StageLabel::Handshake, "handshake"),
    (StageLabel::Read, "read"),
    (StageLabel::Recv, "recv"),
    (StageLabel::SessionLimit, "session_limit"),
    (StageLabel::Truncate, "truncate"),
    (StageLabel::Write, "write"),
];
const OPS: [(OpLabel, &str); 2] = [(OpLabel::Accept, "accept"), (OpLabel::Recv, "recv")];

#[derive(Clone, Debug)]
enum Ev {
    Received(usize),
    Sent(usize),
    Error(usize, usize),
    Accept(usize),
    Connect(usize),
    Latency(usize, usize, u64),
    Limited(usize),
}
fn event(s: &mut Src) -> Ev {
    let t = s.idx(7);
    match s.below(7) {
        0 => Ev::Received(t),
        1 => Ev::Sent(t),
        2 => Ev::Error(t, s.idx(10)),
        3 => Ev::Accept(t),
        4 => Ev::Connect(t),
        5 => Ev::Latency(t, s.idx(2), s.num(u64::MAX)),
        _ => Ev::Limited(t),
    }
}
fn send(m: &dyn TransportMetrics, e: &Ev) {
    let t = |i: &usize| TRANSPORTS[*i].0;
    match e {
        Ev::Received(i) => m.on_packet_received(t(i)),
        Ev::Sent(i) => m.on_packet_sent(t(i)),
        Ev::Error(i, j) => m.on_error(t(i), STAGES[*j].0),
        Ev::Accept(i) => m.on_accept(t(i)),
        Ev::Connect(i) => m.on_connect(t(i)),
        Ev::Latency(i, j, n) => m.on_latency(t(i), OPS[*j].0, *n),
        Ev::Limited(i) => m.on_rate_limited(t(i)),
    }
}
/// What identifies an emitted event: its labels, its latency, and whether it is a warning. The
/// wording of the message is free, but two kinds of event may not read the same.
fn seen(e: &(tracing::Level, Vec<(String, String)>)) -> (bool, Vec<(String, String)>) {
    (e.0 == tracing::Level::WARN, e.1.iter().filter(|f| f.0 != "message").cloned().collect())
}
fn expected(e: &Ev) -> (bool, Vec<(String, String)>) {
    let t = |i: &usize| ("transport".to_string(), TRANSPORTS[*i].1.to_string());
    let mut f = match e {
        Ev::Received(i) | Ev::Sent(i) | Ev::Accept(i) | Ev::Connect(i) | Ev::Limited(i) => vec![t(i)],
        Ev::Error(i, j) => vec![t(i), ("stage".into(), STAGES[*j].1.into())],
        Ev::Latency(i, j, n) => vec![t(i), ("op".into(), OPS[*j].1.into()), ("nanos".into(), n.to_string())],
    };
    f.sort();
    (matches!(e, Ev::Error(..) | Ev::Limited(_)), f)
}
fn kind(e: &Ev) -> u8 {
    match e {
        Ev::Received(_) => 0,
        Ev::Sent(_) => 1,
        Ev::Error(..) => 2,
        Ev::Accept(_) => 3,
        Ev::Connect(_) => 4,
        Ev::Latency(..) => 5,
        Ev::Limited(_) => 6,
    }
}
fn message(e: &(tracing::Level, Vec<(String, String)>)) -> String {
    e.1.iter().find(|f| f.0 == "message").map(|f| f.1.clone()).unwrap_or_default()
}

/// One thread, virtual time: which events are emitted is determined.
fn sampling(s: &mut Src, ctx: &mut Ctx) -> R {
    recorder();
    clock::start();
    let every = match s.weighted(&[3, 3, 1]) {
        0 => 1,
        1 => s.range(2, 12),
        _ => s.num(u64::MAX).max(1),
    };
    let min = match s.weighted(&[2, 2, 2, 1, 1]) {
        0 => 0u64,
        1 => s.range(1, 20),
        2 => s.range(1, 20) * 1_000_000,
        3 => s.range(1, 100) * 1_000_000_000,
        _ => s.range(1, 365 * 86400 * 1_000_000_000),
    };
    let dflt = s.chance(1, 12);
    let (every, min) = if dflt { (10, 5_000_000) } else { (every, min) };
    let plain = s.chance(1, 10);
    let m: Box<dyn TransportMetrics> = if plain {
        Box::new(TracingTransportMetrics)
    } else {
        let r = if dflt {
            RateLimitedTracingTransportMetrics::default()
        } else {
            RateLimitedTracingTransportMetrics::new(Duration::from_nanos(min), NonZeroU64::new(every).unwrap())
        };
        ensure_eq!((r.min_interval(), r.sample_every().get()), (Duration::from_nanos(min), every), "config", "accessors");
        Box::new(r)
    };
    let (every, min) = if plain { (1, 0) } else { (every, min) };
    let mut last: Option<i64> = None;
    let mut words: std::collections::HashMap<u8, String> = Default::default();
    let (mut out, mut held) = (0, 0);
    let n = s.urange(1, 60);
    for i in 0..n as u64 {
        if s.chance(1, 2) {
            clock::advance_ns(match s.below(4) {
                0 => min as i64,
                1 => min as i64 / 2,
                2 => (min as i64 - 1).max(0),
                _ => s.num(2_000_000_000) as i64,
            });
        }
        let now = clock::elapsed_ns();
        let e = event(s);
        let want = i % every == 0 && last.is_none_or(|l| (now - l) as u64 >= min);
        send(m.as_ref(), &e);
        let got = take();
        ensure_eq!(got.len(), want as usize, "sampling", "event {i} ({e:?}) at {now} ns, last emitted {last:?}, one in {every}, at most every {min} ns");
        if want {
            last = Some(now);
            out += 1;
            ensure_eq!(seen(&got[0]), expected(&e), "labels", "{e:?}");
            let w = words.entry(kind(&e)).or_insert_with(|| message(&got[0]));
            ensure_eq!(&message(&got[0]), w, "kind", "{e:?}");
        } else {
            held += 1;
        }
    }
    let distinct: std::collections::HashSet<(&String, bool)> = words.iter().map(|(k, v)| (v, matches!(k, 2 | 5))).collect();
    ensure_eq!(distinct.len(), words.len(), "kinds", "two kinds of event read the same: {words:?}");
    if (out > 0 && held > 0) || plain {
        ctx.nontrivial((out, held, every, min));
    }
    ctx.label(if plain { "plain" } else if min == 0 { "no-interval" } else { "interval" });
    Ok(())
}

/// Several threads report at once.
fn threads(s: &mut Src, ctx: &mut Ctx) -> R {
    recorder();
    let every = s.range(1, 9);
    let n = s.urange(2, 4);
    let k = s.urange(1, 300);
    // no interval, or one that does not end while the test runs
    let long = s.chance(1, 3);
    let min = if long { Duration::from_secs(3600) } else { Duration::ZERO };
    let m = Arc::new(RateLimitedTracingTransportMetrics::new(min, NonZeroU64::new(every).unwrap()));
    let bar = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (m, bar) = (m.clone(), bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                for _ in 0..k {
                    m.on_packet_received(TransportLabel::Udp);
                }
                take().len() as u64
            })
        })
        .collect();
    let got: u64 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    let total = (n * k) as u64;
    let want = if long { 1 } else { total.div_ceil(every) };
    ensure_eq!(got, want, "threads", "{n} threads reported {k} events each, one in {every}, interval {min:?}");
    ctx.nontrivial((n, k, every, long));
    Ok(())
}

fn labels(s: &mut Src, ctx: &mut Ctx) -> R {
    recorder();
    let names: Vec<&str> = TRANSPORTS.iter().map(|x| x.1).chain(STAGES.iter().map(|x| x.1)).chain(OPS.iter().map(|x| x.1)).collect();
    let v = match s.weighted(&[4, 3, 2, 2, 1]) {
        0 => s.pick(&names).to_string(),
        1 => {
            let b = s.pick(&names).to_string();
            String::from_utf8_lossy(&mutate(s, b.as_bytes(), 2)).into_owned()
        }
        2 => nasty(s, 0, 12),
        3 => "a-b_c.9Z".repeat(9).chars().take(s.urange(62, 67)).collect(),
        _ => recase(s, "tls-sctp"),
    };
    let bad = v.bytes().enumerate().find(|(_, b)| !(b.is_ascii_alphanumeric() || b"-_.".contains(b)));
    let err = if v.len() > MAX_LABEL_LEN {
        LabelError::TooLong { len: v.len(), max: MAX_LABEL_LEN }
    } else if let Some((index, byte)) = bad {
        LabelError::InvalidChar { index, byte }
    } else {
        LabelError::UnknownValue(v.clone())
    };
    fn find<T: Copy>(xs: &[(T, &str)], v: &str, e: &LabelError) -> Result<T, LabelError> {
        xs.iter().find(|x| x.1 == v).map(|x| x.0).ok_or(e.clone())
    }
    ensure_eq!(TransportLabel::try_from(v.as_str()), find(&TRANSPORTS, &v, &err), "label:transport", "{v:?}");
    ensure_eq!(StageLabel::try_from(v.as_str()), find(&STAGES, &v, &err), "label:stage", "{v:?}");
    ensure_eq!(OpLabel::try_from(v.as_str()), find(&OPS, &v, &err), "label:op", "{v:?}");
    // what is emitted is one of the names, whole
    let (t, tn) = *s.pick(&TRANSPORTS);
    let (g, gn) = *s.pick(&STAGES);
    let (o, on) = *s.pick(&OPS);
    ensure_eq!((t.as_str(), t.to_string().as_str()), (tn, tn), "label:name", "{t:?}");
    ensure_eq!((g.as_str(), g.to_string().as_str()), (gn, gn), "label:name", "{g:?}");
    ensure_eq!((o.as_str(), o.to_string().as_str()), (on, on), "label:name", "{o:?}");
    SPANS.with(|l| l.borrow_mut().clear());
    let _sp = span_with_transport("op-name", t);
    let f = SPANS.with(|l| std::mem::take(&mut *l.borrow_mut()));
    ensure!(
        f.len() == 1 && f[0].contains(&("transport".into(), tn.into())) && f[0].contains(&("op".into(), "op-name".into())),
        "span",
        "span of {t:?}: {f:?}"
    );
    ctx.nontrivial(v);
    Ok(())
}

/// The process-wide sink: the first one installed stays, whoever else tries.
fn install(s: &mut Src, ctx: &mut Ctx) -> R {
    struct Sink(u64);
    thread_local!(static HIT: RefCell<Vec<u64>> = const { RefCell::new(vec![]) });
    impl Sink {
        fn hit(&self) {
            HIT.with(|h| h.borrow_mut().push(self.0));
        }
    }
    impl TransportMetrics for Sink {
        fn on_packet_received(&self, _: TransportLabel) {
            self.hit()
        }
        fn on_packet_sent(&self, _: TransportLabel) {
            self.hit()
        }
        fn on_error(&self, _: TransportLabel, _: StageLabel) {
            self.hit()
        }
        fn on_accept(&self, _: TransportLabel) {
            self.hit()
        }
        fn on_connect(&self, _: TransportLabel) {
            self.hit()
        }
        fn on_latency(&self, _: TransportLabel, _: OpLabel, _: u64) {
            self.hit()
        }
        fn on_rate_limited(&self, _: TransportLabel) {
            self.hit()
        }
    }
    static FIRST: std::sync::OnceLock<(Vec<u64>, u64)> = std::sync::OnceLock::new();
    // once per process: eight threads race to install their sink
    let (winners, seen) = FIRST.get_or_init(|| {
        let bar = Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = (1..=8u64)
            .map(|i| {
                let bar = bar.clone();
                std::thread::spawn(move || {
                    bar.wait();
                    set_transport_metrics(Arc::new(Sink(i))).then_some(i)
                })
            })
            .collect();
        let w: Vec<u64> = hs.into_iter().filter_map(|h| h.join().unwrap()).collect();
        HIT.with(|h| h.borrow_mut().clear());
        transport_metrics().on_connect(TransportLabel::Tcp);
        let seen = HIT.with(|h| h.borrow().first().copied().unwrap_or(0));
        (w, seen)
    });
    ensure_eq!(winners, &vec![*seen], "install", "sinks told they were installed, and the one in use");
    // later ones are refused and get nothing
    if s.coin() {
        ensure!(!set_transport_metrics(Arc::new(Sink(99))), "install:second", "a second sink was installed");
    }
    let es = s.vec(1, 6, event);
    HIT.with(|h| h.borrow_mut().clear());
    for e in &es {
        send(transport_metrics(), e);
    }
    let got = HIT.with(|h| h.borrow().clone());
    ensure_eq!(got, vec![*seen; es.len()], "install:events", "{es:?}");
    ctx.nontrivial(format!("{es:?}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "non-trivial: a history in which some events were emitted and some held back; a label string; a set of threads reporting at once",
        assumptions: &["Time is a virtual clock interposed under the process (clock_gettime); emissions are observed by a tracing subscriber."],
        units: vec![
            unit!("sampling", 60000, 3000000, sampling),
            unit!("threads", 400, 20000, threads),
            unit!("labels", 60000, 2000000, labels),
            unit!("install", 2000, 50000, install),
        ],
    }]
}
