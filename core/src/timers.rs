//! C19 session timers, C20 reliable provisional responses.
use crate::g;
use sip_core::{Method, SipUri};
use sip_dialog::prack_validator as pv;
use sip_dialog::session_timer_manager::*;
use sip_dialog::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
use vlib::gen::*;
use vlib::*;

type R = Result<(), Fail>;

fn secs(s: &mut Src) -> u64 {
    match s.weighted(&[3, 3, 2, 1]) {
        0 => s.range(85, 100),
        1 => s.below(4000),
        2 => *s.pick(&[0, 1, 89, 90, 91, 96, 97, 1800, 3600, 7200, 86400]),
        _ => s.below(1 << 32),
    }
}
fn dur(s: &mut Src) -> Duration {
    let ms = if s.chance(1, 5) { s.below(1000) } else { 0 };
    Duration::from_millis(secs(s) * 1000 + ms)
}
/// Interval and refresher negotiation.
fn negotiate(s: &mut Src, ctx: &mut Ctx) -> R {
    let req = dur(s);
    let lmin = if s.chance(1, 6) { req } else { dur(s) };
    let rmin = s.opt(2, 3, |s| if s.chance(1, 6) { req } else { dur(s) });
    let pref = s.opt(2, 3, dur);
    let d = || format!("requested {req:?}, local min {lmin:?}, remote min {rmin:?}, preference {pref:?}");
    ctx.desc(d);
    ctx.nontrivial(d());
    let min = rmin.map_or(lmin, |r| if r > lmin { r } else { lmin });
    let got = negotiate_session_expires(req, lmin, rmin, pref);
    match got {
        Err(e) => {
            ensure!(req < min, "negotiate:refused", "{}", d());
            ensure_eq!(e, min, "negotiate:min-se", "{}", d());
        }
        Ok(v) => {
            ensure!(req >= min, "negotiate:below-minimum", "{}: {v:?}", d());
            ensure!(v >= min && v <= req, "negotiate:range", "{}: {v:?}", d());
            match pref {
                // the preference is honoured as far as the limits allow
                Some(p) => ensure_eq!(v, if p < min { min } else if p > req { req } else { p }, "negotiate:preference", "{}", d()),
                None => ensure_eq!(v, req, "negotiate:value", "{}", d()),
            }
        }
    }
    let m = rmin;
    let lim = m.unwrap_or(Duration::from_secs(90));
    ensure_eq!(validate_session_expires(req, m), if req < lim { Err(lim) } else { Ok(req) }, "validate", "{req:?} {m:?}");
    let half = calculate_refresh_time(req);
    ensure!(half * 2 <= req && req - half * 2 < Duration::from_nanos(2), "refresh-time", "{req:?}: {half:?}");
    // exactly one end refreshes
    let p = s.opt(3, 4, |s| {
        let t = *s.pick(&["uac", "uas", "uac", "uas", "both", "", "ua"]);
        recase(s, t)
    });
    let uac = match p.as_deref().map(|x| x.to_ascii_lowercase()).as_deref() {
        Some("uas") => false,
        _ => true,
    };
    ensure_eq!(determine_refresher_role(p.as_deref(), true), uac, "refresher:uac", "{p:?}");
    ensure_eq!(determine_refresher_role(p.as_deref(), false), !uac, "refresher:uas", "{p:?}");
    // the dialog's own advice
    let se = Duration::from_secs(secs(s).max(90));
    let u = SipUri::parse("sip:a@b").unwrap();
    let mk = |e| Dialog::unchecked_new(DialogId::unchecked_new("c", "l", "r"), DialogStateType::Confirmed, u.clone(), u.clone(), u.clone(), 1, 1, None, vec![], false, e, None, true);
    let dl = mk(Some(se));
    ensure!(!mk(None).needs_refresh(Duration::from_secs(s.below(1 << 32))), "needs-refresh:no-timer", "");
    let margin = Duration::from_secs(32).min(se / 3);
    let mut prev = false;
    let mut ts: Vec<Duration> = s.vec(1, 8, |s| se * s.range(0, 1200) as u32 / 1000);
    ts.extend([se / 2 - Duration::from_millis(1), se - margin, se]);
    ts.sort();
    for t in ts {
        let n = dl.needs_refresh(t);
        ensure!(n || t < se - margin, "needs-refresh:late", "interval {se:?}: not needed after {t:?}");
        ensure!(!n || t >= se / 2, "needs-refresh:early", "interval {se:?}: needed after {t:?}");
        ensure!(n || !prev, "needs-refresh:monotone", "interval {se:?}: needed before {t:?} but not then");
        prev = n;
    }
    Ok(())
}

struct T {
    start: u64,
    se: u64,
    refresher: bool,
    sent: bool,
}
const TOL: u64 = 3;
struct World {
    live: BTreeMap<u64, T>,
    log: Vec<String>,
    fired: u64,
}
impl World {
    fn event(&mut self, at: u64, ev: SessionTimerEvent) -> R {
        self.log.push(format!("{at}: {ev:?}"));
        let near = |a: u64, b: u64| a.abs_diff(b) <= TOL;
        let (id, refresh) = match &ev {
            SessionTimerEvent::RefreshNeeded(d) => (d, true),
            SessionTimerEvent::SessionExpired(d) => (d, false),
        };
        let k: u64 = id.call_id().parse().unwrap();
        self.fired += 1;
        let Some(t) = self.live.get_mut(&k) else {
            return fail("event:stopped", format!("event of a timer that is not running; {:?}", self.log));
        };
        if refresh {
            ensure!(t.refresher, "event:not-refresher", "{:?}", self.log);
            ensure!(!t.sent, "event:twice", "{:?}", self.log);
            ensure!(near(at, t.start + t.se / 2), "event:refresh-time", "{:?}", self.log);
            t.sent = true;
        } else {
            ensure!(near(at, t.start + t.se), "event:expiry-time", "{:?}", self.log);
            ensure!(t.sent || !t.refresher, "event:no-refresh", "{:?}", self.log);
            self.live.remove(&k);
        }
        Ok(())
    }
    fn overdue(&self, now: u64) -> R {
        for (k, t) in &self.live {
            ensure!(t.sent || !t.refresher || t.start + t.se / 2 + TOL >= now, "event:refresh-missing", "dialog {k} at {now}; {:?}", self.log);
            ensure!(t.start + t.se + TOL >= now, "event:expiry-missing", "dialog {k} at {now}; {:?}", self.log);
        }
        Ok(())
    }
}
fn sid(k: u64) -> DialogId {
    // dialogs that share tags
    DialogId::unchecked_new(format!("{k}"), "l", format!("r{}", k / 2))
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
/// Histories of starts, refreshes, stops and elapsed time.
fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    runtime().block_on(async {
        let m = SessionTimerManager::new();
        let m2 = m.clone();
        let mut rx = m.subscribe().await;
        let t0 = tokio::time::Instant::now();
        let ms = |i: tokio::time::Instant| (i - t0).as_millis() as u64;
        let mut w = World { live: BTreeMap::new(), log: vec![], fired: 0 };
        let grid = *s.pick(&[10u64, 10, 100, 1000]);
        let ids = s.range(1, 4);
        let steps = s.urange(2, 16);
        let mut now = 0u64;
        for step in 0..=steps {
            // elapse: to a due time of some timer, by a few grid steps, or not at all
            let last = step == steps;
            let dt = if last {
                3 * 60 * grid
            } else {
                match s.weighted(&[3, 3, 2, 1]) {
                    0 => s.below(30) * grid,
                    1 if !w.live.is_empty() => {
                        let i = s.idx(w.live.len());
                        let t = w.live.values().nth(i).unwrap();
                        let due = if s.coin() { t.start + t.se / 2 } else { t.start + t.se };
                        due.saturating_sub(now)
                    }
                    2 => s.below(90) * grid,
                    _ => 0,
                }
            };
            now += dt;
            let target = t0 + Duration::from_millis(now);
            let wait = tokio::time::sleep_until(target);
            tokio::pin!(wait);
            loop {
                tokio::select! {
                    biased;
                    e = rx.recv() => match e {
                        Some(e) => w.event(ms(tokio::time::Instant::now()), e)?,
                        None => return fail("event:closed", format!("{:?}", w.log)),
                    },
                    _ = &mut wait => break,
                }
            }
            now = ms(tokio::time::Instant::now());
            if s.coin() {
                tokio::task::yield_now().await;
            }
            while let Ok(e) = rx.try_recv() {
                w.event(now, e)?;
            }
            w.overdue(now)?;
            if last {
                break;
            }
            let h = if s.coin() { &m } else { &m2 };
            let k = s.below(ids);
            match s.weighted(&[5, 3, 3, 1, 2]) {
                o @ (0 | 1) => {
                    let se = s.range(1, 60) * grid;
                    let refresher = s.coin();
                    w.log.push(format!("{now}: {} {k} {se}ms {}", ["start", "refresh"][o], if refresher { "refresher" } else { "" }));
                    w.live.insert(k, T { start: now, se, refresher, sent: false });
                    if o == 0 {
                        h.start_timer(sid(k), Duration::from_millis(se), refresher);
                    } else {
                        h.refresh_timer(sid(k), Duration::from_millis(se), refresher);
                    }
                }
                2 => {
                    w.log.push(format!("{now}: stop {k}"));
                    h.stop_timer(&sid(k));
                    w.live.remove(&k);
                }
                3 => {
                    w.log.push(format!("{now}: clear"));
                    h.clear();
                    w.live.clear();
                }
                _ => {
                    let mut unsure = 0;
                    for k in 0..ids {
                        let got = h.time_remaining(&sid(k)).map(|d| d.as_millis() as u64);
                        ensure_eq!(h.has_timer(&sid(k)), got.is_some(), "peek:has", "{:?}", w.log);
                        match w.live.get(&k) {
                            Some(t) if (t.start + t.se).abs_diff(now) <= TOL => unsure += 1,
                            Some(t) => ensure!(got.is_some_and(|g| g.abs_diff(t.start + t.se - now) <= TOL), "peek:remaining", "dialog {k}: {got:?} at {now}; {:?}", w.log),
                            None => ensure!(got.is_none(), "peek:stopped", "dialog {k}: {got:?} at {now}; {:?}", w.log),
                        }
                    }
                    let n = h.active_count();
                    ensure!(n <= w.live.len() && n + unsure >= w.live.len(), "peek:count", "{n} of {}; {:?}", w.live.len(), w.log);
                }
            }
        }
        ctx.desc(|| w.log.join("; "));
        if w.fired > 0 && w.log.iter().any(|l| l.contains("stop") || l.contains("refresh ")) {
            ctx.nontrivial(w.log.join(";"));
        }
        Ok(())
    })
}
/// The limit on timers, and room made by stopping.
fn capacity(s: &mut Src, ctx: &mut Ctx) -> R {
    let (j, second) = (s.below(10_000), s.coin());
    ctx.nontrivial(format!("{j} {second}"));
    runtime().block_on(async {
        let m = SessionTimerManager::new();
        let mut rx = m.subscribe().await;
        for i in 0..10_000 {
            m.start_timer(sid(i), Duration::from_secs(100), false);
        }
        ensure_eq!(m.active_count(), 10_000, "capacity:count", "");
        m.start_timer(sid(10_000), Duration::from_secs(50), true);
        ensure_eq!(m.active_count(), 10_000, "capacity:limit", "");
        ensure!(m.has_timer(&sid(j)) && !m.has_timer(&sid(10_000)), "capacity:evicted", "{j}");
        // a full manager still refreshes and stops its timers
        if second {
            m.refresh_timer(sid(j), Duration::from_secs(200), false);
        } else {
            m.stop_timer(&sid(j));
        }
        ensure_eq!(m.has_timer(&sid(j)), second, "capacity:refresh", "{j}");
        tokio::time::sleep(Duration::from_secs(101)).await;
        let mut seen = BTreeSet::new();
        while let Ok(e) = rx.try_recv() {
            let SessionTimerEvent::SessionExpired(d) = e else { return fail("capacity:event", format!("{e:?}")) };
            ensure!(seen.insert(d.call_id().parse::<u64>().unwrap()), "capacity:twice", "");
        }
        ensure!(seen.len() == 9_999 && !seen.contains(&j), "capacity:expiries", "{} {j}", seen.len());
        ensure_eq!(m.active_count(), second as usize, "capacity:left", "");
        Ok(())
    })
}

// ------------------------------------------------------------------ C20
const METHODS: [(&str, Method); 4] = [("INVITE", Method::Invite), ("UPDATE", Method::Update), ("SUBSCRIBE", Method::Subscribe), ("REFER", Method::Refer)];
#[derive(Clone, Debug)]
struct Reg {
    r: u32,
    c: u32,
    m: usize,
    code: u16,
    at: u64,
    acked: bool,
    acked_at: u64,
    /// Pushed out by ten later ones: may be forgotten.
    old: bool,
}
fn prack(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let v = pv::PrackValidator::new();
    let names = ["d", "e", "d;e"];
    let mut log: Vec<String> = vec![];
    let mut now = 0u64;
    let mut model: BTreeMap<usize, Vec<Reg>> = BTreeMap::new();
    let (mut ok, mut bad) = (0, 0);
    for _ in 0..s.urange(2, 30) {
        let d = s.weighted(&[3, 2, 1]);
        let regs = model.entry(d).or_default();
        match s.weighted(&[6, 7, 1, 1, 3, 2]) {
            0 => {
                let c = s.range(1, 3) as u32;
                let m = s.weighted(&[6, 1, 1, 1]);
                let r = if s.chance(2, 3) { s.range(1, 4) as u32 } else { regs.iter().map(|x| x.r).max().unwrap_or(100) + 1 };
                if regs.iter().any(|x| (x.r, x.c, x.m) == (r, c, m)) {
                    continue;
                }
                let code = s.range(101, 199) as u16;
                log.push(format!("{now}: register {} {r} {c} {} {code}", names[d], METHODS[m].0));
                v.register_reliable_provisional(names[d], r, c, METHODS[m].1.clone(), code);
                regs.push(Reg { r, c, m, code, at: now, acked: false, acked_at: 0, old: false });
                let n = regs.len();
                for x in &mut regs[..n.saturating_sub(10)] {
                    x.old = true;
                }
            }
            1 => {
                // a PRACK for a registration (possibly of another dialog), altered or not
                let from: Vec<Reg> = if s.chance(1, 6) { model.values().flatten().cloned().collect() } else { regs.clone() };
                let (mut r, mut c, mut m) = if from.is_empty() { (1, 1, 0) } else { let x = &from[s.idx(from.len())]; (x.r, x.c, x.m) };
                match s.weighted(&[6, 1, 1, 1]) {
                    1 => r = r + s.range(0, 2) as u32,
                    2 => c = s.range(1, 3) as u32,
                    3 => m = s.idx(METHODS.len()),
                    _ => {}
                }
                let raw = format!("{r}{}{c} {}", s.pick(&[" ", " ", "  "]), METHODS[m].0);
                let (raw, mangled) = if s.chance(1, 12) { (s.pick(&[format!("{r} {c}"), format!("{r} {c} "), format!("x {c} INVITE"), format!("-{r} {c} INVITE"), format!("{r} {c} INVITE x"), String::new()]).clone(), true) } else { (raw, false) };
                let mut h = vec![("Via", g::via(s)), ("From", "<sip:a@b>;tag=1".to_string()), ("To", "<sip:c@d>;tag=2".into()), ("Call-ID", "x".into()), ("CSeq", "9 PRACK".into())];
                let present = !s.chance(1, 20);
                if present {
                    h.push((*s.pick(&["RAck", "rack", "RACK"]), raw.clone()));
                }
                let q = g::req("PRACK", "sip:c@d", &h, b"");
                let got = v.validate_prack(names[d], &q);
                log.push(format!("{now}: PRACK {} {raw:?} -> {}", names[d], got.is_ok()));
                let regs = model.entry(d).or_default();
                let hit = if present && !mangled { regs.iter().position(|x| (x.r, x.c, x.m) == (r, c, m)) } else { None };
                match hit {
                    Some(i) if !regs[i].acked => {
                        let fresh = !regs[i].old && now - regs[i].at <= 300_000;
                        ensure!(got.is_ok() || !fresh, "prack:refused", "{got:?}; {log:?}");
                        if let Ok(a) = &got {
                            ensure_eq!((a.rseq, a.cseq, &a.method), (r, c, &METHODS[m].1), "prack:value", "{log:?}");
                            regs[i].acked = true;
                            regs[i].acked_at = now;
                            ok += 1;
                        }
                    }
                    Some(_) => {
                        ensure!(got.is_err(), "prack:again", "{log:?}");
                        bad += 1;
                    }
                    None => {
                        ensure!(got.is_err(), "prack:unknown", "{log:?}");
                        bad += 1;
                    }
                }
            }
            2 => {
                log.push(format!("{now}: remove {}", names[d]));
                v.remove_dialog(names[d]);
                regs.clear();
            }
            3 => {
                let r = if regs.is_empty() { 1 } else { regs[s.idx(regs.len())].r };
                log.push(format!("{now}: forget {} {r}", names[d]));
                v.remove_pracked(names[d], r);
                regs.retain(|x| x.r != r || !x.acked);
            }
            4 => {
                let dt = *s.pick(&[1u64, 1_000, 60_000, 150_000, 299_999, 300_000, 300_001, 700_000]);
                clock::advance_ms(dt);
                now += dt;
                log.push(format!("{now}"));
            }
            _ => {}
        }
        for (d, regs) in &model {
            for x in regs.iter() {
                if regs.iter().filter(|y| y.r == x.r).count() > 1 {
                    continue;
                }
                let got = v.is_pracked(names[*d], x.r);
                ensure!(!got || x.acked, "is-pracked:false", "{} {x:?}; {log:?}", names[*d]);
                // the record of an acknowledgement may be cleaned up later
                ensure!(got || !x.acked || x.old || x.acked_at < now, "is-pracked:lost", "{} {x:?}; {log:?}", names[*d]);
            }
            let got = v.get_pending(names[*d]);
            let mut it = got.iter().rev().peekable();
            for x in regs.iter().rev() {
                if it.peek() == Some(&&(x.r, x.code)) && !x.acked {
                    it.next();
                } else {
                    ensure!(x.acked || x.old || now - x.at > 300_000, "pending:lost", "{} {x:?}: {got:?}; {log:?}", names[*d]);
                }
            }
            ensure!(it.next().is_none(), "pending:extra", "{}: {got:?}; {log:?}", names[*d]);
        }
    }
    ctx.desc(|| log.join("; "));
    if ok > 0 && bad > 0 {
        ctx.nontrivial(log.join(";"));
    }
    Ok(())
}
/// RSeq allocation.
fn rseq(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = RSeqManager::new();
    let mut model: BTreeMap<u64, u32> = BTreeMap::new();
    let mut firsts = vec![];
    let mut log = vec![];
    for _ in 0..s.urange(1, 60) {
        let k = s.below(5);
        match s.weighted(&[8, 1, 1]) {
            0 => {
                let n = m.next_rseq(&sid(k));
                log.push(format!("{k}: {n}"));
                match model.get(&k) {
                    None => {
                        ensure!(n >= 1 && n <= 0x7fff_ffff, "rseq:first", "{n}");
                        firsts.push(n);
                    }
                    Some(p) => ensure_eq!(n, p + 1, "rseq:step", "{log:?}"),
                }
                model.insert(k, n);
            }
            1 => {
                log.push(format!("{k}: removed"));
                m.remove(&sid(k));
                model.remove(&k);
            }
            _ => {}
        }
        for k in 0..5 {
            ensure_eq!(m.current_rseq(&sid(k)), model.get(&k).copied(), "rseq:current", "{log:?}");
        }
        ensure_eq!((m.len(), m.is_empty()), (model.len(), model.is_empty()), "rseq:len", "{log:?}");
    }
    ctx.desc(|| log.join("; "));
    ctx.nontrivial(log.join(";"));
    Ok(())
}
/// First values use the whole range and are not predictable from each other; concurrent
/// allocations are distinct and consecutive.
fn rseq_spread(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = std::sync::Arc::new(RSeqManager::new());
    let v: Vec<u32> = (0..64).map(|k| m.next_rseq(&sid(k))).collect();
    // each of these fails with probability below 2^-50 for uniform values
    for bit in 0..31 {
        let ones = v.iter().filter(|x| *x >> bit & 1 == 1).count();
        ensure!(ones > 0 && ones < 64, "rseq:spread", "bit {bit} of the first values is constant: {v:?}");
    }
    let diffs: BTreeSet<u32> = v.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
    ensure!(diffs.len() > 32, "rseq:predictable", "{v:?}");
    let (n, each) = (s.urange(2, 4), s.urange(1, 30));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let m = m.clone();
            std::thread::spawn(move || (0..each).map(|_| m.next_rseq(&sid(0))).collect::<Vec<_>>())
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        let x = h.join().unwrap();
        ensure!(x.windows(2).all(|w| w[0] < w[1]), "rseq:order", "{x:?}");
        all.extend(x);
    }
    all.sort();
    let want: Vec<u32> = (1..=(n * each) as u32).map(|i| v[0] + i).collect();
    ensure_eq!(all, want, "rseq:threads", "{n} threads");
    ctx.desc(|| format!("{n} x {each} {}", v[0]));
    ctx.nontrivial(format!("{v:?}"));
    Ok(())
}
/// What is read from messages.
fn extract(s: &mut Src, ctx: &mut Ctx) -> R {
    let code = *s.pick(&[100u16, 101, 180, 183, 199, 200, 300, 486]);
    let r = s.opt(2, 3, |s| match s.weighted(&[3, 1, 1]) {
        0 => s.range(1, 0xffff_ffff),
        1 => s.range(1, 9),
        _ => 0x7fff_ffff,
    });
    let c = *s.pick(&[1u32, 2, 77, 0x7fff_ffff]);
    let m = s.idx(METHODS.len());
    let mut h = vec![("Via", g::via(s)), ("From", "<sip:a@b>;tag=1".to_string()), ("To", "<sip:c@d>;tag=2".into()), ("Call-ID", "x".into()), ("CSeq", format!("{c} {}", METHODS[m].0))];
    if s.coin() {
        h.push(("Require", "100rel".into()));
    }
    if let Some(r) = r {
        h.push((*s.pick(&["RSeq", "rseq", "RSEQ"]), r.to_string()));
    }
    let p = g::resp(code, &h, b"");
    let d = || format!("{code} {h:?}");
    ctx.desc(d);
    ctx.nontrivial(d());
    ensure_eq!(pv::extract_rseq(&p).map(u64::from), r, "extract:rseq", "{}", d());
    ensure_eq!(pv::extract_cseq_number(p.headers()), Some(c), "extract:cseq", "{}", d());
    ensure_eq!(pv::extract_cseq_method(p.headers()), Some(METHODS[m].1.clone()), "extract:method", "{}", d());
    if h.iter().any(|x| x.0 == "Require") || r.is_none() {
        ensure_eq!(pv::is_reliable_provisional(&p), code > 100 && code < 200 && r.is_some(), "extract:reliable", "{}", d());
    } else {
        ensure!(!pv::is_reliable_provisional(&p) || (code > 100 && code < 200), "extract:reliable", "{}", d());
    }
    let a = pv::RAck { rseq: r.unwrap_or(1) as u32, cseq: c, method: METHODS[m].1.clone() };
    ensure_eq!(a.format(), format!("{} {c} {}", r.unwrap_or(1), METHODS[m].0), "rack:format", "");
    ensure_eq!(a.to_string(), a.format(), "rack:display", "");
    ensure_eq!(pv::RAck::parse(&a.format()).ok(), Some(a), "rack:round-trip", "");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            rule: "a history is non-trivial if a timer fired in it and one was stopped or refreshed; negotiations count by their distinct parameters",
            assumptions: &["time is tokio's paused clock; events may lie within 3 ms of their due time", "an event due at the very instant of a stop or refresh may come before it, never after"],
            units: vec![unit!("negotiate", 100_000, 10_000_000, negotiate), unit!("history", 30_000, 3_000_000, history), unit!("capacity", 20, 500, capacity)],
        },
        Prop {
            id: "C20",
            rule: "a PRACK history is non-trivial if it holds an accepted and a refused PRACK; others count by their distinct operations or messages",
            assumptions: &["only the last ten reliable provisionals of a dialog, and those younger than 300 s, have to be remembered, as the library documents", "the same RSeq, CSeq and method are not registered twice"],
            units: vec![
                unit!("prack", 60_000, 6_000_000, prack),
                unit!("rseq", 20_000, 2_000_000, rseq),
                unit!("rseq-spread", 500, 20_000, rseq_spread),
                unit!("extract", 30_000, 3_000_000, extract),
            ],
        },
    ]
}
