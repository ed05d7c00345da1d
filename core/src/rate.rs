//! C13: rate limiter.
use crate::g;
use sip_ratelimit::*;
use vlib::gen::*;
use vlib::{clock, ensure, ensure_eq, unit, Ctx, Prop, Src, R};

const NS: i128 = 1_000_000_000;

/// Reference continuous token bucket. Credit is counted in 1/(window_ns) tokens, so that one
/// nanosecond earns `max_requests` units and one request costs `window_ns` units.
#[derive(Clone)]
struct Bucket {
    /// continuous bucket, may go one token below zero (grid rounding of the implementation)
    credit: i128,
    last: i128,
    created: i128,
    allowed: i128,
    blocked: u64,
    access: i128,
}
#[derive(Clone)]
struct M {
    max: i128,
    win: i128,
    burst: i128,
    idle: i128,
    // nanosecond rounding of one refill step, per token
    slack: i128,
}
impl M {
    fn new(max: u32, win: u64, burst: u32, idle: u64) -> M {
        let (max, win) = (max as i128, win as i128 * NS);
        M { max, win, burst: burst as i128, idle: idle as i128 * NS, slack: max }
    }
    fn cap(&self) -> i128 {
        self.burst * self.win
    }
    fn fresh(&self, now: i128) -> Bucket {
        Bucket { credit: self.cap(), last: now, created: now, allowed: 0, blocked: 0, access: now }
    }
    fn refill(&self, b: &mut Bucket, now: i128) {
        b.credit = (b.credit + (now - b.last) * self.max).min(self.cap());
        b.last = now;
    }
    /// most tokens a bucket created full may have handed out by now
    fn most(&self, b: &Bucket, now: i128) -> i128 {
        self.burst + if self.burst == 0 { 0 } else { (now - b.created) * self.max / self.win }
    }
}
fn now() -> i128 {
    clock::elapsed_ns() as i128
}

/// the presets, with the rate each is documented to allow
fn presets() -> [(RateLimitConfig, u32, u64); 5] {
    [
        (RateLimitConfig::auth_preset(), 10, 300),
        (RateLimitConfig::register_preset(), 60, 3600),
        (RateLimitConfig::invite_preset(), 30, 60),
        (RateLimitConfig::connection_preset(), 100, 60),
        (RateLimitConfig::default(), 100, 60),
    ]
}

fn config(s: &mut Src) -> (RateLimitConfig, M, bool) {
    if s.chance(1, 12) {
        let (c, max, win) = s.pick(&presets()).clone();
        let m = M::new(max, win, c.burst_capacity(), c.idle_timeout_secs());
        return (c, m, false);
    }
    let max = match s.weighted(&[4, 2, 2, 1]) {
        0 => s.range(1, 12) as u32,
        1 => *s.pick(&[3u32, 7, 13, 30, 60, 100]),
        2 => s.range(1, 5000) as u32,
        _ => s.range(1, 1_000_000) as u32,
    };
    let win = match s.weighted(&[4, 2, 1]) {
        0 => *s.pick(&[1u64, 2, 10, 60]),
        1 => s.range(1, 3600),
        _ => s.range(1, 86400),
    };
    let mut c = RateLimitConfig::new(max, win).expect("valid config");
    let mut burst = max;
    if s.coin() {
        burst = match s.weighted(&[6, 1, 1]) {
            0 => s.range(1, 12) as u32,
            1 => s.range(1, 10_000) as u32,
            _ => 0,
        };
        c = c.with_burst_capacity(burst).expect("valid burst");
    }
    let mut explicit = false;
    if s.chance(1, 3) {
        c = c.with_idle_timeout(*s.pick(&[0u64, 1, 5, 300, 100_000]));
        explicit = true;
    }
    let m = M::new(max, win, burst, c.idle_timeout_secs());
    (c, m, explicit)
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let (c, m, explicit) = config(s);
    ensure_eq!((c.max_requests(), c.window_secs() as i128 * NS, c.burst_capacity() as i128), (m.max as u32, m.win, m.burst), "config", "accessors");
    // an idle timeout shorter than the time to refill a drained bucket is an explicit choice
    // to forget keys sooner; otherwise cleanup must not hand out budget
    let forgetful = explicit && m.idle < m.burst * m.win / m.max + 1;
    let l = RateLimiter::new(c);
    let l2 = l.clone();
    let keys: Vec<String> = (0..s.urange(1, 4)).map(|i| format!("{i}{}", alnum(s, 0, 3))).collect();
    let mut b: std::collections::BTreeMap<usize, Bucket> = Default::default();
    let mut log = vec![format!("max {} per {} s, burst {}, idle {} s", m.max, m.win / NS, m.burst, m.idle / NS)];
    let (mut ok, mut no, mut cleaned) = (0u64, 0u64, 0);
    let mut checks = 0;
    let steps = s.urange(1, 60);
    let tok = m.win / m.max; // ns per token
    for _ in 0..steps {
        let k = s.idx(keys.len());
        let key = keys[k].as_str();
        let t = now();
        match s.weighted(&[12, 6, 1, 2, 2]) {
            0 => {
                // a burst of requests
                for _ in 0..s.urange(1, 6) {
                    let lim = if s.coin() { &l } else { &l2 };
                    let got = lim.check_rate_limit(key);
                    checks += 1;
                    let e = b.entry(k).or_insert_with(|| m.fresh(t));
                    m.refill(e, t);
                    e.access = t;
                    log.push(format!("{key}@{}us:{}", t / 1000, if got { "ok" } else { "no" }));
                    if got {
                        ok += 1;
                        e.allowed += 1;
                        ensure!(e.credit >= 0 && m.burst > 0, "over-budget", "request allowed with no budget left; {log:?}");
                        e.credit -= m.win;
                        let most = m.most(e, t);
                        ensure!(e.allowed <= most, "over-budget", "{} requests allowed where burst and rate give {most}; {log:?}", e.allowed);
                    } else {
                        no += 1;
                        e.blocked += 1;
                        // rounding each refill step up to a nanosecond may cost `slack` units per token
                        let slack = m.slack * (e.allowed + m.burst + 2);
                        ensure!(e.credit < m.win + slack, "under-budget", "request refused although {:.4} tokens are due; {log:?}", e.credit as f64 / m.win as f64);
                    }
                }
            }
            1 => {
                let d = match s.below(8) {
                    0 => tok,
                    1 => tok + 1 + tok / 1000,
                    2 => tok - 1,
                    3 => tok * s.range(1, 40) as i128 / 10,
                    4 => m.win,
                    5 => m.idle,
                    6 => m.idle + NS,
                    _ => s.num(2_000_000_000) as i128,
                };
                clock::advance_ns(d as i64);
                log.push(format!("+{}us", d / 1000));
            }
            2 => {
                if s.coin() {
                    l.reset(key);
                    b.remove(&k);
                    log.push(format!("reset {key}"));
                } else if s.chance(1, 4) {
                    l.clear();
                    b.clear();
                    log.push("clear".into());
                }
            }
            3 => {
                let before = l.active_count();
                let removed = l.cleanup_idle();
                cleaned += 1;
                log.push(format!("cleanup: {removed}"));
                ensure_eq!(l.active_count() + removed, before, "cleanup:count", "{log:?}");
                let gone: Vec<usize> = b.iter().filter(|(_, e)| t - e.access > m.idle).map(|x| *x.0).collect();
                ensure!(removed <= gone.len(), "cleanup:live-removed", "cleanup removed {removed} keys, {} are idle; {log:?}", gone.len());
                for g in gone {
                    if forgetful && l.remaining_tokens(&keys[g]).is_none() {
                        b.remove(&g);
                    } else if l.remaining_tokens(&keys[g]).is_none() {
                        // forgotten: from now on a fresh bucket, but the old one was full by now
                        let e = b.remove(&g).unwrap();
                        let mut e2 = e.clone();
                        m.refill(&mut e2, t);
                        ensure!(m.burst == 0 || e2.credit + m.win + m.slack * (e.allowed + m.burst + 2) >= m.cap(), "cleanup:budget", "cleanup forgot key {} while it still owed budget; {log:?}", keys[g]);
                    }
                }
                for (i, _) in b.iter() {
                    ensure!(l.remaining_tokens(&keys[*i]).is_some(), "cleanup:live-removed", "cleanup dropped the live key {}; {log:?}", keys[*i]);
                }
            }
            _ => {
                let rem = l.remaining_tokens(key);
                let info = l.get_limit_info(key);
                ensure_eq!(rem.is_some(), b.contains_key(&k), "remaining:tracked", "{key}; {log:?}");
                ensure_eq!(info.as_ref().map(|i| i.remaining()), rem, "info:remaining", "{key}; {log:?}");
                if let (Some(r), Some(e), Some(i)) = (rem, b.get_mut(&k), info) {
                    m.refill(e, t);
                    let slack = m.slack * (e.allowed + m.burst + 2);
                    let r = r as i128;
                    ensure!(r <= m.burst && r * m.win <= e.credit.max(0) + m.win, "remaining:too-high", "{r} reported, {:.3} due; {log:?}", e.credit as f64 / m.win as f64);
                    ensure!((r + 1) * m.win + slack > e.credit, "remaining:too-low", "{r} reported, {:.3} due; {log:?}", e.credit as f64 / m.win as f64);
                    ensure_eq!(i.limit() as i128, m.max, "info:limit", "{log:?}");
                    ensure_eq!(i.reset_at() as i64 - clock::unix(), i.retry_after() as i64, "info:reset-at", "{log:?}");
                    if m.burst > 0 {
                        let full = (m.cap() - e.credit) / m.max; // ns until full
                        let ra = i.retry_after() as i128 * NS;
                        ensure!(ra <= full + tok + 2 * NS && ra + NS + tok + slack / m.max >= full, "info:retry-after", "retry after {} s, full in {} ms; {log:?}", i.retry_after(), full / 1_000_000);
                    }
                }
            }
        }
    }
    ensure!(checks >= 1024 || l.active_count() == b.len() || forgetful, "active-count", "{} keys tracked, {} used; {log:?}", l.active_count(), b.len());
    let mt = l.metrics();
    ensure_eq!((mt.total_checks(), mt.allowed_requests(), mt.blocked_requests(), mt.cleanup_runs()), (ok + no, ok, no, cleaned), "metrics", "{log:?}");
    ctx.desc(|| log.join(" "));
    if ok > 0 && no > 0 {
        ctx.nontrivial(log.join(""));
    }
    Ok(())
}

/// Long floods with the automatic cleanup running: the budget over the whole run is the bound.
fn flood(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let max = s.range(1, 50) as u32;
    let win = *s.pick(&[1u64, 60, 600, 3600, 86400]);
    let mut c = RateLimitConfig::new(max, win).unwrap();
    let mut burst = max;
    if s.coin() {
        burst = s.range(1, 200) as u32;
        c = c.with_burst_capacity(burst).unwrap();
    }
    let m = M::new(max, win, burst, c.idle_timeout_secs());
    let l = RateLimiter::new(c);
    let tok = (m.win / m.max) as i64;
    let n = s.range(1100, 4000);
    let nk = s.urange(1, 3);
    let mut b: Vec<Bucket> = (0..nk).map(|_| m.fresh(0)).collect();
    let mut seen = vec![false; nk];
    ctx.desc(|| format!("{n} requests over {nk} keys, {max} per {win} s, burst {burst}"));
    ctx.nontrivial((max, win, burst, n, nk));
    for i in 0..n {
        if s.chance(1, 8) {
            clock::advance_ns(match s.below(4) {
                0 => tok / 2,
                1 => tok,
                2 => (m.idle + NS) as i64,
                _ => tok * 19 / 10,
            });
        }
        let k = s.idx(nk);
        let t = now();
        if !seen[k] {
            seen[k] = true;
            b[k] = m.fresh(t);
        }
        let got = l.check_rate_limit(&format!("k{k}"));
        let e = &mut b[k];
        m.refill(e, t);
        if got {
            e.allowed += 1;
            let most = m.most(e, t);
            ensure!(e.allowed <= most, "flood:over-budget", "after {i} requests {} were allowed, burst and rate give {most}", e.allowed);
            ensure!(e.credit >= 0, "flood:over-budget", "request {i} allowed with no budget left");
            e.credit -= m.win;
        } else {
            let slack = m.slack * (e.allowed + m.burst + 2);
            ensure!(e.credit < m.win + slack, "flood:under-budget", "request {i} refused although {:.3} tokens are due", e.credit as f64 / m.win as f64);
        }
    }
    Ok(())
}

fn keys(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let max = s.range(1, 3) as u32;
    let l = RateLimiter::new(RateLimitConfig::new(max, 3600).unwrap());
    let ks: Vec<String> = (0..s.urange(1, 6))
        .map(|_| match s.below(4) {
            0 => g::hval(s),
            1 => nasty(s, 0, 12),
            2 => "k".repeat(s.range(250, 260) as usize),
            _ => s.pick(&["1.2.3.4", "1.2.3.40", "11.2.3.4", "::1", "::10", "a", "A", "a ", ""]).to_string(),
        })
        .collect();
    ctx.desc(|| format!("{ks:?}"));
    ctx.nontrivial(format!("{ks:?}"));
    let mut used: std::collections::HashMap<&str, u32> = Default::default();
    for _ in 0..s.urange(1, 20) {
        let k = s.pick(&ks).as_str();
        let valid = k.len() <= 256 && !k.chars().any(|c| c.is_control());
        let n = used.entry(k).or_insert(0);
        let want = valid && *n < max;
        let got = match k.parse::<std::net::IpAddr>() {
            Ok(ip) if ip.to_string() == k && s.coin() => l.check_by_ip(ip),
            _ => l.check_rate_limit(k),
        };
        ensure_eq!(got, want, "keys:mixed-up", "key {k:?} after {n} requests of {max}");
        *n += got as u32;
    }
    let d = RateLimiter::disabled();
    let off = RateLimiter::new(RateLimitConfig::new(1, 1).unwrap().with_enabled(false));
    for _ in 0..4 {
        ensure!(d.check_rate_limit("x") && off.check_rate_limit("x"), "disabled", "a disabled limiter refused a request");
    }
    for (a, b) in [(0, 1), (1, 0), (1_000_001, 1), (1, 86401)] {
        ensure!(RateLimitConfig::new(a, b).is_err(), "config:accepted", "new({a}, {b})");
    }
    ensure!(RateLimitConfig::new(1, 1).unwrap().with_burst_capacity(10_001).is_err(), "config:accepted", "burst");
    // log throttle: at most one report per interval and key, with the number of refusals so far
    let iv = s.range(1, 5000);
    let mut last: Option<i128> = None;
    let mut blocked = 0;
    let lim = RateLimiter::new(RateLimitConfig::new(1, 86400).unwrap());
    lim.check_rate_limit("z");
    for _ in 0..s.urange(1, 10) {
        if !lim.check_rate_limit("z") {
            blocked += 1;
        }
        let got = lim.should_log_blocked("z", std::time::Duration::from_millis(iv));
        let due = last.is_none_or(|x| now() - x >= iv as i128 * 1_000_000);
        ensure_eq!(got, due.then_some(blocked), "should-log", "interval {iv} ms");
        if due {
            last = Some(now());
        }
        clock::advance_ms(s.num(2 * iv));
    }
    Ok(())
}

/// The tracked keys never exceed the documented 100000, and known keys keep their budget there.
fn many_keys(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let l = RateLimiter::new(RateLimitConfig::new(2, 3600).unwrap());
    let over = s.range(1, 3000);
    ctx.desc(|| format!("{} distinct keys", 100_000 + over));
    ctx.nontrivial(over);
    ensure!(l.check_rate_limit("first"), "many:first", "first request refused");
    for i in 0..100_000 + over {
        l.check_rate_limit(&format!("k{i}"));
    }
    ensure!(l.active_count() <= 100_000, "many:unbounded", "{} keys tracked", l.active_count());
    ensure!(l.check_rate_limit("first") && !l.check_rate_limit("first"), "many:known-key", "a known key lost its budget at capacity");
    Ok(())
}

/// The digest authenticator's limiter counts per source host of the top Via.
fn in_authenticator(s: &mut Src, ctx: &mut Ctx) -> R {
    use sip_auth::*;
    clock::start();
    let max = s.range(1, 4) as u32;
    let a = DigestAuthenticator::new("r", MemoryCredentialStore::new()).with_rate_limiter(RateLimiter::new(RateLimitConfig::new(max, 3600).unwrap()));
    let hosts = ["10.0.0.1", "10.0.0.2", "[2001:db8::1]", "[2001:db8::2]", "h.example"];
    let mut used: std::collections::HashMap<String, u32> = Default::default();
    ctx.desc(|| format!("limit {max}"));
    for _ in 0..s.urange(1, 24) {
        let h = *s.pick(&hosts);
        let recv = s.opt(1, 3, |s| *s.pick(&["10.0.0.1", "10.0.0.9"]));
        let mut v = format!("SIP/2.0/UDP {h}");
        if s.coin() {
            v += ":5070";
        }
        v += &format!(";branch=z9hG4bK{}", alnum(s, 1, 4));
        if let Some(r) = recv {
            v += &format!(";received={r}");
        }
        let key = recv.map(|r| r.to_string()).unwrap_or(h.trim_matches(['[', ']']).to_string());
        let n = used.entry(key).or_insert(0);
        let r = g::req("REGISTER", "sip:r", &[("Via", v.clone())], b"");
        let limited = a.verify(&r, r.headers()).is_err();
        ensure_eq!(limited, *n >= max, "auth-limiter", "request {} of limit {max} from {v}", *n + 1);
        *n += 1;
    }
    ctx.nontrivial(format!("{used:?}"));
    Ok(())
}

/// The four limiters of a set are the configured ones and do not share budget.
fn sets(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let mut conf = || {
        let c = RateLimitConfig::new(s.range(1, 9) as u32, 3600).unwrap().with_idle_timeout(*s.pick(&[10u64, 20, 30]));
        if s.coin() {
            c.with_burst_capacity(s.range(1, 6) as u32).unwrap()
        } else {
            c
        }
    };
    let mut confs = vec![conf(), conf(), conf(), conf()];
    let set = match s.weighted(&[4, 1, 1]) {
        0 => RateLimiterSet::with_configs(confs[0].clone(), confs[1].clone(), confs[2].clone(), confs[3].clone()),
        1 => {
            confs = presets()[..4].iter().map(|p| p.0.clone()).collect();
            if s.coin() {
                RateLimiterSet::new()
            } else {
                RateLimiterSet::default()
            }
        }
        _ => {
            let d = RateLimiterSet::disabled();
            for l in [d.auth(), d.register(), d.invite(), d.connections()] {
                for _ in 0..200 {
                    ensure!(l.check_rate_limit("k"), "disabled", "a disabled limiter refused a request");
                }
            }
            return Ok(());
        }
    };
    let ls = [set.auth(), set.register(), set.invite(), set.connections()];
    let cap = |c: &RateLimitConfig| c.burst_capacity();
    let mut used = [[0u32; 3]; 4];
    let mut seen = [[false; 3]; 4];
    let shared = set.clone();
    for _ in 0..s.urange(1, 60) {
        let (i, k) = (s.idx(4), s.idx(3));
        let l = if s.coin() { ls[i] } else { [shared.auth(), shared.register(), shared.invite(), shared.connections()][i] };
        let want = used[i][k] < cap(&confs[i]);
        ensure_eq!(l.check_rate_limit(["a", "b", "c"][k]), want, "set:budget", "limiter {i} of {confs:?}, key {k}, {} of {} used", used[i][k], cap(&confs[i]));
        used[i][k] += want as u32;
        seen[i][k] = true;
    }
    for i in 0..4 {
        ensure_eq!(ls[i].active_count(), seen[i].iter().filter(|x| **x).count(), "set:keys", "limiter {i}: {seen:?}");
    }
    let d = s.range(1, 4000);
    clock::advance_s(d);
    let gone = |i: usize| confs[i].idle_timeout_secs() < d;
    let same = |i: usize| confs[i].idle_timeout_secs() == d;
    let n: usize = (0..4).filter(|i| gone(*i)).map(|i| seen[i].iter().filter(|x| **x).count()).sum();
    let edge: usize = (0..4).filter(|i| same(*i)).map(|i| seen[i].iter().filter(|x| **x).count()).sum();
    let got = set.cleanup_idle();
    ensure!(got == n || got == n + edge, "set:cleanup", "{got} keys removed after {d} s, expected {n}: {confs:?} {seen:?}");
    ctx.nontrivial(format!("{used:?} {d}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        rule: "non-trivial: a history in which at least one request was allowed and one refused",
        assumptions: &[
            "Time is a virtual clock interposed under the process (clock_gettime).",
            "At the documented 100000-key capacity new keys are refused; an explicitly configured idle timeout shorter than the refill time forgets keys sooner by choice.",
            "The oracle allows one token of phase difference between a continuous and a stepwise refill.",
        ],
        units: vec![
            unit!("history", 60000, 3000000, history),
            unit!("flood", 400, 30000, flood),
            unit!("keys", 20000, 1000000, keys),
            unit!("many-keys", 8, 60, many_keys),
            unit!("sets", 20000, 1000000, sets),
            unit!("in-authenticator", 10000, 400000, in_authenticator),
        ],
    }]
}
