//! C14: registrar bindings; C15: registrar authorization and malformed requests.
use crate::g;
use sip_auth::*;
use sip_core::{Request, Response, Uri};
use sip_registrar::*;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Duration;
use vlib::gen::*;
use vlib::{clock, ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

const NS: i64 = 1_000_000_000;

// ------------------------------------------------------------------ reference model

#[derive(Debug, Clone, PartialEq)]
struct B {
    contact: String,
    expires_at: i64,
    call_id: String,
    cseq: u32,
    q: f32,
    ua: Option<String>,
    path: Vec<String>,
    instance: Option<String>,
    reg_id: Option<u32>,
}
#[derive(Debug, Clone)]
struct Aor {
    /// spellings of the To URI
    to: Vec<&'static str>,
    key: &'static str,
    b: Vec<B>,
}
fn aors() -> Vec<Aor> {
    let a = |key, to: &[&'static str]| Aor { to: to.to_vec(), key, b: vec![] };
    vec![
        a("sip:alice@example.com", &["sip:alice@example.com", "sip:alice@EXAMPLE.com", "sip:%61lice@example.com", "sip:alice@example.com;transport=tcp", "SIP:alice@Example.Com"]),
        a("sip:Alice@example.com", &["sip:Alice@example.com"]),
        a("sips:alice@example.com", &["sips:alice@example.com"]),
        a("sip:alice@example.com:5070", &["sip:alice@example.com:5070"]),
        a("sip:bob@example.com", &["sip:bob@example.com", "sip:bob@example.com;user=phone"]),
        a("sip:alice@example.org", &["sip:alice@example.org"]),
        a("sip:alic@example.com", &["sip:alic@example.com"]),
        a("sip:example.com", &["sip:example.com"]),
        a("tel:+15551234567", &["tel:+15551234567", "tel:+1-555-123-4567", "tel:+1(555)1234567"]),
        a("tel:1234;phone-context=example.com", &["tel:1234;phone-context=example.com", "tel:12-34;phone-context=EXAMPLE.com"]),
        a("tel:+15559876543;a=9;ext=12;z=1", &["tel:+15559876543;ext=12;z=1;a=9", "tel:+1-555-987-6543;z=1;A=9;ext=12", "tel:+15559876543;a=9;EXT=12;z=1"]),
        a("tel:1234;phone-context=+1555;ext=7", &["tel:1234;ext=7;phone-context=+1-555", "tel:12.34;phone-context=+1555;ext=7"]),
    ]
}
/// Pairwise different contact URIs under RFC 3261 comparison.
const CONTACTS: [&str; 14] = [
    "sip:A@10.0.0.1",
    "sip:a:PW@10.0.0.9",
    "sip:ua1.example.com",
    "sip:a@10.0.0.1",
    "sip:a@10.0.0.1:5061",
    "sip:a@10.0.0.1;transport=tcp",
    "sip:b@[2001:db8::1]:5060;transport=udp;lr",
    "sips:a@10.0.0.1",
    "sip:a,b@10.0.0.2",
    "sip:c%20%2B@10.0.0.3",
    "sip:a&=+$@h.example.com;maddr=1.2.3.4;ttl=1",
    "sip:abcdefghijklmnopqrstuvwxyz0123456789@very.long.host.name.example.com;p1=abcdefghijk;p2=abcdefghijk",
    "sip:a:pw@10.0.0.9",
    "sip:d@10.0.0.4?Subject=x",
];

#[derive(Debug, Clone)]
struct C {
    uri: String,
    /// printed value, invalid spelling possible
    expires: Option<String>,
    q: Option<String>,
    instance: Option<String>,
    reg_id: Option<String>,
    wire: String,
}
fn expiry(s: &mut Src, cfg: &Cfg) -> String {
    match s.weighted(&[6, 6, 3, 3, 2, 2, 2]) {
        0 => s.range(cfg.lo, cfg.hi).to_string(),
        1 => s.range(60, 400).to_string(),
        2 => "0".into(),
        3 => s.pick(&[cfg.lo, cfg.lo.saturating_sub(1), cfg.lo + 1, cfg.hi, cfg.hi + 1, cfg.hi - 1]).to_string(),
        4 => s.range(1, 59).to_string(),
        5 => s.pick(&["00", "0060", "86400", "86401", "4294967295", "4294967296", "18446744073709551615"]).to_string(),
        _ => s.pick(&["abc", "-1", "1.5", "6 0", "99999999999999999999999", "60s", "0x40"]).to_string(),
    }
}
fn contact(s: &mut Src, cfg: &Cfg, pool: &[String]) -> C {
    let uri = if s.chance(1, 10) { format!("sip:{}@{}", alnum(s, 1, 3), hostname(s)) } else { s.pick(pool).clone() };
    let expires = s.opt(1, 2, |s| expiry(s, cfg));
    let q = s.opt(1, 3, |s| {
        if s.chance(1, 8) { s.pick(&["1.5", "abc", "-0.1", "2", "1.001"]).to_string() } else { s.pick(&["0", "1", "0.5", "0.7", "1.0", "0.001", "0.25", "0.999", "1.000"]).to_string() }
    });
    let instance = s.opt(1, 4, |s| format!("\"<urn:uuid:{}{}>\"", if s.coin() { s.pick(&["00aa", "00aA", "00ab"]).to_string() } else { hex(s, 4, 12) }, if s.chance(1, 4) { ";expires=7,x" } else { "" }));
    let reg_id = s.opt(1, 5, |s| if s.chance(1, 6) { s.pick(&["x", "-1", "1x", "4294967296"]).to_string() } else { s.range(1, 9).to_string() });
    let mut ps: Vec<String> = vec![];
    if let Some(v) = &expires {
        ps.push(format!("{}={v}", recase(s, "expires")));
    }
    if let Some(v) = &q {
        ps.push(format!("{}={v}", recase(s, "q")));
    }
    if let Some(v) = &instance {
        ps.push(format!("+sip.instance={v}"));
    }
    if let Some(v) = &reg_id {
        ps.push(format!("reg-id={v}"));
    }
    match s.below(12) {
        4 => ps.push("+expires=5".into()),
        5 => ps.push("+q=0.3;q-=0.2".into()),
        6 => ps.push("sip.instance=\"<urn:x:y>\"".into()),
        7 => ps.push("+reg-id=77".into()),
        0 => ps.push("x=\"a;expires=5,q=9\"".into()),
        1 => ps.push("flag".into()),
        2 => ps.push("y=\"\\\"<>;\"".into()),
        3 => ps.push("expiresx=1".into()),
        _ => {}
    }
    s.shuffle(&mut ps);
    let bare_ok = !uri.contains([';', ',', '?']);
    let mut wire = match s.weighted(&[6, 1, 2, 2, 1]) {
        1 if bare_ok => uri.clone(),
        2 => format!("\"A, <sip:x@y>;expires=1 \\\" B\" <{uri}>"),
        3 => format!("Bob Smith <{uri}>"),
        4 => format!("\"<\"<{uri}>"),
        _ => format!("<{uri}>"),
    };
    for p in &ps {
        wire += s.pick(&[";", ";", " ; "]);
        wire += p;
    }
    C { uri, expires, q, instance, reg_id, wire }
}

#[derive(Debug)]
struct Cfg {
    min: u64,
    max: u64,
    default: u64,
    /// effective limits: the configured ones within what a binding can hold
    lo: u64,
    hi: u64,
    service_route: Option<&'static str>,
    advertise: bool,
}
fn cfg(s: &mut Src) -> Cfg {
    let min = *s.pick(&[60u64, 60, 60, 10, 300, 3600, 3700]);
    let max = *s.pick(&[86400u64, 86400, 3700, 7200, 200_000]).max(&min);
    let default = *s.pick(&[3600u64, 3600, 60, 86400, 1800, 100_000]);
    Cfg {
        min,
        max,
        default,
        lo: min.max(60),
        hi: max.min(86400),
        service_route: *s.pick(&[None, None, Some("<sip:orig@scscf.example.com;lr>")]),
        advertise: s.coin(),
    }
}
type Plain<S> = BasicRegistrar<S, DigestAuthenticator<MemoryCredentialStore>>;
fn build<S, A>(c: &Cfg, mut r: BasicRegistrar<S, A>) -> BasicRegistrar<S, A> {
    r = r
        .with_min_expires(Duration::from_secs(c.min))
        .with_max_expires(Duration::from_secs(c.max))
        .with_default_expires(Duration::from_secs(c.default))
        .with_advertise_outbound_and_path(c.advertise);
    if let Some(sr) = c.service_route {
        let h = g::hdrs(&[("Service-Route", sr.to_string())]);
        r = r.with_service_route(sip_parse::parse_service_route(&h).expect("harness service route"));
    }
    r
}
fn call<S, A>(r: &BasicRegistrar<S, A>, q: &Request, asy: bool) -> anyhow_result::Res
where
    S: LocationStore + AsyncLocationStore,
    A: Authenticator,
{
    let x = if asy { g::block_on(r.handle_register_async(q)) } else { Registrar::handle_register(r, q) };
    x.map_err(|e| format!("{e:#}"))
}
mod anyhow_result {
    pub type Res = Result<sip_core::Response, String>;
}

/// Every binding the store reports for `a` equals the model's live ones.
fn same_store(store: &MemoryLocationStore, a: &mut Aor, log: &[String]) -> R {
    let now = clock::elapsed_ns();
    a.b.retain(|b| b.expires_at > now);
    let mut got: Vec<B> = match store.lookup(a.key) {
        Ok(v) => v
            .iter()
            .map(|b| B {
                contact: b.contact().into(),
                expires_at: now + b.expires().as_nanos() as i64,
                call_id: b.call_id().into(),
                cseq: b.cseq(),
                q: b.q_value(),
                ua: b.user_agent().map(Into::into),
                path: b.path().map(|p| p.routes().iter().map(|r| r.uri().as_str().to_string()).collect()).unwrap_or_default(),
                instance: b.instance_id().map(Into::into),
                reg_id: b.reg_id(),
            })
            .collect(),
        Err(e) => return fail("lookup:error", format!("{e}; {log:?}")),
    };
    let mut want = a.b.clone();
    got.sort_by(|x, y| x.contact.cmp(&y.contact));
    want.sort_by(|x, y| x.contact.cmp(&y.contact));
    let names = |v: &[B]| v.iter().map(|b| b.contact.clone()).collect::<Vec<_>>();
    ensure_eq!(names(&got), names(&want), "bindings:set", "contacts of {} after {log:?}", a.key);
    for (x, y) in got.iter().zip(&want) {
        ensure_eq!(x, y, "bindings:attributes", "binding of {} after {log:?}", a.key);
    }
    Ok(())
}

/// Splits a Contact of a response written as `<uri>;expires=n;q=v` (parameters in any order).
fn resp_contact(v: &str) -> Option<(String, u64, f32)> {
    let v = v.strip_prefix('<')?;
    let (uri, ps) = v.split_once('>')?;
    let (mut e, mut q) = (None, 1.0);
    for p in ps.split(';').filter(|p| !p.trim().is_empty()) {
        match p.split_once('=').map(|(k, v)| (k.trim().to_ascii_lowercase(), v.trim())) {
            Some((k, v)) if k == "expires" => e = v.parse().ok(),
            Some((k, v)) if k == "q" => q = v.parse().ok()?,
            _ => {}
        }
    }
    Some((uri.to_string(), e?, q))
}
/// The response copies Via, From, Call-ID and CSeq, and To with a tag.
fn cseq_of(q: &Request) -> Option<u64> {
    q.headers().get("CSeq")?.split_whitespace().next()?.parse().ok()
}
fn correlated(q: &Request, r: &Response) -> R {
    for name in ["Via", "From", "Call-ID", "CSeq"] {
        let a: Vec<&str> = q.headers().get_all(name).collect();
        let b: Vec<&str> = r.headers().get_all(name).collect();
        ensure_eq!(b, a, format!("response:{name}"), "{} response to {:?}", r.code(), q.headers());
    }
    if let Some(to) = q.headers().get("To") {
        let t: Vec<&str> = r.headers().get_all("To").collect();
        ensure_eq!(t.len(), 1, "response:To", "{:?}", r.headers());
        let p = |x: &str| sip_parse::parse_to_header(&smol_str::SmolStr::new(x));
        if let Some(a) = p(to) {
            let Some(b) = p(t[0]) else { return fail("response:To", format!("To {to:?} answered with {t:?}")) };
            ensure!(b.tag().is_some_and(|t| !t.is_empty()), "response:To-tag", "To {to:?} answered with {t:?}");
            ensure!(a.tag().is_none() || a.tag() == b.tag(), "response:To-tag", "To {to:?} answered with {t:?}");
            ensure!(a.inner().uri() == b.inner().uri() && a.inner().display_name() == b.inner().display_name(), "response:To", "To {to:?} answered with {t:?}");
        }
    }
    if let Some(d) = r.headers().get("Date") {
        ensure!(d.ends_with(" GMT") && d.len() == 29, "response:Date", "Date: {d}");
    }
    let wire = sip_parse::serialize_response(r);
    if cseq_of(q).is_some_and(|n| n >= 1 << 31) {
        // the parser takes no such message
        return Ok(());
    }
    let back = sip_parse::parse_response(&wire);
    ensure!(back.as_ref().is_some_and(|b| b.code() == r.code()), "response:malformed", "{:?}", String::from_utf8_lossy(&wire));
    Ok(())
}

#[derive(Default, Clone)]
struct Req {
    call_id: String,
    cseq: u32,
    expires: Option<String>,
    ua: Option<String>,
    path: Vec<String>,
}
/// What RFC 3261 section 10.3 and the configured limits make of the contacts: the bindings
/// afterwards, or the kinds of refusal that are right.
fn apply(cfg: &Cfg, old: &[B], r: &Req, cs: &[C], now: i64) -> Result<Vec<B>, Vec<&'static str>> {
    let mut bad: Vec<&'static str> = vec![];
    let mut new: Vec<B> = old.iter().filter(|b| b.expires_at > now).cloned().collect();
    let live = new.clone();
    for c in cs {
        let num = |v: &String| -> Option<u64> { if !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) { v.parse().ok() } else { None } };
        let ce = c.expires.as_ref().map(num);
        let he = r.expires.as_ref().map(num);
        if ce == Some(None) || he == Some(None) {
            bad.push("expires");
            continue;
        }
        let e = ce.or(he).flatten().unwrap_or(cfg.default.min(cfg.hi).max(cfg.lo));
        if e > 0 && e < cfg.lo {
            bad.push("brief");
        }
        if e > cfg.hi {
            bad.push("long");
        }
        let q = c.q.as_ref().map(|v| v.parse::<f32>().ok().filter(|x| (0.0..=1.0).contains(x)));
        if q == Some(None) {
            bad.push("q");
        }
        let rid = c.reg_id.as_ref().map(|v| v.parse::<u32>().ok());
        if rid == Some(None) {
            bad.push("reg-id");
        }
        if live.iter().any(|b| b.contact == c.uri && b.call_id == r.call_id && r.cseq <= b.cseq) {
            bad.push("cseq");
        }
        if !bad.is_empty() {
            continue;
        }
        new.retain(|b| b.contact != c.uri);
        if e > 0 {
            if r.cseq > 0x7fff_ffff || r.call_id.len() > 256 || c.uri.len() > 512 || r.ua.as_ref().is_some_and(|u| u.len() > 256) {
                bad.push("limits");
            }
            if new.len() >= 20 {
                bad.push("full");
            }
            new.push(B {
                contact: c.uri.clone(),
                expires_at: now + e as i64 * NS,
                call_id: r.call_id.clone(),
                cseq: r.cseq,
                q: q.flatten().unwrap_or(1.0),
                ua: r.ua.clone(),
                path: r.path.clone(),
                instance: c.instance.clone(),
                reg_id: rid.flatten(),
            });
        }
    }
    if bad.is_empty() { Ok(new) } else { Err(bad) }
}

fn to_value(s: &mut Src, to: &str) -> String {
    let mut v = match s.weighted(&[5, 1, 1, 1]) {
        1 if !to.contains(';') => to.to_string(),
        2 => format!("\"x;tag=1 <sip:mallory@evil.com>\" <{to}>"),
        3 => format!("Al <{to}>"),
        _ => format!("<{to}>"),
    };
    if s.chance(1, 5) {
        v += *s.pick(&[";tag=abc", ";x=1;Tag=abc", " ; tag=abc"]);
    }
    v
}
/// Header fields of a REGISTER, as field lines in a random legal spelling.
fn fields(s: &mut Src, r: &Req, to: &str, contacts: &[String]) -> Vec<(String, String)> {
    let mut h: Vec<(String, String)> = vec![];
    for _ in 0..s.urange(1, 3) {
        h.push(("Via".into(), g::via(s)));
    }
    h.push(("From".into(), "<sip:alice@example.com>;tag=f".into()));
    h.push(("To".into(), to_value(s, to)));
    h.push(("Call-ID".into(), r.call_id.clone()));
    h.push(("CSeq".into(), format!("{}{}REGISTER", r.cseq, s.pick(&[" ", " ", "  "]))));
    if let Some(e) = &r.expires {
        h.push((recase(s, "Expires"), e.clone()));
    }
    if let Some(u) = &r.ua {
        h.push(("User-Agent".into(), u.clone()));
    }
    if !r.path.is_empty() {
        if s.coin() {
            h.push(("Path".into(), r.path.iter().map(|p| format!("<{p}>")).collect::<Vec<_>>().join(", ")));
        } else {
            h.extend(r.path.iter().map(|p| ("Path".to_string(), format!("<{p}>"))));
        }
    }
    // Contact values in one field or several, in order
    let mut i = 0;
    while i < contacts.len() {
        let n = s.urange(1, contacts.len() - i);
        let v = contacts[i..i + n].join(*s.pick(&[",", ", ", " ,  ", ",,"]));
        h.push((s.pick(&["Contact", "contact", "CONTACT", "m"]).to_string(), v));
        i += n;
    }
    h
}
fn request(s: &mut Src, h: &[(String, String)], body: &[u8]) -> Result<Request, vlib::Fail> {
    // half of the requests come from the wire
    if s.coin() {
        let mut w = b"REGISTER sip:example.com SIP/2.0\r\n".to_vec();
        for (k, v) in h {
            w.extend(format!("{k}: {v}\r\n").bytes());
        }
        w.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
        w.extend(body);
        match sip_parse::parse_request(&bytes::Bytes::from(w.clone())) {
            Some(r) => Ok(r),
            None => fail("harness:request", format!("{:?}", String::from_utf8_lossy(&w))),
        }
    } else {
        let h: Vec<(&str, String)> = h.iter().map(|(k, v)| (if k == "m" { "Contact" } else { k.as_str() }, v.clone())).collect();
        Ok(g::req("REGISTER", "sip:example.com", &h, body))
    }
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let c = cfg(s);
    let store = MemoryLocationStore::new();
    let reg: Plain<MemoryLocationStore> = build(&c, BasicRegistrar::new(store.clone(), None));
    let mut all = aors();
    s.shuffle(&mut all);
    all.truncate(s.urange(1, 4));
    let many = s.chance(1, 12);
    let mut pool: Vec<String> = CONTACTS.iter().map(|x| x.to_string()).collect();
    if many {
        pool.extend((0..20).map(|i| format!("sip:u{i}@10.1.1.1")));
    }
    let ids: Vec<String> = (0..s.urange(1, 3)).map(|i| if s.chance(1, 30) { "c".repeat(257) } else { format!("call{i}{}", token(s, 0, 3)) }).collect();
    let mut next: Vec<u32> = ids.iter().map(|_| *s.pick(&[1u32, 1, 1, 100, 0x7fff_fff0])).collect();
    let mut log = vec![format!("min {} max {} default {}", c.min, c.max, c.default)];
    let (mut ok, mut no) = (0, 0);
    for _ in 0..s.urange(1, 24) {
        let now = clock::elapsed_ns();
        match s.weighted(&[12, 2, 4, 1, 1]) {
            0 => {
                let ai = s.idx(all.len());
                let ii = s.idx(ids.len());
                let cseq = match s.weighted(&[8, 2, 1, 1]) {
                    0 => next[ii],
                    1 => next[ii].saturating_sub(1),
                    2 => next[ii].saturating_sub(s.range(2, 5) as u32),
                    _ => next[ii].saturating_add(s.range(1, 50) as u32),
                }
                .clamp(1, 0x7fff_ffff);
                let mut r = Req {
                    call_id: ids[ii].clone(),
                    cseq,
                    expires: s.opt(1, 3, |s| expiry(s, &c)),
                    ua: s.opt(1, 4, |s| if s.chance(1, 20) { "u".repeat(s.urange(255, 258)) } else { ascii_text(s, 1, 10).trim().to_string() }),
                    path: if s.chance(1, 4) { s.vec(1, 3, |s| format!("sip:p{}@edge.example.net;lr", s.below(3))) } else { vec![] },
                };
                if r.ua.as_ref().is_some_and(|u| u.is_empty()) {
                    r.ua = None;
                }
                let cs: Vec<C> = s.vec(1, if many { 8 } else { 3 }, |s| contact(s, &c, &pool));
                let a = &mut all[ai];
                let to = *s.pick(&a.to);
                let h = fields(s, &r, to, &cs.iter().map(|c| c.wire.clone()).collect::<Vec<_>>());
                let q = request(s, &h, b"")?;
                log.push(format!("@{}s REGISTER {to} {} {} {:?}", now / NS, &r.call_id[..r.call_id.len().min(12)], r.cseq, h.iter().filter(|(k, _)| k.eq_ignore_ascii_case("contact") || k == "m" || k.eq_ignore_ascii_case("expires")).map(|x| &x.1).collect::<Vec<_>>()));
                let want = apply(&c, &a.b, &r, &cs, now);
                let asy = s.coin();
                let resp = match call(&reg, &q, asy) {
                    Ok(x) => x,
                    Err(e) => return fail("register:no-response", format!("{e}; {log:?}")),
                };
                correlated(&q, &resp)?;
                match want {
                    Ok(b) => {
                        ensure_eq!(resp.code(), 200, "register:refused", "{:?}; {log:?}", resp.reason());
                        a.b = b;
                        ok += 1;
                        next[ii] = next[ii].max(cseq).saturating_add(1);
                        listed(&c, &a.b, &resp, now, &log)?;
                    }
                    Err(why) => {
                        no += 1;
                        ctx.label(format!("refused: {}", why[0]));
                        let code = resp.code();
                        ensure!(code >= 400, "register:accepted", "answered {code}, expected refusal for {why:?}; {log:?}");
                        if why.iter().all(|w| *w == "brief") {
                            ensure_eq!(code, 423, "register:brief-code", "{log:?}");
                            ensure_eq!(resp.headers().get("Min-Expires"), Some(c.lo.to_string().as_str()), "register:min-expires", "{log:?}");
                        } else if !why.contains(&"full") {
                            ensure!((400..500).contains(&code), "register:code", "answered {code} for {why:?}; {log:?}");
                        }
                        log.push(format!("  -> {code} {why:?}"));
                    }
                }
            }
            1 => {
                // wildcard
                let ai = s.idx(all.len());
                let ii = s.idx(ids.len());
                let cseq = if s.chance(2, 3) { next[ii] } else { next[ii].saturating_sub(1 + s.below(2) as u32) }.clamp(1, 0x7fff_ffff);
                let exp = s.weighted(&[8, 1, 1, 1]);
                let other = s.chance(1, 8);
                let r = Req { call_id: ids[ii].clone(), cseq, expires: [Some("0"), None, Some("60"), Some("x")][exp].map(Into::into), ..Default::default() };
                let mut ct = vec![s.pick(&["*", " * "]).to_string()];
                if other {
                    ct.push("<sip:a@b>".into());
                    s.shuffle(&mut ct);
                }
                let a = &mut all[ai];
                let to = *s.pick(&a.to);
                let h = fields(s, &r, to, &ct);
                let q = request(s, &h, b"")?;
                log.push(format!("@{}s WILDCARD {to} {} {cseq} {:?}{}", now / NS, &r.call_id[..r.call_id.len().min(12)], r.expires, if other { " +other" } else { "" }));
                let order = a.b.iter().any(|b| b.expires_at > now && b.call_id == r.call_id && cseq <= b.cseq);
                let resp = match call(&reg, &q, s.coin()) {
                    Ok(x) => x,
                    Err(e) => return fail("register:no-response", format!("{e}; {log:?}")),
                };
                correlated(&q, &resp)?;
                if exp == 0 && !other && !order {
                    ensure_eq!(resp.code(), 200, "wildcard:refused", "{log:?}");
                    a.b.clear();
                    listed(&c, &[], &resp, now, &log)?;
                    next[ii] = next[ii].max(cseq).saturating_add(1);
                    ok += 1;
                } else {
                    no += 1;
                    ensure!((400..500).contains(&resp.code()), "wildcard:accepted", "answered {}; {log:?}", resp.code());
                    ctx.label("refused: wildcard");
                }
            }
            2 => {
                let d = match s.below(6) {
                    0 => NS * 60,
                    1 => NS * c.lo as i64,
                    2 => NS * s.range(1, 400) as i64,
                    3 => s.range(1, 2_000) as i64 * 1_000_000,
                    4 => {
                        // to the very end of some binding
                        let ends: Vec<i64> = all.iter().flat_map(|a| a.b.iter().map(|b| b.expires_at - now)).filter(|d| *d > 0).collect();
                        if ends.is_empty() { 0 } else { *s.pick(&ends) - s.below(2) as i64 }
                    }
                    _ => NS * s.range(3000, 90_000) as i64,
                };
                clock::advance_ns(d);
                log.push(format!("+{}s", d as f64 / NS as f64));
            }
            3 => {
                let dead: usize = all.iter().map(|a| a.b.iter().filter(|b| b.expires_at <= now).count()).sum();
                let n = store.cleanup_expired().map_err(|e| vlib::Fail { sig: "cleanup".into(), msg: e.to_string() })?;
                // lookups may have dropped some of the dead ones already
                ensure!(n <= dead, "cleanup:count", "{n} removed, {dead} expired; {log:?}");
                log.push("cleanup".into());
            }
            _ => {
                let a = s.pick(&all).key;
                let _ = store.lookup(a);
                let other = store.lookup("sip:nobody@example.com").map(|v| v.len()).unwrap_or(99);
                ensure_eq!(other, 0, "lookup:invented", "{log:?}");
            }
        }
        for a in all.iter_mut() {
            if s.chance(2, 3) {
                same_store(&store, a, &log)?;
            }
        }
    }
    for a in all.iter_mut() {
        same_store(&store, a, &log)?;
    }
    ctx.desc(|| log.join("; "));
    if ok > 0 && no > 0 {
        ctx.nontrivial(log.join(";"));
    }
    Ok(())
}

/// The 200 response lists exactly the live bindings, and the extensions.
fn listed(c: &Cfg, b: &[B], resp: &Response, now: i64, log: &[String]) -> R {
    let mut got = vec![];
    for v in resp.headers().get_all("Contact") {
        match resp_contact(v) {
            Some(x) => got.push(x),
            None => return fail("response:Contact", format!("{v:?}; {log:?}")),
        }
    }
    got.sort_by(|x, y| x.0.cmp(&y.0));
    let mut want: Vec<&B> = b.iter().collect();
    want.sort_by(|x, y| x.contact.cmp(&y.contact));
    ensure_eq!(got.iter().map(|x| x.0.as_str()).collect::<Vec<_>>(), want.iter().map(|b| b.contact.as_str()).collect::<Vec<_>>(), "response:bindings", "{log:?}");
    for (g, w) in got.iter().zip(&want) {
        let left = w.expires_at - now;
        ensure!(g.1 as i64 * NS <= left && left <= (g.1 as i64 + 1) * NS, "response:expires", "{g:?}, {left} ns left; {log:?}");
        // (a binding in its last second is listed without its parameters)
        ensure!(g.1 == 0 || (g.2 - w.q).abs() < 5e-4, "response:q", "{g:?}, q {}; {log:?}", w.q);
    }
    // Path of every binding, Service-Route and Supported as configured
    let paths: Vec<String> = resp.headers().get_all("Path").flat_map(|v| v.split(',').map(|x| x.trim().to_string()).collect::<Vec<_>>()).collect();
    let mut sets: Vec<&Vec<String>> = want.iter().map(|b| &b.path).filter(|p| !p.is_empty()).collect();
    sets.sort();
    sets.dedup();
    let mut want_p: Vec<String> = sets.into_iter().flatten().map(|p| format!("<{p}>")).collect();
    let mut got_p = paths.clone();
    want_p.sort();
    got_p.sort();
    ensure_eq!(got_p, want_p, "response:Path", "{log:?}");
    if !b.is_empty() {
        ensure_eq!(resp.headers().get("Service-Route"), c.service_route, "response:Service-Route", "{log:?}");
        ensure_eq!(resp.headers().get("Supported").is_some(), c.advertise, "response:Supported", "{log:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ store faults

/// A location store whose n-th write fails.
struct Faulty {
    inner: MemoryLocationStore,
    left: AtomicI64,
}
impl Faulty {
    fn tick(&self) -> Result<(), std::io::Error> {
        if self.left.fetch_sub(1, Ordering::Relaxed) == 0 { Err(std::io::Error::other("disk full")) } else { Ok(()) }
    }
}
type AR<T> = std::result::Result<T, anyhow::Error>;
impl LocationStore for Faulty {
    fn upsert(&self, b: Binding) -> AR<()> {
        self.tick()?;
        self.inner.upsert(b)
    }
    fn remove(&self, a: &str, c: &str) -> AR<()> {
        self.tick()?;
        self.inner.remove(a, c)
    }
    fn remove_all(&self, a: &str) -> AR<()> {
        self.tick()?;
        self.inner.remove_all(a)
    }
    fn lookup(&self, a: &str) -> AR<Vec<Binding>> {
        self.inner.lookup(a)
    }
    fn cleanup_expired(&self) -> AR<usize> {
        self.inner.cleanup_expired()
    }
}
#[async_trait::async_trait]
impl AsyncLocationStore for Faulty {
    async fn upsert(&self, b: Binding) -> AR<()> {
        LocationStore::upsert(self, b)
    }
    async fn remove(&self, a: &str, c: &str) -> AR<()> {
        LocationStore::remove(self, a, c)
    }
    async fn remove_all(&self, a: &str) -> AR<()> {
        LocationStore::remove_all(self, a)
    }
    async fn lookup(&self, a: &str) -> AR<Vec<Binding>> {
        LocationStore::lookup(self, a)
    }
    async fn cleanup_expired(&self) -> AR<usize> {
        LocationStore::cleanup_expired(self)
    }
}
/// One write of a REGISTER's updates fails: no update of that request stays.
fn fault(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let c = Cfg { min: 60, max: 86400, default: 3600, lo: 60, hi: 86400, service_route: None, advertise: false };
    let store = MemoryLocationStore::new();
    let reg: Plain<Faulty> = build(&c, BasicRegistrar::new(Faulty { inner: store.clone(), left: AtomicI64::new(i64::MAX) }, None));
    let mut a = aors().remove(0);
    let pool: Vec<String> = CONTACTS.iter().map(|x| x.to_string()).collect();
    let mut log = vec![];
    for step in 0..s.urange(2, 5) {
        let now = clock::elapsed_ns();
        let r = Req { call_id: "c".into(), cseq: step as u32 + 1, ..Default::default() };
        let mut cs: Vec<C> = s.vec(1, 4, |s| contact(s, &c, &pool));
        for x in &mut cs {
            let e = *s.pick(&["60", "0", "500"]);
            *x = C { uri: x.uri.clone(), expires: Some(e.into()), q: None, instance: None, reg_id: None, wire: format!("<{}>;expires={e}", x.uri) };
        }
        let h = fields(s, &r, "sip:alice@example.com", &cs.iter().map(|c| c.wire.clone()).collect::<Vec<_>>());
        let q = request(s, &h, b"")?;
        let k = if step == 0 { i64::MAX } else { s.below(6) as i64 };
        reg.location_store().left.store(k, Ordering::Relaxed);
        log.push(format!("REGISTER {:?}, write {k} fails", cs.iter().map(|c| &c.wire).collect::<Vec<_>>()));
        let want = apply(&c, &a.b, &r, &cs, now);
        let resp = call(&reg, &q, s.coin());
        let fails = (k as u64) < cs.len() as u64;
        match (&resp, want) {
            (Ok(x), Ok(b)) if !fails => {
                ensure_eq!(x.code(), 200, "fault:refused", "{log:?}");
                a.b = b;
            }
            (Ok(x), _) => {
                correlated(&q, x)?;
                ensure!(x.code() >= 400, "fault:accepted", "answered {}; {log:?}", x.code());
                ctx.nontrivial(format!("{log:?}"));
            }
            (Err(_), _) => {}
        }
        reg.location_store().left.store(i64::MAX, Ordering::Relaxed);
        same_store(&store, &mut a, &log)?;
        clock::advance_s(s.range(0, 30));
    }
    ctx.desc(|| log.join("; "));
    Ok(())
}

// ------------------------------------------------------------------ the store on its own

fn store_history(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let st = MemoryLocationStore::new();
    let asy = s.coin();
    let keys = ["a", "b", "A"];
    let mut m: std::collections::BTreeMap<(usize, String), (i64, u32)> = Default::default();
    let mut log = vec![];
    let few = s.chance(1, 3);
    for i in 0..s.urange(1, 60) {
        let now = clock::elapsed_ns();
        let k = s.idx(keys.len());
        let c = if few { format!("sip:c{}@h", s.below(4)) } else { format!("sip:c{}@h", s.below(40)) };
        match s.weighted(&[12, 2, 1, 2, 1, 2]) {
            0 => {
                let e = s.range(60, 200);
                let b = Binding::new(keys[k].into(), c.clone().into(), Duration::from_secs(e)).and_then(|b| b.with_cseq(i as u32)).expect("harness binding");
                let live = m.iter().filter(|((a, x), v)| *a == k && v.0 > now && *x != c).count();
                let r = if asy { g::block_on(AsyncLocationStore::upsert(&st, b)) } else { st.upsert(b) };
                log.push(format!("upsert {} {c} {e}", keys[k]));
                ensure_eq!(r.is_ok(), live < 20, "store:capacity", "{live} other live bindings; {log:?}");
                if r.is_ok() {
                    m.insert((k, c), (now + e as i64 * NS, i as u32));
                }
            }
            1 => {
                log.push(format!("remove {} {c}", keys[k]));
                let r = if asy { g::block_on(AsyncLocationStore::remove(&st, keys[k], &c)) } else { st.remove(keys[k], &c) };
                ensure!(r.is_ok(), "store:remove", "{log:?}");
                m.remove(&(k, c));
            }
            2 => {
                log.push(format!("remove_all {}", keys[k]));
                let r = if asy { g::block_on(AsyncLocationStore::remove_all(&st, keys[k])) } else { st.remove_all(keys[k]) };
                ensure!(r.is_ok(), "store:remove", "{log:?}");
                m.retain(|(a, _), _| *a != k);
            }
            3 => {
                let d = NS * *s.pick(&[1, 30, 60, 100, 200]);
                clock::advance_ns(d);
                log.push(format!("+{}", d / NS));
            }
            4 => {
                let r = if asy { g::block_on(AsyncLocationStore::cleanup_expired(&st)) } else { st.cleanup_expired() };
                ensure!(r.is_ok(), "store:cleanup", "{log:?}");
                log.push("cleanup".into());
            }
            _ => {}
        }
        let now = clock::elapsed_ns();
        for (ki, k) in keys.iter().enumerate() {
            let got: std::collections::BTreeMap<String, (i64, u32)> = if asy { g::block_on(AsyncLocationStore::lookup(&st, k)) } else { st.lookup(k) }
                .unwrap()
                .iter()
                .map(|b| (b.contact().to_string(), (now + b.expires().as_nanos() as i64, b.cseq())))
                .collect();
            let want: std::collections::BTreeMap<String, (i64, u32)> = m.iter().filter(|((a, _), v)| *a == ki && v.0 > now).map(|((_, c), v)| (c.clone(), *v)).collect();
            ensure_eq!(got, want, "store:contents", "{k} after {log:?}");
        }
    }
    ctx.desc(|| log.join("; "));
    ctx.nontrivial(log.join(";"));
    Ok(())
}
/// At the documented total capacity: new bindings are refused, refreshes and removals work, and
/// space of expired bindings comes back.
fn store_capacity(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let st = MemoryLocationStore::new();
    let b = |a: usize, c: usize, e: u64| Binding::new(format!("sip:u{a}@h").into(), format!("sip:c{c}@h").into(), Duration::from_secs(e)).unwrap();
    let short = s.urange(1, 50);
    for i in 0..100_000usize {
        let e = if i < short { 60 } else { 3600 };
        ensure!(st.upsert(b(i / 20, i % 20, e)).is_ok(), "capacity:early", "binding {i} refused");
    }
    ensure!(st.upsert(b(900_000, 0, 60)).is_err(), "capacity:exceeded", "binding 100001 accepted");
    let k = s.urange(100, 99_999);
    ensure!(st.upsert(b(k / 20, k % 20, 3000)).is_ok(), "capacity:refresh", "refresh of an existing binding refused at capacity");
    clock::advance_s(60);
    for i in 0..short {
        ensure!(st.upsert(b(900_000 + i / 20, i % 20, 60)).is_ok(), "capacity:expired", "{short} bindings expired, new one {i} refused");
    }
    ensure!(st.upsert(b(910_000, 0, 60)).is_err(), "capacity:exceeded", "binding accepted over capacity");
    ctx.desc(|| format!("{short} expire, refresh {k}"));
    ctx.nontrivial(format!("{short} {k}"));
    Ok(())
}

// ------------------------------------------------------------------ C15

const USERS: [(&str, &str); 14] = [("jos\u{c9}", "pl"), ("JOS\u{c9}", "pm"), ("jo\u{17f}e", "pn"), ("\u{ff41}lice", "pf"), ("\u{430}lice", "pg"), ("alic", "ph"), ("jos\u{e9}", "pi"), ("jose\u{301}", "pj"), ("5551", "pk"), ("alice", "pa"), ("bob", "pb"), ("al ice", "pc"), ("+15551234567", "pd"), ("ALICE", "pe")];
fn auth(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let c = Cfg { min: 60, max: 86400, default: 3600, lo: 60, hi: 86400, service_route: None, advertise: false };
    let proxy = s.coin();
    let creds = MemoryCredentialStore::with(USERS.iter().map(|(u, p)| Credentials::new(*u, *p, "example.com")).collect());
    let a = DigestAuthenticator::new("example.com", creds).with_proxy_auth(proxy).with_nonce_ttl(Duration::from_secs(100));
    let store = MemoryLocationStore::new();
    let reg = build(&c, BasicRegistrar::new(store.clone(), Some(a)));
    // (AOR key, To URI, users that may register it)
    let targets: [(&str, &str, &[&str]); 11] = [
        ("sip:jos\u{e9}@example.com", "sip:jos%C3%A9@example.com", &["jos\u{e9}", "jose\u{301}"]),
        ("sip:jose@example.com", "sip:jose@example.com", &[]),
        ("sip:alice@example.com", "sip:alice@example.com", &["alice", "ALICE"]),
        ("sip:bob@example.com", "sip:bob@EXAMPLE.com", &["bob"]),
        ("sip:al ice@example.com", "sip:al%20ice@example.com", &["al ice"]),
        ("tel:+15551234567", "tel:+1-555-123-4567", &["+15551234567"]),
        ("sip:example.com", "sip:example.com", &[]),
        ("sip:carol@example.com", "sip:carol@example.com", &[]),
        ("sip:alice:bob@example.com", "sip:alice:bob@example.com", &[]),
        ("sip:bob@alice", "sip:bob@alice", &["bob"]),
        ("tel:5551;phone-context=alice", "tel:5551;phone-context=alice", &["5551"]),
    ];
    let mut m: std::collections::BTreeMap<&str, Vec<B>> = Default::default();
    let (hn, other_hn) = if proxy { ("Proxy-Authorization", "Authorization") } else { ("Authorization", "Proxy-Authorization") };
    let mut log = vec![if proxy { "407".to_string() } else { "401".into() }];
    // nonce from a challenge: value, opaque, issued at, highest nc, last used at
    let mut nonces: Vec<(String, String, i64, u32, i64)> = vec![];
    let (mut good, mut bad) = (0, 0);
    for step in 0..s.urange(1, 10) {
        let now = clock::elapsed_ns();
        let (key, to, owners) = *s.pick(&targets);
        let r = Req { call_id: "c".into(), cseq: step as u32 + 1, ..Default::default() };
        let e = *s.pick(&["3600", "0", "60"]);
        let cu = format!("sip:x{}@10.0.0.1", s.below(2));
        let wildcard = s.chance(1, 6);
        let cs = vec![C { uri: cu.clone(), expires: Some(e.into()), q: None, instance: None, reg_id: None, wire: format!("<{cu}>;expires={e}") }];
        let mut h = fields(s, &r, to, &if wildcard { vec!["*".into()] } else { vec![cs[0].wire.clone()] });
        if wildcard {
            h.push(("Expires".into(), "0".into()));
        }
        let body = if s.chance(1, 4) { b"body".to_vec() } else { vec![] };
        // the credentials presented, and what the model says about them
        let kind = if nonces.is_empty() { 0 } else { s.weighted(&[1, 8, 2, 2, 2, 1, 1, 1]) };
        let mut user: Option<&str> = None;
        let mut header = None;
        if kind > 0 {
            let ni = s.idx(nonces.len());
            let (nonce, opaque, at, nc0, used) = nonces[ni].clone();
            let ui = s.idx(USERS.len());
            let ui = if kind == 1 && s.coin() { USERS.iter().position(|u| owners.first() == Some(&u.0)).unwrap_or(ui) } else { ui };
            let (u, p) = USERS[ui];
            let nc = nc0 + 1;
            let mut d = crate::auth::simple(u, "example.com", if kind == 2 { "wrong" } else { p }, "REGISTER", "sip:example.com", &nonce, nc, &body);
            let mut claimed = u;
            match kind {
                3 => {
                    // correct digest of one user, presented under another name
                    let o = USERS[(ui + 1 + s.idx(USERS.len() - 1)) % USERS.len()].0;
                    claimed = o;
                }
                4 => d = crate::auth::simple(u, "example.com", p, "INVITE", "sip:example.com", &nonce, nc, &body),
                5 => d = "0".repeat(d.len()),
                6 => d = crate::auth::simple(u, "example.com", p, "REGISTER", "sip:example.com", "forged-nonce-0000", nc, &body),
                _ => {}
            }
            let nv = if kind == 6 { "forged-nonce-0000" } else { &nonce };
            header = Some(format!("Digest username=\"{claimed}\", realm=\"example.com\", nonce=\"{nv}\", uri=\"sip:example.com\", response=\"{d}\", algorithm=SHA-256, qop=auth, nc={nc:08x}, cnonce=\"cn\", opaque=\"{opaque}\""));
            let fresh = now - at <= 100 * NS && (nc0 == 0 || now - used <= 10 * NS);
            if kind == 1 && fresh {
                user = Some(u);
                nonces[ni].3 = nc;
                nonces[ni].4 = now;
            }
            if kind == 7 {
                // right credentials in the wrong header field
                h.push((other_hn.into(), header.take().unwrap()));
            }
            log.push(format!("kind {kind} as {claimed} nonce {ni} nc {nc}{}", if fresh { "" } else { " (expired)" }));
        } else {
            log.push("no credentials".into());
        }
        if let Some(v) = header {
            h.push((hn.into(), v));
        }
        // a second, unverified field naming the owner
        if kind != 7 && s.chance(1, 4) {
            let o = owners.first().copied().unwrap_or("carol");
            h.push((other_hn.into(), format!("Digest username=\"{o}\", realm=\"example.com\", nonce=\"x\", uri=\"sip:example.com\", response=\"00\"")));
            log.push(format!("  stray {other_hn} of {o}"));
        }
        s.shuffle(&mut h);
        let q = request(s, &h, &body)?;
        log.push(format!("@{} REGISTER {to} {}", now / NS, if wildcard { "*".to_string() } else { cs[0].wire.clone() }));
        let resp = match call(&reg, &q, s.coin()) {
            Ok(x) => x,
            Err(e) => return fail("auth:no-response", format!("{e}; {log:?}")),
        };
        correlated(&q, &resp)?;
        let b = m.entry(key).or_default();
        match user {
            None => {
                bad += 1;
                ensure_eq!(resp.code(), if proxy { 407 } else { 401 }, "auth:unauthenticated", "{log:?}");
                let v = resp.headers().get(if proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" }).unwrap_or_default().to_string();
                let (Some(n), Some(o)) = (crate::auth::param(&v, "nonce"), crate::auth::param(&v, "opaque")) else { return fail("auth:challenge", format!("{v:?}")) };
                nonces.push((n, o, now, 0, now));
            }
            Some(u) if !owners.contains(&u) => {
                bad += 1;
                ensure_eq!(resp.code(), 403, "auth:unauthorized", "{u} for {to}; {log:?}");
            }
            Some(_) => {
                good += 1;
                if wildcard {
                    ensure_eq!(resp.code(), 200, "auth:refused", "{log:?}");
                    b.clear();
                } else {
                    ensure_eq!(resp.code(), 200, "auth:refused", "{log:?}");
                    *b = apply(&c, b, &r, &cs, now).unwrap_or_default();
                }
            }
        }
        for (key, _, _) in &targets {
            let mut a = Aor { to: vec![], key, b: m.get(key).cloned().unwrap_or_default() };
            same_store(&store, &mut a, &log)?;
        }
        if s.chance(1, 6) {
            clock::advance_s(s.range(1, 150));
        }
    }
    ctx.desc(|| log.join("; "));
    if good > 0 && bad > 1 {
        ctx.nontrivial(log.join(";"));
    }
    Ok(())
}

/// A request with one known defect is refused with a 4xx and changes nothing.
fn malformed(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let c = cfg(s);
    let store = MemoryLocationStore::new();
    let reg: Plain<MemoryLocationStore> = build(&c, BasicRegistrar::new(store.clone(), None));
    let mut a = aors().remove(0);
    let pool: Vec<String> = CONTACTS.iter().map(|x| x.to_string()).collect();
    let good = |uri: &str| C { uri: uri.into(), expires: None, q: None, instance: None, reg_id: None, wire: format!("<{uri}>") };
    // some bindings first
    let r = Req { call_id: "c".into(), cseq: 5, ..Default::default() };
    let cs: Vec<C> = s.vec(1, 3, |s| good(s.pick(&pool[..]).as_str()));
    let h = fields(s, &r, a.to[0], &cs.iter().map(|c| c.wire.clone()).collect::<Vec<_>>());
    let q = request(s, &h, b"")?;
    let resp = call(&reg, &q, false);
    ensure!(resp.as_ref().is_ok_and(|r| r.code() == 200), "malformed:setup", "{resp:?} {h:?} {c:?}");
    a.b = apply(&c, &a.b, &r, &cs, 0).expect("harness setup");
    // a valid second request, then broken
    let mut r = Req { call_id: s.pick(&["c", "d"]).to_string(), cseq: 6, expires: s.opt(1, 3, |_| "3700".into()), ..Default::default() };
    let mut cs: Vec<String> = s.vec(1, 3, |s| good(s.pick(&pool[..]).as_str()).wire);
    let mut drop: Option<&str> = None;
    let mut to = a.to[0].to_string();
    let mut raw_to = None;
    let mut extra: Vec<(String, String)> = vec![];
    let mut method = "REGISTER";
    let mut cseq_line = None;
    let i = s.idx(cs.len());
    let what = match s.below(20) {
        0 => {
            drop = Some(*s.pick(&["Via", "From", "To", "Call-ID", "CSeq"]));
            format!("no {}", drop.unwrap())
        }
        1 => {
            cs.clear();
            "no Contact".into()
        }
        2 => {
            raw_to = Some(s.pick(&["<>", "<sip:alice@example.com", "alice", "<sip:>", "<:x>", "", "<http//x>"]).to_string());
            "bad To".into()
        }
        3 => {
            to = s.pick(&["mailto:alice@example.com", "http://example.com", "urn:service:sos", "im:alice@example.com"]).to_string();
            "To scheme".into()
        }
        4 => {
            cs.insert(i, "*".into());
            r.expires = Some("0".into());
            "wildcard with others".into()
        }
        5 => {
            cs = vec!["*".into()];
            r.expires = s.pick(&[None, Some("1"), Some("60"), Some("-0"), Some("x"), Some(""), Some("00x")]).map(Into::into);
            "wildcard without Expires: 0".into()
        }
        6 => {
            cs = vec!["*".into(), "*".into()];
            r.expires = Some("0".into());
            "two wildcards".into()
        }
        7 => {
            cs[i] = s.pick(&["<>", "<sip:a@b", "sip:a@b>", "<sip:>", "<sip:a@>", "<sip:a@b:99999>", "\"x <sip:a@b>", ";expires=5", "<sip:a@b c>"]).to_string();
            format!("bad contact {}", cs[i])
        }
        8 => {
            cs[i] = format!("<{}>", s.pick(&["mailto:a@b", "tel:+1234", "http://x/y", "urn:x:y", "nonsense"]));
            format!("contact scheme {}", cs[i])
        }
        9 => {
            cs[i] = format!("{};expires={}", cs[i].split(';').next().unwrap().trim_end_matches('>').to_string() + if cs[i].split(';').next().unwrap().ends_with('>') { ">" } else { ";lr>" }, s.pick(&["abc", "-1", "99999999999999999999", "1.5", "\"60\"", ""]));
            format!("expires of {}", cs[i])
        }
        10 => {
            r.expires = Some(s.pick(&["abc", "-1", "99999999999999999999", "1.5", "\"60\"", "6 0"]).to_string());
            "Expires header".into()
        }
        11 => {
            cs[i] += &format!(";q={}", s.pick(&["1.5", "-0.5", "x", "NaN", "inf", "2", "", "1,0"]));
            "q".into()
        }
        12 => {
            cs[i] += &format!(";expires={}", s.pick(&[1, c.lo - 1, 59]));
            "too brief".into()
        }
        13 => {
            cs[i] += &format!(";expires={}", s.pick(&[c.hi + 1, 4294967295, 1 << 40]));
            "too long".into()
        }
        14 => {
            r.call_id = "c".repeat(s.urange(257, 400));
            "Call-ID too long".into()
        }
        15 => {
            r.cseq = *s.pick(&[0x8000_0000, u32::MAX]);
            "CSeq too large".into()
        }
        16 => {
            method = *s.pick(&["INVITE", "OPTIONS", "REGISTERX", "SUBSCRIBE"]);
            format!("method {method}")
        }
        17 => {
            cseq_line = Some(s.pick(&["REGISTER", "x REGISTER", "6", "-6 REGISTER", "6 INVITE", "99999999999 REGISTER", ""]).to_string());
            "CSeq line".into()
        }
        18 => {
            extra.push(("Path".into(), s.pick(&["<", "<sip:p", "x", "<>", "<sip:p@q>, y"]).to_string()));
            "Path".into()
        }
        _ => {
            cs[i] = format!("<sip:{}@h>", "u".repeat(s.urange(520, 600)));
            "contact too long".into()
        }
    };
    let mut h = fields(s, &r, &to, &cs);
    if let Some(d) = drop {
        h.retain(|(k, _)| k != d);
    }
    for (k, v) in h.iter_mut() {
        if k == "To" {
            if let Some(t) = &raw_to {
                *v = t.clone();
            }
        }
        if k == "CSeq" {
            *v = cseq_line.clone().unwrap_or_else(|| v.replace("REGISTER", method));
        }
        if k == "m" {
            *k = "Contact".into();
        }
    }
    h.extend(extra);
    let q = g::req(method, "sip:example.com", &h.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>(), b"");
    ctx.desc(|| format!("{what}: {h:?}"));
    ctx.label(what.split(' ').take(2).collect::<Vec<_>>().join(" "));
    let asy = s.coin();
    match call(&reg, &q, asy) {
        Ok(x) => {
            ensure!((400..500).contains(&x.code()), "malformed:accepted", "{what} answered {} {}: {h:?}", x.code(), x.reason());
            if drop.is_none() && cseq_line.is_none() && raw_to.is_none() && method == "REGISTER" && r.cseq <= 0x7fff_ffff {
                correlated(&q, &x)?;
            }
        }
        Err(e) => return fail("malformed:no-response", format!("{what}: {e}: {h:?}")),
    }
    ctx.nontrivial(format!("{h:?}"));
    same_store(&store, &mut a, &[what])
}

/// Arbitrary Contact, To, Expires and Path text: refused without effect, or the bindings listed
/// and stored are usable.
fn arbitrary(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let c = Cfg { min: 60, max: 86400, default: 3600, lo: 60, hi: 86400, service_route: None, advertise: false };
    let store = MemoryLocationStore::new();
    let reg: Plain<MemoryLocationStore> = build(&c, BasicRegistrar::new(store.clone(), None));
    let base = ["<sip:a@h;lr>;expires=60;q=0.5", "\"x\" <sip:a@h>;+sip.instance=\"<u>\"", "*", "sip:a@h;expires=70, <sip:b@h>", "A <sip:a@h>"];
    let junk = |s: &mut Src, b: &str| -> String {
        let v = match s.below(3) {
            0 => nasty(s, 0, 30),
            1 => String::from_utf8_lossy(&mutate(s, b.as_bytes(), 3)).into_owned(),
            _ => b.to_string(),
        };
        v.chars().filter(|c| !matches!(c, '\r' | '\n' | '\0')).collect()
    };
    let mut h: Vec<(&str, String)> = vec![("Via", g::via(s)), ("From", "<sip:a@b>;tag=1".into()), ("Call-ID", "x".into()), ("CSeq", "1 REGISTER".into())];
    h.push(("To", if s.chance(1, 3) { junk(s, "\"A\" <sip:alice@example.com>;tag=x") } else { "<sip:alice@example.com>".into() }));
    for _ in 0..s.urange(1, 3) {
        let b = *s.pick(&base);
        h.push(("Contact", junk(s, b)));
    }
    if s.chance(1, 3) {
        h.push(("Expires", junk(s, "60")));
    }
    if s.chance(1, 5) {
        h.push(("Path", junk(s, "<sip:p@q;lr>, <sip:r>")));
    }
    let q = g::req("REGISTER", "sip:example.com", &h, b"");
    ctx.desc(|| format!("{h:?}"));
    ctx.nontrivial(format!("{h:?}"));
    let resp = match call(&reg, &q, s.coin()) {
        Ok(x) => x,
        Err(e) => return fail("arbitrary:no-response", format!("{e}: {h:?}")),
    };
    ctx.label(if resp.code() == 200 { "accepted" } else { "refused" });
    let all: Vec<Binding> = store.lookup("sip:alice@example.com").unwrap();
    if resp.code() != 200 {
        ensure!((400..600).contains(&resp.code()), "arbitrary:code", "{}: {h:?}", resp.code());
        ensure!(all.is_empty(), "arbitrary:side-effect", "{} but {all:?}: {h:?}", resp.code());
        return Ok(());
    }
    for b in &all {
        ensure!(matches!(Uri::parse(b.contact()), Ok(Uri::Sip(_))), "arbitrary:contact", "{:?} stored from {h:?}", b.contact());
        ensure!((60..=86400).contains(&b.expires().as_secs()), "arbitrary:expires", "{b:?} from {h:?}");
        ensure!((0.0..=1.0).contains(&b.q_value()), "arbitrary:q", "{b:?} from {h:?}");
    }
    for v in resp.headers().get_all("Contact") {
        let Some((u, ..)) = resp_contact(v) else { return fail("arbitrary:response", format!("{v:?}: {h:?}")) };
        ensure!(matches!(Uri::parse(&u), Ok(Uri::Sip(_))), "arbitrary:response", "{v:?}: {h:?}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "a case is non-trivial if its history holds an accepted and a refused REGISTER (history), a failing store write (fault), or is a distinct operation sequence (store)",
            assumptions: &[
                "contact URIs are identified by their spelling; generated contacts are pairwise different under RFC 3261 comparison as well",
                "REGISTER without Contact is refused (400) and expiries above the maximum are refused rather than shortened, as the library documents and its tests pin",
            ],
            units: vec![
                unit!("history", 40000, 2000000, history),
                unit!("fault", 20000, 600000, fault),
                unit!("store", 20000, 600000, store_history),
                unit!("capacity", 8, 60, store_capacity),
            ],
        },
        Prop {
            id: "C15",
            rule: "a case is non-trivial if its history holds an authorized and several refused REGISTERs (auth), or is a distinct malformed or arbitrary request",
            assumptions: &["the digest realm is not tied to the AOR's domain (SECURITY_AUDIT.md #10)", "user names match case-insensitively (documented)"],
            units: vec![unit!("auth", 30000, 1500000, auth), unit!("malformed", 60000, 2000000, malformed), unit!("arbitrary", 60000, 2000000, arbitrary)],
        },
    ]
}
