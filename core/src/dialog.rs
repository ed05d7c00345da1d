//! C16 dialog creation, C17 in-dialog sequencing, C18 managers.
use crate::g;
use sip_core::{Request, Response, SipUri};
use sip_dialog::*;
use std::collections::BTreeMap;
use std::time::Duration;
use vlib::gen::*;
use vlib::*;

type R = Result<(), Fail>;

/// A display name that holds what a careless reader takes for structure.
fn display(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 2, 2]) {
        0 => String::new(),
        1 => format!("{} ", token(s, 1, 6)),
        2 => format!("{} ", quote(&text(s, 0, 8))),
        _ => format!("{} ", s.pick(&["\"a;tag=zz\"", "\"<sip:mallory@evil.com>\"", "\"x, <sip:m@e>\"", "\"q\\\" <sip:m@e>;tag=no\"", "\"é;a€b\"", "\"\\\\\""])),
    }
}
fn simple_uri(s: &mut Src) -> String {
    let mut u = format!("{}:{}{}", s.pick(&["sip", "sip", "sip", "sips"]), if s.chance(4, 5) { format!("{}@", lower(s, 1, 5)) } else { String::new() }, hostname(s));
    if s.chance(1, 4) {
        u += &format!(":{}", port(s));
    }
    u
}
/// URI for use within brackets.
fn bracket_uri(s: &mut Src) -> String {
    let mut u = simple_uri(s);
    if s.chance(1, 4) {
        u += *s.pick(&[";transport=tcp", ";lr", ";tag=inuri", ";x=%3B", ";ob;transport=ws"]);
    }
    u
}
/// A Record-Route stack; a proxy may occur in it more than once.
fn uri_stack(s: &mut Src, max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..s.urange(0, max) {
        let u = if !v.is_empty() && s.chance(1, 4) { v[s.idx(v.len())].clone() } else { bracket_uri(s) };
        v.push(u);
    }
    v
}
fn hparams(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.weighted(&[4, 2, 1]) {
        o += *s.pick(&[";x", ";expires=60", ";q=\"a;tag=zz\"", ";tagx=1", ";x-tag=2", " ; y = z ", ";+g=\"<a,b>\"", ";é€=1"]);
    }
    o
}
/// From/To value with an optional tag.
fn addr(s: &mut Src, uri: &str, tag: Option<&str>) -> String {
    let bare = !uri.contains(';') && s.chance(1, 5);
    let mut v = if bare { uri.to_string() } else { format!("{}<{uri}>", display(s)) };
    v += &hparams(s);
    if let Some(t) = tag {
        v += *s.pick(&[";", ";", " ;", "; ", " ; "]);
        v += &recase(s, "tag");
        v += *s.pick(&["=", "=", "=", " = "]);
        v += t;
        v += &hparams(s);
    }
    v
}
fn contact(s: &mut Src, uri: &str) -> String {
    let mut v = if !uri.contains(';') && !uri.contains('?') && s.chance(1, 5) { uri.to_string() } else { format!("{}<{uri}>", display(s)) };
    v += &hparams(s);
    v
}
/// Record-Route fields for the URIs, in order.
fn record_routes(s: &mut Src, uris: &[String]) -> Vec<(&'static str, String)> {
    let mut h = vec![];
    let mut i = 0;
    while i < uris.len() {
        let n = s.urange(1, uris.len() - i);
        let vs: Vec<String> = uris[i..i + n].iter().map(|u| format!("{}<{u}>{}", display(s), hparams(s))).collect();
        h.push((*s.pick(&["Record-Route", "record-route", "Record-ROUTE"]), vs.join(*s.pick(&[",", ", ", " , "]))));
        i += n;
    }
    h
}
fn call_id(s: &mut Src) -> String {
    if s.coin() { token(s, 1, 10) } else { format!("{}@{}", token(s, 1, 8), hostname(s)) }
}
fn parse(u: &str) -> SipUri {
    SipUri::parse(u).unwrap_or_else(|e| panic!("harness uri {u:?}: {e}"))
}
fn su(v: &[String]) -> Vec<SipUri> {
    v.iter().map(|u| parse(u)).collect()
}
/// Half of the messages go over the wire.
fn wire_req(s: &mut Src, r: Request) -> Request {
    if s.coin() {
        return r;
    }
    let w = sip_parse::serialize_request(&r);
    sip_parse::parse_request(&w).unwrap_or_else(|| panic!("harness request {:?}", String::from_utf8_lossy(&w)))
}
fn wire_resp(s: &mut Src, r: Response) -> Response {
    if s.coin() {
        return r;
    }
    let w = sip_parse::serialize_response(&r);
    sip_parse::parse_response(&w).unwrap_or_else(|| panic!("harness response {:?}", String::from_utf8_lossy(&w)))
}
fn session_expires(s: &mut Src) -> (String, u64, Option<&'static str>) {
    let n = *s.pick(&[90u64, 91, 1800, 86399, 86400]);
    let r = *s.pick(&[None, Some("uac"), Some("uas")]);
    let mut v = n.to_string();
    if let Some(r) = r {
        let r = recase(s, r);
        v += &format!("{}refresher={r}", s.pick(&[";", " ; "]));
    }
    (v, n, r)
}
fn role(r: Option<sip_core::RefresherRole>) -> Option<&'static str> {
    r.map(|r| match r {
        sip_core::RefresherRole::Uac => "uac",
        sip_core::RefresherRole::Uas => "uas",
    })
}

// ------------------------------------------------------------------ C16
fn create(s: &mut Src, ctx: &mut Ctx) -> R {
    let method = *s.pick(&["INVITE", "INVITE", "INVITE", "SUBSCRIBE", "REFER"]);
    let cid = call_id(s);
    let ftag = token(s, 1, 8);
    let from = bracket_uri(s);
    // calls to oneself happen
    let to = if s.chance(1, 8) { from.clone() } else { bracket_uri(s) };
    let cseq = *s.pick(&[1u32, 2, 314159, 0x7fff_ffff]);
    let ct_a = s.opt(9, 10, bracket_uri);
    let rr: Vec<String> = uri_stack(s, 4);
    let fv = addr(s, &from, Some(&ftag));
    let mut h: Vec<(&str, String)> = vec![("Via", g::via(s)), ("Max-Forwards", "70".into()), ("From", fv.clone()), ("To", addr(s, &to, None)), ("Call-ID", cid.clone()), ("CSeq", format!("{cseq} {method}"))];
    if let Some(c) = &ct_a {
        h.push(("Contact", contact(s, c)));
    }
    let rrh = record_routes(s, &rr);
    h.extend(rrh.iter().map(|(k, v)| (*k, v.clone())));
    let rq = g::req(method, &to, &h, b"");
    let rq_caller = wire_req(s, rq.clone());
    let rq_callee = wire_req(s, rq.clone());
    let (lu, ru) = (parse(&from), parse(&to));
    let nforks = s.weighted(&[6, 2, 1]) + 1;
    let mut seen: Vec<(String, Dialog, Dialog)> = vec![];
    let mut made = 0;
    for fork in 0..nforks {
        let mut ttag = Some(format!("{}{fork}", token(s, 1, 6)));
        let mut code = *s.pick(&[180u16, 183, 101, 199, 200, 200, 202, 299, 100, 300, 302, 404, 486, 503, 603, 699]);
        // a defect that forbids a dialog
        let defect = if s.chance(1, 5) { s.range(1, 4) } else { 0 };
        if defect == 1 {
            ttag = None;
        }
        let ct_b = s.opt(9, 10, bracket_uri);
        let se = s.opt(1, 4, session_expires);
        let tv = addr(s, &to, ttag.as_deref());
        let tv = if defect == 2 { format!("{}<{to}>{}", display(s), s.pick(&[";tag=", ";tag", "; tag = "])) } else { tv };
        let fv2 = if defect == 3 { addr(s, &from, None) } else { fv.clone() };
        let mut h: Vec<(&str, String)> = vec![("Via", g::via(s)), ("From", fv2), ("To", tv), ("CSeq", format!("{cseq} {method}"))];
        if defect != 4 {
            h.push(("Call-ID", cid.clone()));
        }
        if let Some(c) = &ct_b {
            h.push(("Contact", contact(s, c)));
        }
        h.extend(record_routes(s, &rr));
        if let Some((v, ..)) = &se {
            h.push(("Session-Expires", v.clone()));
        }
        if defect == 0 && s.chance(1, 2) {
            code = *s.pick(&[180u16, 200]);
        }
        let rp = g::resp(code, &h, b"");
        let (ra, rb) = if defect == 4 { (rp.clone(), rp) } else { (wire_resp(s, rp.clone()), wire_resp(s, rp)) };
        let uac = no_panic("Dialog::new_uac", || Dialog::new_uac(&rq_caller, &ra, lu.clone(), ru.clone()))?;
        let uas = no_panic("Dialog::new_uas", || Dialog::new_uas(&rq_callee, &rb, ru.clone(), lu.clone()))?;
        let d = || format!("{code} {:?} to {:?}", rb.headers(), rq.headers());
        ctx.desc(d);
        ctx.label(if defect > 0 { "defect".to_string() } else { format!("{}xx", code / 100) });
        let expect = defect == 0 && (101..=299).contains(&code);
        ensure_eq!(uac.is_some(), expect, "create:uac", "caller dialog; {}", d());
        ensure_eq!(uas.is_some(), expect, "create:uas", "callee dialog; {}", d());
        let (Some(uac), Some(uas)) = (uac, uas) else { continue };
        made += 1;
        let tt = ttag.clone().unwrap();
        ensure_eq!((uac.id().call_id(), uac.id().local_tag(), uac.id().remote_tag()), (cid.as_str(), ftag.as_str(), tt.as_str()), "create:id", "caller; {}", d());
        ensure_eq!((uas.id().call_id(), uas.id().local_tag(), uas.id().remote_tag()), (cid.as_str(), tt.as_str(), ftag.as_str()), "create:id", "callee; {}", d());
        let st = if code < 200 { DialogStateType::Early } else { DialogStateType::Confirmed };
        ensure_eq!((uac.state(), uas.state()), (st, st), "create:state", "{}", d());
        let tb = ct_b.as_deref().map_or(ru.clone(), parse);
        let ta = ct_a.as_deref().map_or(lu.clone(), parse);
        ensure_eq!(uac.remote_target(), &tb, "create:target", "caller; {}", d());
        ensure_eq!(uas.remote_target(), &ta, "create:target", "callee; {}", d());
        let mut rev = rr.clone();
        rev.reverse();
        ensure_eq!(uac.route_set(), &su(&rev)[..], "create:route", "caller; {}", d());
        ensure_eq!(uas.route_set(), &su(&rr)[..], "create:route", "callee; {}", d());
        ensure_eq!((uac.local_uri(), uac.remote_uri(), uas.local_uri(), uas.remote_uri()), (&lu, &ru, &ru, &lu), "create:uris", "{}", d());
        ensure_eq!((uac.local_cseq(), uac.remote_cseq(), uas.local_cseq(), uas.remote_cseq()), (cseq, 0, 0, cseq), "create:cseq", "{}", d());
        ensure_eq!((uac.secure(), uac.is_uac(), uas.is_uac()), (uas.secure(), true, false), "create:roles", "{}", d());
        ensure_eq!(uac.secure(), lu.is_sips() || ru.is_sips(), "create:secure", "{}", d());
        let want = se.as_ref().map(|x| (Some(Duration::from_secs(x.1)), x.2)).unwrap_or((None, None));
        ensure_eq!((uac.session_expires(), role(uac.refresher())), want, "create:session", "caller; {}", d());
        ensure_eq!((uas.session_expires(), role(uas.refresher())), want, "create:session", "callee; {}", d());
        seen.push((tt, uac, uas));
    }
    // in-dialog requests of either side find the other side's dialog, and no other
    let (ma, mb) = (DialogManager::new(), DialogManager::new());
    for (_, a, b) in &seen {
        ensure!(ma.insert(a.clone()).is_ok() && mb.insert(b.clone()).is_ok(), "create:insert", "insert of {:?} failed", a.id());
    }
    ensure_eq!((ma.count(), mb.count()), (seen.len(), seen.len()), "create:forks", "distinct forks merged");
    for (i, (tt, a, b)) in seen.iter().enumerate() {
        let req = |s: &mut Src, f: &str, ft: &str, t: &str, tt: Option<&str>, cid: &str| {
            let h = [("Via", g::via(s)), ("From", addr(s, f, Some(ft))), ("To", addr(s, t, tt)), ("Call-ID", cid.to_string()), ("CSeq", "9 INFO".to_string())];
            let r = g::req("INFO", t, &h, b"");
            wire_req(s, r)
        };
        let from_a = req(s, &from, &ftag, &to, Some(tt), &cid);
        let from_b = req(s, &to, tt, &from, Some(&ftag), &cid);
        ensure_eq!(mb.find_by_request(&from_a).map(|d| d.id().clone()), Some(b.id().clone()), "match:callee", "{:?}", from_a.headers());
        ensure_eq!(ma.find_by_request(&from_b).map(|d| d.id().clone()), Some(a.id().clone()), "match:caller", "{:?}", from_b.headers());
        for (j, (_, x, y)) in seen.iter().enumerate() {
            ensure_eq!((y.matches_request(&from_a), x.matches_request(&from_b)), (i == j, i == j), "match:request", "{:?}", from_a.headers());
        }
        // near misses
        let other = if s.coin() { tt.to_ascii_uppercase() + "x" } else { ftag.clone() + "Q" };
        let miss = match s.below(4) {
            0 => req(s, &from, &other, &to, Some(tt), &cid),
            1 => req(s, &from, &ftag, &to, Some(&other), &cid),
            2 => req(s, &from, &ftag, &to, Some(tt), &format!("{cid}x")),
            _ => req(s, &from, &ftag, &to, None, &cid),
        };
        ensure!(!b.matches_request(&miss) && mb.find_by_request(&miss).is_none(), "match:stranger", "{:?} matched", miss.headers());
        if tt != &ftag {
            // own direction
            ensure!(!a.matches_request(&from_a) && ma.find_by_request(&from_a).is_none(), "match:direction", "{:?} matched", from_a.headers());
        }
    }
    if made > 0 {
        ctx.nontrivial(format!("{:?}{:?}", rq.headers(), seen.iter().map(|x| &x.0).collect::<Vec<_>>()));
    }
    Ok(())
}
/// Tag extraction from arbitrary text never panics and never yields an empty tag.
fn tags(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = match s.below(3) {
        0 => nasty(s, 0, 30),
        1 => String::from_utf8_lossy(&mutate(s, b"\"A;tag=q\" <sip:a@b;tag=u>;x=\"y;tag=z\";tag=right", 4)).into_owned(),
        _ => {
            let t = token(s, 1, 6);
            let u = bracket_uri(s);
            let v = addr(s, &u, Some(&t));
            ensure_eq!(extract_tag(&v.as_str().into()).as_deref(), Some(t.as_str()), "tag", "{v:?}");
            v
        }
    };
    ctx.desc(|| v.clone());
    ctx.nontrivial(v.clone());
    let t = no_panic("extract_tag", || extract_tag(&v.as_str().into()))?;
    ensure!(t.as_deref() != Some(""), "tag:empty", "{v:?}");
    let h = [("From", v.clone()), ("To", v.clone()), ("Contact", v.clone()), ("Record-Route", v.clone()), ("Call-ID", "c".into()), ("CSeq", "1 INVITE".into()), ("Session-Expires", v.clone()), ("Event", v.clone())];
    if h.iter().any(|(_, v)| v.contains(['\r', '\n', '\0'])) {
        return Ok(());
    }
    let (q, p) = (g::req("INVITE", "sip:a@b", &h, b""), g::resp(200, &h, b""));
    let u = parse("sip:a@b");
    no_panic("dialog creation", || {
        (Dialog::new_uac(&q, &p, u.clone(), u.clone()), Dialog::new_uas(&q, &p, u.clone(), u.clone()), Subscription::new_notifier(&q, &p, u.clone(), u.clone()).is_some(), SubscriptionId::from_request(&q), SubscriptionId::new("c", "a", "b", &v).is_ok())
    })?;
    Ok(())
}

// ------------------------------------------------------------------ C17
#[derive(Debug, Clone, PartialEq)]
struct M {
    state: DialogStateType,
    target: SipUri,
    route: Vec<SipUri>,
    local: u32,
    remote: u32,
    invite: Option<u32>,
    se: Option<Duration>,
    refresher: Option<&'static str>,
}
fn snap(d: &Dialog, m: &M) -> M {
    M { state: d.state(), target: d.remote_target().clone(), route: d.route_set().to_vec(), local: d.local_cseq(), remote: d.remote_cseq(), invite: m.invite, se: d.session_expires(), refresher: role(d.refresher()) }
}
const REFRESH: [&str; 5] = ["INVITE", "UPDATE", "SUBSCRIBE", "NOTIFY", "REFER"];

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let uac = s.coin();
    let c0 = *s.pick(&[1u32, 2, 100, 0x7fff_fff0]);
    let rr: Vec<String> = uri_stack(s, 3);
    let (from, to) = ("sip:alice@a.example", "sip:bob@b.example");
    let (cta, ctb) = (bracket_uri(s), bracket_uri(s));
    let code = *s.pick(&[180u16, 183, 200]);
    let mut h = vec![("From", format!("<{from}>;tag=f")), ("To", format!("<{to}>")), ("Call-ID", "c".to_string()), ("CSeq", format!("{c0} INVITE")), ("Contact", contact(s, &cta))];
    h.extend(record_routes(s, &rr));
    let rq = g::req("INVITE", to, &h, b"");
    let mut h = vec![("From", format!("<{from}>;tag=f")), ("To", format!("<{to}>;tag=t")), ("Call-ID", "c".to_string()), ("CSeq", format!("{c0} INVITE")), ("Contact", contact(s, &ctb))];
    h.extend(record_routes(s, &rr));
    let rp = g::resp(code, &h, b"");
    let (lu, ru) = if uac { (parse(from), parse(to)) } else { (parse(to), parse(from)) };
    let d = if uac { Dialog::new_uac(&rq, &rp, lu, ru) } else { Dialog::new_uas(&rq, &rp, lu, ru) };
    let Some(mut d) = d else { return fail("history:setup", "no dialog") };
    let mut route = su(&rr);
    if uac {
        route.reverse();
    }
    let mut m = M {
        state: if code < 200 { DialogStateType::Early } else { DialogStateType::Confirmed },
        target: parse(if uac { &ctb } else { &cta }),
        route,
        local: if uac { c0 } else { 0 },
        remote: if uac { 0 } else { c0 },
        invite: if uac { None } else { Some(c0) },
        se: None,
        refresher: None,
    };
    let mut log = vec![format!("{} {code} cseq {c0}", if uac { "caller" } else { "callee" })];
    ensure_eq!(snap(&d, &m), m.clone(), "history:setup", "{log:?}");
    let (lt, rt) = if uac { ("f", "t") } else { ("t", "f") };
    let (la, ra) = if uac { (from, to) } else { (to, from) };
    let (mut ok, mut no) = (0, 0);
    for _ in 0..s.urange(1, 16) {
        match s.weighted(&[4, 12, 8, 1, 1]) {
            0 => {
                let n = d.next_local_cseq();
                log.push(format!("send {n}"));
                ensure!(n > m.local, "local-cseq", "{n} after {}; {log:?}", m.local);
                ensure_eq!(n, m.local + 1, "local-cseq", "{log:?}");
                m.local = n;
            }
            1 => {
                let method = *s.pick(&["INVITE", "UPDATE", "BYE", "INFO", "PRACK", "REFER", "NOTIFY", "SUBSCRIBE", "MESSAGE", "OPTIONS", "ACK", "ACK", "ACK"]);
                let r = m.remote;
                let n = match s.weighted(&[8, 2, 2, 2, 1, 2, 1]) {
                    0 => r.saturating_add(1),
                    1 => r,
                    2 => r.saturating_sub(s.range(1, 3) as u32),
                    3 => r.saturating_add(s.range(2, 1000) as u32),
                    4 => *s.pick(&[0, 0x8000_0000, u32::MAX, r.saturating_add(1001)]),
                    5 => m.invite.unwrap_or(r),
                    _ => 1,
                };
                let n = if method == "ACK" && s.chance(2, 3) { m.invite.unwrap_or(n) } else { n };
                let ct = s.opt(1, 2, bracket_uri);
                let mut h = vec![("From", addr(s, ra, Some(rt))), ("To", addr(s, la, Some(lt))), ("Call-ID", "c".to_string()), ("CSeq", format!("{n} {method}"))];
                if let Some(c) = &ct {
                    h.push(("Contact", contact(s, c)));
                }
                if s.chance(1, 4) {
                    let x = [bracket_uri(s)];
                    h.extend(record_routes(s, &x));
                }
                let q = g::req(method, la, &h, b"");
                let got = no_panic("update_from_request", || d.update_from_request(&q))?;
                log.push(format!("recv {method} {n}{} -> {}", ct.as_ref().map(|c| format!(" contact {c}")).unwrap_or_default(), if got.is_ok() { "ok" } else { "refused" }));
                let valid = if method == "ACK" { n > 0 && m.invite == Some(n) } else { n > 0 && n < 0x8000_0000 && n > m.remote };
                // gaps above 1000 may be refused
                let must = valid && (method == "ACK" || m.remote == 0 || n - m.remote <= 1000);
                if must {
                    ensure!(got.is_ok(), "request:refused", "{got:?}; {log:?}");
                }
                if got.is_ok() {
                    ensure!(valid, "request:accepted", "last accepted CSeq {}; {log:?}", m.remote);
                    ok += 1;
                    if method != "ACK" {
                        m.remote = n;
                    }
                    if method == "INVITE" {
                        m.invite = Some(n);
                    }
                    if let (Some(c), true) = (&ct, REFRESH.contains(&method)) {
                        m.target = parse(c);
                    }
                } else {
                    no += 1;
                }
            }
            2 => {
                // a response to a request this side sent
                if m.state == DialogStateType::Early && !uac {
                    continue;
                }
                let method = *s.pick(&["INVITE", "INVITE", "UPDATE", "BYE", "INFO", "PRACK", "REFER", "NOTIFY", "OPTIONS"]);
                let code = *s.pick(&[180u16, 183, 200, 200, 202, 302, 404, 481, 488, 500, 603]);
                if method == "REFER" && m.state == DialogStateType::Early {
                    continue;
                }
                let ct = s.opt(1, 2, bracket_uri);
                let nrr: Vec<String> = uri_stack(s, 3);
                let mut h = vec![("From", addr(s, la, Some(lt))), ("To", addr(s, ra, Some(rt))), ("Call-ID", "c".to_string()), ("CSeq", format!("{} {method}", m.local))];
                if let Some(c) = &ct {
                    h.push(("Contact", contact(s, c)));
                }
                h.extend(record_routes(s, &nrr));
                let se = if (200..300).contains(&code) && ["INVITE", "UPDATE"].contains(&method) { s.opt(1, 3, session_expires) } else { None };
                if let Some((v, ..)) = &se {
                    h.push(("Session-Expires", v.clone()));
                }
                let p = g::resp(code, &h, b"");
                no_panic("update_from_response", || d.update_from_response(&p))?;
                log.push(format!("{code} to {method}{} rr {nrr:?} se {se:?}", ct.as_ref().map(|c| format!(" contact {c}")).unwrap_or_default()));
                let early = m.state == DialogStateType::Early;
                let ok2 = (200..300).contains(&code);
                if let Some(c) = &ct {
                    // provisional responses may refresh the target of an early dialog
                    let c = parse(c);
                    if REFRESH.contains(&method) && (ok2 || (early && (101..200).contains(&code) && d.remote_target() == &c)) {
                        m.target = c;
                    }
                }
                if ok2 && early && method == "INVITE" {
                    m.state = DialogStateType::Confirmed;
                    let mut r = su(&nrr);
                    r.reverse();
                    // with no Record-Route in the 2xx the early route set may be kept
                    if !r.is_empty() || d.route_set().is_empty() {
                        m.route = r;
                    }
                }
                if let Some((_, n, r)) = se {
                    m.se = Some(Duration::from_secs(n));
                    m.refresher = r;
                }
            }
            3 => {
                d.confirm();
                log.push("confirm".into());
                if m.state == DialogStateType::Early {
                    m.state = DialogStateType::Confirmed;
                }
            }
            _ => {
                if !s.chance(1, 3) {
                    continue;
                }
                d.terminate();
                log.push("terminate".into());
                m.state = DialogStateType::Terminated;
            }
        }
        ensure_eq!(snap(&d, &m), m.clone(), "history:state", "{log:?}");
        ensure!(d.id().call_id() == "c" && d.id().local_tag() == lt && d.id().remote_tag() == rt, "history:id", "{log:?}");
    }
    ctx.desc(|| log.join("; "));
    if ok > 0 && no > 0 {
        ctx.nontrivial(log.join(";"));
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
fn dlg(id: &DialogId, state: DialogStateType, mark: u32) -> Dialog {
    let u = parse("sip:a@b");
    Dialog::unchecked_new(id.clone(), state, u.clone(), u.clone(), u, mark, 1, None, vec![], false, None, None, true)
}
fn key(d: &DialogId) -> (String, String, String) {
    (d.call_id().into(), d.local_tag().into(), d.remote_tag().into())
}
fn state(s: &mut Src) -> DialogStateType {
    *s.pick(&[DialogStateType::Early, DialogStateType::Confirmed, DialogStateType::Terminated])
}
/// Identifiers sharing Call-IDs and tags, also swapped and differing in case.
fn ids(s: &mut Src) -> Vec<DialogId> {
    let c = ["c1", "c2", "C1"];
    let t = ["a", "b", "A", "ab"];
    (0..s.urange(2, 10)).map(|_| DialogId::new(*s.pick(&c), *s.pick(&t), *s.pick(&t)).expect("harness id")).collect()
}
fn in_dialog(s: &mut Src, id: &DialogId) -> Request {
    // from the peer: From carries the remote tag
    let h = [("From", addr(s, "sip:p@q", Some(id.remote_tag()))), ("To", addr(s, "sip:l@m", Some(id.local_tag()))), ("Call-ID", id.call_id().to_string()), ("CSeq", "7 BYE".to_string())];
    g::req("BYE", "sip:l@m", &h, b"")
}
fn manager(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = DialogManager::new();
    let pool = ids(s);
    let mut model: BTreeMap<(String, String, String), (DialogStateType, u32)> = BTreeMap::new();
    let mut log = vec![];
    for step in 0..s.urange(1, 30) as u32 {
        let id = s.pick(&pool[..]).clone();
        let k = key(&id);
        match s.weighted(&[8, 4, 1, 2]) {
            0 => {
                let st = state(s);
                log.push(format!("insert {k:?} {st:?}"));
                ensure!(m.insert(dlg(&id, st, step)).is_ok(), "manager:insert", "{log:?}");
                model.insert(k, (st, step));
            }
            1 => {
                log.push(format!("remove {k:?}"));
                let g = m.remove(&id).map(|d| (d.state(), d.local_cseq()));
                ensure_eq!(g, model.remove(&k), "manager:remove", "{log:?}");
            }
            2 => {
                log.push("cleanup".into());
                m.cleanup_terminated();
                model.retain(|_, v| v.0 != DialogStateType::Terminated);
            }
            _ => {}
        }
        ensure_eq!(m.count(), model.len(), "manager:count", "{log:?}");
        let mut all: Vec<_> = m.all_ids().iter().map(key).collect();
        all.sort();
        ensure_eq!(all, model.keys().cloned().collect::<Vec<_>>(), "manager:all", "{log:?}");
        for id in &pool {
            let want = model.get(&key(id)).copied();
            let got = m.get(id);
            ensure!(got.as_ref().is_none_or(|d| d.id() == id), "manager:get", "other dialog for {id:?}; {log:?}");
            ensure_eq!(got.map(|d| (d.state(), d.local_cseq())), want, "manager:get", "{id:?}; {log:?}");
        }
        let q = in_dialog(s, &id);
        let got = m.find_by_request(&q);
        ensure_eq!(got.map(|d| (key(d.id()), d.local_cseq())), model.get(&key(&id)).map(|v| (key(&id), v.1)), "manager:find", "{:?}; {log:?}", q.headers());
        for o in &pool {
            let d = dlg(o, DialogStateType::Confirmed, 1);
            ensure_eq!(d.matches_request(&q), o == &id, "manager:matches", "{:?} against {:?}", q.headers(), key(o));
            if let Some(d) = m.get(o) {
                ensure_eq!(d.matches_request(&q), o == &id, "manager:matches", "{:?} against {:?}", q.headers(), key(o));
            }
        }
        let c = *s.pick(&["c1", "c2", "C1", "c"]);
        let got = m.find_by_call_id(c).map(|d| key(d.id()));
        let any = model.keys().any(|k| k.0 == c);
        ensure!(got.is_some() == any && got.as_ref().is_none_or(|k| k.0 == c && model.contains_key(k)), "manager:call-id", "{c}: {got:?}; {log:?}");
    }
    ctx.desc(|| log.join("; "));
    ctx.nontrivial(log.join(";"));
    Ok(())
}
fn store(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = InMemoryDialogStore::default();
    let pool = ids(s);
    let mut model: BTreeMap<(String, String, String), u32> = BTreeMap::new();
    let mut log = vec![];
    for step in 0..s.urange(1, 24) as u32 {
        let id = s.pick(&pool[..]).clone();
        let k = key(&id);
        if s.chance(2, 3) {
            log.push(format!("put {k:?}"));
            let st = state(s);
            g::block_on(m.put(dlg(&id, st, step)));
            model.insert(k, step);
        } else {
            log.push(format!("remove {k:?}"));
            g::block_on(m.remove(&id));
            model.remove(&k);
        }
        ensure_eq!((g::block_on(m.len()), m.count(), g::block_on(m.is_empty())), (model.len(), model.len(), model.is_empty()), "store:count", "{log:?}");
        for id in &pool {
            ensure_eq!(g::block_on(m.get(id)).map(|d| (key(d.id()), d.local_cseq())), model.get(&key(id)).map(|v| (key(id), *v)), "store:get", "{log:?}");
        }
        for c in ["c1", "c2", "C1"] {
            let mut got: Vec<_> = g::block_on(m.list_by_call_id(&c.into())).iter().map(|d| (key(d.id()), d.local_cseq())).collect();
            got.sort();
            let want: Vec<_> = model.iter().filter(|(k, _)| k.0 == c).map(|(k, v)| (k.clone(), *v)).collect();
            ensure_eq!(got, want, "store:list", "{c}; {log:?}");
        }
    }
    ctx.desc(|| log.join("; "));
    ctx.nontrivial(log.join(";"));
    Ok(())
}
fn sub_state(s: &mut Src) -> SubscriptionState {
    *s.pick(&[SubscriptionState::Active, SubscriptionState::Pending, SubscriptionState::Terminated])
}
fn subscriptions(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = SubscriptionManager::new();
    type K = (String, String, String, String);
    let pool: Vec<SubscriptionId> = (0..s.urange(2, 8))
        .map(|_| SubscriptionId::new(*s.pick(&["c1", "c2"]), *s.pick(&["a", "b"]), *s.pick(&["a", "b"]), *s.pick(&["presence", "dialog", "presence;id=1", "presence.winfo"])).expect("harness id"))
        .collect();
    let k = |i: &SubscriptionId| -> K { (i.call_id().into(), i.from_tag().into(), i.to_tag().into(), i.event().into()) };
    let mut model: BTreeMap<K, (SubscriptionState, Duration, u32)> = BTreeMap::new();
    let u = parse("sip:a@b");
    let mut log = vec![];
    for step in 0..s.urange(1, 24) as u64 {
        let id = s.pick(&pool[..]).clone();
        match s.weighted(&[6, 3, 3, 1]) {
            0 => {
                let st = sub_state(s);
                let x = Subscription::unchecked_new(id.clone(), st, u.clone(), u.clone(), u.clone(), Duration::from_secs(step), step as u32, 1);
                log.push(format!("insert {:?} {st:?}", k(&id)));
                ensure!(m.insert(x).is_ok(), "sub:insert", "{log:?}");
                model.insert(k(&id), (st, Duration::from_secs(step), step as u32));
            }
            1 => {
                log.push(format!("remove {:?}", k(&id)));
                ensure_eq!(m.remove(&id).map(|x| (x.state(), x.expires(), x.local_cseq())), model.remove(&k(&id)), "sub:remove", "{log:?}");
            }
            2 => {
                // take out, change, put back
                if let Some(mut x) = m.get(&id) {
                    let st = sub_state(s);
                    x.update_state(st);
                    let n = x.next_local_cseq();
                    x.update_expires(Duration::from_secs(1000 + step));
                    let e = model.get_mut(&k(&id)).unwrap();
                    ensure!(n > e.2, "sub:cseq", "{n} after {}; {log:?}", e.2);
                    *e = (st, Duration::from_secs(1000 + step), n);
                    log.push(format!("update {:?} {st:?}", k(&id)));
                    ensure!(m.insert(x).is_ok(), "sub:insert", "{log:?}");
                }
            }
            _ => {
                let n = m.cleanup_terminated();
                let before = model.len();
                model.retain(|_, v| v.0 != SubscriptionState::Terminated);
                log.push(format!("cleanup {n}"));
                ensure_eq!(n, before - model.len(), "sub:cleanup", "{log:?}");
            }
        }
        for id in &pool {
            let got = m.get(id).map(|x| (k(x.id()), x.state(), x.expires(), x.local_cseq()));
            ensure_eq!(got, model.get(&k(id)).map(|v| (k(id), v.0, v.1, v.2)), "sub:get", "{log:?}");
        }
        let mut all: Vec<K> = m.all().iter().map(|x| k(x.id())).collect();
        all.sort();
        ensure_eq!(all, model.keys().cloned().collect::<Vec<_>>(), "sub:all", "{log:?}");
        for e in ["presence", "dialog", "presence;id=1", "presence.winfo"] {
            let mut got: Vec<K> = m.by_event(e).iter().map(|x| k(x.id())).collect();
            got.sort();
            ensure_eq!(got, model.keys().filter(|k| k.3 == e).cloned().collect::<Vec<_>>(), "sub:event", "{e}; {log:?}");
        }
    }
    ctx.desc(|| log.join("; "));
    ctx.nontrivial(log.join(";"));
    Ok(())
}
/// Subscriptions made from a SUBSCRIBE and its response.
fn subscribe(s: &mut Src, ctx: &mut Ctx) -> R {
    let (cid, ft, tt) = (call_id(s), token(s, 1, 6), token(s, 1, 6));
    let (ca, cb) = (bracket_uri(s), bracket_uri(s));
    let ev = *s.pick(&["presence", "dialog;id=7", "message-summary", "reg"]);
    let cseq = *s.pick(&[1u32, 2, 77, 0x7fff_fff0]);
    let (eq, ep) = (s.opt(2, 3, |s| *s.pick(&[60u64, 3600, 7200])), s.opt(1, 2, |s| *s.pick(&[60u64, 1800, 0])));
    let mut h = vec![("Via", g::via(s)), ("From", addr(s, "sip:w@x", Some(&ft))), ("To", addr(s, "sip:p@q", None)), ("Call-ID", cid.clone()), ("CSeq", format!("{cseq} SUBSCRIBE")), ("Event", ev.to_string()), ("Contact", contact(s, &ca))];
    if let Some(e) = eq {
        h.push(("Expires", e.to_string()));
    }
    let q = g::req("SUBSCRIBE", "sip:p@q", &h, b"");
    let q = wire_req(s, q);
    let mut h = vec![("Via", g::via(s)), ("From", q.headers().get("From").unwrap().to_string()), ("To", addr(s, "sip:p@q", Some(&tt))), ("Call-ID", cid.clone()), ("CSeq", format!("{cseq} SUBSCRIBE")), ("Contact", contact(s, &cb))];
    if let Some(e) = ep {
        h.push(("Expires", e.to_string()));
    }
    let p = g::resp(*s.pick(&[200, 202]), &h, b"");
    let p = wire_resp(s, p);
    let d = || format!("{:?} / {:?}", q.headers(), p.headers());
    ctx.desc(d);
    ctx.nontrivial(d());
    let (w, n) = (parse("sip:w@x"), parse("sip:p@q"));
    let (Some(a), Some(b)) = (Subscription::new_subscriber(&q, &p, w.clone(), n.clone()), Subscription::new_notifier(&q, &p, n.clone(), w.clone())) else {
        return fail("subscribe:none", d());
    };
    for x in [&a, &b] {
        ensure_eq!((x.id().call_id(), x.id().from_tag(), x.id().to_tag(), x.id().event()), (cid.as_str(), ft.as_str(), tt.as_str(), ev), "subscribe:id", "{}", d());
        ensure_eq!(x.state(), SubscriptionState::Active, "subscribe:state", "{}", d());
    }
    ensure_eq!((a.local_uri(), a.remote_uri(), b.local_uri(), b.remote_uri()), (&w, &n, &n, &w), "subscribe:uris", "{}", d());
    ensure_eq!(a.contact(), &parse(&cb), "subscribe:contact", "subscriber; {}", d());
    ensure_eq!(b.contact(), &parse(&ca), "subscribe:contact", "notifier; {}", d());
    ensure_eq!(a.expires().as_secs(), ep.unwrap_or(3600), "subscribe:expires", "subscriber; {}", d());
    ensure_eq!(b.expires().as_secs(), ep.or(eq).unwrap_or(3600), "subscribe:expires", "notifier; {}", d());
    ensure_eq!(a.local_cseq(), cseq, "subscribe:cseq", "{}", d());
    // a refreshing SUBSCRIBE inside the dialog finds the subscription again,
    // one of another dialog or for another event does not
    let m = SubscriptionManager::new();
    ensure!(m.insert(b.clone()).is_ok(), "subscribe:insert", "{}", d());
    let mut f = [ft.clone(), tt.clone(), cid.clone(), ev.to_string()];
    let miss = s.below(6) as usize;
    if miss < 4 {
        f[miss] = match s.below(3) {
            0 if f[miss] != f[miss].to_ascii_uppercase() => f[miss].to_ascii_uppercase(),
            1 if miss == 3 && ev.contains(';') => "dialog".into(),
            _ => format!("{}x", f[miss]),
        };
    }
    let h = [("Via", g::via(s)), ("From", addr(s, "sip:w@x", Some(&f[0]))), ("To", addr(s, "sip:p@q", Some(&f[1]))), ("Call-ID", f[2].clone()), ("CSeq", format!("{} SUBSCRIBE", cseq + 1)), ("Event", f[3].clone()), ("Contact", contact(s, &ca))];
    let q2 = g::req("SUBSCRIBE", "sip:p@q", &h, b"");
    let q2 = wire_req(s, q2);
    let got = SubscriptionId::from_request(&q2).and_then(|i| m.get(&i)).map(|x| x.id().clone());
    ensure_eq!(got.as_ref(), (miss >= 4).then(|| b.id()), "subscribe:refresh", "{:?} for {}", q2.headers(), d());
    for mut x in [a, b] {
        let mut last = x.local_cseq();
        for _ in 0..3 {
            let n = x.next_local_cseq();
            ensure!(n == last + 1 && x.local_cseq() == n, "subscribe:cseq", "{}", d());
            last = n;
        }
    }
    Ok(())
}
/// Capacity limits: early dialogs per Call-ID, dialogs, subscriptions.
fn capacity(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.weighted(&[20, 2, 1]);
    ctx.label(["early", "dialogs", "subscriptions"][kind]);
    match kind {
        0 => {
            let m = DialogManager::new();
            let others = s.below(60);
            let n = s.range(95, 104);
            for i in 0..others {
                let id = DialogId::new(format!("o{}", i % 3), format!("l{i}"), "r").unwrap();
                let st = state(s);
                ensure!(m.insert(dlg(&id, st, 0)).is_ok(), "capacity:other", "{i}");
            }
            let mut live: Vec<(u64, bool)> = vec![];
            for i in 0..n {
                let early = s.chance(15, 16);
                let id = DialogId::new("c", format!("l{i}"), "r").unwrap();
                let r = m.insert(dlg(&id, if early { DialogStateType::Early } else { DialogStateType::Confirmed }, 0));
                let full = early && live.iter().filter(|x| x.1).count() >= 100;
                ensure_eq!(r.is_ok(), !full, "capacity:early", "early dialog {i} with {} live", live.len());
                if r.is_ok() {
                    live.push((i, early));
                }
                if s.chance(1, 12) {
                    // confirm or remove one: makes room
                    let j = s.idx(live.len());
                    let id = DialogId::new("c", format!("l{}", live[j].0), "r").unwrap();
                    if s.coin() {
                        m.remove(&id);
                        live.remove(j);
                    } else {
                        ensure!(m.insert(dlg(&id, DialogStateType::Confirmed, 1)).is_ok(), "capacity:confirm", "");
                        live[j].1 = false;
                    }
                }
                if s.chance(1, 12) && !live.is_empty() {
                    let (j, e) = live[s.idx(live.len())];
                    let id = DialogId::new("c", format!("l{j}"), "r").unwrap();
                    let st = if e { DialogStateType::Early } else { DialogStateType::Confirmed };
                    ensure!(m.insert(dlg(&id, st, 2)).is_ok(), "capacity:update", "update of a stored dialog refused");
                }
            }
            ensure_eq!(m.count(), live.len() + others as usize, "capacity:count", "");
            ctx.nontrivial(format!("{others} {live:?}"));
        }
        1 => {
            let m = DialogManager::new();
            let id = |i: u64| DialogId::unchecked_new("c", format!("{i}"), "r");
            for i in 0..10_000 {
                ensure!(m.insert(dlg(&id(i), DialogStateType::Confirmed, 0)).is_ok(), "capacity:dialogs", "{i}");
            }
            ensure!(m.insert(dlg(&id(10_000), DialogStateType::Confirmed, 0)).is_err() && m.count() == 10_000, "capacity:dialogs", "limit exceeded");
            let j = s.below(10_000);
            ensure!(m.insert(dlg(&id(j), DialogStateType::Terminated, 5)).is_ok(), "capacity:update", "update of stored dialog {j} refused when full");
            ensure_eq!(m.get(&id(j)).map(|d| d.state()), Some(DialogStateType::Terminated), "capacity:update", "");
            m.cleanup_terminated();
            ensure!(m.count() == 9_999 && m.insert(dlg(&id(10_000), DialogStateType::Confirmed, 0)).is_ok(), "capacity:room", "no room after cleanup");
            ctx.nontrivial(format!("{j}"));
        }
        _ => {
            let m = SubscriptionManager::new();
            let u = parse("sip:a@b");
            let sub = |i: u64, st| Subscription::unchecked_new(SubscriptionId::unchecked_new("c", format!("{i}"), "r", "reg"), st, u.clone(), u.clone(), u.clone(), Duration::from_secs(1), 1, 1);
            for i in 0..10_000 {
                ensure!(m.insert(sub(i, SubscriptionState::Active)).is_ok(), "capacity:subs", "{i}");
            }
            ensure!(m.insert(sub(10_000, SubscriptionState::Active)).is_err(), "capacity:subs", "limit exceeded");
            let j = s.below(10_000);
            ensure!(m.insert(sub(j, SubscriptionState::Terminated)).is_ok(), "capacity:update", "update of a stored subscription refused when full");
            ensure_eq!(m.cleanup_terminated(), 1, "capacity:cleanup", "");
            ensure!(m.insert(sub(10_000, SubscriptionState::Active)).is_ok(), "capacity:room", "");
            ctx.nontrivial(format!("s{j}"));
        }
    }
    Ok(())
}
/// Concurrent inserts and removals of disjoint identifiers lose nothing.
fn threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = std::sync::Arc::new(DialogManager::new());
    let st = std::sync::Arc::new(InMemoryDialogStore::default());
    let plans: Vec<Vec<(u64, bool)>> = (0..s.urange(2, 4)).map(|_| s.vec(1, 20, |s| (s.below(6), s.chance(2, 3)))).collect();
    let id = |t: usize, i: u64| DialogId::unchecked_new("c", format!("{t}-{i}"), "r");
    let start = std::sync::Arc::new(std::sync::Barrier::new(plans.len()));
    let hs: Vec<_> = plans
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, plan)| {
            let (m, st, start) = (m.clone(), st.clone(), start.clone());
            std::thread::spawn(move || {
                start.wait();
                for (i, put) in plan {
                    let k = DialogId::unchecked_new("c", format!("{t}-{i}"), "r");
                    if put {
                        let _ = m.insert(dlg(&k, DialogStateType::Confirmed, 0));
                        g::block_on(st.put(dlg(&k, DialogStateType::Confirmed, 0)));
                    } else {
                        m.remove(&k);
                        g::block_on(st.remove(&k));
                    }
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            return fail("threads:panic", format!("{plans:?}"));
        }
    }
    let mut want = std::collections::BTreeSet::new();
    for (t, plan) in plans.iter().enumerate() {
        for (i, put) in plan {
            if *put {
                want.insert(key(&id(t, *i)));
            } else {
                want.remove(&key(&id(t, *i)));
            }
        }
    }
    let got: std::collections::BTreeSet<_> = m.all_ids().iter().map(key).collect();
    ensure_eq!(got, want.clone(), "threads:manager", "{plans:?}");
    let mut got: Vec<_> = g::block_on(st.list_by_call_id(&"c".into())).iter().map(|d| key(d.id())).collect();
    got.sort();
    ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "threads:store", "{plans:?}");
    ctx.desc(|| format!("{plans:?}"));
    ctx.nontrivial(format!("{plans:?}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "a case is non-trivial if at least one dialog was created, keyed by the messages (create), or is a distinct header text (tags)",
            assumptions: &["a response without Contact leaves the peer's URI as remote target, as the library documents", "Session-Expires values lie within 90..86400 seconds"],
            units: vec![unit!("create", 60_000, 6_000_000, create), unit!("tags", 60_000, 6_000_000, tags)],
        },
        Prop {
            id: "C17",
            rule: "a case is non-trivial if its history holds an accepted and a refused request",
            assumptions: &["CSeq gaps above 1000 may be refused, as the library documents", "provisional responses may or may not refresh the target of an early dialog"],
            units: vec![unit!("history", 80_000, 8_000_000, history)],
        },
        Prop {
            id: "C18",
            rule: "every case is a distinct operation sequence or message pair",
            assumptions: &["the limits are those the library documents: 100 early dialogs per Call-ID, 10000 dialogs, 10000 subscriptions", "thread schedules are those the operating system produced"],
            units: vec![
                unit!("manager", 30_000, 3_000_000, manager),
                unit!("store", 30_000, 3_000_000, store),
                unit!("subscriptions", 30_000, 3_000_000, subscriptions),
                unit!("subscribe", 30_000, 3_000_000, subscribe),
                unit!("capacity", 600, 20_000, capacity),
                unit!("threads", 3_000, 200_000, threads),
            ],
        },
    ]
}
