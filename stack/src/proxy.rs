//! C27: what a proxy does to requests and responses, and which responses of a forked request go
//! upstream.
use crate::g;
use bytes::Bytes;
use sip_core::{Headers, Method, Request, Response, SipUri};
use sip_proxy::cancel_ack::{AckForwarder, AckType, CancelForwarder, RouteProcessor};
use sip_proxy::location::{group_by_q_value, Target};
use sip_proxy::service::ProxyService;
use sip_proxy::stateful::{forwarding, BranchInfo, BranchState, ForkMode, ProxyError, ProxyTarget};
use sip_proxy::ProxyHelpers;
use std::collections::BTreeSet;
use std::time::Duration;
use tokio::time::Instant;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

const MAX_FIELDS: usize = 200;

/// The elements of a list header, split at the commas that are not inside quotes or brackets.
pub(crate) fn elements(h: &Headers, name: &str) -> Vec<String> {
    let mut v = vec![];
    for f in h.iter().filter(|f| f.name().eq_ignore_ascii_case(name)) {
        let (mut cur, mut quoted, mut esc, mut angle) = (String::new(), false, false, false);
        for c in f.value().chars() {
            if !esc && !quoted && !angle && c == ',' {
                v.push(std::mem::take(&mut cur).trim().to_string());
                continue;
            }
            cur.push(c);
            if esc {
                esc = false;
            } else if c == '\\' && quoted {
                esc = true;
            } else if c == '"' {
                quoted = !quoted;
            } else if !quoted && c == '<' {
                angle = true;
            } else if !quoted && c == '>' {
                angle = false;
            }
        }
        v.push(cur.trim().to_string());
    }
    v
}
pub(crate) fn rest(h: &Headers, without: &[&str]) -> Vec<(String, String)> {
    h.iter().filter(|f| !without.iter().any(|w| w.eq_ignore_ascii_case(f.name()))).map(|f| (f.name().to_string(), f.value().to_string())).collect()
}
fn all(h: &Headers) -> Vec<(String, String)> {
    rest(h, &[])
}
/// Some elements, written as one or several fields.
pub(crate) fn fields(s: &mut Src, name: &'static str, els: &[String]) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    let mut i = 0;
    while i < els.len() {
        let n = if s.chance(2, 3) { 1 } else { s.urange(1, els.len() - i) };
        v.push((name, els[i..i + n].join(*s.pick(&[",", ", ", " , "]))));
        i += n;
    }
    v
}
pub(crate) fn via(s: &mut Src) -> String {
    let mut v = crate::fsm::via(s).0;
    if s.chance(1, 8) {
        v += ";x=\"a, b;c\"";
    }
    v
}
pub(crate) fn route(s: &mut Src) -> String {
    let mut u = format!("sip:{}{}", s.opt(1, 3, |s| alnum(s, 1, 5) + "@").unwrap_or_default(), host(s));
    if s.coin() {
        u += &format!(":{}", port(s));
    }
    if s.chance(2, 3) {
        u += *s.pick(&[";lr", ";lr", ";transport=tcp;lr", ";lr=on"]);
    } else if s.chance(1, 3) {
        u += ";transport=udp";
    }
    match s.below(8) {
        0 => format!("\"P, <1>\" <{u}>"),
        1 => format!("Edge <{u}>"),
        2 => format!("<{u}>;x=1"),
        _ => format!("<{u}>"),
    }
}
/// A request on its way through a proxy.
fn request(s: &mut Src, method: &str) -> (Request, usize) {
    let vias = s.vec(1, 4, via);
    let mut h: Vec<(&str, String)> = fields(s, "Via", &vias);
    let routes = s.vec(0, 2, route);
    h.extend(fields(s, "Route", &routes));
    let rr = s.vec(0, 2, route);
    h.extend(fields(s, "Record-Route", &rr));
    let mf = s.weighted(&[6, 2, 1, 1, 2]);
    let n = match mf {
        0 => Some(s.num(255).to_string()),
        1 => Some((*s.pick(&["1", "70", "255", "007"])).to_string()),
        2 => Some("0".to_string()),
        3 => Some((*s.pick(&["256", "-1", "x", "", "1.5", "+3", "99999999999", "7 0"])).to_string()),
        _ => None,
    };
    if let Some(n) = &n {
        h.push(("Max-Forwards", n.clone()));
    }
    h.push(("From", format!("<sip:{}>;tag={}", hostname(s), ident(s, 1, 6))));
    h.push(("To", format!("<sip:{}>{}", hostname(s), s.opt(1, 3, |s| format!(";tag={}", ident(s, 1, 6))).unwrap_or_default())));
    h.push(("Call-ID", ident(s, 1, 10)));
    h.push(("CSeq", format!("{} {method}", s.range(1, 1 << 31) - 1)));
    for (k, v) in [("Require", "100rel"), ("Proxy-Require", "sec-agree"), ("Contact", "<sip:me@192.0.2.9>"), ("Content-Type", "application/sdp"), ("Subject", "via, route"), ("X-Via", "SIP/2.0/UDP no")] {
        if s.chance(1, 3) {
            h.push((k, v.to_string()));
        }
    }
    if s.chance(1, 3) {
        // any order of the fields
        s.shuffle(&mut h);
    }
    if s.chance(1, 12) {
        let n = MAX_FIELDS - s.idx(4);
        while h.len() < n {
            h.push(("X-Pad", h.len().to_string()));
        }
    }
    let body = bytes(s, 0, 12);
    let uri = g::sip_uri(s).wire();
    let uri = if SipUri::parse(&uri).is_ok() { uri } else { "sip:b@example.com".into() };
    let n = h.len();
    (g::req(method, &uri, &h, &body), n)
}
fn uri(s: &mut Src) -> SipUri {
    let u = g::sip_uri(s).wire();
    SipUri::parse(&u).unwrap_or_else(|_| SipUri::parse("sip:t@192.0.2.77:5070;transport=tcp").unwrap())
}
fn proxy_host(s: &mut Src) -> String {
    match s.below(5) {
        0 => format!("[2001:db8::{}]", s.range(1, 9)),
        1 => format!("p{}.example.net:{}", s.range(1, 3), s.range(5060, 5062)),
        2 => format!("192.0.2.{}", s.range(1, 3)),
        _ => format!("p{}.example.net", s.range(1, 3)),
    }
}
fn forward(s: &mut Src, ctx: &mut Ctx) -> R {
    let method = g::method(s);
    let (req, n) = request(s, &method);
    let target = uri(s);
    let host = proxy_host(s);
    let transport = *s.pick(&["UDP", "TCP", "TLS", "WS"]);
    let own = SipUri::parse(&format!("sip:{host}{}", s.pick(&["", ";lr", ";transport=tcp", ";LR"]))).unwrap();
    let rr = s.coin();
    ctx.desc(|| format!("{method} {:?} to {target:?} through {host}, record {rr} as {own:?}", all(req.headers())));
    ctx.nontrivial(format!("{:?}{host}{rr}", all(req.headers())));
    if n >= MAX_FIELDS - 3 {
        ctx.label("full");
    }
    let before = (all(req.headers()), req.uri().as_str().to_string());
    let got = vlib::no_panic("prepare_forward", || forwarding::prepare_forward(&req, &target, &host, transport, rr, Some(&own)))?;
    ensure_eq!((all(req.headers()), req.uri().as_str().to_string()), before, "forward:original", "the received request");
    let mf = req.headers().get("Max-Forwards").map(|v| v.trim().to_string());
    let want = match &mf {
        None => Some(69),
        Some(v) if !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) => v.parse::<u32>().ok().filter(|&n| n > 0 && n <= 255).map(|n| n - 1),
        _ => None,
    };
    let (out, branch) = match (got, want) {
        (Err(_), None) => return Ok(()),
        (Err(_), Some(_)) if mf.is_none() && n == MAX_FIELDS => return Ok(()),
        (Err(e), Some(_)) => return fail("forward:refused", format!("Max-Forwards {mf:?}: {e}")),
        (Ok(_), None) => return fail("forward:max-forwards", format!("forwarded with Max-Forwards {mf:?}")),
        (Ok(x), Some(_)) => x,
    };
    let (oh, rh) = (out.headers(), req.headers());
    ensure_eq!(out.uri().as_str(), target.as_str(), "forward:uri", "Request-URI");
    ensure_eq!((out.method(), out.body()), (req.method(), req.body()), "forward:method", "method and body");
    ensure_eq!(oh.get("Max-Forwards").map(|v| v.to_string()), want.map(|n| n.to_string()), "forward:max-forwards", "from {mf:?}");
    // Via
    let (ov, rv) = (elements(oh, "Via"), elements(rh, "Via"));
    ensure!(ov.len() == rv.len() + 1 && ov[1..] == rv[..], "forward:via", "{ov:?} from {rv:?}");
    ensure_eq!(ov[0], format!("SIP/2.0/{transport} {host};branch={branch};rport"), "forward:own-via", "top Via");
    ensure!(sip_core::is_valid_branch(&branch), "forward:branch", "{branch}");
    // Record-Route
    let (or, rr0) = (elements(oh, "Record-Route"), elements(rh, "Record-Route"));
    let mut want = rr0.clone();
    if rr && !(rr0.is_empty() && n >= MAX_FIELDS - 2) {
        let lr = own.as_str().to_ascii_lowercase().contains(";lr");
        want.insert(0, format!("<{}{}>", own.as_str(), if lr { "" } else { ";lr" }));
    }
    if !(rr && rr0.is_empty() && n >= MAX_FIELDS - 2) {
        ensure_eq!(or, want, "forward:record-route", "Record-Route");
    }
    let drop = ["Via", "Record-Route", "Max-Forwards"];
    ensure_eq!(rest(oh, &drop), rest(rh, &drop), "forward:other", "other fields");
    let again = forwarding::prepare_forward(&req, &target, &host, transport, rr, Some(&own)).unwrap().1;
    ensure!(again != branch, "forward:branch", "twice {branch}");
    Ok(())
}
fn response(s: &mut Src, ctx: &mut Ctx) -> R {
    let vias = s.vec(0, 5, via);
    let mut h: Vec<(&str, String)> = fields(s, "Via", &vias);
    for (k, v) in [("From", "<sip:a@b>;tag=1"), ("To", "\"Via: x, y\" <sip:a@b>"), ("Record-Route", "<sip:a;lr>, <sip:b;lr>"), ("CSeq", "1 INVITE"), ("X-Via", "SIP/2.0/UDP no")] {
        if s.chance(2, 3) {
            let i = s.idx(h.len() + 1);
            h.insert(i, (k, v.to_string()));
        }
    }
    let code = s.range(100, 699) as u16;
    let body = bytes(s, 0, 12);
    let r = g::resp(code, &h, &body);
    ctx.desc(|| format!("{code} {h:?}"));
    if vias.len() > 1 {
        ctx.nontrivial(format!("{h:?}"));
    }
    let out = vlib::no_panic("prepare_response", || forwarding::prepare_response(&r))?;
    ensure_eq!((out.code(), out.reason(), out.body()), (r.code(), r.reason(), r.body()), "response:status", "status and body");
    ensure_eq!(elements(out.headers(), "Via"), vias.get(1..).unwrap_or(&[]).to_vec(), "response:via", "Via values left of {vias:?}");
    ensure_eq!(rest(out.headers(), &["Via"]), rest(r.headers(), &["Via"]), "response:other", "other fields");
    Ok(())
}
/// The same Via values, written differently.
fn respell(s: &mut Src, r: &mut Request) {
    let vs: Vec<String> = elements(r.headers(), "Via")
        .iter()
        .map(|v| {
            let mut v = v.clone();
            if s.chance(1, 4) {
                v = v.replacen(";branch=", *s.pick(&[";Branch=", "; branch = ", " ;branch=", ";BRANCH= "]), 1);
            }
            if s.chance(1, 4) {
                v = v.replacen("SIP/2.0/", *s.pick(&["SIP / 2.0 / ", "SIP/2.0 /", "sip/2.0/"]), 1);
            }
            if s.chance(1, 4) {
                let (a, b) = v.split_at(v.find(';').unwrap_or(v.len()));
                v = format!("{a};received=192.0.2.1{b}");
            }
            v
        })
        .collect();
    let mut h: Vec<(String, String)> = fields(s, "Via", &vs).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    h.extend(rest(r.headers(), &["Via"]));
    let mut n = Headers::new();
    for (k, v) in h {
        n.push(k, v).unwrap();
    }
    *r.headers_mut() = n;
}
fn loops(s: &mut Src, ctx: &mut Ctx) -> R {
    let hosts = s.vec(1, 3, proxy_host);
    let uris = ["sip:b@example.com", "sip:c@example.com", "sip:b@192.0.2.1"];
    let v = g::via(s);
    let mut h: Vec<(&str, String)> = fields(s, "Via", &[v]);
    h.extend([("From", "<sip:a@b>;tag=1".to_string()), ("To", "<sip:b@b>".into()), ("Call-ID", "x".into()), ("CSeq", "1 INVITE".into())]);
    let mut req = g::req("INVITE", uris[0], &h, b"");
    let hops = s.vec(1, 5, |s| {
        let how = s.weighted(&[8, 1, 1, 1, 1]);
        (s.idx(3), s.opt(1, 3, |s| s.idx(3)), how, s.coin())
    });
    ctx.desc(|| format!("{hosts:?} {hops:?}"));
    ctx.nontrivial(format!("{hosts:?} {hops:?}"));
    let id = |r: &Request, host: &str| {
        let h = r.headers();
        (host.to_string(), r.uri().as_str().to_string(), ["From", "To", "Call-ID", "CSeq"].map(|n| h.get(n).unwrap().to_string()))
    };
    let mut seen = BTreeSet::new();
    let mut branches = std::collections::BTreeMap::new();
    for (i, uri, how, spell) in &hops {
        let host = &hosts[i % hosts.len()];
        let me = id(&req, host);
        let looped = seen.contains(&me);
        let got = ProxyHelpers::detect_loop_hashed(&req, host);
        ensure_eq!(got.is_err(), looped, "loop:hashed", "{got:?} at {host} for {:?}", all(req.headers()));
        // the plain check knows the address only
        let here = elements(req.headers(), "Via").iter().any(|v| {
            let sent = v.split(';').next().unwrap().trim().rsplit(' ').next().unwrap().to_string();
            let bare = if sent.starts_with('[') { format!("{}]", sent.split(']').next().unwrap()) } else { sent.split(':').next().unwrap().to_string() };
            sent.eq_ignore_ascii_case(host) || bare.eq_ignore_ascii_case(host)
        });
        ensure_eq!(ProxyHelpers::detect_loop(&req, host).is_err(), here, "loop:host", "{host} in {:?}", elements(req.headers(), "Via"));
        if looped {
            ctx.label("loop");
        }
        if *how == 1 {
            // somebody else's Via with our branch, or ours with another
            let b = ProxyHelpers::add_via_with_loop_detection(&mut req.clone(), host, "UDP");
            let mut n = Headers::new();
            n.push("Via", format!("SIP/2.0/UDP other.example;branch={b}")).unwrap();
            for (k, v) in all(req.headers()) {
                n.push(k, v).unwrap();
            }
            *req.headers_mut() = n;
        } else {
            let before = elements(req.headers(), "Via");
            let b = ProxyHelpers::add_via_with_loop_detection(&mut req, host, "TCP");
            ensure!(sip_core::is_valid_branch(&b), "loop:branch", "{b}");
            ensure_eq!(elements(req.headers(), "Via")[1..].to_vec(), before, "loop:via", "Via values below the own one");
            // same request, same branch; another request, another branch
            if let Some(x) = branches.insert(b.clone(), me.clone()) {
                ensure_eq!(x, me, "loop:branch", "{b} for both");
            }
            seen.insert(me);
        }
        if let Some(u) = uri {
            ProxyHelpers::set_request_uri(&mut req, SipUri::parse(uris[*u]).unwrap());
        }
        match how {
            2 => drop(req.headers_mut().set_or_push("CSeq", "2 INVITE")),
            3 => drop(req.headers_mut().set_or_push("To", "<sip:b@b>;tag=9")),
            4 => drop(req.headers_mut().set_or_push("Call-ID", "y")),
            _ => {}
        }
        if *spell {
            respell(s, &mut req);
        }
    }
    Ok(())
}
/// What the routing helpers see in a Route element: its URI and whether it is loose.
fn route_uri(e: &str) -> (String, bool) {
    let (a, b) = (e.rfind('<').unwrap(), e.rfind('>').unwrap());
    (e[a + 1..b].to_string(), e[a + 1..b].contains(";lr") || e[b..].contains(";lr"))
}
fn routes(s: &mut Src, ctx: &mut Ctx) -> R {
    let els = s.vec(0, 4, route);
    let single = s.coin();
    let mut h: Vec<(&str, String)> = if single { els.iter().map(|e| ("Route", e.clone())).collect() } else { fields(s, "Route", &els) };
    for (k, v) in [("Via", "SIP/2.0/UDP a;branch=z9hG4bK1"), ("X-Route", "<sip:no>"), ("Record-Route", "<sip:r;lr>"), ("Contact", "<sip:c@d>")] {
        if s.coin() {
            let i = s.idx(h.len() + 1);
            h.insert(i, (k, v.to_string()));
        }
    }
    let own = "sip:p1.example.net;lr";
    let ruri = if s.coin() { own.to_string() } else { uri(s).as_str().to_string() };
    let method = if s.coin() { "ACK" } else { "INVITE" };
    let req = g::req(method, &ruri, &h, b"");
    ctx.desc(|| format!("{method} {ruri} {h:?}"));
    if !els.is_empty() {
        ctx.nontrivial(format!("{ruri} {h:?}"));
    }
    let others = rest(req.headers(), &["Route"]);
    let ours = ruri == own;
    let check = |what: &str, r: &Request, uri: &str, want: &[String]| -> R {
        ensure_eq!(r.uri().as_str(), uri, "routes:uri", "{what}: Request-URI");
        ensure_eq!(elements(r.headers(), "Route"), want.to_vec(), "routes:set", "{what}: Route values");
        ensure_eq!(rest(r.headers(), &["Route"]), others, "routes:other", "{what}: other fields");
        Ok(())
    };
    // next hop
    let hop = RouteProcessor::get_next_hop(&req);
    let want = els.first().map_or(ruri.clone(), |e| route_uri(e).0);
    ensure_eq!(hop.as_ref().map(|u| u.as_str().to_string()).map_err(|e| e.to_string()), Ok(want), "routes:next-hop", "next hop");
    // a request a strict router addressed to us
    let mut r = req.clone();
    let got = RouteProcessor::process_route_set(&mut r, &[SipUri::parse("sip:q.example.net;lr").unwrap(), SipUri::parse(own).unwrap()]).unwrap();
    match els.split_last() {
        Some((last, left)) if ours => {
            let u = route_uri(last).0;
            ensure_eq!(got.map(|g| g.as_str().to_string()), Some(u.clone()), "routes:result", "process_route_set");
            check("process_route_set", &r, &u, left)?;
        }
        _ => {
            ensure!(got.is_none(), "routes:result", "process_route_set: {got:?}");
            check("process_route_set", &r, &ruri, &els)?;
        }
    }
    // the ACK of a 2xx and any other
    for ty in [AckType::For2xx, AckType::Non2xx] {
        let out = AckForwarder::prepare_ack(&req, ty).unwrap();
        match els.split_first() {
            Some((first, left)) if ty == AckType::For2xx => {
                let (u, lr) = route_uri(first);
                check("prepare_ack", &out, if lr { &ruri } else { &u }, left)?;
            }
            _ => check("prepare_ack", &out, &ruri, &els)?,
        }
        ensure_eq!((out.method(), out.body()), (req.method(), req.body()), "routes:ack", "method and body");
    }
    ensure_eq!(AckForwarder::ack_type(&req, Some(single)) == AckType::For2xx, single, "routes:ack", "ack_type");
    // these two are documented to want one value per field
    if single {
        let mut r = req.clone();
        let done = ProxyHelpers::recover_strict_routed_request_uri(&mut r, |u| u.as_str() == own);
        ensure_eq!(done, ours && !els.is_empty(), "routes:result", "recover_strict_routed_request_uri");
        match els.split_last() {
            Some((last, left)) if ours => check("recover", &r, &route_uri(last).0, left)?,
            _ => check("recover", &r, &ruri, &els)?,
        }
        let mut r = req.clone();
        let done = ProxyHelpers::apply_strict_routing_swap(&mut r);
        match els.split_first() {
            Some((first, left)) if !route_uri(first).1 => {
                ensure!(done, "routes:result", "apply_strict_routing_swap");
                let mut left = left.to_vec();
                left.push(format!("<{ruri}>"));
                check("swap", &r, &route_uri(first).0, &left)?;
                // and the strict router's neighbour undoes it
                if left.iter().all(|e| e.starts_with('<')) {
                    let at = route_uri(first).0;
                    let mut back = r.clone();
                    ensure!(ProxyHelpers::recover_strict_routed_request_uri(&mut back, |u| u.as_str() == at), "routes:result", "recover after swap");
                    check("recover after swap", &back, &ruri, &left[..left.len() - 1])?;
                }
            }
            _ => {
                ensure!(!done, "routes:result", "apply_strict_routing_swap");
                check("swap", &r, &ruri, &els)?;
            }
        }
    }
    Ok(())
}
fn matching(s: &mut Src, ctx: &mut Ctx) -> R {
    let tag = ident(s, 1, 6);
    let from = |s: &mut Src, tag: &str| {
        let n = *s.pick(&["", "", "Bob ", "\"B;tag=q <x>\" "]);
        let p = *s.pick(&["", ";tag=uri", ";user=phone"]);
        match s.below(4) {
            0 => format!("{n}<sip:b@h{p}>; {} = {tag}", recase(s, "tag")),
            1 => format!("{n}<sip:b@h{p}>;x=y;tag={tag}"),
            2 => format!("sip:b@h;tag={tag}"),
            _ => format!("{n}<sip:b@h{p}>;tag={tag};tagx=1"),
        }
    };
    let f = from(s, &tag);
    let n = s.range(1, 1 << 31) - 1;
    let mk = |m: &str, f: &str, cid: &str, n: u64, uri: &str, sp: &str, to: &str| {
        g::req(m, uri, &[("Via", "SIP/2.0/UDP a;branch=z9hG4bK1".into()), ("From", f.into()), ("To", to.into()), ("Call-ID", cid.into()), ("CSeq", format!("{n}{sp}{m}"))], b"")
    };
    let invite = mk("INVITE", &f, "cid", n, "sip:b@h;x=1", " ", "<sip:b@h>");
    let kind = s.below(6);
    let mut t2 = tag.clone();
    if kind == 1 {
        // also a different case is a different tag
        t2 = if s.coin() { recase(s, &tag) } else { ident(s, 1, 6) };
    }
    let f2 = if kind == 1 || s.coin() { from(s, &t2) } else { f.clone() };
    let to = s.pick(&["<sip:b@h>", "<sip:b@h>;tag=7"]).to_string();
    let sp = *s.pick(&[" ", " ", "  ", "\t"]);
    let cancel = mk("CANCEL", &f2, if kind == 2 { "Cid" } else { "cid" }, if kind == 3 { n ^ 1 } else { n }, if kind == 4 { "sip:b@h;x=2" } else { "sip:b@h;x=1" }, sp, &to);
    ctx.desc(|| format!("{:?} {:?}", all(invite.headers()), all(cancel.headers())));
    ctx.nontrivial(format!("{f}{f2}{kind}{n}"));
    let same = kind != 2 && kind != 3 && kind != 4 && t2 == tag;
    ensure_eq!(CancelForwarder::matches_invite(&cancel, &invite), same, "cancel:match", "matches_invite");
    ensure_eq!(CancelForwarder::extract_invite_cseq(&cancel).ok(), Some(if kind == 3 { (n ^ 1) as u32 } else { n as u32 }), "cancel:cseq", "extract_invite_cseq");
    Ok(())
}
fn groups(s: &mut Src, ctx: &mut Ctx) -> R {
    let qs = s.vec(0, 8, |s| match s.below(6) {
        0 => f32::NAN,
        1 => 0.0,
        2 => 1.0,
        _ => s.range(0, 10) as f32 / 10.0,
    });
    let ts: Vec<Target> = qs.iter().enumerate().map(|(i, q)| { let mut t = Target::new(SipUri::parse(&format!("sip:u{i}@h")).unwrap()); t.q_value = *q; t }).collect();
    ctx.desc(|| format!("{qs:?}"));
    if qs.len() > 1 {
        ctx.nontrivial(format!("{qs:?}"));
    }
    let key = |i: usize| if qs[i].is_nan() { 0 } else { (qs[i] * 1000.0).round() as i32 };
    let got: Vec<Vec<usize>> = group_by_q_value(ts).iter().map(|c| c.iter().map(|t| t.uri.user().unwrap()[1..].parse().unwrap()).collect()).collect();
    let mut want: Vec<Vec<usize>> = vec![];
    let mut keys: Vec<i32> = (0..qs.len()).map(key).collect();
    keys.sort();
    keys.dedup();
    for k in keys.iter().rev() {
        want.push((0..qs.len()).filter(|&i| key(i) == *k).collect());
    }
    ensure_eq!(got, want, "groups", "cohorts of {qs:?}");
    Ok(())
}

#[derive(Debug, Clone)]
enum Ev {
    /// branch, code, challenges
    Resp(usize, u16, Vec<(&'static str, u64)>),
    Wait(u64),
    Unreachable(usize),
    Another,
    Stray(u16),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum St {
    Trying,
    Proceeding(u64),
    Done,
    Cancelled,
}
/// What goes upstream: code, number of the response (0: made by the proxy), challenges.
type Up = (u16, usize, BTreeSet<(String, u64)>);
struct Model {
    invite: bool,
    br: Vec<St>,
    challenges: Vec<BTreeSet<(String, u64)>>,
    open: usize,
    best: Option<Up>,
    sent: bool,
    killed: bool,
    /// Branches that ended with something other than 2xx: their client
    /// transaction passes nothing else up.
    refused: BTreeSet<usize>,
}
impl Model {
    fn provisional(&mut self, b: usize, code: u16, k: usize, now: u64) -> Option<Up> {
        match self.br[b] {
            St::Done => return None,
            St::Cancelled => {}
            _ => self.br[b] = St::Proceeding(now + 180_000),
        }
        (code != 100 && !self.sent).then(|| (code, k, BTreeSet::new()))
    }
    fn last(&mut self, b: usize, code: u16, k: usize, ch: BTreeSet<(String, u64)>) -> Option<Up> {
        let ok = code < 300 && self.invite;
        if self.br[b] == St::Done && !ok {
            return None;
        }
        if self.br[b] != St::Done {
            if code >= 300 {
                self.refused.insert(b);
            }
            self.br[b] = St::Done;
            self.challenges[b] = if matches!(code, 401 | 407) { ch.clone() } else { BTreeSet::new() };
            self.open -= 1;
        }
        let me = (code, k, ch);
        let cancel = code < 300 && (ok || !self.sent) || code >= 600;
        if code >= 600 {
            self.killed = true;
        }
        if cancel {
            for (i, x) in self.br.iter_mut().enumerate() {
                if i != b && *x != St::Done {
                    *x = St::Cancelled;
                }
            }
        }
        if ok || (cancel && !self.sent) {
            self.sent = true;
            self.best = Some(me.clone());
            return Some(me);
        }
        if self.sent {
            return None;
        }
        if self.best.as_ref().is_none_or(|x| code / 100 < x.0 / 100) {
            self.best = Some(me);
        }
        if self.open == 0 {
            self.sent = true;
            let mut x = self.best.clone()?;
            if matches!(x.0, 401 | 407) {
                x.2 = self.challenges.iter().flatten().cloned().collect();
            }
            return Some(x);
        }
        None
    }
}
fn fork(s: &mut Src, ctx: &mut Ctx) -> R {
    let invite = s.chance(5, 6);
    let method = if invite { "INVITE" } else { "OPTIONS" };
    let vias = s.vec(1, 3, |s| g::via(s));
    let rts = s.vec(0, 2, route);
    let mut h = fields(s, "Via", &vias);
    h.extend(fields(s, "Route", &rts));
    h.extend([("Max-Forwards", "70".to_string()), ("From", "<sip:a@b>;tag=1".into()), ("To", "<sip:b@b>".into()), ("Call-ID", "x".into()), ("CSeq", format!("{} {method}", s.range(1, 99))), ("Require", "timer".into()), ("Proxy-Require", "foo".into()), ("Content-Type", "application/sdp".into())]);
    let req = g::req(method, "sip:b@example.com", &h, b"v=0");
    let host = proxy_host(s);
    let n = s.urange(1, 4);
    let evs = s.vec(1, 12, |s| {
        let b = s.idx(5);
        match s.weighted(&[20, 5, 2, 1, 1]) {
            0 => {
                let code = match s.weighted(&[2, 4, 4, 2, 4, 4, 2, 3]) {
                    0 => 100,
                    1 => *s.pick(&[180, 183, 199, 101]),
                    2 => *s.pick(&[200, 200, 202, 299]),
                    3 => *s.pick(&[302, 300]),
                    4 => *s.pick(&[401, 407]),
                    5 => *s.pick(&[404, 486, 487, 499]),
                    6 => *s.pick(&[500, 503, 599]),
                    _ => *s.pick(&[600, 603, 699]),
                };
                let ch = if matches!(code, 401 | 407) {
                    s.vec(0, 3, |s| (*s.pick(&["WWW-Authenticate", "Proxy-Authenticate"]), s.below(4)))
                } else {
                    vec![]
                };
                Ev::Resp(b, code, ch)
            }
            1 => Ev::Wait(*s.pick(&[1, 60, 100, 179, 181, 400]) * 1000 + s.range(1, 999)),
            2 => Ev::Unreachable(b),
            3 => Ev::Another,
            _ => Ev::Stray(s.range(1, 6) as u16 * 100),
        }
    });
    let joined = s.coin();
    ctx.desc(|| format!("{method} to {n} targets through {host}, {h:?}: {evs:?}"));
    if evs.len() > 2 {
        ctx.nontrivial(format!("{n} {invite} {evs:?}"));
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let svc = ProxyService::new();
        let targets: Vec<ProxyTarget> = (0..n).map(|i| ProxyTarget::new(SipUri::parse(&format!("sip:t{i}@192.0.2.{i}")).unwrap())).collect();
        let (context, mut rx, mut out) = match svc.start_forking(req.clone(), targets, &host, "UDP", false, None, ForkMode::Parallel).await {
            Ok(x) => x,
            Err(e) => return fail("fork:start", e.to_string()),
        };
        ensure_eq!(out.len(), n, "fork:start", "branches");
        ensure_eq!(out.iter().map(|o| o.0.clone()).collect::<BTreeSet<_>>().len(), n, "fork:start", "different branches");
        let mut m = Model { invite, br: vec![St::Trying; n], challenges: vec![BTreeSet::new(); n], open: n, best: None, sent: false, killed: false, refused: BTreeSet::new() };
        let t0 = Instant::now();
        let mut first_end = true;
        for (k, ev) in evs.iter().enumerate() {
            let mut got: Vec<Response> = vec![];
            let mut want: Vec<Up> = vec![];
            let mut cancels = None;
            let now = t0.elapsed().as_millis() as u64;
            match ev {
                Ev::Resp(b, code, ch) => {
                    let b = b % out.len();
                    if m.refused.contains(&b) && (200..300).contains(code) {
                        continue;
                    }
                    let fwd = &out[b].1;
                    let vs = elements(fwd.headers(), "Via");
                    let mut h: Vec<(&str, String)> = if joined { vec![("Via", vs.join(", "))] } else { vs.into_iter().map(|v| ("Via", v)).collect() };
                    for x in ["From", "Call-ID", "CSeq"] {
                        h.push((x, fwd.headers().get(x).unwrap().to_string()));
                    }
                    h.push(("To", format!("<sip:b@b>;tag=t{b}")));
                    h.push(("X-N", (k + 1).to_string()));
                    for (name, x) in ch {
                        h.push((name, format!("Digest realm=\"r{x}\", nonce=\"{x}\"")));
                    }
                    let r = g::resp(*code, &h, b"body");
                    let set: BTreeSet<(String, u64)> = ch.iter().map(|(n, x)| (n.to_string(), *x)).collect();
                    let act = svc.handle_branch_response(&context, &out[b].0, r).await;
                    cancels = Some(act.cancels().to_vec());
                    got.extend(act.into_forward().map(|f| f.into_response()));
                    want.extend(if *code < 200 { m.provisional(b, *code, k + 1, now) } else { m.last(b, *code, k + 1, set) });
                }
                Ev::Stray(code) => {
                    let r = g::resp(*code, &[("Via", "SIP/2.0/UDP x;branch=z9hG4bKno".into())], b"");
                    got.extend(svc.handle_branch_response(&context, "z9hG4bKno", r).await.into_forward().map(|f| f.into_response()));
                }
                Ev::Wait(ms) => {
                    let mut to = now + ms;
                    while m.br.iter().any(|b| matches!(b, St::Proceeding(d) if d.abs_diff(to) < 5)) {
                        to += 10;
                    }
                    tokio::time::sleep(Duration::from_millis(to - now)).await;
                    let mut due: Vec<(u64, usize)> = m.br.iter().enumerate().filter_map(|(i, b)| if let St::Proceeding(d) = b { Some((*d, i)) } else { None }).filter(|x| x.0 < to).collect();
                    due.sort();
                    for (_, i) in due {
                        ctx.label("timer C");
                        if matches!(m.br[i], St::Proceeding(_)) {
                            want.extend(m.last(i, 408, 0, BTreeSet::new()));
                        }
                    }
                }
                Ev::Unreachable(b) => {
                    let b = b % out.len();
                    let r = context.report_transport_error(&out[b].0).await;
                    if !matches!(m.br[b], St::Done | St::Cancelled) {
                        want.extend(m.last(b, 503, 0, BTreeSet::new()));
                    }
                    ensure_eq!(r.map(|r| r.code()), want.first().map(|w| w.0), "fork:unreachable", "returned");
                }
                Ev::Another => {
                    let t = SipUri::parse(&format!("sip:t{}@192.0.2.9", out.len())).unwrap();
                    let (r, b) = forwarding::prepare_forward(&req, &t, &host, "UDP", false, None).unwrap();
                    if m.sent && !m.killed {
                        continue;
                    }
                    let res = context.add_branch(BranchInfo::new(b.clone(), t, std::time::Instant::now(), BranchState::Trying).unwrap()).await;
                    if m.killed {
                        ensure_eq!(res, Err(ProxyError::TerminatedBy6xx), "fork:after-6xx", "add_branch");
                    } else {
                        ensure_eq!(res, Ok(()), "fork:add", "add_branch");
                        out.push((b, r));
                        m.br.push(St::Trying);
                        m.challenges.push(BTreeSet::new());
                        m.open += 1;
                    }
                }
            }
            for _ in 0..8 {
                tokio::task::yield_now().await;
            }
            while let Ok(r) = rx.try_recv() {
                got.push(r);
            }
            // upstream
            let shown: Vec<Up> = got
                .iter()
                .map(|r| {
                    let h = r.headers();
                    let mut ch = BTreeSet::new();
                    for n in ["WWW-Authenticate", "Proxy-Authenticate"] {
                        for v in h.get_all(n) {
                            ch.insert((n.to_string(), v.split('"').nth(3).unwrap().parse().unwrap()));
                        }
                    }
                    (r.code(), h.get("X-N").map_or(0, |v| v.parse().unwrap()), ch)
                })
                .collect();
            ensure_eq!(shown, want, "fork:upstream", "after event {k} {ev:?}");
            for r in &got {
                let up = forwarding::prepare_response(r);
                ensure_eq!(elements(up.headers(), "Via"), vias, "fork:via", "Via of the {} forwarded upstream", r.code());
                for x in ["From", "Call-ID", "CSeq"] {
                    ensure_eq!(up.headers().get(x), req.headers().get(x), "fork:headers", "{x} of the {}", r.code());
                }
                ensure!(up.headers().get("To").is_some_and(|t| t.starts_with("<sip:b@b>")), "fork:headers", "To of the {}", r.code());
            }
            // CANCEL
            if let Some(cs) = cancels {
                let open: Vec<usize> = (0..out.len()).filter(|&i| m.br[i] != St::Done).collect();
                let ends = want.first().is_some_and(|w| matches!(w.0, 200..=299 | 600..));
                let mut hit = BTreeSet::new();
                for c in &cs {
                    let v = elements(c.headers(), "Via");
                    let Some(i) = open.iter().copied().find(|&i| v.first() == elements(out[i].1.headers(), "Via").first()) else {
                        return fail("fork:cancel", format!("CANCEL {:?} for no open branch", all(c.headers())));
                    };
                    ensure!(hit.insert(i), "fork:cancel", "twice for branch {i}");
                    let f = &out[i].1;
                    ensure_eq!(v.len(), 1, "fork:cancel-via", "{v:?}");
                    ensure_eq!((c.method(), c.uri().as_str(), c.body().len()), (&Method::Cancel, f.uri().as_str(), 0), "fork:cancel-line", "CANCEL");
                    for x in ["From", "To", "Call-ID"] {
                        ensure_eq!(c.headers().get(x), f.headers().get(x), "fork:cancel-headers", "{x}");
                    }
                    ensure_eq!(elements(c.headers(), "Route"), elements(f.headers(), "Route"), "fork:cancel-headers", "Route");
                    ensure_eq!(c.headers().get("CSeq").map(|v| v.to_string()), f.headers().get("CSeq").map(|v| v.replace("INVITE", "CANCEL").replace("OPTIONS", "CANCEL")), "fork:cancel-headers", "CSeq");
                    for x in ["Require", "Proxy-Require", "Content-Type"] {
                        ensure!(c.headers().get(x).is_none(), "fork:cancel-headers", "{x} in CANCEL");
                    }
                }
                if ends && first_end {
                    first_end = false;
                    ensure_eq!(hit.len(), open.len(), "fork:cancel", "branches cancelled after event {k}");
                    if !open.is_empty() {
                        ctx.label("cancels");
                    }
                }
                if !ends {
                    ensure!(cs.is_empty(), "fork:cancel", "after event {k} {ev:?}");
                }
            }
            ensure_eq!(context.is_terminated_by_6xx().await, m.killed, "fork:after-6xx", "terminated");
            ensure_eq!(context.best_response_is_2xx().await, m.best.as_ref().map(|b| b.0 < 300), "fork:best", "best response after event {k}");
        }
        Ok(())
    })
}
/// Who is tried first, and who is not tried at all.
fn start(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.urange(0, 6);
    let ts: Vec<(u32, f32)> = (0..n).map(|_| (s.below(3) as u32, s.below(4) as f32 / 4.0)).collect();
    let mode = *s.pick(&[ForkMode::Parallel, ForkMode::Sequential, ForkMode::None]);
    let mf = s.opt(3, 4, |s| *s.pick(&["70", "1", "0", "x"]));
    let mut h = vec![("Via", "SIP/2.0/UDP a;branch=z9hG4bKa".to_string()), ("Call-ID", "x".into()), ("CSeq", "1 INVITE".into())];
    if let Some(m) = mf {
        h.push(("Max-Forwards", m.into()));
    }
    ctx.desc(|| format!("{mode:?} {ts:?} Max-Forwards {mf:?}"));
    ctx.nontrivial(format!("{mode:?} {ts:?} {mf:?}"));
    let req = g::req("INVITE", "sip:b@example.com", &h, b"");
    let targets = ts.iter().enumerate().map(|(i, (p, q))| ProxyTarget::new(SipUri::parse(&format!("sip:t{i}@h")).unwrap()).with_priority(*p).with_q_value(*q)).collect();
    let got = g::block_on(ProxyService::new().start_forking(req, targets, "p", "UDP", false, None, mode));
    let mut want: Vec<usize> = (0..n).collect();
    match mode {
        ForkMode::Parallel => {}
        ForkMode::None => want.truncate(1),
        ForkMode::Sequential => {
            want.sort_by(|&a, &b| ts[a].0.cmp(&ts[b].0).then(ts[b].1.total_cmp(&ts[a].1)));
            want.truncate(1);
        }
    }
    let stop = matches!(mf, Some("0" | "x"));
    match got {
        Err(_) if stop && n > 0 => Ok(()),
        Err(e) => fail("start:refused", e.to_string()),
        Ok(_) if stop && n > 0 => fail("start:max-forwards", format!("started with Max-Forwards {mf:?}")),
        Ok((c, _rx, out)) => {
            let got: Vec<usize> = out.iter().map(|o| o.1.uri().as_sip().unwrap().user().unwrap()[1..].parse().unwrap()).collect();
            ensure_eq!(got, want, "start:order", "targets tried");
            let mut ids: Vec<String> = g::block_on(c.get_branch_ids()).iter().map(|b| b.to_string()).collect();
            let mut outs: Vec<String> = out.iter().map(|o| o.0.to_string()).collect();
            ids.sort();
            outs.sort();
            ensure_eq!(ids, outs, "start:branches", "branches in the context");
            Ok(())
        }
    }
}
#[allow(unused)]
fn keep(_: Bytes) {}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "any request forwarded; a response with several Vias; a request with routes; a history of more than two events",
        assumptions: &["Route helpers documented to want one value per field are given one", "one runtime thread"],
        units: vec![
            unit!("forward", 60_000, 2_000_000, forward),
            unit!("response", 60_000, 2_000_000, response),
            unit!("loops", 60_000, 2_000_000, loops),
            unit!("routes", 60_000, 2_000_000, routes),
            unit!("cancel-match", 60_000, 1_000_000, matching),
            unit!("groups", 40_000, 1_000_000, groups),
            unit!("start", 40_000, 1_000_000, start),
            unit!("fork", 80_000, 3_000_000, fork),
        ],
    }]
}
