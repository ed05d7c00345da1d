//! C28: the requests and responses user agents build.
use crate::g;
use crate::proxy::{elements, fields, route, via};
use sip_auth::{Authenticator, Credentials, DigestAlgorithm, DigestAuthenticator, MemoryCredentialStore, Qop};
use sip_core::{Headers, Method, Request, Response, SipUri};
use sip_dialog::Dialog;
use sip_uac::UserAgentClient;
use sip_uas::UserAgentServer;
use std::collections::BTreeSet;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

// ---- an independent reading of From, To and Contact values ----
#[derive(Debug, Clone, PartialEq)]
struct Addr {
    display: String,
    uri: String,
    params: Vec<(String, String)>,
}
impl Addr {
    fn tag(&self) -> Option<&str> {
        self.params.iter().find(|p| p.0.eq_ignore_ascii_case("tag")).map(|p| p.1.as_str())
    }
    fn tags(&self) -> usize {
        self.params.iter().filter(|p| p.0.eq_ignore_ascii_case("tag")).count()
    }
}
fn addr(v: &str) -> Option<Addr> {
    let v = v.trim();
    let mut display = String::new();
    let mut rest = v;
    if let Some(r) = v.strip_prefix('"') {
        let (mut esc, mut end) = (false, None);
        for (i, c) in r.char_indices() {
            if esc {
                display.push(c);
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                end = Some(i + 1);
                break;
            } else {
                display.push(c);
            }
        }
        rest = r[end?..].trim_start();
    }
    let first = rest.find(';').unwrap_or(rest.len());
    let (uri, params) = match rest.find('<').filter(|i| *i < first) {
        Some(i) => {
            if display.is_empty() {
                display = rest[..i].trim().to_string();
            }
            let j = rest[i..].find('>')? + i;
            (&rest[i + 1..j], &rest[j + 1..])
        }
        None => match rest.find(';') {
            Some(i) => (rest[..i].trim_end(), &rest[i..]),
            None => (rest, ""),
        },
    };
    let (mut ps, mut cur, mut q, mut esc) = (vec![], String::new(), false, false);
    for c in params.chars() {
        if c == ';' && !q {
            ps.push(std::mem::take(&mut cur));
            continue;
        }
        cur.push(c);
        if esc {
            esc = false;
        } else if q && c == '\\' {
            esc = true;
        } else if c == '"' {
            q = !q;
        }
    }
    ps.push(cur);
    let params = ps[1..].iter().map(|p| p.split_once('=').map(|(k, v)| (k.trim().to_string(), v.trim().to_string())).unwrap_or((p.trim().to_string(), String::new()))).collect();
    Some(Addr { display, uri: uri.to_string(), params })
}
/// A From/To value with what it says, and what it only seems to say.
fn written(s: &mut Src, uri: &str, tag: Option<&str>) -> String {
    let display = match s.below(8) {
        0 => format!("\"{}\" ", s.pick(&["a;tag=no", "<sip:z@z.example>;tag=no", "x, y", "q \\\" ;tag=no", "tag=no>", "\\\\"])),
        1 => "Alice B ".to_string(),
        2 => "\"Bob\"".to_string(),
        _ => String::new(),
    };
    let bare = display.is_empty() && !uri.contains([';', '?', ',', '>']) && s.chance(1, 3);
    let mut v = if bare { uri.to_string() } else { format!("{display}<{uri}>") };
    let mut ps = vec![];
    if let Some(t) = tag {
        ps.push(format!("{}={t}", if s.chance(1, 6) { recase(s, "tag") } else { "tag".into() }));
    }
    for p in ["x=1", "xtag=no", "flag", "q=\"a;tag=no\"", "tagx=no", "y=\"<\""] {
        if s.chance(1, 10) {
            let i = s.idx(ps.len() + 1);
            ps.insert(i, p.to_string());
        }
    }
    for p in ps {
        v += &format!("{}{p}", s.pick(&[";", ";", "; ", " ;"]));
    }
    v
}
fn uri(s: &mut Src) -> SipUri {
    let mut m = g::sip_uri(s);
    m.headers.clear();
    if s.chance(1, 10) {
        m.params.push(("tag".into(), Some("no".into())));
    }
    SipUri::parse(&m.wire()).unwrap_or_else(|_| SipUri::parse("sip:t@192.0.2.77:5070;transport=tcp").unwrap())
}
fn one<'a>(h: &'a Headers, name: &str, what: &str) -> Result<&'a str, vlib::Fail> {
    let v: Vec<&str> = h.iter().filter(|f| f.name().eq_ignore_ascii_case(name)).map(|f| f.value()).collect();
    if v.len() != 1 {
        return fail(format!("{what}:{name}-count"), format!("{what} has {} {name} fields: {v:?}", v.len())).map(|_: ()| "");
    }
    Ok(v[0])
}
fn rand_name(s: &mut Src) -> String {
    match s.below(6) {
        0 => (*s.pick(&["A \"B\" C", "back\\slash", "x <sip:z@z>;tag=no", "né;tag=1", ",", "\\\""])).to_string(),
        _ => text(s, 1, 12),
    }
}

// ---- responses of a server ----
const REQ_METHODS: [&str; 12] = ["INVITE", "BYE", "OPTIONS", "MESSAGE", "PUBLISH", "SUBSCRIBE", "NOTIFY", "REFER", "INFO", "UPDATE", "CANCEL", "PRACK"];
/// A request a user agent receives.
fn incoming(s: &mut Src, method: &str, to_tag: Option<String>, pad: u64) -> Request {
    let vias = s.vec(1, 4, via);
    let mut h: Vec<(&str, String)> = fields(s, "Via", &vias);
    let rr = s.vec(0, 3, route);
    h.extend(fields(s, "Record-Route", &rr));
    let (f, t) = (uri(s), uri(s));
    let tag = ident(s, 1, 8);
    let from = written(s, f.as_str(), Some(&tag));
    h.push(("From", from));
    let to = written(s, t.as_str(), to_tag.as_deref());
    h.push(("To", to));
    h.push(("Call-ID", ident(s, 1, 12)));
    h.push(("CSeq", format!("{} {method}", s.range(1, (1 << 31) - 1))));
    h.push(("Max-Forwards", "70".into()));
    let c = uri(s);
    h.push(("Contact", format!("<{}>", c.as_str())));
    for (k, v) in [("Require", "100rel"), ("Supported", "timer, 100rel"), ("Content-Type", "application/sdp"), ("Subject", "To: x;tag=no"), ("X-To", "<sip:a@b>;tag=no"), ("Event", "presence"), ("Expires", "300"), ("Refer-To", "<sip:c@d.example>")] {
        if s.chance(1, 3) {
            h.push((k, v.to_string()));
        }
    }
    if s.chance(1, 3) {
        s.shuffle(&mut h);
    }
    if s.chance(1, 12) {
        let n = 200 - s.idx(4);
        let kind = s.below(pad);
        while h.len() < n {
            match kind {
                0 => h.push(("X-Pad", h.len().to_string())),
                1 => h.push(("Via", format!("SIP/2.0/UDP h{}.example.com;branch=z9hG4bKp{}", h.len(), h.len()))),
                _ => h.push(("Record-Route", format!("<sip:p{}.example.com;lr>", h.len()))),
            }
        }
    }
    let body = bytes(s, 0, 12);
    let u = uri(s);
    g::req(method, u.as_str(), &h, &body)
}
fn check_response(req: &Request, r: &Response, code: u16, what: &str) -> R {
    ensure_eq!(r.code(), code, format!("{what}:code"), "{:?}", r.headers());
    for l in ["Via", "Record-Route"] {
        ensure_eq!(elements(r.headers(), l), elements(req.headers(), l), format!("{what}:{l}"), "response to {:?}", req.headers());
    }
    for n in ["From", "Call-ID"] {
        ensure_eq!(one(r.headers(), n, what)?, one(req.headers(), n, "request")?, format!("{what}:{n}"), "response");
    }
    let (a, b) = (one(req.headers(), "CSeq", "request")?, one(r.headers(), "CSeq", what)?);
    if what == "terminated-from-cancel" {
        ensure_eq!(b, a.replace("CANCEL", "INVITE"), format!("{what}:CSeq"), "response");
    } else {
        ensure_eq!(b, a, format!("{what}:CSeq"), "response");
    }
    let (a, b) = (one(req.headers(), "To", "request")?, one(r.headers(), "To", what)?);
    let Some(pa) = addr(a) else { return fail("harness", a) };
    let Some(pb) = addr(b) else { return fail(format!("{what}:To"), format!("{a:?} answered with {b:?}")) };
    if pa.tag().is_some() || code == 100 {
        ensure_eq!(b, a, format!("{what}:To"), "To of the response");
    } else {
        ensure_eq!(pb.tags(), 1, format!("{what}:To-tag"), "To {a:?} answered with {b:?}");
        ensure!(!pb.tag().unwrap().is_empty(), format!("{what}:To-tag"), "To {a:?} answered with {b:?}");
        let mut p = pb.clone();
        p.params.retain(|p| p.0 != "tag");
        ensure_eq!(p, pa, format!("{what}:To"), "To {a:?} answered with {b:?}");
    }
    ensure_eq!(one(r.headers(), "Content-Length", what)?, r.body().len().to_string(), format!("{what}:Content-Length"), "response");
    let wire = sip_parse::serialize_response(r);
    let Some(back) = sip_parse::parse_response(&wire) else {
        return fail(format!("{what}:wire"), format!("cannot be read back: {:?}", String::from_utf8_lossy(&wire)));
    };
    ensure_eq!(back.code(), code, format!("{what}:wire"), "code read back");
    ensure_eq!(back.body(), r.body(), format!("{what}:wire"), "body read back");
    for n in ["Via", "Record-Route", "From", "To", "Call-ID", "CSeq", "Contact"] {
        ensure_eq!(elements(back.headers(), n), elements(r.headers(), n), format!("{what}:wire"), "{n} read back");
    }
    Ok(())
}
fn response(s: &mut Src, ctx: &mut Ctx) -> R {
    let method = *s.pick(&REQ_METHODS);
    let tag = s.opt(1, 3, |s| ident(s, 1, 8));
    let tagged = tag.is_some();
    let req = incoming(s, method, tag, 3);
    let (local, contact) = (uri(s), uri(s));
    let uas = UserAgentServer::new(local, contact.clone());
    let n = req.headers().len();
    ctx.nontrivial(format!("{method}{n}{tagged}{}", s.idx(1 << 20)));
    ctx.desc(|| format!("{method} {:?}", req.headers()));
    let kind = s.idx(14);
    let body = s.opt(1, 2, |s| text(s, 1, 30));
    let code = *s.pick(&[100u16, 180, 183, 199, 200, 202, 302, 400, 404, 486, 500, 503, 600, 699, 401]);
    let secs = s.num(90000) as u32;
    let (what, want, r) = vlib::no_panic("response", || match kind {
        0 => ("response", code, UserAgentServer::create_response(&req, code, "Reason")),
        1 => ("trying", 100, UserAgentServer::create_trying(&req)),
        2 => ("ringing", 180, uas.create_ringing(&req)),
        3 => ("busy", 486, uas.create_busy(&req)),
        4 => ("decline", 603, uas.create_decline(&req)),
        5 => ("terminated", 487, UserAgentServer::create_request_terminated(&req)),
        6 if method == "CANCEL" => ("terminated-from-cancel", 487, UserAgentServer::create_request_terminated_from_cancel(&req)),
        7 => ("too-small", 422, UserAgentServer::create_session_interval_too_small(&req, secs)),
        8 => ("options", 200, UserAgentServer::accept_options(&req)),
        9 => ("message", 200, uas.accept_message(&req)),
        10 => ("publish", 200, uas.accept_publish(&req, Some("et-ag1")).unwrap()),
        11 => ("bad", 400, UserAgentServer::create_bad_request(&req, "Bad Request")),
        12 => ("reject", 403, UserAgentServer::reject_refer(&req, 403, "Forbidden")),
        _ => ("ok", 200, uas.create_ok(&req, body.as_deref()).unwrap()),
    })?;
    ctx.label(what);
    check_response(&req, &r, want, what)?;
    match what {
        "ok" => {
            ensure_eq!(r.body().as_ref(), body.as_deref().unwrap_or("").as_bytes(), "ok:body", "body");
            ensure_eq!(one(r.headers(), "Contact", what)?, format!("<{}>", contact.as_str()), "ok:contact", "Contact");
        }
        "too-small" => ensure_eq!(one(r.headers(), "Min-SE", what)?, secs.to_string(), "too-small:min-se", "Min-SE"),
        "publish" => ensure_eq!(one(r.headers(), "SIP-ETag", what)?, "et-ag1", "publish:etag", "SIP-ETag"),
        "options" => {
            for n in ["Allow", "Accept"] {
                one(r.headers(), n, what)?;
            }
        }
        _ => {}
    }
    Ok(())
}

// ---- requests of a client ----
struct Want<'a> {
    what: &'a str,
    method: &'a str,
    ruri: &'a str,
    from: &'a str,
    from_tag: Option<&'a str>,
    display: Option<&'a str>,
    to: &'a str,
    to_tag: Option<&'a str>,
    call_id: Option<&'a str>,
    cseq: Option<u32>,
    body: &'a [u8],
}
fn branch(r: &Request, what: &str) -> Result<String, vlib::Fail> {
    let v = elements(r.headers(), "Via");
    if v.len() != 1 {
        return fail(format!("{what}:Via"), format!("Via values {v:?}")).map(|_: ()| String::new());
    }
    match v[0].split(';').skip(1).find_map(|p| p.trim().strip_prefix("branch=")) {
        Some(b) if b.starts_with("z9hG4bK") && b.len() > 10 && v[0].starts_with("SIP/2.0/") => Ok(b.to_string()),
        _ => fail(format!("{what}:Via"), format!("Via {v:?}")).map(|_: ()| String::new()),
    }
}
fn check_request(r: &Request, w: &Want) -> R {
    let what = w.what;
    ensure_eq!(r.method().as_str(), w.method, format!("{what}:method"), "method");
    ensure_eq!(r.uri().as_str(), w.ruri, format!("{what}:uri"), "Request-URI");
    branch(r, what)?;
    let f = one(r.headers(), "From", what)?;
    let Some(a) = addr(f) else { return fail(format!("{what}:From"), f) };
    ensure_eq!(a.uri, w.from, format!("{what}:From"), "URI of From {f:?}");
    if let Some(d) = w.display {
        // some requests leave the name out
        ensure!(a.display == d || a.display.is_empty(), format!("{what}:From"), "display name of From {f:?}, configured {d:?}");
    }
    ensure!(a.tags() == 1 && a.tag().is_some_and(|t| !t.is_empty()), format!("{what}:From-tag"), "From {f:?}");
    if let Some(t) = w.from_tag {
        ensure_eq!(a.tag(), Some(t), format!("{what}:From-tag"), "From {f:?}");
    }
    let t = one(r.headers(), "To", what)?;
    let Some(a) = addr(t) else { return fail(format!("{what}:To"), t) };
    ensure_eq!(a.uri, w.to, format!("{what}:To"), "URI of To {t:?}");
    ensure_eq!(a.tag(), w.to_tag, format!("{what}:To-tag"), "To {t:?}");
    let c = one(r.headers(), "Call-ID", what)?;
    match w.call_id {
        Some(x) => ensure_eq!(c, x, format!("{what}:Call-ID"), "Call-ID"),
        None => ensure!(c.len() >= 8, format!("{what}:Call-ID"), "Call-ID {c:?}"),
    }
    let c = one(r.headers(), "CSeq", what)?;
    let Some((n, m)) = c.split_once(' ') else { return fail(format!("{what}:CSeq"), c) };
    ensure_eq!(m, w.method, format!("{what}:CSeq"), "CSeq {c:?}");
    match w.cseq {
        Some(x) => ensure_eq!(n, x.to_string(), format!("{what}:CSeq"), "CSeq {c:?}"),
        None => ensure!(n.parse::<u32>().is_ok_and(|n| n > 0), format!("{what}:CSeq"), "CSeq {c:?}"),
    }
    ensure_eq!(one(r.headers(), "Max-Forwards", what)?, "70", format!("{what}:Max-Forwards"), "Max-Forwards");
    ensure_eq!(one(r.headers(), "Content-Length", what)?, w.body.len().to_string(), format!("{what}:Content-Length"), "Content-Length");
    ensure_eq!(r.body().as_ref(), w.body, format!("{what}:body"), "body");
    if !w.body.is_empty() {
        one(r.headers(), "Content-Type", what)?;
    }
    let wire = sip_parse::serialize_request(r);
    let Some(back) = sip_parse::parse_request(&wire) else {
        return fail(format!("{what}:wire"), format!("cannot be read back: {:?}", String::from_utf8_lossy(&wire)));
    };
    ensure_eq!(back.method(), r.method(), format!("{what}:wire"), "method read back");
    ensure_eq!(back.uri(), r.uri(), format!("{what}:wire"), "URI read back");
    ensure_eq!(back.body(), r.body(), format!("{what}:wire"), "body read back");
    // Content-Length is written last
    let l = |h: &Headers| {
        let mut v = h.iter().map(|f| (f.name().to_ascii_lowercase(), f.value().trim().to_string())).collect::<Vec<_>>();
        v.sort_by_key(|f| f.0 == "content-length");
        v
    };
    ensure_eq!(l(back.headers()), l(r.headers()), format!("{what}:wire"), "fields read back");
    Ok(())
}
fn client(s: &mut Src) -> (UserAgentClient, SipUri, SipUri, Option<String>) {
    let (local, contact) = (uri(s), uri(s));
    let mut uac = UserAgentClient::new(local.clone(), contact.clone());
    let mut display = None;
    if s.coin() {
        let d = rand_name(s);
        if uac.set_display_name(&d).is_ok() {
            display = Some(d);
        }
    }
    (uac, local, contact, display)
}
fn requests(s: &mut Src, ctx: &mut Ctx) -> R {
    let (uac, local, contact, display) = client(s);
    ctx.nontrivial(format!("{local:?}{display:?}"));
    ctx.desc(|| format!("local {} contact {} display {display:?}", local.as_str(), contact.as_str()));
    let targets = s.vec(1, 3, uri);
    let mut branches = BTreeSet::new();
    let mut calls = BTreeSet::new();
    let mut tags = BTreeSet::new();
    let mut regs: Vec<(String, String, String, u32)> = vec![];
    for _ in 0..s.urange(1, 8) {
        let t = s.pick(&targets).clone();
        let body = text(s, 1, 30);
        let sdp = s.opt(1, 2, |s| text(s, 1, 30));
        let over = s.opt(1, 3, uri);
        let ev = *s.pick(&["presence", "message-summary", "dialog"]);
        let ct = *s.pick(&["text/plain", "application/pidf+xml", "multipart/mixed;boundary=x"]);
        let secs = *s.pick(&[0u32, 1, 3600, u32::MAX]);
        let kind = s.below(8);
        let mut from = local.as_str().to_string();
        let (what, m, b, r) = match kind {
            0 => ("options", "OPTIONS", "", vlib::no_panic("options", || uac.create_options(&t))?),
            1 => {
                if let Some(o) = &over {
                    from = o.as_str().to_string();
                }
                ("invite", "INVITE", sdp.as_deref().unwrap_or(""), vlib::no_panic("invite", || uac.create_invite_with_from(&t, sdp.as_deref(), over.as_ref()))?)
            }
            2 => ("invite-body", "INVITE", &body[..], vlib::no_panic("invite", || uac.create_invite_with_body(&t, &body, ct).unwrap())?),
            3 => ("subscribe", "SUBSCRIBE", "", vlib::no_panic("subscribe", || uac.create_subscribe(&t, ev, secs))?),
            4 => ("publish", "PUBLISH", &body[..], vlib::no_panic("publish", || uac.create_publish(&t, ev, ct, &body).unwrap())?),
            5 => ("message", "MESSAGE", &body[..], vlib::no_panic("message", || uac.create_message(&t, ct, &body))?),
            6 => ("notify", "NOTIFY", &body[..], vlib::no_panic("notify", || uac.create_unsolicited_notify(&t, ev, ct, &body))?),
            _ => ("register", "REGISTER", "", vlib::no_panic("register", || uac.create_register(&t, secs))?),
        };
        ctx.label(what);
        let reg = what == "register";
        let to = if reg { local.as_str() } else { t.as_str() };
        let cseq = if reg { None } else { Some(1) };
        check_request(&r, &Want { what, method: m, ruri: t.as_str(), from: &from, from_tag: None, display: Some(display.as_deref().unwrap_or("")), to, to_tag: None, call_id: None, cseq, body: b.as_bytes() })?;
        ensure!(branches.insert(branch(&r, what)?), format!("{what}:branch-unique"), "branch used before");
        let h = r.headers();
        let (cid, tag) = (one(h, "Call-ID", what)?.to_string(), addr(one(h, "From", what)?).unwrap().tag().unwrap().to_string());
        if reg {
            let n: u32 = one(h, "CSeq", what)?.split(' ').next().unwrap().parse().unwrap();
            ensure_eq!(one(h, "Expires", what)?, secs.to_string(), "register:Expires", "Expires");
            if let Some(x) = regs.iter_mut().find(|x| x.0 == t.as_str()) {
                ensure!(x.1 == cid && x.2 == tag, "register:series", "refresh with Call-ID {cid} and tag {tag} after {x:?}");
                ensure_eq!(n, x.3 + 1, "register:CSeq", "CSeq");
                x.3 = n;
                ctx.label("refresh");
            } else {
                ensure!(calls.insert(cid.clone()) && tags.insert(tag.clone()), "register:unique", "Call-ID or tag used before");
                regs.push((t.as_str().to_string(), cid, tag, n));
            }
        } else {
            ensure!(calls.insert(cid) && tags.insert(tag), format!("{what}:unique"), "Call-ID or tag used before");
        }
        match what {
            "subscribe" => {
                ensure_eq!(one(h, "Event", what)?, ev, "subscribe:Event", "Event");
                ensure_eq!(one(h, "Expires", what)?, secs.to_string(), "subscribe:Expires", "Expires");
            }
            "publish" | "notify" => ensure_eq!(one(h, "Event", what)?, ev, format!("{what}:Event"), "Event"),
            _ => {}
        }
        if matches!(what, "publish" | "notify" | "message" | "invite-body") {
            ensure_eq!(one(h, "Content-Type", what)?, ct, format!("{what}:type"), "Content-Type");
        }
        if matches!(what, "invite" | "invite-body" | "subscribe") {
            ensure_eq!(one(h, "Contact", what)?, format!("<{}>", contact.as_str()), format!("{what}:contact"), "Contact");
        }
    }
    Ok(())
}

// ---- dialogs ----
/// A response of the callee to `req`, hand-built.
fn answer(s: &mut Src, req: &Request, code: u16, tag: &str, contact: &SipUri) -> Response {
    let mut h: Vec<(&str, String)> = vec![];
    let vias = elements(req.headers(), "Via");
    h.extend(fields(s, "Via", &vias));
    h.push(("From", req.headers().get("From").unwrap().to_string()));
    let to = addr(req.headers().get("To").unwrap()).unwrap().uri;
    h.push(("To", written(s, &to, Some(tag))));
    for n in ["Call-ID", "CSeq"] {
        h.push((n, req.headers().get(n).unwrap().to_string()));
    }
    let rr = s.vec(0, 3, route);
    h.extend(fields(s, "Record-Route", &rr));
    h.push(("Contact", format!("<{}>", contact.as_str())));
    if code < 200 {
        h.push(("RSeq", s.range(1, 99999).to_string()));
        h.push(("Require", "100rel".into()));
    }
    g::resp(code, &h, b"")
}
struct Side {
    uac: UserAgentClient,
    display: Option<String>,
    dialog: Dialog,
    local: String,
    ltag: String,
    remote: String,
    rtag: String,
    call_id: String,
    target: String,
    cseq: u32,
    contact: SipUri,
    /// the INVITE and the response that made the dialog
    invite: Request,
    made_by: Response,
}
/// A dialog of ours as the caller.
fn caller(s: &mut Src, ctx: &mut Ctx) -> Result<Side, vlib::Fail> {
    let (uac, local, contact, display) = client(s);
    let target = uri(s);
    let over = s.opt(1, 3, uri);
    let invite = uac.create_invite_with_from(&target, None, over.as_ref());
    let rtag = ident(s, 1, 8);
    let rc = uri(s);
    let code = *s.pick(&[200u16, 180, 183]);
    let resp = answer(s, &invite, code, &rtag, &rc);
    ctx.label("caller");
    let Some(dialog) = vlib::no_panic("process", || uac.process_invite_response(&invite, &resp))? else {
        return fail("caller:no-dialog", format!("no dialog from {:?}", resp.headers())).map(|_: ()| unreachable!());
    };
    let ltag = addr(invite.headers().get("From").unwrap()).unwrap().tag().unwrap().to_string();
    Ok(Side {
        uac,
        display,
        dialog,
        local: over.unwrap_or(local).as_str().to_string(),
        ltag,
        remote: target.as_str().to_string(),
        rtag,
        call_id: invite.headers().get("Call-ID").unwrap().to_string(),
        target: rc.as_str().to_string(),
        cseq: 1,
        contact,
        invite,
        made_by: resp,
    })
}
/// A dialog of ours as the callee.
fn callee(s: &mut Src, ctx: &mut Ctx) -> Result<(Side, UserAgentServer), vlib::Fail> {
    let req = incoming(s, "INVITE", None, 2);
    let (local, contact) = (uri(s), uri(s));
    let uas = UserAgentServer::new(local.clone(), contact.clone());
    let (resp, dialog) = match vlib::no_panic("accept", || uas.accept_invite(&req, Some("v=0")))? {
        Ok(x) => x,
        Err(e) => return fail("callee:refused", format!("{e}: {:?}", req.headers())).map(|_: ()| unreachable!()),
    };
    check_response(&req, &resp, 200, "accept")?;
    let from = addr(req.headers().get("From").unwrap()).unwrap();
    let to = addr(resp.headers().get("To").unwrap()).unwrap();
    ctx.label("callee");
    ensure_in(&uas.dialog_manager.get(dialog.id()).is_some())?;
    let mut uac = UserAgentClient::new(local, contact.clone());
    let mut display = None;
    if s.coin() {
        let d = rand_name(s);
        if uac.set_display_name(&d).is_ok() {
            display = Some(d);
        }
    }
    let c = addr(req.headers().get("Contact").unwrap()).unwrap().uri;
    Ok((
        Side {
            uac,
            display,
            dialog,
            local: to.uri.clone(),
            ltag: to.tag().unwrap().to_string(),
            remote: from.uri.clone(),
            rtag: from.tag().unwrap().to_string(),
            call_id: req.headers().get("Call-ID").unwrap().to_string(),
            target: c,
            cseq: 0,
            contact,
            invite: req,
            made_by: resp,
        },
        uas,
    ))
}
fn ensure_in(b: &bool) -> R {
    ensure!(*b, "callee:not-kept", "the dialog is not in the manager");
    Ok(())
}
fn pct(v: &str) -> String {
    let b = v.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&v[i + 1..i + 3], 16) {
                o.push(x);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn in_dialog(s: &mut Src, ctx: &mut Ctx) -> R {
    let side = if s.coin() { caller(s, ctx)? } else { callee(s, ctx)?.0 };
    ctx.nontrivial(side.call_id.clone() + &side.remote);
    ctx.desc(|| format!("INVITE {:?}\nanswer {:?}", side.invite.headers(), side.made_by.headers()));
    let d = &side.dialog;
    ensure_eq!((d.id().call_id(), d.id().local_tag(), d.id().remote_tag()), (&side.call_id[..], &side.ltag[..], &side.rtag[..]), "dialog:id", "dialog");
    let other = caller(s, ctx)?;
    let to = uri(s);
    let sdp = s.opt(1, 2, |s| text(s, 1, 30));
    let body = text(s, 1, 30);
    let secs = s.range(90, 7200) as u32;
    let early = side.made_by.code() < 200;
    let by = s.coin();
    let mut branches = BTreeSet::new();
    let u = &side.uac;
    let mut cseq = side.cseq.max(d.local_cseq());
    if side.cseq == 1 {
        ensure_eq!(cseq, 1, "dialog:cseq", "CSeq after the INVITE");
    }
    let mut d = d.clone();
    for _ in 0..s.urange(1, 6) {
        let kind = s.below(9);
        let (what, m, b, r) = match kind {
            0 => ("bye", "BYE", "", vlib::no_panic("bye", || u.create_bye(&d))?),
            1 => ("reinvite", "INVITE", sdp.as_deref().unwrap_or(""), vlib::no_panic("reinvite", || u.create_reinvite(&d, sdp.as_deref()))?),
            2 => ("update", "UPDATE", sdp.as_deref().unwrap_or(""), vlib::no_panic("update", || u.create_update(&d, sdp.as_deref()))?),
            3 => ("info", "INFO", &body[..], vlib::no_panic("info", || u.create_info(&d, "application/x", &body).unwrap())?),
            4 if early => ("prack", "PRACK", "", if by { vlib::no_panic("prack", || u.create_prack(&side.invite, &side.made_by, &d))? } else { vlib::no_panic("prack", || u.create_prack_from_provisional(&side.made_by, &d))? }.unwrap()),
            5 => ("refer", "REFER", "", vlib::no_panic("refer", || u.create_refer(&d, &to))?),
            6 => ("refer-replaces", "REFER", "", vlib::no_panic("refer", || u.create_refer_with_replaces(&d, &to, &other.dialog))?),
            7 => ("refresh", if by { "UPDATE" } else { "INVITE" }, sdp.as_deref().unwrap_or(""), vlib::no_panic("refresh", || u.create_session_refresh(&d, secs, "uac", by, sdp.as_deref()))?),
            _ => ("bye", "BYE", "", vlib::no_panic("bye", || u.create_bye_with_reason(&d, sip_core::ReasonHeader::new("Q.850", Default::default()).unwrap()))?),
        };
        ctx.label(what);
        cseq += 1;
        check_request(&r, &Want { what, method: m, ruri: &side.target, from: &side.local, from_tag: Some(&side.ltag), display: None, to: &side.remote, to_tag: Some(&side.rtag), call_id: Some(&side.call_id), cseq: Some(cseq), body: b.as_bytes() })?;
        let f = addr(one(r.headers(), "From", what)?).unwrap().display;
        ensure!(f.is_empty() || Some(&f) == side.display.as_ref(), format!("{what}:From"), "display name {f:?}, configured {:?}", side.display);
        ensure!(branches.insert(branch(&r, what)?), format!("{what}:branch-unique"), "branch used before");
        d.next_local_cseq();
        let h = r.headers();
        match what {
            "prack" => {
                let want = format!("{} {}", side.made_by.headers().get("RSeq").unwrap(), side.invite.headers().get("CSeq").unwrap());
                ensure_eq!(one(h, "RAck", what)?, want, "prack:RAck", "RAck");
            }
            "refer" => ensure_eq!(addr(one(h, "Refer-To", what)?).map(|a| a.uri), Some(to.as_str().to_string()), "refer:Refer-To", "Refer-To"),
            "refer-replaces" => {
                let v = one(h, "Refer-To", what)?;
                let Some(a) = addr(v) else { return fail("refer:Refer-To", v) };
                let Some(x) = a.uri.strip_prefix(&format!("{}?Replaces=", to.as_str())) else { return fail("refer:Refer-To", format!("{v:?} for {}", to.as_str())) };
                let want = format!("{};to-tag={};from-tag={}", other.call_id, other.rtag, other.ltag);
                ensure_eq!(pct(x), want, "refer:Replaces", "Refer-To {v:?}");
                ensure!(SipUri::parse(&a.uri).is_ok(), "refer:Refer-To", "{v:?} is not a SIP URI");
            }
            "refresh" => ensure_eq!(one(h, "Session-Expires", what)?, format!("{secs};refresher=uac"), "refresh:Session-Expires", "Session-Expires"),
            _ => {}
        }
        if matches!(what, "reinvite" | "update" | "refresh" | "refer") {
            ensure_eq!(one(h, "Contact", what)?, format!("<{}>", side.contact.as_str()), format!("{what}:contact"), "Contact");
        }
        if m == "INVITE" {
            // the ACK to its answer
            let resp = answer(s, &r, 200, &side.rtag, &to);
            let a = vlib::no_panic("ack", || u.create_ack(&r, &resp, sdp.as_deref()))?;
            for (n, w) in [("From", r.headers().get("From")), ("To", resp.headers().get("To")), ("Call-ID", r.headers().get("Call-ID"))] {
                ensure_eq!(Some(one(a.headers(), n, "ack")?), w, format!("ack:{n}"), "ACK");
            }
            ensure_eq!(one(a.headers(), "CSeq", "ack")?, format!("{cseq} ACK"), "ack:CSeq", "ACK");
            ensure!(branches.insert(branch(&a, "ack")?), "ack:branch-unique", "branch used before");
            ensure_eq!(a.body().as_ref(), sdp.as_deref().unwrap_or("").as_bytes(), "ack:body", "ACK");
        }
    }
    Ok(())
}
/// Which requests a server takes for a dialog of its own.
fn matching(s: &mut Src, ctx: &mut Ctx) -> R {
    let (side, uas) = callee(s, ctx)?;
    let m = *s.pick(&["BYE", "INFO", "REFER", "PRACK"]);
    let (mut cid, mut ft, mut tt) = (side.call_id.clone(), Some(side.rtag.clone()), Some(side.ltag.clone()));
    let mut other = m;
    let change = s.below(9);
    match change {
        0 => cid = format!("{cid}x"),
        1 => ft = Some(ident(s, 1, 8)),
        2 => tt = Some(ident(s, 1, 8)),
        3 => std::mem::swap(&mut ft, &mut tt),
        4 => ft = None,
        5 => tt = None,
        6 => other = *s.pick(&["OPTIONS", "BYE", "INFO", "PRACK", "REFER", "INVITE"]),
        _ => {}
    }
    let should = cid == side.call_id && ft.as_deref() == Some(&side.rtag) && tt.as_deref() == Some(&side.ltag) && other == m;
    let mut h: Vec<(&str, String)> = vec![("Via", via(s))];
    let n = s.range(1, 1 << 30);
    h.push(("From", written(s, &side.remote, ft.as_deref())));
    h.push(("To", written(s, &side.local, tt.as_deref())));
    h.push(("Call-ID", cid.clone()));
    h.push(("CSeq", format!("{n} {other}")));
    let rseq = s.range(1, 5);
    let mut prov = None;
    let mut expect = 200;
    if m == "PRACK" {
        let pending = s.chance(2, 3);
        let mut rack = None;
        if pending {
            let p = vlib::no_panic("reliable", || uas.create_reliable_provisional(&side.invite, &side.dialog, 183, "Session Progress", None))?.unwrap();
            let x = one(p.headers(), "RSeq", "reliable")?.to_string();
            ensure_eq!(addr(one(p.headers(), "To", "reliable")?).unwrap().tag(), Some(&side.ltag[..]), "reliable:To-tag", "To");
            ensure_eq!(addr(one(p.headers(), "To", "reliable")?).unwrap().tags(), 1, "reliable:To-tag", "To");
            rack = Some(x);
            prov = Some(p);
        }
        let wrong = s.chance(1, 3);
        let r: u64 = match &rack {
            Some(x) if !wrong => x.parse().unwrap(),
            Some(x) => x.parse::<u64>().unwrap() + rseq,
            None => rseq,
        };
        let c = side.invite.headers().get("CSeq").unwrap();
        h.push(("RAck", format!("{r} {c}")));
        expect = if rack.is_none() { 481 } else if wrong { 400 } else { 200 };
    } else if m == "REFER" {
        h.push(("Refer-To", "<sip:c@d.example>".into()));
        expect = 202;
    }
    let u = uri(s);
    let req = g::req(other, u.as_str(), &h, b"");
    ctx.nontrivial(format!("{m}{change}{cid}{n}"));
    ctx.desc(|| format!("{other} {:?} to the dialog of {:?}", req.headers(), side.made_by.headers()));
    ctx.label(m);
    ctx.label(if should { "matches" } else { "does not match" });
    let r = vlib::no_panic(m, || match m {
        "BYE" => uas.handle_bye(&req, &side.dialog),
        "INFO" => uas.handle_info(&req, &side.dialog),
        "REFER" => uas.accept_refer(&req, &side.dialog).map(|x| x.0),
        _ => uas.handle_prack(&req, &side.dialog),
    })?;
    ensure_eq!(r.is_ok(), should, format!("match:{m}"), "taken: {:?}", r.as_ref().err());
    if let Ok(r) = &r {
        check_response(&req, r, expect, "match")?;
    }
    let kept = uas.dialog_manager.get(side.dialog.id()).is_some();
    ensure_eq!(kept, !(should && m == "BYE"), "match:kept", "dialog kept after {m}");
    if let Some(p) = prov {
        ensure_eq!(elements(p.headers(), "Via"), elements(side.invite.headers(), "Via"), "reliable:Via", "Via");
        ensure_eq!(elements(p.headers(), "Record-Route"), elements(side.invite.headers(), "Record-Route"), "reliable:Record-Route", "Record-Route");
    }
    Ok(())
}
/// Challenged requests.
fn auth(s: &mut Src, ctx: &mut Ctx) -> R {
    let (mut uac, local, _, _) = client(s);
    let (user, pass) = (ident(s, 1, 6), ident(s, 1, 8));
    uac = uac.with_credentials(&user, &pass);
    let proxy = s.coin();
    let target = uri(s);
    let body = text(s, 1, 30);
    let mut req = match s.below(4) {
        0 => uac.create_register(&target, 60),
        1 => uac.create_message(&target, "text/plain", &body),
        2 => uac.create_invite(&target, Some(&body)),
        _ => uac.create_options(&target),
    };
    let first = req.clone();
    let mut branches: BTreeSet<String> = [branch(&req, "auth")?].into();
    let field = |p: bool| if p { ("Proxy-Authenticate", "Proxy-Authorization") } else { ("WWW-Authenticate", "Authorization") };
    let mut realms: BTreeSet<(bool, String)> = BTreeSet::new();
    let names = [ident(s, 1, 5), format!("{}, \\\"x", ident(s, 1, 5)), ident(s, 1, 5)];
    let mut cseq: u32 = req.headers().get("CSeq").unwrap().split(' ').next().unwrap().parse().unwrap();
    for round in 0..s.urange(1, 4) {
        let proxy = if round == 0 { proxy } else { s.coin() };
        let (ask, give) = field(proxy);
        let ri = if s.chance(1, 4) { 1 } else { *s.pick(&[0usize, 2]) };
        let realm = names[ri].clone();
        let (alg, algs) = *s.pick(&[(DigestAlgorithm::Md5, "MD5"), (DigestAlgorithm::Sha256, "SHA-256"), (DigestAlgorithm::Sha512_256, "SHA-512-256")]);
        let qop = *s.pick(&[Qop::Auth, Qop::AuthInt]);
        let a = DigestAuthenticator::new(&realm, MemoryCredentialStore::with(vec![Credentials::new(&user, &pass, &realm)])).with_algorithm(alg).with_qop(qop).with_proxy_auth(proxy);
        let real = Authenticator::challenge(&a, &req).unwrap();
        let mut asks: Vec<String> = vec![real.headers().get(ask).unwrap().to_string()];
        let verifiable = ri != 1;
        if !verifiable {
            asks = vec![format!("Digest realm=\"{realm}\", nonce=\"n{round}\", algorithm={algs}, qop=\"{}\"", if qop == Qop::Auth { "auth" } else { "auth-int" })];
        }
        // challenges that cannot be answered go before it
        for c in ["Basic realm=\"digest\"", "Digest realm=\"z\", nonce=\"y\", algorithm=FOO, qop=\"auth\"", "Digest nonce=\"y\"", "Digest realm=\"z\"", "Digest realm=\"", "Bearer x", ""] {
            if s.chance(1, 8) {
                let i = if s.coin() { 0 } else { asks.len() };
                asks.insert(i, c.to_string());
            }
        }
        let mut h: Vec<(&str, String)> = asks.iter().map(|a| (ask, a.clone())).collect();
        if s.chance(1, 4) {
            h.push((field(!proxy).0, "Digest realm=\"other\", nonce=\"other\"".into()));
        }
        let chal = g::resp(if proxy { 407 } else { 401 }, &h, b"");
        ctx.desc(|| format!("{} {:?} challenged with {h:?}", req.method().as_str(), req.headers()));
        ctx.nontrivial(format!("{asks:?}{round}"));
        let new = match vlib::no_panic("auth", || uac.create_authenticated_request(&req, &chal))? {
            Ok(r) => r,
            Err(e) => return fail("auth:refused", format!("{e} for {asks:?}")),
        };
        realms.insert((proxy, realm.clone()));
        ctx.label(if verifiable { "verified" } else { "quoted realm" });
        if verifiable {
            let ok = a.verify(&new, new.headers());
            ensure!(matches!(ok, Ok(true)), "auth:verify", "{:?} for {asks:?}: {ok:?}", new.headers());
        }
        cseq += 1;
        ensure_eq!(one(new.headers(), "CSeq", "auth")?, format!("{cseq} {}", req.method().as_str()), "auth:CSeq", "CSeq");
        ensure!(branches.insert(branch(&new, "auth")?), "auth:branch", "branch used before");
        let creds: BTreeSet<(bool, String)> = new
            .headers()
            .iter()
            .filter_map(|f| {
                let p = if f.name() == "Authorization" { false } else if f.name() == "Proxy-Authorization" { true } else { return None };
                let v = f.value();
                let i = v.find("realm=\"")? + 7;
                let mut esc = false;
                let j = v[i..].find(|c| {
                    let end = c == '"' && !esc;
                    esc = c == '\\' && !esc;
                    end
                })?;
                Some((p, v[i..i + j].to_string()))
            })
            .collect();
        let n = new.headers().iter().filter(|f| f.name().ends_with("uthorization")).count();
        ensure_eq!(n, realms.len(), "auth:credentials", "{:?} after challenges of {realms:?}", new.headers());
        ensure_eq!(creds, realms, "auth:credentials", "{:?}", new.headers());
        let keep = |r: &Request| crate::proxy::rest(r.headers(), &["Via", "CSeq", "Authorization", "Proxy-Authorization"]);
        ensure_eq!(keep(&new), keep(&first), "auth:kept", "other fields");
        ensure!(new.uri() == first.uri() && new.method() == first.method() && new.body() == first.body(), "auth:kept", "request line or body");
        let _ = give;
        req = new;
    }
    let _ = local;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "every case builds at least one message from generated URIs, display names, tags and header fields",
        assumptions: &[
            "UserAgentClient and UserAgentServer are driven directly; IntegratedUAC and IntegratedUAS, which add transports and transactions, are not",
            "reason phrases, content types and event packages are valid, as the builders demand by contract",
            "the low-level builders leave the Route set to the caller, so it is not checked here",
        ],
        units: vec![
            unit!("response", 60_000, 2_000_000, response),
            unit!("requests", 25_000, 1_000_000, requests),
            unit!("dialog", 25_000, 1_000_000, in_dialog),
            unit!("match", 40_000, 1_500_000, matching),
            unit!("auth", 20_000, 700_000, auth),
        ],
    }]
}
#[allow(unused)]
fn _m(_: Method) {}
