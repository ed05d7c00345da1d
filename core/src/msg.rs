//! C01 (round trip) and C02 (acceptance) of the message parser.
use crate::g;
use bytes::Bytes;
use sip_core::{Headers, Method, Request, RequestLine, Response, StatusLine, Uri};
use sip_parse::*;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, Unit, R};

#[derive(Debug, Clone)]
struct Msg {
    /// method+uri or code+reason
    req: Option<(String, String)>,
    resp: Option<(u16, String)>,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

fn body(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[3, 4, 3, 1]) {
        0 => vec![],
        1 => ascii_text(s, 0, 60).into_bytes(),
        2 => bytes(s, 0, 60),
        _ => {
            let mut b = bytes(s, 0, 10);
            b.extend_from_slice(b"\r\n\r\nINVITE sip:a@b SIP/2.0\r\nContent-Length: 5\r\n\r\n");
            let n = s.urange(0, 2000);
            b.extend(std::iter::repeat_n(s.below(256) as u8, n));
            b
        }
    }
}

fn headers(s: &mut Src, method: Option<&str>) -> Vec<(String, String)> {
    let mut h: Vec<(String, String)> = vec![];
    if s.chance(9, 10) {
        h.push(("Via".into(), g::via(s)));
    }
    for n in ["From", "To", "Call-ID"] {
        if s.chance(9, 10) {
            let v = if n == "Call-ID" { token(s, 1, 20) } else { format!("{};tag={}", g::name_addr(s), token(s, 1, 8)) };
            h.push((n.into(), v));
        }
    }
    if s.chance(9, 10) {
        let m = method.map(|m| m.to_string()).unwrap_or_else(|| g::method(s));
        let n = 1 + s.num((1u64 << 31) - 2);
        h.push(("CSeq".into(), format!("{n} {m}")));
    }
    if s.coin() {
        h.push(("Max-Forwards".into(), s.below(256).to_string()));
    }
    let single = ["call-id", "cseq", "from", "to", "max-forwards", "content-length", "i", "f", "t", "l"];
    let extra = if s.chance(1, 40) { s.urange(100, 185) } else { s.urange(0, 8) };
    for _ in 0..extra {
        let (n, v) = match s.weighted(&[4, 2, 2, 2, 3]) {
            0 => (s.pick(&["Contact", "Route", "Record-Route", "Path"]).to_string(), g::name_addr(s)),
            1 => ("Via".to_string(), g::via(s)),
            2 => {
                let (c, _) = s.pick(&g::COMPACT);
                (c.to_string(), g::hval(s))
            }
            3 => (s.pick(&["Supported", "Subject", "Event", "X-Foo", "x-foo", "Warning", "User-Agent"]).to_string(), g::hval(s)),
            _ => (token(s, 1, 12), g::hval(s)),
        };
        // a random Via value must not become the top Via
        if single.contains(&n.to_ascii_lowercase().as_str()) {
            continue;
        }
        let is_via = g::expand(&n).eq_ignore_ascii_case("Via");
        let v = if is_via { g::via(s) } else { v };
        h.push((n, v));
    }
    if s.coin() {
        s.shuffle(&mut h);
    }
    let n = h.len();
    if n > 3 && s.chance(1, 20) {
        // a long value
        let i = s.idx(n);
        if !g::expand(&h[i].0).eq_ignore_ascii_case("Via") && !single.contains(&h[i].0.to_ascii_lowercase().as_str()) {
            h[i].1 = "x".repeat(s.urange(1000, 8192));
        }
    }
    h
}

fn msg(s: &mut Src) -> Msg {
    if s.coin() {
        let m = g::method(s);
        let u = g::any_uri(s);
        let h = headers(s, Some(&m));
        Msg { req: Some((m, u)), resp: None, headers: h, body: body(s) }
    } else {
        let code = if s.coin() { *s.pick(&[100u16, 180, 200, 302, 404, 503, 603, 699]) } else { s.range(100, 699) as u16 };
        let reason = if s.chance(1, 5) { String::new() } else { text(s, 0, 20) };
        let h = headers(s, None);
        Msg { req: None, resp: Some((code, reason)), headers: h, body: body(s) }
    }
}

/// Expected header list after a trip over the wire, without Max-Forwards and Content-Length.
fn norm(h: &[(String, String)], skip_mf: bool) -> Vec<(String, String)> {
    h.iter()
        .map(|(n, v)| (g::expand(n).to_ascii_lowercase(), v.trim().to_string()))
        .filter(|(n, _)| n != "content-length" && !(skip_mf && n == "max-forwards"))
        .collect()
}
fn got(h: &Headers) -> Vec<(String, String)> {
    h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect()
}

fn build(m: &Msg) -> Result<Result<Request, Response>, vlib::Fail> {
    let mut h = Headers::new();
    for (n, v) in &m.headers {
        if let Err(e) = h.push(n, v) {
            return fail("header-refused", format!("Headers::push({n:?}, {v:?}) refused: {e}"));
        }
    }
    let b = Bytes::from(m.body.clone());
    if let Some((me, u)) = &m.req {
        let me = Method::from_token(me).map_err(|e| vlib::Fail { sig: "method-refused".into(), msg: format!("{me}: {e}") })?;
        let u = Uri::parse(u).map_err(|e| vlib::Fail { sig: "uri-refused".into(), msg: format!("{u}: {e}") })?;
        Ok(Ok(Request::new(RequestLine::new(me, u), h, b).unwrap()))
    } else {
        let (c, r) = m.resp.as_ref().unwrap();
        let sl = StatusLine::new(*c, r).map_err(|e| vlib::Fail { sig: "status-refused".into(), msg: format!("{c} {r:?}: {e}") })?;
        Ok(Err(Response::new(sl, h, b).unwrap()))
    }
}

fn check_wire_framing(wire: &[u8], m: &Msg, is_req: bool) -> R {
    // independent reading of the bytes: head lines, exactly one Content-Length with the exact body length
    let pos = wire.windows(4).position(|w| w == b"\r\n\r\n");
    let Some(pos) = pos else { return fail("no-terminator", "serialized message has no empty line") };
    let head = String::from_utf8_lossy(&wire[..pos]).to_string();
    ensure!(wire[pos + 4..] == m.body[..], "wire-body", "bytes after the empty line differ from the body");
    let lines: Vec<&str> = head.split("\r\n").collect();
    let mut cl = vec![];
    let mut mf = vec![];
    for l in &lines[1..] {
        let Some((n, v)) = l.split_once(':') else { return fail("wire-line", format!("line without colon: {l:?}")) };
        match g::expand(n.trim()).to_ascii_lowercase().as_str() {
            "content-length" => cl.push(v.trim().to_string()),
            "max-forwards" => mf.push(v.trim().to_string()),
            _ => {}
        }
    }
    ensure_eq!(cl, vec![m.body.len().to_string()], "content-length", "Content-Length on the wire");
    if is_req {
        let want = m.headers.iter().find(|(n, _)| n == "Max-Forwards").map(|x| x.1.clone()).unwrap_or("70".into());
        ensure_eq!(mf, vec![want], "max-forwards", "Max-Forwards on the wire");
    }
    Ok(())
}

fn compare(m: &Msg, req: Option<&Request>, resp: Option<&Response>, what: &str) -> R {
    let skip_mf = m.req.is_some();
    let (h, b) = if let Some(r) = req {
        let (me, u) = m.req.as_ref().unwrap();
        ensure_eq!(r.method().as_str(), me.as_str(), "method", "{what} method");
        ensure_eq!(r.uri().as_str(), u.as_str(), "uri", "{what} URI");
        (r.headers(), r.body())
    } else {
        let r = resp.unwrap();
        let (c, re) = m.resp.as_ref().unwrap();
        ensure_eq!(r.code(), *c, "code", "{what} status code");
        ensure_eq!(r.reason(), re.trim(), "reason", "{what} reason");
        (r.headers(), r.body())
    };
    ensure_eq!(norm(&got(h), skip_mf), norm(&m.headers, skip_mf), "headers", "{what} headers");
    ensure!(b[..] == m.body[..], "body", "{what} body: got {} bytes, expected {}", b.len(), m.body.len());
    Ok(())
}

fn interesting(m: &Msg, ctx: &mut Ctx) {
    let names: Vec<String> = m.headers.iter().map(|h| g::expand(&h.0).to_ascii_lowercase()).collect();
    let dup = names.iter().enumerate().any(|(i, n)| names[..i].contains(n));
    if dup {
        ctx.label("repeated header");
    }
    if m.headers.iter().any(|h| g::expand(&h.0) != h.0) {
        ctx.label("compact name");
    }
    if m.headers.iter().any(|h| !h.1.is_ascii()) {
        ctx.label("non-ascii value");
    }
    if m.headers.len() > 100 {
        ctx.label("over 100 headers");
    }
    if std::str::from_utf8(&m.body).is_err() {
        ctx.label("binary body");
    }
    if m.resp.as_ref().is_some_and(|r| r.1.trim().is_empty()) {
        ctx.label("empty reason");
    }
    ctx.label(if m.req.is_some() { "request" } else { "response" });
}

fn roundtrip(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = msg(s);
    ctx.desc(|| format!("{m:?}"));
    interesting(&m, ctx);
    let built = build(&m)?;
    let wire = match &built {
        Ok(r) => serialize_request(r),
        Err(r) => serialize_response(r),
    };
    check_wire_framing(&wire, &m, m.req.is_some())?;
    if wire.len() > DEFAULT_MAX_MESSAGE_SIZE {
        ctx.label("oversized");
        return Ok(());
    }
    if m.headers.len() >= 4 {
        ctx.nontrivial(&wire[..]);
    }
    for strict in [false, true] {
        let what = if strict { "strict reparse" } else { "reparse" };
        let (rq, rs) = if m.req.is_some() {
            (if strict { parse_request_strict(&wire) } else { parse_request(&wire) }, None)
        } else {
            (None, if strict { parse_response_strict(&wire) } else { parse_response(&wire) })
        };
        ensure!(rq.is_some() || rs.is_some(), "reparse-rejected", "{what} rejects the serialized message {:?}", String::from_utf8_lossy(&wire));
        compare(&m, rq.as_ref(), rs.as_ref(), what)?;
        let wire2 = match (&rq, &rs) {
            (Some(r), _) => serialize_request(r),
            (_, Some(r)) => serialize_response(r),
            _ => unreachable!(),
        };
        check_wire_framing(&wire2, &m, m.req.is_some())?;
    }
    // the other kind of message is not confused with this one
    if m.req.is_some() {
        ensure!(parse_response(&wire).is_none(), "kind-confusion", "a request parses as a response");
    } else {
        ensure!(parse_request(&wire).is_none(), "kind-confusion", "a response parses as a request");
    }
    Ok(())
}

/// Random equivalent spelling of a message.
fn spell(s: &mut Src, m: &Msg) -> Vec<u8> {
    let mut o = String::new();
    if let Some((me, u)) = &m.req {
        let me = if g::METHODS.contains(&me.as_str()) { me.clone() } else { me.clone() };
        o += &format!("{me} {u} SIP/2.0\r\n");
    } else {
        let (c, r) = m.resp.as_ref().unwrap();
        o += &format!("SIP/2.0 {c} {r}\r\n");
    }
    let mut cl_done = false;
    let n = m.headers.len();
    for (i, (name, v)) in m.headers.iter().enumerate() {
        if !cl_done && (s.chance(1, 6) || i + 1 == n) {
            cl_done = true;
            o += &format!("{}:{}{}\r\n", s.pick(&["Content-Length", "l", "L", "content-length"]), s.pick(&[" ", "", "  "]), m.body.len());
        }
        let full = g::expand(name);
        let mut nm = full.clone();
        if let Some((c, _)) = g::COMPACT.iter().find(|(_, f)| f.eq_ignore_ascii_case(&full)) {
            if s.coin() {
                nm = c.to_string();
            }
        }
        nm = recase(s, &nm);
        o += &nm;
        o += s.pick(&["", "", "", " ", "\t", "  "]);
        o += ":";
        o += s.pick(&[" ", "", "  ", "\t", " \t "]);
        o += v.trim();
        o += s.pick(&["", "", " ", "\t"]);
        o += "\r\n";
    }
    if !cl_done && (!m.body.is_empty() || s.coin()) {
        o += &format!("Content-Length: {}\r\n", m.body.len());
    }
    o += "\r\n";
    let mut b = o.into_bytes();
    b.extend_from_slice(&m.body);
    b
}

fn spellings(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = msg(s);
    let wire = Bytes::from(spell(s, &m));
    ctx.desc(|| String::from_utf8_lossy(&wire).to_string());
    interesting(&m, ctx);
    if wire.len() > DEFAULT_MAX_MESSAGE_SIZE {
        return Ok(());
    }
    if m.headers.len() >= 4 {
        ctx.nontrivial(&wire[..]);
    }
    for strict in [false, true] {
        let (rq, rs) = if m.req.is_some() {
            (if strict { parse_request_strict(&wire) } else { parse_request(&wire) }, None)
        } else {
            (None, if strict { parse_response_strict(&wire) } else { parse_response(&wire) })
        };
        ensure!(rq.is_some() || rs.is_some(), "spelling-rejected", "strict={strict} parser rejects {:?}", String::from_utf8_lossy(&wire));
        let mut mm = m.clone();
        // with an explicit parse, Max-Forwards must be exactly as sent
        let h = rq.as_ref().map(|r| r.headers()).or(rs.as_ref().map(|r| r.headers())).unwrap();
        ensure_eq!(
            h.get("Max-Forwards").map(|x| x.to_string()),
            m.headers.iter().find(|x| x.0 == "Max-Forwards").map(|x| x.1.clone()),
            "max-forwards",
            "parsed Max-Forwards"
        );
        // lookups by full name see the compact spellings, in order
        for name in ["Via", "Contact", "Subject", "Supported"] {
            let want: Vec<String> = m.headers.iter().filter(|x| g::expand(&x.0).eq_ignore_ascii_case(name)).map(|x| x.1.trim().to_string()).collect();
            let have: Vec<String> = h.get_all(name).map(|x| x.to_string()).collect();
            ensure_eq!(have, want, "get-all", "values of {name}");
            ensure_eq!(header(h, name).map(|v| v.to_string()), want.first().cloned(), "header-lookup", "first {name}");
        }
        for (c, full) in g::COMPACT {
            let want = m.headers.iter().find(|x| g::expand(&x.0).eq_ignore_ascii_case(full)).map(|x| x.1.trim().to_string());
            if full != "Content-Length" {
                ensure_eq!(header(h, c).map(|v| v.to_string()), want, "header-lookup", "lookup by compact name {c}");
            }
        }
        mm.headers.retain(|_| true);
        compare(&mm, rq.as_ref(), rs.as_ref(), "spelling")?;
    }
    Ok(())
}

/// parse -> serialize -> parse is a fixed point for anything the parser accepts.
fn fixed_point(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = msg(s);
    let base = spell(s, &m);
    let wire = Bytes::from(if s.chance(1, 10) { base } else { mutate(s, &base, 4) });
    ctx.desc(|| String::from_utf8_lossy(&wire).to_string());
    if let Some(r) = parse_request(&wire) {
        if r.headers().len() > 197 {
            return Ok(());
        }
        let w1 = serialize_request(&r);
        if w1.len() > DEFAULT_MAX_MESSAGE_SIZE {
            return Ok(());
        }
        ctx.label("accepted request");
        ctx.nontrivial(&wire[..]);
        let Some(r2) = parse_request_strict(&w1) else { return fail("fixpoint-rejected", format!("serialized form of an accepted request is rejected: {:?}", String::from_utf8_lossy(&w1))) };
        ensure_eq!(r2.method(), r.method(), "fixpoint-start", "method");
        ensure_eq!(r2.uri().as_str(), r.uri().as_str(), "fixpoint-start", "URI");
        ensure_eq!(norm(&got(r2.headers()), true), norm(&got(r.headers()), true), "fixpoint-headers", "headers");
        ensure!(r2.body() == r.body(), "fixpoint-body", "body changed");
        ensure!(serialize_request(&r2) == w1, "fixpoint-bytes", "second serialization differs");
    }
    if let Some(r) = parse_response(&wire) {
        if r.headers().len() > 197 {
            return Ok(());
        }
        let w1 = serialize_response(&r);
        if w1.len() > DEFAULT_MAX_MESSAGE_SIZE {
            return Ok(());
        }
        ctx.label("accepted response");
        ctx.nontrivial(&wire[..]);
        let Some(r2) = parse_response_strict(&w1) else { return fail("fixpoint-rejected", format!("serialized form of an accepted response is rejected: {:?}", String::from_utf8_lossy(&w1))) };
        ensure_eq!((r2.code(), r2.reason()), (r.code(), r.reason()), "fixpoint-start", "status line");
        ensure_eq!(norm(&got(r2.headers()), false), norm(&got(r.headers()), false), "fixpoint-headers", "headers");
        ensure!(r2.body() == r.body(), "fixpoint-body", "body changed");
        ensure!(serialize_response(&r2) == w1, "fixpoint-bytes", "second serialization differs");
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

#[derive(Debug, Clone, Copy, PartialEq)]
enum Verdict {
    Accept,
    Reject,
    /// rejected in strict mode, accepted with the given body otherwise
    StrictOnly,
}

struct Wire {
    start: String,
    lines: Vec<(String, String)>,
    body: Vec<u8>,
    is_req: bool,
    method: String,
}
impl Wire {
    fn bytes(&self) -> Bytes {
        let mut o = format!("{}\r\n", self.start);
        for (n, v) in &self.lines {
            o += &format!("{n}: {v}\r\n");
        }
        o += "\r\n";
        let mut b = o.into_bytes();
        b.extend_from_slice(&self.body);
        Bytes::from(b)
    }
}

fn base(s: &mut Src) -> Wire {
    let is_req = s.chance(2, 3);
    let method = g::method(s);
    let start = if is_req { format!("{method} {} SIP/2.0", g::any_uri(s)) } else { format!("SIP/2.0 {} {}", s.range(100, 699), alnum(s, 1, 8)) };
    let body = bytes(s, 0, 20);
    let mut lines = vec![
        ("Via".to_string(), g::via(s)),
        ("From".to_string(), format!("<{}>;tag={}", g::sip_uri(s).wire(), token(s, 1, 6))),
        ("To".to_string(), format!("<{}>", g::sip_uri(s).wire())),
        ("Call-ID".to_string(), token(s, 1, 10)),
        ("CSeq".to_string(), format!("{} {method}", 1 + s.num((1 << 31) - 2))),
        ("Max-Forwards".to_string(), s.below(256).to_string()),
        ("Content-Length".to_string(), body.len().to_string()),
    ];
    for _ in 0..s.urange(0, 3) {
        let n = match s.below(4) {
            0 => token(s, 1, 12),
            1 => s.pick(&["Route", "Record-Route", "Contact", "Subject", "Expires", "Require", "Allow", "Content-Type", "Date", "m", "c", "k", "s", "Warning", "RSeq"]).to_string(),
            _ => format!("X-{}", alnum(s, 1, 5)),
        };
        if ["call-id", "i", "cseq", "from", "f", "to", "t", "max-forwards", "content-length", "l", "via", "v"].contains(&n.to_ascii_lowercase().as_str()) {
            continue;
        }
        lines.push((n, g::hval(s)));
    }
    if s.coin() {
        s.shuffle(&mut lines);
    }
    // Via fields below the top one are not this parser's to judge
    if s.chance(1, 4) {
        let top = lines.iter().position(|l| l.0 == "Via").unwrap();
        let at = s.urange(top + 1, lines.len());
        let v = match s.below(3) {
            0 => g::hval(s),
            1 => g::via(s),
            _ => format!("SIP/2.0/UDP h;branch={}", s.pick(&["", "z9hG4bK", "1", "z9hG4bKa;branch=;x"])),
        };
        lines.insert(at, (s.pick(&["Via", "v"]).to_string(), v));
    }
    Wire { start, lines, body, is_req, method }
}

fn set(w: &mut Wire, name: &str, v: String) {
    for l in w.lines.iter_mut() {
        if l.0 == name {
            l.1 = v.clone();
        }
    }
}

fn acceptance(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = base(s);
    let mut want = Verdict::Accept;
    let mut body_want: Option<Vec<u8>> = None;
    let mut raw_override: Option<Bytes> = None;
    let k = s.below(24);
    let name: String;
    match k {
        0 => {
            name = "unmodified".into();
        }
        1 => {
            // duplicate singleton, any spelling, same or other value
            let n = *s.pick(&["Call-ID", "CSeq", "From", "To", "Max-Forwards"]);
            let v0 = w.lines.iter().find(|l| l.0 == n).unwrap().1.clone();
            let v = if s.coin() { v0 } else if n == "CSeq" { format!("7 {}", w.method) } else { "1".into() };
            let spelled = match (n, s.below(3)) {
                ("Call-ID", 1) => "i".to_string(),
                ("From", 1) => "f".to_string(),
                ("To", 1) => "t".to_string(),
                (n, 0) => n.to_string(),
                (n, _) => recase(s, n),
            };
            let at = s.idx(w.lines.len() + 1);
            w.lines.insert(at, (spelled, v));
            want = Verdict::Reject;
            name = format!("duplicate {n}");
        }
        2 => {
            // conflicting Content-Length values
            let l = w.body.len();
            let other = loop {
                let o = s.below(40) as usize;
                if o != l {
                    break o;
                }
            };
            let sp = *s.pick(&["Content-Length", "l", "CONTENT-LENGTH"]);
            let at = s.idx(w.lines.len() + 1);
            w.lines.insert(at, (sp.into(), other.to_string()));
            want = Verdict::Reject;
            name = "conflicting Content-Length".into();
        }
        3 => {
            // body shorter than declared
            let extra = s.range(1, 1000) as usize;
            let v = (w.body.len() + extra).to_string();
            set(&mut w, "Content-Length", v);
            want = Verdict::Reject;
            name = "truncated body".into();
        }
        4 => {
            // body longer than declared: strict rejects, lenient takes the prefix
            if w.body.is_empty() {
                w.body.push(b'x');
            }
            let cut = s.idx(w.body.len());
            set(&mut w, "Content-Length", cut.to_string());
            body_want = Some(w.body[..cut].to_vec());
            want = Verdict::StrictOnly;
            name = "trailing bytes".into();
        }
        5 => {
            let v = *s.pick(&["67108865", "99999999999999999999999", "99999999999", "18446744073709551615", "4294967296"]);
            set(&mut w, "Content-Length", v.into());
            want = Verdict::Reject;
            name = "huge Content-Length".into();
        }
        6 => {
            // invalid CSeq number
            let n = s.pick(&["0", "2147483648", "4294967297", "99999999999999999999999", "-1", "+1", "1.0", "0x1", "", "a", "１"]).to_string();
            let v = format!("{n} {}", w.method);
            set(&mut w, "CSeq", v);
            want = Verdict::Reject;
            name = "bad CSeq number".into();
        }
        7 => {
            let m2 = loop {
                let m = g::method(s);
                if !m.eq_ignore_ascii_case(&w.method) {
                    break m;
                }
            };
            let v = match s.below(4) {
                0 | 1 => {
                    if !w.is_req {
                        // a response carries no method to compare with
                        want = Verdict::Accept;
                    } else {
                        want = Verdict::Reject;
                    }
                    format!("5 {m2}")
                }
                2 => {
                    want = Verdict::Reject;
                    "5".to_string()
                }
                _ => {
                    want = Verdict::Reject;
                    format!("5 {} extra", w.method)
                }
            };
            set(&mut w, "CSeq", v);
            name = "CSeq method".into();
        }
        8 => {
            // version
            let bad = s.pick(&["SIP/1.0", "SIP/3.0", "SIP/2.1", "HTTP/1.1", "SIP/2", "SIP/2.0x", "SIP 2.0", ""]).to_string();
            w.start = if w.is_req { w.start.rsplit_once(' ').map(|(a, _)| format!("{a} {bad}")).unwrap() } else { w.start.replacen("SIP/2.0", &bad, 1) };
            want = Verdict::Reject;
            name = "version".into();
        }
        9 => {
            if w.is_req {
                let bad = s.pick(&["IN(VITE", "INV\"ITE", "<", "A@B", "A,B", "Méthode", "A/B", "A:B"]).to_string();
                let u = w.start.split(' ').nth(1).unwrap().to_string();
                w.start = format!("{bad} {u} SIP/2.0");
                set(&mut w, "CSeq", format!("1 {bad}"));
            } else {
                let bad = s.pick(&["99", "700", "1000", "65536", "-200", "abc", "0", "20", "0200", "2 00"]).to_string();
                w.start = format!("SIP/2.0 {bad} OK");
            }
            want = Verdict::Reject;
            name = "method or status".into();
        }
        10 => {
            if w.is_req {
                let bad = s.pick(&["", "foo", "sip:", "sip:@", "sip:a@", "sip:a@h:99999", "sip:[::1", "tel:", "tel:abc", "1sip:a@h", "sip:a@h o"]).to_string();
                w.start = format!("{} {bad} SIP/2.0", w.method);
            } else {
                w.start = w.start.split(' ').next().unwrap().to_string();
            }
            want = Verdict::Reject;
            name = "URI or status missing".into();
        }
        11 => {
            // header line without colon, empty name, illegal name
            let bad = s.pick(&["garbage", ": v", "Na me: v", "Na(me: v", "Nàme: v", "a,b: v", "a@b: v", " folded", "\tfolded: x"]).to_string();
            let at = s.idx(w.lines.len() + 1);
            let mut o = format!("{}\r\n", w.start);
            for (i, (n, v)) in w.lines.iter().enumerate() {
                if i == at {
                    o += &format!("{bad}\r\n");
                }
                o += &format!("{n}: {v}\r\n");
            }
            if at == w.lines.len() {
                o += &format!("{bad}\r\n");
            }
            o += "\r\n";
            let mut b = o.into_bytes();
            b.extend_from_slice(&w.body);
            raw_override = Some(Bytes::from(b));
            want = Verdict::Reject;
            name = "bad header line".into();
        }
        12 => {
            // top Via branch
            let bad = s.pick(&["", "z9hG4bK", "z9hG4b", "abc", "z9hg4bkabc", "xz9hG4bKabc", "z9hG4bKa b", "z9hG4bKa\u{1}", "z9hG4bKa@b", "z9hG4bKa\"", "z9hG4bKé"]).to_string();
            let pre = if s.coin() { ";rport" } else { "" };
            set(&mut w, "Via", format!("SIP/2.0/UDP h{pre};branch={bad}"));
            want = if w.is_req { Verdict::Reject } else { Verdict::Accept };
            name = "top Via branch".into();
        }
        13 => {
            // several Via values in one header, or more headers: legal
            let (a, b) = (g::via(s), g::via(s));
            let sep = *s.pick(&[", ", ",", " , "]);
            set(&mut w, "Via", format!("{a}{sep}{b}"));
            name = "combined Via".into();
        }
        14 => {
            // header count limit is 200
            let n = if s.coin() { 200 } else { 201 + s.idx(3) };
            while w.lines.len() < n {
                w.lines.push(("X".into(), "1".into()));
            }
            if n > 200 {
                want = Verdict::Reject;
            }
            name = "header count".into();
        }
        15 => {
            // header value and name limits
            let over = s.coin();
            if s.coin() {
                w.lines.push(("X".into(), "v".repeat(if over { 8193 } else { 8192 })));
            } else {
                w.lines.push(("x".repeat(if over { 129 } else { 128 }), "1".into()));
            }
            if over {
                want = Verdict::Reject;
            }
            name = "header length".into();
        }
        16 => {
            // datagram size limit
            let over = s.coin();
            let len = w.bytes().len() - w.body.len();
            let target = if over { DEFAULT_MAX_MESSAGE_SIZE + 1 + s.idx(5) } else { DEFAULT_MAX_MESSAGE_SIZE - s.idx(5) - 5 };
            let n0 = target - len;
            w.body = vec![b'b'; n0];
            set(&mut w, "Content-Length", n0.to_string());
            // account for the digits added to Content-Length
            let excess = w.bytes().len() as i64 - target as i64;
            if excess > 0 {
                w.body.truncate(n0 - excess as usize);
                let l = w.body.len();
                set(&mut w, "Content-Length", l.to_string());
            }
            let total = w.bytes().len();
            want = if total > DEFAULT_MAX_MESSAGE_SIZE { Verdict::Reject } else { Verdict::Accept };
            name = "datagram size".into();
        }
        17 => {
            // non-UTF-8 head
            let b = w.bytes();
            let pos = b.windows(4).position(|x| x == b"\r\n\r\n").unwrap();
            let mut v = b.to_vec();
            let at = w.start.len() + 2 + s.idx(pos - w.start.len() - 2);
            v.insert(at, *s.pick(&[0xffu8, 0x80, 0xc3, 0xf8]));
            if std::str::from_utf8(&v[..pos + 1]).is_err() {
                want = Verdict::Reject;
                raw_override = Some(v.into());
            }
            name = "non-UTF-8 head".into();
        }
        18 => {
            // no Content-Length: lenient takes the rest; strict requires an empty body
            w.lines.retain(|l| l.0 != "Content-Length");
            body_want = Some(w.body.clone());
            want = if w.body.is_empty() { Verdict::Accept } else { Verdict::StrictOnly };
            name = "no Content-Length".into();
        }
        19 => {
            // repeated equal Content-Length is unambiguous
            let l = w.body.len().to_string();
            let at = s.idx(w.lines.len() + 1);
            w.lines.insert(at, (s.pick(&["Content-Length", "l", "content-length"]).to_string(), l));
            name = "repeated equal Content-Length".into();
        }
        20 => {
            // header value with CR, LF or NUL inside
            let c = *s.pick(&["\r", "\n", "\0"]);
            let v = format!("a{c}b");
            w.lines.push(("X-C".into(), v));
            want = Verdict::Reject;
            name = "control in value".into();
        }
        21 => {
            // method case-insensitivity of CSeq and start line; version case
            let m = recase(s, &w.method);
            set(&mut w, "CSeq", format!("{}{m}", s.pick(&["1 ", "1  ", "2147483647 ", "01 ", "1\t"])));
            w.start = w.start.replace("SIP/2.0", *s.pick(&["sip/2.0", "Sip/2.0", "SIP/2.0"]));
            name = "case variants".into();
        }
        22 => {
            // non-numeric Content-Length is never honoured as a length; strict mode refuses it
            let v = s.pick(&["abc", "", "-1", "1 2", "0x5", "5,5", "+5", "5;"]).to_string();
            set(&mut w, "Content-Length", v);
            body_want = Some(w.body.clone());
            want = Verdict::StrictOnly;
            name = "non-numeric Content-Length".into();
        }
        _ => {
            // empty or blank start
            let b = w.bytes();
            let mut v = s.pick(&["\r\n", "\r\n\r\n", " \r\n"]).as_bytes().to_vec();
            v.extend_from_slice(&b);
            raw_override = Some(v.into());
            want = Verdict::Reject;
            name = "blank first line".into();
        }
    }
    let wire = raw_override.unwrap_or_else(|| w.bytes());
    ctx.desc(|| format!("{name} ({want:?}): {}", String::from_utf8_lossy(&wire[..wire.len().min(1500)])));
    ctx.label(name.as_str());
    ctx.nontrivial(&wire[..]);
    let body = body_want.unwrap_or_else(|| w.body.clone());
    for strict in [false, true] {
        let (ok, b) = if w.is_req {
            let r = if strict { parse_request_strict(&wire) } else { parse_request(&wire) };
            (r.is_some(), r.map(|r| r.body().clone()))
        } else {
            let r = if strict { parse_response_strict(&wire) } else { parse_response(&wire) };
            (r.is_some(), r.map(|r| r.body().clone()))
        };
        let expect = match want {
            Verdict::Accept => true,
            Verdict::Reject => false,
            Verdict::StrictOnly => !strict,
        };
        ensure!(ok == expect, if expect { format!("wrongly-rejected:{name}") } else { format!("wrongly-accepted:{name}") },
            "{name}: strict={strict} accepted={ok}, expected {expect}");
        if let Some(b) = b {
            ensure!(b[..] == body[..], format!("body-extent:{name}"), "{name}: strict={strict} body {:?}, expected {:?}", b, body);
        }
    }
    Ok(())
}

/// Whatever bytes are accepted, the parsed message obeys the rules.
fn accepted_obeys(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = base(s);
    let b = w.bytes();
    let wire = Bytes::from(mutate(s, &b, 6));
    ctx.desc(|| String::from_utf8_lossy(&wire).to_string());
    for strict in [false, true] {
        let req = if strict { parse_request_strict(&wire) } else { parse_request(&wire) };
        let resp = if strict { parse_response_strict(&wire) } else { parse_response(&wire) };
        ensure!(req.is_none() || resp.is_none(), "both-kinds", "accepted both as request and as response");
        let Some((h, body)) = req.as_ref().map(|r| (r.headers(), r.body())).or(resp.as_ref().map(|r| (r.headers(), r.body()))) else { continue };
        ctx.nontrivial(&wire[..]);
        ctx.label(if strict { "accepted strict" } else { "accepted" });
        let pos = wire.windows(4).position(|x| x == b"\r\n\r\n").unwrap_or(wire.len());
        let rest = &wire[(pos + 4).min(wire.len())..];
        for n in ["Call-ID", "CSeq", "From", "To", "Max-Forwards"] {
            ensure!(h.iter().filter(|x| x.name().eq_ignore_ascii_case(n)).count() <= 1, "dup-singleton", "two {n} headers accepted");
        }
        ensure!(h.len() <= 200 && wire.len() <= DEFAULT_MAX_MESSAGE_SIZE, "limits", "limits exceeded");
        if let Some(c) = h.get("CSeq") {
            let p: Vec<&str> = c.split_whitespace().collect();
            ensure!(p.len() == 2 && p[0].bytes().all(|b| b.is_ascii_digit()) && p[0].parse::<u64>().is_ok_and(|n| (1..1u64 << 31).contains(&n)), "cseq", "CSeq {c:?} accepted");
            if let Some(r) = &req {
                ensure!(r.method().as_str().eq_ignore_ascii_case(p[1]), "cseq-method", "CSeq {c:?} accepted for {}", r.method());
            }
        }
        let cls: Vec<u64> = h.get_all("Content-Length").filter(|v| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit())).filter_map(|v| v.parse().ok()).collect();
        ensure!(cls.windows(2).all(|w| w[0] == w[1]), "cl-conflict", "conflicting Content-Length accepted: {cls:?}");
        if let Some(l) = cls.first() {
            ensure_eq!(body.len() as u64, *l, "body-extent", "body length vs Content-Length");
        } else {
            ensure!(!strict || body.is_empty(), "strict-no-cl", "strict parser accepted a body without Content-Length");
        }
        ensure!(rest.starts_with(body), "body-prefix", "body is not a prefix of the bytes after the head");
        if strict {
            ensure!(rest == &body[..], "strict-extent", "strict parser left bytes over");
        }
        if let Some(r) = &resp {
            ensure!((100..700).contains(&r.code()), "code-range", "status {}", r.code());
        }
        for x in h.iter() {
            ensure!(!x.value().contains(['\r', '\n', '\0']) && !x.name().is_empty() && x.name().chars().all(|c| c.is_ascii_graphic() && !"()<>@,;:\\\"/[]?={}".contains(c)), "header-shape", "header {:?}: {:?}", x.name(), x.value());
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let c01: Vec<Unit> = vec![
        unit!("roundtrip", 40_000, 1_500_000, roundtrip),
        unit!("spellings", 30_000, 1_000_000, spellings),
        unit!("fixed_point", 60_000, 2_000_000, fixed_point),
    ];
    let c02 = vec![unit!("acceptance", 60_000, 2_000_000, acceptance), unit!("accepted_obeys", 60_000, 2_000_000, accepted_obeys)];
    vec![
        Prop {
            id: "C01",
            rule: "A message is generated (method/URI or status/reason, 0-185 headers incl. compact, repeated, long and non-ASCII ones, text or binary body), built through the API or spelled on the wire in an equivalent way, or an accepted mutation of one; non-trivial: at least 4 headers and within the size limit (for fixed_point: accepted by the parser); distinct by wire bytes.",
            assumptions: &["header values are compared without surrounding whitespace and names case-insensitively with compact names expanded", "messages are within the documented limits (200 headers incl. the added Max-Forwards and Content-Length, 64 KiB)"],
            units: c01,
        },
        Prop {
            id: "C02",
            rule: "A well-formed datagram gets one of 24 labelled edits whose verdict (accept, reject, reject only in strict mode) follows from the stated rules, or random byte edits after which anything accepted must obey the rules; every labelled case counts as non-trivial, a random one if it is accepted; distinct by wire bytes.",
            assumptions: &["in lenient mode an unparsable Content-Length counts as absent"],
            units: c02,
        },
    ]
}
