//! Domain generators with independent models: URIs, header names and values.
use vlib::gen::*;
use vlib::Src;

#[derive(Debug, Clone)]
pub struct UriM {
    pub sips: bool,
    pub scheme: String,
    /// (wire spelling, decoded)
    pub user: Option<(String, String)>,
    /// wire spelling, with brackets for IPv6
    pub host: String,
    pub port: Option<u16>,
    pub params: Vec<(String, Option<String>)>,
    pub headers: Vec<(String, String)>,
}
impl UriM {
    pub fn wire(&self) -> String {
        let mut o = format!("{}:", self.scheme);
        if let Some((w, _)) = &self.user {
            o += w;
            o.push('@');
        }
        o += &self.host;
        if let Some(p) = self.port {
            o += &format!(":{p}");
        }
        for (k, v) in &self.params {
            o += &format!(";{k}");
            if let Some(v) = v {
                o += &format!("={v}");
            }
        }
        if !self.headers.is_empty() {
            let h: Vec<String> = self.headers.iter().map(|(k, v)| format!("{k}={v}")).collect();
            o += &format!("?{}", h.join("&"));
        }
        o
    }
    /// Host as the library reports it: lower case, without brackets.
    pub fn host_plain(&self) -> String {
        self.host.trim_start_matches('[').trim_end_matches(']').to_ascii_lowercase()
    }
    pub fn params_map(&self) -> std::collections::BTreeMap<String, Option<String>> {
        self.params.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect()
    }
    pub fn headers_map(&self) -> std::collections::BTreeMap<String, String> {
        self.headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect()
    }
}

/// Userinfo characters that need no escape and that the library does not treat as delimiters.
const USER_PLAIN: &str = "abcXYZ019-_.!~*'()&=+$,";
/// Characters that may only appear escaped in the user part (and are legal once decoded).
const USER_ESC: &str = " \"<>%{}|\\^`éЖ中";

pub fn user(s: &mut Src) -> (String, String) {
    let mut w = String::new();
    let mut d = String::new();
    let plain: Vec<char> = USER_PLAIN.chars().collect();
    let esc: Vec<char> = USER_ESC.chars().collect();
    for _ in 0..s.urange(1, 8) {
        match s.weighted(&[8, 2, 1]) {
            0 => {
                let c = *s.pick(&plain);
                w.push(c);
                d.push(c);
            }
            1 => {
                let c = *s.pick(&esc);
                d.push(c);
                pct(s, &mut w, c);
            }
            _ => {
                // needlessly escaped plain character
                let c = *s.pick(&plain);
                d.push(c);
                pct(s, &mut w, c);
            }
        }
    }
    if s.chance(1, 6) {
        let p = alnum(s, 1, 4);
        w.push(':');
        w += &p;
        d.push(':');
        d += &p;
    }
    (w, d)
}
fn pct(s: &mut Src, w: &mut String, c: char) {
    let mut b = [0; 4];
    let up = s.coin();
    for x in c.encode_utf8(&mut b).bytes() {
        *w += &if up { format!("%{x:02X}") } else { format!("%{x:02x}") };
    }
}
const PARAMCHAR: &str = "abcXYZ019-_.!~*'()[]/:&+$";
pub fn param_value(s: &mut Src) -> String {
    let mut v = chars(s, PARAMCHAR, 1, 6);
    if s.chance(1, 5) {
        pct(s, &mut v, ';');
    }
    v
}
pub fn uri_param_name(s: &mut Src) -> String {
    if s.coin() {
        s.pick(&["transport", "lr", "maddr", "ttl", "user", "method", "ob", "comp"]).to_string()
    } else {
        token(s, 1, 8)
    }
}
pub fn sip_uri(s: &mut Src) -> UriM {
    let sips = s.chance(1, 5);
    let scheme = if sips { "sips" } else { "sip" };
    let mut seen = std::collections::HashSet::new();
    let params = s
        .vec(0, 4, |s| {
            let n = uri_param_name(s);
            (n, s.opt(2, 3, param_value))
        })
        .into_iter()
        .filter(|(k, _)| seen.insert(k.to_ascii_lowercase()))
        .collect();
    let mut seenh = std::collections::HashSet::new();
    let headers = if s.chance(1, 4) {
        s.vec(1, 3, |s| (ident(s, 1, 8), chars(s, "abcXYZ019-_.!~*'()[]/?:+$%", 0, 6).replace('%', "%25")))
            .into_iter()
            .filter(|(k, _)| seenh.insert(k.to_ascii_lowercase()))
            .collect()
    } else {
        vec![]
    };
    UriM {
        sips,
        scheme: scheme.to_string(),
        user: s.opt(3, 4, user),
        host: host(s),
        port: s.opt(1, 3, port),
        params,
        headers,
    }
}
pub fn tel_uri_simple(s: &mut Src) -> String {
    if s.coin() {
        format!("tel:+{}", digits(s, 1, 14))
    } else {
        format!("tel:{};phone-context=+{}", digits(s, 1, 8), digits(s, 1, 4))
    }
}
/// Any request URI in wire form.
pub fn any_uri(s: &mut Src) -> String {
    match s.weighted(&[8, 2, 1]) {
        0 => sip_uri(s).wire(),
        1 => tel_uri_simple(s),
        _ => format!("{}:{}", s.pick(&["urn", "http", "im", "pres", "x-y+z"]), chars(s, "abc019-_.:/@;=?&", 1, 12)),
    }
}

pub const METHODS: [&str; 14] = [
    "INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "INFO", "UPDATE", "MESSAGE", "PRACK", "REFER",
    "SUBSCRIBE", "NOTIFY", "PUBLISH",
];
pub fn method(s: &mut Src) -> String {
    if s.chance(1, 8) {
        loop {
            let n = if s.chance(1, 4) { 32 } else { 10 };
            let m = chars(s, "ABCXYZ0189-.!%*_+`'~", 1, n);
            if !METHODS.contains(&m.as_str()) {
                return m;
            }
        }
    } else {
        s.pick(&METHODS).to_string()
    }
}

/// Compact forms of RFC 3261 and the extensions registered with IANA.
pub const COMPACT: [(&str, &str); 19] = [
    ("i", "Call-ID"), ("f", "From"), ("t", "To"), ("m", "Contact"), ("l", "Content-Length"), ("s", "Subject"),
    ("k", "Supported"), ("o", "Event"), ("e", "Content-Encoding"), ("c", "Content-Type"), ("v", "Via"),
    ("r", "Refer-To"), ("b", "Referred-By"), ("d", "Request-Disposition"), ("x", "Session-Expires"),
    ("a", "Accept-Contact"), ("u", "Allow-Events"), ("j", "Reject-Contact"), ("y", "Identity"),
];
pub fn expand(name: &str) -> String {
    let l = name.to_ascii_lowercase();
    COMPACT.iter().find(|(c, _)| *c == l).map(|(_, n)| n.to_string()).unwrap_or_else(|| name.to_string())
}

pub fn branch(s: &mut Src) -> String {
    format!("z9hG4bK{}", token(s, 1, 12))
}
pub fn via(s: &mut Src) -> String {
    let mut v = format!("SIP/2.0/{} {}", s.pick(&["UDP", "TCP", "TLS", "WS"]), host(s));
    if let Some(p) = s.opt(1, 2, port) {
        v += &format!(":{p}");
    }
    if s.chance(1, 3) {
        v += ";rport";
    }
    v += &format!(";branch={}", branch(s));
    if s.chance(1, 4) {
        v += &format!(";received={}", ipv4(s));
    }
    v
}
pub fn name_addr(s: &mut Src) -> String {
    let u = sip_uri(s).wire();
    match s.weighted(&[3, 2, 2]) {
        0 => format!("<{u}>"),
        1 => format!("{} <{u}>", quote(&text(s, 0, 8))),
        _ => format!("{} {} <{u}>", token(s, 1, 6), token(s, 1, 6)),
    }
}
/// Header value text: anything but CR, LF, NUL.
pub fn hval(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => ascii_text(s, 0, 30),
        1 => text(s, 0, 20),
        2 => name_addr(s),
        _ => nasty(s, 0, 20).chars().filter(|c| !matches!(c, '\r' | '\n' | '\0')).collect(),
    }
}

// ------------------------------------------------------------------ message building
use sip_core::{Headers, Method, Request, RequestLine, Response, StatusLine, Uri};
pub fn hdrs(h: &[(&str, String)]) -> Headers {
    let mut x = Headers::new();
    for (k, v) in h {
        x.push(smol_str::SmolStr::new(k), smol_str::SmolStr::new(v)).unwrap_or_else(|e| panic!("harness header {k}: {v:?}: {e}"));
    }
    x
}
pub fn req(method: &str, uri: &str, h: &[(&str, String)], body: &[u8]) -> Request {
    let m: Method = method.parse().expect("harness method");
    let u = Uri::parse(uri).unwrap_or_else(|e| panic!("harness uri {uri:?}: {e}"));
    Request::new(RequestLine::new(m, u), hdrs(h), bytes::Bytes::copy_from_slice(body)).expect("harness request")
}
pub fn resp(code: u16, h: &[(&str, String)], body: &[u8]) -> Response {
    Response::new(StatusLine::new(code, "Some reason").expect("harness status"), hdrs(h), bytes::Bytes::copy_from_slice(body))
        .expect("harness response")
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..100_000 {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("harness: future never became ready")
}
