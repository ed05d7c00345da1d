//! C05: SIP URIs; C06: tel URIs.
use crate::g::{self, UriM};
use sip_core::{SipUri, TelUri, Uri};
use std::collections::BTreeMap;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

fn params(u: &SipUri) -> BTreeMap<String, Option<String>> {
    u.params().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect()
}
fn headers(u: &SipUri) -> BTreeMap<String, String> {
    u.headers().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
#[derive(Debug, Clone, PartialEq)]
struct View {
    sips: bool,
    user: Option<String>,
    host: String,
    port: Option<u16>,
    params: BTreeMap<String, Option<String>>,
    headers: BTreeMap<String, String>,
}
fn view(u: &SipUri) -> View {
    View {
        sips: u.is_sips(),
        user: u.user().map(|x| x.to_string()),
        host: u.host().to_ascii_lowercase(),
        port: u.port(),
        params: params(u),
        headers: headers(u),
    }
}
fn model_view(m: &UriM) -> View {
    View {
        sips: m.sips,
        user: m.user.as_ref().map(|u| u.1.clone()),
        host: m.host_plain(),
        port: m.port,
        params: m.params_map(),
        headers: m.headers_map(),
    }
}
fn diff(a: &View, b: &View, sig: &str, what: &str) -> R {
    ensure_eq!(a.sips, b.sips, format!("{sig}:scheme"), "{what} scheme");
    ensure_eq!(a.user, b.user, format!("{sig}:user"), "{what} user");
    ensure_eq!(a.host, b.host, format!("{sig}:host"), "{what} host");
    ensure_eq!(a.port, b.port, format!("{sig}:port"), "{what} port");
    ensure_eq!(a.params, b.params, format!("{sig}:params"), "{what} params");
    ensure_eq!(a.headers, b.headers, format!("{sig}:headers"), "{what} headers");
    Ok(())
}
fn reparse(u: &SipUri, sig: &str) -> R {
    let r = match SipUri::parse(u.as_str()) {
        Ok(r) => r,
        Err(e) => return fail(format!("{sig}:reparse"), format!("{:?} does not re-parse: {e}", u.as_str())),
    };
    diff(&view(&r), &view(u), &format!("{sig}:reparse"), &format!("re-parse of {:?}", u.as_str()))?;
    ensure_eq!(r.as_str(), u.as_str(), format!("{sig}:reparse"), "text");
    Ok(())
}

fn parse_model(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = g::sip_uri(s);
    if s.coin() {
        m.scheme = recase(s, &m.scheme);
    }
    if s.chance(1, 4) {
        m.host = recase(s, &m.host);
    }
    let w = m.wire();
    ctx.desc(|| w.clone());
    if m.params.len() + m.headers.len() >= 1 && m.user.is_some() {
        ctx.nontrivial(&w);
    }
    if m.user.as_ref().is_some_and(|u| u.0 != u.1) {
        ctx.label("escaped user");
    }
    if m.host.starts_with('[') {
        ctx.label("IPv6");
    }
    if !m.headers.is_empty() {
        ctx.label("URI headers");
    }
    if m.params.iter().any(|p| p.1.is_none()) {
        ctx.label("flag parameter");
    }
    let u = match SipUri::parse(&w) {
        Ok(u) => u,
        Err(e) => return fail("valid-rejected", format!("valid URI {w:?} rejected: {e}")),
    };
    diff(&view(&u), &model_view(&m), "parse", "parsed")?;
    ensure_eq!(u.as_str(), w.as_str(), "print", "as_str of a parsed URI");
    reparse(&u, "print")?;
    match Uri::parse(&w) {
        Ok(Uri::Sip(x)) => {
            ensure!(x == u, "uri-enum", "Uri::parse and SipUri::parse differ on {w:?}");
            let x = Uri::Sip(x);
            ensure!(x.to_string() == w && x.is_sip() && !x.is_tel() && x.as_sip() == Some(&u), "uri-enum", "Uri accessors on {w:?}");
            let y = x.clone().without_uri_headers();
            let mut mv = model_view(&m);
            mv.headers.clear();
            diff(&view(y.as_sip().unwrap()), &mv, "without_uri_headers", "without_uri_headers")?;
            reparse(y.as_sip().unwrap(), "without_uri_headers")?;
        }
        o => return fail("uri-enum:scheme", format!("Uri::parse({w:?}) = {o:?}")),
    }
    Ok(())
}

fn edits(s: &mut Src, ctx: &mut Ctx) -> R {
    let (mut u, mut v, w);
    if s.chance(1, 5) {
        let h = host(s).trim_start_matches('[').trim_end_matches(']').to_string();
        w = format!("new({h})");
        u = match SipUri::new(h.as_str()) {
            Ok(u) => u,
            Err(e) => return fail("new-rejected", format!("SipUri::new({h:?}): {e}")),
        };
        v = View { sips: false, user: None, host: h.to_ascii_lowercase(), port: None, params: BTreeMap::new(), headers: BTreeMap::new() };
    } else {
        let m = g::sip_uri(s);
        w = m.wire();
        u = match SipUri::parse(&w) {
            Ok(u) => u,
            Err(e) => return fail("valid-rejected", format!("valid URI {w:?} rejected: {e}")),
        };
        v = model_view(&m);
    }
    diff(&view(&u), &v, "start", "start")?;
    reparse(&u, "start")?;
    let mut log = vec![w];
    for _ in 0..s.urange(1, 5) {
        let k = s.below(7);
        let what;
        u = match k {
            0 => {
                let p = port(s);
                v.port = Some(p);
                what = format!("with_port({p})");
                u.with_port(p).map_err(|e| e.to_string())
            }
            1 => {
                v.port = None;
                what = "without_port".into();
                Ok(u.without_port())
            }
            2 => {
                let h = host(s).trim_start_matches('[').trim_end_matches(']').to_string();
                v.host = h.to_ascii_lowercase();
                what = format!("with_host({h})");
                u.with_host(h.as_str()).map_err(|e| e.to_string())
            }
            3 => {
                let (_, d) = g::user(s);
                v.user = Some(d.clone());
                what = format!("with_user({d:?})");
                u.with_user(d.as_str()).map_err(|e| e.to_string())
            }
            4 => {
                v.headers.clear();
                what = "without_uri_headers".into();
                Ok(u.without_uri_headers())
            }
            _ => {
                let n = g::uri_param_name(s);
                let val = s.opt(2, 3, g::param_value);
                v.params.insert(n.to_ascii_lowercase(), val.clone());
                what = format!("with_param({n},{val:?})");
                u.with_param(n.as_str(), val.as_deref()).map_err(|e| e.to_string())
            }
        }
        .map_err(|e| vlib::Fail { sig: format!("edit-rejected:{}", what.split('(').next().unwrap()), msg: format!("{what}: {e}") })?;
        log.push(what.clone());
        let op = what.split('(').next().unwrap().to_string();
        ctx.label(op.as_str());
        let v2 = v.clone();
        diff(&view(&u), &v2, &format!("edit:{op}"), &format!("after {log:?}"))?;
        reparse(&u, &format!("edit:{op}"))?;
    }
    ctx.desc(|| log.join(" -> "));
    if log.len() >= 3 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

fn malformed(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = g::sip_uri(s);
    let w = m.wire();
    let (name, bad) = match s.below(16) {
        0 => ("scheme", w.replacen(&m.scheme, *s.pick(&["sipx", "si", "http", "", "sip ", "tel"]), 1)),
        1 => ("no colon", w.replacen(':', "", 1).replace(':', "")),
        2 => {
            let mut x = m.clone();
            x.host = String::new();
            x.port = None;
            ("empty host", x.wire())
        }
        3 => {
            let mut x = m.clone();
            x.port = None;
            x.host = format!("{}:{}", x.host, s.pick(&["0", "65536", "99999", "-1", "abc", "+5060", "5060x", "50 60", "５"]));
            ("port", x.wire())
        }
        4 => {
            let mut x = m.clone();
            x.host = s.pick(&["[::1", "::1", "[gggg::1]", "[:::::]", "[1.2.3.4]", "[example.com]", "[::1]junk", "[::1]]", "[]", "[::1%eth0]", "1:2:3:4:5:6:7:8"]).to_string();
            x.port = None;
            ("IPv6", x.wire())
        }
        5 => {
            let mut x = m.clone();
            x.host = s.pick(&["a b.c", "a,b", "a\"b", "a(b", "exämple.com", "a<b", "a>b", "a%00b", "a%0ab", "h%zz\u{7f}"]).to_string();
            ("host chars", x.wire())
        }
        6 => {
            let mut x = m.clone();
            x.user = Some((String::new(), String::new()));
            ("empty user", x.wire())
        }
        7 => {
            let mut x = m.clone();
            x.user = Some(("a%ff%fe".into(), String::new()));
            ("non-UTF-8 escape", x.wire())
        }
        8 => {
            let mut x = m.clone();
            x.user = Some((format!("a{}b", s.pick(&["%0d%0a", "%00", "%7f", "%0A", "\r\n", "\t", "\0"])), String::new()));
            ("control in user", x.wire())
        }
        9 => {
            let mut x = m.clone();
            x.params.insert(0, (s.pick(&["a b", "", "é", "a\"", "a(b", "a<"]).to_string(), Some("v".into())));
            ("param name", x.wire())
        }
        10 => {
            let mut x = m.clone();
            x.params.push(("x".into(), Some(s.pick(&["a b", "a\r\nb", "a<b", "a>b", "a\"b", "a\tb"]).to_string())));
            ("param value", x.wire())
        }
        11 => {
            let mut x = m.clone();
            x.headers.push(("x".into(), s.pick(&["a b", "a\r\nb", "a>b", "a<b", "a\"b"]).to_string()));
            ("header value", x.wire())
        }
        12 => {
            let mut x = m.clone();
            x.params.push(("x".into(), Some("v".repeat(2048))));
            ("too long", x.wire())
        }
        13 => {
            let mut x = m.clone();
            x.params = (0..60).map(|i| (format!("p{i}"), None)).collect();
            ("too many params", x.wire())
        }
        14 => {
            let mut x = m.clone();
            x.user = Some((s.pick(&["a>b", "a<b", "a\"b", "a b", "a\u{a0}b", " a"]).to_string(), String::new()));
            ("delimiter in user", x.wire())
        }
        _ => ("double at", w.replacen(':', ":x@y@", 1)),
    };
    ctx.desc(|| format!("{name}: {bad:?}"));
    ctx.label(name);
    ctx.nontrivial(&bad);
    // "empty user" and "param name" variants that turn out valid are excluded by construction above
    if name == "param name" && bad.contains(";=v") {
        ensure!(SipUri::parse(&bad).is_err(), "malformed-accepted:param name", "{bad:?} accepted");
        return Ok(());
    }
    if let Ok(u) = SipUri::parse(&bad) {
        return fail(format!("malformed-accepted:{name}"), format!("{name}: {bad:?} accepted as {:?}", view(&u)));
    }
    if let Ok(u) = Uri::parse(&bad) {
        if u.is_sip() {
            return fail(format!("malformed-accepted:{name}"), format!("Uri::parse: {name}: {bad:?}"));
        }
    }
    Ok(())
}

/// URIs of other schemes are kept whole; what is no URI is refused.
fn absolute(s: &mut Src, ctx: &mut Ctx) -> R {
    let scheme = loop {
        let x = match s.below(3) {
            0 => s.pick(&["im", "pres", "urn", "http", "https", "mailto", "xmpp", "cid", "IM", "Http"]).to_string(),
            1 => format!("{}{}", s.pick(&["sipx", "siph", "tels", "s", "te"]), chars(s, "abz019+-.", 0, 5)),
            _ => format!("{}{}", chars(s, "abzABZ", 1, 1), chars(s, "abzABZ019+-.", 0, 9)),
        };
        if !["sip", "sips", "tel"].contains(&x.to_ascii_lowercase().as_str()) {
            break x;
        }
    };
    let rest = chars(s, "abcXYZ0189-_.!~*'()@:;/?#[]&=+$,%", 1, 24);
    let good = format!("{scheme}:{rest}");
    let (name, text, ok) = match s.below(6) {
        0..=2 => ("valid", good.clone(), true),
        3 => ("scheme", format!("{}:{rest}", s.pick(&["", "1a", "+a", "-a", ".a", "a b", "é", "aé", "a\u{661}", "a_b", "a%41", "a/b", "\u{430}b", "a\tb"])), false),
        4 => ("rest", format!("{scheme}:{}{}{rest}", chars(s, "ab", 0, 2), s.pick(&[" ", "<", ">", "\"", "\r\n", "\0", "\t", "\u{a0}", "\u{7f}"])), false),
        _ => ("empty", s.pick(&[scheme.clone(), format!("{scheme}:"), String::new(), ":".into(), format!(":{scheme}")]).to_string(), false),
    };
    ctx.label(name);
    ctx.desc(|| format!("{text:?}"));
    ctx.nontrivial(&text);
    match Uri::parse(&text) {
        Ok(u) => {
            ensure!(ok, format!("absolute:accepted:{name}"), "{text:?} accepted as {u:?}");
            ensure_eq!((u.is_absolute(), u.as_absolute(), u.as_str()), (true, Some(text.as_str()), text.as_str()), "absolute:value", "{text:?}");
            ensure!(u.as_sip().is_none() && u.as_tel().is_none() && !u.is_sip() && !u.is_tel(), "absolute:kind", "{text:?}");
            ensure_eq!(u.to_string(), text, "absolute:display", "");
            ensure_eq!(u.clone().without_uri_headers(), u, "absolute:without_uri_headers", "{text:?}");
        }
        Err(e) => ensure!(!ok, "absolute:rejected", "{text:?}: {e}"),
    }
    Ok(())
}

/// Any accepted text re-parses to itself, cannot break out of `<...>` or a request line, and edits keep that.
fn accepted(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = g::sip_uri(s).wire();
    let t = if s.coin() { String::from_utf8_lossy(&mutate(s, w.as_bytes(), 4)).to_string() } else { format!("sip:{}", nasty(s, 1, 20)) };
    ctx.desc(|| format!("{t:?}"));
    if let Ok(u) = SipUri::parse(&t) {
        ctx.nontrivial(&t);
        ctx.label("accepted");
        ensure!(!u.as_str().chars().any(|c| c.is_control() || c.is_whitespace() || matches!(c, '<' | '>' | '"')), "unsafe-text", "accepted URI {:?} carries delimiters", u.as_str());
        reparse(&u, "accepted")?;
        let v = view(&u);
        for (n, e) in [("with_port", u.clone().with_port(5070).ok()), ("without_port", Some(u.clone().without_port())), ("with_param", u.clone().with_param("zz9", Some("1")).ok())] {
            let Some(e) = e else { continue };
            let mut want = v.clone();
            match n {
                "with_port" => want.port = Some(5070),
                "without_port" => want.port = None,
                _ => {
                    want.params.insert("zz9".into(), Some("1".into()));
                }
            }
            diff(&view(&e), &want, &format!("accepted-edit:{n}"), n)?;
            reparse(&e, &format!("accepted-edit:{n}"))?;
        }
    }
    if let Ok(u) = Uri::parse(&t) {
        ensure!(!u.as_str().chars().any(|c| c.is_control() || c.is_whitespace()), "unsafe-text", "accepted URI {:?} carries whitespace", u.as_str());
        ensure!(Uri::parse(u.as_str()).as_ref() == Ok(&u), "accepted:uri-reparse", "{:?}", u.as_str());
    }
    Ok(())
}

/// Setters given arbitrary strings either refuse or store exactly that component.
fn hostile_edits(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = g::sip_uri(s);
    let u = SipUri::parse(&m.wire()).map_err(|e| vlib::Fail { sig: "valid-rejected".into(), msg: e.to_string() })?;
    let mut v = view(&u);
    let x = nasty(s, 0, 8);
    let (op, r) = match s.below(5) {
        0 => {
            v.user = Some(x.clone());
            ("with_user", u.with_user(x.as_str()))
        }
        1 => {
            v.host = x.to_ascii_lowercase();
            ("with_host", u.with_host(x.as_str()))
        }
        2 => {
            v.params.insert(x.to_ascii_lowercase(), None);
            ("with_param", u.with_param(x.as_str(), None::<&str>))
        }
        3 => {
            v = View { sips: false, user: None, host: x.to_ascii_lowercase(), port: None, params: BTreeMap::new(), headers: BTreeMap::new() };
            ("new", SipUri::new(x.as_str()))
        }
        _ => {
            v.params.insert("zz".into(), Some(x.clone()));
            ("with_param", u.with_param("zz", Some(x.as_str())))
        }
    };
    ctx.desc(|| format!("{} {op}({x:?})", m.wire()));
    if let Ok(u) = r {
        ctx.label(format!("accepted {op}"));
        ctx.nontrivial((m.wire(), op, &x));
        diff(&view(&u), &v, &format!("hostile:{op}"), op)?;
        reparse(&u, &format!("hostile:{op}"))?;
        ensure!(!u.as_str().chars().any(|c| c.is_control() || c.is_whitespace() || matches!(c, '<' | '>' | '"')), "hostile:unsafe-text", "{op}({x:?}) gives {:?}", u.as_str());
    } else {
        ctx.label(format!("refused {op}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

#[derive(Debug, Clone)]
struct TelM {
    scheme: String,
    /// as spelled
    number: String,
    global: bool,
    /// in wire order, phone-context included
    params: Vec<(String, Option<String>)>,
}
impl TelM {
    fn wire(&self) -> String {
        let mut o = format!("{}{}", self.scheme, self.number);
        for (k, v) in &self.params {
            o += &format!(";{k}");
            if let Some(v) = v {
                o += &format!("={v}");
            }
        }
        o
    }
    fn digits(&self) -> String {
        if self.global { self.number.chars().filter(|c| !" -.()".contains(*c)).collect() } else { self.number.replace(' ', "") }
    }
    fn context(&self) -> Option<String> {
        self.params.iter().find(|p| p.0.eq_ignore_ascii_case("phone-context")).and_then(|p| p.1.clone())
    }
}
fn domain(s: &mut Src) -> String {
    let n = s.urange(1, 3);
    (0..n).map(|_| label(s)).collect::<Vec<_>>().join(".")
}
fn context(s: &mut Src) -> String {
    if s.coin() { format!("+{}{}", digits(s, 1, 4), chars(s, "0123456789-.()", 0, 4)) } else { domain(s) }
}
fn tel_param(s: &mut Src) -> (String, Option<String>) {
    let n = if s.coin() { s.pick(&["ext", "isub", "npdi", "rn", "cic", "postd"]).to_string() } else { format!("x-{}", ident(s, 1, 6)) };
    (n, s.opt(3, 4, |s| chars(s, "abcXYZ019-_.!~*'()[]/:&+$%", 1, 8)))
}
fn tel(s: &mut Src) -> TelM {
    let global = s.coin();
    let number = if global {
        format!("+{}{}{}", chars(s, "-.() ", 0, 1).replace(' ', ""), digits(s, 1, 6), chars(s, "0123456789-.() ", 0, 12).trim_end())
    } else {
        format!("{}{}{}", chars(s, "0123456789*#ABCDabcd-.()", 0, 3), digits(s, 1, 4), chars(s, "0123456789*#ABCDabcd-.() ", 0, 6).trim_end())
    };
    let mut seen = std::collections::HashSet::new();
    let mut params: Vec<(String, Option<String>)> = s.many(0, 4, 14, tel_param).into_iter().filter(|p| seen.insert(p.0.clone())).collect();
    if !global {
        let n = if s.chance(1, 6) { recase(s, "phone-context") } else { "phone-context".into() };
        let at = s.idx(params.len() + 1);
        let c = context(s);
        params.insert(at, (n, Some(c)));
    }
    let scheme = if s.chance(1, 6) { recase(s, "tel:") } else { "tel:".into() };
    TelM { scheme, number, global, params }
}
fn tel_check(u: &TelUri, m: &TelM, sig: &str) -> R {
    ensure_eq!(u.number(), m.digits(), format!("{sig}:number"), "number");
    ensure_eq!(u.is_global(), m.global, format!("{sig}:scope"), "scope");
    ensure_eq!(u.phone_context().map(|x| x.to_string()), m.context(), format!("{sig}:context"), "phone-context");
    let got: BTreeMap<String, Option<String>> = u.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect();
    let want: BTreeMap<String, Option<String>> = m.params.iter().cloned().collect();
    ensure_eq!(got, want, format!("{sig}:params"), "parameters");
    ensure_eq!(u.to_string(), u.as_str(), format!("{sig}:display"), "Display");
    ensure!(!u.as_str().chars().any(|c| c.is_whitespace() || c.is_control() || "<>\"".contains(c)), format!("{sig}:unsafe"), "text {:?}", u.as_str());
    if !m.global && m.context().is_none() {
        return Ok(());
    }
    match TelUri::parse(u.as_str()) {
        Err(e) => fail(format!("{sig}:reparse"), format!("{:?} does not re-parse: {e}", u.as_str())),
        Ok(v) => {
            ensure_eq!((v.number(), v.is_global(), v.phone_context(), v.parameters()), (u.number(), u.is_global(), u.phone_context(), u.parameters()), format!("{sig}:reparse"), "re-parse of {:?}", u.as_str());
            ensure_eq!(v.as_str(), u.as_str(), format!("{sig}:reparse"), "text");
            Ok(())
        }
    }
}
fn tel_parse(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = tel(s);
    let w = m.wire();
    ctx.desc(|| w.clone());
    ctx.label(if m.global { "global" } else { "local" });
    if m.params.len() > 1 {
        ctx.nontrivial(&w);
    }
    let u = match TelUri::parse(&w) {
        Ok(u) => u,
        Err(e) => return fail("tel:valid-rejected", format!("{w:?}: {e}")),
    };
    tel_check(&u, &m, "tel:parse")?;
    ensure_eq!(u.as_str(), w.replace(' ', ""), "tel:print", "as_str");
    match Uri::parse(&w) {
        Ok(Uri::Tel(x)) if x == u => {}
        o => return fail("tel:uri-enum", format!("Uri::parse({w:?}) = {o:?}")),
    }
    // edits
    let mut u = u;
    for _ in 0..s.urange(0, 3) {
        let r = if s.chance(1, 4) && !m.global {
            let c = context(s);
            m.params.retain(|p| p.0 != "phone-context");
            if m.context().is_some() {
                return Ok(()); // spelled with another case: not edited
            }
            m.params.push(("phone-context".into(), Some(c.clone())));
            ctx.label("with_phone_context");
            if s.coin() { u.with_phone_context(c.as_str()) } else { u.with_parameter("phone-context", Some(c.as_str())) }
        } else {
            let (k, v) = tel_param(s);
            m.params.retain(|p| p.0 != k);
            m.params.push((k.clone(), v.clone()));
            ctx.label("with_parameter");
            u.with_parameter(k.as_str(), v.as_deref())
        };
        u = match r {
            Ok(u) => u,
            Err(e) => return fail("tel:edit-rejected", format!("edit of {w:?}: {e}")),
        };
        tel_check(&u, &m, "tel:edit")?;
    }
    Ok(())
}
fn tel_new(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = tel(s);
    ctx.desc(|| format!("{m:?}"));
    let u = match TelUri::new(m.number.as_str(), m.global) {
        Ok(u) => u,
        Err(e) => return fail("tel:new-rejected", format!("{:?}: {e}", m.number)),
    };
    ensure!(TelUri::new(m.number.as_str(), !m.global).is_err(), "tel:new-scope", "scope mismatch accepted for {:?}", m.number);
    ensure_eq!(u.as_str(), format!("tel:{}", m.number.replace(' ', "")), "tel:new-print", "new");
    if m.global {
        let Ok(v) = TelUri::parse(u.as_str()) else { return fail("tel:new-reparse", format!("{:?}", u.as_str())) };
        ensure_eq!(v.number(), m.digits(), "tel:new-reparse", "number");
        ensure!(u.clone().with_phone_context("+1").is_err(), "tel:global-context", "phone-context accepted on a global number");
    } else {
        let c = context(s);
        let v = u.with_phone_context(c.as_str()).map_err(|e| vlib::Fail { sig: "tel:edit-rejected".into(), msg: format!("{c:?}: {e}") })?;
        tel_check(&v, &TelM { params: vec![("phone-context".into(), Some(c))], ..m.clone() }, "tel:new")?;
    }
    ctx.nontrivial(&m.number);
    Ok(())
}
fn tel_malformed(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = tel(s);
    let name = match s.below(11) {
        0 => {
            m.scheme = s.pick(&["sip:", "tel", "", "te:", "tel;", "telx:"]).to_string();
            "scheme"
        }
        1 => {
            m.number = if m.global { "+".into() } else { s.pick(&["", "-", "()", "*", "#", "abcd"]).to_string() };
            "no digits"
        }
        2 => {
            let c = *s.pick(&["x", "@", "é", "\0", "\r\n", "%20", "<", "\"", "/", "?", "_", "+", "٣"]);
            let at = 1 + s.idx(m.number.len().max(1));
            let at = at.min(m.number.len());
            m.number.insert_str(at, c);
            "bad character"
        }
        3 => {
            m.number = if m.global { "+".to_string() + &"1".repeat(64) } else { "1".repeat(65) };
            "too long"
        }
        4 => {
            m.params.retain(|p| !p.0.eq_ignore_ascii_case("phone-context"));
            if m.global {
                m.params.push(("phone-context".into(), Some("+1".into())));
                "context on global"
            } else {
                "local without context"
            }
        }
        5 => {
            m = TelM { number: "123".into(), global: false, params: vec![("phone-context".into(), Some(s.pick(&["", "+", "+abc", "+-", ".a", "a..b", "a.", "-a.b", "a-.b", "a_b", "é.com", "a b", "+1;2x=\"", "a.b/c"]).to_string()))], ..m };
            "bad context"
        }
        6 => {
            m.params.push((s.pick(&["a b", "a\"", "a<", "a>", "a\r\nb", "a?"]).to_string(), None));
            "bad parameter name"
        }
        7 => {
            m.params.push(("x".into(), Some(s.pick(&["a b", "a\"b", "a<b", "a>b", "\r\n", "a?b"]).to_string())));
            "bad parameter value"
        }
        8 => {
            m.params.extend((0..25).map(|i| (format!("p{i}"), None)));
            "too many parameters"
        }
        9 => {
            m.params.push(("x".repeat(33), None));
            "long name"
        }
        _ => {
            m.params.push(("x".into(), Some("v".repeat(129))));
            "long value"
        }
    };
    // a '+' in front of a local number turns it into a global one; keep the defect only
    let w = m.wire();
    ctx.desc(|| format!("{name}: {w:?}"));
    ctx.label(name);
    ctx.nontrivial(&w);
    ensure!(TelUri::parse(&w).is_err(), format!("tel:malformed-accepted:{name}"), "{name}: {w:?} accepted");
    if !w.is_empty() && !matches!(name, "scheme") {
        ensure!(Uri::parse(&w).is_err(), format!("tel:malformed-accepted:{name}"), "{name}: Uri::parse({w:?}) accepted");
    }
    Ok(())
}
fn tel_hostile(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = tel(s);
    let Ok(u) = TelUri::parse(&m.wire()) else { return fail("tel:valid-rejected", m.wire()) };
    let x = nasty(s, 0, 8);
    let mut want: BTreeMap<String, Option<String>> = u.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect();
    let (k, v) = if s.coin() { (x.clone(), s.opt(1, 2, |_| "1".to_string())) } else { ("zz".to_string(), Some(x.clone())) };
    ctx.desc(|| format!("{} with_parameter({k:?},{v:?})", m.wire()));
    if k.eq_ignore_ascii_case("phone-context") {
        return Ok(());
    }
    if let Ok(e) = u.clone().with_parameter(k.as_str(), v.as_deref()) {
        ctx.nontrivial((m.wire(), &k, &v));
        want.retain(|n, _| !n.eq_ignore_ascii_case(&k));
        want.insert(k, v);
        let got: BTreeMap<String, Option<String>> = e.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect();
        ensure_eq!(got, want, "tel:hostile:params", "parameters");
        let Ok(r) = TelUri::parse(e.as_str()) else { return fail("tel:hostile:reparse", format!("{:?}", e.as_str())) };
        ensure_eq!((r.number(), r.parameters(), r.phone_context()), (e.number(), e.parameters(), e.phone_context()), "tel:hostile:reparse", "{:?}", e.as_str());
    }
    // whatever text is accepted prints to itself
    let b = m.wire();
    let t = String::from_utf8_lossy(&mutate(s, b.as_bytes(), 4)).to_string();
    if let Ok(u) = TelUri::parse(&t) {
        ctx.label("mutation accepted");
        ctx.nontrivial(&t);
        ensure!(!u.as_str().chars().any(|c| c.is_whitespace() || c.is_control() || "<>\"".contains(c)), "tel:unsafe", "text {:?}", u.as_str());
        let Ok(r) = TelUri::parse(u.as_str()) else { return fail("tel:accepted:reparse", format!("{:?}", u.as_str())) };
        ensure!(r == u, "tel:accepted:reparse", "{:?}", u.as_str());
        ensure!(u.is_global() == u.number().starts_with('+') && u.is_global() == u.phone_context().is_none(), "tel:scope", "{t:?}");
        ensure!(u.number().chars().any(|c| c.is_ascii_digit()), "tel:no-digits", "{t:?}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C06",
        rule: "tel URIs are generated with a model (global and local numbers with visual separators, phone-context, flag and value parameters in any order, scheme case), edited with setters, broken by one labelled defect or mutated; non-trivial: at least two parameters, any labelled malformation, any accepted mutation or hostile argument.",
        assumptions: &["parameter names are compared as spelled", "spaces are tolerated as visual separators on input and dropped"],
        units: vec![
            unit!("tel_parse", 200_000, 5_000_000, tel_parse),
            unit!("tel_new", 50_000, 1_000_000, tel_new),
            unit!("tel_malformed", 80_000, 1_000_000, tel_malformed),
            unit!("tel_hostile", 200_000, 5_000_000, tel_hostile),
        ],
    }, Prop {
        id: "C05",
        rule: "URIs are generated from the RFC 3261 grammar with a component model (escaped users, IPv4/IPv6/name hosts, flag and value parameters, URI headers, scheme and host case), edited by random sequences of setters with valid or hostile arguments, broken by one labelled defect, or mutated; non-trivial: user plus a parameter or header (parse), at least two edits, any labelled malformation, any accepted mutation or hostile argument.",
        assumptions: &["users containing a reserved delimiter (@ ; ? / # [ ]) after decoding are refused by design", "hosts are compared case-insensitively"],
        units: vec![
            unit!("parse_model", 150_000, 5_000_000, parse_model),
            unit!("edits", 100_000, 4_000_000, edits),
            unit!("malformed", 80_000, 1_000_000, malformed),
            unit!("absolute", 60_000, 2_000_000, absolute),
            unit!("accepted", 150_000, 5_000_000, accepted),
            unit!("hostile_edits", 150_000, 5_000_000, hostile_edits),
        ],
    }]
}
