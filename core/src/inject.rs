//! C04: nothing a caller passes to a constructor or setter adds or removes structure.
//!
//! Every unit feeds hostile strings to the public constructors. What a constructor accepts is
//! printed and read by the tokenizers below, which know nothing of the library; they must find
//! exactly the fields that were accepted.
use crate::bodies;
use crate::g;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

/// A valid value, a hostile string, or a valid value with something hostile put into it.
pub fn inj(s: &mut Src, valid: impl Fn(&mut Src) -> String) -> String {
    match s.weighted(&[5, 2, 4]) {
        0 => valid(s),
        1 => nasty(s, 0, 8),
        _ => {
            let v: Vec<char> = valid(s).chars().collect();
            let p = *s.pick(&[
                "\r\nX-Evil: 1", "\n", "\r", "\0", ";x=y", ";", "\"", ",", "<", ">", "?x=y", "&", "@", " ", "\t", "\\", "%", ":", "/", "=", "%0d%0a", "\u{85}", "\u{2028}", "\u{7f}", "\u{1}", "\r\n\r\nbody", "\r\na=evil", "\n ", "()", "[", "]", "{", "|", "#", "'",
                "é", "\u{feff}", "\\\"", "\u{b}", "^", "`", "+", "  ",
            ]);
            let i = match s.below(3) {
                0 => 0,
                1 => v.len(),
                _ => s.idx(v.len() + 1),
            };
            v[..i].iter().collect::<String>() + p + &v[i..].iter().collect::<String>()
        }
    }
}

// ---------------------------------------------------------------- tokenizers

/// One element of a header value.
#[derive(Debug, Clone, PartialEq, Default)]
struct Elem {
    /// text in front of the parameters, if it is not an address
    head: String,
    display: Option<String>,
    addr: Option<String>,
    params: Vec<(String, Option<String>)>,
}
impl Elem {
    fn head(h: &str) -> Elem {
        Elem { head: h.into(), ..Default::default() }
    }
    fn addr(a: &str) -> Elem {
        Elem { addr: Some(a.into()), ..Default::default() }
    }
    fn put(&mut self, n: &str, v: Option<&str>) {
        let n = n.to_ascii_lowercase();
        self.params.retain(|p| p.0 != n);
        self.params.push((n, v.map(|v| unquoted(v).unwrap_or_else(|| v.to_string()))));
    }
    fn sorted(mut self) -> Elem {
        if self.display.as_deref() == Some("") {
            self.display = None;
        }
        self.params.sort();
        self
    }
}
/// Content of a well-formed quoted string.
fn unquoted(v: &str) -> Option<String> {
    let mut it = v.strip_prefix('"')?.chars();
    let mut o = String::new();
    loop {
        match it.next()? {
            '"' => return if it.next().is_none() { Some(o) } else { None },
            '\\' => o.push(it.next()?),
            c if c.is_ascii_control() && c != '\t' => return None,
            c => o.push(c),
        }
    }
}
/// Splits at `sep` outside quotes and angle brackets.
fn split(v: &str, sep: char) -> Result<Vec<String>, String> {
    let mut out = vec![String::new()];
    let (mut q, mut esc, mut br) = (false, false, false);
    for c in v.chars() {
        if c.is_ascii_control() && c != '\t' {
            return Err(format!("control character {c:?}"));
        }
        if q {
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                q = false;
            }
        } else if br {
            match c {
                '>' => br = false,
                '<' | '"' | ' ' => return Err(format!("{c:?} inside brackets")),
                _ => {}
            }
        } else {
            match c {
                '"' => q = true,
                '<' => br = true,
                '>' => return Err("stray >".into()),
                c if c == sep => {
                    out.push(String::new());
                    continue;
                }
                _ => {}
            }
        }
        out.last_mut().unwrap().push(c);
    }
    if q || br {
        return Err("unbalanced".into());
    }
    Ok(out)
}
fn lws(v: &str) -> &str {
    v.trim_matches([' ', '\t'])
}
fn param(p: &str) -> Result<(String, Option<String>), String> {
    let (n, v) = match p.split_once('=') {
        Some((n, v)) => (lws(n), Some(lws(v))),
        None => (lws(p), None),
    };
    if n.is_empty() || n.chars().any(|c| c.is_whitespace() || "\"<>,;=\\()".contains(c)) {
        return Err(format!("parameter name {n:?}"));
    }
    let v = match v {
        None => None,
        Some(v) if v.starts_with('"') => Some(unquoted(v).ok_or(format!("quoted string {v:?}"))?),
        Some(v) if v.chars().any(|c| c.is_whitespace() || "\"<>,;".contains(c)) => return Err(format!("parameter value {v:?}")),
        Some(v) => Some(v.to_string()),
    };
    Ok((n.to_ascii_lowercase(), v))
}
/// Reads a header value: comma separated elements with `;` parameters.
fn tok(v: &str) -> Result<Vec<Elem>, String> {
    split(v, ',')?
        .iter()
        .map(|e| {
            let parts = split(e, ';')?;
            let h = lws(&parts[0]);
            let mut el = Elem::default();
            let mut q = (false, false);
            let at = h.char_indices().find(|(_, c)| {
                q = match (q, c) {
                    ((true, false), '\\') => (true, true),
                    ((a, false), '"') => (!a, false),
                    ((a, _), _) => (a, false),
                };
                !q.0 && *c == '<'
            });
            if let Some((d, rest)) = at.map(|x| (&h[..x.0], &h[x.0 + 1..])).filter(|_| h.ends_with('>')) {
                el.addr = Some(rest.strip_suffix('>').unwrap().to_string());
                let d = lws(d);
                if !d.is_empty() {
                    el.display = Some(if d.starts_with('"') { unquoted(d).ok_or(format!("display name {d:?}"))? } else if d.contains(['"', '\\']) { return Err(format!("display name {d:?}")) } else { d.to_string() });
                }
            } else if h.is_empty() {
                return Err("empty element".into());
            } else {
                el.head = match h.starts_with('"') {
                    true => unquoted(h).ok_or(format!("quoted string {h:?}"))?,
                    false => h.to_string(),
                };
            }
            for p in &parts[1..] {
                el.params.push(param(p)?);
            }
            Ok(el)
        })
        .collect()
}
fn judge(ctx: &mut Ctx, sig: &str, out: &str, want: Vec<Elem>, single: bool) -> R {
    ctx.desc(|| format!("{out:?}"));
    ctx.nontrivial(out);
    // headers that never hold a list keep their commas
    let got = if single { tok(&out.replace(',', "\u{2}").replace('\u{2}', "\u{e000}")) } else { tok(out) };
    let want: Vec<Elem> = want.into_iter().map(Elem::sorted).collect();
    match got {
        Err(e) => fail(format!("{sig}:malformed"), format!("{e}: printed {out:?} for {want:?}")),
        Ok(g) => {
            let back = |t: String| t.replace('\u{e000}', ",");
            let g: Vec<Elem> = g
                .into_iter()
                .map(|e| {
                    Elem { head: back(e.head), display: e.display.map(back), addr: e.addr.map(back), params: e.params.into_iter().map(|(a, b)| (back(a), b.map(back))).collect() }.sorted()
                })
                .collect();
            ensure_eq!(g, want, format!("{sig}:fields"), "printed {out:?}");
            // and it is one header line
            let mut h = Headers::new();
            match h.push("X", out) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{sig}:unusable"), format!("{out:?} cannot be a header value: {e}")),
            }
        }
    }
}
fn pname(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.pick(&["tag", "q", "id", "expires", "cause", "text", "lr", "Tag", "ID", "cid", "to-tag", "phone-context"]).to_string(),
        _ => inj(s, |s| ident(s, 1, 4)),
    }
}
fn pval(s: &mut Src) -> String {
    match s.below(5) {
        0 => s.pick(&["\"a b\"", "\"x\\\"y\"", "\"", "\"a\"b\"", "\"a;b\"", "\"\\\"", "[::1]", "a,b", "", "1.0", "\"\"", "a\\", "\"a\\\\\""]).to_string(),
        _ => inj(s, |s| token(s, 1, 5)),
    }
}
fn uri(s: &mut Src) -> SipUri {
    SipUri::parse(&g::sip_uri(s).wire()).unwrap_or_else(|_| SipUri::new("example.com").unwrap())
}

// ---------------------------------------------------------------- messages

fn message(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut h = Headers::new();
    let mut want: Vec<(String, String)> = vec![];
    for _ in 0..s.urange(1, 5) {
        let n = inj(s, |s| if s.coin() { format!("x{}", token(s, 1, 6)) } else { s.pick(&["Subject", "X-A", "Supported"]).to_string() });
        if g::expand(&n) != n {
            continue;
        }
        let v = inj(s, |s| text(s, 0, 8));
        let keep = want.clone();
        let before = h.clone();
        let at = want.iter().position(|w| w.0.eq_ignore_ascii_case(&n));
        let done = match s.below(5) {
            0 | 1 => {
                want.push((n.clone(), v.clone()));
                h.push(&n, &v).is_ok()
            }
            2 => match Header::new(&n, &v) {
                Ok(x) => {
                    want.push((n.clone(), v.clone()));
                    h.push_header(x).is_ok()
                }
                Err(_) => false,
            },
            3 => {
                match at {
                    Some(i) => want[i].1 = v.clone(),
                    None => want.push((n.clone(), v.clone())),
                }
                h.set_or_push(&n, &v).is_ok()
            }
            _ => match h.replace_first(&n, &v) {
                Ok(hit) => {
                    ensure_eq!(hit, at.is_some(), "replace_first", "replace_first({n:?})");
                    if let Some(i) = at {
                        want[i].1 = v.clone();
                    }
                    true
                }
                Err(_) => false,
            },
        };
        if !done {
            want = keep;
            ensure_eq!(h, before, "refused-changed", "a refused call changed the headers");
        }
    }
    if want.iter().any(|w| ["content-length", "l"].contains(&w.0.to_ascii_lowercase().as_str())) {
        return Ok(());
    }
    let body = bytes(s, 0, 6);
    if s.coin() {
        let reason = inj(s, |s| text(s, 0, 8));
        let Ok(st) = StatusLine::new(s.range(100, 699) as u16, &reason) else { return Ok(()) };
        let code = st.code();
        let Ok(r) = Response::new(st, h, body.clone().into()) else { return Ok(()) };
        let out = sip_parse::serialize_response(&r);
        lines(ctx, "response", &out, &format!("SIP/2.0 {code} {reason}"), &want, &body)?;
        match sip_parse::parse_response(&out) {
            Some(p) => {
                ensure_eq!(p.reason(), reason.trim(), "response:reparse", "reason of {:?}", String::from_utf8_lossy(&out));
                heads("response:reparse", p.headers(), &want, &out)
            }
            None => fail("response:reparse", format!("{:?}", String::from_utf8_lossy(&out))),
        }
    } else {
        let m = inj(s, g::method);
        let Ok(method) = Method::from_token(&m) else { return Ok(()) };
        let u = uri(s);
        let t = u.as_str().to_string();
        let Ok(r) = Request::new(RequestLine::new(method, Uri::Sip(u)), h, body.clone().into()) else { return Ok(()) };
        let out = sip_parse::serialize_request(&r);
        // a request always goes out with Max-Forwards
        if !want.iter().any(|w| w.0.eq_ignore_ascii_case("max-forwards")) {
            want.push(("Max-Forwards".into(), "70".into()));
        }
        lines(ctx, "request", &out, &format!("{m} {t} SIP/2.0"), &want, &body)?;
        match sip_parse::parse_request(&out) {
            Some(p) => heads("request:reparse", p.headers(), &want, &out),
            None => fail("request:reparse", format!("{:?}", String::from_utf8_lossy(&out))),
        }
    }
}
/// The octets, read line by line.
fn lines(ctx: &mut Ctx, sig: &str, out: &[u8], first: &str, want: &[(String, String)], body: &[u8]) -> R {
    ctx.desc(|| format!("{:?}", String::from_utf8_lossy(out)));
    ctx.nontrivial(out);
    let mut rest = out;
    let mut got = vec![];
    loop {
        let Some(i) = rest.windows(2).position(|w| w == b"\r\n") else { return fail(format!("{sig}:lines"), format!("{:?}", String::from_utf8_lossy(out))) };
        let l = std::str::from_utf8(&rest[..i]).unwrap_or("?").to_string();
        rest = &rest[i + 2..];
        if l.is_empty() {
            break;
        }
        ensure!(!l.contains(['\r', '\n', '\0']), format!("{sig}:bare-control"), "line {l:?}");
        got.push(l);
    }
    ensure_eq!(rest, body, format!("{sig}:body"), "body of {:?}", String::from_utf8_lossy(out));
    ensure_eq!(got[0].trim_end().to_ascii_uppercase(), first.trim_end().to_ascii_uppercase(), format!("{sig}:start-line"), "start line");
    let mut hs = vec![];
    for l in &got[1..] {
        ensure!(!l.starts_with([' ', '\t']), format!("{sig}:folded"), "line {l:?}");
        let Some((n, v)) = l.split_once(':') else { return fail(format!("{sig}:line"), format!("{l:?}")) };
        hs.push((n.to_string(), v.trim().to_string()));
    }
    let mut w: Vec<(String, String)> = want.iter().map(|(n, v)| (n.clone(), v.trim().to_string())).collect();
    if let Some(i) = hs.iter().position(|h| h.0.eq_ignore_ascii_case("content-length")) {
        ensure_eq!(hs[i].1, body.len().to_string(), format!("{sig}:length"), "Content-Length");
        hs.remove(i);
    }
    w.sort();
    hs.sort();
    ensure_eq!(hs, w, format!("{sig}:headers"), "octets {:?}", String::from_utf8_lossy(out));
    Ok(())
}
fn heads(sig: &str, h: &Headers, want: &[(String, String)], out: &[u8]) -> R {
    let mut g: Vec<(String, String)> = h.iter().map(|x| (g::expand(x.name()).to_ascii_lowercase(), x.value().trim().to_string())).filter(|x| x.0 != "content-length").collect();
    let mut w: Vec<(String, String)> = want.iter().map(|(n, v)| (g::expand(n).to_ascii_lowercase(), v.trim().to_string())).collect();
    g.sort();
    w.sort();
    ensure_eq!(g, w, sig, "octets {:?}", String::from_utf8_lossy(out));
    Ok(())
}

// ---------------------------------------------------------------- URIs

/// scheme, user, host, port, params, headers of a SIP URI, escapes decoded
type UriParts = (String, Option<String>, String, Option<String>, Vec<(String, Option<String>)>, Vec<(String, String)>);
fn pct(v: &str) -> String {
    let b = v.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&v[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn read_uri(t: &str) -> Result<UriParts, String> {
    if t.chars().any(|c| c.is_ascii_control() || c.is_ascii_whitespace() || "<>\"".contains(c)) {
        return Err("character that cannot stand in a URI".into());
    }
    let (sch, rest) = t.split_once(':').ok_or("scheme")?;
    let (rest, hs) = match rest.split_once('?') {
        Some((r, h)) => (r, h.split('&').map(|x| x.split_once('=').map(|(a, b)| (pct(a), pct(b))).ok_or("header")).collect::<Result<Vec<_>, _>>()?),
        None => (rest, vec![]),
    };
    // the user part may hold ; but not @
    let (user, rest) = match rest.split_once('@') {
        Some((u, r)) => (Some(pct(u)), r),
        None => (None, rest),
    };
    if rest.contains('@') {
        return Err("two @".into());
    }
    let mut ps = rest.split(';');
    let hp = ps.next().unwrap();
    let (host, port) = match hp.strip_prefix('[') {
        Some(r) => {
            let (h, p) = r.split_once(']').ok_or("bracket")?;
            (h.to_string(), p.strip_prefix(':').map(|p| p.to_string()))
        }
        None => match hp.split_once(':') {
            Some((h, p)) => (h.to_string(), Some(p.to_string())),
            None => (hp.to_string(), None),
        },
    };
    if port.as_ref().is_some_and(|p| p.is_empty() || p.chars().any(|c| !c.is_ascii_digit())) || host.contains([':', '[', ']']) && host.parse::<std::net::Ipv6Addr>().is_err() || host.is_empty() {
        return Err(format!("host {hp:?}"));
    }
    let mut params = vec![];
    for p in ps {
        let (n, v) = match p.split_once('=') {
            Some((n, v)) => (n, Some(v.to_string())),
            None => (p, None),
        };
        if n.is_empty() {
            return Err("empty parameter".into());
        }
        params.push((n.to_ascii_lowercase(), v));
    }
    params.sort();
    Ok((sch.into(), user, host.to_ascii_lowercase(), port, params, hs))
}
fn uris(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = inj(s, host);
    let Ok(mut u) = SipUri::new(h.as_str()) else { return Ok(()) };
    let bare = |h: &str| h.strip_prefix('[').and_then(|x| x.strip_suffix(']')).unwrap_or(h).to_ascii_lowercase();
    let (mut user, mut hst, mut port, mut ps) = (None, bare(&h), None, BTreeMap::new());
    for _ in 0..s.urange(1, 4) {
        match s.below(4) {
            0 => {
                let x = inj(s, |s| g::user(s).0);
                if let Ok(n) = u.clone().with_user(x.as_str()) {
                    u = n;
                    user = Some(x);
                }
            }
            1 => {
                let x = inj(s, host);
                if let Ok(n) = u.clone().with_host(x.as_str()) {
                    u = n;
                    hst = bare(&x);
                }
            }
            2 => {
                let p = s.range(1, 65535) as u16;
                if let Ok(n) = u.clone().with_port(p) {
                    u = n;
                    port = Some(p.to_string());
                }
            }
            _ => {
                let (n, v) = (pname(s), s.opt(3, 4, pval));
                if let Ok(x) = u.clone().with_param(n.as_str(), v.as_deref()) {
                    u = x;
                    ps.insert(n.to_ascii_lowercase(), v);
                }
            }
        }
    }
    let t = u.as_str().to_string();
    ctx.desc(|| t.clone());
    ctx.nontrivial(&t);
    match read_uri(&t) {
        Ok(r) => ensure_eq!(r, ("sip".to_string(), user, hst, port, ps.into_iter().collect(), vec![]), "uri:fields", "printed {t:?}"),
        Err(e) => return fail("uri:malformed", format!("{e}: {t:?}")),
    }
    // tel
    let global = s.coin();
    let n = inj(s, |s| if global { format!("+{}", digits(s, 1, 8)) } else { digits(s, 1, 8) });
    let Ok(mut u) = TelUri::new(n.as_str(), global) else { return Ok(()) };
    let mut e = Elem::head("");
    for _ in 0..s.urange(0, 3) {
        if s.chance(1, 3) {
            let c = inj(s, |s| hostname(s));
            if let Ok(x) = u.clone().with_phone_context(c.as_str()) {
                u = x;
                e.put("phone-context", Some(&c));
            }
        } else {
            let (n, v) = (pname(s), s.opt(3, 4, pval));
            if let Ok(x) = u.clone().with_parameter(n.as_str(), v.as_deref()) {
                u = x;
                e.put(&n, v.as_deref());
            }
        }
    }
    let t = u.as_str().to_string();
    let Some(r) = t.strip_prefix("tel:") else { return fail("tel:scheme", t) };
    let mut parts = r.split(';');
    let num = parts.next().unwrap().to_string();
    ensure!(num.chars().all(|c| c.is_ascii_hexdigit() || "+-.()*#".contains(c)) && !num.is_empty(), "tel:number", "printed {t:?}");
    let vis = |n: &str| n.chars().filter(|c| !"-.() ".contains(*c)).collect::<String>();
    ensure_eq!(vis(&num), vis(&n), "tel:number", "printed {t:?}");
    let mut got: Vec<(String, Option<String>)> = parts.map(|p| p.split_once('=').map(|(a, b)| (a.to_ascii_lowercase(), Some(b.to_string()))).unwrap_or((p.to_ascii_lowercase(), None))).collect();
    got.sort();
    ensure_eq!(got, e.sorted().params, "tel:params", "printed {t:?}");
    ensure!(!t.chars().any(|c| c.is_control() || c.is_whitespace() || "<>\"".contains(c)), "tel:unsafe", "printed {t:?}");
    Ok(())
}

// ---------------------------------------------------------------- header values

fn ops(s: &mut Src, e: &mut Elem, mut add: impl FnMut(&str, Option<&str>) -> bool) {
    for _ in 0..s.urange(0, 4) {
        let (n, v) = (pname(s), s.opt(4, 5, pval));
        if add(&n, v.as_deref()) {
            e.put(&n, v.as_deref());
        }
    }
}
fn addresses(s: &mut Src, ctx: &mut Ctx) -> R {
    let u = uri(s);
    let t = u.as_str().to_string();
    let d = s.opt(2, 3, |s| inj(s, |s| text(s, 0, 8)));
    match s.below(4) {
        0 => {
            // NameAddr through Route
            let mut m = BTreeMap::new();
            for _ in 0..s.urange(0, 3) {
                m.insert(SmolStr::new(pname(s)), s.opt(4, 5, |s| SmolStr::new(pval(s))));
            }
            let Ok(mut na) = NameAddr::new(d.as_deref().map(SmolStr::new), Uri::Sip(u), m.clone()) else { return Ok(()) };
            let mut e = Elem::addr(&t);
            e.display = d.filter(|d| !d.is_empty());
            for (n, v) in &m {
                e.put(n, v.as_deref());
            }
            ops(s, &mut e, |n, v| na.insert_param(n.into(), v.map(SmolStr::new)).is_ok());
            judge(ctx, "name-addr", &RouteHeader::new(na).to_string(), vec![e], false)
        }
        1 => {
            let mut p = PIdentity::from_uri(Uri::Sip(u));
            let mut e = Elem::addr(&t);
            if let Some(d) = d {
                if let Ok(x) = p.clone().with_display_name(&d) {
                    p = x;
                    e.display = Some(d);
                }
            }
            ops(s, &mut e, |n, v| p.add_param(n, v).is_ok());
            e.display = e.display.filter(|d| !d.is_empty());
            judge(ctx, "p-identity", &PAssertedIdentityHeader::new(vec![p]).unwrap().to_string(), vec![e], false)
        }
        2 => {
            let r = match &d {
                Some(d) => ReferredByHeader::with_name(d, &t),
                None => ReferredByHeader::new(&t),
            };
            let Ok(mut r) = r else { return Ok(()) };
            let mut e = Elem::addr(&t);
            e.display = d.filter(|d| !d.is_empty());
            if s.coin() {
                let c = inj(s, |s| format!("{}@{}", token(s, 1, 4), hostname(s)));
                if let Ok(x) = r.clone().with_cid(&c) {
                    r = x;
                    e.put("cid", None);
                    e.params.last_mut().unwrap().1 = Some(c.clone());
                }
            }
            for _ in 0..s.urange(0, 3) {
                let (n, v) = (pname(s), pval(s));
                if r.add_param(&n, &v).is_ok() {
                    e.put(&n, Some(&v));
                    if n == "cid" {
                        e.params.last_mut().unwrap().1 = Some(v);
                    }
                }
            }
            judge(ctx, "referred-by", &r.to_string(), vec![e], false)
        }
        _ => {
            let n = inj(s, |s| format!("+{}", digits(s, 3, 8)));
            let r = if s.coin() { PAssertedIdentityHeader::sip_and_tel(u, &n).map(|x| (x.to_string(), 2)) } else { PPreferredIdentityHeader::single_tel(&n).map(|x| (x.to_string(), 1)) };
            let Ok((out, k)) = r else { return Ok(()) };
            let got = tok(&out);
            ctx.desc(|| format!("{out:?}"));
            match got {
                Ok(g) if g.len() == k && g.iter().all(|e| e.params.is_empty() && e.display.is_none() && e.addr.is_some()) => Ok(()),
                g => fail("p-identity-tel:fields", format!("{n:?} printed {out:?}: {g:?}")),
            }
        }
    }
}
fn values(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.below(9) {
        0 => {
            let (t, b) = (inj(s, |s| s.pick(&["UDP", "TCP", "TLS", "WSS"]).to_string()), inj(s, |s| if s.coin() { host(s) } else { format!("{}:{}", host(s), s.range(1, 65535)) }));
            let Ok(mut v) = ViaHeader::new(t.as_str(), b.as_str()) else { return Ok(()) };
            let mut e = Elem::head("");
            ops(s, &mut e, |n, val| v.add_param(n, val).is_ok());
            ops(s, &mut e, |n, val| v.set_param(n, val).is_ok());
            let out = v.to_string();
            let head = out.split(';').next().unwrap_or("").to_string();
            let ok = head.strip_prefix("SIP/2.0/").and_then(|r| r.split_once(' ')).is_some_and(|(a, c)| a.eq_ignore_ascii_case(&t) && c.eq_ignore_ascii_case(&b) && !c.contains([' ', '\t']) && a.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c)));
            ensure!(ok, "via:head", "({t:?}, {b:?}) printed {out:?}");
            e.head = head;
            judge(ctx, "via", &out, vec![e], false)
        }
        1 => {
            let (a, b) = (inj(s, |s| s.pick(&["text", "application"]).to_string()), inj(s, |s| s.pick(&["plain", "sdp", "pidf+xml"]).to_string()));
            let Ok(mut m) = MimeType::new(&a, &b) else { return Ok(()) };
            let mut e = Elem::head(&format!("{a}/{b}").to_ascii_lowercase());
            let mut names = std::collections::HashSet::new();
            for _ in 0..s.urange(0, 3) {
                let (n, v) = (pname(s), pval(s));
                if m.add_param(&n, &v).is_ok() {
                    names.insert(n.clone());
                    e.put(&n, Some(&v));
                }
            }
            let out = m.to_string();
            let low = |t: &str| t.split_once(';').map(|(h, r)| format!("{};{r}", h.to_ascii_lowercase())).unwrap_or(t.to_ascii_lowercase());
            judge(ctx, "mime", &low(&out), vec![e.clone()], false)?;
            match out.parse::<MimeType>() {
                Ok(x) => ensure_eq!(x, m, "mime:reparse", "printed {out:?}"),
                Err(e) => return fail("mime:reparse", format!("{e:?}: printed {out:?}")),
            }
            Ok(())
        }
        2 => {
            let mut p = BTreeMap::new();
            for _ in 0..s.urange(0, 3) {
                p.insert(SmolStr::new(pname(s)), s.opt(4, 5, |s| SmolStr::new(pval(s))));
            }
            let proto = inj(s, |s| s.pick(&["SIP", "Q.850", "X-a"]).to_string());
            let (r, head) = if s.coin() {
                let t = s.opt(2, 3, |s| inj(s, |s| text(s, 0, 8)));
                p = [(SmolStr::new("cause"), Some(SmolStr::new("486")))].into();
                // without a text the standard phrase is used
                p.insert("text".into(), Some(t.clone().unwrap_or("Busy Here".into()).into()));
                (ReasonHeader::sip(486, t.as_deref()), "SIP".to_string())
            } else {
                (ReasonHeader::new(&proto, p.clone()), proto)
            };
            let Ok(r) = r else { return Ok(()) };
            let mut e = Elem::head("");
            for (n, v) in &p {
                e.put(n, v.as_deref());
                // the text is always quoted
                if n == "text" {
                    e.params.last_mut().unwrap().1 = v.as_ref().map(|v| v.to_string());
                }
            }
            let out = r.to_string();
            ensure!(out.len() >= head.len() && out.is_char_boundary(head.len()) && out[..head.len()].eq_ignore_ascii_case(&head), "reason:head", "{head:?} printed {out:?}");
            e.head = out[..head.len()].to_string();
            judge(ctx, "reason", &out, vec![e], false)
        }
        3 => {
            let (c, a, b) = (inj(s, |s| format!("{}@{}", token(s, 1, 6), hostname(s))), inj(s, |s| token(s, 1, 6)), inj(s, |s| token(s, 1, 6)));
            let Ok(r) = ReplacesHeader::new(&c, &a, &b) else { return Ok(()) };
            let early = s.coin();
            let mut e = Elem::head(&c);
            e.put("to-tag", Some(&a));
            e.put("from-tag", Some(&b));
            if early {
                e.put("early-only", None);
            }
            let out = r.with_early_only(early).to_string();
            if e.params.iter().any(|p| p.1.as_deref().is_some_and(|v| v.starts_with('"'))) {
                return fail("replaces:quoted", format!("tag {a:?}/{b:?}"));
            }
            // a Call-ID may hold quotes that quote nothing
            let mut parts = out.split(';');
            ensure_eq!(parts.next(), Some(c.as_str()), "replaces:call-id", "printed {out:?}");
            ensure!(!c.chars().any(|c| c.is_ascii_control() || ",; \t".contains(c)), "replaces:call-id", "printed {out:?}");
            judge(ctx, "replaces", &("x".to_string() + &out[c.len()..]), vec![Elem { head: "x".into(), ..e }], false)
        }
        4 => {
            let v: Vec<(String, String)> = s.vec(1, 3, |s| (inj(s, |s| ident(s, 1, 5)), inj(s, |s| s.range(0, 9).to_string())));
            let mut r = ResourcePriorityHeader::new();
            let mut want = vec![];
            for (a, b) in &v {
                if let Ok(x) = ResourcePriorityValue::new(a, b) {
                    if r.add_value(x).is_ok() {
                        want.push(Elem::head(&format!("{a}.{b}")));
                    }
                }
            }
            let out = r.to_string();
            if want.is_empty() {
                return Ok(());
            }
            for e in &want {
                ensure_eq!(e.head.matches('.').count(), 1, "resource-priority:dot", "printed {out:?}");
            }
            judge(ctx, "resource-priority", &out, want, false)
        }
        5 => {
            let m = match s.below(4) {
                0 => SecurityMechanism::Digest,
                1 => SecurityMechanism::Tls,
                2 => SecurityMechanism::IpsecIke,
                _ => match SecurityMechanism::parse(&inj(s, |s| token(s, 1, 5))) {
                    Ok(m) => m,
                    Err(_) => return Ok(()),
                },
            };
            let (mut x, mut e) = match s.below(3) {
                0 => {
                    let (a, q) = (pval(s), s.opt(1, 2, pval));
                    let Ok(x) = SecurityEntry::digest(&a, q.as_deref()) else { return Ok(()) };
                    let mut e = Elem::head("digest");
                    e.put("d-alg", Some(&a));
                    if let Some(q) = q {
                        e.put("d-qop", Some(&q));
                    }
                    (x, e)
                }
                1 => {
                    let (a, b, c) = (pval(s), pval(s), pval(s));
                    let Ok(x) = SecurityEntry::ipsec_ike(&a, &b, &c) else { return Ok(()) };
                    let mut e = Elem::head("ipsec-ike");
                    e.put("algorithm", Some(&a));
                    e.put("protocol", Some(&b));
                    e.put("mode", Some(&c));
                    (x, e)
                }
                _ => {
                    let e = Elem::head(m.as_str());
                    (SecurityEntry::new(m), e)
                }
            };
            ops(s, &mut e, |n, v| x.set_param(n, v).is_ok());
            let out = SecurityClientHeader::single(x).to_string();
            judge(ctx, "security", &out, vec![e], false)
        }
        6 => {
            let v: Vec<String> = s.vec(0, 4, |s| inj(s, |s| token(s, 1, 5)));
            let mut l = TokenList::new();
            let mut want = vec![];
            for t in &v {
                if l.add_token(t).is_ok() && !want.contains(&Elem::head(t)) {
                    want.push(Elem::head(t));
                }
            }
            if want.is_empty() {
                return Ok(());
            }
            let out = l.to_string();
            // a list may hold a token once or as often as it was added
            let mut got = tok(&out).map_err(|e| vlib::Fail { sig: "token-list:malformed".into(), msg: format!("{e}: {out:?}") })?;
            let mut seen: Vec<Elem> = vec![];
            got.retain(|g| {
                let new = !seen.contains(g);
                seen.push(g.clone());
                new
            });
            ctx.desc(|| out.clone());
            ctx.nontrivial(&out);
            ensure!(got.iter().all(|e| e.head.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c))), "token-list:token", "{out:?}");
            let low = |v: &[Elem]| v.iter().map(|e| e.head.trim().to_ascii_lowercase()).collect::<std::collections::BTreeSet<_>>();
            ensure_eq!(low(&got), low(&want), "token-list:fields", "printed {out:?}");
            Ok(())
        }
        7 => {
            let v = inj(s, |s| text(s, 0, 8));
            let out = match s.below(4) {
                0 => SubjectHeader::new(&v).map(|x| x.to_string()).ok(),
                1 => SipETagHeader::new(&v).map(|x| x.to_string()).ok(),
                2 => SipIfMatchHeader::new(&v).map(|x| x.to_string()).ok(),
                _ => DateHeader::new(&v).map(|x| x.to_string()).ok(),
            };
            let Some(out) = out else { return Ok(()) };
            ctx.desc(|| format!("{out:?}"));
            ctx.nontrivial(&out);
            ensure_eq!(lws(&out), lws(&v), "text-header:value", "value");
            ensure!(!out.contains(['\r', '\n', '\0']), "text-header:line-break", "{out:?}");
            let mut h = Headers::new();
            ensure!(h.push("Subject", &out).is_ok(), "text-header:unusable", "{out:?} cannot be a header value");
            Ok(())
        }
        _ => {
            // feature values travel as Contact parameters
            let mut c = capabilities::CapabilitySet::new();
            let mut e = Elem::addr("sip:a@example.com");
            let tags = [FeatureTag::Audio, FeatureTag::Class, FeatureTag::Description, FeatureTag::Methods, FeatureTag::Language, FeatureTag::Events];
            for _ in 0..s.urange(1, 4) {
                let tag = *s.pick(&tags);
                let v = inj(s, |s| token(s, 1, 5));
                match s.below(3) {
                    0 => {
                        if c.add_token(tag, v.as_str()).is_ok() {
                            e.put(tag.param_name(), Some(&v));
                        }
                    }
                    1 => {
                        let l = vec![v.clone(), inj(s, |s| token(s, 1, 4))];
                        if c.add_token_list(tag, l.iter().map(SmolStr::new).collect()).is_ok() {
                            e.put(tag.param_name(), None);
                            e.params.last_mut().unwrap().1 = Some(l.join(","));
                        }
                    }
                    _ => {
                        if c.add_string(tag, v.as_str()).is_ok() {
                            e.put(tag.param_name(), None);
                            e.params.last_mut().unwrap().1 = Some(v);
                        }
                    }
                }
            }
            let Ok(p) = c.to_params() else { return Ok(()) };
            let Ok(na) = NameAddr::new(None, Uri::parse("sip:a@example.com").unwrap(), p) else { return Ok(()) };
            let mut want = e.clone();
            want.params.sort();
            judge(ctx, "capabilities", &RouteHeader::new(na).to_string(), vec![want], false)
        }
    }
}
fn auth(s: &mut Src, ctx: &mut Ctx) -> R {
    let scheme = inj(s, |_| "Digest".into());
    let name = |s: &mut Src| if s.coin() { s.pick(&["realm", "nonce", "username", "uri", "qop", "nc", "opaque", "algorithm", "Realm", "stale"]).to_string() } else { pname(s) };
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    let r = if s.coin() {
        AuthorizationHeader::new(scheme.as_str())
    } else {
        let mut m = BTreeMap::new();
        for _ in 0..s.urange(0, 3) {
            m.insert(SmolStr::new(name(s)), SmolStr::new(pval(s)));
        }
        want = m.iter().map(|(a, b)| (a.to_ascii_lowercase(), b.to_string())).collect();
        if want.len() != m.len() {
            return match AuthorizationHeader::from_raw(SmolStr::new(&scheme), m) {
                Ok(h) => fail("auth:duplicate", format!("two parameters that differ in case only: {h}")),
                Err(_) => Ok(()),
            };
        }
        AuthorizationHeader::from_raw(SmolStr::new(&scheme), m)
    };
    let Ok(mut h) = r else { return Ok(()) };
    for _ in 0..s.urange(0, 4) {
        let (n, v) = (name(s), pval(s));
        let done = if s.coin() { h.add_param(n.as_str(), v.as_str()).is_ok() } else { h.add_param_overwrite(n.as_str(), v.as_str()).is_ok() };
        if done {
            want.insert(n.to_ascii_lowercase(), v);
        }
    }
    let out = h.to_string();
    ctx.desc(|| format!("{out:?}"));
    ctx.nontrivial(&out);
    let rest = match out.strip_prefix(scheme.as_str()) {
        Some(r) if !scheme.is_empty() && scheme.chars().all(|c| c.is_ascii_graphic() && !"()<>@,;:\\\"/[]?={}".contains(c)) => r,
        _ => return fail("auth:scheme", format!("{scheme:?} printed {out:?}")),
    };
    let mut got = BTreeMap::new();
    if !lws(rest).is_empty() {
        let ps = match split(rest, ',') {
            Ok(p) => p,
            Err(e) => return fail("auth:malformed", format!("{e}: {want:?} printed {out:?}")),
        };
        for p in ps {
            match param(&p) {
                Ok((n, Some(v))) => {
                    ensure!(got.insert(n.clone(), v).is_none(), "auth:repeated", "{n}: {out:?}");
                }
                x => return fail("auth:malformed", format!("{x:?}: {want:?} printed {out:?}")),
            }
        }
    }
    ensure_eq!(got, want, "auth:fields", "printed {out:?}");
    let mut hs = Headers::new();
    ensure!(hs.push("Authorization", &out).is_ok(), "auth:unusable", "{out:?}");
    Ok(())
}

// ---------------------------------------------------------------- SDP

/// Lines of a description.
fn sdp_lines(t: &str) -> Result<Vec<(char, String)>, String> {
    let mut out = vec![];
    let body = t.strip_suffix("\r\n").ok_or("no final line end")?;
    for l in body.split("\r\n") {
        if l.contains(['\r', '\n', '\0']) {
            return Err(format!("line {l:?}"));
        }
        let mut c = l.chars();
        match (c.next(), c.next()) {
            (Some(k), Some('=')) if k.is_ascii_lowercase() => out.push((k, c.as_str().to_string())),
            _ => return Err(format!("line {l:?}")),
        }
    }
    Ok(out)
}
/// What an infallible setter may do to a value: drop controls or turn them into spaces.
fn settled(v: &str) -> String {
    v.chars().map(|c| if c.is_control() { ' ' } else { c }).filter(|c| !c.is_whitespace()).collect()
}
/// Words of a field must stay single words.
fn word(v: &str) -> bool {
    !v.is_empty() && !v.chars().any(|c| c.is_whitespace() || c.is_control())
}
fn field(v: &str) -> bool {
    !v.is_empty() && !v.chars().any(|c| matches!(c, '\r' | '\n' | '\0'))
}
/// Name of an attribute: nothing the reader would take for the value.
fn aname(v: &str) -> bool {
    word(v) && !v.contains(':')
}
fn sdp_media(s: &mut Src, ctx: &mut Ctx, want: &mut Vec<(char, String)>) -> Result<sip_sdp::MediaDescription, vlib::Fail> {
    use sip_sdp::*;
    let port = s.num(65535) as u16;
    let mut m = if s.coin() { MediaDescription::audio(port) } else { MediaDescription::video(port) };
    let kind = if m.media_type == MediaType::Audio { "audio" } else { "video" };
    let mut fmts: Vec<String> = vec![];
    let mut conn = None;
    // attribute lines, with the payload type they belong to
    let mut at: Vec<(String, Option<u8>, String)> = vec![];
    for _ in 0..s.range(1, 7) {
        let pt = s.below(4) as u8 + 96;
        let mut bad = None;
        match s.below(9) {
            0 => {
                let v = inj(s, |s| token(s, 1, 4));
                if let Ok(n) = m.clone().add_format_token(&v) {
                    m = n;
                    if !word(&v) {
                        bad = Some(v.clone());
                    }
                    fmts.push(v);
                }
            }
            1 => {
                if let Ok(n) = m.clone().add_format(pt) {
                    m = n;
                    fmts.push(pt.to_string());
                }
            }
            k @ (2 | 3) => {
                let (name, rate) = (inj(s, |s| token(s, 1, 5)), *s.pick(&[8000u32, 16000, 90000]));
                let par = s.opt(1, 2, |s| inj(s, |_| "2".into()));
                let ok = if k == 2 {
                    match m.clone().add_rtpmap(pt, &name, rate, par.as_deref()) {
                        Ok(n) => {
                            m = n;
                            true
                        }
                        Err(_) => false,
                    }
                } else {
                    m.set_rtpmap(pt, &name, rate, par.as_deref()).is_ok()
                };
                if ok {
                    if !word(&name) || name.contains('/') || !par.as_deref().is_none_or(|p| word(p) && !p.contains('/')) {
                        bad = Some(format!("{name:?}/{par:?}"));
                    }
                    at.retain(|a| !(a.0 == "rtpmap" && a.1 == Some(pt)));
                    at.push(("rtpmap".into(), Some(pt), format!("rtpmap:{pt} {name}/{rate}{}", par.map(|p| format!("/{p}")).unwrap_or_default())));
                } else {
                    // a refused call leaves the section alone
                    ensure!(m.rtpmaps.contains_key(&pt) == at.iter().any(|a| a.0 == "rtpmap" && a.1 == Some(pt)), "sdp:refused", "a refused rtpmap changed the section: {m:?}");
                }
            }
            4 => {
                let v = inj(s, |s| format!("x{}", token(s, 1, 6)));
                let dir = s.coin();
                if let Ok(n) = if dir { m.clone().with_direction(&v) } else { m.clone().add_property(&v) } {
                    m = n;
                    if !aname(&v) {
                        bad = Some(v.clone());
                    }
                    at.push(("prop".into(), None, v));
                }
            }
            5 => {
                let (n, v) = (inj(s, |s| format!("x{}", token(s, 1, 6))), inj(s, |s| text(s, 1, 8)));
                if let Ok(x) = m.clone().add_attribute(&n, &v) {
                    m = x;
                    if !aname(&n) || !field(&v) {
                        bad = Some(format!("{n:?}: {v:?}"));
                    }
                    at.push(("attr".into(), None, format!("{n}:{v}")));
                }
            }
            6 => {
                let v = inj(s, |s| host(s));
                if let Ok(x) = m.clone().connection(&v) {
                    m = x;
                    if !word(&v) {
                        bad = Some(v.clone());
                    }
                    conn = Some(v);
                }
            }
            7 => {
                let v = inj(s, |s| format!("x=1;{}=2", ident(s, 1, 4)));
                m.set_fmtp(pt, &v);
                at.retain(|a| !(a.0 == "fmtp" && a.1 == Some(pt)));
                at.push(("fmtp".into(), Some(pt), format!("fmtp:{pt} {v}")));
            }
            _ => {
                let v = inj(s, |s| token(s, 1, 4));
                m.set_mid(&v);
                at.retain(|a| a.0 != "mid");
                at.push(("mid".into(), None, format!("mid:{v}")));
            }
        }
        if let Some(b) = bad {
            return Err(vlib::Fail { sig: "sdp:accepted".into(), msg: format!("accepted into a media section: {b:?}") });
        }
    }
    ctx.label("media");
    let fm = if fmts.is_empty() { "0".to_string() } else { fmts.join(" ") };
    want.push(('m', format!("{kind} {port} RTP/AVP {fm}")));
    if let Some(c) = conn {
        want.push(('c', format!("IN {} {c}", if c.contains(':') { "IP6" } else { "IP4" })));
    }
    for a in at {
        want.push(('a', a.2));
    }
    Ok(m)
}
fn sdp(s: &mut Src, ctx: &mut Ctx) -> R {
    use sip_sdp::builder::SessionDescriptionBuilder;
    let mut b = SessionDescriptionBuilder::new();
    let (mut origin, mut name) = ("- 0 0 IN IP4 0.0.0.0".to_string(), "-".to_string());
    let (mut info, mut conn, mut key): (Option<String>, Option<String>, Option<String>) = (None, None, None);
    let (mut zones, mut attrs): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let fresh = SessionDescriptionBuilder::new;
    for _ in 0..s.range(1, 6) {
        let mut bad = None;
        match s.below(7) {
            0 => {
                let (x, y, z) = (inj(s, |s| ident(s, 1, 5)), inj(s, |s| digits(s, 1, 6)), inj(s, |s| host(s)));
                if fresh().origin(&x, &y, &z).is_ok() {
                    b = b.origin(&x, &y, &z).unwrap();
                    if !(word(&x) && word(&y) && word(&z)) {
                        bad = Some(format!("origin {x:?} {y:?} {z:?}"));
                    }
                    origin = format!("{x} {y} 0 IN {} {z}", if z.contains(':') { "IP6" } else { "IP4" });
                }
            }
            1 => {
                let v = inj(s, |s| text(s, 1, 8));
                if fresh().session_name(&v).is_ok() {
                    b = b.session_name(&v).unwrap();
                    if !field(&v) {
                        bad = Some(v.clone());
                    }
                    name = v;
                }
            }
            2 => {
                let v = inj(s, |s| text(s, 1, 8));
                if fresh().session_info(&v).is_ok() {
                    b = b.session_info(&v).unwrap();
                    if !field(&v) {
                        bad = Some(v.clone());
                    }
                    info = Some(v);
                }
            }
            3 => {
                let v = inj(s, |s| host(s));
                if fresh().connection(&v).is_ok() {
                    b = b.connection(&v).unwrap();
                    if !word(&v) {
                        bad = Some(v.clone());
                    }
                    conn = Some(v);
                }
            }
            4 => {
                let (n, v) = (inj(s, |s| format!("x{}", token(s, 1, 6))), s.opt(2, 3, |s| inj(s, |s| text(s, 1, 8))));
                if fresh().attribute(&n, v.as_deref()).is_ok() {
                    b = b.attribute(&n, v.as_deref()).unwrap();
                    if !aname(&n) || !v.as_deref().is_none_or(field) {
                        bad = Some(format!("attribute {n:?} {v:?}"));
                    }
                    attrs.push(format!("{n}{}", v.map(|v| format!(":{v}")).unwrap_or_default()));
                }
            }
            5 => {
                let v = inj(s, |s| format!("clear:{}", token(s, 1, 6)));
                if fresh().encryption_key(&v).is_ok() {
                    b = b.encryption_key(&v).unwrap();
                    if !field(&v) {
                        bad = Some(v.clone());
                    }
                    key = Some(v);
                }
            }
            _ => {
                let (x, y) = (inj(s, |s| digits(s, 1, 6)), inj(s, |_| "-1h".into()));
                if fresh().time_zone_adjustment(&x, &y).is_ok() {
                    b = b.time_zone_adjustment(&x, &y).unwrap();
                    if !(word(&x) && word(&y)) {
                        bad = Some(format!("zone {x:?} {y:?}"));
                    }
                    zones.push(format!("{x} {y}"));
                }
            }
        }
        if let Some(x) = bad {
            return fail("sdp:accepted", format!("accepted: {x:?}"));
        }
    }
    let mut want = vec![('v', "0".to_string()), ('o', origin), ('s', name)];
    want.extend(info.map(|v| ('i', v)));
    want.extend(conn.map(|c| ('c', format!("IN {} {c}", if c.contains(':') { "IP6" } else { "IP4" }))));
    want.push(('t', "0 0".into()));
    if !zones.is_empty() {
        want.push(('z', zones.join(" ")));
    }
    want.extend(key.map(|v| ('k', v)));
    want.extend(attrs.into_iter().map(|v| ('a', v)));
    for _ in 0..s.below(3) {
        let m = sdp_media(s, ctx, &mut want)?;
        b = b.media(m).unwrap();
    }
    let text = b.build().serialize();
    ctx.desc(|| text.clone());
    if want.len() > 4 {
        ctx.nontrivial(&text);
    }
    sdp_same("sdp:lines", &text, &want)
}
fn sdp_same(sig: &str, text: &str, want: &[(char, String)]) -> R {
    let got = match sdp_lines(text) {
        Ok(g) => g,
        Err(e) => return fail(sig, format!("{e} in {text:?}, from {want:?}")),
    };
    ensure!(got.len() == want.len(), sig, "{} lines instead of {}: {text:?} from {want:?}", got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        ensure!(g.0 == w.0 && settled(&g.1) == settled(&w.1), sig, "line {g:?} instead of {w:?} in {text:?}");
    }
    Ok(())
}
/// The offer/answer engine of sip-core with hostile local settings.
fn answer(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut o = AnswerOptions::new();
    let (mut user, mut sid, mut addr) = (o.username().to_string(), o.session_id().to_string(), o.local_address().to_string());
    let v = inj(s, |s| ident(s, 1, 5));
    if let Ok(x) = o.clone().with_username(&v) {
        o = x;
        user = v;
    }
    let v = inj(s, |s| digits(s, 1, 5));
    if let Ok(x) = o.clone().with_session_id(&v) {
        o = x;
        sid = v;
    }
    let v = inj(s, |s| host(s));
    if let Ok(x) = o.clone().with_local_address(&v) {
        o = x;
        addr = v;
    }
    ensure!(word(&user) && word(&sid) && word(&addr), "answer:accepted", "accepted {user:?} {sid:?} {addr:?}");
    let (mut rtp, mut fmtp) = ("PCMU".to_string(), None);
    let mut codec = CodecInfo::new("PCMU", 8000, Some(1)).unwrap();
    let v = inj(s, |_| "PCMU".into());
    if let Ok(c) = CodecInfo::new(&v, 8000, Some(1)) {
        ensure!(word(&v) && !v.contains('/'), "answer:accepted", "codec name {v:?} accepted");
        codec = c;
        rtp = v;
    }
    if s.coin() {
        let v = inj(s, |_| "x=1;y=2".into());
        if let Ok(c) = codec.clone().with_fmtp(&v) {
            ensure!(field(&v) || v.is_empty(), "answer:accepted", "format parameters {v:?} accepted");
            codec = c;
            fmtp = Some(v);
        }
    }
    let Ok(o) = o.with_audio_codecs(vec![codec]) else { return Ok(()) };
    let engine = OfferAnswerEngine::new();
    let offer = sip_core::sdp::SdpSession::parse("v=0\r\no=a 1 1 IN IP4 192.0.2.9\r\ns=-\r\nc=IN IP4 192.0.2.9\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\na=rtpmap:0 PCMU/8000\r\n").unwrap();
    let Ok(ans) = engine.generate_answer(&offer, o) else { return Ok(()) };
    let text = ans.to_string();
    ctx.nontrivial(&text);
    ctx.desc(|| text.clone());
    let got = match sdp_lines(&text) {
        Ok(g) => g,
        Err(e) => return fail("answer:lines", format!("{e} in {text:?}")),
    };
    let at: String = if addr.contains(':') { "IP6".into() } else { "IP4".into() };
    for (k, v) in &got {
        match k {
            'v' | 's' | 't' | 'm' => {}
            'o' => {
                let w: Vec<&str> = v.split(' ').collect();
                ensure!(w.len() == 6 && w[0] == user && w[1] == sid && w[3] == "IN" && w[4] == at && w[5] == addr, "answer:origin", "{v:?} from {user:?} {sid:?} {addr:?}");
            }
            'c' => ensure!(*v == format!("IN {at} {addr}"), "answer:connection", "{v:?} from {addr:?}"),
            'a' => {
                let ok = ["sendrecv", "sendonly", "recvonly", "inactive"].contains(&v.as_str())
                    || v.eq_ignore_ascii_case(&format!("rtpmap:0 {rtp}/8000"))
                    || *v == format!("rtpmap:0 {rtp}/8000/1")
                    || v.eq_ignore_ascii_case("rtpmap:0 PCMU/8000")
                    || fmtp.as_ref().is_some_and(|f| *v == format!("fmtp:0 {f}"));
                ensure!(ok, "answer:attr", "attribute {v:?} in {text:?}, codec {rtp:?} {fmtp:?}");
            }
            _ => return fail("answer:lines", format!("unexpected line {k}={v} in {text:?}")),
        }
    }
    for k in ['v', 'o', 's', 't', 'm'] {
        ensure!(got.iter().filter(|l| l.0 == k).count() == 1, "answer:lines", "{k}= lines in {text:?}");
    }
    Ok(())
}
/// The event and messaging bodies, built from hostile strings.
fn body(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.below(6) {
        0 => bodies::pidf_build(s, ctx, true),
        1 => bodies::winfo_build(s, ctx, true),
        2 => bodies::reginfo_build(s, ctx, true),
        3 => bodies::mwi_build(s, ctx, true),
        4 => bodies::cpim_build(s, ctx, true),
        _ => bodies::sipfrag_build(s, ctx, true),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C04",
        rule: "a case is non-trivial when at least one hostile or valid value was accepted by a constructor and printed",
        assumptions: &["fields a program writes directly, and constructors documented as taking raw wire text, are outside the property"],
        units: vec![
            unit!("message", 20000, 2000000, message),
            unit!("uris", 20000, 2000000, uris),
            unit!("addresses", 20000, 2000000, addresses),
            unit!("values", 40000, 800000, values),
            unit!("auth", 20000, 2000000, auth),
            unit!("sdp", 20000, 2000000, sdp),
            unit!("answer", 10000, 200000, answer),
            unit!("body", 20000, 2000000, body),
        ],
    }]
}
