//! C07: typed header values.
use crate::g;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use std::time::{Duration, SystemTime};
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

pub type Pm = Vec<(String, Option<String>)>;

pub fn ws(s: &mut Src) -> &'static str {
    *s.pick(&["", "", "", " ", "  "])
}
/// Unique (case-insensitively) parameter names with values from `val`.
pub fn pm(s: &mut Src, hi: usize, names: &[&str], val: fn(&mut Src) -> String) -> Pm {
    let mut seen = std::collections::HashSet::new();
    s.many(0, hi, if hi == 0 { 0 } else { hi.max(9) }, |s| {
        let n = if !names.is_empty() && s.coin() { s.pick(names).to_string() } else { token(s, 1, 8) };
        (n, s.opt(3, 4, val))
    })
    .into_iter()
    .filter(|(n, _)| seen.insert(n.to_ascii_lowercase()))
    .collect()
}
pub fn map(p: &Pm) -> BTreeMap<String, Option<String>> {
    p.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect()
}
pub fn vtoken(s: &mut Src) -> String {
    token(s, 1, 8)
}
/// Parameter value that may need quoting.
pub fn vtext(s: &mut Src) -> String {
    match s.weighted(&[3, 3, 1]) {
        0 => token(s, 1, 8),
        1 => text(s, 0, 10),
        _ => host(s),
    }
}
/// A value an API caller passes unquoted: not itself a quoted-string, which the library takes as such.
pub fn api_text(s: &mut Src) -> String {
    let v = vtext(s);
    if v.starts_with('"') { format!("x{v}") } else { v }
}
pub fn is_token(v: &str) -> bool {
    !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || TOKEN_EXTRA.contains(c))
}
/// Wire spelling of parameters: any case of the name, white space around ';' and '=', quoting.
pub fn wire(s: &mut Src, p: &Pm) -> String {
    let mut o = String::new();
    for (k, v) in p {
        let k = if s.chance(1, 3) { recase(s, k) } else { k.clone() };
        o += &format!("{};{}{k}", ws(s), ws(s));
        if let Some(v) = v {
            let v = if is_token(v) && !s.chance(1, 5) { v.clone() } else { quote(v) };
            o += &format!("{}={}{v}", ws(s), ws(s));
        }
    }
    o
}
fn om(p: &BTreeMap<SmolStr, Option<SmolStr>>) -> BTreeMap<String, Option<String>> {
    p.iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect()
}
fn im<'a>(p: impl Iterator<Item = (&'a str, Option<&'a str>)>) -> BTreeMap<String, Option<String>> {
    p.map(|(k, v)| (k.to_string(), v.map(|v| v.to_string()))).collect()
}
fn ss(v: &str) -> SmolStr {
    SmolStr::new(v)
}

// ------------------------------------------------------------------ Via

fn via(s: &mut Src, ctx: &mut Ctx) -> R {
    let transport = if s.coin() { s.pick(&["UDP", "TCP", "TLS", "WSS", "SCTP"]).to_string() } else { token(s, 1, 6) };
    let mut sent_by = host(s);
    if let Some(p) = s.opt(1, 2, port) {
        sent_by += &format!(":{p}");
    }
    // Via exposes parameter values as written
    let mut params = pm(s, 4, &["branch", "received", "rport", "maddr", "ttl", "alias"], |s| match s.weighted(&[4, 1, 2]) {
        0 => token(s, 1, 10),
        1 => host(s),
        _ => quote(&text(s, 0, 8)),
    });
    s.shuffle(&mut params);
    let sip = if s.chance(1, 4) { recase(s, "SIP") } else { "SIP".into() };
    let mut w = format!("{}{sip}/2.0/{transport}{}{sent_by}", ws(s), s.pick(&[" ", "  ", "\t"]));
    for (k, v) in &params {
        let k = if s.chance(1, 3) { recase(s, k) } else { k.clone() };
        w += &format!("{};{}{k}", ws(s), ws(s));
        if let Some(v) = v {
            w += &format!("{}={}{v}", ws(s), ws(s));
        }
    }
    ctx.desc(|| w.clone());
    if params.len() > 1 {
        ctx.nontrivial(&w);
    }
    let v = match ViaHeader::parse(&w) {
        Ok(v) => v,
        Err(e) => return fail("via:valid-rejected", format!("{w:?}: {e}")),
    };
    let want = map(&params);
    let check = |v: &ViaHeader, what: &str| -> R {
        ensure_eq!(v.transport(), transport, format!("via:{what}:transport"), "{what} of {w:?}: transport");
        ensure_eq!(v.sent_by(), sent_by, format!("via:{what}:sent-by"), "{what} of {w:?}: sent-by");
        ensure_eq!(om(v.params()), want, format!("via:{what}:params"), "{what} of {w:?}: params");
        for (k, x) in &want {
            let got = v.param(&k.to_uppercase()).map(|o| o.as_ref().map(|x| x.to_string()));
            ensure_eq!(got, Some(x.clone()), format!("via:{what}:param"), "{what} of {w:?}: param {k}");
        }
        Ok(())
    };
    check(&v, "parse")?;
    ensure!(sip_parse::parse_via_header(&ss(&w)).as_ref() == Some(&v), "via:sip_parse", "parse_via_header differs on {w:?}");
    let d = v.to_string();
    match ViaHeader::parse(&d) {
        Ok(r) => {
            check(&r, "round-trip")?;
            ensure!(r == v, "via:round-trip", "{w:?} printed as {d:?}");
        }
        Err(e) => return fail("via:round-trip", format!("{w:?} printed as {d:?}: {e}")),
    }
    // same value through the API
    let mut b = ViaHeader::new(transport.as_str(), sent_by.as_str()).map_err(|e| vlib::Fail { sig: "via:new".into(), msg: format!("{e}") })?;
    for (k, x) in &params {
        let r = match s.below(3) {
            0 => b.clone().with_param(k.as_str(), x.as_deref()).map(|n| b = n),
            1 => b.add_param(k.as_str(), x.as_deref()),
            _ => b.set_param(k.as_str(), x.as_deref()),
        };
        if let Err(e) = r {
            return fail("via:api-param", format!("param {k:?}={x:?}: {e}"));
        }
    }
    ensure!(b == v, "via:api", "API-built {b} differs from parsed {w:?}");
    if let Some((k, _)) = params.first() {
        ensure!(b.add_param(k.to_uppercase(), Some("z")).is_err(), "via:api-duplicate", "add_param accepted a duplicate {k}");
        ensure!(b.clone().with_param(k.as_str(), None::<&str>).is_err(), "via:api-duplicate", "with_param accepted a duplicate {k}");
        b.set_param(k.to_uppercase(), Some("zz")).ok();
        let mut w2 = want.clone();
        w2.insert(k.to_ascii_lowercase(), Some("zz".into()));
        ensure_eq!(om(b.params()), w2, "via:set_param", "set_param of existing {k}");
    }
    // labelled near misses
    let dupname = if params.is_empty() { "branch".to_string() } else { params[0].0.clone() };
    let bad = match s.below(12) {
        0 => format!("SIP/2.0/{transport}"),
        1 => format!("SIP/3.0/{transport} {sent_by}"),
        2 => format!("HTTP/2.0/{transport} {sent_by}"),
        3 => format!("SIP/2.0 {sent_by}"),
        4 => format!("SIP/2.0/{transport} {sent_by} x;branch=z"),
        5 => format!("SIP/2.0/{transport} {sent_by};{dupname}=1;{}=2", recase(s, &dupname)),
        6 => format!("SIP/2.0/{transport} host:{}", *s.pick(&["0", "65536", "99999999999", "", "5x", "-1", "+5"])),
        7 => format!("SIP/2.0/{transport} {}", ipv6(s)).replace("::", "1::2"),
        8 => format!("SIP/2.0/{transport} {sent_by};=x"),
        9 => format!("SIP/2.0/{transport} {sent_by};a\u{1}=x"),
        10 => format!("SIP/2.0/{transport} [::1;branch=x"),
        _ => format!("SIP/2.0/{} {sent_by}", s.pick(&["", "a b", "U@P", "UDP/x"])),
    };
    ensure!(ViaHeader::parse(&bad).is_err(), "via:invalid-accepted", "{bad:?} accepted");
    Ok(())
}

// ------------------------------------------------------------------ name-addr headers

#[derive(Clone, Debug)]
pub struct NaM {
    pub display: Option<String>,
    pub uri: String,
    pub params: Pm,
}
fn display_wire(s: &mut Src, d: &Option<String>) -> String {
    match d {
        None => String::new(),
        Some(d) => {
            let plain = d.split(' ').all(is_token) && !d.is_empty();
            if plain && s.coin() { d.clone() } else { quote(d) }
        }
    }
}
pub fn na_model(s: &mut Src, pnames: &[&str], headers: bool) -> NaM {
    let uri = match s.weighted(&[8, 1]) {
        0 => {
            let mut u = g::sip_uri(s);
            if !headers {
                u.headers.clear();
            }
            u.wire()
        }
        _ => g::tel_uri_simple(s),
    };
    let display = s.opt(2, 3, |s| match s.weighted(&[2, 2, 3]) {
        0 => token(s, 1, 6),
        1 => format!("{} {}", token(s, 1, 5), token(s, 1, 5)),
        _ => text(s, 0, 10),
    });
    NaM { display, uri, params: pm(s, 4, pnames, vtext) }
}
pub fn na_wire(s: &mut Src, m: &NaM) -> String {
    // the bare addr-spec form leaves no room for URI parameters
    if m.display.is_none() && !m.uri.contains([';', '?', ',']) && s.chance(1, 3) {
        return format!("{}{}", m.uri, wire(s, &m.params));
    }
    let d = display_wire(s, &m.display);
    let sp = if d.is_empty() || d.ends_with('"') { ws(s) } else { " " };
    format!("{d}{sp}<{}>{}", m.uri, wire(s, &m.params))
}
/// Equal text, or, where the library documents a rewrite (URI headers stripped), equal parts.
fn same_uri(got: &str, want: &str, rewritten: bool) -> bool {
    if got == want {
        return true;
    }
    let parts = |x: &str| {
        let u = SipUri::parse(x).ok()?;
        let p: BTreeMap<String, Option<String>> = u.params().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect();
        Some((u.is_sips(), u.user().map(|x| x.to_string()), u.host().to_string(), u.port(), p, u.headers().len()))
    };
    rewritten && parts(got).is_some() && parts(got) == parts(want)
}
fn na_check(n: &NameAddr, m: &NaM, uri: &str, sig: &str, w: &str) -> R {
    let disp = n.display_name().map(|d| d.to_string());
    ensure_eq!(disp, m.display, format!("{sig}:display"), "{sig} {w:?}: display name");
    ensure!(same_uri(n.uri().as_str(), uri, uri != m.uri), format!("{sig}:uri"), "{sig} {w:?}: URI {:?}, expected {uri:?}", n.uri().as_str());
    ensure_eq!(om(n.params_map()), map(&m.params), format!("{sig}:params"), "{sig} {w:?}: params");
    let it: BTreeMap<String, Option<String>> = n.params().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect();
    ensure_eq!(it, map(&m.params), format!("{sig}:params"), "{sig} {w:?}: params()");
    for (k, v) in &m.params {
        let got = n.get_param(&k.to_uppercase()).map(|o| o.as_ref().map(|x| x.to_string()));
        ensure_eq!(got, Some(v.clone()), format!("{sig}:get_param"), "{sig} {w:?}: get_param({k})");
    }
    Ok(())
}
fn strip_headers(u: &str) -> &str {
    if u.to_ascii_lowercase().starts_with("sip") { u.split('?').next().unwrap() } else { u }
}
fn some<T>(o: Option<T>, sig: &str, w: &str) -> Result<T, vlib::Fail> {
    o.ok_or_else(|| vlib::Fail { sig: format!("{sig}:valid-rejected"), msg: format!("{sig}: valid value {w:?} rejected") })
}

fn name_addr(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = na_model(s, &["tag", "q", "expires", "lr", "purpose", "+sip.instance"], true);
    let mut w = na_wire(s, &m);
    if s.chance(1, 4) {
        w = format!("{}{w}{}", ws(s), ws(s));
    }
    ctx.desc(|| w.clone());
    if m.display.is_some() && !m.params.is_empty() {
        ctx.nontrivial(&w);
    }
    if m.params.iter().any(|p| p.1.as_ref().is_some_and(|v| !is_token(v))) {
        ctx.label("quoted parameter");
    }
    // URI headers are documented as stripped from name-addr values
    let u = strip_headers(&m.uri).to_string();
    let v = ss(&w);
    let tag = map(&m.params).get("tag").cloned().flatten();
    let f = some(sip_parse::parse_from_header(&v), "From", &w)?;
    na_check(f.inner(), &m, &u, "From", &w)?;
    ensure_eq!(f.tag().map(|t| t.to_string()), tag, "From:tag", "From {w:?}: tag");
    let t = some(sip_parse::parse_to_header(&v), "To", &w)?;
    na_check(t.inner(), &m, &u, "To", &w)?;
    ensure_eq!(t.tag().map(|t| t.to_string()), tag, "To:tag", "To {w:?}: tag");
    let c = some(sip_parse::parse_contact_header(&v), "Contact", &w)?;
    na_check(c.inner(), &m, &u, "Contact", &w)?;
    ensure!(same_uri(c.uri().as_str(), &u, u != m.uri), "Contact:uri", "Contact {w:?}: uri()");
    na_check(some(sip_parse::parse_call_info_header(&v), "Call-Info", &w)?.inner(), &m, &u, "Call-Info", &w)?;
    let r = some(sip_parse::parse_route_header(&v), "Route", &w)?;
    na_check(r.inner(), &m, &u, "Route", &w)?;
    let has_lr = map(&m.params).contains_key("lr")
        || sip_core::Uri::parse(&m.uri).ok().and_then(|u| u.as_sip().map(|x| x.params().contains_key("lr"))).unwrap_or(false);
    ensure_eq!(r.has_lr(), has_lr, "Route:has_lr", "Route {w:?}: has_lr");
    ensure_eq!(r.param_count(), m.params.len(), "Route:param_count", "Route {w:?}: param_count");
    // the library's own RouteHeader keeps URI headers
    match RouteHeader::parse(&w) {
        Ok(r) => {
            na_check(r.inner(), &m, &m.uri, "RouteHeader", &w)?;
            // a value that is itself a quoted-string is taken as already quoted when printed
            if m.params.iter().any(|p| p.1.as_ref().is_some_and(|v| v.starts_with('"'))) {
                ctx.label("pre-quoted value");
                return Ok(());
            }
            let d = r.to_string();
            match RouteHeader::parse(&d) {
                Ok(x) => {
                    na_check(x.inner(), &m, &m.uri, "RouteHeader:round-trip", &d)?;
                    ensure!(x == r, "RouteHeader:round-trip", "{w:?} printed as {d:?}");
                }
                Err(e) => return fail("RouteHeader:round-trip", format!("{w:?} printed as {d:?}: {e}")),
            }
        }
        Err(e) => return fail("RouteHeader:valid-rejected", format!("{w:?}: {e}")),
    }
    // labelled near misses
    let bad = match s.below(9) {
        0 => format!("<{}", m.uri),
        1 => String::new(),
        2 => "\"x\" <>".to_string(),
        3 => "<sip:>".to_string(),
        4 => format!("<{}>;tag=1;{}=2", m.uri, recase(s, "tag")),
        5 => format!("\"a\u{7}b\" <{}>", m.uri),
        6 => format!("<{}>;=x", m.uri),
        7 => format!("<{}>;a b=x", m.uri),
        _ => format!("<{}>{}", m.uri, (0..65).map(|i| format!(";p{i}")).collect::<String>()),
    };
    let v = ss(&bad);
    ensure!(sip_parse::parse_from_header(&v).is_none(), "name-addr:invalid-accepted", "From {bad:?} accepted");
    ensure!(sip_parse::parse_contact_header(&v).is_none(), "name-addr:invalid-accepted", "Contact {bad:?} accepted");
    Ok(())
}

fn name_addr_api(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = na_model(s, &["lr", "tag", "q"], false);
    for p in m.params.iter_mut() {
        if let Some(v) = &mut p.1 {
            if v.starts_with('"') {
                *v = format!("x{v}");
            }
        }
    }
    ctx.desc(|| format!("{m:?}"));
    if m.display.is_some() && !m.params.is_empty() {
        ctx.nontrivial(format!("{m:?}"));
    }
    let uri = Uri::parse(&m.uri).map_err(|e| vlib::Fail { sig: "api:uri".into(), msg: format!("{e}") })?;
    let pmap: BTreeMap<SmolStr, Option<SmolStr>> = m.params.iter().map(|(k, v)| (ss(k), v.as_ref().map(|v| ss(v)))).collect();
    let n = match NameAddr::new(m.display.as_ref().map(|d| ss(d)), uri, pmap) {
        Ok(n) => n,
        Err(e) => return fail("NameAddr::new", format!("{m:?}: {e}")),
    };
    na_check(&n, &m, &m.uri, "NameAddr::new", "")?;
    let h = RouteHeader::new(n.clone());
    let d = h.to_string();
    let r = some(sip_parse::parse_route_header(&ss(&d)), "api-route", &d)?;
    na_check(r.inner(), &m, &m.uri, "api-route", &d)?;
    // insert_param
    let mut n2 = n.clone();
    let (k, v) = (token(s, 1, 5), s.opt(2, 3, vtoken));
    let before = map(&m.params).get(&k.to_ascii_lowercase()).cloned();
    match n2.insert_param(ss(&k), v.as_ref().map(|v| ss(v))) {
        Ok(prev) => {
            ensure_eq!(prev.map(|o| o.map(|x| x.to_string())), before, "insert_param:previous", "insert_param({k})");
            let mut w = map(&m.params);
            w.insert(k.to_ascii_lowercase(), v);
            ensure_eq!(om(n2.params_map()), w, "insert_param", "insert_param({k})");
        }
        Err(e) => return fail("insert_param", format!("{e}")),
    }
    // Service-Route / Path lists: several values, several fields
    let n_fields = s.urange(1, 3);
    let mut headers = Headers::new();
    let mut all: Vec<NaM> = vec![];
    let name = *s.pick(&["Service-Route", "Path", "Route", "Record-Route", "Call-Info"]);
    for _ in 0..n_fields {
        let ms = s.many(1, 3, 14, |s| na_model(s, &["lr"], false));
        let ws_: Vec<String> = ms.iter().map(|m| na_wire(s, m)).collect();
        let sep = *s.pick(&[", ", ",", " , "]);
        headers.push(name, ws_.join(sep)).map_err(|e| vlib::Fail { sig: "headers".into(), msg: format!("{e}") })?;
        all.extend(ms);
    }
    let list: Vec<NameAddr> = match name {
        "Service-Route" => match sip_parse::parse_service_route(&headers) {
            Ok(h) => {
                ensure_eq!(h.len(), all.len(), "Service-Route:len", "count");
                let alr = h.routes().iter().all(|r| r.get_param("lr").is_some() || r.sip_uri().is_some_and(|u| u.params().contains_key("lr")));
                ensure_eq!(h.all_loose_routing(), alr, "Service-Route:lr", "all_loose_routing");
                let d = h.to_string();
                let mut hs = Headers::new();
                hs.push(name, d.clone()).ok();
                let ok = all.iter().all(|m| m.params.iter().all(|p| !p.1.as_ref().is_some_and(|v| v.starts_with('"'))));
                if ok {
                    match sip_parse::parse_service_route(&hs) {
                        Ok(h2) => ensure!(h2 == h, "Service-Route:round-trip", "printed as {d:?}"),
                        Err(e) => return fail("Service-Route:round-trip", format!("{d:?}: {e}")),
                    }
                }
                h.routes().to_vec()
            }
            Err(e) => return fail("Service-Route:valid-rejected", format!("{headers:?}: {e}")),
        },
        "Path" => match sip_parse::parse_path(&headers) {
            Ok(h) => {
                let d = h.to_string();
                let mut hs = Headers::new();
                hs.push(name, d.clone()).ok();
                let ok = all.iter().all(|m| m.params.iter().all(|p| !p.1.as_ref().is_some_and(|v| v.starts_with('"'))));
                if ok {
                    match sip_parse::parse_path(&hs) {
                        Ok(h2) => ensure!(h2 == h, "Path:round-trip", "printed as {d:?}"),
                        Err(e) => return fail("Path:round-trip", format!("{d:?}: {e}")),
                    }
                }
                h.routes().to_vec()
            }
            Err(e) => return fail("Path:valid-rejected", format!("{headers:?}: {e}")),
        },
        "Call-Info" => sip_parse::parse_call_info_headers(&headers).iter().map(|h| h.inner().clone()).collect(),
        _ => sip_parse::parse_route_headers(&headers, name).into_iter().map(|h| h.into_inner()).collect(),
    };
    ensure_eq!(list.len(), all.len(), format!("{name}:count"), "{name} values in {headers:?}");
    for (n, m) in list.iter().zip(&all) {
        na_check(n, m, &m.uri, &format!("{name}:list"), &format!("{headers:?}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ Event, Subscription-State

fn event(s: &mut Src, ctx: &mut Ctx) -> R {
    let pkg = if s.coin() { s.pick(&["presence", "reg", "dialog", "refer", "presence.winfo"]).to_string() } else { token(s, 1, 10) };
    let id = s.opt(1, 2, vtoken);
    let params: Pm = pm(s, 3, &["shared", "call-id"], vtoken).into_iter().filter(|p| !p.0.eq_ignore_ascii_case("id")).collect();
    let mut all = params.clone();
    if let Some(i) = &id {
        let at = s.idx(all.len() + 1);
        all.insert(at, ("id".into(), Some(i.clone())));
    }
    let w = format!("{}{pkg}{}", ws(s), wire(s, &all));
    ctx.desc(|| w.clone());
    if all.len() > 1 {
        ctx.nontrivial(&w);
    }
    let e = some(sip_parse::parse_event_header(&ss(&w)), "Event", &w)?;
    ensure_eq!(e.package(), pkg, "Event:package", "Event {w:?}");
    ensure_eq!(e.id().map(|x| x.to_string()), id, "Event:id", "Event {w:?}");
    ensure_eq!(im(e.params()), map(&params), "Event:params", "Event {w:?}");
    let mut b = EventHeader::new(&pkg).map_err(|e| vlib::Fail { sig: "Event:new".into(), msg: format!("{e}") })?;
    if let Some(i) = &id {
        b = b.with_id(i).map_err(|e| vlib::Fail { sig: "Event:with_id".into(), msg: format!("{e}") })?;
    }
    for (k, v) in &params {
        if s.coin() {
            b = b.with_param(k, v.as_deref()).map_err(|e| vlib::Fail { sig: "Event:with_param".into(), msg: format!("{e}") })?;
        } else if let Err(e) = b.add_param(k, v.as_deref()) {
            return fail("Event:add_param", format!("{e}"));
        }
        ensure!(b.clone().with_param(&k.to_uppercase(), None).is_err(), "Event:duplicate", "duplicate {k} accepted");
        ensure!(b.get_param(&k.to_uppercase()).is_some(), "Event:get_param", "{k}");
    }
    ensure!(b == e, "Event:api", "API {b:?} differs from parsed {w:?}");
    let bad = match s.below(6) {
        0 => String::new(),
        1 => format!("{pkg};id=1;ID=2"),
        2 => format!("{pkg};x=1;X=2"),
        3 => format!("a b{}", wire(s, &params)),
        4 => format!("{pkg};id"),
        _ => format!("{pkg};a@b=1"),
    };
    ensure!(sip_parse::parse_event_header(&ss(&bad)).is_none(), "Event:invalid-accepted", "{bad:?} accepted");

    // Subscription-State
    let st = match s.below(4) {
        0 => "active".to_string(),
        1 => "pending".into(),
        2 => "terminated".into(),
        _ => token(s, 1, 8),
    };
    let params = pm(s, 3, &["reason", "expires", "retry-after"], vtoken);
    let w = format!("{}{}{}", ws(s), if s.chance(1, 3) { recase(s, &st) } else { st.clone() }, wire(s, &params));
    let h = some(sip_parse::parse_subscription_state(&ss(&w)), "Subscription-State", &w)?;
    let known = ["active", "pending", "terminated"].iter().find(|k| st.eq_ignore_ascii_case(k));
    match known {
        Some(k) => {
            let want = match *k {
                "active" => SubscriptionState::Active,
                "pending" => SubscriptionState::Pending,
                _ => SubscriptionState::Terminated,
            };
            ensure_eq!(*h.state(), want, "Subscription-State:state", "{w:?}");
            ensure_eq!(h.state().as_str(), *k, "Subscription-State:state", "{w:?}");
        }
        None => ensure!(h.state().as_str().eq_ignore_ascii_case(&st), "Subscription-State:state", "{w:?}: {:?}", h.state()),
    }
    ensure_eq!(im(h.params()), map(&params), "Subscription-State:params", "{w:?}");
    for (k, v) in &params {
        ensure_eq!(h.get_param(&k.to_uppercase()).map(|o| o.as_ref().map(|x| x.to_string())), Some(v.clone()), "Subscription-State:get_param", "{w:?}");
    }
    for bad in ["", ";reason=x", "active;a=1;A=2", "act ive"] {
        ensure!(sip_parse::parse_subscription_state(&ss(bad)).is_none(), "Subscription-State:invalid-accepted", "{bad:?} accepted");
    }
    Ok(())
}

// ------------------------------------------------------------------ numbers

fn badnum(s: &mut Src) -> String {
    s.pick(&["", "-1", "x", "1x", "0x10", "1.5", "4294967296", "99999999999999999999", "1 2", "٣"]).to_string()
}
fn numbers(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.below(3) {
        0 => s.range(80, 100),
        1 => s.range(86390, 86410),
        _ => s.num(u32::MAX as u64),
    } as u32;
    ctx.desc(|| format!("n={n}"));
    if n >= 80 {
        ctx.nontrivial(n);
    }
    let role = s.opt(2, 3, |s| if s.coin() { RefresherRole::Uas } else { RefresherRole::Uac });
    let mut ps: Pm = pm(s, 2, &[], vtoken).into_iter().filter(|p| !p.0.eq_ignore_ascii_case("refresher")).collect();
    if let Some(r) = role {
        let at = s.idx(ps.len() + 1);
        let v = if r == RefresherRole::Uac { "uac" } else { "uas" };
        let v = if s.chance(1, 3) { recase(s, v) } else { v.to_string() };
        ps.insert(at, ("refresher".into(), Some(v)));
    }
    let mut w = n.to_string();
    for (k, v) in &ps {
        let k = if s.chance(1, 3) { recase(s, k) } else { k.clone() };
        w += &format!("{};{}{k}", ws(s), ws(s));
        if let Some(v) = v {
            w += &format!("{}={}{v}", ws(s), ws(s));
        }
    }
    let p = SessionExpires::parse(&w);
    let ok = (90..=86400).contains(&n);
    ensure_eq!(p.is_some(), ok, "Session-Expires:range", "{w:?} accepted={}", p.is_some());
    ensure_eq!(sip_parse::parse_session_expires(&ss(&w)), p, "Session-Expires:sip_parse", "{w:?}");
    if let Some(p) = p {
        ensure_eq!(p.delta_seconds(), n, "Session-Expires:delta", "{w:?}");
        ensure_eq!(p.refresher(), role, "Session-Expires:refresher", "{w:?}");
        ensure!(p.is_valid(), "Session-Expires:is_valid", "{w:?}");
        ensure_eq!(SessionExpires::parse(&p.to_string()), Some(p.clone()), "Session-Expires:round-trip", "{p}");
        let mut b = SessionExpires::new(n).map_err(|e| vlib::Fail { sig: "Session-Expires:new".into(), msg: format!("{n}: {e:?}") })?;
        if let Some(r) = role {
            b = b.with_refresher(r);
        }
        ensure_eq!(b, p, "Session-Expires:api", "{w:?}");
    } else {
        ensure!(SessionExpires::new(n).is_err(), "Session-Expires:new", "new({n}) accepted");
    }
    let bad = badnum(s);
    ensure!(SessionExpires::parse(&bad).is_none(), "Session-Expires:invalid-accepted", "{bad:?}");

    let m = match s.below(3) {
        0 => s.range(80, 100),
        1 => s.range(7190, 7210),
        _ => s.num(u32::MAX as u64),
    } as u32;
    let ok = (90..=7200).contains(&m);
    let p = MinSessionExpires::parse(&format!("{}{m}{}", ws(s), ws(s)));
    ensure_eq!(p.is_some(), ok, "Min-SE:range", "{m}");
    ensure_eq!(MinSessionExpires::new(m).is_ok(), ok, "Min-SE:new", "{m}");
    if let Some(p) = p {
        ensure_eq!(p.delta_seconds(), m, "Min-SE:delta", "{m}");
        ensure_eq!(p.to_string(), m.to_string(), "Min-SE:print", "{m}");
        ensure_eq!(sip_parse::parse_min_se(&ss(&m.to_string())), Some(p), "Min-SE:sip_parse", "{m}");
    }
    ensure!(MinSessionExpires::parse(&bad).is_none(), "Min-SE:invalid-accepted", "{bad:?}");

    // RSeq, RAck
    let r = s.num(u32::MAX as u64) as u32;
    let okr = (1..=0x7fff_ffff).contains(&r);
    let p = RSeqHeader::parse(&format!("{}{r}{}", ws(s), ws(s)));
    ensure_eq!(p.is_ok(), okr, "RSeq:range", "{r}");
    ensure_eq!(sip_parse::parse_rseq_header(&ss(&r.to_string())).is_some(), okr, "RSeq:sip_parse", "{r}");
    if let Ok(p) = p {
        ensure_eq!(p.sequence(), r, "RSeq:value", "{r}");
        ensure_eq!(RSeqHeader::parse(&p.to_string()).ok(), Some(p), "RSeq:round-trip", "{r}");
        let nx = p.next();
        ensure_eq!(nx.as_ref().ok().map(|n| n.sequence()), if r < 0x7fff_ffff { Some(r + 1) } else { None }, "RSeq:next", "{r}");
    }
    ensure!(RSeqHeader::parse(&bad).is_err(), "RSeq:invalid-accepted", "{bad:?}");
    let c = s.range(1, 0x7fff_ffff) as u32;
    let me = g::method(s);
    let w = format!("{}{r}{}{c}{}{me}{}", ws(s), s.pick(&[" ", "  ", "\t"]), s.pick(&[" ", "  "]), ws(s));
    let p = RAckHeader::parse(&w);
    ensure_eq!(p.is_ok(), okr, "RAck:range", "{w:?} {p:?}");
    ensure_eq!(sip_parse::parse_rack_header(&ss(&w)), p.clone().ok(), "RAck:sip_parse", "{w:?}");
    if let Ok(p) = p {
        ensure!(p.rseq() == r && p.cseq_number() == c && p.cseq_method().as_str() == me, "RAck:value", "{w:?}: {p:?}");
        ensure_eq!(RAckHeader::parse(&p.to_string()).ok(), Some(p.clone()), "RAck:round-trip", "{p}");
        ensure_eq!(p.to_string(), format!("{r} {c} {me}"), "RAck:print", "{w:?}");
    }
    for bad in [format!("{r} {c}"), format!("{r} {me}"), format!("{r} {c} {me} x"), format!("0 {c} {me}"), format!("x {c} {me}"), format!("1 {bad} {me}"), "1 2147483648 ACK".into(), String::new()] {
        ensure!(RAckHeader::parse(&bad).is_err(), "RAck:invalid-accepted", "{bad:?}");
    }

    // Max-Forwards
    let mut h = Headers::new();
    let extra = s.coin();
    if extra {
        h.push("Subject", "x").ok();
    }
    let mf = s.opt(5, 6, |s| if s.chance(1, 5) { badnum(s) } else { s.num(300).to_string() });
    if let Some(m) = &mf {
        h.push(recase(s, "Max-Forwards"), m.clone()).ok();
    }
    let before = h.clone();
    let r = decrement_max_forwards(&mut h);
    match mf.as_ref().map(|m| m.trim().parse::<u32>().ok().filter(|_| m.trim().bytes().all(|b| b.is_ascii_digit()))) {
        None => {
            ensure_eq!(r, Ok(69), "Max-Forwards:absent", "{before:?}");
            ensure_eq!(h.get("Max-Forwards").map(|x| x.to_string()), Some("69".into()), "Max-Forwards:absent", "{before:?}");
        }
        Some(Some(0)) => {
            ensure_eq!(r, Err(MaxForwardsError::Exhausted), "Max-Forwards:zero", "{before:?}");
            ensure!(h == before, "Max-Forwards:zero", "headers changed");
        }
        Some(Some(n)) if n <= 255 => {
            ensure_eq!(r, Ok(n - 1), "Max-Forwards:decrement", "{before:?}");
            let want = (n - 1).to_string();
            ensure_eq!(h.get("Max-Forwards").map(|x| x.to_string()), Some(want), "Max-Forwards:decrement", "{before:?}");
            ensure_eq!(h.len(), before.len(), "Max-Forwards:decrement", "header count");
        }
        _ => {
            ensure_eq!(r, Err(MaxForwardsError::Invalid), "Max-Forwards:invalid", "{before:?}");
            ensure!(h == before, "Max-Forwards:invalid", "headers changed");
        }
    }
    // branch validity
    let br = match s.below(5) {
        0 => g::branch(s),
        1 => "z9hG4bK".into(),
        2 => format!("z9hG4bk{}", token(s, 1, 5)),
        3 => format!("z9hG4bK{}{}", token(s, 0, 5), s.pick(&[" ", ";", "\"", "é", "\r", "@"])),
        _ => format!("z9hG4bK{}", "a".repeat(s.urange(245, 252))),
    };
    let want = br.len() > 7 && br.len() <= 256 && br.starts_with("z9hG4bK") && is_token(&br);
    ensure_eq!(is_valid_branch(&br), want, "is_valid_branch", "{br:?}");
    Ok(())
}

// ------------------------------------------------------------------ Replaces, Referred-By, Reason

fn callid(s: &mut Src) -> String {
    let a = chars(s, "abcXYZ019-.!%*_+`'~()<>:\\\"/[]?{}", 1, 10);
    if s.coin() { format!("{a}@{}", hostname(s)) } else { a }
}
fn replaces(s: &mut Src, ctx: &mut Ctx) -> R {
    let (c, t, f, eo) = (callid(s), token(s, 1, 8), token(s, 1, 8), s.coin());
    let mut parts = vec![format!("{}{}to-tag{}={}{t}", ws(s), "", ws(s), ws(s)), format!("{}from-tag{}={}{f}", ws(s), ws(s), ws(s))];
    if eo {
        parts.push(format!("{}early-only{}", ws(s), ws(s)));
    }
    s.shuffle(&mut parts);
    if s.chance(1, 3) {
        parts = parts.iter().map(|p| match p.split_once('=') {
            Some((k, v)) => format!("{}={v}", recase(s, k)),
            None => recase(s, p),
        }).collect();
    }
    let w = format!("{}{c}{};{}", ws(s), ws(s), parts.join(";"));
    ctx.desc(|| w.clone());
    ctx.nontrivial(&w);
    let r = match ReplacesHeader::parse(&w) {
        Ok(r) => r,
        Err(e) => return fail("Replaces:valid-rejected", format!("{w:?}: {e}")),
    };
    ensure!(r.call_id() == c && r.to_tag() == t && r.from_tag() == f && r.is_early_only() == eo, "Replaces:parse", "{w:?}: {r:?}");
    let b = match ReplacesHeader::new(&c, &t, &f) {
        Ok(b) => b.with_early_only(eo),
        Err(e) => return fail("Replaces:new", format!("{w:?}: {e}")),
    };
    ensure!(b == r, "Replaces:api", "{b:?} vs {r:?}");
    let d = b.to_string();
    ensure_eq!(ReplacesHeader::parse(&d).ok(), Some(r), "Replaces:round-trip", "{d:?}");
    let bad = match s.below(7) {
        0 => format!("{c};to-tag={t}"),
        1 => format!("{c};from-tag={f}"),
        2 => format!("{c};to-tag={t};from-tag={f};to-tag={t}"),
        3 => format!("{c};to-tag={t};from-tag={f};From-Tag=x"),
        4 => format!(";to-tag={t};from-tag={f}"),
        5 => format!("{c};to-tag=;from-tag={f}"),
        _ => format!("{c};to-tag=a\u{2}b;from-tag={f}"),
    };
    ensure!(ReplacesHeader::parse(&bad).is_err(), "Replaces:invalid-accepted", "{bad:?}");
    Ok(())
}
fn referred_by(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = na_model(s, &[], true);
    m.params = m.params.into_iter().filter(|p| p.1.is_some() && !p.0.eq_ignore_ascii_case("cid")).collect();
    let cid = s.opt(1, 2, |s| format!("{}@{}", token(s, 1, 8), hostname(s)));
    let mut ps = m.params.clone();
    if let Some(c) = &cid {
        let at = s.idx(ps.len() + 1);
        ps.insert(at, ("cid".into(), Some(c.clone())));
    }
    let w = na_wire(s, &NaM { params: ps, ..m.clone() });
    ctx.desc(|| w.clone());
    if cid.is_some() || !m.params.is_empty() {
        ctx.nontrivial(&w);
    }
    let r = match ReferredByHeader::parse(&w) {
        Ok(r) => r,
        Err(e) => return fail("Referred-By:valid-rejected", format!("{w:?}: {e}")),
    };
    let check = |r: &ReferredByHeader, what: &str| -> R {
        ensure_eq!(r.name_addr().display_name().map(|x| x.to_string()), m.display, format!("Referred-By:{what}"), "{w:?}: display");
        ensure_eq!(r.name_addr().uri().as_str(), m.uri, format!("Referred-By:{what}"), "{w:?}: uri");
        ensure_eq!(r.get_cid().map(|x| x.to_string()), cid, format!("Referred-By:{what}"), "{w:?}: cid");
        ensure_eq!(r.has_signature(), cid.is_some(), format!("Referred-By:{what}"), "{w:?}: has_signature");
        ensure_eq!(im(r.params().map(|(k, v)| (k, Some(v)))), map(&m.params), format!("Referred-By:{what}"), "{w:?}: params");
        Ok(())
    };
    check(&r, "parse")?;
    if m.params.iter().all(|p| !p.1.as_ref().unwrap().starts_with('"')) {
        let d = r.to_string();
        match ReferredByHeader::parse(&d) {
            Ok(x) => {
                check(&x, "round-trip")?;
                ensure!(x == r, "Referred-By:round-trip", "{d:?}");
            }
            Err(e) => return fail("Referred-By:round-trip", format!("{w:?} printed {d:?}: {e}")),
        }
    }
    if m.uri.starts_with("sip") {
        let b = match &m.display {
            Some(d) => ReferredByHeader::with_name(d, &m.uri),
            None => ReferredByHeader::new(&m.uri),
        };
        let b = b.and_then(|b| if let Some(c) = &cid { b.with_cid(c) } else { Ok(b) });
        let b = m.params.iter().fold(b, |b, (k, v)| b.and_then(|b| b.with_param(k, v.as_ref().unwrap())));
        match b {
            Ok(b) => ensure!(b == r, "Referred-By:api", "{b:?} vs {r:?}"),
            Err(e) => return fail("Referred-By:api", format!("{w:?}: {e}")),
        }
    }
    let bad = match s.below(6) {
        0 => format!("<{}", m.uri),
        1 => format!("<{}>;cid=a;cid=b", m.uri),
        2 => format!("<{}>;x=a;X=b", m.uri),
        3 => "<>".into(),
        4 => format!("{}>", m.uri),
        _ => format!("<<{}>>", m.uri),
    };
    ensure!(ReferredByHeader::parse(&bad).is_err(), "Referred-By:invalid-accepted", "{bad:?}");
    Ok(())
}
fn reason(s: &mut Src, ctx: &mut Ctx) -> R {
    let proto = if s.coin() { s.pick(&["SIP", "Q.850", "SDP"]).to_string() } else { token(s, 1, 8) };
    let cause = s.opt(3, 4, |s| s.num(700).to_string());
    let txt = s.opt(2, 3, |s| { let t = text(s, 0, 12); if t.starts_with('"') { format!("x{t}") } else { t } });
    let mut ps: Pm = pm(s, 2, &[], api_text).into_iter().filter(|p| !["cause", "text"].contains(&p.0.to_ascii_lowercase().as_str())).collect();
    if let Some(c) = &cause {
        ps.push(("cause".into(), Some(c.clone())));
    }
    if let Some(t) = &txt {
        ps.push(("text".into(), Some(t.clone())));
    }
    s.shuffle(&mut ps);
    let known = ["SIP", "Q.850", "SDP"].iter().find(|k| proto.eq_ignore_ascii_case(k));
    let wproto = if known.is_some() && s.chance(1, 3) { recase(s, &proto) } else { proto.clone() };
    let proto = known.map(|k| k.to_string()).unwrap_or(proto);
    let w = format!("{}{wproto}{}", ws(s), wire(s, &ps));
    ctx.desc(|| w.clone());
    if ps.len() > 1 {
        ctx.nontrivial(&w);
    }
    let r = some(sip_parse::parse_reason_header(&ss(&w)), "Reason", &w)?;
    let check = |r: &ReasonHeader, what: &str| -> R {
        ensure_eq!(r.protocol(), proto, format!("Reason:{what}:protocol"), "{w:?}");
        ensure_eq!(im(r.params()), map(&ps), format!("Reason:{what}:params"), "{w:?}");
        ensure_eq!(r.cause_code().map(|c| c.to_string()), cause, format!("Reason:{what}:cause"), "{w:?}");
        ensure_eq!(r.text().map(|c| c.to_string()), txt, format!("Reason:{what}:text"), "{w:?}");
        ensure_eq!(r.is_q850(), proto == "Q.850", format!("Reason:{what}:q850"), "{w:?}");
        ensure_eq!(r.is_sip(), proto == "SIP", format!("Reason:{what}:sip"), "{w:?}");
        Ok(())
    };
    check(&r, "parse")?;
    let d = r.to_string();
    let r2 = some(sip_parse::parse_reason_header(&ss(&d)), "Reason:round-trip", &d)?;
    check(&r2, "round-trip")?;
    ensure!(r2 == r, "Reason:round-trip", "{d:?}");
    let b = ReasonHeader::new(&wproto, ps.iter().map(|(k, v)| (ss(k), v.as_ref().map(|v| ss(v)))).collect());
    match b {
        Ok(b) => ensure!(b == r, "Reason:api", "{b:?} vs {r:?}"),
        Err(e) => return fail("Reason:api", format!("{e}")),
    }
    let mut hs = Headers::new();
    hs.push("Reason", w.clone()).ok();
    ensure!(parse_reason_header(&hs).as_ref() == Some(&r), "Reason:headers", "parse_reason_header(headers) differs");
    // Q.850 causes: code -> cause -> header -> code
    let code = s.num(140) as u16;
    if let Some(c) = Q850Cause::from_code(code) {
        ensure_eq!(c.code(), code, "Q850:code", "{code}");
        let h = ReasonHeader::q850(c).map_err(|e| vlib::Fail { sig: "Q850:header".into(), msg: format!("{e}") })?;
        let p = some(sip_parse::parse_reason_header(&ss(&h.to_string())), "Q850", &h.to_string())?;
        ensure!(p.as_q850_cause() == Some(c) && p.cause_code() == Some(code) && p.text() == Some(c.text()), "Q850:round-trip", "{h}");
    }
    let code = s.range(100, 699) as u16;
    let h = ReasonHeader::sip(code, txt.as_deref()).map_err(|e| vlib::Fail { sig: "Reason:sip".into(), msg: format!("{e}") })?;
    let p = some(sip_parse::parse_reason_header(&ss(&h.to_string())), "Reason:sip", &h.to_string())?;
    ensure!(p == h && p.is_sip() && p.cause_code() == Some(code) && p.as_q850_cause().is_none(), "Reason:sip", "{h}");
    if let Some(t) = &txt {
        ensure_eq!(p.text(), Some(t.as_str()), "Reason:sip-text", "{h}");
    }
    for bad in ["", ";cause=1", "a b;cause=1", "SIP;cause=1;Cause=2", "SIP;a@b=1"] {
        ensure!(sip_parse::parse_reason_header(&ss(bad)).is_none(), "Reason:invalid-accepted", "{bad:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ small headers

fn small(s: &mut Src, ctx: &mut Ctx) -> R {
    // Privacy
    let all = [PrivacyValue::Header, PrivacyValue::Session, PrivacyValue::User, PrivacyValue::Id, PrivacyValue::Critical];
    let vals: Vec<PrivacyValue> = if s.chance(1, 6) { vec![PrivacyValue::None] } else { s.vec(1, 5, |s| *s.pick(&all)) };
    let name = |v: &PrivacyValue| match v {
        PrivacyValue::None => "none", PrivacyValue::Header => "header", PrivacyValue::Session => "session",
        PrivacyValue::User => "user", PrivacyValue::Id => "id", PrivacyValue::Critical => "critical",
    };
    let w: Vec<String> = vals.iter().map(|v| { let n = name(v); format!("{}{}{}", ws(s), if s.coin() { recase(s, n) } else { n.into() }, ws(s)) }).collect();
    let w = w.join(";");
    ctx.desc(|| format!("Privacy {w}"));
    let p = match PrivacyHeader::parse(&w) {
        Ok(p) => p,
        Err(e) => return fail("Privacy:valid-rejected", format!("{w:?}: {e}")),
    };
    ensure_eq!(p.values().collect::<Vec<_>>(), vals, "Privacy:values", "{w:?}");
    ensure_eq!(p.is_critical(), vals.contains(&PrivacyValue::Critical), "Privacy:critical", "{w:?}");
    ensure_eq!(p.is_none(), vals.contains(&PrivacyValue::None), "Privacy:none", "{w:?}");
    ensure_eq!(PrivacyHeader::parse(&p.to_string()).ok(), Some(p.clone()), "Privacy:round-trip", "{p}");
    ensure_eq!(PrivacyHeader::new(vals.clone()).ok(), Some(p), "Privacy:api", "{w:?}");
    for bad in ["", "none;id", "id;none", "idx", "user header"] {
        ensure!(PrivacyHeader::parse(bad).is_err(), "Privacy:invalid-accepted", "{bad:?}");
    }
    // Refer-Sub
    let b = s.coin();
    let w = format!("{}{}{}", ws(s), recase(s, if b { "true" } else { "false" }), ws(s));
    match ReferSubHeader::parse(&w) {
        Some(h) => {
            ensure!(h.is_enabled() == b && h.is_suppressed() == !b, "Refer-Sub:value", "{w:?}");
            ensure_eq!(ReferSubHeader::parse(&h.to_string()), Some(h), "Refer-Sub:round-trip", "{h}");
            ensure_eq!(ReferSubHeader::new(b), h, "Refer-Sub:api", "{h}");
        }
        None => return fail("Refer-Sub:valid-rejected", w),
    }
    for bad in ["", "yes", "truefalse", "1", "true;x"] {
        ensure!(ReferSubHeader::parse(bad).is_none(), "Refer-Sub:invalid-accepted", "{bad:?}");
    }
    // Priority
    let pr = if s.coin() { s.pick(&["emergency", "urgent", "normal", "non-urgent"]).to_string() } else { token(s, 1, 10) };
    let w = recase(s, &pr);
    let want = match pr.to_ascii_lowercase().as_str() {
        "emergency" => (PriorityValue::Emergency, Some(3)),
        "urgent" => (PriorityValue::Urgent, Some(2)),
        "normal" => (PriorityValue::Normal, Some(1)),
        "non-urgent" => (PriorityValue::NonUrgent, Some(0)),
        o => (PriorityValue::Unknown(ss(o)), None),
    };
    match PriorityValue::parse(&w) {
        Ok(v) => {
            ensure_eq!(v, want.0, "Priority:value", "{w:?}");
            ensure_eq!(v.urgency_level(), want.1, "Priority:level", "{w:?}");
            ensure_eq!(v.is_standard(), want.1.is_some(), "Priority:standard", "{w:?}");
            ensure_eq!(PriorityValue::parse(&v.to_string()).ok(), Some(v.clone()), "Priority:round-trip", "{w:?}");
            ensure_eq!(sip_parse::parse_priority_header(&ss(&format!(" {w} "))), v, "Priority:sip_parse", "{w:?}");
        }
        Err(e) => return fail("Priority:valid-rejected", format!("{w:?}: {e}")),
    }
    for bad in ["", "a b", "x;y", "ä", "a\r"] {
        ensure!(PriorityValue::parse(bad).is_err(), "Priority:invalid-accepted", "{bad:?}");
    }
    // token lists
    let toks: Vec<String> = s.many(1, 6, 30, |s| token(s, 1, 8));
    let w = toks.iter().map(|t| format!("{}{t}{}", ws(s), ws(s))).collect::<Vec<_>>().join(",");
    ctx.nontrivial(&w);
    match TokenList::parse(&w) {
        Ok(l) => {
            ensure_eq!(l.iter().map(|x| x.to_string()).collect::<Vec<_>>(), toks, "TokenList:values", "{w:?}");
            ensure_eq!(TokenList::parse(&l.to_string()).ok(), Some(l.clone()), "TokenList:round-trip", "{w:?}");
            ensure_eq!(TokenList::from_tokens(&toks).ok(), Some(l.clone()), "TokenList:api", "{w:?}");
            for t in &toks {
                ensure!(l.contains(&recase(s, t)), "TokenList:contains", "{w:?} {t}");
            }
            let other = token(s, 9, 12);
            ensure!(!l.contains(&other), "TokenList:contains", "{w:?} {other}");
            let m = l.clone().with_token(&other).map_err(|e| vlib::Fail { sig: "TokenList:with_token".into(), msg: format!("{e}") })?;
            ensure!(m.len() == toks.len() + 1 && m.tokens().last().map(|x| x.as_str()) == Some(other.as_str()), "TokenList:with_token", "{m}");
            let a = sip_parse::parse_allow_header(&ss(&w));
            ensure_eq!(a, l, "Allow:value", "{w:?}");
            let a = sip_parse::parse_supported_header(&ss(&w));
            ensure_eq!(a, l, "Supported:value", "{w:?}");
        }
        Err(e) => return fail("TokenList:valid-rejected", format!("{w:?}: {e}")),
    }
    for bad in ["", " ", "a,,b", "a b", "a;b", ",", "ä"] {
        ensure!(TokenList::parse(bad).is_err(), "TokenList:invalid-accepted", "{bad:?}");
    }
    // Resource-Priority
    let nd = |s: &mut Src| chars(s, "abcXYZ019-!%*_+`'~", 1, 8);
    let vals: Vec<(String, String)> = s.many(1, 5, 10, |s| (nd(s), nd(s)));
    let w = vals.iter().map(|(a, b)| format!("{}{a}.{b}{}", ws(s), ws(s))).collect::<Vec<_>>().join(",");
    let h = some(sip_parse::parse_resource_priority(&ss(&w)), "Resource-Priority", &w)?;
    let got: Vec<(String, String)> = h.values().iter().map(|v| (v.namespace().to_string(), v.priority().to_string())).collect();
    ensure_eq!(got, vals, "Resource-Priority:values", "{w:?}");
    ensure_eq!(ResourcePriorityHeader::parse(&h.to_string()).ok(), Some(h.clone()), "Resource-Priority:round-trip", "{h}");
    let mut b = ResourcePriorityHeader::new();
    for (x, y) in &vals {
        let v = ResourcePriorityValue::new(x, y).map_err(|e| vlib::Fail { sig: "Resource-Priority:api".into(), msg: format!("{e}") })?;
        b.add_value(v).map_err(|e| vlib::Fail { sig: "Resource-Priority:api".into(), msg: format!("{e}") })?;
    }
    ensure_eq!(b, h, "Resource-Priority:api", "{w:?}");
    for bad in ["dsn", "dsn.", ".1", "a b.1", "dsn.1 2"] {
        ensure!(ResourcePriorityHeader::parse(bad).is_err(), "Resource-Priority:invalid-accepted", "{bad:?}");
    }
    // SIP-ETag
    let e = token(s, 1, 20);
    let h = match SipETagHeader::parse(&e) {
        Ok(h) => h,
        Err(x) => return fail("SIP-ETag:valid-rejected", format!("{e:?}: {x}")),
    };
    ensure!(h.value() == e && h.to_string() == e && sip_parse::parse_sip_etag(&ss(&e)).as_ref() == Some(&h), "SIP-ETag:value", "{e:?}");
    let o = if s.coin() { e.clone() } else { recase(s, &e) };
    let im = SipIfMatchHeader::parse(&o).map_err(|x| vlib::Fail { sig: "SIP-If-Match:valid-rejected".into(), msg: format!("{x}") })?;
    ensure_eq!(im.matches_etag(&h), o == e, "SIP-If-Match:match", "{o:?} {e:?}");
    ensure_eq!(h.constant_time_eq(&SipETagHeader::new(&o).unwrap()), o == e, "SIP-ETag:eq", "{o:?} {e:?}");
    for bad in ["", "a b", "\"x\"", "a;b", "é"] {
        ensure!(SipETagHeader::parse(bad).is_err() && SipIfMatchHeader::parse(bad).is_err(), "SIP-ETag:invalid-accepted", "{bad:?}");
    }
    // Subject
    let t = ascii_text(s, 1, 20);
    if t.trim().is_empty() {
        ensure!(SubjectHeader::parse(&t).is_err(), "Subject:empty-accepted", "{t:?}");
    } else {
        match SubjectHeader::parse(&t) {
            Ok(h) => ensure!(h.value() == t && h.to_string() == t && sip_parse::parse_subject_header(&ss(&t)).as_ref() == Some(&h), "Subject:value", "{t:?}"),
            Err(e) => return fail("Subject:valid-rejected", format!("{t:?}: {e}")),
        }
    }
    for bad in ["", "a\r\nb", "a\0", "a\u{7f}"] {
        ensure!(SubjectHeader::parse(bad).is_err(), "Subject:invalid-accepted", "{bad:?}");
    }
    // SIP version
    let (a, b) = (s.num(12), s.num(12));
    let w = format!("{}/{a}.{b}", recase(s, "SIP"));
    ensure_eq!(SipVersion::parse(&w).is_ok(), a == 2 && b == 0, "SipVersion", "{w:?}");
    for bad in ["", "SIP", "SIP/2", "SIP/2.", "SIP/.0", "SIP2.0", "SIP/2.0.0", "SIP/2.x", "HTTP/2.0", "SIP/+2.0"] {
        ensure!(SipVersion::parse(bad).is_err(), "SipVersion:invalid-accepted", "{bad:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ Date

fn civil(days: i64) -> (i64, u32, u32) {
    // days since 1970-01-01, counted year by year and month by month
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let (mut y, mut d) = (1970, days);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] {
        d -= ml[m];
        m += 1;
    }
    (y, m as u32, d as u32 + 1)
}
fn date(s: &mut Src, ctx: &mut Ctx) -> R {
    // 1970-01-01 .. 2100-12-31
    let secs = match s.below(3) {
        0 => s.below(4_133_980_799),
        1 => s.below(47_847) * 86_400,
        _ => (s.below(47_847) + 1) * 86_400 - 1,
    } as i64;
    let (y, m, d) = civil(secs / 86_400);
    let t = secs % 86_400;
    let dow = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][(secs / 86_400 % 7) as usize];
    let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize];
    let w = format!("{dow}, {d:02} {mon} {y} {:02}:{:02}:{:02} GMT", t / 3600, t / 60 % 60, t % 60);
    ctx.desc(|| w.clone());
    ctx.nontrivial(secs);
    let h = match DateHeader::new(&w) {
        Ok(h) => h,
        Err(e) => return fail("Date:valid-rejected", format!("{w:?}: {e}")),
    };
    let ts = SystemTime::UNIX_EPOCH + Duration::from_secs(secs as u64);
    ensure_eq!(h.timestamp(), Some(ts), "Date:timestamp", "{w:?}");
    ensure_eq!(h.raw(), w, "Date:raw", "{w:?}");
    ensure_eq!(h.to_string(), w, "Date:print", "{w:?}");
    let b = DateHeader::from_timestamp(ts);
    ensure_eq!(b.raw(), w, "Date:from_timestamp", "{secs}");
    ensure!(sip_parse::parse_date_header(&ss(&w)) == h, "Date:sip_parse", "{w:?}");
    vlib::clock::start();
    let now = vlib::clock::unix();
    if secs != now {
        ensure_eq!(h.is_past().unwrap_or(false), secs < now, "Date:is_past", "{w:?}");
        ensure_eq!(h.is_future().unwrap_or(false), secs > now, "Date:is_future", "{w:?}");
    }
    let bad = match s.below(8) {
        0 => w.replacen(dow, "Xyz", 1),
        1 => w.replacen(mon, "Foo", 1),
        2 => w.replace(" GMT", ""),
        3 => format!("{dow}, 32 {mon} {y} 10:00:00 GMT"),
        4 => format!("{dow}, {d:02} {mon} {y} 24:00:00 GMT"),
        5 => format!("{dow}, {d:02} {mon} {y} 10:60:00 GMT"),
        6 => w.replacen(',', "", 1),
        _ => format!("{dow}, {d:02} {mon} {y} 10:00 GMT"),
    };
    ensure!(DateHeader::new(&bad).is_err(), "Date:invalid-accepted", "{bad:?}");
    Ok(())
}

// ------------------------------------------------------------------ P- headers

fn p_headers(s: &mut Src, ctx: &mut Ctx) -> R {
    let asserted = s.coin();
    let name = if asserted { "P-Asserted-Identity" } else { "P-Preferred-Identity" };
    let mut hs = Headers::new();
    let mut all = vec![];
    for _ in 0..s.urange(1, 2) {
        let room = 10 - all.len();
        if room == 0 {
            break;
        }
        let ms: Vec<NaM> = s.many(1, room.min(3), room, |s| {
            let mut m = na_model(s, &[], true);
            if m.display.as_deref() == Some("") {
                m.display = None;
            }
            m
        });
        let w: Vec<String> = ms.iter().map(|m| na_wire(s, m)).collect();
        hs.push(name, w.join(s.pick(&[", ", ",", " ,"]))).ok();
        all.extend(ms);
    }
    ctx.desc(|| format!("{hs:?}"));
    if all.len() > 1 {
        ctx.nontrivial(format!("{hs:?}"));
    }
    let (ids, printed, has): (Vec<PIdentity>, String, (bool, bool, Option<String>, Option<String>)) = if asserted {
        match sip_parse::parse_p_asserted_identity(&hs) {
            Ok(Some(h)) => (h.identities().cloned().collect(), h.to_string(), (h.has_sip_identity(), h.has_tel_identity(), h.sip_identity().map(|x| x.into()), h.tel_identity().map(|x| x.into()))),
            o => return fail(format!("{name}:valid-rejected"), format!("{hs:?}: {o:?}")),
        }
    } else {
        match sip_parse::parse_p_preferred_identity(&hs) {
            Ok(Some(h)) => (h.identities().cloned().collect(), h.to_string(), (h.has_sip_identity(), h.has_tel_identity(), h.sip_identity().map(|x| x.into()), h.tel_identity().map(|x| x.into()))),
            o => return fail(format!("{name}:valid-rejected"), format!("{hs:?}: {o:?}")),
        }
    };
    let check = |ids: &[PIdentity], what: &str| -> R {
        ensure_eq!(ids.len(), all.len(), format!("{name}:{what}:count"), "{hs:?}");
        for (i, m) in ids.iter().zip(&all) {
            ensure_eq!(i.display_name().map(|x| x.to_string()), m.display, format!("{name}:{what}:display"), "{hs:?}");
            ensure_eq!(i.uri().as_str(), m.uri, format!("{name}:{what}:uri"), "{hs:?}");
            ensure_eq!(im(i.params()), map(&m.params), format!("{name}:{what}:params"), "{hs:?}");
        }
        Ok(())
    };
    check(&ids, "parse")?;
    let sipid = all.iter().find(|m| m.uri.starts_with("sip")).map(|m| m.uri.clone());
    let telid = all.iter().find(|m| m.uri.starts_with("tel")).map(|m| m.uri.clone());
    ensure_eq!(has, (sipid.is_some(), telid.is_some(), sipid, telid), format!("{name}:accessors"), "{hs:?}");
    if all.iter().all(|m| m.params.iter().all(|p| !p.1.as_ref().is_some_and(|v| v.starts_with('"')))) {
        let mut h2 = Headers::new();
        h2.push(name, printed.clone()).ok();
        let again: Vec<PIdentity> = if asserted {
            sip_parse::parse_p_asserted_identity(&h2).ok().flatten().map(|h| h.identities().cloned().collect()).unwrap_or_default()
        } else {
            sip_parse::parse_p_preferred_identity(&h2).ok().flatten().map(|h| h.identities().cloned().collect()).unwrap_or_default()
        };
        check(&again, "round-trip")?;
    }
    for bad in ["<sip:a@b", "\"x\" <>", "<sip:a@b>;x=1;X=2", "sip:a@b>"] {
        let mut h = Headers::new();
        h.push("P-Asserted-Identity", bad).ok();
        ensure!(sip_parse::parse_p_asserted_identity(&h).is_err(), "P-Asserted-Identity:invalid-accepted", "{bad:?}");
    }
    // P-Access-Network-Info
    let at = token(s, 1, 12);
    let ps = pm(s, 3, &["utran-cell-id-3gpp", "cgi-3gpp"], vtext);
    let w = format!("{}{at}{}", ws(s), wire(s, &ps));
    let h = some(sip_parse::parse_p_access_network_info(&ss(&w)), "P-Access-Network-Info", &w)?;
    ensure_eq!(h.access_type(), at, "P-Access-Network-Info:type", "{w:?}");
    ensure_eq!(im(h.params()), map(&ps), "P-Access-Network-Info:params", "{w:?}");
    ensure!(sip_parse::parse_p_access_network_info(&ss(";x=1")).is_none(), "P-Access-Network-Info:invalid-accepted", "");
    ensure!(sip_parse::parse_p_access_network_info(&ss("a;x=1;X=1")).is_none(), "P-Access-Network-Info:invalid-accepted", "duplicate");
    // P-Visited-Network-ID
    let ids: Vec<String> = s.many(1, 4, 12, |s| if s.coin() { token(s, 1, 8) } else { format!("n{}", text(s, 0, 8)) }).into_iter().map(|x| x.trim().to_string()).collect();
    let w = ids.iter().map(|i| if is_token(i) && s.coin() { i.clone() } else { quote(i) }).collect::<Vec<_>>().join(*s.pick(&[", ", ","]));
    let h = some(sip_parse::parse_p_visited_network_id(&ss(&w)), "P-Visited-Network-ID", &w)?;
    ensure_eq!(h.values().map(|x| x.to_string()).collect::<Vec<_>>(), ids, "P-Visited-Network-ID:values", "{w:?}");
    Ok(())
}

// ------------------------------------------------------------------ Security-*

fn security(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.urange(1, 4);
    let mut model: Vec<(String, Pm, Option<u32>)> = vec![]; // q in thousandths
    let mut wires = vec![];
    for _ in 0..n {
        let mech = if s.chance(5, 6) { s.pick(&["tls", "digest", "ipsec-ike", "ipsec-man"]).to_string() } else { format!("x{}", token(s, 1, 6)) };
        let mut ps: Pm = pm(s, 3, &["d-alg", "d-qop", "algorithm"], |s| if s.coin() { token(s, 1, 8) } else { quote(&text(s, 0, 6)) })
            .into_iter().filter(|p| !p.0.eq_ignore_ascii_case("q")).collect();
        let q = s.opt(2, 3, |s| if s.chance(1, 4) { 1000 } else { s.below(1001) as u32 });
        if let Some(q) = q {
            let sp = match q {
                1000 => s.pick(&["1", "1.0", "1.000"]).to_string(),
                _ => format!("0.{q:03}"),
            };
            let at = s.idx(ps.len() + 1);
            ps.insert(at, ("q".into(), Some(sp)));
        }
        let mut w = if s.chance(1, 3) && !mech.starts_with('x') { recase(s, &mech) } else { mech.clone() };
        for (k, v) in &ps {
            w += &format!("{};{}{k}", ws(s), ws(s));
            if let Some(v) = v {
                w += &format!("{}={}{v}", ws(s), ws(s));
            }
        }
        wires.push(w);
        model.push((mech, ps, q));
    }
    let w = wires.join(*s.pick(&[", ", ",", " , "]));
    ctx.desc(|| w.clone());
    if n > 1 {
        ctx.nontrivial(&w);
    }
    let c = match parse_security_client(&w) {
        Ok(c) => c,
        Err(e) => return fail("Security:valid-rejected", format!("{w:?}: {e}")),
    };
    let raw = |p: &Pm| -> BTreeMap<String, Option<String>> { p.iter().cloned().collect() };
    let check = |e: &[SecurityEntry], what: &str| -> R {
        ensure_eq!(e.len(), model.len(), format!("Security:{what}:count"), "{w:?}");
        for (e, m) in e.iter().zip(&model) {
            ensure_eq!(e.mechanism().as_str(), m.0, format!("Security:{what}:mechanism"), "{w:?}");
            ensure_eq!(om(e.params()), raw(&m.1), format!("Security:{what}:params"), "{w:?}");
            let q = e.preference().map(|q| (q * 1000.0).round() as u32);
            ensure_eq!(q, m.2, format!("Security:{what}:q"), "{w:?}");
            for (k, v) in &m.1 {
                ensure_eq!(e.get_param(&k.to_uppercase()).map(|o| o.as_ref().map(|x| x.to_string())), Some(v.clone()), format!("Security:{what}:get_param"), "{w:?}");
            }
        }
        Ok(())
    };
    check(c.entries(), "parse")?;
    let d = c.to_string();
    match parse_security_server(&d) {
        Ok(x) => {
            check(x.entries(), "round-trip")?;
            ensure_eq!(x.to_string(), d, "Security:print", "{w:?}");
        }
        Err(e) => return fail("Security:round-trip", format!("{d:?}: {e}")),
    }
    match parse_security_verify(&w) {
        Ok(v) => {
            check(v.entries(), "verify")?;
            for m in ["tls", "digest", "ipsec-ike", "ipsec-man", "other"] {
                let e = SecurityEntry::new(SecurityMechanism::parse(m).unwrap());
                ensure_eq!(v.matches(&e), model.iter().any(|x| x.0 == m), "Security-Verify:matches", "{w:?} {m}");
            }
        }
        Err(e) => return fail("Security:verify-rejected", format!("{w:?}: {e}")),
    }
    // order by preference, absent q is 0.001, ties keep order
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by_key(|i| std::cmp::Reverse(model[*i].2.unwrap_or(1)));
    let want: Vec<String> = idx.iter().map(|i| c.entries()[*i].to_string()).collect();
    let got: Vec<String> = c.sorted_by_preference().iter().map(|e| e.to_string()).collect();
    ensure_eq!(got, want, "Security:sorted", "{w:?}");
    // best match: server entry maximizing the product with the client's first entry of that mechanism
    let sn = s.urange(1, 4);
    let mut se = vec![];
    let mut sq = vec![];
    for _ in 0..sn {
        let mech = *s.pick(&["tls", "digest", "ipsec-ike", "ipsec-man"]);
        let mut e = SecurityEntry::new(SecurityMechanism::parse(mech).unwrap());
        let q = s.opt(3, 4, |s| s.below(1001) as u32);
        if let Some(q) = q {
            e.set_preference(q as f32 / 1000.0).map_err(|e| vlib::Fail { sig: "Security:set_preference".into(), msg: format!("{e}") })?;
            ensure_eq!(e.preference().map(|x| (x * 1000.0).round() as u32), q.into(), "Security:set_preference", "q={q}");
        }
        sq.push((mech, q.unwrap_or(1) as u64));
        se.push(e);
    }
    let server = SecurityServerHeader::new(se).map_err(|e| vlib::Fail { sig: "Security:new".into(), msg: format!("{e}") })?;
    let score = |i: usize| -> Option<u64> {
        model.iter().find(|m| m.0 == sq[i].0).map(|m| m.2.unwrap_or(1) as u64 * sq[i].1)
    };
    let best = (0..sn).filter_map(score).max();
    match (server.find_best_match(&c), best) {
        (None, None) => {}
        (Some(e), Some(b)) => {
            let i = server.entries().iter().position(|x| std::ptr::eq(x, e)).unwrap();
            ensure_eq!(score(i), Some(b), "Security:best-match", "client {w:?} server {server}: chose {e}");
        }
        (g, b) => return fail("Security:best-match", format!("client {w:?} server {server}: got {g:?}, best score {b:?}")),
    }
    for bad in ["", ",", ";q=1", "tls;=x", "a b;q=1"] {
        ensure!(parse_security_client(bad).is_err(), "Security:invalid-accepted", "{bad:?}");
    }
    let many = vec!["tls"; 11].join(",");
    ensure!(parse_security_client(&many).is_err(), "Security:limit", "11 entries accepted");
    Ok(())
}

// ------------------------------------------------------------------ Authorization

fn authorization(s: &mut Src, ctx: &mut Ctx) -> R {
    let scheme = if s.chance(3, 4) { "Digest".to_string() } else { ident(s, 1, 6) };
    // values without quotes and backslashes: the parser documents that it keeps escapes as written
    let val = |s: &mut Src| -> String {
        if s.coin() { token(s, 1, 12) } else { text(s, 0, 12).chars().filter(|c| !matches!(c, '"' | '\\')).collect() }
    };
    let names = ["username", "realm", "nonce", "uri", "response", "algorithm", "cnonce", "nc", "qop", "opaque", "auth-param"];
    let mut seen = std::collections::HashSet::new();
    let ps: Vec<(String, String)> = s.vec(1, 8, |s| (s.pick(&names).to_string(), val(s))).into_iter().filter(|p| seen.insert(p.0.clone())).collect();
    let w = format!("{scheme} {}", ps.iter().map(|(k, v)| {
        let k = if s.chance(1, 4) { recase(s, k) } else { k.clone() };
        let v = if is_token(v) && s.coin() { v.clone() } else { format!("\"{v}\"") };
        format!("{}{k}{}={}{v}", ws(s), ws(s), ws(s))
    }).collect::<Vec<_>>().join(*s.pick(&[",", ", ", " ,"])));
    ctx.desc(|| w.clone());
    if ps.len() > 2 {
        ctx.nontrivial(&w);
    }
    let want: BTreeMap<String, String> = ps.iter().cloned().collect();
    let h = some(sip_parse::parse_authorization_header(&ss(&w)), "Authorization", &w)?;
    let check = |h: &AuthorizationHeader, what: &str, w: &str| -> R {
        ensure_eq!(h.scheme(), scheme, format!("Authorization:{what}:scheme"), "{w:?}");
        let got: BTreeMap<String, String> = h.params().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        ensure_eq!(got, want, format!("Authorization:{what}:params"), "{w:?}");
        for (k, v) in &want {
            ensure_eq!(h.param(&k.to_uppercase()).map(|x| x.as_str()), Some(v.as_str()), format!("Authorization:{what}:param"), "{w:?}");
        }
        Ok(())
    };
    check(&h, "parse", &w)?;
    ensure!(sip_parse::parse_proxy_authorization_header(&ss(&w)).as_ref() == Some(&h), "Proxy-Authorization", "{w:?}");
    let d = h.to_string();
    let h2 = some(sip_parse::parse_authorization_header(&ss(&d)), "Authorization:round-trip", &d)?;
    check(&h2, "round-trip", &d)?;
    let mut b = AuthorizationHeader::new(scheme.as_str()).map_err(|e| vlib::Fail { sig: "Authorization:new".into(), msg: format!("{e}") })?;
    for (k, v) in &ps {
        if s.coin() {
            b.add_param_overwrite(k.as_str(), "other").ok();
            b.add_param_overwrite(k.to_uppercase(), v.as_str()).ok();
        } else if let Err(e) = b.add_param(k.as_str(), v.as_str()) {
            return fail("Authorization:add_param", format!("{e}"));
        }
        ensure!(b.add_param(k.to_uppercase(), "x").is_err(), "Authorization:duplicate", "duplicate {k} accepted");
    }
    check(&b, "api", "api")?;
    let bad = match s.below(6) {
        0 => String::new(),
        1 => format!("{w}, {}=\"x\"", ps[0].0.to_uppercase()),
        2 => format!("{scheme} realm=\"x"),
        3 => format!("{scheme} realm"),
        4 => format!("{scheme} re alm=\"x\""),
        _ => format!("Di@gest {}", &w[scheme.len()..]),
    };
    ensure!(sip_parse::parse_authorization_header(&ss(&bad)).is_none(), "Authorization:invalid-accepted", "{bad:?}");
    Ok(())
}

// ------------------------------------------------------------------ MIME types

fn mime(s: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = if s.coin() { ("application".to_string(), "sdp".to_string()) } else { (token(s, 1, 8), token(s, 1, 8)) };
    let ps: Pm = pm(s, 4, &["charset", "boundary"], |s| if s.coin() { token(s, 1, 8) } else { text(s, 1, 8) })
        .into_iter().filter(|p| p.1.is_some()).collect();
    let w = format!("{}{}/{}{}", ws(s), if s.coin() { recase(s, &a) } else { a.clone() }, b, wire(s, &ps));
    ctx.desc(|| w.clone());
    if !ps.is_empty() {
        ctx.nontrivial(&w);
    }
    let m = some(sip_parse::parse_mime_type(&ss(&w)), "MIME", &w)?;
    let want = map(&ps);
    let check = |m: &MimeType, what: &str| -> R {
        ensure_eq!(m.top_level(), a.to_ascii_lowercase(), format!("MIME:{what}:type"), "{w:?}");
        ensure_eq!(m.subtype(), b.to_ascii_lowercase(), format!("MIME:{what}:subtype"), "{w:?}");
        ensure_eq!(m.as_str(), format!("{a}/{b}").to_ascii_lowercase(), format!("MIME:{what}:as_str"), "{w:?}");
        ensure_eq!(im(m.params().map(|(k, v)| (k, Some(v)))), want, format!("MIME:{what}:params"), "{w:?}");
        ensure_eq!(m.param_count(), want.len(), format!("MIME:{what}:count"), "{w:?}");
        for (k, v) in &want {
            ensure_eq!(m.param(&k.to_uppercase()).map(|x| x.to_string()), *v, format!("MIME:{what}:param"), "{w:?}");
        }
        Ok(())
    };
    check(&m, "parse")?;
    let d = m.to_string();
    match d.parse::<MimeType>() {
        Ok(x) => {
            check(&x, "round-trip")?;
            ensure!(x == m, "MIME:round-trip", "{d:?}");
        }
        Err(e) => return fail("MIME:round-trip", format!("{w:?} printed {d:?}: {e}")),
    }
    let mut x = MimeType::new(&a, &b).map_err(|e| vlib::Fail { sig: "MIME:new".into(), msg: format!("{e}") })?;
    for (k, v) in &ps {
        let v = v.as_ref().unwrap();
        let v = if is_token(v) { v.clone() } else { quote(v) };
        x = x.with_param(k, &v).map_err(|e| vlib::Fail { sig: "MIME:with_param".into(), msg: format!("{k}={v}: {e}") })?;
        ensure!(x.clone().with_param(k.to_uppercase(), "x").is_err(), "MIME:duplicate", "duplicate {k}");
    }
    ensure!(x == m, "MIME:api", "{x:?} vs {m:?}");
    let bad = match s.below(8) {
        0 => a.clone(),
        1 => format!("{a}/"),
        2 => format!("/{b}"),
        3 => format!("{a}/{b}/x"),
        4 => format!("{a}/{b};x"),
        5 => format!("{a}/{b};x=1;X=2"),
        6 => format!("{a}/{b};x=a b"),
        _ => format!("a b/{b}"),
    };
    ensure!(bad.parse::<MimeType>().is_err(), "MIME:invalid-accepted", "{bad:?}");
    Ok(())
}

// ------------------------------------------------------------------ History-Info, Geolocation

fn lists(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut hs = Headers::new();
    let mut all = vec![];
    for _ in 0..s.urange(1, 3) {
        let room = 10 - all.len();
        if room == 0 {
            break;
        }
        let ms: Vec<NaM> = s.many(1, room.min(3), room, |s| {
            let mut m = na_model(s, &[], false);
            m.params = pm(s, 3, &["index", "rc", "mp"], vtoken);
            m
        });
        let w: Vec<String> = ms.iter().map(|m| na_wire(s, m)).collect();
        hs.push("History-Info", w.join(s.pick(&[", ", ",", " ,"]))).ok();
        all.extend(ms);
    }
    ctx.desc(|| format!("{hs:?}"));
    if all.len() > 1 {
        ctx.nontrivial(format!("{hs:?}"));
    }
    let h = match sip_parse::parse_history_info(&hs) {
        Ok(h) => h,
        Err(e) => return fail("History-Info:valid-rejected", format!("{hs:?}: {e}")),
    };
    ensure_eq!(h.len(), all.len(), "History-Info:count", "{hs:?}");
    for (i, (e, m)) in h.entries().zip(&all).enumerate() {
        ensure_eq!(e.uri().as_str(), m.uri, "History-Info:uri", "{hs:?}");
        ensure_eq!(im(e.params()), map(&m.params), "History-Info:params", "{hs:?}");
        let ix = map(&m.params).get("index").cloned().flatten();
        ensure_eq!(e.index().map(|x| x.to_string()), ix, "History-Info:index", "{hs:?}");
        ensure_eq!(e.reason_code().map(|x| x.to_string()), map(&m.params).get("rc").cloned().flatten(), "History-Info:rc", "{hs:?}");
        ensure!(h.get(i) == Some(e), "History-Info:get", "{i}");
        if let Some(ix) = ix {
            let first = all.iter().position(|m| map(&m.params).get("index").cloned().flatten().as_deref() == Some(&ix)).unwrap();
            ensure!(h.find_by_index(&ix) == h.get(first), "History-Info:find_by_index", "{ix}");
        }
    }
    ensure!(h.first() == h.get(0) && h.last() == h.get(all.len() - 1), "History-Info:ends", "");
    ensure!(sip_parse::parse_history_info(&Headers::new()).is_err(), "History-Info:empty", "");
    for bad in ["<sip:a@b", "<>", "<sip:a@b>;index=1;INDEX=2"] {
        let mut x = Headers::new();
        x.push("History-Info", bad).ok();
        ensure!(sip_parse::parse_history_info(&x).is_err(), "History-Info:invalid-accepted", "{bad:?}");
    }
    // Geolocation
    let mut hs = Headers::new();
    let mut all = vec![];
    for _ in 0..s.urange(1, 3) {
        let room = 10 - all.len();
        if room == 0 {
            break;
        }
        let ms: Vec<(String, Pm)> = s.many(1, room.min(3), room, |s| {
            let u = match s.below(3) {
                0 => format!("cid:{}@{}", alnum(s, 1, 6), hostname(s)),
                1 => format!("https://{}/{}", hostname(s), alnum(s, 1, 6)),
                _ => { let mut u = g::sip_uri(s); u.headers.clear(); u.wire() }
            };
            (u, pm(s, 2, &["inserted-by", "used-for-routing"], vtoken))
        });
        let w: Vec<String> = ms.iter().map(|m| format!("<{}>{}", m.0, wire(s, &m.1))).collect();
        hs.push("Geolocation", w.join(s.pick(&[", ", ","]))).ok();
        all.extend(ms);
    }
    match sip_parse::parse_geolocation_header(&hs) {
        Ok(h) => {
            ensure_eq!(h.len(), all.len(), "Geolocation:count", "{hs:?}");
            for (v, m) in h.values().zip(&all) {
                ensure_eq!(v.uri().as_str(), m.0, "Geolocation:uri", "{hs:?}");
                ensure_eq!(im(v.params()), map(&m.1), "Geolocation:params", "{hs:?}");
            }
        }
        Err(e) => return fail("Geolocation:valid-rejected", format!("{hs:?}: {e}")),
    }
    // Geolocation-Error / -Routing
    let code = digits(s, 3, 3);
    let ps: Pm = pm(s, 3, &["code"], vtoken).into_iter().filter(|p| !p.0.eq_ignore_ascii_case("reason")).collect();
    let desc = s.opt(1, 2, |s| text(s, 1, 10).chars().filter(|c| !matches!(c, '"' | '\\')).collect::<String>());
    let mut wp = ps.clone();
    if let Some(d) = &desc {
        wp.push(("reason".into(), Some(d.clone())));
    }
    let w = format!("{code}{}", wire(s, &wp));
    match sip_parse::parse_geolocation_error(&ss(&w)) {
        Ok(h) => {
            ensure_eq!(h.code(), Some(code.as_str()), "Geolocation-Error:code", "{w:?}");
            ensure_eq!(h.description().map(|x| x.to_string()), desc, "Geolocation-Error:description", "{w:?}");
            let mut got = im(h.params());
            got.remove("reason");
            ensure_eq!(got, map(&ps), "Geolocation-Error:params", "{w:?}");
        }
        Err(e) => return fail("Geolocation-Error:valid-rejected", format!("{w:?}: {e}")),
    }
    let ps = pm(s, 3, &["yes", "no"], vtoken);
    let w = wire(s, &ps);
    match sip_parse::parse_geolocation_routing(&ss(w.trim_start_matches([' ', ';']))) {
        Ok(h) => {
            ensure_eq!(im(h.params()), map(&ps), "Geolocation-Routing:params", "{w:?}");
            ensure_eq!(h.is_empty(), ps.is_empty(), "Geolocation-Routing:empty", "{w:?}");
        }
        Err(e) => return fail("Geolocation-Routing:valid-rejected", format!("{w:?}: {e}")),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        rule: "the value carries at least two parameters or list members (per unit), distinct by wire text",
        assumptions: &[
            "parameter values that are themselves complete quoted-strings are excluded from API round trips: the library takes them as already quoted",
            "Authorization parameter values hold no quotes or backslashes: the existing suite pins that escapes are kept as written",
            "Via without white space around the slashes of sent-protocol",
        ],
        units: vec![
            unit!("via", 60000, 3000000, via),
            unit!("name-addr", 60000, 3000000, name_addr),
            unit!("name-addr-api", 40000, 2000000, name_addr_api),
            unit!("event", 40000, 2000000, event),
            unit!("numbers", 60000, 3000000, numbers),
            unit!("replaces", 30000, 1500000, replaces),
            unit!("referred-by", 40000, 2000000, referred_by),
            unit!("reason", 40000, 2000000, reason),
            unit!("small", 30000, 1500000, small),
            unit!("date", 40000, 2000000, date),
            unit!("p-headers", 30000, 1500000, p_headers),
            unit!("security", 30000, 1500000, security),
            unit!("authorization", 40000, 2000000, authorization),
            unit!("mime", 40000, 2000000, mime),
            unit!("history-geo", 30000, 1500000, lists),
        ],
    }]
}
