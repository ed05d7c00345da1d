//! C30: what a Privacy header asks to hide is gone from the message, and nothing else is.
use bytes::Bytes;
use sip_core::*;
use std::collections::BTreeSet;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

const VALUES: [(PrivacyValue, &str); 6] = [
    (PrivacyValue::None, "none"),
    (PrivacyValue::Header, "header"),
    (PrivacyValue::Session, "session"),
    (PrivacyValue::User, "user"),
    (PrivacyValue::Id, "id"),
    (PrivacyValue::Critical, "critical"),
];
const REMOVED: [(&str, &str); 7] =
    [("Subject", "s"), ("Call-Info", ""), ("Organization", ""), ("User-Agent", ""), ("Reply-To", ""), ("In-Reply-To", ""), ("Server", "")];
const ANON: &str = "sip:anonymous@anonymous.invalid";

/// A word that occurs nowhere else in the message.
struct Secrets(u32);
impl Secrets {
    fn get(&mut self) -> String {
        self.0 += 1;
        format!("zq{}xj", self.0)
    }
}
/// An address: wire form without parameters, secrets in it
fn address(s: &mut Src, k: &mut Secrets) -> (String, Vec<String>) {
    let mut sec = vec![];
    let mut one = |k: &mut Secrets| {
        let x = k.get();
        sec.push(x.clone());
        x
    };
    if s.chance(1, 6) {
        // addr-spec: no comma, question mark or semicolon
        return match s.below(3) {
            0 => (format!("tel:+1{}-{}", digits(s, 3, 7), one(k)), vec![]),
            1 => (format!("sips:{}.example.com", one(k)), sec),
            _ => (format!("sip:{}@{}.example.com:{}", one(k), one(k), port(s)), sec),
        };
    }
    let display = match s.below(6) {
        0 => String::new(),
        1 => format!("{} {}", one(k), one(k)),
        2 => one(k),
        _ => {
            let a = s.pick(&["", ";", ",", "<", ">", "\\\"", "\\\\", "a;b,c<d>", "\\\";\\\"", "sip:x@y;z", "\\<", "é", ">;tag=no"]).to_string();
            let b = s.pick(&["", ";", ",", "<", ">", "\\\"", "\\\\", "; \\\" ,", "\\\\\\\"", "'"]).to_string();
            format!("\"{a}{}{b}\"", one(k))
        }
    };
    let mut u = match s.below(5) {
        0 => format!("tel:+{};phone-context={}.example", digits(s, 3, 8), one(k)),
        1 => format!("sips:{}@{}.net", one(k), one(k)),
        2 => format!("sip:{}", one(k)),
        _ => {
            let (a, b) = (s.pick(&["", ",", ";", "a,b;c=", "%22", "%3E", "?", "1;2,3"]).to_string(), s.pick(&["", ":secret", ":a,b", ";x=1"]).to_string());
            format!("sip:{}{a}{b}@[2001:db8::{}]", one(k), hex(s, 1, 4))
        }
    };
    if u.starts_with("sip") && s.coin() {
        u += &format!(";{}={}", s.pick(&["transport", "user", "gr", "x"]), one(k));
        if s.coin() {
            u += &format!("?Subject={}&X={}", one(k), one(k));
        }
    }
    let sp = if display.is_empty() || display.ends_with('"') { *s.pick(&["", " ", "  ", "\t"]) } else { " " };
    (format!("{display}{sp}<{u}>"), sec)
}
/// Header parameters in wire form.
fn params(s: &mut Src, tag: Option<&str>) -> Vec<String> {
    let mut v: Vec<String> = tag.iter().map(|t| format!("tag={t}")).collect();
    for _ in 0..s.weighted(&[4, 3, 2, 1]) {
        let p = match s.below(7) {
            0 => format!("expires={}", digits(s, 1, 5)),
            1 => format!("q=0.{}", digits(s, 1, 3)),
            2 => "+sip.instance=\"<urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6>\"".into(),
            3 => format!("x-{}={}", lower(s, 1, 4), token(s, 1, 6)),
            4 => format!("y-{}=\"{}\"", lower(s, 1, 4), s.pick(&["a;b", "a,b", ">", "<sip:x>, <sip:y>", "\\\"", "\\\\", ", \\\", ", ";"])),
            5 => "isfocus".into(),
            _ => format!("reg-id={}", digits(s, 1, 2)),
        };
        let name = |p: &str| p.split('=').next().unwrap().to_string();
        if !v.iter().any(|q| name(q) == name(&p)) {
            let i = s.idx(v.len() + 1);
            v.insert(i, p);
        }
    }
    v
}
/// One of the values of a header that is to stay, sometimes with a name close to one that goes.
fn bystander(s: &mut Src, k: &mut Secrets) -> (String, String) {
    let n = *s.pick(&[
        "X-Subject", "Subjects", "Servers", "Contact-Info", "X-Contact", "From-X", "P-Asserted-Identity-X", "P-Called-Party-ID", "Reply", "To-Reply", "In-Reply", "Organizations", "User-Agents", "Call-Infos", "Allow", "Supported", "Route", "Record-Route", "Date", "Accept-Contact", "P-Access-Network-Info",
        "Remote-Party", "Alert-Info", "Max-Breadth", "Geolocation", "Error-Info",
    ]);
    let v = match s.below(3) {
        0 => format!("<sip:{}@example.org;lr>", k.get()),
        1 => format!("{}, {};x=y", k.get(), token(s, 1, 5)),
        _ => format!("\"{}, {}\"", k.get(), token(s, 1, 5)),
    };
    (n.to_string(), v)
}
/// Own reading of a serialized message: start line, (name, value) fields, body.
fn read(b: &[u8]) -> (String, Vec<(String, String)>, String) {
    let t = String::from_utf8_lossy(b).into_owned();
    let (head, body) = t.split_once("\r\n\r\n").unwrap_or((&t, ""));
    let mut l = head.split("\r\n");
    let start = l.next().unwrap_or("").to_string();
    (start, l.filter_map(|x| x.split_once(':')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect(), body.to_string())
}
fn enforce(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut k = Secrets(100);
    let mut f: Vec<(String, String)> = vec![];
    let (mut who, mut meta, mut asserted): (Vec<String>, Vec<String>, Vec<String>) = Default::default();
    // From
    let long = s.chance(1, 25);
    let tag = ident(s, 1, 8);
    let fp = params(s, Some(&tag));
    let (a, sec) = address(s, &mut k);
    who.extend(sec);
    let mut fv = format!("{a}{}", fp.iter().map(|p| format!("{}{p}", s.pick(&[";", " ;", "; "]))).collect::<String>());
    if long {
        for i in 0..s.urange(5, 10) {
            fv += &format!(";pad{i}={}", "p".repeat(s.urange(100, 140)));
        }
    }
    let from_len = fv.len();
    f.push((if s.chance(1, 4) { "f".into() } else { recase(s, "From") }, fv));
    // Contacts
    let mut lead: Vec<(String, Vec<String>, usize)> = vec![];
    let star = s.chance(1, 12);
    let nfields = if star { 1 } else { s.weighted(&[2, 5, 3]) };
    for _ in 0..nfields {
        let mut elems = vec![];
        let mut head = None;
        for _ in 0..if star { 0 } else { s.urange(1, 3) } {
            let (a, sec) = address(s, &mut k);
            who.extend(sec);
            let p = params(s, None);
            let e = format!("{a}{}", p.iter().map(|p| format!(";{p}")).collect::<String>());
            head.get_or_insert((p, e.len()));
            elems.push(e);
        }
        let v = if star { "*".to_string() } else { elems.join(*s.pick(&[",", ", ", " , "])) };
        if let Some((p, n)) = head {
            lead.push((v.clone(), p, n));
        }
        f.push((if s.chance(1, 4) { "m".into() } else { recase(s, "Contact") }, v));
    }
    // asserted identities
    for n in ["P-Asserted-Identity", "P-Preferred-Identity"] {
        for _ in 0..s.weighted(&[2, 3, 1]) {
            let mut v = vec![];
            for _ in 0..s.urange(1, 2) {
                let (a, sec) = address(s, &mut k);
                asserted.extend(sec);
                v.push(a);
            }
            f.push((recase(s, n), v.join(", ")));
        }
    }
    for (n, c) in REMOVED {
        for _ in 0..s.weighted(&[4, 3, 1]) {
            let x = k.get();
            f.push((if !c.is_empty() && s.coin() { c.to_string() } else { recase(s, n) }, format!("{x} {}", token(s, 0, 5))));
            meta.push(x);
        }
    }
    for _ in 0..s.below(5) {
        f.push(bystander(s, &mut k));
    }
    f.push(("To".into(), format!("<sip:{}@example.net>", k.get())));
    f.push(("Call-ID".into(), format!("{}@{}", k.get(), hostname(s))));
    f.push(("CSeq".into(), "7 INVITE".into()));
    f.push(("Max-Forwards".into(), "70".into()));
    f.push(("Content-Type".into(), "application/x-test".into()));
    // the request for privacy
    let set: BTreeSet<usize> = if s.chance(1, 8) { [0].into() } else { s.vec(1, 4, |s| 1 + s.idx(5)).into_iter().collect() };
    let mut ord: Vec<usize> = set.iter().copied().collect();
    s.shuffle(&mut ord);
    if ord.len() > 1 && s.chance(1, 6) {
        ord.push(ord[0]);
    }
    let shown = s.chance(9, 10);
    if shown {
        let v = ord.iter().map(|i| recase(s, VALUES[*i].1)).collect::<Vec<_>>().join(*s.pick(&[";", "; ", " ; ", ";;"]));
        f.push((recase(s, "Privacy"), v));
    }
    s.shuffle(&mut f);
    // parameters of the contact that comes first
    let (first, first_len) = match f.iter().find_map(|x| lead.iter().find(|l| l.0 == x.1)) {
        Some(l) => (Some(l.1.clone()), l.2),
        None => (None, 0),
    };
    f.insert(0, ("Via".into(), format!("SIP/2.0/UDP {};branch=z9hG4bK{}", hostname(s), hex(s, 4, 8))));
    let body = format!("v={}", k.get());
    let req = s.chance(3, 4);
    let start = if req { "INVITE sip:bob@example.net SIP/2.0" } else { "SIP/2.0 200 OK" };
    let wire = format!("{start}\r\n{}Content-Length: {}\r\n\r\n{body}", f.iter().map(|(n, v)| format!("{n}: {v}\r\n")).collect::<String>(), body.len());
    ctx.desc(|| format!("{:?} on {wire:?}", ord.iter().map(|i| VALUES[*i].1).collect::<Vec<_>>()));
    let wire = Bytes::from(wire);
    let mut h = match if req { sip_parse::parse_request(&wire).map(|r| r.headers().clone()) } else { sip_parse::parse_response(&wire).map(|r| r.headers().clone()) } {
        Some(h) => h,
        None => return fail("privacy:setup", "message refused"),
    };
    // the request is understood
    let want_vals: Vec<PrivacyValue> = ord.iter().map(|i| VALUES[*i].0).collect();
    let p = match parse_privacy_header(&h) {
        Some(p) => {
            ensure!(shown, "privacy:read", "Privacy read from a message without one");
            ensure_eq!(p.values().collect::<Vec<_>>(), want_vals, "privacy:read", "values");
            p
        }
        None => {
            ensure!(!shown, "privacy:read", "Privacy header not read");
            match PrivacyHeader::new(want_vals) {
                Ok(p) => p,
                Err(e) => return fail("privacy:new", e.to_string()),
            }
        }
    };
    ensure_eq!(requires_privacy_enforcement(&h), shown && !set.contains(&0), "privacy:required", "{p}");
    let id = set.contains(&3) || set.contains(&4);
    let hdr = set.contains(&1) || set.contains(&3);
    ensure_eq!((p.requires_identity_anonymization(), p.requires_header_privacy()), (id, hdr), "privacy:table", "{p}");
    ensure_eq!((p.requires_session_privacy(), p.is_critical(), p.is_none()), (set.contains(&2) || set.contains(&3), set.contains(&5), set.contains(&0)), "privacy:table", "{p}");
    let before: Vec<(String, String)> = h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect();
    if let Err(e) = enforce_privacy(&mut h, &p) {
        ensure!(id && (from_len > 1024 || first_len > 1024), "privacy:refused", "{e}");
        ctx.label("too long");
        return Ok(());
    }
    if (id || hdr) && !set.contains(&0) {
        ctx.nontrivial(&wire);
    }
    // what goes out, read line by line
    let out = if req {
        let Some(r) = sip_parse::parse_request(&wire) else { unreachable!() };
        match Request::new(r.start_line().clone(), h.clone(), r.body().clone()) {
            Ok(r) => sip_parse::serialize_request(&r),
            Err(e) => return fail("privacy:rebuild", e.to_string()),
        }
    } else {
        let Some(r) = sip_parse::parse_response(&wire) else { unreachable!() };
        match Response::new(r.start_line().clone(), h.clone(), r.body().clone()) {
            Ok(r) => sip_parse::serialize_response(&r),
            Err(e) => return fail("privacy:rebuild", e.to_string()),
        }
    };
    let text = String::from_utf8_lossy(&out).into_owned();
    let (got_start, fields, got_body) = read(&out);
    ensure_eq!((got_start.as_str(), got_body.as_str()), (start, body.as_str()), "privacy:rest", "start line and body");
    let leak = |sec: &[String]| sec.iter().find(|x| text.contains(x.as_str())).cloned();
    if id {
        if let Some(x) = leak(&who) {
            return fail("privacy:identity-leak", format!("{x} still in {text:?}"));
        }
        if let Some(x) = leak(&asserted) {
            return fail("privacy:asserted-leak", format!("{x} still in {text:?}"));
        }
    }
    if hdr {
        if let Some(x) = leak(&meta) {
            return fail("privacy:header-leak", format!("{x} still in {text:?}"));
        }
    }
    let lower = |n: &str| n.to_ascii_lowercase();
    // untouched fields keep their order and value
    let touched = |n: &str| {
        let n = lower(n);
        n == "content-length"
            || (id && ["from", "p-asserted-identity", "p-preferred-identity"].contains(&n.as_str()))
            || (id && n == "contact" && !star)
            || (hdr && REMOVED.iter().any(|r| lower(r.0) == n))
    };
    let rest = |v: &[(String, String)]| -> Vec<(String, String)> { v.iter().filter(|x| !touched(&x.0)).map(|x| (lower(&x.0), x.1.clone())).collect() };
    ensure_eq!(rest(&fields), rest(&before), "privacy:bystander", "fields that are not concerned");
    // what the concerned ones became
    let all = |n: &str| fields.iter().filter(|x| lower(&x.0) == n).map(|x| x.1.clone()).collect::<Vec<_>>();
    if hdr {
        for r in REMOVED {
            ensure_eq!(all(&lower(r.0)), Vec::<String>::new(), "privacy:removed", "{}", r.0);
        }
    }
    if id {
        for n in ["p-asserted-identity", "p-preferred-identity"] {
            ensure_eq!(all(n), Vec::<String>::new(), "privacy:removed", "{n}");
        }
        let anon = |v: &str, ps: &[String], what: &str| -> R {
            let Some(rest) = v.strip_prefix("\"Anonymous\"").map(|r| r.trim_start()).and_then(|r| r.strip_prefix(&format!("<{ANON}>"))) else {
                return fail("privacy:anonymous", format!("{what}: {v:?}"));
            };
            let squeeze = |t: &str| t.replace([' ', '\t'], "");
            let want: String = ps.iter().map(|p| format!(";{p}")).collect();
            let rest = if long && what == "From" { rest.split(";pad0=").next().unwrap() } else { rest };
            ensure_eq!(squeeze(rest), squeeze(&want), "privacy:params", "{what} {v:?}");
            Ok(())
        };
        let fr = all("from");
        ensure_eq!(fr.len(), 1, "privacy:from", "{fr:?}");
        anon(&fr[0], &fp, "From")?;
        let tagged = sip_parse::parse_from_header(&fr[0].as_str().into());
        ensure_eq!(tagged.as_ref().and_then(|t| t.tag()).map(|t| t.to_string()), Some(tag), "privacy:tag", "{}", fr[0]);
        let co = all("contact");
        match &first {
            Some(p) => {
                ensure!(!co.is_empty(), "privacy:contact", "no Contact left");
                anon(&co[0], p, "Contact")?;
            }
            None => ensure_eq!(co, if star { vec!["*".to_string()] } else { vec![] }, "privacy:contact", "contacts"),
        }
    }
    // once more changes nothing
    let mut again = h.clone();
    if enforce_privacy(&mut again, &p).is_ok() {
        let show = |h: &Headers| h.iter().map(|x| (lower(x.name()), x.value().to_string())).collect::<BTreeSet<_>>();
        ensure_eq!(show(&again), show(&h), "privacy:idempotent", "second time");
    }
    Ok(())
}

// ---------------------------------------------------------------- the header itself

fn header(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.weighted(&[1, 4, 4, 3, 2, 1]) + if s.chance(1, 15) { 8 } else { 0 };
    let v: Vec<usize> = (0..n).map(|_| if s.chance(1, 8) { 0 } else { 1 + s.idx(5) }).collect();
    let vals: Vec<PrivacyValue> = v.iter().map(|i| VALUES[*i].0).collect();
    let ok = !v.is_empty() && v.len() <= 10 && !(v.contains(&0) && v.len() > 1);
    if v.len() > 1 {
        ctx.nontrivial(&format!("{v:?}"));
    }
    ctx.desc(|| format!("{v:?}"));
    let made = PrivacyHeader::new(vals.clone());
    ensure_eq!(made.is_ok(), ok, "header:new", "{v:?}");
    let mut text = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            text += *s.pick(&[";", "; ", " ; ", " ;", ";;", ";\t"]);
        }
        text += &recase(s, VALUES[*x].1);
    }
    let junk = s.chance(1, 4);
    if junk {
        let j = *s.pick(&["ids", "i", "idd", "us er", "none-", "h\u{e9}ader", "\u{17f}ession", "id=1", "header,id", "\"id\"", "critica"]);
        text = if s.coin() { format!("{text};{j}") } else { format!("{j};{text}") };
    }
    if s.chance(1, 20) {
        text += &" ".repeat(257);
    }
    let good = ok && !junk && text.len() <= 256;
    let parsed = PrivacyHeader::parse(&text);
    ensure_eq!(parsed.is_ok(), good, "header:parse", "{text:?}");
    let mut h = Headers::new();
    if h.push("Privacy", text.trim()).is_ok() && text.len() <= 256 {
        ensure_eq!(parse_privacy_header(&h).is_some(), good, "header:message", "{text:?}");
        ensure_eq!(requires_privacy_enforcement(&h), good && !v.contains(&0), "header:required", "{text:?}");
    }
    for p in [made.ok(), parsed.ok()].into_iter().flatten() {
        ensure_eq!(p.values().collect::<Vec<_>>(), vals, "header:values", "{text:?}");
        ensure_eq!((p.len(), p.is_empty()), (v.len(), false), "header:len", "{text:?}");
        for (x, name) in VALUES {
            ensure_eq!(p.contains(x), vals.contains(&x), "header:contains", "{name} in {text:?}");
            ensure_eq!((x.as_str(), x.to_string().as_str()), (name, name), "header:name", "{name}");
        }
        let printed = p.to_string();
        let back: Vec<&str> = printed.split(';').map(str::trim).collect();
        ensure_eq!(back, v.iter().map(|i| VALUES[*i].1).collect::<Vec<_>>(), "header:print", "printed");
        match PrivacyHeader::parse(&printed) {
            Ok(q) => ensure_eq!(q, p, "header:round-trip", "{printed:?}"),
            Err(e) => return fail("header:round-trip", format!("{printed:?}: {e}")),
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "enforce: header or identity privacy applied to a message; header: two values or more",
        assumptions: &[
            "fields have their full names once a message is parsed, so compact names are generated on the wire only",
            "header parameters of From and of the first Contact stay, as documented; the caller handles session privacy",
        ],
        units: vec![unit!("enforce", 60_000, 2_000_000, enforce), unit!("header", 60_000, 2_000_000, header)],
    }]
}
