//! C08 (and the body part of C04): presence, reginfo, watcherinfo, message-summary, CPIM, sipfrag.
use crate::g;
use crate::inject::inj;
use crate::xml::{self, El, Node, Style};
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

/// Text put into a free-text field: any printable text, or anything at all.
fn txt(s: &mut Src, nasty: bool, lo: usize, hi: usize) -> String {
    if nasty && s.chance(1, 3) {
        return inj(s, |s| text(s, lo, hi));
    }
    match s.weighted(&[4, 1]) {
        0 => text(s, lo, hi),
        _ => s.pick(&["</note>", "&amp;", "&#60;", "<![CDATA[x]]>", "a&b;c", "<tuple id=\"x\">", "]]>", "<!--", "%0D%0A", "x\" entity=\"y", "&&", "'\"'", "a  b"]).to_string(),
    }
}
fn uri_text(s: &mut Src, nasty: bool) -> String {
    if nasty {
        return inj(s, |s| g::sip_uri(s).wire());
    }
    match s.weighted(&[3, 1, 1]) {
        0 => g::sip_uri(s).wire(),
        1 => format!("im:{}@{}", alnum(s, 1, 6), hostname(s)),
        _ => format!("http://{}/?a=b&c='<{}>\"", hostname(s), alnum(s, 1, 4)),
    }
}
/// Refusal is fine for odd strings only.
fn take<T, E: std::fmt::Display>(r: Result<T, E>, nasty: bool, what: &str, arg: &str) -> Result<Option<T>, vlib::Fail> {
    match r {
        Ok(t) => Ok(Some(t)),
        Err(_) if nasty => Ok(None),
        Err(e) => fail(format!("{what}:refused"), format!("{what} refused {arg:?}: {e}")),
    }
}
fn ok<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, vlib::Fail> {
    r.map_err(|e| vlib::Fail { sig: what.into(), msg: format!("{what}: {e}") })
}
fn style(s: &mut Src, ns: &str, other: &str) -> Style {
    let own = s.coin();
    Style {
        prefix: vec![(ns.into(), if own { String::new() } else { s.pick(&["p", "pidf", "x", "wi", "ns1"]).to_string() }), (other.into(), s.pick(&["o", "dm", "rpid"]).to_string())],
        indent: s.coin(),
        noise: s.chance(1, 3),
    }
}
fn norm(t: &str) -> String {
    t.trim().to_string()
}

// ---------------------------------------------------------------- PIDF

const PIDF: &str = "urn:ietf:params:xml:ns:pidf";
const DM: &str = "urn:ietf:params:xml:ns:pidf:data-model";
#[derive(Clone, Debug, PartialEq, Default)]
struct TupleM {
    id: String,
    open: Option<bool>,
    contact: Option<String>,
    notes: Vec<String>,
    ts: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct PidfM {
    entity: String,
    tuples: Vec<TupleM>,
    notes: Vec<String>,
}
fn pidf_of(d: &PresenceDocument) -> PidfM {
    PidfM {
        entity: d.entity().into(),
        tuples: d
            .tuples()
            .map(|t| TupleM {
                id: t.id().into(),
                open: t.status().map(|s| s == BasicStatus::Open),
                contact: t.contact().map(norm),
                notes: t.notes().map(|n| n.to_string()).collect(),
                ts: t.timestamp().map(norm),
            })
            .collect(),
        notes: d.notes().map(|n| n.to_string()).collect(),
    }
}
fn pidf_xml(e: &El) -> Result<PidfM, String> {
    if e.name != "presence" || e.ns != PIDF {
        return Err("root".into());
    }
    let one = |t: &El, n: &str| -> Result<Option<String>, String> {
        let v: Vec<&El> = t.named(n).collect();
        match v.len() {
            0 => Ok(None),
            1 => Ok(Some(norm(&v[0].content()))),
            _ => Err(format!("several {n}")),
        }
    };
    let mut m = PidfM { entity: e.get("entity").ok_or("entity")?.into(), ..Default::default() };
    for k in e.els() {
        match k.name.as_str() {
            "tuple" => {
                let open = match k.named("status").next().and_then(|x| x.named("basic").next()) {
                    None => None,
                    Some(b) => Some(b.content() == "open"),
                };
                m.tuples.push(TupleM {
                    id: k.get("id").ok_or("id")?.into(),
                    open,
                    contact: one(k, "contact")?,
                    notes: k.named("note").map(|n| n.content()).collect(),
                    ts: one(k, "timestamp")?,
                });
            }
            "note" => m.notes.push(k.content()),
            n => return Err(format!("element {n}")),
        }
    }
    Ok(m)
}
/// Order of children the schema asks for.
fn schema_order(e: &El, order: &[&str]) -> bool {
    let ix: Vec<usize> = e.els().map(|k| order.iter().position(|o| *o == k.name).unwrap_or(99)).collect();
    ix.windows(2).all(|w| w[0] <= w[1])
}
pub fn pidf_build(s: &mut Src, ctx: &mut Ctx, nasty: bool) -> R {
    let entity = if nasty { inj(s, |s| g::sip_uri(s).wire()) } else { uri_text(s, false) };
    let Some(mut doc) = take(PresenceDocument::new(&entity), nasty, "PresenceDocument::new", &entity)? else { return Ok(()) };
    let mut m = PidfM { entity, ..Default::default() };
    for _ in 0..s.urange(0, 3) {
        let id = txt(s, nasty, 1, 8);
        let Some(mut t) = take(Tuple::new(&id), nasty, "Tuple::new", &id)? else { continue };
        let mut tm = TupleM { id, ..Default::default() };
        if s.coin() {
            let o = s.coin();
            t = t.with_status(if o { BasicStatus::Open } else { BasicStatus::Closed });
            tm.open = Some(o);
        }
        if s.coin() {
            let c = uri_text(s, nasty);
            if let Some(x) = take(t.clone().with_contact(&c), nasty, "with_contact", &c)? {
                t = x;
                tm.contact = Some(norm(&c));
            }
        }
        for _ in 0..s.urange(0, 2) {
            let n = txt(s, nasty, 0, 10);
            if let Some(x) = take(t.clone().with_note(&n), nasty, "with_note", &n)? {
                t = x;
                tm.notes.push(n);
            }
        }
        if s.coin() {
            let v = if nasty { inj(s, |_| "2024-01-02T03:04:05Z".into()) } else { "2024-01-02T03:04:05Z".to_string() };
            if let Some(x) = take(t.clone().with_timestamp(&v), nasty, "with_timestamp", &v)? {
                t = x;
                tm.ts = Some(norm(&v));
            }
        }
        ok(doc.add_tuple(t), "add_tuple")?;
        m.tuples.push(tm);
    }
    for _ in 0..s.urange(0, 2) {
        let n = txt(s, nasty, 0, 10);
        if take(doc.add_note(&n), nasty, "add_note", &n)?.is_some() {
            m.notes.push(n);
        }
    }
    ctx.desc(|| format!("{m:?}"));
    if m.tuples.iter().any(|t| t.notes.iter().any(|n| n.contains(['<', '&', '"', '\'']))) {
        ctx.nontrivial(format!("{m:?}"));
    }
    ensure_eq!(pidf_of(&doc), m, "pidf:getters", "values read back from the builder");
    let x = doc.to_xml();
    ensure_eq!(doc.to_string(), x, "pidf:display", "Display and to_xml differ");
    let e = match xml::parse(&x) {
        Ok(e) => e,
        Err(e) => return fail("pidf:not-well-formed", format!("{e}: {x:?}")),
    };
    match pidf_xml(&e) {
        Ok(r) => ensure_eq!(r, m, "pidf:xml", "document {x:?}"),
        Err(r) => return fail("pidf:xml", format!("{r}: {x:?}")),
    }
    ensure!(schema_order(&e, &["tuple", "note"]) && e.named("tuple").all(|t| schema_order(t, &["status", "contact", "note", "timestamp"])), "pidf:order", "children out of schema order: {x:?}");
    match parse_pidf(&x) {
        Ok(d) => {
            ensure_eq!(pidf_of(&d), m, "pidf:round-trip", "document {x:?}");
            let flat = |x: String| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            ensure_eq!(flat(d.to_xml()), flat(doc.to_xml()), "pidf:reprint", "reprinted document");
        }
        Err(e) => return fail("pidf:round-trip", format!("{e}: {x:?}")),
    }
    ensure_eq!(doc.basic_status().map(|b| b == BasicStatus::Open), m.tuples.first().and_then(|t| t.open), "pidf:basic_status", "basic_status");
    Ok(())
}
fn pidf(s: &mut Src, ctx: &mut Ctx) -> R {
    pidf_build(s, ctx, false)
}
/// A document another implementation wrote.
fn pidf_foreign(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = PidfM {
        entity: uri_text(s, false),
        tuples: s.many(0, 3, 20, |s| TupleM {
            id: ident(s, 1, 6),
            open: s.opt(4, 5, |s| s.coin()),
            contact: s.opt(2, 3, |s| uri_text(s, false)),
            notes: s.many(0, 2, 10, |s| text(s, 0, 8)),
            ts: s.opt(1, 2, |_| "2024-01-02T03:04:05Z".into()),
        }),
        notes: s.many(0, 2, 10, |s| text(s, 0, 8)),
    };
    let ext = s.chance(1, 3);
    let mut root = El::new(PIDF, "presence").attr("entity", &m.entity);
    for t in &m.tuples {
        let mut e = El::new(PIDF, "tuple").attr("id", &t.id);
        let mut st = El::new(PIDF, "status");
        if let Some(o) = t.open {
            st = st.kid(El::new(PIDF, "basic").text(if o { "open" } else { "closed" }));
        }
        if ext && s.coin() {
            st = st.kid(El::new(DM, "basic").text("busy"));
        }
        e = e.kid(st);
        if ext && s.coin() {
            e = e.kid(El::new(DM, "contact").text("sip:lure@example.com")).kid(El::new(DM, "deviceID").text("urn:x"));
        }
        if let Some(c) = &t.contact {
            let mut k = El::new(PIDF, "contact").text(c);
            if s.coin() {
                k = k.attr("priority", "0.8");
            }
            e = e.kid(k);
        }
        for n in &t.notes {
            let mut k = El::new(PIDF, "note");
            if !n.is_empty() {
                // a note laid out on lines of its own
                k = if s.chance(1, 6) && n.trim() == n { k.text(&format!("\n      {n}\n    ")) } else { k.text(n) };
            }
            if s.coin() {
                k = k.attr("xml:lang", "en");
            }
            e = e.kid(k);
        }
        if let Some(x) = &t.ts {
            e = e.kid(El::new(PIDF, "timestamp").text(x));
        }
        root = root.kid(e);
    }
    for n in &m.notes {
        let mut k = El::new(PIDF, "note");
        if !n.is_empty() {
            k = k.text(n);
        }
        if s.coin() {
            k = k.attr("xml:lang", "de");
        }
        root = root.kid(k);
    }
    if ext {
        root = root.kid(El::new(DM, "person").attr("id", "p1").kid(El::new(DM, "note").text("lure")).kid(El::new(DM, "timestamp").text("x")));
    }
    let st = style(s, PIDF, DM);
    let w = xml::write(s, &st, &root);
    if xml::parse(&w).is_err() {
        return fail("harness", format!("generator wrote a bad document {w:?}"));
    }
    ctx.desc(|| w.clone());
    if m.tuples.len() > 1 {
        ctx.nontrivial(&w);
    }
    ctx.label(if ext { "extension elements" } else { "plain" });
    match parse_pidf(&w) {
        Ok(d) => ensure_eq!(pidf_of(&d), m, "pidf:foreign", "document {w}"),
        Err(e) => return fail("pidf:foreign-rejected", format!("{e}: {w}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- watcherinfo

const WI: &str = "urn:ietf:params:xml:ns:watcherinfo";
#[derive(Clone, Debug, PartialEq)]
struct WatcherM {
    id: String,
    status: usize,
    event: usize,
    uri: Option<String>,
    name: Option<String>,
    exp: Option<u32>,
    dur: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
struct WiM {
    version: u32,
    full: bool,
    lists: Vec<(String, String, Vec<WatcherM>)>,
}
const WSTAT: [(&str, WatcherStatus); 4] =
    [("pending", WatcherStatus::Pending), ("active", WatcherStatus::Active), ("waiting", WatcherStatus::Waiting), ("terminated", WatcherStatus::Terminated)];
const WEV: [(&str, WatcherEvent); 8] = [
    ("subscribe", WatcherEvent::Subscribe),
    ("approved", WatcherEvent::Approved),
    ("deactivated", WatcherEvent::Deactivated),
    ("probation", WatcherEvent::Probation),
    ("rejected", WatcherEvent::Rejected),
    ("timeout", WatcherEvent::Timeout),
    ("giveup", WatcherEvent::Giveup),
    ("noresource", WatcherEvent::Noresource),
];
fn wi_of(d: &WatcherinfoDocument) -> WiM {
    WiM {
        version: d.version(),
        full: d.state() == "full",
        lists: d
            .watcher_lists()
            .iter()
            .map(|l| {
                (
                    l.resource().to_string(),
                    l.package().to_string(),
                    l.watchers()
                        .iter()
                        .map(|w| WatcherM {
                            id: w.id().into(),
                            status: WSTAT.iter().position(|x| x.1 == w.status()).unwrap(),
                            event: WEV.iter().position(|x| x.1 == w.event()).unwrap(),
                            uri: w.uri().map(norm),
                            name: w.display_name().map(|u| u.to_string()),
                            exp: w.expiration(),
                            dur: w.duration_subscribed(),
                        })
                        .collect(),
                )
            })
            .collect(),
    }
}
fn wi_xml(e: &El) -> Result<WiM, String> {
    if e.name != "watcherinfo" || e.ns != WI {
        return Err("root".into());
    }
    let num = |v: Option<&str>| v.map(|v| v.parse::<u32>().map_err(|_| format!("number {v:?}"))).transpose();
    let mut m = WiM { version: num(e.get("version"))?.ok_or("version")?, full: e.get("state") == Some("full"), lists: vec![] };
    for l in e.els() {
        if l.name != "watcher-list" {
            return Err(format!("element {}", l.name));
        }
        let mut ws = vec![];
        for w in l.els() {
            if w.name != "watcher" || w.els().next().is_some() {
                return Err(format!("element {}", w.name));
            }
            let u = norm(&w.content());
            ws.push(WatcherM {
                id: w.get("id").ok_or("id")?.into(),
                status: WSTAT.iter().position(|x| Some(x.0) == w.get("status")).ok_or("status")?,
                event: WEV.iter().position(|x| Some(x.0) == w.get("event")).ok_or("event")?,
                uri: (!u.is_empty()).then_some(u),
                name: w.get("display-name").map(|x| x.to_string()),
                exp: num(w.get("expiration"))?,
                dur: num(w.get("duration-subscribed"))?,
            });
        }
        m.lists.push((l.get("resource").ok_or("resource")?.into(), l.get("package").ok_or("package")?.into(), ws));
    }
    Ok(m)
}
fn watcher_m(s: &mut Src, nasty: bool) -> WatcherM {
    WatcherM {
        id: txt(s, nasty, 1, 8),
        status: s.idx(4),
        event: s.idx(8),
        uri: s.opt(2, 3, |s| if nasty { inj(s, |s| g::any_uri(s)) } else { g::any_uri(s) }),
        name: s.opt(1, 2, |s| txt(s, nasty, 0, 10)),
        exp: s.opt(1, 2, |s| s.num(u32::MAX as u64) as u32),
        dur: s.opt(1, 2, |s| s.num(u32::MAX as u64) as u32),
    }
}
pub fn winfo_build(s: &mut Src, ctx: &mut Ctx, nasty: bool) -> R {
    let mut m = WiM { version: s.num(u32::MAX as u64) as u32, full: s.coin(), lists: vec![] };
    let st = if m.full { "full" } else { "partial" };
    let st = if s.chance(1, 4) { recase(s, st) } else { st.to_string() };
    let mut doc = ok(WatcherinfoDocument::new(m.version, st.as_str()), "WatcherinfoDocument::new")?;
    for _ in 0..s.urange(0, 3) {
        let res = if nasty { inj(s, |s| g::any_uri(s)) } else { g::any_uri(s) };
        let pkg = if nasty { inj(s, |s| token(s, 1, 8)) } else { token(s, 1, 8) };
        let Some(mut l) = take(WatcherList::new(res.as_str(), pkg.as_str()), nasty, "WatcherList::new", &res)? else { continue };
        let mut ws = vec![];
        for _ in 0..s.urange(0, 3) {
            let mut w = watcher_m(s, nasty);
            let Some(mut x) = take(Watcher::new(w.id.as_str(), WSTAT[w.status].1, WEV[w.event].1), nasty, "Watcher::new", &w.id)? else { continue };
            if let Some(u) = w.uri.clone() {
                match take(x.clone().with_uri(u.as_str()), nasty, "with_uri", &u)? {
                    Some(y) => {
                        x = y;
                        w.uri = Some(norm(&u));
                    }
                    None => w.uri = None,
                }
            }
            if let Some(u) = w.name.clone() {
                match take(x.clone().with_display_name(u.as_str()), nasty, "with_display_name", &u)? {
                    Some(y) => x = y,
                    None => w.name = None,
                }
            }
            if let Some(v) = w.exp {
                x = x.with_expiration(v);
            }
            if let Some(v) = w.dur {
                x = x.with_duration_subscribed(v);
            }
            ok(l.add_watcher(x), "add_watcher")?;
            ws.push(w);
        }
        ok(doc.add_watcher_list(l), "add_watcher_list")?;
        m.lists.push((res, pkg, ws));
    }
    ctx.desc(|| format!("{m:?}"));
    if m.lists.iter().any(|l| l.2.iter().any(|w| w.name.as_ref().is_some_and(|n| n.contains(['<', '>', '&', '"', '\''])))) {
        ctx.nontrivial(format!("{m:?}"));
    }
    ensure_eq!(wi_of(&doc), m, "winfo:getters", "values read back from the builder");
    let x = doc.to_xml();
    ensure_eq!(doc.to_string(), x, "winfo:display", "Display and to_xml differ");
    match xml::parse(&x).and_then(|e| wi_xml(&e)) {
        Ok(r) => ensure_eq!(r, m, "winfo:xml", "document {x:?}"),
        Err(e) => return fail("winfo:not-well-formed", format!("{e}: {x:?}")),
    }
    match parse_watcherinfo(&x) {
        Ok(d) => ensure_eq!(wi_of(&d), m, "winfo:round-trip", "document {x:?}"),
        Err(e) => return fail("winfo:round-trip", format!("{e}: {x:?}")),
    }
    Ok(())
}
fn winfo(s: &mut Src, ctx: &mut Ctx) -> R {
    winfo_build(s, ctx, false)
}
fn winfo_foreign(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = WiM {
        version: s.num(100_000) as u32,
        full: s.coin(),
        lists: s.many(0, 3, 10, |s| (g::any_uri(s), token(s, 1, 8), s.many(0, 3, 20, |s| watcher_m(s, false)))),
    };
    let mut root = El::new(WI, "watcherinfo").attr("version", m.version).attr("state", if m.full { "full" } else { "partial" });
    let ext = s.chance(1, 4);
    for (r, p, ws) in &m.lists {
        let mut l = El::new(WI, "watcher-list").attr("resource", r).attr("package", p);
        for w in ws {
            let mut e = El::new(WI, "watcher").attr("id", &w.id).attr("status", WSTAT[w.status].0).attr("event", WEV[w.event].0);
            if let Some(n) = &w.name {
                e = e.attr("display-name", n);
            }
            if let Some(n) = w.exp {
                e = e.attr("expiration", n);
            }
            if let Some(n) = w.dur {
                e = e.attr("duration-subscribed", n);
            }
            if s.chance(1, 4) {
                e = e.attr("xml:lang", "en");
            }
            if let Some(u) = &w.uri {
                e = e.text(u);
            }
            l = l.kid(e);
        }
        if ext {
            l = l.kid(El::new(DM, "watcher").attr("id", "lure").attr("status", "active").attr("event", "approved"));
        }
        root = root.kid(l);
    }
    if ext {
        root = root.kid(El::new(DM, "watcher-list").text("lure"));
    }
    let st = style(s, WI, DM);
    let w = xml::write(s, &st, &root);
    if xml::parse(&w).is_err() {
        return fail("harness", format!("generator wrote a bad document {w:?}"));
    }
    ctx.desc(|| w.clone());
    if m.lists.iter().any(|l| l.2.len() > 1) {
        ctx.nontrivial(&w);
    }
    match parse_watcherinfo(&w) {
        Ok(d) => ensure_eq!(wi_of(&d), m, "winfo:foreign", "document {w}"),
        Err(e) => return fail("winfo:foreign-rejected", format!("{e}: {w}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- reginfo

pub fn reginfo_build(s: &mut Src, ctx: &mut Ctx, nasty: bool) -> R {
    use sip_core::reg_event::{Contact, ContactEvent, ContactState, RegInfo, RegInfoState, Registration, RegistrationState};
    const RI: &str = "urn:ietf:params:xml:ns:reginfo";
    let (version, full) = (s.num(u32::MAX as u64) as u32, s.coin());
    let mut doc = RegInfo::new(version, if full { RegInfoState::Full } else { RegInfoState::Partial });
    let mut want = El::new(RI, "reginfo").attr("version", version).attr("state", if full { "full" } else { "partial" });
    let evs = [
        ("registered", ContactEvent::Registered),
        ("created", ContactEvent::Created),
        ("refreshed", ContactEvent::Refreshed),
        ("shortened", ContactEvent::Shortened),
        ("expired", ContactEvent::Expired),
        ("deactivated", ContactEvent::Deactivated),
        ("rejected", ContactEvent::Rejected),
        ("unregistered", ContactEvent::Unregistered),
        ("probation", ContactEvent::Probation),
    ];
    let mut n = 0;
    for _ in 0..s.urange(0, 3) {
        let (aor, id) = (uri_text(s, nasty), txt(s, nasty, 1, 8));
        let (sn, sv) = *s.pick(&[("init", RegistrationState::Init), ("active", RegistrationState::Active), ("terminated", RegistrationState::Terminated)]);
        let Some(mut r) = take(Registration::new(&aor, &id, sv), nasty, "Registration::new", &aor)? else { continue };
        let mut re = El::new(RI, "registration").attr("aor", &aor).attr("id", &id).attr("state", sn);
        for _ in 0..s.urange(0, 3) {
            let (id, uri) = (txt(s, nasty, 1, 8), uri_text(s, nasty));
            let (sn, sv) = *s.pick(&[("active", ContactState::Active), ("terminated", ContactState::Terminated)]);
            let Some(mut c) = take(Contact::new(&id, sv, &uri), nasty, "Contact::new", &uri)? else { continue };
            let mut ce = El::new(RI, "contact").attr("id", &id).attr("state", sn);
            if s.coin() {
                let (en, ev) = *s.pick(&evs);
                ensure_eq!(ContactEvent::parse(en), Some(ev), "reginfo:event-parse", "{en}");
                c = c.with_event(ev);
                ce = ce.attr("event", en);
            }
            for (k, f) in [("expires", 0), ("retry-after", 1), ("duration-registered", 2), ("cseq", 3)] {
                if s.chance(1, 3) {
                    let v = s.num(u32::MAX as u64) as u32;
                    c = match f {
                        0 => c.with_expires(v),
                        1 => c.with_retry_after(v),
                        2 => c.with_duration_registered(v),
                        _ => c.with_cseq(v),
                    };
                    ce = ce.attr(k, v);
                }
            }
            if s.chance(1, 3) {
                let q = s.range(0, 1000) as f32 / 1000.0;
                c = ok(c.with_q(q), "with_q")?;
                ce = ce.attr("q", q);
            }
            if s.chance(1, 3) {
                let v = txt(s, nasty, 1, 8);
                if let Some(x) = take(c.clone().with_call_id(&v), nasty, "with_call_id", &v)? {
                    c = x;
                    ce = ce.attr("callid", &v);
                }
            }
            ce = ce.kid(El::new(RI, "uri").text(&uri));
            if s.coin() {
                let v = txt(s, nasty, 0, 8);
                if let Some(x) = take(c.clone().with_display_name(&v), nasty, "with_display_name", &v)? {
                    c = x;
                    ce = ce.kid(if v.is_empty() { El::new(RI, "display-name") } else { El::new(RI, "display-name").text(&v) });
                }
            }
            ok(r.add_contact(c), "add_contact")?;
            re = re.kid(ce);
            n += 1;
        }
        ok(doc.add_registration(r), "add_registration")?;
        want = want.kid(re);
    }
    let x = doc.to_string();
    ctx.desc(|| x.clone());
    if n > 1 {
        ctx.nontrivial(&x);
    }
    fn canon(e: &El) -> El {
        let mut e = e.clone();
        e.attrs.sort();
        if e.els().next().is_some() || e.name == "registration" || e.name == "reginfo" {
            e.kids.retain(|k| matches!(k, Node::El(_)));
        }
        for k in e.kids.iter_mut() {
            if let Node::El(x) = k {
                *x = canon(x);
            }
        }
        e
    }
    match xml::parse(&x) {
        Ok(e) => ensure_eq!(canon(&e), canon(&want), "reginfo:xml", "document {x}"),
        Err(e) => return fail("reginfo:not-well-formed", format!("{e}: {x:?}")),
    }
    Ok(())
}
fn reginfo(s: &mut Src, ctx: &mut Ctx) -> R {
    reginfo_build(s, ctx, false)
}

// ---------------------------------------------------------------- message-summary

const CLASSES: [(&str, MessageContextClass); 6] = [
    ("Voice-Message", MessageContextClass::Voice),
    ("Fax-Message", MessageContextClass::Fax),
    ("Pager-Message", MessageContextClass::Pager),
    ("Multimedia-Message", MessageContextClass::Multimedia),
    ("Text-Message", MessageContextClass::Text),
    ("None-Message", MessageContextClass::None),
];
const MH: [&str; 7] = ["To", "From", "Subject", "Date", "Priority", "Message-ID", "Message-Context"];
#[derive(Clone, Debug, PartialEq, Default)]
struct MwiM {
    waiting: bool,
    account: Option<String>,
    counts: BTreeMap<usize, (u32, u32, u32, u32)>,
    heads: Vec<[Option<String>; 7]>,
}
fn mwi_of(m: &MessageSummary) -> MwiM {
    let t = |v: Option<&str>| v.map(|v| v.trim().to_string());
    MwiM {
        waiting: m.messages_waiting(),
        account: t(m.account()),
        counts: m
            .messages()
            .map(|(c, n)| (CLASSES.iter().position(|x| x.1 == *c).unwrap(), (n.new_count(), n.old_count(), n.urgent_new(), n.urgent_old())))
            .collect(),
        heads: m
            .message_headers()
            .map(|h| [t(h.to()), t(h.from()), t(h.subject()), t(h.date()), t(h.priority()), t(h.message_id()), t(h.message_context())])
            .collect(),
    }
}
fn count(s: &mut Src) -> u32 {
    match s.weighted(&[4, 2, 1]) {
        0 => s.num(20) as u32,
        1 => 0,
        _ => s.num(u32::MAX as u64) as u32,
    }
}
fn mwi_m(s: &mut Src, nasty: bool) -> MwiM {
    let mut counts = BTreeMap::new();
    for _ in 0..s.urange(0, 4) {
        let u = s.coin();
        counts.insert(s.idx(6), (count(s), count(s), if u { count(s) } else { 0 }, if u { count(s) } else { 0 }));
    }
    MwiM {
        waiting: s.coin(),
        account: s.opt(1, 2, |s| uri_text(s, nasty)),
        counts,
        heads: s.many(0, 3, 14, |s| {
            let must = s.idx(7);
            std::array::from_fn(|i| if i == must || s.chance(1, 3) { Some(if nasty { inj(s, |s| text(s, 0, 8)) } else { text(s, 0, 10) }) } else { None })
        }),
    }
}
/// Reading of the body per RFC 3842: status line, account, counts, then one block of headers per message after a blank line.
fn mwi_read(b: &str) -> Result<MwiM, String> {
    let mut m = MwiM::default();
    let mut block = 0usize;
    let mut cur: Option<[Option<String>; 7]> = None;
    if !b.ends_with('\n') {
        return Err("no final line end".into());
    }
    for (i, line) in b.strip_suffix('\n').unwrap().split('\n').enumerate() {
        let line = line.strip_suffix('\r').ok_or(format!("line {i} ends without CR"))?;
        if line.is_empty() {
            block += 1;
            m.heads.extend(cur.take());
            continue;
        }
        let (n, v) = line.split_once(':').ok_or(format!("line {line:?}"))?;
        let v = v.trim();
        if i == 0 {
            if n != "Messages-Waiting" {
                return Err("first line".into());
            }
            m.waiting = v == "yes";
        } else if block == 0 && n == "Message-Account" && m.account.is_none() && m.counts.is_empty() {
            m.account = Some(v.into());
        } else if let Some(c) = CLASSES.iter().position(|x| x.0 == n).filter(|_| block == 0) {
            let nums: Vec<u32> = v.split(['/', ' ', '(', ')']).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(u32::MAX)).collect();
            let r = match nums[..] {
                [a, b] => (a, b, 0, 0),
                [a, b, c, d] => (a, b, c, d),
                _ => return Err(format!("counts {v:?}")),
            };
            if m.counts.insert(c, r).is_some() {
                return Err(format!("repeated {n}"));
            }
        } else if let Some(h) = MH.iter().position(|x| *x == n).filter(|_| block > 0) {
            let c = cur.get_or_insert_with(Default::default);
            if c[h].replace(v.into()).is_some() {
                return Err(format!("repeated {n}"));
            }
        } else {
            return Err(format!("line {line:?} in block {block}"));
        }
    }
    m.heads.extend(cur.take());
    Ok(m)
}
pub fn mwi_build(s: &mut Src, ctx: &mut Ctx, nasty: bool) -> R {
    let mut m = mwi_m(s, nasty);
    let mut d = MessageSummary::new(m.waiting);
    if let Some(a) = m.account.clone() {
        if take(d.set_account(&a), nasty, "set_account", &a)?.is_none() {
            m.account = None;
        }
    }
    for (c, n) in &m.counts {
        ok(d.add_message_class(CLASSES[*c].1, MessageCounts::new(n.0, n.1).with_urgent(n.2, n.3)), "add_message_class")?;
    }
    for h in m.heads.iter_mut() {
        let mut x = MessageHeader::new();
        for i in 0..7 {
            let Some(v) = h[i].clone() else { continue };
            let c = x.clone();
            let r = match i {
                0 => c.with_to(&v),
                1 => c.with_from(&v),
                2 => c.with_subject(&v),
                3 => c.with_date(&v),
                4 => c.with_priority(&v),
                5 => c.with_message_id(&v),
                _ => c.with_message_context(&v),
            };
            match take(r, nasty, MH[i], &v)? {
                Some(y) => x = y,
                None => h[i] = None,
            }
        }
        if h.iter().any(|v| v.is_some()) {
            ok(d.add_message_header(x), "add_message_header")?;
        }
    }
    m.heads.retain(|h| h.iter().any(|v| v.is_some()));
    let trim = |o: &mut Option<String>| *o = o.take().map(|v| v.trim().to_string());
    trim(&mut m.account);
    m.heads.iter_mut().for_each(|h| h.iter_mut().for_each(trim));
    ctx.desc(|| format!("{m:?}"));
    if m.heads.len() > 1 || m.counts.len() > 1 {
        ctx.nontrivial(format!("{m:?}"));
    }
    ensure_eq!(mwi_of(&d), m, "mwi:getters", "values read back");
    let sat = |f: fn(&(u32, u32, u32, u32)) -> u64| m.counts.values().map(f).sum::<u64>().min(u32::MAX as u64) as u32;
    ensure_eq!(vlib::no_panic("total_new", || d.total_new())?, sat(|c| c.0 as u64), "mwi:total", "total_new of {m:?}");
    ensure_eq!(vlib::no_panic("total_old", || d.total_old())?, sat(|c| c.1 as u64), "mwi:total", "total_old of {m:?}");
    for (_, c) in d.messages() {
        let w = (c.new_count() as u64 + c.old_count() as u64).min(u32::MAX as u64) as u32;
        ensure_eq!(vlib::no_panic("total", || c.total())?, w, "mwi:total", "total");
        vlib::no_panic("total_urgent", || c.total_urgent())?;
    }
    ensure_eq!(d.has_urgent(), m.counts.values().any(|c| c.2 > 0 || c.3 > 0), "mwi:urgent", "has_urgent");
    let b = d.to_string();
    match mwi_read(&b) {
        Ok(r) => ensure_eq!(r, m, "mwi:text", "body {b:?}"),
        Err(e) => return fail("mwi:text", format!("{e}: {b:?}")),
    }
    match parse_message_summary(&b) {
        Ok(r) => ensure_eq!(mwi_of(&r), m, "mwi:round-trip", "body {b:?}"),
        Err(e) => return fail("mwi:round-trip", format!("{e}: {b:?}")),
    }
    Ok(())
}
fn mwi(s: &mut Src, ctx: &mut Ctx) -> R {
    mwi_build(s, ctx, false)
}
fn mwi_foreign(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = mwi_m(s, false);
    let eol = *s.pick(&["\r\n", "\r\n", "\n"]);
    let sw = |s: &mut Src| *s.pick(&["", "", "", " "]);
    let colon = |s: &mut Src| s.pick(&[": ", ":", " : ", ":\t", ":  "]).to_string();
    let rc = |s: &mut Src, n: &str| if s.chance(1, 4) { recase(s, n) } else { n.to_string() };
    let yes = if m.waiting { "yes" } else { "no" };
    let mut b = format!("{}{}{}{eol}", rc(s, "Messages-Waiting"), colon(s), rc(s, yes));
    if let Some(a) = &m.account {
        b += &format!("{}{}{a}{eol}", rc(s, "Message-Account"), colon(s));
    }
    let mut order: Vec<_> = m.counts.iter().collect();
    s.shuffle(&mut order);
    for (c, n) in order {
        b += &format!("{}{}{}{}/{}{}", rc(s, CLASSES[*c].0), colon(s), n.0, sw(s), sw(s), n.1);
        if n.2 > 0 || n.3 > 0 || s.chance(1, 4) {
            b += &format!("{}({}{}{}/{}{}{})", s.pick(&[" ", "", "  "]), sw(s), n.2, sw(s), sw(s), n.3, sw(s));
        }
        b += eol;
        if s.chance(1, 8) {
            b += &format!("X-Other-Message: 1/2{eol}");
        }
    }
    for h in &m.heads {
        b += eol;
        for (i, v) in h.iter().enumerate() {
            if let Some(v) = v {
                b += &format!("{}{}{v}{eol}", rc(s, MH[i]), colon(s));
                if s.chance(1, 8) {
                    b += &format!("X-Extra: {}{eol}", text(s, 0, 5));
                }
            }
        }
    }
    let mut m = m;
    m.account = m.account.map(|v| v.trim().to_string());
    for h in m.heads.iter_mut() {
        for v in h.iter_mut() {
            *v = v.take().map(|v| v.trim().to_string());
        }
    }
    ctx.desc(|| b.clone());
    if m.heads.len() + m.counts.len() > 2 {
        ctx.nontrivial(&b);
    }
    match parse_message_summary(&b) {
        Ok(r) => ensure_eq!(mwi_of(&r), m, "mwi:foreign", "body {b:?}"),
        Err(e) => return fail("mwi:foreign-rejected", format!("{e}: {b:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- CPIM

type CpH = BTreeMap<String, Vec<(String, BTreeMap<String, String>)>>;
#[derive(Clone, Debug, PartialEq, Default)]
struct CpimM {
    heads: CpH,
    ctype: String,
    cheads: BTreeMap<String, String>,
    body: Vec<u8>,
}
fn cpim_of(m: &CpimMessage) -> CpimM {
    CpimM {
        heads: m
            .headers()
            .iter()
            .map(|(k, v)| {
                (k.to_string(), v.iter().map(|h| (h.value().trim().to_string(), h.params().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())).collect())
            })
            .collect(),
        ctype: m.content_type().trim().into(),
        cheads: m.content_headers().iter().map(|(k, v)| (k.to_string(), v.trim().to_string())).collect(),
        body: m.body().to_vec(),
    }
}
fn cpim_escape(v: &str) -> String {
    let mut o = String::new();
    for c in v.chars() {
        match c {
            '\\' => o += "\\\\",
            '"' => o += "\\\"",
            '\u{8}' => o += "\\b",
            '\t' => o += "\\t",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            c if c.is_control() => o += &format!("\\u{:04X}", c as u32),
            c => o.push(c),
        }
    }
    o
}
/// Reading per RFC 3862: MIME headers, message headers, content headers, content.
fn cpim_read(t: &str) -> Result<CpimM, String> {
    fn section<'a>(t: &mut &'a str) -> Result<Vec<&'a str>, String> {
        let mut lines = vec![];
        loop {
            let (l, rest) = t.split_once("\r\n").ok_or("no blank line")?;
            *t = rest;
            if l.is_empty() {
                return Ok(lines);
            }
            lines.push(l);
        }
    }
    let mut t = t;
    let mime = section(&mut t)?;
    if mime != ["Content-type: Message/CPIM"] {
        return Err(format!("MIME headers {mime:?}"));
    }
    let mut m = CpimM::default();
    for l in section(&mut t)? {
        let (n, rest) = l.split_once(':').ok_or(format!("line {l:?}"))?;
        let (ps, v) = rest.split_once(' ').ok_or(format!("no space in {l:?}"))?;
        let mut params = BTreeMap::new();
        for p in ps.split(';').skip(1) {
            let (a, b) = p.split_once('=').ok_or(format!("param {p:?}"))?;
            params.insert(a.to_string(), b.to_string());
        }
        let mut o = String::new();
        let mut it = v.chars();
        while let Some(c) = it.next() {
            o.push(if c == '\\' {
                match it.next() {
                    Some('b') => '\u{8}',
                    Some('t') => '\t',
                    Some('n') => '\n',
                    Some('r') => '\r',
                    Some('u') => char::from_u32(u32::from_str_radix(&it.by_ref().take(4).collect::<String>(), 16).map_err(|e| e.to_string())?).ok_or("char")?,
                    Some(c @ ('\\' | '"' | '\'')) => c,
                    x => return Err(format!("escape {x:?}")),
                }
            } else {
                c
            });
        }
        m.heads.entry(n.to_string()).or_default().push((o.trim().to_string(), params));
    }
    for (i, l) in section(&mut t)?.into_iter().enumerate() {
        let (n, v) = l.split_once(':').ok_or(format!("line {l:?}"))?;
        if i == 0 {
            m.ctype = v.trim().into();
        } else if m.cheads.insert(n.into(), v.trim().into()).is_some() {
            return Err(format!("repeated {n}"));
        }
    }
    m.body = t.as_bytes().to_vec();
    Ok(m)
}
fn cbody(s: &mut Src) -> String {
    s.many(0, 6, 24, |s| match s.weighted(&[4, 3, 1]) {
        0 => text(s, 0, 6),
        1 => s.pick(&["\r\n", "\r\n\r\n", "\n", "\n\n", "\r", "\r\n\r\n\r\n"]).to_string(),
        _ => "Content-type: text/html".into(),
    })
    .concat()
}
pub fn cpim_build(s: &mut Src, ctx: &mut Ctx, nasty: bool) -> R {
    let ctype = if nasty { inj(s, |_| "text/plain; charset=utf-8".into()) } else { s.pick(&["text/plain", "text/plain; charset=utf-8", "message/sip"]).to_string() };
    let body = cbody(s);
    let Some(mut d) = take(CpimMessage::new(&ctype, body.clone().into_bytes()), nasty, "CpimMessage::new", &ctype)? else { return Ok(()) };
    let mut m = CpimM { ctype: ctype.trim().into(), body: body.into_bytes(), ..Default::default() };
    for _ in 0..s.urange(0, 4) {
        let v = if nasty { inj(s, |s| text(s, 0, 8)) } else if s.chance(1, 5) { nasty_text(s) } else { text(s, 0, 12) };
        let one = |m: &mut CpimM, n: &str, v: &str, add: bool| {
            let e = m.heads.entry(n.into()).or_default();
            if !add {
                e.clear();
            }
            e.push((v.trim().to_string(), BTreeMap::new()));
        };
        let c = d.clone();
        match s.below(9) {
            0 => {
                if let Some(x) = take(c.with_from(&v), nasty, "with_from", &v)? {
                    d = x;
                    one(&mut m, "From", &v, false);
                }
            }
            1 => {
                if let Some(x) = take(c.with_to(&v), nasty, "with_to", &v)? {
                    d = x;
                    one(&mut m, "To", &v, true);
                }
            }
            2 => {
                if let Some(x) = take(c.with_datetime(&v), nasty, "with_datetime", &v)? {
                    d = x;
                    one(&mut m, "DateTime", &v, false);
                }
            }
            3 => {
                if let Some(x) = take(c.with_subject(&v), nasty, "with_subject", &v)? {
                    d = x;
                    one(&mut m, "Subject", &v, true);
                }
            }
            4 => {
                let lang = if nasty { inj(s, |_| "fr".into()) } else { s.pick(&["fr", "en-GB", "de"]).to_string() };
                if let Some(x) = take(c.with_subject_lang(&v, &lang), nasty, "with_subject_lang", &v)? {
                    d = x;
                    m.heads.entry("Subject".into()).or_default().push((v.trim().into(), [("lang".to_string(), lang)].into()));
                }
            }
            5 => {
                if let Some(x) = take(c.with_cc(&v), nasty, "with_cc", &v)? {
                    d = x;
                    one(&mut m, "cc", &v, true);
                }
            }
            6 => {
                let name = if nasty { inj(s, |s| ident(s, 1, 6)) } else { format!("{}.{}", ident(s, 1, 4), ident(s, 1, 4)) };
                let mut x = d.clone();
                if take(x.set_header(&name, &v), nasty, "set_header", &name)?.is_some() {
                    d = x;
                    one(&mut m, &name, &v, false);
                }
            }
            7 => {
                let mut ps = BTreeMap::new();
                let Some(mut h) = take(CpimHeader::new(&v), nasty, "CpimHeader::new", &v)? else { continue };
                for _ in 0..s.urange(0, 3) {
                    let (a, b) = if nasty { (inj(s, |s| ident(s, 1, 4)), inj(s, |s| token(s, 1, 4))) } else { (ident(s, 1, 5), token(s, 1, 5)) };
                    if let Some(x) = take(h.clone().with_param(&a, &b), nasty, "CpimHeader::with_param", &format!("{a}={b}"))? {
                        h = x;
                        ps.insert(a, b);
                    }
                }
                let name = ident(s, 1, 5);
                ok(d.add_header_obj(&name, h), "add_header_obj")?;
                m.heads.entry(name).or_default().push((v.trim().into(), ps));
            }
            _ => {
                let (n, v) = if nasty { (inj(s, |s| format!("X-{}", ident(s, 1, 4))), inj(s, |s| text(s, 0, 6))) } else { (format!("Content-{}", s.pick(&["ID", "Disposition", "Language"])), text(s, 0, 8)) };
                let mut x = d.clone();
                if take(x.add_content_header(&n, &v), nasty, "add_content_header", &n)?.is_some() {
                    d = x;
                    m.cheads.insert(n, v.trim().into());
                }
            }
        }
    }
    ctx.desc(|| format!("{m:?}"));
    if !m.heads.is_empty() && m.body.windows(4).any(|w| w == b"\r\n\r\n") {
        ctx.nontrivial(format!("{m:?}"));
    }
    ensure_eq!(cpim_of(&d), m, "cpim:getters", "values read back");
    let t = match d.to_string() {
        Ok(t) => t,
        Err(e) => return fail("cpim:print", format!("{e}: {m:?}")),
    };
    match cpim_read(&t) {
        Ok(r) => ensure_eq!(r, m, "cpim:text", "message {t:?}"),
        Err(e) => return fail("cpim:text", format!("{e}: {t:?}")),
    }
    match parse_cpim(&t) {
        Ok(r) => ensure_eq!(cpim_of(&r), m, "cpim:round-trip", "message {t:?}"),
        Err(e) => return fail("cpim:round-trip", format!("{e}: {t:?}")),
    }
    Ok(())
}
fn nasty_text(s: &mut Src) -> String {
    vlib::gen::nasty(s, 0, 8)
}
fn cpim(s: &mut Src, ctx: &mut Ctx) -> R {
    cpim_build(s, ctx, false)
}
fn cpim_foreign(s: &mut Src, ctx: &mut Ctx) -> R {
    let eol = *s.pick(&["\r\n", "\r\n", "\n"]);
    let mut m = CpimM { ctype: s.pick(&["text/plain", "text/xml; charset=utf-8"]).to_string(), body: cbody(s).into_bytes(), ..Default::default() };
    let mut t = format!("{}: {}{eol}{eol}", s.pick(&["Content-type", "Content-Type"]), s.pick(&["Message/CPIM", "message/cpim"]));
    for _ in 0..s.urange(0, 4) {
        let n = if s.coin() { s.pick(&["From", "To", "cc", "Subject", "DateTime", "NS", "Require"]).to_string() } else { format!("{}.{}", ident(s, 1, 3), ident(s, 1, 3)) };
        let v = if s.chance(1, 4) { nasty_text(s) } else { text(s, 0, 8) };
        let ps: BTreeMap<String, String> = s.many(0, 2, 9, |s| (ident(s, 1, 4), token(s, 1, 5))).into_iter().collect();
        t += &format!("{n}:");
        for (a, b) in &ps {
            t += &format!(";{a}={b}");
        }
        t += &format!(" {}{eol}", cpim_escape(v.trim()));
        m.heads.entry(n).or_default().push((v.trim().into(), ps));
    }
    t += eol;
    t += &format!("{}: {}{eol}", s.pick(&["Content-type", "Content-Type", "content-type"]), m.ctype);
    for _ in 0..s.urange(0, 2) {
        let (n, v) = (format!("Content-{}", ident(s, 1, 4)), text(s, 0, 6).trim().to_string());
        if m.cheads.contains_key(&n) || n.eq_ignore_ascii_case("content-type") {
            continue;
        }
        t += &format!("{n}: {v}{eol}");
        m.cheads.insert(n, v);
    }
    t += eol;
    t += std::str::from_utf8(&m.body).unwrap();
    ctx.desc(|| t.clone());
    if m.heads.len() > 1 && m.body.len() > 3 {
        ctx.nontrivial(&t);
    }
    match parse_cpim(&t) {
        Ok(r) => ensure_eq!(cpim_of(&r), m, "cpim:foreign", "message {t:?}"),
        Err(e) => return fail("cpim:foreign-rejected", format!("{e}: {t:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- sipfrag

pub fn sipfrag_build(s: &mut Src, ctx: &mut Ctx, nasty: bool) -> R {
    let mut line = String::new();
    let mut f = match s.below(4) {
        0 => SipFrag::empty(),
        1 => {
            let (code, reason) = (s.range(100, 699) as u16, if nasty { inj(s, |s| text(s, 0, 8)) } else { text(s, 0, 8) });
            let Some(f) = take(SipFrag::status_only(code, SmolStr::new(&reason)), nasty, "status_only", &reason)? else { return Ok(()) };
            line = format!("SIP/2.0 {code} {reason}");
            f
        }
        2 => {
            let (m, u) = (g::method(s), g::sip_uri(s).wire());
            line = format!("{m} {u} SIP/2.0");
            let rl = RequestLine::new(ok(Method::from_token(&m), "method")?, ok(Uri::parse(&u), "uri")?);
            ok(SipFrag::request(rl), "request")?
        }
        _ => SipFrag::headers_only(Headers::new()),
    };
    let mut want: Vec<(String, String)> = vec![];
    for _ in 0..s.urange(0, 3) {
        let (n, v) = if nasty { (inj(s, |s| token(s, 1, 6)), inj(s, |s| text(s, 0, 8))) } else { (token(s, 1, 6), text(s, 0, 8)) };
        let v = if nasty { v } else { v.trim().to_string() };
        let mut x = f.clone();
        if n.eq_ignore_ascii_case("content-length") || n.eq_ignore_ascii_case("content-type") {
            continue;
        }
        if take(x.add_header(n.as_str(), v.as_str()), nasty, "add_header", &format!("{n}: {v}"))?.is_some() {
            f = x;
            want.push((n, v));
        }
    }
    let mut body = vec![];
    if s.coin() {
        body = if s.chance(1, 3) { bytes(s, 1, 8) } else { cbody(s).into_bytes() };
        if !body.is_empty() {
            for (n, v) in [("Content-Type", "text/plain".to_string()), ("Content-Length", body.len().to_string())] {
                ok(f.add_header(n, v.as_str()), "add_header")?;
                want.push((n.into(), v));
            }
            let bad = f.clone().with_header("X", "y").and_then(|f| f.with_body([&body[..], b"x"].concat()));
            ensure!(bad.is_err(), "sipfrag:length", "body longer than Content-Length accepted");
        }
        match f.clone().with_body(body.clone()) {
            Ok(x) => f = x,
            Err(_) if std::str::from_utf8(&body).is_err() => body.clear(),
            Err(e) => return fail("sipfrag:with_body", format!("{e}: {body:?}")),
        }
    }
    let t = vlib::no_panic("SipFrag::to_string", || f.to_string())?;
    ctx.desc(|| format!("{t:?}"));
    if !line.is_empty() && !body.is_empty() {
        ctx.nontrivial(&t);
    }
    let mut rest = t.as_str();
    if !line.is_empty() {
        let (l, r) = rest.split_once("\r\n").unwrap_or((rest, ""));
        ensure_eq!(l, line, "sipfrag:start-line", "fragment {t:?}");
        rest = r;
    }
    let mut got = vec![];
    while !rest.is_empty() && !rest.starts_with("\r\n") {
        let Some((l, r)) = rest.split_once("\r\n") else { return fail("sipfrag:line", format!("{t:?}")) };
        let Some((n, v)) = l.split_once(':') else { return fail("sipfrag:line", format!("{t:?}")) };
        got.push((n.to_string(), v.trim_matches([' ', '\t']).to_string()));
        rest = r;
    }
    let want: Vec<(String, String)> = want.into_iter().map(|(n, v)| (n, v.trim_matches([' ', '\t']).to_string())).collect();
    ensure_eq!(got, want, "sipfrag:headers", "fragment {t:?}");
    let b = rest.strip_prefix("\r\n").unwrap_or("");
    if std::str::from_utf8(&body).is_ok() {
        ensure_eq!(b.as_bytes(), &body[..], "sipfrag:body", "fragment {t:?}");
    }
    Ok(())
}
fn sipfrag(s: &mut Src, ctx: &mut Ctx) -> R {
    sipfrag_build(s, ctx, false)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        rule: "documents with several entries or with content that needs escaping",
        assumptions: &[
            "white space around URIs, timestamps, header values and account lines is not significant",
            "registration-event documents have no parser in the library: they are read by the checks' own XML reader",
        ],
        units: vec![
            unit!("pidf", 20000, 2000000, pidf),
            unit!("pidf-foreign", 20000, 2000000, pidf_foreign),
            unit!("watcherinfo", 20000, 2000000, winfo),
            unit!("watcherinfo-foreign", 20000, 2000000, winfo_foreign),
            unit!("reginfo", 20000, 2000000, reginfo),
            unit!("message-summary", 30000, 2000000, mwi),
            unit!("message-summary-foreign", 30000, 2000000, mwi_foreign),
            unit!("cpim", 30000, 2000000, cpim),
            unit!("cpim-foreign", 30000, 2000000, cpim_foreign),
            unit!("sipfrag", 30000, 2000000, sipfrag),
        ],
    }]
}
