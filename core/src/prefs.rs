//! C29: capabilities (RFC 3840) and caller preferences (RFC 3841).
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use vlib::gen::*;
use vlib::{ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

/// A feature value of the model.
#[derive(Debug, Clone, PartialEq)]
enum V {
    B(bool),
    T(String),
    L(Vec<String>),
    S(String),
    N(f64),
}
const TAGS: [(FeatureTag, &str); 19] = [
    (FeatureTag::Audio, "audio"),
    (FeatureTag::Video, "video"),
    (FeatureTag::Application, "application"),
    (FeatureTag::Data, "data"),
    (FeatureTag::Control, "control"),
    (FeatureTag::Text, "text"),
    (FeatureTag::Automata, "automata"),
    (FeatureTag::Class, "class"),
    (FeatureTag::Duplex, "duplex"),
    (FeatureTag::Mobility, "mobility"),
    (FeatureTag::Description, "description"),
    (FeatureTag::Events, "events"),
    (FeatureTag::Priority, "priority"),
    (FeatureTag::Methods, "methods"),
    (FeatureTag::Schemes, "schemes"),
    (FeatureTag::Extensions, "extensions"),
    (FeatureTag::IsFocus, "isfocus"),
    (FeatureTag::Actor, "actor"),
    (FeatureTag::Language, "language"),
];
/// tags whose value is a list
const LISTS: [&str; 5] = ["events", "priority", "methods", "schemes", "extensions"];
fn word(s: &mut Src) -> String {
    match s.below(4) {
        0 => token(s, 1, 12),
        1 => s.pick(&["nan", "inf", "INFINITY", "true", "infinity", "NaN"]).to_string(),
        _ => {
            let w = *s.pick(&["INVITE", "BYE", "fixed", "mobile", "personal", "full", "x"]);
            recase(s, w)
        }
    }
}
fn value(s: &mut Src, tag: &str) -> V {
    // values usually have the type that goes with the tag
    let natural = if LISTS.contains(&tag) {
        2
    } else {
        match tag {
            "class" | "duplex" | "mobility" | "actor" | "language" => 1,
            "description" => 3,
            _ => 0,
        }
    };
    let k = if s.chance(3, 4) { natural } else { s.below(5) };
    match k {
        0 => V::B(s.chance(2, 3)),
        1 => V::T(word(s)),
        2 => V::L(s.many(1, 4, 12, word)),
        3 => V::S(match s.below(3) {
            0 => s.pick(&["My Phone", "my phone", "5", "a,b", "", "c:\\x", "\\", "a;b=c", "<x>"]).to_string(),
            // (whitespace at the ends of a parsed string is not kept)
            _ => text(s, 0, 10).replace('"', "'").trim().to_string(),
        }),
        _ => V::N(*s.pick(&[0.0, 1.0, -1.0, 0.5, 5.0, 1e30, 1e-9, 123456.75, 5.000000001])),
    }
}
fn lib(v: &V) -> FeatureValue {
    match v {
        V::B(b) => FeatureValue::Boolean(*b),
        V::T(t) => FeatureValue::Token(t.into()),
        V::L(l) => FeatureValue::TokenList(l.iter().map(SmolStr::new).collect()),
        V::S(t) => FeatureValue::String(t.into()),
        V::N(n) => FeatureValue::Numeric(*n),
    }
}
fn of(v: &FeatureValue) -> V {
    match v {
        FeatureValue::Boolean(b) => V::B(*b),
        FeatureValue::Token(t) => V::T(t.to_string()),
        FeatureValue::TokenList(l) => V::L(l.iter().map(|t| t.to_string()).collect()),
        FeatureValue::String(t) => V::S(t.to_string()),
        FeatureValue::Numeric(n) => V::N(*n),
    }
}
type Set = BTreeMap<usize, V>;
fn set(s: &mut Src, lo: usize, hi: usize) -> Set {
    let mut m = Set::new();
    for _ in 0..s.urange(lo, hi) {
        let i = if s.chance(3, 4) { *s.pick(&[0usize, 1, 7, 9, 10, 13]) } else { s.idx(TAGS.len()) };
        let v = value(s, TAGS[i].1);
        m.insert(i, v);
    }
    m
}
fn build(m: &Set) -> Result<CapabilitySet, vlib::Fail> {
    let mut c = CapabilitySet::new();
    for (i, v) in m {
        let t = TAGS[*i].0;
        let r = match v {
            V::B(b) => c.add_boolean(t, *b),
            V::T(x) => c.add_token(t, x.as_str()),
            V::L(l) => c.add_token_list(t, l.iter().map(SmolStr::new).collect()),
            V::S(x) => c.add_string(t, x.as_str()),
            V::N(n) => c.add_numeric(t, *n),
        };
        if let Err(e) = r {
            return fail("caps:refused", format!("{v:?}: {e}"));
        }
    }
    Ok(c)
}
fn read(c: &CapabilitySet) -> Set {
    c.iter().map(|x| (TAGS.iter().position(|t| t.0 == x.tag()).unwrap(), of(x.value()))).collect()
}
/// A predicate value is met by a capability value.
fn meets(want: &V, have: &V) -> bool {
    let eq = |a: &str, b: &str| a.eq_ignore_ascii_case(b);
    match (want, have) {
        (V::B(a), V::B(b)) => a == b,
        (V::T(a), V::T(b)) => eq(a, b),
        (V::L(a), V::L(b)) => a.iter().all(|x| b.iter().any(|y| eq(x, y))),
        (V::S(a), V::S(b)) => a == b,
        (V::N(a), V::N(b)) => a == b,
        _ => false,
    }
}

// ---------------------------------------------------------------- parameters

/// What a parameter means when it is read back: the type follows from the tag and the spelling.
///
/// `wire`: the parameter went through a parsed header, which holds values without their quotes.
fn reread(i: usize, v: &V, wire: bool) -> Option<V> {
    let plain = |t: &str| !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c));
    let quoted = match v {
        V::S(t) => Some(t.clone()),
        V::L(l) => Some(l.join(",")),
        _ => None,
    };
    match quoted {
        Some(q) if wire && !LISTS.contains(&TAGS[i].1) => return if plain(&q) { reread(i, &V::T(q), false) } else { Some(V::S(q)) },
        _ => {}
    }
    let list = LISTS.contains(&TAGS[i].1);
    match v {
        V::B(false) => None,
        V::B(true) => Some(V::B(true)),
        V::T(t) if TAGS[i].1 == "description" => Some(V::S(t.clone())),
        V::N(n) if TAGS[i].1 == "description" => Some(V::S(n.to_string())),
        V::T(t) if list => Some(V::L(vec![t.clone()])),
        // a token that spells a number is a number
        V::T(t) => Some(match t.parse::<f64>() {
            Ok(n) if n.is_finite() => V::N(n),
            _ => V::T(t.clone()),
        }),
        V::L(l) if list => Some(V::L(l.clone())),
        V::L(l) => Some(V::S(l.join(","))),
        V::S(_) if list => unreachable!(),
        V::S(t) => Some(V::S(t.clone())),
        V::N(n) if list => Some(V::L(vec![n.to_string()])),
        V::N(n) => Some(V::N(*n)),
    }
}
fn params(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = set(s, 0, 6);
    // a string under a list tag has no reading
    m.retain(|i, v| !(matches!(v, V::S(_)) && LISTS.contains(&TAGS[*i].1)));
    let c = build(&m)?;
    ctx.desc(|| format!("{m:?}"));
    ensure_eq!(read(&c), m, "caps:getters", "set as built");
    ensure_eq!(c.len(), m.len(), "caps:len", "len");
    for (i, t) in TAGS.iter().enumerate() {
        ensure_eq!(c.has(t.0), m.contains_key(&i), "caps:has", "{}", t.1);
        ensure_eq!(c.get(t.0).map(of), m.get(&i).cloned(), "caps:get", "{}", t.1);
        ensure_eq!(FeatureTag::from_param_name(&recase(s, t.1)), Some(t.0), "caps:tag", "{}", t.1);
        ensure_eq!(t.0.param_name(), t.1, "caps:tag", "name of {:?}", t.0);
        ensure_eq!(t.0.as_str(), format!("sip.{}", t.1), "caps:tag", "name of {:?}", t.0);
    }
    if m.len() > 1 {
        ctx.nontrivial(format!("{m:?}"));
    }
    let want: Set = m.iter().filter_map(|(i, v)| reread(*i, v, false).map(|v| (*i, v))).collect();
    let wired: Set = m.iter().filter_map(|(i, v)| reread(*i, v, true).map(|v| (*i, v))).collect();
    let p = match c.to_params() {
        Ok(p) => p,
        Err(e) => return fail("caps:params", format!("{m:?}: {e}")),
    };
    ensure_eq!(p.len(), want.len(), "caps:params", "{p:?} from {m:?}");
    match CapabilitySet::from_params(&p) {
        Ok(r) => ensure_eq!(read(&r), want, "caps:round-trip", "through parameters {p:?}"),
        Err(e) => return fail("caps:round-trip", format!("{e}: {p:?} from {m:?}")),
    }
    // through a Contact header on the wire
    let mut all = p.clone();
    if s.coin() {
        all.insert("expires".into(), Some("60".into()));
        all.insert("q".into(), Some("0.5".into()));
    }
    let Ok(na) = NameAddr::new(None, Uri::parse("sip:a@example.com").unwrap(), all) else { return fail("caps:name-addr", format!("{p:?}")) };
    let wire = RouteHeader::new(na.clone()).to_string();
    let k = ContactHeader::new(na);
    match k.capabilities() {
        Ok(r) => ensure_eq!(read(&r), want, "caps:contact", "from the header built"),
        Err(e) => return fail("caps:contact", format!("{e}: {p:?}")),
    }
    match sip_parse::parse_contact_header(&SmolStr::new(&wire)) {
        None => fail("caps:wire", format!("{wire:?} not parsed")),
        Some(h) => match h.capabilities() {
            Ok(r) => {
                ensure_eq!(read(&r), wired, "caps:wire", "through {wire:?}");
                Ok(())
            }
            Err(e) => fail("caps:wire", format!("{e}: {wire:?} from {m:?}")),
        },
    }
}

// ---------------------------------------------------------------- matching

/// A set that shares values with `m`, some in another case, some changed.
fn related(s: &mut Src, m: &Set, lo: usize, hi: usize) -> Set {
    let mut r = Set::new();
    for _ in 0..s.urange(lo, hi) {
        if m.is_empty() || s.chance(1, 5) {
            r.extend(set(s, 1, 1));
            continue;
        }
        let i = *m.keys().nth(s.idx(m.len())).unwrap();
        let v = match &m[&i] {
            V::T(t) => V::T(if s.chance(1, 6) { format!("{t}x") } else { recase(s, t) }),
            V::L(l) => {
                let mut l2: Vec<String> = l.iter().filter_map(|t| s.chance(2, 3).then(|| recase(s, t))).collect();
                if s.chance(1, 6) {
                    l2.push(word(s));
                }
                s.shuffle(&mut l2);
                V::L(l2)
            }
            V::S(t) if s.chance(1, 4) => V::S(recase(s, t)),
            V::N(n) if s.chance(1, 4) => V::N(n + 1.0),
            V::B(b) if s.chance(1, 6) => V::B(!b),
            v => v.clone(),
        };
        r.insert(i, v);
    }
    r
}
fn matching(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = set(s, 0, 6);
    let r = related(s, &m, 0, 4);
    let (c, q) = (build(&m)?, build(&r)?);
    let want = r.iter().all(|(i, v)| m.get(i).is_some_and(|h| meets(v, h)));
    ctx.desc(|| format!("{m:?} against {r:?}: {want}"));
    if !r.is_empty() && !m.is_empty() {
        ctx.nontrivial(format!("{m:?}{r:?}"));
    }
    ctx.label(if want { "match" } else { "no match" });
    ensure_eq!(c.matches(&q), want, "match:set", "{m:?} against {r:?}");
    ensure!(c.matches(&c), "match:self", "{m:?}");
    ensure!(c.matches(&CapabilitySet::new()), "match:empty", "{m:?}");
    Ok(())
}
#[derive(Debug, Clone)]
struct Acc {
    f: Set,
    require: bool,
    explicit: bool,
}
fn score(a: &Acc, m: &Set, explicit: bool) -> f64 {
    if a.f.is_empty() {
        return 1.0;
    }
    if a.explicit && !explicit {
        return 0.0;
    }
    let hit = a.f.iter().filter(|(i, v)| m.get(i).is_some_and(|h| meets(v, h))).count();
    if a.require && hit < a.f.len() {
        return 0.0;
    }
    hit as f64 / a.f.len() as f64
}
fn acc(s: &mut Src, m: &Set) -> (Acc, AcceptContact) {
    let a = Acc { f: related(s, m, 0, 4), require: s.coin(), explicit: s.chance(1, 3) };
    let mut l = AcceptContact::new();
    let how = s.coin();
    for (i, v) in &a.f {
        if how {
            l = l.with_feature(TAGS[*i].0, lib(v)).unwrap();
        } else {
            l.add_feature(TAGS[*i].0, lib(v)).unwrap();
        }
    }
    if a.require {
        l = l.with_require();
    }
    if a.explicit {
        l = l.with_explicit();
    }
    (a, l)
}
fn predicates(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = set(s, 0, 6);
    let c = build(&m)?;
    let (a, l) = acc(s, &m);
    let ex = s.chance(2, 3);
    let want = score(&a, &m, ex);
    ctx.desc(|| format!("{a:?} against {m:?} explicit={ex}: {want}"));
    if !a.f.is_empty() && !m.is_empty() {
        ctx.nontrivial(format!("{a:?}{m:?}{ex}"));
    }
    ctx.label(if want == 1.0 { "all" } else if want == 0.0 { "none" } else { "part" });
    let got = l.matches(&c, ex);
    ensure!((0.0..=1.0).contains(&got) && (got - want).abs() < 1e-12, "accept:score", "{got} instead of {want}: {a:?} against {m:?} explicit={ex}");
    ensure_eq!((l.require(), l.explicit(), l.feature_count(), l.is_empty()), (a.require, a.explicit, a.f.len(), a.f.is_empty()), "accept:getters", "{a:?}");
    let mut r = RejectContact::new();
    for (i, v) in &a.f {
        r.add_feature(TAGS[*i].0, lib(v)).unwrap();
    }
    let want = ex && !a.f.is_empty() && a.f.iter().all(|(i, v)| m.get(i).is_some_and(|h| meets(v, h)));
    ensure_eq!(r.matches(&c, ex), want, "reject:match", "{:?} against {m:?} explicit={ex}", a.f);
    Ok(())
}
fn ordering(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.urange(0, 7);
    let base = set(s, 1, 5);
    let mut contacts = vec![];
    let mut sets = vec![];
    let mut model = vec![];
    for k in 0..n {
        let q = *s.pick(&[1.0, 0.5, 0.5, 0.0, 0.7, 1.5, -1.0]);
        let ex = s.chance(3, 4);
        let m = if s.coin() { base.clone() } else { related(s, &base, 0, 5) };
        let qa = s.opt(1, 4, |s| *s.pick(&[0.0, 0.25, 1.0, 3.0]));
        let uri = format!("sip:c{k}@example.com");
        let mut c = ScoredContact::new(uri.as_str(), q).unwrap().with_explicit_features(ex);
        if let Some(x) = qa {
            c = c.with_caller_qa(x).unwrap();
        }
        contacts.push(c);
        sets.push(build(&m)?);
        model.push((uri, f64::clamp(q, 0.0, 1.0), qa.map_or(1.0, |x| f64::clamp(x, 0.0, 1.0)), ex, m));
    }
    let accs: Vec<(Acc, AcceptContact)> = s.many(0, 3, 8, |s| acc(s, &base));
    let rejs: Vec<Set> = s.many(0, 2, 8, |s| related(s, &base, 0, 3));
    let rl: Vec<RejectContact> = rejs
        .iter()
        .map(|f| {
            let mut r = RejectContact::new();
            for (i, v) in f {
                r = r.with_feature(TAGS[*i].0, lib(v)).unwrap();
            }
            r
        })
        .collect();
    let al: Vec<AcceptContact> = accs.iter().map(|a| a.1.clone()).collect();
    if s.chance(1, 20) {
        sets.push(CapabilitySet::new());
        ensure!(score_contacts(contacts, &al, &rl, &sets).is_err(), "order:mismatch", "{} sets for {n} contacts accepted", n + 1);
        return Ok(());
    }
    let mut want = vec![];
    for (uri, q, qa, ex, m) in model {
        if rejs.iter().any(|f| ex && !f.is_empty() && f.iter().all(|(i, v)| m.get(i).is_some_and(|h| meets(v, h)))) {
            ctx.label("rejected");
            continue;
        }
        let sc: Vec<f64> = accs.iter().map(|a| score(&a.0, &m, ex)).collect();
        if accs.iter().zip(&sc).any(|(a, x)| a.0.require && *x == 0.0) {
            ctx.label("dropped");
            continue;
        }
        let qa = if sc.is_empty() { qa } else { sc.iter().sum::<f64>() / sc.len() as f64 };
        want.push((uri, q, qa));
    }
    ctx.desc(|| format!("{accs:?} {rejs:?} -> {want:?}"));
    if want.len() > 1 {
        ctx.nontrivial(format!("{accs:?}{rejs:?}{want:?}"));
    }
    let got = match score_contacts(contacts, &al, &rl, &sets) {
        Ok(g) => g,
        Err(e) => return fail("order:refused", e.to_string()),
    };
    // who is left
    let mut a: Vec<String> = got.iter().map(|c| c.uri().to_string()).collect();
    let mut b: Vec<String> = want.iter().map(|c| c.0.clone()).collect();
    a.sort();
    b.sort();
    ensure_eq!(a, b, "order:members", "{accs:?} {rejs:?}");
    for g in &got {
        let w = want.iter().find(|w| w.0 == g.uri()).unwrap();
        ensure!((g.callee_q() - w.1).abs() < 1e-12 && (g.caller_qa() - w.2).abs() < 1e-12, "order:scores", "{g:?} instead of {w:?}");
    }
    for p in got.windows(2) {
        let (x, y) = (&p[0], &p[1]);
        ensure!(
            x.callee_q() > y.callee_q() || x.callee_q() == y.callee_q() && x.caller_qa() >= y.caller_qa() - 1e-12,
            "order:preference",
            "{x:?} in front of {y:?}"
        );
    }
    Ok(())
}
/// Request-Disposition.
fn disposition(s: &mut Src, ctx: &mut Ctx) -> R {
    const D: [[&str; 2]; 6] = [["proxy", "redirect"], ["fork", "no-fork"], ["cancel", "no-cancel"], ["recurse", "no-recurse"], ["parallel", "sequential"], ["queue", "no-queue"]];
    let mut want: [Option<usize>; 6] = [None; 6];
    let mut parts = vec![];
    for _ in 0..s.urange(0, 8) {
        let (i, j) = (s.idx(6), s.idx(2));
        if s.chance(1, 8) {
            parts.push(s.pick(&["", "x", "no-proxy", "forks", "serial"]).to_string());
            continue;
        }
        want[i] = Some(j);
        let pad = *s.pick(&["", " ", "  "]);
        parts.push(format!("{pad}{}{pad}", recase(s, D[i][j])));
    }
    let t = parts.join(",");
    ctx.desc(|| t.clone());
    let flat = |d: &RequestDisposition| {
        [
            d.proxy().map(|x| x.as_str().to_string()),
            d.fork().map(|x| x.as_str().to_string()),
            d.cancel().map(|x| x.as_str().to_string()),
            d.recurse().map(|x| x.as_str().to_string()),
            d.parallel().map(|x| x.as_str().to_string()),
            d.queue().map(|x| x.as_str().to_string()),
        ]
    };
    let names: Vec<Option<String>> = want.iter().enumerate().map(|(i, j)| j.map(|j| D[i][j].to_string())).collect();
    let Some(d) = RequestDisposition::parse(&t) else {
        ensure!(want.iter().all(|x| x.is_none()), "disposition:refused", "{t:?}");
        return Ok(());
    };
    ensure_eq!(flat(&d).to_vec(), names, "disposition:parse", "{t:?}");
    ctx.nontrivial(&t);
    let out = d.to_string();
    let got: Vec<&str> = out.split(',').map(|x| x.trim()).collect();
    let exp: Vec<&str> = names.iter().flatten().map(|x| x.as_str()).collect();
    ensure_eq!(got, exp, "disposition:print", "{t:?}");
    ensure_eq!(RequestDisposition::parse(&out), Some(d), "disposition:round-trip", "{out:?}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "a feature set or predicate set with at least one feature on each side (two for parameter round trips), a list of at least two contacts left, or a disposition with a known directive; distinct by content",
        assumptions: &[
            "feature values are written in the form the library documents: unquoted tokens and numbers, quoted strings and lists; the type read back follows from the tag and the spelling",
            "a false boolean is the same as an absent one in parameters",
            "values of different types never match",
        ],
        units: vec![
            unit!("params", 60000, 3000000, params),
            unit!("matching", 100000, 5000000, matching),
            unit!("predicates", 100000, 5000000, predicates),
            unit!("ordering", 60000, 3000000, ordering),
            unit!("disposition", 40000, 2000000, disposition),
        ],
    }]
}
