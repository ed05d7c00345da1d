//! C23: STIR/SHAKEN identity.
use rcgen::*;
use ring::rand::SystemRandom;
use ring::signature::{EcdsaKeyPair, ECDSA_P256_SHA256_FIXED_SIGNING};
use rustls_pki_types::UnixTime;
use serde_json::{json, Map, Value};
use sip_identity::*;
use std::sync::OnceLock;
use std::time::Duration;
use vlib::gen::*;
use vlib::*;

type R = Result<(), Fail>;

/// P-256 keys used everywhere; the last one is P-384.
struct Keys {
    rc: Vec<KeyPair>,
    ring: Vec<EcdsaKeyPair>,
    dummies: Vec<Certificate>,
}
const NKEYS: usize = 6;
const NNAMES: usize = 6;
fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| {
        let mut rc: Vec<KeyPair> = (0..NKEYS).map(|_| KeyPair::generate().unwrap()).collect();
        let rng = SystemRandom::new();
        let ring = rc
            .iter()
            .map(|k| EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, &k.serialize_der(), &rng).unwrap())
            .collect();
        rc.push(KeyPair::generate_for(&PKCS_ECDSA_P384_SHA384).unwrap());
        let dummies = (0..NNAMES)
            .map(|n| {
                let mut p = CertificateParams::default();
                p.distinguished_name = dn(n);
                p.self_signed(&rc[0]).unwrap()
            })
            .collect();
        Keys { rc, ring, dummies }
    })
}
fn dn(n: usize) -> DistinguishedName {
    let mut d = DistinguishedName::new();
    d.push(DnType::OrganizationName, "STI");
    d.push(DnType::CommonName, format!("Name {n}"));
    d
}
fn b64(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(T[(v >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    o
}
fn raw_sign(key: usize, input: &[u8]) -> Vec<u8> {
    keys().ring[key].sign(&SystemRandom::new(), input).unwrap().as_ref().to_vec()
}
fn pubkey(k: usize) -> Vec<u8> {
    keys().rc[k].public_key_raw().to_vec()
}

// ---------------------------------------------------------------- sign, parse, verify, tamper

fn text(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => format!("+{}", digits(s, 1, 15)),
        1 => digits(s, 1, 12),
        2 => alnum(s, 1, 20),
        _ => s.vec(1, 8, |s| *s.pick(&['"', '\\', '\n', '\u{0}', '\u{e9}', '\u{1F600}', ';', '.', ' ', 'a', '/'])).into_iter().collect(),
    }
}
fn uri(s: &mut Src) -> String {
    let p: String = s.vec(0, 10, |s| *s.pick(&['a', 'Z', '0', '-', '.', '_', '~', '/', '%', ';', ',', '=', '?', '&', '+', ':', '@', '!', '$', '\'', '(', ')', '*', '#'])).into_iter().collect();
    format!("https://{}.example/{}", alnum(s, 1, 8), p)
}
#[derive(Clone, Debug, PartialEq)]
struct Claims {
    x5u: String,
    attest: Option<&'static str>,
    orig: Option<String>,
    dest: Vec<String>,
    iat: Option<i64>,
    origid: Option<String>,
}
fn claims(s: &mut Src) -> Claims {
    Claims {
        x5u: uri(s),
        attest: Some(s.pick(&["A", "B", "C"])),
        orig: Some(text(s)),
        dest: s.many(1, 4, 20, text),
        iat: Some(match s.weighted(&[4, 1, 1]) {
            0 => s.range(1_400_000_000, 2_200_000_000) as i64,
            1 => s.num(u64::MAX) as i64,
            _ => *s.pick(&[0, -1, i64::MAX, i64::MIN, 4294967296]),
        }),
        origid: s.opt(1, 2, text),
    }
}
fn got_claims(p: &Passport) -> Claims {
    Claims {
        x5u: p.header.x5u.clone(),
        attest: p.claims.attest.map(|a| match a {
            AttestationLevel::A => "A",
            AttestationLevel::B => "B",
            AttestationLevel::C => "C",
        }),
        orig: p.claims.orig_tn.clone(),
        dest: p.claims.dest_tns.clone(),
        iat: p.claims.iat,
        origid: p.claims.origid.clone(),
    }
}
fn params(c: &Claims) -> PassportParams {
    PassportParams {
        x5u: c.x5u.clone(),
        attest: AttestationLevel::parse(c.attest.unwrap()).unwrap(),
        orig_tn: c.orig.clone().unwrap(),
        dest_tns: c.dest.clone(),
        iat: c.iat.unwrap(),
        origid: c.origid.clone(),
    }
}
fn header_json(c: &Claims, alg: &str) -> Value {
    json!({"alg": alg, "ppt": "shaken", "typ": "passport", "x5u": c.x5u})
}
fn claims_json(c: &Claims) -> Value {
    let mut m = Map::new();
    if let Some(a) = c.attest {
        m.insert("attest".into(), json!(a));
    }
    m.insert("dest".into(), json!({ "tn": c.dest }));
    if let Some(i) = c.iat {
        m.insert("iat".into(), json!(i));
    }
    if let Some(o) = &c.orig {
        m.insert("orig".into(), json!({ "tn": o }));
    }
    if let Some(o) = &c.origid {
        m.insert("origid".into(), json!(o));
    }
    Value::Object(m)
}
fn accepted(v: &str, key: &[u8]) -> Result<Option<IdentityHeader>, Fail> {
    let h = no_panic("stir:parse", || IdentityHeader::parse(v))?;
    match h {
        Ok(h) => {
            let ok = no_panic("stir:verify", || h.passport.verify_signature(key))?.is_ok();
            Ok(ok.then_some(h))
        }
        Err(_) => Ok(None),
    }
}
fn sign_tamper(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = claims(s);
    match s.weighted(&[14, 1, 1, 1]) {
        0 => {}
        1 => c.dest.clear(),
        2 => c.orig = Some(String::new()),
        _ => {
            // not a URI: cannot stand inside <>
            let junk = s.pick(&[">", "\r\nX: y", "<", "\n", ">;ppt=div", " ", "\"", "\0", "\u{7f}"]);
            let cut = c.x5u.len() - s.urange(0, 3).min(c.x5u.len() - 10);
            c.x5u.insert_str(cut, junk);
        }
    }
    let kid = s.urange(0, NKEYS - 1);
    ctx.desc(|| format!("{c:?} key {kid}"));
    ctx.nontrivial(&format!("{c:?}"));
    let r = no_panic("stir:sign", || sign(&params(&c), &keys().ring[kid], &SystemRandom::new()))?;
    let bad_uri = c.x5u.chars().any(|ch| matches!(ch, '<' | '>' | '"' | ' ') || ch.is_control());
    if c.dest.is_empty() || c.orig.as_deref() == Some("") || bad_uri {
        ctx.label("unsignable");
        ensure!(r.is_err(), "stir:sign-accepts", "{c:?} signed: {:?}", r.map(|r| r.identity_header_value()));
        return Ok(());
    }
    let Ok(tok) = r else { return fail("stir:sign-refuses", format!("{c:?}: {r:?}")) };
    let v = tok.identity_header_value();
    if v.len() > 8192 {
        return Ok(());
    }
    let h = match IdentityHeader::parse(&v) {
        Ok(h) => h,
        Err(e) => return fail("stir:own-header", format!("{v:?}: {e}")),
    };
    ensure_eq!(got_claims(&h.passport), c, "stir:claims", "{v}");
    ensure_eq!(h.info.as_deref(), Some(c.x5u.as_str()), "stir:info", "{v}");
    ensure_eq!(h.alg.as_deref(), Some("ES256"), "stir:alg", "{v}");
    ensure_eq!(h.ppt.as_deref(), Some("shaken"), "stir:ppt", "{v}");
    ensure_eq!(h.passport.header.ppt.as_deref(), Some("shaken"), "stir:hppt", "{v}");
    ensure_eq!(h.passport.header.typ.as_deref(), Some("passport"), "stir:typ", "{v}");
    ensure_eq!(h.raw_token, tok.token, "stir:token", "{v}");
    let parts: Vec<&str> = tok.token.split('.').collect();
    ensure_eq!(parts.len(), 3, "stir:parts", "{v}");
    ensure_eq!(h.passport.signing_input, format!("{}.{}", parts[0], parts[1]).into_bytes(), "stir:input", "{v}");
    // RFC 8225 section 9: the canonical form
    ensure_eq!(parts[0], b64(header_json(&c, "ES256").to_string().as_bytes()), "stir:canonical-header", "");
    ensure_eq!(parts[1], b64(claims_json(&c).to_string().as_bytes()), "stir:canonical-claims", "");
    let key = pubkey(kid);
    if let Err(e) = h.passport.verify_signature(&key) {
        return fail("stir:own-signature", format!("{v}: {e}"));
    }
    // ---- tampering
    let mut k2 = key.clone();
    let (mut hj, mut cj, mut sig) = (parts[0].to_string(), parts[1].to_string(), h.passport.signature.clone());
    let how = s.urange(0, 12);
    let mut c2 = c.clone();
    match how {
        0 => c2.attest = Some(*s.pick(&["A", "B", "C"])),
        1 => c2.orig = Some(text(s)),
        2 => {
            if s.coin() {
                c2.dest.push(text(s));
            } else {
                let i = s.idx(c2.dest.len());
                c2.dest[i] = text(s);
            }
        }
        3 => c2.iat = Some(c.iat.unwrap() ^ 1 << s.urange(0, 63)),
        4 => c2.origid = if s.coin() { None } else { Some(text(s)) },
        5 => c2.x5u = uri(s),
        6 => {
            let bit = s.urange(0, sig.len() * 8 - 1);
            sig[bit / 8] ^= 1 << (bit % 8);
        }
        7 => match s.urange(0, 4) {
            0 => sig.truncate(s.urange(0, 63)),
            1 => sig.push(0),
            2 => sig = vec![0; 64],
            3 => sig.rotate_left(32),
            _ => {
                // another signer's signature over the same thing
                sig = raw_sign((kid + 1) % NKEYS, &h.passport.signing_input);
            }
        },
        8 => k2 = pubkey((kid + s.urange(1, NKEYS - 1)) % NKEYS),
        9 => {
            let bit = s.urange(0, k2.len() * 8 - 1);
            k2[bit / 8] ^= 1 << (bit % 8);
        }
        10 => match s.urange(0, 3) {
            0 => k2.truncate(s.urange(0, 64)),
            1 => k2.push(0),
            2 => k2 = pubkey(NKEYS),
            _ => {
                k2.truncate(33);
                k2[0] = 2 + (key[64] & 1);
            }
        },
        11 => {
            // another algorithm named, even when properly signed
            let alg = *s.pick(&["none", "HS256", "es256", "ES384", "RS256", "", "ES256 "]);
            hj = b64(header_json(&c, alg).to_string().as_bytes());
            if s.coin() {
                sig = raw_sign(kid, format!("{hj}.{cj}").as_bytes());
            }
        }
        _ => {
            // one character of the signed text
            let t = if s.coin() { &mut hj } else { &mut cj };
            let i = s.idx(t.len());
            let ch = *s.pick(&["A", "b", "_", "9", "=", " ", ".", ""]);
            t.replace_range(i..i + 1, ch);
        }
    }
    if c2 != c {
        hj = b64(header_json(&c2, "ES256").to_string().as_bytes());
        cj = b64(claims_json(&c2).to_string().as_bytes());
    }
    let t2 = format!("{hj}.{cj}.{}", b64(&sig));
    if t2 == tok.token && k2 == key {
        return Ok(());
    }
    ctx.label(&format!("tamper-{how}"));
    let v2 = format!("{t2};info=<{}>;alg=ES256;ppt=shaken", c2.x5u);
    ensure!(accepted(&v2, &k2)?.is_none(), format!("stir:tampered-{how}"), "accepted {v2} (was {v})");
    Ok(())
}

// ---------------------------------------------------------------- decoding tokens made elsewhere

fn decode(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = claims(s);
    let mut hdr = Map::new();
    let mut pay = Map::new();
    let mut ok = true;
    let alg = if s.chance(1, 6) { s.pick(&["RS256", "none", "ES384", "x"]).to_string() } else { "ES256".to_string() };
    hdr.insert("alg".into(), json!(alg));
    hdr.insert("x5u".into(), json!(c.x5u));
    let typ = s.opt(1, 2, |s| s.pick(&["passport", "JWT"]).to_string());
    let ppt = s.opt(1, 2, |s| s.pick(&["shaken", "div", "rph"]).to_string());
    typ.iter().for_each(|t| drop(hdr.insert("typ".into(), json!(t))));
    ppt.iter().for_each(|t| drop(hdr.insert("ppt".into(), json!(t))));
    if s.chance(1, 4) {
        c.attest = None;
    }
    if s.chance(1, 4) {
        c.iat = None;
    }
    if s.chance(1, 6) {
        c.dest.clear();
    }
    if s.chance(1, 6) {
        c.orig = None;
    }
    let Value::Object(base) = claims_json(&c) else { unreachable!() };
    for (k, v) in base {
        pay.insert(k, v);
    }
    if c.dest.is_empty() {
        match s.urange(0, 2) {
            0 => drop(pay.remove("dest")),
            1 => drop(pay.insert("dest".into(), json!({"uri": ["sip:a@b"]}))),
            _ => {}
        }
    }
    if c.orig.is_none() && s.coin() {
        pay.insert("orig".into(), json!({"uri": "sip:a@b"}));
    }
    // extensions are ignored
    if s.chance(1, 3) {
        pay.insert(s.pick(&["rph", "mky", "Attest", "ATTEST", "exp", "div"]).to_string(), json!({"a": [1, "B", null]}));
        hdr.insert(s.pick(&["kid", "X5U", "crit2"]).to_string(), json!("zz"));
    }
    // what cannot be a PASSporT
    let mut dup = None;
    if s.chance(1, 4) {
        ok = false;
        match s.urange(0, 8) {
            0 => drop(hdr.remove("x5u")),
            1 => drop(hdr.remove("alg")),
            2 => drop(hdr.insert("alg".into(), json!(5))),
            3 => drop(pay.insert("attest".into(), json!(*s.pick(&["D", "a", "", "AA", " A"])))),
            4 => drop(pay.insert("iat".into(), s.pick(&[json!("1443208345"), json!(1.5), json!([1])]).clone())),
            5 => drop(pay.insert("dest".into(), json!({"tn": "12155551213"}))),
            6 => drop(pay.insert("orig".into(), json!({"tn": 12155551212u64}))),
            7 => dup = Some(*s.pick(&["\"orig\":{\"tn\":\"1\"}", "\"attest\":\"A\"", "\"iat\":5"])),
            _ => drop(pay.insert("orig".into(), json!({"tn": ["1"]}))),
        }
    }
    let ser = |s: &mut Src, m: &Map<String, Value>, dup: Option<&str>| {
        let mut items: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
        if let Some(d) = dup {
            items.push(d.to_string());
            // (a repetition only if the member was there)
            let key = d.split(':').next().unwrap();
            if !m.contains_key(key.trim_matches('"')) {
                items.push(d.to_string());
            }
        }
        s.shuffle(&mut items);
        let ws = *s.pick(&["", "", " ", "\n", "\t "]);
        format!("{ws}{{{ws}{}{ws}}}{ws}", items.join(&format!("{ws},{ws}")))
    };
    let hjs = ser(s, &hdr, None);
    let pjs = ser(s, &pay, dup);
    let (hb, pb) = (b64(hjs.as_bytes()), b64(pjs.as_bytes()));
    let kid = s.urange(0, NKEYS - 1);
    let sig = raw_sign(kid, format!("{hb}.{pb}").as_bytes());
    let mut token = format!("{hb}.{pb}.{}", b64(&sig));
    if s.chance(1, 8) {
        ok = false;
        match s.urange(0, 5) {
            0 => token.push('='),
            1 => token.push_str(".x"),
            2 => token = format!("{hb}.{pb}"),
            3 => token = token.replacen('.', "..", 1),
            4 => {
                // the other base64 alphabet, or characters outside of it
                let i = s.idx(hb.len());
                token.replace_range(i..i + 1, s.pick(&["+", "/", "*", " ", "\u{e9}"]));
            }
            _ => token.insert(0, '.'),
        }
    }
    // header parameters
    let info = s.opt(1, 2, uri);
    let halg = s.opt(1, 2, |s| s.pick(&["ES256", "RS256"]).to_string());
    let hppt = s.opt(1, 2, |s| s.pick(&["shaken", "div"]).to_string());
    let mut ps: Vec<String> = vec![];
    let kname = |s: &mut Src, n: &str| match s.urange(0, 2) {
        0 => n.to_string(),
        1 => n.to_uppercase(),
        _ => n[..1].to_uppercase() + &n[1..],
    };
    let eq = |s: &mut Src| s.pick(&["=", "=", " = ", "= "]).to_string();
    if let Some(i) = &info {
        ps.push(format!("{}{}<{}>", kname(s, "info"), eq(s), i));
    }
    if let Some(a) = &halg {
        let q = if s.coin() { "\"" } else { "" };
        ps.push(format!("{}{}{q}{a}{q}", kname(s, "alg"), eq(s)));
    }
    if let Some(a) = &hppt {
        let q = if s.coin() { "\"" } else { "" };
        ps.push(format!("{}{}{q}{a}{q}", kname(s, "ppt"), eq(s)));
    }
    if s.chance(1, 4) {
        ps.push(s.pick(&["x=1", "flag", "y=\"a\"", "z=\"a;ppt=bad;info=b\"", "canon=abc"]).to_string());
    }
    s.shuffle(&mut ps);
    let mut v = token.clone();
    for p in &ps {
        v.push_str(s.pick(&[";", ";", " ; ", "; "]));
        v.push_str(p);
    }
    if s.chance(1, 20) {
        v = "  ".to_string() + &v + " ";
    }
    ctx.desc(|| format!("header {hjs} claims {pjs} value {v}"));
    ctx.nontrivial(&(&hjs, &pjs, &ps));
    let got = no_panic("stir:parse", || IdentityHeader::parse(&v))?;
    if v.len() > 8192 {
        ensure!(got.is_err(), "stir:too-long", "");
        return Ok(());
    }
    ctx.label(if ok { "valid" } else { "malformed" });
    if !ok {
        ensure!(got.is_err(), "stir:accepts-malformed", "{hjs} {pjs} {v}");
        return Ok(());
    }
    let h = match got {
        Ok(h) => h,
        Err(e) => return fail("stir:refuses-valid", format!("{hjs} {pjs} {v}: {e}")),
    };
    ensure_eq!(got_claims(&h.passport), c, "stir:decode-claims", "{pjs}");
    ensure_eq!((&h.passport.header.alg, &h.passport.header.typ, &h.passport.header.ppt), (&alg, &typ, &ppt), "stir:decode-header", "{hjs}");
    ensure_eq!((&h.info, &h.alg, &h.ppt), (&info, &halg, &hppt), "stir:decode-params", "{v}");
    ensure_eq!(h.raw_token, token, "stir:decode-token", "{v}");
    let r = h.passport.verify_signature(&pubkey(kid));
    ensure_eq!(r.is_ok(), alg == "ES256", "stir:decode-verify", "{hjs} {pjs} {r:?}");
    Ok(())
}

// ---------------------------------------------------------------- certificate chains

#[derive(Clone, Debug)]
struct Node {
    name: usize,
    key: usize,
    issuer: usize,
    signer: usize,
    ca: bool,
    plen: Option<u8>,
    from: i64,
    to: i64,
    tampered: bool,
}
fn der(n: &Node, flip: usize) -> Vec<u8> {
    let k = keys();
    let mut p = CertificateParams::default();
    p.distinguished_name = dn(n.name);
    p.is_ca = match (n.ca, n.plen) {
        (false, _) => IsCa::ExplicitNoCa,
        (true, None) => IsCa::Ca(BasicConstraints::Unconstrained),
        (true, Some(l)) => IsCa::Ca(BasicConstraints::Constrained(l)),
    };
    p.not_before = time::OffsetDateTime::from_unix_timestamp(n.from).unwrap();
    p.not_after = time::OffsetDateTime::from_unix_timestamp(n.to).unwrap();
    p.serial_number = Some(SerialNumber::from(7u64));
    let mut d = p.signed_by(&k.rc[n.key], &k.dummies[n.issuer], &k.rc[n.signer]).unwrap().der().to_vec();
    if n.tampered {
        // inside the last octets: the signature's s
        let l = d.len();
        d[l - 1 - flip % 16] ^= 1 << (flip % 8);
    }
    d
}
fn chain_ok(cur: &Node, below: usize, pool: &[Node], anchors: &[(usize, usize)], now: i64, path: &mut Vec<(usize, usize)>) -> bool {
    let good = |n: &Node| n.from <= now && now <= n.to && !n.tampered;
    if !good(cur) {
        return false;
    }
    if anchors.iter().any(|(n, k)| *n == cur.issuer && *k == cur.signer) {
        return true;
    }
    for n in pool {
        if n.name != cur.issuer || n.key != cur.signer || !n.ca || n.plen.is_some_and(|p| below > p as usize) || path.contains(&(n.name, n.key)) {
            continue;
        }
        path.push((n.name, n.key));
        let r = chain_ok(n, below + 1, pool, anchors, now, path);
        path.pop();
        if r {
            return true;
        }
    }
    false
}
fn chain(s: &mut Src, ctx: &mut Ctx) -> R {
    let now = s.range(1_600_000_000, 1_900_000_000) as i64;
    let life = |s: &mut Src| (now - s.range(1, 100_000_000) as i64, now + s.range(1, 100_000_000) as i64);
    // a good chain: anchor (name,key) 0..n
    let depth = s.urange(0, 3);
    let mut ids: Vec<(usize, usize)> = vec![];
    let mut names: Vec<usize> = (0..NNAMES).collect();
    s.shuffle(&mut names);
    let mut ks: Vec<usize> = (0..NKEYS).collect();
    s.shuffle(&mut ks);
    for i in 0..depth + 2 {
        ids.push((names[i], ks[i]));
    }
    if s.chance(1, 8) {
        // a P-384 authority
        let i = s.urange(0, depth);
        ids[i].1 = NKEYS;
    }
    let mut anchors = vec![ids[0]];
    let mut nodes: Vec<Node> = vec![];
    for i in 1..ids.len() {
        let (from, to) = life(s);
        let leaf = i == ids.len() - 1;
        let below = ids.len() - 2 - i.min(ids.len() - 2);
        nodes.push(Node {
            name: ids[i].0,
            key: ids[i].1,
            issuer: ids[i - 1].0,
            signer: ids[i - 1].1,
            ca: !leaf,
            plen: if leaf || s.coin() { None } else { Some((below + s.urange(0, 2)) as u8) },
            from,
            to,
            tampered: false,
        });
    }
    let mut leaf = nodes.pop().unwrap();
    let mut pool = nodes;
    let mut how = vec![];
    for _ in 0..s.urange(0, 2) {
        let k = s.urange(0, 11);
        how.push(k);
        let n = pool.len();
        // any certificate of the chain
        let at = s.urange(0, n);
        let node = if at < n { &mut pool[at] } else { &mut leaf };
        match k {
            0 => {
                let d = if s.coin() { 1 } else { s.range(1, 100_000_000) as i64 };
                if s.coin() {
                    (node.from, node.to) = (now - 200_000_000, now - d);
                } else {
                    (node.from, node.to) = (now + d, now + 200_000_000);
                }
            }
            1 => {
                // exactly at the boundary: still valid
                if s.coin() {
                    node.to = now;
                } else {
                    node.from = now;
                }
            }
            2 => node.tampered = true,
            3 => node.signer = s.urange(0, NKEYS - 1),
            4 => node.issuer = s.urange(0, NNAMES - 1),
            5 if n > 0 => pool[s.idx(n)].ca = false,
            6 if n > 0 => pool[s.idx(n)].plen = Some(s.urange(0, 2) as u8),
            7 if n > 0 => drop(pool.remove(s.idx(n))),
            8 => {
                // same name, other key; or same key, other name; or something else altogether
                anchors = match s.urange(0, 3) {
                    0 => vec![],
                    1 => vec![(ids[0].0, (ids[0].1 + 1) % NKEYS)],
                    2 => vec![((ids[0].0 + 1) % NNAMES, ids[0].1)],
                    _ => vec![ids[s.urange(0, depth)]],
                };
            }
            9 => node.key = s.urange(0, NKEYS - 1),
            10 => node.name = s.urange(0, NNAMES - 1),
            _ => {}
        }
    }
    // decoys with colliding names and keys
    for _ in 0..s.weighted(&[3, 2, 1]) {
        let (from, to) = life(s);
        let m = Node { name: s.urange(0, NNAMES - 1), key: s.urange(0, NKEYS - 1), issuer: s.urange(0, NNAMES - 1), signer: s.urange(0, NKEYS - 1), ca: s.coin(), plen: None, from, to, tampered: false };
        pool.push(m);
    }
    // (self-issued intermediates are exempt from path lengths in RFC 5280: not generated)
    pool.retain(|n| n.name != n.issuer);
    while s.chance(1, 4) {
        anchors.push((s.urange(0, NNAMES - 1), s.urange(0, NKEYS - 1)));
    }
    s.shuffle(&mut pool);
    s.shuffle(&mut anchors);
    // the PASSporT
    let c = claims(s);
    let signer = if s.chance(1, 8) { s.urange(0, NKEYS - 1) } else { leaf.key };
    let alg = if s.chance(1, 12) { "RS256" } else { "ES256" };
    let (hb, pb) = (b64(header_json(&c, alg).to_string().as_bytes()), b64(claims_json(&c).to_string().as_bytes()));
    let mut sig = raw_sign(signer.min(NKEYS - 1), format!("{hb}.{pb}").as_bytes());
    let mut sig_ok = signer == leaf.key;
    if s.chance(1, 10) {
        sig_ok = false;
        match s.urange(0, 2) {
            0 => sig[s.urange(0, 63)] ^= 1 << s.urange(0, 7),
            1 => sig.truncate(s.urange(0, 63)),
            _ => sig.push(0),
        }
    }
    let p = match Passport::decode(&format!("{hb}.{pb}.{}", b64(&sig))) {
        Ok(p) => p,
        Err(e) => return fail("stir:chain-decode", format!("{e}")),
    };
    ctx.desc(|| format!("now {now} leaf {leaf:?}\npool {pool:?}\nanchors {anchors:?}\nsigned by {signer} ok {sig_ok} alg {alg} mutations {how:?}"));
    let flip = s.urange(0, 127);
    let leaf_der = der(&leaf, flip);
    let pool_der: Vec<Vec<u8>> = pool.iter().map(|n| der(n, flip)).collect();
    let anchor_der: Vec<Vec<u8>> = anchors
        .iter()
        .map(|(n, k)| der(&Node { name: *n, key: *k, issuer: *n, signer: *k, ca: true, plen: None, from: now - 9, to: now + 9, tampered: false }, 0))
        .collect();
    let trusted = chain_ok(&leaf, 0, &pool, &anchors, now, &mut vec![(leaf.name, leaf.key)]);
    let want = trusted && sig_ok && alg == "ES256" && leaf.key < NKEYS;
    ctx.label(if want { "trusted" } else if trusted { "bad-signature" } else { "untrusted" });
    ctx.nontrivial(&format!("{leaf:?}{pool:?}{anchors:?}{sig_ok}"));
    let pr: Vec<&[u8]> = pool_der.iter().map(|v| v.as_slice()).collect();
    let ar: Vec<&[u8]> = anchor_der.iter().map(|v| v.as_slice()).collect();
    let t = UnixTime::since_unix_epoch(Duration::from_secs(now as u64));
    let got = no_panic("stir:chain", || p.verify_with_chain(&leaf_der, &pr, &ar, t))?;
    match (&got, want) {
        (Ok(()), false) => return fail("stir:chain-accepts", format!("accepted: trusted {trusted} signature {sig_ok} alg {alg}")),
        (Err(e), true) => return fail("stir:chain-refuses", format!("refused: {e}")),
        _ => {}
    }
    // not certificates at all
    if s.chance(1, 10) {
        let mut d = leaf_der.clone();
        d.truncate(s.urange(0, d.len() - 1));
        ensure!(no_panic("stir:chain", || p.verify_with_chain(&d, &pr, &ar, t))?.is_err(), "stir:chain-cut", "");
        let mut d = leaf_der.clone();
        let i = s.idx(d.len() * 8);
        d[i / 8] ^= 1 << (i % 8);
        let r = no_panic("stir:chain", || p.verify_with_chain(&d, &pr, &ar, t))?;
        ensure!(r.is_err() || !want || leaf.tampered, "stir:chain-bitflip", "bit {i} of the certificate flipped");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "a claim set signed and re-read, then altered; a token made elsewhere decoded; or a certificate graph judged by independent path search; keyed by claims, JSON text or graph",
        assumptions: &[
            "iat freshness, TN authorization and fetching of x5u are documented as the application's",
            "trust anchors are trusted as given (their own validity period and constraints are not looked at)",
            "certificate graphs use ECDSA keys; no self-issued intermediates, name constraints or revocation",
            "ECDSA signatures are malleable (s and n-s): alterations are bit flips, truncations and other signatures",
        ],
        units: vec![unit!("sign-tamper", 3000, 80000, sign_tamper), unit!("decode", 4000, 100000, decode), unit!("chain", 2500, 60000, chain)],
    }]
}
