//! C11: digest authentication; C12: nonce lifecycle.
use crate::g;
use sip_auth::*;
use sip_core::Request;
use std::collections::BTreeMap;
use std::time::Duration;
use vlib::gen::*;
use vlib::{clock, ensure, ensure_eq, fail, unit, Ctx, Prop, Src, R};

const ALGS: [(DigestAlgorithm, &str); 8] = [
    (DigestAlgorithm::Md5, "MD5"),
    (DigestAlgorithm::Md5Sess, "MD5-sess"),
    (DigestAlgorithm::Sha256, "SHA-256"),
    (DigestAlgorithm::Sha256Sess, "SHA-256-sess"),
    (DigestAlgorithm::Sha512, "SHA-512"),
    (DigestAlgorithm::Sha512Sess, "SHA-512-sess"),
    (DigestAlgorithm::Sha512_256, "SHA-512-256"),
    (DigestAlgorithm::Sha512_256Sess, "SHA-512-256-sess"),
];

// ------------------------------------------------------------------ reference digest

/// RFC 7616 digest, written from the RFC; SHA-512-256 as this library documents it (truncated SHA-512).
fn h(alg: &str, data: &[u8]) -> String {
    use sha2::Digest;
    let a = alg.to_ascii_lowercase();
    match a.trim_end_matches("-sess") {
        "md5" => format!("{:x}", md5::compute(data)),
        "sha-256" => hex::encode(sha2::Sha256::digest(data)),
        "sha-512" => hex::encode(sha2::Sha512::digest(data)),
        "sha-512-256" => hex::encode(sha2::Sha512::digest(data))[..64].to_string(),
        _ => panic!("harness alg"),
    }
}
struct D<'a> {
    alg: &'a str,
    user: &'a str,
    realm: &'a str,
    pass: &'a str,
    method: &'a str,
    uri: &'a str,
    nonce: &'a str,
    nc: &'a str,
    cnonce: &'a str,
    qop: &'a str,
    body: &'a [u8],
}
fn ref_response(d: &D) -> String {
    let mut a1 = h(d.alg, format!("{}:{}:{}", d.user, d.realm, d.pass).as_bytes());
    if d.alg.to_ascii_lowercase().ends_with("-sess") {
        a1 = h(d.alg, format!("{a1}:{}:{}", d.nonce, d.cnonce).as_bytes());
    }
    let a2 = if d.qop == "auth-int" {
        format!("{}:{}:{}", d.method, d.uri, h(d.alg, d.body))
    } else {
        format!("{}:{}", d.method, d.uri)
    };
    h(d.alg, format!("{a1}:{}:{}:{}:{}:{}", d.nonce, d.nc, d.cnonce, d.qop, h(d.alg, a2.as_bytes())).as_bytes())
}

/// SHA-256, qop=auth, cnonce "cn".
#[allow(clippy::too_many_arguments)]
pub fn simple(user: &str, realm: &str, pass: &str, method: &str, uri: &str, nonce: &str, nc: u32, body: &[u8]) -> String {
    ref_response(&D { alg: "SHA-256", user, realm, pass, method, uri, nonce, nc: &format!("{nc:08x}"), cnonce: "cn", qop: "auth", body })
}
fn field(s: &mut Src, lo: usize, hi: usize) -> String {
    text(s, lo, hi).chars().filter(|c| !matches!(c, '"' | '\\')).collect::<String>().trim().to_string()
}
fn nonempty(s: &mut Src) -> String {
    format!("{}{}", alnum(s, 1, 1), field(s, 0, 12))
}
struct Cfg {
    alg: DigestAlgorithm,
    algs: &'static str,
    qop: Qop,
    realm: String,
    proxy: bool,
    users: Vec<(String, String)>,
}
fn cfg(s: &mut Src) -> Cfg {
    let (alg, algs) = *s.pick(&ALGS);
    let qop = *s.pick(&[Qop::Auth, Qop::AuthInt]);
    let realm = nonempty(s);
    let mut users: Vec<(String, String)> = vec![];
    for _ in 0..s.urange(1, 3) {
        let u = nonempty(s);
        if users.iter().all(|x| x.0 != u) {
            users.push((u, field(s, 0, 16)));
        }
    }
    Cfg { alg, algs, qop, realm, proxy: s.coin(), users }
}
fn server(c: &Cfg) -> DigestAuthenticator<MemoryCredentialStore> {
    let mut st = MemoryCredentialStore::with(c.users.iter().map(|(u, p)| Credentials::new(u, p, &c.realm)).collect());
    // the same users in another realm, with other passwords
    for (u, p) in &c.users {
        st.add(Credentials::new(u, format!("{p}-other"), format!("{}-other", c.realm)));
    }
    DigestAuthenticator::new(&c.realm, st).with_algorithm(c.alg).with_qop(c.qop).with_proxy_auth(c.proxy)
}
pub fn param(v: &str, name: &str) -> Option<String> {
    // unquoted/quoted parameter of a challenge this harness configured without quotes in values
    for part in split_commas(v) {
        if let Some((k, x)) = part.split_once('=') {
            if k.trim().eq_ignore_ascii_case(name) {
                return Some(x.trim().trim_matches('"').to_string());
            }
        }
    }
    None
}
fn split_commas(v: &str) -> Vec<String> {
    let v = v.strip_prefix("Digest ").unwrap_or(v);
    let (mut out, mut cur, mut q) = (vec![], String::new(), false);
    for c in v.chars() {
        if c == '"' {
            q = !q;
        }
        if c == ',' && !q {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    out.push(cur);
    out
}
struct Chal {
    nonce: String,
    opaque: String,
}
fn challenge(a: &DigestAuthenticator<MemoryCredentialStore>, c: &Cfg, r: &Request, stale: bool) -> Result<Chal, vlib::Fail> {
    let resp = if stale { a.challenge_stale(r) } else { Authenticator::challenge(a, r) };
    let resp = match resp {
        Ok(x) => x,
        Err(e) => return fail("challenge:error", format!("{e}")),
    };
    ensure_eq!(resp.code(), if c.proxy { 407 } else { 401 }, "challenge:status", "challenge");
    let name = if c.proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" };
    let v: Vec<&str> = resp.headers().get_all(name).collect();
    ensure_eq!(v.len(), 1, "challenge:header", "{name} headers in {:?}", resp.headers());
    let v = v[0];
    ensure!(v.starts_with("Digest "), "challenge:header", "{v:?}");
    ensure_eq!(param(v, "realm").as_deref(), Some(c.realm.as_str()), "challenge:realm", "{v:?}");
    ensure_eq!(param(v, "algorithm").as_deref(), Some(c.algs), "challenge:algorithm", "{v:?}");
    ensure_eq!(param(v, "qop").as_deref(), Some(c.qop.as_str()), "challenge:qop", "{v:?}");
    ensure_eq!(param(v, "stale"), stale.then(|| "true".to_string()), "challenge:stale", "{v:?}");
    for name in ["Via", "From", "Call-ID", "CSeq"] {
        let a: Vec<&str> = r.headers().get_all(name).collect();
        let b: Vec<&str> = resp.headers().get_all(name).collect();
        ensure_eq!(b, a, format!("challenge:{name}"), "challenge to {:?}", r.headers());
    }
    if let Some(to) = r.headers().get("To") {
        let t: Vec<&str> = resp.headers().get_all("To").collect();
        ensure_eq!(t.len(), 1, "challenge:To", "{:?}", resp.headers());
        let p = |x: &str| sip_parse::parse_to_header(&smol_str::SmolStr::new(x));
        let (a, b) = (p(to), p(t[0]));
        ensure!(b.as_ref().is_some_and(|b| b.tag().is_some_and(|t| !t.is_empty())), "challenge:To-tag", "To {to:?} answered with {t:?}");
        let (a, b) = (a.unwrap(), b.unwrap());
        if a.tag().is_some() {
            ensure_eq!(t[0], to, "challenge:To-tag", "To already tagged");
        }
        ensure!(a.inner().uri() == b.inner().uri() && a.inner().display_name() == b.inner().display_name(), "challenge:To", "To {to:?} answered with {t:?}");
    }
    Ok(Chal { nonce: param(v, "nonce").unwrap_or_default(), opaque: param(v, "opaque").unwrap_or_default() })
}
fn base_headers(s: &mut Src, method: &str) -> Vec<(&'static str, String)> {
    let mut h: Vec<(&'static str, String)> = vec![];
    for _ in 0..s.urange(1, 3) {
        h.push(("Via", g::via(s)));
    }
    h.push(("From", format!("{};tag={}", g::name_addr(s), token(s, 1, 6))));
    let mut to = g::name_addr(s);
    if s.coin() {
        to += &match s.below(3) {
            0 => format!(";tag={}", token(s, 1, 6)),
            1 => format!(" ; tag={}", token(s, 1, 6)),
            _ => format!(";x=y;TAG={}", token(s, 1, 6)),
        };
    } else if s.chance(1, 4) {
        to = format!("\"a;tag=1\" <sip:b@c.d>");
    }
    h.push(("To", to));
    h.push(("Call-ID", token(s, 1, 12)));
    h.push(("CSeq", format!("{} {method}", s.range(1, 100000))));
    s.shuffle(&mut h);
    h
}
/// Reference client: the digest parameters in a random legal spelling.
fn spell(s: &mut Src, p: &BTreeMap<&'static str, String>) -> String {
    let mut ps: Vec<(&str, &String)> = p.iter().map(|(k, v)| (*k, v)).collect();
    s.shuffle(&mut ps);
    let mut out: Vec<String> = vec![];
    for (k, v) in ps {
        let bare_ok = matches!(k, "nc" | "qop" | "algorithm");
        let k = recase(s, k);
        let eq = if s.chance(1, 6) { " = " } else { "=" };
        out.push(if bare_ok && s.chance(3, 4) { format!("{k}{eq}{v}") } else { format!("{k}{eq}\"{v}\"") });
        if s.chance(1, 12) {
            out.push(format!("x-{}={}", out.len(), alnum(s, 1, 4)));
        }
    }
    format!("{} {}", s.pick(&["Digest", "digest", "DIGEST"]), out.join(*s.pick(&[", ", ",", " , "])))
}

fn verify2(a: &DigestAuthenticator<MemoryCredentialStore>, r: &Request, asy: bool) -> bool {
    if asy {
        g::block_on(a.verify_async(r, r.headers())).unwrap_or(false)
    } else {
        a.verify(r, r.headers()).unwrap_or(false)
    }
}

/// Authentication-Info as another server may write it: any order, spacing and quoting, other parameters around it.
fn auth_info_text(s: &mut Src, ctx: &mut Ctx) -> R {
    let quoted = |s: &mut Src| -> String {
        (0..s.urange(0, 8))
            .map(|_| match s.weighted(&[5, 2, 1, 1]) {
                0 => s.pick(&["a", "B", "7", "/", "+"]).to_string(),
                1 => s.pick(&[",", ", ", "=", ";", " ", ", rspauth=1", "nc=5"]).to_string(),
                2 => "\\\"".to_string(),
                _ => s.pick(&["\\\\", "\\,", "\\a"]).to_string(),
            })
            .collect()
    };
    let unesc = |t: &str| -> String {
        let (mut o, mut e) = (String::new(), false);
        for c in t.chars() {
            if c == '\\' && !e {
                e = true;
            } else {
                e = false;
                o.push(c);
            }
        }
        o
    };
    let qop = s.opt(3, 4, |s| *s.pick(&[Qop::Auth, Qop::AuthInt]));
    let rsp = s.opt(9, 10, |s| alnum(s, 1, 32));
    let cnonce = s.opt(3, 4, quoted);
    let nc = s.opt(3, 4, |s| format!("{:08x}", s.range(1, 0xffff)));
    let next = s.opt(3, 4, quoted);
    let mut ps: Vec<(String, String)> = vec![];
    if let Some(q) = qop {
        let v = recase(s, q.as_str());
        ps.push(("qop".into(), if s.coin() { v } else { format!("\"{v}\"") }));
    }
    if let Some(v) = &nc {
        ps.push(("nc".into(), v.clone()));
    }
    for (k, v) in [("rspauth", &rsp), ("cnonce", &cnonce), ("nextnonce", &next)] {
        if let Some(v) = v {
            ps.push((k.into(), format!("\"{v}\"")));
        }
    }
    for i in 0..s.below(3) {
        let v = if s.coin() { token(s, 1, 5) } else { format!("\"{}\"", quoted(s)) };
        ps.push((format!("x{i}-{}", s.pick(&["rspauth", "nc", "nextnonce"])), v));
    }
    s.shuffle(&mut ps);
    let parts: Vec<String> = ps.iter().map(|(k, v)| format!("{}{}{v}", recase(s, k), s.pick(&["=", "=", " = "]))).collect();
    let text = parts.join(s.pick(&[", ", ",", " ,  ", ",\t"]));
    ctx.desc(|| text.clone());
    ctx.nontrivial(&text);
    let got = AuthInfo::parse(&text);
    let Some(rsp) = rsp else {
        ensure!(got.is_none(), "auth-info:no-rspauth", "{text}: {got:?}");
        return Ok(());
    };
    let Some(g) = got else { return fail("auth-info:parse", text) };
    ensure_eq!(g.qop, qop, "auth-info:qop", "{text}");
    ensure_eq!(g.rspauth.as_str(), rsp, "auth-info:rspauth", "{text}");
    ensure_eq!(g.nc.as_deref(), nc.as_deref(), "auth-info:nc", "{text}");
    for (name, a, b) in [("cnonce", &g.cnonce, &cnonce), ("nextnonce", &g.nextnonce, &next)] {
        // with or without its backslashes, but the whole of it
        let same = match (a.as_deref(), b.as_deref()) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b || a == unesc(b),
            _ => false,
        };
        ensure!(same, format!("auth-info:{name}"), "{text}: {g:?}");
    }
    Ok(())
}

fn accept_and_tamper(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = cfg(s);
    let a = server(&c);
    let method = g::method(s);
    let uri = g::any_uri(s);
    let body = bytes(s, 0, 20);
    let base = base_headers(s, &method);
    let ch = challenge(&a, &c, &g::req(&method, &uri, &base, &body), s.chance(1, 5))?;
    let (user, pass) = s.pick(&c.users).clone();
    let hn: &str = if c.proxy { "Proxy-Authorization" } else { "Authorization" };
    let asy = s.coin();
    let own = s.coin();
    // credentials for others on the way, which are not this server's to judge
    let others: Vec<(bool, String)> = s.vec(0, 2, |s| {
        let v = match s.below(4) {
            0 => "Basic dTpw".to_string(),
            1 => "Bearer abc".to_string(),
            _ => format!("Digest username=\"u\", realm=\"{}-{}\", nonce=\"n\", uri=\"{uri}\", response=\"0123456789abcdef0123456789abcdef\", qop=auth, nc=00000001, cnonce=\"c\"", c.realm, ident(s, 1, 3)),
        };
        (s.coin(), v)
    });
    if !others.is_empty() {
        ctx.label("others' credentials");
    }
    let mk = |method: &str, uri: &str, auth: String, body: &[u8]| {
        let mut h2 = base.clone();
        h2.extend(others.iter().filter(|o| o.0).map(|o| (hn, o.1.clone())));
        h2.push((hn, auth));
        h2.extend(others.iter().filter(|o| !o.0).map(|o| (hn, o.1.clone())));
        g::req(method, uri, &h2, body)
    };
    let nc = format!("{:08x}", s.range(1, 1000));
    let cnonce = nonempty(s);
    let mut p: BTreeMap<&'static str, String> = BTreeMap::new();
    let auth = if own {
        for (k, v) in [("username", &user), ("realm", &c.realm), ("nonce", &ch.nonce), ("uri", &uri), ("nc", &nc), ("cnonce", &cnonce), ("opaque", &ch.opaque)] {
            p.insert(k, v.clone());
        }
        p.insert("qop", c.qop.as_str().to_string());
        if s.chance(3, 4) {
            p.insert("algorithm", recase(s, c.algs));
        }
        let r = ref_response(&D { alg: c.algs, user: &user, realm: &c.realm, pass: &pass, method: &method, uri: &uri, nonce: &ch.nonce, nc: &nc, cnonce: &cnonce, qop: c.qop.as_str(), body: &body });
        p.insert("response", r);
        spell(s, &p)
    } else {
        let mut cl = DigestClient::new(&user, &pass);
        let m: sip_core::Method = method.parse().unwrap();
        let v = cl.generate_authorization(&m, &uri, &c.realm, &ch.nonce, c.alg, Some(c.qop), Some(&ch.opaque), &body);
        for k in ["username", "realm", "nonce", "uri", "nc", "cnonce", "opaque", "qop", "algorithm", "response"] {
            match param(&v, k) {
                Some(x) => {
                    p.insert(k, x);
                }
                None => return fail("client:missing", format!("DigestClient left out {k}: {v}")),
            }
        }
        let want = ref_response(&D { alg: c.algs, user: &user, realm: &c.realm, pass: &pass, method: &method, uri: &uri, nonce: &ch.nonce, nc: &p["nc"], cnonce: &p["cnonce"], qop: c.qop.as_str(), body: &body });
        ensure_eq!(p["response"], want, "client:response", "DigestClient {v}");
        ensure_eq!(p["username"], user, "client:username", "DigestClient {v}");
        v
    };
    ctx.desc(|| format!("{} {} {method} {uri} realm {:?} user {user:?} pass {pass:?} body {} bytes: {auth}", c.algs, c.qop.as_str(), c.realm, body.len()));
    ctx.nontrivial((auth.clone(), body.clone()));
    // ---- alterations: none may be accepted, and none may use up the valid request's nonce-count
    let mut label = "";
    for _ in 0..s.urange(0, 3) {
        let mut q = p.clone();
        let (mut m2, mut u2, mut b2) = (method.clone(), uri.clone(), body.clone());
        let mut hname = hn;
        let k = s.below(22);
        let other = |s: &mut Src, x: &str| -> String {
            let mut v: Vec<char> = x.chars().collect();
            match s.below(3) {
                0 => v.push('0'),
                1 if !v.is_empty() => {
                    v.pop();
                }
                _ => {
                    if v.is_empty() {
                        v.push('1')
                    } else {
                        let i = s.idx(v.len());
                        v[i] = if v[i] == 'a' { 'b' } else { 'a' };
                    }
                }
            }
            v.into_iter().collect()
        };
        let sign = |q: &BTreeMap<&'static str, String>, realm: &str, uri: &str, qop: &str| ref_response(&D { alg: c.algs, user: &user, realm, pass: &pass, method: &method, uri, nonce: &ch.nonce, nc: &q["nc"], cnonce: &q["cnonce"], qop, body: &body });
        let flip = |x: &str| -> String { x.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
        label = match k {
            0 => {
                // the right digest for a wrong password
                let wrong = other(s, &pass);
                let r = ref_response(&D { alg: c.algs, user: &user, realm: &c.realm, pass: &wrong, method: &method, uri: &uri, nonce: &ch.nonce, nc: &p["nc"], cnonce: &p["cnonce"], qop: c.qop.as_str(), body: &body });
                q.insert("response", r);
                "password"
            }
            1 => {
                let o = c.users.iter().find(|u| u.0 != user).map(|u| u.0.clone()).unwrap_or_else(|| other(s, &user));
                q.insert("username", o);
                "username"
            }
            2 => {
                q.insert("realm", format!("{}-other", c.realm));
                "realm"
            }
            3 => {
                // a digest valid for the same user in another realm
                let rl = format!("{}-other", c.realm);
                let r = ref_response(&D { alg: c.algs, user: &user, realm: &rl, pass: &format!("{pass}-other"), method: &method, uri: &uri, nonce: &ch.nonce, nc: &p["nc"], cnonce: &p["cnonce"], qop: c.qop.as_str(), body: &body });
                q.insert("realm", rl);
                q.insert("response", r);
                "foreign realm"
            }
            4 => {
                loop {
                    m2 = g::method(s);
                    if m2 != method {
                        break;
                    }
                    m2 = if method == "BYE" { "INVITE".into() } else { "BYE".into() };
                    break;
                }
                "method"
            }
            5 => {
                u2 = "sip:someone@else.example".to_string();
                "request uri"
            }
            6 => {
                u2 = "sip:someone@else.example".to_string();
                q.insert("uri", u2.clone());
                "both uris"
            }
            7 => {
                q.insert("nonce", other(s, &ch.nonce));
                "nonce"
            }
            8 => {
                let n = a.nonce_manager().generate();
                q.insert("nonce", n.value().to_string());
                "other issued nonce"
            }
            9 => {
                let v = u32::from_str_radix(&p["nc"], 16).unwrap();
                q.insert("nc", format!("{:08x}", v + 1));
                "nc"
            }
            10 => {
                q.insert("cnonce", format!("{}x", p["cnonce"]));
                "cnonce"
            }
            11 => {
                q.insert("qop", if c.qop == Qop::Auth { "auth-int" } else { "auth" }.into());
                "qop"
            }
            12 => {
                q.insert("response", other(s, &p["response"]));
                "response"
            }
            13 => {
                // RFC 7616 substitution: digest computed with another hash, named as such
                let (_, al) = *s.pick(&ALGS);
                if al == c.algs {
                    continue;
                }
                let r = ref_response(&D { alg: al, user: &user, realm: &c.realm, pass: &pass, method: &method, uri: &uri, nonce: &ch.nonce, nc: &p["nc"], cnonce: &p["cnonce"], qop: c.qop.as_str(), body: &body });
                q.insert("algorithm", al.into());
                q.insert("response", r);
                "algorithm"
            }
            14 => {
                let k = *s.pick(&["username", "realm", "nonce", "uri", "response", "nc", "cnonce", "qop", "opaque"]);
                q.remove(k);
                "missing parameter"
            }
            15 => {
                q.insert("opaque", other(s, &ch.opaque));
                "opaque"
            }
            16 => {
                hname = if c.proxy { "Authorization" } else { "Proxy-Authorization" };
                "other header"
            }
            17 => {
                // a right digest with a quality of protection that was not offered
                let o = if c.qop == Qop::Auth { "auth-int" } else { "auth" };
                q.insert("qop", o.into());
                q.insert("response", sign(&q, &c.realm, &uri, o));
                "qop, signed"
            }
            18 => {
                // a right digest for a realm written in another case
                let rl = flip(&c.realm);
                if rl == c.realm {
                    continue;
                }
                q.insert("realm", rl.clone());
                q.insert("response", sign(&q, &rl, &uri, c.qop.as_str()));
                "realm case, signed"
            }
            19 | 20 => {
                // a right digest for a request URI that is another one: its user in another case, a parameter
                let (a, b) = match s.below(3) {
                    0 => (uri.clone(), format!("{uri};method=BYE")),
                    1 => (format!("{uri};transport=tcp"), uri.clone()),
                    _ => ("sip:bOb@one.example".to_string(), "sip:BoB@one.example".to_string()),
                };
                q.insert("uri", a.clone());
                q.insert("response", sign(&q, &c.realm, &a, c.qop.as_str()));
                u2 = b;
                "uri, signed"
            }
            _ => {
                b2.push(b'x');
                if c.qop == Qop::Auth {
                    // the body is not covered: the request with the other body is just as valid, on its own
                    continue;
                }
                "body"
            }
        };
        let av = spell(s, &q);
        let mut h2 = base.clone();
        h2.push((hname, av.clone()));
        let r2 = g::req(&m2, &u2, &h2, &b2);
        ensure!(!verify2(&a, &r2, asy), format!("accepted:{label}"), "server accepted a request with altered {label}: {m2} {u2} {hname}: {av}");
        ctx.label(format!("altered {label}"));
    }
    let req = mk(&method, &uri, auth.clone(), &body);
    ensure!(verify2(&a, &req, asy), if label.is_empty() { "valid-refused" } else { "valid-refused-after-forgery" }, "valid request refused (after alteration {label:?}): {auth}");
    // ---- mutual authentication
    let rb = bytes(s, 0, 12);
    let nn = s.opt(1, 2, |s| alnum(s, 1, 12));
    let info = match a.build_auth_info(&req, &rb, nn.as_deref()) {
        Ok(Some(i)) => i,
        x => return fail("auth-info:missing", format!("build_auth_info after a valid request gave {x:?}")),
    };
    let text = info.to_header_value();
    let back = match AuthInfo::parse(&text) {
        Some(b) => b,
        None => return fail("auth-info:parse", text),
    };
    ensure_eq!(back, info, "auth-info:round-trip", "{text}");
    let mut good = DigestClient::new(&user, &pass);
    good.generate_authorization(&sip_core::Method::Invite, "sip:a@b", "r", "n", c.alg, Some(c.qop), None, b"");
    let v = |cl: &DigestClient, i: &AuthInfo, realm: &str, uri: &str, nonce: &str, b: &[u8]| cl.verify_auth_info(i, realm, uri, nonce, c.alg, b).ok();
    ensure_eq!(v(&good, &back, &c.realm, &uri, &ch.nonce, &rb).map(|o| o.map(|x| x.to_string())), Some(nn), "auth-info:refused", "{text}");
    let bad = DigestClient::new(&user, &format!("{pass}x"));
    ensure!(v(&bad, &back, &c.realm, &uri, &ch.nonce, &rb).is_none(), "auth-info:wrong-password", "{text}");
    ensure!(v(&good, &back, &format!("{}x", c.realm), &uri, &ch.nonce, &rb).is_none(), "auth-info:wrong-realm", "{text}");
    ensure!(v(&good, &back, &c.realm, "sip:q@q.q", &ch.nonce, &rb).is_none(), "auth-info:wrong-uri", "{text}");
    ensure!(v(&good, &back, &c.realm, &uri, "0", &rb).is_none(), "auth-info:wrong-nonce", "{text}");
    let mut t = back.clone();
    t.rspauth = format!("{}0", &t.rspauth[..t.rspauth.len() - 1]).into();
    ensure!(t.rspauth == back.rspauth || v(&good, &t, &c.realm, &uri, &ch.nonce, &rb).is_none(), "auth-info:wrong-rspauth", "{text}");
    let mut t = back.clone();
    t.nc = Some("0000ffff".into());
    ensure!(v(&good, &t, &c.realm, &uri, &ch.nonce, &rb).is_none(), "auth-info:wrong-nc", "{text}");
    let mut rb2 = rb.clone();
    rb2.push(1);
    ensure_eq!(v(&good, &back, &c.realm, &uri, &ch.nonce, &rb2).is_some(), c.qop == Qop::Auth, "auth-info:body", "response body changed, qop {:?}", c.qop);
    Ok(())
}

/// Whatever the header holds, acceptance implies that it carries a correct digest of a known user.
fn arbitrary_header(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = cfg(s);
    let a = server(&c);
    let method = g::method(s);
    let uri = g::sip_uri(s).wire();
    let body = bytes(s, 0, 6);
    let n = a.nonce_manager().generate();
    let (user, pass) = s.pick(&c.users).clone();
    let mut cl = DigestClient::new(&user, &pass);
    let m: sip_core::Method = method.parse().unwrap();
    let good = cl.generate_authorization(&m, &uri, &c.realm, n.value(), c.alg, Some(c.qop), Some(a.opaque()), &body);
    let v: String = match s.weighted(&[6, 2, 1, 1]) {
        0 => String::from_utf8_lossy(&mutate(s, good.as_bytes(), 3)).into_owned(),
        1 => {
            let mut p = split_commas(&good);
            for _ in 0..s.urange(1, 3) {
                let i = s.idx(p.len());
                match s.below(3) {
                    0 => {
                        p.remove(i);
                        if p.is_empty() {
                            p.push(String::new());
                        }
                    }
                    1 => {
                        let x = p[i].clone();
                        p.push(x);
                    }
                    _ => {
                        let k = p[i].split('=').next().unwrap().to_string();
                        p[i] = format!("{k}={}", s.pick(&["\"\"", "", "auth", "\"auth\"", "MD5", "SHA-256", "00000001", "x"]));
                    }
                }
            }
            format!("Digest {}", p.join(","))
        }
        2 => nasty(s, 0, 40),
        _ => format!("{} {}", s.pick(&["Basic", "Bearer", "Digest", "NTLM"]), ascii_text(s, 0, 30)),
    };
    let v: String = v.chars().filter(|c| !matches!(c, '\r' | '\n' | '\0')).collect();
    ctx.desc(|| format!("{v:?}"));
    if v.starts_with("Digest ") && v != good {
        ctx.nontrivial(&v);
    }
    let hn: &str = if c.proxy { "Proxy-Authorization" } else { "Authorization" };
    let mut hs = sip_core::Headers::new();
    let sm = smol_str::SmolStr::new(&v);
    if hs.push(hn, sm.clone()).is_err() {
        return Ok(());
    }
    let r = Request::new(sip_core::RequestLine::new(m, sip_core::Uri::parse(&uri).unwrap()), hs, body.clone().into()).unwrap();
    let asy = s.coin();
    if verify2(&a, &r, asy) {
        ctx.label("accepted");
        let p = sip_parse::parse_authorization_header(&sm);
        let p = match p {
            Some(p) => p,
            None => return fail("arbitrary:unparsable-accepted", format!("{v:?}")),
        };
        let get = |k: &str| p.param(k).map(|x| x.to_string()).unwrap_or_default();
        let pw = c.users.iter().find(|u| u.0 == get("username")).map(|u| u.1.clone());
        let Some(pw) = pw else { return fail("arbitrary:unknown-user-accepted", format!("{v:?}")) };
        let want = ref_response(&D { alg: c.algs, user: &get("username"), realm: &c.realm, pass: &pw, method: &method, uri: &uri, nonce: n.value(), nc: &get("nc"), cnonce: &get("cnonce"), qop: c.qop.as_str(), body: &body });
        ensure_eq!(get("response"), want, "arbitrary:wrong-digest-accepted", "{v:?}");
        ensure_eq!(get("nonce"), n.value(), "arbitrary:foreign-nonce-accepted", "{v:?}");
        ensure_eq!(get("realm"), c.realm, "arbitrary:foreign-realm-accepted", "{v:?}");
        ensure_eq!(get("uri"), uri, "arbitrary:foreign-uri-accepted", "{v:?}");
        ensure!(!get("cnonce").is_empty() || p.param("cnonce").is_some(), "arbitrary:no-cnonce", "{v:?}");
        ensure!(u32::from_str_radix(&get("nc"), 16).is_ok_and(|n| n > 0), "arbitrary:nc", "{v:?}");
    } else {
        ensure!(v != good, "arbitrary:valid-refused", "{v:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug)]
struct NM {
    value: String,
    created: i64,
    last_nc: u32,
    last_req: Option<(String, Vec<u8>)>,
    last_used: i64,
    removed: bool,
}
const NS: i64 = 1_000_000_000;

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let c = cfg(s);
    let ttl_ms = *s.pick(&[1u64, 1000, 5000, 30_000, 300_000, 300_000]);
    let age_ms = *s.pick(&[0u64, 500, 10_000, 10_000, 60_000, 1_000_000]);
    let mut a = server(&c);
    // either order of configuration
    if s.coin() {
        a = a.with_nonce_ttl(Duration::from_millis(ttl_ms)).with_max_request_age(Duration::from_millis(age_ms));
    } else {
        a = a.with_max_request_age(Duration::from_millis(age_ms)).with_nonce_ttl(Duration::from_millis(ttl_ms));
    }
    let (ttl, age) = (ttl_ms as i64 * 1_000_000, age_ms as i64 * 1_000_000);
    let mut log = vec![format!("ttl {ttl_ms} ms, max age {age_ms} ms, {}", c.qop.as_str())];
    let mut nonces: Vec<NM> = vec![];
    let hn: &str = if c.proxy { "Proxy-Authorization" } else { "Authorization" };
    let mut clients: Vec<DigestClient> = c.users.iter().map(|(u, p)| DigestClient::new(u, p)).collect();
    let (mut oks, mut refused) = (0, 0);
    let n = s.urange(1, 30);
    for _ in 0..n {
        let now = clock::elapsed_ns();
        match s.weighted(&[3, 10, 3, 4, 1, 3]) {
            0 => {
                let method = "OPTIONS".to_string();
                let base = vec![("Via", g::via(s)), ("From", "<sip:a@b>;tag=1".into()), ("To", "<sip:a@b>".into()), ("Call-ID", "x".into()), ("CSeq", "1 OPTIONS".into())];
                let stale = s.coin();
                let ch = challenge(&a, &c, &g::req(&method, "sip:a@b", &base, b""), stale)?;
                ensure!(ch.nonce.len() >= 16 && nonces.iter().all(|x| x.value != ch.nonce), "nonce:not-fresh", "{:?} issued again", ch.nonce);
                log.push(format!("challenge -> n{}", nonces.len()));
                nonces.push(NM { value: ch.nonce, created: now, last_nc: 0, last_req: None, last_used: now, removed: false });
            }
            k @ (1 | 2) => {
                // a request, valid or forged, on some nonce
                let unknown = nonces.is_empty() || s.chance(1, 12);
                let ni = if nonces.is_empty() { 0 } else { let l = nonces.len(); if s.coin() { l - 1 } else { s.idx(l) } };
                let mut m = if unknown {
                    NM { value: alnum(s, 32, 32), created: now, last_nc: 0, last_req: None, last_used: now, removed: true }
                } else {
                    nonces[ni].clone()
                };
                let (mut method, mut uri, mut body): (String, String, Vec<u8>) = match s.below(3) {
                    0 => ("INVITE".into(), "sip:a@b".into(), vec![]),
                    1 => {
                        let mut b = match s.below(6) {
                            5 => vec![b'x'; *s.pick(&[60usize, 64, 65, 128, 256, 300, 512, 600, 1024, 1500, 4096, 5000, 70_000])],
                            k => vec![b'x'; k as usize],
                        };
                        // same length, one byte different: start, end, middle
                        if !b.is_empty() && s.coin() {
                            let n = b.len();
                            let i = *s.pick(&[0, n - 1, n / 2]);
                            b[i] = *s.pick(&[b'y', 0, 0xff, b'X']);
                        }
                        ("INVITE".into(), s.pick(&["sip:a@b", "sip:c@d", "sip:A@b", "sip:a@b;x=1"]).to_string(), b)
                    }
                    _ => (s.pick(&["INVITE", "BYE", "REGISTER"]).to_string(), "sip:a@b".into(), vec![]),
                };
                // the last accepted request again, or a near copy of it, under the same nonce-count
                let near = m.last_req.clone().filter(|_| s.chance(1, 3));
                if let Some((mu, b)) = &near {
                    let (m0, u0) = mu.split_once(' ').unwrap();
                    (method, uri, body) = (m0.to_string(), u0.to_string(), b.clone());
                    match s.below(8) {
                        0 | 1 | 2 if !body.is_empty() => {
                            let n = body.len();
                            let i = *s.pick(&[n - 1, 0, n / 2]);
                            body[i] ^= *s.pick(&[1u8, 0x20, 0x80]);
                        }
                        3 => body.push(*s.pick(&[b'x', 0, b' ', b'\n'])),
                        4 => {
                            body.pop();
                        }
                        5 => uri = recase(s, &uri),
                        6 => method = s.pick(&["BYE", "INVITE", "UPDATE"]).to_string(),
                        _ => {}
                    }
                }
                let ui = s.idx(c.users.len());
                let forged = k == 2;
                let use_client = !forged && near.is_none() && s.chance(1, 4);
                let (auth, nc) = if use_client {
                    let v = clients[ui].generate_authorization(&method.parse().unwrap(), &uri, &c.realm, &m.value, c.alg, Some(c.qop), Some(a.opaque()), &body);
                    let nc = u32::from_str_radix(&param(&v, "nc").unwrap_or_default(), 16).unwrap_or(0);
                    (v, nc)
                } else {
                    let nc = match if near.is_some() && s.chance(4, 5) { 1 } else { s.weighted(&[6, 3, 2, 1, 1, 1, 1]) } {
                        0 => m.last_nc + 1,
                        1 => m.last_nc,
                        2 => m.last_nc.saturating_sub(s.range(1, 3) as u32),
                        3 => m.last_nc + s.range(2, 1000) as u32,
                        4 => m.last_nc + *s.pick(&[1000u32, 1001, 1002, 999]),
                        5 => 0,
                        _ => m.last_nc + 1_000_001,
                    };
                    let ncs = format!("{nc:08x}");
                    let cn = alnum(s, 1, 6);
                    let (u, p) = &c.users[ui];
                    let pass = if forged { format!("{p}-wrong") } else { p.clone() };
                    let r = ref_response(&D { alg: c.algs, user: u, realm: &c.realm, pass: &pass, method: &method, uri: &uri, nonce: &m.value, nc: &ncs, cnonce: &cn, qop: c.qop.as_str(), body: &body });
                    (format!("Digest username=\"{u}\", realm=\"{}\", nonce=\"{}\", uri=\"{uri}\", response=\"{r}\", algorithm={}, qop={}, nc={ncs}, cnonce=\"{cn}\", opaque=\"{}\"", c.realm, m.value, c.algs, c.qop.as_str(), a.opaque()), nc)
                };
                let id = (format!("{method} {uri}"), body.clone());
                // the model
                let known = !m.removed;
                let alive = known && now - m.created <= ttl;
                let in_age = m.last_nc == 0 || now - m.last_used <= age;
                let nc_ok = nc >= 1
                    && nc <= 1_000_000
                    && nc as u64 <= m.last_nc as u64 + 1000
                    && (nc > m.last_nc || (nc == m.last_nc && m.last_req.as_ref() == Some(&id)));
                let want = !forged && alive && in_age && nc_ok;
                let r = g::req(&method, &uri, &[(hn, auth.clone())], &body);
                log.push(format!("{}{} n{}{} nc={nc} at {} ms", if forged { "FORGED " } else { "" }, id.0, ni, if unknown { "(unknown)" } else { "" }, now / 1_000_000));
                if s.chance(1, 3) {
                    ensure_eq!(a.nonce_is_stale(&r), known && !alive, "nonce:stale", "nonce_is_stale; history {log:?}");
                    ensure_eq!(a.nonce_reuse_expired(&r), alive && !in_age, "nonce:reuse-expired", "nonce_reuse_expired; history {log:?}");
                    ensure_eq!(a.is_nonce_stale(&m.value), known && !alive, "nonce:stale", "is_nonce_stale; history {log:?}");
                }
                let asy = s.coin();
                let got = verify2(&a, &r, asy);
                let why = if forged {
                    "forged"
                } else if !known {
                    "unknown-nonce"
                } else if !alive {
                    "expired"
                } else if !in_age {
                    "too-old"
                } else if !nc_ok {
                    "replayed-nc"
                } else {
                    "valid"
                };
                ensure_eq!(got, want, format!("history:{why}"), "{why} request; history {log:?}");
                if got {
                    oks += 1;
                    m.last_nc = nc;
                    m.last_req = Some(id);
                    m.last_used = now;
                    nonces[ni] = m;
                } else {
                    refused += 1;
                    ctx.label(format!("refused: {why}"));
                }
            }
            3 => {
                let d = match s.below(6) {
                    0 => ttl,
                    1 => ttl + 1,
                    2 => age,
                    3 => age + 1,
                    4 => (s.num(20_000) as i64) * 1_000_000,
                    _ => NS * s.range(1, 20) as i64,
                };
                clock::advance_ns(d);
                log.push(format!("+{} ms", d / 1_000_000));
            }
            4 => {
                a.nonce_manager().cleanup();
                let mut live = 0;
                for x in nonces.iter_mut() {
                    if now - x.created > ttl {
                        x.removed = true;
                    } else {
                        live += 1;
                    }
                }
                log.push("cleanup".into());
                ensure_eq!(a.nonce_manager().count(), live, "nonce:cleanup", "nonces tracked after cleanup; history {log:?}");
            }
            _ => clock::advance_ms(s.num(5000)),
        }
    }
    ctx.desc(|| log.join("; "));
    if oks > 0 && refused > 0 {
        ctx.nontrivial(log.join(";"));
    }
    Ok(())
}

/// A client that follows the challenges is never locked out, however long it runs.
fn long_client(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let mut c = cfg(s);
    c.proxy = false;
    let a = server(&c);
    let (u, p) = c.users[0].clone();
    let mut cl = DigestClient::new(&u, &p);
    let n = *s.pick(&[50usize, 400, 1500, 2600]);
    let every = s.range(1, 40);
    let mut nonce = a.nonce_manager().generate().value().to_string();
    let mut fresh = 0;
    ctx.desc(|| format!("{n} requests, a new challenge about every {every}"));
    ctx.nontrivial((n, every));
    for i in 0..n {
        if s.below(every) == 0 {
            nonce = a.nonce_manager().generate().value().to_string();
            fresh += 1;
        }
        let body = [i as u8, (i >> 8) as u8];
        let v = cl.generate_authorization(&sip_core::Method::Message, "sip:a@b", &c.realm, &nonce, c.alg, Some(c.qop), Some(a.opaque()), &body);
        let r = g::req("MESSAGE", "sip:a@b", &[("Authorization", v.clone())], &body);
        ensure!(verify2(&a, &r, false), "long-client:refused", "request {i} after {fresh} challenges refused: {v}");
        clock::advance_ms(s.num(2000));
    }
    Ok(())
}

fn capacity(s: &mut Src, ctx: &mut Ctx) -> R {
    clock::start();
    let max = *s.pick(&[1usize, 2, 3, 5, 9, 10, 11, 20, 57]);
    let ttl = s.range(1, 50);
    let m = NonceManager::new(Duration::from_secs(ttl)).with_max_nonces(max).with_max_request_age(Duration::from_secs(1000));
    let mut issued: Vec<(String, i64)> = vec![];
    let n = s.urange(1, 120);
    ctx.desc(|| format!("{n} nonces, capacity {max}, ttl {ttl} s"));
    if n > max {
        ctx.nontrivial((n, max, ttl, s.below(1 << 30)));
    }
    for i in 0..n {
        clock::advance_ns(1);
        if s.chance(1, 4) {
            clock::advance_ms(s.num(20_000));
        }
        let v = m.generate();
        ensure!(issued.iter().all(|x| x.0 != v.value()), "capacity:not-fresh", "nonce issued twice");
        issued.push((v.value().to_string(), clock::elapsed_ns()));
        ensure!(m.count() <= max, "capacity:exceeded", "{} nonces tracked after {} issued, capacity {max}", m.count(), i + 1);
        let now = clock::elapsed_ns();
        let ok: Vec<bool> = issued.iter().map(|x| m.verify(&x.0)).collect();
        ensure!(*ok.last().unwrap(), "capacity:newest-dropped", "the nonce just issued is not valid");
        // valid ones are exactly a suffix of the unexpired ones: only the oldest are given up
        let first = ok.iter().position(|x| *x).unwrap();
        for (j, o) in ok.iter().enumerate() {
            let expired = now - issued[j].1 > ttl as i64 * NS;
            ensure!(!*o || !expired, "capacity:expired-valid", "nonce {j} is past its lifetime");
            ensure!(*o || j < first, "capacity:not-oldest", "nonce {j} dropped while older {first} is kept");
        }
        let kept = ok.iter().filter(|x| **x).count();
        let unexpired = issued.iter().filter(|x| now - x.1 <= ttl as i64 * NS).count();
        let floor = unexpired.min(max - (max / 10).max(1) + 1).min(max);
        ensure!(kept >= floor, "capacity:too-many-dropped", "{kept} of {unexpired} unexpired nonces kept, capacity {max}");
        if s.chance(1, 4) {
            let j = s.idx(issued.len());
            let expect = ok[j];
            let nc = s.range(1, 5) as u32;
            if m.verify_with_nc(&issued[j].0, nc, &sip_core::Method::Bye, &format!("sip:{i}@b"), b"") {
                ensure!(expect, "capacity:dropped-accepted", "nonce {j} accepted after it was dropped or expired");
                ensure!(!m.verify_with_nc(&issued[j].0, nc, &sip_core::Method::Bye, "sip:zz@b", b""), "capacity:nc-reused", "nonce-count {nc} accepted for another request");
            }
        }
    }
    Ok(())
}

/// Racing requests: one nonce-count serves one of several different requests.
fn race(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = cfg(s);
    let a = std::sync::Arc::new(server(&c));
    let n = a.nonce_manager().generate();
    let threads = s.urange(2, 4);
    let nc = format!("{:08x}", s.range(1, 900));
    let hn: &str = if c.proxy { "Proxy-Authorization" } else { "Authorization" };
    let (u, p) = c.users[0].clone();
    ctx.desc(|| format!("{threads} different requests race with nc={nc}"));
    ctx.nontrivial((threads, nc.clone(), n.value().to_string()));
    let reqs: Vec<Request> = (0..threads)
        .map(|i| {
            let uri = format!("sip:{i}@b");
            let r = ref_response(&D { alg: c.algs, user: &u, realm: &c.realm, pass: &p, method: "BYE", uri: &uri, nonce: n.value(), nc: &nc, cnonce: "c", qop: c.qop.as_str(), body: b"" });
            g::req("BYE", &uri, &[(hn, format!("Digest username=\"{u}\", realm=\"{}\", nonce=\"{}\", uri=\"{uri}\", response=\"{r}\", qop={}, nc={nc}, cnonce=\"c\", opaque=\"{}\"", c.realm, n.value(), c.qop.as_str(), a.opaque()))], b"")
        })
        .collect();
    let bar = std::sync::Arc::new(std::sync::Barrier::new(threads));
    let hs: Vec<_> = reqs
        .into_iter()
        .map(|r| {
            let (a, bar) = (a.clone(), bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                verify2(&a, &r, false)
            })
        })
        .collect();
    let ok = hs.into_iter().map(|h| h.join().unwrap_or(false)).filter(|x| *x).count();
    ensure_eq!(ok, 1, "race:accepted", "requests accepted for one nonce-count");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "non-trivial: a full digest exchange with one of the 8 algorithms and 2 qops (distinct by Authorization value), or a Digest header that differs from the valid one",
            assumptions: &[
                "Usernames, realms and cnonces are generated without double quotes and backslashes: the client writes them into quoted-strings unescaped.",
                "SHA-512-256 is taken as this library documents it (SHA-512 truncated to 256 bits).",
            ],
            units: vec![unit!("accept-and-tamper", 60000, 3000000, accept_and_tamper), unit!("arbitrary-header", 60000, 3000000, arbitrary_header), unit!("auth-info-text", 20000, 1000000, auth_info_text)],
        },
        Prop {
            id: "C12",
            rule: "non-trivial: a history with at least one accepted and one refused request, or a nonce table driven past its capacity",
            assumptions: &["Time is a virtual clock interposed under the process (clock_gettime), so histories of hours run in microseconds."],
            units: vec![
                unit!("history", 30000, 2000000, history),
                unit!("capacity", 6000, 300000, capacity),
                unit!("long-client", 60, 2000, long_client),
                unit!("race", 1500, 40000, race),
            ],
        },
    ]
}
