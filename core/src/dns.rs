//! C21 server location, C22 ENUM and DHCP decoding.
use sip_core::SipUri;
use sip_dns::*;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vlib::gen::*;
use vlib::*;

type R = Result<(), Fail>;

// ---------------------------------------------------------------- a name server of our own

const A: u16 = 1;
const CNAME: u16 = 5;
const AAAA: u16 = 28;
const SRV: u16 = 33;
const NAPTR: u16 = 35;
#[derive(Clone, Debug, PartialEq)]
enum Rd {
    A(Ipv4Addr),
    Aaaa(Ipv6Addr),
    Cname(String),
    Srv(u16, u16, u16, String),
    Naptr(u16, u16, String, String, String),
}
type Zone = HashMap<(String, u16), Vec<Rd>>;

fn put_name(o: &mut Vec<u8>, n: &str) {
    for l in n.split('.').filter(|l| !l.is_empty()) {
        o.push(l.len() as u8);
        o.extend(l.as_bytes());
    }
    o.push(0);
}
fn rdata(r: &Rd) -> (u16, Vec<u8>) {
    let mut o = vec![];
    let t = match r {
        Rd::A(a) => {
            o.extend(a.octets());
            A
        }
        Rd::Aaaa(a) => {
            o.extend(a.octets());
            AAAA
        }
        Rd::Cname(n) => {
            put_name(&mut o, n);
            CNAME
        }
        Rd::Srv(p, w, port, t) => {
            for x in [p, w, port] {
                o.extend(x.to_be_bytes());
            }
            put_name(&mut o, t);
            SRV
        }
        Rd::Naptr(ord, pref, flags, service, repl) => {
            o.extend(ord.to_be_bytes());
            o.extend(pref.to_be_bytes());
            for x in [flags, service, &String::new()] {
                o.push(x.len() as u8);
                o.extend(x.as_bytes());
            }
            put_name(&mut o, repl);
            NAPTR
        }
    };
    (t, o)
}
fn reply(q: &[u8], z: &Zone) -> Option<Vec<u8>> {
    if q.len() < 12 {
        return None;
    }
    let mut at = 12;
    let mut labels = vec![];
    loop {
        let l = *q.get(at)? as usize;
        at += 1;
        if l == 0 {
            break;
        }
        labels.push(String::from_utf8_lossy(q.get(at..at + l)?).to_lowercase());
        at += l;
    }
    let ty = u16::from_be_bytes([*q.get(at)?, *q.get(at + 1)?]);
    let question = q.get(12..at + 4)?.to_vec();
    let name = labels.join(".");
    let mut ans: Vec<(String, Rd)> = vec![];
    let mut cur = name.clone();
    for _ in 0..4 {
        if let Some(v) = z.get(&(cur.clone(), ty)) {
            ans.extend(v.iter().map(|r| (cur.clone(), r.clone())));
            break;
        }
        match z.get(&(cur.clone(), CNAME)).and_then(|v| v.first()) {
            Some(c @ Rd::Cname(n)) => {
                ans.push((cur.clone(), c.clone()));
                cur = n.to_lowercase();
            }
            _ => break,
        }
    }
    let known = z.keys().any(|k| k.0 == name);
    let mut o = vec![q[0], q[1], 0x85, 0x80 | if known { 0 } else { 3 }, 0, 1];
    o.extend((ans.len() as u16).to_be_bytes());
    o.extend([0, 0, 0, 0]);
    o.extend(question);
    for (n, r) in ans {
        put_name(&mut o, &n);
        let (t, d) = rdata(&r);
        o.extend(t.to_be_bytes());
        o.extend([0, 1, 0, 0, 1, 0]);
        o.extend((d.len() as u16).to_be_bytes());
        o.extend(d);
    }
    Some(o)
}
struct Server {
    port: u16,
    zone: Arc<Mutex<Zone>>,
}
fn serve() -> Server {
    let sock = UdpSocket::bind("127.0.0.1:0").unwrap();
    let port = sock.local_addr().unwrap().port();
    let zone: Arc<Mutex<Zone>> = Default::default();
    let z = zone.clone();
    std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        while let Ok((n, from)) = sock.recv_from(&mut b) {
            let r = reply(&b[..n], &z.lock().unwrap());
            if let Some(r) = r {
                let _ = sock.send_to(&r, from);
            }
        }
    });
    Server { port, zone }
}
thread_local! {
    static SERVER: Server = serve();
}
fn resolver(z: &Zone) -> SipResolver {
    use hickory_resolver::config::*;
    let port = SERVER.with(|s| {
        *s.zone.lock().unwrap() = z.clone();
        s.port
    });
    let mut udp = ConnectionConfig::udp();
    udp.port = port;
    let ns = NameServerConfig::new(IpAddr::V4(Ipv4Addr::LOCALHOST), true, vec![udp]);
    let mut o = ResolverOpts::default();
    o.timeout = Duration::from_secs(20);
    o.attempts = 3;
    o.ip_strategy = LookupIpStrategy::Ipv4AndIpv6;
    o.use_hosts_file = ResolveHosts::Never;
    SipResolver::with_config(ResolverConfig::from_parts(None, vec![], vec![ns]), o).unwrap().with_query_timeout(Duration::from_secs(60))
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

// ---------------------------------------------------------------- the model of RFC 3263

type T = (String, u16, Transport);
fn fmt_t(v: &[DnsTarget]) -> Vec<T> {
    v.iter().map(|t| (t.host().to_string(), t.port(), t.transport())).collect()
}
fn secure(t: Transport) -> bool {
    matches!(t, Transport::Tls | Transport::Wss | Transport::TlsSctp)
}
fn port_of(t: Transport) -> u16 {
    if matches!(t, Transport::Tls | Transport::TlsSctp) { 5061 } else { 5060 }
}
const PARAM: [(&str, Transport); 7] = [
    ("udp", Transport::Udp),
    ("tcp", Transport::Tcp),
    ("tls", Transport::Tls),
    ("sctp", Transport::Sctp),
    ("tls-sctp", Transport::TlsSctp),
    ("ws", Transport::Ws),
    ("wss", Transport::Wss),
];
const SERVICES: [(&str, Transport); 5] =
    [("SIP+D2U", Transport::Udp), ("SIP+D2T", Transport::Tcp), ("SIPS+D2T", Transport::Tls), ("SIP+D2S", Transport::Sctp), ("SIPS+D2S", Transport::TlsSctp)];
fn srv_name(t: Transport, host: &str) -> String {
    match t {
        Transport::Udp => format!("_sip._udp.{host}"),
        Transport::Tls => format!("_sips._tcp.{host}"),
        Transport::Sctp => format!("_sip._sctp.{host}"),
        Transport::TlsSctp => format!("_sips._sctp.{host}"),
        _ => format!("_sip._tcp.{host}"),
    }
}
/// Groups whose members may come in any order.
type Groups = Vec<Vec<T>>;
fn srv_groups(z: &Zone, name: &str, t: Transport) -> Groups {
    let mut by: BTreeMap<u16, Vec<T>> = BTreeMap::new();
    for r in z.get(&(name.to_lowercase(), SRV)).into_iter().flatten() {
        if let Rd::Srv(p, _, port, target) = r {
            if !target.is_empty() {
                by.entry(*p).or_default().push((target.clone(), *port, t));
            }
        }
    }
    by.into_values().collect()
}
fn addresses(z: &Zone, host: &str) -> Vec<String> {
    let mut host = host.to_lowercase();
    for _ in 0..3 {
        if let Some(Rd::Cname(n)) = z.get(&(host.clone(), CNAME)).and_then(|v| v.first()) {
            host = n.clone();
        }
    }
    [A, AAAA]
        .iter()
        .flat_map(|t| z.get(&(host.clone(), *t)).into_iter().flatten())
        .map(|r| match r {
            Rd::A(a) => a.to_string(),
            Rd::Aaaa(a) => a.to_string(),
            _ => String::new(),
        })
        .collect()
}
fn matches(got: &[T], want: &Groups) -> bool {
    let mut i = 0;
    for g in want {
        let Some(part) = got.get(i..i + g.len()) else { return false };
        let (mut a, mut b) = (part.to_vec(), g.clone());
        a.sort();
        b.sort();
        if a != b {
            return false;
        }
        i += g.len();
    }
    i == got.len()
}
fn v6(s: &mut Src) -> Ipv6Addr {
    let mut o = [0u16; 8];
    o[0] = 0x2001;
    o[7] = s.num(65535) as u16;
    o[6] = s.num(65535) as u16;
    o.into()
}
fn v4(s: &mut Src) -> Ipv4Addr {
    Ipv4Addr::new(10, s.num(255) as u8, s.num(255) as u8, s.num(255) as u8)
}
fn add_addrs(s: &mut Src, z: &mut Zone, h: &str) {
    let (n4, n6) = (s.urange(0, 3), s.urange(0, 2));
    let mut a: Vec<Rd> = vec![];
    for _ in 0..n4 {
        let x = Rd::A(v4(s));
        if !a.contains(&x) {
            a.push(x);
        }
    }
    let mut b: Vec<Rd> = vec![];
    for _ in 0..n6 {
        let x = Rd::Aaaa(v6(s));
        if !b.contains(&x) {
            b.push(x);
        }
    }
    if !a.is_empty() {
        z.insert((h.into(), A), a);
    }
    if !b.is_empty() {
        z.insert((h.into(), AAAA), b);
    }
}
fn srv_set(s: &mut Src) -> (Vec<Rd>, bool) {
    let mut v: Vec<Rd> = vec![];
    let mut dot = false;
    for _ in 0..s.urange(1, 5) {
        if s.chance(1, 25) {
            v.push(Rd::Srv(0, 0, 0, String::new()));
            dot = true;
            continue;
        }
        let prio = *s.pick(&[0u16, 1, 2, 10, 100, 65535]);
        let w = *s.pick(&[0u16, 0, 1, 5, 100, 65535]);
        let port = *s.pick(&[5060u16, 5061, 5070, 1, 65535]);
        let t = format!("{}{}.{}", s.pick(&["s", "srv", "node-"]), s.below(4), s.pick(&["test", "example.net"]));
        if !v.iter().any(|r| matches!(r, Rd::Srv(_, _, p, n) if *p == port && *n == t)) {
            v.push(Rd::Srv(prio, w, port, t));
        }
    }
    s.shuffle(&mut v);
    (v, dot)
}
fn locate(s: &mut Src, ctx: &mut Ctx) -> R {
    let sips = s.chance(1, 3);
    let numeric = s.chance(1, 6);
    let host = if numeric {
        if s.coin() { v4(s).to_string() } else { format!("[{}]", v6(s)) }
    } else {
        hostname(s).to_lowercase()
    };
    let port = s.opt(1, 4, |s| port(s).max(1));
    let tp = s.opt(2, 5, |s| *s.pick(&PARAM));
    let maddr = s.opt(1, 8, |s| match s.below(3) {
        0 => v4(s).to_string(),
        1 => format!("[{}]", v6(s)),
        _ => format!("m.{}", hostname(s).to_lowercase()),
    });
    let mut u = format!("{}:{}{host}", if sips { "sips" } else { "sip" }, s.pick(&["", "bob@", "+123@"]));
    if let Some(p) = port {
        u.push_str(&format!(":{p}"));
    }
    let mut ps = vec![];
    if let Some(t) = tp {
        let v = if s.chance(1, 4) { t.0.to_uppercase() } else { t.0.to_string() };
        ps.push(format!(";transport={v}"));
    }
    ps.extend(maddr.iter().map(|m| format!(";maddr={m}")));
    if s.chance(1, 5) {
        ps.push(";lr".into());
    }
    s.shuffle(&mut ps);
    u.push_str(&ps.concat());
    let target = maddr.clone().unwrap_or(host.clone());
    let bare = target.trim_matches(|c| c == '[' || c == ']').to_string();
    let is_ip = bare.parse::<IpAddr>().is_ok();

    // the zone
    let mut z = Zone::new();
    if s.chance(3, 4) {
        if s.chance(1, 8) {
            let c = format!("c.{bare}");
            z.insert((bare.clone(), CNAME), vec![Rd::Cname(c.clone())]);
            add_addrs(s, &mut z, &c);
        } else {
            add_addrs(s, &mut z, &bare);
        }
    }
    if maddr.is_some() && host != bare {
        // the host itself must not matter
        let h = host.trim_matches(|c| c == '[' || c == ']').to_string();
        add_addrs(s, &mut z, &h);
        z.insert((srv_name(Transport::Udp, &h), SRV), vec![Rd::Srv(1, 1, 1, "wrong.test".into())]);
    }
    let alias = z.contains_key(&(bare.clone(), CNAME));
    let mut dots = false;
    for t in [Transport::Udp, Transport::Tcp, Transport::Tls, Transport::Sctp, Transport::TlsSctp] {
        if s.chance(2, 5) {
            let (v, d) = srv_set(s);
            dots |= d;
            z.insert((srv_name(t, &bare), SRV), v);
        }
    }
    let mut naptr: Vec<(u16, u16, Transport, String)> = vec![];
    let use_naptr = !s.chance(1, 8);
    if !alias && s.chance(1, 2) {
        let mut v = vec![];
        for _ in 0..s.urange(1, 5) {
            let (o, p) = (*s.pick(&[1u16, 2, 10, 50, 65535]), *s.pick(&[0u16, 1, 50, 100]));
            if naptr.iter().any(|n| (n.0, n.1) == (o, p)) {
                continue;
            }
            let sv = *s.pick(&SERVICES);
            let repl = match s.weighted(&[4, 2, 1]) {
                // the usual name, one in another domain, or one that says nothing
                0 => srv_name(sv.1, &bare),
                1 => srv_name(sv.1, s.pick(&["other.test", "b.other.test"])),
                _ => format!("x{}.test", s.below(3)),
            };
            if naptr.iter().any(|n| n.3 == repl) {
                continue;
            }
            if s.chance(4, 5) {
                let (x, d) = srv_set(s);
                dots |= d;
                z.entry((repl.clone(), SRV)).or_insert(x);
            }
            naptr.push((o, p, sv.1, repl.clone()));
            let service = if s.chance(1, 4) { sv.0.to_lowercase() } else { sv.0.to_string() };
            v.push(Rd::Naptr(o, p, s.pick(&["s", "S"]).to_string(), service, repl));
        }
        if s.chance(1, 3) {
            // other services, and a record without a replacement
            v.push(Rd::Naptr(0, 0, "u".into(), s.pick(&["E2U+sip", "AAA+D2T", "SIP+D2X"]).to_string(), "_sip._udp.wrong.test".into()));
            z.insert(("_sip._udp.wrong.test".into(), SRV), vec![Rd::Srv(0, 0, 9, "wrong.test".into())]);
        }
        s.shuffle(&mut v);
        z.insert((bare.clone(), NAPTR), v);
    }
    naptr.sort_by_key(|n| (n.0, n.1));
    ctx.desc(|| format!("{u}\nNAPTR {} {z:?}", if use_naptr { "used" } else { "not used" }));
    let uri = match SipUri::parse(&u) {
        Ok(x) => x,
        Err(e) => return fail("locate:uri", format!("{u}: {e}")),
    };
    ctx.nontrivial(&(&u, use_naptr, format!("{:?}", z.iter().collect::<BTreeMap<_, _>>().values().collect::<Vec<_>>().len()), format!("{naptr:?}")));
    let res = rt().block_on(async {
        let mut r = resolver(&z);
        if !use_naptr {
            r = r.disable_naptr();
        }
        r.resolve(&uri).await
    });
    let got = res.as_ref().map(|v| fmt_t(v)).unwrap_or_default();
    let show = || format!("{u}\nNAPTR {} {z:?}\ngot {res:?}", if use_naptr { "used" } else { "not used" });
    ensure!(res.is_err() || !got.is_empty(), "locate:empty", "{}", show());
    if sips {
        ensure!(got.iter().all(|t| secure(t.2)), "locate:insecure", "{}", show());
    }
    // the transport when nothing in the DNS says otherwise
    let tx = if sips { Transport::Tls } else { tp.map(|t| t.1).unwrap_or(Transport::Udp) };
    // sips over WebSocket or SCTP may be taken as their secure kinds
    let loose = sips && tp.is_some_and(|t| !matches!(t.1, Transport::Udp | Transport::Tcp | Transport::Tls));
    if loose || (!is_ip && port.is_none() && matches!(tx, Transport::Ws | Transport::Wss)) {
        ctx.label("loose");
        if is_ip || port.is_some() {
            let ips = if is_ip { vec![bare.clone()] } else { addresses(&z, &bare) };
            let mut a: Vec<&String> = got.iter().map(|t| &t.0).collect();
            let mut b: Vec<&String> = ips.iter().collect();
            a.sort();
            b.sort();
            ensure_eq!(a, b, "locate:addresses", "{}", show());
        }
        return Ok(());
    }
    let web = matches!(tx, Transport::Ws | Transport::Wss);
    let direct = |p: Option<u16>| -> Vec<T> { (if is_ip { vec![bare.clone()] } else { addresses(&z, &bare) }).into_iter().map(|a| (a, p.unwrap_or(port_of(tx)), tx)).collect() };
    if is_ip || port.is_some() {
        ctx.label(if is_ip { "numeric" } else { "explicit-port" });
        let mut want = direct(port);
        let mut g = got.clone();
        if web && port.is_none() {
            // the default port of the WebSocket URI schemes is as good
            want.iter_mut().for_each(|t| t.1 = 0);
            ensure!(g.iter().all(|t| [5060, 5061, 80, 443].contains(&t.1)), "locate:direct", "{}", show());
            g.iter_mut().for_each(|t| t.1 = 0);
        }
        want.sort();
        g.sort();
        ensure_eq!(g, want, "locate:direct", "{}", show());
        if let Ok(v) = &res {
            // an address found for a name keeps the name for certificate checks
            if !is_ip {
                ensure!(v.iter().all(|t| t.sni() == bare), "locate:sni", "{}", show());
            }
        }
        return Ok(());
    }
    // SRV by NAPTR
    let explicit = sips || tp.is_some();
    let usable: Vec<&(u16, u16, Transport, String)> = naptr.iter().filter(|n| use_naptr && (!explicit || n.2 == tx)).collect();
    let by_naptr: Groups = usable.iter().flat_map(|n| srv_groups(&z, &n.3, n.2)).collect();
    // SRV by transport
    let order = if explicit { vec![tx] } else { vec![Transport::Tcp, Transport::Udp] };
    let by_srv: Groups = order.iter().flat_map(|t| srv_groups(&z, &srv_name(*t, &bare), *t)).collect();
    let mut wants: Vec<Groups> = vec![];
    let fall: Groups = vec![direct(None)];
    if !usable.is_empty() {
        wants.push(if by_naptr.is_empty() { fall.clone() } else { by_naptr });
        // a transport named in the URI makes NAPTR unnecessary
        if tp.is_some() && !sips {
            wants.push(if by_srv.is_empty() { fall } else { by_srv });
        }
        ctx.label("naptr");
    } else {
        ctx.label(if by_srv.is_empty() { "fallback" } else { "srv" });
        wants.push(if by_srv.is_empty() { fall } else { by_srv });
    }
    let ok = wants.iter().any(|w| matches(&got, w));
    // "the service is decidedly not available" may also end the search
    ensure!(ok || (dots && res.is_err()), "locate:targets", "{}\nwanted {wants:?}", show());
    if let Ok(v) = &res {
        for t in v {
            if t.host().parse::<IpAddr>().is_ok() {
                ensure_eq!(t.sni(), bare, "locate:sni", "{}", show());
            }
        }
    }
    Ok(())
}

/// Weights within a priority.
fn weights(s: &mut Src, ctx: &mut Ctx) -> R {
    const N: usize = 240;
    let n = s.urange(2, 4);
    let w: Vec<u16> = (0..n).map(|_| *s.pick(&[0u16, 0, 1, 2, 10, 50, 1000, 65535])).collect();
    let lone = s.coin();
    let mut v: Vec<Rd> = w.iter().enumerate().map(|(i, w)| Rd::Srv(5, *w, 5060, format!("n{i}.test"))).collect();
    if lone {
        v.push(Rd::Srv(4, 0, 5060, "first.test".into()));
        v.push(Rd::Srv(6, 65535, 5060, "last.test".into()));
    }
    s.shuffle(&mut v);
    ctx.desc(|| format!("weights {w:?}"));
    ctx.nontrivial(&(&w, lone));
    let mut z = Zone::new();
    z.insert(("_sip._udp.w.test".into(), SRV), v);
    let uri = SipUri::parse("sip:w.test;transport=udp").unwrap();
    let mut first = vec![0usize; n];
    // second places, with the chance each had after the first place that was drawn
    let (mut second, mut due) = (vec![0usize; n], vec![(0f64, 0f64); n]);
    rt().block_on(async {
        let r = resolver(&z);
        for _ in 0..N {
            let t = r.resolve(&uri).await.map_err(|e| Fail { sig: "weights:error".into(), msg: e.to_string() })?;
            let names: Vec<&str> = t.iter().map(|t| t.host()).collect();
            let at = if lone { 1 } else { 0 };
            ensure_eq!(names.len(), n + 2 * at, "weights:lost", "{names:?}");
            if lone {
                ensure!(names[0] == "first.test" && names[n + 1] == "last.test", "weights:priority", "{names:?}");
            }
            let mut mid: Vec<&str> = names[at..at + n].to_vec();
            let at = |k: usize| mid[k][1..2].parse::<usize>().unwrap();
            let (a, b) = (at(0), at(1));
            first[a] += 1;
            let rest: f64 = (0..n).filter(|i| *i != a).map(|i| w[i] as f64).sum();
            if rest > 0.0 {
                second[b] += 1;
                for i in (0..n).filter(|i| *i != a) {
                    let p = w[i] as f64 / rest;
                    due[i].0 += p;
                    due[i].1 += p * (1.0 - p);
                }
            }
            mid.sort();
            mid.dedup();
            ensure_eq!(mid.len(), n, "weights:lost", "{names:?}");
        }
        Ok(())
    })?;
    // the share of first places follows the weights; 8 standard deviations of a binomial
    let total: f64 = w.iter().map(|w| *w as f64).sum();
    for i in 0..n {
        let p = if total == 0.0 { 1.0 / n as f64 } else { w[i] as f64 / total };
        let (m, sd) = (p * N as f64, (p * (1.0 - p) * N as f64).sqrt());
        // a weight of zero has a very small chance
        let slack = 8.0 * sd + 6.0;
        ensure!((first[i] as f64 - m).abs() <= slack, "weights:share", "weights {w:?}: first places {first:?} of {N}");
        let slack = 8.0 * due[i].1.sqrt() + 6.0;
        ensure!((second[i] as f64 - due[i].0).abs() <= slack, "weights:second", "weights {w:?}: second places {second:?}, due {due:?}");
    }
    Ok(())
}

/// The DNS behind a DHCP resolver: a table, which records what it is asked.
struct Table {
    map: HashMap<String, Option<Vec<DnsTarget>>>,
    asked: Mutex<Vec<SipUri>>,
}
struct Shared(Arc<Table>);
#[async_trait::async_trait]
impl Resolver for Shared {
    async fn resolve(&self, uri: &SipUri) -> anyhow::Result<Vec<DnsTarget>> {
        self.0.asked.lock().unwrap().push(uri.clone());
        match self.0.map.get(uri.host()) {
            Some(Some(v)) => Ok(v.clone()),
            _ => Err(anyhow::anyhow!("no such name")),
        }
    }
}
fn some_targets(s: &mut Src, hi: usize) -> Vec<DnsTarget> {
    let n = s.urange(1, hi);
    (0..n).map(|_| DnsTarget::unchecked_new(format!("t{}.test", s.below(5)), port(s), s.pick(&PARAM).1).with_priority(s.below(3) as u16)).collect()
}
fn dhcp(s: &mut Src, ctx: &mut Ctx) -> R {
    let sips = s.chance(1, 3);
    let tp = s.opt(1, 3, |s| *s.pick(&PARAM[..5]));
    let mut u = format!("{}:bob@home.test", if sips { "sips" } else { "sip" });
    let own_port = s.opt(1, 3, port);
    if let Some(p) = own_port {
        u.push_str(&format!(":{p}"));
    }
    if let Some(t) = tp {
        u.push_str(&format!(";transport={}", t.0));
    }
    // an outbound proxy of the DHCP server takes the place of the maddr too
    let maddr = s.opt(1, 5, |s| format!("m{}.test", s.below(3)));
    if let Some(m) = &maddr {
        u.push_str(&format!(";maddr={m}"));
    }
    let uri = SipUri::parse(&u).map_err(|e| Fail { sig: "dhcp:uri".into(), msg: format!("{u} {e}") })?;
    let tx = if sips { Transport::Tls } else { tp.map(|t| t.1).unwrap_or(Transport::Udp) };
    let servers: Option<Vec<DhcpSipServer>> = s.opt(7, 8, |s| {
        s.many(0, 5, 20, |s| match s.weighted(&[3, 4, 1]) {
            0 => DhcpSipServer::Ipv4(v4(s)),
            1 => DhcpSipServer::Domain(format!("d{}.test", s.below(4)).into()),
            _ => DhcpSipServer::Domain(s.pick(&["bad host", "a@b", "", "x\r\ny", "-"]).to_string().into()),
        })
    });
    let mut map: HashMap<String, Option<Vec<DnsTarget>>> = HashMap::new();
    for i in 0..4 {
        let big = s.chance(1, 12);
        map.insert(format!("d{i}.test"), s.opt(3, 4, |s| some_targets(s, if big { 60 } else { 4 })));
    }
    let fall = s.opt(3, 4, |s| some_targets(s, 3));
    map.insert("home.test".into(), fall.clone());
    ctx.desc(|| format!("{u} servers {servers:?} dns {map:?}"));
    ctx.nontrivial(&(&u, format!("{servers:?}"), format!("{fall:?}")));
    let t = Arc::new(Table { map: map.clone(), asked: Default::default() });
    let hybrid = s.coin();
    let prov = match &servers {
        Some(v) => StaticDhcpProvider::new(v.clone()),
        None => StaticDhcpProvider::empty(),
    };
    let res = rt().block_on(async {
        if hybrid {
            HybridResolver::new(prov, Shared(t.clone())).resolve(&uri).await
        } else {
            DhcpResolver::new(prov, Shared(t.clone())).resolve(&uri).await
        }
    });
    // the model
    let mut want: Vec<T> = vec![];
    let mut asked: Vec<String> = vec![];
    for sv in servers.iter().flatten() {
        match sv {
            DhcpSipServer::Ipv4(a) => want.push((a.to_string(), port_of(tx), tx)),
            DhcpSipServer::Domain(d) => {
                if d.starts_with('d') {
                    asked.push(d.to_string());
                }
                if let Some(Some(v)) = map.get(d.as_str()) {
                    want.extend(fmt_t(v));
                }
            }
        }
    }
    let from_dhcp = !want.is_empty();
    if !from_dhcp && hybrid {
        want = fall.map(|v| fmt_t(&v)).unwrap_or_default();
        asked.push("home.test".into());
    }
    let show = || format!("{u} hybrid {hybrid} servers {servers:?}\ngot {res:?}");
    if want.is_empty() || want.len() > 100 {
        ctx.label("none");
        ensure!(res.is_err(), "dhcp:should-fail", "{}", show());
    } else {
        ctx.label(if from_dhcp { "dhcp" } else { "dns" });
        let got = res.as_ref().map(|v| fmt_t(v)).unwrap_or_default();
        ensure_eq!(got, want, "dhcp:targets", "{}", show());
    }
    for q in t.asked.lock().unwrap().iter() {
        ensure_eq!(q.is_sips(), sips, "dhcp:scheme", "{q:?}");
        let own = q.host() == "home.test";
        for (k, v) in uri.params().iter().filter(|p| own || p.0 != "maddr") {
            ensure!(q.params().get(k) == Some(v), "dhcp:params", "{k} {q:?}");
        }
        if !own {
            ensure!(q.params().get("maddr").is_none_or(|m| m.as_deref() == Some(q.host())), "dhcp:maddr", "{q:?}");
        }
        ensure_eq!(q.port(), if q.host() == "home.test" { own_port } else { None }, "dhcp:port", "{q:?}");
    }
    let got: Vec<String> = t.asked.lock().unwrap().iter().map(|q| q.host().to_string()).filter(|h| h != "-").collect();
    if from_dhcp || hybrid {
        ensure_eq!(got, asked, "dhcp:asked", "{}", show());
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn enum_domain(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = digits(s, 1, 18);
    let bad = s.chance(1, 3);
    let mut t = format!("+{d}");
    if bad {
        match s.below(5) {
            0 => t = d.clone(),
            1 => t = "+".into(),
            2 => {
                let at = s.urange(1, t.len());
                t.insert(at, *s.pick(&['-', ' ', '.', '+', 'a', '*', '\u{663}', '\u{ff11}', '\0']));
            }
            3 => t.insert(0, ' '),
            _ => t.push('\n'),
        }
    }
    ctx.desc(|| format!("{t:?}"));
    ctx.nontrivial(&t);
    let got = enum_to_domain(&t);
    if bad {
        ensure_eq!(got, None, "enum:bad-number", "{t:?}");
    } else {
        let want = format!("{}.e164.arpa", d.chars().rev().map(|c| c.to_string()).collect::<Vec<_>>().join("."));
        ensure_eq!(got, Some(want.clone()), "enum:domain", "{t:?}");
        // the same from a tel URI, with visual separators
        let mut w = String::from("tel:+");
        for (i, c) in d.chars().enumerate() {
            w.push(c);
            if i + 1 < d.len() && s.chance(1, 5) {
                w.push(*s.pick(&['-', '.', '(', ')']));
            }
        }
        if s.chance(1, 3) {
            w.push_str(&format!(";ext={}", digits(s, 1, 3)));
        }
        let tel = sip_core::TelUri::parse(&w).map_err(|e| Fail { sig: "enum:tel-refused".into(), msg: format!("{w} {e}") })?;
        ensure_eq!(tel_uri_to_enum_domain(&tel), Some(want), "enum:tel", "{w}");
        let local = format!("tel:{d};phone-context={}", s.pick(&["example.com", "+1"]));
        let tel = sip_core::TelUri::parse(&local).map_err(|e| Fail { sig: "enum:tel-refused".into(), msg: format!("{local} {e}") })?;
        ensure_eq!(tel_uri_to_enum_domain(&tel), None, "enum:local-tel", "{local}");
    }
    Ok(())
}
fn enum_records(s: &mut Src, ctx: &mut Ctx) -> R {
    // records whose rewrite rule names them
    let n = s.urange(0, 6);
    let mut v = vec![];
    let mut model: Vec<(u16, u16, bool, Option<String>)> = vec![];
    for i in 0..n {
        let (o, p) = (*s.pick(&[0u16, 1, 10, 100, 65535]), *s.pick(&[0u16, 1, 10, 65535]));
        let sip = s.chance(2, 3);
        let service = if sip { if s.coin() { "E2U+sip".to_string() } else { "e2u+SIP".into() } } else { s.pick(&["E2U+mailto", "E2U+h323", "E2U+sipx", "sip", "E2U+sips", ""]).to_string() };
        let d = *s.pick(&['!', '|', '/', '#', '~', ',']);
        let esc = |s: &mut Src, set: &str| -> String {
            let mut t = String::new();
            for _ in 0..s.urange(0, 6) {
                match s.weighted(&[6, 1, 1]) {
                    0 => {
                        let c = *s.pick(&set.chars().collect::<Vec<_>>());
                        if c != d {
                            t.push(c);
                        }
                    }
                    1 => {
                        t.push('\\');
                        t.push(d);
                    }
                    _ => {
                        t.push('\\');
                        t.push(*s.pick(&['1', '2', '\\', '+']));
                    }
                }
            }
            t
        };
        let pat = format!("^{}$", esc(s, ".*()[0-9]+"));
        let repl = format!("sip:{i}{}@example.com", esc(s, "ab1;=?&!/|#"));
        let (rule, uri) = match s.weighted(&[8, 1, 1, 1, 1, 1, 1]) {
            0 => (format!("{d}{pat}{d}{repl}{d}{}", s.pick(&["", "", "i"])), Some(repl)),
            // no closing delimiter, no replacement, one part, nothing
            1 => (format!("{d}{pat}{d}{repl}"), None),
            2 => (format!("{d}{pat}{d}{d}"), None),
            3 => (format!("{d}{pat}"), None),
            4 => (String::new(), None),
            // a fourth part, a flag there is not
            5 => (format!("{d}{pat}{d}{repl}{d}{}{d}{}", s.pick(&["", "i"]), s.pick(&["", "i", "sip:x@y"])), None),
            _ => (format!("{d}{pat}{d}{repl}{d}{}", s.pick(&["g", "ig", "I ", "x"])), None),
        };
        let r = EnumNaptrRecord::new(o, p, s.pick(&["u", "U", ""]).to_string(), service, rule, "");
        ensure_eq!(r.is_sip_service(), sip, "enum:service", "{r:?}");
        ensure_eq!(r.is_terminal(), !r.flags.is_empty(), "enum:terminal", "{r:?}");
        ensure_eq!(r.extract_uri(), uri, "enum:rule", "{r:?}");
        model.push((o, p, sip, uri));
        v.push(r);
    }
    ctx.desc(|| format!("{v:?}"));
    ctx.nontrivial(&format!("{v:?}"));
    let mut want: Vec<usize> = (0..n).filter(|i| model[*i].2).collect();
    let fs = filter_sip_records(&v);
    ensure!(fs == want.iter().map(|i| v[*i].clone()).collect::<Vec<_>>(), "enum:filter", "{v:?}");
    want.sort_by_key(|i| (model[*i].0, model[*i].1));
    let best = select_best_sip_record(&v);
    // the first given among equals is as good as any other of them
    let ok = match (&best, want.first()) {
        (None, None) => true,
        (Some(b), Some(w)) => v.iter().zip(&model).any(|(r, m)| r == b && m.2 && (m.0, m.1) == (model[*w].0, model[*w].1)),
        _ => false,
    };
    ensure!(ok, "enum:best", "{v:?}: {best:?}");
    let mut sorted = v.clone();
    sort_enum_records(&mut sorted);
    ensure!(sorted.windows(2).all(|w| (w[0].order, w[0].preference) <= (w[1].order, w[1].preference)), "enum:sort", "{sorted:?}");
    let mut a: Vec<String> = sorted.iter().map(|r| format!("{r:?}")).collect();
    let mut b: Vec<String> = v.iter().map(|r| format!("{r:?}")).collect();
    a.sort();
    b.sort();
    ensure_eq!(a, b, "enum:sort-lost", "");
    Ok(())
}
fn lab(s: &mut Src) -> String {
    match s.weighted(&[6, 1, 1]) {
        0 => alnum(s, 1, 10).to_lowercase(),
        1 => alnum(s, 60, 63),
        _ => s.pick(&["_sip", "xn--bcher-kva", "a-b", "b\u{fc}cher", "0"]).to_string(),
    }
}
fn option120(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut bytes = vec![];
    let mut want: Option<Vec<String>>;
    if s.chance(1, 3) {
        let v: Vec<Ipv4Addr> = s.vec(1, 5, v4);
        bytes.push(1);
        v.iter().for_each(|a| bytes.extend(a.octets()));
        want = Some(v.iter().map(|a| a.to_string()).collect());
        match s.weighted(&[4, 1, 1]) {
            0 => {}
            1 => {
                let k = s.urange(1, 3);
                bytes.truncate(bytes.len() - k);
                want = None;
            }
            _ => {
                bytes.truncate(1);
                want = None;
            }
        }
        let t = parse_dhcp_option_150(&bytes[1..]);
        ensure_eq!(t.ok().map(|v| v.iter().map(|a| a.to_string()).collect::<Vec<_>>()), want, "dhcp150", "{bytes:?}");
    } else {
        let names: Vec<Vec<String>> = s.vec(1, 4, |s| s.vec(1, 4, lab));
        bytes.push(0);
        let mut starts = vec![];
        for n in &names {
            for l in n {
                starts.push(bytes.len());
                bytes.push(l.len() as u8);
                bytes.extend(l.as_bytes());
            }
            starts.push(bytes.len());
            bytes.push(0);
        }
        want = Some(names.iter().map(|n| n.join(".")).collect());
        // a name takes at most 255 octets on the wire
        if names.iter().any(|n| n.join(".").len() > 253) {
            want = None;
        }
        match s.weighted(&[6, 1, 1, 1, 1, 1, 1, 1]) {
            0 => {}
            1 => {
                // cut anywhere but at the end of a name
                let k = s.urange(1, bytes.len() - 1);
                if bytes[1..k].is_empty() || !starts.contains(&(k - 1)) || bytes[k - 1] != 0 {
                    bytes.truncate(k);
                    want = None;
                }
            }
            2 => {
                // a length beyond 63, or a compression pointer
                let at = *s.pick(&starts);
                bytes[at] = s.range(64, 255) as u8;
                want = None;
            }
            3 => {
                // an empty name
                let at = if s.coin() { 1 } else { bytes.len() };
                bytes.insert(at, 0);
                want = None;
            }
            4 => {
                bytes[0] = s.range(2, 255) as u8;
                want = None;
            }
            5 => {
                // bytes that are not text
                let at = *s.pick(&starts);
                if bytes[at] > 0 {
                    bytes[at + 1] = *s.pick(&[0xff, 0x80, 0xc3, 0, 10, b'.']);
                    // (a lone lead byte may complete what follows)
                    if bytes[at + 1] == 0xc3 && bytes.get(at + 2).is_some_and(|b| (0x80..0xc0).contains(b)) {
                        bytes[at + 1] = 0xff;
                    }
                    want = None;
                }
            }
            6 => {
                bytes.truncate(s.urange(0, 1));
                want = None;
            }
            _ => {
                // a name of more than 255 octets
                bytes.truncate(1);
                for _ in 0..5 {
                    bytes.push(60);
                    bytes.extend([b'a'; 60]);
                }
                bytes.push(0);
                want = None;
            }
        }
    }
    ctx.desc(|| format!("{bytes:?}"));
    ctx.nontrivial(&bytes);
    ctx.label(if want.is_some() { "valid" } else { "malformed" });
    let got = parse_dhcp_option_120(&bytes);
    let got2 = got.as_ref().ok().map(|v| v.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    ensure_eq!(got2, want, "dhcp120", "{bytes:?} {:?}", got.as_ref().err().map(|e| e.to_string()));
    if let Ok(v) = got {
        ensure!(v.iter().all(|x| matches!(x, DhcpSipServer::Ipv4(_)) == (bytes[0] == 1)), "dhcp120:kind", "{v:?}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "a URI resolved against a generated zone served by a name server of the harness (or DHCP servers over a table) and its targets compared with the RFC 3263 model; keyed by URI and NAPTR set",
            assumptions: &[
                "SRV targets are reported as the names in the records; looking up their addresses is the caller's",
                "NAPTR records have distinct order/preference pairs and the flag S",
                "WebSocket URIs without port or numeric host, and sips URIs over WebSocket or SCTP: only security and addresses are judged",
                "a transport given in the URI may or may not skip NAPTR (RFC 3263 section 4.1 says skip, the resolver filters)",
            ],
            units: vec![unit!("locate", 3000, 60000, locate), unit!("weights", 150, 4000, weights), unit!("dhcp", 6000, 150000, dhcp)],
        },
        Prop {
            id: "C22",
            rule: "a number, NAPTR record set or DHCP option decoded and compared with the model that generated it; keyed by the input",
            assumptions: &["substitution of back references in ENUM rules is the caller's (documented and pinned by tests): the rule's replacement is judged"],
            units: vec![unit!("enum-domain", 20000, 300000, enum_domain), unit!("enum-records", 20000, 300000, enum_records), unit!("option-120", 30000, 500000, option120)],
        },
    ]
}
