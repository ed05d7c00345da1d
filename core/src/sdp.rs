//! C09 SDP round-trips.
use sip_core::sdp as cs;
use sip_sdp as ss;
use vlib::gen::*;
use vlib::*;

type R = Result<(), Fail>;

#[derive(Clone, Debug, PartialEq)]
pub struct Net {
    pub v6: bool,
    pub addr: String,
}
impl Net {
    fn txt(&self) -> String {
        format!("IN {} {}", if self.v6 { "IP6" } else { "IP4" }, self.addr)
    }
}
#[derive(Clone, Debug)]
pub struct Media {
    pub kind: String,
    pub port: u16,
    pub count: Option<u16>,
    pub proto: String,
    pub fmts: Vec<String>,
    pub title: Option<String>,
    pub conn: Option<Net>,
    pub bw: Vec<(String, u32)>,
    pub key: Option<String>,
    pub attrs: Vec<(String, Option<String>)>,
}
#[derive(Clone, Debug)]
pub struct Sdp {
    pub user: String,
    pub sid: String,
    pub ver: String,
    pub onet: Net,
    pub name: String,
    pub info: Option<String>,
    pub uri: Option<String>,
    pub email: Vec<String>,
    pub phone: Vec<String>,
    pub conn: Option<Net>,
    pub bw: Vec<(String, u32)>,
    pub times: Vec<(u64, u64, Vec<Vec<String>>)>,
    pub zones: Vec<(u64, String)>,
    pub key: Option<String>,
    pub attrs: Vec<(String, Option<String>)>,
    pub media: Vec<Media>,
}
fn attr_line(a: &(String, Option<String>)) -> String {
    match &a.1 {
        Some(v) => format!("a={}:{v}", a.0),
        None => format!("a={}", a.0),
    }
}
impl Media {
    pub fn lines(&self) -> Vec<String> {
        let mut l = vec![format!("m={} {}{} {} {}", self.kind, self.port, self.count.map(|c| format!("/{c}")).unwrap_or_default(), self.proto, self.fmts.join(" "))];
        l.extend(self.title.iter().map(|x| format!("i={x}")));
        l.extend(self.conn.iter().map(|x| format!("c={}", x.txt())));
        l.extend(self.bw.iter().map(|(k, v)| format!("b={k}:{v}")));
        l.extend(self.key.iter().map(|x| format!("k={x}")));
        l.extend(self.attrs.iter().map(attr_line));
        l
    }
}
impl Sdp {
    /// The lines in RFC 8866 order.
    pub fn lines(&self) -> Vec<String> {
        let mut l = vec!["v=0".into(), format!("o={} {} {} {}", self.user, self.sid, self.ver, self.onet.txt()), format!("s={}", self.name)];
        l.extend(self.info.iter().map(|x| format!("i={x}")));
        l.extend(self.uri.iter().map(|x| format!("u={x}")));
        l.extend(self.email.iter().map(|x| format!("e={x}")));
        l.extend(self.phone.iter().map(|x| format!("p={x}")));
        l.extend(self.conn.iter().map(|x| format!("c={}", x.txt())));
        l.extend(self.bw.iter().map(|(k, v)| format!("b={k}:{v}")));
        for (a, b, r) in &self.times {
            l.push(format!("t={a} {b}"));
            l.extend(r.iter().map(|x| format!("r={}", x.join(" "))));
        }
        if !self.zones.is_empty() {
            l.push(format!("z={}", self.zones.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(" ")));
        }
        l.extend(self.key.iter().map(|x| format!("k={x}")));
        l.extend(self.attrs.iter().map(attr_line));
        l.extend(self.media.iter().flat_map(|m| m.lines()));
        l
    }
}
pub fn join(l: &[String], eol: &str) -> String {
    l.iter().map(|x| format!("{x}{eol}")).collect()
}
/// Text without control characters, not starting or ending with white space.
fn txt(s: &mut Src, hi: usize) -> String {
    let t = match s.weighted(&[3, 2, 2]) {
        0 => ascii_text(s, 1, hi),
        1 => text(s, 1, hi),
        _ => chars(s, "ab=: ;m/v\\\"%", 1, hi),
    };
    let t: String = t.chars().filter(|c| !c.is_control()).collect();
    let t = t.trim().to_string();
    if t.is_empty() { "-".into() } else { t }
}
fn nows(s: &mut Src, hi: usize) -> String {
    let mut t = match s.weighted(&[4, 1]) {
        0 => token(s, 1, hi),
        _ => {
            let t: String = text(s, 1, hi);
            t.chars().filter(|c| !c.is_whitespace() && !c.is_control()).collect()
        }
    };
    if t.is_empty() {
        t.push('-');
    }
    t
}
fn net(s: &mut Src, conn: bool) -> Net {
    match s.weighted(&[4, 3, 1]) {
        0 => {
            let mut addr = ipv4(s);
            if conn && s.chance(1, 5) {
                addr.push_str(*s.pick(&["/127", "/127/3", "/0"]));
            }
            Net { v6: false, addr }
        }
        1 => {
            let mut addr = ipv6(s).to_string();
            if conn && s.chance(1, 5) {
                addr.push_str("/3");
            }
            Net { v6: true, addr }
        }
        _ => Net { v6: s.coin(), addr: hostname(s) },
    }
}
fn bws(s: &mut Src) -> Vec<(String, u32)> {
    s.many(0, 3, 12, |s| {
        let k = if s.chance(1, 4) { format!("X-{}", alnum(s, 1, 5)) } else { s.pick(&["AS", "CT", "TIAS", "RS", "RR"]).to_string() };
        // plausible rates: up to 10 Gbps, in kbps or in bps (as far as 32 bits go)
        let hi = if matches!(&k[..], "TIAS" | "RS" | "RR") { u32::MAX as u64 } else { 10_000_000 };
        (k, s.num(hi) as u32)
    })
}
fn key(s: &mut Src) -> String {
    match s.below(3) {
        0 => "prompt".into(),
        1 => format!("clear:{}", txt(s, 8)),
        _ => format!("base64:{}", alnum(s, 1, 12)),
    }
}
fn typed(s: &mut Src) -> String {
    let n = s.num(u32::MAX as u64);
    format!("{n}{}", s.pick(&["", "d", "h", "m", "s"]))
}
const ATTR_SPECIAL: [&str; 9] = ["group", "mid", "rtcp", "sqn", "cdsc", "cpar", "cparmin", "cparmax", "rtpmap"];
fn attr(s: &mut Src, media: bool) -> (String, Option<String>) {
    match s.weighted(&[3, 2, 2, 4]) {
        0 => (s.pick(&["sendrecv", "sendonly", "recvonly", "inactive", "rtcp-mux", "x"]).to_string(), None),
        1 if media => ("rtpmap".into(), Some(rtpmap(s))),
        2 if media => ("fmtp".into(), Some(format!("{} {}", s.range(0, 127), txt(s, 12)))),
        _ => {
            let mut n = token(s, 1, 8);
            if ATTR_SPECIAL.contains(&&n[..]) {
                n.push('x');
            }
            let v = s.opt(3, 4, |s| {
                let t = txt(s, 14);
                // a leading blank is part of the value
                if s.chance(1, 6) { format!(" {t}") } else { t }
            });
            (n, v)
        }
    }
}
fn rtpmap(s: &mut Src) -> String {
    let mut r = format!("{} {}/{}", s.range(0, 127), token(s, 1, 6).replace('/', "-"), s.pick(&[8000, 16000, 48000, 90000, 1, 999]));
    if s.chance(1, 3) {
        r.push_str(&format!("/{}", s.range(1, 8)));
    }
    r
}
pub const PROTOS: [&str; 22] = [
    "RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "RTP/AVPF", "UDP/TLS/RTP/SAVPF", "UDP/TLS/RTP/SAVP", "TCP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVP", "TCP/RTP/AVP", "TCP/RTP/AVPF", "UDP",
    "TCP", "udp", "vat", "UDP/BFCP", "TCP/BFCP", "TCP/TLS/BFCP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP", "TCP/MSRP", "TCP/TLS/MSRP", "udptl",
];
fn media(s: &mut Src) -> Media {
    let proto = if s.chance(1, 8) { format!("{}/{}", token(s, 1, 4), token(s, 1, 4)) } else { s.pick(&PROTOS).to_string() };
    let rtp = proto.contains("RTP/");
    Media {
        kind: match s.weighted(&[5, 1]) {
            0 => s.pick(&["audio", "video", "text", "application", "message", "image"]).to_string(),
            _ => token(s, 1, 6),
        },
        port: port(s),
        count: s.opt(1, 5, |s| if s.coin() { s.range(1, 4) as u16 } else { s.range(1, 65535) as u16 }),
        fmts: s.many(1, 5, 30, |s| if rtp { s.range(0, 127).to_string() } else { nows(s, 6).chars().take(4).collect() }),
        proto,
        title: s.opt(1, 4, |s| txt(s, 12)),
        conn: s.opt(1, 3, |s| net(s, true)),
        bw: bws(s),
        key: s.opt(1, 6, key),
        attrs: s.many(0, 6, 40, |s| attr(s, true)),
    }
}
/// A well-formed description (of what both libraries can represent).
pub fn sdp(s: &mut Src) -> Sdp {
    Sdp {
        user: nows(s, 8),
        sid: digits(s, 1, 12),
        ver: digits(s, 1, 12),
        onet: net(s, false),
        name: txt(s, 14),
        info: s.opt(1, 4, |s| txt(s, 14)),
        uri: s.opt(1, 4, |s| format!("http://{}/{}", hostname(s), alnum(s, 0, 5))),
        email: s.vec(0, 1, |s| txt(s, 10)),
        phone: s.vec(0, 1, |s| txt(s, 8)),
        conn: s.opt(2, 3, |s| net(s, true)),
        bw: bws(s),
        times: {
            // at most ten r= lines in all
            let mut room: usize = 10;
            s.many(1, 3, 10, |s| {
                let r = s.many(0, 2.min(room), room, |s| s.many(3, 5, 16, typed));
                room -= r.len();
                (s.num(u64::MAX), s.num(u64::MAX), r)
            })
        },
        zones: s.opt(1, 4, |s| s.many(1, 3, 10, |s| (s.num(u32::MAX as u64), format!("{}{}", s.pick(&["", "-"]), typed(s))))).unwrap_or_default(),
        key: s.opt(1, 6, key),
        attrs: s.many(0, 5, 40, |s| attr(s, false)),
        media: s.many(0, 4, 14, media),
    }
}
fn eol(s: &mut Src) -> &'static str {
    if s.chance(1, 4) { "\n" } else { "\r\n" }
}

fn ss_net(n: &Net, t: ss::AddrType, a: &str, what: &str) -> R {
    ensure_eq!(t == ss::AddrType::IPv6, n.v6, format!("sip-sdp:{what}-type"), "{n:?}");
    ensure_eq!(a, n.addr, format!("sip-sdp:{what}-address"), "{n:?}");
    Ok(())
}
fn ss_attrs(a: &[ss::Attribute], want: &[(String, Option<String>)], what: &str) -> R {
    let got: Vec<(String, Option<String>)> = a
        .iter()
        .map(|x| match x {
            ss::Attribute::Property(n) => (n.to_string(), None),
            ss::Attribute::Value { name, value } => (name.to_string(), Some(value.to_string())),
        })
        .collect();
    ensure_eq!(got, want.to_vec(), format!("sip-sdp:{what}-attributes"), "");
    Ok(())
}
fn ss_bw(a: &[ss::Bandwidth], want: &[(String, u32)], what: &str) -> R {
    let got: Vec<(String, u32)> = a.iter().map(|b| (b.bw_type.to_string(), b.bandwidth)).collect();
    ensure_eq!(got, want.to_vec(), format!("sip-sdp:{what}-bandwidth"), "");
    Ok(())
}
fn ss_media(m: &ss::MediaDescription, w: &Media) -> R {
    let proto = match &w.proto[..] {
        "RTP/AVP" => ss::Protocol::RtpAvp,
        "RTP/SAVP" => ss::Protocol::RtpSavp,
        "RTP/SAVPF" => ss::Protocol::RtpSavpf,
        "UDP/TLS/RTP/SAVPF" => ss::Protocol::UdpTlsRtpSavpf,
        "TCP/TLS/RTP/SAVPF" => ss::Protocol::TcpTlsRtpSavpf,
        "UDP" => ss::Protocol::Udp,
        "TCP" => ss::Protocol::Tcp,
        o => {
            ensure_eq!(m.protocol.to_string(), o, "sip-sdp:protocol", "");
            m.protocol.clone()
        }
    };
    ensure_eq!(m.protocol, proto, "sip-sdp:protocol", "{}", w.proto);
    let kind = match &w.kind[..] {
        "audio" => ss::MediaType::Audio,
        "video" => ss::MediaType::Video,
        "text" => ss::MediaType::Text,
        "application" => ss::MediaType::Application,
        "message" => ss::MediaType::Message,
        o => ss::MediaType::Other(o.into()),
    };
    ensure_eq!(m.media_type, kind, "sip-sdp:media-type", "");
    ensure_eq!((m.port, m.num_ports), (w.port, w.count), "sip-sdp:port", "");
    ensure_eq!(m.formats.iter().map(|f| f.to_string()).collect::<Vec<_>>(), w.fmts, "sip-sdp:formats", "");
    ensure_eq!(m.title.as_deref(), w.title.as_deref(), "sip-sdp:title", "");
    ensure_eq!(m.encryption_key.as_deref(), w.key.as_deref(), "sip-sdp:media-key", "");
    match (&m.connection, &w.conn) {
        (None, None) => {}
        (Some(c), Some(n)) => ss_net(n, c.addr_type, &c.connection_address, "media-connection")?,
        x => return fail("sip-sdp:media-connection", format!("{x:?}")),
    }
    ss_bw(&m.bandwidth, &w.bw, "media")?;
    ss_attrs(&m.attributes, &w.attrs, "media")?;
    // the payload map is what the rtpmap lines say (the last line of a payload type wins)
    let mut want = std::collections::BTreeMap::new();
    for (n, v) in &w.attrs {
        if n == "rtpmap" {
            let (pt, r) = v.as_ref().unwrap().split_once(' ').unwrap();
            let p: Vec<&str> = r.split('/').collect();
            want.insert(pt.parse::<u8>().unwrap(), (p[0].to_string(), p[1].parse::<u32>().unwrap(), p.get(2).map(|x| x.to_string())));
        }
    }
    let got: std::collections::BTreeMap<_, _> =
        m.rtpmaps.values().map(|r| (r.payload_type, (r.encoding_name.to_string(), r.clock_rate, r.encoding_params.as_ref().map(|x| x.to_string())))).collect();
    ensure_eq!(got, want, "sip-sdp:rtpmaps", "");
    ensure!(m.rtpmaps.iter().all(|(k, v)| *k == v.payload_type), "sip-sdp:rtpmap-key", "{:?}", m.rtpmaps);
    Ok(())
}
/// sip-sdp: text to structure to text.
fn ss_text(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = sdp(s);
    let t = join(&w.lines(), eol(s));
    ctx.desc(|| t.clone());
    ctx.nontrivial(&t);
    let d = match ss::SessionDescription::parse(&t) {
        Ok(d) => d,
        Err(e) => return fail("sip-sdp:refused", format!("{e}\n{t}")),
    };
    let e = |f: Fail| Fail { sig: f.sig, msg: format!("{}\n{t}", f.msg) };
    (|| {
        ensure_eq!((&d.origin.username[..], &d.origin.session_id[..], &d.origin.session_version[..]), (&w.user[..], &w.sid[..], &w.ver[..]), "sip-sdp:origin", "");
        ss_net(&w.onet, d.origin.addr_type, &d.origin.unicast_address, "origin")?;
        ensure_eq!(d.session_name, w.name, "sip-sdp:name", "");
        ensure_eq!(d.session_info.as_deref(), w.info.as_deref(), "sip-sdp:info", "");
        ensure_eq!(d.uri.as_deref(), w.uri.as_deref(), "sip-sdp:uri", "");
        ensure_eq!(d.email.as_deref(), w.email.first().map(|x| &x[..]), "sip-sdp:email", "");
        ensure_eq!(d.phone.as_deref(), w.phone.first().map(|x| &x[..]), "sip-sdp:phone", "");
        match (&d.connection, &w.conn) {
            (None, None) => {}
            (Some(c), Some(n)) => ss_net(n, c.addr_type, &c.connection_address, "connection")?,
            x => return fail("sip-sdp:connection", format!("{x:?}")),
        }
        ss_bw(&d.bandwidth, &w.bw, "session")?;
        let times: Vec<(u64, u64, Vec<Vec<String>>)> = d
            .times
            .iter()
            .map(|t| {
                let r = t.repeats.iter().map(|r| [&r.repeat_interval, &r.active_duration].into_iter().chain(&r.offsets).map(|x| x.to_string()).collect()).collect();
                (t.start_time, t.stop_time, r)
            })
            .collect();
        ensure_eq!(times, w.times, "sip-sdp:times", "");
        let zones: Vec<(String, String)> = d.time_zones.iter().map(|z| (z.adjustment_time.to_string(), z.offset.to_string())).collect();
        ensure_eq!(zones, w.zones.iter().map(|(a, b)| (a.to_string(), b.clone())).collect::<Vec<_>>(), "sip-sdp:zones", "");
        ensure_eq!(d.encryption_key.as_deref(), w.key.as_deref(), "sip-sdp:key", "");
        ss_attrs(&d.attributes, &w.attrs, "session")?;
        ensure_eq!(d.media.len(), w.media.len(), "sip-sdp:sections", "");
        for (m, x) in d.media.iter().zip(&w.media) {
            ss_media(m, x)?;
        }
        let out = d.serialize();
        ensure_eq!(out, join(&w.lines(), "\r\n"), "sip-sdp:serialize", "");
        ensure_eq!(d.to_string(), out, "sip-sdp:display", "");
        ensure!(ss::SessionDescription::parse(&out).as_ref() == Ok(&d), "sip-sdp:reparse", "{out}");
        Ok(())
    })()
    .map_err(e)
}
/// sip-core's SdpSession: text to structure to text.
fn cs_text(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = sdp(s);
    // this one keeps several e= and p= lines, and needs a connection for every section
    w.email = s.many(0, 3, 8, |s| txt(s, 10));
    w.phone = s.many(0, 3, 8, |s| txt(s, 8));
    if w.conn.is_none() && (w.media.iter().any(|m| m.conn.is_none())) {
        w.conn = Some(net(s, true));
    }
    // attributes with a model of their own
    let mids: Vec<Option<String>> = w.media.iter().map(|_| s.opt(1, 3, |s| token(s, 1, 5))).collect();
    let rtcp: Vec<Option<String>> = w.media.iter().map(|_| s.opt(1, 4, |s| format!("{}{}", port(s), s.opt(1, 2, |s| format!(" {}", net(s, false).txt())).unwrap_or_default()))).collect();
    let groups: Vec<String> = s.many(0, 2, 10, |s| {
        let sem = s.pick(&["LS", "FID", "SRF", "BUNDLE", "ANAT", "DUP"]).to_string();
        format!("{sem} {}", s.many(1, 3, 12, |s| token(s, 1, 5)).join(" "))
    });
    let caps = |s: &mut Src| -> Vec<(String, Option<String>)> {
        if !s.chance(1, 5) {
            return vec![];
        }
        let mut v = vec![("sqn".to_string(), Some(s.below(256).to_string()))];
        v.extend(s.many(0, 2, 10, |s| ("cdsc".to_string(), Some(format!("{} {} {} {}", s.range(1, 255), token(s, 1, 5), s.pick(&PROTOS), s.vec(1, 3, |s| token(s, 1, 4)).join(" "))))));
        v.extend(s.many(0, 2, 10, |s| (s.pick(&["cpar", "cparmin", "cparmax"]).to_string(), Some(format!("a={}", txt(s, 6))))));
        v
    };
    let scap = caps(s);
    let mcap: Vec<_> = w.media.iter().map(|_| caps(s)).collect();
    // wire form: the special attributes anywhere among the ordinary ones (capability lines in order)
    let spread = |s: &mut Src, ord: &[(String, Option<String>)], extra: &[(String, Option<String>)]| {
        let mut v: Vec<(String, Option<String>)> = ord.to_vec();
        let mut at = 0;
        for e in extra {
            at = s.urange(at, v.len());
            v.insert(at, e.clone());
            at += 1;
        }
        v
    };
    let mut wire = w.clone();
    let g: Vec<_> = groups.iter().map(|g| ("group".to_string(), Some(g.clone()))).collect();
    wire.attrs = spread(s, &w.attrs, &g);
    wire.attrs = spread(s, &wire.attrs, &scap);
    for (i, m) in wire.media.iter_mut().enumerate() {
        let mut x = m.attrs.clone();
        if let Some(v) = &mids[i] {
            x = spread(s, &x, &[("mid".into(), Some(v.clone()))]);
        }
        if let Some(v) = &rtcp[i] {
            x = spread(s, &x, &[("rtcp".into(), Some(v.clone()))]);
        }
        m.attrs = spread(s, &x, &mcap[i]);
    }
    let t = join(&wire.lines(), eol(s));
    ctx.desc(|| t.clone());
    ctx.nontrivial(&t);
    let d = match cs::SdpSession::parse(&t) {
        Ok(d) => d,
        Err(e) => return fail("sip-core:refused", format!("{e}\n{t}")),
    };
    (|| {
        ensure_eq!(d.version(), 0, "sip-core:version", "");
        let o = d.origin();
        ensure_eq!(
            [o.username(), o.sess_id(), o.sess_version(), o.nettype(), o.addrtype(), o.unicast_address()],
            [&w.user[..], &w.sid, &w.ver, "IN", if w.onet.v6 { "IP6" } else { "IP4" }, &w.onet.addr],
            "sip-core:origin",
            ""
        );
        ensure_eq!(d.session_name(), w.name, "sip-core:name", "");
        ensure_eq!(d.session_info(), w.info.as_deref(), "sip-core:info", "");
        ensure_eq!(d.uri(), w.uri.as_deref(), "sip-core:uri", "");
        ensure_eq!(d.emails().to_vec(), w.email, "sip-core:emails", "");
        ensure_eq!(d.phones().to_vec(), w.phone, "sip-core:phones", "");
        let conn = |n: &Option<Net>| n.as_ref().map(|n| format!("c={}", n.txt()));
        ensure_eq!(d.connection().map(|c| c.to_string()), conn(&w.conn), "sip-core:connection", "");
        let bw = |b: &[cs::Bandwidth]| b.iter().map(|b| b.to_string()).collect::<Vec<_>>();
        let wbw = |b: &[(String, u32)]| b.iter().map(|(k, v)| format!("b={k}:{v}")).collect::<Vec<_>>();
        ensure_eq!(bw(d.bandwidth()), wbw(&w.bw), "sip-core:bandwidth", "");
        ensure_eq!(d.timing().iter().map(|t| t.to_string()).collect::<Vec<_>>(), w.times.iter().map(|t| format!("t={} {}", t.0, t.1)).collect::<Vec<_>>(), "sip-core:timing", "");
        ensure_eq!(
            d.repeat_times().iter().map(|t| t.to_string()).collect::<Vec<_>>(),
            w.times.iter().flat_map(|t| t.2.iter().map(|r| format!("r={}", r.join(" ")))).collect::<Vec<_>>(),
            "sip-core:repeats",
            ""
        );
        ensure_eq!(d.encryption_key().map(|k| k.to_string()), w.key.as_ref().map(|k| format!("k={k}")), "sip-core:key", "");
        let at = |a: &[cs::Attribute]| a.iter().map(|a| a.to_string()).collect::<Vec<_>>();
        let wat = |a: &[(String, Option<String>)]| a.iter().map(attr_line).collect::<Vec<_>>();
        ensure_eq!(at(d.attributes()), wat(&w.attrs), "sip-core:attributes", "");
        ensure_eq!(d.groups().iter().map(|g| g.to_string()).collect::<Vec<_>>(), groups, "sip-core:groups", "");
        ensure_eq!(d.capability_set().is_some(), !scap.is_empty(), "sip-core:capabilities", "");
        ensure_eq!(d.media().len(), w.media.len(), "sip-core:sections", "");
        for (i, (m, x)) in d.media().iter().zip(&w.media).enumerate() {
            ensure_eq!((m.media(), m.port(), m.port_count(), m.proto()), (&x.kind[..], x.port, x.count, &x.proto[..]), "sip-core:media", "");
            ensure_eq!(m.fmt().to_vec(), x.fmts, "sip-core:formats", "");
            ensure_eq!(m.title(), x.title.as_deref(), "sip-core:title", "");
            ensure_eq!(m.connection().map(|c| c.to_string()), conn(&x.conn), "sip-core:media-connection", "");
            ensure_eq!(bw(m.bandwidth()), wbw(&x.bw), "sip-core:media-bandwidth", "");
            ensure_eq!(m.encryption_key().map(|k| k.to_string()), x.key.as_ref().map(|k| format!("k={k}")), "sip-core:media-key", "");
            ensure_eq!(at(m.attributes()), wat(&x.attrs), "sip-core:media-attributes", "");
            ensure_eq!(m.mid(), mids[i].as_deref(), "sip-core:mid", "");
            ensure_eq!(m.rtcp().map(|r| r.to_string()), rtcp[i], "sip-core:rtcp", "");
            ensure_eq!(m.capability_set().is_some(), !mcap[i].is_empty(), "sip-core:media-capabilities", "");
            // typed views of the attributes
            let maps: Vec<String> = d.find_rtpmaps(i).iter().map(|r| r.to_value()).collect();
            let vals = |k: &str| x.attrs.iter().filter(|a| a.0 == k).filter_map(|a| a.1.clone()).collect::<Vec<_>>();
            ensure_eq!(maps, vals("rtpmap"), "sip-core:rtpmaps", "");
            ensure_eq!(d.find_fmtps(i).iter().map(|r| r.to_value()).collect::<Vec<_>>(), vals("fmtp"), "sip-core:fmtps", "");
            let dir = x.attrs.iter().find_map(|a| a.1.is_none().then(|| cs::Direction::parse(&a.0)).flatten());
            ensure_eq!(d.find_direction(Some(i)), dir, "sip-core:direction", "");
        }
        // printed: CRLF lines in RFC order, every line there; special attributes may move among the
        // attributes of their level, nothing else may
        let out = d.to_string();
        ensure!(out.ends_with("\r\n") && !out.replace("\r\n", "").contains(['\r', '\n']), "sip-core:crlf", "{out:?}");
        let got: Vec<String> = out.split_terminator("\r\n").map(|x| x.to_string()).collect();
        let special = |l: &str| l.strip_prefix("a=").is_some_and(|x| ["group:", "mid:", "rtcp:", "sqn:", "cdsc:", "cpar:", "cparmin:", "cparmax:"].iter().any(|p| x.starts_with(p)));
        let plain: Vec<&String> = got.iter().filter(|l| !special(l)).collect();
        ensure_eq!(plain, w.lines().iter().collect::<Vec<_>>(), "sip-core:print", "");
        let sects = |l: &[String]| -> Vec<(Vec<String>, Vec<String>)> {
            let mut r: Vec<(Vec<String>, Vec<String>)> = vec![Default::default()];
            for x in l {
                if x.starts_with("m=") {
                    r.push(Default::default());
                }
                if special(x) {
                    let cap = x.starts_with("a=sqn") || x.starts_with("a=c");
                    let e = r.last_mut().unwrap();
                    if cap { e.0.push(x.clone()) } else { e.1.push(x.clone()) }
                }
            }
            r.iter_mut().for_each(|e| {
                // descriptions before parameters, otherwise in order
                e.0.sort_by_key(|x| (!x.starts_with("a=sqn"), !x.starts_with("a=cdsc")));
                e.1.sort_by_key(|x| if x.starts_with("a=group") { 0 } else if x.starts_with("a=mid") { 1 } else { 2 });
            });
            r
        };
        ensure_eq!(sects(&got), sects(&wire.lines()), "sip-core:print-special", "");
        match cs::SdpSession::parse(&out) {
            Ok(r) => ensure_eq!(r, d, "sip-core:reparse", "{out}"),
            Err(e) => return fail("sip-core:reparse", format!("{e}\n{out}")),
        }
        Ok(())
    })()
    .map_err(|f: Fail| Fail { sig: f.sig, msg: format!("{}\n{t}", f.msg) })
}
/// Descriptions that must be refused.
fn refuse(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = sdp(s);
    w.conn = Some(net(s, false));
    if w.media.is_empty() {
        w.media.push(media(s));
    }
    let mut l = w.lines();
    let at = |l: &[String], p: &str| l.iter().position(|x| x.starts_with(p)).unwrap();
    let m = at(&l, "m=");
    let big = *s.pick(&["65536", "70000", "99999999999999999999", "-1", "x", "0x9", ""]);
    // the third: only for sip-sdp, which knows the RTP profiles' payload types
    let (what, both) = match s.below(18) {
        0 => { let p = *s.pick(&["v=", "o=", "s="]); l.remove(at(&l, p)); ("a missing mandatory line", true) }
        1 => { l.retain(|x| !x.starts_with("t=") && !x.starts_with("r=")); ("no t=", true) }
        2 => { l[0] = format!("v={}", s.pick(&["1", "2", "256", "-1", "", "x", "0.1"])); ("version", true) }
        3 => { let i = at(&l, "o="); let n = s.urange(0, 5); let p: Vec<&str> = l[i].split(' ').collect(); l[i] = p[..n.max(1)].join(" "); ("a short origin", true) }
        4 => { let x = format!("m=audio {big} RTP/AVP 0"); l[m] = x; ("port", true) }
        5 => { l[m] = format!("m=audio 9/{big} RTP/AVP 0"); ("port count", true) }
        6 => { l[m] = s.pick(&["m=audio 9 RTP/AVP", "m=audio 9", "m=audio", "m=", "m=audio RTP/AVP 0", "m=audio 9/2/3 RTP/AVP 0"]).to_string(); ("media line", true) }
        7 => { let i = at(&l, "t="); l[i] = format!("t={}", s.pick(&["0", "", "x 0", "0 x", "-1 0", "0 18446744073709551616"])); ("timing", true) }
        8 => { l.insert(m, format!("b=AS:{}", s.pick(&["", "x", "-1", "99999999999999999999999", "1.5"]))); ("bandwidth", true) }
        9 => { l.insert(m, s.pick(&["b=AS", "b=", "b=64"]).to_string()); ("bandwidth", true) }
        10 => { let i = at(&l, "c="); l[i] = s.pick(&["c=", "c=IN", "c=IN IP4", "c=192.0.2.1"]).to_string(); ("connection", true) }
        11 => { let i = at(&l, "t="); l.insert(i, "r=7d 1h 0".into()); ("r= without t=", true) }
        12 => { let i = at(&l, "t="); l.insert(i + 1, s.pick(&["r=7d", "r="]).to_string()); ("r= too short", true) }
        13 => { l.insert(m, s.pick(&["z=1", "z=1 -1h 2"]).to_string()); ("z= in pieces", true) }
        14 => { l.insert(m, s.pick(&["nonsense", "av=1", "="]).to_string()); ("not a field", true) }
        15 => { l[m] = format!("m=audio 9 {} 0 {}", s.pick(&["RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF"]), s.pick(&["128", "200", "256", "99999", "x", "-1", "1.5"])); ("payload type", false) }
        16 => {
            // a line end missing: the next field runs into this one
            let f = *s.pick(&["v=0", "t=0 0", "b=AS:12"]);
            let glued = format!("{f}{}", s.pick(&["s=glued", "a=x", "i=y", "t=0 0"]));
            if f == "v=0" { l[0] = glued } else if f == "t=0 0" { let i = at(&l, "t="); l[i] = glued } else { l.insert(m, glued) }
            ("two fields on one line", true)
        }
        _ => {
            // a field broken over two lines
            let i = at(&l, "o=");
            let sp: Vec<usize> = l[i].match_indices(' ').map(|x| x.0).collect();
            let k = sp[s.idx(sp.len())];
            let x = l[i].clone();
            let (a, b) = x.split_at(k);
            let mid = *s.pick(&["", " ", "x"]);
            l[i] = format!("{a}\r\n{mid}{}", if mid == " " { b.trim_start() } else { b });
            ("origin over two lines", true)
        }
    };
    let t = join(&l, eol(s));
    ctx.desc(|| format!("{what}:\n{t}"));
    ctx.label(what);
    ctx.nontrivial(&t);
    if let Ok(d) = ss::SessionDescription::parse(&t) {
        return fail(format!("sip-sdp:accepts {what}"), format!("{t}\ngave {d:?}"));
    }
    if both {
        if let Ok(d) = cs::SdpSession::parse(&t) {
            return fail(format!("sip-core:accepts {what}"), format!("{t}\ngave {d:?}"));
        }
    }
    Ok(())
}
/// Descriptions made with the builder survive; typed setters do what they say and nothing else.
fn built(s: &mut Src, ctx: &mut Ctx) -> R {
    let addr = net(s, false).addr;
    let w = (nows(s, 6), digits(s, 1, 9), txt(s, 12));
    let mut b = ss::SessionDescription::builder().origin(&w.0, &w.1, &addr).and_then(|b| b.session_name(&w.2)).expect("valid fields");
    let mut log = vec![format!("origin {} {} {addr}; name {}", w.0, w.1, w.2)];
    if s.coin() {
        b = b.connection(&addr).expect("address");
    }
    let mut sattrs: Vec<(String, Option<String>)> = vec![];
    for _ in 0..s.below(3) {
        let (n, v) = attr(s, false);
        b = b.attribute(&n, v.as_deref()).expect("attribute");
        sattrs.push((n, v));
    }
    let times: Vec<(u64, u64)> = s.vec(0, 3, |s| (s.num(u64::MAX), s.num(u64::MAX)));
    for (i, t) in times.iter().enumerate() {
        b = if i == 0 { b.time(t.0, t.1) } else { b.add_time(t.0, t.1).expect("time") };
    }
    let times = if times.is_empty() { vec![(0, 0)] } else { times };
    let n = s.below(3);
    let mut secs: Vec<(bool, u16, Vec<String>, Vec<(String, Option<String>)>)> = vec![];
    for _ in 0..n {
        let (video, port) = (s.coin(), port(s));
        let mut m = if video { ss::MediaDescription::video(port) } else { ss::MediaDescription::audio(port) };
        let mut fmts = vec![];
        let mut at: Vec<(String, Option<String>)> = vec![];
        let drop = |at: &mut Vec<(String, Option<String>)>, k: &str, pre: Option<String>| {
            at.retain(|(n, v)| !(n == k && v.is_some() && pre.as_ref().map_or(true, |p| v.as_ref().unwrap().split_whitespace().next() == Some(p))))
        };
        for _ in 0..s.range(1, 10) {
            let pt = *s.pick(&[0u8, 8, 96, 97, 101, 127, 9]);
            let enc = token(s, 1, 5).replace('/', "-");
            let rate = *s.pick(&[8000u32, 48000, 90000, 1000]);
            let prm = s.opt(1, 3, |s| s.range(1, 4).to_string());
            let rv = format!("{pt} {enc}/{rate}{}", prm.as_ref().map(|p| format!("/{p}")).unwrap_or_default());
            let op = s.below(13);
            log.push(format!("op {op} pt {pt} {rv}"));
            match op {
                0 | 1 => {
                    m = m.add_format(pt).expect("format");
                    fmts.push(pt.to_string());
                }
                2 => {
                    m = m.add_rtpmap(pt, &enc, rate, prm.as_deref()).expect("rtpmap");
                    drop(&mut at, "rtpmap", Some(pt.to_string()));
                    at.push(("rtpmap".into(), Some(rv)));
                }
                3 => {
                    m.set_rtpmap(pt, &enc, rate, prm.as_deref()).expect("rtpmap");
                    drop(&mut at, "rtpmap", Some(pt.to_string()));
                    at.push(("rtpmap".into(), Some(rv)));
                }
                4 => {
                    let had = at.iter().any(|a| a.0 == "rtpmap" && a.1.as_ref().is_some_and(|v| v.split(' ').next() == Some(&pt.to_string())));
                    ensure_eq!(m.remove_rtpmap(pt), had, "builder:remove-rtpmap", "{log:?}");
                    drop(&mut at, "rtpmap", Some(pt.to_string()));
                }
                5 => {
                    let p = txt(s, 8);
                    m.set_fmtp(pt, &p);
                    drop(&mut at, "fmtp", Some(pt.to_string()));
                    at.push(("fmtp".into(), Some(format!("{pt} {p}"))));
                }
                6 => {
                    let d = *s.pick(&[ss::Direction::SendRecv, ss::Direction::SendOnly, ss::Direction::RecvOnly, ss::Direction::Inactive]);
                    let isdir = |a: &(String, Option<String>)| a.1.is_none() && ["sendrecv", "sendonly", "recvonly", "inactive"].contains(&&a.0[..]);
                    at.retain(|a| !isdir(a));
                    if s.chance(1, 4) {
                        m.clear_direction();
                        ensure_eq!(m.direction(), None, "builder:direction", "");
                    } else {
                        m.set_direction(d);
                        at.push((d.as_token().into(), None));
                        ensure_eq!(m.direction(), Some(d), "builder:direction", "");
                    }
                }
                7 => {
                    let v = s.num(u32::MAX as u64) as u32;
                    let (k, clear) = (if s.coin() { "ptime" } else { "maxptime" }, s.chance(1, 4));
                    drop(&mut at, k, None);
                    match (k, clear) {
                        ("ptime", true) => m.clear_ptime(),
                        ("ptime", _) => m.set_ptime(v),
                        (_, true) => m.clear_maxptime(),
                        _ => m.set_maxptime(v),
                    }
                    if !clear {
                        at.push((k.into(), Some(v.to_string())));
                    }
                    ensure_eq!(if k == "ptime" { m.ptime() } else { m.maxptime() }, (!clear).then_some(v), "builder:ptime", "");
                }
                8 => {
                    let v = token(s, 1, 4);
                    m.set_mid(&v);
                    drop(&mut at, "mid", None);
                    at.push(("mid".into(), Some(v.clone())));
                    ensure_eq!(m.mid(), Some(&v[..]), "builder:mid", "");
                }
                9 => {
                    let v = *s.pick(&[ss::Setup::Active, ss::Setup::Passive, ss::Setup::ActPass, ss::Setup::HoldConn]);
                    m.set_setup(v);
                    drop(&mut at, "setup", None);
                    at.push(("setup".into(), Some(v.as_token().into())));
                    ensure_eq!(m.setup(), Some(v), "builder:setup", "");
                }
                10 => {
                    let c = candidate(s);
                    m.add_candidate(&c);
                    at.push(("candidate".into(), Some(c.to_attr_value())));
                    ensure_eq!(m.candidates().last(), Some(c), "builder:candidate", "");
                }
                _ => {
                    // what the setters look after may also have been put there by hand, even twice
                    let (n, v) = if op == 12 {
                        let (n, v) = *s.pick(&[("ptime", "20"), ("ptime", "40"), ("maxptime", "60"), ("mid", "a"), ("mid", "b"), ("setup", "active"), ("setup", "passive"), ("fmtp", "97 q=1"), ("fmtp", "97 r=2"), ("fmtp", "101 0-15"), ("sendonly", ""), ("inactive", "")]);
                        (n.to_string(), (!v.is_empty()).then(|| v.to_string()))
                    } else {
                        attr(s, false)
                    };
                    m = match &v {
                        Some(v) => m.add_attribute(&n, v),
                        None => m.add_property(&n),
                    }
                    .expect("attribute");
                    at.push((n, v));
                }
            }
        }
        if fmts.is_empty() {
            m = m.add_format(0).expect("format");
            fmts.push("0".into());
        }
        let mc = m.clone();
        let mut again = m.clone();
        again.rebuild_rtpmaps();
        ensure_eq!(again, mc, "builder:rebuild-rtpmaps", "{log:?}");
        b = b.media(m).expect("section");
        secs.push((video, port, fmts, at));
    }
    ctx.desc(|| format!("{log:#?}"));
    ctx.nontrivial(format!("{log:?}"));
    let mut d = b.build();
    if s.chance(1, 3) {
        let dir = s.opt(2, 3, |s| *s.pick(&[ss::Direction::SendRecv, ss::Direction::SendOnly, ss::Direction::RecvOnly, ss::Direction::Inactive]));
        sattrs.retain(|a| a.1.is_some() || !["sendrecv", "sendonly", "recvonly", "inactive"].contains(&&a.0[..]));
        match dir {
            Some(x) => {
                d.set_direction(x);
                sattrs.push((x.as_token().into(), None));
            }
            None => d.clear_direction(),
        }
    }
    let out = d.serialize();
    let e = |f: Fail| Fail { sig: f.sig, msg: format!("{}\n{log:#?}\n{out}", f.msg) };
    (|| {
        let r = match ss::SessionDescription::parse(&out) {
            Ok(r) => r,
            Err(e) => return fail("builder:refused", format!("{e}")),
        };
        ensure_eq!(r, d, "builder:round-trip", "");
        ensure_eq!((&r.origin.username[..], &r.origin.session_id[..], &r.origin.unicast_address[..], &r.session_name[..]), (&w.0[..], &w.1[..], &addr[..], &w.2[..]), "builder:fields", "");
        ss_attrs(&r.attributes, &sattrs, "session")?;
        ensure_eq!(r.times.iter().map(|t| (t.start_time, t.stop_time)).collect::<Vec<_>>(), times, "builder:times", "");
        ensure_eq!(r.media.len(), secs.len(), "builder:sections", "");
        for (m, (video, port, fmts, at)) in r.media.iter().zip(&secs) {
            ensure_eq!((m.media_type == ss::MediaType::Video, m.port), (*video, *port), "builder:section", "");
            ensure_eq!(m.formats.iter().map(|x| x.to_string()).collect::<Vec<_>>(), fmts.clone(), "builder:formats", "");
            ss_attrs(&m.attributes, at, "media")?;
        }
        Ok(())
    })()
    .map_err(e)
}
fn candidate(s: &mut Src) -> ss::Candidate {
    ss::Candidate {
        foundation: alnum(s, 1, 6).into(),
        component: s.range(1, 256) as u32,
        transport: match s.below(3) {
            0 => ss::CandidateTransport::Udp,
            1 => ss::CandidateTransport::Tcp,
            _ => ss::CandidateTransport::Other(format!("x{}", token(s, 1, 4)).into()),
        },
        priority: s.num(u32::MAX as u64) as u32,
        connection_address: net(s, false).addr.into(),
        port: port(s),
        typ: match s.below(5) {
            0 => ss::CandidateType::Host,
            1 => ss::CandidateType::ServerReflexive,
            2 => ss::CandidateType::PeerReflexive,
            3 => ss::CandidateType::Relay,
            _ => ss::CandidateType::Other(format!("x{}", token(s, 1, 4)).into()),
        },
        raddr: s.opt(1, 2, |s| net(s, false).addr.into()),
        rport: s.opt(1, 2, |s| if s.chance(1, 6) { 0 } else { port(s) }),
        extensions: s.many(0, 3, 10, |s| (format!("x{}", token(s, 1, 4)).into(), nows(s, 5).into())),
    }
}
/// Attribute values with a grammar of their own, read by the typed accessors.
fn typed_attrs(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut at: Vec<(String, Option<String>)> = vec![];
    let c: Vec<ss::Candidate> = s.many(0, 3, 20, candidate);
    for x in &c {
        // rendered here, not by the library
        let tr = match &x.transport {
            ss::CandidateTransport::Udp => s.pick(&["udp", "UDP"]).to_string(),
            ss::CandidateTransport::Tcp => s.pick(&["tcp", "TCP"]).to_string(),
            ss::CandidateTransport::Other(o) => o.to_string(),
        };
        let ty = match &x.typ {
            ss::CandidateType::Host => "host",
            ss::CandidateType::ServerReflexive => "srflx",
            ss::CandidateType::PeerReflexive => "prflx",
            ss::CandidateType::Relay => "relay",
            ss::CandidateType::Other(o) => o,
        };
        let mut v = format!("{} {} {tr} {} {} {} typ {ty}", x.foundation, x.component, x.priority, x.connection_address, x.port);
        x.raddr.iter().for_each(|r| v.push_str(&format!(" raddr {r}")));
        x.rport.iter().for_each(|r| v.push_str(&format!(" rport {r}")));
        x.extensions.iter().for_each(|(k, y)| v.push_str(&format!(" {k} {y}")));
        at.push(("candidate".into(), Some(v)));
    }
    let fp: Vec<(String, String)> = s.many(0, 2, 8, |s| (s.pick(&["sha-1", "sha-256", "sha-512"]).to_string(), s.vec(1, 5, |s| format!("{:02X}", s.below(256))).join(":")));
    at.extend(fp.iter().map(|(a, b)| ("fingerprint".to_string(), Some(format!("{a} {b}")))));
    let ssrc: Vec<(u32, String, Option<String>)> = s.many(0, 3, 20, |s| (s.num(u32::MAX as u64) as u32, token(s, 1, 5), s.opt(3, 4, |s| txt(s, 8))));
    at.extend(ssrc.iter().map(|(i, a, v)| ("ssrc".to_string(), Some(format!("{i} {a}{}", v.as_ref().map(|v| format!(":{v}")).unwrap_or_default())))));
    let fmtp: Vec<(u8, String)> = s.many(0, 3, 20, |s| (s.range(0, 127) as u8, txt(s, 10)));
    at.extend(fmtp.iter().map(|(i, a)| ("fmtp".to_string(), Some(format!("{i} {a}")))));
    let maps: Vec<String> = s.many(0, 3, 20, rtpmap);
    at.extend(maps.iter().map(|m| ("rtpmap".to_string(), Some(m.clone()))));
    // statuses of preconditions (RFC 3312), for the other implementation
    let qos = |s: &mut Src| s.pick(&["qos", "qos", "sec"]).to_string();
    let st = |s: &mut Src| s.pick(&["e2e", "local", "remote"]).to_string();
    let dr = |s: &mut Src| s.pick(&["send", "recv", "sendrecv", "none"]).to_string();
    let curr: Vec<[String; 3]> = s.many(0, 3, 12, |s| [qos(s), st(s), dr(s)]);
    let des: Vec<[String; 4]> = s.many(0, 3, 12, |s| [qos(s), s.pick(&["mandatory", "mandatory", "optional", "none", "failure", "unknown"]).to_string(), st(s), dr(s)]);
    let conf: Vec<[String; 3]> = s.many(0, 2, 12, |s| [qos(s), st(s), dr(s)]);
    at.extend(curr.iter().map(|x| ("curr".to_string(), Some(x.join(" ")))));
    at.extend(des.iter().map(|x| ("des".to_string(), Some(x.join(" ")))));
    at.extend(conf.iter().map(|x| ("conf".to_string(), Some(x.join(" ")))));
    let noise: Vec<(String, Option<String>)> = s.many(0, 3, 20, |s| attr(s, false));
    for n in &noise {
        let i = s.urange(0, at.len());
        if ["candidate", "fingerprint", "ssrc", "fmtp", "curr", "des", "conf"].contains(&&n.0[..]) {
            continue;
        }
        at.insert(i, n.clone());
    }
    if at.len() > 50 {
        return Ok(()); // more than one of the lists was long
    }
    let mut w = Media { kind: "audio".into(), port: 9, count: None, proto: "RTP/AVP".into(), fmts: vec!["0".into()], title: None, conn: None, bw: vec![], key: None, attrs: at };
    // somewhere among other sections
    let mut before = s.many(0, 2, 10, media);
    before.iter_mut().for_each(|m| m.attrs.clear());
    let k = before.len();
    std::mem::swap(&mut w.title, &mut None);
    let head = ["v=0", "o=- 1 1 IN IP4 h", "s=-", "c=IN IP4 h", "t=0 0"].map(String::from).to_vec();
    let mut l = head;
    before.iter().for_each(|m| l.extend(m.lines()));
    l.extend(w.lines());
    let t = join(&l, "\r\n");
    ctx.desc(|| t.clone());
    ctx.nontrivial(&t);
    (|| {
        let d = match ss::SessionDescription::parse(&t) {
            Ok(d) => d,
            Err(e) => return fail("typed:refused", format!("{e}")),
        };
        let m = &d.media[k];
        ensure_eq!(m.candidates().collect::<Vec<_>>(), c, "typed:candidates", "");
        ensure_eq!(m.fingerprints().map(|f| (f.hash_function.to_string(), f.fingerprint.to_string())).collect::<Vec<_>>(), fp, "typed:fingerprints", "");
        ensure_eq!(m.fingerprint().map(|f| f.fingerprint.to_string()), fp.first().map(|f| f.1.clone()), "typed:fingerprint", "");
        ensure_eq!(m.ssrc_iter().map(|x| (x.ssrc_id, x.attribute.to_string(), x.value.map(|v| v.to_string()))).collect::<Vec<_>>(), ssrc, "typed:ssrc", "");
        ensure_eq!(m.fmtp_iter().map(|x| (x.payload_type, x.params.to_string())).collect::<Vec<_>>(), fmtp, "typed:fmtp", "");
        for (pt, _) in &fmtp {
            ensure_eq!(m.fmtp_for(*pt).map(|f| f.params.to_string()), fmtp.iter().find(|f| f.0 == *pt).map(|f| f.1.clone()), "typed:fmtp-for", "");
        }
        let got: Vec<String> = m.rtpmaps_iter().map(|r| format!("{} {}/{}{}", r.payload_type, r.encoding_name, r.clock_rate, r.encoding_params.map(|p| format!("/{p}")).unwrap_or_default())).collect();
        ensure_eq!(got, maps, "typed:rtpmaps", "");
        let d = match cs::SdpSession::parse(&t) {
            Ok(d) => d,
            Err(e) => return fail("typed:refused", format!("{e}")),
        };
        ensure_eq!(d.find_current_status(k).iter().map(|x| x.to_string()).collect::<Vec<_>>(), curr.iter().map(|x| x.join(" ")).collect::<Vec<_>>(), "typed:curr", "");
        ensure_eq!(d.find_desired_status(k).iter().map(|x| x.to_string()).collect::<Vec<_>>(), des.iter().map(|x| x.join(" ")).collect::<Vec<_>>(), "typed:des", "");
        ensure_eq!(d.find_confirm_status(k).iter().map(|x| x.to_string()).collect::<Vec<_>>(), conf.iter().map(|x| x.join(" ")).collect::<Vec<_>>(), "typed:conf", "");
        // every mandatory precondition needs a current status of its kind that covers its direction
        let bits = |d: &str| match d {
            "send" => 1,
            "recv" => 2,
            "sendrecv" => 3,
            _ => 0,
        };
        let uniq = (0..curr.len()).all(|i| (0..i).all(|j| curr[i][..2] != curr[j][..2]));
        if uniq {
            // no status line says the same as "none" (RFC 3312, section 5.1.1), but the library wants one
            let met = |strict: bool| {
                des.iter().filter(|x| x[1] == "mandatory").all(|x| match curr.iter().find(|c| c[0] == x[0] && c[1] == x[2]) {
                    Some(c) => bits(&c[2]) & bits(&x[3]) == bits(&x[3]),
                    None => !strict && bits(&x[3]) == 0,
                })
            };
            let got = d.are_preconditions_met(k);
            ensure!(got == met(true) || got == met(false), "typed:preconditions", "{got}");
        }
        ensure!(d.are_preconditions_met(k + 1), "typed:preconditions-absent", "");
        Ok(())
    })()
    .map_err(|f: Fail| Fail { sig: f.sig, msg: format!("{}\n{t}", f.msg) })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        rule: "a session description of which every line was compared (parsed, printed, parsed again), or one that must be refused; keyed by its text",
        assumptions: &[
            "at most one c= line per media section and, for sip-sdp, one e= and one p= line: the structures hold one",
            "text fields neither begin nor end with white space (attribute values may begin with it)",
            "sip-core prints a=mid, a=rtcp, a=group and RFC 3407 capability lines at a fixed place among the attributes of their level",
        ],
        units: vec![
            unit!("sip-sdp", 12000, 300000, ss_text),
            unit!("sip-core", 12000, 300000, cs_text),
            unit!("refuse", 20000, 400000, refuse),
            unit!("builder", 10000, 250000, built),
            unit!("typed-attributes", 8000, 200000, typed_attrs),
        ],
    }]
}
