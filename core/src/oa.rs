//! C10 offer/answer.
use crate::sdp::{join, Media, Net, Sdp};
use sip_core::rtp_avp;
use sip_core::sdp as cs;
use sip_core::sdp_offer_answer as eng;
use sip_sdp as ss;
use vlib::gen::*;
use vlib::*;

type R = Result<(), Fail>;

/// RFC 3551 tables 4 and 5.
const STATIC: [(u8, &str, u32, u8, bool); 24] = [
    (0, "PCMU", 8000, 1, true),
    (3, "GSM", 8000, 1, true),
    (4, "G723", 8000, 1, true),
    (5, "DVI4", 8000, 1, true),
    (6, "DVI4", 16000, 1, true),
    (7, "LPC", 8000, 1, true),
    (8, "PCMA", 8000, 1, true),
    (9, "G722", 8000, 1, true),
    (10, "L16", 44100, 2, true),
    (11, "L16", 44100, 1, true),
    (12, "QCELP", 8000, 1, true),
    (13, "CN", 8000, 1, true),
    (14, "MPA", 90000, 1, true),
    (15, "G728", 8000, 1, true),
    (16, "DVI4", 11025, 1, true),
    (17, "DVI4", 22050, 1, true),
    (18, "G729", 8000, 1, true),
    (25, "CelB", 90000, 1, false),
    (26, "JPEG", 90000, 1, false),
    (28, "nv", 90000, 1, false),
    (31, "H261", 90000, 1, false),
    (32, "MPV", 90000, 1, false),
    (33, "MP2T", 90000, 1, false),
    (34, "H263", 90000, 1, false),
];
/// Codecs of dynamic payload types.
const AUDIO: [(&str, u32, u8); 8] = [("opus", 48000, 2), ("opus", 48000, 1), ("iLBC", 8000, 1), ("speex", 8000, 1), ("speex", 16000, 1), ("telephone-event", 8000, 1), ("L16", 44100, 2), ("AMR", 8000, 1)];
const VIDEO: [(&str, u32, u8); 4] = [("H264", 90000, 1), ("VP8", 90000, 1), ("VP9", 90000, 1), ("H263-1998", 90000, 1)];
type Codec = (String, u32, u8);

/// A payload format: number, rtpmap text if there is one, codec if known.
#[derive(Clone, Debug)]
struct F {
    pt: u8,
    map: Option<String>,
    codec: Option<Codec>,
    fmtp: Option<String>,
}
fn mapped(s: &mut Src, name: &str, rate: u32, ch: u8) -> String {
    let n: String = match s.weighted(&[4, 1, 1]) {
        0 => name.into(),
        1 => name.to_lowercase(),
        _ => name.to_uppercase(),
    };
    let ch = if ch > 1 || s.chance(1, 3) { format!("/{ch}") } else { String::new() };
    format!("{n}/{rate}{ch}")
}
fn formats(s: &mut Src, audio: bool) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    let hi = if s.chance(1, 16) { 20 } else { 6 };
    for _ in 0..s.urange(1, hi) {
        let f = match s.weighted(&[5, 6, 1]) {
            0 => {
                // a static type, mapped or not (mostly of the right kind and mostly the usual ones)
                let e = if s.chance(1, 3) {
                    *s.pick(&STATIC)
                } else if audio {
                    *s.pick(&[STATIC[0], STATIC[6], STATIC[8], STATIC[9], STATIC[16], STATIC[1]])
                } else {
                    *s.pick(&[STATIC[20], STATIC[23], STATIC[18]])
                };
                F { pt: e.0, map: s.opt(1, 2, |s| mapped(s, e.1, e.2, e.3)), codec: Some((e.1.to_lowercase(), e.2, e.3)), fmtp: None }
            }
            1 => {
                let c = if audio { *s.pick(&AUDIO) } else { *s.pick(&VIDEO) };
                let pt = match s.weighted(&[6, 1, 1]) {
                    0 => s.range(96, 100) as u8,
                    1 => s.range(101, 127) as u8,
                    // unassigned numbers may be used dynamically too
                    _ if s.coin() => s.range(35, 40) as u8,
                    _ => *s.pick(&[20, 21, 24, 27, 29, 30]),
                };
                F { pt, map: Some(mapped(s, c.0, c.1, c.2)), codec: Some((c.0.to_lowercase(), c.1, c.2)), fmtp: None }
            }
            // a dynamic number without a map means nothing
            _ => F { pt: s.range(96, 127) as u8, map: None, codec: None, fmtp: None },
        };
        if v.iter().all(|x| x.pt != f.pt) {
            v.push(f);
        }
    }
    for f in v.iter_mut() {
        f.fmtp = s.opt(1, 4, |s| format!("p{}={}", s.below(3), s.below(1000)));
    }
    v
}
const DIRS: [&str; 4] = ["sendrecv", "sendonly", "recvonly", "inactive"];
fn bits(d: &str) -> u8 {
    match d {
        "sendrecv" => 3,
        "sendonly" => 1,
        "recvonly" => 2,
        "inactive" => 0,
        _ => 99,
    }
}
fn dir_name(b: u8) -> &'static str {
    DIRS[[3, 1, 2, 0][b as usize]]
}
fn reverse(b: u8) -> u8 {
    (b & 1) << 1 | b >> 1
}
#[derive(Clone, Debug)]
struct Sec {
    kind: &'static str,
    proto: &'static str,
    port: u16,
    /// RTP formats, or plain tokens
    f: Vec<F>,
    toks: Vec<String>,
    dir: Option<u8>,
}
impl Sec {
    fn rtp(&self) -> bool {
        self.proto.contains("RTP/")
    }
    fn names(&self) -> Vec<String> {
        if self.rtp() { self.f.iter().map(|f| f.pt.to_string()).collect() } else { self.toks.clone() }
    }
    fn codec(&self, fmt: &str) -> Option<Codec> {
        self.f.iter().find(|f| f.pt.to_string() == fmt).and_then(|f| f.codec.clone())
    }
    fn media(&self, s: &mut Src) -> Media {
        let mut attrs = vec![];
        for f in &self.f {
            attrs.extend(f.map.iter().map(|m| ("rtpmap".to_string(), Some(format!("{} {m}", f.pt)))));
            attrs.extend(f.fmtp.iter().map(|p| ("fmtp".to_string(), Some(format!("{} {p}", f.pt)))));
        }
        s.shuffle(&mut attrs);
        if let Some(d) = self.dir {
            let at = s.urange(0, attrs.len());
            attrs.insert(at, (dir_name(d).into(), None));
        }
        if s.chance(1, 5) {
            let at = s.urange(0, attrs.len());
            attrs.insert(at, (s.pick(&["x", "rtcp-mux", "sendrecv-ish"]).to_string(), None));
        }
        Media {
            kind: self.kind.into(),
            port: self.port,
            count: s.opt(1, 10, |s| s.range(1, 3) as u16),
            proto: self.proto.into(),
            fmts: self.names(),
            title: s.opt(1, 10, |_| "t".into()),
            conn: s.opt(1, 6, |s| Net { v6: false, addr: ipv4(s) }),
            bw: vec![],
            key: None,
            attrs,
        }
    }
}
fn section(s: &mut Src, zero: (u64, u64)) -> Sec {
    let (kind, proto) = match s.weighted(&[6, 4, 1]) {
        0 => ("audio", *s.pick(&["RTP/AVP", "RTP/AVP", "RTP/SAVP", "UDP/TLS/RTP/SAVPF", "RTP/AVPF", "UDP/TLS/RTP/SAVP"])),
        1 => ("video", *s.pick(&["RTP/AVP", "RTP/AVP", "RTP/SAVPF", "RTP/AVPF"])),
        _ => *s.pick(&[("application", "UDP/BFCP"), ("image", "udptl"), ("message", "TCP/MSRP"), ("text", "RTP/AVP")]),
    };
    let rtp = proto.contains("RTP/");
    Sec {
        kind,
        proto,
        port: if s.chance(zero.0, zero.1) { 0 } else { if s.chance(1, 8) { *s.pick(&[1, 2, 9, 65534, 65535]) } else { s.range(1, 65535) as u16 } },
        f: if rtp { formats(s, kind != "video") } else { vec![] },
        toks: if rtp { vec![] } else { s.many(1, 3, 12, |s| s.pick(&["t38", "*", "udp", "8"]).to_string()) },
        dir: s.opt(1, 2, |s| s.below(4) as u8),
    }
}
/// Sections of one side; `other` lends some, changed, so that there is something in common.
fn sections(s: &mut Src, other: Option<&[Sec]>, zero: (u64, u64)) -> Vec<Sec> {
    let hi = if s.chance(1, 12) { 10 } else { 4 };
    let n = s.urange(if other.is_some() { 0 } else { 1 }, hi);
    let mut v: Vec<Sec> = vec![];
    for _ in 0..n {
        let mut x = section(s, zero);
        if let Some(o) = other.filter(|o| !o.is_empty()) {
            if s.chance(3, 4) {
                let o = s.pick(o).clone();
                x.kind = o.kind;
                x.proto = o.proto;
                x.toks = if o.rtp() { vec![] } else if s.coin() { o.toks.clone() } else { s.vec(1, 3, |s| s.pick(&["t38", "*", "udp", "8"]).to_string()) };
                x.f = if o.rtp() { formats(s, o.kind != "video") } else { vec![] };
                // some of its codecs, perhaps under other numbers
                for mut f in o.f.iter().filter(|_| s.coin()).cloned().collect::<Vec<_>>() {
                    if s.chance(1, 3) && f.map.is_some() && f.pt >= 96 {
                        f.pt = s.range(96, 104) as u8;
                    }
                    f.fmtp = s.opt(1, 3, |s| format!("l{}={}", s.below(3), s.below(1000)));
                    if x.f.iter().all(|y| y.pt != f.pt) {
                        let at = s.urange(0, x.f.len());
                        x.f.insert(at, f);
                    }
                }
            }
        }
        v.push(x);
    }
    v
}
fn session(s: &mut Src, sec: &[Sec], dir: Option<u8>) -> Sdp {
    Sdp {
        user: alnum(s, 1, 5),
        sid: digits(s, 1, 9),
        ver: s.num(u64::MAX).to_string(),
        onet: Net { v6: false, addr: ipv4(s) },
        name: "call".into(),
        info: None,
        uri: None,
        email: vec![],
        phone: vec![],
        conn: Some(Net { v6: false, addr: ipv4(s) }),
        bw: vec![],
        times: vec![(0, 0, vec![])],
        zones: vec![],
        key: None,
        attrs: dir.iter().map(|d| (dir_name(*d).to_string(), None)).collect(),
        media: sec.iter().map(|x| x.media(s)).collect(),
    }
}

/// sip-sdp's negotiate_answer.
fn negotiate(s: &mut Src, ctx: &mut Ctx) -> R {
    let offer = sections(s, None, (1, 8));
    let local = sections(s, Some(&offer), (1, 20));
    let (od, ld) = (s.opt(1, 4, |s| s.below(4) as u8), s.opt(1, 4, |s| s.below(4) as u8));
    let ot = join(&session(s, &offer, od).lines(), "\r\n");
    let lt = join(&session(s, &local, ld).lines(), "\r\n");
    let addr = if s.coin() { ipv4(s) } else { ipv6(s).to_string() };
    ctx.desc(|| format!("offer:\n{ot}local:\n{lt}"));
    let o = ss::SessionDescription::parse(&ot).map_err(|e| Fail { sig: "negotiate:offer-refused".into(), msg: format!("{e}\n{ot}") })?;
    let l = ss::SessionDescription::parse(&lt).map_err(|e| Fail { sig: "negotiate:local-refused".into(), msg: format!("{e}\n{lt}") })?;
    ctx.nontrivial(&(&ot, &lt));
    let eff = |x: &Sec, d: Option<u8>| x.dir.or(d).unwrap_or(3);
    let a = match ss::negotiate::negotiate_answer(&o, &addr, &l) {
        Ok(a) => a,
        Err(e) => {
            // an error is only in order where two sections are one-way in the same sense
            let clash = offer.iter().any(|x| x.port != 0 && local.iter().any(|y| y.kind == x.kind && y.proto == x.proto && eff(x, od) == eff(y, ld) && matches!(eff(x, od), 1 | 2)));
            ensure!(clash, "negotiate:error", "{e}\noffer:\n{ot}local:\n{lt}");
            ctx.label("error");
            return Ok(());
        }
    };
    let text = a.serialize();
    (|| {
        ensure!(ss::SessionDescription::parse(&text).as_ref() == Ok(&a), "negotiate:answer-text", "does not read back");
        ensure_eq!(a.connection.as_ref().map(|c| c.connection_address.to_string()), Some(addr.clone()), "negotiate:connection", "");
        ensure_eq!(a.media.len(), offer.len(), "negotiate:sections", "");
        let mut taken: Vec<&str> = vec![];
        let mut unsure: Vec<&str> = vec![];
        for (i, (m, x)) in a.media.iter().zip(&offer).enumerate() {
            ensure_eq!((m.media_type.to_string(), m.protocol.to_string()), (x.kind.to_string(), x.proto.to_string()), "negotiate:kind", "section {i}");
            let names = x.names();
            let got: Vec<String> = m.formats.iter().map(|f| f.to_string()).collect();
            ensure!(!got.is_empty() && got.iter().all(|f| names.contains(f)), "negotiate:formats-not-offered", "section {i}: {got:?}");
            let cand: Vec<&Sec> = local.iter().filter(|y| y.kind == x.kind && y.proto == x.proto).collect();
            // what may be accepted, and what must be
            let fits = |y: &Sec, f: &str, sure: bool| {
                if !x.rtp() {
                    return y.toks.iter().any(|t| t == f);
                }
                let c = x.f.iter().find(|g| g.pt.to_string() == f).unwrap();
                y.f.iter().any(|g| match (&c.codec, &g.codec) {
                    (Some(a), Some(b)) => a == b && (!sure || (c.map.is_some() && g.map.is_some()) || (c.pt == g.pt && c.pt < 35)),
                    _ => false,
                })
            };
            let must: Vec<&String> = names.iter().filter(|f| cand.first().is_some_and(|y| fits(y, f, true))).collect();
            let may: Vec<&String> = names.iter().filter(|f| cand.iter().any(|y| fits(y, f, false))).collect();
            if m.port == 0 {
                let closed = cand.iter().any(|y| y.port == 0);
                ensure!(
                    x.port == 0 || taken.contains(&x.kind) || unsure.contains(&x.kind) || must.is_empty() || closed,
                    "negotiate:rejected",
                    "section {i} has {must:?} in common"
                );
                if x.port != 0 && closed && !may.is_empty() {
                    unsure.push(x.kind);
                }
                continue;
            }
            ctx.label("accepted");
            ensure!(x.port != 0, "negotiate:accepts-port-zero", "section {i}");
            ensure!(!may.is_empty(), "negotiate:accepts-nothing-in-common", "section {i}");
            taken.push(x.kind);
            for f in &got {
                ensure!(may.contains(&f), "negotiate:format-not-local", "section {i}: {f}");
            }
            for f in &must {
                ensure!(got.contains(f), "negotiate:format-missing", "section {i}: {f} of {must:?}, got {got:?}");
            }
            // in the offer's order, once each
            let pos: Vec<usize> = got.iter().map(|f| names.iter().position(|n| n == f).unwrap()).collect();
            ensure!(x.rtp() == false || pos.windows(2).all(|w| w[0] < w[1]), "negotiate:format-order", "section {i}: {got:?} of {names:?}");
            ensure!(cand.iter().any(|y| y.port == m.port), "negotiate:port", "section {i}: {}", m.port);
            // direction
            let d: Vec<u8> = m.attributes.iter().filter_map(|t| if let ss::Attribute::Property(n) = t { Some(bits(n)) } else { None }).filter(|b| *b < 4).collect();
            ensure!(d.len() == 1, "negotiate:direction-count", "section {i}: {d:?}");
            let ok = cand.iter().any(|y| d[0] == reverse(eff(x, od)) & eff(y, ld));
            ensure!(ok, "negotiate:direction", "section {i}: offered {} answered {}", dir_name(eff(x, od)), dir_name(d[0]));
            ctx.label(if d[0] == 3 { "both-ways" } else { "one-way" });
            // maps and parameters stay with their codec
            for (pt, r) in &m.rtpmaps {
                let ch = r.encoding_params.as_ref().map(|c| c.parse::<u8>().unwrap_or(0)).unwrap_or(1);
                let c = (r.encoding_name.to_lowercase(), r.clock_rate, ch);
                ensure!(r.payload_type == *pt && x.codec(&pt.to_string()) == Some(c.clone()), "negotiate:rtpmap", "section {i}: {pt} {c:?}");
            }
            for t in &m.attributes {
                let ss::Attribute::Value { name, value } = t else { continue };
                let Some((pt, rest)) = value.split_once(' ') else { continue };
                match name.as_str() {
                    "rtpmap" => {
                        ensure!(got.iter().any(|f| f == pt), "negotiate:rtpmap-of-nothing", "section {i}: {value}");
                    }
                    "fmtp" => {
                        ensure!(got.iter().any(|f| f == pt), "negotiate:fmtp-of-nothing", "section {i}: {value}");
                        let c = x.codec(pt);
                        let own = cand.iter().flat_map(|y| &y.f).any(|g| g.codec == c && g.fmtp.as_deref() == Some(rest));
                        let theirs = x.f.iter().any(|g| g.pt.to_string() == pt && g.fmtp.as_deref() == Some(rest));
                        ensure!(own || theirs, "negotiate:fmtp-of-other-codec", "section {i}: {value}");
                    }
                    _ => {}
                }
            }
            // a dynamic number is explained
            for f in &got {
                let pt: u8 = f.parse().unwrap_or(0);
                ensure!(!x.rtp() || pt < 35 || m.rtpmaps.contains_key(&pt), "negotiate:unmapped", "section {i}: {f}");
            }
        }
        Ok(())
    })()
    .map_err(|f: Fail| Fail { sig: f.sig, msg: format!("{}\noffer:\n{ot}local:\n{lt}answer:\n{text}", f.msg) })
}

const STATUS: [&str; 3] = ["e2e", "local", "remote"];
const PDIRS: [&str; 4] = ["none", "send", "recv", "sendrecv"];
fn pd(i: u64) -> cs::PreconditionDirection {
    [cs::PreconditionDirection::None, cs::PreconditionDirection::Send, cs::PreconditionDirection::Recv, cs::PreconditionDirection::SendRecv][i as usize]
}
fn cdir(b: u8) -> cs::Direction {
    cs::Direction::parse(dir_name(b)).unwrap()
}
fn cs_attrs(a: &[cs::Attribute]) -> Vec<(String, Option<String>)> {
    a.iter()
        .map(|a| {
            let t = a.to_string();
            let t = t.trim_end().strip_prefix("a=").map(|x| x.to_string()).unwrap_or(t);
            match t.split_once(':') {
                Some((n, v)) => (n.to_string(), Some(v.to_string())),
                None => (t, None),
            }
        })
        .collect()
}
fn cs_dirs(a: &[cs::Attribute]) -> Vec<u8> {
    cs_attrs(a).iter().filter(|(_, v)| v.is_none()).map(|(n, _)| bits(n)).filter(|b| *b < 4).collect()
}
/// sip-core's OfferAnswerEngine.
fn engine(s: &mut Src, ctx: &mut Ctx) -> R {
    let offer = sections(s, None, (1, 8));
    let od = s.opt(1, 4, |s| s.below(4) as u8);
    let mut model = session(s, &offer, od);
    // preconditions (RFC 3312)
    let mut pre: Vec<Vec<(&'static str, bool, &'static str, usize, u64)>> = vec![];
    for m in model.media.iter_mut() {
        let mut p = vec![];
        if s.chance(1, 3) {
            for _ in 0..s.urange(1, 4) {
                let kind = *s.pick(&["curr", "des", "conf"]);
                let qos = !s.chance(1, 8);
                let strength = *s.pick(&["mandatory", "optional", "none", "failure", "unknown"]);
                let (st, d) = (s.urange(0, 2), s.below(4));
                let t = if qos { "qos" } else { "sec" };
                let v = if kind == "des" { format!("{t} {strength} {} {}", STATUS[st], PDIRS[d as usize]) } else { format!("{t} {} {}", STATUS[st], PDIRS[d as usize]) };
                m.attrs.push((kind.into(), Some(v)));
                p.push((kind, qos, strength, st, d));
            }
        }
        pre.push(p);
    }
    let ot = join(&model.lines(), "\r\n");
    // our side
    let list = |s: &mut Src, audio: bool| -> Vec<(String, u32, Option<u16>)> {
        let mut v: Vec<(String, u32, Option<u16>)> = vec![];
        for x in offer.iter().filter(|x| (x.kind == "audio") == audio) {
            for f in &x.f {
                if !s.chance(1, 3) {
                    continue;
                }
                if let Some(c) = &f.codec {
                    v.push((c.0.clone(), c.1, if c.2 > 1 || s.coin() { Some(c.2 as u16) } else { None }));
                }
            }
        }
        for _ in 0..s.urange(0, 3) {
            let (n, r, c) = if s.coin() { let e = s.pick(&STATIC); (e.1, e.2, e.3) } else if audio { *s.pick(&AUDIO) } else { *s.pick(&VIDEO) };
            let n = if s.coin() { n.to_uppercase() } else { n.to_string() };
            v.push((n, r, if c > 1 || s.coin() { Some(c as u16) } else { None }));
        }
        s.shuffle(&mut v);
        v
    };
    let (la, lv) = (list(s, true), list(s, false));
    let base = match s.weighted(&[5, 1]) {
        0 => s.range(1, 60000) as u16,
        _ => s.range(65525, 65535) as u16,
    };
    let over = s.opt(1, 4, |s| s.below(4) as u8);
    let rej: Vec<usize> = s.many(0, 2, 6, |s| s.urange(0, 9));
    let rej = if s.coin() { vec![] } else { rej };
    let (ql, qr) = (s.opt(1, 2, |s| s.below(4)), s.opt(1, 2, |s| s.below(4)));
    let upgrade = s.coin();
    let v6 = s.chance(1, 3);
    let addr = if v6 { ipv6(s).to_string() } else { ipv4(s) };
    ctx.desc(|| format!("{ot}audio {la:?} video {lv:?} base {base} override {over:?} reject {rej:?}"));
    ctx.nontrivial(&(&ot, &la, &lv, base, over, &rej));
    let o = cs::SdpSession::parse(&ot).map_err(|e| Fail { sig: "engine:offer-refused".into(), msg: format!("{e}\n{ot}") })?;
    let mk = |l: &[(String, u32, Option<u16>)]| l.iter().map(|(n, r, c)| eng::CodecInfo::new(n, *r, *c).unwrap()).collect::<Vec<_>>();
    let mut opt = eng::AnswerOptions::new()
        .with_local_address(&addr)
        .unwrap()
        .with_base_port(base)
        .with_audio_codecs(mk(&la))
        .unwrap()
        .with_video_codecs(mk(&lv))
        .unwrap()
        .with_reject_media(rej.clone())
        .unwrap()
        .with_username("me")
        .unwrap()
        .with_session_id("77")
        .unwrap()
        .with_upgrade_preconditions(upgrade);
    if let Some(d) = over {
        opt = opt.with_direction_override(cdir(d));
    }
    if let Some(q) = ql {
        opt = opt.with_qos_local_status(pd(q));
    }
    if let Some(q) = qr {
        opt = opt.with_qos_remote_status(pd(q));
    }
    let en = eng::OfferAnswerEngine::new();
    let a = match en.generate_answer(&o, opt) {
        Ok(a) => a,
        Err(e) => return fail("engine:error", format!("{e}\n{ot}")),
    };
    let text = a.to_string();
    (|| {
        let back = cs::SdpSession::parse(&text).map_err(|e| Fail { sig: "engine:answer-text".into(), msg: format!("{e}") })?;
        ensure_eq!(back.to_string(), text, "engine:answer-text", "");
        let og = a.origin();
        ensure_eq!([og.username(), og.sess_id(), og.addrtype(), og.unicast_address()], ["me", "77", if v6 { "IP6" } else { "IP4" }, &addr], "engine:origin", "");
        let c = a.connection().unwrap();
        ensure_eq!(c.to_string().trim_end().trim_start_matches("c="), format!("IN {} {addr}", if v6 { "IP6" } else { "IP4" }), "engine:connection", "");
        ensure_eq!(a.media().len(), offer.len(), "engine:sections", "");
        let mut ports: Vec<u16> = vec![];
        for (i, (m, x)) in a.media().iter().zip(&offer).enumerate() {
            ensure_eq!((m.media(), m.proto()), (x.kind, x.proto), "engine:kind", "section {i}");
            let names = x.names();
            let ours: &[(String, u32, Option<u16>)] = match x.kind {
                "audio" => &la,
                "video" => &lv,
                _ => &[],
            };
            let common: Vec<String> = names
                .iter()
                .filter(|f| x.rtp() && x.codec(f).is_some_and(|c| ours.iter().any(|(n, r, ch)| n.to_lowercase() == c.0 && *r == c.1 && ch.unwrap_or(1) == c.2 as u16)))
                .cloned()
                .collect();
            ensure!(!m.fmt().is_empty() && m.fmt().iter().all(|f| names.contains(f)), "engine:formats-not-offered", "section {i}: {:?}", m.fmt());
            let refuse = x.port == 0 || rej.contains(&i) || common.is_empty();
            // ports are handed out in pairs from the base; when they run out, sections are rejected
            let left = base as u32 + 2 * ports.len() as u32 <= 65535;
            if m.port() == 0 {
                ensure!(refuse || !left, "engine:rejected", "section {i} has {common:?} in common");
                continue;
            }
            ctx.label("accepted");
            ensure!(x.port != 0, "engine:accepts-port-zero", "section {i}");
            ensure!(!rej.contains(&i), "engine:accepts-refused", "section {i}");
            ensure_eq!(m.fmt().to_vec(), common, "engine:formats", "section {i} of {names:?}");
            ensure!(m.port() >= base && ports.iter().all(|p| p.abs_diff(m.port()) >= 2), "engine:port", "section {i}: {} after {ports:?} from {base}", m.port());
            ports.push(m.port());
            let d = cs_dirs(m.attributes());
            let want = reverse(x.dir.or(od).unwrap_or(3)) & over.unwrap_or(3);
            ensure_eq!(d, vec![want], "engine:direction", "section {i}");
            let mut seen = vec![];
            let mut got_pre: Vec<String> = vec![];
            for (n, v) in &cs_attrs(m.attributes()) {
                let Some(v) = v else { continue };
                match &n[..] {
                    "rtpmap" => {
                        let (pt, r) = v.split_once(' ').unwrap_or((&v[..], ""));
                        let p: Vec<&str> = r.split('/').collect();
                        let c = (p[0].to_lowercase(), p.get(1).and_then(|x| x.parse::<u32>().ok()).unwrap_or(0), p.get(2).and_then(|x| x.parse::<u8>().ok()).unwrap_or(1));
                        ensure!(common.iter().any(|f| f == pt) && x.codec(pt) == Some(c), "engine:rtpmap", "section {i}: {v}");
                        seen.push(pt.to_string());
                    }
                    "fmtp" => {
                        let (pt, r) = v.split_once(' ').unwrap_or((&v[..], ""));
                        ensure!(common.iter().any(|f| f == pt) && x.f.iter().any(|g| g.pt.to_string() == pt && g.fmtp.as_deref() == Some(r)), "engine:fmtp", "section {i}: {v}");
                    }
                    n @ ("curr" | "des" | "conf") => got_pre.push(format!("{n} {v}")),
                    _ => {}
                }
            }
            for f in &common {
                ensure!(f.parse::<u8>().unwrap() < 35 || seen.contains(f), "engine:unmapped", "section {i}: {f}");
            }
            let inv = |st: usize| [0usize, 2, 1][st];
            let mut want: Vec<String> = vec![];
            for kind in ["curr", "des", "conf"] {
                for (k, qos, strength, st, d) in &pre[i] {
                    if *k != kind || !*qos {
                        continue;
                    }
                    let st2 = inv(*st);
                    let rd = [0u64, 2, 1, 3][*d as usize];
                    want.push(match kind {
                        "curr" => {
                            let v = match st2 {
                                0 => rd,
                                1 => ql.unwrap_or(0),
                                _ => qr.unwrap_or(0),
                            };
                            format!("curr qos {} {}", STATUS[st2], PDIRS[v as usize])
                        }
                        "des" => format!("des qos {} {} {}", if upgrade && *strength == "optional" { "mandatory" } else { strength }, STATUS[st2], PDIRS[rd as usize]),
                        _ => format!("conf qos {} {}", STATUS[st2], PDIRS[rd as usize]),
                    });
                }
            }
            got_pre.sort();
            want.sort();
            ensure_eq!(got_pre, want, "engine:preconditions", "section {i}");
        }
        // hold and resume
        let sides = if s.coin() { &o } else { &a };
        let h = en.create_hold_offer(sides);
        let r = en.create_resume_offer(sides);
        let next = |v: &str| (v.parse::<u128>().unwrap() + 1).to_string();
        let sdir = cs_dirs(sides.attributes()).first().copied();
        for (what, n) in [("hold", &h), ("resume", &r)] {
            ensure_eq!(n.origin().sess_version(), next(sides.origin().sess_version()), format!("{what}:version"), "");
            ensure_eq!(n.origin().sess_id(), sides.origin().sess_id(), format!("{what}:session"), "");
            ensure_eq!(n.media().len(), sides.media().len(), format!("{what}:sections"), "");
            for (i, (m, x)) in n.media().iter().zip(sides.media()).enumerate() {
                ensure_eq!((m.media(), m.proto(), m.port(), m.fmt()), (x.media(), x.proto(), x.port(), x.fmt()), format!("{what}:media"), "section {i}");
                let cur = cs_dirs(x.attributes()).first().copied().or(sdir).unwrap_or(3);
                // hold stops our receiving, resume starts it again
                let want = if what == "hold" { cur & 1 } else { cur | 2 };
                ensure_eq!(cs_dirs(m.attributes()), vec![want], format!("{what}:direction"), "section {i} of {}", dir_name(cur));
                let rest = |m: &cs::MediaDescription| cs_attrs(m.attributes()).into_iter().filter(|(n, v)| v.is_some() || bits(n) > 3).collect::<Vec<_>>();
                ensure_eq!(rest(m), rest(x), format!("{what}:attributes"), "section {i}");
            }
        }
        Ok(())
    })()
    .map_err(|f: Fail| Fail { sig: f.sig, msg: format!("{}\noffer:\n{ot}audio {la:?} video {lv:?} base {base} override {over:?} reject {rej:?}\nanswer:\n{text}", f.msg) })
}

/// sip-sdp's profiles::negotiate_answer.
fn profile(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut offer = sections(s, None, (1, 8));
    offer.retain(|x| x.rtp());
    let od = s.opt(1, 4, |s| s.below(4) as u8);
    let ot = join(&session(s, &offer, od).lines(), "\r\n");
    let video = s.coin();
    ctx.desc(|| format!("{ot}profile {}", if video { "audio+video" } else { "audio" }));
    let o = ss::SessionDescription::parse(&ot).map_err(|e| Fail { sig: "profile:offer-refused".into(), msg: format!("{e}\n{ot}") })?;
    ctx.nontrivial(&(&ot, video));
    let p = if video { ss::profiles::MediaProfileBuilder::audio_video() } else { ss::profiles::MediaProfileBuilder::audio_only() };
    let a = ss::profiles::negotiate_answer(&o, &p, "me", "192.0.2.1", 4000, Some(4002));
    for m in &a.media {
        let kind = m.media_type.to_string();
        for f in &m.formats {
            let known = offer.iter().any(|x| x.kind == kind && x.names().iter().any(|n| n == f));
            ensure!(known, "profile:formats-not-offered", "{kind} {f}\n{ot}");
        }
    }
    ensure_eq!(a.media.len(), offer.len(), "profile:sections", "{ot}");
    for (m, x) in a.media.iter().zip(&offer) {
        ensure_eq!(m.media_type.to_string(), x.kind, "profile:sections", "{ot}");
        ensure!(m.port == 0 || x.port != 0, "profile:sections", "accepts port zero\n{ot}");
        ensure!(!m.formats.is_empty(), "profile:sections", "accepts a section without a format\n{ot}");
        let d = m.attributes.iter().filter_map(|t| if let ss::Attribute::Property(n) = t { Some(bits(n)) } else { None }).find(|b| *b < 4).unwrap_or(3);
        ensure!(d & !reverse(x.dir.or(od).unwrap_or(3)) == 0, "profile:direction", "{ot}");
    }
    Ok(())
}

/// The static payload table.
fn table(s: &mut Src, ctx: &mut Ctx) -> R {
    let pt = s.below(256) as u8;
    ctx.nontrivial(&pt);
    ctx.desc(|| pt.to_string());
    let want = STATIC.iter().find(|e| e.0 == pt);
    let got = rtp_avp::get_static_payload_type(pt);
    ensure_eq!(got.is_some(), want.is_some(), "table:assigned", "{pt}");
    if let (Some(g), Some(w)) = (got, want) {
        ensure_eq!((g.payload_type(), g.encoding_name(), g.clock_rate(), g.channels().unwrap_or(1), g.media_type()), (w.0, w.1, w.2, w.3, if w.4 { "audio" } else { "video" }), "table:entry", "");
        let n = if s.coin() { w.1.to_lowercase() } else { w.1.to_uppercase() };
        let first = STATIC.iter().filter(|e| e.1.eq_ignore_ascii_case(&n)).map(|e| e.0).collect::<Vec<_>>();
        let by = rtp_avp::get_payload_type(&n);
        ensure!(by.is_some_and(|p| first.contains(&p)), "table:by-name", "{n}: {by:?}");
        let rate = if s.chance(1, 3) { *s.pick(&[8000u32, 16000, 11025, 22050, 44100, 90000]) } else { w.2 };
        let all: Vec<u8> = STATIC.iter().filter(|e| e.1.eq_ignore_ascii_case(&n) && e.2 == rate).map(|e| e.0).collect();
        let by = rtp_avp::get_payload_type_with_rate(&n, rate);
        ensure!(by.map_or(all.is_empty(), |p| all.contains(&p)), "table:by-name-and-rate", "{n}/{rate}: {by:?} of {all:?}");
    }
    ensure_eq!(rtp_avp::is_dynamic_range(pt), (96..=127).contains(&pt), "table:dynamic", "{pt}");
    let other = token(s, 1, 8);
    if !STATIC.iter().any(|e| e.1.eq_ignore_ascii_case(&other)) {
        ensure_eq!(rtp_avp::get_payload_type(&other), None, "table:unknown", "{other}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        rule: "an offer answered against a local configuration (or held and resumed) and every section of the answer judged; keyed by offer and configuration",
        assumptions: &[
            "rtpmap lines of assigned static payload types agree with RFC 3551; unassigned numbers carry an rtpmap",
            "sip-sdp: only the first acceptable section of a media type is accepted (documented, pinned by tests); a codec listed by static number on one side and by rtpmap under another number on the other may go unrecognised",
            "sip-sdp: two sections one-way in the same sense are either an error or inactive",
        ],
        units: vec![
            unit!("negotiate", 20000, 600000, negotiate),
            unit!("engine", 15000, 500000, engine),
            unit!("profile", 3000, 50000, profile),
            unit!("static-table", 3000, 30000, table),
        ],
    }]
}
