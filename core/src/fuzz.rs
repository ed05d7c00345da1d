//! C03: no input makes a parser panic; accepted values print cleanly; size limits hold.
use crate::g;
use bytes::Bytes;
use sip_core::*;
use smol_str::SmolStr;
use std::fmt::Debug;
use std::str::FromStr;
use std::sync::OnceLock;
use std::time::Instant;
use vlib::gen::*;
use vlib::*;

type R = Result<(), Fail>;

struct Shown {
    text: Option<String>,
    header: bool,
}
struct Target {
    name: &'static str,
    seeds: Vec<Vec<u8>>,
    run: Box<dyn Fn(&[u8]) -> Option<Shown> + Send + Sync>,
}
/// Debug text and equality of a clone must work, too.
fn dbg<T: Debug>(v: &T) {
    std::hint::black_box(format!("{v:?}"));
}
fn sp(v: &[u8]) -> SmolStr {
    SmolStr::new(String::from_utf8_lossy(v))
}
fn one(name: &str, v: &str) -> Headers {
    let mut h = Headers::new();
    for l in v.split('\u{1}') {
        let _ = h.push(name, l);
    }
    h
}
fn walk_sdp(x: &SdpSession) {
    for i in 0..=x.media().len() {
        let _ = (x.find_direction(Some(i)), x.find_rtpmaps(i), x.find_fmtps(i), x.find_current_status(i), x.find_desired_status(i), x.find_confirm_status(i), x.are_preconditions_met(i));
    }
    let e = OfferAnswerEngine::new();
    let o = AnswerOptions::new();
    if let Ok(a) = e.generate_answer(x, o) {
        std::hint::black_box(a.to_string());
    }
    std::hint::black_box(e.create_hold_offer(x).to_string());
    std::hint::black_box(e.create_resume_offer(x).to_string());
}
fn walk_sdp2(x: &sip_sdp::SessionDescription) {
    let mut x = x.clone();
    let _ = x.direction();
    for m in &mut x.media {
        let _ = (m.direction(), m.ptime(), m.maxptime(), m.fingerprint(), m.setup());
        m.rtpmaps_iter().for_each(|v| dbg(&v));
        m.fmtp_iter().for_each(|v| dbg(&v));
        m.candidates().for_each(|v| drop(std::hint::black_box(v.to_attr_value())));
        m.fingerprints().for_each(|v| dbg(&v));
        m.ssrc_iter().for_each(|v| dbg(&v));
        m.rebuild_rtpmaps();
        m.remove_rtpmap(0);
    }
    if let Ok(caps) = sip_sdp::SessionDescription::builder().origin("u", "1", "10.0.0.1").and_then(|b| b.session_name("s")).and_then(|b| b.connection("10.0.0.1")) {
        if let Ok(caps) = caps.time(0, 0).media(sip_sdp::MediaDescription::audio(4000).add_format(0).unwrap()).map(|b| b.build()) {
            let _ = sip_sdp::negotiate::negotiate_answer(&x, "10.0.0.2", &caps);
            let _ = sip_sdp::negotiate::negotiate_answer(&caps, "10.0.0.2", &x);
        }
    }
}
fn walk_uri(u: &SipUri) {
    dbg(u);
    std::hint::black_box(*u == u.clone());
    let _ = u.params().len() + u.headers().len();
    let other = SipUri::parse("sip:a@b");
    if let Ok(o) = other {
        std::hint::black_box(*u == o);
    }
}
fn walk_req(r: &Request) {
    dbg(r);
    let h = r.headers();
    let _ = sip_dialog::DialogId::from_request(r);
    let _ = sip_auth::extract_auth_username(h);
    let _ = sip_auth::extract_auth_nonce(h);
    let _ = requires_privacy_enforcement(h);
    let mut h2 = h.clone();
    if let Some(p) = parse_privacy_header(h) {
        let _ = enforce_privacy(&mut h2, &p);
    }
    let _ = decrement_max_forwards(&mut h2);
    for (n, v) in h.iter().map(|x| (x.name().to_string(), x.value().to_string())) {
        std::hint::black_box((n, v));
    }
}

fn targets() -> &'static Vec<Target> {
    static T: OnceLock<Vec<Target>> = OnceLock::new();
    T.get_or_init(build)
}
fn build() -> Vec<Target> {
    let mut v: Vec<Target> = vec![];
    macro_rules! t {
        // header values: Display has no line break
        (h $name:literal, $seeds:expr, $f:expr) => {
            v.push(Target {
                name: $name,
                seeds: $seeds.iter().map(|s: &&str| s.as_bytes().to_vec()).collect(),
                run: Box::new(|b| {
                    let s = sp(b);
                    let f = $f;
                    f(&s).map(|x| {
                        dbg(&x);
                        Shown { text: Some(format!("{x}")), header: true }
                    })
                }),
            })
        };
        // bodies
        (b $name:literal, $seeds:expr, $f:expr) => {
            v.push(Target {
                name: $name,
                seeds: $seeds.iter().map(|s: &&str| s.as_bytes().to_vec()).collect(),
                run: Box::new(|b| {
                    let s = sp(b);
                    let f = $f;
                    f(&s).map(|x| {
                        dbg(&x);
                        Shown { text: Some(format!("{x}")), header: false }
                    })
                }),
            })
        };
        // no Display
        (d $name:literal, $seeds:expr, $f:expr) => {
            v.push(Target {
                name: $name,
                seeds: $seeds.iter().map(|s: &&str| s.as_bytes().to_vec()).collect(),
                run: Box::new(|b| {
                    let s = sp(b);
                    let f = $f;
                    f(&s).map(|x| {
                        dbg(&x);
                        Shown { text: None, header: false }
                    })
                }),
            })
        };
        // octets
        (o $name:literal, $seeds:expr, $f:expr) => {
            v.push(Target {
                name: $name,
                seeds: $seeds.iter().map(|s: &&[u8]| s.to_vec()).collect(),
                run: Box::new(|b| {
                    let f = $f;
                    f(b).map(|x| {
                        dbg(&x);
                        Shown { text: None, header: false }
                    })
                }),
            })
        };
    }
    const NA: &[&str] = &[
        "\"A \\\"q\\\" B\" <sip:alice@example.com;transport=tcp?subject=x%20y>;tag=1928;q=0.5",
        "<sip:[2001:db8::1]:5070;lr>;expires=3600;+sip.instance=\"<urn:uuid:00000000-0000-1000-8000-000A95A0E128>\"",
        "sip:bob@biloxi.com;tag=a6c",
        "Bob <tel:+1-201-555-0123;phone-context=example.com>",
        "*",
    ];
    const URIS: &[&str] = &[
        "sip:alice:pw@example.com:5060;transport=udp;lr;maddr=1.2.3.4?to=%3csip:x%3e&a=b",
        "sips:%61lice@[::1]",
        "tel:+1-201-555-0123;isub=12;ext=5;phone-context=+44",
        "tel:863-1234;phone-context=example.com",
        "urn:service:sos",
        "sip:h",
    ];
    t!(h "Uri", URIS, |s: &SmolStr| Uri::parse(s).ok());
    t!(h "SipUri", URIS, |s: &SmolStr| {
        let u = SipUri::parse(s).ok()?;
        walk_uri(&u);
        Some(Uri::Sip(u))
    });
    t!(h "TelUri", URIS, |s: &SmolStr| {
        let u = TelUri::parse(s).ok()?;
        let _ = sip_dns::tel_uri_to_enum_domain(&u);
        Some(u)
    });
    t!(h "Via", &["SIP/2.0/UDP pc33.atlanta.com:5060;branch=z9hG4bK776;rport=5;received=192.0.2.1;maddr=224.0.0.1;ttl=16", "SIP / 2.0 / TCP [::1]", "SIP/2.0/WSS df7.invalid;branch=\"q\";alias;keep=30"], |s: &SmolStr| ViaHeader::parse(s).ok());
    t!(h "parse_via_header", &["SIP/2.0/UDP pc33.atlanta.com:5060;branch=z9hG4bK776;rport;received=[::1]"], sip_parse::parse_via_header);
    t!(d "Contact", NA, sip_parse::parse_contact_header);
    t!(h "Route", NA, sip_parse::parse_route_header);
    t!(h "RouteHeader", NA, |s: &SmolStr| RouteHeader::parse(s).ok());
    t!(d "From", NA, sip_parse::parse_from_header);
    t!(d "To", NA, sip_parse::parse_to_header);
    t!(d "Call-Info", NA, sip_parse::parse_call_info_header);
    t!(h "Referred-By", &["<sip:r@ref.example>;cid=\"20398823.2UWQ@ref.example\"", "\"X\" <sip:a@b>;cid=1"], |s: &SmolStr| ReferredByHeader::parse(s).ok());
    t!(h "Replaces", &["425928@bobster.org;to-tag=7743;from-tag=6472;early-only", "a;from-tag=1;to-tag=2"], |s: &SmolStr| ReplacesHeader::parse(s).ok());
    t!(h "MimeType", &["multipart/mixed;boundary=\"a b\";charset=utf-8", "application/sdp", "text/plain; x=\"\\\"\""], |s: &SmolStr| MimeType::from_str(s).ok());
    t!(h "Allow", &["INVITE, ACK,BYE", "", "100rel, timer"], |s: &SmolStr| TokenList::parse(s).ok());
    t!(d "Allow2", &["INVITE, ACK"], |s: &SmolStr| Some((sip_parse::parse_allow_header(s), sip_parse::parse_supported_header(s))));
    t!(h "Authorization", &["Digest username=\"bob\", realm=\"bi, \\\"x\\\"\", nonce=\"dcd98\", uri=\"sip:b@c\", qop=auth, nc=00000001, cnonce=\"0a\", response=\"6629\", opaque=\"\", algorithm=MD5", "Bearer abc"], sip_parse::parse_authorization_header);
    t!(h "Proxy-Authorization", &["Digest a=b,c=\"d\""], sip_parse::parse_proxy_authorization_header);
    t!(h "Priority", &["emergency", "x-y"], |s: &SmolStr| Some(sip_parse::parse_priority_header(s)));
    t!(d "PriorityValue", &["urgent"], |s: &SmolStr| Some((PriorityValue::parse(s).ok(), PriorityValue::from_str(s).ok())));
    t!(h "Date", &["Sat, 13 Nov 2010 23:29:00 GMT", "Sun, 06 Nov 1994 08:49:37 GMT"], |s: &SmolStr| Some(sip_parse::parse_date_header(s)));
    t!(h "Subject", &["Need more boxes"], sip_parse::parse_subject_header);
    t!(h "RSeq", &["988789", "1"], sip_parse::parse_rseq_header);
    t!(h "RAck", &["776656 1 INVITE"], sip_parse::parse_rack_header);
    t!(d "RAck-dialog", &["776656 1 INVITE"], |s: &SmolStr| sip_dialog::prack_validator::RAck::parse(s).ok().map(|r| r.to_string()));
    t!(h "Session-Expires", &["4000;refresher=uac", "1800"], sip_parse::parse_session_expires);
    t!(h "Min-SE", &["90", "60;x=y"], sip_parse::parse_min_se);
    t!(h "Resource-Priority", &["wps.3, dsn.flash"], sip_parse::parse_resource_priority);
    t!(d "Event", &["presence;id=1;x=\"y\""], sip_parse::parse_event_header);
    t!(d "Subscription-State", &["active;expires=600;reason=x;retry-after=5", "terminated;reason=timeout"], sip_parse::parse_subscription_state);
    t!(h "Reason", &["Q.850;cause=16;text=\"Normal call clearing\", SIP;cause=600", "SIP ;cause=200 ;text=\"Call completed elsewhere\""], sip_parse::parse_reason_header);
    t!(h "SIP-ETag", &["dx200xyz"], sip_parse::parse_sip_etag);
    t!(h "SIP-If-Match", &["dx200xyz"], |s: &SmolStr| SipIfMatchHeader::parse(s).ok());
    t!(h "Refer-Sub", &["false", "true;x=y"], |s: &SmolStr| ReferSubHeader::parse(s));
    t!(d "History-Info", &["<sip:a@b?Reason=SIP%3Bcause%3D302>;index=1, <sip:c@d>;index=1.1;rc=1", "<sip:x@y>;index=1\u{1}<sip:z@w>;index=1.2.3"], |s: &SmolStr| sip_parse::parse_history_info(&one("History-Info", s)).ok());
    t!(d "Geolocation", &["<cid:target123@atlanta.example.com>, <sips:x@y>;inserted-by=\"z\""], |s: &SmolStr| sip_parse::parse_geolocation_header(&one("Geolocation", s)).ok());
    t!(d "Geolocation-Error", &["201 ;code=\"Permission To Retransmit\"", "100;reason=\"x;y\""], |s: &SmolStr| sip_parse::parse_geolocation_error(s).ok());
    t!(d "Geolocation-Routing", &["yes", "no;x=1"], |s: &SmolStr| sip_parse::parse_geolocation_routing(s).ok());
    t!(d "P-Access-Network-Info", &["3GPP-UTRAN-TDD; utran-cell-id-3gpp=\"234151D0FCE11\";x"], sip_parse::parse_p_access_network_info);
    t!(d "P-Visited-Network-ID", &["other.net, \"Visited network number 1\""], sip_parse::parse_p_visited_network_id);
    t!(d "P-Asserted-Identity", &["\"Cullen\" <sip:fluffy@cisco.com>, tel:+14085264000", "<sip:a@b>\u{1}<tel:+1>"], |s: &SmolStr| {
        let h = one("P-Asserted-Identity", s);
        Some((sip_parse::parse_p_asserted_identity(&h).ok(), sip_parse::parse_p_preferred_identity(&one("P-Preferred-Identity", s)).ok()))
    });
    t!(h "Security-Client", &["ipsec-3gpp; alg=hmac-sha-1-96; spi-c=1111; port-s=5064, tls;q=0.2", "digest;d-alg=MD5;d-qop=\"auth\""], |s: &SmolStr| {
        dbg(&(parse_security_server(s), parse_security_verify(s)));
        parse_security_client(s).ok()
    });
    t!(h "Service-Route", &["<sip:p1.home.net;lr>,<sip:p2.home.net;lr>"], |s: &SmolStr| {
        dbg(&sip_parse::parse_path(&one("Path", s)));
        dbg(&sip_parse::parse_route_headers(&one("Route", s), "Route"));
        dbg(&sip_parse::parse_call_info_headers(&one("Call-Info", s)));
        sip_parse::parse_service_route(&one("Service-Route", s)).ok()
    });
    t!(h "Privacy", &["id;critical", "header;session;user", "none"], |s: &SmolStr| {
        dbg(&parse_privacy_header(&one("Privacy", s)));
        PrivacyHeader::parse(s).ok()
    });
    t!(h "Request-Disposition", &["proxy, recurse, parallel, fork", "no-cancel"], |s: &SmolStr| RequestDisposition::parse(s));
    t!(d "AuthInfo", &["qop=auth, rspauth=\"6629\", cnonce=\"0a\", nc=00000001, nextnonce=\"x\""], |s: &SmolStr| sip_auth::AuthInfo::parse(s).map(|a| a.to_header_value()));
    t!(d "Identity", &["eyJhbGciOiJFUzI1NiIsIng1dSI6Imh0dHBzOi8vYyJ9.eyJhdHRlc3QiOiJBIiwiZGVzdCI6eyJ0biI6WyIxIl19LCJpYXQiOjEsIm9yaWciOnsidG4iOiIyIn19.AAAA;info=<https://c>;alg=ES256;ppt=\"shaken\""], |s: &SmolStr| {
        let h = sip_identity::IdentityHeader::parse(s).ok()?;
        let _ = h.passport.verify_signature(&[4; 65]);
        let _ = h.passport.verify_with_chain(s.as_bytes(), &[s.as_bytes()], &[s.as_bytes()], rustls_pki_types::UnixTime::since_unix_epoch(std::time::Duration::from_secs(1)));
        Some(h)
    });
    t!(d "tokens", &["INVITE", "SIP/2.0", "Q.850", "active", "open", "header"], |s: &SmolStr| {
        let _ = is_valid_branch(s);
        Some((
            (Method::from_token(s).ok().map(|m| m.to_string()), Method::from_str(s).ok(), SipVersion::parse(s).ok().map(|m| m.to_string()), SubscriptionState::from_str(s).ok(), BasicStatus::from_str(s).ok()),
            (WatcherStatus::from_str(s).ok(), WatcherEvent::from_str(s).ok(), ContactEvent::from_str(s).ok(), PrivacyValue::from_str(s).ok(), ReasonProtocol::from_str(s).ok(), RefresherRole::parse(s)),
            (FeatureTag::from_param_name(s), sip_auth::DigestAlgorithm::parse(s), sip_auth::Qop::parse(s), MessageContextClass::from_header_name(s), sip_identity::AttestationLevel::parse(s).ok()),
            (sip_core::rtp_avp::get_payload_type(s), sip_core::rtp_avp::get_payload_type_with_rate(s, 8000)),
            (sip_observe::TransportLabel::try_from(s.as_str()).is_ok(), sip_observe::StageLabel::try_from(s.as_str()).is_ok(), sip_observe::OpLabel::try_from(s.as_str()).is_ok()),
        ))
    });
    t!(d "FeatureValue", &["a,b,c", "<hello>", "#5.5", "TRUE", "=1:5", "#>=-1e308"], |s: &SmolStr| {
        let tags = [FeatureTag::Audio, FeatureTag::Class, FeatureTag::Methods, FeatureTag::Language, FeatureTag::Priority, FeatureTag::Description, FeatureTag::Events, FeatureTag::Mobility];
        let vals: Vec<_> = tags.iter().map(|t| FeatureValue::from_param_value(*t, Some(s)).ok()).collect();
        let mut m = std::collections::BTreeMap::new();
        m.insert(SmolStr::new("audio"), None);
        m.insert(SmolStr::new("methods"), Some(s.clone()));
        m.insert(SmolStr::new("description"), Some(s.clone()));
        let set = CapabilitySet::from_params(&m).ok();
        let out = set.as_ref().map(|x| (x.to_params().ok(), x.matches(x)));
        Some((vals, set, out))
    });
    t!(d "ENUM", &["!^.*$!sip:info@example.com!", "!^\\+1(.*)$!sip:\\1@e.com!i", "|a|b|"], |s: &SmolStr| {
        let mk = |f: &str, sv: &str| sip_dns::EnumNaptrRecord::new(10, 20, f, sv, s.as_str(), ".");
        let mut l = vec![mk("u", "E2U+sip"), mk("U", "sip+E2U"), mk(s, s)];
        sip_dns::sort_enum_records(&mut l);
        Some((l.iter().map(|r| (r.extract_uri(), r.is_sip_service(), r.is_terminal())).collect::<Vec<_>>(), sip_dns::select_best_sip_record(&l).is_some(), sip_dns::enum_to_domain(s)))
    });
    t!(d "header-names", &["Via", "v", "X-Custom"], |s: &SmolStr| {
        let mut h = Headers::new();
        let a = h.push(s.as_str(), s.as_str()).is_ok();
        let b = h.push("Contact", s.as_str()).is_ok();
        let c = h.push("Max-Forwards", s.as_str()).is_ok();
        let _ = decrement_max_forwards(&mut h);
        let _ = PrivacyHeader::parse("id;header;session;user").map(|p| enforce_privacy(&mut h, &p).is_ok());
        Some((a, b, c, h))
    });
    const SDP: &[&str] = &[
        "v=0\r\no=- 2890844526 2890842807 IN IP4 10.47.16.5\r\ns=S\r\ni=info\r\nu=http://e\r\ne=a@b\r\np=+1\r\nc=IN IP4 224.2.17.12/127/3\r\nb=CT:1000\r\nt=2873397496 2873404696\r\nr=7d 1h 0 25h\r\nz=2882844526 -1h 2898848070 0\r\nk=prompt\r\na=group:BUNDLE a v\r\na=recvonly\r\nm=audio 49170/2 RTP/AVP 0 8 96\r\ni=t\r\nc=IN IP6 ff15::1\r\nb=AS:5\r\nk=base64:YQ==\r\na=mid:a\r\na=rtpmap:96 opus/48000/2\r\na=fmtp:96 a=1;b=2\r\na=ptime:20\r\na=rtcp:53020 IN IP4 1.2.3.4\r\na=curr:qos local none\r\na=des:qos mandatory local sendrecv\r\na=conf:qos remote recv\r\na=candidate:1 1 UDP 2130706431 10.0.1.1 8998 typ srflx raddr 10.0.0.1 rport 1\r\na=fingerprint:sha-256 AA:BB\r\na=setup:actpass\r\na=ssrc:1234 cname:x\r\na=sqn: 0\r\na=cdsc: 1 audio RTP/AVP 0 18\r\na=cpar: a=fmtp:96 x\r\nm=video 0 RTP/SAVPF 97\r\na=mid:v\r\n",
        "v=0\no=a 1 1 IN IP6 ::1\ns= \nt=0 0\nm=audio 5 RTP/AVP 0\n",
        "v=0\r\no=x 0 18446744073709551615 IN IP4 h.example\r\ns=-\r\nc=IN IP4 1.1.1.1\r\nt=0 0\r\nm=image 9 udptl t38\r\na=sendonly\r\n",
    ];
    t!(b "SdpSession", SDP, |s: &SmolStr| {
        let x = SdpSession::parse(s).ok()?;
        walk_sdp(&x);
        Some(x)
    });
    t!(b "sip-sdp", SDP, |s: &SmolStr| {
        let x = sip_sdp::SessionDescription::parse(s).ok()?;
        walk_sdp2(&x);
        Some(x)
    });
    t!(d "sdp-values", &["96 opus/48000/2", "53020 IN IP6 ::1", "BUNDLE a b", "1 audio RTP/AVP 0", "qos local none", "qos mandatory e2e sendrecv"], |s: &SmolStr| {
        use sip_core::sdp;
        Some((
            (sdp::RtpMap::parse(s).map(|r| r.to_value()), sdp::Fmtp::parse(s).map(|f| f.to_value()), RtcpAttribute::parse(s).ok().map(|r| r.to_string()), MediaGroup::parse(s).ok().map(|g| g.to_string()), CapabilityDescription::parse(s).ok().map(|g| g.to_string())),
            (CurrentStatus::parse(s).ok().map(|g| g.to_string()), DesiredStatus::parse(s).ok().map(|g| g.to_string()), ConfirmStatus::parse(s).ok().map(|g| g.to_string()), BandwidthType::parse(s).to_string(), sdp::Direction::parse(s)),
            (sip_sdp::Direction::from_token(s), sip_sdp::Setup::from_token(s)),
        ))
    });
    const PIDF: &[&str] = &["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<presence xmlns=\"urn:ietf:params:xml:ns:pidf\" entity=\"pres:s@example.com\">\r\n<tuple id=\"bs35r9\">\r\n<status><basic>open</basic></status>\r\n<contact priority=\"0.8\">im:s@mobile.net</contact>\r\n<note xml:lang=\"en\">Don't &amp; &#x41; <![CDATA[x]]></note>\r\n<timestamp>2001-10-27T16:49:29Z</timestamp>\r\n</tuple>\r\n<note>all</note>\r\n<!-- c -->\r\n</presence>"];
    t!(b "PIDF", PIDF, |s: &SmolStr| parse_pidf(s).ok());
    t!(b "watcherinfo", &["<?xml version=\"1.0\"?>\r\n<watcherinfo xmlns=\"urn:ietf:params:xml:ns:watcherinfo\" version=\"0\" state=\"full\">\r\n<watcher-list resource=\"sip:p@e.com\" package=\"presence\">\r\n<watcher id=\"77ajsyy76\" status=\"pending\" event=\"subscribe\" display-name=\"a&lt;\" expiration=\"5\" duration-subscribed=\"5\">sip:A@e.com</watcher>\r\n</watcher-list>\r\n</watcherinfo>"], |s: &SmolStr| parse_watcherinfo(s).ok());
    t!(b "message-summary", &["Messages-Waiting: yes\r\nMessage-Account: sip:alice@vmail.example.com\r\nVoice-Message: 4/8 (1/2)\r\nFax-Message: 1/0\r\n\r\nTo: <alice@x>\r\nFrom: <b>\r\nSubject: s\r\nDate: 1\r\nPriority: urgent\r\n\r\n"], |s: &SmolStr| parse_message_summary(s).ok());
    t!(b "CPIM", &["Content-type: Message/CPIM\r\n\r\nFrom: MR SANDERS <im:piglet@100akerwood.com>\r\nTo: Depressed Donkey <im:eeyore@100akerwood.com>\r\nDateTime: 2000-12-13T13:40:00-08:00\r\nSubject:;lang=fr beau temps pr\u{e9}vu\r\nNS: MyFeatures <mid:MessageFeatures@id.foo.com>\r\nMyFeatures.Vital: Confirm\\nx\r\n\r\nContent-type: text/xml; charset=utf-8\r\nContent-ID: <1234567890@foo.com>\r\n\r\n<body>x</body>"], |s: &SmolStr| parse_cpim(s).ok().and_then(|c| c.to_string().ok()));
    // whole messages
    fn rq(b: &Bytes) -> Option<Request> {
        let a = sip_parse::parse_request(b);
        if let Some(r) = &a {
            walk_req(r);
            let w = sip_parse::serialize_request(r);
            let _ = sip_parse::parse_request(&w);
        }
        let _ = sip_parse::parse_request_strict(b);
        a
    }
    fn rs(b: &Bytes) -> Option<Response> {
        let a = sip_parse::parse_response(b);
        if let Some(r) = &a {
            dbg(r);
            let _ = sip_dialog::DialogId::from_response_uac(r);
            let _ = sip_dialog::DialogId::from_response_uas(r);
            if let Ok(f) = SipFrag::from_response(r.clone()) {
                std::hint::black_box(f.to_string());
            }
            let w = sip_parse::serialize_response(r);
            let _ = sip_parse::parse_response(&w);
        }
        let _ = sip_parse::parse_response_strict(b);
        a
    }
    const RQ: &[&[u8]] = &[
        b"INVITE sip:bob@biloxi.com SIP/2.0\r\nVia: SIP/2.0/UDP pc33.atlanta.com;branch=z9hG4bK776asdhds\r\nMax-Forwards: 70\r\nTo: Bob <sip:bob@biloxi.com>\r\nFrom: Alice <sip:alice@atlanta.com>;tag=1928301774\r\nCall-ID: a84b4c76e66710@pc33.atlanta.com\r\nCSeq: 314159 INVITE\r\nContact: <sip:alice@pc33.atlanta.com>\r\nPrivacy: id;header\r\nP-Asserted-Identity: <sip:a@b>\r\nSession-Expires: 1800;refresher=uas\r\nSupported: 100rel,\r\n timer\r\nContent-Type: application/sdp\r\nContent-Length: 4\r\n\r\nabcd",
        b"REGISTER sip:r.com SIP/2.0\r\nv: SIP/2.0/TCP h;branch=z9hG4bKx\r\nt: <sip:a@r.com>\r\nf: <sip:a@r.com>;tag=1\r\ni: 1\r\nCSeq: 1 REGISTER\r\nm: *\r\nExpires: 0\r\nAuthorization: Digest username=\"bob\", realm=\"b\", nonce=\"d\", uri=\"sip:b\", response=\"6\"\r\nl: 0\r\n\r\n",
    ];
    const RS: &[&[u8]] = &[b"SIP/2.0 180 Ringing\r\nVia: SIP/2.0/UDP a;branch=z9hG4bKx;received=1.2.3.4\r\nTo: <sip:b@c>;tag=9\r\nFrom: <sip:a@b>;tag=1\r\nCall-ID: x\r\nCSeq: 1 INVITE\r\nRequire: 100rel\r\nRSeq: 5\r\nContact: <sip:b@d>\r\nRecord-Route: <sip:p;lr>, <sip:q;lr>\r\nContent-Length: 0\r\n\r\n", b"SIP/2.0 401 \r\nWWW-Authenticate: Digest realm=\"a\", nonce=\"b\", qop=\"auth,auth-int\"\r\nCSeq: 1 REGISTER\r\n\r\n"];
    t!(o "request", RQ, |b: &[u8]| rq(&Bytes::copy_from_slice(b)));
    t!(o "response", RS, |b: &[u8]| rs(&Bytes::copy_from_slice(b)));
    const REST: &[&[u8]] = &[];
    t!(o "dialog", REST, |b: &[u8]| {
        // request and response out of one input, as a UAC, a UAS and a proxy would look at them
        let at = b.iter().position(|c| *c == 1).unwrap_or(b.len() / 2);
        let q = rq(&Bytes::copy_from_slice(&b[..at]))?;
        let p = rs(&Bytes::copy_from_slice(b.get(at + 1..)?))?;
        let l = SipUri::parse("sip:me@h").unwrap();
        let r = SipUri::parse("sip:you@h").unwrap();
        for uac in [true, false] {
            let d = if uac { sip_dialog::Dialog::new_uac(&q, &p, l.clone(), r.clone()) } else { sip_dialog::Dialog::new_uas(&q, &p, l.clone(), r.clone()) };
            if let Some(mut d) = d {
                let _ = d.update_from_request(&q);
                d.update_from_response(&p);
                dbg(&d);
            }
        }
        let _ = sip_dialog::SubscriptionId::from_request_response(&q, &p);
        Some((q, p))
    });
    t!(o "dhcp", &[&b"\x01\x0a\x00\x00\x01"[..], &b"\x00\x07example\x03com\x00"[..], &b"\x00\x03a.b\x00\xc0\x01"[..]], |b: &[u8]| {
        Some((sip_dns::parse_dhcp_option_120(b).is_ok(), sip_dns::parse_dhcp_option_150(b).is_ok(), sip_dns::parse_dhcp_option_66(b).is_ok()))
    });
    if let Some(d) = v.iter_mut().find(|t| t.name == "dialog") {
        d.seeds = RQ.iter().flat_map(|q| RS.iter().map(move |p| [q, &b"\x01"[..], p].concat())).collect();
    }
    v
}

fn inflate(s: &mut Src, b: &mut Vec<u8>) {
    // a piece many times over: deep nesting, long lists, long tokens
    if b.is_empty() {
        b.push(b'a');
    }
    let (i, at) = (s.idx(b.len()), s.idx(b.len() + 1));
    let k = s.urange(1, 6).min(b.len() - i);
    let piece = if s.coin() { b[i..i + k].to_vec() } else { s.pick(&["<", "(", "\"", "<a>", ";a=b", ",", "\\", "[", "%", "a=b:c\r\n", "9", "a", "\u{e9}", " ", "<!--", "&", "sip:", "."]).as_bytes().to_vec() };
    let n = *s.pick(&[2usize, 17, 51, 65, 129, 257, 300, 1025, 2049, 5000]);
    let blob: Vec<u8> = piece.iter().copied().cycle().take(n * piece.len()).collect();
    b.splice(at..at, blob);
}
/// Runs of digits replaced by boundary values.
fn numbers(s: &mut Src, b: &mut Vec<u8>) {
    let mut runs: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < b.len() {
        let j = i + b[i..].iter().take_while(|c| c.is_ascii_digit()).count();
        if j > i {
            runs.push((i, j));
        }
        i = j + 1;
    }
    for _ in 0..s.urange(1, 2) {
        if runs.is_empty() {
            return;
        }
        let (i, j) = runs.remove(s.idx(runs.len()));
        let n = *s.pick(&["0", "00", "1", "-1", "127", "128", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "1e9", "NaN", "inf", "0.5", "1.0000000001", "+1", "\u{661}", "\u{b2}"]);
        b.splice(i..j, n.bytes());
        let d = n.len() as isize - (j - i) as isize;
        for r in &mut runs {
            if r.0 >= j {
                *r = ((r.0 as isize + d) as usize, (r.1 as isize + d) as usize);
            }
        }
    }
}
fn fuzz(s: &mut Src, ctx: &mut Ctx) -> R {
    let ts = targets();
    let mut t = &ts[s.idx(ts.len())];
    if s.chance(1, 3) {
        // the ones with the most code behind them
        let n = *s.pick(&["SdpSession", "sip-sdp", "request", "response", "dialog", "PIDF", "watcherinfo", "CPIM", "message-summary", "SipUri", "TelUri", "Authorization"]);
        t = ts.iter().find(|t| t.name == n).unwrap();
    }
    let mut b: Vec<u8> = match s.weighted(&[10, 2, 1, 1, 1]) {
        0 => s.pick(&t.seeds).clone(),
        1 => {
            let o = &ts[s.idx(ts.len())];
            s.pick(&o.seeds).clone()
        }
        2 => nasty(s, 0, 40).into_bytes(),
        3 => bytes(s, 0, 60),
        _ => match s.urange(0, 3) {
            0 => g::name_addr(s),
            1 => g::via(s),
            2 => g::any_uri(s),
            _ => text(s, 0, 60),
        }
        .into_bytes(),
    };
    if s.chance(1, 3) {
        numbers(s, &mut b);
    }
    if s.chance(4, 5) {
        let ops = *s.pick(&[1, 1, 2, 8]);
        b = mutate(s, &b, ops);
    }
    if s.chance(1, 4) && !b.is_empty() {
        // splice with another seed
        let o = if s.chance(3, 4) { t } else { &ts[s.idx(ts.len())] };
        let x = s.pick(&o.seeds);
        if !x.is_empty() {
            let cut = s.idx(b.len() + 1);
            b.truncate(cut);
            let from = s.idx(x.len());
            b.extend(&x[from..]);
        }
    }
    if s.chance(1, 8) {
        inflate(s, &mut b);
    }
    ctx.desc(|| format!("{}: {:?}", t.name, String::from_utf8_lossy(&b)));
    let start = Instant::now();
    let shown = no_panic("fuzz:panic", || (t.run)(&b)).map_err(|f| Fail { sig: format!("panic:{}", t.name), msg: f.msg })?;
    let took = start.elapsed();
    ensure!(took.as_secs() < 20, format!("slow:{}", t.name), "{took:?} for {} octets", b.len());
    if let Some(sh) = shown {
        ctx.label(t.name);
        ctx.nontrivial(&(t.name, &b));
        if let Some(txt) = sh.text {
            // (a header value cannot contain line breaks; decoding must not bring them in)
            if sh.header && !b.iter().any(|c| matches!(c, b'\r' | b'\n' | 0)) {
                ensure!(!txt.contains(['\r', '\n', '\0']), format!("lines:{}", t.name), "prints {txt:?}");
            }
            no_panic("fuzz:reparse", || (t.run)(txt.as_bytes())).map_err(|f| Fail { sig: format!("panic:{}", t.name), msg: f.msg })?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- documented limits

fn rep(c: &str, n: usize) -> String {
    c.repeat(n)
}
type Limit = (&'static str, usize, bool, fn(usize) -> bool);
/// (what, limit, whether the limit itself is accepted, parser on an input of that size)
fn limits_table() -> Vec<Limit> {
    fn msg(extra: &str, body: usize) -> Bytes {
        Bytes::from(format!("OPTIONS sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nTo: <sip:a@b>\r\nFrom: <sip:c@d>;tag=1\r\nCall-ID: 1\r\nCSeq: 1 OPTIONS\r\n{extra}Content-Length: {body}\r\n\r\n{}", rep("x", body)))
    }
    vec![
        ("uri", 2048, false, |n| SipUri::parse(&format!("sip:{}@{}", rep("a", 200), rep("b", n - 205))).is_ok()),
        ("uri-user", 256, true, |n| SipUri::parse(&format!("sip:{}@h", rep("a", n))).is_ok()),
        ("uri-host", 256, false, |n| SipUri::parse(&format!("sip:u@{}", rep("h.", n / 2) + if n % 2 == 1 { "h" } else { "" })).is_ok()),
        ("uri-params", 50, true, |n| SipUri::parse(&format!("sip:u@h{}", (0..n).map(|i| format!(";p{i}")).collect::<String>())).is_ok()),
        ("uri-param-name", 64, true, |n| SipUri::parse(&format!("sip:u@h;{}=1", rep("p", n))).is_ok()),
        ("uri-param-value", 256, true, |n| SipUri::parse(&format!("sip:u@h;p={}", rep("p", n))).is_ok()),
        ("uri-headers", 50, true, |n| SipUri::parse(&format!("sip:u@h?{}", (0..n).map(|i| format!("p{i}=1")).collect::<Vec<_>>().join("&"))).is_ok()),
        ("uri-header-name", 64, true, |n| SipUri::parse(&format!("sip:u@h?{}=1", rep("p", n))).is_ok()),
        ("uri-header-value", 512, true, |n| SipUri::parse(&format!("sip:u@h?p={}", rep("p", n))).is_ok()),
        ("tel-number", 64, true, |n| TelUri::parse(&format!("tel:+{}", rep("1", n - 1))).is_ok()),
        ("tel-params", 20, false, |n| TelUri::parse(&format!("tel:+1{}", (0..n).map(|i| format!(";p{i}=1")).collect::<String>())).is_ok()),
        ("header-name", 128, true, |n| sip_parse::parse_request(&msg(&format!("{}: 1\r\n", rep("X", n)), 0)).is_some()),
        ("header-value", 8192, true, |n| sip_parse::parse_request(&msg(&format!("X: {}\r\n", rep("y", n)), 0)).is_some()),
        ("header-count", 200, true, |n| sip_parse::parse_request(&msg(&(0..n - 6).map(|i| format!("X-{i}: 1\r\n")).collect::<String>(), 0)).is_some()),
        ("message-size", 70000, true, |n| {
            // (the length of the Content-Length value varies: the rest is padding in a header)
            let body = n - 1000;
            let pad = n - msg("X: \r\n", body).len();
            let m = msg(&format!("X: {}\r\n", rep("y", pad)), body);
            assert_eq!(m.len(), n);
            sip_parse::parse_request_with_limit(&m, 70000).is_some()
        }),
        ("method", 32, true, |n| Method::from_token(&rep("A", n)).is_ok()),
        ("tokens", 50, true, |n| TokenList::parse(&(0..n).map(|i| format!("t{i}")).collect::<Vec<_>>().join(",")).is_ok()),
        ("token", 64, true, |n| TokenList::parse(&rep("t", n)).is_ok()),
        ("via-params", 20, false, |n| ViaHeader::parse(&format!("SIP/2.0/UDP h{}", (0..n).map(|i| format!(";p{i}")).collect::<String>())).is_ok()),
        ("via-param-value", 256, true, |n| ViaHeader::parse(&format!("SIP/2.0/UDP h;x={}", rep("v", n))).is_ok()),
        ("mime-type", 64, true, |n| MimeType::from_str(&format!("{}/x", rep("t", n))).is_ok()),
        ("mime-params", 20, true, |n| MimeType::from_str(&format!("a/b{}", (0..n).map(|i| format!(";p{i}=1")).collect::<String>())).is_ok()),
        ("subject", 256, true, |n| SubjectHeader::parse(&rep("s", n)).is_ok()),
        ("etag", 128, true, |n| SipETagHeader::parse(&rep("s", n)).is_ok()),
        ("pidf", 1 << 20, false, |n| parse_pidf(&format!("<presence xmlns=\"urn:ietf:params:xml:ns:pidf\" entity=\"pres:a@b\"><!--{}--></presence>", rep("x", n - 60))).is_ok()),
        ("summary", 100 * 1024, false, |n| parse_message_summary(&format!("Messages-Waiting: yes\r\n{}", rep("\r\n", n / 2))).is_ok()),
        ("identity", 8192, false, |n| sip_identity::IdentityHeader::parse(&format!("eyJhbGciOiJFUzI1NiIsIng1dSI6Imh0dHBzOi8vYyJ9.eyJhdHRlc3QiOiJBIiwiZGVzdCI6eyJ0biI6WyIxIl19LCJpYXQiOjEsIm9yaWciOnsidG4iOiIyIn19.AAAA;x={}", rep("y", n))).is_ok()),
        ("privacy", 256, false, |n| PrivacyHeader::parse(&format!("id{}", rep(" ", n))).is_ok()),
        ("reason", 1024, false, |n| sip_core::reason::parse_reason_from_string(&format!("SIP;cause=200{}", rep(" ", n))).is_ok()),
        ("replaces", 1024, false, |n| ReplacesHeader::parse(&format!("a;from-tag=1;to-tag=2{}", rep(" ", n))).is_ok()),
        ("dhcp-name", 253, false, |n| {
            let mut b = vec![0];
            let mut left = n + 1;
            while left > 0 {
                let l = left.min(50).max(2) - 1;
                b.push(l as u8);
                b.extend(vec![b'a'; l]);
                left = left.saturating_sub(l + 1);
            }
            b.push(0);
            sip_dns::parse_dhcp_option_120(&b).is_ok()
        }),
        ("core-sdp-media", 50, true, |n| SdpSession::parse(&format!("v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nc=IN IP4 1.1.1.1\r\nt=0 0\r\n{}", rep("m=audio 1 RTP/AVP 0\r\n", n))).is_ok()),
        ("core-sdp-attrs", 100, true, |n| SdpSession::parse(&format!("v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\n{}", rep("a=x:1\r\n", n))).is_ok()),
        ("core-sdp-formats", 128, true, |n| SdpSession::parse(&format!("v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nc=IN IP4 1.1.1.1\r\nt=0 0\r\nm=audio 1 RTP/AVP{}\r\n", (0..n).map(|i| format!(" {}", i % 128)).collect::<String>())).is_ok()),
        ("core-sdp-attr-value", 4096, true, |n| SdpSession::parse(&format!("v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\na=x:{}\r\n", rep("y", n))).is_ok()),
        ("core-sdp-name", 1024, true, |n| SdpSession::parse(&format!("v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns={}\r\nt=0 0\r\n", rep("y", n))).is_ok()),
    ]
}
fn limits(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = limits_table();
    let (name, lim, at_ok, f) = t[s.idx(t.len())];
    let over = s.weighted(&[3, 1]) > 0;
    let n = if s.coin() {
        lim + if over { s.urange(1, lim.min(100_000)) } else { *s.pick(&[1usize, 2, 3]) }
    } else if at_ok {
        if over { s.urange(lim - lim / 8, lim) } else { lim }
    } else {
        return Ok(());
    };
    ctx.desc(|| format!("{name}: size {n} of {lim}"));
    ctx.nontrivial(&(name, n));
    let ok = no_panic("limits:panic", || f(n))?;
    ctx.label(if n > lim { "beyond" } else { "within" });
    ensure_eq!(ok, n <= lim, format!("limit:{name}"), "size {n}, limit {lim}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        rule: "mutated, spliced, inflated or random octets given to one of the parsing entry points and accepted by it, its value then printed, re-parsed and used; or a size-limit probe; keyed by entry point and input",
        assumptions: &["arithmetic overflow counts as a panic (overflow checks on)", "20 seconds for one input counts as hanging"],
        units: vec![unit!("fuzz", 2500000, 80000000, fuzz), unit!("limits", 4000, 40000, limits)],
    }]
}
