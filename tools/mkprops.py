#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (edit here, then run)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","SIP messages survive serialization and parsing unchanged",
 "Serializing any request or response built through the public API and parsing the bytes again yields the same start line (method, Request-URI, status, reason), the same header fields with the same values in the same order, and the same body bytes; the emitted Content-Length is always the exact body length, and a request that lacked Max-Forwards gets 70. Equivalent wire spellings (compact header names, any header-name case, whitespace around the colon and value) all parse to the same message.",
 ["inputs"],"every message the API can build (methods, URIs, up to the header limits, arbitrary binary bodies) and every equivalent spelling of it",
 "Unit tests check a handful of fixed messages; order, duplicates, binary bodies, folding and compact spellings combine without bound.",
 ["crates/sip-parse/src/lib.rs","crates/sip-core/src/msg.rs","crates/sip-core/src/headers.rs"],
 [("serialize_request/serialize_response","crates/sip-parse/src/lib.rs"),("parse_request/parse_response","crates/sip-parse/src/lib.rs"),("canonical header names","crates/sip-parse/src/lib.rs")],
 ["sip_parse::parse_request","sip_parse::serialize_request"])
p("C02","The message parser accepts exactly well-formed, unambiguous datagrams",
 "A request or response is accepted only if its start line, header lines and framing are well-formed: version SIP/2.0, status 100-699, no duplicate or conflicting Call-ID, CSeq, From, To, Max-Forwards or Content-Length, a CSeq of 1..2^31-1 whose method matches the request, in a request a valid top Via branch, no folded lines, header count and sizes within the documented limits, and at least Content-Length bytes after the head (exactly as many in strict mode); the body is then exactly those Content-Length bytes. Every datagram meeting these rules is accepted.",
 ["inputs"],"all byte strings, in particular near-valid messages one or two edits from valid",
 "Tests hold a few dozen malformed samples; acceptance must agree with the rules on every mutation of every message.",
 ["crates/sip-parse/src/lib.rs"],
 [("header folding and count limits","crates/sip-parse/src/lib.rs"),("validate_* of start line, singletons, CSeq, Via, Content-Length","crates/sip-parse/src/lib.rs")],
 ["sip_parse::parse_request","sip_parse::parse_request_strict","sip_parse::parse_response"])
p("C03","No input makes a parser panic, and accepted values print cleanly",
 "Every public parsing or decoding entry point (messages, typed headers, URIs, SDP, XML and text event bodies, CPIM, MIME, sipfrag, DHCP options, NAPTR/ENUM rewrite rules, PASSporTs, credentials) returns a value or an error for any input, never panicking or overflowing, and a value it accepts can be displayed, compared and re-parsed without panicking. Inputs past the documented size limits are rejected rather than processed.",
 ["inputs"],"all byte and character strings, including non-ASCII text, control characters, huge numbers, deep nesting and truncations",
 "Panics hide in slicing and arithmetic on inputs nobody wrote a test for (multi-byte boundaries, overflowed numbers, unbalanced quotes).",
 ["crates/sip-core/src","crates/sip-parse/src","crates/sip-sdp/src","crates/sip-dns/src","crates/sip-identity/src"],
 [("size limits and checked slicing in each parser","crates/*/src")])
p("C04","API-built messages and values cannot smuggle extra structure",
 "Whatever strings a caller passes to the public constructors and setters (header names and values, reason phrases, URI users, hosts and parameters, display names, tags, tokens, SDP and body fields), the constructor either refuses them or the serialized output parses back to exactly the fields that were put in: no additional header line, header parameter, URI parameter, SDP line or XML element appears, and none disappears.",
 ["inputs"],"all strings for all public constructors, in particular ones carrying CR, LF, NUL, quotes, separators, brackets and percent signs",
 "Tests try CRLF in some setters; the guarantee is over every constructor and every delimiter.",
 ["crates/sip-core/src","crates/sip-sdp/src","crates/sip-parse/src/lib.rs"],
 [("character validation in constructors","crates/sip-core/src"),("quoting and escaping in Display","crates/sip-core/src")])
p("C05","SIP URIs parse, print, edit and resolve defaults coherently",
 "Parsing a valid SIP/SIPS URI exposes exactly its scheme, user part, host, port, parameters and headers (percent-decoding applied where documented, case-insensitive where RFC 3261 says so), printing and re-parsing it yields an equal URI, and malformed URIs are rejected. Each with_/without_ edit changes exactly the named component: every other component reads back unchanged and the edited URI re-parses to itself.",
 ["inputs","histories"],"all URIs of the RFC 3261 grammar plus near-misses, and all sequences of edits on them",
 "Tests use short hand-written URIs without combining escapes, IPv6, passwords, flag parameters and headers, and never compose edits.",
 ["crates/sip-core/src/uri.rs"],[("SipUri::parse","crates/sip-core/src/uri.rs"),("raw URI rebuilding on edit","crates/sip-core/src/uri.rs")])
p("C06","tel URIs keep number, scope and parameters",
 "Parsing a valid tel URI exposes its number, global/local scope, context, extension, isub and other parameters, and printing and re-parsing gives an equal URI; invalid numbers or a local number without phone-context are rejected. Normalization removes only visual separators, and each with_* edit changes exactly the component it names, or is refused when the result would not be a valid tel URI.",
 ["inputs"],"all tel URIs of the RFC 3966 grammar and near-misses","Tests use a few sample numbers.",
 ["crates/sip-core/src/tel_uri.rs"],[("TelUri::parse and Display","crates/sip-core/src/tel_uri.rs")])
p("C07","Typed SIP header values round-trip and read back exactly what was set",
 "For every typed header (Via, address headers, Contact, Route, CSeq, Event, Subscription-State, Allow/Supported lists, Session-Expires, Min-SE, RSeq, RAck, Replaces, Referred-By, Refer-Sub, Reason, Privacy, History-Info, Geolocation, P-headers, Resource-Priority, Security-*, Authorization and challenges, Date, MIME types, Accept-Contact and feature tags, SIP-ETag), formatting a value and parsing it back gives an equal value with every component and parameter intact, and parsing a well-formed wire value exposes exactly its components in order. Malformed values, out-of-range numbers and duplicated parameters that the type forbids are rejected.",
 ["inputs"],"all values each type can hold and all wire spellings of them (quoting, escapes, whitespace, parameter order, case)",
 "Each header has a few example tests; combinations of quoting, parameters, lists and case are unbounded.",
 ["crates/sip-core/src","crates/sip-parse/src/header_values.rs"],[("parse/Display pairs of each header type","crates/sip-core/src"),("header value parsers","crates/sip-parse/src/header_values.rs")])
p("C08","Event-package and instant-message bodies round-trip with their content intact",
 "A presence (PIDF), registration-event, watcher-info, message-summary, CPIM or sipfrag document built through the API and parsed back yields the same identifiers, states, versions, counts, notes, headers and content, including any character that needs XML or text escaping. A well-formed document from another implementation (other prefixes, attribute order, quotes, entities, whitespace) is read to the same values.",
 ["inputs"],"all documents the builders can create with arbitrary text content","Tests print fixed documents and check substrings; escaping and ordering hold only for the sampled text.",
 ["crates/sip-core/src/presence.rs","crates/sip-core/src/reg_event.rs","crates/sip-core/src/watcher_info.rs","crates/sip-core/src/message_waiting.rs","crates/sip-core/src/cpim.rs","crates/sip-core/src/sipfrag.rs"],
 [("to_xml/Display and parse of each body type","crates/sip-core/src")])
p("C09","SDP session descriptions survive parse and serialize with every line intact",
 "For every well-formed SDP session description, parsing then serializing then parsing gives an equal description: origin, session name, connection, bandwidth, timing, attributes and media sections (port, count, protocol, formats, attributes) keep their values and order, at the right level. Serialized SDP is valid (mandatory lines present, in RFC 8866 order, CRLF-terminated), and descriptions missing mandatory lines or with out-of-range values are rejected.",
 ["inputs"],"all session descriptions of the RFC 8866 grammar the library models, for both SDP implementations","Tests cover a few sample sessions; level placement and ordering break only for particular combinations of lines.",
 ["crates/sip-sdp/src/parse.rs","crates/sip-sdp/src/serialize.rs","crates/sip-sdp/src/attrs.rs","crates/sip-core/src/sdp.rs"],
 [("parser and serializer","crates/sip-sdp/src"),("SdpSession","crates/sip-core/src/sdp.rs")])
p("C10","SDP answers obey the offer/answer rules of RFC 3264",
 "For every offer and every local capability set, a produced answer has exactly one media section per offered section in the same order and of the same media type and transport, accepts only payload formats present in the offer and supported locally, mirrors direction compatibly (never sending where the offer will not receive, nor the reverse), and rejects with port zero exactly the sections it cannot accept or that were offered with port zero. Negotiation fails with an error instead of producing an answer that violates these rules.",
 ["inputs","configurations"],"all offers and all local media configurations","Tests negotiate a few audio/video pairs; codec order, directions, dynamic payload maps, rejected sections and clock rates combine without bound.",
 ["crates/sip-sdp/src/negotiate.rs","crates/sip-core/src/sdp_offer_answer.rs","crates/sip-core/src/rtp_avp.rs"],
 [("negotiate_answer","crates/sip-sdp/src/negotiate.rs"),("OfferAnswerEngine","crates/sip-core/src/sdp_offer_answer.rs")])
p("C11","Digest authentication accepts exactly a correct, fresh response",
 "A response computed by the client from the server's own challenge with the right username and password is accepted for every algorithm (MD5, SHA-256, SHA-512), qop (none, auth, auth-int), realm, method, URI and body; changing the password, username, realm, method, URI, nonce, nonce-count, cnonce, qop, response or (for auth-int) body makes verification fail. No request lacking valid credentials is ever accepted, whatever its Authorization header contains; the challenge it gets is a well-formed 401/407 copying the request's whole Via stack, From, Call-ID and CSeq, and its To with a tag.",
 ["inputs","configurations"],"all credential sets, server configurations, methods, URIs and bodies, and all single alterations of a valid request","Tests authenticate a few fixed users and a few tamperings.",
 ["crates/sip-auth/src/lib.rs"],[("DigestAuthenticator::verify","crates/sip-auth/src/lib.rs"),("DigestClient","crates/sip-auth/src/lib.rs")])
p("C12","Nonces are single-issue, expire, and each nonce-count is usable once",
 "Over any sequence of challenges, authentications, replays and clock advances, a nonce is honoured only if this server issued it and it has not expired; per nonce and client a nonce-count is accepted only if greater than the last accepted (by at most 1000), and again only for an identical request (same method, URI and body) within the configured maximum request age; a failed authentication never consumes a legitimate client's nonce-count. Stale nonces are answered with a fresh challenge marked stale, and tracked nonces stay within the configured bound.",
 ["histories","inputs"],"all interleavings of challenge, valid request, replayed request, forged request and clock advance","Replay and expiry state depends on the history; tests run two or three steps.",
 ["crates/sip-auth/src/lib.rs"],[("NonceManager","crates/sip-auth/src/lib.rs"),("replay tracking","crates/sip-auth/src/lib.rs")])
p("C13","The rate limiter enforces its configured budget per key over any history",
 "Over any sequence of requests and clock advances, a key is never allowed more than its burst plus the tokens its configured rate has refilled, is never refused while it has budget, and keys do not affect each other; the reported remaining budget and retry-after agree with that. Cleanup with default settings and capacity limits never give a key more budget than its rate allows, and the number of tracked keys stays within the documented capacity (beyond it, new keys are refused).",
 ["histories","configurations"],"all configurations and all sequences of check, reset, cleanup and time advance over many keys","Behaviour depends on timing history; tests sleep a few times with one or two keys.",
 ["crates/sip-ratelimit/src/lib.rs"],[("token bucket","crates/sip-ratelimit/src/lib.rs")])
p("C14","The registrar's bindings follow RFC 3261 over any REGISTER history",
 "After any sequence of REGISTER requests, removals, wildcard removals, lapses of time and cleanups, the bindings of each address-of-record, as returned in 200 responses and by location lookups, are exactly the contacts registered and not yet expired or removed, each with its latest attributes (expiry, q, instance, path); requests with a CSeq not higher than the stored one for the same Call-ID never change a binding. A rejected REGISTER changes nothing, granted expiries lie within the configured minimum and maximum, and one AOR's requests never affect another's bindings.",
 ["histories","configurations"],"all REGISTER sequences over several AORs, contacts, Call-IDs and CSeqs with time passing","Binding state depends on the whole history; tests run one to three REGISTERs.",
 ["crates/sip-registrar/src/lib.rs"],[("BasicRegistrar::handle_register","crates/sip-registrar/src/lib.rs"),("MemoryLocationStore","crates/sip-registrar/src/lib.rs")])
p("C15","Only authenticated, authorized REGISTERs reach the location service",
 "With authentication configured, no REGISTER without valid credentials adds, refreshes or removes any binding; it is answered with a challenge. Malformed requests (wrong method, missing To/Contact structure, wildcard with other contacts or non-zero expiry, out-of-limit contacts) are refused with a 4xx response and without side effects. A verified user changes only the bindings of its own address-of-record, and every response is well formed and correlated with its request.",
 ["inputs","histories"],"all REGISTER requests with any credential or contact shape","Tests use one valid and one missing credential.",
 ["crates/sip-registrar/src/lib.rs","crates/sip-auth/src/lib.rs"],[("authenticator hook in handle_register","crates/sip-registrar/src/lib.rs")])
p("C16","Both ends of a dialog derive mirrored, RFC 3261 dialog state",
 "When a dialog-creating request and its response are processed by caller and callee, both create a dialog with the same Call-ID and swapped local/remote tags and URIs, the remote target taken from the peer's Contact, and the route set taken from Record-Route (reversed for the caller, in order for the callee); provisional responses give early dialogs, 2xx confirmed ones, and messages that cannot create a dialog (100 Trying, error responses, messages without tags) never do. Forked responses with different To tags give distinct dialogs.",
 ["inputs"],"all request/response pairs with arbitrary addresses, tags, contacts and Record-Route stacks","Tests use one or two fixed messages with at most two Record-Routes.",
 ["crates/sip-dialog/src/lib.rs"],[("Dialog::new_uac/new_uas","crates/sip-dialog/src/lib.rs")])
p("C17","In-dialog request sequencing and target refresh hold over any history",
 "Over any sequence of sent and received in-dialog requests and responses, local CSeq numbers strictly increase, a received request whose CSeq is not higher than the last accepted one is refused (an ACK carries the number of the INVITE it acknowledges), target-refresh requests and their responses update the remote target while the route set stays fixed, and a terminated dialog stays terminated.",
 ["histories"],"all sequences of in-dialog events on caller and callee side","State-dependent; tests run short fixed sequences.",
 ["crates/sip-dialog/src/lib.rs"],[("Dialog state and sequence checks","crates/sip-dialog/src/lib.rs")])
p("C18","Dialog and subscription lookups return exactly the matching live entry",
 "After any sequence of insertions, updates, removals, terminations and cleanups, looking up a message or identifier returns the dialog or subscription with exactly that identity or none, never another one; counts match the contents; terminated or expired entries are removed by cleanup and live ones are not; capacity limits hold. A subscription's state, expiry and notify sequence evolve only as its SUBSCRIBE/NOTIFY exchange dictates.",
 ["histories"],"all sequences of manager operations over many dialogs and subscriptions sharing Call-IDs and tags","Tests insert one or two entries.",
 ["crates/sip-dialog/src/lib.rs","crates/sip-dialog/src/storage.rs"],[("DialogManager","crates/sip-dialog/src/lib.rs"),("SubscriptionManager","crates/sip-dialog/src/lib.rs")])
p("C19","Session timers are negotiated and fire per RFC 4028",
 "For every session-interval, minimum and refresher preference on both sides, negotiation yields an interval at least the larger minimum and one agreed refresher, refuses intervals below the minimum; after any history of refreshes, stops and elapsed time, the refresh event fires at half the interval for the refresher only and the expiry event only when an interval elapses without a refresh, never after the timer is stopped.",
 ["histories","configurations"],"all timer parameters and all schedules of refresh/stop/time","Tests sleep once with one setting.",
 ["crates/sip-dialog/src/session_timer_manager.rs","crates/sip-core/src/session_timer.rs","crates/sip-dialog/src/lib.rs"],[("SessionTimerManager","crates/sip-dialog/src/session_timer_manager.rs")])
p("C20","Reliable provisional responses are numbered and acknowledged per RFC 3262",
 "Over any history of reliable provisionals and PRACKs, the first RSeq of a dialog is an unpredictable number within 1..2^31-1 and later ones increase by one, a PRACK is accepted exactly if its RAck names a pending RSeq, CSeq and method of that dialog, an acknowledged or unknown response cannot be acknowledged again, and one dialog's PRACKs never affect another's.",
 ["histories"],"all sequences of reliable provisionals and PRACKs over several dialogs","State-dependent; tests run single exchanges.",
 ["crates/sip-dialog/src/prack_validator.rs","crates/sip-dialog/src/lib.rs","crates/sip-core/src/rseq.rs"],[("PrackValidator","crates/sip-dialog/src/prack_validator.rs")])
p("C21","DNS resolution yields the RFC 3263 target list",
 "For every URI and every DNS content, the resolver's targets are exactly the servers RFC 3263 leads to from the URI (numeric host or maddr, explicit port and transport short-cuts, NAPTR order and preference, SRV priority, A/AAAA fallback): the SRV targets by name, or the address records where no SRV record applies, with the right transport and port and without loss, and a SIPS URI never yields an insecure transport. SRV records of lower priority come first and weights only reorder records of equal priority; higher-weight records are selected more often.",
 ["inputs","configurations"],"all URIs, zone contents, resolver configurations and random choices","Tests mock one or two records; ordering, fallback and SIPS rules interact.",
 ["crates/sip-dns/src/lib.rs"],[("SipResolver","crates/sip-dns/src/lib.rs"),("order_srv weighting","crates/sip-dns/src/lib.rs")])
p("C22","ENUM lookups and DHCP SIP options decode exactly what they encode",
 "An E.164 number maps to the reversed-digit ENUM domain and the URI obtained is the replacement part, extracted exactly, of the rewrite rule of the SIP NAPTR record that is best by order and preference; ill-formed rules yield nothing. DHCP SIP-server options decode to exactly the encoded domain names or addresses in order, and malformed, truncated or looping encodings are rejected.",
 ["inputs"],"all numbers, NAPTR rules and option payloads","Tests decode a few payloads.",
 ["crates/sip-dns/src/enum_lookup.rs","crates/sip-dns/src/lib.rs"],[("ENUM rewrite","crates/sip-dns/src/enum_lookup.rs"),("DHCP option parsing","crates/sip-dns/src/lib.rs")])
p("C23","STIR identity verifies exactly what was signed, by a trusted chain",
 "An Identity header produced by the signer verifies with the matching key and yields the same originating and destination identities, attestation, origin id and issue time; changing any of these, the signature, algorithm, key or x5u certificate reference makes verification fail. Tokens and headers made elsewhere decode to exactly the claims in them or are refused as malformed. A certificate chain is accepted if and only if it leads, with every signature, validity period, CA flag and path length good, to a configured trust anchor, and the PASSporT only if the leaf key signed it.",
 ["inputs","configurations"],"all PASSporT claims, keys, alterations, clock values and certificate chains","Tests sign one claim set and try one or two tamperings.",
 ["crates/sip-identity/src"],[("sign/verify","crates/sip-identity/src/sign.rs"),("chain validation","crates/sip-identity/src/chain.rs")])
p("C24","Transactions follow the RFC 3261 state machines under any event order",
 "For each of the four transaction types and any sequence of requests, responses, timer firings, sends and transport errors, the state reached and the actions taken (transmit, retransmit, deliver to user, start or cancel timer, terminate) are those of RFC 3261 section 17 with RFC 6026, on both reliable and unreliable transports; retransmissions are answered from the stored response and never re-delivered, and no action follows termination.",
 ["histories","schedules"],"all event sequences for all four machines and both transport kinds","Tests walk the happy path and a few timeouts.",
 ["crates/sip-transaction/src/fsm.rs","crates/sip-transaction/src/timers.rs"],[("client/server INVITE and non-INVITE FSMs","crates/sip-transaction/src/fsm.rs")])
p("C25","Every message is handled by exactly the transaction it belongs to",
 "For any interleaving of concurrent transactions, a request or response is handled by the transaction whose branch and method (and side) it carries, or by none; a repeated request is answered with the last response of its transaction and an ACK goes to its INVITE transaction and never makes one of its own; what is sent, where, and when follows the RFC 3261 timers; a target that cannot be reached is replaced by the next one and only when none is left does the transaction fail, once; at the configured limit the oldest transaction makes room and no other is affected.",
 ["histories","schedules"],"all interleavings of several client and server transactions with virtual time","Tests run one transaction at a time.",
 ["crates/sip-transaction/src/manager.rs","crates/sip-transaction/src/lib.rs"],[("TransactionManager","crates/sip-transaction/src/manager.rs")])
p("C26","Stream framing recovers the same messages however bytes are split",
 "For any sequence of SIP messages and keep-alives written to a TCP connection in any chunking, the server hands up exactly the same messages in order, byte for byte, with their origin and a working way back, and ignores the keep-alives; a stream that cannot be framed (no, conflicting, non-numeric or oversized Content-Length, headers over the limit) delivers the messages before it, nothing after it, and is closed; a UDP datagram is one packet, whole, or nothing.",
 ["inputs","schedules"],"all message sequences and all chunk boundaries","Tests send one or two messages in one or two chunks.",
 ["crates/sip-transport/src/lib.rs"],[("stream framing","crates/sip-transport/src/lib.rs")])
p("C27","Proxy forwarding transforms messages exactly per RFC 3261 section 16",
 "Forwarding any request adds exactly one Via with a fresh valid branch on top, decrements Max-Forwards (refusing at zero), handles Route and Record-Route, and leaves every other header and the body unchanged; forwarding any response removes exactly the proxy's own top Via value and nothing else. A request that returns with nothing that affects routing changed is recognised as looping, however its Vias are written, and one that spirals is not. Targets are tried in order of priority and then of q, one or all as the fork mode says. For a forked request, whatever order responses, timeouts and transport errors come in: 100 goes no further, other provisional responses go upstream until a final response has, one final response goes upstream - the first 2xx or 6xx at once, otherwise the best class once all branches are done, with the challenges of every 401 and 407 - and after it only further 2xx to an INVITE; a first 2xx or 6xx cancels every branch still open, with a CANCEL that has that branch's Via, Request-URI, route and identity; Timer C ends a branch silent for three minutes after its latest provisional response, and after a 6xx no branch is added. A CANCEL or ACK is matched to the transaction or dialog it belongs to.",
 ["inputs","histories"],"all requests, responses and all sequences of branch responses","Tests use minimal messages and two branches.",
 ["crates/sip-proxy/src/lib.rs","crates/sip-proxy/src/stateful.rs","crates/sip-proxy/src/cancel_ack.rs"],[("ProxyHelpers","crates/sip-proxy/src/lib.rs"),("ProxyContext","crates/sip-proxy/src/stateful.rs"),("ProxyService","crates/sip-proxy/src/service.rs")])
p("C28","User-agent built requests and responses are well-formed and correlated",
 "Every request the UserAgentClient builds and every response the UserAgentServer builds serializes and reads back as the same valid SIP message with each mandatory header once: a response copies the Via and Record-Route values, From, To, Call-ID and CSeq of its request, whatever its values look like and up to the header limits, and adds exactly one To tag where the request has none and it is not a 100; an out-of-dialog request names its target and the local identity with fresh tags, Call-IDs and branches, and the REGISTERs to one registrar are one series with rising CSeq; BYE, re-INVITE, UPDATE, INFO, PRACK, REFER and session refreshes carry the identities, tags, Call-ID, next CSeq and remote target of their dialog, whichever side opened it, PRACK the RAck of the response and Replaces the other dialog; a request is accepted for a dialog exactly when its Call-ID and tags are the dialog's; a challenged request is repeated with the next CSeq, a new branch and credentials that verify, one per realm, and is otherwise unchanged.",
 ["inputs","histories"],"all requests, dialogs, challenges and parameters given to the builders","Tests check substrings of fixed examples.",
 ["crates/sip-uac/src/lib.rs","crates/sip-uas/src/lib.rs"],[("UserAgentClient builders","crates/sip-uac/src/lib.rs"),("UserAgentServer builders","crates/sip-uas/src/lib.rs")])
p("C29","Capability and caller-preference matching follows RFC 3840/3841",
 "Feature-set matching is consistent: a contact whose capabilities satisfy every required feature is never dropped and one violating a required Accept-Contact or matching a Reject-Contact is, scores lie in 0..1, and the order returned is by preference; feature values (tokens, token lists, strings, booleans, numbers) keep their meaning through parameters and through a Contact header on the wire, and values of one type compare the way that type does; a Request-Disposition reads back as the directives it names.",
 ["inputs"],"all feature sets, predicates, contact lists and dispositions","Tests match two or three features.",
 ["crates/sip-core/src/capabilities.rs","crates/sip-core/src/caller_preferences.rs"],[("matching and scoring","crates/sip-core/src/caller_preferences.rs")])
p("C30","Privacy services remove every trace of the hidden identity",
 "When enforce_privacy is applied to a message, what its Privacy value asks for is gone and nothing else is: with id or user, From and every Contact carry the anonymous URI and display name only (header parameters, the From tag among them, stay) and no asserted or preferred identity remains; with header or user, Subject, Call-Info, Organization, User-Agent, Reply-To, In-Reply-To and Server are gone; with none, session or critical alone, no header changes; every other field keeps its value and place; a second application changes nothing. A Privacy header reads as the values it names, whatever their case and spacing, and a value it may not hold is refused.",
 ["inputs"],"all messages with any combination of Privacy values, header spellings (compact names, several fields, comma lists, quoted display names) and identities","Tests mask one simple From and Contact; a second contact in a list, a quoted comma or a compact name leaks unnoticed.",
 ["crates/sip-core/src/privacy.rs"],[("enforce_privacy","crates/sip-core/src/privacy.rs")])
p("C31","Pooled connections lose, repeat or hold back no message",
 "What is sent to a peer through the connection pool arrives whole and in order over one reused connection; messages sent at once by several tasks all arrive; a connection the peer closed, or whose stream can no longer be framed, leaves the pool and is closed, and the next message goes out on a fresh one and arrives; what a peer answers on a pooled connection is delivered with its origin; and a peer that stops reading holds up nobody else's messages.",
 ["schedules","histories"],"all histories of sends (one after another or at once), answers, broken answers and closures over several peers","Tests send one message to one well-behaved peer.",
 ["crates/sip-transport/src/pool.rs"],[("ConnectionPool","crates/sip-transport/src/pool.rs")])
p("C32","Transport metrics are sampled, paced and labelled as configured",
 "Of the events reported to the rate-limited metrics, exactly every N-th is considered and is emitted only when the configured interval since the last emission has passed, whatever kinds of events are mixed and however many threads report; an emitted event carries exactly the transport, stage, operation and latency reported and its own kind; label strings read back as the label they name and anything else - longer, with other bytes, in another case - is refused with the reason; the process-wide sink is the first one installed, however many race for it, and gets every event.",
 ["histories","schedules","inputs"],"all event histories with time passing, any N and interval, several threads, all label strings","The one test only checks that a default method exists.",
 ["crates/sip-observe/src/lib.rs"],[("RateLimitedTracingTransportMetrics::should_emit","crates/sip-observe/src/lib.rs"),("label parsing","crates/sip-observe/src/lib.rs")])
p("C33","The siphond daemon answers every request once, correctly and safely",
 "As an endpoint siphond gives every request but an ACK exactly one final response, nothing provisional after it, each with the request's Via values, From, Call-ID and CSeq and one To tag for the transaction; a retransmission causes nothing new. A request out of hops gets 483, a method it does not handle 501, one for a dialog or subscription it does not have 481; with authentication on, whatever is not exempt and has no valid credentials is challenged and has no other effect, and users files others may read are not used. An accepted INVITE makes a dialog that its BYE ends, timers included; a CANCEL ends the pending INVITE it belongs to with 487 and leaves no dialog, any other leaves it alone; a session lasts no longer than was asked for and just as long as it is refreshed. A Replaces is honoured only for a party of the call. REFER makes it call only addresses that are globally reachable, unless allowed otherwise, acknowledges the answer at its Contact, and tells its sender the progress and once the outcome. Its NOTIFYs and INVITEs have the identities of their dialog, its address and transport in the Via and well-formed bodies. One source address exceeding its budget gets 503 with Retry-After and delays nobody else.",
 ["histories","inputs","configurations"],"all configurations of the endpoint modes and all histories of requests, retransmissions, responses and time","The tests of the daemon check parsing helpers; no test dispatches a request.",
 ["bins/siphond/src/dispatcher.rs","bins/siphond/src/handlers/invite.rs","bins/siphond/src/handlers/refer.rs","bins/siphond/src/handlers/cancel.rs","bins/siphond/src/services.rs"],[("RequestDispatcher::dispatch","bins/siphond/src/dispatcher.rs"),("InviteHandler","bins/siphond/src/handlers/invite.rs"),("ReferHandler","bins/siphond/src/handlers/refer.rs"),("ServiceRegistry","bins/siphond/src/services.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P)); assert all(len(x["title"])<=80 for x in P)
