From 2a444dda72d71c7a221338f58c9af7723b30e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 001/176] fix: accept a Via header that combines several values

The branch check read up to the next ';' and so took the comma and the
following Via value for part of the branch, rejecting the whole message.
---
 crates/sip-parse/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index a6678f2..66c7c85 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -72,6 +72,8 @@ pub fn parse_request_with_limit(datagram: &Bytes, max_size: usize) -> Option<Req
             .split(';')
             .find_map(|p| p.trim().strip_prefix("branch="))
         {
+            // A comma starts the next Via value of a combined header (RFC 3261 §7.3.1).
+            let branch = branch.split(',').next().unwrap_or(branch);
             if !is_valid_branch(branch.trim()) {
                 return None;
             }
@@ -107,6 +109,8 @@ pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Opt
             .split(';')
             .find_map(|p| p.trim().strip_prefix("branch="))
         {
+            // A comma starts the next Via value of a combined header (RFC 3261 §7.3.1).
+            let branch = branch.split(',').next().unwrap_or(branch);
             if !is_valid_branch(branch.trim()) {
                 return None;
             }
-- 
2.43.0


From a01c038ca98a9a8d608afeff5326d984a6b6d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 002/176] fix: parse responses with an empty reason phrase

Reason-Phrase may be empty, and serialize_response emits such status lines,
but the parser rejected them. The status code is now exactly three digits.
---
 crates/sip-parse/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 66c7c85..e33be15 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -301,8 +301,8 @@ fn parse_request_line(line: &str) -> Option<(Method, Uri)> {
 /// Parses the status-line of a SIP response.
 fn parse_status_line(line: &str) -> Option<StatusLine> {
     use nom::{
-        bytes::complete::tag_no_case,
-        character::complete::{space1, u16 as nom_u16},
+        bytes::complete::{tag_no_case, take_while_m_n},
+        character::complete::space1,
         combinator::rest,
         sequence::tuple,
     };
@@ -310,13 +310,17 @@ fn parse_status_line(line: &str) -> Option<StatusLine> {
     let mut parser = tuple((
         tag_no_case::<_, _, nom::error::Error<_>>("SIP/2.0"),
         space1::<_, nom::error::Error<_>>,
-        nom_u16::<_, nom::error::Error<_>>,
-        space1::<_, nom::error::Error<_>>,
+        take_while_m_n::<_, _, nom::error::Error<_>>(3, 3, |c: char| c.is_ascii_digit()),
         rest::<_, nom::error::Error<_>>,
     ));
-    let (_, (_, _, code, _, reason)) = parser(line.trim()).ok()?;
+    let (_, (_, _, code, reason)) = parser(line.trim()).ok()?;
+
+    // The reason phrase may be empty (RFC 3261 §25.1), otherwise whitespace separates it.
+    if !reason.is_empty() && !reason.starts_with([' ', '\t']) {
+        return None;
+    }
 
-    StatusLine::new(code, reason.trim()).ok()
+    StatusLine::new(code.parse().ok()?, reason.trim()).ok()
 }
 
 /// Maps a method token to the [`Method`] enum, including extension methods.
-- 
2.43.0


From fce9434a3bf7e33668f7fa8d4c4590272ced99e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 003/176] fix: reject Content-Length values that overflow, and
 signed ones

A digit string beyond u64 was treated like a missing Content-Length, so a
truncated body was accepted, and '+5' was honoured as a length.
---
 crates/sip-parse/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index e33be15..4faf871 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -487,10 +487,15 @@ fn parse_content_length_value(value: &SmolStr) -> Option<usize> {
 fn parse_content_length_detailed(value: &SmolStr) -> Result<usize, ContentLengthError> {
     let trimmed = value.trim();
 
+    // 1*DIGIT only: no sign, no empty value
+    if trimmed.is_empty() || !trimmed.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ContentLengthError::Invalid);
+    }
+
     // Parse to u64 first to detect overflow on 32-bit systems
     let value_u64 = trimmed
         .parse::<u64>()
-        .map_err(|_| ContentLengthError::Invalid)?;
+        .map_err(|_| ContentLengthError::Oversized)?;
 
     // Check if value fits in usize (prevents overflow on 32-bit)
     if value_u64 > usize::MAX as u64 {
-- 
2.43.0


From cff96000ac042225538552e350618120791921ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 004/176] fix: expand the compact header names j and y

Reject-Contact (RFC 3841) and Identity (RFC 8224) have registered compact
forms; both headers are implemented by the stack but were not found when
sent in compact form.
---
 crates/sip-parse/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 4faf871..2c95aa0 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -400,6 +400,8 @@ fn canonical_header_name(name: &str) -> SmolStr {
         "x" => "Session-Expires",
         "a" => "Accept-Contact",
         "u" => "Allow-Events",
+        "j" => "Reject-Contact",
+        "y" => "Identity",
         _ => name,
     };
     SmolStr::new(canonical)
-- 
2.43.0


From 9df8960210b5119a6cd1741e5f7485bd998a843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 005/176] fix: match URI schemes case-insensitively in
 Uri::parse

URI schemes are case-insensitive (RFC 3986 section 3.1); 'SIP:a@h' became an
opaque absolute URI without host, port or parameters.
---
 crates/sip-core/src/uri.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index a93bb5a..0ed9b97 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -588,11 +588,16 @@ impl Uri {
         }
 
         // Try tel URI first (more specific prefix)
-        if input.starts_with("tel:") {
+        let has_scheme = |scheme: &str| {
+            input
+                .get(..scheme.len())
+                .is_some_and(|prefix| prefix.eq_ignore_ascii_case(scheme))
+        };
+        if has_scheme("tel:") {
             TelUri::parse(input)
                 .map(Uri::Tel)
                 .map_err(|e| UriError::InvalidFormat(e.to_string()))
-        } else if input.starts_with("sip:") || input.starts_with("sips:") {
+        } else if has_scheme("sip:") || has_scheme("sips:") {
             SipUri::parse(input).map(Uri::Sip)
         } else {
             parse_absolute_uri(input).map(Uri::Absolute)
-- 
2.43.0


From 34a6159fce6898d60e670306295a0c61ed733d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 006/176] fix: bracket IPv6 hosts in SipUri::new

SipUri::new("::1") printed 'sip:::1', which does not parse.
---
 crates/sip-core/src/uri.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 0ed9b97..9f7232e 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -296,17 +296,18 @@ impl SipUri {
         let host = host.into();
         validate_host(&host)?;
 
-        let raw = SmolStr::new(format!("sip:{}", host));
-
-        Ok(Self {
-            raw,
+        let mut uri = Self {
+            raw: SmolStr::default(),
             sips: false,
             user: None,
             host,
             port: None,
             params: BTreeMap::new(),
             headers: BTreeMap::new(),
-        })
+        };
+        uri.raw = build_raw_sip_uri(&uri);
+
+        Ok(uri)
     }
 
     /// Attempts to parse a SIP or SIPS URI from the provided string.
-- 
2.43.0


From 9acf40250eeb8b12ea5b514525499ad10ec9843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 007/176] fix: refuse whitespace and delimiters inside SIP URIs
 and parameter values

A URI carrying '>' or a space broke out of its name-addr or request line, and
with_param values carrying ';' or '?' added parameters or headers to the URI.
---
 crates/sip-core/src/uri.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 9f7232e..358f4a3 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -217,6 +217,16 @@ fn validate_param_value(value: &str) -> Result<(), UriError> {
         ));
     }
 
+    // Check for characters that would end the parameter or the URI
+    if value
+        .chars()
+        .any(|c| c.is_whitespace() || matches!(c, ';' | '?' | '<' | '>' | '"'))
+    {
+        return Err(UriError::InvalidParameter(
+            "parameter value contains delimiter characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -325,6 +335,17 @@ impl SipUri {
             });
         }
 
+        // Never legal unescaped in a URI: they would end it early inside a
+        // request line or name-addr.
+        if input
+            .chars()
+            .any(|c| c.is_whitespace() || matches!(c, '<' | '>' | '"'))
+        {
+            return Err(UriError::InvalidFormat(
+                "contains whitespace or delimiter characters".to_string(),
+            ));
+        }
+
         let raw = SmolStr::new(input);
         let (scheme, rest) = input
             .split_once(':')
-- 
2.43.0


From 7167e64cb65eef1a25df6236dcb9c62d5d0cf48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 008/176] fix: percent-encode the user part when a SIP URI is
 rebuilt

The user is stored decoded, and every with_/without_ edit printed it verbatim:
'sip:a%20b@h' or 'sip:a%2541@h' changed meaning or stopped parsing.
---
 crates/sip-core/src/uri.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 358f4a3..89cec82 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -7,7 +7,7 @@
 use std::collections::BTreeMap;
 use std::fmt;
 
-use percent_encoding::percent_decode_str;
+use percent_encoding::{percent_decode_str, utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
 use smol_str::SmolStr;
 
 use crate::TelUri;
@@ -24,6 +24,26 @@ const MAX_PARAMS: usize = 50;
 const MAX_HEADERS: usize = 50;
 const MAX_ABSOLUTE_URI_LENGTH: usize = 2048;
 
+/// Characters to escape in the user part: all but `unreserved`, the
+/// `user-unreserved` that are not treated as delimiters here, and the ':'
+/// before a password (RFC 3261 §25.1).
+const USER_ESCAPE: &AsciiSet = &NON_ALPHANUMERIC
+    .remove(b'-')
+    .remove(b'_')
+    .remove(b'.')
+    .remove(b'!')
+    .remove(b'~')
+    .remove(b'*')
+    .remove(b'\'')
+    .remove(b'(')
+    .remove(b')')
+    .remove(b'&')
+    .remove(b'=')
+    .remove(b'+')
+    .remove(b'$')
+    .remove(b',')
+    .remove(b':');
+
 /// Error types for URI operations.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum UriError {
@@ -812,7 +832,8 @@ fn build_raw_sip_uri(uri: &SipUri) -> SmolStr {
     let mut out = String::new();
     out.push_str(if uri.sips { "sips:" } else { "sip:" });
     if let Some(user) = &uri.user {
-        out.push_str(user.as_str());
+        // `user` is stored decoded: escape what the user part may not hold
+        out.extend(utf8_percent_encode(user.as_str(), USER_ESCAPE));
         out.push('@');
     }
     if uri.host.contains(':') && !uri.host.starts_with('[') && !uri.host.ends_with(']') {
-- 
2.43.0


From 049fddbacee37506c9924c210afb7a8466fbcdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 009/176] fix: validate bracketed hosts in SIP URIs

'sip:[::1]junk', 'sip:[example.com]' and 'sip:[::1]:+5060' were accepted.
---
 crates/sip-core/src/uri.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 89cec82..530d931 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -790,13 +790,26 @@ fn split_host_port(input: &str) -> Result<(&str, Option<u16>), UriError> {
         let host = &input[1..end];
         let remainder = &input[end + 1..];
 
+        if host.parse::<std::net::Ipv6Addr>().is_err() {
+            return Err(UriError::InvalidHost(
+                "brackets must enclose an IPv6 address".to_string(),
+            ));
+        }
+
         if let Some(stripped) = remainder.strip_prefix(':') {
+            if !stripped.bytes().all(|b| b.is_ascii_digit()) {
+                return Err(UriError::InvalidPort("invalid port number".to_string()));
+            }
             let port = stripped
                 .parse()
                 .map_err(|_| UriError::InvalidPort("invalid port number".to_string()))?;
             Ok((host, Some(port)))
-        } else {
+        } else if remainder.is_empty() {
             Ok((host, None))
+        } else {
+            Err(UriError::InvalidHost(
+                "unexpected characters after IPv6 address".to_string(),
+            ))
         }
     } else if let Some(idx) = input.rfind(':') {
         // If multiple colons (unbracketed IPv6), invalid
-- 
2.43.0


From 6f43802559aa9aff54d0a9adf9d0297d651a85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 010/176] fix: refuse whitespace and delimiters inside absolute
 URIs

An absolute URI with a space was printed into the request line unchanged, and
' sip:a@h' was taken for an absolute URI because only that branch trimmed.
---
 crates/sip-core/src/uri.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 530d931..bb7e0ae 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -630,6 +630,7 @@ impl Uri {
         }
 
         // Try tel URI first (more specific prefix)
+        let input = input.trim();
         let has_scheme = |scheme: &str| {
             input
                 .get(..scheme.len())
@@ -771,10 +772,14 @@ fn parse_absolute_uri(input: &str) -> Result<SmolStr, UriError> {
         ));
     }
 
-    // Check for control characters
-    if remainder.chars().any(|c| c.is_control()) {
+    // Check for control characters, and for characters that would end the URI
+    // early in a request line or name-addr
+    if remainder
+        .chars()
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, '<' | '>' | '"'))
+    {
         return Err(UriError::InvalidFormat(
-            "contains control characters".to_string(),
+            "contains control characters, whitespace or delimiters".to_string(),
         ));
     }
 
-- 
2.43.0


From 1e3004b024b6484c88bb98dd46d5146e6b7667bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 011/176] fix: match the tel URI scheme case-insensitively

Schemes are case-insensitive (RFC 3986 section 3.1); 'TEL:+1' was refused.
---
 crates/sip-core/src/tel_uri.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 1863b17..c7d9ee0 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -349,9 +349,10 @@ impl TelUri {
         let raw = SmolStr::new(input);
 
         // Must start with "tel:"
-        let rest = input
-            .strip_prefix("tel:")
-            .ok_or(TelUriError::InvalidScheme)?;
+        let rest = match input.get(..4) {
+            Some(scheme) if scheme.eq_ignore_ascii_case("tel:") => &input[4..],
+            _ => return Err(TelUriError::InvalidScheme),
+        };
 
         // Split into number and parameters
         let mut parts = rest.split(';');
-- 
2.43.0


From f671469f596d2729872399abc98c312f69b733de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 012/176] fix: refuse delimiters inside tel URI parameters

A value set with with_parameter could add further parameters (';'), and a parsed
parameter could close the surrounding name-addr ('>').
---
 crates/sip-core/src/tel_uri.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index c7d9ee0..bcb656e 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -243,10 +243,9 @@ fn validate_parameter_name(name: &str) -> Result<(), TelUriError> {
     }
 
     // Check for control characters, whitespace, and special chars
-    if name
-        .chars()
-        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '='))
-    {
+    if name.chars().any(|c| {
+        c.is_control() || c.is_whitespace() || matches!(c, ';' | '=' | '<' | '>' | '"' | '?')
+    }) {
         return Err(TelUriError::InvalidParameter(
             "parameter name contains invalid characters".to_string(),
         ));
@@ -265,7 +264,10 @@ fn validate_parameter_value(value: &str) -> Result<(), TelUriError> {
     }
 
     // Check for control characters and whitespace
-    if value.chars().any(|c| c.is_control() || c.is_whitespace()) {
+    // and characters that would end the parameter or the URI
+    if value.chars().any(|c| {
+        c.is_control() || c.is_whitespace() || matches!(c, ';' | '<' | '>' | '"' | '?')
+    }) {
         return Err(TelUriError::InvalidParameter(
             "parameter value contains control characters".to_string(),
         ));
-- 
2.43.0


From cd66f9927790ba4ac2fb4873af6aafa5d4991931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 013/176] fix: drop spaces from tel URIs

'tel:+1 555' was printed with its space into request lines and name-addrs, where
it ends the URI.
---
 crates/sip-core/src/tel_uri.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index bcb656e..c711a62 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -320,6 +320,7 @@ impl TelUri {
             ));
         }
 
+        let number = SmolStr::new(number.replace(' ', ""));
         let raw = SmolStr::new(format!("tel:{}", number));
 
         Ok(Self {
@@ -348,7 +349,9 @@ impl TelUri {
     /// assert_eq!(uri.phone_context().unwrap(), "example.com");
     /// ```
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
-        let raw = SmolStr::new(input);
+        // Spaces are tolerated as visual separators on input but are never legal
+        // in a URI, so they are not kept.
+        let raw = SmolStr::new(input.replace(' ', ""));
 
         // Must start with "tel:"
         let rest = match input.get(..4) {
@@ -377,7 +380,7 @@ impl TelUri {
         let normalized_number = if is_global {
             normalize_global_number(number_part)
         } else {
-            SmolStr::new(number_part)
+            SmolStr::new(number_part.replace(' ', ""))
         };
 
         // Parse parameters
-- 
2.43.0


From 1889fd9c11c9f3b1d62128c40a84c0f2cca39d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 014/176] fix: refuse control characters around a tel URI
 number

'tel:+1\\r' was accepted, because the number was trimmed before it was validated,
and printed with the control character.
---
 crates/sip-core/src/tel_uri.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index c711a62..b6dc6fd 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -349,6 +349,15 @@ impl TelUri {
     /// assert_eq!(uri.phone_context().unwrap(), "example.com");
     /// ```
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
+        if input
+            .chars()
+            .any(|c| c.is_control() || (c.is_whitespace() && c != ' '))
+        {
+            return Err(TelUriError::InvalidFormat(
+                "contains control characters".to_string(),
+            ));
+        }
+
         // Spaces are tolerated as visual separators on input but are never legal
         // in a URI, so they are not kept.
         let raw = SmolStr::new(input.replace(' ', ""));
-- 
2.43.0


From 09344c92b6962b72963a45413c850e642f98be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 015/176] fix:
 Route/Service-Route/P-identity/Reason/Referred-By values escape and honour
 quoted strings

---
 crates/sip-core/src/lib.rs           |   2 +
 crates/sip-core/src/p_headers.rs     |  55 +++++--------
 crates/sip-core/src/quoting.rs       | 113 +++++++++++++++++++++++++++
 crates/sip-core/src/reason.rs        |  35 +++++++--
 crates/sip-core/src/referred_by.rs   |  45 ++++++-----
 crates/sip-core/src/route.rs         |  15 ++--
 crates/sip-core/src/service_route.rs |  18 ++---
 7 files changed, 200 insertions(+), 83 deletions(-)
 create mode 100644 crates/sip-core/src/quoting.rs

diff --git a/crates/sip-core/src/lib.rs b/crates/sip-core/src/lib.rs
index 5ca878c..600348d 100644
--- a/crates/sip-core/src/lib.rs
+++ b/crates/sip-core/src/lib.rs
@@ -47,6 +47,8 @@ pub mod p_headers;
 pub mod presence;
 pub mod priority;
 pub mod privacy;
+#[doc(hidden)]
+pub mod quoting;
 pub mod reason;
 pub mod refer_sub;
 pub mod referred_by;
diff --git a/crates/sip-core/src/p_headers.rs b/crates/sip-core/src/p_headers.rs
index 666709a..0f6a600 100644
--- a/crates/sip-core/src/p_headers.rs
+++ b/crates/sip-core/src/p_headers.rs
@@ -164,17 +164,14 @@ impl PIdentity {
 impl fmt::Display for PIdentity {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(ref name) = self.display_name {
-            write!(f, "\"{}\" <{}>", name, self.uri)?;
+            crate::quoting::write_quoted(f, name)?;
+            write!(f, " <{}>", self.uri)?;
         } else {
             write!(f, "<{}>", self.uri)?;
         }
 
         for (key, value) in &self.params {
-            if let Some(v) = value {
-                write!(f, ";{}={}", key, v)?;
-            } else {
-                write!(f, ";{}", key)?;
-            }
+            crate::quoting::write_param(f, key, value.as_deref())?;
         }
         Ok(())
     }
@@ -660,7 +657,7 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
 
     // Try to parse as URI in brackets: <uri>
     if let Some((start, end)) = find_unquoted_angle_brackets(input)? {
-        let display = input[..start].trim().trim_matches('"');
+        let display = crate::quoting::unquote(&input[..start]);
         let uri_str = input[start + 1..end].trim();
         let params_str = input[end + 1..].trim();
 
@@ -674,7 +671,7 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
         };
 
         if !display.is_empty() {
-            validate_display_name(display)?;
+            validate_display_name(&display)?;
             identity.display_name = Some(SmolStr::new(display));
         }
 
@@ -705,9 +702,15 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
 
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, PHeaderError> {
     let mut in_quotes = false;
+    let mut escape = false;
     let mut start = None;
     for (idx, ch) in input.char_indices() {
+        if escape {
+            escape = false;
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => escape = true,
             '"' => in_quotes = !in_quotes,
             '<' if !in_quotes => {
                 if start.is_some() {
@@ -737,33 +740,11 @@ fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, P
 }
 
 fn split_identities(value: &str) -> Vec<&str> {
-    let mut parts = Vec::new();
-    let mut start = 0;
-    let mut in_quotes = false;
-    let mut in_angle = false;
-
-    for (idx, ch) in value.char_indices() {
-        match ch {
-            '"' => in_quotes = !in_quotes,
-            '<' if !in_quotes => in_angle = true,
-            '>' if !in_quotes => in_angle = false,
-            ',' if !in_quotes && !in_angle => {
-                let slice = value[start..idx].trim();
-                if !slice.is_empty() {
-                    parts.push(slice);
-                }
-                start = idx + 1;
-            }
-            _ => {}
-        }
-    }
-
-    let tail = value[start..].trim();
-    if !tail.is_empty() {
-        parts.push(tail);
-    }
-
-    parts
+    crate::quoting::split_unquoted(value, ',')
+        .into_iter()
+        .map(str::trim)
+        .filter(|part| !part.is_empty())
+        .collect()
 }
 
 fn split_uri_and_params(value: &str) -> (&str, Option<&str>) {
@@ -775,13 +756,13 @@ fn split_uri_and_params(value: &str) -> (&str, Option<&str>) {
 }
 
 fn add_params_from_str(identity: &mut PIdentity, params_str: &str) -> Result<(), PHeaderError> {
-    for raw_param in params_str.split(';') {
+    for raw_param in crate::quoting::split_unquoted(params_str, ';') {
         let param = raw_param.trim();
         if param.is_empty() {
             continue;
         }
         if let Some((name, value)) = param.split_once('=') {
-            identity.add_param(name.trim(), Some(value.trim()))?;
+            identity.add_param(name.trim(), Some(crate::quoting::unquote(value)))?;
         } else {
             identity.add_param(param, Option::<&str>::None)?;
         }
diff --git a/crates/sip-core/src/quoting.rs b/crates/sip-core/src/quoting.rs
new file mode 100644
index 0000000..33a1f6f
--- /dev/null
+++ b/crates/sip-core/src/quoting.rs
@@ -0,0 +1,113 @@
+// siphon-rs - The Siphon SIP Stack
+// Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
+// SPDX-License-Identifier: Apache-2.0 OR MIT
+
+//! Quoted strings in header values (RFC 3261 §25.1).
+
+use std::fmt;
+
+/// Splits `input` at every `sep` that is outside quoted strings and `<...>`.
+pub fn split_unquoted(input: &str, sep: char) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut start = 0;
+    let mut in_quotes = false;
+    let mut in_angle = false;
+    let mut escape = false;
+    for (idx, ch) in input.char_indices() {
+        if escape {
+            escape = false;
+            continue;
+        }
+        match ch {
+            '\\' if in_quotes => escape = true,
+            '"' if !in_angle => in_quotes = !in_quotes,
+            '<' if !in_quotes => in_angle = true,
+            '>' if !in_quotes => in_angle = false,
+            _ if ch == sep && !in_quotes && !in_angle => {
+                parts.push(&input[start..idx]);
+                start = idx + ch.len_utf8();
+            }
+            _ => {}
+        }
+    }
+    parts.push(&input[start..]);
+    parts
+}
+
+/// True if `value` is one complete quoted-string.
+pub fn is_quoted_string(value: &str) -> bool {
+    let Some(inner) = value
+        .strip_prefix('"')
+        .and_then(|rest| rest.strip_suffix('"'))
+    else {
+        return false;
+    };
+    let mut escape = false;
+    for ch in inner.chars() {
+        if escape {
+            escape = false;
+        } else if ch == '\\' {
+            escape = true;
+        } else if ch == '"' {
+            return false;
+        }
+    }
+    !escape
+}
+
+/// Content of a quoted-string with its escapes removed; other text is
+/// returned as it is, without stray surrounding quotes.
+pub fn unquote(value: &str) -> String {
+    let value = value.trim();
+    if !is_quoted_string(value) {
+        return value.trim_matches('"').to_string();
+    }
+    let mut out = String::with_capacity(value.len());
+    let mut escape = false;
+    for ch in value[1..value.len() - 1].chars() {
+        if ch == '\\' && !escape {
+            escape = true;
+        } else {
+            out.push(ch);
+            escape = false;
+        }
+    }
+    out
+}
+
+/// True for text that may stand unquoted as a parameter value (token or host).
+pub fn is_bare_value(value: &str) -> bool {
+    !value.is_empty()
+        && value.chars().all(|c| {
+            c.is_ascii_alphanumeric()
+                || matches!(
+                    c,
+                    '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~' | '[' | ']' | ':'
+                )
+        })
+}
+
+/// Writes `value` as a quoted-string.
+pub fn write_quoted(f: &mut fmt::Formatter<'_>, value: &str) -> fmt::Result {
+    f.write_str("\"")?;
+    for ch in value.chars() {
+        if ch == '\\' || ch == '"' {
+            f.write_str("\\")?;
+        }
+        write!(f, "{}", ch)?;
+    }
+    f.write_str("\"")
+}
+
+/// Writes `;name` or `;name=value`, quoting the value when it needs it.
+pub fn write_param(f: &mut fmt::Formatter<'_>, name: &str, value: Option<&str>) -> fmt::Result {
+    write!(f, ";{}", name)?;
+    match value {
+        None => Ok(()),
+        Some(v) if is_bare_value(v) || is_quoted_string(v) => write!(f, "={}", v),
+        Some(v) => {
+            f.write_str("=")?;
+            write_quoted(f, v)
+        }
+    }
+}
diff --git a/crates/sip-core/src/reason.rs b/crates/sip-core/src/reason.rs
index 82ea91f..bee8223 100644
--- a/crates/sip-core/src/reason.rs
+++ b/crates/sip-core/src/reason.rs
@@ -378,13 +378,12 @@ impl fmt::Display for ReasonHeader {
         write!(f, "{}", self.protocol)?;
 
         for (key, value) in &self.params {
-            write!(f, ";{}", key)?;
-            if let Some(val) = value {
-                if key == "text" || val.contains(|c: char| c.is_whitespace() || c == ';') {
-                    write!(f, "=\"{}\"", val)?;
-                } else {
-                    write!(f, "={}", val)?;
+            match value {
+                Some(val) if key == "text" => {
+                    write!(f, ";{}=", key)?;
+                    crate::quoting::write_quoted(f, val)?;
                 }
+                _ => crate::quoting::write_param(f, key, value.as_deref())?,
             }
         }
 
@@ -412,6 +411,12 @@ fn validate_protocol(protocol: &str) -> Result<(), ReasonError> {
         ));
     }
 
+    if !is_token(protocol) {
+        return Err(ReasonError::InvalidProtocol(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -433,9 +438,25 @@ fn validate_param_name(name: &str) -> Result<(), ReasonError> {
         ));
     }
 
+    if !is_token(name) {
+        return Err(ReasonError::InvalidParamName(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
+fn is_token(value: &str) -> bool {
+    value.chars().all(|c| {
+        c.is_ascii_alphanumeric()
+            || matches!(
+                c,
+                '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~'
+            )
+    })
+}
+
 fn validate_param_value(value: &str) -> Result<(), ReasonError> {
     if value.len() > MAX_PARAM_VALUE_LENGTH {
         return Err(ReasonError::ParamValueTooLong {
@@ -526,7 +547,7 @@ pub fn parse_reason_from_string(value: &str) -> Result<ReasonHeader, ReasonError
         });
     }
 
-    let mut parts = value.split(';');
+    let mut parts = crate::quoting::split_unquoted(value, ';').into_iter();
     let protocol = parts.next().unwrap_or("").trim();
 
     validate_protocol(protocol)?;
diff --git a/crates/sip-core/src/referred_by.rs b/crates/sip-core/src/referred_by.rs
index 75d6b7b..4dc0ba5 100644
--- a/crates/sip-core/src/referred_by.rs
+++ b/crates/sip-core/src/referred_by.rs
@@ -379,12 +379,7 @@ impl ReferredByHeader {
             let display_name = if display_part.is_empty() {
                 None
             } else {
-                let display_part = if display_part.starts_with('"') && display_part.ends_with('"') {
-                    &display_part[1..display_part.len() - 1]
-                } else {
-                    display_part
-                };
-                Some(SmolStr::new(display_part))
+                Some(SmolStr::new(crate::quoting::unquote(display_part)))
             };
 
             (display_name, uri_str)
@@ -403,7 +398,7 @@ impl ReferredByHeader {
 
         // Parse parameters
         if !params_str.is_empty() {
-            for part in params_str.split(';') {
+            for part in crate::quoting::split_unquoted(params_str, ';') {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
@@ -420,14 +415,8 @@ impl ReferredByHeader {
                     let key = key.trim();
                     let value = value.trim();
 
-                    // Require len >= 2 so a lone '"' (which satisfies both
-                    // starts_with and ends_with) does not slice [1..0] and panic.
-                    let value =
-                        if value.len() >= 2 && value.starts_with('"') && value.ends_with('"') {
-                            &value[1..value.len() - 1]
-                        } else {
-                            value
-                        };
+                    let value = crate::quoting::unquote(value);
+                    let value = value.as_str();
 
                     if key.eq_ignore_ascii_case("cid") {
                         validate_cid(value)?;
@@ -464,16 +453,18 @@ impl ReferredByHeader {
 impl fmt::Display for ReferredByHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(display_name) = self.name_addr.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
+            crate::quoting::write_quoted(f, display_name)?;
+            f.write_str(" ")?;
         }
         write!(f, "<{}>", self.name_addr.uri().as_str())?;
 
         if let Some(ref cid) = self.cid {
-            write!(f, ";cid=\"{}\"", cid)?;
+            f.write_str(";cid=")?;
+            crate::quoting::write_quoted(f, cid)?;
         }
 
         for (name, value) in &self.params {
-            write!(f, ";{}={}", name, value)?;
+            crate::quoting::write_param(f, name, Some(value))?;
         }
 
         Ok(())
@@ -504,9 +495,15 @@ fn validate_cid(cid: &str) -> Result<(), ReferredByError> {
 
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, ReferredByError> {
     let mut in_quotes = false;
+    let mut escape = false;
     let mut start = None;
     for (idx, ch) in input.char_indices() {
+        if escape {
+            escape = false;
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => escape = true,
             '"' => in_quotes = !in_quotes,
             '<' if !in_quotes => {
                 if start.is_some() {
@@ -553,6 +550,18 @@ fn validate_param_name(name: &str) -> Result<(), ReferredByError> {
         ));
     }
 
+    if !name.chars().all(|c| {
+        c.is_ascii_alphanumeric()
+            || matches!(
+                c,
+                '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~'
+            )
+    }) {
+        return Err(ReferredByError::InvalidParamName(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/route.rs b/crates/sip-core/src/route.rs
index 2b56e58..b9f28d6 100644
--- a/crates/sip-core/src/route.rs
+++ b/crates/sip-core/src/route.rs
@@ -300,15 +300,12 @@ impl RouteHeader {
 impl fmt::Display for RouteHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(display_name) = self.0.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
+            crate::quoting::write_quoted(f, display_name)?;
+            f.write_str(" ")?;
         }
         write!(f, "<{}>", self.0.uri().as_str())?;
         for (key, value) in self.0.params() {
-            if let Some(v) = value {
-                write!(f, ";{}={}", key, v)?;
-            } else {
-                write!(f, ";{}", key)?;
-            }
+            crate::quoting::write_param(f, key, value.as_deref())?;
         }
         Ok(())
     }
@@ -336,7 +333,7 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(SmolStr::new(crate::quoting::unquote(display)))
                 },
                 uri,
                 params,
@@ -361,7 +358,7 @@ const MAX_PARAMS: usize = 64;
 /// Returns None if there are too many parameters (>64).
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in crate::quoting::split_unquoted(input, ';') {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -375,7 +372,7 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
         if let Some((name, value)) = raw.split_once('=') {
             params.insert(
                 SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
+                Some(SmolStr::new(crate::quoting::unquote(value))),
             );
         } else {
             params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
diff --git a/crates/sip-core/src/service_route.rs b/crates/sip-core/src/service_route.rs
index 77d006b..87b3969 100644
--- a/crates/sip-core/src/service_route.rs
+++ b/crates/sip-core/src/service_route.rs
@@ -149,15 +149,12 @@ impl fmt::Display for PathHeader {
                 write!(f, ", ")?;
             }
             if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
+                crate::quoting::write_quoted(f, display_name)?;
+                f.write_str(" ")?;
             }
             write!(f, "<{}>", route.uri().as_str())?;
             for (key, value) in route.params() {
-                if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
-                } else {
-                    write!(f, ";{}", key)?;
-                }
+                crate::quoting::write_param(f, key, value.as_deref())?;
             }
         }
         Ok(())
@@ -276,15 +273,12 @@ impl fmt::Display for ServiceRouteHeader {
                 write!(f, ", ")?;
             }
             if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
+                crate::quoting::write_quoted(f, display_name)?;
+                f.write_str(" ")?;
             }
             write!(f, "<{}>", route.uri().as_str())?;
             for (key, value) in route.params() {
-                if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
-                } else {
-                    write!(f, ";{}", key)?;
-                }
+                crate::quoting::write_param(f, key, value.as_deref())?;
             }
         }
         Ok(())
-- 
2.43.0


From 0457b04a96917d059df98152b5b41193b95f0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 016/176] fix: Via parameter values honour quoted strings and
 refuse separators

---
 crates/sip-core/src/via.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/via.rs b/crates/sip-core/src/via.rs
index be9baa2..2004424 100644
--- a/crates/sip-core/src/via.rs
+++ b/crates/sip-core/src/via.rs
@@ -229,6 +229,15 @@ fn validate_param_value(value: &str) -> Result<(), ViaError> {
         ));
     }
 
+    if !value.is_empty()
+        && !crate::quoting::is_bare_value(value)
+        && !crate::quoting::is_quoted_string(value)
+    {
+        return Err(ViaError::InvalidParameter(
+            "parameter value contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -359,7 +368,7 @@ impl ViaHeader {
         }
 
         // Split into value and parameters
-        let mut parts = trimmed.split(';');
+        let mut parts = crate::quoting::split_unquoted(trimmed, ';').into_iter();
         let value_part = parts
             .next()
             .ok_or_else(|| ViaError::InvalidFormat("empty Via header".to_string()))?
-- 
2.43.0


From ea3796768bda419ceb06ddfb1e2f15c393311241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 017/176] fix: MIME parameters may hold semicolons inside
 quoted strings

---
 crates/sip-core/src/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/mime.rs b/crates/sip-core/src/mime.rs
index 55c718d..1c9005a 100644
--- a/crates/sip-core/src/mime.rs
+++ b/crates/sip-core/src/mime.rs
@@ -488,7 +488,7 @@ fn normalize_param_value(value: &str) -> Result<SmolStr, MimeTypeError> {
 /// Format: `type/subtype[;param=value]...`
 fn parse_mime_type(s: &str) -> Result<MimeType, MimeTypeError> {
     // Split on semicolon to separate type from parameters
-    let parts: Vec<&str> = s.split(';').collect();
+    let parts = crate::quoting::split_unquoted(s, ';');
 
     if parts.is_empty() {
         return Err(MimeTypeError::InvalidType("empty string".to_string()));
-- 
2.43.0


From 9499b8cb3bccf0b3f6f47662a4683a9230b7d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 018/176] fix: Session-Expires refresher parameter name is
 case-insensitive

---
 crates/sip-core/src/session_timer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/session_timer.rs b/crates/sip-core/src/session_timer.rs
index a09dc54..cf7c714 100644
--- a/crates/sip-core/src/session_timer.rs
+++ b/crates/sip-core/src/session_timer.rs
@@ -343,8 +343,10 @@ impl SessionExpires {
         let mut refresher = None;
         for part in &parts[1..] {
             let param = part.trim();
-            if let Some(value) = param.strip_prefix("refresher=") {
-                refresher = RefresherRole::parse(value.trim());
+            if let Some((name, value)) = param.split_once('=') {
+                if name.trim().eq_ignore_ascii_case("refresher") {
+                    refresher = RefresherRole::parse(value.trim());
+                }
             }
         }
 
-- 
2.43.0


From 06b8b2ff894f5073e123f06ab272172967b8237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 019/176] fix: Security header parameter values refuse
 separators

---
 crates/sip-core/src/security.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 33c1363..09bf4b3 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -105,6 +105,15 @@ fn validate_param_value(value: &str) -> Result<(), SecurityError> {
         ));
     }
 
+    if !value.is_empty()
+        && !crate::quoting::is_bare_value(value)
+        && !crate::quoting::is_quoted_string(value)
+    {
+        return Err(SecurityError::ValidationError(
+            "Parameter value contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From e31cf7d2614c76a7b5265c9788f6ab7840d081d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 020/176] fix: Replaces refuses Call-IDs and tags that would
 add parameters

---
 crates/sip-core/src/replaces.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/sip-core/src/replaces.rs b/crates/sip-core/src/replaces.rs
index 196edcc..ee42e68 100644
--- a/crates/sip-core/src/replaces.rs
+++ b/crates/sip-core/src/replaces.rs
@@ -345,9 +345,23 @@ fn validate_call_id(call_id: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    if call_id.chars().any(|c| c.is_whitespace() || matches!(c, ';' | ',')) {
+        return Err(ReplacesError::InvalidCallId(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
+fn is_token_char(c: char) -> bool {
+    c.is_ascii_alphanumeric()
+        || matches!(
+            c,
+            '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~'
+        )
+}
+
 fn validate_tag(tag: &str) -> Result<(), ReplacesError> {
     if tag.is_empty() {
         return Err(ReplacesError::EmptyTag);
@@ -366,6 +380,12 @@ fn validate_tag(tag: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    if !tag.chars().all(is_token_char) {
+        return Err(ReplacesError::InvalidTag(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 3a4eb23082a187b1eae8a5e9608c50ae45a4cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 021/176] fix: header value parsers honour quoted strings and
 refuse duplicate parameters

---
 crates/sip-parse/src/header_values.rs | 62 +++++++++++++++++----------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 35083cf..79db712 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -9,6 +9,7 @@ use sip_core::geolocation::{GeolocationError, MAX_GEO_VALUES};
 use sip_core::history_info::{HistoryInfoError, MAX_ENTRIES as MAX_HISTORY_ENTRIES};
 use sip_core::{
     p_headers::PHeaderError,
+    quoting::{split_unquoted, unquote},
     service_route::{RouteError, MAX_ROUTES},
     AllowHeader, AuthorizationHeader, ContactHeader, DateHeader, EventHeader, FromHeader,
     GeolocationErrorHeader, GeolocationHeader, GeolocationRoutingHeader, GeolocationValue, Headers,
@@ -175,7 +176,7 @@ pub fn parse_resource_priority(value: &SmolStr) -> Option<ResourcePriorityHeader
 }
 
 pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';').into_iter();
     let package = parts.next()?.trim();
     let mut header = EventHeader::new(package).ok()?;
     let mut has_id = false;
@@ -185,15 +186,16 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
-            if name.eq_ignore_ascii_case("id") {
+            let val = unquote(val);
+            let val = val.as_str();
+            if name.trim().eq_ignore_ascii_case("id") {
                 if has_id {
                     return None;
                 }
                 header = header.with_id(val).ok()?;
                 has_id = true;
             } else {
-                header.add_param(name, Some(val)).ok()?;
+                header.add_param(name.trim(), Some(val)).ok()?;
             }
         } else {
             if part.eq_ignore_ascii_case("id") {
@@ -206,7 +208,7 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
 }
 
 pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';').into_iter();
     let state = SubscriptionState::parse(parts.next().unwrap_or("").trim()).ok()?;
     let mut header = SubscriptionStateHeader::new(state);
     for part in parts {
@@ -215,8 +217,9 @@ pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHead
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
-            header.add_param(name, Some(val)).ok()?;
+            let val = unquote(val);
+            let val = val.as_str();
+            header.add_param(name.trim(), Some(val)).ok()?;
         } else {
             header.add_param(part, None).ok()?;
         }
@@ -290,7 +293,7 @@ pub fn parse_geolocation_header(headers: &Headers) -> Result<GeolocationHeader,
 pub fn parse_geolocation_error(
     value: &SmolStr,
 ) -> Result<GeolocationErrorHeader, GeolocationError> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';').into_iter();
     let code = parts.next().map(|c| c.trim()).filter(|c| !c.is_empty());
     let mut header = GeolocationErrorHeader::new();
     if let Some(code) = code {
@@ -305,7 +308,7 @@ pub fn parse_geolocation_error(
         }
         if let Some((name, val)) = part.split_once('=') {
             let key = name.trim().to_ascii_lowercase();
-            let value = SmolStr::new(val.trim().trim_matches('"'));
+            let value = SmolStr::new(unquote(val));
             if key == "reason" {
                 if let Ok(updated) = header.clone().with_description(value.as_str()) {
                     header = updated;
@@ -336,7 +339,7 @@ pub fn parse_geolocation_routing(
 }
 
 pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';').into_iter();
     let access_type = parts.next()?.trim();
     let mut header = PAccessNetworkInfo::new(access_type).ok()?;
     for part in parts {
@@ -346,7 +349,7 @@ pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo
         }
         if let Some((name, val)) = part.split_once('=') {
             if header
-                .add_param(name.trim(), Some(val.trim().trim_matches('"')))
+                .add_param(name.trim(), Some(unquote(val)))
                 .is_err()
             {
                 return None;
@@ -363,7 +366,8 @@ pub fn parse_p_visited_network_id(value: &SmolStr) -> Option<PVisitedNetworkIdHe
     let values: Vec<SmolStr> = parts
         .into_iter()
         .filter_map(|token| {
-            let trimmed = token.trim_matches('"').trim();
+            let value = unquote(&token);
+            let trimmed = value.trim();
             if trimmed.is_empty() {
                 None
             } else {
@@ -425,7 +429,7 @@ fn parse_name_addr(value: &SmolStr) -> Option<NameAddr> {
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(SmolStr::new(unquote(display)))
                 },
                 uri,
                 params,
@@ -449,7 +453,7 @@ const MAX_PARAMS: usize = 64;
 /// Returns None if there are too many parameters (>64).
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in split_unquoted(input, ';') {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -460,13 +464,16 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
             return None;
         }
 
-        if let Some((name, value)) = raw.split_once('=') {
-            params.insert(
-                SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
-            );
-        } else {
-            params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
+        let (name, value) = match raw.split_once('=') {
+            Some((name, value)) => (name.trim(), Some(SmolStr::new(unquote(value)))),
+            None => (raw, None),
+        };
+        // RFC 3261 §7.3.1: a parameter name must not appear more than once
+        if params
+            .insert(SmolStr::new(name.to_ascii_lowercase()), value)
+            .is_some()
+        {
+            return None;
         }
     }
     Some(params)
@@ -542,7 +549,11 @@ fn parse_auth_like_header(value: &SmolStr) -> Option<AuthorizationHeader> {
         if params.contains_key(&key) {
             return None;
         }
-        let cleaned = val.trim().trim_matches('"');
+        let val = val.trim();
+        let cleaned = val
+            .strip_prefix('"')
+            .and_then(|v| v.strip_suffix('"'))
+            .unwrap_or(val);
         params.insert(key, SmolStr::new(cleaned));
     }
     // Use from_raw() which validates scheme, params count, and param values
@@ -554,6 +565,7 @@ fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut in_quotes = false;
+    let mut in_angle = false;
     let mut escape_next = false;
     for ch in input.chars() {
         if escape_next {
@@ -570,7 +582,11 @@ fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
                 in_quotes = !in_quotes;
                 current.push(ch);
             }
-            ',' if !in_quotes => {
+            '<' | '>' if !in_quotes => {
+                in_angle = ch == '<';
+                current.push(ch);
+            }
+            ',' if !in_quotes && !in_angle => {
                 if !current.trim().is_empty() {
                     // Security: Prevent DoS via excessive comma-separated values
                     if parts.len() >= max_parts {
-- 
2.43.0


From 86a30b02855ae1984e7c69bccf3fc5b3f865fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 022/176] fix: Route and Call-Info fields may list several
 values

---
 crates/sip-parse/src/header_values.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 79db712..5e6c827 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -33,7 +33,9 @@ pub fn parse_contact_header(value: &SmolStr) -> Option<ContactHeader> {
 pub fn parse_route_headers(headers: &Headers, name: &str) -> Vec<RouteHeader> {
     headers
         .get_all_smol(name)
-        .filter_map(parse_route_header)
+        .filter_map(|value| split_quoted_commas(value, MAX_ROUTES))
+        .flatten()
+        .filter_map(|value| parse_route_header(&SmolStr::new(value)))
         .collect()
 }
 
@@ -56,7 +58,9 @@ pub fn parse_call_info_header(value: &SmolStr) -> Option<NameAddrHeader> {
 pub fn parse_call_info_headers(headers: &Headers) -> Vec<NameAddrHeader> {
     headers
         .get_all_smol("Call-Info")
-        .filter_map(parse_call_info_header)
+        .filter_map(|value| split_quoted_commas(value, MAX_PARAMS))
+        .flatten()
+        .filter_map(|value| parse_call_info_header(&SmolStr::new(value)))
         .collect()
 }
 
-- 
2.43.0


From c5131848af25efc932ec117fc97d2a19ecc1f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 023/176] fix: Resource-Priority namespaces and priorities are
 tokens without dots

---
 crates/sip-core/src/resource_priority.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/sip-core/src/resource_priority.rs b/crates/sip-core/src/resource_priority.rs
index 18cb19a..5791ac5 100644
--- a/crates/sip-core/src/resource_priority.rs
+++ b/crates/sip-core/src/resource_priority.rs
@@ -283,6 +283,11 @@ impl fmt::Display for ResourcePriorityHeader {
 
 // Validation functions
 
+// RFC 4412: token-nodot
+fn is_token_nodot_char(c: char) -> bool {
+    c.is_ascii_alphanumeric() || matches!(c, '-' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~')
+}
+
 fn validate_namespace(namespace: &str) -> Result<(), ResourcePriorityError> {
     if namespace.is_empty() {
         return Err(ResourcePriorityError::EmptyNamespace);
@@ -297,12 +302,9 @@ fn validate_namespace(namespace: &str) -> Result<(), ResourcePriorityError> {
 
     // RFC 4412: namespace is a token (alphanumeric + special chars)
     // Block control characters and whitespace
-    if namespace
-        .chars()
-        .any(|c| c.is_ascii_control() || c.is_whitespace())
-    {
+    if !namespace.chars().all(is_token_nodot_char) {
         return Err(ResourcePriorityError::InvalidNamespace(
-            "contains control characters or whitespace".to_string(),
+            "contains invalid characters".to_string(),
         ));
     }
 
@@ -323,12 +325,9 @@ fn validate_priority(priority: &str) -> Result<(), ResourcePriorityError> {
 
     // RFC 4412: priority is a token (alphanumeric + special chars)
     // Block control characters and whitespace
-    if priority
-        .chars()
-        .any(|c| c.is_ascii_control() || c.is_whitespace())
-    {
+    if !priority.chars().all(is_token_nodot_char) {
         return Err(ResourcePriorityError::InvalidPriority(
-            "contains control characters or whitespace".to_string(),
+            "contains invalid characters".to_string(),
         ));
     }
 
-- 
2.43.0


From 365075099e2c4131fe2cfd01f1536bf9a8aa625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 024/176] fix: security mechanism and parameter names are
 tokens, parameter names ignore case

---
 crates/sip-core/src/security.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 09bf4b3..531d78e 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -42,6 +42,14 @@ impl std::error::Error for SecurityError {}
 
 // Validation functions
 
+fn is_token_char(c: char) -> bool {
+    c.is_ascii_alphanumeric()
+        || matches!(
+            c,
+            '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~'
+        )
+}
+
 fn validate_mechanism_name(name: &str) -> Result<(), SecurityError> {
     if name.is_empty() {
         return Err(SecurityError::ValidationError(
@@ -56,7 +64,7 @@ fn validate_mechanism_name(name: &str) -> Result<(), SecurityError> {
         )));
     }
 
-    if name.chars().any(|c| c.is_control() || c.is_whitespace()) {
+    if !name.chars().all(is_token_char) {
         return Err(SecurityError::ValidationError(
             "Mechanism name contains invalid characters".to_string(),
         ));
@@ -79,10 +87,7 @@ fn validate_param_name(name: &str) -> Result<(), SecurityError> {
         )));
     }
 
-    if name
-        .chars()
-        .any(|c| c.is_control() || c.is_whitespace() || c == ';' || c == '=' || c == ',')
-    {
+    if !name.chars().all(is_token_char) {
         return Err(SecurityError::ValidationError(
             "Parameter name contains invalid characters".to_string(),
         ));
@@ -213,7 +218,12 @@ impl SecurityEntry {
 
     /// Sets a parameter value with validation.
     pub fn set_param(&mut self, name: &str, value: Option<&str>) -> Result<(), SecurityError> {
-        if self.params.len() >= MAX_PARAMS_PER_ENTRY {
+        let existing = self
+            .params
+            .keys()
+            .find(|key| key.eq_ignore_ascii_case(name))
+            .cloned();
+        if existing.is_none() && self.params.len() >= MAX_PARAMS_PER_ENTRY {
             return Err(SecurityError::TooManyItems {
                 field: "parameters",
                 max: MAX_PARAMS_PER_ENTRY,
@@ -221,13 +231,12 @@ impl SecurityEntry {
         }
 
         validate_param_name(name)?;
-
         if let Some(v) = value {
             validate_param_value(v)?;
         }
 
-        self.params
-            .insert(SmolStr::new(name), value.map(SmolStr::new));
+        let key = existing.unwrap_or_else(|| SmolStr::new(name));
+        self.params.insert(key, value.map(SmolStr::new));
         Ok(())
     }
 
-- 
2.43.0


From 6fb2800d9878411401c4fad96688485efc208e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 025/176] fix: digest verification uses up a nonce-count only
 after the response proved correct

---
 crates/sip-auth/src/lib.rs | 106 +++++++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 33 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7ac0788..4434589 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -484,44 +484,47 @@ impl Nonce {
         body: &[u8],
         max_request_age: Duration,
     ) -> bool {
-        // Reject requests that are significantly delayed (potential replay attack)
-        if self.last_nc > 0 && self.last_used.elapsed() > max_request_age {
-            // If this isn't the first request (last_nc > 0) and it's been too long
-            // since the last successful auth, reject as potential replay
+        let request_hash = Self::request_hash(method, uri, body);
+        if !self.accepts(nc, &request_hash, max_request_age) {
             return false;
         }
-        // Compute hash of request (method:uri:body bytes).
+        self.last_nc = nc;
+        self.last_request_hash = Some(request_hash);
+        self.last_used = Instant::now(); // Update last used time
+        true
+    }
+
+    /// Hash of a request (method:uri:body bytes).
+    fn request_hash(method: &Method, uri: &str, body: &[u8]) -> String {
         let mut ctx = Sha256::new();
         ctx.update(method.as_str().as_bytes());
         ctx.update(b":");
         ctx.update(uri.as_bytes());
         ctx.update(b":");
         ctx.update(body);
-        let request_hash = hex::encode(ctx.finalize());
+        hex::encode(ctx.finalize())
+    }
+
+    /// Whether a request with this nonce-count would be accepted now, without
+    /// recording it.
+    fn accepts(&self, nc: u32, request_hash: &str, max_request_age: Duration) -> bool {
+        // Reject requests that are significantly delayed (potential replay attack)
+        if self.last_nc > 0 && self.last_used.elapsed() > max_request_age {
+            // If this isn't the first request (last_nc > 0) and it's been too long
+            // since the last successful auth, reject as potential replay
+            return false;
+        }
 
         if nc > self.last_nc {
-            // New request with incrementing nc - accept and store
-            self.last_nc = nc;
-            self.last_request_hash = Some(request_hash);
-            self.last_used = Instant::now(); // Update last used time
+            // New request with incrementing nc
             true
         } else if nc == self.last_nc {
             // Potential retransmission - accept only if request hash matches
             // Use constant-time comparison to avoid timing side-channels
-            if let Some(ref last_hash) = self.last_request_hash {
-                let hashes_match: bool = last_hash.as_bytes().ct_eq(request_hash.as_bytes()).into();
-                if hashes_match {
-                    // Valid retransmission, update last used time
-                    self.last_used = Instant::now();
-                    true
-                } else {
-                    false
-                }
-            } else {
+            match self.last_request_hash {
+                Some(ref last_hash) => last_hash.as_bytes().ct_eq(request_hash.as_bytes()).into(),
                 // First request with this nc
-                self.last_request_hash = Some(request_hash);
-                self.last_used = Instant::now();
-                true
+                None => true,
             }
         } else {
             // nc < last_nc is a replay attack (going backwards)
@@ -627,6 +630,26 @@ impl NonceManager {
         }
     }
 
+    /// Like `verify_with_nc`, but records nothing: the request's digest has not
+    /// been checked yet, so it must not use up the nonce-count.
+    fn would_accept(
+        &self,
+        value: &str,
+        nc: u32,
+        method: &Method,
+        uri: &str,
+        body: &[u8],
+    ) -> bool {
+        self.nonces.get(value).is_some_and(|entry| {
+            entry.is_valid()
+                && entry.accepts(
+                    nc,
+                    &Nonce::request_hash(method, uri, body),
+                    self.max_request_age,
+                )
+        })
+    }
+
     /// Basic verification without nonce-count tracking (for backwards compatibility).
     /// Use verify_with_nc() for proper replay protection.
     pub fn verify(&self, value: &str) -> bool {
@@ -809,6 +832,7 @@ struct DigestParams {
     uri: SmolStr,
     response: SmolStr,
     nc_raw: Option<SmolStr>,
+    nc_value: Option<u32>,
     cnonce: Option<SmolStr>,
     qop: Option<Qop>,
 }
@@ -986,7 +1010,7 @@ impl<S> DigestAuthenticator<S> {
             return Ok(None);
         }
 
-        let _validated_nc = if let Some(nc_str) = nc {
+        let nc_value = if let Some(nc_str) = nc {
             let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
                 .map_err(|_| anyhow!("invalid nc format"))?;
 
@@ -1003,7 +1027,7 @@ impl<S> DigestAuthenticator<S> {
                 return Ok(None);
             }
 
-            if !self.nonce_manager.verify_with_nc(
+            if !self.nonce_manager.would_accept(
                 nonce,
                 nc_value,
                 request.method(),
@@ -1029,10 +1053,26 @@ impl<S> DigestAuthenticator<S> {
             uri: uri.clone(),
             response: response.clone(),
             nc_raw: nc.cloned(),
+            nc_value,
             cnonce: cnonce.cloned(),
             qop,
         }))
     }
+
+    /// Records the nonce-count of a request whose digest response was correct.
+    /// False if another request has used it in the meantime.
+    fn consume_nonce_count(&self, params: &DigestParams, request: &Request) -> bool {
+        match params.nc_value {
+            Some(nc) => self.nonce_manager.verify_with_nc(
+                params.nonce.as_str(),
+                nc,
+                request.method(),
+                request.uri().as_str(),
+                request.body(),
+            ),
+            None => true,
+        }
+    }
 }
 
 impl<S> DigestAuthenticator<S> {
@@ -1362,10 +1402,10 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        Ok(
+            constant_time_eq(response_calc.as_bytes(), params.response.as_bytes())
+                && self.consume_nonce_count(&params, request),
+        )
     }
 
     fn credentials_for(&self, _method: &Method, _uri: &str) -> Option<Credentials> {
@@ -1425,10 +1465,10 @@ impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        Ok(
+            constant_time_eq(response_calc.as_bytes(), params.response.as_bytes())
+                && self.consume_nonce_count(&params, request),
+        )
     }
 }
 
-- 
2.43.0


From 84f18305ad8a47fbed6dd9d36339529a168236f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 026/176] fix: nonce capacity below ten is enforced

---
 crates/sip-auth/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 4434589..4de48fc 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -599,7 +599,7 @@ impl NonceManager {
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest(self.max_nonces / 10); // Remove 10% of capacity
+                self.remove_oldest((self.max_nonces / 10).max(1)); // Remove 10% of capacity
             }
         }
 
-- 
2.43.0


From ebb217208739e4f8d7ae1afbfb78f0c79a603109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 027/176] fix: a nonce-count of zero is refused

---
 crates/sip-auth/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 4de48fc..c0f224c 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -508,6 +508,11 @@ impl Nonce {
     /// Whether a request with this nonce-count would be accepted now, without
     /// recording it.
     fn accepts(&self, nc: u32, request_hash: &str, max_request_age: Duration) -> bool {
+        // Nonce-counts start at 1 (RFC 7616 §3.4); a zero would never advance
+        // the replay state.
+        if nc == 0 {
+            return false;
+        }
         // Reject requests that are significantly delayed (potential replay attack)
         if self.last_nc > 0 && self.last_used.elapsed() > max_request_age {
             // If this isn't the first request (last_nc > 0) and it's been too long
-- 
2.43.0


From 55cdba223fca5d5a1e77e921a7f025b0b0f395e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 028/176] fix: digest challenges copy every Via of the request

---
 crates/sip-auth/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index c0f224c..e0dcc42 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1168,7 +1168,7 @@ impl<S> DigestAuthenticator<S> {
     pub fn challenge_stale(&self, request: &Request) -> Result<Response> {
         let mut headers = self.build_challenge_with_stale(true);
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1352,7 +1352,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         let mut headers = self.build_challenge();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
-- 
2.43.0


From d4737b665c5dc63561b4bcffc9f61a5a1b215660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 029/176] fix: digest challenges look for the To tag among the
 header parameters

---
 crates/sip-auth/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index e0dcc42..8611a12 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -38,7 +38,7 @@ use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sha2::{Digest, Sha256, Sha512};
 use sip_core::{Headers, Method, Request, Response, StatusLine};
-use sip_parse::parse_authorization_header;
+use sip_parse::{parse_authorization_header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
 use std::fmt::Write;
@@ -1790,7 +1790,11 @@ impl DigestClient {
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists
-    if to_header.contains(";tag=") {
+    let has_tag = match parse_to_header(&SmolStr::new(to_header)) {
+        Some(to) => to.tag().is_some(),
+        None => to_header.contains(";tag="),
+    };
+    if has_tag {
         return SmolStr::new(to_header);
     }
 
-- 
2.43.0


From 9fdc26a96587f575a0405f1286386d83305594cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 030/176] fix: DigestClient counts requests per nonce

---
 crates/sip-auth/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 8611a12..d6194d9 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1757,6 +1757,9 @@ pub struct DigestClient {
     password: String,
     #[zeroize(skip)]
     nc: u32,
+    /// Nonce that `nc` counts the uses of.
+    #[zeroize(skip)]
+    nonce: SmolStr,
 }
 
 impl std::fmt::Debug for DigestClient {
@@ -1815,6 +1818,7 @@ impl DigestClient {
             username: SmolStr::new(username),
             password: password.to_string(),
             nc: 0,
+            nonce: SmolStr::default(),
         }
     }
 
@@ -1831,6 +1835,11 @@ impl DigestClient {
         opaque: Option<&str>,
         body: &[u8],
     ) -> String {
+        // RFC 7616 §3.4: nc counts the requests sent with this nonce
+        if self.nonce != nonce {
+            self.nonce = SmolStr::new(nonce);
+            self.nc = 0;
+        }
         self.nc = self.nc.saturating_add(1);
         let nc_str = format!("{:08x}", self.nc);
         let cnonce: String = rand::rng()
-- 
2.43.0


From e3578852792f210a45075bb6fa8d451542296982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 031/176] fix: token buckets refill at exactly the configured
 rate

---
 crates/sip-ratelimit/src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 08a6bee..a1d646e 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -262,6 +262,14 @@ impl RateLimitConfig {
         Ok(self)
     }
 
+    /// Exact time one token takes to refill (rounded up to a nanosecond), so
+    /// that the configured rate holds even where it is no whole number of
+    /// milliseconds per token.
+    fn refill_interval(&self) -> Duration {
+        let window_ns = self.window_secs * 1_000_000_000;
+        Duration::from_nanos(window_ns.div_ceil(self.max_requests.max(1) as u64))
+    }
+
     /// Set idle timeout for cleanup (in seconds)
     pub fn with_idle_timeout(mut self, timeout_secs: u64) -> Self {
         self.idle_timeout_secs = timeout_secs;
@@ -370,13 +378,14 @@ impl TokenBucket {
 
         let now = Instant::now();
         let elapsed = now.duration_since(self.last_refill);
-        let refill_interval = Duration::from_millis(config.refill_interval_ms);
+        let interval_ns = config.refill_interval().as_nanos() as u64;
 
-        if elapsed >= refill_interval {
-            let intervals = elapsed.as_millis() / config.refill_interval_ms as u128;
+        let intervals = elapsed.as_nanos() as u64 / interval_ns;
+        if intervals > 0 {
             let tokens_to_add = (intervals as f64) * (config.tokens_per_refill as f64);
             self.tokens = (self.tokens + tokens_to_add).min(config.burst_capacity as f64);
-            self.last_refill = now;
+            // Keep the part of an interval that has not earned a token yet
+            self.last_refill += Duration::from_nanos(intervals * interval_ns);
         }
     }
 
@@ -732,7 +741,7 @@ impl RateLimiter {
         let time_to_full = if bucket.tokens < self.config.burst_capacity as f64 {
             let tokens_needed = self.config.burst_capacity as f64 - bucket.tokens;
             let refills_needed = (tokens_needed / self.config.tokens_per_refill as f64).ceil();
-            Duration::from_millis(refills_needed as u64 * self.config.refill_interval_ms)
+            self.config.refill_interval() * refills_needed as u32
         } else {
             Duration::from_secs(0)
         };
-- 
2.43.0


From c94e375a41847283e99b8063f7dbd311e7a650ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 032/176] fix: idle rate-limit buckets are kept until they
 would be full again by default

---
 crates/sip-ratelimit/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index a1d646e..2ad2073 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -203,7 +203,9 @@ impl RateLimitConfig {
             burst_capacity: max_requests, // Default: same as max_requests
             refill_interval_ms,
             tokens_per_refill: 1,
-            idle_timeout_secs: 300, // 5 minutes default
+            // 5 minutes default, but never before a drained bucket is full again:
+            // dropping it earlier would hand its key a new burst
+            idle_timeout_secs: window_secs.max(300),
             enabled: true,
         })
     }
@@ -259,6 +261,10 @@ impl RateLimitConfig {
             });
         }
         self.burst_capacity = capacity;
+        let refill_secs = (self.refill_interval() * capacity).as_secs() + 1;
+        if capacity > self.max_requests {
+            self.idle_timeout_secs = self.idle_timeout_secs.max(refill_secs);
+        }
         Ok(self)
     }
 
-- 
2.43.0


From adea6c171ec7291badf38a8b46de2715e0aa8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 033/176] fix: registrar responses copy every Via of the
 request

---
 crates/sip-registrar/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 34f7be2..b44b39a 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1395,8 +1395,8 @@ impl<S, A> BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
-            headers.push(SmolStr::new("Via"), via)?;
+        for via in request.headers().get_all_smol("Via") {
+            headers.push(SmolStr::new("Via"), via.clone())?;
         }
         if let Some(from) = request.headers().get("From") {
             headers.push(SmolStr::new("From"), from)?;
@@ -1629,8 +1629,8 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
             let mut headers = Headers::new();
 
-            if let Some(via) = request.headers().get("Via") {
-                headers.push(SmolStr::new("Via"), via)?;
+            for via in request.headers().get_all_smol("Via") {
+                headers.push(SmolStr::new("Via"), via.clone())?;
             }
             if let Some(from) = request.headers().get("From") {
                 headers.push(SmolStr::new("From"), from)?;
@@ -1782,8 +1782,8 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
         let mut headers = Headers::new();
 
-        if let Some(via) = request.headers().get("Via") {
-            headers.push(SmolStr::new("Via"), via)?;
+        for via in request.headers().get_all_smol("Via") {
+            headers.push(SmolStr::new("Via"), via.clone())?;
         }
         if let Some(from) = request.headers().get("From") {
             headers.push(SmolStr::new("From"), from)?;
@@ -1981,8 +1981,8 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             let mut headers = Headers::new();
 
             // RFC 3261: Copy required headers from request to response
-            if let Some(via) = request.headers().get("Via") {
-                headers.push(SmolStr::new("Via"), via)?;
+            for via in request.headers().get_all_smol("Via") {
+                headers.push(SmolStr::new("Via"), via.clone())?;
             }
             if let Some(from) = request.headers().get("From") {
                 headers.push(SmolStr::new("From"), from)?;
@@ -2146,8 +2146,8 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
-            headers.push(SmolStr::new("Via"), via)?;
+        for via in request.headers().get_all_smol("Via") {
+            headers.push(SmolStr::new("Via"), via.clone())?;
         }
         if let Some(from) = request.headers().get("From") {
             headers.push(SmolStr::new("From"), from)?;
-- 
2.43.0


From 2e98fee06e584cd158a267c0152a5d780cfc6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 034/176] fix: registrar looks for the To tag among the header
 parameters

---
 crates/sip-registrar/src/lib.rs | 34 +++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index b44b39a..82fa0a0 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2213,8 +2213,14 @@ fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> Smo
 /// Ensures To header has a tag parameter (RFC 3261 §8.2.6.2)
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
-    // Check if tag already exists
-    if to_header.contains(";tag=") {
+    // Check if tag already exists among the header parameters (not in a quoted
+    // display name or inside the URI)
+    let (_, params) = split_contact(to_header);
+    if params
+        .split(';')
+        .filter_map(|param| param.split('=').next())
+        .any(|name| name.trim().eq_ignore_ascii_case("tag"))
+    {
         return SmolStr::new(to_header);
     }
 
@@ -2229,6 +2235,30 @@ fn ensure_to_tag(to_header: &str) -> SmolStr {
     SmolStr::new(format!("{};tag={}", to_header, tag))
 }
 
+/// Splits a name-addr or addr-spec value into its URI part (with any display
+/// name and brackets) and its header parameters (with the leading ';').
+/// Quoted strings and brackets are respected.
+fn split_contact(value: &str) -> (&str, &str) {
+    let mut in_quotes = false;
+    let mut in_angle = false;
+    let mut escape_next = false;
+    for (idx, ch) in value.char_indices() {
+        if escape_next {
+            escape_next = false;
+            continue;
+        }
+        match ch {
+            '\\' if in_quotes => escape_next = true,
+            '"' if !in_angle => in_quotes = !in_quotes,
+            '<' if !in_quotes => in_angle = true,
+            '>' if !in_quotes => in_angle = false,
+            ';' if !in_quotes && !in_angle => return value.split_at(idx),
+            _ => {}
+        }
+    }
+    (value, "")
+}
+
 fn split_quoted_commas(input: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
-- 
2.43.0


From e15c73da392331492df53eb22f5582cfa2a1f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 035/176] fix: registrar reads Contact values with quoted
 strings and commas in the URI

---
 crates/sip-registrar/src/lib.rs | 71 +++++++++++++--------------------
 1 file changed, 28 insertions(+), 43 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 82fa0a0..e4ca565 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1235,30 +1235,24 @@ impl<S, A> BasicRegistrar<S, A> {
     fn extract_contact_uri(&self, contact_header: &str) -> Result<SmolStr, ContactHeaderError> {
         let trimmed = contact_header.trim();
 
-        // Handle <uri> format
-        if let Some(start) = trimmed.find('<') {
-            let end = trimmed[start + 1..]
-                .find('>')
-                .ok_or(ContactHeaderError::Invalid)?;
-            let uri = trimmed[start + 1..start + 1 + end].trim();
-            if uri.is_empty() {
-                return Err(ContactHeaderError::Invalid);
+        // The URI part ends at the first semicolon outside quotes and brackets
+        let (addr, _) = split_contact(trimmed);
+        let addr = addr.trim();
+
+        // Handle <uri> format; a display name may itself contain brackets when
+        // quoted, so the URI is the last bracketed part
+        let uri = match addr.strip_suffix('>') {
+            Some(inner) => {
+                let start = inner.rfind('<').ok_or(ContactHeaderError::Invalid)?;
+                inner[start + 1..].trim()
             }
-            return Ok(SmolStr::new(uri));
-        }
-
-        // Handle uri without brackets (stop at first semicolon)
-        if let Some(pos) = trimmed.find(';') {
-            let uri = trimmed[..pos].trim();
-            if uri.is_empty() {
-                return Err(ContactHeaderError::Invalid);
-            }
-            Ok(SmolStr::new(uri))
-        } else if trimmed.is_empty() {
-            Err(ContactHeaderError::Invalid)
-        } else {
-            Ok(SmolStr::new(trimmed))
+            None if addr.contains(['<', '>']) => return Err(ContactHeaderError::Invalid),
+            None => addr,
+        };
+        if uri.is_empty() {
+            return Err(ContactHeaderError::Invalid);
         }
+        Ok(SmolStr::new(uri))
     }
 
     fn contact_param_value<'a>(
@@ -1271,25 +1265,11 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        let params_section = if let Some(start) = trimmed.find('<') {
-            let end = trimmed[start + 1..]
-                .find('>')
-                .ok_or(ContactParamError::Invalid)?;
-            let after = &trimmed[start + 1 + end + 1..];
-            after.trim()
-        } else if let Some(pos) = trimmed.find(';') {
-            &trimmed[pos..]
-        } else {
-            return Ok(None);
-        };
-
-        let mut params = params_section.trim();
-        params = params.strip_prefix(';').unwrap_or(params);
-        if params.is_empty() {
-            return Ok(None);
-        }
-
-        for param in params.split(';') {
+        let (_, mut rest) = split_contact(trimmed);
+        while let Some(after) = rest.strip_prefix(';') {
+            // one parameter, up to the next ';' outside a quoted string
+            let (param, next) = split_contact(after);
+            rest = next;
             let param = param.trim();
             if param.is_empty() {
                 continue;
@@ -2263,6 +2243,7 @@ fn split_quoted_commas(input: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut in_quotes = false;
+    let mut in_angle = false;
     let mut escape_next = false;
 
     for ch in input.chars() {
@@ -2276,11 +2257,15 @@ fn split_quoted_commas(input: &str) -> Vec<String> {
                 current.push(ch);
                 escape_next = true;
             }
-            '"' => {
+            '"' if !in_angle => {
                 in_quotes = !in_quotes;
                 current.push(ch);
             }
-            ',' if !in_quotes => {
+            '<' | '>' if !in_quotes => {
+                in_angle = ch == '<';
+                current.push(ch);
+            }
+            ',' if !in_quotes && !in_angle => {
                 if !current.trim().is_empty() {
                     parts.push(current.trim().to_owned());
                 }
-- 
2.43.0


From dcf1d16a3046b77692db68e83a65efc60f2294ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 036/176] fix: registrar encloses the contact URI so that its
 parameters stay its own

---
 crates/sip-registrar/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index e4ca565..9548af3 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2179,10 +2179,10 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
 
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
     if expires.as_secs() == 0 {
-        SmolStr::new(format!("{};expires=0", contact_uri))
+        SmolStr::new(format!("<{}>;expires=0", contact_uri))
     } else {
         SmolStr::new(format!(
-            "{};expires={};q={}",
+            "<{}>;expires={};q={}",
             contact_uri,
             expires.as_secs(),
             q_value
-- 
2.43.0


From 5f06ef6966d0a10012bcafd9ea50dc5a8c1050e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 037/176] fix: wildcard removal obeys CSeq order and its
 response lists no binding

---
 crates/sip-registrar/src/lib.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 9548af3..cee70fa 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1604,6 +1604,18 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
+            // RFC 3261 §10.3 step 6: an out-of-order request aborts the removal
+            let existing = self.store.lookup(&aor).await?;
+            if existing
+                .iter()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(
+                    request,
+                    400,
+                    "Bad Request - CSeq out of order",
+                );
+            }
             self.store.remove_all(&aor).await?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
@@ -1625,7 +1637,6 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                 headers.push(SmolStr::new("CSeq"), cseq)?;
             }
 
-            headers.push(SmolStr::new("Contact"), SmolStr::new("*"))?;
             headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
@@ -1955,6 +1966,18 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 );
             }
             // Remove all bindings for this AOR
+            // RFC 3261 §10.3 step 6: an out-of-order request aborts the removal
+            let existing = self.store.lookup(&aor)?;
+            if existing
+                .iter()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(
+                    request,
+                    400,
+                    "Bad Request - CSeq out of order",
+                );
+            }
             self.store.remove_all(&aor)?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
@@ -1978,7 +2001,6 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 headers.push(SmolStr::new("CSeq"), cseq)?;
             }
 
-            headers.push(SmolStr::new("Contact"), SmolStr::new("*"))?;
             headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
-- 
2.43.0


From 07671c61df626e624fcb5a8cad682f1767510f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 038/176] fix: a REGISTER updates all of its contacts or none

---
 crates/sip-registrar/src/lib.rs | 112 ++++++++++++++++++++++++--------
 1 file changed, 84 insertions(+), 28 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index cee70fa..f4a4f3b 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1664,6 +1664,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             existing_by_contact.insert(SmolStr::new(binding.contact()), binding);
         }
 
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::with_capacity(contacts.len());
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -1744,18 +1745,29 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                self.store.remove(&aor, contact_uri.as_str()).await?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
-                let mut binding =
-                    Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
-                        .with_call_id(call_id.clone())?
-                        .with_cseq(cseq)?
-                        .with_q_value(q_value)?;
-
-                if let Some(ua) = &user_agent {
-                    binding = binding.with_user_agent(ua.clone())?;
-                }
+                let binding =
+                    Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)
+                        .and_then(|b| b.with_call_id(call_id.clone()))
+                        .and_then(|b| b.with_cseq(cseq))
+                        .and_then(|b| b.with_q_value(q_value))
+                        .and_then(|b| match &user_agent {
+                            Some(ua) => b.with_user_agent(ua.clone()),
+                            None => Ok(b),
+                        });
+                let mut binding = match binding {
+                    Ok(binding) => binding,
+                    Err(e) => {
+                        warn!("REGISTER binding refused: {}", e);
+                        return self.build_error_response(
+                            request,
+                            400,
+                            "Bad Request - Registration out of limits",
+                        );
+                    }
+                };
+
                 if let Some(path) = &request_path {
                     binding = binding.with_path(path.clone());
                 }
@@ -1766,9 +1778,26 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding).await?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
+            }
+        }
+
+        // RFC 3261 §10.3: the updates are committed if and only if all of them
+        // succeed
+        for (contact, binding) in &updates {
+            let result = match binding {
+                Some(binding) => self.store.upsert(binding.clone()).await,
+                None => self.store.remove(&aor, contact.as_str()).await,
+            };
+            if let Err(e) = result {
+                warn!(aor = %aor, contact = %contact, "REGISTER update failed: {}", e);
+                self.store.remove_all(&aor).await?;
+                for previous in existing_by_contact.into_values() {
+                    self.store.upsert(previous).await?;
+                }
+                return self.build_error_response(request, 500, "Server Internal Error");
             }
+            info!(aor = %aor, contact = %contact, removed = binding.is_none(), "REGISTER updated binding");
         }
 
         let mut headers = Headers::new();
@@ -2034,6 +2063,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             existing_by_contact.insert(binding.contact.clone(), binding);
         }
 
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::with_capacity(contacts.len());
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -2115,20 +2145,29 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                // Remove binding
-                self.store.remove(&aor, contact_uri.as_str())?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
-                // Add or update binding
-                let mut binding =
-                    Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
-                        .with_call_id(call_id.clone())?
-                        .with_cseq(cseq)?
-                        .with_q_value(q_value)?;
-
-                if let Some(ua) = &user_agent {
-                    binding = binding.with_user_agent(ua.clone())?;
-                }
+                let binding =
+                    Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)
+                        .and_then(|b| b.with_call_id(call_id.clone()))
+                        .and_then(|b| b.with_cseq(cseq))
+                        .and_then(|b| b.with_q_value(q_value))
+                        .and_then(|b| match &user_agent {
+                            Some(ua) => b.with_user_agent(ua.clone()),
+                            None => Ok(b),
+                        });
+                let mut binding = match binding {
+                    Ok(binding) => binding,
+                    Err(e) => {
+                        warn!("REGISTER binding refused: {}", e);
+                        return self.build_error_response(
+                            request,
+                            400,
+                            "Bad Request - Registration out of limits",
+                        );
+                    }
+                };
+
                 if let Some(path) = &request_path {
                     binding = binding.with_path(path.clone());
                 }
@@ -2139,9 +2178,26 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding)?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
+            }
+        }
+
+        // RFC 3261 §10.3: the updates are committed if and only if all of them
+        // succeed
+        for (contact, binding) in &updates {
+            let result = match binding {
+                Some(binding) => self.store.upsert(binding.clone()),
+                None => self.store.remove(&aor, contact.as_str()),
+            };
+            if let Err(e) = result {
+                warn!(aor = %aor, contact = %contact, "REGISTER update failed: {}", e);
+                self.store.remove_all(&aor)?;
+                for previous in existing_by_contact.into_values() {
+                    self.store.upsert(previous)?;
+                }
+                return self.build_error_response(request, 500, "Server Internal Error");
             }
+            info!(aor = %aor, contact = %contact, removed = binding.is_none(), "REGISTER updated binding");
         }
 
         // Build response
-- 
2.43.0


From 43a55fd55c60bf9da942a5f403e040d314dc1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 039/176] fix: AOR identity is the whole user part, also when
 it contains an escaped '@'

---
 crates/sip-registrar/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index f4a4f3b..f3371f3 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -319,7 +319,8 @@ pub(crate) fn aor_identity(aor: &str) -> Option<&str> {
         (!number.is_empty()).then_some(number)
     } else {
         // sip/sips: the identity is the user part before '@'.
-        rest.split_once('@').map(|(user, _)| user)
+        // (a user part may itself contain an escaped '@').
+        rest.rsplit_once('@').map(|(user, _)| user)
     }
 }
 
-- 
2.43.0


From badafb572684f4da26da93b35680695c3ff6f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 040/176] fix: default registration expiry lies within the
 configured limits

---
 crates/sip-registrar/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index f3371f3..f2c99a8 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1201,14 +1201,21 @@ impl<S, A> BasicRegistrar<S, A> {
 
         let seconds = contact_expires
             .or(header_expires)
-            .unwrap_or(self.default_expires.as_secs());
+            .unwrap_or_else(|| {
+                // the registrar's own choice lies within its own limits
+                self.default_expires
+                    .min(self.max_expires)
+                    .max(self.min_expires)
+                    .as_secs()
+            });
 
         if seconds == 0 {
             return Ok(Duration::from_secs(0));
         }
 
-        let min = self.min_expires.as_secs();
-        let max = self.max_expires.as_secs();
+        // A binding cannot hold less or more than the store's own limits
+        let min = self.min_expires.as_secs().max(MIN_EXPIRES_SECS);
+        let max = self.max_expires.as_secs().min(MAX_EXPIRES_SECS);
         if seconds < min {
             return Err(ExpiresError::TooBrief(min));
         }
-- 
2.43.0


From a5406b674142cfcf646e7bd244b2c0ce2035f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 041/176] fix: expired or replaced bindings do not exhaust the
 location store

---
 crates/sip-registrar/src/lib.rs | 73 +++++++++++++++------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index f2c99a8..f088d21 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -861,8 +861,15 @@ impl LocationStore for MemoryLocationStore {
         let aor_key = SmolStr::new(binding.aor());
 
         // Check total bindings limit (DoS prevention)
-        let total_bindings: usize = self.inner.iter().map(|entry| entry.len()).sum();
-        if total_bindings >= MAX_TOTAL_BINDINGS {
+        // Expired bindings do not count, nor does the one about to be replaced
+        self.purge_expired(&aor_key);
+        let total = || -> usize { self.inner.iter().map(|entry| entry.len()).sum() };
+        let replaces = self
+            .inner
+            .get(&aor_key)
+            .is_some_and(|list| list.iter().any(|b| b.contact.as_str() == binding.contact()));
+        if !replaces && total() >= MAX_TOTAL_BINDINGS && LocationStore::cleanup_expired(self)? == 0
+        {
             return Err(anyhow::anyhow!(RegistrationError::TooManyBindings {
                 max: MAX_TOTAL_BINDINGS,
             }));
@@ -1199,15 +1206,13 @@ impl<S, A> BasicRegistrar<S, A> {
             None => None,
         };
 
-        let seconds = contact_expires
-            .or(header_expires)
-            .unwrap_or_else(|| {
-                // the registrar's own choice lies within its own limits
-                self.default_expires
-                    .min(self.max_expires)
-                    .max(self.min_expires)
-                    .as_secs()
-            });
+        let seconds = contact_expires.or(header_expires).unwrap_or_else(|| {
+            // the registrar's own choice lies within its own limits
+            self.default_expires
+                .min(self.max_expires)
+                .max(self.min_expires)
+                .as_secs()
+        });
 
         if seconds == 0 {
             return Ok(Duration::from_secs(0));
@@ -1618,11 +1623,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                 .iter()
                 .any(|b| b.call_id == call_id && cseq <= b.cseq)
             {
-                return self.build_error_response(
-                    request,
-                    400,
-                    "Bad Request - CSeq out of order",
-                );
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
             }
             self.store.remove_all(&aor).await?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
@@ -1755,15 +1756,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             if expires.as_secs() == 0 {
                 updates.push((contact_uri, None));
             } else {
-                let binding =
-                    Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)
-                        .and_then(|b| b.with_call_id(call_id.clone()))
-                        .and_then(|b| b.with_cseq(cseq))
-                        .and_then(|b| b.with_q_value(q_value))
-                        .and_then(|b| match &user_agent {
-                            Some(ua) => b.with_user_agent(ua.clone()),
-                            None => Ok(b),
-                        });
+                let binding = Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)
+                    .and_then(|b| b.with_call_id(call_id.clone()))
+                    .and_then(|b| b.with_cseq(cseq))
+                    .and_then(|b| b.with_q_value(q_value))
+                    .and_then(|b| match &user_agent {
+                        Some(ua) => b.with_user_agent(ua.clone()),
+                        None => Ok(b),
+                    });
                 let mut binding = match binding {
                     Ok(binding) => binding,
                     Err(e) => {
@@ -2009,11 +2009,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 .iter()
                 .any(|b| b.call_id == call_id && cseq <= b.cseq)
             {
-                return self.build_error_response(
-                    request,
-                    400,
-                    "Bad Request - CSeq out of order",
-                );
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
             }
             self.store.remove_all(&aor)?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
@@ -2155,15 +2151,14 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             if expires.as_secs() == 0 {
                 updates.push((contact_uri, None));
             } else {
-                let binding =
-                    Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)
-                        .and_then(|b| b.with_call_id(call_id.clone()))
-                        .and_then(|b| b.with_cseq(cseq))
-                        .and_then(|b| b.with_q_value(q_value))
-                        .and_then(|b| match &user_agent {
-                            Some(ua) => b.with_user_agent(ua.clone()),
-                            None => Ok(b),
-                        });
+                let binding = Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)
+                    .and_then(|b| b.with_call_id(call_id.clone()))
+                    .and_then(|b| b.with_cseq(cseq))
+                    .and_then(|b| b.with_q_value(q_value))
+                    .and_then(|b| match &user_agent {
+                        Some(ua) => b.with_user_agent(ua.clone()),
+                        None => Ok(b),
+                    });
                 let mut binding = match binding {
                     Ok(binding) => binding,
                     Err(e) => {
-- 
2.43.0


From 905eae51c2834f8e85a8ff540e57dc834806b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 042/176] fix: the registrar authorizes the user whose
 credentials were verified

---
 crates/sip-auth/src/lib.rs      | 18 +++++++++++++++++-
 crates/sip-registrar/src/lib.rs | 10 ++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index d6194d9..7b3a401 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -138,6 +138,14 @@ pub trait Authenticator: Send + Sync {
     fn verify(&self, request: &Request, headers: &Headers) -> Result<bool>;
     fn credentials_for(&self, method: &Method, uri: &str) -> Option<Credentials>;
 
+    /// The username of the credentials that [`Self::verify`] checks.
+    ///
+    /// A request may carry both Authorization and Proxy-Authorization;
+    /// authorization decisions must look at the one that was verified.
+    fn presented_username(&self, request: &Request) -> Option<SmolStr> {
+        extract_auth_username(request.headers())
+    }
+
     /// Returns `true` if the request's Authorization header references a
     /// nonce that this authenticator issued and has since expired.
     ///
@@ -1150,6 +1158,10 @@ impl<S> DigestAuthenticator<S> {
     /// The nonce referenced by the request's `Authorization` /
     /// `Proxy-Authorization` Digest header, if one is present and parses.
     fn presented_nonce(&self, request: &Request) -> Option<SmolStr> {
+        self.presented_param(request, "nonce")
+    }
+
+    fn presented_param(&self, request: &Request, name: &str) -> Option<SmolStr> {
         let header_name = if self.proxy_auth {
             "Proxy-Authorization"
         } else {
@@ -1160,7 +1172,7 @@ impl<S> DigestAuthenticator<S> {
         if !parsed.scheme().eq_ignore_ascii_case("Digest") {
             return None;
         }
-        parsed.param("nonce").cloned()
+        parsed.param(name).cloned()
     }
 
     /// Issues a challenge response with stale=true (RFC 7616 §3.5).
@@ -1417,6 +1429,10 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         None
     }
 
+    fn presented_username(&self, request: &Request) -> Option<SmolStr> {
+        self.presented_param(request, "username")
+    }
+
     fn nonce_is_stale(&self, request: &Request) -> bool {
         // Look for our header (Authorization for 401, Proxy-Authorization
         // for 407) and check whether its nonce is one we issued but has
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index f088d21..cc67be4 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1546,13 +1546,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .presented_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
@@ -1928,13 +1929,14 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .presented_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
-- 
2.43.0


From 321646620d0226f29be484cdaebaf4a9d8d3a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 043/176] fix: registrar Date headers are in GMT

---
 crates/sip-auth/src/lib.rs      |  9 +--------
 crates/sip-registrar/src/lib.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7b3a401..eaa6361 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -645,14 +645,7 @@ impl NonceManager {
 
     /// Like `verify_with_nc`, but records nothing: the request's digest has not
     /// been checked yet, so it must not use up the nonce-count.
-    fn would_accept(
-        &self,
-        value: &str,
-        nc: u32,
-        method: &Method,
-        uri: &str,
-        body: &[u8],
-    ) -> bool {
+    fn would_accept(&self, value: &str, nc: u32, method: &Method, uri: &str, body: &[u8]) -> bool {
         self.nonces.get(value).is_some_and(|entry| {
             entry.is_valid()
                 && entry.accepts(
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index cc67be4..6c7167f 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1647,7 +1647,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                 headers.push(SmolStr::new("CSeq"), cseq)?;
             }
 
-            headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+            headers.push(SmolStr::new("Date"), sip_date(Utc::now()))?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
             return Ok(Response::new(
@@ -1836,7 +1836,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         }
 
         self.append_extensions(&mut headers, &bindings)?;
-        headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+        headers.push(SmolStr::new("Date"), sip_date(Utc::now()))?;
         headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
         Ok(Response::new(
@@ -2036,7 +2036,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 headers.push(SmolStr::new("CSeq"), cseq)?;
             }
 
-            headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+            headers.push(SmolStr::new("Date"), sip_date(Utc::now()))?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
             return Ok(Response::new(
@@ -2235,7 +2235,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         }
 
         self.append_extensions(&mut headers, &bindings)?;
-        headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+        headers.push(SmolStr::new("Date"), sip_date(Utc::now()))?;
         headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
         Ok(Response::new(
@@ -2275,6 +2275,11 @@ fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> Smo
 
 /// Ensures To header has a tag parameter (RFC 3261 §8.2.6.2)
 /// If the To header doesn't have a tag, generates and adds one
+/// Date header value: RFC 3261 §20.17 requires GMT.
+fn sip_date(time: chrono::DateTime<Utc>) -> SmolStr {
+    SmolStr::new(time.format("%a, %d %b %Y %H:%M:%S GMT").to_string())
+}
+
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists among the header parameters (not in a quoted
     // display name or inside the URI)
-- 
2.43.0


From c15bb36b1435f2b1cb2468cfa14582af1ed8fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 044/176] Revert "fix: AOR identity is the whole user part,
 also when it contains an escaped '@'"

The URI parser refuses such users, so it changed nothing.
---
 crates/sip-registrar/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 6c7167f..bc0ddf9 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -319,8 +319,7 @@ pub(crate) fn aor_identity(aor: &str) -> Option<&str> {
         (!number.is_empty()).then_some(number)
     } else {
         // sip/sips: the identity is the user part before '@'.
-        // (a user part may itself contain an escaped '@').
-        rest.rsplit_once('@').map(|(user, _)| user)
+        rest.split_once('@').map(|(user, _)| user)
     }
 }
 
-- 
2.43.0


From b2d8fe1bb037e7df078fb7fea93233142e549735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 045/176] fix: the default registration expiry also respects
 the store's limits

---
 crates/sip-registrar/src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index bc0ddf9..69e27c6 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1205,21 +1205,19 @@ impl<S, A> BasicRegistrar<S, A> {
             None => None,
         };
 
-        let seconds = contact_expires.or(header_expires).unwrap_or_else(|| {
-            // the registrar's own choice lies within its own limits
-            self.default_expires
-                .min(self.max_expires)
-                .max(self.min_expires)
-                .as_secs()
-        });
+        // A binding cannot hold less or more than the store's own limits
+        let min = self.min_expires.as_secs().max(MIN_EXPIRES_SECS);
+        let max = self.max_expires.as_secs().min(MAX_EXPIRES_SECS);
+
+        // the registrar's own choice lies within its own limits
+        let seconds = contact_expires
+            .or(header_expires)
+            .unwrap_or_else(|| self.default_expires.as_secs().min(max).max(min));
 
         if seconds == 0 {
             return Ok(Duration::from_secs(0));
         }
 
-        // A binding cannot hold less or more than the store's own limits
-        let min = self.min_expires.as_secs().max(MIN_EXPIRES_SECS);
-        let max = self.max_expires.as_secs().min(MAX_EXPIRES_SECS);
         if seconds < min {
             return Err(ExpiresError::TooBrief(min));
         }
-- 
2.43.0


From 7e2bdf88f98962202ce3ce4bf3b4523127f6e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 046/176] fix: the registrar refuses Contact values with
 unterminated quotes or brackets

---
 crates/sip-registrar/src/lib.rs | 37 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 69e27c6..4f32d9b 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1249,16 +1249,17 @@ impl<S, A> BasicRegistrar<S, A> {
         let (addr, _) = split_contact(trimmed);
         let addr = addr.trim();
 
-        // Handle <uri> format; a display name may itself contain brackets when
-        // quoted, so the URI is the last bracketed part
-        let uri = match addr.strip_suffix('>') {
-            Some(inner) => {
-                let start = inner.rfind('<').ok_or(ContactHeaderError::Invalid)?;
-                inner[start + 1..].trim()
-            }
-            None if addr.contains(['<', '>']) => return Err(ContactHeaderError::Invalid),
+        // Handle <uri> format; a quoted display name may itself contain brackets
+        let uri = match unquoted_angle(addr)? {
+            Some(start) => addr[start + 1..]
+                .strip_suffix('>')
+                .ok_or(ContactHeaderError::Invalid)?
+                .trim(),
             None => addr,
         };
+        if uri.contains(['<', '>']) {
+            return Err(ContactHeaderError::Invalid);
+        }
         if uri.is_empty() {
             return Err(ContactHeaderError::Invalid);
         }
@@ -2324,6 +2325,26 @@ fn split_contact(value: &str) -> (&str, &str) {
     (value, "")
 }
 
+/// The position of the first '<' outside a quoted string, if any; an
+/// unterminated quoted string is an error.
+fn unquoted_angle(value: &str) -> Result<Option<usize>, ContactHeaderError> {
+    let mut in_quotes = false;
+    let mut escape_next = false;
+    for (idx, ch) in value.char_indices() {
+        match ch {
+            _ if escape_next => escape_next = false,
+            '\\' if in_quotes => escape_next = true,
+            '"' => in_quotes = !in_quotes,
+            '<' if !in_quotes => return Ok(Some(idx)),
+            _ => {}
+        }
+    }
+    if in_quotes {
+        return Err(ContactHeaderError::Invalid);
+    }
+    Ok(None)
+}
+
 fn split_quoted_commas(input: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
-- 
2.43.0


From ad794c807bc3c29c3ebf119e3996a6704d4c1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 047/176] fix: dialog tags are read from the header parameters,
 whatever the display name and URI contain

---
 crates/sip-dialog/src/lib.rs | 52 +++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6bf4d69..b40da91 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1213,16 +1213,54 @@ fn validate_subscription_cseq(cseq: u32) -> Result<(), SubscriptionError> {
 /// Returns `None` if the header carries no tag (e.g. the To header of an
 /// out-of-dialog request). Matching is case-insensitive per RFC 3261 §7.3.1.
 pub fn extract_tag(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
-        let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
-        }
+    header_params(value.as_str())
+        .filter_map(|param| param.split_once('='))
+        .find(|(name, _)| name.trim().eq_ignore_ascii_case("tag"))
+        .map(|(_, tag)| SmolStr::new(tag.trim()))
+        .filter(|tag| !tag.is_empty())
+}
+
+/// Splits an address header value at the first '<' or ';' outside a quoted
+/// display name.
+fn address_start(value: &str) -> Option<usize> {
+    find_unquoted(value, |ch| matches!(ch, '<' | ';'))
+}
+
+/// The header parameters of an address value: those after the bracketed URI,
+/// or after the first ';' when the URI is not bracketed.
+fn header_params(value: &str) -> impl Iterator<Item = &str> {
+    let mut rest = match address_start(value) {
+        Some(idx) if value[idx..].starts_with('<') => value[idx..]
+            .find('>')
+            .map_or("", |end| &value[idx + end + 1..]),
+        Some(idx) => &value[idx..],
+        None => "",
+    };
+    std::iter::from_fn(move || {
+        let start = find_unquoted(rest, |ch| ch == ';')?;
+        let param = &rest[start + 1..];
+        let end = find_unquoted(param, |ch| ch == ';').unwrap_or(param.len());
+        rest = &param[end..];
+        Some(param[..end].trim())
     })
 }
 
+/// The position of the first matching character outside quoted strings.
+fn find_unquoted(value: &str, matches: impl Fn(char) -> bool) -> Option<usize> {
+    let mut in_quotes = false;
+    let mut escaped = false;
+    for (idx, ch) in value.char_indices() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' if in_quotes => escaped = true,
+            '"' => in_quotes = !in_quotes,
+            _ if !in_quotes && matches(ch) => return Some(idx),
+            _ => {}
+        }
+    }
+    None
+}
+
 /// Builds a dialog route set from Record-Route headers.
 ///
 /// Direction matters (RFC 3261 §12.1.1 / §12.1.2): each proxy inserts
-- 
2.43.0


From f90c7ec27b2166f87634cd7fe11494b985b0b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 048/176] fix: dialog URIs are read past quoted display names

---
 crates/sip-dialog/src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index b40da91..ace4d09 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1301,7 +1301,8 @@ fn build_route_set(headers: &Headers, reverse: bool) -> Result<Vec<SipUri>, Dial
 
 /// Extracts Contact URI from headers.
 fn extract_contact_uri(headers: &Headers) -> Option<SipUri> {
-    header(headers, "Contact").and_then(|raw| parse_uri_from_header(raw.as_str()))
+    let contacts = split_header_values(header(headers, "Contact")?.as_str());
+    parse_uri_from_header(contacts.first()?)
 }
 
 /// Parses CSeq number from headers.
@@ -1329,12 +1330,14 @@ fn extract_session_timer(resp: &Response) -> (Option<Duration>, Option<Refresher
 /// Parses URI from header value (handles angle brackets).
 fn parse_uri_from_header(raw: &str) -> Option<SipUri> {
     let trimmed = raw.trim();
-    let uri_part = if let Some(start) = trimmed.find('<') {
-        let end = trimmed[start + 1..].find('>')?;
-        &trimmed[start + 1..start + 1 + end]
-    } else {
+    let uri_part = match address_start(trimmed) {
+        Some(start) if trimmed[start..].starts_with('<') => {
+            let end = trimmed[start + 1..].find('>')?;
+            &trimmed[start + 1..start + 1 + end]
+        }
         // No angle brackets, might have parameters after
-        trimmed.split(';').next()?
+        Some(start) => &trimmed[..start],
+        None => trimmed,
     };
     SipUri::parse(uri_part.trim()).ok()
 }
@@ -1343,14 +1346,16 @@ fn parse_uri_from_header(raw: &str) -> Option<SipUri> {
 fn split_header_values(raw: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut angle_depth = 0usize;
     let mut start = 0usize;
 
     for (idx, ch) in raw.char_indices() {
         match ch {
-            '"' => {
-                in_quotes = !in_quotes;
-            }
+            _ if escaped => escaped = false,
+            '\\' if in_quotes => escaped = true,
+            '"' => in_quotes = !in_quotes,
+            _ if in_quotes => {}
             '<' => {
                 angle_depth = angle_depth.saturating_add(1);
             }
-- 
2.43.0


From c813f9d739339b4798ca331a093b2ed0c1d65b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 049/176] fix: a 100 Trying does not create a dialog

---
 crates/sip-dialog/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index ace4d09..1918482 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -314,7 +314,7 @@ impl Dialog {
 
         // Determine state based on response code
         let state = match resp.code() {
-            100..=199 => DialogStateType::Early,
+            101..=199 => DialogStateType::Early,
             200..=299 => DialogStateType::Confirmed,
             _ => return None, // No dialog for error responses
         };
@@ -375,7 +375,7 @@ impl Dialog {
         let id = DialogId::from_response_uas(resp)?;
 
         let state = match resp.code() {
-            100..=199 => DialogStateType::Early,
+            101..=199 => DialogStateType::Early,
             200..=299 => DialogStateType::Confirmed,
             _ => return None,
         };
-- 
2.43.0


From 686708cefe6d5192df530a70c6b32486cfbf71c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 050/176] fix: only target refresh requests and their 2xx
 responses change the remote target

---
 crates/sip-dialog/src/lib.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 1918482..6b68e97 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -583,9 +583,18 @@ impl Dialog {
     /// → Future SUBSCRIBE refreshes use new remote_target
     /// ```
     pub fn update_from_response(&mut self, resp: &Response) {
-        // Update remote target if Contact present
-        if let Some(contact) = extract_contact_uri(resp.headers()) {
-            self.remote_target = contact;
+        // Update remote target if Contact present: only responses that set up
+        // the dialog and 2xx to target refresh requests carry one that counts
+        // (RFC 3261 §12.2.1.2) — the Contact of a 3xx or 4xx means another thing.
+        let refreshes_target = match resp.code() {
+            101..=199 => self.state == DialogStateType::Early,
+            200..=299 => true,
+            _ => false,
+        };
+        if refreshes_target && is_target_refresh(cseq_method(resp.headers())) {
+            if let Some(contact) = extract_contact_uri(resp.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         // Recompute the route set only when this 2xx confirms an early
@@ -666,8 +675,10 @@ impl Dialog {
         }
 
         // Update remote target from Contact
-        if let Some(contact) = extract_contact_uri(req.headers()) {
-            self.remote_target = contact;
+        if is_target_refresh(Some(req.method().as_str())) {
+            if let Some(contact) = extract_contact_uri(req.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         Ok(())
@@ -1315,6 +1326,20 @@ fn parse_cseq_number(headers: &Headers) -> Option<u32> {
 }
 
 /// Extracts session timer information from response.
+/// Method named by the CSeq header.
+fn cseq_method(headers: &Headers) -> Option<&str> {
+    header(headers, "CSeq")?.split_whitespace().nth(1)
+}
+
+/// Whether requests of this method refresh the remote target of their dialog
+/// (RFC 3261 §12.2, RFC 3311, RFC 3515, RFC 6665).
+fn is_target_refresh(method: Option<&str>) -> bool {
+    matches!(
+        method,
+        Some("INVITE" | "UPDATE" | "SUBSCRIBE" | "NOTIFY" | "REFER")
+    )
+}
+
 fn extract_session_timer(resp: &Response) -> (Option<Duration>, Option<RefresherRole>) {
     if let Some(se_header) = header(resp.headers(), "Session-Expires") {
         if let Some(se) = parse_session_expires(se_header) {
-- 
2.43.0


From 8588ca0762290b477699ba6e4586affac9418ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 051/176] fix: an ACK is matched with the INVITE it
 acknowledges, also after a PRACK

---
 crates/sip-dialog/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6b68e97..85c6aab 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -282,6 +282,8 @@ pub struct Dialog {
 
     /// Last ACK CSeq number (tracked separately to prevent replay)
     last_ack_cseq: Option<u32>,
+    /// CSeq of the last INVITE received in this dialog
+    invite_cseq: Option<u32>,
 
     /// Local URI (our identity)
     local_uri: SipUri,
@@ -355,6 +357,7 @@ impl Dialog {
             route_set,
             local_cseq,
             remote_cseq,
+            invite_cseq: None,
             last_ack_cseq: None,
             local_uri,
             remote_uri,
@@ -418,6 +421,7 @@ impl Dialog {
             route_set,
             local_cseq,
             remote_cseq,
+            invite_cseq: Some(remote_cseq),
             last_ack_cseq: None,
             local_uri,
             remote_uri,
@@ -526,6 +530,7 @@ impl Dialog {
             remote_target,
             local_cseq,
             remote_cseq,
+            invite_cseq: (remote_cseq > 0).then_some(remote_cseq),
             last_ack_cseq,
             route_set,
             secure,
@@ -659,7 +664,8 @@ impl Dialog {
 
         if req.method().as_str() == "ACK" {
             // ACK for an INVITE dialog must reuse the INVITE's CSeq.
-            if cseq != self.remote_cseq || self.remote_cseq == 0 {
+            // Requests sent in between, such as a PRACK, have higher ones.
+            if self.invite_cseq != Some(cseq) {
                 return Err(DialogError::InvalidCSeq);
             }
 
@@ -672,6 +678,9 @@ impl Dialog {
                 validate_cseq_increment(self.remote_cseq, cseq)?;
             }
             self.remote_cseq = cseq;
+            if req.method().as_str() == "INVITE" {
+                self.invite_cseq = Some(cseq);
+            }
         }
 
         // Update remote target from Contact
-- 
2.43.0


From 2f89865f3f55ac1ab0ad9835a7a8758dd8357d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 052/176] fix: a full dialog or subscription manager still
 takes updates of its entries

---
 crates/sip-dialog/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 85c6aab..e25bfb2 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -748,7 +748,7 @@ impl DialogManager {
         // MAX_EARLY_DIALOGS_PER_CALL_ID be exceeded under load).
         let _guard = self.insert_lock.lock();
 
-        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
+        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS && !self.dialogs.contains_key(&dialog.id) {
             return Err(DialogError::TooManyDialogs {
                 max: MAX_CONFIRMED_DIALOGS,
             });
@@ -1752,7 +1752,9 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
+        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
+            && !self.subscriptions.contains_key(&subscription.id)
+        {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
-- 
2.43.0


From 9145ee480b063b7a2dfef71c1d2a8c69d28551dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 053/176] fix: event parameters with non-ASCII text do not
 panic

---
 crates/sip-dialog/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index e25bfb2..8b3eaf5 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1161,8 +1161,11 @@ fn validate_event_package(event: &str) -> Result<(), SubscriptionError> {
     }
     for param in parts {
         let trimmed = param.trim();
-        if trimmed.len() >= 3 && trimmed[..3].eq_ignore_ascii_case("id=") {
-            let id = trimmed[3..].trim().trim_matches('"');
+        if let Some(id) = trimmed
+            .get(..3)
+            .filter(|name| name.eq_ignore_ascii_case("id="))
+            .map(|_| trimmed[3..].trim().trim_matches('"'))
+        {
             if id.len() > MAX_EVENT_ID_LENGTH {
                 return Err(SubscriptionError::EventTooLong {
                     max: MAX_EVENT_ID_LENGTH,
-- 
2.43.0


From 0024543819bc56b97758910ad72bff759dc29cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 054/176] fix: session intervals beyond 32 bits are out of
 range

---
 crates/sip-dialog/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 8b3eaf5..f0fe096 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1109,7 +1109,7 @@ fn validate_cseq_increment(prev: u32, new: u32) -> Result<(), DialogError> {
 
 /// Validates session expires duration is within bounds.
 fn validate_session_expires(duration: Duration) -> Result<(), DialogError> {
-    let secs = duration.as_secs() as u32;
+    let secs = u32::try_from(duration.as_secs()).unwrap_or(u32::MAX);
     if secs < MIN_SESSION_EXPIRES {
         return Err(DialogError::SessionExpiresTooSmall {
             min: MIN_SESSION_EXPIRES,
-- 
2.43.0


From a0f0ba68a18afab94276ec96138909a1989a2833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 055/176] fix: a dialog stored twice is listed once

---
 crates/sip-dialog/src/storage.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index fa383a9..d243295 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -62,7 +62,10 @@ impl DialogStore for InMemoryDialogStore {
         let dialog_id = dialog.id.clone();
         self.inner.insert(dialog.id.clone(), dialog);
         // Update secondary index
-        self.by_call_id.entry(call_id).or_default().push(dialog_id);
+        let mut ids = self.by_call_id.entry(call_id).or_default();
+        if !ids.contains(&dialog_id) {
+            ids.push(dialog_id);
+        }
     }
 
     async fn remove(&self, id: &DialogId) {
@@ -70,9 +73,11 @@ impl DialogStore for InMemoryDialogStore {
         // Update secondary index
         if let Some(mut ids) = self.by_call_id.get_mut(&id.call_id) {
             ids.retain(|did| did != id);
-            if ids.is_empty() {
-                drop(ids);
-                self.by_call_id.remove(&id.call_id);
+            let empty = ids.is_empty();
+            drop(ids);
+            if empty {
+                self.by_call_id
+                    .remove_if(&id.call_id, |_, ids| ids.is_empty());
             }
         }
     }
-- 
2.43.0


From 98b985b36c72695ec107e7e45dff4c09187e7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 056/176] fix: the refresher parameter ignores case

---
 crates/sip-dialog/src/session_timer_manager.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f614998..a27616b 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -390,10 +390,9 @@ pub fn negotiate_session_expires(
 /// `true` if we are the refresher, `false` otherwise
 pub fn determine_refresher_role(refresher_param: Option<&str>, is_uac: bool) -> bool {
     match refresher_param {
-        Some("uac") => is_uac,
-        Some("uas") => !is_uac,
-        Some("UAC") => is_uac, // Case insensitive
-        Some("UAS") => !is_uac,
+        // Case insensitive
+        Some(role) if role.eq_ignore_ascii_case("uac") => is_uac,
+        Some(role) if role.eq_ignore_ascii_case("uas") => !is_uac,
         _ => is_uac, // Default: UAC is refresher if not specified
     }
 }
-- 
2.43.0


From 6355ef028ca9d618772f88b6829b93db66ab2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 057/176] fix: a session timer stopped or refreshed as it fires
 neither fires nor ends its successor

---
 .../sip-dialog/src/session_timer_manager.rs   | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index a27616b..bc5df28 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -42,6 +42,7 @@
 
 use crate::DialogId;
 use dashmap::DashMap;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::mpsc;
@@ -69,9 +70,13 @@ pub enum SessionTimerEvent {
     SessionExpired(DialogId),
 }
 
+static NEXT_TIMER_ID: AtomicU64 = AtomicU64::new(0);
+
 /// Session timer task tracking.
 #[derive(Debug)]
 struct SessionTimerTask {
+    /// Distinguishes this timer from a later one of the same dialog
+    id: u64,
     /// When the session expires
     expiry_time: Instant,
     /// Task cancellation handle
@@ -126,7 +131,9 @@ impl SessionTimerManager {
         let expiry_time = Instant::now() + session_expires;
         let (cancel_tx, mut cancel_rx) = mpsc::channel(SESSION_TIMER_CHANNEL_BOUND);
 
+        let id = NEXT_TIMER_ID.fetch_add(1, Ordering::Relaxed);
         let task = SessionTimerTask {
+            id,
             expiry_time,
             cancel_tx: Some(cancel_tx),
         };
@@ -145,14 +152,15 @@ impl SessionTimerManager {
             // If we're the refresher, schedule refresh event
             if is_refresher {
                 tokio::select! {
-                    _ = sleep(refresh_duration) => {
-                        // Emit refresh needed event
-                        let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
-                    }
+                    biased;
                     _ = cancel_rx.recv() => {
                         // Timer cancelled
                         return;
                     }
+                    _ = sleep(refresh_duration) => {
+                        // Emit refresh needed event
+                        let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
+                    }
                 }
             }
 
@@ -164,16 +172,21 @@ impl SessionTimerManager {
             };
 
             tokio::select! {
-                _ = sleep(remaining) => {
-                    // Session expired - emit expiration event
-                    let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
-
-                    // Remove task from tracking
-                    tasks_ref.remove(&dialog_id_clone);
-                }
+                biased;
                 _ = cancel_rx.recv() => {
                     // Timer cancelled (dialog refreshed or terminated)
                 }
+                _ = sleep(remaining) => {
+                    // Remove task from tracking, unless it was stopped or
+                    // replaced in the meantime
+                    if tasks_ref
+                        .remove_if(&dialog_id_clone, |_, task| task.id == id)
+                        .is_some()
+                    {
+                        // Session expired - emit expiration event
+                        let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
+                    }
+                }
             }
         });
     }
-- 
2.43.0


From 7a506d76f910195f45de04ca4721dcc454235c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 058/176] fix: RSeq numbers of different INVITEs in a dialog
 are told apart

---
 crates/sip-dialog/src/prack_validator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/prack_validator.rs b/crates/sip-dialog/src/prack_validator.rs
index 76a0ffa..8dbfee9 100644
--- a/crates/sip-dialog/src/prack_validator.rs
+++ b/crates/sip-dialog/src/prack_validator.rs
@@ -217,7 +217,8 @@ impl PrackValidator {
 
         let pending_idx = pending_list
             .iter()
-            .position(|p| p.rseq == rack.rseq)
+            .position(|p| p.rseq == rack.rseq && p.cseq == rack.cseq && p.method == rack.method)
+            .or_else(|| pending_list.iter().position(|p| p.rseq == rack.rseq))
             .ok_or_else(|| {
                 anyhow!(
                     "RAck RSeq {} does not match any pending reliable provisional",
-- 
2.43.0


From 6c21239afe65fe3c68ae9765f14fabca7ec92a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 059/176] fix: a 2xx to a PRACK or UPDATE does not confirm an
 early dialog

---
 crates/sip-dialog/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index f0fe096..ca1d77e 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -614,8 +614,16 @@ impl Dialog {
         //
         // Reversed because this is a response to a request *we* sent, so
         // the topmost Record-Route is the hop closest to the peer.
-        let confirms_early_dialog =
-            self.state == DialogStateType::Early && resp.code() >= 200 && resp.code() < 300;
+        //
+        // A 2xx to a PRACK or UPDATE sent in the early dialog confirms nothing.
+        let creating = matches!(
+            cseq_method(resp.headers()),
+            Some("INVITE" | "SUBSCRIBE" | "REFER")
+        );
+        let confirms_early_dialog = creating
+            && self.state == DialogStateType::Early
+            && resp.code() >= 200
+            && resp.code() < 300;
         if confirms_early_dialog {
             let new_route_set = build_route_set(resp.headers(), true).unwrap_or_default();
             if !new_route_set.is_empty() {
@@ -631,7 +639,7 @@ impl Dialog {
         }
 
         // Confirm early dialog on 2xx
-        if resp.code() >= 200 && resp.code() < 300 {
+        if confirms_early_dialog {
             self.confirm();
         }
     }
-- 
2.43.0


From c87128616a9313892880e8fb204345a7dd506cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 060/176] fix: a notifier sends its NOTIFY requests to the
 subscriber's Contact

---
 crates/sip-dialog/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index ca1d77e..0eb33bb 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1589,7 +1589,8 @@ impl Subscription {
         remote_uri: SipUri,
     ) -> Option<Self> {
         let id = SubscriptionId::from_request_response(request, response)?;
-        let contact = extract_contact_uri(response.headers())?;
+        // NOTIFY requests go to the subscriber's Contact, sent in its SUBSCRIBE
+        let contact = extract_contact_uri(request.headers()).unwrap_or_else(|| remote_uri.clone());
         let local_cseq = parse_cseq_number(request.headers())?;
         validate_subscription_cseq(local_cseq).ok()?;
 
-- 
2.43.0


From 80849b249d0de205779f3206c2a7c3b8f52d666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 061/176] fix: sip-sdp accepts transport protocols that start
 like a known one

---
 crates/sip-sdp/src/parse.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 52ec09f..9e8d2f3 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -482,23 +482,24 @@ fn parse_port(input: &str) -> IResult<&str, (u16, Option<u16>)> {
 
 /// Parse protocol: RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF, TCP/TLS/RTP/SAVPF, UDP, TCP, etc.
 fn parse_protocol(input: &str) -> IResult<&str, Protocol> {
-    alt((
-        // WebRTC protocols (longest first to avoid partial matches)
-        map(tag("UDP/TLS/RTP/SAVPF"), |_| Protocol::UdpTlsRtpSavpf),
-        map(tag("TCP/TLS/RTP/SAVPF"), |_| Protocol::TcpTlsRtpSavpf),
-        map(tag("RTP/SAVPF"), |_| Protocol::RtpSavpf),
-        // Traditional RTP protocols
-        map(tag("RTP/SAVP"), |_| Protocol::RtpSavp),
-        map(tag("RTP/AVP"), |_| Protocol::RtpAvp),
-        // Basic protocols
-        map(tag("UDP"), |_| Protocol::Udp),
-        map(tag("TCP"), |_| Protocol::Tcp),
-        // Fallback for unknown protocols
-        map(
-            take_till(|c| c == ' ' || c == '\r' || c == '\n'),
-            |s: &str| Protocol::Other(SmolStr::new(s)),
-        ),
-    ))(input)
+    // Match the whole token: "RTP/AVP" is also a prefix of "RTP/AVPF", "UDP" of
+    // "UDP/TLS/RTP/SAVP" and so on.
+    map(
+        take_till(|c| c == ' ' || c == '\r' || c == '\n'),
+        |name: &str| match name {
+            // WebRTC protocols
+            "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
+            "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
+            "RTP/SAVPF" => Protocol::RtpSavpf,
+            // Traditional RTP protocols
+            "RTP/SAVP" => Protocol::RtpSavp,
+            "RTP/AVP" => Protocol::RtpAvp,
+            // Basic protocols
+            "UDP" => Protocol::Udp,
+            "TCP" => Protocol::Tcp,
+            other => Protocol::Other(SmolStr::new(other)),
+        },
+    )(input)
 }
 
 /// Parse network type: IN (Internet)
-- 
2.43.0


From 0bfd5a64dd68d425bcc8fa3fe0ca3e7db59b8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 062/176] fix: sip-sdp wants a line end after every field

---
 crates/sip-sdp/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 9e8d2f3..f3f2a6d 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -11,7 +11,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_till},
     character::complete::{char, digit1, line_ending, space1},
-    combinator::{map, map_res, opt},
+    combinator::{eof, map, map_res, opt},
     multi::{many0, separated_list0},
     sequence::{preceded, terminated, tuple},
     IResult,
@@ -161,7 +161,7 @@ struct MediaBlock {
 
 /// Parse all SDP lines
 fn parse_sdp_lines(input: &str) -> IResult<&str, Vec<SdpLine>> {
-    many0(terminated(parse_line, opt(line_ending)))(input)
+    many0(terminated(parse_line, alt((line_ending, eof))))(input)
 }
 
 /// Parse a single SDP line
-- 
2.43.0


From 8fd9fd4ee9f25838f42decd1f1cede6d55b1644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 063/176] fix: o= and b= fields of sip-sdp end with their line

---
 crates/sip-sdp/src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index f3f2a6d..5018c79 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -196,9 +196,9 @@ fn parse_o_line(input: &str) -> IResult<&str, Origin> {
         tag("o="),
         map(
             tuple((
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
+                terminated(take_till(|c| matches!(c, ' ' | '\r' | '\n')), space1),
+                terminated(take_till(|c| matches!(c, ' ' | '\r' | '\n')), space1),
+                terminated(take_till(|c| matches!(c, ' ' | '\r' | '\n')), space1),
                 terminated(parse_nettype, space1),
                 terminated(parse_addrtype, space1),
                 take_till(|c| c == '\r' || c == '\n'),
@@ -290,7 +290,7 @@ fn parse_b_line(input: &str) -> IResult<&str, Bandwidth> {
         tag("b="),
         map(
             tuple((
-                take_till(|c| c == ':'),
+                take_till(|c| matches!(c, ':' | '\r' | '\n')),
                 preceded(char(':'), map_res(digit1, |s: &str| s.parse::<u32>())),
             )),
             |(bw_type, bandwidth)| Bandwidth {
-- 
2.43.0


From 7705ab55b5589d1cee63332bf276a921e1964c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 064/176] fix: SdpSession prints CRLF line ends

---
 crates/sip-core/src/sdp.rs | 58 +++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index fcfbd97..67f49d5 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -1994,33 +1994,33 @@ fn direction_meets_requirement(
 impl fmt::Display for SdpSession {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // Session-level fields (in required order)
-        writeln!(f, "v={}", self.version)?;
-        writeln!(f, "{}", self.origin)?;
-        writeln!(f, "s={}", self.session_name)?;
+        write!(f, "v={}\r\n", self.version)?;
+        write!(f, "{}\r\n", self.origin)?;
+        write!(f, "s={}\r\n", self.session_name)?;
 
         if let Some(ref info) = self.session_info {
-            writeln!(f, "i={}", info)?;
+            write!(f, "i={}\r\n", info)?;
         }
         if let Some(ref uri) = self.uri {
-            writeln!(f, "u={}", uri)?;
+            write!(f, "u={}\r\n", uri)?;
         }
         for email in &self.emails {
-            writeln!(f, "e={}", email)?;
+            write!(f, "e={}\r\n", email)?;
         }
         for phone in &self.phones {
-            writeln!(f, "p={}", phone)?;
+            write!(f, "p={}\r\n", phone)?;
         }
         if let Some(ref conn) = self.connection {
-            writeln!(f, "{}", conn)?;
+            write!(f, "{}\r\n", conn)?;
         }
         for bw in &self.bandwidth {
-            writeln!(f, "{}", bw)?;
+            write!(f, "{}\r\n", bw)?;
         }
         for timing in &self.timing {
-            writeln!(f, "{}", timing)?;
+            write!(f, "{}\r\n", timing)?;
         }
         for repeat in &self.repeat_times {
-            writeln!(f, "{}", repeat)?;
+            write!(f, "{}\r\n", repeat)?;
         }
         if !self.time_zones.is_empty() {
             write!(f, "z=")?;
@@ -2030,27 +2030,27 @@ impl fmt::Display for SdpSession {
                 }
                 write!(f, "{} {}", tz.adjustment_time, tz.offset)?;
             }
-            writeln!(f)?;
+            write!(f, "\r\n")?;
         }
         if let Some(ref key) = self.encryption_key {
-            writeln!(f, "{}", key)?;
+            write!(f, "{}\r\n", key)?;
         }
         for attr in &self.attributes {
-            writeln!(f, "{}", attr)?;
+            write!(f, "{}\r\n", attr)?;
         }
         // Write capability set (RFC 3407)
         if let Some(ref cap_set) = self.capability_set {
-            writeln!(f, "a=sqn:{}", cap_set.sequence_number)?;
+            write!(f, "a=sqn:{}\r\n", cap_set.sequence_number)?;
             for cdsc in &cap_set.descriptions {
-                writeln!(f, "a=cdsc:{}", cdsc)?;
+                write!(f, "a=cdsc:{}\r\n", cdsc)?;
             }
             for cpar in &cap_set.parameters {
-                writeln!(f, "a={}:{}", cpar.param_type.as_str(), cpar)?;
+                write!(f, "a={}:{}\r\n", cpar.param_type.as_str(), cpar)?;
             }
         }
         // Write group attributes (RFC 3388)
         for group in &self.groups {
-            writeln!(f, "a=group:{}", group)?;
+            write!(f, "a=group:{}\r\n", group)?;
         }
 
         // Media descriptions
@@ -2218,40 +2218,40 @@ impl fmt::Display for MediaDescription {
         for fmt in &self.fmt {
             write!(f, " {}", fmt)?;
         }
-        writeln!(f)?;
+        write!(f, "\r\n")?;
 
         if let Some(ref title) = self.title {
-            writeln!(f, "i={}", title)?;
+            write!(f, "i={}\r\n", title)?;
         }
         if let Some(ref conn) = self.connection {
-            writeln!(f, "{}", conn)?;
+            write!(f, "{}\r\n", conn)?;
         }
         for bw in &self.bandwidth {
-            writeln!(f, "{}", bw)?;
+            write!(f, "{}\r\n", bw)?;
         }
         if let Some(ref key) = self.encryption_key {
-            writeln!(f, "{}", key)?;
+            write!(f, "{}\r\n", key)?;
         }
         // Write mid attribute (RFC 3388)
         if let Some(ref mid) = self.mid {
-            writeln!(f, "a=mid:{}", mid)?;
+            write!(f, "a=mid:{}\r\n", mid)?;
         }
         // Write rtcp attribute (RFC 3605)
         if let Some(ref rtcp) = self.rtcp {
-            writeln!(f, "a=rtcp:{}", rtcp)?;
+            write!(f, "a=rtcp:{}\r\n", rtcp)?;
         }
         // Write capability set (RFC 3407)
         if let Some(ref cap_set) = self.capability_set {
-            writeln!(f, "a=sqn:{}", cap_set.sequence_number)?;
+            write!(f, "a=sqn:{}\r\n", cap_set.sequence_number)?;
             for cdsc in &cap_set.descriptions {
-                writeln!(f, "a=cdsc:{}", cdsc)?;
+                write!(f, "a=cdsc:{}\r\n", cdsc)?;
             }
             for cpar in &cap_set.parameters {
-                writeln!(f, "a={}:{}", cpar.param_type.as_str(), cpar)?;
+                write!(f, "a={}:{}\r\n", cpar.param_type.as_str(), cpar)?;
             }
         }
         for attr in &self.attributes {
-            writeln!(f, "{}", attr)?;
+            write!(f, "{}\r\n", attr)?;
         }
 
         Ok(())
-- 
2.43.0


From 42491891e3a8a018b08ca22630e712bece78e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 065/176] fix: SdpSession refuses protocol versions other than
 0

---
 crates/sip-core/src/sdp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index 67f49d5..76e60f2 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -2451,7 +2451,10 @@ impl Fmtp {
 // Parsing helper functions
 
 fn parse_version(line: &str) -> Result<u32, SdpError> {
-    line[2..].parse().map_err(|_| SdpError::InvalidFormat("v="))
+    match line[2..].parse() {
+        Ok(0) => Ok(0),
+        _ => Err(SdpError::InvalidFormat("v=")),
+    }
 }
 
 fn parse_origin(line: &str) -> Result<Origin, SdpError> {
-- 
2.43.0


From c21d7445548ac092659823f03f858ae703d57543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 066/176] fix: SdpSession refuses a port with more than one
 count

---
 crates/sip-core/src/sdp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index 76e60f2..0226561 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -2653,6 +2653,9 @@ fn parse_media_line(line: &str) -> Result<MediaLineParsed, SdpError> {
         .map_err(|_| SdpError::InvalidFormat("m="))?;
     validate_port(port)?;
 
+    if port_parts.len() > 2 {
+        return Err(SdpError::InvalidFormat("m="));
+    }
     let port_count = if port_parts.len() > 1 {
         let count: u16 = port_parts[1]
             .parse()
-- 
2.43.0


From 72fbce613681f358f04981c4566688f157f31a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 067/176] fix: SdpSession bandwidth limit counts RS, RR and
 TIAS in bits per second

---
 crates/sip-core/src/sdp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index 0226561..cba8172 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -2513,8 +2513,13 @@ fn parse_bandwidth(line: &str) -> Result<Bandwidth, SdpError> {
         .parse()
         .map_err(|_| SdpError::InvalidFormat("b="))?;
 
-    validate_bandwidth(bandwidth)?;
-
+    match BandwidthType::parse(parts[0]) {
+        // In bits per second (RFC 3556, RFC 3890)
+        BandwidthType::RS | BandwidthType::RR | BandwidthType::TIAS => {
+            validate_bandwidth(bandwidth / 1000)?
+        }
+        _ => validate_bandwidth(bandwidth)?,
+    }
     Ok(Bandwidth {
         bwtype: parts[0].to_string(),
         bandwidth,
-- 
2.43.0


From 0a6a182a6a3da4c9e0ddda6d9b734f0d52ca44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 068/176] fix: SdpSession keeps r= lines with their t= line

---
 crates/sip-core/src/sdp.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index cba8172..9127c9f 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -528,6 +528,8 @@ pub struct Timing {
 /// Repeat time line (r=) components.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct RepeatTime {
+    /// Index of the t= line this r= line follows
+    timing: usize,
     repeat_interval: String,
     active_duration: String,
     offsets: Vec<String>,
@@ -1471,7 +1473,9 @@ impl SdpSession {
                     // Check for following r= lines
                     while idx + 1 < lines.len() && lines[idx + 1].starts_with("r=") {
                         idx += 1;
-                        self.repeat_times.push(parse_repeat_time(lines[idx])?);
+                        let timing = self.timing.len() - 1;
+                        self.repeat_times
+                            .push(parse_repeat_time(lines[idx], timing)?);
                         // Security: Check repeat times collection size
                         validate_collection_size(
                             &self.repeat_times,
@@ -2016,11 +2020,11 @@ impl fmt::Display for SdpSession {
         for bw in &self.bandwidth {
             write!(f, "{}\r\n", bw)?;
         }
-        for timing in &self.timing {
+        for (idx, timing) in self.timing.iter().enumerate() {
             write!(f, "{}\r\n", timing)?;
-        }
-        for repeat in &self.repeat_times {
-            write!(f, "{}\r\n", repeat)?;
+            for repeat in self.repeat_times.iter().filter(|r| r.timing == idx) {
+                write!(f, "{}\r\n", repeat)?;
+            }
         }
         if !self.time_zones.is_empty() {
             write!(f, "z=")?;
@@ -2545,7 +2549,7 @@ fn parse_timing(line: &str) -> Result<Timing, SdpError> {
     })
 }
 
-fn parse_repeat_time(line: &str) -> Result<RepeatTime, SdpError> {
+fn parse_repeat_time(line: &str, timing: usize) -> Result<RepeatTime, SdpError> {
     let parts: Vec<&str> = line[2..].split_whitespace().collect();
     if parts.len() < 3 {
         return Err(SdpError::InvalidFormat("r="));
@@ -2564,6 +2568,7 @@ fn parse_repeat_time(line: &str) -> Result<RepeatTime, SdpError> {
     }
 
     Ok(RepeatTime {
+        timing,
         repeat_interval: parts[0].to_string(),
         active_duration: parts[1].to_string(),
         offsets,
-- 
2.43.0


From 2621c364b27f5e3ace0ff9457192ce5df489535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 069/176] fix: negotiate_answer rejects sections offered with
 port zero

---
 crates/sip-sdp/src/negotiate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 9f225cd..c155dc3 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -192,7 +192,8 @@ pub fn negotiate_answer(
     // already-accepted type are rejected.
     let mut accepted_types: Vec<MediaType> = Vec::new();
     for offer_media in &offer.media {
-        if accepted_types.contains(&offer_media.media_type) {
+        // A section offered with port zero is rejected (RFC 3264 §6).
+        if offer_media.port == 0 || accepted_types.contains(&offer_media.media_type) {
             let rejected = create_rejected_media(offer_media)?;
             answer_builder = answer_builder
                 .media(rejected)
-- 
2.43.0


From a25c2a1aad0da983c0aeb9482f59a763ae8825f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 070/176] fix: negotiate_answer compares the offered direction
 with the local one from the right side

---
 crates/sip-sdp/src/negotiate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index c155dc3..47efccb 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -253,8 +253,14 @@ fn negotiate_media(
     let offer_dir = extract_direction(&offer_media.attributes).unwrap_or(Direction::SendRecv);
     let local_dir = extract_direction(&local_media.attributes).unwrap_or(Direction::SendRecv);
 
-    // Negotiate direction from answerer's perspective
-    let answer_dir = offer_dir.reverse().negotiate(&local_dir)?;
+    // Negotiate direction from answerer's perspective: within what the offer
+    // leaves to us (its reverse) and what we are configured for.
+    let answer_dir = match (offer_dir, local_dir) {
+        (Direction::Inactive, _) | (_, Direction::Inactive) => Direction::Inactive,
+        (Direction::SendRecv, local) => local,
+        (offer, local) if offer.is_compatible_with(&local) => offer.reverse(),
+        _ => return Err(NegotiationError::IncompatibleDirection),
+    };
 
     // Build answer media
     let mut answer_media = base_answer_media(offer_media, local_media.port);
-- 
2.43.0


From ec224e1006ab8633454fceee944b64ee825f41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 071/176] fix: negotiate_answer heeds session-level directions

---
 crates/sip-sdp/src/negotiate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 47efccb..5d314a9 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -200,7 +200,7 @@ pub fn negotiate_answer(
                 .map_err(|e| NegotiationError::InvalidSdp(e.to_string()))?;
             continue;
         }
-        match negotiate_media(offer_media, local_capabilities) {
+        match negotiate_media(offer, offer_media, local_capabilities) {
             Ok(answer_media) => {
                 accepted_types.push(offer_media.media_type.clone());
                 answer_builder = answer_builder
@@ -224,6 +224,7 @@ pub fn negotiate_answer(
 
 /// Negotiate a single media stream
 fn negotiate_media(
+    offer: &SessionDescription,
     offer_media: &MediaDescription,
     local_capabilities: &SessionDescription,
 ) -> Result<MediaDescription, NegotiationError> {
@@ -250,8 +251,13 @@ fn negotiate_media(
     }
 
     // Get directions
-    let offer_dir = extract_direction(&offer_media.attributes).unwrap_or(Direction::SendRecv);
-    let local_dir = extract_direction(&local_media.attributes).unwrap_or(Direction::SendRecv);
+    // (a session-level direction is the default for all sections)
+    let offer_dir = extract_direction(&offer_media.attributes)
+        .or_else(|| extract_direction(&offer.attributes))
+        .unwrap_or(Direction::SendRecv);
+    let local_dir = extract_direction(&local_media.attributes)
+        .or_else(|| extract_direction(&local_capabilities.attributes))
+        .unwrap_or(Direction::SendRecv);
 
     // Negotiate direction from answerer's perspective: within what the offer
     // leaves to us (its reverse) and what we are configured for.
-- 
2.43.0


From b8b820b60239895346bb874b8264c27255edd194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 072/176] fix: negotiate_answer considers every local section
 of the offered transport

---
 crates/sip-sdp/src/negotiate.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 5d314a9..b796cde 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -230,17 +230,13 @@ fn negotiate_media(
 ) -> Result<MediaDescription, NegotiationError> {
     // Find matching media type in local capabilities
     let local_media = local_capabilities
-        .find_media(offer_media.media_type.clone())
+        .find_all_media(offer_media.media_type.clone())
+        .into_iter()
+        .find(|m| m.protocol == offer_media.protocol)
         .ok_or(NegotiationError::MissingMediaStream(
             offer_media.media_type.clone(),
         ))?;
 
-    if offer_media.protocol != local_media.protocol {
-        return Err(NegotiationError::NoCommonCodec(
-            offer_media.media_type.clone(),
-        ));
-    }
-
     // Find common codecs (payload types)
     let common_formats = find_common_formats(offer_media, local_media);
 
-- 
2.43.0


From 93cb62b6f620dc1040b9185c06e6bcb6140cbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 073/176] fix: negotiate_answer matches payload formats by
 codec, not by number alone

---
 crates/sip-sdp/src/negotiate.rs | 67 ++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index b796cde..89c86fd 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -299,7 +299,7 @@ fn negotiate_media(
             Some(pt) => pt,
             None => continue,
         };
-        if let Some(local_fmtp) = local_media.fmtp_for(pt) {
+        if let Some(local_fmtp) = local_media.fmtp_for(negotiated.local_pt) {
             answer_media.set_fmtp(pt, &local_fmtp.params);
         } else if let Some(offer_fmtp) = offer_media.fmtp_for(pt) {
             answer_media.set_fmtp(pt, &offer_fmtp.params);
@@ -341,6 +341,8 @@ fn negotiate_media(
 #[derive(Debug, Clone)]
 struct NegotiatedFormat {
     offered_format: SmolStr,
+    /// Payload type of this format on our side
+    local_pt: u8,
     rtpmap: Option<RtpMap>,
 }
 
@@ -357,24 +359,32 @@ fn find_common_formats(
                 None => continue,
             };
 
-            if offer_pt < 96 {
-                if local_supports_static_pt(local_media, offer_pt) {
+            let offer_rtpmap = offer_media.rtpmaps.get(&offer_pt);
+            if offer_pt < 96 && local_supports_static_pt(local_media, offer_pt) {
+                // The same number is the same codec unless both sides map it,
+                // to different ones.
+                let local_rtpmap = local_media.rtpmaps.get(&offer_pt);
+                let same = match (offer_rtpmap, local_rtpmap) {
+                    (Some(offered), Some(local)) => same_codec(offered, local),
+                    _ => true,
+                };
+                if same {
                     common.push(NegotiatedFormat {
                         offered_format: offer_fmt.clone(),
-                        rtpmap: local_media.rtpmaps.get(&offer_pt).cloned(),
+                        local_pt: offer_pt,
+                        rtpmap: local_rtpmap.cloned(),
                     });
+                    continue;
                 }
-                continue;
             }
-
-            let offer_rtpmap = match offer_media.rtpmaps.get(&offer_pt) {
+            let offer_rtpmap = match offer_rtpmap {
                 Some(map) => map,
                 None => continue,
             };
-
-            if let Some(local_rtpmap) = find_matching_dynamic_rtpmap(local_media, offer_rtpmap) {
+            if let Some(local_rtpmap) = find_matching_rtpmap(local_media, offer_rtpmap) {
                 common.push(NegotiatedFormat {
                     offered_format: offer_fmt.clone(),
+                    local_pt: local_rtpmap.payload_type,
                     rtpmap: Some(RtpMap {
                         payload_type: offer_pt,
                         encoding_name: local_rtpmap.encoding_name.clone(),
@@ -389,6 +399,7 @@ fn find_common_formats(
             if local_media.formats.iter().any(|f| f == offer_fmt) {
                 common.push(NegotiatedFormat {
                     offered_format: offer_fmt.clone(),
+                    local_pt: parse_payload_type(offer_fmt).unwrap_or_default(),
                     rtpmap: None,
                 });
             }
@@ -472,26 +483,28 @@ fn local_supports_static_pt(local_media: &MediaDescription, pt: u8) -> bool {
         .any(|local_pt| local_pt == pt)
 }
 
-fn find_matching_dynamic_rtpmap(
-    local_media: &MediaDescription,
+fn find_matching_rtpmap<'a>(
+    local_media: &'a MediaDescription,
     offer_rtpmap: &RtpMap,
-) -> Option<RtpMap> {
+) -> Option<&'a RtpMap> {
     local_media
-        .rtpmaps
-        .values()
-        .find(|local_rtpmap| {
-            local_media
-                .formats
-                .iter()
-                .filter_map(parse_payload_type)
-                .any(|pt| pt == local_rtpmap.payload_type)
-                && offer_rtpmap
-                    .encoding_name
-                    .eq_ignore_ascii_case(&local_rtpmap.encoding_name)
-                && offer_rtpmap.clock_rate == local_rtpmap.clock_rate
-                && offer_rtpmap.encoding_params == local_rtpmap.encoding_params
-        })
-        .cloned()
+        .formats
+        .iter()
+        .filter_map(parse_payload_type)
+        .filter_map(|pt| local_media.rtpmaps.get(&pt))
+        .find(|local_rtpmap| same_codec(offer_rtpmap, local_rtpmap))
+}
+
+fn same_codec(offer_rtpmap: &RtpMap, local_rtpmap: &RtpMap) -> bool {
+    offer_rtpmap
+        .encoding_name
+        .eq_ignore_ascii_case(&local_rtpmap.encoding_name)
+        && offer_rtpmap.clock_rate == local_rtpmap.clock_rate
+        && channels(offer_rtpmap) == channels(local_rtpmap)
+}
+fn channels(rtpmap: &RtpMap) -> &str {
+    // One channel unless said otherwise (RFC 8866 §6.6)
+    rtpmap.encoding_params.as_deref().unwrap_or("1")
 }
 
 /// Generate session ID
-- 
2.43.0


From e6712b180dd1357c3eae1e1d5dcb43ab8bcf5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 074/176] fix: negotiate_answer treats all RTP profiles as such

---
 crates/sip-sdp/src/negotiate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 89c86fd..1e006a9 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -463,7 +463,7 @@ fn is_rtp_protocol(protocol: &Protocol) -> bool {
             | Protocol::RtpSavpf
             | Protocol::UdpTlsRtpSavpf
             | Protocol::TcpTlsRtpSavpf
-    )
+    ) || matches!(protocol, Protocol::Other(name) if name.contains("RTP/"))
 }
 
 fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
-- 
2.43.0


From 3748550c3f0700db68d5831f86adc54268a748a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 075/176] fix: OfferAnswerEngine rejects sections offered with
 port zero

---
 crates/sip-core/src/sdp_offer_answer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 2327442..117f700 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -493,7 +493,8 @@ impl OfferAnswerEngine {
 
         for (idx, offer_media) in offer.media().iter().enumerate() {
             // Check if this media should be rejected - use getter
-            let should_reject = options.reject_media().contains(&idx);
+            // (a section offered with port zero always is, RFC 3264 §6)
+            let should_reject = offer_media.port() == 0 || options.reject_media().contains(&idx);
 
             let answer_media = if should_reject {
                 self.create_rejected_media(offer_media)
-- 
2.43.0


From 63b130faf77b2f3c5aa333bd34a032a0d90f3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 076/176] fix: OfferAnswerEngine answers with formats of the
 offer's list, in its order

---
 crates/sip-core/src/sdp_offer_answer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 117f700..0bb827d 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -540,7 +540,10 @@ impl OfferAnswerEngine {
         // Find common codecs
         let mut common_codecs: Vec<(String, &RtpMap)> = Vec::new();
 
-        for (payload, rtpmap) in &offer_rtpmaps {
+        for payload in offer_media.fmt() {
+            let Some(rtpmap) = offer_rtpmaps.get(payload) else {
+                continue;
+            };
             for codec in supported_codecs {
                 if codec.matches(rtpmap) {
                     common_codecs.push((payload.clone(), rtpmap));
-- 
2.43.0


From 24df7aad31f4bcfbe35d8c9ed14c0e44ffac97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 077/176] fix: OfferAnswerEngine direction override stays
 within the offer

---
 crates/sip-core/src/sdp_offer_answer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 0bb827d..3a14ea8 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -416,6 +416,15 @@ fn validate_username(username: &str) -> Result<(), NegotiationError> {
     Ok(())
 }
 
+/// The flows that both directions allow
+fn restrict_direction(a: Direction, b: Direction) -> Direction {
+    match (a, b) {
+        (Direction::SendRecv, other) | (other, Direction::SendRecv) => other,
+        (a, b) if a == b => a,
+        _ => Direction::Inactive,
+    }
+}
+
 fn validate_session_id(session_id: &str) -> Result<(), NegotiationError> {
     if session_id.is_empty() {
         return Err(NegotiationError::ValidationError(
@@ -580,10 +589,12 @@ impl OfferAnswerEngine {
 
         // Negotiate direction - use getter
         let offer_direction = self.get_media_direction(offer_media);
+        let answer_direction = self.negotiate_direction(offer_direction);
         let answer_direction = if let Some(override_dir) = options.direction_override() {
-            override_dir
+            // Within what the offer leaves to us
+            restrict_direction(answer_direction, override_dir)
         } else {
-            self.negotiate_direction(offer_direction)
+            answer_direction
         };
 
         attributes.push(Attribute {
-- 
2.43.0


From 5ac03535b634a488152c2ac88014a7f9dd8d1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 078/176] fix: OfferAnswerEngine heeds session-level directions

---
 crates/sip-core/src/sdp_offer_answer.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 3a14ea8..456102c 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -508,7 +508,7 @@ impl OfferAnswerEngine {
             let answer_media = if should_reject {
                 self.create_rejected_media(offer_media)
             } else {
-                match self.negotiate_media(offer_media, &options, current_port, idx) {
+                match self.negotiate_media(offer, offer_media, &options, current_port, idx) {
                     Ok(media) => {
                         current_port += 2; // RTP + RTCP
                         media
@@ -529,6 +529,7 @@ impl OfferAnswerEngine {
     /// Negotiates a single media stream.
     fn negotiate_media(
         &self,
+        offer: &SdpSession,
         offer_media: &MediaDescription,
         options: &AnswerOptions,
         port: u16,
@@ -588,7 +589,7 @@ impl OfferAnswerEngine {
         }
 
         // Negotiate direction - use getter
-        let offer_direction = self.get_media_direction(offer_media);
+        let offer_direction = self.effective_direction(offer, offer_media);
         let answer_direction = self.negotiate_direction(offer_direction);
         let answer_direction = if let Some(override_dir) = options.direction_override() {
             // Within what the offer leaves to us
@@ -738,6 +739,18 @@ impl OfferAnswerEngine {
         Direction::SendRecv
     }
 
+    /// Gets the direction in force for a section: its own, else the session's.
+    fn effective_direction(&self, session: &SdpSession, media: &MediaDescription) -> Direction {
+        let has_own = media
+            .attributes()
+            .iter()
+            .any(|attr| attr.value.is_none() && Direction::parse(&attr.name).is_some());
+        match session.find_direction(None) {
+            Some(direction) if !has_own => direction,
+            _ => self.get_media_direction(media),
+        }
+    }
+
     /// Negotiates direction attribute per RFC 3264 Table 1.
     fn negotiate_direction(&self, offer_direction: Direction) -> Direction {
         match offer_direction {
@@ -757,7 +770,7 @@ impl OfferAnswerEngine {
         }
 
         for media in &mut hold_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.effective_direction(session, media);
 
             let hold_dir = match current_dir {
                 Direction::SendRecv => Direction::SendOnly,
@@ -788,7 +801,7 @@ impl OfferAnswerEngine {
         }
 
         for media in &mut resume_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.effective_direction(session, media);
 
             let resume_dir = match current_dir {
                 Direction::SendOnly => Direction::SendRecv,
-- 
2.43.0


From aa3c22016d9a768a8c4941dac6de164755733123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 079/176] fix: OfferAnswerEngine port allocation does not
 overflow

---
 crates/sip-core/src/sdp_offer_answer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 456102c..dacc278 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -498,7 +498,7 @@ impl OfferAnswerEngine {
         });
 
         // Process each media stream in order - use getter
-        let mut current_port = options.base_port();
+        let mut current_port = Some(options.base_port());
 
         for (idx, offer_media) in offer.media().iter().enumerate() {
             // Check if this media should be rejected - use getter
@@ -508,9 +508,16 @@ impl OfferAnswerEngine {
             let answer_media = if should_reject {
                 self.create_rejected_media(offer_media)
             } else {
-                match self.negotiate_media(offer, offer_media, &options, current_port, idx) {
-                    Ok(media) => {
-                        current_port += 2; // RTP + RTCP
+                // No port left counts as an error of the local configuration
+                let port = current_port.ok_or_else(|| {
+                    NegotiationError::ValidationError("No port left for media".to_string())
+                });
+                match port.and_then(|p| {
+                    self.negotiate_media(offer, offer_media, &options, p, idx)
+                        .map(|media| (media, p))
+                }) {
+                    Ok((media, port)) => {
+                        current_port = port.checked_add(2); // RTP + RTCP
                         media
                     }
                     Err(_) => {
-- 
2.43.0


From 38e556bcd9550096f931bb48fe1112645ec1fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 080/176] fix: OfferAnswerEngine labels IPv6 addresses IP6

---
 crates/sip-core/src/sdp_offer_answer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index dacc278..b1c5b71 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -416,6 +416,15 @@ fn validate_username(username: &str) -> Result<(), NegotiationError> {
     Ok(())
 }
 
+/// The addrtype that goes with an address
+fn addrtype_of(address: &str) -> &'static str {
+    if address.contains(':') {
+        "IP6"
+    } else {
+        "IP4"
+    }
+}
+
 /// The flows that both directions allow
 fn restrict_direction(a: Direction, b: Direction) -> Direction {
     match (a, b) {
@@ -481,7 +490,7 @@ impl OfferAnswerEngine {
             sess_id: options.session_id().to_string(),
             sess_version: "0".to_string(),
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: addrtype_of(options.local_address()).to_string(),
             unicast_address: options.local_address().to_string(),
         };
 
@@ -493,7 +502,7 @@ impl OfferAnswerEngine {
         // Session-level connection - use getter
         answer.connection = Some(Connection {
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: addrtype_of(options.local_address()).to_string(),
             connection_address: options.local_address().to_string(),
         });
 
-- 
2.43.0


From 1c72ac907cde086267751fb84dcb37e14a0ca04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 081/176] fix: CodecInfo treats an explicit single channel as
 the default

---
 crates/sip-core/src/sdp_offer_answer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index b1c5b71..9214e49 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -328,7 +328,7 @@ impl CodecInfo {
                 params.parse::<u16>().ok() == Some(codec_channels)
             }
             (Some(codec_channels), None) => codec_channels == 1,
-            (None, Some(_)) => false,
+            (None, Some(params)) => params.parse::<u16>().ok() == Some(1),
             (None, None) => true,
         }
     }
-- 
2.43.0


From 8d346125377c1584942ce63cc9e5c2c868e9839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 082/176] fix: OfferAnswerEngine knows all static payload types

---
 crates/sip-core/src/sdp_offer_answer.rs | 49 +++++--------------------
 1 file changed, 10 insertions(+), 39 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 9214e49..b40113d 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -686,45 +686,16 @@ impl OfferAnswerEngine {
 
     /// Gets static RTP payload mapping for well-known payload types.
     fn get_static_payload_rtpmap(&self, payload: &str) -> Option<RtpMap> {
-        match payload {
-            "0" => Some(RtpMap {
-                payload_type: 0,
-                encoding_name: "PCMU".to_string(),
-                clock_rate: 8000,
-                encoding_params: None,
-            }),
-            "8" => Some(RtpMap {
-                payload_type: 8,
-                encoding_name: "PCMA".to_string(),
-                clock_rate: 8000,
-                encoding_params: None,
-            }),
-            "3" => Some(RtpMap {
-                payload_type: 3,
-                encoding_name: "GSM".to_string(),
-                clock_rate: 8000,
-                encoding_params: None,
-            }),
-            "4" => Some(RtpMap {
-                payload_type: 4,
-                encoding_name: "G723".to_string(),
-                clock_rate: 8000,
-                encoding_params: None,
-            }),
-            "9" => Some(RtpMap {
-                payload_type: 9,
-                encoding_name: "G722".to_string(),
-                clock_rate: 8000,
-                encoding_params: None,
-            }),
-            "18" => Some(RtpMap {
-                payload_type: 18,
-                encoding_name: "G729".to_string(),
-                clock_rate: 8000,
-                encoding_params: None,
-            }),
-            _ => None,
-        }
+        let known = crate::rtp_avp::get_static_payload_type(payload.parse().ok()?)?;
+        Some(RtpMap {
+            payload_type: known.payload_type(),
+            encoding_name: known.encoding_name().to_string(),
+            clock_rate: known.clock_rate(),
+            encoding_params: known
+                .channels()
+                .filter(|channels| *channels > 1)
+                .map(|channels| channels.to_string()),
+        })
     }
 
     /// Finds fmtp attribute value for a specific payload type.
-- 
2.43.0


From 4d132a6cf5cae6e07edab98cd93ff2675e9c6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 083/176] fix: hold and resume offers increment the largest
 session version

---
 crates/sip-core/src/sdp_offer_answer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index b40113d..1cc1290 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -416,6 +416,11 @@ fn validate_username(username: &str) -> Result<(), NegotiationError> {
     Ok(())
 }
 
+/// The session version after `version`, which may lie beyond u64
+fn next_version(version: u64) -> String {
+    (u128::from(version) + 1).to_string()
+}
+
 /// The addrtype that goes with an address
 fn addrtype_of(address: &str) -> &'static str {
     if address.contains(':') {
@@ -753,7 +758,7 @@ impl OfferAnswerEngine {
         let mut hold_session = session.clone();
 
         if let Ok(version) = hold_session.origin().sess_version().parse::<u64>() {
-            hold_session.origin.sess_version = (version + 1).to_string();
+            hold_session.origin.sess_version = next_version(version);
         }
 
         for media in &mut hold_session.media {
@@ -784,7 +789,7 @@ impl OfferAnswerEngine {
         let mut resume_session = session.clone();
 
         if let Ok(version) = resume_session.origin.sess_version.parse::<u64>() {
-            resume_session.origin.sess_version = (version + 1).to_string();
+            resume_session.origin.sess_version = next_version(version);
         }
 
         for media in &mut resume_session.media {
-- 
2.43.0


From 6e3016aba3feff7b6b71c8481f45b8a97e0094ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 084/176] fix: NAPTR replacements are looked up as the SRV
 names they are

---
 crates/sip-dns/src/lib.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 244105f..57b1219 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -482,15 +482,16 @@ impl SipResolver {
         let mut all_targets = Vec::new();
         if let Some(records) = naptr_records {
             for record in records {
-                let lookup_host = record
-                    .replacement
-                    .as_ref()
-                    .map(|replacement| replacement.as_str())
-                    .unwrap_or(host);
-                if let Ok(targets) = self
-                    .lookup_srv(lookup_host, record.transport, uri.is_sips())
-                    .await
-                {
+                // The replacement is the name of the SRV records itself
+                // (RFC 3263 §4.1), e.g. `_sip._udp.example.com`.
+                let looked_up = match record.replacement {
+                    Some(srv_name) => {
+                        self.lookup_srv_name(srv_name.to_string(), record.transport)
+                            .await
+                    }
+                    None => self.lookup_srv(host, record.transport, uri.is_sips()).await,
+                };
+                if let Ok(targets) = looked_up {
                     all_targets.extend(targets);
                 }
             }
@@ -652,7 +653,15 @@ impl SipResolver {
         let service = transport.as_service_str(sips);
         let proto = transport.as_proto_str();
         let srv_name = format!("{}._{}.{}", service, proto, host);
+        self.lookup_srv_name(srv_name, transport).await
+    }
 
+    /// Performs SRV lookup of a complete name, e.g. a NAPTR replacement.
+    async fn lookup_srv_name(
+        &self,
+        srv_name: String,
+        transport: Transport,
+    ) -> Result<Vec<DnsTarget>> {
         let lookup = tokio::time::timeout(
             self.query_timeout,
             self.resolver.srv_lookup(srv_name.clone()),
-- 
2.43.0


From be4ab600fd028c9ddd1ff73f112c9db0753a5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 085/176] fix: the default port of a TLS target is 5061 for sip
 URIs too

---
 crates/sip-dns/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 57b1219..887d70d 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -429,6 +429,14 @@ impl SipResolver {
     }
 
     /// Checks if the host is a numeric IP address.
+    /// The port when neither URI nor SRV gives one (RFC 3263 §4.2).
+    fn default_port(uri: &SipUri) -> u16 {
+        match Self::default_transport(uri) {
+            Transport::Tls | Transport::TlsSctp => 5061,
+            _ => 5060,
+        }
+    }
+
     fn is_numeric_ip(host: &str) -> bool {
         host.parse::<IpAddr>().is_ok()
     }
@@ -439,9 +447,7 @@ impl SipResolver {
 
         // RFC 3263 §4: If numeric IP, use directly
         if Self::is_numeric_ip(host) {
-            let port = uri
-                .port()
-                .unwrap_or(if uri.is_sips() { 5061 } else { 5060 });
+            let port = uri.port().unwrap_or_else(|| Self::default_port(uri));
             return enforce_target_limit(vec![DnsTarget::unchecked_new(
                 host,
                 port,
@@ -507,7 +513,7 @@ impl SipResolver {
         // RFC 3263 §4.3: Fallback to A/AAAA if no SRV records. This is
         // the Twilio Secure Trunking path (hostname URI, no SRV).
         if all_targets.is_empty() {
-            let default_port = if uri.is_sips() { 5061 } else { 5060 };
+            let default_port = Self::default_port(uri);
             let ips = self.lookup_a_aaaa(host).await?;
             for ip in ips {
                 all_targets.push(
@@ -1211,7 +1217,7 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
             match server {
                 DhcpSipServer::Ipv4(addr) => {
                     // Use IPv4 address directly
-                    let port = if uri.is_sips() { 5061 } else { 5060 };
+                    let port = SipResolver::default_port(uri);
                     let transport = SipResolver::default_transport(uri);
                     all_targets.push(DnsTarget::unchecked_new(addr.to_string(), port, transport));
                 }
@@ -1299,7 +1305,7 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                 for server in servers {
                     match server {
                         DhcpSipServer::Ipv4(addr) => {
-                            let port = if uri.is_sips() { 5061 } else { 5060 };
+                            let port = SipResolver::default_port(uri);
                             let transport = SipResolver::default_transport(uri);
                             all_targets.push(DnsTarget::unchecked_new(
                                 addr.to_string(),
-- 
2.43.0


From a99c5b242eac961bf9630c2927d067aa3efdc600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 086/176] fix: the resolver heeds the maddr parameter

---
 crates/sip-dns/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 887d70d..9097144 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -429,6 +429,14 @@ impl SipResolver {
     }
 
     /// Checks if the host is a numeric IP address.
+    /// The TARGET of the URI (RFC 3263 §4): its maddr parameter, else its host.
+    fn target(uri: &SipUri) -> &str {
+        match uri.params().get(&SmolStr::new("maddr")) {
+            Some(Some(maddr)) => maddr.trim_start_matches('[').trim_end_matches(']'),
+            _ => uri.host(),
+        }
+    }
+
     /// The port when neither URI nor SRV gives one (RFC 3263 §4.2).
     fn default_port(uri: &SipUri) -> u16 {
         match Self::default_transport(uri) {
@@ -443,8 +451,7 @@ impl SipResolver {
 
     /// Performs complete RFC 3263 resolution.
     async fn resolve_internal(&self, uri: &SipUri) -> Result<Vec<DnsTarget>> {
-        let host = uri.host();
-
+        let host = Self::target(uri);
         // RFC 3263 §4: If numeric IP, use directly
         if Self::is_numeric_ip(host) {
             let port = uri.port().unwrap_or_else(|| Self::default_port(uri));
@@ -567,7 +574,7 @@ impl SipResolver {
         uri: &SipUri,
         allowed_transport: Option<Transport>,
     ) -> Result<Vec<NaptrRecord>> {
-        let host = uri.host();
+        let host = Self::target(uri);
         let lookup = tokio::time::timeout(
             self.query_timeout,
             self.resolver
-- 
2.43.0


From 65881734dccf3fadcc940d9edd88c2e88da39111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 087/176] fix: one unusable DHCP domain does not lose the other
 SIP servers

---
 crates/sip-dns/src/lib.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 9097144..12e1a04 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -1230,12 +1230,10 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
                 }
                 DhcpSipServer::Domain(domain) => {
                     // Create a temporary URI with the DHCP domain for DNS resolution
-                    let temp_uri = uri
-                        .clone()
-                        .with_host(domain.clone())
-                        .map_err(|e| anyhow!(e))?
-                        .without_port();
-
+                    let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                        continue;
+                    };
+                    let temp_uri = temp_uri.without_port();
                     // Resolve the domain via DNS (RFC 3263)
                     if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                         all_targets.extend(targets);
@@ -1321,11 +1319,10 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                             ));
                         }
                         DhcpSipServer::Domain(domain) => {
-                            let temp_uri = uri
-                                .clone()
-                                .with_host(domain.clone())
-                                .map_err(|e| anyhow!(e))?
-                                .without_port();
+                            let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                                continue;
+                            };
+                            let temp_uri = temp_uri.without_port();
 
                             if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                                 all_targets.extend(targets);
-- 
2.43.0


From 1ee675c7c05bf3d2f2aaea28c021e4f17df32af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 088/176] fix: DHCP option 120 refuses names that do not decode
 exactly

---
 crates/sip-dns/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 12e1a04..7069858 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -1049,7 +1049,11 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
             }
 
             let label = &data[pos..pos + len];
-            labels.push(String::from_utf8_lossy(label).to_string());
+            let label = std::str::from_utf8(label)
+                .ok()
+                .filter(|l| !l.chars().any(|c| c == '.' || c.is_control()))
+                .ok_or_else(|| anyhow!("Invalid domain name label"))?;
+            labels.push(label.to_string());
             pos += len;
         }
 
@@ -1060,6 +1064,9 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
             return Err(anyhow!("Empty domain name"));
         } else {
             let domain = labels.join(".");
+            if domain.len() > MAX_HOSTNAME_LENGTH {
+                return Err(anyhow!("Domain name too long"));
+            }
             servers.push(DhcpSipServer::Domain(SmolStr::new(domain)));
         }
     }
-- 
2.43.0


From 14eb365cdaf55f7ca4a5729f3f30015821b6c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 089/176] fix: ENUM rewrite rules without their closing
 delimiter are ill-formed

---
 crates/sip-dns/src/enum_lookup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dns/src/enum_lookup.rs b/crates/sip-dns/src/enum_lookup.rs
index c3b254e..982370a 100644
--- a/crates/sip-dns/src/enum_lookup.rs
+++ b/crates/sip-dns/src/enum_lookup.rs
@@ -219,8 +219,8 @@ impl EnumNaptrRecord {
         }
         parts.push(current);
 
-        // Should have at least 2 parts: ["pattern", "replacement", ...]
-        if parts.len() < 2 {
+        // Exactly 3 parts: ["pattern", "replacement", "flags"]
+        if parts.len() != 3 || !parts[2].chars().all(|c| c == 'i') {
             return None;
         }
 
-- 
2.43.0


From d9308eb42aba85e0a9603b19509a2330f649e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 090/176] fix: a DHCP-provided domain takes the place of a
 maddr parameter

---
 crates/sip-dns/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 7069858..2522503 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -1200,6 +1200,15 @@ pub struct DhcpResolver<D: DhcpProvider, R: Resolver> {
     dns_resolver: R,
 }
 
+/// The URI with a DHCP-provided domain as its target.
+fn at_domain(uri: &SipUri, domain: &SmolStr) -> Option<SipUri> {
+    let uri = uri.clone().with_host(domain.clone()).ok()?.without_port();
+    if uri.params().contains_key("maddr") {
+        return uri.with_param("maddr", Some(domain.clone())).ok();
+    }
+    Some(uri)
+}
+
 impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
     /// Creates a new DHCP resolver with the given DHCP provider and DNS resolver.
     ///
@@ -1237,10 +1246,9 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
                 }
                 DhcpSipServer::Domain(domain) => {
                     // Create a temporary URI with the DHCP domain for DNS resolution
-                    let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                    let Some(temp_uri) = at_domain(uri, &domain) else {
                         continue;
                     };
-                    let temp_uri = temp_uri.without_port();
                     // Resolve the domain via DNS (RFC 3263)
                     if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                         all_targets.extend(targets);
@@ -1326,10 +1334,9 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                             ));
                         }
                         DhcpSipServer::Domain(domain) => {
-                            let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                            let Some(temp_uri) = at_domain(uri, &domain) else {
                                 continue;
                             };
-                            let temp_uri = temp_uri.without_port();
 
                             if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                                 all_targets.extend(targets);
-- 
2.43.0


From 95554f118617dbbd663385d97d0b7393f0741227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 091/176] fix: Identity header parameters may contain
 semicolons in URIs and strings

---
 crates/sip-identity/src/header.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/sip-identity/src/header.rs b/crates/sip-identity/src/header.rs
index 3f880a1..7a3e2c9 100644
--- a/crates/sip-identity/src/header.rs
+++ b/crates/sip-identity/src/header.rs
@@ -51,7 +51,7 @@ impl IdentityHeader {
             });
         }
 
-        let mut segments = value.split(';');
+        let mut segments = split_segments(value).into_iter();
         let token = segments.next().unwrap_or("").trim();
         if token.is_empty() {
             return Err(IdentityError::EmptyToken);
@@ -93,6 +93,28 @@ impl IdentityHeader {
     }
 }
 
+/// Splits at the semicolons outside of angle brackets and quoted strings.
+fn split_segments(value: &str) -> Vec<&str> {
+    let (mut segments, mut start) = (Vec::new(), 0);
+    let (mut quoted, mut escaped, mut in_uri) = (false, false, false);
+    for (i, c) in value.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '"' if !in_uri => quoted = !quoted,
+            '<' if !quoted => in_uri = true,
+            '>' if !quoted => in_uri = false,
+            ';' if !quoted && !in_uri => {
+                segments.push(&value[start..i]);
+                start = i + 1;
+            }
+            _ => {}
+        }
+    }
+    segments.push(&value[start..]);
+    segments
+}
+
 /// `info` is a URI in angle brackets: `<https://…>`. Require them — a
 /// bare URI is malformed per RFC 8224 §4.
 fn strip_angle_brackets(s: &str) -> Result<String, IdentityError> {
-- 
2.43.0


From 8fba5b7787e03571f005d1a72db80233937f6c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 092/176] fix: sign refuses an x5u that is not a URI

---
 crates/sip-identity/src/sign.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/sip-identity/src/sign.rs b/crates/sip-identity/src/sign.rs
index 6b70598..a79f2c6 100644
--- a/crates/sip-identity/src/sign.rs
+++ b/crates/sip-identity/src/sign.rs
@@ -35,6 +35,8 @@ use crate::passport::AttestationLevel;
 pub enum SignError {
     /// A claim required by the SHAKEN profile was not supplied.
     MissingField(&'static str),
+    /// A field has a value that cannot stand in an `Identity` header.
+    InvalidField(&'static str),
     /// JSON serialization of the header or claims failed.
     Json(String),
     /// The ECDSA signing operation failed (bad key, RNG failure).
@@ -45,6 +47,7 @@ impl std::fmt::Display for SignError {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::MissingField(field) => write!(f, "missing required PASSporT field {field:?}"),
+            Self::InvalidField(field) => write!(f, "invalid PASSporT field {field:?}"),
             Self::Json(msg) => write!(f, "PASSporT JSON serialization failed: {msg}"),
             Self::Signing(msg) => write!(f, "ES256 signing failed: {msg}"),
         }
@@ -134,6 +137,14 @@ pub fn sign(
     if params.orig_tn.is_empty() {
         return Err(SignError::MissingField("orig.tn"));
     }
+    // `x5u` is also written as the `info` URI of the header, in angle brackets.
+    if params
+        .x5u
+        .chars()
+        .any(|c| matches!(c, '<' | '>' | '"') || c.is_whitespace() || c.is_control())
+    {
+        return Err(SignError::InvalidField("x5u"));
+    }
     let header = SignHeader {
         alg: "ES256",
         ppt: "shaken",
-- 
2.43.0


From 28465f4e573c891211c823102133db7567bc91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 093/176] fix: parse_pidf reads PIDF as XML (attributes,
 prefixes, CDATA, references, extensions, untrimmed notes)

---
 crates/sip-core/src/lib.rs      |   1 +
 crates/sip-core/src/presence.rs | 222 +++++++------------------
 crates/sip-core/src/xml.rs      | 281 ++++++++++++++++++++++++++++++++
 3 files changed, 345 insertions(+), 159 deletions(-)
 create mode 100644 crates/sip-core/src/xml.rs

diff --git a/crates/sip-core/src/lib.rs b/crates/sip-core/src/lib.rs
index 600348d..92afac0 100644
--- a/crates/sip-core/src/lib.rs
+++ b/crates/sip-core/src/lib.rs
@@ -72,6 +72,7 @@ pub mod uri;
 pub mod version;
 pub mod via;
 pub mod watcher_info;
+mod xml;
 
 pub use addr_headers::{FromHeader, NameAddrHeader, ToHeader};
 pub use auth::AuthorizationHeader;
diff --git a/crates/sip-core/src/presence.rs b/crates/sip-core/src/presence.rs
index 73c99db..4e359cf 100644
--- a/crates/sip-core/src/presence.rs
+++ b/crates/sip-core/src/presence.rs
@@ -15,6 +15,11 @@
 use smol_str::SmolStr;
 use std::fmt;
 
+use crate::xml;
+
+/// Namespace of PIDF documents (RFC 3863).
+const PIDF_NAMESPACE: &str = "urn:ietf:params:xml:ns:pidf";
+
 const MAX_ENTITY_LENGTH: usize = 512;
 const MAX_ID_LENGTH: usize = 128;
 const MAX_CONTACT_LENGTH: usize = 512;
@@ -409,33 +414,6 @@ fn xml_escape(s: &str) -> String {
         .collect()
 }
 
-fn xml_unescape(s: &str) -> String {
-    let mut out = String::new();
-    let mut i = 0;
-    while let Some(rel) = s[i..].find('&') {
-        let amp = i + rel;
-        out.push_str(&s[i..amp]);
-        if let Some(semi) = s[amp..].find(';') {
-            let end = amp + semi;
-            let entity = &s[amp + 1..end];
-            match entity {
-                "lt" => out.push('<'),
-                "gt" => out.push('>'),
-                "amp" => out.push('&'),
-                "quot" => out.push('"'),
-                "apos" => out.push('\''),
-                _ => out.push_str(&s[amp..=end]),
-            }
-            i = end + 1;
-        } else {
-            out.push('&');
-            i = amp + 1;
-        }
-    }
-    out.push_str(&s[i..]);
-    out
-}
-
 /// Parses a PIDF presence document from XML.
 ///
 /// # Security
@@ -450,159 +428,85 @@ pub fn parse_pidf(xml: &str) -> Result<PresenceDocument, PresenceError> {
         });
     }
 
-    // Very basic parsing - a real implementation should use an XML parser
-    let entity = extract_attribute(xml, "<presence", "entity")
-        .ok_or_else(|| PresenceError::ParseError("missing entity attribute".to_string()))?;
+    let root = xml::parse(xml).map_err(PresenceError::ParseError)?;
+    if !root.is(PIDF_NAMESPACE, "presence") {
+        return Err(PresenceError::ParseError(
+            "root element is not presence".to_string(),
+        ));
+    }
 
-    let entity = xml_unescape(&entity);
+    let entity = root
+        .attr("entity")
+        .ok_or_else(|| PresenceError::ParseError("missing entity attribute".to_string()))?;
     let mut doc = PresenceDocument::new(entity)?;
 
-    // Extract tuples
-    let mut tuple_ranges = Vec::new();
-    let mut pos = 0;
-    while let Some(tuple_start) = xml[pos..].find("<tuple") {
-        let abs_start = pos + tuple_start;
-        let tuple_end = xml[abs_start..]
-            .find("</tuple>")
-            .ok_or_else(|| PresenceError::ParseError("unclosed tuple".to_string()))?
-            + abs_start
-            + 8;
-        let tuple_xml = &xml[abs_start..tuple_end];
-
-        let tuple = parse_tuple(tuple_xml)?;
-        doc.add_tuple(tuple)?;
-        tuple_ranges.push((abs_start, tuple_end));
-
-        pos = tuple_end;
+    for tuple in root.children(PIDF_NAMESPACE, "tuple") {
+        doc.add_tuple(parse_tuple(tuple)?)?;
+    }
+    for note in root.children(PIDF_NAMESPACE, "note") {
+        doc.add_note(note_text(note))?;
     }
-
-    // Extract document-level notes (outside tuples)
-    extract_document_notes(xml, &tuple_ranges, &mut doc)?;
 
     Ok(doc)
 }
 
-/// Parses a single tuple from XML.
-fn parse_tuple(xml: &str) -> Result<Tuple, PresenceError> {
-    let id = extract_attribute(xml, "<tuple", "id")
+fn parse_tuple(element: &xml::Element) -> Result<Tuple, PresenceError> {
+    let id = element
+        .attr("id")
         .ok_or_else(|| PresenceError::ParseError("missing tuple id".to_string()))?;
-
-    let id = xml_unescape(&id);
     let mut tuple = Tuple::new(id)?;
 
-    // Extract status
-    if let Some(basic_start) = xml.find("<basic>") {
-        // Search for the closing tag only *after* the opening tag, so a
-        // </basic> that precedes <basic> cannot make basic_end < basic_start+7
-        // and panic on the slice.
-        if let Some(basic_end) = xml[basic_start + 7..]
-            .find("</basic>")
-            .map(|rel| basic_start + 7 + rel)
-        {
-            let status_str = &xml[basic_start + 7..basic_end].trim();
-            tuple.status =
-                Some(BasicStatus::parse(status_str).ok_or_else(|| {
-                    PresenceError::ParseError("invalid basic status".to_string())
-                })?);
-        }
+    if let Some(basic) = element
+        .children(PIDF_NAMESPACE, "status")
+        .flat_map(|status| status.children(PIDF_NAMESPACE, "basic"))
+        .next()
+    {
+        tuple.status = Some(
+            BasicStatus::parse(basic.text.trim())
+                .ok_or_else(|| PresenceError::ParseError("invalid basic status".to_string()))?,
+        );
     }
-
-    // Extract contact
-    if let Some((contact, end_idx)) = extract_element_with_range(xml, "contact") {
-        if has_duplicate_element(xml, "contact", end_idx) {
-            return Err(PresenceError::ParseError(
-                "multiple contact elements".to_string(),
-            ));
-        }
-        let contact = xml_unescape(&contact);
-        tuple = tuple.with_contact(contact)?;
-    }
-
-    // Extract notes
-    let mut pos = 0;
-    while let Some(note_start) = xml[pos..].find("<note>") {
-        let abs_start = pos + note_start;
-        if let Some(note_end) = xml[abs_start..].find("</note>") {
-            let note = &xml[abs_start + 6..abs_start + note_end].trim();
-            let note = xml_unescape(note);
-            tuple = tuple.with_note(note)?;
-            pos = abs_start + note_end + 7;
-        } else {
-            break;
-        }
+    if let Some(contact) = single_child(element, "contact")? {
+        tuple = tuple.with_contact(contact.text.trim())?;
     }
-
-    // Extract timestamp
-    if let Some((timestamp, end_idx)) = extract_element_with_range(xml, "timestamp") {
-        if has_duplicate_element(xml, "timestamp", end_idx) {
-            return Err(PresenceError::ParseError(
-                "multiple timestamp elements".to_string(),
-            ));
-        }
-        let timestamp = xml_unescape(&timestamp);
-        tuple = tuple.with_timestamp(timestamp)?;
+    for note in element.children(PIDF_NAMESPACE, "note") {
+        tuple = tuple.with_note(note_text(note))?;
+    }
+    if let Some(timestamp) = single_child(element, "timestamp")? {
+        tuple = tuple.with_timestamp(timestamp.text.trim())?;
     }
 
     Ok(tuple)
 }
 
-/// Extracts an XML attribute value.
-fn extract_attribute(xml: &str, tag_name: &str, attr_name: &str) -> Option<String> {
-    let tag_start = xml.find(tag_name)?;
-    let tag_content = &xml[tag_start..];
-    let tag_end = tag_content.find('>')?;
-    let tag_str = &tag_content[..tag_end];
-
-    let attr_start = tag_str.find(&format!("{}=\"", attr_name))?;
-    let value_start = attr_start + attr_name.len() + 2;
-    let value_end = tag_str[value_start..].find('"')?;
-    Some(tag_str[value_start..value_start + value_end].to_string())
-}
-
-fn extract_element_with_range(xml: &str, element_name: &str) -> Option<(String, usize)> {
-    let start_tag = format!("<{}>", element_name);
-    let end_tag = format!("</{}>", element_name);
-
-    let content_start = xml.find(&start_tag)? + start_tag.len();
-    let content_end = xml[content_start..].find(&end_tag)? + content_start;
-    let end_idx = content_end + end_tag.len();
-
-    Some((xml[content_start..content_end].trim().to_string(), end_idx))
-}
-
-fn has_duplicate_element(xml: &str, element_name: &str, after_idx: usize) -> bool {
-    let start_tag = format!("<{}>", element_name);
-    xml[after_idx..].contains(&start_tag)
+/// Text of a note, without white space around it that breaks the line: that is
+/// the layout of the document.
+fn note_text(note: &xml::Element) -> &str {
+    let mut text = note.text.as_str();
+    let inner = text.trim_start();
+    if text[..text.len() - inner.len()].contains('\n') {
+        text = inner;
+    }
+    let inner = text.trim_end();
+    if text[inner.len()..].contains('\n') {
+        text = inner;
+    }
+    text
 }
 
-fn extract_document_notes(
-    xml: &str,
-    tuple_ranges: &[(usize, usize)],
-    doc: &mut PresenceDocument,
-) -> Result<(), PresenceError> {
-    let mut pos = 0;
-    while let Some(note_start) = xml[pos..].find("<note>") {
-        let abs_start = pos + note_start;
-        if tuple_ranges
-            .iter()
-            .any(|(start, end)| abs_start >= *start && abs_start < *end)
-        {
-            pos = abs_start + 6;
-            continue;
-        }
-
-        if let Some(note_end) = xml[abs_start..].find("</note>") {
-            let note = &xml[abs_start + 6..abs_start + note_end].trim();
-            let note = xml_unescape(note);
-            doc.add_note(note)?;
-            pos = abs_start + note_end + 7;
-        } else {
-            return Err(PresenceError::ParseError(
-                "unclosed note element".to_string(),
-            ));
-        }
+/// The child called `name`, which may appear once only.
+fn single_child<'a>(
+    element: &'a xml::Element,
+    name: &'a str,
+) -> Result<Option<&'a xml::Element>, PresenceError> {
+    let mut found = element.children(PIDF_NAMESPACE, name);
+    let first = found.next();
+    match found.next() {
+        None => Ok(first),
+        Some(_) => Err(PresenceError::ParseError(format!(
+            "multiple {name} elements"
+        ))),
     }
-    Ok(())
 }
 
 // Validation functions
diff --git a/crates/sip-core/src/xml.rs b/crates/sip-core/src/xml.rs
new file mode 100644
index 0000000..6f197a3
--- /dev/null
+++ b/crates/sip-core/src/xml.rs
@@ -0,0 +1,281 @@
+// siphon-rs - The Siphon SIP Stack
+// Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
+// SPDX-License-Identifier: Apache-2.0 OR MIT
+
+//! Small namespace-aware XML reader for the event package bodies.
+//!
+//! It understands elements, attributes, character data, CDATA sections,
+//! comments, processing instructions and character references. Document type
+//! declarations are refused, so there is no entity expansion.
+
+/// Deepest element nesting accepted.
+const MAX_DEPTH: usize = 64;
+
+/// An element with everything inside it.
+#[derive(Debug, Default)]
+pub(crate) struct Element {
+    /// Namespace name, empty if the element is in no namespace.
+    pub ns: String,
+    /// Local name.
+    pub name: String,
+    /// Attributes under the names they were written with.
+    attrs: Vec<(String, String)>,
+    /// Child elements.
+    pub children: Vec<Element>,
+    /// Character data directly inside the element.
+    pub text: String,
+}
+
+impl Element {
+    /// Value of an attribute.
+    pub fn attr(&self, name: &str) -> Option<&str> {
+        self.attrs
+            .iter()
+            .find(|(n, _)| n == name)
+            .map(|(_, v)| v.as_str())
+    }
+
+    /// Whether this is element `name` of namespace `ns`. An element in no
+    /// namespace counts, for senders that leave the declaration out.
+    pub fn is(&self, ns: &str, name: &str) -> bool {
+        self.name == name && (self.ns.is_empty() || self.ns == ns)
+    }
+
+    /// Children called `name` in namespace `ns`.
+    pub fn children<'a>(
+        &'a self,
+        ns: &'a str,
+        name: &'a str,
+    ) -> impl Iterator<Item = &'a Element> + 'a {
+        self.children.iter().filter(move |c| c.is(ns, name))
+    }
+}
+
+/// An element whose end tag has not been read yet.
+struct Open {
+    qname: String,
+    element: Element,
+    /// Number of namespace bindings in scope outside the element.
+    bindings: usize,
+}
+
+/// Reads a document and returns its root element.
+pub(crate) fn parse(xml: &str) -> Result<Element, String> {
+    let mut rest = xml.strip_prefix('\u{feff}').unwrap_or(xml);
+    let mut bindings: Vec<(String, String)> = vec![(
+        "xml".to_string(),
+        "http://www.w3.org/XML/1998/namespace".to_string(),
+    )];
+    let mut stack: Vec<Open> = Vec::new();
+    let mut root: Option<Element> = None;
+
+    while !rest.is_empty() {
+        let Some(markup) = rest.strip_prefix('<') else {
+            let end = rest.find('<').unwrap_or(rest.len());
+            let (data, after) = rest.split_at(end);
+            match stack.last_mut() {
+                Some(open) => unescape_into(data, false, &mut open.element.text)?,
+                None if data.chars().all(is_space) => {}
+                None => return Err("text outside the root element".to_string()),
+            }
+            rest = after;
+            continue;
+        };
+
+        if let Some(comment) = markup.strip_prefix("!--") {
+            rest = after(comment, "-->", "unterminated comment")?.1;
+        } else if let Some(cdata) = markup.strip_prefix("![CDATA[") {
+            let (data, next) = after(cdata, "]]>", "unterminated CDATA section")?;
+            let open = stack
+                .last_mut()
+                .ok_or_else(|| "CDATA outside the root element".to_string())?;
+            push_lines(data, &mut open.element.text);
+            rest = next;
+        } else if markup.starts_with('!') {
+            return Err("document type declarations are not accepted".to_string());
+        } else if let Some(pi) = markup.strip_prefix('?') {
+            rest = after(pi, "?>", "unterminated processing instruction")?.1;
+        } else if let Some(end_tag) = markup.strip_prefix('/') {
+            let (name, next) = after(end_tag, ">", "unterminated tag")?;
+            let open = stack
+                .pop()
+                .filter(|open| open.qname == name.trim_end_matches(is_space))
+                .ok_or_else(|| format!("unexpected end tag {name:?}"))?;
+            bindings.truncate(open.bindings);
+            close(open.element, &mut stack, &mut root);
+            rest = next;
+        } else {
+            if root.is_some() {
+                return Err("more than one root element".to_string());
+            }
+            if stack.len() >= MAX_DEPTH {
+                return Err("elements nested too deeply".to_string());
+            }
+            let (qname, attrs, empty, next) = start_tag(markup)?;
+            let outer = bindings.len();
+            for (name, value) in &attrs {
+                if name == "xmlns" {
+                    bindings.push((String::new(), value.clone()));
+                } else if let Some(prefix) = name.strip_prefix("xmlns:") {
+                    bindings.push((prefix.to_string(), value.clone()));
+                }
+            }
+            let (prefix, local) = qname.split_once(':').unwrap_or(("", &qname));
+            let ns = match bindings.iter().rev().find(|(p, _)| p == prefix) {
+                Some((_, ns)) => ns.clone(),
+                None if prefix.is_empty() => String::new(),
+                None => return Err(format!("undeclared prefix {prefix:?}")),
+            };
+            let element = Element {
+                ns,
+                name: local.to_string(),
+                attrs,
+                ..Element::default()
+            };
+            if empty {
+                bindings.truncate(outer);
+                close(element, &mut stack, &mut root);
+            } else {
+                stack.push(Open {
+                    qname,
+                    element,
+                    bindings: outer,
+                });
+            }
+            rest = next;
+        }
+    }
+
+    match stack.last() {
+        Some(open) => Err(format!("unclosed {}", open.qname)),
+        None => root.ok_or_else(|| "no root element".to_string()),
+    }
+}
+
+fn close(element: Element, stack: &mut [Open], root: &mut Option<Element>) {
+    match stack.last_mut() {
+        Some(parent) => parent.element.children.push(element),
+        None => *root = Some(element),
+    }
+}
+
+fn is_space(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\r' | '\n')
+}
+
+fn after<'a>(s: &'a str, end: &str, error: &str) -> Result<(&'a str, &'a str), String> {
+    s.split_once(end).ok_or_else(|| error.to_string())
+}
+
+type StartTag<'a> = (String, Vec<(String, String)>, bool, &'a str);
+
+/// Reads a start tag whose `<` has been consumed.
+fn start_tag(s: &str) -> Result<StartTag<'_>, String> {
+    let (qname, mut rest) = name(s)?;
+    let mut attrs: Vec<(String, String)> = Vec::new();
+    loop {
+        let trimmed = rest.trim_start_matches(is_space);
+        if let Some(next) = trimmed.strip_prefix("/>") {
+            return Ok((qname.to_string(), attrs, true, next));
+        }
+        if let Some(next) = trimmed.strip_prefix('>') {
+            return Ok((qname.to_string(), attrs, false, next));
+        }
+        if trimmed.len() == rest.len() {
+            return Err(format!("malformed tag {qname:?}"));
+        }
+        let (attr, next) = name(trimmed)?;
+        let value = next
+            .trim_start_matches(is_space)
+            .strip_prefix('=')
+            .ok_or_else(|| format!("attribute {attr:?} has no value"))?
+            .trim_start_matches(is_space);
+        let quote = match value.chars().next() {
+            Some(q @ ('"' | '\'')) => q,
+            _ => return Err(format!("attribute {attr:?} is not quoted")),
+        };
+        let (raw, next) = value[1..]
+            .split_once(quote)
+            .ok_or_else(|| format!("unterminated attribute {attr:?}"))?;
+        if raw.contains('<') {
+            return Err(format!("'<' in attribute {attr:?}"));
+        }
+        if attrs.iter().any(|(n, _)| n == attr) {
+            return Err(format!("duplicate attribute {attr:?}"));
+        }
+        let mut text = String::new();
+        unescape_into(raw, true, &mut text)?;
+        attrs.push((attr.to_string(), text));
+        rest = next;
+    }
+}
+
+fn name(s: &str) -> Result<(&str, &str), String> {
+    let end = s
+        .find(|c: char| {
+            !(c.is_alphanumeric() || matches!(c, ':' | '_' | '-' | '.') || !c.is_ascii())
+        })
+        .unwrap_or(s.len());
+    if end == 0 || s.starts_with(|c: char| c.is_ascii_digit() || matches!(c, '-' | '.')) {
+        return Err("malformed name".to_string());
+    }
+    Ok(s.split_at(end))
+}
+
+/// Appends character data with line ends normalised.
+fn push_lines(s: &str, out: &mut String) {
+    let mut chars = s.chars().peekable();
+    while let Some(c) = chars.next() {
+        if c != '\r' {
+            out.push(c);
+        } else if chars.peek() != Some(&'\n') {
+            out.push('\n');
+        }
+    }
+}
+
+/// Appends text with its references replaced. White space in attribute values
+/// turns into spaces, unless it was written as a reference.
+fn unescape_into(s: &str, attribute: bool, out: &mut String) -> Result<(), String> {
+    let mut rest = s;
+    loop {
+        let (plain, reference) = match rest.split_once('&') {
+            Some((plain, reference)) => (plain, Some(reference)),
+            None => (rest, None),
+        };
+        if attribute {
+            let mut lines = String::new();
+            push_lines(plain, &mut lines);
+            out.extend(lines.chars().map(|c| if is_space(c) { ' ' } else { c }));
+        } else {
+            push_lines(plain, out);
+        }
+        let Some(reference) = reference else {
+            return Ok(());
+        };
+        let (entity, next) = after(reference, ";", "unterminated entity")?;
+        out.push(match entity {
+            "lt" => '<',
+            "gt" => '>',
+            "amp" => '&',
+            "quot" => '"',
+            "apos" => '\'',
+            _ => char_reference(entity).ok_or_else(|| format!("unknown entity: &{};", entity))?,
+        });
+        rest = next;
+    }
+}
+
+fn char_reference(entity: &str) -> Option<char> {
+    let number = entity.strip_prefix('#')?;
+    let (digits, radix) = match number.strip_prefix('x') {
+        Some(hex) => (hex, 16),
+        None => (number, 10),
+    };
+    if !digits.chars().all(|c| c.is_digit(radix)) {
+        return None;
+    }
+    u32::from_str_radix(digits, radix)
+        .ok()
+        .and_then(char::from_u32)
+}
-- 
2.43.0


From 7ed0ff67b7380a58e2b47fc913d5a3fb6e78dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 094/176] fix: parse_watcherinfo reads its document as XML, and
 control characters in attributes survive

---
 crates/sip-core/src/watcher_info.rs | 276 +++++-----------------------
 1 file changed, 45 insertions(+), 231 deletions(-)

diff --git a/crates/sip-core/src/watcher_info.rs b/crates/sip-core/src/watcher_info.rs
index e275f38..ad3659c 100644
--- a/crates/sip-core/src/watcher_info.rs
+++ b/crates/sip-core/src/watcher_info.rs
@@ -19,6 +19,11 @@
 use smol_str::SmolStr;
 use std::fmt;
 
+use crate::xml;
+
+/// Namespace of watcherinfo documents (RFC 3858).
+const WATCHERINFO_NAMESPACE: &str = "urn:ietf:params:xml:ns:watcherinfo";
+
 use crate::Uri;
 
 // Security: Input size limits
@@ -631,8 +636,9 @@ fn xml_escape(s: &str) -> String {
             '&' => "&amp;".to_string(),
             '"' => "&quot;".to_string(),
             '\'' => "&apos;".to_string(),
-            // Filter out other control characters for security
-            c if c.is_control() && c != '\t' && c != '\n' && c != '\r' => {
+            // Control characters as references: a tab or line end written as
+            // itself in an attribute is read back as a space
+            c if c.is_control() => {
                 format!("&#x{:X};", c as u32)
             }
             _ => c.to_string(),
@@ -640,263 +646,71 @@ fn xml_escape(s: &str) -> String {
         .collect()
 }
 
-fn xml_unescape(s: &str) -> Result<String, WatcherinfoError> {
-    let mut out = String::with_capacity(s.len());
-    let mut idx = 0;
-    while idx < s.len() {
-        let remainder = &s[idx..];
-        if remainder.starts_with('&') {
-            let end = remainder.find(';').ok_or_else(|| {
-                WatcherinfoError::XmlParseError("unterminated entity".to_string())
-            })?;
-            let entity = &remainder[1..end];
-            let decoded = match entity {
-                "lt" => Some('<'),
-                "gt" => Some('>'),
-                "amp" => Some('&'),
-                "quot" => Some('"'),
-                "apos" => Some('\''),
-                _ => None,
-            };
-            if let Some(ch) = decoded {
-                out.push(ch);
-            } else if let Some(hex) = entity
-                .strip_prefix("#x")
-                .or_else(|| entity.strip_prefix("#X"))
-            {
-                let value = u32::from_str_radix(hex, 16).map_err(|_| {
-                    WatcherinfoError::XmlParseError("invalid hex character reference".to_string())
-                })?;
-                let ch = char::from_u32(value).ok_or_else(|| {
-                    WatcherinfoError::XmlParseError("invalid character reference".to_string())
-                })?;
-                out.push(ch);
-            } else if let Some(dec) = entity.strip_prefix('#') {
-                let value = dec.parse::<u32>().map_err(|_| {
-                    WatcherinfoError::XmlParseError("invalid character reference".to_string())
-                })?;
-                let ch = char::from_u32(value).ok_or_else(|| {
-                    WatcherinfoError::XmlParseError("invalid character reference".to_string())
-                })?;
-                out.push(ch);
-            } else {
-                return Err(WatcherinfoError::XmlParseError(format!(
-                    "unknown entity: &{};",
-                    entity
-                )));
-            }
-            idx += end + 1;
-        } else {
-            let ch = remainder.chars().next().ok_or_else(|| {
-                WatcherinfoError::XmlParseError(
-                    "invalid UTF-8 sequence or empty remainder".to_string(),
-                )
-            })?;
-            out.push(ch);
-            idx += ch.len_utf8();
-        }
-    }
-    Ok(out)
-}
-
 /// Parses a watcherinfo document from XML.
 ///
 /// Note: This is a basic parser. Production use should use a proper XML parser library.
 pub fn parse_watcherinfo(xml: &str) -> Result<WatcherinfoDocument, WatcherinfoError> {
-    let version = extract_attribute(xml, "<watcherinfo", "version")?
-        .ok_or_else(|| WatcherinfoError::XmlParseError("missing version attribute".to_string()))?
+    let root = xml::parse(xml).map_err(WatcherinfoError::XmlParseError)?;
+    if !root.is(WATCHERINFO_NAMESPACE, "watcherinfo") {
+        return Err(WatcherinfoError::XmlParseError(
+            "root element is not watcherinfo".to_string(),
+        ));
+    }
+
+    let version = required(&root, "version")?
         .parse::<u32>()
         .map_err(|_| WatcherinfoError::XmlParseError("invalid version number".to_string()))?;
-
-    let state = extract_attribute(xml, "<watcherinfo", "state")?
-        .ok_or_else(|| WatcherinfoError::XmlParseError("missing state attribute".to_string()))?;
-
-    let mut doc = WatcherinfoDocument::new(version, state)?;
-
-    let mut pos = 0;
-    while let Some(list_start) = xml[pos..].find("<watcher-list") {
-        let abs_start = pos + list_start;
-        let list_end = xml[abs_start..]
-            .find("</watcher-list>")
-            .ok_or_else(|| WatcherinfoError::XmlParseError("unclosed watcher-list".to_string()))?
-            + abs_start
-            + 15;
-        let list_xml = &xml[abs_start..list_end];
-
-        let list = parse_watcher_list(list_xml)?;
-        doc.add_watcher_list(list)?;
-
-        pos = list_end;
+    let mut doc = WatcherinfoDocument::new(version, required(&root, "state")?)?;
+    for list in root.children(WATCHERINFO_NAMESPACE, "watcher-list") {
+        doc.add_watcher_list(parse_watcher_list(list)?)?;
     }
-
     Ok(doc)
 }
 
-fn parse_watcher_list(xml: &str) -> Result<WatcherList, WatcherinfoError> {
-    let resource = extract_attribute(xml, "<watcher-list", "resource")?
-        .ok_or_else(|| WatcherinfoError::XmlParseError("missing resource".to_string()))?;
-    let package = extract_attribute(xml, "<watcher-list", "package")?
-        .ok_or_else(|| WatcherinfoError::XmlParseError("missing package".to_string()))?;
-
-    let mut list = WatcherList::new(resource, package)?;
-
-    let mut pos = 0;
-    while let Some(watcher_start) = xml[pos..].find("<watcher ") {
-        let abs_start = pos + watcher_start;
-        let watcher_end = xml[abs_start..]
-            .find("</watcher>")
-            .ok_or_else(|| WatcherinfoError::XmlParseError("unclosed watcher".to_string()))?
-            + abs_start
-            + 10;
-        let watcher_xml = &xml[abs_start..watcher_end];
-
-        let watcher = parse_watcher(watcher_xml)?;
-        list.add_watcher(watcher)?;
-
-        pos = watcher_end;
+fn parse_watcher_list(element: &xml::Element) -> Result<WatcherList, WatcherinfoError> {
+    let mut list = WatcherList::new(
+        required(element, "resource")?,
+        required(element, "package")?,
+    )?;
+    for watcher in element.children(WATCHERINFO_NAMESPACE, "watcher") {
+        list.add_watcher(parse_watcher(watcher)?)?;
     }
-
     Ok(list)
 }
 
-fn parse_watcher(xml: &str) -> Result<Watcher, WatcherinfoError> {
-    let id = extract_attribute(xml, "<watcher", "id")?
-        .ok_or_else(|| WatcherinfoError::XmlParseError("missing id".to_string()))?;
-    let status_str = extract_attribute(xml, "<watcher", "status")?
-        .ok_or_else(|| WatcherinfoError::XmlParseError("missing status".to_string()))?;
-    let event_str = extract_attribute(xml, "<watcher", "event")?
-        .ok_or_else(|| WatcherinfoError::XmlParseError("missing event".to_string()))?;
+fn parse_watcher(element: &xml::Element) -> Result<Watcher, WatcherinfoError> {
+    let id = required(element, "id")?;
+    let status_str = required(element, "status")?;
+    let event_str = required(element, "event")?;
 
-    let status = WatcherStatus::parse(&status_str).ok_or_else(|| {
+    let status = WatcherStatus::parse(status_str).ok_or_else(|| {
         WatcherinfoError::XmlParseError(format!("invalid status: {}", status_str))
     })?;
-    let event = WatcherEvent::parse(&event_str)
+    let event = WatcherEvent::parse(event_str)
         .ok_or_else(|| WatcherinfoError::XmlParseError(format!("invalid event: {}", event_str)))?;
 
     let mut watcher = Watcher::new(id, status, event)?;
-
-    if let Some(display_name) = extract_attribute(xml, "<watcher", "display-name")? {
+    if let Some(display_name) = element.attr("display-name") {
         watcher = watcher.with_display_name(display_name)?;
     }
-
-    if let Some(expiration) = extract_attribute(xml, "<watcher", "expiration")? {
-        if let Ok(exp) = expiration.parse::<u32>() {
-            watcher = watcher.with_expiration(exp);
-        }
+    if let Some(Ok(expiration)) = element.attr("expiration").map(str::parse::<u32>) {
+        watcher = watcher.with_expiration(expiration);
     }
-
-    if let Some(duration) = extract_attribute(xml, "<watcher", "duration-subscribed")? {
-        if let Ok(dur) = duration.parse::<u32>() {
-            watcher = watcher.with_duration_subscribed(dur);
-        }
+    if let Some(Ok(duration)) = element.attr("duration-subscribed").map(str::parse::<u32>) {
+        watcher = watcher.with_duration_subscribed(duration);
     }
-
-    if let Some(content_start) = xml.find('>') {
-        // Search for the closing tag only *after* the opening tag's '>'. If the
-        // opening <watcher ...> tag is unclosed, the first '>' found is the one
-        // inside </watcher>, which would make content_end < content_start and
-        // panic on the slice.
-        if let Some(content_end) = xml[content_start + 1..]
-            .find("</watcher>")
-            .map(|rel| content_start + 1 + rel)
-        {
-            let uri = xml_unescape(xml[content_start + 1..content_end].trim())?;
-            if !uri.is_empty() {
-                watcher = watcher.with_uri(uri)?;
-            }
-        }
+    let uri = element.text.trim();
+    if !uri.is_empty() {
+        watcher = watcher.with_uri(uri)?;
     }
-
     Ok(watcher)
 }
 
-fn extract_attribute(
-    xml: &str,
-    tag_name: &str,
-    attr_name: &str,
-) -> Result<Option<String>, WatcherinfoError> {
-    let tag_start = match xml.find(tag_name) {
-        Some(start) => start,
-        None => return Ok(None),
-    };
-    let tag_content = &xml[tag_start..];
-    let tag_end = tag_content
-        .find('>')
-        .ok_or_else(|| WatcherinfoError::XmlParseError("unterminated tag".to_string()))?;
-    let tag_str = &tag_content[..tag_end];
-
-    let mut search_idx = 0;
-    while let Some(found) = tag_str[search_idx..].find(attr_name) {
-        let attr_start = search_idx + found;
-        let before_ok = attr_start == 0
-            || tag_str[..attr_start]
-                .chars()
-                .last()
-                .map(|c| c.is_whitespace() || c == '<')
-                .unwrap_or(true);
-        let after_idx = attr_start + attr_name.len();
-        let after_char = tag_str[after_idx..].chars().next();
-        if !before_ok || matches!(after_char, Some(c) if !c.is_whitespace() && c != '=') {
-            search_idx = attr_start + 1;
-            continue;
-        }
-
-        let mut idx = after_idx;
-        while idx < tag_str.len() {
-            let ch = tag_str[idx..].chars().next().ok_or_else(|| {
-                WatcherinfoError::XmlParseError(
-                    "invalid UTF-8 sequence in attribute parsing".to_string(),
-                )
-            })?;
-            if !ch.is_whitespace() {
-                break;
-            }
-            idx += ch.len_utf8();
-        }
-
-        if idx >= tag_str.len() || !tag_str[idx..].starts_with('=') {
-            search_idx = attr_start + 1;
-            continue;
-        }
-        idx += 1;
-
-        while idx < tag_str.len() {
-            let ch = tag_str[idx..].chars().next().ok_or_else(|| {
-                WatcherinfoError::XmlParseError(
-                    "invalid UTF-8 sequence in attribute parsing".to_string(),
-                )
-            })?;
-            if !ch.is_whitespace() {
-                break;
-            }
-            idx += ch.len_utf8();
-        }
-
-        if idx >= tag_str.len() {
-            return Err(WatcherinfoError::XmlParseError(
-                "unterminated attribute".to_string(),
-            ));
-        }
-
-        let quote = tag_str[idx..].chars().next().ok_or_else(|| {
-            WatcherinfoError::XmlParseError("invalid UTF-8 sequence in quote character".to_string())
-        })?;
-        if quote != '"' && quote != '\'' {
-            return Err(WatcherinfoError::XmlParseError(
-                "unterminated attribute".to_string(),
-            ));
-        }
-        idx += quote.len_utf8();
-
-        let rest = &tag_str[idx..];
-        let end_rel = rest
-            .find(quote)
-            .ok_or_else(|| WatcherinfoError::XmlParseError("unterminated attribute".to_string()))?;
-        let value = &rest[..end_rel];
-        return xml_unescape(value).map(Some);
-    }
-
-    Ok(None)
+/// Value of an attribute that has to be there.
+fn required<'a>(element: &'a xml::Element, name: &str) -> Result<&'a str, WatcherinfoError> {
+    element
+        .attr(name)
+        .ok_or_else(|| WatcherinfoError::XmlParseError(format!("missing {name}")))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0586800b2fc15a8b39a5efac6ceed07053dceba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 095/176] fix: message summaries are printed with CRLF and a
 blank line before each message's headers

---
 crates/sip-core/src/message_waiting.rs | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 4bf03f9..87b2bc8 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -206,15 +206,15 @@ impl MessageSummary {
 impl fmt::Display for MessageSummary {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // Mandatory status line
-        writeln!(
+        write!(
             f,
-            "Messages-Waiting: {}",
+            "Messages-Waiting: {}\r\n",
             if self.messages_waiting { "yes" } else { "no" }
         )?;
 
         // Conditional account line
         if let Some(ref account) = self.account {
-            writeln!(f, "Message-Account: {}", account)?;
+            write!(f, "Message-Account: {}\r\n", account)?;
         }
 
         // Message counts by class
@@ -231,31 +231,36 @@ impl fmt::Display for MessageSummary {
             if counts.urgent_new() > 0 || counts.urgent_old() > 0 {
                 write!(f, " ({}/{})", counts.urgent_new(), counts.urgent_old())?;
             }
-            writeln!(f)?;
+            f.write_str("\r\n")?;
         }
 
         // Optional message headers
         for msg_header in &self.message_headers {
+            if *msg_header == MessageHeader::default() {
+                continue;
+            }
+            // A blank line sets the headers of each message apart.
+            f.write_str("\r\n")?;
             if let Some(to) = msg_header.to() {
-                writeln!(f, "To: {}", to)?;
+                write!(f, "To: {}\r\n", to)?;
             }
             if let Some(from) = msg_header.from() {
-                writeln!(f, "From: {}", from)?;
+                write!(f, "From: {}\r\n", from)?;
             }
             if let Some(subject) = msg_header.subject() {
-                writeln!(f, "Subject: {}", subject)?;
+                write!(f, "Subject: {}\r\n", subject)?;
             }
             if let Some(date) = msg_header.date() {
-                writeln!(f, "Date: {}", date)?;
+                write!(f, "Date: {}\r\n", date)?;
             }
             if let Some(priority) = msg_header.priority() {
-                writeln!(f, "Priority: {}", priority)?;
+                write!(f, "Priority: {}\r\n", priority)?;
             }
             if let Some(message_id) = msg_header.message_id() {
-                writeln!(f, "Message-ID: {}", message_id)?;
+                write!(f, "Message-ID: {}\r\n", message_id)?;
             }
             if let Some(message_context) = msg_header.message_context() {
-                writeln!(f, "Message-Context: {}", message_context)?;
+                write!(f, "Message-Context: {}\r\n", message_context)?;
             }
         }
 
-- 
2.43.0


From 47c86d714791d41a35caa6d9d159d438d5a83259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 096/176] fix: message count totals saturate instead of
 overflowing

---
 crates/sip-core/src/message_waiting.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 87b2bc8..a463c7b 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -189,12 +189,16 @@ impl MessageSummary {
 
     /// Returns the total number of new messages across all classes.
     pub fn total_new(&self) -> u32 {
-        self.messages.values().map(|c| c.new_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |sum, c| sum.saturating_add(c.new_count()))
     }
 
     /// Returns the total number of old messages across all classes.
     pub fn total_old(&self) -> u32 {
-        self.messages.values().map(|c| c.old_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |sum, c| sum.saturating_add(c.old_count()))
     }
 
     /// Returns true if any messages are urgent.
@@ -379,12 +383,12 @@ impl MessageCounts {
 
     /// Returns the total number of messages (new + old).
     pub fn total(&self) -> u32 {
-        self.new + self.old
+        self.new.saturating_add(self.old)
     }
 
     /// Returns the total number of urgent messages.
     pub fn total_urgent(&self) -> u32 {
-        self.urgent_new + self.urgent_old
+        self.urgent_new.saturating_add(self.urgent_old)
     }
 
     /// Returns true if there are any new messages.
-- 
2.43.0


From 1d29b2a1dbf5eef6fb4813d39f10d4888e87162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 097/176] fix: message counts may have white space around their
 separators

---
 crates/sip-core/src/message_waiting.rs | 44 ++++++++------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index a463c7b..d7f35f0 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -689,41 +689,25 @@ pub fn parse_message_summary(body: &str) -> Result<MessageSummary, MessageWaitin
 
 /// Parses message counts from format: "new/old (urgent_new/urgent_old)"
 fn parse_message_counts(s: &str) -> Option<MessageCounts> {
-    // Split on space to separate main counts from urgent counts
-    let parts: Vec<&str> = s.split_whitespace().collect();
-    if parts.is_empty() {
-        return None;
-    }
-
-    // Parse main counts (new/old)
-    let main_parts: Vec<&str> = parts[0].split('/').collect();
-    if main_parts.len() != 2 {
-        return None;
-    }
-
-    let new = main_parts[0].parse::<u32>().ok()?;
-    let old = main_parts[1].parse::<u32>().ok()?;
-
+    // Urgent counts follow in parentheses; white space may surround any of
+    // the separators.
+    let (main, urgent) = match s.split_once('(') {
+        Some((main, urgent)) => (main, urgent.trim_end().strip_suffix(')')),
+        None => (s, None),
+    };
+    let (new, old) = parse_count_pair(main)?;
     let mut counts = MessageCounts::new(new, old);
-
-    // Parse urgent counts if present
-    if parts.len() > 1 {
-        let urgent_str = parts[1].trim_matches(|c| c == '(' || c == ')');
-        let urgent_parts: Vec<&str> = urgent_str.split('/').collect();
-        if urgent_parts.len() == 2 {
-            if let (Ok(urgent_new), Ok(urgent_old)) = (
-                urgent_parts[0].parse::<u32>(),
-                urgent_parts[1].parse::<u32>(),
-            ) {
-                counts.urgent_new = urgent_new;
-                counts.urgent_old = urgent_old;
-            }
-        }
+    if let Some((urgent_new, urgent_old)) = urgent.and_then(parse_count_pair) {
+        counts = counts.with_urgent(urgent_new, urgent_old);
     }
-
     Some(counts)
 }
 
+fn parse_count_pair(s: &str) -> Option<(u32, u32)> {
+    let (new, old) = s.split_once('/')?;
+    Some((new.trim().parse().ok()?, old.trim().parse().ok()?))
+}
+
 // Validation functions
 
 fn validate_account(account: &str) -> Result<(), MessageWaitingError> {
-- 
2.43.0


From 12f9ddfc9fca2cfd85ed5e78f930be734621f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 098/176] fix: CPIM sections are split one after the other, so
 bodies come out as sent

---
 crates/sip-core/src/cpim.rs | 71 +++++++++++++++----------------------
 1 file changed, 29 insertions(+), 42 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 7539bcf..88f5619 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -792,49 +792,31 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         });
     }
 
-    // Split into sections by blank lines (CRLF CRLF or LF LF)
-    let sections: Vec<&str> = if input.contains("\r\n\r\n") {
-        input.split("\r\n\r\n").collect()
-    } else {
-        input.split("\n\n").collect()
-    };
-
-    if sections.len() < 4 {
-        return Err(CpimError::ParseError(
-            "missing required cpim sections".to_string(),
-        ));
-    }
+    // Three header sections, each ended by a blank line, then the body
+    let mut rest = input;
+    let mime_section = take_section(&mut rest)?;
+    let headers_section = take_section(&mut rest)?;
+    let content_headers_section = take_section(&mut rest)?;
+    let body = rest.as_bytes().to_vec();
 
     // First section: MIME headers (should contain Content-type: Message/CPIM)
-    let mime_section = sections[0];
-    if !mime_section.to_lowercase().contains("message/cpim") {
+    if !mime_section
+        .iter()
+        .any(|line| line.to_lowercase().contains("message/cpim"))
+    {
         return Err(CpimError::ParseError(
             "missing message/cpim MIME header".to_string(),
         ));
     }
 
     // Second section: Message headers
-    let headers_section = sections[1];
-    let headers = parse_headers(headers_section)?;
+    let headers = parse_headers(&headers_section)?;
 
     // Third section: Content headers
-    let content_headers_section = sections[2];
-
-    // Parse content headers
     let mut content_type = SmolStr::new("text/plain");
     let mut content_headers = BTreeMap::new();
 
-    let line_sep = if content_headers_section.contains("\r\n") {
-        "\r\n"
-    } else {
-        "\n"
-    };
-
-    for line in content_headers_section.split(line_sep) {
-        if line.is_empty() {
-            continue;
-        }
-
+    for line in content_headers_section {
         if let Some((name, value)) = line.split_once(':') {
             let name = name.trim();
             let value = value.trim();
@@ -858,10 +840,6 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         }
     }
 
-    // Fourth section onwards: Body (join remaining sections in case body contains blank lines)
-    let body_str = sections[3..].join("\r\n\r\n");
-    let body = body_str.as_bytes().to_vec();
-
     if body.len() > MAX_BODY_SIZE {
         return Err(CpimError::BodyTooLarge {
             max: MAX_BODY_SIZE,
@@ -878,16 +856,25 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
 }
 
 /// Parses CPIM headers from a string.
-fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, CpimError> {
-    let mut headers = BTreeMap::new();
-
-    let line_sep = if input.contains("\r\n") { "\r\n" } else { "\n" };
-
-    for line in input.split(line_sep) {
-        if line.is_empty() {
-            continue;
+/// Takes the lines up to the next blank line off the input.
+fn take_section<'a>(input: &mut &'a str) -> Result<Vec<&'a str>, CpimError> {
+    let mut lines = Vec::new();
+    loop {
+        let (line, rest) = input
+            .split_once('\n')
+            .ok_or_else(|| CpimError::ParseError("missing required cpim sections".to_string()))?;
+        *input = rest;
+        match line.strip_suffix('\r').unwrap_or(line) {
+            "" => return Ok(lines),
+            line => lines.push(line),
         }
+    }
+}
+
+fn parse_headers(lines: &[&str]) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, CpimError> {
+    let mut headers = BTreeMap::new();
 
+    for line in lines {
         // Split into name and value
         let (name_with_params, value) = line
             .split_once(':')
-- 
2.43.0


From 0e9c08497323a71d58c094b9dffa233807cc088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 099/176] fix: CPIM header parameters are read where RFC 3862
 and the library's own output put them

---
 crates/sip-core/src/cpim.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 88f5619..c54ab14 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -880,16 +880,21 @@ fn parse_headers(lines: &[&str]) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, C
             .split_once(':')
             .ok_or_else(|| CpimError::ParseError("missing ':'".to_string()))?;
 
-        // Parse header name and parameters
+        // Parameters follow the colon (`Name:;param=value text`); they are
+        // also accepted in front of it.
         let mut parts = name_with_params.split(';');
         let name = parts
             .next()
             .ok_or_else(|| CpimError::ParseError("missing header name".to_string()))?
             .trim();
+        let (params_after, value) = match value.strip_prefix(';') {
+            Some(_) => value.split_once(' ').unwrap_or((value, "")),
+            None => ("", value),
+        };
         validate_header_name(name)?;
 
         let mut params = BTreeMap::new();
-        for param in parts {
+        for param in parts.chain(params_after.split(';')) {
             if let Some((param_name, param_value)) = param.split_once('=') {
                 validate_param_name(param_name.trim())?;
                 validate_param_value(param_value.trim())?;
-- 
2.43.0


From bc09fb4570698eb2980b2166ffb8bb22e58b9028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 100/176] fix: a CPIM message whose body is not UTF-8 is not
 printed with the body altered

---
 crates/sip-core/src/cpim.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index c54ab14..3e67beb 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -538,8 +538,9 @@ impl CpimMessage {
         result.push_str("\r\n");
 
         // Body
-        let body_str = String::from_utf8_lossy(&self.body);
-        result.push_str(&body_str);
+        let body_str = std::str::from_utf8(&self.body)
+            .map_err(|_| CpimError::ParseError("body is not UTF-8".to_string()))?;
+        result.push_str(body_str);
 
         Ok(result)
     }
-- 
2.43.0


From 10b98ce9eb01c264da91f5ba02f246fa5f37819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 101/176] fix: CPIM header and parameter names and values that
 cannot be read back are refused

---
 crates/sip-core/src/cpim.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 3e67beb..ab6c06a 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -389,6 +389,11 @@ impl CpimMessage {
     /// Adds a content header (e.g., Content-ID, Content-Disposition).
     pub fn add_content_header(&mut self, name: &str, value: &str) -> Result<(), CpimError> {
         validate_header_name(name)?;
+        if name.eq_ignore_ascii_case("Content-Type") {
+            return Err(CpimError::InvalidHeaderName(
+                "content type is set with the message".to_string(),
+            ));
+        }
         validate_content_header_value(value)?;
         if self.content_headers.len() >= MAX_CONTENT_HEADERS {
             return Err(CpimError::TooManyContentHeaders {
@@ -619,7 +624,7 @@ fn validate_header_name(name: &str) -> Result<(), CpimError> {
     }
     if name
         .chars()
-        .any(|c| matches!(c, ':' | ';' | '=' | '\\' | '"'))
+        .any(|c| c.is_whitespace() || matches!(c, ':' | ';' | '=' | '\\' | '"'))
     {
         return Err(CpimError::InvalidHeaderName(
             "contains invalid characters".to_string(),
@@ -650,7 +655,7 @@ fn validate_param_name(name: &str) -> Result<(), CpimError> {
     }
     if name
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '=' | '\\' | '"'))
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ':' | ';' | '=' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamName(
             "contains invalid characters".to_string(),
@@ -668,7 +673,7 @@ fn validate_param_value(value: &str) -> Result<(), CpimError> {
     }
     if value
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '\\' | '"'))
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamValue(
             "contains invalid characters".to_string(),
@@ -678,7 +683,7 @@ fn validate_param_value(value: &str) -> Result<(), CpimError> {
 }
 
 fn validate_content_type(value: &str) -> Result<(), CpimError> {
-    if value.is_empty() {
+    if value.trim().is_empty() {
         return Err(CpimError::InvalidContentType(
             "empty content type".to_string(),
         ));
-- 
2.43.0


From a2022c231092d25e32eab206bfd38d6799fa9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 102/176] fix: a sipfrag body that is not UTF-8 is refused
 instead of panicking when printed

---
 crates/sip-core/src/sipfrag.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/sipfrag.rs b/crates/sip-core/src/sipfrag.rs
index ed89952..443b4f4 100644
--- a/crates/sip-core/src/sipfrag.rs
+++ b/crates/sip-core/src/sipfrag.rs
@@ -151,8 +151,7 @@ impl SipFrag {
                 max: MAX_SIPFRAG_BODY_SIZE,
             });
         }
-        validate_body_headers(&headers, body.len())?;
-
+        validate_body(&headers, &body)?;
         Ok(Self {
             start_line: Some(StartLine::Response(status)),
             headers,
@@ -256,7 +255,7 @@ impl SipFrag {
             });
         }
 
-        validate_body_headers(&self.headers, body_bytes.len())?;
+        validate_body(&self.headers, &body_bytes)?;
         self.body = body_bytes;
         Ok(self)
     }
@@ -282,7 +281,7 @@ impl SipFrag {
             });
         }
 
-        validate_body_headers(&self.headers, body_bytes.len())?;
+        validate_body(&self.headers, &body_bytes)?;
         self.body = body_bytes;
         Ok(())
     }
@@ -367,6 +366,16 @@ impl fmt::Display for SipFrag {
     }
 }
 
+fn validate_body(headers: &Headers, body: &[u8]) -> Result<(), SipFragError> {
+    // A fragment is printed as text
+    if std::str::from_utf8(body).is_err() {
+        return Err(SipFragError::ValidationError(
+            "body is not UTF-8".to_string(),
+        ));
+    }
+    validate_body_headers(headers, body.len())
+}
+
 fn validate_body_headers(headers: &Headers, body_len: usize) -> Result<(), SipFragError> {
     if body_len == 0 {
         return Ok(());
-- 
2.43.0


From da6d7744d00bb40d49af8b2acd3efdff93c1cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 103/176] fix: SipUri::with_param refuses an @, which would
 move the host

---
 crates/sip-core/src/uri.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index bb7e0ae..8d4210b 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -583,6 +583,12 @@ impl SipUri {
             Some(v) => {
                 let v = v.into();
                 validate_param_value(&v)?;
+                // An '@' would make what stands in front of it the user part
+                if v.contains('@') {
+                    return Err(UriError::InvalidParameter(
+                        "parameter value contains delimiter characters".to_string(),
+                    ));
+                }
                 Some(v)
             }
             None => None,
-- 
2.43.0


From c93a0bf2a56d863696c1f04b39d59dcb7d47fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 104/176] fix: rtpmap encoding parameters are validated, and
 both components are single words

---
 crates/sip-sdp/src/lib.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 641c037..bc21a90 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -88,6 +88,8 @@ pub enum SdpError {
     InvalidPayloadType { payload_type: u8, max: u8 },
     /// Empty required field
     EmptyField { field: &'static str },
+    /// Character that would end the field
+    InvalidCharacter { field: &'static str },
 }
 
 impl std::fmt::Display for SdpError {
@@ -119,6 +121,9 @@ impl std::fmt::Display for SdpError {
             SdpError::EmptyField { field } => {
                 write!(f, "{} cannot be empty", field)
             }
+            SdpError::InvalidCharacter { field } => {
+                write!(f, "{} contains a delimiter", field)
+            }
         }
     }
 }
@@ -144,6 +149,24 @@ fn validate_field(value: &str, field: &'static str, max_length: usize) -> Result
 }
 
 /// Validates a clock rate
+/// Like `validate_field`, for a field that is one word of its line.
+fn validate_word(value: &str, field: &'static str, max_length: usize) -> Result<(), SdpError> {
+    validate_field(value, field, max_length)?;
+    if value.chars().any(char::is_whitespace) {
+        return Err(SdpError::InvalidCharacter { field });
+    }
+    Ok(())
+}
+
+/// Validates a component of an rtpmap value; components are separated by slashes.
+fn validate_rtpmap_word(value: &str, field: &'static str) -> Result<(), SdpError> {
+    validate_word(value, field, MAX_ENCODING_NAME_LENGTH)?;
+    if value.contains('/') {
+        return Err(SdpError::InvalidCharacter { field });
+    }
+    Ok(())
+}
+
 fn validate_clock_rate(rate: u32) -> Result<(), SdpError> {
     if !(MIN_CLOCK_RATE..=MAX_CLOCK_RATE).contains(&rate) {
         return Err(SdpError::InvalidClockRate {
@@ -593,8 +616,11 @@ impl MediaDescription {
         encoding_params: Option<&str>,
     ) -> Result<Self, SdpError> {
         validate_payload_type(payload_type)?;
-        validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        validate_rtpmap_word(encoding_name, "encoding_name")?;
         validate_clock_rate(clock_rate)?;
+        if let Some(params) = encoding_params {
+            validate_rtpmap_word(params, "encoding_params")?;
+        }
 
         // Replace-semantics: drop any previous rtpmap for this PT
         // before counting against the limits. This way we don't reject
@@ -742,8 +768,11 @@ impl MediaDescription {
         encoding_params: Option<&str>,
     ) -> Result<(), SdpError> {
         validate_payload_type(payload_type)?;
-        validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        validate_rtpmap_word(encoding_name, "encoding_name")?;
         validate_clock_rate(clock_rate)?;
+        if let Some(params) = encoding_params {
+            validate_rtpmap_word(params, "encoding_params")?;
+        }
 
         // Drop any prior entries first so duplicate-pt mutations are
         // idempotent and don't trip the per-section attribute cap.
-- 
2.43.0


From 249334644c5fb58858fb2a0cee49182ab4f61ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 105/176] fix: words of SDP lines may not contain white space

---
 crates/sip-sdp/src/builder.rs |  4 ++--
 crates/sip-sdp/src/lib.rs     | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sip-sdp/src/builder.rs b/crates/sip-sdp/src/builder.rs
index a9007ff..19f4cc5 100644
--- a/crates/sip-sdp/src/builder.rs
+++ b/crates/sip-sdp/src/builder.rs
@@ -90,12 +90,12 @@ impl SessionDescriptionBuilder {
         adjustment_time: &str,
         offset: &str,
     ) -> Result<Self, SdpError> {
-        validate_field(
+        validate_word(
             adjustment_time,
             "adjustment_time",
             MAX_ATTRIBUTE_NAME_LENGTH,
         )?;
-        validate_field(offset, "offset", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_word(offset, "offset", MAX_ATTRIBUTE_NAME_LENGTH)?;
 
         if self.sdp.time_zones.len() >= MAX_TIME_ZONES {
             return Err(SdpError::TooManyItems {
diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index bc21a90..5386ea5 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -587,7 +587,7 @@ impl MediaDescription {
 
     /// Adds a format token (non-RTP or custom) with validation
     pub fn add_format_token(mut self, token: &str) -> Result<Self, SdpError> {
-        validate_field(token, "format_token", MAX_ENCODING_NAME_LENGTH)?;
+        validate_word(token, "format_token", MAX_ENCODING_NAME_LENGTH)?;
 
         if self.formats.len() >= MAX_FORMATS_PER_MEDIA {
             return Err(SdpError::TooManyItems {
@@ -848,9 +848,9 @@ fn remove_rtpmap_attr(attrs: &mut Vec<Attribute>, payload_type: u8) -> usize {
 impl Origin {
     /// Creates a new origin line with validation
     pub fn new(username: &str, session_id: &str, addr: &str) -> Result<Self, SdpError> {
-        validate_field(username, "username", MAX_USERNAME_LENGTH)?;
-        validate_field(session_id, "session_id", MAX_SESSION_ID_LENGTH)?;
-        validate_field(addr, "address", MAX_ADDRESS_LENGTH)?;
+        validate_word(username, "username", MAX_USERNAME_LENGTH)?;
+        validate_word(session_id, "session_id", MAX_SESSION_ID_LENGTH)?;
+        validate_word(addr, "address", MAX_ADDRESS_LENGTH)?;
 
         Ok(Self {
             username: SmolStr::new(username),
@@ -870,7 +870,7 @@ impl Origin {
 impl Connection {
     /// Creates a new connection line with validation
     pub fn new(addr: &str) -> Result<Self, SdpError> {
-        validate_field(addr, "address", MAX_ADDRESS_LENGTH)?;
+        validate_word(addr, "address", MAX_ADDRESS_LENGTH)?;
 
         Ok(Self {
             net_type: NetType::Internet,
-- 
2.43.0


From b9d781514048f858dc20266f065ffb327624d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 106/176] fix: SDP attribute names may not contain a colon or
 white space

---
 crates/sip-sdp/src/builder.rs |  2 +-
 crates/sip-sdp/src/lib.rs     | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/sip-sdp/src/builder.rs b/crates/sip-sdp/src/builder.rs
index 19f4cc5..e536168 100644
--- a/crates/sip-sdp/src/builder.rs
+++ b/crates/sip-sdp/src/builder.rs
@@ -51,7 +51,7 @@ impl SessionDescriptionBuilder {
 
     /// Adds a session-level attribute with validation
     pub fn attribute(mut self, name: &str, value: Option<&str>) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_attribute_name(name)?;
         if let Some(val) = value {
             validate_field(val, "attribute_value", MAX_ATTRIBUTE_VALUE_LENGTH)?;
         }
diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 5386ea5..6c2381d 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -158,6 +158,17 @@ fn validate_word(value: &str, field: &'static str, max_length: usize) -> Result<
     Ok(())
 }
 
+/// Validates the name of an attribute, which a colon ends.
+fn validate_attribute_name(name: &str) -> Result<(), SdpError> {
+    validate_word(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+    if name.contains(':') {
+        return Err(SdpError::InvalidCharacter {
+            field: "attribute_name",
+        });
+    }
+    Ok(())
+}
+
 /// Validates a component of an rtpmap value; components are separated by slashes.
 fn validate_rtpmap_word(value: &str, field: &'static str) -> Result<(), SdpError> {
     validate_word(value, field, MAX_ENCODING_NAME_LENGTH)?;
@@ -675,7 +686,7 @@ impl MediaDescription {
 
     /// Adds a property attribute with validation
     pub fn add_property(mut self, name: &str) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_attribute_name(name)?;
 
         if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
             return Err(SdpError::TooManyItems {
@@ -692,7 +703,7 @@ impl MediaDescription {
 
     /// Adds a value attribute with validation
     pub fn add_attribute(mut self, name: &str, value: &str) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_attribute_name(name)?;
         validate_field(value, "attribute_value", MAX_ATTRIBUTE_VALUE_LENGTH)?;
 
         if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
-- 
2.43.0


From 628bb1afbfed6e48ff0aed606772da2805d61ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 107/176] fix: set_fmtp and set_mid drop control characters,
 which would start new lines

---
 crates/sip-sdp/src/attrs.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/sip-sdp/src/attrs.rs b/crates/sip-sdp/src/attrs.rs
index 09213b1..c714dbb 100644
--- a/crates/sip-sdp/src/attrs.rs
+++ b/crates/sip-sdp/src/attrs.rs
@@ -398,6 +398,11 @@ fn parse_ssrc_value(value: &str) -> Option<Ssrc> {
 // MediaDescription typed accessors
 // ===========================================================================
 
+/// `value` without the characters that would end its line.
+fn without_controls(value: &str) -> String {
+    value.chars().filter(|c| !c.is_control()).collect()
+}
+
 impl MediaDescription {
     /// Returns the explicitly-declared media direction, if any.
     /// Per RFC 4566 §6 the implicit default is `sendrecv` — callers
@@ -464,7 +469,11 @@ impl MediaDescription {
         });
         self.attributes.push(Attribute::Value {
             name: SmolStr::new("fmtp"),
-            value: SmolStr::new(format!("{} {}", payload_type, params.trim())),
+            value: SmolStr::new(format!(
+                "{} {}",
+                payload_type,
+                without_controls(params).trim()
+            )),
         });
     }
 
@@ -554,7 +563,7 @@ impl MediaDescription {
 
     /// Set or replace `a=mid`.
     pub fn set_mid(&mut self, mid: &str) {
-        set_value_attr_unique(&mut self.attributes, "mid", mid);
+        set_value_attr_unique(&mut self.attributes, "mid", &without_controls(mid));
     }
 
     /// Iterate every parsed `a=ssrc:` line.
-- 
2.43.0


From bcf9265e647ba4d4845809d05ae03143299d0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 108/176] fix: words an SDP answer is built from may not be
 empty or contain white space

---
 crates/sip-core/src/sdp_offer_answer.rs | 27 ++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 1cc1290..43065eb 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -356,6 +356,12 @@ fn validate_codec_name(name: &str) -> Result<(), NegotiationError> {
         ));
     }
 
+    if name.chars().any(|c| c.is_whitespace() || c == '/') {
+        return Err(NegotiationError::ValidationError(
+            "Codec name contains a delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -390,7 +396,10 @@ fn validate_address(address: &str) -> Result<(), NegotiationError> {
         )));
     }
 
-    if address.chars().any(|c| c.is_ascii_control()) {
+    if address
+        .chars()
+        .any(|c| c.is_ascii_control() || c.is_whitespace())
+    {
         return Err(NegotiationError::ValidationError(
             "Address contains control characters".to_string(),
         ));
@@ -400,6 +409,12 @@ fn validate_address(address: &str) -> Result<(), NegotiationError> {
 }
 
 fn validate_username(username: &str) -> Result<(), NegotiationError> {
+    if username.is_empty() {
+        return Err(NegotiationError::ValidationError(
+            "Username cannot be empty".to_string(),
+        ));
+    }
+
     if username.len() > MAX_USERNAME_LENGTH {
         return Err(NegotiationError::ValidationError(format!(
             "Username too long (max {})",
@@ -407,7 +422,10 @@ fn validate_username(username: &str) -> Result<(), NegotiationError> {
         )));
     }
 
-    if username.chars().any(|c| c.is_ascii_control()) {
+    if username
+        .chars()
+        .any(|c| c.is_ascii_control() || c.is_whitespace())
+    {
         return Err(NegotiationError::ValidationError(
             "Username contains control characters".to_string(),
         ));
@@ -453,7 +471,10 @@ fn validate_session_id(session_id: &str) -> Result<(), NegotiationError> {
         )));
     }
 
-    if session_id.chars().any(|c| c.is_ascii_control()) {
+    if session_id
+        .chars()
+        .any(|c| c.is_ascii_control() || c.is_whitespace())
+    {
         return Err(NegotiationError::ValidationError(
             "Session ID contains control characters".to_string(),
         ));
-- 
2.43.0


From 5313afbabd06a66d2f67622057586e62168ae1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 109/176] fix: setting a tel URI parameter replaces one whose
 name differs in case only

---
 crates/sip-core/src/tel_uri.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index b6dc6fd..bebc530 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -265,9 +265,10 @@ fn validate_parameter_value(value: &str) -> Result<(), TelUriError> {
 
     // Check for control characters and whitespace
     // and characters that would end the parameter or the URI
-    if value.chars().any(|c| {
-        c.is_control() || c.is_whitespace() || matches!(c, ';' | '<' | '>' | '"' | '?')
-    }) {
+    if value
+        .chars()
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '<' | '>' | '"' | '?'))
+    {
         return Err(TelUriError::InvalidParameter(
             "parameter value contains control characters".to_string(),
         ));
@@ -490,7 +491,10 @@ impl TelUri {
     ) -> Result<Self, TelUriError> {
         let key = key.into();
         let key_str = key.as_str();
-        let exists = self.parameters.contains_key(&key);
+        let exists = self
+            .parameters
+            .keys()
+            .any(|k| k.eq_ignore_ascii_case(key_str));
         if !exists && self.parameters.len() >= MAX_PARAMETERS {
             return Err(TelUriError::TooManyParameters {
                 max: MAX_PARAMETERS,
@@ -519,9 +523,9 @@ impl TelUri {
             }
             validate_phone_context(&value)?;
             self.phone_context = Some(value.clone());
-            self.parameters.insert(key, Some(value));
+            set_parameter(&mut self.parameters, key, Some(value));
         } else {
-            self.parameters.insert(key, value);
+            set_parameter(&mut self.parameters, key, value);
         }
 
         self.raw = build_raw_uri(&self.number, &self.parameters);
@@ -540,8 +544,11 @@ impl TelUri {
         validate_phone_context(&context)?;
 
         self.phone_context = Some(context.clone());
-        self.parameters
-            .insert(SmolStr::new("phone-context"), Some(context));
+        set_parameter(
+            &mut self.parameters,
+            SmolStr::new("phone-context"),
+            Some(context),
+        );
         self.raw = build_raw_uri(&self.number, &self.parameters);
         Ok(self)
     }
@@ -563,6 +570,16 @@ fn normalize_global_number(number: &str) -> SmolStr {
     SmolStr::new(normalized)
 }
 
+/// Sets a parameter in place of any whose name differs in case only.
+fn set_parameter(
+    parameters: &mut BTreeMap<SmolStr, Option<SmolStr>>,
+    key: SmolStr,
+    value: Option<SmolStr>,
+) {
+    parameters.retain(|k, _| !k.eq_ignore_ascii_case(&key));
+    parameters.insert(key, value);
+}
+
 fn build_raw_uri(number: &SmolStr, parameters: &BTreeMap<SmolStr, Option<SmolStr>>) -> SmolStr {
     let mut out = format!("tel:{}", number);
     for (key, value) in parameters {
-- 
2.43.0


From 4311db0794dea03a8bc6ba68acafe006cb6e9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 110/176] fix: backslashes in capability strings are escaped

---
 crates/sip-core/src/capabilities.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/capabilities.rs b/crates/sip-core/src/capabilities.rs
index 89bdcad..4cb3415 100644
--- a/crates/sip-core/src/capabilities.rs
+++ b/crates/sip-core/src/capabilities.rs
@@ -431,7 +431,10 @@ impl FeatureValue {
                 }
                 Ok(Some(SmolStr::new(format!("\"{}\"", list.join(",")))))
             }
-            FeatureValue::String(s) => Ok(Some(SmolStr::new(format!("\"{}\"", s)))),
+            FeatureValue::String(s) => Ok(Some(SmolStr::new(format!(
+                "\"{}\"",
+                s.replace('\\', "\\\\")
+            )))),
             FeatureValue::Numeric(n) => Ok(Some(SmolStr::new(n.to_string()))),
         }
     }
@@ -462,8 +465,10 @@ impl FeatureValue {
                     if v.len() < 2 {
                         return Err(CapabilityError::InvalidQuoting);
                     }
-                    let unquoted = &v[1..v.len() - 1];
-                    return FeatureValue::new_string(SmolStr::new(unquoted));
+                    if !crate::quoting::is_quoted_string(v) {
+                        return Err(CapabilityError::InvalidQuoting);
+                    }
+                    return FeatureValue::new_string(crate::quoting::unquote(v));
                 }
 
                 // Numeric values
-- 
2.43.0


From a866213b1e36dba188db4e397357e60999861f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 111/176] fix: adding a cid parameter to Referred-By sets the
 cid instead of repeating it

---
 crates/sip-core/src/referred_by.rs | 36 ++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/sip-core/src/referred_by.rs b/crates/sip-core/src/referred_by.rs
index 4dc0ba5..246b1e7 100644
--- a/crates/sip-core/src/referred_by.rs
+++ b/crates/sip-core/src/referred_by.rs
@@ -282,6 +282,15 @@ impl ReferredByHeader {
 
         let name_key = SmolStr::new(name.to_ascii_lowercase());
 
+        if name_key == "cid" {
+            if self.cid.is_some() {
+                return Err(ReferredByError::DuplicateParam(name_key.to_string()));
+            }
+            validate_cid(value)?;
+            self.cid = Some(SmolStr::new(value));
+            return Ok(());
+        }
+
         if self.params.contains_key(&name_key) {
             return Err(ReferredByError::DuplicateParam(name.to_string()));
         }
@@ -370,23 +379,22 @@ impl ReferredByHeader {
             };
 
         // Parse the name-addr
-        let (display_name, uri_str) = if let Some((angle_start, angle_end)) =
-            find_unquoted_angle_brackets(name_addr_str)?
-        {
-            let uri_str = &name_addr_str[angle_start + 1..angle_end];
-
-            let display_part = name_addr_str[..angle_start].trim();
-            let display_name = if display_part.is_empty() {
-                None
+        let (display_name, uri_str) =
+            if let Some((angle_start, angle_end)) = find_unquoted_angle_brackets(name_addr_str)? {
+                let uri_str = &name_addr_str[angle_start + 1..angle_end];
+
+                let display_part = name_addr_str[..angle_start].trim();
+                let display_name = if display_part.is_empty() {
+                    None
+                } else {
+                    Some(SmolStr::new(crate::quoting::unquote(display_part)))
+                };
+
+                (display_name, uri_str)
             } else {
-                Some(SmolStr::new(crate::quoting::unquote(display_part)))
+                (None, name_addr_str)
             };
 
-            (display_name, uri_str)
-        } else {
-            (None, name_addr_str)
-        };
-
         let uri = Uri::parse(uri_str)
             .map_err(|_| ReferredByError::InvalidUri("failed to parse URI".to_string()))?;
 
-- 
2.43.0


From 911c3449f50f43a5a431a9052f7c5a5a591bdfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 112/176] fix: quoted capability strings are read from parsed
 Contact headers, and tokens like inf are no numbers

---
 crates/sip-core/src/capabilities.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/capabilities.rs b/crates/sip-core/src/capabilities.rs
index 4cb3415..d528676 100644
--- a/crates/sip-core/src/capabilities.rs
+++ b/crates/sip-core/src/capabilities.rs
@@ -471,8 +471,14 @@ impl FeatureValue {
                     return FeatureValue::new_string(crate::quoting::unquote(v));
                 }
 
+                // A parsed header holds the value without its quotes: what is
+                // not a token stood in quotes, as does every description
+                if tag == FeatureTag::Description || !is_valid_token(v) {
+                    return FeatureValue::new_string(v);
+                }
+
                 // Numeric values
-                if let Ok(num) = v.parse::<f64>() {
+                if let Some(num) = v.parse::<f64>().ok().filter(|num| num.is_finite()) {
                     return FeatureValue::new_numeric(num);
                 }
 
-- 
2.43.0


From 2d8d12857286b56f07d79e483a78d5bd377a22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 113/176] fix: privacy anonymizes every contact of a list and
 leaves Contact: * alone

---
 crates/sip-core/src/privacy.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/privacy.rs b/crates/sip-core/src/privacy.rs
index ba0eeb6..d4eceeb 100644
--- a/crates/sip-core/src/privacy.rs
+++ b/crates/sip-core/src/privacy.rs
@@ -404,8 +404,13 @@ fn anonymize_identity_headers(headers: &mut crate::Headers) -> Result<(), Privac
     }
 
     // Anonymize Contact header
-    if let Some(contact) = headers.get("Contact") {
-        let anonymized = anonymize_identity_header(contact)?;
+    // ("*" names nobody; of several contacts one anonymous contact remains)
+    let contact = headers
+        .get_all("Contact")
+        .find(|value| value.trim() != "*")
+        .map(|value| anonymize_identity_header(crate::quoting::split_unquoted(value, ',')[0]))
+        .transpose()?;
+    if let Some(anonymized) = contact {
         headers.remove("Contact");
         headers
             .push(SmolStr::new("Contact"), SmolStr::new(anonymized))
@@ -438,7 +443,9 @@ fn anonymize_identity_header(header_value: &str) -> Result<String, PrivacyError>
     }
 
     // Replace the URI with anonymous.invalid, preserving only header parameters.
+    // A comma ends them: what follows is another address.
     let (_, params) = split_header_params(header_value);
+    let params = crate::quoting::split_unquoted(params, ',')[0].trim_end();
 
     Ok(if params.is_empty() {
         "\"Anonymous\" <sip:anonymous@anonymous.invalid>".to_string()
-- 
2.43.0


From 40333284935ed1cc2947bbb7ca51114671e6767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 114/176] fix: the branch of a Via header holding several
 values is that of the first

---
 crates/sip-transaction/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transaction/src/lib.rs b/crates/sip-transaction/src/lib.rs
index fcaf4c9..fde286f 100644
--- a/crates/sip-transaction/src/lib.rs
+++ b/crates/sip-transaction/src/lib.rs
@@ -93,8 +93,11 @@ pub fn top_via(req: &Request) -> Option<&SmolStr> {
 }
 
 /// Extracts the `branch=` parameter from a Via header string.
+///
+/// Of several Via values in one header, the first counts.
 pub fn branch_from_via(via: &str) -> Option<&str> {
-    via.split(';').skip(1).find_map(|part| {
+    let top = sip_core::quoting::split_unquoted(via, ',')[0];
+    top.split(';').skip(1).find_map(|part| {
         let mut split = part.splitn(2, '=');
         let name = split.next()?.trim();
         let value = split.next()?.trim();
-- 
2.43.0


From 02208f53436f2222d43ff1c924ba359802a12893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 115/176] fix: Timer B no longer ends an INVITE that has been
 answered provisionally

---
 crates/sip-transaction/src/fsm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index cfcc81c..6dc135f 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -504,9 +504,8 @@ impl ClientInviteFsm {
                 }
             }
             (Calling, ClientInviteEvent::TimerFired(TransactionTimer::A)) => self.handle_timer_a(),
-            (Calling | Proceeding, ClientInviteEvent::TimerFired(TransactionTimer::B)) => {
-                self.handle_timer_b()
-            }
+            // RFC 3261 §17.1.1.2: Timer B counts until the first response
+            (Calling, ClientInviteEvent::TimerFired(TransactionTimer::B)) => self.handle_timer_b(),
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
@@ -548,6 +547,7 @@ impl ClientInviteFsm {
         self.state = crate::ClientInviteState::Proceeding;
         let mut actions = vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
+            ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
         ];
         if response_requires_prack(&response) {
-- 
2.43.0


From 9b3c5a1d2a029c138d964ad54e1d5bf16a3751e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 116/176] fix: a retransmitted final response to INVITE is not
 delivered again

---
 crates/sip-transaction/src/fsm.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 6dc135f..954e8b9 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -587,8 +587,16 @@ impl ClientInviteFsm {
         current_state: crate::ClientInviteState,
         response: Response,
     ) -> Vec<ClientInviteAction> {
+        // RFC 3261 §17.1.1.2: a retransmitted final response is acknowledged
+        // again but not passed up again.
+        if matches!(current_state, crate::ClientInviteState::Completed) {
+            return vec![ClientInviteAction::GenerateAck {
+                response,
+                is_2xx: false,
+            }];
+        }
         self.state = crate::ClientInviteState::Completed;
-        let mut actions = vec![
+        vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
             ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
@@ -596,14 +604,11 @@ impl ClientInviteFsm {
                 response,
                 is_2xx: false,
             },
-        ];
-        if !matches!(current_state, crate::ClientInviteState::Completed) {
-            actions.push(ClientInviteAction::Schedule {
+            ClientInviteAction::Schedule {
                 timer: TransactionTimer::D,
                 duration: self.timers.duration(TransactionTimer::D), // 0 for TCP/TLS, 32s for UDP
-            });
-        }
-        actions
+            },
+        ]
     }
 
     fn handle_timer_a(&mut self) -> Vec<ClientInviteAction> {
-- 
2.43.0


From 58703afd2a448171b800b1c1c3dba4980fbd11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 117/176] fix: Timer E runs at T2 once a non-INVITE request has
 a provisional response

---
 crates/sip-transaction/src/fsm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 954e8b9..e55973a 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -771,7 +771,12 @@ impl ClientNonInviteFsm {
         }
 
         let t2 = self.timers.duration(TransactionTimer::T2);
-        self.e_interval = (self.e_interval * 2).min(t2);
+        // RFC 3261 §17.1.2.2: T2 once a provisional response has arrived
+        self.e_interval = if self.state == ClientNonInviteState::Proceeding {
+            t2
+        } else {
+            (self.e_interval * 2).min(t2)
+        };
         if let Some(payload) = &self.last_request {
             vec![
                 ClientAction::Transmit {
-- 
2.43.0


From 14ad4770a2afbc3d6becb3a831def59394e062ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 118/176] fix: an INVITE server transaction discards further
 final responses

---
 crates/sip-transaction/src/fsm.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index e55973a..2905a90 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -1026,9 +1026,8 @@ impl ServerInviteFsm {
             (Proceeding, ServerInviteEvent::ReceiveInvite(_)) => self.handle_receive_invite(),
             (Proceeding | Completed, ServerInviteEvent::ReceiveCancel) => self.handle_cancel(),
             (Proceeding, ServerInviteEvent::SendProvisional(resp)) => self.send_provisional(resp),
-            (Proceeding, ServerInviteEvent::SendFinal(resp))
-            | (Confirmed, ServerInviteEvent::SendFinal(resp))
-            | (Completed, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
+            // RFC 3261 §17.2.1: the first final response counts
+            (Proceeding, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
             (Completed, ServerInviteEvent::ReceiveAck) => self.handle_ack(),
             (Completed, ServerInviteEvent::TimerFired(TransactionTimer::G)) => {
                 self.handle_timer_g()
-- 
2.43.0


From 1295855d4215a449cb1c13dca0d84671b631a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 119/176] fix: a transport error does not fail a client
 transaction that is already over

---
 crates/sip-transaction/src/fsm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 2905a90..54daa43 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -509,6 +509,8 @@ impl ClientInviteFsm {
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
+            // a transaction that is over has nothing left to fail
+            (Terminated, ClientInviteEvent::TransportError) => Vec::new(),
             (_, ClientInviteEvent::TransportError) => self.handle_transport_error(),
             (_, ClientInviteEvent::TimerFired(_)) => Vec::new(),
             _ => Vec::new(),
@@ -708,6 +710,8 @@ impl ClientNonInviteFsm {
                 ClientNonInviteState::Completed,
                 ClientNonInviteEvent::TimerFired(TransactionTimer::K),
             ) => self.handle_timer_k(),
+            // a transaction that is over has nothing left to fail
+            (ClientNonInviteState::Terminated, ClientNonInviteEvent::TransportError) => Vec::new(),
             (_, ClientNonInviteEvent::TransportError) => self.handle_transport_error(),
             (_, _) => Vec::new(),
         }
-- 
2.43.0


From b512d9e70e7363f7f27fecd5b345ee37cbe0283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 120/176] fix: an ACK that matches no INVITE creates no server
 transaction

---
 crates/sip-transaction/src/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 7c04dd5..eac153d 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -790,6 +790,12 @@ impl TransactionManager {
                     };
                 }
             }
+            // RFC 3261 §17: an ACK never creates a server transaction. No response
+            // would ever end one.
+            return ServerTransactionHandle {
+                manager: self.clone(),
+                key,
+            };
         }
 
         if let Some(mut entry) = self.inner.server.get_mut(&key) {
-- 
2.43.0


From 89703d5beda59d9e1313f5f643a2b3b96c8b8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 121/176] fix: stream framing reads folded header lines as part
 of their header

---
 crates/sip-transport/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 238a940..d933be4 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1983,12 +1983,13 @@ fn consume_leading_crlf(buf: &mut BytesMut) {
 
 fn parse_content_length(headers: &[u8]) -> Result<Option<usize>> {
     let mut found: Option<usize> = None;
-    for line in headers.split(|b| *b == b'\n') {
-        let line = if line.ends_with(b"\r") {
-            &line[..line.len().saturating_sub(1)]
-        } else {
-            line
-        };
+    let mut lines = headers.split(|b| *b == b'\n').peekable();
+    while let Some(line) = lines.next() {
+        // RFC 3261 §7.3.1: lines that start with whitespace continue this header
+        let mut folded = Vec::new();
+        while let Some(more) = lines.next_if(|l| l.starts_with(b" ") || l.starts_with(b"\t")) {
+            folded.push(more);
+        }
         let Some(colon) = memchr::memchr(b':', line) else {
             continue;
         };
@@ -1997,8 +1998,12 @@ fn parse_content_length(headers: &[u8]) -> Result<Option<usize>> {
         if !ascii_eq_ignore_case(name, b"content-length") && !ascii_eq_ignore_case(name, b"l") {
             continue;
         }
-        let value = trim_ascii_whitespace(&line[colon + 1..]);
-        let parsed = parse_ascii_usize(value)?;
+        let mut value = line[colon + 1..].to_vec();
+        for more in folded {
+            value.push(b' ');
+            value.extend_from_slice(more);
+        }
+        let parsed = parse_ascii_usize(trim_ascii_whitespace(&value))?;
         if let Some(existing) = found {
             if existing != parsed {
                 return Err(anyhow!(
-- 
2.43.0


From de11759584ddf538b634ab658ec7bd22e41368fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 122/176] fix: headers of the maximum size are accepted however
 the terminator arrives

---
 crates/sip-transport/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index d933be4..4f2e1b2 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1903,7 +1903,8 @@ pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
             Some(pos) => pos,
             None => {
                 // No complete headers yet - check if buffer is growing too large
-                if buf.len() > MAX_HEADER_SIZE {
+                // (up to three bytes may belong to the terminator)
+                if buf.len() > MAX_HEADER_SIZE + 3 {
                     return Err(anyhow!(
                         "SIP headers exceed MAX_HEADER_SIZE ({} bytes), possible attack",
                         MAX_HEADER_SIZE
-- 
2.43.0


From f7b388c40526f676ac7b8db1e9bd772b31c00a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 123/176] fix: messages before a framing error are delivered
 however the bytes arrive

---
 crates/sip-transport/src/lib.rs  | 136 ++++++++++++++++++-------------
 crates/sip-transport/src/pool.rs |  18 +++-
 2 files changed, 95 insertions(+), 59 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 4f2e1b2..749f54a 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1574,6 +1574,15 @@ async fn spawn_tls_session(
             transport_metrics().on_error(TransportLabel::Tls, StageLabel::BufferOverflow);
             break;
         }
+        if let Err(e) = next_frame_len(&buf) {
+            warn!(
+                peer = %peer,
+                error = %e,
+                "SIP framing error, closing tls connection"
+            );
+            transport_metrics().on_error(TransportLabel::Tls, StageLabel::FramingError);
+            break;
+        }
 
         // Idle timeout: a short Slowloris window until the peer completes its
         // first SIP message, then the long (configurable) established timeout,
@@ -1787,6 +1796,15 @@ async fn spawn_stream_session<S>(
             transport_metrics().on_error(transport.into(), StageLabel::BufferOverflow);
             break;
         }
+        if let Err(e) = next_frame_len(&buf) {
+            warn!(
+                peer = %peer,
+                error = %e,
+                "SIP framing error, closing connection"
+            );
+            transport_metrics().on_error(transport.into(), StageLabel::FramingError);
+            break;
+        }
 
         // Idle timeout: a short Slowloris window until the peer completes its
         // first SIP message, then the long (configurable) established timeout,
@@ -1894,74 +1912,76 @@ pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
     loop {
         // Handle CRLF keep-alive pings (RFC 5626)
         consume_leading_crlf(buf);
-        if buf.is_empty() {
-            break;
+        match next_frame_len(buf) {
+            Ok(Some(len)) if buf.len() >= len => frames.push(buf.split_to(len).freeze()),
+            Ok(_) => break,
+            // What came before is delivered first; the caller meets the error
+            // in `next_frame_len` before it reads on.
+            Err(_) if !frames.is_empty() => break,
+            Err(e) => return Err(e),
         }
+    }
+    Ok(frames)
+}
 
-        // Look for end of headers (\r\n\r\n)
-        let head_end = match memchr::memmem::find(buf.as_ref(), b"\r\n\r\n") {
-            Some(pos) => pos,
-            None => {
-                // No complete headers yet - check if buffer is growing too large
-                // (up to three bytes may belong to the terminator)
-                if buf.len() > MAX_HEADER_SIZE + 3 {
-                    return Err(anyhow!(
-                        "SIP headers exceed MAX_HEADER_SIZE ({} bytes), possible attack",
-                        MAX_HEADER_SIZE
-                    ));
-                }
-                break;
-            }
-        };
-
-        // Check header size limit
-        if head_end > MAX_HEADER_SIZE {
-            return Err(anyhow!(
-                "SIP headers are {} bytes, exceeds MAX_HEADER_SIZE ({} bytes)",
-                head_end,
-                MAX_HEADER_SIZE
-            ));
-        }
-
-        let header_bytes = &buf[..head_end];
-        let content_length = parse_content_length(header_bytes)?;
-
-        // Check body size limit
-        if let Some(cl) = content_length {
-            if cl > MAX_BODY_SIZE {
+/// Length of the SIP message at the start of the buffer, once its headers are complete.
+pub(crate) fn next_frame_len(buf: &[u8]) -> Result<Option<usize>> {
+    // Look for end of headers (\r\n\r\n)
+    let head_end = match memchr::memmem::find(buf, b"\r\n\r\n") {
+        Some(pos) => pos,
+        None => {
+            // No complete headers yet - check if buffer is growing too large
+            // (up to three bytes may belong to the terminator)
+            if buf.len() > MAX_HEADER_SIZE + 3 {
                 return Err(anyhow!(
-                    "Content-Length {} exceeds MAX_BODY_SIZE ({} bytes)",
-                    cl,
-                    MAX_BODY_SIZE
+                    "SIP headers exceed MAX_HEADER_SIZE ({} bytes), possible attack",
+                    MAX_HEADER_SIZE
                 ));
             }
+            return Ok(None);
         }
+    };
 
-        // RFC 3261 §18.3: Content-Length is mandatory for stream transports.
-        // Treating a missing Content-Length as zero is a request-smuggling
-        // primitive: an attacker can send a body that downstream parsers see
-        // but we ignore (or vice-versa). Hard reject so the connection is
-        // torn down by the caller.
-        let body_length = match content_length {
-            Some(cl) => cl,
-            None => {
-                return Err(anyhow!(
-                    "SIP message on stream transport missing Content-Length \
-                     header (RFC 3261 §18.3 requires it on TCP/TLS); \
-                     rejecting to avoid request smuggling"
-                ));
-            }
-        };
+    // Check header size limit
+    if head_end > MAX_HEADER_SIZE {
+        return Err(anyhow!(
+            "SIP headers are {} bytes, exceeds MAX_HEADER_SIZE ({} bytes)",
+            head_end,
+            MAX_HEADER_SIZE
+        ));
+    }
 
-        let needed = head_end + 4 + body_length;
-        if buf.len() < needed {
-            // Don't have complete message yet
-            break;
-        }
+    let header_bytes = &buf[..head_end];
+    let content_length = parse_content_length(header_bytes)?;
 
-        frames.push(buf.split_to(needed).freeze());
+    // Check body size limit
+    if let Some(cl) = content_length {
+        if cl > MAX_BODY_SIZE {
+            return Err(anyhow!(
+                "Content-Length {} exceeds MAX_BODY_SIZE ({} bytes)",
+                cl,
+                MAX_BODY_SIZE
+            ));
+        }
     }
-    Ok(frames)
+
+    // RFC 3261 §18.3: Content-Length is mandatory for stream transports.
+    // Treating a missing Content-Length as zero is a request-smuggling
+    // primitive: an attacker can send a body that downstream parsers see
+    // but we ignore (or vice-versa). Hard reject so the connection is
+    // torn down by the caller.
+    let body_length = match content_length {
+        Some(cl) => cl,
+        None => {
+            return Err(anyhow!(
+                "SIP message on stream transport missing Content-Length \
+                 header (RFC 3261 §18.3 requires it on TCP/TLS); \
+                 rejecting to avoid request smuggling"
+            ));
+        }
+    };
+
+    Ok(Some(head_end + 4 + body_length))
 }
 
 fn consume_leading_crlf(buf: &mut BytesMut) {
diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index ccc9ab2..8232310 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -56,7 +56,7 @@ pub enum ConnectionEvent {
 /// events are still delivered to subscribers that keep up.
 const CONNECTION_EVENT_CHANNEL_CAPACITY: usize = 256;
 
-use crate::{drain_sip_frames, InboundPacket, TransportKind, MAX_BUFFER_SIZE};
+use crate::{drain_sip_frames, next_frame_len, InboundPacket, TransportKind, MAX_BUFFER_SIZE};
 
 /// Maximum number of pooled TCP connections (prevents file descriptor exhaustion).
 const MAX_POOL_SIZE: usize = 1000;
@@ -602,6 +602,14 @@ impl ConnectionPool {
                         );
                         break;
                     }
+                    if let Err(e) = next_frame_len(&buf) {
+                        warn!(
+                            peer = %peer,
+                            error = %e,
+                            "tcp client framing error, closing connection"
+                        );
+                        break;
+                    }
 
                     match reader.read_buf(&mut buf).await {
                         Ok(0) => {
@@ -1213,6 +1221,14 @@ impl TlsPool {
                         );
                         break;
                     }
+                    if let Err(e) = next_frame_len(&buf) {
+                        warn!(
+                            peer = %peer,
+                            error = %e,
+                            "tls client framing error, closing connection"
+                        );
+                        break;
+                    }
                     match reader.read_buf(&mut buf).await {
                         Ok(0) => break,
                         Ok(_) => match drain_sip_frames(&mut buf) {
-- 
2.43.0


From ef682d917c1a6cd4899cab46c739a8137257214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 124/176] fix: a pooled connection that the peer closed is not
 used for the next message

---
 crates/sip-transport/src/pool.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 8232310..55df6e4 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -590,6 +590,7 @@ impl ConnectionPool {
             drop(inbound_tx_guard);
             let peer = addr;
             debug!(peer = %peer, "spawning TCP client reader task for outbound connection");
+            let connections = Arc::clone(&self.tcp);
             let reader_handle = tokio::spawn(async move {
                 let mut buf = BytesMut::with_capacity(4096);
                 debug!(peer = %peer, "TCP client reader task started");
@@ -679,6 +680,9 @@ impl ConnectionPool {
                         }
                     }
                 }
+                // Nothing more can arrive: drop the connection, so that the
+                // next send opens a fresh one.
+                connections.remove_if(&peer, |_, e| e.sender.same_channel(&writer_tx));
             });
             entry.task_handles.push(reader_handle.abort_handle());
         } else {
@@ -1210,6 +1214,8 @@ impl TlsPool {
         if let Some(inbound_tx) = inbound_tx_guard.clone() {
             drop(inbound_tx_guard);
             let peer = addr;
+            let connections = Arc::clone(&self.inner);
+            let entry_key = key.clone();
             let reader_handle = tokio::spawn(async move {
                 let mut buf = BytesMut::with_capacity(4096);
                 loop {
@@ -1274,6 +1280,9 @@ impl TlsPool {
                         }
                     }
                 }
+                // Nothing more can arrive: drop the connection, so that the
+                // next send opens a fresh one.
+                connections.remove_if(&entry_key, |_, e| e.sender.same_channel(&writer_tx));
             });
             entry.task_handles.push(reader_handle.abort_handle());
         } else {
-- 
2.43.0


From 38f26fdc1082bf40bd2db0a8c06189f29dda0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 125/176] fix: a peer that does not read does not block sending
 to other peers

---
 crates/sip-transport/src/pool.rs | 47 ++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 55df6e4..7247d50 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -127,6 +127,13 @@ impl PoolEntry {
         self.last_used = Instant::now();
     }
 
+    /// The channel to send on. It outlives the map guard: waiting for room in
+    /// the channel must not keep the map locked.
+    fn reuse(&mut self) -> Sender<Bytes> {
+        self.touch(); // Update last activity time
+        self.sender.clone()
+    }
+
     fn is_idle(&self, timeout: Duration) -> bool {
         self.last_used.elapsed() > timeout
     }
@@ -511,17 +518,17 @@ impl ConnectionPool {
         debug!(peer = %addr, "send_tcp called");
 
         // Try to use existing connection
-        if let Some(mut entry) = self.tcp.get_mut(&addr) {
+        let existing = self.tcp.get_mut(&addr).map(|mut e| e.reuse());
+        if let Some(sender) = existing {
             debug!(peer = %addr, "found existing TCP connection, reusing");
-            entry.touch(); // Update last activity time
-            if entry.sender.send(payload.clone()).await.is_ok() {
+            if sender.send(payload.clone()).await.is_ok() {
                 debug!(peer = %addr, "reused existing TCP connection successfully");
                 return Ok(());
             }
             // Connection failed, remove it
             debug!(peer = %addr, "existing TCP connection failed, removing");
-            drop(entry);
-            self.tcp.remove(&addr);
+            self.tcp
+                .remove_if(&addr, |_, e| e.sender.same_channel(&sender));
         }
 
         debug!(peer = %addr, "no existing connection found, creating new TCP connection");
@@ -726,14 +733,14 @@ impl ConnectionPool {
         debug!(url = %key, "send_ws called");
 
         // Try to use existing connection
-        if let Some(mut entry) = self.ws.get_mut(&key) {
-            entry.touch();
-            if entry.sender.send(payload.clone()).await.is_ok() {
+        let existing = self.ws.get_mut(&key).map(|mut e| e.reuse());
+        if let Some(sender) = existing {
+            if sender.send(payload.clone()).await.is_ok() {
                 debug!(url = %key, "reused existing WS connection successfully");
                 return Ok(());
             }
-            drop(entry);
-            self.ws.remove(&key);
+            self.ws
+                .remove_if(&key, |_, e| e.sender.same_channel(&sender));
             debug!(url = %key, "existing WS connection failed, removed");
         }
 
@@ -1116,14 +1123,14 @@ impl TlsPool {
         let key = (addr, server_name.clone());
 
         // Try to use existing connection (same peer + SNI).
-        if let Some(mut entry) = self.inner.get_mut(&key) {
-            entry.touch(); // Update last activity time
-            if entry.sender.send(payload.clone()).await.is_ok() {
+        let existing = self.inner.get_mut(&key).map(|mut e| e.reuse());
+        if let Some(sender) = existing {
+            if sender.send(payload.clone()).await.is_ok() {
                 return Ok(());
             }
             // Connection failed, remove it
-            drop(entry);
-            self.inner.remove(&key);
+            self.inner
+                .remove_if(&key, |_, e| e.sender.same_channel(&sender));
         }
 
         // RFC 5923 connection reuse: fall back to any live connection to the
@@ -1146,13 +1153,13 @@ impl TlsPool {
             .find(|e| e.key().0 == addr)
             .map(|e| e.key().clone());
         if let Some(k) = addr_match {
-            if let Some(mut entry) = self.inner.get_mut(&k) {
-                entry.touch();
-                if entry.sender.send(payload.clone()).await.is_ok() {
+            let existing = self.inner.get_mut(&k).map(|mut e| e.reuse());
+            if let Some(sender) = existing {
+                if sender.send(payload.clone()).await.is_ok() {
                     return Ok(());
                 }
-                drop(entry);
-                self.inner.remove(&k);
+                self.inner
+                    .remove_if(&k, |_, e| e.sender.same_channel(&sender));
             }
         }
 
-- 
2.43.0


From 12c798309840090e16bad46439cf204572051899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 126/176] fix: concurrent first sends to a peer do not lose
 each other's messages

---
 crates/sip-transport/src/pool.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 7247d50..bde5582 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -8,7 +8,7 @@ use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, Result};
 use bytes::{Bytes, BytesMut};
-use dashmap::DashMap;
+use dashmap::{mapref::entry::Entry, DashMap};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     net::TcpStream,
@@ -553,6 +553,25 @@ impl ConnectionPool {
         // responses on this connection are otherwise invisible to Homer
         // (siphon-ai #341).
         let hep_local = stream.local_addr().ok();
+        let inbound_tx = self.inbound_tx.lock().await.clone();
+
+        // Another caller may have connected to the same peer meanwhile. Its
+        // entry must not be replaced: that would end its writer together with
+        // the messages still queued there. The slot stays locked from here
+        // until the new entry is in it; nothing in between waits.
+        let slot = match self.tcp.entry(addr) {
+            Entry::Occupied(mut other) if !other.get().sender.is_closed() => {
+                let sender = other.get_mut().reuse();
+                drop(other);
+                debug!(peer = %addr, "peer connected concurrently, using that connection");
+                return sender
+                    .send(payload)
+                    .await
+                    .map_err(|_| anyhow!("connection writer closed"));
+            }
+            slot => slot,
+        };
+
         let (mut reader, mut writer) = stream.into_split();
         let (tx, mut rx) = mpsc::channel::<Bytes>(64);
         let mut entry = PoolEntry::new(tx.clone(), permit);
@@ -589,12 +608,10 @@ impl ConnectionPool {
         );
 
         // Optional reader task to deliver responses back to the inbound pipeline
-        let inbound_tx_guard = self.inbound_tx.lock().await;
-        let has_inbound_tx = inbound_tx_guard.is_some();
+        let has_inbound_tx = inbound_tx.is_some();
         debug!(peer = %addr, has_inbound_tx = %has_inbound_tx, "checking if inbound_tx is set");
 
-        if let Some(inbound_tx) = inbound_tx_guard.clone() {
-            drop(inbound_tx_guard);
+        if let Some(inbound_tx) = inbound_tx {
             let peer = addr;
             debug!(peer = %peer, "spawning TCP client reader task for outbound connection");
             let connections = Arc::clone(&self.tcp);
@@ -693,11 +710,10 @@ impl ConnectionPool {
             });
             entry.task_handles.push(reader_handle.abort_handle());
         } else {
-            drop(inbound_tx_guard);
             debug!(peer = %addr, "inbound_tx is None, skipping TCP client reader task");
         }
 
-        self.tcp.insert(addr, entry);
+        drop(slot.insert(entry));
         debug!(peer = %addr, "inserted connection into pool");
 
         let result = tx
-- 
2.43.0


From 5e9c1a6dfa48908cd21c557759497cf3439d490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 127/176] fix: the end of a pooled connection does not take
 down the one that replaced it

---
 crates/sip-transport/src/pool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index bde5582..90bac25 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -268,6 +268,7 @@ fn spawn_writer_supervisor<K, F>(
     F: FnOnce(&K) -> String + Send + 'static,
 {
     tokio::spawn(async move {
+        let writer_id = writer.id();
         let outcome = writer.await;
         let key_label = format_key(&key);
         let mut event_reason: Option<String> = None;
@@ -297,7 +298,11 @@ fn spawn_writer_supervisor<K, F>(
                 event_reason = Some(format!("writer cancelled: {e}"));
             }
         }
-        map.remove(&key);
+        // Only this writer's entry: the key may by now belong to the next
+        // connection to the same peer.
+        map.remove_if(&key, |_, e| {
+            e.task_handles.first().map_or(true, |h| h.id() == writer_id)
+        });
 
         // Emit a ConnectionEvent so observers (metrics, reconnect
         // policies) see the death without waiting for the next send
-- 
2.43.0


From fddb0d1fbf8b01de9c8ee23005c09e156d9f3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 128/176] fix: forwarding a response removes only the proxy's
 own Via value

---
 crates/sip-proxy/src/lib.rs | 49 +++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 16fcef0..3172d36 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -99,6 +99,27 @@ fn sent_by_matches_host(sent_by: &str, proxy_host: &str) -> bool {
     host.eq_ignore_ascii_case(proxy_host)
 }
 
+/// Splits a header field value at the commas between its list elements,
+/// not at those inside quoted strings or angle brackets.
+pub(crate) fn split_list(value: &str) -> impl Iterator<Item = &str> {
+    let (mut quoted, mut escaped, mut angle) = (false, false, false);
+    value.split(move |c: char| {
+        if escaped {
+            escaped = false;
+            return false;
+        }
+        match c {
+            '\\' if quoted => escaped = true,
+            '"' => quoted = !quoted,
+            '<' if !quoted => angle = true,
+            '>' if !quoted => angle = false,
+            ',' => return !quoted && !angle,
+            _ => {}
+        }
+        false
+    })
+}
+
 /// Extracts the `branch` parameter from a Via header value, if any.
 fn extract_via_branch(value: &str) -> Option<&str> {
     value
@@ -189,21 +210,23 @@ impl ProxyHelpers {
     /// # Arguments
     /// * `headers` - The response headers to modify
     pub fn remove_top_via(headers: &mut Headers) {
-        // Find and remove the first Via header
-        let mut found_index = None;
-        for (i, header) in headers.iter().enumerate() {
-            if header.name().eq_ignore_ascii_case("Via") {
-                found_index = Some(i);
-                break;
-            }
-        }
+        // Find the first Via header
+        let found_index = headers
+            .iter()
+            .position(|header| header.name().eq_ignore_ascii_case("Via"));
 
         if let Some(index) = found_index {
-            let mut new_headers = Vec::new();
-            for (i, header) in headers.clone().into_iter().enumerate() {
-                if i != index {
-                    new_headers.push(header);
-                }
+            let mut new_headers = headers.clone().into_inner();
+            let header = new_headers.remove(index);
+            // One header field may hold several values (RFC 3261 §7.3.1);
+            // only the first of them is ours.
+            let first = split_list(header.value()).next().map_or(0, str::len);
+            let rest = header.value()[first..].trim_start_matches(',').trim();
+            if !rest.is_empty() {
+                new_headers.insert(
+                    index,
+                    Header::new(header.name(), rest).expect("via header should be valid"),
+                );
             }
             *headers =
                 Headers::from_vec(new_headers).expect("via header list should be within limits");
-- 
2.43.0


From 87e429dd68448d16bd910a786a022d2c1a6c188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 129/176] fix: a proxy's Record-Route goes before those already
 there

---
 crates/sip-proxy/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 3172d36..19a3fe5 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -178,10 +178,18 @@ impl ProxyHelpers {
         } else {
             format!("<{};lr>", proxy_uri.as_str())
         };
-        request
-            .headers_mut()
-            .push("Record-Route", rr_value)
-            .unwrap();
+        // RFC 3261 §16.6 step 4: before any existing Record-Route values.
+        let mut new_headers = request.headers().clone().into_inner();
+        let index = new_headers
+            .iter()
+            .position(|h| h.name().eq_ignore_ascii_case("Record-Route"))
+            .unwrap_or(new_headers.len());
+        new_headers.insert(
+            index,
+            Header::new("Record-Route", rr_value).expect("record-route header should be valid"),
+        );
+        *request.headers_mut() =
+            Headers::from_vec(new_headers).expect("header list should be within limits");
     }
 
     /// Decrements Max-Forwards header and checks for loop.
-- 
2.43.0


From 0eb81aa6a334762916eb12fdd58b31d78472e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 130/176] fix: forwarding a message that has as many headers as
 allowed does not panic

---
 crates/sip-proxy/src/lib.rs | 48 ++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 19a3fe5..cd7522e 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -28,6 +28,7 @@ use sip_core::{
     decrement_max_forwards, Header, Headers, Request, RequestLine, RouteHeader, SipUri, Uri,
 };
 use sip_transaction::generate_branch_id;
+use tracing::warn;
 
 /// Stateless proxy helpers for RFC 3261 proxy operations.
 ///
@@ -99,6 +100,28 @@ fn sent_by_matches_host(sent_by: &str, proxy_host: &str) -> bool {
     host.eq_ignore_ascii_case(proxy_host)
 }
 
+/// Puts `value` in front of the existing values of a list header, as a field
+/// of its own at `index`. A message that already has as many fields as it may
+/// have takes it into the first of those fields instead (RFC 3261 §7.3.1).
+fn prepend_value(headers: &mut Headers, name: &str, value: String, index: usize) {
+    let mut fields = headers.clone().into_inner();
+    let Ok(header) = Header::new(name, &value) else {
+        return;
+    };
+    fields.insert(index, header);
+    if let Ok(extended) = Headers::from_vec(fields) {
+        *headers = extended;
+        return;
+    }
+    let joined = match headers.get(name) {
+        Some(existing) => format!("{value}, {existing}"),
+        None => value,
+    };
+    if headers.set_or_push(name, joined).is_err() {
+        warn!("no room for another {name} value, not added");
+    }
+}
+
 /// Splits a header field value at the commas between its list elements,
 /// not at those inside quoted strings or angle brackets.
 pub(crate) fn split_list(value: &str) -> impl Iterator<Item = &str> {
@@ -146,11 +169,7 @@ impl ProxyHelpers {
         let via_value = format!("SIP/2.0/{} {};branch={};rport", transport, host, branch);
 
         // Prepend to existing Via headers
-        let mut new_headers = Vec::new();
-        new_headers.push(Header::new("Via", via_value).expect("via header should be valid"));
-        new_headers.extend(request.headers().clone());
-        *request.headers_mut() =
-            Headers::from_vec(new_headers).expect("via header list should be within limits");
+        prepend_value(request.headers_mut(), "Via", via_value, 0);
 
         branch.to_string()
     }
@@ -179,17 +198,12 @@ impl ProxyHelpers {
             format!("<{};lr>", proxy_uri.as_str())
         };
         // RFC 3261 §16.6 step 4: before any existing Record-Route values.
-        let mut new_headers = request.headers().clone().into_inner();
-        let index = new_headers
+        let headers = request.headers_mut();
+        let index = headers
             .iter()
             .position(|h| h.name().eq_ignore_ascii_case("Record-Route"))
-            .unwrap_or(new_headers.len());
-        new_headers.insert(
-            index,
-            Header::new("Record-Route", rr_value).expect("record-route header should be valid"),
-        );
-        *request.headers_mut() =
-            Headers::from_vec(new_headers).expect("header list should be within limits");
+            .unwrap_or(headers.len());
+        prepend_value(headers, "Record-Route", rr_value, index);
     }
 
     /// Decrements Max-Forwards header and checks for loop.
@@ -256,11 +270,7 @@ impl ProxyHelpers {
         let branch = compute_loop_branch(request, host);
         let via_value = format!("SIP/2.0/{} {};branch={};rport", transport, host, branch);
 
-        let mut new_headers = Vec::new();
-        new_headers.push(Header::new("Via", via_value).expect("via header should be valid"));
-        new_headers.extend(request.headers().clone());
-        *request.headers_mut() =
-            Headers::from_vec(new_headers).expect("via header list should be within limits");
+        prepend_value(request.headers_mut(), "Via", via_value, 0);
 
         branch
     }
-- 
2.43.0


From 3702b6d7558450c31a179eaf0334ba72125b1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 131/176] fix: loops are detected in every form of Via

---
 crates/sip-proxy/src/lib.rs | 73 +++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index cd7522e..2b599c9 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -87,17 +87,31 @@ fn compute_loop_branch(request: &Request, proxy_host: &str) -> String {
     format!("{}{}", BRANCH_MAGIC, hex::encode(&digest[..16]))
 }
 
-/// Extracts the `sent-by` (host[:port]) from a Via header value.
+/// All Via values of a message, wherever they are split into fields.
+fn via_values(headers: &Headers) -> impl Iterator<Item = &str> {
+    headers
+        .iter()
+        .filter(|h| h.name().eq_ignore_ascii_case("Via") || h.name().eq_ignore_ascii_case("v"))
+        .flat_map(|h| split_list(h.value()))
+}
+
+/// Extracts the `sent-by` (host[:port]) from a Via value. White space is
+/// allowed around the slashes of the sent-protocol.
 fn extract_via_sent_by(value: &str) -> Option<&str> {
-    let after_proto = value.split_whitespace().nth(1)?;
-    Some(after_proto.split(';').next().unwrap_or(after_proto))
+    let transport = value.splitn(3, '/').nth(2)?.trim_start();
+    let (_, after_proto) = transport.split_once(char::is_whitespace)?;
+    Some(after_proto.split(';').next()?.trim())
 }
 
 /// Returns true if a Via `sent-by` references `proxy_host`. Matches
 /// `host` or `host:port` case-insensitively.
 fn sent_by_matches_host(sent_by: &str, proxy_host: &str) -> bool {
-    let host = sent_by.split(':').next().unwrap_or(sent_by);
-    host.eq_ignore_ascii_case(proxy_host)
+    let host_end = match sent_by.find(']') {
+        Some(bracket) => bracket + 1, // IPv6 reference
+        None => sent_by.find(':').unwrap_or(sent_by.len()),
+    };
+    let host = sent_by[..host_end].trim_end();
+    host.eq_ignore_ascii_case(proxy_host) || sent_by.eq_ignore_ascii_case(proxy_host)
 }
 
 /// Puts `value` in front of the existing values of a list header, as a field
@@ -147,8 +161,10 @@ pub(crate) fn split_list(value: &str) -> impl Iterator<Item = &str> {
 fn extract_via_branch(value: &str) -> Option<&str> {
     value
         .split(';')
-        .map(str::trim)
-        .find_map(|p| p.strip_prefix("branch="))
+        .skip(1)
+        .filter_map(|p| p.split_once('='))
+        .find(|(name, _)| name.trim().eq_ignore_ascii_case("branch"))
+        .map(|(_, branch)| branch.trim())
 }
 
 impl ProxyHelpers {
@@ -286,13 +302,7 @@ impl ProxyHelpers {
     /// proxy's host literal appeared in any Via for any reason.
     pub fn detect_loop_hashed(request: &Request, proxy_host: &str) -> Result<()> {
         let expected_branch = compute_loop_branch(request, proxy_host);
-        for header in request.headers().iter() {
-            if !header.name().eq_ignore_ascii_case("Via")
-                && !header.name().eq_ignore_ascii_case("v")
-            {
-                continue;
-            }
-            let value = header.value();
+        for value in via_values(request.headers()) {
             let Some(sent_by) = extract_via_sent_by(value) else {
                 continue;
             };
@@ -331,30 +341,23 @@ impl ProxyHelpers {
     /// * `Err(_)` - Loop detected (respond with 482 Loop Detected)
     pub fn detect_loop(request: &Request, proxy_host: &str) -> Result<()> {
         let mut via_count = 0;
-        for header in request.headers().iter() {
-            if header.name().eq_ignore_ascii_case("Via") || header.name().eq_ignore_ascii_case("v")
-            {
-                via_count += 1;
-                if via_count > MAX_VIA_HOPS {
+        for value in via_values(request.headers()) {
+            via_count += 1;
+            if via_count > MAX_VIA_HOPS {
+                return Err(anyhow!(
+                    "Via hop count {} exceeds maximum {} - possible routing loop",
+                    via_count,
+                    MAX_VIA_HOPS
+                ));
+            }
+            // Check if this Via contains our own host
+            if let Some(sent_by) = extract_via_sent_by(value) {
+                if sent_by_matches_host(sent_by, proxy_host) {
                     return Err(anyhow!(
-                        "Via hop count {} exceeds maximum {} - possible routing loop",
-                        via_count,
-                        MAX_VIA_HOPS
+                        "Via header contains proxy host {} - routing loop detected (482)",
+                        proxy_host
                     ));
                 }
-                // Check if this Via contains our own host
-                let value = header.value();
-                // Via format: SIP/2.0/TRANSPORT host[:port];params
-                if let Some(host_part) = value.split_whitespace().nth(1) {
-                    let host = host_part.split(';').next().unwrap_or(host_part);
-                    let host = host.split(':').next().unwrap_or(host);
-                    if host.eq_ignore_ascii_case(proxy_host) {
-                        return Err(anyhow!(
-                            "Via header contains proxy host {} - routing loop detected (482)",
-                            proxy_host
-                        ));
-                    }
-                }
             }
         }
         Ok(())
-- 
2.43.0


From 5bc41b8bacd1e45121d121e568214d028f76765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 132/176] fix: route values are found however the Route header
 is written

---
 crates/sip-proxy/src/cancel_ack.rs | 103 +++++++++++++----------------
 1 file changed, 46 insertions(+), 57 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index 035b616..1b42729 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -8,7 +8,7 @@
 //! different processing than regular request forwarding.
 
 use anyhow::{anyhow, Result};
-use sip_core::{Request, SipUri};
+use sip_core::{Header, Headers, Request, RouteHeader, SipUri};
 use tracing::debug;
 
 /// CANCEL forwarding per RFC 3261 §16.10
@@ -177,6 +177,39 @@ impl CancelForwarder {
 /// Extracts the `tag` parameter from a From / To header value.
 /// Returns the tag verbatim (no quoting/escaping rules apply, per
 /// RFC 3261 §19.3) or `None` if absent.
+/// The URI of a single Route value, in angle brackets or bare.
+fn parse_route_uri(value: &str) -> Option<SipUri> {
+    let value = value.trim();
+    match RouteHeader::parse(value) {
+        Ok(route) => route.uri().as_sip().cloned(),
+        Err(_) => SipUri::parse(value).ok(),
+    }
+}
+
+/// Removes the first or the last Route value, wherever the values are split
+/// into fields (RFC 3261 §7.3.1), and returns its URI and whether it asks for
+/// loose routing. Leaves the headers alone if that value is not a SIP URI.
+fn take_route(headers: &mut Headers, last: bool) -> Option<(SipUri, bool)> {
+    let is_route = |h: &Header| h.name().eq_ignore_ascii_case("Route");
+    let mut fields = headers.clone().into_inner();
+    let index = if last {
+        fields.iter().rposition(is_route)?
+    } else {
+        fields.iter().position(is_route)?
+    };
+    let field = fields.remove(index);
+    let mut values: Vec<&str> = crate::split_list(field.value()).map(str::trim).collect();
+    let value = values.remove(if last { values.len() - 1 } else { 0 });
+    let uri = parse_route_uri(value)?;
+    let lr = RouteHeader::parse(value)
+        .map_or_else(|_| uri.params().contains_key("lr"), |route| route.has_lr());
+    if !values.is_empty() {
+        fields.insert(index, Header::new(field.name(), values.join(", ")).ok()?);
+    }
+    *headers = Headers::from_vec(fields).ok()?;
+    Some((uri, lr))
+}
+
 fn extract_tag(header_value: &str) -> Option<&str> {
     header_value
         .split(';')
@@ -232,28 +265,11 @@ impl AckForwarder {
         // Clone the ACK
         let mut ack = original_ack.clone();
 
-        // For 2xx ACK, use the first Route (if present) as Request-URI per loose routing
+        // For 2xx ACK, consume the first Route (if present)
         if matches!(ack_type, AckType::For2xx) {
-            let mut new_headers = Vec::new();
-            let mut used_route = false;
-
-            for header in ack.headers().clone().into_iter() {
-                if header.name().eq_ignore_ascii_case("Route") && !used_route {
-                    let uri_str = header.value().trim_matches(|c| c == '<' || c == '>');
-
-                    if let Ok(uri) = SipUri::parse(uri_str) {
-                        crate::ProxyHelpers::set_request_uri(&mut ack, uri);
-                        used_route = true;
-                        // Skip the consumed Route header
-                        continue;
-                    }
-                }
-
-                new_headers.push(header);
+            if let Some((uri, _)) = take_route(ack.headers_mut(), false) {
+                crate::ProxyHelpers::set_request_uri(&mut ack, uri);
             }
-
-            *ack.headers_mut() = sip_core::Headers::from_vec(new_headers)
-                .expect("validated headers should remain within limits");
         }
 
         // For non-2xx ACK, keep Request-URI/Via intact for hop-by-hop forwarding
@@ -318,40 +334,13 @@ impl RouteProcessor {
         if is_our_uri {
             debug!("Request-URI matches our Record-Route - processing Route headers");
 
-            // Get the last Route header value
-            let route_values: Vec<_> = request
-                .headers()
-                .iter()
-                .filter(|h| h.name().eq_ignore_ascii_case("Route"))
-                .map(|h| h.value_smol().clone())
-                .collect();
-
-            if let Some(last_route) = route_values.last() {
-                // Extract URI from Route header (remove angle brackets)
-                let route_uri_str = last_route.as_str().trim_matches(|c| c == '<' || c == '>');
-
-                if let Ok(route_uri) = SipUri::parse(route_uri_str) {
-                    debug!("Moving Route header to Request-URI: {}", route_uri.as_str());
-
-                    // Update Request-URI
-                    crate::ProxyHelpers::set_request_uri(request, route_uri.clone());
-
-                    // Remove the last Route header
-                    let mut filtered = Vec::new();
-                    let mut removed = false;
-                    for header in request.headers().clone().into_iter().rev() {
-                        if header.name().eq_ignore_ascii_case("Route") && !removed {
-                            removed = true;
-                            continue;
-                        }
-                        filtered.push(header);
-                    }
-                    filtered.reverse();
-                    *request.headers_mut() = sip_core::Headers::from_vec(filtered)
-                        .expect("route header list should be within limits");
-
-                    return Ok(Some(route_uri));
-                }
+            // Take the last Route header value
+            if let Some((route_uri, _)) = take_route(request.headers_mut(), true) {
+                debug!("Moving Route header to Request-URI: {}", route_uri.as_str());
+
+                // Update Request-URI
+                crate::ProxyHelpers::set_request_uri(request, route_uri.clone());
+                return Ok(Some(route_uri));
             }
         }
 
@@ -365,8 +354,8 @@ impl RouteProcessor {
         // Check for Route headers
         if let Some(route) = request.headers().get("Route") {
             // Extract URI from Route header
-            let uri_str = route.trim_matches(|c| c == '<' || c == '>');
-            SipUri::parse(uri_str).map_err(|_| anyhow!("Invalid Route header URI"))
+            let first = crate::split_list(route).next().unwrap_or(route);
+            parse_route_uri(first).ok_or_else(|| anyhow!("Invalid Route header URI"))
         } else {
             // Use Request-URI
             request
-- 
2.43.0


From a066eb254ae636ae692c8e6b8b64b9c5d955f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 133/176] fix: the ACK of a 2xx keeps its Request-URI under
 loose routing

---
 crates/sip-proxy/src/cancel_ack.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index 1b42729..9d365f8 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -267,8 +267,12 @@ impl AckForwarder {
 
         // For 2xx ACK, consume the first Route (if present)
         if matches!(ack_type, AckType::For2xx) {
-            if let Some((uri, _)) = take_route(ack.headers_mut(), false) {
-                crate::ProxyHelpers::set_request_uri(&mut ack, uri);
+            if let Some((uri, lr)) = take_route(ack.headers_mut(), false) {
+                // A loose route leaves the Request-URI, the peer's Contact,
+                // alone; only a strict router is addressed in it.
+                if !lr {
+                    crate::ProxyHelpers::set_request_uri(&mut ack, uri);
+                }
             }
         }
 
-- 
2.43.0


From fbcb804afa411f1032d0c6ebf890ff7ccb47b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 134/176] fix: CANCEL is matched by the From tag, not by what
 looks like one in the URI

---
 crates/sip-proxy/src/cancel_ack.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index 9d365f8..09a070f 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -211,10 +211,17 @@ fn take_route(headers: &mut Headers, last: bool) -> Option<(SipUri, bool)> {
 }
 
 fn extract_tag(header_value: &str) -> Option<&str> {
-    header_value
+    // Parameters of the header, not of the URI or inside the display name.
+    let params = match header_value.rsplit_once('>') {
+        Some((_, params)) => params,
+        None => header_value,
+    };
+    params
         .split(';')
-        .map(str::trim)
-        .find_map(|p| p.strip_prefix("tag="))
+        .skip(1)
+        .filter_map(|p| p.split_once('='))
+        .find(|(name, _)| name.trim().eq_ignore_ascii_case("tag"))
+        .map(|(_, tag)| tag.trim())
 }
 
 /// ACK forwarding per RFC 3261 §16.11
-- 
2.43.0


From eb65c314e6f1813fa770828bd351a1777165b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 135/176] fix: a forked request gets one final response
 upstream, and every 2xx to an INVITE

---
 crates/sip-proxy/src/stateful.rs | 83 +++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 22 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index a35c766..d0bfd52 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -30,7 +30,7 @@ use crate::cancel_ack::{AckForwarder, CancelForwarder};
 use crate::ProxyHelpers;
 use anyhow::Result;
 use dashmap::DashMap;
-use sip_core::{Request, Response, SipUri};
+use sip_core::{Method, Request, Response, SipUri};
 use smol_str::SmolStr;
 use std::collections::HashMap;
 use std::sync::Arc;
@@ -307,6 +307,10 @@ pub struct ProxyContext {
     /// [...] and MUST NOT create any new branches in this context."
     /// `add_branch` honours this flag.
     terminated_by_6xx: RwLock<bool>,
+
+    /// Set once a final response has been handed out for forwarding. Only
+    /// further 2xx responses to an INVITE follow it.
+    final_forwarded: RwLock<bool>,
 }
 
 impl ProxyContext {
@@ -361,6 +365,7 @@ impl ProxyContext {
             created_at: Instant::now(),
             timer_c_duration,
             terminated_by_6xx: RwLock::new(false),
+            final_forwarded: RwLock::new(false),
         }
     }
 
@@ -415,6 +420,7 @@ impl ProxyContext {
     ) -> Option<Response> {
         let is_final = response.code() >= 200;
         let is_two_xx = (200..300).contains(&response.code());
+        let is_invite = *self.original_request.method() == Method::Invite;
         // RFC 3261 §16.7 #4: a 6xx is a global failure. We must
         // cancel siblings AND prevent any further forking via
         // `add_branch`.
@@ -425,11 +431,22 @@ impl ProxyContext {
         {
             let mut branches = self.branches.write().await;
             let branch = branches.get_mut(branch_id)?;
-
+            // A branch answers once. What follows its final response is a
+            // retransmission or a late provisional, and changes nothing; only
+            // a further 2xx to an INVITE goes upstream (RFC 3261 §16.7 #5).
+            if matches!(branch.state, BranchState::Completed) {
+                drop(branches);
+                if is_two_xx && is_invite {
+                    *self.best_final.write().await = Some(response.clone());
+                    return Some(response);
+                }
+                return None;
+            }
             let was_trying = matches!(branch.state, BranchState::Trying);
-
             if response.code() >= 100 && response.code() < 200 {
-                branch.state = BranchState::Proceeding;
+                if !matches!(branch.state, BranchState::Cancelled) {
+                    branch.state = BranchState::Proceeding;
+                }
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
                 // doesn't hang the upstream forever.
@@ -448,19 +465,12 @@ impl ProxyContext {
             branch.best_response = Some(response.clone());
         }
 
-        // Decrement the outstanding counter once the branches lock is
-        // released. Holding two write locks is fine in principle but
-        // keeping them strictly serialised keeps the lock graph
-        // trivial.
-        if is_final {
-            let mut count = self.outstanding_count.write().await;
-            if *count > 0 {
-                *count -= 1;
-            }
-        }
-
-        // Handle provisional responses (always forward first 1xx per RFC 3261)
+        // Handle provisional responses: forwarded until a final response
+        // has been.
         if !is_final {
+            if *self.final_forwarded.read().await {
+                return None;
+            }
             debug!(
                 "Forwarding provisional {} response from branch {}",
                 response.code(),
@@ -472,15 +482,37 @@ impl ProxyContext {
         // Handle final responses with response selection. The result
         // is computed inside a small scope so the best_final write
         // guard isn't held across `cancel_other_branches`.
-        let should_forward = {
+        //
+        // A final response goes upstream once, and `already_forwarded` says
+        // whether one has. The exception is a 2xx to an INVITE: it always
+        // does, even after a 6xx, as it has set up a call.
+        let (should_forward, already_forwarded) = {
+            let mut final_forwarded = self.final_forwarded.write().await;
             let mut best_final = self.best_final.write().await;
-            let should = select_best_response(best_final.as_ref(), &response);
+            let already = *final_forwarded;
+            let should = if already || (is_two_xx && is_invite) {
+                is_two_xx && is_invite
+            } else {
+                select_best_response(best_final.as_ref(), &response)
+            };
             if should {
                 *best_final = Some(response.clone());
+                *final_forwarded |= is_two_xx || is_six_xx;
             }
-            should
+            (should, already)
         };
 
+        // Decrement the outstanding counter once the other locks are
+        // released, which keeps the lock graph trivial, and the response has
+        // been considered, so that whoever sees the last branch complete
+        // sees the best response.
+        {
+            let mut count = self.outstanding_count.write().await;
+            if *count > 0 {
+                *count -= 1;
+            }
+        }
+
         // Per RFC 3261 §16.7: only 2xx and 6xx finals may be forwarded
         // as soon as they arrive. Every other final (1xx already
         // returned above, 3xx/4xx/5xx) must be buffered until ALL
@@ -498,9 +530,9 @@ impl ProxyContext {
             self.cancel_other_branches(branch_id).await;
             return Some(response);
         }
-        if should_forward && is_six_xx {
+        if is_six_xx {
             info!(
-                "Selected {} (6xx) — global failure, cancelling siblings",
+                "Received {} (6xx) — global failure, cancelling siblings",
                 response.code(),
             );
             // RFC 3261 §16.7 #4: on 6xx, also cancel siblings and
@@ -510,12 +542,19 @@ impl ProxyContext {
             // arrives later.
             *self.terminated_by_6xx.write().await = true;
             self.cancel_other_branches(branch_id).await;
-            return Some(response);
+            return (!already_forwarded).then_some(response);
         }
 
         // Check if all branches have completed
         let outstanding = *self.outstanding_count.read().await;
         if outstanding == 0 {
+            {
+                let mut final_forwarded = self.final_forwarded.write().await;
+                if *final_forwarded {
+                    return None;
+                }
+                *final_forwarded = true;
+            }
             // All branches done - return the best we have. Take a
             // fresh read of best_final since the earlier write guard
             // has been released.
-- 
2.43.0


From 0293307a66289782609aca8233cf28d11b81c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 136/176] fix: the proxy does not forward 100 Trying

---
 crates/sip-proxy/src/stateful.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index d0bfd52..17a5df9 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -466,9 +466,10 @@ impl ProxyContext {
         }
 
         // Handle provisional responses: forwarded until a final response
-        // has been.
+        // has been, except 100, which goes no further than one hop
+        // (RFC 3261 §16.7 #5).
         if !is_final {
-            if *self.final_forwarded.read().await {
+            if response.code() == 100 || *self.final_forwarded.read().await {
                 return None;
             }
             debug!(
-- 
2.43.0


From cab5d39821546374b90d09e63364cfd0af1e2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 137/176] fix: every provisional response restarts Timer C

---
 crates/sip-proxy/src/stateful.rs | 47 +++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 17a5df9..53a53b0 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -180,6 +180,9 @@ pub struct BranchInfo {
 
     /// Best response received so far (for response selection)
     pub(crate) best_response: Option<Response>,
+
+    /// When Timer C runs out
+    timer_c: Option<tokio::time::Instant>,
 }
 
 impl BranchInfo {
@@ -198,6 +201,7 @@ impl BranchInfo {
             created_at,
             state,
             best_response: None,
+            timer_c: None,
         })
     }
 
@@ -450,12 +454,11 @@ impl ProxyContext {
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
                 // doesn't hang the upstream forever.
+                // Every further one starts it again.
+                let deadline = tokio::time::Instant::now() + self.timer_c_duration;
+                branch.timer_c = Some(deadline);
                 if was_trying {
-                    arm_timer_c(
-                        Arc::downgrade(self),
-                        branch_id.to_string(),
-                        self.timer_c_duration,
-                    );
+                    arm_timer_c(Arc::downgrade(self), branch_id.to_string(), deadline);
                 }
             } else if is_final {
                 branch.state = BranchState::Completed;
@@ -743,6 +746,11 @@ impl ProxyContext {
         self.created_at
     }
 
+    /// When Timer C of a branch runs out, as of its last provisional response.
+    async fn timer_c_deadline(&self, branch_id: &str) -> Option<tokio::time::Instant> {
+        self.branches.read().await.get(branch_id)?.timer_c
+    }
+
     /// Synthesises a `408 Request Timeout` for a branch that's stuck in
     /// Proceeding. Invoked by the Timer C task (see `arm_timer_c`).
     ///
@@ -861,9 +869,13 @@ impl ProxyContext {
 
 /// Spawns the Timer C watchdog for a branch. Holds a `Weak` to the
 /// context so the task exits cleanly if the context is dropped before
-/// the timer fires. Sleep is a single tokio::time::sleep — no busy
-/// loop, no polling.
-fn arm_timer_c(ctx: std::sync::Weak<ProxyContext>, branch_id: String, duration: Duration) {
+/// the timer fires. Sleeps until the deadline, which a further provisional
+/// response moves — no busy loop, no polling.
+fn arm_timer_c(
+    ctx: std::sync::Weak<ProxyContext>,
+    branch_id: String,
+    mut deadline: tokio::time::Instant,
+) {
     // Only arm when we have a tokio runtime handle. Unit tests that
     // construct ProxyContext outside a runtime would otherwise panic.
     let Ok(handle) = tokio::runtime::Handle::try_current() else {
@@ -871,11 +883,20 @@ fn arm_timer_c(ctx: std::sync::Weak<ProxyContext>, branch_id: String, duration:
         return;
     };
     handle.spawn(async move {
-        tokio::time::sleep(duration).await;
-        let Some(ctx) = ctx.upgrade() else {
-            return;
-        };
-        ctx.fire_timer_c(&branch_id).await;
+        loop {
+            tokio::time::sleep_until(deadline).await;
+            let Some(ctx) = ctx.upgrade() else {
+                return;
+            };
+            match ctx.timer_c_deadline(&branch_id).await {
+                // Another provisional response arrived meanwhile.
+                Some(later) if later > deadline => deadline = later,
+                _ => {
+                    ctx.fire_timer_c(&branch_id).await;
+                    return;
+                }
+            }
+        }
     });
 }
 
-- 
2.43.0


From 9acb462c3c605a8b905e26f1788e96bbf4ebeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 138/176] fix: responses the proxy makes for a branch carry the
 whole Via stack

---
 crates/sip-proxy/src/stateful.rs | 55 ++++++++++++++++----------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 53a53b0..5961d84 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -29,8 +29,9 @@
 use crate::cancel_ack::{AckForwarder, CancelForwarder};
 use crate::ProxyHelpers;
 use anyhow::Result;
+use bytes::Bytes;
 use dashmap::DashMap;
-use sip_core::{Method, Request, Response, SipUri};
+use sip_core::{Headers, Method, Request, Response, SipUri, StatusLine};
 use smol_str::SmolStr;
 use std::collections::HashMap;
 use std::sync::Arc;
@@ -746,6 +747,28 @@ impl ProxyContext {
         self.created_at
     }
 
+    /// A response as the branch would have sent it: under the Via the request
+    /// was forwarded with come all those the request arrived with, so that it
+    /// is forwarded upstream like any other response.
+    fn branch_response(&self, branch_id: &str, code: u16, reason: &str) -> Option<Response> {
+        let received = self.original_request.headers();
+        let mut headers = Headers::new();
+        let own_via = format!(
+            "SIP/2.0/{} {};branch={};rport",
+            self.transport, self.proxy_host, branch_id
+        );
+        headers.push("Via", own_via).ok()?;
+        for value in received.get_all_smol("Via") {
+            headers.push("Via", value).ok()?;
+        }
+        for name in ["From", "To", "Call-ID", "CSeq"] {
+            if let Some(value) = received.get(name) {
+                let _ = headers.push(name, value);
+            }
+        }
+        Response::new(StatusLine::new(code, reason).ok()?, headers, Bytes::new()).ok()
+    }
+
     /// When Timer C of a branch runs out, as of its last provisional response.
     async fn timer_c_deadline(&self, branch_id: &str) -> Option<tokio::time::Instant> {
         self.branches.read().await.get(branch_id)?.timer_c
@@ -773,22 +796,8 @@ impl ProxyContext {
             }
         }
 
-        // Build the synthetic 408. Use the original request as the
-        // source of the headers we need to echo; this matches the shape
-        // `build_error_response` produces for the registrar / dispatcher.
-        use bytes::Bytes;
-        use sip_core::{Headers, Response, StatusLine};
-        let req = &self.original_request;
-        let mut headers = Headers::new();
-        for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
-            if let Some(value) = req.headers().get(name) {
-                let _ = headers.push(name, value);
-            }
-        }
-        let Ok(status) = StatusLine::new(408, "Request Timeout") else {
-            return;
-        };
-        let Ok(synthetic) = Response::new(status, headers, Bytes::new()) else {
+        // Build the synthetic 408.
+        let Some(synthetic) = self.branch_response(branch_id, 408, "Request Timeout") else {
             return;
         };
 
@@ -842,17 +851,7 @@ impl ProxyContext {
             }
         }
 
-        use bytes::Bytes;
-        use sip_core::{Headers, Response, StatusLine};
-        let req = &self.original_request;
-        let mut headers = Headers::new();
-        for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
-            if let Some(value) = req.headers().get(name) {
-                let _ = headers.push(name, value);
-            }
-        }
-        let status = StatusLine::new(503, "Service Unavailable").ok()?;
-        let synthetic = Response::new(status, headers, Bytes::new()).ok()?;
+        let synthetic = self.branch_response(branch_id, 503, "Service Unavailable")?;
 
         warn!(
             branch_id,
-- 
2.43.0


From 1c74e42cbe6d48d54d1ac45c0b38a7b890bc9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 139/176] fix: a 6xx cancels the other branches on the wire

---
 crates/sip-proxy/src/service.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 6137df8..756191b 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -178,9 +178,9 @@ impl ProxyService {
     ) -> ProxyActions {
         let forward = context.process_response(branch_id, response).await;
 
-        // Build CANCELs for losing branches if we have a winning 2xx
+        // Build CANCELs for losing branches if we have a winning 2xx or a 6xx
         let cancels = if let Some(ref resp) = forward {
-            if resp.code() >= 200 && resp.code() < 300 {
+            if matches!(resp.code(), 200..=299 | 600..=699) {
                 let cancel_template = build_cancel_template(
                     &context.original_request,
                     context.proxy_host.as_str(),
-- 
2.43.0


From fd6d76d3e7dee8b5e0aa92a929609da0dfad6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 140/176] fix: the CANCEL of a branch has one Via and requires
 nothing

---
 crates/sip-proxy/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 756191b..382595c 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -211,6 +211,10 @@ fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str)
     let mut headers = original.headers().clone();
     headers.remove("Content-Type");
     headers.remove("Content-Length");
+    // RFC 3261 §9.1: a single Via, and nothing the recipient must support.
+    headers.remove("Via");
+    headers.remove("Require");
+    headers.remove("Proxy-Require");
     let mut cancel = Request::new(
         RequestLine::new(Method::Cancel, original.uri().clone()),
         headers,
@@ -223,7 +227,7 @@ fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str)
 
     // Update CSeq to CANCEL with same sequence number
     if let Some(cseq_val) = cancel.headers().get("CSeq").map(|val| val.to_string()) {
-        if let Some((num, _)) = cseq_val.split_once(' ') {
+        if let Some(num) = cseq_val.split_whitespace().next() {
             let _ = cancel
                 .headers_mut()
                 .set_or_push("CSeq", format!("{} CANCEL", num));
-- 
2.43.0


From 7fc77c0aedce268a7cb62e30b0dfede416d36c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 141/176] fix: a request that may not be forwarded any further
 is refused, not dropped

---
 crates/sip-proxy/src/service.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 382595c..24bd925 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -141,15 +141,17 @@ impl ProxyService {
             ordered_targets.truncate(1);
         }
 
+        let mut refused = None;
         for target in ordered_targets {
-            if let Ok((request, branch)) = forwarding::prepare_forward(
+            let prepared = forwarding::prepare_forward(
                 &original,
                 &target.uri,
                 proxy_host,
                 transport,
                 add_record_route,
                 proxy_uri,
-            ) {
+            );
+            if let Ok((request, branch)) = prepared {
                 let branch_info = BranchInfo::new(
                     branch.clone(),
                     target.uri.clone(),
@@ -163,9 +165,18 @@ impl ProxyService {
                     .add_branch(branch_info)
                     .await
                     .map_err(|e| anyhow!(e))?;
+            } else {
+                refused = prepared.err();
             }
         }
 
+        // Nothing would ever answer a request that no branch forwards: the
+        // caller has to (with 483 when Max-Forwards is exhausted).
+        if let (true, Some(reason)) = (forwarded.is_empty(), refused) {
+            self.proxy.remove_context(context.client_branch());
+            return Err(reason);
+        }
+
         Ok((context, response_rx, forwarded))
     }
 
-- 
2.43.0


From 302135b42c8b1e394e2362b9c580513b389fb964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 142/176] fix: the topmost Via value gives the branch, in a
 list as well

---
 crates/sip-proxy/src/lib.rs     |  4 ++--
 crates/sip-proxy/src/service.rs | 24 ++++++++----------------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 2b599c9..f4257a7 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -88,7 +88,7 @@ fn compute_loop_branch(request: &Request, proxy_host: &str) -> String {
 }
 
 /// All Via values of a message, wherever they are split into fields.
-fn via_values(headers: &Headers) -> impl Iterator<Item = &str> {
+pub(crate) fn via_values(headers: &Headers) -> impl Iterator<Item = &str> {
     headers
         .iter()
         .filter(|h| h.name().eq_ignore_ascii_case("Via") || h.name().eq_ignore_ascii_case("v"))
@@ -158,7 +158,7 @@ pub(crate) fn split_list(value: &str) -> impl Iterator<Item = &str> {
 }
 
 /// Extracts the `branch` parameter from a Via header value, if any.
-fn extract_via_branch(value: &str) -> Option<&str> {
+pub(crate) fn extract_via_branch(value: &str) -> Option<&str> {
     value
         .split(';')
         .skip(1)
diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 24bd925..e09f257 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -3,10 +3,11 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use crate::{
+    extract_via_branch,
     stateful::{
         forwarding, BranchInfo, BranchState, ForkMode, ProxyContext, ProxyTarget, StatefulProxy,
     },
-    ProxyHelpers,
+    via_values, ProxyHelpers,
 };
 use anyhow::{anyhow, Result};
 use sip_core::{is_valid_branch, Method, Request, RequestLine, SipUri};
@@ -249,22 +250,13 @@ fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str)
 }
 
 fn extract_top_via_branch(request: &Request) -> Result<SmolStr> {
-    let via = request
-        .headers()
-        .iter()
-        .find(|h| h.name().eq_ignore_ascii_case("Via"))
+    let via = via_values(request.headers())
+        .next()
         .ok_or_else(|| anyhow!("Missing Via header"))?;
 
-    for part in via.value().split(';') {
-        let trimmed = part.trim();
-        if trimmed.len() >= 7 && trimmed[..7].eq_ignore_ascii_case("branch=") {
-            let branch = &trimmed[7..];
-            if is_valid_branch(branch) {
-                return Ok(SmolStr::new(branch));
-            }
-            return Err(anyhow!("Invalid Via branch parameter"));
-        }
+    match extract_via_branch(via) {
+        Some(branch) if is_valid_branch(branch) => Ok(SmolStr::new(branch)),
+        Some(_) => Err(anyhow!("Invalid Via branch parameter")),
+        None => Err(anyhow!("Via header missing branch parameter")),
     }
-
-    Err(anyhow!("Via header missing branch parameter"))
 }
-- 
2.43.0


From 3c1a5f560c1a61c3ea3ccca7e7b12b0f0075d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 143/176] fix: in-dialog requests are from the dialog's local
 URI

---
 crates/sip-uac/src/lib.rs | 58 ++++++++-------------------------------
 1 file changed, 11 insertions(+), 47 deletions(-)

diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index bdda6d6..48d2652 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -1397,20 +1397,8 @@ impl UserAgentClient {
             .unwrap();
 
         // From (with local tag)
-        let from = if let Some(ref display) = self.display_name {
-            format!(
-                "\"{}\" <{}>;tag={}",
-                display,
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        } else {
-            format!(
-                "<{}>;tag={}",
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        };
+        let from =
+            self.format_from_header_tagged(Some(dialog.local_uri()), dialog.id().local_tag());
         headers
             .push(SmolStr::new("From"), SmolStr::new(from))
             .unwrap();
@@ -1509,20 +1497,8 @@ impl UserAgentClient {
             .unwrap();
 
         // From (with local tag)
-        let from = if let Some(ref display) = self.display_name {
-            format!(
-                "\"{}\" <{}>;tag={}",
-                display,
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        } else {
-            format!(
-                "<{}>;tag={}",
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        };
+        let from =
+            self.format_from_header_tagged(Some(dialog.local_uri()), dialog.id().local_tag());
         headers
             .push(SmolStr::new("From"), SmolStr::new(from))
             .unwrap();
@@ -1810,7 +1786,7 @@ impl UserAgentClient {
         // From (with local tag)
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            dialog.local_uri().as_str(),
             dialog.id().local_tag()
         );
         headers
@@ -2208,20 +2184,8 @@ impl UserAgentClient {
             .unwrap();
 
         // From (with local tag)
-        let from = if let Some(ref display) = self.display_name {
-            format!(
-                "\"{}\" <{}>;tag={}",
-                display,
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        } else {
-            format!(
-                "<{}>;tag={}",
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        };
+        let from =
+            self.format_from_header_tagged(Some(dialog.local_uri()), dialog.id().local_tag());
         headers
             .push(SmolStr::new("From"), SmolStr::new(from))
             .unwrap();
@@ -2477,7 +2441,7 @@ impl UserAgentClient {
         // From
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            subscription.local_uri().as_str(),
             subscription.id().to_tag()
         );
         headers
@@ -2690,7 +2654,7 @@ impl UserAgentClient {
         // From
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            subscription.local_uri().as_str(),
             subscription.id().to_tag()
         );
         headers
@@ -2804,7 +2768,7 @@ impl UserAgentClient {
         // From (with local tag from dialog)
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            dialog.local_uri().as_str(),
             dialog.id().local_tag()
         );
         headers
@@ -2918,7 +2882,7 @@ impl UserAgentClient {
         // From (with local tag from dialog)
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            dialog.local_uri().as_str(),
             dialog.id().local_tag()
         );
         headers
-- 
2.43.0


From ae8278d6a053c9fdad2b931844b6697eacb1b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 144/176] fix: a response without CSeq still refreshes the
 remote target

---
 crates/sip-dialog/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 0eb33bb..f1a3564 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -596,7 +596,7 @@ impl Dialog {
             200..=299 => true,
             _ => false,
         };
-        if refreshes_target && is_target_refresh(cseq_method(resp.headers())) {
+        if refreshes_target && cseq_method(resp.headers()).is_none_or(is_target_refresh) {
             if let Some(contact) = extract_contact_uri(resp.headers()) {
                 self.remote_target = contact;
             }
@@ -692,7 +692,7 @@ impl Dialog {
         }
 
         // Update remote target from Contact
-        if is_target_refresh(Some(req.method().as_str())) {
+        if is_target_refresh(req.method().as_str()) {
             if let Some(contact) = extract_contact_uri(req.headers()) {
                 self.remote_target = contact;
             }
@@ -1353,10 +1353,10 @@ fn cseq_method(headers: &Headers) -> Option<&str> {
 
 /// Whether requests of this method refresh the remote target of their dialog
 /// (RFC 3261 §12.2, RFC 3311, RFC 3515, RFC 6665).
-fn is_target_refresh(method: Option<&str>) -> bool {
+fn is_target_refresh(method: &str) -> bool {
     matches!(
         method,
-        Some("INVITE" | "UPDATE" | "SUBSCRIBE" | "NOTIFY" | "REFER")
+        "INVITE" | "UPDATE" | "SUBSCRIBE" | "NOTIFY" | "REFER"
     )
 }
 
-- 
2.43.0


From f8a249c508779aefbbdb6076ae80e3719b4fab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 145/176] fix: an unfinished quoted string in a challenge does
 not panic

---
 crates/sip-uac/src/auth_utils.rs | 16 +++++++++-------
 crates/sip-uac/src/lib.rs        |  7 +------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/crates/sip-uac/src/auth_utils.rs b/crates/sip-uac/src/auth_utils.rs
index 94de843..477e815 100644
--- a/crates/sip-uac/src/auth_utils.rs
+++ b/crates/sip-uac/src/auth_utils.rs
@@ -4,6 +4,14 @@
 
 use sip_core::Response;
 
+/// Removes the quotes around a parameter value, if it has any.
+pub(crate) fn unquote(value: &str) -> &str {
+    value
+        .strip_prefix('"')
+        .and_then(|v| v.strip_suffix('"'))
+        .unwrap_or(value)
+}
+
 /// Extract realm value from WWW-Authenticate/Proxy-Authenticate headers.
 pub fn extract_realm(response: &Response) -> Option<String> {
     let header_val = response
@@ -23,13 +31,7 @@ pub fn extract_realm(response: &Response) -> Option<String> {
             .trim_start();
         let (key, value) = trimmed.split_once('=')?;
         if key.trim().eq_ignore_ascii_case("realm") {
-            let value = value.trim();
-            let value = if value.starts_with('"') && value.ends_with('"') {
-                &value[1..value.len() - 1]
-            } else {
-                value
-            };
-            Some(value.to_string())
+            Some(unquote(value.trim()).to_string())
         } else {
             None
         }
diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 48d2652..c96260c 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -3392,12 +3392,7 @@ fn parse_www_authenticate(value: &SmolStr) -> Result<std::collections::HashMap<S
             let value = trimmed[eq_pos + 1..].trim();
 
             // Remove quotes if present
-            let value = if value.starts_with('"') && value.ends_with('"') {
-                value[1..value.len() - 1].to_string()
-            } else {
-                value.to_string()
-            };
-
+            let value = auth_utils::unquote(value).to_string();
             map.insert(key, value);
             param_count += 1;
         }
-- 
2.43.0


From 5d0a4bc22e3a057904babaf8593a489164ee5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 146/176] fix: user agents read From and To URIs past quoted
 display names

---
 crates/sip-dialog/src/lib.rs     |  2 +-
 crates/sip-uac/src/integrated.rs | 11 +----------
 crates/sip-uac/src/lib.rs        | 29 ++---------------------------
 crates/sip-uas/src/lib.rs        | 19 ++-----------------
 4 files changed, 6 insertions(+), 55 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index f1a3564..6c1362b 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1373,7 +1373,7 @@ fn extract_session_timer(resp: &Response) -> (Option<Duration>, Option<Refresher
 }
 
 /// Parses URI from header value (handles angle brackets).
-fn parse_uri_from_header(raw: &str) -> Option<SipUri> {
+pub fn parse_uri_from_header(raw: &str) -> Option<SipUri> {
     let trimmed = raw.trim();
     let uri_part = match address_start(trimmed) {
         Some(start) if trimmed[start..].starts_with('<') => {
diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 2e7d8b2..770678d 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -381,16 +381,7 @@ fn build_via_value(
 /// `UserAgentClient::dialog_local_uri` for why the configured identity
 /// is the wrong source (siphon-ai #549).
 fn request_from_uri(request: &Request) -> Option<SipUri> {
-    let from = request.headers().get_smol("From")?;
-    let uri_str = if let Some(start) = from.find('<') {
-        let end = from[start + 1..].find('>')?;
-        &from[start + 1..start + 1 + end]
-    } else if let Some(semi) = from.find(';') {
-        &from[..semi]
-    } else {
-        from.as_str()
-    };
-    SipUri::parse(uri_str.trim()).ok()
+    sip_dialog::parse_uri_from_header(request.headers().get("From")?)
 }
 
 fn request_from_tag(request: &Request) -> SmolStr {
diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index c96260c..4707e7b 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -3478,36 +3478,11 @@ fn dialog_local_uri(request: &Request, configured: &SipUri) -> SipUri {
 
 /// Extract the From URI from a request. Mirrors [`extract_to_uri`].
 fn extract_from_uri(request: &Request) -> Option<SipUri> {
-    let from_header = header(request.headers(), "From")?;
-    let uri_str = if let Some(start) = from_header.find('<') {
-        let end = from_header[start + 1..].find('>')?;
-        &from_header[start + 1..start + 1 + end]
-    } else if let Some(semi) = from_header.find(';') {
-        &from_header[..semi]
-    } else {
-        from_header
-    };
-    SipUri::parse(uri_str.trim()).ok()
+    sip_dialog::parse_uri_from_header(header(request.headers(), "From")?)
 }
 
 fn extract_to_uri(response: &Response) -> Option<SipUri> {
-    let to_header = header(response.headers(), "To")?;
-    // Simple extraction - look for URI between < >
-    let uri_str = if let Some(start) = to_header.find('<') {
-        {
-            let end = to_header[start + 1..].find('>')?;
-            &to_header[start + 1..start + 1 + end]
-        }
-    } else {
-        // No brackets, take until semicolon or end
-        if let Some(semi) = to_header.find(';') {
-            &to_header[..semi]
-        } else {
-            to_header.as_str()
-        }
-    };
-
-    SipUri::parse(uri_str.trim()).ok()
+    sip_dialog::parse_uri_from_header(header(response.headers(), "To")?)
 }
 
 #[cfg(test)]
diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 955cfbb..75dd3f5 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -1551,23 +1551,8 @@ fn extract_from_uri(request: &Request) -> Result<SipUri> {
     let from_header =
         header(request.headers(), "From").ok_or_else(|| anyhow!("Missing From header"))?;
 
-    // Simple extraction - look for URI between < >
-    let uri_str = if let Some(start) = from_header.find('<') {
-        if let Some(end) = from_header[start + 1..].find('>') {
-            &from_header[start + 1..start + 1 + end]
-        } else {
-            return Err(anyhow!("Malformed From header"));
-        }
-    } else {
-        // No brackets, take until semicolon or end
-        if let Some(semi) = from_header.find(';') {
-            &from_header[..semi]
-        } else {
-            from_header
-        }
-    };
-
-    SipUri::parse(uri_str.trim()).map_err(|_| anyhow!("Failed to parse From URI"))
+    sip_dialog::parse_uri_from_header(from_header)
+        .ok_or_else(|| anyhow!("Failed to parse From URI"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4250c5b3fd0f402112933112c0fd5fe768110675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 147/176] fix: a To tag is told from what looks like one in the
 URI or display name

---
 crates/sip-uas/src/lib.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 75dd3f5..4823b60 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -1446,14 +1446,7 @@ fn deterministic_counter() -> Option<u64> {
 
 /// Extracts tag parameter from From/To header value.
 fn extract_tag_param(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
-        let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
-        }
-    })
+    sip_dialog::extract_tag(value)
 }
 
 /// Builds a stable dialog key for PRACK tracking.
@@ -1502,14 +1495,19 @@ fn replace_to_tag(response: &mut Response, tag: &str) {
     let Some(to) = to_value else {
         return;
     };
-    // Strip any existing `;tag=...` (up to the next `;` or end).
-    let stripped = if let Some(idx) = to.find(";tag=") {
-        let after = &to[idx + 5..];
-        let end_off = after.find(';').map(|p| idx + 5 + p).unwrap_or(to.len());
-        format!("{}{}", &to[..idx], &to[end_off..])
-    } else {
-        to.to_string()
-    };
+    // Strip any existing tag from the header parameters, which follow the
+    // bracketed URI or else the first ';'.
+    let params = to
+        .rfind('>')
+        .map_or_else(|| to.find(';').unwrap_or(to.len()), |end| end + 1);
+    let mut stripped = to[..params].to_string();
+    for param in to[params..].split(';').skip(1) {
+        let name = param.split('=').next().unwrap_or(param);
+        if !name.trim().eq_ignore_ascii_case("tag") {
+            stripped.push(';');
+            stripped.push_str(param);
+        }
+    }
     let new_to = format!("{};tag={}", stripped, tag);
     response
         .headers_mut()
@@ -1526,7 +1524,7 @@ fn ensure_to_tag_header(response: &mut Response) {
     for header in response.headers().iter() {
         if header.name() == "To" {
             to_value = Some(header.value_smol().clone());
-            has_tag = header.value().contains(";tag=");
+            has_tag = extract_tag_param(header.value_smol()).is_some();
             break;
         }
     }
-- 
2.43.0


From b81f63ac2e14ead6c112df6eb40db2abc70ad947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 148/176] fix: a challenged request answers a challenge it can,
 and replaces earlier credentials

---
 crates/sip-uac/src/lib.rs | 54 +++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 4707e7b..c91f146 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -885,14 +885,34 @@ impl UserAgentClient {
             "WWW-Authenticate"
         };
 
-        // Parse challenge
-        let auth_header = challenge_response
-            .headers()
-            .get_smol(auth_header_name)
-            .ok_or_else(|| anyhow!("Missing {} header", auth_header_name))?;
-
-        let challenge = parse_www_authenticate(auth_header)?;
-
+        // Parse the challenges and take the first that can be answered
+        // (RFC 7616 §3.7): others may be of another scheme or use another
+        // algorithm.
+        let mut unanswerable = anyhow!("Missing {} header", auth_header_name);
+        let mut answerable = None;
+        for auth_header in challenge_response.headers().get_all_smol(auth_header_name) {
+            match parse_www_authenticate(auth_header) {
+                Ok(challenge)
+                    if challenge
+                        .get("algorithm")
+                        .is_some_and(|a| DigestAlgorithm::parse(a).is_none()) =>
+                {
+                    unanswerable = anyhow!("Unsupported algorithm in challenge");
+                }
+                Ok(challenge) if !challenge.contains_key("realm") => {
+                    unanswerable = anyhow!("Missing realm in challenge");
+                }
+                Ok(challenge) if !challenge.contains_key("nonce") => {
+                    unanswerable = anyhow!("Missing nonce in challenge");
+                }
+                Ok(challenge) => {
+                    answerable = Some(challenge);
+                    break;
+                }
+                Err(error) => unanswerable = error,
+            }
+        }
+        let challenge = answerable.ok_or(unanswerable)?;
         // Extract challenge parameters
         let realm = challenge
             .get("realm")
@@ -908,9 +928,10 @@ impl UserAgentClient {
 
         let qop = challenge.get("qop").and_then(|q| {
             // qop might be "auth,auth-int" - take the first supported one
-            if q.contains("auth-int") {
+            let offers = |qop: &str| q.split(',').any(|q| q.trim().eq_ignore_ascii_case(qop));
+            if offers("auth-int") {
                 Some(Qop::AuthInt)
-            } else if q.contains("auth") {
+            } else if offers("auth") {
                 Some(Qop::Auth)
             } else {
                 None
@@ -952,8 +973,7 @@ impl UserAgentClient {
                     .unwrap();
             } else if header.name() == "CSeq" && !cseq_incremented {
                 if let Some((num, method)) = header.value().split_once(' ') {
-                    if let Ok(mut cseq_num) = num.parse::<u32>() {
-                        cseq_num += 1;
+                    if let Some(cseq_num) = num.parse::<u32>().ok().and_then(|n| n.checked_add(1)) {
                         new_headers
                             .push(
                                 SmolStr::new("CSeq"),
@@ -968,6 +988,12 @@ impl UserAgentClient {
                 new_headers
                     .push(header.name_smol().clone(), header.value_smol().clone())
                     .unwrap();
+            } else if header.name().eq_ignore_ascii_case(response_header_name)
+                && parse_www_authenticate(header.value_smol())
+                    .is_ok_and(|old| old.get("realm") == Some(realm))
+            {
+                // Credentials an earlier challenge of the realm asked for:
+                // the new ones take their place.
             } else {
                 new_headers
                     .push(header.name_smol().clone(), header.value_smol().clone())
@@ -978,7 +1004,7 @@ impl UserAgentClient {
         // Add authorization header
         new_headers
             .push(SmolStr::new(response_header_name), SmolStr::new(auth_value))
-            .unwrap();
+            .map_err(|e| anyhow!("cannot add {}: {}", response_header_name, e))?;
 
         let new_request = Request::new(
             original_request.start_line().clone(),
@@ -3388,7 +3414,7 @@ fn parse_www_authenticate(value: &SmolStr) -> Result<std::collections::HashMap<S
             .unwrap_or(trimmed)
             .trim_start();
         if let Some(eq_pos) = trimmed.find('=') {
-            let key = trimmed[..eq_pos].trim().to_string();
+            let key = trimmed[..eq_pos].trim().to_ascii_lowercase();
             let value = trimmed[eq_pos + 1..].trim();
 
             // Remove quotes if present
-- 
2.43.0


From ea68354294a6bd750d40bfc1aa3d263d2ea5148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 149/176] fix: responding to a request at the header limits
 does not panic

---
 crates/sip-uas/src/lib.rs | 48 +++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 4823b60..707d513 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -286,9 +286,7 @@ impl UserAgentServer {
         let mut headers = Headers::new();
 
         // Copy Via, From, Call-ID, CSeq from request
-        for via in request.headers().get_all_smol("Via") {
-            headers.push(SmolStr::new("Via"), via).unwrap();
-        }
+        copy_values(request, &mut headers, "Via");
         if let Some(from) = request.headers().get("From") {
             headers.push(SmolStr::new("From"), from).unwrap();
         }
@@ -314,9 +312,7 @@ impl UserAgentServer {
         // into Record-Route. Copying unconditionally here matches
         // how Via/From/To/Call-ID/CSeq are handled and is harmless
         // for non-dialog responses (where Record-Route is ignored).
-        for rr in request.headers().get_all_smol("Record-Route") {
-            headers.push(SmolStr::new("Record-Route"), rr).unwrap();
-        }
+        copy_values(request, &mut headers, "Record-Route");
 
         // Content-Length
         headers
@@ -1484,6 +1480,32 @@ fn validate_dialog_request(request: &Request, dialog: &Dialog) -> Result<()> {
 /// must match the `PrackValidator` registration key per RFC 3262 §3
 /// and RFC 3261 §12.1.1). For the common "add a fresh tag if missing"
 /// case, use [`ensure_to_tag_header`] instead.
+/// Header fields a request may have before a response to it lists the
+/// values it copies in as few fields as it can, so that it has room for its
+/// own.
+const MAX_FIELDS_COPIED_AS_THEY_ARE: usize = 150;
+
+/// Length up to which values are joined in one field.
+const MAX_JOINED_LENGTH: usize = 4096;
+
+/// Copies the values of the named request header field, in order.
+fn copy_values(request: &Request, headers: &mut Headers, name: &str) {
+    let join = request.headers().len() > MAX_FIELDS_COPIED_AS_THEY_ARE;
+    let mut fields: Vec<String> = Vec::new();
+    for value in request.headers().get_all(name) {
+        match fields.last_mut() {
+            Some(last) if join && last.len() + value.len() + 2 <= MAX_JOINED_LENGTH => {
+                last.push_str(", ");
+                last.push_str(value);
+            }
+            _ => fields.push(value.to_string()),
+        }
+    }
+    for field in fields {
+        headers.push(name, field).unwrap();
+    }
+}
+
 fn replace_to_tag(response: &mut Response, tag: &str) {
     let to_value = response.headers().iter().find_map(|h| {
         if h.name() == "To" {
@@ -1509,10 +1531,9 @@ fn replace_to_tag(response: &mut Response, tag: &str) {
         }
     }
     let new_to = format!("{};tag={}", stripped, tag);
-    response
-        .headers_mut()
-        .set_or_push("To", &new_to)
-        .expect("to header should be valid");
+    if response.headers_mut().set_or_push("To", &new_to).is_err() {
+        tracing::warn!("To header has no room for the dialog's tag");
+    }
 }
 
 /// Adds a tag to the To header if not already present.
@@ -1536,10 +1557,9 @@ fn ensure_to_tag_header(response: &mut Response) {
             let new_to = format!("{};tag={}", to.as_str(), tag.as_str());
 
             // Replace To header
-            response
-                .headers_mut()
-                .set_or_push("To", &new_to)
-                .expect("to header should be valid");
+            if response.headers_mut().set_or_push("To", &new_to).is_err() {
+                tracing::warn!("To header has no room for a tag");
+            }
         }
     }
 }
-- 
2.43.0


From 696b50213f9465f06bd7980e5e73bdbf7843b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 150/176] fix: a PRACK has its dialog's route set and next
 CSeq, and a real Via

---
 crates/sip-uac/src/integrated.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 770678d..e592406 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -3668,10 +3668,30 @@ impl ClientTransactionUser for InviteTransactionUser {
         let helper = self.helper.lock().await;
         let dialog = helper.process_invite_response(&self.request, &response);
 
-        if let Some(dialog) = dialog {
+        if let Some(mut dialog) = dialog {
             // Create PRACK
             match helper.create_prack(&self.request, &response, &dialog) {
-                Ok(prack) => {
+                Ok(mut prack) => {
+                    // It is a request within the early dialog: it follows the
+                    // route set, and the requests after it have higher CSeqs.
+                    prepare_in_dialog_request(&mut dialog, &mut prack);
+                    let _ = helper.dialog_manager.insert(dialog.clone());
+                    if let Some(early) = self
+                        .early_dialogs
+                        .lock()
+                        .await
+                        .get_mut(dialog.id().remote_tag())
+                    {
+                        *early = dialog.clone();
+                    }
+                    // The addresses are those the INVITE went out with.
+                    if let Some(via) = self.request.headers().get("Via") {
+                        let via = crate::replace_via_branch(via, &crate::generate_branch());
+                        let _ = prack.headers_mut().set_or_push("Via", via);
+                    }
+                    if let Some(contact) = self.request.headers().get("Contact") {
+                        let _ = prack.headers_mut().set_or_push("Contact", contact);
+                    }
                     drop(helper);
 
                     // PRACK is a non-INVITE client transaction (RFC 3262)
-- 
2.43.0


From 95792f88b00117ac4b62a7c54d0279a5e2be4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 151/176] fix: a 407 is answered with the credentials of the
 realm it names

---
 crates/sip-uac/src/auth_utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-uac/src/auth_utils.rs b/crates/sip-uac/src/auth_utils.rs
index 477e815..62ef1e8 100644
--- a/crates/sip-uac/src/auth_utils.rs
+++ b/crates/sip-uac/src/auth_utils.rs
@@ -14,10 +14,15 @@ pub(crate) fn unquote(value: &str) -> &str {
 
 /// Extract realm value from WWW-Authenticate/Proxy-Authenticate headers.
 pub fn extract_realm(response: &Response) -> Option<String> {
+    let (first, second) = if response.code() == 407 {
+        ("Proxy-Authenticate", "WWW-Authenticate")
+    } else {
+        ("WWW-Authenticate", "Proxy-Authenticate")
+    };
     let header_val = response
         .headers()
-        .get("WWW-Authenticate")
-        .or_else(|| response.headers().get("Proxy-Authenticate"))?;
+        .get(first)
+        .or_else(|| response.headers().get(second))?;
     let header = header_val.trim();
     let header_lower = header.to_ascii_lowercase();
     let digest_pos = header_lower.find("digest")?;
-- 
2.43.0


From 502e8e6ea3a10de79a4df9d73bf6cef225c0e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 152/176] fix: the local URI of an answered dialog is the
 request's To URI

---
 crates/sip-uas/src/lib.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 707d513..1d814ab 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -638,8 +638,13 @@ impl UserAgentServer {
         let response = response?;
 
         // Create dialog
-        let dialog = Dialog::new_uas(request, &response, self.local_uri.clone(), remote_uri)
-            .ok_or_else(|| anyhow!("Failed to create dialog"))?;
+        let dialog = Dialog::new_uas(
+            request,
+            &response,
+            self.dialog_local_uri(request),
+            remote_uri,
+        )
+        .ok_or_else(|| anyhow!("Failed to create dialog"))?;
 
         info!(
             call_id = %dialog.id().call_id(),
@@ -771,8 +776,13 @@ impl UserAgentServer {
 
         // Dialog construction mirrors `accept_invite`.
         let remote_uri = extract_from_uri(request)?;
-        let dialog = Dialog::new_uas(request, &response, self.local_uri.clone(), remote_uri)
-            .ok_or_else(|| anyhow!("Failed to create dialog"))?;
+        let dialog = Dialog::new_uas(
+            request,
+            &response,
+            self.dialog_local_uri(request),
+            remote_uri,
+        )
+        .ok_or_else(|| anyhow!("Failed to create dialog"))?;
 
         info!(
             call_id = %dialog.id().call_id(),
@@ -984,9 +994,13 @@ impl UserAgentServer {
         let remote_uri = extract_from_uri(request)?;
 
         // Create subscription
-        let subscription =
-            Subscription::new_notifier(request, &response, self.local_uri.clone(), remote_uri)
-                .ok_or_else(|| anyhow!("Failed to create subscription"))?;
+        let subscription = Subscription::new_notifier(
+            request,
+            &response,
+            self.dialog_local_uri(request),
+            remote_uri,
+        )
+        .ok_or_else(|| anyhow!("Failed to create subscription"))?;
 
         info!(
             call_id = %subscription.id().call_id(),
@@ -1048,7 +1062,7 @@ impl UserAgentServer {
         // From (we are the notifier, so use local URI with To tag from subscription)
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            subscription.local_uri().as_str(),
             subscription.id().to_tag()
         );
         headers
@@ -1356,6 +1370,15 @@ impl UserAgentServer {
             .map_err(|e| anyhow::anyhow!("{}", e))
     }
 
+    /// The local URI of a dialog this UAS answers: the request's To URI
+    /// (RFC 3261 §12.1.1), or the configured identity when it has none that
+    /// can be read.
+    fn dialog_local_uri(&self, request: &Request) -> SipUri {
+        header(request.headers(), "To")
+            .and_then(|to| sip_dialog::parse_uri_from_header(to))
+            .unwrap_or_else(|| self.local_uri.clone())
+    }
+
     /// Adds a tag to the To header if not already present.
     fn ensure_to_tag(&self, response: &mut Response) {
         ensure_to_tag_header(response);
-- 
2.43.0


From 7fa7b60c2e6952744dd832a2ae2ed6fb452804bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 153/176] fix: a subscription's local URI is the request's From
 URI

---
 crates/sip-uac/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index c91f146..56625cc 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -2422,7 +2422,7 @@ impl UserAgentClient {
         let subscription = Subscription::new_subscriber(
             request,
             response,
-            self.local_uri.clone(),
+            dialog_local_uri(request, &self.local_uri),
             extract_to_uri(response)?,
         )?;
 
-- 
2.43.0


From 3ac3c3349985e1efad11b5181eeb2e0f1344608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 154/176] fix: a quoted quote does not end a challenge
 parameter

---
 crates/sip-uac/src/auth_utils.rs | 3 +++
 crates/sip-uac/src/lib.rs        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crates/sip-uac/src/auth_utils.rs b/crates/sip-uac/src/auth_utils.rs
index 62ef1e8..8628969 100644
--- a/crates/sip-uac/src/auth_utils.rs
+++ b/crates/sip-uac/src/auth_utils.rs
@@ -46,10 +46,13 @@ pub fn extract_realm(response: &Response) -> Option<String> {
 fn split_auth_params(input: &str) -> Vec<&str> {
     let mut parts = Vec::new();
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut start = 0;
 
     for (idx, ch) in input.char_indices() {
         match ch {
+            _ if escaped => escaped = false,
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             ',' if !in_quotes => {
                 let part = input[start..idx].trim();
diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 56625cc..778fd75 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -3430,10 +3430,13 @@ fn parse_www_authenticate(value: &SmolStr) -> Result<std::collections::HashMap<S
 fn split_auth_params(input: &str) -> Vec<&str> {
     let mut parts = Vec::new();
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut start = 0;
 
     for (idx, ch) in input.char_indices() {
         match ch {
+            _ if escaped => escaped = false,
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             ',' if !in_quotes => {
                 let part = input[start..idx].trim();
-- 
2.43.0


From d262dca607a093f34a5aad982a62cd2f5a05b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 155/176] fix: digest credentials of another realm are not the
 ones to verify

---
 crates/sip-auth/src/lib.rs | 47 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index eaa6361..1a2e80a 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -37,7 +37,7 @@ use bytes::Bytes;
 use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sha2::{Digest, Sha256, Sha512};
-use sip_core::{Headers, Method, Request, Response, StatusLine};
+use sip_core::{AuthorizationHeader, Headers, Method, Request, Response, StatusLine};
 use sip_parse::{parse_authorization_header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
@@ -913,26 +913,11 @@ impl<S> DigestAuthenticator<S> {
             }
         }
 
-        let header_name = if self.proxy_auth {
-            "Proxy-Authorization"
-        } else {
-            "Authorization"
-        };
-
-        let auth_header = match headers.get_smol(header_name) {
-            Some(h) => h,
-            None => return Ok(None),
-        };
-
-        let parsed = match parse_authorization_header(auth_header) {
+        let parsed = match self.presented_credentials(headers) {
             Some(p) => p,
             None => return Ok(None),
         };
 
-        if !parsed.scheme().eq_ignore_ascii_case("Digest") {
-            return Ok(None);
-        }
-
         let username = parsed
             .param("username")
             .ok_or_else(|| anyhow!("missing username"))?;
@@ -1155,17 +1140,33 @@ impl<S> DigestAuthenticator<S> {
     }
 
     fn presented_param(&self, request: &Request, name: &str) -> Option<SmolStr> {
+        self.presented_credentials(request.headers())?
+            .param(name)
+            .cloned()
+    }
+
+    /// The Digest credentials meant for this authenticator: those of its
+    /// realm, as a request may carry others for other realms
+    /// (RFC 3261 §22.3), or else the first.
+    fn presented_credentials(&self, headers: &Headers) -> Option<AuthorizationHeader> {
         let header_name = if self.proxy_auth {
             "Proxy-Authorization"
         } else {
             "Authorization"
         };
-        let raw = request.headers().get_smol(header_name)?;
-        let parsed = parse_authorization_header(raw)?;
-        if !parsed.scheme().eq_ignore_ascii_case("Digest") {
-            return None;
-        }
-        parsed.param(name).cloned()
+        let digest = |raw| {
+            parse_authorization_header(raw)
+                .filter(|parsed| parsed.scheme().eq_ignore_ascii_case("Digest"))
+        };
+        headers
+            .get_all_smol(header_name)
+            .filter_map(digest)
+            .find(|parsed| {
+                parsed
+                    .param("realm")
+                    .is_some_and(|r| r == self.realm.as_str())
+            })
+            .or_else(|| digest(headers.get_smol(header_name)?))
     }
 
     /// Issues a challenge response with stale=true (RFC 7616 §3.5).
-- 
2.43.0


From dd8963730ccca2bff78fe40d108ce128fd82b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 156/176] fix: a reliable provisional has one To tag, whatever
 the To parameters

---
 crates/sip-uas/src/lib.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 1d814ab..5ceca6e 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -1542,11 +1542,28 @@ fn replace_to_tag(response: &mut Response, tag: &str) {
     };
     // Strip any existing tag from the header parameters, which follow the
     // bracketed URI or else the first ';'.
-    let params = to
-        .rfind('>')
-        .map_or_else(|| to.find(';').unwrap_or(to.len()), |end| end + 1);
+    let (mut quoted, mut escaped, mut in_uri) = (false, false, false);
+    let mut after_uri = None;
+    let mut ends = Vec::new();
+    for (i, c) in to.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '"' if !in_uri => quoted = !quoted,
+            '<' if !quoted => in_uri = true,
+            '>' if in_uri => {
+                in_uri = false;
+                after_uri = after_uri.or(Some(i + 1));
+            }
+            ';' if !quoted && !in_uri => ends.push(i),
+            _ => {}
+        }
+    }
+    ends.push(to.len());
+    let params = after_uri.unwrap_or(ends[0]);
     let mut stripped = to[..params].to_string();
-    for param in to[params..].split(';').skip(1) {
+    for bounds in ends.windows(2) {
+        let param = &to[bounds[0] + 1..bounds[1]];
         let name = param.split('=').next().unwrap_or(param);
         if !name.trim().eq_ignore_ascii_case("tag") {
             stripped.push(';');
-- 
2.43.0


From a979f88d69ac1f6b1211262296830d92334e7dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:23 +0000
Subject: [PATCH 157/176] fix: siphond's responses carry every Via value and a
 To tag

---
 bins/siphond/src/dispatcher.rs         | 80 ++---------------------
 bins/siphond/src/handlers/bye.rs       | 88 ++++----------------------
 bins/siphond/src/handlers/cancel.rs    | 50 +--------------
 bins/siphond/src/handlers/invite.rs    | 55 ++--------------
 bins/siphond/src/handlers/notify.rs    | 26 ++------
 bins/siphond/src/handlers/options.rs   | 41 ++----------
 bins/siphond/src/handlers/refer.rs     | 84 +++---------------------
 bins/siphond/src/handlers/register.rs  | 43 ++-----------
 bins/siphond/src/handlers/subscribe.rs | 37 +----------
 bins/siphond/src/invite_state.rs       | 27 ++------
 10 files changed, 53 insertions(+), 478 deletions(-)

diff --git a/bins/siphond/src/dispatcher.rs b/bins/siphond/src/dispatcher.rs
index c85d281..d38c07b 100644
--- a/bins/siphond/src/dispatcher.rs
+++ b/bins/siphond/src/dispatcher.rs
@@ -8,6 +8,7 @@ use std::{collections::HashMap, sync::Arc};
 use sip_auth::Authenticator;
 use sip_core::{Method, Request};
 use sip_transaction::{ServerTransactionHandle, TransportContext};
+use sip_uas::UserAgentServer;
 use tracing::{info, warn};
 
 use crate::{
@@ -146,25 +147,10 @@ impl RequestDispatcher {
     /// this for any hot-path throttle (auth / REGISTER / INVITE) so the
     /// response shape is consistent.
     async fn send_rate_limited(&self, request: &Request, handle: ServerTransactionHandle) {
-        use bytes::Bytes;
-        use sip_core::{Headers, Response, StatusLine};
-        use sip_parse::header;
-
-        let mut headers = Headers::new();
-        for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
-            if let Some(value) = header(request.headers(), name) {
-                let _ = headers.push(name, value.clone());
-            }
-        }
+        let mut response = UserAgentServer::create_response(request, 503, "Service Unavailable");
         // Retry-After gives the peer a cooldown hint. 30s matches the
         // register_preset refill window scale.
-        let _ = headers.push("Retry-After", "30");
-        let response = Response::new(
-            StatusLine::new(503, "Service Unavailable").expect("valid status line"),
-            headers,
-            Bytes::new(),
-        )
-        .expect("valid response");
+        let _ = response.headers_mut().push("Retry-After", "30");
         handle.send_final(response).await;
     }
 
@@ -220,69 +206,13 @@ impl RequestDispatcher {
 
     /// Send 483 Too Many Hops response (RFC 3261 §8.1.1.3)
     async fn send_too_many_hops(&self, request: &Request, handle: ServerTransactionHandle) {
-        use bytes::Bytes;
-        use sip_core::{Headers, Response, StatusLine};
-        use sip_parse::header;
-
-        let mut headers = Headers::new();
-
-        if let Some(via) = header(request.headers(), "Via") {
-            let _ = headers.push("Via", via);
-        }
-        if let Some(from) = header(request.headers(), "From") {
-            let _ = headers.push("From", from);
-        }
-        if let Some(to) = header(request.headers(), "To") {
-            let _ = headers.push("To", to);
-        }
-        if let Some(call_id) = header(request.headers(), "Call-ID") {
-            let _ = headers.push("Call-ID", call_id);
-        }
-        if let Some(cseq) = header(request.headers(), "CSeq") {
-            let _ = headers.push("CSeq", cseq);
-        }
-
-        let response = Response::new(
-            StatusLine::new(483, "Too Many Hops").expect("valid status line"),
-            headers,
-            Bytes::new(),
-        )
-        .expect("valid response");
-
+        let response = UserAgentServer::create_response(request, 483, "Too Many Hops");
         handle.send_final(response).await;
     }
 
     /// Send 501 Not Implemented response
     async fn send_not_implemented(&self, request: &Request, handle: ServerTransactionHandle) {
-        use bytes::Bytes;
-        use sip_core::{Headers, Response, StatusLine};
-        use sip_parse::header;
-
-        let mut headers = Headers::new();
-
-        if let Some(via) = header(request.headers(), "Via") {
-            let _ = headers.push("Via", via);
-        }
-        if let Some(from) = header(request.headers(), "From") {
-            let _ = headers.push("From", from);
-        }
-        if let Some(to) = header(request.headers(), "To") {
-            let _ = headers.push("To", to);
-        }
-        if let Some(call_id) = header(request.headers(), "Call-ID") {
-            let _ = headers.push("Call-ID", call_id);
-        }
-        if let Some(cseq) = header(request.headers(), "CSeq") {
-            let _ = headers.push("CSeq", cseq);
-        }
-
-        let response = Response::new(
-            StatusLine::new(501, "Not Implemented").expect("valid status line"),
-            headers,
-            Bytes::new(),
-        )
-        .expect("valid response");
-
+        let response = UserAgentServer::create_response(request, 501, "Not Implemented");
         handle.send_final(response).await;
     }
 }
diff --git a/bins/siphond/src/handlers/bye.rs b/bins/siphond/src/handlers/bye.rs
index 73e3e6c..5f34e29 100644
--- a/bins/siphond/src/handlers/bye.rs
+++ b/bins/siphond/src/handlers/bye.rs
@@ -368,25 +368,9 @@ impl ByeHandler {
 
             // Call leg not found
             warn!(call_id, "B2BUA: BYE received for unknown call leg");
-            let mut headers = sip_core::Headers::new();
-            copy_headers(request, &mut headers);
-
-            // Try to create and send 481 response, but don't crash if it fails
-            match sip_core::StatusLine::new(481, "Call/Transaction Does Not Exist") {
-                Ok(status_line) => {
-                    match sip_core::Response::new(status_line, headers, bytes::Bytes::new()) {
-                        Ok(response) => {
-                            handle.send_final(response).await;
-                        }
-                        Err(e) => {
-                            warn!(call_id, error = %e, "Failed to create 481 response for unknown call leg");
-                        }
-                    }
-                }
-                Err(e) => {
-                    warn!(call_id, error = %e, "Failed to create status line for 481 response");
-                }
-            }
+            let response =
+                UserAgentServer::create_response(request, 481, "Call/Transaction Does Not Exist");
+            handle.send_final(response).await;
             return Ok(());
         }
 
@@ -394,25 +378,9 @@ impl ByeHandler {
         let Some(call_leg) = call_leg else {
             // This should be unreachable due to logic above, but handle gracefully
             warn!(call_id, "B2BUA: Unexpected None call_leg after guard check");
-            let mut headers = sip_core::Headers::new();
-            copy_headers(request, &mut headers);
-
-            // Try to create and send 481 response, but don't crash if it fails
-            match sip_core::StatusLine::new(481, "Call/Transaction Does Not Exist") {
-                Ok(status_line) => {
-                    match sip_core::Response::new(status_line, headers, bytes::Bytes::new()) {
-                        Ok(response) => {
-                            handle.send_final(response).await;
-                        }
-                        Err(e) => {
-                            warn!(call_id, error = %e, "Failed to create 481 response after guard check");
-                        }
-                    }
-                }
-                Err(e) => {
-                    warn!(call_id, error = %e, "Failed to create status line for 481 response");
-                }
-            }
+            let response =
+                UserAgentServer::create_response(request, 481, "Call/Transaction Does Not Exist");
+            handle.send_final(response).await;
             return Ok(());
         };
 
@@ -602,25 +570,12 @@ impl RequestHandler for ByeHandler {
                 warn!(call_id, "BYE received for unknown dialog");
 
                 // Send 481 Call/Transaction Does Not Exist
-                let mut headers = sip_core::Headers::new();
-                copy_headers(request, &mut headers);
-
-                // Try to create and send 481 response, but don't crash if it fails
-                match sip_core::StatusLine::new(481, "Call/Transaction Does Not Exist") {
-                    Ok(status_line) => {
-                        match sip_core::Response::new(status_line, headers, bytes::Bytes::new()) {
-                            Ok(response) => {
-                                handle.send_final(response).await;
-                            }
-                            Err(e) => {
-                                warn!(call_id, error = %e, "Failed to create 481 response for unknown dialog");
-                            }
-                        }
-                    }
-                    Err(e) => {
-                        warn!(call_id, error = %e, "Failed to create status line for 481 response");
-                    }
-                }
+                let response = UserAgentServer::create_response(
+                    request,
+                    481,
+                    "Call/Transaction Does Not Exist",
+                );
+                handle.send_final(response).await;
             }
         }
 
@@ -631,22 +586,3 @@ impl RequestHandler for ByeHandler {
         "BYE"
     }
 }
-
-/// Copy essential headers from request to response
-fn copy_headers(request: &Request, headers: &mut sip_core::Headers) {
-    if let Some(via) = header(request.headers(), "Via") {
-        let _ = headers.push("Via", via.clone());
-    }
-    if let Some(from) = header(request.headers(), "From") {
-        let _ = headers.push("From", from.clone());
-    }
-    if let Some(to) = header(request.headers(), "To") {
-        let _ = headers.push("To", to.clone());
-    }
-    if let Some(call_id) = header(request.headers(), "Call-ID") {
-        let _ = headers.push("Call-ID", call_id.clone());
-    }
-    if let Some(cseq) = header(request.headers(), "CSeq") {
-        let _ = headers.push("CSeq", cseq.clone());
-    }
-}
diff --git a/bins/siphond/src/handlers/cancel.rs b/bins/siphond/src/handlers/cancel.rs
index b10e62d..e258d7c 100644
--- a/bins/siphond/src/handlers/cancel.rs
+++ b/bins/siphond/src/handlers/cancel.rs
@@ -28,58 +28,12 @@ impl CancelHandler {
 
     /// Create a 487 Request Terminated response for the INVITE (from PendingInvite)
     fn create_487_response(pending: &crate::invite_state::PendingInvite) -> sip_core::Response {
-        use sip_core::{Headers, Response, StatusLine};
-
-        let mut headers = Headers::new();
-
-        // Copy essential headers from INVITE (including To-tag if known)
-        let _ = headers.push("Via", pending.via.clone());
-        let _ = headers.push("From", pending.from.clone());
-        let _ = headers.push("To", pending.to.clone());
-        let _ = headers.push("Call-ID", pending.call_id.clone());
-        let _ = headers.push("CSeq", pending.cseq.clone());
-
-        let _ = headers.push("Content-Length", "0");
-
-        Response::new(
-            StatusLine::new(487, "Request Terminated").expect("valid status line"),
-            headers,
-            bytes::Bytes::new(),
-        )
-        .expect("valid response")
+        UserAgentServer::create_response(&pending.request, 487, "Request Terminated")
     }
 
     /// Create a 487 Request Terminated response for the INVITE (from Request - B2BUA mode)
     fn create_487_from_request(invite_request: &Request) -> sip_core::Response {
-        use sip_core::{Headers, Response, StatusLine};
-
-        let mut headers = Headers::new();
-
-        // Copy essential headers from INVITE
-        if let Some(via) = header(invite_request.headers(), "Via") {
-            let _ = headers.push("Via", via.clone());
-        }
-        if let Some(from) = header(invite_request.headers(), "From") {
-            let _ = headers.push("From", from.clone());
-        }
-        if let Some(to) = header(invite_request.headers(), "To") {
-            let _ = headers.push("To", to.clone());
-        }
-        if let Some(call_id) = header(invite_request.headers(), "Call-ID") {
-            let _ = headers.push("Call-ID", call_id.clone());
-        }
-        if let Some(cseq) = header(invite_request.headers(), "CSeq") {
-            let _ = headers.push("CSeq", cseq.clone());
-        }
-
-        let _ = headers.push("Content-Length", "0");
-
-        Response::new(
-            StatusLine::new(487, "Request Terminated").expect("valid status line"),
-            headers,
-            bytes::Bytes::new(),
-        )
-        .expect("valid response")
+        UserAgentServer::create_response(invite_request, 487, "Request Terminated")
     }
 
     /// Forward CANCEL to callee in B2BUA mode
diff --git a/bins/siphond/src/handlers/invite.rs b/bins/siphond/src/handlers/invite.rs
index 9618210..cc407ce 100644
--- a/bins/siphond/src/handlers/invite.rs
+++ b/bins/siphond/src/handlers/invite.rs
@@ -1336,15 +1336,8 @@ impl RequestHandler for InviteHandler {
             if let Ok(offer_str) = std::str::from_utf8(request.body()) {
                 if let Err(e) = sdp_utils::generate_sdp_answer(&services.config, offer_str) {
                     warn!(call_id, error = %e, "SDP validation failed, rejecting with 488");
-                    let mut headers = sip_core::Headers::new();
-                    copy_dialog_headers(request, &mut headers);
-                    let response = sip_core::Response::new(
-                        sip_core::StatusLine::new(488, "Not Acceptable Here")
-                            .expect("valid status line"),
-                        headers,
-                        bytes::Bytes::new(),
-                    )
-                    .expect("valid response");
+                    let response =
+                        UserAgentServer::create_response(request, 488, "Not Acceptable Here");
                     handle.send_final(response).await;
                     if let Some(key) = pending_key.as_deref() {
                         services.invite_state.remove_pending_invite(key);
@@ -1454,15 +1447,8 @@ impl RequestHandler for InviteHandler {
                 Ok(offer) => Some(offer),
                 Err(e) => {
                     warn!(call_id, error = %e, "Failed to generate SDP offer");
-                    let mut headers = sip_core::Headers::new();
-                    copy_dialog_headers(request, &mut headers);
-                    let response = sip_core::Response::new(
-                        sip_core::StatusLine::new(488, "Not Acceptable Here")
-                            .expect("valid status line"),
-                        headers,
-                        bytes::Bytes::new(),
-                    )
-                    .expect("valid response");
+                    let response =
+                        UserAgentServer::create_response(request, 488, "Not Acceptable Here");
                     handle.send_final(response).await;
                     if let Some(key) = pending_key.as_deref() {
                         services.invite_state.remove_pending_invite(key);
@@ -1641,42 +1627,13 @@ fn parse_replaces_dialog_id(value: &str) -> Option<DialogId> {
     Some(DialogId::unchecked_new(call_id, to_tag, from_tag))
 }
 
-/// Copy dialog-forming headers from request to response headers
-fn copy_dialog_headers(request: &Request, headers: &mut sip_core::Headers) {
-    if let Some(via) = header(request.headers(), "Via") {
-        let _ = headers.push("Via", via.clone());
-    }
-    if let Some(from) = header(request.headers(), "From") {
-        let _ = headers.push("From", from.clone());
-    }
-    if let Some(to) = header(request.headers(), "To") {
-        let _ = headers.push("To", to.clone());
-    }
-    if let Some(call_id) = header(request.headers(), "Call-ID") {
-        let _ = headers.push("Call-ID", call_id.clone());
-    }
-    if let Some(cseq) = header(request.headers(), "CSeq") {
-        let _ = headers.push("CSeq", cseq.clone());
-    }
-}
-
 /// Sends 503 Service Unavailable + Retry-After to signal a rate-limit
 /// cool-down to the peer. Same shape the dispatcher uses for auth
 /// throttling; keeping the message uniform lets clients have one
 /// retry-after code path.
 async fn send_rate_limited(request: &Request, handle: ServerTransactionHandle) {
-    use bytes::Bytes;
-    use sip_core::{Response, StatusLine};
-
-    let mut headers = sip_core::Headers::new();
-    copy_dialog_headers(request, &mut headers);
-    let _ = headers.push("Retry-After", "30");
-    let response = Response::new(
-        StatusLine::new(503, "Service Unavailable").expect("valid status line"),
-        headers,
-        Bytes::new(),
-    )
-    .expect("valid response");
+    let mut response = UserAgentServer::create_response(request, 503, "Service Unavailable");
+    let _ = response.headers_mut().push("Retry-After", "30");
     handle.send_final(response).await;
 }
 
diff --git a/bins/siphond/src/handlers/notify.rs b/bins/siphond/src/handlers/notify.rs
index f798751..4fce179 100644
--- a/bins/siphond/src/handlers/notify.rs
+++ b/bins/siphond/src/handlers/notify.rs
@@ -12,7 +12,7 @@
 
 use anyhow::Result;
 use async_trait::async_trait;
-use sip_core::{Headers, Request, Response, StatusLine};
+use sip_core::Request;
 use sip_dialog::SubscriptionId;
 use sip_parse::header;
 use sip_transaction::{ServerTransactionHandle, TransportContext};
@@ -98,7 +98,9 @@ impl RequestHandler for NotifyHandler {
                 call_id,
                 "NOTIFY rejected: no matching subscription (RFC 6665 §4.1.4)"
             );
-            send_status(request, handle, 481, "Subscription Does Not Exist").await;
+            let response =
+                UserAgentServer::create_response(request, 481, "Subscription Does Not Exist");
+            handle.send_final(response).await;
             return Ok(());
         }
 
@@ -112,23 +114,3 @@ impl RequestHandler for NotifyHandler {
         "NOTIFY"
     }
 }
-
-async fn send_status(request: &Request, handle: ServerTransactionHandle, code: u16, reason: &str) {
-    let mut headers = Headers::new();
-    for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
-        if let Some(value) = header(request.headers(), name) {
-            let _ = headers.push(name, value.clone());
-        }
-    }
-    let status = match StatusLine::new(code, reason) {
-        Ok(s) => s,
-        Err(e) => {
-            warn!(error = %e, code, "Failed to build NOTIFY rejection status line");
-            return;
-        }
-    };
-    match Response::new(status, headers, bytes::Bytes::new()) {
-        Ok(response) => handle.send_final(response).await,
-        Err(e) => warn!(error = %e, "Failed to build NOTIFY rejection response"),
-    }
-}
diff --git a/bins/siphond/src/handlers/options.rs b/bins/siphond/src/handlers/options.rs
index ede039a..2a95f6b 100644
--- a/bins/siphond/src/handlers/options.rs
+++ b/bins/siphond/src/handlers/options.rs
@@ -10,10 +10,10 @@
 /// - Accept header (supported content types)
 use anyhow::Result;
 use async_trait::async_trait;
-use bytes::Bytes;
-use sip_core::{Headers, Request, Response, StatusLine};
+use sip_core::Request;
 use sip_parse::header;
 use sip_transaction::{ServerTransactionHandle, TransportContext};
+use sip_uas::UserAgentServer;
 use smol_str::SmolStr;
 use tracing::info;
 
@@ -86,37 +86,15 @@ impl RequestHandler for OptionsHandler {
         _ctx: &TransportContext,
         services: &ServiceRegistry,
     ) -> Result<()> {
-        // Extract required headers from request
-        let via = header(request.headers(), "Via")
+        let call_id_log = header(request.headers(), "Call-ID")
             .cloned()
             .unwrap_or_default();
-        let from = header(request.headers(), "From")
-            .cloned()
-            .unwrap_or_default();
-        let mut to = header(request.headers(), "To").cloned().unwrap_or_default();
-        let call_id = header(request.headers(), "Call-ID")
-            .cloned()
-            .unwrap_or_default();
-        let cseq = header(request.headers(), "CSeq")
+        let from_log = header(request.headers(), "From")
             .cloned()
             .unwrap_or_default();
 
-        // Clone for logging (will be moved into headers)
-        let call_id_log = call_id.clone();
-        let from_log = from.clone();
-
-        // Add to-tag if missing
-        if !to.is_empty() && !to.contains(";tag=") {
-            to = SmolStr::new(format!("{};tag=siphond-{}", to, rand::random::<u32>()));
-        }
-
-        // Build response headers
-        let mut headers = Headers::new();
-        let _ = headers.push("Via", via);
-        let _ = headers.push("From", from);
-        let _ = headers.push("To", to);
-        let _ = headers.push("Call-ID", call_id);
-        let _ = headers.push("CSeq", cseq);
+        let mut response = UserAgentServer::create_response(request, 200, "OK");
+        let headers = response.headers_mut();
 
         // Add capability headers
         let _ = headers.push("Allow", Self::build_allow_header(services));
@@ -141,13 +119,6 @@ impl RequestHandler for OptionsHandler {
         // `Server`.
         let _ = headers.push("Server", SmolStr::new(services.config.user_agent.clone()));
 
-        let response = Response::new(
-            StatusLine::new(200, "OK").expect("valid status line"),
-            headers,
-            Bytes::new(),
-        )
-        .expect("valid response");
-
         info!(
             call_id = %call_id_log,
             from = %from_log,
diff --git a/bins/siphond/src/handlers/refer.rs b/bins/siphond/src/handlers/refer.rs
index d632396..2444c9f 100644
--- a/bins/siphond/src/handlers/refer.rs
+++ b/bins/siphond/src/handlers/refer.rs
@@ -385,25 +385,8 @@ impl RequestHandler for ReferHandler {
         // Check if REFER is enabled
         if !services.config.features.enable_refer {
             warn!(call_id, "REFER rejected: feature not enabled");
-            let mut headers = sip_core::Headers::new();
-            copy_headers(request, &mut headers);
-
-            // Try to create and send 501 response, but don't crash if it fails
-            match sip_core::StatusLine::new(501, "Not Implemented") {
-                Ok(status_line) => {
-                    match sip_core::Response::new(status_line, headers, bytes::Bytes::new()) {
-                        Ok(response) => {
-                            handle.send_final(response).await;
-                        }
-                        Err(e) => {
-                            warn!(call_id, error = %e, "Failed to create 501 response for disabled REFER");
-                        }
-                    }
-                }
-                Err(e) => {
-                    warn!(call_id, error = %e, "Failed to create status line for 501 response");
-                }
-            }
+            let response = UserAgentServer::create_response(request, 501, "Not Implemented");
+            handle.send_final(response).await;
             return Ok(());
         }
 
@@ -435,25 +418,9 @@ impl RequestHandler for ReferHandler {
                 call_id,
                 "REFER received outside of a dialog - rejecting with 481"
             );
-            let mut headers = sip_core::Headers::new();
-            copy_headers(request, &mut headers);
-
-            // Try to create and send 481 response, but don't crash if it fails
-            match sip_core::StatusLine::new(481, "Call/Transaction Does Not Exist") {
-                Ok(status_line) => {
-                    match sip_core::Response::new(status_line, headers, bytes::Bytes::new()) {
-                        Ok(response) => {
-                            handle.send_final(response).await;
-                        }
-                        Err(e) => {
-                            warn!(call_id, error = %e, "Failed to create 481 response for out-of-dialog REFER");
-                        }
-                    }
-                }
-                Err(e) => {
-                    warn!(call_id, error = %e, "Failed to create status line for 481 response");
-                }
-            }
+            let response =
+                UserAgentServer::create_response(request, 481, "Call/Transaction Does Not Exist");
+            handle.send_final(response).await;
             return Ok(());
         }
 
@@ -461,25 +428,9 @@ impl RequestHandler for ReferHandler {
         let Some(dialog) = dialog else {
             // This should be unreachable due to logic above, but handle gracefully
             warn!(call_id, "Unexpected None dialog after guard check");
-            let mut headers = sip_core::Headers::new();
-            copy_headers(request, &mut headers);
-
-            // Try to create and send 481 response, but don't crash if it fails
-            match sip_core::StatusLine::new(481, "Call/Transaction Does Not Exist") {
-                Ok(status_line) => {
-                    match sip_core::Response::new(status_line, headers, bytes::Bytes::new()) {
-                        Ok(response) => {
-                            handle.send_final(response).await;
-                        }
-                        Err(e) => {
-                            warn!(call_id, error = %e, "Failed to create 481 response after guard check");
-                        }
-                    }
-                }
-                Err(e) => {
-                    warn!(call_id, error = %e, "Failed to create status line for 481 response");
-                }
-            }
+            let response =
+                UserAgentServer::create_response(request, 481, "Call/Transaction Does Not Exist");
+            handle.send_final(response).await;
             return Ok(());
         };
 
@@ -835,25 +786,6 @@ fn is_global_unicast(ip: &std::net::IpAddr) -> bool {
     }
 }
 
-/// Copy essential headers from request to response
-fn copy_headers(request: &Request, headers: &mut sip_core::Headers) {
-    if let Some(via) = header(request.headers(), "Via") {
-        let _ = headers.push("Via", via.clone());
-    }
-    if let Some(from) = header(request.headers(), "From") {
-        let _ = headers.push("From", from.clone());
-    }
-    if let Some(to) = header(request.headers(), "To") {
-        let _ = headers.push("To", to.clone());
-    }
-    if let Some(call_id) = header(request.headers(), "Call-ID") {
-        let _ = headers.push("Call-ID", call_id.clone());
-    }
-    if let Some(cseq) = header(request.headers(), "CSeq") {
-        let _ = headers.push("CSeq", cseq.clone());
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/bins/siphond/src/handlers/register.rs b/bins/siphond/src/handlers/register.rs
index 2ba2feb..cb2359e 100644
--- a/bins/siphond/src/handlers/register.rs
+++ b/bins/siphond/src/handlers/register.rs
@@ -14,6 +14,7 @@ use sip_core::Request;
 use sip_parse::header;
 use sip_registrar::Registrar;
 use sip_transaction::{ServerTransactionHandle, TransportContext};
+use sip_uas::UserAgentServer;
 use tracing::{info, warn};
 
 use super::RequestHandler;
@@ -56,14 +57,7 @@ impl RequestHandler for RegisterHandler {
             Some(reg) => reg,
             None => {
                 warn!(call_id, "REGISTER rejected: registrar not enabled");
-                let mut headers = sip_core::Headers::new();
-                copy_headers(request, &mut headers);
-                let response = sip_core::Response::new(
-                    sip_core::StatusLine::new(501, "Not Implemented").expect("valid status line"),
-                    headers,
-                    bytes::Bytes::new(),
-                )
-                .expect("valid response");
+                let response = UserAgentServer::create_response(request, 501, "Not Implemented");
                 handle.send_final(response).await;
                 return Ok(());
             }
@@ -109,40 +103,11 @@ impl RequestHandler for RegisterHandler {
     }
 }
 
-/// Copy essential headers from request to response
-fn copy_headers(request: &Request, headers: &mut sip_core::Headers) {
-    if let Some(via) = header(request.headers(), "Via") {
-        let _ = headers.push("Via", via.clone());
-    }
-    if let Some(from) = header(request.headers(), "From") {
-        let _ = headers.push("From", from.clone());
-    }
-    if let Some(to) = header(request.headers(), "To") {
-        let _ = headers.push("To", to.clone());
-    }
-    if let Some(call_id) = header(request.headers(), "Call-ID") {
-        let _ = headers.push("Call-ID", call_id.clone());
-    }
-    if let Some(cseq) = header(request.headers(), "CSeq") {
-        let _ = headers.push("CSeq", cseq.clone());
-    }
-}
-
 /// Sends a 503 Service Unavailable with Retry-After=30 to indicate the
 /// peer is being rate-limited. Shared shape with the dispatcher's
 /// rate-limit responder so clients see a consistent throttle response.
 async fn send_rate_limited(request: &Request, handle: ServerTransactionHandle) {
-    use bytes::Bytes;
-    use sip_core::{Response, StatusLine};
-
-    let mut headers = sip_core::Headers::new();
-    copy_headers(request, &mut headers);
-    let _ = headers.push("Retry-After", "30");
-    let response = Response::new(
-        StatusLine::new(503, "Service Unavailable").expect("valid status line"),
-        headers,
-        Bytes::new(),
-    )
-    .expect("valid response");
+    let mut response = UserAgentServer::create_response(request, 503, "Service Unavailable");
+    let _ = response.headers_mut().push("Retry-After", "30");
     handle.send_final(response).await;
 }
diff --git a/bins/siphond/src/handlers/subscribe.rs b/bins/siphond/src/handlers/subscribe.rs
index 8273734..bc0260c 100644
--- a/bins/siphond/src/handlers/subscribe.rs
+++ b/bins/siphond/src/handlers/subscribe.rs
@@ -213,14 +213,7 @@ impl RequestHandler for SubscribeHandler {
         // Check if subscriptions are enabled
         if !services.config.enable_subscriptions() {
             warn!(call_id, "SUBSCRIBE rejected: subscriptions not enabled");
-            let mut headers = sip_core::Headers::new();
-            copy_headers(request, &mut headers);
-            let response = sip_core::Response::new(
-                sip_core::StatusLine::new(501, "Not Implemented").expect("valid status line"),
-                headers,
-                bytes::Bytes::new(),
-            )
-            .expect("valid response");
+            let response = UserAgentServer::create_response(request, 501, "Not Implemented");
             handle.send_final(response).await;
             return Ok(());
         }
@@ -249,14 +242,7 @@ impl RequestHandler for SubscribeHandler {
         // Check if auto-accept is enabled
         if !services.config.features.auto_accept_subscriptions {
             warn!(call_id, "SUBSCRIBE rejected: auto-accept disabled");
-            let mut headers = sip_core::Headers::new();
-            copy_headers(request, &mut headers);
-            let response = sip_core::Response::new(
-                sip_core::StatusLine::new(603, "Decline").expect("valid status line"),
-                headers,
-                bytes::Bytes::new(),
-            )
-            .expect("valid response");
+            let response = UserAgentServer::create_response(request, 603, "Decline");
             handle.send_final(response).await;
             return Ok(());
         }
@@ -331,22 +317,3 @@ impl RequestHandler for SubscribeHandler {
         "SUBSCRIBE"
     }
 }
-
-/// Copy essential headers from request to response
-fn copy_headers(request: &Request, headers: &mut sip_core::Headers) {
-    if let Some(via) = header(request.headers(), "Via") {
-        let _ = headers.push("Via", via.clone());
-    }
-    if let Some(from) = header(request.headers(), "From") {
-        let _ = headers.push("From", from.clone());
-    }
-    if let Some(to) = header(request.headers(), "To") {
-        let _ = headers.push("To", to.clone());
-    }
-    if let Some(call_id) = header(request.headers(), "Call-ID") {
-        let _ = headers.push("Call-ID", call_id.clone());
-    }
-    if let Some(cseq) = header(request.headers(), "CSeq") {
-        let _ = headers.push("CSeq", cseq.clone());
-    }
-}
diff --git a/bins/siphond/src/invite_state.rs b/bins/siphond/src/invite_state.rs
index ec0be8f..b4c4051 100644
--- a/bins/siphond/src/invite_state.rs
+++ b/bins/siphond/src/invite_state.rs
@@ -18,16 +18,8 @@ use std::time::{Duration, Instant};
 pub struct PendingInvite {
     /// Server transaction handle for sending the 487 response
     pub handle: ServerTransactionHandle,
-    /// Cached Via header for 487 response
-    pub via: SmolStr,
-    /// Cached From header for 487 response
-    pub from: SmolStr,
-    /// Cached To header for 487 response (updated when To-tag is known)
-    pub to: SmolStr,
-    /// Cached Call-ID header for 487 response
-    pub call_id: SmolStr,
-    /// Cached CSeq header for 487 response (INVITE CSeq)
-    pub cseq: SmolStr,
+    /// The INVITE, from which the 487 response is built
+    pub request: Request,
     /// When this pending INVITE was stored
     pub created_at: Instant,
 }
@@ -82,7 +74,6 @@ impl InviteStateManager {
     pub fn store_pending_invite(&self, key: String, pending: PendingInvite) {
         tracing::debug!(
             key = %key,
-            call_id = %pending.call_id,
             "Storing pending INVITE"
         );
         self.pending.insert(key, pending);
@@ -94,21 +85,11 @@ impl InviteStateManager {
         request: &Request,
     ) -> Option<(String, PendingInvite)> {
         let key = Self::key_from_request(request)?;
-        let via = header(request.headers(), "Via")?.clone();
-        let from = header(request.headers(), "From")?.clone();
-        let to = header(request.headers(), "To")?.clone();
-        let call_id = header(request.headers(), "Call-ID")?.clone();
-        let cseq = header(request.headers(), "CSeq")?.clone();
-
         Some((
             key,
             PendingInvite {
                 handle,
-                via,
-                from,
-                to,
-                call_id,
-                cseq,
+                request: request.clone(),
                 created_at: Instant::now(),
             },
         ))
@@ -136,7 +117,7 @@ impl InviteStateManager {
     /// Update the To header once a To-tag is generated.
     pub fn update_to_header(&self, key: &str, to: SmolStr) {
         if let Some(mut entry) = self.pending.get_mut(key) {
-            entry.to = to;
+            let _ = entry.request.headers_mut().set_or_push("To", to);
         }
     }
 
-- 
2.43.0


From 308a99d4db354377ee0f2ce2527974e1341e5ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:23 +0000
Subject: [PATCH 158/176] fix: siphond challenges a request whose credentials
 cannot be verified instead of ignoring it

---
 bins/siphond/src/dispatcher.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bins/siphond/src/dispatcher.rs b/bins/siphond/src/dispatcher.rs
index d38c07b..9222b11 100644
--- a/bins/siphond/src/dispatcher.rs
+++ b/bins/siphond/src/dispatcher.rs
@@ -123,7 +123,10 @@ impl RequestDispatcher {
         // Try to verify the Authorization header
         match authenticator.verify(request, request.headers()) {
             Ok(true) => true, // Authenticated
-            Ok(false) => {
+            outcome => {
+                if let Err(e) = outcome {
+                    warn!(error = %e, "Authentication verification error");
+                }
                 // No valid credentials — send 401 challenge
                 info!(method = ?method, "Authentication required, sending 401 challenge");
                 match authenticator.challenge(request) {
@@ -132,14 +135,13 @@ impl RequestDispatcher {
                     }
                     Err(e) => {
                         warn!(error = %e, "Failed to generate auth challenge");
+                        let response =
+                            UserAgentServer::create_response(request, 500, "Server Error");
+                        handle.send_final(response).await;
                     }
                 }
                 false
             }
-            Err(e) => {
-                warn!(error = %e, "Authentication verification error");
-                false
-            }
         }
     }
 
-- 
2.43.0


From 363aa9b4d6ce375e0ca588d0a68e49589ed4458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:23 +0000
Subject: [PATCH 159/176] fix: siphond answers 500 when a handler fails

---
 bins/siphond/src/dispatcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bins/siphond/src/dispatcher.rs b/bins/siphond/src/dispatcher.rs
index 9222b11..5fca5c2 100644
--- a/bins/siphond/src/dispatcher.rs
+++ b/bins/siphond/src/dispatcher.rs
@@ -191,12 +191,15 @@ impl RequestDispatcher {
 
         match self.handlers.get(method) {
             Some(handler) => {
+                let fallback = handle.clone();
                 if let Err(e) = handler.handle(request, handle, ctx, &self.services).await {
                     warn!(
                         method = ?method,
                         error = %e,
                         "Handler failed to process request"
                     );
+                    let response = UserAgentServer::create_response(request, 500, "Server Error");
+                    fallback.send_final(response).await;
                 }
             }
             None => {
-- 
2.43.0


From b83e7e9fe1640ead2640126f23faa09d2d5b78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:23 +0000
Subject: [PATCH 160/176] fix: siphond's Allow lists only methods it does not
 answer with 501

---
 bins/siphond/src/handlers/options.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bins/siphond/src/handlers/options.rs b/bins/siphond/src/handlers/options.rs
index 2a95f6b..59456eb 100644
--- a/bins/siphond/src/handlers/options.rs
+++ b/bins/siphond/src/handlers/options.rs
@@ -29,10 +29,11 @@ impl OptionsHandler {
 
     /// Build Allow header based on configuration
     fn build_allow_header(services: &ServiceRegistry) -> SmolStr {
-        let mut methods = vec!["OPTIONS", "ACK", "CANCEL"];
+        let mut methods = vec!["OPTIONS", "ACK"];
 
         if services.config.enable_calls() {
             methods.push("INVITE");
+            methods.push("CANCEL");
             methods.push("BYE");
             methods.push("UPDATE");
         }
@@ -50,7 +51,7 @@ impl OptionsHandler {
             methods.push("REFER");
         }
 
-        if services.config.features.enable_prack {
+        if services.config.enable_calls() && services.config.features.enable_prack {
             methods.push("PRACK");
         }
 
-- 
2.43.0


From bcf3be50c99d22a051848a6efc77e61c4ad6d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 161/176] fix: siphond does not accept an INVITE that was
 cancelled, nor keep its early dialog

---
 bins/siphond/src/handlers/cancel.rs | 15 ++++++---------
 bins/siphond/src/handlers/invite.rs | 30 ++++++++++++++++++-----------
 bins/siphond/src/invite_state.rs    |  1 +
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/bins/siphond/src/handlers/cancel.rs b/bins/siphond/src/handlers/cancel.rs
index e258d7c..40b73a9 100644
--- a/bins/siphond/src/handlers/cancel.rs
+++ b/bins/siphond/src/handlers/cancel.rs
@@ -212,12 +212,12 @@ impl RequestHandler for CancelHandler {
                     // Non-B2BUA mode: Send 487 to the original INVITE transaction
                     let pending_key =
                         crate::invite_state::InviteStateManager::key_from_request(request);
-                    if let Some((key, pending_invite)) = pending_key.as_deref().and_then(|key| {
-                        services
-                            .invite_state
-                            .get_pending_invite(key)
-                            .map(|p| (key.to_string(), p))
-                    }) {
+                    // Taking the entry claims the INVITE: its handler will
+                    // not accept it any more.
+                    if let Some(pending_invite) = pending_key
+                        .as_deref()
+                        .and_then(|key| services.invite_state.remove_pending_invite(key))
+                    {
                         info!(
                             call_id,
                             "Sending 487 Request Terminated to original INVITE transaction"
@@ -229,9 +229,6 @@ impl RequestHandler for CancelHandler {
                         // Send 487 through the INVITE transaction handle
                         pending_invite.handle.send_final(response_487).await;
 
-                        // Remove from pending invites
-                        services.invite_state.remove_pending_invite(&key);
-
                         info!(call_id, "Sent 487 Request Terminated to INVITE transaction");
                     } else {
                         warn!(
diff --git a/bins/siphond/src/handlers/invite.rs b/bins/siphond/src/handlers/invite.rs
index cc407ce..5f98c9e 100644
--- a/bins/siphond/src/handlers/invite.rs
+++ b/bins/siphond/src/handlers/invite.rs
@@ -1349,6 +1349,8 @@ impl RequestHandler for InviteHandler {
 
         info!(call_id, "Call accepted, sending 180 Ringing");
 
+        let mut early_dialog_id = None;
+
         // Send 180 Ringing (with optional reliable provisional)
         if services.config.features.enable_prack
             && request
@@ -1368,6 +1370,7 @@ impl RequestHandler for InviteHandler {
                     Dialog::new_uas(request, &ringing, uas.local_uri.clone(), remote_uri)
                 {
                     let _ = services.dialog_mgr.insert(early_dialog.clone());
+                    early_dialog_id = Some(early_dialog.id().clone());
 
                     let rseq = services.rseq_mgr.next_rseq(early_dialog.id());
                     reliable_info = Some((Self::dialog_id_key(early_dialog.id()), rseq));
@@ -1425,6 +1428,18 @@ impl RequestHandler for InviteHandler {
         // preventing the 487 Request Terminated response.
         tokio::time::sleep(Duration::from_millis(100)).await;
 
+        // A CANCEL that arrived meanwhile has claimed the INVITE and answered
+        // it with 487: it must not be accepted any more.
+        if let Some(key) = pending_key.take() {
+            if services.invite_state.remove_pending_invite(&key).is_none() {
+                info!(call_id, "INVITE was cancelled");
+                if let Some(id) = &early_dialog_id {
+                    services.dialog_mgr.remove(id);
+                }
+                return Ok(());
+            }
+        }
+
         // Generate SDP answer (already validated earlier, so this should succeed)
         let sdp_answer = if !request.body().is_empty() {
             match std::str::from_utf8(request.body()) {
@@ -1450,8 +1465,8 @@ impl RequestHandler for InviteHandler {
                     let response =
                         UserAgentServer::create_response(request, 488, "Not Acceptable Here");
                     handle.send_final(response).await;
-                    if let Some(key) = pending_key.as_deref() {
-                        services.invite_state.remove_pending_invite(key);
+                    if let Some(id) = &early_dialog_id {
+                        services.dialog_mgr.remove(id);
                     }
                     return Ok(());
                 }
@@ -1502,20 +1517,13 @@ impl RequestHandler for InviteHandler {
 
                 // Send 200 OK
                 handle.send_final(response).await;
-
-                // Remove from pending invites (transaction completed)
-                if let Some(key) = pending_key.as_deref() {
-                    services.invite_state.remove_pending_invite(key);
-                }
             }
             Err(e) => {
                 warn!(call_id, error = %e, "Failed to accept INVITE");
                 let error = uas.create_decline(request);
                 handle.send_final(error).await;
-
-                // Remove from pending invites (transaction completed with error)
-                if let Some(key) = pending_key.as_deref() {
-                    services.invite_state.remove_pending_invite(key);
+                if let Some(id) = &early_dialog_id {
+                    services.dialog_mgr.remove(id);
                 }
             }
         }
diff --git a/bins/siphond/src/invite_state.rs b/bins/siphond/src/invite_state.rs
index b4c4051..411b432 100644
--- a/bins/siphond/src/invite_state.rs
+++ b/bins/siphond/src/invite_state.rs
@@ -98,6 +98,7 @@ impl InviteStateManager {
     /// Look up a pending INVITE transaction by key.
     ///
     /// Returns the pending invite info if found, allowing the caller to send a 487 response.
+    #[allow(dead_code)]
     pub fn get_pending_invite(&self, key: &str) -> Option<PendingInvite> {
         let result = self.pending.get(key).map(|entry| entry.value().clone());
         tracing::debug!(
-- 
2.43.0


From abb03879d16837182632fcbd9d151d5dd2bb14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 162/176] fix: siphond's responses to one INVITE share one To
 tag

---
 bins/siphond/src/handlers/invite.rs | 16 ++++++++--------
 bins/siphond/src/invite_state.rs    |  8 --------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/bins/siphond/src/handlers/invite.rs b/bins/siphond/src/handlers/invite.rs
index 5f98c9e..11ee2dd 100644
--- a/bins/siphond/src/handlers/invite.rs
+++ b/bins/siphond/src/handlers/invite.rs
@@ -1314,6 +1314,14 @@ impl RequestHandler for InviteHandler {
         let trying = UserAgentServer::create_trying(request);
         handle.send_provisional(trying).await;
 
+        // One To tag for every response from here on (RFC 3261 §12.1.1): the
+        // dialog the 180 announces is the one the final response is about.
+        let mut tagged = request.clone();
+        if let Some(to) = header(uas.create_ringing(request).headers(), "To") {
+            let _ = tagged.headers_mut().set_or_push("To", to.clone());
+        }
+        let request = &tagged;
+
         // Store transaction handle and headers for potential CANCEL
         let mut pending_key = None;
         if let Some((key, pending)) =
@@ -1396,10 +1404,6 @@ impl RequestHandler for InviteHandler {
             }
 
             let ringing_for_retransmit = ringing.clone();
-            if let (Some(key), Some(to)) = (pending_key.as_deref(), header(ringing.headers(), "To"))
-            {
-                services.invite_state.update_to_header(key, to.clone());
-            }
             handle.send_provisional(ringing).await;
 
             if let Some((dialog_key, rseq)) = reliable_info {
@@ -1413,10 +1417,6 @@ impl RequestHandler for InviteHandler {
             }
         } else {
             let ringing = uas.create_ringing(request);
-            if let (Some(key), Some(to)) = (pending_key.as_deref(), header(ringing.headers(), "To"))
-            {
-                services.invite_state.update_to_header(key, to.clone());
-            }
             handle.send_provisional(ringing).await;
         }
 
diff --git a/bins/siphond/src/invite_state.rs b/bins/siphond/src/invite_state.rs
index 411b432..e500e8e 100644
--- a/bins/siphond/src/invite_state.rs
+++ b/bins/siphond/src/invite_state.rs
@@ -10,7 +10,6 @@ use dashmap::DashMap;
 use sip_core::Request;
 use sip_parse::header;
 use sip_transaction::ServerTransactionHandle;
-use smol_str::SmolStr;
 use std::time::{Duration, Instant};
 
 /// Pending INVITE transaction information.
@@ -115,13 +114,6 @@ impl InviteStateManager {
         result
     }
 
-    /// Update the To header once a To-tag is generated.
-    pub fn update_to_header(&self, key: &str, to: SmolStr) {
-        if let Some(mut entry) = self.pending.get_mut(key) {
-            let _ = entry.request.headers_mut().set_or_push("To", to);
-        }
-    }
-
     /// Remove a pending INVITE transaction.
     ///
     /// This should be called when the INVITE transaction completes (receives
-- 
2.43.0


From 8292b5255361a179b87fd44e7d867e84d9055b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 163/176] fix: siphond finds the INVITE of a CANCEL however the
 From tag is written

---
 bins/siphond/src/invite_state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bins/siphond/src/invite_state.rs b/bins/siphond/src/invite_state.rs
index e500e8e..71a5ec4 100644
--- a/bins/siphond/src/invite_state.rs
+++ b/bins/siphond/src/invite_state.rs
@@ -52,7 +52,13 @@ impl InviteStateManager {
         let from = header(request.headers(), "From")?;
 
         // Extract From tag (format: <sip:user@host>;tag=value or sip:user@host;tag=value)
-        let from_tag = from.as_str().split(";tag=").nth(1)?.split(';').next()?;
+        let params = from.rsplit('>').next()?;
+        let from_tag = params.split(';').skip(1).find_map(|param| {
+            let (name, value) = param.split_once('=')?;
+            name.trim()
+                .eq_ignore_ascii_case("tag")
+                .then(|| value.trim())
+        })?;
 
         let key = format!("{}:{}:{}", call_id, cseq_num, from_tag);
         tracing::debug!(
-- 
2.43.0


From a94152f387c1abc60ceccae38c104d51cc90cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 164/176] fix: siphond's initial NOTIFY has one Content-Type
 and one Content-Length

---
 bins/siphond/src/handlers/subscribe.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bins/siphond/src/handlers/subscribe.rs b/bins/siphond/src/handlers/subscribe.rs
index bc0260c..2faf49f 100644
--- a/bins/siphond/src/handlers/subscribe.rs
+++ b/bins/siphond/src/handlers/subscribe.rs
@@ -134,12 +134,9 @@ impl SubscribeHandler {
         );
 
         if let Some(content_type) = content_type {
-            let _ = notify.headers_mut().push("Content-Type", content_type);
-            if let Some(body) = body.as_ref() {
-                let _ = notify
-                    .headers_mut()
-                    .push("Content-Length", body.len().to_string());
-            }
+            let _ = notify
+                .headers_mut()
+                .set_or_push("Content-Type", content_type);
         }
 
         debug!(
-- 
2.43.0


From e60cfe81530f777e6296030352ced247efd861ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 165/176] fix: siphond's NOTIFY for an ended subscription says
 terminated

---
 bins/siphond/src/handlers/subscribe.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/bins/siphond/src/handlers/subscribe.rs b/bins/siphond/src/handlers/subscribe.rs
index 2faf49f..6f21725 100644
--- a/bins/siphond/src/handlers/subscribe.rs
+++ b/bins/siphond/src/handlers/subscribe.rs
@@ -126,12 +126,8 @@ impl SubscribeHandler {
 
         let (content_type, body) = Self::build_notify_body(subscription);
 
-        // Create initial NOTIFY with "active" state
-        let mut notify = uac.create_notify(
-            subscription,
-            SubscriptionState::Active, // Initial state is always "active"
-            body.as_deref(),
-        );
+        // Create initial NOTIFY with the subscription's state
+        let mut notify = uac.create_notify(subscription, subscription.state(), body.as_deref());
 
         if let Some(content_type) = content_type {
             let _ = notify
-- 
2.43.0


From 217da28a886e23e62cded8c656e4406910b83e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 166/176] fix: siphond stops the session timer of a dialog that
 BYE ends

---
 bins/siphond/src/handlers/bye.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bins/siphond/src/handlers/bye.rs b/bins/siphond/src/handlers/bye.rs
index 5f34e29..bc1e80e 100644
--- a/bins/siphond/src/handlers/bye.rs
+++ b/bins/siphond/src/handlers/bye.rs
@@ -560,6 +560,7 @@ impl RequestHandler for ByeHandler {
 
                 // Remove dialog from manager
                 services.dialog_mgr.remove(dialog.id());
+                services.session_timer_mgr.stop_timer(dialog.id());
 
                 info!(call_id, "Dialog terminated successfully");
 
-- 
2.43.0


From 966f039838168806e48c0b11626b632d666da4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 167/176] fix: siphond handles a retransmitted request once

---
 bins/siphond/src/dispatcher.rs        |  7 +++++++
 crates/sip-transaction/src/manager.rs | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/bins/siphond/src/dispatcher.rs b/bins/siphond/src/dispatcher.rs
index 5fca5c2..924f50a 100644
--- a/bins/siphond/src/dispatcher.rs
+++ b/bins/siphond/src/dispatcher.rs
@@ -167,6 +167,13 @@ impl RequestDispatcher {
     ) {
         use sip_parse::header;
 
+        // RFC 3261 §17.2: the transaction layer answers a retransmission with
+        // what it sent before; handling the request again would repeat its
+        // effects.
+        if handle.is_retransmission() {
+            return;
+        }
+
         // RFC 3261 §8.1.1.3: Check Max-Forwards
         // If Max-Forwards is 0, respond with 483 Too Many Hops
         if let Some(max_forwards) = header(request.headers(), "Max-Forwards") {
diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index eac153d..5f252cc 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -787,6 +787,7 @@ impl TransactionManager {
                     return ServerTransactionHandle {
                         manager: self.clone(),
                         key: invite_key,
+                        retransmission: false,
                     };
                 }
             }
@@ -795,6 +796,7 @@ impl TransactionManager {
             return ServerTransactionHandle {
                 manager: self.clone(),
                 key,
+                retransmission: false,
             };
         }
 
@@ -808,6 +810,7 @@ impl TransactionManager {
             return ServerTransactionHandle {
                 manager: self.clone(),
                 key,
+                retransmission: true,
             };
         }
 
@@ -868,6 +871,7 @@ impl TransactionManager {
         ServerTransactionHandle {
             manager: self.clone(),
             key,
+            retransmission: false,
         }
     }
 
@@ -1637,6 +1641,7 @@ impl TransactionManager {
 pub struct ServerTransactionHandle {
     manager: TransactionManager,
     key: TransactionKey,
+    retransmission: bool,
 }
 
 impl ServerTransactionHandle {
@@ -1652,6 +1657,12 @@ impl ServerTransactionHandle {
         &self.key
     }
 
+    /// `true` when the request was a retransmission: its transaction already
+    /// exists and the transaction user has the request.
+    pub fn is_retransmission(&self) -> bool {
+        self.retransmission
+    }
+
     /// See [`TransactionManager::ack_received`]: `true` means the ACK was
     /// absorbed by this transaction and must not reach the transaction user.
     pub async fn ack_received(&self) -> bool {
-- 
2.43.0


From cbf668120e1dda50aa4e5bfc88d62e7f928efb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 168/176] fix: siphond reads From and To tags of REFER and
 NOTIFY after the display name

---
 bins/siphond/src/handlers/notify.rs | 14 +++-----------
 bins/siphond/src/handlers/refer.rs  | 14 +++-----------
 2 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/bins/siphond/src/handlers/notify.rs b/bins/siphond/src/handlers/notify.rs
index 4fce179..c180479 100644
--- a/bins/siphond/src/handlers/notify.rs
+++ b/bins/siphond/src/handlers/notify.rs
@@ -13,11 +13,10 @@
 use anyhow::Result;
 use async_trait::async_trait;
 use sip_core::Request;
-use sip_dialog::SubscriptionId;
+use sip_dialog::{extract_tag, SubscriptionId};
 use sip_parse::header;
 use sip_transaction::{ServerTransactionHandle, TransportContext};
 use sip_uas::UserAgentServer;
-use smol_str::SmolStr;
 use tracing::{info, warn};
 
 use super::RequestHandler;
@@ -30,13 +29,6 @@ impl NotifyHandler {
         Self
     }
 
-    fn extract_tag(value: &str) -> Option<SmolStr> {
-        value.split(';').find_map(|part| {
-            let trimmed = part.trim();
-            trimmed.strip_prefix("tag=").map(SmolStr::new)
-        })
-    }
-
     fn extract_event_package(request: &Request) -> Option<String> {
         let event = header(request.headers(), "Event")?;
         let package = event.split(';').next()?.trim();
@@ -54,8 +46,8 @@ impl NotifyHandler {
         let call_id = header(request.headers(), "Call-ID")?.clone();
         let from = header(request.headers(), "From")?;
         let to = header(request.headers(), "To")?;
-        let from_tag = Self::extract_tag(from)?;
-        let to_tag = Self::extract_tag(to)?;
+        let from_tag = extract_tag(from)?;
+        let to_tag = extract_tag(to)?;
         let event = Self::extract_event_package(request)?;
 
         // Subscriber's view: we sent SUBSCRIBE, so our local-tag is the
diff --git a/bins/siphond/src/handlers/refer.rs b/bins/siphond/src/handlers/refer.rs
index 2444c9f..dce14ae 100644
--- a/bins/siphond/src/handlers/refer.rs
+++ b/bins/siphond/src/handlers/refer.rs
@@ -31,7 +31,7 @@
 use anyhow::{anyhow, Result};
 use async_trait::async_trait;
 use sip_core::{Headers, Request, Response, SipUri};
-use sip_dialog::{Subscription, SubscriptionId, SubscriptionState};
+use sip_dialog::{extract_tag, Subscription, SubscriptionId, SubscriptionState};
 use sip_parse::header;
 use sip_transaction::{
     ClientTransactionUser, ServerTransactionHandle, TransactionKey, TransportContext,
@@ -259,13 +259,6 @@ impl ReferHandler {
         refer_to.contains("Replaces=") || refer_to.contains("Replaces%3D")
     }
 
-    fn extract_tag(value: &str) -> Option<SmolStr> {
-        value.split(';').find_map(|part| {
-            let trimmed = part.trim();
-            trimmed.strip_prefix("tag=").map(SmolStr::new)
-        })
-    }
-
     /// Extract the Replaces URI-header value from a Refer-To target and
     /// URL-decode it into its on-the-wire SIP header form.
     ///
@@ -311,9 +304,8 @@ impl ReferHandler {
             .clone();
         let from = header(request.headers(), "From").ok_or_else(|| anyhow!("Missing From"))?;
         let to = header(response.headers(), "To").ok_or_else(|| anyhow!("Missing To"))?;
-        let from_tag =
-            Self::extract_tag(from.as_str()).ok_or_else(|| anyhow!("Missing From tag"))?;
-        let to_tag = Self::extract_tag(to).ok_or_else(|| anyhow!("Missing To tag"))?;
+        let from_tag = extract_tag(from).ok_or_else(|| anyhow!("Missing From tag"))?;
+        let to_tag = extract_tag(to).ok_or_else(|| anyhow!("Missing To tag"))?;
 
         let remote_uri = sdp_utils::parse_name_addr_uri(from.as_str())
             .ok_or_else(|| anyhow!("Invalid From URI"))?;
-- 
2.43.0


From 0e650cc1dce05c72ee59366a26fad77d32fa9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 169/176] fix: siphond escapes the URI and Call-ID in NOTIFY
 bodies

---
 bins/siphond/src/handlers/subscribe.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bins/siphond/src/handlers/subscribe.rs b/bins/siphond/src/handlers/subscribe.rs
index 6f21725..dc6f077 100644
--- a/bins/siphond/src/handlers/subscribe.rs
+++ b/bins/siphond/src/handlers/subscribe.rs
@@ -161,7 +161,7 @@ impl SubscribeHandler {
     <status><basic>open</basic></status>\r\n\
   </tuple>\r\n\
 </presence>\r\n",
-                    subscription.remote_uri().as_str()
+                    xml_escape(subscription.remote_uri().as_str())
                 );
                 (Some("application/pidf+xml".to_string()), Some(body))
             }
@@ -180,8 +180,8 @@ impl SubscribeHandler {
     <state>confirmed</state>\r\n\
   </dialog>\r\n\
 </dialog-info>\r\n",
-                    subscription.remote_uri().as_str(),
-                    subscription.id().call_id()
+                    xml_escape(subscription.remote_uri().as_str()),
+                    xml_escape(subscription.id().call_id())
                 );
                 (Some("application/dialog-info+xml".to_string()), Some(body))
             }
@@ -190,6 +190,15 @@ impl SubscribeHandler {
     }
 }
 
+/// Escapes text for use in an XML attribute.
+fn xml_escape(s: &str) -> String {
+    s.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('"', "&quot;")
+        .replace('\'', "&apos;")
+}
+
 #[async_trait]
 impl RequestHandler for SubscribeHandler {
     async fn handle(
-- 
2.43.0


From d8ddab41dd6d9f00d798de733433819a264b6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 170/176] fix: requests siphond sends carry its address and
 their transport in the Via

---
 bins/siphond/src/handlers/mod.rs       | 38 ++++++++++++++++-
 bins/siphond/src/handlers/refer.rs     | 58 +++++++-------------------
 bins/siphond/src/handlers/subscribe.rs |  2 +
 3 files changed, 52 insertions(+), 46 deletions(-)

diff --git a/bins/siphond/src/handlers/mod.rs b/bins/siphond/src/handlers/mod.rs
index a513242..5509b68 100644
--- a/bins/siphond/src/handlers/mod.rs
+++ b/bins/siphond/src/handlers/mod.rs
@@ -5,8 +5,8 @@
 /// Request handler trait and method-specific handlers.
 use anyhow::Result;
 use async_trait::async_trait;
-use sip_core::Request;
-use sip_transaction::{ServerTransactionHandle, TransportContext};
+use sip_core::{Request, SipUri};
+use sip_transaction::{ServerTransactionHandle, TransportContext, TransportKind};
 
 use crate::services::ServiceRegistry;
 
@@ -23,6 +23,40 @@ pub mod register;
 pub mod subscribe;
 pub mod update;
 
+/// Completes the Via of a request siphond sends: the transport it goes over
+/// and the address responses are to be sent to (RFC 3261 §18.1.1).
+pub(crate) fn set_via(request: &mut Request, transport: TransportKind, local_uri: &SipUri) {
+    let transport_name = match transport {
+        TransportKind::Udp => "UDP",
+        TransportKind::Tcp => "TCP",
+        TransportKind::Tls => "TLS",
+        TransportKind::Ws => "WS",
+        TransportKind::Wss => "WSS",
+        TransportKind::Sctp => "SCTP",
+        TransportKind::TlsSctp => "TLS-SCTP",
+    };
+    let branch = request
+        .headers()
+        .get("Via")
+        .and_then(sip_transaction::branch_from_via)
+        .filter(|branch| !branch.is_empty())
+        .map(|branch| branch.to_string())
+        .unwrap_or_else(|| sip_transaction::generate_branch_id().to_string());
+    let host = local_uri.host();
+    let host = match host.parse::<std::net::Ipv6Addr>() {
+        Ok(_) => format!("[{host}]"),
+        Err(_) => host.to_string(),
+    };
+    let sent_by = match local_uri.port() {
+        Some(port) => format!("{host}:{port}"),
+        None => host,
+    };
+    let via = format!("SIP/2.0/{transport_name} {sent_by};branch={branch}");
+    if let Err(e) = request.headers_mut().set_or_push("Via", via) {
+        tracing::warn!(error = %e, "Failed to set Via header");
+    }
+}
+
 /// Trait for handling SIP request methods.
 ///
 /// Each handler is responsible for:
diff --git a/bins/siphond/src/handlers/refer.rs b/bins/siphond/src/handlers/refer.rs
index dce14ae..f2271cb 100644
--- a/bins/siphond/src/handlers/refer.rs
+++ b/bins/siphond/src/handlers/refer.rs
@@ -30,7 +30,7 @@
 /// it explicitly to enable UDP ACKs.
 use anyhow::{anyhow, Result};
 use async_trait::async_trait;
-use sip_core::{Headers, Request, Response, SipUri};
+use sip_core::{Request, Response, SipUri};
 use sip_dialog::{extract_tag, Subscription, SubscriptionId, SubscriptionState};
 use sip_parse::header;
 use sip_transaction::{
@@ -94,7 +94,7 @@ struct ReferTransferTransactionUser {
 
 impl ReferTransferTransactionUser {
     async fn send_notify(&self, status_code: u16, reason: &str) {
-        let notify = {
+        let mut notify = {
             let mut subscription = self.subscription.lock().await;
             match self
                 .uas
@@ -108,6 +108,12 @@ impl ReferTransferTransactionUser {
             }
         };
 
+        super::set_via(
+            &mut notify,
+            self.notify_ctx.transport(),
+            &self.uas.local_uri,
+        );
+
         let tu = Arc::new(ReferNotifyTransactionUser);
         if let Err(e) = self
             .transaction_mgr
@@ -163,9 +169,10 @@ impl ClientTransactionUser for ReferTransferTransactionUser {
             None
         };
 
-        let ack = self
+        let mut ack = self
             .uac
             .create_ack(&self.invite, &response, sdp_body.as_deref());
+        super::set_via(&mut ack, ctx.transport(), &self.uas.local_uri);
         let payload = sip_parse::serialize_request(&ack);
 
         match ctx.transport() {
@@ -344,13 +351,15 @@ impl ReferHandler {
             warn!("Transaction manager not available, cannot send REFER NOTIFY");
             return;
         };
-        let notify = match uas.create_notify_sipfrag(subscription, status, reason) {
+        let mut notify = match uas.create_notify_sipfrag(subscription, status, reason) {
             Ok(notify) => notify,
             Err(e) => {
                 warn!(error = %e, status, reason, "Failed to create REFER NOTIFY sipfrag");
                 return;
             }
         };
+        super::set_via(&mut notify, ctx.transport(), &uas.local_uri);
+
         let tu = Arc::new(ReferNotifyTransactionUser);
         if let Err(e) = transaction_mgr
             .start_client_transaction(notify, ctx.clone(), tu)
@@ -573,46 +582,7 @@ impl RequestHandler for ReferHandler {
                     let _ = invite.headers_mut().push("Replaces", replaces);
                 }
 
-                let transport_name = match transport {
-                    sip_transaction::TransportKind::Udp => "UDP",
-                    sip_transaction::TransportKind::Tcp => "TCP",
-                    sip_transaction::TransportKind::Tls => "TLS",
-                    sip_transaction::TransportKind::Ws => "WS",
-                    sip_transaction::TransportKind::Wss => "WSS",
-                    sip_transaction::TransportKind::Sctp => "SCTP",
-                    sip_transaction::TransportKind::TlsSctp => "TLS-SCTP",
-                };
-
-                // Find and replace the Via header
-                let mut new_headers = Headers::new();
-                let mut via_replaced = false;
-                for header in invite.headers().iter() {
-                    if !via_replaced && header.name().eq_ignore_ascii_case("Via") {
-                        let branch = sip_transaction::branch_from_via(header.value())
-                            .filter(|value| !value.is_empty())
-                            .map(|value| value.to_string())
-                            .unwrap_or_else(|| sip_transaction::generate_branch_id().to_string());
-                        let new_via =
-                            format!("SIP/2.0/{} placeholder;branch={}", transport_name, branch);
-                        if let Err(e) = new_headers.push(header.name(), new_via) {
-                            warn!(
-                                header = %header.name(),
-                                error = %e,
-                                "Failed to push Via header to REFER INVITE, skipping"
-                            );
-                        }
-                        via_replaced = true;
-                    } else {
-                        if let Err(e) = new_headers.push(header.name(), header.value()) {
-                            warn!(
-                                header = %header.name(),
-                                error = %e,
-                                "Failed to push header to REFER INVITE, skipping"
-                            );
-                        }
-                    }
-                }
-                *invite.headers_mut() = new_headers;
+                super::set_via(&mut invite, transport, &local_uri);
 
                 let ctx = TransportContext::new(transport, target_addr, None)
                     .with_ws_uri(ws_uri)
diff --git a/bins/siphond/src/handlers/subscribe.rs b/bins/siphond/src/handlers/subscribe.rs
index dc6f077..1aafdac 100644
--- a/bins/siphond/src/handlers/subscribe.rs
+++ b/bins/siphond/src/handlers/subscribe.rs
@@ -135,6 +135,8 @@ impl SubscribeHandler {
                 .set_or_push("Content-Type", content_type);
         }
 
+        super::set_via(&mut notify, ctx.transport(), &local_uri);
+
         debug!(
             subscription_id = ?subscription.id(),
             event = %subscription.id().event(),
-- 
2.43.0


From a0fa7989ee49ed6eadedbce1a542a97d4be78c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 171/176] fix: siphond calls Refer-To targets with an IPv6
 address

---
 bins/siphond/src/handlers/refer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bins/siphond/src/handlers/refer.rs b/bins/siphond/src/handlers/refer.rs
index f2271cb..b679b4e 100644
--- a/bins/siphond/src/handlers/refer.rs
+++ b/bins/siphond/src/handlers/refer.rs
@@ -508,14 +508,16 @@ impl RequestHandler for ReferHandler {
                 };
 
                 let target_port = refer_uri.port().unwrap_or(5060);
-                let target_addr = format!("{}:{}", refer_uri.host(), target_port);
-                let Ok(target_addr) = target_addr.parse::<std::net::SocketAddr>() else {
+                let target_host = refer_uri.host().trim_matches(|c| c == '[' || c == ']');
+                let Ok(target_ip) = target_host.parse::<std::net::IpAddr>() else {
                     warn!(call_id, "Invalid Refer-To target address");
                     Self::send_notify(&uas, &mut subscription, 400, "Bad Request", services, _ctx)
                         .await;
                     return Ok(());
                 };
 
+                let target_addr = std::net::SocketAddr::new(target_ip, target_port);
+
                 // SSRF guard: the Refer-To target is attacker-controlled (the
                 // transferor dictates it via the REFER). Without a filter
                 // the daemon will dial whatever address they name — including
-- 
2.43.0


From eabffcab356547751e3fd5aa38f9aa77c77641d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:16 +0000
Subject: [PATCH 172/176] fix: siphond acknowledges the answer of a transfer at
 its Contact

---
 bins/siphond/src/handlers/refer.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bins/siphond/src/handlers/refer.rs b/bins/siphond/src/handlers/refer.rs
index b679b4e..e910b14 100644
--- a/bins/siphond/src/handlers/refer.rs
+++ b/bins/siphond/src/handlers/refer.rs
@@ -172,6 +172,11 @@ impl ClientTransactionUser for ReferTransferTransactionUser {
         let mut ack = self
             .uac
             .create_ack(&self.invite, &response, sdp_body.as_deref());
+        // RFC 3261 §13.2.2.4: the ACK of a 2xx is a request within the dialog
+        // the response makes, so it goes to the Contact and along the route.
+        if let Some(dialog) = self.uac.process_invite_response(&self.invite, &response) {
+            apply_route_set(&mut ack, &dialog);
+        }
         super::set_via(&mut ack, ctx.transport(), &self.uas.local_uri);
         let payload = sip_parse::serialize_request(&ack);
 
@@ -250,6 +255,30 @@ impl ClientTransactionUser for ReferTransferTransactionUser {
     }
 }
 
+/// Addresses a request to the remote target of its dialog, along the route set
+/// (RFC 3261 §12.2.1.1).
+fn apply_route_set(request: &mut Request, dialog: &sip_dialog::Dialog) {
+    let mut routes = dialog.route_set().to_vec();
+    let target = dialog.remote_target().clone();
+    let strict = routes
+        .first()
+        .is_some_and(|route| !route.params().contains_key(&SmolStr::new("lr")));
+    if strict {
+        request.set_uri(routes.remove(0));
+        routes.push(target);
+    } else {
+        request.set_uri(target);
+    }
+    for route in routes {
+        if let Err(e) = request
+            .headers_mut()
+            .push("Route", format!("<{}>", route.as_str()))
+        {
+            warn!(error = %e, "Failed to add Route header");
+        }
+    }
+}
+
 impl ReferHandler {
     pub fn new() -> Self {
         Self
-- 
2.43.0


From 31b13d7e39f016463fcbafdf6d7b33a5990ccfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:16 +0000
Subject: [PATCH 173/176] fix: siphond reports the outcome of a transfer once

---
 bins/siphond/src/handlers/refer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bins/siphond/src/handlers/refer.rs b/bins/siphond/src/handlers/refer.rs
index e910b14..08a2cb9 100644
--- a/bins/siphond/src/handlers/refer.rs
+++ b/bins/siphond/src/handlers/refer.rs
@@ -96,6 +96,14 @@ impl ReferTransferTransactionUser {
     async fn send_notify(&self, status_code: u16, reason: &str) {
         let mut notify = {
             let mut subscription = self.subscription.lock().await;
+            // RFC 3515 §2.4.4: one NOTIFY tells the outcome and ends the
+            // subscription; nothing follows it.
+            if subscription.state() == SubscriptionState::Terminated {
+                return;
+            }
+            if status_code >= 200 {
+                subscription.update_state(SubscriptionState::Terminated);
+            }
             match self
                 .uas
                 .create_notify_sipfrag(&mut subscription, status_code, reason)
-- 
2.43.0


From 7aeea14bd37fe4e9e5f29426bb527d46630570a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 174/176] fix: siphond answers the session interval it was
 asked for

---
 bins/siphond/src/handlers/invite.rs |  6 +++++-
 bins/siphond/src/handlers/mod.rs    | 30 ++++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/bins/siphond/src/handlers/invite.rs b/bins/siphond/src/handlers/invite.rs
index 11ee2dd..c8e5de5 100644
--- a/bins/siphond/src/handlers/invite.rs
+++ b/bins/siphond/src/handlers/invite.rs
@@ -1192,9 +1192,12 @@ impl RequestHandler for InviteHandler {
             uas.rseq_manager = services.rseq_mgr.clone();
             uas.prack_validator = services.prack_validator.clone();
 
-            let ok = uas
+            let mut ok = uas
                 .create_ok(request, sdp_body.as_deref())
                 .expect("valid 200 OK response");
+            if services.config.features.enable_session_timers {
+                super::answer_session_timer(request, &mut ok);
+            }
             dialog.update_from_response(&ok);
 
             if services.config.features.enable_session_timers {
@@ -1479,6 +1482,7 @@ impl RequestHandler for InviteHandler {
         match result {
             Ok((mut response, mut dialog)) => {
                 if services.config.features.enable_session_timers {
+                    super::answer_session_timer(request, &mut response);
                     let has_se = response.headers().get("Session-Expires").is_some();
                     if !has_se {
                         let _ = response.headers_mut().push(
diff --git a/bins/siphond/src/handlers/mod.rs b/bins/siphond/src/handlers/mod.rs
index 5509b68..be7a77e 100644
--- a/bins/siphond/src/handlers/mod.rs
+++ b/bins/siphond/src/handlers/mod.rs
@@ -5,7 +5,7 @@
 /// Request handler trait and method-specific handlers.
 use anyhow::Result;
 use async_trait::async_trait;
-use sip_core::{Request, SipUri};
+use sip_core::{Request, Response, SipUri};
 use sip_transaction::{ServerTransactionHandle, TransportContext, TransportKind};
 
 use crate::services::ServiceRegistry;
@@ -23,6 +23,34 @@ pub mod register;
 pub mod subscribe;
 pub mod update;
 
+/// Answers the session interval a request asks for (RFC 4028 §9): the interval
+/// is not lengthened, and the refresher is named.
+pub(crate) fn answer_session_timer(request: &Request, response: &mut Response) {
+    let Some(requested) = sip_parse::header(request.headers(), "Session-Expires")
+        .and_then(sip_parse::parse_session_expires)
+    else {
+        return;
+    };
+    let refresher = requested
+        .refresher()
+        .unwrap_or(sip_core::RefresherRole::Uac);
+    let value = format!(
+        "{};refresher={}",
+        requested.delta_seconds(),
+        refresher.as_str()
+    );
+    let headers = response.headers_mut();
+    for (name, value) in [
+        ("Session-Expires", value.as_str()),
+        ("Require", "timer"),
+        ("Supported", "timer"),
+    ] {
+        if let Err(e) = headers.push(name, value) {
+            tracing::warn!(error = %e, name, "Failed to add header");
+        }
+    }
+}
+
 /// Completes the Via of a request siphond sends: the transport it goes over
 /// and the address responses are to be sent to (RFC 3261 §18.1.1).
 pub(crate) fn set_via(request: &mut Request, transport: TransportKind, local_uri: &SipUri) {
-- 
2.43.0


From aecf0930634d2aff46e4e569c1c892074658661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 175/176] fix: siphond refreshes the session when the UAS is to

---
 bins/siphond/src/handlers/invite.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bins/siphond/src/handlers/invite.rs b/bins/siphond/src/handlers/invite.rs
index c8e5de5..a68037a 100644
--- a/bins/siphond/src/handlers/invite.rs
+++ b/bins/siphond/src/handlers/invite.rs
@@ -1203,7 +1203,7 @@ impl RequestHandler for InviteHandler {
             if services.config.features.enable_session_timers {
                 if let Some(session_expires) = dialog.session_expires() {
                     let is_refresher =
-                        matches!(dialog.refresher(), Some(sip_core::RefresherRole::Uac));
+                        matches!(dialog.refresher(), Some(sip_core::RefresherRole::Uas));
                     services.session_timer_mgr.refresh_timer(
                         dialog.id().clone(),
                         session_expires,
@@ -1499,7 +1499,7 @@ impl RequestHandler for InviteHandler {
 
                     if let Some(session_expires) = dialog.session_expires() {
                         let is_refresher =
-                            matches!(dialog.refresher(), Some(sip_core::RefresherRole::Uac));
+                            matches!(dialog.refresher(), Some(sip_core::RefresherRole::Uas));
                         services.session_timer_mgr.start_timer(
                             dialog.id().clone(),
                             session_expires,
-- 
2.43.0


From 69f994bda888842aeb5f3b4c3fcfa845eb5643d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 176/176] fix: an UPDATE refreshes the session timer of siphond

---
 bins/siphond/src/handlers/update.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bins/siphond/src/handlers/update.rs b/bins/siphond/src/handlers/update.rs
index e6fff30..1ed1ed6 100644
--- a/bins/siphond/src/handlers/update.rs
+++ b/bins/siphond/src/handlers/update.rs
@@ -105,10 +105,24 @@ impl RequestHandler for UpdateHandler {
         uas.rseq_manager = services.rseq_mgr.clone();
         uas.prack_validator = services.prack_validator.clone();
 
-        let response = uas
+        let mut response = uas
             .create_ok(request, sdp_body.as_deref())
             .expect("valid 200 OK response");
+        if services.config.features.enable_session_timers {
+            super::answer_session_timer(request, &mut response);
+        }
         dialog.update_from_response(&response);
+        // RFC 4028 §10: an UPDATE refreshes the session as a re-INVITE does.
+        if services.config.features.enable_session_timers {
+            if let Some(session_expires) = dialog.session_expires() {
+                let is_refresher = matches!(dialog.refresher(), Some(sip_core::RefresherRole::Uas));
+                services.session_timer_mgr.refresh_timer(
+                    dialog.id().clone(),
+                    session_expires,
+                    is_refresher,
+                );
+            }
+        }
         let _ = services.dialog_mgr.insert(dialog);
 
         info!(call_id, "UPDATE accepted");
-- 
2.43.0

