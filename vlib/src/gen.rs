//! Generators shared by the harnesses.
use crate::Src;

pub const ALNUM: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
pub const TOKEN_EXTRA: &str = "-.!%*_+`'~";

pub fn chars(s: &mut Src, set: &str, lo: usize, hi: usize) -> String {
    let v: Vec<char> = set.chars().collect();
    let n = s.urange(lo, hi);
    (0..n).map(|_| *s.pick(&v)).collect()
}
pub fn alnum(s: &mut Src, lo: usize, hi: usize) -> String {
    chars(s, ALNUM, lo, hi)
}
pub fn lower(s: &mut Src, lo: usize, hi: usize) -> String {
    chars(s, "abcdefghijklmnopqrstuvwxyz", lo, hi)
}
pub fn digits(s: &mut Src, lo: usize, hi: usize) -> String {
    chars(s, "0123456789", lo, hi)
}
pub fn hex(s: &mut Src, lo: usize, hi: usize) -> String {
    chars(s, "0123456789abcdef", lo, hi)
}
/// RFC 3261 token.
pub fn token(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.urange(lo, hi);
    let a: Vec<char> = ALNUM.chars().collect();
    let e: Vec<char> = TOKEN_EXTRA.chars().collect();
    (0..n).map(|_| if s.chance(1, 6) { *s.pick(&e) } else { *s.pick(&a) }).collect()
}
/// Identifier starting with a letter: letters, digits, '-'.
pub fn ident(s: &mut Src, lo: usize, hi: usize) -> String {
    let mut r = lower(s, 1, 1);
    r.push_str(&chars(s, "abcdefghijklmnopqrstuvwxyz0123456789-", lo.saturating_sub(1), hi.saturating_sub(1)));
    r
}
pub fn label(s: &mut Src) -> String {
    let mut r = alnum(s, 1, 4);
    if s.chance(1, 3) {
        r.push('-');
        r.push_str(&alnum(s, 1, 4));
    }
    r
}
pub fn hostname(s: &mut Src) -> String {
    let n = s.urange(1, 3);
    let mut v: Vec<String> = (0..n).map(|_| label(s)).collect();
    v.push(lower(s, 2, 4));
    v.join(".")
}
pub fn ipv4(s: &mut Src) -> String {
    let o: Vec<String> = (0..4).map(|_| s.num(255).to_string()).collect();
    o.join(".")
}
pub fn ipv6(s: &mut Src) -> std::net::Ipv6Addr {
    let mut g = [0u16; 8];
    for x in g.iter_mut() {
        *x = if s.coin() { 0 } else { s.num(0xffff) as u16 };
    }
    std::net::Ipv6Addr::from(g)
}
/// Host for a SIP URI or Via: name, IPv4 or bracketed IPv6.
pub fn host(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 2]) {
        0 => hostname(s),
        1 => ipv4(s),
        _ => format!("[{}]", ipv6(s)),
    }
}
pub fn port(s: &mut Src) -> u16 {
    match s.weighted(&[3, 2, 1]) {
        0 => *s.pick(&[5060u16, 5061, 5070, 80]),
        1 => s.range(1, 65535) as u16,
        _ => *s.pick(&[1u16, 65535, 1024, 9]),
    }
}
/// Printable text without control characters; may hold quotes, separators and non-ASCII.
pub fn text(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.urange(lo, hi);
    let nasty: Vec<char> = "\"\\<>;:@,=?&%#'()[]{}/| \t".chars().filter(|c| *c != '\t').collect();
    let uni: Vec<char> = "éßЖ中😀\u{a0}\u{301}".chars().collect();
    let a: Vec<char> = ALNUM.chars().collect();
    (0..n).map(|_| match s.weighted(&[8, 3, 1]) {
        0 => *s.pick(&a),
        1 => *s.pick(&nasty),
        _ => *s.pick(&uni),
    }).collect()
}
/// ASCII printable text.
pub fn ascii_text(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.urange(lo, hi);
    (0..n).map(|_| if s.chance(1, 3) {
        (0x20 + s.below(0x5f)) as u8 as char
    } else {
        *s.pick(ALNUM.as_bytes()) as char
    }).collect()
}
/// Any characters, heavy on controls and delimiters.
pub fn nasty(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.urange(lo, hi);
    let ctl: Vec<char> = "\r\n\0\t\u{7f}\u{85}\u{2028}\u{1}\u{b}\u{c}".chars().collect();
    let del: Vec<char> = "\"\\<>;:@,=?&%#'()[]{}/| ".chars().collect();
    let uni: Vec<char> = "éßЖ中😀\u{301}\u{202e}\u{feff}".chars().collect();
    let a: Vec<char> = ALNUM.chars().collect();
    let mut out = String::new();
    for _ in 0..n {
        match s.weighted(&[8, 2, 5, 1, 1]) {
            0 => out.push(*s.pick(&a)),
            1 => out.push(*s.pick(&ctl)),
            2 => out.push(*s.pick(&del)),
            3 => out.push(*s.pick(&uni)),
            _ => out.push_str(s.pick(&["\r\n", "\r\n\r\n", "\n ", "%00", "%0d%0a", "%", "%zz", "::", "\\\"", "&amp;", "<!--", "]]>"])),
        }
    }
    out
}
pub fn bytes(s: &mut Src, lo: usize, hi: usize) -> Vec<u8> {
    let n = s.urange(lo, hi);
    (0..n).map(|_| s.below(256) as u8).collect()
}
/// RFC 3261 quoted-string spelling of `v`.
pub fn quote(v: &str) -> String {
    let mut o = String::from("\"");
    for c in v.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}
/// Random case changes of ASCII letters.
pub fn recase(s: &mut Src, v: &str) -> String {
    v.chars().map(|c| if s.coin() {
        if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
    } else { c }).collect()
}
/// Byte-level mutations of a seed input.
pub fn mutate(s: &mut Src, base: &[u8], max_ops: usize) -> Vec<u8> {
    let mut v = base.to_vec();
    let n = s.urange(1, max_ops);
    for _ in 0..n {
        let len = v.len();
        match s.weighted(&[4, 4, 3, 3, 2, 2, 3, 2]) {
            0 => {
                // insert an interesting byte
                let b = *s.pick(b"\r\n\t \0\"\\<>;:@,=?&%()[]/0189aZ-+.*\x80\xff\xc3\xa9");
                v.insert(s.idx(len + 1), b);
            }
            1 if len > 0 => {
                let i = s.idx(len);
                let k = s.urange(1, 8).min(len - i);
                v.drain(i..i + k);
            }
            2 if len > 0 => {
                let i = s.idx(len);
                v[i] = s.below(256) as u8;
            }
            3 if len > 0 => {
                // duplicate a slice
                let i = s.idx(len);
                let k = s.urange(1, 40).min(len - i);
                let sl = v[i..i + k].to_vec();
                let at = s.idx(v.len() + 1);
                v.splice(at..at, sl);
            }
            4 => {
                let t = *s.pick(&["\r\n", "\r\n\r\n", "99999999999999999999", "-1", "4294967296", "65536", "2147483648", "é", "😀", "%C3", "%", "\"", "\\", "<>", "&#x0;", "]]>", "<a/>", ";;", "=", "0", "\n ", "sip:", "tel:", "[::1]", "::", "18446744073709551616", "+", "e9", ".", "..", "{", "\u{130}", "\u{1e9e}"]);
                let at = s.idx(len + 1);
                v.splice(at..at, t.bytes());
            }
            5 if len > 0 => v.truncate(s.idx(len)),
            6 if len > 0 => {
                // swap one byte for a similar one
                let i = s.idx(len);
                v[i] ^= 1 << s.below(8);
            }
            7 if len > 1 => {
                let i = s.idx(len);
                let j = s.idx(len);
                v.swap(i, j);
            }
            _ => {}
        }
    }
    v
}
