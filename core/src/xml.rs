//! A small strict XML 1.0 reader and a writer with random spelling, independent of the library.
use vlib::Src;

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub ns: String,
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}
impl El {
    pub fn new(ns: &str, name: &str) -> El {
        El { ns: ns.into(), name: name.into(), attrs: vec![], kids: vec![] }
    }
    pub fn attr(mut self, k: &str, v: impl ToString) -> El {
        self.attrs.push((k.into(), v.to_string()));
        self
    }
    pub fn text(mut self, t: impl ToString) -> El {
        self.kids.push(Node::Text(t.to_string()));
        self
    }
    pub fn kid(mut self, e: El) -> El {
        self.kids.push(Node::El(e));
        self
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|n| match n {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn named<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.els().filter(move |e| e.name == n)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn content(&self) -> String {
        self.kids.iter().map(|n| match n {
            Node::Text(t) => t.as_str(),
            _ => "",
        }).collect()
    }
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}
fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}
fn name_char(c: char) -> bool {
    c.is_alphanumeric() || "-._:".contains(c)
}
impl P<'_> {
    fn at(&self, t: &str) -> bool {
        let t: Vec<char> = t.chars().collect();
        self.s[self.i..].starts_with(&t)
    }
    fn until(&mut self, t: &str) -> Result<String, String> {
        let a = self.i;
        while self.i < self.s.len() {
            if self.at(t) {
                let r = self.s[a..self.i].iter().collect();
                self.i += t.chars().count();
                return Ok(r);
            }
            self.i += 1;
        }
        Err(format!("no {t:?}"))
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while self.i < self.s.len() && " \t\r\n".contains(self.s[self.i]) {
            self.i += 1;
        }
        self.i > a
    }
    fn name(&mut self) -> Result<String, String> {
        let a = self.i;
        while self.i < self.s.len() && name_char(self.s[self.i]) {
            self.i += 1;
        }
        if a == self.i || self.s[a].is_ascii_digit() || "-.".contains(self.s[a]) {
            return Err(format!("name expected at {a}"));
        }
        Ok(self.s[a..self.i].iter().collect())
    }
    fn ch(&mut self, c: char) -> Result<(), String> {
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            return Ok(());
        }
        Err(format!("{c:?} expected at {}", self.i))
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.at("<!--") {
                self.i += 4;
                let c = self.until("-->")?;
                if c.contains("--") {
                    return Err("-- in comment".into());
                }
            } else if self.at("<?") {
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn element(&mut self, scope: &[(String, String)], depth: usize) -> Result<El, String> {
        if depth > 40 {
            return Err("deep".into());
        }
        self.ch('<')?;
        let q = self.name()?;
        let mut raw: Vec<(String, String)> = vec![];
        loop {
            let sp = self.ws();
            if self.at("/>") || self.at(">") {
                break;
            }
            if !sp {
                return Err("space expected before attribute".into());
            }
            let n = self.name()?;
            self.ws();
            self.ch('=')?;
            self.ws();
            let quo = *self.s.get(self.i).ok_or("eof")?;
            if quo != '"' && quo != '\'' {
                return Err("quote expected".into());
            }
            self.i += 1;
            let v = self.until(&quo.to_string())?;
            if v.contains('<') {
                return Err("< in attribute".into());
            }
            // attribute-value normalization: literal white space becomes a space
            let v: String = v.chars().map(|c| if "\t\r\n".contains(c) { ' ' } else { c }).collect();
            if raw.iter().any(|(k, _)| *k == n) {
                return Err(format!("duplicate attribute {n}"));
            }
            raw.push((n, entities(&v)?));
        }
        let mut scope = scope.to_vec();
        for (k, v) in &raw {
            if k == "xmlns" {
                scope.push((String::new(), v.clone()));
            } else if let Some(p) = k.strip_prefix("xmlns:") {
                scope.push((p.into(), v.clone()));
            }
        }
        let (p, l) = match q.split_once(':') {
            Some((p, l)) => (p, l),
            None => ("", q.as_str()),
        };
        let ns = match scope.iter().rev().find(|s| s.0 == p) {
            Some(s) => s.1.clone(),
            None if p.is_empty() => String::new(),
            None => return Err(format!("unbound prefix {p}")),
        };
        let mut el = El::new(&ns, l);
        el.attrs = raw.into_iter().filter(|a| a.0 != "xmlns" && !a.0.starts_with("xmlns:")).collect();
        if self.at("/>") {
            self.i += 2;
            return Ok(el);
        }
        self.ch('>')?;
        loop {
            if self.i >= self.s.len() {
                return Err("unclosed element".into());
            }
            if self.at("</") {
                self.i += 2;
                let n = self.name()?;
                if n != q {
                    return Err(format!("{q} closed by {n}"));
                }
                self.ws();
                self.ch('>')?;
                return Ok(el);
            } else if self.at("<!--") {
                self.i += 4;
                self.until("-->")?;
            } else if self.at("<![CDATA[") {
                self.i += 9;
                let t = self.until("]]>")?;
                push_text(&mut el, t);
            } else if self.at("<?") {
                self.until("?>")?;
            } else if self.at("<") {
                let k = self.element(&scope, depth + 1)?;
                el.kids.push(Node::El(k));
            } else {
                let a = self.i;
                while self.i < self.s.len() && self.s[self.i] != '<' {
                    self.i += 1;
                }
                let t: String = self.s[a..self.i].iter().collect();
                if t.contains("]]>") {
                    return Err("]]> in text".into());
                }
                push_text(&mut el, entities(&t.replace("\r\n", "\n").replace('\r', "\n"))?);
            }
        }
    }
}
fn push_text(el: &mut El, t: String) {
    if let Some(Node::Text(p)) = el.kids.last_mut() {
        p.push_str(&t);
    } else if !t.is_empty() {
        el.kids.push(Node::Text(t));
    }
}
fn entities(t: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut r = t;
    while let Some(i) = r.find('&') {
        o += &r[..i];
        let j = r[i..].find(';').ok_or("bare &")? + i;
        match &r[i + 1..j] {
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "amp" => o.push('&'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            e => {
                let n = if let Some(h) = e.strip_prefix("#x") { u32::from_str_radix(h, 16) } else { e.strip_prefix('#').unwrap_or("z").parse() };
                let c = n.ok().and_then(char::from_u32).filter(|c| legal(*c)).ok_or(format!("entity {e}"))?;
                o.push(c);
            }
        }
        r = &r[j + 1..];
    }
    Ok(o + r)
}
/// Well-formed document or the reason it is not one.
pub fn parse(t: &str) -> Result<El, String> {
    let s: Vec<char> = t.chars().collect();
    if let Some(c) = s.iter().find(|c| !legal(**c)) {
        return Err(format!("illegal character {c:?}"));
    }
    let mut p = P { s: &s, i: 0 };
    p.misc()?;
    let e = p.element(&[("xml".into(), "xml".into())], 0)?;
    p.misc()?;
    if p.i != s.len() {
        return Err("content after the document element".into());
    }
    Ok(e)
}

/// How a document is spelled: prefix per namespace, indentation, comments.
pub struct Style {
    pub prefix: Vec<(String, String)>,
    pub indent: bool,
    pub noise: bool,
}
fn esc(s: &mut Src, t: &str, attr: Option<char>) -> String {
    let mut o = String::new();
    let edge = t.chars().count();
    for (i, c) in t.chars().enumerate() {
        let must = c == '<' || c == '&' || attr == Some(c) || (c == '>' && attr.is_none());
        let ws_edge = attr.is_none() && (i == 0 || i + 1 == edge) && c.is_whitespace();
        let named = match c {
            '<' => Some("&lt;"),
            '>' => Some("&gt;"),
            '&' => Some("&amp;"),
            '"' => Some("&quot;"),
            '\'' => Some("&apos;"),
            _ => None,
        };
        if must || ws_edge || s.chance(1, 12) {
            match (named, s.below(3)) {
                (Some(n), 0 | 1) => o += n,
                (_, 2) => o += &format!("&#{};", c as u32),
                _ => o += &format!("&#x{};", if s.coin() { format!("{:x}", c as u32) } else { format!("{:04X}", c as u32) }),
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn ws1(s: &mut Src) -> &'static str {
    *s.pick(&[" ", " ", " ", "  ", "\n ", "\t"])
}
fn ws0(s: &mut Src) -> &'static str {
    *s.pick(&["", "", "", "", " ", "\n"])
}
const LURES: &[&str] = &[
    "<!-- <note>x</note> -->",
    "<!-- <tuple id=\"zz\"><status><basic>closed</basic></status></tuple> -->",
    "<!-- <watcher id='q' status='active' event='approved'>sip:x@y</watcher> -->",
    "<!-- </tuple> & > -->",
    "<?pi <note>x</note>?>",
];
fn write_el(s: &mut Src, st: &Style, e: &El, depth: usize, root: bool, o: &mut String) {
    let p = st.prefix.iter().find(|p| p.0 == e.ns).map(|p| p.1.clone()).unwrap_or_default();
    let q = if p.is_empty() { e.name.clone() } else { format!("{p}:{}", e.name) };
    let mut attrs = e.attrs.clone();
    if root {
        for (ns, p) in &st.prefix {
            if !ns.is_empty() {
                attrs.push((if p.is_empty() { "xmlns".into() } else { format!("xmlns:{p}") }, ns.clone()));
            }
        }
    }
    s.shuffle(&mut attrs);
    *o += &format!("<{q}");
    for (k, v) in &attrs {
        let quo = *s.pick(&['"', '"', '\'']);
        *o += &format!("{}{k}{}={}{quo}{}{quo}", ws1(s), ws0(s), ws0(s), esc(s, v, Some(quo)));
    }
    *o += ws0(s);
    let has_text = e.kids.iter().any(|k| matches!(k, Node::Text(_)));
    if e.kids.is_empty() && s.chance(2, 3) {
        *o += "/>";
        return;
    }
    *o += ">";
    for k in &e.kids {
        match k {
            Node::Text(t) => {
                if !t.contains("]]>") && s.chance(1, 8) {
                    *o += &format!("<![CDATA[{t}]]>");
                } else {
                    *o += &esc(s, t, None);
                }
            }
            Node::El(c) => {
                if st.indent && !has_text {
                    *o += &format!("\n{}", "  ".repeat(depth + 1));
                }
                if st.noise && s.chance(1, 4) {
                    *o += *s.pick(LURES);
                }
                write_el(s, st, c, depth + 1, false, o);
            }
        }
    }
    if st.indent && !has_text {
        *o += &format!("\n{}", "  ".repeat(depth));
    }
    *o += &format!("</{q}{}>", ws0(s));
}
pub fn write(s: &mut Src, st: &Style, e: &El) -> String {
    let mut o = s.pick(&["<?xml version=\"1.0\"?>\n", "<?xml version='1.0' encoding='UTF-8'?>\n", "", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>"]).to_string();
    if st.noise && s.coin() {
        o += *s.pick(LURES);
    }
    write_el(s, st, e, 0, true, &mut o);
    o += *s.pick(&["", "\n", "\r\n", "\n<!-- end -->"]);
    o
}
