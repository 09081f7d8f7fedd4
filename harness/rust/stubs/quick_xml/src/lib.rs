//! The events of an XML document, as far as the library uses them.
use std::borrow::Cow;
use std::io::{BufRead, Read, Write};
#[derive(Debug)]
pub enum Error { Io(std::io::Error), Syntax(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub mod escape {
    use std::borrow::Cow;
    pub fn unescape(s: &str) -> Result<Cow<'_, str>, super::Error> {
        let mut o = String::new();
        let mut r = s;
        while let Some(i) = r.find('&') {
            o.push_str(&r[..i]);
            let j = r[i..].find(';').ok_or(super::Error::Syntax("entity".into()))? + i;
            let e = &r[i + 1..j];
            match e {
                "lt" => o.push('<'), "gt" => o.push('>'), "amp" => o.push('&'), "apos" => o.push('\''), "quot" => o.push('"'),
                _ if e.starts_with("#x") => o.push(u32::from_str_radix(&e[2..], 16).ok().and_then(char::from_u32).ok_or(super::Error::Syntax("entity".into()))?),
                _ if e.starts_with('#') => o.push(e[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or(super::Error::Syntax("entity".into()))?),
                _ => return Err(super::Error::Syntax("entity".into())),
            }
            r = &r[j + 1..];
        }
        o.push_str(r);
        Ok(Cow::Owned(o))
    }
    pub fn escape(s: &str) -> Cow<'_, str> {
        let mut o = String::new();
        for c in s.chars() { match c { '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), '&' => o.push_str("&amp;"), '\'' => o.push_str("&apos;"), '"' => o.push_str("&quot;"), _ => o.push(c) } }
        Cow::Owned(o)
    }
}
pub mod name {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct QName<'a>(pub &'a [u8]);
    impl<'a> AsRef<[u8]> for QName<'a> { fn as_ref(&self) -> &[u8] { self.0 } }
}
pub mod events {
    use super::*;
    use super::name::QName;
    #[derive(Debug, Clone)]
    pub struct BytesStart<'a> { pub(crate) name: String, pub(crate) attrs: Vec<(String, String)>, p: std::marker::PhantomData<&'a ()> }
    #[derive(Debug, Clone)]
    pub struct BytesEnd<'a> { pub(crate) name: String, p: std::marker::PhantomData<&'a ()> }
    #[derive(Debug, Clone)]
    pub struct BytesText<'a> { pub(crate) text: String, p: std::marker::PhantomData<&'a ()> }
    /// attributes hold their text as it stands in the document
    impl<'a> BytesStart<'a> {
        pub fn new(n: impl Into<String>) -> Self { BytesStart { name: n.into(), attrs: vec![], p: std::marker::PhantomData } }
        pub fn push_attribute(&mut self, a: (&str, &str)) { self.attrs.push((a.0.to_string(), escape::escape(a.1).into_owned())) }
        pub fn name(&self) -> QName<'_> { QName(self.name.as_bytes()) }
        pub fn attributes(&self) -> std::vec::IntoIter<Result<attributes::Attribute<'_>, attributes::AttrError>> {
            self.attrs.iter().map(|(k, v)| Ok(attributes::Attribute { key: QName(k.as_bytes()), value: Cow::Borrowed(v.as_bytes()) })).collect::<Vec<_>>().into_iter()
        }
    }
    impl<'a> BytesEnd<'a> {
        pub fn new(n: impl Into<String>) -> Self { BytesEnd { name: n.into(), p: std::marker::PhantomData } }
        pub fn name(&self) -> QName<'_> { QName(self.name.as_bytes()) }
    }
    impl<'a> BytesText<'a> { pub fn new(t: &str) -> Self { BytesText { text: escape::escape(t).into_owned(), p: std::marker::PhantomData } } }
    #[derive(Debug, Clone)]
    pub enum Event<'a> { Start(BytesStart<'a>), End(BytesEnd<'a>), Empty(BytesStart<'a>), Text(BytesText<'a>), Comment(String), Decl(String), PI(String), DocType(String), CData(String), Eof }
    pub mod attributes {
        use super::*;
        #[derive(Debug, Clone)]
        pub struct Attribute<'a> { pub key: QName<'a>, pub value: Cow<'a, [u8]> }
        #[derive(Debug, Clone)]
        pub struct AttrError;
    }
}
use events::*;
pub struct Writer<W: Write> { w: W, indent: Option<(u8, usize)>, depth: usize, line: bool }
impl<W: Write> Writer<W> {
    pub fn new(w: W) -> Self { Writer { w, indent: None, depth: 0, line: false } }
    pub fn new_with_indent(w: W, c: u8, n: usize) -> Self { Writer { w, indent: Some((c, n)), depth: 0, line: false } }
    pub fn get_ref(&self) -> &W { &self.w }
    pub fn into_inner(self) -> W { self.w }
    fn open(&mut self, e: &BytesStart, end: &str) -> String { format!("<{}{}{}>", e.name, e.attrs.iter().map(|(k, v)| format!(" {}=\"{}\"", k, v)).collect::<String>(), end) }
    fn put(&mut self, s: &str, text: bool) -> Result<(), Error> {
        let mut o = String::new();
        if let (Some((c, n)), false) = (self.indent, text) { if self.line { o.push('\n'); for _ in 0..self.depth * n { o.push(c as char) } } }
        o.push_str(s);
        self.line = !text;
        self.w.write_all(o.as_bytes()).map_err(Error::Io)
    }
    pub fn write_event<'a, E: AsRef<Event<'a>>>(&mut self, e: E) -> Result<(), Error> {
        match e.as_ref() {
            Event::Start(s) => { let t = self.open(s, ""); self.put(&t, false)?; self.depth += 1; Ok(()) }
            Event::End(n) => { self.depth -= 1; self.put(&format!("</{}>", n.name), false) }
            Event::Empty(s) => { let t = self.open(s, "/"); self.put(&t, false) }
            Event::Text(t) => self.put(&t.text.clone(), true),
            _ => Ok(()),
        }
    }
}
impl<'a> AsRef<Event<'a>> for Event<'a> { fn as_ref(&self) -> &Event<'a> { self } }
pub struct Reader<R> { r: R, doc: Option<String>, at: usize, stack: Vec<String> }
impl Reader<std::io::BufReader<std::fs::File>> {
    pub fn from_file(p: impl AsRef<std::path::Path>) -> Result<Self, Error> { Ok(Reader { r: std::io::BufReader::new(std::fs::File::open(p).map_err(Error::Io)?), doc: None, at: 0, stack: vec![] }) }
}
impl<R: BufRead + Read> Reader<R> {
    pub fn read_event_into<'b>(&mut self, _b: &'b mut Vec<u8>) -> Result<Event<'b>, Error> {
        if self.doc.is_none() { let mut s = String::new(); self.r.read_to_string(&mut s).map_err(Error::Io)?; self.doc = Some(s.trim_start_matches('\u{feff}').to_string()); }
        let d = self.doc.as_ref().unwrap();
        let rest = &d[self.at..];
        if rest.is_empty() { return Ok(Event::Eof); }
        let bad = |m: &str| Error::Syntax(m.to_string());
        let upto = |pat: &str| rest.find(pat).map(|i| i + pat.len());
        if !rest.starts_with('<') {
            let n = rest.find('<').unwrap_or(rest.len());
            let t = rest[..n].to_string();
            self.at += n;
            let mut x = BytesText::new("");
            x.text = t;
            return Ok(Event::Text(x));
        }
        if rest.starts_with("<!--") { let n = upto("-->").ok_or(bad("comment"))?; let t = rest[..n].into(); self.at += n; return Ok(Event::Comment(t)); }
        if rest.starts_with("<![CDATA[") { let n = upto("]]>").ok_or(bad("cdata"))?; let t = rest[9..n - 3].into(); self.at += n; return Ok(Event::CData(t)); }
        if rest.starts_with("<?") { let n = upto("?>").ok_or(bad("decl"))?; let t = rest[..n].into(); self.at += n; return Ok(Event::Decl(t)); }
        if rest.starts_with("<!") { let n = upto(">").ok_or(bad("doctype"))?; let t = rest[..n].into(); self.at += n; return Ok(Event::DocType(t)); }
        // a tag: quotes may hide its end
        let mut q: Option<char> = None;
        let mut n = 0;
        for (i, c) in rest.char_indices() {
            match q { Some(k) => if c == k { q = None }, None => if c == '"' || c == '\'' { q = Some(c) } else if c == '>' { n = i + 1; break } }
        }
        if n == 0 { return Err(bad("tag")); }
        let body = rest[1..n - 1].to_string();
        self.at += n;
        if let Some(e) = body.strip_prefix('/') {
            let name = e.trim().to_string();
            return match self.stack.pop() { Some(o) if o == name => Ok(Event::End(BytesEnd::new(name))), _ => Err(bad("end")) };
        }
        let (body, empty) = match body.strip_suffix('/') { Some(b) => (b.to_string(), true), None => (body, false) };
        let k = body.find(|c: char| c.is_whitespace()).unwrap_or(body.len());
        let mut t = BytesStart::new(&body[..k]);
        let mut a = body[k..].trim();
        while !a.is_empty() {
            let eq = a.find('=').ok_or(bad("attribute"))?;
            let key = a[..eq].trim().to_string();
            let v = a[eq + 1..].trim_start();
            let c = v.chars().next().ok_or(bad("attribute"))?;
            let e = v[1..].find(c).ok_or(bad("attribute"))? + 1;
            t.attrs.push((key, v[1..e].to_string()));
            a = v[e + 1..].trim();
        }
        if empty { Ok(Event::Empty(t)) } else { self.stack.push(t.name.clone()); Ok(Event::Start(t)) }
    }
}
