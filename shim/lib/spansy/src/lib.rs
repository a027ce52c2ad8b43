//! Stand-in for the `spansy` crate (not in the offline cache): HTTP/1 and JSON
//! parsing which keeps the positions of every part.

use bytes::Bytes;
use rangeset::{
    iter::{IntoRangeIterator, OwnedRanges},
    ops::Set,
    set::RangeSet,
};
use std::{borrow::Cow, fmt::Debug, ops::Range};

/// A parsing error.
#[derive(Debug, thiserror::Error, Clone)]
#[error("parsing error: {0}")]
pub struct ParseError(pub String);

fn err<T>(s: impl Into<String>) -> Result<T, ParseError> {
    Err(ParseError(s.into()))
}

/// Where the parsed bytes live.
pub trait Store: Clone + Debug {
    /// The bytes.
    fn bytes(&self) -> &[u8];
}
impl Store for Bytes {
    fn bytes(&self) -> &[u8] {
        self
    }
}
impl Store for &[u8] {
    fn bytes(&self) -> &[u8] {
        self
    }
}
impl Store for Vec<u8> {
    fn bytes(&self) -> &[u8] {
        self
    }
}
impl Store for std::sync::Arc<[u8]> {
    fn bytes(&self) -> &[u8] {
        self
    }
}

/// Some positions of a source.
#[derive(Debug, Clone)]
pub struct View<S = Bytes> {
    src: S,
    idx: RangeSet<usize>,
}
impl<S: Store> View<S> {
    fn new(src: &S, r: Range<usize>) -> Self {
        Self { src: src.clone(), idx: RangeSet::from(r) }
    }
    fn set(src: &S, idx: RangeSet<usize>) -> Self {
        Self { src: src.clone(), idx }
    }
    fn without(&self, other: &RangeSet<usize>) -> Self {
        Self { src: self.src.clone(), idx: self.idx.difference(other).into_iter().collect() }
    }
    /// Positions.
    pub fn indices(&self) -> &RangeSet<usize> {
        &self.idx
    }
    /// Number of bytes.
    pub fn len(&self) -> usize {
        self.idx.len()
    }
    /// No bytes at all.
    pub fn is_empty(&self) -> bool {
        self.idx.is_empty()
    }
    /// The bytes.
    pub fn to_bytes(&self) -> Vec<u8> {
        self.idx.iter().flat_map(|r| self.src.bytes()[r].to_vec()).collect()
    }
    /// The bytes, borrowed when contiguous.
    pub fn as_bytes(&self) -> Cow<'_, [u8]> {
        match self.idx.len_ranges() {
            0 => Cow::Borrowed(&[]),
            1 => Cow::Borrowed(&self.src.bytes()[self.idx.iter().next().unwrap()]),
            _ => Cow::Owned(self.to_bytes()),
        }
    }
    /// The source.
    pub fn source(&self) -> &S {
        &self.src
    }
    fn str(&self) -> &str {
        match self.idx.iter().next() {
            None => "",
            Some(r) => std::str::from_utf8(&self.src.bytes()[r]).unwrap_or(""),
        }
    }
}
impl<S> IntoRangeIterator<usize> for View<S> {
    type IntoIter = OwnedRanges;
    fn into_range_iter(self) -> OwnedRanges {
        self.idx.into_range_iter()
    }
}
impl<S> IntoRangeIterator<usize> for &View<S> {
    type IntoIter = OwnedRanges;
    fn into_range_iter(self) -> OwnedRanges {
        (&self.idx).into_range_iter()
    }
}

macro_rules! viewed {
    ($($t:ident),*) => {$(
        impl<S: Store> $t<S> {
            /// The part as a view.
            pub fn view(&self) -> &View<S> {
                &self.view
            }
            /// Positions.
            pub fn indices(&self) -> &RangeSet<usize> {
                self.view.indices()
            }
        }
        impl<S: Store> IntoRangeIterator<usize> for &$t<S> {
            type IntoIter = OwnedRanges;
            fn into_range_iter(self) -> OwnedRanges {
                (&self.view).into_range_iter()
            }
        }
    )*};
}
macro_rules! plain {
    ($($t:ident),*) => {$(
        /// A part of a document.
        #[derive(Debug, Clone)]
        pub struct $t<S = Bytes> {
            pub(crate) view: View<S>,
        }
        viewed!($t);
        impl<S: Store> $t<S> {
            /// As text.
            pub fn as_str(&self) -> &str {
                self.view.str()
            }
            /// As bytes.
            pub fn as_bytes(&self) -> &[u8] {
                match self.view.idx.iter().next() {
                    None => &[],
                    Some(r) => &self.view.src.bytes()[r],
                }
            }
        }
        impl<S: Store> PartialEq<str> for $t<S> {
            fn eq(&self, o: &str) -> bool {
                self.view.to_bytes() == o.as_bytes()
            }
        }
        impl<S: Store> PartialEq<&str> for $t<S> {
            fn eq(&self, o: &&str) -> bool {
                self.view.to_bytes() == o.as_bytes()
            }
        }
    )*};
}

pub mod json {
    //! JSON.
    use super::*;

    plain!(Null, Bool, Number, String, JsonKey);

    /// A member of an object.
    #[derive(Debug, Clone)]
    pub struct KeyValue<S = Bytes> {
        pub(crate) view: View<S>,
        /// The key.
        pub key: JsonKey<S>,
        /// The value.
        pub value: JsonValue<S>,
    }
    impl<S: Store> KeyValue<S> {
        /// The pair without its value.
        pub fn without_value(&self) -> View<S> {
            self.view.without(self.value.view().indices())
        }
    }
    /// An object.
    #[derive(Debug, Clone)]
    pub struct Object<S = Bytes> {
        pub(crate) view: View<S>,
        /// The members.
        pub elems: Vec<KeyValue<S>>,
    }
    impl<S: Store> Object<S> {
        /// The object without its members.
        pub fn without_pairs(&self) -> View<S> {
            self.elems.iter().fold(self.view.clone(), |v, e| v.without(e.indices()))
        }
        /// Looks up a path.
        pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
            let (k, rest) = split(path);
            let v = &self.elems.iter().find(|e| e.key == k)?.value;
            rest.map_or(Some(v), |p| v.get(p))
        }
    }
    /// An array.
    #[derive(Debug, Clone)]
    pub struct Array<S = Bytes> {
        pub(crate) view: View<S>,
        /// From the first to the last element.
        pub(crate) inner: RangeSet<usize>,
        /// The elements.
        pub elems: Vec<JsonValue<S>>,
    }
    impl<S: Store> Array<S> {
        /// The array without its elements and separators.
        pub fn without_values(&self) -> View<S> {
            self.view.without(&self.inner)
        }
        /// Looks up a path.
        pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
            let (k, rest) = split(path);
            let v = self.elems.get(k.parse::<usize>().ok()?)?;
            rest.map_or(Some(v), |p| v.get(p))
        }
    }
    viewed!(KeyValue, Object, Array);

    fn split(p: &str) -> (&str, Option<&str>) {
        p.split_once('.').map_or((p, None), |(a, b)| (a, Some(b)))
    }

    /// Any value.
    #[derive(Debug, Clone)]
    #[allow(missing_docs)]
    pub enum JsonValue<S = Bytes> {
        Null(Null<S>),
        Bool(Bool<S>),
        Number(Number<S>),
        String(String<S>),
        Array(Array<S>),
        Object(Object<S>),
    }
    impl<S: Store> JsonValue<S> {
        /// The value as a view; a string is without its quotes.
        pub fn view(&self) -> &View<S> {
            match self {
                Self::Null(x) => x.view(),
                Self::Bool(x) => x.view(),
                Self::Number(x) => x.view(),
                Self::String(x) => x.view(),
                Self::Array(x) => x.view(),
                Self::Object(x) => x.view(),
            }
        }
        /// Positions.
        pub fn indices(&self) -> &RangeSet<usize> {
            self.view().indices()
        }
        /// Looks up a path: keys and numbers of elements separated by dots.
        pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
            match self {
                Self::Array(x) => x.get(path),
                Self::Object(x) => x.get(path),
                _ => None,
            }
        }
    }
    impl<S: Store> IntoRangeIterator<usize> for &JsonValue<S> {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            self.view().into_range_iter()
        }
    }
    /// A parsed document.
    #[derive(Debug, Clone)]
    pub struct JsonDocument<S = Bytes> {
        /// The document's value.
        pub root: JsonValue<S>,
    }
    impl<S: Store> JsonDocument<S> {
        /// Looks up a path.
        pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
            self.root.get(path)
        }
    }
    /// Visits all values.
    #[allow(missing_docs)]
    pub trait JsonVisit<S: Store = Bytes> {
        fn visit_value(&mut self, v: &JsonValue<S>) {
            match v {
                JsonValue::Null(x) => self.visit_null(x),
                JsonValue::Bool(x) => self.visit_bool(x),
                JsonValue::Number(x) => self.visit_number(x),
                JsonValue::String(x) => self.visit_string(x),
                JsonValue::Array(x) => x.elems.iter().for_each(|e| self.visit_value(e)),
                JsonValue::Object(x) => x.elems.iter().for_each(|e| self.visit_value(&e.value)),
            }
        }
        fn visit_null(&mut self, _: &Null<S>) {}
        fn visit_bool(&mut self, _: &Bool<S>) {}
        fn visit_number(&mut self, _: &Number<S>) {}
        fn visit_string(&mut self, _: &String<S>) {}
    }

    struct P<'a, S> {
        s: &'a S,
        at: usize,
        end: usize,
        depth: usize,
    }
    impl<S: Store> P<'_, S> {
        fn peek(&self) -> Option<u8> {
            (self.at < self.end).then(|| self.s.bytes()[self.at])
        }
        fn ws(&mut self) {
            while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
                self.at += 1;
            }
        }
        fn lit(&mut self, l: &str) -> Result<View<S>, ParseError> {
            let r = self.at..self.at + l.len();
            if r.end > self.end || &self.s.bytes()[r.clone()] != l.as_bytes() {
                return err(format!("expected {l}"));
            }
            self.at = r.end;
            Ok(View::new(self.s, r))
        }
        fn string(&mut self) -> Result<View<S>, ParseError> {
            self.lit("\"")?;
            let start = self.at;
            loop {
                match self.peek() {
                    None | Some(0..=0x1f) => return err("string not closed"),
                    Some(b'"') => break,
                    Some(b'\\') => {
                        self.at += 1;
                        match self.peek() {
                            Some(b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't') => self.at += 1,
                            Some(b'u') => {
                                for _ in 0..4 {
                                    self.at += 1;
                                    if !self.peek().is_some_and(|c| c.is_ascii_hexdigit()) {
                                        return err("bad escape");
                                    }
                                }
                                self.at += 1;
                            }
                            _ => return err("bad escape"),
                        }
                    }
                    Some(_) => self.at += 1,
                }
            }
            let v = View::new(self.s, start..self.at);
            self.at += 1;
            Ok(v)
        }
        fn digits(&mut self) -> Result<(), ParseError> {
            let a = self.at;
            while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                self.at += 1;
            }
            if a == self.at { err("digits expected") } else { Ok(()) }
        }
        fn value(&mut self) -> Result<JsonValue<S>, ParseError> {
            self.ws();
            let start = self.at;
            self.depth += 1;
            if self.depth > 100 {
                return err("too deep");
            }
            let v = match self.peek() {
                Some(b'n') => JsonValue::Null(Null { view: self.lit("null")? }),
                Some(b't') => JsonValue::Bool(Bool { view: self.lit("true")? }),
                Some(b'f') => JsonValue::Bool(Bool { view: self.lit("false")? }),
                Some(b'"') => JsonValue::String(String { view: self.string()? }),
                Some(b'-' | b'0'..=b'9') => {
                    if self.peek() == Some(b'-') {
                        self.at += 1;
                    }
                    if self.peek() == Some(b'0') { self.at += 1 } else { self.digits()? }
                    if self.peek() == Some(b'.') {
                        self.at += 1;
                        self.digits()?;
                    }
                    if matches!(self.peek(), Some(b'e' | b'E')) {
                        self.at += 1;
                        if matches!(self.peek(), Some(b'+' | b'-')) {
                            self.at += 1;
                        }
                        self.digits()?;
                    }
                    JsonValue::Number(Number { view: View::new(self.s, start..self.at) })
                }
                Some(b'[') => {
                    self.at += 1;
                    let mut elems = vec![];
                    self.ws();
                    let mut inner = self.at..self.at;
                    if self.peek() != Some(b']') {
                        loop {
                            elems.push(self.value()?);
                            inner.end = self.at;
                            self.ws();
                            if self.peek() != Some(b',') {
                                break;
                            }
                            self.at += 1;
                        }
                    }
                    self.lit("]")?;
                    JsonValue::Array(Array { view: View::new(self.s, start..self.at), inner: RangeSet::from(inner), elems })
                }
                Some(b'{') => {
                    self.at += 1;
                    let mut elems = vec![];
                    self.ws();
                    if self.peek() != Some(b'}') {
                        loop {
                            self.ws();
                            let a = self.at;
                            let key = JsonKey { view: self.string()? };
                            self.ws();
                            self.lit(":")?;
                            let value = self.value()?;
                            elems.push(KeyValue { view: View::new(self.s, a..self.at), key, value });
                            self.ws();
                            if self.peek() != Some(b',') {
                                break;
                            }
                            self.at += 1;
                        }
                    }
                    self.lit("}")?;
                    JsonValue::Object(Object { view: View::new(self.s, start..self.at), elems })
                }
                _ => return err("value expected"),
            };
            self.depth -= 1;
            Ok(v)
        }
    }
    pub(crate) fn parse_range<S: Store>(s: &S, r: Range<usize>) -> Result<JsonDocument<S>, ParseError> {
        let mut p = P { s, at: r.start, end: r.end, depth: 0 };
        let root = p.value()?;
        p.ws();
        if p.at != p.end { err("trailing bytes") } else { Ok(JsonDocument { root }) }
    }
    /// Parses a document.
    pub fn parse<S: Store>(s: S) -> Result<JsonDocument<S>, ParseError> {
        let n = s.bytes().len();
        parse_range(&s, 0..n)
    }
    /// Parses a document.
    pub fn parse_slice(s: &[u8]) -> Result<JsonDocument, ParseError> {
        parse(Bytes::copy_from_slice(s))
    }
    /// Parses a document.
    pub fn parse_str(s: &str) -> Result<JsonDocument, ParseError> {
        parse_slice(s.as_bytes())
    }
}

pub mod http {
    //! HTTP/1.
    use super::*;
    use crate::json::JsonDocument;

    plain!(Method, Target, Code, Reason, HeaderName, HeaderValue);

    /// First line of a request, with its line end.
    #[derive(Debug, Clone)]
    pub struct RequestLine<S = Bytes> {
        pub(crate) view: View<S>,
        /// Method.
        pub method: Method<S>,
        /// Target.
        pub target: Target<S>,
    }
    impl<S: Store> RequestLine<S> {
        /// The line without its target.
        pub fn without_target(&self) -> View<S> {
            self.view.without(self.target.indices())
        }
    }
    /// First line of a response, with its line end.
    #[derive(Debug, Clone)]
    pub struct Status<S = Bytes> {
        pub(crate) view: View<S>,
        /// Code.
        pub code: Code<S>,
        /// Reason.
        pub reason: Reason<S>,
    }
    /// A header field, with its line end.
    #[derive(Debug, Clone)]
    pub struct Header<S = Bytes> {
        pub(crate) view: View<S>,
        /// Name.
        pub name: HeaderName<S>,
        /// Value.
        pub value: HeaderValue<S>,
    }
    impl<S: Store> Header<S> {
        /// The field without its value.
        pub fn without_value(&self) -> View<S> {
            self.view.without(self.value.indices())
        }
    }
    /// What a body holds.
    #[derive(Debug, Clone)]
    #[non_exhaustive]
    pub enum BodyContent<S = Bytes> {
        /// JSON.
        Json(JsonDocument<S>),
        /// Text.
        Text(View<S>),
        /// Anything else.
        Unknown(View<S>),
    }
    /// A body: without the framing of chunks.
    #[derive(Debug, Clone)]
    pub struct Body<S = Bytes> {
        pub(crate) view: View<S>,
        /// Content.
        pub content: BodyContent<S>,
    }
    impl<S: Store> Body<S> {
        /// The bytes of the content.
        pub fn content_data(&self) -> Vec<u8> {
            self.view.to_bytes()
        }
    }
    /// A request.
    #[derive(Debug, Clone)]
    pub struct Request<S = Bytes> {
        pub(crate) view: View<S>,
        /// First line.
        pub request: RequestLine<S>,
        /// Header fields.
        pub headers: Vec<Header<S>>,
        /// Body.
        pub body: Option<Body<S>>,
    }
    /// A response.
    #[derive(Debug, Clone)]
    pub struct Response<S = Bytes> {
        pub(crate) view: View<S>,
        /// First line.
        pub status: Status<S>,
        /// Header fields.
        pub headers: Vec<Header<S>>,
        /// Body.
        pub body: Option<Body<S>>,
    }
    viewed!(RequestLine, Status, Header, Body, Request, Response);

    fn rest<S: Store>(mut v: View<S>, headers: &[Header<S>], body: &Option<Body<S>>) -> View<S> {
        for h in headers {
            v = v.without(h.indices());
        }
        if let Some(b) = body {
            v = v.without(b.indices());
        }
        v
    }
    impl<S: Store> Request<S> {
        /// All header fields of a name.
        pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> + 'a {
            self.headers.iter().filter(move |h| h.name.as_str().eq_ignore_ascii_case(name))
        }
        /// The request without target, headers and body.
        pub fn without_data(&self) -> View<S> {
            rest(self.view.without(self.request.target.indices()), &self.headers, &self.body)
        }
    }
    impl<S: Store> Response<S> {
        /// All header fields of a name.
        pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> + 'a {
            self.headers.iter().filter(move |h| h.name.as_str().eq_ignore_ascii_case(name))
        }
        /// The response without headers and body.
        pub fn without_data(&self) -> View<S> {
            rest(self.view.clone(), &self.headers, &self.body)
        }
    }

    struct H<'a, S> {
        s: &'a S,
        at: usize,
    }
    type Head<S> = (Vec<Header<S>>, Option<Body<S>>, usize);
    impl<S: Store> H<'_, S> {
        /// A line without its end, and where the next one starts.
        fn line(&self) -> Result<(Range<usize>, usize), ParseError> {
            let b = &self.s.bytes()[self.at..];
            match b.iter().position(|c| *c == b'\n') {
                Some(i) if i > 0 && b[i - 1] == b'\r' => Ok((self.at..self.at + i - 1, self.at + i + 1)),
                Some(i) => Ok((self.at..self.at + i, self.at + i + 1)),
                None => err("incomplete message"),
            }
        }
        fn headers_and_body(&mut self, to_the_end: bool, bodyless: bool) -> Result<Head<S>, ParseError> {
            let mut headers = vec![];
            loop {
                let (l, next) = self.line()?;
                let start = self.at;
                self.at = next;
                if l.is_empty() {
                    break;
                }
                let b = &self.s.bytes()[l.clone()];
                let Some(c) = b.iter().position(|c| *c == b':') else { return err("header without a colon") };
                if c == 0 || b[..c].iter().any(|c| !(c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c))) {
                    return err("bad header name");
                }
                if b[c + 1..].iter().any(|c| (*c < 32 && *c != 9) || *c == 127) {
                    return err("bad header value");
                }
                let mut v = l.start + c + 1..l.end;
                let all = self.s.bytes();
                while !v.is_empty() && matches!(all[v.start], b' ' | b'\t') {
                    v.start += 1;
                }
                while !v.is_empty() && matches!(all[v.end - 1], b' ' | b'\t') {
                    v.end -= 1;
                }
                headers.push(Header {
                    view: View::new(self.s, start..next),
                    name: HeaderName { view: View::new(self.s, l.start..l.start + c) },
                    value: HeaderValue { view: View::new(self.s, v) },
                });
            }
            let find = |n: &str| headers.iter().find(|h: &&Header<S>| h.name.as_str().eq_ignore_ascii_case(n)).map(|h| h.value.as_str().to_string());
            let n = self.s.bytes().len();
            let mut data: Vec<Range<usize>> = vec![];
            if bodyless {
            } else if find("transfer-encoding").is_some_and(|v| v.to_ascii_lowercase().ends_with("chunked")) {
                loop {
                    let (l, next) = self.line()?;
                    let size = std::str::from_utf8(&self.s.bytes()[l]).ok().and_then(|t| usize::from_str_radix(t.split(';').next().unwrap().trim(), 16).ok());
                    let Some(size) = size else { return err("bad chunk size") };
                    self.at = next;
                    if size == 0 {
                        break;
                    }
                    if size > n - next {
                        return err("incomplete chunk");
                    }
                    data.push(next..next + size);
                    self.at = next + size;
                    let (l, next) = self.line()?;
                    if !l.is_empty() {
                        return err("chunk not ended");
                    }
                    self.at = next;
                }
                loop {
                    let (l, next) = self.line()?;
                    self.at = next;
                    if l.is_empty() {
                        break;
                    }
                }
            } else if let Some(v) = find("content-length") {
                let Ok(len) = v.parse::<usize>() else { return err("bad content length") };
                if len > n - self.at {
                    return err("incomplete body");
                }
                data.push(self.at..self.at + len);
                self.at += len;
            } else if to_the_end {
                data.push(self.at..n);
                self.at = n;
            }
            let idx: RangeSet<usize> = data.iter().cloned().collect();
            let body = if idx.is_empty() {
                None
            } else {
                let view = View::set(self.s, idx);
                let kind = find("content-type").unwrap_or_default();
                let content = if kind.to_ascii_lowercase().starts_with("application/json") {
                    BodyContent::Json(doc(self.s, &data)?)
                } else if kind.to_ascii_lowercase().starts_with("text/") {
                    BodyContent::Text(view.clone())
                } else {
                    BodyContent::Unknown(view.clone())
                };
                Some(Body { view, content })
            };
            Ok((headers, body, self.at))
        }
    }
    /// JSON over the pieces of a body.
    fn doc<S: Store>(s: &S, data: &[Range<usize>]) -> Result<JsonDocument<S>, ParseError> {
        if data.len() == 1 {
            return crate::json::parse_range(s, data[0].clone());
        }
        let flat: Vec<u8> = data.iter().flat_map(|r| s.bytes()[r.clone()].to_vec()).collect();
        let pos: Vec<usize> = data.iter().flat_map(|r| r.clone()).collect();
        let d = crate::json::parse(flat)?;
        Ok(JsonDocument { root: moved(s, &pos, d.root) })
    }
    fn moved<S: Store>(s: &S, pos: &[usize], v: crate::json::JsonValue<Vec<u8>>) -> crate::json::JsonValue<S> {
        use crate::json::*;
        let mv = |v: &View<Vec<u8>>| View::set(s, v.idx.iter_values().map(|i| pos[i]..pos[i] + 1).collect());
        match v {
            JsonValue::Null(x) => JsonValue::Null(Null { view: mv(&x.view) }),
            JsonValue::Bool(x) => JsonValue::Bool(Bool { view: mv(&x.view) }),
            JsonValue::Number(x) => JsonValue::Number(Number { view: mv(&x.view) }),
            JsonValue::String(x) => JsonValue::String(String { view: mv(&x.view) }),
            JsonValue::Array(x) => JsonValue::Array(Array { view: mv(&x.view), inner: x.inner.iter_values().map(|i| pos[i]..pos[i] + 1).collect(), elems: x.elems.into_iter().map(|e| moved(s, pos, e)).collect() }),
            JsonValue::Object(x) => JsonValue::Object(Object {
                view: mv(&x.view),
                elems: x.elems.into_iter().map(|e| KeyValue { view: mv(&e.view), key: JsonKey { view: mv(&e.key.view) }, value: moved(s, pos, e.value) }).collect(),
            }),
        }
    }
    fn request_at<S: Store>(s: &S, at: usize) -> Result<(Request<S>, usize), ParseError> {
        let mut h = H { s, at };
        let (l, next) = h.line()?;
        let b = &s.bytes()[l.clone()];
        let w: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b' ').map(|x| x.0).collect();
        if w.len() != 2 || w[0] == 0 || w[1] == w[0] + 1 || !b[w[1] + 1..].starts_with(b"HTTP/1.") || b.len() != w[1] + 9 {
            return err("bad request line");
        }
        let part = |a: usize, z: usize| View::new(s, l.start + a..l.start + z);
        let request = RequestLine { view: View::new(s, l.start..next), method: Method { view: part(0, w[0]) }, target: Target { view: part(w[0] + 1, w[1]) } };
        h.at = next;
        let (headers, body, end) = h.headers_and_body(false, false)?;
        Ok((Request { view: View::new(s, at..end), request, headers, body }, end))
    }
    fn response_at<S: Store>(s: &S, at: usize) -> Result<(Response<S>, usize), ParseError> {
        let mut h = H { s, at };
        let (l, next) = h.line()?;
        let b = &s.bytes()[l.clone()];
        if !b.starts_with(b"HTTP/1.") || b.len() < 12 || b[8] != b' ' || !b[9..12].iter().all(|c| c.is_ascii_digit()) || (b.len() > 12 && b[12] != b' ') {
            return err("bad status line");
        }
        let part = |a: usize, z: usize| View::new(s, l.start + a..l.start + z);
        let status = Status { view: View::new(s, l.start..next), code: Code { view: part(9, 12) }, reason: Reason { view: part(13.min(b.len()), b.len()) } };
        h.at = next;
        let code: u16 = status.code.as_str().parse().unwrap_or(0);
        let (headers, body, end) = h.headers_and_body(true, code < 200 || code == 204 || code == 304)?;
        Ok((Response { view: View::new(s, at..end), status, headers, body }, end))
    }
    /// Parses a request.
    pub fn parse_request<S: Store>(s: S) -> Result<Request<S>, ParseError> {
        request_at(&s, 0).map(|x| x.0)
    }
    /// Parses a response.
    pub fn parse_response<S: Store>(s: S) -> Result<Response<S>, ParseError> {
        response_at(&s, 0).map(|x| x.0)
    }
    macro_rules! sequence {
        ($n:ident, $t:ident, $f:ident) => {
            /// The messages of a stream.
            #[derive(Debug)]
            pub struct $n<S = Bytes> {
                s: S,
                at: usize,
            }
            impl<S: Store> $n<S> {
                /// From a source.
                pub fn new(s: S) -> Self {
                    Self { s, at: 0 }
                }
            }
            impl $n {
                /// From a slice.
                pub fn new_from_slice(s: &[u8]) -> Self {
                    Self::new(Bytes::copy_from_slice(s))
                }
            }
            impl<S: Store> Iterator for $n<S> {
                type Item = Result<$t<S>, ParseError>;
                fn next(&mut self) -> Option<Self::Item> {
                    if self.at >= self.s.bytes().len() {
                        return None;
                    }
                    match $f(&self.s, self.at) {
                        Ok((m, end)) => {
                            self.at = end;
                            Some(Ok(m))
                        }
                        Err(e) => {
                            self.at = usize::MAX;
                            Some(Err(e))
                        }
                    }
                }
            }
        };
    }
    sequence!(Requests, Request, request_at);
    sequence!(Responses, Response, response_at);
}
