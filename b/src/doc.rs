//! HTTP messages and JSON documents written together with the places of their parts.

use rangeset::set::RangeSet;
use std::ops::Range;
use vfw::R;

#[derive(Debug, Clone)]
pub enum J {
    Atom(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// Where a value lies in the flat document; a string without its quotes.
#[derive(Debug, Clone)]
pub struct Sp {
    pub kind: u8,
    pub view: Range<usize>,
    pub kids: Vec<Kv>,
}
#[derive(Debug, Clone)]
pub struct Kv {
    pub key: String,
    pub pair: Range<usize>,
    pub value: Sp,
}
pub const ATOM: u8 = 0;
pub const STR: u8 = 1;
pub const ARR: u8 = 2;
pub const OBJ: u8 = 3;

fn word(r: &mut R) -> String {
    let n = r.range(1, 6);
    (0..n).map(|_| *r.pick(&['a', 'b', 'e', 'k', 'x', 'Z', '_', '7', '-'])).collect()
}

pub fn json(r: &mut R, depth: usize) -> J {
    match if depth == 0 { r.below(5) } else { r.below(10) } {
        0 => J::Atom(r.pick(&["null", "true", "false"]).to_string()),
        1 => J::Atom(r.pick(&["0", "-1", "42", "3.25", "1e9", "-0.5E-3", "123456789012345678901234567890"]).to_string()),
        2 => J::Str(String::new()),
        3 | 4 => J::Str((0..r.below(10)).map(|_| *r.pick(&["a", "Q", " ", "\\\"", "\\\\", "\\n", "\\u00e9", "é", "{", "}", "[", ",", ":", "\u{1F600}"])).collect()),
        5 | 6 => J::Arr((0..r.below(4)).map(|_| json(r, depth - 1)).collect()),
        _ => {
            let mut m: Vec<(String, J)> = vec![];
            for _ in 0..r.below(5) {
                let mut k = word(r);
                // a member's name may be the prefix of another one, or a number
                if r.chance(1, 5) && !m.is_empty() { k = format!("{}{}", m[0].0, r.pick(&["x", "0", "_"])) }
                if r.chance(1, 8) { k = r.below(3).to_string() }
                if m.iter().any(|x| x.0 == k) { continue }
                m.push((k, json(r, depth - 1)));
            }
            J::Obj(m)
        }
    }
}

fn ws(r: &mut R, style: usize, out: &mut Vec<u8>) {
    match style {
        0 => {}
        1 => if r.bool() { out.push(b' ') },
        _ => for _ in 0..r.below(4) { out.push(*r.pick(b" \t\r\n")) },
    }
}

pub fn write(r: &mut R, j: &J, style: usize, out: &mut Vec<u8>) -> Sp {
    let a = out.len();
    match j {
        J::Atom(t) => {
            out.extend(t.as_bytes());
            Sp { kind: ATOM, view: a..out.len(), kids: vec![] }
        }
        J::Str(t) => {
            out.push(b'"');
            out.extend(t.as_bytes());
            out.push(b'"');
            Sp { kind: STR, view: a + 1..out.len() - 1, kids: vec![] }
        }
        J::Arr(v) => {
            out.push(b'[');
            let mut kids = vec![];
            for (i, e) in v.iter().enumerate() {
                if i > 0 { out.push(b',') }
                ws(r, style, out);
                let value = write(r, e, style, out);
                kids.push(Kv { key: i.to_string(), pair: value.outer(), value });
                ws(r, style, out);
            }
            if v.is_empty() { ws(r, style, out) }
            out.push(b']');
            Sp { kind: ARR, view: a..out.len(), kids }
        }
        J::Obj(v) => {
            out.push(b'{');
            let mut kids = vec![];
            for (i, (k, e)) in v.iter().enumerate() {
                if i > 0 { out.push(b',') }
                ws(r, style, out);
                let s = out.len();
                out.extend(format!("\"{k}\"").as_bytes());
                ws(r, style, out);
                out.push(b':');
                ws(r, style, out);
                let value = write(r, e, style, out);
                kids.push(Kv { key: k.clone(), pair: s..out.len(), value });
                ws(r, style, out);
            }
            if v.is_empty() { ws(r, style, out) }
            out.push(b'}');
            Sp { kind: OBJ, view: a..out.len(), kids }
        }
    }
}

impl Sp {
    /// With the quotes.
    pub fn outer(&self) -> Range<usize> {
        if self.kind == STR { self.view.start - 1..self.view.end + 1 } else { self.view.clone() }
    }
    pub fn at(&self, key: &str) -> Option<&Kv> {
        self.kids.iter().find(|k| k.key == key)
    }
}

#[derive(Debug, Clone)]
pub struct Field {
    pub all: Range<usize>,
    pub name: Range<usize>,
    pub value: Range<usize>,
    pub key: String,
}
#[derive(Debug, Clone)]
pub struct Body {
    /// Where each byte of the flat body lies.
    pub pos: Vec<usize>,
    pub json: Option<Sp>,
}
/// A message and where its parts are in the stream.
#[derive(Debug, Clone)]
pub struct Msg {
    pub all: Range<usize>,
    pub line: Range<usize>,
    /// method and target, or code and reason
    pub words: [Range<usize>; 2],
    pub fields: Vec<Field>,
    pub body: Option<Body>,
}

pub fn set(r: &Range<usize>) -> RangeSet<usize> {
    RangeSet::from(r.clone())
}
pub fn minus(r: &Range<usize>, cut: &[Range<usize>]) -> RangeSet<usize> {
    points(r.clone().filter(|i| !cut.iter().any(|c| c.contains(i))))
}
pub fn points(it: impl IntoIterator<Item = usize>) -> RangeSet<usize> {
    it.into_iter().map(|i| i..i + 1).collect()
}
impl Body {
    pub fn set(&self, flat: &Range<usize>) -> RangeSet<usize> {
        points(flat.clone().map(|i| self.pos[i]))
    }
    pub fn minus(&self, flat: &Range<usize>, cut: &[Range<usize>]) -> RangeSet<usize> {
        points(flat.clone().filter(|i| !cut.iter().any(|c| c.contains(i))).map(|i| self.pos[i]))
    }
    pub fn whole(&self) -> RangeSet<usize> {
        points(self.pos.iter().copied())
    }
}

/// Appends a message to `out`. `last`: the body may extend to the end of the stream.
pub fn message(r: &mut R, request: bool, last: bool, out: &mut Vec<u8>) -> Msg {
    let start = out.len();
    let mut code = "";
    let words = if request {
        let m = *r.pick(&["GET", "POST", "PUT", "DELETE", "M-SEARCH", "OPTIONS"]);
        let t: String = match r.below(5) {
            0 => "/".into(),
            1 => "*".into(),
            2 => format!("/{}/{}?q={}&HTTP/1.1", word(r), word(r), word(r)),
            3 => format!("http://h/{}", word(r)),
            _ => format!("/{}", word(r)),
        };
        out.extend(format!("{m} {t} HTTP/1.1\r\n").as_bytes());
        [start..start + m.len(), start + m.len() + 1..start + m.len() + 1 + t.len()]
    } else {
        code = *r.pick(&["200", "200", "200", "404", "500", "304", "204", "299"]);
        let reason = *r.pick(&["OK", "Not Found", "", "HTTP/1.1 200"]);
        out.extend(format!("HTTP/1.1 {code} {reason}\r\n").as_bytes());
        [start + 9..start + 12, start + 13..start + 13 + reason.len()]
    };
    let line = start..out.len();
    // body
    let bodyless = matches!(code, "304" | "204");
    let mut flat = vec![];
    let mut json_sp = None;
    let mut ctype = None;
    if !bodyless && r.chance(3, 4) {
        match r.below(6) {
            0..=3 => {
                let j = json(r, 3);
                let style = r.below(3);
                ws(r, style, &mut flat);
                json_sp = Some(write(r, &j, style, &mut flat));
                ws(r, style, &mut flat);
                ctype = Some(*r.pick(&["application/json", "application/json; charset=utf-8", "application/json"]));
            }
            4 => {
                flat = (0..r.range(1, 40)).map(|_| *r.pick(b"abc \r\n:{}\"")).collect();
                ctype = Some("text/plain");
            }
            _ => {
                let n = r.range(1, 40);
                flat = r.bytes(n);
                ctype = if r.bool() { Some("application/octet-stream") } else { None };
            }
        }
    }
    let framing = if bodyless { 3 } else if flat.is_empty() { *r.pick(&[0usize, 1, 3]) } else { r.below(if !request && last { 3 } else { 2 }) };
    let framing = if framing == 3 && !request && !bodyless { 0 } else { framing };
    let mut todo: Vec<(String, String)> = vec![];
    match framing {
        0 => todo.push(("Content-Length".into(), flat.len().to_string())),
        1 => todo.push((r.pick(&["Transfer-Encoding", "transfer-encoding"]).to_string(), "chunked".into())),
        _ => {}
    }
    if let Some(c) = ctype { todo.push((r.pick(&["Content-Type", "content-type", "CONTENT-TYPE"]).to_string(), c.to_string())) }
    for _ in 0..r.below(4) {
        let v = match r.below(5) { 0 => String::new(), 1 => "a: b".into(), 2 => "Cookie".into(), _ => word(r) };
        let k = match r.below(4) { 0 => "Cookie".into(), 1 => "cookie".into(), _ => format!("X-{}", word(r)) };
        todo.push((k, v));
    }
    r.shuffle(&mut todo);
    let mut fields = vec![];
    for (k, v) in todo {
        let a = out.len();
        out.extend(k.as_bytes());
        let name = a..out.len();
        out.push(b':');
        out.extend(r.pick(&[" ", "", "  ", " \t"]).as_bytes());
        let b = out.len();
        out.extend(v.as_bytes());
        let value = b..out.len();
        if !v.is_empty() && r.chance(1, 6) { out.push(b' ') }
        out.extend(b"\r\n");
        fields.push(Field { all: a..out.len(), name, value, key: k });
    }
    out.extend(b"\r\n");
    let mut pos = vec![];
    if framing == 1 {
        let mut at = 0;
        while at < flat.len() {
            let most = if r.bool() { 8 } else { 200 };
            let n = r.range(1, (flat.len() - at).min(most));
            out.extend(format!("{}{}\r\n", if r.bool() { format!("{n:x}") } else { format!("{n:X}") }, if r.chance(1, 6) { ";x=y" } else { "" }).as_bytes());
            pos.extend(out.len()..out.len() + n);
            out.extend(&flat[at..at + n]);
            out.extend(b"\r\n");
            at += n;
        }
        out.extend(b"0\r\n\r\n");
    } else {
        pos = (out.len()..out.len() + flat.len()).collect();
        out.extend(&flat);
    }
    let body = if flat.is_empty() { None } else { Some(Body { pos, json: json_sp }) };
    Msg { all: start..out.len(), line, words, fields, body }
}
