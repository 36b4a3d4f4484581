//! Reference side of decoding: a writer that spells a known value as TOON in many valid ways (so what a
//! decoder must return is known without decoding), path expansion, and the JSON printer.

use crate::enc::{bare_key, bare_string, columns, is_ident, quote};
use crate::tape::Src;
use crate::val::{P, V};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Inline,
    Table,
    List,
}
/// Where an array of the document is, in lines, so that faults can be aimed at its members.
#[derive(Clone, Debug)]
pub struct Arr {
    pub kind: Kind,
    pub line: usize,
    /// byte range of the declared length in the header line
    pub len_at: (usize, usize),
    pub n: usize,
    pub delim: char,
    /// lines of each member (tables and lists)
    pub members: Vec<(usize, usize)>,
    /// tokens: of the values (inline), of each row (table)
    pub tokens: Vec<Vec<String>>,
    /// inline: text before the values; table: indentation of rows
    pub lead: String,
    pub sep: String,
    pub depth: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub lines: Vec<String>,
    pub arrs: Vec<Arr>,
}
impl Doc {
    pub fn text(&self) -> String {
        self.lines.join("\n")
    }
}

pub struct StyleCfg {
    pub indent: usize,
    /// quote a key whenever path expansion would otherwise split it
    pub protect_dots: bool,
    /// only the style the encoder itself would use
    pub blank_lines: bool,
    /// chance (of 8) for unusual spellings
    pub odd: u64,
}

struct W<'a> {
    c: &'a StyleCfg,
    src: &'a mut Src,
    d: Doc,
}

pub fn write_doc(src: &mut Src, v: &V, c: &StyleCfg) -> Doc {
    let mut w = W { c, src, d: Doc::default() };
    match v {
        V::Primitive(p) => {
            let t = w.token(p, ',');
            w.d.lines.push(t);
        }
        V::Array(a) => w.array("", a, 0, 1, 0),
        V::Object(f) => {
            for (k, x) in f {
                if w.c.blank_lines && w.src.chance(w.c.odd, 24) {
                    let n = w.src.n(4);
                    w.d.lines.push(" ".repeat(n));
                }
                w.field("", k, x, 0);
            }
        }
    }
    if c.blank_lines && w.src.chance(c.odd, 24) {
        w.d.lines.push(String::new());
    }
    w.d
}

/// Lists, inline and tabular arrays are told apart by the source, not by guessing at lines.
impl W<'_> {
    fn pad(&self, depth: usize) -> String {
        " ".repeat(depth * self.c.indent)
    }
    fn odd(&mut self) -> bool {
        self.c.odd > 0 && self.src.chance(self.c.odd, 32)
    }
    fn key(&mut self, k: &str) -> String {
        // whether a dotted key is quoted decides what path expansion does, so it is fixed per document
        let q = if k.contains('.') { self.c.protect_dots } else { self.odd() };
        if !bare_key(k) || q { quote(k) } else { k.to_string() }
    }
    fn token(&mut self, p: &P, delim: char) -> String {
        match p {
            P::Null => "null".into(),
            P::Bool(b) => b.to_string(),
            P::Number(n) => {
                let plain = format!("{n}");
                if !self.odd() {
                    return plain;
                }
                let alt = match self.src.n(4) {
                    0 => format!("{n:e}"),
                    1 => format!("{n:E}"),
                    2 if plain.contains('.') => format!("{plain}00"),
                    2 => format!("{plain}.0"),
                    _ => format!("{n:e}").replace('e', "e+").replace("+-", "-"),
                };
                if alt.parse::<f64>().map(f64::to_bits) == Ok(n.to_bits()) { alt } else { plain }
            }
            P::String(x) => {
                if bare_string(x, delim) && bare_string(x, ',') && !self.odd() { x.clone() } else { quote(x) }
            }
        }
    }
    fn delim(&mut self) -> char {
        if self.c.odd == 0 {
            return ',';
        }
        *self.src.pick(&[',', ',', '|', '\t'])
    }
    fn field(&mut self, dash: &str, k: &str, v: &V, depth: usize) {
        // with a dash the line sits one level up, and the field's own depth is `depth`
        let line_depth = if dash.is_empty() { depth } else { depth - 1 };
        let name = self.key(k);
        match v {
            V::Primitive(p) => {
                let t = self.token(p, ',');
                let sp = if self.odd() { "  " } else { " " };
                let l = format!("{}{dash}{name}:{sp}{t}", self.pad(line_depth));
                self.d.lines.push(l);
            }
            V::Object(f) => {
                let l = format!("{}{dash}{name}:", self.pad(line_depth));
                self.d.lines.push(l);
                for (k, x) in f {
                    self.field("", k, x, depth + 1);
                }
            }
            V::Array(a) => {
                let lead = format!("{dash}{name}");
                self.array(&lead, a, line_depth, depth + 1 - line_depth, depth);
            }
        }
    }
    /// `step`: how much deeper than the header line the members are.
    fn array(&mut self, lead: &str, a: &[V], line_depth: usize, step: usize, depth: usize) {
        let delim = self.delim();
        let dl = if delim == ',' { String::new() } else { delim.to_string() };
        let pad = self.pad(line_depth);
        let head = format!("{pad}{lead}[");
        let n = a.len();
        let len_at = (head.len(), head.len() + n.to_string().len());
        let head = format!("{head}{n}{dl}]");
        let line = self.d.lines.len();
        let mut arr = Arr { kind: Kind::List, line, len_at, n, delim, members: vec![], tokens: vec![], lead: String::new(), sep: delim.to_string(), depth };
        let prims: Option<Vec<&P>> = a.iter().map(|x| if let V::Primitive(p) = x { Some(p) } else { None }).collect();
        if n == 0 {
            self.d.lines.push(format!("{head}:"));
            arr.members = vec![];
            self.d.arrs.push(arr);
            return;
        }
        if let Some(ps) = &prims {
            if !self.odd() {
                arr.kind = Kind::Inline;
                arr.lead = format!("{head}: ");
                if delim != '\t' && self.odd() {
                    arr.sep = format!("{delim} ");
                }
                let toks = self.cells(ps, delim);
                self.d.lines.push(format!("{}{}", arr.lead, toks.join(&arr.sep)));
                arr.tokens = vec![toks];
                self.d.arrs.push(arr);
                return;
            }
        }
        let base = line_depth + step;
        if let Some(cols) = columns(a) {
            if !self.odd() {
                arr.kind = Kind::Table;
                let names: Vec<String> = cols.iter().map(|c| self.key(c)).collect();
                self.d.lines.push(format!("{head}{{{}}}:", names.join(&delim.to_string())));
                arr.lead = self.pad(base);
                if delim != '\t' && self.odd() {
                    arr.sep = format!(" {delim} ");
                }
                let at = self.d.arrs.len();
                self.d.arrs.push(arr.clone());
                for r in a {
                    let V::Object(r) = r else { continue };
                    let ps: Vec<&P> = cols
                        .iter()
                        .filter_map(|c| match r.iter().find(|(k, _)| k == c) {
                            Some((_, V::Primitive(p))) => Some(p),
                            _ => None,
                        })
                        .collect();
                    let toks = self.cells(&ps, delim);
                    let i = self.d.lines.len();
                    self.d.lines.push(format!("{}{}", arr.lead, toks.join(&arr.sep)));
                    arr.members.push((i, i + 1));
                    arr.tokens.push(toks);
                }
                self.d.arrs[at] = arr;
                return;
            }
        }
        self.d.lines.push(format!("{head}:"));
        let at = self.d.arrs.len();
        self.d.arrs.push(arr.clone());
        for x in a {
            let i = self.d.lines.len();
            self.item(x, base);
            arr.members.push((i, self.d.lines.len()));
        }
        self.d.arrs[at] = arr;
    }
    fn cells(&mut self, ps: &[&P], delim: char) -> Vec<String> {
        let many = ps.len() > 1;
        ps.iter()
            .enumerate()
            .map(|(i, p)| match p {
                P::String(x) if x.is_empty() && i > 0 && many && delim != '\t' && self.odd() => String::new(),
                p => self.token(p, delim),
            })
            .collect()
    }
    fn item(&mut self, v: &V, depth: usize) {
        match v {
            V::Primitive(p) => {
                let t = self.token(p, ',');
                let l = format!("{}- {t}", self.pad(depth));
                self.d.lines.push(l);
            }
            V::Array(a) => self.array("- ", a, depth, 1, depth),
            V::Object(f) if f.is_empty() => {
                let l = format!("{}-", self.pad(depth));
                self.d.lines.push(l);
            }
            V::Object(f) => {
                self.field("- ", &f[0].0, &f[0].1, depth + 1);
                for (k, x) in &f[1..] {
                    self.field("", k, x, depth + 1);
                }
            }
        }
    }
}

/// What a value written by the writer above reads back as: rows of a table take the header's column order.
/// (The writer may also spell such an array as a list, which keeps each object's own order.)
pub fn read_back(doc: &Doc, v: &V) -> V {
    let mut i = 0;
    reorder(doc, v, &mut i)
}
fn reorder(doc: &Doc, v: &V, i: &mut usize) -> V {
    match v {
        V::Primitive(p) => V::Primitive(p.clone()),
        V::Object(f) => V::Object(f.iter().map(|(k, x)| (k.clone(), reorder(doc, x, i))).collect()),
        V::Array(a) => {
            let kind = doc.arrs[*i].kind;
            *i += 1;
            if kind == Kind::Table {
                let cols = columns(a).unwrap_or_default();
                return V::Array(
                    a.iter()
                        .map(|r| {
                            let V::Object(r) = r else { return r.clone() };
                            V::Object(cols.iter().map(|c| (c.clone(), r.iter().find(|(k, _)| k == c).map(|(_, x)| x.clone()).unwrap_or(V::Primitive(P::Null)))).collect())
                        })
                        .collect(),
                );
            }
            V::Array(a.iter().map(|x| reorder(doc, x, i)).collect())
        }
    }
}

/// The encoder also writes tables in the header's order.
pub fn canonical_order(v: &V) -> V {
    canon(v, true)
}
fn canon(v: &V, table_ok: bool) -> V {
    match v {
        V::Primitive(p) => V::Primitive(p.clone()),
        V::Object(f) => V::Object(f.iter().map(|(k, x)| (k.clone(), canon(x, true))).collect()),
        V::Array(a) => {
            if let (true, Some(cols)) = (table_ok, columns(a)) {
                return V::Array(
                    a.iter()
                        .map(|r| {
                            let V::Object(r) = r else { return r.clone() };
                            V::Object(cols.iter().map(|c| (c.clone(), r.iter().find(|(k, _)| k == c).map(|(_, x)| x.clone()).unwrap_or(V::Primitive(P::Null)))).collect())
                        })
                        .collect(),
                );
            }
            V::Array(a.iter().map(|x| canon(x, false)).collect())
        }
    }
}

/// Safe path expansion of a decoded value. `quoted` tells whether a key was quoted in the text.
pub fn expand(v: &V, strict: bool, quoted: &dyn Fn(&str) -> bool) -> Result<V, String> {
    Ok(match v {
        V::Primitive(p) => V::Primitive(p.clone()),
        V::Array(a) => V::Array(a.iter().map(|x| expand(x, strict, quoted)).collect::<Result<_, _>>()?),
        V::Object(f) => {
            let mut out: Vec<(String, V)> = Vec::new();
            for (k, x) in f {
                let x = expand(x, strict, quoted)?;
                let segs: Vec<&str> = k.split('.').collect();
                if segs.len() > 1 && !quoted(k) && segs.iter().all(|s| is_ident(s)) {
                    put_path(&mut out, &segs, x, strict)?;
                } else {
                    put(&mut out, k, x, strict)?;
                }
            }
            V::Object(out)
        }
    })
}
fn put_path(out: &mut Vec<(String, V)>, segs: &[&str], v: V, strict: bool) -> Result<(), String> {
    if segs.len() == 1 {
        return put(out, segs[0], v, strict);
    }
    let i = match out.iter().position(|(k, _)| k == segs[0]) {
        Some(i) => i,
        None => {
            out.push((segs[0].to_string(), V::Object(vec![])));
            out.len() - 1
        }
    };
    if !matches!(out[i].1, V::Object(_)) {
        if strict {
            return Err("conflict".into());
        }
        out[i].1 = V::Object(vec![]);
    }
    match &mut out[i].1 {
        V::Object(o) => put_path(o, &segs[1..], v, strict),
        _ => Ok(()),
    }
}
fn put(out: &mut Vec<(String, V)>, k: &str, v: V, strict: bool) -> Result<(), String> {
    let Some(i) = out.iter().position(|(l, _)| l == k) else {
        out.push((k.to_string(), v));
        return Ok(());
    };
    match (&mut out[i].1, v) {
        (V::Object(o), V::Object(n)) => {
            for (k, x) in n {
                put(o, &k, x, strict)?;
            }
            Ok(())
        }
        _ if strict => Err("conflict".into()),
        (slot, v) => {
            *slot = v;
            Ok(())
        }
    }
}

/// The JSON text the program prints. `escape_all`: every control character is escaped (path expansion
/// output); otherwise those below U+0020 only.
pub fn print_json(v: &V, indent: usize, escape_all: bool) -> String {
    let mut o = String::new();
    print_at(v, indent, escape_all, 0, &mut o);
    o
}
fn print_at(v: &V, ind: usize, esc: bool, depth: usize, o: &mut String) {
    let nl = |d: usize, o: &mut String| {
        if ind > 0 {
            o.push('\n');
            o.push_str(&" ".repeat(d * ind));
        }
    };
    match v {
        V::Primitive(P::Null) => o.push_str("null"),
        V::Primitive(P::Bool(b)) => o.push_str(&b.to_string()),
        V::Primitive(P::Number(n)) => o.push_str(&serde_json::Number::from_f64(*n).map_or("null".to_string(), |n| n.to_string())),
        V::Primitive(P::String(x)) => string(x, esc, o),
        V::Array(a) if a.is_empty() => o.push_str("[]"),
        V::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                nl(depth + 1, o);
                print_at(x, ind, esc, depth + 1, o);
            }
            nl(depth, o);
            o.push(']');
        }
        V::Object(f) if f.is_empty() => o.push_str("{}"),
        V::Object(f) => {
            o.push('{');
            for (i, (k, x)) in f.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                nl(depth + 1, o);
                string(k, esc, o);
                o.push(':');
                if ind > 0 {
                    o.push(' ');
                }
                print_at(x, ind, esc, depth + 1, o);
            }
            nl(depth, o);
            o.push('}');
        }
    }
}
fn string(x: &str, esc: bool, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' if !esc => o.push_str("\\b"),
            '\u{c}' if !esc => o.push_str("\\f"),
            c if (c as u32) < 0x20 || (esc && c.is_control()) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
