//! Line lists for the decoders: valid documents with a known value, flat documents, damaged documents and
//! random text.

use crate::dec::{self, Doc, StyleCfg};
use crate::tape::Src;
use crate::val::*;
use toon::DecodeStreamOptions;

pub struct Lines {
    pub lines: Vec<String>,
    pub indent: usize,
    pub strict: bool,
    /// the events, when the document is valid and undamaged
    pub events: Option<Vec<Ev>>,
}
impl Lines {
    pub fn opts(&self) -> Option<DecodeStreamOptions> {
        if self.indent == 2 && self.strict {
            return None;
        }
        Some(DecodeStreamOptions { indent: Some(self.indent), strict: Some(self.strict) })
    }
}

pub fn written(src: &mut Src, v: &V, indent: usize) -> (Doc, V) {
    let odd = *src.pick(&[1, 4, 0]);
    let blank = src.chance(1, 2);
    let d = dec::write_doc(src, v, &StyleCfg { indent, protect_dots: false, blank_lines: blank, odd });
    let back = dec::read_back(&d, v);
    (d, back)
}

pub fn flat_object(src: &mut Src, n: usize) -> V {
    let cfg = GenCfg::default();
    let keys = gen_keys(src, &cfg, n);
    let mut v = V::Object(keys.into_iter().map(|k| (k, V::Primitive(gen_prim(src, &cfg)))).collect());
    if src.chance(1, 10) {
        resemble(src, &cfg, &mut v);
    }
    v
}

/// Any indent at all, also ones under which few documents are valid.
pub fn any_indent(src: &mut Src) -> usize {
    match src.n(36) {
        0 => 0,
        1 => *src.pick(&[6, 7, 8, 9, 16, 17, 33, 100, 255, 256]),
        2..=12 => src.range(1, 5),
        _ => 2,
    }
}

pub fn gen_lines(src: &mut Src) -> Lines {
    let indent = any_indent(src);
    let strict = !src.chance(1, 3);
    let kind = src.n(10);
    let mut lines;
    let events = None;
    match kind {
        0 => {
            // few lines of text made of the format's own tokens
            let n = src.n(9);
            lines = (0..n).map(|_| random_line(src, indent)).collect::<Vec<_>>();
            return Lines { lines, indent, strict, events };
        }
        1..=3 => {
            let n = src.range(1, 7);
            let mut v = flat_object(src, n);
            if src.chance(1, 2) {
                // flat at first
                if let (V::Object(o), V::Object(t)) = (&mut v, gen_value(src, &GenCfg { nodes: 10, ..GenCfg::default() })) {
                    for (k, x) in t {
                        if !o.iter().any(|(q, _)| *q == k) {
                            o.push((k, x));
                        }
                    }
                }
            }
            lines = written(src, &v, indent).0.lines;
        }
        _ => {
            let nodes = if src.chance(1, 2) { 8 } else { 24 };
            let v = if src.chance(1, 4000) {
                gen_long(src)
            } else if src.chance(1, 60) {
                gen_big(src, &GenCfg::default())
            } else { gen_value(src, &GenCfg { nodes, ..GenCfg::default() })
            };
            lines = written(src, &v, indent).0.lines;
        }
    }
    if src.chance(1, 2) {
        for _ in 0..src.range(1, 3) {
            damage(src, &mut lines, indent);
        }
    }
    if src.chance(1, 40) {
        // read with another indent than it was written with
        let indent = *src.pick(&[0, 1, 3, 4, 8, 1000, usize::MAX]);
        return Lines { lines, indent, strict, events };
    }
    if src.chance(1, 12) {
        // line ends of another system, on all lines or one
        let n = lines.len();
        let one = src.chance(1, 3).then(|| src.n(n.max(1)));
        for (i, l) in lines.iter_mut().enumerate() {
            if one.is_none_or(|k| k == i) {
                l.push('\r');
            }
        }
    }
    Lines { lines, indent, strict, events }
}

const LINES: &[&str] = &[
    "a: 1", "b: x", "k:", "- 1", "- a: 1", "-", "- [2]: 1,2", "items[2]: 1,2", "items[2]:", "t[2]{a,b}:", "1,2", "[2]: 1,2", "[1]{a}:", "x", "", "  ", "\"q\": 1", "\"q:", "a: \"x",
    "a: [x]", "a: [2]: y", "[0]:", "k[0]:", "- - 1", "a.b: 1", ": 1", "a:b", "\"a\"", "\"a\"[1]: 1", "k[1|]: 1|2", "k[1\t]: x", "\t- x", "true", "-1", "- ", "-\r", "x:\r", "- \r", "[1]:\r", "  - x", "[3", "k[x]: 1", "{a}:", "k[99999999999]: 1",
    "k[200000000]: 1", "a: 1\r", "é: 1", "\u{feff}a: 1", "a: b: c", "[2]:", "- k[1]: 1", "- t[1]{a}:", "  1", "a:  spaced", "k[2]{a,\"b}\"}:", "\"k\\\"\": 1", "\"k\\q\": 1", "\"[2]: x\": 1", "a: \"[1]: z\"",
];
pub fn random_line(src: &mut Src, indent: usize) -> String {
    let d = *src.pick(&[0, 0, 0, 1, 1, 2, 3]);
    let pad = if src.chance(1, 12) { d * indent + 1 } else { d * indent };
    format!("{}{}", " ".repeat(pad), src.pick(LINES))
}

/// One fault of storage or transport: a line lost, repeated, moved, cut, or a few bytes changed.
pub fn damage(src: &mut Src, lines: &mut Vec<String>, indent: usize) -> &'static str {
    let n = lines.len();
    let i = src.n(n.max(1));
    if n == 0 {
        lines.push(random_line(src, indent));
        return "line inserted";
    }
    match src.n(11) {
        0 => {
            lines.remove(i);
            "line lost"
        }
        1 => {
            let l = lines[i].clone();
            lines.insert(i, l);
            "line repeated"
        }
        2 => {
            let j = src.n(n);
            lines.swap(i, j);
            "lines exchanged"
        }
        3 => {
            lines.truncate(i);
            "document cut off"
        }
        4 => {
            let l = &mut lines[i];
            let at = cut_point(src, l);
            l.truncate(at);
            "line cut off"
        }
        5 => {
            lines.insert(i, random_line(src, indent));
            "line inserted"
        }
        6 => {
            let k = src.range(1, indent + 1);
            lines[i] = format!("{}{}", " ".repeat(k), lines[i]);
            "indentation added"
        }
        7 => {
            let l = lines[i].clone();
            let k = src.range(1, indent + 1).min(l.len() - l.trim_start_matches(' ').len());
            lines[i] = l[k..].to_string();
            "indentation lost"
        }
        8 => {
            let l = &mut lines[i];
            let at = cut_point(src, l);
            l.insert(at, *src.pick(&[':', '"', '[', ']', '{', '}', ',', '-', ' ', '\\', '9', '|', '\t', 'x', '\r', '\u{a0}', '0', '\u{0}']));
            "character inserted"
        }
        9 => {
            let l = &mut lines[i];
            if !l.is_empty() {
                let at = cut_point(src, l);
                if at < l.len() {
                    l.remove(at);
                }
            }
            "character lost"
        }
        _ => {
            let l = &mut lines[i];
            let at = cut_point(src, l);
            if at < l.len() {
                l.remove(at);
                l.insert(at, *src.pick(&[':', '"', '[', ']', '{', '}', ',', '-', ' ', '\\', '9', '1', 'x', '\u{fffd}']));
            }
            "character changed"
        }
    }
}
fn cut_point(src: &mut Src, l: &str) -> usize {
    let mut at = src.n(l.len() + 1);
    while !l.is_char_boundary(at) {
        at -= 1;
    }
    at
}
