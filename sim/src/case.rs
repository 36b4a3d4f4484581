//! Random command lines with known outcomes.

use crate::dec::{self, StyleCfg};
use crate::enc::{self, EncOpts};
use crate::os::{Exec, Fs};
use crate::tape::Src;
use crate::val::*;

/// the largest input and output, well below what the simulated disk holds
pub const SIZE: usize = 150_000;
/// the same for the rare documents made to be huge
pub const HUGE: usize = 3_000_000;

#[derive(Clone, Debug)]
pub struct Case {
    pub exec: Exec,
    pub input: Option<String>,
    pub output: Option<String>,
    pub encode: bool,
    /// the complete output, newline included; None: the conversion must be rejected
    pub doc: Option<Vec<u8>>,
    pub old: Option<Vec<u8>>,
    /// what was written to the input, before anything spoilt it
    pub why: String,
}
impl Case {
    /// The destination's content after `o`.
    pub fn dest<'a>(&self, o: &'a crate::os::Out) -> Option<&'a [u8]> {
        match &self.output {
            None => Some(&o.stdout),
            Some(f) => o.file(f).map(Vec::as_slice),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Want {
    /// Some(true): must convert; Some(false): must be rejected
    pub valid: Option<bool>,
    pub big: bool,
    pub alias: bool,
    pub file_out: Option<bool>,
}
impl Default for Want {
    fn default() -> Self {
        Self { valid: Some(true), big: true, alias: true, file_out: None }
    }
}

pub fn needs_indent(v: &V) -> bool {
    match v {
        V::Primitive(_) => false,
        V::Array(a) => !a.iter().all(|x| matches!(x, V::Primitive(_))),
        V::Object(f) => f.iter().any(|(_, x)| match x {
            V::Primitive(_) => false,
            V::Array(a) => !a.iter().all(|x| matches!(x, V::Primitive(_))),
            V::Object(g) => !g.is_empty(),
        }),
    }
}

fn delim_arg(src: &mut Src, d: char) -> &'static str {
    match d {
        ',' => *src.pick(&[",", "comma"]),
        '|' => *src.pick(&["|", "pipe"]),
        _ => *src.pick(&["tab", "\\t", "\t"]),
    }
}

/// Now and then, makes the document exactly as long as a buffer, or nearly.
fn pad(src: &mut Src, value: &mut V, len: impl Fn(&V) -> Option<usize>) {
    if !src.chance(1, 10) {
        return;
    }
    let goal = *src.pick(&[8192, 8192, 8192, 16_384, 16_384, 1024, 4096, 65_536]) + src.n(5) - 2;
    let V::Object(f) = value else { return };
    if f.iter().any(|(k, _)| k.starts_with("zpad")) {
        return;
    }
    f.push(("zpad".into(), s("x")));
    if let Some(have) = len(value) {
        if let V::Object(f) = value {
            if let Some((_, x)) = f.last_mut() {
                *x = s(&"x".repeat(goal.saturating_sub(have) + 1));
            }
        }
    }
}

pub fn gen_case(src: &mut Src, w: Want) -> Case {
    let encode = !src.chance(1, 2);
    let valid = w.valid.unwrap_or_else(|| !src.chance(1, 3));
    let mut args: Vec<String> = Vec::new();
    let big = w.big && src.chance(1, 6);
    let cfg = GenCfg { long: w.big && src.chance(1, 4), nodes: if src.chance(1, 2) { 8 } else { 24 }, ..GenCfg::default() };
    // past 64 KiB, and now and then past a megabyte
    let huge = big && src.chance(1, 16);
    let limit = if huge { HUGE } else { SIZE };
    let mut value = if huge {
        let bytes = *src.pick(&[66_000, 66_000, 66_000, 90_000, 90_000, 135_000, 140_000, 270_000, 270_000, 1_060_000]);
        gen_huge(src, bytes)
    } else if big {
        gen_big(src, &cfg)
    } else {
        gen_value(src, &cfg)
    };
    let mut why = String::new();
    let (input, doc): (Vec<u8>, Option<Vec<u8>>);
    if encode {
        let style = gen_json_style(src);
        let o = EncOpts {
            indent: if src.chance(1, 3) { src.n(17) } else { 2 },
            delim: *src.pick(&[',', ',', '|', '\t']),
            fold: src.chance(1, 3),
            flatten: if src.chance(1, 4) { *src.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 6, 100, 1 << 40]) } else { usize::MAX },
        };
        if o.fold && src.chance(1, 2) {
            collide(src, &cfg, &mut value);
        }
        let of_input = src.chance(1, 4);
        pad(src, &mut value, |v| {
            let t = json_text(v, &style);
            if of_input {
                return Some(t.len());
            }
            parse_json(&t).map(|v| enc::encode(&v, &o).join("\n").len() + 1)
        });
        let text = json_text(&value, &style);
        if o.indent != 2 || src.chance(1, 8) {
            args.push(format!("--indent={}", o.indent));
        }
        if o.delim != ',' || src.chance(1, 8) {
            args.push("--delimiter".into());
            args.push(delim_arg(src, o.delim).into());
        }
        if o.fold {
            args.push("--key-folding=safe".into());
        }
        if o.flatten != usize::MAX {
            args.push("--flatten-depth".into());
            args.push(o.flatten.to_string());
        }
        if src.chance(1, 4) {
            args.push("--stats".into());
        }
        let mut bytes = text.into_bytes();
        if !valid {
            (bytes, why) = spoil_json(src, bytes);
        }
        let v = String::from_utf8(bytes.clone()).ok().and_then(|t| parse_json(&t));
        let out: Option<Vec<u8>> = v.map(|v| (enc::encode(&v, &o).join("\n") + "\n").into_bytes());
        if bytes.len() > limit || out.as_ref().is_some_and(|d| d.len() > limit) {
            return gen_case(src, Want { valid: Some(valid), big: false, ..w });
        }
        doc = out;
        input = bytes;
    } else {
        let mut indent = if src.chance(1, 3) { src.range(1, 8) } else if src.chance(1, 60) { *src.pick(&[9, 12, 15, 16]) } else { 2 };
        let expand = src.chance(1, 3);
        if expand && src.chance(1, 2) {
            collide(src, &cfg, &mut value);
        }
        if !needs_indent(&value) && src.chance(1, 8) {
            indent = 0;
        }
        let strict = !src.chance(1, 4);
        let st = StyleCfg { indent, protect_dots: src.chance(1, 3), blank_lines: true, odd: if indent == 0 { 0 } else { *src.pick(&[1, 4, 0]) } };
        pad(src, &mut value, |v| {
            let v = if expand { dec::expand(v, strict, &|k| !enc::bare_key(k) || st.protect_dots).ok()? } else { v.clone() };
            Some(dec::print_json(&v, indent, expand).len() + 1)
        });
        let d = dec::write_doc(src, &value, &st);
        let mut bytes = d.text().into_bytes();
        let mut must_strict = strict;
        let mut out = None;
        if !valid {
            must_strict = true;
            let e = spoil_toon(src, &d, indent, expand);
            bytes = e.0;
            why = e.1;
        } else {
            if src.chance(1, 3) {
                bytes.push(b'\n');
            }
            let v = dec::read_back(&d, &value);
            let v = if expand {
                let protect = st.protect_dots;
                dec::expand(&v, strict, &|k| !enc::bare_key(k) || protect)
            } else {
                Ok(v)
            };
            match v {
                Ok(v) => out = Some((dec::print_json(&v, indent, expand) + "\n").into_bytes()),
                Err(_) => why = "path expansion conflict".into(),
            }
        }
        if indent != 2 {
            args.push(format!("--indent={indent}"));
        }
        if expand || why.contains("expansion") {
            args.push("--expand-paths=safe".into());
        }
        if !must_strict {
            args.push("--no-strict".into());
        }
        if bytes.len() > limit || out.as_ref().is_some_and(|d| d.len() > limit) {
            return gen_case(src, Want { valid: Some(valid), big: false, ..w });
        }
        doc = out;
        input = bytes;
    }
    // channels
    let mut files = Fs::new();
    let mut stdin = Vec::new();
    let named = src.chance(2, 3);
    let mut explicit = src.chance(1, 3);
    let mut in_name = None;
    if named {
        let n = if explicit {
            *src.pick(&["in.json", "in.toon", "data", "a b.txt", "é日.dat", "sub/x.JSON", "in.toon.bak"])
        } else if encode {
            *src.pick(&["in.json", "data", "A.JSON", "sub/x.json", "in.txt", "é日.json", "x.toon.json"])
        } else {
            *src.pick(&["in.toon", "A.TOON", "sub/x.toon", "é日.toon", "x.json.toon"])
        };
        files.insert(n.to_string(), input.clone());
        in_name = Some(n.to_string());
        args.push(if src.chance(1, 8) { format!("./{n}") } else { n.to_string() });
    } else {
        stdin = input.clone();
        if src.chance(1, 3) {
            args.push("-".into());
        }
        if !encode {
            explicit = true;
        }
    }
    if explicit {
        args.push((*src.pick(if encode { &["--encode", "-e"] } else { &["--decode", "-d"] })).to_string());
    }
    let to_file = w.file_out.unwrap_or_else(|| src.chance(1, 2));
    let mut output = None;
    let mut old = None;
    if to_file {
        let alias = w.alias && named && src.chance(1, 12);
        let n = if alias { in_name.clone().unwrap_or_default() } else { (*src.pick(&["out.toon", "out.json", "o", "sub/out é.txt"])).to_string() };
        if alias {
            old = Some(input.clone());
        } else if src.chance(2, 3) {
            let len = src.n(4);
            let base: &[u8] = *src.pick(&[b"old: content\n".as_slice(), b"{\"old\": true}\n", b"\xff\x00binary"]);
            let mut c = base.repeat(match len {
                0 => 1,
                1 => 0,
                2 => 40,
                _ => 2000,
            });
            // sometimes the old content begins like the new
            if src.chance(1, 4) {
                if let Some(d) = &doc {
                    c = [d.as_slice(), &c].concat();
                }
            }
            c.truncate(SIZE);
            files.insert(n.clone(), c.clone());
            old = Some(c);
        }
        match src.n(3) {
            0 => args.extend(["-o".into(), n.clone()]),
            1 => args.push(format!("--output={n}")),
            _ => args.push(format!("-o{n}")),
        }
        output = Some(n);
    }
    if src.chance(1, 4) {
        files.insert("bystander.txt".into(), b"leave me\n".to_vec());
    }
    let exec = Exec { args, stdin, files, ..Exec::default() };
    Case { exec, input: in_name, output, encode, doc, old, why }
}

/// Bytes that are certainly not valid UTF-8 JSON.
fn spoil_json(src: &mut Src, mut b: Vec<u8>) -> (Vec<u8>, String) {
    let why = match src.n(5) {
        0 => {
            let at = src.n(b.len() + 1);
            b.insert(at, *src.pick(&[0xffu8, 0xc3, 0x80, 0xed]));
            "stray byte"
        }
        1 => {
            let n = src.n(b.len().max(1));
            b.truncate(n);
            "cut short"
        }
        2 => {
            b.extend_from_slice(src.pick(&[b"x".as_slice(), b"}", b" ,", b"1 2", b"\"\""]));
            "trailing text"
        }
        3 => {
            let at = src.n(b.len() + 1);
            b.insert(at, *src.pick(b"]}:,\"\\x\x00"));
            "extra character"
        }
        _ => {
            b = [b"[".repeat(200), b"]".repeat(200)].concat();
            "too deep"
        }
    };
    let bad = match std::str::from_utf8(&b) {
        Err(_) => true,
        Ok(t) => serde_json::from_str::<serde_json::Value>(t).is_err(),
    };
    if !bad {
        b = b"{\"a\": ".to_vec();
    }
    (b, why.into())
}

/// TOON text that strict decoding must reject.
pub fn spoil_toon(src: &mut Src, d: &dec::Doc, indent: usize, expand: bool) -> (Vec<u8>, String) {
    let mut lines = d.lines.clone();
    let kind = src.n(8);
    let n = lines.len();
    if kind == 0 {
        let mut b = d.text().into_bytes();
        let at = src.n(b.len() + 1);
        b.insert(at, *src.pick(&[0xffu8, 0xc3, 0x80]));
        if std::str::from_utf8(&b).is_err() {
            return (b, "stray byte".into());
        }
        b.push(0xff);
        return (b, "stray byte".into());
    }
    if kind == 1 {
        if let Some(a) = (!d.arrs.is_empty()).then(|| src.pick(&d.arrs).clone()) {
            let l = &lines[a.line];
            let m = if src.chance(1, 2) { a.n + 1 + src.n(3) } else { a.n + 7 };
            lines[a.line] = format!("{}{}{}", &l[..a.len_at.0], m, &l[a.len_at.1..]);
            return (lines.join("\n").into_bytes(), "declared length raised".into());
        }
    }
    if kind == 2 && indent >= 2 {
        let at = src.n(n.max(1)).min(n);
        lines.insert(at, format!("{}odd: 1", " ".repeat(indent * src.n(3) + 1)));
        return (lines.join("\n").into_bytes(), "odd indentation".into());
    }
    if kind == 3 && expand {
        return (b"a.b: 1\na: 2".to_vec(), "path expansion conflict".into());
    }
    if kind == 4 {
        let t = src.pick(&["a: 1\nb: \"open", "\"k: 1\nb: 2", "a: 1\nno colon here", "x[2]: 1,2,3", "x[1]: 1,2", "t[2]{a,b}:\n1,2", "a: \"x\" y\nb: 1", "a: \"\\q\"", "[3]: 1,2"]);
        return (t.as_bytes().to_vec(), "malformed".into());
    }
    // a tab in the indentation
    let at = src.n(n + 1);
    lines.insert(at, format!("{}\tk: 1", " ".repeat(indent * src.n(2))));
    (lines.join("\n").into_bytes(), "tab in indentation".into())
}
