//! C18 to C21: what the decoders and event consumers make of lost, repeated, damaged and cut-off data.

use super::threads::{poll_through, stream_through};
use crate::alloc;
use crate::ctx::*;
use crate::dec::{self, Arr, Doc, Kind};
use crate::docs::*;
use crate::ensure;
use crate::os::{show, Exec};
use crate::sched;
use crate::tape::{hash, mix, Src};
use crate::val::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use toon::cli::conversion;
use toon::cli::json_stream::json_stream_from_events;
use toon::decode::event_builder::{build_node_from_events, node_to_json, NodeValue};
use toon::decode::{try_decode_async, AsyncDecodeStream};
use toon::options::ExpandPathsMode;
use toon::{DecodeOptions, DecodeStreamOptions};

/// The value an event sequence describes, if it describes exactly one complete value.
pub fn value_of(ev: &[Ev]) -> Option<V> {
    let mut at = 0;
    let v = value_at(ev, &mut at, 0)?;
    (at == ev.len()).then_some(v)
}
fn value_at(ev: &[Ev], at: &mut usize, depth: usize) -> Option<V> {
    if depth > 2000 {
        return None;
    }
    let e = ev.get(*at)?;
    *at += 1;
    match e {
        Ev::Primitive { value } => Some(V::Primitive(value.clone())),
        Ev::StartArray { .. } => {
            let mut out = vec![];
            loop {
                if let Some(Ev::EndArray) = ev.get(*at) {
                    *at += 1;
                    return Some(V::Array(out));
                }
                out.push(value_at(ev, at, depth + 1)?);
            }
        }
        Ev::StartObject => {
            let mut out = vec![];
            loop {
                match ev.get(*at)? {
                    Ev::EndObject => {
                        *at += 1;
                        return Some(V::Object(out));
                    }
                    Ev::Key { key, .. } => {
                        *at += 1;
                        out.push((key.clone(), value_at(ev, at, depth + 1)?));
                    }
                    _ => return None,
                }
            }
        }
        _ => None,
    }
}

/// What one of the library's decoding entry points made of some lines.
enum Made {
    Value(V),
    Events(Vec<Ev>),
    Json(String),
    Refused(String),
    /// the stream gave these events before its error
    Broken(Vec<Ev>, String),
}
impl Made {
    fn describe(&self) -> String {
        match self {
            Made::Value(v) => format!("the value {v:?}"),
            Made::Events(e) => format!("the events {e:?}"),
            Made::Json(t) => format!("the JSON text {t:?}"),
            Made::Refused(e) => format!("the error {e:?}"),
            Made::Broken(e, m) => format!("the events {e:?} and then the error {m:?}"),
        }
    }
    fn digest(&self) -> u64 {
        hash(self.describe().as_bytes())
    }
}
const DECODERS: &[&str] = &[
    "try_decode",
    "try_decode_from_lines",
    "try_decode_stream_sync",
    "AsyncDecodeStream",
    "try_decode_async",
    "try_decode_stream (async)",
    "the conversion to JSON chunks",
    "try_decode with path expansion",
    "the conversion with path expansion",
    "toon_to_json",
    // these refuse by panicking
    "decode",
    "decode_from_lines",
    "decode_stream_sync",
    "decode_stream (async)",
    "decode_stream_async",
    "try_decode_stream_async",
    "try_decode_from_lines with path expansion",
    "try_decode_async with path expansion",
    "decode with path expansion",
];
/// The first so many of these take part where panics and work are watched.
const FALLIBLE: usize = 10;
/// Without path expansion.
const PLAIN: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15];
const EXPANDING: [usize; 5] = [7, 8, 16, 17, 18];
fn refused_by_panic(f: impl FnOnce() -> Made) -> Made {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| {
        Made::Refused(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default())
    })
}
fn decode_by(which: usize, text: &str, indent: usize, strict: bool) -> Made {
    let lines = || text.split('\n').map(String::from).collect::<Vec<_>>();
    let dopt = |x: bool| {
        Some(DecodeOptions {
            indent: Some(indent),
            strict: Some(strict),
            expand_paths: x.then_some(ExpandPathsMode::Safe),
        })
    };
    let sopt = || Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
    let v = |r: Result<V, toon::error::ToonError>| match r {
        Ok(v) => Made::Value(v),
        Err(e) => Made::Refused(e.to_string()),
    };
    let ev = |r: Result<Vec<Ev>, toon::error::ToonError>| match r {
        Ok(v) => Made::Events(v),
        Err(e) => Made::Refused(e.to_string()),
    };
    let js = |r: Result<Vec<String>, toon::error::ToonError>| match r {
        Ok(v) => Made::Json(v.concat()),
        Err(e) => Made::Refused(e.to_string()),
    };
    match which {
        0 => v(toon::try_decode(text, dopt(false))),
        1 => v(toon::try_decode_from_lines(lines(), dopt(false))),
        2 => ev(toon::try_decode_stream_sync(lines(), sopt())),
        3 => {
            let got = stream_through(AsyncDecodeStream::new(lines().into_iter(), sopt()));
            let mut out = vec![];
            for x in got {
                match x {
                    Ok(e) => out.push(e),
                    Err(e) => return Made::Broken(out, e.to_string()),
                }
            }
            Made::Events(out)
        }
        4 => v(poll_through(try_decode_async(text, dopt(false)))),
        5 => ev(poll_through(toon::try_decode_stream(lines(), sopt()))),
        6 => js(conversion::decode_to_json_chunks(text, dopt(false))),
        7 => v(toon::try_decode(text, dopt(true))),
        8 => js(conversion::decode_to_json_chunks(text, dopt(true))),
        10 => refused_by_panic(|| Made::Value(toon::decode(text, dopt(false)))),
        11 => refused_by_panic(|| Made::Value(toon::decode_from_lines(lines(), dopt(false)))),
        12 => refused_by_panic(|| Made::Events(toon::decode_stream_sync(lines(), sopt()))),
        13 => refused_by_panic(|| Made::Events(poll_through(toon::decode_stream(lines(), sopt())))),
        14 => refused_by_panic(|| Made::Events(poll_through(toon::decode::decode_stream_async(lines(), sopt())))),
        15 => ev(poll_through(toon::decode::try_decode_stream_async(lines(), sopt()))),
        16 => v(toon::try_decode_from_lines(lines(), dopt(true))),
        17 => v(poll_through(try_decode_async(text, dopt(true)))),
        18 => refused_by_panic(|| Made::Value(toon::decode(text, dopt(true)))),
        _ if indent == 2 && strict => match toon::toon_to_json(text) {
            Ok(t) => Made::Json(t),
            Err(e) => Made::Refused(e.to_string()),
        },
        _ => v(toon::try_decode(text, dopt(false))),
    }
}

/// The program on a TOON document.
fn cli_decode(src: &mut Src, ctx: &mut Ctx, bytes: Vec<u8>, indent: usize, strict: bool, expand: bool) -> crate::os::Out {
    let mut x = Exec { args: vec!["-d".into(), format!("--indent={indent}")], ..Exec::default() };
    if !strict {
        x.args.push("--no-strict".into());
    }
    if expand {
        x.args.push("--expand-paths=safe".into());
    }
    if src.chance(1, 2) {
        x.stdin = bytes;
    } else {
        x.files.insert("in.toon".into(), bytes);
        x.args.push("in.toon".into());
    }
    crate::os::transient(src, &mut x);
    x.lat_max = 0;
    ctx.exec(&x)
}

fn some_value(src: &mut Src, ctx: &Ctx) -> V {
    let nodes = *src.pick(if ctx.thorough { &[8, 24, 60, 200] } else { &[8, 24, 60] });
    let depth = *src.pick(&[5, 5, 8]);
    let cfg = GenCfg { nodes, depth, ..GenCfg::default() };
    match src.n(30_000) {
        0 => return gen_long(src),
        1..=200 => return gen_big(src, &cfg),
        _ => {}
    }
    match src.n(8) {
        0 => V::Array((0..src.range(1, 5)).map(|_| gen_value(src, &GenCfg { nodes: 8, ..cfg })).collect()),
        1 => {
            let n = src.range(1, 4);
            let keys = gen_keys(src, &cfg, n);
            V::Object(keys.into_iter().map(|k| (k, V::Array((0..src.range(1, 4)).map(|_| gen_value(src, &GenCfg { nodes: 8, ..cfg })).collect()))).collect())
        }
        _ => gen_value(src, &cfg),
    }
}

// ---------------------------------------------------------------------------------------------
// C18

/// Lines [s, e) moved by d from line `at` on.
fn shift(d: &mut Doc, at: usize, by: isize) {
    let mv = |x: &mut usize, from: usize| {
        if *x >= from {
            *x = (*x as isize + by) as usize;
        }
    };
    for a in &mut d.arrs {
        mv(&mut a.line, at);
        for (s, e) in &mut a.members {
            mv(s, at);
            mv(e, at);
        }
    }
}

/// A value or cell that was not there before, among them the ones a lenient reader is tempted to overlook.
fn stray(src: &mut Src, t: &[String], sep: &str) -> String {
    match src.n(6) {
        // a line may end with its delimiter, unless that is white space
        0 if !sep.contains('\t') => String::new(),
        1 => (*src.pick(&["x", "0", "null", "\"\"", "true", "\"a,b|c\"", "-", "1.5"])).into(),
        _ => t[src.n(t.len())].clone(),
    }
}

/// Alter one array so that its declared length and its members differ (or a row and the columns).
fn alter(src: &mut Src, d: &mut Doc, i: usize, indent: usize) -> String {
    let a: Arr = d.arrs[i].clone();
    let head = d.lines[a.line].clone();
    let relen = |m: String| format!("{}{m}{}", &head[..a.len_at.0], &head[a.len_at.1..]);
    let at = format!("array of {} in line {}", a.n, a.line + 1);
    let kind = src.n(8);
    if kind < 2 || (a.n == 0 && kind < 5) {
        let m = loop {
            let m = match src.n(8) {
                7 => a.n + *src.pick(&[256, 65_536, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1 << 63]),
                0 => a.n + 1,
                1 => a.n.saturating_sub(1),
                2 => 0,
                3 => a.n * 10 + src.n(10),
                4 => a.n / 10,
                5 => a.n + src.n(30),
                _ => *src.pick(&[7usize, 100, 4096, 65_536, 99_999_999, 100_000_000, 100_000_001, 4_294_967_296, usize::MAX]),
            };
            let m = if m > 0 && src.chance(1, 8) { format!("{m}{}", "0".repeat(src.range(1, 30))) } else { m.to_string() };
            if m != a.n.to_string() {
                break m;
            }
        };
        d.lines[a.line] = relen(m.clone());
        return format!("{at}: declared length changed to {m}");
    }
    if a.n == 0 {
        // a member appears in an empty array
        if src.chance(1, 2) {
            d.lines[a.line].push_str(" x");
            return format!("{at}: value appended");
        }
        d.lines.insert(a.line + 1, format!("{}- x", " ".repeat((a.depth + 1) * indent)));
        shift(d, a.line + 1, 1);
        return format!("{at}: item appended");
    }
    match a.kind {
        Kind::Inline => {
            let mut t = a.tokens[0].clone();
            let (k, what) = (src.n(t.len()), src.n(4));
            let what = match what {
                0 | 1 => {
                    let m = if src.chance(1, 4) { src.range(1, t.len() - k) } else { 1 };
                    t.drain(k..k + m);
                    format!("{m} values lost")
                }
                2 => {
                    let x = stray(src, &t, &a.sep);
                    t.insert(k, x);
                    "value inserted".into()
                }
                _ => {
                    for _ in 0..*src.pick(&[1, 1, 1, 2, 3]) {
                        let x = stray(src, &t, &a.sep);
                        t.push(x);
                    }
                    "value appended".into()
                }
            };
            let mut l = format!("{}{}", a.lead, t.join(&a.sep));
            if t.is_empty() && src.chance(1, 2) {
                l = l.trim_end().to_string();
            }
            d.lines[a.line] = l;
            format!("{at}: {what}")
        }
        Kind::Table if src.chance(1, 3) => {
            let r = src.n(a.tokens.len());
            let mut t = a.tokens[r].clone();
            let k = src.n(t.len());
            let what = match src.n(4) {
                0 | 1 => {
                    t.remove(k);
                    "cell lost"
                }
                2 => {
                    let x = stray(src, &t, &a.sep);
                    t.insert(k, x);
                    "cell inserted"
                }
                _ => {
                    for _ in 0..*src.pick(&[1, 1, 1, 2, 3]) {
                        let x = stray(src, &t, &a.sep);
                        t.push(x);
                    }
                    "cell appended"
                }
            };
            d.lines[a.members[r].0] = format!("{}{}", a.lead, t.join(&a.sep));
            format!("{at}: {what} in row {r}")
        }
        _ => {
            let k = src.n(a.members.len());
            let (s, e) = a.members[k];
            match src.n(4) {
                0 | 1 => {
                    let m = if src.chance(1, 4) { src.range(1, a.members.len() - k) } else { 1 };
                    let e = a.members[k + m - 1].1;
                    d.lines.drain(s..e);
                    shift(d, e, s as isize - e as isize);
                    format!("{at}: members {k}..{} lost", k + m)
                }
                2 => {
                    let copy = d.lines[s..e].to_vec();
                    d.lines.splice(e..e, copy);
                    shift(d, e, (e - s) as isize);
                    format!("{at}: member {k} repeated")
                }
                3 if a.kind == Kind::List && src.chance(1, 2) => {
                    // an item of another kind, at the end or in between
                    let end = a.members[*src.pick(&[k, a.members.len() - 1])].1;
                    let pad = &d.lines[s][..d.lines[s].len() - d.lines[s].trim_start().len()];
                    let item = *src.pick(&["-", "- x", "- \"\"", "- [0]:", "- [1]: 1", "- k: 1", "- k:", "- null"]);
                    let l = format!("{pad}{item}");
                    d.lines.insert(end, l);
                    shift(d, end, 1);
                    format!("{at}: member inserted")
                }
                _ => {
                    let copy = d.lines[s..e].to_vec();
                    let end = a.members[a.members.len() - 1].1;
                    d.lines.splice(end..end, copy);
                    shift(d, end, (e - s) as isize);
                    format!("{at}: member {k} appended")
                }
            }
        }
    }
}

pub fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = some_value(src, ctx);
    let indent = if src.chance(1, 3) { src.range(1, 5) } else { 2 };
    let mut d = if src.chance(1, 4) {
        // as the encoder writes it
        dec::write_doc(src, &v, &dec::StyleCfg { indent, protect_dots: false, blank_lines: false, odd: 0 })
    } else {
        written(src, &v, indent).0
    };
    if d.arrs.is_empty() {
        return Ok(false);
    }
    ctx.note(|| format!("indent {indent}, document:\n{}", d.text()));
    // each array at most once, the later ones first, so that the outermost altered one stays altered
    let mut which: Vec<usize> = (0..*src.pick(&[1, 1, 1, 2, 3])).map(|_| src.n(d.arrs.len())).collect();
    which.sort_by_key(|i| std::cmp::Reverse(d.arrs[*i].line));
    which.dedup();
    let whole = if src.chance(1, 8) { Some(d.text()) } else { None };
    let mut said = vec![];
    for i in &which {
        let what = alter(src, &mut d, *i, indent);
        ctx.fault(&kind_of(&what), 1);
        said.push(what);
    }
    let text = d.text();
    ctx.note(|| format!("altered ({}):\n{text}", said.join("; ")));
    if let Some(w) = whole {
        // the document was acceptable before
        let r = decode_by(0, &w, indent, true);
        ensure!(matches!(r, Made::Value(_)), "try_decode gives {} for a valid document", r.describe());
    }
    if src.chance(1, 40) {
        let expand = src.chance(1, 4);
        let o = cli_decode(src, ctx, text.clone().into_bytes(), indent, true, expand);
        ensure!(o.status != 0, "the program accepts a document with {} and prints {}", said.join("; "), show(&o.stdout));
        ensure!(o.stdout.is_empty(), "the program prints {} for a document with {}", show(&o.stdout), said.join("; "));
    }
    let first = src.n(DECODERS.len());
    for j in 0..2 {
        let w = (first + j * 3) % DECODERS.len();
        let m = decode_by(w, &text, indent, true);
        ctx.see(&m.digest().to_le_bytes());
        ensure!(matches!(m, Made::Refused(_) | Made::Broken(..)), "{} accepts a document with {} and gives {}", DECODERS[w], said.join("; "), m.describe());
    }
    ctx.mark(hash(said.join(";").as_bytes()));
    Ok(true)
}
fn kind_of(what: &str) -> String {
    let w = what.split(": ").nth(1).unwrap_or(what);
    let w: String = w.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    let mut out = w.split(" in row").next().unwrap_or("").to_string();
    for t in ["declared length changed", "values lost", "lost", "repeated", "inserted", "appended"] {
        if out.contains(t) {
            let noun = ["value", "cell", "member", "item"].iter().find(|n| out.contains(**n)).copied().unwrap_or("");
            out = if t.starts_with("declared") { t.to_string() } else { format!("{noun} {}", t.trim_start_matches("values ")) };
            break;
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// C19

/// The deepest nesting the property covers.
const DEEP: usize = 1000;
/// A key of many segments, for path expansion.
fn long_path(src: &mut Src, indent: usize) -> Vec<String> {
    let n = match src.n(6) {
        0 => src.range(100_000, 300_000),
        1 => src.range(2_000, 20_000),
        2 | 3 => src.range(200, 600),
        _ => src.range(2, 200),
    };
    let seg = *src.pick(&["a", "b1", "_"]);
    let key = vec![seg; n].join(".");
    let value = *src.pick(&["1", "x", "\"q\"", "", "[]"]);
    let mut l = match src.n(4) {
        0 => vec![format!("{key}: {value}")],
        1 => vec![format!("{key}[2]: 1,2")],
        2 => vec!["list[1]:".into(), format!("{}- {key}: {value}", " ".repeat(indent))],
        _ => vec![format!("{key}:"), format!("{}x: {value}", " ".repeat(indent))],
    };
    if src.chance(1, 2) {
        let keep = src.range(1, n);
        l.push(format!("{}{}: 2", vec![seg; keep].join("."), if src.chance(1, 2) { ".z" } else { "" }));
    }
    l
}
/// One thing very often: escapes, quotes, brackets, digits, delimiters, lines.
fn long_run(src: &mut Src, indent: usize) -> Vec<String> {
    let unit = *src.pick(&[
        "\\n", "\\\\", "\\\"", "\\", "\"", "[", "]", "{", "}", ",", ":", "- ", " ", "9", "0", "1.", "1e", "-", "é", "😀", "a,", "\"a\",", "\"a,b\"|", "[1]:", "[1]{a}:", "\t", "|", "a.", ".", "\\x", "a: ", "\u{0}", "\r",
        "ab", "1,", "-1,", "null,", "true ",
    ]);
    let n = match src.n(8) {
        0 => src.range(50_000, 400_000),
        1 => src.range(5_000, 50_000),
        _ => src.range(50, 5_000),
    };
    let run = unit.repeat(n);
    let pad = " ".repeat(indent);
    match src.n(18) {
        0 => vec![run],
        1 | 2 => vec![format!("\"{run}\"")],
        3 | 4 => vec![format!("k: \"{run}\"")],
        5 => vec![format!("k: {run}")],
        6 | 7 => vec![format!("\"{run}\": 1")],
        8 => vec![format!("{run}: 1")],
        9 => vec![format!("[{n}]: {run}")],
        10 => vec![format!("k[1]: \"{run}\"")],
        11 => vec![format!("k[1]{{{run}}}:"), format!("{pad}1")],
        12 => vec![format!("k[{run}]: 1")],
        13 => vec!["k[1]:".into(), format!("{pad}- {run}")],
        14 => vec![format!("t[1]{{a,b}}:"), format!("{pad}{run}")],
        15 => vec![format!("t[1]{{a}}:"), format!("{pad}\"{run}\"")],
        16 => {
            // lines
            let l = *src.pick(&["- 1", "k: 1", "", "- a: 1", "k:", "1,2", "-", "- [1]: 1", "  x: 1", "[1]: 2"]);
            let head = *src.pick(&["k: 1", "[3]:", "k[100000]:", "t[9]{a,b}:", "a:"]);
            let mut v = vec![head.to_string()];
            let p = if src.chance(1, 2) { pad } else { String::new() };
            v.extend((0..n.min(100_000)).map(|_| format!("{p}{l}")));
            v
        }
        _ => vec![format!("{}k: 1", " ".repeat(n))],
    }
}
/// A deeply nested document, up to the depth the property covers.
fn deep(src: &mut Src, indent: usize) -> Vec<String> {
    let n = match src.n(12) {
        0 => src.range(120, 400),
        1 => src.range(400, DEEP),
        _ => src.range(2, 120),
    };
    let mut v = V::Primitive(gen_prim(src, &GenCfg::default()));
    for _ in 0..n {
        v = match src.n(4) {
            0 | 1 => V::Object(vec![((*src.pick(&["a", "b.c", "x y"])).into(), v)]),
            2 => V::Array(vec![v]),
            _ => V::Object(vec![("a".into(), s("1")), ("b".into(), v)]),
        };
    }
    written(src, &v, indent).0.lines
}

const BITS: &[u8] = b":\"[]{},-|\\ \t\n\r09ax\0";
/// One fault of a disk or channel on bytes.
fn corrupt(src: &mut Src, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    let n = b.len();
    if n == 0 {
        b.extend_from_slice(other);
        return "replaced";
    }
    let range = |src: &mut Src| {
        let s = src.n(n);
        let m = if src.chance(1, 2) { src.range(1, 8) } else { src.range(1, n) };
        (s, (s + m).min(n))
    };
    match src.n(12) {
        0 => {
            let i = src.n(n);
            b[i] ^= 1 << src.n(8);
            "bit flipped"
        }
        1 => {
            let i = src.n(n);
            b[i] = *src.pick(BITS);
            "byte changed"
        }
        2 => {
            let (s, e) = range(src);
            b.drain(s..e);
            "range lost"
        }
        3 => {
            let (s, e) = range(src);
            let c = b[s..e].to_vec();
            let at = src.n(n + 1);
            b.splice(at..at, c);
            "range repeated elsewhere"
        }
        4 => {
            let (s, e) = range(src);
            b[s..e].fill(*src.pick(&[0u8, 0xff, b' ', b'\n', b'9', b'"', b'[', b'-', b'{', b'.']));
            "range overwritten"
        }
        5 => {
            let cut = src.n(n + 1);
            b.truncate(cut);
            let from = cut.min(other.len());
            b.extend_from_slice(&other[from..]);
            "torn: the rest is of another document"
        }
        6 => {
            let cut = src.n(n);
            b.truncate(cut);
            "cut off"
        }
        7 => {
            let (s, e) = range(src);
            b[s..e].reverse();
            "range reversed"
        }
        8 => {
            // a digit of a length, or any digit
            let ds: Vec<usize> = (0..n).filter(|i| b[*i].is_ascii_digit() && (*i == 0 || b[*i - 1] == b'[' || b[*i - 1].is_ascii_digit())).collect();
            if let Some(i) = (!ds.is_empty()).then(|| *src.pick(&ds)) {
                b[i] = b'0' + src.n(10) as u8;
                let more = src.n(12);
                b.splice(i..i, vec![b'0' + src.n(10) as u8; more]);
            }
            "digits changed"
        }
        9 => {
            let i = src.n(n + 1);
            let m = src.range(1, 3);
            for _ in 0..m {
                b.insert(i, *src.pick(BITS));
            }
            "bytes inserted"
        }
        10 => {
            // blocks exchanged
            let k = *src.pick(&[4usize, 16, 64, 512]);
            let blocks = n.div_ceil(k);
            let (i, j) = (src.n(blocks), src.n(blocks));
            for t in 0..k {
                let (x, y) = (i * k + t, j * k + t);
                if x < n && y < n {
                    b.swap(x, y);
                }
            }
            "blocks exchanged"
        }
        _ => {
            // characters of several bytes
            let at = src.n(n + 1);
            let x = src.pick(&["é", "日", "😀", "\u{a0}", "\u{2028}", "\u{feff}", "\u{0}", "\\u00", "\u{85}", "\u{1F468}\u{200D}"]).as_bytes().to_vec();
            b.splice(at..at, x);
            "character inserted"
        }
    }
}

const STEPS_BASE: u64 = 4_000_000;
const STEPS_PER_BYTE: u64 = 4_000;
const PEAK_BASE: i64 = 1 << 20;
const PEAK_PER_BYTE: i64 = 1000;

/// Run one decoder on corrupted text within its limits.
thread_local! {
    static STEPS_SEEN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn survive(ctx: &mut Ctx, w: usize, text: &str, indent: usize, strict: bool) -> Result<Made, String> {
    let name = DECODERS[w];
    // what prints JSON indents each line by its depth, so its work grows with the indent as well
    sched::budget_steps(STEPS_BASE + STEPS_PER_BYTE * (1 + indent as u64 / 8) * text.len() as u64);
    alloc::reset_peak();
    let live = alloc::live();
    let r = catch_unwind(AssertUnwindSafe(|| decode_by(w, text, indent, strict)));
    let peak = alloc::peak() - live;
    let steps = sched::steps_used();
    STEPS_SEEN.with(|c| c.set(steps));
    sched::budget_steps(0);
    let m = r.map_err(|p| {
        let what = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default();
        format!("{name} panics on {text:?} (indent {indent}, strict {strict}): {what}")
    })?;
    let len = text.len().max(1) as i64;
    ctx.stats.n.entry("most bytes allocated at once per input byte (inputs of 1 kB or more)".into()).and_modify(|x| *x = (*x).max(if len >= 1000 { (peak / len) as u64 } else { 0 })).or_insert(0);
    ctx.stats.n.entry("most basic blocks executed per input byte (inputs of 1 kB or more)".into()).and_modify(|x| *x = (*x).max(if len >= 1000 { steps / len as u64 } else { 0 })).or_insert(0);
    let out = if let Made::Json(t) = &m { t.len() as i64 } else { 0 };
    ensure!(peak <= PEAK_BASE + PEAK_PER_BYTE * len + 8 * out, "{name} holds {peak} bytes for an input of {len} bytes: {:?}", text.chars().take(300).collect::<String>());
    Ok(m)
}

pub fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let indent = any_indent(src);
    let strict = src.chance(1, 2);
    let kind = src.n(12);
    if kind == 0 {
        return too_long(src, ctx, indent.max(1), strict);
    }
    if kind == 1 && src.chance(1, 4) {
        return corrupt_json(src, ctx);
    }
    if kind == 2 && src.chance(1, 200) {
        return too_deep(src, ctx, strict);
    }
    if kind == 3 && src.chance(1, 25) {
        return proportion(src, ctx, indent.max(1));
    }
    let mut lines = match src.n(8) {
        0 if src.chance(1, 6) => long_path(src, indent),
        1 if src.chance(1, 6) => long_run(src, indent),
        0 => deep(src, indent),
        1 => (0..src.range(1, 9)).map(|_| random_line(src, indent)).collect(),
        _ => {
            let v = if src.chance(1, 100) { gen_big(src, &GenCfg::default()) } else { some_value(src, ctx) };
            written(src, &v, indent).0.lines
        }
    };
    for _ in 0..src.n(3) {
        let f = damage(src, &mut lines, indent);
        ctx.fault(f, 1);
    }
    let mut b = lines.join("\n").into_bytes();
    let n = if src.chance(1, 8) { 0 } else { src.range(1, 5) };
    if n > 0 {
        let v = gen_value(src, &GenCfg { nodes: 8, ..GenCfg::default() });
        let other = written(src, &v, indent).0.text().into_bytes();
        for _ in 0..n {
            let f = corrupt(src, &mut b, &other);
            ctx.fault(f, 1);
        }
    }
    let text = String::from_utf8_lossy(&b).into_owned();
    ctx.note(|| format!("indent {indent} strict {strict}: {text:?}"));
    if src.chance(1, 25) && indent <= 16 && b.len() < 400_000 {
        let x = src.chance(1, 3);
        let o = cli_decode(src, ctx, b.clone(), indent, strict, x);
        ensure!(o.status == 0 || o.status == 1, "the program ends with {} on {}", o.describe(), show(&b));
        ensure!(!o.hung && !o.livelock, "the program does not end on {}", show(&b));
        if o.status == 0 {
            ensure!(std::str::from_utf8(&b).is_ok(), "the program accepts input that is not UTF-8: {}", show(&b));
            ensure!(parse_json_exact(String::from_utf8_lossy(&o.stdout).trim_end_matches('\n')).is_some(), "the program prints {} for {}, which is not JSON", show(&o.stdout), show(&b));
        } else {
            ensure!(o.stdout.is_empty() && !o.stderr.is_empty(), "the program fails on {} with output {} and message {}", show(&b), show(&o.stdout), show(&o.stderr));
        }
    }
    let first = src.n(FALLIBLE);
    let mut accepted = false;
    for j in 0..2 {
        let w = (first + j * 3) % FALLIBLE;
        let m = survive(ctx, w, &text, indent, strict)?;
        ctx.see(&m.digest().to_le_bytes());
        match &m {
            Made::Events(e) => ensure!(e.is_empty() || value_of(e).is_some() || w == 3 || !strict, "{} gives events that describe no value: {e:?}", DECODERS[w]),
            Made::Json(t) => ensure!(parse_json_exact(t).is_some(), "{} gives {t:?}, which is not JSON, for {text:?}", DECODERS[w]),
            _ => {}
        }
        accepted |= !matches!(m, Made::Refused(_) | Made::Broken(..));
    }
    ctx.stats.add(if accepted { "corrupted documents decoded" } else { "corrupted documents refused" }, 1);
    ctx.mark(hash(text.as_bytes()));
    Ok(ctx.faults_in_eval > 0)
}

/// One part of a document that grows with `n`. `seed` fixes everything else about it.
fn part(seed: u64, n: usize, indent: usize, bounded_keys: bool) -> Vec<String> {
    let mut x = seed;
    let mut r = |k: usize| {
        x = crate::tape::mix(x, 0x9e37_79b9);
        (x >> 8) as usize % k
    };
    let pad = " ".repeat(indent);
    let name = format!("p{}", r(10_000));
    let value = ["1", "-2.5", "true", "null", "some text", "\"quoted \\\"text\\\"\"", "\"a: b\"", "é😀"][r(8)];
    let gap = [0, 0, 0, 1, 2][r(5)];
    let mut v = vec![];
    let mut blanks = |v: &mut Vec<String>| (0..gap).for_each(|_| v.push(String::new()));
    match r(14) {
        0 if !bounded_keys => {
            for i in 0..n {
                v.push(format!("{name}{i}: {value}"));
                blanks(&mut v);
            }
        }
        1 if !bounded_keys => {
            for i in 0..n {
                v.push(format!("{name}{i}[1]:"));
                v.push(format!("{pad}- {value}"));
                blanks(&mut v);
            }
        }
        2 if !bounded_keys => {
            for i in 0..n {
                v.extend([format!("{name}{i}[2]{{a,b}}:"), format!("{pad}1,{value}"), format!("{pad}{value},2")]);
                blanks(&mut v);
            }
        }
        3 => {
            v.push(format!("{name}[{n}]:"));
            for _ in 0..n {
                v.extend([format!("{pad}- a: {value}"), format!("{pad}{pad}b[1]:"), format!("{pad}{pad}{pad}- {value}")]);
            }
            (0..n * gap).for_each(|_| v.push(String::new()));
        }
        4 => {
            v.push(format!("{name}[{n}]:"));
            (0..n).for_each(|_| v.push(format!("{pad}- {value}")));
            (0..n * gap).for_each(|_| v.push(String::new()));
        }
        5 => {
            v.push(format!("{name}[{n}]:"));
            (0..n).for_each(|_| v.extend([format!("{pad}- [2]:"), format!("{pad}{pad}- [1]: {value}"), format!("{pad}{pad}- x")]));
            (0..n * gap).for_each(|_| v.push(String::new()));
        }
        6 => {
            v.push(format!("{name}[{n}|]{{a|b|c}}:"));
            (0..n).for_each(|_| v.push(format!("{pad}{value}|1|\"\"")));
            (0..n * gap).for_each(|_| v.push(String::new()));
        }
        7 => v.push(format!("{name}[{n}]: {}", vec![value; n].join(","))),
        8 => {
            let c = ["\\n", "\\\\", "\\\"", "x", "é", "[", "]", "{", ":", ",", "-"][r(11)];
            v.push(format!("{name}: \"{}\"", c.repeat(8 * n)));
        }
        9 => v.push(format!("\"{name}{}\": {value}", ["\\n", "x", "é", ".", "[1]", ": "][r(6)].repeat(8 * n))),
        10 if !bounded_keys => {
            v.push(format!("{name}[1]{{{}}}:", (0..n).map(|i| format!("c{i}")).collect::<Vec<_>>().join(",")));
            v.push(format!("{pad}{}", vec![value; n].join(",")));
        }
        11 => {
            // the same fields again and again
            for i in 0..n {
                v.extend([format!("{name}:"), format!("{pad}k{}: {value}", i % 5)]);
            }
        }
        12 => {
            // fields that meet a large one
            v.extend([format!("{name}:"), format!("{pad}x[{n}]: {}", vec!["1"; n].join(","))]);
            for i in 0..n {
                v.push(format!("{name}.y.k{}: {value}", i % 5));
                v.extend([format!("{name}:"), format!("{pad}z:"), format!("{pad}{pad}k{}: {value}", i % 5)]);
            }
        }
        _ => v.push(format!("{name}: {}", ["x", "é", "1", "\t", "x y ", "- ", "["][r(7)].repeat(8 * n))),
    }
    v
}

/// Work and memory of four times the document, against those of the document.
fn proportion(src: &mut Src, ctx: &mut Ctx, indent: usize) -> Res {
    let w = src.n(FALLIBLE);
    let expand = w == 7 || w == 8;
    // repeated fields with path expansion are only accepted leniently
    let strict = !expand && src.chance(2, 3);
    let n = src.range(120, 320);
    let parts: Vec<u64> = (0..src.range(1, 3)).map(|_| src.n(1 << 30) as u64).collect();
    let text = |n: usize| parts.iter().flat_map(|&s| part(s, n, indent, expand)).collect::<Vec<_>>().join("\n");
    let mut used = vec![];
    for n in [n, 4 * n] {
        let t = text(n);
        let live = alloc::live();
        let m = survive(ctx, w, &t, indent, strict)?;
        let steps = { STEPS_SEEN.with(std::cell::Cell::get) };
        ensure!(!matches!(m, Made::Refused(_) | Made::Broken(..)) || expand, "{} (strict {strict}, indent {indent}) gives {} for a document of {} bytes: {:?}", DECODERS[w], m.describe(), t.len(), t.chars().take(300).collect::<String>());
        drop(m);
        used.push((t.len() as f64, steps as f64, (alloc::peak() - live) as f64, t));
    }
    let (a, b) = (&used[0], &used[1]);
    let more = b.0 / a.0;
    ctx.note(|| format!("{} strict {strict} indent {indent}: {} bytes in {} basic blocks and {} bytes of memory, {} bytes in {} and {}: {:?}", DECODERS[w], a.0, a.1, a.2, b.0, b.1, b.2, a.3.chars().take(400).collect::<String>()));
    ctx.fault("document of four times the size", 1);
    ensure!(b.1 <= 1.8 * more * a.1 + 20_000.0, "{} executes {} basic blocks for {} bytes, but {} for the same {more:.1} times as long", DECODERS[w], a.1, a.0, b.1);
    ensure!(b.2 <= 2.6 * more * a.2 + 20_000.0, "{} holds {} bytes for {} bytes, but {} for the same {more:.1} times as long", DECODERS[w], a.2, a.0, b.2);
    ctx.see(&(b.1 as u64).to_le_bytes());
    ctx.mark(hash(b.3.as_bytes()));
    Ok(true)
}

/// Nesting that no document needs, in a thread with the stack that threads usually have.
fn too_deep(src: &mut Src, ctx: &mut Ctx, strict: bool) -> Res {
    let n = if src.chance(1, 2) { src.range(1000, 1100) } else { src.range(1100, 4500) };
    let indent = if n < 2000 { src.range(1, 3) } else { 1 };
    let (obj, list) = (src.range(0, 3), src.range(0, 3));
    let (mut lines, mut depth) = (vec![], 0);
    let mut item = src.chance(1, 2);
    if item {
        lines.push("[1]:".to_string());
        depth = 1;
    }
    while depth < n {
        let pad = " ".repeat(depth * indent);
        let bare = !item || src.n(3) == 0;
        let object = src.n(obj + list + 1) < obj;
        let dash = if item { "- " } else { "" };
        lines.push(match (bare, object) {
            (_, true) => format!("{pad}{dash}k:"),
            (true, false) => format!("{pad}{dash}k[1]:"),
            (false, false) => format!("{pad}{dash}[1]:"),
        });
        // below the field of a list item the content is two levels deeper than the dash
        depth += if item && (bare || object) { 2 } else { 1 };
        item = !object;
    }
    lines.push(format!("{}{}", " ".repeat(depth * indent), if item { "- x" } else { "x: 1" }));
    let keep = if src.chance(1, 4) { src.range(900, lines.len()) } else { lines.len() };
    lines.truncate(keep);
    let paths = src.chance(1, 4);
    if paths {
        // dotted keys of as many segments, some of them in an object in which they meet others
        lines.clear();
        depth = if src.chance(1, 2) { src.range(200, 3000) } else { src.range(3000, 40_000) };
        let long = vec!["a"; depth].join(".");
        match src.n(4) {
            0 => lines.push(format!("{long}: 1")),
            1 => lines.extend([format!("{long}.b: 1"), format!("{long}.c: 2")]),
            2 => lines.extend(["a.a.a:".to_string(), format!("{}{long}: 1", " ".repeat(indent)), format!("{long}.d: 2")]),
            _ => lines.extend(["[1]:".to_string(), format!("{}- {long}:", " ".repeat(indent)), format!("{}{long}: 1", " ".repeat(3 * indent))]),
        }
    }
    let text = lines.join("\n");
    ctx.note(|| format!("{} lines nested up to {depth} levels, indent {indent}, strict {strict}", lines.len()));
    ctx.fault("nesting beyond any use", 1);
    let w = if paths { 7 + src.n(2) } else { src.n(FALLIBLE) };
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || survive(&mut *ctx, w, &text, indent, strict).map(|m| !matches!(m, Made::Refused(_) | Made::Broken(..)))).expect("thread").join());
    match r {
        Ok(r) => {
            let taken = r.map_err(|m| m.chars().take(400).collect::<String>())?;
            ctx.stats.add(if taken { "very deep documents decoded" } else { "very deep documents refused" }, 1);
        }
        Err(_) => return Err(format!("{} panics on {} lines nested up to {depth} levels", DECODERS[w], lines.len())),
    };
    ctx.mark(hash(text.as_bytes()));
    Ok(true)
}

/// A declared length over the limit is refused whatever the mode.
fn too_long(src: &mut Src, ctx: &mut Ctx, indent: usize, strict: bool) -> Res {
    let v = some_value(src, ctx);
    let mut d = written(src, &v, indent).0;
    if d.arrs.is_empty() {
        return Ok(false);
    }
    let a = src.pick(&d.arrs).clone();
    let l = d.lines[a.line].clone();
    let m = match src.n(6) {
        0 => "100000001".to_string(),
        1 => (100_000_001 + src.n(1_000_000_000)).to_string(),
        2 => "9".repeat(src.range(9, 60)),
        3 => u64::MAX.to_string(),
        4 => format!("1{}", "0".repeat(src.range(9, 40))),
        _ => (1u64 << src.range(27, 63)).to_string(),
    };
    d.lines[a.line] = format!("{}{m}{}", &l[..a.len_at.0], &l[a.len_at.1..]);
    ctx.fault("declared length raised above the limit", 1);
    let text = d.text();
    ctx.note(|| format!("indent {indent} strict {strict}: {text:?}"));
    for _ in 0..2 {
        let w = src.n(FALLIBLE);
        let r = survive(ctx, w, &text, indent, strict)?;
        ensure!(matches!(r, Made::Refused(_) | Made::Broken(..)), "{} (strict {strict}) accepts the declared length {m} and gives {}", DECODERS[w], r.describe());
    }
    ctx.mark(hash(text.as_bytes()));
    Ok(true)
}

/// The other direction: corrupted JSON.
fn corrupt_json(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = some_value(src, ctx);
    let st = gen_json_style(src);
    let mut b = json_text(&v, &st).into_bytes();
    let other = json_text(&gen_value(src, &GenCfg { nodes: 8, ..GenCfg::default() }), &st).into_bytes();
    if src.chance(1, 10) {
        let n = src.range(1, 3000);
        b = "[".repeat(n).into_bytes();
    }
    for _ in 0..src.range(1, 4) {
        let f = corrupt(src, &mut b, &other);
        ctx.fault(f, 1);
    }
    let text = String::from_utf8_lossy(&b).into_owned();
    ctx.note(|| format!("JSON {text:?}"));
    let r = catch_unwind(AssertUnwindSafe(|| toon::json_to_toon(&text)));
    let Ok(r) = r else { return Err(format!("json_to_toon panics on {text:?}")) };
    let ok = parse_json(&text).is_some();
    ensure!(r.is_ok() == ok, "json_to_toon gives {r:?} for {text:?}, which is {}JSON", if ok { "" } else { "not " });
    let mut x = Exec { args: vec!["-e".into()], stdin: b.clone(), ..Exec::default() };
    crate::os::transient(src, &mut x);
    x.lat_max = 0;
    let o = ctx.exec(&x);
    ensure!(o.status == 0 || o.status == 1, "the program ends with {} on {}", o.describe(), show(&b));
    let ok = std::str::from_utf8(&b).is_ok() && ok;
    ensure!((o.status == 0) == ok, "the program ends with {} on {}", o.describe(), show(&b));
    ctx.mark(hash(&b));
    Ok(true)
}

// ---------------------------------------------------------------------------------------------
// C20

/// `part` begins like `whole` and then only closes what is open.
fn cut_short(part: &[Ev], whole: &[Ev]) -> Result<(), String> {
    let n = part.iter().zip(whole).take_while(|(a, b)| same_event(a, b)).count();
    ensure!(part[n..].iter().all(|e| matches!(e, Ev::EndObject | Ev::EndArray)), "event {n} is {:?} where the whole document has {:?}", part.get(n), whole.get(n));
    Ok(())
}
fn same_event(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Primitive { value: P::Number(x) }, Ev::Primitive { value: P::Number(y) }) => x.to_bits() == y.to_bits(),
        (Ev::Key { key: a, .. }, Ev::Key { key: b, .. }) => a == b,
        _ => a == b,
    }
}
/// Every array has as many members as it declares.
fn full_arrays(ev: &[Ev]) -> Result<(), String> {
    let mut open: Vec<Option<(usize, usize)>> = vec![];
    let member = |open: &mut Vec<Option<(usize, usize)>>| {
        if let Some(Some((_, n))) = open.last_mut() {
            *n += 1;
        }
    };
    for (i, e) in ev.iter().enumerate() {
        match e {
            Ev::StartArray { length } => {
                member(&mut open);
                open.push(Some((*length, 0)));
            }
            Ev::StartObject => {
                member(&mut open);
                open.push(None);
            }
            Ev::Primitive { .. } => member(&mut open),
            Ev::EndArray | Ev::EndObject => {
                if let Some(Some((want, n))) = open.pop() {
                    ensure!(want == n, "the array that ends with event {i} has {n} of its {want} members");
                }
            }
            Ev::Key { .. } => {}
        }
    }
    Ok(())
}

pub fn c20(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = some_value(src, ctx);
    let indent = if src.chance(1, 3) { src.range(1, 5) } else { 2 };
    let (d, back) = written(src, &v, indent);
    let n = d.lines.len();
    if n < 2 {
        return Ok(false);
    }
    let mut whole = vec![];
    events_of(&back, &mut whole, &|_| false);
    ctx.note(|| format!("indent {indent}, document:\n{}", d.text()));
    let cuts: Vec<usize> = if n <= 12 || src.chance(1, 10) { (1..n).collect() } else { (0..4).map(|_| src.range(1, n - 1)).collect() };
    let first = src.n(DECODERS.len());
    for (j, k) in cuts.iter().enumerate() {
        let mut text = d.lines[..*k].join("\n");
        if src.chance(1, 2) {
            text.push('\n');
        }
        ctx.fault("cut off after a line", 1);
        if src.chance(1, 150) {
            let o = cli_decode(src, ctx, text.clone().into_bytes(), indent, true, false);
            if o.status == 0 {
                let t = String::from_utf8_lossy(&o.stdout).into_owned();
                let Some(v) = parse_json_exact(t.trim_end_matches('\n')) else { return Err(format!("the program prints {t:?} for the first {k} lines")) };
                prefix_value(&v, &whole).map_err(|m| format!("the program prints {t:?} for the first {k} lines: {m}"))?;
            } else {
                ensure!(o.stdout.is_empty(), "the program prints {} and fails for the first {k} lines", show(&o.stdout));
            }
        }
        let w = PLAIN[(first + j) % PLAIN.len()];
        let m = decode_by(w, &text, indent, true);
        ctx.see(&m.digest().to_le_bytes());
        let bad = |m: String| format!("{} on the first {k} of {n} lines: {m}", DECODERS[w]);
        match &m {
            Made::Refused(_) => {
                ctx.stats.add("truncated documents refused", 1);
                continue;
            }
            Made::Broken(e, _) => {
                let i = e.iter().zip(&whole).take_while(|(a, b)| same_event(a, b)).count();
                ensure!(i == e.len(), "{}", bad(format!("event {i} is {:?} where the whole document has {:?}", e.get(i), whole.get(i))));
                ctx.stats.add("truncated documents refused", 1);
                continue;
            }
            Made::Events(e) => {
                ensure!(value_of(e).is_some(), "{}", bad(format!("the events describe no value: {e:?}")));
                cut_short(e, &whole).map_err(bad)?;
                full_arrays(e).map_err(|m| format!("{} on the first {k} of {n} lines: {m}", DECODERS[w]))?;
            }
            Made::Value(v) => prefix_value(v, &whole).map_err(bad)?,
            Made::Json(t) => {
                let Some(v) = parse_json_exact(t) else { return Err(bad(format!("not JSON: {t:?}"))) };
                prefix_value(&v, &whole).map_err(bad)?;
            }
        }
        ctx.stats.add("truncated documents decoded to a prefix", 1);
    }
    ctx.mark(mix(hash(d.text().as_bytes()), n as u64));
    Ok(true)
}
/// A decoded value's events carry true lengths, so complete arrays are part of the comparison.
fn prefix_value(v: &V, whole: &[Ev]) -> Result<(), String> {
    let mut e = vec![];
    events_of(v, &mut e, &|_| false);
    cut_short(&e, whole)
}

// ---------------------------------------------------------------------------------------------
// C22

/// Give every key and most scalars of a value a mark that can be found again in any text made of it.
fn mark_all(src: &mut Src, v: V, next: &mut usize, keys: &mut Vec<(String, String)>) -> V {
    match v {
        V::Primitive(p) => {
            if src.chance(1, 8) {
                return V::Primitive(p);
            }
            *next += 1;
            let m = format!("m{next}m");
            V::Primitive(P::String(match src.n(16) {
                0 => format!("{m} x"),
                1 => format!("x,{m}"),
                2 => format!("{m}|y"),
                3 => format!("{m}\tz"),
                4 => format!("q: {m}"),
                5 => format!("- {m}"),
                6 => format!("\"{m}\""),
                7 => format!("é日{m}"),
                8 => format!(" {m} "),
                9 => format!("a\n{m}"),
                10 => format!("{m}\\"),
                11 => format!("#{m}"),
                12 => format!("//{m}"),
                _ => m,
            }))
        }
        V::Array(a) => V::Array(a.into_iter().map(|x| mark_all(src, x, next, keys)).collect()),
        V::Object(f) => V::Object(
            f.into_iter()
                .map(|(k, x)| {
                    let m = match keys.iter().find(|(o, _)| *o == k) {
                        Some((_, m)) => m.clone(),
                        None => {
                            let n = keys.len() + 1;
                            let m = match src.n(10) {
                                0 => format!("k{n}k x"),
                                1 => format!("é k{n}k"),
                                2 => format!("k{n}k,z"),
                                3 => format!("- k{n}k"),
                                4 => format!("#k{n}k"),
                                _ => format!("k{n}k"),
                            };
                            keys.push((k, m.clone()));
                            m
                        }
                    };
                    (m, mark_all(src, x, next, keys))
                })
                .collect(),
        ),
    }
}
/// The marks in a text: `m1m` of values, `k1k` of keys.
fn marks_in(t: &str, out: &mut std::collections::BTreeMap<String, usize>) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'm' || b[i] == b'k' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 1 && j < b.len() && b[j] == b[i] {
                *out.entry(t[i..=j].to_string()).or_default() += 1;
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
}
pub fn repeats_a_key(v: &V) -> bool {
    match v {
        V::Primitive(_) => false,
        V::Array(a) => a.iter().any(repeats_a_key),
        V::Object(f) if f.len() > 32 => {
            let mut seen = std::collections::HashSet::new();
            f.iter().any(|(k, x)| !seen.insert(k.as_str()) || repeats_a_key(x))
        }
        V::Object(f) => f.iter().enumerate().any(|(i, (k, x))| f[..i].iter().any(|(l, _)| l == k) || repeats_a_key(x)),
    }
}
/// A block of lines lost, moved or shifted.
fn block_fault(src: &mut Src, lines: &mut Vec<String>, indent: usize) -> &'static str {
    let n = lines.len();
    if n < 2 {
        return "nothing";
    }
    let i = src.n(n);
    let depth = |l: &str| l.len() - l.trim_start_matches(' ').len();
    // the lines below line i, or any few
    let mut e = i + 1;
    if src.chance(2, 3) {
        let d = depth(&lines[i]);
        while e < n && depth(&lines[e]) > d {
            e += 1;
        }
    } else {
        e = (i + src.range(1, 4)).min(n);
    }
    match src.n(7) {
        0 => {
            lines.drain(i..e);
            "block lost"
        }
        1 => {
            let b: Vec<String> = lines.drain(i..e).collect();
            let at = src.n(lines.len() + 1);
            lines.splice(at..at, b);
            "block moved"
        }
        2 => {
            let b = lines[i..e].to_vec();
            let at = src.n(n + 1);
            lines.splice(at..at, b);
            "block repeated elsewhere"
        }
        3 | 4 => {
            let pad = " ".repeat(indent * src.range(1, 2));
            for l in &mut lines[i..e] {
                *l = format!("{pad}{l}");
            }
            "block indented"
        }
        5 => {
            let k = indent * src.range(1, 2);
            for l in &mut lines[i..e] {
                let k = k.min(depth(l));
                l.drain(..k);
            }
            "block outdented"
        }
        _ => {
            // the head of a block is lost, what was below it is not
            lines.remove(i);
            "line lost"
        }
    }
}

/// Text that means something elsewhere: comment signs, separators, control characters.
fn stray_text(src: &mut Src, lines: &mut Vec<String>) -> &'static str {
    if lines.is_empty() {
        return "nothing";
    }
    let i = src.n(lines.len());
    match src.n(4) {
        0 | 1 => {
            let sign = *src.pick(&["# ", "#", "// ", "; ", "-- ", "> ", "! ", "%", "/* ", "\u{feff}", "'", "| ", "* ", "..."]);
            let at = lines[i].len() - lines[i].trim_start_matches(' ').len();
            lines[i].insert_str(at, sign);
            "comment sign"
        }
        2 => {
            let at = src.n(lines.len() + 1);
            let l = *src.pick(&["---", "...", "===", "\u{c}", "\u{1a}", "\0", "\0\0\0\0", "EOF", "__END__", "```", "%%", "- ", "-", "<<<<<<<", "=======", "#", ".", "}", "]", "null"]);
            lines.insert(at, l.to_string());
            "separator"
        }
        _ => {
            let at: Vec<usize> = lines[i].char_indices().map(|(k, _)| k).chain([lines[i].len()]).collect();
            let at = at[src.n(at.len())];
            let c = *src.pick(&['\0', '\u{1a}', '\u{c}', '\u{85}', '\u{2028}', '\u{b}', '\u{4}', '\u{feff}', '\r', '\u{1b}', '#', ';', '\u{7f}']);
            lines[i].insert(at, c);
            "stray character"
        }
    }
}
/// What strict decoding accepts, it takes in whole.
pub fn c22(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = some_value(src, ctx);
    let v = mark_all(src, v, &mut 0, &mut vec![]);
    let indent = if src.chance(1, 3) { src.range(1, 5) } else { 2 };
    let mut lines = written(src, &v, indent).0.lines;
    for _ in 0..*src.pick(&[1, 1, 1, 2, 2, 3]) {
        let f = match src.n(8) {
            0 => stray_text(src, &mut lines),
            1 | 2 => damage(src, &mut lines, indent),
            _ => block_fault(src, &mut lines, indent),
        };
        ctx.fault(f, 1);
    }
    if src.chance(1, 12) {
        // another document, or part of it, follows
        let w = gen_value(src, &GenCfg { nodes: 6, ..GenCfg::default() });
        let w = mark_all(src, w, &mut 1000, &mut vec![]);
        let mut more = written(src, &w, indent).0.lines;
        if src.chance(1, 3) {
            more.insert(0, (*src.pick(&["---", "...", "\u{c}", "\u{1a}", "\0", "==="])).to_string());
        }
        let k = src.n(more.len());
        more.drain(..k);
        lines.extend(more);
        ctx.fault("another document appended", 1);
    }
    let text = lines.join("\n");
    ctx.note(|| format!("indent {indent}:\n{text}"));
    let mut want = std::collections::BTreeMap::new();
    // of a header the reader ignores what does not belong to it: columns before values, text before the colon
    let loose = |l: &str| l.contains('{') || l.match_indices(']').any(|(i, _)| !l[i + 1..].starts_with(':'));
    for l in lines.iter().filter(|l| !loose(l)) {
        marks_in(l, &mut want);
    }
    let first = src.n(DECODERS.len());
    let plain = decode_by(2, &text, indent, true);
    let unique = match &plain {
        Made::Events(e) => value_of(e).is_some_and(|v| !repeats_a_key(&v)),
        _ => false,
    };
    let mut taken = false;
    let mut there = std::collections::BTreeMap::new();
    lines.iter().for_each(|l| marks_in(l, &mut there));
    for j in 0..3 {
        let w = if j == 0 { 2 } else { PLAIN[(first + j) % PLAIN.len()] };
        let m = if j == 0 { None } else { Some(decode_by(w, &text, indent, true)) };
        let m = m.as_ref().unwrap_or(&plain);
        ctx.see(&m.digest().to_le_bytes());
        let mut got = std::collections::BTreeMap::new();
        match m {
            Made::Refused(_) | Made::Broken(..) => continue,
            Made::Events(e) => {
                for x in e {
                    match x {
                        Ev::Key { key, .. } => marks_in(key, &mut got),
                        Ev::Primitive { value: P::String(x) } => marks_in(x, &mut got),
                        _ => {}
                    }
                }
            }
            // of fields with the same name the last one counts
            Made::Value(_) | Made::Json(_) if !unique => continue,
            Made::Value(v) => marks_of(v, &mut got),
            Made::Json(t) => marks_in(t, &mut got),
        }
        taken = true;
        for (k, n) in &want {
            let have = got.get(k).copied().unwrap_or(0);
            ensure!(have >= *n, "{} accepts the document but what it gives contains {k} {have} times, the document {n} times: {}", DECODERS[w], m.describe());
        }
        for (k, n) in got.iter().filter(|(k, _)| k.starts_with('m')) {
            if there.get(k).is_some_and(|have| have >= n) {
                continue;
            }
            let have = lines.iter().map(|l| l.matches(k.as_str()).count()).sum::<usize>();
            ensure!(have >= *n, "{} gives {k} {n} times, the document contains it {have} times: {}", DECODERS[w], m.describe());
        }
    }
    if src.chance(1, 40) && unique {
        let o = cli_decode(src, ctx, text.clone().into_bytes(), indent, true, false);
        if o.status == 0 {
            let mut got = std::collections::BTreeMap::new();
            marks_in(&String::from_utf8_lossy(&o.stdout), &mut got);
            for (k, n) in &want {
                let have = got.get(k).copied().unwrap_or(0);
                ensure!(have >= *n, "the program accepts the document but prints {k} {have} times, the document contains it {n} times: {}", show(&o.stdout));
            }
        }
    }
    ctx.stats.add(if taken { "damaged documents accepted" } else { "damaged documents refused" }, 1);
    ctx.mark(hash(text.as_bytes()));
    Ok(taken)
}
fn marks_of(v: &V, got: &mut std::collections::BTreeMap<String, usize>) {
    match v {
        V::Primitive(P::String(t)) => marks_in(t, got),
        V::Primitive(_) => {}
        V::Array(a) => a.iter().for_each(|x| marks_of(x, got)),
        V::Object(f) => {
            for (k, x) in f {
                marks_in(k, got);
                marks_of(x, got);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C21

/// Lines with faults in them, accepted or not: what the caches, copies and channels between two programs make of a document.
fn faulty_text(src: &mut Src, ctx: &mut Ctx, indent: usize) -> String {
    let mut lines = match src.n(10) {
        0 => (0..src.range(1, 9)).map(|_| random_line(src, indent)).collect(),
        1 => {
            // every value on one line
            let v = V::Primitive(gen_prim(src, &GenCfg::default()));
            written(src, &v, indent).0.lines
        }
        _ => {
            let v = some_value(src, ctx);
            written(src, &v, indent).0.lines
        }
    };
    for _ in 0..*src.pick(&[0, 1, 1, 1, 2, 3]) {
        let f = match src.n(4) {
            0 => stray_text(src, &mut lines),
            1 | 2 => damage(src, &mut lines, indent),
            _ => block_fault(src, &mut lines, indent),
        };
        ctx.fault(f, 1);
    }
    if src.chance(1, 3) && !lines.is_empty() {
        // blanks more or less, as editors and mails add and remove them
        for _ in 0..src.range(1, 3) {
            let i = src.n(lines.len());
            let l = &mut lines[i];
            match src.n(5) {
                0 => l.push_str(*src.pick(&[" ", "  ", "\t", "\r", "\u{a0}"])),
                1 => *l = l.trim_end().to_string(),
                2 => *l = l.replacen(": ", *src.pick(&[":", ":  ", " : "]), 1),
                3 => *l = l.replacen("- ", *src.pick(&["-  ", "-", "- - "]), 1),
                _ => {
                    let t = l.trim_start().len();
                    l.truncate(l.len() - t);
                    l.push_str(*src.pick(&["-", "- ", "-  ", "[0]:", "x:", "- x:", "- [0]:", "- [1]: ", "- x[0]:", "\"\": 1", "- \"\":", "-\t"]));
                }
            }
        }
        ctx.fault("blanks added or removed", 1);
    }
    let mut text = lines.join("\n");
    if src.chance(1, 4) {
        let mut b = text.into_bytes();
        let other = b.clone();
        for _ in 0..src.range(1, 3) {
            let f = corrupt(src, &mut b, &other);
            ctx.fault(f, 1);
        }
        text = String::from_utf8_lossy(&b).into_owned();
    }
    if src.chance(1, 6) {
        match src.n(9) {
            7 | 8 => {
                let mut b = text.into_bytes();
                super::cli::strange_bytes(src, &mut b);
                text = String::from_utf8_lossy(&b).into_owned();
            }
            0 => text.insert(0, '\u{feff}'),
            1 => text = text.replace('\n', "\r\n"),
            2 => text.push_str(*src.pick(&["\u{1a}", "\0", "\0\0\0\0", "\u{c}", "\r", "\r\n", "\n", "\n\n", "\n \n", "\n\t", "\n  "])),
            3 => text.insert_str(0, *src.pick(&["\n", "\n\n", " \n", "\r\n", "\t\n", "---\n", "# x\n", "\0", "\u{c}"])),
            4 => text = text.replace('\n', *src.pick(&["\r", "\u{85}", "\u{2028}", "\n\n", "\u{b}"])),
            5 => text = text.trim().to_string(),
            _ => text = [text.as_str(), text.as_str()].join(*src.pick(&["\n", "\n\n", "", "\u{1e}"])),
        }
        ctx.fault("line ends, marks and padding changed", 1);
    }
    text
}

pub fn substitute(v: &V, from: &str, to: &str) -> V {
    match v {
        V::Primitive(P::String(x)) if x == from => V::Primitive(P::String(to.into())),
        V::Primitive(p) => V::Primitive(p.clone()),
        V::Array(a) => V::Array(a.iter().map(|x| substitute(x, from, to)).collect()),
        V::Object(o) => V::Object(o.iter().map(|(k, x)| (k.clone(), substitute(x, from, to))).collect()),
    }
}
/// Puts the string `mark` somewhere into the value.
pub fn place_mark(src: &mut Src, v: &mut V, mark: &str) {
    let m = V::Primitive(P::String(mark.into()));
    match v {
        V::Array(a) => {
            let at = src.n(a.len() + 1);
            if at < a.len() && src.chance(1, 2) {
                return place_mark(src, &mut a[at], mark);
            }
            a.insert(at, m);
        }
        V::Object(o) => {
            let at = src.n(o.len() + 1);
            if at < o.len() && src.chance(2, 3) {
                return place_mark(src, &mut o[at].1, mark);
            }
            if o.iter().any(|(k, _)| k == "mark") {
                *v = m;
            } else {
                o.insert(at, ("mark".into(), m));
            }
        }
        V::Primitive(_) => *v = m,
    }
}
/// Pairs of strings that look alike to whoever compares too little of them.
pub fn twin_marks(src: &mut Src) -> (String, String) {
    let mut a: Vec<char> = (0..4 + src.n(12)).map(|i| if i == 0 { 'm' } else { (b'a' + src.n(26) as u8) as char }).collect();
    let x: String = a.iter().collect();
    let at = src.range(1, a.len() - 1);
    let to = (b'a' + src.n(26) as u8) as char;
    if src.chance(1, 3) && a.len() > 3 {
        a[1..].reverse();
    }
    if a.iter().collect::<String>() == x {
        a[at] = if a[at] == to { 'A' } else { to };
    }
    let y: String = a.iter().collect();
    // neither may be a keyword
    (x + "_", y + "_")
}

/// Two documents that differ in a few letters, one after the other through the same entry points.
fn twins(src: &mut Src, ctx: &mut Ctx) -> Res {
    let nodes = *src.pick(&[3, 8, 24]);
    let mut v = gen_value(src, &GenCfg { nodes, ..GenCfg::default() });
    let (a, b) = twin_marks(src);
    place_mark(src, &mut v, &a);
    if repeats_a_key(&v) {
        return Ok(false);
    }
    let indent = src.range(1, 8);
    let (doc, back) = written(src, &v, indent);
    let ta = doc.text();
    if ta.matches(&a).count() != 1 || ta.contains(&b) {
        return Ok(false);
    }
    let tb = ta.replace(&a, &b);
    let other = substitute(&back, &a, &b);
    let strict = src.chance(2, 3);
    ctx.note(|| format!("indent {indent} strict {strict} the same with {a} and {b}: {ta:?}"));
    let mut turn = src.chance(1, 2);
    for _ in 0..src.range(3, 6) {
        let w = *src.pick(&PLAIN);
        for _ in 0..src.range(1, 3) {
            let (t, want) = if turn { (&ta, &back) } else { (&tb, &other) };
            turn = !turn;
            let m = decode_by(w, t, indent, strict);
            let got = match &m {
                Made::Value(x) => Some(x.clone()),
                Made::Events(e) => value_of(e),
                Made::Json(t) => parse_json_exact(t),
                _ => None,
            };
            ensure!(got.as_ref().is_some_and(|x| alike(x, want)), "{} gives {} for {t:?}, asked before for the same with {} in place of {}", DECODERS[w], m.describe(), if turn { &a } else { &b }, if turn { &b } else { &a });
        }
    }
    ctx.stats.add("pairs of documents that differ in a few letters", 1);
    ctx.see(ta.as_bytes());
    ctx.mark(hash(ta.as_bytes()));
    Ok(true)
}

/// All entry points, given the same text.
pub fn c23(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 8) {
        return twins(src, ctx);
    }
    let indent = if src.chance(1, 3) { src.range(1, 8) } else { 2 };
    let strict = src.chance(2, 3);
    let text = faulty_text(src, ctx, indent);
    ctx.note(|| format!("indent {indent} strict {strict}: {text:?}"));
    let no = |m: &Made| matches!(m, Made::Refused(_) | Made::Broken(..));
    let plain = decode_by(2, &text, indent, strict);
    ctx.see(&plain.digest().to_le_bytes());
    let value = match &plain {
        Made::Events(e) => Some(value_of(e).ok_or_else(|| format!("{} gives events that do not describe one value: {e:?}", DECODERS[2]))?),
        _ => None,
    };
    let printed = value.as_ref().map(|v| dec::print_json(v, indent, false));
    for w in PLAIN {
        if w == 2 {
            continue;
        }
        let m = decode_by(w, &text, indent, strict);
        ensure!(no(&m) == no(&plain), "{} gives {}, but {} gives {}", DECODERS[2], plain.describe(), DECODERS[w], m.describe());
        let (Some(v), Some(p)) = (&value, &printed) else { continue };
        let same = match &m {
            Made::Value(x) => alike(x, v),
            Made::Events(e) => match &plain {
                Made::Events(f) => super::stream::same_events(e, f),
                _ => false,
            },
            Made::Json(t) if w == 9 => repeats_a_key(v) || parse_json_exact(t).is_some_and(|x| alike(&x, v)),
            Made::Json(t) => t == p,
            _ => true,
        };
        ensure!(same, "{} gives {}, but {} gives {}", DECODERS[2], plain.describe(), DECODERS[w], m.describe());
    }
    let b = decode_by(8, &text, indent, strict);
    ensure!(!no(&plain) || no(&b), "{} gives {}, but {} gives {}", DECODERS[2], plain.describe(), DECODERS[8], b.describe());
    for w in EXPANDING {
        if w == 8 {
            continue;
        }
        let a = decode_by(w, &text, indent, strict);
        ensure!(no(&a) == no(&b), "{} gives {}, but {} gives {}", DECODERS[w], a.describe(), DECODERS[8], b.describe());
        if let (Made::Value(x), Made::Json(t)) = (&a, &b) {
            let p = dec::print_json(x, indent, true);
            ensure!(*t == p, "{} gives {}, but {} gives {}", DECODERS[w], a.describe(), DECODERS[8], b.describe());
        }
    }
    if src.chance(1, 40) && text.len() < 60_000 {
        let x = src.chance(1, 3);
        let o = cli_decode(src, ctx, text.clone().into_bytes(), indent, strict, x);
        let m = if x { &b } else { &plain };
        ensure!((o.status == 0) == !no(m), "the program ends with {}, but {} gives {}", o.describe(), DECODERS[if x { 8 } else { 2 }], m.describe());
        let want = match &b {
            Made::Json(t) if x => Some(t),
            _ => printed.as_ref().filter(|_| !x),
        };
        if let Some(t) = want {
            ensure!(o.stdout == format!("{t}\n").into_bytes(), "the program prints {}, but {} gives {}", show(&o.stdout), DECODERS[if x { 8 } else { 2 }], m.describe());
        }
    }
    ctx.stats.add(if no(&plain) { "faulty documents refused by all" } else { "faulty documents decoded alike by all" }, 1);
    ctx.mark(hash(text.as_bytes()));
    Ok(text.contains('\n'))
}

fn some_event(src: &mut Src) -> Ev {
    match src.n(6) {
        0 => Ev::StartObject,
        1 => Ev::EndObject,
        2 => Ev::StartArray { length: src.n(3) },
        3 => Ev::EndArray,
        4 => Ev::Key { key: (*src.pick(&["a", "b", "", "a\"b", "\u{7f}"])).into(), was_quoted: src.chance(1, 2) },
        _ => Ev::Primitive { value: gen_prim(src, &GenCfg::default()) },
    }
}

fn quoted_ok(n: &NodeValue, ev: &[Ev], at: &mut usize) -> Result<(), String> {
    let e = &ev[*at];
    *at += 1;
    match (n, e) {
        (NodeValue::Primitive(_), _) => Ok(()),
        (NodeValue::Array(a), _) => {
            for x in a {
                quoted_ok(x, ev, at)?;
            }
            *at += 1;
            Ok(())
        }
        (NodeValue::Object(o), _) => {
            for (k, x) in &o.entries {
                let Ev::Key { was_quoted, .. } = &ev[*at] else { return Err("no key".into()) };
                *at += 1;
                if o.entries.iter().filter(|(l, _)| l == k).count() == 1 {
                    ensure!(o.quoted_keys.contains(k) == *was_quoted, "key {k:?} is{} recorded as quoted", if *was_quoted { " not" } else { "" });
                }
                quoted_ok(x, ev, at)?;
            }
            *at += 1;
            Ok(())
        }
    }
}

pub fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut ev = vec![];
    if src.chance(1, 8) {
        for _ in 0..src.n(9) {
            ev.push(some_event(src));
        }
    } else {
        let nodes = *src.pick(&[3, 8, 24]);
        let mut v = gen_value(src, &GenCfg { nodes, ..GenCfg::default() });
        if src.chance(1, 300) {
            for _ in 0..src.range(60, 700) {
                v = if src.chance(1, 2) { V::Array(vec![v]) } else { V::Object(vec![("k".into(), v)]) };
            }
        }
        let q = src.word();
        events_of(&v, &mut ev, &|k| mix(q, hash(k.as_bytes())) % 3 == 0);
        if src.chance(1, 6) {
            for e in &mut ev {
                if let Ev::Primitive { value: P::Number(x) } = e {
                    *x = *src.pick(&[f64::NAN, f64::INFINITY, -0.0, 3.0, f64::NEG_INFINITY]);
                }
            }
        }
        let n = *src.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
        for _ in 0..n {
            let l = ev.len();
            if l == 0 {
                ev.push(some_event(src));
                continue;
            }
            let (i, j) = (src.n(l), src.n(l));
            let what = match src.n(12) {
                10 | 11 => {
                    // a length that is not true is no reason to refuse: the members say what there is
                    for e in &mut ev[i..] {
                        if let Ev::StartArray { length } = e {
                            *length = *src.pick(&[0, 1, 2, 3, 7, 1000, 1 << 33, usize::MAX / 2, usize::MAX]);
                            break;
                        }
                    }
                    "claimed array length changed"
                }
                0 | 1 => {
                    ev.remove(i);
                    "event lost"
                }
                2 => {
                    let e = ev[i].clone();
                    ev.insert(i, e);
                    "event repeated"
                }
                3 => {
                    ev.swap(i, j);
                    "events exchanged"
                }
                4 => {
                    if i + 1 < l {
                        ev.swap(i, i + 1);
                    }
                    "neighbours exchanged"
                }
                5 => {
                    ev.truncate(i);
                    "events cut off"
                }
                6 => {
                    let (i, j) = (i.min(j), i.max(j));
                    ev.drain(i..=j);
                    "events lost"
                }
                7 => {
                    let e = some_event(src);
                    ev.insert(i, e);
                    "event inserted"
                }
                8 => {
                    ev[i] = some_event(src);
                    "event changed"
                }
                _ => {
                    let (a, b) = (i.min(j), i.max(j));
                    let c = ev[a..=b].to_vec();
                    let at = src.n(l + 1);
                    ev.splice(at..at, c);
                    "events repeated elsewhere"
                }
            };
            ctx.fault(what, 1);
        }
    }
    let want = value_of(&ev);
    ctx.note(|| format!("{ev:?}"));
    let ind = *src.pick(&[0, 1, 2, 4]);
    ctx.mark(hash(format!("{:?}", ev.iter().map(std::mem::discriminant).collect::<Vec<_>>()).as_bytes()));
    let a = catch_unwind(AssertUnwindSafe(|| json_stream_from_events(ev.clone(), ind)));
    let b = catch_unwind(AssertUnwindSafe(|| build_node_from_events(ev.clone())));
    let (Ok(a), Ok(b)) = (a, b) else { return Err(format!("a consumer panics on {ev:?}")) };
    match (&want, &a) {
        (Some(v), Ok(t)) => {
            let w = dec::print_json(v, ind, false);
            ensure!(t.concat() == w, "the JSON writer gives {:?} instead of {w:?} for {ev:?}", t.concat());
        }
        (None, Err(_)) => {}
        (Some(_), Err(e)) => return Err(format!("the JSON writer refuses {ev:?}, which describes a value: {e}")),
        (None, Ok(t)) => return Err(format!("the JSON writer gives {:?} for {ev:?}, which describes no value", t.concat())),
    }
    match (&want, b) {
        (Some(v), Ok(n)) => {
            quoted_ok(&n, &ev, &mut 0).map_err(|m| format!("the tree builder on {ev:?}: {m}"))?;
            let g = node_to_json(n);
            ensure!(alike(&g, v), "the tree builder gives {g:?} instead of {v:?} for {ev:?}");
        }
        (None, Err(_)) => {}
        (Some(_), Err(e)) => return Err(format!("the tree builder refuses {ev:?}, which describes a value: {e}")),
        (None, Ok(n)) => return Err(format!("the tree builder gives {n:?} for {ev:?}, which describes no value")),
    }
    ctx.stats.add(if want.is_some() { "sequences that describe a value" } else { "sequences that describe none" }, 1);
    ctx.see(&[u8::from(want.is_some())]);
    Ok(ev.len() > 1)
}
fn alike(a: &V, b: &V) -> bool {
    same(a, b)
}
