//! Values, their generators, and JSON text for them.

use crate::tape::Src;
pub use toon::{JsonStreamEvent as Ev, JsonValue as V, StringOrNumberOrBoolOrNull as P};

pub fn s(x: &str) -> V {
    V::Primitive(P::String(x.to_string()))
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    /// soft limit on the number of nodes
    pub nodes: usize,
    pub depth: usize,
    /// keys never contain a dot
    pub no_dots: bool,
    /// only identifier keys
    pub ident_keys: bool,
    /// strings may be long (for crossing buffer sizes)
    pub long: bool,
}
impl Default for GenCfg {
    fn default() -> Self {
        Self { nodes: 24, depth: 5, no_dots: false, ident_keys: false, long: false }
    }
}

const STRS: &[&str] = &[
    "x", "", "hello world", "true", "null", "false", "0", "-1", "05", "1e5", "1.5", "-", "- a", "a,b", "a|b", "a\tb", "x: y", "[2]: y", "{a}", "\"q\"",
    "back\\slash", "line\nbreak", "cr\rx", " lead", "trail ", "é", "日本語", "😀 ok", "nb\u{a0}sp", "\u{2028}", "\u{feff}bom", "\u{0}", "\u{1}", "\u{7f}\u{85}",
    "a\u{300}", "#c", "key[3]", "a[2]{x}: y", "x]", "a:b", ":", ",", "|", "\\", "\"", "\\\"", "\\n", "0x1f", "1_000", "+1", ".5", "5.", "NaN", "Infinity", "--", "-x",
    "[", "]", "{", "}", "\u{a0}", "\u{b}", "\u{c}v", "\u{8}", "ends\\", "- ", "1e999", "-0", "00", "-05", "1E5", "1e+5", "True", "x\u{85}", "\u{200b}", "a\u{3000}b", "\u{3000}",
];
const KEYS: &[&str] = &["a", "b", "id", "name", "x", "items", "value", "_k", "key9", "user", "data", "meta", "B", "zz_top"];
const ODD_KEYS: &[&str] = &[
    "", " ", "a b", "a:b", "[3]", "x[2]", "a{b}", "{", "}", "]", "\"q\"", "\\", "é", "日本", "😀", "-", "- a", "0", "1a", "a-b", "a,b", "a|b", "a\tb", "n\nl", "true", "null",
    "\u{0}", "a]b", "x}y", "}:", "a\\", "\u{a0}", "k\r", "[2]:", "#", "[1]{a}:", "a\"", "\"", "cr\u{85}",
];
const DOT_KEYS: &[&str] = &["a.b", "a.b.c", "user.name", "x.y", ".", "a.", ".a", "a..b", "data.meta.items", "b.id"];

pub fn gen_string(src: &mut Src, cfg: &GenCfg) -> String {
    match src.n(10) {
        0..=5 => (*src.pick(STRS)).to_string(),
        6 | 7 => {
            let n = src.range(1, 8);
            const AL: &[char] = &[
                'a', 'b', '1', ' ', ',', ':', '"', '\\', '-', '.', '|', '\t', '[', ']', '{', '}', '\n', 'é', '日', '😀', '\u{a0}', '0', 'e', '\r', '\u{1f}', '\u{2029}',
            ];
            (0..n).map(|_| *src.pick(AL)).collect()
        }
        8 => match src.n(4) {
            // something like a number, or like a literal
            0 => {
                let n = src.range(1, 7);
                (0..n).map(|_| *src.pick(&['0', '1', '7', '.', '-', '+', 'e', 'E', '0', '_', 'x', '²', '١', '１', ' '])).collect()
            }
            1 => {
                let mut t: Vec<char> = (*src.pick(&["true", "false", "null", "-12.5", "1e5", "0"])).chars().collect();
                let at = src.n(t.len() + 1);
                match src.n(3) {
                    0 => t.insert(at, any_char(src)),
                    1 => t.truncate(at),
                    _ => t.iter_mut().for_each(|c| *c = c.to_ascii_uppercase()),
                }
                t.into_iter().collect()
            }
            2 => {
                let n = src.range(1, 4);
                (0..n).map(|_| any_char(src)).collect()
            }
            _ => format!("w{}", src.n(1000)),
        },
        _ => {
            if cfg.long && src.chance(1, 2) {
                let unit = *src.pick(&["abcdefgh ", "é", "日本", "x,y|z ", "\\\"", "😀", "0123456789", "\n"]);
                let n = src.range(1, 1400);
                unit.repeat(n)
            } else {
                format!("item number {}", src.n(100))
            }
        }
    }
}

/// Any character: a byte's worth, the first two planes' worth, or any plane's.
pub fn any_char(src: &mut Src) -> char {
    let n = match src.n(4) {
        0 => src.n(0x80),
        1 => src.n(0x250),
        2 => src.n(0x1_0000),
        _ => src.n(0x11_0000),
    };
    char::from_u32(n as u32).unwrap_or('\u{fffd}')
}

pub fn gen_key(src: &mut Src, cfg: &GenCfg) -> String {
    if cfg.ident_keys {
        return if src.chance(1, 4) { format!("k{}", src.n(40)) } else { (*src.pick(KEYS)).to_string() };
    }
    let k = match src.n(10) {
        0..=5 => (*src.pick(KEYS)).to_string(),
        6 => format!("k{}", src.n(40)),
        7 => (*src.pick(DOT_KEYS)).to_string(),
        _ => {
            if src.chance(1, 6) {
                gen_string(src, cfg)
            } else if src.chance(1, 3) {
                // a character that a name may or may not have, in a name or a path
                let c = if src.chance(1, 2) { *src.pick(&['é', '²', '١', 'ª', '-', '$', '@', '\'', '+', '~', '1', '_', '\u{301}', '/', '‿']) } else { any_char(src) };
                match src.n(6) {
                    0 => format!("a{c}"),
                    1 => format!("{c}a"),
                    2 => format!("a{c}b"),
                    3 => format!("user.n{c}"),
                    4 => format!("x{c}.y"),
                    _ => format!("a.{c}"),
                }
            } else {
                (*src.pick(ODD_KEYS)).to_string()
            }
        }
    };
    if cfg.no_dots { k.replace('.', "_") } else { k }
}

/// A finite number, in a form JSON text can spell exactly.
pub fn gen_number(src: &mut Src) -> f64 {
    const SPECIAL: &[f64] = &[
        0.0, 1.0, -1.0, 0.5, 1e21, 1e-7, 123456789.125, -2.5e-10, 9007199254740993.0, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.1, 1e15, 1e16, 1e17, 3.0e100,
        -1e-320, 4294967296.0, 18446744073709551615.0, -9223372036854775808.0, 1.0e22, 123e45, 0.30000000000000004,
    ];
    let v = match src.n(6) {
        0..=2 => src.n(200) as f64 - 50.0,
        3 => *src.pick(SPECIAL),
        4 => (src.n(2_000_001) as f64 - 1e6) / 1000.0,
        _ => {
            let f = f64::from_bits(src.word());
            if f.is_finite() { f } else { 7.25 }
        }
    };
    if v == 0.0 { 0.0 } else { v }
}

pub fn gen_prim(src: &mut Src, cfg: &GenCfg) -> P {
    match src.n(10) {
        0..=4 => P::String(gen_string(src, cfg)),
        5..=7 => P::Number(gen_number(src)),
        8 => P::Bool(src.chance(1, 2)),
        _ => P::Null,
    }
}

pub fn gen_keys(src: &mut Src, cfg: &GenCfg, n: usize) -> Vec<String> {
    let mut keys: Vec<String> = Vec::new();
    for _ in 0..n {
        let mut k = gen_key(src, cfg);
        let mut tries = 0;
        while keys.contains(&k) {
            tries += 1;
            k = if tries < 3 { gen_key(src, cfg) } else { format!("{k}{}", keys.len()) };
        }
        keys.push(k);
    }
    keys
}

/// Documents that are wide, long or deep in one way, around the sizes at which tables and buffers grow.
pub fn gen_wide(src: &mut Src, cfg: &GenCfg) -> V {
    let near = |src: &mut Src, xs: &[usize]| *src.pick(xs) + src.n(3);
    let plain = src.chance(1, 2);
    let prim = |src: &mut Src, i: usize| if plain { P::Number(i as f64) } else { gen_prim(src, cfg) };
    let v = match src.n(7) {
        0 => {
            let cols = near(src, &[15, 31, 63, 63, 127, 255]);
            let rows = src.range(1, 4);
            V::Array((0..rows).map(|r| V::Object((0..cols).map(|i| (format!("c{i}"), V::Primitive(prim(src, i + r)))).collect())).collect())
        }
        1 => {
            let n = near(src, &[31, 63, 127, 255, 255, 511, 1023]);
            V::Array((0..n).map(|i| V::Primitive(prim(src, i))).collect())
        }
        2 => {
            let n = near(src, &[9, 15, 31, 63, 98]);
            let mut v = V::Primitive(gen_prim(src, cfg));
            let how = src.n(4);
            for i in 0..n {
                v = match (how, src.n(3)) {
                    (0, _) | (3, 0) => V::Object(vec![(format!("k{i}"), v)]),
                    (1, _) | (3, 1) => V::Array(vec![v]),
                    _ => V::Object(vec![("a".into(), V::from(i as f64)), ("b".into(), v)]),
                };
            }
            return v;
        }
        3 => {
            let n = near(src, &[31, 63, 127, 255, 511]);
            V::Object((0..n).map(|i| (format!("k{i}"), V::Primitive(prim(src, i)))).collect())
        }
        4 => {
            let n = near(src, &[31, 63, 127, 255]);
            V::Array((0..n).map(|i| if i % 3 == 0 { V::Primitive(prim(src, i)) } else { V::Object(vec![("id".into(), V::Primitive(prim(src, i))), (format!("x{}", i % 4), V::Array(vec![V::from(i as f64)]))]) }).collect())
        }
        5 => {
            let n = near(src, &[62, 63, 127, 254, 255, 1023, 4095]);
            let m = near(src, &[62, 63, 127, 254, 255, 1023, 4095]);
            let unit = *src.pick(&["a", "ab_", "é", "x y", "日"]);
            let k = unit.repeat(n / unit.len() + 1);
            let unit = *src.pick(&["a", "0", "é", "x, ", "\"", "日", "\\", "\n", "😀"]);
            V::Object(vec![(k, s(&unit.repeat(m / unit.len() + 1))), ("end".into(), V::Primitive(gen_prim(src, cfg)))])
        }
        _ => {
            let n = near(src, &[31, 63, 127, 255]);
            V::Array((0..n).map(|i| V::Array((0..i % 3).map(|j| V::Primitive(prim(src, i + j))).collect())).collect())
        }
    };
    match src.n(4) {
        0 => v,
        1 => V::Array(vec![v, V::Primitive(gen_prim(src, cfg))]),
        2 => V::Array(vec![V::Object(vec![("a".into(), V::from(1.0)), ("b".into(), v)])]),
        _ => V::Object(vec![("first".into(), v), ("after".into(), V::Primitive(gen_prim(src, cfg)))]),
    }
}

pub fn gen_value(src: &mut Src, cfg: &GenCfg) -> V {
    if cfg.nodes >= 8 && src.chance(1, 100) {
        return gen_wide(src, cfg);
    }
    let mut budget = if src.chance(1, 8) { cfg.nodes * 4 } else { cfg.nodes };
    let mut v = gen_at(src, cfg, 0, &mut budget);
    if src.chance(1, 10) {
        resemble(src, cfg, &mut v);
    }
    v
}

/// A name much like `base`: one character of it changed, lost, added or repeated, or a part exchanged.
fn variant(src: &mut Src, base: &str) -> String {
    let mut c: Vec<char> = base.chars().collect();
    let n = c.len().max(1);
    let at = match src.n(5) {
        0 => 0,
        1 => n - 1,
        _ => src.n(n),
    };
    match src.n(8) {
        _ if c.is_empty() => c.push('a'),
        0..=3 => c[at] = *src.pick(&['a', 'b', 'z', '0', '1', '_', 'A', 'B']),
        4 => {
            c.remove(at);
        }
        5 => c.insert(at, c[at]),
        6 => {
            let f = c[at];
            c[at] = if f.is_lowercase() { f.to_ascii_uppercase() } else { f.to_ascii_lowercase() };
        }
        _ => {
            let j = src.n(c.len());
            c.swap(at, j);
        }
    }
    c.into_iter().collect()
}
/// Names and strings that are easily taken for each other: of one length, with a common beginning, a common
/// end or equal to one another, as caches and shortcuts would confuse them.
pub fn resemble(src: &mut Src, cfg: &GenCfg, v: &mut V) {
    fn names(v: &V, out: &mut Vec<String>) {
        match v {
            V::Primitive(_) => {}
            V::Array(a) => a.iter().for_each(|x| names(x, out)),
            V::Object(f) => {
                for (k, x) in f {
                    if !out.contains(k) && out.len() < 60 {
                        out.push(k.clone());
                    }
                    names(x, out);
                }
            }
        }
    }
    fn rename(v: &mut V, map: &[(String, String)]) {
        match v {
            V::Primitive(_) => {}
            V::Array(a) => a.iter_mut().for_each(|x| rename(x, map)),
            V::Object(f) => {
                for (k, x) in f {
                    if let Some((_, t)) = map.iter().find(|(o, _)| o == k) {
                        k.clone_from(t);
                    }
                    rename(x, map);
                }
            }
        }
    }
    fn strings(src: &mut Src, v: &mut V, family: &[String], rate: u64) {
        match v {
            V::Primitive(p) => {
                if matches!(p, P::String(_)) && src.chance(rate, 4) {
                    *p = P::String(src.pick(family).clone());
                }
            }
            V::Array(a) => a.iter_mut().for_each(|x| strings(src, x, family, rate)),
            V::Object(f) => f.iter_mut().for_each(|(_, x)| strings(src, x, family, rate)),
        }
    }
    let len = *src.pick(&[1, 2, 3, 5, 8, 9, 12, 16, 17, 20, 31, 33, 40, 64, 65, 100, 200]);
    let base: String = match src.n(4) {
        0 => (0..len).map(|i| char::from(b'a' + (i % 26) as u8)).collect(),
        1 => "a".repeat(len),
        2 => "key_".repeat(len / 4 + 1),
        _ => (0..len).map(|_| *src.pick(&['a', 'b', 'c', 'x', '_', '1'])).collect::<String>().replacen(|c: char| c.is_ascii_digit(), "k", 1),
    };
    let mut family = vec![base.clone()];
    for _ in 0..src.range(1, 6) {
        let from = src.pick(&family).clone();
        let from = if src.chance(1, 2) { base.clone() } else { from };
        let n = variant(src, &from);
        if !family.contains(&n) {
            family.push(n);
        }
    }
    let (keys, texts) = (!src.chance(1, 4), src.chance(1, 2));
    if keys && !cfg.ident_keys {
        let mut all = vec![];
        names(v, &mut all);
        let mut map: Vec<(String, String)> = vec![];
        for f in &family {
            let free: Vec<&String> = all.iter().filter(|k| !map.iter().any(|(o, _)| o == *k)).collect();
            if free.is_empty() || all.contains(f) {
                break;
            }
            map.push(((*src.pick(&free)).clone(), f.clone()));
        }
        rename(v, &map);
    }
    if texts {
        let rate = src.range(1, 4) as u64;
        strings(src, v, &family, rate);
    }
}

fn gen_at(src: &mut Src, cfg: &GenCfg, depth: usize, budget: &mut usize) -> V {
    *budget = budget.saturating_sub(1);
    let kind = src.n(12);
    if *budget == 0 || depth >= cfg.depth || (kind < 3 && depth > 0) || kind == 11 {
        return V::Primitive(gen_prim(src, cfg));
    }
    match kind {
        3 | 4 => {
            // array of primitives
            let n = src.small(12).min(*budget);
            *budget = budget.saturating_sub(n);
            V::Array((0..n).map(|_| V::Primitive(gen_prim(src, cfg))).collect())
        }
        5 | 6 => {
            // uniform objects, sometimes spoilt a little
            let rows = src.small(10).max(1);
            let cols = src.range(1, 4);
            let keys = gen_keys(src, cfg, cols);
            *budget = budget.saturating_sub(rows * cols);
            let spoil = src.n(8);
            let mut out = Vec::new();
            for r in 0..rows {
                let mut row: Vec<(String, V)> = keys.iter().map(|k| (k.clone(), V::Primitive(gen_prim(src, cfg)))).collect();
                if r > 0 && src.chance(1, 4) {
                    let k = src.n(row.len());
                    row.rotate_left(k);
                }
                if r + 1 == rows && spoil == 1 {
                    row.pop();
                }
                if r + 1 == rows && spoil == 2 {
                    row[0].1 = gen_at(src, cfg, depth + 1, budget);
                }
                if r + 1 == rows && spoil == 3 {
                    row[0].0 = "other key".to_string();
                }
                out.push(V::Object(row));
            }
            V::Array(out)
        }
        7 => {
            let n = src.small(6);
            V::Array(
                (0..n)
                    .map(|_| {
                        let m = src.small(4);
                        V::Array((0..m).map(|_| V::Primitive(gen_prim(src, cfg))).collect())
                    })
                    .collect(),
            )
        }
        8 => {
            let n = src.small(6);
            V::Array((0..n).map(|_| gen_at(src, cfg, depth + 1, budget)).collect())
        }
        9 => {
            // a chain, for folding
            let n = src.range(1, 5);
            let mut v = gen_at(src, cfg, depth + n.min(3), budget);
            for _ in 0..n {
                let k = gen_key(src, cfg);
                v = V::Object(vec![(k, v)]);
            }
            v
        }
        _ => {
            let n = src.small(8);
            let keys = gen_keys(src, cfg, n);
            V::Object(keys.into_iter().map(|k| (k, gen_at(src, cfg, depth + 1, budget))).collect())
        }
    }
}

fn paths_at<'v>(v: &'v V, at: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'v V)>) {
    if let V::Object(f) = v {
        for (k, x) in f {
            at.push(k.clone());
            if at.len() > 1 && out.len() < 40 {
                out.push((at.clone(), x));
            }
            paths_at(x, at, out);
            at.pop();
        }
    }
}
/// Add literal dotted keys that name the same places as chains of nested objects do: the keys that
/// folding must not produce a second time, and that path expansion has to merge.
pub fn collide(src: &mut Src, cfg: &GenCfg, v: &mut V) {
    for _ in 0..src.range(1, 3) {
        let mut ps = Vec::new();
        paths_at(v, &mut Vec::new(), &mut ps);
        if ps.is_empty() {
            // something to collide with
            let V::Object(f) = v else { return };
            let ks = gen_keys(src, &GenCfg { ident_keys: true, ..*cfg }, 5);
            if f.iter().any(|(k, _)| *k == ks[0]) {
                return;
            }
            let leaf = V::Object(ks[2..].iter().map(|k| (k.clone(), V::Primitive(gen_prim(src, cfg)))).collect());
            f.push((ks[0].clone(), V::Object(vec![(ks[1].clone(), leaf)])));
            continue;
        }
        let (path, x) = src.pick(&ps).clone();
        let mut new = match (x, src.n(4)) {
            (V::Object(g), 0..=2) => {
                // an object to merge: some keys of its own, sometimes one in common
                let n = src.range(1, 5);
                let plain = src.chance(3, 4);
                let mut ks = gen_keys(src, &GenCfg { ident_keys: plain, ..*cfg }, n);
                let keep = src.chance(1, 4);
                ks.retain(|k| keep || !g.iter().any(|(l, _)| l == k));
                V::Object(ks.into_iter().map(|k| (k, V::Primitive(gen_prim(src, cfg)))).collect())
            }
            _ => V::Primitive(gen_prim(src, cfg)),
        };
        let mut path = path;
        if src.chance(1, 4) {
            // one level beside it, under a name of its own
            let last = path.len() - 1;
            path[last] = gen_key(src, &GenCfg { ident_keys: true, ..*cfg });
        }
        if src.chance(1, 6) {
            new = V::Object(vec![("k1".into(), new)]);
        }
        // at the root, or at any level above
        let from = if src.chance(1, 2) { 0 } else { src.n(path.len() - 1) };
        let mut o = &mut *v;
        for k in &path[..from] {
            let V::Object(f) = o else { return };
            let Some(i) = f.iter().position(|(l, _)| l == k) else { return };
            o = &mut f[i].1;
        }
        let V::Object(f) = o else { return };
        let name = path[from..].join(".");
        if !f.iter().any(|(l, _)| *l == name) {
            let at = src.n(f.len() + 1);
            f.insert(at, (name, new));
        }
    }
}

/// A document large enough to cross the buffers between the program and the system (8 KiB and up).
pub fn gen_big(src: &mut Src, cfg: &GenCfg) -> V {
    let rows = src.range(1, 600);
    let kind = src.n(4);
    let base = gen_prim(src, cfg);
    let seed = src.n(1000);
    let row = |i: usize| {
        V::Object(vec![
            ("id".into(), V::from(i as f64)),
            ("name".into(), s(&format!("row {} {}", i * 7 + seed, if i % 5 == 0 { "é,日" } else { "" }))),
            ("v".into(), V::Primitive(base.clone())),
        ])
    };
    match kind {
        0 => V::Object(vec![("rows".into(), V::Array((0..rows).map(row).collect()))]),
        1 => V::Object((0..rows).map(|i| (format!("key{i}"), V::from(i as f64 + seed as f64))).collect()),
        2 => V::Array((0..rows).map(|i| V::Array(vec![row(i), V::from(i as f64)])).collect()),
        _ => {
            let mut small = gen_value(src, cfg);
            if let V::Object(o) = &mut small {
                if !o.iter().any(|(k, _)| k == "rows") {
                    o.insert(0, ("rows".into(), V::Array((0..rows).map(|i| s(&"ab ".repeat(i % 40))).collect())));
                }
                small
            } else {
                V::Array(vec![small, V::Array((0..rows).map(row).collect())])
            }
        }
    }
}

/// More members than two bytes can count.
pub fn gen_long(src: &mut Src) -> V {
    let n = 65_530 + src.n(40);
    let base = src.n(9) as f64;
    let a = V::Array(match src.n(6) {
        0 => (0..n).map(|i| V::Object(vec![("k".into(), V::from(i as f64))])).collect(),
        1 => (0..n).map(|i| if i == 7 { V::Array(vec![]) } else { V::from(base) }).collect(),
        _ => (0..n).map(|i| V::from((i % 10) as f64 + base)).collect(),
    });
    if src.chance(1, 2) { V::Object(vec![("a".into(), a), ("z".into(), V::from(base))]) } else { a }
}

/// A document of about `bytes` bytes in either format.
pub fn gen_huge(src: &mut Src, bytes: usize) -> V {
    let salt = src.n(1000);
    match src.n(6) {
        // one string
        0 => V::Object(vec![("id".into(), V::from(salt as f64)), ("text".into(), s(&"all work and no play ".repeat(bytes / 21 + 1))), ("end".into(), s("yes"))]),
        // one line of numbers
        1 => V::Object(vec![("n".into(), V::Array((0..bytes / 5 + 1).map(|i| V::from((i * 7 + salt) as f64 % 10_000.0)).collect())), ("end".into(), V::from(true))]),
        // rows
        2 => V::Array((0..bytes / 24 + 1).map(|i| V::Object(vec![("id".into(), V::from(i as f64)), ("name".into(), s(&format!("row {}", i + salt))), ("ok".into(), V::from(i % 3 == 0))])).collect()),
        // list items
        3 => V::Array((0..bytes / 24 + 1).map(|i| V::Object(vec![("id".into(), V::from((i + salt) as f64)), ("t".into(), V::Array(vec![V::from(i as f64)]))])).collect()),
        // strings of several lengths, of characters of several bytes
        4 => V::Array((0..40).map(|i| s(&"é日😀 x, ".repeat(bytes / 40 / 14 + i))).collect()),
        // fields
        _ => V::Object((0..(bytes / 16).min(20_000) + 1).map(|i| (format!("key{}", i + salt), s(&format!("v{i}")))).collect()),
    }
}

pub fn size(v: &V) -> usize {
    match v {
        V::Primitive(_) => 1,
        V::Array(a) => 1 + a.iter().map(size).sum::<usize>(),
        V::Object(o) => 1 + o.iter().map(|(_, v)| size(v)).sum::<usize>(),
    }
}

/// Equality of values, doubles by bits (0.0 and -0.0 are told apart).
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Primitive(P::Number(x)), V::Primitive(P::Number(y))) => x.to_bits() == y.to_bits(),
        (V::Primitive(x), V::Primitive(y)) => x == y,
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (V::Object(x), V::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same(a, b)),
        _ => false,
    }
}

/// Events describing a value. `StartArray` lengths are the true lengths.
pub fn events_of(v: &V, out: &mut Vec<Ev>, quoted: &dyn Fn(&str) -> bool) {
    match v {
        V::Primitive(p) => out.push(Ev::Primitive { value: p.clone() }),
        V::Array(a) => {
            out.push(Ev::StartArray { length: a.len() });
            for x in a {
                events_of(x, out, quoted);
            }
            out.push(Ev::EndArray);
        }
        V::Object(o) => {
            out.push(Ev::StartObject);
            for (k, x) in o {
                out.push(Ev::Key { key: k.clone(), was_quoted: quoted(k) });
                events_of(x, out, quoted);
            }
            out.push(Ev::EndObject);
        }
    }
}

/// JSON text in a random style.
pub struct JsonStyle {
    pub pretty: usize,
    pub escape: usize,
    pub spaces: bool,
}
pub fn gen_json_style(src: &mut Src) -> JsonStyle {
    JsonStyle { pretty: src.n(4), escape: src.n(3), spaces: src.chance(1, 3) }
}
pub fn json_text(v: &V, st: &JsonStyle) -> String {
    let mut out = String::new();
    json_at(v, st, 0, &mut out);
    if st.spaces {
        out = format!(" \n{out}\r\n\t");
    }
    out
}
fn nl(st: &JsonStyle, depth: usize, out: &mut String) {
    if st.pretty > 0 {
        out.push('\n');
        for _ in 0..depth * st.pretty {
            out.push(' ');
        }
    }
}
fn json_at(v: &V, st: &JsonStyle, depth: usize, out: &mut String) {
    match v {
        V::Primitive(p) => match p {
            P::Null => out.push_str("null"),
            P::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            P::Number(n) => out.push_str(&json_number(*n, st.escape)),
            P::String(x) => json_string(x, st.escape, out),
        },
        V::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(st, depth + 1, out);
                json_at(x, st, depth + 1, out);
            }
            if !a.is_empty() {
                nl(st, depth, out);
            }
            out.push(']');
        }
        V::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(st, depth + 1, out);
                json_string(k, st.escape, out);
                out.push_str(if st.spaces { " : " } else { ":" });
                json_at(x, st, depth + 1, out);
            }
            if !o.is_empty() {
                nl(st, depth, out);
            }
            out.push('}');
        }
    }
}
pub fn json_number(n: f64, style: usize) -> String {
    // spelled so that every reader gets the same double: whole numbers of up to 15 digits in plain form,
    // everything else as the shortest round-trip form with a point or an exponent
    if n.fract() == 0.0 && n.abs() < 1e15 && style != 1 {
        return format!("{}", n as i64);
    }
    let t = format!("{n:e}");
    if style == 2 { t.to_uppercase() } else { t }
}
fn json_string(x: &str, style: usize, out: &mut String) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '/' if style == 2 => out.push_str("\\/"),
            c if (c as u32) < 0x20 || (style == 1 && !c.is_ascii()) || (style == 2 && c == 'a') => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

/// What the program is entitled to read from the JSON text: serde_json's view of it.
pub fn parse_json(t: &str) -> Option<V> {
    serde_json::from_str::<serde_json::Value>(t).ok().map(|v| conv(&v))
}
/// JSON text read with every number rounded to the nearest double. serde_json, as the program
/// configures it, can be one unit in the last place off (a known finding of C06).
pub fn parse_json_exact(t: &str) -> Option<V> {
    let b = t.as_bytes();
    let mut i = 0;
    let v = exact_at(t, b, &mut i, 0)?;
    skip_ws(b, &mut i);
    (i == b.len()).then_some(v)
}
fn skip_ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], b' ' | b'\n' | b'\r' | b'\t') {
        *i += 1;
    }
}
fn exact_string(t: &str, b: &[u8], i: &mut usize) -> Option<String> {
    let start = *i;
    *i += 1;
    while *b.get(*i)? != b'"' {
        *i += if b[*i] == b'\\' { 2 } else { 1 };
    }
    *i += 1;
    serde_json::from_str(t.get(start..*i)?).ok()
}
fn exact_at(t: &str, b: &[u8], i: &mut usize, depth: usize) -> Option<V> {
    if depth > 5000 {
        return None;
    }
    skip_ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut o: Vec<(String, V)> = Vec::new();
            skip_ws(b, i);
            if *b.get(*i)? == b'}' {
                *i += 1;
                return Some(V::Object(o));
            }
            loop {
                skip_ws(b, i);
                if *b.get(*i)? != b'"' {
                    return None;
                }
                let k = exact_string(t, b, i)?;
                skip_ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                let v = exact_at(t, b, i, depth + 1)?;
                match o.iter_mut().find(|(x, _)| *x == k) {
                    Some(e) => e.1 = v,
                    None => o.push((k, v)),
                }
                skip_ws(b, i);
                *i += 1;
                match b[*i - 1..].first()? {
                    b',' => {}
                    b'}' => return Some(V::Object(o)),
                    _ => return None,
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut a = Vec::new();
            skip_ws(b, i);
            if *b.get(*i)? == b']' {
                *i += 1;
                return Some(V::Array(a));
            }
            loop {
                a.push(exact_at(t, b, i, depth + 1)?);
                skip_ws(b, i);
                *i += 1;
                match b[*i - 1..].first()? {
                    b',' => {}
                    b']' => return Some(V::Array(a)),
                    _ => return None,
                }
            }
        }
        b'"' => Some(V::Primitive(P::String(exact_string(t, b, i)?))),
        _ => {
            let start = *i;
            while *i < b.len() && matches!(b[*i], b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'+' | b'-' | b'.') {
                *i += 1;
            }
            let w = &t[start..*i];
            Some(V::Primitive(match w {
                "null" => P::Null,
                "true" => P::Bool(true),
                "false" => P::Bool(false),
                _ => {
                    // the grammar is serde_json's, the value is the nearest double
                    serde_json::from_str::<serde_json::Value>(w).ok().filter(serde_json::Value::is_number)?;
                    let f: f64 = w.parse().ok()?;
                    P::Number(if f == 0.0 { 0.0 } else { f })
                }
            }))
        }
    }
}
fn conv(v: &serde_json::Value) -> V {
    match v {
        serde_json::Value::Null => V::Primitive(P::Null),
        serde_json::Value::Bool(b) => V::Primitive(P::Bool(*b)),
        serde_json::Value::Number(n) => {
            let f = n.as_f64().unwrap_or(f64::NAN);
            V::Primitive(if !f.is_finite() {
                P::Null
            } else if f == 0.0 {
                P::Number(0.0)
            } else {
                P::Number(f)
            })
        }
        serde_json::Value::String(x) => V::Primitive(P::String(x.clone())),
        serde_json::Value::Array(a) => V::Array(a.iter().map(conv).collect()),
        serde_json::Value::Object(o) => V::Object(o.iter().map(|(k, v)| (k.clone(), conv(v))).collect()),
    }
}
pub fn normal(v: &V) -> V {
    match v {
        V::Primitive(P::Number(n)) => V::Primitive(if !n.is_finite() {
            P::Null
        } else if *n == 0.0 {
            P::Number(0.0)
        } else {
            P::Number(*n)
        }),
        V::Primitive(p) => V::Primitive(p.clone()),
        V::Array(a) => V::Array(a.iter().map(normal).collect()),
        V::Object(o) => V::Object(o.iter().map(|(k, v)| (k.clone(), normal(v))).collect()),
    }
}
