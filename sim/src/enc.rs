//! Reference model of the encoder: JSON value to TOON lines, written from the format's rules.

use crate::val::{P, V};

#[derive(Clone, Debug)]
pub struct EncOpts {
    pub indent: usize,
    pub delim: char,
    pub fold: bool,
    pub flatten: usize,
}
impl Default for EncOpts {
    fn default() -> Self {
        Self { indent: 2, delim: ',', fold: false, flatten: usize::MAX }
    }
}

fn ident(seg: &str) -> bool {
    let b = seg.as_bytes();
    !b.is_empty() && (b[0].is_ascii_alphabetic() || b[0] == b'_') && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
pub fn is_ident(seg: &str) -> bool {
    ident(seg)
}
/// A key that may be written without quotes.
pub fn bare_key(k: &str) -> bool {
    let b = k.as_bytes();
    !b.is_empty() && (b[0].is_ascii_alphabetic() || b[0] == b'_') && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.')
}
pub fn quote(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Reads like a number, possibly with leading zeros.
fn numberish(x: &str) -> bool {
    let t = x.trim();
    let t = t.strip_prefix('-').unwrap_or(t);
    let digits = t.bytes().take_while(u8::is_ascii_digit).count();
    if digits == 0 {
        return false;
    }
    if digits > 1 && t.starts_with('0') {
        return true;
    }
    let mut r = &t[digits..];
    if let Some(f) = r.strip_prefix('.') {
        let d = f.bytes().take_while(u8::is_ascii_digit).count();
        if d == 0 {
            return false;
        }
        r = &f[d..];
    }
    if let Some(e) = r.strip_prefix(['e', 'E']) {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        let d = e.bytes().take_while(u8::is_ascii_digit).count();
        if d == 0 {
            return false;
        }
        r = &e[d..];
    }
    r.is_empty()
}
/// A string that may be written without quotes where `delim` separates values.
pub fn bare_string(x: &str, delim: char) -> bool {
    !(x.is_empty()
        || x.trim() != x
        || matches!(x, "true" | "false" | "null")
        || numberish(x)
        || x.starts_with('-')
        || x.chars().any(|c| ":\"\\[]{}\n\r\t".contains(c) || c == delim))
}
pub fn key(k: &str) -> String {
    if bare_key(k) { k.to_string() } else { quote(k) }
}
pub fn prim(p: &P, delim: char) -> String {
    match p {
        P::Null => "null".into(),
        P::Bool(b) => format!("{b}"),
        P::Number(n) => {
            if !n.is_finite() {
                "null".into()
            } else if *n == 0.0 {
                "0".into()
            } else {
                format!("{n}")
            }
        }
        P::String(x) => {
            if bare_string(x, delim) {
                x.clone()
            } else {
                quote(x)
            }
        }
    }
}

struct Enc<'a> {
    o: &'a EncOpts,
    out: Vec<String>,
}

pub fn encode(v: &V, o: &EncOpts) -> Vec<String> {
    let mut e = Enc { o, out: Vec::new() };
    match v {
        V::Primitive(p) => e.out.push(prim(p, o.delim)),
        V::Array(a) => e.array("", a, 0, 1),
        V::Object(f) => {
            let lits: Vec<&str> = f.iter().map(|(k, _)| k.as_str()).filter(|k| k.contains('.')).collect();
            e.fields(f, 0, Some(&lits), None, o.flatten);
        }
    }
    e.out
}

fn all_prims(a: &[V]) -> bool {
    a.iter().all(|x| matches!(x, V::Primitive(_)))
}
/// The column names when the array is a table: non-empty objects with the same keys and only primitives.
pub fn columns(a: &[V]) -> Option<Vec<String>> {
    let V::Object(first) = a.first()? else { return None };
    if first.is_empty() {
        return None;
    }
    for row in a {
        let V::Object(r) = row else { return None };
        if r.len() != first.len() || !first.iter().all(|(k, _)| matches!(r.iter().find(|(l, _)| l == k), Some((_, V::Primitive(_))))) {
            return None;
        }
    }
    Some(first.iter().map(|(k, _)| k.clone()).collect())
}

impl Enc<'_> {
    fn line(&mut self, depth: usize, text: &str) {
        self.out.push(format!("{}{}", " ".repeat(depth * self.o.indent), text));
    }
    fn brackets(&self, n: usize) -> String {
        if self.o.delim == ',' { format!("[{n}]") } else { format!("[{n}{}]", self.o.delim) }
    }
    fn join(&self, ps: &[&P]) -> String {
        ps.iter().map(|p| prim(p, self.o.delim)).collect::<Vec<_>>().join(&self.o.delim.to_string())
    }
    fn inline(&self, a: &[V]) -> String {
        let ps: Vec<&P> = a.iter().filter_map(|x| if let V::Primitive(p) = x { Some(p) } else { None }).collect();
        let b = self.brackets(a.len());
        if ps.is_empty() { format!("{b}:") } else { format!("{b}: {}", self.join(&ps)) }
    }
    fn rows(&mut self, a: &[V], cols: &[String], depth: usize) {
        for r in a {
            let V::Object(r) = r else { continue };
            let ps: Vec<&P> = cols
                .iter()
                .filter_map(|c| match r.iter().find(|(k, _)| k == c) {
                    Some((_, V::Primitive(p))) => Some(p),
                    _ => None,
                })
                .collect();
            let t = self.join(&ps);
            self.line(depth, &t);
        }
    }
    fn table_header(&self, a: &[V], cols: &[String]) -> String {
        format!("{}{{{}}}:", self.brackets(a.len()), cols.iter().map(|c| key(c)).collect::<Vec<_>>().join(&self.o.delim.to_string()))
    }
    /// An array whose header line is `lead` + brackets; members are `step` levels deeper.
    fn array(&mut self, lead: &str, a: &[V], depth: usize, step: usize) {
        if all_prims(a) {
            let t = format!("{lead}{}", self.inline(a));
            self.line(depth, &t);
        } else if let Some(cols) = columns(a) {
            let t = format!("{lead}{}", self.table_header(a, &cols));
            self.line(depth, &t);
            self.rows(a, &cols, depth + step);
        } else {
            let t = format!("{lead}{}:", self.brackets(a.len()));
            self.line(depth, &t);
            for x in a {
                self.item(x, depth + step);
            }
        }
    }
    fn item(&mut self, v: &V, depth: usize) {
        match v {
            V::Primitive(p) => {
                let t = format!("- {}", prim(p, self.o.delim));
                self.line(depth, &t);
            }
            V::Array(a) if all_prims(a) => {
                let t = format!("- {}", self.inline(a));
                self.line(depth, &t);
            }
            V::Array(a) => {
                // an array directly inside a list is always a list
                let t = format!("- {}:", self.brackets(a.len()));
                self.line(depth, &t);
                for x in a {
                    self.item(x, depth + 1);
                }
            }
            V::Object(f) if f.is_empty() => self.line(depth, "-"),
            V::Object(f) => {
                let (k, x) = &f[0];
                let lead = format!("- {}", key(k));
                match x {
                    V::Primitive(p) => {
                        let t = format!("{lead}: {}", prim(p, self.o.delim));
                        self.line(depth, &t);
                    }
                    V::Array(a) => self.array(&lead, a, depth, 2),
                    V::Object(g) => {
                        self.line(depth, &format!("{lead}:"));
                        self.fields(g, depth + 2, None, None, self.o.flatten);
                    }
                }
                self.fields(&f[1..], depth + 1, None, None, self.o.flatten);
            }
        }
    }
    fn fields(&mut self, f: &[(String, V)], depth: usize, lits: Option<&[&str]>, prefix: Option<&str>, left: usize) {
        let path = |k: &str| prefix.map_or_else(|| k.to_string(), |p| format!("{p}.{k}"));
        for (k, v) in f {
            if let Some((folded, used, leaf)) = self.fold(k, v, f, lits, &path, left) {
                let name = key(&folded);
                match leaf {
                    V::Object(g) => {
                        self.line(depth, &format!("{name}:"));
                        self.fields(g, depth + 1, lits, Some(&path(&folded)), left.saturating_sub(used));
                    }
                    other => self.field(&name, other, depth),
                }
                continue;
            }
            if let V::Object(g) = v {
                self.line(depth, &format!("{}:", key(k)));
                self.fields(g, depth + 1, lits, Some(&path(k)), left);
            } else {
                self.field(&key(k), v, depth);
            }
        }
    }
    fn field(&mut self, name: &str, v: &V, depth: usize) {
        match v {
            V::Primitive(p) => {
                let t = format!("{name}: {}", prim(p, self.o.delim));
                self.line(depth, &t);
            }
            V::Array(a) => self.array(name, a, depth, 1),
            V::Object(_) => {}
        }
    }
    fn fold<'v>(
        &self,
        k: &str,
        v: &'v V,
        siblings: &[(String, V)],
        lits: Option<&[&str]>,
        path: &dyn Fn(&str) -> String,
        left: usize,
    ) -> Option<(String, usize, &'v V)> {
        if !self.o.fold || left < 2 {
            return None;
        }
        let mut segs = vec![k];
        let mut cur = v;
        while segs.len() < left {
            let V::Object(f) = cur else { break };
            let [(k, x)] = f.as_slice() else { break };
            segs.push(k);
            cur = x;
        }
        if segs.len() < 2 || !segs.iter().all(|s| ident(s)) {
            return None;
        }
        let folded = segs.join(".");
        if siblings.iter().any(|(s, _)| *s == folded) || lits.is_some_and(|l| l.contains(&path(&folded).as_str())) {
            return None;
        }
        Some((folded, segs.len(), cur))
    }
}
