//! C11 to C15: the async streams and functions under a simulated executor.

use crate::alloc;
use crate::ctx::*;
use crate::docs::*;
use crate::ensure;
use crate::exec::{drive, Now, Task};
use crate::tape::{hash, mix, Src};
use crate::val::*;
use asupersync::stream::Stream;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use toon::decode::{AsyncDecodeStream, decode_stream_async, try_decode_async, try_decode_stream_async};
use toon::encode::async_encode as ae;
use toon::encode::{AsyncEncodeEventStream, AsyncEncodeStream};
use toon::options::{ExpandPathsMode, KeyFoldingMode, PathSegment};
use toon::{DecodeOptions, DecodeStreamOptions, EncodeOptions, EncodeReplacer};

/// What a line source saw and was told to check.
#[derive(Default)]
struct SrcLog {
    reads: usize,
    ended: bool,
    after_end: usize,
    delivered: usize,
    /// events that were waiting when a line was asked for
    wrong: Option<String>,
    /// per line: None blank, Some(true) flat field, Some(false) anything else
    flat: Option<Vec<Option<bool>>>,
}
struct Source {
    lines: std::vec::IntoIter<String>,
    log: Arc<Mutex<SrcLog>>,
    zombie: bool,
    /// how much of the number of lines it says beforehand
    hint: usize,
}
impl Iterator for Source {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        let mut g = self.log.lock().unwrap();
        let l = &mut *g;
        if l.ended {
            l.after_end += 1;
            return if self.zombie { Some("zombie: 1".into()) } else { None };
        }
        if let Some(f) = &l.flat {
            let seen = &f[..l.reads.min(f.len())];
            if seen.iter().all(|x| *x != Some(false)) {
                let n = seen.iter().filter(|x| **x == Some(true)).count();
                let due = if n == 0 { 0 } else { 1 + 2 * n };
                if l.delivered != due && l.wrong.is_none() {
                    l.wrong = Some(format!("line {} was asked for when {} of the {due} events of the {n} fields read so far had been delivered", l.reads + 1, l.delivered));
                }
            }
        }
        match self.lines.next() {
            Some(x) => {
                l.reads += 1;
                Some(x)
            }
            None => {
                l.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.lines.len();
        if self.zombie && n == 0 {
            return (0, None);
        }
        match self.hint {
            0 => (n, Some(n)),
            1 => (n / 2, Some(n + 7)),
            2 => (0, Some(n)),
            _ => (0, None),
        }
    }
}

#[derive(Default)]
struct Got {
    events: Vec<Ev>,
    error: Option<String>,
    ends: usize,
    after_end: Option<String>,
    after_error: Option<String>,
    max_reads_in_poll: usize,
}

/// How often a stream that ended is polled again.
fn more_polls(src: &mut Src) -> usize {
    match src.n(400) {
        399 => *src.pick(&[3000, 66_000]),
        390.. => *src.pick(&[33, 130, 258, 300]),
        _ => src.range(1, 5),
    }
}

/// A decode stream as a task: `extra` polls follow the first end of stream.
fn decode_task<'a>(name: String, lines: Vec<String>, opts: Option<DecodeStreamOptions>, log: Arc<Mutex<SrcLog>>, got: Arc<Mutex<Got>>, zombie: bool, extra: usize, hint: usize) -> Task<'a> {
    let mut st = AsyncDecodeStream::new(Source { lines: lines.into_iter(), log: log.clone(), zombie, hint }, opts);
    let mut left = extra;
    Task::new(name, move |cx| {
        let before = log.lock().unwrap().reads;
        let r = Pin::new(&mut st).poll_next(cx);
        let mut g = got.lock().unwrap();
        let read = log.lock().unwrap().reads - before;
        g.max_reads_in_poll = g.max_reads_in_poll.max(read);
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Some(x)) => {
                if g.ends > 0 && g.after_end.is_none() {
                    g.after_end = Some(format!("{x:?}"));
                }
                if g.error.is_some() && g.after_error.is_none() {
                    g.after_error = Some(format!("{x:?}"));
                }
                match x {
                    Ok(e) => {
                        g.events.push(e);
                        log.lock().unwrap().delivered += 1;
                    }
                    Err(e) => {
                        g.error.get_or_insert(e.to_string());
                    }
                }
                if g.ends > 0 {
                    left = left.saturating_sub(1);
                    if left == 0 {
                        return Poll::Ready(Now::Done);
                    }
                }
                Poll::Ready(Now::More)
            }
            Poll::Ready(None) => {
                g.ends += 1;
                if left == 0 {
                    return Poll::Ready(Now::Done);
                }
                left -= 1;
                Poll::Ready(Now::More)
            }
        }
    })
}

fn show_lines(l: &[String]) -> String {
    let t = format!("{l:?}");
    if t.len() > 1500 { format!("{}... ({} lines)", t.chars().take(1500).collect::<String>(), l.len()) } else { t }
}
fn diff(a: &[Ev], b: &[Ev]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("from event {i}: {:?} instead of {:?}", a.get(i), b.get(i))
}

pub fn c11(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[1, 1, 2, 3, 4]);
    let mut docs = Vec::new();
    let mut tasks = Vec::new();
    let mut outs = Vec::new();
    let mut polls = 1000;
    for i in 0..n {
        let d = gen_lines(src);
        let log = Arc::new(Mutex::new(SrcLog::default()));
        let got = Arc::new(Mutex::new(Got::default()));
        let mut t = decode_task(format!("stream {i}"), d.lines.clone(), d.opts(), log, got.clone(), false, 0, src.n(5));
        if n > 1 && src.chance(1, 6) {
            t.cancel_at = Some(src.n(12));
        }
        polls += d.lines.iter().map(|l| 20 + l.len() * 4).sum::<usize>();
        ctx.note(|| format!("stream {i}: indent {} {} {}", d.indent, if d.strict { "strict" } else { "lenient" }, show_lines(&d.lines)));
        docs.push(d);
        tasks.push(t);
        outs.push(got);
    }
    drive(src, ctx, &mut tasks, polls)?;
    let mut work = false;
    for (i, (d, g)) in docs.iter().zip(&outs).enumerate() {
        let g = g.lock().unwrap();
        let want = toon::try_decode_stream_sync(d.lines.clone(), d.opts());
        ctx.see(format!("{:?} {:?}", g.events, g.error).as_bytes());
        if tasks[i].cancelled {
            if let Ok(w) = &want {
                ensure!(w.starts_with(&g.events), "dropped stream {i} had yielded something else than the sync decoder: {}", diff(&g.events, w));
            }
            continue;
        }
        work |= d.lines.len() > 1;
        match &want {
            Ok(w) => {
                ensure!(g.error.is_none(), "stream {i} yields an error ({}) for lines the sync decoder accepts", g.error.clone().unwrap_or_default());
                ensure!(g.events == *w, "stream {i} yields other events than the sync decoder returns, {}", diff(&g.events, w));
            }
            Err(e) => {
                ensure!(g.error.is_some(), "stream {i} yields no error for lines the sync decoder rejects ({e}); it yields {} events", g.events.len());
                ctx.stats.add("rejected documents", 1);
            }
        }
    }
    Ok(work)
}

pub fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 2);
    let mut docs = Vec::new();
    let mut tasks = Vec::new();
    let mut outs = Vec::new();
    let mut polls = 1000;
    for i in 0..n {
        let d = gen_lines(src);
        let log = Arc::new(Mutex::new(SrcLog::default()));
        let got = Arc::new(Mutex::new(Got::default()));
        let zombie = src.chance(1, 2);
        let extra = more_polls(src);
        let t = decode_task(format!("stream {i}"), d.lines.clone(), d.opts(), log.clone(), got.clone(), zombie, extra, src.n(5));
        if zombie {
            ctx.fault("line source that gives lines again after its end", 1);
        }
        polls += d.lines.iter().map(|l| 20 + l.len() * 4).sum::<usize>();
        polls += extra;
        ctx.note(|| format!("stream {i}: indent {} {} {} {extra} polls after the end{}", d.indent, if d.strict { "strict" } else { "lenient" }, show_lines(&d.lines), if zombie { ", source revives" } else { "" }));
        docs.push(d);
        tasks.push(t);
        outs.push((got, log));
    }
    drive(src, ctx, &mut tasks, polls)?;
    let mut work = false;
    for (i, (g, l)) in outs.iter().enumerate() {
        let (g, l) = (g.lock().unwrap(), l.lock().unwrap());
        ctx.see(format!("{:?} {:?} {}", g.events, g.error, g.ends).as_bytes());
        if let Some(x) = &g.after_error {
            return Err(format!("stream {i} yielded {x} after an error"));
        }
        if let Some(x) = &g.after_end {
            return Err(format!("stream {i} yielded {x} after its end"));
        }
        ensure!(l.after_end == 0, "stream {i} asked its source for {} more lines after the source's end", l.after_end);
        if g.error.is_some() {
            ctx.stats.add("streams that ended with an error", 1);
        }
        work |= g.ends > 1;
    }
    Ok(work)
}

/// A document that is flat, or flat at first, and which of its lines are flat fields.
pub fn c13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let indent = src.range(1, 4);
    let strict = !src.chance(1, 3);
    let n = if src.chance(1, 20) { if src.chance(1, 8) { src.range(1500, 9000) } else { src.range(100, 1500) } } else { src.range(1, 9) };
    let v = if n > 20 { V::Object((0..n).map(|i| (format!("k{i}"), V::from(i as f64))).collect()) } else { flat_object(src, n) };
    let mut lines = Vec::new();
    let mut flat = Vec::new();
    let odd = *src.pick(&[1, 4, 0]);
    let d = crate::dec::write_doc(src, &v, &crate::dec::StyleCfg { indent, protect_dots: false, blank_lines: false, odd });
    for l in d.lines {
        if src.chance(1, 8) {
            lines.push((*src.pick(&["", "  ", "\t"])).to_string());
            let blank = lines.last().is_some_and(|x: &String| x != "\t");
            if blank {
                flat.push(None);
            } else {
                lines.pop();
            }
        }
        lines.push(l);
        flat.push(Some(true));
    }
    if src.chance(1, 2) {
        let t = gen_value(src, &GenCfg { nodes: 10, ..GenCfg::default() });
        let tail = V::Object(vec![("tail".into(), if matches!(t, V::Primitive(_)) { V::Array(vec![t]) } else { t })]);
        for l in written(src, &tail, indent).0.lines {
            lines.push(l);
            flat.push(Some(false));
        }
        for i in 0..src.n(3) {
            lines.push(format!("after{i}: 1"));
            flat.push(Some(false));
        }
    } else if src.chance(1, 4) {
        lines.push(random_line(src, indent));
        flat.push(Some(false));
    }
    let all_flat = flat.iter().all(|x| *x != Some(false));
    let blanks = flat.iter().filter(|x| x.is_none()).count();
    ctx.note(|| format!("indent {indent} {} {}", if strict { "strict" } else { "lenient" }, show_lines(&lines)));
    let log = Arc::new(Mutex::new(SrcLog { flat: Some(flat), ..SrcLog::default() }));
    let got = Arc::new(Mutex::new(Got::default()));
    let opts = Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
    let max = lines.iter().map(|l| 40 + l.len() * 4).sum::<usize>() + 1000;
    let total = lines.len();
    let mut t = decode_task("the stream".into(), lines, opts, log.clone(), got.clone(), false, 0, src.n(5));
    ensure!(log.lock().unwrap().reads == 0, "creating the stream read {} lines", log.lock().unwrap().reads);
    if src.chance(1, 4) {
        t.cancel_at = Some(src.n(2 * n + 4));
    }
    let mut tasks = vec![t];
    if src.chance(1, 3) {
        // another one alongside
        let d = gen_lines(src);
        let max2 = d.lines.iter().map(|l| 20 + l.len() * 4).sum::<usize>();
        tasks.push(decode_task("another stream".into(), d.lines.clone(), d.opts(), Arc::new(Mutex::new(SrcLog::default())), Arc::new(Mutex::new(Got::default())), false, 0, src.n(5)));
        drive(src, ctx, &mut tasks, max + max2)?;
    } else {
        drive(src, ctx, &mut tasks, max)?;
    }
    let (g, l) = (got.lock().unwrap(), log.lock().unwrap());
    ctx.see(format!("{:?} {:?} {}", g.events, g.error, l.reads).as_bytes());
    if let Some(w) = &l.wrong {
        return Err(w.clone());
    }
    if all_flat {
        ensure!(g.max_reads_in_poll <= 1 + blanks.min(total), "one poll read {} lines", g.max_reads_in_poll);
    }
    if tasks[0].cancelled && all_flat {
        let fields = g.events.len().div_ceil(2);
        ensure!(l.reads <= fields + blanks + 1, "{} lines were read for {} events", l.reads, g.events.len());
    }
    Ok(n > 1)
}

// ---------------------------------------------------------------------------------------------

/// A replacer that is a pure function of key, value and path.
fn pure_replacer(seed: u64) -> EncodeReplacer {
    Arc::new(move |k: &str, v: &V, p: &[PathSegment]| {
        let h = mix(seed, mix(hash(k.as_bytes()), hash(format!("{p:?}").as_bytes())));
        match h % 9 {
            0 => None,
            1 => Some(s("replaced")),
            2 => Some(V::from(f64::NAN)),
            3 => Some(V::Object(vec![("n".into(), V::from((h % 100) as f64)), ("m".into(), s("x,y"))])).filter(|_| p.len() < 4).or_else(|| Some(v.clone())),
            4 => Some(V::Array(vec![v.clone(), V::from(-0.0)])).filter(|_| p.len() < 4).or_else(|| Some(v.clone())),
            _ => Some(v.clone()),
        }
    })
}

#[derive(Clone)]
pub struct Eo {
    pub o: EncodeOptions,
    pub text: String,
}
pub fn gen_encode_options(src: &mut Src) -> Eo {
    let indent = if src.chance(1, 2) { Some(src.n(7)) } else { None };
    let delimiter = if src.chance(1, 2) { Some(*src.pick(&[',', '|', '\t'])) } else { None };
    let key_folding = match src.n(3) {
        0 => None,
        1 => Some(KeyFoldingMode::Off),
        _ => Some(KeyFoldingMode::Safe),
    };
    let flatten_depth = if src.chance(1, 3) { Some(src.n(5)) } else { None };
    let text = format!("indent {indent:?} delimiter {delimiter:?} folding {key_folding:?} depth {flatten_depth:?}");
    Eo { o: EncodeOptions { indent, delimiter, key_folding, flatten_depth, replacer: None }, text }
}

pub fn gen_any(src: &mut Src) -> V {
    let nodes = if src.chance(1, 2) { 8 } else { 24 };
    let cfg = GenCfg { nodes, ..GenCfg::default() };
    let mut v = match src.n(3000) {
        0 => gen_long(src),
        1..=100 => gen_big(src, &cfg),
        _ => gen_value(src, &cfg),
    };
    if src.chance(1, 6) {
        // values no JSON text holds
        strange(src, &mut v);
    }
    v
}
fn strange(src: &mut Src, v: &mut V) {
    match v {
        V::Primitive(P::Number(n)) => {
            if src.chance(1, 3) {
                *n = *src.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]);
            }
        }
        V::Primitive(_) => {}
        V::Array(a) => a.iter_mut().for_each(|x| strange(src, x)),
        V::Object(o) => {
            o.iter_mut().for_each(|(_, x)| strange(src, x));
            if o.len() > 1 && src.chance(1, 12) {
                // the library type allows a key twice
                let k = o[0].0.clone();
                o[1].0 = k;
            }
        }
    }
}

pub fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[1, 1, 2, 3]);
    let mut tasks: Vec<Task<'_>> = Vec::new();
    struct Lane {
        want_lines: Vec<String>,
        want_events: Vec<Ev>,
        lines: Arc<Mutex<Vec<String>>>,
        events: Arc<Mutex<Vec<Ev>>>,
        wrong: Arc<Mutex<Option<String>>>,
        kind: usize,
    }
    let mut lanes = Vec::new();
    let mut polls = 100;
    for i in 0..n {
        let v = gen_any(src);
        let mut e = gen_encode_options(src);
        if src.chance(1, 3) {
            let seed = src.word();
            e.o.replacer = Some(pure_replacer(seed));
            e.text += &format!(" replacer {seed:#x}");
        }
        let o = if src.chance(1, 5) && e.o.replacer.is_none() { None } else { Some(e.o.clone()) };
        ctx.note(|| format!("stream {i}: {} {:?}", if o.is_some() { &e.text } else { "default options" }, v).chars().take(1500).collect());
        let want_lines = toon::encode_lines(v.clone(), o.clone());
        let want_events = toon::encode_stream_events(v.clone(), o.clone());
        let total = want_lines.len();
        polls += want_events.len() + total + 20;
        let (lines, events, wrong) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(None::<String>)));
        let kind = src.n(2);
        let mut extra = more_polls(src);
        polls += extra;
        let by_try = src.chance(1, 2);
        let mut t = if kind == 0 {
            let mut st = if by_try { AsyncEncodeStream::try_new(v, o).map_err(|e| format!("try_new failed: {e}"))? } else { AsyncEncodeStream::new(v, o) };
            let (l, w) = (lines.clone(), wrong.clone());
            Task::new(format!("line stream {i}"), move |cx| {
                let before = (st.len(), st.is_empty());
                let r = Pin::new(&mut st).poll_next(cx);
                let after = (st.len(), st.is_empty());
                let mut l = l.lock().unwrap();
                if before != (total, total == 0) || after != before {
                    w.lock().unwrap().get_or_insert(format!("the length was reported as {} (is_empty {}), then {} (is_empty {}), around poll {}; there are {total} lines", before.0, before.1, after.0, after.1, l.len() + 1));
                }
                match r {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Some(x)) => {
                        l.push(x);
                        Poll::Ready(if l.len() > total + 5 { Now::Done } else { Now::More })
                    }
                    Poll::Ready(None) => {
                        if l.len() == total {
                            extra -= 1;
                        }
                        Poll::Ready(if l.len() != total || extra == 0 { Now::Done } else { Now::More })
                    }
                }
            })
        } else {
            let mut st =
                if by_try { AsyncEncodeEventStream::try_new(v, o).map_err(|e| format!("try_new failed: {e}"))? } else { AsyncEncodeEventStream::new(v, o) };
            let l = events.clone();
            let total = want_events.len();
            Task::new(format!("event stream {i}"), move |cx| {
                let r = Pin::new(&mut st).poll_next(cx);
                let mut l = l.lock().unwrap();
                match r {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Some(x)) => {
                        l.push(x);
                        Poll::Ready(if l.len() > total + 5 { Now::Done } else { Now::More })
                    }
                    Poll::Ready(None) => {
                        if l.len() == total {
                            extra -= 1;
                        }
                        Poll::Ready(if l.len() != total || extra == 0 { Now::Done } else { Now::More })
                    }
                }
            })
        };
        if src.chance(1, 5) {
            t.cancel_at = Some(src.n(10));
        }
        tasks.push(t);
        lanes.push(Lane { want_lines, want_events, lines, events, wrong, kind });
    }
    drive(src, ctx, &mut tasks, polls * 2)?;
    let mut work = false;
    for (i, l) in lanes.iter().enumerate() {
        if let Some(w) = l.wrong.lock().unwrap().clone() {
            return Err(format!("line stream {i}: {w}"));
        }
        let lines = l.lines.lock().unwrap();
        let events = l.events.lock().unwrap();
        ctx.see(format!("{lines:?} {events:?}").as_bytes());
        let cut = tasks[i].cancelled;
        if l.kind == 0 {
            let w = if cut { &l.want_lines[..lines.len().min(l.want_lines.len())] } else { &l.want_lines[..] };
            ensure!(*lines == *w, "line stream {i} yielded {lines:?} instead of {w:?}");
            work |= lines.len() > 1;
        } else {
            let w = if cut { &l.want_events[..events.len().min(l.want_events.len())] } else { &l.want_events[..] };
            ensure!(same_events(&events, w), "event stream {i} yielded other events, {}", diff(&events, w));
            work |= events.len() > 2;
        }
    }
    Ok(work)
}
/// Equality of events, doubles by bits.
pub fn same_events(a: &[Ev], b: &[Ev]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Ev::Primitive { value: P::Number(x) }, Ev::Primitive { value: P::Number(y) }) => x.to_bits() == y.to_bits(),
            _ => x == y,
        })
}

// ---------------------------------------------------------------------------------------------

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_else(|| "?".into())
}

/// Outcome of a call, comparable.
pub type Outcome = Result<String, String>;
fn caught<T>(f: impl FnOnce() -> T, show: impl FnOnce(T) -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => show(v),
        Err(p) => Err(format!("panic: {}", panic_text(&*p))),
    }
}
fn evs(e: &[Ev]) -> String {
    // doubles are told apart by their bits
    let mut t = String::new();
    for x in e {
        if let Ev::Primitive { value: P::Number(n) } = x {
            t += &format!("{:#x};", n.to_bits());
        } else {
            t += &format!("{x:?};");
        }
    }
    t
}
fn val(v: &V) -> String {
    let mut e = vec![];
    events_of(v, &mut e, &|_| false);
    evs(&e)
}

type Fut = Pin<Box<dyn Future<Output = Outcome> + Send>>;
/// An async call and its synchronous counterpart.
struct Call {
    name: &'static str,
    size: usize,
    start: Box<dyn Fn() -> Fut>,
    sync: Box<dyn Fn() -> Outcome>,
    /// what it is given and must let go of
    held: Option<EncodeReplacer>,
}
fn r2<T>(r: Result<T, toon::error::ToonError>, show: impl FnOnce(T) -> String) -> Outcome {
    match r {
        Ok(v) => Ok(show(v)),
        Err(e) => Err(format!("error: {e}")),
    }
}

fn long_lines(src: &mut Src) -> Lines {
    let n = *src.pick(&[1023usize, 1024, 1025, 2047, 2048, 2049, 3000, 5000]);
    let mut lines: Vec<String> = if src.chance(1, 2) {
        (0..n).map(|i| format!("k{i}: {i}")).collect()
    } else {
        let mut l = vec![format!("rows[{}]{{a,b}}:", n - 1)];
        l.extend((1..n).map(|i| format!("  {i},x")));
        l
    };
    if src.chance(1, 6) {
        lines.push("\"open".into());
    }
    Lines { lines, indent: 2, strict: !src.chance(1, 4), events: None }
}
fn long_value(src: &mut Src) -> V {
    let n = *src.pick(&[1022usize, 1023, 1024, 1025, 2048, 3000]);
    if src.chance(1, 2) {
        V::Object((0..n).map(|i| (format!("k{i}"), V::from(i as f64))).collect())
    } else {
        V::Array((0..n).map(|i| V::Array(vec![V::from(i as f64)])).collect())
    }
}

fn gen_call(src: &mut Src, ctx: &mut Ctx) -> Call {
    let long = src.chance(1, 8);
    let kind = src.n(12);
    if kind < 6 {
        let v = if long { long_value(src) } else { gen_any(src) };
        let mut e = gen_encode_options(src);
        if src.chance(1, 4) {
            let seed = src.word();
            e.o.replacer = Some(pure_replacer(seed));
        }
        let held = e.o.replacer.clone();
        let o = Some(e.o);
        let size = crate::val::size(&v);
        ctx.note(|| format!("encode call {kind}: {} {v:?}", e.text).chars().take(600).collect());
        let (v1, v2, o1, o2) = (v.clone(), v, o.clone(), o);
        macro_rules! call {
            ($name:expr, |$v:ident, $o:ident| $a:expr, $b:expr) => {{
                Call {
                    name: $name,
                    size,
                    start: Box::new(move || {
                        let ($v, $o) = (v1.clone(), o1.clone());
                        Box::pin(async move { $a })
                    }),
                    sync: Box::new(move || {
                        let ($v, $o) = (v2.clone(), o2.clone());
                        $b
                    }),
                    held,
                }
            }};
        }
        return match kind {
            0 => call!("encode_async", |v, o| Ok(ae::encode_async(v, o).await), Ok(toon::encode(v, o))),
            1 => call!("encode_lines_async", |v, o| Ok(format!("{:?}", ae::encode_lines_async(v, o).await)), Ok(format!("{:?}", toon::encode_lines(v, o)))),
            2 => call!("encode_events_async", |v, o| Ok(evs(&ae::encode_events_async(v, o).await)), Ok(evs(&toon::encode_stream_events(v, o)))),
            3 => call!("try_encode_async", |v, o| r2(ae::try_encode_async(v, o).await, |x| x), Ok(toon::encode(v, o))),
            4 => call!("try_encode_lines_async", |v, o| r2(ae::try_encode_lines_async(v, o).await, |x| format!("{x:?}")), Ok(format!("{:?}", toon::encode_lines(v, o)))),
            _ => call!("try_encode_events_async", |v, o| r2(ae::try_encode_events_async(v, o).await, |x| evs(&x)), Ok(evs(&toon::encode_stream_events(v, o)))),
        };
    }
    let d = if long { long_lines(src) } else { gen_lines(src) };
    let size = d.lines.len();
    ctx.note(|| format!("decode call {kind}: indent {} {} {}", d.indent, if d.strict { "strict" } else { "lenient" }, show_lines(&d.lines)));
    let (l1, l2) = (d.lines.clone(), d.lines.clone());
    let o = d.opts();
    let (o1, o2) = (o.clone(), o);
    macro_rules! call {
        ($name:expr, |$v:ident, $o:ident| $a:expr, $b:expr) => {{
            Call {
                name: $name,
                size,
                start: Box::new(move || {
                    let ($v, $o) = (l1.clone(), o1.clone());
                    Box::pin(async move { $a })
                }),
                sync: Box::new(move || {
                    let ($v, $o) = (l2.clone(), o2.clone());
                    $b
                }),
                held: None,
            }
        }};
    }
    match kind {
        6 => call!("try_decode_stream_async", |l, o| r2(try_decode_stream_async(l, o).await, |x| evs(&x)), r2(toon::try_decode_stream_sync(l, o), |x| evs(&x))),
        7 => call!("try_decode_stream", |l, o| r2(toon::try_decode_stream(l, o).await, |x| evs(&x)), r2(toon::try_decode_stream_sync(l, o), |x| evs(&x))),
        8 => call!("decode_stream_async", |l, o| Ok(evs(&decode_stream_async(l, o).await)), caught(|| toon::decode_stream_sync(l, o), |x| Ok(evs(&x)))),
        9 => call!("decode_stream", |l, o| Ok(evs(&toon::decode_stream(l, o).await)), caught(|| toon::decode_stream_sync(l, o), |x| Ok(evs(&x)))),
        10 => {
            // the library as built without the async feature
            fn po(o: Option<DecodeStreamOptions>) -> Option<toon_plain::DecodeStreamOptions> {
                o.map(|o| toon_plain::DecodeStreamOptions { indent: o.indent, strict: o.strict })
            }
            fn show(r: Result<Vec<toon_plain::JsonStreamEvent>, toon_plain::error::ToonError>) -> Outcome {
                match r {
                    Ok(v) => Ok(format!("{v:?}")),
                    Err(e) => Err(format!("error: {e}")),
                }
            }
            call!("try_decode_stream without the async-stream feature", |l, o| show(toon_plain::try_decode_stream(l, po(o)).await), show(
                toon_plain::try_decode_stream_sync(l, po(o))
            ))
        }
        _ => {
            let mut text = d.lines.join("\n");
            for _ in 0..src.n(3) {
                text.push('\n');
            }
            let expand_paths = match src.n(3) {
                0 => None,
                1 => Some(ExpandPathsMode::Off),
                _ => Some(ExpandPathsMode::Safe),
            };
            let o = Some(DecodeOptions { indent: Some(d.indent), strict: Some(d.strict), expand_paths });
            let (t1, t2, o1, o2) = (text.clone(), text, o.clone(), o);
            Call {
                name: "try_decode_async",
                size,
                start: Box::new(move || {
                    let (t, o) = (t1.clone(), o1.clone());
                    Box::pin(async move { r2(try_decode_async(&t, o).await, |v| val(&v)) })
                }),
                sync: Box::new(move || r2(toon::try_decode(&t2, o2.clone()), |v| val(&v))),
                held: None,
            }
        }
    }
}

pub fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[1, 2, 2, 3, 4]);
    let calls: Vec<Call> = (0..n).map(|_| gen_call(src, ctx)).collect();
    let outs: Vec<Arc<Mutex<Option<Outcome>>>> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
    let mut tasks: Vec<Task<'_>> = Vec::new();
    for (c, o) in calls.iter().zip(&outs) {
        let mut f = Some((c.start)());
        let o = o.clone();
        let mut t = Task::new(c.name, move |cx: &mut Context<'_>| {
            let Some(g) = f.as_mut() else { return Poll::Ready(Now::Done) };
            let r = match catch_unwind(AssertUnwindSafe(|| g.as_mut().poll(cx))) {
                Ok(Poll::Pending) => return Poll::Pending,
                Ok(Poll::Ready(r)) => r,
                Err(p) => Err(format!("panic: {}", panic_text(&*p))),
            };
            *o.lock().unwrap() = Some(r);
            f = None;
            Poll::Ready(Now::Done)
        });
        if src.chance(1, 4) {
            t.cancel_at = Some(src.n(5));
        }
        tasks.push(t);
    }
    let bound: usize = calls.iter().map(|c| c.size + 8).sum();
    drive(src, ctx, &mut tasks, bound)?;
    for ((c, t), o) in calls.iter().zip(&tasks).zip(&outs) {
        if t.cancelled {
            continue;
        }
        let got = o.lock().unwrap().clone();
        let want = (c.sync)();
        ctx.see(format!("{got:?}").as_bytes());
        let got = got.ok_or_else(|| format!("{} ended without a result", c.name))?;
        let short = |x: &Outcome| format!("{x:?}").chars().take(400).collect::<String>();
        ensure!(got == want, "{} gave {} and its synchronous counterpart {}", c.name, short(&got), short(&want));
        ensure!(t.polls <= c.size + 4, "{} took {} polls for {} lines", c.name, t.polls, c.size);
    }
    drop(tasks);
    // dropped at a suspension point, it releases everything and later calls are unaffected
    let c = &calls[0];
    struct Still;
    impl std::task::Wake for Still {
        fn wake(self: Arc<Self>) {}
    }
    let still = Arc::new(Still);
    let waker = std::task::Waker::from(still.clone());
    let mut noop = Context::from_waker(&waker);
    let go = |k: usize, cx: &mut Context<'_>| -> bool {
        let mut f = (c.start)();
        for _ in 0..k {
            match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx).is_ready())) {
                Ok(false) => {}
                _ => return true,
            }
        }
        false
    };
    let holders = c.held.as_ref().map(Arc::strong_count);
    go(usize::MAX, &mut noop);
    let k = src.n(4);
    let panics = matches!((c.sync)(), Err(e) if e.starts_with("panic"));
    if !panics {
        let before = alloc::live();
        let done = go(k, &mut noop);
        let after = alloc::live();
        ensure!(after <= before, "{} dropped after {k} polls keeps {} bytes", c.name, after - before);
        if !done {
            ctx.fault("future dropped at a suspension point", 1);
        }
    }
    let again = {
        let mut f = (c.start)();
        let mut r = None;
        for _ in 0..c.size + 8 {
            match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut noop))) {
                Ok(Poll::Pending) => {}
                Ok(Poll::Ready(x)) => {
                    r = Some(x);
                    break;
                }
                Err(p) => {
                    r = Some(Err(format!("panic: {}", panic_text(&*p))));
                    break;
                }
            }
        }
        r
    };
    // nor does it hold on to its waker or its replacer
    ensure!(Arc::strong_count(&still) == 2, "{} keeps {} wakers when it is gone", c.name, Arc::strong_count(&still) - 2);
    if let Some((n, h)) = holders.zip(c.held.as_ref()) {
        ensure!(Arc::strong_count(h) == n, "{} keeps its replacer when it is gone", c.name);
    }
    ensure!(again.as_ref() == Some(&(c.sync)()), "{} after a dropped call gives {:?}", c.name, again.map(|r| format!("{r:?}").chars().take(300).collect::<String>()));
    Ok(calls.iter().any(|c| c.size > 1))
}
