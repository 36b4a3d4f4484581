//! C16 and C17: concurrent and re-entrant callers, replacers.

use super::data::repeats_a_key;
use super::stream::{gen_any, gen_encode_options, same_events, Outcome};
use crate::exec::{drive, Now, Task};
use crate::ctx::*;
use crate::docs::*;
use crate::enc::{self, bare_key, EncOpts};
use crate::ensure;
use crate::sched;
use crate::tape::{hash, mix, Src};
use crate::val::*;
use asupersync::stream::Stream;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::mpsc::{sync_channel, Receiver};
use std::sync::{Arc, Barrier, Mutex};
use std::task::{Context, Poll};
use toon::cli::{conversion, json_stream::json_stream_from_events};
use toon::decode::AsyncDecodeStream;
use toon::encode::async_encode as ae;
use toon::encode::{AsyncEncodeEventStream, AsyncEncodeStream};
use toon::options::{ExpandPathsMode, KeyFoldingMode, PathSegment};
use toon::{DecodeOptions, DecodeStreamOptions, EncodeOptions, EncodeReplacer};

fn text_of(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_else(|| "?".into())
}
fn caught(f: impl FnOnce() -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => Err(format!("panic: {}", text_of(&*p))),
    }
}
pub fn poll_through<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(std::task::Waker::noop());
    loop {
        sched::here();
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}
pub fn stream_through<S: Stream + Unpin>(mut s: S) -> Vec<S::Item> {
    let mut cx = Context::from_waker(std::task::Waker::noop());
    let mut out = vec![];
    for _ in 0..1_000_000 {
        sched::here();
        match Pin::new(&mut s).poll_next(&mut cx) {
            Poll::Ready(Some(x)) => out.push(x),
            Poll::Ready(None) => return out,
            Poll::Pending => {}
        }
    }
    out
}
fn bits(v: &V) -> String {
    let mut e = vec![];
    events_of(v, &mut e, &|_| false);
    format!("{e:?}")
}
fn er<T>(r: Result<T, toon::error::ToonError>, show: impl FnOnce(T) -> String) -> Outcome {
    r.map(show).map_err(|e| format!("error: {e}"))
}

/// What happens inside a call's callback.
#[derive(Clone)]
enum Inner {
    Nothing,
    Panic,
    Call(Box<Op>),
}
#[derive(Clone)]
enum What {
    Encode,
    EncodeLines,
    EncodeEvents,
    EncodeAsync,
    LineStream,
    EventStream,
    Decode,
    DecodePanicking,
    DecodeLines,
    DecodeEvents,
    DecodeStream,
    DecodeAsync,
    JsonToToon,
    ToonToJson,
    CliEncode,
    CliDecode,
    JsonWriter,
}
/// A call that can be made from any thread any number of times.
#[derive(Clone)]
struct Op {
    what: What,
    v: V,
    lines: Vec<String>,
    e: EncodeOptions,
    d: DecodeOptions,
    /// with a callback (replacer or line source), what it does at its `at`-th call
    callback: bool,
    at: usize,
    inner: Inner,
}
const ALL: &[What] = &[
    What::Encode,
    What::EncodeLines,
    What::EncodeEvents,
    What::EncodeAsync,
    What::LineStream,
    What::EventStream,
    What::Decode,
    What::DecodePanicking,
    What::DecodeLines,
    What::DecodeEvents,
    What::DecodeStream,
    What::DecodeAsync,
    What::JsonToToon,
    What::ToonToJson,
    What::CliEncode,
    What::CliDecode,
    What::JsonWriter,
];

fn gen_op(src: &mut Src, depth: usize) -> Op {
    let what = src.pick(ALL).clone();
    let cfg = GenCfg { nodes: if src.chance(1, 6) { 24 } else { 8 }, ..GenCfg::default() };
    let v = gen_value(src, &cfg);
    let l = if src.chance(1, 2) {
        let (d, _) = written(src, &v, 2);
        Lines { lines: d.lines, indent: 2, strict: true, events: None }
    } else {
        gen_lines(src)
    };
    let e = gen_encode_options(src).o;
    let d = DecodeOptions {
        indent: Some(l.indent),
        strict: Some(l.strict),
        expand_paths: if src.chance(1, 3) { Some(ExpandPathsMode::Safe) } else { None },
    };
    let callback = src.chance(1, 2);
    let at = src.n(6);
    let inner = match src.n(4) {
        0 if depth < 2 => Inner::Call(Box::new(gen_op(src, depth + 1))),
        1 => Inner::Panic,
        _ => Inner::Nothing,
    };
    Op { what, v, lines: l.lines, e, d, callback, at, inner }
}

impl Op {
    fn name(&self) -> String {
        let n = ["encode", "encode_lines", "encode_stream_events", "encode_async", "AsyncEncodeStream", "AsyncEncodeEventStream", "try_decode", "decode", "try_decode_from_lines",
            "try_decode_stream_sync", "AsyncDecodeStream", "try_decode_stream (async)", "json_to_toon", "toon_to_json", "encode_to_toon_lines", "decode_to_json_chunks", "json_stream_from_events"]
            [self.what.clone() as usize];
        let i = match &self.inner {
            _ if !self.callback => String::new(),
            Inner::Nothing => " with a callback".into(),
            Inner::Panic => format!(" whose callback panics at call {}", self.at),
            Inner::Call(o) => format!(" whose callback at call {} makes the call [{}]", self.at, o.name()),
        };
        format!("{n}{i}")
    }
    fn replacer(&self, log: &Arc<Mutex<Vec<String>>>) -> Option<EncodeReplacer> {
        if !self.callback {
            return None;
        }
        let (me, log) = (self.clone(), log.clone());
        let n = Mutex::new(0usize);
        Some(Arc::new(move |k: &str, v: &V, p: &[PathSegment]| {
            let i = {
                let mut n = n.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
                *n += 1;
                *n - 1
            };
            sched::here();
            if i == me.at {
                me.inner_action(&log);
            }
            match hash(k.as_bytes()) % 7 {
                0 if !p.is_empty() => None,
                1 => Some(s(&format!("{i} {p:?}"))),
                _ => Some(v.clone()),
            }
        }))
    }
    fn inner_action(&self, log: &Arc<Mutex<Vec<String>>>) {
        match &self.inner {
            Inner::Nothing => {}
            Inner::Panic => panic!("injected"),
            Inner::Call(o) => {
                let r = o.run();
                log.lock().unwrap_or_else(std::sync::PoisonError::into_inner).push(format!("{r:?}"));
            }
        }
    }
    fn source(&self, log: &Arc<Mutex<Vec<String>>>) -> impl Iterator<Item = String> {
        let (me, log) = (self.clone(), log.clone());
        self.lines.clone().into_iter().enumerate().map(move |(i, l)| {
            if me.callback {
                sched::here();
                if i == me.at {
                    me.inner_action(&log);
                }
            }
            l
        })
    }
    /// The outcome, with the outcomes of calls made inside.
    fn run(&self) -> Outcome {
        self.run_log().0
    }
    fn run_log(&self) -> (Outcome, Vec<String>) {
        let log = Arc::new(Mutex::new(vec![]));
        let r = caught(|| self.call(&log));
        let l = log.lock().unwrap_or_else(std::sync::PoisonError::into_inner).clone();
        let r = match r {
            Ok(t) => Ok(format!("{t} {l:?}")),
            Err(t) => Err(format!("{t} {l:?}")),
        };
        (r, l)
    }
    /// The outcome on a thread of its own, with nothing before it; calls made inside must have had the
    /// outcome they have by themselves.
    fn alone(&self) -> Result<Outcome, String> {
        let (r, l) = fresh(|| self.run_log());
        if let (true, Inner::Call(o)) = (self.callback, &self.inner) {
            let by_itself = format!("{:?}", o.alone()?);
            if let Some(x) = l.iter().find(|x| **x != by_itself) {
                let short = |x: &str| x.chars().take(400).collect::<String>();
                return Err(format!("[{}]: the call made inside gives {} and, made by itself, {}", self.name(), short(x), short(&by_itself)));
            }
        }
        Ok(r)
    }
    fn call(&self, log: &Arc<Mutex<Vec<String>>>) -> Outcome {
        let eo = || Some(EncodeOptions { replacer: self.replacer(log), ..self.e.clone() });
        let d = || Some(self.d.clone());
        let ds = || Some(DecodeStreamOptions { indent: self.d.indent, strict: self.d.strict });
        let v = || self.v.clone();
        let text = || self.lines.join("\n");
        match self.what {
            What::Encode => Ok(toon::encode(v(), eo())),
            What::EncodeLines => Ok(format!("{:?}", toon::encode_lines(v(), eo()))),
            What::EncodeEvents => Ok(format!("{:?}", toon::encode_stream_events(v(), eo()))),
            What::EncodeAsync => er(poll_through(ae::try_encode_async(v(), eo())), |x| x),
            What::LineStream => Ok(format!("{:?}", stream_through(AsyncEncodeStream::new(v(), eo())))),
            What::EventStream => Ok(format!("{:?}", stream_through(AsyncEncodeEventStream::new(v(), eo())))),
            What::Decode => er(toon::try_decode(&text(), d()), |x| bits(&x)),
            What::DecodePanicking => Ok(bits(&toon::decode(&text(), d()))),
            What::DecodeLines => er(toon::try_decode_from_lines(self.source(log), d()), |x| bits(&x)),
            What::DecodeEvents => er(toon::try_decode_stream_sync(self.source(log), ds()), |x| format!("{x:?}")),
            What::DecodeStream => {
                // the source must be Unpin
                let src: Box<dyn Iterator<Item = String>> = Box::new(self.source(log));
                let r: Vec<Result<Ev, toon::error::ToonError>> = stream_through(AsyncDecodeStream::new(src, ds()));
                Ok(format!("{:?}", r.into_iter().map(|x| x.map_err(|e| e.to_string())).collect::<Vec<_>>()))
            }
            What::DecodeAsync => er(poll_through(toon::try_decode_stream(self.source(log), ds())), |x| format!("{x:?}")),
            What::JsonToToon => er(toon::json_to_toon(&json_text(&normal(&self.v), &JsonStyle { pretty: 0, escape: 0, spaces: false })), |x| x),
            What::ToonToJson => er(toon::toon_to_json(&text()), |x| x),
            What::CliEncode => {
                let j = json_text(&normal(&self.v), &JsonStyle { pretty: 2, escape: 0, spaces: true });
                er(conversion::encode_to_toon_lines(&j, eo()), |x| format!("{x:?}"))
            }
            What::CliDecode => er(conversion::decode_to_json_chunks(&text(), d()), |x| x.concat()),
            What::JsonWriter => er(toon::try_decode_stream_sync(self.lines.clone(), ds()).and_then(|e| json_stream_from_events(e, 2)), |x| x.concat()),
        }
    }
}

fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    match std::thread::scope(|s| s.spawn(f).join()) {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Lines of one thread's encode stream are another thread's line source.
fn pipe(v: V, eo: EncodeOptions, indent: usize) -> (Box<dyn FnOnce() + Send>, Box<dyn FnOnce() -> Outcome + Send>) {
    let (tx, rx) = sync_channel::<String>(1);
    let producer = move || {
        let mut st = AsyncEncodeStream::new(v, Some(eo));
        let mut cx = Context::from_waker(std::task::Waker::noop());
        while let Poll::Ready(Some(l)) = Pin::new(&mut st).poll_next(&mut cx) {
            if tx.send(l).is_err() {
                return;
            }
        }
    };
    struct Rx(Receiver<String>);
    impl Iterator for Rx {
        type Item = String;
        fn next(&mut self) -> Option<String> {
            self.0.recv().ok()
        }
    }
    let consumer = move || {
        er(toon::try_decode_from_lines(Rx(rx), Some(DecodeOptions { indent: Some(indent), strict: None, expand_paths: None })), |x| bits(&x))
    };
    (Box::new(producer), Box::new(consumer))
}

pub fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(2, 4);
    let kind = src.n(6);
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let mut outs: Vec<(String, Arc<Mutex<Option<Outcome>>>, Outcome)> = Vec::new();
    let slot = || Arc::new(Mutex::new(None::<Outcome>));
    let mut ops: Vec<(Op, Outcome)> = Vec::new();
    for i in 0..n {
        let op = gen_op(src, 0);
        // sometimes the same call many times, to meet shared caches
        let op = if i > 0 && src.chance(1, 4) { ops[0].0.clone() } else { op };
        ctx.note(|| format!("thread {i}: {}: {} {:?}", op.name(), format!("{:?}", op.v).chars().take(300).collect::<String>(), op.lines).chars().take(900).collect());
        let alone = op.alone()?;
        if matches!(op.inner, Inner::Panic) && op.callback {
            ctx.fault("panic in a callback", 1);
        }
        let o = slot();
        outs.push((op.name(), o.clone(), alone.clone()));
        let p = op.clone();
        ops.push((op, alone));
        // one thread may make its call several times
        let times = if src.chance(1, 6) { src.range(2, 4) } else { 1 };
        tasks.push(Box::new(move || {
            for _ in 0..times {
                let r = p.run();
                let mut o = o.lock().unwrap();
                match &*o {
                    None => *o = Some(r),
                    Some(first) if *first != r => *o = Some(Err(format!("{first:?} and then {r:?}"))),
                    Some(_) => {}
                }
            }
        }));
    }
    if kind == 1 {
        // a pipeline between two threads
        let cfg = GenCfg { nodes: 10, ..GenCfg::default() };
        let v = gen_value(src, &cfg);
        let mut eo = gen_encode_options(src).o;
        eo.indent = Some(2);
        eo.key_folding = None;
        ctx.note(|| format!("a pipeline: {v:?}"));
        let alone = er(toon::try_decode_from_lines(toon::encode_lines(v.clone(), Some(eo.clone())), None), |x| bits(&x));
        let (a, b) = pipe(v, eo, 2);
        let o = slot();
        outs.push(("decode from another thread's encode stream".into(), o.clone(), alone));
        tasks.push(a);
        tasks.push(Box::new(move || {
            let r = caught(b);
            *o.lock().unwrap() = Some(r);
        }));
        ctx.stats.add("pipelines between threads", 1);
    }
    if kind == 2 {
        // two calls each of whose callbacks waits for the other's
        let bar = Arc::new(Barrier::new(2));
        for j in 0..2 {
            let cfg = GenCfg { nodes: 6, ..GenCfg::default() };
            let v = gen_value(src, &cfg);
            let (d, _) = written(src, &v, 2);
            let lines = d.lines;
            let which = src.n(3);
            let o = slot();
            let meet = |b: Option<Arc<Barrier>>| {
                let met = Mutex::new(false);
                move || {
                    let mut m = met.lock().unwrap();
                    if !*m {
                        *m = true;
                        drop(m);
                        if let Some(b) = &b {
                            b.wait();
                        }
                    }
                }
            };
            let job = move |b: Option<Arc<Barrier>>| -> Outcome {
                let f = meet(b);
                match which {
                    0 => er(toon::try_decode_from_lines(lines.clone().into_iter().chain(std::iter::once(String::new())).inspect(|_| f()), None), |x| bits(&x)),
                    1 => {
                        let r: EncodeReplacer = Arc::new(move |_: &str, v: &V, _: &[PathSegment]| {
                            f();
                            Some(v.clone())
                        });
                        Ok(toon::encode(v.clone(), Some(EncodeOptions { indent: None, delimiter: None, key_folding: None, flatten_depth: None, replacer: Some(r) })))
                    }
                    _ => {
                        let it: Box<dyn Iterator<Item = String>> = Box::new(lines.clone().into_iter().chain(std::iter::once(String::new())).inspect(move |_| f()));
                        let r: Vec<Result<Ev, toon::error::ToonError>> = stream_through(AsyncDecodeStream::new(it, None));
                        Ok(format!("{:?}", r.into_iter().map(|x| x.map_err(|e| e.to_string())).collect::<Vec<_>>()))
                    }
                }
            };
            let alone = job(None);
            outs.push((format!("call {j} of two whose callbacks wait for each other"), o.clone(), alone));
            let b = bar.clone();
            tasks.push(Box::new(move || {
                let r = caught(|| job(Some(b)));
                *o.lock().unwrap() = Some(r);
            }));
        }
        ctx.stats.add("rendezvous between callbacks", 1);
    }
    let want = ctx.want_trace;
    let rep = sched::run(src, tasks, want);
    ctx.mark(rep.trace);
    ctx.stats.add("thread switches", rep.switches);
    ctx.stats.add("blocked waits", rep.blocks);
    ctx.fault("preemption", rep.preempt);
    if want {
        ctx.trace.extend(rep.log.iter().take(120).map(|l| format!("  {l}")));
    }
    if rep.deadlock {
        ctx.stuck = true;
        return Err("the calls wait for each other and none can continue".into());
    }
    for (i, (name, o, alone)) in outs.iter().enumerate() {
        let got = o.lock().unwrap().clone().unwrap_or_else(|| Err("no result".into()));
        ctx.see(format!("{got:?}").as_bytes());
        ensure!(got == *alone, "call {i} ({name}) gives {} among the other threads and {} alone", short(&got), short(alone));
    }
    // afterwards, one after another on one thread; sometimes often enough for something to add up
    let rounds = if src.chance(1, 12) { *src.pick(&[3, 9, 20, 40, 70, 130]) } else { 1 };
    for round in 0..rounds {
        for (i, (op, alone)) in ops.iter().enumerate() {
            let again = op.run();
            ensure!(again == *alone, "call {i} ({}) gives {} afterwards (round {round}) and {} before", op.name(), short(&again), short(alone));
        }
    }
    ctx.stats.add("calls repeated afterwards", rounds as u64 * ops.len() as u64);
    Ok(rep.switches > n as u64)
}
fn short(x: &Outcome) -> String {
    format!("{x:?}").chars().take(500).collect()
}

// ---------------------------------------------------------------------------------------------

type Seg = PathSegment;
#[derive(Clone, PartialEq, Debug)]
struct CallLog {
    key: String,
    value: String,
    path: String,
}
/// What the scripted replacer answers to its `i`-th call.
fn answer(seed: u64, rate: u64, i: usize, k: &str, v: &V, depth: usize) -> Option<V> {
    let h = mix(seed, mix(i as u64, hash(k.as_bytes())));
    if h % 16 >= rate {
        return Some(v.clone());
    }
    match (h >> 8) % 10 {
        0..=2 => None,
        3 => Some(s(&format!("r{i}"))),
        4 => Some(V::from(f64::NAN)),
        5 => Some(V::Primitive(P::Number(-0.0))),
        6 if depth < 4 => Some(V::Object(vec![("n".into(), V::from(i as f64)), ("a.b".into(), V::Primitive(P::Number(f64::INFINITY))), ("z".into(), V::Array(vec![V::from(-0.0), s("")]))])),
        7 if depth < 4 => Some(V::Array(vec![v.clone(), V::Primitive(P::Number(f64::NEG_INFINITY))])),
        8 => Some(V::Array(vec![])),
        _ => Some(V::Object(vec![])),
    }
}
struct Model {
    seed: u64,
    rate: u64,
    n: usize,
    log: Vec<CallLog>,
}
impl Model {
    fn ask(&mut self, k: &str, v: &V, p: &[Seg]) -> Option<V> {
        let i = self.n;
        self.n += 1;
        self.log.push(CallLog { key: k.into(), value: bits(v), path: format!("{p:?}") });
        answer(self.seed, self.rate, i, k, v, p.len())
    }
    fn root(&mut self, v: &V) -> V {
        let v = normal(v);
        let r = match self.ask("", &v, &[]) {
            Some(x) => normal(&x),
            None => v,
        };
        self.children(r, &[])
    }
    fn children(&mut self, v: V, p: &[Seg]) -> V {
        match v {
            V::Primitive(_) => v,
            V::Object(o) => {
                let mut out = vec![];
                for (k, x) in o {
                    let mut q = p.to_vec();
                    q.push(Seg::Key(k.clone()));
                    if let Some(y) = self.ask(&k, &x, &q) {
                        let y = self.children(normal(&y), &q);
                        out.push((k, y));
                    }
                }
                V::Object(out)
            }
            V::Array(a) => {
                let mut out = vec![];
                for (i, x) in a.into_iter().enumerate() {
                    let mut q = p.to_vec();
                    q.push(Seg::Index(i));
                    if let Some(y) = self.ask(&i.to_string(), &x, &q) {
                        out.push(self.children(normal(&y), &q));
                    }
                }
                V::Array(out)
            }
        }
    }
}

#[derive(Clone)]
enum Got {
    Text(String),
    Lines(Vec<String>),
    Events(Vec<Ev>),
}
const ENTRIES: &[&str] = &[
    "encode",
    "encode_lines",
    "encode_stream_events",
    "AsyncEncodeStream::new",
    "AsyncEncodeStream::try_new",
    "AsyncEncodeEventStream::new",
    "AsyncEncodeEventStream::try_new",
    "encode_async",
    "try_encode_async",
    "encode_lines_async",
    "try_encode_lines_async",
    "encode_events_async",
    "try_encode_events_async",
    "encode_to_toon_lines",
];
/// `json`: the text the JSON entry point reads instead of the value.
fn enter(which: usize, v: V, json: &str, o: Option<EncodeOptions>) -> Got {
    let e = |e: toon::error::ToonError| -> String { format!("error: {e}") };
    match which {
        0 => Got::Text(toon::encode(v, o)),
        1 => Got::Lines(toon::encode_lines(v, o)),
        2 => Got::Events(toon::encode_stream_events(v, o)),
        3 => Got::Lines(stream_through(AsyncEncodeStream::new(v, o))),
        4 => match AsyncEncodeStream::try_new(v, o) {
            Ok(s) => Got::Lines(stream_through(s)),
            Err(x) => Got::Text(e(x)),
        },
        5 => Got::Events(stream_through(AsyncEncodeEventStream::new(v, o))),
        6 => match AsyncEncodeEventStream::try_new(v, o) {
            Ok(s) => Got::Events(stream_through(s)),
            Err(x) => Got::Text(e(x)),
        },
        7 => Got::Text(poll_through(ae::encode_async(v, o))),
        8 => Got::Text(poll_through(ae::try_encode_async(v, o)).unwrap_or_else(e)),
        9 => Got::Lines(poll_through(ae::encode_lines_async(v, o))),
        10 => match poll_through(ae::try_encode_lines_async(v, o)) {
            Ok(l) => Got::Lines(l),
            Err(x) => Got::Text(e(x)),
        },
        11 => Got::Events(poll_through(ae::encode_events_async(v, o))),
        12 => match poll_through(ae::try_encode_events_async(v, o)) {
            Ok(l) => Got::Events(l),
            Err(x) => Got::Text(e(x)),
        },
        _ => match conversion::encode_to_toon_lines(json, o) {
            Ok(l) => Got::Lines(l),
            Err(x) => Got::Text(e(x)),
        },
    }
}

/// All encode entry points, given the same value.
pub fn c24(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = gen_any(src);
    let mut eo = gen_encode_options(src);
    let none = src.chance(1, 4);
    if none {
        eo.o = EncodeOptions { indent: None, delimiter: None, key_folding: None, flatten_depth: None, replacer: None };
    }
    let script = if !none && src.chance(1, 4) { Some((src.word(), *src.pick(&[1u64, 4, 8]))) } else { None };
    ctx.note(|| format!("{} replacer {script:x?} value {v:?}", if none { "default options" } else { &eo.text }).chars().take(3000).collect());
    let opts = || {
        let mut o = eo.o.clone();
        if let Some((seed, rate)) = script {
            let n = std::sync::atomic::AtomicUsize::new(0);
            o.replacer = Some(Arc::new(move |k: &str, v: &V, p: &[Seg]| answer(seed, rate, n.fetch_add(1, std::sync::atomic::Ordering::SeqCst), k, v, p.len())));
        }
        (!none).then_some(o)
    };
    let tree_of = |v: &V| match script {
        None => normal(v),
        Some((seed, rate)) => Model { seed, rate, n: 0, log: vec![] }.root(v),
    };
    let fold = eo.o.key_folding == Some(KeyFoldingMode::Safe);
    let o = EncOpts { indent: eo.o.indent.unwrap_or(2), delim: eo.o.delimiter.unwrap_or(','), fold, flatten: eo.o.flatten_depth.unwrap_or(usize::MAX) };
    let tree = tree_of(&v);
    let twice = repeats_a_key(&tree);
    let want = if twice { toon::encode_lines(v.clone(), opts()) } else { enc::encode(&tree, &o) };
    let mut events = vec![];
    events_of(&tree, &mut events, &|k| !bare_key(k));
    let check = |name: &str, g: &Got, want: &[String], events: &[Ev]| -> Result<(), String> {
        match g {
            Got::Events(e) => ensure!(same_events(e, events), "{name} gives other events than describe the value: {e:?} instead of {events:?}"),
            Got::Text(t) => ensure!(*t == want.join("\n"), "{name} gives {t:?} where the document is {want:?}"),
            Got::Lines(l) => ensure!(l == want, "{name} gives {l:?} where the document is {want:?}"),
        }
        Ok(())
    };
    let first = src.n(ENTRIES.len());
    let long = events.len() > 4000;
    for i in 0..if long { 2 } else { 6 } {
        let w = (first + i) % (ENTRIES.len() - 1);
        let g = enter(w, v.clone(), "", opts());
        check(ENTRIES[w], &g, &want, &events)?;
    }
    ctx.see(want.join("\n").as_bytes());
    // the asynchronous ones again, under one schedule
    let got: Vec<Arc<Mutex<Option<Got>>>> = (0..5).map(|_| Arc::new(Mutex::new(None))).collect();
    let mut tasks: Vec<Task<'_>> = vec![];
    for (i, g) in got.iter().enumerate().take(if long { 0 } else { 5 }) {
        let (v, o, g) = (v.clone(), opts(), g.clone());
        let mut f: Pin<Box<dyn Future<Output = Got> + Send>> = match i {
            0 => Box::pin(async move { Got::Text(ae::encode_async(v, o).await) }),
            1 => Box::pin(async move { Got::Lines(ae::encode_lines_async(v, o).await) }),
            2 => Box::pin(async move { Got::Events(ae::encode_events_async(v, o).await) }),
            3 => {
                let mut st = AsyncEncodeStream::new(v, o);
                let mut out = vec![];
                Box::pin(std::future::poll_fn(move |cx| match Pin::new(&mut st).poll_next(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Some(x)) => {
                        out.push(x);
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    Poll::Ready(None) => Poll::Ready(Got::Lines(std::mem::take(&mut out))),
                }))
            }
            _ => {
                let mut st = AsyncEncodeEventStream::new(v, o);
                let mut out = vec![];
                Box::pin(std::future::poll_fn(move |cx| match Pin::new(&mut st).poll_next(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Some(x)) => {
                        out.push(x);
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    Poll::Ready(None) => Poll::Ready(Got::Events(std::mem::take(&mut out))),
                }))
            }
        };
        let mut t = Task::new(["encode_async", "encode_lines_async", "encode_events_async", "the line stream", "the event stream"][i], move |cx| match f.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(x) => {
                *g.lock().unwrap() = Some(x);
                Poll::Ready(Now::Done)
            }
        });
        if src.chance(1, 6) {
            t.cancel_at = Some(src.n(8));
        }
        tasks.push(t);
    }
    drive(src, ctx, &mut tasks, 200 + 4 * (want.len() + events.len()))?;
    for (t, g) in tasks.iter().zip(&got) {
        if let Some(g) = &*g.lock().unwrap() {
            check(&t.name, g, &want, &events)?;
        } else {
            ensure!(t.cancelled, "{} ended without a result", t.name);
        }
    }
    drop(tasks);
    // what is written reads back as what the events describe
    if !fold && !twice && (o.indent > 0 || !crate::case::needs_indent(&tree)) {
        let r = toon::try_decode_stream_sync(want.clone(), Some(DecodeStreamOptions { indent: Some(o.indent), strict: Some(src.chance(3, 4)) }));
        let mut w = vec![];
        events_of(&crate::dec::canonical_order(&tree), &mut w, &|k| !bare_key(k));
        match r {
            Ok(e) => ensure!(same_events(&e, &w), "decoding the document {want:?} gives {e:?} instead of {w:?}"),
            Err(e) => return Err(format!("the document {want:?} is refused: {e}")),
        }
        ctx.stats.add("documents read back", 1);
    }
    // the value as a JSON text
    let style = gen_json_style(src);
    let json = json_text(&v, &style);
    if !twice && !repeats_a_key(&v) {
        if let Some(j) = parse_json(&json) {
            let g = enter(13, v.clone(), &json, opts());
            let t = tree_of(&j);
            if !repeats_a_key(&t) {
                check(ENTRIES[13], &g, &enc::encode(&t, &o), &[])?;
            }
            let plain = enc::encode(&normal(&j), &EncOpts::default());
            match toon::json_to_toon(&json) {
                Ok(t) => ensure!(t == plain.join("\n"), "json_to_toon gives {t:?} where the document is {plain:?}"),
                Err(e) => return Err(format!("json_to_toon refuses {json:?}: {e}")),
            }
            if script.is_none() && src.chance(1, 40) {
                let mut x = crate::os::Exec { args: vec!["-e".into(), format!("--indent={}", o.indent)], stdin: json.clone().into_bytes(), ..crate::os::Exec::default() };
                x.args.push(format!("--delimiter={}", o.delim));
                if fold {
                    x.args.push("--key-folding=safe".into());
                    if let Some(d) = eo.o.flatten_depth {
                        x.args.push(format!("--flatten-depth={d}"));
                    }
                }
                crate::os::transient(src, &mut x);
                x.lat_max = 0;
                let r = ctx.exec(&x);
                let w = enc::encode(&normal(&j), &o).join("\n") + "\n";
                ensure!(r.status == 0 && r.stdout == w.as_bytes(), "the program gives {} and {} where the document is {w:?}", r.describe(), crate::os::show(&r.stdout));
            }
        }
    }
    // the same value but for a few letters, right after it
    if script.is_none() && !twice && src.chance(1, 4) && !long {
        let (a, b) = super::data::twin_marks(src);
        let mut va = v.clone();
        super::data::place_mark(src, &mut va, &a);
        let ja = json_text(&va, &JsonStyle { pretty: src.n(4), escape: 0, spaces: false });
        if ja.matches(&a).count() == 1 && !ja.contains(&b) && !repeats_a_key(&va) && crate::enc::is_ident(&a) {
            let vb = super::data::substitute(&va, &a, &b);
            let (ta, tb) = (normal(&va), normal(&vb));
            let docs = [enc::encode(&ta, &o), enc::encode(&tb, &o)];
            let mut evs = [vec![], vec![]];
            events_of(&ta, &mut evs[0], &|k| !bare_key(k));
            events_of(&tb, &mut evs[1], &|k| !bare_key(k));
            let texts = [ja.clone(), ja.replace(&a, &b)];
            let mut turn = src.n(2);
            for _ in 0..4 {
                let w = src.n(ENTRIES.len() + 1);
                for _ in 0..src.range(1, 2) {
                    turn = 1 - turn;
                    if w < ENTRIES.len() - 1 {
                        let g = enter(w, if turn == 0 { va.clone() } else { vb.clone() }, "", opts());
                        check(ENTRIES[w], &g, &docs[turn], &evs[turn])?;
                        continue;
                    }
                    let Some(j) = parse_json(&texts[turn]) else { break };
                    if repeats_a_key(&j) {
                        break;
                    }
                    if w < ENTRIES.len() {
                        let g = enter(w, V::Primitive(P::Null), &texts[turn], opts());
                        check(ENTRIES[w], &g, &enc::encode(&normal(&j), &o), &[])?;
                    } else {
                        let plain = enc::encode(&normal(&j), &EncOpts::default()).join("\n");
                        let t = toon::json_to_toon(&texts[turn]).map_err(|e| e.to_string());
                        ensure!(t.as_ref() == Ok(&plain), "json_to_toon gives {t:?} for {:?}, asked before for the same but for {a} and {b}", texts[turn]);
                    }
                }
            }
            ctx.stats.add("pairs of values that differ in a few letters", 1);
        }
    }
    Ok(want.len() > 1)
}

pub fn c17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = GenCfg { nodes: *src.pick(&[8, 20, 40]), ..GenCfg::default() };
    let v = gen_value(src, &cfg);
    let eo = gen_encode_options(src);
    let seed = src.word();
    let rate = *src.pick(&[0, 1, 4, 8, 16]);
    ctx.note(|| format!("{} replacer {seed:#x} rate {rate}/16 value {v:?}", eo.text));
    // entry points see the same script; the JSON entry point reads the value from text
    let which = src.n(ENTRIES.len());
    let json = json_text(&v, &JsonStyle { pretty: 0, escape: 0, spaces: false });
    let v = if which == 13 { parse_json(&json).unwrap_or(s("x")) } else { v };
    let v = if which != 13 && src.chance(1, 4) {
        let mut v = v;
        odd_numbers(src, &mut v);
        v
    } else {
        v
    };
    let mut m = Model { seed, rate, n: 0, log: vec![] };
    let tree = m.root(&v);
    let log: Arc<Mutex<Vec<CallLog>>> = Arc::new(Mutex::new(vec![]));
    let panic_at: Arc<Mutex<Option<usize>>> = Arc::new(Mutex::new(None));
    let nested = if src.chance(1, 6) { Some(src.n(m.n)) } else { None };
    let nested_bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let r: EncodeReplacer = {
        let (log, panic_at, bad) = (log.clone(), panic_at.clone(), nested_bad.clone());
        Arc::new(move |k: &str, v: &V, p: &[Seg]| {
            let i = {
                let mut l = log.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
                l.push(CallLog { key: k.into(), value: bits(v), path: format!("{p:?}") });
                l.len() - 1
            };
            if *panic_at.lock().unwrap_or_else(std::sync::PoisonError::into_inner) == Some(i) {
                std::panic::panic_any(format!("injected {i}"));
            }
            if nested == Some(i) {
                // an encoder call from inside the replacer
                let r2: EncodeReplacer = Arc::new(|k: &str, v: &V, _: &[Seg]| if k == "1" { None } else { Some(v.clone()) });
                let t = toon::encode(
                    V::Array(vec![s("a"), s("b"), s("c")]),
                    Some(EncodeOptions { indent: None, delimiter: None, key_folding: None, flatten_depth: None, replacer: Some(r2) }),
                );
                if t != "[2]: a,c" {
                    *bad.lock().unwrap() = Some(t);
                }
            }
            answer(seed, rate, i, k, v, p.len())
        })
    };
    let opts = EncodeOptions { replacer: Some(r), ..eo.o.clone() };
    let fold = eo.o.key_folding == Some(KeyFoldingMode::Safe);
    let o = EncOpts { indent: eo.o.indent.unwrap_or(2), delim: eo.o.delimiter.unwrap_or(','), fold, flatten: eo.o.flatten_depth.unwrap_or(usize::MAX) };
    let name = ENTRIES[which];
    let check = |g: &Got| -> Result<(), String> {
        match g {
            Got::Events(e) => {
                let mut w = vec![];
                events_of(&tree, &mut w, &|k| !bare_key(k));
                ensure!(same_events(e, &w), "{name} gives other events than the replacer's answers: {e:?} instead of {w:?}");
            }
            Got::Text(t) => {
                let w = enc::encode(&tree, &o).join("\n");
                ensure!(*t == w, "{name} gives {t:?} instead of the encoding of the replacer's answers, {w:?}");
            }
            Got::Lines(l) => {
                let w = enc::encode(&tree, &o);
                ensure!(*l == w, "{name} gives {l:?} instead of the encoding of the replacer's answers, {w:?}");
            }
        }
        Ok(())
    };
    let calls = |l: &[CallLog], want: &[CallLog]| -> Result<(), String> {
        let i = l.iter().zip(want).take_while(|(a, b)| a == b).count();
        ensure!(l == want, "{name}: call {i} of the replacer is {:?} instead of {:?} ({} calls, {} due)", l.get(i), want.get(i), l.len(), want.len());
        Ok(())
    };
    let take = || std::mem::take(&mut *log.lock().unwrap_or_else(std::sync::PoisonError::into_inner));
    // one panicking call
    if src.chance(1, 2) {
        let k = src.n(m.n);
        *panic_at.lock().unwrap() = Some(k);
        let (v2, o2) = (v.clone(), opts.clone());
        let r = catch_unwind(AssertUnwindSafe(|| enter(which, v2, &json, Some(o2))));
        ctx.fault("panic in the replacer", 1);
        *panic_at.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = None;
        match r {
            Ok(_) => return Err(format!("{name} returned although its replacer panicked at call {k}")),
            Err(p) => ensure!(text_of(&*p) == format!("injected {k}"), "{name}: the replacer's panic reached the caller as {:?}", text_of(&*p)),
        }
        calls(&take(), &m.log[..=k])?;
    }
    let g = enter(which, v.clone(), &json, Some(opts.clone()));
    ctx.see(
        match &g {
            Got::Text(t) => t.clone(),
            Got::Lines(l) => l.join("\n"),
            Got::Events(e) => format!("{e:?}"),
        }
        .as_bytes(),
    );
    calls(&take(), &m.log)?;
    check(&g)?;
    if let Some(t) = nested_bad.lock().unwrap().clone() {
        return Err(format!("an encode call from inside the replacer gave {t:?}"));
    }
    // dropped half-way, an async stream has made no further calls
    ctx.mark(mix(seed, mix(which as u64, m.n as u64)));
    ctx.stats.add("replacer calls", m.n as u64);
    Ok(m.n > 1)
}
fn odd_numbers(src: &mut Src, v: &mut V) {
    match v {
        V::Primitive(P::Number(n)) => {
            if src.chance(1, 2) {
                *n = *src.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]);
            }
        }
        V::Primitive(_) => {}
        V::Array(a) => a.iter_mut().for_each(|x| odd_numbers(src, x)),
        V::Object(o) => o.iter_mut().for_each(|(_, x)| odd_numbers(src, x)),
    }
}
