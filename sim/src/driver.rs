//! Runs a property over many seeds in several processes, minimises and reports what fails.

use crate::ctx::{Ctx, Stats};
use crate::props::{self, Prop};
use crate::tape::{self, hash, mix, Src};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Outcome {
    Held(bool),
    Violated(String),
    Harness(String),
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_else(|| "?".into());
        if let Ok(mut p) = PANIC.try_lock() {
            *p = Some((at, what));
        }
    }));
}

/// One evaluation: a pure function of the tape, in a thread of its own.
pub fn evaluate(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    ctx.prepare(p.needs_os);
    ctx.begin();
    let f = p.run;
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                crate::sched::set_rand(0x5eed);
                f(src, ctx)
            })
            .expect("spawn")
            .join()
    });
    match r {
        Ok(Ok(nontrivial)) => {
            if nontrivial {
                let k = mix(ctx.shape, mix(ctx.digest, hash(&src.rec.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>())));
                ctx.stats.cases.insert(k);
            }
            Outcome::Held(nontrivial)
        }
        Ok(Err(m)) => Outcome::Violated(m),
        Err(_) => {
            let (at, what) = PANIC.lock().expect("lock").take().unwrap_or_default();
            if at.contains("sim/src/") {
                Outcome::Harness(format!("{what} at {at}"))
            } else {
                Outcome::Violated(format!("panicked at {at}: {what}"))
            }
        }
    }
}

fn seed_of(p: &Prop, seed: u64, idx: u64) -> u64 {
    mix(mix(seed, hash(p.id.as_bytes())), idx)
}

extern "C" {
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn dup2(a: i32, b: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
const SHFD: i32 = 190;
/// Shared between the driver and its workers: slot 0 is the lowest violating run so far, slot 1 + w the
/// run worker w is in.
struct Shared(*const AtomicU64);
impl Shared {
    fn map(fd: i32) -> Self {
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, fd, 0) };
        assert!(p as isize != -1);
        Self(p.cast())
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}

/// Long texts are cut where they only illustrate.
fn shorten(l: &str) -> String {
    if l.chars().count() <= 600 {
        return l.to_string();
    }
    let s: String = l.chars().take(600).collect();
    format!("{s} ... ({} bytes)", l.len())
}

pub fn worker(p: &Prop, thorough: bool, seed: u64, w: u64, nw: u64, runs: u64, secs: u64) {
    quiet_panics();
    let sh = Shared::map(SHFD);
    let t0 = Instant::now();
    let mut ctx = Ctx::new(thorough);
    let mut ctx2 = Ctx::new(thorough);
    let mut out = std::io::stdout().lock();
    let (mut done, mut nontrivial, mut again, mut differ) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut result = json!(null);
    let mut ran_out = false;
    let mut idx = w;
    while idx < runs {
        if sh.at(0).load(SeqCst) < idx {
            break;
        }
        if t0.elapsed().as_secs() >= secs {
            ran_out = true;
            break;
        }
        sh.at(1 + w as usize).store(idx + 1, SeqCst);
        let mut src = Src::from_seed(seed_of(p, seed, idx));
        ctx.want_trace = idx < 2 * nw;
        let began = Instant::now();
        let r = evaluate(p, &mut src, &mut ctx);
        done += 1;
        let e = ctx.stats.n.entry("most milliseconds in one run".into()).or_insert(0);
        *e = (*e).max(began.elapsed().as_millis() as u64);
        match r {
            Outcome::Held(nt) => {
                nontrivial += u64::from(nt);
                if idx < 2 * nw && nt && samples.is_empty() {
                    let t: Vec<String> = ctx.trace.iter().take(40).map(|l| shorten(l)).collect();
                    samples.push(json!({"run": idx, "choices": src.rec.len(), "trace": t}));
                }
                if done % 61 == 0 {
                    // the same choices must give the same execution
                    let (d, s) = (ctx.digest, ctx.shape);
                    let tape = src.rec.clone();
                    let mut src = Src::from_tape(tape);
                    let _ = evaluate(p, &mut src, &mut ctx2);
                    again += 1;
                    differ += u64::from((ctx2.digest, ctx2.shape) != (d, s));
                }
            }
            Outcome::Violated(m) => {
                sh.at(0).fetch_min(idx, SeqCst);
                result = json!({"violation": m, "idx": idx, "tape": src.rec});
                break;
            }
            Outcome::Harness(m) => {
                result = json!({"harness": m, "idx": idx});
                break;
            }
        }
        idx += nw;
    }
    let n: serde_json::Map<String, Value> = ctx.stats.n.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
    let cov: String = crate::sched::coverage().iter().map(|b| if *b != 0 { '1' } else { '0' }).collect();
    let d: Vec<u64> = ctx.stats.distinct.iter().copied().collect();
    let c: Vec<u64> = ctx.stats.cases.iter().copied().collect();
    let rep = json!({"done": done, "nontrivial": nontrivial, "again": again, "differ": differ, "samples": samples, "result": result, "ran_out": ran_out,
        "n": n, "cov": cov, "distinct": d, "cases": c});
    let _ = writeln!(out, "{rep}");
    let _ = out.flush();
    // threads of a deadlocked run may still be around
    unsafe { _exit(0) };
}
extern "C" {
    fn _exit(code: i32) -> !;
}

/// Replays tapes on request: a fresh process, so that a run that kills the process can be told apart.
pub fn serve(p: &Prop, thorough: bool) {
    quiet_panics();
    let mut ctx = Ctx::new(thorough);
    let mut inp = std::io::stdin().lock();
    let mut out = std::io::stdout();
    loop {
        let mut h = [0u8; 8];
        if inp.read_exact(&mut h).is_err() {
            unsafe { _exit(0) };
        }
        let n = u32::from_le_bytes([h[0], h[1], h[2], h[3]]) as usize;
        let trace = h[4] != 0;
        let mut b = vec![0u8; n * 8];
        if inp.read_exact(&mut b).is_err() {
            unsafe { _exit(0) };
        }
        let t: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().expect("8"))).collect();
        ctx.want_trace = trace;
        ctx.stuck = false;
        let mut src = Src::from_tape(t);
        let r = evaluate(p, &mut src, &mut ctx);
        let (kind, msg) = match r {
            Outcome::Held(_) => ("held", String::new()),
            Outcome::Violated(m) => ("violated", m),
            Outcome::Harness(m) => ("harness", m),
        };
        let rep = json!({"kind": kind, "msg": msg, "digest": format!("{:016x}{:016x}", ctx.digest, ctx.shape), "rec": src.rec,
            "trace": if trace { ctx.trace.clone() } else { vec![] }});
        let _ = writeln!(out, "{rep}");
        let _ = out.flush();
        if ctx.stuck {
            unsafe { _exit(0) };
        }
    }
}

pub struct Replayer {
    prop: &'static str,
    tier: &'static str,
    child: Option<(Child, ChildStdin, std::sync::mpsc::Receiver<Option<String>>)>,
}
#[derive(Debug)]
pub struct Reply {
    pub violated: bool,
    pub msg: String,
    pub rec: Vec<u64>,
    pub trace: Vec<String>,
    pub digest: String,
}
impl Replayer {
    pub fn new(p: &Prop, thorough: bool) -> Self {
        Self { prop: p.id, tier: if thorough { "thorough" } else { "quick" }, child: None }
    }
    fn start(&mut self) {
        let mut c = self_cmd()
            .args(["serve", self.prop, self.tier])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start");
        let i = c.stdin.take().expect("stdin");
        let o = c.stdout.take().expect("stdout");
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                if l.map(|l| tx.send(Some(l))).is_err() {
                    return;
                }
            }
            let _ = tx.send(None);
        });
        self.child = Some((c, i, rx));
    }
    fn stop(&mut self) -> String {
        let Some((mut c, i, _)) = self.child.take() else { return String::new() };
        drop(i);
        let _ = c.kill();
        death(c.wait().ok())
    }
    /// Run a tape. A process that dies or does not answer is a violation too.
    pub fn ask(&mut self, tape: &[u64], trace: bool, patience: Duration) -> Reply {
        if self.child.as_mut().is_none_or(|(c, _, _)| !matches!(c.try_wait(), Ok(None))) {
            self.stop();
            self.start();
        }
        let mut msg = Vec::with_capacity(8 + tape.len() * 8);
        msg.extend_from_slice(&(tape.len() as u32).to_le_bytes());
        msg.extend_from_slice(&[u8::from(trace), 0, 0, 0]);
        for v in tape {
            msg.extend_from_slice(&v.to_le_bytes());
        }
        let (_, i, rx) = self.child.as_mut().expect("child");
        let sent = i.write_all(&msg).is_ok() && i.flush().is_ok();
        let dead = |msg: String| Reply { violated: true, msg, rec: tape.to_vec(), trace: vec![], digest: String::new() };
        if !sent {
            self.stop();
            return Reply { violated: false, msg: "restart".into(), rec: vec![], trace: vec![], digest: String::new() };
        }
        match rx.recv_timeout(patience) {
            Ok(Some(l)) => {
                let v: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
                Reply {
                    violated: v["kind"] == "violated",
                    msg: v["msg"].as_str().unwrap_or("").to_string(),
                    rec: v["rec"].as_array().map(|a| a.iter().filter_map(Value::as_u64).collect()).unwrap_or_default(),
                    trace: v["trace"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
                    digest: v["digest"].as_str().unwrap_or("").to_string(),
                }
            }
            Ok(None) | Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                let (mut c, i, _) = self.child.take().expect("child");
                drop(i);
                let how = death(c.wait().ok());
                dead(format!("the process died: {how}"))
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                self.stop();
                dead("the run did not end".into())
            }
        }
    }
}
impl Drop for Replayer {
    fn drop(&mut self) {
        self.stop();
    }
}
fn death(s: Option<std::process::ExitStatus>) -> String {
    s.map_or_else(
        || "unknown".into(),
        |s| match s.signal() {
            Some(6) => "aborted (SIGABRT)".into(),
            Some(11) => "stack overflow or memory fault (SIGSEGV)".into(),
            Some(24) => "more basic blocks executed than an input of this size accounts for".into(),
            Some(n) => format!("signal {n}"),
            None => format!("exit {}", s.code().unwrap_or(-1)),
        },
    )
}
fn self_cmd() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    unsafe {
        c.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    c
}

fn verif() -> std::path::PathBuf {
    std::env::var_os("TOONSIM_VERIF").map_or_else(|| "/verif".into(), Into::into)
}

/// Prints the listed defects of this property that still show, by executing their input.
fn known_findings(p: &Prop, thorough: bool) {
    let Ok(t) = std::fs::read_to_string(verif().join("known-findings.txt")) else { return };
    let tag = format!("finding: property={} ", p.id);
    for l in t.lines().filter_map(|l| l.strip_prefix(&tag)) {
        let v: Value = serde_json::from_str(l).unwrap_or(Value::Null);
        let text = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let mut ctx = Ctx::new(thorough);
        ctx.prepare(true);
        let args = v["args"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        let o = ctx.exec(&crate::os::Exec { args, stdin: text("stdin").into_bytes(), ..Default::default() });
        if o.ok() && o.stdout == text("fails").into_bytes() {
            println!("KNOWN-FINDING: property={} {}", p.id, text("what"));
        }
    }
}

const HANG: Duration = Duration::from_secs(60);
/// How long a run that did not end is given when it is repeated, alone.
const CONFIRM: Duration = Duration::from_secs(150);

/// Exit code of the check.
pub fn check(p: &'static Prop, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let nw = std::env::var("TOONSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8u64);
    let runs = std::env::var("TOONSIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let secs = if thorough { 780 } else { 300 };
    let fd = unsafe { memfd_create(c"toonsim".as_ptr(), 0) };
    assert!(fd >= 0 && unsafe { ftruncate(fd, 4096) } == 0);
    let sh = Shared::map(fd);
    sh.at(0).store(u64::MAX, SeqCst);
    println!("toonsim {} {}: {} simulated runs from seed {seed} in {nw} processes", p.id, if thorough { "thorough" } else { "quick" }, runs);
    known_findings(p, thorough);
    let mut kids = Vec::new();
    for w in 0..nw {
        let mut c = self_cmd();
        c.args(["worker", p.id, if thorough { "thorough" } else { "quick" }, &seed.to_string(), &w.to_string(), &nw.to_string(), &runs.to_string(), &secs.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        unsafe {
            c.pre_exec(move || {
                dup2(fd, SHFD);
                Ok(())
            });
        }
        let mut c = c.spawn().expect("start a worker");
        let mut o = c.stdout.take().expect("stdout");
        let h = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = o.read_to_string(&mut s);
            s
        });
        kids.push((c, Some(h), 0u64, Instant::now(), None::<String>, None::<std::process::ExitStatus>));
    }
    // wait, watching for runs that never end
    loop {
        let mut open = 0;
        for (w, k) in kids.iter_mut().enumerate() {
            if k.5.is_some() {
                continue;
            }
            if let Ok(Some(st)) = k.0.try_wait() {
                k.5 = Some(st);
                k.4 = k.1.take().and_then(|h| h.join().ok());
                continue;
            }
            open += 1;
            let at = sh.at(1 + w).load(SeqCst);
            if at != k.2 {
                k.2 = at;
                k.3 = Instant::now();
            } else if at > 0 && k.3.elapsed() > HANG {
                let _ = k.0.kill();
                sh.at(0).fetch_min(at - 1, SeqCst);
            }
        }
        if open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut stats = Stats::default();
    let (mut done, mut nontrivial, mut again, mut differ) = (0, 0, 0, 0);
    let mut samples: Vec<Value> = vec![];
    let mut cov: Vec<u8> = vec![];
    let mut ran_out = false;
    let mut found: Option<(u64, Vec<u64>, String)> = None;
    let mut harness = None;
    let mut better = |idx: u64, tape: Vec<u64>, m: String| {
        if found.as_ref().is_none_or(|f| idx < f.0) {
            found = Some((idx, tape, m));
        }
    };
    for (w, k) in kids.iter().enumerate() {
        let v: Option<Value> = k.4.as_deref().and_then(|s| serde_json::from_str(s.trim()).ok());
        let Some(v) = v else {
            // the process died in the middle of a run, or was stopped because the run did not end
            let at = sh.at(1 + w).load(SeqCst);
            if at == 0 {
                harness = Some(format!("worker {w} did not start: {}", death(k.5)));
            } else {
                better(at - 1, vec![], format!("the process died: {}", death(k.5)));
            }
            continue;
        };
        let g = |n: &str| v[n].as_u64().unwrap_or(0);
        done += g("done");
        nontrivial += g("nontrivial");
        again += g("again");
        differ += g("differ");
        ran_out |= v["ran_out"] == true;
        if let Some(a) = v["samples"].as_array() {
            samples.extend(a.iter().cloned());
        }
        if let Some(o) = v["n"].as_object() {
            for (k, n) in o {
                let n = n.as_u64().unwrap_or(0);
                if k.starts_with("most ") {
                    let e = stats.n.entry(k.clone()).or_insert(0);
                    *e = n.max(*e);
                } else {
                    stats.add(k, n);
                }
            }
        }
        for (name, set) in [("distinct", &mut stats.distinct), ("cases", &mut stats.cases)] {
            if let Some(a) = v[name].as_array() {
                set.extend(a.iter().filter_map(Value::as_u64));
            }
        }
        let c = v["cov"].as_str().unwrap_or("").as_bytes();
        if cov.len() < c.len() {
            cov.resize(c.len(), b'0');
        }
        for (a, b) in cov.iter_mut().zip(c) {
            if *b == b'1' {
                *a = b'1';
            }
        }
        let r = &v["result"];
        if let Some(m) = r["violation"].as_str() {
            let tape = r["tape"].as_array().map(|a| a.iter().filter_map(Value::as_u64).collect()).unwrap_or_default();
            better(r["idx"].as_u64().unwrap_or(0), tape, m.to_string());
        }
        if let Some(m) = r["harness"].as_str() {
            harness = Some(m.to_string());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let (Some(m), None) = (&harness, &found) {
        println!("error in the simulator: {m}");
        return 3;
    }
    let mut code = 0;
    if let Some((idx, tape, msg)) = found {
        code = report(p, thorough, seed, idx, tape, msg);
    }
    let violations = u64::from(code != 0);
    // evidence
    let rate = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    let faults: serde_json::Map<String, Value> =
        stats.n.iter().filter_map(|(k, v)| k.strip_prefix("fault ").map(|k| (k.to_string(), json!(v)))).collect();
    let counts: serde_json::Map<String, Value> =
        stats.n.iter().filter(|(k, _)| !k.starts_with("fault ") && *k != "simulated nanoseconds").map(|(k, v)| (k.clone(), json!(v))).collect();
    samples.sort_by_key(|s| s["run"].as_u64());
    samples.truncate(3);
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
        "assumptions": p.assumes,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": stats.cases.len(),
            "rule": p.rule,
            "samples": samples,
            "nontrivial_runs": nontrivial,
            "runs_requested": runs,
            "stopped_by_time_limit": ran_out,
            "simulated_runs_per_hour": rate(done),
            "runs_per_seed": "one: every run has its own seed, derived from the given one and the run's number",
            "simulated_seconds_covered": stats.n.get("simulated nanoseconds").copied().unwrap_or(0) as f64 / 1e9,
            "faults_injected": faults,
            "counters": counts,
            "distinct_interleavings_or_executions": stats.distinct.len(),
            "distinct_measure": p.measure,
            "re_executed_for_determinism": again,
            "re_executions_that_differed": differ,
            "library_basic_blocks_reached_in_process": cov.iter().filter(|b| **b == b'1').count(),
            "library_basic_blocks_in_process": cov.len().saturating_sub(1),
            "real_components": p.real,
            "stubbed_components": p.stub,
        }
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap_or_default() + "\n") {
        println!("cannot write the evidence file: {e}");
        return 3;
    }
    if differ > 0 {
        println!("note: {differ} of {again} re-executions differed from the first");
    }
    if code == 0 {
        println!(
            "{}: held on {done} runs ({} distinct non-trivial, {} distinct executions, {} faults injected), {wall:.1} s",
            p.id,
            stats.cases.len(),
            stats.distinct.len(),
            stats.n.iter().filter(|(k, _)| k.starts_with("fault ")).map(|(_, v)| v).sum::<u64>()
        );
    }
    code
}

fn report(p: &'static Prop, thorough: bool, seed: u64, idx: u64, mut tape: Vec<u64>, msg: String) -> i32 {
    let mut rp = Replayer::new(p, thorough);
    if tape.is_empty() {
        // the run took its process with it: its choices are those of the seed, made again as it goes
        tape = recover(p, thorough, seed, idx);
    }
    let full = tape.len();
    let slow = msg.contains("did not end") || msg.contains("signal 9");
    let patience = if slow { Duration::from_secs(10) } else { Duration::from_secs(70) };
    let confirm = if slow { CONFIRM } else { patience };
    let first = rp.ask(&tape, true, confirm);
    if slow && !first.violated {
        // not reported: the machine was busy, or another program was given its memory
        println!("{}: run {idx} of seed {seed} was stopped ({msg}), but ends when it is repeated; the runs after it were left out", p.id);
        return 0;
    }
    let (mut best, mut reply) = (tape.clone(), first);
    let mut reproduced = reply.violated;
    if reproduced {
        let limit = Instant::now() + Duration::from_secs(if slow { 60 } else { 40 });
        let m = tape::minimise(tape.clone(), |t| rp.ask(t, false, patience).violated, || Instant::now() < limit);
        let r = rp.ask(&m, true, confirm);
        if r.violated {
            best = m;
            reply = r;
        } else {
            reply = rp.ask(&best, true, confirm);
            reproduced = reply.violated;
        }
    }
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{}-{:016x}.json", p.id, hash(format!("{best:?}").as_bytes())));
    let text = if reproduced { reply.msg.clone() } else { msg };
    let v = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "run": idx,
        "violation": text, "choices_before_minimisation": full, "tape": best, "trace": reply.trace, "digest": reply.digest,
        "reproduced_in_a_fresh_process": reproduced,
        "replay_with": format!("/verif/bin/replay {}", file.display()),
    });
    let _ = std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap_or_default() + "\n");
    println!("{}: run {idx} of seed {seed} violates the property ({} choices, minimised to {})", p.id, full, best.len());
    println!("  {}", shorten(&text));
    for l in reply.trace.iter().take(60) {
        println!("  {}", shorten(l));
    }
    if !reproduced {
        println!("  (the replay did not reproduce it)");
    }
    println!("VIOLATION property={} replay={}", p.id, file.display());
    1
}

/// The tape of a run that kills its process: choices are written out as they are made.
fn recover(p: &Prop, thorough: bool, seed: u64, idx: u64) -> Vec<u64> {
    let mut c = self_cmd();
    let mut c = c
        .args(["record", p.id, if thorough { "thorough" } else { "quick" }, &seed.to_string(), &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("start");
    let mut o = c.stdout.take().expect("stdout");
    let h = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = o.read_to_end(&mut b);
        b
    });
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) && matches!(c.try_wait(), Ok(None)) {
        std::thread::sleep(Duration::from_millis(20));
    }
    let _ = c.kill();
    let _ = c.wait();
    let b = h.join().unwrap_or_default();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().expect("8"))).collect()
}
pub fn record(p: &Prop, thorough: bool, seed: u64, idx: u64) {
    quiet_panics();
    let mut ctx = Ctx::new(thorough);
    let mut src = Src::from_seed(seed_of(p, seed, idx));
    src.echo = true;
    let _ = evaluate(p, &mut src, &mut ctx);
    unsafe { _exit(0) };
}

/// Replays a file written by `report`.
pub fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        println!("cannot read {path}");
        return 3;
    };
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let Some(p) = props::find(v["property"].as_str().unwrap_or("")) else {
        println!("{path}: not a replay file");
        return 3;
    };
    let tape: Vec<u64> = v["tape"].as_array().map(|a| a.iter().filter_map(Value::as_u64).collect()).unwrap_or_default();
    let mut rp = Replayer::new(p, v["tier"] == "thorough");
    let r = rp.ask(&tape, true, HANG);
    for l in &r.trace {
        println!("  {l}");
    }
    if r.violated {
        println!("  {}", r.msg);
        println!("  digest {} ({})", r.digest, if v["digest"] == r.digest.as_str() { "as recorded" } else { "differs from the recorded one" });
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    if !r.msg.is_empty() {
        println!("error in the simulator: {}", r.msg);
        return 3;
    }
    println!("{}: the property holds on this tape", p.id);
    0
}

/// Digests of runs, one per line, to compare between processes.
pub fn digests(p: &Prop, seed: u64, from: u64, to: u64) {
    quiet_panics();
    let mut ctx = Ctx::new(false);
    for idx in from..to {
        let mut src = Src::from_seed(seed_of(p, seed, idx));
        let r = evaluate(p, &mut src, &mut ctx);
        let r = match r {
            Outcome::Held(b) => format!("held {b}"),
            Outcome::Violated(m) => format!("violated {m}"),
            Outcome::Harness(m) => format!("harness {m}"),
        };
        println!("{} {seed} {idx} {:016x} {:016x} {} {r}", p.id, ctx.digest, ctx.shape, src.rec.len());
    }
}
