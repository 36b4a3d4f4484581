//! What a property check runs in: the simulated system, counters for the evidence, and the trace.

use crate::os::*;
use crate::tape::{hash, mix};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub cases: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.n.entry(k.to_string()).or_insert(0) += n;
        }
    }
}

pub struct Ctx {
    os: Option<Os>,
    pub stats: Stats,
    /// description of the executions of the current evaluation, for a report
    pub trace: Vec<String>,
    pub want_trace: bool,
    /// digest of everything observed in the current evaluation
    pub digest: u64,
    /// digest of the interleaving or execution shape of the current evaluation
    pub shape: u64,
    pub thorough: bool,
    pub faults_in_eval: u64,
    /// a run left threads behind that can never end
    pub stuck: bool,
}

pub type Res = Result<bool, String>;

impl Ctx {
    pub fn new(thorough: bool) -> Self {
        Self { os: None, stats: Stats::default(), trace: vec![], want_trace: false, digest: 0, shape: 0, thorough, faults_in_eval: 0, stuck: false }
    }
    /// The fork server must be started by a thread that outlives the evaluation.
    pub fn prepare(&mut self, os: bool) {
        if os && self.os.is_none() {
            self.os = Some(Os::start());
        }
    }
    pub fn begin(&mut self) {
        self.trace.clear();
        self.digest = 0;
        self.shape = 0;
        self.faults_in_eval = 0;
    }
    pub fn note(&mut self, what: impl FnOnce() -> String) {
        if self.want_trace {
            self.trace.push(what());
        }
    }
    pub fn see(&mut self, b: &[u8]) {
        self.digest = mix(self.digest, hash(b));
    }
    /// Record a distinct interleaving or execution shape.
    pub fn mark(&mut self, h: u64) {
        self.shape = mix(self.shape, h);
        self.stats.distinct.insert(h);
    }
    pub fn fault(&mut self, kind: &str, n: u64) {
        self.faults_in_eval += n;
        self.stats.add(&format!("fault {kind}"), n);
    }
    /// One simulated execution of the real program.
    pub fn exec(&mut self, x: &Exec) -> Out {
        let o = self.os.as_mut().expect("os").run(x);
        self.stats.add("executions of the real program", 1);
        self.stats.add("simulated system calls", o.log.len() as u64);
        self.stats.add("simulated nanoseconds", o.now);
        self.fault("interrupted call (EINTR)", u64::from(o.eintr));
        self.fault("short read", u64::from(o.short_reads));
        self.fault("short write", u64::from(o.short_writes));
        self.fault("disk full", u64::from(o.nospc));
        for (i, p) in x.plan.iter().enumerate() {
            if o.fired[i] > 0 {
                let e = if p.action == A_ERR { format!(" {}", errno_name(p.arg)) } else { String::new() };
                let k = format!("{} {}{}", CLS_NAMES[p.cls as usize], ACT_NAMES[p.action as usize], e);
                self.fault(&k, u64::from(o.fired[i]));
            }
        }
        let sh = o.shape();
        self.mark(sh);
        self.see(&sh.to_le_bytes());
        self.see(&o.stdout);
        self.see(&o.stderr);
        for (k, v) in &o.files {
            self.see(k.as_bytes());
            self.see(v);
        }
        self.note(|| format!("$ toon {}   # {}", x.args.join(" "), o.describe()));
        if self.want_trace {
            if !x.stdin.is_empty() {
                self.trace.push(format!("  standard input: {}", show(&x.stdin)));
            }
            for (k, v) in &x.files {
                self.trace.push(format!("  file {k}: {}", show(v)));
            }
            for p in &x.plan {
                self.trace.push(format!(
                    "  planned fault: {} #{}{} {} {}",
                    CLS_NAMES[p.cls as usize],
                    p.nth,
                    if p.persist != 0 { " and all later" } else { "" },
                    ACT_NAMES[p.action as usize],
                    if p.action == A_ERR { errno_name(p.arg) } else { p.arg.to_string() }
                ));
            }
            self.trace.extend(o.trace().into_iter().map(|l| format!("  {l}")));
            for (k, v) in &o.files {
                if x.files.get(k) != Some(v) {
                    self.trace.push(format!("  file {k} afterwards: {}", show(v)));
                }
            }
        }
        o
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
