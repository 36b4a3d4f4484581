//! Client of the simulated operating system (simos.c): one real `toon` process image, preloaded with the
//! simulator, is the fork server; each simulated execution is one fork of it.

use crate::tape::{hash, Src};
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;

const MAXF: usize = 12;
pub const FCAP: usize = 16 << 20;
const ARGCAP: usize = 65536;
pub const MAXPLAN: usize = 64;
const LOGCAP: usize = 200_000;
const ARENA: usize = 16 << 20;
const SPLITS: usize = 64;

#[repr(C)]
#[derive(Clone, Copy)]
struct VFile {
    name: [u8; 104],
    exists: u32,
    readonly: u32,
    len: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Plan {
    pub cls: u32,
    pub nth: u32,
    pub action: u32,
    pub persist: u32,
    pub arg: i64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct RawEv {
    pub op: u8,
    pub slot: u8,
    pub fault: u8,
    pub cls: u8,
    pub err: i32,
    pub ret: i64,
    pub a: u64,
    pub b: u64,
    pub arena: u64,
    pub now: u64,
}
#[repr(C)]
struct Shm {
    argc: u32,
    envc: u32,
    nplan: u32,
    max_ops: u32,
    read_mode: u32,
    read_n: u32,
    write_mode: u32,
    write_n: u32,
    eintr_in: u32,
    eintr_out: u32,
    nsplit: u32,
    std_kind: u32,
    split: [u64; SPLITS],
    seed: u64,
    rand_seed: u64,
    clock0: i64,
    capacity: u64,
    cap_errno: u32,
    pid: u32,
    lat_max: u32,
    env_seed: u32,
    stdin_skip: u32,
    host_seed: u32,
    plan: [Plan; MAXPLAN],
    nev: u32,
    livelock: u32,
    escape: u32,
    log_overflow: u32,
    fired: [u32; MAXPLAN],
    cls_count: [u32; 16],
    eintr_fired: u32,
    short_reads: u32,
    short_writes: u32,
    nospc_fired: u32,
    nmalloc: u32,
    crashed: u32,
    clock_reads: u32,
    rand_reads: u32,
    now: u64,
    arena_used: u64,
    done: u32,
    env_asked: u32,
    env_names: [u8; 512],
    missed: [u8; 1024],
    escape_what: [u8; 128],
    f: [VFile; MAXF],
    args: [u8; ARGCAP],
    ev: [RawEv; LOGCAP],
    arena: [u8; ARENA],
    data: [[u8; FCAP]; MAXF],
}

pub const C_OPEN_IN: u32 = 0;
pub const C_READ_IN: u32 = 1;
pub const C_STAT: u32 = 2;
pub const C_LSEEK: u32 = 3;
pub const C_OPEN_OUT: u32 = 4;
pub const C_WRITE_OUT: u32 = 5;
pub const C_CLOSE: u32 = 6;
pub const C_WRITE_ERR: u32 = 7;
pub const C_ANY: u32 = 8;
pub const C_MALLOC: u32 = 9;
pub const C_META: u32 = 10;
pub const CLS_NAMES: [&str; 11] = ["open-input", "read", "stat", "lseek", "open-output", "write-output", "close", "write-stderr", "any-syscall", "malloc", "metadata"];

pub const A_ERR: u32 = 1;
pub const A_SHORT: u32 = 2;
pub const A_ZERO: u32 = 3;
pub const A_CRASH_BEFORE: u32 = 4;
pub const A_CRASH_AFTER: u32 = 5;
pub const A_CRASH_PARTIAL: u32 = 6;
pub const A_STATLIE: u32 = 7;
pub const ACT_NAMES: [&str; 8] = ["", "error", "short", "zero-length", "crash-before", "crash-after", "crash-partial-write", "wrong-size"];

pub const OP_OPEN: u8 = 1;
pub const OP_READ: u8 = 2;
pub const OP_WRITE: u8 = 3;
pub const OP_CLOSE: u8 = 4;
pub const OP_STAT: u8 = 5;
pub const OP_LSEEK: u8 = 6;
pub const OP_TRUNC: u8 = 7;
pub const OP_RENAME: u8 = 8;
pub const OP_UNLINK: u8 = 9;
pub const OP_ATTR: u8 = 14;
const OP_NAMES: [&str; 15] = ["?", "open", "read", "write", "close", "stat", "lseek", "truncate", "rename", "unlink", "sync", "other", "exit", "fdop", "attributes"];

pub const PIPE: u32 = 0;
pub const TERMINAL: u32 = 1;
pub const REGULAR: u32 = 2;

pub const O_WRONLY: u64 = 1;
pub const O_ACCMODE: u64 = 3;
pub const O_CREAT: u64 = 0o100;
pub const O_TRUNC: u64 = 0o1000;

pub const EINTR: i64 = 4;
pub const EIO: i64 = 5;
pub const EBADF: i64 = 9;
pub const EAGAIN: i64 = 11;
pub const ENOMEM: i64 = 12;
pub const EACCES: i64 = 13;
pub const EISDIR: i64 = 21;
pub const ENFILE: i64 = 23;
pub const EMFILE: i64 = 24;
pub const EFBIG: i64 = 27;
pub const ENOSPC: i64 = 28;
pub const EROFS: i64 = 30;
pub const EPIPE: i64 = 32;
pub const EDQUOT: i64 = 122;
pub const ESTALE: i64 = 116;
pub const ENOENT: i64 = 2;
pub const ELOOP: i64 = 40;
pub const EPERM: i64 = 1;
pub const ENXIO: i64 = 6;
pub const EBUSY: i64 = 16;
pub const ENOTDIR: i64 = 20;
pub const EINVAL: i64 = 22;
pub const ETXTBSY: i64 = 26;
pub const EDEADLK: i64 = 35;
pub const ENAMETOOLONG: i64 = 36;
pub const ENODATA: i64 = 61;
pub const ENOTSUP: i64 = 95;
pub const ECONNRESET: i64 = 104;
pub const ETIMEDOUT: i64 = 110;
pub const EREMOTEIO: i64 = 121;
pub fn errno_name(e: i64) -> String {
    match e {
        2 => "ENOENT".into(),
        4 => "EINTR".into(),
        5 => "EIO".into(),
        9 => "EBADF".into(),
        11 => "EAGAIN".into(),
        12 => "ENOMEM".into(),
        13 => "EACCES".into(),
        21 => "EISDIR".into(),
        23 => "ENFILE".into(),
        24 => "EMFILE".into(),
        27 => "EFBIG".into(),
        28 => "ENOSPC".into(),
        30 => "EROFS".into(),
        32 => "EPIPE".into(),
        40 => "ELOOP".into(),
        1 => "EPERM".into(),
        6 => "ENXIO".into(),
        16 => "EBUSY".into(),
        20 => "ENOTDIR".into(),
        22 => "EINVAL".into(),
        26 => "ETXTBSY".into(),
        35 => "EDEADLK".into(),
        36 => "ENAMETOOLONG".into(),
        61 => "ENODATA".into(),
        95 => "ENOTSUP".into(),
        104 => "ECONNRESET".into(),
        110 => "ETIMEDOUT".into(),
        121 => "EREMOTEIO".into(),
        116 => "ESTALE".into(),
        122 => "EDQUOT".into(),
        e => format!("errno{e}"),
    }
}

/// Files of the simulated file system: content and whether it can be opened for writing.
pub type Fs = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Debug)]
pub struct Exec {
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    pub stdin: Vec<u8>,
    pub files: Fs,
    pub readonly: Vec<String>,
    pub plan: Vec<Plan>,
    pub max_ops: u32,
    /// 0 whole, 1 fixed, 2 random up to n, 3 at the split offsets
    pub read: (u32, u32),
    pub write: (u32, u32),
    pub split: Vec<u64>,
    pub eintr_in: u32,
    pub eintr_out: u32,
    pub seed: u64,
    pub rand_seed: u64,
    pub clock0: i64,
    pub pid: u32,
    pub capacity: Option<u64>,
    pub cap_errno: i64,
    pub lat_max: u32,
    /// variables that are not set are made up from it
    pub env_seed: u32,
    /// processors, user, host name and heap addresses
    pub host_seed: u32,
    /// what standard input, output and error are: pipe, terminal or regular file
    pub std_kind: [u32; 3],
    /// bytes at the start of a regular standard input that were read before the program began
    pub stdin_skip: Vec<u8>,
}
impl Default for Exec {
    fn default() -> Self {
        Self {
            args: vec![],
            env: vec![],
            stdin: vec![],
            files: Fs::new(),
            readonly: vec![],
            plan: vec![],
            max_ops: 4_000_000,
            read: (0, 0),
            write: (0, 0),
            split: vec![],
            eintr_in: 0,
            eintr_out: 0,
            seed: 1,
            rand_seed: 1,
            clock0: 1_700_000_000_000_000_000,
            pid: 4242,
            capacity: None,
            cap_errno: ENOSPC,
            lat_max: 1000,
            env_seed: 0,
            host_seed: 0,
            std_kind: [PIPE; 3],
            stdin_skip: vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub struct LogEv {
    pub raw: RawEv,
    /// bytes written (writes only)
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Out {
    /// exit code, or -signal
    pub status: i32,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub files: Fs,
    pub log: Vec<LogEv>,
    pub names: Vec<String>,
    pub fired: Vec<u32>,
    pub cls_count: [u32; 16],
    pub eintr: u32,
    pub short_reads: u32,
    pub short_writes: u32,
    pub nospc: u32,
    pub nmalloc: u32,
    pub crashed: bool,
    pub livelock: bool,
    pub escape: Option<String>,
    pub overflow: bool,
    pub hung: bool,
    pub now: u64,
    pub rand_reads: u32,
    pub clock_reads: u32,
    /// environment variables the program asked for
    pub env_asked: String,
    /// files it looked for that do not exist: how ('o' opened, 's' examined) and which
    pub missed: Vec<(char, String)>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.status == 0
    }
    /// Shape of the execution: which operations, on what, with what kind of result.
    pub fn shape(&self) -> u64 {
        let mut b = Vec::with_capacity(self.log.len() * 6);
        for e in &self.log {
            b.extend_from_slice(&[e.raw.op, e.raw.slot, e.raw.fault, (e.raw.ret < 0) as u8, e.raw.err as u8, (e.raw.ret as u64).min(255) as u8]);
        }
        b.extend_from_slice(&self.status.to_le_bytes());
        hash(&b)
    }
    pub fn describe(&self) -> String {
        let st = if self.hung {
            "hung".to_string()
        } else if self.livelock {
            "stopped: too many system calls".to_string()
        } else if self.crashed {
            "killed (injected crash)".to_string()
        } else if self.status < 0 {
            format!("killed by signal {}", -self.status)
        } else {
            format!("exit {}", self.status)
        };
        format!("{st}; stdout {} ; stderr {}", show(&self.stdout), show(&self.stderr))
    }
    pub fn trace(&self) -> Vec<String> {
        let mut t = Vec::new();
        for (i, e) in self.log.iter().enumerate() {
            if self.log.len() > 120 && i >= 60 && i + 60 < self.log.len() {
                if i == 60 {
                    t.push(format!("... {} operations ...", self.log.len() - 120));
                }
                continue;
            }
            let r = &e.raw;
            let name = match r.slot {
                0 => "stdin".to_string(),
                1 => "stdout".to_string(),
                2 => "stderr".to_string(),
                255 => "-".to_string(),
                s => self.names.get(s as usize).cloned().unwrap_or_default(),
            };
            let res = if r.ret < 0 { errno_name(i64::from(r.err)) } else { format!("{}", r.ret) };
            let fault = match r.fault {
                0 => String::new(),
                100 => "  <- injected: disk full".into(),
                f => format!("  <- injected: {}", ACT_NAMES.get(f as usize).unwrap_or(&"?")),
            };
            let detail = match r.op {
                OP_READ | OP_WRITE => format!(" offset {} of {} bytes", r.a, r.b),
                OP_OPEN => format!(" flags {:#o}", r.a),
                _ => String::new(),
            };
            t.push(format!("t={}ns {} {}{} -> {}{}", r.now, OP_NAMES.get(r.op as usize).unwrap_or(&"?"), name, detail, res, fault));
        }
        t
    }
    pub fn file(&self, name: &str) -> Option<&Vec<u8>> {
        self.files.get(norm(name))
    }
}
pub fn norm(p: &str) -> &str {
    let mut p = p;
    while let Some(q) = p.strip_prefix("./") {
        p = q;
    }
    p.strip_prefix("/sim/").unwrap_or(p)
}
pub fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.len() > 300 {
        let cut: String = t.chars().take(200).collect();
        format!("{cut:?}... ({} bytes)", b.len())
    } else {
        format!("{t:?}")
    }
}

extern "C" {
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn dup2(a: i32, b: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn poll(p: *mut PollFd, n: u64, t: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn dlopen(p: *const i8, flags: i32) -> *mut c_void;
    fn dlsym(h: *mut c_void, p: *const i8) -> *mut c_void;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

pub struct Os {
    shm: *mut Shm,
    ctl: std::fs::File,
    st: std::fs::File,
    _child: std::process::Child,
    pub runs: u64,
}
unsafe impl Send for Os {}

pub fn build_dir() -> std::path::PathBuf {
    std::env::var_os("TOONSIM_BUILD").map_or_else(|| std::path::PathBuf::from("/verif/.build"), Into::into)
}

fn check_layout(so: &str) {
    unsafe {
        let c = std::ffi::CString::new(so).expect("path");
        let h = dlopen(c.as_ptr(), 2);
        assert!(!h.is_null(), "cannot load {so}");
        let f = dlsym(h, c"simos_layout".as_ptr());
        assert!(!f.is_null());
        let f: extern "C" fn(i32) -> usize = std::mem::transmute(f);
        let mine = [
            std::mem::size_of::<Shm>(),
            std::mem::offset_of!(Shm, nev),
            std::mem::offset_of!(Shm, f),
            std::mem::offset_of!(Shm, ev),
            std::mem::offset_of!(Shm, data),
        ];
        for (i, m) in mine.iter().enumerate() {
            assert_eq!(f(i as i32), *m, "simos.c and os.rs disagree about field {i}");
        }
    }
}

pub fn verify_layout() {
    check_layout(build_dir().join("simos.so").to_str().expect("utf-8"));
}

impl Os {
    pub fn start() -> Self {
        let dir = build_dir();
        unsafe {
            let fd = memfd_create(c"simos".as_ptr(), 0);
            assert!(fd >= 0 && ftruncate(fd, std::mem::size_of::<Shm>() as i64) == 0);
            let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 1, fd, 0);
            assert!(p as isize != -1);
            let (mut c, mut s) = ([0i32; 2], [0i32; 2]);
            assert!(pipe(c.as_mut_ptr()) == 0 && pipe(s.as_mut_ptr()) == 0);
            // move out of the way of the fixed numbers
            let up = |x: i32| {
                let n = fcntl(x, 0, 300);
                assert!(n >= 300);
                drop(std::fs::File::from_raw_fd(x));
                n
            };
            let (c0, c1, s0, s1, m) = (up(c[0]), up(c[1]), up(s[0]), up(s[1]), up(fd));
            let mut cmd = std::process::Command::new(dir.join("toon"));
            cmd.env_clear()
                .env("LD_PRELOAD", dir.join("simos.so"))
                .env("SIMOS", "1")
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null());
            cmd.pre_exec(move || {
                dup2(m, 197);
                dup2(c0, 198);
                dup2(s1, 199);
                for f in [c0, c1, s0, s1, m] {
                    drop(std::fs::File::from_raw_fd(f));
                }
                prctl(1, 9, 0, 0, 0); // die with the parent
                Ok(())
            });
            let child = cmd.spawn().expect("start the toon fork server");
            drop(std::fs::File::from_raw_fd(c0));
            drop(std::fs::File::from_raw_fd(s1));
            drop(std::fs::File::from_raw_fd(m));
            Self { shm: p.cast(), ctl: std::fs::File::from_raw_fd(c1), st: std::fs::File::from_raw_fd(s0), _child: child, runs: 0 }
        }
    }

    fn word(&mut self, ms: i32) -> Option<i32> {
        let mut p = PollFd { fd: self.st.as_raw_fd(), events: 1, revents: 0 };
        loop {
            let r = unsafe { poll(&mut p, 1, ms) };
            if r == 0 {
                return None;
            }
            if r > 0 {
                break;
            }
        }
        let mut b = [0u8; 4];
        self.st.read_exact(&mut b).expect("the toon fork server died");
        Some(i32::from_le_bytes(b))
    }

    pub fn run(&mut self, x: &Exec) -> Out {
        self.runs += 1;
        let m = unsafe { &mut *self.shm };
        m.argc = x.args.len() as u32 + 1;
        m.envc = x.env.len() as u32;
        m.nplan = x.plan.len() as u32;
        m.max_ops = x.max_ops;
        (m.read_mode, m.read_n) = (x.read.0, x.read.1.max(1));
        (m.write_mode, m.write_n) = (x.write.0, x.write.1.max(1));
        m.eintr_in = x.eintr_in;
        m.eintr_out = x.eintr_out;
        m.nsplit = x.split.len().min(SPLITS) as u32;
        for (i, v) in x.split.iter().take(SPLITS).enumerate() {
            m.split[i] = *v;
        }
        m.seed = x.seed;
        m.rand_seed = x.rand_seed;
        m.clock0 = x.clock0;
        m.capacity = x.capacity.unwrap_or(u64::MAX);
        m.cap_errno = x.cap_errno as u32;
        m.pid = x.pid;
        m.lat_max = x.lat_max;
        m.env_seed = x.env_seed;
        m.host_seed = x.host_seed;
        m.std_kind = x.std_kind[0] | x.std_kind[1] << 2 | x.std_kind[2] << 4;
        let skip = if x.std_kind[0] == REGULAR { x.stdin_skip.len() } else { 0 };
        m.stdin_skip = skip as u32;
        (m.env_asked, m.env_names, m.missed) = (0, [0; 512], [0; 1024]);
        for (i, p) in x.plan.iter().take(MAXPLAN).enumerate() {
            m.plan[i] = *p;
        }
        (m.nev, m.livelock, m.escape, m.log_overflow) = (0, 0, 0, 0);
        m.fired = [0; MAXPLAN];
        m.cls_count = [0; 16];
        (m.eintr_fired, m.short_reads, m.short_writes, m.nospc_fired) = (0, 0, 0, 0);
        (m.nmalloc, m.crashed, m.clock_reads, m.rand_reads) = (0, 0, 0, 0);
        (m.now, m.arena_used, m.done) = (0, 0, 0);
        m.escape_what = [0; 128];
        for f in &mut m.f {
            f.name = [0; 104];
            (f.exists, f.readonly, f.len) = (0, 0, 0);
        }
        assert!(skip + x.stdin.len() <= FCAP);
        m.f[0].len = (skip + x.stdin.len()) as u64;
        m.data[0][..skip].copy_from_slice(&x.stdin_skip[..skip]);
        m.data[0][skip..skip + x.stdin.len()].copy_from_slice(&x.stdin);
        assert!(x.files.len() + 3 <= MAXF - 2, "too many files");
        for (i, (name, data)) in x.files.iter().enumerate() {
            let f = &mut m.f[3 + i];
            let nm = norm(name);
            f.name[..nm.len()].copy_from_slice(nm.as_bytes());
            f.exists = 1;
            f.readonly = u32::from(x.readonly.contains(name));
            f.len = data.len() as u64;
            m.data[3 + i][..data.len()].copy_from_slice(data);
        }
        let mut a = Vec::with_capacity(512);
        a.extend_from_slice(b"toon\0");
        for s in &x.args {
            a.extend_from_slice(s.as_bytes());
            a.push(0);
        }
        for (k, v) in &x.env {
            a.extend_from_slice(format!("{k}={v}\0").as_bytes());
        }
        assert!(a.len() < ARGCAP);
        m.args[..a.len()].copy_from_slice(&a);

        self.ctl.write_all(&[1]).expect("the toon fork server died");
        let pid = self.word(-1).expect("pid");
        let mut hung = false;
        let st = match self.word(30_000) {
            Some(s) => s,
            None => {
                hung = true;
                unsafe { kill(pid, 9) };
                self.word(-1).expect("status")
            }
        };
        let status = if st & 0x7f == 0 { (st >> 8) & 0xff } else { -(st & 0x7f) };
        let m = unsafe { &*self.shm };
        let mut files = Fs::new();
        let mut names = vec![String::new(); 3];
        for i in 3..MAXF {
            let f = &m.f[i];
            let n = f.name.iter().position(|b| *b == 0).unwrap_or(104);
            let name = String::from_utf8_lossy(&f.name[..n]).into_owned();
            if n > 0 && f.exists != 0 {
                files.insert(name.clone(), m.data[i][..f.len as usize].to_vec());
            }
            names.push(name);
        }
        let log = m.ev[..m.nev as usize]
            .iter()
            .map(|r| LogEv {
                raw: *r,
                data: if r.op == OP_WRITE && r.ret > 0 && (r.arena + r.ret as u64) <= ARENA as u64 {
                    m.arena[r.arena as usize..(r.arena + r.ret as u64) as usize].to_vec()
                } else {
                    vec![]
                },
            })
            .collect();
        let n = m.escape_what.iter().position(|b| *b == 0).unwrap_or(128);
        Out {
            status,
            stdout: m.data[1][..m.f[1].len as usize].to_vec(),
            stderr: m.data[2][..m.f[2].len as usize].to_vec(),
            files,
            log,
            names,
            fired: m.fired[..x.plan.len()].to_vec(),
            cls_count: m.cls_count,
            eintr: m.eintr_fired,
            short_reads: m.short_reads,
            short_writes: m.short_writes,
            nospc: m.nospc_fired,
            nmalloc: m.nmalloc,
            crashed: m.crashed != 0 && status == 137,
            livelock: m.livelock != 0,
            escape: (m.escape != 0).then(|| String::from_utf8_lossy(&m.escape_what[..n]).into_owned()),
            overflow: m.log_overflow != 0,
            hung,
            now: m.now,
            rand_reads: m.rand_reads,
            clock_reads: m.clock_reads,
            missed: String::from_utf8_lossy(&m.missed[..m.missed.iter().position(|b| *b == 0).unwrap_or(0)])
                .lines()
                .filter_map(|l| Some((l.chars().next()?, l.get(1..)?.to_string())))
                .collect(),
            env_asked: String::from_utf8_lossy(&m.env_names[..m.env_names.iter().position(|b| *b == 0).unwrap_or(0)]).trim().into(),
        }
    }
}

/// Random delivery: how the system cuts reads and writes, interrupts calls, and how slow it is.
pub fn transient(src: &mut Src, x: &mut Exec) {
    let chunk = |src: &mut Src| -> (u32, u32) {
        match src.n(5) {
            0 => (0, 0),
            1 => (1, *src.pick(&[1, 2, 3, 5, 7, 16, 63, 100, 511, 1024, 4096, 8191])),
            2 => (2, *src.pick(&[2, 3, 8, 40, 200, 1500, 9000])),
            3 => (1, src.range(1, 40) as u32),
            _ => (2, src.range(2, 4000) as u32),
        }
    };
    x.read = chunk(src);
    x.write = chunk(src);
    x.eintr_in = *src.pick(&[0, 0, 30, 128, 255]);
    x.eintr_out = *src.pick(&[0, 0, 30, 128, 255]);
    // large transfers in not too many pieces, so that the log can hold them
    let total = x.stdin.len() + x.files.values().map(Vec::len).sum::<usize>();
    if total > 60_000 {
        for m in [&mut x.read, &mut x.write] {
            m.1 = m.1.max((total / 4000) as u32);
        }
    }
    if src.chance(1, 3) {
        // what the standard streams are
        x.std_kind = [*src.pick(&[PIPE, TERMINAL, REGULAR]), *src.pick(&[PIPE, TERMINAL, REGULAR]), *src.pick(&[PIPE, TERMINAL, REGULAR])];
        if x.std_kind[0] == REGULAR && !x.stdin.is_empty() && src.chance(1, 2) {
            x.stdin_skip = b"{\"earlier\": 1}\n".repeat(src.range(1, 3));
        }
    }
    x.seed = src.word();
    x.lat_max = *src.pick(&[1000, 0, 5_000_000, 2_000_000_000]);
}
