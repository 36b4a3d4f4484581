//! C01 to C09: the command-line program under the simulated operating system.

use crate::case::*;
use crate::ctx::*;
use crate::dec;
use crate::enc::{self, EncOpts};
use crate::ensure;
use crate::os::*;
use crate::tape::Src;
use crate::val::*;

const IO_ERRS: &[i64] = &[
    EIO, EIO, ENOSPC, EDQUOT, ESTALE, EFBIG, EACCES, EPIPE, EAGAIN, EISDIR, ENOMEM, EPERM, ENXIO, EBUSY, EINVAL, EDEADLK, ENODATA, ENOTSUP, ECONNRESET, ETIMEDOUT,
    EREMOTEIO,
];
const OPEN_OUT_ERRS: &[i64] = &[EACCES, ENOSPC, EROFS, EMFILE, EISDIR, ENOENT, ETXTBSY, EPERM, EBUSY, EDQUOT, EINVAL, ENAMETOOLONG, ENOTDIR, ETIMEDOUT, ENXIO];
const OPEN_IN_ERRS: &[i64] = &[EACCES, EMFILE, ENFILE, EIO, ELOOP, EPERM, ENOENT, ENAMETOOLONG, ENOTDIR, EBUSY, EAGAIN, ETIMEDOUT, ENXIO];

fn plan(cls: u32, nth: usize, action: u32, arg: i64, persist: bool) -> Plan {
    Plan { cls, nth: nth as u32, action, persist: u32::from(persist), arg }
}

/// The destination after the run, compared with the complete document.
fn delivered(c: &Case, o: &Out) -> Result<(), String> {
    let doc = c.doc.as_deref().unwrap_or(b"");
    let got = c.dest(o);
    if got == Some(doc) {
        return Ok(());
    }
    Err(match got {
        None => "the output file does not exist".to_string(),
        Some(g) => {
            let n = g.iter().zip(doc).take_while(|(a, b)| a == b).count();
            format!("the destination holds {} bytes, the document has {}; they differ from byte {n}: got {}, want {}", g.len(), doc.len(), show(&g[n.min(g.len())..]), show(&doc[n.min(doc.len())..]))
        }
    })
}

fn success_message(o: &Out) -> bool {
    let e = String::from_utf8_lossy(&o.stderr);
    e.contains("Encoded `") || e.contains("Decoded `")
}

/// How many calls of each kind the command makes when nothing goes wrong.
fn rehearse(ctx: &mut Ctx, c: &Case) -> Out {
    ctx.note(|| "rehearsal, to learn which calls the command makes".into());
    ctx.exec(&c.exec)
}

/// 1 to 3 hard faults, aimed at calls the command makes.
fn hard_faults(src: &mut Src, x: &mut Exec, o: &Out) {
    for _ in 0..src.range(1, 3) {
        let err = *src.pick(IO_ERRS);
        let persist = src.chance(1, 2);
        let n = |src: &mut Src, cls: u32| src.n(o.cls_count[cls as usize].max(1) as usize + 2);
        let p = match src.n(6) {
            0 => plan(C_WRITE_OUT, n(src, C_WRITE_OUT), A_ERR, err, persist),
            1 => plan(C_WRITE_OUT, n(src, C_WRITE_OUT), A_ZERO, 0, persist),
            2 => {
                x.capacity = Some(src.n(2000) as u64);
                x.cap_errno = *src.pick(&[ENOSPC, EDQUOT, EFBIG]);
                continue;
            }
            3 => plan(C_READ_IN, n(src, C_READ_IN), A_ERR, err, persist),
            4 => plan(C_OPEN_OUT, 0, A_ERR, *src.pick(OPEN_OUT_ERRS), persist),
            _ => plan(C_OPEN_IN, 0, A_ERR, *src.pick(OPEN_IN_ERRS), persist),
        };
        x.plan.push(p);
    }
}

pub fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = gen_case(src, Want::default());
    if c.doc.is_none() {
        return Ok(false);
    }
    let mut hard = false;
    if src.chance(1, 3) {
        let o = rehearse(ctx, &c);
        if src.chance(1, 8) {
            let n = src.n(o.nmalloc.max(1) as usize);
            c.exec.plan.push(plan(C_MALLOC, n, A_ERR, 0, src.chance(1, 2)));
        } else {
            hard_faults(src, &mut c.exec, &o);
        }
        hard = true;
    }
    transient(src, &mut c.exec);
    for _ in 0..src.n(3) {
        // harmless: neither closing, nor seeking, nor asking for sizes can lose data here
        let cls = *src.pick(&[C_CLOSE, C_LSEEK, C_STAT]);
        let n = src.n(4);
        c.exec.plan.push(plan(cls, n, A_ERR, EIO, false));
    }
    for _ in 0..src.n(4) {
        let cls = *src.pick(&[C_READ_IN, C_WRITE_OUT]);
        let n = src.n(12);
        if src.chance(1, 2) {
            let m = src.range(1, 9) as i64;
            c.exec.plan.push(plan(cls, n, A_SHORT, m, false));
        } else {
            c.exec.plan.push(plan(cls, n, A_ERR, EINTR, false));
        }
    }
    let o = ctx.exec(&c.exec);
    if !hard {
        ensure!(o.ok(), "a valid conversion failed although nothing but transient behaviour was injected: {}", o.describe());
    }
    if o.ok() {
        delivered(&c, &o).map_err(|m| format!("exit status 0, but {m}"))?;
        if c.output.is_some() {
            ensure!(success_message(&o), "exit status 0 without the success message");
        }
    }
    Ok(o.ok() && ctx.faults_in_eval > 0)
}

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = gen_case(src, Want { alias: false, ..Want::default() });
    if c.doc.is_none() {
        return Ok(false);
    }
    if src.chance(2, 3) {
        transient(src, &mut c.exec);
    }
    let o = rehearse(ctx, &c);
    let calls = |src: &mut Src, cls: u32| src.n(o.cls_count[cls as usize].max(1) as usize);
    let err = *src.pick(IO_ERRS);
    let persist = src.chance(2, 3);
    let doc_len = c.doc.as_ref().map_or(0, Vec::len) as u64;
    let mut certain = false;
    match src.n(9) {
        0 | 1 => {
            let n = calls(src, C_WRITE_OUT);
            c.exec.plan.push(plan(C_WRITE_OUT, n, A_ERR, err, persist));
        }
        2 => {
            // the last write, where a forgotten flush hides
            let n = o.cls_count[C_WRITE_OUT as usize].saturating_sub(1) as usize;
            c.exec.plan.push(plan(C_WRITE_OUT, n, A_ERR, err, persist));
        }
        3 => {
            let n = calls(src, C_WRITE_OUT);
            c.exec.plan.push(plan(C_WRITE_OUT, n, A_ZERO, 0, persist));
        }
        4 => {
            c.exec.capacity = Some(src.choose(doc_len));
            c.exec.cap_errno = *src.pick(&[ENOSPC, EDQUOT, EFBIG]);
            certain = true;
        }
        5 => {
            let n = calls(src, C_READ_IN);
            c.exec.plan.push(plan(C_READ_IN, n, A_ERR, err, persist));
        }
        6 => match &c.output {
            Some(f) if src.chance(1, 2) => {
                let f = f.clone();
                c.exec.files.entry(f.clone()).or_default();
                c.exec.readonly.push(f);
                certain = true;
            }
            Some(_) => {
                c.exec.plan.push(plan(C_OPEN_OUT, 0, A_ERR, *src.pick(OPEN_OUT_ERRS), persist));
            }
            None => {
                c.exec.plan.push(plan(C_WRITE_OUT, 0, A_ERR, EPIPE, persist));
            }
        },
        7 => match &c.input {
            Some(f) => {
                let f = f.clone();
                c.exec.files.remove(&f);
                certain = true;
            }
            None => {
                let n = calls(src, C_READ_IN);
                c.exec.plan.push(plan(C_READ_IN, n, A_ERR, err, true));
            }
        },
        _ => {
            c.exec.plan.push(plan(C_OPEN_IN, 0, A_ERR, *src.pick(OPEN_IN_ERRS), persist));
        }
    }
    let o = ctx.exec(&c.exec);
    let fired = o.fired.iter().any(|n| *n > 0) || o.nospc > 0 || certain;
    if !fired {
        if o.ok() {
            delivered(&c, &o).map_err(|m| format!("exit status 0, but {m}"))?;
        }
        return Ok(false);
    }
    let lasting = certain || c.exec.plan.iter().all(|p| p.persist != 0);
    if o.ok() {
        ensure!(!lasting, "an input or output call failed for good, but the exit status is 0");
        delivered(&c, &o).map_err(|m| format!("an input or output call failed and the exit status is 0, but {m}"))?;
    } else {
        ensure!(!o.stderr.is_empty(), "an input or output call failed without a diagnostic: {}", o.describe());
        ensure!(!success_message(&o), "the success message was printed although the command failed: {}", o.describe());
        ensure!(o.status > 0 || o.status == -6, "ended by {}", o.describe());
    }
    Ok(true)
}

/// Contents of all files, replayed from the log of operations.
struct Disk {
    slots: Vec<Option<Vec<u8>>>,
}
impl Disk {
    fn new(x: &Exec, o: &Out) -> Self {
        let mut slots: Vec<Option<Vec<u8>>> = vec![None; o.names.len()];
        (slots[1], slots[2]) = (Some(vec![]), Some(vec![]));
        for (n, d) in &x.files {
            if let Some(i) = o.names.iter().position(|m| m == norm(n)) {
                slots[i] = Some(d.clone());
            }
        }
        Self { slots }
    }
    fn step(&mut self, e: &LogEv) {
        let r = &e.raw;
        let s = r.slot as usize;
        if s >= self.slots.len() || r.ret < 0 {
            return;
        }
        match r.op {
            OP_OPEN => {
                if r.b & 1 != 0 {
                    self.slots[s] = Some(vec![]);
                }
                if r.b & 2 != 0 {
                    self.slots[s] = Some(vec![]);
                }
            }
            OP_WRITE => {
                let f = self.slots[s].get_or_insert_with(Vec::new);
                let (a, n) = (r.a as usize, e.data.len());
                if f.len() < a + n {
                    f.resize(a + n, 0);
                }
                f[a..a + n].copy_from_slice(&e.data);
            }
            OP_TRUNC => {
                if let Some(f) = &mut self.slots[s] {
                    f.resize(r.a as usize, 0);
                }
            }
            OP_RENAME => {
                let d = r.a as usize;
                if d < self.slots.len() && d != s {
                    self.slots[d] = self.slots[s].take();
                }
            }
            OP_UNLINK => self.slots[s] = None,
            _ => {}
        }
    }
}

/// After every operation the destination holds its old content or a prefix of the document.
fn always_prefix(c: &Case, o: &Out) -> Result<(), String> {
    let slot = match &c.output {
        None => 1,
        Some(f) => match o.names.iter().position(|m| m == norm(f)) {
            Some(i) => i,
            None => return Ok(()),
        },
    };
    let mut d = Disk::new(&c.exec, o);
    let empty = vec![];
    let doc = c.doc.as_ref().unwrap_or(&empty);
    let check = |d: &Disk, when: &dyn Fn() -> String| -> Result<(), String> {
        let now = &d.slots[slot];
        let old = if slot == 1 { Some(&empty) } else { c.old.as_ref() };
        if now.as_ref() == old {
            return Ok(());
        }
        if c.doc.is_none() {
            return Err(format!("{}, the destination of a rejected conversion was touched: {}", when(), now.as_ref().map_or("removed".into(), |b| show(b))));
        }
        match now {
            Some(b) if doc.starts_with(b) => Ok(()),
            Some(b) => {
                let n = b.iter().zip(doc).take_while(|(x, y)| x == y).count();
                Err(format!("{}, the destination holds neither its old content nor a prefix of the document: {} bytes, wrong from byte {n}: {}", when(), b.len(), show(&b[n.min(b.len())..])))
            }
            None => Err(format!("{}, the destination was removed", when())),
        }
    };
    for (i, e) in o.log.iter().enumerate() {
        let before = d.slots[slot].as_ref().map(Vec::len);
        d.step(e);
        if e.raw.slot as usize == slot || e.raw.op == OP_RENAME || d.slots[slot].as_ref().map(Vec::len) != before {
            check(&d, &|| format!("after operation {} of {}", i + 1, o.log.len()))?;
        }
    }
    if !o.overflow {
        let end = if slot == 1 { Some(&o.stdout) } else { o.file(c.output.as_deref().unwrap_or("")) };
        assert!(d.slots[slot].as_ref() == end, "the replayed log and the simulated disk disagree");
    }
    Ok(())
}

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let valid = Some(!src.chance(1, 5));
    let file_out = if src.chance(3, 4) { Some(true) } else { None };
    let mut c = gen_case(src, Want { valid, file_out, ..Want::default() });
    if src.chance(2, 3) {
        transient(src, &mut c.exec);
    }
    let o = rehearse(ctx, &c);
    always_prefix(&c, &o)?;
    let total = o.cls_count[C_ANY as usize] as usize;
    match src.n(8) {
        0 | 1 => {
            let n = src.n(total.max(1));
            let how = *src.pick(&[A_CRASH_BEFORE, A_CRASH_AFTER]);
            c.exec.plan.push(plan(C_ANY, n, how, 0, false));
        }
        2 | 3 => {
            let n = src.n(o.cls_count[C_WRITE_OUT as usize].max(1) as usize);
            let m = src.small(8200) as i64;
            c.exec.plan.push(plan(C_WRITE_OUT, n, A_CRASH_PARTIAL, m, false));
        }
        4 => {
            let how = *src.pick(&[A_CRASH_BEFORE, A_CRASH_AFTER]);
            c.exec.plan.push(plan(C_OPEN_OUT, 0, how, 0, false));
        }
        5 => {
            let n = src.n(o.nmalloc.max(1) as usize);
            c.exec.plan.push(plan(C_MALLOC, n, *src.pick(&[A_ERR, A_CRASH_BEFORE]), 0, src.chance(1, 2)));
        }
        _ => hard_faults(src, &mut c.exec, &o),
    }
    let o = ctx.exec(&c.exec);
    always_prefix(&c, &o)?;
    for (f, data) in &c.exec.files {
        if Some(f) != c.output.as_ref() {
            ensure!(o.file(f) == Some(data), "the file {f} was changed");
        }
    }
    Ok(o.fired.iter().any(|n| *n > 0) || o.nospc > 0)
}

/// The same command taking the same bytes from the other channel.
fn other_channel(src: &mut Src, c: &Case) -> Case {
    let mut d = c.clone();
    let flag = if c.encode { ["--encode", "-e"] } else { ["--decode", "-d"] };
    if !d.exec.args.iter().any(|a| flag.contains(&a.as_str())) {
        d.exec.args.push((*src.pick(&flag)).to_string());
    }
    match &c.input {
        Some(f) => {
            d.exec.stdin = d.exec.files.remove(f).unwrap_or_default();
            d.exec.args.retain(|a| norm(a) != norm(f));
            if src.chance(1, 2) {
                d.exec.args.insert(0, "-".into());
            }
            d.input = None;
        }
        None => {
            d.exec.files.insert("zz.dat".into(), std::mem::take(&mut d.exec.stdin));
            d.exec.args.retain(|a| a != "-");
            d.exec.args.insert(0, "zz.dat".into());
            d.input = Some("zz.dat".into());
        }
    }
    d
}

/// Bytes that a terminal, an editor or another system gives a meaning: at the ends, next to line ends, or anywhere.
pub fn strange_bytes(src: &mut Src, data: &mut Vec<u8>) {
    for _ in 0..src.range(1, 3) {
        let ends: Vec<usize> = (0..data.len()).filter(|&i| data[i] == b'\n').collect();
        let at = match src.n(6) {
            0 => 0,
            1 => data.len(),
            2 | 3 if !ends.is_empty() => *src.pick(&ends) + src.n(2),
            _ => src.n(data.len() + 1),
        };
        let what = match src.n(3) {
            0 => vec![src.n(32) as u8],
            1 => vec![*src.pick(b"\0\x04\x1a\r\x0c\x1b\x7f\n")],
            _ => src.pick(&["\u{feff}", "\u{85}", "\u{2028}", "\u{fffd}", "\u{200b}", "\u{a0}", "\r\n", "\n\n", " \n", "\n#", "\x1a\n", "\n.\n", "\n---\n", "\n...\n", "#!toon\n"]).as_bytes().to_vec(),
        };
        let n = if src.chance(1, 3) { src.range(1, 5) } else { 1 };
        let _ = data.splice(at..at, what.repeat(n));
    }
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let valid = Some(!src.chance(1, 4));
    let mut c = gen_case(src, Want { valid, alias: false, ..Want::default() });
    if src.chance(1, 3) {
        strange_bytes(src, c.input.as_ref().map_or(&mut c.exec.stdin, |f| c.exec.files.get_mut(f).unwrap()));
    }
    let base = ctx.exec(&c.exec);
    let data = c.input.as_ref().map_or(&c.exec.stdin, |f| &c.exec.files[f]).clone();
    let mut varied = false;
    for _ in 0..2 {
        let switch = src.chance(1, 3);
        let mut d = if switch { other_channel(src, &c) } else { c.clone() };
        transient(src, &mut d.exec);
        if src.chance(1, 2) {
            // cut inside characters and at line ends
            d.exec.read = (3, 1);
            let mut cuts: Vec<u64> = (1..data.len())
                .filter(|&i| data[i] & 0xc0 == 0x80 || data[i] == b'\n' || data[i - 1] == b'\n' || data[i - 1] == b'\\')
                .map(|i| i as u64)
                .collect();
            while cuts.len() > 60 {
                let i = src.n(cuts.len());
                cuts.swap_remove(i);
            }
            d.exec.split = cuts;
        }
        for _ in 0..src.n(4) {
            let n = src.n(3);
            match src.n(4) {
                0 => {
                    let lie = match src.n(4) {
                        0 => 0,
                        1 => src.n(data.len().max(1)) as i64,
                        2 => data.len() as i64 + 1 + src.n(100) as i64,
                        _ => src.n(1 << 20) as i64,
                    };
                    d.exec.plan.push(plan(C_STAT, n, A_STATLIE, lie, true));
                }
                1 => d.exec.plan.push(plan(C_STAT, n, A_ERR, EIO, true)),
                2 => d.exec.plan.push(plan(C_LSEEK, n, A_ERR, EIO, true)),
                _ => d.exec.plan.push(plan(C_READ_IN, src.n(20), A_ERR, EINTR, false)),
            }
        }
        let o = ctx.exec(&d.exec);
        let how = if switch { " from the other channel" } else { "" };
        ensure!(o.status == base.status, "the same input delivered differently{how}: exit status {} instead of {}; {}", o.status, base.status, o.describe());
        ensure!(o.stdout == base.stdout, "the same input delivered differently{how}: other output: {} instead of {}", show(&o.stdout), show(&base.stdout));
        if let Some(f) = &c.output {
            ensure!(o.file(f) == base.file(f), "the same input delivered differently{how}: other content in the output file");
        }
        if !switch {
            ensure!(o.stderr == base.stderr, "the same input delivered differently: other diagnostics: {} instead of {}", show(&o.stderr), show(&base.stderr));
        }
        if o.ok() && !o.overflow {
            let slot = d.input.as_ref().map_or(Some(0), |f| o.names.iter().position(|m| m == norm(f)));
            let skip = if d.input.is_none() && d.exec.std_kind[0] == REGULAR { d.exec.stdin_skip.len() } else { 0 };
            let end = o.log.iter().any(|e| e.raw.op == OP_READ && Some(e.raw.slot as usize) == slot && e.raw.ret == 0 && e.raw.b > 0 && e.raw.a == (skip + data.len()) as u64);
            ensure!(end, "the command succeeded without reading its input to the end");
        }
        varied |= o.short_reads > 0 || o.eintr > 0 || o.fired.iter().any(|n| *n > 0) || switch;
    }
    Ok(varied)
}

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.n(4);
    let file_out = if src.chance(3, 4) { Some(true) } else { None };
    let mut c = gen_case(src, Want { valid: Some(kind >= 2), alias: false, file_out, ..Want::default() });
    transient(src, &mut c.exec);
    let mut must = c.doc.is_none();
    if kind == 2 {
        let o = rehearse(ctx, &c);
        let n = src.n(o.cls_count[C_READ_IN as usize].max(1) as usize);
        c.exec.plan.push(plan(C_READ_IN, n, A_ERR, *src.pick(IO_ERRS), true));
    }
    if kind == 3 {
        let bad: &[&[&str]] = &[
            &["--indent=900"],
            &["--indent=-1"],
            &["--delimiter", ";"],
            &["--delimiter", ",,"],
            &["--no-such-option"],
            &["extra", "arguments"],
            &["--key-folding=maybe"],
            &["--expand-paths=always"],
            &["--flatten-depth=x"],
            &["--flatten-depth"],
        ];
        if src.chance(1, 2) {
            let pre: Vec<String> = src.pick(bad).iter().map(|a| (*a).to_string()).collect();
            // repeated and misplaced options are rejected as well
            c.exec.args.extend(pre);
            must = true;
        } else if let Some(f) = c.input.clone() {
            c.exec.files.remove(&f);
            must = true;
        } else {
            c.exec.plan.push(plan(C_READ_IN, 0, A_ERR, EIO, true));
        }
    }
    let o = ctx.exec(&c.exec);
    let failed_read = o.fired.iter().any(|n| *n > 0);
    if !must && !failed_read {
        return Ok(false);
    }
    let why = if failed_read { "an input that cannot be read" } else { &c.why };
    ensure!(!o.ok(), "exit status 0 for a conversion that must be rejected ({why})");
    ensure!(!o.stderr.is_empty(), "a rejected conversion ({why}) gave no diagnostic");
    ensure!(!success_message(&o), "a rejected conversion ({why}) printed the success message");
    ensure!(o.stdout.is_empty(), "a rejected conversion ({why}) wrote to standard output: {}", show(&o.stdout));
    ensure!(o.log.iter().all(|e| e.raw.op != OP_WRITE || e.raw.slot == 2), "a rejected conversion ({why}) wrote something");
    if let Some(f) = &c.output {
        ensure!(
            o.file(f) == c.exec.files.get(f),
            "a rejected conversion ({why}) changed its output file: {}",
            o.file(f).map_or("removed".into(), |b| show(b))
        );
    }
    ensure!(
        o.log.iter().all(|e| e.raw.op != OP_OPEN || (e.raw.a & (O_CREAT | O_TRUNC)) == 0 && e.raw.a & O_ACCMODE == 0),
        "a rejected conversion ({why}) opened a file for writing"
    );
    for (f, d) in &c.exec.files {
        ensure!(o.file(f) == Some(d), "a rejected conversion ({why}) changed {f}");
    }
    Ok(true)
}

#[derive(Clone)]
struct Acked {
    value: V,
    indent: usize,
    fold: bool,
}

/// C06: a history of commands over one file system, against a map of what was acknowledged.
pub fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let names = ["a", "b", "c"];
    let mut fs = Fs::new();
    let mut json: [Option<V>; 3] = [None, None, None];
    let mut toon: [Option<Acked>; 3] = [None, None, None];
    let steps = src.range(3, 8);
    let mut acks = 0;
    for _ in 0..steps {
        let i = src.n(names.len());
        let (jn, tn) = (format!("{}.json", names[i]), format!("{}.toon", names[i]));
        let act = src.n(5);
        if json[i].is_none() && toon[i].is_none() || act == 0 {
            // a user writes a JSON file
            let cfg = GenCfg { no_dots: src.chance(1, 2), ident_keys: src.chance(1, 6), long: src.chance(1, 8), ..GenCfg::default() };
            let v = if src.chance(1, 10) { gen_big(src, &cfg) } else { gen_value(src, &cfg) };
            let st = gen_json_style(src);
            let mut text = json_text(&v, &st);
            if text.len() > SIZE / 4 {
                text = "[]".into();
            }
            ctx.note(|| format!("a user writes {jn}"));
            json[i] = parse_json(&text);
            fs.insert(jn.clone(), text.into_bytes());
            continue;
        }
        let mut x = Exec::default();
        let encode = if json[i].is_some() && toon[i].is_some() { act < 3 } else { json[i].is_some() };
        let (dest, value, doc, indent, fold);
        if encode {
            let v = json[i].clone().unwrap_or(s("x"));
            let dotless = no_dots(&v);
            fold = dotless && src.chance(1, 2);
            indent = src.range(1, 6);
            let o = EncOpts { indent, delim: *src.pick(&[',', '|', '\t']), fold, flatten: if fold && src.chance(1, 3) { src.n(5) } else { usize::MAX } };
            x.args = vec![jn.clone(), "-o".into(), tn.clone(), format!("--indent={indent}")];
            if o.delim != ',' {
                x.args.push(format!("--delimiter={}", if o.delim == '|' { "|" } else { "tab" }));
            }
            if fold {
                x.args.push("--key-folding=safe".into());
            }
            if o.flatten != usize::MAX {
                x.args.push(format!("--flatten-depth={}", o.flatten));
            }
            if src.chance(1, 4) {
                x.args.push("--stats".into());
            }
            doc = enc::encode(&v, &o).join("\n") + "\n";
            value = v;
            dest = tn.clone();
        } else {
            let Some(a) = toon[i].clone() else { continue };
            x.args = vec![tn.clone(), "-o".into(), jn.clone(), format!("--indent={}", a.indent)];
            if a.fold {
                x.args.push("--expand-paths=safe".into());
            }
            value = dec::canonical_order(&a.value);
            doc = dec::print_json(&value, a.indent, a.fold) + "\n";
            (indent, fold) = (a.indent, a.fold);
            dest = jn.clone();
        }
        x.files = fs.clone();
        transient(src, &mut x);
        let hurt = src.chance(1, 3);
        if hurt {
            match src.n(5) {
                0 => x.plan.push(plan(C_ANY, src.n(12), A_CRASH_AFTER, 0, false)),
                1 => x.plan.push(plan(C_WRITE_OUT, src.n(4), A_CRASH_PARTIAL, src.n(200) as i64, false)),
                2 => x.plan.push(plan(C_WRITE_OUT, src.n(4), A_ERR, EIO, src.chance(1, 2))),
                3 => {
                    x.capacity = Some(src.n(300) as u64);
                }
                _ => x.plan.push(plan(C_READ_IN, src.n(3), A_ERR, EIO, true)),
            }
        }
        let o = ctx.exec(&x);
        let harmed = o.fired.iter().any(|n| *n > 0) || o.nospc > 0;
        // other files
        for (f, d) in &fs {
            if *f != dest {
                ensure!(o.file(f) == Some(d), "{} changed {f}, which it was not told to write", x.args.join(" "));
            }
        }
        for f in o.files.keys() {
            ensure!(fs.contains_key(f) || *f == dest, "{} created {f}", x.args.join(" "));
        }
        let now = o.file(&dest).cloned();
        let old = fs.get(&dest).cloned();
        if o.ok() {
            acks += 1;
            let got = now.clone().unwrap_or_default();
            if encode {
                toon[i] = Some(Acked { value, indent, fold });
            } else {
                // the acknowledged history: what was encoded comes back
                let text = String::from_utf8_lossy(&got).into_owned();
                let back = parse_json_exact(&text);
                ensure!(
                    back.as_ref().is_some_and(|b| same(b, &value)),
                    "a document acknowledged by an encode command reads back differently: {} instead of {}",
                    show(&got),
                    show(doc.as_bytes())
                );
                json[i] = parse_json(&text);
            }
        } else {
            ensure!(harmed, "{} failed although nothing was wrong: {}", x.args.join(" "), o.describe());
            ensure!(
                now == old || now.as_ref().is_some_and(|b| doc.as_bytes().starts_with(b)),
                "{} failed and left neither the old content nor a prefix of the new one: {}",
                x.args.join(" "),
                now.as_ref().map_or("nothing".into(), |b| show(b))
            );
            if now != old {
                if encode {
                    toon[i] = None;
                } else {
                    json[i] = None;
                }
            }
        }
        match now {
            Some(b) => fs.insert(dest, b),
            None => fs.remove(&dest),
        };
    }
    // in the end, everything acknowledged is still there and reads back
    for i in 0..names.len() {
        let Some(a) = &toon[i] else { continue };
        let tn = format!("{}.toon", names[i]);
        let mut x = Exec { files: fs.clone(), ..Exec::default() };
        x.args = vec![tn, format!("--indent={}", a.indent)];
        if a.fold {
            x.args.push("--expand-paths=safe".into());
        }
        let o = ctx.exec(&x);
        ensure!(o.ok(), "an acknowledged document no longer decodes: {}", o.describe());
        let want = dec::canonical_order(&a.value);
        let back = parse_json_exact(&String::from_utf8_lossy(&o.stdout));
        ensure!(back.as_ref().is_some_and(|b| same(b, &want)), "an acknowledged document reads back differently: {}", show(&o.stdout));
        acks += 1;
    }
    Ok(acks >= 2)
}
fn no_dots(v: &V) -> bool {
    match v {
        V::Primitive(_) => true,
        V::Array(a) => a.iter().all(no_dots),
        V::Object(f) => f.iter().all(|(k, x)| !k.contains('.') && no_dots(x)),
    }
}

pub fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = gen_case(src, Want { valid: None, ..Want::default() });
    let plain = !src.chance(1, 6);
    if !plain {
        c.exec.args.push((*src.pick(&["--help", "--version", "--bogus", "--indent=x"])).to_string());
        c.doc = None;
    }
    let base = ctx.exec(&c.exec);
    for k in 0..2 {
        let mut x = c.exec.clone();
        x.rand_seed = src.word();
        x.clock0 = (src.choose(4_000_000_000) * 1_000_000_000) as i64;
        x.pid = 1 + src.choose(4_000_000) as u32;
        const ENVS: &[(&str, &str)] = &[
            ("LANG", "de_DE.UTF-8"),
            ("LC_ALL", "tr_TR.UTF-8"),
            ("TZ", "Asia/Tokyo"),
            ("HOME", "/nonexistent"),
            ("RUST_LOG", "trace"),
            ("TMPDIR", "/sim"),
            ("NO_COLOR", "1"),
            ("TERM", "dumb"),
            ("TOON_INDENT", "7"),
            ("TOON_DELIMITER", "|"),
            ("TOON_STRICT", "0"),
            ("INDENT", "7"),
            ("DELIMITER", "|"),
            ("OUTPUT", "elsewhere"),
            ("USER", "someone"),
            ("RUST_BACKTRACE", "0"),
            ("COLUMNS", "31"),
        ];
        x.env_seed = 1 + src.n(1_000_000) as u32;
        x.host_seed = 1 + src.n(1_000_000) as u32;
        if plain && src.chance(1, 2) {
            x.std_kind = [*src.pick(&[PIPE, TERMINAL, REGULAR]), *src.pick(&[PIPE, TERMINAL, REGULAR]), *src.pick(&[PIPE, TERMINAL, REGULAR])];
        }
        for _ in 0..src.n(6) {
            let (a, b) = *src.pick(ENVS);
            x.env.push((a.into(), b.into()));
        }
        // whatever else it looks for is there this time
        const MADE_UP: &[&str] = &[
            "7", "1", "true", "", "indent=7\n", "indent = 7\n", "indent: 7\n", "{\"indent\":7}", "indent=7\ndelimiter=|\nstrict=false\n", "[toon]\nindent = 7\ndelimiter = \"|\"\nstrict = false\nstats = true\n",
            "indent: 7\ndelimiter: \"|\"\nstrict: false\nstats: true\nexpand_paths: safe\nkey_folding: safe\n", "{\"indent\":7,\"delimiter\":\"|\",\"strict\":false,\"stats\":true}", "--indent 7 --delimiter | --stats --no-strict\n", "delimiter=|",
            "delimiter=tab", "strict=false", "stats=true", "key-folding=safe", "7\n|\n", "x",
        ];
        for (_, f) in &base.missed {
            let named = [&c.input, &c.output].into_iter().flatten().any(|n| norm(n) == f);
            if !named && !x.files.contains_key(f) && x.files.len() < 9 && src.chance(3, 4) {
                x.files.insert(f.clone(), src.pick(MADE_UP).as_bytes().to_vec());
                ctx.fault("file made up that the program looks for", 1);
            }
        }
        if k == 1 {
            x.files.insert("other.json".into(), b"{}".to_vec());
            transient(src, &mut x);
            if !plain {
                // messages of the argument parser are coloured on terminals
                x.std_kind = c.exec.std_kind;
            }
            if let Some(f) = &c.output {
                if c.input.as_ref() != Some(f) && c.doc.is_some() && base.ok() {
                    x.files.insert(f.clone(), b"something else was here".to_vec());
                }
            }
        }
        let o = ctx.exec(&x);
        ctx.stats.add("environment variables asked for", o.env_asked.split_whitespace().count() as u64);
        ctx.note(|| format!("  asked for: {}", o.env_asked));
        ctx.fault("other hash seeds, clock, process id and environment", 1);
        ensure!(o.status == base.status, "exit status {} under other hash seeds, clock, process id or environment; {} before", o.status, base.status);
        ensure!(o.stdout == base.stdout, "other output under other hash seeds, clock, process id or environment: {} and {}", show(&o.stdout), show(&base.stdout));
        ensure!(o.stderr == base.stderr, "other diagnostics under other hash seeds, clock, process id or environment: {} and {}", show(&o.stderr), show(&base.stderr));
        if let Some(f) = &c.output {
            ensure!(o.file(f) == base.file(f), "other content in the output file under other hash seeds, clock, process id or environment");
        }
    }
    Ok(true)
}

pub fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = gen_case(src, Want { valid: None, ..Want::default() });
    let n_in = c.input.as_ref().map_or(c.exec.stdin.len(), |f| c.exec.files[f].len());
    let n_out = c.doc.as_ref().map_or(0, Vec::len);
    transient(src, &mut c.exec);
    let mut storms = 0;
    let mut lasting = false;
    for _ in 0..src.n(3) {
        let cls = *src.pick(&[C_READ_IN, C_WRITE_OUT, C_OPEN_IN, C_OPEN_OUT]);
        let at = src.n(5);
        if src.chance(1, 2) {
            // an interruption storm that ends
            let n = src.range(1, 25);
            for i in 0..n.min(MAXPLAN - c.exec.plan.len()) {
                c.exec.plan.push(plan(cls, at + i, A_ERR, EINTR, false));
                storms += 1;
            }
        } else {
            lasting = true;
            if cls == C_WRITE_OUT && src.chance(1, 2) {
                c.exec.plan.push(plan(cls, at, A_ZERO, 0, true));
            } else {
                c.exec.plan.push(plan(cls, at, A_ERR, *src.pick(IO_ERRS), true));
            }
        }
        if c.exec.plan.len() >= MAXPLAN {
            break;
        }
    }
    if src.chance(1, 4) && c.exec.plan.len() < MAXPLAN {
        // a size that is not, or not any more, that of the file
        let lie = *src.pick(&[0, n_in as i64 / 2, n_in as i64 + 1, n_in as i64 + 4096, 1 << 20]);
        let (cls, a, x) = *src.pick(&[(C_STAT, A_STATLIE, lie), (C_STAT, A_STATLIE, lie), (C_STAT, A_STATLIE, lie), (C_STAT, A_ERR, EIO), (C_LSEEK, A_ERR, EIO)]);
        c.exec.plan.push(plan(cls, src.n(2), a, x, true));
    }
    let bound = 200 + 2 * n_in + 3 * n_out;
    c.exec.max_ops = (bound * 2 + 5000) as u32;
    let o = ctx.exec(&c.exec);
    ensure!(!o.livelock, "the command was still making system calls after {} of them", c.exec.max_ops);
    ensure!(!o.hung && o.status != -24 && o.status != -9, "the command did not end: {}", o.describe());
    let ops = o.log.len();
    let allowed = bound + 3 * (o.eintr as usize + storms);
    ensure!(ops <= allowed, "{ops} system calls for {n_in} bytes of input and {n_out} of output");
    // nothing is retried for ever
    let mut run = 0usize;
    let mut last = (0u8, 0u8, 0i64);
    let mut eofs = 0;
    let slot_in = c.input.as_ref().map_or(Some(0), |f| o.names.iter().position(|m| m == norm(f)));
    for e in &o.log {
        let r = &e.raw;
        let bad = r.ret < 0 && i64::from(r.err) != EINTR || r.op == OP_WRITE && r.ret == 0 && r.b > 0;
        let k = (r.op, r.slot, i64::from(r.err));
        run = if bad && k == last { run + 1 } else { usize::from(bad) };
        last = if bad { k } else { (0, 0, 0) };
        ensure!(run <= 8, "a failing call was repeated {run} times in a row");
        if r.op == OP_READ && Some(r.slot as usize) == slot_in && r.ret == 0 && r.b > 0 {
            eofs += 1;
        }
    }
    ensure!(eofs <= 4, "{eofs} reads at end of file");
    if !lasting && c.doc.is_some() {
        ensure!(o.ok(), "the faults stopped, but the command failed: {}", o.describe());
        delivered(&c, &o)?;
    }
    Ok(ctx.faults_in_eval > 0)
}

/// What `--stats` says about a text: about four visible characters, and at least one word, a token.
fn tokens(text: &str) -> usize {
    let visible = text.chars().filter(|c| !c.is_whitespace()).count();
    let words = text.split_whitespace().count();
    (visible / 4).max(words).max(1)
}

/// The input as the user typed it.
fn typed(c: &Case) -> Option<String> {
    let f = c.input.as_ref()?;
    Some(c.exec.args.iter().find(|a| *a == f || a.strip_prefix("./") == Some(f)).unwrap_or(f).clone())
}

/// All that a command says that succeeds.
fn report(c: &Case) -> String {
    let mut t = String::new();
    let doc = c.doc.as_deref().unwrap_or(b"");
    if c.encode && c.exec.args.iter().any(|a| a == "--stats") {
        let input = c.input.as_ref().map_or(Some(&c.exec.stdin), |f| c.exec.files.get(f)).map_or(&[][..], Vec::as_slice);
        let (a, b) = (tokens(&String::from_utf8_lossy(input)), tokens(&String::from_utf8_lossy(&doc[..doc.len().saturating_sub(1)])));
        t += &format!("\nToken estimates: ~{a} (JSON) → ~{b} (TOON)\n");
        if a > b {
            t += &format!("Saved ~{} tokens (-{:.1}%)\n", a - b, (a - b) as f64 * 100.0 / a as f64);
        }
    }
    if let Some(o) = &c.output {
        t += &format!("{} `{}` → `{o}`\n", if c.encode { "Encoded" } else { "Decoded" }, typed(c).unwrap_or("stdin".into()));
    }
    t
}

/// The line that strict decoding stumbles over first, when it is about indentation.
fn bad_indentation(text: &str, indent: usize) -> Option<usize> {
    text.split('\n').enumerate().find_map(|(i, l)| {
        let lead = &l[..l.len() - l.trim_start_matches([' ', '\t']).len()];
        if lead.len() == l.len() {
            return None;
        }
        (lead.contains('\t') || indent > 0 && lead.len() % indent != 0).then_some(i + 1)
    })
}

/// C10: what the command says on standard error is what happened.
pub fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = gen_case(src, Want { valid: None, alias: false, ..Want::default() });
    if src.chance(1, 2) {
        transient(src, &mut c.exec);
    }
    let mut usage: Option<&str> = None;
    let mut missing = None;
    match src.n(8) {
        0 | 1 if c.doc.is_some() => {
            let o = rehearse(ctx, &c);
            let calls = |src: &mut Src, cls: u32| src.n(o.cls_count[cls as usize].max(1) as usize);
            match src.n(6) {
                0 => {
                    let n = calls(src, C_WRITE_OUT);
                    c.exec.plan.push(plan(C_WRITE_OUT, n, A_ERR, *src.pick(IO_ERRS), true));
                }
                1 => {
                    let n = calls(src, C_WRITE_OUT);
                    c.exec.plan.push(plan(C_WRITE_OUT, n, A_ZERO, 0, true));
                }
                2 => {
                    let n = calls(src, C_READ_IN);
                    c.exec.plan.push(plan(C_READ_IN, n, A_ERR, *src.pick(IO_ERRS), true));
                }
                3 => c.exec.plan.push(plan(C_OPEN_OUT, 0, A_ERR, *src.pick(OPEN_OUT_ERRS), true)),
                4 => c.exec.plan.push(plan(C_OPEN_IN, 0, A_ERR, *src.pick(OPEN_IN_ERRS), true)),
                _ => {
                    c.exec.capacity = Some(src.choose(c.doc.as_ref().map_or(0, Vec::len) as u64));
                    c.exec.cap_errno = *src.pick(&[ENOSPC, EDQUOT, EFBIG]);
                }
            }
        }
        2 if c.doc.is_some() => {
            // killed on the way
            let o = rehearse(ctx, &c);
            let n = src.n(o.cls_count[C_ANY as usize].max(1) as usize);
            c.exec.plan.push(plan(C_ANY, n, *src.pick(&[A_CRASH_BEFORE, A_CRASH_AFTER]), 0, false));
        }
        3 => match (src.n(3), c.input.clone()) {
            (0, Some(f)) => {
                c.exec.files.remove(&f);
                missing = Some(2);
            }
            (1, _) if c.output.is_some() && c.doc.is_some() => {
                let f = c.output.clone().unwrap_or_default();
                c.exec.files.entry(f.clone()).or_default();
                c.exec.readonly.push(f);
            }
            _ => {
                const BAD: &[(&[&str], &str)] = &[
                    (&["--indent=900"], "900"),
                    (&["--indent=-1"], "-1"),
                    (&["--indent=17"], "17"),
                    (&["--delimiter", ";"], ";"),
                    (&["--no-such-option"], "--no-such-option"),
                    (&["one", "too", "many"], "many"),
                    (&["--key-folding=maybe"], "maybe"),
                    (&["--expand-paths=always"], "always"),
                    (&["--flatten-depth=x"], "x"),
                    (&["--flatten-depth"], "--flatten-depth"),
                    (&["--encode", "--decode"], "--decode"),
                ];
                let (a, b) = src.pick(BAD);
                if !a.iter().any(|x| c.exec.args.iter().any(|y| y.split('=').next() == x.split('=').next() || x.starts_with("--delim") && y.starts_with("--delim"))) {
                    c.exec.args.extend(a.iter().map(|x| (*x).to_string()));
                    usage = Some(if *b == "many" || *b == "--decode" { "" } else { b });
                    ctx.fault("argument that is not accepted", 1);
                }
            }
        },
        _ => {}
    }
    let o = ctx.exec(&c.exec);
    let said = String::from_utf8_lossy(&o.stderr).into_owned();
    let want = report(&c);
    if let Some(u) = usage {
        ensure!(o.status == 2 && o.stdout.is_empty(), "the arguments {:?} end with {}", c.exec.args, o.describe());
        ensure!(said.starts_with("error: ") && said.contains(u), "the arguments {:?} are rejected with {said:?}", c.exec.args);
        return Ok(true);
    }
    // success is announced when all is done, not earlier
    if let (Some(doc), false) = (&c.doc, want.is_empty()) {
        let slot = c.output.as_ref().map_or(Some(1), |f| o.names.iter().position(|m| m == norm(f)));
        let mut d = Disk::new(&c.exec, &o);
        for (i, e) in o.log.iter().enumerate() {
            d.step(e);
            if e.raw.op == OP_WRITE && e.raw.slot == 2 && e.raw.ret > 0 {
                let so_far = d.slots[2].as_deref().unwrap_or(b"");
                if want.as_bytes().starts_with(so_far) {
                    let now = slot.and_then(|s| d.slots[s].as_ref());
                    ensure!(now == Some(doc), "success is announced by operation {} of {}, when the destination holds {} of the {} bytes of the document", i + 1, o.log.len(), now.map_or(0, Vec::len), doc.len());
                }
            }
        }
    }
    if o.crashed {
        return Ok(true);
    }
    if o.ok() {
        ensure!(c.doc.is_some(), "a conversion that must be rejected ({}) is reported as done", c.why);
        ensure!(said == want, "the command reports {said:?}, what it did is {want:?}");
        return Ok(!want.is_empty());
    }
    ensure!(o.status == 1, "the command ended with {}", o.describe());
    ensure!(said.ends_with('\n'), "the message {said:?} is not a line");
    // an operation that failed: which, on what, and why
    let failed = o.log.iter().rev().find(|e| {
        let r = &e.raw;
        let bad = r.ret < 0 && i64::from(r.err) != EINTR || r.op == OP_WRITE && r.ret == 0 && r.b > 0;
        bad && [C_OPEN_IN, C_READ_IN, C_OPEN_OUT, C_WRITE_OUT].contains(&u32::from(r.cls))
    });
    let (cls, err) = match (failed, missing) {
        (Some(e), _) => (u32::from(e.raw.cls), i64::from(e.raw.err)),
        (None, Some(e)) => (C_OPEN_IN, e),
        (None, None) => {
            ensure!(c.doc.is_none(), "the command failed although nothing was wrong: {}", o.describe());
            let input = c.input.as_ref().map_or(&c.exec.stdin, |f| &c.exec.files[f]);
            let Ok(text) = std::str::from_utf8(input) else {
                ensure!(said.contains("UTF-8") && typed(&c).map_or(said.contains("stdin"), |f| said.contains(&f)), "input that is not UTF-8 is rejected with {said:?}");
                return Ok(true);
            };
            // a line that is named is one of the document's
            let at = said.to_lowercase().find("line ").and_then(|i| said[i + 5..].chars().take_while(char::is_ascii_digit).collect::<String>().parse::<usize>().ok());
            let lines = text.split('\n').count();
            if let Some(n) = at {
                ctx.stats.add("rejections that name a line", 1);
                ensure!(n <= lines && (n > 0 || c.encode), "the message {said:?} names line {n} of a document of {lines} lines");
            }
            if c.why == "tab in indentation" || c.why == "odd indentation" {
                let indent = c.exec.args.iter().find_map(|a| a.strip_prefix("--indent=")).and_then(|a| a.parse().ok()).unwrap_or(2);
                let first = bad_indentation(text, indent);
                ensure!(at.is_some() && at == first, "the message {said:?} does not name line {first:?}, whose indentation is wrong");
            }
            ensure!(!want.is_empty() && said != want || want.is_empty(), "a rejected conversion is reported as done");
            return Ok(true);
        }
    };
    let low = said.to_lowercase();
    let what = match cls {
        C_OPEN_OUT => "create",
        C_WRITE_OUT => "write",
        _ => "read",
    };
    let whom = if cls == C_OPEN_OUT || cls == C_WRITE_OUT { c.output.clone().unwrap_or("stdout".into()) } else { typed(&c).unwrap_or("stdin".into()) };
    let why = if err == 0 { String::new() } else { format!("(os error {err})") };
    ensure!(low.contains(what) && said.contains(&whom) && said.contains(&why), "after a failure to {what} {whom} {why} the message is {said:?}");
    ensure!(said.matches('\n').count() == 1, "the message {said:?} is more than one line");
    Ok(true)
}

pub fn c09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = gen_case(src, Want { valid: None, ..Want::default() });
    transient(src, &mut c.exec);
    let kind = src.n(4);
    match kind {
        0 => {}
        1 => {
            // a standard error that fails or is full
            let n = src.n(3);
            let (a, e) = *src.pick(&[(A_ERR, EIO), (A_ERR, ENOSPC), (A_ERR, EPIPE), (A_ERR, EBADF), (A_ZERO, 0)]);
            c.exec.plan.push(plan(C_WRITE_ERR, n, a, e, src.chance(2, 3)));
        }
        2 => {
            let o = rehearse(ctx, &c);
            hard_faults(src, &mut c.exec, &o);
        }
        _ => {
            let o = rehearse(ctx, &c);
            let n = src.n(o.cls_count[C_ANY as usize].max(1) as usize);
            c.exec.plan.push(plan(C_ANY, n, *src.pick(&[A_CRASH_BEFORE, A_CRASH_AFTER]), 0, false));
        }
    }
    let o = ctx.exec(&c.exec);
    if let Some(e) = &o.escape {
        return Err(format!("the command reached for {e}, outside its files"));
    }
    let dest = c.output.as_deref().map(norm);
    let source = c.input.as_deref().map(norm);
    for (how, f) in &o.missed {
        ensure!(*how != 'o' || dest == Some(f) || source == Some(f), "the command opened {f}, which is neither its input nor its output");
    }
    for e in &o.log {
        let r = &e.raw;
        let name = o.names.get(r.slot as usize).map_or("", String::as_str);
        let file = r.slot > 2;
        let writes = match r.op {
            OP_OPEN => r.a & O_ACCMODE != 0 || r.a & (O_CREAT | O_TRUNC) != 0,
            OP_WRITE | OP_TRUNC | OP_UNLINK | OP_RENAME | OP_ATTR => file,
            _ => false,
        };
        if r.op == OP_OPEN && r.slot != 255 {
            ensure!(dest == Some(name) || source == Some(name), "the command opened {name}, which is neither its input nor its output");
        }
        if writes && r.slot != 255 {
            ensure!(dest == Some(name), "{} of {name}, which is not the file named by -o", if r.op == OP_OPEN { "opening for writing" } else { "modification" });
        }
        if writes && r.slot == 255 {
            ensure!(dest.is_some(), "a file was opened for writing without -o");
        }
        if r.op == OP_UNLINK || r.op == OP_RENAME {
            return Err("a file was removed or renamed".into());
        }
        ensure!(!(r.op == OP_WRITE && r.slot == 0), "a write to standard input");
    }
    for (f, d) in &c.exec.files {
        if dest != Some(norm(f)) {
            ensure!(o.file(f) == Some(d), "the file {f} was changed");
        }
    }
    for f in o.files.keys() {
        ensure!(c.exec.files.keys().any(|g| norm(g) == f) || dest == Some(f.as_str()), "the file {f} was created");
    }
    let empty = vec![];
    let doc = c.doc.as_ref().unwrap_or(&empty);
    if dest.is_some() {
        ensure!(o.stdout.is_empty(), "with -o, standard output got {}", show(&o.stdout));
    } else {
        ensure!(doc.starts_with(&o.stdout), "standard output holds something other than the document: {}", show(&o.stdout));
    }
    if kind <= 1 && c.doc.is_some() {
        delivered(&c, &o).map_err(|m| format!("{}{m}", if kind == 1 { "with a failing standard error, " } else { "" }))?;
        if kind == 0 && dest.is_none() && !c.exec.args.iter().any(|a| a == "--stats") {
            ensure!(o.stderr.is_empty(), "a plain successful conversion wrote to standard error: {}", show(&o.stderr));
        }
    }
    Ok(ctx.faults_in_eval > 0 || kind == 0)
}

