#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree, offline, into /verif/.build.

  toon        the real command-line program, as the repository's own dev profile builds it
  simos.so    the simulated operating system it is run under
  toonsim     the simulator, linked against an instrumented build of the library: the compiler inserts a
              call at every basic block (SanitizerCoverage), which is where the simulated threads can be
              preempted. The sources are compiled as they are.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TOONSIM_REPO", "/repo")
OUT = os.environ.get("TOONSIM_BUILD", os.path.join(VERIF, ".build"))
SIM = os.path.join(VERIF, "sim")


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
    )
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "TOON_SPEC_FIXTURES"):
        e.pop(k, None)
    return e


def sources():
    files = []
    for base in (os.path.join(REPO, "src"), SIM):
        for d, dirs, names in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "target")
            files += [os.path.join(d, n) for n in sorted(names)]
    files += [os.path.join(REPO, n) for n in ("Cargo.toml", "Cargo.lock", "build.rs", ".cargo/config.toml", "rust-toolchain.toml")]
    files.append(os.path.abspath(__file__))
    h = hashlib.sha256()
    for f in files:
        if os.path.exists(f):
            with open(f, "rb") as fh:
                data = fh.read()
            h.update(f"{f}\0{len(data)}\0".encode())
            h.update(data)
    return h.hexdigest()


def both(name, rlib):
    """Cargo keeps the metadata of an rlib in a separate file; rustc wants to be given both."""
    meta = rlib[:-5] + ".rmeta"
    r = ["--extern", f"{name}={rlib}"]
    if os.path.exists(meta):
        r += ["--extern", f"{name}={meta}"]
    return r


def run(cmd, **kw):
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stderr.decode(errors="replace")[-6000:])
        sys.stderr.write(f"\nbuild failed: {' '.join(map(str, cmd))[:300]}\n")
        sys.exit(3)
    return p.stdout.decode(errors="replace")


def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(OUT, "stamp")
    want = sources()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and all(os.path.exists(os.path.join(OUT, n)) for n in ("toon", "simos.so", "toonsim")):
        return
    if os.path.exists(stamp):
        os.unlink(stamp)
    t0 = time.time()
    # cargo goes by file times, which a copied or patched tree may not reflect
    for n in ("src/lib.rs", "src/main.rs"):
        os.utime(os.path.join(REPO, n))
    msgs = run(["cargo", "test", "--workspace", "--all-features", "--test", "cli_conversion", "--no-run",
                "--locked", "--offline", "--message-format=json"], cwd=REPO)
    exe, rlibs, dirs = None, {}, []
    for line in msgs.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        t, prof = m["target"], m["profile"]
        for f in m["filenames"]:
            d = os.path.dirname(f)
            if d not in dirs:
                dirs.append(d)
        if t["name"] == "toon" and t["kind"] == ["bin"] and m.get("executable") and not prof["test"]:
            exe = m["executable"]
        if "lib" in t["kind"] and prof["opt_level"] != "0" and not prof["test"]:
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    rlibs[t["name"]] = f
    if not exe or not all(n in rlibs for n in ("toon", "asupersync", "serde_json", "clap")):
        sys.stderr.write("build: an expected artifact is missing from the repository's build\n")
        sys.exit(3)
    shutil.copyfile(exe, os.path.join(OUT, "toon.tmp"))
    os.chmod(os.path.join(OUT, "toon.tmp"), 0o755)
    os.replace(os.path.join(OUT, "toon.tmp"), os.path.join(OUT, "toon"))
    deps = []
    for d in dirs:
        deps += ["-L", f"dependency={d}"]
    externs = []
    for n, f in rlibs.items():
        if n in ("asupersync", "serde_json", "clap", "serde", "thiserror", "anyhow", "tracing", "chrono"):
            externs += both(n, f)
    # version and package data for env!() in the sources
    pkg = {}
    with open(os.path.join(REPO, "Cargo.toml")) as fh:
        for line in fh:
            for k in ("name", "version", "description", "authors"):
                if line.startswith(k + " = ") and k not in pkg:
                    pkg[k] = line.split('"')[1] if '"' in line else ""
            if line.startswith("[dependencies"):
                break
    e = env()
    e.update(CARGO_PKG_NAME=pkg.get("name", "tru"), CARGO_PKG_VERSION=pkg.get("version", "0"), CARGO_CRATE_NAME="toon",
             CARGO_PKG_DESCRIPTION=pkg.get("description", ""), CARGO_PKG_AUTHORS="", CARGO_MANIFEST_DIR=REPO)
    san = ["-C", "passes=sancov-module", "-C", "llvm-args=-sanitizer-coverage-level=3",
           "-C", "llvm-args=-sanitizer-coverage-trace-pc-guard"]
    common = ["-Z", "threads=4", "--cap-lints", "allow", "-C", "debuginfo=line-tables-only"]
    tmp = os.path.join(OUT, "lib")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "plain"))

    def start(cmd, cwd=REPO):
        return cmd, subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def finish(p):
        cmd, p = p
        err = p.communicate()[1]
        if p.returncode != 0:
            sys.stderr.write(err.decode(errors="replace")[-6000:])
            sys.stderr.write(f"\nbuild failed: {' '.join(cmd)[:400]}\n")
            sys.exit(3)

    lib = ["rustc", "--edition", "2024", "--crate-type", "rlib", os.path.join(REPO, "src/lib.rs"),
           "-C", "opt-level=1", "-C", "codegen-units=8", "-C", "overflow-checks=on", "-C", "debug-assertions=on"] + common + deps + externs
    jobs = [
        start(lib + ["--crate-name", "toon", "--cfg", 'feature="async-stream"', "--out-dir", tmp] + san),
        start(lib + ["--crate-name", "toon_plain", "--out-dir", os.path.join(tmp, "plain")]),
        start(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(OUT, "simos.so"), os.path.join(SIM, "simos.c"), "-ldl"]),
    ]
    for j in jobs:
        finish(j)
    finish(start(["rustc", "--edition", "2021", "--crate-name", "toonsim", os.path.join(SIM, "src/main.rs"),
                  "-C", "opt-level=2", "-C", "codegen-units=16", "-C", "overflow-checks=off", "-o", os.path.join(OUT, "toonsim"),
                  "--extern", f"toon={tmp}/libtoon.rlib", "--extern", f"toon_plain={tmp}/plain/libtoon_plain.rlib",
                  "-L", f"dependency={tmp}"] + both("asupersync", rlibs["asupersync"]) + both("serde_json", rlibs["serde_json"])
                 + common + deps, cwd=SIM))
    with open(stamp, "w") as fh:
        fh.write(want)
    sys.stderr.write(f"built from {REPO} in {time.time() - t0:.1f} s\n")


main()
