//! The properties and how each is explored.

mod cli;
mod data;
mod stream;
mod threads;

use crate::ctx::{Ctx, Res};
use crate::tape::Src;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
    pub needs_os: bool,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumes: &'static [&'static str],
}

const OS_REAL: &[&str] = &["the toon program as built by the repository's dev profile (argument parsing, conversion, standard library I/O)", "libc memory allocator"];
const OS_STUB: &[&str] = &["open, read, write, seek, stat, close, rename, unlink and related system calls, and the file system behind them", "clock, process id, random bytes, environment, working directory", "standard input, output and error"];
const OS_MEASURE: &str = "executions with different sequences of (system call, file, injected fault, error, result size class) and exit status";
const OS_ASSUMES: &[&str] = &["the program reaches the operating system only through libc functions the simulator replaces (an attempt to open a real file for writing is reported)"];

const fn cli_prop(id: &'static str, run: fn(&mut Src, &mut Ctx) -> Res, quick: u64, thorough: u64, rule: &'static str) -> Prop {
    Prop { id, run, needs_os: true, quick, thorough, rule, measure: OS_MEASURE, real: OS_REAL, stub: OS_STUB, assumes: OS_ASSUMES }
}

pub const PROPS: &[Prop] = &[
    cli_prop("C01", cli::c01, 120_000, 3_000_000, "a random command line over a random document with a known conversion, under random delivery of reads and writes and harmless faults, in a third of the runs also 1 to 3 hard I/O faults; non-trivial: the command exited 0 and at least one fault or short transfer was injected"),
    cli_prop("C02", cli::c02, 120_000, 3_000_000, "a random valid command with one I/O failure aimed at a call it makes (open, read, create, write, last write, full disk); non-trivial: the failure was injected"),
    cli_prop("C03", cli::c03, 120_000, 3_000_000, "a random command killed or failed at a point chosen among the calls it makes; after every operation the destination is compared with its old content and the prefixes of the known document; non-trivial: the fault was injected"),
    cli_prop("C04", cli::c04, 120_000, 3_000_000, "a random command run with plain delivery and twice with other deliveries of the same bytes; non-trivial: the deliveries differed"),
    cli_prop("C05", cli::c05, 120_000, 3_000_000, "a random command that must be rejected (bytes that are not UTF-8, spoilt JSON or TOON, expansion conflict, lasting read error, bad arguments, missing input); non-trivial: the rejection is certain"),
    cli_prop("C06", cli::c06, 120_000, 3_000_000, "a history of 3 to 8 writes, encodes and decodes over three names with faults and crashes, then every acknowledged document is decoded; non-trivial: at least two commands were acknowledged"),
    cli_prop("C07", cli::c07, 120_000, 3_000_000, "a random command run under three sets of hash seeds, clock, process id, environment and neighbouring files; all runs are non-trivial"),
    cli_prop("C08", cli::c08, 120_000, 3_000_000, "a random command under storms of interrupted calls and lasting errors; non-trivial: at least one was injected"),
    cli_prop("C09", cli::c09, 120_000, 3_000_000, "a random command, undisturbed, with failing standard error, with hard faults or killed; non-trivial: undisturbed or a fault was injected"),
    cli_prop("C10", cli::c10, 120_000, 3_000_000, "a random command, undisturbed, with one lasting I/O failure, killed, over an unusable input or with unusable arguments; what it says on standard error is compared with what the log of operations shows; non-trivial: it had something to report"),
    lib_prop("C11", stream::c11, 600_000, 40_000_000, STREAM_MEASURE, STREAM_REAL, STREAM_STUB, "1 to 4 async decode streams over valid, flat, damaged or random line lists, polled in a random interleaving with fresh wakers and random drops; each is compared with the synchronous decoder; non-trivial: a stream of more than one line ran to its end"),
    lib_prop("C12", stream::c12, 800_000, 40_000_000, STREAM_MEASURE, STREAM_REAL, STREAM_STUB, "1 or 2 async decode streams polled beyond their end, in half the runs over a source that would give lines again after its end; non-trivial: a stream was polled after its end"),
    lib_prop("C13", stream::c13, 600_000, 40_000_000, STREAM_MEASURE, STREAM_REAL, STREAM_STUB, "an async decode stream over a document that is flat throughout or at first; the line source checks at every request how many events were delivered; non-trivial: more than one field"),
    lib_prop("C14", stream::c14, 500_000, 30_000_000, STREAM_MEASURE, STREAM_REAL, STREAM_STUB, "1 to 3 async encode streams over random values, options and replacers, interleaved, polled beyond their end or dropped, their length read around every poll; non-trivial: more than one item was yielded"),
    lib_prop("C15", stream::c15, 60_000, 4_000_000, STREAM_MEASURE, STREAM_REAL, STREAM_STUB, "1 to 4 async calls (every public async function, also of the build without the async feature) interleaved with late wake-ups, changing wakers and threads and drops at suspension points, compared with the synchronous calls; non-trivial: an input of more than one line"),
    lib_prop("C16", threads::c16, 120_000, 8_000_000, THREAD_MEASURE, THREAD_REAL, THREAD_STUB, "2 to 6 calls of every public kind on threads of a simulated scheduler that preempts at basic blocks, allocations and callbacks, some with callbacks that call again, panic or wait for another thread's callback; compared with the same calls alone, before and after; non-trivial: more thread switches than threads"),
    lib_prop("C17", threads::c17, 1_000_000, 60_000_000, "different (answer script, entry point, number of calls)", THREAD_REAL, &["the replacer, scripted by the seed"], "a replacer that answers by script (keep, drop, replace by any value), may panic or encode re-entrantly, under one of 14 entry points; its calls and the output are compared with a model; non-trivial: more than one call"),
    os_lib_prop("C18", data::c18, 1_000_000, 60_000_000, "different sets of alterations", DATA_REAL, DATA_STUB, "a random document in a random spelling, 1 to 3 of whose arrays lose, repeat or gain members, lose or repeat cells, or have their declared length changed; strict decoding by two of ten entry points, and in some runs by the program; non-trivial: the document has an array"),
    os_lib_prop("C19", data::c19, 600_000, 40_000_000, "different corrupted texts", DATA_REAL, DATA_STUB, "a random document (also deeply nested) after 0 to 7 faults on lines and bytes, decoded strictly or leniently by two of ten entry points under a budget of memory and executed basic blocks, and in some runs by the program; non-trivial: at least one fault was injected"),
    os_lib_prop("C20", data::c20, 500_000, 50_000_000, "different documents", DATA_REAL, DATA_STUB, "a random document cut off after some or all of its lines, decoded strictly; non-trivial: the document has more than one line"),
    lib_prop("C21", data::c21, 3_000_000, 200_000_000, "different sequences of event kinds", DATA_REAL, &["the producer of events"], "the events of a random value after 0 to 5 losses, repetitions, exchanges, insertions and cuts, given to both consumers and compared with a model; non-trivial: more than one event"),
    os_lib_prop("C22", data::c22, 800_000, 80_000_000, "different damaged documents", DATA_REAL, DATA_STUB, "a random document whose keys and scalars carry marks, after 1 to 3 losses, moves, repetitions and shifts of lines and blocks or changes of bytes, decoded strictly; all marks of an accepted text must be in what is returned; non-trivial: the damaged text was accepted"),
    os_lib_prop("C23", data::c23, 400_000, 40_000_000, "different faulty documents", DATA_REAL, DATA_STUB, "a random document after 0 to 8 faults on lines, blanks and bytes, decoded strictly or leniently by all nineteen entry points, and in some runs by the program; one run in eight asks for two documents in turn that differ in a few letters; non-trivial: the text has more than one line"),
    os_lib_prop("C24", threads::c24, 250_000, 25_000_000, "different orders of polls", DATA_REAL, &["the executor", "the operating system of the runs that execute the program"], "a random value, options and in a quarter of the runs a scripted replacer, given to six of the thirteen encode entry points at a time, to json_to_toon, to the five asynchronous forms again under one random schedule with cancellations, and in some runs to the program; non-trivial: more than one line"),
];
const DATA_REAL: &[&str] = &["the toon library with the async-stream feature, compiled from the repository", "the toon program, in the runs that execute it"];
const DATA_STUB: &[&str] = &["the storage or channel the document passes through", "the operating system of the runs that execute the program"];
#[allow(clippy::too_many_arguments)]
const fn os_lib_prop(
    id: &'static str,
    run: fn(&mut Src, &mut Ctx) -> Res,
    quick: u64,
    thorough: u64,
    measure: &'static str,
    real: &'static [&'static str],
    stub: &'static [&'static str],
    rule: &'static str,
) -> Prop {
    Prop { id, run, needs_os: true, quick, thorough, rule, measure, real, stub, assumes: OS_ASSUMES }
}
const THREAD_REAL: &[&str] = &["the toon library with the async-stream feature, compiled from the repository with a call inserted at every basic block", "std's locks, channels and barriers"];
const THREAD_STUB: &[&str] = &["the thread scheduler and futex system call", "random bytes for hash seeds", "line sources and replacers"];
const THREAD_MEASURE: &str = "different sequences of (running thread, number of preemption points passed)";


#[allow(clippy::too_many_arguments)]
const fn lib_prop(
    id: &'static str,
    run: fn(&mut Src, &mut Ctx) -> Res,
    quick: u64,
    thorough: u64,
    measure: &'static str,
    real: &'static [&'static str],
    stub: &'static [&'static str],
    rule: &'static str,
) -> Prop {
    Prop { id, run, needs_os: false, quick, thorough, rule, measure, real, stub, assumes: &[] }
}
const STREAM_REAL: &[&str] = &["the toon library with the async-stream feature, compiled from the repository", "asupersync's stream combinators"];
const STREAM_STUB: &[&str] = &["the async executor, its wakers, threads and cancellation", "line sources"];
const STREAM_MEASURE: &str = "different poll schedules (order and length of turns, number of polls, drops)";

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
