#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OS = "seeded simulation of the real program on a simulated operating system with injected faults and crashes"
EX = "seeded simulation of the real streams on a simulated executor"
note = {
 "C01": (OS, "Every run compares the delivered bytes with a document known by construction or from an independent reference encoder / JSON printer. Sampled, not exhaustive; trusts the simulated system calls and the reference models."),
 "C02": (OS, "Each run aims one failure at a call the command was seen to make in a rehearsal under the same seed. Trusts the simulated system calls."),
 "C03": (OS, "Every intermediate state of the destination is compared, not only the one at the crash. Durability across power loss is that of write order; the program issues no fsync and claims none."),
 "C04": (OS, "Compares three deliveries of the same bytes and the known result."),
 "C05": (OS, "Rejection is certain by construction of the input or the fault."),
 "C06": (OS, "Histories of 3 to 8 commands; expected values come from the generator, numbers as the JSON reader reads them (see the known finding)."),
 "C07": (OS, "Compares runs that differ only in random seeds, clock, process id, environment and neighbouring files."),
 "C08": (OS, "Progress within a bounded number of system calls under lasting faults; the bound is linear in the bytes moved."),
 "C09": (OS, "Checks every file-system and stream operation the program makes, successful or not."),
 "C10": (OS, "What is said on standard error is compared with the recorded operations and with a model of the messages; the order of the two is checked at every write."),
 "C11": (EX + ", compared with the synchronous decoder", "The synchronous decoder is the reference; its own correctness is the matter of C06 and C18 to C20."),
 "C12": (EX + " over sources that resume after their end", "Sampled schedules and documents."),
 "C13": (EX + ", with the source checking what was delivered at every request", "Sampled schedules and documents."),
 "C14": (EX + ", compared with the synchronous encoder", "The synchronous encoder is the reference; C01 and C06 check it against an independent one."),
 "C15": ("seeded simulation of the real futures on a simulated executor with cancellation", "Also runs the build without the async feature. Leaks are measured by the simulator's allocator."),
 "C16": ("seeded simulation of real threads under a scheduler that owns every preemption", "Preemption points are the compiler-inserted basic-block calls of the library, allocations, futex waits and callbacks; one thread runs at a time, so reorderings by a weak memory model are not covered."),
 "C17": ("seeded histories of scripted replacer answers against a reference model, with injected panics", "The model of the traversal is small and independent of the code."),
 "C18": ("seeded injection of storage faults into generated documents", "The generator records where each array's members are, so every alteration is known to leave a declared length wrong."),
 "C19": ("seeded injection of byte and line corruption, with budgets of memory and executed basic blocks", "Nesting up to about 120 levels under the budgets, and 1000 to 4500 levels on a 2 MB stack. Budgets are far above what the current tree uses and linear in the input."),
 "C20": ("seeded crash points in document delivery, compared with the whole document", "Sampled documents; all line prefixes of the small ones."),
 "C21": ("seeded loss, repetition and reordering of events against a reference model of validity", "The model decides validity and value of every sequence."),
 "C22": ("seeded loss, repetition, movement and re-indentation of lines, with a mark in every line that must come out", "Every line carries a mark of its own, so that what an accepted document contributes is known; sampled documents and faults."),
 "C23": ("seeded faults on lines, blanks and bytes of documents, with all entry points given the same text", "The entry points are each other's reference; what the common answer must be is the matter of C06, C18 to C20 and C22."),
 "C24": (EX + ", with all entry points given the same value", "A small independent encoder and the decoder serve as reference; values, options, replacers and schedules are sampled."),
}
reason = {
 "C30": "Pure function of its input: no schedule, time, I/O, fault or other party for it to depend on, so simulation has nothing to decide. What the program delivers through files under faults is claimed as C06.",
 "C31": "Pure function of its input; no schedule, time, I/O, fault or other party is involved. (C01's oracle compares delivered documents with a reference encoder as a side effect.)",
 "C32": "Pure function of its input; no schedule, time, I/O, fault or other party is involved. (Histories of C06 include folding and expansion.)",
 "C33": "Pure function of its input; no schedule, time, I/O, fault or other party is involved.",
 "C34": "Pure function of its input; no schedule, time, I/O, fault or other party is involved. (Losses that the blank-line and indentation rules catch are part of C18 to C20.)",
 "C35": "Pure function of its input; no schedule, time, I/O, fault or other party is involved.",
 "C36": "The bindings only exist for the wasm32 target, which cannot be built or run here (no wasm toolchain or runtime offline), and they are pure wrappers with no nondeterminism to simulate.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in note:
        t, n = note[i]
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": reason[i]})
m = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the libc symbols of the real program, the compiler's basic-block callbacks, the global allocator, the executor and the callbacks the library takes. /repo carries only fix: commits; see known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
