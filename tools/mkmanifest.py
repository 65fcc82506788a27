#!/usr/bin/env python3
"""Writes MANIFEST.json. Checks not in DONE are listed as not (yet) claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
REF = "online comparison of every execution with an independent reference evaluator (runtime oracle), overflow and debug assertions on"
T = {
 "C01": ("runtime oracle: reference RFC 9535 evaluator, node addresses compared in order", "every slice (length, start, end, step) in the enumerated box is executed; the rest is random and size-sweep workload"),
 "C02": ("runtime oracle: reference evaluator and bit-level truth tables over all assignments", "all boolean shapes with 3 operators, 4 negations and one level of groups are executed under all assignments; the rest is sampled"),
 "C03": ("runtime oracle: reference comparison relation, plus order and duality laws checked on the recorded results", "all ordered pairs of a 109-value pool (and Nothing) x 6 operators x operand forms; the rest is sampled"),
 "C04": ("runtime oracle: reference functions and an independent I-Regexp matcher", "trusts the I-Regexp reference matcher; constructs outside RFC 9485 are not judged"),
 "C05": ("runtime oracle: independent RFC 9535 recogniser and type checker", "token sequences up to a length, every code point in every kind of place, and every gap of the seed queries are exhausted; the rest is sampled"),
 "C06": ("runtime oracle: decoded values against documents holding near misses", "all code points and surrogate pairs in all spellings are exhausted singly; combinations are sampled"),
 "C07": ("supervised execution under hostile input, overflow and debug assertions on, panics, signals, blocking and CPU time watched", "all nesting forms at all depths up to 256 are executed; texts are sampled"),
 "C08": ("differential monitor: addresses of the nodes from each way of running a query", "all sequences of two selectors of a pool of 29, in both kinds of segment, are executed; the rest is sampled"),
 "C09": ("online monitor: each location followed, re-queried, resolved and compared with the node's address", "all code points as member names are exhausted; the rest is sampled"),
 "C10": ("round-trip monitor: the displayed text is parsed by the library and by the reference parser, and compared with the reference meaning, through every serde route", "all code points in names and literals, and every construct in every place it may stand, are executed singly; combinations are sampled"),
 "C11": ("online monitor: multisets of (location, node address) before and after", "sampled lists"),
 "C12": ("online monitor: iterators driven in random interleavings against a queue model", "sampled lists and interleavings"),
 "C13": ("monitor: registered functions record every call and its arguments; compared with the calls and results of the reference", "every form of argument in every position of 195 signatures, in 16 contexts, is executed; the rest is sampled"),
 "C14": ("differential and race monitor: every outcome compared with the outcome in a freshly forked process; in-process and first-use races, also under ThreadSanitizer", "schedules and histories are sampled; the races seen by ThreadSanitizer are those of the executions run"),
 "C16": ("runtime oracle: 128-bit arithmetic", "all pairs of 1235 boundary values and all pairs of [-200, 200] are executed; the rest is sampled"),
 "C17": ("resource monitor: allocations, bytes and CPU time of every operation against limits linear in the text and in the reference evaluator's steps, over growing families", "families of growing texts, documents and slices are enumerated; the rest is sampled; constant factors below about four are not told apart"),
 "C18": ("monitor: every error's position, message and display compared with an independent parser's verdict and with each other way of parsing", "every defective call of a pool is executed in every context of a pool; the rest is sampled; the wording of messages is left open"),
 "C19": ("monitor: generated crates are compiled against the real macro, run, and each definition's registration and calls compared with what was declared", "definitions are sampled; those that are not valid Rust without the attribute are skipped and counted"),
 "C20": ("monitor: every view of a nodelist or value compared with what it was made of, by address; filters that call functions written with the views compared with the same operations on direct results", "singular arguments with negative indices are left to C13, whose known finding they fall under"),
 "C21": ("differential monitor and undefined-behaviour interpreter: one program, run natively and by Miri for platforms with other pointer sizes and byte orders, outcomes compared; multi-threaded histories by Miri under many schedules", "the interpreter is four orders of magnitude slower than the machine: hundreds of operations per platform and dozens of schedules in the quick tier"),
 "C15": ("differential monitor: transcripts of one workload in each build of the library, with subscribers formatting everything; reference oracles of the other checks repeated in each build", "configurations are enumerated (five builds in the quick tier, eight in the thorough one); the workload is sampled"),
}
exec(open(f"{V}/tools/techniques.py").read()) if os.path.exists(f"{V}/tools/techniques.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"bin/check {i} --tier quick", "thorough_cmd": f"bin/check {i} --tier thorough",
            "technique": t, "level": "exploration",
            "level_note": "Holds on every execution observed; nothing is claimed about inputs not run. " + n[0].upper() + n[1:] + "."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public interface (addresses, allocations, iterators, panics, process state). See DESIGN.md; findings in known_findings.txt."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
