#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written notes below, with each check's rule, assumptions and known findings taken from where they are kept."""
import glob, importlib, json, os, re, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ".")
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
known = [l.strip() for l in open("known_findings.txt") if l.strip() and not l.startswith("#")]
seeds = {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((d.split("/")[1], m))

HEAD = """# fidogate: static verification

## The machinery

`run.py <id>` decides one property. Every run compiles every translation unit of every program named in /repo's
`src/Makefile.am` from the current working tree (clang 18, -O0, the defines of the build), promotes locals to SSA,
dumps the IR to text and loads it (`sa/ir.py`; `sa/irdump.cpp` is built by `setup_cmd`). Unit dumps are cached by the hash of the
preprocessed source, so a change is always seen and the unchanged rest costs nothing. A *program* is analysed as linked: the units
its Makefile entry names plus the library units they reach, with its own `main()`. Nothing of /repo is executed.

Before that, functions which `data/functions.txt` (the functions each unit had when the rules were written) does not know are inlined where
they are called (LLVM's always-inline; where such a function gives back a value that depends on the path through it, jump threading restores
the branches), so code moved into a helper of its own is judged as if it still stood in place. Tried on whole-tree wrappers of
fclose, rename, unlink, fgets (up to 41 files changed at once): no check raises an alarm; before, wrapping unlink() made four checks do so.

Shared parts:

| file | what it decides |
|---|---|
| `sa/cg.py` | call graph; calls through pointers resolved by the functions whose address reaches that type and place |
| `sa/sim.py`, `sa/conds.py`, `sa/gates.py` | path-sensitive typestate simulation: abstract states (ownership counts, status values, facts on parameters, flags and globals tested) are propagated over the control flow graph with procedure summaries until nothing new appears; branch conditions split states, contradictory ones are dropped |
| `sa/fail.py` | "this operation failed here" forked at each call of the operation, its status value followed through variables, returns and comparisons |
| `sa/bounds.py` | symbolic offsets, limits and lengths (linear forms over values) with the facts of dominating branches |
| `sa/undef.py` | definite initialisation by byte, with summaries of what each function reads first and sets under which result |
| `sa/taint.py` | where outside text goes: labels with capabilities, taken away by what branches establish about the characters |
| `sa/remove.py` | which files are removed or renamed, by the place their names come from |

All are over-approximations in what they follow (every path of the control flow graph whose recorded facts do not contradict each other) and
under-approximate only where a NOTE below says so. Common assumptions: functions of libc behave as documented; no asynchronous signal
besides those handled; memory errors are the subject of C08/C09 and not assumed elsewhere.

A construct that no longer fits a table (a renamed function, a vanished operation) ends the check with `ANALYSIS-BROKEN` and no verdict; floors on the
number of obligations found guard against an analysis that quietly looks at nothing. Tables name functions of the tree only where
the property is about that function; anything else is found by its effect (opens a stream, returns NULL, writes through a parameter ...).

Keys of findings hold no line numbers. `known_findings.txt` holds the findings that were not repaired and the list of repairs (`fixed:`).
Every repair was checked against the existing tests (`tools/fixcommit.sh`).

`python3 run.py C08` etc. (quick and thorough are the same: every analysis is exhaustive over the tree; none has a depth to increase).

## Why not more by this method

* C40 to C44 depend on what a run does with runtime values (results of date arithmetic, convergence of routing over several systems, content equality of
  whole conversions): no sound static argument in reach bounds them. They are under `not_applicable`.
* Values are not tracked beyond constants, symbolic offsets and status codes; a violation that consists of a wrong *number* or wrong *text* in the right
  place is seen only where a writer and a reader in the tree can be compared (C18, C19).

"""

N = {
"C01": ("Typestate of every lock from each `main()`; a lock is identified by the constant or configuration function that names it. Program-ending calls are summarised with the locks still held. "
        "Options are not correlated with each other beyond tested flags.", "-"),
"C02": ("Syntax-independent: on every successful path of the lock functions an exclusive creation (O_EXCL open or link) must have happened,.", "-"),
"C03": ("As C01 with the busy files of the Binkley outbound: created and removed counted per path, summary of each library function by its return status.", "-"),
"C04": ("The open mode, lock, read, write, close events of sequencer() and of the users of its numbers, on all paths with each operation failing.", "-"),
"C05": ("Publication by rename (or final close) is an event; every write, flush, close and database operation before it forks into success and failure.", "-"),
"C06": ("Rows (function, operation) cover all programs that consume a file. A path where the operation fails must not reach the removal of the input.", "Exits after which another pass treats the file again were first reported."),
"C07": ("Inconsistent status comparison (a value the operation cannot return, a test that can never hold) and lost failures: state machine of the status value.", "Tests against both ERROR and another negative code; callers that treat a count as a truth value."),
"C08": ("Every write to sized memory must have an upper bound that a dominating branch, the format's maximum length or the caller's size argument gives. Objects whose size is unknown are not rows.", "Loops whose bound is established in a helper; snprintf limits passed as parameters."),
"C09": ("NULL results dereferenced, found through library list and computed 'may return NULL for these constants' summaries.", "Config lookups with a preceding test of the same key."),
"C10": ("Acquire/release pairing for FILE*, DIR*, pipe and descriptors with ownership transfer by return, record member or global.", "Streams stored in records freed with their owner."),
"C12": ("Formats resolved to constant strings; conversions checked against the argument types of the IR; received text never as a format.", "Formats from tables and phis; %s given a struct member array."),
"C13": ("Request-scoped state: values of globals left by an earlier request are 'unknown leftover' and every effect must be guarded by authorisation of this request.", "Function pointers of the areafix printf; command-line use authorised by option."),
"C14": ("Gates before sending echomail on: each path must take a permitting branch of each gate.", "areasbbs_lookup(NULL); facts of dominating branches taken for list advance."),
"C16": ("Sources are every read and directory entry outside the trusted units; sinks are the arguments of system() and popen(). Sanitisers are recognised by what they test (sets of characters in strpbrk, strcspn, strspn, strchr loops, equality), not by name; helper functions are summarised per class of result.",
        "strncmp with a prefix was first taken for equality of the whole text (missed ftn2rfc's ngoper command and ftntoss' area creation); a name and its flag chosen together in a switch."),
"C17": ("Same engine, capability 'may contain a directory part'; directory listings give names without one, dir_search() a name found there.", "tic->replaces behind a helper returning bool; pointers found NULL carry no text."),
"C18": ("Writer and reader are compared field by field: offset, width, byte order of every byte stored/loaded through the header buffers; keyword and option letter sets of record writers and readers; keys of database lines.", "Capability word copy, node_orig copy, password read into a local first, branches for null constants, case-sensitive option letters."),
"C19": ("Sets compared: options accepted, documented and acted on; configuration keywords in the sample configuration and looked up; constants of keyword parsers and the code acting on them.", "Keyword tables judged per program instead of over all programs; nodelist classes; keywords used by scripts or left-out code; the '--no description--' text."),
"C20": ("Pointers into reused static storage followed to their uses, against calls that rewrite it (mod summaries with parameter conditions).", "Context-insensitive mods (parameter conditions added), null results, out-parameters and global slots."),
"C22": ("After each change of an area record, areasbbs_changed() and later areasbbs_rewrite() before the end.", "AutoCreateCmd creates the area externally; --no-rewrite; areas given up again in the creating run; exits before the entry was added."),
"C23": ("Packet grammar as a typestate on the packet stream (header, message, body end, packet end) in all writers.", "fclose of the log file; pkt_isopen() correlation."),
"C24": ("Definite initialisation of locals, members and malloc'ed records; contents of character arrays after the first byte and whole-object copies are not judged.", "Constant/non-null arguments as summary context; callbacks; reads guarded by a tag member; counts returned by fillers; touched char arrays; gettimeofday/localtime never failing; strlen canonicalisation."),
"C25": ("Every loop that reads must leave on the end of its source or step something else.", "Loops that leave through a status computed from the read in a helper."),
"C26": ("Gates of the gateway: refused mail (ACL, restricted, no such address) never converted, on every path.", "The refused mark kept across recipients."),
"C27": ("Typestate of allocated memory: from every release along all paths, with the pointer, pointers into it and the place it was read from; releases of storage that was not allocated.", "Two records keeping one pointer; ownership handed over by convention."),
"C29": ("Exit status: rows of operations per program whose failure must be visible in main()'s result.", "-"),
"C21": ("Programs are those given mode 4xxx by the installation rules. The same taint engine with arguments, options and environment as the source (no text on the branch where getuid()==geteuid()); a second run in which the capability is \"may contain '..'\"; a forward dataflow over the order in which the argument vector is filled, through helpers, checked against the option string of the started program.", "A pointer phi found NULL holds no text; element-wise refinement of argv had wrongly covered all its elements; exits in a helper; index loops and strncmp for the '..' test."),
}

out = [HEAD, "## Properties\n"]
na = {x["property"]: x["reason"] for x in man["not_applicable"]} if man["not_applicable"] and isinstance(man["not_applicable"][0], dict) and "property" in man["not_applicable"][0] else {x.get("id"): x.get("reason") for x in man["not_applicable"]}
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not applicable: %s\n" % na[i]); continue
    m = importlib.import_module("checks." + i.lower())
    out.append("*Method:* %s.\n" % m.TECHNIQUE.rstrip("."))
    ev = "evidence/%s.json" % i
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e.get("coverage", {})
        if c.get("explanation"):
            out.append("*Rule:* %s\n" % c["explanation"].split("\n")[0][:2500])
        if e.get("assumptions"):
            out.append("*Assumptions:* %s.\n" % "; ".join(a.rstrip(".") for a in e["assumptions"]))
    if m.NOTE:
        out.append("*Limits:* %s\n" % m.NOTE)
    if i in N:
        out.append("*Notes:* %s\n" % N[i][0])
        if N[i][1] != "-":
            out.append("*False alarms (or misses) corrected while building:* %s\n" % N[i][1])
    fnd = [re.sub(r"^finding: property=\w+ ", "", k) for k in known if k.startswith("finding: property=%s " % i)]
    if fnd:
        out.append("*Known findings (genuine, not repaired):*\n\n" + "\n".join("* " + f for f in fnd) + "\n")
    n = sum(1 for k in known if k.startswith("fixed: property=%s " % i))
    if n:
        out.append("*Repaired defects:* %d (see `known_findings.txt`).\n" % n)
    if seeds.get(i):
        out.append("*Planted changes, all caught by this check:*\n\n" + "\n".join("* `%s`: %s (needs: %s)" % (s, x["what_it_breaks"], x["needs"]) for s, x in seeds[i]) + "\n")
open("DESIGN.md", "w").write("\n".join(out))
