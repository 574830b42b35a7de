#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
C = {
 "P01": ("round-trip property-based testing with fragmenting transports", "Generated write/packet sequences, read sizes and transport fragmentations through the real Writer and Reader; byte-exact comparison."),
 "P02": ("property-based fuzzing against a reference parser", "Mutated and random byte strings; the packet-wise, iterator and stream interfaces are compared with an independent strict parser."),
 "P03": ("model-based testing of upload histories", "The real server on a scratch store; validity decided independently from ID, size and contents; the whole store is compared after each session."),
 "P04": ("model-based testing of transfer histories", "Responses of the real server over several sessions compared byte for byte with a map from ID to contents."),
 "P05": ("model-based testing of sessions with refused requests", "Sessions mixing valid requests with 30 kinds of malformed ones; one response each, equal to the model's, and the same store at the end."),
 "P06": ("model-based testing with generated operations", "Download sessions leave the tree untouched, upload sessions disclose nothing, other operation names serve nothing."),
 "P07": ("property-based testing over truncation points", "Sessions cut at generated offsets, with a preference for packet boundaries and ends of requests; responses and store compared with the model of the complete prefix."),
 "P08": ("structure-aware mutational fuzzing", "Mutated request streams and random bytes; exit status, strict parse of the output, invariants of the store."),
 "P09": ("fault enumeration over generated sessions (kill points), against a reference model", "Each generated session is killed at every system call which changes a file or writes output, and within each write; the store must be in the state after some number of requests, not fewer than were answered, and further sessions must work as the model says."),
 "P10": ("fault enumeration over generated sessions (errno injection), against a reference model", "Each system call on a file or stream fails in turn with a generated errno (ptrace); responses and store must be those of the model with at most one request refused, and further sessions must work as usual."),
 "P11": ("model-based testing of lock histories of several users", "Sessions of up to four users with a controlled clock against a lock table; every answer field compared, the store read back at the end."),
 "P12": ("property-based testing with changes between pages", "Listings followed page by page with generated limits, numbers of locks around page boundaries, and locks created or released between pages; exactly-once invariant."),
 "P13": ("stateful testing of generated schedules with a linearizability check", "Several servers run under ptrace one system call at a time in generated orders; the answers about each lock must have an order which respects time, and the store must be what remains."),
 "P14": ("property-based fuzzing of names with system-call recording and a metamorphic relation", "Generated escaping names as object IDs, lock IDs, paths and cursors; no path outside the LFS directory may be used on their account (recorded with ptrace), what is outside stays as it is, and the answers are the same whether it exists or not."),
 "P15": ("property-based testing over configurations and umasks", "Generated spellings of core.sharedRepository and umasks; the mode of every file and directory created is compared with what Git prescribes."),
 "P16": ("stateful testing of generated schedules against a model", "Several servers upload, download and query the same objects under ptrace in generated orders of system calls; each answer must be right for an object absent or complete as real time allows."),
 "P17": ("metamorphic property-based testing of fragmented conversations", "The same bytes all at once, and in generated fragments with short and interrupted reads and writes (ptrace): same output and files; whenever the server is about to wait, all complete requests have been answered."),
 "P18": ("model-based testing with generated damage to the store", "Stray, damaged and foreign files generated into the lock directory; the model ignores them, and every answer is compared with it."),
 "P19": ("model-based property-based testing with a reference matcher and walk", "Generated commit graphs, dates, messages and patterns (whose syntax tree is known); git at must find what an independent backtracking matcher and walk find."),
 "P20": ("model-based property-based testing with a reference matcher and walk", "As for P19, with the options, and messages on both sides of what they exclude."),
 "P21": ("differential property-based testing against git rev-parse", "Generated repositories and revision expressions; starting commit, exit status and both outputs compared, with a stand-in for git show that ends in generated ways."),
 "P22": ("model-based property-based testing", "Generated sets of references (loose, packed, both, symbolic, annotated, broken) and dates; each must be printed exactly once, in order."),
 "P23": ("model-based property-based testing of checkout histories", "Generated HEAD reflogs, and histories of commands of Git itself; the lines printed are compared with what was checked out and still exists."),
 "P24": ("property-based testing with snapshots, and a metamorphic relation", "Generated repositories, damaged ones included, and commands; nothing below the top directory may change, and without permission to write, the results must be the same."),
 "P25": ("property-based testing over configurations on a pseudo-terminal", "Generated pager settings and pagers which read late, partly or not at all, and interrupts; which one ran, what it got, what appeared on the terminal, and the order of exits."),
 "P26": ("model-based testing over generated layouts and names of repositories", "Two repositories of generated layout are used by generated names in turn; each has one model, and the answers, the store and everything else on disk are compared after each session."),
 "P27": ("property-based testing under resource limits", "Objects larger than the memory allowed (up to 5 GiB), and long sessions with few files open; answers compared with the model, contents by hash."),
 "P28": ("differential property-based testing against Git", "Generated layouts of repositories, directories, environments and ways to run the programs; the results are compared with what git log, show and for-each-ref print in the same situation."),
    "P29": ("fault enumeration over generated repositories and commands (errno injection), metamorphic against the run without the failure", "Each system call on the repository or the output fails in turn with a generated errno or a short count (ptrace); also full and closed output, no git to show with, and commits in history which are missing, empty or unreadable; compared with the same run without the failure."),
    "P32": ("property-based testing of the library against reference implementations", "Generated names near valid object IDs with stores in which the object is there or not, argument lists, integers near the limits of the types, and reads in pieces with failures, each compared with a direct restatement."),
    "P30": ("model-based property-based testing with a mock backend (in-process fault injection)", "Generated sessions and, for each request, generated behaviour of the backend: results, errors of all kinds, partial reads, interrupted or failing readers; its calls, the responses and the end of the session are compared with a model."),
    "P31": ("schedule exploration (property-based, one system call at a time), metamorphic against undisturbed runs", "Generated repositories, commands, and schedules: at generated system calls of a run (ptrace), Git packs, repacks, indexes, or updates a reference; the output is compared with those of runs before and after."),
}
L = {"P29": "fault_enumeration", "P09": "fault_enumeration", "P10": "fault_enumeration"}
checks = []
for k, (t, n) in C.items():
    checks.append({"property": k, "quick_cmd": f"bash check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {k}",
                   "technique": t, "level": L.get(k, "exploration"), "level_note": n})
have = set(C)
allp = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = [{"property": p, "reason": "not built yet"} for p in allp if p not in have]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), [x["property"] for x in na])
