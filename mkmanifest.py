#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
LT = ("TLC enumerates every state and transition of bounded worlds of the LogTree specification and checks its invariants; every "
      "transition is replayed through the public API in a fresh process (form of configuration, method and writer varied) and the "
      "complete delivery matrix logger x level -> outputs, the level queries and the records are compared after each step")
TRUST = " Trusted: TLC, the harness (a recording output, files, redirected console), Go."
LEVEL = {
    "C01": ("TLA+ model + replay of all transitions", "model_checking", LT + ". Exhaustive within the worlds' bounds (chain of 4 loggers, all spellings of levels, message levels -1..10)." + TRUST),
    "C02": ("TLA+ model + replay of all transitions", "model_checking", LT + ". Worlds: shared/disjoint/empty output lists, every threshold on file and console outputs." + TRUST),
    "C03": ("TLA+ model + replay of all transitions", "model_checking", LT + ". Worlds: every order of obtaining loggers around configuration changes, separators in every position; identity requested again concurrently." + TRUST),
    "C04": ("TLA+ model + replay of all transitions", "model_checking", LT + ". Worlds: sequences of configurations, run-time changes, outputs that cannot be created." + TRUST),
    "C05": ("TLA+ model + replay of all transitions", "model_checking", LT + ". Worlds: refused documents of every kind at every point of a history." + TRUST),
    "C06": ("TLA+ model + replay of all transitions", "model_checking", LT + ". Worlds: two writers, four field lists, own and inherited, synchronous and asynchronous outputs." + TRUST),
    "C21": ("TLA+ model + replay of all transitions", "model_checking", LT + ". Worlds: shared outputs, asynchronous outputs, closing of the manager at any point." + TRUST),
}
RO = ("TLC explores every behaviour (one action per file operation of a write) of bounded worlds of the Rolling specification, checks its "
      "invariants in every intermediate state, and prints every history with the directory after each operation; each history is replayed "
      "through the real file output (time under a virtual clock) and names, contents and modes of the whole directory are compared after each operation")
LEVEL.update({
    "C13": ("TLA+ model + replay of all histories", "model_checking", RO + ". Histories of 4-8 operations exhaustively, of 60 by simulation; restarts, content found at start, names, limits." + TRUST),
    "C14": ("TLA+ model + replay of all histories", "model_checking", RO + ". Patterns, zones, daylight-saving changes, restarts, periods without messages." + TRUST),
    "C15": ("TLA+ model + replay of all histories", "model_checking", RO + ". Directories with look-alikes, leftovers, more than 64 entries, numbers of different length." + TRUST),
    "C16": ("TLA+ model + replay of all histories, system-call faults judged by the model's predicates", "model_checking", RO + "; in addition every system call of a run is made to fail once and the resulting directory is judged by the specification's predicates." + TRUST),
    "C17": ("TLA+ model with failures + replay, system-call faults judged by the model's predicates", "model_checking", RO + ", with obstacles appearing and disappearing; the model is also checked with failures of any operation; in addition every system call of a run is made to fail once (strace) and the resulting directory is judged by the specification's predicates, evaluated by TLC." + TRUST),
    "C20": ("TLA+ model + replay of all histories", "model_checking", RO + ". Permissions, process masks, files found at start, values that are no permissions." + TRUST),
    "C24": ("TLA+ model with process death + kill at every system call, judged by the model's predicates", "model_checking", "The Rolling specification is checked with the process dying between any two file operations; the real process is killed at every system call it makes on files of the log, then run again; the directories after the kill and after the next run are judged by the specification's predicates (Lossless, InOrder, RolledFull, Settled), evaluated by TLC." + TRUST),
})
AS = ("TLC checks every interleaving of the Async specification (senders, bounded queue, loop, slow target, periodic flush, concurrent closes; "
      "liveness under fairness) and prints, for every sequence of operations, the observations it allows at rest; each sequence is replayed on the "
      "real output in front of a target that can be made to block (time under a virtual clock); concurrent runs of the real output are recorded and "
      "checked by TLC to be behaviours of the specification")
LEVEL.update({
    "C09": ("TLA+ model + replay of all histories + validation of recorded runs", "model_checking", AS + "; also under the race detector." + TRUST),
    "C10": ("TLA+ model with liveness + replay of all histories + validation of recorded runs", "model_checking", AS + ". Closes at every point of a history, with the target blocked or the queue full; also under the race detector." + TRUST),
    "C11": ("TLA+ model + replay of all histories", "model_checking", AS + ". Batch sizes 1-20, pauses around the flush period." + TRUST),
})
CO = ("TLC explores every interleaving of concurrent programs (calls in the atomic steps of the Conc specification) and prints the set of outcomes "
      "(results, destination of every message, final settings); the real library runs each program many times with random delays and must show only "
      "outcomes of the specification; also under the race detector")
for i, w in (("C03", "goroutines obtaining loggers while configurations are applied"), ("C04", "concurrent configurations"), ("C21", "concurrent configurations sharing outputs")):
    t, l, n = LEVEL[i]
    LEVEL[i] = (t + ", outcome sets of concurrent programs", l, n.replace(TRUST, "") + " In addition: " + CO + " (" + w + ")." + TRUST)
LEVEL["C23"] = ("TLA+ model of concurrent programs + outcome sets", "model_checking", CO + ". Invariants OneList, GateHolds, Converged; programs of 2-3 goroutines with up to 6 calls." + TRUST)
LEVEL["C07"] = ("TLA+ model + replay on the real call stack", "model_checking", "TLC enumerates every state of worlds of the Caller specification (stack, caller skip, inherited and mixed outputs) and checks that each record names the statement; walks through the state graph are replayed: in every state every logging method, writer and shape of surrounding code logs next to a recording of the stack, and file, line, package and function in the records of synchronous, asynchronous, console and custom outputs are compared with the frame of the specification; also concurrently under the race detector." + TRUST)
LEVEL["C08"] = ("TLA+ model of reading layouts + replay of every layout", "model_checking", "TLC reads every layout over small alphabets up to 6-7 characters and thousands built from tokens by the Layout specification, checks its invariants (nothing lost, no verb overlooked) and prints the pieces; the real formatter reads each and renders sequences of events, also concurrently and under the race detector; acceptance and text are compared (values are printed with Go's fmt and time, which are trusted)." + TRUST)
LEVEL["C25"] = ("TLA+ model + replay of walks through its state graph", "model_checking", "TLC checks the Capture specification (calls, memory the program goes on changing, records in a queue): records show what calls meant; a variant that renders when it writes is shown to break the statement. Walks through the state graph (calls of 31 formats, writers with fields, changes of 16 kinds of values) are replayed through the public API; synchronous and asynchronous files, console, memory and gated asynchronous outputs are compared record by record with fmt's rendering of the specification's values, the times of records with those of the calls, and messages nobody writes carry arguments that report being printed; also under the race detector, and with arguments that log." + TRUST)
LEVEL["C26"] = ("TLA+ model + replay of walks through its state graph", "model_checking", "TLC checks the Creators specification (creators registered, replaced and failing at any time; configurations; loggers obtained) for MadeByRegistered, AllOrNothing, WorksOnceRegistered, Existing; walks that cover its transitions are replayed through the public API with creators that record the options they are given, when, and how often; after each step every logger logs and the outputs, formatters, versions and bytes are compared; goroutines log, obtain and configure meanwhile, also under the race detector." + TRUST)
LEVEL["C27"] = ("TLA+ model of interleaved rolls + replay of its histories, one by one and at once", "model_checking", "TLC checks the Neighbours specification - the steps of rolling and archiving of several outputs in one directory in every order, some of them failing - for Independent (each leaves what it would alone), NothingLeft and Ends; a variant with one temporary file is shown to break it. Walks of whole calls and ticks are replayed through the public API, the whole directory being compared after each; then goroutines log at once in rounds, with large records, archives and periods under a virtual clock, also under the race detector. Schedules of real goroutines are sampled." + TRUST)
LEVEL["C12"] = ("TLA+ model with liveness + validation of recorded runs", "model_checking", "TLC checks the SyncOut specification (calls, records added in one step, rolls) exhaustively for five messages, with liveness; hundreds of concurrent runs of the real console (file and pipe), memory and rolled file outputs, with archiving, both naming modes and records up to 150 kB, are recorded (calls, returns, files at the end) and checked by TLC to be behaviours of the specification; a call's record is also looked for as soon as it returned; also under the race detector. Schedules are sampled, not enumerated." + TRUST)
LEVEL["C22"] = ("TLA+ model + replay of walks through its state graph", "model_checking", "TLC checks the Syslog specification (thresholds, severities, connections made again, a daemon that goes away and comes back) and prints its state graph; walks that cover every transition are replayed through the public API, with a daemon of the check listening on a socket in a scratch directory (log/syslog is built with that path through an overlay); severity, tag and text of every datagram are compared; afterwards goroutines log at once, also under the race detector." + TRUST)
LEVEL["C18"] = ("TLA+ model of reading options + probe of every text, combinations replayed against the Rolling model", "model_checking", "TLC reads every text over small alphabets (4 characters for sizes, 3 for counts), all three-digit permissions, every spelling of the level names and near misses by the Options specification and prints what each means; an output is configured with each (structure, YAML with and without quotes, JSON, files) and its effect is measured: the size at which it rolls (sparse files up to 2^62 bytes), backups kept, modes, levels passed, calls returned while the target is stuck (a FIFO or pipe nobody reads), records written together under a virtual clock; the options that a probe is not about take other values. Random combinations are replayed against the Rolling specification." + TRUST)
LEVEL["C19"] = ("TLA+ models of copying and of collecting + replay, with faults", "model_checking", "TLC enumerates archives, kinds, failures and chains of copies (Archive), and histories of a file whose backups are collected, with failures and death at every step (Collect). Every chain is replayed into the real readers and writers, built and read back with Go's standard library, with every read and every write failing in turn; every history of collecting is replayed in a directory, and every system call on it fails, or is the last, in turn, each directory left behind being judged by the predicates of the specification." + TRUST)
LEVEL["C05"] = ("TLA+ models (Documents, LogTree) + replay of every document", "model_checking", "TLC enumerates every document of the Documents specification over small sets of names (53,320; 147,000 thoroughly), prints its verdict and what it tells about each logger, and checks on sequences of loads that they are all or nothing; 800 longer documents (up to 24 definitions of each kind) get their verdicts too. Every document is given to the real manager, in random order and form: as a structure, as YAML of many styles or JSON, as bytes or in files with plain and odd names, through links and pipes, intact, malformed, of an unknown kind or unreadable; error, levels, outputs and delivery are compared after each. Refused documents at every state of two LogTree worlds besides." + TRUST)
t, l, n = LEVEL["C21"]
LEVEL["C21"] = (t, l, n.replace(TRUST, "") + " Walks end with the manager closed by call, by SIGTERM, by SIGINT, or by both at once, while hundreds of messages wait." + TRUST)
checks = []
for p in props:
    if p["id"] in LEVEL:
        t, l, n = LEVEL[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "technique": t, "level": l, "level_note": n})
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in LEVEL]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Harnesses enter through go build -overlay. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
