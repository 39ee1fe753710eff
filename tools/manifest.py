#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "..", "properties.jsonl")) as f:
    ids = [json.loads(l)["id"] for l in f]

BUB = "monitors over executions of the real code in testing/synctest bubbles with injected delays: "
NOTES = {
    "P01": ("exactly-once ledger of jobs, barrier and quiescence monitor", "every pool kind, submission mix, nesting and size in the case list, each under several delay policies"),
    "P02": ("concurrency gauge and capacity probe by quiescence", "an excess of running blocking jobs is seen whenever it happens in an execution; lost capacity is seen at rest, when everything else is blocked"),
    "P03": ("blocking detection by quiescence of virtual time", "a Submit or job that waits is noticed exactly: the bubble is quiescent and it has not returned or started"),
    "P04": ("bounds monitor of Running and Len against the job ledger", "Running is sampled concurrently and compared with bounds taken before and after each read"),
    "P05": ("model of live names compared with every creation, closing and listing", "livelocks are noticed by the number of instrumented steps, deadlocks by the state of all goroutines"),
    "E01": ("race detector, and prefix and conservation checks over recorded reads", "the reads of all goroutines are compared after the run; a data race is noticed if both accesses run in an execution"),
    "W01": ("exactly-once ledger, barrier monitor and gauge for Running", "rounds, pools, nesting and reuse in the case list"),
    "W02": ("error ledger compared with errors.Is and errors.As on what Wait returns", "all kinds and timings of failures in the case list"),
    "W03": ("event-log check of cancel, start and return order", "a start counts as late if it happens after the bubble was quiescent with the cancellation in force"),
    "S01": ("visit ledger and comparison of the slice with a reference", "lengths, contents, options and timings of the case list; writes after the return are looked for"),
    "S02": ("event-log check of errors, cancellation and starts", "every position of the failing elements and many moments of cancellation"),
    "C01": ("exactly-once ledger over input, accessor and output events", "buffer sizes, producers, consumers and options of the case list"),
    "C02": ("event-log check of cancellation, with quiescence for 'returns'", "idle inputs, unread outputs and every phase of cancellation in the case list"),
    "O01": ("concurrency gauge, instrumented pool wrapper and submit-option probe", "every combination of options of the case list, several calls sharing one pool"),
    "X01": ("per-user ledger of calls, contexts, errors and times, gauge and capacity probe on the shared pool", "mixes of slow and fast users of the case list; slow ones hold all places but one"),
    "A01": ("linearizability checker (porcupine) over recorded histories, under the race detector", "histories of up to some dozens of operations, small enough to be decided exactly"),
    "A02": ("blocking detection by quiescence, model comparison after failures and panics", "readers are started at every state of a blocked writer"),
    "G01": ("exactly-once ledger of requests per group", "mixes of groups, submitters, options, failures and cancellations of the case list"),
    "G02": ("route recorder compared with the planned route", "state machines of several shapes, planned routes with loops, errors at every position"),
    "G03": ("order check of each Out channel against the order of Submit calls", "processing times up to reversal, failing submissions and cancelled requests at random places"),
    "G04": ("route recorder and cyclic-error oracle", "repeated and unrepeated routes, many requests at once, requests passed on to further Pipelines, method values taken at different places"),
    "G05": ("event-log check of cancellation per request, with quiescence for 'waits'", "cancellation before, in and after every phase of a request, full pipelines"),
    "G06": ("lifecycle event-log check and goroutine-leak monitor", "the stacks of all goroutines of the bubble are inspected at the end of each execution"),
    "G07": ("concurrency gauge and capacity probe by quiescence", "num, stages, sub-stages and histories of the case list; rejected arguments are enumerated"),
    "G08": ("Stats compared with the durations measured in exact virtual time", "in a bubble computing takes no time, so the expected values are known exactly"),
    "G09": ("exactly-once ledger per group while groups come and go, with quiescence for 'returns'", "creation, use and closing at random moments from several goroutines, many successive groups"),
    "G10": ("log monitor in exact virtual time, with quiescence for 'waits'", "limits from 50 ms to an hour, outputs unread for up to 4.5 times the limit, several rounds, stages longer than the limit"),
    "X02": ("per-Pipelines ledger of requests, routes and order, capacity probes on all at once, Stats and Close count", "two to five Pipelines at once, full, unread, created late or closed early, some over one state machine"),
    "T01": ("span monitor: a recording OpenTelemetry provider", "each span's start, end, parent and status is compared with the lifetime of the work it stands for"),
    "T02": ("span monitor: a recording OpenTelemetry provider", "names and order of all spans are compared with the Group, group, request and stage they were made for"),
    "R01": ("Go race detector over the documented concurrent uses of every package, with plain-memory witnesses", "a race or a missing happens-before edge is reported if both accesses run in an execution, whatever their order"),
    "M01": ("weak pointers to everything handed over, heap size over doubling rounds, a context type that counts what is registered with it, goroutine stacks", "some hundred operations of each kind in each case with the ways in which they end, the heap over thirty times as many"),
    "Q01": ("conservation, order and bound checks over recorded queue histories", "every Push and Pop has its interval recorded; orders are compared with real-time order"),
    "D01": ("end-to-end monitor: the real tool is run, its output compiled and executed", "package names that collide with names in the templates, with build constraints and with Go's own, and random ones"),
}
checks = []
for i in ids:
    t, n = NOTES[i]
    bub = i not in ("E01", "A01", "R01", "D01", "P05")
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": "runtime monitoring: " + (("synctest bubbles, injected delays, ") if bub else "") + t,
        "level": "exploration",
        "level_note": "Holds for the executions observed: " + n + ". Trusted: the Go toolchain and runtime, testing/synctest, and the monitors in /verif/harness.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "none in /repo: the delay hooks are laid over copies of its sources at build time",
        "enable": "go test -c -overlay, with the overlay tools/instrument computes from the current tree",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "VERIF_SEED chooses the random part of the case lists and the delay policies. VERIF_REPO lets a check look at another tree than /repo.",
}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
