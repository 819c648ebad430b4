#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for all checks that exist in /verif/checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "ASAN+UBSAN with poisoned free heap cells under forced collections",
    "C02": "differential monitoring of event logs under forced GC schedules",
    "C03": "heap accounting monitor over long churn histories under a tight limit",
    "C04": "exactly-once ledger of finalizer, callback and cleanup events",
    "C05": "allocation failure injection with heap accounting monitor and model comparison",
    "C06": "event-log oracle (independent reference interpreter) over generated programs",
    "C07": "event-log oracle over register and phi pressure programs",
    "C08": "run-time values compared with exact integer and IEEE oracles",
    "C09": "differential monitoring of constant and run-time forms of one expression",
    "C10": "coherence laws checked over all observed pairs of values",
    "C11": "event and stack trace oracle over defer and panic programs",
    "C12": "operation histories checked against an abstract ordered map",
    "C13": "operation histories checked against abstract sequences",
    "C14": "operation histories checked against byte strings",
    "C15": "renderings checked against an independent printer and parser",
    "C16": "scheduler trace checker (order, exactly-once) with hostile hosts",
    "C17": "protocol monitor for native, asynchronous and resumable functions",
    "C18": "initialisation trace checked against an import graph model",
    "C19": "API call sequences checked against a model, under ASAN+UBSAN",
    "C20": "totality monitor over hostile source texts, under ASAN+UBSAN",
    "C21": "accept/reject oracle over rule violations injected into valid programs",
    "C22": "event-log oracle over many prints of the same syntax tree",
    "C23": "comparison of repeated compilations across processes and options",
    "C24": "mutated bytecode modules loaded and run under ASAN+UBSAN",
    "C25": "ThreadSanitizer on racing jobs; event logs of racing and nested jobs compared with solo runs",
    "C26": "depth scans with event-log oracle around the stack limit",
    "C27": "random histories of the C++ interface compared with a model of values, handle validity and ownership, under ASAN+UBSAN with and without handle checks",
    "C28": "exit status and output oracle over generated runner invocations",
}
NOTE = {
    "C01": "exploration: sanitizers see only executed code; reach comes from forced collections, page sizes, generated programs, all operation/value combinations and hostile sources",
    "C25": "exploration: thread schedules are sampled by the OS scheduler with random delays",
}
checks = []
for i in sorted(T):
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration",
                       "level_note": NOTE.get(i, "exploration: the oracle judges every generated execution; the inputs are sampled (seeded), not enumerated")})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=TIRO_VP_HOOKS"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "TIRO_VP_HOOKS", "enable": "tools/vbuild.py compiles /repo/src out of tree with -DTIRO_VP_HOOKS=1 and links driver/hooks.cpp",
               "source_commits": hook},
     "checks": checks, "not_applicable": []}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
