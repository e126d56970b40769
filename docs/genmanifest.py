#!/usr/bin/env python3
# writes /verif/MANIFEST.json; run from /verif
import json, re
props = [json.loads(l) for l in open('properties.jsonl')]
plan = {}
for m in re.finditer(r'^\t"(C\d\d)":\s*\{(.*)\},?$', open('driver/table.go').read(), re.M):
    plan[m.group(1)] = re.findall(r'\{"(\w+)"', m.group(2))
NA = {}
TECH = "deterministic simulation with fault injection: seeded search over schedules, clocks and fault sequences in world(s) %s"
NOTE = "Evidence over the sampled seeds, not a proof. Real code under a seeded scheduler that can preempt at every statement of sdk/, server/, client/ and of the instrumented go-cache, uniuri and uuid copies; sequential consistency; third-party and standard-library calls are atomic. Every violation is minimised, replayed in a fresh process and written as a replay file."
EXTRA = {
 "C20": "Data races are reported by the Go race detector, made repeatable by running one goroutine at a time with instrumented hand-off that adds no happens-before edges; go.sum dependencies other than the instrumented ones run uninstrumented by the scheduler (but under the race detector).",
 "C34": "Two crashes of the example server's handlers, which this task does not allow to repair, are listed in known-findings.txt and reported as KNOWN-FINDING lines.",
 "C21": "Known findings (test-pinned answers of Revoke and of the device service) are listed in known-findings.txt and reported as KNOWN-FINDING lines.",
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({"property": i, "reason": NA[i]})
    elif i not in plan: na.append({"property": i, "reason": "no check yet"})
    else:
        checks.append({"property": i, "quick_cmd": "bin/check "+i, "thorough_cmd": "VERIF_TIER=thorough bin/check "+i,
          "evidence_file": "evidence/%s.json" % i, "technique": TECH % ", ".join(plan[i]), "level": "exploration",
          "level_note": (NOTE + " " + EXTRA.get(i, "")).strip()})
json.dump({"version": 1, "setup_cmd": "bin/check -setup", "checks": checks, "not_applicable": na,
  "notes": "No hooks are committed in /repo: the seams are put in at build time by tools/instr through 'go build -overlay', so the shipped code is unchanged. All commits in /repo are fix: commits, listed in known-findings.txt."},
  open('MANIFEST.json','w'), indent=1)
print(len(checks), len(na))
