#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
MODEL = "bounded exhaustive enumeration of {} on the real code, each compared with an independent reference model"
SCHED = "stateless model checking of the real code: every interleaving of small concurrent programs up to a preemption bound, {}"
NOTE = ("Exhaustive within the bounds that the evidence file lists; beyond them nothing is claimed. "
        "Trusts the reference model (own f64 arithmetic, no code shared with k) and numeric tolerances.")
SNOTE = ("Exhaustive within the program sizes and preemption bounds that the evidence file lists. Trusts the explorer "
         "(locks and atomics of /repo/src replaced by controlled ones) and sequential consistency, which safe Rust with mutexes gives.")
T = {
 'C01': "robots (tree shapes, joint kinds, axes, origins, positions), views and command histories",
 'C02': "robots, serial chains and command histories",
 'C03': "serial chains and configurations",
 'C04': "robots, configurations and joint velocities",
 'C05': "robots with links and command histories",
 'C06': "robots with links, views and configurations",
 'C07': "command and query histories",
 'C08': "limits, commands and command sequences",
 'C09': "mimic relations and command sequences",
 'C10': "chains, position vectors and names",
 'C11': "attach, detach and drop sequences",
 'C12': "robots, clones and operation sequences after cloning",
 'C13': "views, operations through them and orders of dropping handles",
 'C14': "trees and end/root pairs",
 'C15': "trees with links, and views of them",
 'C16': "arms, targets, constraints and solver settings",
 'C17': "arms, unreachable or invalid targets, constraints and solver settings",
 'C18': "arms, ignored joints, constraint masks and targets",
 'C19': "arms, nearby targets, constraints and solver settings",
 'C20': "redundant arms, constraints and null-space functions",
 'C21': "all subsets, values and orders of the serialized fields",
 'C22': "URDF robots, element orders and attribute variants",
 'C23': "URDF robots and element orders",
 'C27': "builder programs, range ends and connected nodes",
 'C28': "robots with links and histories of setting and updating them",
 'C29': "IK calls and histories before them",
 'C32': "failing IK calls repeated try by try, and errors of all kinds",
 'C30': "robots, kept handles and orders of detaching and dropping",
}
S = {
 'C07': "what a joint reports compared with the reference model after each of its changes",
 'C24': "histories checked for linearizability against the reference model",
 'C25': "final and observed relations checked against the calls made",
 'C26': "checked for deadlock, endless waiting and panics",
 'C31': "the results and state of each part compared with those of the same calls made alone",
}
checks = []
for l in open('properties.jsonl'):
    i = json.loads(l)['id']
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": " and ".join(([MODEL.format(T[i])] if i in T else []) + ([SCHED.format(S[i])] if i in S else [])),
        "level": "model_checking",
        "level_note": " ".join([NOTE] * (i in T) + [SNOTE] * (i in S)),
    })
SKIP = []
json.dump({"version": 1, "setup_cmd": "./check build",
           "checks": [c for c in checks if c['property'] not in SKIP],
           "not_applicable": [{"property": p, "reason": "being built"} for p in SKIP],
           "notes": "No hooks in /repo: the checks use its public interface; C07, C24-C26 and C31 compile /repo/src with std::sync replaced. Known findings and repairs: known_findings.txt."},
          open('MANIFEST.json', 'w'), indent=1)
