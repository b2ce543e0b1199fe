#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, os, sys
missed = set("""origin-read-in-two-parts urdf-zero-multiplier floating-joints-not-mapped detach-namesakes clone-by-name
long-names-cut determinant-threshold detach-holds-parent namesakes-once solve-relaxes shared-scratch shared-try-counter
ignored-by-suffix ancestors-stop-at-fixed-root wide-limits-ignored visuals-share-pose subtask-capped nameless-links-refused
clone-without-inertia mesh-mirror found-by-link link-written-back mimic-rounds end-along-ancestors position-shown-short same-name-links-once find-long-names subtask-in-first-step-only
function-sees-start ik-memo sizes-swapped long-chains-lose-limits end-memo empty-name-ignored solver-keeps-arm ignored-in-a-mask motion-memo short-axis-is-default
tolerance-floor tries-capped clear-keeps-second detached-followers-are-free""".split()) | set(sys.argv[1:])
rows = []
for d in os.listdir('seeded'):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs']))
print('| check | planted bug | what it needs to show |\n|---|---|---|')
for p, d, n in sorted(rows):
    print(f"| {p} | {d}{' (+)' if d in missed else ''} | {n} |")
