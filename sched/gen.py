#!/usr/bin/env python3
"""gen.py REPO OUT: copies REPO's crate to OUT with `std` replaced by `mcstd`, whose locks are
under the control of the model checker. Nothing else is changed."""
import os, re, sys

repo, out = sys.argv[1:3]
files = {}
# manifest: dependencies stay, development dependencies and targets go
keep, section = [], ''
for line in open(os.path.join(repo, 'Cargo.toml')):
    m = re.match(r'\s*\[+([^\]]+)\]+', line)
    if m:
        section = m.group(1).strip()
    if section.startswith(('dev-dependencies', 'workspace', 'profile', 'bin', 'example', 'test', 'bench')):
        continue
    keep.append(line)
    if m and section == 'dependencies':
        keep.append('mcstd = { path = "../../sched/mcstd" }\n')
text = ''.join(keep)
if 'mcstd' not in text:
    text += '\n[dependencies]\nmcstd = { path = "../../sched/mcstd" }\n'
files['Cargo.toml'] = text.encode()
for dir, _, names in os.walk(os.path.join(repo, 'src')):
    for f in names:
        src = os.path.join(dir, f)
        data = open(src, 'rb').read()
        if f.endswith('.rs'):
            s = data.decode('utf-8')
            s = re.sub(r'(?<![\w:])(?:(::)\s*)?(?:std|core(?=\s*::\s*(?:sync|hint)))(\s*::)',
                       lambda m: (m.group(1) or '') + 'mcstd' + m.group(2), s)
            s = re.sub(r'\buse\s+std\s*;', 'use mcstd as std;', s)
            s = re.sub(r'(?<![\w:!])thread_local(?=\s*!)', 'mcstd::thread_local', s)
            data = s.encode('utf-8')
        files[os.path.relpath(src, repo)] = data
p = os.path.join(repo, 'README.md')
if os.path.exists(p):
    files['README.md'] = open(p, 'rb').read()
# only what differs is written, so that nothing is rebuilt without need
for dir, _, names in os.walk(out):
    for f in names:
        rel = os.path.relpath(os.path.join(dir, f), out)
        if rel not in files and rel != 'Cargo.lock':
            os.remove(os.path.join(dir, f))
for rel, data in files.items():
    dst = os.path.join(out, rel)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    try:
        if open(dst, 'rb').read() == data:
            continue
    except OSError:
        pass
    open(dst, 'wb').write(data)
