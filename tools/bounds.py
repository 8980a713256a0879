#!/usr/bin/env python3
# Writes the bounds that each harness states into BOUNDS.md.
import json, re, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
props = {p['id']: p for p in map(json.loads, open('properties.jsonl'))}
out = ["# Bounds of each check", "", "Generated by tools/bounds.py from the harnesses: one line for each harness",
       "function, with the inputs that it covers. Options in the harness headers",
       "(`merge`, `split`, `budget`) say how the engine explores, not what.", ""]
for pid in sorted(props):
    fs = sorted(glob.glob('harness/*/%s*.go' % pid.lower()))
    out.append("## %s %s" % (pid, props[pid]['title']))
    out.append("")
    if not fs:
        out += ["Not applicable (see MANIFEST.json).", ""]
        continue
    for f in fs:
        s = open(f).read()
        for m in re.finditer(r'((?:^//.*\n)*)^func (ZZ_\w+)\(', s, re.M):
            doc = [l[2:].strip() for l in m.group(1).split('\n') if l.startswith('//') and not l.startswith('//zz:')]
            opts = [o for l in m.group(1).split('\n') if l.startswith('//zz:') for o in l[5:].split() if o.startswith(('models=', 'ints=', 'sched=', 'preempt='))]
            out.append("- `%s` (%s)%s: %s" % (m.group(2), f[8:], ' [' + ' '.join(opts) + ']' if opts else '', ' '.join(doc).strip() or 'see the source'))
    out.append("")
open('BOUNDS.md', 'w').write('\n'.join(out))
