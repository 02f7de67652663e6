#!/usr/bin/env python3
"""Runs the plans of C11 on several machines and compares the results.

  mach.py BUILD GROUP PROP batch SEED0 COUNT [PROGRESS] | exec FILE

The machines depend on the group and on seed / 1024 only, so the plan of a batch meets the same ones again."""
import os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from configs import MACHINES
build, group, prop, mode = sys.argv[1:5]
X86MASK = ['1:3:8000', '7:1:20', '7:1:8', '80000001:2:20', '1:2:80000', '1:2:8000000', '1:2:10000000,7:1:20', 'x:0:4']
def machines(seed):
    rnd = random.Random('%s %d' % (group, seed >> 10)); ms = MACHINES[group]
    others = ms[1:] if os.environ.get('SIM_THOROUGH') else rnd.sample(ms[1:], min(2, len(ms) - 1))
    if group.startswith('x86'):
        others = others[:1] if len(others) == 2 else others
        for k in range(2):
            n, b, run, _ = rnd.choice(ms)
            mask = [m for m in X86MASK if rnd.random() < 0.3]
            if group == 'x86_32' and rnd.random() < 0.1: mask += ['1:3:4000000', '1:2:80000', '1:2:10000000', '7:1:20']
            if mask: others = others + [(n + ' without ' + '+'.join(mask), b, run, ','.join(mask))]
    return [ms[0]] + others
def run(m, args):
    env = {k: os.environ[k] for k in ('PATH', 'LANG', 'SIM_THOROUGH', 'SIM_SHOW') if k in os.environ}
    if m[3]: env['SIM_CPUMASK'] = m[3]
    p = subprocess.run(m[2] + [os.path.join(build, m[1], 'sim'), prop] + args, capture_output=True, env=env)
    return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')
def finish(out, err, rc):
    sys.stdout.write(out); sys.stderr.write(err); sys.stdout.flush(); sys.exit(rc)
if mode == 'batch': seed = int(sys.argv[5])
else:
    seeds = [int(l.split()[1]) for l in open(sys.argv[5]) if l.startswith('seed ')]
    seed = seeds[-1] if seeds else 0
ref = None; tot = []; states = set(); done = []; cmp_ = 0; runs = 0
def num(l): return [int(x) for x in l.split()[1:]]
def stat(): return 'STAT ' + ' '.join(map(str, tot + [0] * (40 - len(tot)) + [runs, cmp_])) + '\n'
for m in machines(seed):
    rc, o, e = run(m, sys.argv[4:])
    h = {}; other = []
    for l in o.split('\n'):
        f = l.split(' ')
        if f[0] == 'H' and len(f) == 4: h.setdefault(f[1], []).append((f[2], f[3]))
        elif f[0] == 'STAT': n = num(l); tot = [a + b for a, b in zip(tot or [0] * len(n), n)]
        elif f[0] == 'STATES': states.update(f[2:])
        elif f[0] in ('DONE', 'OK'): done.append(' '.join(f[1:]))
        elif l: other.append(l)
    runs += len(h)
    if os.environ.get('SIM_SHOW'): print('machine %s' % m[0]); print(o)
    if rc:
        o = '\n'.join(re.sub(r'$', ' [on %s]' % m[0], l) if l.startswith('VIOL ') else l for l in other)
        if rc < 0: rc = 128 - rc
        if rc not in (3, 10): o += '\n[on %s]' % m[0]
        finish(o + '\n' + stat(), e, rc)
    if ref is None: ref = h; continue
    for s in ref:   # in the order of execution
        for a, b in zip(ref[s], h.get(s, ())):
            if a[0] != b[0]: continue
            cmp_ += 1
            if a[1] != b[1]: finish('VIOL %s %s machine-differs phase=execute the same program gives another result on [%s] than on [%s]\n%s' % (prop, s, m[0], MACHINES[group][0][0], stat()), e, 10)
import hashlib
d = hashlib.sha256('\n'.join(done).encode()).hexdigest()[:16]
if mode == 'batch': print('DONE %s %s' % (sys.argv[6], d))
else: print('OK %d %s 0' % (seed, d))
finish(stat() + 'STATES %d %s\n' % (len(states), ' '.join(sorted(states))), '', 0)
