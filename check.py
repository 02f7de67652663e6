#!/usr/bin/env python3
"""Driver of the deterministic simulations.

  check.py PROP                 run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE          replay one recorded violation exactly
  check.py build [CONFIG...]    build the simulators
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from configs import CONFIGS, PROPS, WRAPS, THR_WRAPS, SIM_SRC, SMALLDATA, STATS, FAULT_STATS, ENV_STATS, builds_of
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
NCPU = min(8, os.cpu_count() or 8)
KNOWN = os.path.join(HERE, 'known-findings.txt')

def err(msg):
    print('ERROR ' + msg); sys.stdout.flush(); sys.exit(2)

# ---------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    for d in (REPO + '/sljit_src', REPO + '/sljit_src/allocator_src', REPO + '/regex_src', HERE + '/sim', HERE + '/sim/cfg'):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p) and n.endswith(('.c', '.h')):
                h.update(n.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def cc_cmds(cfg, sources, out, extra_cflags=(), link=True):
    c = CONFIGS[cfg]
    base = [c['cc'], '-std=gnu99', '-O1', '-w'] + c['flags'] + list(extra_cflags) + ['-DSLJIT_HAVE_CONFIG_PRE=1',
        '-I' + HERE + '/sim/cfg', '-I' + REPO + '/sljit_src', '-I' + REPO + '/regex_src', '-I' + HERE + '/sim']
    return base

def own_sections(c, o):
    return '%s %s %s' % (c['objcopy'], ' '.join('--set-section-flags %s=alloc,load,contents,data --rename-section %s=%s' % (a, a, b) for a, b in (('.data', 'simdata'), ('.data.rel.local', 'simdata'), ('.data.rel', 'simdata'), ('.sdata', 'simdata'), ('.bss', 'simbss'), ('.sbss', 'simbss'))), o)
def build(cfgs, tag='sim'):
    """Builds every configuration; objects in parallel; returns {cfg: binary}."""
    th = tree_hash()
    out, jobs, links = {}, [], []
    ctl = os.path.join(BUILD, th, 'ctl')
    if tag == 'sim' and not os.path.exists(ctl):
        os.makedirs(os.path.join(BUILD, th), exist_ok=True)
        jobs.append(['gcc', '-O1', '-w', HERE + '/sim/ctl.c', '-o', ctl])
    for cfg in cfgs:
        d = os.path.join(BUILD, th, cfg)
        b = os.path.join(d, tag)
        out[cfg] = b
        if os.path.exists(b): continue
        d = os.path.join(d, tag + '.o'); os.makedirs(d, exist_ok=True)
        objs = []; c = CONFIGS[cfg]; srcs = [HERE + '/sim/' + f for f in SIM_SRC[tag]]
        for src in [REPO + '/sljit_src/sljitLir.c', REPO + '/regex_src/regexJIT.c'] + srcs:
            o = os.path.join(d, os.path.basename(src)[:-2] + '.o')
            objs.append(o)
            # the library's static data gets sections of its own, so that every simulated run starts as a new process
            lib = src.startswith(REPO)
            cmd = cc_cmds(cfg, None, None) + (['-DSIM_THR=1', '-fno-pie'] if tag == 'thr' else []) + (['-fno-common'] + SMALLDATA.get(cfg, []) if lib else [])
            # under threads the library runs with the thread sanitizer's instrumentation
            if tag == 'thr' and lib: cmd += ['-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0']
            # instructions that ask the processor about itself trap into the simulator
            seam = '-DSIM_CPUSEAM=1' in c['flags'] and src.endswith('sljitLir.c')
            if seam: cmd = ['sh', '-c', 'set -e; "$@" -S -o %s.s; sed -i -E "s/\\b(cpuid|xgetbv)\\b/.byte 0x0f,0x0b; \\1/" %s.s; %s -c %s.s -o %s; %s' % (o, o, c['cc'], o, o, own_sections(c, o)), 'sh'] + cmd + [src]
            elif lib: cmd = ['sh', '-c', 'set -e; "$@"; ' + own_sections(c, o), 'cc'] + cmd + ['-c', src, '-o', o]
            else: cmd += ['-c', src, '-o', o]
            jobs.append(cmd)
        wraps = WRAPS + (THR_WRAPS if tag == 'thr' else [])
        links.append([c['cc']] + c['flags'] + ['-static', '-no-pie'] + objs + ['-Wl,--wrap=' + w for w in wraps] + ['-Wl,--section-start=.simst=' + ('0x128000000' if cfg.startswith('loongarch64') else '0x20000000'), '-lpthread', '-o', b + '.tmp'])
    if jobs:
        for d in os.listdir(BUILD):   # older trees
            if d != th and os.path.isdir(os.path.join(BUILD, d)): shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    def run(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        return p.returncode, cmd, p.stdout + p.stderr
    jobs.sort(key=lambda j: 0 if 'sljitLir.c' in ' '.join(j[-4:]) else 1 if 'prog.c' in ' '.join(j[-4:]) else 2)
    for stage in (jobs, links):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rc, cmd, o in ex.map(run, stage):
                if rc: err('build failed: ' + ' '.join(cmd) + '\n' + o[-3000:])
    for l in links: os.replace(l[-1], l[-1][:-4])
    return out

# ---------------------------------------------------------------- running
VRE = re.compile(r'VIOL (\S+) (\d+) (\S+) phase=(\S*) ?(.*)')
class Res:
    def __init__(self, kind, seed=None, cls=None, phase='', msg='', out=''):
        self.kind, self.seed, self.cls, self.phase, self.msg, self.out = kind, seed, cls, phase, msg, out
def cmdline(cfg, binary, args):
    if PROPS.get(args[0], {}).get('ctl') and args[1] != 'plan':
        # under the controller, which drives the emulator's processor
        return [os.path.join(os.path.dirname(os.path.dirname(binary)), 'ctl'), cfg] + (CONFIGS[cfg]['run'] or ['qemu-i386' if cfg == 'x86_32' else 'qemu-x86_64']) + ['--', binary] + args
    if PROPS.get(args[0], {}).get('mach') and args[1] != 'plan':
        return [sys.executable, HERE + '/tools/mach.py', os.path.dirname(os.path.dirname(binary)), cfg] + args
    return CONFIGS[cfg]['run'] + [binary] + args
TMP = None
def run_bin(cfg, binary, args, timeout, thorough):
    env = {'PATH': os.environ.get('PATH', ''), 'LANG': 'C'}
    if thorough: env['SIM_THOROUGH'] = '1'
    p = subprocess.Popen(cmdline(cfg, binary, args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=TMP, start_new_session=True)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        return None, o.decode('latin1'), e.decode('latin1')
    return p.returncode, o.decode('latin1'), e.decode('latin1')

def parse(rc, o, e):
    """-> Res of one process (batch or exec)"""
    m = VRE.search(o)
    if m and rc in (10, None): return Res('viol', int(m[2]), m[3], m[4], m[5].strip(), o)
    if rc is None: return Res('viol', None, 'hang', '', 'no end within the time limit', o)
    if rc == 3: return Res('unsupported', out=o)
    if rc == 0: return Res('ok', out=o)
    if rc < 0 or rc >= 128 or rc in (10,):
        return Res('viol', None, 'process-died-%d' % (rc if rc < 0 else -(rc - 128) if rc >= 128 else rc), '', (e or o)[-200:].replace('\n', ' '), o)
    return Res('err', out='rc=%d %s %s' % (rc, o[-400:], e[-400:]))

def run_plan(cfg, binary, prop, text, thorough, timeout=20):
    fd, fn = tempfile.mkstemp(dir=TMP, suffix='.plan'); os.write(fd, text.encode()); os.close(fd)
    try: r = parse(*run_bin(cfg, binary, [prop, 'exec', fn], timeout, thorough))
    finally: os.unlink(fn)
    return r

def get_plan(cfg, binary, prop, seed, thorough):
    rc, o, e = run_bin(cfg, binary, [prop, 'plan', str(seed)], 30, thorough)
    if rc != 0: return None
    return o.strip('\n').split('\n')

# ---------------------------------------------------------------- known findings
class Known:
    """lines: finding: property=<id> config=<regex> class=<regex> phase=<regex> [msg=<regex>] :: <text>
              fixed: property=<id> <commit> <text>        (suppresses nothing)"""
    def __init__(self, prop):
        self.l = []; self.hits = {}
        if not os.path.exists(KNOWN): return
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('finding:'): continue
            head, _, text = line[8:].partition('::')
            d = dict(re.findall(r'(\w+)=(\S+)', head))
            if d.get('property') == prop: self.l.append((d, text.strip()))
    def match(self, cfg, r):
        for i, (d, text) in enumerate(self.l):
            if re.fullmatch(d.get('config', '.*'), cfg) and re.fullmatch(d.get('class', '.*'), r.cls or '') and re.fullmatch(d.get('phase', '.*'), r.phase or '') and re.search(d.get('msg', ''), (r.msg or '').replace(' ', '_')):
                self.hits[i] = self.hits.get(i, 0) + 1
                return i
        return None

# ---------------------------------------------------------------- minimising
def ddmin(test, items, keep=0, deadline=None):
    head, l = items[:keep], items[keep:]
    n = 2
    while l:
        if deadline and time.time() > deadline: break
        k = max(1, len(l) // n); red = False
        chunks = list(range(0, len(l), k))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for i, ok in zip(chunks, ex.map(lambda i: test(head + l[:i] + l[i + k:]), chunks)):
                if ok: l = l[:i] + l[i + k:]; n = max(n - 1, 2); red = True; break
        if not red:
            if k == 1: break
            n = min(n * 2, len(l))
    return head + l

def shrink_args(test, items, deadline):
    """try zero / small values for the arguments"""
    for i, line in enumerate(items):
        f = line.split(' ')
        if len(f) < 3 or f[0] == 'seed': continue
        for j in range(len(f) - 1, 1, -1):
            if time.time() > deadline: return items
            if f[j] in ('0', '1'): continue
            for v in ('0', '1'):
                g = f[:j] + [v] + f[j + 1:]
                t = items[:i] + [' '.join(g)] + items[i + 1:]
                if test(t): items, f = t, g; break
    return items

class Checker:
    def __init__(self, prop, tier, vseed):
        self.prop, self.tier, self.vseed = prop, tier, vseed
        self.th = tier == 'thorough'
        self.spec = PROPS[prop]
        self.known = Known(prop)
        self.stats = {}; self.states = set(); self.runs = {}; self.unsup = []
        self.lock = threading.Lock()
        self.t0 = time.time(); self.viol = None; self.samples = []; self.hashes = {}; self.dets = 0; self.nviol = 0
        self.notes = []

    def batch(self, cfg, binary, s0, n):
        """runs seeds s0..s0+n-1, continuing after known findings; returns (results)"""
        out = []; e = s0 + n
        while s0 < e:
            prog = os.path.join(TMP, 'prog.%s.%d' % (cfg, s0))
            to = self.spec.get('batch_timeout', 60)
            rc, o, er = run_bin(cfg, binary, [self.prop, 'batch', str(s0), str(e - s0), prog], to, self.th)
            r = parse(rc, o, er)
            last = None
            try: last = int(open(prog).read().strip()); os.unlink(prog)
            except (OSError, ValueError): pass
            if r.kind == 'ok':
                out.append((r, s0, e - s0)); break
            if r.kind == 'viol':
                if r.seed is None: r.seed = last
                if r.seed is None: r.kind = 'err'; r.out = 'no progress: ' + r.out[-300:] + (er or '')[-300:]
                else:
                    out.append((r, s0, r.seed - s0 + 1)); s0 = r.seed + 1; continue
            out.append((r, s0, 0)); break
        return out

    def absorb(self, o):
        m = re.search(r'^STAT (.*)$', o, re.M)
        if m:
            for k, v in zip(STATS, m[1].split()): self.stats[k] = self.stats.get(k, 0) + int(v)
        m = re.search(r'^STATES \d+ ?(.*)$', o, re.M)
        if m: self.states.update(m[1].split())

    def confirm(self, cfg, binary, r, s0):
        """fresh-process replay, twice; returns the plan lines (maybe several plans)"""
        to = 20
        plan = get_plan(cfg, binary, self.prop, r.seed, self.th)
        if plan:
            a = [run_plan(cfg, binary, self.prop, '\n'.join(plan) + '\n', self.th, to) for _ in range(2)]
            if all(x.kind == 'viol' and x.cls == r.cls for x in a): return [plan]
            if all(x.kind == 'viol' for x in a) and a[0].cls == a[1].cls: r.cls, r.phase, r.msg = a[0].cls, a[0].phase, a[0].msg; return [plan]
            if r.cls == 'hang' and all(x.kind == 'ok' for x in a): return 'spurious'
        # needs what earlier runs of the process left behind
        plans = [get_plan(cfg, binary, self.prop, s, self.th) for s in range(s0, r.seed + 1)]
        def test(ps): x = run_plan(cfg, binary, self.prop, '\n---\n'.join('\n'.join(q) for q in ps) + '\n', self.th, 60); return x.kind == 'viol' and x.cls == r.cls
        if None in plans or not (test(plans) and test(plans)): return None
        last = plans[-1]
        ps = ddmin(lambda l: test(l + [last]), plans[:-1], 0, time.time() + 60)
        return ps + [last]

    def minimise(self, cfg, binary, r, plans):
        deadline = time.time() + (120 if self.th else 60)
        last = plans[-1]; pre = plans[:-1]
        def txt(l): return '\n---\n'.join('\n'.join(q) for q in pre + [l]) + '\n'
        def test(l): x = run_plan(cfg, binary, self.prop, txt(l), self.th, 20 if r.cls != 'hang' else 8); return x.kind == 'viol' and x.cls == r.cls and x.phase == r.phase
        if r.cls == 'hang': deadline = time.time() + 90
        l = ddmin(test, last, 1, deadline)
        if r.cls != 'hang': l = shrink_args(test, l, deadline)
        return txt(l)

    def report(self, cfg, binary, r, s0):
        plans = self.confirm(cfg, binary, r, s0)
        if plans == 'spurious': self.notes.append('a batch timed out but its run ends alone: %s seed %d' % (cfg, r.seed)); return
        if not plans: err('violation %s %s seed %s (%s) did not replay' % (cfg, r.cls, r.seed, r.msg))
        k = self.known.match(cfg, r)
        if k is not None: return
        text = self.minimise(cfg, binary, r, plans)
        a = run_plan(cfg, binary, self.prop, text, self.th, 60)
        if a.kind != 'viol' or a.cls != r.cls: text = '\n---\n'.join('\n'.join(q) for q in plans) + '\n'; a = r
        k = self.known.match(cfg, a)
        if k is not None: return
        d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s-%s-%d.replay' % (self.prop, cfg, r.seed))
        with open(fn, 'w') as f:
            f.write('# property=%s config=%s tier=%s class=%s phase=%s\n# %s\n' % (self.prop, cfg, self.tier, a.cls, a.phase, a.msg))
            f.write(text)
        self.nviol += 1
        print('%s: %s in %s (phase %s): %s' % (cfg, a.cls, self.prop, a.phase, a.msg))
        print('VIOLATION property=%s replay=%s' % (self.prop, fn)); sys.stdout.flush()
        self.viol = fn

    def run(self):
        global TMP
        TMP = tempfile.mkdtemp(prefix='sim.')
        try: return self.run2()
        finally: shutil.rmtree(TMP, ignore_errors=True)

    def run2(self):
        want = self.spec[self.tier]
        bins = build(builds_of(self.prop, list(want)), self.spec.get('tag', 'sim'))
        tb = time.time()
        self.t_build = tb - self.t0
        cap = self.spec.get('cap', {}).get(self.tier, 360 if not self.th else 3000)
        jobs = []
        for ci, (cfg, n) in enumerate(sorted(want.items())):
            base = (abs(self.vseed) * 10000019 * 1024 * 1024 * 32 + sorted(CONFIGS).index(cfg) * 1024 * 1024) % (1 << 60)
            step = self.spec.get('step', {}).get(cfg) or (128 if not CONFIGS[cfg]['run'] else 32)
            done = 0
            while done < n:
                k = min(step, n - done)
                jobs.append((done / n, cfg, base, k)); done += k; base += 1024   # the simulated page size depends on seed / 1024
        jobs.sort()                    # every configuration advances at the same relative pace
        first = {}
        for j in jobs: first.setdefault(j[1], j)
        detjobs = list(first.values())  # determinism gate: the first batch of every configuration runs twice
        skipped = 0; todo = []
        def work(j):
            if time.time() - tb > cap or self.viol or j[1] in self.unsup: return j, None
            return j, self.batch(j[1], bins[j[1]], j[2], j[3])
        def det(j):
            return j, self.batch(j[1], bins[j[1]], j[2], j[3])
        pending = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(work, j) for j in jobs]
            dfuts = [ex.submit(det, j) for j in detjobs]
            for f in futs:
                j, rs = f.result()
                if rs is None: skipped += j[3]; continue
                cfg = j[1]
                for r, s0, n in rs:
                    self.runs[cfg] = self.runs.get(cfg, 0) + n
                    if r.kind == 'unsupported':
                        if cfg not in self.unsup: self.unsup.append(cfg)
                        continue
                    if r.kind == 'err': err('harness error in %s: %s' % (cfg, r.out))
                    if r.kind == 'ok':
                        self.absorb(r.out)
                        m = re.search(r'^DONE \d+ (\S+)', r.out, re.M); self.hashes.setdefault(j[1:], []).append(m[1] if m else None)
                    if r.kind == 'viol':
                        self.hashes.setdefault(j[1:], []).append('%s/%s/%s' % (r.seed, r.cls, r.phase))
                        self.absorb(r.out)
                        if self.known.match(cfg, r) is not None: self.stats['known'] = self.stats.get('known', 0) + 1; continue
                        if self.viol is None:
                            self.report(cfg, bins[cfg], r, s0)
                            if self.viol:
                                for g in futs: g.cancel()
                                for g in dfuts: g.cancel()
                                break
                if self.viol: break
            if not self.viol:
                for f in dfuts:
                    j, rs = f.result()
                    got = []
                    for r, s0, n in rs:
                        if r.kind == 'ok':
                            m = re.search(r'^DONE \d+ (\S+)', r.out, re.M); got.append(m[1] if m else None)
                        elif r.kind == 'viol': got.append('%s/%s/%s' % (r.seed, r.cls, r.phase))
                    if j[1] in self.unsup: continue
                    if j[1:] in self.hashes and got != self.hashes[j[1:]] and not any('hang' in str(x) for x in got + self.hashes[j[1:]]):
                        err('nondeterminism: %s batch %s: %s vs %s' % (j[1], j[2:], self.hashes[j[1:]], got))
                    self.dets += j[3]
        self.t_search = time.time() - tb
        self.skipped = skipped
        if not self.viol:
            for cfg in sorted(want):
                if cfg in self.unsup or not self.samples_wanted(): continue
                j = first[cfg]
                pl = get_plan(cfg, bins[cfg], self.prop, j[2], self.th)
                if pl: self.samples.append(cfg + ': ' + ' / '.join(pl[:14]) + (' / ... (%d lines)' % len(pl) if len(pl) > 14 else ''))
        self.evidence(want)
        for i, (d, text) in enumerate(self.known.l):
            print('KNOWN-FINDING: property=%s %s (met %d times in this run)' % (self.prop, text, self.known.hits.get(i, 0)))
        if self.viol: return 1
        tot = sum(self.runs.values())
        print('%s: %d simulated runs in %d configurations held (%.0f s build, %.0f s search, %d skipped by the time cap, %d runs repeated for determinism)' % (self.prop, tot, len([c for c in self.runs if self.runs[c]]), self.t_build, self.t_search, skipped, self.dets))
        if tot == 0: err('nothing ran')
        return 0

    def samples_wanted(self): return len(self.samples) < 4

    def evidence(self, want):
        tot = sum(self.runs.values()); hrs = max(self.t_search, 0.001) / 3600
        st = {k: v for k, v in self.stats.items() if v}
        ev = dict(property=self.prop, tier=self.tier, seed=self.vseed, level=self.spec.get('level', 'exploration'), wall_s=round(time.time() - self.t0, 2), violations=self.nviol,
            coverage=dict(
                evaluations=tot, distinct_nontrivial=len(self.states),
                rule=self.spec['rule'], samples=self.samples or ['(stopped at a violation: see the replay file)'],
                runs_per_configuration=self.runs, unsupported_configurations=self.unsup,
                seeds_per_hour=int(tot / hrs), simulated_runs_per_hour=int(tot / hrs),
                simulated_time=self.spec.get('time', 'sljit reads no clock and has no timers, so there is no simulated wall time; progress is counted in events: %d') % (st.get('events', 0) or st.get('ops', 0) + st.get('actions', 0) + st.get('steps', 0) + st.get('execs', 0)) if '%d' in self.spec.get('time', '%d') else self.spec['time'],
                faults_injected=dict({k[6:]: v for k, v in st.items() if k in FAULT_STATS}, **{n: st[k] for k, n in ENV_STATS.get(self.prop, {}).items() if st.get(k)}),
                counters=st, distinct_states=len(self.states), distinct_states_measure=self.spec['measure'],
                determinism_runs_repeated=self.dets, runs_skipped_by_time_cap=getattr(self, 'skipped', 0),
                real_components=self.spec['real'], stubbed_components=self.spec['stub'],
                known_findings_met={self.known.l[i][1][:80]: n for i, n in self.known.hits.items()}, notes=self.notes),
            assumptions=self.spec.get('assume', []))
        d = os.path.join(HERE, 'evidence'); os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)

def replay(fn):
    global TMP
    head = open(fn).readline()
    d = dict(re.findall(r'(\w+)=(\S+)', head))
    text = ''.join(l for l in open(fn) if not l.startswith('#'))
    bins = build(builds_of(d['property'], [d['config']]), PROPS[d['property']].get('tag', 'sim'))
    TMP = tempfile.mkdtemp(prefix='sim.')
    try:
        r = run_plan(d['config'], bins[d['config']], d['property'], text, d.get('tier') == 'thorough', 60)
    finally: shutil.rmtree(TMP, ignore_errors=True)
    if r.kind == 'viol':
        print('%s phase=%s %s' % (r.cls, r.phase, r.msg))
        print('VIOLATION property=%s replay=%s' % (d['property'], fn)); return 1
    print(r.kind, r.out[-300:]); return 0 if r.kind == 'ok' else 2

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == 'replay': return replay(sys.argv[2])
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == 'build': [build(sys.argv[2:] or list(CONFIGS), t) for t in ('sim', 'thr')]; return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    prop = sys.argv[1]
    if PROPS.get(prop, {}).get('driver'):
        mod = __import__(PROPS[prop]['driver']); return mod.run(prop, tier, seed)
    if prop not in PROPS: print('unknown property'); return 2
    return Checker(prop, 'thorough' if tier == 'thorough' else 'quick', seed).run()

if __name__ == '__main__': sys.exit(main())
