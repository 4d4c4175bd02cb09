#!/usr/bin/env python3
"""check.py PROPERTY        seeded simulation campaign for one property (VERIF_SEED, VERIF_TIER)
   check.py replay FILE     re-executes a replay file in a fresh process
   check.py setup           builds the simulator

Exit 0: the property held on every simulated run; 1: VIOLATION line; 2: no answer (build or
harness failure, or a run that was not deterministic)."""
import json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
OUT = os.path.join(HERE, 'out')
SIM, SIM0, VAL = BUILD + '/sim', BUILD + '/sim0', BUILD + '/val'
# properties of which a part of the runs uses the library compiled without optimisation: every shared
# or uninitialised scalar lives in memory there
PLAIN = ('C01', 'C10', 'C12')
PLAIN_SEEDS = 5000000
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

# simulated runs per tier: (quick, thorough); time limits of the campaign in seconds
RUNS = {'C01': (4800, 60000), 'C02': (10000, 120000), 'C03': (4800, 60000), 'C04': (20000, 300000), 'C05': (30000, 400000), 'C06': (6000, 80000),
        'C07': (4800, 60000), 'C08': (30000, 400000), 'C09': (30000, 400000), 'C10': (6000, 90000), 'C11': (2400, 40000), 'C12': (6400, 80000), 'C13': (80000, 1200000), 'C14': (28000, 400000), 'C15': (80000, 1200000), 'C17': (48000, 800000)}
LIMIT = {'quick': 90., 'thorough': 1500.}
MINIMISE = {'quick': 45., 'thorough': 180.}
GATE = {'quick': 20, 'thorough': 50}

MEASURE = {
    'C01': ('scheds', 'one evaluation is one seeded history of solver calls on a random grid, each call run serially and under random thread schedules on 2 to 16 threads; counted as distinct by the hash of its complete sequence of thread switches (which thread, at which memory access)'),
    'C02': ('states', 'one evaluation is one seeded history of complete time steps on a closed domain, with random team sizes, schedules and failing allocations (the failed step is repeated); counted as distinct by the hash of the final values of all variables'),
    'C03': ('states', 'one evaluation is one seeded history of solver calls, every call compared cell by cell with the sequential model, with random schedules and failing allocations; counted as distinct by the hash of the final values of all variables'),
    'C04': ('states', 'one evaluation is one seeded history of boundary-condition calls with failing allocations on a random grid; counted as distinct by the hash of the final values of all variables including ghost cells'),
    'C05': ('states', 'one evaluation is one seeded history of exports on the simulated disk with open, write, flush and close faults, full disk and failing allocations; counted as distinct by the hash of the final files and variables'),
    'C06': ('states', 'one evaluation is one whole program run that is crashed at one or more seeded points (before or inside a disk call, or at a memory access) and restarted; counted as distinct by the hash of the disk contents at the crashes and at the end'),
    'C07': ('states', 'one evaluation is one seeded history in which calls are hit by failing allocations at seeded positions and repeated; counted as distinct by the hash of the final values of all variables'),
    'C08': ('states', 'one evaluation is one seeded history of registry calls with failing allocations, compared with a map model after every call; counted as distinct by the hash of the final registry'),
    'C09': ('states', 'one evaluation is one seeded history of misuses and of copying, assigning, throwing and keeping exception objects between other uses of memory; counted as distinct by the hash of the sequence of refused misuses'),
    'C10': ('scheds', 'one evaluation is one seeded set of simulations run concurrently on one disk and compared with each of them alone; counted as distinct by the hash of its complete sequence of switches between the simulations and their threads'),
    'C11': ('states', 'one evaluation is one whole program run end to end under a random schedule, clock, memory layout, crashes and restarts, or disk faults, compared with its undisturbed run (every 16th: an example program of the library or its main program); counted as distinct by the hash of files written'),
    'C12': ('states', 'one evaluation is one program run in two to four environments (stale memory and stack contents, placement, clock, earlier work in the process) and in an optimised vectorised build without range checks and threads; counted as distinct by the hash of the final values of all variables'),
}
MEASURE['C17'] = ('states', 'one evaluation is one seeded history of bulk data operations on up to four chunks with failing allocations, compared with a map model after every call; counted as distinct by the hash of the final contents of all chunks')
MEASURE['C13'] = ('states', 'one evaluation is one seeded history of range, indexer and division calls with failing allocations, compared with an integer-box model after every call; counted as distinct by the hash of the final ranges')
MEASURE['C14'] = ('states', 'one evaluation is one seeded history of initial-condition generators over wild old contents with failing allocations and random schedules; counted as distinct by the hash of the final values of all variables')
MEASURE['C15'] = ('states', 'one evaluation is one seeded history of creating, copying, biasing and misusing grids with failing allocations, compared with a geometry model after every call; counted as distinct by the hash of the final cell sizes')
PROBES = ['retry_after_failure', 'misuse_refused', 'crash', 'restart', 'schedule_directed_at_conflicts', 'conflicting_access_seen', 'long_run', 'variable_created', 'component_clash', 'missing_lookup', 'failed_creation',
          'kept_message_reread', 'frame_acknowledged', 'torn_file_after_crash', 'export_failed', 'export_ok', 'optimised_build_compared', 'ill_conditioned_cells_skipped', 'example_program_run', 'example_program_run_to_its_end', 'example_program_too_large_to_observe']
REAL = ['all of /repo/src: solvers, boundary conditions, initial conditions, registry, data, range, grid, exception; for C11 also the example programs and main.cpp, on grids capped to 4 to 7 cells per direction (compiled with -fopenmp and -fsanitize=thread instrumentation for simA, -O3 -mavx2 without OpenMP for simB)',
        'libstdc++ (iostreams, containers), libc string formatting']
STUB = ['OpenMP runtime (libgomp entry points): teams of fibers scheduled by the simulator', 'operator new/delete: arena with bounds, lifetime and leak checking, seeded stale contents and placement', 'disk (open, write, close, rename, stdio files): in-memory with fault injection',
        'clocks: simulated', 'pthread create/join/mutex: simulated']

def build(plain=True):
    env = dict(os.environ)
    r = subprocess.run(['bash', HERE + '/sim/build.sh', BUILD] + ['0'] * bool(plain), capture_output=True, text=True, env=env)
    if r.returncode:
        sys.stdout.write('BUILD FAILED\n' + r.stdout[-4000:] + r.stderr[-4000:] + '\n')
        sys.exit(2)

# ------------------------------------------------------------------ single executions
def run_plan(text, name, rec=None):
    os.makedirs(OUT, exist_ok=True)
    f = '%s/%s.plan' % (OUT, name)
    with open(f, 'w') as h:
        h.write(text)
    cmd = [SIM0 if '\ncfg unoptimised 1\n' in text else SIM, 'run', f, VAL]
    if rec:
        cmd += ['-rec', rec]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=120)
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.unlink(f)
    if r.returncode not in (0, 1):
        return None
    try:
        return json.loads(r.stdout)
    except ValueError:
        return None

def same(a, b):
    return a and b and a['bad'] == b['bad'] and a['cls'] == b['cls'] and a['text'] == b['text'] and a['event_hash'] == b['event_hash']

class plan:
    """text form of a plan, split so that parts of it can be dropped"""
    def __init__(self, text):
        self.head, self.grids, self.ops, self.faults, self.switches = [], [], [], [], []
        self.sched = self.expl = ''
        for l in text.split('\n'):
            k = l.split(' ')[0]
            if k == 'op': self.ops.append(l)
            elif k == 'fault': self.faults.append(l)
            elif k == 'switch': self.switches.append(l)
            elif k == 'grid': self.grids.append(l)
            elif k == 'sched': self.sched = l
            elif k == 'explicit': self.expl = l
            elif l and k[0] != '#': self.head.append(l)
    def text(self):
        ids = {o.split(' ')[1] for o in self.ops} | {'0'}
        fs = [f for f in self.faults if f.split(' ')[1] in ids]
        return '\n'.join(self.head + self.grids + self.ops + fs + [self.sched, self.expl] + self.switches) + '\n'
    def copy(self):
        p = plan('')
        for k in ('head', 'grids', 'ops', 'faults', 'switches'):
            setattr(p, k, list(getattr(self, k)))
        p.sched, p.expl = self.sched, self.expl
        return p

def minimise(text, cls, deadline, tag):
    """drops parts of the plan while the same class of violation stays"""
    best = plan(text)
    pool = ThreadPoolExecutor(WORKERS)
    n = [0]
    def bad(p):
        n[0] += 1
        if time.time() > deadline:
            return False
        r = run_plan(p.text(), 'min_%s_%d_%d' % (tag, os.getpid(), n[0]))
        return bool(r and r['bad'] and r['cls'] == cls)
    def first(cands):
        """first candidate that still fails, tried WORKERS at a time"""
        for i in range(0, len(cands), WORKERS):
            part = cands[i:i + WORKERS]
            res = list(pool.map(bad, part))
            for p, ok in zip(part, res):
                if ok:
                    return p
            if time.time() > deadline:
                return None
        return None
    def ddmin(units, make):
        """units: list; make(units) -> plan"""
        size = max(1, len(units) // 2)
        p = make([])
        if units and bad(p):
            return []
        while units and time.time() < deadline:
            cuts = [units[:i] + units[i + size:] for i in range(0, len(units), size)]
            found = first([make(c) for c in cuts])
            if found is not None:
                units = found.units
                size = min(size, max(1, len(units) // 2))
            elif size == 1:
                break
            else:
                size = max(1, size // 2)
        return units
    def with_units(field, conv):
        def make(u):
            p = best.copy()
            setattr(p, field, conv(u))
            p.units = u
            return p
        return make
    minops = any(l == 'cfg minops 1' for l in best.head)
    for rnd in range(2):
        # blocks of calls, then single calls where a plan allows it
        blocks = []
        for o in best.ops:
            b = (o.split(' ')[2], o.split(' ')[3])
            if b not in blocks:
                blocks.append(b)
        def conv(u):
            u = set(u)
            return [o for o in best.ops if (o.split(' ')[2], o.split(' ')[3]) in u or o.split(' ')[3] == '0']
        u = ddmin([b for b in blocks if b[1] != '0'], with_units('ops', conv))
        best.ops = conv(u)
        if minops:
            best.ops = ddmin(list(best.ops), with_units('ops', lambda u: list(u)))
        best.faults = ddmin(list(best.faults), with_units('faults', lambda u: list(u)))
        if rnd == 0:
            # smaller grids
            for gi in range(len(best.grids)):
                for d in range(3):
                    for size in (4, 5, 6, 8):
                        t = best.grids[gi].split(' ')
                        if int(t[2 + 3 * d]) <= size:
                            break
                        p = best.copy()
                        t[2 + 3 * d] = str(size)
                        p.grids[gi] = ' '.join(t)
                        if bad(p):
                            best = p
                            break
            # a serial schedule, or the switches one by one
            p = best.copy()
            p.expl, p.switches = 'explicit 1', []
            if bad(p):
                best = p
            else:
                rec = '%s/rec_%s_%d' % (OUT, tag, os.getpid())
                r = run_plan(best.text(), 'rec_%s_%d' % (tag, os.getpid()), rec)
                if r and r['bad'] and os.path.exists(rec):
                    q = plan(open(rec).read())
                    if bad(q):
                        best = q
                if os.path.exists(rec):
                    os.unlink(rec)
        if best.switches:
            best.switches = ddmin(list(best.switches), with_units('switches', lambda u: list(u)))
        if time.time() > deadline:
            break
    pool.shutdown()
    return best.text()

# ------------------------------------------------------------------ known findings
def known(prop):
    res = []
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$', l.rstrip('\n'))
        if m and m.group(1) == prop:
            res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res

# ------------------------------------------------------------------ campaign
def campaign(prop, tier, seed, t0):
    quick = tier == 'quick'
    total = RUNS[prop][0 if quick else 1]
    if os.environ.get('VERIF_RUNS'):
        total = int(os.environ['VERIF_RUNS'])
    base = 1 + seed * 10000000
    procs = []
    jobs = []
    slow = max(1, WORKERS // 4) if prop in PLAIN else 0
    fast = max(1, WORKERS - slow)
    jobs += [(SIM, base + w, (total + fast - 1) // fast, fast) for w in range(fast)]
    # the unoptimised ones get the share they can manage in the same time
    jobs += [(SIM0, base + PLAIN_SEEDS + w, max(1, total // fast // 2), slow) for w in range(slow)]
    for exe, first, count, stride in jobs:
        cmd = [exe, 'campaign', prop, '0' if quick else '1', str(first), str(count), str(stride), str(LIMIT[tier]), str(GATE[tier]), VAL]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace'))
    found, sums, errs, stop = [], [], [], threading.Event()
    listed = known(prop)
    def reader(p):
        for l in p.stdout:
            if l.startswith('V '):
                _, s, cls, text = l.rstrip('\n').split(' ', 3)
                found.append((int(s), cls, text))
                if not any(c == cls and r.search(text) for c, r, _ in listed):
                    stop.set()
            elif l.startswith('J '):
                sums.append(json.loads(l[2:]))
        errs.append(p.stderr.read())
    ts = [threading.Thread(target=reader, args=(p,)) for p in procs]
    for t in ts: t.start()
    while any(t.is_alive() for t in ts):
        if stop.wait(0.2):
            time.sleep(1.5)        # let the other workers report what they have
            for p in procs:
                if p.poll() is None:
                    p.terminate()
            break
    for t in ts: t.join(60)
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    return found, sums, ''.join(errs), [p.returncode for p in procs]

def evidence(prop, tier, seed, sums, wall, violations, extra):
    S = {}
    fired, probe, samples = {}, [0] * 32, []
    scheds, states = set(), set()
    for j in sums:
        for k in ('runs', 'gated', 'mismatch', 'lost', 'ops', 'sim_ns', 'faulty_runs', 'switches', 'regions', 'steps', 'conflicts', 'allocs', 'ios', 'tasks'):
            S[k] = S.get(k, 0) + j[k]
        S['teams_max'] = max(S.get('teams_max', 0), j['teams_max'])
        for k, v in j['fired'].items():
            fired[k] = fired.get(k, 0) + v
        probe = [a + b for a, b in zip(probe, j['probe'])]
        samples += j['samples'][:2]
        for name, st in (('scheds', scheds), ('states', states)):
            st.update(j[name][i:i + 16] for i in range(0, len(j[name]), 16))
    which, rule = MEASURE[prop]
    runs = S.get('runs', 0)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(scheds if which == 'scheds' else states),
        'rule': rule,
        'samples': samples[:12],
        'simulated_runs_per_hour': round(runs / max(wall, 1e-9) * 3600),
        'seeds': 'from %d, stride 1' % (1 + seed * 10000000) + (', and from %d on the library compiled without optimisation' % (1 + seed * 10000000 + PLAIN_SEEDS) if prop in PLAIN else ''),
        'simulated_time_s': S.get('sim_ns', 0) * 1e-9,
        'simulated_memory_accesses': S.get('steps', 0),
        'library_calls': S.get('ops', 0),
        'runs_with_a_fault_fired': S.get('faulty_runs', 0),
        'faults_fired': {k: v for k, v in fired.items() if v},
        'distinct_schedules': len(scheds),
        'distinct_final_states': len(states),
        'thread_switches': S.get('switches', 0), 'parallel_regions': S.get('regions', 0), 'tasks': S.get('tasks', 0), 'largest_team': S.get('teams_max', 0),
        'allocations': S.get('allocs', 0), 'disk_calls': S.get('ios', 0),
        'probes': {n: v for n, v in zip(PROBES, probe) if v},
        'determinism_gate': {'seeds_run_twice': S.get('gated', 0), 'mismatches': S.get('mismatch', 0)},
        'real_components': REAL, 'stub_components': STUB,
    }
    cov.update(extra)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 3), 'violations': violations,
         'assumptions': ['a clean batch is evidence, not proof: schedules, faults and histories are sampled', 'threads switch at instrumented memory accesses and runtime calls and execute sequentially consistently', 'grids of at most a few dozen cells per direction']}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(e, f, indent=1)

def check(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in LIMIT:
        tier = 'quick'
    print('property=%s seed=%d tier=%s' % (prop, seed, tier), flush=True)
    build(prop in PLAIN)
    tb = time.time()
    found, sums, errs, codes = campaign(prop, tier, seed, t0)
    wall = time.time() - tb
    extra = {'build_s': round(tb - t0, 2)}
    listed = known(prop)
    fresh = [f for f in found if not any(c == f[1] and r.search(f[2]) for c, r, _ in listed)]
    for c, r, what in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if fresh:
        # gate: the same seed twice in fresh processes must give the same violation
        tried = 0
        seen = set()
        for s, cls, text in sorted(fresh, key=lambda f: f[0]):
            if tried >= 8 or (cls in seen and tried >= 4):
                continue
            tried += 1
            seen.add(cls)
            g = subprocess.run([SIM, 'gen', prop, '0' if tier == 'quick' else '1', str(s)], capture_output=True, text=True)
            a, b = run_plan(g.stdout, 'gate_%s_%d' % (prop, os.getpid())), run_plan(g.stdout, 'gate_%s_%d' % (prop, os.getpid()))
            if not (same(a, b) and a['bad'] and a['cls'] == cls):
                print('seed %d: violation (%s: %s) did not reproduce identically' % (s, cls, text))
                continue
            small = minimise(g.stdout, cls, time.time() + MINIMISE[tier], prop)
            x, y = run_plan(small, 'fin_%s_%d' % (prop, os.getpid())), run_plan(small, 'fin_%s_%d' % (prop, os.getpid()))
            if not (same(x, y) and x['bad'] and x['cls'] == cls):
                small, x = g.stdout, a
            os.makedirs(OUT, exist_ok=True)
            path = '%s/%s-seed%d.replay' % (OUT, prop, s)
            with open(path, 'w') as f:
                f.write('# replay: python3 %s/check.py replay %s\n# seed %d\n# violation %s: %s\n# event_hash %s\n' % (HERE, path, s, x['cls'], x['text'].replace('\n', ' '), x['event_hash']))
                f.write(small)
            p = plan(small)
            extra['replay'] = {'file': path, 'seed': s, 'class': x['cls'], 'text': x['text'], 'calls': len(p.ops), 'faults': len(p.faults), 'switches': len(p.switches)}
            evidence(prop, tier, seed, sums, wall, len(fresh), extra)
            print('seed %d: %s: %s' % (s, x['cls'], x['text']))
            print('minimised to %d calls, %d faults, %d explicit switches' % (len(p.ops), len(p.faults), len(p.switches)))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        evidence(prop, tier, seed, sums, wall, 0, extra)
        print('ERROR: violations were seen but none of them replays')
        return 2
    evidence(prop, tier, seed, sums, wall, 0, extra)
    runs = sum(j['runs'] for j in sums)
    lost = sum(j['lost'] for j in sums)
    mm = sum(j['mismatch'] for j in sums)
    print('%d simulated runs, %d calls, %d switches in %.1f s (build %.1f s)' % (runs, sum(j['ops'] for j in sums), sum(j['switches'] for j in sums), wall, tb - t0))
    if len(sums) < len(codes) or any(codes) or lost or mm or not runs:
        print('ERROR: harness failure (summaries %d, exit codes %s, lost %d, not deterministic %d)\n%s' % (len(sums), codes, lost, mm, errs[-2000:]))
        return 2
    return 0

def replay(path):
    build()
    text = open(path).read()
    prop = next(l.split(' ')[1].strip() for l in text.split('\n') if l.startswith('prop '))
    want = re.search(r'# event_hash (\S+)', text)
    r = run_plan(text, 'replay_%d' % os.getpid())
    if r is None:
        print('ERROR: harness failure')
        return 2
    print(json.dumps(r))
    if want:
        print('event hash %s' % ('identical to the recorded one' if want.group(1) == r['event_hash'] else 'differs from the recorded one (other code?)'))
    if r['bad']:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0

if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == 'setup':
        build()
        sys.exit(0)
    if len(sys.argv) == 2 and sys.argv[1] in RUNS:
        sys.exit(check(sys.argv[1]))
    sys.stderr.write(__doc__ + '\n')
    sys.exit(2)
