"""Search engine: generates cases from a seed, runs them in the simulator, judges them,
minimises failures, writes replay files and evidence."""
import concurrent.futures as cf, copy, hashlib, json, os, re, sys, threading, time
import vsim
from vsim import Rng, Harness

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('VERIF_WORK', os.path.join(ROOT, '.work'))
NAME = {'enospc', 'eio', 'epipe'}

# ------------------------------------------------------------------ case -> scenario

def scenario(case, k, more=None):
    """What the simulator is to do in run k; `more` is what the earlier runs decided."""
    run = case['runs'][k]
    spec = dict(case['spec'])
    spec.update(run.get('over', {}))
    spec.update(more or {})
    sc = {'files': spec['files'], 'cwd': spec.get('cwd', '/w'), 'case': spec.get('case', 'sensitive')}
    if 'args' in spec:
        sc['args'] = list(spec['args'])
    else:
        a = ['headless']
        if spec.get('fix'): a.append('-fix')
        if spec.get('sugg'): a.append('-fix-suggestions')
        if spec.get('timings'): a += ['-debug', 'timings']
        sc['args'] = a
    if 'stdin' in spec: sc['stdin'] = spec['stdin']
    elif 'stdin_b64' in spec: sc['stdin_b64'] = spec['stdin_b64']
    elif spec.get('version') == 1:
        sc['stdin'] = json.dumps({'files': [{'file_path': p, 'rules': [r['name'] for r in rules]} for paths, rules in spec['configs'] for p in paths]})
    else:
        sc['stdin'] = vsim.payload(spec['configs'], overrides=spec.get('overrides'), syntactic=spec.get('syn', False), semantic=spec.get('sem', False))
    env = dict(spec.get('env', {}))
    if env: sc['env'] = env
    if 'budget' in spec: sc['budget'] = spec['budget']
    sc.update(run.get('sim', {}))
    if 'schedule' in run: sc['schedule'] = [[tuple(x) for x in run['schedule'][0]], run['schedule'][1], run['schedule'][2]]
    return sc

def execute(case, prop, tally=None):
    outs = []
    for k in range(len(case['runs'])):
        more = prop.follow(case, k, outs)
        if more is None: break
        o = vsim.run(scenario(case, k, more), binary=BINS[case.get('binary', prop.binary)], timeout=prop.timeout)
        outs.append(o)
        if tally is not None: tally.add(o)
    return outs

BINS = {}

class Tally:
    def __init__(self):
        self.lock = threading.Lock(); self.runs = 0; self.faults = {}; self.hashes = set(); self.clock = 0; self.preempts = 0; self.decisions = 0
        self.switches = 0; self.fsops = 0; self.rc = {}; self.strategies = {}; self.maxrun = 0; self.yields = 0
    def add(self, o):
        with self.lock:
            self.runs += 1
            self.rc[str(o.rc)] = self.rc.get(str(o.rc), 0) + 1
            if o.stats:
                s = o.stats
                for k, v in s['counts'].items(): self.faults[k] = self.faults.get(k, 0) + v
                self.hashes.add(s['hash']); self.clock += s['clock']; self.preempts += s['preempts']; self.decisions += s['decisions']
                self.switches += s['switches']; self.fsops += s['fs_ops']; self.yields += s['yields']; self.maxrun = max(self.maxrun, s['max_runnable'])

# ------------------------------------------------------------------ judging

KNOWN = []

def known(prop):
    """The recorded, unrepaired findings about a property."""
    if not KNOWN:
        with open(os.path.join(ROOT, 'known-findings.json')) as f: KNOWN.append(json.load(f)['findings'])
    return [f for f in KNOWN[0] if f['status'] == 'known' and f['property'] == prop.id]

class Judged:
    """A finished case; `viols` are its violations, less those known-findings.json lists."""
    def __init__(self, case, outs, viols, prop):
        self.case, self.outs, self.viols, self.known = case, outs, [], []
        for v in viols:
            f = next((f for f in known(prop) if re.search(f['match'], v[1])), None)
            if f: self.known.append(f['id'])
            else: self.viols.append(v)

def judge(case, prop, tally=None):
    outs = execute(case, prop, tally)
    return Judged(case, outs, prop.check(case, outs), prop)

# ------------------------------------------------------------------ minimisation

def size(case):
    return len(json.dumps(case))

def candidates(case, prop):
    """Smaller variants of a case, most aggressive first."""
    c = case
    def clone(): return copy.deepcopy(c)
    # runs
    if not prop.fixed_runs and len(c['runs']) > 2:
        for k in range(len(c['runs']) - 1, 0, -1):
            d = clone(); d['runs'] = [d['runs'][0], d['runs'][k]]; yield d
    spec = c['spec']
    # configurations, requested paths, rules
    cf_ = spec.get('configs')
    if cf_ and not prop.keep_request:
        if len(cf_) > 1:
            for i in range(len(cf_)):
                d = clone(); del d['spec']['configs'][i]; yield d
        for i, (paths, rules) in enumerate(cf_):
            for chunk in chunks(len(paths)):
                if len(chunk) < len(paths) or len(cf_) > 1:
                    d = clone(); d['spec']['configs'][i][0] = [p for j, p in enumerate(paths) if j not in chunk]; yield d
            for chunk in chunks(len(rules)):
                d = clone(); d['spec']['configs'][i][1] = [p for j, p in enumerate(rules) if j not in chunk]; yield d
    # files
    if not prop.keep_files:
        req = set(p for paths, _ in (cf_ or []) for p in paths)
        names = sorted(f for f in spec['files'] if f not in req)
        for chunk in chunks(len(names)):
            d = clone()
            for j in chunk:
                del d['spec']['files'][names[j]]
                for r in d['runs']: r.get('over', {}).get('files', {}).pop(names[j], None)
            yield d
        for f in sorted(spec['files']):
            v = spec['files'][f]
            if f.endswith(('.ts', '.tsx')) and isinstance(v.get('t'), str) and '\n' in v['t'].strip():
                lines = v['t'].split('\n')
                for chunk in chunks(len(lines), 4):
                    d = clone(); less = dict(v, t='\n'.join(l for j, l in enumerate(lines) if j not in chunk)); d['spec']['files'][f] = less
                    for r in d['runs']:   # a run's own copy of the workspace follows where it agreed
                        own = r.get('over', {}).get('files', {})
                        if own.get(f) == v: own[f] = less
                    yield d
    # faults and environment
    for k, r in enumerate(c['runs']):
        s = r.get('sim', {})
        for key in ('fs_faults', 'fs_events'):
            for i in range(len(s.get(key, []))):
                d = clone(); del d['runs'][k]['sim'][key][i]; yield d
        if k or not prop.fixed_runs:
            for key, v in (('alloc_mean', 0), ('point_mean', 0), ('fs_yield', 0), ('fs_latency', 0), ('fs_short', 0), ('stdout_stall', 0), ('stdin_chunks', []),
                           ('wall_jump', 0), ('ncpu', 1), ('ncpu', 2), ('strategy', 0), ('strategy', 1)):
                if s.get(key, 0) and s.get(key) != v and not (key == 'strategy' and v == 1 and s.get(key) == 0) and not (key == 'ncpu' and s[key] < v):
                    d = clone(); d['runs'][k]['sim'][key] = v; yield d
    for key in ('syn', 'sem', 'fix', 'sugg', 'timings'):
        if spec.get(key) and key not in prop.keep_flags:
            d = clone(); d['spec'][key] = False; yield d

def chunks(n, least=1):
    """Index sets to remove: halves, quarters, ..., single elements."""
    w = n
    while w >= least and w >= 1:
        for i in range(0, n, w):
            yield set(range(i, min(n, i + w)))
        w //= 2

def shrink(j, prop, budget, pool):
    """Greedy, parallel: try candidates in batches and take the first that still fails
    with the same kind of violation."""
    t0 = time.time(); kind = j.viols[0][0]; tried = 0
    while time.time() - t0 < budget:
        gen = candidates(j.case, prop); better = None; seen = size(j.case)
        while better is None and time.time() - t0 < budget:
            batch = []
            for d in gen:
                batch.append(d)
                if len(batch) == 8: break
            if not batch: break
            tried += len(batch)
            def attempt(d):
                try: return judge(d, prop)
                except (Harness, KeyError, IndexError, ValueError): return None
            for r in pool.map(attempt, batch):
                if r is not None and r.viols and r.viols[0][0] == kind and (better is None or size(r.case) < size(better.case)):
                    better = r
        if better is None: break
        j = better
    return j, tried

def pin(j, prop, budget):
    """Replace seeds by the explicit schedule of every run, then minimise the schedule of
    the last run: preemptions, decisions, injected yields."""
    kind = j.viols[0][0]
    case = copy.deepcopy(j.case)
    for k, o in enumerate(j.outs):
        case['runs'][k]['schedule'] = [[list(x) for x in o.schedule[0]], list(o.schedule[1]), list(o.schedule[2])]
    def ok(c):
        try: r = judge(c, prop)
        except Harness: return None
        return r if r.viols and r.viols[0][0] == kind else None
    r = ok(case)
    if r is None: return None, 0
    t0 = time.time(); n = 0
    for k in range(len(j.outs) - 1, -1, -1):
        for part in (1, 2, 0):
            lst = r.case['runs'][k]['schedule'][part]; w = len(lst)
            while w >= 1 and time.time() - t0 < budget:
                i = 0; hit = False
                while i < len(lst) and time.time() - t0 < budget:
                    d = copy.deepcopy(r.case); d['runs'][k]['schedule'][part] = lst[:i] + lst[i + w:]; n += 1
                    q = ok(d)
                    if q: r = q; lst = d['runs'][k]['schedule'][part]; hit = True
                    else: i += w
                w = min(w // 2, len(lst)) if not (hit and w == 1) else 0
    return r, n

# ------------------------------------------------------------------ main loop

def note(*a):
    print(*a, file=sys.stderr, flush=True)

def run_property(prop, tier, seed):
    t0 = time.time()
    import build
    build.WORK = WORK
    BINS['normal'] = vsim.BIN = build.build()
    if prop.binary == 'race': BINS['race'] = build.build(race=True)
    tb = time.time() - t0
    deadline = float(os.environ.get('VERIF_RUN_S', prop.quick_s if tier == 'quick' else prop.thorough_s))
    least = prop.quick_min if tier == 'quick' else prop.thorough_min
    hard = 420 if tier == 'quick' else deadline * 3
    t1 = time.time()
    tally = Tally(); stop = threading.Event(); counter = iter(range(1 << 40)); lock = threading.Lock()
    failures = []; kinds = {}; nontriv = set(); samples = []; evaluations = [0]; determinism = [0, 0]; harness_errors = []; skipped = [0]
    knowns = known(prop); known_hits = {}

    def work():
        while not stop.is_set():
            with lock: i = next(counter)
            el = time.time() - t1
            if (el > deadline and i >= least) or el > hard: return
            rng = Rng(seed, prop.id, i)
            try:
                case = prop.gen(rng, i)
                case.update(property=prop.id, seed=seed, index=i)
                j = judge(case, prop, tally)
                if i % prop.recheck == 0:
                    k = len(j.outs) - 1
                    o2 = vsim.run(scenario(case, k, prop.follow(case, k, j.outs[:k])), binary=BINS[case.get('binary', prop.binary)], timeout=prop.timeout)
                    with lock:
                        determinism[0] += 1
                        if o2.signature != j.outs[k].signature: determinism[1] += 1
            except (Harness, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                if not isinstance(e, Harness):
                    import traceback; e = traceback.format_exc()[-900:]
                with lock: harness_errors.append('case %d: %s' % (i, str(e)[:900]))
                if len(harness_errors) > 20: stop.set()
                continue
            with lock:
                evaluations[0] += len(case['runs'])
                kd = case.get('kind', '?'); kinds[kd] = kinds.get(kd, 0) + 1
                nt = prop.nontrivial(case, j.outs)
                if nt:
                    nontriv.add(hashlib.sha256(repr(nt).encode()).hexdigest()[:16])
                    if len(samples) < 5 and i % 7 == 0: samples.append({'index': i, 'kind': kd, 'what': str(nt)[:300]})
                for f in j.known: known_hits[f] = known_hits.get(f, 0) + 1
                if j.viols: failures.append(j); stop.set()
    with cf.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda _: work(), range(8)))
    wall_run = time.time() - t1
    rc = 0; violation = None
    for f in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop.id, f['what']))
    if failures:
        failures.sort(key=lambda j: j.case['index'])
        with cf.ThreadPoolExecutor(8) as pool:
            for j in failures:
                note('[%s] candidate violation in case %d: %s' % (prop.id, j.case['index'], j.viols[0][1][:400]))
                try: again = judge(j.case, prop)
                except Harness as e: note('not confirmed: %s' % e); continue
                if not again.viols or again.viols[0][0] != j.viols[0][0]:
                    note('not reproduced; not reported'); harness_errors.append('unreproduced candidate in case %d' % j.case['index']); continue
                before = size(j.case)
                if tier == 'quick' and os.environ.get('VERIF_SHRINK_S') is None: b1, b2 = 25, 15
                else: b1 = b2 = float(os.environ.get('VERIF_SHRINK_S', 300))
                small, tried = shrink(again, prop, b1, pool)
                pinned, n2 = pin(small, prop, b2)
                final = pinned or small
                violation = write_replay(final, prop, tried + n2, before)
                rc = 1
                break
    wall = time.time() - t0
    evidence(prop, tier, seed, tally, evaluations[0], nontriv, samples, kinds, determinism, harness_errors, wall, wall_run, tb, violation, known_hits)
    note('[%s] %s: build %.0fs, %d cases, %d runs in %.0fs, %d distinct schedules, %d nontrivial, determinism %d/%d, harness %d' % (
        prop.id, tier, tb, sum(kinds.values()), tally.runs, wall_run, len(tally.hashes), len(nontriv), determinism[0] - determinism[1], determinism[0], len(harness_errors)))
    for h in harness_errors[:3]: note('   harness:', h)
    if violation:
        print('VIOLATION property=%s replay=%s' % (prop.id, violation))
    elif sum(kinds.values()) < 10 or len(harness_errors) > 20 or tally.runs < 20:
        note('not enough was explored to answer'); rc = 3
    else:
        print('OK property=%s runs=%d' % (prop.id, tally.runs))
    return rc

def write_replay(j, prop, tried, before):
    d = os.path.join(WORK, 'replays'); os.makedirs(d, exist_ok=True)
    body = {'property': prop.id, 'violations': [v[1] for v in j.viols[:10]], 'kind': j.viols[0][0], 'case': j.case,
            'minimised': {'candidates_tried': tried, 'bytes_before': before, 'bytes_after': size(j.case)},
            'signatures': [o.signature for o in j.outs],
            'trace': [{'rc': o.rc, 'crash': vsim.crash_kind(o), 'faults': (o.stats or {}).get('counts'), 'events': o.fsevents, 'frames': len(o.frames), 'stderr_tail': o.stderr[-600:]} for o in j.outs]}
    raw = json.dumps(body, indent=1, sort_keys=True)
    p = os.path.join(d, '%s-%s.json' % (prop.id, hashlib.sha256(raw.encode()).hexdigest()[:10]))
    with open(p, 'w') as f: f.write(raw)
    note('[%s] %s' % (prop.id, j.viols[0][1][:1500]))
    return p

def replay(path, props):
    import build
    build.WORK = WORK
    body = json.load(open(path)); prop = props[body['property']]
    BINS['normal'] = vsim.BIN = build.build()
    if body['case'].get('binary', prop.binary) == 'race': BINS['race'] = build.build(race=True)
    j = judge(body['case'], prop)
    same = [o.signature for o in j.outs] == body['signatures']
    print('executions %s the recorded ones' % ('are identical to' if same else 'differ from'))
    for v in j.viols: print('  ' + v[1][:2000])
    if j.viols:
        print('VIOLATION property=%s replay=%s' % (prop.id, path)); return 1
    print('OK property=%s (the replayed case does not fail on this tree)' % prop.id); return 0

def evidence(prop, tier, seed, tally, evals, nontriv, samples, kinds, determinism, herr, wall, wall_run, tb, violation, known_hits):
    d = os.path.join(ROOT, 'evidence'); os.makedirs(d, exist_ok=True)
    per_h = 3600.0 / max(wall_run, 0.001)
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level,
          'coverage': {'evaluations': max(evals, 1), 'distinct_nontrivial': len(nontriv), 'rule': prop.rule,
                       'samples': samples or [{'index': 0, 'kind': k, 'what': n} for k, n in kinds.items()],
                       'simulated_runs': tally.runs, 'cases': sum(kinds.values()), 'cases_by_kind': kinds,
                       'runs_per_hour': int(tally.runs * per_h), 'seeds_per_hour': int(sum(kinds.values()) * per_h),
                       'simulated_time_s': round(tally.clock / 1e9, 3), 'faults_injected': dict(sorted(tally.faults.items())),
                       'scheduling': {'distinct_interleavings': len(tally.hashes), 'measure': 'distinct hashes of the complete sequence of scheduling decisions of a run',
                                      'decisions': tally.decisions, 'goroutine_switches': tally.switches, 'injected_preemptions': tally.preempts, 'injected_yields': tally.yields, 'max_runnable': tally.maxrun},
                       'file_system_operations': tally.fsops, 'exit_codes': tally.rc,
                       'determinism_rechecks': {'runs_repeated': determinism[0], 'mismatches': determinism[1]},
                       'real_components': ['cmd/tsgolint', 'internal/linter', 'internal/utils', 'internal/rule', 'internal/rules/*', 'internal/diagnostic', 'typescript-go (pinned, patched)', 'Go runtime and standard library'],
                       'stubs': ['operating-system files, directories, standard streams, exit, cwd (package os seam)', 'clock and timers', 'goroutine scheduler choices, preemption points, runtime PRNG (map order, select)', 'probe rules appended to the registry'],
                       'replay': violation, 'known_findings_hit': known_hits, 'harness_errors': herr[:5], 'build_s': round(tb, 1)},
          'wall_s': round(wall, 1),
          'assumptions': prop.assumptions + ['one simulated run uses a single P: data races are explored as interleavings at allocation, statement and channel points, not as weak-memory effects',
                                            'garbage collection is off during a run'],
          'violations': 1 if violation else 0}
    with open(os.path.join(d, prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True); f.write('\n')
