"""Core of the simulation driver: run one scenario in the simulated tsgolint, parse
what it recorded, and present it as an Outcome."""
import base64, collections, hashlib, json, os, re, resource, shutil, struct, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.abspath(__file__))
M64 = (1 << 64) - 1

class Harness(Exception):
    """The machinery itself misbehaved; never reported as a violation."""

def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)

class Rng:
    """Seeded generator (splitmix64); the only randomness in the driver."""
    def __init__(self, *seed):
        s = 0x243f6a8885a308d3
        for x in seed:
            if not isinstance(x, int):
                x = int.from_bytes(hashlib.sha256(str(x).encode()).digest()[:8], 'little')
            s = mix(s ^ (x & M64))
        self.s = s
    def u64(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & M64
        x = self.s
        x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
        x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
        return x ^ (x >> 31)
    def below(self, n): return self.u64() % n
    def range(self, a, b): return a + self.u64() % (b - a + 1)
    def p(self, num, den=100): return self.u64() % den < num
    def pick(self, xs): return xs[self.u64() % len(xs)]
    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = self.below(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs
    def sample(self, xs, k): return self.shuffle(xs)[:k]

SCRATCH = None
def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = tempfile.gettempdir()
        try:
            v = os.statvfs('/dev/shm')
            if os.access('/dev/shm', os.W_OK) and v.f_bavail * v.f_frsize > 3 << 30: base = '/dev/shm'
        except OSError: pass
        SCRATCH = tempfile.mkdtemp(prefix='vsim-', dir=base)
        import atexit
        atexit.register(shutil.rmtree, SCRATCH, True)
    return SCRATCH

Run = collections.namedtuple('Run', 'file rule checker config text options g')

def text_id(b):
    """Same identity of a file's text as the harness records (FNV-1a and length)."""
    if isinstance(b, str): b = b.encode('utf-8', 'surrogateescape')
    h = 14695981039346656037
    for c in b:
        h = ((h ^ c) * 1099511628211) & M64
    return '%x:%d' % (h, len(b))

TRACE_CAP = 1 << 17
LOG_CAP = 64 << 20
CPU_LIMIT = 40   # seconds of processor time, many times what the largest run needs: it is looping
_local = threading.local()
_ids = iter(range(1 << 30))
BIN = None

class Outcome:
    __slots__ = ('schedule', 'rc', 'code', 'stats', 'stdout', 'stderr', 'reports', 'runs', 'gens', 'calls', 'nodes', 'viol', 'fsops',
                 'fsevents', 'fsfaults', 'wfail', 'budget', 'decisions', 'preempts', 'points', 'signature', 'order', 'frames',
                 'frame_error', 'exited', 'rawerr', 'harness', 'changes', 'types')
    def frame_list(self):
        return self.frames

def default_scenario():
    return {'cwd': '/w', 'case': 'sensitive', 'files': {}, 'args': ['headless'], 'stdin_err_at': -1, 'wrap': True,
            'trace_cap': TRACE_CAP, 'log_cap': LOG_CAP, 'tick': 1000, 'budget': 30_000_000, 'ncpu': 4}

def run(sc, timeout=120, binary=None):
    """Execute one scenario. Deterministic in `sc` (and the binary)."""
    if not hasattr(_local, 'base'):
        _local.base = os.path.join(scratch(), 'w%d' % next(_ids))
        os.makedirs(_local.base)
    base = _local.base
    shm = os.path.join(base, 'shm')
    s = default_scenario()
    s.update(sc)
    env_extra = s.pop('env', {})
    sched = s.pop('schedule', None)
    total = 4096 + s['trace_cap'] * 8 + s['log_cap']
    if os.path.exists(shm):
        os.unlink(shm)
    with open(shm, 'wb') as f:
        f.truncate(total)
    with open(os.path.join(base, 'scenario.json'), 'w') as f:
        json.dump(s, f)
    rp = os.path.join(base, 'replay.bin')
    if sched is not None:
        d, p, q = sched
        with open(rp, 'wb') as f:
            f.write(struct.pack('<4Q', 1, len(d), len(p), len(q)))
            for i, c in d: f.write(struct.pack('<II', i, c))
            f.write(struct.pack('<%dQ' % len(p), *p)); f.write(struct.pack('<%dQ' % len(q), *q))
    elif os.path.exists(rp):
        os.unlink(rp)
    env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'GOMAXPROCS': '1', 'GODEBUG': 'asyncpreemptoff=1',
           'VSIM_CASE': s.get('case', 'sensitive'), 'GOTRACEBACK': 'single'}
    env.update(env_extra)
    p = subprocess.Popen([binary or BIN], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=base)
    cpu = CPU_LIMIT * (4 if binary and binary.endswith('race') else 1)
    try: resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 5))
    except ProcessLookupError: pass
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        raise Harness('a simulated run exceeded %ds of real time' % timeout)
    o = parse(shm, s, so, se, p.returncode)
    return o

def parse(shm, s, so, se, rc):
    o = Outcome()
    o.rc = rc; o.rawerr = se.decode('utf-8', 'replace')
    looping = rc == -24 or 'SIGXCPU' in o.rawerr
    if rc == 99:
        raise Harness(o.rawerr[:2000])
    o.reports = []; o.runs = []; o.gens = {}; o.calls = {}; o.nodes = []; o.viol = []; o.fsops = []; o.fsevents = []; o.fsfaults = []
    o.wfail = []; o.stats = None; o.code = None; o.order = []; o.changes = []; o.types = []; o.budget = looping
    out = []; err = []
    with open(shm, 'rb') as f:
        n, full = struct.unpack('<QQ', f.read(16))
        if full:
            raise Harness('event log overflow')
        f.seek(4096 + s['trace_cap'] * 8)
        data = f.read(n)
        off = 0
        while off + 9 <= n:
            t = chr(data[off]); g, ln = struct.unpack_from('<II', data, off + 1)
            pl = data[off + 9: off + 9 + ln]; off += 9 + ln
            if t == 'W':
                out.append(pl); o.order.append(('W', len(pl)))
            elif t == 'E': err.append(pl)
            elif t == 'w': o.wfail.append(pl.decode())
            elif t == 'F':
                a = pl.decode('utf-8', 'surrogateescape').split('\t'); o.fsops.append((int(a[0]), a[1], a[2], a[3]))
            elif t == 'M': o.fsevents.append(pl.decode('utf-8', 'surrogateescape'))
            elif t == 'Q': o.fsfaults.append(tuple(pl.decode('utf-8', 'surrogateescape').split('\t')))
            elif t == 'U': o.changes.append(tuple(pl.decode('utf-8', 'surrogateescape').split('\t')))
            elif t == 'B': o.budget = True
            elif t == 'V': o.viol.append(pl.decode('utf-8', 'replace'))
            elif t == 'X': o.code = int(pl)
            elif t == 'T': o.types.append(json.loads(pl))
            elif t == 'Z': o.stats = json.loads(pl)
            elif t == 'R':
                a = pl.decode('utf-8', 'surrogateescape').split('\t', 5); o.runs.append(Run(a[0], a[1], int(a[2]), a[3], a[4], a[5], g))
            elif t == 'D':
                if pl[:1] == b'!':
                    o.reports.append({'raw': pl.decode('utf-8', 'replace')})
                else:
                    d = json.loads(pl); d['g'] = g; o.reports.append(d)
            elif t == 'G':
                d = json.loads(pl); e = o.gens.setdefault(d['id'], {}); e.update(d)
                for k in ('fixes', 'sugg'):
                    if k in d: e['n_' + k] = e.get('n_' + k, 0) + 1
            elif t == 'C':
                a = pl.decode('utf-8', 'surrogateescape').split('\t'); o.calls[(a[0], a[1])] = (int(a[2]), int(a[3]))
            elif t == 'N':
                a = pl.decode('utf-8', 'surrogateescape').split('\t'); o.nodes.append((a[0], int(a[2]), int(a[3]), int(a[4]), int(a[5]), a[6]))
        o.decisions = []; o.preempts = []; o.points = []
        tl = o.stats['trace_len'] if o.stats else None
        f.seek(4096)
        if tl is None:
            # crashed run: entries are contiguous and never 0
            raw = f.read(s['trace_cap'] * 8)
        else:
            raw = f.read(tl * 8)
        for (v,) in struct.iter_unpack('<Q', raw):
            if v == 0:
                break
            k = v >> 56; v &= (1 << 56) - 1
            if k == 1: o.decisions.append((v >> 16, v & 0xffff))
            elif k == 2: o.preempts.append(v)
            elif k == 3: o.points.append(v)
    o.schedule = (o.decisions, o.preempts, o.points)
    o.stdout = b''.join(out) + so
    o.stderr = b''.join(err).decode('utf-8', 'replace') + o.rawerr
    o.exited = o.code is not None
    if 'VSIM' in o.rawerr:
        raise Harness(o.rawerr[:2000])
    o.signature = hashlib.sha256(repr((rc, o.stdout, o.stats and o.stats['hash'], o.stats and o.stats['allocs'], o.stats and o.stats['points'])).encode()).hexdigest()[:16]
    o.frames, o.frame_error = parse_frames(o.stdout)
    return o

def parse_frames(b):
    """[(type, decoded json, raw payload)], error"""
    out = []; off = 0
    while off < len(b):
        if off + 5 > len(b):
            return out, 'truncated header at byte %d' % off
        n, t = struct.unpack_from('<IB', b, off)
        if t > 2:
            return out, 'unknown message type %d at byte %d' % (t, off)
        if off + 5 + n > len(b):
            return out, 'frame of %d bytes at byte %d is cut short (%d available)' % (n, off, len(b) - off - 5)
        raw = b[off + 5: off + 5 + n]
        try:
            v = json.loads(raw)
        except ValueError as e:
            return out, 'payload of the frame at byte %d is not JSON: %s' % (off, e)
        e = malformed(t, v)
        if e:
            return out, 'malformed message at byte %d: %s in %s' % (off, e, raw[:300].decode('utf-8', 'replace'))
        out.append((t, v, raw)); off += 5 + n
    return out, None

def malformed(t, v):
    """What is wrong with the shape of a decoded message, or None."""
    num = lambda x: isinstance(x, int) and not isinstance(x, bool) and x >= 0
    span = lambda r: isinstance(r, dict) and num(r.get('pos')) and num(r.get('end'))
    msg = lambda m: isinstance(m, dict) and isinstance(m.get('id'), str) and isinstance(m.get('description'), str) and isinstance(m.get('help', ''), str)
    fixes = lambda f: isinstance(f, list) and all(isinstance(x, dict) and isinstance(x.get('text'), str) and span(x.get('range')) for x in f)
    if not isinstance(v, dict): return 'not an object'
    if t == 0: return None if isinstance(v.get('error'), str) and v['error'] else 'error'
    if t == 2:
        ok = isinstance(v.get('rules'), list) and all(isinstance(r, dict) and isinstance(r.get('rule_name'), str) and num(r.get('duration')) and num(r.get('calls')) for r in v['rules'])
        return None if ok else 'rules'
    if not num(v.get('kind')) or v['kind'] not in (0, 1): return 'kind'
    if not msg(v.get('message')): return 'message'
    if not isinstance(v.get('file_path'), str): return 'file_path'
    if v['kind'] == 0 and not (isinstance(v.get('rule'), str) and v['rule']): return 'rule'
    if 'range' in v and not span(v['range']): return 'range'
    if not all(isinstance(x, dict) and isinstance(x.get('label'), str) and span(x.get('range')) for x in v.get('labeled_ranges') or []): return 'labeled_ranges'
    if not fixes(v.get('fixes') or []): return 'fixes'
    if not all(isinstance(x, dict) and msg(x.get('message')) and fixes(x.get('fixes') or []) for x in v.get('suggestions') or []): return 'suggestions'
    return None

def canon(v):
    return json.dumps(v, sort_keys=True, ensure_ascii=True)

def diag_multiset(o):
    return sorted(canon(v) for t, v, _ in o.frames if t == 1)

def payload(configs, version=2, overrides=None, syntactic=None, semantic=None, extra=None):
    p = {'version': version, 'configs': [{'file_paths': c[0], 'rules': [r if isinstance(r, dict) else {'name': r} for r in c[1]]} for c in configs]}
    if overrides is not None: p['source_overrides'] = overrides
    if syntactic is not None: p['report_syntactic'] = syntactic
    if semantic is not None: p['report_semantic'] = semantic
    if extra: p.update(extra)
    return json.dumps(p)

def deadlocked(o):
    return 'all goroutines are asleep' in o.rawerr

def where(trace):
    """The functions that were running when a panic ended the process."""
    i = trace.find('\npanic(')
    if i < 0: return ''
    fs = re.findall(r'^([\w./-]+/[\w.()*\[\]-]+?)\(', trace[i:].replace('(*', '').replace(').', '.'), re.M)
    fs = [f.rsplit('/', 1)[1] for f in fs]
    return ' in ' + ' < '.join(fs[:3]) if fs else ''

def crash_kind(o):
    """None when the program exited through os.Exit/return; otherwise what killed it."""
    if o.budget:
        return 'budget'
    if o.exited:
        return None
    if deadlocked(o):
        return 'deadlock'
    m = re.search(r'^(panic: .*|fatal error: .*)$', o.rawerr, re.M)
    return m.group(1)[:300] + where(o.rawerr[m.end():]) if m else 'killed rc=%s %s' % (o.rc, o.rawerr[-300:])
