"""The properties: how cases are generated, and how a finished case is judged. check() is
a pure function of the case and of what its simulated runs recorded."""
import base64, bisect, collections, copy, hashlib, json, os, posixpath, re
import vsim, worlds, model
from vsim import Rng, canon, crash_kind, diag_multiset
from worlds import noise, quiet, t, targets_of

Counter = collections.Counter

def short(x, n=300):
    s = x if isinstance(x, str) else json.dumps(x, sort_keys=True)
    return s if len(s) <= n else s[:n] + '...'

def diff(a, b, what=('first', 'second')):
    ca, cb = Counter(a), Counter(b)
    x = list((ca - cb).elements()); y = list((cb - ca).elements())
    if not x and not y: return None
    out = []
    if x: out.append('only in %s (%d): %s' % (what[0], len(x), short(x[0], 500)))
    if y: out.append('only in %s (%d): %s' % (what[1], len(y), short(y[0], 500)))
    return '; '.join(out)

def died(o, allow=(0,)):
    """Violation text when a run that must succeed did not."""
    c = crash_kind(o)
    if c: return 'the run died: %s' % short(c, 400)
    if o.rc not in allow: return 'exit code %d, stderr: %s' % (o.rc, short(o.stderr[-400:], 400))
    if o.frame_error: return 'stdout is not a sequence of messages: %s' % o.frame_error
    return None

def errors(o): return [v for ty, v, _ in o.frames if ty == 0]
def diags(o): return [v for ty, v, _ in o.frames if ty == 1]
def timings(o): return [v for ty, v, _ in o.frames if ty == 2]
def rule_diags(o): return [v for v in diags(o) if v['kind'] == 0]
def type_diags(o): return [v for v in diags(o) if v['kind'] == 1 and v['message']['id'] != 'tsconfig-error']
def config_diags(o): return [v for v in diags(o) if v['kind'] == 1 and v['message']['id'] == 'tsconfig-error']

def frange(a, b): return {'pos': a, 'end': b}

def expected_frame(d, gens, fix, sugg):
    """The message a rule's report must turn into."""
    m = {'id': d['mid'], 'description': d['desc']}
    if d['help']: m['help'] = d['help']
    v = {'kind': 0, 'message': m, 'file_path': d['file'], 'rule': d['rule']}
    if d['valid']: v['range'] = frange(d['pos'], d['end'])
    if d['labels']: v['labeled_ranges'] = [{'label': l, 'range': frange(a, b)} for l, a, b in d['labels']]
    g = gens.get(d['id'], {})
    fs = g.get('fixes') if d['fix_fn'] else d['fixes']
    if fix and fs: v['fixes'] = [{'text': x, 'range': frange(a, b)} for x, a, b in fs]
    ss = g.get('sugg') if d['sugg_fn'] else d['sugg']
    if sugg and ss:
        v['suggestions'] = [{'message': dict({'id': i, 'description': ds}, **({'help': h} if h else {})), 'fixes': [{'text': x, 'range': frange(a, b)} for x, a, b in f]} for i, ds, h, f in ss]
    return v

def emitted(o, spec, strip=()):
    """Difference between what rules reported and what was written, or None."""
    want = []
    for d in o.reports:
        if 'raw' in d: return None
        want.append(expected_frame(d, o.gens, spec.get('fix'), spec.get('sugg')))
    got = rule_diags(o)
    if strip:
        want = [{k: v for k, v in w.items() if k not in strip} for w in want]
        got = [{k: v for k, v in w.items() if k not in strip} for w in got]
    return diff([canon(x) for x in want], [canon(x) for x in got], ('what the rules reported', 'the output'))

def spec_of(case, k):
    s = dict(case['spec']); s.update(case['runs'][k].get('over', {})); return s

def nopt(x): return json.dumps(x, sort_keys=True)

def want_runs(spec):
    return Counter((f, r['name'], nopt(r.get('options'))) for f, rules in norm_targets(spec).items() for r in rules)

def got_runs(o): return Counter((r.file, r.rule, nopt(json.loads(r.options)) if not r.options.startswith('!') else r.options) for r in o.runs)

def norm_targets(spec):
    out = {}
    for paths, rules in spec['configs']:
        for p in paths:
            out[posixpath.normpath(posixpath.join(spec.get('cwd', '/w'), p.replace('\\', '/')))] = rules
    return out

class Prop:
    id = None; level = 'exploration'; binary = 'normal'; race_share = False
    quick_s = 35; quick_min = 50; thorough_s = 1500; thorough_min = 2000
    timeout = 300; recheck = 12
    fixed_runs = False; keep_request = False; keep_files = False; keep_flags = ()
    assumptions = []
    def gen(self, rng, i): raise NotImplementedError
    def follow(self, case, k, outs):
        """What the runs before run k decide about it; None: there is nothing left to run."""
        return {}
    def check(self, case, outs): raise NotImplementedError
    def nontrivial(self, case, outs):
        if not any(len(o.frames) for o in outs): return None
        return [o.stats and o.stats['hash'] for o in outs], len(outs[0].frames), case.get('kind')

def envs(rng, k):
    return [{'sim': quiet()}] + [{'sim': noise(rng)} for _ in range(k)]

# ---------------------------------------------------------------------------- C01

class C01(Prop):
    id = 'C01'
    rule = ('A generated workspace (corpus snippets, cross-importing modules, merging global scripts, several projects, files without project) and request is executed once quietly on one CPU '
            'and three times under seeded schedules, map orders, CPU counts, latencies and short reads. Non-trivial: some diagnostic was produced; distinct by the four schedules.')
    assumptions = ['the workspace does not change during a run']
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'corpus', 'synth', 'synth', 'globals', 'multi', 'multi', 'shared', 'loose', 'twins'] if not rng.p(1) else ['many'])
        worlds.request(rng, w, ts, probes=rng.pick([(), ('vsim-probe-type',), ('vsim-probe-run',)]))
        w['sem'] = rng.p(40); w['syn'] = rng.p(30); w['fix'] = rng.p(70); w['sugg'] = rng.p(70)
        if rng.p(15):
            p = rng.pick(ts); w['overrides'] = {p: worlds.snippet(rng)[0]}
        return {'kind': w['kind'], 'spec': w, 'runs': envs(rng, 3)}
    def check(self, case, outs):
        out = []; a = outs[0]
        for k, o in enumerate(outs[1:], 1):
            if (a.rc != 0) != (o.rc != 0) or (crash_kind(a) is None) != (crash_kind(o) is None):
                out.append(('outcome', 'run %d ended with code %s (%s), the reference run with %s (%s)' % (k, o.rc, short(crash_kind(o)), a.rc, short(crash_kind(a))))); continue
            if crash_kind(o): continue
            d = diff(diag_multiset(a), diag_multiset(o), ('the reference run', 'run %d' % k))
            if d: out.append(('diagnostics', 'the set of diagnostics depends on scheduling: ' + d))
            if o.frame_error: out.append(('stream', 'run %d: %s' % (k, o.frame_error)))
        return out

# ---------------------------------------------------------------------------- C02

class C02(Prop):
    id = 'C02'
    rule = ('What every rule reported is recorded inside the rule call; the messages on stdout are compared with it as multisets, each requested file must have had every configured rule started '
            'exactly once, and every syntax node must have been entered and left exactly once. Workloads reach far beyond the 4096-slot channel and the output buffer; stdout stalls. '
            'Non-trivial: a diagnostic was produced; distinct by schedule.')
    fixed_runs = True
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'shared', 'loose', 'big', 'big'] if not rng.p(3) else ['many'])
        big = w['kind'] in ('big', 'many')
        probes = ['vsim-probe-walk', 'vsim-probe-run', 'vsim-probe-fix'] if not big else ['vsim-probe-walk', {'name': 'vsim-probe-ident', 'options': {'pad': rng.pick([0, 10, 300, 1500])}}]
        if not big and rng.p(40): probes.append({'name': 'vsim-probe-ident', 'options': {'tag': 'z', 'pad': rng.pick([0, 50])}})
        worlds.request(rng, w, ts, probes=probes, kind=1 if big else None)
        w['fix'] = rng.p(60); w['sugg'] = rng.p(60); w['sem'] = rng.p(15); w['syn'] = rng.p(15); w['timings'] = rng.p(30)
        if rng.p(10):   # text that is not valid UTF-8
            p = rng.pick(ts); b = w['files'][p]['t'].encode('utf-8', 'surrogateescape').replace(b'(', b'(/*\xe9*/')
            w['files'][p] = {'b64': base64.b64encode(b).decode()}
        n = noise(rng)
        if big and rng.p(60): n['stdout_stall'] = rng.pick([1000, 1000000])
        if big: n['point_mean'] = rng.pick([0, 300]); n['alloc_mean'] = rng.pick([0, 1000, 10000])
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': n}]}
    def check(self, case, outs):
        o = outs[0]; spec = spec_of(case, 0); out = []
        d = died(o)
        if d: return [('died', d)]
        d = emitted(o, spec, ('fixes', 'suggestions'))
        if d: out.append(('lost', d))
        want, got = Counter(), Counter()
        excused = bool(config_diags(o))
        linted = set(r.file for r in o.runs)
        for (f, r, _), n in want_runs(spec).items():
            if excused and f not in linted: continue
            want[(f, r)] += n
        for (f, r, _), n in got_runs(o).items(): got[(f, r)] += n
        if want != got:
            x = diff(want.elements(), got.elements(), ('the request', 'the rules started'))
            out.append(('runs', 'rules were not started exactly once per requested file: ' + x))
        for f, total, missed, multi, unbalanced, first in o.nodes:
            if missed or multi or unbalanced:
                out.append(('walk', '%s: %d nodes, %d never visited, %d visited more than once, %d not entered and left properly (first: %s)' % (f, total, missed, multi, unbalanced, first)))
        for x in o.viol:
            if x.startswith('nested-listener'): out.append(('walk', x))
        return out

# ---------------------------------------------------------------------------- C03

class C03(Prop):
    id = 'C03'
    rule = ('Requests give the same rules different options in different configurations, list files twice, repeat a rule within a configuration and mix projects; probe rules echo the file, rule and option '
            'they ran with. Non-trivial: at least two configurations with different options ran; distinct by schedule.')
    fixed_runs = True
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'multi', 'shared', 'loose', 'twins'])
        nc = rng.range(2, 5); cfg = []
        for c in range(nc):
            rules = worlds.rule_list(rng, kind=rng.pick([1, 1, 2]))
            for j in range(rng.range(1, 4)):
                rules.insert(rng.below(len(rules) + 1), {'name': rng.pick(['vsim-probe-ident', 'vsim-probe-ident2']), 'options': {'tag': 'c%d.%d' % (c, j), 'every': rng.pick([1, 1, 3]), 'nest': {'x': [c, j, {'k': str(c)}]}}})
            cfg.append([[], rules])
        for p in ts:
            if rng.p(85): cfg[rng.below(nc)][0].append(p)
            if rng.p(10): cfg[rng.below(nc)][0].append(p)
        if not any(c[0] for c in cfg): cfg[0][0].append(ts[0])
        w['configs'] = cfg; w['sem'] = rng.p(10)
        if rng.p(15):
            w['version'] = 1
            for c in cfg:
                for r in c[1]: r.pop('options', None)
        return {'kind': w['kind'] + ('-v1' if w.get('version') else ''), 'spec': w, 'runs': [{'sim': noise(rng)}]}
    def check(self, case, outs):
        o = outs[0]; spec = spec_of(case, 0); out = []
        d = died(o)
        if d: return [('died', d)]
        want, got = want_runs(spec), got_runs(o)
        linted = set(r.file for r in o.runs)
        if config_diags(o): want = Counter({k: n for k, n in want.items() if k[0] in linted})
        if want != got:
            out.append(('config', 'rules or options do not match the configuration of the file: ' + diff([str(x) for x in want.elements()], [str(x) for x in got.elements()], ('the request', 'the run'))))
        d = emitted(o, spec, ('fixes', 'suggestions'))
        if d: out.append(('attribution', d))
        tg = norm_targets(spec)
        for v in rule_diags(o):
            if v['file_path'] not in tg or v['rule'] not in [r['name'] for r in tg[v['file_path']]]:
                out.append(('attribution', 'a diagnostic for a rule that is not configured for the file: ' + short(v))); break
            if v['rule'].startswith('vsim-probe-ident'):
                n, f, tag, _ = v['message']['description'].split('|')
                tags = [(r.get('options') or {}).get('tag', '') for r in tg[f] if r['name'] == n] if f in tg else []
                if n != v['rule'] or f != v['file_path'] or tag not in tags:
                    out.append(('attribution', 'diagnostic says %s, was attributed to %s %s' % (v['message']['description'][:200], v['rule'], v['file_path']))); break
        return out
    def nontrivial(self, case, outs):
        o = outs[0]
        tags = set(r.options for r in o.runs if r.rule.startswith('vsim-probe'))
        return (o.stats['hash'], sorted(tags)) if len(tags) > 1 and o.stats else None

# ---------------------------------------------------------------------------- C04

GARBAGE = ['', '{', 'null', '[]', '[1,2]', '"x"', '{"version":1}', '{"version":3,"configs":[]}', '{"version":"2"}', '{"version":2,"configs":{}}', '{"version":2,"configs":[{"file_paths":"x"}]}',
           '{"files":[]}', '{}', '{"version":2,"configs":[{"file_paths":["/w/a.ts"],"rules":["x"]}]}', '{"version":-2}', '{"version":2,"configs":[]}}', '{"version":2.5}', '\x00\x01', '{"version":2,"version":2,"configs":[]}', '{"files":[{"file_path":1}]}']

def vanishing(rng, w):
    """A referenced tsconfig that is deleted after it was chosen for a file, before its
    program is created: the whole run must fail with an error."""
    d = '/w/zz'
    w['files'][d + '/tsconfig.json'] = t(json.dumps({'files': [], 'references': [{'path': './tsconfig.app.json'}]}))
    w['files'][d + '/tsconfig.app.json'] = t(json.dumps({'compilerOptions': {'composite': True, 'strict': True}, 'include': ['src']}))
    w['files'][d + '/src/zz.ts'] = t('export const zz = 1;\n')
    w['configs'].append([[d + '/src/zz.ts'], [{'name': 'vsim-probe-run'}]])
    return [{'on': d + '/tsconfig.app.json', 'op': 'stat', 'nth': 0, 'path': d + '/tsconfig.app.json'}]

def faulty_request(rng, w, ts):
    """Damages a request in a way that only shows once it is being worked on."""
    k = rng.below(4); c = rng.pick([c for c in w['configs'] if c[0]] or w['configs'])
    if k == 0:
        c[1].insert(rng.below(len(c[1]) + 1), {'name': rng.pick(['no-such-rule', '', 'await-thenable ', 'vsim', '@typescript-eslint/await-thenable'])})
        return 'unknown-rule'
    if k == 1:
        bad = rng.pick(['x', 5, True, [], [1], {'ignoreVoid': 'yes'}, {'allow': 3}, {'allowNumber': []}, {'checksVoidReturn': 7}, {'allowPattern': '('}, {'allow': [{'from': 'nowhere', 'name': 'X'}]}, {'checksConditionals': {}}])
        for r in worlds.RULES if rng.p(30) else rng.sample(worlds.RULES, rng.range(1, 4)): c[1].insert(rng.below(len(c[1]) + 1), {'name': r, 'options': bad})
        return 'bad-options'
    d = rng.pick(['/w', '/w/src', '/elsewhere', posixpath.dirname(rng.pick(ts))])
    if k == 2:
        c[0].insert(rng.below(len(c[0]) + 1), d + rng.pick(['/missing.ts', '/none/missing.tsx', '/missing.d.ts', '']))
        return 'missing-file'
    p = d + '/odd' + rng.pick(['.vue', '.txt', '', '.css', '.json', '.d.css.ts']); w['files'][p] = t(rng.pick(['export const x = 1;', '{}', '']))
    c[0].insert(rng.below(len(c[0]) + 1), p)
    return 'odd-file'

class C04(Prop):
    id = 'C04'
    rule = ('Successful runs, runs that fail before linting (bad payload, read error, no working directory) and runs that fail midway (a chosen tsconfig disappears while other projects are being linted) are executed '
            'under seeded schedules and output stalls; stdout is parsed byte by byte. Non-trivial: stdout carried at least one message; distinct by schedule.')
    fixed_runs = True
    def gen(self, rng, i):
        k = rng.below(6); n = noise(rng)
        if rng.p(50): n['stdout_stall'] = rng.pick([1000, 1000000])
        if k == 0:
            w = worlds.empty('bad-payload'); w['files']['/w/a.ts'] = t('export const a = 1;')
            s = rng.pick(GARBAGE)
            if rng.p(40):
                s = vsim.payload([(['/w/a.ts'], [{'name': 'no-floating-promises'}])])
                s = s[:rng.range(1, len(s) - 1)]
            w['stdin'] = s
            return {'kind': 'bad-payload', 'spec': w, 'runs': [{'sim': n}], 'expect': 'error'}
        if k == 1:
            w, ts = worlds.world(rng, ['corpus']); worlds.request(rng, w, ts)
            if rng.p(50): n['cwd_err'] = True
            else: n['stdin_err_at'] = rng.below(200); n['stdin_err'] = 'eio'
            return {'kind': 'early-error', 'spec': w, 'runs': [{'sim': n}], 'expect': 'error'}
        big = rng.p(50)
        w, ts = worlds.world(rng, [rng.pick(['big', 'big', 'big', 'big', 'many'])] if big else ['multi', 'multi', 'synth', 'corpus', 'loose'])
        worlds.request(rng, w, ts, probes=[{'name': 'vsim-probe-ident', 'options': {'pad': rng.pick([0, 100, 1000])}}, 'vsim-probe-run'], kind=1 if big else None)
        w['sem'] = rng.p(20); w['timings'] = rng.p(40)
        if rng.p(10): w['configs'][0][1] = [{'name': 'vsim-probe-ident', 'options': {'pad': 200000, 'every': 100}}]
        if big: n['point_mean'] = rng.pick([0, 300]); n['alloc_mean'] = rng.pick([0, 1000])
        if rng.p(30):
            kind = faulty_request(rng, w, ts)
            return {'kind': kind, 'spec': w, 'runs': [{'sim': n}], 'expect': 'maybe'}
        if k <= 3:
            n['fs_events'] = vanishing(rng, w)
            return {'kind': 'late-error', 'spec': w, 'runs': [{'sim': n}], 'expect': 'late'}
        return {'kind': 'ok', 'spec': w, 'runs': [{'sim': n}], 'expect': 'ok'}
    def check(self, case, outs):
        o = outs[0]; out = []; spec = spec_of(case, 0)
        c = crash_kind(o)
        if c: return [('died', 'the run died: ' + short(c))]
        if o.frame_error: return [('stream', 'stdout is not a sequence of messages: ' + o.frame_error)]
        er = errors(o); types = [ty for ty, _, _ in o.frames]
        if o.rc == 0 and er: out.append(('error', 'exit code 0 together with an error message: ' + short(er[0])))
        if len(er) > 1: out.append(('error', '%d error messages' % len(er)))
        if er and types[-1] != 0: out.append(('error', 'the error message is followed by other messages'))
        if o.rc != 0 and not er: out.append(('error', 'exit code %d without an error message on stdout; stderr: %s' % (o.rc, short(o.stderr[-300:]))))
        for v in er:
            if not isinstance(v.get('error'), str) or not v['error']: out.append(('error', 'malformed error message ' + short(v)))
        if case['expect'] == 'error' and o.rc == 0 and spec.get('stdin') is None: out.append(('error', 'exit code 0 although the request could not be read'))
        if case['expect'] == 'ok' and o.rc != 0: out.append(('outcome', 'exit code %d: %s' % (o.rc, short(o.stderr[-300:]))))
        tm = [i for i, ty in enumerate(types) if ty == 2]
        if o.rc == 0 and 'stdin' not in spec:
            if len(tm) != (1 if spec.get('timings') else 0): out.append(('timing', '%d timing messages' % len(tm)))
            if tm and tm[0] != len(types) - 1: out.append(('timing', 'the timing message is not the last one'))
        if case['expect'] != 'error':
            d = emitted(o, spec)
            if d: out.append(('content', 'diagnostics reported before the run ended were not all written: ' + d))
        for v in diags(o):
            if v['kind'] not in (0, 1) or not isinstance(v['message'].get('id'), str) or 'file_path' not in v or (v['kind'] == 0 and not v.get('rule')):
                out.append(('schema', short(v))); break
        return out

# ---------------------------------------------------------------------------- C05

class C05(Prop):
    id = 'C05'
    rule = ('Writing to stdout fails (ENOSPC, EIO, EPIPE; once or for good) at a seeded byte offset of the output, including inside a message header, inside the timing message and at the final flush. '
            'Non-trivial: the fault hit; distinct by offset, errno and schedule.')
    fixed_runs = True
    keep_flags = ('timings',)
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['big', 'multi', 'synth', 'corpus', 'loose'], n=rng.range(1, 4))
        big = w['kind'] == 'big'
        worlds.request(rng, w, ts, probes=[{'name': 'vsim-probe-ident', 'options': {'pad': rng.pick([0, 100])}}], kind=1, k=1)
        w['configs'] = [[ts, [r for r in w['configs'][0][1] if r['name'].startswith('vsim')] + ([] if big else w['configs'][0][1])]]
        w['timings'] = rng.p(50); n = noise(rng)
        n['alloc_mean'] = rng.pick([0, 1000, 10000]); n['point_mean'] = rng.pick([0, 300])
        top = rng.pick([8, 200, 3000, 30000] + ([400000, 800000, 1600000] if big else []))
        n['stdout'] = {'at': rng.below(top), 'errno': rng.pick(['enospc', 'eio', 'enospc', 'epipe']), 'once': rng.p(30)}
        if rng.p(15): n['fs_events'] = vanishing(rng, w)
        if rng.p(10): n['stderr_fail'] = True
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': n}]}
    def check(self, case, outs):
        o = outs[0]
        c = crash_kind(o)
        if c in ('deadlock', 'budget'): return [('stuck', 'the run does not end after a failed write: ' + c)]
        if o.wfail and o.rc == 0:
            return [('silent', 'a write to stdout failed (%s) after %d bytes, yet the exit code is 0' % (o.wfail[0].replace('\t', ' '), len(o.stdout)))]
        if not o.wfail:
            d = died(o, (0, 1) if case['runs'][0]['sim'].get('fs_events') else (0,))
            if d: return [('died', d)]
        return []
    def nontrivial(self, case, outs):
        o = outs[0]
        return (case['runs'][0]['sim']['stdout'], o.stats['hash'] if o.stats else o.rc, o.wfail[0]) if o.wfail else None

# ---------------------------------------------------------------------------- C06

def topology(rng):
    """Nested directories with tsconfigs that include, exclude, extend and reference each other."""
    w = worlds.empty('topology'); files = w['files']; dirs = ['/w']
    for _ in range(rng.range(1, 7)):
        dirs.append(rng.pick(dirs) + '/' + rng.pick(['src', 'lib', 'app', 'pkg', 'test', 'a', 'b', 'node_modules', 'node_modules/dep']))
    dirs = sorted(set(dirs)); srcs = []
    for d in dirs:
        for _ in range(rng.below(4)):
            f = d + '/' + rng.pick(['index', 'main', 'util', 'x', 'y', 'z']) + rng.pick(['.ts', '.ts', '.ts', '.tsx', '.js', '.mts'])
            if not any(s[:s.rindex('.')] == f[:f.rindex('.')] for s in srcs): srcs.append(f)
    if not srcs: srcs = ['/w/index.ts']
    for s in srcs: files[s] = t('export const a%d = 1;\n' % len(s))
    cfgs = []
    for d in dirs:
        if rng.p(60): cfgs.append(d + '/tsconfig.json')
        if rng.p(12): cfgs.append(d + '/jsconfig.json')
        if rng.p(35): cfgs.append(d + '/tsconfig.' + rng.pick(['app', 'lib', 'base', 'test']) + '.json')
    shared = []   # configurations published as packages
    if rng.p(30):
        for name in rng.sample(['@cfg/base', 'plain', '@cfg/strict/app.json', 'plain/lib'], rng.range(1, 3)):
            f = posixpath.join(rng.pick(['/w', '/', rng.pick([d for d in dirs if 'node_modules' not in d])]), 'node_modules', name)
            f = f if f.endswith('.json') else f + rng.pick(['.json', '/tsconfig.json'])
            cfg = {'compilerOptions': rng.pick([{'allowJs': True}, {'strict': True}, {'allowJs': False}])}
            if rng.p(60): cfg['include'] = [rng.pick(['${configDir}/src', '${configDir}/**/*', '${configDir}', '${configDir}/lib/*.ts'])]
            if rng.p(30): cfg['exclude'] = [rng.pick(['${configDir}/test', '${configDir}/**/util.ts', '${configDir}/src/a'])]
            if not f.startswith('/node_modules') and '/node_modules/' in f and not any(g.startswith(f[:-5]) or f.startswith(g[:-5]) for g in files): files[f] = t(json.dumps(cfg)); shared.append((name, f[:f.index('/node_modules/')] + '/'))
    for c in cfgs:
        d = posixpath.dirname(c); cfg = {}; co = {'noEmit': True, 'types': [], 'allowImportingTsExtensions': True}
        below = [s for s in srcs if s.startswith(d + '/')]
        k = rng.below(6)
        if k == 0: cfg['files'] = []
        elif k == 1 and below: cfg['files'] = ['./' + posixpath.relpath(s, d) for s in rng.sample([s for s in below if not s.endswith('.js')] or below[:1], rng.range(1, 3))]
        elif k == 2: cfg['include'] = [rng.pick(['src', 'lib', '**/*', '*', 'src/**/*', '*/*.ts', '**/*.ts', './app', '../lib'])]
        elif k == 3: cfg['include'] = rng.sample(['src', 'lib/**/*', 'test', '*.ts', 'a', 'pkg/*'], 2)
        if rng.p(30) and 'files' not in cfg: cfg['exclude'] = rng.sample(['test', '**/util.ts', 'src', 'a/**', '*.tsx', 'node_modules', 'b'], rng.range(1, 2))
        if rng.p(25): co['allowJs'] = rng.p(80)
        if rng.p(20): co['composite'] = True; co['emitDeclarationOnly'] = True; del co['noEmit']; co['rootDir'] = '/w'
        if rng.p(10): co['disableSolutionSearching'] = True
        others = [x for x in cfgs if x != c]
        if others and rng.p(45):
            cfg['references'] = [{'path': (lambda r: r[:-len('/tsconfig.json')] or '.' if r.endswith('/tsconfig.json') and rng.p(50) else r)(posixpath.relpath(x, d) if posixpath.relpath(x, d).startswith('.') else './' + posixpath.relpath(x, d))} for x in rng.sample(others, rng.range(1, 3))]
            if rng.p(10): cfg['references'].append({'path': './missing'})
        bases = [x for x in others if x < c]
        if bases and rng.p(25):
            def spelled(b):
                r = posixpath.relpath(b, d); r = r if r.startswith('.') else './' + r
                return r[:-5] if rng.p(25) else r
            cfg['extends'] = spelled(rng.pick(bases)) if rng.p(70) else [spelled(b) for b in rng.sample(bases, rng.range(1, min(2, len(bases))))]
        near = [name for name, root in shared if (d + '/').startswith(root)]
        if near and rng.p(50):
            e = rng.pick(near); x = cfg.get('extends', [])
            cfg['extends'] = e if not x else rng.shuffle([e] + (x if isinstance(x, list) else [x]))
        if 'include' in cfg and rng.p(15): cfg['include'] = ['${configDir}/' + x for x in cfg['include']]
        cfg['compilerOptions'] = co; files[c] = t(json.dumps(cfg))
    w['configs'] = [[rng.shuffle(srcs), [{'name': 'vsim-probe-run'}]]]
    w['fix'] = w['sugg'] = False
    if rng.p(20): w['case'] = 'insensitive'
    w['cwd'] = rng.pick(['/w', '/', '/w/src', '/elsewhere'])
    if rng.p(25):   # other spellings of the requested paths
        def other(p):
            k = rng.below(5)
            if k == 0: return posixpath.relpath(p, w['cwd'])
            if k == 1: return './' + posixpath.relpath(p, w['cwd'])
            if k == 2: return p.replace('/w/', rng.pick(['/w/./', '/w//', '/w/src/../']))
            if k == 3: return p.replace('/', '\\')
            return p
        w['configs'][0][0] = [other(p) for p in w['configs'][0][0]]
    return w, srcs

class C06(Prop):
    id = 'C06'
    rule = ('Random directory trees with nested tsconfig/jsconfig files that use files, include, exclude, extends, references, composite and disableSolutionSearching; the config of the program that linted each '
            'requested file is recorded and compared with a reference model of the resolution algorithm, under one quiet and two seeded environments. Non-trivial: at least two different programs were used; distinct by tree.')
    keep_files = False
    assumptions = ['paths use the generated vocabulary: no symbolic links, no package-relative extends']
    def gen(self, rng, i):
        w, _ = topology(rng)
        return {'kind': 'topology' + ('-ci' if w.get('case') else ''), 'spec': w, 'runs': envs(rng, 2)}
    def check(self, case, outs):
        spec = case['spec']
        tree = model.Tree(spec['files'], spec.get('case') == 'insensitive'); out = []
        for k, o in enumerate(outs):
            d = died(o)
            if d: out.append(('died', 'run %d: %s' % (k, d))); continue
            got = {}
            for r in o.runs: got.setdefault(r.file, set()).add(r.config)
            bad = set(v['file_path'] for v in config_diags(o))
            for f in norm_targets(spec):
                want = model.resolve(tree, f)
                g = got.get(f)
                if g is None:
                    # its project was reported as invalid
                    if want and (want in bad or bad): continue
                    out.append(('unlinted', '%s was not linted and no project was reported invalid (the model says %r)' % (f, want)))
                elif g != {want}:
                    out.append(('config', 'run %d linted %s under %s, the model says %r' % (k, f, sorted(g), want)))
        return out
    def nontrivial(self, case, outs):
        cf = sorted(set((r.file, r.config) for r in outs[0].runs))
        return cf if len(set(c for _, c in cf)) > 1 else None

# ---------------------------------------------------------------------------- C07

class C07(Prop):
    id = 'C07'
    rule = ('Source overrides replace the content of requested and imported files (and of tsconfigs). The run with overrides must report exactly what a run on a workspace holding that content on disk reports, '
            'while the overridden paths are unreadable, fail with I/O errors, hold other text or change during the run. Non-trivial: the override changed the diagnostics; distinct by schedule.')
    fixed_runs = True
    keep_request = False
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'synth', 'multi', 'shared', 'loose', 'twins'])
        worlds.request(rng, w, ts, probes=['vsim-probe-run', 'vsim-probe-type'] if rng.p(60) else ['vsim-probe-run'], kind=rng.pick([0, 1, 2]))
        w['sem'] = rng.p(15)
        after = dict(w['files']); ov = {}
        for p in rng.sample(ts, rng.range(1, 3)):
            if '/m' in p and re.search(r'/m(\d+)\.ts$', p):
                src = w['files'][p]['t']; m = int(re.search(r'/m(\d+)\.ts$', p).group(1))
                new = src.replace('a: number', 'a: number; extra: string').replace('declare const An%d: any' % m, 'declare const An%d: { foo: { bar: Promise<1> } }' % m) + 'export const added = An%d.x;\naf%d(obj%d.q);\n' % (m, m, m)
            else: new = worlds.snippet(rng)[0]
            if rng.p(5): new = ''
            if rng.p(8): new = '\ufeff' + new
            if rng.p(8): new = new.replace('\n', rng.pick(['\r\n', '\u2028', '\n\n']))
            ov[p] = new; after[p] = t(new)
        if rng.p(15) and '/w/tsconfig.json' in w['files'] and 'references' not in w['files']['/w/tsconfig.json']['t']:
            c = json.loads(w['files']['/w/tsconfig.json']['t']); c['compilerOptions']['strict'] = not c['compilerOptions'].get('strict', True)
            ov['/w/tsconfig.json'] = json.dumps(c); after['/w/tsconfig.json'] = t(ov['/w/tsconfig.json'])
        n2 = noise(rng); files2 = dict(w['files']); ev = []; fl = []; linked = any('link' in f for f in w['files'].values())
        for p in ov:
            k = rng.below(5)
            # through a link, the file is found only if its real path can be computed
            if k == 0: fl.append({'op': rng.pick(['open', 'read']) if linked else '', 'path': p, 'from': rng.below(3), 'to': 0, 'kind': rng.pick(['eio', 'eacces', 'emfile'])})
            elif k == 1: ev.append({'at': rng.below(120), 'path': p, 'put': t('export const changed = 1;')})
            elif k == 2: files2[p] = {'t': 'export const other: any = 2; other.x();', 'mode': -1}
            elif k == 3: files2[p] = t('this is { not typescript')
        n2['fs_faults'] = fl; n2['fs_events'] = ev
        spelled = ov
        if rng.p(15): spelled = {rng.pick([p, p.replace('/w/', '/w/./'), p.replace('/', '\\'), p.replace('/w/', '/w//')]): v for p, v in ov.items()}
        return {'kind': w['kind'], 'spec': w, 'meta': ov,
                'runs': [{'sim': quiet(), 'over': {'files': after}}, {'sim': noise(rng), 'over': {'overrides': spelled}}, {'sim': n2, 'over': {'overrides': ov, 'files': files2}}]}
    def check(self, case, outs):
        out = []; a = outs[0]
        if crash_kind(a) or a.rc: return []
        ids = {p: vsim.text_id(v.removeprefix('\ufeff')) for p, v in case['meta'].items()}
        for k, o in enumerate(outs[1:], 1):
            d = died(o)
            if d: out.append(('died', 'run %d with overrides: %s' % (k, d))); continue
            for r in o.runs:
                if r.file in ids and r.text != ids[r.file]:
                    out.append(('text', 'run %d: %s was linted with other text than its override' % (k, r.file))); break
            d = diff(diag_multiset(a), diag_multiset(o), ('the run on the overridden content', 'the run with overrides'))
            if d: out.append(('diagnostics', d))
        return out
    def nontrivial(self, case, outs):
        return ([o.stats and o.stats['hash'] for o in outs], sorted(case['meta'])) if any(r.file in case['meta'] for r in outs[1].runs) else None

# ---------------------------------------------------------------------------- C08

class C08(Prop):
    id = 'C08'
    rule = ('The workspace misbehaves while it is being linted: files and tsconfigs are deleted, replaced or become unreadable at seeded operations, opens, reads, stats and directory listings fail with EIO/EACCES/EMFILE/ENOENT '
            '(transiently or for good), reads are short. Non-trivial: a fault or change hit; distinct by fault positions and schedule.')
    fixed_runs = True
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'multi', 'loose', 'twins'])
        worlds.request(rng, w, ts, probes=['vsim-probe-run'], kind=rng.pick([1, 2]))
        w['sem'] = rng.p(15); w['syn'] = rng.p(15)
        if rng.p(20):
            p = rng.pick(ts); w['overrides'] = {p: worlds.snippet(rng)[0]}
        n = noise(rng); fl = []; ev = []
        paths = ts + ts + [p for p in w['files'] if p.endswith('.json')] * 2
        dirs = sorted(set(posixpath.dirname(p) for p in w['files']))
        for _ in range(rng.range(1, 3)):
            k = rng.below(8); p = rng.pick(paths)
            if k <= 2: fl.append({'op': rng.pick(['', 'open', 'read', 'stat']), 'path': p, 'from': rng.below(3), 'to': rng.pick([0, 1, 2]), 'kind': rng.pick(['eio', 'eacces', 'emfile', 'enoent'])})
            elif k == 3: fl.append({'op': rng.pick(['readdir', 'stat', 'open', '']), 'path': rng.pick(dirs), 'from': rng.below(2), 'to': rng.pick([0, 1]), 'kind': rng.pick(['eio', 'eacces', 'emfile'])})
            elif k == 4: ev.append({'at': rng.below(150), 'path': p})
            elif k == 5: ev.append({'at': rng.below(150), 'path': p, 'put': t(worlds.snippet(rng)[0] if not p.endswith('.json') else rng.pick(['{}', '{"files": []}', '{"compilerOptions": {"strict": false}}', '{', '']))})
            elif k == 6: ev.append({'on': p, 'op': rng.pick(['open', 'read', 'stat', '']), 'nth': rng.below(2), 'path': p, 'put': t(worlds.snippet(rng)[0] if not p.endswith('.json') else '{"include": ["nothing"]}')})
            else: ev.append({'on': p, 'op': rng.pick(['open', 'stat', '']), 'nth': rng.below(2), 'path': p})
        n['fs_faults'] = fl; n['fs_events'] = ev
        if rng.p(40): n['fs_short'] = rng.pick([1, 2])
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': n}]}
    def check(self, case, outs):
        o = outs[0]; spec = spec_of(case, 0); out = []
        c = crash_kind(o)
        if c in ('deadlock', 'budget'): return [('stuck', 'the run does not end: ' + c)]
        if c: return [('crash', 'the run died, and with it every diagnostic that was not written yet: ' + c)]
        if o.frame_error: return [('stream', o.frame_error)]
        versions = collections.defaultdict(set)
        for p, f in spec['files'].items():
            if 't' in f: versions[p].add(vsim.text_id(f['t']))
        for e in case['runs'][0]['sim'].get('fs_events', []):
            if e.get('put'): versions[e['path']].add(vsim.text_id(e['put']['t']))
        for p, v in (spec.get('overrides') or {}).items(): versions[p] = {vsim.text_id(v)}
        for r in o.runs:
            if r.file in versions and r.text not in versions[r.file]:
                out.append(('mixed', '%s was linted with text that the file never had' % r.file)); break
        for d in o.reports:
            if d.get('valid') and not (0 <= d['pos'] <= d['end'] <= d['len']):
                out.append(('range', 'range %d-%d outside the %d bytes of text that were linted: %s %s' % (d['pos'], d['end'], d['len'], d['file'], d['rule']))); break
        if o.rc == 0:
            got = Counter((r.file, r.rule) for r in o.runs); linted = set(r.file for r in o.runs); reported = bool(config_diags(o))
            for f, rules in norm_targets(spec).items():
                if f not in linted:
                    if rules and not reported:
                        out.append(('unlinted', 'exit code 0, but %s was never linted and nothing says so' % f)); break
                else:
                    want = Counter(r['name'] for r in rules)
                    if want != Counter({r: n for (g, r), n in got.items() if g == f}):
                        out.append(('partial', '%s: rules started %s, configured %s' % (f, {r: n for (g, r), n in got.items() if g == f}, dict(want)))); break
            d = emitted(o, spec)
            if d: out.append(('lost', d))
        return out
    def nontrivial(self, case, outs):
        o = outs[0]
        return (case['runs'][0]['sim']['fs_faults'], case['runs'][0]['sim']['fs_events'], o.stats['hash'] if o.stats else o.rc) if o.fsfaults or o.fsevents else None

# ---------------------------------------------------------------------------- C09

CORRUPT = ['{', '{]', '{"compilerOptions": {"target": "es1999"}}', '{"compilerOptions": {"strict": "yes"}}', '{"compilerOptions": {"baseUrl": "."}}', '{"compilerOptions": {"moduleResolution": "node10"}}',
           '{"extends": "./missing-base.json"}', '{"compilerOptions": {"module": "nodenext", "moduleResolution": "bundler"}}', '{"include": "src"}', '{"compilerOptions": {"target": "es5"}}', '{"compilerOptions": {"nope": 1}}',
           '{"compilerOptions": {"paths": {"*": "x"}}}', '{"references": [{"path": "./nowhere"}]}', '{"compilerOptions": {"isolatedDeclarations": true}}', '{"files": ["nope.ts"]}', '\x00\x00']

class C09(Prop):
    id = 'C09'
    rule = ('Several projects, one or more with a damaged tsconfig (invalid options, torn or truncated content, unreadable). The diagnostics of the healthy projects must equal those of a run without the damaged ones, '
            'and every requested file of a damaged project must be linted or its project reported. Non-trivial: a tsconfig error was reported; distinct by damage and schedule.')
    fixed_runs = True; keep_request = True
    def gen(self, rng, i):
        w, ts = worlds.GENS['multi'](rng, rng.range(2, 4))
        w['files'].pop('/w/tsconfig.json', None)
        cfgs = sorted(p for p in w['files'] if p.endswith('tsconfig.json'))
        for c in cfgs:   # independent projects: no references
            j = json.loads(w['files'][c]['t']); j.pop('references', None); j['include'] = ['src']; w['files'][c] = t(json.dumps(j))
        bad = rng.sample(cfgs, rng.range(1, max(1, len(cfgs) - 1)))
        files = dict(w['files'])
        for c in bad:
            k = rng.below(4)
            if k == 0: s = files[c]['t']; files[c] = t(s[:rng.range(1, len(s) - 1)])
            elif k == 1: files[c] = dict(files[c], mode=-1)
            else: files[c] = t(rng.pick(CORRUPT))
        rules = worlds.rule_list(rng, ['vsim-probe-run'], kind=rng.pick([1, 2]))
        healthy = [p for p in ts if not any(p.startswith(posixpath.dirname(c) + '/') for c in bad)]
        sick = [p for p in ts if p not in healthy]
        w['files'] = files
        w['configs'] = [[rng.shuffle(healthy + sick), rules]]
        return {'kind': 'damaged', 'spec': w, 'meta': {'healthy': healthy, 'bad': bad},
                'runs': [{'sim': quiet(), 'over': {'configs': [[healthy, rules]]}}, {'sim': noise(rng)}, {'sim': noise(rng)}]}
    def check(self, case, outs):
        out = []; a = outs[0]; healthy = set(case['meta']['healthy'])
        if crash_kind(a) or a.rc: return []
        ref = sorted(canon(v) for v in diags(a) if v['file_path'] in healthy)
        rep = []
        for k, o in enumerate(outs[1:], 1):
            d = died(o)
            if d: out.append(('died', 'run %d: %s' % (k, d))); continue
            mine = sorted(canon(v) for v in diags(o) if v['file_path'] in healthy)
            d = diff(ref, mine, ('the healthy projects alone', 'the run with damaged projects'))
            if d: out.append(('isolation', d))
            linted = set(r.file for r in o.runs)
            cd = config_diags(o); where = set(v['file_path'] for v in cd)
            for v in cd:
                if not v['message'].get('description') or not v['file_path']: out.append(('report', 'malformed tsconfig error ' + short(v)))
                if not any(v['file_path'].startswith(posixpath.dirname(c) + '/') for c in case['meta']['bad']): out.append(('report', 'error reported for a healthy project: ' + short(v)))
            for f in targets_of(case['spec']):
                if f not in linted and not any(f.startswith(posixpath.dirname(c) + '/') and any(x.startswith(posixpath.dirname(c) + '/') for x in where) for c in case['meta']['bad']):
                    out.append(('silent', '%s was neither linted nor was its project reported as invalid' % f)); break
            rep.append(sorted(canon(v) for v in diags(o)))
        if len(rep) == 2:
            d = diff(rep[0], rep[1], ('run 1', 'run 2'))
            if d: out.append(('schedule', d))
        return out
    def nontrivial(self, case, outs):
        return ([o.stats and o.stats['hash'] for o in outs], case['meta']['bad']) if config_diags(outs[1]) else None

# ---------------------------------------------------------------------------- C10

class C10(Prop):
    id = 'C10'
    rule = ('One request for a whole multi-project workspace against the same files requested in several smaller invocations (per file, per random part) under seeded environments; the union must be equal. '
            'Non-trivial: at least two parts with diagnostics; distinct by schedule.')
    fixed_runs = True; keep_request = True
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['synth', 'multi', 'multi', 'shared', 'shared', 'corpus', 'twins'])
        loose = [p for p in ts if p.startswith('/w/loose')]
        ts = [p for p in ts if p not in loose]   # the inferred program contains exactly the requested files
        if w['kind'] == 'corpus':   # scripts share globals with the files that are requested with them only through the project, which stays the same
            pass
        rules = worlds.rule_list(rng, ['vsim-probe-type'], kind=rng.pick([0, 0, 2]))
        part = rng.shuffle(ts); m = rng.range(2, 4); parts = [p for p in (part[j::m] for j in range(m)) if p]
        w['configs'] = [[ts, rules]]
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': noise(rng)}] + [{'sim': rng.pick([quiet(), noise(rng)]), 'over': {'configs': [[p, rules]]}} for p in parts]}
    def check(self, case, outs):
        for k, o in enumerate(outs):
            d = died(o)
            if d: return [('died', 'run %d: %s' % (k, d))]
        union = sorted(canon(v) for o in outs[1:] for v in diags(o))
        if any(config_diags(o) for o in outs): union = sorted(set(union))
        whole = sorted(canon(v) for v in diags(outs[0]))
        if any(config_diags(o) for o in outs): whole = sorted(set(whole))
        d = diff(whole, union, ('one invocation', 'the separate invocations'))
        return [('batch', d)] if d else []
    def nontrivial(self, case, outs):
        return [o.stats and o.stats['hash'] for o in outs] if sum(1 for o in outs[1:] if rule_diags(o)) > 1 else None

# ---------------------------------------------------------------------------- C11

class C11(Prop):
    id = 'C11'
    rule = ('Workspaces with syntax and type errors, linted with syntactic, semantic, both and no type diagnostics under seeded environments: both must be exactly the union, nothing may be duplicated, unrequested files '
            'stay silent. Non-trivial: a type diagnostic was reported; distinct by schedule.')
    fixed_runs = True; keep_flags = ('sem', 'syn')
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'corpus', 'synth', 'synth', 'multi', 'shared', 'loose', 'twins', 'twins'])
        for p in rng.sample(ts, rng.below(4)):
            s = w['files'][p]['t']
            w['files'][p] = t(rng.pick([s + '\nconst notype%d: number = "s";\n' % rng.below(9), s + '\nlet = ;\n', s + '\nundefinedName%d.x;\n' % rng.below(99), 'export const q: string = 1;\n' + s, s + '\nfunction () {', s + '\nimport { nope } from "./missing";\n']))
        worlds.request(rng, w, ts, probes=['vsim-probe-run'], kind=rng.pick([1, 1, 2]))
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': noise(rng), 'over': {'syn': s, 'sem': m}} for s, m in ((False, False), (True, False), (False, True), (True, True))] + [{'sim': dict(noise(rng), type_oracle=True), 'over': {'syn': True, 'sem': True}}]}
    def check(self, case, outs):
        out = []
        for k, o in enumerate(outs):
            d = died(o)
            if d: return [('died', 'run %d: %s' % (k, d))]
        T = [sorted(canon(v) for v in type_diags(o)) for o in outs]
        req = norm_targets(case['spec'])
        if T[0]: out.append(('unasked', 'type diagnostics without asking for them: ' + T[0][0]))
        d = diff(T[3], T[4], ('one run', 'another run'))
        if d: out.append(('schedule', d))
        for k, kind in ((1, 'syn'), (2, 'sem')):
            want = sorted(canon({'kind': 1, 'message': {'id': 'TS%d' % v['code'], 'description': v['text']}, 'file_path': v['file'], 'range': frange(v['pos'], v['end'])}) for v in outs[4].types if v['kind'] == kind)
            d = diff(want, T[k], ("TypeScript's own diagnostics", 'the output'))
            if d: out.append(('typescript', d))
        d = diff(T[1] + T[2], T[3], ('syntactic plus semantic', 'both at once'))
        if d: out.append(('union', d))
        for k, o in enumerate(outs):
            for v in type_diags(o):
                if v['file_path'] not in req: out.append(('foreign', 'type diagnostic for a file that was not requested: ' + short(v))); break
                if not re.match(r'^TS\d+$', v['message']['id']) or not v['message']['description']: out.append(('schema', short(v))); break
        for k in (1, 2):
            c = Counter(T[k])
            x = [a for a, n in c.items() if n > 1]
            if x: out.append(('duplicate', 'reported more than once: ' + x[0]))
        R = [sorted(canon(v) for v in rule_diags(o)) for o in outs]
        d = diff(R[0], R[1], ('without', 'with syntactic diagnostics'))
        if d: out.append(('rules', 'asking for syntactic diagnostics changes rule diagnostics: ' + d))
        d = diff(R[3], R[4], ('one run', 'another run'))
        if d: out.append(('schedule', d))
        return out
    def nontrivial(self, case, outs):
        return [o.stats and o.stats['hash'] for o in outs] if type_diags(outs[3]) else None

# ---------------------------------------------------------------------------- C12

def mutate(rng, s):
    b = list(s)
    for _ in range(rng.range(1, 6)):
        k = rng.below(5); i = rng.below(len(b) + 1)
        if k == 0 and b: del b[i % len(b): i % len(b) + rng.range(1, 12)]
        elif k == 1: b[i:i] = list(rng.pick(['{', '}', '(', ')', '<', '>', '`', '${', '"', '/*', '=>', ' async ', ' await ', '?.', '!', '@', ';', '\n', '...', ' as ', ' extends ', '=']))
        elif k == 2 and b: j = rng.below(len(b)); b[i:i] = b[j:j + rng.range(1, 30)]
        elif k == 3: b[i:i] = list(rng.pick([' class X extends ', ' function* ', ' enum ', ' new ', ' import(', ' infer U ', ' in ', ' of ', ' yield ', ' delete ', ' void ', ' 0n ', ' /x/']))
        elif b: b = b[:max(1, len(b) - rng.below(40))]
    return ''.join(b)

class C12(Prop):
    id = 'C12'
    rule = ('Every request must end: heavy workloads beyond the channel capacity, stalled output, many more and many fewer CPUs than type checkers, empty requests, empty files, files with no rules, syntax errors, under '
            'adversarial schedules; deadlock and step-budget exhaustion are detected by the simulator, and the work done is bounded by a multiple of a quiet run. Non-trivial: files were linted; distinct by schedule.')
    fixed_runs = True
    def gen(self, rng, i):
        k = rng.below(6)
        if rng.p(4):
            w, ts = worlds.world(rng, ['many']); n = noise(rng); n['ncpu'] = rng.pick([1, 2, 7, 64]); n['point_mean'] = rng.pick([0, 300]); n['alloc_mean'] = rng.pick([0, 10000])
            w['configs'] = worlds.split_configs(rng, ts, lambda i: [{'name': 'vsim-probe-run'}] + worlds.rule_list(rng, kind=1)); w['timings'] = rng.p(30); w['sem'] = rng.p(10)
            return {'kind': 'many', 'spec': w, 'runs': [{'sim': quiet()}, {'sim': n}]}
        if k == 0:
            w, ts = worlds.world(rng, ['big']); rules = [{'name': 'vsim-probe-ident', 'options': {'pad': rng.pick([0, 1000])}}]
            w['configs'] = [[ts, rules]]
        else:
            w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'loose', 'globals', 'weird', 'weird', 'twins'])
            worlds.request(rng, w, ts, probes=['vsim-probe-run'])
            if k == 1:
                for p in rng.sample(ts, rng.range(1, 3)): w['files'][p] = t(rng.pick(['', '\n', '//', '\ufeff', ';', w['files'][p]['t'].replace('\n', '\r\n'), '#!/usr/bin/env node\n' + w['files'][p]['t']]))
            if k == 2:
                for p in rng.sample(ts, rng.range(1, 4)): w['files'][p] = t(mutate(rng, w['files'][p]['t']))
            if k == 3: w['configs'] = rng.pick([[], [[[], []]], [[ts, []]], [[ts[:1], []], [ts[1:], worlds.rule_list(rng)]]])
            w['sem'] = rng.p(20); w['syn'] = rng.p(20); w['timings'] = rng.p(20)
        n = noise(rng); n['ncpu'] = rng.pick([1, 1, 2, 3, 7, 16, 64]); n['stdout_stall'] = rng.pick([0, 1000, 10**9])
        if k == 0: n['point_mean'] = rng.pick([0, 300])
        return {'kind': ('big', 'empty', 'mutated', 'degenerate', 'plain', 'plain')[k], 'spec': w, 'runs': [{'sim': quiet()}, {'sim': n}]}
    def check(self, case, outs):
        out = []
        for k, o in enumerate(outs):
            c = crash_kind(o)
            if c in ('deadlock', 'budget'): out.append(('stuck', 'run %d does not end: %s (%s)' % (k, c, short(o.rawerr[:300]))))
            elif c: out.append(('crash', 'run %d: %s' % (k, c)))
            elif o.rc: out.append(('exit', 'run %d: exit code %d, stderr: %s' % (k, o.rc, short(o.stderr[-300:]))))
        a, b = outs
        if not out and a.stats and b.stats:
            for m in ('allocs', 'points'):
                if b.stats[m] > 4 * a.stats[m] + 2000000: out.append(('work', 'the same request took %d %s instead of %d' % (b.stats[m], m, a.stats[m])))
        return out
    def nontrivial(self, case, outs):
        return [o.stats and o.stats['hash'] for o in outs] if outs[0].runs else None

# ---------------------------------------------------------------------------- C13

def race_key(s):
    m = re.search(r'WARNING: DATA RACE\n(.*?)\n\n(.*?)\n\n', s, re.S)
    return None if not m else short(' / '.join(x.strip().split('\n')[0] + ' ' + ' '.join(x.strip().split('\n')[1:3]) for x in m.groups()), 600)

class C13(Prop):
    id = 'C13'
    binary = 'race'
    quick_s = 60; quick_min = 60; recheck = 40
    fixed_runs = True
    rule = ('The program is compiled with the race detector and run under the simulated scheduler (one repeatable schedule per seed, so that a conflicting access not ordered by synchronisation is reported for that seed), with and '
            'without type checking, with several projects, more workers than checkers and fewer. Separately, the harness around every rule call asserts that no two goroutines are inside the same type checker. '
            'Non-trivial: at least two CPUs and two files linted; distinct by schedule.')
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'synth', 'multi', 'multi', 'shared', 'loose', 'globals', 'twins'])
        worlds.request(rng, w, ts, probes=['vsim-probe-type', 'vsim-probe-fix'], kind=rng.pick([0, 0, 2]))
        w['sem'] = rng.p(35); w['syn'] = rng.p(20); w['timings'] = rng.p(30)
        if rng.p(20): w['overrides'] = {rng.pick(ts): worlds.snippet(rng)[0]}
        if rng.p(15): w['env'] = {'OXC_LOG': 'debug'}
        w['env'] = dict(w.get('env', {}), GORACE='exitcode=66 halt_on_error=0 history_size=2')
        n = noise(rng); n['ncpu'] = rng.pick([2, 3, 4, 4, 8]); n['alloc_mean'] = rng.pick([0, 1000, 10000]); n['point_mean'] = rng.pick([0, 100, 300])
        conf = rng.p(60); n['wrap'] = conf
        c = {'kind': w['kind'] + ('-confinement' if conf else ''), 'spec': w, 'runs': [{'sim': n}]}
        if conf: c['binary'] = 'normal'
        return c
    def check(self, case, outs):
        o = outs[0]; out = []
        if 'WARNING: DATA RACE' in o.rawerr: out.append(('race', 'data race: %s' % race_key(o.rawerr)))
        for x in o.viol: out.append(('confinement', x))
        c = crash_kind(o)
        if c and 'concurrent map' in c: out.append(('race', c))
        elif c and not out: out.append(('crash', c))
        return out
    def nontrivial(self, case, outs):
        o = outs[0]
        return o.stats['hash'] if o.stats and case['runs'][0]['sim']['ncpu'] > 1 and len(norm_targets(case['spec'])) > 1 else None

# ---------------------------------------------------------------------------- C14

class C14(Prop):
    id = 'C14'
    rule = ('The same request with every combination of -fix and -fix-suggestions under seeded environments: fix and suggestion builders run exactly once per report and only when asked for, the message carries exactly what they '
            'returned, edits lie inside the linted text and those of one fix do not overlap; everything else in the messages is the same in all four runs. Non-trivial: a fix or suggestion was produced; distinct by schedule.')
    fixed_runs = True; keep_flags = ('fix', 'sugg')
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'corpus', 'synth', 'multi', 'twins'])
        worlds.request(rng, w, ts, probes=['vsim-probe-fix'] if rng.p(70) else [], kind=rng.pick([0, 0, 2]))
        w['sem'] = rng.p(10)
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': noise(rng), 'over': {'fix': f, 'sugg': s}} for f, s in ((False, False), (True, False), (False, True), (True, True))]}
    def check(self, case, outs):
        out = []
        for k, o in enumerate(outs):
            d = died(o)
            if d: return [('died', 'run %d: %s' % (k, d))]
            s = spec_of(case, k); byid = {d['id']: d for d in o.reports if 'id' in d}
            d = emitted(o, s)
            if d: out.append(('content', 'run %d: %s' % (k, d)))
            for v in rule_diags(o):
                if (not s['fix'] and v.get('fixes')) or (not s['sugg'] and v.get('suggestions')):
                    out.append(('unasked', 'run %d carries edits nobody asked for: %s' % (k, short(v)))); break
            for d in o.reports:
                g = o.gens.get(d['id'], {})
                if d['fix_fn'] and ('fixes' in g) != s['fix']: out.append(('builder', 'run %d: the fix builder of a %s report %s' % (k, d['rule'], 'did not run' if s['fix'] else 'ran without -fix'))); break
                if d['sugg_fn'] and ('sugg' in g) != s['sugg']: out.append(('builder', 'run %d: the suggestion builder of a %s report %s' % (k, d['rule'], 'did not run' if s['sugg'] else 'ran without -fix-suggestions'))); break
                if g.get('n_fixes', 1) > 1 or g.get('n_sugg', 1) > 1: out.append(('builder', 'run %d: a builder of a %s report ran more than once' % (k, d['rule']))); break
                sets = [g.get('fixes') or []] + [x[3] for x in g.get('sugg') or []]
                for fs in sets:
                    e = sorted((a, b) for _, a, b in fs)
                    if any(not (0 <= a <= b <= d['len']) for a, b in e): out.append(('range', 'run %d: edit outside the text: %s %s %s' % (k, d['rule'], d['file'], e)))
                    if any(e[i][1] > e[i + 1][0] for i in range(len(e) - 1)): out.append(('overlap', 'run %d: the edits of one fix overlap: %s %s %s' % (k, d['rule'], d['file'], fs)))
        def bare(o): return sorted(canon({k: v for k, v in x.items() if k not in ('fixes', 'suggestions')}) for x in diags(o))
        for k in (1, 2, 3):
            d = diff(bare(outs[0]), bare(outs[k]), ('without fixes', 'run %d' % k))
            if d: out.append(('rest', 'asking for fixes changes the diagnostics: ' + d))
        return out
    def nontrivial(self, case, outs):
        return [o.stats and o.stats['hash'] for o in outs] if outs[3].gens else None

# ---------------------------------------------------------------------------- C15

class C15(Prop):
    id = 'C15'
    rule = ('Runs with and without -debug timings under seeded environments, simulated work inside rules and wall-clock jumps: the diagnostics are the same, the calls of each rule are exactly the calls that were made, the duration covers at '
            'least the time spent inside, and, on a quiet run, at most that plus clock reads. Non-trivial: at least three rules timed; distinct by schedule.')
    fixed_runs = True; keep_flags = ('timings',)
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'loose', 'twins'])
        worlds.request(rng, w, ts, probes=['vsim-probe-run'], kind=rng.pick([1, 2]))
        for c in w['configs']:
            c[1].append({'name': 'vsim-probe-ident', 'options': {'work': rng.pick([0, 10**5, 10**6]), 'every': 3}})
            if rng.p(50): c[1].append({'name': 'vsim-probe-ident2', 'options': {'work': rng.pick([10**4, 10**7])}})
        n = noise(rng)
        if rng.p(40): n['wall_jump'] = rng.pick([10**6, 10**12])
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': quiet(), 'over': {'timings': False}}, {'sim': quiet(), 'over': {'timings': True}}, {'sim': n, 'over': {'timings': True}}]}
    def check(self, case, outs):
        out = []
        for k, o in enumerate(outs):
            d = died(o)
            if d: return [('died', 'run %d: %s' % (k, d))]
        for k in (1, 2):
            o = outs[k]
            d = diff(diag_multiset(outs[0]), diag_multiset(o), ('without timings', 'with timings'))
            if d: out.append(('diagnostics', d))
            tm = timings(o)
            if len(tm) != 1 or o.frames[-1][0] != 2: out.append(('frame', 'run %d: %d timing messages' % (k, len(tm)))); continue
            rows = tm[0]['rules']; calls = Counter(); ns = Counter()
            for (f, r), (n, t_) in o.calls.items(): calls[r] += n; ns[r] += t_
            got = {r['rule_name']: r for r in rows}
            if len(got) != len(rows): out.append(('rows', 'a rule appears twice'))
            want = {r for r, n in calls.items() if n}
            if set(got) != want: out.append(('rows', 'run %d: timed rules differ from the rules that ran: %s' % (k, sorted(set(got) ^ want)))); continue
            for r, v in got.items():
                if v['calls'] != calls[r]: out.append(('calls', 'run %d: %s has %d calls, %d were made' % (k, r, v['calls'], calls[r])))
                if v['duration'] < ns[r]: out.append(('duration', 'run %d: %s took at least %d ns inside, reported %d' % (k, r, ns[r], v['duration'])))
                if k == 1 and v['duration'] > ns[r] + 3 * 1000 * calls[r]: out.append(('duration', 'quiet run: %s took %d ns inside in %d calls, reported %d' % (r, ns[r], calls[r], v['duration'])))
            if [r['duration'] for r in rows] != sorted((r['duration'] for r in rows), reverse=True): out.append(('order', 'rows are not sorted by duration'))
        if timings(outs[0]): out.append(('frame', 'timing message without -debug timings'))
        return out
    def nontrivial(self, case, outs):
        return [o.stats and o.stats['hash'] for o in outs] if timings(outs[2]) and len(timings(outs[2])[0]['rules']) > 2 else None

# ---------------------------------------------------------------------------- C16

def text_id(s):
    """Names a generated file by its content, the optional module marker aside."""
    return hashlib.sha256(s.removesuffix('export {};\n').strip().encode('utf-8', 'surrogateescape')).hexdigest()[:16]

class C16(Prop):
    id = 'C16'
    rule = ('One request with many rules against the same files with the rules dealt out to several invocations, in another order and under other seeded environments: the union of the diagnostics must be equal. '
            'Non-trivial: at least two parts reported something; distinct by schedule.')
    fixed_runs = True; keep_request = True
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'corpus', 'synth', 'synth', 'multi', 'shared', 'loose', 'twins'])
        rules = worlds.rule_list(rng, ['vsim-probe-type'], kind=rng.pick([0, 3, 3, 2]))
        order = rng.shuffle(rules); m = rng.range(2, 5); parts = [p for p in (order[j::m] for j in range(m)) if p]
        w['configs'] = [[ts, rules]]; w['fix'] = rng.p(50); w['sugg'] = rng.p(50)
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': noise(rng)}] + [{'sim': rng.pick([quiet(), noise(rng)]), 'over': {'configs': [[ts, p]]}} for p in parts]}
    def check(self, case, outs):
        for k, o in enumerate(outs):
            d = died(o)
            if d: return [('died', 'run %d: %s' % (k, d))]
        a = Counter(canon(v) for v in rule_diags(outs[0])); b = Counter(canon(v) for o in outs[1:] for v in rule_diags(o))
        files = {}
        for x in list((a - b).elements()) + list((b - a).elements()): files.setdefault(json.loads(x)['file_path'], set()).add(json.loads(x)['rule'])
        out = []
        for f in sorted(files):
            text = case['spec']['files'].get(f, {}).get('t', '')
            pick = lambda c: sorted(x for x in c.elements() if json.loads(x)['file_path'] == f)
            seen = text + case['spec']['files'].get(os.path.dirname(f) + '/decl.ts', {}).get('t', '')
            out.append(('rules', 'text=%s rules=%s: %s' % ('calls-of-never' if 'type Thing = never' in seen and 'fn(' in text else text_id(text), ','.join(sorted(files[f])), diff(pick(a), pick(b), ('all rules together', 'the rules apart')))))
        return out
    def nontrivial(self, case, outs):
        return [o.stats and o.stats['hash'] for o in outs] if sum(1 for o in outs[1:] if rule_diags(o)) > 1 else None

# ---------------------------------------------------------------------------- C17

def spell(rng, v):
    """One of the many ways to write a JSON document."""
    text = json.dumps(v, indent=rng.pick([None, None, 0, 1, 2, 4, '\t']), separators=rng.pick([None, (',', ':'), (' , ', ' : ')]), ensure_ascii=rng.p(60), sort_keys=rng.p(50))
    try: text.encode('utf-8')
    except UnicodeEncodeError: text = json.dumps(v)
    if rng.p(20): text = text.replace('\n', '\r\n')
    return rng.pick(['', '', '\n', '  \r\n\t']) + text + rng.pick(['', '', '\n', '\n\n', ' ' * 5000])

def cuts(rng):
    """How a pipe may deliver a request."""
    k = rng.below(5)
    if k == 0: return [1]
    if k == 1: return [rng.pick([512, 4095, 4096, 4097, 8192, 32768, 65536])]
    if k == 2: return [rng.range(1, 70000), rng.range(1, 5), rng.range(1, 5000)]
    return [rng.range(1, rng.pick([2, 10, 600])) for _ in range(rng.range(1, 7))]

class C17(Prop):
    id = 'C17'
    rule = ('The request arrives in arbitrary pieces, is cut short, ends in a read error, is damaged, or is written in the version 1 format. Whole requests in pieces must behave like the request in one piece, version 1 like its version 2 '
            'equivalent; anything else must produce exactly one error message, no diagnostics, and a non-zero exit code. Non-trivial: the request was cut, damaged or split; distinct by request bytes and split.')
    fixed_runs = True; keep_request = True; keep_files = True
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'loose'], n=rng.range(1, 4)); k = rng.below(4)
        if k == 0:
            rules = [{'name': r} for r in rng.sample(worlds.RULES, rng.range(1, 6))] + [{'name': 'vsim-probe-run'}]
            w['configs'] = [[[p], rng.sample(rules, rng.range(1, len(rules)))] for p in ts]
            v1 = {'files': [{'file_path': q, 'rules': [r['name'] for r in rs]} for qs, rs in w['configs'] for q in qs]}
            if rng.p(20): v1['version'] = 0
            return {'kind': 'v1', 'spec': w, 'runs': [{'sim': noise(rng)}, {'sim': dict(noise(rng), stdin_chunks=cuts(rng)), 'over': {'stdin': spell(rng, v1)}}], 'expect': 'same'}
        worlds.request(rng, w, ts, probes=['vsim-probe-run'])
        p = vsim.payload(w['configs'])
        if k == 1:
            n = noise(rng); n['stdin_chunks'] = cuts(rng)
            w['sem'] = rng.p(20); w['syn'] = rng.p(20)
            if rng.p(50):
                w['overrides'] = {q: worlds.snippet(rng)[0] for q in rng.sample(ts, 1)}
                big = rng.pick([0, 0, 3000, 70000, 300000, 1200000])
                for q in w['overrides']: w['overrides'][q] += '\n// \u00e9\u2028\U0001f600 "quoted" \\n\n' + ('/*' + 'x\n"' * (big // 3) + '*/' if big else '')
                if big >= 70000: n['stdin_chunks'] = rng.pick([[4096], [65536], [1 << 20], [rng.range(1000, 99999), 1]]); n['alloc_mean'] = 0
            full = json.loads(vsim.payload(w['configs'], overrides=w.get('overrides'), syntactic=w['syn'], semantic=w['sem']))
            return {'kind': 'split', 'spec': w, 'runs': [{'sim': dict(quiet(), stdin_chunks=[])}, {'sim': n, 'over': {'stdin': spell(rng, full)} if rng.p(70) else {}}], 'expect': 'same'}
        n = noise(rng)
        if k == 2:
            if rng.p(50): n['stdin_err_at'] = rng.below(len(p)); n['stdin_err'] = rng.pick(['eio', 'enospc'])
            else:
                b = p.encode('utf-8', 'surrogateescape')
                if rng.p(40): b = json.dumps(json.loads(p), indent=1).encode()   # a line is complete, the document is not
                w['stdin_b64'] = base64.b64encode(b[:rng.range(0, len(b) - 1)]).decode()
            return {'kind': 'cut', 'spec': w, 'runs': [{'sim': n}], 'expect': 'error'}
        s = p
        m = rng.below(5)
        if m == 0: s = p.replace('"version": 2', '"version": %s' % rng.pick(['1', '3', '-1', '99', '"2"', 'null', '2.5', 'true', '[]']))
        elif m == 1: s = p.replace('"file_paths": [', '"file_paths": [%s, ' % rng.pick(['1', 'null', '{}', '[]']), 1)
        elif m == 2: s = p + rng.pick(['}', '{}', 'x', '\x00', ',', '[]'])
        elif m == 3: s = p.replace('"configs"', rng.pick(['"version": 2, "configs"', '"configs": [], "configs"']), 1)
        else: j = rng.below(len(p)); s = p[:j] + rng.pick(['\x00', '\x01', '\n"', '}', ']', '\\', '"']) + p[j + 1:]
        w['stdin'] = s
        return {'kind': 'damaged', 'spec': w, 'runs': [{'sim': n}], 'expect': 'damaged'}
    def check(self, case, outs):
        out = []; o = outs[0]
        if case['expect'] == 'same':
            for k, x in enumerate(outs):
                d = died(x)
                if d: return [('died', 'run %d: %s' % (k, d))]
            d = diff(diag_multiset(outs[0]), diag_multiset(outs[1]), ('the plain request', 'the other form'))
            return [('form', d)] if d else []
        c = crash_kind(o)
        if case['expect'] == 'damaged':
            s = case['spec']['stdin']
            try: json.loads(s); valid = True
            except ValueError: valid = False
            if valid:   # may or may not be acceptable; what it must not do is hang or garble the stream
                if c in ('deadlock', 'budget'): out.append(('stuck', c))
                elif not c and o.frame_error: out.append(('stream', o.frame_error))
                elif o.rc == 0 and errors(o): out.append(('error', 'exit code 0 with an error message'))
                v = None
                try: v = json.loads(s).get('version', 0)
                except AttributeError: pass
                if isinstance(v, int) and not isinstance(v, bool) and v not in (0, 2) and (o.rc == 0 or not errors(o)): out.append(('version', 'version %r was not rejected' % v))
                return out
        if c: return [('died', 'the run died: ' + short(c))]
        if o.rc == 0: out.append(('accepted', 'an unreadable request ended with exit code 0'))
        if len(errors(o)) != 1 or len(o.frames) != 1 or o.frame_error: out.append(('error', 'expected exactly one error message, got %s %s' % ([ty for ty, _, _ in o.frames][:5], o.frame_error)))
        if o.runs: out.append(('linted', 'rules ran for an unreadable request'))
        return out
    def nontrivial(self, case, outs):
        return case['kind'], short(case['spec'].get('stdin') or str(case['runs'][-1]['sim'].get('stdin_chunks')), 2000), outs[-1].stats and outs[-1].stats['hash']

# ---------------------------------------------------------------------------- C18

ANSI = re.compile(r'\x1b\[[0-9;:]*m')
BLOCK = re.compile(r'(?m)^  (\S+)  — ((?:.*\n)(?:    │.*\n)*?)  ╭─┴──────────\(  ?(.*):(\d+):(\d+) \)─────\n((?:.*\n)*?)  ╰─+\n')

UNDER = re.compile(r'(?s)\x1b\[4m(.*?)\x1b\[0m')

def plain(o): return ANSI.sub('', o.stdout.decode('utf-8', 'replace'))
def marked(o): return ANSI.sub('', UNDER.sub('\x01\\1\x02', o.stdout.decode('utf-8', 'replace')))

def cli(o):
    """(printed diagnostics, summary, listed files)"""
    s = marked(o)
    m = re.search(r'Found (\d+) (errors?) \(linted (\d+) (files?) with (\d+) rules? in (\S+) using (\d+) threads\)\n', s)
    return BLOCK.findall(s), (int(m.group(1)), m.group(2), int(m.group(3)), m.group(4), int(m.group(5)), int(m.group(7))) if m else None, re.findall(r'^Found file: (.*)$', s, re.M)

EOL = re.compile('\r\n|[\n\r\u2028\u2029]')

class Text:
    """Positions in a source text, as an editor shows them."""
    def __init__(self, b):
        self.b = b
        self.starts = [0] + [len(m) for m in self._ends()]
    def _ends(self):
        s = self.b.decode('utf-8', 'surrogateescape')
        for m in EOL.finditer(s): yield s[:m.end()].encode('utf-8', 'surrogateescape')
    def at(self, pos):
        """1-based line and UTF-16 column of a byte offset."""
        l = bisect.bisect_right(self.starts, pos) - 1
        return l + 1, len(self.b[self.starts[l]:pos].decode('utf-8', 'replace').encode('utf-16-le')) // 2 + 1
    def line(self, l):
        e = self.starts[l] if l < len(self.starts) else len(self.b)
        return self.b[self.starts[l - 1]:e].decode('utf-8', 'replace')

def squeeze(s): return re.sub(r'[\s\x01\x02]+', '', s)

def relayout(rng, w, ts):
    """Other ways to lay out the same text."""
    for p in rng.sample(ts, rng.range(1, len(ts))):
        s = w['files'][p].get('t')
        if s is None: continue
        k = rng.below(5)
        if k == 0: s = s.replace('\n', '\r\n')
        elif k == 1: s = '/* \U0001f600 é */ ' + s.replace(';', '; /* \U0001f600 */ ')
        elif k == 2: s = s.replace('\n', rng.pick(['\u2028', '\r', '\n\n\t\t', '\n\n\n\n\n']))
        elif k == 3: s = s.rstrip('\n')
        elif k == 4: s = '\ufeff' + s.replace(' ', rng.pick(['\n', '\t', '  ']))
        w['files'][p] = t(s)

def source(spec, path):
    """The text of a file as it is linted, or None."""
    if path in (spec.get('overrides') or {}): b = spec['overrides'][path].encode('utf-8', 'surrogateescape')
    else:
        e = spec['files'].get(path) or {}
        b = e['t'].encode('utf-8', 'surrogateescape') if 't' in e else base64.b64decode(e['b64']) if 'b64' in e else None
    return b and b.removeprefix(b'\xef\xbb\xbf')

class C18(Prop):
    id = 'C18'
    fixed_runs = True; keep_request = True
    rule = ('The command-line mode on generated projects under seeded environments: one printed block per report, with its rule, message, file, line, column and the lines around it, the summary counts them, list-files names each linted file once, '
            'the timing table counts the calls, and the set of blocks does not depend on the schedule. Non-trivial: at least one block printed; distinct by schedule.')
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'loose', 'globals', 'shared'] + (['big'] if rng.p(40) else []))
        args = []; cfgs = sorted(p for p in w['files'] if p.endswith('tsconfig.json'))
        if cfgs and (w['kind'] in ('multi', 'shared') or rng.p(20)): args = ['-tsconfig', rng.pick(cfgs)]
        if rng.p(30): args.append('-list-files')
        if rng.p(30): args += ['-debug', 'timings']
        if rng.p(15): args.append('-singleThreaded')
        if rng.p(40): relayout(rng, w, ts)
        w['args'] = args; w['stdin'] = ''; w['configs'] = []
        pr = rng.p(30) and w['kind'] not in ('big',)
        def env(n): return dict(n) if pr else dict(n, no_probes=True)
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': env(quiet())}, {'sim': env(noise(rng))}, {'sim': env(noise(rng))}]}
    def base(self, spec):
        a = spec['args']
        return os.path.dirname(a[a.index('-tsconfig') + 1]) if '-tsconfig' in a else spec['cwd']
    def text(self, spec, path, cache={}):
        b = source(spec, path)
        if b is None: return None
        if b not in cache:
            if len(cache) > 200: cache.clear()
            cache[b] = Text(b)
        return cache[b]
    def blocks(self, spec, o, heads):
        """Are the printed blocks the reports?"""
        want, got = Counter(), Counter(); src = {}
        for d in o.reports:
            t = self.text(spec, d['file'])
            if 'raw' in d or t is None or not d['valid'] or len(t.b) != d['len']: return None
            f = os.path.relpath(d['file'], self.base(spec)); at = t.at(d['pos'])
            k = '%s %s:%d:%d %s' % (d['rule'], f, *at, d['desc'])
            want[k] += 1; src.setdefault(k, []).append((t, d))
        for rule, desc, f, l, c, body in heads:
            k = '%s %s:%s:%s %s' % (rule, f, l, c, desc[:-1].replace('\n    │' + ' ' * (len(rule) + 1), '\n'))
            got[k] += 1
            if k not in src: continue
            rows = []
            for r in body.split('\n')[:-1]:
                m = re.match(r'  │ +(\d+) │  (.*)$', r, re.S)
                if m: rows.append((int(m.group(1)), m.group(2)))
                elif rows and '\n' in r: rows[-1] = (rows[-1][0], rows[-1][1] + r)
            for t, d in src[k]:
                a, b = t.at(d['pos'])[0], t.at(d['end'])[0]
                a, b = max(a - 1, 1), min(b + 1, len(t.starts))
                if b - a >= 13: ok = 'too big' in body
                else: ok = [x for x, _ in rows] == list(range(a, b + 1)) and [squeeze(x) for _, x in rows] == [squeeze(t.line(x)) for x in range(a, b + 1)] \
                    and (d['end'] < d['pos'] or squeeze(''.join(re.findall(r'(?s)\x01(.*?)\x02', body))) == squeeze(t.b[d['pos']:d['end']].decode('utf-8', 'replace')))
                if ok: break
            else: return 'the block of %s shows something else: %s instead of lines %d-%d with the reported range underlined' % (short(k), short(body), a, b)
        return diff(want.elements(), got.elements(), ('the reports', 'the printed blocks'))
    def check(self, case, outs):
        out = []; ref = None; spec = case['spec']
        for k, o in enumerate(outs):
            c = crash_kind(o)
            if c: out.append(('died', 'run %d: %s' % (k, c))); continue
            if o.rc != 0:
                if k and (outs[0].rc == 0): out.append(('outcome', 'run %d: exit code %d' % (k, o.rc)))
                continue
            heads, summ, listed = cli(o)
            if summ is None: out.append(('summary', 'run %d: exit code 0 without a summary: %s' % (k, short(o.stdout[-200:].decode('utf-8', 'replace'))))); continue
            if summ[0] != len(o.reports): out.append(('summary', 'run %d: the summary says %d errors, the rules reported %d' % (k, summ[0], len(o.reports))))
            if len(heads) != len(o.reports): out.append(('blocks', 'run %d: %d blocks printed, %d reports' % (k, len(heads), len(o.reports))))
            else:
                d = self.blocks(spec, o, heads)
                if d: out.append(('blocks', 'run %d: %s' % (k, d)))
            linted = set(r.file for r in o.runs)
            if summ[2] != len(linted): out.append(('files', 'run %d: the summary says %d files, %d were linted' % (k, summ[2], len(linted))))
            if linted and summ[4] != len(set(r.rule for r in o.runs)): out.append(('summary', 'run %d: the summary says %d rules, %d ran' % (k, summ[4], len(set(r.rule for r in o.runs)))))
            if '-list-files' in spec['args'] and sorted(listed) != sorted(os.path.relpath(f, self.base(spec)) for f in linted): out.append(('files', 'run %d: %s listed, %s linted' % (k, short(sorted(listed)), short(sorted(linted)))))
            table = re.findall(r'^(\S+) +([\d.]+) +([\d.]+)% +(\d+)$', plain(o).rpartition('\nRule timings:\n')[2], re.M) if '-debug' in spec['args'] else []
            if '-debug' in spec['args'] and linted:
                calls = Counter()
                for (f, r), (n, _) in o.calls.items():
                    if n: calls[r] += n
                d = diff(['%s %d' % x for x in calls.items()], ['%s %s' % (x[0], x[3]) for x in table], ('the calls made', 'the timing table'))
                if d: out.append(('timings', 'run %d: %s' % (k, d)))
                if [float(x[1]) for x in table] != sorted((float(x[1]) for x in table), reverse=True): out.append(('timings', 'run %d: the timing table is not sorted' % k))
            blocks = sorted(''.join('%s|' % y for y in x) for x in heads)
            if ref is None: ref = blocks
            else:
                d = diff(ref, blocks, ('the quiet run', 'run %d' % k))
                if d: out.append(('schedule', d))
        return out
    def nontrivial(self, case, outs):
        return [o.stats and o.stats['hash'] for o in outs] if any(o.reports for o in outs) else None

# ---------------------------------------------------------------------------- C21

class C21(Prop):
    id = 'C21'
    fixed_runs = True
    rule = ('The same request with and without debug logging, with a failing stderr, and with wall-clock jumps, under seeded environments: stdout carries the same messages and the exit code is the same. '
            'Non-trivial: a diagnostic was produced; distinct by schedule.')
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'loose'])
        worlds.request(rng, w, ts, probes=['vsim-probe-run'], kind=rng.pick([0, 1, 2])); w['sem'] = rng.p(15)
        dbg = {'env': {'OXC_LOG': 'debug'}}
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': noise(rng)}, {'sim': noise(rng), 'over': dbg}, {'sim': dict(noise(rng), stderr_fail=True, wall_jump=10**12), 'over': dbg}]}
    def check(self, case, outs):
        out = []; a = outs[0]
        for k, o in enumerate(outs[1:], 1):
            if (crash_kind(a) is None) != (crash_kind(o) is None) or (a.rc != o.rc): out.append(('outcome', 'run %d: code %s (%s) instead of %s (%s)' % (k, o.rc, short(crash_kind(o)), a.rc, short(crash_kind(a))))); continue
            if o.frame_error: out.append(('stream', o.frame_error))
            d = diff(diag_multiset(a), diag_multiset(o), ('without', 'with debug logging'))
            if d: out.append(('diagnostics', d))
        if not crash_kind(outs[1]) and not outs[1].stderr: out.append(('log', 'no debug output'))
        return out

# ---------------------------------------------------------------------------- C19

class C19(Prop):
    id = 'C19'
    fixed_runs = True
    rule = ('Successful and failing runs with every combination of fix flags, diagnostics, overrides, timings and debug logging, in headless and command-line mode, with I/O faults and a changing workspace: the simulated '
            'operating system records every operation that would change a file. Non-trivial: a rule ran; distinct by schedule.')
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'synth', 'multi', 'loose', 'globals'])
        worlds.request(rng, w, ts, probes=['vsim-probe-fix'], kind=rng.pick([0, 1, 2]))
        w['sem'] = rng.p(30); w['syn'] = rng.p(30); w['timings'] = rng.p(20); w['fix'] = rng.p(75); w['sugg'] = rng.p(75)
        if rng.p(30): w['overrides'] = {p: worlds.snippet(rng)[0] for p in rng.sample(ts, rng.range(1, 2))}
        n = noise(rng); kind = w['kind']
        if rng.p(35):
            w['env'] = {'OXC_LOG': 'debug'}
            if rng.p(40): n['stderr_fail'] = True
        k = rng.below(6)
        if k == 0:
            n['fs_faults'] = [{'op': rng.pick(['open', 'read', 'stat', '']), 'path': rng.pick(ts), 'from': rng.below(2), 'to': rng.pick([0, 1]), 'kind': rng.pick(['eio', 'enoent', 'eacces'])}]
            kind += '-faults'
        elif k == 1: n['fs_events'] = vanishing(rng, w); kind += '-failing'
        elif k == 2: n['stdout'] = {'at': rng.below(5000), 'errno': rng.pick(['enospc', 'eio']), 'once': rng.p(50)}; kind += '-full'
        elif k == 3:
            w['args'] = rng.pick([[], ['-list-files'], ['-debug', 'timings'], ['-singleThreaded']]); w['stdin'] = ''; n['no_probes'] = True; kind = 'cli'
        return {'kind': kind, 'spec': w, 'runs': [{'sim': n}]}
    def check(self, case, outs):
        return [('write', 'the run changed the file system: %s %s' % outs[0].changes[0])] if outs[0].changes else []
    def nontrivial(self, case, outs):
        o = outs[0]
        return (o.stats['hash'], case['kind']) if o.stats and o.runs else None

# ---------------------------------------------------------------------------- C23

class C23(Prop):
    id = 'C23'
    rule = ('Rules, type checking, fixes and suggestions on generated workspaces with other line endings, byte order marks, astral characters, damaged syntax and source overrides, under seeded environments: every range of every '
            'message is compared with the text that was linted. Non-trivial: a message with a range; distinct by schedule.')
    fixed_runs = True
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'corpus', 'weird', 'weird', 'synth', 'multi', 'shared', 'loose', 'globals', 'twins', 'twins'])
        worlds.request(rng, w, ts, probes=[], kind=rng.pick([0, 0, 3, 2]))
        w['sem'] = rng.p(50); w['syn'] = rng.p(50); w['fix'] = rng.p(80); w['sugg'] = rng.p(80)
        if rng.p(50): relayout(rng, w, ts)
        if rng.p(40):
            for p in rng.sample(ts, rng.range(1, 4)): w['files'][p] = t(mutate(rng, w['files'][p]['t']))
        if rng.p(25): w['overrides'] = {p: rng.pick(['', '\ufeff']) + worlds.snippet(rng)[0] for p in rng.sample(ts, rng.range(1, 2))}
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': noise(rng)}]}
    def check(self, case, outs):
        o = outs[0]; spec = spec_of(case, 0); out = []; texts = {}
        d = died(o)
        if d: return [('died', d)]
        for v in diags(o):
            f = v.get('file_path')
            if f is None: continue
            if f not in texts: texts[f] = source(spec, f)
            b = texts[f]
            if b is None: continue
            rs = [('range', v.get('range'))] + [('label', x['range']) for x in v.get('labeled_ranges') or []] + [('fix', x['range']) for x in v.get('fixes') or []] + [('suggestion', x['range']) for y in v.get('suggestions') or [] for x in y['fixes']]
            for what, r in rs:
                if r is None: continue
                p, e = r['pos'], r['end']
                if not 0 <= p <= e <= len(b): out.append(('outside', '%s %d-%d of a file of %d bytes: %s %s' % (what, p, e, len(b), f, v.get('rule') or v['message']['id'])))
                elif any(x < len(b) and b[x] & 0xC0 == 0x80 for x in (p, e)): out.append(('inside', '%s %d-%d starts or ends inside a character: %s %s' % (what, p, e, f, v.get('rule') or v['message']['id'])))
                else: continue
                break
        return out[:5]
    def nontrivial(self, case, outs):
        return outs[0].stats['hash'] if outs[0].stats and diags(outs[0]) else None

# ---------------------------------------------------------------------------- C24

def edits(b, sets):
    """b with the edits of the given fixes applied together, as a client does it: in order of
    position, a fix that overlaps or touches an earlier one is left out."""
    todo = []
    for fs in sets:
        e = sorted(((f['range']['pos'], f['range']['end'], f['text'].encode('utf-8', 'surrogateescape')) for f in fs), key=lambda x: x[:2])
        if e and 0 <= e[0][0] and e[-1][1] <= len(b): todo.append(e)
    todo.sort(key=lambda e: (e[0][0], e[-1][1])); out = b''; last = 0; end = -1
    for e in todo:
        if e[0][0] <= end: continue
        if any(p > q for p, q, _ in e) or any(e[i][1] > e[i + 1][0] for i in range(len(e) - 1)): continue   # C14, C23
        for p, q, x in e: out += b[last:p] + x; last = q
        end = last
    return out + b[last:]

class C24(Prop):
    id = 'C24'
    rule = ('Generated and re-styled files (comments everywhere, no spaces, no semicolons, line breaks in other places, superfluous parentheses) are linted under seeded environments; every fix and every suggestion is applied alone, and all '
            'fixes of a file together, round after round, each round linted by a further simulated run: no text that was free of syntax errors gets one, and after at most ten rounds no fix is left. '
            'Non-trivial: an edit was applied; distinct by schedule.')
    fixed_runs = True; keep_flags = ('fix', 'sugg', 'syn'); most = 250
    def gen(self, rng, i):
        w, ts = worlds.world(rng, ['corpus', 'corpus', 'corpus', 'weird', 'synth', 'loose', 'globals', 'twins'])
        worlds.request(rng, w, ts, probes=[], kind=rng.pick([0, 0, 0, 3, 2]), k=rng.pick([1, 1, 2]))
        w['sem'] = False; w['syn'] = w['fix'] = w['sugg'] = True
        if rng.p(80): worlds.restyle(rng, w, ts)
        if w['kind'] == 'corpus' and rng.p(20): worlds.javascript(w)
        return {'kind': w['kind'], 'spec': w, 'runs': [{'sim': noise(rng)} for _ in range(12)]}
    def texts(self, spec):
        return {p: source(spec, p) for p in worlds.targets_of(spec)}
    def valid(self, texts, o):
        bad = {d['file_path'] for d in diags(o) if d['kind'] == 1}
        return {p: b for p, b in texts.items() if b is not None and p not in bad and b'\0' not in b}
    def single(self, case, o):
        """Every edit of the first run on its own: {path of the edited copy: (diagnostic, what, text)}"""
        ok = self.valid(self.texts(case['spec']), o); out = {}
        for d in sorted(rule_diags(o), key=canon):
            b = ok.get(d['file_path'])
            if b is None: continue
            for what, fs in [('fix', d.get('fixes'))] + [('suggestion ' + s['message']['id'], s['fixes']) for s in d.get('suggestions') or []]:
                if fs and len(out) < self.most: out['/w/edited/e%d%s' % (len(out), os.path.splitext(d['file_path'])[1])] = (d, what, edits(b, [fs]))
        return out
    def together(self, texts, o):
        by = {}
        for d in rule_diags(o):
            if d.get('fixes') and d['file_path'] in texts: by.setdefault(d['file_path'], []).append(d['fixes'])
        return {p: edits(texts[p], sets) for p, sets in by.items()}
    def rounds(self, case, outs):
        """[texts before, outcome] of each round of fixing everything"""
        out = []
        if outs: out.append((self.valid(self.texts(case['spec']), outs[0]), outs[0]))
        for o in outs[2:]: out.append((self.together(*out[-1]), o))
        return out
    def follow(self, case, k, outs):
        if k == 0: return {}
        if any(o.rc != 0 for o in outs): return None
        if k == 1:
            s = self.single(case, outs[0])
            files = {'/w/edited/tsconfig.json': t('{"compilerOptions":{"target":"esnext","module":"esnext","jsx":"preserve","types":[],"noLib":true}}'), '/w/edited/none.ts': t('')}
            for p, (_, _, b) in s.items(): files[p] = {'t': b.decode('utf-8', 'surrogateescape')}
            return {'files': files, 'overrides': None, 'configs': [[sorted(files)[:-1], [{'name': 'no-array-delete'}]]], 'fix': False, 'sugg': False}
        r = self.rounds(case, outs)
        nxt = self.together(*r[-1])
        if not nxt: return None
        files = dict(case['spec']['files'])
        for texts, _ in r:
            for p, b in texts.items(): files[p] = {'t': b.decode('utf-8', 'surrogateescape')}
        for p, b in nxt.items(): files[p] = {'t': b.decode('utf-8', 'surrogateescape')}
        return {'files': files, 'configs': [[[p for p in paths if p in nxt], rules] for paths, rules in case['spec']['configs']], 'sugg': False}
    def check(self, case, outs):
        out = []
        for k, o in enumerate(outs):
            d = died(o)
            if d: return [('died', 'run %d: %s' % (k, d))]
        def syn(o): return [d for d in diags(o) if d['kind'] == 1 and d['message']['id'] != 'tsconfig-error']
        if len(outs) > 1:
            s = self.single(case, outs[0])
            for d in syn(outs[1]):
                e = s.get(d['file_path'])
                if e: out.append(('single', '%s: the %s of "%s" in %s makes the text invalid: %s in %s' % (e[0]['rule'], e[1], short(e[0]['message']['description'], 80), e[0]['file_path'], short(d['message']['description'], 80), short(around(e[2], d['range']['pos']), 200))))
        r = self.rounds(case, outs)
        for n, (texts, o) in enumerate(r[1:]):
            for d in syn(o):
                if d['file_path'] in texts:
                    rules = sorted({x['rule'] for x in rule_diags(r[n][1]) if x['file_path'] == d['file_path'] and x.get('fixes')})
                    out.append(('together', 'all fixes of %s together (%s) make the text invalid: %s in %s' % (d['file_path'], ', '.join(rules), short(d['message']['description'], 80), short(around(texts[d['file_path']], d['range']['pos']), 200))))
        if len(outs) == len(case['runs']) == 12:
            left = self.together(*r[-1])
            if left: out.append(('unsettled', 'after %d rounds of fixing there are still fixes in %s (%s)' % (len(r) - 1, sorted(left)[:3], sorted({x['rule'] for x in rule_diags(r[-1][1]) if x.get('fixes')}))))
        return out[:5]
    def nontrivial(self, case, outs):
        return outs[0].stats['hash'] if len(outs) > 1 and self.single(case, outs[0]) else None

def around(b, pos): return b[max(0, pos - 60):pos + 40].decode('utf-8', 'replace')

PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C21, C23, C24)}
