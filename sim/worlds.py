"""Seeded generators of workloads (files, projects, requests) and of environments
(schedules, latencies, faults)."""
import json, os, re
from vsim import Rng

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = json.load(open(os.path.join(HERE, 'corpus.json')))
RULES = sorted(CORPUS)
PROBES = ['vsim-probe-ident', 'vsim-probe-ident2', 'vsim-probe-fix', 'vsim-probe-run', 'vsim-probe-type', 'vsim-probe-walk']

def t(s):
    return {'t': s}

# ------------------------------------------------------------------ environment

def noise(rng, heavy=True):
    """One scheduling/timing environment. Everything below is decided by the simulator's
    seeded scheduler; nothing in it may change what tsgolint reports."""
    n = dict(seed=rng.u64() >> 1, rand_seed=rng.u64() >> 1, strategy=rng.pick([1, 1, 2, 2, 3, 4, 5, 5]),
             alloc_mean=rng.pick([0, 100, 1000, 10000]), point_mean=rng.pick([0, 30, 300]), chg_mean=rng.pick([5, 50, 500]),
             ncpu=rng.pick([1, 2, 2, 3, 4, 4, 8, 16]), fs_seed=rng.u64() >> 1)
    k = rng.below(4)
    if k == 1: n['fs_yield'] = rng.pick([2, 5])
    if k == 2: n['fs_latency'] = rng.pick([1000, 1000000, 100000000])
    if rng.p(25): n['fs_short'] = rng.pick([1, 3])
    if rng.p(20): n['stdout_stall'] = rng.pick([1000, 1000000, 1000000000])
    if rng.p(25): n['stdin_chunks'] = [rng.range(1, 40) for _ in range(rng.range(1, 4))] if rng.p(50) else [rng.range(50, 4000)]
    if rng.p(10): n['wall_jump'] = rng.pick([10**6, 10**12])
    return n

def quiet(rng=None):
    """The reference environment: one CPU, FIFO scheduling, no injected preemption."""
    return dict(seed=1, rand_seed=1, strategy=0, alloc_mean=0, point_mean=0, ncpu=1)

# ------------------------------------------------------------------ source text

HEADER = '''export type Deep<T> = T extends object ? { [K in keyof T]: Deep<T[K]> } : T;
'''

def synth_module(rng, k, deps, n=None):
    """A module exporting things named after k and using what `deps` export. Imports only
    go to modules of smaller index, so that inferred types are never circular.
    deps: [(k', module specifier)]"""
    out = []
    for d, spec in deps:
        if rng.p(25):
            out.append("import * as ns%d from '%s';" % (d, spec))
            out.append("import { af%d, An%d, U%d, E%d, C%d, I%d, gen%d, old%d, inf%d, obj%d } from '%s';" % ((d,) * 10 + (spec,)))
        else:
            out.append("import { af%d, An%d, U%d, E%d, C%d, I%d, gen%d, old%d, inf%d, obj%d } from '%s';" % ((d,) * 10 + (spec,)))
    base = deps[rng.below(len(deps))][0] if deps else None
    out.append('export type U%d = %s;' % (k, rng.pick(["'a' | 'b' | 'c'", "1 | 2 | 3", "'x' | 1 | null", "string | undefined | Promise<number>"])))
    out.append('export enum E%d { A, B, C = %s }' % (k, rng.pick(['7', '5 + 1', '2'])))
    out.append('export interface I%d { a: number; b?: string; m(x: I%d): Promise<I%d>; u: U%d; v(): void }' % (k, k if base is None else base, k, k))
    out.append('export class C%d%s { static s = 1; private p%d = 1; x: I%d | null = null; meth() { return this.x; } async am() { return this.meth(); } get g() { return 1; } set g(v: number) {} }' %
               (k, '' if base is None or rng.p(50) else ' extends C%d' % base, k, k))
    out.append('export async function af%d(x: I%d) { %s return x.a; }' % (k, k, rng.pick(['', 'await x.m(x);', 'x.m(x);'])))
    out.append('export declare const An%d: any;' % k)
    out.append('export function gen%d<T extends { a: number }, V = T>(x: T, y?: V) { return [x, y] as const; }' % k)
    out.append('/** @deprecated use af%d */ export function old%d() { return %s; }' % (k, k, 'old%d()' % base if base is not None else '1'))
    out.append('export const inf%d = %s;' % (k, rng.pick(['{ a: 1, f: af%d, e: E%d.A }' % (k, k)] + (['gen%d({ a: inf%d })' % (base, base) if rng.p(0) else '{ z: inf%d, q: obj%d, a: 1 }' % (base, base)] if base is not None else []))))
    out.append('export const obj%d: Record<string, I%d> = {};' % (k, k))
    ids = [d for d, _ in deps] + [k]
    for j in range(n if n is not None else rng.range(3, 14)):
        d = rng.pick(ids)
        v = 'v%d_%d' % (k, j)
        out.append(rng.pick([
            'af%d(obj%d.q);' % (d, d),
            'export const %s = An%d.foo.bar;' % (v, d),
            'export const %s: string = An%d;' % (v, d),
            'An%d();' % d,
            'declare const %s: U%d; switch (%s) { case null as any: break; }' % (v, d, v),
            'declare const %s: U%d; if (%s) { }' % (v, d, v),
            'declare const %s: U%d | null; export const %sx = %s!;' % (v, d, v, v),
            'declare const %s: E%d; if (%s === 1) {}' % (v, d, v),
            'export const %s = new C%d().meth;' % (v, d),
            'export const %s = `${new C%d()}`;' % (v, d),
            'old%d();' % d,
            'export function %s() { return old%d() + An%d; }' % (v, d, d),
            'export const %s = gen%d({ a: 1, z: obj%d });' % (v, d, d),
            'export const %s = obj%d.x as I%d;' % (v, d, d),
            'export const %s = (obj%d.k as any).zz as C%d;' % (v, d, d),
            'export async function %s() { return await af%d(obj%d.x); }' % (v, d, d),
            '[1, 2, 3].forEach(async (x) => { await af%d(obj%d.x); });' % (d, d),
            'export const %s = obj%d.x && obj%d.x.m && obj%d.x.m(obj%d.y);' % (v, d, d, d, d),
            'export const %s = obj%d.a?.b ?? inf%d;' % (v, d, d),
            'export const %s = "" + inf%d.a + obj%d.x;' % (v, d, d),
            'for (const %s in [1, 2]) { An%d[%s]; }' % (v, d, v),
            'if (obj%d.x.u === obj%d.y.u) { throw obj%d; }' % (d, d, d),
            'export const %s = Object.keys(obj%d).sort().find(x => x.indexOf("%d") !== -1);' % (v, d, j),
            'export type T%s = I%d | C%d | I%d | never;' % (v, d, d, d),
            'export class K%s { private readonly q = 1; private w = obj%d; h() { return this; } }' % (v, d),
            'export const %s = Promise.reject(obj%d.x.a);' % (v, d),
            'try { af%d(An%d); } catch (e) { throw e; }' % (d, d),
            'let %s: any; ({ a: %s, ["b" + inf%d.a]: %s = old%d(), ...%s } = obj%d.x as any);' % (v, v, d, v, d, v, d),
            'let %s: any, %sy: any; [%s, [%sy = await0%d, ...%s], { q: [%s] = [1] }] = An%d; function await0%d() {}' % (v, v, v, v, j, v, v, d, j),
            'for (const { a: %s } of [obj%d.x]) { delete obj%d.x; }' % (v, d, d),
            'export const %s: boolean = !!obj%d.x.b === true;' % (v, d),
        ]))
    if rng.p(15):
        out.insert(rng.below(len(out)), 'const bad%d: number = "str";' % k)   # a type error
    return '\n'.join(out) + '\n'

def snippet(rng, rule=None):
    code, opt, tsx = rng.pick(CORPUS[rule or rng.pick(RULES)])
    return code + ('\nexport {};\n' if rng.p(85) else ''), bool(tsx)

def options_for(rng, rule):
    """Options a rule's own tests use (or none)."""
    opts = [o for _, o, _ in CORPUS[rule] if o is not None]
    return rng.pick(opts) if opts else None

def rule_entry(rng, rule, p=30):
    o = options_for(rng, rule) if rng.p(p) else None
    return {'name': rule} if o is None else {'name': rule, 'options': o}

def rule_list(rng, probes=(), kind=None):
    k = kind if kind is not None else rng.below(4)
    if k == 0: rs = list(RULES)
    elif k == 1: rs = rng.sample(RULES, rng.range(1, 6))
    elif k == 2: rs = rng.sample(RULES, rng.range(6, 30))
    else: rs = rng.shuffle(RULES)
    out = [rule_entry(rng, r) for r in rs]
    for p in probes:
        out.insert(rng.below(len(out) + 1), p if isinstance(p, dict) else {'name': p})
    return out

def compiler_options(rng):
    o = {'target': rng.pick(['esnext', 'es2022', 'es2017']), 'module': 'esnext', 'moduleResolution': 'bundler', 'strict': rng.p(85), 'jsx': 'preserve',
         'types': [], 'noEmit': True, 'skipLibCheck': True, 'allowImportingTsExtensions': True}
    if rng.p(60): o['lib'] = ['esnext'] if rng.p(70) else ['esnext', 'dom']
    if rng.p(15): o['noUncheckedIndexedAccess'] = True
    if o['strict'] and rng.p(15): o['exactOptionalPropertyTypes'] = True
    if rng.p(20): o['experimentalDecorators'] = True
    if rng.p(25): o['jsx'] = rng.pick(['react', 'react-jsx'])
    if rng.p(25): o['moduleDetection'] = rng.pick(['auto', 'force', 'legacy'])
    return o

def rel(frm, to):
    """Module specifier of file `to` as imported from file `frm` (absolute paths)."""
    r = os.path.relpath(to, os.path.dirname(frm))
    if not r.startswith('.'): r = './' + r
    for e in ('.d.ts', '.tsx', '.ts', '.mts'):
        if r.endswith(e):
            return r[:-len(e)]
    return r

# ------------------------------------------------------------------ worlds

def empty(kind):
    return {'kind': kind, 'files': {}, 'configs': [], 'syn': False, 'sem': False, 'fix': True, 'sugg': True, 'cwd': '/w'}

def w_corpus(rng, n=None):
    w = empty('corpus')
    w['files']['/w/tsconfig.json'] = t(json.dumps({'compilerOptions': compiler_options(rng)}))
    ts = []
    for i in range(n or rng.range(2, 24)):
        code, tsx = snippet(rng)
        p = '/w/src/%sf%d.%s' % (rng.pick(['', 'a/', 'a/b/', 'longer-directory-name/']), i, 'tsx' if tsx else 'ts')
        w['files'][p] = t(code); ts.append(p)
    return w, ts

def w_synth(rng, n=None):
    w = empty('synth')
    w['files']['/w/tsconfig.json'] = t(json.dumps({'compilerOptions': compiler_options(rng)}))
    ts = []
    for i in range(n or rng.range(2, 16)):
        p = '/w/src/%sm%d.ts' % (rng.pick(['', 'd/', 'e/x/']), i)
        deps = [(j, rel(p, ts[j])) for j in rng.sample(list(range(i)), rng.below(min(i, 3) + 1))]
        w['files'][p] = t(synth_module(rng, i, deps)); ts.append(p)
    return w, ts

def w_globals(rng, n=None):
    """Script files whose global declarations merge: the order of root files is observable."""
    w = empty('globals')
    if rng.p(50):
        w['files']['/w/tsconfig.json'] = t(json.dumps({'compilerOptions': compiler_options(rng)}))
    ts = []
    for i in range(n or rng.range(3, 10)):
        p = '/w/%ss%d.ts' % (rng.pick(['', 'b/', 'a/c/']), i)
        r = rng.pick(['number', 'Promise<string>', 'any', 'string | undefined', 'Promise<number> | null', 'void'])
        code = ['interface G { m(x: string): %s; p%d: %s }' % (r, i, r), 'declare function h(x: string): %s;' % r,
                'declare namespace N { function q(a: any): %s; let w%d: %s; }' % (r, i, r),
                'declare const g%d: G; async function t%d() { g%d.m(""); await g%d.m(""); h(""); if (h("")) {} return N.q(1) as number; }' % (i, i, i, i)]
        for j in range(rng.below(3)):
            d = rng.below(i + 1)
            code.append('g%d.p%d; const z%d_%d: string = g%d.m("k"); `${g%d.p%d}`;' % (d, d, i, j, d, d, d))
        w['files'][p] = t('\n'.join(code) + '\n'); ts.append(p)
    return w, ts

def w_multi(rng, n=None):
    """Several projects: own tsconfigs, cross-project imports, references, files that
    belong to two projects, files that belong to none."""
    w = empty('multi')
    ts = []; mods = []; refs = []
    np = n or rng.range(2, 5)
    ref_style = rng.below(3); links = rng.p(35)
    if links:   # a package manager's workspace: packages reach each other through links
        for q in range(np):
            w['files']['/w/node_modules/@s/p%d' % q] = {'link': rng.pick(['../../packages/p%d', '/w/packages/p%d']) % q}
            w['files']['/w/packages/p%d/package.json' % q] = t(json.dumps({'name': '@s/p%d' % q, 'version': '1.0.0', **rng.pick([{}, {'type': 'module'}])}))
    for q in range(np):
        d = '/w/packages/p%d' % q
        co = compiler_options(rng)
        cfg = {'compilerOptions': co, 'include': rng.pick([['src'], ['**/*'], ['src/**/*', 'test/*.ts']])}
        if ref_style == 1:
            co['composite'] = True; co['emitDeclarationOnly'] = True; co.pop('noEmit')
            if q and rng.p(60): cfg['references'] = [{'path': '../p%d' % rng.below(q)}]
            co.pop('allowImportingTsExtensions', None)
        w['files'][d + '/tsconfig.json'] = t(json.dumps(cfg))
        refs.append({'path': './packages/p%d' % q})
        for j in range(rng.range(1, 5)):
            i = len(mods)
            p = d + rng.pick(['/src/m%d.ts', '/src/x/m%d.ts']) % i
            pool = [x for x in range(i) if ref_style != 1 or mods[x][1] == q]
            deps = [(x, '@s/p%d' % mods[x][1] + mods[x][0][len('/w/packages/p%d' % mods[x][1]):-3] if links and mods[x][1] != q else rel(p, mods[x][0]))
                    for x in rng.sample(pool, rng.below(min(len(pool), 3) + 1))]
            w['files'][p] = t(synth_module(rng, i, deps, rng.range(2, 8)))
            mods.append((p, q)); ts.append(p)
        if rng.p(60):
            code, tsx = snippet(rng)
            p = d + '/src/c%d.%s' % (q, 'tsx' if tsx else 'ts'); w['files'][p] = t(code); ts.append(p)
    if ref_style == 2 or (ref_style == 1 and rng.p(50)):
        w['files']['/w/tsconfig.json'] = t(json.dumps({'files': [], 'references': refs}))
    for j in range(rng.below(4)):
        code, tsx = snippet(rng)
        p = '/w/loose/%sl%d.%s' % (rng.pick(['', 'k/']), j, 'tsx' if tsx else 'ts'); w['files'][p] = t(code); ts.append(p)
    return w, ts

def w_shared(rng, n=None):
    """Projects with different options that compile the same files: what a file means
    (module or script, which globals it sees, how strict) depends on the program."""
    w = empty('shared'); ts = []; sh = []
    for i in range(rng.range(2, 6)):
        p = '/w/shared/%ss%d.%s' % (rng.pick(['', 'k/']), i, rng.pick(['ts', 'ts', 'tsx']))
        r = rng.pick(['number', 'Promise<string>', 'string | undefined', 'any', 'Promise<number> | null'])
        code = ['interface Sh { m%d(x: string): %s; q%d: %s }' % (i, r, i, r), 'async function sh%d() { return 1; }' % i, 'declare const sv%d: Sh & { opt%d?: string };' % (i, i),
                'sh%d();' % i, 'sv%d.m%d("");' % (i, i), 'if (sv%d.opt%d) {} for (const k in sv%d) { (sv%d as any)[k]; }' % (i, i, i, i)]
        if p.endswith('x'): code.append('const el%d = (sv%d as any).el ? <div>{sh%d()}</div> : null;' % (i, i, i))
        if rng.p(20): code.append('export const sx%d = sv%d.q%d;' % (i, i, i))
        w['files'][p] = t('\n'.join(code) + '\n'); sh.append(p)
    refs = []
    for q in range(n or rng.range(2, 4)):
        d = '/w/p%d' % q; co = compiler_options(rng); co['moduleDetection'] = rng.pick(['auto', 'force', 'legacy']); co['jsx'] = rng.pick(['preserve', 'react', 'react-jsx'])
        w['files'][d + '/tsconfig.json'] = t(json.dumps({'compilerOptions': co, 'include': ['src', '../shared']})); refs.append({'path': './p%d' % q})
        if rng.p(40): w['files'][d + '/src/glob.d.ts'] = t(rng.pick(['interface Sh { extra: number }', 'interface String { zz(): Promise<void> }', 'declare namespace JSX { interface IntrinsicElements { div: any } }', 'declare function sh0(): void;']) + '\n')
        for j in range(rng.range(1, 3)):
            p = d + '/src/u%d_%d.ts' % (q, j); code = []
            for i in rng.sample(list(range(len(sh))), rng.range(1, len(sh))):
                code += rng.sample(['sh%d();' % i, 'const c%d_%d_%d: string = sv%d.m%d("x");' % (q, j, i, i, i), 'async function f%d_%d_%d() { await sh%d(); await sv%d.q%d; return sv%d; }' % (q, j, i, i, i, i, i), '`${sv%d.q%d}${sv%d}`;' % (i, i, i), 'if (sv%d.q%d) {}' % (i, i), '"".zz();'], rng.range(2, 5))
            if rng.p(30): code.append('export {};')
            w['files'][p] = t('\n'.join(code) + '\n'); ts.append(p)
    if rng.p(40):
        w['files']['/w/tsconfig.json'] = t(json.dumps({'files': [], 'references': rng.shuffle(refs)})); ts += sh
    return w, ts

def w_many(rng, n=None):
    """More files, or more projects, than any buffer between the stages holds."""
    w = empty('many'); w['budget'] = 300_000_000; ts = []; n = n or rng.pick([300, 1200, 2600, 4200, 5200]) + rng.below(300); k = rng.pick([0, 1, 1, 7, 60]); k = min(k, n)
    for q in range(k): w['files']['/w/%stsconfig.json' % ('' if k == 1 else 'p%d/' % q)] = t(json.dumps({'compilerOptions': {'types': [], 'noEmit': True, 'noLib': k > 7}}))
    for i in range(n):
        p = '/w/p%d/d%d/f%d.ts' % (i % max(k, 3), i % 20, i)
        w['files'][p] = t(rng.pick(['export const a%d = 1;', 'export const a%d = "x"; a%d;', 'export {}; /* %d */']).replace('%d', str(i)) + '\n'); ts.append(p)
    return w, ts

WEIRD = ["type R{i} = { a: R{i}; b: R{j} | null } & R{j};", "type L{i}<T> = T | L{i}<T>[]; declare const l{i}: L{i}<string>; l{i} as L{j}<any>; `${{l{i}}}`;", "interface X{i} extends X{j} {{ x: X{i}; }} declare const xx{i}: X{i}; xx{i}.x.x.x; delete xx{i}.x;",
  "class A{i} extends B{i} {{}} class B{i} extends A{i} {{}} new A{i}().foo; throw new B{i}();", "const c{i} = () => c{j}(); const d{i} = c{i}() + d{i}; c{i}(); if (c{i}) {{}} void c{i}();", "let v{i} = v{j}; v{i} = v{i}; if (v{i} === v{j}) {{}} v{i}[v{j}] = v{i} as typeof v{j};",
  "type Q{i} = Q{i}; declare const q{i}: Q{i}; q{i}!; q{i}.foo; q{i} ?? q{j}; switch (q{i}) {{ case q{j}: }} const {{ ...r{i} }} = q{i};", "enum E{i} {{ A = B, B = A, C = E{j}.A, D = 'x'.length }} if (E{i}.A === E{j}.B) {{}} switch (E{i}.C as E{i}) {{ case E{j}.A: }}",
  "namespace N{i} {{ export import M = N{j}; export {{ Zed }}; export type T = N{i}.M.T; }} N{i}.M.M.M; type NT{i} = N{i}.T;", "import al{i} = al{j}; al{i}; al{i}.foo(); type AL{i} = al{i}.T;", "export {{ x{i} }} from './m{j}'; export * from './m{j}'; export * as ns{i} from './m{i}';",
  "import {{ x{j}, y{j} as z{i} }} from './m{j}'; x{j}; z{i}(); new z{i}(x{j}); export {{ z{i} as y{i} }};", "import type {{ T{j} }} from './m{j}'; export type T{i} = T{j}; declare const tt{i}: T{i}; tt{i}.foo; tt{i}!; [tt{i}].find(x => x)",
  "import df{i} from './m{j}'; export default df{i}; df{i}(df{i}); df{i}.then(); export {{ default as df{i}x }} from './m{j}';", "type F{i}<T> = T extends F{i}<infer U> ? U : F{j}<T>; declare const f{i}: F{i}<F{i}<string>>; f{i}; async function ff{i}() {{ await f{i}; return f{i}; }}",
  "type Big{i} = `${{D{i}}}${{D{i}}}${{D{i}}}`; type D{i} = 0|1|2|3|4|5|6|7|8|9; declare const big{i}: Big{i}; switch (big{i}) {{}} if (big{i} === '000') {{}}", "function rec{i}<T extends {{ x: T }}>(x: T): T {{ return rec{i}(x.x); }} rec{i}(null as any); rec{i}(rec{j} as never);",
  "const {{ a{i} = a{i}, ...b{i} }} = b{i}; [a{i}, b{i}] = [b{i}, a{i}]; for (const a{i}x of a{i}x) {{ a{i}x; }}", "class G{i}<T = G{i}> {{ #p = this.#p; get v(): typeof this.v {{ return this.v; }} set v(x) {{ this.v = x; }} m(): this {{ return this.m(); }} static s = G{j}.s; }} new G{i}().m; G{i}.s; const {{ m: gm{i} }} = new G{i}();",
  "interface Th{i} {{ then(cb: (x: Th{i}) => void): void }} declare const th{i}: Th{i}; th{i}; async function at{i}() {{ return th{i}; await th{i}; }} Promise.all([th{i}]); if (th{i}) {{}} [1].forEach(async () => th{i});", "declare const o{i}: {{ [k: string]: typeof o{j} }}; o{i}.a?.b?.c ?? o{i}.a; o{i} && o{i}.a && o{i}.a.b; `${{o{i}}}` + o{i}; o{i}.toString();",
  "function ov{i}(x: string): ov{j}; function ov{i}(x: number): typeof ov{i}; function ov{i}(x: any) {{ return ov{i}; }} ov{i}(1)(2)('x'); ov{i};", "let u{i}: undefined | void | never | null | any; u{i}; u{i}!; u{i}?.x; if (u{i}) {{}} for (const k in u{i}) {{}} u{i}(); -u{i}; throw u{i}; ({{ ...u{i} }}); [...u{i}];",
  "abstract class Ab{i} {{ abstract get g(): Promise<this>; declare private readonly x: Ab{j}; constructor(private y = new.target) {{ this.x; }} }} Ab{i}.prototype.g; new (Ab{i} as any)();", "@de{i} class De{i} {{ @de{i}() m(@de{i} x: De{i}) {{}} @de{i} accessor a = 1; }} function de{i}(...a: any): any {{}}",
  "label{i}: for (;;) {{ try {{ continue label{i}; }} catch {{ break label{i}; }} finally {{ await Promise.reject({i}); }} }}", "function* gen{i}() {{ const x = yield* gen{j}(); return yield x; }} for (const g of gen{i}()) {{}} async function* ag{i}() {{ yield ag{i}(); for await (const x of ag{j}()) {{}} }} ag{i}();",
  "type M{i} = {{ [K in keyof M{j}]: M{i}[K] }}; declare const mm{i}: M{i}; mm{i}['x']; Object.keys(mm{i}).sort(); [mm{i}].sort(); [mm{i}].join(); delete [mm{i}][0];", "const big{i}n = 10n ** 100n; +big{i}n; -big{i}n; `${{big{i}n}}`; big{i}n + 1; Number(big{i}n); String(String(big{i}n)); !!big{i}n;",
  "const s{i} = Symbol(); const so{i} = {{ [s{i}]: so{j} as any, get x() {{ return so{i}; }}, set x(v) {{ }}, async *[Symbol.iterator]() {{}} }}; so{i}[s{i}]; for (const x of so{i}) {{}} `${{s{i}}}`;", "declare module './m{j}' {{ interface Aug{i} {{ x: number }} const x{i}a: Aug{i}; }} declare global {{ var gl{i}: typeof gl{j}; interface Window {{ w{i}: Window }} }} gl{i}; gl{j}.foo;",
  "new Promise((r{i}, j{i}) => {{ j{i}(r{i}); j{i}(); j{i}(new Error); }}).catch(e => e.x).then(x => x, (e, ...r) => e).finally(async () => {{}});", "const re{i} = /(?<x>{i})/g; 'x'.match(re{i}); 'x'.match('['); 'x'.match(new RegExp('(' + {i})); /^a/.test('x'); 'x'.indexOf('y') == -1; 'x'[0] === 'y'; 'x'.charAt(0) == 'z';",
  "(function () {{ return arguments; }})(); (() => this)(); (async () => {{}})(); (async () => {{}})`x`; super.x; import.meta.x; import('./m{j}').then(m => m.default); new.target; yield{i}: {{}}", "declare let un{i}: unique symbol; let tu{i}: [a: 1, b?: 2, ...c: tu{j}[]]; type tu{i} = typeof tu{i}; tu{i}[0]; tu{i}.length === 0; const [p{i}, , q{i}x = 1] = tu{i};"]

def weird_module(rng, i, n):
    out = []
    for _ in range(rng.range(1, 9)):
        k = rng.pick(WEIRD)
        k = k.replace('{{', '\x01').replace('}}', '\x02').replace('{i}', str(i)).replace('{j}', str(rng.below(n))).replace('\x01', '{').replace('\x02', '}')
        out.append(k)
    if rng.p(30): out.append(snippet(rng)[0])
    if rng.p(40): out.append('export {};')
    return rng.pick(['\n', '\n', '\n\n', ' ']).join(rng.shuffle(out)) + '\n'

def w_weird(rng, n=None):
    """Programs that make no sense: circular types, aliases, imports and initializers."""
    w = empty('weird'); ts = []
    co = compiler_options(rng); co['noLib'] = rng.p(8); co['isolatedModules'] = rng.p(10); co['allowJs'] = rng.p(15)
    if rng.p(80): w['files']['/w/tsconfig.json'] = t(json.dumps({'compilerOptions': co}))
    n = n or rng.range(2, 9)
    for i in range(n):
        p = '/w/m%d.%s' % (i, rng.pick(['ts', 'ts', 'ts', 'tsx', 'mts', 'd.ts', 'js' if co['allowJs'] else 'ts'])); w['files'][p] = t(weird_module(rng, i, n)); ts.append(p)
    return w, ts

# What `Thing`, `x` and `fn` are: the same names for things that are used in the same ways
# but mean something else.
MEANINGS = ['class Thing { a = 1; m() { return this; } get g() { return 1; } }', 'class Thing { a = 1; then(f: (v: number) => void, r: (e: any) => void): void {} m() {} }', 'class Thing extends Promise<number> { a = 1; m() { return this; } }',
  'class Thing extends Error { a = 1; static m() {} m = () => {} }', 'class Thing { private a = 1; toString() { return "t"; } m(this: void) {} }', 'class Thing extends Array<number> { a?: number; async m() {} }',
  'interface Thing { a: number | null; m(): Promise<void>; [k: string]: any }', 'interface Thing { readonly a: "k"; /** @deprecated */ m(): void }', 'interface Thing { a: boolean; m(): void; [Symbol.iterator](): Iterator<number> }',
  'type Thing = any', 'type Thing = unknown', 'type Thing = never', 'type Thing = string', 'type Thing = number | undefined', 'type Thing = Promise<string> | null', 'type Thing = "a" | "b"', 'type Thing = { a: any; m: () => any }', 'type Thing = void', 'type Thing = bigint', 'type Thing = boolean',
  'type Thing = (() => void) & { a: number }', 'type Thing = (new () => object) | string[]', 'enum Thing { a, b = 2 }', 'enum Thing { a = "x", b = "y" }', 'const enum Thing { a = 1, b = "b" }', 'type Thing = RegExp', 'type Thing = readonly string[]', 'type Thing = Map<string, number>', 'type Thing = [string, number?]', 'type Thing = object', 'type Thing = Missing',
  '/** @deprecated gone */ type Thing = { a: 1; m(): 2 }', 'interface Thing { a: Thing; m(): Thing; then?: undefined }', 'type Thing<T = string> = T | { a: T; m: T }']
USES = ['x;', 'fn();', 'async function u1() { await x; await fn(); return x; }', 'if (x) {} if (!fn()) {} x ? 1 : 2;', '`${x}`; "" + x; String(x); x.toString();', 'x.a; x.m; x.m(); const m = x.m; m;', 'x["a"]; x["m"]();', 'throw x;', 'for (const k in x) { k; } for (const k of x) { k; } for await (const k of x) { k; }',
  'switch (x) { case null as any: break; }', 'x as Thing; x!; x as any; <string>x; (x as unknown) as string;', 'function u2(): Thing { return x; } function u3(): any { return x; } const u4: Thing = fn();', 'x === fn(); x == x; x > x; x + x; -x; x ?? x; x || 1; x && x.a; x && x.a && x.a.b; x!.a;',
  'new x(); new Thing(); x(); x`q`;', 'Promise.all([x, fn()]); Promise.reject(x); Promise.resolve(x).catch(e => e.a);', '[x].find(v => v); [x].filter(v => v)[0]; [x].sort(); [x].join(); [x].includes(x); [x, fn()].map(async v => v);', 'const u5 = { ...x }; const u6 = [...x]; const { a } = x; a;', 'delete x[0]; delete x.a; x[0]; x.length === 0; x[x.length - 1];',
  'fn(x); u7(x); function u7(p: Thing, q: Thing | null = x) { return p === q; }', 'class U8 { private t: Thing = x; private n = fn(); get() { return [this.t, this.n]; } async s() { return fn(); } }', 'type U9 = Thing | string; type U10 = Thing & {}; type U11 = Thing | any; type U12 = Thing[keyof Thing];', '[1].forEach(async () => fn()); [1].forEach(fn); setTimeout(fn, 1); x.then(fn); x.catch(fn);',
  'void x; void fn(); typeof x; x instanceof Error; x in {};', 'function u13<T extends Thing>(p: T, ...r: Thing[]) { return r; } u13<Thing>(x); u13(x, x);', 'const u14 = x === true; if (x === undefined) {} if (x.a === true) {} if (typeof x === "string") {}', 'x.match(/a/); x.indexOf("a") !== -1; x.charAt(0) === "a"; x.startsWith("a"); /a/.test(x); x.reduce((p, c) => p, x as Thing);', 'Thing.a; Thing.b === 2; x === Thing.a; x === 1; x === "x"; switch (x) { case Thing.a: }', 'let u15: Thing | undefined; u15 = x; u15 ??= fn(); const u16 = u15?.a ?? u15; u16;']

def w_twins(rng, n=None):
    """Files that look alike, down to the last byte some of them, and mean different things."""
    w = empty('twins'); ts = []; n = n or rng.range(4, 20); few = rng.sample(MEANINGS, rng.range(2, 5)) if rng.p(60) else MEANINGS
    if rng.p(85): w['files']['/w/tsconfig.json'] = t(json.dumps({'compilerOptions': compiler_options(rng)}))
    shapes = ['\n'.join(rng.sample(USES, rng.range(3, 12))) + '\n' for _ in range(rng.range(1, 3))]
    fn = rng.pick(['declare function fn(...p: any): Thing;', 'declare function fn(p?: Thing): Thing; declare namespace fn { const a: Thing }', 'declare const fn: (p: string) => Thing;'])
    for i in range(n):
        d = '/w/d%02d/' % i; mean = rng.pick(few); style = rng.below(3) if rng.p(30) else i % 3
        ex = mean.replace('/** @deprecated gone */ ', '/** @deprecated gone */ export ') if mean.startswith('/**') else 'export ' + mean
        if style == 0:
            w['files'][d + 'decl.ts'] = t(ex + ';\nexport declare const x: Thing;\n' + ''.join('export ' + l + '\n' for l in fn.replace('; declare namespace', ';\ndeclare namespace').split('\n'))); ts.append(d + 'decl.ts')
            w['files'][d + 'use.ts'] = t("import { Thing, x, fn } from './decl';\n" + rng.pick(shapes)); ts.append(d + 'use.ts')
        else:
            w['files'][d + 'use.ts'] = t((ex if style == 1 else mean).ljust(110) + '\ndeclare const x: Thing; ' + fn + '\n' + rng.pick(shapes) + 'export {};\n'); ts.append(d + 'use.ts')
    return w, ts

def w_loose(rng, n=None):
    """No tsconfig at all: everything goes to the inferred program."""
    w = empty('loose'); ts = []
    for i in range(n or rng.range(2, 12)):
        if rng.p(50):
            code, tsx = snippet(rng)
            p = '/w/%sf%d.%s' % (rng.pick(['', 'q/', 'r/s/']), i, 'tsx' if tsx else rng.pick(['ts', 'ts', 'mts', 'js']))
        else:
            p = '/w/%sf%d.ts' % (rng.pick(['', 'q/']), i)
            code = synth_module(rng, i, [])
        w['files'][p] = t(code); ts.append(p)
    return w, ts

def w_big(rng, n=None):
    """More diagnostics than the 4096-slot channel and the output buffer hold."""
    w = empty('big')
    w['files']['/w/tsconfig.json'] = t(json.dumps({'compilerOptions': compiler_options(rng)}))
    ts = []
    for i in range(n or rng.range(1, 4)):
        p = '/w/src/b%d.ts' % i
        w['files'][p] = t('\n'.join('export const b%d_%d = %d;' % (i, j, j) for j in range(rng.range(200, 2600)))); ts.append(p)
    return w, ts

GENS = {'corpus': w_corpus, 'synth': w_synth, 'globals': w_globals, 'multi': w_multi, 'loose': w_loose, 'big': w_big, 'shared': w_shared, 'many': w_many, 'weird': w_weird, 'twins': w_twins}

RESTYLE = [
    lambda r, c: re.sub(r'\s*\n\s*', ' ', re.sub(r'//.*', '', c)),
    lambda r, c: re.sub(' ', lambda m: r.pick([' ', ' /*c*/ ', '/*c*/', '  ', '/*>,)]}=*/']), c),
    lambda r, c: re.sub(r'(?<=[(){}\[\];,.=<>&|?:!])|(?=[(){}\[\];,.=<>&|?:!])', lambda m: r.pick(['', '', '', ' ', ' /*c*/', '/*(<[{.?!;*/']), c),
    lambda r, c: c.replace('\n', '\r\n'),
    lambda r, c: re.sub(' +', lambda m: r.pick([' ', ' ', '\n', '\n  // c\n']), c),
    lambda r, c: c.replace(';', ''),
    lambda r, c: re.sub(r'(\w+\([^()]*\))', lambda m: r.pick([m.group(1), '(' + m.group(1) + ')']), c),
    lambda r, c: re.sub(r'(?m)^(\s*)((?!const|let|var|class|function|async function|interface|type|enum|declare|namespace|export|import|return|abstract|case|default)[\w(\[`!+-].*;)\s*$',
                        lambda m: m.group(1) + r.pick(['if (1) ', 'if (1) ', 'if (1); else ', 'for (;;) ', 'while (1) ', 'a: ', '']) + m.group(2), c),
    lambda r, c: re.sub(r'(?<!\w) +| +(?!\w)', '', c),
    lambda r, c: re.sub(r'\b(\w+)\b(?=\s*(===|!==|==|!=|\?\?|&&|\|\||\?|\+))', lambda m: r.pick([m.group(1), '(' + m.group(1) + ')', '((' + m.group(1) + '))']), c),
    lambda r, c: re.sub(r'\n', lambda m: r.pick(['\n', ' // c\n', '\n;[1];\n', '\n`x`\n', '\n(0)\n', '\n/x/\n', '\n+1\n']), c.replace(';', '')),
]

def restyle(rng, w, ts):
    """The same files as somebody else would have written them, or something like it."""
    for p in ts:
        if rng.p(70) and 't' in w['files'][p]: w['files'][p] = t(rng.pick(RESTYLE)(rng, w['files'][p]['t']))

def javascript(w):
    """The same files as JavaScript; most remain valid, some do not."""
    o = json.loads(w['files']['/w/tsconfig.json']['t']); o['compilerOptions'].update(allowJs=True, checkJs=True)
    w['files']['/w/tsconfig.json'] = t(json.dumps(o))
    def js(p): return re.sub(r'\.ts(x?)$', r'.js\1', p)
    w['files'] = {js(p): v for p, v in w['files'].items()}
    for c in w['configs']: c[0] = [js(p) for p in c[0]]

def world(rng, kinds, n=None):
    k = rng.pick(kinds)
    w, ts = GENS[k](rng, n)
    return w, ts

def split_configs(rng, targets, mk, k=None):
    """Partition the request into 1..k configs, each with its own rule list."""
    k = k or rng.pick([1, 1, 2, 3])
    parts = [[] for _ in range(k)]
    for p in rng.shuffle(targets):
        parts[rng.below(k)].append(p)
    return [[p, mk(i)] for i, p in enumerate(parts) if p or rng.p(20)]

def request(rng, w, targets, probes=('vsim-probe-run',), kind=None, k=None):
    tg = targets if rng.p(60) else [x for x in targets if rng.p(70)] or targets
    w['configs'] = split_configs(rng, tg, lambda i: rule_list(rng, probes, kind), k)
    return w

def targets_of(spec):
    """Requested files in request order, last configuration winning."""
    out = {}
    for paths, rules in spec['configs']:
        for p in paths:
            out[p] = rules
    return out
