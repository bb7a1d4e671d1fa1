"""Reference model of tsconfig resolution: which program lints a file, computed from the
file tree alone. Written from the documented algorithm (nearest tsconfig.json/jsconfig.json
containing the file, then its project references breadth-first, then the next config
further up), restricted to the vocabulary the generator uses."""
import json, posixpath, re

TS = ('.ts', '.tsx', '.mts', '.cts')
JS = ('.js', '.jsx', '.mjs', '.cjs')

class Tree:
    def __init__(self, files, ci=False):
        self.ci = ci
        self.names = {self.key(p): p for p, f in files.items() if not f.get('dir')}
        self.files = files
        self.cache = {}
    def key(self, p): return p.lower() if self.ci else p
    def exists(self, p): return self.key(p) in self.names
    def config(self, p):
        """Parsed config or None when it cannot be read."""
        k = self.key(p)
        if k not in self.cache:
            c = self.cache[k] = self.load(p, 0) if self.exists(p) else None
            if c:
                for w in ('files', 'include', 'exclude'):
                    if c[w] is not None: c[w] = [posixpath.normpath(x.replace('${configDir}', c['dir'])) if w == 'files' else x.replace('${configDir}', c['dir']) for x in c[w]]
        return self.cache[k]
    def base(self, d, e):
        """The file an `extends` entry of a config in directory d means."""
        if e.startswith(('.', '/')):
            p = posixpath.normpath(posixpath.join(d, e))
            return p if self.exists(p) or p.endswith('.json') else p + '.json'
        for a in ancestors(d):
            p = posixpath.join(a, 'node_modules', e)
            for q in (p, p + '.json', p + '/tsconfig.json'):
                if self.exists(q): return q
        return None
    def load(self, p, depth):
        raw = json.loads(self.files[self.names[self.key(p)]]['t'])
        d = posixpath.dirname(p)
        c = {'options': {}, 'files': None, 'include': None, 'exclude': None, 'refs': []}
        ext = raw.get('extends')
        for e in ([] if ext is None else ext if isinstance(ext, list) else [ext]):
            b = self.load(self.base(d, e), depth + 1)
            c['options'].update(b['options'])
            for k in ('files', 'include', 'exclude'):
                if b[k] is not None: c[k] = b[k]
        c['options'].update(raw.get('compilerOptions', {}))
        for k in ('files', 'include', 'exclude'):
            if k in raw: c[k] = [x if x.startswith('${configDir}') else posixpath.normpath(posixpath.join(d, x)) if k == 'files' else posixpath.join(d, x) for x in raw[k]]
        c['refs'] = [posixpath.normpath(posixpath.join(d, r['path'])) for r in raw.get('references', [])]
        c['refs'] = [r if r.endswith('.json') else r + '/tsconfig.json' for r in c['refs']]
        if posixpath.basename(p) == 'jsconfig.json': c['options'].setdefault('allowJs', True)
        c['dir'] = d
        return c
    def filenames(self, p):
        c = self.config(p)
        if 'names' in c: return c['names']
        exts = TS + (JS if c['options'].get('allowJs') else ())
        out = [f for f in c['files'] or []]
        inc = c['include']
        if inc is None and c['files'] is None: inc = [c['dir'] + '/**/*']
        exc = c['exclude']
        if exc is None: exc = [c['dir'] + '/' + x for x in ('node_modules', 'bower_components', 'jspm_packages')]
        inc_re = [pattern(x, self.ci) for x in inc or []]
        exc_re = [pattern(x, self.ci, True) for x in exc]
        for f in sorted(self.names.values()):
            if not f.endswith(exts): continue
            if not any(r.match(f) for r in inc_re) or any(r.match(f) for r in exc_re): continue
            if f.endswith(JS) and any(self.exists(f[:f.rindex('.')] + e) and f[:f.rindex('.')] + e in self.matched(inc_re, exc_re) for e in ('.ts', '.tsx', '.d.ts')): continue
            if f.endswith('.tsx') and f[:-1] in self.matched(inc_re, exc_re): continue
            out.append(f)
        c['names'] = set(self.key(x) for x in out)
        return c['names']
    def matched(self, inc, exc):
        return set(f for f in self.names.values() if any(r.match(f) for r in inc) and not any(r.match(f) for r in exc))

def pattern(spec, ci, exclude=False):
    """Regular expression for an include or exclude entry. Vocabulary: plain directory or
    file, '*' inside a segment, '**' as a segment."""
    spec = posixpath.normpath(spec)
    segs = [s for s in spec.split('/') if s]
    if not exclude and not any(ch in segs[-1] for ch in '*?.'):
        segs += ['**', '*']
    r = ''
    for i, s in enumerate(segs):
        if s == '**':
            r += r'(?:/[^/]+)*?' if exclude else r'(?:/(?!(?:node_modules|bower_components|jspm_packages)(?:/|$))[^/.][^/]*)*?'
        else:
            seg = re.escape(s).replace(r'\*', '[^/]*')
            if s.startswith('*') and not exclude:
                seg = r'(?![.])' + (r'(?!(?:node_modules|bower_components|jspm_packages)(?:/|$))' if i + 1 < len(segs) else '') + seg
            r += '/' + seg
    if exclude: return re.compile('^' + r + r'(?:$|/)', re.I if ci else 0)
    return re.compile('^' + r + '$', re.I if ci else 0)

def ancestors(d):
    while True:
        yield d
        if d == '/': return
        d = posixpath.dirname(d)

def nearest(tree, f, skip=False):
    """Config file governing f's directory; skip: start above, as when climbing from config f."""
    base = posixpath.basename(f); first = True
    for d in ancestors(posixpath.dirname(f)):
        s = skip and first; first = False
        j = (d if d != '/' else '') + '/'
        if not s and tree.exists(j + 'tsconfig.json'): return j + 'tsconfig.json'
        if not (s and base != 'tsconfig.json') and tree.exists(j + 'jsconfig.json'): return j + 'jsconfig.json'
        if d.endswith('/node_modules'): return None
    return None

def resolve(tree, f):
    """Config path, or '' for the inferred program."""
    c = nearest(tree, f); visited = set(); fallback = None
    while c:
        level = [c]
        while level:
            nxt = []
            for n in level:
                if tree.key(n) in visited: continue
                visited.add(tree.key(n))
                cfg = tree.config(n)
                if cfg is None: continue
                if tree.key(f) in tree.filenames(n): return n
                for r in cfg['refs']:
                    if r not in nxt: nxt.append(r)
            level = nxt
        c = nearest(tree, c, True)
    return ''
