#!/usr/bin/env python3
"""Builds the simulated tsgolint from /repo's working tree.

Real code: everything of /repo (cmd/tsgolint, internal/...), typescript-go at the
pinned commit with /repo/patches applied, and the Go runtime and standard library.
Seams: runtime scheduler/PRNG/clock, os file system and std streams (overlay files
in goroot/), harness added to package main (harness/), VSimPoint instrumentation.
Nothing is written to /repo. Prints the path of the binary.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(os.path.dirname(HERE), '.work'))
GOROOT = '/opt/veriftools/go1.26.10'
TSGO = 'github.com/microsoft/typescript-go'

class BuildError(Exception):
    pass

def log(*a):
    print('[build]', *a, file=sys.stderr, flush=True)

def read(p):
    with open(p, encoding='utf-8') as f:
        return f.read()

def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and read(p) == s:
        return
    with open(p, 'w', encoding='utf-8') as f:
        f.write(s)

def sub1(s, old, new, count=1):
    n = s.count(old)
    if n != count:
        raise BuildError('anchor %r found %d times (want %d)' % (old[:80], n, count))
    return s.replace(old, new)

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s failed (%d):\n%s' % (' '.join(cmd)[:200], r.returncode, r.stdout[-8000:]))
    return r.stdout

# ---------------------------------------------------------------- GOROOT overlay

def goroot_overlay(out):
    rep = {}
    src = GOROOT + '/src/'
    def patched(rel, edits):
        s = read(src + rel)
        for e in edits:
            s = sub1(s, *e)
        p = os.path.join(out, rel.replace('/', '__'))
        write(p, s)
        rep[src + rel] = p
    def added(rel, frm):
        rep[src + rel] = os.path.join(HERE, 'goroot', frm)

    added('runtime/zz_vsim.go', 'runtime_vsim.go')
    patched('runtime/proc.go', [
        ('const haveSysmon = GOARCH != "wasm"', 'const haveSysmon = false'),
        ('\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {\n',
         '\tif vsim.on {\n\t\tif gp := vsimPick(pp); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n'
         '\t\tif vsimIdle(pp) {\n\t\t\tgoto top\n\t\t}\n\t}\n\n'
         '\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {\n'),
        ('\tif pp.schedtick%61 == 0 && !sched.runq.empty() {\n', '\tif !vsim.on && pp.schedtick%61 == 0 && !sched.runq.empty() {\n'),
    ])
    patched('runtime/rand.go', [
        ('\tseed := &globalRand.seed\n\tif len(startupRand) >= 16 &&',
         '\tseed := &globalRand.seed\n\tfor i := range startupRand {\n\t\tstartupRand[i] = byte(i + 1)\n\t}\n\tif len(startupRand) >= 16 &&'),
        ('func rand() uint64 {\n', 'func rand() uint64 {\n\tif vsim.on {\n\t\treturn vsimRand()\n\t}\n'),
    ])
    patched('runtime/select.go', [
        ('j := cheaprandn(uint32(norder + 1))', 'j := vsimSelectn(uint32(norder + 1))'),
    ])
    patched('runtime/sema.go', [
        ('func internal_sync_nanotime() int64 {\n\treturn nanotime()', 'func internal_sync_nanotime() int64 {\n\treturn vsimNanotime()'),
    ])
    s = read(src + 'runtime/time.go')
    s = re.sub(r'(?<![\w.])nanotime\(\)(?!\s*-\s*t\.when)', 'vsimNanotime()', s)
    p = os.path.join(out, 'runtime__time.go'); write(p, s); rep[src + 'runtime/time.go'] = p
    patched('runtime/malloc.go', [
        ('func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n',
         'func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n\tif vsim.on {\n\t\tvsimMalloc()\n\t}\n'),
    ])
    patched('runtime/debug.go', [
        ('func GOMAXPROCS(n int) int {\n',
         'func GOMAXPROCS(n int) int {\n\tif vsim.on {\n\t\tr := vsim.cfg.NumCPU\n\t\tif n > 0 {\n\t\t\tvsim.cfg.NumCPU = n\n\t\t}\n\t\treturn r\n\t}\n'),
        ('func NumCPU() int {\n', 'func NumCPU() int {\n\tif vsim.on {\n\t\treturn vsim.cfg.NumCPU\n\t}\n'),
    ])
    patched('time/time.go', [
        ('func now() (sec int64, nsec int32, mono int64)\n',
         'func now() (sec int64, nsec int32, mono int64)\n\nfunc vsimNow() (sec int64, nsec int32, mono int64, ok bool)\n\nfunc vsimNano() (int64, bool)\n\n'
         'func nowSim() (sec int64, nsec int32, mono int64) {\n\tif s, n, m, ok := vsimNow(); ok {\n\t\treturn s, n, m\n\t}\n\treturn now()\n}\n\n'
         'func nanoSim() int64 {\n\tif m, ok := vsimNano(); ok {\n\t\treturn m\n\t}\n\treturn runtimeNano()\n}\n'),
    ])
    p = rep[src + 'time/time.go']; s = read(p)
    s = sub1(s, 'sec, nsec, mono := runtimeNow()', 'sec, nsec, mono := nowSim()')
    s = sub1(s, 'subMono(runtimeNano()-startNano, t.ext)', 'subMono(nanoSim()-startNano, t.ext)')
    s = sub1(s, 'subMono(t.ext, runtimeNano()-startNano)', 'subMono(t.ext, nanoSim()-startNano)')
    write(p, s)

    added('os/zz_vsim.go', 'os_vsim.go')
    patched('os/file_unix.go', [
        ('\tpfd         poll.FD\n', '\tvsim        *VSimStream\n\tpfd         poll.FD\n'),
        ('func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n',
         'func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n\tif VSim != nil {\n\t\treturn VSim.open(name, flag)\n\t}\n'),
        ('func openDirNolog(name string) (*File, error) {\n',
         'func openDirNolog(name string) (*File, error) {\n\tif VSim != nil {\n\t\treturn VSim.open(name, O_RDONLY)\n\t}\n'),
        ('func (file *file) close() error {\n\tif file == nil {\n\t\treturn syscall.EINVAL\n\t}\n',
         'func (file *file) close() error {\n\tif file == nil {\n\t\treturn syscall.EINVAL\n\t}\n\tif file.vsim != nil {\n\t\treturn file.vsim.close()\n\t}\n'),
        ('func rename(oldname, newname string) error {\n', 'func rename(oldname, newname string) error {\n\tif VSim != nil {\n\t\treturn VSim.change("rename", oldname, newname)\n\t}\n'),
        ('func Truncate(name string, size int64) error {\n', 'func Truncate(name string, size int64) error {\n\tif VSim != nil {\n\t\treturn VSim.change("truncate", name, "")\n\t}\n'),
        ('func Remove(name string) error {\n', 'func Remove(name string) error {\n\tif VSim != nil {\n\t\treturn VSim.change("remove", name, "")\n\t}\n'),
        ('func Link(oldname, newname string) error {\n', 'func Link(oldname, newname string) error {\n\tif VSim != nil {\n\t\treturn VSim.change("link", oldname, newname)\n\t}\n'),
        ('func Symlink(oldname, newname string) error {\n', 'func Symlink(oldname, newname string) error {\n\tif VSim != nil {\n\t\treturn VSim.change("symlink", newname, oldname)\n\t}\n'),
        ('func readlink(name string) (string, error) {\n', 'func readlink(name string) (string, error) {\n\tif VSim != nil {\n\t\treturn VSim.readlink(name)\n\t}\n'),
    ])
    patched('os/file.go', [
        ('func Mkdir(name string, perm FileMode) error {\n', 'func Mkdir(name string, perm FileMode) error {\n\tif VSim != nil {\n\t\treturn VSim.change("mkdir", name, "")\n\t}\n'),
        
    ])
    patched('os/removeall_at.go', [
        ('func removeAll(path string) error {\n', 'func removeAll(path string) error {\n\tif VSim != nil {\n\t\treturn VSim.change("removeall", path, "")\n\t}\n'),
        
    ])
    patched('os/file_posix.go', [
        ('func chmod(name string, mode FileMode) error {\n', 'func chmod(name string, mode FileMode) error {\n\tif VSim != nil {\n\t\treturn VSim.change("chmod", name, "")\n\t}\n'),
        ('func Chown(name string, uid, gid int) error {\n', 'func Chown(name string, uid, gid int) error {\n\tif VSim != nil {\n\t\treturn VSim.change("chown", name, "")\n\t}\n'),
        ('func Lchown(name string, uid, gid int) error {\n', 'func Lchown(name string, uid, gid int) error {\n\tif VSim != nil {\n\t\treturn VSim.change("lchown", name, "")\n\t}\n'),
        ('func Chtimes(name string, atime time.Time, mtime time.Time) error {\n', 'func Chtimes(name string, atime time.Time, mtime time.Time) error {\n\tif VSim != nil {\n\t\treturn VSim.change("chtimes", name, "")\n\t}\n'),
        ('\tn, err = f.pfd.Read(b)\n', '\tif f.vsim != nil {\n\t\treturn f.vsim.read(b)\n\t}\n\tn, err = f.pfd.Read(b)\n'),
        ('\tn, err = f.pfd.Write(b)\n', '\tif f.vsim != nil {\n\t\treturn f.vsim.write(b)\n\t}\n\tn, err = f.pfd.Write(b)\n'),
    ])
    patched('os/stat_unix.go', [
        ('func statNolog(name string) (FileInfo, error) {\n', 'func statNolog(name string) (FileInfo, error) {\n\tif VSim != nil {\n\t\treturn VSim.stat(name, true)\n\t}\n'),
        ('func lstatNolog(name string) (FileInfo, error) {\n', 'func lstatNolog(name string) (FileInfo, error) {\n\tif VSim != nil {\n\t\treturn VSim.stat(name, false)\n\t}\n'),
        ('\tvar fs fileStat\n\terr := f.pfd.Fstat(&fs.sys)\n', '\tif f.vsim != nil {\n\t\treturn f.vsim.stat()\n\t}\n\tvar fs fileStat\n\terr := f.pfd.Fstat(&fs.sys)\n'),
    ])
    patched('os/dir_unix.go', [
        ('func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n',
         'func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n'
         '\tif f.vsim != nil {\n\t\tdirents, err = f.vsim.readdir(n)\n\t\tfor _, d := range dirents {\n\t\t\tnames = append(names, d.Name())\n\t\t\ti, _ := d.Info()\n\t\t\tinfos = append(infos, i)\n\t\t}\n\t\treturn\n\t}\n'),
    ])
    patched('os/getwd.go', [
        ('func Getwd() (dir string, err error) {\n', 'func Getwd() (dir string, err error) {\n\tif VSim != nil {\n\t\treturn VSim.Cwd, VSim.CwdErr\n\t}\n'),
    ])
    patched('os/proc.go', [
        ('func Exit(code int) {\n', 'func Exit(code int) {\n\tif VSimExit != nil {\n\t\tVSimExit(code)\n\t}\n'),
    ])
    return rep

# ---------------------------------------------------------------- typescript-go copy

def tsgo_source():
    gomod = read(REPO + '/go.mod')
    m = re.search(re.escape(TSGO) + r' (v\S+)', gomod)
    if not m:
        raise BuildError('typescript-go version not found in go.mod')
    cache = os.environ.get('GOMODCACHE') or '/root/go/pkg/mod'
    d = '%s/%s@%s' % (cache, TSGO, m.group(1))
    if not os.path.isdir(d):
        raise BuildError('module cache has no ' + d)
    return d

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def prepare_tsgo(dst):
    src = tsgo_source()
    patches = sorted(glob.glob(REPO + '/patches/*.patch'))
    key = src + tree_hash(patches + [os.path.abspath(__file__)])
    mark = os.path.join(dst, '.vsim-key')
    if os.path.exists(mark) and read(mark) == key:
        return
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for name in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(src, name), dst)
    def ign(d, names):
        return [n for n in names if n.endswith('_test.go') or n in ('testdata', 'testrunner', 'fourslash', 'execute')]
    shutil.copytree(os.path.join(src, 'internal'), os.path.join(dst, 'internal'), ignore=ign, copy_function=shutil.copyfile)
    for root, dirs, files in os.walk(dst):
        os.chmod(root, 0o755)
        for f in files:
            os.chmod(os.path.join(root, f), 0o644)
    for p in patches:
        r = subprocess.run(['git', 'apply', '-p1', '--include=internal/*', p], cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, GIT_CEILING_DIRECTORIES=os.path.dirname(dst), GIT_DIR='/nonexistent'))
        if r.returncode != 0:
            raise BuildError('patch %s does not apply:\n%s' % (p, r.stdout))
    # build-time only: generic arenas make every importer of package ast re-emit
    # thousands of method wrappers; plain allocation is equivalent here.
    ast = os.path.join(dst, 'internal/ast/')
    s = read(ast + 'ast_generated.go'); names = {}
    def f(x):
        names[x.group(1)] = x.group(2); return ''
    s = re.sub(r'\n\t(\w+Arena)\s+core\.Arena\[(\w+)\]', f, s)
    rep = lambda t: re.sub(r'\bf\.(\w+Arena)\.New\(\)', lambda x: 'new(%s)' % names[x.group(1)], t)
    write(ast + 'ast_generated.go', rep(s))
    write(ast + 'ast.go', rep(read(ast + 'ast.go')))
    # seams inside typescript-go that bypass package os
    p = os.path.join(dst, 'internal/nativepath/')
    n = glob.glob(p + '*realpath*linux*.go') or [x for x in glob.glob(p + '*.go') if '/proc/self/fd' in read(x)]
    for x in n:
        s = read(x)
        write(x, sub1(s, 'func Realpath(path string) (string, error) {\n', 'func Realpath(path string) (string, error) {\n\tif os.VSim != nil {\n\t\treturn filepath.EvalSymlinks(path)\n\t}\n'))
    p = os.path.join(dst, 'internal/vfs/osvfs/os.go')
    s = read(p)
    s = sub1(s, 'var isFileSystemCaseSensitive = func() bool {\n', 'var isFileSystemCaseSensitive = func() bool {\n\tswitch os.Getenv("VSIM_CASE") {\n\tcase "insensitive":\n\t\treturn false\n\tcase "sensitive":\n\t\treturn true\n\t}\n')
    write(p, s)
    write(mark, key)

# ---------------------------------------------------------------- build

def go_env(modfile, gocache, race=False):
    e = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    e.update(GOROOT=GOROOT, PATH=GOROOT + '/bin:' + os.environ.get('PATH', '/usr/bin:/bin'),
             GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOSUMDB='off', CGO_ENABLED='1' if race else '0',
             GOFLAGS='-mod=mod -modfile=' + modfile, GOCACHE=gocache, GOGC='800', GOEXPERIMENT='nosizespecializedmalloc,norandomizedheapbase64',
             GOMODCACHE=os.environ.get('GOMODCACHE') or '/root/go/pkg/mod', HOME=os.environ.get('HOME', '/root'))
    return e

INSTR_DIRS = ['cmd/tsgolint', 'internal/linter', 'internal/utils', 'internal/diagnostic', 'internal/rule']
INSTR_TSGO = ['internal/vfs/cachedvfs', 'internal/project']

def build(race=False):
    os.makedirs(WORK, exist_ok=True)
    lockf = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lockf, fcntl.LOCK_EX)
    t0 = time.time()
    gen = os.path.join(WORK, 'gen')
    os.makedirs(gen, exist_ok=True)
    gocache = os.path.join(WORK, 'gocache')
    # the instrumenter is compiled while typescript-go is being prepared
    tenv = go_env('', gocache)
    tenv['GOFLAGS'] = ''
    tenv['GO111MODULE'] = 'off'
    tool = os.path.join(WORK, 'instr')
    tp = subprocess.Popen([GOROOT + '/bin/go', 'build', '-gcflags=all=-l -dwarf=false', '-ldflags', '-w -s', '-o', tool, os.path.join(HERE, 'instr', 'main.go')],
                          cwd=HERE, env=tenv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ts = os.path.join(WORK, 'typescript-go')
    prepare_tsgo(ts)
    rep = goroot_overlay(os.path.join(gen, 'goroot'))
    for f in glob.glob(ts + '/internal/collections/*.go'):
        rep['%s/internal/collections/%s' % (REPO, os.path.basename(f))] = f
    modfile = os.path.join(gen, 'go.mod')
    mod = read(REPO + '/go.mod')
    write(modfile, mod + '\nreplace %s => %s\n' % (TSGO, ts))
    sums = set()
    for p in (REPO + '/go.sum', '/opt/vp/mod/extra.sum', ts + '/go.sum'):
        if os.path.exists(p):
            sums.update(l for l in read(p).split('\n') if l.strip())
    with open(os.path.join(gen, 'go.sum'), 'w') as f:
        f.write('\n'.join(sorted(sums)) + '\n')
    env = go_env(modfile, gocache, race)
    flags = ['-trimpath=false', '-buildvcs=false', '-gcflags=all=-l -dwarf=false'] + (['-race'] if race else [])
    ov0 = os.path.join(gen, 'overlay0.json')
    write(ov0, json.dumps({'Replace': rep}, indent=0, sort_keys=True))
    # compile everything below /repo's own packages meanwhile
    pre = subprocess.Popen([GOROOT + '/bin/go', 'build', '-overlay', ov0] + flags + [TSGO + '/shim/compiler', TSGO + '/shim/checker', TSGO + '/shim/bundled'],
                           cwd=REPO, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out_t, _ = tp.communicate()
    if tp.returncode != 0:
        raise BuildError('instrumenter: ' + out_t)
    log('instrumenter ready %.1fs' % (time.time() - t0))
    rep.update(instrument(gen, tool, ts))
    ov = os.path.join(gen, 'overlay.json')
    write(ov, json.dumps({'Replace': rep}, indent=0, sort_keys=True))
    pre.wait()
    log('typescript-go ready %.1fs' % (time.time() - t0))
    out = os.path.join(WORK, 'tsgolint-sim' + ('-race' if race else ''))
    run([GOROOT + '/bin/go', 'build', '-overlay', ov] + flags + ['-ldflags', '-w -s', '-o', out, './cmd/tsgolint'], cwd=REPO, env=env)
    log('built in %.1fs' % (time.time() - t0))
    return out

def instrument(gen, tool, ts):
    """Overlay for /repo packages: harness files plus VSimPoint instrumentation."""
    rep = {}
    outd = os.path.join(gen, 'instr')
    if os.path.isdir(outd):
        shutil.rmtree(outd)
    os.makedirs(outd)
    jobs = []
    for base, dirs in ((REPO, INSTR_DIRS), (ts, INSTR_TSGO)):
        for d in dirs:
            for f in sorted(glob.glob('%s/%s/*.go' % (base, d))):
                b = os.path.basename(f)
                if b.endswith('_test.go') or re.search(r'_(windows|darwin|wasm|js|other)\.go$', b):
                    continue
                o = os.path.join(outd, d.replace('/', '_') + '__' + b)
                jobs.append({'in': f, 'out': o, 'main': d == 'cmd/tsgolint'})
                rep[f] = o
    plan = os.path.join(gen, 'plan.json')
    write(plan, json.dumps(jobs))
    st = json.loads(run([tool, plan]))
    if st['mains'] != 1 or st['registries'] < 1:
        raise BuildError('instrumenter found %d main functions and %d rule registries' % (st['mains'], st['registries']))
    write(os.path.join(WORK, 'instr.json'), json.dumps(st))
    for f in glob.glob(os.path.join(HERE, 'harness', '*.go')):
        rep[REPO + '/cmd/tsgolint/' + os.path.basename(f)] = f
    return rep

if __name__ == '__main__':
    try:
        print(build('--race' in sys.argv))
    except BuildError as e:
        print('BUILD-ERROR:', e, file=sys.stderr)
        sys.exit(3)
