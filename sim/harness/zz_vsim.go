// Simulation harness added to package main by /verif/sim/build.py (overlay).
// It builds the simulated world from a scenario file, starts the deterministic
// scheduler and calls the real main. It records what rules were asked to do and
// what they reported (ground truth), and every byte the program writes.

package main

import (
	"context"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/go-json-experiment/json"
	"github.com/go-json-experiment/json/jsontext"
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/checker"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

type vsimFile struct {
	T    *string `json:"t"`
	B64  *string `json:"b64"`
	Link *string `json:"link"`
	Dir  bool    `json:"dir"`
	Mode int     `json:"mode"`
}

type vsimFsFault struct {
	Op   string `json:"op"`   // operation name, or "" for any
	Path string `json:"path"` // exact path
	From int    `json:"from"` // first matching occurrence hit (0-based)
	To   int    `json:"to"`   // first occurrence no longer hit; 0: unlimited
	Kind string `json:"kind"` // enoent eio eacces emfile short trunc
	Arg  int    `json:"arg"`
	seen int
}

type vsimFsEvent struct {
	At   int       `json:"at"`   // before this global operation index, or
	On   string    `json:"on"`   // before the Nth operation on this path
	Op   string    `json:"op"`   // restricted to this operation
	Nth  int       `json:"nth"`
	Path string    `json:"path"`
	Put  *vsimFile `json:"put"` // nil: delete
	done bool
	seen int
}

type vsimWriteFault struct {
	At    int    `json:"at"`    // byte offset in the stream where it hits
	Errno string `json:"errno"` // enospc eio epipe
	Once  bool   `json:"once"`  // only one write fails
}

type vsimScenario struct {
	Cwd    string              `json:"cwd"`
	CwdErr bool                `json:"cwd_err"`
	Case   string              `json:"case"`
	Files  map[string]vsimFile `json:"files"`
	Args   []string            `json:"args"`

	Stdin       string `json:"stdin"`
	StdinB64    string `json:"stdin_b64"`
	StdinChunks []int  `json:"stdin_chunks"` // sizes of successive reads (cycled)
	StdinErrAt  int    `json:"stdin_err_at"` // -1: none
	StdinErr    string `json:"stdin_err"`

	Stdout      *vsimWriteFault `json:"stdout"`
	StdoutStall int64           `json:"stdout_stall"` // max ns per write
	StderrFail  bool            `json:"stderr_fail"`

	FsFaults  []vsimFsFault `json:"fs_faults"`
	FsEvents  []vsimFsEvent `json:"fs_events"`
	FsLatency int64         `json:"fs_latency"` // max ns per operation
	FsYield   int           `json:"fs_yield"`   // 1/n operations yield
	FsShort   int           `json:"fs_short"`   // 1/n reads are short
	FsSeed    uint64        `json:"fs_seed"`
	WallJump  int64         `json:"wall_jump"`

	Seed      uint64 `json:"seed"`
	RandSeed  uint64 `json:"rand_seed"`
	Strategy  int    `json:"strategy"`
	NumCPU    int    `json:"ncpu"`
	AllocMean uint64 `json:"alloc_mean"`
	PointMean uint64 `json:"point_mean"`
	ChgMean   uint64 `json:"chg_mean"`
	Tick      int64  `json:"tick"`
	Budget    uint64 `json:"budget"`

	Wrap  bool `json:"wrap"` // record rule activity
	LogFs bool `json:"log_fs"`
	NoProbes bool `json:"no_probes"` // probe rules stay silent (CLI mode runs every rule)

	TypeOracle bool `json:"type_oracle"` // ask TypeScript itself for the diagnostics of the linted files

	TraceCap int    `json:"trace_cap"`
	LogCap   int    `json:"log_cap"`
}

var vs struct {
	sc      vsimScenario
	mem     []byte
	log     []byte
	logOff  int
	started bool
	dropped int

	stdinOff  int
	stdinIdx  int
	stdoutLen int
	wcount    int
	failed    bool
	counts    map[string]int
	chk       map[*checker.Checker]uint64
	chkID     map[*checker.Checker]int
	calls     map[string]*vsimCall
	diagSeq   int
	nodeProbe map[string]*vsimNodes
	texts     map[*ast.SourceFile]string
	progs     []*compiler.Program
	progFiles map[*compiler.Program]map[string]bool
}

type vsimCall struct {
	calls uint64
	ns    int64
}

// vsimLog appends a record: type, goroutine, payload. No function call happens
// between reserving space and advancing the offset, so it is atomic under the
// cooperative scheduler.
//go:norace
func vsimLog(t byte, payload string) {
	n := 9 + len(payload)
	off := vs.logOff
	if off+n > len(vs.log) {
		vs.dropped++
		vs.mem[8] = 1
		return
	}
	vs.logOff = off + n
	b := vs.log[off : off+n]
	b[0] = t
	binary.LittleEndian.PutUint32(b[1:], uint32(runtime.VSimGoid()))
	binary.LittleEndian.PutUint32(b[5:], uint32(len(payload)))
	copy(b[9:], payload)
	binary.LittleEndian.PutUint64(vs.mem[0:], uint64(vs.logOff))
}

//go:norace
func vsimJSON(v any) string {
	b, err := json.Marshal(v, json.Deterministic(true), jsontext.AllowInvalidUTF8(true))
	if err != nil {
		// invalid UTF-8 and the like: fall back to a lossless quoted form
		return "!" + strconv.QuoteToASCII(fmt.Sprintf("%#v", v))
	}
	return string(b)
}

//go:norace
func vsimErrno(s string) error {
	switch s {
	case "enospc":
		return syscall.ENOSPC
	case "epipe":
		return syscall.EPIPE
	case "enoent":
		return syscall.ENOENT
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	case "estale":
		return syscall.ESTALE
	}
	return syscall.EIO
}

//go:norace
func vsimHash(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func vsimDie(format string, a ...any) {
	// only used before the simulation starts: a harness problem, not a finding
	os.Stderr.WriteString("VSIM-HARNESS: " + fmt.Sprintf(format, a...) + "\n")
	syscall.Exit(99)
}

//go:norace
func vsimContent(f vsimFile) (os.FileMode, string) {
	mode := os.FileMode(f.Mode)
	switch {
	case f.Link != nil:
		return os.ModeSymlink | 0o777, *f.Link
	case f.Dir:
		if f.Mode == 0 {
			mode = 0o755
		}
		return os.ModeDir | mode, ""
	}
	if f.Mode == 0 {
		mode = 0o644
	} else if f.Mode == -1 {
		mode = 0
	}
	if f.B64 != nil {
		b, err := base64.StdEncoding.DecodeString(*f.B64)
		if err != nil {
			vsimDie("b64: %v", err)
		}
		return mode, string(b)
	}
	if f.T != nil {
		return mode, *f.T
	}
	return mode, ""
}

func main() {
	// the scenario, the shared-memory log and the optional replay schedule are
	// files of fixed name in the real working directory
	raw, err := os.ReadFile("scenario.json")
	if err != nil {
		vsimDie("%v", err)
	}
	sc := &vs.sc
	sc.StdinErrAt = -1
	if err := json.Unmarshal(raw, sc); err != nil {
		vsimDie("scenario: %v", err)
	}
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0

	replay, decisions, preempts, points := vsimLoadReplay()
	fd, err := syscall.Open("shm", syscall.O_RDWR, 0)
	if err != nil {
		vsimDie("shm: %v", err)
	}
	total := 4096 + sc.TraceCap*8 + sc.LogCap
	mem, err := syscall.Mmap(fd, 0, total, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		vsimDie("mmap: %v", err)
	}
	syscall.Close(fd)
	vs.mem = mem
	vs.log = mem[4096+sc.TraceCap*8:]
	vs.counts = map[string]int{}
	vs.chk = map[*checker.Checker]uint64{}
	vs.chkID = map[*checker.Checker]int{}
	vs.calls = map[string]*vsimCall{}
	vs.nodeProbe = map[string]*vsimNodes{}
	vs.texts = map[*ast.SourceFile]string{}
	vs.progFiles = map[*compiler.Program]map[string]bool{}

	stdin := sc.Stdin
	if sc.StdinB64 != "" {
		b, err := base64.StdEncoding.DecodeString(sc.StdinB64)
		if err != nil {
			vsimDie("stdin_b64: %v", err)
		}
		stdin = string(b)
	}
	os.VSimAttach(os.Stdin, &os.VSimStream{ReadFn: func(b []byte) (int, error) { return vsimStdin(stdin, b) }})
	os.VSimAttach(os.Stdout, &os.VSimStream{WriteFn: vsimStdout})
	os.VSimAttach(os.Stderr, &os.VSimStream{WriteFn: vsimStderr})

	fs := os.NewVSimFS(sc.Cwd)
	if sc.CwdErr {
		fs.CwdErr = syscall.ENOENT
	}
	fs.CI = sc.Case == "insensitive"
	paths := make([]string, 0, len(sc.Files))
	for k := range sc.Files {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	// directories first so that their modes stick
	for _, k := range paths {
		m, d := vsimContent(sc.Files[k])
		fs.Put(k, m, d)
	}
	fs.Decide = func(n int, op, path string) os.VSimFault {
		runtime.VSimHold()
		f := vsimDecide(fs, n, op, path)
		runtime.VSimRelease()
		return f
	}
	fs.Done = vsimDone
	fs.Mutated = func(op, path string) { vsimLog('U', op+"\t"+path) }

	os.Args = append([]string{"tsgolint"}, sc.Args...)
	os.VSimExit = vsimExit
	runtime.VSimBudgetFn = func() {
		vsimLog('B', "budget")
		vsimExit(98)
		syscall.Exit(98)
	}
	var trace unsafe.Pointer
	if sc.TraceCap > 0 {
		trace = unsafe.Pointer(&mem[4096])
	}
	ncpu := sc.NumCPU
	if ncpu <= 0 {
		ncpu = 4
	}
	// force lazily initialised state that would otherwise differ in allocation
	time.Now()
	os.VSim = fs
	runtime.VSimStart(runtime.VSimConfig{
		Seed: sc.Seed, RandSeed: sc.RandSeed, Strategy: sc.Strategy, NumCPU: ncpu,
		AllocMean: sc.AllocMean, PointMean: sc.PointMean, ChgMean: sc.ChgMean, Tick: sc.Tick, Budget: sc.Budget,
		Replay: replay, Decisions: decisions, Preempts: preempts, Points: points,
		Trace: trace, TraceCap: sc.TraceCap,
	})
	vsimLog('S', "start")
	vsimRealMain()
	// main returned without os.Exit: same as exit 0
	vsimExit(0)
}

// vsimLoadReplay maps replay.bin: four u64 (magic, numbers of decisions, preemptions
// and points), decision pairs as u32, then u64 arrays. It stays outside the Go heap
// so that a replayed run allocates exactly what the recorded run did (maps keyed by
// pointers iterate by address).
//go:norace
func vsimLoadReplay() (bool, []uint32, []uint64, []uint64) {
	fd, err := syscall.Open("replay.bin", syscall.O_RDONLY, 0)
	if err != nil {
		return false, nil, nil, nil
	}
	var st syscall.Stat_t
	if syscall.Fstat(fd, &st) != nil || st.Size < 32 {
		vsimDie("replay.bin")
	}
	mem, err := syscall.Mmap(fd, 0, int(st.Size), syscall.PROT_READ, syscall.MAP_PRIVATE)
	if err != nil {
		vsimDie("replay.bin: %v", err)
	}
	syscall.Close(fd)
	h := unsafe.Slice((*uint64)(unsafe.Pointer(&mem[0])), 4)
	nd, np, nt := h[1], h[2], h[3]
	if uint64(len(mem)) != 32+8*(nd+np+nt) {
		vsimDie("replay.bin: size")
	}
	base := unsafe.Pointer(&mem[0])
	return true, unsafe.Slice((*uint32)(unsafe.Add(base, 32)), 2*nd),
		unsafe.Slice((*uint64)(unsafe.Add(base, 32+8*nd)), np),
		unsafe.Slice((*uint64)(unsafe.Add(base, 32+8*(nd+np))), nt)
}

//go:norace
func vsimExit(code int) {
	if vs.started {
		return
	}
	vs.started = true
	runtime.VSimStop()
	st := runtime.VSimStatsNow()
	if vs.sc.Wrap {
		keys := make([]string, 0, len(vs.calls))
		for k := range vs.calls {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			c := vs.calls[k]
			vsimLog('C', k+"\t"+strconv.FormatUint(c.calls, 10)+"\t"+strconv.FormatInt(c.ns, 10))
		}
		vsimNodeSummary()
		if vs.sc.TypeOracle {
			vsimTypeOracle()
		}
	}
	vsimLog('Z', vsimJSON(map[string]any{
		"decisions": st.Decisions, "switches": st.Switches, "allocs": st.Allocs, "points": st.Points,
		"preempts": st.Preempts, "yields": st.Yields, "max_runnable": st.MaxRunnable,
		"hash": strconv.FormatUint(st.SchedHash, 16), "clock": st.Clock, "clock_reads": st.ClockReads,
		"timer_jumps": st.TimerJumps, "trace_len": st.TraceLen, "trace_dropped": st.TraceDropped,
		"rand": st.RandDraws, "fs_ops": os.VSim.Ops, "counts": vs.counts, "dropped": vs.dropped,
		"ncpu": vs.sc.NumCPU,
	}))
	vsimLog('X', strconv.Itoa(code))
}

// vsimTypeOracle builds every program of the run once more, with type checkers that no
// rule has touched, and records what TypeScript says about each linted file.
//go:norace
func vsimTypeOracle() {
	ctx := core.WithRequestID(context.Background(), "__vsim__")
	for _, old := range vs.progs {
		p := compiler.NewProgram(compiler.ProgramOptions{Config: old.CommandLine(), SingleThreaded: core.TSFalse, Host: old.Host(), UseSourceOfProjectReference: old.CommandLine().ConfigFile != nil})
		p.BindSourceFiles()
		for _, f := range p.SourceFiles() {
			name := f.FileName()
			if !vs.progFiles[old][name] {
				continue
			}
			put := func(kind string, ds []*ast.Diagnostic) {
				for _, d := range ds {
					if d.File() == nil || d.File().FileName() != name {
						continue
					}
					vsimLog('T', vsimJSON(map[string]any{"kind": kind, "file": name, "code": d.Code(), "pos": d.Pos(), "end": d.End(), "text": utils.GetDiagnosticMessage(d)}))
				}
			}
			put("syn", p.GetSyntacticDiagnostics(ctx, f))
			all := append([]*ast.Diagnostic{}, p.GetSemanticDiagnostics(ctx, f)...)
			put("sem", compiler.SortAndDeduplicateDiagnostics(append(all, p.GetIncludeProcessorDiagnostics(f)...)))
		}
	}
}

//go:norace
func vsimCount(k string) {
	if vsimRace {
		return
	}
	runtime.VSimHold()
	vs.counts[k]++
	runtime.VSimRelease()
}

// ------------------------------------------------------------ streams

//go:norace
func vsimStdin(data string, b []byte) (int, error) {
	sc := &vs.sc
	off := vs.stdinOff
	if sc.StdinErrAt >= 0 && off >= sc.StdinErrAt {
		vsimCount("stdin_error")
		return 0, vsimErrno(sc.StdinErr)
	}
	if off >= len(data) {
		return 0, io.EOF
	}
	n := len(data) - off
	if n > len(b) {
		n = len(b)
	}
	if len(sc.StdinChunks) > 0 {
		c := sc.StdinChunks[vs.stdinIdx%len(sc.StdinChunks)]
		vs.stdinIdx++
		if c > 0 && c < n {
			n = c
			vsimCount("stdin_short_read")
			runtime.Gosched()
		}
	}
	if sc.StdinErrAt >= 0 && off+n > sc.StdinErrAt {
		n = sc.StdinErrAt - off
	}
	copy(b, data[off:off+n])
	vs.stdinOff = off + n
	return n, nil
}

//go:norace
func vsimStdout(b []byte) (int, error) {
	sc := &vs.sc
	i := vs.wcount
	vs.wcount++
	if sc.StdoutStall > 0 {
		d := int64(vsimHash(sc.FsSeed^uint64(i)*31^0x77) % uint64(sc.StdoutStall))
		vsimCount("stdout_stall")
		time.Sleep(time.Duration(d))
	}
	if f := sc.Stdout; f != nil && vs.stdoutLen+len(b) > f.At && !(f.Once && vs.failed) {
		n := f.At - vs.stdoutLen
		if n < 0 {
			n = 0
		}
		vs.failed = true
		vs.stdoutLen += n
		vsimCount("stdout_" + f.Errno)
		vsimLog('W', string(b[:n]))
		vsimLog('w', strconv.Itoa(len(b))+"\t"+strconv.Itoa(n)+"\t"+f.Errno)
		return n, vsimErrno(f.Errno)
	}
	vs.stdoutLen += len(b)
	vsimLog('W', string(b))
	return len(b), nil
}

//go:norace
func vsimStderr(b []byte) (int, error) {
	vsimLog('E', string(b))
	if vs.sc.StderrFail {
		vsimCount("stderr_fail")
		return 0, syscall.EIO
	}
	return len(b), nil
}

// ------------------------------------------------------------ file system

//go:norace
func vsimDecide(fs *os.VSimFileSystem, n int, op, path string) os.VSimFault {
	sc := &vs.sc
	out := os.VSimFault{Trunc: -1}
	for i := range sc.FsEvents {
		e := &sc.FsEvents[i]
		if e.done {
			continue
		}
		hit := false
		if e.On != "" {
			if path == e.On && (e.Op == "" || e.Op == op) {
				hit = e.seen >= e.Nth
				e.seen++
			}
		} else {
			hit = n >= e.At
		}
		if hit {
			e.done = true
			vsimCount("fs_event")
			vsimLog('M', strconv.Itoa(n)+"\t"+e.Path)
			if e.Put == nil {
				fs.Delete(e.Path)
			} else {
				m, d := vsimContent(*e.Put)
				fs.Put(e.Path, m, d)
			}
		}
	}
	for i := range sc.FsFaults {
		f := &sc.FsFaults[i]
		if f.Path != path || (f.Op != "" && f.Op != op) {
			continue
		}
		k := f.seen
		f.seen++
		if k < f.From || (f.To > 0 && k >= f.To) {
			continue
		}
		vsimCount("fs_" + f.Kind + "_" + op)
		vsimLog('Q', f.Kind+"\t"+op+"\t"+path)
		switch f.Kind {
		case "short":
			out.Short = f.Arg
		case "trunc":
			out.Trunc = f.Arg
		default:
			out.Err = vsimErrno(f.Kind)
		}
	}
	h := vsimHash(sc.FsSeed ^ uint64(n)*0x9e37)
	if sc.WallJump != 0 && h%5 == 0 {
		runtime.VSimWallJump(int64(h>>8)%(2*sc.WallJump) - sc.WallJump)
		vsimCount("wall_jump")
	}
	if sc.FsLatency > 0 {
		out.Latency = time.Duration(1 + h%uint64(sc.FsLatency))
		vsimCount("fs_latency")
	} else if sc.FsYield > 0 && h%uint64(sc.FsYield) == 0 {
		out.Latency = -1
		vsimCount("fs_yield")
	}
	if sc.FsShort > 0 && op == "read" && out.Short == 0 && (h>>20)%uint64(sc.FsShort) == 0 {
		out.Short = 1 + int((h>>30)%200)
		vsimCount("fs_short_read")
	}
	if op == "readdir" && sc.FsSeed != 0 {
		out.Shuffle = h | 1
	}
	return out
}

//go:norace
func vsimDone(n int, op, path string, err error) {
	if vs.sc.LogFs {
		e := "ok"
		if err != nil {
			e = err.Error()
		}
		vsimLog('F', strconv.Itoa(n)+"\t"+op+"\t"+path+"\t"+e)
	}
}

// ------------------------------------------------------------ rules

//go:norace
func vsimEnter(c *checker.Checker, what string) bool {
	if c == nil {
		return false
	}
	g := runtime.VSimGoid()
	runtime.VSimHold()
	o, busy := vs.chk[c]
	if !busy {
		vs.chk[c] = g
	}
	runtime.VSimRelease()
	if busy && o != g {
		vsimLog('V', "checker-overlap\t"+what+"\tgoroutine "+strconv.FormatUint(g, 10)+" while "+strconv.FormatUint(o, 10)+" is inside")
	}
	return !busy
}

//go:norace
func vsimLeave(c *checker.Checker, owned bool) {
	if owned {
		runtime.VSimHold()
		delete(vs.chk, c)
		runtime.VSimRelease()
	}
}

//go:norace
func vsimCheckerID(c *checker.Checker) int {
	runtime.VSimHold()
	defer runtime.VSimRelease()
	id, ok := vs.chkID[c]
	if !ok {
		id = len(vs.chkID) + 1
		vs.chkID[c] = id
	}
	return id
}

//go:norace
func vsimFixesJSON(fs []rule.RuleFix) []any {
	out := []any{}
	for _, f := range fs {
		out = append(out, []any{f.Text, f.Range.Pos(), f.Range.End()})
	}
	return out
}

//go:norace
func vsimSuggJSON(ss []rule.RuleSuggestion) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, []any{s.Message.Id, s.Message.Description, s.Message.Help, vsimFixesJSON(s.Fixes())})
	}
	return out
}

// vsimReport logs one report made by a rule, before it enters the linter.
//go:norace
func vsimReport(ruleName string, file *ast.SourceFile, rng core.TextRange, msg rule.RuleMessage, labels []rule.RuleLabeledRange, fixes, sugg any, fixFn, suggFn bool) int {
	vs.diagSeq++
	id := vs.diagSeq
	ls := []any{}
	for _, l := range labels {
		ls = append(ls, []any{l.Label, l.Range.Pos(), l.Range.End()})
	}
	vsimLog('D', vsimJSON(map[string]any{
		"id": id, "rule": ruleName, "file": file.FileName(), "pos": rng.Pos(), "end": rng.End(), "valid": rng.IsValid(),
		"mid": msg.Id, "desc": msg.Description, "help": msg.Help, "labels": ls, "fixes": fixes, "sugg": sugg,
		"fix_fn": fixFn, "sugg_fn": suggFn, "len": len(file.Text()),
	}))
	return id
}

var vsimProbesAdded bool

// vsimText identifies the text of a source file (FNV-1a and length).
//go:norace
func vsimText(f *ast.SourceFile) string {
	runtime.VSimHold()
	t, ok := vs.texts[f]
	runtime.VSimRelease()
	if ok {
		return t
	}
	h := uint64(14695981039346656037)
	text := f.Text()
	for i := 0; i < len(text); i++ {
		h = (h ^ uint64(text[i])) * 1099511628211
	}
	t = strconv.FormatUint(h, 16) + ":" + strconv.Itoa(len(text))
	runtime.VSimHold()
	vs.texts[f] = t
	runtime.VSimRelease()
	return t
}

// vsimRegister is applied by the instrumenter to the rule registry literal.
func vsimRegister(rs []rule.Rule) []rule.Rule {
	out := make([]rule.Rule, 0, len(rs)+len(vsimProbes))
	for _, r := range rs {
		out = append(out, vsimWrapRule(r))
	}
	if len(rs) < 2 || vsimProbesAdded {
		return out
	}
	vsimProbesAdded = true
	for _, r := range vsimProbes {
		orig := r.Run
		r.Run = func(ctx rule.RuleContext, options any) rule.RuleListeners {
			if vs.sc.NoProbes {
				return nil
			}
			return orig(ctx, options)
		}
		out = append(out, vsimWrapRule(r))
	}
	return out
}

func vsimWrapRule(r rule.Rule) rule.Rule {
	orig := r.Run
	name := r.Name
	r.Run = func(ctx rule.RuleContext, options any) rule.RuleListeners {
		if !vs.sc.Wrap {
			return orig(ctx, options)
		}
		file := ctx.SourceFile
		c := ctx.TypeChecker
		fileName := file.FileName()
		config := ""
		if o := ctx.Program.Options(); o != nil {
			config = o.ConfigFilePath
		}
		vsimLog('R', fileName+"\t"+name+"\t"+strconv.Itoa(vsimCheckerID(c))+"\t"+config+"\t"+vsimText(file)+"\t"+vsimJSON(options))
		vsimCallNote(fileName, name, 0, 0)
		if vs.sc.TypeOracle {
			runtime.VSimHold()
			if vs.progFiles[ctx.Program] == nil {
				vs.progFiles[ctx.Program] = map[string]bool{}
				vs.progs = append(vs.progs, ctx.Program)
			}
			vs.progFiles[ctx.Program][fileName] = true
			runtime.VSimRelease()
		}

		inner := ctx
		fixWrap := func(id *int, fn func() []rule.RuleFix) func() []rule.RuleFix {
			return func() []rule.RuleFix {
				f := fn()
				vsimLog('G', vsimJSON(map[string]any{"id": *id, "fixes": vsimFixesJSON(f)}))
				return f
			}
		}
		suggWrap := func(id *int, fn func() []rule.RuleSuggestion) func() []rule.RuleSuggestion {
			return func() []rule.RuleSuggestion {
				f := fn()
				vsimLog('G', vsimJSON(map[string]any{"id": *id, "sugg": vsimSuggJSON(f)}))
				return f
			}
		}
		ofD := func(d rule.RuleDiagnostic) (any, any) {
			var a, b any
			if d.FixesPtr != nil {
				a = vsimFixesJSON(*d.FixesPtr)
			}
			if d.Suggestions != nil {
				b = vsimSuggJSON(*d.Suggestions)
			}
			return a, b
		}
		inner.ReportDiagnostic = func(d rule.RuleDiagnostic) {
			a, b := ofD(d)
			vsimReport(name, file, d.Range, d.Message, d.LabeledRanges, a, b, false, false)
			ctx.ReportDiagnostic(d)
		}
		inner.ReportDiagnosticWithFixes = func(d rule.RuleDiagnostic, fn func() []rule.RuleFix) {
			_, b := ofD(d)
			id := vsimReport(name, file, d.Range, d.Message, d.LabeledRanges, nil, b, true, false)
			ctx.ReportDiagnosticWithFixes(d, fixWrap(&id, fn))
		}
		inner.ReportDiagnosticWithSuggestions = func(d rule.RuleDiagnostic, fn func() []rule.RuleSuggestion) {
			a, _ := ofD(d)
			id := vsimReport(name, file, d.Range, d.Message, d.LabeledRanges, a, nil, false, true)
			ctx.ReportDiagnosticWithSuggestions(d, suggWrap(&id, fn))
		}
		inner.ReportRange = func(t core.TextRange, m rule.RuleMessage) {
			vsimReport(name, file, t, m, nil, nil, nil, false, false)
			ctx.ReportRange(t, m)
		}
		inner.ReportRangeWithSuggestions = func(t core.TextRange, m rule.RuleMessage, fn func() []rule.RuleSuggestion) {
			id := vsimReport(name, file, t, m, nil, nil, nil, false, true)
			ctx.ReportRangeWithSuggestions(t, m, suggWrap(&id, fn))
		}
		inner.ReportNode = func(n *ast.Node, m rule.RuleMessage) {
			vsimReport(name, file, utils.TrimNodeTextRange(file, n), m, nil, nil, nil, false, false)
			ctx.ReportNode(n, m)
		}
		inner.ReportNodeWithFixes = func(n *ast.Node, m rule.RuleMessage, fn func() []rule.RuleFix) {
			id := vsimReport(name, file, utils.TrimNodeTextRange(file, n), m, nil, nil, nil, true, false)
			ctx.ReportNodeWithFixes(n, m, fixWrap(&id, fn))
		}
		inner.ReportNodeWithSuggestions = func(n *ast.Node, m rule.RuleMessage, fn func() []rule.RuleSuggestion) {
			id := vsimReport(name, file, utils.TrimNodeTextRange(file, n), m, nil, nil, nil, false, true)
			ctx.ReportNodeWithSuggestions(n, m, suggWrap(&id, fn))
		}

		owned := vsimEnter(c, fileName+" "+name+" Run")
		t0 := runtime.VSimPeekClock()
		ls := orig(inner, options)
		vsimCallNote(fileName, name, 1, runtime.VSimPeekClock()-t0)
		vsimLeave(c, owned)
		if strings.HasPrefix(name, "vsim-probe") && ls == nil {
			return ls
		}
		for k, fn := range ls {
			ls[k] = func(node *ast.Node) {
				owned := vsimEnter(c, fileName+" "+name)
				if !owned && c != nil {
					// nested listener call: also a violation of the walk contract
					vsimLog('V', "nested-listener\t"+fileName+" "+name)
				}
				t0 := runtime.VSimPeekClock()
				fn(node)
				vsimCallNote(fileName, name, 1, runtime.VSimPeekClock()-t0)
				vsimLeave(c, owned)
			}
		}
		return ls
	}
	return r
}

//go:norace
func vsimCallNote(file, name string, n uint64, ns int64) {
	k := file + "\t" + name
	runtime.VSimHold()
	c := vs.calls[k]
	if c == nil {
		c = &vsimCall{}
		vs.calls[k] = c
	}
	c.calls += n
	c.ns += ns
	runtime.VSimRelease()
}
