// Deterministic-simulation runtime support. This file is added to package
// runtime by /verif/sim/build.py through `go build -overlay`; it is never part
// of the shipped binary.
//
// One P runs all goroutines. From VSimStart on, every choice of which goroutine
// runs next, every preemption point, every value of runtime.rand (map iteration
// order, select order, hash seeds of new maps) and every clock reading is taken
// from seeded generators, or from an explicit decision list on replay.

package runtime

import "unsafe"

const vsimMaxRunnable = 1 << 16

type VSimConfig struct {
	Seed      uint64 // scheduling stream
	RandSeed  uint64 // map/select/rand stream
	Strategy  int    // 0 fifo 1 random 2 pct 3 lifo 4 starve 5 sticky-random
	NumCPU    int
	AllocMean uint64 // mean number of mallocs between injected preemptions (0: off)
	PointMean uint64 // mean number of VSimPoints between injected yields (0: off)
	ChgMean   uint64 // pct: mean number of decisions between priority changes
	Tick      int64  // ns the clock advances per reading
	Budget    uint64 // max number of VSimPoints+decisions before giving up (0: none)
	WallSkew  int64  // wall-clock offset; jumps are applied by VSimWallJump

	Replay    bool
	Decisions []uint32 // pairs (index, choice), ascending
	Preempts  []uint64 // alloc counters, ascending
	Points    []uint64 // point counters, ascending

	Trace    unsafe.Pointer // *[TraceCap]uint64 shared memory (decision, preempt and point log)
	TraceCap int
}

type VSimStats struct {
	Decisions, Switches, Allocs, Points, Preempts, Yields uint64
	MaxRunnable                                         uint64
	SchedHash                                           uint64
	Clock                                               int64
	ClockReads                                          uint64
	TimerJumps                                          uint64
	TraceLen                                            uint64
	TraceDropped                                        uint64
	RandDraws                                           uint64
}

var vsim struct {
	on        bool
	cfg       VSimConfig
	st        VSimStats
	schedRng  uint64
	allocRng  uint64
	pointRng  uint64
	randRng   uint64
	nextAlloc uint64
	nextPoint uint64
	nextChg   uint64
	epoch     uint64
	startGoid uint64
	decPos    int
	prePos    int
	ptPos     int
	lastGoid  uint64
	wall      int64
	budgetHit bool
	hold      int // >0: the harness runs, no injected preemption
	n         int
	list      [vsimMaxRunnable]guintptr
}

//go:nosplit
func vsimMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func vsimNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func vsimRand() uint64 {
	vsim.st.RandDraws++
	return vsimNext(&vsim.randRng)
}

func vsimGap(s *uint64, mean uint64) uint64 {
	if mean == 0 {
		return 1 << 62
	}
	// sum of two uniforms: mean `mean`, never 0
	return 1 + vsimNext(s)%mean + vsimNext(s)%mean
}

// trace entry kinds, in the top byte
const (
	vsimTraceDecision = 1 // idx<<16 | choice
	vsimTracePreempt  = 2 // alloc counter
	vsimTracePoint    = 3 // point counter
)

//go:nosplit
func vsimTrace(kind uint64, v uint64) {
	if vsim.cfg.Trace == nil {
		return
	}
	if vsim.st.TraceLen >= uint64(vsim.cfg.TraceCap) {
		vsim.st.TraceDropped++
		return
	}
	p := (*uint64)(unsafe.Pointer(uintptr(vsim.cfg.Trace) + uintptr(vsim.st.TraceLen)*8))
	*p = kind<<56 | v
	vsim.st.TraceLen++
}

func VSimStart(cfg VSimConfig) {
	vsim.cfg = cfg
	vsim.schedRng = vsimMix(cfg.Seed ^ 0x1111)
	vsim.allocRng = vsimMix(cfg.Seed ^ 0x2222)
	vsim.pointRng = vsimMix(cfg.Seed ^ 0x3333)
	vsim.randRng = vsimMix(cfg.RandSeed ^ 0x4444)
	vsim.wall = 1767225600_000000000 + cfg.WallSkew
	if !cfg.Replay {
		vsim.nextAlloc = vsimGap(&vsim.allocRng, cfg.AllocMean)
		vsim.nextPoint = vsimGap(&vsim.pointRng, cfg.PointMean)
		vsim.nextChg = vsimGap(&vsim.schedRng, cfg.ChgMean)
	} else {
		vsim.nextAlloc = 1 << 62
		vsim.nextPoint = 1 << 62
		if len(cfg.Preempts) > 0 {
			vsim.nextAlloc = cfg.Preempts[0]
		}
		if len(cfg.Points) > 0 {
			vsim.nextPoint = cfg.Points[0]
		}
	}
	vsim.startGoid = getg().goid
	var mx uint64
	forEachG(func(gp *g) {
		if gp.goid > mx {
			mx = gp.goid
		}
	})
	vsim.startGoid = mx
	vsim.st = VSimStats{Clock: 1_000_000}
	vsim.on = true
}

func VSimStatsNow() VSimStats { return vsim.st }

func VSimOn() bool { return vsim.on }

func VSimStop() { vsim.on = false }

func VSimGoid() uint64 { return getg().goid }

func VSimBudgetHit() bool { return vsim.budgetHit }

// VSimPoint is inserted before the statements of instrumented packages.
func VSimPoint() {
	if !vsim.on {
		return
	}
	vsim.st.Points++
	if vsim.st.Points >= vsim.nextPoint {
		if vsim.cfg.Replay {
			vsim.ptPos++
			if vsim.ptPos < len(vsim.cfg.Points) {
				vsim.nextPoint = vsim.cfg.Points[vsim.ptPos]
			} else {
				vsim.nextPoint = 1 << 62
			}
		} else {
			vsim.nextPoint = vsim.st.Points + vsimGap(&vsim.pointRng, vsim.cfg.PointMean)
		}
		vsimTrace(vsimTracePoint, vsim.st.Points)
		vsim.st.Yields++
		Gosched()
	}
	if vsim.cfg.Budget != 0 && vsim.st.Points > vsim.cfg.Budget {
		vsimOverBudget()
	}
}

func vsimOverBudget() {
	if vsim.budgetHit {
		return
	}
	vsim.budgetHit = true
	if VSimBudgetFn != nil {
		VSimBudgetFn()
	}
}

var VSimBudgetFn func()

func vsimMalloc() {
	vsim.st.Allocs++
	if vsim.st.Allocs < vsim.nextAlloc {
		return
	}
	gp := getg()
	if vsim.hold > 0 || gp != gp.m.curg || gp == gp.m.g0 || gp.m.locks != 0 {
		vsim.nextAlloc = vsim.st.Allocs + 1
		return
	}
	if vsim.cfg.Replay {
		vsim.prePos++
		if vsim.prePos < len(vsim.cfg.Preempts) {
			vsim.nextAlloc = vsim.cfg.Preempts[vsim.prePos]
		} else {
			vsim.nextAlloc = 1 << 62
		}
	} else {
		vsim.nextAlloc = vsim.st.Allocs + vsimGap(&vsim.allocRng, vsim.cfg.AllocMean)
	}
	vsimTrace(vsimTracePreempt, vsim.st.Allocs)
	vsim.st.Preempts++
	gp.preempt = true
	gp.stackguard0 = stackPreempt
}

// vsimPick replaces the run-queue policy. Returns nil when the simulator has
// nothing to run (before VSimStart, or when nothing is runnable).
func vsimPick(pp *p) *g {
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			break
		}
		vsimAdd(gp)
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for {
			gp := globrunqget()
			if gp == nil {
				break
			}
			vsimAdd(gp)
		}
		unlock(&sched.lock)
	}
	n := vsim.n
	if n == 0 {
		return nil
	}
	for i := 0; i < n; i++ {
		gp := vsim.list[i].ptr()
		if gp.goid != 1 && gp.goid <= vsim.startGoid {
			return vsimTake(i)
		}
	}
	if n == 1 {
		return vsimTake(0)
	}
	if uint64(n) > vsim.st.MaxRunnable {
		vsim.st.MaxRunnable = uint64(n)
	}
	d := vsim.st.Decisions
	vsim.st.Decisions++
	c := 0
	if vsim.cfg.Replay {
		ds := vsim.cfg.Decisions
		for vsim.decPos+1 < len(ds) && uint64(ds[vsim.decPos]) < d {
			vsim.decPos += 2
		}
		if vsim.decPos+1 < len(ds) && uint64(ds[vsim.decPos]) == d {
			c = int(ds[vsim.decPos+1])
			if c >= n {
				c = n - 1
			}
		}
	} else {
		c = vsimChoose(n, d)
	}
	if c != 0 {
		vsimTrace(vsimTraceDecision, d<<16|uint64(c))
	}
	gp := vsimTake(c)
	if gp.goid != vsim.lastGoid {
		vsim.st.Switches++
	}
	vsim.lastGoid = gp.goid
	vsim.st.SchedHash = vsimMix(vsim.st.SchedHash ^ gp.goid)
	vsim.st.Clock += 500
	return gp
}

func vsimPrio(gp *g) uint64 {
	return vsimMix(vsim.cfg.Seed ^ gp.goid*0x9e3779b97f4a7c15 ^ vsim.epoch<<40)
}

func vsimChoose(n int, d uint64) int {
	switch vsim.cfg.Strategy {
	case 1:
		return int(vsimNext(&vsim.schedRng) % uint64(n))
	case 2:
		if d >= vsim.nextChg {
			vsim.nextChg = d + vsimGap(&vsim.schedRng, vsim.cfg.ChgMean)
			vsim.epoch++
		}
		best, bp := 0, uint64(0)
		for i := 0; i < n; i++ {
			if p := vsimPrio(vsim.list[i].ptr()); p >= bp {
				best, bp = i, p
			}
		}
		return best
	case 3:
		return n - 1
	case 4:
		// goroutines of one residue class run only when nothing else can
		k := vsim.cfg.Seed % 4
		var ok [64]int
		m := 0
		for i := 0; i < n && m < len(ok); i++ {
			if vsim.list[i].ptr().goid%4 != k {
				ok[m] = i
				m++
			}
		}
		if m == 0 {
			return int(vsimNext(&vsim.schedRng) % uint64(n))
		}
		return ok[vsimNext(&vsim.schedRng)%uint64(m)]
	case 5:
		r := vsimNext(&vsim.schedRng)
		if r&3 != 0 {
			for i := 0; i < n; i++ {
				if vsim.list[i].ptr().goid == vsim.lastGoid {
					return i
				}
			}
		}
		return int((r >> 8) % uint64(n))
	}
	return 0
}

func vsimAdd(gp *g) {
	if vsim.n >= vsimMaxRunnable {
		throw("vsim: too many runnable goroutines")
	}
	vsim.list[vsim.n].set(gp)
	vsim.n++
}

func vsimTake(i int) *g {
	gp := vsim.list[i].ptr()
	for j := i; j+1 < vsim.n; j++ {
		vsim.list[j] = vsim.list[j+1]
	}
	vsim.n--
	vsim.list[vsim.n] = 0
	return gp
}

// vsimIdle is called with nothing runnable: jump the clock to the next timer.
func vsimIdle(pp *p) bool {
	next := pp.timers.wakeTime()
	if next == 0 {
		return false
	}
	if next > vsim.st.Clock {
		vsim.st.Clock = next
	}
	vsim.st.TimerJumps++
	return true
}

//go:nosplit
func vsimNanotime() int64 {
	if !vsim.on {
		return nanotime()
	}
	return vsim.st.Clock
}

//go:nosplit
func vsimReadClock() int64 {
	vsim.st.ClockReads++
	vsim.st.Clock += vsim.cfg.Tick + int64(vsim.st.ClockReads%7)*vsim.cfg.Tick/3
	return vsim.st.Clock
}

//go:linkname time_vsimNow time.vsimNow
func time_vsimNow() (sec int64, nsec int32, mono int64, ok bool) {
	if !vsim.on {
		return 0, 0, 0, false
	}
	m := vsimReadClock()
	w := vsim.wall + m
	return w / 1e9, int32(w % 1e9), m, true
}

//go:linkname time_vsimNano time.vsimNano
func time_vsimNano() (int64, bool) {
	if !vsim.on {
		return 0, false
	}
	return vsimReadClock(), true
}

// VSimWallJump moves the wall clock (not the monotonic clock).
func VSimWallJump(ns int64) { vsim.wall += ns }

// VSimPeekClock reads the simulated clock without advancing it.
func VSimPeekClock() int64 { return vsim.st.Clock }

// VSimAdvance lets simulated work take time.
func VSimAdvance(ns int64) { vsim.st.Clock += ns }

func vsimSelectn(n uint32) uint32 {
	if vsim.on {
		return uint32(vsimRand() % uint64(n))
	}
	return cheaprandn(n)
}

// VSimHold suspends injected preemptions (harness bookkeeping).
func VSimHold() { vsim.hold++ }

func VSimRelease() { vsim.hold-- }
