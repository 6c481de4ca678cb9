package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PathResult is the outcome of one path.
type PathResult struct {
	Kind     stopKind
	Label    string
	Msg      string
	Inputs   map[string]uint64
	UFs      map[string]map[uint64]uint64
	Schedule []int
	Obs      []ObsVal
	MapOrder bool
	Notes    []string
	Depth    int
}

type ObsVal struct {
	Label string
	Val   int64
}

// Exploration runs one harness over all its paths.
type Exploration struct {
	eng *Engine
	h   *Harness

	mu       sync.Mutex
	cond     *sync.Cond
	work     []*Work
	active   int
	halted   bool
	deadline time.Time
	maxPaths int64

	kinds      [8]int64
	paths      int64
	asserts    int64
	trivial    int64
	queries    int64
	unknowns   map[string]int64
	byLabel    map[string]int64
	reach      map[string]bool
	violations []*PathResult
	problems   map[string]int64 // unsupported / limit messages
	probPaths  []*PathResult
	samples    []*PathResult
	seen       int64
	notes      map[string]bool
	steps      int64
	decisions  int64
	maxDepth   int
	stats      SolverStats
	leftover   int
	wall       time.Duration
	onViol     func(*PathResult) bool // true: stop
	rng        *rand.Rand
	sampleCap  int
}

// Worker explores paths with its own solver.
type Worker struct {
	e   *Exploration
	id  int
	sol *Solver
	rng *rand.Rand
}

func (x *Exploration) countQuery(st *State) { atomic.AddInt64(&x.queries, 1) }
func (x *Exploration) countTrivial()        { atomic.AddInt64(&x.trivial, 1) }
func (x *Exploration) noteUnknown(s string) { x.mu.Lock(); x.unknowns[s]++; x.mu.Unlock() }
func (x *Exploration) countAssert(label string) {
	atomic.AddInt64(&x.asserts, 1)
	x.mu.Lock()
	x.byLabel[label]++
	x.mu.Unlock()
}
func (x *Exploration) push(w *Work) {
	x.mu.Lock()
	x.work = append(x.work, w)
	x.mu.Unlock()
	x.cond.Signal()
}

// pop returns the next piece of work, or nil when everything is explored.
func (x *Exploration) pop(w *Worker) *Work {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.halted || time.Now().After(x.deadline) || (x.maxPaths > 0 && x.paths >= x.maxPaths) {
			x.halted = true
			x.cond.Broadcast()
			return nil
		}
		if n := len(x.work); n > 0 {
			k := n - 1
			// part of the workers jump around, so that a run cut short
			// still covers every region
			if w.id%2 == 1 {
				k = w.rng.Intn(n)
			}
			it := x.work[k]
			x.work[k] = x.work[n-1]
			x.work = x.work[:n-1]
			x.active++
			return it
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return nil
		}
		x.cond.Wait()
	}
}

func newExploration(e *Engine, h *Harness, seed int64) *Exploration {
	x := &Exploration{eng: e, h: h, unknowns: map[string]int64{}, byLabel: map[string]int64{}, reach: map[string]bool{}, problems: map[string]int64{}, notes: map[string]bool{}, rng: rand.New(rand.NewSource(seed)), sampleCap: 24}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Exploration) run(workers int, budget time.Duration, solverBin string) {
	t0 := time.Now()
	x.deadline = t0.Add(budget)
	x.work = []*Work{{model: newModel()}}
	var wg sync.WaitGroup
	tick := time.AfterFunc(budget, func() {
		x.mu.Lock()
		x.halted = true
		x.mu.Unlock()
		x.cond.Broadcast()
	})
	defer tick.Stop()
	for i := 0; i < workers; i++ {
		w := &Worker{e: x, id: i, sol: NewSolver(solverBin, 20000), rng: rand.New(rand.NewSource(int64(i) + 1))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it := x.pop(w)
				if it == nil {
					break
				}
				w.runPath(it)
			}
			w.sol.stop()
			x.mu.Lock()
			s := w.sol.stats
			x.stats.Queries += s.Queries
			x.stats.Sat += s.Sat
			x.stats.Unsat += s.Unsat
			x.stats.Unknown += s.Unknown
			x.stats.Time += s.Time
			x.stats.BVPaths += s.BVPaths
			if s.MaxTime > x.stats.MaxTime {
				x.stats.MaxTime = s.MaxTime
			}
			x.mu.Unlock()
		}()
	}
	wg.Wait()
	x.leftover = len(x.work)
	x.wall = time.Since(t0)
}

func (w *Worker) newState(it *Work) *State {
	st := &State{
		eng: w.e.eng, w: w, ts: NewTerms(), sol: w.sol, h: w.e.h,
		prefix: it.prefix,
		pcVars: map[*Term]bool{}, pcUFs: map[*Term]bool{}, known: map[*Term]bool{}, iv: map[*Term]interval{},
		readMemo: map[readKey]*Term{}, globals: map[*ssa.Global]*Cell{}, pkgInit: map[*ssa.Package]bool{},
		reach: map[string]bool{}, names: map[string]int{}, datas: map[string]bool{},
		mutexes: map[interface{}]*mutexState{}, pools: map[*Cell][]pooled{}, side: map[string]interface{}{},
	}
	st.setModel(it.model)
	return st
}

func (w *Worker) runPath(it *Work) {
	x := w.e
	var res *PathResult
	var st *State
	func() {
		defer func() {
			if r := recover(); r != nil {
				// the solver or the engine failed outside the interpreter
				w.sol.stop()
				res = &PathResult{Kind: stopUnsupported, Msg: fmt.Sprint("engine: ", r)}
			}
		}()
		w.sol.BeginPath()
		st = w.newState(it)
		res = st.runHarness()
	}()
	x.mu.Lock()
	defer x.mu.Unlock()
	x.paths++
	x.kinds[res.Kind]++
	if st != nil {
		x.steps += st.steps
		x.decisions += int64(len(st.trace) - len(st.prefix))
		if len(st.trace) > x.maxDepth {
			x.maxDepth = len(st.trace)
		}
		for r := range st.reach {
			x.reach[r] = true
		}
		for _, n := range st.note {
			x.notes[n] = true
		}
	}
	x.active--
	if x.active == 0 && len(x.work) == 0 {
		x.cond.Broadcast()
	}
	switch res.Kind {
	case stopViolation:
		if x.halted {
			return
		}
		x.violations = append(x.violations, res)
		if x.onViol != nil {
			x.mu.Unlock()
			stop := x.onViol(res)
			x.mu.Lock()
			if stop {
				x.halted = true
				x.cond.Broadcast()
			}
		}
	case stopUnsupported, stopLimit:
		x.problems[res.Msg]++
		if len(x.probPaths) < 40 && res.Inputs != nil {
			x.probPaths = append(x.probPaths, res)
		}
	case stopDone:
		// reservoir sample
		x.seen++
		if len(x.samples) < x.sampleCap {
			x.samples = append(x.samples, res)
		} else if k := x.rng.Int63n(x.seen); k < int64(x.sampleCap) {
			x.samples[k] = res
		}
	}
}

// runHarness runs the harness on the path's prefix and beyond.
func (st *State) runHarness() *PathResult {
	th := st.newThread()
	st.cur = th
	var ps *pathStop
	func() {
		defer func() {
			r := recover()
			switch v := r.(type) {
			case nil:
			case *pathStop:
				ps = v
			case targetPanic:
				ps = st.panicStop(v, "the harness")
			case abortThread:
				ps = st.stop
			default:
				panic(r)
			}
		}()
		init := st.h.fn.Pkg.Func("init")
		th.runBody(init)
		th.callFn(nil, st.h.fn, nil, nil)
	}()
	if ps == nil {
		ps = &pathStop{kind: stopDone}
	}
	th.done = true
	st.finish()
	m := ps.model
	if m == nil {
		m = st.model
	}
	res := &PathResult{Kind: ps.kind, Label: ps.label, Msg: ps.msg, Schedule: st.schedule, MapOrder: st.usedMapOrder, Notes: st.note, Depth: len(st.trace)}
	if ps.kind == stopAssume {
		return res
	}
	m = m.clone()
	ev := &evaluator{m: m, memo: map[*Term]uint64{}}
	res.Inputs = map[string]uint64{}
	for _, in := range st.inputs {
		res.Inputs[in.Name] = ev.eval(in.Term)
	}
	if ps.kind == stopDone {
		for _, o := range st.observes {
			res.Obs = append(res.Obs, ObsVal{o.Label, int64(ev.eval(o.Val))})
		}
	}
	res.UFs = map[string]map[uint64]uint64{}
	for n := range st.datas {
		if u := m.ufs[n]; u != nil {
			res.UFs[n] = u
		}
	}
	return res
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
