// Package vsched replays a recorded interleaving: goroutines pass a baton at
// the same scheduling points as in the symbolic run.
package vsched

import "sync"

// On is set by the replay binary when a schedule is to be followed.
var On bool

// Schedule lists the goroutine chosen at each point with several candidates.
var Schedule []int

// Diverged reports that the schedule could not be followed.
var Diverged bool

type thread struct {
	id      int
	done    bool
	blocked func() bool
	resume  chan struct{}
}

var (
	threads = []*thread{{id: 0, resume: make(chan struct{})}}
	cur     = threads[0]
	multi   bool
	pos     int
	// Deadlock is called when nobody can run.
	Deadlock = func() { select {} }
	mu       sync.Mutex
)

func runnable() []*thread {
	var out []*thread
	for _, t := range threads {
		if !t.done && (t.blocked == nil || t.blocked()) {
			out = append(out, t)
		}
	}
	return out
}

func pick(c *thread) *thread {
	rs := runnable()
	if len(rs) == 0 {
		Deadlock()
	}
	if len(rs) == 1 {
		return rs[0]
	}
	if pos < len(Schedule) {
		want := Schedule[pos]
		pos++
		for _, t := range rs {
			if t.id == want {
				return t
			}
		}
		Diverged = true
	} else {
		pos++
	}
	for _, t := range rs {
		if t == c {
			return t
		}
	}
	return rs[0]
}

func switchTo(me, t *thread) {
	if t == me {
		return
	}
	cur = t
	t.resume <- struct{}{}
	<-me.resume
	cur = me
}

// Point is a scheduling point; it returns once cond (if any) holds.
func Point(cond func() bool) {
	if !On {
		return
	}
	if !multi {
		if cond != nil && !cond() {
			Deadlock()
		}
		return
	}
	me := cur
	me.blocked = cond
	switchTo(me, pick(me))
	me.blocked = nil
}

// Go starts f as a scheduled goroutine.
func Go(f func()) func() bool {
	t := &thread{id: len(threads), resume: make(chan struct{})}
	threads = append(threads, t)
	multi = true
	go func() {
		<-t.resume
		f()
		t.done = true
		next := pick(t)
		cur = next
		next.resume <- struct{}{}
	}()
	return func() bool { return t.done }
}

// Par runs the functions and waits for them.
func Par(fs ...func()) {
	var ds []func() bool
	for _, f := range fs {
		ds = append(ds, Go(f))
	}
	Point(func() bool {
		for _, d := range ds {
			if !d() {
				return false
			}
		}
		return true
	})
	live := 0
	for _, t := range threads {
		if !t.done {
			live++
		}
	}
	if live == 1 {
		multi = false
	}
}
