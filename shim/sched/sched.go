// Package sched runs goroutines under a cooperative scheduler that decides, at
// every synchronisation operation, which of them goes on. Every schedule up to
// a preemption bound is explored.
//
// The scheduler hands over by spinning on plain memory in functions that the
// race detector does not look at. Handing over therefore orders nothing as far
// as the race detector is concerned: only the synchronisation of the code
// under test does, and the race detector finds the races of the schedule being
// run, whatever their timing is.
package sched

import (
	"fmt"
	"runtime"
	"sync"
	"time"
	"unsafe"
)

// Instrumented tells whether the library was built with its synchronisation
// replaced.
var Instrumented bool

// Unmodelled names constructs in the library that the scheduler does not
// control.
var Unmodelled []string

var resets []func()

// OnReset registers a function that restores the initial state of the package
// variables of a package. Packages register in order of their initialisation.
func OnReset(f func()) { resets = append(resets, f) }

// Reset restores the initial state of all instrumented packages.
func Reset() {
	for _, f := range resets {
		f()
	}
}

const (
	maxThreads   = 8
	maxDecisions = 1 << 20
	maxStreak    = 10000
	maxPoints    = 20 * maxStreak
)

const (
	mainThread = -1
	running    = 0
	blocked    = 1
	finished   = 2
)

// The state of the scheduler. It is only touched by functions that the race
// detector ignores, and only by the goroutine whose turn it is.
var (
	active      bool
	cur         int32
	nthreads    int32
	state       [maxThreads]int32
	waitsOn     [maxThreads]unsafe.Pointer
	bound       int
	preemptions int
	points      int64
	streak      int64 // points passed without handing over
	generation  int64
	deadlock    bool
	limited     bool
	livelock    bool

	choice    [maxDecisions]uint8
	limit     [maxDecisions]uint8
	nchoice   int // length of the prefix to follow
	decisions int
	mismatch  bool
)

// waitTurn waits until it is the turn of a goroutine. Goroutines of runs that
// have been given up never go on.
//
//go:norace
func waitTurn(id int32, g int64) {
	for cur != id || generation != g {
		if generation != g {
			select {}
		}
		runtime.Gosched()
	}
	streak = 0
}

// decide takes the next decision among n alternatives.
//
//go:norace
func decide(n int) int {
	if n <= 1 {
		return 0
	}
	if decisions >= maxDecisions {
		limited = true
		return 0
	}
	d := decisions
	decisions++
	if d < nchoice {
		if int(choice[d]) >= n {
			mismatch = true
			return 0
		}
		if int(limit[d]) != n {
			mismatch = true
			limit[d] = uint8(n)
		}
		return int(choice[d])
	}
	choice[d] = 0
	limit[d] = uint8(n)
	return 0
}

// Point is a scheduling point: another goroutine may go on first.
//
//go:norace
func Point() {
	if !active {
		return
	}
	me, g := cur, generation
	points++
	if streak++; streak > maxStreak {
		// It seems to be waiting for another goroutine.
		if points > maxPoints {
			livelock = true
			cur = mainThread
			waitTurn(me, g)
		}
		for i := int32(1); i <= nthreads; i++ {
			if j := (me + i) % nthreads; j != me && state[j] == running {
				cur = j
				waitTurn(me, g)
				return
			}
		}
		streak = 0
	}
	if preemptions >= bound {
		return
	}
	var cand [maxThreads]int32
	n := 1
	cand[0] = me
	for i := int32(0); i < nthreads; i++ {
		if i != me && state[i] == running {
			cand[n] = i
			n++
		}
	}
	k := decide(n)
	if k == 0 {
		return
	}
	preemptions++
	cur = cand[k]
	waitTurn(me, g)
}

// Block waits until the object is woken up.
//
//go:norace
func Block(obj unsafe.Pointer) {
	if !active {
		panic("sched: a call blocks with nothing else running")
	}
	me, g := cur, generation
	state[me] = blocked
	waitsOn[me] = obj
	yield()
	waitTurn(me, g)
}

// Wake lets everything that waits on an object go on.
//
//go:norace
func Wake(obj unsafe.Pointer) {
	if !active {
		return
	}
	for i := int32(0); i < nthreads; i++ {
		if state[i] == blocked && waitsOn[i] == obj {
			state[i] = running
			waitsOn[i] = nil
		}
	}
}

// WakeOne lets one of those that wait on an object go on.
//
//go:norace
func WakeOne(obj unsafe.Pointer) {
	if !active {
		return
	}
	for i := int32(0); i < nthreads; i++ {
		if state[i] == blocked && waitsOn[i] == obj {
			state[i] = running
			waitsOn[i] = nil
			return
		}
	}
}

// yield hands over to another goroutine.
//
//go:norace
func yield() {
	var cand [maxThreads]int32
	n := 0
	alive := false
	for i := int32(0); i < nthreads; i++ {
		if state[i] == running {
			cand[n] = i
			n++
		}
		if state[i] != finished {
			alive = true
		}
	}
	if n == 0 {
		if alive {
			deadlock = true
		}
		cur = mainThread
		return
	}
	cur = cand[decide(n)]
}

//go:norace
func finish(me int32) {
	state[me] = finished
	yield()
}

//go:norace
func begin(n, b, prefix int) {
	active = true
	generation++
	streak, livelock = 0, false
	nthreads = int32(n)
	for i := range state {
		state[i] = running
		waitsOn[i] = nil
	}
	bound, preemptions, points, decisions, nchoice = b, 0, 0, 0, prefix
	deadlock, limited = false, false
	cur = mainThread
}

//go:norace
func release() {
	var cand [maxThreads]int32
	for i := int32(0); i < nthreads; i++ {
		cand[i] = i
	}
	cur = cand[decide(int(nthreads))]
}

// wait spins until every goroutine has finished, or none can go on.
//
//go:norace
func wait() (hang bool) {
	last, since := int64(-1), time.Now()
	for i := 0; cur != mainThread; i++ {
		runtime.Gosched()
		if i&0xff == 0xff {
			if points != last {
				last, since = points, time.Now()
			} else if time.Since(since) > 60*time.Second {
				return true
			}
		}
	}
	return false
}

//go:norace
func end() { active = false }

func thread(id int32, g int64, f func(), wg *sync.WaitGroup) {
	waitTurn(id, g)
	f()
	finish(id)
	wg.Done()
}

// Outcome is what happened in one schedule.
type Outcome struct {
	Points      int64
	Preemptions int
	Deadlock    bool
	Hang        bool
}

func run(threads []func(), b, prefix int) Outcome {
	var wg sync.WaitGroup
	wg.Add(len(threads))
	begin(len(threads), b, prefix)
	for i, f := range threads {
		go thread(int32(i), generation, f, &wg)
	}
	release()
	var o Outcome
	o.Hang = wait() || livelock
	end()
	o.Points, o.Preemptions, o.Deadlock = points, preemptions, deadlock
	if !o.Hang && !o.Deadlock {
		wg.Wait()
	}
	return o
}

// Stats counts what was explored.
type Stats struct {
	Schedules int64
	Points    int64
	Complete  bool
	// Nondeterministic is set when repeating a prefix of a schedule did not
	// lead to the same alternatives.
	Nondeterministic bool
}

// Explore runs threads under every schedule with at most b preemptions. Each
// run begins with setup, which returns the threads, and ends with check.
func Explore(b int, max int64, setup func() []func(), check func(o Outcome) bool) (st Stats) {
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	prefix := 0
	mismatch = false
	for {
		o := run(setup(), b, prefix)
		st.Schedules++
		st.Points += o.Points
		if !check(o) || o.Hang || o.Deadlock {
			return st
		}
		n := decisions
		for n > 0 && int(choice[n-1])+1 >= int(limit[n-1]) {
			n--
		}
		if n == 0 {
			st.Complete = !limited
			st.Nondeterministic = mismatch
			return st
		}
		choice[n-1]++
		prefix = n
		if st.Schedules >= max {
			st.Nondeterministic = mismatch
			return st
		}
	}
}

// Schedule describes the decisions of the last run.
func Schedule() string {
	s := ""
	for i := 0; i < decisions; i++ {
		s += fmt.Sprintf("%d/%d ", choice[i], limit[i])
	}
	return s
}
