// Package vsched is the controlled scheduler: of the threads of a session only
// one runs at a time, and it gives way only at a scheduling point named by the
// session's script, when it blocks, or when it ends. It is laid into the module
// under test by go build -overlay, together with calls of Point before every
// statement.
package vsched

// Switch makes the running thread give way to To at point number Step.
type Switch struct{ Step, To int }

type thread struct {
	wake    chan struct{}
	done    bool
	blocked any
	started bool
}

var (
	active  bool
	cur     int
	step    int
	script  []Switch
	pos     int
	threads []*thread
	finish  chan struct{}
	stuck   chan struct{}
	// curAt[s-1] is the thread at point s, enAt[s-1] the set of others that
	// could have run.
	curAt, enAt []uint8
	limit       int
	alone       int // points since the last hand-over
)

// patience is the number of points after which a thread gives way by itself.
const patience = 20000

// Trace is what a session went through.
type Trace struct {
	Steps    int
	Cur, En  []uint8
	Deadlock bool
	Used     int // switches of the script that took place
}

// Point is a scheduling point.
//
//go:norace
func Point() {
	if !active {
		return
	}
	step++
	if step <= limit {
		curAt = append(curAt, uint8(cur))
		enAt = append(enAt, others())
	}
	alone++
	if pos < len(script) && script[pos].Step == step {
		t := script[pos].To
		pos++
		if t != cur && runnable(t) {
			hand(t)
		}
	} else if alone > patience { // a thread that spins
		for k := 1; k < len(threads); k++ {
			if t := (cur + k) % len(threads); runnable(t) {
				hand(t)
				break
			}
		}
	}
}

//go:norace
func others() (m uint8) {
	for i, t := range threads {
		if i != cur && !t.done && t.blocked == nil {
			m |= 1 << uint(i)
		}
	}
	return
}

//go:norace
func runnable(t int) bool {
	return t < len(threads) && !threads[t].done && threads[t].blocked == nil
}

// hand passes the processor to t and waits until it comes back.
//
//go:norace
func hand(t int) {
	self := threads[cur]
	cur = t
	alone = 0
	raceOff()
	threads[t].wake <- struct{}{}
	<-self.wake
	raceOn()
}

// Active tells whether a session is running.
//
//go:norace
func Active() bool { return active }

// Block parks the running thread until Wake(on).
//
//go:norace
func Block(on any) {
	self := threads[cur]
	self.blocked = on
	for i := range threads {
		if runnable(i) {
			hand(i)
			return
		}
	}
	close(stuck)
	raceOff()
	<-self.wake // forever
}

// Wake makes the threads parked on on runnable again.
//
//go:norace
func Wake(on any) {
	if !active {
		return
	}
	for _, t := range threads {
		if t.blocked == on {
			t.blocked = nil
		}
	}
}

//go:norace
func ended(i int) {
	threads[i].done = true
	for k := range threads {
		if runnable(k) {
			cur = k
			raceOff()
			threads[k].wake <- struct{}{}
			raceOn()
			return
		}
	}
	for _, t := range threads {
		if !t.done {
			close(stuck)
			return
		}
	}
}

//go:norace
func setup(n, first int, s []Switch) {
	threads = nil
	for i := 0; i < n; i++ {
		threads = append(threads, &thread{wake: make(chan struct{}, 1)})
	}
	cur, step, script, pos, alone = first, 0, s, 0, 0
	curAt, enAt = curAt[:0], enAt[:0]
	limit = 1 << 20
	finish, stuck = make(chan struct{}, n), make(chan struct{})
}

//go:norace
func arrive(i int) {
	raceOff()
	<-threads[i].wake
	raceOn()
}

//go:norace
func start(first int) {
	active = true
	raceOff()
	threads[first].wake <- struct{}{}
	raceOn()
}

//go:norace
func stop() Trace {
	active = false
	return Trace{Steps: step, Cur: append([]uint8(nil), curAt...), En: append([]uint8(nil), enAt...), Used: pos}
}

// Run executes the bodies under the script, thread first going first. The
// bodies must not panic.
func Run(first int, s []Switch, bodies ...func()) Trace {
	setup(len(bodies), first, s)
	for i, b := range bodies {
		i, b := i, b
		go func() {
			arrive(i)
			b()
			ended(i)
			finish <- struct{}{}
		}()
	}
	start(first)
	for range bodies {
		select {
		case <-finish:
		case <-stuck:
			t := stop()
			t.Deadlock = true
			return t
		}
	}
	return stop()
}
