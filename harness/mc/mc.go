// Package mc is the exploration engine shared by all checks: it enumerates the
// cases (model traces) of a property deterministically, replays every one of
// them against the real code in sharded worker processes, counts states and
// transitions, and turns a failing trace into a replayable artefact.
package mc

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Check is one property's exploration.
type Check struct {
	ID    string
	Rule  string   // alphabet, bound and oracle, one paragraph
	Assum []string // assumptions
	// Explore enumerates every case by calling c.Case.
	Explore func(c *C)
	// Procs > 0 overrides the number of worker processes.
	Procs int
	// Dynamic lets the workers claim cases one by one, for cases of very
	// different cost; at most maxClaims cases.
	Dynamic bool
}

// C is the exploration context handed to a check.
type C struct {
	Thorough bool
	Seed     int64
	// Dir is a scratch directory shared by the workers of this run, or empty.
	Dir        string
	shard, n   int
	next       int64
	only       string
	until      bool // with only: run the shard's cases up to that one
	deadline   time.Time
	stopped    bool
	incomplete bool

	cases, trans int64
	states       map[uint64]struct{}
	outcomes     map[string]int64
	samples      []string
	viols        []Viol
	known        []Known
	hit          map[string]string
	mark, claims []byte
	t            *T
	notes        map[string]string
}

// Viol is one failing case.
type Viol struct {
	Case    string `json:"case"`
	Message string `json:"message"`
	// After names the worker whose earlier cases are needed to reproduce the
	// failure: the state they left behind in the process is part of it.
	After *Shard `json:"after,omitempty"`
}

// Shard is one worker's part of the cases.
type Shard struct{ Shard, Of int }

// Known is a listed finding: suppressed only for exactly this case.
type Known struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	// Match must be contained in the failure message, so that another failure
	// of the same case is still reported.
	Match string `json:"match"`
}

// T is one case in execution.
type T struct {
	c    *C
	name string
	errs []string
}

type abort struct{}

// Failf records a violation and ends the case.
func (t *T) Failf(f string, a ...any) {
	t.errs = append(t.errs, fmt.Sprintf(f, a...))
	panic(abort{})
}

// Known records a deviation that is a listed finding under the given name, or
// fails the case if none is listed.
func (t *T) Known(name, f string) {
	for _, k := range t.c.known {
		if k.Case == name {
			t.c.hit[name] = k.What
			return
		}
	}
	t.Failf("%s", f)
}

// Steps counts n transitions.
func (t *T) Steps(n int64) {
	t.c.trans += n
	if b := t.c.mark; b != nil { // sign of life
		binary.LittleEndian.PutUint64(b[len(b)-8:], uint64(t.c.trans))
	}
}

// Expired tells a long case that the time budget is used up; the case then
// ends early and the exploration counts as cut.
func (t *T) Expired() bool {
	if t.c.only == "" && time.Now().After(t.c.deadline) {
		t.c.stopped = true
		return true
	}
	return false
}

// OutcomeN counts n outcomes of a class.
func (t *T) OutcomeN(s string, n int64) { t.c.outcomes[s] += n }

// Incomplete marks the exploration as not exhaustive within its bounds.
func (c *C) Incomplete(why string) { c.incomplete = true; c.notes["incomplete"] = why }

// Step counts one transition compared between model and implementation.
func (t *T) Step() { t.Steps(1) }

// State records a distinct abstract state visited.
func (t *T) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	t.c.states[h.Sum64()] = struct{}{}
}

// Outcome counts a class of observed outcome.
func (t *T) Outcome(s string) { t.c.outcomes[s]++ }

// Note records a coverage remark.
func (c *C) Note(k, v string) { c.notes[k] = v }

// Case runs f as one case if it belongs to this shard. The name must be unique
// and identifies the case in replay files and in the known-findings list.
func (c *C) Case(name func() string, f func(t *T)) {
	i := c.next
	c.next++
	if c.until {
		if i%int64(c.n) != int64(c.shard) || c.stopped {
			return
		}
		nm := name()
		v := c.exec(nm, f)
		if nm == c.only {
			c.cases, c.stopped = 1, true
			if v != nil {
				c.viols = append(c.viols, *v)
			}
		}
		return
	}
	if c.only != "" {
		if name() != c.only {
			return
		}
	} else if c.claims == nil && i%int64(c.n) != int64(c.shard) {
		return
	}
	if c.stopped {
		return
	}
	if c.claims != nil && c.only == "" {
		if i >= maxClaims {
			panic("too many cases to claim")
		}
		if !atomic.CompareAndSwapUint32((*uint32)(unsafe.Pointer(&c.claims[4*i])), 0, 1) {
			return
		}
	}
	if c.cases&63 == 0 && c.only == "" && time.Now().After(c.deadline) {
		c.stopped = true
		return
	}
	nm := name()
	c.setMark(i, nm)
	c.cases++
	v := c.exec(nm, f)
	if len(c.samples) < 3 && (c.cases == 1 || c.cases == 97 || c.cases == 1009) {
		c.samples = append(c.samples, nm)
	}
	if v != nil {
		for _, k := range c.known {
			if k.Case == nm && k.Match != "" && strings.Contains(v.Message, k.Match) {
				c.hit[nm] = k.What
				return
			}
		}
		if len(c.viols) < 5 {
			if c.claims == nil && c.only == "" {
				v.After = &Shard{c.shard, c.n}
			}
			c.viols = append(c.viols, *v)
		}
		if len(c.viols) >= 5 {
			c.stopped = true
		}
	}
}

// N is a shorthand for a constant case name.
func N(format string, a ...any) func() string {
	return func() string { return fmt.Sprintf(format, a...) }
}

func (c *C) exec(nm string, f func(t *T)) (v *Viol) {
	t := &T{c: c, name: nm}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				v = &Viol{Case: nm, Message: strings.Join(t.errs, "; ")}
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			v = &Viol{Case: nm, Message: fmt.Sprintf("panic: %v\n%s", r, st)}
		}
	}()
	f(t)
	return nil
}

// Any runs the alternatives in turn until one passes; the case fails like the
// first one if none does.
func (t *T) Any(fs ...func()) {
	n := len(t.errs)
	var first []string
	for _, f := range fs {
		if ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(abort); !is {
						panic(r)
					}
				}
			}()
			f()
			return true
		}(); ok {
			t.errs = t.errs[:n]
			return
		}
		if first == nil {
			first = append([]string(nil), t.errs...)
		}
		t.errs = t.errs[:n]
	}
	t.errs = first
	panic(abort{})
}

// Try runs f and converts a panic into a case failure with context.
func (t *T) Try(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				panic(r)
			}
			t.errs = append(t.errs, fmt.Sprintf("%s panicked: %v", what, r))
			panic(abort{})
		}
	}()
	f()
}

func (c *C) setMark(i int64, nm string) {
	if c.mark == nil {
		return
	}
	b := c.mark
	binary.LittleEndian.PutUint64(b[0:], uint64(i)+1)
	n := copy(b[16:len(b)-8], nm)
	binary.LittleEndian.PutUint64(b[8:], uint64(n))
}

// Sub distinguishes whether the exploration was cut.
func (c *C) Stopped() bool { return c.stopped }

type result struct {
	Cases, Trans int64
	Outcomes     map[string]int64
	Samples      []string
	Viols        []Viol
	Hit          map[string]string
	Notes        map[string]string
	Stopped      bool
	Total        int64
	States       int
}

// Main is the entry point of a check binary.
func Main(checks []Check) {
	id := flag.String("check", "", "property id")
	worker := flag.Int("worker", -1, "internal: shard number")
	n := flag.Int("n", 0, "number of workers")
	dir := flag.String("dir", "", "internal: work directory")
	only := flag.String("case", "", "run only this case (replay)")
	replay := flag.String("replay", "", "replay file")
	verif := flag.String("verif", "/verif", "framework directory")
	budget := flag.Int("budget", 0, "seconds before the exploration is cut")
	flag.Parse()

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var after *Shard
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		var r struct {
			Property, Tier, Case string
			After                *Shard
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fatal(err)
		}
		*id, *only, tier, after = r.Property, r.Case, r.Tier, r.After
	}
	var ck *Check
	for i := range checks {
		if checks[i].ID == *id {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fatal(fmt.Errorf("no check %q", *id))
	}
	bud := *budget
	if bud == 0 {
		bud = 400
		if tier == "thorough" {
			bud = 3000
		}
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.json"), *id)
	newC := func(shard, n int) *C {
		return &C{Thorough: tier == "thorough", Seed: seed, shard: shard, n: n,
			states: map[uint64]struct{}{}, outcomes: map[string]int64{}, hit: map[string]string{}, notes: map[string]string{},
			known: known, deadline: time.Now().Add(time.Duration(bud) * time.Second)}
	}
	if *worker >= 0 {
		c := newC(*worker, *n)
		c.Dir = *dir
		c.only = *only
		c.mark = shared(filepath.Join(*dir, fmt.Sprintf("mark%d", *worker)), 1<<16)
		if ck.Dynamic && c.only == "" {
			if c.claims = shared(filepath.Join(*dir, "claims"), 4*maxClaims); c.claims == nil {
				fatal(fmt.Errorf("no shared memory"))
			}
		}
		ck.Explore(c)
		if c.only == "" {
			writeStates(filepath.Join(*dir, fmt.Sprintf("states%d", *worker)), c.states)
		}
		r := result{c.cases, c.trans, c.outcomes, c.samples, c.viols, c.hit, c.notes, c.stopped && len(c.viols) < 5 || c.incomplete, c.next, len(c.states)}
		b, _ := json.Marshal(r)
		if err := os.WriteFile(filepath.Join(*dir, fmt.Sprintf("result%d", *worker)), b, 0o644); err != nil {
			fatal(err)
		}
		return
	}
	if *only != "" {
		c := newC(0, 1)
		c.only = *only
		if after != nil {
			c.until, c.shard, c.n = true, after.Shard, after.Of
		}
		ck.Explore(c)
		if c.cases == 0 {
			fmt.Println("no such case in this exploration")
			os.Exit(2)
		}
		for _, v := range c.viols {
			fmt.Printf("case %s: %s\n", v.Case, v.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *id, *replay)
			os.Exit(1)
		}
		for k, w := range c.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", *id, w, k)
		}
		fmt.Println("case holds")
		return
	}
	os.Exit(parent(ck, *verif, tier, seed, *n, bud))
}

const maxClaims = 1 << 18

func shared(p string, size int) []byte {
	f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if f.Truncate(int64(size)) != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

func alive(p string) (i int64, beat uint64) {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 24 {
		return 0, 0
	}
	return int64(binary.LittleEndian.Uint64(b)), binary.LittleEndian.Uint64(b[len(b)-8:])
}

func readMark(p string) (int64, string) {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 16 {
		return 0, ""
	}
	i := int64(binary.LittleEndian.Uint64(b))
	n := int(binary.LittleEndian.Uint64(b[8:]))
	if n > len(b)-16 {
		n = len(b) - 16
	}
	return i, string(b[16 : 16+n])
}

func writeStates(p string, m map[uint64]struct{}) {
	f, err := os.Create(p)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var b [8]byte
	for k := range m {
		binary.LittleEndian.PutUint64(b[:], k)
		w.Write(b[:])
	}
	w.Flush()
	f.Close()
}

const hang = 150 * time.Second

// runWorker runs one worker process; it returns how it ended.
func runWorker(args []string, mark string) (out string, hung bool, err error) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = os.Environ()
	var sb strings.Builder
	lw := &limited{sb: &sb, max: 20000}
	cmd.Stdout, cmd.Stderr = lw, lw
	if err := cmd.Start(); err != nil {
		return "", false, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastBeat, since := int64(-1), uint64(0), time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			return sb.String(), false, err
		case <-tick.C:
			i, beat := alive(mark)
			if i != last || beat != lastBeat {
				last, lastBeat, since = i, beat, time.Now()
			} else if i > 0 && time.Since(since) > hang {
				cmd.Process.Kill()
				<-done
				return sb.String(), true, fmt.Errorf("no progress for %s", hang)
			}
		}
	}
}

type limited struct {
	mu  sync.Mutex
	sb  *strings.Builder
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if r := l.max - l.sb.Len(); r > 0 {
		if r > len(p) {
			r = len(p)
		}
		l.sb.Write(p[:r])
	}
	return len(p), nil
}

func parent(ck *Check, verif, tier string, seed int64, n, budget int) int {
	start := time.Now()
	if n == 0 {
		n = ck.Procs
	}
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	dir, err := os.MkdirTemp("", "mc-"+ck.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	type end struct {
		out  string
		hung bool
		err  error
	}
	ends := make([]end, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			a := []string{"-check", ck.ID, "-worker", fmt.Sprint(i), "-n", fmt.Sprint(n), "-dir", dir, "-verif", verif, "-budget", fmt.Sprint(budget)}
			o, h, e := runWorker(a, filepath.Join(dir, fmt.Sprintf("mark%d", i)))
			ends[i] = end{o, h, e}
		}(i)
	}
	wg.Wait()
	var tot result
	tot.Outcomes, tot.Hit, tot.Notes = map[string]int64{}, map[string]string{}, map[string]string{}
	states := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result%d", i)))
		if err != nil {
			// the worker died or hung inside a case: confirm on that case alone
			_, nm := readMark(filepath.Join(dir, fmt.Sprintf("mark%d", i)))
			if nm == "" {
				fmt.Fprintf(os.Stderr, "worker %d failed outside any case: %v\n%s\n", i, ends[i].err, ends[i].out)
				return 2
			}
			d2 := filepath.Join(dir, fmt.Sprintf("re%d", i))
			os.Mkdir(d2, 0o755)
			o, h, e := runWorker([]string{"-check", ck.ID, "-worker", "0", "-n", "1", "-dir", d2, "-verif", verif, "-case", nm}, filepath.Join(d2, "mark0"))
			msg := fmt.Sprintf("the process died in this case: %v\n%s", ends[i].err, tail(ends[i].out))
			if ends[i].hung {
				msg = fmt.Sprintf("no answer within %s", hang)
			}
			if e == nil && !h {
				msg += " (not reproduced when the case ran alone)"
			} else {
				msg += "\nalone: " + fmt.Sprint(e) + "\n" + tail(o)
			}
			tot.Viols = append(tot.Viols, Viol{Case: nm, Message: msg})
			continue
		}
		var r result
		if err := json.Unmarshal(b, &r); err != nil {
			fatal(err)
		}
		tot.Cases += r.Cases
		tot.Trans += r.Trans
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Hit {
			tot.Hit[k] = v
		}
		for k, v := range r.Notes {
			tot.Notes[k] = v
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		tot.Viols = append(tot.Viols, r.Viols...)
		tot.Stopped = tot.Stopped || r.Stopped
		sb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("states%d", i)))
		for j := 0; j+8 <= len(sb); j += 8 {
			states[binary.LittleEndian.Uint64(sb[j:])] = struct{}{}
		}
	}
	// which failures need the cases before them? (those not tried in time keep After,
	// whose replay reproduces either kind)
	var again sync.WaitGroup
	slots, t0 := make(chan bool, n), time.Now()
	for i := range tot.Viols {
		v := &tot.Viols[i]
		if v.After == nil {
			continue
		}
		again.Add(1)
		go func(i int) {
			defer again.Done()
			slots <- true
			defer func() { <-slots }()
			if time.Since(t0) > time.Minute {
				return
			}
			d2 := filepath.Join(dir, fmt.Sprintf("again%d", i))
			os.Mkdir(d2, 0o755)
			_, _, e := runWorker([]string{"-check", ck.ID, "-worker", "0", "-n", "1", "-dir", d2, "-verif", verif, "-case", v.Case}, filepath.Join(d2, "mark0"))
			var r result
			b, _ := os.ReadFile(filepath.Join(d2, "result0"))
			if e != nil || json.Unmarshal(b, &r) != nil || len(r.Viols) > 0 {
				v.After = nil // fails alone
			} else {
				v.Message += fmt.Sprintf(" (holds alone; fails after the cases before it, which worker %d of %d ran in the same process)", v.After.Shard, v.After.Of)
			}
		}(i)
	}
	again.Wait()
	return Report(ck, verif, tier, seed, Totals{Cases: tot.Cases, Trans: tot.Trans, States: int64(len(states)), Outcomes: tot.Outcomes,
		Samples: tot.Samples, Viols: tot.Viols, Hit: tot.Hit, Notes: tot.Notes, Exhaustive: !tot.Stopped, Wall: time.Since(start)})
}

// Totals is what a run covered.
type Totals struct {
	Cases, Trans, States int64
	Outcomes             map[string]int64
	Samples              []string
	Viols                []Viol
	Hit                  map[string]string
	Notes                map[string]string
	Exhaustive           bool
	Wall                 time.Duration
	Extra                map[string]any
}

// Report writes evidence and replay files, prints verdict lines, returns the exit code.
func Report(ck *Check, verif, tier string, seed int64, t Totals) int {
	sort.Slice(t.Viols, func(i, j int) bool {
		if len(t.Viols[i].Case) != len(t.Viols[j].Case) {
			return len(t.Viols[i].Case) < len(t.Viols[j].Case)
		}
		return t.Viols[i].Case < t.Viols[j].Case
	})
	outc := map[string]int64{}
	for k, v := range t.Outcomes {
		outc[k] = v
	}
	cov := map[string]any{
		"states": t.States, "transitions": t.Trans, "traces_validated_against_impl": t.Cases,
		"distinct_outcomes": outc, "rule": ck.Rule, "exhaustive": t.Exhaustive, "samples": t.Samples,
		"known_findings_hit": len(t.Hit),
	}
	if len(t.Notes) > 0 {
		cov["notes"] = t.Notes
	}
	for k, v := range t.Extra {
		cov[k] = v
	}
	if t.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": ck.Assum, "wall_s": float64(int(t.Wall.Seconds()*100)) / 100, "violations": len(t.Viols)}
	if ck.Assum == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	var ks []string
	for k := range t.Hit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", ck.ID, t.Hit[k], k)
	}
	fmt.Printf("%s %s: traces=%d transitions=%d states=%d outcomes=%v exhaustive=%v wall=%.1fs\n", ck.ID, tier, t.Cases, t.Trans, t.States, t.Outcomes, t.Exhaustive, t.Wall.Seconds())
	if len(t.Viols) == 0 {
		return 0
	}
	rd := filepath.Join(verif, "replay")
	os.MkdirAll(rd, 0o755)
	for i, v := range t.Viols {
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", ck.ID, i))
		rb, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "tier": tier, "case": v.Case, "message": v.Message, "after": v.After,
			"how": "bash /verif/run.sh replay " + p}, "", " ")
		os.WriteFile(p, append(rb, '\n'), 0o644)
		fmt.Printf("case %s: %s\n", v.Case, v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
	}
	return 1
}

func tail(s string) string {
	if len(s) > 2500 {
		return s[:2500]
	}
	return s
}

// LoadKnown reads the committed findings for a property.
func LoadKnown(verif, id string) []Known {
	return loadKnown(filepath.Join(verif, "known_findings.json"), id)
}

func loadKnown(p, id string) []Known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var f struct{ Known []Known }
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(err)
	}
	var o []Known
	for _, k := range f.Known {
		if k.Property == id {
			o = append(o, k)
		}
	}
	return o
}

var failed atomic.Bool

func fatal(err error) {
	failed.Store(true)
	fmt.Fprintln(os.Stderr, "mc:", err)
	os.Exit(2)
}
