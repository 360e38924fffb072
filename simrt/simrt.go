// Package simrt is the deterministic scheduler. Simulated tasks are real
// goroutines inside a testing/synctest bubble that are parked and released one
// at a time by the root goroutine. Every scheduling decision comes either from
// a seeded PRNG or from an explicit decision list (replay).
//
// All functions that touch scheduler state are marked go:norace and never use
// maps or growing slices, so that a -race build sees exactly the happens-before
// edges of the system under test: tasks never synchronise through the
// scheduler, except that they observe what the root prepared for them.
package simrt

import (
	"bytes"
	"cmp"
	"os"
	"runtime"
	"sort"
	"sync"
	"testing/synctest"
	"time"
)

// task states
const (
	stNew = iota
	stReady
	stRunning
	stWaiting
	stDone
)

// MaxTasks bounds the number of unfinished tasks.
const MaxTasks = 2048

// Task is one simulated thread.
type Task struct {
	ID     int
	Name   string
	Group  int // crash domain: 1 = server side
	Op     int // operation id for entropy accounting (-1 none)
	resume chan struct{}
	state  int
	cond   func() bool
	sleep  time.Duration // pending pause (absolute sim time) if > 0
	wakeAt time.Time
	y      int // local scheduling points passed
	prio   int
	kill   bool
	unwind bool // killed, but not resumed since
	ext    bool
	goid   uint64
	rgoid  uint64 // goroutine number of an adopted task, else 0
	nkids  int
	parent *Task
	dying  bool
	sync   byte // address of the root -> task happens-before edge

	PanicVal   interface{}
	PanicStack string
	Panicked   bool
}

// Decision records one non-default scheduling choice.
type Decision struct {
	T    string `json:"t"`           // task that stopped ("" if none)
	Y    int    `json:"y"`           // its local scheduling point
	Next string `json:"n,omitempty"` // task to run next
}

// Strategy selects how schedules are sampled.
type Strategy struct {
	Kind    int     `json:"kind"` // 0 run-to-completion, 1 random walk, 2 priority (PCT), 3 explicit
	P       float64 `json:"p,omitempty"`
	Changes []int   `json:"changes,omitempty"` // PCT change points (global steps)
	Seed    uint64  `json:"seed,omitempty"`
}

// Pause is a fault: the named task sleeps for D when passing point Y.
type Pause struct {
	T string        `json:"t"`
	Y int           `json:"y"`
	D time.Duration `json:"d"`
}

// Sched is the scheduler of one run.
type Sched struct {
	n      int
	live   [MaxTasks]*Task // not finished
	nlive  int
	strat  Strategy
	rng    Rand
	steps  int
	fore   int // steps of tasks that belong to an operation
	quiet  int // steps since the last progress
	over   int // steps beyond the limit
	maxSt  int
	last   *Task
	prefer *Task

	explicit []Decision
	expUsed  []bool

	log      []Decision // decisions actually taken that differ from default
	nlog     int
	Switches int
	Hash     uint64 // hash over the switch sequence
	picks    int

	pauses      []Pause
	CrashT      string // crash when this task passes point CrashY
	CrashY      int
	Crashed     bool
	PausesFired int

	Fatal      string
	StepsOut   bool
	extCount   int
	extWake    chan struct{}
	ntimer     int
	settimer   int
	ranges     uint64
	fired      *fired
	ended      bool
	kills      int // crashes of the process so far
	lowPrio    int
	siteHits   []uint32
	BlockedExt int
	root       uint64 // the goroutine of the root
	nadopt     int
}

var decisionBuf [8192]Decision

// PreemptSites counts preemptions per site.
var PreemptSites [8192]uint32

var (
	cur *Task
	s   *Sched
)

// Sites is the number of instrumented sites seen (coverage), indexed by id.
var SiteCover [8192]uint32

// Rand is a small deterministic PRNG (splitmix64).
type Rand struct{ s uint64 }

// NewRand seeds a generator.
//
//go:norace
func NewRand(seed uint64) Rand { return Rand{seed} }

// U64 returns the next value.
//
//go:norace
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
//
//go:norace
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// F returns a float in [0,1).
//
//go:norace
func (r *Rand) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// NewSched installs a scheduler for one run. Root only.
func NewSched(strat Strategy, explicit []Decision, pauses []Pause, maxSteps int) *Sched {
	x := &Sched{strat: strat, rng: NewRand(strat.Seed ^ 0x5ced), maxSt: maxSteps, explicit: explicit, pauses: pauses, extWake: make(chan struct{}, 1)}
	x.expUsed = make([]bool, len(explicit))
	x.log = decisionBuf[:]
	x.Hash = 1469598103934665603
	x.root = curGoid()
	s = x
	cur = nil
	return x
}

var resets []func()

// Register adds a function that initialises package variables of the system
// under test.
func Register(fn func()) { resets = append(resets, fn) }

// Again runs an init function once more. One that cannot (because it registers
// something outside of its package, say) is stopped by its panic.
func Again(fn func()) {
	defer func() { _ = recover() }()
	fn()
}

// ResetState gives the package variables of the system under test the values
// they have when a process starts. It reports whether that went well.
func ResetState() (ok bool) {
	if os.Getenv("SIM_NORESET") != "" {
		return true
	}
	defer func() { ok = recover() == nil }()
	for _, fn := range resets {
		fn()
	}
	return
}

// AddPause adds a pause fault during the run. Root only.
//
//go:norace
func (x *Sched) AddPause(p Pause) { x.pauses = append(append([]Pause(nil), x.pauses...), p) }

// Done uninstalls the scheduler.
func Done() { s = nil; cur = nil }

// Log returns the decisions taken.
func (x *Sched) Log() []Decision { return append([]Decision(nil), x.log[:x.nlog]...) }

// Progress tells the scheduler that the run got on: background activities may
// again take as many steps as they are granted.
//
//go:norace
func (x *Sched) Progress() { x.quiet = 0 }

// Grant gives the requests that follow their full number of steps.
//
//go:norace
func (x *Sched) Grant() { x.fore = 0 }

// Steps returns the number of scheduling points passed.
//
//go:norace
func (x *Sched) Steps() int { return x.steps }

// Cur returns the running task (nil on the root). A goroutine which the
// scheduler has not seen before (the standard library started it) becomes a
// task.
//
//go:norace
func Cur() *Task {
	x := s
	if x == nil {
		return nil
	}
	g := curGoid()
	if t := cur; t != nil && t.goid == g {
		return t
	}
	if g == x.root {
		return nil
	}
	if t := x.find(g); t != nil {
		return t
	}
	return x.adopt(g)
}

// find looks for the task of a goroutine other than the current task's.
//
//go:norace
func (x *Sched) find(g uint64) *Task {
	for i := 0; i < x.nlive; i++ {
		t := x.live[i]
		if t.goid != g {
			continue
		}
		if t.rgoid != 0 && t.rgoid != goroutineNumber() {
			// descriptors are used again
			adoptMu.Lock()
			x.unext(t)
			x.remove(t)
			adoptMu.Unlock()
			i--
			continue
		}
		return t
	}
	return nil
}

var adoptMu sync.Mutex

// adopt makes the running goroutine a task.
//
//go:norace
func (x *Sched) adopt(g uint64) *Task {
	if x.ended {
		runtime.Goexit()
	}
	t := &Task{Group: 1, Op: -1, goid: g, rgoid: goroutineNumber()}
	raceOff()
	adoptMu.Lock()
	x.nadopt++
	t.Name = "root.u"
	if p := cur; p != nil {
		t.Name, t.Group, t.Op = p.Name+".u", p.Group, p.Op
		t.kill = p.kill
	}
	t.Name += itoa(x.nadopt)
	if x.nlive >= MaxTasks {
		panic("simrt: too many tasks")
	}
	t.ID, t.resume = x.n, make(chan struct{})
	t.prio = 1000000 + x.nadopt*7919%1000000
	x.n++
	x.live[x.nlive] = t
	x.nlive++
	adoptMu.Unlock()
	select {
	case x.extWake <- struct{}{}:
	default:
	}
	raceOn()
	t.park(stReady)
	return t
}

// goroutineNumber returns the number of the running goroutine.
//
//go:norace
func goroutineNumber() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	v := uint64(0)
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		v = v*10 + uint64(c-'0')
	}
	return v
}

// reap removes adopted tasks whose goroutine has ended. Root only.
//
//go:norace
func (x *Sched) reap() {
	if x.nadopt == 0 {
		return
	}
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	for i := 0; i < x.nlive; i++ {
		t := x.live[i]
		if t.rgoid == 0 {
			continue
		}
		id := "goroutine " + itoa(int(t.rgoid)) + " "
		if !bytes.HasPrefix(b, []byte(id)) && !bytes.Contains(b, []byte("\n"+id)) {
			x.unext(t)
			x.remove(t)
			i--
		}
	}
}

//go:norace
func (x *Sched) remove(t *Task) {
	for i := 0; i < x.nlive; i++ {
		if x.live[i] == t {
			for j := i; j+1 < x.nlive; j++ {
				x.live[j] = x.live[j+1]
			}
			x.nlive--
			x.live[x.nlive] = nil
			return
		}
	}
}

// Spawn creates a task from the root.
//
//go:norace
func (x *Sched) Spawn(name string, group, op int, fn func()) *Task {
	t := x.newTask(name, group, op)
	launch(x, t, fn)
	return t
}

//go:norace
func (x *Sched) newTask(name string, group, op int) *Task {
	t := &Task{Name: name, Group: group, Op: op}
	x.addTask(t)
	return t
}

//go:norace
func (x *Sched) addTask(t *Task) {
	if x.nlive >= MaxTasks {
		panic("simrt: too many tasks")
	}
	t.ID, t.resume, t.state = x.n, make(chan struct{}), stReady
	t.prio = 1000000 + int(x.rng.U64()%1000000)
	x.n++
	x.live[x.nlive] = t
	x.nlive++
}

func launch(x *Sched, t *Task, fn func()) {
	go taskMain(x, t, fn)
}

//go:norace
func taskMain(x *Sched, t *Task, fn func()) {
	t.goid = curGoid()
	defer taskEnd(x, t)
	t.await()
	if t.kill {
		t.dying = true
		return
	}
	fn()
}

//go:norace
func taskEnd(x *Sched, t *Task) {
	if r := recover(); r != nil {
		t.Panicked = true
		t.PanicVal = r
		var b [4096]byte
		n := runtime.Stack(b[:], false)
		t.PanicStack = string(b[:n])
		if !t.kill {
			x.setFatal("panic in goroutine " + t.Name)
		}
	}
	if t.ext {
		x.unext(t)
		raceOff()
		select {
		case x.extWake <- struct{}{}:
		default:
		}
		raceOn()
	}
	t.state = stDone
	x.remove(t)
}

//go:norace
func (x *Sched) setFatal(m string) {
	if x.Fatal == "" {
		x.Fatal = m
	}
}

// SetFatal records an unrecoverable runtime failure of the simulated process
// (what the Go runtime would end with a fatal error) and stops the task.
//
//go:norace
func SetFatal(m string) {
	if s != nil {
		s.setFatal(m)
	}
	if t := Cur(); t != nil && !t.kill {
		runtime.Goexit()
	}
}

// Go is what `go` statements of the system under test become.
//
//go:norace
func Go(fn func()) {
	if s == nil {
		go fn()
		return
	}
	p := Cur()
	name, group, op := "root", 1, -1
	if p != nil {
		if p.kill {
			return
		}
		p.nkids++
		name, group, op = p.Name, p.Group, p.Op
		name = name + ".g" + itoa(p.nkids)
	} else {
		name = name + ".g" + itoa(s.n)
	}
	t := s.newTask(name, group, op)
	launch(s, t, fn)
	if p != nil {
		point(p, 0, true)
	}
}

// OnTimer turns the function of a timer into one that starts a task when the
// timer fires, so that its steps are scheduled like all others. Timers that
// fire at the same instant start their tasks in the order they were set.
//
//go:norace
func OnTimer(fn func()) func() {
	if s == nil {
		return fn
	}
	x, k := s, s.kills
	x.settimer++
	seq := x.settimer
	return func() { onTimer(x, k, seq, fn) }
}

//go:norace
func onTimer(x *Sched, kills, seq int, fn func()) {
	t := &Task{Group: 1, Op: -1, nkids: seq}
	raceRelease(&t.sync)
	raceOff()
	timerMu.Lock()
	f := &fired{t: t, kills: kills, fn: fn, next: x.fired}
	x.fired = f
	timerMu.Unlock()
	select {
	case x.extWake <- struct{}{}:
	default:
	}
	raceOn()
}

// fired is a timer that fired and whose task is not yet started.
type fired struct {
	t     *Task
	kills int
	fn    func()
	next  *fired
}

// startTimers starts the tasks of the timers that fired.
//
//go:norace
func (x *Sched) startTimers() {
	for x.fired != nil {
		best := &x.fired
		for p := &x.fired; *p != nil; p = &(*p).next {
			if (*p).t.nkids < (*best).t.nkids {
				best = p
			}
		}
		f := *best
		*best = f.next
		if s != x || x.ended || x.kills != f.kills {
			continue
		}
		x.ntimer++
		f.t.nkids = 0
		f.t.Name = "timer.g" + itoa(x.ntimer)
		x.addTask(f.t)
		launch(x, f.t, f.fn)
	}
}

var timerMu sync.Mutex

//go:norace
func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var b [12]byte
	n := len(b)
	for i > 0 {
		n--
		b[n] = byte('0' + i%10)
		i /= 10
	}
	return string(b[n:])
}

// Y is the instrumented scheduling point.
//
//go:norace
func Y(site int) {
	t := cur
	if s == nil {
		return
	}
	if t == nil || t.goid != curGoid() {
		if t = Cur(); t == nil {
			return
		}
	}
	if t.kill {
		if !t.dying {
			t.die()
		}
		return
	}
	if site < len(SiteCover) {
		SiteCover[site]++
	}
	point(t, site, false)
}

// Point is a scheduling point at a synchronisation operation.
//
//go:norace
func Point() {
	t := Cur()
	if t == nil || s == nil || t.kill {
		return
	}
	point(t, 0, true)
}

//go:norace
func point(t *Task, site int, sync bool) {
	x := s
	t.y++
	x.steps++
	if t.Op >= 0 {
		x.fore++
	}
	x.quiet++
	if x.fore > x.maxSt || x.quiet > 4*x.maxSt {
		if x.over++; x.over > 200000 {
			// a task that never blocks any more: end it
			x.StepsOut = true
			t.kill = true
			t.die()
		}
		x.StepsOut = true
		t.park(stReady)
		return
	}
	if t.ext {
		// came back from a blocking operation the scheduler does not own
		x.unext(t)
		raceOff()
		select {
		case x.extWake <- struct{}{}:
		default:
		}
		raceOn()
		t.park(stReady)
		return
	}
	if len(x.pauses) > 0 {
		for i := range x.pauses {
			p := &x.pauses[i]
			if p.Y == t.y && p.D > 0 && p.T == t.Name {
				d := p.D
				p.D = 0
				x.PausesFired++
				t.sleepFor(d)
				return
			}
		}
	}
	if x.CrashY == t.y && x.CrashY > 0 && x.CrashT == t.Name {
		x.Crashed = true
		t.park(stReady)
		return
	}
	if x.nlive < 2 {
		return
	}
	switch x.strat.Kind {
	case 1:
		p := x.strat.P
		if sync {
			p = 0.5
		}
		if x.rng.F() >= p {
			return
		}
		nx := x.pickRandom(t)
		if nx == nil {
			return
		}
		x.preempt(t, nx, site)
	case 2:
		for _, c := range x.strat.Changes {
			if c == x.steps {
				x.lowPrio++
				t.prio = 1000 - x.lowPrio
				break
			}
		}
		nx := x.best(t)
		if nx != nil && nx.prio > t.prio {
			x.preempt(t, nx, site)
		}
	case 3:
		if nx := x.lookup(t.Name, t.y); nx != nil && nx != t {
			x.preempt(t, nx, site)
		}
	}
}

//go:norace
func (x *Sched) preempt(t, nx *Task, site int) {
	x.record(t, nx)
	if site < len(PreemptSites) {
		PreemptSites[site]++
	}
	x.prefer = nx
	t.park(stReady)
}

//go:norace
func (x *Sched) record(t, nx *Task) {
	if x.nlog < len(x.log) {
		n, y := "", x.picks
		if t != nil {
			n, y = t.Name, t.y
		}
		x.log[x.nlog] = Decision{n, y, nx.Name}
		x.nlog++
	}
}

//go:norace
func (x *Sched) lookup(name string, y int) *Task {
	for i := range x.explicit {
		d := &x.explicit[i]
		if !x.expUsed[i] && d.Y == y && d.T == name {
			for j := 0; j < x.nlive; j++ {
				if x.live[j].Name == d.Next && x.runnable(x.live[j]) {
					x.expUsed[i] = true
					return x.live[j]
				}
			}
		}
	}
	return nil
}

//go:norace
func (x *Sched) runnable(t *Task) bool {
	switch t.state {
	case stReady:
		return true
	case stWaiting:
		if t.sleep > 0 {
			return !time.Now().Before(t.wakeAt)
		}
		return t.cond != nil && t.cond()
	}
	return false
}

//go:norace
func (x *Sched) pickRandom(except *Task) *Task {
	c := 0
	var sel *Task
	for i := 0; i < x.nlive; i++ {
		t := x.live[i]
		if t != except && x.runnable(t) {
			c++
			if x.rng.N(c) == 0 {
				sel = t
			}
		}
	}
	return sel
}

//go:norace
func (x *Sched) best(except *Task) *Task {
	var sel *Task
	for i := 0; i < x.nlive; i++ {
		t := x.live[i]
		if t != except && (sel == nil || t.prio > sel.prio) && x.runnable(t) {
			sel = t
		}
	}
	return sel
}

//go:norace
func (x *Sched) lowest() *Task {
	for i := 0; i < x.nlive; i++ {
		if x.runnable(x.live[i]) {
			return x.live[i]
		}
	}
	return nil
}

// pick chooses the next task at a point where the previous one cannot go on.
//
//go:norace
func (x *Sched) pick() *Task {
	if p := x.prefer; p != nil {
		x.prefer = nil
		if x.runnable(p) {
			return p
		}
	}
	x.picks++
	l := x.lowest()
	if l == nil {
		return nil
	}
	name, y := "", x.picks
	if x.last != nil {
		name, y = x.last.Name, x.last.y
	}
	nx := l
	switch x.strat.Kind {
	case 1:
		nx = x.pickRandom(nil)
	case 2:
		nx = x.best(nil)
	case 3:
		if d := x.lookup(name, y); d != nil {
			nx = d
		}
	}
	if nx != l {
		if x.last != nil {
			x.record(x.last, nx)
		} else {
			x.record(nil, nx)
		}
	}
	return nx
}

//go:norace
func (t *Task) park(state int) {
	if t.kill {
		t.die()
	}
	t.state = state
	t.await()
	t.state = stRunning
	if t.kill {
		t.die()
	}
}

// await blocks until the root resumes the task. The only happens-before edge
// is from the root to the task: what tasks do is never ordered by the
// scheduler.
//
//go:norace
func (t *Task) await() {
	raceOff()
	<-t.resume
	raceOn()
	raceAcquire(&t.sync)
}

// wake resumes the task. Root only.
//
//go:norace
func (t *Task) wake() {
	raceRelease(&t.sync)
	raceOff()
	t.resume <- struct{}{}
	synctest.Wait()
	raceOn()
}

//go:norace
func (t *Task) die() {
	t.dying = true
	runtime.Goexit()
}

//go:norace
func (t *Task) sleepFor(d time.Duration) {
	t.sleep = d
	t.wakeAt = time.Now().Add(d)
	t.park(stWaiting)
	t.sleep = 0
}

// Park blocks the current task until cond (evaluated by the root) holds.
//
//go:norace
func Park(cond func() bool) {
	t := Cur()
	if t == nil || s == nil {
		if !cond() {
			panic("simrt: root would block")
		}
		return
	}
	if t.kill {
		runtime.Goexit()
	}
	if t.ext {
		s.unext(t)
	}
	t.y++
	t.cond = cond
	t.park(stWaiting)
	t.cond = nil
}

// Sleep blocks the current task for d of simulated time.
//
//go:norace
func Sleep(d time.Duration) {
	t := Cur()
	if t == nil {
		time.Sleep(d)
		return
	}
	if t.kill {
		return
	}
	t.y++
	if d <= 0 {
		return
	}
	t.sleepFor(d)
}

//go:norace
func (x *Sched) unext(t *Task) {
	if t.ext {
		t.ext = false
		x.extCount--
	}
}

// Killed reports whether the current task is being torn down.
//
//go:norace
func Killed() bool {
	t := Cur()
	return t != nil && t.kill
}

// Holder identifies who holds a lock.
type Holder struct {
	t *Task
	s *Sched
}

// Me returns the identity of whoever is running.
//
//go:norace
func Me() Holder { return Holder{Cur(), s} }

// Gone reports whether the holder is part of a process that does not exist any
// more.
//
//go:norace
func (h Holder) Gone() bool {
	return h.s != s || h.t != nil && h.t.kill && h.t.state == stDone
}

// Dead is Killed for a synchronisation operation: a task of a dead process only
// goes on to run its deferred functions, and these not beyond what would block.
//
//go:norace
func Dead(blocks bool) bool {
	t := Cur()
	if t == nil || !t.kill {
		return false
	}
	if !t.dying || blocks {
		t.die()
	}
	return true
}

// runTask releases t and waits until everything is blocked again.
//
//go:norace
func (x *Sched) runTask(t *Task) {
	if x.last != t {
		x.Switches++
		x.Hash ^= uint64(t.ID + 1)
		x.Hash *= 1099511628211
		x.Hash ^= uint64(t.y)
		x.Hash *= 1099511628211
	}
	x.last = t
	t.state = stRunning
	cur = t
	t.wake()
	cur = nil
	if t.state == stRunning {
		// blocked on something the scheduler does not own
		if !t.ext {
			t.ext = true
			x.extCount++
			x.BlockedExt++
		}
	}
}

// Step runs one scheduling step. It returns false when nothing is runnable.
//
//go:norace
func (x *Sched) Step() bool {
	t := x.pick()
	if t == nil {
		return false
	}
	x.runTask(t)
	return true
}

// NextWake returns the earliest pending sleep of a task.
//
//go:norace
func (x *Sched) NextWake() (time.Time, bool) {
	var w time.Time
	ok := false
	for i := 0; i < x.nlive; i++ {
		t := x.live[i]
		if t.state == stWaiting && t.sleep > 0 && (!ok || t.wakeAt.Before(w)) {
			w, ok = t.wakeAt, true
		}
	}
	return w, ok
}

// ExtBlocked returns how many tasks are blocked outside the scheduler.
//
//go:norace
func (x *Sched) ExtBlocked() int { return x.extCount }

// IdleUntil advances simulated time to at most w, returning early when an
// externally blocked task comes back.
//
//go:norace
func (x *Sched) IdleUntil(w time.Time) {
	d := time.Until(w)
	if d <= 0 {
		return
	}
	raceOff()
	select {
	case <-x.extWake: // stale
	default:
	}
	tm := time.NewTimer(d)
	select {
	case <-x.extWake:
	case <-tm.C:
	}
	tm.Stop()
	synctest.Wait()
	raceOn()
	x.startTimers()
	x.last = nil
}

// Drain gives killed tasks that are blocked outside the scheduler the time to
// notice. It reports whether none is left.
func (x *Sched) Drain() bool {
	x.reap()
	until := time.Now().Add(48 * time.Hour)
	for i := 0; i < 10000 && x.ExtBlocked() > 0 && time.Now().Before(until); i++ {
		x.IdleUntil(until)
	}
	x.reap()
	return x.ExtBlocked() == 0
}

// Finished reports whether the task ended.
//
//go:norace
func (t *Task) Finished() bool { return t.state == stDone }

// Live returns the unfinished tasks' names (root only, after a run stopped).
//
//go:norace
func (x *Sched) Live() []*Task {
	out := make([]*Task, 0, x.nlive)
	for i := 0; i < x.nlive; i++ {
		out = append(out, x.live[i])
	}
	return out
}

// Waiting reports whether the task is blocked.
//
//go:norace
func (t *Task) Waiting() bool { return t.state == stWaiting || t.ext }

// Local returns the number of local scheduling points passed.
//
//go:norace
func (t *Task) Local() int { return t.y }

// Kill tears down all unfinished tasks of the given group (0 = all at the end
// of the run, -1 = all of the process, another one will follow). Deferred
// functions run, but see a dead process: locks are no-ops.
//
//go:norace
func (x *Sched) Kill(group int) int {
	n := 0
	if group == 0 {
		x.ended = true
	}
	x.kills++
	for pass := 0; pass < 2*MaxTasks; pass++ {
		// the process is gone for all of its tasks before any of them unwinds
		for i := 0; i < x.nlive; i++ {
			if t := x.live[i]; (group <= 0 || t.Group == group) && !t.kill {
				t.kill, t.unwind = true, true
				n++
			}
		}
		var t *Task
		for i := 0; i < x.nlive; i++ {
			if x.live[i].unwind {
				t = x.live[i]
				break
			}
		}
		if t == nil {
			break
		}
		t.unwind = false
		if t.ext || t.state == stDone {
			continue
		}
		cur = t
		t.wake()
		cur = nil
	}
	x.prefer = nil
	x.last = nil
	return n
}

// Keys returns the keys of m in sorted order (by their formatted value for
// non-ordered key types the order is insertion-independent only per process).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	switch v := any(ks).(type) {
	case []string:
		sort.Strings(v)
	case []int:
		sort.Ints(v)
	case []int64:
		sortOrd(v)
	case []uint64:
		sortOrd(v)
	default:
		sort.SliceStable(ks, func(i, j int) bool { return lessAny(ks[i], ks[j]) })
	}
	if x := active(); x != nil {
		x.mapOrder(len(ks), func(i int) uint64 {
			if k, ok := any(ks[i]).(string); ok {
				return hashString(k)
			}
			return hashString(text(ks[i]))
		}, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return ks
}

//go:norace
func active() *Sched { return s }

// mapOrder chooses the order of a range over a map: sorted in some runs, by a
// hash of the key in others, with or without a change from one range to the
// next.
//
//go:norace
func (x *Sched) mapOrder(n int, hash func(int) uint64, swap func(int, int)) {
	mode := x.strat.Seed >> 7 & 3
	if mode == 0 || n < 2 {
		return
	}
	salt := x.strat.Seed * 0x9e3779b97f4a7c15
	if mode == 3 {
		x.ranges++
		salt += x.ranges * 0xbf58476d1ce4e5b9
	}
	h := make([]uint64, n)
	for i := range h {
		r := Rand{hash(i) ^ salt}
		h[i] = r.U64()
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && h[j] < h[j-1]; j-- {
			h[j], h[j-1] = h[j-1], h[j]
			swap(j, j-1)
		}
	}
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func sortOrd[T cmp.Ordered](v []T) { sort.Slice(v, func(i, j int) bool { return v[i] < v[j] }) }
