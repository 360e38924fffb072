package world

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"verif/simrt"
)

// Job is what a worker process is asked to do.
type Job struct {
	Kind     string        `json:"kind"` // explore, replay
	Prop     string        `json:"prop"`
	From     uint64        `json:"from"`
	Step     uint64        `json:"step"`
	Max      uint64        `json:"max"`    // number of runs at most (0: until the deadline)
	Wall     time.Duration `json:"wall"`   // wall clock budget
	Shrink   time.Duration `json:"shrink"` // wall clock budget for minimisation
	Out      string        `json:"out"`
	NoEnt    bool          `json:"no_ent"`
	Replay   *Replay       `json:"replay,omitempty"`
	Hashes   string        `json:"hashes"`
	Progress string        `json:"progress"`
	Known    []Known       `json:"known,omitempty"`
	Trace    bool          `json:"trace,omitempty"`
}

// Known identifies a recorded finding.
type Known struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
}

// Replay is a self-contained, exactly repeatable failing execution.
type Replay struct {
	Property  string      `json:"property"`
	Class     string      `json:"class"`
	Violation Violation   `json:"violation"`
	Scenario  *Scenario   `json:"scenario"`
	Seed      uint64      `json:"seed"`
	Original  *ReplaySize `json:"original,omitempty"`
	Minimised *ReplaySize `json:"minimised,omitempty"`
	Race      bool        `json:"race,omitempty"`
	Prefix    *Prefix     `json:"prefix,omitempty"`
	Trace     []string    `json:"trace,omitempty"`
}

// Prefix makes a replay run other seeds first (for state that survives a run).
type Prefix struct {
	From uint64 `json:"from"`
	Step uint64 `json:"step"`
}

// ReplaySize measures a failing execution.
type ReplaySize struct {
	Ops       int `json:"requests"`
	Faults    int `json:"faults"`
	Decisions int `json:"scheduling_decisions"`
}

// Result is what a worker reports.
type Result struct {
	Runs       uint64            `json:"runs"`
	Next       uint64            `json:"next"` // next seed
	Wall       time.Duration     `json:"wall"`
	Agg        Agg               `json:"agg"`
	Found      []*Replay         `json:"found"`
	Other      map[string]int    `json:"other"` // violations of other properties
	OtherEx    map[string]string `json:"other_ex"`
	KnownHits  map[string]int    `json:"known_hits"`
	Trouble    []string          `json:"trouble"`
	Leftover   bool              `json:"leftover"` // process cannot be reused
	Reproduced bool              `json:"reproduced"`
	Samples    []json.RawMessage `json:"samples"`
	Trace      []string          `json:"trace,omitempty"`
	Sites      []uint32          `json:"sites"`
	Preempts   []uint32          `json:"preempts"`
}

// Agg sums up runs.
type Agg struct {
	Ops, Execs, Rounds, Steps, Switches, Creds, Concurrent, LinPerms uint64
	SimSeconds                                                       float64
	Faults, Kinds, Strategies, Abandoned                             map[string]uint64
	Accepted, Refused, Crashes, Restarts, EntropyBytes, ClientCalls  uint64
	MaxWorlds                                                        int
	DetChecks, DetFailures                                           uint64
	Client                                                           map[string]uint64
	MaxSteps                                                         int
}

func (a *Agg) add(sc *Scenario, st *Stats) {
	if a.Faults == nil {
		a.Faults, a.Kinds, a.Strategies, a.Abandoned = map[string]uint64{}, map[string]uint64{}, map[string]uint64{}, map[string]uint64{}
	}
	a.Ops += uint64(st.Ops)
	a.Execs += uint64(st.Execs)
	a.Rounds += uint64(st.Rounds)
	a.Steps += uint64(st.Steps)
	a.Switches += uint64(st.Switches)
	a.Creds += uint64(st.Creds)
	a.Concurrent += uint64(st.Concurrent)
	a.LinPerms += uint64(st.LinPerms)
	a.SimSeconds += st.SimTime.Seconds()
	a.Accepted += uint64(st.Accepted)
	a.Refused += uint64(st.Refused)
	a.Crashes += uint64(st.Crashes)
	a.Restarts += uint64(st.Restarts)
	a.EntropyBytes += uint64(st.EntropyBytes)
	a.ClientCalls += uint64(st.ClientCalls)
	if st.MaxWorlds > a.MaxWorlds {
		a.MaxWorlds = st.MaxWorlds
	}
	if st.Steps > a.MaxSteps {
		a.MaxSteps = st.Steps
	}
	for k, n := range st.Faults {
		a.Faults[k] += uint64(n)
	}
	for k, n := range st.Kinds {
		a.Kinds[k] += uint64(n)
	}
	a.Strategies[[]string{"run-to-completion", "random-walk", "priority", "explicit"}[sc.Strat.Kind]]++
	if st.Abandoned != "" {
		a.Abandoned[st.Abandoned]++
	}
}

// one executes one run in its own bubble.
type one struct {
	vs   []Violation
	st   Stats
	dec  []simrt.Decision
	left bool
	harn string
	race int
}

func execute(t *testing.T, sc *Scenario, src Source) (r one) {
	race0 := simrt.RaceErrors()
	synctest.Test(t, func(t *testing.T) {
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.harn = fmt.Sprintf("%v\n%s", p, trunc(string(debug.Stack()), 3000))
				}
			}()
			if sc.Mode == "client" {
				r.vs, r.st, r.dec = RunClient(sc)
			} else {
				r.vs, r.st, r.dec = Run(sc, src)
			}
		}()
		if r.st.Leftover {
			r.left = true
		}
		if n := simrt.RaceErrors() - race0; n > 0 {
			// the test framework fails the test: this process ends here
			r.race, r.left = n, true
			r.vs = append(r.vs, Violation{Tags: []string{"C02"}, Class: "data-race", Text: "conflicting memory accesses without synchronisation", Op: -1, Conc: true})
		}
		if r.left && onLeftover != nil {
			onLeftover(r)
		}
	})
	return
}

// onLeftover runs inside a bubble that cannot be left because goroutines of
// the system under test are blocked for good; it must not return.
var onLeftover func(one)

// NewScenario creates the scenario of a seed for a property.
func NewScenario(prop string, seed uint64) (*Scenario, Source) {
	switch prop {
	case "C19":
		return NewClientScenario(prop, seed), nil
	case "C18":
		if seed%3 != 0 {
			return NewClientScenario(prop, seed), nil
		}
	case "C02":
		if seed%5 == 0 {
			return NewClientScenario(prop, seed), nil
		}
	}
	return NewGenerated(prop, seed)
}

// Work is the main function of a worker process.
func Work(t *testing.T, job *Job) *Result {
	debug.SetGCPercent(400)
	res := &Result{Other: map[string]int{}, OtherEx: map[string]string{}, KnownHits: map[string]int{}}
	NoEntropyFail = job.NoEnt
	start := time.Now()
	w := &worker{t: t, job: job, res: res, start: start}
	defer func() { res.Wall = time.Since(start) }()
	if job.Kind == "replay" {
		w.replay()
		return res
	}
	w.explore()
	res.Sites = append(res.Sites, simrt.SiteCover[:]...)
	res.Preempts = append(res.Preempts, simrt.PreemptSites[:]...)
	return res
}

type worker struct {
	t     *testing.T
	job   *Job
	res   *Result
	start time.Time
	prog  *os.File
	hash  map[uint64]struct{}
	model map[uint64]struct{}
	cur   *Scenario
}

func (w *worker) progress(seed uint64) {
	if w.prog == nil {
		if w.job.Progress == "" {
			return
		}
		w.prog, _ = os.Create(w.job.Progress)
		if w.prog == nil {
			return
		}
	}
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	_, _ = w.prog.WriteAt(b[:], 0)
}

func (w *worker) flushHashes() {
	if w.job.Hashes == "" {
		return
	}
	b := make([]byte, 0, 8*(len(w.hash)+len(w.model)+1))
	b = binary.LittleEndian.AppendUint64(b, uint64(len(w.hash)))
	for h := range w.hash {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	for h := range w.model {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	_ = os.WriteFile(w.job.Hashes, b, 0o644)
}

const maxHashes = 400000

func (w *worker) explore() {
	w.hash, w.model = map[uint64]struct{}{}, map[uint64]struct{}{}
	job, res := w.job, w.res
	seed := job.From
	defer func() { w.flushHashes() }()
	onLeftover = func(r one) {
		// the process cannot go on: report and leave
		sc := w.cur
		w.record(seed, sc, r)
		res.Leftover = true
		res.Next = seed + job.Step
		w.finish()
	}
	for res.Runs = 0; job.Max == 0 || res.Runs < job.Max; res.Runs++ {
		if res.Runs&7 == 0 && time.Since(w.start) > job.Wall {
			break
		}
		w.progress(seed)
		sc, src := NewScenario(job.Prop, seed)
		w.cur = sc
		r := execute(w.t, sc, src)
		w.record(seed, sc, r)
		// the same seed must give the same execution
		if r.harn == "" && res.Runs%101 == 0 {
			sc2, src2 := NewScenario(job.Prop, seed)
			r2 := execute(w.t, sc2, src2)
			res.Agg.DetChecks++
			if !sameRun(r, r2) {
				res.Agg.DetFailures++
			}
		}
		seed += job.Step
		if len(res.Found) > 0 {
			res.Runs++
			break
		}
	}
	res.Next = seed
}

func sameRun(a, b one) bool {
	if a.st.Hash != b.st.Hash || a.st.Steps != b.st.Steps || a.st.Creds != b.st.Creds || len(a.dec) != len(b.dec) || a.st.Accepted != b.st.Accepted {
		return false
	}
	ja, _ := json.Marshal([]interface{}{a.vs, a.st})
	jb, _ := json.Marshal([]interface{}{b.vs, b.st})
	return string(ja) == string(jb)
}

// finish writes the result and ends the process.
func (w *worker) finish() {
	w.res.Wall = time.Since(w.start)
	w.flushHashes()
	WriteResult(w.job, w.res)
	os.Exit(0)
}

// WriteResult stores the result of a job.
func WriteResult(job *Job, res *Result) {
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(job.Out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(2)
	}
}

func (w *worker) record(seed uint64, sc *Scenario, r one) {
	res, job := w.res, w.job
	if r.harn != "" {
		if len(res.Trouble) < 5 {
			res.Trouble = append(res.Trouble, fmt.Sprintf("seed %d: %s", seed, r.harn))
		}
		return
	}
	res.Agg.add(sc, &r.st)
	if len(w.hash) < maxHashes {
		w.hash[r.st.Hash] = struct{}{}
	}
	if len(w.model) < maxHashes {
		for _, h := range r.st.ModelStates {
			w.model[h] = struct{}{}
		}
	}
	if len(res.Samples) < 2 && r.st.Execs > 0 && (seed/job.Step)%7 == 3 {
		b, _ := json.Marshal(sampleOf(seed, sc, &r))
		res.Samples = append(res.Samples, b)
	}
	hit := false
	for i := range r.vs {
		v := &r.vs[i]
		if v.Has(job.Prop) && !hit {
			if w.known(v) {
				res.KnownHits[v.Class]++
				continue
			}
			hit = true
			w.found(seed, sc, r, *v)
		} else {
			for _, t := range v.Tags {
				res.Other[t]++
				if res.OtherEx[t] == "" {
					res.OtherEx[t] = fmt.Sprintf("seed %d: [%s] %s", seed, v.Class, v.Text)
				}
			}
		}
	}
}

func (w *worker) known(v *Violation) bool {
	for _, k := range w.job.Known {
		if k.Prop == w.job.Prop && k.Class == v.Class {
			return true
		}
	}
	return false
}

func sampleOf(seed uint64, sc *Scenario, r *one) interface{} {
	var reqs []string
	for _, rd := range sc.Rounds {
		for _, o := range rd.Ops {
			reqs = append(reqs, fmt.Sprintf("op%d %s %s %s", o.ID, o.Method, o.Path, o.Note))
			if len(reqs) > 12 {
				break
			}
		}
	}
	return map[string]interface{}{"seed": seed, "requests": reqs, "steps": r.st.Steps, "context_switches": r.st.Switches,
		"faults": r.st.Faults, "simulated_seconds": r.st.SimTime.Seconds(), "outcomes": r.st.Kinds, "schedule_hash": fmt.Sprintf("%016x", r.st.Hash)}
}

// recorded turns an executed scenario into one that replays it.
func recorded(sc *Scenario, r one) *Scenario {
	c := clone(sc)
	c.Strat = simrt.Strategy{Kind: 3, Seed: sc.Strat.Seed}
	c.Explicit = r.dec
	return c
}

func clone(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func (w *worker) rerun(sc *Scenario) one {
	c := clone(sc)
	return execute(w.t, c, &Recorded{Rounds: c.Rounds})
}

// find returns the violation of the property with the class, if the run has it.
func (r *one) find(prop, class string) *Violation {
	for i := range r.vs {
		if r.vs[i].Has(prop) && r.vs[i].Class == class {
			return &r.vs[i]
		}
	}
	return nil
}

// Size measures a scenario.
func Size(sc *Scenario) *ReplaySize {
	s := &ReplaySize{Decisions: len(sc.Explicit), Faults: len(sc.Pauses)}
	if sc.CrashY > 0 {
		s.Faults++
	}
	for _, r := range sc.Rounds {
		s.Ops += len(r.Ops)
		if r.Restart {
			s.Faults++
		}
		s.Faults += len(r.Admin)
		for _, o := range r.Ops {
			s.Faults += o.F.count()
		}
	}
	if sc.Client != nil {
		s.Ops += len(sc.Client.Calls)
		for _, c := range sc.Client.Calls {
			s.Faults += c.Resp.faults()
		}
	}
	return s
}

func (f *Fault) count() int {
	n := 0
	for _, b := range []bool{f.Delay > 0, f.Drop, f.Dup > 0, f.DupLate > 0, f.Trunc > 0, f.StallAt > 0, f.Chunk > 0, f.RespDrop, f.RespTrunc > 0, f.WriteFail > 0, f.EntFail > 0, f.EntChunk > 0, f.EntZero > 0, f.Cancel > 0} {
		if b {
			n++
		}
	}
	return n
}

func (w *worker) found(seed uint64, sc *Scenario, r one, v Violation) {
	prop := w.job.Prop
	rp := &Replay{Property: prop, Class: v.Class, Violation: v, Seed: seed, Race: simrt.RaceEnabled}
	rec := recorded(sc, r)
	rp.Original = Size(rec)
	rp.Scenario = rec
	if simrt.RaceEnabled || r.left || onlyRecord {
		// reports are deduplicated per process: minimised by the orchestrator
		w.res.Found = append(w.res.Found, rp)
		return
	}
	save := onLeftover
	onLeftover = nil
	defer func() { onLeftover = save }()
	r2 := w.rerun(rec)
	v2 := r2.find(prop, v.Class)
	if v2 == nil {
		// depends on something outside the scenario: replayed from the seeds
		rp.Prefix = &Prefix{From: w.job.From, Step: w.job.Step}
		w.res.Found = append(w.res.Found, rp)
		return
	}
	// does the property's own precondition cause it?
	if ops, ok := v.Hist[prop]; ok && !v.tagged(prop) {
		c := without(rec, ops)
		if x := w.rerun(c); x.findAny(v.Class, v.Op) != nil {
			w.res.Other["unrelated:"+v.Class]++
			for _, t := range v.Tags {
				if t != prop {
					w.res.Other[t]++
				}
			}
			return
		}
	}
	min := Shrink(rec, w.job.Shrink, func(c *Scenario) bool {
		r := w.rerun(c)
		return r.harn == "" && !r.left && r.find(prop, v.Class) != nil
	})
	rm := w.rerun(min)
	if vm := rm.find(prop, v.Class); vm != nil {
		rp.Violation = *vm
		rp.Scenario = min
	}
	rp.Minimised = Size(rp.Scenario)
	w.res.Found = append(w.res.Found, rp)
}

var onlyRecord bool

// tagged reports whether the violation concerns the property regardless of
// the history.
func (v *Violation) tagged(prop string) bool {
	for _, t := range v.Direct {
		if t == prop {
			return true
		}
	}
	return false
}

func (r *one) findAny(class string, op int) *Violation {
	for i := range r.vs {
		if r.vs[i].Class == class && r.vs[i].Op == op {
			return &r.vs[i]
		}
	}
	return nil
}

// without removes operations.
func without(sc *Scenario, ops []int) *Scenario {
	c := clone(sc)
	dead := map[int]bool{}
	for _, o := range ops {
		dead[o] = true
	}
	for _, r := range c.Rounds {
		var keep []*Op
		for _, o := range r.Ops {
			if !dead[o.ID] {
				keep = append(keep, o)
			}
		}
		r.Ops = keep
	}
	return c
}

// Shrink minimises a failing scenario.
func Shrink(sc *Scenario, budget time.Duration, failing func(c *Scenario) bool) *Scenario {
	deadline := time.Now().Add(budget)
	best := clone(sc)
	fails := func(c *Scenario) bool {
		return time.Now().Before(deadline) && failing(c)
	}
	try := func(f func(c *Scenario)) bool {
		c := clone(best)
		f(c)
		if fails(c) {
			best = c
			return true
		}
		return false
	}
	for again := true; again && time.Now().Before(deadline); {
		again = false
		// schedule
		if len(best.Explicit) > 0 {
			if try(func(c *Scenario) { c.Explicit = nil }) {
				again = true
			} else {
				for n := len(best.Explicit) / 2; n >= 1; n /= 2 {
					for i := 0; i+n <= len(best.Explicit); {
						if !try(func(c *Scenario) { c.Explicit = append(c.Explicit[:i:i], c.Explicit[i+n:]...) }) {
							i += n
						} else {
							again = true
						}
					}
				}
			}
		}
		if best.Peer != nil && try(func(c *Scenario) {
			c.Peer = nil
			for _, r := range c.Rounds {
				var keep []*Op
				for _, o := range r.Ops {
					if o.Tenant == 0 {
						keep = append(keep, o)
					}
				}
				r.Ops = keep
			}
		}) {
			again = true
		}
		// rounds
		for n := len(best.Rounds) / 2; n >= 1; n /= 2 {
			for i := len(best.Rounds) - n; i >= 0; i -= n {
				if i+n <= len(best.Rounds) && try(func(c *Scenario) { c.Rounds = append(c.Rounds[:i:i], c.Rounds[i+n:]...) }) {
					again = true
				}
			}
		}
		// operations
		for i := len(best.Rounds) - 1; i >= 0; i-- {
			for j := len(best.Rounds[i].Ops) - 1; j >= 0; j-- {
				if try(func(c *Scenario) {
					c.Rounds[i].Ops = append(c.Rounds[i].Ops[:j:j], c.Rounds[i].Ops[j+1:]...)
				}) {
					again = true
				}
			}
		}
		// faults
		for i := len(best.Pauses) - 1; i >= 0; i-- {
			if try(func(c *Scenario) { c.Pauses = append(c.Pauses[:i:i], c.Pauses[i+1:]...) }) {
				again = true
			}
		}
		if best.CrashY > 0 && try(func(c *Scenario) { c.CrashT, c.CrashY = "", 0 }) {
			again = true
		}
		for i := range best.Rounds {
			r := best.Rounds[i]
			if r.Restart && try(func(c *Scenario) { c.Rounds[i].Restart = false }) {
				again = true
			}
			for j := len(r.Admin) - 1; j >= 0; j-- {
				if try(func(c *Scenario) { c.Rounds[i].Admin = append(c.Rounds[i].Admin[:j:j], c.Rounds[i].Admin[j+1:]...) }) {
					again = true
				}
			}
			if r.Clock != 0 && try(func(c *Scenario) { c.Rounds[i].Clock = 0 }) {
				again = true
			}
			if (r.Wait != Wait{}) && try(func(c *Scenario) { c.Rounds[i].Wait = Wait{} }) {
				again = true
			}
			for j := range r.Ops {
				o := r.Ops[j]
				for _, n := range []int{0, o.Repeat / 8, o.Repeat / 2, o.Repeat * 7 / 8, o.Repeat - 1} {
					if n < o.Repeat && n >= 0 && try(func(c *Scenario) { c.Rounds[i].Ops[j].Repeat = n }) {
						again = true
						break
					}
				}
				o = best.Rounds[i].Ops[j]
				if o.Via != "" && try(func(c *Scenario) { c.Rounds[i].Ops[j].Via = "" }) {
					again = true
				}
				o = best.Rounds[i].Ops[j]
				if (o.Env.Chunked || o.Env.Old || o.Env.Host != "" || o.Env.Addr != 0) && try(func(c *Scenario) {
					c.Rounds[i].Ops[j].Env = Env{Hdr: c.Rounds[i].Ops[j].Env.Hdr}
				}) {
					again = true
				}
				for k := len(o.Env.Hdr) - 1; k >= 0; k-- {
					if try(func(c *Scenario) {
						e := &c.Rounds[i].Ops[j].Env
						e.Hdr = append(e.Hdr[:k:k], e.Hdr[k+1:]...)
					}) {
						again = true
					}
				}
				if o.F == (Fault{}) {
					continue
				}
				if try(func(c *Scenario) { c.Rounds[i].Ops[j].F = Fault{} }) {
					again = true
					continue
				}
				for k := 0; k < faultFields; k++ {
					f := best.Rounds[i].Ops[j].F
					g := f
					g.clear(k)
					if g != f && try(func(c *Scenario) { c.Rounds[i].Ops[j].F.clear(k) }) {
						again = true
					}
				}
			}
		}
		if best.Client != nil {
			for i := len(best.Client.Calls) - 1; i >= 0; i-- {
				if len(best.Client.Calls) > 1 && try(func(c *Scenario) { c.Client.Calls = append(c.Client.Calls[:i:i], c.Client.Calls[i+1:]...) }) {
					again = true
				}
			}
			for i := range best.Client.Calls {
				for k := 0; k < respSimplifications; k++ {
					x := clone(best)
					if x.Client.Calls[i].Resp.simplify(k) && try(func(c *Scenario) { c.Client.Calls[i].Resp.simplify(k) }) {
						again = true
					}
				}
			}
		}
	}
	// configuration
	for i := len(best.Cfg.Users) - 1; i >= 0 && len(best.Cfg.Users) > 1; i-- {
		try(func(c *Scenario) { c.Cfg.Users = append(c.Cfg.Users[:i:i], c.Cfg.Users[i+1:]...) })
	}
	for i := len(best.Cfg.Clients) - 1; i >= 0 && len(best.Cfg.Clients) > 1; i-- {
		try(func(c *Scenario) { c.Cfg.Clients = append(c.Cfg.Clients[:i:i], c.Cfg.Clients[i+1:]...) })
	}
	return best
}

const faultFields = 14

func (f *Fault) clear(k int) {
	switch k {
	case 0:
		f.Delay = 0
	case 1:
		f.Drop = false
	case 2:
		f.Dup = 0
	case 3:
		f.DupLate = 0
	case 4:
		f.Trunc = 0
	case 5:
		f.StallAt, f.StallFor = 0, 0
	case 6:
		f.Chunk = 0
	case 7:
		f.RespDrop = false
	case 8:
		f.RespTrunc = 0
	case 9:
		f.WriteFail = 0
	case 10:
		f.EntFail, f.EntEOF, f.EntOnce = 0, false, false
	case 11:
		f.EntChunk = 0
	case 12:
		f.EntZero = 0
	case 13:
		f.Cancel, f.CancelD = 0, 0
	}
}

// replay runs a replay file.
func (w *worker) replay() {
	rp := w.job.Replay
	res := w.res
	onLeftover = func(r one) {
		w.judgeReplay(rp, r)
		res.Leftover = true
		w.finish()
	}
	if rp.Prefix != nil {
		onlyRecord = true
		for s := rp.Prefix.From; ; s += rp.Prefix.Step {
			sc, src := NewScenario(rp.Property, s)
			r := execute(w.t, sc, src)
			if s == rp.Seed {
				w.judgeReplay(rp, r)
				return
			}
			if s > rp.Seed {
				return
			}
		}
	}
	if rp.Scenario == nil {
		sc, src := NewScenario(rp.Property, rp.Seed)
		r := execute(w.t, sc, src)
		w.judgeReplay(rp, r)
		return
	}
	TraceOn = w.job.Trace
	r := w.rerun(rp.Scenario)
	w.judgeReplay(rp, r)
}

func (w *worker) judgeReplay(rp *Replay, r one) {
	w.res.Runs = 1
	w.res.Agg.add(&Scenario{}, &r.st)
	w.res.Trace = r.st.Trace
	if r.harn != "" {
		w.res.Trouble = append(w.res.Trouble, r.harn)
	}
	if v := r.find(rp.Property, rp.Class); v != nil {
		w.res.Reproduced = true
		c := *rp
		c.Violation = *v
		w.res.Found = []*Replay{&c}
	} else {
		for i := range r.vs {
			for _, t := range r.vs[i].Tags {
				w.res.Other[t]++
				w.res.OtherEx[t] = fmt.Sprintf("[%s] %s", r.vs[i].Class, r.vs[i].Text)
			}
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = runtime.NumCPU
