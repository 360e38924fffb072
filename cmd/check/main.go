// Command check decides one property by deterministic simulation of the
// working tree in /repo: it instruments and builds the real sources, runs
// seeded simulations in worker processes, confirms and stores failures, and
// writes the evidence file.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/world"
)

var (
	root  = "/verif"
	repo  = "/repo"
	dir   string // scratch directory of this run
	nproc = runtime.NumCPU()

	// source is the tree that is checked: the working tree. Development only:
	// another copy of it, so that planted bugs need not touch /repo.
	source = repo
)

func say(f string, a ...interface{}) { fmt.Printf(f+"\n", a...) }

func trouble(f string, a ...interface{}) {
	say("ERROR: "+f, a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if strings.HasPrefix(dir, root+"/.build/run-") {
		_ = os.RemoveAll(dir)
	}
}

// budget of one check.
type budget struct {
	runs   uint64        // simulated runs
	wall   time.Duration // at most
	race   bool
	shrink time.Duration
}

func budgetFor(prop, tier string) budget {
	b := budget{runs: 120000, wall: 200 * time.Second, shrink: 12 * time.Second}
	switch prop {
	case "C01":
		b.runs = 160000
	case "C02":
		b.runs, b.race, b.shrink = 28000, true, 25*time.Second
	case "C03", "C05", "C06", "C09", "C10":
		b.runs = 220000
	case "C04", "C07", "C08", "C11", "C15", "C17", "C20":
		b.runs = 320000
	case "C12", "C13", "C14", "C16":
		b.runs = 160000
	case "C18":
		b.runs = 360000
	case "C19":
		b.runs = 1000000
	}
	if tier == "thorough" {
		b.runs = 0
		b.wall = 600 * time.Second
		b.shrink = 60 * time.Second
		if s := os.Getenv("VERIF_THOROUGH_SECONDS"); s != "" {
			if n, err := strconv.Atoi(s); err == nil && n > 0 {
				b.wall = time.Duration(n) * time.Second
			}
		}
	}
	return b
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	trace := flag.Bool("trace", false, "print the history of the replay")
	buildOnly := flag.Bool("build", false, "only build (warms the cache)")
	runs := flag.Uint64("runs", 0, "override the number of runs")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if s := os.Getenv("SIM_SRC"); s != "" {
		source = s
		say("note: checking %s instead of %s", source, repo)
	}
	must(os.MkdirAll(root+"/.build", 0o755))
	var err error
	dir, err = os.MkdirTemp(root+"/.build", "run-")
	must(err)
	defer cleanup()
	code := 0
	switch {
	case *buildOnly:
		build(false)
		build(true)
	case *replay != "":
		code = doReplay(*replay, *trace)
	case *prop != "":
		b := budgetFor(*prop, *tier)
		if *runs > 0 {
			b.runs = *runs
		}
		code = check(*prop, *tier, b)
	default:
		flag.Usage()
		code = 2
	}
	cleanup()
	os.Exit(code)
}

func must(err error) {
	if err != nil {
		trouble("%v", err)
	}
}

// ---------------------------------------------------------------------------
// building

func goCmd(args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = root
	return c
}

// build instruments the working tree and builds the worker.
func build(race bool) string {
	src := dir + "/src"
	if _, err := os.Stat(src + "/overlay.json"); err != nil {
		out, err := goCmd("run", "./instr", "-repo", source, "-as", repo, "-out", src).CombinedOutput()
		if err != nil {
			trouble("instrumenting %s failed: %v\n%s", repo, err, out)
		}
	}
	bin := dir + "/world.test"
	args := []string{"test", "-c", "-overlay", src + "/overlay.json"}
	if race {
		bin = dir + "/world-race.test"
		args = append(args, "-race")
	}
	out, err := goCmd(append(args, "-o", bin, "./world")...).CombinedOutput()
	if err != nil {
		trouble("building the simulation failed: %v\n%s", err, out)
	}
	return bin
}

// ---------------------------------------------------------------------------
// workers

var jobN int
var jobMu sync.Mutex

type wres struct {
	res   *world.Result
	out   string // stderr and stdout
	err   error
	hung  bool
	seed  uint64
	known bool
}

// runJob runs one worker process.
func runJob(bin string, job *world.Job, race bool, limit time.Duration) wres {
	jobMu.Lock()
	jobN++
	base := fmt.Sprintf("%s/job%d", dir, jobN)
	jobMu.Unlock()
	job.Out, job.Progress, job.Hashes = base+".out", base+".prog", base+".hash"
	b, err := json.Marshal(job)
	must(err)
	must(os.WriteFile(base+".json", b, 0o644))
	c := exec.Command(bin, "-test.run=^TestWorker$", "-test.timeout=0")
	c.Dir = dir
	c.Env = append(os.Environ(), "SIM_JOB="+base+".json", "GOMAXPROCS=1", "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
	if race {
		c.Env = append(c.Env, "GORACE=halt_on_error=0 history_size=3 exitcode=0")
	}
	var out lockedBuf
	c.Stdout, c.Stderr = &out, &out
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	start := time.Now()
	if err := c.Start(); err != nil {
		return wres{err: err}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var w wres
	last, lastAt := uint64(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case err := <-done:
			w.err = err
			break loop
		case <-tick.C:
			if p, ok := readProgress(job.Progress); ok && p != last {
				last, lastAt = p, time.Now()
			}
			stuck := 60*time.Second + job.Shrink
			if time.Since(lastAt) > stuck || time.Since(start) > limit {
				w.hung = true
				_ = c.Process.Kill()
				<-done
				break loop
			}
		}
	}
	w.out = out.String()
	if p, ok := readProgress(job.Progress); ok {
		w.seed, w.known = p, true
	}
	if b, err := os.ReadFile(job.Out); err == nil {
		r := &world.Result{}
		if json.Unmarshal(b, r) == nil {
			w.res = r
		}
	}
	return w
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func readProgress(p string) (uint64, bool) {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 8 {
		return 0, false
	}
	return binary.LittleEndian.Uint64(b), true
}

// ---------------------------------------------------------------------------
// one check

type total struct {
	mu       sync.Mutex
	runs     uint64
	agg      world.Agg
	found    []*world.Replay
	other    map[string]int
	otherEx  map[string]string
	known    map[string]int
	trouble  []string
	samples  []json.RawMessage
	hashes   map[uint64]struct{}
	models   map[uint64]struct{}
	sites    []uint32
	preempts []uint32
	cpu      time.Duration
	crashes  int
	noEnt    bool
}

func seedBase() uint64 {
	n, err := strconv.ParseInt(strings.TrimSpace(os.Getenv("VERIF_SEED")), 10, 64)
	if err != nil {
		n = 1
	}
	return uint64(n) * 1000000007
}

func check(prop, tier string, b budget) int {
	t0 := time.Now()
	seed := os.Getenv("VERIF_SEED")
	base := seedBase()
	say("property %s, tier %s, VERIF_SEED=%s: simulation seeds start at %d", prop, tier, seed, base)
	bin := build(b.race)
	built := time.Since(t0)
	known := readKnown(prop)
	tt := &total{other: map[string]int{}, otherEx: map[string]string{}, known: map[string]int{}, hashes: map[uint64]struct{}{}, models: map[uint64]struct{}{}}
	var wg sync.WaitGroup
	deadline := time.Now().Add(b.wall)
	stop := make(chan struct{})
	var once sync.Once
	for i := 0; i < nproc; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			next := base + uint64(i)
			left := uint64(0)
			if b.runs > 0 {
				left = b.runs / uint64(nproc)
				if uint64(i) < b.runs%uint64(nproc) {
					left++
				}
			}
			for {
				select {
				case <-stop:
					return
				default:
				}
				wall := time.Until(deadline)
				if wall <= 0 || (b.runs > 0 && left == 0) {
					return
				}
				// short stretches, so that the others stop soon after a failure
				stretch := wall
				if stretch > 20*time.Second {
					stretch = 20 * time.Second
				}
				tt.mu.Lock()
				noEnt := tt.noEnt
				tt.mu.Unlock()
				job := &world.Job{Kind: "explore", Prop: prop, From: next, Step: uint64(nproc), Max: left, Wall: stretch, Shrink: b.shrink, Known: known, NoEnt: noEnt}
				w := runJob(bin, job, b.race, stretch+b.shrink+120*time.Second)
				hash := job.Hashes
				if w.res == nil {
					// the process died or hung
					tt.mu.Lock()
					tt.crashes++
					n := tt.crashes
					tt.mu.Unlock()
					if !w.known {
						tt.note("worker did not start: %v %s", w.err, tail(w.out))
						once.Do(func() { close(stop) })
						return
					}
					if !noEnt && strings.Contains(w.out, "failed to read random data") {
						// the runtime ends the process when crypto/rand fails;
						// such a failure cannot be told from a machine failure
						tt.mu.Lock()
						tt.noEnt = true
						tt.mu.Unlock()
						next = w.seed
						continue
					}
					if v := tt.death(bin, prop, w, b, noEnt); v {
						once.Do(func() { close(stop) })
						return
					}
					if n > 40 {
						tt.note("too many worker deaths: %s", tail(w.out))
						once.Do(func() { close(stop) })
						return
					}
					done := (w.seed-next)/uint64(nproc) + 1
					if b.runs > 0 {
						if done > left {
							done = left
						}
						left -= done
					}
					next = w.seed + uint64(nproc)
					continue
				}
				tt.merge(w.res, hash)
				if b.runs > 0 {
					n := w.res.Runs
					if w.res.Leftover {
						n++
					}
					if n > left {
						n = left
					}
					left -= n
				}
				next = w.res.Next
				if len(w.res.Found) > 0 || len(w.res.Trouble) > 3 {
					once.Do(func() { close(stop) })
					return
				}
			}
		}(i)
	}
	wg.Wait()
	explored := time.Since(t0) - built
	// failures: simplest first
	sort.SliceStable(tt.found, func(i, j int) bool { return weight(tt.found[i]) < weight(tt.found[j]) })
	violations := 0
	code := 0
	seen := map[string]bool{}
	var unconfirmed []string
	for _, rp := range tt.found {
		if seen[rp.Class] || violations >= 3 {
			continue
		}
		found := rp
		rp = confirm(bin, rp, b, tt.noEnt)
		if rp == nil {
			unconfirmed = append(unconfirmed, fmt.Sprintf("a failure did not repeat in a fresh process: seed %d, %s", found.Seed, store(found)))
			continue
		}
		seen[rp.Class] = true
		path := store(rp)
		violations++
		code = 1
		say("%s: %s", rp.Class, rp.Violation.Text)
		if rp.Minimised != nil {
			say("  seed %d, minimised to %d requests, %d faults, %d scheduling decisions", rp.Seed, rp.Minimised.Ops, rp.Minimised.Faults, rp.Minimised.Decisions)
		}
		say("VIOLATION property=%s replay=%s", prop, path)
	}
	for _, k := range known {
		say("KNOWN-FINDING: property=%s %s (met %d times)", prop, k.Class, tt.known[k.Class])
	}
	writeEvidence(prop, tier, seed, b, tt, violations, time.Since(t0), explored, built)
	for k, n := range tt.other {
		if n > 0 {
			say("note: %d violations that concern %s only: %s", n, k, tt.otherEx[k])
		}
	}
	if tt.agg.DetFailures > 0 {
		say("note: %d of %d repeated runs differed: the tree under test is not deterministic under the simulator", tt.agg.DetFailures, tt.agg.DetChecks)
	}
	say("%s: %d runs in %.1fs (+%.1fs build), %d distinct schedules, %.0f simulated hours, %d violations", prop, tt.runs, explored.Seconds(), built.Seconds(), len(tt.hashes), tt.agg.SimSeconds/3600, violations)
	if code == 0 {
		for _, t := range append(tt.trouble, unconfirmed...) {
			say("ERROR: %s", t)
			code = 2
		}
		if tt.runs == 0 && code == 0 {
			say("ERROR: nothing was explored")
			code = 2
		}
	}
	return code
}

func weight(r *world.Replay) int {
	s := r.Minimised
	if s == nil {
		s = r.Original
	}
	if s == nil {
		return 1 << 20
	}
	w := s.Ops*10 + s.Faults*5 + s.Decisions
	if r.Prefix != nil {
		w += 1 << 18
	}
	return w
}

func tail(s string) string {
	if len(s) > 2500 {
		return s[:1200] + "\n...\n" + s[len(s)-1200:]
	}
	return s
}

func (t *total) note(f string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.trouble) < 10 {
		t.trouble = append(t.trouble, fmt.Sprintf(f, a...))
	}
}

// deathTags says which properties the death of the process concerns.
func deathTags(out string, hung bool) (tags []string, class string) {
	switch {
	case hung:
		return []string{"C13", "C19"}, "process-hang"
	case strings.Contains(out, "concurrent map"):
		return []string{"C02", "C01", "C13"}, "process-crash/concurrent-map"
	case strings.Contains(out, "stack overflow"):
		return []string{"C13", "C19"}, "process-crash/stack-overflow"
	case strings.Contains(out, "out of memory"):
		return []string{"C13", "C19"}, "process-crash/out-of-memory"
	case strings.Contains(out, "all goroutines are asleep") || strings.Contains(out, "blocked goroutines remain"):
		return []string{"C13", "C19"}, "process-crash/deadlock"
	}
	return []string{"C13", "C19"}, "process-crash"
}

// death confirms that a seed kills the process. It returns true when that is a
// violation of the property.
func (t *total) death(bin, prop string, w wres, b budget, noEnt bool) bool {
	job := &world.Job{Kind: "explore", Prop: prop, From: w.seed, Step: 1, Max: 1, Wall: 30 * time.Second, NoEnt: noEnt}
	again := runJob(bin, job, b.race, 100*time.Second)
	if again.res != nil {
		t.note("a worker process ended unexpectedly at seed %d: %v %s", w.seed, w.err, tail(w.out))
		return false
	}
	tags, class := deathTags(again.out, again.hung)
	v := world.Violation{Tags: tags, Class: class, Op: -1, Text: "the process does not survive: " + firstLine(again.out, again.hung)}
	if !v.Has(prop) {
		t.mu.Lock()
		t.other["process death"]++
		t.otherEx["process death"] = fmt.Sprintf("seed %d: %s", w.seed, v.Text)
		t.mu.Unlock()
		return false
	}
	t.mu.Lock()
	t.found = append(t.found, &world.Replay{Property: prop, Class: class, Violation: v, Seed: w.seed, Race: b.race})
	t.mu.Unlock()
	return true
}

func firstLine(s string, hung bool) string {
	if hung {
		return "a run does not end"
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	return s
}

func (t *total) merge(r *world.Result, hashes string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs += r.Runs
	if r.Leftover {
		t.runs++
	}
	t.cpu += r.Wall
	addAgg(&t.agg, &r.Agg)
	t.found = append(t.found, r.Found...)
	for k, n := range r.Other {
		t.other[k] += n
		if t.otherEx[k] == "" {
			t.otherEx[k] = r.OtherEx[k]
		}
	}
	for k, n := range r.KnownHits {
		t.known[k] += n
	}
	for _, x := range r.Trouble {
		if len(t.trouble) < 10 {
			t.trouble = append(t.trouble, x)
		}
	}
	if len(t.samples) < 6 {
		t.samples = append(t.samples, r.Samples...)
	}
	t.sites = addCounts(t.sites, r.Sites)
	t.preempts = addCounts(t.preempts, r.Preempts)
	if b, err := os.ReadFile(hashes); err == nil && len(b) >= 8 {
		n := int(binary.LittleEndian.Uint64(b))
		b = b[8:]
		for i := 0; i*8+8 <= len(b); i++ {
			h := binary.LittleEndian.Uint64(b[i*8:])
			if i < n {
				t.hashes[h] = struct{}{}
			} else {
				t.models[h] = struct{}{}
			}
		}
		_ = os.Remove(hashes)
	}
}

func addCounts(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		a[i] += x
	}
	return a
}

func addMap(a *map[string]uint64, b map[string]uint64) {
	if *a == nil {
		*a = map[string]uint64{}
	}
	for k, v := range b {
		(*a)[k] += v
	}
}

func addAgg(a, b *world.Agg) {
	a.Ops += b.Ops
	a.Execs += b.Execs
	a.Rounds += b.Rounds
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.Creds += b.Creds
	a.Concurrent += b.Concurrent
	a.LinPerms += b.LinPerms
	a.SimSeconds += b.SimSeconds
	a.Accepted += b.Accepted
	a.Refused += b.Refused
	a.Crashes += b.Crashes
	a.Restarts += b.Restarts
	a.EntropyBytes += b.EntropyBytes
	a.ClientCalls += b.ClientCalls
	a.DetChecks += b.DetChecks
	a.DetFailures += b.DetFailures
	if b.MaxWorlds > a.MaxWorlds {
		a.MaxWorlds = b.MaxWorlds
	}
	if b.MaxSteps > a.MaxSteps {
		a.MaxSteps = b.MaxSteps
	}
	addMap(&a.Faults, b.Faults)
	addMap(&a.Kinds, b.Kinds)
	addMap(&a.Strategies, b.Strategies)
	addMap(&a.Abandoned, b.Abandoned)
}

// ---------------------------------------------------------------------------
// confirmation

// reproduces replays a failure in a fresh process.
func reproduces(bin string, rp *world.Replay, noEnt, trace bool) (*world.Replay, []string, bool) {
	if rp.Scenario == nil && rp.Prefix == nil {
		// death of the process
		job := &world.Job{Kind: "explore", Prop: rp.Property, From: rp.Seed, Step: 1, Max: 1, Wall: 30 * time.Second, NoEnt: noEnt}
		w := runJob(bin, job, rp.Race, 100*time.Second)
		if w.res != nil {
			return nil, nil, false
		}
		_, class := deathTags(w.out, w.hung)
		return rp, nil, class == rp.Class
	}
	job := &world.Job{Kind: "replay", Prop: rp.Property, Replay: rp, NoEnt: noEnt, Trace: trace, Step: 1}
	w := runJob(bin, job, rp.Race, 300*time.Second)
	if w.res == nil {
		return nil, nil, false
	}
	if !w.res.Reproduced {
		return nil, w.res.Trace, false
	}
	r := w.res.Found[0]
	if rp.Race {
		r.Violation.Text += "\n" + raceReport(w.out)
	}
	return r, w.res.Trace, true
}

func raceReport(out string) string {
	i := strings.Index(out, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	out = out[i:]
	if j := strings.Index(out[10:], "=================="); j > 0 {
		out = out[:j+10]
	}
	// keep the frames of the system under test
	var keep []string
	lines := strings.Split(out, "\n")
	for k, l := range lines {
		if strings.HasPrefix(l, "WARNING") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
			keep = append(keep, l)
		} else if strings.Contains(l, "github.com/256dpi/oauth2") && k+1 < len(lines) {
			keep = append(keep, l+" "+strings.TrimSpace(lines[k+1]))
		}
	}
	if len(keep) > 16 {
		keep = keep[:16]
	}
	return strings.Join(keep, "\n")
}

func confirm(bin string, rp *world.Replay, b budget, noEnt bool) *world.Replay {
	ok := func(x *world.Replay) *world.Replay {
		tries := 1
		if x.Race {
			tries = 4
		}
		for i := 0; i < tries; i++ {
			if r, _, y := reproduces(bin, x, noEnt, false); y {
				return r
			}
		}
		return nil
	}
	if rp.Race && rp.Scenario != nil {
		first := ok(rp)
		if first == nil {
			return viaPrefix(bin, rp, noEnt)
		}
		// minimise with one process per candidate, several at a time
		min := world.Shrink(rp.Scenario, b.shrink, func(c *world.Scenario) bool {
			x := *rp
			x.Scenario = c
			_, _, y := reproduces(bin, &x, noEnt, false)
			return y
		})
		x := *rp
		x.Scenario = min
		x.Minimised = world.Size(min)
		if r := ok(&x); r != nil {
			return r
		}
		return first
	}
	if r := ok(rp); r != nil {
		return r
	}
	return viaPrefix(bin, rp, noEnt)
}

// viaPrefix repeats the worker's history up to the failing seed, for failures
// that depend on state surviving a simulated run.
func viaPrefix(bin string, rp *world.Replay, noEnt bool) *world.Replay {
	if rp.Prefix == nil {
		return nil
	}
	if r, _, y := reproduces(bin, rp, noEnt, false); y {
		return r
	}
	return nil
}

func store(rp *world.Replay) string {
	must(os.MkdirAll(root+"/replays", 0o755))
	name := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, rp.Class)
	if len(name) > 60 {
		name = name[:60]
	}
	p := fmt.Sprintf("%s/replays/%s-%s-%d.json", root, rp.Property, name, rp.Seed)
	b, err := json.MarshalIndent(rp, "", " ")
	must(err)
	must(os.WriteFile(p, b, 0o644))
	return p
}

func doReplay(path string, trace bool) int {
	b, err := os.ReadFile(path)
	must(err)
	rp := &world.Replay{}
	must(json.Unmarshal(b, rp))
	bin := build(rp.Race)
	tries := 1
	if rp.Race {
		tries = 4
	}
	for i := 0; i < tries; i++ {
		r, tr, ok := reproduces(bin, rp, false, trace)
		for _, l := range tr {
			say("%s", l)
		}
		if ok {
			say("%s: %s", r.Class, r.Violation.Text)
			say("VIOLATION property=%s replay=%s", rp.Property, path)
			return 1
		}
	}
	say("the recorded failure (%s) does not occur", rp.Class)
	return 0
}

// ---------------------------------------------------------------------------
// known findings

// readKnown reads known-findings.txt: "finding: property=<id> class=<class> <what fails>".
func readKnown(prop string) []world.Known {
	b, err := os.ReadFile(root + "/known-findings.txt")
	if err != nil {
		return nil
	}
	var out []world.Known
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "class=") {
			continue
		}
		out = append(out, world.Known{Prop: prop, Class: strings.TrimPrefix(f[2], "class=")})
	}
	return out
}

// ---------------------------------------------------------------------------
// evidence

func writeEvidence(prop, tier, seed string, b budget, t *total, violations int, wall, explored, built time.Duration) {
	names := map[int]string{}
	if s, err := os.ReadFile(dir + "/src/sites.txt"); err == nil {
		for _, l := range strings.Split(string(s), "\n") {
			f := strings.SplitN(l, " ", 2)
			if len(f) == 2 {
				if n, err := strconv.Atoi(f[0]); err == nil {
					names[n] = f[1]
				}
			}
		}
	}
	covered, pre := 0, 0
	hit := map[int]bool{}
	for i, n := range t.sites {
		if n > 0 && names[i] != "" {
			covered++
			hit[i] = true
		}
	}
	missed := []string{}
	for i, n := range names {
		if !hit[i] {
			missed = append(missed, n)
		}
	}
	sort.Strings(missed)
	for i, n := range t.preempts {
		if n > 0 && names[i] != "" {
			pre++
		}
	}
	n, _ := strconv.ParseInt(seed, 10, 64)
	if seed == "" {
		n = 1
	}
	rate := float64(t.runs) / explored.Seconds() * 3600
	faults := map[string]uint64{}
	for k, v := range t.agg.Faults {
		if k != "via_client_library" && v > 0 {
			faults[k] = v
		}
	}
	samples := t.samples
	if len(samples) > 3 {
		samples = samples[:3]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": n, "level": "exploration", "wall_s": round(wall.Seconds()), "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":         t.runs,
			"distinct_nontrivial": len(t.hashes),
			"rule": "one evaluation is one complete simulated run (a generated or recorded history of requests, faults, waits and scheduling decisions against a fresh server or client); " +
				"runs count as distinct and non-trivial by the hash over their complete sequence of (task, local scheduling point) context switches (at most 400000 kept per worker stretch)",
			"samples":                        samples,
			"runs_per_hour_one_seed_each":    uint64(rate),
			"first_seed":                     seedBase(),
			"simulated_seconds":              round(t.agg.SimSeconds),
			"requests_issued":                t.agg.Ops,
			"requests_executed":              t.agg.Execs,
			"requests_accepted":              t.agg.Accepted,
			"requests_refused":               t.agg.Refused,
			"client_library_calls":           t.agg.ClientCalls,
			"credentials_issued":             t.agg.Creds,
			"rounds_with_overlap":            t.agg.Concurrent,
			"serial_orders_tried":            t.agg.LinPerms,
			"scheduling_points":              t.agg.Steps,
			"context_switches":               t.agg.Switches,
			"distinct_model_states":          len(t.models),
			"strategies":                     t.agg.Strategies,
			"faults_injected":                faults,
			"outcomes":                       t.agg.Kinds,
			"random_bytes_served":            t.agg.EntropyBytes,
			"runs_abandoned":                 t.agg.Abandoned,
			"determinism_double_runs":        t.agg.DetChecks,
			"determinism_differences":        t.agg.DetFailures,
			"instrumented_statements":        len(names),
			"instrumented_statements_hit":    covered,
			"instrumented_statements_missed": missed,
			"statements_preempted_at":        pre,
			"worker_processes":               nproc,
			"worker_deaths":                  t.crashes,
			"entropy_failures_disabled":      t.noEnt,
			"race_detector":                  b.race,
			"build_seconds":                  round(built.Seconds()),
			"violations_of_other_properties": t.other,
			"known_findings_met":             t.known,
			"real_components":                []string{"all non-test sources of github.com/256dpi/oauth2/v2 (server, client, parsers, writers, token code), compiled from /repo's working tree with scheduling points inserted", "net/http request and response parsing, http.Client, encoding/json, net/url, crypto/hmac, context", "Go runtime timers on the simulated clock of a testing/synctest bubble"},
			"stub_components":                []string{"goroutine scheduling and sync.Mutex and friends (verif/simrt, verif/simsync)", "network and connections (delivery, loss, duplication, truncation, stalls, response writer)", "clock (synctest bubble)", "crypto/rand.Reader (seeded source with short reads and failures)", "HTTP transport of the client library", "the embedding application's router: /oauth2/* to Server.ServeHTTP, /api/N to Server.Authorize"},
		},
		"assumptions": []string{
			"preemption only between statements and at synchronisation and I/O calls of the library's own code, not inside one statement or inside the standard library",
			"the reference model in /verif/world/model.go states the property correctly",
			"sampled schedules, faults and inputs: a clean run is evidence, not proof",
		},
	}
	must(os.MkdirAll(root+"/evidence", 0o755))
	bt, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(bt, '\n'), 0o644))
}

func round(f float64) float64 { return float64(int64(f*10)) / 10 }
