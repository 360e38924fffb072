package world

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"

	"verif/simrt"
)

// Source provides the rounds of a run: a generator or a recorded list.
type Source interface {
	Next(w *World) *Round
}

// Stats counts what a run did.
type Stats struct {
	Ops, Execs, Rounds int
	Steps, Switches    int
	SimTime            time.Duration
	Faults             map[string]int
	Creds              int
	Concurrent         int // rounds with overlapping executions
	LinPerms           int // serialisations tried
	MaxWorlds          int
	Abandoned          string
	Hash               uint64
	StateHash          uint64
	Accepted, Refused  int
	Kinds              map[string]int
	ModelStates        []uint64
	DecisionOverflow   bool
	Crashes            int
	Restarts           int
	Leftover           bool
	Trace              []string `json:"-"`
	EntropyBytes       int
	ClientCalls        int
}

// World is one simulated deployment.
type World struct {
	sc    *Scenario
	cfg   *Config
	sched *simrt.Sched
	ent   *simrt.Entropy
	srv   *oauth2.Server
	cli   *oauth2.Client
	inc   int
	start time.Time

	clock  time.Duration   // what the wall clock is ahead
	clocks []time.Duration // all it was in this run
	rep    int             // which repetition of a request is prepared
	ids    *int            // shared with the peer
	peer   *World          // the other server in the process, with its own model
	round  int
	execs  []*exec // live (not collected)
	late   []lateDelivery
	oldSec []string // secrets and passwords that were right once
	oldURI []string
	gone   []Entity
	calls  []*call
	past   []*exec
	byOp   map[int][]*exec
	opByID map[int]*Op

	creds   []*cred
	byKey   map[string]int
	ghosts  map[string]bool
	dyn     [][]byte // possible states
	judging []byte
	altNone bool
	used    map[[2]int]bool

	vs    []Violation
	st    Stats
	stop  string
	fatal bool
}

type lateDelivery struct {
	at         int
	op         *Op
	head, body []byte
}

// call is one use of the client library in server mode.
type call struct {
	id   int
	op   *Op
	task *simrt.Task
	// task side (norace)
	wireReady  bool
	head, body []byte
	done       bool
	res        callResult
	respReady  bool // root
	resp       []byte
	respErr    string // transport error
	respTrunc  int
	served     bool
	in         callInput
	execs      []*exec
	checked    bool
}

func (w *World) fault(k string) { w.st.Faults[k]++ }

// Run executes a scenario. It must be called inside a synctest bubble.
func Run(sc *Scenario, src Source) (vs []Violation, st Stats, decisions []simrt.Decision) {
	w := &World{sc: sc, cfg: sc.Cfg.own(), byKey: map[string]int{}, ghosts: map[string]bool{}, byOp: map[int][]*exec{}, opByID: map[int]*Op{}}
	w.st.Faults = map[string]int{}
	w.st.Kinds = map[string]int{}
	if sc.Cfg.Start > 0 {
		time.Sleep(sc.Cfg.Start)
	}
	w.start = time.Now()
	w.sched = simrt.NewSched(sc.Strat, sc.Explicit, append([]simrt.Pause(nil), sc.Pauses...), 400000)
	w.sched.CrashT, w.sched.CrashY = sc.CrashT, sc.CrashY
	w.ent = simrt.NewEntropy(sc.EntSeed)
	defer simrt.Done()
	w.dyn = [][]byte{nil}
	w.ids = new(int)
	simrt.SetClock(0)
	simrt.ResetState()
	w.boot()
	if sc.Peer != nil {
		p := &World{sc: sc, cfg: sc.Peer.own(), sched: w.sched, ent: w.ent, start: w.start, ids: w.ids, peer: w, byKey: map[string]int{}, ghosts: map[string]bool{}, byOp: map[int][]*exec{}, opByID: map[int]*Op{}}
		p.st.Faults, p.st.Kinds = w.st.Faults, w.st.Kinds
		p.dyn = [][]byte{nil}
		w.peer = p
		p.boot()
		w.fault("second_server")
	}
	for w.stop == "" && len(w.vs) == 0 {
		r := src.Next(w)
		if r == nil {
			break
		}
		w.doRound(r)
	}
	// let nothing survive the run
	w.sched.Kill(0)
	w.st.Leftover = !w.sched.Drain()
	w.st.Steps = w.sched.Steps()
	w.st.Switches = w.sched.Switches
	w.st.Hash = w.sched.Hash
	w.st.SimTime = time.Since(w.start)
	w.st.Creds = len(w.creds)
	w.st.Abandoned = w.stop
	if p := w.peer; p != nil {
		w.st.Ops += p.st.Ops
		w.st.Execs += p.st.Execs
		w.st.Accepted += p.st.Accepted
		w.st.Refused += p.st.Refused
		w.st.LinPerms += p.st.LinPerms
		w.st.Concurrent += p.st.Concurrent
		w.st.EntropyBytes += p.st.EntropyBytes
		w.st.ClientCalls += p.st.ClientCalls
		w.st.Creds += len(p.creds)
	}
	w.st.Faults["pause"] += w.sched.PausesFired
	return w.vs, w.st, w.sched.Log()
}

func (w *World) boot() {
	c := w.cfg
	w.inc++
	sc := oauth2.DefaultServerConfig([]byte(c.Secret), append(oauth2.Scope{}, c.Allowed...))
	sc.KeyLength = c.KeyLen
	sc.AccessTokenLifespan = c.AccessTTL
	sc.RefreshTokenLifespan = c.RefrTTL
	sc.AuthorizationCodeLifespan = c.CodeTTL
	w.srv = oauth2.NewServer(sc)
	for _, x := range c.Clients {
		w.srv.Clients[x.ID] = &oauth2.ServerEntity{Secret: x.Secret, RedirectURI: x.Redirect, Confidential: x.Confidential}
	}
	for _, x := range c.Users {
		w.srv.Users[x.ID] = &oauth2.ServerEntity{Secret: x.Secret}
	}
	w.cli = oauth2.NewClientWithClient(oauth2.Default("http://auth.example"), &http.Client{Transport: &simTransport{w: w}})
}

// own copies the configuration, as the application may change it.
func (c *Config) own() *Config {
	n := *c
	n.Clients = append([]Entity(nil), c.Clients...)
	n.Users = append([]Entity(nil), c.Users...)
	return &n
}

// admin changes the clients or users while no request is being served.
func (w *World) admin(a Admin) {
	x := w
	if a.Tenant != 0 {
		if x = w.peer; x == nil {
			return
		}
	}
	if len(x.execs) > 0 {
		return
	}
	for _, c := range x.calls {
		if !c.checked {
			return
		}
	}
	set, e := x.srv.Clients, x.client(a.ID)
	if a.Kind == "password" {
		set, e = x.srv.Users, x.user(a.ID)
	}
	if a.Kind == "add" {
		if e != nil || a.ID == "" {
			return
		}
		n := Entity{ID: a.ID, Secret: a.V, Redirect: a.URI, Confidential: true}
		x.cfg.Clients = append(x.cfg.Clients, n)
		set[a.ID] = &oauth2.ServerEntity{Secret: a.V, RedirectURI: a.URI, Confidential: true}
		w.fault("client_added")
		return
	}
	if e == nil {
		return
	}
	switch a.Kind {
	case "secret", "password":
		x.oldSec = append(x.oldSec, e.Secret)
		e.Secret = a.V
	case "redirect":
		x.oldURI = append(x.oldURI, e.Redirect)
		e.Redirect = a.V
	case "confidential", "public":
		e.Confidential = a.Kind == "confidential"
	case "remove":
		for i := range x.cfg.Clients {
			if x.cfg.Clients[i].ID == a.ID && len(x.cfg.Clients) > 1 {
				x.gone = append(x.gone, x.cfg.Clients[i])
				x.cfg.Clients = append(x.cfg.Clients[:i:i], x.cfg.Clients[i+1:]...)
				delete(set, a.ID)
				w.fault("client_removed")
				return
			}
		}
		return
	}
	if a.New {
		set[a.ID] = &oauth2.ServerEntity{Secret: e.Secret, RedirectURI: e.Redirect, Confidential: e.Confidential}
	} else {
		update(set[a.ID], e)
	}
	w.fault(a.Kind + "_changed")
	if TraceOn {
		w.trace("%s of %s is now %q", a.Kind, a.ID, a.V)
	}
}

// update writes on behalf of the application, which does so at a quiet moment.
//
//go:norace
func update(to *oauth2.ServerEntity, e *Entity) {
	to.Secret, to.RedirectURI, to.Confidential = e.Secret, e.Redirect, e.Confidential
}

// all lists the servers of the process.
func (w *World) all() []*World {
	if w.peer == nil {
		return []*World{w}
	}
	return []*World{w, w.peer}
}

// restart replaces the server process by a new one.
func (w *World) restart() {
	// the clients live in the same process
	w.sched.Kill(-1)
	w.st.Restarts++
	simrt.ResetState()
	for _, x := range w.all() {
		for _, c := range x.calls {
			if !c.isDone() {
				c.checked = true
			}
		}
		for _, e := range x.execs {
			if !e.isDone() {
				e.killed = true
			}
		}
		x.lose()
		x.boot()
	}
}

func (w *World) lose() {
	for _, d := range w.dyn {
		for i := range d {
			if d[i] != sNone {
				d[i] = sLost
			}
		}
	}
	w.dyn = w.dyn[:1]
}

func (w *World) report(v Violation) {
	w.vs = append(w.vs, v)
}

// serve runs on the server task.
func (w *World) serve(e *exec, delay time.Duration) {
	if delay > 0 {
		simrt.Sleep(delay)
	}
	e.begin(w.sched.Steps())
	panicked := ""
	auth := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprintf("%v", r)
				if panicked == "" {
					panicked = "panic"
				}
			}
		}()
		if strings.HasPrefix(e.req.URL.Path, "/api/") {
			n := apiIndex(e.req.URL.Path, len(w.cfg.APIs))
			if n < 0 {
				http.NotFound(e.rec, e.req)
				return
			}
			auth = 2
			if w.srv.Authorize(e.rec, e.req, append(oauth2.Scope(nil), w.cfg.APIs[n]...)) {
				auth = 1
				_, _ = e.rec.Write([]byte("OK" + e.req.URL.Path[len("/api/"):]))
			}
			return
		}
		if l := e.libOf(); l != nil {
			l.serve(e.rec)
			return
		}
		w.srv.ServeHTTP(e.rec, e.req)
	}()
	if simrt.Killed() {
		return // the process died; what its deferred functions did reaches nobody
	}
	e.cancel()
	var out []byte
	silent := e.rec.status == 0
	if panicked == "" {
		out = e.rec.bytes()
	}
	e.end(w.sched.Steps(), out, panicked, auth, e.rec.failed, silent)
}

func apiIndex(p string, n int) int {
	p = p[len("/api/"):]
	if len(p) != 1 || p[0] < '0' || int(p[0]-'0') >= n {
		return -1
	}
	return int(p[0] - '0')
}

// deliver starts one execution of a request on the server.
func (w *World) deliver(op *Op, copyN int, head, body []byte, delay time.Duration, cl *call) *exec {
	lr, req := parseWire(head, body)
	if lr == nil {
		return nil
	}
	e := &exec{id: *w.ids, op: op, copy: copyN, round: w.round, lr: lr, req: req, rec: newRecorder(&op.F), call: cl, pcred: -1, servedBy: w.inc}
	*w.ids++
	e.name = fmt.Sprintf("s%d.%d", op.ID, copyN)
	b := &simBody{data: body, trunc: -1, stall: -1, chunk: op.F.Chunk}
	if b.chunk > 0 && len(body)/b.chunk > 2000 {
		b.chunk = len(body) / 2000
	}
	first := copyN == 0 || copyN >= 100 // not for what the network adds
	e.first = first
	if first {
		if op.F.Trunc > 0 && op.F.Trunc-1 < len(body) {
			b.trunc = op.F.Trunc - 1
			lr.incomplete = true
			w.fault("body_truncated")
		} else if op.F.StallAt > 0 && op.F.StallAt-1 < len(body) {
			b.stall = op.F.StallAt - 1
			if op.F.StallFor > 0 {
				e.release = w.round + op.F.StallFor
				w.fault("body_stalled")
			} else {
				e.release = -1
				lr.incomplete = true
				w.fault("body_stalled_forever")
			}
		}
		if op.F.Chunk > 0 {
			w.fault("body_chunked")
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	req, e.cancel = req.WithContext(ctx), cancel
	e.req = req
	if !first {
		// not for what the network adds
	} else if op.F.Cancel > 0 {
		w.fault("request_cancelled")
		switch op.F.Cancel {
		case 1:
			cancel()
		case 2:
			b.gone = cancel
		case 4:
			e.rec.gone = cancel
		}
	}
	req.Body = b
	if len(req.TransferEncoding) == 0 {
		req.ContentLength = int64(len(body))
	}
	req.RemoteAddr = fmt.Sprintf("192.0.2.%d:%d", 1+op.Env.Addr, 30000+e.id%30000)
	e.body = b
	e.ent = &simrt.OpEntropy{Fault: simrt.EntropyFault{FailAfter: -1}}
	if op.F.EntFail > 0 && first {
		e.ent.Fault.FailAfter = op.F.EntFail - 1
		e.ent.Fault.EOFStyle = op.F.EntEOF
		e.ent.Fault.Once = op.F.EntOnce
	}
	e.ent.Fault.MaxChunk = op.F.EntChunk
	e.ent.Fault.ZeroReads = op.F.EntZero
	w.ent.Account(e.id, e.ent)
	w.execs = append(w.execs, e)
	w.byOp[op.ID] = append(w.byOp[op.ID], e)
	e.task = w.sched.Spawn(e.name, 1, e.id, func() { w.serve(e, delay) })
	if op.F.Cancel == 3 && first {
		w.sched.Spawn(fmt.Sprintf("x%d", op.ID), 1, -1, func() {
			if d := delay + op.F.CancelD; d > 0 {
				simrt.Sleep(d)
			}
			simrt.Point()
			cancel()
		})
	}
	w.st.Execs++
	return e
}

// advanceTo lets simulated time pass. Background activities of the system under
// test may cut it short, as going through years of them would take too long.
func (w *World) advanceTo(t time.Time) {
	for i := 0; i < 10000; i++ {
		w.sched.Progress()
		if w.sched.Step() {
			if w.sched.Crashed {
				w.crash()
			}
			continue
		}
		now := time.Now()
		if !now.Before(t) {
			return
		}
		next := t
		if wk, ok := w.sched.NextWake(); ok && wk.Before(next) {
			next = wk
		}
		w.sched.IdleUntil(next)
	}
}

func (w *World) crash() {
	w.sched.Crashed = false
	w.sched.CrashY = 0
	for _, x := range w.all() {
		x.st.Crashes++
	}
	w.fault("crash")
	w.restart()
}

func (w *World) doRound(r *Round) {
	w.round++
	w.st.Rounds++
	// time passes
	d := r.Wait.D
	if r.Wait.Ref != nil {
		if c := w.find(r.Wait.Ref); c != nil {
			d = time.Until(c.hi)
			if far := time.Now().AddDate(3, 0, 0); c.hi.After(far) {
				d = 0 // further than it is worth to go; the simulated clock ends in 2262
			}
			d += r.Wait.Delta
		}
	}
	if d > 0 {
		w.advanceTo(time.Now().Add(d))
	}
	if r.Clock != 0 {
		if simrt.SetClock(w.clock + r.Clock) {
			w.fault("clock_set")
			w.clock += r.Clock
			for _, x := range w.all() {
				x.clocks = append(x.clocks, w.clock)
			}
		}
	}
	if r.Restart {
		w.fault("restart")
		w.restart()
	}
	for _, a := range r.Admin {
		w.admin(a)
	}
	// deliver what the network held back
	for _, x := range w.all() {
		x.round = w.round
		x.heldBack()
	}
	if TraceOn {
		w.trace("round %d at +%v", w.round, time.Since(w.start))
	}
	for _, op := range r.Ops {
		x := w
		if op.Tenant != 0 {
			if x = w.peer; x == nil {
				continue
			}
		}
		x.opByID[op.ID] = op
		x.st.Ops++
		x.issue(op)
	}
	w.settle()
	for _, op := range r.Ops {
		x := w
		if op.Tenant != 0 {
			if x = w.peer; x == nil {
				continue
			}
		}
		if op.Via != "" || op.F.Drop {
			continue
		}
		for k := 1; k < op.Repeat && w.stop == "" && len(w.vs) == 0; k++ {
			if k == 1 {
				w.fault("request_repeated")
			}
			x.st.Ops++
			x.rep = k
			head, body := op.wire(x.resolve)
			x.rep = 0
			x.deliver(op, 100+k, head, body, 0, nil)
			w.settle()
		}
	}
}

// settle runs what was issued and judges what came of it.
func (w *World) settle() {
	w.drive()
	for _, x := range w.all() {
		if w.stop == "" && len(w.vs) == 0 {
			x.collect()
		}
		if x != w {
			w.vs = append(w.vs, x.vs...)
			if w.stop == "" {
				w.stop = x.stop
			}
		}
	}
}

func (w *World) heldBack() {
	for _, e := range w.execs {
		if e.release > 0 && e.release <= w.round && !e.body.released {
			e.body.released = true
			e.relT = time.Now()
		}
	}
	var keep []lateDelivery
	for _, l := range w.late {
		if l.at <= w.round {
			w.deliver(l.op, 9, l.head, l.body, 0, nil)
		} else {
			keep = append(keep, l)
		}
	}
	w.late = keep
}

// issue puts a request on the network.
func (w *World) issue(op *Op) {
	if op.Via == "client" {
		w.startCall(op)
		return
	}
	head, body := op.wire(w.resolve)
	w.transmit(op, head, body, nil)
}

func (w *World) transmit(op *Op, head, body []byte, cl *call) {
	f := &op.F
	if f.Drop {
		w.fault("request_lost")
		return
	}
	if f.Delay > 0 {
		w.fault("request_delayed")
	}
	e := w.deliver(op, 0, head, body, f.Delay, cl)
	if cl != nil && e != nil {
		cl.execs = append(cl.execs, e)
	}
	for i := 0; i < f.Dup; i++ {
		w.fault("request_duplicated")
		w.deliver(op, i+1, head, body, f.Delay, nil)
	}
	if f.DupLate > 0 {
		w.fault("request_redelivered_late")
		w.late = append(w.late, lateDelivery{w.round + f.DupLate, op, head, body})
	}
}

// drive runs the simulation until every request of the round that can finish
// has finished.
func (w *World) drive() {
	idled := false
	waits := 0
	var until time.Time
	w.sched.Progress()
	w.sched.Grant()
	for {
		if w.sched.Step() {
			if w.sched.Crashed {
				w.crash()
			}
			if w.sched.Fatal != "" {
				w.report(Violation{Tags: []string{"C13", "C01"}, Class: "fatal", Text: "the process would die: " + w.sched.Fatal, Op: -1})
				w.stop = "fatal"
				return
			}
			if w.sched.StepsOut {
				w.report(Violation{Tags: []string{"C13"}, Class: "livelock", Text: "requests do not finish in a bounded number of steps", Op: -1})
				w.stop = "livelock"
				return
			}
			for _, x := range w.all() {
				x.pumpCalls()
			}
			continue
		}
		pumped := false
		for _, x := range w.all() {
			pumped = x.pumpCalls() || pumped
		}
		if pumped {
			continue
		}
		if wk, ok := w.sched.NextWake(); ok {
			w.sched.IdleUntil(wk)
			continue
		}
		// everything is blocked or finished
		var stuck, live []*exec
		open := false
		for _, x := range w.all() {
			live = append(live, x.execs...)
			for _, c := range x.calls {
				if !c.checked && !c.isDone() && (c.responded() || !c.served) {
					open = true
				}
			}
		}
		for _, e := range live {
			if !e.isDone() && !e.killed && !w.excused(e) {
				stuck = append(stuck, e)
				open = true
			}
		}
		if !open {
			// what is left are background activities
			return
		}
		if w.sched.ExtBlocked() > 0 || !idled {
			// maybe a timer of the system under test resolves it
			if !idled {
				idled = true
				until = time.Now().Add(48 * time.Hour)
			}
			if waits++; waits < 20000 && time.Now().Before(until) {
				w.sched.Progress()
				w.sched.IdleUntil(until)
				continue
			}
		}
		if len(stuck) == 0 {
			return
		}
		e := stuck[0]
		var others []string
		stall := false
		for _, x := range live {
			if x != e && !x.isDone() {
				others = append(others, fmt.Sprintf("op %d (%s)", x.op.ID, x.lr.endpoint()))
				if w.excused(x) {
					stall = true
				}
			}
		}
		cls := "hang"
		if stall {
			cls = "hang-stalled"
		}
		tags := []string{"C13"}
		for _, x := range w.all() {
			for _, p := range x.past {
				if p.ent.HasFailed() && len(tags) == 1 {
					tags = append(tags, "C12")
				}
			}
		}
		w.report(Violation{Tags: tags, Class: cls + "/" + e.lr.endpoint(), Op: e.op.ID,
			Text: fmt.Sprintf("%s request (op %d) is never answered; also unfinished: %s", e.lr.endpoint(), e.op.ID, strings.Join(others, ", "))})
		w.stop = "hang"
		return
	}
}

// excused reports whether the execution legitimately waits for its client.
func (w *World) excused(e *exec) bool {
	return e.body.stall >= 0 && !e.body.isReleased() && e.body.isStalled()
}

// collect judges the executions that finished.
func (w *World) collect() {
	var fin, rest []*exec
	for _, e := range w.execs {
		if e.isDone() || e.killed {
			fin = append(fin, e)
		} else {
			rest = append(rest, e)
		}
	}
	w.execs = rest
	for _, e := range fin {
		if e.isDone() {
			var out []byte
			out, e.pmsg, e.auth, e.wf, e.s0, e.s1, e.effStart, e.tEnd = e.fetch()
			e.oc = parseOutcome(out, e.pmsg != "")
			if e.relT.After(e.effStart) {
				e.effStart = e.relT
			}
			if e.wf {
				w.fault("response_write_error")
				if e.oc.none && e.pmsg == "" {
					e.oc.partial = true
				}
			}
			if e.op.F.Cancel > 0 && e.first && e.pmsg == "" && (e.isSilent() || e.oc.status >= 500) {
				// to whom would it have been answered
				e.oc = &outcome{none: true, partial: true}
			}
			e.killed = false
			n, short, zero := e.ent.Counts()
			w.st.EntropyBytes += n
			if e.ent.HasFailed() {
				w.fault("entropy_failure")
			}
			if short > 0 {
				w.fault("entropy_short_read")
			}
			if zero > 0 {
				w.fault("entropy_empty_read")
			}
		} else {
			e.oc = &outcome{none: true}
		}
	}
	if TraceOn {
		for _, e := range fin {
			w.trace("  %s", w.traceOf(e))
		}
	}
	// answers of a server that crashed in this round may still have arrived
	sort.SliceStable(fin, func(i, j int) bool { return fin[i].s1 < fin[j].s1 })
	for _, e := range fin {
		for _, v := range w.classify(e) {
			w.report(v)
		}
		if !e.oc.none && e.oc.kind == "json" && e.wf && e.oc.jsonBad {
			e.oc.none, e.oc.partial = true, true
		}
	}
	if len(w.vs) > 0 {
		return
	}
	for _, e := range fin {
		w.register(e)
	}
	if len(w.vs) == 0 {
		w.linearize(fin)
	}
	w.past = append(w.past, fin...)
	for _, e := range fin {
		if e.oc.none {
			w.st.Kinds[e.lr.endpoint()+"/none"]++
		} else if e.oc.ok {
			w.st.Accepted++
			w.st.Kinds[e.lr.endpoint()+"/"+kindOf(e)+"ok"]++
		} else {
			w.st.Refused++
			w.st.Kinds[e.lr.endpoint()+"/"+e.oc.err]++
		}
	}
	if w.stop == "" && len(w.vs) == 0 {
		w.checkCalls()
	}
	if len(w.st.ModelStates) < 64 {
		h := uint64(1469598103934665603)
		for _, b := range w.dyn[0] {
			h = (h ^ uint64(b)) * 1099511628211
		}
		w.st.ModelStates = append(w.st.ModelStates, h)
	}
}

func kindOf(e *exec) string {
	if e.lr.endpoint() == "token" {
		return e.lr.b("grant_type") + "/"
	}
	if e.lr.endpoint() == "authorize" {
		return e.lr.a("response_type") + "/"
	}
	return ""
}

// register adds the credentials an execution handed out.
func (w *World) register(e *exec) {
	if e.killed || e.oc.none {
		if e.ent.HasFailed() || e.killed {
			w.addGhosts(e)
		}
		return
	}
	if !e.oc.ok {
		w.addGhosts(e)
		return
	}
	v := w.judge(e, make([]byte, len(w.creds)))
	code, acc, ref := w.tokensOf(e)
	if code == "" && acc == "" && ref == "" {
		w.addGhosts(e)
		return
	}
	e.inc = w.inc
	iss := func(kind, tok string, ttl time.Duration) {
		if tok == "" {
			return
		}
		key, sig, ok := decodeTok(tok)
		bad := func(tags, class, f string, a ...interface{}) {
			if e.ent.HasFailed() {
				tags += " C12"
			}
			w.report(Violation{Tags: strings.Fields(tags), Class: class, Text: fmt.Sprintf(f, a...), Op: e.op.ID})
		}
		if !ok || string(sign(w.cfg.Secret, key)) != string(sig) {
			bad("C16 C15", "token-format", "%s %q is not a key with a valid signature under the server's secret", kind, tok)
			return
		}
		if len(key) != w.cfg.KeyLen {
			bad("C16", "key-length", "%s has a key of %d bytes instead of %d", kind, len(key), w.cfg.KeyLen)
			return
		}
		if i, dup := w.byKey[string(key)]; dup {
			t := "C16 C01"
			if w.creds[i].op == e.op.ID {
				t += " C14" // a further copy of the request got the same answer
			}
			bad(t, "duplicate", "%s issued by op %d repeats %s", kind, e.op.ID, w.describe(i))
			return
		}
		if !w.fresh(e, key) {
			bad("C16", "not-fresh", "%s key %x does not consist of fresh bytes of the random source", kind, key)
			return
		}
		c := &cred{idx: len(w.creds), kind: kind, tok: tok, key: key, sig: sig, client: v.client, user: v.user,
			scope: v.scope, redirect: v.redir, root: v.root, parent: v.parent, op: e.op.ID, copy: e.copy, exec: e.id, inc: w.inc,
			lo: e.effStart.Add(ttl), hi: e.tEnd.Add(ttl)}
		w.creds = append(w.creds, c)
		w.byKey[string(key)] = c.idx
		e.creds = append(e.creds, c.idx)
		for i := range w.dyn {
			w.dyn[i] = append(w.dyn[i], sNone)
		}
	}
	iss("code", code, w.cfg.CodeTTL)
	iss("access", acc, w.cfg.AccessTTL)
	iss("refresh", ref, w.cfg.RefrTTL)
}

// fresh checks that the key is a run of bytes the random source handed out -
// to this execution, or at least in this run - and that no other credential
// uses any of them.
func (w *World) fresh(e *exec, key []byte) bool {
	if w.used == nil {
		w.used = map[[2]int]bool{}
	}
	take := func(who int, log []byte) bool {
		from := 0
		for {
			i := strings.Index(string(log[from:]), string(key))
			if i < 0 {
				return false
			}
			i += from
			free := true
			for j := i; j < i+len(key); j++ {
				if w.used[[2]int{who, j}] {
					free = false
				}
			}
			if free {
				for j := i; j < i+len(key); j++ {
					w.used[[2]int{who, j}] = true
				}
				return true
			}
			from = i + 1
		}
	}
	if take(e.id, e.ent.Copy()) {
		return true
	}
	return w.ent.LogFull() || take(-1, w.ent.Log())
}

// addGhosts remembers the keys an execution that handed out nothing may have
// drawn, to check that they never become usable.
func (w *World) addGhosts(e *exec) {
	b := e.ent.Copy()
	add := func(b []byte) {
		k := make([]byte, w.cfg.KeyLen) // a partially read key is completed with zeros
		copy(k, b)
		if _, ok := w.byKey[string(k)]; ok || w.ghosts[string(k)] {
			return
		}
		w.ghosts[string(k)] = true
		e.ghost = append(e.ghost, string(k))
	}
	parts := [][]byte{b}
	if e.ent.HasFailed() && e.ent.Fault.Once && e.ent.Fault.FailAfter < len(b) {
		parts = [][]byte{b[:e.ent.Fault.FailAfter], b[e.ent.Fault.FailAfter:]}
	}
	for _, b := range parts {
		for i := 0; i < len(b); i += w.cfg.KeyLen {
			j := i + w.cfg.KeyLen
			if j > len(b) {
				j = len(b)
			}
			add(b[i:j])
		}
	}
}

// find returns the credential a reference denotes.
func (w *World) find(r *Ref) *cred {
	if r == nil {
		return nil
	}
	for _, c := range w.creds {
		if c.op == r.Op && c.kind == r.Kind && c.copy == r.Copy {
			return c
		}
	}
	for _, c := range w.creds {
		if c.op == r.Op && c.kind == r.Kind {
			return c
		}
	}
	return nil
}

const maxWorlds = 16

// linearize looks for an order of the executions that explains all outcomes.
func (w *World) linearize(fin []*exec) {
	var ex []*exec
	for _, e := range fin {
		if e.killed {
			continue
		}
		ex = append(ex, e)
	}
	for _, e := range ex {
		v := w.judge(e, make([]byte, len(w.creds)))
		e.pcred = v.cred
		for _, r := range v.must {
			if contains(r.tags, "C11") {
				e.noauth = true
			}
		}
	}
	if w.st.Crashes > 0 {
		// executions answered before a crash in the same round: their effects
		// are gone with the process
		var live []*exec
		for _, e := range ex {
			if e.incAt(w) != w.inc {
				for _, c := range e.creds {
					for i := range w.dyn {
						w.dyn[i][c] = sLost
					}
				}
				continue
			}
			live = append(live, e)
		}
		ex = live
	}
	if len(ex) == 0 {
		return
	}
	if len(ex) > 1 {
		w.st.Concurrent++
	}
	if len(ex) > 7 {
		w.stop = "too many overlapping executions"
		return
	}
	var out [][]byte
	seen := map[string]bool{}
	var deepest []Violation
	maxDepth := -1
	overflow := false
	for _, d0 := range w.dyn {
		var rec func(d []byte, done uint, depth int)
		rec = func(d []byte, done uint, depth int) {
			if depth == len(ex) {
				if !seen[string(d)] {
					seen[string(d)] = true
					if len(out) < maxWorlds {
						out = append(out, d)
					} else {
						overflow = true
					}
				}
				return
			}
			if len(out) >= maxWorlds {
				return
			}
			for i, e := range ex {
				if done&(1<<uint(i)) != 0 {
					continue
				}
				// real-time order
				ok := true
				for j, f := range ex {
					if j != i && done&(1<<uint(j)) == 0 && f.s1 < e.s0 {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				w.st.LinPerms++
				w.judging = d
				v := w.judge(e, d)
				vs, eff := w.compare(e, v)
				if len(vs) > 0 {
					if depth > maxDepth {
						maxDepth, deepest = depth, nil
					}
					if depth == maxDepth {
						deepest = append(deepest, vs...)
					}
					continue
				}
				alt := w.altNone
				nd := append([]byte(nil), d...)
				for _, x := range eff {
					if nd[x.c] == sLive {
						nd[x.c] = byte(x.st)
					}
				}
				for _, c := range e.creds {
					nd[c] = sLive
				}
				if len(v.rejEff) > 0 {
					e.replay = true
				}
				rec(nd, done|1<<uint(i), depth+1)
				if alt {
					rec(append([]byte(nil), d...), done|1<<uint(i), depth+1)
				}
			}
		}
		rec(d0, 0, 0)
	}
	if len(out) > 0 {
		w.dyn = out
		if overflow {
			w.stop = "too many possible states"
		}
		if len(out) > w.st.MaxWorlds {
			w.st.MaxWorlds = len(out)
		}
		return
	}
	// no explanation
	v := deepest[0]
	if len(ex) > 1 {
		direct := func(x *Violation) []string {
			if x.Hist == nil {
				return x.Tags
			}
			return x.Direct
		}
		v.Direct = append([]string(nil), direct(&v)...)
		v.Tags = append([]string(nil), v.Tags...)
		for i := range deepest[1:] {
			v.Direct = append(v.Direct, direct(&deepest[1+i])...)
		}
		for _, x := range deepest[1:] {
			for _, t := range x.Tags {
				if !contains(v.Tags, t) {
					v.Tags = append(v.Tags, t)
				}
			}
			for t, ops := range x.Hist {
				if v.Hist == nil {
					v.Hist = map[string][]int{}
				}
				v.Hist[t] = append(v.Hist[t], ops...)
			}
		}
		overl := false
		for i := range ex {
			for j := range ex {
				if i != j && ex[i].s0 <= ex[j].s1 && ex[j].s0 <= ex[i].s1 {
					overl = true
				}
			}
		}
		if overl && !contains(v.Tags, "C01") {
			v.Tags = append(v.Tags, "C01")
			v.Direct = append(v.Direct, "C01")
			v.Conc = true
		}
		var l []string
		for _, e := range ex {
			l = append(l, fmt.Sprintf("op %d.%d %s [%d,%d] -> %s", e.op.ID, e.copy, e.lr.endpoint(), e.s0, e.s1, e.oc.brief()))
		}
		v.Text = "no serial order of the overlapping requests explains the answers; closest: " + v.Text + "; requests: " + strings.Join(l, "; ")
	}
	w.report(v)
}

func (o *outcome) brief() string {
	switch {
	case o.none:
		return "no answer"
	case o.ok:
		return fmt.Sprintf("%d ok", o.status)
	}
	return fmt.Sprintf("%d %s", o.status, o.err)
}

// incAt returns the server incarnation that served the execution.
func (e *exec) incAt(w *World) int { return e.servedBy }

// TraceOn records a readable history of each run.
var TraceOn bool

func (w *World) trace(f string, a ...interface{}) {
	if len(w.st.Trace) < 2000 {
		w.st.Trace = append(w.st.Trace, fmt.Sprintf(f, a...))
	}
}

func (w *World) traceOf(e *exec) string {
	via := ""
	if e.op.Via != "" {
		via = " via client library"
	}
	out := e.oc.brief()
	if e.pmsg != "" {
		out = "aborted: " + trunc(e.pmsg, 80)
	}
	if e.auth == 1 {
		out += " (authorized)"
	}
	l := e.lr
	what := ""
	for _, k := range []string{"response_type", "grant_type", "client_id", "scope", "redirect_uri", "token_type_hint", "code", "refresh_token", "token", "state"} {
		v := l.b(k)
		if v == "" {
			v = l.a(k)
		}
		if v != "" {
			what += fmt.Sprintf(" %s=%q", k, trunc(v, 24))
		}
	}
	if l.basicOK {
		what += fmt.Sprintf(" basic=%q", l.id)
	} else if l.hasAuth {
		what += fmt.Sprintf(" auth=%q", trunc(l.authRaw, 24))
	}
	return fmt.Sprintf("op%d.%d%s [%d..%d] %s %s%s -> %s", e.op.ID, e.copy, via, e.s0, e.s1, l.method, l.path, what, out)
}
