package world

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"

	"verif/simrt"
)

// ClientScenario is a run of the client library against a hostile transport.
type ClientScenario struct {
	Limit   int64         `json:"limit"` // configured response limit, 0 = default
	Timeout time.Duration `json:"timeout,omitempty"`
	Calls   []*CCall      `json:"calls"`
	// Lanes > 0: call i is made by task i%Lanes, one after the other.
	Lanes int `json:"lanes,omitempty"`
	// Cfgs are the clients; none means one client with the default endpoints.
	Cfgs []CCfg `json:"clients,omitempty"`
}

// CCfg is the configuration of one client.
type CCfg struct {
	Base, Token, Introspect, Revoke string
	Limit                           int64
	Timeout                         time.Duration
	Plain                           bool // NewClient instead of NewClientWithClient
}

func (cs *ClientScenario) cfgs() []CCfg {
	if len(cs.Cfgs) > 0 {
		return cs.Cfgs
	}
	return []CCfg{{Base: "http://auth.example", Token: "/oauth2/token", Introspect: "/oauth2/introspect", Revoke: "/oauth2/revoke", Limit: cs.Limit, Timeout: cs.Timeout}}
}

func (c *CCfg) limit() int64 {
	if c.Limit == 0 {
		return 2048
	}
	return c.Limit
}

func (c *CCfg) endpoint(kind string) string {
	return c.Base + map[string]string{"token": c.Token, "introspect": c.Introspect, "revoke": c.Revoke}[kind]
}

func (c *CCfg) config() oauth2.ClientConfig {
	if c.Token == "/oauth2/token" && c.Introspect == "/oauth2/introspect" && c.Revoke == "/oauth2/revoke" {
		d := oauth2.Default(c.Base)
		d.ResponseLimit = c.Limit
		return d
	}
	return oauth2.ClientConfig{BaseURI: c.Base, TokenEndpoint: c.Token, IntrospectionEndpoint: c.Introspect, RevocationEndpoint: c.Revoke, ResponseLimit: c.Limit}
}

func (c *CCfg) build(tr http.RoundTripper) *oauth2.Client {
	if c.Plain {
		return oauth2.NewClient(c.config())
	}
	return oauth2.NewClientWithClient(c.config(), &http.Client{Transport: tr, Timeout: c.Timeout})
}

// defaultTransport stands behind clients that use http.DefaultTransport.
type defaultTransport struct{ rt http.RoundTripper }

var defTransport = &defaultTransport{}

func init() { http.DefaultTransport = defTransport }

//go:norace
func (d *defaultTransport) set(rt http.RoundTripper) { d.rt = rt }

//go:norace
func (d *defaultTransport) get() http.RoundTripper { return d.rt }

func (d *defaultTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	if rt := d.get(); rt != nil {
		return rt.RoundTrip(r)
	}
	return nil, errTransport
}

// CCall is one call of the client library.
type CCall struct {
	ID    int           `json:"id"`
	Cl    int           `json:"client,omitempty"`
	Start time.Duration `json:"start,omitempty"`
	In    CIn           `json:"in"`
	Resp  CResp         `json:"resp"`
}

// CIn are the arguments of a call.
type CIn struct {
	Kind     string   `json:"kind"`
	ID       string   `json:"id"`
	Secret   string   `json:"secret"`
	Grant    string   `json:"grant,omitempty"`
	Username string   `json:"username,omitempty"`
	Password string   `json:"password,omitempty"`
	Refresh  string   `json:"refresh,omitempty"`
	Redirect string   `json:"redirect,omitempty"`
	Code     string   `json:"code,omitempty"`
	Token    string   `json:"token,omitempty"`
	Hint     string   `json:"hint,omitempty"`
	Scope    []string `json:"scope,omitempty"`
}

func (c *CIn) input() callInput {
	return callInput{kind: c.Kind, id: c.ID, secret: c.Secret, grant: c.Grant, username: c.Username, password: c.Password,
		refresh: c.Refresh, redirect: c.Redirect, code: c.Code, token: c.Token, hint: c.Hint, scope: c.Scope}
}

// CResp describes what the transport does with a call.
type CResp struct {
	Err     string        `json:"err,omitempty"` // transport error before a response: refused, eof, hang
	Delay   time.Duration `json:"delay,omitempty"`
	Status  int           `json:"status"`
	CT      string        `json:"ct"`
	Body    string        `json:"body"`
	PadPre  int           `json:"pad_pre,omitempty"`  // white space before the body
	PadPost int           `json:"pad_post,omitempty"` // bytes after the body
	PadByte string        `json:"pad_byte,omitempty"`
	Endless bool          `json:"endless,omitempty"`
	BreakAt int           `json:"break_at,omitempty"` // 1-based: read error after n-1 bytes
	BrkEOF  bool          `json:"break_eof,omitempty"`
	Chunk   int           `json:"chunk,omitempty"`
	DataEOF bool          `json:"data_eof,omitempty"` // last bytes together with io.EOF
	Zero    int           `json:"zero,omitempty"`     // every n-th read returns (0, nil)
	RDelay  time.Duration `json:"read_delay,omitempty"`
	CloseEr bool          `json:"close_error,omitempty"`
	CL      int           `json:"cl,omitempty"` // 0 unknown length, 1 announced
}

func (r *CResp) faults() int {
	n := 0
	for _, b := range []bool{r.Err != "", r.Delay > 0, r.Endless, r.BreakAt > 0, r.Chunk > 0, r.DataEOF, r.Zero > 0, r.RDelay > 0, r.CloseEr, r.PadPre > 0, r.PadPost > 0} {
		if b {
			n++
		}
	}
	return n
}

const respSimplifications = 13

// simplify removes one complication and reports whether there was one.
func (r *CResp) simplify(k int) bool {
	o := *r
	switch k {
	case 0:
		r.Delay = 0
	case 1:
		r.Chunk = 0
	case 2:
		r.DataEOF = false
	case 3:
		r.Zero = 0
	case 4:
		r.RDelay = 0
	case 5:
		r.CloseEr = false
	case 6:
		r.PadPre = 0
	case 7:
		r.PadPost = 0
	case 8:
		r.BreakAt = 0
	case 9:
		r.Endless = false
	case 10:
		r.CL = 0
	case 11:
		r.BrkEOF = false
	case 12:
		r.Err = ""
	}
	return o != *r
}

func (r *CResp) data() []byte {
	pb := byte(' ')
	if r.PadByte != "" {
		pb = r.PadByte[0]
	}
	b := make([]byte, 0, r.PadPre+len(r.Body)+r.PadPost)
	for i := 0; i < r.PadPre; i++ {
		b = append(b, ' ')
	}
	b = append(b, r.Body...)
	for i := 0; i < r.PadPost; i++ {
		b = append(b, pb)
	}
	return b
}

// ccall is the state of a running call. Fields below the line are written by
// tasks and read by the root through norace accessors.
type ccall struct {
	c    *CCall
	data []byte
	task *simrt.Task

	in       callInput
	limit    int64
	endpoint string
	started  bool
	url      string
	head     []byte
	body     []byte
	trips    int
	tripErr  bool
	gotResp  bool
	rendErr  bool
	read     int64
	reads    int
	pos      int
	closes   int
	lateRead bool
	runaway  bool
	cutAt    int // where the body broke because of a timeout, -1
	lastIO   time.Time
	done     bool
	doneAt   time.Time
	openEnd  bool // returned without closing the body
	res      callResult
	hanging  bool
}

type ctransport struct {
	calls []*ccall
}

//go:norace
func (t *ctransport) cur() *ccall {
	k := simrt.Cur()
	if k == nil || k.Op < 0 || k.Op >= len(t.calls) {
		return nil
	}
	return t.calls[k.Op]
}

// begin makes the call the current one of the running task.
//
//go:norace
func (c *ccall) begin(i int) {
	simrt.Cur().Op = i
	c.started = true
}

//go:norace
func (c *ccall) isStarted() bool { return c.started }

// RoundTrip runs on the calling task.
func (t *ctransport) RoundTrip(req *http.Request) (*http.Response, error) {
	c := t.cur()
	if c == nil {
		return nil, errTransport
	}
	head, body, err := renderRequest(req)
	c.sent(head, body, req.URL.String(), err)
	simrt.Point()
	r := &c.c.Resp
	wait := r.Delay
	hang := r.Err == "hang"
	if dl, ok := req.Context().Deadline(); ok && (hang || time.Now().Add(wait).After(dl)) {
		simrt.Sleep(time.Until(dl) + 1)
		c.tripped(true)
		if err := req.Context().Err(); err != nil {
			return nil, err
		}
		return nil, errTransport
	}
	if wait > 0 {
		simrt.Sleep(wait)
	}
	switch r.Err {
	case "":
	case "hang":
		c.setHang(true)
		simrt.Park(func() bool { return false })
	case "eof":
		c.tripped(true)
		return nil, io.EOF
	default:
		c.tripped(true)
		return nil, errTransport
	}
	h := http.Header{}
	if r.CT != "-" {
		h.Set("Content-Type", r.CT)
	}
	cl := int64(-1)
	if r.CL == 1 && !r.Endless {
		cl = int64(len(c.data))
	}
	c.tripped(false)
	return &http.Response{
		Status: fmt.Sprintf("%d %s", r.Status, http.StatusText(r.Status)), StatusCode: r.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: cl, Request: req,
		Body: &cbody{c: c, req: req},
	}, nil
}

//go:norace
func (c *ccall) sent(head, body []byte, u string, err error) {
	c.trips++
	if c.trips == 1 {
		c.head, c.body, c.url = head, body, u
		c.rendErr = err != nil
	}
}

//go:norace
func (c *ccall) tripped(failed bool) {
	c.tripErr = failed
	c.gotResp = !failed
	c.lastIO = time.Now()
}

//go:norace
func (c *ccall) setHang(b bool) { c.hanging = b }

// cbody is the hostile response body.
type cbody struct {
	c   *ccall
	req *http.Request
}

const runawayBytes = 1 << 20

//go:norace
func (b *cbody) Read(p []byte) (n int, err error) {
	c := b.c
	r := &c.c.Resp
	simrt.Point()
	if c.closes > 0 {
		c.lateRead = true
		return 0, http.ErrBodyReadAfterClose
	}
	c.reads++
	if r.RDelay > 0 {
		if dl, ok := b.req.Context().Deadline(); ok && time.Now().Add(r.RDelay).After(dl) {
			simrt.Sleep(time.Until(dl) + 1)
			c.cutAt = c.pos
			c.lastIO = time.Now()
			if e := b.req.Context().Err(); e != nil {
				return 0, e
			}
			return 0, errTransport
		}
		simrt.Sleep(r.RDelay)
	}
	c.lastIO = time.Now()
	if c.read > c.limit+runawayBytes || c.reads > 3000000 {
		c.runaway = true
		return 0, errTransport
	}
	if r.Zero > 0 && c.reads%r.Zero == 0 {
		return 0, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(c.data)
	brk := r.BreakAt > 0 && r.BreakAt-1 <= end
	if brk {
		end = r.BreakAt - 1
	}
	max := len(p)
	if r.Chunk > 0 && max > r.Chunk {
		max = r.Chunk
	}
	if c.pos >= end && r.Endless && !brk {
		if max > 65536 {
			max = 65536
		}
		for i := 0; i < max; i++ {
			p[i] = ' '
		}
		c.pos += max
		c.read += int64(max)
		return max, nil
	}
	for n < max && c.pos < end {
		p[n] = c.data[c.pos]
		n++
		c.pos++
	}
	c.read += int64(n)
	if c.pos >= end && (n == 0 || r.DataEOF) && !(r.Endless && !brk) {
		switch {
		case !brk:
			err = io.EOF
		case r.BrkEOF:
			err = io.ErrUnexpectedEOF
		default:
			err = errBroken
		}
	}
	return
}

//go:norace
func (b *cbody) Close() error {
	b.c.closes++
	if b.c.c.Resp.CloseEr {
		return errBroken
	}
	return nil
}

//go:norace
func (c *ccall) finish(r callResult) {
	c.res = r
	c.doneAt = time.Now()
	c.openEnd = c.gotResp && c.closes == 0
	c.done = true
}

type ccView struct {
	head, body                                                        []byte
	trips, reads, closes, cutAt                                       int
	tripErr, gotResp, rendErr, lateRead, runaway, done, open, hanging bool
	read                                                              int64
	lastIO, doneAt                                                    time.Time
	res                                                               callResult
	url                                                               string
}

//go:norace
func (c *ccall) view() (v ccView) {
	v.head, v.body, v.url = launder(c.head), launder(c.body), launderS(c.url)
	v.trips, v.reads, v.closes, v.cutAt = c.trips, c.reads, c.closes, c.cutAt
	v.tripErr, v.gotResp, v.rendErr, v.lateRead, v.runaway, v.done, v.open, v.hanging = c.tripErr, c.gotResp, c.rendErr, c.lateRead, c.runaway, c.done, c.openEnd, c.hanging
	v.read, v.lastIO, v.doneAt = c.read, c.lastIO, c.doneAt
	v.res = callResult{launderS(c.res.val), launderS(c.res.err), launderS(c.res.oerr), launderS(c.res.pan), c.done}
	return
}

//go:norace
func (c *ccall) isDone() bool { return c.done }

//go:norace
func (c *ccall) isHanging() bool { return c.hanging }

// RunClient executes a client scenario inside a bubble.
func RunClient(sc *Scenario) (vs []Violation, st Stats, decisions []simrt.Decision) {
	cs := sc.Client
	st.Faults, st.Kinds = map[string]int{}, map[string]int{}
	start := time.Now()
	sched := simrt.NewSched(sc.Strat, sc.Explicit, nil, 600000+100000*len(cs.Calls))
	simrt.NewEntropy(sc.EntSeed)
	defer simrt.Done()
	simrt.ResetState()
	tr := &ctransport{}
	defTransport.set(tr)
	var cls []*oauth2.Client
	cfgs := cs.cfgs()
	for i := range cfgs {
		cls = append(cls, cfgs[i].build(tr))
	}
	for _, c := range cs.Calls {
		if c.Cl >= len(cfgs) {
			c.Cl = 0
		}
		cfg := &cfgs[c.Cl]
		x := &ccall{c: c, data: c.Resp.data(), in: c.In.input(), limit: cfg.limit(), endpoint: cfg.endpoint(c.In.Kind), cutAt: -1}
		tr.calls = append(tr.calls, x)
	}
	if cs.Lanes > 0 {
		for k := 0; k < cs.Lanes && k < len(tr.calls); k++ {
			k := k
			t := sched.Spawn(fmt.Sprintf("c%d", k), 2, k, func() {
				for i := k; i < len(tr.calls); i += cs.Lanes {
					x := tr.calls[i]
					x.begin(i)
					if x.c.Start > 0 {
						simrt.Sleep(x.c.Start)
					}
					x.finish(runCall(cls[x.c.Cl], x.in))
				}
			})
			for i := k; i < len(tr.calls); i += cs.Lanes {
				tr.calls[i].task = t
			}
		}
	}
	for i, x := range tr.calls {
		if cs.Lanes > 0 {
			break
		}
		x := x
		i := i
		x.task = sched.Spawn(fmt.Sprintf("c%d", x.c.ID), 2, i, func() {
			x.begin(i)
			if x.c.Start > 0 {
				simrt.Sleep(x.c.Start)
			}
			x.finish(runCall(cls[x.c.Cl], x.in))
		})
	}
	report := func(v Violation) { vs = append(vs, v) }
	idled := false
	waits := 0
	var until time.Time
	fatal := false
loop:
	for {
		if sched.Step() {
			if sched.Fatal != "" {
				report(Violation{Tags: []string{"C19", "C18"}, Class: "client-fatal", Op: -1, Text: "the process would die: " + sched.Fatal})
				fatal = true
				break
			}
			if sched.StepsOut {
				report(Violation{Tags: []string{"C19"}, Class: "client-livelock", Op: -1, Text: "client calls do not return in a bounded number of steps"})
				fatal = true
				break
			}
			continue
		}
		if wk, ok := sched.NextWake(); ok {
			sched.IdleUntil(wk)
			continue
		}
		open := false
		for _, x := range tr.calls {
			if x.isStarted() && !x.isDone() && !x.isHanging() {
				open = true
			}
		}
		if open || sched.ExtBlocked() > 0 {
			if !idled {
				idled = true
				until = time.Now().Add(48 * time.Hour)
			}
			if waits++; waits < 20000 && time.Now().Before(until) {
				sched.Progress()
				sched.IdleUntil(until)
				continue
			}
		}
		break loop
	}
	for _, x := range tr.calls {
		st.Ops++
		st.ClientCalls++
		if fatal {
			break
		}
		v := x.view()
		if !x.isStarted() {
			// its lane hangs in an earlier call
			continue
		}
		x.countFaults(&st)
		if !v.done {
			if !v.hanging {
				report(Violation{Tags: []string{"C19", "C18"}, Class: "client-hang", Op: x.c.ID, Text: fmt.Sprintf("%s call does not return although the transport did (%d exchanges)", x.in.kind, v.trips)})
			}
			continue
		}
		for _, y := range x.check(v, x.limit) {
			report(y)
		}
		if v.res.err == "" {
			st.Accepted++
			st.Kinds["client/"+x.in.kind+"/ok"]++
		} else {
			st.Refused++
			st.Kinds["client/"+x.in.kind+"/error"]++
		}
	}
	if !fatal {
		for _, t := range sched.Live() {
			own := false
			for _, x := range tr.calls {
				if x.task == t {
					own = true
				}
			}
			if own {
				continue
			}
			// descendants of a hanging call may wait with it
			excused := false
			for _, x := range tr.calls {
				if x.isHanging() && strings.HasPrefix(t.Name, x.task.Name+".") {
					excused = true
				}
			}
			if !excused && strings.HasPrefix(t.Name, "c") {
				report(Violation{Tags: []string{"C19"}, Class: "goroutine-leak", Op: -1, Text: "goroutine " + t.Name + " started by a finished client call never ends"})
				break
			}
		}
	}
	sched.Kill(0)
	st.Leftover = !sched.Drain()
	st.Steps, st.Switches, st.Hash = sched.Steps(), sched.Switches, sched.Hash
	st.SimTime = time.Since(start)
	if len(tr.calls) > 1 {
		st.Concurrent = 1
	}
	return vs, st, sched.Log()
}

func (x *ccall) countFaults(st *Stats) {
	r := &x.c.Resp
	f := func(b bool, k string) {
		if b {
			st.Faults[k]++
		}
	}
	f(r.Err == "hang", "transport_hang")
	f(r.Err != "" && r.Err != "hang", "transport_error")
	f(r.Delay > 0, "response_delayed")
	f(r.Endless, "response_endless")
	f(r.BreakAt > 0, "response_broken_off")
	f(r.Chunk > 0, "response_chunked")
	f(r.DataEOF, "response_data_with_eof")
	f(r.Zero > 0, "response_empty_reads")
	f(r.RDelay > 0, "response_slow")
	f(r.CloseEr, "response_close_error")
	f(r.PadPre+r.PadPost > 0, "response_padded")
	f(r.Status != 200, "response_status")
	f(r.CT != "application/json", "response_content_type")
}

// slack is the constant by which reading may exceed the limit.
const slack = 8192

func (x *ccall) check(v ccView, limit int64) (vs []Violation) {
	bad := func(tags, class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: strings.Fields(tags), Class: class, Text: fmt.Sprintf(f, a...), Op: x.c.ID})
	}
	k := x.in.kind
	if v.gotResp {
		if v.open || v.closes == 0 {
			bad("C19", "body-open/"+k, "%s call (status %d) returned without closing the response body", k, x.c.Resp.Status)
		}
		if v.runaway || v.read > limit+slack {
			bad("C19", "over-read/"+k, "%s call (status %d) read %d bytes of the response, the limit is %d", k, x.c.Resp.Status, v.read, limit)
		}
		if v.lateRead {
			bad("C19", "read-after-close/"+k, "%s call read the body after closing it", k)
		}
		if d := v.doneAt.Sub(v.lastIO); d > 10*time.Millisecond {
			bad("C19", "late-return/"+k, "%s call returned %v after the transport", k, d)
		}
	}
	if v.tripErr {
		if d := v.doneAt.Sub(v.lastIO); d > 10*time.Millisecond {
			bad("C19", "late-return/"+k, "%s call returned %v after the transport failed", k, d)
		}
	}
	if v.runaway {
		return
	}
	if v.trips > 1 {
		bad("C18", "client-resend", "%s call sent its request %d times", k, v.trips)
		return
	}
	if v.trips == 0 {
		if v.res.err == "" {
			bad("C18", "client-success-unsent", "%s call succeeded without sending anything", k)
		} else {
			bad("C18", "client-unsent", "%s call was not sent: %s", k, v.res.err)
		}
		return
	}
	if v.rendErr {
		bad("C18", "wire-malformed", "request body cannot be read")
		return
	}
	vs = append(vs, checkWire(x.c.ID, x.in, v.head, v.body, x.endpoint)...)
	if a, _, _ := strings.Cut(v.url, ":"); !strings.HasPrefix(x.endpoint, a+":") {
		bad("C18", "wire-target", "client sent the request to %s instead of %s", v.url, x.endpoint)
	}
	if !v.gotResp {
		vs = append(vs, checkResult(x.c.ID, k, delivered{transportErr: true}, v.res)...)
		return
	}
	r := &x.c.Resp
	d := response{status: r.Status, ct: r.CT, body: x.data, whole: true, limit: limit}
	if r.CT == "-" {
		d.ct = ""
	}
	if r.BreakAt > 0 && r.BreakAt-1 <= len(d.body) {
		d.whole = false
		d.body = d.body[:r.BreakAt-1]
	} else if r.Endless {
		d.whole = false
		if k := limit + 1 - int64(len(d.body)); k > 0 {
			d.body = append(append([]byte(nil), d.body...), strings.Repeat(" ", int(k))...)
		}
	}
	if v.cutAt >= 0 && v.cutAt < len(d.body) {
		d.whole = false
		d.body = d.body[:v.cutAt]
	} else if v.cutAt >= 0 {
		// everything arrived, and the time ran out on a read behind the end: a
		// caller that has seen the end may succeed, one that has not may fail
		d.whole, d.maybe = false, true
	}
	vs = append(vs, checkResponse(x.c.ID, k, d, v.res)...)
	return
}

// NewClientScenario generates a client scenario from a seed.
func NewClientScenario(prop string, seed uint64) *Scenario {
	g := &gen{r: simrt.NewRand(seed*0x9e3779b97f4a7c15 + 77), p: ProfileFor(prop)}
	g.r.U64()
	sc := &Scenario{Mode: "client", Seed: seed, EntSeed: g.r.U64()}
	g.sc = sc
	cs := &ClientScenario{Limit: []int64{0, 0, 0, 1, 17, 100, 300, 2048, 5000, 100000}[g.r.N(10)]}
	if g.chance(0.2) {
		cs.Timeout = []time.Duration{time.Millisecond, time.Second, 30 * time.Second}[g.r.N(3)]
	}
	limit := int(cs.Limit)
	if limit == 0 {
		limit = 2048
	}
	n := 1
	if g.chance(0.7) {
		n = 2 + g.r.N(4)
	}
	if g.chance(0.3) {
		for k := 1 + g.r.N(3); k > 0; k-- {
			cs.Cfgs = append(cs.Cfgs, g.ccfg())
		}
	}
	similar := g.chance(0.35)
	even := false
	switch {
	case g.chance(0.01):
		// many calls one after the other
		n = []int{12, 20, 35, 70, 150}[g.r.N(5)]
		cs.Lanes = 1 + g.r.N(3)
		even = g.chance(0.7)
	case g.chance(0.15):
		n += g.r.N(4)
		cs.Lanes = 1 + g.r.N(2)
	}
	for i := 0; i < n; i++ {
		c := &CCall{ID: i, In: g.cin(i)}
		if len(cs.Cfgs) > 0 {
			c.Cl = g.r.N(len(cs.Cfgs))
			limit = int(cs.Cfgs[c.Cl].limit())
		}
		if g.chance(0.1) {
			c.Start = time.Duration(1+g.r.N(5)) * time.Second
			if g.chance(0.2) {
				c.Start = []time.Duration{time.Nanosecond, time.Minute, time.Hour, 25 * time.Hour}[g.r.N(4)]
			}
		}
		if i > 0 && similar && g.chance(0.7) {
			c.In = g.similar(cs.Calls[g.r.N(i)].In)
		}
		c.Resp = g.cresp(c, i, limit)
		if n > 10 && c.Resp.Err == "hang" {
			c.Resp.Err = "eof"
		}
		if i > 0 && even && g.chance(0.9) {
			// the same kind of outcome over and over
			r := cs.Calls[0].Resp
			if g.chance(0.5) || r.Status != 200 || r.Err != "" {
				c.Resp = r
			}
		}
		cs.Calls = append(cs.Calls, c)
	}
	sc.Client = cs
	g.strategy()
	sc.CrashT, sc.CrashY = "", 0
	if sc.Strat.Kind == 2 {
		for i := range sc.Strat.Changes {
			sc.Strat.Changes[i] = 1 + sc.Strat.Changes[i]%150
		}
	} else if sc.Strat.Kind == 1 && sc.Strat.P < 0.1 {
		sc.Strat.P = 0.15
	}
	return sc
}

var oddStrings = []string{"foo", "a b", "a+b&c=d", "100%", "ä€😀", "", "x:y", "\"q\"", "<s>", " lead", "a=b;c", "%41", "line\nbreak", "longer-value-0123456789-abcdefghijklmnopqrstuvwxyz", "tab\there"}

func (g *gen) odd() string { return oddStrings[g.r.N(len(oddStrings))] }

func (g *gen) cin(i int) CIn {
	c := CIn{Kind: g.pick("token", "token", "introspect", "revoke"), ID: fmt.Sprintf("client%d", i), Secret: fmt.Sprintf("secret%d%s", i, g.odd())}
	if g.chance(0.15) {
		c.ID = strings.ReplaceAll(g.odd(), ":", "-")
	}
	if g.chance(0.1) {
		c.Secret = ""
	}
	if c.ID == "" && c.Secret == "" {
		c.ID = "c"
	}
	u := func(p string) string {
		if g.chance(0.5) {
			return ""
		}
		if g.chance(0.02) {
			return fmt.Sprintf("%s%d%s", p, i, strings.Repeat("long value ", 50+g.r.N(400)))
		}
		return fmt.Sprintf("%s%d%s", p, i, g.odd())
	}
	if c.Kind == "token" {
		c.Grant = g.pick("password", "client_credentials", "authorization_code", "refresh_token")
		c.Username, c.Password, c.Refresh, c.Code = u("u"), u("p"), u("r"), u("c")
		if g.chance(0.4) {
			c.Redirect = redirects[g.r.N(len(redirects))]
		}
		for k := g.r.N(3); k > 0; k-- {
			c.Scope = append(c.Scope, scopeWords[g.r.N(8)])
		}
	} else {
		c.Token = fmt.Sprintf("t%d%s", i, g.odd())
		c.Hint = g.pick("", "", "access_token", "refresh_token")
	}
	return c
}

// ccfg makes up the configuration of a client.
func (g *gen) ccfg() CCfg {
	c := CCfg{Base: g.pick("http://auth.example", "http://auth.example", "https://auth.example:8443", "http://auth.example/tenant/a", "http://other.example", "http://auth.example/a%2Fb", "https://auth.example"),
		Token: "/oauth2/token", Introspect: "/oauth2/introspect", Revoke: "/oauth2/revoke",
		Limit: []int64{0, 0, 0, 1, 17, 100, 300, 2048, 5000, 100000}[g.r.N(10)]}
	if g.chance(0.5) {
		c.Token = g.pick("/token", "/v2/token?tenant=x", "", "/oauth2/token/", "/oauth2/introspect", "/t%20t")
		c.Introspect = g.pick("/introspect", "/v2/introspect?tenant=x&a=b", "/i", "/oauth2/token")
		c.Revoke = g.pick("/revoke", "/v2/revoke?tenant=x", "/r/", "/token")
	}
	if g.chance(0.3) {
		c.Plain = true
	} else if g.chance(0.2) {
		c.Timeout = []time.Duration{time.Millisecond, time.Second, 30 * time.Second}[g.r.N(3)]
	}
	return c
}

// similar returns the same arguments or ones that differ in one of them.
func (g *gen) similar(c CIn) CIn {
	c.Scope = append([]string(nil), c.Scope...)
	if g.chance(0.5) {
		return c
	}
	x := fmt.Sprintf("%d", g.r.N(10))
	switch g.r.N(8) {
	case 0:
		c.ID += x
	case 1:
		c.Secret += x
	case 2:
		if c.Kind != "token" {
			c.Kind = g.pick("introspect", "revoke")
		} else {
			c.Grant = g.pick("password", "client_credentials", "authorization_code", "refresh_token")
		}
	case 3, 4:
		if c.Kind != "token" {
			c.Token += x
		} else {
			c.Scope = append(c.Scope, "s"+x)
		}
	case 5:
		if c.Kind != "token" {
			c.Hint = g.pick("", "access_token", "refresh_token")
		} else {
			c.Username, c.Password = c.Username+x, c.Password+x
		}
	case 6:
		if c.Kind == "token" {
			c.Refresh += x
		}
	case 7:
		if c.Kind == "token" {
			c.Code += x
		}
	}
	return c
}

func (g *gen) cresp(c *CCall, i, limit int) CResp {
	r := CResp{Status: 200, CT: "application/json", CL: g.r.N(2)}
	if g.chance(0.1) {
		r.Err = g.pick("refused", "eof", "hang")
	}
	if g.chance(0.35) {
		r.Status = []int{201, 202, 203, 204, 206, 299, 300, 301, 304, 400, 400, 400, 401, 401, 403, 404, 409, 418, 429, 500, 500, 502, 503, 599}[g.r.N(24)]
	}
	if g.chance(0.15) {
		r.CT = g.pick("application/json; charset=utf-8", "Application/JSON", "text/html", "-", "application/json; charset", "application/jsonx", "text/json", "application/x-www-form-urlencoded", ";", "application/problem+json", "application/json;charset=UTF-8", "", "text/html; application/json", "application /json")
	}
	m := map[string]interface{}{}
	opt := func(k string, v interface{}, p float64) {
		if g.chance(p) {
			m[k] = v
		}
	}
	tag := fmt.Sprintf("-%d-%d", i, g.r.N(1000))
	if r.Status == 200 && g.chance(0.92) {
		switch c.In.Kind {
		case "token":
			opt("token_type", g.pick("bearer", "Bearer", "mac"), 0.95)
			opt("access_token", "at"+tag+g.odd(), 0.95)
			opt("expires_in", []int{0, 1, 3600, -1, 86400, 2147483648}[g.r.N(6)], 0.9)
			opt("refresh_token", "rt"+tag, 0.6)
			opt("scope", g.pick("foo", "foo bar", "", "a b c", "foo:read"), 0.7)
			opt("state", "st"+g.odd(), 0.2)
		case "introspect":
			opt("active", g.chance(0.7), 0.95)
			opt("scope", g.pick("foo", "foo bar", ""), 0.7)
			opt("client_id", "cid"+tag, 0.7)
			opt("username", "u"+tag+g.odd(), 0.7)
			opt("token_type", g.pick("access_token", "refresh_token", "x"), 0.7)
			opt("exp", []int{1600000000 + g.r.N(100000), 1600000000 + g.r.N(100000), 1600000000 + g.r.N(100000), -1, 0, 1 << 40}[g.r.N(6)], 0.6)
			opt("iat", 1500000000+g.r.N(100000), 0.3)
			opt("nbf", 1500000000+g.r.N(100000), 0.3)
			opt("sub", "s"+tag, 0.3)
			opt("aud", "a"+tag, 0.3)
			opt("iss", "i"+tag, 0.3)
			opt("jti", "j"+tag, 0.3)
			if g.chance(0.2) {
				m["extra"] = map[string]interface{}{"k" + tag: g.odd()}
			}
		}
	} else {
		opt("error", g.pick("invalid_request", "invalid_client", "invalid_grant", "invalid_scope", "access_denied", "server_error", "custom_error", "x", "invalid_token", "insufficient_scope", "unauthorized_client", "unsupported_grant_type", "unsupported_response_type", "unsupported_token_type", "temporarily_unavailable"), 0.9)
		opt("error_description", "d"+tag+g.odd(), 0.6)
		opt("error_uri", "http://e.example/"+tag, 0.3)
		opt("state", "st"+g.odd(), 0.3)
		opt("scope", g.pick("foo", "foo bar"), 0.3)
		opt("realm", "r"+tag, 0.3)
	}
	opt("unknown"+tag, g.odd(), 0.2)
	if g.chance(0.08) {
		// wrong types
		for k := range map[string]bool{g.pick("token_type", "active", "error", "scope", "exp", "expires_in", "access_token"): true} {
			switch g.r.N(5) {
			case 0:
				m[k] = 7
			case 1:
				m[k] = []string{"x"}
			case 2:
				m[k] = nil
			case 3:
				m[k] = map[string]interface{}{"a": 1}
			case 4:
				m[k] = "17"
			}
		}
	}
	b, _ := json.Marshal(m)
	r.Body = string(b)
	if g.chance(0.08) {
		r.Body = g.pick("", "null", "[]", "{}", "true", "\"str\"", "12", "{", r.Body+r.Body, r.Body[:len(r.Body)/2], "<html>error</html>", r.Body+"x", "\xff\xfe", "["+r.Body+"]", "{\"error\":", "error=invalid_request", "\ufeff"+r.Body, "{\"error\":\"a\"}{\"error\":\"b\"}")
	}
	// size around the limit
	switch g.r.N(9) {
	case 0:
		if k := limit - len(r.Body) + []int{-1, 0, 1, 2, 500}[g.r.N(5)]; k > 0 {
			r.PadPre = k
		}
	case 1:
		if k := limit - len(r.Body) + []int{-1, 0, 1, 2, 100, 20000}[g.r.N(6)]; k > 0 {
			r.PadPost = k
			r.PadByte = g.pick(" ", " ", "x", "\n", "}")
		}
	case 2:
		// a long value
		if len(m) > 0 && g.chance(0.7) {
			k := limit - len(r.Body) + []int{-40, -20, 0, 100}[g.r.N(4)]
			if k > 0 && k < 200000 {
				m["pad"] = strings.Repeat("p", k)
				b, _ := json.Marshal(m)
				r.Body = string(b)
			}
		}
	}
	if g.chance(0.07) {
		r.Endless = true
	}
	if g.chance(0.15) {
		r.BreakAt = 1 + g.r.N(len(r.Body)+r.PadPre+r.PadPost+2)
		if g.chance(0.3) {
			r.BreakAt = len(r.Body) + r.PadPre + r.PadPost + 1
		}
		r.BrkEOF = g.chance(0.5)
	}
	if g.chance(0.3) {
		r.Chunk = 1 + g.r.N(40)
		if len(r.Body)+r.PadPre+r.PadPost > 4000 {
			r.Chunk *= 50
		}
		if r.Endless && limit > 3000 {
			r.Chunk = 4096
		}
	}
	r.DataEOF = g.chance(0.25)
	if g.chance(0.08) {
		r.Zero = 2 + g.r.N(3)
	}
	if g.chance(0.1) {
		r.RDelay = []time.Duration{1, time.Millisecond, 400 * time.Millisecond, 20 * time.Second}[g.r.N(4)]
		if r.Chunk > 0 && r.Chunk < 30 {
			r.Chunk = 30
		}
	}
	if g.chance(0.1) {
		r.Delay = []time.Duration{1, time.Millisecond, 900 * time.Millisecond, time.Minute}[g.r.N(4)]
	}
	r.CloseEr = g.chance(0.08)
	return r
}
