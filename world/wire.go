package world

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/simrt"
)

// launder copies bytes written by a task without creating or requiring
// happens-before edges (see simrt).
//
//go:norace
func launder(b []byte) []byte {
	if b == nil {
		return nil
	}
	out := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		out[i] = b[i]
	}
	return out
}

//go:norace
func launderS(s string) string {
	out := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = s[i]
	}
	return string(out)
}

var errBroken = errors.New("connection broken")

// simBody is the body of a request as it arrives at the server.
type simBody struct {
	data     []byte
	pos      int
	trunc    int // -1 off
	stall    int // -1 off
	released bool
	chunk    int
	closed   bool
	stalled  bool // reached the stall point
	gone     func()
}

//go:norace
func (b *simBody) isReleased() bool { return b.released }

//go:norace
func (b *simBody) Read(p []byte) (int, error) {
	if b.gone != nil {
		b.gone()
	}
	simrt.Point()
	if simrt.Killed() {
		return 0, errBroken
	}
	limit := len(b.data)
	if b.trunc >= 0 && b.trunc < limit {
		limit = b.trunc
	}
	if b.stall >= 0 && !b.released {
		if b.pos >= b.stall {
			b.stalled = true
			simrt.Park(b.isReleased)
			b.stalled = false
		} else if b.stall < limit {
			limit = b.stall
		}
	}
	if b.stall >= 0 && b.released && b.trunc < 0 {
		limit = len(b.data)
	}
	if b.pos >= limit {
		if b.trunc >= 0 && b.pos >= b.trunc {
			return 0, io.ErrUnexpectedEOF
		}
		if b.pos >= len(b.data) {
			return 0, io.EOF
		}
	}
	n := limit - b.pos
	if n > len(p) {
		n = len(p)
	}
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	for i := 0; i < n; i++ {
		p[i] = b.data[b.pos+i]
	}
	b.pos += n
	return n, nil
}

func (b *simBody) Close() error { return nil }

// recorder is the server side of a connection. It follows net/http's rules.
type recorder struct {
	hdr    http.Header
	snap   http.Header
	status int
	body   []byte
	failAt int // -1 off
	supers int
	failed bool
	gone   func()
}

func newRecorder(f *Fault) *recorder {
	r := &recorder{hdr: http.Header{}, failAt: -1}
	if f.WriteFail > 0 {
		r.failAt = f.WriteFail - 1
	}
	return r
}

func (r *recorder) Header() http.Header { return r.hdr }

func (r *recorder) WriteHeader(code int) {
	if r.gone != nil {
		r.gone()
	}
	simrt.Point()
	if r.status != 0 {
		r.supers++
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code >= 100 && code <= 199 && code != 101 {
		return
	}
	r.status = code
	r.snap = r.hdr.Clone()
}

func (r *recorder) Write(p []byte) (int, error) {
	if r.status == 0 {
		r.WriteHeader(200)
	} else {
		simrt.Point()
	}
	old := len(r.body)
	r.body = append(r.body, p...)
	if r.failAt >= 0 && len(r.body) > r.failAt {
		r.failed = true
		n := r.failAt - old
		if n < 0 {
			n = 0
		}
		return n, errBroken
	}
	return len(p), nil
}

func (r *recorder) Flush() {}

// bytes renders the response as the handler meant it. It runs on the task.
func (r *recorder) bytes() []byte {
	if r.status == 0 {
		r.status = 200
		r.snap = r.hdr.Clone()
	}
	var b bytes.Buffer
	b.WriteString("HTTP/1.1 ")
	b.WriteString(strconv.Itoa(r.status))
	b.WriteString(" ")
	b.WriteString(http.StatusText(r.status))
	b.WriteString("\r\n")
	keys := make([]string, 0, len(r.snap))
	for k := range r.snap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "Content-Length" || k == "Transfer-Encoding" {
			continue
		}
		for _, v := range r.snap[k] {
			v = strings.Trim(strings.NewReplacer("\n", " ", "\r", " ").Replace(v), " \t")
			b.WriteString(k + ": " + v + "\r\n")
		}
	}
	if !(r.status == 204 || r.status == 304) {
		b.WriteString("Content-Length: " + strconv.Itoa(len(r.body)) + "\r\n")
	}
	b.WriteString("\r\n")
	b.Write(r.body)
	return b.Bytes()
}

// exec is one execution of a request on the server.
type exec struct {
	id      int
	op      *Op
	copy    int
	first   bool
	name    string
	task    *simrt.Task
	req     *http.Request
	body    *simBody
	rec     *recorder
	ent     *simrt.OpEntropy
	lr      *lreq
	round   int
	release int // round in which the stalled body is released (-1: never, 0: not stalled)
	call    *call
	cancel  func()

	// written by the task (norace)
	started            bool
	done               bool
	startStep, endStep int
	startT, endT       time.Time
	out                []byte
	panicked           string
	authorized         int // 0 not asked, 1 yes, 2 no
	wfailed            bool
	silent             bool // wrote nothing

	// root
	killed    bool
	collected bool
	oc        *outcome
	creds     []int // credentials issued
	effStart  time.Time
	tEnd      time.Time
	relT      time.Time
	s0, s1    int
	pmsg      string
	auth      int
	wf        bool
	pcred     int
	noauth    bool // refused for its credentials
	replay    bool
	ghost     []string
	inc       int
	servedBy  int
}

//go:norace
func (e *exec) begin(step int) {
	e.started = true
	e.startStep = step
	e.startT = time.Now()
}

//go:norace
func (e *exec) end(step int, out []byte, panicked string, auth int, wf, silent bool) {
	e.endStep = step
	e.endT = time.Now()
	e.out = out
	e.panicked = panicked
	e.authorized = auth
	e.wfailed, e.silent = wf, silent
	e.done = true
}

//go:norace
func (e *exec) isDone() bool { return e.done }

//go:norace
func (e *exec) isStarted() bool { return e.started }

//go:norace
func (b *simBody) isStalled() bool { return b.stalled }

//go:norace
func (e *exec) isSilent() bool { return e.silent }

//go:norace
func (e *exec) fetch() (out []byte, panicked string, auth int, wf bool, s, en int, st, et time.Time) {
	return launder(e.out), launderS(e.panicked), e.authorized, e.wfailed, e.startStep, e.endStep, e.startT, e.endT
}
