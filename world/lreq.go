package world

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"io"
	"mime"
	"net/http"
	"net/url"
	"strconv"
	"strings"
)

// lreq is what a request says, as read off the wire by the harness itself.
type lreq struct {
	method, path string
	query, body  url.Values // body is nil when the body is not a form
	queryBad     bool
	form         bool // the body is form data
	bodyBad      bool
	incomplete   bool // the body never arrived completely
	hasAuth      bool
	authRaw      string
	basicOK      bool
	id, secret   string
	head, data   []byte
}

func (l *lreq) b(k string) string { return first(l.body, k) }

// repeated reports whether a parameter appears more than once.
func (l *lreq) repeated() bool {
	for k, v := range l.query {
		if len(v) > 1 || len(l.body[k]) > 0 {
			return true
		}
	}
	for _, v := range l.body {
		if len(v) > 1 {
			return true
		}
	}
	return false
}

// a reads a parameter of an authorization request (body before query).
func (l *lreq) a(k string) string {
	if v, ok := l.body[k]; ok && len(v) > 0 {
		return v[0]
	}
	return first(l.query, k)
}

func first(v url.Values, k string) string {
	if x := v[k]; len(x) > 0 {
		return x[0]
	}
	return ""
}

func (l *lreq) endpoint() string {
	p := l.path
	if strings.HasPrefix(p, "/api/") {
		return "api"
	}
	if strings.HasPrefix(p, "/lib/") {
		return "lib"
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		p = p[i+1:]
	}
	switch p {
	case "authorize", "token", "introspect", "revoke":
		return p
	}
	return "unknown"
}

func encodePairs(kv []KV, resolve func(*Ref) string) string {
	var b strings.Builder
	for i, p := range kv {
		if i > 0 {
			b.WriteByte('&')
		}
		v := p.V
		if p.Ref != nil {
			v = resolve(p.Ref)
		}
		if p.Esc {
			v = url.QueryEscape(v)
		}
		b.WriteString(url.QueryEscape(p.K) + "=" + url.QueryEscape(v))
	}
	return b.String()
}

func hdrSafe(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 32 || r == 127 {
			return -1
		}
		return r
	}, s)
}

// wire renders an operation to the bytes of a request.
func (op *Op) wire(resolve func(*Ref) string) (head, body []byte) {
	q := op.RawQ
	if q == "" {
		q = encodePairs(op.Query, resolve)
	}
	bs := op.RawB
	if bs == "" {
		bs = encodePairs(op.Body, resolve)
	}
	var b bytes.Buffer
	b.WriteString(op.Method + " " + op.Path)
	if q != "" {
		b.WriteString("?" + q)
	}
	v, host := "1.1", op.Env.Host
	if host == "" {
		host = "auth.example"
	}
	if op.Env.Old {
		v = "1.0"
	}
	b.WriteString(" HTTP/" + v + "\r\nHost: " + host + "\r\n")
	switch op.CT {
	case "":
		if bs != "" || op.Method == "POST" {
			b.WriteString("Content-Type: application/x-www-form-urlencoded\r\n")
		}
	case "-":
	default:
		b.WriteString("Content-Type: " + hdrSafe(op.CT) + "\r\n")
	}
	a := op.Auth
	switch a.Style {
	case "basic":
		s := a.Scheme
		if s == "" {
			s = "Basic"
		}
		b.WriteString("Authorization: " + s + " " + base64.StdEncoding.EncodeToString([]byte(a.ID+":"+a.Secret)) + "\r\n")
	case "bearer":
		s := a.Scheme
		if s == "" {
			s = "Bearer "
		}
		t := a.Raw
		if a.Ref != nil {
			t = resolve(a.Ref)
		}
		b.WriteString("Authorization: " + hdrSafe(s+t) + "\r\n")
	case "raw":
		b.WriteString("Authorization: " + hdrSafe(a.Raw) + "\r\n")
	}
	for _, l := range [][]KV{op.Hdr, op.Env.Hdr} {
		for _, h := range l {
			b.WriteString(hdrSafe(h.K) + ": " + hdrSafe(h.V) + "\r\n")
		}
	}
	if (bs != "" || op.Method == "POST") && op.Env.Chunked && !op.Env.Old {
		b.WriteString("Transfer-Encoding: chunked\r\n")
	} else if bs != "" || op.Method == "POST" {
		b.WriteString("Content-Length: " + strconv.Itoa(len(bs)) + "\r\n")
	}
	b.WriteString("\r\n")
	return b.Bytes(), []byte(bs)
}

// parseWire reads a request off the wire. It returns nil when the bytes are
// not HTTP (a real listener would have refused them before the handler).
func parseWire(head, body []byte) (*lreq, *http.Request) {
	r, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(head)))
	if err != nil {
		return nil, nil
	}
	if strings.HasPrefix(r.URL.Path, "/~/") {
		// what http.StripPrefix leaves of a path may not begin with a slash
		r.URL.Path, r.URL.RawPath = r.URL.Path[len("/~/"):], ""
	}
	l := &lreq{method: r.Method, path: r.URL.Path, head: head, data: body}
	l.query, err = url.ParseQuery(r.URL.RawQuery)
	l.queryBad = err != nil
	l.authRaw = r.Header.Get("Authorization")
	l.hasAuth = l.authRaw != ""
	if f := strings.SplitN(l.authRaw, " ", 2); len(f) == 2 && strings.EqualFold(f[0], "basic") {
		if d, err := base64.StdEncoding.DecodeString(f[1]); err == nil {
			if i := bytes.IndexByte(d, ':'); i >= 0 {
				l.basicOK, l.id, l.secret = true, string(d[:i]), string(d[i+1:])
			}
		}
	}
	if r.Method == "POST" || r.Method == "PUT" || r.Method == "PATCH" {
		ct := r.Header.Get("Content-Type")
		if ct == "" {
			ct = "application/octet-stream"
		}
		ct, _, err = mime.ParseMediaType(ct)
		if err != nil {
			l.bodyBad = true
		} else if ct == "application/x-www-form-urlencoded" {
			l.form = true
			l.body, err = url.ParseQuery(string(body))
			l.bodyBad = err != nil
		}
	}
	r.Body = nil
	return l, r
}

// outcome is a response as it appears on the wire.
type outcome struct {
	none    bool // no response (handler aborted or killed)
	partial bool // response not decodable because its writing failed
	status  int
	hdr     http.Header
	body    []byte
	ok      bool                   // success (2xx, or redirect without error)
	kind    string                 // json, redirect, plain
	err     string                 // oauth2 error name
	params  map[string]interface{} // json object
	jsonBad bool
	// redirect
	loc               *url.URL
	locQ              url.Values
	locF              url.Values
	add               url.Values // outcome parameters: fragment, or query without the redirect URI's own
	fragBad, queryBad bool
}

func parseOutcome(out []byte, noResp bool) *outcome {
	o := &outcome{}
	if noResp {
		o.none = true
		return o
	}
	res, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(out)), nil)
	if err != nil {
		o.none, o.partial = true, true
		return o
	}
	o.status, o.hdr = res.StatusCode, res.Header
	o.body, _ = io.ReadAll(res.Body)
	return o
}
