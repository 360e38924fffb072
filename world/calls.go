package world

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/url"
	"strings"

	oauth2 "github.com/256dpi/oauth2/v2"

	"verif/simrt"
)

// callResult is what a client library call returned, rendered by the task.
type callResult struct {
	val  string // JSON rendering of the result, "" for none
	err  string
	oerr string // JSON rendering of an *oauth2.Error, "" for none
	pan  string
	set  bool
}

//go:norace
func (c *call) finish(r callResult) {
	c.res = r
	c.done = true
}

//go:norace
func (c *call) isDone() bool { return c.done }

//go:norace
func (c *call) fetch() callResult {
	return callResult{launderS(c.res.val), launderS(c.res.err), launderS(c.res.oerr), launderS(c.res.pan), c.done}
}

//go:norace
func (c *call) putWire(head, body []byte) {
	c.head, c.body = head, body
	c.wireReady = true
}

//go:norace
func (c *call) takeWire() (head, body []byte, ok bool) {
	if !c.wireReady {
		return nil, nil, false
	}
	c.wireReady = false
	return launder(c.head), launder(c.body), true
}

//go:norace
func (c *call) responded() bool { return c.respReady }

//go:norace
func (w *World) callByTask(op int) *call {
	for i := 0; i < len(w.calls); i++ {
		if w.calls[i].id == op {
			return w.calls[i]
		}
	}
	return nil
}

// startCall runs an operation through the client library.
func (w *World) startCall(op *Op) {
	c := &call{id: *w.ids, op: op}
	*w.ids++
	// the table is replaced, never grown in place: tasks read it unsynchronised
	w.calls = append(append([]*call(nil), w.calls...), c)
	get := func(k string) string {
		for _, p := range op.Body {
			if p.K == k {
				if p.Ref != nil {
					return w.resolve(p.Ref)
				}
				return p.V
			}
		}
		return ""
	}
	w.st.ClientCalls++
	w.fault("via_client_library")
	in := callInput{kind: op.Path[strings.LastIndexByte(op.Path, '/')+1:],
		id: op.Auth.ID, secret: op.Auth.Secret, grant: get("grant_type"), scope: parseScope(get("scope")),
		username: get("username"), password: get("password"), refresh: get("refresh_token"),
		redirect: get("redirect_uri"), code: get("code"), token: get("token"), hint: get("token_type_hint")}
	c.in = in
	cl := w.cli
	c.task = w.sched.Spawn(fmt.Sprintf("c%d", op.ID), 2, c.id, func() { c.finish(runCall(cl, in)) })
}

type callInput struct {
	kind                                           string
	id, secret, grant, username, password, refresh string
	redirect, code, token, hint                    string
	scope                                          []string
}

// runCall performs one call of the client library on the current task.
func runCall(cl *oauth2.Client, in callInput) (r callResult) {
	defer func() {
		if p := recover(); p != nil {
			r.pan = fmt.Sprint(p)
			if r.pan == "" {
				r.pan = "panic"
			}
		}
	}()
	var val interface{}
	var err error
	switch in.kind {
	case "token":
		var x *oauth2.TokenResponse
		x, err = cl.Authenticate(oauth2.TokenRequest{GrantType: in.grant, Scope: append(oauth2.Scope(nil), in.scope...), ClientID: in.id, ClientSecret: in.secret,
			Username: in.username, Password: in.password, RefreshToken: in.refresh, RedirectURI: in.redirect, Code: in.code})
		if x != nil {
			val = map[string]interface{}{"token_type": x.TokenType, "access_token": x.AccessToken, "expires_in": x.ExpiresIn, "refresh_token": x.RefreshToken, "scope": x.Scope.String(), "state": x.State}
		}
	case "introspect":
		var x *oauth2.IntrospectionResponse
		x, err = cl.Introspect(oauth2.IntrospectionRequest{Token: in.token, TokenTypeHint: in.hint, ClientID: in.id, ClientSecret: in.secret})
		if x != nil {
			val = map[string]interface{}{"active": x.Active, "scope": x.Scope.String(), "client_id": x.ClientID, "username": x.Username, "token_type": x.TokenType,
				"exp": x.ExpiresAt, "iat": x.IssuedAt, "nbf": x.NotBefore, "sub": x.Subject, "aud": x.Audience, "iss": x.Issuer, "jti": x.Identifier, "extra": x.Extra}
		}
	case "revoke":
		err = cl.Revoke(oauth2.RevocationRequest{Token: in.token, TokenTypeHint: in.hint, ClientID: in.id, ClientSecret: in.secret})
	}
	if val != nil {
		b, _ := json.Marshal(val)
		r.val = string(b)
	}
	if err != nil {
		r.err = "(" + fmt.Sprintf("%T", err) + ") " + err.Error()
		var oe *oauth2.Error
		if errors.As(err, &oe) && oe != nil {
			b, _ := json.Marshal(map[string]interface{}{"error": oe.Name, "error_description": oe.Description, "error_uri": oe.URI, "state": oe.State, "scope": oe.Scope.String(), "realm": oe.Realm, "status": oe.Status})
			r.oerr = string(b)
		}
	}
	return
}

// simTransport carries requests of the client library to the simulated server.
type simTransport struct{ w *World }

var errTransport = errors.New("simulated transport failure")

// RoundTrip runs on the client task.
func (t *simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	cur := simrt.Cur()
	if cur == nil {
		return nil, errTransport
	}
	c := t.w.callByTask(cur.Op)
	if c == nil {
		return nil, errTransport
	}
	head, body, err := renderRequest(req)
	if err != nil {
		return nil, err
	}
	c.putWire(head, body)
	simrt.Park(c.responded)
	if c.respErr != "" {
		return nil, errTransport
	}
	data := c.resp
	var src io.Reader = bytes.NewReader(data)
	if c.respTrunc > 0 && c.respTrunc-1 < len(data) {
		src = io.MultiReader(bytes.NewReader(data[:c.respTrunc-1]), brokenReader{})
	}
	return http.ReadResponse(bufio.NewReader(src), req)
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// renderRequest turns an outgoing request into wire bytes.
func renderRequest(req *http.Request) (head, body []byte, err error) {
	if req.Body != nil {
		body, err = io.ReadAll(req.Body)
		_ = req.Body.Close()
		if err != nil {
			return nil, nil, err
		}
	}
	var b bytes.Buffer
	b.WriteString(req.Method + " " + req.URL.RequestURI() + " HTTP/1.1\r\nHost: " + req.URL.Host + "\r\n")
	_ = req.Header.WriteSubset(&b, map[string]bool{"Host": true, "Content-Length": true})
	if req.Body != nil || req.Method == "POST" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	return b.Bytes(), body, nil
}

// pumpCalls moves messages between client calls and the server.
func (w *World) pumpCalls() bool {
	moved := false
	for _, c := range w.calls {
		if c.checked {
			continue
		}
		if head, body, ok := c.takeWire(); ok {
			moved = true
			if c.served {
				// a second request within one call
				c.respErr = "unexpected second request"
				c.setResponded()
				continue
			}
			c.served = true
			for _, v := range checkWire(c.op.ID, c.in, head, body, "http://auth.example/oauth2/"+c.in.kind) {
				w.report(v)
			}
			w.transmit(c.op, head, body, c)
			if len(c.execs) == 0 {
				c.respErr = "lost"
				c.setResponded()
			}
		}
		if c.served && !c.responded() && len(c.execs) > 0 {
			e := c.execs[0]
			f := &c.op.F
			switch {
			case e.isDone():
				out, pm, _, wf, _, _, _, _ := e.fetch()
				switch {
				case pm != "":
					c.respErr = "aborted"
				case f.RespDrop:
					w.fault("response_lost")
					c.respErr = "lost"
				case wf:
					c.respErr = "broken"
				case f.RespTrunc > 0:
					w.fault("response_truncated")
					c.respTrunc = f.RespTrunc
				}
				c.resp = out
				c.setResponded()
				moved = true
			case e.killed || (e.lr.incomplete && e.release == -1) || e.release > w.round:
				c.respErr = "broken"
				c.setResponded()
				moved = true
			}
		}
	}
	return moved
}

//go:norace
func (c *call) setResponded() { c.respReady = true }

// checkCalls verifies the results of finished client library calls.
func (w *World) checkCalls() {
	for _, c := range w.calls {
		if c.checked {
			continue
		}
		if !c.isDone() {
			if c.responded() {
				w.report(Violation{Tags: []string{"C19"}, Class: "client-hang", Op: c.op.ID, Text: "client call does not return although the transport did"})
			} else if !c.served {
				w.report(Violation{Tags: []string{"C18", "C19"}, Class: "client-silent", Op: c.op.ID, Text: "client call neither sends a request nor returns"})
			}
			continue
		}
		c.checked = true
		r := c.fetch()
		d := delivered{transportErr: c.respErr != "" || !c.served, raw: c.resp, cut: -1, limit: 2048}
		if c.respTrunc > 0 && c.respTrunc-1 < len(c.resp) {
			d.cut = c.respTrunc - 1
		}
		for _, v := range checkResult(c.op.ID, c.in.kind, d, r) {
			w.report(v)
		}
	}
}

// checkShape verifies what holds for every result.
func checkShape(op int, kind string, r callResult) (vs []Violation) {
	bad := func(class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: []string{"C18"}, Class: class, Text: fmt.Sprintf(f, a...), Op: op})
	}
	if r.pan != "" {
		bad("client-panic", "%s call panicked: %s", kind, trunc(r.pan, 200))
		vs[len(vs)-1].Tags = append(vs[len(vs)-1].Tags, "C19")
		return
	}
	if r.err != "" && r.val != "" {
		bad("client-both", "%s call returned both a result and error %s", kind, r.err)
	}
	if r.err == "" && r.val == "" && kind != "revoke" {
		bad("client-neither", "%s call returned neither a result nor an error", kind)
		return
	}
	if r.val == "null" {
		bad("client-nil", "%s call returned an empty result", kind)
	}
	return
}

// checkWire verifies that the library sent exactly the given request.
func checkWire(op int, in callInput, head, body []byte, endpoint string) (vs []Violation) {
	bad := func(class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: []string{"C18"}, Class: class, Text: fmt.Sprintf(f, a...), Op: op})
	}
	l, r := parseWire(head, body)
	if l == nil {
		bad("wire-malformed", "client sent malformed HTTP %q", trunc(string(head), 80))
		return
	}
	if r.Method != "POST" {
		bad("wire-method", "client used method %s", r.Method)
	}
	u, _ := url.Parse(endpoint)
	if r.Host != u.Host || r.URL.RequestURI() != u.RequestURI() {
		bad("wire-target", "client sent the request to %s%s instead of %s", r.Host, r.URL.RequestURI(), endpoint)
	}
	if in.id != "" || in.secret != "" {
		if !l.basicOK || l.id != in.id || l.secret != in.secret {
			bad("wire-auth", "client credentials %q:%q were sent as %q (basic %v %q:%q)", in.id, in.secret, l.authRaw, l.basicOK, l.id, l.secret)
		}
	} else if l.hasAuth {
		bad("wire-auth", "unexpected authorization header %q", l.authRaw)
	}
	want := url.Values{}
	set := func(k, v string) {
		if v != "" {
			want.Set(k, v)
		}
	}
	switch in.kind {
	case "token":
		set("grant_type", in.grant)
		set("scope", strings.Join(in.scope, " "))
		set("username", in.username)
		set("password", in.password)
		set("refresh_token", in.refresh)
		if in.redirect != "" {
			got := first(l.body, "redirect_uri")
			dec, ok := decodeRedirect(got)
			if got != in.redirect && (!ok || dec != in.redirect) {
				bad("wire-redirect", "redirect URI %q was sent as %q", in.redirect, got)
			}
			want.Set("redirect_uri", got)
		}
		set("code", in.code)
	default:
		set("token", in.token)
		set("token_type_hint", in.hint)
	}
	if l.bodyBad || l.body == nil {
		bad("wire-body", "client sent no well-formed form (content type %q)", r.Header.Get("Content-Type"))
		return
	}
	if !eqStr(sortedPairs(l.body, nil), sortedPairs(want, nil)) {
		bad("wire-params", "client sent parameters %v instead of %v", sortedPairs(l.body, nil), sortedPairs(want, nil))
	}
	return
}

// delivered describes what the transport gave to the library.
type delivered struct {
	transportErr bool
	raw          []byte // head and body
	cut          int    // bytes of raw delivered before the connection broke (-1 all)
	limit        int64  // configured limit
}

// checkResult verifies the result of a client call against the delivered
// response.
func checkResult(op int, kind string, d delivered, r callResult) (vs []Violation) {
	bad := func(class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: []string{"C18"}, Class: class, Text: fmt.Sprintf(f, a...), Op: op})
	}
	if vs = checkShape(op, kind, r); len(vs) > 0 {
		return
	}
	succeeded := r.err == ""
	if d.transportErr {
		if succeeded {
			bad("client-success-transport", "%s call succeeded although the transport failed", kind)
		}
		return
	}
	i := bytes.Index(d.raw, []byte("\r\n\r\n"))
	if i < 0 || (d.cut >= 0 && d.cut < i+4) {
		if succeeded {
			bad("client-success-cut", "%s call succeeded although the response broke in its header", kind)
		}
		return
	}
	res, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(d.raw)), nil)
	if err != nil {
		if succeeded {
			bad("client-success-malformed", "%s call succeeded although the response is not HTTP", kind)
		}
		return
	}
	body, rerr := io.ReadAll(res.Body)
	whole := rerr == nil
	if d.cut >= 0 && d.cut < len(d.raw) {
		whole = false
		if !strings.Contains(strings.ToLower(string(d.raw[:i])), "chunked") {
			body = d.raw[i+4 : d.cut]
		}
	}
	return append(vs, checkResponse(op, kind, response{status: res.StatusCode, ct: res.Header.Get("Content-Type"), body: body, whole: whole, limit: d.limit}, r)...)
}

// response is what the library could see of a response.
type response struct {
	status int
	ct     string
	body   []byte // bytes delivered
	whole  bool   // ended properly
	maybe  bool   // not whole, but the caller may have seen the end
	limit  int64
}

// checkResponse verifies the result of a call that received a response.
func checkResponse(op int, kind string, d response, r callResult) (vs []Violation) {
	bad := func(class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: []string{"C18"}, Class: class, Text: fmt.Sprintf(f, a...), Op: op})
	}
	if vs = checkShape(op, kind, r); len(vs) > 0 {
		return
	}
	succeeded := r.err == ""
	body, whole := d.body, d.whole
	over := int64(len(body)) > d.limit || (!whole && int64(len(body)) >= d.limit)
	seen := body
	if int64(len(body)) > d.limit {
		seen = body[:d.limit]
	}
	if d.status != 200 {
		if succeeded {
			bad("client-success-status", "%s call succeeded although the status was %d", kind, d.status)
			return
		}
		if !whole || over {
			return // any error will do
		}
		var m map[string]interface{}
		if json.Unmarshal(body, &m) == nil && js(m, "error") != "" && fieldsAreStrings(m, "error", "error_description", "error_uri", "state", "scope", "realm") {
			if r.oerr == "" {
				bad("client-error-lost", "%s call: the server's error %q (status %d) was reported as %s", kind, js(m, "error"), d.status, r.err)
				return
			}
			var g map[string]interface{}
			_ = json.Unmarshal([]byte(r.oerr), &g)
			for _, k := range []string{"error", "error_description", "error_uri", "state", "realm"} {
				if js(g, k) != js(m, k) {
					bad("client-error-field/"+k, "%s call: error field %s is %q, the server sent %q", kind, k, js(g, k), js(m, k))
				}
			}
			if !sameList(parseScopeLoose(js(g, "scope")), parseScopeLoose(js(m, "scope"))) {
				bad("client-error-field/scope", "%s call: error scope is %q, the server sent %q", kind, js(g, "scope"), js(m, "scope"))
			}
			if f, _ := g["status"].(float64); int(f) != d.status {
				bad("client-error-status", "%s call: error status is %v, the server sent %d", kind, g["status"], d.status)
			}
		} else if r.oerr == "" && !strings.Contains(r.err, fmt.Sprint(d.status)) {
			bad("client-error-nostatus", "%s call: status %d was reported as %s", kind, d.status, r.err)
		} else if r.oerr != "" {
			// nothing the server sent justifies an OAuth2 error with contents
			var g map[string]interface{}
			_ = json.Unmarshal([]byte(r.oerr), &g)
			if m == nil && js(g, "error") != "" {
				bad("client-error-invented", "%s call: error %q was not sent by the server", kind, js(g, "error"))
			}
			if f, _ := g["status"].(float64); int(f) != d.status {
				bad("client-error-status", "%s call: error status is %v, the server sent %d", kind, g["status"], d.status)
			}
		}
		return
	}
	if kind == "revoke" {
		if !succeeded && whole && !over {
			bad("client-failed", "revoke call failed with %s although the server answered 200", r.err)
		}
		return
	}
	ct, _, cterr := mime.ParseMediaType(d.ct)
	var m map[string]interface{}
	jerr := json.Unmarshal(seen, &m)
	good := cterr == nil && ct == "application/json" && jerr == nil && m != nil
	if !succeeded {
		if good && whole && !over && decodable(kind, m) {
			bad("client-failed", "%s call failed with %s although the server answered 200 with %q", kind, r.err, trunc(string(body), 120))
		}
		return
	}
	switch {
	case cterr != nil || ct != "application/json":
		bad("client-success-type", "%s call succeeded although the content type was %q", kind, d.ct)
	case !whole && !over && !d.maybe:
		bad("client-success-cut", "%s call succeeded although the body broke after %d bytes", kind, len(body))
	case jerr != nil && string(bytes.TrimSpace(seen)) != "null":
		bad("client-success-json", "%s call succeeded although the body is not a JSON object: %q", kind, trunc(string(seen), 80))
	case m == nil || !decodable(kind, m):
	default:
		var g map[string]interface{}
		_ = json.Unmarshal([]byte(r.val), &g)
		for k, x := range g {
			y := m[k]
			if k == "scope" {
				if !sameList(parseScopeLoose(str(x)), parseScopeLoose(str(y))) {
					bad("client-field/scope", "%s call: scope is %q, the server sent %q", kind, str(x), str(y))
				}
				continue
			}
			if isZero(x) && isZero(y) {
				continue
			}
			if fmt.Sprint(x) != fmt.Sprint(y) {
				bad("client-field/"+k, "%s call: %s is %v, the server sent %v", kind, k, x, y)
			}
		}
	}
	return
}

func str(x interface{}) string { s, _ := x.(string); return s }

func isZero(x interface{}) bool {
	switch y := x.(type) {
	case nil:
		return true
	case string:
		return y == ""
	case float64:
		return y == 0
	case bool:
		return !y
	case map[string]interface{}:
		return len(y) == 0
	}
	return false
}

func parseScopeLoose(s string) []string { return strings.Fields(s) }

func sameList(a, b []string) bool { return strings.Join(a, " ") == strings.Join(b, " ") }

func fieldsAreStrings(m map[string]interface{}, ks ...string) bool {
	for _, k := range ks {
		if x, ok := m[k]; ok {
			if _, ok := x.(string); !ok {
				return false
			}
		}
	}
	return true
}

// decodable reports whether the object's fields have the types the protocol
// gives them.
func decodable(kind string, m map[string]interface{}) bool {
	for k := range m {
		if strings.ToLower(k) != k {
			return false
		}
	}
	num := func(k string) bool {
		x, ok := m[k]
		if !ok {
			return true
		}
		f, ok := x.(float64)
		return ok && f == float64(int64(f)) && f < 1e15 && f > -1e15
	}
	if kind == "token" {
		return fieldsAreStrings(m, "token_type", "access_token", "refresh_token", "scope", "state") && num("expires_in")
	}
	if x, ok := m["active"]; ok {
		if _, ok := x.(bool); !ok {
			return false
		}
	}
	if x, ok := m["extra"]; ok {
		if _, ok := x.(map[string]interface{}); !ok {
			return false
		}
	}
	return fieldsAreStrings(m, "scope", "client_id", "username", "token_type", "sub", "aud", "iss", "jti") && num("exp") && num("iat") && num("nbf")
}
