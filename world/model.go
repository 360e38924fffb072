package world

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"mime"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"
)

// states of a credential
const (
	sNone    = iota // not issued (yet)
	sLive           // issued and usable
	sUsed           // code: redeemed
	sRotated        // refresh token: used
	sRevoked        // revoked by its owner
	sReplay         // invalidated by replay of its code
	sLost           // of a previous server instance
)

// cred is everything the model knows about one credential. It does not change
// after it was registered; only its state does.
type cred struct {
	idx      int
	kind     string // code, access, refresh
	tok      string
	key, sig []byte
	client   string
	user     string
	scope    []string
	redirect string
	lo, hi   time.Time // bounds of the expiry instant
	root     int       // code it descends from, or -1
	parent   int       // refresh token or code it was obtained with, or -1
	op, copy int
	exec     int
	inc      int // server incarnation
}

// decodeTok is an independent decoder of the token format.
func decodeTok(s string) (key, sig []byte, ok bool) {
	i := strings.IndexByte(s, '.')
	if i < 0 || strings.IndexByte(s[i+1:], '.') >= 0 {
		return nil, nil, false
	}
	key, e1 := base64.RawURLEncoding.DecodeString(s[:i])
	sig, e2 := base64.RawURLEncoding.DecodeString(s[i+1:])
	return key, sig, e1 == nil && e2 == nil
}

func sign(secret string, key []byte) []byte {
	h := hmac.New(sha256.New, []byte(secret))
	h.Write(key)
	return h.Sum(nil)
}

func makeTok(secret string, key []byte) string {
	return base64.RawURLEncoding.EncodeToString(key) + "." + base64.RawURLEncoding.EncodeToString(sign(secret, key))
}

type reason struct {
	codes []string
	tags  []string
	text  string
}

type effect struct {
	c, st int
}

// verdict is what the model says about one request in one state.
type verdict struct {
	must   []reason // each of these makes refusal mandatory
	may    []reason // refusal is allowed
	succ   string   // kind of success
	client string
	user   string
	scope  []string
	redir  string
	root   int
	parent int
	refr   bool // a refresh token is to be issued
	issue  bool
	eff    []effect // on success
	rejEff []effect // on refusal
	cred   int      // credential presented, or -1
	actMay bool     // introspection: activity ambiguous
	post   bool     // redirect URI and client are validated: refusals are redirected
	frag   bool
	noEffM bool // the effect of a refusal is ambiguous
	api    int
}

func (v *verdict) no(codes string, tags string, text string) {
	v.must = append(v.must, reason{strings.Fields(codes), strings.Fields(tags), text})
}

func (v *verdict) maybe(codes string, text string) {
	v.may = append(v.may, reason{strings.Fields(codes), nil, text})
}

func (w *World) client(id string) *Entity {
	for i := range w.cfg.Clients {
		if w.cfg.Clients[i].ID == id {
			return &w.cfg.Clients[i]
		}
	}
	return nil
}

func (w *World) user(id string) *Entity {
	for i := range w.cfg.Users {
		if w.cfg.Users[i].ID == id {
			return &w.cfg.Users[i]
		}
	}
	return nil
}

func parseScope(s string) []string {
	var out []string
	for _, x := range strings.Split(s, " ") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func includes(l, sub []string) bool {
	for _, x := range sub {
		if !contains(l, x) {
			return false
		}
	}
	return true
}

func sameSet(a, b []string) bool { return includes(a, b) && includes(b, a) }

// lookup finds the credential a string denotes. class: "bad" (does not decode
// or signature invalid), "unknown" (well signed, never issued), or "cred".
func (w *World) lookup(s string) (*cred, string) {
	key, sig, ok := decodeTok(s)
	if !ok || !hmac.Equal(sign(w.cfg.Secret, key), sig) {
		return nil, "bad"
	}
	if i, ok := w.byKey[string(key)]; ok {
		return w.creds[i], "cred"
	}
	return nil, "unknown"
}

// timing returns whether the credential is certainly or possibly expired when
// used by the execution.
func timing(c *cred, e *exec) (expired, maybe bool) {
	from := e.effStart
	if from.After(c.hi) {
		return true, true
	}
	if e.et().Before(c.lo) {
		return false, false
	}
	return false, true
}

func (e *exec) et() time.Time { return e.tEnd }

// canonical reports whether s is the canonical spelling of the credential.
func canonical(c *cred, s string) bool { return c.tok == s }

// parseReasons adds the reasons that concern the request as such.
func (w *World) parseReasons(v *verdict, l *lreq, methods ...string) {
	if !contains(methods, l.method) {
		v.no("invalid_request", "C20 C13", "method not allowed")
	}
	if l.incomplete && !l.form {
		// the body carries no parameters and need not be read
		v.maybe("invalid_request", "body incomplete")
	} else if l.incomplete {
		v.no("invalid_request", "C14", "body incomplete")
	}
	if l.bodyBad {
		v.no("invalid_request", "C14", "body malformed")
	}
	if l.queryBad {
		v.maybe("invalid_request", "query malformed")
	}
	if l.repeated() {
		// RFC 6749 3.1 wants it refused, net/http takes the first value
		v.maybe("invalid_request", "parameter repeated")
	}
}

// decodeRedirect applies the documented extra unescaping of redirect_uri.
func decodeRedirect(raw string) (string, bool) {
	s, err := url.QueryUnescape(raw)
	if err != nil {
		return "", false
	}
	return s, true
}

func uriOK(s string) bool {
	u, err := url.ParseRequestURI(s)
	return err == nil && u.Fragment == ""
}

// clientAuth adds the reasons concerning client authentication.
func (w *World) clientAuth(v *verdict, l *lreq, formOK bool) (id string) {
	id, secret := l.id, l.secret
	if !l.basicOK {
		fid, fsec := l.b("client_id"), l.b("client_secret")
		if !formOK {
			if c := w.client(fid); c != nil && (!c.Confidential || c.Secret == fsec) {
				// credentials in the body are not supported here; supporting
				// them would be legitimate
				v.maybe("invalid_request invalid_client", "no basic authentication")
			}
			v.no("invalid_request invalid_client", "C11", "no client authentication")
			return ""
		}
		id, secret = fid, fsec
		if l.hasAuth {
			v.maybe("invalid_request invalid_client", "unusable authorization header")
		}
	} else if fid := l.b("client_id"); fid != "" && fid != id {
		v.maybe("invalid_request invalid_client", "two client identifiers")
	} else if l.b("client_secret") != "" {
		v.maybe("invalid_request invalid_client", "two authentication methods")
	}
	if id == "" {
		v.no("invalid_request invalid_client", "C11", "no client identification")
		return ""
	}
	c := w.client(id)
	if c == nil {
		v.no("invalid_client", "C11", "unknown client")
		return id
	}
	v.client = id
	if c.Confidential && c.Secret != secret {
		v.no("invalid_client", "C11", "wrong client secret")
	}
	if !c.Confidential && secret != "" && secret != c.Secret {
		v.maybe("invalid_client", "public client with a secret")
	}
	return id
}

func (w *World) userAuth(v *verdict, name, pw string) {
	u := w.user(name)
	if u == nil || u.Secret != pw {
		v.no("access_denied invalid_grant", "C11", "wrong user credentials")
		return
	}
	v.user = name
}

func (w *World) scopeCheck(v *verdict, sc []string) {
	v.scope = sc
	if !includes(w.cfg.Allowed, sc) {
		v.no("invalid_scope", "C07", "scope exceeds the allowed scope")
	}
}

// deadReason explains why a credential is not usable in its state.
func deadReason(c *cred, st byte) (tags, text string) {
	switch st {
	case sNone:
		return "C15 C01", "credential not issued yet"
	case sUsed:
		return "C03", "code already redeemed"
	case sRotated:
		return "C06", "refresh token already used"
	case sRevoked:
		return "C09", "token revoked"
	case sReplay:
		return "C05", "token invalidated by code replay"
	case sLost:
		return "C15", "credential of a previous server instance"
	}
	return "", ""
}

// judge says what must happen to an execution in a state.
func (w *World) judge(e *exec, dyn []byte) *verdict {
	l := e.lr
	v := &verdict{cred: -1, root: -1, parent: -1, api: -1}
	switch l.endpoint() {
	case "authorize":
		w.judgeAuthorize(v, l)
	case "token":
		w.judgeToken(v, e, dyn)
	case "introspect":
		w.judgeIntrospect(v, e, dyn)
	case "revoke":
		w.judgeRevoke(v, e, dyn)
	case "api":
		w.judgeAPI(v, e, dyn)
	default:
		v.succ = "notfound"
	}
	return v
}

func (w *World) judgeAuthorize(v *verdict, l *lreq) {
	w.parseReasons(v, l, "GET", "POST")
	rt := l.a("response_type")
	switch rt {
	case "code", "token":
	case "":
		v.no("invalid_request", "C17 C20", "missing response type")
	default:
		v.no("invalid_request unsupported_response_type", "C17 C20", "unknown response type")
	}
	id := l.a("client_id")
	raw := l.a("redirect_uri")
	eff, ok := decodeRedirect(raw)
	var c *Entity
	if id == "" {
		v.no("invalid_request invalid_client", "C17", "missing client id")
	} else if c = w.client(id); c == nil {
		v.no("invalid_client unauthorized_client", "C17", "unknown client")
	}
	if raw == "" || !ok || eff == "" {
		v.no("invalid_request", "C17", "missing redirect URI")
	} else if !uriOK(eff) {
		v.no("invalid_request", "C17", "malformed redirect URI")
	} else if c != nil && c.Redirect != eff {
		if c.Redirect == raw {
			v.maybe("invalid_request", "redirect URI escaped once only")
		} else {
			v.no("invalid_request", "C17", "redirect URI is not the registered one")
		}
	} else if c != nil && raw != eff && c.Redirect != raw {
		// the documented double escaping
	}
	if len(v.must) > 0 {
		return
	}
	v.client, v.redir = id, c.Redirect
	if l.method == "GET" {
		v.succ = "notice"
		return
	}
	v.post = true
	v.frag = rt == "token"
	w.scopeCheck(v, parseScope(l.a("scope")))
	w.userAuth(v, l.b("username"), l.b("password"))
	v.issue = true
	if rt == "code" {
		v.succ = "code"
	} else {
		v.succ = "implicit"
	}
}

func (w *World) judgeToken(v *verdict, e *exec, dyn []byte) {
	l := e.lr
	w.parseReasons(v, l, "POST")
	gt := l.b("grant_type")
	switch gt {
	case "password", "client_credentials", "authorization_code", "refresh_token":
	case "":
		v.no("invalid_request", "C20", "missing grant type")
	default:
		v.no("invalid_request unsupported_grant_type", "C20", "unknown grant type")
	}
	id := w.clientAuth(v, l, true)
	raw := l.b("redirect_uri")
	eff, ok := decodeRedirect(raw)
	if !ok || (eff != "" && !uriOK(eff)) {
		v.no("invalid_request invalid_grant", "C04 C14", "malformed redirect URI")
	}
	authed := len(v.must) == 0
	v.succ, v.issue, v.refr = "token", true, true
	sc := parseScope(l.b("scope"))
	switch gt {
	case "password":
		w.userAuth(v, l.b("username"), l.b("password"))
		w.scopeCheck(v, sc)
	case "client_credentials":
		if c := w.client(id); c != nil && !c.Confidential {
			v.no("invalid_client unauthorized_client", "C11", "client credentials grant by a public client")
		}
		w.scopeCheck(v, sc)
	case "authorization_code":
		s := l.b("code")
		c, class := w.lookup(s)
		if c == nil {
			if class == "bad" {
				v.no("invalid_request invalid_grant", "C15 C03", "no genuine authorization code")
			} else {
				v.no("invalid_grant", w.unknownTags(s)+" C03", "authorization code never issued")
			}
			return
		}
		v.cred = c.idx
		if !canonical(c, s) {
			v.maybe("invalid_request invalid_grant", "non-canonical spelling of the code")
		}
		if c.kind != "code" {
			v.no("invalid_grant invalid_request", "C15", "a token is not an authorization code")
			return
		}
		v.user, v.scope, v.redir, v.root, v.parent = c.user, c.scope, c.redirect, c.idx, c.idx
		if !includes(w.cfg.Allowed, c.scope) {
			v.no("invalid_scope invalid_grant", "C07", "scope exceeds the allowed scope")
		}
		st := dyn[c.idx]
		if st != sLive {
			t, x := deadReason(c, st)
			if st == sUsed {
				t += " C05"
			}
			v.no("invalid_grant", t, x)
			if st == sUsed && authed {
				for _, d := range w.creds {
					if d.root == c.idx && dyn[d.idx] == sLive {
						v.rejEff = append(v.rejEff, effect{d.idx, sReplay})
					}
				}
				if len(v.may) > 0 {
					v.noEffM = true
				}
			}
		}
		if ex, mb := timing(c, e); ex {
			v.no("invalid_grant", "C08", "authorization code expired")
		} else if mb {
			v.maybe("invalid_grant", "authorization code about to expire")
		}
		if c.client != id {
			v.no("invalid_grant", "C04", "authorization code of another client")
		}
		if c.redirect != eff {
			if c.redirect == raw {
				v.maybe("invalid_grant", "redirect URI escaped once only")
			} else {
				v.no("invalid_grant", "C04", "redirect URI differs from the one of the authorization request")
			}
		}
		v.eff = []effect{{c.idx, sUsed}}
	case "refresh_token":
		s := l.b("refresh_token")
		c, class := w.lookup(s)
		if c == nil {
			if class == "bad" {
				v.no("invalid_request invalid_grant", "C15 C06", "no genuine refresh token")
			} else {
				v.no("invalid_grant", w.unknownTags(s)+" C06", "refresh token never issued")
			}
			return
		}
		v.cred = c.idx
		if !canonical(c, s) {
			v.maybe("invalid_request invalid_grant", "non-canonical spelling of the token")
		}
		if c.kind != "refresh" {
			v.no("invalid_grant invalid_request", "C15", "a "+c.kind+" is not a refresh token")
			return
		}
		v.user, v.root, v.parent = c.user, c.root, c.idx
		if st := dyn[c.idx]; st != sLive {
			t, x := deadReason(c, st)
			v.no("invalid_grant", t, x)
		}
		if ex, mb := timing(c, e); ex {
			v.no("invalid_grant", "C08", "refresh token expired")
		} else if mb {
			v.maybe("invalid_grant", "refresh token about to expire")
		}
		if c.client != id {
			v.no("invalid_grant", "C04", "refresh token of another client")
		}
		if len(sc) == 0 {
			sc = c.scope
		}
		v.scope = sc
		if !includes(c.scope, sc) {
			v.no("invalid_scope", "C07", "scope exceeds the granted scope")
		}
		v.eff = []effect{{c.idx, sRotated}}
	}
}

// unknownTags classifies a correctly signed token that was never issued.
func (w *World) unknownTags(s string) string {
	key, _, _ := decodeTok(s)
	if w.ghosts[string(key)] {
		return "C12 C15"
	}
	return "C15"
}

func (w *World) hint(v *verdict, l *lreq) {
	switch l.b("token_type_hint") {
	case "", "access_token", "refresh_token":
	default:
		v.no("unsupported_token_type invalid_request", "C20", "unknown token type hint")
	}
}

func (w *World) judgeIntrospect(v *verdict, e *exec, dyn []byte) {
	l := e.lr
	w.parseReasons(v, l, "POST")
	if l.b("token") == "" {
		v.no("invalid_request", "C20", "missing token")
	}
	w.hint(v, l)
	id := w.clientAuth(v, l, false)
	v.succ = "inactive"
	if len(v.must) > 0 {
		return
	}
	s := l.b("token")
	c, class := w.lookup(s)
	if c == nil {
		if class == "bad" {
			v.maybe("invalid_request invalid_token", "malformed token")
		}
		return
	}
	v.cred = c.idx
	if !canonical(c, s) {
		v.maybe("invalid_request invalid_token", "non-canonical spelling of the token")
		v.actMay = true
	}
	if c.kind == "code" {
		return
	}
	if c.client != id {
		v.maybe("invalid_client unauthorized_client access_denied invalid_request invalid_token", "token of another client")
		return
	}
	if dyn[c.idx] != sLive {
		return
	}
	ex, mb := timing(c, e)
	if ex {
		return
	}
	if mb {
		v.actMay = true
	}
	v.succ = "active"
}

func (w *World) judgeRevoke(v *verdict, e *exec, dyn []byte) {
	l := e.lr
	w.parseReasons(v, l, "POST")
	if l.b("token") == "" {
		v.no("invalid_request", "C20", "missing token")
	}
	w.hint(v, l)
	id := w.clientAuth(v, l, false)
	v.succ = "revoked"
	s := l.b("token")
	c, class := w.lookup(s)
	if c == nil {
		if class == "bad" {
			v.maybe("invalid_request invalid_token", "malformed token")
		}
		return
	}
	v.cred = c.idx
	if !canonical(c, s) {
		v.maybe("invalid_request invalid_token", "non-canonical spelling of the token")
	}
	if c.kind == "code" {
		// revoking codes is not supported and has no effect
		return
	}
	live := dyn[c.idx] == sLive
	if c.client != id {
		if live {
			if ex, mb := timing(c, e); ex || mb {
				v.maybe("invalid_client unauthorized_client invalid_request", "expired token of another client")
			} else {
				v.no("invalid_client unauthorized_client access_denied invalid_request", "C09 C20", "token of another client")
			}
		} else {
			v.maybe("invalid_client unauthorized_client invalid_request", "dead token of another client")
		}
		return
	}
	if live {
		v.eff = []effect{{c.idx, sRevoked}}
	}
}

func (w *World) judgeAPI(v *verdict, e *exec, dyn []byte) {
	l := e.lr
	n := apiIndex(l.path, len(w.cfg.APIs))
	if n < 0 {
		v.succ = "notfound"
		return
	}
	v.api = n
	req := w.cfg.APIs[n]
	v.succ = "api"
	if !l.hasAuth {
		v.no("- invalid_request invalid_token", "C11 C15", "no bearer token")
		return
	}
	if len(l.authRaw) < 7 || !strings.EqualFold(l.authRaw[:7], "bearer ") {
		v.no("invalid_request invalid_token -", "C11 C15", "malformed authorization header")
		return
	}
	s := l.authRaw[7:]
	c, class := w.lookup(s)
	if c == nil {
		if class == "bad" {
			v.no("invalid_token invalid_request", "C15", "no genuine token")
		} else {
			v.no("invalid_token", w.unknownTags(s), "access token never issued")
		}
		return
	}
	v.cred = c.idx
	if !canonical(c, s) {
		v.maybe("invalid_token invalid_request", "non-canonical spelling of the token")
	}
	if c.kind != "access" {
		v.no("invalid_token", "C15", "a "+c.kind+" is not an access token")
		return
	}
	if w.client(c.client) == nil {
		v.maybe("invalid_token", "the client was removed")
	}
	if st := dyn[c.idx]; st != sLive {
		t, x := deadReason(c, st)
		v.no("invalid_token", t, x)
	}
	if ex, mb := timing(c, e); ex {
		v.no("invalid_token", "C08", "access token expired")
	} else if mb {
		v.maybe("invalid_token", "access token about to expire")
	}
	if !includes(c.scope, req) {
		v.no("insufficient_scope", "C07", "required scope not granted")
	}
}

// ---------------------------------------------------------------------------
// outcomes

var statusOf = map[string]int{
	"invalid_request": 400, "invalid_client": 401, "invalid_grant": 400, "invalid_scope": 400,
	"unauthorized_client": 400, "unsupported_grant_type": 400, "unsupported_response_type": 400,
	"unsupported_token_type": 400, "access_denied": 403, "invalid_token": 401, "insufficient_scope": 403,
	"server_error": 500, "temporarily_unavailable": 503,
}

func js(m map[string]interface{}, k string) string { s, _ := m[k].(string); return s }

// classify fills in the interpretation of a response and returns violations
// that do not depend on the server state.
func (w *World) classify(e *exec) []Violation {
	o := e.oc
	var vs []Violation
	bad := func(tags, class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: strings.Fields(tags), Class: class, Text: fmt.Sprintf(f, a...), Op: e.op.ID})
	}
	if o.none {
		return nil
	}
	ep := e.lr.endpoint()
	o.kind = "plain"
	ct, _, _ := mime.ParseMediaType(o.hdr.Get("Content-Type"))
	if ep == "lib" {
		if ct == "application/json" {
			o.kind = "json"
			if !strings.Contains(strings.ToLower(o.hdr.Get("Cache-Control")), "no-store") {
				bad("C20", "cacheable/lib", "JSON answer (status %d) does not forbid caching", o.status)
			}
			if json.Unmarshal(o.body, &o.params) != nil {
				o.jsonBad = true
				bad("C20", "json-malformed/lib", "malformed JSON answer %q", trunc(string(o.body), 80))
			}
		}
		o.ok = o.status/100 == 2
		w.checkLib(e, bad)
		return vs
	}
	nostore := func() {
		if !strings.Contains(strings.ToLower(o.hdr.Get("Cache-Control")), "no-store") {
			bad("C20", "cacheable/"+ep, "response (status %d) does not forbid caching", o.status)
		}
	}
	if o.status >= 300 && o.status < 400 {
		o.kind = "redirect"
		nostore()
		locs := o.hdr["Location"]
		if len(locs) != 1 {
			bad("C17", "location-count", "redirect with %d Location headers", len(locs))
			return vs
		}
		loc := locs[0]
		frag := ""
		if i := strings.IndexByte(loc, '#'); i >= 0 {
			loc, frag = loc[:i], loc[i+1:]
		}
		u, err := url.Parse(loc)
		if err != nil {
			bad("C17", "location-malformed", "redirect to malformed location %q", locs[0])
			return vs
		}
		o.loc = u
		o.locQ, err = url.ParseQuery(u.RawQuery)
		o.queryBad = err != nil
		o.locF, err = url.ParseQuery(frag)
		o.fragBad = err != nil
		if frag == "" {
			o.locF = nil
		}
		own := ""
		if c := w.client(e.lr.a("client_id")); c != nil && ep == "authorize" {
			own = c.Redirect
		}
		o.add = withoutOwn(u, o.locQ, own)
		if o.locF != nil {
			o.add = o.locF
		}
		o.err = first(o.add, "error")
		o.ok = o.err == ""
		return vs
	}
	if ep == "api" {
		// error in the challenge
		ch := o.hdr.Get("WWW-Authenticate")
		if o.status == 200 {
			o.ok = true
			return vs
		}
		if o.status == 401 && !strings.HasPrefix(strings.ToLower(ch), "bearer ") {
			bad("C20", "api-challenge", "resource refused with 401 but without Bearer challenge")
		}
		if ch != "" && !wellFormedChallenge(ch) {
			bad("C20", "challenge-malformed/api", "malformed challenge %q", trunc(ch, 120))
		}
		o.err = "-"
		if m := challengeParam(ch, "error"); m != "" {
			o.err = m
		}
		if o.err != "-" {
			if st, ok := statusOf[o.err]; ok && st != o.status {
				bad("C20", "api-status", "error %s with status %d", o.err, o.status)
			}
		}
		return vs
	}
	if ep == "unknown" {
		o.ok = o.status == 404
		if o.status/100 != 4 {
			bad("C20", "unknown-path", "status %d for a path that names no endpoint (%q)", o.status, e.lr.path)
		}
		return vs
	}
	if ct == "application/json" {
		o.kind = "json"
		nostore()
		if json.Unmarshal(o.body, &o.params) != nil {
			o.jsonBad = true
			bad("C20", "json-malformed/"+ep, "malformed JSON answer %q", trunc(string(o.body), 80))
			return vs
		}
	}
	if o.status/100 == 2 {
		o.ok = true
		if o.kind == "json" && js(o.params, "error") != "" {
			o.ok = false
			o.err = js(o.params, "error")
			bad("C20", "error-200/"+ep, "error %s reported with status %d", o.err, o.status)
		}
		return vs
	}
	if o.kind != "json" {
		if o.status != 404 {
			bad("C20", "error-nojson/"+ep, "status %d without a JSON error (content type %q, body %q)", o.status, o.hdr.Get("Content-Type"), trunc(string(o.body), 60))
		}
		o.err = "?"
		return vs
	}
	o.err = js(o.params, "error")
	if st, ok := statusOf[o.err]; !ok {
		bad("C20", "error-unknown/"+ep, "status %d with unknown error %q", o.status, o.err)
	} else if st != o.status {
		bad("C20", "error-status/"+ep, "error %s reported with status %d", o.err, o.status)
	}
	if o.err == "invalid_client" && o.hdr.Get("WWW-Authenticate") == "" {
		bad("C20", "no-challenge/"+ep, "invalid_client without WWW-Authenticate")
	}
	if ch := o.hdr.Get("WWW-Authenticate"); ch != "" && !wellFormedChallenge(ch) {
		bad("C20", "challenge-malformed/"+ep, "malformed challenge %q", trunc(ch, 120))
	}
	return vs
}

// wellFormedChallenge parses a challenge (RFC 7235), liberally.
func wellFormedChallenge(s string) bool {
	const sep = " \t,=\""
	tok := func() bool {
		n := strings.IndexAny(s, sep)
		if n < 0 {
			n = len(s)
		}
		for i := 0; i < n; i++ {
			if s[i] <= ' ' || s[i] >= 0x7f {
				return false
			}
		}
		s = s[n:]
		return n > 0
	}
	ws := func() { s = strings.TrimLeft(s, " \t") }
	if !tok() { // scheme
		return false
	}
	for {
		for ws(); strings.HasPrefix(s, ","); ws() {
			s = s[1:]
		}
		if s == "" {
			return true
		}
		if !tok() { // parameter, or the scheme of a further challenge
			return false
		}
		ws()
		if !strings.HasPrefix(s, "=") {
			continue
		}
		s = strings.TrimLeft(s, "=")
		ws()
		if !strings.HasPrefix(s, `"`) {
			if s != "" && s[0] != ',' && !tok() {
				return false
			}
		} else {
			s = s[1:]
			for done := false; !done; {
				if s == "" || s[0] < ' ' && s[0] != '\t' || s[0] == 0x7f {
					return false
				}
				if s[0] == '\\' && len(s) > 1 {
					s = s[1:]
				} else {
					done = s[0] == '"'
				}
				s = s[1:]
			}
		}
		ws()
		if s != "" && s[0] != ',' {
			return false
		}
	}
}

func challengeParam(ch, k string) string {
	for _, p := range strings.Split(ch, `"`+", ") {
		p = strings.TrimPrefix(strings.TrimPrefix(p, "Bearer "), "bearer ")
		if strings.HasPrefix(p, k+`="`) {
			return strings.TrimSuffix(p[len(k)+2:], `"`)
		}
	}
	return ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// compare confronts an execution's outcome with a verdict. When it fits, eff
// are the state changes.
func (w *World) compare(e *exec, v *verdict) (vs []Violation, eff []effect) {
	w.altNone = false
	o := e.oc
	ep := e.lr.endpoint()
	bad := func(tags []string, class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: tags, Class: class, Text: fmt.Sprintf(f, a...), Op: e.op.ID})
	}
	T := func(s string) []string { return strings.Fields(s) }
	entFailed := e.ent != nil && e.ent.HasFailed()
	if o.partial {
		// nothing is known about the answer
		if e.op.F.Cancel > 0 && e.first {
			w.altNone = true
		}
		if len(v.must) == 0 {
			return nil, v.eff
		}
		return nil, v.rejEff
	}
	if o.none {
		if e.killed {
			return nil, nil
		}
		if entFailed {
			// aborted by failing randomness: no effect
			return nil, nil
		}
		bad(T("C13"), "panic/"+ep, "handler aborted without an answer: %s", trunc(e.panicked, 200))
		return
	}
	if v.succ == "notfound" && ep == "lib" {
		return
	}
	if v.succ == "notfound" {
		if o.status/100 == 2 && ep != "api" {
			bad(T("C20"), "notfound-ok", "request for %s %s succeeded", e.lr.method, e.lr.path)
		}
		return
	}
	if o.ok {
		if entFailed && v.issue {
			bad(T("C12 C16"), "entropy-success/"+ep, "request reported success although the random source failed")
			return
		}
		if ep == "introspect" {
			return w.compareIntrospect(e, v)
		}
		if len(v.must) > 0 {
			var tags []string
			var texts []string
			for _, r := range v.must {
				for _, t := range r.tags {
					if !contains(tags, t) {
						tags = append(tags, t)
					}
				}
				texts = append(texts, r.text)
			}
			if ep == "authorize" && o.kind != "redirect" && !v.post {
				// a notice or similar
				if e.lr.method == "GET" {
					return nil, nil
				}
			}
			if v.cred >= 0 {
				for _, p := range w.past {
					if p != e && p.pcred == v.cred && p.oc != nil && p.oc.ok && (p.wf || p.op == e.op) && !contains(tags, "C14") {
						tags = append(tags, "C14")
					}
				}
			}
			bad(tags, "accepted/"+ep+"/"+texts[0], "%s request accepted although: %s", ep, strings.Join(texts, "; "))
			return
		}
		// content of the success
		vs = append(vs, w.checkSuccess(e, v)...)
		return vs, v.eff
	}
	// refused
	if entFailed && (o.status >= 500 || o.err == "server_error" || o.err == "temporarily_unavailable") {
		return nil, nil
	}
	if o.status >= 500 || o.err == "server_error" {
		bad(T("C13"), "server-error/"+ep, "request failed with an internal error (status %d, %s)", o.status, o.err)
		return
	}
	if v.post && o.kind == "redirect" {
		vs = append(vs, w.checkRedirect(e, v)...)
	}
	if len(v.must) == 0 && len(v.may) == 0 {
		vs = append(vs, w.refused(e, v))
		return
	}
	var codes []string
	var texts []string
	for _, r := range append(append([]reason(nil), v.must...), v.may...) {
		codes = append(codes, r.codes...)
		texts = append(texts, r.text)
	}
	if !contains(codes, o.err) {
		tags := T("C20")
		bad(tags, "untruthful/"+ep+"/"+o.err, "%s request refused with %q (status %d); what applies is: %s (%s)", ep, o.err, o.status, strings.Join(texts, "; "), strings.Join(codes, ", "))
		return
	}
	if ep == "authorize" {
		if o.kind == "redirect" && !v.post && len(v.must) > 0 {
			bad(T("C17"), "redirect-unvalidated", "redirect to %q although: %s", o.hdr.Get("Location"), strings.Join(texts, "; "))
		}
		if o.kind != "redirect" && v.post && len(v.may) == 0 {
			bad(T("C17 C20"), "error-not-redirected", "validated authorization request refused without redirect")
		}
	}
	if v.noEffM {
		w.altNone = true
	}
	return vs, v.rejEff
}

func (w *World) compareIntrospect(e *exec, v *verdict) (vs []Violation, eff []effect) {
	o := e.oc
	T := strings.Fields
	bad := func(tags []string, class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: tags, Class: class, Text: fmt.Sprintf(f, a...), Op: e.op.ID})
	}
	if o.kind != "json" {
		bad(T("C10 C20"), "introspect-nojson", "introspection answered %d without JSON", o.status)
		return
	}
	act, _ := o.params["active"].(bool)
	if _, ok := o.params["active"].(bool); !ok {
		bad(T("C10"), "introspect-noactive", "introspection answer without active flag: %s", trunc(string(o.body), 100))
		return
	}
	if len(v.must) > 0 {
		var tags, texts []string
		for _, r := range v.must {
			tags = append(tags, r.tags...)
			texts = append(texts, r.text)
		}
		tags = append(tags, "C10")
		bad(tags, "accepted/introspect/"+texts[0], "introspection answered although: %s", strings.Join(texts, "; "))
		return
	}
	if !act {
		// nothing else may be revealed
		for k, x := range o.params {
			if k == "active" {
				continue
			}
			if s, ok := x.(string); ok && s == "" {
				continue
			}
			if f, ok := x.(float64); ok && f == 0 {
				continue
			}
			if x == nil {
				continue
			}
			bad(T("C10"), "introspect-leak", "inactive introspection answer reveals %s=%v", k, x)
			return
		}
		if v.succ == "active" && !v.actMay && len(v.may) == 0 {
			r := w.refused(e, v)
			r.Class = "introspect-inactive"
			r.Text = "introspection reports a usable token as inactive: " + r.Text
			if !contains(r.Tags, "C10") {
				r.Tags = append(r.Tags, "C10")
			}
			vs = append(vs, r)
		}
		return
	}
	if v.succ != "active" {
		tags := T("C10")
		why := "token is not active"
		if v.cred >= 0 {
			c := w.creds[v.cred]
			if c.kind == "code" {
				why = "an authorization code is not a token"
				tags = append(tags, "C15")
			} else if c.client != e.lr.id {
				why = "token of another client"
			} else if st := w.judging[c.idx]; st != sLive {
				t, x := deadReason(c, st)
				tags = append(tags, T(t)...)
				why = x
			} else {
				why = "token expired"
				tags = append(tags, "C08")
			}
		} else {
			tags = append(tags, "C15")
			tags = append(tags, T(w.unknownTags(e.lr.b("token")))...)
			why = "no such token"
		}
		bad(tags, "introspect-active/"+why, "introspection reports a token active although: %s", why)
		return
	}
	c := w.creds[v.cred]
	chk := func(k, want, extra string) {
		if js(o.params, k) != want {
			bad(append(T("C10"), T(extra)...), "introspect-meta/"+k, "introspection reports %s=%q, should be %q", k, js(o.params, k), want)
		}
	}
	if !sameSet(parseScope(js(o.params, "scope")), c.scope) {
		bad(T("C10 C07"), "introspect-meta/scope", "introspection reports scope %q, should be %q", js(o.params, "scope"), strings.Join(c.scope, " "))
	}
	chk("client_id", c.client, "C04")
	chk("username", c.user, "C04")
	chk("token_type", map[string]string{"access": "access_token", "refresh": "refresh_token"}[c.kind], "")
	exp, _ := o.params["exp"].(float64)
	right := int64(exp) >= c.lo.Unix() && int64(exp) <= c.hi.Unix()
	for _, d := range w.clocks {
		// the clock was set: its reading then or now
		right = right || int64(exp) >= c.lo.Add(d).Unix() && int64(exp) <= c.hi.Add(d).Unix()
	}
	if !right {
		bad(T("C10 C08"), "introspect-meta/exp", "introspection reports expiry %d, should be %d..%d", int64(exp), c.lo.Unix(), c.hi.Unix())
	}
	return
}

// refused builds the violation for a request refused without reason.
func (w *World) refused(e *exec, v *verdict) Violation {
	o := e.oc
	ep := e.lr.endpoint()
	x := Violation{Op: e.op.ID, Class: "refused/" + ep + "/" + o.err,
		Text: fmt.Sprintf("valid %s request refused with %q (status %d)", ep, o.err, o.status)}
	switch o.err {
	case "invalid_scope", "insufficient_scope":
		x.Tags = append(x.Tags, "C07", "C20")
	case "invalid_client", "access_denied":
		x.Tags = append(x.Tags, "C11", "C20")
	case "invalid_grant", "invalid_token", "":
		x.Tags = append(x.Tags, "C08", "C20")
		if v.cred >= 0 {
			// the registered URI was changed after the code was issued
			c := w.creds[v.cred]
			if r := w.client(c.client); c.kind == "code" && r != nil && r.Redirect != c.redirect {
				x.Tags = append(x.Tags, "C04")
			}
		}
	default:
		x.Tags = append(x.Tags, "C20")
		if v.cred >= 0 {
			x.Tags = append(x.Tags, "C08")
		}
		if ep == "authorize" && o.kind != "redirect" {
			x.Tags = append(x.Tags, "C17")
		}
		if ep != "authorize" && v.cred < 0 {
			x.Tags = append(x.Tags, "C11")
		}
	}
	if ep == "authorize" && o.kind != "redirect" {
		x.Tags = append(x.Tags, "C17")
	}
	if v.cred >= 0 {
		x.Text += fmt.Sprintf(" for %s", w.describe(v.cred))
	}
	x.Hist = w.history(e, v)
	x.Direct = append([]string(nil), x.Tags...)
	for t := range x.Hist {
		if !contains(x.Tags, t) {
			x.Tags = append(x.Tags, t)
		}
	}
	sort.Strings(x.Tags)
	return x
}

func (w *World) describe(i int) string {
	c := w.creds[i]
	return fmt.Sprintf("the %s issued by op %d to client %q user %q scope %q", c.kind, c.op, c.client, c.user, strings.Join(c.scope, " "))
}

// history lists, per property, the earlier operations that property says must
// not disturb this request.
func (w *World) history(e *exec, v *verdict) map[string][]int {
	h := map[string][]int{}
	add := func(t string, ops []int) {
		if len(ops) > 0 {
			h[t] = append(h[t], ops...)
		}
	}
	var entF, undel, intro []int
	var revoked, replays, rotations, failed, noauth []int
	for _, p := range w.past {
		if p.oc == nil || p == e {
			continue
		}
		mine := v.cred >= 0 && p.pcred == v.cred
		op := p.op.ID
		ep := p.lr.endpoint()
		switch {
		case p.ent != nil && p.ent.HasFailed():
			entF = append(entF, op)
			if mine {
				failed = append(failed, op)
			}
		case p.oc.ok && ep == "revoke":
			revoked = append(revoked, op)
		case !p.oc.ok && ep == "revoke" && mine:
			revoked = append(revoked, op)
		case p.oc.ok && ep == "token" && p.lr.b("grant_type") == "refresh_token":
			rotations = append(rotations, op)
		case !p.oc.ok && ep == "token" && p.replay:
			replays = append(replays, op)
		case ep == "introspect":
			if mine {
				intro = append(intro, op)
			}
		case !p.oc.ok && ep == "token" && mine:
			failed = append(failed, op)
		}
		if v.cred >= 0 && p.wf && w.creds[v.cred].exec == p.id {
			undel = append(undel, op)
		}
		if p.noauth && !p.oc.ok {
			noauth = append(noauth, op)
		}
		if p.lr.incomplete || p.lr.bodyBad {
			undel = append(undel, op)
		}
	}
	if v.cred >= 0 {
		c := w.creds[v.cred]
		add("C09", revoked)
		add("C05", replays)
		add("C06", rotations)
		add("C10", intro)
		switch c.kind {
		case "code":
			add("C03", failed)
		case "refresh":
			add("C06", failed)
		}
		add("C14", undel)
		add("C11", noauth)
	}
	add("C12", entF)
	return h
}

// checkSuccess verifies the content of a success answer.
func (w *World) checkSuccess(e *exec, v *verdict) (vs []Violation) {
	o := e.oc
	ep := e.lr.endpoint()
	bad := func(tags, class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: strings.Fields(tags), Class: class, Text: fmt.Sprintf(f, a...), Op: e.op.ID})
	}
	switch v.succ {
	case "notice":
		if o.kind == "redirect" {
			bad("C17 C11", "get-redirect", "GET to the authorization endpoint was redirected to %q", o.hdr.Get("Location"))
		}
		if o.hdr.Get("Set-Cookie") != "" {
			bad("C20", "get-cookie", "unexpected cookie")
		}
	case "api":
		if e.auth != 1 {
			bad("C13 C20", "api-silent", "resource answered 200 although the request was not authorized")
		} else if string(o.body) != fmt.Sprintf("OK%d", v.api) {
			bad("C20 C07", "api-body", "resource answered %q", trunc(string(o.body), 60))
		}
	case "code", "implicit":
		vs = append(vs, w.checkRedirect(e, v)...)
		if v.succ == "implicit" {
			f := o.locF
			vs = append(vs, w.checkTokenParams(e, v, func(k string) string { return first(f, k) })...)
			if first(f, "refresh_token") != "" {
				bad("C17", "implicit-refresh", "implicit grant returned a refresh token")
			}
		}
	case "token":
		if o.kind != "json" || o.status != 200 {
			bad("C20", "token-nojson", "token request answered with status %d and content type %q", o.status, o.hdr.Get("Content-Type"))
			return
		}
		vs = append(vs, w.checkTokenParams(e, v, func(k string) string {
			if f, ok := o.params[k].(float64); ok {
				return strconv.FormatFloat(f, 'f', -1, 64)
			}
			return js(o.params, k)
		})...)
		if js(o.params, "refresh_token") == "" {
			t := "C20"
			switch e.lr.b("grant_type") {
			case "refresh_token":
				t = "C06"
			case "authorization_code":
				t = "C03"
			}
			bad(t, "no-refresh-token", "%s grant returned no refresh token", e.lr.b("grant_type"))
		}
	case "revoked":
		if o.status != 200 {
			bad("C09 C20", "revoke-status", "revocation answered with status %d", o.status)
		}
	}
	_ = ep
	return
}

func (w *World) checkTokenParams(e *exec, v *verdict, get func(string) string) (vs []Violation) {
	bad := func(tags, class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: strings.Fields(tags), Class: class, Text: fmt.Sprintf(f, a...), Op: e.op.ID})
	}
	if !strings.EqualFold(get("token_type"), "bearer") {
		bad("C20", "token-type", "token type %q", get("token_type"))
	}
	if get("access_token") == "" {
		bad("C20", "no-access-token", "success without access token")
	}
	want := strconv.FormatInt(int64(w.cfg.AccessTTL/time.Second), 10)
	if get("expires_in") != want {
		bad("C08", "expires-in", "expires_in is %q, lifespan is %v", get("expires_in"), w.cfg.AccessTTL)
	}
	if got := parseScope(get("scope")); !sameSet(got, v.scope) {
		bad("C07", "granted-scope", "granted scope %q, should be %q", get("scope"), strings.Join(v.scope, " "))
	}
	return
}

func sortedPairs(q url.Values, skip map[string]bool) []string {
	var out []string
	for k, vs := range q {
		if skip[k] {
			continue
		}
		for _, x := range vs {
			out = append(out, k+"="+x)
		}
	}
	sort.Strings(out)
	return out
}

var respKeys = map[string]bool{"code": true, "state": true, "error": true, "error_description": true, "error_uri": true,
	"access_token": true, "token_type": true, "expires_in": true, "scope": true, "refresh_token": true, "realm": true}

// checkRedirect verifies target and payload of a redirect.
func (w *World) checkRedirect(e *exec, v *verdict) (vs []Violation) {
	o := e.oc
	bad := func(class, f string, a ...interface{}) {
		vs = append(vs, Violation{Tags: []string{"C17"}, Class: class, Text: fmt.Sprintf(f, a...) + fmt.Sprintf(" (registered %q, Location %q)", v.redir, o.hdr.Get("Location")), Op: e.op.ID})
	}
	if o.kind != "redirect" {
		bad("no-redirect", "authorization request answered with status %d instead of a redirect", o.status)
		return
	}
	if o.loc == nil {
		return
	}
	if o.status != 302 && o.status != 303 {
		bad("redirect-status", "redirect with status %d", o.status)
	}
	reg, err := url.Parse(v.redir)
	if err != nil {
		return
	}
	if reg.Scheme != o.loc.Scheme || reg.Host != o.loc.Host || reg.Opaque != o.loc.Opaque || reg.EscapedPath() != o.loc.EscapedPath() || reg.User.String() != o.loc.User.String() {
		bad("redirect-target", "redirect to another target")
	}
	regQ, regErr := url.ParseQuery(reg.RawQuery)
	if regErr != nil && !strings.HasPrefix(o.loc.RawQuery, reg.RawQuery) {
		bad("redirect-query", "the redirect URI's own query was not retained")
	}
	if v.frag {
		if !eqStr(sortedPairs(o.locQ, nil), sortedPairs(regQ, nil)) || (regErr != nil && o.loc.RawQuery != reg.RawQuery) {
			bad("redirect-query", "the redirect URI's own query changed")
		}
		if o.fragBad {
			bad("fragment-encoding", "fragment is not form encoded")
		}
	} else {
		if o.locF != nil {
			bad("redirect-fragment", "outcome in the fragment instead of the query")
		}
		if regErr == nil {
			if o.queryBad {
				bad("redirect-query", "malformed query")
			}
			extra := copyValues(o.locQ)
			for k, x := range regQ {
				for _, y := range x {
					if !subtract(extra, k, y) {
						bad("redirect-query", "the redirect URI's own query parameter %s=%s is missing", k, y)
					}
				}
			}
			if l := sortedPairs(extra, respKeys); len(l) > 0 {
				bad("redirect-query", "unexpected query parameters %v", l)
			}
		}
	}
	src := o.add
	if v.frag {
		src = o.locF
	}
	if l := src["state"]; len(l) > 1 || first(src, "state") != e.lr.a("state") {
		bad("state", "state %q returned as %q", e.lr.a("state"), l)
	}
	if o.ok && v.succ == "code" {
		if len(src["code"]) != 1 {
			bad("code-count", "%d codes in the redirect", len(src["code"]))
		}
		for _, k := range []string{"access_token", "refresh_token"} {
			if first(src, k) != "" {
				bad("code-token", "code response carries a %s", k)
			}
		}
	}
	if o.ok && v.succ == "implicit" {
		for _, k := range []string{"access_token", "code"} {
			if first(o.locQ, k) != "" && len(regQ[k]) == 0 {
				bad("implicit-query", "implicit response puts %s in the query", k)
			}
		}
		if first(src, "code") != "" {
			bad("implicit-code", "implicit response carries a code")
		}
	}
	return
}

func copyValues(v url.Values) url.Values {
	out := url.Values{}
	for k, x := range v {
		out[k] = append([]string(nil), x...)
	}
	return out
}

// subtract removes one occurrence of a pair.
func subtract(v url.Values, k, x string) bool {
	l := v[k]
	for i := range l {
		if l[i] == x {
			v[k] = append(l[:i:i], l[i+1:]...)
			return true
		}
	}
	return false
}

// withoutOwn returns the query parameters of a redirect that are not those of
// the redirect URI itself.
func withoutOwn(u *url.URL, q url.Values, own string) url.Values {
	reg, err := url.Parse(own)
	if err != nil || own == "" || reg.RawQuery == "" {
		return q
	}
	regQ, err := url.ParseQuery(reg.RawQuery)
	if err != nil {
		if strings.HasPrefix(u.RawQuery, reg.RawQuery) {
			r, _ := url.ParseQuery(strings.TrimPrefix(u.RawQuery[len(reg.RawQuery):], "&"))
			return r
		}
		return q
	}
	out := copyValues(q)
	for k, x := range regQ {
		for _, y := range x {
			subtract(out, k, y)
		}
	}
	return out
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// tokensOf extracts the credentials a success answer hands out.
func (w *World) tokensOf(e *exec) (code, access, refresh string) {
	o := e.oc
	if o.none {
		return
	}
	switch o.kind {
	case "redirect":
		if o.err != "" {
			return
		}
		src := o.add
		return first(src, "code"), first(src, "access_token"), first(src, "refresh_token")
	case "json":
		if e.lr.endpoint() == "token" {
			return "", js(o.params, "access_token"), js(o.params, "refresh_token")
		}
	}
	return
}

var _ = http.StatusOK
