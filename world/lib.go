package world

import (
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// LibSpec is what an endpoint written by a user of the library answers with:
// the request is served by the library's building blocks instead of its Server.
type LibSpec struct {
	Fn       string   `json:"fn"` // error, bearer, plain, token, code, introspect
	Name     string   `json:"name,omitempty"`
	Desc     string   `json:"desc,omitempty"`
	URI      string   `json:"uri,omitempty"`
	Realm    string   `json:"realm,omitempty"`
	Scope    []string `json:"scope,omitempty"`
	Redirect string   `json:"redirect,omitempty"`
	State    string   `json:"state,omitempty"`
	Frag     bool     `json:"frag,omitempty"`
	Token    string   `json:"token,omitempty"`
	Refresh  string   `json:"refresh,omitempty"`
	Code     string   `json:"code,omitempty"`
	Exp      int64    `json:"exp,omitempty"`
	ID       string   `json:"id,omitempty"`
	User     string   `json:"user,omitempty"`
	Active   bool     `json:"active,omitempty"`
}

var libBuilders = map[string]func(string) *oauth2.Error{
	"invalid_request": oauth2.InvalidRequest, "invalid_client": oauth2.InvalidClient, "invalid_grant": oauth2.InvalidGrant,
	"invalid_scope": oauth2.InvalidScope, "unauthorized_client": oauth2.UnauthorizedClient,
	"unsupported_grant_type": oauth2.UnsupportedGrantType, "unsupported_response_type": oauth2.UnsupportedResponseType,
	"unsupported_token_type": oauth2.UnsupportedTokenType, "access_denied": oauth2.AccessDenied, "server_error": oauth2.ServerError,
	"temporarily_unavailable": oauth2.TemporarilyUnavailable, "invalid_token": oauth2.InvalidToken,
}

// libNames lists what builds an error, in a fixed order.
var libNames = []string{"invalid_request", "invalid_client", "invalid_grant", "invalid_scope", "unauthorized_client",
	"unsupported_grant_type", "unsupported_response_type", "unsupported_token_type", "access_denied", "server_error",
	"temporarily_unavailable", "invalid_token"}

// libOf returns the specification of a request for such an endpoint.
func (e *exec) libOf() *LibSpec {
	if e.op == nil || e.lr == nil || e.lr.endpoint() != "lib" {
		return nil
	}
	return e.op.Lib
}

func (l *LibSpec) err() *oauth2.Error {
	switch l.Name {
	case "":
		return oauth2.ProtectedResource()
	case "insufficient_scope":
		return oauth2.InsufficientScope(oauth2.Scope(l.Scope))
	}
	e := libBuilders[l.Name](l.Desc)
	e.URI, e.Realm = l.URI, l.Realm
	return e
}

// serve answers like a server written with the library would.
func (l *LibSpec) serve(w http.ResponseWriter) {
	switch l.Fn {
	case "error":
		e := l.err()
		if l.Redirect != "" {
			e.SetRedirect(l.Redirect, l.State, l.Frag)
		}
		_ = oauth2.WriteError(w, e)
	case "plain":
		_ = oauth2.WriteError(w, errors.New(l.Desc))
	case "bearer":
		_ = oauth2.WriteBearerError(w, l.err())
	case "token":
		r := oauth2.NewBearerTokenResponse(l.Token, int(l.Exp))
		r.RefreshToken = l.Refresh
		if len(l.Scope) > 0 {
			r.Scope = oauth2.Scope(l.Scope)
		}
		if l.Redirect != "" {
			r.SetRedirect(l.Redirect, l.State)
		}
		_ = oauth2.WriteTokenResponse(w, r)
	case "code":
		_ = oauth2.WriteCodeResponse(w, oauth2.NewCodeResponse(l.Code, l.Redirect, l.State))
	case "introspect":
		r := oauth2.NewIntrospectionResponse(l.Active, nil, l.ID, l.User, l.Name)
		if len(l.Scope) > 0 {
			r.Scope = oauth2.Scope(l.Scope)
		}
		r.ExpiresAt = l.Exp
		_ = oauth2.WriteIntrospectionResponse(w, r)
	}
}

// expect returns the fields the answer has to carry.
func (l *LibSpec) expect() map[string]string {
	m := map[string]string{}
	set := func(k, v string) {
		if v != "" {
			m[k] = v
		}
	}
	scope := strings.Join(l.Scope, " ")
	switch l.Fn {
	case "error", "bearer":
		set("error", l.Name)
		if l.Name == "insufficient_scope" {
			set("scope", scope)
		} else if l.Name != "" {
			set("error_description", l.Desc)
			set("error_uri", l.URI)
			set("realm", l.Realm)
		}
	case "plain":
		set("error", "server_error")
	case "token":
		set("token_type", "bearer")
		set("access_token", l.Token)
		m["expires_in"] = fmt.Sprint(l.Exp)
		set("refresh_token", l.Refresh)
		set("scope", scope)
	case "code":
		set("code", l.Code)
	case "introspect":
		m["active"] = fmt.Sprint(l.Active)
		set("scope", scope)
		set("client_id", l.ID)
		set("username", l.User)
		set("token_type", l.Name)
		if l.Exp != 0 {
			m["exp"] = fmt.Sprint(l.Exp)
		}
	}
	if l.Redirect != "" {
		set("state", l.State)
	}
	return m
}

func flat(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%q", k, m[k])
	}
	return strings.Join(ks, " ")
}

func flatValues(v url.Values) map[string]string {
	m := map[string]string{}
	for k, x := range v {
		m[k] = strings.Join(x, "\x00")
		if m[k] == "" {
			delete(m, k)
		}
	}
	return m
}

// checkLib confronts the answer of such an endpoint with what it was to say.
func (w *World) checkLib(e *exec, bad func(tags, class, f string, a ...interface{})) {
	l, o := e.libOf(), e.oc
	if l == nil || e.wf {
		return
	}
	if l.Fn == "introspect" && l.Active && l.Name != "access_token" && l.Name != "refresh_token" {
		return
	}
	want := l.expect()
	nostore := strings.Contains(strings.ToLower(o.hdr.Get("Cache-Control")), "no-store")
	chal := o.hdr.Get("WWW-Authenticate")
	if l.Name == "invalid_client" && l.Fn == "error" && chal == "" {
		bad("C20", "lib-challenge", "invalid_client without WWW-Authenticate")
	}
	if l.Redirect != "" && l.Fn != "introspect" {
		if o.status != 302 && o.status != 303 {
			bad("C17 C20", "lib-no-redirect", "%s to be sent to %q answered with status %d", l.Fn, l.Redirect, o.status)
			return
		}
		if !nostore {
			bad("C20", "cacheable/lib", "redirect does not forbid caching")
		}
		loc, frag := o.hdr.Get("Location"), ""
		inFrag := l.Frag && l.Fn == "error" || l.Fn == "token"
		if i := strings.IndexByte(loc, '#'); i >= 0 {
			loc, frag = loc[:i], loc[i+1:]
		}
		u, err := url.Parse(loc)
		reg, rerr := url.Parse(l.Redirect)
		if rerr != nil {
			return
		}
		if err != nil || u.Scheme != reg.Scheme || u.Host != reg.Host || u.Opaque != reg.Opaque || u.EscapedPath() != reg.EscapedPath() || u.User.String() != reg.User.String() {
			bad("C17", "lib-redirect-target", "redirect to %q goes to %q", l.Redirect, o.hdr.Get("Location"))
			return
		}
		q, err := url.ParseQuery(u.RawQuery)
		regQ, regErr := url.ParseQuery(reg.RawQuery)
		if regErr != nil {
			// not form encoded: kept as it is, whatever is added follows
			if !strings.HasPrefix(u.RawQuery, reg.RawQuery) {
				bad("C17", "lib-redirect-query", "redirect to %q goes to %q", l.Redirect, o.hdr.Get("Location"))
				return
			}
			q, err = url.ParseQuery(strings.TrimPrefix(u.RawQuery[len(reg.RawQuery):], "&"))
		} else {
			q = copyValues(q)
			for k, x := range regQ {
				for _, y := range x {
					if !subtract(q, k, y) {
						bad("C17", "lib-redirect-query", "the own query of %q is not retained in %q", l.Redirect, o.hdr.Get("Location"))
						return
					}
				}
				if len(q[k]) == 0 {
					delete(q, k)
				}
			}
		}
		got := q
		if inFrag {
			if len(q) > 0 {
				bad("C17", "lib-redirect-query", "parameters meant for the fragment appear in the query: %q", o.hdr.Get("Location"))
			}
			got, err = url.ParseQuery(frag)
		} else if frag != "" {
			bad("C17", "lib-redirect-fragment", "parameters meant for the query appear in the fragment: %q", o.hdr.Get("Location"))
			return
		}
		if err != nil || flat(flatValues(got)) != flat(want) {
			bad("C17 C20", "lib-redirect-data", "redirect carries %s instead of %s", flat(flatValues(got)), flat(want))
		}
		return
	}
	st := 200
	name := want["error"]
	switch l.Fn {
	case "error", "plain":
		st = statusOf[name]
		if l.Name == "" && l.Fn == "error" {
			st = 401
		}
	case "bearer":
		st = statusOf[name]
		if l.Name == "" {
			st = 401
		}
		if o.status != st {
			bad("C20", "lib-status", "error %q written with status %d", name, o.status)
			return
		}
		if st == 500 {
			return
		}
		if !strings.HasPrefix(strings.ToLower(chal), "bearer ") {
			bad("C20", "lib-challenge", "no Bearer challenge: %q", chal)
			return
		}
		got := map[string]string{}
		for _, k := range []string{"error", "error_description", "error_uri", "scope", "realm", "state"} {
			if v := challengeParam(chal, k); v != "" {
				got[k] = v
			}
		}
		if len(want) == 0 {
			delete(got, "realm") // something has to follow the scheme
		}
		if flat(got) != flat(want) {
			bad("C20", "lib-challenge-data", "challenge %q should carry %s", chal, flat(want))
		}
		return
	}
	if o.status != st {
		bad("C20", "lib-status", "%s %q written with status %d instead of %d", l.Fn, name, o.status, st)
	}
	if o.kind != "json" || o.jsonBad {
		if !o.jsonBad {
			bad("C20", "lib-nojson", "%s written without a JSON document (%q)", l.Fn, o.hdr.Get("Content-Type"))
		}
		return
	}
	got := map[string]string{}
	for k, v := range o.params {
		switch x := v.(type) {
		case string:
			if x != "" {
				got[k] = x
			}
		case float64:
			got[k] = fmt.Sprintf("%.0f", x)
		default:
			got[k] = fmt.Sprint(v)
		}
	}
	if flat(got) != flat(want) {
		bad("C20", "lib-data", "%s document carries %s instead of %s", l.Fn, flat(got), flat(want))
	}
}

// mkLib makes a request to an endpoint written with the library.
func (g *gen) mkLib(w *World, o *Op) {
	o.Method, o.Path = "POST", "/lib/x"
	word := func() string {
		return g.pick("", "", "x", "foo", "some text", "Größe & 50%=?#/+;", "a=b&c=d", "<b>&amp;</b>", "{}", "ä\u2028", strings.Repeat("long ", 400))
	}
	s := &LibSpec{Fn: g.pick("error", "error", "error", "bearer", "plain", "token", "token", "code", "introspect")}
	o.Lib = s
	o.Note = "lib " + s.Fn
	redirect := g.pick("http://example.com", "https://e.example/cb", "https://e.example/cb?a=1", "https://e.example/cb?a=1&a=2&b", "http://localhost:8080/", "https://e.example/cb?state=own&code=own",
		"https://e.example/a%20b?q=a%26b", "myapp://cb/path", "https://e.example/cb?p=1;q=2", "https://user:pw@e.example/cb/?x=%20", "https://e.example/cb?next=https%3A%2F%2Fe.example%2F%3Fa%3Db%26c")
	state := g.pick("", "xyz", "a b", "a&b=c#d", "%zz", "Zürich/✓", "+", strings.Repeat("s", 900))
	for i := g.r.N(4); i > 0; i-- {
		s.Scope = append(s.Scope, g.pick("foo", "bar", "foo:read", "ü", "a/b"))
	}
	switch s.Fn {
	case "error", "bearer":
		s.Name = libNames[g.r.N(len(libNames))]
		s.Desc = word()
		if g.chance(0.3) {
			s.URI = g.pick("https://e.example/docs?a=b&c=d", "http://example.com/e#x")
		}
		if g.chance(0.2) {
			s.Realm = g.pick("OAuth2", "my realm", "ä")
		}
		if g.chance(0.15) {
			s.Name = "insufficient_scope"
		}
		if s.Fn == "bearer" {
			s.Desc = g.pick("", "x", "some text", "a-b_c.d")
			if g.chance(0.2) {
				s.Name = ""
			}
		} else if g.chance(0.5) {
			s.Redirect, s.State, s.Frag = redirect, state, g.chance(0.4)
		}
	case "plain":
		s.Desc = word()
	case "token":
		s.Token, s.Exp = g.pick("t", "abc.def", "A-_~+/="), []int64{1, 3600, 0, -1, 1 << 31}[g.r.N(5)]
		if g.chance(0.5) {
			s.Redirect, s.State = redirect, state
		} else {
			s.Refresh = g.pick("", "r.s", "x")
		}
	case "code":
		s.Code, s.Redirect, s.State = g.pick("c", "abc.def", "A-_~+/="), redirect, state
	case "introspect":
		s.Active = g.chance(0.7)
		if s.Active {
			s.Name, s.ID, s.User, s.Exp = g.pick("access_token", "refresh_token", "access_token", "refresh_token", "x"), g.pick("c", "ä", "a\"b"), word(), int64(g.r.N(2000000000))
		} else {
			s.Scope = nil
		}
	}
}
