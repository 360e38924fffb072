package world

import (
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"strings"
	"time"
	"unicode/utf8"

	"verif/simrt"
)

// Profile biases the generator towards what a property depends on.
type Profile struct {
	Name     string
	Rounds   [2]int
	Conc     float64 // probability that a round has overlapping requests
	Burst    float64 // probability that overlapping requests aim at one credential
	Fault    float64 // probability of a fault on an operation
	FaultSet []string
	Wait     float64 // probability of waiting before a round
	Edge     float64 // given a wait: aim at an expiry
	Bad      float64 // probability that an operation deviates from correctness
	Mut      float64 // given a token presented: probability of mutation or kind confusion
	Client   float64 // probability of going through the client library
	Restart  float64
	Crash    float64
	Audit    float64 // probability of a final audit
	Preempt  float64 // probability of non-trivial scheduling
	W        map[string]int
	ShortTTL bool
	Soak     float64 // probability of a long run
	Peer     float64 // probability of a second server in the process
	Clock    float64 // probability that the wall clock is set before a round
	Repeat   float64 // probability that a request is sent many times
	Admin    float64 // probability that a client or user is changed before a round
	Big      bool    // even very many times
}

func baseProfile() Profile {
	return Profile{
		Rounds: [2]int{4, 14}, Conc: 0.25, Burst: 0.7, Fault: 0.15, Wait: 0.2, Edge: 0.5, Bad: 0.3, Mut: 0.12, Client: 0.15,
		Restart: 0.01, Crash: 0.02, Audit: 0.7, Preempt: 0.8, Soak: 0.003, Peer: 0.1, Repeat: 0.008, Big: true, Admin: 0.02,
		FaultSet: []string{"delay", "drop", "dup", "duplate", "trunc", "stall", "chunk", "respdrop", "writefail", "entfail", "entshort", "pause", "cancel"},
		W:        map[string]int{"password": 12, "cc": 8, "code": 14, "implicit": 5, "get": 1, "exchange": 16, "refresh": 16, "introspect": 12, "revoke": 8, "api": 16, "junk": 4},
	}
}

// ProfileFor returns the profile of a property.
func ProfileFor(prop string) Profile {
	p := baseProfile()
	p.Name = prop
	w := p.W
	switch prop {
	case "C01":
		p.Conc, p.Burst, p.Fault, p.Wait, p.Bad, p.Preempt, p.Crash = 0.75, 0.85, 0.05, 0.05, 0.1, 1, 0
		p.FaultSet = []string{"dup", "pause", "delay", "chunk"}
		p.Client = 0.1
		w["lib"] = 2
	case "C02":
		w["lib"] = 4
		p.Conc, p.Burst, p.Fault, p.Wait, p.Bad, p.Preempt, p.Crash, p.Restart, p.Soak = 0.85, 0.5, 0.05, 0.03, 0.2, 1, 0, 0, 0
		p.FaultSet = []string{"dup", "pause", "chunk", "entshort", "entfail", "cancel"}
		p.Client, p.Peer = 0.35, 0.25
		p.Repeat, p.Big = 0.002, false
		p.Rounds = [2]int{3, 8}
	case "C03":
		w["code"], w["exchange"] = 25, 40
		p.Conc, p.Bad = 0.4, 0.35
	case "C04":
		w["code"], w["exchange"], w["refresh"], w["introspect"] = 20, 30, 25, 15
		p.Bad, p.Conc, p.Admin = 0.5, 0.1, 0.05
	case "C05":
		w["code"], w["exchange"], w["refresh"], w["api"] = 20, 35, 25, 15
		p.Bad, p.Audit, p.Mut = 0.15, 1, 0.02
	case "C06":
		w["refresh"], w["password"], w["cc"], w["exchange"] = 40, 15, 8, 15
		p.Conc, p.Bad = 0.4, 0.3
	case "C07":
		p.Conc, p.Bad, p.Mut = 0.1, 0.5, 0.02
		w["api"], w["refresh"], w["introspect"] = 25, 25, 15
	case "C08":
		p.Wait, p.Edge, p.Bad, p.Conc, p.ShortTTL = 0.55, 0.8, 0.1, 0.15, true
		p.Clock = 0.02
		w["exchange"], w["refresh"], w["api"], w["introspect"] = 20, 20, 20, 15
	case "C09":
		w["revoke"], w["api"], w["introspect"], w["refresh"] = 25, 20, 12, 20
		p.Audit = 1
	case "C10":
		w["introspect"] = 45
		p.Wait = 0.3
		p.Clock = 0.01
	case "C11":
		p.Bad, p.Conc, p.Mut, p.Admin = 0.65, 0.08, 0.03, 0.06
	case "C12":
		p.Fault, p.FaultSet = 0.35, []string{"entfail", "entfail", "entfail", "entshort", "dup", "cancel"}
		p.Audit, p.Bad = 1, 0.15
		w["api"] = 12
	case "C13":
		p.Fault, p.FaultSet = 0.4, []string{"stall", "stall", "trunc", "chunk", "entfail", "writefail", "pause", "dup", "cancel"}
		w["junk"] = 40
		p.Bad, p.Mut, p.Conc = 0.5, 0.3, 0.45
	case "C14":
		p.Fault, p.FaultSet = 0.5, []string{"trunc", "trunc", "stall", "writefail", "respdrop", "dup", "duplate", "drop", "chunk", "cancel", "cancel"}
		p.Audit = 1
		w["junk"] = 8
	case "C15":
		p.Mut, p.Restart, p.Conc = 0.5, 0.05, 0.1
		w["api"], w["introspect"], w["revoke"] = 25, 15, 12
	case "C16":
		p.Fault, p.FaultSet = 0.5, []string{"entshort", "entshort", "entshort", "entfail", "dup", "pause"}
		w["password"], w["code"], w["implicit"], w["refresh"] = 20, 25, 15, 25
		p.Soak = 0.01
		p.Conc = 0.3
	case "C17":
		w["code"], w["implicit"], w["get"] = 60, 60, 4
		p.Bad, p.Conc = 0.5, 0.08
		p.Rounds = [2]int{6, 16}
		p.Audit = 0.3
		w["lib"] = 14
	case "C18":
		p.Client, p.Fault = 0.9, 0.4
		p.FaultSet = []string{"respdrop", "resptrunc", "drop", "stall", "trunc", "entfail", "writefail", "delay", "dup"}
		p.Conc = 0.4
	case "C20":
		p.Bad, p.Mut = 0.6, 0.25
		w["junk"] = 15
		w["lib"] = 14
	}
	return p
}

type gen struct {
	r      simrt.Rand
	p      Profile
	sc     *Scenario
	op     int
	rounds int
	audit  bool
	queue  []*Round
	phase  int
	soak   bool
	tenant int
	early  int // credentials there were before a request was sent many times
}

// NewGenerated creates a scenario and its online generator from a seed.
func NewGenerated(prop string, seed uint64) (*Scenario, Source) {
	g := &gen{r: simrt.NewRand(seed*0x9e3779b97f4a7c15 + 1), p: ProfileFor(prop)}
	for i := 0; i < 3; i++ {
		g.r.U64()
	}
	sc := &Scenario{Mode: "server", Seed: seed, EntSeed: g.r.U64()}
	g.sc = sc
	g.rounds = g.p.Rounds[0] + g.r.N(g.p.Rounds[1]-g.p.Rounds[0]+1)
	g.audit = g.chance(g.p.Audit)
	if g.chance(g.p.Soak) {
		g.soak = true
		g.rounds = 150 + g.r.N(200)
	}
	g.config()
	if g.chance(g.p.Peer) {
		sc.Peer = g.peerConfig()
	}
	g.strategy()
	if NoEntropyFail {
		var fs []string
		for _, f := range g.p.FaultSet {
			if f != "entfail" {
				fs = append(fs, f)
			}
		}
		g.p.FaultSet = fs
	}
	return sc, g
}

// NoEntropyFail disables failing randomness (set when the code under test
// turns it into the end of the process).
var NoEntropyFail bool

func (g *gen) chance(p float64) bool { return g.r.F() < p }

func (g *gen) pick(l ...string) string {
	if len(l) == 0 {
		return ""
	}
	return l[g.r.N(len(l))]
}

func (g *gen) strategy() {
	s := &g.sc.Strat
	s.Seed = g.r.U64()
	if !g.chance(g.p.Preempt) {
		s.Kind = 0
		return
	}
	switch g.r.N(5) {
	case 0, 1:
		s.Kind, s.P = 1, 0.02
	case 2:
		s.Kind, s.P = 1, []float64{0.1, 0.3, 0.6}[g.r.N(3)]
	default:
		s.Kind = 2
		n := 1 + g.r.N(8)
		for i := 0; i < n; i++ {
			s.Changes = append(s.Changes, 1+g.r.N(1500))
		}
	}
	if g.soak {
		s.Kind, s.P = 1, 0.01
	}
	if g.chance(g.p.Crash) {
		g.sc.CrashT = fmt.Sprintf("s%d.0", g.r.N(12))
		g.sc.CrashY = 1 + g.r.N(60)
	}
}

var scopeWords = []string{"foo", "bar", "baz", "foo:read", "foo:rea", "FOO", "admin", "a", "b", "ab", "read", "reader", "*", "foo,bar", "foo.*", "/", "foo=bar"}

var (
	longSecret = strings.Repeat("0123456789abcdef", 6)
	longName   = strings.Repeat("long-name-", 9)
)

var redirects = []string{
	"http://example.com/callback1", "http://example.com/callback", "https://app.example/cb?x=1&y=2", "http://example.com",
	"myapp://cb/path", "http://localhost:8080/", "http://[::1]:9/cb", "https://e.example/a%20b?q=a%26b", "https://e.example/cb?p=1;q=2",
	"https://user@e.example/cb", "https://e.example/cb?", "https://e.example/cb?flag", "https://e.example/cb?u=%C3%A4+%2B", "https://e.example/cb/?x=%20&x=1",
	"https://e.example/p;v=1/cb", "/relative/path", "https://e.example/cb?next=https%3A%2F%2Fe.example%2F%3Fa%3Db%26c",
	"https://e.example/cb?state=own", "https://e.example/cb?code=1&error=none", "https://e.example/cb?access_token=own&scope=x&state=", "https://e.example/cb?error=own;x",
	"https://App.Example/CB?X=Y", "https://e.example:8443/a/b/../cb", "https://e.example//cb", "https://e.example/cb?" + "x=" + longName + longName,
}

var states = []string{"", "xyz", "a b", "a+b", "a&b=c", "100%", "%41", "ä€😀", "a#b", "?x", "a;b", "\"q\"", "<s>", "state=1&code=evil", "line\nbreak", "back\\slash", "'", "=", "&", "%", "+", " ", "a\x00b", "0", "%%%20", "/../", ",", "\xff\xfe", "a\xe4b", "\u2028", strings.Repeat("state ", 300)}

func (g *gen) config() {
	c := &g.sc.Cfg
	c.Secret = g.pick("secret", "0123456789abcdef", "s", "a-very-long-secret-that-exceeds-the-block-size-of-sha-256-which-is-64-bytes", "sec\x00ret", "sécret")
	c.KeyLen = []int{16, 16, 16, 8, 9, 15, 17, 20, 24, 31, 32, 33, 48, 64}[g.r.N(14)]
	if g.chance(0.03) {
		c.KeyLen = []int{57, 65, 96, 100, 128, 129, 200, 256, 500}[g.r.N(9)]
	}
	n := g.r.N(6)
	perm := g.perm(len(scopeWords))
	for i := 0; i < n; i++ {
		c.Allowed = append(c.Allowed, scopeWords[perm[i]])
	}
	if n == 0 && g.chance(0.8) {
		c.Allowed = []string{"foo", "bar"}
	}
	if g.chance(0.03) {
		// very many scope tokens
		name := g.pick("scope", "scope", longName+longName)
		for i, k := 0, 20+g.r.N(80); i < k; i++ {
			c.Allowed = append(c.Allowed, fmt.Sprintf("%s%d", name, i))
		}
	}
	ttl := func(l ...time.Duration) time.Duration { return l[g.r.N(len(l))] }
	c.AccessTTL = ttl(time.Hour, time.Hour, time.Minute, 1500*time.Millisecond, time.Second, 999*time.Millisecond, 24*time.Hour)
	c.RefrTTL = ttl(7*24*time.Hour, 7*24*time.Hour, time.Hour, time.Minute, 2500*time.Millisecond, 90*time.Second, 365*24*time.Hour)
	c.CodeTTL = ttl(10*time.Minute, 10*time.Minute, time.Minute, time.Second, 1700*time.Millisecond, 30*time.Second)
	if g.p.ShortTTL && g.chance(0.5) {
		c.AccessTTL = ttl(time.Millisecond, 1500*time.Millisecond, time.Second, 61*time.Second, 999*time.Millisecond, 1999*time.Millisecond)
		c.CodeTTL = ttl(time.Millisecond, 1500*time.Millisecond, time.Second, 61*time.Second, 1200*time.Millisecond)
		c.RefrTTL = ttl(5*time.Millisecond, 1500*time.Millisecond, time.Second, 61*time.Second, 600*time.Millisecond)
	}
	// lifespans of a size that stands for never
	for _, t := range []*time.Duration{&c.AccessTTL, &c.RefrTTL, &c.CodeTTL} {
		if g.chance(0.04) {
			*t = ttl(100*365*24*time.Hour, 270*365*24*time.Hour, 1<<63-1, (1<<31-1)*time.Second, (1<<31+1)*time.Second, 1<<62)
		}
	}
	// none at all
	for _, t := range []*time.Duration{&c.AccessTTL, &c.RefrTTL, &c.CodeTTL} {
		if g.chance(0.003) || g.p.ShortTTL && g.chance(0.015) {
			*t = ttl(0, 0, 1, -1, -time.Second, time.Nanosecond*999)
		}
	}
	c.Start = []time.Duration{0, 0, 500 * time.Millisecond, 999999999, 1, 250 * time.Millisecond, 333333333}[g.r.N(7)]
	if g.chance(0.2) {
		c.Start += time.Duration(g.r.N(1000000)) * time.Hour / 100
	}
	ids := []string{"client1", "client2", "client10", "Client1", "clien", "c", "clienté", "app client", "client1 ", "42", longName + "1", longName + "2"}
	secs := []string{"foo", "bar", "Foo", "foo ", "fo", "s3cr3t-with-längeren-text", "", "foofoo", "a:b", "p%40ss+w&d=", longSecret, longSecret + longSecret + longSecret}
	ip := g.perm(len(ids))
	k := 2 + g.r.N(4)
	sp := g.perm(len(secs))
	rp := g.perm(len(redirects))
	for i := 0; i < k; i++ {
		e := Entity{ID: ids[ip[i]], Secret: secs[sp[i]], Redirect: redirects[rp[i]], Confidential: g.chance(0.65)}
		if i == 0 {
			e.Confidential = true
			if e.Secret == "" {
				e.Secret = "foo"
			}
		}
		if g.chance(0.25) {
			e.Secret = "foo" // several clients share a secret
		}
		if i > 0 && g.chance(0.3) {
			e.Redirect = c.Clients[0].Redirect
		} else if i > 0 && g.chance(0.25) {
			e.Redirect = g.uriMiss(c.Clients[0].Redirect)
			if !registrable(e.Redirect) {
				e.Redirect = redirects[rp[i]]
			}
		}
		if !e.Confidential && g.chance(0.6) {
			e.Secret = ""
		}
		c.Clients = append(c.Clients, e)
	}
	us := []string{"user1", "user2", "User1", "user", "üser", "client1", "user1 ", "a:b", longName + "1", longName + "2"}
	up := g.perm(len(us))
	sp = g.perm(len(secs))
	for i := 0; i < 1+g.r.N(3); i++ {
		e := Entity{ID: us[up[i]], Secret: secs[sp[i]]}
		if g.chance(0.2) {
			e.Secret = "foo"
		}
		c.Users = append(c.Users, e)
	}
	c.APIs = [][]string{{}}
	for i := 0; i < 2+g.r.N(3); i++ {
		var s []string
		p := g.perm(len(c.Allowed))
		for j := 0; j < len(p) && j < 1+g.r.N(3); j++ {
			s = append(s, c.Allowed[p[j]])
		}
		if len(p) > 12 && g.chance(0.3) {
			s = append([]string(nil), c.Allowed...)
		}
		if g.chance(0.2) {
			s = append(s, scopeWords[g.r.N(len(scopeWords))])
		}
		c.APIs = append(c.APIs, s)
	}
}

// peerConfig configures a second server in the process: nearly the same, or
// different in all that matters.
func (g *gen) peerConfig() *Config {
	b, _ := json.Marshal(&g.sc.Cfg)
	c := &Config{}
	_ = json.Unmarshal(b, c)
	if g.chance(0.6) {
		c.Secret = g.pick(c.Secret+"2", "another-secret!!", g.miss(c.Secret))
		if c.Secret == "" {
			c.Secret = "peer"
		}
	}
	if g.chance(0.3) {
		c.KeyLen = []int{16, 24, 32}[g.r.N(3)]
	}
	if g.chance(0.4) {
		c.Allowed = []string{"foo", g.pick(scopeWords...)}
	}
	for _, t := range []*time.Duration{&c.AccessTTL, &c.RefrTTL, &c.CodeTTL} {
		if g.chance(0.4) {
			*t = []time.Duration{time.Second, time.Minute, time.Hour, 48 * time.Hour, 1500 * time.Millisecond}[g.r.N(5)]
		}
	}
	for i := range c.Clients {
		e := &c.Clients[i]
		if g.chance(0.4) && e.Secret != "" {
			e.Secret = g.pick("peer", "foo", e.Secret+"2")
		}
		if g.chance(0.3) {
			e.Redirect = redirects[g.r.N(len(redirects))]
		}
		if g.chance(0.2) {
			e.ID += "2"
		}
	}
	for i := range c.Users {
		if g.chance(0.4) {
			c.Users[i].Secret = g.pick("peer", "foo", "")
		}
	}
	return c
}

func (g *gen) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := g.r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// miss returns a string close to but (usually) different from s.
func (g *gen) miss(s string) string {
	switch g.r.N(15) {
	case 13:
		if len(s) > 0 {
			return s[:len(s)-1] + string([]byte{s[len(s)-1] ^ 1})
		}
		return "z"
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
		return "x"
	case 5:
		if len(s) > 0 {
			return s[1:]
		}
		return "x"
	case 6:
		return s + "x"
	case 7:
		return s + "\x00"
	case 8:
		return ""
	case 9:
		return s + s
	case 10:
		return s + "\n"
	case 11:
		return url.QueryEscape(s) + "%20"
	case 12:
		if len(s) > 1 {
			b := []byte(s)
			b[0], b[1] = b[1], b[0]
			return string(b)
		}
		return s + "y"
	default:
		return g.pick("foo", "bar", "null", "undefined", "*", "0", "true", "admin")
	}
}

// uriMiss returns a redirect URI close to u.
func (g *gen) uriMiss(u string) string {
	switch g.r.N(18) {
	case 0:
		return u + "/"
	case 1:
		return strings.TrimSuffix(u, "/")
	case 2:
		return u + "x"
	case 3:
		if len(u) > 2 {
			return u[:len(u)-1]
		}
	case 4:
		if i := strings.IndexByte(u, '?'); i >= 0 {
			return u[:i]
		}
		return u + "?x=1"
	case 5:
		if strings.Contains(u, "?") {
			return u + "&z=1"
		}
		return u + "?"
	case 6:
		if strings.HasPrefix(u, "http://") {
			return "https://" + u[7:]
		}
		return "http://evil.example/cb"
	case 7:
		return strings.ToUpper(u[:1]) + u[1:]
	case 8:
		return u + "#frag"
	case 9:
		return u + "/../cb"
	case 10:
		return strings.Replace(u, "example", "example.evil", 1)
	case 11:
		return strings.Replace(u, "://", "://evil@", 1)
	case 12:
		return "//" + strings.TrimPrefix(strings.TrimPrefix(u, "http://"), "https://")
	case 13:
		return u + "%20"
	case 14:
		return strings.Replace(u, ".", "%2E", 1)
	case 15:
		return g.pick("", "foo", "https://evil.example/", "javascript:alert(1)", "%zz", "http://exa mple.com/", "data:text/html,x")
	case 16:
		if i := strings.Index(u, "://"); i >= 0 {
			if j := strings.IndexByte(u[i+3:], '/'); j >= 0 {
				return u[:i+3+j] + ":80" + u[i+3+j:]
			}
		}
		return u + " "
	default:
		return redirects[g.r.N(len(redirects))]
	}
	return u + "y"
}

// Next produces the next round.
func (g *gen) Next(w *World) *Round {
	if len(g.queue) == 0 {
		switch g.phase {
		case 0:
			if g.rounds <= 0 {
				g.phase = 1
				if g.audit {
					g.makeAudit(w)
					if w.peer != nil && g.chance(0.5) {
						g.tenant = 1
						g.makeAudit(w.peer)
						g.tenant = 0
					}
				}
				break
			}
			g.rounds--
			r := g.round(w)
			g.queue = append(g.queue, r)
		case 1:
			return nil
		}
		if len(g.queue) == 0 {
			if g.phase == 1 {
				return nil
			}
		}
	}
	r := g.queue[0]
	g.queue = g.queue[1:]
	g.sc.Rounds = append(g.sc.Rounds, r)
	return r
}

func (g *gen) newOp() *Op {
	o := &Op{ID: g.op, Method: "POST", Tenant: g.tenant}
	g.op++
	return o
}

func (g *gen) round(w *World) *Round {
	r := &Round{}
	if g.chance(g.p.Wait) {
		if c := g.anyCred(w); c != nil && g.chance(g.p.Edge) {
			ds := []time.Duration{-1, 1, 0, -time.Second, time.Second, -time.Millisecond, time.Millisecond, 500 * time.Millisecond, -500 * time.Millisecond, -2, 999 * time.Millisecond}
			r.Wait = Wait{Ref: &Ref{Op: c.op, Kind: c.kind, Copy: c.copy}, Delta: ds[g.r.N(len(ds))]}
		} else {
			ds := []time.Duration{1, time.Millisecond, time.Second, 5 * time.Second, time.Minute, 9 * time.Minute, time.Hour, 30 * time.Minute, 25 * time.Hour}
			r.Wait.D = ds[g.r.N(len(ds))]
		}
	}
	if g.chance(g.p.Restart) {
		r.Restart = true
	}
	if g.chance(g.p.Clock) {
		ds := []time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour, time.Duration(g.r.N(1 << 30))}
		r.Clock = ds[g.r.N(len(ds))]
		if c := g.anyCred(w); c != nil && g.chance(0.4) && time.Until(c.hi) < 1000*24*time.Hour {
			r.Clock = time.Until(c.hi) + time.Second
		}
		if g.chance(0.5) {
			r.Clock = -r.Clock
		}
	}
	for _, x := range w.all() {
		if g.chance(g.p.Admin) {
			r.Admin = append(r.Admin, g.admin(x, x != w))
		}
	}
	main := w
	if w.peer != nil && g.chance(0.4) {
		w, g.tenant = w.peer, 1
	}
	defer func() { g.tenant = 0 }()
	if g.chance(g.p.Repeat) {
		r.Ops = []*Op{g.repeated(w)}
		return r
	}
	if g.early > 0 && len(w.creds) > g.early+15 && g.chance(0.4) {
		// what has become of the old ones?
		if ops := g.about(w, w.creds[g.r.N(g.early)], 1); len(ops) > 0 {
			r.Ops = ops
			return r
		}
	}
	if !g.chance(g.p.Conc) {
		r.Ops = []*Op{g.oneOp(w)}
		return r
	}
	if main.peer != nil && g.chance(0.6) {
		// both servers are busy
		defer func() {
			o := main
			if g.tenant = 1 - g.tenant; g.tenant == 1 {
				o = main.peer
			}
			for i := 0; i < 1+g.r.N(2); i++ {
				r.Ops = append(r.Ops, g.oneOp(o))
			}
		}()
	}
	n := 2 + g.r.N(3)
	if g.chance(0.1) {
		n++
	}
	if g.chance(g.p.Burst) {
		if ops := g.burst(w, n); len(ops) > 0 {
			r.Ops = ops
			return r
		}
	}
	for i := 0; i < n; i++ {
		r.Ops = append(r.Ops, g.oneOp(w))
	}
	return r
}

// admin makes a change to a client or user.
func (g *gen) admin(w *World, peer bool) Admin {
	a := Admin{New: g.p.Name != "C02" && g.chance(0.5)}
	if peer {
		a.Tenant = 1
	}
	i := g.r.N(len(w.cfg.Clients))
	if x := g.anyCred(w); x != nil && g.chance(0.5) {
		for j := range w.cfg.Clients {
			if w.cfg.Clients[j].ID == x.client {
				i = j
			}
		}
	}
	c := &w.cfg.Clients[i]
	a.ID = c.ID
	other := g.anyClient(w)
	switch g.r.N(10) {
	case 0, 1, 2, 3:
		a.Kind, a.V = "secret", g.pick(g.miss(c.Secret), c.Secret+"2", "rotated", other.Secret)
		if len(w.oldSec) > 0 && g.chance(0.3) {
			a.V = w.oldSec[g.r.N(len(w.oldSec))]
		}
		if c.Confidential && a.V == "" {
			a.V = "rotated"
		}
	case 4, 5:
		a.Kind, a.V = "redirect", redirects[g.r.N(len(redirects))]
		if g.chance(0.4) {
			a.V = g.uriMiss(c.Redirect)
		}
		if len(w.oldURI) > 0 && g.chance(0.3) {
			a.V = w.oldURI[g.r.N(len(w.oldURI))]
		}
		if !registrable(a.V) {
			a.V = "https://moved.example/cb"
		}
	case 6:
		a.Kind = "confidential"
		if c.Confidential && i > 0 {
			a.Kind = "public"
		}
	case 7, 8:
		u := g.anyUser(w)
		a.Kind, a.ID, a.V = "password", u.ID, g.pick(g.miss(u.Secret), u.Secret+"2", "changed", c.Secret, g.anyUser(w).Secret)
		if len(w.oldSec) > 0 && g.chance(0.3) {
			a.V = w.oldSec[g.r.N(len(w.oldSec))]
		}
		if a.V == "" {
			a.V = "changed"
		}
	case 9:
		if g.p.Name == "C02" {
			a.Kind = "public"
			break
		}
		if i > 0 && len(w.cfg.Clients) > 2 && g.chance(0.6) {
			a.Kind = "remove"
			break
		}
		a.Kind, a.ID, a.V, a.URI = "add", g.pick("newcomer", g.miss(c.ID)), g.pick("fresh", c.Secret, "rotated"), c.Redirect
		if len(w.gone) > 0 && g.chance(0.7) {
			x := w.gone[g.r.N(len(w.gone))]
			a.ID, a.V, a.URI = x.ID, g.pick(x.Secret, "fresh"), x.Redirect
		}
		if a.V == "" {
			a.V = "fresh"
		}
		if strings.Contains(a.ID, ":") || a.ID == "" || !utf8.ValidString(a.ID) {
			a.ID = "newcomer"
		}
	}
	return a
}

// repeated makes one request that is sent many times, to reach whatever counts
// requests, credentials or failures.
func (g *gen) repeated(w *World) *Op {
	o := g.oneOp(w)
	o.F = Fault{}
	o.Via = ""
	x := g.r.F()
	if len(w.creds) > 150 {
		x = 1 // once is enough
	}
	o.Repeat = 3 + g.r.N(10)
	defer func() {
		if o.Repeat >= 20 && g.early == 0 {
			g.early = len(w.creds)
			g.rounds += 4
		}
	}()
	if x < 0.3 {
		o.Repeat = 10 + g.r.N(70)
	}
	if x < 0.06 && g.p.Big {
		o.Repeat = int(80 * math.Pow(2, 4.5*g.r.F()))
	}
	for i := range o.Body {
		if b := &o.Body[i]; b.Ref != nil && b.Ref.Mut == "" && b.Ref.Lit == "" {
			switch {
			case b.K == "refresh_token" && g.chance(0.6):
				b.Ref.Last = o.ID + 1 // a chain
			case g.chance(0.4):
				b.Ref.Step = true
			}
		}
	}
	if r := o.Auth.Ref; r != nil && r.Mut == "" && r.Lit == "" && g.chance(0.4) {
		r.Step = true
	}
	if x < 1 && g.chance(0.2) {
		// always with the same fault
		switch g.r.N(5) {
		case 0:
			o.F.Cancel = []int{1, 2, 4}[g.r.N(3)]
		case 1:
			o.F.Trunc = 1 + g.r.N(100)
		case 2:
			o.F.WriteFail = 1 + g.r.N(40)
		case 3:
			o.F.EntFail = 1 + g.r.N(2*w.cfg.KeyLen+2)
		case 4:
			if o.Repeat < 40 {
				o.F.StallAt = 1 + g.r.N(60)
				o.F.StallFor = 1 + g.r.N(3)
			}
		}
	}
	// concern all of a large number of credentials
	if n := len(w.creds); n > 150 && g.chance(0.5) {
		g.all(w, o)
	}
	return o
}

// all makes a repeated request go through all credentials.
func (g *gen) all(w *World, o *Op) {
	for i := range o.Body {
		if r := o.Body[i].Ref; r != nil && r.Mut == "" && r.Lit == "" {
			g.first(w, r)
			o.Repeat = len(w.creds)
		}
	}
	if r := o.Auth.Ref; r != nil && r.Mut == "" && r.Lit == "" {
		g.first(w, r)
		o.Repeat = len(w.creds)
	}
}

func (g *gen) first(w *World, r *Ref) {
	for _, c := range w.creds {
		if c.kind == r.Kind {
			*r = Ref{Op: c.op, Kind: c.kind, Copy: c.copy, Step: true}
			return
		}
	}
}

// burst makes n requests that concern one credential.
func (g *gen) burst(w *World, n int) []*Op {
	c := g.cred(w, "", 0.85)
	if c == nil {
		return nil
	}
	return g.about(w, c, n)
}

// about makes n requests that concern a credential.
func (g *gen) about(w *World, c *cred, n int) []*Op {
	var ops []*Op
	for i := 0; i < n; i++ {
		t := ""
		switch c.kind {
		case "code":
			t = g.pick("exchange", "exchange", "exchange", "exchange", "introspect", "usechild", "introchild", "revchild", "refchild")
		case "refresh":
			t = g.pick("refresh", "refresh", "refresh", "revoke", "introspect", "replay", "apisib")
		default:
			t = g.pick("api", "api", "revoke", "revoke", "introspect", "replay", "refsib")
		}
		ops = append(ops, g.aimed(w, t, c))
	}
	return ops
}

func (g *gen) child(w *World, code *cred, kind string) *cred {
	var l []*cred
	for _, c := range w.creds {
		if c.root == code.idx && c.kind == kind {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.r.N(len(l))]
}

// aimed makes an operation of a kind about a given credential.
func (g *gen) aimed(w *World, t string, c *cred) *Op {
	switch t {
	case "usechild", "introchild", "revchild":
		if k := g.child(w, c, "access"); k != nil {
			return g.fin(w, g.mk(w, map[string]string{"usechild": "api", "introchild": "introspect", "revchild": "revoke"}[t], k))
		}
		return g.fin(w, g.mk(w, "exchange", c))
	case "refchild":
		if k := g.child(w, c, "refresh"); k != nil {
			return g.fin(w, g.mk(w, "refresh", k))
		}
		return g.fin(w, g.mk(w, "exchange", c))
	case "replay":
		if c.root >= 0 {
			return g.fin(w, g.mk(w, "exchange", w.creds[c.root]))
		}
		if c.kind == "refresh" {
			return g.fin(w, g.mk(w, "refresh", c))
		}
		return g.fin(w, g.mk(w, "api", c))
	case "apisib", "refsib":
		kind := map[string]string{"apisib": "access", "refsib": "refresh"}[t]
		for _, x := range w.creds {
			if x.exec == c.exec && x.kind == kind {
				return g.fin(w, g.mk(w, map[string]string{"access": "api", "refresh": "refresh"}[kind], x))
			}
		}
		return g.fin(w, g.mk(w, "introspect", c))
	}
	return g.fin(w, g.mk(w, t, c))
}

func (g *gen) oneOp(w *World) *Op {
	keys := []string{"password", "cc", "code", "implicit", "get", "exchange", "refresh", "introspect", "revoke", "api", "junk", "lib"}
	t := 0
	for _, k := range keys {
		t += g.p.W[k]
	}
	x := g.r.N(t)
	k := ""
	for _, k = range keys {
		if x -= g.p.W[k]; x < 0 {
			break
		}
	}
	return g.fin(w, g.mk(w, k, nil))
}

func (g *gen) live(w *World, c *cred) bool {
	return w.dyn[0][c.idx] == sLive && !time.Now().After(c.lo)
}

// cred picks a credential of a kind ("" any), usable with probability p if
// there is one, with a bias to recent ones.
func (g *gen) cred(w *World, kind string, p float64) *cred {
	want := g.chance(p)
	var l, m []*cred
	for _, c := range g.choice(w) {
		if kind != "" && c.kind != kind {
			continue
		}
		m = append(m, c)
		if g.live(w, c) == want {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		l = m
	}
	if len(l) == 0 && g.early > 0 {
		for _, c := range w.creds {
			if kind == "" || c.kind == kind {
				l = append(l, c)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	if g.chance(0.4) {
		return l[len(l)-1]
	}
	return l[g.r.N(len(l))]
}

// choice returns the credentials to choose from: often the few that were there
// before a request has been sent many times.
func (g *gen) choice(w *World) []*cred {
	if g.early > 0 && len(w.creds) > g.early+15 && g.chance(0.5) {
		return w.creds[:g.early]
	}
	return w.creds
}

func (g *gen) anyCred(w *World) *cred {
	if len(w.creds) == 0 {
		return nil
	}
	if l := g.choice(w); len(l) < len(w.creds) {
		return l[g.r.N(len(l))]
	}
	if g.chance(0.5) {
		return w.creds[len(w.creds)-1-g.r.N(min(len(w.creds), 3))]
	}
	return w.creds[g.r.N(len(w.creds))]
}

// ref makes a reference to a credential, sometimes altered.
func (g *gen) ref(w *World, c *cred) *Ref {
	if w.peer != nil && g.chance(0.1) {
		kind := ""
		if c != nil && g.chance(0.8) {
			kind = c.kind
		}
		if o := g.cred(w.peer, kind, 0.9); o != nil {
			return &Ref{Op: o.op, Kind: o.kind, Copy: o.copy, Peer: true}
		}
	}
	if c == nil {
		if gh := g.ghost(w); gh != nil && g.chance(0.5) {
			return gh
		}
		return &Ref{Lit: g.pick("foo.bar", ".", "..", "AAAA.BBBB", `a"b`, `x.y", error="insufficient_scope", z="`, `\`, makeTok(w.cfg.Secret, []byte("0123456789abcdef")), "x")}
	}
	r := &Ref{Op: c.op, Kind: c.kind, Copy: c.copy}
	if g.chance(g.p.Mut) {
		if g.chance(0.25) {
			// another kind of credential
			if o := g.cred(w, "", 0.8); o != nil {
				return &Ref{Op: o.op, Kind: o.kind, Copy: o.copy}
			}
		}
		if gh := g.ghost(w); gh != nil && g.chance(0.3) {
			return gh
		}
		m := mutations[g.r.N(len(mutations))]
		switch m {
		case "flip", "resign", "case", "cutsig":
			m = fmt.Sprintf("%s:%d", m, g.r.N(512))
		case "shortkey":
			m = fmt.Sprintf("%s:%d", m, g.r.N(w.cfg.KeyLen))
		case "sigof":
			o := w.creds[g.r.N(len(w.creds))]
			m = fmt.Sprintf("sigof:%d/%s", o.op, o.kind)
		}
		r.Mut = m
	}
	return r
}

func (g *gen) ghost(w *World) *Ref {
	var l []*exec
	for _, e := range w.past {
		if len(e.ghost) > 0 {
			l = append(l, e)
		}
	}
	if len(l) == 0 {
		return nil
	}
	e := l[g.r.N(len(l))]
	return &Ref{Op: e.op.ID, Ghost: 1 + g.r.N(len(e.ghost))}
}

func (g *gen) confClient(w *World) *Entity {
	for i := 0; i < 8; i++ {
		c := &w.cfg.Clients[g.r.N(len(w.cfg.Clients))]
		if c.Confidential {
			return c
		}
	}
	return &w.cfg.Clients[0]
}

func (g *gen) anyClient(w *World) *Entity { return &w.cfg.Clients[g.r.N(len(w.cfg.Clients))] }

func (g *gen) anyUser(w *World) *Entity { return &w.cfg.Users[g.r.N(len(w.cfg.Users))] }

// scope picks a scope to request from a parent list.
func (g *gen) scope(from []string, dev bool) string {
	var l []string
	p := g.perm(len(from))
	n := 0
	if len(from) > 0 {
		n = g.r.N(len(from) + 1)
	}
	for i := 0; i < n; i++ {
		l = append(l, from[p[i]])
	}
	if dev {
		x := scopeWords[g.r.N(len(scopeWords))]
		if len(from) > 0 && g.chance(0.6) {
			x = strings.NewReplacer(" ", "", "\x00", "", "\n", "").Replace(g.miss(from[g.r.N(len(from))]))
		}
		l = append(l, x)
		if g.chance(0.3) {
			l[0], l[len(l)-1] = l[len(l)-1], l[0]
		}
	}
	s := strings.Join(l, " ")
	switch g.r.N(14) {
	case 12:
		s = strings.Join(l, " \t ")
	case 13:
		s = g.pick("\n ", " \t", "\r\n ", "\u00a0 ") + s
	case 0:
		s = strings.Join(l, "  ")
	case 1:
		s = " " + s
	case 2:
		s = s + " "
	case 3:
		if len(l) > 0 {
			s = s + " " + l[0]
		}
	}
	return s
}

// authFor sets the client authentication of a request.
func (g *gen) authFor(o *Op, c *Entity, formOK bool) {
	if formOK && g.chance(0.3) {
		o.Body = append(o.Body, KV{K: "client_id", V: c.ID})
		if c.Confidential || (c.Secret != "" && g.chance(0.3)) {
			o.Body = append(o.Body, KV{K: "client_secret", V: c.Secret})
		}
		return
	}
	o.Auth = Auth{Style: "basic", ID: c.ID, Secret: c.Secret}
	if !c.Confidential && g.chance(0.5) {
		o.Auth.Secret = ""
	}
	if g.chance(0.1) {
		o.Auth.Scheme = g.pick("basic", "BASIC", "bAsIc")
	}
}

// spoilAuth makes the client authentication of a request wrong.
func (g *gen) spoilAuth(w *World, o *Op, c *Entity, formOK bool) {
	// remove what is there
	o.Auth = Auth{}
	var b []KV
	for _, p := range o.Body {
		if p.K != "client_id" && p.K != "client_secret" {
			b = append(b, p)
		}
	}
	o.Body = b
	id, sec := c.ID, c.Secret
	other := g.anyClient(w)
	k := g.r.N(12)
	if len(w.oldSec) > 0 && g.chance(0.5) {
		// what was right once
		sec, k = w.oldSec[g.r.N(len(w.oldSec))], 12
	}
	if len(w.gone) > 0 && g.chance(0.2) {
		x := &w.gone[g.r.N(len(w.gone))]
		id, sec, k = x.ID, x.Secret, 12
	}
	switch k {
	case 0, 1, 2:
		sec = g.miss(sec)
	case 3:
		id = g.miss(id)
	case 4:
		sec = other.Secret
	case 5:
		id = other.ID
	case 6:
		id, sec = sec, id
	case 7:
		// credentials in the URL query
		o.Query = append(o.Query, KV{K: "client_id", V: id}, KV{K: "client_secret", V: sec})
		if g.chance(0.5) {
			o.Body = append(o.Body, KV{K: "client_id", V: id})
		}
		return
	case 8:
		return // none
	case 9:
		o.Auth = Auth{Style: "raw", Raw: g.pick("Basic", "Basic !!!", "Basic Zm9v", "Bearer foo", "Basic "+"Zm9vOmJhcg==", "Digest x", "basic")}
		return
	case 10:
		// right credentials in the body, another client in the header
		if formOK {
			o.Body = append(o.Body, KV{K: "client_id", V: id}, KV{K: "client_secret", V: sec})
			o.Auth = Auth{Style: "basic", ID: other.ID, Secret: other.Secret}
			return
		}
		sec = ""
	case 11:
		sec = ""
	}
	if strings.Contains(id, ":") {
		id = strings.ReplaceAll(id, ":", "")
	}
	if formOK && g.chance(0.4) {
		o.Body = append(o.Body, KV{K: "client_id", V: id})
		if sec != "" || g.chance(0.5) {
			o.Body = append(o.Body, KV{K: "client_secret", V: sec})
		}
		return
	}
	o.Auth = Auth{Style: "basic", ID: id, Secret: sec}
}

// moveToQuery moves a body parameter into the URL query.
func moveToQuery(o *Op, k string) {
	for i, p := range o.Body {
		if p.K == k {
			o.Body = append(o.Body[:i:i], o.Body[i+1:]...)
			o.Query = append(o.Query, p)
			return
		}
	}
}

func set(o *Op, k, v string) {
	for i := range o.Body {
		if o.Body[i].K == k {
			o.Body[i].V = v
			o.Body[i].Ref = nil
			return
		}
	}
	o.Body = append(o.Body, KV{K: k, V: v})
}

func del(o *Op, k string) {
	for i := range o.Body {
		if o.Body[i].K == k {
			o.Body = append(o.Body[:i:i], o.Body[i+1:]...)
			return
		}
	}
}

// mk makes one operation; c aims it at a credential.
func (g *gen) mk(w *World, t string, c *cred) *Op {
	o := g.newOp()
	o.Note = t
	badp := g.chance(g.p.Bad)
	if g.soak {
		badp = g.chance(0.05)
	}
	switch t {
	case "password":
		o.Path = "/oauth2/token"
		cl, u := g.anyClient(w), g.anyUser(w)
		o.Body = []KV{{K: "grant_type", V: "password"}, {K: "username", V: u.ID}, {K: "password", V: u.Secret}}
		dev := -1
		if badp {
			dev = g.r.N(8)
		}
		if s := g.scope(w.cfg.Allowed, dev == 0 || dev == 7); s != "" || g.chance(0.2) {
			o.Body = append(o.Body, KV{K: "scope", V: s})
		}
		g.authFor(o, cl, true)
		switch dev {
		case 1, 2:
			g.spoilAuth(w, o, cl, true)
		case 3:
			set(o, "password", g.miss(u.Secret))
			if len(w.oldSec) > 0 && g.chance(0.5) {
				set(o, "password", w.oldSec[g.r.N(len(w.oldSec))])
			}
		case 4:
			set(o, "username", g.pick(g.miss(u.ID), cl.ID, "", g.anyUser(w).ID))
		case 5:
			moveToQuery(o, g.pick("username", "password", "grant_type"))
		case 6:
			set(o, "password", g.pick(cl.Secret, g.anyUser(w).Secret, ""))
		case 7:
			g.spoilAuth(w, o, cl, true)
		}
	case "cc":
		o.Path = "/oauth2/token"
		cl := g.confClient(w)
		dev := -1
		if badp {
			dev = g.r.N(4)
		}
		o.Body = []KV{{K: "grant_type", V: "client_credentials"}}
		if s := g.scope(w.cfg.Allowed, dev == 0); s != "" || g.chance(0.2) {
			o.Body = append(o.Body, KV{K: "scope", V: s})
		}
		if dev == 1 {
			cl = g.anyClient(w)
		}
		g.authFor(o, cl, true)
		if dev >= 2 {
			g.spoilAuth(w, o, cl, true)
		}
	case "code", "implicit", "get":
		g.mkAuthorize(w, o, t, badp)
	case "exchange":
		g.mkExchange(w, o, c, badp)
	case "refresh":
		g.mkRefresh(w, o, c, badp)
	case "introspect", "revoke":
		g.mkLookup(w, o, t, c, badp)
	case "lib":
		g.mkLib(w, o)
	case "api":
		o.Method = g.pick("GET", "GET", "POST", "DELETE")
		if c == nil {
			c = g.cred(w, "access", 0.75)
		}
		n := g.r.N(len(w.cfg.APIs))
		if c != nil && g.chance(0.6) {
			for i := 0; i < 4 && !includes(c.scope, w.cfg.APIs[n]); i++ {
				n = g.r.N(len(w.cfg.APIs))
			}
		}
		o.Path = fmt.Sprintf("/api/%d", n)
		if c != nil {
			o.Auth = Auth{Style: "bearer", Ref: g.ref(w, c)}
		} else {
			o.Auth = Auth{Style: "bearer", Ref: g.ref(w, nil)}
		}
		if g.chance(0.15) {
			o.Auth.Scheme = g.pick("bearer ", "BEARER ", "bEaReR ")
		}
		if badp && g.chance(0.4) {
			switch g.r.N(7) {
			case 0:
				o.Auth.Scheme = g.pick("Bearer  ", "Token ", "Bearer", "Bearer\t", "Basic ", "", "Bearer:", "BearerX ")
				if o.Auth.Scheme == "" {
					o.Auth.Style, o.Auth.Raw = "raw", w.resolve(o.Auth.Ref)
				}
			case 1:
				o.Query = []KV{{K: "access_token", Ref: o.Auth.Ref}}
				o.Auth = Auth{}
			case 2:
				o.Method = "POST"
				o.Body = []KV{{K: "access_token", Ref: o.Auth.Ref}}
				o.Auth = Auth{}
			case 3:
				o.Auth = Auth{}
			case 4:
				o.Auth = Auth{Style: "raw", Raw: g.pick("Bearer", "Bearer ", "Bearer x", "Bearer .", "B", "Bearer a.b", "Bearer ..", "bearer")}
			case 5:
				o.Auth = Auth{Style: "basic", ID: w.cfg.Clients[0].ID, Secret: w.cfg.Clients[0].Secret}
			case 6:
				if x := g.cred(w, g.pick("refresh", "code"), 0.9); x != nil {
					o.Auth.Ref = &Ref{Op: x.op, Kind: x.kind, Copy: x.copy}
				}
			}
		}
	default:
		g.mkJunk(w, o)
	}
	return o
}

func (g *gen) mkAuthorize(w *World, o *Op, t string, badp bool) {
	o.Path = "/oauth2/authorize"
	cl, u := g.anyClient(w), g.anyUser(w)
	rt := "code"
	if t == "implicit" {
		rt = "token"
	}
	if t == "get" {
		o.Method = "GET"
		rt = g.pick("code", "token")
	}
	dev := -1
	if badp {
		dev = g.r.N(12)
	}
	st := states[g.r.N(len(states))]
	if g.chance(0.2) {
		b := make([]rune, g.r.N(40))
		for i := range b {
			b[i] = rune(32 + g.r.N(200))
		}
		st = string(b)
	}
	ps := []KV{{K: "response_type", V: rt}, {K: "client_id", V: cl.ID}, {K: "redirect_uri", V: cl.Redirect, Esc: true}}
	if !strings.ContainsAny(cl.Redirect, "%+") && g.chance(0.3) {
		ps[2].Esc = false
	}
	if st != "" || g.chance(0.5) {
		ps = append(ps, KV{K: "state", V: st})
	}
	if s := g.scope(w.cfg.Allowed, dev == 0 || dev == 11); s != "" || g.chance(0.2) {
		ps = append(ps, KV{K: "scope", V: s})
	}
	switch dev {
	case 1, 2:
		ps[2].V = g.uriMiss(cl.Redirect)
	case 3:
		ps[2].V = g.anyClient(w).Redirect
	case 4:
		ps[1].V = g.pick(g.miss(cl.ID), g.anyClient(w).ID, "nope")
	case 5:
		ps[0].V = g.pick("", "Code", "code token", "id_token", "token ", "none")
	}
	up := []KV{{K: "username", V: u.ID}, {K: "password", V: u.Secret}}
	switch dev {
	case 6, 11:
		up[1].V = g.miss(u.Secret)
	case 7:
		up[0].V = g.pick(g.miss(u.ID), cl.ID, "")
	case 8:
		up[1].V = g.pick(cl.Secret, g.anyUser(w).Secret, "")
	}
	if badp && len(w.oldSec) > 0 && g.chance(0.3) {
		up[1].V = w.oldSec[g.r.N(len(w.oldSec))]
	}
	if badp && len(w.oldURI) > 0 && g.chance(0.3) {
		ps[2].V = w.oldURI[g.r.N(len(w.oldURI))]
	}
	if o.Method == "GET" {
		o.Query = append(ps, up...)
		return
	}
	if g.chance(0.4) {
		o.Query = ps
		o.Body = up
	} else {
		o.Body = append(ps, up...)
	}
	switch dev {
	case 9:
		moveToQuery(o, g.pick("username", "password"))
	case 10:
		o.Method = g.pick("PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "GET")
	}
}

func (g *gen) mkExchange(w *World, o *Op, c *cred, badp bool) {
	o.Path = "/oauth2/token"
	if c == nil {
		c = g.cred(w, "code", 0.65)
	}
	cl := g.anyClient(w)
	ru := cl.Redirect
	if c != nil {
		if x := w.client(c.client); x != nil {
			cl = x
		}
		ru = c.redirect
		if c.kind != "code" {
			ru = cl.Redirect
		}
	}
	o.Body = []KV{{K: "grant_type", V: "authorization_code"}, {K: "code", Ref: g.ref(w, c)}, {K: "redirect_uri", V: ru, Esc: true}}
	if !strings.ContainsAny(ru, "%+") && g.chance(0.3) {
		o.Body[2].Esc = false
	}
	if ru == "" {
		o.Body = o.Body[:2]
	}
	if g.chance(0.1) {
		o.Body = append(o.Body, KV{K: "scope", V: g.scope(w.cfg.Allowed, true)})
	}
	if !badp {
		g.authFor(o, cl, true)
		return
	}
	switch g.r.N(9) {
	case 0, 1: // another client, authenticated correctly
		other := g.anyClient(w)
		g.authFor(o, other, true)
		if g.chance(0.3) {
			set(o, "redirect_uri", other.Redirect)
		}
	case 2, 3:
		g.authFor(o, cl, true)
		set(o, "redirect_uri", g.uriMiss(ru))
		if len(w.oldURI) > 0 && g.chance(0.5) {
			set(o, "redirect_uri", g.pick(cl.Redirect, w.oldURI[g.r.N(len(w.oldURI))]))
		}
	case 4:
		g.authFor(o, cl, true)
		if g.chance(0.5) {
			del(o, "redirect_uri")
		} else {
			set(o, "redirect_uri", g.anyClient(w).Redirect)
		}
	case 5, 6:
		g.spoilAuth(w, o, cl, true)
	case 7:
		g.authFor(o, cl, true)
		moveToQuery(o, g.pick("code", "grant_type", "redirect_uri"))
	case 8:
		g.authFor(o, cl, true)
		o.Body[0].V = g.pick("refresh_token", "password", "Authorization_code", "authorization_code ", "code", "")
	}
}

func (g *gen) mkRefresh(w *World, o *Op, c *cred, badp bool) {
	o.Path = "/oauth2/token"
	if c == nil {
		c = g.cred(w, "refresh", 0.7)
	}
	cl := g.anyClient(w)
	from := w.cfg.Allowed
	if c != nil {
		if x := w.client(c.client); x != nil {
			cl = x
		}
		from = c.scope
	}
	o.Body = []KV{{K: "grant_type", V: "refresh_token"}, {K: "refresh_token", Ref: g.ref(w, c)}}
	if g.chance(0.5) {
		o.Body = append(o.Body, KV{K: "scope", V: g.scope(from, false)})
	}
	if !badp {
		g.authFor(o, cl, true)
		return
	}
	switch g.r.N(7) {
	case 0, 1:
		g.authFor(o, g.anyClient(w), true)
	case 2, 3:
		g.authFor(o, cl, true)
		x := from
		if g.chance(0.6) {
			x = w.cfg.Allowed
		}
		set(o, "scope", g.scope(x, g.chance(0.5)))
	case 4, 5:
		g.spoilAuth(w, o, cl, true)
	case 6:
		g.authFor(o, cl, true)
		moveToQuery(o, g.pick("refresh_token", "grant_type"))
	}
}

func (g *gen) mkLookup(w *World, o *Op, t string, c *cred, badp bool) {
	o.Path = "/oauth2/" + t
	if c == nil {
		p := 0.7
		kind := g.pick("access", "access", "refresh", "refresh", "")
		if t == "revoke" {
			p = 0.85
		}
		c = g.cred(w, kind, p)
	}
	cl := g.anyClient(w)
	if c != nil {
		if x := w.client(c.client); x != nil {
			cl = x
		}
	}
	o.Body = []KV{{K: "token", Ref: g.ref(w, c)}}
	switch g.r.N(5) {
	case 0:
		o.Body = append(o.Body, KV{K: "token_type_hint", V: "access_token"})
	case 1:
		o.Body = append(o.Body, KV{K: "token_type_hint", V: "refresh_token"})
	}
	if !badp {
		g.authFor(o, cl, false)
		return
	}
	switch g.r.N(7) {
	case 0, 1, 2:
		g.authFor(o, g.anyClient(w), false)
	case 3, 4:
		g.spoilAuth(w, o, cl, false)
	case 5:
		g.authFor(o, cl, false)
		moveToQuery(o, "token")
	case 6:
		g.authFor(o, cl, false)
		set(o, "token_type_hint", g.pick("code", "Access_token", "id_token", "bearer", "access", "x"))
	}
}

func (g *gen) mkJunk(w *World, o *Op) {
	o.Note = "junk"
	eps := []string{"/oauth2/authorize", "/oauth2/token", "/oauth2/introspect", "/oauth2/revoke", "/api/0", "/api/1"}
	// start from a sensible request and damage it
	base := g.mk(w, g.pick("password", "cc", "code", "implicit", "exchange", "refresh", "introspect", "revoke", "api"), nil)
	g.op--
	id := o.ID
	*o = *base
	o.ID = id
	o.Note = "junk " + base.Note
	switch g.r.N(16) {
	case 0:
		o.RawB = g.pick("%zz", "a=%", "a=b;c=d", "&&&", "=", "%", "grant_type=password&%", "grant_type=%zz", "token=%zz", "\x00\x01", "grant_type", strings.Repeat("a=b&", 300))
	case 1:
		o.RawQ = g.pick("%zz", "a=%", "a;b", "response_type=code&%zz", "=", "scope=%")
	case 2:
		o.CT = g.pick("-", "application/json", "multipart/form-data", "multipart/form-data; boundary=x", "text/plain", ";", "application/x-www-form-urlencoded; charset=utf-8", "APPLICATION/X-WWW-FORM-URLENCODED", "application/x-www-form-urlencoded;;", "/")
	case 3:
		o.Method = g.pick("GET", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "FOO", "post")
	case 4:
		o.Path = g.oddPath(o.Path)
	case 5:
		// drop a parameter
		if len(o.Body) > 0 {
			i := g.r.N(len(o.Body))
			o.Body = append(o.Body[:i:i], o.Body[i+1:]...)
		}
	case 6:
		// empty a parameter
		if len(o.Body) > 0 {
			i := g.r.N(len(o.Body))
			o.Body = append([]KV(nil), o.Body...)
			o.Body[i] = KV{K: o.Body[i].K}
		}
	case 7:
		o.Auth = Auth{Style: "raw", Raw: g.pick("Basic", "Basic ", "Basic Og==", "Basic Zm9v", "Basic =", "Bearer", "Bearer ", " ", "B", "Basic "+strings.Repeat("A", 4000))}
	case 8:
		if len(o.Body) > 0 {
			i := g.r.N(len(o.Body))
			o.Body = append([]KV(nil), o.Body...)
			o.Body[i] = KV{K: o.Body[i].K, V: g.pick(strings.Repeat("x", 5000), "\x00", "ä€", "%00", "null", ".", "..", "a.b.c", " ", "-1", "\xff\xfe")}
		}
	case 9:
		o.Path = eps[g.r.N(len(eps))]
	case 10:
		o.Body = nil
		o.Query = nil
	case 11:
		// token with a hostile shape
		for i := range o.Body {
			if o.Body[i].Ref != nil {
				o.Body = append([]KV(nil), o.Body...)
				o.Body[i].Ref = &Ref{Lit: g.pick(".", "..", "a.", ".a", "a.b.c", "=.=", "====", strings.Repeat("A", 10000)+".AAAA", "\x00.\x00", "%.%", "A.A", `".\"`, "a\tb", `\`, `", scope="x`, "AA.AA", "😀.😀")}
			}
		}
	case 12:
		o.Hdr = append(o.Hdr, KV{K: "Authorization", V: "Bearer x.y"})
	case 13:
		set(o, "grant_type", g.pick("", "implicit", "PASSWORD", "urn:ietf:params:oauth:grant-type:jwt-bearer", "authorization_code\x00"))
	case 14:
		o.Method = "GET"
		o.Query = append(append([]KV(nil), o.Query...), o.Body...)
		o.Body = nil
	case 15:
		o.CT = "application/x-www-form-urlencoded; charset=\xff"
	}
}

// oddPath returns a path that names no endpoint.
func (g *gen) oddPath(p string) string {
	last := p[strings.LastIndexByte(p, '/')+1:]
	switch g.r.N(12) {
	case 0:
		return g.pick("/", "//", "/~/", "/~/x", "/~/oauth2/", "/oauth2", "/oauth2/", "/oauth2/.", "/%00", "/ä", "/a/b/c/d/e/f/g/h/i/j")
	case 1:
		return g.pick("/oauth2/Token", "/oauth2/token/", "/oauth2/token/x", "/oauth2/authorize%2f", "/oauth2/tokentoken", "/oauth2/x")
	case 2:
		return p + g.pick("s", "/", "//", "%20", ".json", ";x", "%00", "/..", "-", "2")
	case 3:
		return "/oauth2/" + strings.ToUpper(last[:1]) + last[1:]
	case 4:
		return "/oauth2/" + strings.ToUpper(last)
	case 5:
		return "/oauth2/" + last[:len(last)-1]
	case 6:
		return "/~/" + g.pick("tok", "tokens", "oauth2", "TOKEN", "~", "%2f")
	case 7:
		return "/oauth2/x" + last
	case 8:
		return "/" + g.pick("token", "authorize", "introspect", "revoke") + "/oauth2"
	case 9:
		return "/oauth2/" + g.pick("introspection", "revocation", "authorization", "auth", "login", "authorise", "refresh", "password", "access_token", "refresh_token")
	case 10:
		return "/oauth2/" + last + strings.Repeat("/x", 300)
	}
	return "/oauth2/" + last[1:]
}

// mounted moves a request to another place where the server may be mounted.
func (g *gen) mounted(o *Op) {
	if !strings.HasPrefix(o.Path, "/oauth2/") {
		return
	}
	last := o.Path[len("/oauth2/"):]
	switch last {
	case "token", "authorize", "introspect", "revoke":
		o.Path = g.pick("/", "//", "/~/", "/a/b/c/", "/api2/", "/token/", "/revoke/", "/~/x/", "/oauth2/../", "/OAuth2/", "/%2f/") + last
	}
}

// stray adds parameters that mean nothing for the request.
func (g *gen) stray(w *World, o *Op) {
	if o.RawB != "" || o.RawQ != "" || strings.HasPrefix(o.Path, "/api/") {
		return
	}
	has := func(k string) bool {
		for _, p := range append(append([]KV(nil), o.Body...), o.Query...) {
			if p.K == k {
				return true
			}
		}
		return false
	}
	for i := 0; i < 1+g.r.N(2); i++ {
		var p KV
		switch g.r.N(10) {
		case 0, 1:
			p = KV{K: "username", V: g.anyUser(w).ID}
		case 2:
			p = KV{K: "password", V: g.anyUser(w).Secret}
		case 3:
			p = KV{K: "scope", V: g.scope(w.cfg.Allowed, g.chance(0.5))}
		case 4, 5:
			p.K = g.pick("code", "refresh_token", "token", "access_token")
			if c := g.anyCred(w); c != nil {
				p.Ref = &Ref{Op: c.op, Kind: c.kind, Copy: c.copy}
			}
		case 6:
			p = KV{K: g.pick("state", "response_type", "token_type_hint", "grant_type", "error"), V: g.pick("x", "token", "access_token", "password")}
		case 7:
			p = KV{K: g.pick("audience", "nonce", "user", "client", "_method", "owner", "resource", "code_verifier"), V: g.anyUser(w).ID}
		default:
			p = KV{K: g.pick("username", "user", "sub", "client"), V: g.anyClient(w).ID}
		}
		if has(p.K) {
			continue
		}
		// parameters that this endpoint understands are not stray
		ok := true
		switch o.Path {
		case "/oauth2/token":
			ok = p.K != "grant_type"
			for _, q := range o.Body {
				if q.K == "grant_type" {
					switch q.V {
					case "password":
						ok = ok && p.K != "username" && p.K != "password" && p.K != "scope"
					case "client_credentials", "refresh_token":
						ok = ok && p.K != "scope" && p.K != "refresh_token"
					case "authorization_code":
						ok = ok && p.K != "code"
					}
				}
			}
		case "/oauth2/authorize":
			ok = p.K != "username" && p.K != "password" && p.K != "scope" && p.K != "state" && p.K != "response_type"
		case "/oauth2/introspect", "/oauth2/revoke":
			ok = p.K != "token" && p.K != "token_type_hint"
		}
		if !ok {
			continue
		}
		if g.chance(0.25) {
			o.Query = append(o.Query, p)
		} else if o.Method == "POST" {
			o.Body = append(o.Body, p)
		}
	}
}

// repeatParam gives a parameter a second value.
func (g *gen) repeatParam(w *World, o *Op) {
	l := &o.Body
	if len(*l) == 0 || (len(o.Query) > 0 && g.chance(0.3)) {
		l = &o.Query
	}
	if len(*l) == 0 || o.RawB != "" || o.RawQ != "" {
		return
	}
	i := g.r.N(len(*l))
	p := (*l)[i]
	c := g.sc.Cfg
	switch p.K {
	case "scope":
		p.V = g.pick("admin", strings.Join(c.Allowed, " "), "", p.V+" admin", "root")
	case "username", "password":
		u := c.Users[g.r.N(len(c.Users))]
		p.V = g.pick(u.ID, u.Secret, "x")
	case "client_id", "client_secret", "redirect_uri":
		e := c.Clients[g.r.N(len(c.Clients))]
		p.V = g.pick(e.ID, e.Secret, e.Redirect, "http://evil.example/")
	case "grant_type":
		p.V = g.pick("client_credentials", "password", "refresh_token", "x")
	case "response_type":
		p.V = g.pick("token", "code", "x")
	case "token_type_hint":
		p.V = g.pick("access_token", "refresh_token", "x")
	case "token", "refresh_token", "code":
		p.V = g.pick("", "x", "a.b")
		p.Ref = nil
	default:
		p.V = g.pick("", "x", p.V)
	}
	k := i + g.r.N(2)
	if g.chance(0.7) {
		k = i + 1
	}
	n := append([]KV(nil), (*l)[:k]...)
	*l = append(append(n, p), (*l)[k:]...)
}

// fin adds faults and the client library.
func (g *gen) fin(w *World, o *Op) *Op {
	if g.chance(0.12) {
		g.stray(w, o)
	}
	if o.Path == "/oauth2/token" || o.Path == "/oauth2/introspect" || o.Path == "/oauth2/revoke" {
		if g.chance(g.p.Client) && o.Method == "POST" && o.CT == "" && o.RawB == "" && o.RawQ == "" && len(o.Query) == 0 && len(o.Hdr) == 0 && clientable(o) {
			o.Via = "client"
		}
	}
	if o.Via == "" && g.chance(0.02) {
		g.mounted(o)
	}
	if o.Via == "" && o.RawB == "" && o.Method == "POST" && o.CT == "" && len(o.Body) > 0 && g.chance(0.004) {
		// a large request
		o.Body = append(append([]KV(nil), o.Body...), KV{K: g.pick("padding", "x", "state2"), V: strings.Repeat("p", 3000<<g.r.N(8))})
	}
	if o.Via == "" && g.chance(0.012) {
		g.repeatParam(w, o)
	}
	if o.Via == "" && g.chance(0.2) {
		g.env(w, o)
	}
	if !g.chance(g.p.Fault) || len(g.p.FaultSet) == 0 {
		return o
	}
	f := &o.F
	n := 1
	if g.chance(0.15) {
		n = 2
	}
	for i := 0; i < n; i++ {
		switch g.p.FaultSet[g.r.N(len(g.p.FaultSet))] {
		case "delay":
			f.Delay = []time.Duration{1, time.Millisecond, time.Second, 20 * time.Second}[g.r.N(4)]
		case "drop":
			f.Drop = true
		case "dup":
			f.Dup = 1 + g.r.N(2)
		case "duplate":
			f.DupLate = 1 + g.r.N(4)
		case "trunc":
			f.Trunc = 1 + g.r.N(120)
		case "stall":
			f.StallAt = 1 + g.r.N(60)
			if g.chance(0.7) {
				f.StallFor = 1 + g.r.N(4)
			}
		case "cancel":
			f.Cancel = 1 + g.r.N(4)
			if g.chance(0.5) {
				f.CancelD = []time.Duration{1, time.Millisecond, time.Second, time.Minute}[g.r.N(4)]
			}
			if f.Cancel == 3 && g.chance(0.5) {
				p := simrt.Pause{T: fmt.Sprintf("s%d.0", o.ID), Y: 1 + g.r.N(70), D: f.CancelD + 1}
				g.sc.Pauses = append(g.sc.Pauses, p)
				w.sched.AddPause(p)
			}
		case "chunk":
			f.Chunk = 1 + g.r.N(20)
		case "respdrop":
			f.RespDrop = true
		case "resptrunc":
			f.RespTrunc = 1 + g.r.N(500)
		case "writefail":
			f.WriteFail = 1 + g.r.N(40)
		case "entfail":
			f.EntFail = 1 + g.r.N(2*w.cfg.KeyLen+2)
			f.EntEOF = g.chance(0.3)
			f.EntOnce = g.chance(0.25)
			if g.chance(0.3) {
				f.EntChunk = 1 + g.r.N(w.cfg.KeyLen)
			}
			if g.chance(0.3) {
				f.EntFail = 1 + w.cfg.KeyLen*g.r.N(3)
			}
		case "entshort":
			f.EntChunk = 1 + g.r.N(w.cfg.KeyLen)
			if g.chance(0.4) {
				f.EntZero = 2 + g.r.N(3)
			}
		case "pause":
			p := simrt.Pause{T: fmt.Sprintf("s%d.0", o.ID), Y: 1 + g.r.N(70), D: []time.Duration{1, time.Millisecond, time.Second, time.Minute, 11 * time.Minute}[g.r.N(5)]}
			g.sc.Pauses = append(g.sc.Pauses, p)
			w.sched.AddPause(p)
		}
	}
	return o
}

// clientable reports whether the request can be expressed with the client
// library.
func clientable(o *Op) bool {
	if o.Auth.Style != "basic" || (o.Auth.ID == "" && o.Auth.Secret == "") || o.Auth.Scheme != "" {
		return false
	}
	known := map[string]bool{"grant_type": true, "scope": true, "username": true, "password": true, "refresh_token": true, "redirect_uri": true, "code": true, "token": true, "token_type_hint": true}
	seen := map[string]bool{}
	for _, p := range o.Body {
		if !known[p.K] || seen[p.K] || (p.Ref == nil && p.V == "") {
			return false
		}
		if p.K == "scope" && strings.TrimSpace(p.V) == "" {
			return false
		}
		seen[p.K] = true
	}
	return true
}

// makeAudit appends rounds that look at every credential.
func (g *gen) makeAudit(w *World) {
	p := g.p
	g.p.Bad, g.p.Fault, g.p.Mut, g.p.Client = 0, 0, 0, 0.05
	defer func() { g.p = p }()
	add := func(o *Op) { g.queue = append(g.queue, &Round{Ops: []*Op{o}}) }
	idx := g.perm(len(w.creds))
	if len(idx) > 40 {
		idx = idx[:40]
	}
	// look without touching
	for _, i := range idx {
		c := w.creds[i]
		if c.kind == "code" {
			continue
		}
		if c.kind == "access" && g.chance(0.6) {
			add(g.mk(w, "api", c))
		} else {
			add(g.mk(w, "introspect", c))
		}
	}
	if len(idx) < len(w.creds) && g.chance(0.5) {
		// all of them
		for _, t := range []string{"access", "refresh"} {
			if c := g.cred(w, t, 0.5); c != nil {
				o := g.mk(w, "introspect", c)
				if t == "access" && g.chance(0.3) {
					o = g.mk(w, "api", c)
				}
				g.all(w, o)
				add(o)
			}
		}
	}
	// tokens that must never have come to life
	n := 0
	for _, e := range w.past {
		for k := range e.ghost {
			if n >= 10 {
				break
			}
			n++
			r := &Ref{Op: e.op.ID, Ghost: k + 1}
			o := g.mk(w, "api", nil)
			o.Path = "/api/0"
			o.Auth = Auth{Style: "bearer", Ref: r}
			add(o)
			cl := w.client(e.lr.id)
			if cl == nil {
				cl = w.client(e.lr.b("client_id"))
			}
			if cl == nil {
				cl = w.client(e.lr.a("client_id"))
			}
			if cl == nil {
				cl = g.confClient(w)
			}
			o = g.newOp()
			o.Note = "ghost refresh"
			o.Path = "/oauth2/token"
			o.Body = []KV{{K: "grant_type", V: "refresh_token"}, {K: "refresh_token", Ref: r}}
			if e.lr.endpoint() == "authorize" {
				o.Body = []KV{{K: "grant_type", V: "authorization_code"}, {K: "code", Ref: r}, {K: "redirect_uri", V: cl.Redirect, Esc: true}}
			}
			o.Auth = Auth{Style: "basic", ID: cl.ID, Secret: cl.Secret}
			add(o)
		}
	}
	// use up
	for _, i := range g.perm(len(w.creds)) {
		c := w.creds[i]
		if len(g.queue) > 90 {
			break
		}
		if c.kind == "code" {
			add(g.mk(w, "exchange", c))
		} else if c.kind == "refresh" {
			add(g.mk(w, "refresh", c))
		}
	}
	if g.chance(0.4) {
		for _, i := range idx {
			if c := w.creds[i]; c.kind == "access" && len(g.queue) < 110 {
				add(g.mk(w, "api", c))
			}
		}
	}
}

// Recorded replays a list of rounds.
type Recorded struct {
	Rounds []*Round
	i      int
}

// Next returns the next recorded round.
func (r *Recorded) Next(w *World) *Round {
	if r.i >= len(r.Rounds) {
		return nil
	}
	r.i++
	return r.Rounds[r.i-1]
}

// registrable reports whether an application could sensibly register a
// redirect URI.
func registrable(s string) bool {
	if !uriOK(s) || s == "" || strings.ContainsAny(s, "#\x00 \n") || !utf8.ValidString(s) {
		return false
	}
	_, err := url.Parse(s)
	return err == nil
}

// env gives a request what requests carry that makes no difference.
func (g *gen) env(w *World, o *Op) {
	e := &o.Env
	switch g.r.N(8) {
	case 0:
		e.Old = true
	case 1, 2:
		e.Chunked = true
	}
	e.Addr = g.r.N(3)
	if g.chance(0.2) {
		e.Host = g.pick("localhost:8080", "evil.example", "AUTH.EXAMPLE", "127.0.0.1", "[::1]:443", "e.example")
	}
	u := g.anyUser(w)
	c := g.anyClient(w)
	for i := g.r.N(4); i > 0; i-- {
		k := g.pick("Accept", "Accept", "Accept-Encoding", "Accept-Language", "Accept-Charset", "User-Agent", "Origin", "Referer", "Cookie", "X-Forwarded-For", "X-Forwarded-Proto", "X-Forwarded-Host",
			"X-Real-Ip", "X-Http-Method-Override", "X-Requested-With", "Cache-Control", "Pragma", "If-None-Match", "If-Modified-Since", "Range", "Expect", "Connection", "Idempotency-Key", "X-Request-Id",
			"Proxy-Authorization", "X-Client-Id", "X-Api-Key", "X-Remote-User", "X-Access-Token", "Date", "Te", "Upgrade", "Dnt", "Sec-Fetch-Mode", "Access-Control-Request-Method", "Content-Language", "Content-Encoding", "Forwarded", "Prefer", "Max-Forwards", "Traceparent")
		v := ""
		switch k {
		case "Accept":
			v = g.pick("*/*", "text/html", "application/json", "application/xml;q=0.9", "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8", "image/png", "")
		case "Accept-Encoding", "Te":
			v = g.pick("gzip", "gzip, deflate, br", "identity", "*")
		case "User-Agent":
			v = g.pick("curl/8.0", "Mozilla/5.0 (X11; Linux x86_64)", "Go-http-client/1.1", "kube-probe/1.30", "")
		case "Origin", "Referer":
			v = g.pick("null", "https://e.example", "https://evil.example", c.Redirect, "")
		case "Cookie":
			v = g.pick("session="+u.ID, "a=b; c=d", "access_token=x", "user="+u.ID)
		case "X-Forwarded-For", "X-Real-Ip":
			v = g.pick("127.0.0.1", "10.0.0.1", "192.0.2.7, 10.0.0.1", "::1", "unknown")
		case "X-Forwarded-Proto":
			v = g.pick("https", "http")
		case "X-Forwarded-Host", "Forwarded":
			v = g.pick("evil.example", "localhost", "for=127.0.0.1")
		case "X-Http-Method-Override", "Access-Control-Request-Method":
			v = g.pick("GET", "POST", "PUT", "DELETE")
		case "Connection":
			v = g.pick("close", "keep-alive", "Upgrade", "Authorization")
		case "Upgrade":
			v = g.pick("websocket", "h2c")
		case "Expect":
			v = "100-continue"
		case "Range":
			v = "bytes=0-10"
		case "Content-Encoding":
			v = "identity"
		case "Idempotency-Key", "X-Request-Id", "Traceparent":
			v = g.pick("1", "1", "2", "5f1c0e")
		case "Proxy-Authorization":
			v = "Basic Zm9vOmJhcg=="
		case "X-Client-Id":
			v = c.ID
		case "X-Remote-User":
			v = u.ID
		case "X-Api-Key":
			v = c.Secret
		case "If-Modified-Since", "Date":
			v = "Wed, 21 Oct 2015 07:28:00 GMT"
		default:
			v = g.pick("1", "no-cache", "*", "x", "")
		}
		e.Hdr = append(e.Hdr, KV{K: k, V: v})
	}
}
