// Package world runs the real OAuth2 server and client under simulation and
// judges the recorded histories against a reference model.
package world

import (
	"time"

	"verif/simrt"
)

// Config is the configuration of the simulated deployment.
type Config struct {
	Secret    string        `json:"secret"`
	KeyLen    int           `json:"keylen"`
	Allowed   []string      `json:"allowed"`
	AccessTTL time.Duration `json:"access_ttl"`
	RefrTTL   time.Duration `json:"refresh_ttl"`
	CodeTTL   time.Duration `json:"code_ttl"`
	Start     time.Duration `json:"start"` // offset of the start of time
	Clients   []Entity      `json:"clients"`
	Users     []Entity      `json:"users"`
	APIs      [][]string    `json:"apis"` // required scopes of protected resources
}

// Entity is a client or user.
type Entity struct {
	ID           string `json:"id"`
	Secret       string `json:"secret"`
	Redirect     string `json:"redirect,omitempty"`
	Confidential bool   `json:"confidential,omitempty"`
}

// Ref names a credential by the operation that issued it.
type Ref struct {
	Op    int    `json:"op"`
	Kind  string `json:"kind"`            // code, access, refresh
	Ghost int    `json:"ghost,omitempty"` // n-th key of the op's entropy stream (1-based), for never issued tokens
	Copy  int    `json:"copy,omitempty"`  // which execution of the op (duplicates)
	Mut   string `json:"mut,omitempty"`
	Lit   string `json:"lit,omitempty"`  // literal instead of a reference
	Peer  bool   `json:"peer,omitempty"` // of the other server in the process
	Step  bool   `json:"step,omitempty"` // each repetition takes the next credential of the kind
	Last  int    `json:"last,omitempty"` // op ID + 1: the latest credential that operation issued, if any
}

// KV is one parameter.
type KV struct {
	K   string `json:"k"`
	V   string `json:"v,omitempty"`
	Ref *Ref   `json:"ref,omitempty"`
	Esc bool   `json:"esc,omitempty"` // value is percent-escaped once more (redirect URIs)
}

// Auth is the Authorization header.
type Auth struct {
	Style  string `json:"style,omitempty"` // "", basic, bearer, raw
	ID     string `json:"id,omitempty"`
	Secret string `json:"secret,omitempty"`
	Scheme string `json:"scheme,omitempty"` // spelling of the scheme
	Raw    string `json:"raw,omitempty"`
	Ref    *Ref   `json:"ref,omitempty"`
}

// Wait advances simulated time before a round.
type Wait struct {
	D     time.Duration `json:"d,omitempty"`
	Ref   *Ref          `json:"ref,omitempty"` // until the expiry of this credential
	Delta time.Duration `json:"delta,omitempty"`
}

// Fault kinds of one operation.
type Fault struct {
	// network, request direction
	Delay    time.Duration `json:"delay,omitempty"`     // delivery delay
	Drop     bool          `json:"drop,omitempty"`      // never delivered
	Dup      int           `json:"dup,omitempty"`       // extra copies delivered concurrently
	DupLate  int           `json:"dup_late,omitempty"`  // extra copy delivered this many rounds later
	Trunc    int           `json:"trunc,omitempty"`     // connection breaks after Trunc-1 body bytes (1-based, 0 = off)
	StallAt  int           `json:"stall_at,omitempty"`  // body stalls after StallAt-1 bytes (1-based, 0 = off)
	StallFor int           `json:"stall_for,omitempty"` // rounds until the rest arrives (0 = forever)
	Chunk    int           `json:"chunk,omitempty"`     // body arrives in pieces of this size
	Cancel   int           `json:"cancel,omitempty"`    // the client goes away: 1 before it is served, 2 before the body is read, 3 meanwhile, 4 when it is answered
	CancelD  time.Duration `json:"cancel_d,omitempty"`  // for 3: after this long
	// response direction
	RespDrop  bool `json:"resp_drop,omitempty"`
	RespTrunc int  `json:"resp_trunc,omitempty"`
	WriteFail int  `json:"write_fail,omitempty"` // writer errors after WriteFail-1 bytes (1-based)
	// entropy
	EntFail  int  `json:"ent_fail,omitempty"` // fail after EntFail-1 bytes (1-based)
	EntChunk int  `json:"ent_chunk,omitempty"`
	EntZero  int  `json:"ent_zero,omitempty"`
	EntEOF   bool `json:"ent_eof,omitempty"`
	EntOnce  bool `json:"ent_once,omitempty"` // only one read fails
}

// Op is one request.
type Op struct {
	ID     int    `json:"id"`
	Tenant int    `json:"tenant,omitempty"` // 1: sent to the other server in the process
	Note   string `json:"note,omitempty"`
	Via    string `json:"via,omitempty"` // "" raw, "client" through the client library
	Method string `json:"method"`
	Path   string `json:"path"`
	Query  []KV   `json:"query,omitempty"`
	Body   []KV   `json:"body,omitempty"`
	RawQ   string `json:"rawq,omitempty"` // raw query, replaces Query
	RawB   string `json:"rawb,omitempty"` // raw body, replaces Body
	CT     string `json:"ct,omitempty"`   // content type ("" = form, "-" = none)
	Auth   Auth   `json:"auth"`
	Hdr    []KV   `json:"hdr,omitempty"`
	Repeat int    `json:"repeat,omitempty"` // sent this often, one after the other
	Env    Env    `json:"env"`              // nothing of this matters
	F      Fault  `json:"f"`

	Lib *LibSpec `json:"lib,omitempty"` // for an endpoint written with the library's building blocks
}

// Env is what else differs between requests. It makes no difference.
type Env struct {
	Hdr     []KV   `json:"hdr,omitempty"`
	Host    string `json:"host,omitempty"`
	Addr    int    `json:"addr,omitempty"`
	Old     bool   `json:"old,omitempty"`     // HTTP/1.0
	Chunked bool   `json:"chunked,omitempty"` // the length of the body is not announced
}

// Admin is a change the application makes to its clients and users while no
// request is being served.
type Admin struct {
	Tenant int    `json:"tenant,omitempty"`
	Kind   string `json:"kind"` // secret, redirect, confidential, public, password, remove, add
	ID     string `json:"id"`
	V      string `json:"v,omitempty"`
	URI    string `json:"uri,omitempty"`
	New    bool   `json:"new,omitempty"` // a new entity replaces the old one
}

// Round is a set of operations issued at the same time.
type Round struct {
	Wait    Wait          `json:"wait"`
	Ops     []*Op         `json:"ops"`
	Restart bool          `json:"restart,omitempty"` // restart the server before the round
	Clock   time.Duration `json:"clock,omitempty"`   // the wall clock is set by this much before the round
	Admin   []Admin       `json:"admin,omitempty"`   // changes before the round
}

// Scenario is one complete simulated run.
type Scenario struct {
	Mode     string           `json:"mode"` // server, client
	Seed     uint64           `json:"seed"`
	EntSeed  uint64           `json:"ent_seed"`
	Cfg      Config           `json:"cfg"`
	Peer     *Config          `json:"peer,omitempty"` // a second server in the same process
	Rounds   []*Round         `json:"rounds"`
	Strat    simrt.Strategy   `json:"strategy"`
	Explicit []simrt.Decision `json:"decisions,omitempty"`
	Pauses   []simrt.Pause    `json:"pauses,omitempty"`
	CrashT   string           `json:"crash_task,omitempty"`
	CrashY   int              `json:"crash_point,omitempty"`
	Client   *ClientScenario  `json:"client,omitempty"`
}

// Violation is one broken property.
type Violation struct {
	Tags   []string         `json:"tags"`
	Class  string           `json:"class"` // stable identification of what failed
	Text   string           `json:"text"`
	Op     int              `json:"op"`
	Conc   bool             `json:"conc,omitempty"`   // shows only among overlapping requests
	Direct []string         `json:"direct,omitempty"` // tags that hold regardless of the history
	Hist   map[string][]int `json:"hist,omitempty"`
}

// Has reports whether the violation is tagged with the property.
func (v *Violation) Has(p string) bool {
	for _, t := range v.Tags {
		if t == p {
			return true
		}
	}
	return false
}
