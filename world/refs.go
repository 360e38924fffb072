package world

import (
	"encoding/base64"
	"strconv"
	"strings"
	"unicode"
)

// resolve renders a reference to a credential.
func (w *World) resolve(r *Ref) string {
	if r.Lit != "" {
		return r.Lit
	}
	if r.Peer && w.peer != nil {
		q := *r
		q.Peer = false
		return w.peer.resolve(&q)
	}
	if r.Last > 0 {
		for i := len(w.creds) - 1; i >= 0; i-- {
			if c := w.creds[i]; c.op == r.Last-1 && c.kind == r.Kind {
				return c.tok
			}
		}
	}
	tok := ""
	if r.Ghost > 0 {
		for _, e := range w.byOp[r.Op] {
			if r.Ghost <= len(e.ghost) {
				tok = makeTok(w.cfg.Secret, []byte(e.ghost[r.Ghost-1]))
				break
			}
		}
	} else if c := w.find(r); c != nil && !r.Peer {
		tok = c.tok
		if r.Step {
			k := w.rep
			for i := c.idx + 1; i < len(w.creds) && k > 0; i++ {
				if w.creds[i].kind == c.kind {
					tok = w.creds[i].tok
					k--
				}
			}
		}
	}
	if tok == "" {
		// the issuing operation was removed or failed
		tok = makeTok(w.cfg.Secret, []byte("missing-credential-"+r.Kind))
	}
	return w.mutate(tok, r.Mut)
}

func enc(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// mutate alters a token string in a named way.
func (w *World) mutate(tok, m string) string {
	if m == "" {
		return tok
	}
	name, arg := m, ""
	if i := strings.IndexByte(m, ':'); i >= 0 {
		name, arg = m[:i], m[i+1:]
	}
	n, _ := strconv.Atoi(arg)
	key, sig, ok := decodeTok(tok)
	if !ok {
		return tok + arg
	}
	switch name {
	case "flip": // one bit of key or signature
		b := append(append([]byte(nil), key...), sig...)
		n %= len(b) * 8
		b[n/8] ^= 1 << uint(n%8)
		return enc(b[:len(key)]) + "." + enc(b[len(key):])
	case "cut":
		if n >= len(tok) {
			n = len(tok) - 1
		}
		return tok[:len(tok)-n]
	case "app":
		return tok + arg
	case "pre":
		return arg + tok
	case "case":
		i := 0
		return strings.Map(func(r rune) rune {
			i++
			if i-1 != n%len(tok) {
				return r
			}
			if unicode.IsUpper(r) {
				return unicode.ToLower(r)
			}
			return unicode.ToUpper(r)
		}, tok)
	case "foreign": // signed with another secret
		return enc(key) + "." + enc(sign(w.cfg.Secret+"x", key))
	case "nosecret":
		return enc(key) + "." + enc(sign("", key))
	case "resign": // altered key, correctly signed, never issued
		k := append([]byte(nil), key...)
		n %= len(k) * 8
		k[n/8] ^= 1 << uint(n%8)
		return makeTok(w.cfg.Secret, k)
	case "shortkey":
		if n >= len(key) {
			n = len(key) - 1
		}
		return makeTok(w.cfg.Secret, key[:n])
	case "longkey":
		return makeTok(w.cfg.Secret, append(append([]byte(nil), key...), 0))
	case "emptykey":
		return makeTok(w.cfg.Secret, nil)
	case "keyonly":
		return enc(key)
	case "nosig":
		return enc(key) + "."
	case "sigonly":
		return enc(sig)
	case "dotsig":
		return "." + enc(sig)
	case "swap":
		return enc(sig) + "." + enc(key)
	case "cutsig": // signature prefix
		if n >= len(sig) {
			n = len(sig) - 1
		}
		return enc(key) + "." + enc(sig[:n])
	case "extsig":
		return enc(key) + "." + enc(append(append([]byte(nil), sig...), 0))
	case "three":
		return tok + "." + enc(sig)
	case "sigof": // signature of another credential: sigof:<op>/<kind>
		if i := strings.IndexByte(arg, '/'); i >= 0 {
			op, _ := strconv.Atoi(arg[:i])
			if c := w.find(&Ref{Op: op, Kind: arg[i+1:]}); c != nil {
				return enc(key) + "." + enc(c.sig)
			}
		}
		return enc(key) + "." + enc(sign("other", key))
	case "pad":
		return tok + "="
	case "std": // standard alphabet
		return strings.NewReplacer("-", "+", "_", "/").Replace(tok)
	case "nl":
		return tok[:3] + "\n" + tok[3:]
	case "noncanon":
		// set unused trailing bits of the last character of the signature
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		i := strings.IndexByte(al, tok[len(tok)-1])
		if i >= 0 && len(sig)%3 != 0 {
			return tok[:len(tok)-1] + string(al[i^1])
		}
		return tok
	}
	return tok
}

// mutations is the list the generator picks from.
var mutations = []string{"flip", "cut:1", "cut:2", "cut:5", "app:A", "app:.", "app: ", "app:\x00", "pre: ", "pre:A", "case", "foreign", "nosecret",
	"resign", "resign", "shortkey", "longkey", "emptykey", "keyonly", "nosig", "sigonly", "dotsig", "swap", "cutsig", "extsig", "three", "sigof", "pad", "std", "nl", "noncanon"}
