package simrt

import (
	crand "crypto/rand"
	"errors"
	"io"
)

// EntropyFault describes how the random source misbehaves for one operation.
type EntropyFault struct {
	FailAfter int // fail after this many bytes (-1 never)
	MaxChunk  int // short reads: at most this many bytes per read (0 = no limit)
	ZeroReads int // every n-th read returns (0, nil) (0 = never)
	EOFStyle  bool
	Once      bool // only one read fails
}

// OpEntropy is the per-operation account of the random source.
type OpEntropy struct {
	Fault  EntropyFault
	Bytes  [512]byte
	N      int
	Reads  int
	Failed bool
	Short  int
	Zero   int
}

// Entropy is the simulated random source (installed as crypto/rand.Reader
// before the system under test initialises).
type Entropy struct {
	rng Rand
	ops [8192]*OpEntropy
	Any OpEntropy

	log  []byte // fixed size
	nlog int
}

const logSize = 1 << 19

var ent *Entropy

var entLog [logSize]byte

// LogFull reports whether the log overflowed.
func (e *Entropy) LogFull() bool { return e.nlog >= logSize }

// NewEntropy installs the source for one run.
func NewEntropy(seed uint64) *Entropy {
	e := &Entropy{rng: NewRand(seed ^ 0xe27), log: entLog[:]}
	e.Any.Fault.FailAfter = -1
	ent = e
	return e
}

// Account attaches the account used while tasks of operation op run.
//
//go:norace
func (e *Entropy) Account(op int, a *OpEntropy) {
	if op < len(e.ops) {
		e.ops[op] = a
	}
}

var errEntropy = errors.New("simulated entropy failure")

type entropyReader struct{}

//go:norace
func (entropyReader) Read(p []byte) (int, error) {
	if ent == nil {
		return realRand.Read(p)
	}
	a := &ent.Any
	if t := Cur(); t != nil && t.Op >= 0 && t.Op < len(ent.ops) && ent.ops[t.Op] != nil {
		a = ent.ops[t.Op]
	}
	a.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if a.Fault.ZeroReads > 0 && a.Reads%a.Fault.ZeroReads == 0 {
		a.Zero++
		return 0, nil
	}
	n := len(p)
	if a.Fault.MaxChunk > 0 && n > a.Fault.MaxChunk {
		n = a.Fault.MaxChunk
		a.Short++
	}
	var err error
	if a.Fault.FailAfter >= 0 && !(a.Fault.Once && a.Failed) {
		if a.N >= a.Fault.FailAfter {
			a.Failed = true
			return 0, a.err()
		}
		if a.N+n > a.Fault.FailAfter {
			n = a.Fault.FailAfter - a.N
			a.Failed = true
			err = a.err()
		}
	}
	for i := 0; i < n; i++ {
		b := byte(ent.rng.U64() >> 17)
		p[i] = b
		if ent.nlog < logSize {
			ent.log[ent.nlog] = b
			ent.nlog++
		}
		if a.N+i < len(a.Bytes) {
			a.Bytes[a.N+i] = b
		}
	}
	a.N += n
	return n, err
}

// HasFailed reports whether the source failed in this account.
//
//go:norace
func (a *OpEntropy) HasFailed() bool { return a.Failed }

// Counts returns reads, short reads and zero reads.
//
//go:norace
func (a *OpEntropy) Counts() (n, short, zero int) { return a.N, a.Short, a.Zero }

// Copy returns the bytes handed out.
//
//go:norace
func (a *OpEntropy) Copy() []byte {
	n := a.N
	if n > len(a.Bytes) {
		n = len(a.Bytes)
	}
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		out[i] = a.Bytes[i]
	}
	return out
}

// Log is the global log of bytes handed out in this run.
//
//go:norace
func (e *Entropy) Log() []byte {
	out := make([]byte, e.nlog)
	for i := range out {
		out[i] = e.log[i]
	}
	return out
}

//go:norace
func (a *OpEntropy) err() error {
	if a.Fault.EOFStyle {
		return io.EOF
	}
	return errEntropy
}

var realRand io.Reader

func init() {
	realRand = crand.Reader
	crand.Reader = entropyReader{}
}
