package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

type randM struct{ rest []byte }

func init() { machines["m_rand"] = func() machine { return &randM{} } }

func (m *randM) start(st map[string]val) { m.rest = toBytes(ints(st["rest"])) }

func (m *randM) check(st map[string]val) string {
	if want := toBytes(ints(st["rest"])); string(want) != string(m.rest) {
		return fmt.Sprintf("the reader was left with %d bytes, specification says %d", len(m.rest), len(want))
	}
	return ""
}

var errBroken = errors.New("the reader is broken")

// stream hands its bytes out in portions that depend on the mode, then fails.
type stream struct {
	data  []byte
	mode  int
	calls int
	idle  bool
	brk   int // bytes before it fails once
}

func (s *stream) Read(p []byte) (int, error) {
	s.calls++
	if s.calls > 1000000 {
		panic("the reader is read without end")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.mode > 6 && s.brk == 0 {
		s.brk = -1
		if s.mode == 8 {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, errBroken
	}
	if len(s.data) == 0 {
		if s.mode == 5 {
			return 0, errBroken
		}
		return 0, io.EOF
	}
	n := len(p)
	switch s.mode {
	case 1:
		n = 1
	case 2: // now and then a read without a byte
		s.idle = !s.idle
		if s.idle {
			return 0, nil
		}
		n = 1
	case 3:
		n = 1 + s.calls*7%31
	case 6: // nothing first, then everything
		s.idle = !s.idle
		if s.idle {
			return 0, nil
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if s.brk > 0 && n > s.brk {
		n = s.brk
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	if s.brk > 0 {
		s.brk -= n
	}
	if len(s.data) == 0 && s.mode == 4 {
		// the last bytes together with the end
		return n, io.EOF
	}
	return n, nil
}

func (m *randM) apply(e *event) []*big.Int {
	if e.op == "stream" {
		m.rest = toBytes(e.i)
		return nil
	}
	r := &stream{data: append([]byte{}, m.rest...), mode: e.n(0), brk: e.n(1)}
	fail := func(null bool) []*big.Int {
		if !null {
			panic("an error came with a result")
		}
		return []*big.Int{intBig(0)}
	}
	ok := func(l ...*big.Int) []*big.Int { return append([]*big.Int{intBig(1)}, l...) }
	defer func() { m.rest = r.data }()
	switch e.op {
	case "fq":
		f, err := bls.RandFQ(r)
		if err != nil {
			return fail(true)
		}
		if d := checkFQ("random element", f, fqBig(f)); d != "" {
			panic(d)
		}
		return ok(fqBig(f))
	case "fr":
		f, err := bls.RandFR(r)
		if err != nil {
			return fail(f == nil)
		}
		if d := checkFR("random element", f, frBig(f)); d != "" {
			panic(d)
		}
		return ok(frBig(f))
	case "key":
		r2 := &stream{data: append([]byte{}, m.rest...), mode: e.n(0), brk: e.n(1)}
		k1, err1 := g1pubs.RandKey(r)
		k2, err2 := g2pubs.RandKey(r2)
		if (err1 != nil) != (err2 != nil) || len(r.data) != len(r2.data) {
			panic("the two packages draw keys differently")
		}
		if err1 != nil {
			return fail(k1 == nil && k2 == nil)
		}
		if frBig(k1.GetFRElement()).Cmp(frBig(k2.GetFRElement())) != 0 {
			panic("the two packages draw different keys")
		}
		return ok(frBig(k1.GetFRElement()))
	case "fq2":
		f, err := bls.RandFQ2(r)
		if err != nil {
			return fail(true)
		}
		return ok(residues(f.String())...)
	case "fq6":
		f, err := bls.RandFQ6(r)
		if err != nil {
			return fail(f == nil)
		}
		return ok(residues(f.String())...)
	case "fq12":
		f, err := bls.RandFQ12(r)
		if err != nil {
			return fail(f == nil)
		}
		return ok(residues(f.String())...)
	case "g1":
		p, err := bls.RandG1(r)
		if err != nil {
			return fail(p == nil)
		}
		return ok(g1Coords(p.ToAffine())...)
	case "g2":
		p, err := bls.RandG2(r)
		if err != nil {
			return fail(p == nil)
		}
		return ok(g2Coords(p.ToAffine())...)
	}
	panic(harnessError("unknown op " + e.op))
}
