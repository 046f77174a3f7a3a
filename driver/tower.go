package main

import (
	"fmt"
	"math/big"
	"regexp"

	"github.com/phoreproject/bls"
)

var hexToken = regexp.MustCompile("0x[0-9a-fA-F]+")

// residues reads the coordinates of a field element or point from its printed form.
func residues(s string) []*big.Int {
	var out []*big.Int
	for _, t := range hexToken.FindAllString(s, -1) {
		n, ok := new(big.Int).SetString(t[2:], 16)
		if !ok {
			panic(harnessError("bad token " + t))
		}
		out = append(out, n)
	}
	return out
}

func fq2(l []*big.Int) bls.FQ2 { return bls.NewFQ2(fq(l[0]), fq(l[1])) }

func fq6(l []*big.Int) *bls.FQ6 { return bls.NewFQ6(fq2(l[0:2]), fq2(l[2:4]), fq2(l[4:6])) }

func fq12(l []*big.Int) *bls.FQ12 { return bls.NewFQ12(fq6(l[:6]), fq6(l[6:])) }

func fq2Big(f bls.FQ2) []*big.Int { return residues(f.String()) }

func fq12Big(f *bls.FQ12) []*big.Int { return residues(f.String()) }

type towerMachine struct {
	a [3]bls.FQ2
	b [2]*bls.FQ6
	c [2]*bls.FQ12
}

func init() { machines["m_tower"] = func() machine { return &towerMachine{} } }

func (m *towerMachine) put(k int, l []*big.Int) {
	switch {
	case k < 3:
		m.a[k] = fq2(l)
	case k < 5:
		m.b[k-3] = fq6(l)
	default:
		m.c[k-5] = fq12(l)
	}
}

func (m *towerMachine) start(st map[string]val) {
	for k, l := range st["reg"].([]val) {
		m.put(k, ints(l))
	}
}

func (m *towerMachine) check(st map[string]val) string {
	for k, v := range st["reg"].([]val) {
		want := ints(v)
		var got []*big.Int
		var eq bool
		switch {
		case k < 3:
			got, eq = fq2Big(m.a[k]), m.a[k] == fq2(want)
		case k < 5:
			got, eq = residues(m.b[k-3].String()), *m.b[k-3] == *fq6(want)
		default:
			got, eq = fq12Big(m.c[k-5]), m.c[k-5].Equals(fq12(want))
		}
		if !sameInts(got, want) {
			return fmt.Sprintf("register %d is %s, specification says %s", k, show(got), show(want))
		}
		if !eq {
			return fmt.Sprintf("register %d has a non-canonical representation of %s", k, show(want))
		}
	}
	return ""
}

func (m *towerMachine) apply(e *event) []*big.Int {
	d := e.n(0)
	s := 0
	if len(e.i) > 1 && e.i[1].IsInt64() && e.i[1].Int64() < 7 {
		s = e.n(1)
	}
	if e.op == "set" {
		m.put(d, e.i[1:])
		return nil
	}
	switch {
	case d < 3:
		f := &m.a[d]
		x := m.a[s%3]
		switch e.op {
		case "add":
			f.AddAssign(x)
		case "sub":
			f.SubAssign(x)
		case "mul":
			f.MulAssign(x)
		case "square":
			f.SquareAssign()
		case "double":
			f.DoubleAssign()
		case "neg":
			f.NegAssign()
		case "inverse":
			return []*big.Int{boolBig(f.InverseAssign())}
		case "frob":
			f.FrobeniusMapAssign(uint8(e.n(1)))
		case "exp":
			*f = x.Exp(fqRepr(e.i[2]))
		case "copy":
			*f = m.a[s].Copy()
		case "observe":
			return []*big.Int{boolBig(f.Equals(x)), boolBig(f.IsZero()), intBig(f.Cmp(x)), boolBig(f.Parity()), fqBig(f.Norm()), intBig(int(f.Legendre()))}
		case "nonres":
			f.MultiplyByNonresidueAssign()
		case "div":
			f.DivAssign(x)
		case "mulBits":
			n := new(big.Int).Set(e.i[2])
			*f = x.MulBits(n)
			if n.Cmp(e.i[2]) != 0 {
				panic("argument modified")
			}
		case "build":
			l := fq2Big(*f)
			*f = bls.NewFQ2(fq(fq2Big(x)[0]), fq(l[1]))
		default:
			panic(harnessError("unknown op " + e.op))
		}
	case d < 5:
		f := m.b[d-3]
		var x *bls.FQ6
		if s >= 3 && s < 5 {
			x = m.b[s-3]
		}
		switch e.op {
		case "add":
			f.AddAssign(x)
		case "sub":
			f.SubAssign(x)
		case "mul":
			f.MulAssign(x)
		case "square":
			f.SquareAssign()
		case "double":
			f.DoubleAssign()
		case "neg":
			f.NegAssign()
		case "inverse":
			return []*big.Int{boolBig(f.InverseAssign())}
		case "frob":
			f.FrobeniusMapAssign(uint8(e.n(1)))
		case "exp":
			n := fqRepr(e.i[2])
			m.b[d-3] = x.Exp(&n)
			if n != fqRepr(e.i[2]) {
				panic("argument modified")
			}
		case "copy":
			m.b[d-3] = x.Copy()
		case "observe":
			return []*big.Int{boolBig(f.Equals(x)), boolBig(f.IsZero())}
		case "nonres":
			f.MulByNonresidueAssign()
		case "by01":
			f.MulBy01Assign(m.a[e.n(1)], m.a[e.n(2)])
		case "by1":
			f.MulBy1Assign(m.a[e.n(1)])
		case "build":
			m.b[d-3] = bls.NewFQ6(m.a[e.n(1)], m.a[e.n(2)], m.a[e.n(3)])
		default:
			panic(harnessError("unknown op " + e.op))
		}
	default:
		f := m.c[d-5]
		var x *bls.FQ12
		if s >= 5 && s < 7 {
			x = m.c[s-5]
		}
		switch e.op {
		case "add":
			f.AddAssign(x)
		case "sub":
			f.SubAssign(x)
		case "mul":
			f.MulAssign(x)
		case "square":
			f.SquareAssign()
		case "double":
			f.DoubleAssign()
		case "neg":
			f.NegAssign()
		case "inverse":
			return []*big.Int{boolBig(f.InverseAssign())}
		case "frob":
			f.FrobeniusMapAssign(uint8(e.n(1)))
		case "exp":
			m.c[d-5] = x.Exp(fqRepr(e.i[2]))
		case "copy":
			m.c[d-5] = x.Copy()
		case "observe":
			return []*big.Int{boolBig(f.Equals(x)), boolBig(f.IsZero())}
		case "conj":
			f.ConjugateAssign()
		case "by014":
			f.MulBy014Assign(m.a[e.n(1)], m.a[e.n(2)], m.a[e.n(3)])
		case "build":
			m.c[d-5] = bls.NewFQ12(m.b[e.n(1)-3].Copy(), m.b[e.n(2)-3].Copy())
		default:
			panic(harnessError("unknown op " + e.op))
		}
	}
	return nil
}
