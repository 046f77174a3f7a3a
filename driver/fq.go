package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
)

type fqMachine struct{ reg []bls.FQ }

func init() { machines["m_fq"] = func() machine { return &fqMachine{} } }

func (m *fqMachine) start(st map[string]val) {
	for _, x := range ints(st["reg"]) {
		m.reg = append(m.reg, fq(x))
	}
}

func (m *fqMachine) check(st map[string]val) string {
	for i, x := range ints(st["reg"]) {
		if d := checkFQ(fmt.Sprintf("register %d", i), m.reg[i], x); d != "" {
			return d
		}
	}
	return ""
}

func (m *fqMachine) apply(e *event) []*big.Int {
	if e.op == "isValid" {
		f := bls.FQReprToFQRaw(fqRepr(e.i[0]))
		return []*big.Int{boolBig(f.IsValid())}
	}
	d := &m.reg[e.n(0)]
	var s bls.FQ
	if len(e.i) > 1 && e.i[1].IsInt64() && e.i[1].Int64() >= 0 && e.i[1].Int64() < 4 {
		s = m.reg[e.n(1)]
	}
	switch e.op {
	case "set":
		*d = fq(e.i[1])
	case "fromRepr":
		*d = bls.FQReprToFQ(fqRepr(e.i[1]))
	case "fromRaw":
		*d = bls.FQReprToFQRaw(fqRepr(e.i[1]))
	case "add":
		d.AddAssign(s)
	case "sub":
		d.SubAssign(s)
	case "mul":
		d.MulAssign(s)
	case "square":
		d.SquareAssign()
	case "double":
		d.DoubleAssign()
	case "neg":
		d.NegAssign()
	case "inverse":
		inv, ok := s.Inverse()
		*d = inv
		return []*big.Int{boolBig(ok)}
	case "div":
		d.DivAssign(s)
	case "exp":
		*d = s.Exp(fqRepr(e.i[2]))
	case "mulBits":
		n := fqRepr(e.i[2])
		*d = s.MulBits(&n)
	case "mulBytes":
		g, buf := guard(toBytes(e.i[2:]))
		*d = s.MulBytes(buf)
		g.verify()
	case "observe":
		rep := d.ToRepr()
		if str := d.String(); str != fmt.Sprintf("Fq(0x%096x)", fqReprBig(rep)) {
			panic("String() is " + str)
		}
		return []*big.Int{boolBig(d.Equals(s)), intBig(d.Cmp(s)), boolBig(d.IsZero()), boolBig(d.Parity()), boolBig(rep.IsOdd())}
	case "copy":
		*d = s.Copy()
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
