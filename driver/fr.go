package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
)

type frMachine struct{ reg []*bls.FR }

func init() { machines["m_fr"] = func() machine { return &frMachine{} } }

func (m *frMachine) start(st map[string]val) {
	for _, x := range ints(st["reg"]) {
		m.reg = append(m.reg, fr(x))
	}
}

func (m *frMachine) check(st map[string]val) string {
	for i, x := range ints(st["reg"]) {
		if d := checkFR(fmt.Sprintf("register %d", i), m.reg[i], x); d != "" {
			return d
		}
	}
	return ""
}

var rBig, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)

func sameRepr(a, b *bls.FRRepr) {
	if *a != *b {
		panic("argument modified")
	}
}

func (m *frMachine) apply(e *event) []*big.Int {
	one := []*big.Int{intBig(1)}
	zero := []*big.Int{intBig(0)}
	k := e.n(0)
	d := m.reg[k]
	var s *bls.FR
	if len(e.i) > 1 && e.i[1].IsInt64() && e.i[1].Int64() >= 0 && e.i[1].Int64() < 4 {
		s = m.reg[e.n(1)]
	}
	switch e.op {
	case "set":
		m.reg[k] = fr(e.i[1])
	case "fromRepr":
		src := frRepr(e.i[1])
		f := bls.FRReprToFR(src)
		sameRepr(src, frRepr(e.i[1]))
		if f == nil {
			return zero
		}
		m.reg[k] = f
		// the element must not keep the source
		*src = bls.FRRepr{1, 2, 3, 4}
		return one
	case "add":
		d.AddAssign(s)
	case "sub":
		d.SubAssign(s)
	case "mul":
		d.MulAssign(s)
	case "square":
		d.SquareAssign()
	case "double":
		d.DoubleAssign()
	case "neg":
		d.NegAssign()
	case "inverse":
		i := s.Inverse()
		if i == nil {
			return zero
		}
		m.reg[k] = i
		return one
	case "exp":
		n := frRepr(e.i[2])
		m.reg[k] = s.Exp(n)
		sameRepr(n, frRepr(e.i[2]))
	case "mulBits":
		n := frRepr(e.i[2])
		m.reg[k] = s.MulBits(n)
		sameRepr(n, frRepr(e.i[2]))
	case "mulBytes":
		g, buf := guard(toBytes(e.i[2:]))
		m.reg[k] = s.MulBytes(buf)
		g.verify()
	case "observe":
		if str := d.String(); str != fmt.Sprintf("FR(0x%064x)", frReprBig(d.ToRepr())) {
			panic("String() is " + str)
		}
		return []*big.Int{boolBig(d.Equals(s)), intBig(d.Cmp(s)), boolBig(d.IsZero()), boolBig(d.Parity())}
	case "copy":
		m.reg[k] = s.Copy()
	case "bytes":
		b := d.Bytes()
		return bytesBig(b[:])
	case "legendre":
		return []*big.Int{intBig(int(d.Legendre()))}
	case "sqrtOfSquare":
		f := fr(e.i[1])
		m.reg[k] = f
		root := f.Sqrt()
		if root == nil {
			return zero
		}
		// either root is right
		x := frBig(root)
		if x.Mul(x, x).Mod(x, rBig).Cmp(e.i[1]) != 0 {
			panic("not a square root: " + root.String())
		}
		root.AddAssign(fr(intBig(1))) // the root is a fresh object
		return one
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
