package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
)

// point in the specification's form: the coordinates, or nothing for the identity
func g1Coords(p *bls.G1Affine) []*big.Int {
	if p.IsZero() {
		return nil
	}
	return residues(p.String())
}

func g2Coords(p *bls.G2Affine) []*big.Int {
	if p.IsZero() {
		return nil
	}
	return residues(p.String())
}

func g1Affine(l []*big.Int) *bls.G1Affine {
	if len(l) == 0 {
		return bls.G1AffineZero.Copy()
	}
	return bls.NewG1Affine(fq(l[0]), fq(l[1]))
}

func g2Affine(l []*big.Int) *bls.G2Affine {
	if len(l) == 0 {
		return bls.G2AffineZero.Copy()
	}
	return bls.NewG2Affine(fq2(l[:2]), fq2(l[2:]))
}

// proj1 and proj2 build a projective point over the given (non-zero) z, or the identity
func proj1(l []*big.Int, z *big.Int) *bls.G1Projective {
	if len(l) == 0 {
		return bls.G1ProjectiveZero.Copy()
	}
	zz := fq(z)
	zz.SquareAssign()
	x := fq(l[0])
	x.MulAssign(zz)
	zz.MulAssign(fq(z))
	y := fq(l[1])
	y.MulAssign(zz)
	return bls.NewG1Projective(x, y, fq(z))
}

func proj2(l []*big.Int, z bls.FQ2) *bls.G2Projective {
	if len(l) == 0 {
		return bls.G2ProjectiveZero.Copy()
	}
	zz := z
	zz.SquareAssign()
	x := fq2(l[:2])
	x.MulAssign(zz)
	zz.MulAssign(z)
	y := fq2(l[2:])
	y.MulAssign(zz)
	return bls.NewG2Projective(x, y, z)
}

func unflat(l []*big.Int) []*big.Int {
	if l[0].Sign() != 0 {
		return nil
	}
	return l[1:]
}

func flat(l []*big.Int) []*big.Int {
	if len(l) == 0 {
		return []*big.Int{intBig(1)}
	}
	return append([]*big.Int{intBig(0)}, l...)
}

func diffPoint(what string, got, want []*big.Int) string {
	if !sameInts(got, want) {
		return fmt.Sprintf("%s is %s, specification says %s", what, show(got), show(want))
	}
	return ""
}

type g1Machine struct {
	p [3]*bls.G1Projective
	a [2]*bls.G1Affine
}
type g2Machine struct {
	p [3]*bls.G2Projective
	a [2]*bls.G2Affine
}

func init() {
	machines["m_g1"] = func() machine { return &g1Machine{} }
	machines["m_g2"] = func() machine { return &g2Machine{} }
}

func (m *g1Machine) start(st map[string]val) {
	for i, v := range st["pr"].([]val) {
		m.p[i] = proj1(ints(v), intBig(1))
	}
	for i, v := range st["af"].([]val) {
		m.a[i] = g1Affine(ints(v))
	}
}

func (m *g1Machine) check(st map[string]val) string {
	for i, v := range st["pr"].([]val) {
		want := ints(v)
		if d := diffPoint(fmt.Sprintf("projective register %d", i), g1Coords(m.p[i].ToAffine()), want); d != "" {
			return d
		}
		if m.p[i].IsZero() != (len(want) == 0) {
			return fmt.Sprintf("projective register %d: IsZero is %v", i, m.p[i].IsZero())
		}
	}
	for i, v := range st["af"].([]val) {
		if d := diffPoint(fmt.Sprintf("affine register %d", i), g1Coords(m.a[i]), ints(v)); d != "" {
			return d
		}
	}
	return ""
}

func (m *g1Machine) apply(e *event) []*big.Int {
	if e.op == "onCurve" {
		return []*big.Int{boolBig(bls.NewG1Affine(fq(e.i[0]), fq(e.i[1])).IsOnCurve())}
	}
	d := e.n(0)
	k := 0
	if len(e.i) > 1 && e.i[1].IsInt64() {
		k = e.n(1)
	}
	switch e.op {
	case "set":
		m.p[d] = bls.NewG1Projective(fq(e.i[1]), fq(e.i[2]), fq(e.i[3]))
	case "setAff":
		m.a[d] = g1Affine(unflat(e.i[1:]))
	case "add":
		m.p[d] = m.p[d].Add(m.p[k])
	case "addAff":
		m.p[d] = m.p[d].AddAffine(m.a[k])
	case "addConst":
		m.p[d] = m.p[d].AddAffine(g1Affine(e.i[1:]))
	case "double":
		m.p[d] = m.p[d].Double()
	case "neg":
		m.p[d].NegAssign()
	case "copy":
		m.p[d] = m.p[k].Copy()
	case "toAffine":
		m.a[d] = m.p[k].ToAffine()
	case "toProj":
		m.p[d] = m.a[k].ToProjective()
	case "negAff":
		m.a[d].NegAssign()
	case "copyAff":
		m.a[d] = m.a[k].Copy()
	case "observe":
		if a, b := m.p[d].Equal(m.p[k]), m.p[k].Equal(m.p[d]); a != b {
			panic("equality is not symmetric")
		}
		return []*big.Int{boolBig(m.p[d].IsZero()), boolBig(m.p[d].Equal(m.p[k]))}
	case "observeAff":
		if a, b := m.a[d].Equals(m.a[k]), m.a[k].Equals(m.a[d]); a != b {
			panic("equality is not symmetric")
		}
		return []*big.Int{boolBig(m.a[d].IsZero()), boolBig(m.a[d].Equals(m.a[k])), boolBig(m.a[d].IsOnCurve())}
	case "mul":
		m.p[d] = m.p[k].Mul(fqRepr(e.i[2]))
	case "mulFR":
		n := frRepr(e.i[2])
		m.p[d] = m.p[k].MulFR(n)
		sameRepr(n, frRepr(e.i[2]))
	case "mulAff":
		m.p[d] = m.a[k].Mul(fqRepr(e.i[2]))
	case "mulAffFR":
		n := frRepr(e.i[2])
		m.p[d] = m.a[k].MulFR(n)
		sameRepr(n, frRepr(e.i[2]))
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}

func (m *g2Machine) start(st map[string]val) {
	for i, v := range st["pr"].([]val) {
		m.p[i] = proj2(ints(v), bls.FQ2One.Copy())
	}
	for i, v := range st["af"].([]val) {
		m.a[i] = g2Affine(ints(v))
	}
}

func (m *g2Machine) check(st map[string]val) string {
	for i, v := range st["pr"].([]val) {
		want := ints(v)
		if d := diffPoint(fmt.Sprintf("projective register %d", i), g2Coords(m.p[i].ToAffine()), want); d != "" {
			return d
		}
		if m.p[i].IsZero() != (len(want) == 0) {
			return fmt.Sprintf("projective register %d: IsZero is %v", i, m.p[i].IsZero())
		}
	}
	for i, v := range st["af"].([]val) {
		if d := diffPoint(fmt.Sprintf("affine register %d", i), g2Coords(m.a[i]), ints(v)); d != "" {
			return d
		}
	}
	return ""
}

func (m *g2Machine) apply(e *event) []*big.Int {
	if e.op == "onCurve" {
		return []*big.Int{boolBig(bls.NewG2Affine(fq2(e.i[:2]), fq2(e.i[2:])).IsOnCurve())}
	}
	d := e.n(0)
	k := 0
	if len(e.i) > 1 && e.i[1].IsInt64() {
		k = e.n(1)
	}
	switch e.op {
	case "set":
		m.p[d] = bls.NewG2Projective(fq2(e.i[1:3]), fq2(e.i[3:5]), fq2(e.i[5:7]))
	case "setAff":
		m.a[d] = g2Affine(unflat(e.i[1:]))
	case "add":
		m.p[d] = m.p[d].Add(m.p[k])
	case "addAff":
		m.p[d] = m.p[d].AddAffine(m.a[k])
	case "double":
		m.p[d] = m.p[d].Double()
	case "copy":
		m.p[d] = m.p[k].Copy()
	case "toAffine":
		m.a[d] = m.p[k].ToAffine()
	case "toProj":
		m.p[d] = m.a[k].ToProjective()
	case "negAff":
		m.a[d].NegAssign()
	case "copyAff":
		m.a[d] = m.a[k].Copy()
	case "observe":
		if a, b := m.p[d].Equals(m.p[k]), m.p[k].Equals(m.p[d]); a != b {
			panic("equality is not symmetric")
		}
		return []*big.Int{boolBig(m.p[d].IsZero()), boolBig(m.p[d].Equals(m.p[k]))}
	case "observeAff":
		if a, b := m.a[d].Equals(m.a[k]), m.a[k].Equals(m.a[d]); a != b {
			panic("equality is not symmetric")
		}
		return []*big.Int{boolBig(m.a[d].IsZero()), boolBig(m.a[d].Equals(m.a[k])), boolBig(m.a[d].IsOnCurve())}
	case "mul":
		m.p[d] = m.p[k].Mul(fqRepr(e.i[2]))
	case "mulFR":
		n := frRepr(e.i[2])
		m.p[d] = m.p[k].MulFR(n)
		sameRepr(n, frRepr(e.i[2]))
	case "mulAff":
		m.p[d] = m.a[k].Mul(fqRepr(e.i[2]))
	case "mulAffFR":
		n := frRepr(e.i[2])
		m.p[d] = m.a[k].MulFR(n)
		sameRepr(n, frRepr(e.i[2]))
	case "mulAffBig":
		n := new(big.Int).Set(e.i[2])
		m.p[d] = m.a[k].MulBig(*n)
		if n.Cmp(e.i[2]) != 0 {
			panic("argument modified")
		}
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
