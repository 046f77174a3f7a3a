package main

import (
	"math/big"

	"github.com/phoreproject/bls"
)

// pairing machine: points, their prepared forms (prepared once, used many
// times) and the last target-group element.
type pairM struct {
	p  [2]*bls.G1Affine
	q  [2]*bls.G2Affine
	qp [2]*bls.G2Prepared
	t  *bls.FQ12
	n  int
	// variables that take one point after the other
	cell1 [2]bls.G1Projective
	cell2 [2]bls.G2Projective
	calls int
}

func init() { machines["m_pair"] = func() machine { return &pairM{} } }

// Half of the time a point is changed in place, so that what was computed from it is out of date.
func (m *pairM) setP(d int, l []*big.Int) {
	m.n++
	if p := g1Affine(l); m.n%2 == 0 {
		m.p[d].SetRawBytes(p.SerializeBytes())
	} else {
		m.p[d] = p
	}
}

func (m *pairM) setQ(d int, l []*big.Int) {
	m.n++
	if q := g2Affine(l); m.n%2 == 0 && m.q[d] != nil {
		must(m.q[d].SetRawBytes(q.SerializeBytes()))
	} else {
		m.q[d] = q
	}
	m.qp[d] = bls.G2AffineToPrepared(m.q[d])
}

func (m *pairM) start(st map[string]val) {
	for i, v := range st["p"].([]val) {
		m.p[i] = g1Affine(ints(v))
	}
	for i, v := range st["q"].([]val) {
		m.setQ(i, ints(v))
	}
	m.t = fq12(ints(st["t"]))
}

func (m *pairM) check(st map[string]val) string {
	for i, v := range st["p"].([]val) {
		if d := diffPoint("G1 point", g1Coords(m.p[i]), ints(v)); d != "" {
			return d
		}
	}
	for i, v := range st["q"].([]val) {
		if d := diffPoint("G2 point", g2Coords(m.q[i]), ints(v)); d != "" {
			return d
		}
		if m.qp[i].IsZero() != (len(ints(v)) == 0) {
			return "prepared point has the wrong zero flag"
		}
	}
	if got, want := residues(m.t.String()), ints(st["t"]); !sameInts(got, want) {
		return "target element is " + show(got) + ", specification says " + show(want)
	}
	return ""
}

func nonzero(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		return big.NewInt(1)
	}
	return x
}

// the points in the projective form the z coordinates prescribe
func (m *pairM) make1(i int, zs []*big.Int) *bls.G1Projective {
	if m.p[i].IsZero() && zs[0].BitLen() > 1 {
		// any coordinates over z = 0
		return bls.NewG1Projective(fq(zs[0]), fq(zs[1]), bls.FQZero)
	}
	return proj1(g1Coords(m.p[i]), nonzero(zs[0]))
}

func (m *pairM) make2(j int, zs []*big.Int) *bls.G2Projective {
	z := []*big.Int{zs[1], zs[2]}
	if zs[1].Sign() == 0 && zs[2].Sign() == 0 {
		z[0] = big.NewInt(1)
	}
	if m.q[j].IsZero() && zs[0].BitLen() > 1 {
		return bls.NewG2Projective(fq2(z), fq2(z), bls.FQ2Zero)
	}
	return proj2(g2Coords(m.q[j]), fq2(z))
}

func (m *pairM) proj1(i int, zs []*big.Int) *bls.G1Projective {
	p := m.make1(i, zs)
	if m.calls++; m.calls/3%2 == 0 {
		m.cell1[i] = *p
		return &m.cell1[i]
	}
	return p
}

func (m *pairM) proj2(j int, zs []*big.Int) *bls.G2Projective {
	q := m.make2(j, zs)
	if m.calls++; m.calls/5%3 != 0 {
		m.cell2[j] = *q
		return &m.cell2[j]
	}
	return q
}

func (m *pairM) apply(e *event) []*big.Int {
	switch e.op {
	case "setP":
		m.setP(e.n(0), unflat(e.i[1:]))
	case "setQ":
		m.setQ(e.n(0), unflat(e.i[1:]))
	case "setBoth":
		n := e.n(1)
		m.setP(e.n(0), e.i[2:2+n])
		m.setQ(e.n(0), e.i[2+n:])
	case "pair":
		m.t = bls.Pairing(m.proj1(e.n(0), e.i[2:]), m.proj2(e.n(1), e.i[2:]))
		return residues(m.t.String())
	case "times":
		m.t.MulAssign(bls.Pairing(m.proj1(e.n(0), e.i[2:]), m.proj2(e.n(1), e.i[2:])))
		return residues(m.t.String())
	case "loop":
		items := make([]bls.MillerLoopItem, 0)
		for _, w := range e.i {
			n := int(w.Int64())
			items = append(items, bls.MillerLoopItem{P: m.p[n/2], Q: m.qp[n%2]})
		}
		m.t = bls.FinalExponentiation(bls.MillerLoop(items))
		for k, w := range e.i {
			n := int(w.Int64())
			if items[k].P != m.p[n/2] || items[k].Q != m.qp[n%2] {
				panic("the list of pairs was modified")
			}
		}
		return residues(m.t.String())
	case "compare":
		zs := e.i[4:]
		same := bls.CompareTwoPairings(m.proj1(e.n(0), zs), m.proj2(e.n(1), zs), m.proj1(e.n(2), zs), m.proj2(e.n(3), zs))
		return []*big.Int{boolBig(same)}
	case "finalExp":
		f := fq12(e.i)
		r := bls.FinalExponentiation(f)
		if got := residues(f.String()); !sameInts(got, e.i) {
			panic("final exponentiation changed its operand to " + show(got))
		}
		if r == nil {
			return nil
		}
		return residues(r.String())
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
