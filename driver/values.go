package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// values holds one live object per slot of the specification's heap.
type values struct {
	rp   [2]*bls.FRRepr
	el   [2]*bls.FR
	f6   [2]*bls.FQ6
	f12  [2]*bls.FQ12
	a1   [2]*bls.G1Affine
	p1   [2]*bls.G1Projective
	a2   [2]*bls.G2Affine
	p2   [2]*bls.G2Projective
	k1   *g1pubs.SecretKey
	k2   *g2pubs.SecretKey
	pub1 [2]*g1pubs.PublicKey
	sig1 [2]*g1pubs.Signature
	pub2 [2]*g2pubs.PublicKey
	sig2 [2]*g2pubs.Signature
	prep *bls.G2Prepared
	f2   [2]bls.FQ2
	f    [2]bls.FQ
	qr   [2]bls.FQRepr

	consts  []*big.Int
	q       *big.Int
	prepped int
}

func init() { machines["m_values"] = func() machine { return &values{} } }

func readConsts() []*big.Int {
	out := []*big.Int{
		fqBig(bls.FQZero), fqBig(bls.FQOne), fqReprBig(bls.QFieldModulus), fqReprBig(bls.FQR2),
		frReprBig(bls.RFieldModulus), frReprBig(bls.FRR), frReprBig(bls.FRR2), fqBig(bls.BCoeff),
	}
	for _, x := range []bls.FQ2{bls.BCoeffFQ2, bls.FQ2Zero, bls.FQ2One} {
		out = append(out, fq2Big(x)...)
	}
	out = append(out, residues(bls.FQ6Zero.String())...)
	out = append(out, residues(bls.FQ6One.String())...)
	out = append(out, residues(bls.FQ12Zero.String())...)
	out = append(out, residues(bls.FQ12One.String())...)
	out = append(out, flat(g1Coords(bls.G1AffineZero))...)
	out = append(out, flat(g1Coords(bls.G1AffineOne))...)
	out = append(out, flat(g1Coords(bls.G1ProjectiveZero.ToAffine()))...)
	out = append(out, flat(g1Coords(bls.G1ProjectiveOne.ToAffine()))...)
	out = append(out, flat(g2Coords(bls.G2AffineZero))...)
	out = append(out, flat(g2Coords(bls.G2AffineOne))...)
	out = append(out, flat(g2Coords(bls.G2ProjectiveZero.ToAffine()))...)
	out = append(out, flat(g2Coords(bls.G2ProjectiveOne.ToAffine()))...)
	return out
}

func (m *values) start(st map[string]val) {
	m.consts = ints(st["ev"].(map[string]val)["i"])
	m.q = m.consts[2]
	o := st["obj"].([]val)
	at := func(i int) []*big.Int { return ints(o[i]) }
	for i := 0; i < 2; i++ {
		m.rp[i] = frRepr(at(i)[0])
		m.el[i] = fr(at(2 + i)[0])
		m.f6[i] = fq6(at(4 + i))
		m.f12[i] = fq12(at(6 + i))
		m.a1[i] = g1Affine(at(8 + i))
		m.p1[i] = proj1(at(10+i), intBig(1))
		m.a2[i] = g2Affine(at(12 + i))
		m.p2[i] = proj2(at(14+i), fq2([]*big.Int{intBig(1), intBig(0)}))
		m.pub1[i] = g1pubs.NewPublicKeyFromG1(g1Affine(at(18 + i)))
		m.sig1[i] = g1pubs.NewSignatureFromG2(g2Affine(at(20 + i)))
		m.pub2[i] = g2pubs.NewPublicKeyFromG2(g2Affine(at(22 + i)))
		m.sig2[i] = g2pubs.NewSignatureFromG1(g1Affine(at(24 + i)))
		m.f2[i] = fq2(at(27 + i))
		m.f[i] = fq(at(29 + i)[0])
		m.qr[i] = fqRepr(at(31 + i)[0])
	}
	m.k1 = g1pubs.KeyFromFQRepr(frRepr(at(16)[0]))
	m.k2 = g2pubs.KeyFromFQRepr(frRepr(at(17)[0]))
	m.prep = bls.G2AffineToPrepared(g2Affine(at(26)))
}

// keyBig reads a secret key through its serialization.
func keyBig(b [32]byte) *big.Int { return new(big.Int).SetBytes(b[:]) }

func (m *values) read(i int) []*big.Int {
	switch {
	case i < 2:
		return []*big.Int{frReprBig(m.rp[i])}
	case i < 4:
		return []*big.Int{frBig(m.el[i-2])}
	case i < 6:
		return residues(m.f6[i-4].String())
	case i < 8:
		return residues(m.f12[i-6].String())
	case i < 10:
		return g1Coords(m.a1[i-8])
	case i < 12:
		return g1Coords(m.p1[i-10].ToAffine())
	case i < 14:
		return g2Coords(m.a2[i-12])
	case i < 16:
		return g2Coords(m.p2[i-14].ToAffine())
	case i == 16:
		return []*big.Int{keyBig(m.k1.Serialize())}
	case i == 17:
		return []*big.Int{keyBig(m.k2.Serialize())}
	case i < 20:
		return g1Coords(m.pub1[i-18].GetPoint().ToAffine())
	case i < 22:
		return g2Coords(m.sig1[i-20].GetPoint().ToAffine())
	case i < 24:
		return g2Coords(m.pub2[i-22].GetPoint().ToAffine())
	case i < 26:
		return g1Coords(m.sig2[i-24].GetPoint().ToAffine())
	case i < 29:
		return fq2Big(m.f2[i-27])
	case i < 31:
		return []*big.Int{fqBig(m.f[i-29])}
	default:
		return []*big.Int{fqReprBig(m.qr[i-31])}
	}
}

func (m *values) check(st map[string]val) string {
	if got := readConsts(); !sameInts(got, m.consts) {
		return fmt.Sprintf("the exported constants are %s, specification says %s", show(got), show(m.consts))
	}
	for i, v := range st["obj"].([]val) {
		want := ints(v)
		if i == 26 {
			// the prepared form acts as that of the point it was made from
			if m.prep.IsZero() != (len(want) == 0) {
				return fmt.Sprintf("prepared point: IsZero is %v", m.prep.IsZero())
			}
			m.prepped++
			if m.prepped%97 == 0 {
				one := func(q *bls.G2Prepared) *bls.FQ12 {
					return bls.MillerLoop([]bls.MillerLoopItem{{P: bls.G1AffineOne.Copy(), Q: q}})
				}
				if !one(m.prep).Equals(one(bls.G2AffineToPrepared(g2Affine(want)))) {
					return "the prepared point is not that of " + show(want)
				}
			}
			continue
		}
		if got := m.read(i); !sameInts(got, want) {
			return fmt.Sprintf("object %d is %s, specification says %s", i, show(got), show(want))
		}
	}
	return ""
}

func (m *values) big(l []*big.Int) bool {
	// whether a coordinate (of one or two residues) exceeds its negation
	half := new(big.Int).Rsh(m.q, 1)
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].Sign() != 0 {
			return l[i].Cmp(half) > 0
		}
	}
	return false
}

func raw96(l []*big.Int) (out [96]byte) {
	c := unflat(l)
	if len(c) == 0 {
		c = []*big.Int{intBig(0), intBig(1)}
	}
	for i, x := range c {
		x.FillBytes(out[48*i : 48*i+48])
	}
	return
}

func raw192(l []*big.Int) (out [192]byte) {
	c := unflat(l)
	if len(c) == 0 {
		c = []*big.Int{intBig(0), intBig(0), intBig(1), intBig(0)}
	}
	for i, x := range c {
		x.FillBytes(out[48*i : 48*i+48])
	}
	return
}

func must(err error) {
	if err != nil {
		panic("unexpected error: " + err.Error())
	}
}

func (m *values) apply(e *event) []*big.Int {
	d, s, t := e.n(0), 0, 0
	// operands that are registers or small numbers
	if len(e.i) > 1 && e.i[1].IsInt64() && e.i[1].Int64() < 1000 {
		s = e.n(1)
	}
	if len(e.i) > 2 && e.i[2].IsInt64() && e.i[2].Int64() < 1000 {
		t = e.n(2)
	}
	switch e.op {
	case "verify":
		m.verify(e.n(0), e.n(1), e.n(2))
		return nil
	case "pairing":
		m.pairing(e.n(0), e.n(1), e.n(2))
		return nil
	}
	switch {
	case d < 2:
		m.reprOp(e, d, s)
	case d < 4:
		m.frOp(e, d-2, s, t)
	case d < 6:
		m.f6Op(e, d-4, s, t)
	case d < 8:
		m.f12Op(e, d-6, s, t)
	case d < 10:
		m.aff1Op(e, d-8, s, t)
	case d < 12:
		m.proj1Op(e, d-10, s, t)
	case d < 14:
		m.aff2Op(e, d-12, s, t)
	case d < 16:
		m.proj2Op(e, d-14, s, t)
	case d < 18:
		m.keyOp(e, d, s, t)
	case d < 20:
		m.pub1Op(e, d-18, s)
	case d < 22:
		m.sig1Op(e, d-20, s)
	case d < 24:
		m.pub2Op(e, d-22, s)
	case d < 26:
		m.sig2Op(e, d-24, s)
	case d == 26:
		m.prep = bls.G2AffineToPrepared(m.a2[s])
	case d < 29:
		m.f2Op(e, d-27, s, t)
	case d < 31:
		m.fqOp(e, d-29, s, t)
	default:
		m.qreprOp(e, d-31, s)
	}
	return nil
}

func unknown(e *event) { panic(harnessError("unknown op " + e.op)) }

func (m *values) reprOp(e *event, d, s int) {
	r := m.rp[d]
	switch e.op {
	case "reprSet":
		n := new(big.Int).Set(e.i[2])
		var err error
		switch s {
		case 0:
			if n.IsUint64() {
				m.rp[d] = bls.NewFRRepr(n.Uint64())
			} else {
				var b [32]byte
				n.FillBytes(b[:])
				m.rp[d] = bls.FRReprFromBytes(b)
			}
		case 1:
			m.rp[d], err = bls.FRReprFromString(n.Text(10), 10)
		case 2:
			m.rp[d] = bls.FRReprFromBytes(frRepr(n).Bytes())
		default:
			m.rp[d], err = bls.FRReprFromBigInt(n)
			if n.Cmp(e.i[2]) != 0 {
				panic("the caller's integer was modified")
			}
			// the number made from it does not follow it
			scramble(n)
		}
		must(err)
	case "reprCopy":
		m.rp[d] = m.rp[s].Copy()
	case "reprOfFR":
		m.rp[d] = m.el[s].ToRepr()
	case "reprOfKey":
		if s == 0 {
			m.rp[d] = m.k1.GetFRElement().ToRepr()
		} else {
			m.rp[d] = m.k2.GetFRElement().ToRepr()
		}
	case "reprRsh":
		r.Rsh(uint(s))
	case "reprLsh":
		r.Lsh(uint(s))
	case "reprDiv2":
		r.Div2()
	case "reprMul2":
		r.Mul2()
	case "reprAdd":
		r.AddNoCarry(m.rp[s])
	case "reprSub":
		r.SubNoBorrow(m.rp[s])
	default:
		unknown(e)
	}
	// a number taken out does not lead back
	scramble(m.rp[d].ToBig())
}

// scramble overwrites an integer in place.
func scramble(n *big.Int) {
	for i := range n.Bits() {
		n.Bits()[i] = 0x5a
	}
}

func (m *values) frOp(e *event, d, s, t int) {
	f, x := m.el[d], m.el[s%2]
	switch e.op {
	case "frOfRepr":
		if y := bls.FRReprToFR(m.rp[s]); y != nil {
			m.el[d] = y
		}
	case "frCopy":
		m.el[d] = x.Copy()
	case "frAdd":
		f.AddAssign(x)
	case "frSub":
		f.SubAssign(x)
	case "frMul":
		f.MulAssign(x)
	case "frNeg":
		f.NegAssign()
	case "frDouble":
		f.DoubleAssign()
	case "frSquare":
		f.SquareAssign()
	case "frExp":
		m.el[d] = x.Exp(m.rp[t])
	case "frInverse":
		if y := x.Inverse(); y != nil && !x.IsZero() {
			m.el[d] = y
		}
	case "frSqrt":
		if y := x.Sqrt(); y != nil {
			y.SquareAssign()
			m.el[d] = y
		}
	case "frMulBits":
		m.el[d] = x.MulBits(m.rp[t])
	case "frMulBytes":
		g, buf := guard(toBytes(e.i[2:]))
		m.el[d] = x.MulBytes(buf)
		g.verify()
	case "frHash":
		m.el[d] = bls.HashFR(&fixedHash{digest: toBytes(e.i[1:])})
	case "frOfKey":
		if s == 0 {
			m.el[d] = m.k1.GetFRElement()
		} else {
			m.el[d] = m.k2.GetFRElement()
		}
	default:
		unknown(e)
	}
}

func (m *values) f6Op(e *event, d, s, t int) {
	f, x := m.f6[d], m.f6[s%2]
	switch e.op {
	case "f6Set":
		m.f6[d] = bls.NewFQ6(fq2(e.i[3:5]), m.f2[s], m.f2[t])
	case "f6Const":
		if s == 0 {
			m.f6[d] = bls.FQ6Zero.Copy()
		} else {
			m.f6[d] = bls.FQ6One.Copy()
		}
	case "f6Copy":
		m.f6[d] = x.Copy()
	case "f6Add":
		f.AddAssign(x)
	case "f6Sub":
		f.SubAssign(x)
	case "f6Mul":
		f.MulAssign(x)
	case "f6Neg":
		f.NegAssign()
	case "f6Double":
		f.DoubleAssign()
	case "f6Square":
		f.SquareAssign()
	case "f6Inverse":
		f.InverseAssign()
	case "f6Frob":
		f.FrobeniusMapAssign(uint8(s))
	case "f6Exp":
		n := bls.NewFQRepr(uint64(t))
		m.f6[d] = x.Exp(&n)
		if n != bls.NewFQRepr(uint64(t)) {
			panic("the exponent was modified")
		}
	case "f6Nonres":
		f.MulByNonresidueAssign()
	case "f6By1":
		f.MulBy1Assign(m.f2[s])
	case "f6By01":
		f.MulBy01Assign(m.f2[s], m.f2[t])
	default:
		unknown(e)
	}
}

func (m *values) f12Op(e *event, d, s, t int) {
	f, x := m.f12[d], m.f12[s%2]
	switch e.op {
	case "f12New":
		m.f12[d] = bls.NewFQ12(m.f6[s], m.f6[t])
	case "f12Const":
		if s == 0 {
			m.f12[d] = bls.FQ12Zero.Copy()
		} else {
			m.f12[d] = bls.FQ12One.Copy()
		}
	case "f12Copy":
		m.f12[d] = x.Copy()
	case "f12Add":
		f.AddAssign(x)
	case "f12Sub":
		f.SubAssign(x)
	case "f12Mul":
		f.MulAssign(x)
	case "f12Neg":
		f.NegAssign()
	case "f12Double":
		f.DoubleAssign()
	case "f12Square":
		f.SquareAssign()
	case "f12Inverse":
		f.InverseAssign()
	case "f12Frob":
		f.FrobeniusMapAssign(uint8(s))
	case "f12Exp":
		m.f12[d] = x.Exp(bls.NewFQRepr(uint64(t)))
	case "f12Conj":
		f.ConjugateAssign()
	case "f12By014":
		f.MulBy014Assign(m.f2[s], m.f2[t], m.f2[0])
	case "f12Unit":
		switch s {
		case 0:
			m.f12[d] = bls.MillerLoop(nil)
		case 1:
			m.f12[d] = bls.MillerLoop([]bls.MillerLoopItem{{P: bls.G1AffineZero, Q: m.prep}})
		case 2:
			m.f12[d] = bls.Pairing(bls.G1ProjectiveZero, m.p2[t])
		case 3:
			m.f12[d] = bls.Pairing(m.p1[t], bls.G2ProjectiveZero)
		default:
			m.f12[d] = m.f12[t].Exp(bls.NewFQRepr(0))
		}
	default:
		unknown(e)
	}
}

func (m *values) aff1Op(e *event, d, s, t int) {
	x := m.a1[s%2]
	switch e.op {
	case "affZero":
		m.a1[d] = bls.G1AffineZero.Copy()
	case "affOne":
		m.a1[d] = bls.G1AffineOne.Copy()
	case "affCopy":
		m.a1[d] = x.Copy()
	case "affNeg":
		m.a1[d].NegAssign()
	case "affRaw":
		m.a1[d].SetRawBytes(raw96(e.i[1:]))
	case "affOfProj":
		m.a1[d] = m.p1[s].ToAffine()
	case "affDecompress":
		p, err := bls.DecompressG1(bls.CompressG1(x))
		must(err)
		m.a1[d] = p
	case "affFromX":
		if c := g1Coords(x); len(c) == 0 {
			p, err := bls.DecompressG1Unchecked(bls.CompressG1(x))
			must(err)
			m.a1[d] = p
		} else {
			p, err := bls.GetG1PointFromX(fq(c[0]), m.big(c[1:]))
			must(err)
			m.a1[d] = p
		}
	case "affClear":
		m.a1[d] = bls.ClearH(x)
	case "affOfObj":
		if s == 0 {
			m.a1[d] = m.pub1[t].GetPoint().ToAffine()
		} else {
			m.a1[d] = m.sig2[t].GetPoint().ToAffine()
		}
	default:
		unknown(e)
	}
}

func (m *values) aff2Op(e *event, d, s, t int) {
	x := m.a2[s%2]
	switch e.op {
	case "affZero":
		m.a2[d] = bls.G2AffineZero.Copy()
	case "affOne":
		m.a2[d] = bls.G2AffineOne.Copy()
	case "affCopy":
		m.a2[d] = x.Copy()
	case "affNeg":
		m.a2[d].NegAssign()
	case "affRaw":
		must(m.a2[d].SetRawBytes(raw192(e.i[1:])))
	case "affOfProj":
		m.a2[d] = m.p2[s].ToAffine()
	case "affDecompress":
		p, err := bls.DecompressG2(bls.CompressG2(x))
		must(err)
		m.a2[d] = p
	case "affFromX":
		if c := g2Coords(x); len(c) == 0 {
			p, err := bls.DecompressG2Unchecked(bls.CompressG2(x))
			must(err)
			m.a2[d] = p
		} else {
			p, err := bls.GetG2PointFromX(fq2(c[:2]), m.big(c[2:]))
			must(err)
			m.a2[d] = p
		}
	case "affEncodeZero":
		m.a2[d] = bls.SWEncodeG2(bls.FQ2Zero)
	case "affOfObj":
		if s == 0 {
			m.a2[d] = m.pub2[t].GetPoint().ToAffine()
		} else {
			m.a2[d] = m.sig1[t].GetPoint().ToAffine()
		}
	default:
		unknown(e)
	}
}

func (m *values) proj1Op(e *event, d, s, t int) {
	x := m.p1[s%2]
	switch e.op {
	case "projZero":
		m.p1[d] = bls.G1ProjectiveZero.Copy()
	case "projOne":
		m.p1[d] = bls.G1ProjectiveOne.Copy()
	case "projCopy":
		m.p1[d] = x.Copy()
	case "projNeg":
		m.p1[d].NegAssign()
	case "projOfAff":
		m.p1[d] = m.a1[s].ToProjective()
	case "projDouble":
		m.p1[d] = x.Double()
	case "projAdd":
		m.p1[d] = x.Add(m.p1[t])
	case "projAddAff":
		m.p1[d] = x.AddAffine(m.a1[t])
	case "projMul", "projMulAff":
		k := e.i[3]
		n := frRepr(k)
		switch {
		case e.op == "projMul" && t < 2:
			m.p1[d] = x.MulFR(n)
		case e.op == "projMul":
			m.p1[d] = x.Mul(fqRepr(k))
		case t < 2:
			m.p1[d] = m.a1[s].MulFR(n)
		default:
			m.p1[d] = m.a1[s].Mul(fqRepr(k))
		}
		sameRepr(n, frRepr(k))
	case "projOfObj":
		if s == 0 {
			m.p1[d] = m.pub1[t].GetPoint()
		} else {
			m.p1[d] = m.sig2[t].GetPoint()
		}
	default:
		unknown(e)
	}
}

func (m *values) proj2Op(e *event, d, s, t int) {
	x := m.p2[s%2]
	switch e.op {
	case "projZero":
		m.p2[d] = bls.G2ProjectiveZero.Copy()
	case "projOne":
		m.p2[d] = bls.G2ProjectiveOne.Copy()
	case "projCopy":
		m.p2[d] = x.Copy()
	case "projOfAff":
		m.p2[d] = m.a2[s].ToProjective()
	case "projDouble":
		m.p2[d] = x.Double()
	case "projAdd":
		m.p2[d] = x.Add(m.p2[t])
	case "projAddAff":
		m.p2[d] = x.AddAffine(m.a2[t])
	case "projMulBig":
		b := new(big.Int).Set(e.i[2])
		m.p2[d] = m.a2[s].MulBig(*b)
		if b.Cmp(e.i[2]) != 0 {
			panic("the caller's integer was modified")
		}
	case "projMul", "projMulAff":
		k := e.i[3]
		n := frRepr(k)
		b := new(big.Int).Set(k)
		switch {
		case e.op == "projMul" && t < 2:
			m.p2[d] = x.MulFR(n)
		case e.op == "projMul":
			m.p2[d] = x.Mul(fqRepr(k))
		case t < 1:
			m.p2[d] = m.a2[s].MulFR(n)
		case t < 2:
			m.p2[d] = m.a2[s].MulBig(*b)
		default:
			m.p2[d] = m.a2[s].Mul(fqRepr(k))
		}
		sameRepr(n, frRepr(k))
		if b.Cmp(k) != 0 {
			panic("the caller's integer was modified")
		}
	case "projOfObj":
		if s == 0 {
			m.p2[d] = m.pub2[t].GetPoint()
		} else {
			m.p2[d] = m.sig1[t].GetPoint()
		}
	default:
		unknown(e)
	}
}

func (m *values) keyOp(e *event, d, s, style int) {
	if e.op != "keyOfRepr" {
		unknown(e)
	}
	r := m.rp[s]
	if d == 16 {
		k := g1pubs.KeyFromFQRepr(r)
		if style == 1 {
			k = g1pubs.DeserializeSecretKey(r.Bytes())
		}
		if k != nil {
			m.k1 = k
		}
		return
	}
	k := g2pubs.KeyFromFQRepr(r)
	if style == 1 {
		k = g2pubs.DeserializeSecretKey(r.Bytes())
	}
	if k != nil {
		m.k2 = k
	}
}

func (m *values) pub1Op(e *event, d, s int) {
	switch e.op {
	case "objBlank":
		m.pub1[d] = g1pubs.NewAggregatePubkey()
	case "objOfAff":
		m.pub1[d] = g1pubs.NewPublicKeyFromG1(m.a1[s])
	case "objCopy":
		m.pub1[d] = m.pub1[s].Copy()
	case "objAggregate":
		m.pub1[d].Aggregate(m.pub1[s])
	case "objList":
		var l []*g1pubs.PublicKey
		for _, k := range e.i[1:] {
			l = append(l, m.pub1[k.Int64()])
		}
		keep := append([]*g1pubs.PublicKey{}, l...)
		m.pub1[d] = g1pubs.AggregatePublicKeys(l)
		for i := range l {
			if l[i] != keep[i] {
				panic("the list of public keys was modified")
			}
		}
	case "objPass":
		p, err := g1pubs.DeserializePublicKey(m.pub1[s].Serialize())
		must(err)
		m.pub1[d] = p
	case "objPublic":
		m.pub1[d] = g1pubs.PrivToPub(m.k1)
	default:
		unknown(e)
	}
}

func (m *values) sig1Op(e *event, d, s int) {
	switch e.op {
	case "objBlank":
		m.sig1[d] = g1pubs.NewAggregateSignature()
	case "objOfAff":
		m.sig1[d] = g1pubs.NewSignatureFromG2(m.a2[s])
	case "objCopy":
		m.sig1[d] = m.sig1[s].Copy()
	case "objAggregate":
		m.sig1[d].Aggregate(m.sig1[s])
	case "objList":
		var l []*g1pubs.Signature
		for _, k := range e.i[1:] {
			l = append(l, m.sig1[k.Int64()])
		}
		keep := append([]*g1pubs.Signature{}, l...)
		m.sig1[d] = g1pubs.AggregateSignatures(l)
		for i := range l {
			if l[i] != keep[i] {
				panic("the list of signatures was modified")
			}
		}
	case "objPass":
		p, err := g1pubs.DeserializeSignature(m.sig1[s].Serialize())
		must(err)
		m.sig1[d] = p
	default:
		unknown(e)
	}
}

func (m *values) pub2Op(e *event, d, s int) {
	switch e.op {
	case "objBlank":
		m.pub2[d] = g2pubs.NewAggregatePubkey()
	case "objOfAff":
		m.pub2[d] = g2pubs.NewPublicKeyFromG2(m.a2[s])
	case "objCopy":
		m.pub2[d] = m.pub2[s].Copy()
	case "objAggregate":
		m.pub2[d].Aggregate(m.pub2[s])
	case "objList":
		var l []*g2pubs.PublicKey
		for _, k := range e.i[1:] {
			l = append(l, m.pub2[k.Int64()])
		}
		keep := append([]*g2pubs.PublicKey{}, l...)
		m.pub2[d] = g2pubs.AggregatePublicKeys(l)
		for i := range l {
			if l[i] != keep[i] {
				panic("the list of public keys was modified")
			}
		}
	case "objPass":
		p, err := g2pubs.DeserializePublicKey(m.pub2[s].Serialize())
		must(err)
		m.pub2[d] = p
	case "objPublic":
		m.pub2[d] = g2pubs.PrivToPub(m.k2)
	default:
		unknown(e)
	}
}

func (m *values) sig2Op(e *event, d, s int) {
	switch e.op {
	case "objBlank":
		m.sig2[d] = g2pubs.NewAggregateSignature()
	case "objOfAff":
		m.sig2[d] = g2pubs.NewSignatureFromG1(m.a1[s])
	case "objCopy":
		m.sig2[d] = m.sig2[s].Copy()
	case "objAggregate":
		m.sig2[d].Aggregate(m.sig2[s])
	case "objList":
		var l []*g2pubs.Signature
		for _, k := range e.i[1:] {
			l = append(l, m.sig2[k.Int64()])
		}
		keep := append([]*g2pubs.Signature{}, l...)
		m.sig2[d] = g2pubs.AggregateSignatures(l)
		for i := range l {
			if l[i] != keep[i] {
				panic("the list of signatures was modified")
			}
		}
	case "objPass":
		p, err := g2pubs.DeserializeSignature(m.sig2[s].Serialize())
		must(err)
		m.sig2[d] = p
	default:
		unknown(e)
	}
}

func (m *values) f2Op(e *event, d, s, t int) {
	f, x := &m.f2[d], m.f2[s%2]
	switch e.op {
	case "f2Set":
		*f = fq2(e.i[1:])
	case "f2Copy":
		*f = m.f2[s].Copy()
	case "f2Add":
		f.AddAssign(x)
	case "f2Mul":
		f.MulAssign(x)
	case "f2Neg":
		f.NegAssign()
	case "f2Inverse":
		*f = x
		f.InverseAssign()
	case "f2SqrtOfSquare":
		x.SquareAssign()
		r, ok := x.Sqrt()
		if !ok {
			panic("a square has no root")
		}
		r.SquareAssign()
		*f = r
	case "f2Square":
		f.SquareAssign()
	case "f2Frob":
		f.FrobeniusMapAssign(uint8(s))
	case "f2Exp":
		*f = x.Exp(bls.NewFQRepr(uint64(t)))
	case "f2New":
		*f = bls.NewFQ2(m.f[s], m.f[t])
	default:
		unknown(e)
	}
}

func (m *values) fqOp(e *event, d, s, t int) {
	f, x := &m.f[d], m.f[s%2]
	switch e.op {
	case "fqSet":
		*f = fq(e.i[1])
	case "fqCopy":
		*f = x.Copy()
	case "fqAdd":
		f.AddAssign(x)
	case "fqMul":
		f.MulAssign(x)
	case "fqNeg":
		f.NegAssign()
	case "fqInverse":
		*f, _ = x.Inverse()
	case "fqExp":
		n := m.qr[t]
		n[1], n[2], n[3], n[4], n[5] = 0, 0, 0, 0, 0
		*f = x.Exp(n)
	case "fqMulBits":
		*f = x.MulBits(&m.qr[t])
	case "fqOfRepr":
		*f = bls.FQReprToFQ(m.qr[s])
	default:
		unknown(e)
	}
}

func (m *values) qreprOp(e *event, d, s int) {
	r := &m.qr[d]
	switch e.op {
	case "qreprSet":
		n := new(big.Int).Set(e.i[2])
		var err error
		switch s {
		case 0:
			*r = fqRepr(n)
		case 1:
			*r, err = bls.FQReprFromString(n.Text(16), 16)
		case 2:
			*r = bls.FQReprFromBytes(fqRepr(n).Bytes())
		default:
			*r, err = bls.FQReprFromBigInt(n)
			if n.Cmp(e.i[2]) != 0 {
				panic("the caller's integer was modified")
			}
			scramble(n)
		}
		must(err)
	case "qreprCopy":
		*r = m.qr[s].Copy()
	case "qreprOfFQ":
		*r = m.f[s].ToRepr()
	case "qreprAdd":
		r.AddNoCarry(m.qr[s])
	case "qreprSub":
		r.SubNoBorrow(m.qr[s])
	case "qreprRsh":
		r.Rsh(uint(s))
	case "qreprLsh":
		r.Lsh(uint(s))
	case "qreprOfRepr":
		*r = m.rp[s].ToFQ()
	default:
		unknown(e)
	}
	scramble(r.ToBig())
}

// verify runs signing and verification for their effects on what they are given.
func (m *values) verify(s, t, style int) {
	msgs := [][]byte{{3, 2, 1}, {}, {1}}
	var gs []guarded
	var bufs [][]byte
	for _, x := range msgs {
		g, b := guard(x)
		gs, bufs = append(gs, g), append(bufs, b)
	}
	keep := append([][]byte{}, bufs...)
	fixed := [][32]byte{{9}, {1}}
	switch style {
	case 0:
		g1pubs.Verify(bufs[0], m.pub1[s], g1pubs.Sign(bufs[0], m.k1))
		g1pubs.SignWithDomain(fixed[0], m.k1, [8]byte{1})
		m.sig1[t].VerifyAggregateCommon([]*g1pubs.PublicKey{m.pub1[s], m.pub1[t]}, bufs[0])
	case 1:
		g2pubs.Verify(bufs[0], m.pub2[s], g2pubs.Sign(bufs[0], m.k2))
		m.sig2[t].VerifyAggregateCommon([]*g2pubs.PublicKey{m.pub2[s], m.pub2[t]}, bufs[0])
	case 2:
		pubs := []*g1pubs.PublicKey{m.pub1[s], m.pub1[t], m.pub1[0]}
		m.sig1[s].VerifyAggregate(pubs, bufs)
		m.sig1[s].VerifyAggregateWithDomain(pubs[:2], fixed, [8]byte{2})
		m.sig1[s].VerifyAggregateCommonWithDomain(pubs, fixed[0], [8]byte{2})
		if pubs[0] != m.pub1[s] || pubs[1] != m.pub1[t] || pubs[2] != m.pub1[0] {
			panic("the list of public keys was modified")
		}
	default:
		pubs := []*g2pubs.PublicKey{m.pub2[s], m.pub2[t], m.pub2[0]}
		m.sig2[s].VerifyAggregate(pubs, bufs)
		if pubs[0] != m.pub2[s] || pubs[1] != m.pub2[t] || pubs[2] != m.pub2[0] {
			panic("the list of public keys was modified")
		}
	}
	if fixed[0] != [32]byte{9} || fixed[1] != [32]byte{1} {
		panic("the list of messages was modified")
	}
	for i := range bufs {
		gs[i].verify()
		if len(bufs[i]) != len(keep[i]) || (len(bufs[i]) > 0 && &bufs[i][0] != &keep[i][0]) {
			panic("the list of messages was modified")
		}
	}
}

// pairing runs the pairing functions and everything that only looks at its operands.
func (m *values) pairing(s, t, what int) {
	switch what {
	case 0:
		bls.Pairing(m.p1[s], m.p2[t])
	case 1:
		bls.CompareTwoPairings(m.p1[s], m.p2[t], m.p1[t], m.p2[s])
	case 2:
		items := []bls.MillerLoopItem{{P: m.a1[s], Q: m.prep}, {P: m.a1[t], Q: m.prep}, {P: m.a1[s], Q: bls.G2AffineToPrepared(m.a2[t])}}
		bls.MillerLoop(items)
		if items[0].P != m.a1[s] || items[1].P != m.a1[t] || items[0].Q != m.prep {
			panic("the list of pairs was modified")
		}
	case 3:
		f := m.f12[s]
		bls.FinalExponentiation(f)
	case 4:
		m.p1[s].Equal(m.p1[t])
		m.p2[s].Equals(m.p2[t])
		m.a1[s].Equals(m.a1[t])
		m.a2[s].Equals(m.a2[t])
		m.a1[s].SerializeBytes()
		m.a2[s].SerializeBytes()
		m.a1[s].IsOnCurve()
		m.a2[s].IsOnCurve()
		m.a1[s].IsInCorrectSubgroupAssumingOnCurve()
		m.a2[s].IsInCorrectSubgroupAssumingOnCurve()
		m.a1[s].ScaleByCofactor()
		m.a2[s].ScaleByCofactor()
		m.pub1[s].Equals(*m.pub1[t])
		m.pub2[s].Equals(*m.pub2[t])
		m.sig1[s].String()
		m.sig2[s].String()
		m.pub1[s].String()
		m.pub2[s].String()
		m.k1.String()
		m.k2.String()
	default:
		x, y := m.el[s], m.el[t]
		x.Equals(y)
		x.Cmp(y)
		x.IsZero()
		x.IsValid()
		x.Parity()
		x.Legendre()
		x.Bytes()
		r := m.rp[s]
		r.Cmp(m.rp[t])
		r.Equals(m.rp[t])
		r.IsZero()
		r.IsOdd()
		r.IsEven()
		r.BitLen()
		r.Bit(200)
		r.Bytes()
		_ = r.String()
		m.f6[s].Equals(m.f6[t])
		m.f6[s].IsZero()
		m.f12[s].Equals(m.f12[t])
		m.f12[s].IsZero()
		m.f2[s].Sqrt()
		m.f2[s].Legendre()
		m.f2[s].Parity()
		m.f2[s].Norm()
		m.f[s].Sqrt()
		m.f[s].Legendre()
		m.f[s].Parity()
		g, b := guard([]byte{5, 6})
		bls.HashG1(b)
		bls.HashG2(b)
		g.verify()
		bls.HashFQ2(sha256.New())
		bls.HashFQ(sha256.New())
		bls.SWEncodeG2(m.f2[s])
		bls.OptimizedSWU2MapHelper(m.f2[t])
		bls.HashSecretKey([32]byte{1})
	}
}
