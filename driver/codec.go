package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// Both scheme packages wrap points of either group: a G1 point is a g1pubs
// public key and a g2pubs signature, a G2 point the other way round.
type codec1 struct {
	a   [2]*bls.G1Affine
	pub [2]*g1pubs.PublicKey
	sig [2]*g2pubs.Signature
	sk1 *g1pubs.SecretKey
	sk2 *g2pubs.SecretKey
}
type codec2 struct {
	a   [2]*bls.G2Affine
	pub [2]*g2pubs.PublicKey
	sig [2]*g1pubs.Signature
	sk1 *g1pubs.SecretKey
	sk2 *g2pubs.SecretKey
}

func init() {
	machines["m_codec1"] = func() machine { return &codec1{} }
	machines["m_codec2"] = func() machine { return &codec2{} }
}

func agree(what string, a ...bool) []*big.Int {
	for _, b := range a {
		if b != a[0] {
			panic(fmt.Sprintf("%s: the decoders disagree: %v", what, a))
		}
	}
	return []*big.Int{boolBig(a[0])}
}

func (m *codec1) put(i int, l []*big.Int) {
	m.a[i] = g1Affine(l)
	m.pub[i] = g1pubs.NewPublicKeyFromG1(g1Affine(l))
	m.sig[i] = g2pubs.NewSignatureFromG1(g1Affine(l))
}

func (m *codec2) put(i int, l []*big.Int) {
	m.a[i] = g2Affine(l)
	m.pub[i] = g2pubs.NewPublicKeyFromG2(g2Affine(l))
	m.sig[i] = g1pubs.NewSignatureFromG2(g2Affine(l))
}

func (m *codec1) start(st map[string]val) {
	for i, v := range st["pt"].([]val) {
		m.put(i, ints(v))
	}
	n := st["sk"].(*big.Int)
	m.sk1, m.sk2 = g1pubs.KeyFromFQRepr(frRepr(n)), g2pubs.KeyFromFQRepr(frRepr(n))
}

func (m *codec2) start(st map[string]val) {
	for i, v := range st["pt"].([]val) {
		m.put(i, ints(v))
	}
	n := st["sk"].(*big.Int)
	m.sk1, m.sk2 = g1pubs.KeyFromFQRepr(frRepr(n)), g2pubs.KeyFromFQRepr(frRepr(n))
}

func checkSecrets(a *g1pubs.SecretKey, b *g2pubs.SecretKey, st map[string]val) string {
	n := st["sk"].(*big.Int)
	if d := checkFR("g1pubs secret key", a.GetFRElement(), n); d != "" {
		return d
	}
	if d := checkFR("g2pubs secret key", b.GetFRElement(), n); d != "" {
		return d
	}
	if want := fmt.Sprintf("FR(0x%064x)", n); a.String() != want || b.String() != want {
		return "secret key prints as " + a.String() + " and " + b.String()
	}
	return ""
}

func (m *codec1) check(st map[string]val) string {
	for i, v := range st["pt"].([]val) {
		want := ints(v)
		if d := diffPoint(fmt.Sprintf("point %d", i), g1Coords(m.a[i]), want); d != "" {
			return d
		}
		if d := diffPoint(fmt.Sprintf("g1pubs public key %d", i), g1Coords(m.pub[i].GetPoint().ToAffine()), want); d != "" {
			return d
		}
		if d := diffPoint(fmt.Sprintf("g2pubs signature %d", i), g1Coords(m.sig[i].GetPoint().ToAffine()), want); d != "" {
			return d
		}
	}
	return checkSecrets(m.sk1, m.sk2, st)
}

func (m *codec2) check(st map[string]val) string {
	for i, v := range st["pt"].([]val) {
		want := ints(v)
		if d := diffPoint(fmt.Sprintf("point %d", i), g2Coords(m.a[i]), want); d != "" {
			return d
		}
		if d := diffPoint(fmt.Sprintf("g2pubs public key %d", i), g2Coords(m.pub[i].GetPoint().ToAffine()), want); d != "" {
			return d
		}
		if d := diffPoint(fmt.Sprintf("g1pubs signature %d", i), g2Coords(m.sig[i].GetPoint().ToAffine()), want); d != "" {
			return d
		}
	}
	return checkSecrets(m.sk1, m.sk2, st)
}

func secretOps(e *event, a **g1pubs.SecretKey, b **g2pubs.SecretKey) []*big.Int {
	switch e.op {
	case "skDeserialize":
		var bs [32]byte
		copy(bs[:], toBytes(e.i))
		k1, k2 := g1pubs.DeserializeSecretKey(bs), g2pubs.DeserializeSecretKey(bs)
		if k1 != nil && k2 != nil {
			*a, *b = k1, k2
		}
		return agree(e.op, k1 != nil, k2 != nil)
	case "skFrom":
		n1, n2 := frRepr(e.i[0]), frRepr(e.i[0])
		k1, k2 := g1pubs.KeyFromFQRepr(n1), g2pubs.KeyFromFQRepr(n2)
		sameRepr(n1, frRepr(e.i[0]))
		sameRepr(n2, frRepr(e.i[0]))
		*n1, *n2 = bls.FRRepr{9, 9, 9, 9}, bls.FRRepr{9, 9, 9, 9}
		if k1 != nil && k2 != nil {
			*a, *b = k1, k2
		}
		return agree(e.op, k1 != nil, k2 != nil)
	case "skSerialize":
		x, y := (*a).Serialize(), (*b).Serialize()
		if x != y {
			panic(fmt.Sprintf("serialized secret keys differ: %x %x", x, y))
		}
		return bytesBig(x[:])
	}
	panic(harnessError("unknown op " + e.op))
}

func (m *codec1) apply(e *event) []*big.Int {
	if len(e.op) > 2 && e.op[:2] == "sk" {
		return secretOps(e, &m.sk1, &m.sk2)
	}
	if e.op == "subgroup" {
		return []*big.Int{boolBig(g1Affine(unflat(e.i)).IsInCorrectSubgroupAssumingOnCurve())}
	}
	d := e.n(0)
	switch e.op {
	case "set", "wrap":
		m.put(d, unflat(e.i[1:]))
	case "neg":
		// in place, also of the identity
		m.a[d].NegAssign()
		l := g1Coords(m.a[d])
		m.pub[d], m.sig[d] = g1pubs.NewPublicKeyFromG1(g1Affine(l)), g2pubs.NewSignatureFromG1(g1Affine(l))
	case "compress":
		b := bls.CompressG1(m.a[d])
		return bytesBig(b[:])
	case "decompress":
		var b [48]byte
		copy(b[:], toBytes(e.i[1:]))
		p, err := bls.DecompressG1Unchecked(b)
		if err != nil {
			return []*big.Int{intBig(0)}
		}
		m.put(d, g1Coords(p))
		m.a[d] = p
		return []*big.Int{intBig(1)}
	case "checked", "deserialize":
		var b [48]byte
		copy(b[:], toBytes(e.i[1:]))
		p, err := bls.DecompressG1(b)
		k, err1 := g1pubs.DeserializePublicKey(b)
		s, err2 := g2pubs.DeserializeSignature(b)
		if err == nil && err1 == nil && err2 == nil {
			m.a[d], m.pub[d], m.sig[d] = p, k, s
		}
		return agree(e.op, err == nil, err1 == nil, err2 == nil)
	case "raw":
		b := m.a[d].SerializeBytes()
		return bytesBig(b[:])
	case "setRaw":
		var b [96]byte
		copy(b[:], toBytes(e.i[1:]))
		// into the object as it is
		m.a[d].SetRawBytes(b)
		l := g1Coords(m.a[d])
		m.pub[d], m.sig[d] = g1pubs.NewPublicKeyFromG1(g1Affine(l)), g2pubs.NewSignatureFromG1(g1Affine(l))
		return []*big.Int{intBig(1)}
	case "serialize":
		b := m.pub[d].Serialize()
		if c := m.sig[d].Serialize(); b != c {
			panic(fmt.Sprintf("encodings differ: %x %x", b, c))
		}
		return bytesBig(b[:])
	case "copy":
		m.a[d], m.pub[d], m.sig[d] = m.a[e.n(1)].Copy(), m.pub[e.n(1)].Copy(), m.sig[e.n(1)].Copy()
	case "aggregate":
		k := e.n(1)
		m.pub[d].Aggregate(m.pub[k])
		m.sig[d].Aggregate(m.sig[k])
		m.a[d] = m.pub[d].GetPoint().ToAffine()
	case "blank":
		m.a[d], m.pub[d], m.sig[d] = bls.G1AffineZero.Copy(), g1pubs.NewAggregatePubkey(), g2pubs.NewAggregateSignature()
	case "rewrap":
		// the same point as a sum, which has another projective form
		other := m.pub[e.n(1)]
		k := g1pubs.NewPublicKeyFromG1(bls.G1AffineOne)
		k.Aggregate(other)
		neg := bls.G1AffineOne.Copy()
		neg.NegAssign()
		k.Aggregate(g1pubs.NewPublicKeyFromG1(neg))
		m.a[d], m.pub[d], m.sig[d] = m.a[e.n(1)].Copy(), k, m.sig[e.n(1)].Copy()
	case "equals":
		return agree(e.op, m.pub[d].Equals(*m.pub[e.n(1)]), m.pub[e.n(1)].Equals(*m.pub[d]))
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}

func (m *codec2) apply(e *event) []*big.Int {
	if len(e.op) > 2 && e.op[:2] == "sk" {
		return secretOps(e, &m.sk1, &m.sk2)
	}
	if e.op == "subgroup" {
		return []*big.Int{boolBig(g2Affine(unflat(e.i)).IsInCorrectSubgroupAssumingOnCurve())}
	}
	d := e.n(0)
	switch e.op {
	case "set", "wrap":
		m.put(d, unflat(e.i[1:]))
	case "neg":
		// in place, also of the identity
		m.a[d].NegAssign()
		l := g2Coords(m.a[d])
		m.pub[d], m.sig[d] = g2pubs.NewPublicKeyFromG2(g2Affine(l)), g1pubs.NewSignatureFromG2(g2Affine(l))
	case "compress":
		b := bls.CompressG2(m.a[d])
		return bytesBig(b[:])
	case "decompress":
		var b [96]byte
		copy(b[:], toBytes(e.i[1:]))
		p, err := bls.DecompressG2Unchecked(b)
		if err != nil {
			return []*big.Int{intBig(0)}
		}
		m.put(d, g2Coords(p))
		m.a[d] = p
		return []*big.Int{intBig(1)}
	case "checked", "deserialize":
		var b [96]byte
		copy(b[:], toBytes(e.i[1:]))
		p, err := bls.DecompressG2(b)
		k, err1 := g2pubs.DeserializePublicKey(b)
		s, err2 := g1pubs.DeserializeSignature(b)
		if err == nil && err1 == nil && err2 == nil {
			m.a[d], m.pub[d], m.sig[d] = p, k, s
		}
		return agree(e.op, err == nil, err1 == nil, err2 == nil)
	case "raw":
		b := m.a[d].SerializeBytes()
		return bytesBig(b[:])
	case "setRaw":
		var b [192]byte
		copy(b[:], toBytes(e.i[1:]))
		if err := m.a[d].SetRawBytes(b); err != nil {
			return []*big.Int{intBig(0)}
		}
		l := g2Coords(m.a[d])
		m.pub[d], m.sig[d] = g2pubs.NewPublicKeyFromG2(g2Affine(l)), g1pubs.NewSignatureFromG2(g2Affine(l))
		return []*big.Int{intBig(1)}
	case "serialize":
		b := m.pub[d].Serialize()
		if c := m.sig[d].Serialize(); b != c {
			panic(fmt.Sprintf("encodings differ: %x %x", b, c))
		}
		return bytesBig(b[:])
	case "copy":
		m.a[d], m.pub[d], m.sig[d] = m.a[e.n(1)].Copy(), m.pub[e.n(1)].Copy(), m.sig[e.n(1)].Copy()
	case "aggregate":
		k := e.n(1)
		m.pub[d].Aggregate(m.pub[k])
		m.sig[d].Aggregate(m.sig[k])
		m.a[d] = m.pub[d].GetPoint().ToAffine()
	case "blank":
		m.a[d], m.pub[d], m.sig[d] = bls.G2AffineZero.Copy(), g2pubs.NewAggregatePubkey(), g1pubs.NewAggregateSignature()
	case "rewrap":
		other := m.pub[e.n(1)]
		k := g2pubs.NewPublicKeyFromG2(bls.G2AffineOne)
		k.Aggregate(other)
		neg := bls.G2AffineOne.Copy()
		neg.NegAssign()
		k.Aggregate(g2pubs.NewPublicKeyFromG2(neg))
		m.a[d], m.pub[d], m.sig[d] = m.a[e.n(1)].Copy(), k, m.sig[e.n(1)].Copy()
	case "equals":
		return agree(e.op, m.pub[d].Equals(*m.pub[e.n(1)]), m.pub[e.n(1)].Equals(*m.pub[d]))
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
