package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls/g1pubs"
)

// wide3 holds the signers of long aggregates in one domain.
type wide3 struct {
	keys []*g1pubs.SecretKey
	pub  []*g1pubs.PublicKey
	msg  [][32]byte
	dom  [8]byte
	sig  *g1pubs.Signature
	agg  *g1pubs.PublicKey
}

func init() { machines["m_wide3"] = func() machine { return &wide3{} } }

func (m *wide3) start(st map[string]val) {
	for _, n := range ints(st["e"]) {
		k := g1pubs.KeyFromFQRepr(frRepr(n))
		m.keys = append(m.keys, k)
		m.pub = append(m.pub, g1pubs.PrivToPub(k))
	}
	for _, v := range st["msg"].([]val) {
		var b [32]byte
		copy(b[:], toBytes(ints(v)))
		m.msg = append(m.msg, b)
	}
	copy(m.dom[:], toBytes(ints(st["dom"])))
	m.sig = g1pubs.NewAggregateSignature()
	m.agg = g1pubs.NewAggregatePubkey()
	for i, v := range st["pk"].([]val) {
		if d := diffPoint(fmt.Sprintf("public key %d", i), g1Coords(m.pub[i].GetPoint().ToAffine()), ints(v)); d != "" {
			panic(d)
		}
	}
}

func (m *wide3) check(st map[string]val) string {
	if d := diffPoint("aggregate public key", g1Coords(m.agg.GetPoint().ToAffine()), ints(st["agg"])); d != "" {
		return d
	}
	return diffPoint("signature", g2Coords(m.sig.GetPoint().ToAffine()), ints(st["sig"]))
}

func (m *wide3) apply(e *event) []*big.Int {
	switch e.op {
	case "sign":
		n := e.n(0)
		var l []*g1pubs.Signature
		for i := 0; i < n; i++ {
			l = append(l, g1pubs.SignWithDomain(m.msg[e.n(1+n+i)], m.keys[e.n(1+i)], m.dom))
		}
		m.sig = g1pubs.AggregateSignatures(l)
	case "signCommon":
		var l []*g1pubs.Signature
		made := map[int64]*g1pubs.Signature{}
		for _, k := range e.i[1:] {
			s := made[k.Int64()]
			if s == nil {
				s = g1pubs.SignWithDomain(m.msg[e.n(0)], m.keys[k.Int64()], m.dom)
				made[k.Int64()] = s
			}
			l = append(l, s)
		}
		m.sig = g1pubs.AggregateSignatures(l)
	case "aggPub":
		var l []*g1pubs.PublicKey
		for _, k := range e.i {
			l = append(l, m.pub[k.Int64()])
		}
		m.agg = g1pubs.AggregatePublicKeys(l)
	case "negSig":
		p := m.sig.GetPoint().ToAffine()
		p.NegAssign()
		m.sig = g1pubs.NewSignatureFromG2(p)
	case "shiftSig":
		g := g1pubs.Sign([]byte{}, g1pubs.KeyFromFQRepr(frRepr(new(big.Int)))) // the identity
		g.Aggregate(m.sig)
		g.Aggregate(unitSig1())
		m.sig = g
	case "verify":
		n := e.n(0)
		pubs := make([]*g1pubs.PublicKey, 0, len(e.i))
		msgs := make([][32]byte, 0, len(e.i))
		for _, k := range e.i[1 : 1+n] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		for _, k := range e.i[1+n:] {
			msgs = append(msgs, m.msg[k.Int64()])
		}
		keepP, keepM := append([]*g1pubs.PublicKey{}, pubs...), append([][32]byte{}, msgs...)
		ok := m.sig.VerifyAggregateWithDomain(pubs, msgs, m.dom)
		for i := range pubs {
			if pubs[i] != keepP[i] {
				panic("the list of public keys was modified")
			}
		}
		for i := range msgs {
			if msgs[i] != keepM[i] {
				panic("the list of messages was modified")
			}
		}
		return []*big.Int{boolBig(ok)}
	case "common":
		var pubs []*g1pubs.PublicKey
		for _, k := range e.i[1:] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		keep := append([]*g1pubs.PublicKey{}, pubs...)
		ok := m.sig.VerifyAggregateCommonWithDomain(pubs, m.msg[e.n(0)], m.dom)
		for i := range pubs {
			if pubs[i] != keep[i] {
				panic("the list of public keys was modified")
			}
		}
		return []*big.Int{boolBig(ok)}
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
