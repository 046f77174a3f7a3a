package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
)

// wide1 holds the signers of long aggregates.
type wide1 struct {
	keys []*g1pubs.SecretKey
	pub  []*g1pubs.PublicKey
	msg  [][]byte
	sig  *g1pubs.Signature
	agg  *g1pubs.PublicKey
}

func init() { machines["m_wide1"] = func() machine { return &wide1{} } }

func (m *wide1) start(st map[string]val) {
	for _, n := range ints(st["e"]) {
		k := g1pubs.KeyFromFQRepr(frRepr(n))
		m.keys = append(m.keys, k)
		m.pub = append(m.pub, g1pubs.PrivToPub(k))
	}
	for _, v := range st["msg"].([]val) {
		m.msg = append(m.msg, toBytes(ints(v)))
	}
	m.sig = g1pubs.NewAggregateSignature()
	m.agg = g1pubs.NewAggregatePubkey()
	for i, v := range st["pk"].([]val) {
		if d := diffPoint(fmt.Sprintf("public key %d", i), g1Coords(m.pub[i].GetPoint().ToAffine()), ints(v)); d != "" {
			panic(d)
		}
	}
}

func (m *wide1) check(st map[string]val) string {
	if d := diffPoint("aggregate public key", g1Coords(m.agg.GetPoint().ToAffine()), ints(st["agg"])); d != "" {
		return d
	}
	return diffPoint("signature", g2Coords(m.sig.GetPoint().ToAffine()), ints(st["sig"]))
}

func (m *wide1) apply(e *event) []*big.Int {
	switch e.op {
	case "sign":
		n := e.n(0)
		var l []*g1pubs.Signature
		for i := 0; i < n; i++ {
			l = append(l, g1pubs.Sign(m.msg[e.n(1+n+i)], m.keys[e.n(1+i)]))
		}
		m.sig = g1pubs.AggregateSignatures(l)
	case "signCommon":
		var l []*g1pubs.Signature
		made := map[int64]*g1pubs.Signature{}
		for _, k := range e.i[1:] {
			s := made[k.Int64()]
			if s == nil {
				s = g1pubs.Sign(m.msg[e.n(0)], m.keys[k.Int64()])
				made[k.Int64()] = s
			}
			l = append(l, s)
		}
		m.sig = g1pubs.AggregateSignatures(l)
	case "aggPub":
		var l []*g1pubs.PublicKey
		for _, k := range e.i {
			l = append(l, m.pub[k.Int64()])
		}
		m.agg = g1pubs.AggregatePublicKeys(l)
	case "negSig":
		p := m.sig.GetPoint().ToAffine()
		p.NegAssign()
		m.sig = g1pubs.NewSignatureFromG2(p)
	case "shiftSig":
		g := g1pubs.Sign([]byte{}, g1pubs.KeyFromFQRepr(frRepr(new(big.Int)))) // the identity
		g.Aggregate(m.sig)
		g.Aggregate(unitSig1())
		m.sig = g
	case "verify":
		n := e.n(0)
		pubs := make([]*g1pubs.PublicKey, 0, len(e.i))
		msgs := make([][]byte, 0, len(e.i))
		for _, k := range e.i[1 : 1+n] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		for _, k := range e.i[1+n:] {
			msgs = append(msgs, m.msg[k.Int64()])
		}
		keepP, keepM := append([]*g1pubs.PublicKey{}, pubs...), append([][]byte{}, msgs...)
		ok := m.sig.VerifyAggregate(pubs, msgs)
		for i := range pubs {
			if pubs[i] != keepP[i] {
				panic("the list of public keys was modified")
			}
		}
		for i := range msgs {
			if string(msgs[i]) != string(keepM[i]) || (len(msgs[i]) > 0 && &msgs[i][0] != &keepM[i][0]) {
				panic("the list of messages was modified")
			}
		}
		return []*big.Int{boolBig(ok)}
	case "common":
		var pubs []*g1pubs.PublicKey
		for _, k := range e.i[1:] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		keep := append([]*g1pubs.PublicKey{}, pubs...)
		ok := m.sig.VerifyAggregateCommon(pubs, m.msg[e.n(0)])
		for i := range pubs {
			if pubs[i] != keep[i] {
				panic("the list of public keys was modified")
			}
		}
		return []*big.Int{boolBig(ok)}
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}

func unitSig1() *g1pubs.Signature {
	return g1pubs.NewSignatureFromG2(bls.G2AffineOne.Copy())
}
