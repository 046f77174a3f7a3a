package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls/g1pubs"
)

type domainM struct {
	keys [2]*g1pubs.SecretKey
	pub  [4]*g1pubs.PublicKey
	msg  [2][32]byte
	dom  [2][8]byte
	sig  [3]*g1pubs.Signature
}

func init() { machines["m_domain"] = func() machine { return &domainM{} } }

func (m *domainM) start(st map[string]val) {
	for i, n := range ints(st["sk"]) {
		m.keys[i] = g1pubs.KeyFromFQRepr(frRepr(n))
	}
	for i, v := range st["pk"].([]val) {
		m.pub[i] = g1pubs.NewPublicKeyFromG1(g1Affine(ints(v)))
	}
	for i, v := range st["msg"].([]val) {
		copy(m.msg[i][:], toBytes(ints(v)))
	}
	for i, v := range st["dom"].([]val) {
		copy(m.dom[i][:], toBytes(ints(v)))
	}
	for i, v := range st["sig"].([]val) {
		m.sig[i] = g1pubs.NewSignatureFromG2(g2Affine(ints(v)))
	}
}

func (m *domainM) check(st map[string]val) string {
	for i, n := range ints(st["sk"]) {
		if d := checkFR(fmt.Sprintf("key %d", i), m.keys[i].GetFRElement(), n); d != "" {
			return d
		}
	}
	for i, v := range st["pk"].([]val) {
		if d := diffPoint(fmt.Sprintf("public key %d", i), g1Coords(m.pub[i].GetPoint().ToAffine()), ints(v)); d != "" {
			return d
		}
	}
	for i, v := range st["sig"].([]val) {
		if d := diffPoint(fmt.Sprintf("signature %d", i), g2Coords(m.sig[i].GetPoint().ToAffine()), ints(v)); d != "" {
			return d
		}
	}
	return ""
}

func (m *domainM) apply(e *event) []*big.Int {
	d := e.n(0)
	switch e.op {
	case "key":
		if k := g1pubs.KeyFromFQRepr(frRepr(e.i[1])); e.i[1].Bit(3) == 0 {
			m.keys[d] = k
		} else {
			*m.keys[d] = *k
		}
		m.pub[d] = g1pubs.PrivToPub(m.keys[d])
	case "addPub":
		m.pub[d].Aggregate(m.pub[e.n(1)])
	case "sumPub":
		m.pub[d] = g1pubs.AggregatePublicKeys([]*g1pubs.PublicKey{m.pub[0], m.pub[1]})
	case "msg":
		copy(m.msg[d][:], toBytes(e.i[1:]))
	case "dom":
		copy(m.dom[d][:], toBytes(e.i[1:]))
	case "sign":
		m.sig[d] = g1pubs.SignWithDomain(m.msg[e.n(2)], m.keys[e.n(1)], m.dom[e.n(3)])
	case "plain":
		m.sig[d] = g1pubs.Sign(m.msg[e.n(2)][:], m.keys[e.n(1)])
	case "addSig":
		m.sig[d].Aggregate(m.sig[e.n(1)])
	case "replaceSig":
		*m.sig[d] = *m.sig[e.n(1)].Copy()
	case "replacePub":
		*m.pub[d] = *m.pub[e.n(1)].Copy()
	case "passSig":
		s := m.sig[e.n(1)]
		switch e.n(2) {
		case 0:
			t, err := g1pubs.DeserializeSignature(s.Serialize())
			if err != nil {
				panic("a serialized signature was rejected: " + err.Error())
			}
			m.sig[d] = t
		case 1:
			m.sig[d] = s.Copy()
		case 2:
			m.sig[d] = g1pubs.NewSignatureFromG2(s.GetPoint().ToAffine())
		default:
			m.sig[d] = g1pubs.AggregateSignatures([]*g1pubs.Signature{s})
		}
	case "passPub":
		p := m.pub[e.n(1)]
		switch e.n(2) {
		case 0:
			t, err := g1pubs.DeserializePublicKey(p.Serialize())
			if err != nil {
				panic("a serialized public key was rejected: " + err.Error())
			}
			m.pub[d] = t
		case 1:
			m.pub[d] = p.Copy()
		case 2:
			m.pub[d] = g1pubs.NewPublicKeyFromG1(p.GetPoint().ToAffine())
		default:
			m.pub[d] = g1pubs.AggregatePublicKeys([]*g1pubs.PublicKey{p})
		}
	case "negSig":
		p := m.sig[e.n(1)].GetPoint().ToAffine()
		p.NegAssign()
		m.sig[d] = g1pubs.NewSignatureFromG2(p)
	case "signList":
		s := g1pubs.NewAggregateSignature()
		for i := 2; i < len(e.i); i += 2 {
			s.Aggregate(g1pubs.SignWithDomain(m.msg[e.n(i+1)], m.keys[e.n(i)], m.dom[e.n(1)]))
		}
		m.sig[d] = s
	case "verify":
		return []*big.Int{boolBig(g1pubs.VerifyWithDomain(m.msg[e.n(1)], m.pub[d], m.sig[e.n(2)], m.dom[e.n(3)]))}
	case "verifyPlain":
		return []*big.Int{boolBig(g1pubs.Verify(m.msg[e.n(1)][:], m.pub[d], m.sig[e.n(2)]))}
	case "common":
		var pubs []*g1pubs.PublicKey
		for _, k := range e.i[3:] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		return []*big.Int{boolBig(m.sig[d].VerifyAggregateCommonWithDomain(pubs, m.msg[e.n(1)], m.dom[e.n(2)]))}
	case "aggregate":
		n := e.n(2)
		var pubs []*g1pubs.PublicKey
		var msgs [][32]byte
		for _, k := range e.i[3 : 3+n] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		for _, k := range e.i[3+n:] {
			msgs = append(msgs, m.msg[k.Int64()])
		}
		keepP, keepM := append([]*g1pubs.PublicKey{}, pubs...), append([][32]byte{}, msgs...)
		ok := m.sig[d].VerifyAggregateWithDomain(pubs, msgs, m.dom[e.n(1)])
		for i := range pubs {
			if pubs[i] != keepP[i] {
				panic("the list of public keys was modified")
			}
		}
		for i := range msgs {
			if msgs[i] != keepM[i] {
				panic("the list of messages was modified")
			}
		}
		return []*big.Int{boolBig(ok)}
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
