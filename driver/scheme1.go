package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls/g1pubs"
)

type scheme1 struct {
	keys [3]*g1pubs.SecretKey
	pub  [5]*g1pubs.PublicKey
	msg  [4][]byte
	sig  [4]*g1pubs.Signature
	ar   *arena
}

func init() { machines["m_scheme1"] = func() machine { return &scheme1{ar: &arena{}} } }

func (m *scheme1) start(st map[string]val) {
	for i, n := range ints(st["sk"]) {
		m.keys[i] = g1pubs.KeyFromFQRepr(frRepr(n))
	}
	for i, v := range st["pk"].([]val) {
		m.pub[i] = g1pubs.NewPublicKeyFromG1(g1Affine(ints(v)))
	}
	for i, v := range st["msg"].([]val) {
		m.msg[i] = toBytes(ints(v))
	}
	for i, v := range st["sig"].([]val) {
		m.sig[i] = g1pubs.NewSignatureFromG2(g2Affine(ints(v)))
	}
}

func (m *scheme1) check(st map[string]val) string {
	for i, n := range ints(st["sk"]) {
		if d := checkFR(fmt.Sprintf("key %d", i), m.keys[i].GetFRElement(), n); d != "" {
			return d
		}
	}
	for i, v := range st["pk"].([]val) {
		if d := diffPoint(fmt.Sprintf("public key %d", i), g1Coords(m.pub[i].GetPoint().ToAffine()), ints(v)); d != "" {
			return d
		}
	}
	for i, v := range st["msg"].([]val) {
		if string(m.msg[i]) != string(toBytes(ints(v))) {
			return fmt.Sprintf("message %d is %x, specification says %s", i, m.msg[i], show(ints(v)))
		}
	}
	for i, v := range st["sig"].([]val) {
		if d := diffPoint(fmt.Sprintf("signature %d", i), g2Coords(m.sig[i].GetPoint().ToAffine()), ints(v)); d != "" {
			return d
		}
	}
	return ""
}

// gather adds the signatures up in one of several groupings.
func (m *scheme1) gather(style int, l []*g1pubs.Signature) *g1pubs.Signature {
	keep := append([]*g1pubs.Signature{}, l...)
	var out *g1pubs.Signature
	switch {
	case style == 1:
		out = g1pubs.NewAggregateSignature()
		for i := len(l) - 1; i >= 0; i-- {
			out.Aggregate(l[i])
		}
	case style == 2 && len(l) > 1:
		out = g1pubs.AggregateSignatures(l[:len(l)/2])
		out.Aggregate(g1pubs.AggregateSignatures(l[len(l)/2:]))
	case style == 3 && len(l) > 0:
		out = l[0].Copy()
		for _, s := range l[1:] {
			out.Aggregate(s)
		}
	default:
		out = g1pubs.AggregateSignatures(l)
	}
	for i := range l {
		if l[i] != keep[i] {
			panic("the list of signatures was modified")
		}
	}
	return out
}

func (m *scheme1) gatherPubs(style int, l []*g1pubs.PublicKey) *g1pubs.PublicKey {
	keep := append([]*g1pubs.PublicKey{}, l...)
	var out *g1pubs.PublicKey
	switch {
	case style == 1:
		out = g1pubs.NewAggregatePubkey()
		for i := len(l) - 1; i >= 0; i-- {
			out.Aggregate(l[i])
		}
	case style == 2 && len(l) > 1:
		out = g1pubs.AggregatePublicKeys(l[:len(l)/2])
		out.Aggregate(g1pubs.AggregatePublicKeys(l[len(l)/2:]))
	case style == 3 && len(l) > 0:
		out = l[0].Copy()
		for _, s := range l[1:] {
			out.Aggregate(s)
		}
	default:
		out = g1pubs.AggregatePublicKeys(l)
	}
	for i := range l {
		if l[i] != keep[i] {
			panic("the list of public keys was modified")
		}
	}
	return out
}

func (m *scheme1) sign(msg, key int) *g1pubs.Signature {
	g, buf := m.ar.guard(m.msg[msg])
	s := g1pubs.Sign(buf, m.keys[key])
	g.verify()
	if again := g1pubs.Sign(append([]byte(nil), m.msg[msg]...), m.keys[key]); again.Serialize() != s.Serialize() {
		panic("signing twice gave different signatures")
	}
	return s
}

// setKey makes k key number d, as a new object or by assignment to the old one.
func (m *scheme1) setKey(d int, k *g1pubs.SecretKey, fresh bool) {
	if fresh || m.keys[d] == nil || k == nil {
		m.keys[d] = k
	} else {
		*m.keys[d] = *k
	}
}

func (m *scheme1) apply(e *event) []*big.Int {
	m.ar.begin()
	d := 0
	if len(e.i) > 0 {
		d = e.n(0)
	}
	switch e.op {
	case "key":
		m.setKey(d, g1pubs.KeyFromFQRepr(frRepr(e.i[1])), e.i[1].Bit(3) == 0)
		m.pub[d] = g1pubs.PrivToPub(m.keys[d])
	case "derive":
		var seed [32]byte
		copy(seed[:], toBytes(e.i[1:]))
		m.setKey(d, g1pubs.DeriveSecretKey(seed), seed[31]&8 == 0)
		m.pub[d] = g1pubs.PrivToPub(m.keys[d])
	case "msg":
		m.msg[d] = toBytes(e.i[1:])
	case "aggPub":
		var l []*g1pubs.PublicKey
		for _, k := range e.i[2:] {
			l = append(l, m.pub[k.Int64()])
		}
		m.pub[d] = m.gatherPubs(e.n(1), l)
	case "addPub":
		m.pub[d].Aggregate(m.pub[e.n(1)])
	case "sign":
		m.sig[d] = m.sign(e.n(1), e.n(2))
	case "aggSig":
		var l []*g1pubs.Signature
		for _, k := range e.i[2:] {
			l = append(l, m.sig[k.Int64()])
		}
		m.sig[d] = m.gather(e.n(1), l)
	case "addSig":
		m.sig[d].Aggregate(m.sig[e.n(1)])
	case "putSig":
		m.sig[d] = g1pubs.NewSignatureFromG2(g2Affine(e.i[1:]))
	// an object takes the value of another one by assignment
	case "replaceSig":
		*m.sig[d] = *m.sig[e.n(1)].Copy()
	case "replacePub":
		*m.pub[d] = *m.pub[e.n(1)].Copy()
	case "blankSig":
		m.sig[d] = g1pubs.NewAggregateSignature()
	case "passSig":
		s := m.sig[e.n(1)]
		switch e.n(2) {
		case 0:
			t, err := g1pubs.DeserializeSignature(s.Serialize())
			if err != nil {
				panic("a serialized signature was rejected: " + err.Error())
			}
			m.sig[d] = t
		case 1:
			m.sig[d] = s.Copy()
		case 2:
			m.sig[d] = g1pubs.NewSignatureFromG2(s.GetPoint().ToAffine())
		default:
			t := g1pubs.NewAggregateSignature()
			t.Aggregate(s)
			m.sig[d] = t
		}
	case "passPub":
		p := m.pub[e.n(1)]
		switch e.n(2) {
		case 0:
			t, err := g1pubs.DeserializePublicKey(p.Serialize())
			if err != nil {
				panic("a serialized public key was rejected: " + err.Error())
			}
			m.pub[d] = t
		case 1:
			m.pub[d] = p.Copy()
		case 2:
			m.pub[d] = g1pubs.NewPublicKeyFromG1(p.GetPoint().ToAffine())
		default:
			t := g1pubs.NewAggregatePubkey()
			t.Aggregate(p)
			m.pub[d] = t
		}
		if !m.pub[d].Equals(*p) {
			panic("a passed-on public key is not equal to its source")
		}
	case "passKey":
		k := m.keys[d]
		if e.n(1) < 2 {
			m.keys[d] = g1pubs.DeserializeSecretKey(k.Serialize())
		} else {
			m.keys[d] = g1pubs.KeyFromFQRepr(k.GetFRElement().ToRepr())
		}
	case "signList":
		n := e.n(2)
		var l []*g1pubs.Signature
		for i := 0; i < n; i++ {
			l = append(l, m.sign(e.n(3+n+i), e.n(3+i)))
		}
		m.sig[d] = m.gather(e.n(1), l)
	case "signCommon":
		var l []*g1pubs.Signature
		for _, k := range e.i[3:] {
			l = append(l, m.sign(e.n(2), int(k.Int64())))
		}
		m.sig[d] = m.gather(e.n(1), l)
	case "verify":
		g, buf := m.ar.guard(m.msg[d])
		ok := g1pubs.Verify(buf, m.pub[e.n(1)], m.sig[e.n(2)])
		g.verify()
		return []*big.Int{boolBig(ok)}
	case "verifyAgg":
		n := e.n(1)
		pubs := make([]*g1pubs.PublicKey, 0, len(e.i))
		msgs := make([][]byte, 0, len(e.i))
		var gs []guarded
		for _, k := range e.i[2 : 2+n] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		for _, k := range e.i[2+n:] {
			g, buf := m.ar.guard(m.msg[k.Int64()])
			gs, msgs = append(gs, g), append(msgs, buf)
		}
		keepP, keepM := append([]*g1pubs.PublicKey{}, pubs...), append([][]byte{}, msgs...)
		ok := m.sig[d].VerifyAggregate(pubs, msgs)
		for i := range pubs {
			if pubs[i] != keepP[i] {
				panic("the list of public keys was modified")
			}
		}
		for i := range msgs {
			gs[i].verify()
			if len(msgs[i]) != len(keepM[i]) || (len(msgs[i]) > 0 && &msgs[i][0] != &keepM[i][0]) {
				panic("the list of messages was modified")
			}
		}
		return []*big.Int{boolBig(ok)}
	case "common":
		var pubs []*g1pubs.PublicKey
		for _, k := range e.i[2:] {
			pubs = append(pubs, m.pub[k.Int64()])
		}
		keep := append([]*g1pubs.PublicKey{}, pubs...)
		g, buf := m.ar.guard(m.msg[e.n(1)])
		ok := m.sig[d].VerifyAggregateCommon(pubs, buf)
		g.verify()
		for i := range pubs {
			if pubs[i] != keep[i] {
				panic("the list of public keys was modified")
			}
		}
		return []*big.Int{boolBig(ok)}
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
