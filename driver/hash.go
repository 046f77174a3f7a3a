package main

import (
	"bytes"
	"math/big"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// hashing keeps the last result live.
type hashing struct {
	p1 *bls.G1Affine
	p2 *bls.G2Affine
	pd *bls.G2Projective
	s  *bls.FR
	k1 *g1pubs.SecretKey
	k2 *g2pubs.SecretKey
	ar *arena
}

func init() { machines["m_hash"] = func() machine { return &hashing{ar: &arena{}} } }

func (m *hashing) start(st map[string]val) {}

func (m *hashing) coords() []*big.Int {
	switch {
	case m.p1 != nil:
		return g1Coords(m.p1)
	case m.p2 != nil:
		return g2Coords(m.p2)
	case m.pd != nil:
		return g2Coords(m.pd.ToAffine())
	}
	return nil
}

func (m *hashing) check(st map[string]val) string {
	want := ints(st["img"])
	if m.s != nil {
		if d := checkFR("scalar", m.s, want[0]); d != "" {
			return d
		}
		if d := checkFR("g1pubs key", m.k1.GetFRElement(), want[0]); d != "" {
			return d
		}
		return checkFR("g2pubs key", m.k2.GetFRElement(), want[0])
	}
	return diffPoint("image", m.coords(), want)
}

// guarded is a message inside a larger buffer whose surroundings must stay.
type guarded struct{ all, was []byte }

func guard(msg []byte) (guarded, []byte) {
	all := make([]byte, len(msg)+96)
	for i := range all {
		all[i] = byte(0xA5 ^ i)
	}
	copy(all[32:], msg)
	g := guarded{all, append([]byte{}, all...)}
	return g, all[32 : 32+len(msg)]
}

// An arena hands out the same memory for the messages of successive calls, mostly: what the library
// remembers about a slice says nothing about its content in the next call.
type arena struct {
	buf       []byte
	at, calls int
}

func (a *arena) begin() {
	a.calls++
	a.at = 0
}

func (a *arena) guard(msg []byte) (guarded, []byte) {
	if a.buf == nil {
		a.buf = make([]byte, 1<<12)
	}
	n := len(msg) + 96
	if a.calls%4 == 3 || a.at+n > len(a.buf) {
		return guard(msg)
	}
	all := a.buf[a.at : a.at+n]
	a.at += n
	for i := range all {
		all[i] = byte(0xA5 ^ i)
	}
	copy(all[32:], msg)
	g := guarded{all, append([]byte{}, all...)}
	return g, all[32 : 32+len(msg)]
}

// again is the message for a repeated call: elsewhere, in the same place, or no call at all.
func (a *arena) again(buf []byte) []byte {
	switch a.calls % 5 {
	case 0:
		return append([]byte(nil), buf...)
	case 1:
		return buf
	}
	return nil
}

func (g guarded) verify() {
	if !bytes.Equal(g.all, g.was) {
		panic("the message buffer or its surroundings were modified")
	}
}

func (m *hashing) apply(e *event) []*big.Int {
	msg := toBytes(e.i)
	m.ar.begin()
	g, buf := m.ar.guard(msg)
	*m = hashing{ar: m.ar}
	switch e.op {
	case "hash1":
		m.p1 = bls.HashG1(buf)
		g.verify()
		if b := m.ar.again(buf); b != nil && !bls.HashG1(b).Equals(m.p1) {
			panic("the same message hashes differently")
		}
		return flat(g1Coords(m.p1))
	case "hash2":
		m.p2 = bls.HashG2(buf)
		g.verify()
		if b := m.ar.again(buf); b != nil && !bls.HashG2(b).Equals(m.p2) {
			panic("the same message hashes differently")
		}
		return flat(g2Coords(m.p2))
	case "domain":
		var h [32]byte
		var d [8]byte
		copy(h[:], msg[:32])
		copy(d[:], msg[32:])
		m.pd = bls.HashG2WithDomain(h, d)
		return flat(g2Coords(m.pd.ToAffine()))
	case "secret":
		var seed [32]byte
		copy(seed[:], msg)
		m.s = bls.HashSecretKey(seed)
		m.k1, m.k2 = g1pubs.DeriveSecretKey(seed), g2pubs.DeriveSecretKey(seed)
		return []*big.Int{frBig(m.s)}
	}
	panic(harnessError("unknown op " + e.op))
}
