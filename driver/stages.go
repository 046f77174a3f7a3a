package main

import (
	"math/big"
	"strings"

	"github.com/phoreproject/bls"
)

// The unexported stages of the hashes to the curves, which messages only reach through SHA-256. They
// are bound one by one when the driver is built; one that is no longer there under its name (they
// are internal) stays nil, and its steps take the specification's word.
var (
	stageSWU1   func(bls.FQ) *bls.G1Affine
	stageIso11  func(*bls.G1Affine) *bls.G1Affine
	stageIso3   func(*bls.G2Affine) *bls.G2Affine
	stagePsi    func(*bls.G2Affine) *bls.G2Affine
	stageClear2 func(*bls.G2Affine) *bls.G2Affine
)

// calibrate lets go of the stages that are not what their name says on ordinary arguments: the exported
// hashes decide whether those are right.
func calibrate(l []*big.Int) {
	same := func(want []*big.Int, f func() []*big.Int) (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		return sameInts(f(), want)
	}
	for ; len(l) > 0; l = l[21:] {
		t, s1, i1, s2, i3, ps, cl := l[0], l[1:3], l[3:5], l[5:9], l[9:13], l[13:17], l[17:21]
		if stageSWU1 != nil && !same(s1, func() []*big.Int { return g1Coords(stageSWU1(fq(t))) }) {
			stageSWU1 = nil
		}
		if stageIso11 != nil && !same(i1, func() []*big.Int { return g1Coords(stageIso11(g1Affine(s1))) }) {
			stageIso11 = nil
		}
		if stageIso3 != nil && !same(i3, func() []*big.Int { return g2Coords(stageIso3(g2Affine(s2))) }) {
			stageIso3 = nil
		}
		if stagePsi != nil && !same(ps, func() []*big.Int { return g2Coords(stagePsi(g2Affine(i3))) }) {
			stagePsi = nil
		}
		if stageClear2 != nil && !same(cl, func() []*big.Int { return g2Coords(stageClear2(g2Affine(i3))) }) {
			stageClear2 = nil
		}
	}
}

// unbound names the stages whose steps were not compared.
func unbound() string {
	l := []string{}
	for _, s := range []struct {
		name string
		nil  bool
	}{{"swu1", stageSWU1 == nil}, {"iso11", stageIso11 == nil}, {"iso3", stageIso3 == nil}, {"psi", stagePsi == nil}, {"clear2", stageClear2 == nil}} {
		if s.nil {
			l = append(l, s.name)
		}
	}
	return strings.Join(l, " ")
}

func (m *encode) stage(e *event) []*big.Int {
	switch {
	case e.op == "swu1" && stageSWU1 != nil:
		return flat(g1Coords(stageSWU1(fq(e.i[0]))))
	case e.op == "iso11" && stageIso11 != nil:
		return flat(g1Coords(stageIso11(g1Affine(unflat(e.i)))))
	case e.op == "iso3" && stageIso3 != nil:
		return flat(g2Coords(stageIso3(g2Affine(unflat(e.i)))))
	case e.op == "psi":
		m.p2 = g2Affine(unflat(e.r))
		if stagePsi != nil {
			m.p2 = stagePsi(g2Affine(unflat(e.i)))
		}
		return flat(g2Coords(m.p2))
	case e.op == "clear2" && stageClear2 != nil:
		return flat(g2Coords(stageClear2(g2Affine(unflat(e.i)))))
	}
	return e.r
}
