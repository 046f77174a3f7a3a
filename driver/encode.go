package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
)

type encode struct {
	p1 *bls.G1Affine
	p2 *bls.G2Affine
}

func init() { machines["m_encode"] = func() machine { return &encode{} } }

func (m *encode) start(st map[string]val) {
	m.p1, m.p2 = g1Affine(ints(st["p1"])), g2Affine(ints(st["p2"]))
	calibrate(ints(st["ev"].(map[string]val)["i"]))
}

func (m *encode) check(st map[string]val) string {
	if d := diffPoint("last G1 point", g1Coords(m.p1), ints(st["p1"])); d != "" {
		return d
	}
	return diffPoint("last G2 point", g2Coords(m.p2), ints(st["p2"]))
}

// fixedHash is a hasher that holds a digest; anything but Sum disturbs it.
type fixedHash struct {
	digest []byte
	sums   int
}

func (h *fixedHash) Write(p []byte) (int, error) { panic("the hasher was written to") }
func (h *fixedHash) Reset()                      { panic("the hasher was reset") }
func (h *fixedHash) Size() int                   { return len(h.digest) }
func (h *fixedHash) BlockSize() int              { return 64 }
func (h *fixedHash) Sum(b []byte) []byte {
	h.sums++
	return append(b, h.digest...)
}

func (m *encode) apply(e *event) []*big.Int {
	switch e.op {
	case "hashFQ", "hashFR", "hashFQ2":
		h := &fixedHash{digest: toBytes(e.i)}
		keep := fmt.Sprintf("%x", h.digest)
		var out []*big.Int
		switch e.op {
		case "hashFQ":
			f := bls.HashFQ(h)
			if d := checkFQ("digest", f, fqBig(f)); d != "" {
				panic(d)
			}
			out = []*big.Int{fqBig(f)}
		case "hashFR":
			f := bls.HashFR(h)
			if d := checkFR("digest", f, frBig(f)); d != "" {
				panic(d)
			}
			out = []*big.Int{frBig(f)}
		default:
			out = residues(bls.HashFQ2(h).String())
		}
		if fmt.Sprintf("%x", h.digest) != keep {
			panic("the digest was modified")
		}
		return out
	case "swEncode":
		t := fq2(e.i)
		m.p2 = bls.SWEncodeG2(t)
		if !t.Equals(fq2(e.i)) {
			panic("operand changed")
		}
		return flat(g2Coords(m.p2))
	case "swu":
		return flat(g2Coords(bls.OptimizedSWU2MapHelper(fq2(e.i))))
	case "fromX1":
		p, err := bls.GetG1PointFromX(fq(e.i[0]), e.n(1) == 1)
		if err != nil {
			return flat(nil)
		}
		m.p1 = p
		return flat(g1Coords(p))
	case "fromX2":
		p, err := bls.GetG2PointFromX(fq2(e.i[:2]), e.n(2) == 1)
		if err != nil {
			return flat(nil)
		}
		m.p2 = p
		return flat(g2Coords(p))
	case "clearH":
		p := g1Affine(unflat(e.i))
		m.p1 = bls.ClearH(p)
		if d := diffPoint("operand", g1Coords(p), unflat(e.i)); d != "" {
			panic(d)
		}
		return flat(g1Coords(m.p1))
	case "swu1", "iso11", "iso3", "psi", "clear2":
		return m.stage(e)
	case "scale1":
		m.p1 = g1Affine(unflat(e.i)).ScaleByCofactor().ToAffine()
		return flat(g1Coords(m.p1))
	case "scale2":
		m.p2 = g2Affine(unflat(e.i)).ScaleByCofactor().ToAffine()
		return flat(g2Coords(m.p2))
	}
	panic(harnessError("unknown op " + e.op))
}
