package main

import (
	"fmt"
	"math/big"

	"github.com/phoreproject/bls"
)

// Conversions between the specification's integers and the library's types.
// They go through plain limb arrays so that they do not depend on the
// library's own conversions.

var mask64 = new(big.Int).SetUint64(^uint64(0))

func word(x *big.Int) uint64 { return x.Uint64() }

func fromWord(w uint64) *big.Int { return new(big.Int).SetUint64(w) }

func limbs(x *big.Int, n int) []uint64 {
	out := make([]uint64, n)
	t := new(big.Int).Set(x)
	for i := range out {
		out[i] = new(big.Int).And(t, mask64).Uint64()
		t.Rsh(t, 64)
	}
	if t.Sign() != 0 {
		panic(harnessError("number too wide"))
	}
	return out
}

func limbsToBig(l []uint64) *big.Int {
	out := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		out.Lsh(out, 64)
		out.Or(out, new(big.Int).SetUint64(l[i]))
	}
	return out
}

func six(x *big.Int) (out [6]uint64) { copy(out[:], limbs(x, 6)); return }

func fqRepr(x *big.Int) bls.FQRepr { return bls.FQRepr(six(x)) }

func fqReprBig(r bls.FQRepr) *big.Int { return limbsToBig(r[:]) }

func frRepr(x *big.Int) *bls.FRRepr {
	var r bls.FRRepr
	copy(r[:], limbs(x, 4))
	return &r
}

func frReprBig(r *bls.FRRepr) *big.Int { return limbsToBig(r[:]) }

func fq(x *big.Int) bls.FQ { return bls.FQReprToFQ(fqRepr(x)) }

func fqBig(f bls.FQ) *big.Int { return fqReprBig(f.ToRepr()) }

func fr(x *big.Int) *bls.FR { return bls.FRReprToFR(frRepr(x)) }

func frBig(f *bls.FR) *big.Int { return frReprBig(f.ToRepr()) }

func boolBig(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

func intBig(n int) *big.Int { return big.NewInt(int64(n)) }

func toBytes(l []*big.Int) []byte {
	out := make([]byte, len(l))
	for i, x := range l {
		if !x.IsUint64() || x.Uint64() > 255 {
			panic(harnessError("not a byte"))
		}
		out[i] = byte(x.Uint64())
	}
	return out
}

func bytesBig(b []byte) []*big.Int {
	out := make([]*big.Int, len(b))
	for i := range b {
		out[i] = big.NewInt(int64(b[i]))
	}
	return out
}

// checkFQ: the element is the canonical representation of the integer.
func checkFQ(what string, f bls.FQ, want *big.Int) string {
	if got := fqBig(f); got.Cmp(want) != 0 {
		return fmt.Sprintf("%s is %v, specification says %v", what, got, want)
	}
	if !f.Equals(fq(want)) || !f.IsValid() {
		return fmt.Sprintf("%s has a non-canonical representation of %v", what, want)
	}
	return ""
}

func checkFR(what string, f *bls.FR, want *big.Int) string {
	if got := frBig(f); got.Cmp(want) != 0 {
		return fmt.Sprintf("%s is %v, specification says %v", what, got, want)
	}
	if !f.Equals(fr(want)) || !f.IsValid() {
		return fmt.Sprintf("%s has a non-canonical representation of %v", what, want)
	}
	return ""
}
