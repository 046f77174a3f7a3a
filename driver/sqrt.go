package main

import (
	"math/big"
)

// square roots: either root is right, so the root is judged by squaring it
type sqrtMachine struct{}

func init() { machines["m_sqrt"] = func() machine { return sqrtMachine{} } }

func (sqrtMachine) start(map[string]val)        {}
func (sqrtMachine) check(map[string]val) string { return "" }

var qBig, _ = new(big.Int).SetString("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", 10)

func (sqrtMachine) apply(e *event) []*big.Int {
	if e.op == "fq" {
		x := fq(e.i[0])
		root, ok := x.Sqrt()
		if ok {
			if d := checkFQ("root", root, fqBig(root)); d != "" {
				panic(d)
			}
			r := fqBig(root)
			if r.Mul(r, r).Mod(r, qBig).Cmp(e.i[0]) != 0 {
				panic("not a square root: " + root.String())
			}
		}
		return []*big.Int{boolBig(ok), intBig(int(x.Legendre())), boolBig(x.Parity())}
	}
	x := fq2(e.i)
	root, ok := x.Sqrt()
	if ok {
		l := fq2Big(root)
		if root != fq2(l) {
			panic("root is not canonical")
		}
		re := new(big.Int).Mul(l[0], l[0])
		re.Sub(re, new(big.Int).Mul(l[1], l[1])).Mod(re, qBig)
		im := new(big.Int).Mul(l[0], l[1])
		im.Lsh(im, 1).Mod(im, qBig)
		if re.Cmp(e.i[0]) != 0 || im.Cmp(e.i[1]) != 0 {
			panic("not a square root: " + root.String())
		}
	}
	return []*big.Int{boolBig(ok), intBig(int(x.Legendre())), boolBig(x.Parity())}
}
