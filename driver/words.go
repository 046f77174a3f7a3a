package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/phoreproject/bls"
)

// ---- word-level primitives (stateless) ----

type wordsMachine struct{}

func init() { machines["m_words"] = func() machine { return wordsMachine{} } }

func (wordsMachine) start(map[string]val)        {}
func (wordsMachine) check(map[string]val) string { return "" }

func sixWords(l []*big.Int) (out [6]uint64) {
	for i := range out {
		out[i] = word(l[i])
	}
	return
}

func wordsBig(w []uint64) []*big.Int {
	var out []*big.Int
	for _, x := range w {
		out = append(out, fromWord(x))
	}
	return out
}

func (wordsMachine) apply(e *event) []*big.Int {
	switch e.op {
	case "mac":
		lo, hi := bls.MACWithCarry(word(e.i[0]), word(e.i[1]), word(e.i[2]), word(e.i[3]))
		return wordsBig([]uint64{lo, hi})
	case "adc":
		lo, hi := bls.AddWithCarry(word(e.i[0]), word(e.i[1]), word(e.i[2]))
		return wordsBig([]uint64{lo, hi})
	case "sbb":
		lo, b := bls.SubWithBorrow(word(e.i[0]), word(e.i[1]), word(e.i[2]))
		return wordsBig([]uint64{lo, b})
	}
	x, y := sixWords(e.i[:6]), sixWords(e.i[6:])
	switch e.op {
	case "addNC":
		o := bls.AddNoCarry(x, y)
		return wordsBig(o[:])
	case "subNB":
		o := bls.SubNoBorrow(x, y)
		return wordsBig(o[:])
	case "mul":
		hi, lo := bls.MultiplyFQRepr(x, y)
		return wordsBig(append(hi[:], lo[:]...))
	case "redc":
		o := bls.MontReduce(x, y)
		return wordsBig(o[:])
	}
	panic(harnessError("unknown op " + e.op))
}

// ---- fixed-width containers ----

type reprMachine struct {
	q [3]bls.FQRepr
	r [2]*bls.FRRepr
}

func init() { machines["m_repr"] = func() machine { return &reprMachine{} } }

func (m *reprMachine) start(st map[string]val) {
	for i, x := range ints(st["reg"]) {
		m.put(i, x)
	}
}

func (m *reprMachine) put(i int, x *big.Int) {
	if i < 3 {
		m.q[i] = fqRepr(x)
	} else {
		m.r[i-3] = frRepr(x)
	}
}

func (m *reprMachine) check(st map[string]val) string {
	for i, x := range ints(st["reg"]) {
		var got *big.Int
		if i < 3 {
			got = fqReprBig(m.q[i])
		} else {
			got = frReprBig(m.r[i-3])
		}
		if got.Cmp(x) != 0 {
			return fmt.Sprintf("register %d is %v, specification says %v", i, got, x)
		}
	}
	return ""
}

var badStrings = []string{"", "12x4", "0x", " 1", "1 ", "-", "--1", "1.0", "1e3", "+-7"}

// written is n in a base, with leading zeros (1, 3) or capital letters (2, 3).
func written(n *big.Int, base int, form int) string {
	s := new(big.Int).Abs(n).Text(base)
	if form&1 == 1 {
		s = strings.Repeat("0", 1+len(s)%80) + s
	}
	if form&2 == 2 {
		s = strings.ToUpper(s)
	}
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func (m *reprMachine) apply(e *event) []*big.Int {
	if e.op == "bits" {
		return iterate(e.i)
	}
	d := e.n(0)
	if d < 3 {
		return m.wide(e, &m.q[d])
	}
	return m.narrow(e, d)
}

func iterate(in []*big.Int) []*big.Int {
	ws := make([]uint64, len(in))
	for i := range in {
		ws[i] = word(in[i])
	}
	it := bls.NewBitIterator(ws)
	out := []*big.Int{}
	for {
		b, end := it.Next()
		if end {
			break
		}
		if len(out) > 64*len(ws) {
			panic("iterator does not end")
		}
		out = append(out, boolBig(b))
	}
	if b, end := it.Next(); b || !end {
		panic("iterator restarts after its end")
	}
	// least significant first
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (m *reprMachine) wide(e *event, d *bls.FQRepr) []*big.Int {
	var s bls.FQRepr
	if len(e.i) > 1 && e.i[1].IsInt64() && e.i[1].Int64() >= 0 && e.i[1].Int64() < 3 {
		s = m.q[e.n(1)]
	}
	switch e.op {
	case "set":
		*d = fqRepr(e.i[1])
	case "lsh":
		d.Lsh(uint(e.n(1)))
	case "rsh":
		d.Rsh(uint(e.n(1)))
	case "div2":
		d.Div2()
	case "mul2":
		d.Mul2()
	case "add":
		d.AddNoCarry(s)
	case "sub":
		d.SubNoBorrow(s)
	case "observe":
		if got := d.String(); got != fmt.Sprintf("%096x", fqReprBig(*d)) {
			panic("String() is " + got)
		}
		return []*big.Int{intBig(d.Cmp(s)), boolBig(d.Equals(s)), boolBig(d.IsZero()), boolBig(d.IsOdd()), boolBig(d.IsEven()), intBig(int(d.BitLen()))}
	case "bit":
		return []*big.Int{boolBig(d.Bit(uint(e.n(1))))}
	case "bytes":
		b := d.Bytes()
		return bytesBig(b[:])
	case "fromBytes":
		var b [48]byte
		copy(b[:], toBytes(e.i[1:]))
		*d = bls.FQReprFromBytes(b)
	case "fromBig":
		n := new(big.Int).Set(e.i[1])
		v, err := bls.FQReprFromBigInt(n)
		if n.Cmp(e.i[1]) != 0 {
			panic("argument modified")
		}
		if err != nil {
			return []*big.Int{intBig(0)}
		}
		*d = v
		return []*big.Int{intBig(1)}
	case "fromString":
		v, err := bls.FQReprFromString(written(e.i[1], e.n(2), e.n(3)), uint(e.n(2)))
		if err != nil {
			return []*big.Int{intBig(0)}
		}
		*d = v
		return []*big.Int{intBig(1)}
	case "badString":
		_, err := bls.FQReprFromString(badStrings[e.n(1)], 10)
		return []*big.Int{boolBig(err == nil)}
	case "copy":
		*d = s.Copy()
	case "new":
		*d = bls.NewFQRepr(word(e.i[1]))
	case "toFQ":
		*d = m.r[e.n(1)-3].ToFQ()
	case "toBig":
		n := d.ToBig()
		if n.Cmp(fqReprBig(*d)) != 0 {
			panic("ToBig is " + n.String())
		}
		v, err := bls.FQReprFromBigInt(n)
		if err != nil {
			panic(err)
		}
		*d = v
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}

func (m *reprMachine) narrow(e *event, k int) []*big.Int {
	d := m.r[k-3]
	var s *bls.FRRepr
	if len(e.i) > 1 && e.i[1].IsInt64() && e.i[1].Int64() >= 3 && e.i[1].Int64() < 5 {
		s = m.r[e.n(1)-3]
	}
	switch e.op {
	case "set":
		m.r[k-3] = frRepr(e.i[1])
	case "lsh":
		d.Lsh(uint(e.n(1)))
	case "rsh":
		d.Rsh(uint(e.n(1)))
	case "div2":
		d.Div2()
	case "mul2":
		d.Mul2()
	case "add":
		d.AddNoCarry(s)
	case "sub":
		d.SubNoBorrow(s)
	case "observe":
		if got := d.String(); got != fmt.Sprintf("%064x", frReprBig(d)) {
			panic("String() is " + got)
		}
		return []*big.Int{intBig(d.Cmp(s)), boolBig(d.Equals(s)), boolBig(d.IsZero()), boolBig(d.IsOdd()), boolBig(d.IsEven()), intBig(int(d.BitLen()))}
	case "bit":
		return []*big.Int{boolBig(d.Bit(uint(e.n(1))))}
	case "bytes":
		b := d.Bytes()
		return bytesBig(b[:])
	case "fromBytes":
		var b [32]byte
		copy(b[:], toBytes(e.i[1:]))
		m.r[k-3] = bls.FRReprFromBytes(b)
	case "fromBig":
		n := new(big.Int).Set(e.i[1])
		v, err := bls.FRReprFromBigInt(n)
		if n.Cmp(e.i[1]) != 0 {
			panic("argument modified")
		}
		if err != nil {
			return []*big.Int{intBig(0)}
		}
		m.r[k-3] = v
		return []*big.Int{intBig(1)}
	case "fromString":
		v, err := bls.FRReprFromString(written(e.i[1], e.n(2), e.n(3)), uint(e.n(2)))
		if err != nil {
			return []*big.Int{intBig(0)}
		}
		m.r[k-3] = v
		return []*big.Int{intBig(1)}
	case "badString":
		_, err := bls.FRReprFromString(badStrings[e.n(1)], 10)
		return []*big.Int{boolBig(err == nil)}
	case "copy":
		m.r[k-3] = s.Copy()
	case "new":
		m.r[k-3] = bls.NewFRRepr(word(e.i[1]))
	case "toBig":
		n := d.ToBig()
		if n.Cmp(frReprBig(d)) != 0 {
			panic("ToBig is " + n.String())
		}
		v, err := bls.FRReprFromBigInt(n)
		if err != nil {
			panic(err)
		}
		m.r[k-3] = v
	default:
		panic(harnessError("unknown op " + e.op))
	}
	return nil
}
