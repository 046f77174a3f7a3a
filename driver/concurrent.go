package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// Concurrent replays. "conc": the processes of the specification m_conc run as goroutines, several
// of each, over shared read-only objects. "bundle": behaviours of the sequential machines run at the
// same time, each twice, every goroutine with objects of its own. Results are those of the
// specification, call by call; the race detector (when built with it) watches.

type shared struct {
	key1 []*g1pubs.SecretKey
	key2 []*g2pubs.SecretKey
	pub1 []*g1pubs.PublicKey
	pub2 []*g2pubs.PublicKey
	msg  [][]byte
	msg4 [][32]byte
	sig1 []*g1pubs.Signature
	sig2 []*g2pubs.Signature
	sigD []*g1pubs.Signature
	aff1 []*bls.G1Affine
	aff2 []*bls.G2Affine
	pt1  []*bls.G1Projective
	pt2  []*bls.G2Projective
	prep []*bls.G2Prepared
	el   []*bls.FR
	repr []*bls.FRRepr
	f12  []*bls.FQ12
}

var concDomain = [8]byte{1, 2, 3, 4, 5, 6, 7, 8}

func share(st map[string]val) *shared {
	g := &shared{}
	points := func(name string) (out [][]*big.Int) {
		for _, v := range st[name].([]val) {
			out = append(out, ints(v))
		}
		return
	}
	for i, n := range ints(st["sk"]) {
		g.key1 = append(g.key1, g1pubs.KeyFromFQRepr(frRepr(n)))
		g.key2 = append(g.key2, g2pubs.KeyFromFQRepr(frRepr(n)))
		g.pub1 = append(g.pub1, g1pubs.PrivToPub(g.key1[i]))
		g.pub2 = append(g.pub2, g2pubs.PrivToPub(g.key2[i]))
	}
	for i, l := range points("msg") {
		g.msg = append(g.msg, toBytes(l))
		var b [32]byte
		copy(b[:], g.msg[i])
		g.msg4 = append(g.msg4, b)
	}
	for _, l := range points("sig1") {
		g.sig1 = append(g.sig1, g1pubs.NewSignatureFromG2(g2Affine(l)))
	}
	for _, l := range points("sig2") {
		g.sig2 = append(g.sig2, g2pubs.NewSignatureFromG1(g1Affine(l)))
	}
	for _, l := range points("sigD") {
		g.sigD = append(g.sigD, g1pubs.NewSignatureFromG2(g2Affine(l)))
	}
	for _, l := range points("pt1") {
		g.aff1 = append(g.aff1, g1Affine(l))
		// shared in a representation with a z-coordinate other than one
		g.pt1 = append(g.pt1, proj1(l, big.NewInt(77)))
	}
	for _, l := range points("pt2") {
		g.aff2 = append(g.aff2, g2Affine(l))
		g.pt2 = append(g.pt2, proj2(l, fq2([]*big.Int{big.NewInt(5), big.NewInt(3)})))
		g.prep = append(g.prep, bls.G2AffineToPrepared(g2Affine(l)))
	}
	for _, n := range ints(st["el"]) {
		g.el = append(g.el, fr(n))
		g.repr = append(g.repr, frRepr(n))
	}
	for _, l := range points("f12") {
		g.f12 = append(g.f12, fq12(l))
	}
	return g
}

func coldShare(st map[string]val) (g *shared, detail string) {
	defer func() {
		if r := recover(); r != nil {
			g, detail = nil, fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return share(st), ""
}

// owned is what one goroutine changes.
type owned struct {
	x *bls.FR
	f *bls.FQ12
	p *bls.G1Projective
	q *bls.G2Projective
}

func newOwned() *owned {
	return &owned{fr(big.NewInt(1)), bls.FQ12One.Copy(), bls.G1ProjectiveOne.Copy(), bls.G2ProjectiveOne.Copy()}
}

func one1(p *bls.G1Projective) []*big.Int { return flat(g1Coords(p.ToAffine())) }
func one2(p *bls.G2Projective) []*big.Int { return flat(g2Coords(p.ToAffine())) }

func rotate(n, by int, reverse bool) []int {
	out := make([]int, n)
	for k := range out {
		out[k] = (k + by) % n
		if reverse {
			out[k] = (n - k + by) % n
		}
	}
	return out
}

func (g *shared) call(o *owned, e *event) []*big.Int {
	n := func(k int) int { return e.n(k) }
	switch e.op {
	case "sign1":
		b := g1pubs.Sign(g.msg[n(2)], g.key1[n(1)]).Serialize()
		return bytesBig(b[:])
	case "sign2":
		b := g2pubs.Sign(g.msg[n(2)], g.key2[n(1)]).Serialize()
		return bytesBig(b[:])
	case "signD":
		b := g1pubs.SignWithDomain(g.msg4[n(2)], g.key1[n(1)], concDomain).Serialize()
		return bytesBig(b[:])
	case "verify1":
		return []*big.Int{boolBig(g1pubs.Verify(g.msg[n(2)], g.pub1[n(1)], g.sig1[n(3)]))}
	case "verify2":
		return []*big.Int{boolBig(g2pubs.Verify(g.msg[n(2)], g.pub2[n(1)], g.sig2[n(3)]))}
	case "verifyD":
		return []*big.Int{boolBig(g1pubs.VerifyWithDomain(g.msg4[n(2)], g.pub1[n(1)], g.sigD[n(3)], concDomain))}
	case "aggregate1", "aggregate2", "aggregateD":
		order := rotate(3, n(1), n(2) == 1)
		summands := order
		if n(2) == 2 {
			summands = order[:2]
		}
		switch e.op {
		case "aggregate1":
			var pubs []*g1pubs.PublicKey
			var msgs [][]byte
			var sigs []*g1pubs.Signature
			for _, k := range order {
				pubs, msgs = append(pubs, g.pub1[k]), append(msgs, g.msg[k])
			}
			for _, k := range summands {
				sigs = append(sigs, g.sig1[k])
			}
			return []*big.Int{boolBig(g1pubs.AggregateSignatures(sigs).VerifyAggregate(pubs, msgs))}
		case "aggregate2":
			var pubs []*g2pubs.PublicKey
			var msgs [][]byte
			var sigs []*g2pubs.Signature
			for _, k := range order {
				pubs, msgs = append(pubs, g.pub2[k]), append(msgs, g.msg[k])
			}
			for _, k := range summands {
				sigs = append(sigs, g.sig2[k])
			}
			return []*big.Int{boolBig(g2pubs.AggregateSignatures(sigs).VerifyAggregate(pubs, msgs))}
		default:
			var pubs []*g1pubs.PublicKey
			var msgs [][32]byte
			var sigs []*g1pubs.Signature
			for _, k := range order {
				pubs, msgs = append(pubs, g.pub1[k]), append(msgs, g.msg4[k])
			}
			for _, k := range summands {
				sigs = append(sigs, g.sigD[k])
			}
			return []*big.Int{boolBig(g1pubs.AggregateSignatures(sigs).VerifyAggregateWithDomain(pubs, msgs, concDomain))}
		}
	case "common1":
		s := g.sig1[n(2)]
		sum := g1pubs.AggregateSignatures([]*g1pubs.Signature{s, s, s})
		return []*big.Int{boolBig(sum.VerifyAggregateCommon([]*g1pubs.PublicKey{g.pub1[n(2)], g.pub1[n(1)], g.pub1[n(2)]}, g.msg[n(2)]))}
	case "common2":
		s := g.sig2[n(2)]
		sum := g2pubs.AggregateSignatures([]*g2pubs.Signature{s, s, s})
		return []*big.Int{boolBig(sum.VerifyAggregateCommon([]*g2pubs.PublicKey{g.pub2[n(2)], g.pub2[n(1)], g.pub2[n(2)]}, g.msg[n(2)]))}
	case "hash1":
		return flat(g1Coords(bls.HashG1(g.msg[n(1)])))
	case "hash2":
		return flat(g2Coords(bls.HashG2(g.msg[n(1)])))
	case "hashD":
		return one2(bls.HashG2WithDomain(g.msg4[n(1)], concDomain))
	case "secret":
		a := bls.HashSecretKey(g.msg4[n(1)])
		if b := g1pubs.DeriveSecretKey(g.msg4[n(1)]).GetFRElement(); !a.Equals(b) {
			panic("two derivations of one secret differ")
		}
		return []*big.Int{frBig(a)}
	case "public1":
		return one1(g1pubs.PrivToPub(g.key1[n(1)]).GetPoint())
	case "public2":
		return one2(g2pubs.PrivToPub(g.key2[n(1)]).GetPoint())
	case "pair":
		return fq12Big(bls.Pairing(g.pt1[n(1)], g.pt2[n(2)]))
	case "miller":
		k, l, i := n(1), n(2), n(3)
		return fq12Big(bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{
			{P: g.aff1[k], Q: g.prep[l]}, {P: g.aff1[i], Q: g.prep[k]}, {P: g.aff1[l], Q: bls.G2AffineToPrepared(g.aff2[i])}})))
	case "compare":
		return []*big.Int{boolBig(bls.CompareTwoPairings(g.pt1[n(1)], g.pt2[n(2)], g.pt1[n(2)], g.pt2[n(1)]))}
	case "compress":
		a, b := bls.CompressG1(g.aff1[n(1)]), bls.CompressG2(g.pt2[n(1)].ToAffine())
		return append(bytesBig(a[:]), bytesBig(b[:])...)
	case "decompress":
		a, err := bls.DecompressG1(bls.CompressG1(g.aff1[n(1)]))
		must(err)
		b, err := bls.DecompressG2(bls.CompressG2(g.aff2[n(1)]))
		must(err)
		return append(flat(g1Coords(a)), flat(g2Coords(b))...)
	case "raw":
		a, b := bls.G1AffineOne.Copy(), bls.G2AffineOne.Copy()
		a.SetRawBytes(g.aff1[n(1)].SerializeBytes())
		must(b.SetRawBytes(g.aff2[n(1)].SerializeBytes()))
		return append(flat(g1Coords(a)), flat(g2Coords(b))...)
	case "mul1":
		switch n(3) {
		case 0:
			return one1(g.pt1[n(1)].MulFR(g.repr[n(2)]))
		case 1:
			return one1(g.aff1[n(1)].Mul(g.repr[n(2)].ToFQ()))
		default:
			return one1(g.aff1[n(1)].MulFR(g.el[n(2)].ToRepr()))
		}
	case "mul2":
		switch n(3) {
		case 0:
			return one2(g.pt2[n(1)].MulFR(g.repr[n(2)]))
		case 1:
			return one2(g.aff2[n(1)].MulBig(*g.repr[n(2)].ToBig()))
		default:
			return one2(g.aff2[n(1)].MulFR(g.el[n(2)].ToRepr()))
		}
	case "add1":
		if n(2) == 0 {
			o.p = o.p.AddAffine(g.aff1[n(1)])
		} else if n(2) == 1 {
			o.p = o.p.Add(g.pt1[n(1)])
		} else {
			o.p = g.pt1[n(1)].Add(o.p)
		}
		return one1(o.p)
	case "add2":
		if n(2) == 0 {
			o.q = o.q.AddAffine(g.aff2[n(1)])
		} else if n(2) == 1 {
			o.q = o.q.Add(g.pt2[n(1)])
		} else {
			o.q = g.pt2[n(1)].Add(o.q)
		}
		return one2(o.q)
	case "neg1":
		o.p.NegAssign()
		return one1(o.p)
	case "fr":
		x := g.el[n(1)]
		switch n(2) {
		case 0:
			o.x.AddAssign(x)
		case 1:
			o.x.SubAssign(x)
		default:
			y := x.Copy()
			y.AddAssign(fr(big.NewInt(1)))
			o.x.MulAssign(y)
		}
		return []*big.Int{frBig(o.x)}
	case "exp":
		x := g.el[n(1)]
		inv := new(big.Int)
		if !x.IsZero() {
			inv = frBig(x.Inverse())
		}
		return []*big.Int{frBig(x.Exp(frRepr(e.i[2]))), inv}
	case "f12":
		switch n(2) {
		case 0:
			o.f.AddAssign(g.f12[n(1)%2])
		case 1:
			o.f.MulAssign(g.f12[n(1)%2])
		default:
			o.f.FrobeniusMapAssign(uint8(n(1)))
		}
		return fq12Big(o.f)
	case "inverse":
		x := g.f12[n(1)%2].Copy()
		x.InverseAssign()
		y := g.f12[0].Copy()
		y.MulAssign(g.f12[1])
		return append(fq12Big(x), fq12Big(y)...)
	case "order":
		k, l := n(1), n(2)
		return []*big.Int{boolBig(g.aff1[k].IsOnCurve() && g.aff1[k].IsInCorrectSubgroupAssumingOnCurve()),
			boolBig(g.aff2[k].IsOnCurve() && g.aff2[k].IsInCorrectSubgroupAssumingOnCurve()),
			boolBig(g.pt1[k].Equal(bls.G1ProjectiveZero)), boolBig(g.pt2[k].Equals(g.pt2[l]))}
	case "encode":
		return flat(g2Coords(bls.SWEncodeG2(fq2(e.i[1:]))))
	case "root":
		x := fq2(e.i[1:])
		_, a := x.Sqrt()
		q := fqReprBig(bls.QFieldModulus)
		_, b := fq(new(big.Int).Mod(e.i[1], q)).Sqrt()
		return []*big.Int{boolBig(a), boolBig(b)}
	case "keys":
		b := g.key1[n(1)].Serialize()
		var c [32]byte
		e.i[2].FillBytes(c[:])
		return append(bytesBig(b[:]), boolBig(g1pubs.DeserializeSecretKey(c) != nil && g2pubs.DeserializeSecretKey(c) != nil))
	case "sums":
		i, j := n(1), n(2)
		out := one2(g1pubs.AggregateSignatures([]*g1pubs.Signature{g.sig1[i], g.sig1[j], g.sig1[i]}).GetPoint())
		out = append(out, one1(g2pubs.AggregateSignatures([]*g2pubs.Signature{g.sig2[i], g.sig2[j], g.sig2[i]}).GetPoint())...)
		out = append(out, one1(g1pubs.AggregatePublicKeys([]*g1pubs.PublicKey{g.pub1[i], g.pub1[j]}).GetPoint())...)
		return append(out, one2(g2pubs.AggregatePublicKeys([]*g2pubs.PublicKey{g.pub2[i], g.pub2[j]}).GetPoint())...)
	}
	panic(harnessError("unknown op " + e.op))
}

// guardedCall turns a panic of the library into an observation.
func (g *shared) guardedCall(o *owned, e *event) (detail string, trouble interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				trouble = h
				return
			}
			detail = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	if got := g.call(o, e); !sameInts(got, e.r) {
		return fmt.Sprintf("operands %s: returned %s, specification says %s", show(e.i), show(got), show(e.r)), nil
	}
	return "", nil
}

type numbered struct {
	k int
	e *event
}

// conc runs every process of one behaviour as `copies` goroutines at once. From a cold start nothing
// of the library has run before: each goroutine builds objects of its own first.
func conc(path string, copies int, cold bool, sum *summary) *failure {
	states, marks := load(path)
	seen := map[uint64]bool{}
	lists := map[int][]numbered{}
	for k := 1; k < len(states); k++ {
		e := toEvent(states[k]["ev"])
		lists[e.n(0)] = append(lists[e.n(0)], numbered{k, e})
		sum.Ops[e.op]++
		sum.Steps++
		seen[marks[k]] = true
		if len(sum.Samples) < 6 && k%7 == 3 {
			sum.Samples = append(sum.Samples, fmt.Sprintf("%s%.200s -> %.200s", e.op, show(e.i), show(e.r)))
		}
	}
	var g *shared
	if !cold {
		g = share(states[0])
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	results := make(chan *failure, copies*len(lists)+1)
	troubles := make(chan interface{}, copies*len(lists)+1)
	for _, l := range lists {
		for c := 0; c < copies; c++ {
			wg.Add(1)
			go func(l []numbered, c int) {
				defer wg.Done()
				g := g
				<-gate
				if g == nil {
					var d string
					if g, d = coldShare(states[0]); g == nil {
						results <- &failure{path, 0, "init", "in a concurrent run: " + d}
						return
					}
				}
				// the accumulators' calls are in order; copies start at once
				o := newOwned()
				for _, x := range l {
					d, tr := g.guardedCall(o, x.e)
					if tr != nil {
						troubles <- tr
						return
					}
					if d != "" {
						results <- &failure{path, x.k, x.e.op, "in a concurrent run: " + d}
						return
					}
				}
			}(l, c)
		}
	}
	close(gate)
	wg.Wait()
	sum.Traces++
	sum.Distinct = len(seen)
	select {
	case tr := <-troubles:
		panic(tr)
	default:
	}
	select {
	case f := <-results:
		return f
	default:
	}
	if g == nil {
		return nil
	}
	// the shared objects are as they were
	h := share(states[0])
	for i := range g.pt1 {
		if !sameInts(g1Coords(g.aff1[i]), g1Coords(h.aff1[i])) || !sameInts(one1(g.pt1[i]), one1(h.pt1[i])) ||
			!sameInts(g2Coords(g.aff2[i]), g2Coords(h.aff2[i])) || !sameInts(one2(g.pt2[i]), one2(h.pt2[i])) {
			return &failure{path, len(states) - 1, "end", "a shared point changed"}
		}
	}
	for i := range g.key1 {
		if g.key1[i].Serialize() != h.key1[i].Serialize() || g.pub1[i].Serialize() != h.pub1[i].Serialize() || g.sig1[i].Serialize() != h.sig1[i].Serialize() ||
			g.key2[i].Serialize() != h.key2[i].Serialize() || g.pub2[i].Serialize() != h.pub2[i].Serialize() || g.sig2[i].Serialize() != h.sig2[i].Serialize() ||
			!g.el[i].Equals(h.el[i]) || !g.repr[i].Equals(h.repr[i]) || string(g.msg[i]) != string(h.msg[i]) {
			return &failure{path, len(states) - 1, "end", "a shared key, message, signature or scalar changed"}
		}
	}
	return nil
}

// hammer repeats the calls of one operation from all processors at once, operation by operation: half
// of the goroutines stay with one call, the others take turns. These calls depend on shared objects
// alone, so any repetition of a process's calls has the same results.
func hammer(path string, each time.Duration, sum *summary) *failure {
	states, _ := load(path)
	own := map[string]bool{"add1": true, "add2": true, "neg1": true, "fr": true, "f12": true}
	lists := map[string][]numbered{}
	var names []string
	for k := 1; k < len(states); k++ {
		e := toEvent(states[k]["ev"])
		if own[e.op] {
			continue
		}
		if lists[e.op] == nil {
			names = append(names, e.op)
		}
		lists[e.op] = append(lists[e.op], numbered{k, e})
	}
	g := share(states[0])
	for _, name := range names {
		l := lists[name]
		results := make(chan *failure, 16)
		troubles := make(chan interface{}, 16)
		counts := make([]int, 12)
		var wg sync.WaitGroup
		end := time.Now().Add(each)
		for c := 0; c < len(counts); c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				o := newOwned()
				for n := 0; n == 0 || time.Now().Before(end); n++ {
					x := l[c/2%len(l)]
					if c%3 == 1 {
						x = l[0]
					} else if c%3 == 2 {
						x = l[(c+n)%len(l)]
					}
					d, tr := g.guardedCall(o, x.e)
					if tr != nil {
						troubles <- tr
						return
					}
					if d != "" {
						results <- &failure{path, x.k, x.e.op, "in a concurrent run: " + d}
						return
					}
					counts[c]++
				}
			}(c)
		}
		wg.Wait()
		for _, n := range counts {
			sum.Ops[name] += n
			sum.Steps += n
		}
		select {
		case tr := <-troubles:
			panic(tr)
		default:
		}
		select {
		case f := <-results:
			return f
		default:
		}
	}
	sum.Traces++
	return nil
}

// bundle replays behaviours of several machines at the same time, each twice.
func bundle(args []string, sum *summary) *failure {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	results := make(chan *failure, len(args))
	troubles := make(chan interface{}, len(args))
	var sums []*summary
	for i := 0; i+1 < len(args); i += 2 {
		if machines[args[i]] == nil {
			panic(harnessError("unknown machine " + args[i]))
		}
		states, marks := load(args[i+1])
		for c := 0; c < 2; c++ {
			s := &summary{Ops: map[string]int{}}
			if c == 0 {
				sums = append(sums, s)
			}
			wg.Add(1)
			go func(name, path string, s *summary) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						troubles <- r
					}
				}()
				<-gate
				m := machines[name]()
				if d := firstState(m, states[0]); d != "" {
					results <- &failure{path, 0, "init", "in a concurrent run: " + d}
					return
				}
				for k := 1; k < len(states); k++ {
					e := toEvent(states[k]["ev"])
					s.Ops[name+"."+e.op]++
					s.Steps++
					if d := stepOne(m, e, states[k]); d != "" {
						results <- &failure{path, k, e.op, "in a concurrent run: " + d}
						return
					}
				}
			}(args[i], args[i+1], s)
		}
		distinct := map[uint64]bool{}
		for _, x := range marks {
			distinct[x] = true
		}
		sum.Distinct += len(distinct)
	}
	close(gate)
	wg.Wait()
	for _, s := range sums {
		sum.Steps += s.Steps
		sum.Traces++
		for o, c := range s.Ops {
			sum.Ops[o] += c
		}
	}
	select {
	case tr := <-troubles:
		panic(tr)
	default:
	}
	select {
	case f := <-results:
		return f
	default:
	}
	return nil
}

func concurrent(args []string) int {
	runtime.GOMAXPROCS(8)
	sum := &summary{Machine: args[0], Arch: runtime.GOARCH, Ops: map[string]int{}}
	done := make(chan *failure, 1)
	broken := make(chan interface{}, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				broken <- r
			}
		}()
		switch args[0] {
		case "conc", "cold":
			done <- conc(args[1], 3, args[0] == "cold", sum)
		case "hammer":
			done <- hammer(args[1], 200*time.Millisecond, sum)
		case "bundle":
			done <- bundle(args[1:], sum)
		default:
			panic(harnessError("unknown concurrent run " + args[0]))
		}
	}()
	select {
	case f := <-done:
		sum.Failure = f
	case r := <-broken:
		panic(r)
	case <-time.After(600 * time.Second):
		out, _ := json.Marshal(&summary{Machine: args[0], Arch: runtime.GOARCH, Ops: map[string]int{},
			Failure: &failure{args[len(args)-1], 0, "?", "the concurrent calls did not return"}})
		fmt.Println(string(out))
		return 1
	}
	sort.Strings(sum.Samples)
	out, _ := json.Marshal(sum)
	fmt.Println(string(out))
	if sum.Failure != nil {
		return 1
	}
	return 0
}
