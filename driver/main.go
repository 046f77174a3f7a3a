// Command driver replays behaviours generated from the Quint specification
// (ITF traces) against the real library and compares, after every step, the
// observable result of the call and the whole projected state with what the
// specification prescribes. It holds no model of its own: every expected value
// comes from the trace.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// val is a decoded ITF value: *big.Int, bool, string, []val, or map[string]val.
type val interface{}

func decode(x interface{}) val {
	switch t := x.(type) {
	case json.Number:
		n, ok := new(big.Int).SetString(t.String(), 10)
		if !ok {
			panic("bad number " + t.String())
		}
		return n
	case float64:
		return big.NewInt(int64(t))
	case bool, string:
		return t
	case []interface{}:
		out := make([]val, len(t))
		for i, e := range t {
			out[i] = decode(e)
		}
		return out
	case map[string]interface{}:
		if b, ok := t["#bigint"]; ok {
			n, ok := new(big.Int).SetString(b.(string), 10)
			if !ok {
				panic("bad bigint")
			}
			return n
		}
		if l, ok := t["#tup"]; ok {
			return decode(l)
		}
		if l, ok := t["#set"]; ok {
			return decode(l)
		}
		out := map[string]val{}
		for k, e := range t {
			// variables of instances carry the instance's name
			if i := strings.LastIndex(k, "::"); i >= 0 {
				k = k[i+2:]
			}
			if k != "#meta" {
				out[k] = decode(e)
			}
		}
		return out
	}
	panic(fmt.Sprintf("cannot decode %T", x))
}

type event struct {
	op string
	i  []*big.Int
	r  []*big.Int
}

func ints(v val) []*big.Int {
	l := v.([]val)
	out := make([]*big.Int, len(l))
	for k := range l {
		out[k] = l[k].(*big.Int)
	}
	return out
}

func (e *event) n(k int) int { return int(e.i[k].Int64()) }

func toEvent(v val) *event {
	m := v.(map[string]val)
	return &event{op: m["op"].(string), i: ints(m["i"]), r: ints(m["r"])}
}

// machine is the real-code side of one specification machine.
type machine interface {
	// start puts the real objects into the first state of a behaviour.
	start(st map[string]val)
	// apply performs the call and returns what it observed.
	apply(e *event) []*big.Int
	// check compares the projected state with the specification's; "" if equal.
	check(st map[string]val) string
}

var machines = map[string]func() machine{}

type failure struct {
	File   string `json:"file"`
	Step   int    `json:"step"`
	Op     string `json:"op"`
	Detail string `json:"detail"`
}

type summary struct {
	Machine  string         `json:"machine"`
	Arch     string         `json:"arch"`
	Traces   int            `json:"traces"`
	Steps    int            `json:"steps"`
	Ops      map[string]int `json:"ops"`
	Distinct int            `json:"distinct_events"`
	Failure  *failure       `json:"failure"`
	Samples  []string       `json:"samples"`
}

func show(l []*big.Int) string {
	var s []string
	for _, x := range l {
		if x == nil {
			s = append(s, "nil")
		} else {
			s = append(s, x.String())
		}
	}
	out := "[" + strings.Join(s, " ") + "]"
	if len(out) > 3000 {
		out = out[:3000] + "..."
	}
	return out
}

func sameInts(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// stepOne applies one event; a panic of the library is an observation, too.
func stepOne(m machine, e *event, st map[string]val) (detail string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			detail = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	got := m.apply(e)
	if !sameInts(got, e.r) {
		return fmt.Sprintf("operands %s: returned %s, specification says %s", show(e.i), show(got), show(e.r))
	}
	if d := m.check(st); d != "" {
		return fmt.Sprintf("operands %s: %s", show(e.i), d)
	}
	return ""
}

// firstState puts the machine into its first state, under the same rule.
func firstState(m machine, st map[string]val) (detail string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			detail = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	m.start(st)
	return m.check(st)
}

// harnessError marks trouble of the driver itself, never a verdict.
type harnessError string

var metaIndex = regexp.MustCompile(`"#meta":\{[^}]*\},?`)

// load reads a behaviour: its states and a fingerprint of each.
func load(path string) ([]map[string]val, []uint64) {
	f, err := os.Open(path)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	defer f.Close()
	d := json.NewDecoder(f)
	d.UseNumber()
	var doc struct {
		States []json.RawMessage `json:"states"`
	}
	if err := d.Decode(&doc); err != nil {
		panic(harnessError(err.Error()))
	}
	var out []map[string]val
	var marks []uint64
	for _, raw := range doc.States {
		h := fnv.New64a()
		h.Write(metaIndex.ReplaceAll(raw, nil))
		marks = append(marks, h.Sum64())
		dd := json.NewDecoder(bytes.NewReader(raw))
		dd.UseNumber()
		var x interface{}
		if err := dd.Decode(&x); err != nil {
			panic(harnessError(err.Error()))
		}
		out = append(out, decode(x).(map[string]val))
	}
	return out, marks
}

func replay(name string, sum *summary, seen map[uint64]bool, path string) *failure {
	states, marks := load(path)
	m := machines[name]()
	mark(&failure{path, 0, "init", "the first calls did not return"})
	d0 := firstState(m, states[0])
	mark(nil)
	if d := d0; d != "" {
		return &failure{path, 0, "init", d}
	}
	sum.Traces++
	for k := 1; k < len(states); k++ {
		e := toEvent(states[k]["ev"])
		sum.Ops[e.op]++
		sum.Steps++
		seen[marks[k]] = true
		if len(sum.Samples) < 6 && k%7 == 3 {
			key := e.op + show(e.i)
			if len(key) > 400 {
				key = key[:400] + "..."
			}
			sum.Samples = append(sum.Samples, key+" -> "+fmt.Sprintf("%.200s", show(e.r)))
		}
		mark(&failure{path, k, e.op, "the call did not return: " + show(e.i)})
		d := stepOne(m, e, states[k])
		mark(nil)
		if d != "" {
			return &failure{path, k, e.op, d}
		}
	}
	return nil
}

// relay replays several behaviours by turns, a few steps of each, in one process, over and over until the time
// is up: what one history left behind must not show in another one, nor the first time in the second.
func relay(sum *summary, args []string) *failure {
	var limit time.Duration
	for _, c := range args[0] {
		limit = limit*10 + time.Duration(c-'0')*time.Second
	}
	end := time.Now().Add(limit)
	type runner struct {
		name, path string
		states     []map[string]val
		m          machine
		k          int
	}
	var all []*runner
	for k := 1; k+1 < len(args); k += 2 {
		st, _ := load(args[k+1])
		all = append(all, &runner{name: args[k], path: args[k+1], states: st})
	}
	turn := uint32(1)
	for time.Now().Before(end) && sum.Traces < 3*len(all) {
		for _, r := range all {
			turn = turn*1664525 + 1013904223
			for n := turn >> 29; ; n-- {
				if r.k == 0 || r.k == len(r.states) {
					r.m, r.k = machines[r.name](), 1
					sum.Traces++
					mark(&failure{r.path, 0, "init", "the first calls did not return"})
					d := firstState(r.m, r.states[0])
					mark(nil)
					if d != "" {
						return &failure{r.path, 0, "init", d}
					}
				}
				e := toEvent(r.states[r.k]["ev"])
				sum.Ops[e.op]++
				sum.Steps++
				mark(&failure{r.path, r.k, e.op, "the call did not return: " + show(e.i)})
				d := stepOne(r.m, e, r.states[r.k])
				mark(nil)
				if d != "" {
					return &failure{r.path, r.k, e.op, d}
				}
				r.k++
				if n == 0 || !time.Now().Before(end) {
					break
				}
			}
		}
	}
	return nil
}

// A call that does not return is an observation as well.
var (
	progressMu sync.Mutex
	progress   *failure
	stepStart  time.Time
)

func mark(f *failure) {
	progressMu.Lock()
	progress, stepStart = f, time.Now()
	progressMu.Unlock()
}

const stepLimit = 120 * time.Second

func watchdog(sum *summary) {
	for {
		time.Sleep(time.Second)
		progressMu.Lock()
		f, t := progress, stepStart
		progressMu.Unlock()
		if f != nil && time.Since(t) > stepLimit {
			out, _ := json.Marshal(&summary{Machine: sum.Machine, Arch: sum.Arch, Ops: map[string]int{}, Failure: f})
			fmt.Println(string(out))
			os.Exit(1)
		}
	}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: driver MACHINE trace.itf.json...")
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "driver error: %v\n%s", r, debug.Stack())
			os.Exit(2)
		}
	}()
	name := os.Args[1]
	if name == "concurrent" {
		os.Exit(concurrent(os.Args[2:]))
	}
	if name == "relay" {
		sum := &summary{Machine: name, Arch: runtime.GOARCH, Ops: map[string]int{}, Samples: []string{}}
		go watchdog(sum)
		sum.Failure = relay(sum, os.Args[2:])
		out, _ := json.Marshal(sum)
		fmt.Println(string(out))
		if sum.Failure != nil {
			os.Exit(1)
		}
		return
	}
	if machines[name] == nil {
		panic(harnessError("unknown machine " + name))
	}
	sum := &summary{Machine: name, Arch: runtime.GOARCH, Ops: map[string]int{}, Samples: []string{}}
	seen := map[uint64]bool{}
	go watchdog(sum)
	for _, p := range os.Args[2:] {
		if f := replay(name, sum, seen, p); f != nil {
			sum.Failure = f
			break
		}
	}
	sum.Distinct = len(seen)
	if sum.Ops["swu1"] > 0 {
		sum.Samples = append(sum.Samples, "unbound stages: "+unbound())
	}
	sort.Strings(sum.Samples)
	out, _ := json.Marshal(sum)
	fmt.Println(string(out))
	if sum.Failure != nil {
		os.Exit(1)
	}
}
