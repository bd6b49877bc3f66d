package scen

import (
	"fmt"
	"sort"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
)

func init() {
	core.Props["C10"] = []core.Scen{{Name: "shared-inputs", Weight: 1, Gen: genC10, Exec: execC10}}
	core.Rules["C10"] = "a run is 1-5 tasks with 1-4 calls each of all entry points; most calls share document bytes (with marked spare capacity) or values with calls of other tasks; some documents are damaged, some callbacks, limits and compressors fail; " +
		"inputs are compared with their snapshots and accesses checked for races; non-trivial: an input is used by two calls; distinct: inputs, results and sequence of context switches"
	core.Props["C11"] = []core.Scen{{Name: "ownership", Weight: 1, Gen: genC11, Exec: execC11}}
	core.Rules["C11"] = "a run is a history of 3-14 calls on one encoder, decoder and merger and the package functions, in between which inputs and results are overwritten in place; " +
		"all other inputs and results are compared with their snapshots after each event; non-trivial: at least one result and one overwriting; distinct: sequence of results"
}

func isValueOp(k string) bool { return k == "M" || k == "EM" || k == "EH" }

func randInputOp(r *model.R, c *core.Case, kinds []string, w ...int) core.Op {
	op := core.Op{K: kinds[r.W(w...)], S: r.U64(), N: opSize(r), A: randArgs(r)}
	switch op.K {
	case "MA":
		op.A[aTarget] = 0
		op.A[aFlavor] = r.Pick(0, 2)
		op.A[aWhich] = r.Pick(wMerge, wMerge, wCompressed)
	case "DH", "DB":
		op.A[aWhich] = r.Pick(wHeader, wHeaderComp)
	case "D":
		op.A[aWhich] = r.Pick(wAny, wCompressed, wHeaderComp)
	}
	return op
}

// C10

var c10Kinds = []string{"M", "EM", "EH", "U", "DU", "DH", "DB", "D", "L", "MA", "MF"}

func genC10(r *model.R, c *core.Case) {
	shareWords(r, 40)
	tasks := r.W(10, 40, 25, 15, 10) + 1
	c.P = []int{int(r.U64() >> 2), r.W(90, 10)}
	for t := 0; t < tasks; t++ {
		for i, n := 0, r.Range(1, 4); i < n; i++ {
			op := randInputOp(r, c, c10Kinds, 10, 14, 8, 10, 14, 5, 8, 12, 2, 14, 3)
			op.T = t
			if !isValueOp(op.K) && op.K != "MF" {
				addFaults(r, &op, c.Seed, 30)
			}
			if r.P(25) {
				op.CB = randCB(r, 1, append([]string{"keep", "keep", "keep"}, failKinds...))
				op.A[aVOpt] |= vCallbacks
			}
			c.Ops = append(c.Ops, op)
		}
	}
	reuse(r, c.Ops, 70)
	core.RandSched(r, c, estimate(c.Ops), tasks)
}

type inputSnap struct {
	b string // document bytes with what is behind them
	v string
}

func (p *input) snap() inputSnap {
	var s inputSnap
	if p.b != nil {
		s.b = string(p.b[:cap(p.b)])
	}
	if p.doc == nil {
		o := model.GoOpt{Share: true, Cap: true}
		s.v = model.GoCanon(p.v, o) + "H" + model.GoCanon(p.h, o)
	}
	return s
}

func (s inputSnap) diff(t inputSnap) string {
	if s == t {
		return ""
	}
	if s.b != t.b {
		i := 0
		for i < len(s.b) && s.b[i] == t.b[i] {
			i++
		}
		return fmt.Sprintf("byte %d of the document (with what is behind it, %d bytes): %#x became %#x", i, len(s.b), s.b[i], t.b[i])
	}
	return "the value: " + strDiff(s.v, t.v)
}

func strDiff(x, y string) string {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("...%s became ...%s", clip(x[lo:], 200), clip(y[lo:], 200))
}

// keys of the inputs in a fixed order
func (n *env) sorted() []string {
	var ks []string
	for k := range n.in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func execC10(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	n.e = encoderOf(c)
	before := map[string]inputSnap{}
	used := map[string]int{}
	for k, p := range n.in {
		before[k] = p.snap()
	}
	for i := range c.Ops {
		used[n.keys[&c.Ops[i]]]++
	}
	res := runTasks(c, x, func(t int, ops []*core.Op) *env {
		o := *n
		s := simrt.Mix(uint64(c.Param(0)), uint64(ops[0].T))
		o.d = decoderFor(int(s % 4))
		o.m = mergerFor(s)
		return &o
	})
	if x.Failed() {
		return
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		x.Note(res[op].fix(x, op, n).Sig())
	}
	for _, k := range n.sorted() {
		if used[k] > 1 {
			x.Out.Nontrivial = true
		}
		x.Note(before[k].b + before[k].v)
		if d := before[k].diff(n.in[k].snap()); d != "" {
			calls := ""
			for i := range c.Ops {
				if op := &c.Ops[i]; n.keys[op] == k {
					calls += fmt.Sprintf(" task %d %s %s;", op.T, op.K, res[op].Cls)
				}
			}
			x.Fail("input changed", "an input was modified: %s; used by%s", d, calls)
		}
	}
}

// C11

func genC11(r *model.R, c *core.Case) {
	shareWords(r, 40)
	opt := r.Intn(4)
	c.P = []int{int(r.U64() >> 2), 0, opt}
	n := r.Range(3, 14)
	if r.P(3) {
		n = r.Range(15, 40)
	}
	scribble, focus := 35, []string(nil)
	if r.P(6) { // many small calls of a few kinds
		n, scribble = r.Range(20, 70), 6
		for len(focus) < 2 {
			focus = append(focus, []string{"M", "EM", "EM", "EH", "U", "DU", "DB", "D", "D", "MA"}[r.Intn(10)])
		}
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.P(scribble) {
			// overwrite an input (A[0]=0) or a result (A[0]=1) of an earlier call,
			// or append to the slices in a result (A[0]=2)
			c.Ops = append(c.Ops, core.Op{K: "scribble", S: c.Ops[r.Intn(i)].S, A: []int{r.Pick(0, 0, 1, 1, 2)}})
			continue
		}
		if i > 0 && r.P(6) { // another object takes the place of one
			c.Ops = append(c.Ops, core.Op{K: []string{"newD", "newE", "newM", "newM"}[r.Intn(4)], S: r.U64()})
			continue
		}
		op := randInputOp(r, c, c10Kinds, 10, 14, 8, 10, 16, 6, 12, 14, 0, 14, 5)
		if focus != nil {
			op = randInputOp(r, c, focus, 10, 10)
			if r.P(85) {
				op.N = r.Range(1, 3)
			}
		}
		op.A[aVOpt] &^= vDyn
		if r.P(30) && isValueOp(op.K) {
			op.A[aVOpt] |= vPerl
		}
		if !isValueOp(op.K) && op.K != "MF" && r.P(10) {
			addFaults(r, &op, c.Seed, 100)
		}
		if r.P(15) {
			op.CB = randCB(r, 1, append([]string{"keep", "keep"}, failKinds...))
			op.A[aVOpt] |= vCallbacks
		} else if r.P(15) && !isValueOp(op.K) && op.K != "MA" { // callbacks keep what they are given
			op.A[aTarget] = r.Pick(4, 4, 15, 15, 27, 28, 29, 30)
			op.A[aFlavor] = 1
			for at := 0; at < 4; at++ {
				op.CB = append(op.CB, core.CBFault{At: at, K: "keep"})
			}
		}
		c.Ops = append(c.Ops, op)
	}
	var calls []core.Op
	var idx []int
	for i, op := range c.Ops {
		if op.K != "scribble" && len(op.A) > 0 {
			calls, idx = append(calls, op), append(idx, i)
		}
	}
	reuse(r, calls, 30)
	for j, i := range idx {
		c.Ops[i] = calls[j]
	}
	core.RandSched(r, c, estimate(c.Ops), 1)
}

type live struct {
	op   *core.Op
	what string
	res  *Res
	snap string
	dead bool
	m    *sereal.Merger
}

func resultSnap(r *Res) string {
	s := string(r.B)
	if r.T != nil {
		s += "T" + goCanon(r.T)
	}
	if r.H != nil {
		s += "H" + goCanon(r.H)
	}
	return s
}

func execC11(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	n.e = encoderOf(c)
	n.d = decoderFor(c.Param(2))
	n.m = mergerFor(uint64(c.Param(0)))
	n.plan = func(*core.Op) *cbPlan { return &cbPlan{keep: true} }
	in := map[string]inputSnap{}
	for k, p := range n.in {
		in[k] = p.snap()
	}
	keys := n.sorted()
	var results []*live
	scribbled, marks := 0, 0
	x.Main(limit(c), core.Guard(func() {
		for i := range c.Ops {
			if simrt.Aborting() || x.Failed() {
				return
			}
			op := &c.Ops[i]
			event := fmt.Sprintf("event %d (%s)", i, op.K)
			if op.K == "scribble" {
				scribbled++
				if op.Arg(0) == 0 {
					for j := range c.Ops[:i] {
						o := &c.Ops[j]
						if o.S != op.S || o.K == "scribble" {
							continue
						}
						k := n.keys[o]
						p := n.in[k]
						if p.b != nil {
							model.Scribble(p.b)
						}
						if p.doc == nil {
							model.Scribble(&p.v)
							model.Scribble(&p.h)
						}
						in[k] = p.snap()
						x.Count("overwritten:input", 1)
						break
					}
				} else {
					for _, l := range results {
						if l.op.S != op.S && op.Arg(0) == 1 || l.dead {
							continue
						}
						if op.Arg(0) == 2 { // all results, one after the other
							grown := 0
							if b := l.res.B; cap(b) > len(b) && l.op.K != "MF" {
								l.res.B = append(b, byte(i+1))
								grown++
							}
							if l.res.T != nil {
								marks++
								grown += model.Grow(l.res.T, marks)
							}
							if l.res.H != nil {
								marks++
								grown += model.Grow(l.res.H, marks)
							}
							l.snap = resultSnap(l.res)
							x.Count("appended:result", grown)
							continue
						}
						l.dead = true
						model.Scribble(l.res.B)
						if l.res.T != nil {
							model.Scribble(l.res.T)
						}
						if l.res.H != nil {
							model.Scribble(l.res.H)
						}
						x.Count("overwritten:result", 1)
						if l.op.K == "MF" { // a merger has only one merged document
							for _, o := range results {
								if o.op.K == "MF" && o.m == l.m {
									o.dead = true
								}
							}
						}
						break
					}
				}
			} else {
				res := n.do(op)
				if res.Cls == "ok" {
					l := &live{op: op, what: fmt.Sprintf("the result of event %d (%s)", i, op.K), res: res, snap: resultSnap(res), m: n.m}
					results = append(results, l)
					x.Note(l.snap)
				} else {
					x.Note(res.Cls)
				}
				for _, k := range res.Fired {
					x.Count("callback:"+k, 1)
				}
			}
			for _, l := range results {
				if !l.dead {
					if s := resultSnap(l.res); s != l.snap {
						x.Fail("result changed", "%s changed %s: %s", event, l.what, hexDiff(l.snap, s))
						return
					}
				}
			}
			for _, k := range keys {
				if d := in[k].diff(n.in[k].snap()); d != "" {
					x.Fail("input changed", "%s changed an input: %s", event, d)
					return
				}
			}
		}
	}))
	x.Out.Nontrivial = scribbled > 0 && len(results) > 0
}

func hexDiff(a, b string) string {
	return fmt.Sprintf("%q", strDiff(a, b))
}

var _ = strings.Contains
var _ = sereal.Marshal
