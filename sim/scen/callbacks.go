package scen

import (
	"errors"
	"fmt"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
)

func init() {
	core.Props["C15"] = []core.Scen{{Name: "failing-callbacks", Weight: 1, Gen: genC15, Exec: execC15}}
	core.Rules["C15"] = "a run encodes a value or decodes a document with callbacks in it; once without faults, then with a failure at up to 6 of the callback invocations, on reused and on new objects; " +
		"non-trivial: at least one injected failure happened; distinct: input, positions and results"
	core.Props["C16"] = []core.Scen{{Name: "stalled-callbacks", Weight: 1, Gen: genC16, Exec: execC16}}
	core.Rules["C16"] = "a run is 2-5 tasks with 1-3 calls each (package functions, a shared encoder, decoders and mergers of their own); callbacks of one or more tasks stall until everybody else has ended, panic, end the goroutine, or call into the package and the very encoder; " +
		"every unaffected call is compared with the same call alone; non-trivial: a callback fault happened; distinct: results and sequence of context switches"
}

// C15

func genC15(r *model.R, c *core.Case) {
	shareWords(r, 40)
	kind := []string{"M", "EM", "EH", "U", "DU", "DH", "DB"}[r.W(12, 20, 16, 8, 22, 8, 14)]
	op := core.Op{K: kind, S: r.U64(), N: opSize(r), A: randArgs(r)}
	op.A[aVOpt] &^= vDyn | vBad
	op.A[aVOpt] |= vManyCB | vCallbacks
	switch kind {
	case "U": // callbacks need a typed destination
		op.A[aTarget] = r.Pick(4, 4, 15, 27, 28, 29, 30, 36)
		op.A[aFlavor] = 1
	case "DU", "DH", "DB":
		op.A[aTarget] = r.Pick(0, 0, 0, 0, 0, 4, 4, 15, 15, 6, 5, 27, 28, 29, 30, 36)
		op.A[aFlavor] = r.Pick(0, 0, 2)
		if op.A[aTarget] == 4 || op.A[aTarget] >= 15 {
			op.A[aFlavor] = 1
		}
		if kind != "DU" {
			op.A[aWhich] = wHeader
		}
	}
	op.A[aDOpt] = r.Intn(4) &^ dPerl
	if r.P(15) {
		op.A[aDOpt] |= dPerl
	}
	c.P = []int{int(r.U64() >> 2), 0, r.Intn(2), r.W(85, 15)}
	for i := 0; i < 6; i++ {
		// positions are percentages of the number of invocations
		op.CB = append(op.CB, core.CBFault{At: r.Pick(0, 100, r.Intn(101), r.Intn(101), r.Intn(101)), K: failKinds[r.Intn(len(failKinds))]})
	}
	c.Ops = []core.Op{op}
	c.Sched.MapMode = r.Intn(4)
	c.Sched.PoolNew = r.Pick(0, 50)
}

func execC15(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	op := &c.Ops[0]
	if p := n.in[n.keys[op]]; isValueOp(op.K) && c.Param(3) == 1 {
		p.v = model.KeyedByCallbacks(model.NewR(op.S), p.v)
	}
	object := func() {
		n.e = encoderOf(c)
		n.e.MaxRecursionDepth = 0
		n.d = decoderFor(op.Arg(aDOpt))
	}
	object()
	n.warm(c, x, 0)
	type outcome struct {
		f   core.CBFault
		res *Res
	}
	var dry *Res
	var outs []outcome
	x.Main(4*limit(c), core.Guard(func() {
		none := &cbPlan{faults: []core.CBFault{}}
		n.plan = func(*core.Op) *cbPlan { return none }
		dry = n.do(op)
		if dry.Calls == 0 {
			return
		}
		for _, f := range op.CB {
			if simrt.Aborting() {
				return
			}
			if c.Param(2) == 1 {
				object()
			}
			g := core.CBFault{At: f.At * (dry.Calls - 1) / 100, K: f.K}
			p := &cbPlan{faults: []core.CBFault{g}}
			n.plan = func(*core.Op) *cbPlan { return p }
			outs = append(outs, outcome{g, n.do(op)})
		}
	}))
	if x.Failed() {
		return
	}
	x.Note(fmt.Sprint(dry.Cls, dry.Calls, op.S))
	for _, o := range outs {
		r := o.res
		x.Note(fmt.Sprint(o.f.At, o.f.K, r.Cls))
		if len(r.Fired) == 0 {
			continue
		}
		x.Out.Nontrivial = true
		x.Count("callback:"+o.f.K, 1)
		where := fmt.Sprintf("%s: callback %d of %d (%s)", op.K, o.f.At, dry.Calls, o.f.K)
		switch {
		case r.Cls == "ok":
			x.Fail("swallowed", "%s: the call reports success; without the failure: %v", where, dry)
		case o.f.K == "goexit":
			if r.Cls != "goexit" {
				x.Fail("returned", "%s: the call returns (%v) although its goroutine has ended", where, r)
			}
		case r.Cls == "goexit":
			x.Fail("swallowed", "%s: the call does not return", where)
		case strings.HasPrefix(o.f.K, "err"):
			if r.Cls == "panic" {
				x.Fail("panic", "%s: the call panics (%v) where the callback returned an error", where, r.Pan)
			} else if dry.Cls == "ok" && !errors.Is(r.Err, r.CBErr) {
				x.Fail("other error", "%s: the error of the call does not match the error of the callback: %v (%T)", where, r.Err, r.Err)
			}
		}
	}
}

// C16

var stallKinds = []string{"stall", "stall", "stall", "reenter", "reenter", "panic:string", "panic:error", "goexit", "err", "gc"}

func genC16(r *model.R, c *core.Case) {
	shareWords(r, 40)
	tasks := r.Range(2, 5)
	crowd := r.P(8) // almost everybody stalls
	decoding := r.P(50)
	if crowd {
		tasks = r.Range(10, 40)
	}
	uniform := crowd && r.P(40) // and with the same call
	if uniform {
		tasks = r.Pick(20, 40, 70, 70, 140, 280)
	}
	c.P = []int{int(r.U64() >> 2), 0}
	for t := 0; t < tasks; t++ {
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			op := randInputOp(r, c, c10Kinds, 20, 24, 8, 10, 14, 4, 6, 8, 0, 10, 0)
			op.T = t
			op.A[aVOpt] &^= vBad
			if crowd {
				op.N = min(op.N, 6)
				op.A[aScale] = 0
				if t < tasks-2 {
					op.K = []string{"M", "EM", "DU"}[r.W(40, 40, 20)]
					if decoding {
						op.K = []string{"U", "DU", "EM"}[r.W(20, 70, 10)]
						op.A[aWhich] = r.Pick(wAny, wCompressed, wCompressed)
					}
					n = 1
				} else if decoding {
					op.K = []string{"U", "DU", "D"}[r.W(40, 40, 20)]
					op.A[aWhich] = wCompressed
				}
			}
			if op.A[aDOpt] |= dNoRef * r.Intn(2); op.K == "DU" || op.K == "U" || op.K == "DB" {
				if r.P(60) {
					op.A[aTarget] = r.Pick(4, 15, 4, 15, 27, 28, 30)
					op.A[aFlavor] = 1
				}
			}
			if t == 0 && i == 0 || r.P(30) || crowd && t < tasks-2 && r.P(90) {
				op.CB = randCB(r, r.Range(1, 2), stallKinds)
				if crowd {
					op.CB = []core.CBFault{{At: 0, K: "stall"}}
				}
				op.A[aVOpt] |= vCallbacks | vManyCB
				if op.K == "D" || op.K == "MA" {
					op.K = "EM"
				}
			}
			if uniform && t > 0 && t < tasks-2 {
				op = c.Ops[0]
				op.T = t
				op.A = append([]int(nil), op.A...)
			}
			if uniform && t == 0 {
				n = 1
			}
			if len(c.Ops) > 0 && r.P(8) { // objects made while others are in a callback
				c.Ops = append(c.Ops, core.Op{K: []string{"newD", "newD", "newM"}[r.Intn(3)], S: r.U64(), T: t})
			}
			c.Ops = append(c.Ops, op)
		}
	}
	reuse(r, c.Ops, 25)
	core.RandSched(r, c, estimate(c.Ops), tasks)
}

// nested is what a callback does when it calls into the package: fixed inputs,
// made before the run.
type nested struct {
	val  interface{}
	doc  []byte
	zdoc []byte
	want [4]string
	got  []nestedRes
}

type nestedRes struct {
	i int
	s *Res
}

func newNested(uid uint64) *nested {
	n := &nested{val: map[string]interface{}{"a": []interface{}{1, "two", model.Pt{X: 3, Y: 4}}, "b": model.Rec{A: 5, B: "six", J: []string{"a", "b"}}}}
	n.doc, _ = plainMarshal(sereal.NewEncoderV3(), n.val)
	e := sereal.NewEncoderV3()
	e.Compression = sereal.ZlibCompressor{}
	e.CompressionThreshold = 0
	n.zdoc, _ = plainMarshal(e, n.val)
	return n
}

// call makes one nested call.
func (n *nested) call(i int, e *sereal.Encoder) *Res {
	r := &Res{}
	func() {
		defer func() {
			if simrt.Aborting() {
				return
			}
			if p := recover(); p != nil {
				r.Cls, r.Pan = "panic", p
			}
		}()
		var err error
		switch i {
		case 0:
			r.B, err = sereal.Marshal(n.val)
		case 1:
			t := new(interface{})
			r.T = t
			err = sereal.Unmarshal(n.doc, t)
		case 2:
			r.B, err = sereal.DecompressDocument(nil, n.zdoc)
		case 3:
			r.B, err = e.Marshal(n.val)
		}
		r.Err = err
		r.Cls = "ok"
		if err != nil {
			r.Cls = "err"
		}
	}()
	return r
}

func (r *Res) nestedSig() string {
	s := r.Cls
	if r.B != nil {
		s += docCanon(r.B)
	}
	if r.T != nil {
		s += goCanon(r.T)
	}
	if r.Err != nil {
		s += r.Err.Error()
	}
	if r.Pan != nil {
		s += fmt.Sprint(r.Pan)
	}
	return s
}

func execC16(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	mkEnc := func() *sereal.Encoder {
		e := encoderOf(c)
		e.MaxRecursionDepth = 0
		return e
	}
	n.e = mkEnc()
	in := newNested(c.Seed)
	var envs []*env
	var results [][]nestedRes
	own := func(t int, ops []*core.Op, base *env, e *sereal.Encoder) *env {
		o := *base
		s := simrt.Mix(uint64(c.Param(0)), uint64(t))
		o.d = decoderFor(int(s % 4))
		o.m = mergerFor(s)
		o.e = e
		return &o
	}
	// runTasks with stalls
	tasks := byTask(c.Ops)
	slots := map[*core.Op]*slot{}
	var fns []func()
	for i, ops := range tasks {
		i, ops := i, ops
		o := own(ops[0].T, ops, n, n.e)
		o.warm(c, x, i)
		envs = append(envs, o)
		results = append(results, nil)
		buf := make([]nestedRes, 0, 64)
		results[i] = buf
		k := 0
		o.plan = func(op *core.Op) *cbPlan {
			p := &cbPlan{}
			p.reenter = func() {
				for j := 0; j < 2 && len(results[i]) < 60; j++ {
					w := k % 4
					if isValueOp(op.K) && op.K != "M" && k%2 == 0 {
						w = 3
					}
					k++
					results[i] = append(results[i], nestedRes{w, in.call(w, o.e)})
				}
			}
			return p
		}
		var ss []*slot
		for _, op := range ops {
			s := &slot{}
			slots[op] = s
			ss = append(ss, s)
		}
		fns = append(fns, core.Guard(func() {
			for j, op := range ops {
				ss[j].r = o.do(op)
			}
		}))
	}
	run := x.Main(limit(c), fns...)
	if run.Deadlock && !x.Failed() {
		x.Fail("deadlock", "deadlock")
	}
	if x.Out.Class == "deadlock" {
		x.Out.Detail = "tasks wait for each other forever; a callback calls into the package or another task failed in one"
		return
	}
	if x.Failed() {
		return
	}
	if run.StallBlocked {
		x.Fail("blocked", "calls cannot go on while another caller is stalled in its callback: all unstalled tasks wait for a lock")
		return
	}
	// alone, without faults other than those that make calls fail
	u2 := twin(c.Seed)
	n2 := prepare(x, c, u2)
	for t, ops := range tasks {
		for _, r := range results[t] {
			if in.want[r.i] == "" {
				var w *Res
				x.Solo(limit(c), core.Guard(func() { w = in.call(r.i, mkEnc()) }))
				in.want[r.i] = w.nestedSig()
			}
			x.Count("callback:nested call", 1)
			if g := r.s.nestedSig(); g != in.want[r.i] {
				x.Fail("nested", "a call (%d) from within a callback gives %s, normally %s", r.i, clip(g, 500), clip(in.want[r.i], 500))
				return
			}
		}
		o := own(ops[0].T, ops, n2, mkEnc())
		bs := make([]*Res, len(ops))
		x.Solo(limit(c), core.Guard(func() {
			for j, op := range ops {
				bs[j] = o.do(op)
			}
		}))
		if x.Failed() {
			return
		}
		for j, op := range ops {
			a, b := slots[op].r.fix(x, op, n), bs[j].fix(x, op, n2)
			x.Note(a.Sig())
			if len(a.Fired) > 0 {
				x.Out.Nontrivial = true
			}
			if !same(*a, *b) {
				x.Fail("mismatch", "task %d, call %d, %s: among others %v, alone %v; %s", op.T, j, op.K, a, b, diff(*a, *b))
			}
		}
	}
}
