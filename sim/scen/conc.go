package scen

import (
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
)

func init() {
	core.Props["C01"] = []core.Scen{{Name: "package-functions", Weight: 1, Gen: genC01, Exec: execC01}}
	core.Rules["C01"] = "a run is 2-6 tasks with 1-3 calls each of Marshal, Unmarshal, DecompressDocument and LooksLikeSereal, some on shared documents and values, " +
		"some on damaged documents or with failing callbacks, on types made up for the run, under a generated schedule; non-trivial: at least one preemption inside a call; " +
		"distinct: results and sequence of context switches"
	core.Props["C02"] = []core.Scen{{Name: "shared-encoder", Weight: 1, Gen: genC02, Exec: execC02}}
	core.Rules["C02"] = "a run is 2-6 tasks with 1-3 Marshal or MarshalWithHeader calls each on one encoder with random options, some of them failing (callbacks, unsupported values, recursion limit, compressor); " +
		"non-trivial: at least one preemption inside a call; distinct: results and sequence of context switches"
	core.Props["C03"] = []core.Scen{{Name: "own-objects", Weight: 1, Gen: genC03, Exec: execC03}}
	core.Rules["C03"] = "a run is 2-5 tasks, each with its own decoder, encoder or merger and a history of 2-6 calls on it; every task's results are compared with those of the same history run alone; " +
		"non-trivial: at least one preemption inside a call; distinct: results and sequence of context switches"
}

func randArgs(r *model.R) []int {
	a := make([]int, aLen)
	a[aVoc] = wordsFor(r)
	a[aScale] = randScale(r, 12)
	a[aTarget] = r.Pick(0, 0, 0, r.Intn(model.Targets), r.Intn(model.Targets), 21)
	a[aFlavor] = r.Pick(0, 1, 1, 2)
	if a[aTarget] != 0 && r.P(80) {
		a[aFlavor] = 1
	}
	a[aVOpt] = r.Intn(1 << 6)
	if r.P(60) {
		a[aVOpt] |= vDyn
	}
	if r.P(70) {
		a[aVOpt] &^= vBad
	}
	return a
}

// reuse makes some operations work on the same inputs.
func reuse(r *model.R, ops []core.Op, pct int) {
	if r.Scale != 0 {
		pct = 60
	}
	for i := 1; i < len(ops); i++ {
		if !r.P(pct) {
			continue
		}
		j := r.Intn(i)
		if len(ops[i].A) == 0 || len(ops[j].A) == 0 {
			continue
		}
		vi := ops[i].K == "M" || ops[i].K == "EM" || ops[i].K == "EH"
		vj := ops[j].K == "M" || ops[j].K == "EM" || ops[j].K == "EH"
		if vi == vj {
			ops[i].S, ops[i].N, ops[i].A, ops[i].F = ops[j].S, ops[j].N, ops[j].A, ops[j].F
		}
	}
}

func opSize(r *model.R) int {
	switch r.W(60, 30, 10) {
	case 0:
		return r.Range(1, 8)
	case 1:
		return r.Range(5, 30)
	}
	return r.Range(20, 100)
}

// spread orders the operations of tasks as they are listed in the case.
func addFaults(r *model.R, op *core.Op, uid uint64, pct int) {
	if r.P(pct) {
		op.F = randFaults(r, docOf(op, uid), r.Range(1, 2))
	}
}

func genC01(r *model.R, c *core.Case) {
	shareWords(r, 40)
	tasks, calls, size := r.Range(2, 6), 3, opSize
	if r.P(3) { // many calls
		calls = r.Range(6, 15)
		size = func(r *model.R) int { return r.Range(1, 8) }
	}
	few := r.P(fewPct)
	same := r.W(30, 30, 40)
	if few {
		tasks, calls, size = r.Range(3, 5), 6, tiny
	}
	for t := 0; t < tasks; t++ {
		for i, n := 0, r.Range(1, calls); i < n; i++ {
			op := core.Op{T: t, K: []string{"M", "U", "D", "L"}[r.W(45, 40, 12, 3)], S: r.U64(), N: size(r), A: randArgs(r)}
			if few {
				op.A[aScale] = 0
				op.A[aVOpt] &^= vDyn
				if same < 2 {
					op.K = []string{"M", "U"}[same]
				}
			}
			if op.K != "M" {
				addFaults(r, &op, c.Seed, 15)
			}
			if op.K != "D" && op.K != "L" && r.P(25) {
				op.CB = randCB(r, 1, failKinds)
				op.A[aVOpt] |= vCallbacks
			}
			c.Ops = append(c.Ops, op)
		}
	}
	reuse(r, c.Ops, 40)
	core.RandSched(r, c, estimate(c.Ops), tasks)
	if few {
		core.SyncSched(r, c)
	}
}

// Some runs are many tiny calls that are interleaved at locks, pools and atomic
// operations only.
const fewPct = 12

func tiny(r *model.R) int { return r.Range(1, 3) }

// runTasks executes the operations of each task in order; get returns what a
// task works with.
func runTasks(c *core.Case, x *core.X, get func(t int, ops []*core.Op) *env) map[*core.Op]*Res {
	tasks := byTask(c.Ops)
	slots := map[*core.Op]*slot{}
	var fns []func()
	for i, ops := range tasks {
		ops := ops
		n := get(i, ops)
		n.warm(c, x, i)
		var ss []*slot
		for _, op := range ops {
			s := &slot{}
			slots[op] = s
			ss = append(ss, s)
		}
		fns = append(fns, core.Guard(func() {
			for j, op := range ops {
				ss[j].r = n.do(op)
			}
		}))
	}
	x.Main(limit(c), fns...)
	res := map[*core.Op]*Res{}
	for op, s := range slots {
		res[op] = s.r
	}
	return res
}

// warm has the objects serve some small calls, if the case says so.
func (n *env) warm(c *core.Case, x *core.X, id int) {
	if c.Warm == 0 || x.Failed() {
		return
	}
	x.Solo(limit(c), core.Guard(func() {
		zip := sereal.NewEncoderV3()
		zip.Compression, zip.CompressionThreshold = sereal.ZlibCompressor{Level: 1}, 0
		if id%2 == 1 {
			zip.Compression = sereal.SnappyCompressor{Incremental: true}
		}
		r := model.NewR(simrt.Mix(c.Seed, uint64(7000+id)))
		for i := 0; i < c.Warm; i++ {
			var v interface{} = map[string]interface{}{"k": r.Intn(100), "text": "abcdefghij"[r.Intn(10):]}
			switch r.Intn(5) {
			case 0:
				v = "abcdefghijklmnopqrstuvwxyz"[r.Intn(26):]
			case 1:
				v = []interface{}{r.Intn(1000), []byte("bin"), "bin"}
			case 2:
				v = []int{r.Intn(10)}
			}
			var b, z []byte
			if id == 0 || n.e == nil {
				b, _ = sereal.Marshal(v)
				sereal.Unmarshal(b, new(interface{}))
			}
			if n.e != nil {
				b, _ = n.e.Marshal(v)
				if i%4 == 1 {
					b, _ = n.e.MarshalWithHeader(i, v)
				}
			}
			if n.d != nil {
				n.d.Unmarshal(b, new(interface{}))
				n.d.UnmarshalHeader(b, new(interface{}))
			}
			if i%3 == 0 {
				z, _ = zip.Marshal(v)
				sereal.DecompressDocument(nil, z)
				if n.d != nil {
					n.d.Unmarshal(z, new(interface{}))
				}
			}
			if simrt.Aborting() {
				return
			}
		}
	}))
}

type slot struct {
	r *Res
	_ [128]byte // results of different tasks do not share cache lines or shadow cells
}

func execC01(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	res := runTasks(c, x, func(int, []*core.Op) *env { return n })
	if x.Failed() {
		return
	}
	x.Out.Nontrivial = x.Out.Preempts > 0
	// alone, and on types of its own
	u2 := twin(c.Seed)
	n2 := prepare(x, c, u2)
	for i := range c.Ops {
		op := &c.Ops[i]
		a := res[op].fix(x, op, n)
		x.Note(a.Sig())
		var b *Res
		x.Solo(limit(c), core.Guard(func() { b = n2.do(op) }))
		if x.Failed() {
			return
		}
		b.fix(x, op, n2)
		if !same(*a, *b) {
			x.Fail("mismatch", "task %d, %s: concurrently %v, alone %v; %s", op.T, op.K, a, b, diff(*a, *b))
		}
	}
}

func genC02(r *model.R, c *core.Case) {
	shareWords(r, 40)
	tasks, calls, size := r.Range(2, 6), 3, opSize
	if r.P(3) { // many calls
		calls = r.Range(6, 15)
		size = func(r *model.R) int { return r.Range(1, 8) }
	}
	c.P = []int{int(r.U64() >> 2), r.W(90, 10)}
	few := r.P(fewPct)
	if few {
		tasks, calls, size = r.Range(3, 5), 6, tiny
	}
	for t := 0; t < tasks; t++ {
		for i, n := 0, r.Range(1, calls); i < n; i++ {
			op := core.Op{T: t, K: []string{"EM", "EH"}[r.Intn(2)], S: r.U64(), N: size(r), A: randArgs(r)}
			if few {
				op.A[aScale] = 0
				op.A[aVOpt] &^= vDyn
			}
			if r.P(25) {
				op.CB = randCB(r, 1, failKinds)
				op.A[aVOpt] |= vCallbacks
			}
			c.Ops = append(c.Ops, op)
		}
	}
	reuse(r, c.Ops, 30)
	core.RandSched(r, c, estimate(c.Ops), tasks)
	if few {
		core.SyncSched(r, c)
	}
}

func encoderOf(c *core.Case) *sereal.Encoder {
	e := encoderFor(uint64(c.Param(0)))
	if c.Param(1) == 1 {
		failingCompressor(e, model.NewR(uint64(c.Param(0))+1))
	}
	return e
}

func execC02(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	n.e = encoderOf(c)
	res := runTasks(c, x, func(int, []*core.Op) *env { return n })
	if x.Failed() {
		return
	}
	x.Out.Nontrivial = x.Out.Preempts > 0
	u2 := twin(c.Seed)
	n2 := prepare(x, c, u2)
	for i := range c.Ops {
		op := &c.Ops[i]
		a := res[op].fix(x, op, n)
		x.Note(a.Sig())
		n2.e = encoderOf(c)
		var b *Res
		x.Solo(limit(c), core.Guard(func() { b = n2.do(op) }))
		if x.Failed() {
			return
		}
		b.fix(x, op, n2)
		if !same(*a, *b) {
			x.Fail("mismatch", "task %d, %s: on the shared encoder %v, on its own %v; %s", op.T, op.K, a, b, diff(*a, *b))
		}
		if a.Cls == "err" && a.B != nil {
			x.Fail("document with error", "task %d, %s: failed (%v) and returned %d bytes", op.T, op.K, a.Err, len(a.B))
		}
	}
}

func genC03(r *model.R, c *core.Case) {
	shareWords(r, 40)
	tasks, calls, size := r.Range(2, 5), 6, opSize
	if r.P(3) { // long histories
		tasks, calls = 2, r.Range(12, 25)
		size = func(r *model.R) int { return r.Range(1, 8) }
	}
	few := r.P(fewPct)
	if few {
		tasks, calls, size = r.Range(3, 5), 6, tiny
	}
	alike, k := r.P(30) || r.Scale != 0 || few, r.W(40, 30, 30)
	for t := 0; t < tasks; t++ {
		kind := r.W(40, 30, 30)
		if alike {
			kind = k
		}
		c.P = append(c.P, kind, int(r.U64()>>2))
		for i, n := 0, r.Range(2, calls); i < n; i++ {
			op := core.Op{T: t, S: r.U64(), N: size(r), A: randArgs(r)}
			if few {
				op.A[aScale] = 0
				op.A[aVOpt] &^= vDyn
			}
			switch kind {
			case 0:
				op.K = []string{"DU", "DH", "DB"}[r.W(60, 15, 25)]
				op.A[aWhich] = r.Pick(wAny, wHeader)
				if r.Scale != 0 && r.P(70) {
					op.A[aWhich] = wCompressed
				}
				addFaults(r, &op, c.Seed, 20)
			case 1:
				op.K = []string{"EM", "EH"}[r.Intn(2)]
			case 2:
				op.K = "MA"
				if i > 0 && (i == n-1 || r.P(15)) {
					op.K = "MF"
				}
				op.A[aTarget] = 0
				op.A[aFlavor] = r.Pick(0, 2)
				op.A[aWhich] = wMerge
				if op.K == "MA" {
					addFaults(r, &op, c.Seed, 20)
				}
			}
			if i > 0 && r.P(12) { // the task goes on with another object
				op = core.Op{T: t, S: r.U64(), K: []string{"newD", "newE", "newM"}[kind]}
			}
			if kind != 2 && len(op.A) > 0 && r.P(20) {
				op.CB = randCB(r, 1, failKinds)
				op.A[aVOpt] |= vCallbacks
			}
			c.Ops = append(c.Ops, op)
		}
	}
	reuse(r, c.Ops, 30)
	c.P = append(c.P, 0, randRoom(r))
	core.RandSched(r, c, estimate(c.Ops), tasks)
	if few {
		core.SyncSched(r, c)
	}
}

// own gives a task an object of its own.
func own(c *core.Case, n *env, t int) *env {
	o := *n
	if len(c.P) > 0 && n.buf == nil && n.box == nil {
		o.roomy(c.P[len(c.P)-1])
	}
	s := uint64(c.Param(2*t + 1))
	switch c.Param(2 * t) {
	case 0:
		opt := int(s % 8 & (dPerl | dNoRef))
		if s>>4%4 == 0 {
			opt |= int(s>>8) & dNames
		}
		o.d = decoderFor(opt)
	case 1:
		o.e = encoderFor(s)
		if s>>4%8 == 0 {
			failingCompressor(o.e, model.NewR(s))
			if z, ok := o.e.Compression.(sereal.ZlibCompressor); ok && z.Level > 9 {
				o.e.Compression = sereal.ZlibCompressor{Level: int(s>>8%60) - 10}
			}
		}
	case 2:
		o.m = mergerFor(s)
	}
	return &o
}

func execC03(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	res := runTasks(c, x, func(_ int, ops []*core.Op) *env { return own(c, n, ops[0].T) })
	if x.Failed() {
		return
	}
	x.Out.Nontrivial = x.Out.Preempts > 0
	u2 := twin(c.Seed)
	n2 := prepare(x, c, u2)
	for _, ops := range byTask(c.Ops) {
		o := own(c, n2, ops[0].T)
		var bs []*Res
		x.Solo(limit(c), core.Guard(func() {
			for _, op := range ops {
				bs = append(bs, o.do(op))
			}
		}))
		if x.Failed() {
			return
		}
		tainted := false // what becomes of a malformed document depends on what it is merged with
		for j, op := range ops {
			a, b := res[op].fix(x, op, n), bs[j].fix(x, op, n2)
			x.Note(a.Sig())
			switch op.K {
			case "newM":
				tainted = false
			case "MA":
				if len(op.F) > 0 && a.Cls == "ok" {
					if _, err := model.Parse(n.in[n.keys[op]].b); err != nil {
						tainted = true
					}
				}
			}
			if a.Cls == b.Cls && op.K == "MF" && tainted {
				continue
			}
			if !same(*a, *b) {
				x.Fail("mismatch", "task %d, call %d, %s: among others %v, alone %v; %s", op.T, j, op.K, a, b, diff(*a, *b))
			}
		}
	}
}

var _ = fmt.Sprint
var _ = simrt.Mix
