package scen

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
	"simverif/simsync"
)

func init() {
	core.Props["C23"] = []core.Scen{{Name: "long-service", Weight: 1, Gen: genC23, Exec: execC23}}
	core.Rules["C23"] = "a run repeats 1-3 kinds of calls (encode, decode, decompress, rejected appends, whole merges; intact, torn and damaged documents; failing callbacks and compressors) 200 to 3000 times with new contents each time, on objects that live on or on new ones, " +
		"and measures after collections of garbage what is still in use, and how many goroutines; non-trivial: always; distinct: kinds of calls, contents and results"
	core.Props["C24"] = []core.Scen{{Name: "process-history", Weight: 1, Gen: genC24, Exec: execC24}}
	core.Rules["C24"] = "a run is a history of 2-8 tasks that run one after the other in the same process, each with calls of package-level functions and with histories on objects of its own, faults and failing callbacks included; " +
		"every task's results are compared with those of the same task in a process that did nothing before; non-trivial: at least two tasks and a failure in one that others follow; distinct: sequence of results"
}

// C23

// Kinds of contents. Every call gets contents that no call had before.
const (
	fKeys    = iota // many short keys
	fStrings        // many short strings
	fBig            // a long string and long binary data
	fClasses        // objects of new classes
	fPtrs           // shared pointers
	fMixed
	fRegexp
	fFrozen
	fStruct
	fPlain // a single string, byte slice or map that is not in anything else
	fSmall // next to nothing
	fKinds
)

// matter makes contents of about size bytes, and says how much it is.
func matter(kind int, id uint64, size int, fail bool) (interface{}, int) {
	n := size/32 + 1
	word := func(i int) string { return fmt.Sprintf("%016x%04d", simrt.Mix(id, uint64(i)), i) }
	long := func(i, l int) string { return strings.Repeat(word(i), l/20+1) }
	var bad interface{} = model.CBV{Data: []byte(word(1000))}
	switch kind {
	case fKeys:
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[word(i)] = i
		}
		if fail {
			m["zz"] = bad
		}
		return m, 20 * n
	case fStrings:
		a := make([]string, n)
		for i := range a {
			a[i] = word(i)
		}
		if fail {
			return []interface{}{a, bad}, 20 * n
		}
		return a, 20 * n
	case fBig:
		v := []interface{}{long(0, size/2), []byte(long(1, size/2))}
		if fail {
			v = append(v, bad)
		}
		return v, size
	case fClasses:
		var a []interface{}
		for i := 0; i < n; i++ {
			a = append(a, &sereal.PerlObject{Class: word(i), Reference: []interface{}{i}})
		}
		if fail {
			a = append(a, bad)
		}
		return a, 20 * n
	case fPtrs:
		var a []interface{}
		for i := 0; i < n/4+1; i++ {
			p := &model.Rec{A: i, B: word(i), D: map[string]interface{}{word(i + 1): i}}
			a = append(a, p, p)
		}
		if fail {
			a = append(a, bad)
		}
		return a, 20 * n
	case fRegexp:
		var a []interface{}
		for i := 0; i < n/2+1; i++ {
			a = append(a, &sereal.PerlRegexp{Pattern: []byte(word(i)), Modifiers: []byte("i")})
		}
		if fail {
			a = append(a, bad)
		}
		return a, 10 * n
	case fFrozen:
		var a []interface{}
		for i := 0; i < n/2+1; i++ {
			a = append(a, model.CBV{Data: []byte(word(i))}, &model.CBV{Data: []byte(word(-i - 1))})
		}
		return a, 20 * n
	case fStruct:
		m := map[string]*model.Tagged{}
		for i := 0; i < n/4+1; i++ {
			m[word(i)] = &model.Tagged{First: word(i + 1), Third: map[string]string{word(i + 2): word(i + 3)}}
		}
		if fail {
			return []interface{}{m, bad}, 20 * n
		}
		return m, 20 * n
	case fPlain:
		var v interface{}
		switch id % 5 {
		case 0, 1:
			v = long(0, size+64)
		case 2:
			v = []byte(long(0, size+64))
		case 3:
			v = map[string]string{word(0): long(1, size+64)}
		case 4:
			s := long(0, size+64)
			v = &s
		}
		if fail {
			v = []interface{}{v, bad}
		}
		return v, size + 64
	case fMixed:
		var a []interface{}
		for k := 0; k < fMixed; k++ {
			v, _ := matter(k, id+uint64(k)<<40, size/8, false)
			a = append(a, v)
		}
		if fail {
			a = append(a, bad)
		}
		return a, size / 2
	}
	v := interface{}([]interface{}{int(id % 100), word(0), &model.Pt{X: 1, Y: int(id)}})
	if fail {
		v = []interface{}{v, bad}
	}
	return v, 20
}

// What becomes of a document before it is read.
const (
	whole = iota
	torn
	cutShort
	overwritten
	badMagic
	smashed
	storeKinds
)

var storeNames = []string{"", "storage:trunc", "storage:trunc", "storage:set", "storage:set", "storage:fill"}

func genC23(r *model.R, c *core.Case) {
	n := r.W(50, 30, 20) + 1
	for i := 0; i < n; i++ {
		op := core.Op{K: []string{"M", "EM", "EH", "U", "DU", "DH", "DB", "D", "rejected", "merge", "L"}[r.W(10, 14, 8, 10, 16, 6, 8, 8, 12, 7, 1)], S: r.U64(), A: make([]int, aLen)}
		op.N = r.Intn(fKinds)
		op.A[aTarget] = r.Pick(0, 0, 0, 1, 4, 5, 6, 9, 17, 19, 3)
		op.A[aDOpt] = r.Intn(8)
		op.A[aMisc] = r.Pick(whole, whole, smashed, r.Intn(storeKinds))
		op.A[aWhich] = r.Intn(1001) // where
		op.A[aFlavor] = r.W(65, 35)
		if op.K == "rejected" {
			op.A[aMisc] = r.Pick(torn, torn, badMagic)
		}
		if r.P(35) {
			op.CB = []core.CBFault{{At: 0, K: failKinds[r.Intn(len(failKinds))]}}
		}
		c.Ops = append(c.Ops, op)
	}
	// which objects, whether they live on, how much and how often
	size := r.Pick(0, 0, 2000, 8000, 8000, 30000)
	c.P = []int{int(r.U64() >> 2), r.Intn(2), r.Intn(2), size, r.W(85, 15)}
	c.Sched.PoolNew = r.Pick(0, 50)
	c.Sched.MapMode = r.Intn(4)
}

func execC23(c *core.Case, x *core.X) {
	x.Out.Nontrivial = true
	size, rounds := c.Param(3), 1000
	if size > 0 {
		rounds = max(60, 400_000/size)
	}
	n := &env{mapMode: c.Sched.MapMode, base: c.Seed, twin: c.Seed}
	// The kept objects hold nothing when they are new.
	objects := func(op *core.Op) {
		n.e = encoderOf(c)
		if c.Param(4) == 1 {
			failingCompressor(n.e, model.NewR(op.S))
		}
		n.d = decoderFor(op.Arg(aDOpt))
		n.m = mergerFor(op.S)
		n.m.Compression = nil
		// so that there is something to merge with
		b, _ := sereal.NewEncoder().Marshal([]interface{}{1})
		n.m.Append(b)
	}
	id := simrt.Mix(c.Seed, 9)
	fired := 0
	classes := map[string]int{}
	amount := 0
	var accepted bool
	call := func(op *core.Op) {
		id++
		fail := len(op.CB) > 0
		v, size := matter(op.N, id, size, fail)
		amount += size
		var b []byte
		res := func() *Res { // the contents are gone when this returns
			plan := &cbPlan{faults: []core.CBFault{}}
			switch op.K {
			case "M", "EM", "EH":
			default:
				simrt.SetPlan(nil)
				e := encoderFor(op.S)
				e.MaxRecursionDepth = 0
				if op.K == "merge" || op.K == "rejected" {
					v = []interface{}{v}
				}
				if op.Arg(aFlavor) == 1 {
					b = newDoc(op, id, size)
				} else {
					b, _ = plainMarshalH(e, v, op.S%3 == 0)
				}
				switch op.Arg(aMisc) {
				case torn:
					b = b[:len(b)-1]
				case cutShort:
					b = b[:len(b)*op.Arg(aWhich)/1001]
				case overwritten:
					b[(len(b)-1)*op.Arg(aWhich)/1000] ^= byte(1 + op.S%255)
				case smashed:
					i := (len(b) - 1) * op.Arg(aWhich) / 1000
					for j := i; j < len(b) && j < i+16+int(op.S>>32%200); j++ {
						b[j] = 0xff
					}
				case badMagic:
					b[1] ^= 0x40
				}
				v = nil
			}
			plan.faults = op.CB
			r := invoke(op, n.mapMode, plan, func(r *Res) (err error) {
				switch op.K {
				case "M":
					_, err = sereal.Marshal(v)
				case "EM":
					_, err = n.e.Marshal(v)
				case "EH":
					_, err = n.e.MarshalWithHeader(v, v)
				case "U":
					err = sereal.Unmarshal(b, n.dest(op))
				case "DU":
					err = n.d.Unmarshal(b, n.dest(op))
				case "DH":
					err = n.d.UnmarshalHeader(b, new(interface{}))
				case "DB":
					err = n.d.UnmarshalHeaderBody(b, new(interface{}), n.dest(op))
				case "D":
					_, err = sereal.DecompressDocument(nil, b)
				case "L":
					sereal.LooksLikeSereal(b)
				case "rejected":
					_, err = n.m.Append(b)
					accepted = accepted || err == nil
				case "merge":
					m := mergerFor(op.S)
					m.Append(b)
					_, err = m.Append(b)
					m.Finish()
				}
				return err
			})
			return r
		}()
		fired += len(res.Fired)
		classes[res.Cls]++
	}
	simsync.DropPools()
	const limit = 32 << 10
	use, live := make([]uint64, 5, 13), make([]int, 5, 13)
	grown := func(i, j int) uint64 {
		if use[j] > use[i] {
			return use[j] - use[i]
		}
		return 0
	}
	suspected := func() bool {
		return grown(1, 4) > limit && grown(2, 4) > limit/2 && grown(2, 3) > 0 && grown(3, 4) > 0
	}
	x.Main(400_000_000, core.Guard(func() {
		objects(&c.Ops[0])
		for seg := 0; seg < 5 || seg < 13 && !accepted && suspected(); seg++ {
			if seg >= 5 {
				// what is kept for later use stops growing some day
				use, live = append(use, 0), append(live, 0)
			}
			for i := 0; i < rounds && seg > 0; i++ {
				op := &c.Ops[i%len(c.Ops)]
				if c.Param(1) == 1 {
					objects(op)
				}
				call(op)
				if i%100 == 99 {
					simrt.Stall() // everybody else gets on
					if simrt.Live() > 100 {
						break
					}
				}
				if simrt.Aborting() {
					return
				}
			}
			simrt.Stall()
			live[seg] = simrt.Live()
			simsync.DropPools()
			runtime.GC()
			runtime.GC()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			use[seg] = ms.HeapAlloc
			if seg == 0 {
				amount = 0
			}
			if live[seg] > 100 {
				return
			}
		}
	}))
	if x.Failed() {
		return
	}
	for i := range c.Ops {
		if k := c.Ops[i].Arg(aMisc); k != whole && c.Ops[i].K[0] != 'E' && c.Ops[i].K != "M" {
			x.Count(storeNames[k], rounds*4/len(c.Ops))
		}
		for _, f := range c.Ops[i].CB {
			x.Count("callback:"+f.K, fired)
		}
		x.Note(fmt.Sprint(c.Ops[i].K, c.Ops[i].S, c.Ops[i].N, c.Ops[i].A))
	}
	x.Note(fmt.Sprint(classes["ok"], classes["err"], classes["panic"], classes["goexit"]))
	if live[4] > 40 && live[4] > live[3] || live[3] > 100 || live[2] > 100 || live[1] > 100 {
		x.Fail("goroutines", "after %d calls each, %v goroutines started by these calls are still there", rounds, live[1:])
	}
	if accepted {
		return // it is in the merged document
	}
	// from the end of the second quarter on, what is in use must not grow,
	// and what did grow goes on doing so
	per := amount / (len(use) - 1)
	if len(use) == 13 && suspected() && grown(4, 12) > grown(1, 4) && 4*grown(8, 12) > grown(4, 12) {
		x.Fail("growth", "memory in use after every %d calls (%d bytes of contents): %v; results %v", rounds, per, use[1:], classes)
	}
}

// newDoc makes a document of keys and classes that no other has.
func newDoc(op *core.Op, id uint64, size int) []byte {
	r := model.NewR(id)
	g := model.GenOpt{Version: 1 + int(op.S%4), MaxStr: 100, Random: 50, NoAlias: true}
	for i := 0; i < 2+size/60; i++ {
		g.Vocab = append(g.Vocab, []byte(fmt.Sprintf("%016x%d", simrt.Mix(id, uint64(i)), i)))
	}
	if op.S%8 < 5 {
		g.FrzW = 30
		g.FrzCls = model.CBNames[:2:2]
		for i := 0; i < 4+size/60; i++ {
			g.FrzCls = append(g.FrzCls, fmt.Sprintf("%016x::%d", simrt.Mix(id, uint64(i)), i))
		}
	}
	comp := model.Raw
	if g.Version == 3 && op.S%5 < 2 {
		comp = model.Zlib
	}
	o := model.RandEncOpt(r, g.Version, comp)
	n := &model.Node{K: model.KArr, Kids: []*model.Node{}}
	for i := 0; i < 1+size/400; i++ {
		n.Kids = append(n.Kids, model.Gen(r, 10, g))
	}
	n = &model.Node{K: model.KRef, Kids: []*model.Node{n}}
	if g.Version > 1 && op.S%3 == 0 {
		o.Header = model.Gen(r, 5, g)
	}
	return model.Encode(r, o, n).B
}

// dest makes a destination.
func (n *env) dest(op *core.Op) interface{} { return targetOf(op, n.base) }

func plainMarshalH(e *sereal.Encoder, v interface{}, hdr bool) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil && !simrt.Aborting() {
			b, err = []byte("=srl"), fmt.Errorf("panic: %v", r)
		}
	}()
	if hdr {
		b, err = e.MarshalWithHeader([]interface{}{v}, v)
	} else {
		b, err = e.Marshal(v)
	}
	if len(b) < 4 {
		b = []byte("=srl")
	}
	return
}

// C24

func genC24(r *model.R, c *core.Case) {
	shareWords(r, 50)
	tasks, calls, size := r.Range(2, 8), 4, opSize
	if r.P(1) { // much has happened
		tasks, calls = r.Range(4, 12), 60
		size = func(r *model.R) int { return r.Pick(1, 1, 2, 4) }
	}
	copies, all := r.P(25), r.P(20)
	trouble := 0 // the same kind of trouble again and again
	if r.P(25) {
		trouble, all, tasks = 1+r.Intn(3), r.P(80), r.Range(3, 9)
		size = func(r *model.R) int { return r.Pick(1, 2, 3, 4, 8) }
	}
	for t := 0; t < tasks; t++ {
		kind := r.W(30, 20, 15, 35)
		if all {
			kind = 3
		}
		c.P = append(c.P, kind, int(r.U64()>>2))
		for i, n := 0, r.Range(1, calls); i < n; i++ {
			op := core.Op{T: t, S: r.U64(), N: size(r), A: randArgs(r)}
			if copies {
				op.A[aVOpt] |= vCopies
			}
			switch kind {
			case 0:
				op.K = []string{"DU", "DH", "DB"}[r.W(60, 15, 25)]
				op.A[aWhich] = r.Pick(wAny, wHeader, wCompressed)
				addFaults(r, &op, c.Seed, 35)
			case 1:
				op.K = []string{"EM", "EH"}[r.Intn(2)]
			case 2:
				op.K = "MA"
				if i > 0 && (i == n-1 || r.P(15)) {
					op.K = "MF"
				}
				op.A[aTarget], op.A[aFlavor] = 0, r.Pick(0, 2)
				op.A[aWhich] = wMerge
				if op.K == "MA" {
					addFaults(r, &op, c.Seed, 35)
				}
			case 3:
				op.K = []string{"M", "U", "D"}[r.W(40, 45, 15)]
				if op.K != "M" {
					op.A[aWhich] = r.Pick(wAny, wAny, wCompressed)
					addFaults(r, &op, c.Seed, 35)
				}
			}
			if kind != 2 && op.K != "D" && r.P(30) {
				op.CB = randCB(r, 1, failKinds)
				op.A[aVOpt] |= vCallbacks
				if r.P(50) && op.K != "M" && op.K[0] != 'E' {
					op.A[aTarget] = r.Pick(4, 15, 4, 15, 27, 28, 30)
					op.A[aFlavor] = 1
				}
			}
			value := op.K == "M" || op.K[0] == 'E'
			switch {
			case trouble == 1 && value: // callbacks that fail
				op.A[aVOpt] |= vCallbacks | vManyCB
				op.CB = nil
				if t < tasks-1 && r.P(80) {
					op.CB = []core.CBFault{{At: r.W(80, 20), K: failKinds[r.Intn(len(failKinds))]}}
				}
			case trouble == 2 && value: // types that cannot be encoded
				op.A[aVOpt] |= vBad
			case trouble == 3 && op.K[len(op.K)-1] == 'U': // structs that do not fit
				op.A[aMisc] = oDest + r.Pick(1, 2, 3, 4, 16, 40, 41, 43, 7, 8, 33)
			case trouble > 0 && kind == 3:
				op.K = []string{"M", "M", "U"}[trouble-1]
				op.F, op.CB = nil, nil
				if trouble == 2 {
					op.A[aVOpt] |= vBad
				}
			}
			c.Ops = append(c.Ops, op)
		}
	}
	reuse(r, c.Ops, 30)
	room := randRoom(r)
	if r.P(30) { // documents that look alike, in one buffer
		lookAlike(r, c)
		room |= 1
	}
	c.P = append(c.P, 0, room)
	core.RandSched(r, c, estimate(c.Ops), 1)
}

// lookAlike makes some calls get the document of an earlier call but for one
// byte of its contents.
func lookAlike(r *model.R, c *core.Case) {
	docs := func(op *core.Op) bool { return op.K[0] == 'D' || op.K == "U" }
	for i := 1; i < len(c.Ops); i++ {
		a, b := &c.Ops[r.Intn(i)], &c.Ops[i]
		if !docs(a) || !docs(b) || !r.P(60) {
			continue
		}
		cb, opt := b.CB, b.Arg(aDOpt)
		b.S, b.N, b.A, b.CB = a.S, a.N, append([]int(nil), a.A...), a.CB
		if len(cb) > 0 == (len(a.CB) > 0) { // that chooses the document, too
			b.CB, b.A[aDOpt] = cb, opt&^dPerl|a.Arg(aDOpt)&dPerl
		}
		if a.K == "D" || r.P(30) {
			b.K = a.K
		}
		b.F = nil
		d := docOf(a, c.Seed)
		n := len(d.B) - d.BodyStart
		if d.Opt.Comp != model.Raw && len(d.Plain) > 0 && r.P(40) {
			b.F = []model.Fault{{K: "b:flip", Off: r.Intn(len(d.Plain)), V: uint64(r.Intn(8))}}
		} else if n > 0 && r.P(80) {
			b.F = []model.Fault{{K: "flip", Off: d.BodyStart + r.Intn(n), V: uint64(r.Intn(8))}}
		}
	}
}

func execC24(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	tasks := byTask(c.Ops)
	got := make([][]*Res, len(tasks))
	if len(c.P) > 0 {
		n.roomy(c.P[len(c.P)-1]) // one for all
	}
	x.Main(limit(c), core.Guard(func() {
		for i, ops := range tasks {
			o := own(c, n, ops[0].T)
			for _, op := range ops {
				got[i] = append(got[i], o.do(op))
			}
		}
	}))
	if x.Failed() {
		return
	}
	// each task in a process that has done nothing yet
	failed := false
	for i, ops := range tasks {
		o := own(c, n, ops[0].T)
		var bs []*Res
		x.Solo(limit(c), core.Guard(func() {
			for _, op := range ops {
				bs = append(bs, o.do(op))
			}
		}))
		if x.Failed() {
			return
		}
		x.Out.Nontrivial = x.Out.Nontrivial || failed
		for j, op := range ops {
			a, b := got[i][j].fix(x, op, n), bs[j].fix(x, op, n)
			x.Note(a.Sig())
			if a.Cls != "ok" {
				failed = true
			}
			if !sameText(*a, *b) {
				x.Fail("mismatch", "task %d, call %d, %s: after what was before %v, first in its process %v; %s", op.T, j, op.K, a, b, diff(*a, *b))
			}
		}
	}
}
