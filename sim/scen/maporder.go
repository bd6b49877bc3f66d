package scen

import (
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
)

func init() {
	core.Props["C17"] = []core.Scen{{Name: "map-orders", Weight: 1, Gen: genC17, Exec: execC17}}
	core.Rules["C17"] = "a run encodes a value with maps that share keys, class names and pointers under 10 iteration orders (sorted, reversed, rotated, shuffled), with and without string deduplication and compression, on one encoder and on new ones; " +
		"the documents are read by the reference decoder; non-trivial: at least two different documents; distinct: value and documents"
}

func genC17(r *model.R, c *core.Case) {
	op := core.Op{K: []string{"EM", "EH", "M"}[r.W(50, 40, 10)], S: r.U64(), N: r.Pick(opSize(r), r.Range(10, 60)), A: make([]int, aLen)}
	op.A[aVOpt] = vDyn*r.Intn(2) | vShare | vPerl*r.Intn(2) | vAlias*r.Intn(2) | vCallbacks*r.Intn(2)
	if op.A[aScale] = randScale(r, 8); op.A[aScale] != 0 && r.P(60) {
		op.A[aScale] = model.ScKeys + op.A[aScale]/8*8
	}
	c.P = []int{int(r.U64() >> 2), 0, r.Intn(2), 0}
	if r.P(25) { // with a limit of depth; what is there once is at one depth only
		op.A[aVOpt] = op.A[aVOpt]&^(vShare|vAlias) | vNoShare
		op.N = r.Pick(op.N, r.Range(20, 200))
		c.P[3] = r.Pick(1, 1, 1, 2, 3) // just enough, or less
	}
	c.Ops = []core.Op{op}
	c.Sched.MapMode = 1
}

func execC17(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	op := &c.Ops[0]
	limited := 0
	p := n.in[n.keys[op]]
	if k := c.Param(3); k != 0 { // what is the least depth that will do?
		x.Solo(4*limit(c), core.Guard(func() {
			e := encoderOf(c)
			e.Compression = nil
			for limited = 1; limited < 30; limited++ {
				e.MaxRecursionDepth = limited
				r := invoke(op, 0, nil, func(r *Res) (err error) {
					if r.B, err = e.Marshal(p.v); err == nil && op.K == "EH" {
						_, err = e.Marshal(p.h)
					}
					return err
				})
				if r.Cls != "err" || r.Err != sereal.ErrMaxRecursionLimit {
					break
				}
			}
		}))
		limited = max(1, limited-(k-1))
	}
	mk := func() *sereal.Encoder {
		e := encoderOf(c)
		e.MaxRecursionDepth = limited
		return e
	}
	shared := mk()
	n.e = shared
	n.warm(c, x, 0)
	type enc struct {
		what string
		e    *sereal.Encoder
		mode int
		seed uint64
		op   core.Op
	}
	var encs []enc
	for i := 0; i < 10; i++ {
		e := enc{mode: i, seed: simrt.Mix(op.S, uint64(i)), e: shared, what: fmt.Sprintf("order %d", i)}
		if i > 3 {
			e.mode = 1
		}
		if c.Param(2) == 1 || i >= 8 {
			e.e = mk()
		}
		if i == 8 {
			e.what += " without deduplication"
			e.e.DisableDedup = true
		}
		if i == 9 {
			e.what += " without compression"
			e.e.Compression = nil
		}
		encs = append(encs, e)
	}
	res := make([]*Res, len(encs))
	x.Main(4*limit(c), core.Guard(func() {
		for i, e := range encs {
			if simrt.Aborting() {
				return
			}
			o := *op
			o.S = e.seed // invoke derives the order from it
			e := e
			res[i] = invoke(&o, e.mode, nil, func(r *Res) (err error) {
				switch op.K {
				case "M":
					r.B, err = sereal.Marshal(p.v)
				case "EM":
					r.B, err = e.e.Marshal(p.v)
				case "EH":
					r.B, err = e.e.MarshalWithHeader(p.h, p.v)
				}
				return err
			})
		}
	}))
	if x.Failed() {
		return
	}
	distinct := map[string]bool{}
	for i, r := range res {
		if r.Cls == "panic" {
			x.Fail("panic", "encoding under %s panicked: %v", encs[i].what, r.Pan)
			return
		}
		if r.Cls == "ok" {
			distinct[string(r.B)] = true
			r.Val = docCanon(r.B)
			x.Note(string(r.B))
		}
		x.Note(r.Cls)
		if r.Cls == "ok" && len(r.Val) > 8 && r.Val[:8] == "invalid:" {
			x.Fail("malformed", "encoding under %s gave a malformed document: %s\n%x", encs[i].what, r.Val, clipB(r.B))
			return
		}
		if !same(*r, *res[0]) {
			x.Fail("mismatch", "encoding under %s: %v; under %s: %v; %s", encs[i].what, r, encs[0].what, res[0], diff(*res[0], *r))
			return
		}
	}
	x.Out.Nontrivial = len(distinct) > 1
}
