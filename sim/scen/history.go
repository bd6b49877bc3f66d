package scen

import (
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
)

func init() {
	core.Props["C04"] = []core.Scen{{Name: "decoder-history", Weight: 1, Gen: genC04, Exec: execC04}}
	core.Rules["C04"] = "a run is a history of 2-8 calls of Unmarshal, UnmarshalHeader and UnmarshalHeaderBody on one decoder, on intact, damaged, truncated and mismatching documents and with failing or re-entrant callbacks; " +
		"every call is compared with the same call on a new decoder; non-trivial: at least two calls of which one failed or had a callback fault; distinct: sequence of results"
	core.Props["C05"] = []core.Scen{{Name: "encoder-history", Weight: 1, Gen: genC05, Exec: execC05}}
	core.Rules["C05"] = "a run is a history of 2-8 calls of Marshal and MarshalWithHeader on one encoder, some failing through callbacks, unsupported values, the recursion limit or the compressor; " +
		"every call is compared with the same call on a new encoder; non-trivial: at least two calls of which one failed; distinct: sequence of results"
}

func genC04(r *model.R, c *core.Case) {
	shareWords(r, 40)
	opt := r.Intn(4)
	if r.P(10) {
		opt |= dNoReg
	} else if r.P(40) {
		opt |= dNot * r.Intn(32)
	}
	c.P = []int{opt, r.Intn(2), randRoom(r)}
	n, size := r.Range(2, 8), opSize
	long := 0
	if r.P(4) { // a long one
		n = r.Range(15, 50)
		size = func(r *model.R) int { return r.Pick(1, 2, 4, 8, 15) }
	} else if r.P(1) { // a very long one, of few different calls
		n, long = r.Range(3, 6), r.Range(100, 550)
		size = func(r *model.R) int { return r.Pick(1, 2, 4, 8) }
	}
	copies := r.P(20)
	for i := 0; i < n; i++ {
		op := core.Op{K: []string{"DU", "DH", "DB"}[r.W(60, 15, 25)], S: r.U64(), N: size(r), A: randArgs(r)}
		if copies {
			op.A[aVOpt] |= vCopies
		}
		op.A[aVOpt] &^= vDyn
		if r.P(30) {
			op.A[aVOpt] |= vPerlFrz
		}
		op.A[aDOpt] = opt & 3
		if r.P(10) {
			op.A[aDOpt] = opt&3 ^ (1 << uint(r.Intn(2))) // options are changed between calls
		}
		if op.K != "DU" {
			op.A[aWhich] = wHeader
		}
		if i < n-1 || r.P(30) {
			addFaults(r, &op, c.Seed, 35)
			if r.P(35) {
				op.CB = randCB(r, r.Range(1, 2), append([]string{"gc", "nilresult"}, failKinds...))
				op.A[aTarget] = r.Pick(0, 0, 4, 15, op.A[aTarget])
				if op.A[aTarget] != 0 {
					op.A[aFlavor] = 1
				}
			}
		}
		c.Ops = append(c.Ops, op)
	}
	reuse(r, c.Ops, 15)
	related(r, c)
	again(r, c, long)
	core.RandSched(r, c, estimate(c.Ops), 1)
}

// related makes some calls decode a document like that of an earlier call:
// differently damaged, or into another destination.
func related(r *model.R, c *core.Case) {
	if !r.P(60) {
		return
	}
	for i := 1; i < len(c.Ops); i++ {
		if !r.P(60) {
			continue
		}
		a, b := &c.Ops[r.Intn(i)], &c.Ops[i]
		opt := b.Arg(aDOpt)
		b.S, b.N, b.A, b.CB = a.S, a.N, append([]int(nil), a.A...), nil
		b.A[aDOpt] = opt
		b.A[aVOpt] |= vManyCB
		a.A = append([]int(nil), a.A...)
		a.A[aVOpt] |= vManyCB
		b.F = nil
		for _, op := range []*core.Op{a, b} {
			if r.P(40) {
				op.A[aMisc] = oDest + r.Pick(0, 0, 4, 15, 5, 6, r.Intn(model.Targets))
			}
		}
		switch r.Intn(5) {
		case 3: // another version, or other lengths in the header
			b.F = []model.Fault{{K: "set", Off: 4, V: uint64(r.Pick(1, 2, 3, 4, 0x22, 0x33, 0x43, r.Intn(256)))}}
			if r.P(40) {
				b.F = []model.Fault{{K: "set", Off: 5 + r.Intn(3), V: uint64(r.Pick(0, 1, 2, 3, 5, r.Intn(128)))}}
			}
		case 0:
			a.F = lateFaults(r, docOf(a, c.Seed))
			b.F = trackFaults(r, docOf(b, c.Seed))
		case 1:
			b.F = trackFaults(r, docOf(b, c.Seed))
		case 2:
			a.F = lateFaults(r, docOf(a, c.Seed))
		}
	}
}

// lateFaults cut or damage a document near its end.
func lateFaults(r *model.R, d *model.Doc) []model.Fault {
	f := model.Fault{K: "trunc"}
	n := len(d.B)
	if n > d.BodyStart && d.Opt.Comp == model.Raw {
		f.Off = n - 1 - r.Intn(min(1+r.Intn(n), n-d.BodyStart))
	} else {
		f.K, f.Off = "b:trunc", len(d.Plain)-1-r.Intn(1+r.Intn(max(1, len(d.Plain))))
	}
	if r.P(30) {
		f.K = strings.Replace(f.K, "trunc", "set", 1)
		f.V = uint64(r.Pick(0x33, 0x3c, 0x3e, 0xbe, r.Intn(256)))
	}
	return []model.Fault{f}
}

// trackFaults damage references and what they refer to.
func trackFaults(r *model.R, d *model.Doc) []model.Fault {
	fields, pre := d.Fields, ""
	if len(d.Plain) > 0 && d.Opt.Comp != model.Raw {
		fields, pre = d.PFields, "b:"
	}
	var refs []model.Field
	for _, f := range fields {
		if f.Kind == "track" || f.Kind == "offset" || f.Kind == "class" {
			refs = append(refs, f)
		}
	}
	if len(refs) == 0 {
		return nil
	}
	var fs []model.Fault
	for i := r.Range(1, 2); i > 0; i-- {
		f := refs[r.Intn(len(refs))]
		if f.Kind == "track" {
			fs = append(fs, model.Fault{K: pre + "flip", Off: f.Off, V: 7})
		} else if b := d.B; pre == "" && f.Len == 1 && b[f.Off] > 1 && b[f.Off] < 0x80 {
			fs = append(fs, model.Fault{K: "set", Off: f.Off, V: uint64(1 + r.Intn(min(127, len(b)-f.Off)))})
		}
	}
	return fs
}

func execC04(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	fresh := make([]*Res, len(c.Ops))
	for i := range c.Ops {
		if c.Param(1) == 1 {
			i = len(c.Ops) - 1 - i // not the same history for what all decoders share
		}
		i, op := i, &c.Ops[i]
		f := *n
		f.roomy(c.Param(2))
		f.d = decoderFor(op.Arg(aDOpt) | c.Param(0)&dNames)
		x.Solo(limit(c), core.Guard(func() { fresh[i] = f.do(op) }))
		if x.Failed() {
			return
		}
		fresh[i].fix(x, op, n)
	}
	n.d = decoderFor(c.Param(0))
	n.roomy(c.Param(2))
	got := make([]*Res, len(c.Ops))
	x.Main(limit(c), core.Guard(func() {
		for i := range c.Ops {
			// options are set when they change
			if o := c.Ops[i].Arg(aDOpt); i == 0 || o != c.Ops[i-1].Arg(aDOpt) {
				setDecoder(n.d, o)
			}
			got[i] = n.do(&c.Ops[i])
		}
	}))
	if x.Failed() {
		return
	}
	bad := 0
	for i := range c.Ops {
		a := got[i].fix(x, &c.Ops[i], n)
		x.Note(a.Sig())
		if a.Cls != "ok" || len(a.Fired) > 0 {
			bad++
		}
		if !sameText(*a, *fresh[i]) {
			x.Fail("mismatch", "call %d, %s: after this history %v, on a new decoder %v; %s", i, c.Ops[i].K, a, fresh[i], diff(*a, *fresh[i]))
		}
	}
	x.Out.Nontrivial = len(c.Ops) > 1 && bad > 0
}

func genC05(r *model.R, c *core.Case) {
	shareWords(r, 40)
	c.P = []int{int(r.U64() >> 2), 0, r.Intn(2), 0, randRoom(r)}
	if r.P(20) {
		c.P[3] = 1 + r.Intn(1000) // the compressor fails unless an operation wants another
	} else if r.P(10) {
		c.P[3] = -1 - r.Intn(8)
	}
	n, size := r.Range(2, 8), opSize
	long := 0
	if r.P(4) { // a long one
		n = r.Range(15, 50)
		size = func(r *model.R) int { return r.Pick(1, 2, 4, 8, 15) }
	} else if r.P(1) { // a very long one, of few different calls
		n, long = r.Range(3, 6), r.Range(100, 550)
		size = func(r *model.R) int { return r.Pick(1, 2, 4, 8) }
	}
	for i := 0; i < n; i++ {
		op := core.Op{K: []string{"EM", "EH"}[r.Intn(2)], S: r.U64(), N: size(r), A: randArgs(r)}
		if r.P(20) {
			op.A[aMisc] = 1 + r.Intn(1000) // the compressor fails in this call
		} else if r.P(8) {
			op.A[aMisc] = -1 - r.Intn(8) // another recursion limit in this call
		}
		if i < n-1 || r.P(30) {
			if r.P(40) {
				op.CB = randCB(r, r.Range(1, 2), append([]string{"gc", "nilresult"}, failKinds...))
				op.A[aVOpt] |= vCallbacks
			}
			if r.P(25) {
				op.A[aVOpt] |= vBad
			}
		}
		c.Ops = append(c.Ops, op)
	}
	reuse(r, c.Ops, 25)
	again(r, c, long)
	core.RandSched(r, c, estimate(c.Ops), 1)
}

// again makes n calls of those there are.
func again(r *model.R, c *core.Case, n int) {
	for k := len(c.Ops); len(c.Ops) < n; {
		op := c.Ops[r.Intn(k)]
		op.A = append([]int(nil), op.A...)
		if op.A[aScale] != 0 && r.P(95) {
			op.A[aScale] = 0
			op.F = nil
		}
		c.Ops = append(c.Ops, op)
	}
}

// mode says which options an operation asks for.
func mode(c *core.Case, op *core.Op) int {
	if m := op.Arg(aMisc); m != 0 {
		return m
	}
	return c.Param(3)
}

// configure sets the options of a mode.
func configure(e *sereal.Encoder, c *core.Case, m int) {
	o := encoderOf(c)
	e.Compression, e.CompressionThreshold, e.MaxRecursionDepth = o.Compression, o.CompressionThreshold, o.MaxRecursionDepth
	switch {
	case m > 0:
		failingCompressor(e, model.NewR(uint64(m)))
	case m < 0:
		e.MaxRecursionDepth = -m
	}
}

func execC05(c *core.Case, x *core.X) {
	n := prepare(x, c, c.Seed)
	fresh := make([]*Res, len(c.Ops))
	for i := range c.Ops {
		if c.Param(2) == 1 {
			i = len(c.Ops) - 1 - i // not the same history for what all encoders share
		}
		i, op := i, &c.Ops[i]
		f := *n
		f.roomy(c.Param(4))
		f.e = encoderOf(c)
		configure(f.e, c, mode(c, op))
		x.Solo(limit(c), core.Guard(func() { fresh[i] = f.do(op) }))
		if x.Failed() {
			return
		}
		fresh[i].fix(x, op, n)
	}
	n.e = encoderOf(c)
	n.roomy(c.Param(4))
	got := make([]*Res, len(c.Ops))
	x.Main(limit(c), core.Guard(func() {
		for i := range c.Ops {
			// options are set when they change
			if m := mode(c, &c.Ops[i]); i == 0 || m != mode(c, &c.Ops[i-1]) {
				configure(n.e, c, m)
			}
			got[i] = n.do(&c.Ops[i])
		}
	}))
	if x.Failed() {
		return
	}
	bad := 0
	for i := range c.Ops {
		a := got[i].fix(x, &c.Ops[i], n)
		x.Note(a.Sig())
		if a.Cls != "ok" {
			bad++
		}
		if mode(c, &c.Ops[i]) > 0 && a.Cls == "err" {
			x.Count("compressor:failing", 1)
		}
		if !sameText(*a, *fresh[i]) {
			x.Fail("mismatch", "call %d, %s: after this history %v, on a new encoder %v; %s", i, c.Ops[i].K, a, fresh[i], diff(*a, *fresh[i]))
		}
		if a.Cls == "err" && a.B != nil {
			x.Fail("document with error", "call %d, %s: failed (%v) and returned %d bytes", i, c.Ops[i].K, a.Err, len(a.B))
		}
	}
	x.Out.Nontrivial = len(c.Ops) > 1 && bad > 0
}
