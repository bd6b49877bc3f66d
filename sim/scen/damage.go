package scen

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
)

func init() {
	core.Props["C06"] = []core.Scen{{Name: "truncation", Weight: 1, Gen: genC06, Exec: execC06}}
	core.Rules["C06"] = "a run stores a well-formed document that ends with its last body byte and loses its end at up to 60 places (all places for documents of up to 60 bytes); each stump is decoded in several ways, " +
		"by new and by reused decoders and mergers; non-trivial: at least 5 stumps; distinct: document and results"
	core.Props["C07"] = []core.Scen{{Name: "damage", Weight: 1, Gen: genC07, Exec: execC07}}
	core.Rules["C07"] = "a run stores 1-5 documents, damages each with 1-4 faults (before or after compression) and feeds them to all decoding entry points, the decoders and mergers being reused; " +
		"non-trivial: at least one damaged document; distinct: documents, faults and results"
	core.Props["C08"] = []core.Scen{{Name: "damaged-lengths", Weight: 1, Gen: genC08, Exec: execC08}}
	core.Rules["C08"] = "a run stores a document, damages 1-3 of its length, count or size fields and measures what each entry point allocates; non-trivial: at least one field damaged; distinct: documents and results"
	core.Props["C09"] = []core.Scen{{Name: "damaged-zlib", Weight: 1, Gen: genC09, Exec: execC09}}
	core.Rules["C09"] = "a run stores a zlib document and damages its compressed body (prefixes and blob) in 20 different ways; each is decoded, decompressed and merged; non-trivial: always; distinct: documents and results"
	core.Props["C14"] = []core.Scen{{Name: "destinations", Weight: 1, Gen: genC14, Exec: execC14}}
	core.Rules["C14"] = "a run decompresses a history of 1-6 intact and damaged documents into destinations that are absent, empty, small, exact, large, dirty or the result of an earlier call; non-trivial: at least one intact document and a destination; distinct: documents, destinations and results"
	core.Props["C18"] = []core.Scen{{Name: "header-and-body", Weight: 1, Gen: genC18, Exec: execC18}}
	core.Rules["C18"] = "a run stores a version 2-4 document with a user header and damages either the body or the contents of the header in 12 different ways; the other part is decoded by new and by reused decoders; non-trivial: always; distinct: documents and results"
}

// plain call of an entry point, panics caught
func try(f func() error) (cls string, err error, pan interface{}) {
	defer func() {
		if simrt.Aborting() {
			return
		}
		if r := recover(); r != nil {
			cls, pan = "panic", fmt.Sprintf("%v\n%s", r, stack())
		}
	}()
	if err = f(); err != nil {
		return "err", err, nil
	}
	return "ok", nil, nil
}

// stack names the functions on the stack, without addresses and the like.
func stack() string {
	pc := make([]uintptr, 40)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	s := ""
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "/simrt.") {
			break
		}
		if !strings.HasPrefix(f.Function, "simverif/") && !strings.HasPrefix(f.Function, "runtime.") {
			s += fmt.Sprintf("\n  %s %s:%d", f.Function, f.File[strings.LastIndexByte(f.File, '/')+1:], f.Line)
		}
		if !more {
			break
		}
	}
	return s
}

func genDoc(r *model.R, which ...int) core.Op {
	op := core.Op{K: "doc", S: r.U64(), N: opSize(r), A: randArgs(r)}
	op.A[aVOpt] &^= vDyn
	op.A[aWhich] = r.Pick(which...)
	if r.P(60) {
		op.A[aFlavor] = 0
		op.A[aTarget] = 0
	}
	op.A[aDOpt] = r.Intn(8)
	return op
}

// C06

func genC06(r *model.R, c *core.Case) {
	op := genDoc(r, wAny, wAny, wCompressed, wHeader, wMerge)
	d := docOf(&op, c.Seed)
	n := len(d.B)
	if n <= 60 {
		for i := 0; i < n; i++ {
			op.F = append(op.F, model.Fault{K: "trunc", Off: i})
		}
	} else {
		at := map[int]bool{}
		cuts := 60
		if op.Arg(aScale) != 0 {
			cuts = 10
		}
		for i := 0; i < cuts; i++ {
			k := r.Intn(n)
			switch r.Intn(5) {
			case 0:
				k = n - 1 - r.Intn(8)
			case 1:
				if len(d.Fields) > 0 { // at or within a field
					f := d.Fields[r.Intn(len(d.Fields))]
					k = f.Off + r.Intn(f.Len+1)
				}
			}
			if k >= 0 && k < n && !at[k] {
				at[k] = true
				op.F = append(op.F, model.Fault{K: "trunc", Off: k})
			}
		}
	}
	c.Ops = []core.Op{op}
	c.P = []int{int(r.U64() >> 2), r.Intn(2)}
	c.Sched.MapMode = r.Intn(4)
}

func execC06(c *core.Case, x *core.X) {
	op := &c.Ops[0]
	d := docOf(op, c.Seed)
	x.CountFaults(op.F)
	x.Out.Nontrivial = len(op.F) >= 5
	x.Note(string(d.B))
	dec := decoderFor(op.Arg(aDOpt))
	headerEnd := d.BodyStart
	hasHeader := d.Header != nil
	x.Main(4*limit(c), core.Guard(func() {
		if c.Param(1) == 1 { // decoders that have seen the whole document
			try(func() error { return dec.UnmarshalHeaderBody(d.B, new(interface{}), targetOf(op, c.Seed)) })
		}
		for _, f := range op.F {
			cut := model.Apply(d.B, []model.Fault{f})
			if len(cut) >= len(d.B) {
				continue
			}
			bad := func(what, cls string, pan interface{}, res func() string) {
				if cls == "panic" {
					x.Fail("panic", "%s of the first %d of %d bytes panicked: %v", what, len(cut), len(d.B), pan)
				} else if cls == "ok" {
					x.Fail("accepted", "%s of the first %d of %d bytes (version %d, compression %d) succeeded: %s\ndocument %x", what, len(cut), len(d.B), d.Opt.Version, d.Opt.Comp, clip(res(), 300), clipB(d.B))
				}
			}
			if x.Failed() || simrt.Aborting() {
				return
			}
			t := targetOf(op, c.Seed)
			cls, _, pan := try(func() error { return dec.Unmarshal(cut, t) })
			bad("Unmarshal", cls, pan, func() string { return goCanon(t) })
			var v interface{}
			cls, _, pan = try(func() error { return sereal.Unmarshal(cut, &v) })
			bad("package Unmarshal", cls, pan, func() string { return goCanon(v) })
			var h interface{}
			t2 := targetOf(op, c.Seed)
			cls, _, pan = try(func() error { return dec.UnmarshalHeaderBody(cut, &h, t2) })
			bad("UnmarshalHeaderBody", cls, pan, func() string { return goCanon(t2) })
			if len(cut) < headerEnd && hasHeader {
				var h2 interface{}
				cls, _, pan = try(func() error { return dec.UnmarshalHeader(cut, &h2) })
				bad("UnmarshalHeader", cls, pan, func() string { return goCanon(h2) })
			}
			m := mergerFor(uint64(c.Param(0)))
			n := 0
			cls, _, pan = try(func() (err error) { n, err = m.Append(cut); return err })
			bad("Append", cls, pan, func() string { return fmt.Sprint(n) })
			if d.Opt.Comp != model.Raw {
				var out []byte
				cls, _, pan = try(func() (err error) { out, err = sereal.DecompressDocument(nil, cut); return err })
				bad("DecompressDocument", cls, pan, func() string { return fmt.Sprintf("%x", clipB(out)) })
			}
		}
	}))
}

func clipB(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

// C07

func genC07(r *model.R, c *core.Case) {
	for i, n := 0, r.Range(1, 5); i < n; i++ {
		op := genDoc(r, wAny, wAny, wCompressed, wHeader, wMerge)
		if r.P(10) {
			op.A[aVOpt] |= vManyCB
		}
		if i == 0 || r.P(85) {
			op.F = randFaults(r, docOf(&op, c.Seed), r.Range(1, 4))
		}
		c.Ops = append(c.Ops, op)
	}
	if r.Intn(1200) == 0 { // a long run of one item, which may nest
		op := &c.Ops[r.Intn(len(c.Ops))]
		d := docOf(op, c.Seed)
		f := model.Fault{K: "run", Off: d.BodyStart, Len: r.Pick(1000, 50000, 200000, 1300000, 1800000, 5000000, 12000000), V: uint64(r.Intn(len(model.Runs)))}
		if f.Len > 1000000 && r.P(40) {
			f.V = 0
		}
		if r.P(30) && len(d.Fields) > 0 {
			f.Off = d.Fields[r.Intn(len(d.Fields))].Off
		}
		if d.Opt.Comp != model.Raw && d.Opt.Version > 0 && r.P(60) {
			f.K, f.Off = "b:run", 0
		}
		op.F = []model.Fault{f}
		c.Ops = []core.Op{*op}
	}
	if r.Intn(150) == 0 { // what takes time exponential in its size if everything is followed
		op := &c.Ops[r.Intn(len(c.Ops))]
		op.F = []model.Fault{ladder(r, docOf(op, c.Seed))}
	}
	c.P = []int{int(r.U64() >> 2), r.Intn(8)}
	c.Sched.MapMode = r.Intn(4)
}

// ladder makes a fault that puts containers in front of the body that copy or
// refer to one another.
func ladder(r *model.R, d *model.Doc) model.Fault {
	f := model.Fault{K: "ladder", Off: d.BodyStart, Len: r.Pick(3, 8, 15, 25, 40, 100), V: r.U64() >> 12 << 12}
	base := d.BodyStart - 1 // what the offsets are relative to
	switch {
	case d.Opt.Version <= 1:
		base = 0
		if d.Opt.Comp != model.Raw && d.Opt.Version == 1 {
			f.K, f.Off, base = "b:ladder", 0, -d.BodyStart
		}
	case d.Opt.Comp != model.Raw:
		f.K, f.Off, base = "b:ladder", 0, -1
	case d.Header != nil && r.P(20):
		f.Off = 6
	}
	f.V |= uint64(base+2048) % 4096
	return f
}

func execC07(c *core.Case, x *core.X) {
	dec := decoderFor(c.Param(1))
	m := mergerFor(uint64(c.Param(0)))
	for i := range c.Ops {
		op := &c.Ops[i]
		d := docOf(op, c.Seed)
		b := damaged(d, op.F)
		x.CountFaults(op.F)
		if len(op.F) > 0 {
			x.Out.Nontrivial = true
		}
		x.Note(string(b))
		steps := int64(2_000_000) + 600*int64(len(b)+len(d.Plain))
		for _, f := range op.F {
			if strings.HasSuffix(f.K, "run") {
				steps += 4000 * int64(f.Len)
			}
		}
		call := func(what string, f func() error) {
			if x.Failed() {
				return
			}
			x.Main(steps, func() {
				cls, err, pan := try(f)
				if cls == "panic" {
					x.Fail("panic", "%s of a damaged document panicked: %v\ndocument %x", what, pan, clipB(b))
				}
				x.Note(cls)
				_ = err
			})
			if x.Failed() && x.Out.Class == "hang" {
				x.Out.Detail = fmt.Sprintf("%s of a damaged document did not end within %d steps; document %x", what, steps, clipB(b))
			}
		}
		call("Unmarshal", func() error { return dec.Unmarshal(b, targetOf(op, c.Seed)) })
		call("Unmarshal (new decoder)", func() error { return decoderFor(op.Arg(aDOpt)).Unmarshal(b, targetOf(op, c.Seed)) })
		call("package Unmarshal", func() error { return sereal.Unmarshal(b, new(interface{})) })
		call("UnmarshalHeader", func() error { return dec.UnmarshalHeader(b, new(interface{})) })
		call("UnmarshalHeader (typed)", func() error { return dec.UnmarshalHeader(b, targetOf(op, c.Seed)) })
		call("UnmarshalHeaderBody", func() error { return dec.UnmarshalHeaderBody(b, new(interface{}), targetOf(op, c.Seed)) })
		call("DecompressDocument", func() error { _, err := sereal.DecompressDocument(nil, b); return err })
		call("DecompressDocument (with destination)", func() error {
			_, err := sereal.DecompressDocument(make([]byte, op.N, 2*op.N+300), b)
			return err
		})
		call("LooksLikeSereal", func() error { sereal.LooksLikeSereal(b); return nil })
		call("Append", func() error { _, err := m.Append(b); return err })
		call("Append (new merger)", func() error { _, err := mergerFor(op.S).Append(b); return err })
	}
	if !x.Failed() {
		x.Main(limit(c), func() {
			cls, _, pan := try(func() error { _, err := m.Finish(); return err })
			if cls == "panic" {
				x.Fail("panic", "Finish after damaged documents panicked: %v", pan)
			}
		})
	}
}

// C08

func genC08(r *model.R, c *core.Case) {
	op := genDoc(r, wAny, wCompressed, wCompressed, wHeader, wMerge)
	if r.P(30) {
		op.A[aVOpt] |= vPadded
	}
	d := docOf(&op, c.Seed)
	n := r.Range(1, 3)
	lens := func(fs []model.Field) (out []model.Field) {
		for _, f := range fs {
			switch f.Kind {
			case "strlen", "count", "hdrsize", "csize", "usize", "offset", "class":
				out = append(out, f)
			}
		}
		return
	}
	wire, body := lens(d.Fields), lens(d.PFields)
	for i := 0; i < n; i++ {
		fs, pre, hi := wire, "", len(d.B)
		if d.Opt.Comp != model.Raw && len(body) > 0 && d.Opt.Version > 0 && r.P(50) {
			fs, pre, hi = body, "b:", len(d.Plain)
		}
		if len(fs) == 0 {
			op.F = append(op.F, randFaults(r, d, 1)...)
			continue
		}
		f := fs[r.Intn(len(fs))]
		v := uint64(0)
		switch r.Intn(6) {
		case 0:
			v = uint64(1)<<uint(r.Range(20, 62)) + uint64(r.Intn(3))
		case 1:
			v = uint64(hi) * uint64(r.Pick(1, 2, 20, 1000))
		case 2:
			v = uint64(r.Range(1, 1<<27))
		case 3:
			v = uint64(1<<31 - 1 - r.Intn(2))
		case 4:
			v = ^uint64(0) - uint64(r.Intn(100))
		case 5:
			v = uint64(r.Intn(hi + 1))
		}
		op.F = append(op.F, model.Fault{K: pre + "varint", Off: f.Off, Len: f.Len, V: v})
	}
	if r.P(10) {
		op.F = append(op.F, randFaults(r, d, 1)...)
	}
	if r.P(2) {
		f := model.Fault{K: "nest", Off: d.BodyStart, Len: r.Pick(100, 1000, 3000, 10000), V: r.U64() >> 2}
		if len(wire) > 0 && r.P(50) {
			f.Off = wire[r.Intn(len(wire))].Off
		}
		if d.Opt.Comp != model.Raw && d.Opt.Version > 0 && r.P(60) {
			f.K, f.Off = "b:nest", 0
		}
		op.F = []model.Fault{f}
	}
	c.Ops = []core.Op{op}
	c.P = []int{int(r.U64() >> 2)}
}

func execC08(c *core.Case, x *core.X) {
	op := &c.Ops[0]
	d := docOf(op, c.Seed)
	b := damaged(d, op.F)
	x.CountFaults(op.F)
	x.Out.Nontrivial = len(op.F) > 0
	x.Note(string(b))
	payload := len(d.Plain)
	for _, f := range op.F {
		if f.K == "b:nest" {
			payload = max(payload, len(model.Apply(d.Plain, []model.Fault{{K: "nest", Off: f.Off, Len: f.Len, V: f.V}})))
		}
	}
	// what the document carries, times what an item may need in memory; each
	// damaged field may claim that much once more
	bound := uint64(4<<20) + 400*uint64(len(b)+payload)*uint64(len(op.F)+1)
	call := func(what string, f func() error) {
		if x.Failed() {
			return
		}
		var before, after runtime.MemStats
		var cls string
		var pan interface{}
		x.Main(limit(c), func() {
			runtime.ReadMemStats(&before)
			cls, _, pan = try(f)
			runtime.ReadMemStats(&after)
		})
		if cls == "panic" {
			x.Fail("panic", "%s of a damaged document panicked: %v\ndocument %x", what, pan, clipB(b))
		}
		x.Note(cls)
		if n := after.TotalAlloc - before.TotalAlloc; n > bound {
			x.Fail("allocation", "%s of a document of %d bytes (payload %d bytes) allocated %d MB\nfaults %v\ndocument %x", what, len(b), payload, n>>20, op.F, clipB(b))
		}
	}
	dec := decoderFor(op.Arg(aDOpt))
	call("Unmarshal", func() error { return dec.Unmarshal(b, targetOf(op, c.Seed)) })
	call("package Unmarshal", func() error { return sereal.Unmarshal(b, new(interface{})) })
	call("UnmarshalHeaderBody", func() error { return dec.UnmarshalHeaderBody(b, new(interface{}), targetOf(op, c.Seed)) })
	call("DecompressDocument", func() error { _, err := sereal.DecompressDocument(nil, b); return err })
	call("Append", func() error { _, err := mergerFor(uint64(c.Param(0))).Append(b); return err })
}

// C09

func genC09(r *model.R, c *core.Case) {
	op := genDoc(r, wZlib)
	op.A[aFlavor] = r.Intn(2)
	d := docOf(&op, c.Seed)
	for i := 0; i < 20; i++ {
		var f model.Fault
		switch r.Intn(5) {
		case 0: // within the prefixes and the zlib header
			f = model.RandFault(r, d.BodyStart, min(len(d.B), d.BodyStart+6), d.Fields)
		case 1: // within the checksum
			f = model.RandFault(r, max(d.BodyStart, len(d.B)-5), len(d.B), nil)
		case 2:
			f = model.Fault{K: "flip", Off: d.BodyStart + r.Intn(len(d.B)-d.BodyStart), V: uint64(r.Intn(8))}
		default:
			f = model.RandFault(r, d.BodyStart, len(d.B), d.Fields)
		}
		op.F = append(op.F, f)
	}
	c.Ops = []core.Op{op}
	c.P = []int{int(r.U64() >> 2)}
	c.Sched.MapMode = r.Intn(4)
}

func execC09(c *core.Case, x *core.X) {
	op := &c.Ops[0]
	d := docOf(op, c.Seed)
	x.CountFaults(op.F)
	x.Out.Nontrivial = true
	x.Note(string(d.B))
	want := model.Canon(d.Body, model.CanonOpt{KeyTypes: true})
	var okT, okV string
	merged := func(b []byte) (string, string) {
		m := mergerFor(uint64(c.Param(0)))
		m.KeepFlat = false
		var out []byte
		cls, _, pan := try(func() (err error) {
			if _, err = m.Append(b); err != nil {
				return err
			}
			out, err = m.Finish()
			return err
		})
		if cls == "panic" {
			return "panic", fmt.Sprint(pan)
		}
		if cls == "err" {
			return "err", ""
		}
		return "ok", model.CanonDoc(out, model.CanonOpt{KeyTypes: true})
	}
	x.Main(4*limit(c), core.Guard(func() {
		dec := decoderFor(op.Arg(aDOpt))
		t := targetOf(op, c.Seed)
		clsT, _, _ := try(func() error { return dec.Unmarshal(d.B, t) })
		okT = clsT + goCanon(t)
		var v interface{}
		clsV, _, _ := try(func() error { return sereal.Unmarshal(d.B, &v) })
		okV = goCanon(v)
		mcls, mval := merged(d.B)
		for _, f := range op.F {
			if simrt.Aborting() || x.Failed() {
				return
			}
			b := model.ApplyWithin(d.B, d.BodyStart, len(d.B), f)
			if other, ok := zlibContent(b[d.BodyStart:]); ok && string(other) != string(d.Plain) {
				// by chance a stream with a right checksum: nobody can tell
				x.Count("checksum collision (not judged)", 1)
				continue
			}
			t := targetOf(op, c.Seed)
			cls, _, pan := try(func() error { return dec.Unmarshal(b, t) })
			if cls == "panic" || cls == "ok" && cls+goCanon(t) != okT {
				x.Fail("undetected", "Unmarshal of a damaged zlib document: %s %v %s, without damage %s; fault %+v", cls, pan, clip(goCanon(t), 400), clip(okT, 400), f)
			}
			var v interface{}
			cls, _, pan = try(func() error { return sereal.Unmarshal(b, &v) })
			if cls == "panic" || cls == "ok" && (goCanon(v) != okV || clsV != "ok") {
				x.Fail("undetected", "package Unmarshal of a damaged zlib document: %s %v %s, without damage %s %s; fault %+v", cls, pan, clip(goCanon(v), 400), clsV, clip(okV, 400), f)
			}
			x.Note(cls)
			var out []byte
			cls, _, pan = try(func() (err error) { out, err = sereal.DecompressDocument(nil, b); return err })
			if cls == "ok" {
				if p, err := model.Parse(out); err != nil || model.Canon(p.Body, model.CanonOpt{KeyTypes: true}) != want {
					x.Fail("undetected", "DecompressDocument of a damaged zlib document gave another one (%v): %s, without damage %s; fault %+v", err, clip(model.CanonDoc(out, model.CanonOpt{}), 400), clip(want, 400), f)
				}
			} else if cls == "panic" {
				x.Fail("undetected", "DecompressDocument of a damaged zlib document panicked: %v; fault %+v", pan, f)
			}
			cls, val := merged(b)
			if cls == "panic" || cls == "ok" && (mcls != "ok" || val != mval) {
				x.Fail("undetected", "merging a damaged zlib document: %s %s, without damage %s %s; fault %+v", cls, clip(val, 400), mcls, clip(mval, 400), f)
			}
		}
	}))
}

// zlibContent returns what an intact zlib body holds.
func zlibContent(b []byte) ([]byte, bool) {
	_, n := binary.Uvarint(b)
	if n <= 0 {
		return nil, false
	}
	b = b[n:]
	ln, n := binary.Uvarint(b)
	if n <= 0 || ln > uint64(len(b)-n) {
		return nil, false
	}
	z, err := zlib.NewReader(bytes.NewReader(b[n : n+int(ln)]))
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(z)
	return out, err == nil
}

// C14

func genC14(r *model.R, c *core.Case) {
	shareWords(r, 40)
	for i, n := 0, r.Range(1, 6); i < n; i++ {
		op := genDoc(r, wAny, wCompressed, wCompressed, wHeaderComp)
		op.A[aFlavor] = r.Pick(0, 0, 1)
		op.A[aMisc] = r.Intn(12) // destination
		if r.P(25) {
			op.F = randFaults(r, docOf(&op, c.Seed), r.Range(1, 2))
		}
		c.Ops = append(c.Ops, op)
	}
	reuse(r, c.Ops, 15)
	c.P = []int{int(r.U64() >> 2)}
}

func execC14(c *core.Case, x *core.X) {
	type kept struct {
		b    []byte
		full []byte // up to its capacity
	}
	x.Main(4*limit(c), core.Guard(func() {
		r := model.NewR(uint64(c.Param(0)))
		var last []byte
		good := false
		for i := range c.Ops {
			if x.Failed() || simrt.Aborting() {
				return
			}
			op := &c.Ops[i]
			d := docOf(op, c.Seed)
			b := damaged(d, op.F)
			x.CountFaults(op.F)
			in := append([]byte(nil), b...)
			cls0, ref := decompress(nil, b)
			total := d.BodyStart + len(d.Plain)
			var dst []byte
			what := ""
			switch op.Arg(aMisc) {
			case 0:
				what, dst = "no destination", nil
			case 1:
				what, dst = "empty destination", []byte{}
			case 2:
				what, dst = "small destination", r.Bytes(max(0, r.Intn(total)), true)
			case 3:
				what, dst = "destination of the exact size", r.Bytes(total, true)
			case 4:
				what, dst = "large destination", r.Bytes(total+1+r.Intn(3000), true)
			case 5:
				what, dst = "empty destination with capacity", r.Bytes(total+r.Intn(300), true)[:0]
			case 6:
				what, dst = "short destination with capacity", r.Bytes(total+r.Intn(300), true)[:r.Intn(total)]
			case 7:
				what, dst = "destination one byte short", r.Bytes(total-1, true)
			case 8:
				what, dst = "destination of the size of the body", r.Bytes(len(d.Plain), true)
			case 9:
				what, dst = "destination with the capacity of the body", append(make([]byte, 0, len(d.Plain)), r.Bytes(min(len(d.Plain), d.BodyStart), true)...)
			default:
				what, dst = "earlier result as destination", last
				if last == nil {
					dst = r.Bytes(total, true)
				}
			}
			cls, out := decompress(dst, b)
			x.Note(fmt.Sprint(what, cls, cls0))
			x.Note(string(out))
			x.Count("destination:"+what, 1)
			if cls == "panic" || cls0 == "panic" {
				x.Fail("panic", "DecompressDocument with %s panicked: %s %s", what, out, ref)
				return
			}
			if cls != cls0 || string(out) != string(ref) {
				if cls != cls0 || docsDiffer(out, ref) {
					x.Fail("mismatch", "DecompressDocument with %s: %s %x, without destination %s %x\ndocument %x", what, cls, clipB(out), cls0, clipB(ref), clipB(b))
					return
				}
			}
			if string(b) != string(in) && !overlaps(dst, b) {
				x.Fail("input", "DecompressDocument with %s changed its input", what)
				return
			}
			if len(op.F) == 0 {
				p, err := model.Parse(out)
				switch {
				case cls != "ok":
					x.Fail("failed", "DecompressDocument with %s failed on a well-formed document: %s\ndocument %x", what, out, clipB(b))
				case err != nil:
					x.Fail("invalid", "DecompressDocument with %s returned a malformed document: %v\n%x\ndocument %x", what, err, clipB(out), clipB(b))
				case p.Comp != model.Raw:
					x.Fail("invalid", "DecompressDocument with %s returned a compressed document", what)
				case model.Canon(p.Body, model.CanonOpt{KeyTypes: true}) != model.Canon(d.Body, model.CanonOpt{KeyTypes: true}):
					x.Fail("mismatch", "DecompressDocument with %s changed the body: %s", what, clip(model.CanonDoc(out, model.CanonOpt{}), 500))
				case (p.Header == nil) != (d.Header == nil) || p.Header != nil && model.Canon(p.Header, model.CanonOpt{KeyTypes: true}) != model.Canon(d.Header, model.CanonOpt{KeyTypes: true}):
					x.Fail("mismatch", "DecompressDocument with %s changed the header", what)
				}
				good = true
			}
			if cls == "ok" && !overlaps(out, b) {
				last = out
			} else if cls != "ok" && dst != nil {
				last = dst
			}
			if good {
				x.Out.Nontrivial = true
			}
		}
	}))
}

// docsDiffer tells whether two documents say different things.
func docsDiffer(a, b []byte) bool {
	x, y := model.CanonDoc(a, model.CanonOpt{KeyTypes: true}), model.CanonDoc(b, model.CanonOpt{KeyTypes: true})
	if strings.HasPrefix(x, "invalid") || strings.HasPrefix(y, "invalid") {
		return true
	}
	return x != y
}

func overlaps(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	return &a[cap(a)-1] == &b[cap(b)-1]
}

func decompress(dst, b []byte) (string, []byte) {
	var out []byte
	cls, err, pan := try(func() (err error) { out, err = sereal.DecompressDocument(dst, b); return err })
	switch cls {
	case "panic":
		return cls, []byte(fmt.Sprint(pan))
	case "err":
		return cls, nil
	}
	_ = err
	return cls, out
}

// C18

func genC18(r *model.R, c *core.Case) {
	op := genDoc(r, wHeader, wHeader, wHeaderComp)
	op.A[aFlavor] = r.Pick(0, 1)
	d := docOf(&op, c.Seed)
	side := r.Intn(2)
	for i := 0; i < 12; i++ {
		if side == 0 { // the body
			lo := d.BodyStart
			switch r.Intn(6) {
			case 0:
				op.F = append(op.F, model.Fault{K: "trunc", Off: lo + r.Intn(len(d.B)-lo+1)})
			case 1:
				op.F = append(op.F, model.Fault{K: "trunc", Off: lo})
			default:
				op.F = append(op.F, model.RandFault(r, lo, len(d.B), d.Fields))
			}
		} else { // the contents of the header, which keep their size
			f := model.RandFault(r, d.HdrStart, d.BodyStart, nil)
			switch f.K {
			case "flip", "set", "fill", "noise":
			default:
				f = model.Fault{K: "set", Off: d.HdrStart + r.Intn(d.BodyStart-d.HdrStart), V: uint64(r.Intn(256))}
				for _, x := range d.Fields {
					if x.Off > d.HdrStart && x.Off+x.Len <= d.BodyStart && r.P(15) {
						f = model.Fault{K: "set", Off: x.Off, V: uint64(r.Pick(0x2a, 0x2b, 0x2f, 0x29, 0xff, 0x80, 0x26))}
					}
				}
			}
			op.F = append(op.F, f)
		}
	}
	c.Ops = []core.Op{op}
	c.P = []int{side, r.Intn(4), 0}
	if side == 0 && r.P(30) { // the header is damaged in any case
		c.P[2] = 1 + r.Intn(1<<30)
	}
	c.Sched.MapMode = r.Intn(4)
}

// damagedHeader damages the contents of the header, mostly lengths in it.
func damagedHeader(d *model.Doc, seed int) {
	r := model.NewR(uint64(seed))
	f := model.Fault{K: "set", Off: d.HdrStart + r.Intn(d.BodyStart-d.HdrStart), V: uint64(r.Intn(256))}
	for _, x := range d.Fields {
		if x.Off > d.HdrStart && x.Off+x.Len <= d.BodyStart && r.P(30) {
			f = model.Fault{K: "set", Off: x.Off, V: uint64(d.B[x.Off]) + uint64(r.Range(1, 20))&0x7f}
		}
	}
	d.B = model.ApplyWithin(d.B, d.HdrStart, d.BodyStart, f)
}

func execC18(c *core.Case, x *core.X) {
	op := &c.Ops[0]
	d := docOf(op, c.Seed)
	if s := c.Param(2); s != 0 {
		damagedHeader(d, s)
	}
	x.CountFaults(op.F)
	x.Out.Nontrivial = true
	x.Note(string(d.B))
	side := c.Param(0)
	get := func(dec *sereal.Decoder, b []byte, typed bool) string {
		var t interface{} = new(interface{})
		if typed {
			t = targetOf(op, c.Seed)
		}
		cls, _, pan := try(func() error {
			if side == 0 {
				return dec.UnmarshalHeader(b, t)
			}
			return dec.Unmarshal(b, t)
		})
		if cls == "panic" {
			return fmt.Sprint("panic ", pan)
		}
		if cls == "ok" {
			return "ok " + goCanon(t)
		}
		return cls
	}
	name := []string{"header", "body"}[side]
	x.Main(4*limit(c), core.Guard(func() {
		used := decoderFor(c.Param(1))
		want := get(decoderFor(c.Param(1)), d.B, false)
		wantT := get(decoderFor(c.Param(1)), d.B, true)
		x.Note(want)
		for _, f := range op.F {
			if x.Failed() || simrt.Aborting() {
				return
			}
			b := model.ApplyWithin(d.B, d.HdrStart, d.BodyStart, f)
			if side == 0 {
				b = model.ApplyWithin(d.B, d.BodyStart, len(d.B), f)
			}
			for _, v := range []struct {
				what string
				dec  *sereal.Decoder
				typ  bool
			}{{"a new decoder", decoderFor(c.Param(1)), false}, {"a used decoder", used, false}, {"a used decoder and a typed destination", used, true}} {
				w := want
				if v.typ {
					w = wantT
				}
				if got := get(v.dec, b, v.typ); got != w {
					x.Fail("dependent", "the %s of a document with damage elsewhere (fault %+v) decodes with %s to %s, without the damage to %s\ndocument %x", name, f, v.what, clip(got, 500), clip(w, 500), clipB(b))
				}
			}
			// what the other part does to the decoder must not matter either
			if side == 0 {
				try(func() error { return used.Unmarshal(b, new(interface{})) })
			} else {
				try(func() error { return used.UnmarshalHeader(b, new(interface{})) })
				cls, out := decompress(nil, b)
				if cls == "ok" {
					if got := get(decoderFor(c.Param(1)), out, false); got != want {
						x.Fail("dependent", "the decompressed body of a document with a damaged header (fault %+v) decodes to %s, without the damage to %s", f, clip(got, 500), clip(want, 500))
					}
				} else if clsOK, _ := decompress(nil, d.B); clsOK == "ok" {
					x.Fail("dependent", "a document with a damaged header (fault %+v) does not decompress: %s %s", f, cls, out)
				}
			}
		}
	}))
}
