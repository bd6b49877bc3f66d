package scen

import (
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
)

func init() {
	core.Props["C12"] = []core.Scen{{Name: "merge-history", Weight: 1, Gen: genC12, Exec: execC12}}
	core.Rules["C12"] = "a run is a merger in a random mode that is given 1-10 documents, intact, truncated, damaged (before or after compression) or with unsupported parts; what Finish returns is read by the reference decoder and compared with the list of the elements of the accepted documents; " +
		"non-trivial: at least two documents were accepted; distinct: documents and results"
	core.Props["C13"] = []core.Scen{{Name: "finish-history", Weight: 1, Gen: genC13, Exec: execC13}}
	core.Rules["C13"] = "a run is a merger that is given 0-5 documents of compressible or incompressible content of up to 200 kB and a history of 2-6 Finish and Append calls under changing compressors, thresholds and faulty configurations; " +
		"non-trivial: at least two Finish calls; distinct: documents and results"
}

// elements returns what a well-formed document adds to a merged one; other is
// a second acceptable answer (nil if there is none).
func elements(m *sereal.Merger, p *model.Parsed) (els, other []*model.Node) {
	one := []*model.Node{p.Body}
	if !m.KeepFlat {
		return one, nil
	}
	arr := p.Body
	pad := p.Plain[0]&0x7f == 0x3f
	if m.TopLevelElement == sereal.TopLevelArrayRef {
		if arr.K != model.KRef {
			return one, nil
		}
		arr = arr.Kids[0]
		pad = pad || len(p.Plain) > 1 && p.Plain[0]&0x7f == 0x28 && p.Plain[1]&0x7f == 0x3f
	}
	if arr.K != model.KArr {
		return one, nil
	}
	if pad {
		return arr.Kids, one
	}
	return arr.Kids, nil
}

// C12

func genC12(r *model.R, c *core.Case) {
	seed := int(r.U64() >> 2)
	c.P = []int{seed, r.Intn(2)}
	shareWords(r, 60)
	n := r.Range(1, 10)
	size := opSize
	if r.P(3) { // very many elements
		n = r.Range(60, 200)
		size = func(r *model.R) int { return r.Pick(1, 1, 2, 4, 200) }
	}
	for i := 0; i < n; i++ {
		op := core.Op{K: "doc", S: r.U64(), N: size(r), A: make([]int, aLen)}
		op.A[aVoc] = wordsFor(r)
		op.A[aScale] = randScale(r, 15)
		if r.Intn(3000) == 0 {
			op.A[aScale] = model.ScInts + 8*r.Pick(7, 8)
		}
		op.A[aWhich] = r.Pick(wMerge, wMerge, wMerge, wCompressed, wHeader)
		op.A[aFlavor] = r.Pick(0, 0, 2)
		op.A[aVOpt] = r.Intn(2)*vShare | r.Intn(2)*vPerl | r.Intn(2)*vCallbacks
		if r.P(30) {
			d := docOf(&op, c.Seed)
			switch r.Intn(4) {
			case 0:
				op.F = randFaults(r, d, r.Range(1, 2))
			case 1:
				op.F = []model.Fault{{K: "b:trunc", Off: len(d.Plain) - 1 - r.Intn(min(len(d.Plain), 20))}}
			case 2: // a count towards the start is too large: detected at the very end
				var fs []model.Field
				for _, f := range d.PFields {
					if f.Kind == "count" && len(fs) < 3 {
						fs = append(fs, f)
					}
				}
				if len(fs) > 0 {
					f := fs[r.Intn(len(fs))]
					op.F = []model.Fault{{K: "b:varint", Off: f.Off, Len: f.Len, V: uint64(1 + r.Intn(40))}}
				} else {
					op.F = randFaults(r, d, 1)
				}
			case 3: // a tag near the end is unknown
				op.F = []model.Fault{{K: "b:set", Off: max(0, len(d.Plain)-1-r.Intn(8)), V: uint64(r.Pick(0x34, 0x38, 0x3c, 0x3d, 0x3e, 0x29, 0x2f, 0x2d, 0x31))}}
			}
		}
		c.Ops = append(c.Ops, op)
	}
	reuse2(r, c.Ops, 15)
	c.Sched.MapMode = r.Intn(4)
}

// reuse2 makes some documents occur again.
func reuse2(r *model.R, ops []core.Op, pct int) {
	for i := 1; i < len(ops); i++ {
		if r.P(pct) {
			ops[i] = ops[r.Intn(i)]
		}
	}
}

// mustMerge tells whether a merger has to accept a document: a well-formed one
// without what is known to be unsupported.
func mustMerge(m *sereal.Merger, d *model.Doc, op *core.Op) bool {
	if len(op.F) > 0 {
		return false
	}
	if byEncoder := op.Arg(aFlavor) == 2 && d.Fields == nil; !byEncoder {
		if d.Opt.Pads > 0 || d.Opt.CopyItems > 0 {
			return false
		}
		if d.Opt.Copies > 0 && contains(d.Body, func(n *model.Node) bool { return n.K == model.KRegexp }) {
			return false
		}
	}
	if m.KeepFlat { // references to what is flattened away
		top := map[*model.Node]bool{d.Body: true}
		if d.Body.K == model.KRef {
			top[d.Body.Kids[0]] = true
		}
		return !contains(d.Body, func(n *model.Node) bool { return top[n.To] })
	}
	return true
}

// contains tells whether there is a node like that.
func contains(n *model.Node, is func(n *model.Node) bool) bool {
	seen := map[*model.Node]bool{}
	var walk func(n *model.Node) bool
	walk = func(n *model.Node) bool {
		if is(n) {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, k := range n.Kids {
			if walk(k) {
				return true
			}
		}
		return false
	}
	return walk(n)
}

func execC12(c *core.Case, x *core.X) {
	seed := uint64(c.Param(0))
	m := mergerFor(seed)
	if c.Param(1) == 0 {
		m.Compression = nil
	}
	ok2 := core.Guard(func() {
		var alts [][2][]*model.Node // what each accepted document added
		accepted := 0
		decodes := true
		var decoded []string
		for i := range c.Ops {
			if x.Failed() || simrt.Aborting() {
				return
			}
			op := &c.Ops[i]
			d := docOf(op, c.Seed)
			b := damaged(d, op.F)
			var p *model.Parsed
			var perr error
			if p, perr = model.Parse(b); perr != nil && len(op.F) == 0 {
				panic(core.HarnessPanic{Msg: "a document is not well-formed: " + perr.Error()})
			}
			fresh := mergerFor(seed)
			fn := 0
			fcls, ferr, fpan := try(func() (err error) { fn, err = fresh.Append(b); return err })
			if fcls == "ok" && perr != nil {
				x.Count("damaged document that mergers accept (not used)", 1)
				continue
			}
			if fcls == "panic" {
				x.Fail("panic", "Append to a new merger panicked: %v\ndocument %x", fpan, clipB(b))
				return
			}
			if fcls == "err" && mustMerge(m, d, op) {
				x.Fail("rejected", "Append rejects an ordinary well-formed document (version %d, compression %d): %v\ndocument %x", d.Opt.Version, d.Opt.Comp, ferr, clipB(b))
				return
			}
			x.CountFaults(op.F)
			n := 0
			cls, err, pan := try(func() (err error) { n, err = m.Append(b); return err })
			x.Note(string(b))
			x.Note(cls)
			if cls != fcls {
				x.Fail("trace", "Append of document %d: %s (%v %v), but a new merger: %s (%v)\ndocument %x", i, cls, err, pan, fcls, ferr, clipB(b))
				return
			}
			if n != fn {
				x.Fail("count", "Append of document %d returned %d, on a new merger %d", i, n, fn)
				return
			}
			if cls != "ok" {
				x.Count("append:rejected", 1)
				continue
			}
			accepted++
			if decodes {
				// what the real decoder makes of the document
				var v interface{}
				if dcls, _, _ := try(func() error { return sereal.Unmarshal(b, &v) }); dcls != "ok" {
					decodes = false
				} else if l, ok := goList(v); m.KeepFlat && ok && n != 1 && n == len(l) {
					for _, e := range l {
						decoded = append(decoded, goCanon(e))
					}
				} else if m.KeepFlat {
					decodes = false // it depends on how it is written
				} else {
					decoded = append(decoded, goCanon(v))
				}
			}
			e, o := elements(m, p)
			if o != nil && len(o) == n && len(e) != n {
				e = o
				o = nil
			}
			if len(e) != n {
				x.Fail("count", "Append of document %d returned %d, the document adds %d elements\ndocument %x", i, n, len(e), clipB(b))
				return
			}
			alts = append(alts, [2][]*model.Node{e, o})
		}
		var out []byte
		cls, err, pan := try(func() (err error) { out, err = m.Finish(); return err })
		if cls != "ok" {
			x.Fail("finish", "Finish after %d accepted documents: %s (%v %v)", accepted, cls, err, pan)
			return
		}
		x.Out.Nontrivial = accepted >= 2
		x.Note(string(out))
		p, err := model.Parse(out)
		if err != nil {
			x.Fail("malformed", "the merged document is not well-formed: %v\n%x", err, clipB(out))
			return
		}
		got := model.Canon(p.Body, model.CanonOpt{KeyTypes: true, Ident: true})
		var first string
		for pick := 0; pick < 2; pick++ {
			var kids []*model.Node
			for _, a := range alts {
				e := a[0]
				if pick == 1 && a[1] != nil && len(a[1]) == len(a[0]) {
					e = a[1]
				}
				kids = append(kids, e...)
			}
			want := &model.Node{K: model.KArr, Kids: kids}
			if m.TopLevelElement == sereal.TopLevelArrayRef {
				want = &model.Node{K: model.KRef, Kids: []*model.Node{want}}
			}
			w := model.Canon(want, model.CanonOpt{KeyTypes: true, Ident: true})
			if w == got {
				if decodes && accepted > 0 {
					sameDecoded(x, m, out, decoded)
				}
				return
			}
			if pick == 0 {
				first = w
			}
		}
		if got == "toobig" || first == "toobig" {
			return
		}
		x.Fail("mismatch", "the merged document differs from what was appended (%d documents): %s", accepted, strDiff(first, got))
	})
	x.Main(4*limit(c), ok2)
}

// goList returns the elements of an array or a reference to one.
func goList(v interface{}) ([]interface{}, bool) {
	switch v := v.(type) {
	case []interface{}:
		return v, true
	case *[]interface{}:
		return *v, true
	}
	return nil, false
}

// sameDecoded compares the elements of a merged document with those of the
// documents, all as the decoder sees them.
func sameDecoded(x *core.X, m *sereal.Merger, out []byte, want []string) {
	var v interface{}
	cls, err, pan := try(func() error { return sereal.Unmarshal(out, &v) })
	if cls != "ok" {
		x.Fail("undecodable", "decoding the merged document: %s (%v %v), but each document can be decoded\ndocument %x", cls, err, pan, clipB(out))
		return
	}
	l, ok := goList(v)
	if !ok || len(l) != len(want) {
		x.Fail("mismatch", "the merged document decodes to %T with %d elements, not %d\ndocument %x", v, len(l), len(want), clipB(out))
		return
	}
	for i, e := range l {
		if got := goCanon(e); got != want[i] {
			x.Fail("mismatch", "element %d of the merged document decodes to something else than in its document: %s\ndocument %x", i, strDiff(want[i], got), clipB(out))
			return
		}
	}
}

// C13

const (
	cfgNone = iota
	cfgSnappy
	cfgZlib
	cfgZlibBad
	cfgZstd
	cfgSnappyOld
	cfgThreshold0
	cfgThresholdHuge
	cfgThresholdMid
	cfgs
)

func genC13(r *model.R, c *core.Case) {
	shareWords(r, 50)
	c.P = []int{int(r.U64() >> 2)}
	for i, n := 0, r.Intn(6); i < n; i++ {
		op := core.Op{K: "doc", S: r.U64(), N: opSize(r), A: make([]int, aLen)}
		op.A[aWhich] = wMerge
		op.A[aScale] = randScale(r, 15)
		op.A[aVoc] = wordsFor(r)
		op.A[aFlavor] = r.Pick(0, 2)
		if r.P(35) {
			op.A[aFlavor] = 2
			op.A[aVOpt] = vRandom | r.Intn(2)*vBig
			op.N = r.Range(3, 40)
		}
		c.Ops = append(c.Ops, op)
	}
	for i, n := 0, r.Range(2, 6); i < n; i++ {
		switch {
		case r.P(60) || i == 0:
			c.Ops = append(c.Ops, core.Op{K: "finish", A: []int{r.W(3, 3, 3, 2, 2, 2)}})
			if r.P(40) {
				c.Ops = append(c.Ops, core.Op{K: "set", A: []int{r.Intn(cfgs)}})
			}
		case r.P(60):
			c.Ops = append(c.Ops, core.Op{K: "set", A: []int{r.Intn(cfgs)}})
		default:
			op := core.Op{K: "doc", S: r.U64(), N: opSize(r), A: make([]int, aLen)}
			op.A[aWhich] = wMerge
			c.Ops = append(c.Ops, op)
		}
	}
	if r.P(50) {
		c.Ops = append([]core.Op{{K: "set", A: []int{r.Intn(cfgs)}}}, c.Ops...)
	}
	c.Sched.PoolNew = r.Pick(0, 50)
}

func setMerger(m *sereal.Merger, cfg int) {
	switch cfg {
	case cfgNone:
		m.Compression = nil
	case cfgSnappy:
		m.Compression = sereal.SnappyCompressor{Incremental: true}
	case cfgZlib:
		m.Compression = sereal.ZlibCompressor{}
	case cfgZlibBad:
		m.Compression = sereal.ZlibCompressor{Level: 17}
	case cfgZstd:
		m.Compression = sereal.ZstdCompressor{}
	case cfgSnappyOld:
		m.Compression = sereal.SnappyCompressor{}
	case cfgThreshold0:
		m.CompressionThreshold = 0
	case cfgThresholdHuge:
		m.CompressionThreshold = 1 << 30
	case cfgThresholdMid:
		m.CompressionThreshold = 500
	}
}

func execC13(c *core.Case, x *core.X) {
	seed := uint64(c.Param(0))
	m := mergerFor(seed)
	x.Main(4*limit(c), core.Guard(func() {
		// the same documents merged without compression say what is expected
		plain := mergerFor(seed)
		plain.Compression = nil
		want := ""
		finished, complete := false, false
		failing := "" // why the last Finish failed, while nothing has been done about it
		var doc []byte
		var snap string
		finishes := 0
		version := 0
		for i := range c.Ops {
			if x.Failed() || simrt.Aborting() {
				return
			}
			op := &c.Ops[i]
			switch op.K {
			case "set":
				old := m.CompressionThreshold
				setMerger(m, op.Arg(0))
				if whyFail(m, version) == "" || m.CompressionThreshold != old && m.CompressionThreshold != 0 {
					failing = ""
				}
				x.Note(fmt.Sprint("set", op.Arg(0)))
			case "doc":
				b := docOf(op, c.Seed).B
				n := 0
				cls, err, pan := try(func() (err error) { n, err = m.Append(b); return err })
				x.Note(string(b))
				if cls == "panic" {
					x.Fail("panic", "Append panicked: %v", pan)
				}
				if finished {
					if cls == "ok" {
						x.Fail("append", "Append is accepted after Finish has been called (returned %d)", n)
					}
					continue
				}
				pn := 0
				pcls, perr, _ := try(func() (err error) { pn, err = plain.Append(b); return err })
				if pcls != cls || n != pn {
					x.Fail("append", "Append depends on the compressor: %s %d (%v), without %s %d (%v)", cls, n, err, pcls, pn, perr)
				}
			case "finish":
				finishes++
				var out []byte
				if !finished {
					var ref []byte
					cls, err, pan := try(func() (err error) { ref, err = plain.Finish(); return err })
					if cls != "ok" {
						x.Fail("finish", "Finish without compression: %s (%v %v)", cls, err, pan)
						return
					}
					p, err := model.Parse(ref)
					if err != nil {
						x.Fail("malformed", "Finish without compression returned a malformed document: %v\n%x", err, clipB(ref))
						return
					}
					version = p.Version
					want = model.Canon(p.Body, model.CanonOpt{KeyTypes: true, Ident: true})
				}
				cls, err, pan := try(func() (err error) { out, err = m.Finish(); return err })
				finished = true
				x.Note(cls)
				x.Note(string(out))
				if cls == "panic" {
					x.Fail("panic", "Finish panicked: %v", pan)
					return
				}
				if cls == "err" {
					x.Count("finish:failed", 1)
					if complete {
						x.Fail("finish", "Finish fails (%v) after it returned the document", err)
					}
					if cause := whyFail(m, version); cause == "" {
						x.Fail("finish", "Finish fails (%v) with a valid configuration (%T %v)", err, m.Compression, m.CompressionThreshold)
					}
					failing = err.Error()
					continue
				}
				if failing != "" {
					x.Fail("finish", "Finish succeeds after it failed (%s), although the cause is still there (%T, threshold %d)", failing, m.Compression, m.CompressionThreshold)
					return
				}
				if complete {
					if string(out) != snap {
						x.Fail("unstable", "Finish returned another document than before: %s", hexDiff(snap, string(out)))
						return
					}
					if string(doc) != snap {
						x.Fail("unstable", "a later Finish changed the document that was returned before: %s", hexDiff(snap, string(doc)))
						return
					}
				}
				complete = true
				doc, snap = out, string(out)
				p, err := model.Parse(out)
				if err != nil {
					x.Fail("malformed", "Finish (%T, threshold %d) returned a malformed document: %v\n%x", m.Compression, m.CompressionThreshold, err, clipB(out))
					return
				}
				if got := model.Canon(p.Body, model.CanonOpt{KeyTypes: true, Ident: true}); got != want {
					x.Fail("mismatch", "Finish (%T, threshold %d) returned another document than without compression: %s", m.Compression, m.CompressionThreshold, strDiff(want, got))
					return
				}
				if p.Comp != model.Raw {
					x.Count("finish:compressed", 1)
				}
				var v interface{}
				var w interface{}
				cls, err, pan = try(func() error { return sereal.Unmarshal(out, &v) })
				ref, _ := plain.Finish()
				cls2, _, _ := try(func() error { return sereal.Unmarshal(ref, &w) })
				if cls != cls2 || cls == "ok" && goCanon(v) != goCanon(w) {
					x.Fail("mismatch", "decoding the finished document: %s (%v %v), without compression %s: %s", cls, err, pan, cls2, strDiff(goCanon(w), goCanon(v)))
				}
			}
		}
		x.Out.Nontrivial = finishes >= 2
	}))
}

// whyFail says why Finish may fail in a configuration, "" if it may not.
func whyFail(m *sereal.Merger, version int) string {
	switch z := m.Compression.(type) {
	case sereal.SnappyCompressor:
		if !z.Incremental {
			return "not incremental"
		}
	case sereal.ZlibCompressor:
		if version < 3 {
			return "version"
		}
		if z.Level < -1 || z.Level > 9 {
			return "level"
		}
	case sereal.ZstdCompressor:
		return "not supported"
	}
	return ""
}
