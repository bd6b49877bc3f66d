// Package scen holds the simulated workloads and oracles of the properties.
package scen

import (
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"simverif/core"
	"simverif/model"
	"simverif/simrt"
)

// Parameters of operations (Op.A).
const (
	aTarget = 0 // documents: kind of destination
	aFlavor = 1 // documents: 0 random, 1 suits the destination, 2 made from a Go value
	aWhich  = 2 // documents: which versions and compressions
	aDOpt   = 3 // decoder options
	aVOpt   = 4 // values: vXxx flags
	aMisc   = 5
	aVoc    = 6 // if not 0: which set of words is preferred
	aScale  = 7 // if not 0: something large is part of the document or value
	aLen    = 8
)

// Which documents.
const (
	wAny = iota
	wCompressed
	wZlib
	wRaw
	wHeader     // version 2 and up, with a user header
	wNoFrz      // no frozen objects
	wMerge      // what mergers like
	wHeaderComp // compressed, with a user header
)

// Kinds of values.
const (
	vCallbacks = 1 << iota
	vBad
	vPerl
	vDyn
	vShare
	vAlias
	vRandom
	vBig
	vManyCB
	vCopies  // documents in which items are copies of others
	vPadded  // documents end in a long string
	vPerlFrz // documents for Perl-compatible decoders have frozen objects nevertheless
	vNoShare // no pointer is there twice
)

// Decoder options.
const (
	dPerl = 1 << iota
	dNoRef
	dNoReg // no names registered
	dNot   // and the next bits: this name is not registered
)

const dNames = 31*dNot | dNoReg

// Destination other than the one the document was made for.
const (
	oDoc  = 0
	oDest = 1 // plus the kind
)

func valueOf(op *core.Op, uid uint64) interface{} {
	o := model.ValOpt{Uid: uid, Words: words(op)}
	f := op.Arg(aVOpt)
	if f&vCallbacks != 0 {
		o.Callbacks = 25
	}
	if f&vManyCB != 0 {
		o.Callbacks = 60
	}
	if f&vBad != 0 {
		o.Bad = 30
	}
	if f&vPerl != 0 {
		o.Perl = 20
	}
	if f&vDyn != 0 {
		o.Dyn = 60
	}
	if f&vShare != 0 {
		o.Share = 50
	}
	o.Alias = f&vAlias != 0
	if o.NoShare = f&vNoShare != 0; o.NoShare {
		o.Share, o.Alias = 0, false
	}
	if f&vRandom != 0 {
		o.Random = 80
	}
	if f&vBig != 0 {
		o.MaxStr = 70000
	}
	v := model.GenValue(model.NewR(op.S), op.N, o)
	if s := op.Arg(aScale); s != 0 {
		r := model.NewR(simrt.Mix(op.S, 22))
		big := model.ScaleValue(r, s%8, scaleSize(s))
		switch r.Intn(5) {
		case 0:
			return big
		case 1:
			return []interface{}{big, v}
		case 2:
			return map[string]interface{}{"a": big, "b": v}
		}
		return []interface{}{v, big, model.GenValue(r, 3, o)}
	}
	return v
}

// randScale says what is large, in pct per mille of all cases.
func randScale(r *model.R, pm int) int {
	if r.Scale != 0 && r.P(80) {
		if r.P(70) {
			return r.Scale
		}
		return r.Range(1, 7) + 8*r.Intn(6)
	}
	if r.Intn(1000) >= pm {
		return 0
	}
	return r.Range(1, 7) + 8*r.W(10, 20, 20, 20, 15, 10, 5)
}

// scaleSize says how large: a number of items, or a fraction of one of bytes.
func scaleSize(s int) int {
	return []int{70, 130, 260, 520, 1030, 2100, 5000, 20000, 70000}[s/8%9] + s%3
}

// headerOf makes a user header to go with the value of an operation.
func headerOf(op *core.Op, uid uint64) interface{} {
	h := *op
	h.S = simrt.Mix(op.S, 99)
	h.N = op.N/4 + 1
	if h.S%5 == 0 {
		return nil
	}
	if h.S%3 != 0 && len(h.A) > aScale {
		h.A = h.A[:aScale]
	}
	return valueOf(&h, uid)
}

// words returns the preferred words of an operation.
func words(op *core.Op) [][]byte {
	seed := op.Arg(aVoc)
	if seed == 0 {
		return nil
	}
	r := model.NewR(uint64(seed))
	v := model.Vocab(r, r.Range(2, 10))
	for i := r.Intn(3); i > 0; i-- {
		v = append(v, r.Bytes(r.Range(20, 200), r.P(20)))
	}
	return v
}

// shareWords makes operations that are generated from here on prefer the same
// words, in pct percent of all cases.
func shareWords(r *model.R, pct int) {
	if r.Intn(40) == 0 { // most is large
		r.Scale = r.Range(1, 7) + 8*r.W(5, 10, 15, 20, 25, 25)
	}
	if r.P(pct) {
		r.Words = 1 + r.Intn(1<<40)
	}
}

func wordsFor(r *model.R) int {
	if r.Words != 0 && r.P(80) {
		return r.Words
	}
	return 0
}

func docRand(op *core.Op) *model.R { return model.NewR(simrt.Mix(op.S, 1)) }

// targetOf makes a new destination for an operation.
func targetOf(op *core.Op, uid uint64) interface{} {
	return model.NewTarget(op.Arg(aTarget), model.NewR(simrt.Mix(op.S, 7)), uid)
}

// docOf makes the (undamaged) document of an operation.
func docOf(op *core.Op, uid uint64) *model.Doc {
	r := docRand(op)
	v, c := model.RandVC(r)
	which := op.Arg(aWhich)
	for {
		ok := true
		switch which {
		case wCompressed:
			ok = c != model.Raw
		case wZlib:
			ok = c == model.Zlib
		case wRaw:
			ok = c == model.Raw
		case wHeader:
			ok = v >= 2
		case wHeaderComp:
			ok = v >= 2 && c != model.Raw
		}
		if ok {
			break
		}
		v, c = model.RandVC(r)
	}
	g := model.GenOpt{Version: v, MaxStr: 200 + op.N*20, Random: r.Pick(0, 30, 100), FrzCls: model.FrzNames, Words: words(op)}
	if len(op.CB) > 0 || op.Arg(aVOpt)&vManyCB != 0 {
		g.FrzW = 25
	}
	o := model.RandEncOpt(r, v, c)
	if which == wNoFrz || which == wMerge || op.Arg(aDOpt)&dPerl != 0 && op.Arg(aVOpt)&vPerlFrz == 0 {
		g.NoFrz = which != wMerge
	}
	hdr := which == wHeader || which == wHeaderComp
	if v >= 2 && (hdr || r.P(25)) {
		hg := g
		hg.MaxStr = 200
		o.Header = model.Gen(r, r.Range(1, 2+op.N/3), hg)
		if r.P(10) {
			o.HeaderPads = r.Range(1, 4)
		}
	} else if v >= 2 && r.P(8) {
		o.HeaderFlags = r.Pick(0, 2, 8)
		o.SuffixJunk = r.Bytes(r.Range(1, 20), true)
		o.SuffixJunk[0] &^= 1
	} else if v == 1 && r.P(10) {
		o.SuffixJunk = r.Bytes(r.Range(1, 20), true)
		o.SuffixJunk[0] &^= 1
	}
	var body *model.Node
	switch op.Arg(aFlavor) {
	case 1:
		misfit := 0
		if r.P(25) {
			misfit = 40
		}
		body = model.NodeFor(r, model.TargetType(targetOf(op, uid)), op.N, g, misfit)
	case 2:
		vo := *op
		vo.A = append([]int(nil), op.A...)
		for len(vo.A) <= aVOpt {
			vo.A = append(vo.A, 0)
		}
		e := encoderFor(r.U64())
		e.CompressionThreshold = 0
		b, err := plainMarshal(e, valueOf(&vo, uid))
		if err == nil {
			if p, err := model.Parse(b); err == nil {
				return &model.Doc{B: b, Opt: model.EncOpt{Version: p.Version, Comp: p.Comp, HeaderFlags: -1, Level: -1}, Body: p.Body, BodyStart: p.BodyStart, HdrStart: p.BodyStart, Plain: p.Plain}
			}
		}
		body = model.Gen(r, op.N, g)
	default:
		body = model.Gen(r, op.N, g)
	}
	if op.Arg(aVOpt)&vPadded != 0 {
		q := model.NewR(simrt.Mix(op.S, 25))
		top := body
		for top.K == model.KRef {
			top = top.Kids[0]
		}
		if top.K != model.KArr && op.Arg(aFlavor) != 1 {
			top = &model.Node{K: model.KArr, Kids: []*model.Node{body}}
			body = top
		}
		if top.K == model.KArr {
			top.Kids = append(top.Kids, &model.Node{K: model.KBin, B: make([]byte, q.Range(300, 6000))})
		}
	}
	if q := model.NewR(simrt.Mix(op.S, 21)); q.P(15) || len(op.CB) > 0 && q.P(20) || op.Arg(aVOpt)&vCopies != 0 {
		model.Repeat(q, body, 60)
		o.CopyItems = 90
	}
	if s := op.Arg(aScale); s != 0 {
		q := model.NewR(simrt.Mix(op.S, 23))
		switch {
		case op.Arg(aFlavor) == 1:
			model.ScaleIn(q, body, s%8, scaleSize(s))
		default:
			big := model.ScaleNode(q, s%8, scaleSize(s), g)
			kids := []*model.Node{body, big}
			switch q.Intn(4) {
			case 0:
				kids = []*model.Node{big, body}
			case 1:
				kids = []*model.Node{body, big, model.Gen(q, 3, g)}
			}
			body = &model.Node{K: model.KArr, Kids: kids}
			if big.K == model.KArr && q.P(30) {
				body = big
			}
			if q.P(50) || which == wMerge {
				body = &model.Node{K: model.KRef, Kids: []*model.Node{body}}
			}
		}
		if o.Header != nil && q.P(30) {
			o.Header = &model.Node{K: model.KArr, Kids: []*model.Node{o.Header, model.ScaleNode(q, s%8, scaleSize(s), g)}}
		}
	}
	return model.Encode(r, o, body)
}

// plainMarshal encodes with the code under test outside of any simulated run,
// to obtain documents as the encoder writes them.
func plainMarshal(e *sereal.Encoder, v interface{}) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	return e.Marshal(v)
}

// damaged applies the faults of an operation. Faults of kind "b:..." hit the
// body before it is compressed.
func damaged(d *model.Doc, fs []model.Fault) []byte {
	b := d.B
	var body, wire []model.Fault
	for _, f := range fs {
		if strings.HasPrefix(f.K, "b:") {
			f.K = f.K[2:]
			body = append(body, f)
		} else {
			wire = append(wire, f)
		}
	}
	if len(body) > 0 {
		b = d.Wrap(model.Apply(d.Plain, body))
	}
	return model.Apply(b, wire)
}

// randFaults makes up to n faults for the document of an operation.
func randFaults(r *model.R, d *model.Doc, n int) []model.Fault {
	var fs []model.Fault
	for i := 0; i < n; i++ {
		if d.Opt.Comp != model.Raw && d.Opt.Version > 0 && r.P(50) {
			for _, f := range model.BodyFaults(r, d, 1) {
				f.K = "b:" + f.K
				fs = append(fs, f)
			}
		} else {
			fs = append(fs, model.WireFaults(r, d, 1)...)
		}
	}
	return fs
}

// encoderFor makes an encoder; options follow from the seed.
func encoderFor(seed uint64) *sereal.Encoder {
	r := model.NewR(seed)
	var e *sereal.Encoder
	v := 3
	switch r.W(20, 25, 40, 15) {
	case 0:
		e, v = sereal.NewEncoder(), 1
	case 1:
		e, v = sereal.NewEncoderV2(), 2
	case 2:
		e = sereal.NewEncoderV3()
	case 3:
		e = &sereal.Encoder{}
	}
	switch r.Intn(5) {
	case 0:
		e.Compression = sereal.SnappyCompressor{Incremental: v != 1 || r.P(50)}
	case 1:
		if v == 3 {
			e.Compression = sereal.ZlibCompressor{Level: r.Range(-1, 9)}
		} else {
			e.Compression = sereal.SnappyCompressor{Incremental: true}
		}
	}
	e.CompressionThreshold = r.Pick(0, 0, 10, 100, 1024)
	e.DisableDedup = r.P(20)
	e.DisableFREEZE = r.P(10)
	e.PerlCompat = r.P(25)
	e.ExpectedSize = uint(r.Pick(0, 0, 1, 100, 5000))
	if r.P(20) {
		e.MaxRecursionDepth = r.Pick(1, 2, 5, 20, 1000)
	}
	return e
}

// failingCompressor configures an encoder so that compression fails.
func failingCompressor(e *sereal.Encoder, r *model.R) {
	switch r.Intn(3) {
	case 0:
		e.Compression = sereal.ZlibCompressor{Level: r.Pick(17, 17, 6)} // version 3 takes the latter
	case 1:
		e.Compression = sereal.ZstdCompressor{Level: 3}
	case 2:
		e.Compression = sereal.SnappyCompressor{Incremental: false}
	}
	e.CompressionThreshold = r.Pick(0, 0, 50)
}

func decoderFor(opt int) *sereal.Decoder {
	d := sereal.NewDecoder()
	setDecoder(d, opt)
	if opt&dNoReg == 0 {
		model.Register(d, opt/dNot)
	}
	return d
}

func setDecoder(d *sereal.Decoder, opt int) {
	d.PerlCompat = opt&dPerl != 0
	d.DisableReferentialIntegrity = opt&dNoRef != 0
}

func mergerFor(seed uint64) *sereal.Merger {
	r := model.NewR(seed)
	var m *sereal.Merger
	v := 3
	switch r.Intn(3) {
	case 0:
		m = sereal.NewMerger()
	case 1:
		m, v = sereal.NewMergerV2(), 2
	case 2:
		m = sereal.NewMergerV3()
	}
	if r.P(40) {
		m.TopLevelElement = sereal.TopLevelArray
	}
	m.KeepFlat = r.P(50)
	m.DedupeStrings = r.P(50)
	m.ExpectedSize = uint(r.Pick(0, 0, 1, 16, 3000))
	m.CompressionThreshold = r.Pick(0, 0, 100, 1024)
	switch r.Intn(4) {
	case 0:
		m.Compression = sereal.SnappyCompressor{Incremental: true}
	case 1:
		if v == 3 {
			m.Compression = sereal.ZlibCompressor{Level: r.Range(-1, 9)}
		}
	}
	return m
}

// Res is the result of one call.
type Res struct {
	Cls   string // ok, err, panic, goexit
	Err   error
	Pan   interface{}
	Val   string // canonical form of what came out
	Text  string // of the error
	N     int
	B     []byte
	T, H  interface{}
	Fired []string // callback faults that happened
	Calls int      // callbacks invoked
	CBErr error    // what a callback returned
}

func (r Res) String() string {
	s := r.Cls
	if r.Err != nil {
		s += " (" + r.Err.Error() + ")"
	}
	if r.Pan != nil {
		s += fmt.Sprintf(" (%v)", r.Pan)
	}
	if r.Cls == "ok" {
		s += fmt.Sprintf(" n=%d ", r.N) + clip(r.Val, 700)
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Sig identifies the observable result.
func (r Res) Sig() string {
	if r.Cls != "ok" {
		return r.Cls
	}
	return fmt.Sprintf("ok|%d|%s", r.N, r.Val)
}

func same(a, b Res) bool { return a.Sig() == b.Sig() }

// sameText also compares the texts of errors.
func sameText(a, b Res) bool {
	if a.Cls == "err" && b.Cls == "err" && a.Text != b.Text {
		return false
	}
	return same(a, b)
}

// diff shows where two canonical forms part.
func diff(a, b Res) string {
	x, y := a.Sig(), b.Sig()
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("at %d: ...%s / ...%s", i, clip(x[lo:], 300), clip(y[lo:], 300))
}

// failures inside callbacks

type customPanic struct{ n int }

// typedErr is an error that compares by value.
type typedErr struct{ n int }

func (typedErr) Error() string { return "typed" }

// nilErr is an error although the pointer is nil.
type nilErr struct{}

func (*nilErr) Error() string { return "nil" }

// listErr cannot be compared, nor be a key of a map.
type listErr []string

func (e listErr) Error() string { return fmt.Sprint([]string(e)) }
func (e listErr) Is(t error) bool {
	o, ok := t.(listErr)
	return ok && len(o) == len(e)
}

// tempErr says that it will pass.
type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

var (
	corruptErr = sereal.ErrCorrupt{Err: "made up by a callback"}
	errEmpty   = errors.New("")
)

func (customPanic) String() string { return "custom" }

// cbPlan says what the callbacks of a call do.
type cbPlan struct {
	faults  []core.CBFault
	n       int
	fired   []string
	err     error // what a callback returned
	oldNil  bool  // a callback panicked with nil in the old way
	keep    bool  // decoded values keep what they are given
	reenter func()
	watch   func()
}

func isFailure(k string) bool {
	switch k {
	case "stall", "gc", "reenter", "keep", "nilresult":
		return false
	}
	return true
}

func onMarshal(data []byte) ([]byte, error)   { return callback(data, true) }
func onUnmarshal(data []byte) ([]byte, error) { return callback(data, false) }

func callback(data []byte, marshal bool) ([]byte, error) {
	p, _ := simrt.Plan().(*cbPlan)
	if p == nil {
		return append([]byte{}, data...), nil
	}
	if p.watch != nil {
		p.watch()
	}
	i := p.n
	p.n++
	for _, f := range p.faults {
		if f.At != i {
			continue
		}
		p.fired = append(p.fired, f.K)
		switch f.K {
		case "err":
			p.err = model.ErrInjected
			return nil, p.err
		case "err:eof": // errors that mean something to the code that called
			p.err = io.EOF
			return nil, p.err
		case "err:unexpected":
			p.err = io.ErrUnexpectedEOF
			return nil, fmt.Errorf("wrapped: %w", p.err)
		case "err:truncated":
			p.err = sereal.ErrTruncated
			return nil, p.err
		case "err:corrupt":
			p.err = corruptErr
			return nil, p.err
		case "err:limit":
			p.err = sereal.ErrMaxRecursionLimit
			return nil, p.err
		case "err:typed":
			p.err = typedErr{i}
			return nil, p.err
		case "err:empty":
			p.err = errEmpty
			return nil, p.err
		case "err:nilptr":
			p.err = (*nilErr)(nil)
			return nil, p.err
		case "err:list":
			p.err = listErr{"a", "b"}
			return nil, p.err
		case "err:temp":
			p.err = tempErr{}
			return nil, p.err
		case "panic:nilptr":
			panic((*nilErr)(nil))
		case "panic:list":
			panic(listErr{"a", "b"})
		case "err+data":
			p.err = model.ErrInjected
			return append([]byte{}, data...), fmt.Errorf("wrapped: %w", p.err)
		case "panic:eof":
			panic(io.EOF)
		case "panic:truncated":
			panic(sereal.ErrTruncated)
		case "panic:string":
			panic("injected panic")
		case "panic:empty":
			panic("")
		case "panic:error":
			panic(fmt.Errorf("injected: %w", model.ErrInjected))
		case "panic:custom":
			panic(customPanic{3})
		case "panic:pointer":
			panic(&customPanic{4})
		case "panic:nil":
			panic(nil) //nolint
		case "panic:oldnil":
			// in programs made for Go 1.20 and earlier, recover returns nil for this
			p.oldNil = true
			defer os.Setenv("GODEBUG", os.Getenv("GODEBUG"))
			os.Setenv("GODEBUG", "panicnil=1")
			panic(nil) //nolint
		case "panic:runtime":
			var m map[string]int
			m["x"] = 1
		case "panic:index":
			_ = data[len(data)+f.At:][5]
		case "goexit":
			runtime.Goexit()
		case "stall":
			simrt.Stall()
		case "gc":
			runtime.GC()
		case "nilresult":
			return nil, nil
		case "keep": // what the encoder gets is part of the value
			if marshal || p.keep {
				return data, nil
			}
		case "reenter":
			if p.reenter != nil {
				re := p.reenter
				old := simrt.Plan()
				simrt.SetPlan(nil)
				re()
				simrt.SetPlan(old)
			}
		}
	}
	return append([]byte{}, data...), nil
}

func init() {
	model.OnMarshal = onMarshal
	model.OnUnmarshal = onUnmarshal
}

func hasGoexit(fs []core.CBFault) bool {
	for _, f := range fs {
		if f.K == "goexit" {
			return true
		}
	}
	return false
}

// failKinds are the callback faults that make a callback fail.
var failKinds = []string{"err", "err", "err+data", "err:eof", "err:unexpected", "err:truncated", "err:corrupt", "err:limit", "err:typed", "err:empty", "err:nilptr", "err:list", "err:temp", "panic:nilptr", "panic:list", "panic:eof", "panic:truncated", "panic:string", "panic:empty", "panic:error", "panic:custom", "panic:pointer", "panic:nil", "panic:oldnil", "panic:runtime", "panic:index", "goexit"}

func randCB(r *model.R, n int, kinds []string) []core.CBFault {
	var fs []core.CBFault
	for i := 0; i < n; i++ {
		at := r.Intn(3)
		if r.P(30) {
			at = r.Intn(12)
		}
		fs = append(fs, core.CBFault{At: at, K: kinds[r.Intn(len(kinds))]})
	}
	return fs
}

// invoke runs one call under a callback plan and catches how it ends. Nothing
// in here may synchronise tasks: that would hide data races.
func invoke(op *core.Op, mapMode int, plan *cbPlan, f func(r *Res) error) (res *Res) {
	res = &Res{}
	if plan == nil {
		plan = &cbPlan{}
	}
	if plan.faults == nil {
		plan.faults = op.CB
	}
	simrt.SetMapOrder(mapMode, simrt.Mix(op.S, 5))
	body := func() {
		old := simrt.Plan()
		simrt.SetPlan(plan)
		defer simrt.SetPlan(old)
		defer func() {
			if simrt.Aborting() {
				return
			}
			if r := recover(); r != nil {
				res.Cls, res.Pan = "panic", r
			} else if res.Cls == "" && plan.oldNil {
				res.Cls, res.Pan = "panic", "nil"
			}
		}()
		err := f(res)
		res.Err = err
		if err != nil {
			res.Cls = "err"
		} else {
			res.Cls = "ok"
		}
	}
	if hasGoexit(plan.faults) {
		if !simrt.Sub(body) && res.Cls == "" {
			res.Cls = "goexit"
		}
	} else {
		body()
	}
	res.Fired = plan.fired
	res.Calls = plan.n
	res.CBErr = plan.err
	return res
}

// env is what operations work on.
type env struct {
	mapMode int
	base    uint64 // uid of the run
	twin    uint64 // uid for types made up for this environment
	in      map[string]*input
	keys    map[*core.Op]string
	e       *sereal.Encoder
	d       *sereal.Decoder
	m       *sereal.Merger
	plan    func(op *core.Op) *cbPlan
	buf     []byte      // where documents are received, if all are at the same place
	box     interface{} // what holds the values, if it is always the same
}

// roomy makes all documents arrive in the same buffer (bit 0), and all values
// be held by the same slice, map or pointer (above).
func (n *env) roomy(mode int) {
	n.buf, n.box = nil, nil
	if mode&1 != 0 {
		l := 0
		for _, p := range n.in {
			l = max(l, len(p.b))
		}
		n.buf = make([]byte, l)
	}
	switch mode >> 1 {
	case 1:
		n.box = []interface{}{nil}
	case 2:
		n.box = map[string]interface{}{}
	case 3:
		n.box = new(interface{})
	}
}

// randRoom chooses the mode.
func randRoom(r *model.R) int {
	if !r.P(35) {
		return 0
	}
	return r.W(1, 1) | r.Intn(4)<<1
}

func (n *env) wire(p *input) []byte {
	if n.buf == nil {
		return p.b
	}
	copy(n.buf, p.b)
	return n.buf[:len(p.b):len(p.b)]
}

func (n *env) held(v interface{}) interface{} {
	switch b := n.box.(type) {
	case []interface{}:
		b[0] = v
	case map[string]interface{}:
		b["v"] = v
	case *interface{}:
		*b = v
	default:
		return v
	}
	return n.box
}

// uid names the types an operation uses. Damage may hit the names, so damaged
// documents are the same in all environments.
func (n *env) uid(op *core.Op) uint64 {
	if len(op.F) > 0 {
		return n.base
	}
	return n.twin
}

// input of an operation; operations with the same parameters share it.
type input struct {
	doc  *model.Doc
	b    []byte
	v, h interface{}
	tt   reflect.Type // type of the destination
}

// target makes a destination (without the locks that making types takes).
func (p *input) target(op *core.Op, uid uint64) interface{} {
	if p.tt != nil && op.Arg(aMisc) == oDoc {
		return reflect.New(p.tt).Interface()
	}
	if k := op.Arg(aMisc); k >= oDest {
		return model.NewTarget(k-oDest, model.NewR(simrt.Mix(op.S, 7)), uid)
	}
	return targetOf(op, uid)
}

func inputKey(op *core.Op) string {
	k := "d"
	if op.K == "M" || op.K == "EM" || op.K == "EH" {
		k = "v"
	}
	return fmt.Sprint(k, op.S, op.N, op.A, op.F, len(op.CB) > 0)
}

// prepare makes the inputs of operations (outside of any simulated run).
func prepare(x *core.X, c *core.Case, uid uint64) *env {
	ops := c.Ops
	n := &env{mapMode: c.Sched.MapMode, base: c.Seed, twin: uid, in: map[string]*input{}, keys: map[*core.Op]string{}}
	in := n.in
	for i := range ops {
		op := &ops[i]
		k := inputKey(op)
		n.keys[op] = k
		if in[k] != nil {
			continue
		}
		p := &input{}
		uid := n.uid(op)
		switch op.K {
		case "M", "EM", "EH":
			p.v = valueOf(op, uid)
			p.h = headerOf(op, uid)
		case "U", "D", "L", "DU", "DH", "DB", "MA":
			p.doc = docOf(op, uid)
			p.b = roomy(damaged(p.doc, op.F))
			if op.Arg(aTarget) == 21 {
				p.tt = model.TargetType(targetOf(op, uid))
			}
			x.CountFaults(op.F)
		}
		in[k] = p
	}
	simrt.ResetState()
	return n
}

// roomy puts b into a slice with something behind it.
func roomy(b []byte) []byte {
	x := make([]byte, len(b)+24)
	copy(x, b)
	for i := len(b); i < len(x); i++ {
		x[i] = 0xa5
	}
	return x[:len(b)]
}

// do executes one operation.
func (n *env) do(op *core.Op) *Res {
	p := n.in[n.keys[op]]
	var plan *cbPlan
	if n.plan != nil {
		plan = n.plan(op)
	}
	return invoke(op, n.mapMode, plan, func(r *Res) (err error) {
		switch op.K {
		case "M":
			r.B, err = sereal.Marshal(n.held(p.v))
		case "EM":
			r.B, err = n.e.Marshal(n.held(p.v))
		case "EH":
			r.B, err = n.e.MarshalWithHeader(p.h, n.held(p.v))
		case "U":
			r.T = p.target(op, n.uid(op))
			err = sereal.Unmarshal(n.wire(p), r.T)
		case "DU":
			r.T = p.target(op, n.uid(op))
			err = n.d.Unmarshal(n.wire(p), r.T)
		case "DH":
			r.H = new(interface{})
			err = n.d.UnmarshalHeader(n.wire(p), r.H)
		case "DB":
			r.T = p.target(op, n.uid(op))
			r.H = new(interface{})
			err = n.d.UnmarshalHeaderBody(n.wire(p), r.H, r.T)
		case "D":
			r.B, err = sereal.DecompressDocument(nil, n.wire(p))
		case "L":
			if sereal.LooksLikeSereal(n.wire(p)) {
				r.N = 1
			}
		case "MA":
			r.N, err = n.m.Append(n.wire(p))
		case "MF":
			r.B, err = n.m.Finish()
		case "newD":
			n.d = decoderFor(int(op.S % 8 & (dPerl | dNoRef)))
		case "newE":
			n.e = encoderFor(op.S)
		case "newM":
			n.m = mergerFor(op.S)
		default:
			panic(core.HarnessPanic{Msg: "unknown operation " + op.K})
		}
		return err
	})
}

// fix completes a result after the run.
func (r *Res) fix(x *core.X, op *core.Op, n *env) *Res {
	if r == nil {
		return &Res{Cls: "missing"}
	}
	for _, k := range r.Fired {
		x.Count("callback:"+k, 1)
	}
	if r.Err != nil {
		r.Text = unuid(unuid(r.Err.Error(), n.base), n.twin)
	}
	if r.Cls == "ok" {
		switch op.K {
		case "M", "EM", "EH", "MF":
			r.Val = docCanon(r.B)
		case "D":
			r.Val = model.CanonDoc(r.B, model.CanonOpt{KeyTypes: true})
			if strings.HasPrefix(r.Val, "invalid") { // the damage is in there
				r.Val = fmt.Sprintf("%x", r.B)
			}
		}
		if r.T != nil {
			r.Val = goCanon(r.T)
		}
		if r.H != nil {
			r.Val += "H" + goCanon(r.H)
		}
		r.Val = unuid(unuid(r.Val, n.base), n.twin)
	}
	return r
}

// goCanon is the canonical form of a decoded value.
func goCanon(v interface{}) string { return model.GoCanon(v, model.GoOpt{Share: true}) }

// docCanon is the canonical form of an encoded document. Encoders may share a
// key or class name between text and binary strings.
func docCanon(b []byte) string { return model.CanonDoc(b, model.CanonOpt{}) }

// unuid makes names that carry the uid of a run comparable with those of its
// twin.
func unuid(s string, uid uint64) string {
	return strings.ReplaceAll(s, fmt.Sprintf("%016x", uid), "UID")
}

func twin(uid uint64) uint64 { return simrt.Mix(uid, 0x7717) }

// byTask splits the operations.
func byTask(ops []core.Op) (tasks [][]*core.Op) {
	idx := map[int]int{}
	for i := range ops {
		t := ops[i].T
		j, ok := idx[t]
		if !ok {
			j = len(tasks)
			idx[t] = j
			tasks = append(tasks, nil)
		}
		tasks[j] = append(tasks[j], &ops[i])
	}
	return
}

// estimate says how many steps operations take, to place schedule events.
func estimate(ops []core.Op) int64 {
	n := int64(0)
	for _, o := range ops {
		n += 60 + int64(o.N)*40
		if s := o.Arg(aScale); s != 0 {
			n += 30 * int64(scaleSize(s))
		}
	}
	return n
}

const budget = 8_000_000

// limit is the number of steps after which a run is considered to hang.
func limit(c *core.Case) int64 {
	n := int64(budget)
	for i := range c.Ops {
		if s := c.Ops[i].Arg(aScale); s != 0 {
			n += 500 * int64(scaleSize(s))
		}
	}
	return n
}
