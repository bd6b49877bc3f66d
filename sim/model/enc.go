package model

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/DataDog/zstd"
	"github.com/golang/snappy"
)

// Compression of a document.
const (
	Raw = iota
	SnappyV1
	SnappyInc
	Zlib
	Zstd
)

// Field is a place in a document that steers the decoder.
type Field struct {
	Off  int
	Len  int
	Kind string // strlen, count, offset, class, tag, track, varint, hdrsize, csize, usize, vertype, magic
}

// EncOpt selects among the equivalent ways to write a document.
type EncOpt struct {
	Version     int
	Comp        int
	Level       int
	Plain       bool   // always the obvious form
	Pads        int    // percentage of items with padding
	Copies      int    // percentage of repeated strings written as COPY
	CopyItems   int    // percentage of repeated containers written as COPY
	Header      *Node  // user header
	HeaderFlags int    // -1: none
	HeaderPads  int    // padding behind the user header
	SuffixJunk  []byte // suffix without user data (or behind it)
	ZlibULen    int    // added to the claimed uncompressed length
}

// Doc is a document and what is known about its layout.
type Doc struct {
	B         []byte
	Opt       EncOpt
	Body      *Node
	Header    *Node
	BodyStart int
	HdrStart  int    // first byte of the suffix
	Plain     []byte // uncompressed body
	Fields    []Field
	PFields   []Field // fields of the uncompressed body, relative to its start
}

type enc struct {
	r      *R
	o      EncOpt
	b      []byte
	base   int // what the first byte of b counts as
	fields []Field
	off    map[*Node]int // tag position
	tgt    map[*Node]bool
	strs   map[string]int // kind+content -> position of a string item
	cls    map[string]int // class names
	conts  map[string]int // canonical form of copyable containers -> position
	copyOK map[*Node]bool
	inCopy bool
	track  []int
}

func uvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// UVarint encodes v.
func UVarint(v uint64) []byte { return uvarint(nil, v) }

func (e *enc) varint(kind string, v uint64) {
	p := len(e.b)
	e.b = uvarint(e.b, v)
	e.fields = append(e.fields, Field{p, len(e.b) - p, kind})
}

func (e *enc) tag(t byte) int {
	p := len(e.b)
	e.b = append(e.b, t)
	e.fields = append(e.fields, Field{p, 1, "tag"})
	return p
}

func (e *enc) pad() {
	for e.o.Pads > 0 && e.r.P(e.o.Pads) {
		e.b = append(e.b, 0x3f)
	}
}

func (e *enc) targets(n *Node) {
	if n.To != nil {
		e.tgt[n.To] = true
	}
	for _, k := range n.Kids {
		e.targets(k)
	}
}

// copyable tells whether the subtree may be written once and copied.
func (e *enc) copyable(n *Node) bool {
	if v, ok := e.copyOK[n]; ok {
		return v
	}
	ok := n.K != KBack && n.K != KAlias && !e.tgt[n]
	for _, k := range n.Kids {
		if !e.copyable(k) {
			ok = false
		}
	}
	e.copyOK[n] = ok
	return ok
}

func (e *enc) str(n *Node, key, allowCopy bool) int {
	e.pad()
	id := string(rune('0'+n.K)) + string(n.B)
	if off, ok := e.strs[id]; ok && allowCopy && e.r.P(e.o.Copies) && (key || !e.inCopy) {
		p := e.tag(0x2f)
		e.varint("offset", uint64(off))
		return p
	}
	p := len(e.b)
	if n.K == KStr {
		e.tag(0x27)
		e.varint("strlen", uint64(len(n.B)))
	} else if len(n.B) < 32 && (e.o.Plain || e.r.P(80)) {
		e.tag(0x60 | byte(len(n.B)))
	} else {
		e.tag(0x26)
		e.varint("strlen", uint64(len(n.B)))
	}
	e.b = append(e.b, n.B...)
	if _, ok := e.strs[id]; !ok || e.r.P(20) {
		e.strs[id] = p + e.base
	}
	return p
}

func (e *enc) item(n *Node) {
	if n.K == KStr || n.K == KBin {
		e.off[n] = e.str(n, false, !e.tgt[n])
		return
	}
	e.pad()
	cont := n.K == KArr || n.K == KHash || n.K == KObj || n.K == KRef || n.K == KFrz || n.K == KRegexp
	sig := ""
	if cont && e.o.CopyItems > 0 && !e.inCopy && e.copyable(n) && Count(n) <= 12 {
		sig = fmt.Sprint(n.K) + Canon(n, CanonOpt{KeyTypes: true})
		if off, ok := e.conts[sig]; ok && e.r.P(e.o.CopyItems) {
			e.tag(0x2f)
			e.varint("offset", uint64(off))
			return
		}
		if e.r.P(50) {
			// what may be copied must not hold copies itself (but keys and classes)
			e.inCopy = true
			defer func() { e.inCopy = false }()
		} else {
			sig = ""
		}
	}
	p := len(e.b)
	e.off[n] = p
	if sig != "" {
		defer func() { e.conts[sig] = p + e.base }()
	}
	switch n.K {
	case KInt:
		switch {
		case n.I >= 0 && n.I <= 15 && (e.o.Plain || e.r.P(85)):
			e.tag(byte(n.I))
		case n.I >= -16 && n.I < 0 && (e.o.Plain || e.r.P(85)):
			e.tag(byte(n.I + 32))
		case n.I >= 0:
			e.tag(0x20)
			e.varint("varint", uint64(n.I))
		default:
			e.tag(0x21)
			e.varint("varint", uint64(n.I<<1)^uint64(n.I>>63))
		}
	case KF32:
		e.tag(0x22)
		e.b = binary.LittleEndian.AppendUint32(e.b, math.Float32bits(float32(n.F)))
	case KF64:
		e.tag(0x23)
		e.b = binary.LittleEndian.AppendUint64(e.b, math.Float64bits(n.F))
	case KUndef:
		e.tag(0x25)
	case KCanon:
		e.tag(0x39)
	case KTrue:
		e.tag(0x3b)
	case KFalse:
		e.tag(0x3a)
	case KRef:
		k := n.Kids[0]
		if (k.K == KArr && len(k.Kids) < 16 || k.K == KHash && len(k.Kids) < 32) && !e.tgt[k] && !e.o.Plain && e.r.P(60) {
			if k.K == KArr {
				e.tag(0x40 | byte(len(k.Kids)))
			} else {
				e.tag(0x50 | byte(len(k.Kids)/2))
			}
			e.kids(k)
			return
		}
		e.tag(0x28)
		e.item(k)
	case KWeak:
		e.tag(0x30)
		e.item(n.Kids[0])
	case KArr:
		e.tag(0x2b)
		e.varint("count", uint64(len(n.Kids)))
		e.kids(n)
	case KHash:
		e.tag(0x2a)
		e.varint("count", uint64(len(n.Kids)/2))
		e.kids(n)
	case KObj, KFrz:
		t := byte(0x2c)
		if n.K == KFrz {
			t = 0x32
		}
		if off, ok := e.cls[string(n.B)]; ok && e.r.P(e.o.Copies) {
			e.tag(t + 1)
			e.varint("class", uint64(off))
		} else {
			e.tag(t)
			q := e.str(&Node{K: KBin + Kind(e.r.Intn(2)), B: n.B}, true, true)
			if e.b[q] != 0x2f {
				e.cls[string(n.B)] = q + e.base
			}
		}
		if n.K == KFrz {
			e.tag(0x28)
			e.tag(0x2b)
			e.varint("count", 1)
			e.str(n.Kids[0].Kids[0].Kids[0], false, false)
			return
		}
		e.item(n.Kids[0])
	case KRegexp:
		e.tag(0x31)
		e.str(&Node{K: KStr, B: n.B}, false, false)
		e.str(&Node{K: KBin, B: n.M}, false, false)
	case KBack, KAlias:
		off, ok := e.off[n.To]
		if !ok {
			panic("model: reference to an item that was not written")
		}
		if n.K == KBack {
			e.tag(0x29)
		} else {
			e.tag(0x2e)
		}
		e.varint("offset", uint64(off+e.base))
		if e.b[off] < 0x80 {
			e.b[off] |= 0x80
			e.fields = append(e.fields, Field{off, 1, "track"})
		}
	default:
		panic("model: kind")
	}
}

func (e *enc) kids(n *Node) {
	for i, k := range n.Kids {
		if n.K == KHash && i%2 == 0 {
			e.str(k, true, true)
		} else {
			e.item(k)
		}
	}
}

func encodeBody(r *R, o EncOpt, n *Node, base int) ([]byte, []Field) {
	e := &enc{r: r, o: o, base: base, off: map[*Node]int{}, tgt: map[*Node]bool{}, strs: map[string]int{},
		cls: map[string]int{}, conts: map[string]int{}, copyOK: map[*Node]bool{}}
	e.targets(n)
	e.item(n)
	return e.b, e.fields
}

// RandEncOpt picks a way to write a document of the given version.
func RandEncOpt(r *R, version, comp int) EncOpt {
	o := EncOpt{Version: version, Comp: comp, Level: r.Range(-1, 9), HeaderFlags: -1}
	switch r.W(30, 70) {
	case 0:
		o.Plain = true
	case 1:
		o.Pads = r.Pick(0, 0, 5, 20)
		o.Copies = r.Pick(0, 50, 90)
		o.CopyItems = r.Pick(0, 0, 60)
	}
	return o
}

// RandVC picks a version and a compression it allows.
func RandVC(r *R) (version, comp int) {
	version = r.Range(1, 4)
	switch version {
	case 1:
		comp = r.Pick(Raw, Raw, SnappyV1, SnappyInc)
	case 2:
		comp = r.Pick(Raw, Raw, SnappyInc)
	case 3:
		comp = r.Pick(Raw, Raw, SnappyInc, Zlib)
	case 4:
		comp = r.Pick(Raw, Raw, SnappyInc, Zlib, Zstd)
	}
	return
}

// Compress makes the compressed body of a document.
func Compress(comp, level, ulenAdd int, plain []byte) (out []byte, fields []Field) {
	switch comp {
	case SnappyV1:
		return snappy.Encode(nil, plain), nil
	case SnappyInc:
		c := snappy.Encode(nil, plain)
		out = UVarint(uint64(len(c)))
		fields = append(fields, Field{0, len(out), "csize"})
		n := len(out)
		out = append(out, c...)
		_, k := binary.Uvarint(c)
		fields = append(fields, Field{n, k, "usize"})
	case Zlib:
		var buf bytes.Buffer
		w, _ := zlib.NewWriterLevel(&buf, level)
		w.Write(plain)
		w.Close()
		out = UVarint(uint64(len(plain) + ulenAdd))
		n := len(out)
		out = uvarint(out, uint64(buf.Len()))
		fields = append(fields, Field{0, n, "usize"}, Field{n, len(out) - n, "csize"})
		out = append(out, buf.Bytes()...)
	case Zstd:
		c, err := zstd.CompressLevel(nil, plain, 1)
		if err != nil {
			panic(err)
		}
		out = UVarint(uint64(len(c)))
		fields = append(fields, Field{0, len(out), "csize"})
		n := len(out)
		out = append(out, c...)
		fields = append(fields, Field{n, 8, "usize"})
	}
	return out, fields
}

func shift(f []Field, d int) []Field {
	out := make([]Field, 0, len(f))
	for _, x := range f {
		x.Off += d
		out = append(out, x)
	}
	return out
}

// Encode writes a document.
func Encode(r *R, o EncOpt, body *Node) *Doc {
	d := &Doc{Opt: o, Body: body, Header: o.Header}
	var suffix []byte
	var sf []Field
	if o.Version >= 2 {
		switch {
		case o.Header != nil:
			var hb []byte
			ho := o
			hb, sf = encodeBody(r, ho, o.Header, 1)
			suffix = append([]byte{1}, hb...)
			sf = append([]Field{{0, 1, "flags"}}, shift(sf, 1)...)
			for i := 0; i < o.HeaderPads; i++ {
				suffix = append(suffix, 0x3f)
			}
		case o.HeaderFlags >= 0:
			suffix = append([]byte{byte(o.HeaderFlags) &^ 1}, o.SuffixJunk...)
		}
	} else {
		suffix = o.SuffixJunk
	}
	b := []byte("=srl")
	if o.Version >= 3 {
		b = []byte("=\xf3rl")
	}
	b = append(b, byte(o.Version)|byte(o.Comp)<<4)
	d.Fields = append(d.Fields, Field{0, 4, "magic"}, Field{4, 1, "vertype"})
	b = uvarint(b, uint64(len(suffix)))
	d.Fields = append(d.Fields, Field{5, len(b) - 5, "hdrsize"})
	d.HdrStart = len(b)
	d.Fields = append(d.Fields, shift(sf, len(b))...)
	b = append(b, suffix...)
	d.BodyStart = len(b)
	base := 1
	if o.Version == 1 {
		base = len(b)
	}
	d.Plain, d.PFields = encodeBody(r, o, body, base)
	if o.Comp == Raw {
		d.Fields = append(d.Fields, shift(d.PFields, len(b))...)
		b = append(b, d.Plain...)
	} else {
		c, cf := Compress(o.Comp, o.Level, o.ZlibULen, d.Plain)
		d.Fields = append(d.Fields, shift(cf, len(b))...)
		b = append(b, c...)
	}
	d.B = b
	return d
}

// Wrap puts a (possibly changed) uncompressed body back into the document.
func (d *Doc) Wrap(plain []byte) []byte {
	b := append([]byte(nil), d.B[:d.BodyStart]...)
	if d.Opt.Comp == Raw {
		return append(b, plain...)
	}
	c, _ := Compress(d.Opt.Comp, d.Opt.Level, 0, plain)
	return append(b, c...)
}

// RandDoc makes a random well-formed document.
func RandDoc(r *R, size int, mod func(*GenOpt, *EncOpt)) *Doc {
	v, c := RandVC(r)
	g := GenOpt{Version: v, MaxStr: 300 + size*20, Random: r.Pick(0, 30, 100)}
	o := RandEncOpt(r, v, c)
	if mod != nil {
		mod(&g, &o)
		g.Version = o.Version
	}
	if o.Header == nil && o.Version >= 2 && r.P(30) {
		hg := g
		hg.MaxStr = 200
		o.Header = Gen(r, r.Range(1, 1+size/3), hg)
	} else if o.Header == nil && r.P(10) {
		o.HeaderFlags = r.Pick(0, 2, 8)
		o.SuffixJunk = r.Bytes(r.Range(1, 20), true)
		o.SuffixJunk[0] &^= 1 // no user data
	}
	if o.Comp == Zlib && r.P(5) {
		o.ZlibULen = 0
	}
	return Encode(r, o, Gen(r, size, g))
}
