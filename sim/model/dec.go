package model

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/DataDog/zstd"
	"github.com/golang/snappy"
)

// Parsed is a document taken apart by the reference decoder.
type Parsed struct {
	Version   int
	Comp      int
	BodyStart int
	Plain     []byte
	Header    *Node
	Body      *Node
}

type dec struct {
	b     []byte
	base  int // what the first byte of b counts as
	items map[int]*Node
	done  map[int]bool
	copy  int
	n     int
}

var errTrunc = errors.New("reference decoder: truncated")

func (d *dec) fail(f string, a ...interface{}) {
	panic(decErr(fmt.Sprintf("reference decoder: "+f, a...)))
}

type decErr string

func (d *dec) uvarint(p *int) uint64 {
	v, n := binary.Uvarint(d.b[*p:])
	if n <= 0 {
		d.fail("bad varint at %d", *p)
	}
	*p += n
	return v
}

func (d *dec) take(p *int, n uint64) []byte {
	if n > uint64(len(d.b)-*p) {
		d.fail("truncated at %d, want %d", *p, n)
	}
	x := d.b[*p : *p+int(n)]
	*p += int(n)
	return x
}

// offset reads an offset and turns it into a position in b.
func (d *dec) offset(p *int, at int) int {
	v := d.uvarint(p)
	if v < uint64(d.base) || v-uint64(d.base) >= uint64(at) {
		d.fail("offset %d at %d does not point back", v, at)
	}
	return int(v) - d.base
}

func (d *dec) skipPad(p *int) {
	for *p < len(d.b) && d.b[*p]&0x7f == 0x3f {
		*p++
	}
	if *p >= len(d.b) {
		d.fail("truncated at %d", *p)
	}
}

func (d *dec) strAt(p *int, copied bool) *Node {
	d.skipPad(p)
	at := *p
	t := d.b[*p] & 0x7f
	*p++
	switch {
	case t == 0x26 || t == 0x27:
		n := d.uvarint(p)
		x := &Node{K: KBin, B: d.take(p, n)}
		if t == 0x27 {
			x.K = KStr
		}
		return x
	case t >= 0x60:
		return &Node{K: KBin, B: d.take(p, uint64(t&31))}
	case t == 0x2f:
		if copied {
			d.fail("nested COPY at %d", at)
		}
		q := d.offset(p, at)
		return d.strAt(&q, true)
	}
	d.fail("string expected at %d, found %#x", at, t)
	return nil
}

func (d *dec) item(p *int) *Node {
	if d.n++; d.n > 3000000 {
		d.fail("too many items")
	}
	d.skipPad(p)
	at := *p
	t := d.b[*p] & 0x7f
	if t == 0x26 || t == 0x27 || t >= 0x60 {
		n := d.strAt(p, false)
		d.reg(at, n)
		return n
	}
	*p++
	n := &Node{}
	if t != 0x2f && t != 0x2e {
		d.reg(at, n)
	}
	switch {
	case t < 16:
		n.K, n.I = KInt, int64(t)
	case t < 32:
		n.K, n.I = KInt, int64(t)-32
	case t == 0x20:
		n.K, n.I = KInt, int64(d.uvarint(p))
	case t == 0x21:
		v := d.uvarint(p)
		n.K, n.I = KInt, int64(v>>1)^-int64(v&1)
	case t == 0x22:
		n.K, n.F = KF32, float64(math.Float32frombits(binary.LittleEndian.Uint32(d.take(p, 4))))
	case t == 0x23:
		n.K, n.F = KF64, math.Float64frombits(binary.LittleEndian.Uint64(d.take(p, 8)))
	case t == 0x25:
		n.K = KUndef
	case t == 0x39:
		n.K = KCanon
	case t == 0x3a:
		n.K = KFalse
	case t == 0x3b:
		n.K = KTrue
	case t == 0x28:
		n.K = KRef
		n.Kids = []*Node{d.item(p)}
	case t == 0x30:
		n.K = KWeak
		n.Kids = []*Node{d.item(p)}
	case t == 0x2a:
		n.K = KHash
		d.kids(p, n, 2*d.count(p))
	case t == 0x2b:
		n.K = KArr
		d.kids(p, n, d.count(p))
	case t >= 0x40 && t < 0x50:
		n.K = KRef
		n.Kids = []*Node{{K: KArr}}
		d.kids(p, n.Kids[0], uint64(t&15))
	case t >= 0x50 && t < 0x60:
		n.K = KRef
		n.Kids = []*Node{{K: KHash}}
		d.kids(p, n.Kids[0], 2*uint64(t&15))
	case t == 0x2c || t == 0x32:
		n.K = KObj
		n.B = d.strAt(p, false).B
		n.Kids = []*Node{d.item(p)}
	case t == 0x2d || t == 0x33:
		n.K = KObj
		q := d.offset(p, at)
		n.B = d.strAt(&q, true).B
		n.Kids = []*Node{d.item(p)}
	case t == 0x31:
		n.K = KRegexp
		n.B = d.strAt(p, false).B
		n.M = d.strAt(p, false).B
	case t == 0x29 || t == 0x2e:
		q := d.offset(p, at)
		to, ok := d.items[q]
		if !ok {
			d.fail("REFP/ALIAS at %d refers to %d, which is no item", at, q)
		}
		if d.b[q]&0x80 == 0 {
			d.fail("REFP/ALIAS at %d refers to %d, which is not tracked", at, q)
		}
		if t == 0x2e {
			return to
		}
		n.K, n.To = KBack, to
	case t == 0x2f:
		if d.copy > 0 {
			d.fail("nested COPY at %d", at)
		}
		q := d.offset(p, at)
		d.copy++
		saved := d.items
		d.items = map[int]*Node{}
		c := d.item(&q)
		d.items = saved
		d.copy--
		if q > at {
			d.fail("COPY at %d of an item that is not finished", at)
		}
		d.reg(at, c)
		return c
	default:
		d.fail("tag %#x at %d", t, at)
	}
	if t == 0x32 || t == 0x33 {
		n.K = KFrz
	}
	return n
}

func (d *dec) reg(at int, n *Node) { d.items[at] = n }

func (d *dec) count(p *int) uint64 {
	v := d.uvarint(p)
	if v > uint64(len(d.b)) {
		d.fail("count %d", v)
	}
	return v
}

func (d *dec) kids(p *int, n *Node, c uint64) {
	for i := uint64(0); i < c; i++ {
		if n.K == KHash && i%2 == 0 {
			d.skipPad(p)
			if t := d.b[*p] & 0x7f; t <= 0x21 {
				// integer keys are not in the specification, but the encoder
				// writes them for maps with such keys
				n.Kids = append(n.Kids, d.item(p))
				continue
			}
			n.Kids = append(n.Kids, d.strAt(p, false))
		} else {
			n.Kids = append(n.Kids, d.item(p))
		}
	}
}

func decodeBody(b []byte, start, base int) (n *Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(decErr); ok {
				n, err = nil, errors.New(string(e))
				return
			}
			panic(r)
		}
	}()
	d := &dec{b: b, base: base, items: map[int]*Node{}}
	p := start
	n = d.item(&p)
	for p < len(b) && b[p]&0x7f == 0x3f { // padding (of an empty merged document)
		p++
	}
	if p != len(b) {
		return nil, fmt.Errorf("reference decoder: %d bytes behind the body", len(b)-p)
	}
	return n, nil
}

// Parse reads a document strictly.
func Parse(b []byte) (*Parsed, error) {
	if len(b) < 7 {
		return nil, errTrunc
	}
	p := &Parsed{Version: int(b[4] & 15), Comp: int(b[4] >> 4)}
	switch string(b[:4]) {
	case "=srl":
		if p.Version < 1 || p.Version > 2 {
			return nil, fmt.Errorf("reference decoder: version %d with the old magic", p.Version)
		}
	case "=\xf3rl":
		if p.Version < 3 || p.Version > 4 {
			return nil, fmt.Errorf("reference decoder: version %d with the new magic", p.Version)
		}
	default:
		return nil, errors.New("reference decoder: bad magic")
	}
	ln, n := binary.Uvarint(b[5:])
	if n <= 0 || ln > uint64(len(b)-5-n) {
		return nil, errTrunc
	}
	p.BodyStart = 5 + n + int(ln)
	if p.Version >= 2 && ln > 0 && b[5+n]&1 == 1 {
		h, err := decodeBody(b[5+n+1:p.BodyStart], 0, 1)
		if err != nil {
			return nil, fmt.Errorf("header: %v", err)
		}
		p.Header = h
	}
	body := b[p.BodyStart:]
	var err error
	switch p.Comp {
	case Raw:
	case SnappyV1:
		if p.Version != 1 {
			return nil, errors.New("reference decoder: non-incremental snappy")
		}
		body, err = snappy.Decode(nil, body)
	case SnappyInc, Zstd, Zlib:
		ulen := uint64(0)
		if p.Comp == Zlib {
			u, n := binary.Uvarint(body)
			if n <= 0 {
				return nil, errTrunc
			}
			ulen = u
			body = body[n:]
		}
		l, n := binary.Uvarint(body)
		if n <= 0 || l != uint64(len(body)-n) {
			return nil, errors.New("reference decoder: compressed length")
		}
		body = body[n:]
		switch p.Comp {
		case SnappyInc:
			body, err = snappy.Decode(nil, body)
		case Zstd:
			if p.Version < 4 {
				return nil, errors.New("reference decoder: zstd needs version 4")
			}
			body, err = zstd.Decompress(make([]byte, 1), body) // it panics on frames that claim to be empty and have no destination
		case Zlib:
			if p.Version < 3 {
				return nil, errors.New("reference decoder: zlib needs version 3")
			}
			rd := bytes.NewReader(body)
			var zr io.ReadCloser
			if zr, err = zlib.NewReader(rd); err == nil {
				if body, err = io.ReadAll(zr); err == nil && uint64(len(body)) != ulen {
					err = errors.New("reference decoder: uncompressed length")
				}
				if err == nil && rd.Len() > 0 {
					err = errors.New("reference decoder: bytes behind the zlib stream")
				}
			}
		}
	default:
		return nil, errors.New("reference decoder: document type")
	}
	if err != nil {
		return nil, err
	}
	p.Plain = body
	if p.Version == 1 {
		full := append(append([]byte(nil), b[:p.BodyStart]...), body...)
		p.Body, err = decodeBody(full, p.BodyStart, 0)
	} else {
		p.Body, err = decodeBody(body, 0, 1)
	}
	return p, err
}

// CanonDoc is the canonical form of what a document says, or its error.
func CanonDoc(b []byte, opt CanonOpt) string {
	p, err := Parse(b)
	if err != nil {
		return "invalid: " + err.Error()
	}
	s := Canon(p.Body, opt)
	if p.Header != nil {
		s = "H" + Canon(p.Header, opt) + "B" + s
	}
	return s
}
