package model

import "encoding/binary"

// Fault is one storage or transmission fault.
type Fault struct {
	K   string `json:"k"`
	Off int    `json:"o"`
	Len int    `json:"n,omitempty"`
	V   uint64 `json:"v,omitempty"`
}

// Runs are the units of long runs: what nests, and what does not.
var Runs = []string{"\x28", "\x28", "\x2b\x01", "\x41", "\x42", "\x51\x61a", "\x51\x41", "\x2c\x61a", "\x2c\x61a\x41", "\x2c\x61a\x28\x51\x61b", "\x30", "\x30\x28", "\xa8", "\x2a\x01\x61b",
	"\x3f", "\x00", "\xff", "\x80", "\x32\x61a\x28\x41", "\x2d\x01", "\x29\x01", "\x2f\x01", "\x31\x61a\x61"}

// Apply damages a copy of b.
func Apply(b []byte, faults []Fault) []byte {
	b = append([]byte(nil), b...)
	for _, f := range faults {
		b = apply1(b, f)
	}
	return b
}

// ApplyWithin damages the part [lo,hi) of a copy of b, and nothing else.
func ApplyWithin(b []byte, lo, hi int, f Fault) []byte {
	if hi > len(b) {
		hi = len(b)
	}
	if lo > hi {
		lo = hi
	}
	f.Off -= lo
	if f.K == "move" {
		if f.V >= uint64(lo) {
			f.V -= uint64(lo)
		}
	}
	part := apply1(append([]byte(nil), b[lo:hi]...), f)
	return append(append(append([]byte(nil), b[:lo]...), part...), b[hi:]...)
}

func apply1(b []byte, f Fault) []byte {
	if len(b) == 0 {
		return b
	}
	off := f.Off
	if off < 0 {
		off = 0
	}
	if off > len(b) {
		off %= len(b) + 1
	}
	end := off + f.Len
	if f.Len < 0 || end > len(b) {
		end = len(b)
	}
	switch f.K {
	case "trunc":
		return b[:off]
	case "flip":
		if off < len(b) {
			b[off] ^= 1 << (f.V & 7)
		}
	case "set":
		if off < len(b) {
			b[off] = byte(f.V)
		}
	case "fill":
		for i := off; i < end; i++ {
			b[i] = byte(f.V)
		}
	case "noise":
		copy(b[off:end], NewR(f.V).Bytes(end-off, true))
	case "lose":
		return append(b[:off:off], b[end:]...)
	case "dup":
		return append(append(append([]byte(nil), b[:end]...), b[off:end]...), b[end:]...)
	case "move":
		x := append([]byte(nil), b[off:end]...)
		rest := append(append([]byte(nil), b[:off]...), b[end:]...)
		to := int(f.V % uint64(len(rest)+1))
		return append(append(append([]byte(nil), rest[:to]...), x...), rest[to:]...)
	case "insert":
		n := f.Len & 0xffff
		return append(append(append([]byte(nil), b[:off]...), NewR(f.V).Bytes(n, true)...), b[off:]...)
	case "varint":
		return append(append(append([]byte(nil), b[:off]...), uvarint(nil, f.V)...), b[end:]...)
	case "longvarint": // the same number, written with needless bytes
		v, n := binary.Uvarint(b[off:])
		if n <= 0 {
			return b
		}
		x := uvarint(nil, v)
		for len(x) < int(f.V%4)+2 {
			x[len(x)-1] |= 0x80
			x = append(x, 0)
		}
		return append(append(append([]byte(nil), b[:off]...), x...), b[off+n:]...)
	case "torn": // the tail is what another, older document had there
		r := NewR(f.V)
		o := RandDoc(r, r.Range(1, 30), nil).B
		x := append([]byte(nil), b[:off]...)
		if off < len(o) {
			x = append(x, o[off:]...)
		}
		return x
	case "run": // a long run of the same few bytes
		u := Runs[int(f.V%uint64(len(Runs)))]
		x := make([]byte, 0, len(b)+f.Len*len(u))
		x = append(x, b[:off]...)
		for i := 0; i < f.Len && len(x) < 16<<20; i++ {
			x = append(x, u...)
		}
		return append(x, b[off:]...)
	case "nest": // nested containers that all claim the same bytes
		u := [][]byte{{0x2b}, {0x2a}, {0x28, 0x2b}, {0x28, 0x2a}, {0x2c, 0x61, 'C', 0x2b}}[f.V%5]
		n := 0
		for i := 0; i < 2; i++ { // the length of the count depends on the count
			v := u
			v = binary.AppendUvarint(v[:len(v):len(v)], uint64(n))
			if f.V%5 == 1 || f.V%5 == 3 {
				v = append(v, 0x61, 'a')
			}
			if i == 1 {
				u = v
			}
			n = (f.Len*len(v) + len(b) - off) / int(2+f.V>>8%30)
		}
		x := append([]byte(nil), b[:off]...)
		for i := 0; i < f.Len && len(x) < 1<<20; i++ {
			x = append(x, u...)
		}
		return append(x, b[off:]...)
	case "ladder": // containers that copy or refer to the one before several times
		r := NewR(f.V)
		x := append([]byte(nil), b[:off]...)
		base := int(f.V%4096) - 2048 // of the offsets
		k := r.Range(2, 8)
		open := byte(r.Pick(0x40, 0x40, 0x40, 0x50, 0x00)) // ARRAYREF, HASHREF or ARRAY
		tag := byte(r.Pick(0x2f, 0x2f, 0x2f, 0x29, 0x2e))  // COPY, REFP or ALIAS
		self := r.P(25)                                    // all refer to the first, which is around them
		x = binary.AppendUvarint(append(x, 0x2b), uint64(f.Len))
		at, first := 0, len(x)
		for i := 0; i < f.Len; i++ {
			prev := at
			at = len(x)
			if self {
				prev = first
			}
			if open == 0 {
				x = append(x, 0x2b, byte(k))
			} else {
				x = append(x, open|byte(k))
			}
			if tag != 0x2f {
				x[at] |= 0x80
			}
			for j := 0; j < k; j++ {
				if open == 0x50 {
					x = append(x, 0x61, byte('a'+j))
				}
				if i == 0 && !self {
					x = append(x, byte(j))
				} else {
					x = binary.AppendUvarint(append(x, tag), uint64(prev-base))
				}
			}
		}
		return append(x, b[off:]...)
	case "append":
		return append(b, NewR(f.V).Bytes(f.Len&0xffff, true)...)
	}
	return b
}

// interesting numbers for damaged lengths, counts and offsets
func (r *R) evil(n int) uint64 {
	switch r.Intn(14) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return uint64(n)
	case 3:
		return uint64(n + 1)
	case 4:
		return uint64(r.Intn(n + 2))
	case 5:
		return 1<<31 - 1
	case 6:
		return 1 << 31
	case 7:
		return 1<<32 - 1
	case 8:
		return 1 << 63
	case 9:
		return 1<<63 - uint64(r.Intn(40))
	case 10:
		return ^uint64(0) - uint64(r.Intn(40))
	case 11:
		return uint64(1) << uint(r.Intn(64))
	case 12:
		return uint64(r.Intn(1 << 28))
	}
	return r.U64() >> uint(r.Intn(60))
}

// RandFault makes a fault within [lo,hi) of a document of n bytes; fields are
// places of interest.
func RandFault(r *R, lo, hi int, fields []Field) Fault {
	n := hi - lo
	if n <= 0 {
		return Fault{K: "flip", Off: lo, V: uint64(r.Intn(8))}
	}
	var in []Field
	if len(fields) > 0 && r.P(55) {
		for _, f := range fields {
			if f.Off >= lo && f.Off+f.Len <= hi {
				in = append(in, f)
			}
		}
	}
	if len(in) > 0 {
		f := in[r.Intn(len(in))]
		switch f.Kind {
		case "track":
			return Fault{K: "flip", Off: f.Off, V: uint64(r.Pick(7, 7, 7, r.Intn(8)))}
		case "offset", "class": // of another item
			if t := in[r.Intn(len(in))]; r.P(40) && t.Kind != f.Kind {
				return Fault{K: "varint", Off: f.Off, Len: f.Len, V: uint64(t.Off - r.Pick(lo, lo-1, -1))}
			}
		case "tag", "magic", "flags":
			off := f.Off + r.Intn(f.Len)
			if r.P(50) {
				return Fault{K: "flip", Off: off, V: uint64(r.Intn(8))}
			}
			return Fault{K: "set", Off: off, V: uint64(r.Intn(256))}
		case "vertype":
			return Fault{K: "set", Off: f.Off, V: uint64(r.Intn(6)<<4 | r.Intn(7))}
		}
		if r.P(10) {
			return Fault{K: "longvarint", Off: f.Off, Len: f.Len, V: uint64(r.Intn(9))}
		}
		return Fault{K: "varint", Off: f.Off, Len: f.Len, V: r.evil(hi)}
	}
	off := lo + r.Intn(n)
	ln := 1 + r.Intn(8)
	if r.P(30) {
		ln = 1 + r.Intn(n)
	}
	if off+ln > hi {
		ln = hi - off
	}
	switch r.W(25, 15, 10, 10, 12, 8, 8, 6, 6) {
	case 0:
		return Fault{K: "flip", Off: off, V: uint64(r.Intn(8))}
	case 1:
		return Fault{K: "set", Off: off, V: uint64(r.Intn(256))}
	case 2:
		return Fault{K: "fill", Off: off, Len: ln, V: uint64(r.Pick(0, 255, 0x2a, 0x2b, 0x28, 0x2f, 0x50, 0x7f))}
	case 3:
		return Fault{K: "noise", Off: off, Len: ln, V: r.U64()}
	case 4:
		return Fault{K: "lose", Off: off, Len: ln}
	case 5:
		return Fault{K: "dup", Off: off, Len: ln}
	case 6:
		return Fault{K: "move", Off: off, Len: ln, V: uint64(lo + r.Intn(n))}
	case 7:
		return Fault{K: "insert", Off: off, Len: 1 + r.Intn(20), V: r.U64()}
	}
	return Fault{K: "varint", Off: off, Len: 1 + r.Intn(2), V: r.evil(hi)}
}

// WireFaults makes faults for the document as it is stored.
func WireFaults(r *R, d *Doc, n int) []Fault {
	var fs []Fault
	for i := 0; i < n; i++ {
		switch r.W(70, 15, 8, 7) {
		case 0:
			lo := 0
			switch r.Intn(4) {
			case 0:
				lo = d.BodyStart
			case 1:
				lo = 4
			}
			fs = append(fs, RandFault(r, lo, len(d.B), d.Fields))
		case 1:
			fs = append(fs, Fault{K: "trunc", Off: r.Intn(len(d.B) + 1)})
		case 2:
			fs = append(fs, Fault{K: "torn", Off: r.Intn(len(d.B) + 1), V: r.U64()})
		case 3:
			fs = append(fs, Fault{K: "append", Off: 0, Len: 1 + r.Intn(40), V: r.U64()})
		}
	}
	return fs
}

// BodyFaults makes faults for the uncompressed body.
func BodyFaults(r *R, d *Doc, n int) []Fault {
	var fs []Fault
	for i := 0; i < n; i++ {
		if r.P(12) {
			fs = append(fs, Fault{K: "trunc", Off: r.Intn(len(d.Plain) + 1)})
		} else {
			fs = append(fs, RandFault(r, 0, len(d.Plain), d.PFields))
		}
	}
	return fs
}
