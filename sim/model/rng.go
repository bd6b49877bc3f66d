// Package model is the reference side of the simulator: generators of values
// and documents, a reference encoder and a strict reference decoder written
// from the specification, and canonical forms to compare results with.
package model

// R is a small deterministic generator (splitmix64).
type R struct {
	s     uint64
	Scale int // what is large in half of what is being generated
	Words int // set of words shared by what is being generated
}

func NewR(seed uint64) *R { return &R{s: seed} }

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Intn returns a number in [0,n); 0 if n <= 0.
func (r *R) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *R) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true in pct percent of the cases.
func (r *R) P(pct int) bool { return int(r.U64()%100) < pct }

// Pick returns one of the numbers.
func (r *R) Pick(v ...int) int { return v[r.Intn(len(v))] }

// W picks an index by weight.
func (r *R) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Bytes returns n bytes, compressible or not.
func (r *R) Bytes(n int, random bool) []byte {
	b := make([]byte, n)
	if random {
		for i := 0; i < n; i += 8 {
			x := r.U64()
			for j := i; j < n && j < i+8; j++ {
				b[j] = byte(x)
				x >>= 8
			}
		}
		return b
	}
	p := int(r.U64()%26) + 3
	o := byte(r.U64() % 26)
	for i := range b {
		b[i] = 'a' + (byte(i%p)+o)%26
	}
	return b
}

// Len returns a length with a taste for the places where encodings change.
func (r *R) Len(max int) int {
	var n int
	switch r.W(40, 30, 12, 8, 6, 2, 2) {
	case 0:
		n = r.Intn(8)
	case 1:
		n = r.Intn(40)
	case 2:
		n = r.Pick(0, 1, 15, 16, 30, 31, 32, 33)
	case 3:
		n = r.Pick(126, 127, 128, 129)
	case 4:
		n = r.Intn(600)
	case 5:
		n = r.Pick(16382, 16383, 16384, 4000)
	case 6:
		n = r.Range(1000, 70000)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

// Int returns an integer with a taste for boundaries.
func (r *R) Int() int64 {
	switch r.W(30, 20, 20, 15, 15) {
	case 0:
		return int64(r.Range(-18, 18))
	case 1:
		return int64(r.Range(-200, 200))
	case 2:
		b := int64(1) << uint(r.Intn(63))
		return b + int64(r.Range(-1, 1))
	case 3:
		b := int64(1) << uint(r.Intn(63))
		return -b + int64(r.Range(-1, 1))
	}
	return int64(r.U64() >> uint(r.Intn(60)))
}
