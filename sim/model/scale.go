package model

import (
	"fmt"
	"strings"
)

// What is large.
const (
	ScStr   = iota + 1 // one string or binary data
	ScInts             // an array of numbers
	ScStrs             // an array of strings
	ScKeys             // a hash
	ScDeep             // nesting
	ScRefs             // shared items
	ScFrozn            // frozen objects
)

func bigText(r *R, n int) string {
	n = n*64 - r.Intn(4)
	if r.P(30) {
		return string(r.Bytes(n, true))
	}
	return strings.Repeat("0123456789abcdef", n/16+1)[:n]
}

// items makes distinct strings.
func items(r *R) func(i int) string {
	switch r.Intn(6) {
	case 0:
		return func(i int) string { return fmt.Sprint(i) }
	case 1:
		return func(i int) string { return fmt.Sprintf("%08x", i*0x9e3779) }
	case 2:
		return func(i int) string { return fmt.Sprintf("item number %d, which is not short", i) }
	}
	return func(i int) string { return fmt.Sprintf("%c%d", 'a'+i%26, i) }
}

// ScaleValue makes a large value.
func ScaleValue(r *R, what, n int) interface{} {
	item := items(r)
	switch what {
	case ScStr:
		s := bigText(r, n)
		switch r.Intn(4) {
		case 0:
			return []byte(s)
		case 1:
			return &Rec{A: n, B: s, D: map[string]interface{}{s[:20]: 1}}
		case 2:
			return map[string]string{s[:50]: s, "x": s[:50]}
		}
		return s
	case ScInts:
		switch r.Intn(3) {
		case 0:
			a := make([]int, n)
			for i := range a {
				a[i] = i * 3
			}
			return a
		case 1:
			return make([]bool, n)
		}
		a := make([]interface{}, n)
		for i := range a {
			a[i] = i
		}
		return a
	case ScStrs:
		k := r.Pick(n, n, 20)
		switch r.Intn(3) {
		case 0:
			a := make([]string, n)
			for i := range a {
				a[i] = item((n - i) % k)
			}
			return a
		case 1:
			a := make([][]byte, n)
			for i := range a {
				a[i] = []byte(item(i % k))
			}
			return a
		}
		a := make([]interface{}, n)
		for i := range a {
			a[i] = item(i % k)
		}
		return a
	case ScKeys:
		switch r.Intn(4) {
		case 0:
			m := map[string]int{}
			for i := 0; i < n; i++ {
				m[item(i)] = i
			}
			return m
		case 1:
			m := map[string]string{}
			for i := 0; i < n; i++ {
				m[item(i)] = item(i + n/2)
			}
			return m
		case 2:
			m := map[string]*Rec{}
			for i := 0; i < n/4; i++ {
				m[item(i)] = &Rec{A: i, B: item(i)}
			}
			return m
		}
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[item(i)] = item(n - i)
		}
		return m
	case ScDeep:
		if n > 5000 {
			n = 5000
		}
		switch r.Intn(3) {
		case 0:
			var v interface{} = 1
			for i := 0; i < n; i++ {
				v = []interface{}{v}
			}
			return v
		case 1:
			var v interface{} = "end"
			for i := 0; i < n; i++ {
				v = map[string]interface{}{"k": v}
			}
			return v
		}
		p := &Rec{A: 1}
		for i := 0; i < n/2; i++ {
			p = &Rec{A: i, E: p}
		}
		return p
	case ScFrozn:
		if r.P(50) {
			a := make([]CBV, n/4)
			for i := range a {
				a[i].Data = []byte(item(i))
			}
			return a
		}
		var a []interface{}
		for i := 0; i < n/4; i++ {
			a = append(a, &CBV{[]byte(item(i))}, CBS(item(i)))
		}
		return a
	}
	var a []interface{}
	var ps []*Rec
	for i := 0; i < n/4; i++ {
		p := &Rec{A: i}
		ps = append(ps, p)
		a = append(a, p, ps[r.Intn(len(ps))])
	}
	if r.P(50) {
		return append(ps, ps...)
	}
	return a
}

// ScaleNode makes a large item of a document.
func ScaleNode(r *R, what, n int, o GenOpt) *Node {
	kind := func() Kind {
		if r.P(50) {
			return KStr
		}
		return KBin
	}
	item := items(r)
	arr := &Node{K: KArr}
	add := func(k *Node) { arr.Kids = append(arr.Kids, k) }
	switch what {
	case ScStr:
		return &Node{K: kind(), B: []byte(bigText(r, n))}
	case ScInts:
		for i := 0; i < n; i++ {
			add(&Node{K: KInt, I: int64(i * 3)})
		}
		return arr
	case ScStrs:
		k, m := kind(), r.Pick(n, n, 20)
		for i := 0; i < n; i++ {
			add(&Node{K: k, B: []byte(item(i % m))})
		}
		return arr
	case ScKeys:
		arr.K = KHash
		k := kind()
		for i := 0; i < n; i++ {
			add(&Node{K: k, B: []byte(item(i))})
			add(&Node{K: KInt, I: int64(i)})
		}
		return arr
	case ScDeep:
		if n > 5000 {
			n = 5000
		}
		v := &Node{K: KInt, I: 1}
		how := r.Intn(4)
		for i := 0; i < n; i++ {
			switch {
			case how == 0 || how == 3 && i%3 == 0:
				v = &Node{K: KRef, Kids: []*Node{v}}
			case how == 1 || how == 3 && i%3 == 1:
				v = &Node{K: KArr, Kids: []*Node{v}}
			default:
				v = &Node{K: KHash, Kids: []*Node{{K: KBin, B: []byte("k")}, v}}
			}
		}
		return v
	case ScFrozn:
		if !o.NoFrz && o.Version > 1 {
			for i := 0; i < n/4; i++ {
				add(&Node{K: KFrz, B: []byte(CBNames[i%len(CBNames)]), Kids: []*Node{{K: KRef, Kids: []*Node{{K: KArr, Kids: []*Node{{K: KBin, B: []byte(item(i))}}}}}}})
			}
			return arr
		}
		for i := 0; i < n/4; i++ {
			add(&Node{K: KObj, B: []byte(item(i % 40)), Kids: []*Node{{K: KRef, Kids: []*Node{{K: KArr, Kids: []*Node{{K: KBin, B: []byte(item(i))}}}}}}})
		}
		return arr
	}
	var ps []*Node
	for i := 0; i < n/4; i++ {
		p := &Node{K: KArr, Kids: []*Node{{K: KInt, I: int64(i)}}}
		ps = append(ps, p)
		add(&Node{K: KRef, Kids: []*Node{p}})
		if !o.NoBack {
			add(&Node{K: KBack, To: ps[r.Intn(len(ps))]})
		}
	}
	return arr
}

// ScaleIn makes a part of n large without a change of its shape.
func ScaleIn(r *R, n *Node, what, size int) {
	item := items(r)
	var leaves, arrs, hashes []*Node
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.K == KFrz {
			return
		}
		switch {
		case n.K == KStr || n.K == KBin:
			leaves = append(leaves, n)
		case n.K == KArr && len(n.Kids) > 0 && clone(n.Kids[0], 12) != nil:
			arrs = append(arrs, n)
		case n.K == KHash && len(n.Kids) > 0 && clone(n.Kids[1], 12) != nil:
			hashes = append(hashes, n)
		}
		for i, k := range n.Kids {
			if n.K != KHash || i%2 == 1 {
				walk(k)
			}
		}
	}
	walk(n)
	switch {
	case what >= ScInts && what != ScKeys && len(arrs) > 0:
		a := arrs[r.Intn(len(arrs))]
		for i := 0; len(a.Kids) < size/(1+Count(a.Kids[0])/2); i++ {
			c := clone(a.Kids[0], 12)
			if c.K == KInt && c.I >= 0 {
				c.I = int64(i % 100)
			} else if c.K == KStr || c.K == KBin {
				c.B = []byte(item(i))
			}
			a.Kids = append(a.Kids, c)
		}
	case what == ScKeys && len(hashes) > 0:
		a := hashes[r.Intn(len(hashes))]
		k := a.Kids[1]
		for i := 0; len(a.Kids) < 2*size/(1+Count(k)/2); i++ {
			a.Kids = append(a.Kids, &Node{K: a.Kids[0].K, B: []byte("_" + item(i))}, clone(k, 12))
		}
	case len(leaves) > 0:
		l := leaves[r.Intn(len(leaves))]
		l.B = []byte(bigText(r, size))
	}
}
