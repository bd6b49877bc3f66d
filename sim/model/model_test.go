package model

import "testing"

func TestRoundTrip(t *testing.T) {
	kinds := map[Kind]int{}
	for i := 0; i < 20000; i++ {
		r := NewR(uint64(i))
		d := RandDoc(r, r.Range(1, 80), nil)
		p, err := Parse(d.B)
		if err != nil {
			t.Fatalf("%d: %v\n%x\n%s", i, err, d.B, Canon(d.Body, CanonOpt{KeyTypes: true}))
		}
		a, b := Canon(d.Body, CanonOpt{KeyTypes: true}), Canon(p.Body, CanonOpt{KeyTypes: true})
		if a != b {
			t.Fatalf("%d: differs\n%s\n%s", i, a, b)
		}
		Repeat(r, d.Body, 50)
		o := RandEncOpt(r, d.Opt.Version, d.Opt.Comp)
		o.CopyItems = 90
		q := Encode(r, o, d.Body)
		if p, err := Parse(q.B); err != nil {
			t.Fatal(i, err)
		} else if a, b := Canon(d.Body, CanonOpt{KeyTypes: true}), Canon(p.Body, CanonOpt{KeyTypes: true}); a != b {
			t.Fatalf("%d: differs after Repeat\n%s\n%s", i, a, b)
		}
		if d.Header != nil {
			if a, b := Canon(d.Header, CanonOpt{}), Canon(p.Header, CanonOpt{}); a != b {
				t.Fatalf("%d: header differs\n%s\n%s", i, a, b)
			}
		}
		var walk func(n *Node)
		walk = func(n *Node) {
			kinds[n.K]++
			for _, k := range n.Kids {
				walk(k)
			}
		}
		walk(d.Body)
	}
	t.Log(kinds)
}
