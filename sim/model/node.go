package model

import (
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Kind of a document item.
type Kind uint8

const (
	KInt Kind = iota
	KF32
	KF64
	KUndef
	KCanon
	KBin
	KStr
	KRef
	KWeak
	KHash
	KArr
	KObj
	KFrz
	KRegexp
	KTrue
	KFalse
	KBack  // REFP: a reference to an earlier item
	KAlias // ALIAS: an earlier item again
)

// Node is an item of a document. Hash keys are KStr or KBin nodes.
type Node struct {
	K    Kind
	I    int64
	F    float64
	B    []byte  // string data, class name, frozen data, regexp pattern
	M    []byte  // regexp modifiers
	Kids []*Node // elements; keys and values alternately
	To   *Node   // KBack, KAlias
}

func str(b string) *Node { return &Node{K: KStr, B: []byte(b)} }

// Canon options.
type CanonOpt struct {
	KeyTypes bool // tell STR_UTF8 and BINARY keys apart
	Ident    bool // tell which item a REFP or ALIAS refers to
	Max      int  // give up beyond this many items
}

type canon struct {
	sb    strings.Builder
	opt   CanonOpt
	n     int
	over  bool
	stack []*Node
	ids   map[*Node]int
}

// Canon renders the value of a node; references are unfolded.
func Canon(n *Node, opt CanonOpt) string {
	c := &canon{opt: opt}
	if c.opt.Max == 0 {
		c.opt.Max = 400000
	}
	if opt.Ident {
		c.ids = map[*Node]int{}
		c.number(n)
	}
	c.node(n)
	if c.over {
		return "toobig"
	}
	return c.sb.String()
}

// number gives the items of a document their position in it.
func (c *canon) number(n *Node) {
	if _, ok := c.ids[n]; ok {
		return
	}
	c.ids[n] = len(c.ids) + 1
	for _, k := range n.Kids {
		c.number(k)
	}
}

func blob(sb *strings.Builder, b []byte) {
	if len(b) <= 40 {
		sb.WriteString(strconv.Quote(string(b)))
		return
	}
	h := fnv.New64a()
	h.Write(b)
	fmt.Fprintf(sb, "%d#%016x", len(b), h.Sum64())
}

func (c *canon) node(n *Node) {
	if c.over {
		return
	}
	c.n++
	if c.n > c.opt.Max || c.sb.Len() > 8<<20 {
		c.over = true
		return
	}
	w := &c.sb
	switch n.K {
	case KInt:
		w.WriteString(strconv.FormatInt(n.I, 10))
	case KF32:
		fmt.Fprintf(w, "f%08x", math.Float32bits(float32(n.F)))
	case KF64:
		fmt.Fprintf(w, "d%016x", math.Float64bits(n.F))
	case KUndef:
		w.WriteString("u")
	case KCanon:
		w.WriteString("U")
	case KTrue:
		w.WriteString("T")
	case KFalse:
		w.WriteString("F")
	case KBin:
		w.WriteString("b")
		blob(w, n.B)
	case KStr:
		w.WriteString("s")
		blob(w, n.B)
	case KRegexp:
		w.WriteString("r")
		blob(w, n.B)
		blob(w, n.M)
	case KRef, KWeak, KObj, KArr, KHash:
		for i, x := range c.stack {
			if x == n {
				fmt.Fprintf(w, "^%d", len(c.stack)-i)
				return
			}
		}
		c.stack = append(c.stack, n)
		c.container(n)
		c.stack = c.stack[:len(c.stack)-1]
	case KFrz:
		w.WriteString("z")
		blob(w, n.B)
		w.WriteString("(")
		c.node(n.Kids[0])
		w.WriteString(")")
	case KBack:
		w.WriteString("&(")
		c.node(n.To)
		w.WriteString(")")
		if c.ids != nil {
			fmt.Fprintf(w, "@%d", c.ids[n.To])
		}
	case KAlias:
		c.node(n.To)
		if c.ids != nil {
			fmt.Fprintf(w, "@%d", c.ids[n.To])
		}
	}
}

func (c *canon) container(n *Node) {
	w := &c.sb
	switch n.K {
	case KRef:
		w.WriteString("&(")
		c.node(n.Kids[0])
		w.WriteString(")")
	case KWeak:
		w.WriteString("w(")
		c.node(n.Kids[0])
		w.WriteString(")")
	case KObj:
		w.WriteString("o")
		blob(w, n.B)
		w.WriteString("(")
		c.node(n.Kids[0])
		w.WriteString(")")
	case KArr:
		w.WriteString("[")
		for i, k := range n.Kids {
			if i > 0 {
				w.WriteString(",")
			}
			c.node(k)
		}
		w.WriteString("]")
	case KHash:
		type kv struct {
			k string
			v *Node
		}
		var kvs []kv
		for i := 0; i+1 < len(n.Kids); i += 2 {
			k := string(n.Kids[i].B)
			if n.Kids[i].K == KInt {
				k = strconv.FormatInt(n.Kids[i].I, 10)
			}
			if c.opt.KeyTypes {
				k = "sb"[n.Kids[i].K&1:][:1] + k
			}
			kvs = append(kvs, kv{k, n.Kids[i+1]})
		}
		sort.SliceStable(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		w.WriteString("{")
		for i, e := range kvs {
			if i > 0 {
				w.WriteString(",")
			}
			blob(w, []byte(e.k))
			w.WriteString("=")
			c.node(e.v)
		}
		w.WriteString("}")
	}
}

// Count returns the number of nodes (references not followed).
func Count(n *Node) int {
	t := 1
	for _, k := range n.Kids {
		t += Count(k)
	}
	return t
}

// GenOpt steers the generator.
type GenOpt struct {
	Version  int
	NoFrz    bool // no frozen objects
	NoRegexp bool
	NoBack   bool // no REFP or ALIAS
	NoAlias  bool
	MaxStr   int
	Depth    int
	Vocab    [][]byte // keys and classes to draw from
	Words    [][]byte // preferred words
	FrzCls   []string // class names of frozen objects
	FrzW     int      // weight of frozen objects
	Random   int      // percentage of strings with incompressible content
}

type gen struct {
	r     *R
	o     GenOpt
	left  int
	prior []*Node // completed items that references may point to
	refs  bool    // many references, most of them to strings that occur repeatedly
	texts []*Node
}

// Gen makes a random node of at most about size items.
func Gen(r *R, size int, o GenOpt) *Node {
	if o.MaxStr == 0 {
		o.MaxStr = 70000
	}
	if o.Depth == 0 {
		o.Depth = 9
	}
	if o.Vocab == nil {
		o.Vocab = Vocab(r, r.Range(2, 8))
		if len(o.Words) > 0 {
			o.Vocab = distinct(o.Words, o.Vocab[:r.Intn(3)])
		}
	}
	g := &gen{r: r, o: o, left: size, refs: r.P(10)}
	return g.item(0)
}

// earlier picks an item to refer to.
func (g *gen) earlier() *Node {
	if g.refs && len(g.texts) > 0 && g.r.P(60) {
		return g.texts[g.r.Intn(len(g.texts))]
	}
	return g.prior[g.r.Intn(len(g.prior))]
}

// distinct joins lists of words.
func distinct(ls ...[][]byte) (res [][]byte) {
	seen := map[string]bool{}
	for _, l := range ls {
		for _, w := range l {
			if !seen[string(w)] {
				seen[string(w)] = true
				res = append(res, w)
			}
		}
	}
	return res
}

// Vocab makes a set of distinct short strings.
func Vocab(r *R, n int) [][]byte {
	seen := map[string]bool{}
	var v [][]byte
	for len(v) < n {
		var b []byte
		switch r.W(60, 25, 10, 5) {
		case 0:
			b = []byte(fmt.Sprintf("k%d", r.Intn(12)))
		case 1:
			b = r.Bytes(r.Range(1, 14), false)
		case 2:
			b = r.Bytes(r.Pick(0, 31, 32, 127, 128), false)
		case 3:
			b = r.Bytes(r.Intn(20), true)
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			v = append(v, b)
		}
	}
	return v
}

func (g *gen) text(k Kind) *Node {
	r := g.r
	if r.P(30) || g.refs && r.P(60) {
		return &Node{K: k, B: g.o.Vocab[r.Intn(len(g.o.Vocab))]}
	}
	return &Node{K: k, B: r.Bytes(r.Len(g.o.MaxStr), r.P(g.o.Random))}
}

func (g *gen) class() []byte {
	if g.r.P(60) {
		return []byte([]string{"Foo", "Bar::Baz", "main", "S"}[g.r.Intn(4)])
	}
	return g.o.Vocab[g.r.Intn(len(g.o.Vocab))]
}

func (g *gen) key(seen map[string]bool) *Node {
	for i := 0; i < 20; i++ {
		k := KStr
		if g.r.P(40) {
			k = KBin
		}
		b := g.o.Vocab[g.r.Intn(len(g.o.Vocab))]
		if i > 5 {
			b = []byte(fmt.Sprintf("x%d", g.r.Intn(1000)))
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			return &Node{K: k, B: b}
		}
	}
	return nil
}

func (g *gen) done(n *Node) *Node {
	g.prior = append(g.prior, n)
	if n.K == KStr || n.K == KBin {
		g.texts = append(g.texts, n)
	}
	return n
}

// clone copies a subtree without references; nil if it has some or is large.
func (g *gen) clone(n *Node, left *int) *Node {
	*left--
	if *left < 0 || n.K == KBack || n.K == KAlias {
		return nil
	}
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		x := g.clone(k, left)
		if x == nil {
			return nil
		}
		c.Kids = append(c.Kids, x)
	}
	return &c
}

func (g *gen) item(depth int) *Node {
	r := g.r
	g.left--
	if len(g.prior) > 2 && depth > 0 && r.P(6) {
		left := 12
		if c := g.clone(g.prior[r.Intn(len(g.prior))], &left); c != nil {
			return g.done(c)
		}
	}
	if depth >= g.o.Depth || g.left <= 0 {
		return g.leaf()
	}
	w := []int{45, 18, 18, 8, 3, 5, 5, 4, 2}
	if depth == 0 {
		w = []int{12, 34, 30, 12, 3, 7, 4, 0, 0}
	}
	if g.o.FrzW > 0 {
		w[6] = g.o.FrzW
	}
	if g.o.NoFrz || g.o.Version == 1 {
		w[6] = 0
	}
	if g.refs && depth > 0 {
		w[7], w[8] = 25, 8
	}
	if g.o.NoBack || len(g.prior) == 0 {
		w[7], w[8] = 0, 0
	}
	if g.o.NoAlias {
		w[8] = 0
	}
	switch r.W(w...) {
	case 1:
		return g.done(g.array(depth))
	case 2:
		return g.done(g.hash(depth))
	case 3:
		k := g.item(depth + 1)
		if k.K == KUndef || k.K == KCanon || k.K == KAlias {
			k = g.container(depth + 1)
		}
		return g.done(&Node{K: KRef, Kids: []*Node{k}})
	case 4:
		return g.done(&Node{K: KWeak, Kids: []*Node{{K: KRef, Kids: []*Node{g.container(depth + 1)}}}})
	case 5:
		return g.done(g.object(depth))
	case 6:
		return g.done(g.frozen())
	case 7:
		return g.done(&Node{K: KBack, To: g.earlier()})
	case 8:
		return &Node{K: KAlias, To: g.earlier()}
	}
	return g.leaf()
}

func (g *gen) container(depth int) *Node {
	if g.r.P(50) {
		return g.done(g.hash(depth))
	}
	return g.done(g.array(depth))
}

func (g *gen) count() int {
	r := g.r
	n := 0
	switch r.W(50, 30, 15, 5) {
	case 0:
		n = r.Intn(4)
	case 1:
		n = r.Intn(9)
	case 2:
		n = r.Pick(14, 15, 16, 17)
	case 3:
		n = r.Pick(40, 126, 127, 128, 200)
	}
	if n > g.left {
		n = r.Intn(g.left + 1)
	}
	return n
}

func (g *gen) array(depth int) *Node {
	n := &Node{K: KArr}
	for i, c := 0, g.count(); i < c; i++ {
		n.Kids = append(n.Kids, g.item(depth+1))
	}
	return n
}

func (g *gen) hash(depth int) *Node {
	n := &Node{K: KHash}
	seen := map[string]bool{}
	for i, c := 0, g.count(); i < c; i++ {
		k := g.key(seen)
		if k == nil {
			break
		}
		n.Kids = append(n.Kids, k, g.item(depth+1))
	}
	return n
}

func (g *gen) object(depth int) *Node {
	n := &Node{K: KObj, B: g.class()}
	in := g.container(depth + 1)
	if g.r.P(70) {
		in = &Node{K: KRef, Kids: []*Node{in}}
	}
	n.Kids = []*Node{in}
	return n
}

func (g *gen) frozen() *Node {
	cls := g.class()
	if len(g.o.FrzCls) > 0 && g.r.P(85) {
		cls = []byte(g.o.FrzCls[g.r.Intn(len(g.o.FrzCls))])
	}
	return &Node{K: KFrz, B: cls, Kids: []*Node{{K: KRef, Kids: []*Node{{K: KArr, Kids: []*Node{
		{K: KBin, B: g.r.Bytes(g.r.Len(300), g.r.P(g.o.Random))}}}}}}}
}

func (g *gen) leaf() *Node {
	r := g.r
	switch r.W(35, 5, 8, 8, 3, 15, 20, 3, 3) {
	case 0:
		return g.done(&Node{K: KInt, I: r.Int()})
	case 1:
		return g.done(&Node{K: KF32, F: float64(float32(r.Int()) / 8)})
	case 2:
		return g.done(&Node{K: KF64, F: float64(r.Int()) / 16})
	case 3:
		return &Node{K: KUndef}
	case 4:
		if g.o.Version >= 3 {
			return &Node{K: KCanon}
		}
		return &Node{K: KUndef}
	case 5:
		return g.done(g.text(KBin))
	case 6:
		return g.done(g.text(KStr))
	case 7:
		if g.o.NoRegexp {
			return g.done(&Node{K: KInt, I: 7})
		}
		return g.done(&Node{K: KRegexp, B: g.text(KStr).B, M: []byte([]string{"", "i", "msx"}[r.Intn(3)])})
	}
	if r.P(50) {
		return g.done(&Node{K: KTrue})
	}
	return g.done(&Node{K: KFalse})
}

// Repeat makes some elements of arrays and values of hashes occur once more,
// so that a document has something to copy.
func Repeat(r *R, n *Node, pct int) {
	if n.K == KFrz {
		return
	}
	for _, k := range n.Kids {
		Repeat(r, k, pct)
	}
	switch {
	case n.K == KArr && len(n.Kids) > 0 && len(n.Kids) < 20:
		for i := r.W(50, 35, 15); i > 0 && r.P(pct); i-- {
			if c := clone(n.Kids[r.Intn(len(n.Kids))], 12); c != nil {
				n.Kids = append(n.Kids, c)
			}
		}
	case n.K == KHash && len(n.Kids) > 0 && len(n.Kids) < 20 && r.P(pct):
		if c := clone(n.Kids[2*r.Intn(len(n.Kids)/2)+1], 12); c != nil {
			n.Kids = append(n.Kids, str("again"), c)
		}
	}
}

// clone returns nil where the subtree is large or has references by position.
func clone(n *Node, max int) *Node {
	if n.To != nil || Count(n) > max {
		return nil
	}
	c := *n
	c.Kids = append([]*Node(nil), n.Kids...)
	for i, k := range c.Kids {
		if c.Kids[i] = clone(k, max); c.Kids[i] == nil {
			return nil
		}
	}
	return &c
}
