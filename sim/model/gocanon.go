package model

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// GoOpt selects what the canonical form of a Go value shows.
type GoOpt struct {
	Share bool // label pointers that occur more than once
	Cap   bool // show the bytes between len and cap of byte slices
}

type gocanon struct {
	sb    strings.Builder
	opt   GoOpt
	stack []uintptr
	seen  map[seenKey]int
	n     int
	over  bool
}

type seenKey struct {
	p uintptr
	t reflect.Type
}

// GoCanon renders a Go value so that equal values have equal forms.
func GoCanon(v interface{}, opt GoOpt) string {
	c := &gocanon{opt: opt, seen: map[seenKey]int{}}
	c.value(reflect.ValueOf(v), true)
	if c.over {
		return "toobig"
	}
	return c.sb.String()
}

func tname(t reflect.Type) string {
	if t.Name() != "" {
		return t.Name()
	}
	if t.Kind() == reflect.Ptr {
		return "*" + tname(t.Elem())
	}
	if t.Kind() == reflect.Struct {
		return "struct"
	}
	return t.String()
}

func (c *gocanon) value(v reflect.Value, showType bool) {
	if c.over {
		return
	}
	c.n++
	if c.n > 300000 || c.sb.Len() > 8<<20 {
		c.over = true
		return
	}
	w := &c.sb
	if !v.IsValid() {
		w.WriteString("nil")
		return
	}
	if showType && v.Kind() != reflect.Interface {
		w.WriteString(tname(v.Type()))
		w.WriteString(":")
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(w, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(w, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(w, v.Complex())
	case reflect.String:
		blob(w, []byte(v.String()))
	case reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		c.value(v.Elem(), true)
	case reflect.Ptr:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		p := v.Pointer()
		if c.cycle(p) {
			return
		}
		if c.opt.Share && v.Type().Elem().Size() > 0 {
			k := seenKey{p, v.Type()}
			if n, ok := c.seen[k]; ok {
				fmt.Fprintf(w, "@%d", n)
				return
			}
			c.seen[k] = len(c.seen)
		}
		w.WriteString("&")
		c.stack = append(c.stack, p)
		c.value(v.Elem(), false)
		c.stack = c.stack[:len(c.stack)-1]
	case reflect.Slice:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			blob(w, b)
			if c.opt.Cap {
				w.WriteString("|")
				blob(w, b[len(b):cap(b)])
			}
			return
		}
		if v.Len() > 0 && v.Type().Elem().Kind() != reflect.Int {
			if c.cycle(v.Pointer()) {
				return
			}
			c.stack = append(c.stack, v.Pointer())
			defer func() { c.stack = c.stack[:len(c.stack)-1] }()
		}
		c.elems(v)
	case reflect.Array:
		c.elems(v)
	case reflect.Map:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		if c.cycle(v.Pointer()) {
			return
		}
		c.stack = append(c.stack, v.Pointer())
		defer func() { c.stack = c.stack[:len(c.stack)-1] }()
		keys := v.MapKeys()
		ks := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			idx[i] = i
			if k.Kind() == reflect.String {
				ks[i] = k.String()
			} else {
				ks[i] = fmt.Sprint(k.Interface())
			}
		}
		sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
		w.WriteString("{")
		for n, i := range idx {
			if n > 0 {
				w.WriteString(",")
			}
			blob(w, []byte(ks[i]))
			w.WriteString("=")
			c.value(v.MapIndex(keys[i]), false)
		}
		w.WriteString("}")
	case reflect.Struct:
		w.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				w.WriteString(",")
			}
			c.value(v.Field(i), false)
		}
		w.WriteString(")")
	default:
		w.WriteString(v.Kind().String())
	}
}

func (c *gocanon) cycle(p uintptr) bool {
	for i, q := range c.stack {
		if p == q {
			// a struct and its first field may share an address; a true cycle
			// comes by more than once
			n := 0
			for _, x := range c.stack[i:] {
				if x == p {
					n++
				}
			}
			if n >= 4 {
				fmt.Fprintf(&c.sb, "^%d", len(c.stack)-i)
				return true
			}
			return false
		}
	}
	return false
}

func (c *gocanon) elems(v reflect.Value) {
	c.sb.WriteString("[")
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			c.sb.WriteString(",")
		}
		c.value(v.Index(i), false)
	}
	c.sb.WriteString("]")
}

// Grow appends n to the slices within v that have room for more, as a caller
// does who goes on working with a result. v is a pointer.
func Grow(v interface{}, n int) int {
	g := &grower{scribbler: scribbler{seen: map[uintptr]int{}}, mark: n}
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && !rv.IsNil() {
		g.in(rv.Elem())
	}
	return g.grown
}

type grower struct {
	scribbler
	mark, grown int
}

// in grows what is in the variable v.
func (g *grower) in(v reflect.Value) {
	if w, ok := g.value(v); ok && v.CanSet() {
		v.Set(w)
	}
}

// value returns what should replace v.
func (g *grower) value(v reflect.Value) (w reflect.Value, ok bool) {
	g.n++
	if !v.IsValid() || g.n > 100000 {
		return v, false
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			return g.value(v.Elem())
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type().Elem().Name() != "PerlUndef" && !g.enter(v.Pointer()) {
			g.in(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				g.in(v.Field(i))
			}
		}
	case reflect.Map:
		if v.IsNil() || g.enter(v.Pointer()) {
			return v, false
		}
		for _, k := range v.MapKeys() {
			if w, ok := g.value(v.MapIndex(k)); ok {
				v.SetMapIndex(k, w)
			}
		}
	case reflect.Slice, reflect.Array:
		if e := v.Type().Elem().Kind(); e == reflect.Interface || e == reflect.Ptr || e == reflect.Struct || e == reflect.Map || e == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				g.in(v.Index(i))
			}
		}
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			x := reflect.ValueOf(g.mark)
			if t := v.Type().Elem(); x.Type().ConvertibleTo(t) && t.Kind() != reflect.String {
				g.grown++
				return reflect.Append(v, x.Convert(t)), true
			}
		}
	}
	return v, false
}

// Scribble changes everything that can be reached from v in place.
func Scribble(v interface{}) {
	s := &scribbler{seen: map[uintptr]int{}}
	s.value(reflect.ValueOf(v))
}

type scribbler struct {
	seen map[uintptr]int
	n    int
}

func (s *scribbler) value(v reflect.Value) {
	s.n++
	if !v.IsValid() || s.n > 200000 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			s.value(v.Elem())
			if v.CanSet() {
				switch v.Elem().Kind() {
				case reflect.Int, reflect.String, reflect.Bool, reflect.Float64:
					v.Set(reflect.ValueOf("scribbled"))
				}
			}
		}
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem().Name() == "PerlUndef" || s.enter(v.Pointer()) {
			return
		}
		s.value(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x55
			}
			return
		}
		if v.Len() > 0 && s.enter(v.Pointer()) {
			return
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.value(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || s.enter(v.Pointer()) {
			return
		}
		for _, k := range v.MapKeys() {
			s.value(v.MapIndex(k))
			if v.Type().Elem().Kind() == reflect.Interface {
				v.SetMapIndex(k, reflect.ValueOf("scribbled"))
			} else {
				v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); v.Type().Field(i).PkgPath == "" {
				s.value(f)
			}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x15)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-1)
		}
	}
}

func (s *scribbler) enter(p uintptr) bool {
	s.seen[p]++
	return s.seen[p] > 2
}
