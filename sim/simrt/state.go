package simrt

import (
	"reflect"
	"strings"
	"unsafe"
)

// State of the code under test that outlives a run. Every run starts from what
// the process was initialised with, as if it was a process of its own.

var (
	started  bool
	globals  []any
	restores []func()
	resets   []func() // once
	always   []func()
)

// Global registers a variable (pointer to it) of the code under test.
func Global(name string, p any) {
	if name != "simrt" {
		globals = append(globals, p)
	}
}

// OnReset registers something to do at the end of the run.
//
//go:norace
func OnReset(f func()) { resets = append(resets, f) }

// OnEveryReset registers something to do at the end of every run.
func OnEveryReset(f func()) { always = append(always, f) }

// Start says that the initialisation of the process is over.
func Start() {
	if started {
		return
	}
	started = true
	s := snapshot{seen: map[seenKey]bool{}}
	for _, p := range globals {
		s.save(reflect.ValueOf(p).Elem(), 0)
	}
	restores = s.do
}

// Started reports whether Start was called.
//
//go:norace
func Started() bool { return started }

// ResetState puts the state back.
func ResetState() {
	for _, f := range resets {
		f()
	}
	resets = resets[:0]
	for _, f := range always {
		f()
	}
	for _, f := range restores {
		f()
	}
}

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type snapshot struct {
	seen map[seenKey]bool
	do   []func()
}

const maxCells = 50000

// ours tells whether what lies behind a pointer to a type is followed.
func ours(t reflect.Type) bool {
	p := t.PkgPath()
	switch p {
	case "", "container/list", "container/ring", "bytes", "strings":
		return true
	}
	return strings.HasPrefix(p, "github.com/Sereal/") || strings.HasPrefix(p, "simverif/sim")
}

// plain tells whether values of a type hold no reference to anything.
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return plain(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String, reflect.Func:
		return true
	}
	return false
}

// cell saves the memory of v itself.
func (s *snapshot) cell(v reflect.Value) {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	s.do = append(s.do, func() { v.Set(c) })
}

func (s *snapshot) save(v reflect.Value, depth int) {
	if depth > 40 || len(s.do) > maxCells {
		return
	}
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	t := v.Type()
	if plain(t) {
		s.cell(v)
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		if t.PkgPath() == "simverif/simsync" && t.Name() == "Map" {
			return // resets itself
		}
		if !ours(t) || strings.HasPrefix(t.PkgPath(), "simverif/") {
			s.cell(v)
			return
		}
		for i := 0; i < t.NumField(); i++ {
			s.save(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.save(v.Index(i), depth+1)
		}
	case reflect.Slice:
		s.cell(v)
		if v.Len() == 0 || !s.visit(v.UnsafePointer(), t) {
			return
		}
		if plain(t.Elem()) {
			s.cell2(v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.save(v.Index(i), depth+1)
		}
	case reflect.Pointer:
		s.cell(v)
		if !v.IsNil() && ours(t.Elem()) && s.visit(v.UnsafePointer(), t) {
			s.save(v.Elem(), depth+1)
		}
	case reflect.Interface:
		s.cell(v)
		if e := v.Elem(); e.IsValid() {
			s.behind(e, depth)
		}
	case reflect.Map:
		s.cell(v)
		if !v.IsNil() && s.visit(v.UnsafePointer(), t) {
			s.table(reflect.ValueOf(v.Interface()), depth)
		}
	case reflect.Chan:
		s.cell(v)
		if !v.IsNil() && v.Cap() > 0 && t.ChanDir() == reflect.BothDir && s.visit(v.UnsafePointer(), t) {
			s.channel(reflect.ValueOf(v.Interface()))
		}
	default:
		s.cell(v)
	}
}

func (s *snapshot) visit(p unsafe.Pointer, t reflect.Type) bool {
	k := seenKey{p, t}
	if s.seen[k] {
		return false
	}
	s.seen[k] = true
	return true
}

// behind saves what a value that is not addressable refers to.
func (s *snapshot) behind(e reflect.Value, depth int) {
	switch e.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Chan:
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		s.save(c, depth+1)
	}
}

// cell2 saves the elements of a slice.
func (s *snapshot) cell2(v reflect.Value) {
	c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(c, v)
	dst := v.Slice(0, v.Len())
	s.do = append(s.do, func() { reflect.Copy(dst, c) })
}

// table saves the entries of a map.
func (s *snapshot) table(m reflect.Value, depth int) {
	var ks, vs []reflect.Value
	for it := m.MapRange(); it.Next(); {
		ks = append(ks, it.Key())
		vs = append(vs, it.Value())
		s.behind(it.Key(), depth)
		if it.Value().Kind() == reflect.Interface {
			if e := it.Value().Elem(); e.IsValid() {
				s.behind(e, depth)
			}
		} else {
			s.behind(it.Value(), depth)
		}
	}
	s.do = append(s.do, func() {
		m.Clear()
		for i := range ks {
			m.SetMapIndex(ks[i], vs[i])
		}
	})
}

// channel saves what a buffered channel holds.
func (s *snapshot) channel(c reflect.Value) {
	var items []reflect.Value
	for {
		x, ok := c.TryRecv()
		if !ok {
			break
		}
		items = append(items, x)
	}
	for _, x := range items {
		c.TrySend(x)
	}
	s.do = append(s.do, func() {
		defer func() { recover() }() // closed
		for {
			if _, ok := c.TryRecv(); !ok {
				break
			}
		}
		for _, x := range items {
			c.TrySend(x)
		}
	})
}
