package model

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Hooks of the callback types; the scenarios put their faults in here.
var (
	OnMarshal   func(data []byte) ([]byte, error)
	OnUnmarshal func(data []byte) ([]byte, error)
)

func cbMarshal(d []byte) ([]byte, error) {
	if f := OnMarshal; f != nil {
		return f(d)
	}
	return append([]byte{}, d...), nil
}

func cbUnmarshal(d []byte) ([]byte, error) {
	if f := OnUnmarshal; f != nil {
		return f(d)
	}
	return append([]byte{}, d...), nil
}

// CBV marshals itself (struct kind).
type CBV struct{ Data []byte }

func (c CBV) MarshalBinary() ([]byte, error) { return cbMarshal(c.Data) }
func (c *CBV) UnmarshalBinary(b []byte) error {
	d, err := cbUnmarshal(b)
	c.Data = d
	return err
}

// CBS marshals itself (string kind).
type CBS string

func (c CBS) MarshalBinary() ([]byte, error) { return cbMarshal([]byte(c)) }
func (c *CBS) UnmarshalBinary(b []byte) error {
	d, err := cbUnmarshal(b)
	*c = CBS(d)
	return err
}

// CBM marshals itself (map kind).
type CBM map[string]int

func (c CBM) MarshalBinary() ([]byte, error) {
	s := 0
	for _, v := range c {
		s += v
	}
	return cbMarshal([]byte(fmt.Sprint(len(c), s)))
}

// CBU only unmarshals itself.
type CBU struct {
	A    int
	Data []byte
}

func (c *CBU) UnmarshalBinary(b []byte) error {
	d, err := cbUnmarshal(b)
	c.Data = d
	return err
}

// CBK marshals itself and can be a key.
type CBK struct {
	S string
	N int
}

func (c CBK) MarshalBinary() ([]byte, error) { return cbMarshal([]byte(fmt.Sprint(c.S, c.N))) }

// KeyedByCallbacks is a map with keys that marshal themselves.
func KeyedByCallbacks(r *R, v interface{}) interface{} {
	n := r.Range(1, 4)
	switch r.Intn(4) {
	case 0:
		m := map[CBK]interface{}{}
		for i := 0; i < n; i++ {
			m[CBK{"k", i}] = v
		}
		return m
	case 1:
		m := map[CBS]interface{}{}
		for i := 0; i < n; i++ {
			m[CBS(fmt.Sprint("k", i))] = v
		}
		return m
	case 2:
		m := map[interface{}]interface{}{"plain": 1}
		for i := 0; i < n; i++ {
			m[CBK{"k", i}] = v
		}
		return m
	}
	m := map[CBK]int{}
	for i := 0; i < n; i++ {
		m[CBK{"k", i}] = i
	}
	return []interface{}{v, m}
}

type Pt struct{ X, Y int }

type Named string
type NInts []int
type NMap map[string]Pt

type Rec struct {
	A int
	B string
	C []byte
	D map[string]interface{}
	E *Rec
	F []interface{}
	G float64 `sereal:"gee"`
	h int
	I interface{}
	J []string
	K *int `sereal:"-"`
	L bool
}

type Emb struct {
	P  Pt
	Q  *Pt
	L  []Pt
	M  map[string]*Pt
	N  Named
	A  [3]int
	S  NInts
	T  NMap
	U  uint16
	F  float32
	I8 int8 `sereal:"eight"`
}

// Holder carries callbacks in many positions.
type Holder struct {
	One  CBV
	Two  *CBV
	Any  interface{}
	List []CBV
	Map  map[string]CBV
	Str  CBS
	Next *Holder
	Arr  [2]CBV
	PMap map[string]*CBV
	PLst []*CBV
	Deep map[string][]CBV
}

// Fixed has places of fixed size.
type Fixed struct {
	A [2]interface{}
	B [1]string
	C *[3][]int
	D [2]map[string]interface{}
	E [0]int
}

type Empty struct{}

// Kids, Tree and Ring are types that hold values of their own type.
type Kids struct {
	Kids map[string]Kids
	Name string
	Size int
}

type Tree struct {
	Val   interface{}
	Left  *Tree
	Nodes []Tree
	Named map[Named]*Tree
	Last  string
}

type Ring struct {
	Id   int
	Next map[string]Spoke
	Rest []Spoke
	End  string
}

type Spoke struct {
	Of  map[string]Ring
	Str string
	Two [2]map[string]Pt
}

// Sized has byte strings of fixed size.
type Sized struct {
	Id  [16]byte
	Sum [4]uint8
	Nil [0]byte
	Tag [2]byte `sereal:"k1"`
	Ptr *[8]byte
	Str string
	Two [2][2]byte
}

type Tagged struct {
	First  string            `sereal:"k1"`
	Second []interface{}     `sereal:"k2"`
	Third  map[string]string `sereal:"k3"`
	Fourth interface{}       `sereal:"k4"`
	K5     interface{}
	K6     *Tagged
}

// CBNames are the names under which callback types are frozen.
var CBNames = []string{"simverif/model.CBV", "simverif/model.CBS", "simverif/model.CBU"}

// FrzNames are the names that decoders may know.
var FrzNames = append(CBNames[:3:3], "Foo", "Bar::Baz")

// Register makes the callback types known to a decoder.
// (but those in the mask).
func Register(d *sereal.Decoder, not int) {
	s := CBS("")
	for i, v := range []interface{}{&CBV{}, &s, &CBU{}, &CBV{}, &s} {
		if not>>uint(i)&1 == 0 {
			d.RegisterName(FrzNames[i], v)
		}
	}
}

// ValOpt steers the generator of Go values.
type ValOpt struct {
	Callbacks int  // percentage of leaves that are callbacks
	Bad       int  // per mille of leaves that cannot be encoded
	Perl      int  // percentage of leaves that are Perl types
	Dyn       int  // percentage of containers with a type of their own
	Share     int  // percentage of pointers that are shared
	Alias     bool // pointers into other values
	Uid       uint64
	MaxStr    int
	Random    int
	MarshalOf []byte
	BigMaps   bool
	Words     [][]byte // preferred words
	NoShare   bool     // everything is there once
}

type vgen struct {
	r     *R
	o     ValOpt
	left  int
	vocab []string
	ptrs  []reflect.Value
	dyn   int
}

// GenValue makes a random value of at most about size parts.
func GenValue(r *R, size int, o ValOpt) interface{} {
	if o.MaxStr == 0 {
		o.MaxStr = 2000
	}
	g := &vgen{r: r, o: o, left: size}
	voc := Vocab(r, r.Range(2, 8))
	if len(o.Words) > 0 {
		voc = distinct(o.Words, voc[:r.Intn(3)])
	}
	for _, v := range voc {
		g.vocab = append(g.vocab, string(v))
	}
	return g.value(0)
}

func (g *vgen) str() string {
	if g.r.P(45) {
		return g.vocab[g.r.Intn(len(g.vocab))]
	}
	return string(g.r.Bytes(g.r.Len(g.o.MaxStr), g.r.P(g.o.Random)))
}

func (g *vgen) bytes() []byte {
	if g.r.P(20) {
		return []byte(g.vocab[g.r.Intn(len(g.vocab))])
	}
	return g.r.Bytes(g.r.Len(g.o.MaxStr), g.r.P(g.o.Random))
}

func (g *vgen) key() string {
	if g.r.P(80) {
		return g.vocab[g.r.Intn(len(g.vocab))]
	}
	return fmt.Sprintf("key%d", g.r.Intn(100))
}

func (g *vgen) n() int {
	n := 0
	switch g.r.W(50, 35, 10, 5) {
	case 0:
		n = g.r.Intn(4)
	case 1:
		n = g.r.Intn(8)
	case 2:
		n = g.r.Pick(15, 16, 17)
	case 3:
		n = g.r.Pick(100, 127, 128, 150)
	}
	if n > g.left {
		n = g.r.Intn(g.left + 1)
	}
	return n
}

var staticTypes = []reflect.Type{
	reflect.TypeOf(Pt{}), reflect.TypeOf(Rec{}), reflect.TypeOf(Emb{}), reflect.TypeOf(Tagged{}), reflect.TypeOf(Empty{}),
	reflect.TypeOf([]int(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(map[string]string(nil)),
	reflect.TypeOf([]Pt(nil)), reflect.TypeOf(NMap(nil)), reflect.TypeOf(NInts(nil)), reflect.TypeOf([2]string{}),
	reflect.TypeOf([][]byte(nil)), reflect.TypeOf([]*Rec(nil)), reflect.TypeOf(map[string][]interface{}(nil)), reflect.TypeOf(Named("")),
	reflect.TypeOf(map[string]*Tagged(nil)), pt1(), pt2(), pt3(), reflect.SliceOf(pt1()), reflect.MapOf(reflect.TypeOf(""), pt3()),
	reflect.TypeOf(Kids{}), reflect.TypeOf(Tree{}), reflect.TypeOf(Ring{}), reflect.TypeOf(map[string]Kids(nil)),
}

// Types that have the names of others but other fields.
var namesakes = func() []reflect.Type {
	type Tagged struct {
		A int    `sereal:"B"`
		B string `sereal:"A"`
	}
	return []reflect.Type{pt1(), pt2(), pt3(), reflect.TypeOf(Tagged{})}
}()

func pt1() reflect.Type {
	type Pt struct {
		X int `sereal:"Y"`
		Y int `sereal:"X"`
	}
	return reflect.TypeOf(Pt{})
}

func pt2() reflect.Type {
	type Pt struct {
		X int `sereal:"-"`
		Y int
	}
	return reflect.TypeOf(Pt{})
}

func pt3() reflect.Type {
	type Pt struct {
		A string
		B interface{} `sereal:"X"`
	}
	return reflect.TypeOf(Pt{})
}

var basicTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf(Named("")), reflect.TypeOf(Pt{}), reflect.TypeOf(CBV{}), pt1(), pt2(), pt3(),
}

// RandType composes a type of which no element takes much memory.
func RandType(r *R, depth int) reflect.Type {
	basic := basicTypes[r.Intn(len(basicTypes))]
	if depth > 3 {
		return basic
	}
	switch r.W(25, 25, 18, 10, 10, 12) {
	case 1:
		return reflect.SliceOf(RandType(r, depth+1))
	case 2:
		k := reflect.TypeOf("")
		if r.P(20) {
			k = reflect.TypeOf(Named(""))
		}
		return reflect.MapOf(k, RandType(r, depth+1))
	case 3:
		return reflect.ArrayOf(r.Intn(4), basic)
	case 4:
		if basic.Kind() == reflect.Interface {
			return basic
		}
		return reflect.PtrTo(basic)
	case 5:
		var fs []reflect.StructField
		for i := 0; i < r.Range(1, 3); i++ {
			t := basicTypes[r.Intn(len(basicTypes))]
			switch r.Intn(4) {
			case 0:
				t = reflect.SliceOf(t)
			case 1:
				t = reflect.MapOf(reflect.TypeOf(""), t)
			}
			fs = append(fs, reflect.StructField{Name: string(rune('A' + i)), Type: t})
		}
		return reflect.StructOf(fs)
	}
	return basic
}

// Odd has a field that cannot be encoded.
type Odd struct {
	A int
	F func()
	B string
}

// Odd2 has, too.
type Odd2 struct {
	C chan int
}

var oddTypes = []reflect.Type{reflect.TypeOf(Odd{}), reflect.TypeOf(Odd2{}), reflect.TypeOf([]Odd(nil)), reflect.TypeOf(map[string]Odd2(nil)), reflect.TypeOf(&Odd{})}

func (g *vgen) dynType() reflect.Type {
	g.dyn++
	n := g.r.Range(1, 5)
	var fs []reflect.StructField
	basics := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(&Pt{}), reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf(true)}
	if g.o.Callbacks > 0 {
		basics = append(basics, reflect.TypeOf(CBV{}))
	}
	if g.o.Bad > 0 && g.r.P(40) { // types with fields that cannot be encoded
		basics = append(basics, reflect.TypeOf(func() {}), reflect.TypeOf((chan int)(nil)))
	}
	for i := 0; i < n; i++ {
		fs = append(fs, reflect.StructField{
			Name: fmt.Sprintf("F%d_%016x_%d", i, g.o.Uid, g.dyn),
			Type: basics[g.r.Intn(len(basics))],
			Tag:  reflect.StructTag(fmt.Sprintf(`sereal:"f%d_%016x"`, i, g.o.Uid)),
		})
	}
	return reflect.StructOf(fs)
}

// value makes a value for an interface.
func (g *vgen) value(depth int) interface{} {
	g.left--
	r := g.r
	if depth > 7 || g.left <= 0 {
		return g.leaf()
	}
	w := []int{42, 14, 16, 14, 14}
	if depth == 0 {
		w[0] = 8
	}
	switch r.W(w...) {
	case 1:
		n := g.n()
		a := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, g.value(depth+1))
		}
		return a
	case 2:
		n := g.n()
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[g.key()] = g.value(depth + 1)
		}
		if r.P(g.o.Share / 3) {
			g.ptrs = append(g.ptrs, reflect.ValueOf(&m))
		}
		return m
	case 3:
		var t reflect.Type
		if r.P(g.o.Dyn) {
			t = g.dynType()
		} else if g.o.Callbacks > 0 && r.P(g.o.Callbacks) {
			t = reflect.TypeOf(Holder{})
		} else if g.o.Bad > 0 && r.P(25) {
			t = oddTypes[r.Intn(len(oddTypes))]
		} else {
			t = staticTypes[r.Intn(len(staticTypes))]
		}
		v := reflect.New(t)
		g.fill(v.Elem(), depth+1)
		if t.Kind() == reflect.Struct && r.P(40) {
			g.ptrs = append(g.ptrs, v)
			return v.Interface()
		}
		if k := t.Kind(); (k == reflect.Map || k == reflect.Slice) && r.P(g.o.Share/2) {
			g.ptrs = append(g.ptrs, v) // what a pointer may lead to is also there directly
		}
		return v.Elem().Interface()
	case 4:
		return g.pointer(depth)
	}
	return g.leaf()
}

func (g *vgen) pointer(depth int) interface{} {
	r := g.r
	if len(g.ptrs) > 0 && r.P(g.o.Share) {
		p := g.ptrs[r.Intn(len(g.ptrs))]
		if k := p.Elem().Kind(); (k == reflect.Map || k == reflect.Slice) && r.P(15) {
			return p.Elem().Interface()
		}
		if g.o.Alias && r.P(30) {
			e := p.Elem()
			switch e.Kind() {
			case reflect.Struct:
				if e.NumField() > 0 && e.Type().Field(0).PkgPath == "" {
					return e.Field(0).Addr().Interface()
				}
			case reflect.String:
				if s := e.String(); len(s) > 1 {
					s = s[:len(s)-1]
					return &s
				}
			case reflect.Slice:
				if e.Len() > 1 {
					q := reflect.New(e.Type())
					q.Elem().Set(e.Slice(0, e.Len()-1))
					return q.Interface()
				}
			}
		}
		return p.Interface()
	}
	var p interface{}
	switch r.Intn(7) {
	case 0:
		x := int(r.Int())
		p = &x
	case 1:
		x := g.str()
		p = &x
	case 2:
		x := g.value(depth + 1)
		if x == nil {
			x = 1
		}
		p = &x
	case 3:
		x := map[string]interface{}{g.key(): g.value(depth + 1)}
		p = &x
	case 4:
		x := []interface{}{g.value(depth + 1), g.leaf()}
		p = &x
	case 5:
		x := &Rec{A: r.Intn(100), B: g.str(), h: 3}
		if len(g.ptrs) > 0 && !g.o.NoShare {
			if q, ok := g.ptrs[r.Intn(len(g.ptrs))].Interface().(*Rec); ok {
				x.E = q
			}
		}
		p = x
	case 6:
		x := g.bytes()
		p = &x
	}
	g.ptrs = append(g.ptrs, reflect.ValueOf(p))
	return p
}

func (g *vgen) leaf() interface{} {
	r := g.r
	if r.P(g.o.Callbacks) {
		switch r.Intn(6) {
		case 0:
			return CBS(g.str())
		case 1:
			return CBM{"a": r.Intn(100), "b": 2}
		case 2:
			return &CBV{g.bytes()}
		}
		return CBV{g.bytes()}
	}
	if g.o.Bad > 0 && r.Intn(1000) < g.o.Bad {
		switch r.Intn(4) {
		case 0:
			return make(chan int)
		case 1:
			return complex(1, 2)
		case 2:
			return func() {}
		}
		return uintptr(5)
	}
	if r.P(g.o.Perl) {
		switch r.Intn(6) {
		case 0:
			return sereal.PerlUndef{}
		case 1:
			return sereal.PerlCanonicalUndef()
		case 2:
			return sereal.PerlObject{Class: g.key(), Reference: map[string]interface{}{g.key(): r.Intn(99)}}
		case 3:
			return &sereal.PerlObject{Class: g.key(), Reference: []interface{}{g.leaf()}}
		case 4:
			return sereal.PerlRegexp{Pattern: g.bytes(), Modifiers: []byte("i")}
		}
		if g.o.Callbacks == 0 {
			return sereal.PerlWeakRef{Reference: &[]interface{}{r.Intn(9)}}
		}
		// what such things hold may also be anything
		g.left -= 3
		var v interface{}
		switch r.Intn(4) {
		case 0:
			v = CBV{g.bytes()}
		case 1:
			v = &CBV{g.bytes()}
		case 2:
			v = &[]interface{}{1, CBS(g.str())}
		default:
			v = map[string]interface{}{g.key(): &CBV{g.bytes()}}
		}
		switch r.Intn(5) {
		case 0:
			return sereal.PerlObject{Class: g.key(), Reference: v}
		case 1:
			return &sereal.PerlObject{Class: g.key(), Reference: v}
		case 2:
			return &sereal.PerlWeakRef{Reference: v}
		}
		return sereal.PerlWeakRef{Reference: v}
	}
	switch r.Intn(15) {
	case 0:
		return nil
	case 1:
		return r.P(50)
	case 2:
		return int8(r.U64())
	case 3:
		return uint8(r.U64())
	case 4:
		return uint64(r.U64())
	case 5:
		return int64(r.Int())
	case 6:
		return float32(r.Intn(1000)) / 4
	case 7:
		return float64(r.Int()) / 3
	case 8, 9:
		return g.str()
	case 10:
		return g.bytes()
	case 11:
		return json.Number([]string{"12", "-7", "1.5", "99999999999999999999", "zz", ""}[r.Intn(6)])
	case 12:
		return uint32(r.U64())
	}
	return int(r.Int())
}

func (g *vgen) fill(v reflect.Value, depth int) {
	r := g.r
	g.left--
	switch v.Kind() {
	case reflect.Func:
		if r.P(50) {
			v.Set(reflect.ValueOf(func() {}))
		}
	case reflect.Chan:
		if r.P(50) {
			v.Set(reflect.MakeChan(v.Type(), 0))
		}
	case reflect.Bool:
		v.SetBool(r.P(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.U64() >> uint(r.Intn(50)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(10000)) / 8)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Interface:
		if depth < 7 && r.P(80) {
			if x := g.value(depth + 1); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
	case reflect.Ptr:
		if depth < 7 && r.P(60) && g.left > 0 {
			for _, p := range g.ptrs {
				if p.Type() == v.Type() && r.P(g.o.Share) {
					v.Set(p)
					return
				}
			}
			p := reflect.New(v.Type().Elem())
			g.fill(p.Elem(), depth+1)
			g.ptrs = append(g.ptrs, p)
			v.Set(p)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(g.bytes())
			return
		}
		n := 0
		if depth < 7 {
			n = g.n()
		}
		if n > 0 || r.P(60) {
			v.Set(reflect.MakeSlice(v.Type(), n, n+r.Intn(3)))
		}
		for i := 0; i < n; i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		n := 0
		if depth < 7 {
			n = g.n()
		}
		if n > 0 || r.P(60) {
			v.Set(reflect.MakeMap(v.Type()))
		}
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			if k.Kind() == reflect.String {
				k.SetString(g.key())
			} else {
				g.fill(k, depth+1)
			}
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.fill(v.Field(i), depth+1)
			}
		}
	}
}

// Targets are the kinds of destination a document may be decoded into.
const Targets = 44

// NewTarget makes a destination; kind selects the type and its contents.
// (uid names the fields of struct types made up on the spot.)
func NewTarget(kind int, r *R, uid uint64) interface{} {
	switch kind {
	case 0:
		return new(interface{})
	case 1:
		return new(Rec)
	case 2:
		return new(Emb)
	case 3:
		return new(Tagged)
	case 4:
		return new(Holder)
	case 5:
		return new(map[string]interface{})
	case 6:
		return new([]interface{})
	case 7:
		return new(map[string]Rec)
	case 8:
		return new([]Tagged)
	case 9:
		return new([]string)
	case 10:
		return new([4]int)
	case 11:
		return new(string)
	case 12:
		return new([]byte)
	case 13:
		return new(int)
	case 14:
		return new(*Rec)
	case 15:
		return new(CBV)
	case 16:
		return &Rec{A: 5, B: "old", D: map[string]interface{}{"k1": "old"}, F: []interface{}{1, 2}, J: []string{"o"}}
	case 17:
		return &map[string]interface{}{"k1": 1, "old": "x"}
	case 18:
		return &[]interface{}{nil, nil, nil}
	case 19:
		return new(map[string]*Tagged)
	case 20:
		return new([][]byte)
	case 21:
		t := DynTarget(r, uid)
		return reflect.New(t).Interface()
	case 22:
		return new([2]interface{})
	case 23:
		return new([1][1]interface{})
	case 24:
		return new(map[string][2]interface{})
	case 25:
		return new(Fixed)
	case 26:
		return new([0]string)
	case 27:
		return &map[string]*CBV{"k1": {Data: []byte("old")}, "k2": {}, "k3": nil, "k4": {}}
	case 28:
		return &map[string]*Holder{"k1": {Two: &CBV{}, PMap: map[string]*CBV{"k1": {}, "k2": {}}}, "k2": {}, "k3": nil}
	case 29:
		return &map[string]*CBU{"k1": {A: 1}, "k2": {}, "k3": {}, "k4": nil}
	case 30:
		return &Holder{One: CBV{Data: []byte("old")}, Two: &CBV{Data: []byte("old")}, Any: &CBV{}, List: make([]CBV, 2), PMap: map[string]*CBV{"k1": {}, "k2": {}, "k3": {}}, PLst: []*CBV{{}, nil, {}}}
	case 31:
		return &map[string]*Rec{"k1": {B: "old", E: &Rec{}}, "k2": {}, "k3": nil}
	case 32:
		return new([4]byte)
	case 33:
		return new(Sized)
	case 34:
		return new(map[string][3]byte)
	case 35:
		return new([][2]byte)
	case 37, 38, 39:
		return reflect.New(RandType(r, 0)).Interface()
	case 40:
		return reflect.New(reflect.SliceOf(namesakes[r.Intn(len(namesakes))])).Interface()
	case 41:
		return new(Ring)
	case 42:
		return &map[string]Kids{"k1": {Name: "old", Kids: map[string]Kids{"k2": {}}}, "k2": {Size: 3}}
	case 43:
		return &Tree{Left: &Tree{}, Nodes: make([]Tree, 2), Last: "old"}
	case 36:
		return &map[string]map[string]*CBV{"k1": {"k1": {}, "k2": {}}, "k2": nil, "k3": {}}
	}
	return new(interface{})
}

// DynTarget makes a struct type of its own.
func DynTarget(r *R, uid uint64) reflect.Type {
	g := &vgen{r: NewR(r.U64()), o: ValOpt{Uid: uid}}
	return g.dynType()
}

// TargetType returns the type a destination points to.
func TargetType(t interface{}) reflect.Type { return reflect.TypeOf(t).Elem() }

// NodeFor makes a node that suits the type (and now and then does not).
func NodeFor(r *R, t reflect.Type, size int, o GenOpt, misfit int) *Node {
	if o.MaxStr == 0 {
		o.MaxStr = 500
	}
	if o.Vocab == nil {
		o.Vocab = Vocab(r, r.Range(2, 8))
	}
	o.NoAlias = true
	left := size
	return nodeFor(r, t, &left, o, misfit, 0)
}

func any_(r *R, left *int, o GenOpt) *Node {
	o.NoBack = true
	n := Gen(r, r.Range(1, 6), o)
	*left -= Count(n)
	return n
}

func nodeFor(r *R, t reflect.Type, left *int, o GenOpt, misfit, depth int) *Node {
	*left--
	if r.Intn(1000) < misfit {
		return any_(r, left, o)
	}
	if reflect.PtrTo(t).Implements(reflect.TypeOf((*interface{ UnmarshalBinary([]byte) error })(nil)).Elem()) && o.Version > 1 && !o.NoFrz {
		return &Node{K: KFrz, B: []byte(CBNames[r.Intn(len(CBNames))]), Kids: []*Node{{K: KRef, Kids: []*Node{{K: KArr, Kids: []*Node{
			{K: KBin, B: r.Bytes(r.Len(200), false)}}}}}}}
	}
	wrap := func(n *Node) *Node {
		if r.P(30) {
			return &Node{K: KRef, Kids: []*Node{n}}
		}
		return n
	}
	few := func() int {
		if depth > 6 || *left <= 0 {
			return 0
		}
		n := r.Intn(5)
		if r.P(8) {
			n = r.Pick(15, 16, 30)
		}
		return n
	}
	switch t.Kind() {
	case reflect.Bool:
		if r.P(50) {
			return &Node{K: KTrue}
		}
		return &Node{K: KFalse}
	case reflect.Int, reflect.Int64:
		return &Node{K: KInt, I: r.Int()}
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return &Node{K: KInt, I: int64(r.Range(-100, 100))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Node{K: KInt, I: int64(r.Range(0, 200))}
	case reflect.Float32, reflect.Float64:
		return &Node{K: KF64, F: float64(r.Intn(1000)) / 8}
	case reflect.String:
		g := gen{r: r, o: o}
		return g.text(KStr)
	case reflect.Interface:
		return any_(r, left, o)
	case reflect.Ptr:
		if depth > 6 || *left <= 0 || r.P(25) {
			return &Node{K: KUndef}
		}
		if k := t.Elem().Kind(); k == reflect.Struct || k == reflect.Array {
			return wrap(nodeFor(r, t.Elem(), left, o, misfit, depth+1))
		}
		return &Node{K: KUndef}
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && !r.P(15) {
			g := gen{r: r, o: o}
			return g.text(KBin)
		}
		n := &Node{K: KArr}
		for i, c := 0, few(); i < c; i++ {
			n.Kids = append(n.Kids, nodeFor(r, t.Elem(), left, o, misfit, depth+1))
		}
		return wrap(n)
	case reflect.Map:
		n := &Node{K: KHash}
		seen := map[string]bool{}
		g := gen{r: r, o: o}
		for i, c := 0, few(); i < c; i++ {
			if depth < 3 && r.P(25) { // there may be something already
				if w := fmt.Sprintf("k%d", r.Range(1, 4)); !seen[w] {
					seen[w] = true
					n.Kids = append(n.Kids, str(w), nodeFor(r, t.Elem(), left, o, misfit, depth+1))
				}
			} else if k := g.key(seen); k != nil {
				n.Kids = append(n.Kids, k, nodeFor(r, t.Elem(), left, o, misfit, depth+1))
			}
		}
		return wrap(n)
	case reflect.Struct:
		n := &Node{K: KHash}
		for _, i := range r.Perm(t.NumField()) {
			f := t.Field(i)
			name := f.Tag.Get("sereal")
			if name == "-" || f.PkgPath != "" {
				continue
			}
			if name == "" {
				name = f.Name
			}
			if depth > 6 || r.P(25) {
				continue
			}
			n.Kids = append(n.Kids, str(name), nodeFor(r, f.Type, left, o, misfit, depth+1))
		}
		if r.P(15) {
			n.Kids = append(n.Kids, str("no such field"), any_(r, left, o))
		}
		if r.P(40) {
			return wrap(&Node{K: KObj, B: []byte(t.Name()), Kids: []*Node{n}})
		}
		return wrap(n)
	}
	return any_(r, left, o)
}

// ErrInjected is what failing callbacks return.
var ErrInjected = errors.New("injected callback failure")
