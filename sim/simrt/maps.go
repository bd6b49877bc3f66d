package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Keys returns the keys of m in the order the simulator decides to iterate it.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	mode, r := mapOrder(sortKeys(keys))
	permute(mode, r, len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// sortKeys returns a hash of the keys.
func sortKeys[K comparable](keys []K) uint64 {
	h := uint64(len(keys))
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return hashStrings(ks)
	case []int:
		sort.Ints(ks)
		for _, k := range ks {
			h = mix(h ^ uint64(k))
		}
	default:
		str := make([]string, len(keys))
		for i := range keys {
			str[i] = keyString(reflect.ValueOf(&keys[i]).Elem())
		}
		sort.Sort(&byStr{str, func(i, j int) { keys[i], keys[j] = keys[j], keys[i] }})
		h = hashStrings(str)
	}
	return h
}

func hashStrings(l []string) uint64 {
	h := uint64(len(l))
	for _, s := range l {
		x := uint64(14695981039346656037)
		for i := 0; i < len(s); i++ {
			if s[i] == '_' && madeUp(s[i+1:]) {
				i += 16
				continue
			}
			x = (x ^ uint64(s[i])) * 1099511628211
		}
		h = mix(h ^ x)
	}
	return h
}

// madeUp tells whether a name goes on with the 16 digits that tell apart the
// types made up for different runs; these must not make a difference.
func madeUp(s string) bool {
	if len(s) < 16 {
		return false
	}
	for i := 0; i < 16; i++ {
		if !(s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'f') {
			return false
		}
	}
	return true
}

type byStr struct {
	s    []string
	swap func(i, j int)
}

func (b *byStr) Len() int           { return len(b.s) }
func (b *byStr) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr) Swap(i, j int)      { b.s[i], b.s[j] = b.s[j], b.s[i]; b.swap(i, j) }

func keyString(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	}
	return fmt.Sprint(v.Interface())
}

func permute(mode int, r uint64, n int, swap func(i, j int)) {
	switch mode {
	case 1:
		for i := n - 1; i > 0; i-- {
			swap(i, int(rnd(&r)%uint64(i+1)))
		}
	case 2:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case 3:
		// one element is moved to the front
		if n > 1 {
			swap(0, int(rnd(&r)%uint64(n)))
		}
	}
}

// MapKeys replaces reflect.Value.MapKeys.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	if len(keys) == 0 {
		return keys
	}
	str := make([]string, len(keys))
	for i := range keys {
		str[i] = keyString(keys[i])
	}
	sort.Sort(&byStr{str, func(i, j int) { keys[i], keys[j] = keys[j], keys[i] }})
	mode, r := mapOrder(hashStrings(str))
	permute(mode, r, len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// MapIter replaces reflect.MapIter.
type MapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// MapRange replaces reflect.Value.MapRange.
func MapRange(v reflect.Value) *MapIter {
	return &MapIter{m: v, keys: MapKeys(v), i: -1}
}

func (it *MapIter) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
	return false
}
func (it *MapIter) Key() reflect.Value   { return it.keys[it.i] }
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
func (it *MapIter) Reset(v reflect.Value) {
	*it = MapIter{m: v, keys: MapKeys(v), i: -1}
}
