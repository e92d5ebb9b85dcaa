package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates over a map in an order chosen by the simulator.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func order[K comparable, V any](m map[K]V) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) == 1 {
		return keys
	}
	canon(keys, m)
	p := mapPerm(len(keys))
	if p == nil {
		return keys
	}
	out := make([]K, len(keys))
	for i, j := range p {
		out[i] = keys[j]
	}
	return out
}

// mapPerm draws the order of an iteration. It is not generic so that the race detector doesn't watch it.
func mapPerm(n int) []int {
	s := sim
	if s == nil {
		return nil
	}
	s.MapIters++
	if s.Cfg.MapSeed == 0 {
		return nil
	}
	s.MapShuf++
	return s.mapRng.Perm(n)
}

// canon sorts the keys in an order that does not depend on addresses.
func canon[K comparable, V any](keys []K, m map[K]V) {
	switch ks := interface{}(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	str := map[K]string{}
	for _, k := range keys {
		str[k] = keyString(reflect.ValueOf(k), reflect.ValueOf(m[k]))
	}
	sort.SliceStable(keys, func(i, j int) bool { return str[keys[i]] < str[keys[j]] })
}

func keyString(k, v reflect.Value) string {
	s := describe(k, 0)
	if k.Kind() == reflect.Ptr || k.Kind() == reflect.Interface {
		s += "=>" + describe(v, 2)
	}
	return s
}

func describe(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.CanInterface() {
			// syntax tree nodes are ordered by their position
			if m := v.MethodByName("Span"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 2 && (v.Kind() == reflect.Ptr || !v.Elem().IsNil()) {
				if d := describeSpan(m); d != "" {
					return d + v.Type().String()
				}
			}
		}
		if depth > 3 {
			return v.Type().String()
		}
		return "&" + describe(v.Elem(), depth+1)
	case reflect.Struct:
		s := v.Type().Name() + "{"
		if depth > 3 {
			return s
		}
		for i := 0; i < v.NumField(); i++ {
			s += describe(v.Field(i), depth+1) + ","
		}
		return s + "}"
	case reflect.Slice, reflect.Array:
		s := "["
		for i := 0; i < v.Len() && i < 8 && depth <= 3; i++ {
			s += describe(v.Index(i), depth+1) + ","
		}
		return s + "]"
	}
	return v.Type().String()
}

func describeSpan(m reflect.Value) (out string) {
	defer func() {
		if recover() != nil {
			out = ""
		}
	}()
	r := m.Call(nil)
	for _, p := range r {
		if p.Kind() != reflect.Struct {
			return ""
		}
		f := p.FieldByName("Byte")
		if !f.IsValid() {
			return ""
		}
		out += fmt.Sprintf("%09d:", f.Int())
	}
	return out
}

// RangeMap prepares a range over a map.
func RangeMap[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	return &MapIter[K, V]{m: m, keys: order[K, V](m)}
}

// RangeMapKV also declares both loop variables.
func RangeMapKV[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return RangeMap[M, K, V](m), k, v
}

// RangeMapK also declares the key variable.
func RangeMapK[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K) {
	var k K
	return RangeMap[M, K, V](m), k
}

// RangeMapV also declares the value variable.
func RangeMapV[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], V) {
	var v V
	return RangeMap[M, K, V](m), v
}

// Next advances; entries deleted meanwhile are skipped.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Keys returns the keys of a map in simulated order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K { return order[K, V](m) }
