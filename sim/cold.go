package main

// Cold start: package-level variables that the library fills in as it goes (tables, caches, pools)
// are put back to what they were when the process started, so that a run sees their first use
// whatever ran before in its process.

import (
	"reflect"
	"strings"
	"unsafe"

	simhook "github.com/PlatONnetwork/tecdsa/simhook"
)

type coldVar struct {
	v    reflect.Value // the variable itself
	zero bool          // it was the zero value
	was  reflect.Value // else: a copy of what it was
	sum  string
}

var (
	coldVars []coldVar
	coldOK   bool
)

// coldStart remembers the variables; called before anything else.
func coldStart() {
	coldOK = true
	seen := map[unsafe.Pointer]reflect.Value{}
	for _, x := range simhook.Vars {
		v := reflect.ValueOf(x.Ptr).Elem()
		c := coldVar{v: v}
		switch {
		case v.IsZero():
			c.zero = true
		case opaque(v, 0, map[unsafe.Pointer]bool{}):
			coldOK = false // a state that cannot be put back: then none is
			return
		default:
			c.was = reflect.New(v.Type()).Elem()
			copyInto(c.was, v, seen)
			c.sum = stateDigest(c.was)
		}
		coldVars = append(coldVars, c)
	}
}

func stateDigest(v reflect.Value) string { return RawDigest(v.Addr().Interface()) }

// cold puts the variables that have changed back, and says how many there were.
func cold() int {
	if !coldOK {
		return 0
	}
	n := 0
	seen := map[unsafe.Pointer]reflect.Value{}
	for _, c := range coldVars {
		if c.zero {
			if !c.v.IsZero() {
				n++
				c.v.SetZero()
			}
			continue
		}
		// locks and the like are not in the digest
		if !holdsSync(c.v.Type(), 0) && stateDigest(c.v) == c.sum {
			continue
		}
		if stateDigest(c.v) != c.sum {
			n++
		}
		x := reflect.New(c.v.Type()).Elem()
		copyInto(x, c.was, seen)
		c.v.Set(x)
	}
	return n
}

// opaque says whether a value holds state that a copy does not reach.
func opaque(v reflect.Value, depth int, seen map[unsafe.Pointer]bool) bool {
	if depth > 30 {
		return true
	}
	switch v.Kind() {
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return !v.IsNil()
	case reflect.Interface:
		if v.IsNil() {
			return false
		}
		e := reflect.New(v.Elem().Type()).Elem()
		e.Set(v.Elem())
		return opaque(e, depth+1, seen)
	case reflect.Ptr:
		if v.IsNil() || sharedType(v.Type().Elem()) || seen[v.UnsafePointer()] {
			return false
		}
		seen[v.UnsafePointer()] = true
		return opaque(v.Elem(), depth+1, seen)
	case reflect.Struct:
		if v.Type().Name() == "Pool" && strings.HasSuffix(v.Type().PkgPath(), "/simhook/simsync") {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if opaque(open(v.Field(i)), depth+1, seen) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Int, reflect.String, reflect.Uintptr:
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if opaque(v.Index(i), depth+1, seen) {
				return true
			}
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			if opaque(e, depth+1, seen) {
				return true
			}
		}
	}
	return false
}

// holdsSync says whether a type holds a lock or an atomic value.
func holdsSync(t reflect.Type, depth int) bool {
	if pk := t.PkgPath(); pk == "sync" || pk == "sync/atomic" || strings.HasSuffix(pk, "/simhook/simsync") {
		return true
	}
	if depth > 10 {
		return false
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if holdsSync(t.Field(i).Type, depth+1) {
				return true
			}
		}
	case reflect.Ptr, reflect.Array:
		return holdsSync(t.Elem(), depth+1)
	}
	return false
}
