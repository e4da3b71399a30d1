package main

// Reflection over messages: copying them as a network would, finding the parts a Byzantine node can
// alter, digesting inputs. It goes by structure and types, not by field names.

import (
	"crypto/sha256"
	"fmt"
	"hash"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/curve"
)

var (
	tPoint  = reflect.TypeOf((*curve.EccPoint)(nil)).Elem()
	tScalar = reflect.TypeOf((*curve.EccScalar)(nil)).Elem()
)

// open gives an accessible version of an addressable value, also for unexported fields.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// shared says which types are immutable tables behind a number, not part of a message.
func sharedType(t reflect.Type) bool {
	n := t.Name()
	return strings.HasSuffix(n, "Params") || strings.Contains(t.PkgPath(), "reflect")
}

// DeepCopy copies a value so that nothing mutable is shared.
func DeepCopy[T any](x T) T {
	v := reflect.New(reflect.TypeOf(&x).Elem())
	src := reflect.ValueOf(&x)
	copyInto(v.Elem(), src.Elem(), map[unsafe.Pointer]reflect.Value{})
	out, _ := v.Elem().Interface().(T) // a nil interface stays one
	return out
}

func copyInto(dst, src reflect.Value, seen map[unsafe.Pointer]reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		if sharedType(src.Type().Elem()) {
			dst.Set(src)
			return
		}
		k := src.UnsafePointer()
		if c, ok := seen[k]; ok && c.Type() == src.Type() {
			dst.Set(c)
			return
		}
		c := reflect.New(src.Type().Elem())
		seen[k] = c
		copyInto(c.Elem(), src.Elem(), seen)
		dst.Set(c)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := src.Elem()
		if e.Kind() == reflect.Ptr {
			c := reflect.New(e.Type()).Elem()
			copyInto(c, e, seen)
			dst.Set(c)
			return
		}
		tmp := reflect.New(e.Type()).Elem()
		tmp.Set(e)
		c := reflect.New(e.Type()).Elem()
		copyInto(c, tmp, seen)
		dst.Set(c)
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			copyInto(open(dst.Field(i)), open(src.Field(i)), seen)
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		c := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			copyInto(c.Index(i), src.Index(i), seen)
		}
		dst.Set(c)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i), seen)
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		c := reflect.MakeMap(src.Type())
		it := src.MapRange()
		for it.Next() {
			k := reflect.New(src.Type().Key()).Elem()
			tk := reflect.New(src.Type().Key()).Elem()
			tk.Set(it.Key())
			copyInto(k, tk, seen)
			e := reflect.New(src.Type().Elem()).Elem()
			te := reflect.New(src.Type().Elem()).Elem()
			te.Set(it.Value())
			copyInto(e, te, seen)
			c.SetMapIndex(k, e)
		}
		dst.Set(c)
	default:
		dst.Set(src)
	}
}

// digester hashes a value structurally; points and scalars by their meaning unless raw.
type digester struct {
	h    hash.Hash
	raw  bool
	seen map[unsafe.Pointer]bool
}

// Digest hashes what a value means: two representations of one point are the same.
func Digest(xs ...interface{}) string {
	d := digester{h: sha256.New(), seen: map[unsafe.Pointer]bool{}}
	for _, x := range xs {
		v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
		v.Set(reflect.ValueOf(&x).Elem())
		d.val(v, 0)
	}
	return fmt.Sprintf("%x", d.h.Sum(nil)[:12])
}

// RawDigest hashes memory as it is.
func RawDigest(x interface{}) string {
	d := digester{h: sha256.New(), raw: true, seen: map[unsafe.Pointer]bool{}}
	v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	v.Set(reflect.ValueOf(&x).Elem())
	d.val(v, 0)
	return string(d.h.Sum(nil))
}

func (d *digester) val(v reflect.Value, depth int) {
	if depth > 60 {
		return
	}
	if !d.raw && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && !v.IsNil() && v.CanInterface() {
		e := v
		if e.Kind() == reflect.Interface {
			e = e.Elem()
		}
		if e.Kind() == reflect.Ptr && !e.IsNil() {
			switch x := e.Interface().(type) {
			case curve.EccPoint:
				fmt.Fprintf(d.h, "P%x;", x.Serialize())
				return
			case curve.EccScalar:
				fmt.Fprintf(d.h, "S%x;", x.Serialize())
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(d.h, "nil;")
			return
		}
		if sharedType(v.Type().Elem()) {
			return
		}
		k := v.UnsafePointer()
		if d.seen[k] {
			return
		}
		if d.raw {
			d.seen[k] = true
		}
		fmt.Fprint(d.h, "*")
		d.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(d.h, "nil;")
			return
		}
		e := v.Elem()
		// pointer or value of one type mean the same
		tn := e.Type().String()
		fmt.Fprintf(d.h, "i%s;", strings.TrimPrefix(tn, "*"))
		tmp := reflect.New(e.Type()).Elem()
		tmp.Set(e)
		d.val(tmp, depth+1)
	case reflect.Struct:
		if pk := v.Type().PkgPath(); pk == "sync" || pk == "sync/atomic" || strings.HasSuffix(pk, "/simhook/simsync") {
			return
		}
		fmt.Fprintf(d.h, "{")
		for i := 0; i < v.NumField(); i++ {
			d.val(open(v.Field(i)), depth+1)
		}
		fmt.Fprintf(d.h, "}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(d.h, "b%d:%x;", v.Len(), v.Bytes())
			return
		}
		fmt.Fprintf(d.h, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
		}
	case reflect.Array:
		fmt.Fprintf(d.h, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
		}
	case reflect.Map:
		var parts []string
		it := v.MapRange()
		for it.Next() {
			s := digester{h: sha256.New(), raw: d.raw, seen: d.seen}
			tk := reflect.New(v.Type().Key()).Elem()
			tk.Set(it.Key())
			s.val(tk, depth+1)
			te := reflect.New(v.Type().Elem()).Elem()
			te.Set(it.Value())
			s.val(te, depth+1)
			parts = append(parts, string(s.h.Sum(nil)))
		}
		sort.Strings(parts)
		fmt.Fprintf(d.h, "m%d:", len(parts))
		for _, p := range parts {
			d.h.Write([]byte(p))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			fmt.Fprint(d.h, "nil;")
		} else {
			fmt.Fprint(d.h, "f;")
		}
	case reflect.String:
		fmt.Fprintf(d.h, "s%d:%s;", v.Len(), v.String())
	case reflect.Bool:
		fmt.Fprintf(d.h, "%v;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(d.h, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(d.h, "%d;", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(d.h, "%v;", v.Float())
	}
}

// Loc is a place inside a message.
type Loc struct {
	V    reflect.Value
	Path string
	Kind string // "point", "scalar", "ptr", "iface", "slice", "int"
}

// Locations lists the alterable places of a message, in a fixed order. x must be a pointer.
func Locations(x interface{}) []Loc {
	var out []Loc
	seen := map[unsafe.Pointer]bool{}
	var rec func(v reflect.Value, path string, depth int)
	rec = func(v reflect.Value, path string, depth int) {
		if depth > 40 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			switch {
			case v.Type() == tPoint:
				out = append(out, Loc{v, path, "point"})
				return
			case v.Type() == tScalar:
				out = append(out, Loc{v, path, "scalar"})
				return
			}
			out = append(out, Loc{v, path, "iface"})
			if v.IsNil() {
				return
			}
			e := v.Elem()
			if e.Kind() == reflect.Ptr {
				rec(e, path+"."+e.Type().Elem().Name(), depth+1)
			} else {
				// reach into values held by value by way of a settable copy
				c := reflect.New(e.Type())
				c.Elem().Set(e)
				// the copy is written back by replacing it with its own location
				boxed = append(boxed, box{v, c})
				rec(c.Elem(), path+"."+e.Type().Name(), depth+1)
			}
		case reflect.Ptr:
			if v.CanSet() {
				out = append(out, Loc{v, path, "ptr"})
			}
			if v.IsNil() || sharedType(v.Type().Elem()) {
				return
			}
			if v.Type().Implements(tPoint) || v.Type().Implements(tScalar) {
				return
			}
			if seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			rec(v.Elem(), path, depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(open(v.Field(i)), path+"."+v.Type().Field(i).Name, depth+1)
			}
		case reflect.Slice:
			out = append(out, Loc{v, path, "slice"})
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
			}
		}
	}
	boxed = nil
	rec(reflect.ValueOf(x).Elem(), "", 0)
	return out
}

// Values held by value in an interface are altered in a copy; Commit writes the copies back.
type box struct{ iface, copy reflect.Value }

var boxed []box

func CommitLocations() {
	for i := len(boxed) - 1; i >= 0; i-- {
		boxed[i].iface.Set(boxed[i].copy.Elem())
	}
	boxed = nil
}

// fieldByType finds the first field of a struct whose type is t.
func fieldByType(x interface{}, t reflect.Type, nth int) (reflect.Value, bool) {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			if nth == 0 {
				return open(v.Field(i)), true
			}
			nth--
		}
	}
	return reflect.Value{}, false
}

// fieldLike finds a field by part of its name, or else the nth field of the type.
func fieldLike(x interface{}, name string, t reflect.Type, nth int) (reflect.Value, bool) {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t && strings.Contains(strings.ToLower(v.Type().Field(i).Name), name) {
			return open(v.Field(i)), true
		}
	}
	return fieldByType(x, t, nth)
}
