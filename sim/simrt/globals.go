package simrt

import (
	"reflect"
	"strings"
	"unsafe"
)

// Package-level variables of the code under test are registered by generated
// code, so that a run can start from the state of a fresh process.

type global struct {
	name string
	v    reflect.Value // addressable
	snap func()
}

var globals []*global

// RegGlobal registers a package-level variable by its address.
//
//go:noinline
func RegGlobal(name string, p any) {
	globals = append(globals, &global{name: name, v: reflect.ValueOf(p).Elem()})
}

//go:noinline
func owned(t reflect.Type) bool {
	p := t.PkgPath()
	return strings.HasPrefix(p, "github.com/bserdar/gojsonpath") || strings.HasPrefix(p, "verif.local/sim/simsync")
}

//go:noinline
func settable(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// saver returns a function that puts the variable back as it is now.
//
//go:noinline
func saver(v reflect.Value, depth int) func() {
	v = settable(v)
	shallow := func() func() {
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		return func() { v.Set(c) }
	}
	if depth > 6 {
		return shallow()
	}
	switch v.Kind() {
	case reflect.Struct:
		var fs []func()
		for i := 0; i < v.NumField(); i++ {
			fs = append(fs, saver(v.Field(i), depth+1))
		}
		return func() {
			for _, f := range fs {
				f()
			}
		}
	case reflect.Array:
		if v.Len() > 64 {
			return shallow()
		}
		var fs []func()
		for i := 0; i < v.Len(); i++ {
			fs = append(fs, saver(v.Index(i), depth+1))
		}
		return func() {
			for _, f := range fs {
				f()
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return shallow()
		}
		ks := v.MapKeys()
		vs := make([]reflect.Value, len(ks))
		for i, k := range ks {
			vs[i] = v.MapIndex(k)
		}
		return func() {
			m := reflect.MakeMap(v.Type())
			for i, k := range ks {
				m.SetMapIndex(k, vs[i])
			}
			v.Set(m)
		}
	case reflect.Slice:
		if v.IsNil() || v.Len() > 4096 {
			return shallow()
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(c, v)
		return func() {
			n := reflect.MakeSlice(v.Type(), c.Len(), c.Len())
			reflect.Copy(n, c)
			v.Set(n)
		}
	case reflect.Chan:
		if v.IsNil() || v.Cap() == 0 || v.Type().ChanDir() != reflect.BothDir {
			return shallow()
		}
		drain := func(c reflect.Value) (l []reflect.Value) {
			for {
				x, ok := c.TryRecv()
				if !ok {
					return
				}
				l = append(l, x)
			}
		}
		f, l, c := shallow(), drain(v), v.Interface()
		fill := func() {
			for _, x := range l {
				reflect.ValueOf(c).TrySend(x)
			}
		}
		fill()
		return func() {
			f()
			drain(v)
			fill()
		}
	case reflect.Ptr:
		if v.IsNil() || v.Elem().Kind() != reflect.Struct || !owned(v.Type().Elem()) {
			return shallow()
		}
		f, g := shallow(), saver(v.Elem(), depth+1)
		return func() { f(); g() }
	}
	return shallow()
}

// SnapshotGlobals remembers the registered variables as they are now.
//
//go:noinline
func SnapshotGlobals() {
	for _, g := range globals {
		g.snap = saver(g.v, 0)
	}
}

// RestoreGlobals puts back the variables whose name has the prefix.
//
//go:noinline
func RestoreGlobals(prefix string) {
	for _, g := range globals {
		if g.snap != nil && strings.HasPrefix(g.name, prefix) {
			g.snap()
		}
	}
}

// GlobalNames lists the registered variables.
//
//go:noinline
func GlobalNames() []string {
	var r []string
	for _, g := range globals {
		r = append(r, g.name)
	}
	return r
}

// SaveGlobals remembers some of the variables as they are now, and returns
// what puts them back.
//
//go:noinline
func SaveGlobals(prefixes ...string) func() {
	var fs []func()
	for _, g := range globals {
		for _, p := range prefixes {
			if strings.HasPrefix(g.name, p) {
				fs = append(fs, saver(g.v, 0))
			}
		}
	}
	return func() {
		for _, f := range fs {
			f()
		}
	}
}
