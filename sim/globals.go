package main

import (
	"reflect"
	"strings"
	"time"
	"unsafe"
)

// The generated part of the seams (see /verif/seams) fills these: pointers to
// the package-level variables of the chain which its functions change, and
// the setters of its packages' wall clocks.
var (
	globals     []interface{}
	globalNames []string
	clocks      []func(func() time.Time)

	// template holds the values of a fresh process.
	template []reflect.Value
	pristine []reflect.Value

	// skews are the possible errors of a node's wall clock.
	skews     = []time.Duration{0, 0, time.Second, -time.Second, 90 * time.Second, -time.Hour, 3 * time.Hour, 40 * 24 * time.Hour, -40 * 24 * time.Hour}
	blockWall = time.Unix(1_700_000_000, 0)

	// wall is what the running node takes for the current time.
	wall = time.Unix(1_700_000_000, 0)
)

func copyGlobals() (l []reflect.Value) {
	for _, p := range globals {
		l = append(l, deepCopy(reflect.ValueOf(p).Elem(), map[unsafe.Pointer]reflect.Value{}))
	}
	return
}

// resetGlobals gives every process of the coming run the same start.
func resetGlobals(cfg *Cfg) {
	if pristine == nil {
		pristine = copyGlobals()
		for _, f := range clocks {
			f(func() time.Time {
				wall = wall.Add(time.Microsecond)
				return wall
			})
		}
	}
	template = pristine
	swapMem(freshMem())
	setTeamVars(cfg)
	template = copyGlobals()
}

// procMem is the memory of one simulated process.
type procMem []reflect.Value

func freshMem() procMem {
	m := make(procMem, len(template))
	for i, t := range template {
		m[i] = deepCopy(t, map[unsafe.Pointer]reflect.Value{})
	}
	return m
}

// swapMem makes m the current process memory and returns the one before.
func swapMem(m procMem) procMem {
	old := make(procMem, len(globals))
	for i, p := range globals {
		v := reflect.ValueOf(p).Elem()
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		old[i] = c
		v.Set(m[i])
	}
	return old
}

func rw(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// shared: values of these packages describe types and are never copied.
func shared(t reflect.Type) bool {
	p := t.PkgPath()
	for _, x := range []string{"reflect", "internal/abi", "runtime", "google.golang.org/protobuf", "github.com/cosmos/gogoproto", "github.com/cosmos/cosmos-sdk/codec"} {
		if p == x || strings.HasPrefix(p, x+"/") {
			return true
		}
	}
	return false
}

// deepCopy copies what a variable reaches through pointers, maps and slices;
// functions and channels stay shared.
func deepCopy(v reflect.Value, seen map[unsafe.Pointer]reflect.Value) reflect.Value {
	v = rw(v)
	r := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return r
		}
		if shared(v.Type().Elem()) {
			r.Set(v)
			return r
		}
		p := v.UnsafePointer()
		if o, ok := seen[p]; ok && o.Type() == v.Type() {
			return o
		}
		n := reflect.New(v.Type().Elem())
		if n.Type() != v.Type() {
			n = n.Convert(v.Type())
		}
		seen[p] = n
		n.Elem().Set(deepCopy(v.Elem(), seen))
		r.Set(n)
	case reflect.Map:
		if v.IsNil() {
			return r
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		for it := v.MapRange(); it.Next(); {
			n.SetMapIndex(deepCopy(it.Key(), seen), deepCopy(it.Value(), seen))
		}
		r.Set(n)
	case reflect.Slice:
		if v.IsNil() {
			return r
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), seen))
		}
		r.Set(n)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(deepCopy(v.Index(i), seen))
		}
	case reflect.Struct:
		if !v.CanAddr() {
			a := reflect.New(v.Type()).Elem()
			a.Set(v)
			v = a
		}
		for i := 0; i < v.NumField(); i++ {
			rw(r.Field(i)).Set(deepCopy(v.Field(i), seen))
		}
	case reflect.Interface:
		if v.IsNil() {
			return r
		}
		r.Set(deepCopy(v.Elem(), seen))
	default:
		r.Set(v)
	}
	return r
}
