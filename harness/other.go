package main

import (
	"fmt"
	"reflect"

	"github.com/bytedance/mockey/verifh/zoo"
)

// Types which are not the wanted one, most of them close to it: the same kind with another name, convertible, one pointer more or less.

type (
	oBool   bool
	oInt    int
	oInt8   int8
	oUint   uint
	oUint8  uint8
	oFloat  float64
	oF32    float32
	oString string
	oBytes  []byte
	oMap    map[string]int
	oFunc   func()
	oChan   chan int
	oPtr    *int
	oIface  interface{ Error() string }
	oCplx   complex128
	oArr    [4]byte
	oErr    struct{ s string }
	oStruct struct {
		A int
		B string
	}
)

func (e oErr) Error() string { return e.s }

var otherTypes = []reflect.Type{
	reflect.TypeOf(oBool(true)), reflect.TypeOf(oInt(0)), reflect.TypeOf(oInt8(0)), reflect.TypeOf(oUint(0)), reflect.TypeOf(oUint8(0)), reflect.TypeOf(oFloat(0)), reflect.TypeOf(oF32(0)),
	reflect.TypeOf(oString("")), reflect.TypeOf(oBytes(nil)), reflect.TypeOf(oMap(nil)), reflect.TypeOf(oFunc(nil)), reflect.TypeOf(oChan(nil)), reflect.TypeOf(oPtr(nil)),
	reflect.TypeOf(oCplx(0)), reflect.TypeOf(oArr{}), reflect.TypeOf(oErr{}), reflect.TypeOf(oStruct{}), reflect.TypeOf((*oIface)(nil)).Elem(),
	reflect.TypeOf(true), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(byte(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf([]rune(nil)), reflect.TypeOf(1.5), reflect.TypeOf(float32(1.5)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(func() {}),
	reflect.TypeOf(fmt.Errorf), reflect.TypeOf(struct{}{}), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf([]any(nil)), reflect.TypeOf(zoo.RSmall{}),
	reflect.TypeOf(&zoo.RSmall{}), strangeT, reflect.PointerTo(strangeT),
}

// otherType gives a type other than t that does not fit
func (e *Eng) otherType(t reflect.Type, fits func(u reflect.Type) bool) reflect.Type {
	var close []reflect.Type
	add := func(u reflect.Type) {
		if u != t && u.PkgPath()+u.Name() != "mockey.GenericInfo" && !fits(u) {
			close = append(close, u)
		}
	}
	add(reflect.PointerTo(t))
	add(reflect.SliceOf(t))
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map, reflect.Chan:
		add(t.Elem())
		add(reflect.PointerTo(t.Elem()))
		add(reflect.SliceOf(t.Elem()))
		add(reflect.ArrayOf(3, t.Elem()))
		add(reflect.ChanOf(reflect.RecvDir, t.Elem()))
	}
	for _, u := range otherTypes {
		if u.Kind() == t.Kind() || u.ConvertibleTo(t) {
			add(u)
		}
	}
	if len(close) > 0 && e.R.Intn(4) > 0 {
		return close[e.R.Intn(len(close))]
	}
	for i := 0; i < 20; i++ {
		if u := otherTypes[e.R.Intn(len(otherTypes))]; u != t && !fits(u) {
			return u
		}
	}
	return strangeT
}
