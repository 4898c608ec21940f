package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zrt"
)

// Generic functions and methods for type arguments of all sizes (sizes_gen.go): how the compiler copies arguments and results, and
// so what the wrapper of an instantiation calls, depends on the size.

func init() { workloads["sizes13"] = allSizes }

var sizeRuns int // how often an original ran
var sizeUse any  // the originals use their type argument as the first thing, which makes it UsedParamType(0)
var sizeInfo []reflect.Type

func Sized[T any](a T, n int) (T, int) {
	sizeRuns++
	var z T
	sizeUse = z
	sizeInfo = append(sizeInfo, reflect.TypeOf(&z).Elem())
	if n%2 == 0 {
		return z, n + 1
	}
	return a, n + 2
}

func Sized2[T any](n int, a, b T, s ...T) (string, T, error) {
	sizeRuns++
	sizeUse = *new(T)
	sizeInfo = append(sizeInfo, reflect.TypeOf(new(T)).Elem())
	r := fmt.Sprint(n, len(s))
	if len(s) > 1 {
		return r, s[1], errSized
	}
	if n%2 == 0 {
		return r, b, nil
	}
	return r, a, errSized
}

type SizedM[T any] struct {
	pad [3]int8
	V   T
}

func (m SizedM[T]) Val(a T) (int, T) {
	sizeRuns++
	sizeUse = *new(T)
	sizeInfo = append(sizeInfo, reflect.TypeOf(new(T)).Elem())
	return int(m.pad[1]), m.V
}

func (m *SizedM[T]) Ptr(a ...T) T {
	sizeRuns++
	sizeUse = *new(T)
	sizeInfo = append(sizeInfo, reflect.TypeOf(new(T)).Elem())
	if len(a) > 0 {
		return a[0]
	}
	return m.V
}

var errSized = errors.New("sized")

type sizeCase struct {
	t   reflect.Type
	run func(rep *Report, r *rand.Rand) string
}

var sizeCases []sizeCase

type sizeFn struct {
	what   string
	fn     any // the target
	direct any // calls it directly
	recv   bool
}

func sizesOf[T any](i int, f1 func(T, int) (T, int), f2 func(int, T, T, ...T) (string, T, error), f3 func(SizedM[T], T) (int, T), f4 func(*SizedM[T], ...T) T,
	d1 func(T, int) (T, int), d2 func(int, T, T, ...T) (string, T, error), d3 func(SizedM[T], T) (int, T), d4 func(*SizedM[T], ...T) T) sizeCase {
	t := zrt.TypeOf[T]()
	return sizeCase{t, func(rep *Report, r *rand.Rand) string {
		for _, k := range r.Perm(4) {
			s := []sizeFn{{"Sized", f1, d1, false}, {"Sized2", f2, d2, false}, {"Val", f3, d3, true}, {"Ptr", f4, d4, true}}[k]
			if msg := s.check(rep, r, t); msg != "" {
				return s.what + ": " + msg
			}
		}
		return ""
	}}
}

func (s *sizeFn) args(r *rand.Rand, v any) []reflect.Value {
	ft := reflect.TypeOf(s.fn)
	n := ft.NumIn()
	var args []reflect.Value
	for i := 0; i < n; i++ {
		t := ft.In(i)
		switch {
		case ft.IsVariadic() && i == n-1:
			args = append(args, reflect.MakeSlice(t, r.Intn(4), 4))
			for k := 0; k < args[i].Len(); k++ {
				args[i].Index(k).Set(zrt.Gen(t.Elem(), r, 0))
			}
		case s.recv && i == 0 && t.Kind() == reflect.Ptr:
			p := reflect.New(t.Elem())
			p.Elem().Field(1).Set(zrt.Gen(t.Elem().Field(1).Type, r, 0))
			args = append(args, p)
		case s.recv && i == 0:
			p := reflect.New(t).Elem()
			p.Field(1).Set(zrt.Gen(t.Field(1).Type, r, 0))
			args = append(args, p)
		default:
			args = append(args, zrt.Gen(t, r, 0))
		}
	}
	return args
}

func (s *sizeFn) call(r *rand.Rand, direct bool, args []reflect.Value) []reflect.Value {
	f := reflect.ValueOf(s.fn)
	if direct {
		f = reflect.ValueOf(s.direct)
	}
	do := func() []reflect.Value {
		if f.Type().IsVariadic() {
			return f.CallSlice(args)
		}
		return f.Call(args)
	}
	if r.Intn(3) > 0 {
		return do()
	}
	ch := make(chan []reflect.Value) // on a new, small stack
	go func() { ch <- do() }()
	return <-ch
}

func sameVals(a, b []reflect.Value) bool {
	_, x := zrt.DigestVals(a)
	_, y := zrt.DigestVals(b)
	return x == y
}

func (s *sizeFn) check(rep *Report, r *rand.Rand, t reflect.Type) string {
	ft := reflect.TypeOf(s.fn)
	var in []reflect.Type
	for i := 0; i < ft.NumIn(); i++ {
		in = append(in, ft.In(i))
	}
	var out []reflect.Type
	for i := 0; i < ft.NumOut(); i++ {
		out = append(out, ft.Out(i))
	}
	want := map[bool][]reflect.Value{}
	args := s.args(r, nil)
	call := func(what string, runs int, want []reflect.Value) string {
		for _, direct := range []bool{true, false} {
			sizeRuns, sizeInfo = 0, nil
			var got []reflect.Value
			if pv, st := guarded(func() { got = s.call(r, direct, args) }); st != "" {
				return fmt.Sprintf("%s (direct %v) panics with %v", what, direct, pv)
			}
			if sizeRuns != runs {
				return fmt.Sprintf("%s (direct %v): the original ran %d times", what, direct, sizeRuns)
			}
			for _, x := range sizeInfo {
				if x != t {
					return fmt.Sprintf("%s (direct %v): the original ran with the type argument %v", what, direct, x)
				}
			}
			if !sameVals(got, want) {
				return fmt.Sprintf("%s (direct %v): results %.100v, want %.100v", what, direct, got, want)
			}
			rep.Count("calls of generics of all sizes", 1)
		}
		return ""
	}
	sizeRuns, sizeInfo = 0, nil
	want[false] = s.call(r, true, args)
	if msg := call("unmocked", 1, want[false]); msg != "" {
		return msg
	}
	// the mock: a condition that can be switched, a hook that has seen the arguments, and the original
	on, useOrigin := true, false
	var seen []reflect.Value
	var info mockey.GenericInfo
	var mocked []reflect.Value
	var raw []any
	for _, o := range out {
		v := reflect.New(o).Elem()
		v.Set(zrt.Gen(o, r, 0))
		mocked = append(mocked, v)
		raw = append(raw, v.Interface())
	}
	when := reflect.MakeFunc(reflect.FuncOf(append([]reflect.Type{giT}, in...), []reflect.Type{boolT}, ft.IsVariadic()), func(a []reflect.Value) []reflect.Value {
		info, seen = a[0].Interface().(mockey.GenericInfo), a[1:]
		return []reflect.Value{reflect.ValueOf(on)}
	})
	origin := reflect.New(ft)
	hook := reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		if useOrigin {
			if ft.IsVariadic() {
				return origin.Elem().CallSlice(a)
			}
			return origin.Elem().Call(a)
		}
		return mocked
	})
	var m *mockey.Mocker
	cond := r.Intn(3) > 0
	hooked := r.Intn(2) == 0
	if pv, st := guarded(func() {
		b := mockey.MockGeneric(s.fn)
		if cond {
			b.When(when.Interface())
		}
		if hooked {
			b.To(hook.Interface()).Origin(origin.Interface())
		} else {
			b.Return(raw...)
		}
		m = b.Build()
	}); st != "" {
		return fmt.Sprintf("mocking panics with %v", pv)
	}
	msg := call("mocked", 0, mocked)
	if msg == "" && cond {
		if !sameVals(seen, args) {
			msg = fmt.Sprintf("the condition sees %.100v, not %.100v", seen, args)
		} else if !s.recv && info.UsedParamType(0) != t { // the dictionary of a method starts with its receiver
			msg = fmt.Sprintf("the generic information does not tell the type argument")
		}
		if on = false; msg == "" {
			msg = call("passed through", 1, want[false])
		}
		on = true
	}
	if msg == "" && hooked {
		useOrigin = true
		msg = call("through origin", 1, want[false])
		useOrigin = false
	}
	if msg == "" {
		msg = call("mocked again", 0, mocked)
	}
	if pv, st := guarded(func() { m.UnPatch() }); st != "" {
		return fmt.Sprintf("releasing panics with %v", pv)
	}
	if msg == "" {
		msg = call("released", 1, want[false])
	}
	rep.Distinct(fmt.Sprint("size ", s.what, t.Size(), t.Kind(), cond, hooked))
	runtime.KeepAlive(raw)
	return msg
}

func allSizes(rep *Report) {
	r := rand.New(rand.NewSource(*fSeed))
	for round := *fFrom; more(rep, round); round++ {
		for _, i := range r.Perm(len(sizeCases)) {
			c := sizeCases[i]
			rep.Case("generics of %v", c.t)
			if msg := c.run(rep, r); msg != "" {
				rep.Violation("sizes", fmt.Sprintf("type argument %v: %s", c.t, msg), nil)
				return
			}
		}
	}
}
