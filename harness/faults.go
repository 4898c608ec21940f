package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
)

func init() { workloads["faults23"] = faultRounds }

//go:noinline
func fltInt(a int) string {
	n := 1
	for i := 0; i < a%7; i++ {
		n *= a
	}
	return fmt.Sprint("real ", n)
}

//go:noinline
func fltBig(a [5]int, f float64, m map[string]int) (r [3]int, err error) {
	for i, x := range a {
		r[i%3] += x * int(f)
	}
	if m["x"] > 3 {
		err = errors.New("x")
	}
	return
}

type fltT struct{ n int }

//go:noinline
func (t *fltT) Meth(a ...string) (string, int) { return strings.Join(a, ","), t.n + len(a) }

//go:noinline
func (t fltT) Val(c complex128) (complex128, string) { return c * 2, fmt.Sprint(t.n) }

//go:noinline
func fltGen[T any](a T, n int) (T, string) { return a, fmt.Sprint("real ", n) }

var fltSink any

// heap makes sure that x does not point into the stack (K6)
//
//go:noinline
func heap[T any](x T) T {
	fltSink = x
	return x
}

// fltTarget is one function that is mocked: build mocks it so that it returns values made of k, or only for odd n when cond is set
type fltTarget struct {
	name   string
	build  func(k int, cond bool) *mockey.MockBuilder
	call   func(n int) string
	mocked func(k int) string
	to     func(m *mockey.Mocker, k int) // another result
}

func (t fltTarget) real(n int) string { return fltReal[t.name][n] }

var fltReal = map[string][6]string{}

var fltTargets = []fltTarget{
	{"func", func(k int, cond bool) *mockey.MockBuilder {
		b := mockey.Mock(fltInt)
		if cond {
			b.When(func(a int) bool { return a%2 == 1 })
		}
		return b.Return(fmt.Sprint("mock ", k))
	}, func(n int) string { return fltInt(n) }, func(k int) string { return fmt.Sprint("mock ", k) },
		func(m *mockey.Mocker, k int) { m.Return(fmt.Sprint("mock ", k)) }},
	{"big func", func(k int, cond bool) *mockey.MockBuilder {
		b := mockey.Mock(fltBig)
		if cond {
			b.When(func(a [5]int, f float64, m map[string]int) bool { return a[0]%2 == 1 })
		}
		return b.To(func(a [5]int, f float64, m map[string]int) ([3]int, error) { return [3]int{k}, nil })
	}, func(n int) string { return fmt.Sprint(fltBig([5]int{n, 2, 3, 4, 5}, 2, heap(map[string]int{"x": n}))) }, func(k int) string { return fmt.Sprint([3]int{k}, nil) },
		func(m *mockey.Mocker, k int) {
			m.To(func(a [5]int, f float64, m map[string]int) ([3]int, error) { return [3]int{k}, nil })
		}},
	{"method", func(k int, cond bool) *mockey.MockBuilder {
		b := mockey.Mock((*fltT).Meth)
		if cond {
			b.When(func(t *fltT, a ...string) bool { return t.n%2 == 1 })
		}
		return b.Return("mock", k)
	}, func(n int) string { return fmt.Sprint(heap(&fltT{n}).Meth(heap([]string{"a", "b"})...)) }, func(k int) string { return fmt.Sprint("mock", k) },
		func(m *mockey.Mocker, k int) { m.Return("mock", k) }},
	{"value method", func(k int, cond bool) *mockey.MockBuilder {
		b := mockey.Mock(fltT.Val)
		if cond {
			b.When(func(t fltT, c complex128) bool { return t.n%2 == 1 })
		}
		return b.Return(complex(float64(k), 0), "mock")
	}, func(n int) string { return fmt.Sprint((fltT{n}).Val(3)) }, func(k int) string { return fmt.Sprint(complex(float64(k), 0), "mock") },
		func(m *mockey.Mocker, k int) { m.Return(complex(float64(k), 0), "mock") }},
	{"generic", func(k int, cond bool) *mockey.MockBuilder {
		b := mockey.MockGeneric(fltGen[string])
		if cond {
			b.When(func(a string, n int) bool { return n%2 == 1 })
		}
		return b.Return("mock", fmt.Sprint(k))
	}, func(n int) string { return fmt.Sprint(fltGen("x", n)) }, func(k int) string { return fmt.Sprint("mock", k) },
		func(m *mockey.Mocker, k int) { m.Return("mock", fmt.Sprint(k)) }},
}

// ---------------------------------------------------------------- refused system calls

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

// fault is a system call that fails: nr with the value in argument arg
type fault struct {
	name  string
	nr    uint32
	arg   int
	val   uint32
	errno uint32
}

var faults = []fault{
	{"no memory for pages", syscall.SYS_MMAP, 1, 4096, uint32(syscall.ENOMEM)},
	{"pages cannot be made writable", syscall.SYS_MPROTECT, 2, 3, uint32(syscall.EACCES)},
	{"pages cannot be made writable (limit)", syscall.SYS_MPROTECT, 2, 3, uint32(syscall.ENOMEM)},
	{"pages cannot be made writable and executable", syscall.SYS_MPROTECT, 2, 7, uint32(syscall.EACCES)}, // as the Windows sources ask for
	{"pages cannot be made executable", syscall.SYS_MPROTECT, 2, 5, uint32(syscall.EPERM)},
}

// refuse installs a filter in the current thread
func refuse(f fault) error {
	prog := []sockFilter{
		{0x20, 0, 0, 0}, // the number
		{0x15, 0, 3, f.nr},
		{0x20, 0, 0, uint32(16 + 8*f.arg)},
		{0x15, 0, 1, f.val},
		{0x06, 0, 0, 0x00050000 | f.errno},
		{0x06, 0, 0, 0x7fff0000},
	}
	fprog := struct {
		n uint16
		p *sockFilter
	}{uint16(len(prog)), &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return e
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_PRCTL, 22, 2, uintptr(unsafe.Pointer(&fprog))); e != 0 {
		return e
	}
	return nil
}

// under runs f in a thread of its own in which the system calls fail
func under(ft fault, f func()) (pv any, err error) {
	before := runtime.NumGoroutine()
	done := make(chan bool)
	go func() {
		defer close(done)
		runtime.LockOSThread() // and never unlocked: the thread ends with the goroutine
		if err = refuse(ft); err != nil {
			return
		}
		pv, _ = guarded(f)
	}()
	<-done
	// while another function of this page is mocked the goroutine must not run in it
	for runtime.NumGoroutine() > before {
		runtime.Gosched()
	}
	return
}

// ---------------------------------------------------------------- rounds

func faultRounds(rep *Report) {
	text := newTextMonitor()
	for _, t := range fltTargets {
		var rs [6]string
		for n := range rs {
			rs[n] = t.call(n)
		}
		fltReal[t.name] = rs
	}
	for i := *fFrom; more(rep, i); i++ {
		r := rand.New(rand.NewSource(*fSeed*7000003 + int64(i)))
		for _, t := range fltTargets {
			for _, ft := range faults {
				rep.Case("%s seed=%d round=%d %s %s", *fProfile, *fSeed, i, t.name, ft.name)
				// half of the rounds leave the release of the mock to the end of their scope
				ok, scoped := false, r.Intn(2) == 0
				if scoped {
					pv, _ := guarded(func() {
						mockey.PatchConvey(fmt.Sprint("faults", i, t.name, ft.name), &failer{}, func() { ok = faultRound(rep, r, t, ft, true) })
					})
					if pv != nil {
						rep.Violation("fault", fmt.Sprintf("%s, %s: leaving the scope panicked with %v", t.name, ft.name, pv), nil)
						return
					}
				} else {
					ok = faultRound(rep, r, t, ft, false)
				}
				if !ok {
					return
				}
				for n := 0; n < 6; n++ {
					if got, want := t.call(n), t.real(n); got != want {
						rep.Violation("fault", fmt.Sprintf("%s, %s: after everything was released (by the scope: %v) a call gives %s instead of %s", t.name, ft.name, scoped, got, want), nil)
						return
					}
				}
			}
		}
		if s := text.check(func(uintptr) bool { return false }, 1<<30); s != "" {
			rep.Violation("code", "after everything was released: "+s, nil)
			return
		}
	}
}

func faultRound(rep *Report, r *rand.Rand, t fltTarget, ft fault, scoped bool) bool {
	var trace []string
	bad := func(f string, a ...any) bool {
		rep.Violation("fault", fmt.Sprintf("%s, %s: ", t.name, ft.name)+fmt.Sprintf(f, a...), trace)
		return false
	}
	real := map[int]string{}
	for n := 0; n < 6; n++ {
		real[n] = t.real(n)
		if t.call(n) != real[n] {
			return bad("it is mocked in the beginning")
		}
	}
	// what the target may be now: nothing, or a mock returning k for all or the odd arguments
	type state struct {
		active bool
		k      int
		cond   bool
	}
	show := func(s state) string {
		if !s.active {
			return "not mocked"
		}
		return fmt.Sprintf("mocked with %d (condition %v)", s.k, s.cond)
	}
	matches := func(s state) bool {
		for n := 0; n < 6; n++ {
			want := real[n]
			if s.active && (!s.cond || n%2 == 1) {
				want = t.mocked(s.k)
			}
			rep.Counts["calls after a failure or an operation"]++
			if t.call(n) != want {
				return false
			}
		}
		return true
	}
	cur := state{}
	var m *mockey.Mocker
	cond := r.Intn(2) == 0
	k := 0
	others := r.Intn(3) // mocks that make pages adjacent and exist before
	var extra []*mockey.Mocker
	for i, o := range fltTargets {
		if i < others && o.name != t.name {
			extra = append(extra, o.build(1000+i, false).Build())
		}
	}
	defer func() {
		for _, e := range extra {
			e.UnPatch()
		}
	}()
	for step := 0; step < 8; step++ {
		k++
		type op struct {
			name  string
			run   func()
			after state
			also  []state // other states that are possible after a failure
		}
		var ops []op
		var nm *mockey.Mocker
		if m == nil {
			ops = append(ops, op{"Build", func() { nm = t.build(k, cond).Build() }, state{true, k, cond}, nil})
		} else if cur.active {
			ops = append(ops, op{"UnPatch", func() { m.UnPatch() }, state{}, nil})
			ops = append(ops, op{"Release", func() { m.Release() }, state{}, nil})
			// a reconfiguration releases and mocks again: the failure can be in between
			ops = append(ops, op{"reconfiguration", func() { t.to(m, k) }, state{true, k, cur.cond}, []state{{}, {true, k, cur.cond}}})
		} else {
			ops = append(ops, op{"Patch", func() { m.Patch() }, state{true, cur.k, cur.cond}, nil})
		}
		o := ops[r.Intn(len(ops))]
		fails := r.Intn(3) > 0
		if fails && ft.val == 5 && cur.active {
			fails = false // the page of the target would stay not executable, which nobody can mend
		}
		before := cur
		if !fails {
			pv, _ := guarded(o.run)
			trace = append(trace, fmt.Sprintf("%s: %v", o.name, pv))
			if pv != nil {
				return bad("%s without any failing system call panicked with %v", o.name, pv)
			}
			cur = o.after
			if cur.k == 0 {
				cur.k, cur.cond = before.k, before.cond
			}
			if !matches(cur) {
				return bad("after %s the target is not %s", o.name, show(cur))
			}
		} else {
			rep.Evals++
			rep.Journal(fmt.Sprintf("%s: %s while %s (then every call of %s is checked)", t.name, o.name, ft.name, t.name))
			pv, err := under(ft, o.run)
			trace = append(trace, fmt.Sprintf("%s with failing system calls: %v", o.name, pv))
			if err != nil {
				rep.Counts["system calls cannot be made to fail here"]++
				return true
			}
			rep.Distinct(fmt.Sprint(t.name, ft.name, o.name, pv != nil, before, len(extra)))
			if pv == nil {
				rep.Counts["operations that need no failing system call"]++
				cur = o.after
				if cur.k == 0 {
					cur.k, cur.cond = before.k, before.cond
				}
				if !matches(cur) {
					return bad("%s did not fail, but the target is not %s", o.name, show(cur))
				}
			} else {
				rep.Counts["operations that failed"]++
				if _, ok := pv.(runtime.Error); ok {
					return bad("%s failed with the runtime error %v", o.name, pv)
				}
				if !matches(before) {
					ok := false
					for _, s := range o.also {
						if matches(s) {
							cur, ok = s, true
							cur.k, cur.cond = before.k, before.cond
							if o.name == "reconfiguration" {
								cur.k = k
							}
						}
					}
					if !ok {
						return bad("%s failed (%v), but the target is not %s any more", o.name, pv, show(before))
					}
					// which of the two configurations remains is not said
					m.UnPatch()
					if g, _ := guarded(func() { m.Patch() }); g != nil {
						return bad("Patch after the failed %s panicked with %v", o.name, g)
					}
					a, b := state{true, before.k, before.cond}, state{true, k, before.cond}
					switch {
					case matches(a):
						cur = a
					case matches(b):
						cur = b
					default:
						return bad("after the failed %s and Patch the target is neither %s nor %s", o.name, show(a), show(b))
					}
				}
			}
		}
		if nm != nil {
			m = nm
		}
		if o.name == "Release" && !cur.active {
			m = nil // configured anew next time
			cur = state{}
		}
		for i, e := range extra {
			_ = e
			o := fltTargets[i]
			if o.name != t.name && o.call(3) != o.mocked(1000+i) {
				return bad("another mock has lost its effect")
			}
		}
	}
	if m != nil && !scoped {
		if pv, _ := guarded(func() { m.UnPatch() }); pv != nil {
			return bad("UnPatch panicked with %v", pv)
		}
	}
	if !scoped && !matches(state{}) {
		return bad("the target is still mocked in the end")
	}
	return true
}
