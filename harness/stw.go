package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zoo"
	"github.com/bytedance/mockey/verifh/zrt"
)

func init() { workloads["stw17"] = stopTheWorldRounds }

// stopTheWorldRounds mocks and releases functions while busy goroutines run other functions of the same pages. Goroutines never are in
// the head of a target while it is written, see known finding K8.
func stopTheWorldRounds(rep *Report) {
	zrt.Quiet = true
	for i := *fFrom; more(rep, i); i++ {
		rep.Case("%s seed=%d round=%d", *fProfile, *fSeed, i)
		if !stwRound(rep, rand.New(rand.NewSource(*fSeed*5000011+int64(i)))) {
			return
		}
	}
}

func spinRef1(a, b uint64) uint64 {
	for i := uint64(0); i < 50; i++ {
		a = a*6364136223846793005 + b + i
	}
	return a
}

func spinRef2(a, b uint64) uint64 {
	for i := uint64(0); i < 50; i++ {
		b ^= b<<13 ^ a
		b ^= b >> 7
	}
	return b
}

// caller is a parked goroutine that calls what it is told to
type caller struct {
	in  chan func()
	ack chan bool
}

func stwRound(rep *Report, r *rand.Rand) bool {
	var stop atomic.Bool
	var bad atomic.Pointer[string]
	fail := func(format string, a ...any) {
		s := fmt.Sprintf(format, a...)
		bad.CompareAndSwap(nil, &s)
	}
	// leaf functions by address: some are mocked, their neighbours are called by the busy goroutines
	var leaves []*zrt.Target
	for _, t := range zrt.Targets {
		if t.Expect != nil && !t.Generic {
			leaves = append(leaves, t)
		}
	}
	addr := func(t *zrt.Target) uintptr { return reflect.ValueOf(t.Fn).Pointer() }
	sort.Slice(leaves, func(i, j int) bool { return addr(leaves[i]) < addr(leaves[j]) })
	var mocked, others []*zrt.Target
	shapes := map[string]bool{}
	for _, t := range leaves {
		if r.Intn(2) == 0 && !shapes[t.Shape] {
			mocked = append(mocked, t)
		} else {
			others = append(others, t)
		}
		shapes[t.Shape] = true
	}
	if len(mocked) == 0 {
		return true
	}
	samePage := 0
	pages := map[uintptr]bool{}
	for _, t := range mocked {
		pages[addr(t)>>12] = true
	}
	for _, t := range others {
		if pages[addr(t)>>12] {
			samePage++
		}
	}
	W := 2 + r.Intn(7)
	var wg sync.WaitGroup
	var work atomic.Int64
	for w := 0; w < W; w++ {
		wg.Add(1)
		sd := r.Int63()
		go func() {
			defer wg.Done()
			wr := rand.New(rand.NewSource(sd))
			if wr.Intn(3) == 0 {
				runtime.LockOSThread()
			}
			for !stop.Load() && bad.Load() == nil {
				work.Add(1)
				busyWork(wr, others, fail)
			}
		}()
	}
	C := 1 + r.Intn(6)
	cs := make([]caller, C)
	for i := range cs {
		cs[i] = caller{make(chan func()), make(chan bool)}
		go func(c caller) {
			for f := range c.in {
				f()
				c.ack <- true
			}
		}(cs[i])
	}
	all := func(f func(k int, wr *rand.Rand)) {
		for k := range cs {
			wr := rand.New(rand.NewSource(r.Int63()))
			cs[k].in <- func() { f(k, wr) }
		}
		for k := range cs {
			<-cs[k].ack
		}
	}
	M := (30 + r.Intn(60)) * *fScale
	patched := 0
	for i := 0; i < M && bad.Load() == nil; i++ {
		if r.Intn(3) == 0 {
			holdCycle(rep, r, fail, &patched)
			continue
		}
		t := mocked[r.Intn(len(mocked))]
		outs := make([]any, len(t.Out()))
		for k, o := range t.Out() {
			outs[k] = zrt.GenAny(o, r)
		}
		hook := reflect.MakeFunc(t.T, func([]reflect.Value) []reflect.Value {
			res := make([]reflect.Value, len(outs))
			for k, o := range t.Out() {
				res[k] = reflect.New(o).Elem()
				if outs[k] != nil {
					res[k].Set(reflect.ValueOf(outs[k]))
				}
			}
			return res
		})
		per := 1 + r.Intn(4)
		check := func(what string, hooked bool) {
			all(func(_ int, wr *rand.Rand) {
				for n := 0; n < per; n++ {
					args, kind := concArgs(t, wr)
					want := outs
					if !hooked {
						want = t.Expect(args)
					}
					var got []any
					pv, _ := guarded(func() { got = t.Call(kind, args) })
					gs, gl := zrt.DigestArgs(t.Out(), got)
					ws, wl := zrt.DigestArgs(t.Out(), want)
					if pv != nil || gs != ws || gl != wl {
						fail("%s, a call of %s (%s) gave %v (panic %v), want %v", what, t.Name, t.Kinds[kind], descs(got), pv, descs(want))
					}
				}
			})
		}
		m := mockey.Mock(t.Fn).To(hook.Interface()).Build()
		patched++
		check("after the mock was made", true)
		if n := m.Times(); n != C*per {
			fail("%d calls of mocked %s were counted as %d", C*per, t.Name, n)
		}
		m.UnPatch()
		check("after the release", false)
		rep.Count("calls of targets from other goroutines", 2*C*per)
		rep.Distinct(fmt.Sprintf("stw %s busy=%d callers=%d", t.Name, W, C))
	}
	stop.Store(true)
	wg.Wait()
	for _, c := range cs {
		close(c.in)
	}
	rep.Count("mocks made and released while others run", patched)
	rep.Count("pieces of busy work checked", int(work.Load()))
	rep.Max("functions called in the pages of mocked ones", samePage)
	if b := bad.Load(); b != nil {
		rep.Violation("stw", *b, nil)
		return false
	}
	return true
}

// busyWork runs something whose result is known
func busyWork(r *rand.Rand, others []*zrt.Target, fail func(string, ...any)) {
	switch k := r.Intn(40); {
	case k < 18:
		for n := 0; n < 200; n++ {
			a, b := r.Uint64(), r.Uint64()
			if zoo.Spin1(a, b) != spinRef1(a, b) || zoo.Spin2(a, b) != spinRef2(a, b) {
				fail("a function in the page of a target computed something wrong")
			}
		}
	case k < 30 && len(others) > 0:
		for n := 0; n < 20; n++ {
			t := others[r.Intn(len(others))]
			args, kind := concArgs(t, r)
			var got []any
			pv, _ := guarded(func() { got = t.Call(kind, args) })
			gs, gl := zrt.DigestArgs(t.Out(), got)
			want := t.Expect(args)
			ws, wl := zrt.DigestArgs(t.Out(), want)
			if pv != nil || gs != ws || gl != wl {
				fail("%s, which is not mocked, gave %v (panic %v), want %v", t.Name, descs(got), pv, descs(want))
			}
		}
	case k < 32:
		m := map[string]int{}
		for i := 0; i < 100; i++ {
			m[fmt.Sprint("k", i%10)] += i
		}
		s := 0
		for _, v := range m {
			s += v
		}
		if s != 4950 {
			fail("map arithmetic is wrong")
		}
	case k < 34:
		if b, err := os.ReadFile("/proc/self/comm"); err != nil || len(b) == 0 || syscall.Getpid() != os.Getpid() {
			fail("system calls failed: %v", err)
		}
		time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
	case k < 36:
		ch := make(chan int)
		go func() {
			for i := 0; i < 50; i++ {
				ch <- i
			}
			close(ch)
		}()
		s := 0
		for v := range ch {
			s += v
		}
		if s != 49*25 {
			fail("values of a channel are lost")
		}
	case k < 37:
		runtime.GC()
	case k < 38:
		for i := 0; i < 20; i++ {
			if v, _ := guarded(func() { panic(i) }); v != i {
				fail("a panic got lost")
			}
		}
	default:
		n := 0
		atDepth(50, r.Intn(600), func() { n++ })
		if n != 1 || strings.Repeat("ab", 30)[59] != 'b' {
			fail("deep call failed")
		}
	}
}

// holdCycle mocks, releases and re-mocks a function while calls are inside the original or the hook
func holdCycle(rep *Report, r *rand.Rand, fail func(string, ...any), patched *int) {
	G := 1 + r.Intn(5)
	busy := r.Intn(2) == 0
	type holder struct {
		inside chan bool
		leave  chan bool
		out    atomic.Bool
	}
	hs := map[int]*holder{}
	var mu sync.Mutex
	zoo.HoldGate = func(id int) {
		mu.Lock()
		h := hs[id]
		mu.Unlock()
		if h == nil {
			return
		}
		h.inside <- true
		if busy {
			for !h.out.Load() {
			}
		} else {
			<-h.leave
		}
	}
	hold := func(id int) *holder {
		h := &holder{inside: make(chan bool, 1), leave: make(chan bool, 1)}
		mu.Lock()
		hs[id] = h
		mu.Unlock()
		return h
	}
	leave := func(h *holder) { h.out.Store(true); h.leave <- true }
	form := r.Intn(4)
	rcv := &zoo.RSmall{A: 1, B: "rcv"}
	// call returns "o<id>" for the original, "h<id>" for the hook
	call := func(id int) string {
		switch form {
		case 0:
			if v := zoo.Hold1(id); v == id*3+1 {
				return fmt.Sprint("o", id)
			} else {
				return fmt.Sprint("h", -v)
			}
		case 1:
			a, b, c := zoo.Hold2([30]int{id, 5, 29: 6}, "s", "t")
			if a == id*3+1 && b == [20]int{5, 19: 6} && c == "s" {
				return fmt.Sprint("o", id)
			}
			return fmt.Sprint("h", -a)
		case 2:
			a, err := rcv.Hold3(id)
			if a == "rcv" && err == nil {
				return fmt.Sprint("o", id)
			}
			return a
		default:
			a, b := zoo.HoldGen(id, "v")
			if a == id*3+1 && b == "v" {
				return fmt.Sprint("o", id)
			}
			return fmt.Sprint("h", -a)
		}
	}
	build := func(pass bool) *mockey.Mocker {
		*patched++
		var b *mockey.MockBuilder
		switch form {
		case 0:
			b = mockey.Mock(zoo.Hold1).To(func(id int) int { zoo.HoldGate(id); return -id })
			if pass {
				b.When(func(id int) bool { return false })
			}
		case 1:
			b = mockey.Mock(zoo.Hold2).To(func(a [30]int, s ...string) (int, [20]int, string) {
				zoo.HoldGate(a[0])
				return -a[0], [20]int{}, ""
			})
			if pass {
				b.When(func(a [30]int, s ...string) bool { return false })
			}
		case 2:
			b = mockey.Mock((*zoo.RSmall).Hold3).To(func(id int) (string, error) { zoo.HoldGate(id); return fmt.Sprint("h", id), nil })
			if pass {
				b.When(func(id int) bool { return false })
			}
		default:
			b = mockey.MockGeneric(zoo.HoldGen[string]).To(func(id int, v string) (int, string) { zoo.HoldGate(id); return -id, "" })
			if pass {
				b.When(func(id int, v string) bool { return false })
			}
		}
		return b.Build()
	}
	next := 1
	type pend struct {
		h    *holder
		res  chan string
		want string
	}
	var ps []pend
	start := func(want string) {
		for i := 0; i < G; i++ {
			id := next
			next++
			h := hold(id)
			p := pend{h, make(chan string, 1), fmt.Sprint(want, id)}
			ps = append(ps, p)
			go func() { p.res <- call(id) }()
			<-h.inside
		}
	}
	finish := func(n int, when string) {
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		for ; n > 0 && len(ps) > 0; n-- {
			leave(ps[0].h)
			if got := <-ps[0].res; got != ps[0].want {
				fail("a call in progress finished %s with %s, want %s (form %d)", when, got, ps[0].want, form)
			}
			ps = ps[1:]
			rep.Count("calls in progress across mocking or releasing", 1)
		}
	}
	var m *mockey.Mocker
	kind := "o"
	for step := 0; step < 3+r.Intn(4); step++ {
		if busy && len(ps) > 3 {
			finish(len(ps)-1, "in between")
		}
		start(kind)
		finish(r.Intn(3), "at once")
		if m == nil {
			pass := r.Intn(3) == 0
			kind = "h"
			if pass {
				kind = "o"
			}
			m = build(pass)
		} else {
			m.UnPatch()
			kind = "o"
			m = nil
		}
		finish(r.Intn(len(ps)+1), "after a change")
	}
	finish(len(ps), "at the end")
	if m != nil {
		m.UnPatch()
	}
	zoo.HoldGate = func(int) {}
	if got := call(0); got != "o0" && form != 0 {
		fail("after all releases the original is not back (form %d): %s", form, got)
	}
	rep.Distinct(fmt.Sprintf("hold form %d goroutines %d busy %v", form, G, busy))
}
