package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zoo"
)

func init() { workloads["gc15"] = gcRounds }

// payload is a pointer-rich value whose content can be checked
type payload struct {
	id   uint64
	next *payload
	m    map[string]*int
	s    []string
	f    func() uint64
	i    any
	self **payload
	tag  *[4]uint64 // watched: without cycles
}

func newPayload(id uint64, depth int) *payload {
	n := int(id)
	p := &payload{id: id, m: map[string]*int{fmt.Sprint("k", id): &n}, s: []string{fmt.Sprint("s", id), fmt.Sprint("t", id)}}
	p.f = func() uint64 { return id*3 + uint64(n) }
	p.i = fmt.Sprint("i", id)
	q := p
	p.self = &q
	if depth > 0 {
		p.next = newPayload(id+1, depth-1)
	}
	return p
}

func (p *payload) bad(id uint64, depth int) string {
	if p == nil {
		return "nil"
	}
	if p.id != id {
		return fmt.Sprintf("id %x instead of %x", p.id, id)
	}
	if v := p.m[fmt.Sprint("k", id)]; len(p.m) != 1 || v == nil || *v != int(id) {
		return "map content"
	}
	if len(p.s) != 2 || p.s[0] != fmt.Sprint("s", id) || p.s[1] != fmt.Sprint("t", id) {
		return "slice content"
	}
	if p.i != fmt.Sprint("i", id) || p.f() != id*4 || *p.self != p {
		return "interface, closure or self pointer"
	}
	if depth > 0 {
		return p.next.bad(id+1, depth-1)
	}
	return ""
}

//go:noinline
func garbage(n int) {
	var keep [8]*payload
	for i := 0; i < n; i++ {
		keep[i&7] = newPayload(uint64(i)|1<<40, 1)
	}
	_ = keep
}

func churn(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		garbage(50)
	case 1:
		runtime.GC()
	case 2:
		garbage(20)
		runtime.GC()
		garbage(20)
	case 3:
		deepChurn(r.Intn(200))
	}
}

//go:noinline
func deepChurn(n int) byte {
	var b [300]byte
	b[n] = byte(n)
	if n > 0 {
		b[0] = deepChurn(n - 1)
	} else {
		garbage(10)
	}
	return b[n]
}

// escape keeps arguments off the callers' stacks: pointers into the stack of the caller are the subject of K6
var (
	escapeNever bool
	escapeSink  []any
)

func escape(a ...any) {
	if escapeNever {
		escapeSink = append(escapeSink, a...)
	}
}

// targets; the originals check their arguments themselves
var gcBad atomic.Pointer[string]

func gcFail(where, what string) {
	if what != "" {
		s := where + ": " + what
		gcBad.CompareAndSwap(nil, &s)
	}
}

type gcBig struct {
	p   [6]*payload
	pad [100]int64
	q   *payload
}

//go:noinline
func gcA(p *payload, id uint64, b gcBig, v ...*payload) (*payload, gcBig, error) {
	escape(p, b, v)
	garbage(3)
	gcFail("original, pointer", p.bad(id, 2))
	gcFail("original, struct", b.q.bad(id+7, 1))
	for i, x := range v {
		gcFail("original, variadic", x.bad(id+uint64(i)*100, 0))
	}
	return newPayload(id+1000, 2), gcBig{q: newPayload(id+2000, 1)}, nil
}

type gcRecv struct {
	x *payload
	n int
}

//go:noinline
func (g gcRecv) M(id uint64, p *payload, f func() *payload, a any) (any, map[int]*payload) {
	escape(g, p, f, a)
	garbage(3)
	gcFail("original, receiver", g.x.bad(id, 1))
	gcFail("original, method argument", p.bad(id+5, 1))
	gcFail("original, closure", f().bad(id+6, 0))
	gcFail("original, interface", a.(*payload).bad(id+7, 0))
	return newPayload(id+1000, 0), map[int]*payload{1: newPayload(id+2000, 0)}
}

//go:noinline
func gcG[T any](p *payload, id uint64, t T) (T, *payload) {
	escape(p, t)
	garbage(3)
	gcFail("original, generic", p.bad(id, 0))
	return t, newPayload(id+1000, 1)
}

func callA(id uint64, mocked bool, depth int) {
	off := uint64(1000)
	if mocked {
		off = 5000
	}
	do := func() {
		p, b, _ := gcA(newPayload(id, 2), id, gcBig{q: newPayload(id+7, 1)}, newPayload(id, 0), newPayload(id+100, 0))
		garbage(3)
		gcFail("result, pointer", p.bad(id+off, 2))
		gcFail("result, struct", b.q.bad(id+off+1000, 1))
	}
	if depth >= 0 {
		done := make(chan bool)
		go func() { defer close(done); atDepth(depth&63, depth, do) }()
		<-done
		return
	}
	do()
}

func callM(id uint64, mocked bool, depth int) {
	off := uint64(1000)
	if mocked {
		off = 5000
	}
	do := func() {
		q := newPayload(id+6, 0)
		a, m := gcRecv{newPayload(id, 1), 3}.M(id, newPayload(id+5, 1), func() *payload { return q }, newPayload(id+7, 0))
		garbage(3)
		gcFail("result, interface", a.(*payload).bad(id+off, 0))
		gcFail("result, map", m[1].bad(id+off+1000, 0))
	}
	if depth >= 0 {
		done := make(chan bool)
		go func() { defer close(done); atDepth(depth&63, depth, do) }()
		<-done
		return
	}
	do()
}

func callG(id uint64, mocked bool, depth int) {
	off := uint64(1000)
	if mocked {
		off = 5000
	}
	do := func() {
		t, p := gcG(newPayload(id, 0), id, []*payload{newPayload(id+9, 0)})
		garbage(3)
		gcFail("result, generic", p.bad(id+off, 1))
		gcFail("result, type parameter", t[0].bad(id+9, 0))
	}
	if depth >= 0 {
		done := make(chan bool)
		go func() { defer close(done); atDepth(depth&63, depth, do) }()
		<-done
		return
	}
	do()
}

// the hooks' captured state hangs on nothing but the mock
//
//go:noinline
func mockAll(r *rand.Rand, collected *[]*atomic.Bool, keep *[]*mockey.Mocker, mode int) {
	watch := func(p *payload) *payload {
		b := &atomic.Bool{}
		*collected = append(*collected, b)
		p.tag = new([4]uint64)
		runtime.SetFinalizer(p.tag, func(*[4]uint64) { b.Store(true) })
		return p
	}
	capID := r.Uint64() >> 8
	capture := func() (*payload, uint64) {
		capID += 64
		return watch(newPayload(capID, 2)), capID
	}
	cw, cwid := capture()
	ch, chid := capture()
	var sd int64 = r.Int63()
	var mu sync.Mutex
	wr := rand.New(rand.NewSource(sd))
	ch2 := func() {
		mu.Lock()
		k := wr.Intn(6)
		mu.Unlock()
		if k < 4 {
			churn(rand.New(rand.NewSource(int64(k))))
		}
	}
	when := func(id uint64) bool {
		gcFail("captured by a condition", cw.bad(cwid, 2))
		ch2()
		gcFail("captured by a condition", cw.bad(cwid, 2))
		return mode != 0
	}
	var orgA func(p *payload, id uint64, b gcBig, v ...*payload) (*payload, gcBig, error)
	ba := mockey.Mock(gcA).When(func(p *payload, id uint64, b gcBig, v ...*payload) bool {
		ok := when(id)
		gcFail("condition argument", p.bad(id, 2))
		return ok
	})
	if mode == 3 {
		ba.Origin(&orgA)
	}
	ba.To(func(p *payload, id uint64, b gcBig, v ...*payload) (*payload, gcBig, error) {
		ch2()
		gcFail("captured by a hook", ch.bad(chid, 2))
		gcFail("hook argument", p.bad(id, 2))
		gcFail("hook struct argument", b.q.bad(id+7, 1))
		for i, x := range v {
			gcFail("hook variadic argument", x.bad(id+uint64(i)*100, 0))
		}
		if mode == 3 {
			r, b2, _ := orgA(p, id, b, v...)
			ch2()
			gcFail("origin result", r.bad(id+1000, 2))
			gcFail("origin struct result", b2.q.bad(id+2000, 1))
		}
		return newPayload(id+5000, 2), gcBig{q: newPayload(id+6000, 1)}, nil
	})
	bm := mockey.Mock(gcRecv.M).When(func(id uint64, p *payload, f func() *payload, a any) bool { return when(id) }).
		To(func(g gcRecv, id uint64, p *payload, f func() *payload, a any) (any, map[int]*payload) {
			ch2()
			gcFail("hook receiver", g.x.bad(id, 1))
			gcFail("hook closure argument", f().bad(id+6, 0))
			gcFail("captured by a hook", ch.bad(chid, 2))
			return newPayload(id+5000, 0), map[int]*payload{1: newPayload(id+6000, 0)}
		})
	bg := mockey.MockGeneric(gcG[[]*payload]).When(func(i mockey.GenericInfo, p *payload, id uint64, t []*payload) bool { return when(id) }).
		To(func(p *payload, id uint64, t []*payload) ([]*payload, *payload) {
			ch2()
			gcFail("hook generic argument", t[0].bad(id+9, 0))
			gcFail("captured by a hook", ch.bad(chid, 2))
			return t, newPayload(id+5000, 1)
		})
	for _, b := range []*mockey.MockBuilder{ba, bm, bg} {
		m := b.Build()
		if keep != nil {
			*keep = append(*keep, m)
		}
	}
}

//go:noinline
func wipeStack(n int) byte {
	var b [4096]byte
	if n > 0 {
		b[n] = wipeStack(n - 1)
	}
	return b[n]
}

// waitCollected runs collections until all watched objects are gone
func waitCollected(c []*atomic.Bool) int {
	left := 0
	for i := 0; i < 40; i++ {
		wipeStack(10)
		runtime.GC()
		time.Sleep(time.Duration(i) * time.Millisecond / 2)
		left = 0
		for _, b := range c {
			if !b.Load() {
				left++
			}
		}
		if left == 0 {
			return 0
		}
	}
	return left
}

func gcRounds(rep *Report) {
	fin := func(kind, msg string) { rep.Violation(kind, msg, nil) }
	for i := *fFrom; more(rep, i); i++ {
		r := rand.New(rand.NewSource(*fSeed*77003 + int64(i)))
		mode := r.Intn(4) // 0: nothing matches, 1-2: hooks, 3: hooks calling origin
		how := r.Intn(3)  // 0: released through the mocks, 1: UnPatchAll without references, 2: PatchConvey without references
		rep.Case("gc seed=%d round=%d mode=%d how=%d", *fSeed, i, mode, how)
		debug.SetGCPercent([]int{5, 20, 100}[r.Intn(3)])
		var collected []*atomic.Bool
		var keep []*mockey.Mocker
		body := func() {
			kp := &keep
			if how > 0 {
				kp = nil
			}
			done := make(chan bool)
			mockAll(r, &collected, kp, mode)
			close(done)
			wipeStack(10)
			for k := 0; k < 3; k++ {
				runtime.GC()
				garbage(100)
			}
			for _, b := range collected {
				if b.Load() {
					fin("lost", "a variable captured by an active mock's hook was collected")
				}
			}
			W := 1 + r.Intn(6)
			if mode == 3 {
				W = 1 // concurrent origin calls: known finding
			}
			var wg sync.WaitGroup
			stop := make(chan bool)
			if r.Intn(2) == 0 {
				go func() {
					for {
						select {
						case <-stop:
							return
						default:
							runtime.GC()
						}
					}
				}()
			}
			for w := 0; w < W; w++ {
				wg.Add(1)
				sd := r.Int63()
				go func() {
					defer wg.Done()
					wr := rand.New(rand.NewSource(sd))
					for k := 0; k < 12**fScale && gcBad.Load() == nil; k++ {
						id := wr.Uint64() >> 8
						depth := -1
						if wr.Intn(2) == 0 {
							depth = wr.Intn(800)
						}
						[]func(uint64, bool, int){callA, callM, callG}[wr.Intn(3)](id, mode != 0, depth)
						rep.Count("calls with checked contents", 1)
					}
				}()
			}
			wg.Wait()
			close(stop)
			for _, b := range collected {
				if b.Load() {
					fin("lost", "a variable captured by an active mock's hook was collected")
				}
			}
		}
		switch how {
		case 2:
			ok := false
			mockey.PatchConvey(fmt.Sprint("gc", i), &failer{}, func() { body(); ok = true })
			if !ok {
				fin("panic", "the body of the scope panicked")
			}
		default:
			body()
			if how == 0 {
				for _, m := range keep {
					m.UnPatch()
				}
				keep = nil
			} else {
				mockey.UnPatchAll()
			}
		}
		if p := gcBad.Load(); p != nil {
			fin("content", *p)
			return
		}
		for _, f := range []func(uint64, bool, int){callA, callM, callG} {
			f(r.Uint64()>>8, false, -1)
		}
		if n := waitCollected(collected); n > 0 {
			fin("leak", fmt.Sprintf("%d of %d values captured by released mocks are never collected (mode %d, how %d)", n, len(collected), mode, how))
			return
		}
		rep.Count("captured values collected after release", len(collected))
		rep.Distinct(fmt.Sprintf("gc mode=%d how=%d", mode, how))
		if !collectArgs(rep, r) || !varsKept(rep, r) {
			return
		}
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	rep.Count("collections", int(ms.NumGC))
}

var kept any

// collectArgs: arguments and results of finished calls are not kept by an active mock
func collectArgs(rep *Report, r *rand.Rand) bool {
	var c []*atomic.Bool
	watch := func() *payload {
		b := &atomic.Bool{}
		c = append(c, b)
		p := &payload{id: 1}
		runtime.SetFinalizer(p, func(*payload) { b.Store(true) })
		return p
	}
	hook := r.Intn(3)
	m := mockey.Mock(gcG2).When(func(p *payload) bool { return hook > 0 })
	if hook == 1 {
		m.Return(nil)
	} else {
		m.To(func(p *payload) *payload { return p })
	}
	x := m.Build()
	func() {
		for i := 0; i < 10; i++ {
			gcG2(watch())
		}
	}()
	n := waitCollected(c)
	x.UnPatch()
	if n > 0 {
		rep.Violation("leak", fmt.Sprintf("%d of %d arguments of finished calls are kept alive by an active mock (hook %d)", n, len(c), hook), nil)
		return false
	}
	rep.Count("arguments of finished calls collected", len(c))
	return true
}

//go:noinline
func gcG2(p *payload) *payload {
	escape(p)
	garbage(1)
	return p
}

var gcVar *payload
var gcVarI any

// varsKept: the saved value of a mocked variable stays alive, the mock value does not outlive the mock
func varsKept(rep *Report, r *rand.Rand) bool {
	var c []*atomic.Bool
	id := r.Uint64() >> 8
	mk := func(id uint64) *payload {
		b := &atomic.Bool{}
		c = append(c, b)
		p := newPayload(id, 1)
		p.tag = new([4]uint64)
		runtime.SetFinalizer(p.tag, func(*[4]uint64) { b.Store(true) })
		return p
	}
	gcVar, gcVarI = mk(id), mk(id+10)
	mockey.MockValue(&gcVar).To(mk(id + 20))
	mockey.MockValue(&gcVarI).To(mk(id + 30))
	for i := 0; i < 3; i++ {
		garbage(100)
		runtime.GC()
	}
	if s := gcVar.bad(id+20, 1) + gcVarI.(*payload).bad(id+30, 1); s != "" {
		rep.Violation("content", "mocked variable: "+s, nil)
		return false
	}
	mockey.UnPatchAll()
	if s := gcVar.bad(id, 1) + gcVarI.(*payload).bad(id+10, 1); s != "" {
		rep.Violation("content", "restored variable: "+s, nil)
		return false
	}
	gcVar, gcVarI = nil, nil
	if n := waitCollected(c); n > 0 {
		rep.Violation("leak", fmt.Sprintf("%d of %d values of released variable mocks are never collected", n, len(c)), nil)
		return false
	}
	rep.Count("variable values collected after release", len(c))
	return true
}

var _ = reflect.TypeOf
var _ = zoo.Spin1
