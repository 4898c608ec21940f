package main

import (
	"debug/elf"
	"fmt"
	"math/bits"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zoo"
	"github.com/bytedance/mockey/verifh/zrt"
)

func init() {
	base := Features{MaxMocks: 8, MultiCond: true, When: true, Return: true, Seq: true, Filter: true, Panics: true, Stack: true, Subset: 4, Deep: true}
	f6 := base
	workloads["conc06"] = func(rep *Report) { concurrent(f6, rep) }
	f8 := base
	f8.FilterAll, f8.Seq = true, false
	workloads["conc08"] = func(rep *Report) { concurrent(f8, rep) }
	workloads["seq07"] = sequences
	workloads["gid08"] = goroutineIDs
	workloads["bigid08"] = bigGoroutineIDs
}

// concMock are the counts the monitors compare a mock's counters with
type concMock struct {
	m             *Mock
	started, done [2]atomic.Int64
}

func concArgs(t *zrt.Target, r *rand.Rand) (args []any, kind int) {
	in := t.In()
	args = make([]any, len(in))
	for i := range in {
		args[i] = zrt.GenAny(in[i], r)
	}
	if t.Recv && in[0].Kind() == reflect.Ptr && reflect.ValueOf(args[0]).IsNil() {
		args[0] = reflect.New(in[0].Elem()).Interface()
	}
	kind = r.Intn(len(t.Kinds))
	switch kn := t.Kinds[kind]; {
	case kn == "spread":
		kind = 0
	case t.Recv && strings.HasPrefix(kn, "methodvalue") && in[0].Kind() == reflect.Func && reflect.ValueOf(args[0]).IsNil():
		kind = 0
	}
	return
}

// concurrent: rounds of fixed mocks called by many goroutines
func concurrent(f Features, rep *Report) {
	for i := *fFrom; more(rep, i); i++ {
		rep.Case("%s seed=%d round=%d", *fProfile, *fSeed, i)
		seed := rand.New(rand.NewSource(*fSeed*7000003 + int64(i))).Int63()
		if !concRound(f, rep, seed, fmt.Sprint("c", i)) {
			return
		}
	}
}

func concRound(f Features, rep *Report, seed int64, name string) (ok bool) {
	r := rand.New(rand.NewSource(seed))
	e := newEng(f, r.Int63(), rep)
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(stop); !is {
				panic(p)
			}
		}
		zrt.Quiet = false
		ok = !e.failed
	}()
	W := []int{2, 4, 8, 16, 33}[r.Intn(5)]
	K := (600 + r.Intn(1200)) * *fScale / W
	gids := make([]int64, W)
	start := make(chan struct{})
	var ready, wg sync.WaitGroup
	var cms []*concMock
	byMock := map[*Mock]*concMock{}
	var failed atomic.Bool
	fail := func(kind, format string, a ...any) {
		if failed.CompareAndSwap(false, true) {
			rep.Violation(kind, fmt.Sprintf(format, a...), e.trace)
		}
	}
	seeds := make([]int64, W)
	for w := range seeds {
		seeds[w] = r.Int63()
	}
	var inter, pass atomic.Int64
	worker := func(w int) {
		defer wg.Done()
		wr := rand.New(rand.NewSource(seeds[w]))
		if wr.Intn(3) == 0 {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
		}
		gids[w] = curGID()
		ready.Done()
		<-start
		for k := 0; k < K && !failed.Load(); k++ {
			t := e.targets[wr.Intn(len(e.targets))]
			args, kind := concArgs(t, wr)
			s := &simCtx{e: e, gid: gids[w], cnt: map[*Mock]*[2]int64{}}
			if t.Kinds[kind] == "go" {
				s.gid = -1 << 40
			}
			wo, wp := s.top(t, args)
			for m, c := range s.cnt {
				byMock[m].started[0].Add(c[0])
				byMock[m].started[1].Add(c[1])
			}
			if wr.Intn(20) == 0 {
				runtime.Gosched()
			}
			var outs []any
			var pv any
			call := func() { pv, _ = guarded(func() { outs = t.Call(kind, args) }) }
			if wr.Intn(10) == 0 {
				atDepth(wr.Intn(60), wr.Intn(700), call)
			} else {
				call()
			}
			for m, c := range s.cnt {
				byMock[m].done[0].Add(c[0])
				byMock[m].done[1].Add(c[1])
			}
			if s.hooked {
				inter.Add(1)
			} else {
				pass.Add(1)
			}
			if !samePanic(wp, pv) {
				fail("panic", "concurrent call of %s (%s) on goroutine %d: panic %v, want %v", t.Name, t.Kinds[kind], gids[w], desc(pv), desc(wp))
				return
			}
			if wp != nil {
				continue
			}
			good := false
			var wants [][]any
			if s.seq == nil {
				wants = [][]any{wo}
			} else {
				for _, it := range s.seq.Seq {
					wants = append(wants, convertRets(s.seqT, it.vals))
				}
			}
			gs, gl := zrt.DigestArgs(t.Out(), outs)
			for _, want := range wants {
				ws, wl := zrt.DigestArgs(t.Out(), want)
				good = good || (ws == gs && wl == gl)
			}
			if !good {
				fail("results", "concurrent call of %s (%s) on goroutine %d: results %v, want %v", t.Name, t.Kinds[kind], gids[w], descs(outs), descs(wants[0]))
				return
			}
			if k%16 == 0 {
				rep.Distinct(fmt.Sprintf("conc %s/%s/%d/%v/%d", t.Name, t.Kinds[kind], len(e.stack[t.Shape]), s.hooked, W))
			}
		}
	}
	for w := 0; w < W; w++ {
		ready.Add(1)
		wg.Add(1)
		go worker(w)
	}
	ready.Wait()

	layer := func() {
		seen := map[*zrt.Target]bool{}
		for i := 1 + r.Intn(len(e.targets)); i > 0; i-- {
			t := e.targets[r.Intn(len(e.targets))]
			if seen[t] {
				continue
			}
			seen[t] = true
			m := &Mock{ID: e.nextID, T: t}
			e.nextID++
			e.randSpec(m)
			if r.Intn(4) > 0 {
				m.GID = gids[r.Intn(W)]
			}
			e.must("Mock", func() { m.B = e.builder(m) })
			e.must("configuring a builder", func() {
				for ci, c := range m.Conds {
					e.setCond(m.B, m, ci, c)
				}
				m.B.FilterGoRoutine(m.Filter, m.GID)
			})
			e.build(m)
		}
	}
	phase := func() {
		for _, m := range e.mocks {
			cm := &concMock{m: m}
			cms = append(cms, cm)
			byMock[m] = cm
		}
		zrt.Quiet = true
		stopMon := make(chan struct{})
		var mons sync.WaitGroup
		for k := 0; k < 2; k++ {
			mons.Add(1)
			go func(k int) {
				defer mons.Done()
				n, busy := 0, 0
				for {
					select {
					case <-stopMon:
						rep.Count("samples of counters while calls ran", n)
						rep.Count("samples with calls in progress", busy)
						return
					default:
					}
					for _, cm := range cms {
						d0, d1 := cm.done[0].Load(), cm.done[1].Load()
						mt := int64(cm.m.M.MockTimes())
						s1 := cm.started[1].Load()
						ti := int64(cm.m.M.Times())
						s0 := cm.started[0].Load()
						n++
						if s0 != d0 {
							busy++
						}
						if ti < d0 || ti > s0 || mt < d1 || mt > s1 || mt > ti {
							fail("counters", "counters of %v while calls ran: Times=%d (completed %d started %d) MockTimes=%d (completed %d started %d)", cm.m, ti, d0, s0, mt, d1, s1)
						}
						if n%64 == 0 {
							rep.Distinct(fmt.Sprintf("in flight %d", s0-d0))
							rep.Max("calls of one mock in progress at once", int(s0-d0))
						}
					}
					time.Sleep(time.Duration(k*50+5) * time.Microsecond)
				}
			}(k)
		}
		if r.Intn(2) == 0 {
			mons.Add(1)
			go func() {
				defer mons.Done()
				for {
					select {
					case <-stopMon:
						return
					default:
						runtime.GC()
						time.Sleep(2 * time.Millisecond)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		close(stopMon)
		mons.Wait()
		zrt.Quiet = false
		for _, cm := range cms {
			if t, mt := int64(cm.m.M.Times()), int64(cm.m.M.MockTimes()); t != cm.done[0].Load() || mt != cm.done[1].Load() {
				fail("counters", "counters of %v after all calls: Times=%d MockTimes=%d, want %d and %d", cm.m, t, mt, cm.done[0].Load(), cm.done[1].Load())
			}
		}
		rep.Count("concurrent calls", int(inter.Load()+pass.Load()))
		rep.Count("concurrent calls intercepted", int(inter.Load()))
		rep.Max("goroutines", W)
		if failed.Load() {
			e.failed = true
		}
	}
	released := false
	defer func() {
		if !released { // the workers must not stay
			failed.Store(true)
			defer func() { recover() }()
			close(start)
		}
	}()
	e.tr("%d goroutines %v", W, gids)
	layer()
	if r.Intn(2) == 0 {
		mockey.PatchConvey(name, &failer{}, func() {
			e.scopes = append(e.scopes, &Scope{})
			layer()
			phase()
		})
		e.releaseScope(e.cur())
		e.scopes = e.scopes[:1]
	} else {
		phase()
	}
	released = true
	if e.failed {
		return
	}
	e.must("UnPatchAll", mockey.UnPatchAll)
	e.releaseScope(e.cur())
	for _, m := range e.mocks {
		if m.M.Times() != 0 || m.M.MockTimes() != 0 {
			e.fail("counters", "counters of %v are %d and %d after its release", m, m.M.Times(), m.M.MockTimes())
		}
	}
	e.verifyAll()
	return
}

func descs(v []any) string {
	s := []string{}
	for _, x := range v {
		s = append(s, desc(x))
	}
	return strings.Join(s, ", ")
}

// ---------------------------------------------------------------- sequences

type seqRec struct{ lo, hi, val int64 }

// sequences: a Sequence of distinguishable values called from many goroutines. The history must be an order of calls,
// consistent with real time, in which the k-th call gets the k-th position.
func sequences(rep *Report) {
	for i := *fFrom; more(rep, i); i++ {
		rep.Case("%s seed=%d round=%d", *fProfile, *fSeed, i)
		if !seqRound(rep, rand.New(rand.NewSource(*fSeed*9000011+int64(i)))) {
			return
		}
	}
}

func seqRound(rep *Report, r *rand.Rand) bool {
	kind := r.Intn(4)
	nv := 1 + r.Intn(6)
	if r.Intn(4) == 0 {
		nv = 20 + r.Intn(60)
	}
	// counts beyond what small integers hold
	long := 0
	switch {
	case r.Intn(5) == 0:
		nv = 1 + r.Intn(3)
		long = []int{126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 513, 1000, 4097}[r.Intn(15)]
		if r.Intn(6) == 0 {
			long = []int{32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600}[r.Intn(9)]
		}
	case kind < 2 && r.Intn(10) == 0:
		nv = 250 + r.Intn(400)
	}
	ptrs := make([]int, nv)
	tuple := func(i int) []any {
		switch kind {
		case 0:
			return []any{i, fmt.Sprint("v", i), &ptrs[i]}
		case 1:
			b := zoo.Big200{B: fmt.Sprint("v", i)}
			for k := range b.A {
				b.A[k] = int64(i)
			}
			return []any{b, i, fmt.Errorf("v%d", i)}
		case 2:
			return []any{int16(i), float32(i), fmt.Sprint("v", i)} // converted to int8 and float64
		default:
			return []any{i, []uint8{uint8(i), uint8(i)}}
		}
	}
	times := make([]int, nv)
	var positions []int64
	s := mockey.Sequence(tuple(0)...)
	for i := 0; i < nv; i++ {
		if i > 0 {
			s.Then(tuple(i)...)
		}
		times[i] = 1
		if r.Intn(2) == 0 {
			times[i] = 1 + r.Intn(4)
			if r.Intn(3) == 0 { // the last one counts
				s.Times(1 + r.Intn(9))
			}
			s.Times(times[i])
		}
		if long > 0 && (i == nv-1 || r.Intn(2) == 0) {
			times[i], long = long, 0
			s.Times(times[i])
		}
		for k := 0; k < times[i]; k++ {
			positions = append(positions, int64(i))
		}
	}
	// the value returned, -1 for the original, -2 for a mixture
	var call func(x int) int64
	var builder *mockey.MockBuilder
	when := r.Intn(2) == 0
	rcv := &zoo.RSmall{A: 3}
	// two mocks may hand out the values of one sequence
	var shared *mockey.Mocker
	switch kind {
	case 0:
		if r.Intn(3) == 0 {
			b := mockey.Mock(zoo.SeqPlain2)
			if when {
				b.When(func(a int) bool { return a%3 != 0 })
			}
			shared = b.Return(s).Build()
			defer shared.UnPatch()
		}
		builder = mockey.Mock(zoo.SeqPlain)
		if when {
			builder.When(func(a int) bool { return a%3 != 0 })
		}
		call = func(x int) int64 {
			f := zoo.SeqPlain
			if shared != nil && x&64 != 0 {
				f = zoo.SeqPlain2
			}
			a, b, p := f(x)
			if a == -1 && b == "" && p == nil {
				return -1
			}
			if a < 0 || a >= nv || b != fmt.Sprint("v", a) || p != &ptrs[a] {
				return -2
			}
			return int64(a)
		}
	case 1:
		builder = mockey.Mock(zoo.SeqBig)
		if when {
			builder.When(func(a zoo.Big200, b ...string) bool { return a.A[0]%3 != 0 })
		}
		call = func(x int) int64 {
			a, b, err := zoo.SeqBig(zoo.Big200{A: [20]int64{int64(x)}}, "x")
			if b == -1 && err == nil && a.B == "" {
				return -1
			}
			if b < 0 || b >= nv || a.B != fmt.Sprint("v", b) || err == nil || err.Error() != a.B {
				return -2
			}
			for _, v := range a.A {
				if v != int64(b) {
					return -2
				}
			}
			return int64(b)
		}
	case 2:
		builder = mockey.Mock((*zoo.RSmall).SeqMeth)
		if when {
			builder.When(func(a string) bool { return len(a)%3 != 0 })
		}
		call = func(x int) int64 {
			a, b, z := rcv.SeqMeth(strings.Repeat("x", x%7+x%3*7))
			if a == -1 && b == -1 && z == nil {
				return -1
			}
			if int(a) >= nv || a < 0 || b != float64(a) || z != fmt.Sprint("v", a) {
				return -2
			}
			return int64(a)
		}
	default:
		builder = mockey.MockGeneric(zoo.SeqGen[uint8])
		if when {
			builder.When(func(a uint8) bool { return a%3 != 0 })
		}
		call = func(x int) int64 {
			a, b := zoo.SeqGen(uint8(x % 249))
			if a == -1 && b == nil {
				return -1
			}
			if a < 0 || a >= nv || len(b) != 2 || int(b[0]) != a || int(b[1]) != a {
				return -2
			}
			return int64(a)
		}
	}
	matches := func(x int) bool {
		if !when {
			return true
		}
		switch kind {
		case 2:
			return (x%7+x%3*7)%3 != 0
		case 3:
			return uint8(x%249)%3 != 0
		}
		return x%3 != 0
	}
	m := builder.Return(s).Build()
	defer m.UnPatch()
	W := []int{1, 2, 4, 8, 24}[r.Intn(5)]
	K := (300 + r.Intn(1500)) * *fScale / W
	if n := len(positions) * 7 / 2 / W; len(positions) > 100 && K < n {
		K = n
	}
	timed := r.Intn(3) > 0
	var clock atomic.Int64
	recs := make([][]seqRec, W)
	bad := make([]string, W)
	orig0 := zrt.OrigRuns.Load()
	var wg sync.WaitGroup
	start := make(chan struct{})
	passes := make([]int64, W)
	for w := 0; w < W; w++ {
		wg.Add(1)
		sd := r.Int63()
		go func(w int) {
			defer wg.Done()
			wr := rand.New(rand.NewSource(sd))
			<-start
			for k := 0; k < K; k++ {
				x := wr.Intn(1000)
				rec := seqRec{}
				if timed {
					rec.lo = clock.Add(1)
				}
				rec.val = call(x)
				if timed {
					rec.hi = clock.Add(1)
				}
				if rec.val == -2 {
					bad[w] = "a call got a mixture of tuples"
					return
				}
				if (rec.val == -1) == matches(x) {
					bad[w] = fmt.Sprintf("call(%d): matching=%v, got %d", x, matches(x), rec.val)
					return
				}
				if rec.val == -1 {
					passes[w]++
				} else {
					recs[w] = append(recs[w], rec)
				}
				if wr.Intn(50) == 0 {
					runtime.Gosched()
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	desc := fmt.Sprintf("form %d, %d values with times %v, %d goroutines, when=%v, shared=%v", kind, nv, times, W, when, shared != nil)
	for _, b := range bad {
		if b != "" {
			rep.Violation("sequence", b+": "+desc, nil)
			return false
		}
	}
	var all []seqRec
	np := int64(0)
	for w := range recs {
		all = append(all, recs[w]...)
		np += passes[w]
	}
	if n := zrt.OrigRuns.Load() - orig0; n != np {
		rep.Violation("sequence", fmt.Sprintf("the original ran %d times for %d calls that do not match: %s", n, np, desc), nil)
		return false
	}
	if msg := checkTickets(all, positions, timed, W == 1, recs); msg != "" {
		rep.Violation("sequence", msg+": "+desc, nil)
		return false
	}
	nt, nm := m.Times(), m.MockTimes()
	if shared != nil {
		nt, nm = nt+shared.Times(), nm+shared.MockTimes()
		rep.Count("sequences of two mocks", 1)
	}
	if nt != W*K || nm != len(all) {
		rep.Violation("sequence", fmt.Sprintf("Times=%d MockTimes=%d for %d calls, %d of them matching: %s", nt, nm, W*K, len(all), desc), nil)
		return false
	}
	over := 0
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	maxhi := int64(0)
	for _, a := range all {
		if timed && a.lo < maxhi {
			over++
		}
		if a.hi > maxhi {
			maxhi = a.hi
		}
	}
	rep.Count("calls answered by a sequence", len(all))
	rep.Count("calls overlapping another one", over)
	rep.Max("positions of a sequence", len(positions))
	rep.Distinct(desc)
	return true
}

// checkTickets: is there an order of the calls, consistent with real time, that yields the positions in turn? Calls with the same
// value are interchangeable, so taking the one that ended first is optimal.
func checkTickets(all []seqRec, positions []int64, timed, single bool, recs [][]seqRec) string {
	n := len(all)
	want := map[int64]int{}
	for k := 0; k < n; k++ {
		want[positions[k%len(positions)]]++
	}
	have := map[int64]int{}
	for _, a := range all {
		have[a.val]++
	}
	for v, c := range want {
		if have[v] != c {
			return fmt.Sprintf("value %d was handed out %d times in %d calls, want %d", v, have[v], n, c)
		}
	}
	if single {
		for k, a := range recs[0] {
			if a.val != positions[k%len(positions)] {
				return fmt.Sprintf("call %d got value %d, want %d", k, a.val, positions[k%len(positions)])
			}
		}
	}
	if !timed {
		return ""
	}
	// a call may be placed next if it started before the earliest end of all calls not placed yet
	byEnd := append([]seqRec{}, all...)
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].hi < byEnd[j].hi })
	byLo := make([]int, n)
	for i := range byLo {
		byLo[i] = i
	}
	sort.Slice(byLo, func(i, j int) bool { return byEnd[byLo[i]].lo < byEnd[byLo[j]].lo })
	started := map[int64][]int{} // per value: heap of the calls that may be placed, by end
	placed := make([]bool, n)
	first, next := 0, 0
	for k := 0; k < n; k++ {
		for first < n && placed[first] {
			first++
		}
		for limit := byEnd[first].hi; next < n && byEnd[byLo[next]].lo < limit; next++ {
			h := append(started[byEnd[byLo[next]].val], byLo[next])
			for i := len(h) - 1; i > 0 && h[i] < h[(i-1)/2]; i = (i - 1) / 2 {
				h[i], h[(i-1)/2] = h[(i-1)/2], h[i]
			}
			started[byEnd[byLo[next]].val] = h
		}
		v := positions[k%len(positions)]
		h := started[v]
		if len(h) == 0 {
			return fmt.Sprintf("no order of the calls gives position %d (value %d): all calls left with this value started after a call left had ended", k, v)
		}
		placed[h[0]] = true
		h[0] = h[len(h)-1]
		h = h[:len(h)-1]
		for i := 0; ; {
			c := 2*i + 1
			if c+1 < len(h) && h[c+1] < h[c] {
				c++
			}
			if c >= len(h) || h[i] <= h[c] {
				break
			}
			h[i], h[c] = h[c], h[i]
			i = c
		}
		started[v] = h
	}
	return ""
}

// ---------------------------------------------------------------- goroutine ids

// goroutineIDs compares the library's goroutine id with the one the runtime reports, everywhere.
func goroutineIDs(rep *Report) {
	var mu sync.Mutex
	live := map[int64]bool{}
	bad := ""
	check := func(where string, id *int64) {
		g, w := mockey.GetGoroutineId(), curGID()
		mu.Lock()
		defer mu.Unlock()
		if g != w {
			bad = fmt.Sprintf("%s: GetGoroutineId is %d, the runtime says %d", where, g, w)
		}
		if *id != 0 && *id != g {
			bad = fmt.Sprintf("%s: the id changed from %d to %d", where, *id, g)
		}
		if *id == 0 && live[g] {
			bad = fmt.Sprintf("%s: two live goroutines have id %d", where, g)
		}
		*id = g
		live[g] = true
		rep.Count("ids compared", 1)
	}
	end := func(id int64) { mu.Lock(); delete(live, id); mu.Unlock() }
	// main goroutine, init, finalizer, timer
	var id int64
	check("main goroutine", &id)
	if id != 1 {
		rep.Violation("goroutine-id", fmt.Sprintf("the main goroutine has id %d", id), nil)
	}
	fin := make(chan bool)
	func() {
		x := new([3]int)
		runtime.SetFinalizer(x, func(*[3]int) { var id int64; check("finalizer", &id); end(id); fin <- true })
	}()
	for i := 0; i < 10; i++ {
		runtime.GC()
		select {
		case <-fin:
			i = 10
		case <-time.After(50 * time.Millisecond):
		}
	}
	tm := make(chan bool)
	time.AfterFunc(time.Millisecond, func() { var id int64; check("timer", &id); end(id); tm <- true })
	<-tm
	for round := *fFrom; more(rep, round); round++ {
		rep.Case("goroutine ids seed=%d round=%d", *fSeed, round)
		r := rand.New(rand.NewSource(*fSeed*31 + int64(round)))
		n := []int{1, 7, 300, 3000}[r.Intn(4)]
		// push the ids up
		var push sync.WaitGroup
		for i := 0; i < []int{0, 1000, 30000}[r.Intn(3)]; i++ {
			push.Add(1)
			go func() { push.Done() }()
		}
		push.Wait()
		var wg, all sync.WaitGroup
		all.Add(n)
		wg.Add(n)
		for i := 0; i < n; i++ {
			sd := r.Int63()
			go func() {
				defer wg.Done()
				wr := rand.New(rand.NewSource(sd))
				var id int64
				check("new goroutine", &id)
				all.Done()
				all.Wait() // all are alive now
				if wr.Intn(10) == 0 {
					runtime.LockOSThread()
				}
				for k := 0; k < 3; k++ {
					switch wr.Intn(4) {
					case 0:
						runtime.Gosched()
					case 1:
						time.Sleep(time.Duration(wr.Intn(100)) * time.Microsecond)
					case 2:
						atDepth(40, wr.Intn(600), func() { check("deep stack", &id) })
					}
					check("later", &id)
				}
				func() {
					defer func() { recover(); check("after a panic", &id) }()
					panic(1)
				}()
				rep.Max("greatest goroutine id", int(id))
				if id&0xff == 0 {
					rep.Distinct(fmt.Sprint("id ", id))
				}
				end(id)
			}()
		}
		wg.Wait()
		rep.Max("live goroutines", n)
		if bad != "" {
			rep.Violation("goroutine-id", bad, nil)
			return
		}
	}
}

// schedAddr finds the runtime's goroutine id generator
func schedAddr() (addr *uint64) {
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		return nil
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return nil
	}
	var sched, base uintptr
	for _, s := range syms {
		switch s.Name {
		case "runtime.sched":
			sched = uintptr(s.Value)
		case "main.schedAddr":
			base = reflect.ValueOf(schedAddr).Pointer() - uintptr(s.Value)
		}
	}
	if sched == 0 {
		return nil
	}
	sched += base
	return *(**uint64)(unsafe.Pointer(&sched))
}

// bigGoroutineIDs lets the runtime hand out great goroutine ids, among them ids which agree in their lower bits, and compares
// the library's ids and filters. Ids only grow, so there is one round per process.
func bigGoroutineIDs(rep *Report) {
	gen := schedAddr()
	if gen == nil {
		rep.Violation("setup", "the goroutine id generator is not found", nil)
		return
	}
	rep.Case("great goroutine ids seed=%d", *fSeed)
	r := rand.New(rand.NewSource(*fSeed * 37))
	type member struct {
		id  int64
		cmd chan func()
	}
	spawn := func(n int) (res []*member) {
		ready := make(chan bool)
		for i := 0; i < n; i++ {
			m := &member{cmd: make(chan func())}
			res = append(res, m)
			go func() {
				m.id = curGID()
				ready <- true
				for f := range m.cmd {
					f()
				}
			}()
			<-ready
		}
		return
	}
	do := func(m *member, f func()) {
		done := make(chan bool)
		m.cmd <- func() { defer close(done); f() }
		<-done
	}
	members := spawn(40)
	low := uint64(members[r.Intn(20)].id)
	for _, sh := range []uint{12, 16, 24, 31, 32, 33, 40, 48, 53, 60, 62} {
		if r.Intn(4) == 0 && sh != 32 {
			continue
		}
		next := low&(1<<sh-1) + 1<<sh - 3
		if next <= atomic.LoadUint64(gen) {
			continue
		}
		atomic.StoreUint64(gen, next)
		members = append(members, spawn(200)...) // the ids a processor has fetched before are used up first
	}
	defer func() {
		for _, m := range members {
			close(m.cmd)
		}
	}()
	byLow := map[uint32][]*member{}
	for _, m := range members {
		byLow[uint32(m.id)] = append(byLow[uint32(m.id)], m)
		rep.Max("bits of a goroutine id", 64-bits.LeadingZeros64(uint64(m.id)))
		if m.id >= 1<<31 {
			rep.Distinct(fmt.Sprint("id ", m.id))
		}
		rep.Count("ids compared", 1)
		var g int64
		do(m, func() { g = mockey.GetGoroutineId() })
		if g != m.id {
			rep.Violation("goroutine-id", fmt.Sprintf("GetGoroutineId is %d, the runtime says %d", g, m.id), nil)
			return
		}
	}
	call := func(m *member) (mocked bool) {
		do(m, func() { a, _, _ := zoo.SeqPlain(1); mocked = a == 5 })
		return
	}
	check := func(f mockey.FilterGoroutineType, m, other *member) bool {
		b := mockey.Mock(zoo.SeqPlain).Return(5, "", nil)
		switch {
		case r.Intn(2) == 0:
			b.FilterGoRoutine(f, m.id)
		case f == mockey.Include:
			do(m, func() { b.IncludeCurrentGoRoutine() })
		default:
			do(m, func() { b.ExcludeCurrentGoRoutine() })
		}
		mk := b.Build()
		defer mk.UnPatch()
		rep.Count("filters compared", 1)
		if c, o := call(m), call(other); c != (f == mockey.Include) || o == c {
			rep.Violation("goroutine-id", fmt.Sprintf("filter %d of goroutine %d: calls on it are intercepted: %v; calls on goroutine %d are intercepted: %v", f, m.id, c, other.id, o), nil)
			return false
		}
		return true
	}
	for _, l := range byLow {
		for i := range l {
			for j := range l {
				if i != j && r.Intn(3) == 0 && (!check(mockey.Include, l[i], l[j]) || !check(mockey.Exclude, l[i], l[j])) {
					return
				}
				if i != j {
					rep.Count("pairs of goroutines whose ids agree in 32 bits", 1)
				}
			}
		}
	}
	for k := 0; k < 300; k++ {
		a, b := members[r.Intn(len(members))], members[r.Intn(len(members))]
		if a != b && !check([]mockey.FilterGoroutineType{mockey.Include, mockey.Exclude}[k%2], a, b) {
			return
		}
	}
}
