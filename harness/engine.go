package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zrt"
	"github.com/smartystreets/goconvey/convey"
)

// Features selects what a sequential history may contain.
type Features struct {
	Ops          int // operations per history
	MaxMocks     int
	Scopes       int // depth of nested scopes
	MultiCond    bool
	When         bool
	NoMatch      bool // conditions that never match
	Return       bool
	Seq          bool
	Origin       int // percentage of mocks with an origin
	Filter       bool
	Panics       bool // panics of hooks, conditions and originals
	Recurse      bool
	Deep         bool // calls on fresh goroutines at odd stack depths, stack-hungry originals
	GC           int  // 1 in GC user functions forces a collection
	Lifecycle    int  // weight of UnPatch/Patch/Release/UnPatchAll
	Reconf       int  // weight of reconfiguration
	Invalid      int  // weight of invalid requests
	Vars         int  // weight of variable mocks
	Call         int  // weight of calls
	NewMock      int
	Stack        bool // prefer targets that are mocked already
	Targets      func(t *zrt.Target) bool
	Subset       int // number of targets of a history
	TextEvery    int // compare machine code after 1 in n operations
	VerifyEach   int // probe all targets after 1 in n operations
	Unsafe       bool
	Abnormal     bool // leave scopes by panic, failed assertion, Goexit
	Counters     bool
	Gaps         bool
	SeqOnly      bool // every hook is a sequence
	FilterAll    bool // every mock has a filter
	Nest         bool // hooks and conditions call mocked functions or release mocks
	AfterRelease bool // stored origins are called after the release
}

// Eng runs one history.
type Eng struct {
	F        Features
	R        *rand.Rand
	rep      *Report
	targets  []*zrt.Target
	stack    map[string][]*Mock // active mocks per shape, the latest last
	scopes   []*Scope
	mocks    []*Mock // all live mocks
	vars     []*VarMock
	nextID   int
	trace    []string
	panicN   int
	gidFake  int64
	failed   bool
	cov      map[string]bool
	goexit   bool
	orgOwner map[uintptr]*Mock // whose origin a variable holds
	orgs     []*Mock
	text     *textMonitor
	varGrp   []*varGroup
	depth    int
	nest     int

	big         bool    // many targets, mocks, conditions and scopes
	pending     []*Mock // configured, not built yet
	nesting     bool    // hooks and conditions call mocked functions
	selfRelease bool    // hooks release mocks
}

func newEng(f Features, seed int64, rep *Report) *Eng {
	e := &Eng{F: f, R: rand.New(rand.NewSource(seed)), rep: rep, stack: map[string][]*Mock{}, cov: map[string]bool{}, orgOwner: map[uintptr]*Mock{}}
	orgVars = nil
	cand := []*zrt.Target{}
	for _, t := range zrt.Targets {
		if f.Targets == nil || f.Targets(t) {
			cand = append(cand, t)
		}
	}
	if e.big = f.MaxMocks > 0 && e.R.Intn(16) == 0; e.big {
		f.Subset, f.MaxMocks, f.Ops, f.NewMock = 8*f.Subset, 20*f.MaxMocks, 2*f.Ops, 4*f.NewMock
		if f.Scopes > 0 {
			f.Scopes += 10
		}
		e.F = f
	}
	n := f.Subset
	if n == 0 {
		n = 6
	}
	for len(e.targets) < n && len(cand) > 0 {
		i := e.R.Intn(len(cand))
		e.targets = append(e.targets, cand[i])
		// siblings sharing machine code come along
		for _, t := range cand {
			if t != cand[i] && t.Shape == cand[i].Shape && e.R.Intn(2) == 0 {
				e.targets = append(e.targets, t)
			}
		}
		cand = append(cand[:i], cand[i+1:]...)
	}
	e.scopes = []*Scope{{}}
	e.nesting = f.Nest && e.R.Intn(3) == 0
	e.selfRelease = f.Nest && e.R.Intn(4) == 0
	return e
}

type panicVal struct{ s string }

func (e *Eng) newPanic(s string) any {
	e.panicN++
	switch e.R.Intn(3) {
	case 0:
		return &panicVal{fmt.Sprint(s, e.panicN)}
	case 1:
		return fmt.Errorf("%s%d", s, e.panicN)
	default:
		return fmt.Sprint(s, e.panicN)
	}
}

type stop struct{}

// fail reports a violation and abandons the history
func (e *Eng) fail(kind, format string, a ...any) {
	if !e.failed {
		e.failed = true
		t := e.trace
		if len(t) > 60 {
			t = t[len(t)-60:]
		}
		e.rep.Violation(kind, fmt.Sprintf(format, a...), append([]string{}, t...))
	}
	panic(stop{})
}

func (e *Eng) tr(format string, a ...any) {
	s := strings.Repeat("  ", len(e.scopes)-1) + fmt.Sprintf(format, a...)
	e.trace = append(e.trace, s)
	e.rep.Journal(s)
}

// guarded runs an operation of the library and returns its panic
func guarded(f func()) (pv any, st string) {
	done := false
	defer func() {
		if !done {
			pv = recover()
			if pv == nil {
				pv = "Goexit or nil panic"
			}
			st = string(debug.Stack())
		}
	}()
	f()
	done = true
	return
}

// lib runs an operation of the library, sometimes in another goroutine: mocks and scopes belong to the process
func (e *Eng) lib(f func()) (pv any, st string) {
	if e.R.Intn(8) > 0 {
		return guarded(f)
	}
	e.rep.Count("operations in other goroutines", 1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		pv, st = guarded(f)
	}()
	<-done
	return
}

// must runs an operation that has to succeed
func (e *Eng) must(what string, f func()) {
	if pv, st := e.lib(f); pv != nil {
		if _, ok := pv.(stop); ok {
			panic(pv)
		}
		e.fail("unexpected-panic", "%s panicked: %v\n%s", what, pv, trimStack(st))
	}
	e.rep.Count("ops", 1)
}

func trimStack(s string) string {
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

func (e *Eng) inUser() {
	if e.F.GC > 0 && e.R.Intn(e.F.GC) == 0 {
		runtime.GC()
	}
}

func here() string {
	_, f, l, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", f, l)
}

// ---------------------------------------------------------------- operations

func (e *Eng) cur() *Scope { return e.scopes[len(e.scopes)-1] }

// owner returns the active mock of exactly this target in the current scope
func (e *Eng) owner(t *zrt.Target) *Mock {
	for _, m := range e.cur().mocks {
		if m.T == t {
			return m
		}
	}
	return nil
}

func (e *Eng) activate(m *Mock) {
	m.active = true
	m.scope = e.cur()
	m.times, m.mocked, m.stray = 0, 0, false
	m.scope.mocks = append(m.scope.mocks, m)
	e.stack[m.T.Shape] = append(e.stack[m.T.Shape], m)
	e.rep.Max("stacked mocks of one function", len(e.stack[m.T.Shape]))
}

func (e *Eng) deactivate(m *Mock) {
	if !m.active {
		return
	}
	m.active = false
	m.times, m.mocked = 0, 0
	del := func(l []*Mock) []*Mock {
		for i := range l {
			if l[i] == m {
				return append(append([]*Mock{}, l[:i]...), l[i+1:]...)
			}
		}
		return l
	}
	m.scope.mocks = del(m.scope.mocks)
	e.stack[m.T.Shape] = del(e.stack[m.T.Shape])
	m.scope = nil
}

// pickTarget prefers targets that are not mocked in the current scope
func (e *Eng) pickTarget() *zrt.Target {
	if e.F.Stack {
		l := []*zrt.Target{}
		for _, t := range e.targets {
			if len(e.stack[t.Shape]) > 0 && e.owner(t) == nil {
				l = append(l, t)
			}
		}
		if len(l) > 0 && e.R.Intn(2) == 0 {
			return l[e.R.Intn(len(l))]
		}
	}
	return e.targets[e.R.Intn(len(e.targets))]
}

func (e *Eng) builder(m *Mock) *mockey.MockBuilder {
	opts := 0
	if m.T.Generic {
		opts |= 1
	}
	if m.Unsafe {
		opts |= 2
	}
	switch opts {
	case 1:
		if e.R.Intn(2) == 0 {
			return mockey.MockGeneric(m.T.Fn)
		}
		return mockey.Mock(m.T.Fn, mockey.OptGeneric)
	case 2:
		if e.R.Intn(2) == 0 {
			return mockey.MockUnsafe(m.T.Fn)
		}
		return mockey.Mock(m.T.Fn, mockey.OptUnsafe)
	case 3:
		return mockey.Mock(m.T.Fn, mockey.OptUnsafe, mockey.OptGeneric)
	}
	return mockey.Mock(m.T.Fn)
}

func (e *Eng) setCond(b *mockey.MockBuilder, m *Mock, ci int, c *Cond) {
	whenFirst := ci > 0 || e.R.Intn(2) == 0
	when := func() {
		if c.HasWhen {
			c.when = e.mkWhen(m, ci, c)
			b.When(c.when)
		}
	}
	hook := func() {
		switch c.HK {
		case hTo:
			c.to = e.mkTo(m, ci, c)
			b.To(c.to)
		case hRet:
			b.Return(c.Rets...)
		case hSeq:
			b.Return(mkSeq(c))
		}
	}
	if whenFirst {
		when()
		hook()
	} else {
		hook()
		when()
	}
}

func mkSeq(c *Cond) any {
	s := mockey.Sequence(c.Seq[0].vals...)
	if c.Seq[0].times != 1 {
		s.Times(c.Seq[0].times)
	}
	for _, it := range c.Seq[1:] {
		s.Then(it.vals...)
		if it.times != 1 {
			s.Times(it.times)
		}
	}
	return s
}

func (e *Eng) applyFilter(m *Mock) {
	if m.Filter == mockey.Disable && m.GID == 0 {
		return
	}
	if m.GID == curGID() && e.R.Intn(2) == 0 && m.Filter != mockey.Disable {
		if m.Filter == mockey.Include {
			m.B.IncludeCurrentGoRoutine()
		} else {
			m.B.ExcludeCurrentGoRoutine()
		}
		return
	}
	m.B.FilterGoRoutine(m.Filter, m.GID)
}

func (e *Eng) configure(m *Mock) {
	e.must("configuring a builder", func() {
		if m.Org != orgNone {
			m.B.Origin(m.org.Interface())
		}
		for ci, c := range m.Conds {
			e.setCond(m.B, m, ci, c)
		}
		e.applyFilter(m)
	})
}

// build builds m and compares acceptance or rejection with the model
func (e *Eng) build(m *Mock) {
	prev := e.owner(m.T)
	e.tr("build %v in scope %d (stack %d, rejected=%v)", m, len(e.scopes)-1, len(e.stack[m.T.Shape]), prev != nil)
	var loc string
	pv, st := e.lib(func() { loc = here(); m.M = m.B.Build() })
	if prev != nil {
		e.wantRemock(pv, prev)
		m.dead = true
		return
	}
	if pv != nil {
		e.fail("unexpected-panic", "Build of %v panicked: %v\n%s", m, pv, trimStack(st))
	}
	e.rep.Count("mocks", 1)
	m.where = loc
	e.mocks = append(e.mocks, m)
	if m.Org == orgFull {
		e.orgs = append(e.orgs, m)
	}
	e.activate(m)
}

func (e *Eng) wantRemock(pv any, prev *Mock) {
	if pv == nil {
		e.fail("remock-accepted", "mocking %s again in the same scope was accepted", prev.T.Name)
	}
	s := fmt.Sprint(pv)
	if !strings.Contains(s, "re-mock") || !strings.Contains(s, prev.where) {
		e.fail("remock-message", "re-mock panic %q does not name the previous mock at %s", s, prev.where)
	}
	e.rep.Count("rejected re-mocks", 1)
}

func (e *Eng) opNew() {
	if len(e.mocks) >= e.F.MaxMocks {
		e.opCall()
		return
	}
	if len(e.pending) > 0 && e.R.Intn(2) == 0 {
		i := e.R.Intn(len(e.pending))
		m := e.pending[i]
		e.pending = append(e.pending[:i:i], e.pending[i+1:]...)
		e.rep.Count("mocks built later", 1)
		e.build(m)
		return
	}
	t := e.pickTarget()
	m := &Mock{ID: e.nextID, T: t, Unsafe: e.F.Unsafe && e.R.Intn(4) == 0}
	e.nextID++
	e.randSpec(m)
	e.must("Mock", func() { m.B = e.builder(m) })
	e.configure(m)
	if len(e.pending) < 4 && e.R.Intn(8) == 0 {
		e.tr("configure %v", m)
		e.pending = append(e.pending, m)
		return
	}
	e.build(m)
}

func (e *Eng) live() []*Mock {
	l := []*Mock{}
	for _, m := range e.mocks {
		if !m.dead {
			l = append(l, m)
		}
	}
	return l
}

func (e *Eng) pickMock() *Mock {
	l := e.live()
	if len(l) == 0 {
		return nil
	}
	return l[e.R.Intn(len(l))]
}

func (e *Eng) opLifecycle() {
	m := e.pickMock()
	if m == nil {
		e.opNew()
		return
	}
	switch k := e.R.Intn(20); {
	case k < 8:
		e.tr("unpatch mock%d (active=%v)", m.ID, m.active)
		e.must("UnPatch", func() { m.M.UnPatch() })
		e.deactivate(m)
	case k < 10 && !m.active && e.owner(m.T) == nil:
		// another mock of the same builder
		old, stray := m.M, m.stray
		e.tr("build the builder of mock%d again", m.ID)
		var loc string
		e.must("Build", func() { loc = here(); m.M = m.B.Build() })
		m.where = loc
		for p, own := range e.orgOwner {
			if own == m {
				e.orgOwner[p] = &Mock{ID: m.ID, T: m.T} // the origin which the released mock stored
			}
		}
		e.activate(m)
		e.rep.Count("builders built again", 1)
		if old.Times() != 0 && !stray {
			e.fail("counters", "mock%d counts %d calls although it is released", m.ID, old.Times())
		}
	case k < 16:
		prev := e.owner(m.T)
		reject := !m.active && prev != nil
		e.tr("patch mock%d (active=%v, rejected=%v)", m.ID, m.active, reject)
		if reject {
			pv, _ := e.lib(func() { m.M.Patch() })
			e.wantRemock(pv, prev)
			return
		}
		var loc string
		e.must("Patch", func() { loc = here(); m.M.Patch() })
		if !m.active {
			m.where = loc
			e.activate(m)
		}
	case k < 18:
		e.tr("release mock%d (active=%v)", m.ID, m.active)
		var b *mockey.MockBuilder
		e.must("Release", func() { b = m.M.Release() })
		e.deactivate(m)
		m.dead = true
		if e.R.Intn(3) > 0 {
			// build the returned builder again: filter, origin and options are kept, conditions are not
			n := &Mock{ID: e.nextID, T: m.T, B: b, Unsafe: m.Unsafe, Filter: m.Filter, GID: m.GID, Org: m.Org, org: m.org}
			e.nextID++
			for i := 1 + e.R.Intn(2); i > 0; i-- {
				c := &Cond{}
				n.Conds = append(n.Conds, c)
				if i > 1 || (e.F.When && e.R.Intn(2) == 0) {
					e.addWhen(n, c)
				}
				if i > 1 || !c.HasWhen || e.R.Intn(4) > 0 {
					e.addHook(n, c)
				}
			}
			if e.R.Intn(6) == 0 {
				n.Conds = []*Cond{{}}
			}
			e.must("configuring a released builder", func() {
				for ci, c := range n.Conds {
					e.setCond(b, n, ci, c)
				}
			})
			e.build(n)
		}
	default:
		e.tr("UnPatchAll in scope %d (%d mocks, %d vars)", len(e.scopes)-1, len(e.cur().mocks), len(e.cur().vars))
		e.must("UnPatchAll", func() { mockey.UnPatchAll() })
		e.releaseScope(e.cur())
	}
}

func (e *Eng) releaseScope(s *Scope) {
	for len(s.mocks) > 0 {
		e.deactivate(s.mocks[len(s.mocks)-1])
	}
	e.releaseVars(s)
}

func (e *Eng) opReconf() {
	m := e.pickMock()
	if m == nil {
		e.opNew()
		return
	}
	prev := e.owner(m.T)
	reject := prev != nil && prev != m
	multi := len(m.Conds) != 1
	var loc string
	var apply func()
	var pv any
	var st, what string
	k := e.R.Intn(6)
	c := &Cond{}
	if !multi {
		*c = *m.Conds[0]
	}
	switch k {
	case 0:
		e.addWhen(m, c)
		what = "When"
		w := e.mkWhen(m, 0, c)
		apply = func() { m.Conds[0] = c }
		pv, st = guarded(func() { loc = here(); m.M.When(w) })
	case 1, 2:
		c.HK = hNone
		for c.HK == hNone {
			c.Rets, c.Seq, c.seqPos, c.PanicVal = nil, nil, 0, nil
			e.addHook(m, c)
		}
		apply = func() { m.Conds[0] = c }
		switch c.HK {
		case hTo:
			what = "To"
			to := e.mkTo(m, 0, c)
			pv, st = guarded(func() { loc = here(); m.M.To(to) })
		case hRet:
			what = "Return"
			pv, st = guarded(func() { loc = here(); m.M.Return(c.Rets...) })
		case hSeq:
			what = "Return(Sequence)"
			s := mkSeq(c)
			pv, st = guarded(func() { loc = here(); m.M.Return(s) })
		}
	case 3:
		if m.Org == orgNone && e.F.Origin == 0 || e.nesting && m.T.Generic { // K11
			e.opCall()
			return
		}
		what = "Origin"
		multi = false
		n := *m
		if n.Org == orgNone {
			n.Org = orgFull
		}
		// conditions and hooks of m read m.org, so its form must stay usable
		n.newOriginVar()
		apply = func() { m.Org, m.org = n.Org, n.org }
		pv, st = guarded(func() { loc = here(); m.M.Origin(n.org.Interface()) })
	default:
		if !e.F.Filter {
			e.opCall()
			return
		}
		what = "filter"
		multi = false
		n := *m
		e.randFilter(&n)
		apply = func() { m.Filter, m.GID = n.Filter, n.GID }
		how := e.R.Intn(3)
		if how == 0 {
			n.Filter, n.GID = mockey.Include, curGID()
			pv, st = guarded(func() { loc = here(); m.M.IncludeCurrentGoRoutine() })
		} else if how == 1 {
			n.Filter, n.GID = mockey.Exclude, curGID()
			pv, st = guarded(func() { loc = here(); m.M.ExcludeCurrentGoRoutine() })
		} else {
			pv, st = guarded(func() { loc = here(); m.M.FilterGoRoutine(n.Filter, n.GID) })
		}
	}
	e.tr("reconfigure mock%d %s (active=%v multi=%v remock=%v) -> %v", m.ID, what, m.active, multi, reject, c)
	if multi {
		if pv == nil {
			e.fail("reconf-accepted", "%s on a mock with %d conditions was accepted", what, len(m.Conds))
		}
		if s := fmt.Sprint(pv); !strings.Contains(s, "one-condition") {
			e.fail("reconf-message", "%s on a mock with several conditions: panic %q", what, s)
		}
		e.rep.Count("rejected reconfigurations", 1)
		return
	}
	if reject {
		e.wantRemock(pv, prev)
		return
	}
	if pv != nil {
		e.fail("unexpected-panic", "%s on mock%d panicked: %v\n%s", what, m.ID, pv, trimStack(st))
	}
	e.rep.Count("reconfigurations", 1)
	e.deactivate(m)
	apply()
	m.where = loc
	e.activate(m)
}

// ---------------------------------------------------------------- calls

func (e *Eng) randArgs(t *zrt.Target) []any {
	in := t.In()
	args := make([]any, len(in))
	for i := range in {
		args[i] = zrt.GenAny(in[i], e.R)
		if i == 0 && t.Recv && in[i].Kind() == reflect.Ptr && e.R.Intn(3) > 0 && reflect.ValueOf(args[i]).IsNil() {
			args[i] = reflect.New(in[i].Elem()).Interface()
		}
	}
	return args
}

type outcome struct {
	outs []any
	pv   any
	log  []zrt.Event
}

func (e *Eng) opCall() {
	if e.F.AfterRelease && e.R.Intn(4) == 0 && e.callStored() {
		return
	}
	e.callTarget(e.targets[e.R.Intn(len(e.targets))])
}

// callStored calls a stored origin outside of any mocked call
func (e *Eng) callStored() bool {
	if len(e.orgs) == 0 {
		return false
	}
	m := e.orgs[e.R.Intn(len(e.orgs))]
	own := e.orgOwner[m.org.Pointer()]
	if own == nil || m.Org != orgFull || m.T.Generic {
		return false
	}
	args := e.randArgs(m.T)
	e.tr("call the origin stored by mock%d of %s (active=%v)", own.ID, m.T.Name, own.active)
	var got outcome
	zrt.Log = nil
	got.pv, _ = guarded(func() {
		vals := []reflect.Value{}
		for i, t := range m.T.In() {
			vals = append(vals, boxedValue(t, args[i]))
		}
		o := m.org.Elem()
		var outs []reflect.Value
		if o.Type().IsVariadic() {
			outs = o.CallSlice(vals)
		} else {
			outs = o.Call(vals)
		}
		for _, v := range outs {
			got.outs = append(got.outs, v.Interface())
		}
	})
	got.log = zrt.Log
	s := &simCtx{e: e, gid: curGID()}
	l := len(e.stack[m.T.Shape]) - 1
	for i, x := range e.stack[m.T.Shape] {
		if x == own {
			l = i - 1
		}
	}
	wo, wp := s.level(l, m.T, args)
	e.rep.Count("calls of stored origins", 1)
	e.rep.Distinct(fmt.Sprintf("stored %s %v %d", m.T.Name, own.active, l))
	e.compare(m.T, "stored origin", s, got, wo, wp)
	e.checkCounters()
	return true
}

func hasAct(ms []*Mock, a action) bool {
	for _, m := range ms {
		for _, c := range m.Conds {
			if c.HK == hTo && c.Act == a {
				return true
			}
		}
	}
	return false
}

func (e *Eng) callTarget(t *zrt.Target) {
	args := e.randArgs(t)
	kind := e.R.Intn(len(t.Kinds))
	kn := t.Kinds[kind]
	if t.Recv && t.In()[0].Kind() == reflect.Ptr && (kn == "embedded") && reflect.ValueOf(args[0]).IsNil() {
		kind, kn = 0, t.Kinds[0]
	}
	if t.Recv && strings.HasPrefix(kn, "methodvalue") && t.In()[0].Kind() == reflect.Func && reflect.ValueOf(args[0]).IsNil() {
		kind, kn = 0, t.Kinds[0]
	}
	if kn == "spread" {
		last := len(args) - 1
		v := reflect.ValueOf(args[last])
		if v.Len() == 0 {
			args[last] = reflect.Zero(v.Type()).Interface()
		}
	}
	plan := zrt.Plan{}
	st := e.stack[t.Shape]
	if e.F.Recurse && e.R.Intn(4) == 0 {
		ok := true
		for _, m := range st {
			if m.Org == orgNoRecv && hasAct(st, aOriginMod) {
				ok = false // receiver-less origin and calls with other receivers in between: known finding
			}
		}
		if ok {
			plan.Recurse = 1 + e.R.Intn(2)
		}
	}
	if e.F.Panics && e.R.Intn(6) == 0 {
		plan.Panic = e.newPanic("orig")
	}
	fresh := e.F.Deep && e.R.Intn(3) == 0
	if e.F.Deep && e.R.Intn(4) == 0 {
		plan.DeepUse = 1 << uint(10+e.R.Intn(7))
	}
	if e.F.GC > 0 {
		plan.GC = e.R.Intn(e.F.GC) == 0
	}
	gid := curGID()
	if fresh || kn == "go" {
		gid = -1 << 40
	}
	e.tr("call %s kind=%s stack=%d plan=%+v fresh=%v", t.Name, kn, len(st), plan, fresh)

	ba, bl := zrt.DigestArgs(t.In(), args)
	var got outcome
	zrt.Log = nil
	zrt.CurPlan = plan
	run := func() {
		got.pv, _ = guarded(func() { got.outs = t.Call(kind, args) })
	}
	if fresh {
		d, pad := e.R.Intn(60), e.R.Intn(700)
		done := make(chan struct{})
		go func() {
			defer close(done)
			atDepth(d, pad, run)
		}()
		<-done
	} else {
		run()
	}
	got.log = zrt.Log
	zrt.CurPlan = zrt.Plan{}

	s := &simCtx{e: e, gid: gid, recurse: plan.Recurse, panicV: plan.Panic}
	wo, wp := s.top(t, args)
	e.rep.Count("calls", 1)
	e.rep.Count("events", len(got.log))
	if s.hooked {
		e.rep.Count("intercepted calls", 1)
	} else if len(st) > 0 {
		e.rep.Count("passed-through calls", 1)
	} else {
		e.rep.Count("unmocked calls", 1)
	}
	e.rep.Distinct(fmt.Sprintf("%s/%s/%d/%v/%v", t.Name, kn, len(st), s.hooked, wp != nil))
	e.compare(t, kn, s, got, wo, wp)
	if aa, al := zrt.DigestArgs(t.In(), args); aa != ba || al != bl {
		e.fail("args-changed", "call of %s changed its caller's arguments", t.Name)
	}
	e.checkCounters()
}

//go:noinline
func atDepth(d, pad int, f func()) {
	var buf [64]byte
	buf[d&63] = byte(pad)
	if d > 0 {
		if pad&(1<<uint(d%9)) != 0 {
			padded(d, pad, f)
			return
		}
		atDepth(d-1, pad, f)
		return
	}
	f()
	_ = buf
}

//go:noinline
func padded(d, pad int, f func()) {
	var buf [200]byte
	buf[d] = 1
	atDepth(d-1, pad, f)
	_ = buf
}

func showEvents(l []zrt.Event) string {
	s := []string{}
	for _, ev := range l {
		s = append(s, ev.String())
	}
	if len(s) > 14 {
		s = append(s[:14], "...")
	}
	return "[" + strings.Join(s, " ") + "]"
}

// record logs what a call did
func (e *Eng) record(t *zrt.Target, kn string, got outcome) {
	if e.rep.events == nil {
		return
	}
	for _, ev := range got.log {
		e.rep.Event("  %s %d.%d args %x info %x", kindName(ev.Kind), ev.Target, ev.Cond, ev.Loose, ev.Info)
	}
	if got.pv != nil {
		e.rep.Event("call %s %s panics %s", t.Name, kn, portable(got.pv))
	} else {
		_, l := zrt.DigestArgs(t.Out(), got.outs)
		e.rep.Event("call %s %s gives %x", t.Name, kn, l)
	}
	for _, m := range e.mocks {
		if !m.dead {
			e.rep.Event("  mock %d: %d %d", m.ID, m.M.Times(), m.M.MockTimes())
		}
	}
}

func kindName(k int) string { return []string{"", "orig", "pred", "hook", "deferred"}[k] }

// portable describes a panic value without addresses
func portable(v any) string {
	switch x := v.(type) {
	case string, int, error, bool, float64:
		return fmt.Sprintf("%T %v", x, x)
	}
	return fmt.Sprintf("%T", v)
}

func (e *Eng) compare(t *zrt.Target, kn string, s *simCtx, got outcome, wo []any, wp any) {
	e.record(t, kn, got)
	if n := zrt.LowStacks.Load(); n > 0 {
		e.fail("stack", "%s ran without the stack it needs (noticed after a call of %s, %s)", zrt.LowName(), t.Name, kn)
	}
	if !samePanic(wp, got.pv) {
		e.fail("panic", "call of %s (%s): panic %v, want %v\n got events %s\nwant events %s", t.Name, kn, desc(got.pv), desc(wp), showEvents(got.log), showEvents(s.exp))
	}
	strict := kn != "spread"
	bad := len(got.log) != len(s.exp)
	for i := 0; !bad && i < len(s.exp); i++ {
		a, b := got.log[i], s.exp[i]
		if a.Kind != b.Kind || a.Target != b.Target || a.Cond != b.Cond || a.Loose != b.Loose || (strict && a.Strict != b.Strict) || (a.Info != b.Info) {
			bad = true
		}
	}
	if bad {
		e.fail("events", "call of %s (%s):\n got %s\nwant %s", t.Name, kn, showEvents(got.log), showEvents(s.exp))
	}
	if wp != nil {
		return
	}
	outT := t.Out()
	for i := range outT {
		ts := outT[i : i+1]
		gs, gl := zrt.DigestArgs(ts, got.outs[i:i+1])
		ws, wl := zrt.DigestArgs(ts, wo[i:i+1])
		if gs != ws || gl != wl {
			e.fail("results", "call of %s (%s): result %d is %v, want %v; events %s", t.Name, kn, i, desc(got.outs[i]), desc(wo[i]), showEvents(got.log))
		}
	}
}

func samePanic(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	defer func() { recover() }()
	return reflect.TypeOf(a) == reflect.TypeOf(b) && a == b
}

func desc(v any) string {
	s := fmt.Sprintf("%T(%.80v)", v, v)
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func (e *Eng) checkCounters() {
	if !e.F.Counters {
		return
	}
	for _, m := range e.mocks {
		if m.dead || m.stray && !m.active {
			continue
		}
		if int64(m.M.Times()) != m.times || int64(m.M.MockTimes()) != m.mocked {
			e.fail("counters", "mock%d of %s: Times=%d MockTimes=%d, want %d and %d", m.ID, m.T.Name, m.M.Times(), m.M.MockTimes(), m.times, m.mocked)
		}
	}
}

// ---------------------------------------------------------------- histories

func (e *Eng) step() {
	f := &e.F
	w := []int{f.Call, f.NewMock, f.Lifecycle, f.Reconf, f.Invalid, f.Vars}
	sum := 0
	for _, x := range w {
		sum += x
	}
	k := e.R.Intn(sum)
	i := 0
	for ; k >= w[i]; i++ {
		k -= w[i]
	}
	e.rep.Mark()
	defer e.rep.Mark()
	switch i {
	case 0:
		e.opCall()
	case 1:
		e.opNew()
	case 2:
		e.opLifecycle()
	case 3:
		e.opReconf()
	case 4:
		e.opInvalid()
	case 5:
		e.opVar()
	}
	if f.TextEvery > 0 && e.R.Intn(f.TextEvery) == 0 {
		e.checkText()
	}
	if f.VerifyEach > 0 && e.R.Intn(f.VerifyEach) == 0 {
		e.verifyAll()
	}
	e.checkVars()
	if i != 0 {
		e.checkCounters()
	}
}

// verifyAll probes every target once
func (e *Eng) verifyAll() {
	for _, t := range e.targets {
		e.callTarget(t)
	}
	e.checkVars()
}

type failer struct{ failed bool }

func (f *failer) Fail() { f.failed = true }

const (
	exNormal = iota
	exSo
	exPanic
	exGoexit
)

var exitNames = []string{"normal", "failed assertion", "panic", "Goexit"}

// scope runs the body of a scope: a few operations, nested scopes at fixed places, an exit
func (e *Eng) scope(path string, shape *rand.Rand, depth int) {
	e.scopes = append(e.scopes, &Scope{})
	e.rep.Max("scope depth", len(e.scopes)-1)
	e.tr("enter scope %s", path)
	exit := exNormal
	if e.F.Abnormal {
		exit = []int{exNormal, exNormal, exSo, exPanic}[e.R.Intn(4)]
		if e.goexit && e.R.Intn(6) == 0 {
			exit = exGoexit
		}
	}
	defer func() {
		// the library releases the mocks after this
		e.tr("leave scope %s (%s), %d mocks %d vars", path, exitNames[exit], len(e.cur().mocks), len(e.cur().vars))
		s := e.cur()
		if len(s.mocks)+len(s.vars) > 1 {
			e.rep.Count("scope exits with several mocks", 1)
		}
		e.rep.Count("scope exits ("+exitNames[exit]+")", 1)
		e.releaseScope(s)
		e.scopes = e.scopes[:len(e.scopes)-1]
	}()
	kids := 0
	if depth < e.F.Scopes {
		kids = []int{0, 1, 1, 2}[shape.Intn(4)]
		if depth > 3 {
			kids = (shape.Intn(8) + 7) / 8
		}
		if depth == 0 {
			kids = 1 + shape.Intn(2)
		}
	}
	seeds := []int64{}
	variants := []int{} // the statements of a scope have to be the same whenever it is entered
	for i := 0; i < kids; i++ {
		seeds = append(seeds, shape.Int63())
		variants = append(variants, shape.Intn(8)+8*shape.Intn(8))
	}
	n := 1 + e.R.Intn(e.F.Ops)
	for i := 0; i < n; i++ {
		e.step()
	}
	for i := 0; i < kids; i++ {
		sub := fmt.Sprintf("%s.%d", path, i)
		ran := false
		body := func() {
			ran = true
			e.scope(sub, rand.New(rand.NewSource(seeds[i])), depth+1)
		}
		items := []any{sub}
		items = append(items, [][]any{{}, {}, {}, {convey.FailureContinues}, {convey.FailureHalts}, {convey.FailureInherits, convey.StackError}, {convey.StackFail}, {convey.FailureContinues, convey.StackInherits}}[variants[i]/8]...)
		switch variants[i] % 8 {
		case 0, 1:
			mockey.PatchConvey(append(items, body)...)
		case 2, 3:
			mockey.PatchConvey(append(items, func(c convey.C) { body() })...)
		case 6:
			// skipped, which must have no effect on mocks and statements around it
			e.rep.Count("skipped scopes", 1)
			e.tr("skipped scope %s", sub)
			if pv, st := guarded(func() { mockey.PatchConvey(append(items, nil)...) }); st != "" {
				e.fail("scope", "PatchConvey with nil panics with %v", pv)
			}
			ran = true
		case 7:
			// goes on after a failed assertion
			mockey.PatchConvey(sub, convey.FailureContinues, func() {
				convey.So(1, convey.ShouldEqual, 2)
				body()
			})
		case 4:
			// a plain Convey in between is no scope
			convey.Convey(sub, func() {
				e.tr("in a plain Convey")
				for j := e.R.Intn(3); j > 0; j-- {
					e.step()
				}
				mockey.PatchConvey(sub+"p", body)
			})
		case 5:
			convey.Convey(sub, func() {
				ran = true
				e.tr("in a plain Convey without a scope")
				for j := e.R.Intn(4); j > 0; j-- {
					e.step()
				}
			})
		}
		if e.failed {
			panic(stop{})
		}
		if ran {
			e.tr("back in scope %s", path)
			e.verifyAll()
			e.checkText()
			for j := e.R.Intn(3); j > 0; j-- {
				e.step()
			}
		}
	}
	switch exit {
	case exSo:
		convey.So(1, convey.ShouldEqual, 2)
	case exPanic:
		panic("leaving the scope")
	case exGoexit:
		runtime.Goexit()
	}
}

// history runs one complete history; every history ends with everything released
func (e *Eng) history(name string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			if !e.failed {
				e.failed = true
				e.rep.Violation("unexpected-panic", fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack()))), e.trace)
			}
		}
	}()
	shape := rand.New(rand.NewSource(e.R.Int63()))
	for i := e.R.Intn(e.F.Ops/2 + 1); i > 0; i-- {
		e.step()
	}
	if e.F.Scopes > 0 {
		sh := shape.Int63()
		e.goexit = e.F.Abnormal && e.R.Intn(4) == 0
		top := func() {
			mockey.PatchConvey(name, &failer{}, func() {
				e.scope("s", rand.New(rand.NewSource(sh)), 0)
			})
		}
		done := make(chan any)
		go func() {
			var r any
			defer func() { done <- r }()
			defer func() { r = recover() }()
			top()
		}()
		if r := <-done; r != nil {
			panic(r)
		}
		if e.failed {
			return
		}
		if len(e.scopes) != 1 {
			e.scopes = e.scopes[:1]
		}
		e.tr("all scopes left")
		e.verifyAll()
		e.checkText()
	}
	for i := e.R.Intn(e.F.Ops + 1); i > 0; i-- {
		e.step()
	}
	e.tr("final UnPatchAll")
	e.must("UnPatchAll", func() { mockey.UnPatchAll() })
	e.releaseScope(e.cur())
	for _, m := range e.mocks {
		if m.active {
			e.fail("harness", "mock%d still active in the model", m.ID)
		}
	}
	e.verifyAll()
	e.checkText()
	e.verifyPristine()
}

// verifyPristine: after everything is released every function of the zoo is the original
func (e *Eng) verifyPristine() {
	save := e.targets
	if e.R.Intn(8) == 0 {
		e.targets = zrt.Targets
		e.verifyAll()
		e.targets = save
	}
}

var _ = os.Stderr
