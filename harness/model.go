package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zoo"
	"github.com/bytedance/mockey/verifh/zrt"
)

// ---------------------------------------------------------------- specification of mocks

type hookKind int

const (
	hNone hookKind = iota
	hTo
	hRet
	hSeq
)

type action int

const (
	aPool        action = iota // results from the pool
	aOrigin                    // what origin gives
	aOriginTwice               // origin called twice, second results
	aOriginMod                 // origin with other arguments
	aOriginPool                // origin called, results from the pool
	aPanic
	aCall       // another mocked function is called, results from the pool
	aUnPatch    // the hook releases its own mock, results from the pool
	aUnPatchAll // the hook releases all mocks of the scope, results from the pool
)

// nestedCall is made by a hook or condition
type nestedCall struct {
	T    *zrt.Target
	Kind int
	Args []any
}

const maxNest = 2

// form of a user function: which of the optional leading parameters it takes
type form struct{ Info, Recv bool }

type seqItem struct {
	vals  []any
	times int
}

type Cond struct {
	HasWhen  bool
	WForm    form
	WMod     uint64
	WSalt    uint64
	WPanic   any
	WOrigin  bool
	WCall    *nestedCall
	Call     *nestedCall
	HK       hookKind
	HForm    form
	Act      action
	Salt     uint64
	PanicVal any
	Rets     []any
	Seq      []seqItem
	seqPos   int
	when, to any // the functions handed to mockey
	seqOpt   any
}

func (c *Cond) complete() bool { return c.HasWhen && c.HK != hNone }

func (c *Cond) String() string {
	s := ""
	if c.HasWhen {
		s += fmt.Sprintf("When(%%%d %+v origin=%v panic=%v)", c.WMod, c.WForm, c.WOrigin, c.WPanic != nil)
	}
	switch c.HK {
	case hTo:
		s += fmt.Sprintf(".To(act=%d %+v)", c.Act, c.HForm)
	case hRet:
		s += ".Return"
	case hSeq:
		s += fmt.Sprintf(".Sequence(%d)", len(c.Seq))
	}
	return s
}

const (
	orgNone = iota
	orgFull
	orgNoRecv
)

type Mock struct {
	ID      int
	T       *zrt.Target
	Conds   []*Cond
	Filter  mockey.FilterGoroutineType
	GID     int64
	Org     int
	org     reflect.Value // pointer to the user's origin variable
	Unsafe  bool
	B       *mockey.MockBuilder
	M       *mockey.Mocker
	active  bool
	dead    bool
	scope   *Scope
	stray   bool // a call counted after the release it was running through
	times   int64
	mocked  int64
	where   string // file:line of the latest activation
	ops     int
	history []string
}

func (m *Mock) String() string {
	return fmt.Sprintf("mock%d of %s org=%d filter=%d/%d conds=%v", m.ID, m.T.Name, m.Org, m.Filter, m.GID, m.Conds)
}

type Scope struct {
	mocks []*Mock
	vars  []*VarMock
}

// ---------------------------------------------------------------- reference model of a call

type simCtx struct {
	e       *Eng
	gid     int64
	exp     []zrt.Event
	recurse int
	nest    int
	panicV  any
	origRan int
	hooked  bool
	cnt     map[*Mock]*[2]int64 // concurrent workloads: counts of this call, the mocks stay untouched
	seq     *Cond               // concurrent workloads: the call is answered by this sequence
	seqT    *zrt.Target
}

func infoHash(t *zrt.Target) uint64 {
	h := uint64(7)
	for _, a := range t.TypArgs {
		h = zrt.Mix(h, typeHash(a))
	}
	return h
}

func typeHash(t reflect.Type) uint64 {
	h := uint64(99)
	for _, c := range []byte(t.String()) {
		h = zrt.Mix(h, uint64(c))
	}
	return h
}

func (s *simCtx) top(t *zrt.Target, args []any) ([]any, any) {
	return s.level(len(s.e.stack[t.Shape])-1, t, args)
}

func dropRecv(t *zrt.Target, args []any, f form) ([]reflect.Type, []any) {
	in := t.In()
	if !f.Recv && t.Recv {
		return in[1:], args[1:]
	}
	return in, args
}

// below is what the mock does without intercepting, like its origin: the state before the mock, or that of the target if the mock was released
func (s *simCtx) below(m *Mock, t *zrt.Target, args []any) ([]any, any) {
	for l, x := range s.e.stack[t.Shape] {
		if x == m {
			return s.level(l-1, t, args)
		}
	}
	return s.top(t, args)
}

// nested is a call made by a hook or condition
func (s *simCtx) nested(n *nestedCall) any {
	if s.nest >= maxNest {
		return nil
	}
	gid := s.gid
	if n.T.Kinds[n.Kind] == "go" {
		s.gid = -1 << 40
	}
	s.nest++
	_, p := s.top(n.T, n.Args)
	s.nest--
	s.gid = gid
	return p
}

func (s *simCtx) level(l int, t *zrt.Target, args []any) ([]any, any) {
	if l < 0 {
		return s.orig(t, args)
	}
	m := s.e.stack[t.Shape][l]
	if s.cnt != nil {
		if s.cnt[m] == nil {
			s.cnt[m] = new([2]int64)
		}
		s.cnt[m][0]++
	} else {
		m.times++
		m.stray = m.stray || !m.active
	}
	if m.Org != orgNone && s.cnt == nil {
		s.e.orgOwner[m.org.Pointer()] = m
	}
	switch m.Filter {
	case mockey.Include:
		if s.gid != m.GID {
			return s.below(m, t, args)
		}
	case mockey.Exclude:
		if s.gid == m.GID {
			return s.below(m, t, args)
		}
	}
	for ci, c := range m.Conds {
		if c.HasWhen {
			in, as := dropRecv(t, args, c.WForm)
			st, lo := zrt.DigestArgs(in, as)
			ev := zrt.Event{Kind: zrt.EvPred, Target: m.ID, Cond: ci, Strict: st, Loose: lo}
			if c.WForm.Info {
				ev.Info = infoHash(t)
			}
			s.exp = append(s.exp, ev)
			if c.WOrigin {
				if _, p := s.below(m, t, args); p != nil {
					return nil, p
				}
			}
			if c.WCall != nil {
				if p := s.nested(c.WCall); p != nil {
					return nil, p
				}
			}
			if c.WPanic != nil {
				return nil, c.WPanic
			}
			if zrt.Mix(lo, c.WSalt)%c.WMod != 0 {
				continue
			}
		}
		if c.HK == hNone {
			return s.below(m, t, args)
		}
		if s.cnt != nil {
			s.cnt[m][1]++
		} else {
			m.mocked++
			m.stray = m.stray || !m.active
		}
		s.hooked = true
		if c.HK == hSeq && s.cnt != nil {
			s.seq, s.seqT = c, m.T
			return nil, nil
		}
		switch c.HK {
		case hRet:
			return convertRets(m.T, c.Rets), nil
		case hSeq:
			return convertRets(m.T, c.nextSeq()), nil
		}
		in, as := dropRecv(t, args, c.HForm)
		st, lo := zrt.DigestArgs(in, as)
		ev := zrt.Event{Kind: zrt.EvHook, Target: m.ID, Cond: ci, Strict: st, Loose: lo}
		if c.HForm.Info {
			ev.Info = infoHash(t)
		}
		s.exp = append(s.exp, ev)
		switch c.Act {
		case aPanic:
			return nil, c.PanicVal
		case aCall:
			if p := s.nested(c.Call); p != nil {
				return nil, p
			}
		case aUnPatch:
			s.e.deactivate(m)
		case aUnPatchAll:
			s.e.releaseScope(s.e.cur())
		case aOrigin, aOriginTwice, aOriginPool, aOriginMod:
			oargs := args
			if c.Act == aOriginMod {
				oargs = append([]any{}, args...)
				for i := range oargs {
					if i == 0 && m.T.Recv && m.Org == orgNoRecv {
						continue
					}
					oargs[i] = modArg(m.T.In()[i], c.Salt, i, lo)
				}
			}
			outs, p := s.below(m, t, oargs)
			if p != nil {
				return nil, p
			}
			if c.Act == aOriginTwice {
				if outs, p = s.below(m, t, oargs); p != nil {
					return nil, p
				}
			}
			if c.Act != aOriginPool {
				return outs, nil
			}
		}
		outs := make([]any, m.T.T.NumOut())
		for i := range outs {
			outs[i] = zrt.HookResult(m.T.T.Out(i), c.Salt, i, lo)
		}
		return outs, nil
	}
	return s.below(m, t, args)
}

func modArg(t reflect.Type, salt uint64, i int, lo uint64) any {
	return zrt.HookResult(t, salt^0x5555, i+40, lo)
}

func (c *Cond) nextSeq() []any {
	total := 0
	for _, it := range c.Seq {
		total += it.times
	}
	p := c.seqPos % total
	c.seqPos++
	for _, it := range c.Seq {
		if p < it.times {
			return it.vals
		}
		p -= it.times
	}
	panic("unreachable")
}

func convertRets(t *zrt.Target, raw []any) []any {
	outs := make([]any, len(raw))
	for i, r := range raw {
		ot := t.T.Out(i)
		if r == nil {
			if ot.Kind() != reflect.Interface {
				outs[i] = reflect.Zero(ot).Interface()
			}
			continue
		}
		v := reflect.ValueOf(r)
		if v.Type() != ot && ot.Kind() != reflect.Interface {
			v = v.Convert(ot)
		}
		outs[i] = v.Interface()
	}
	return outs
}

func (s *simCtx) orig(t *zrt.Target, args []any) (outs []any, pv any) {
	if t.Expect != nil {
		return t.Expect(args), nil
	}
	style, sub := t.Style, ""
	for i := 0; i < len(style); i++ {
		if style[i] == '/' {
			style, sub = t.Style[:i], t.Style[i+1:]
			break
		}
	}
	if style == "defer" {
		defer func() { s.exp = append(s.exp, zrt.Event{Kind: zrt.EvDefer, Target: t.ID}) }()
	}
	if style == "recover" {
		defer func() {
			if pv != nil {
				s.exp = append(s.exp, zrt.Event{Kind: zrt.EvDefer, Target: t.ID})
			}
		}()
	}
	st, lo := zrt.DigestArgs(t.In(), args)
	s.exp = append(s.exp, zrt.Event{Kind: zrt.EvOrig, Target: t.ID, Strict: st, Loose: lo})
	s.origRan++
	if s.recurse > 0 {
		s.recurse--
		if sub != "info" {
			if t.T.NumOut() > 0 {
				return s.top(t, args)
			}
			_, p := s.top(t, args)
			return nil, p
		}
	} else if s.panicV != nil {
		return nil, s.panicV
	}
	outs = make([]any, t.T.NumOut())
	for i := range outs {
		outs[i] = zrt.OrigResult(t, i, lo)
	}
	return outs, nil
}

// ---------------------------------------------------------------- real user functions following the specification

func userIn(m *Mock, f form) []reflect.Type {
	in := []reflect.Type{}
	if f.Info {
		in = append(in, reflect.TypeOf(mockey.GenericInfo(0)))
	}
	ts := m.T.In()
	if m.T.Recv && !f.Recv {
		ts = ts[1:]
	}
	return append(in, ts...)
}

func infoOf(m *Mock, v reflect.Value) uint64 {
	g := v.Interface().(mockey.GenericInfo)
	h := uint64(7)
	off := 0
	if m.T.Recv {
		off = 1 // the receiver's type comes first
	}
	for i := range m.T.TypArgs {
		h = zrt.Mix(h, typeHash(g.UsedParamType(uintptr(i+off))))
	}
	infoMu.Lock()
	defer infoMu.Unlock()
	for k, h2 := range infoSeen[m.T.Shape] {
		if g.Equal(k) != (h == h2) || g.Equal(k) != k.Equal(g) {
			return ^h // makes the comparison with the model fail
		}
	}
	if infoSeen[m.T.Shape] == nil {
		infoSeen[m.T.Shape] = map[mockey.GenericInfo]uint64{}
	}
	infoSeen[m.T.Shape][g] = h
	return h
}

var (
	infoMu   sync.Mutex
	infoSeen = map[string]map[mockey.GenericInfo]uint64{} // generic infos seen in the calls of one generic function
)

// split separates the generic information from the other arguments and digests both
func split(m *Mock, f form, args []reflect.Value) (rest []reflect.Value, info, st, lo uint64) {
	if f.Info {
		info = infoOf(m, args[0])
		args = args[1:]
	}
	st, lo = zrt.DigestVals(args)
	return args, info, st, lo
}

// callOrigin calls the user's origin variable
func (m *Mock) callOrigin(f form, args []reflect.Value) []reflect.Value {
	if m.Org == orgNoRecv && f.Recv && m.T.Recv {
		args = args[1:]
	}
	o := m.org.Elem()
	if o.Type().IsVariadic() {
		return o.CallSlice(args)
	}
	return o.Call(args)
}

var boolTypes = []reflect.Type{reflect.TypeOf(true), reflect.TypeOf(MyBool(true))}

type MyBool bool

func (e *Eng) mkWhen(m *Mock, ci int, c *Cond) any {
	bt := boolTypes[int(c.WSalt>>7)%2]
	ft := reflect.FuncOf(userIn(m, c.WForm), []reflect.Type{bt}, m.T.T.IsVariadic())
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		rest, info, st, lo := split(m, c.WForm, args)
		zrt.Emit(zrt.Event{Kind: zrt.EvPred, Target: m.ID, Cond: ci, Strict: st, Loose: lo, Info: info})
		e.inUser()
		if c.WOrigin {
			m.callOrigin(c.WForm, rest)
		}
		if c.WCall != nil {
			e.nestedCall(c.WCall)
		}
		if c.WPanic != nil {
			panic(c.WPanic)
		}
		return []reflect.Value{reflect.ValueOf(zrt.Mix(lo, c.WSalt)%c.WMod == 0).Convert(bt)}
	}).Interface()
}

func (e *Eng) mkTo(m *Mock, ci int, c *Cond) any {
	ft := reflect.FuncOf(userIn(m, c.HForm), m.T.Out(), m.T.T.IsVariadic())
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		rest, info, st, lo := split(m, c.HForm, args)
		zrt.Emit(zrt.Event{Kind: zrt.EvHook, Target: m.ID, Cond: ci, Strict: st, Loose: lo, Info: info})
		e.inUser()
		switch c.Act {
		case aPanic:
			panic(c.PanicVal)
		case aCall:
			e.nestedCall(c.Call)
		case aUnPatch:
			m.M.UnPatch()
		case aUnPatchAll:
			mockey.UnPatchAll()
		case aOrigin:
			return m.callOrigin(c.HForm, rest)
		case aOriginTwice:
			m.callOrigin(c.HForm, rest)
			return m.callOrigin(c.HForm, rest)
		case aOriginPool:
			m.callOrigin(c.HForm, rest)
		case aOriginMod:
			in := m.T.In()
			shift := 0
			if m.T.Recv && !c.HForm.Recv {
				shift = 1
			}
			mod := append([]reflect.Value{}, rest...)
			for i := range mod {
				if i+shift == 0 && m.T.Recv && m.Org == orgNoRecv {
					continue
				}
				t := in[i+shift]
				mod[i] = boxedValue(t, modArg(t, c.Salt, i+shift, lo))
			}
			return m.callOrigin(c.HForm, mod)
		}
		outs := make([]reflect.Value, m.T.T.NumOut())
		for i := range outs {
			outs[i] = boxedValue(m.T.T.Out(i), zrt.HookResult(m.T.T.Out(i), c.Salt, i, lo))
		}
		return outs
	}).Interface()
}

func (e *Eng) nestedCall(n *nestedCall) {
	if e.nest >= maxNest {
		return
	}
	e.nest++
	defer func() { e.nest-- }()
	e.rep.Count("calls made by hooks and conditions", 1)
	n.T.Call(n.Kind, n.Args)
}

// randNested chooses a call for a hook or condition to make
func (e *Eng) randNested() *nestedCall {
	n := &nestedCall{T: e.targets[e.R.Intn(len(e.targets))]}
	n.Args = e.randArgs(n.T)
	if n.T.Recv {
		if k := reflect.TypeOf(n.Args[0]).Kind(); (k == reflect.Ptr || k == reflect.Func) && reflect.ValueOf(n.Args[0]).IsNil() {
			return n
		}
	}
	if n.Kind = e.R.Intn(len(n.T.Kinds)); n.T.Kinds[n.Kind] == "spread" {
		n.Kind = 0
	}
	return n
}

func boxedValue(t reflect.Type, v any) reflect.Value {
	r := reflect.New(t).Elem()
	if v != nil {
		r.Set(reflect.ValueOf(v))
	}
	return r
}

// ---------------------------------------------------------------- random specifications

func (e *Eng) randRets(t *zrt.Target, r *rand.Rand) []any {
	outs := make([]any, t.T.NumOut())
	for i := range outs {
		ot := t.T.Out(i)
		p := zrt.Pool(ot)
		outs[i] = p[r.Intn(len(p))]
		if r.Intn(8) == 0 {
			outs[i] = nil
		} else if r.Intn(4) == 0 {
			switch ot.Kind() {
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8, reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Float64, reflect.Float32:
				outs[i] = []any{int8(r.Intn(100)), 77, uint16(500), 2.75, float32(-3), MyInt(9)}[r.Intn(6)]
			case reflect.String:
				outs[i] = []any{MyStr(fmt.Sprint("s", r.Intn(9))), []byte("bytes"), 65 + r.Intn(5), []rune("rünes"), "", []byte(nil)}[r.Intn(6)]
			case reflect.Slice, reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan:
				outs[i] = reflect.Zero(ot).Interface() // a nil value of the type
			case reflect.Interface:
				// nil values of types which implement the interface, which are no nil interfaces
				for _, v := range []any{(*zrt.PErr)(nil), (*zoo.ImplA)(nil), (*zrt.VErr)(nil), map[string]int(nil), []int(nil), (func())(nil), (*int)(nil)}[r.Intn(4):] {
					if reflect.TypeOf(v).Implements(ot) {
						outs[i] = v
						break
					}
				}
			}
		}
	}
	return outs
}

type (
	MyInt int
	MyStr string
)

func (e *Eng) randForm(t *zrt.Target, needRecv bool) form {
	f := form{Recv: true}
	if t.Recv && !needRecv && e.R.Intn(2) == 0 {
		f.Recv = false
	}
	if t.Generic && e.infoOK(t) && e.R.Intn(2) == 0 {
		f.Info = true
	}
	return f
}

// infoOK: the generic information is specified for functions that use their type parameters in a plain way
func (e *Eng) infoOK(t *zrt.Target) bool {
	n := len(t.Style)
	return n > 5 && t.Style[n-5:] == "/info"
}

func (e *Eng) addWhen(m *Mock, c *Cond) {
	c.HasWhen, c.WOrigin, c.WPanic, c.WCall = true, false, nil, nil
	if e.nesting && e.R.Intn(5) == 0 {
		c.WCall = e.randNested()
	}
	c.WForm = e.randForm(m.T, false)
	c.WMod = []uint64{1, 2, 2, 3}[e.R.Intn(4)]
	if e.F.NoMatch && e.R.Intn(2) == 0 {
		c.WMod = 1 << 60
	}
	c.WSalt = e.R.Uint64()
	if e.F.Panics && e.R.Intn(12) == 0 {
		c.WPanic = e.newPanic("when")
	}
	if m.Org != orgNone && e.R.Intn(4) == 0 {
		c.WForm.Recv = c.WForm.Recv || m.Org == orgFull
		c.WOrigin = true
	}
}

func (e *Eng) addHook(m *Mock, c *Cond) {
	c.Salt = e.R.Uint64()
	k := e.R.Intn(10)
	if e.F.SeqOnly {
		k = 4
	}
	switch {
	case k < 3 && e.F.Return:
		c.HK = hRet
		c.Rets = e.randRets(m.T, e.R)
	case k < 5 && e.F.Seq && m.T.T.NumOut() > 0:
		c.HK = hSeq
		for i := 1 + e.R.Intn(3); i > 0; i-- {
			c.Seq = append(c.Seq, seqItem{e.randRets(m.T, e.R), 1 + e.R.Intn(3)})
		}
	default:
		c.HK = hTo
		c.Act = aPool
		needRecv := false
		if m.Org != orgNone && e.R.Intn(4) > 0 {
			c.Act = []action{aOrigin, aOriginTwice, aOriginMod, aOriginPool}[e.R.Intn(4)]
			needRecv = m.Org == orgFull
		} else if e.F.Panics && e.R.Intn(8) == 0 {
			c.Act = aPanic
			c.PanicVal = e.newPanic("hook")
		}
		if c.Act == aPool && e.nesting && e.R.Intn(3) == 0 {
			c.Act, c.Call = aCall, e.randNested()
		} else if c.Act == aPool && e.selfRelease && e.R.Intn(4) == 0 {
			c.Act = []action{aUnPatch, aUnPatch, aUnPatchAll}[e.R.Intn(3)]
		}
		c.HForm = e.randForm(m.T, needRecv)
	}
}

// randSpec fills in conditions, filter and origin of a new mock
func (e *Eng) randSpec(m *Mock) {
	if e.F.Origin > 0 && e.R.Intn(100) < e.F.Origin && !(e.nesting && m.T.Generic) { // known finding K11
		m.Org = orgFull
		if m.T.Recv && e.R.Intn(2) == 0 && !e.nesting {
			m.Org = orgNoRecv
		}
		m.newOriginVar()
	}
	if e.F.Filter && (e.F.FilterAll || e.R.Intn(2) == 0) {
		e.randFilter(m)
	}
	n := 1
	if e.F.MultiCond {
		n = []int{0, 1, 1, 2, 2, 3, 5}[e.R.Intn(7)]
		if e.big && e.R.Intn(8) == 0 {
			n = 6 + e.R.Intn(40)
		}
	}
	if n == 0 {
		m.Conds = []*Cond{{}}
	}
	for i := 0; i < n; i++ {
		c := &Cond{}
		m.Conds = append(m.Conds, c)
		last := i == n-1
		if !last || (e.F.When && e.R.Intn(2) == 0) {
			e.addWhen(m, c)
		}
		if !last || !c.HasWhen || e.R.Intn(8) > 0 {
			e.addHook(m, c)
		}
	}
}

func (m *Mock) newOriginVar() {
	in := m.T.In()
	if m.Org == orgNoRecv {
		in = in[1:]
	}
	m.org = reflect.New(reflect.FuncOf(in, m.T.Out(), m.T.T.IsVariadic()))
	orgVars = append(orgVars, m.org)
}

// orgVars keeps the origin variables of a history, whose addresses identify them (Eng.orgOwner)
var orgVars []reflect.Value

func (e *Eng) randFilter(m *Mock) {
	m.Filter = []mockey.FilterGoroutineType{mockey.Include, mockey.Exclude, mockey.Disable}[e.R.Intn(3)]
	g := curGID()
	// ids no goroutine of this process can get: the calls in new goroutines must not have one of them by chance
	m.GID = []int64{g, g, g, g, g + 1<<32, g + 1<<40, g + 1<<48, -g, 0, g + 1<<62}[e.R.Intn(10)]
}
