// Package zrt is the runtime of the generated zoo of mock targets: value generation, digests, the event log and the
// plans that tell original functions what to do. It never uses mockey.
package zrt

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"
)

// ---------------------------------------------------------------- events

const (
	EvOrig = iota + 1
	EvPred
	EvHook
	EvDefer
)

var kindNames = map[int]string{EvOrig: "orig", EvPred: "pred", EvHook: "hook", EvDefer: "deferred"}

// Event is one observed (or, in the model, expected) step of a call.
type Event struct {
	Kind   int
	Target int // original: target id; hook/pred: mock id
	Cond   int
	Strict uint64 // digest with identities
	Loose  uint64 // digest of the contents only
	Info   uint64 // generic information
}

func (e Event) String() string {
	return fmt.Sprintf("%s(%d.%d args=%x/%x info=%x)", kindNames[e.Kind], e.Target, e.Cond, e.Strict&0xffffff, e.Loose&0xffffff, e.Info&0xffff)
}

// Log receives the events of the call under observation (sequential workloads).
var Log []Event

// Quiet turns logging off (concurrent workloads keep their own records).
var Quiet bool

func Emit(e Event) {
	if !Quiet {
		Log = append(Log, e)
	}
}

// ---------------------------------------------------------------- targets

// Target describes one function of the zoo.
type Target struct {
	ID      int
	Name    string
	Fn      any
	T       reflect.Type // of Fn
	Recv    bool
	Generic bool
	Shape   string // functions with the same shape share machine code
	TypArgs []reflect.Type
	Kinds   []string // ways to call it
	Call    func(kind int, in []any) []any
	Expect  func(in []any) []any // leaf functions: what it computes; they log nothing
	Style   string
	Frame   int
}

var Targets []*Target

func Register(t *Target) {
	t.ID = len(Targets)
	t.T = reflect.TypeOf(t.Fn)
	if t.Shape == "" {
		t.Shape = t.Name
	}
	Targets = append(Targets, t)
	byName[t.Name] = t
}

var byName = map[string]*Target{}

func ByName(n string) *Target { return byName[n] }

// In returns the parameter types.
func (t *Target) In() []reflect.Type {
	res := make([]reflect.Type, t.T.NumIn())
	for i := range res {
		res[i] = t.T.In(i)
	}
	return res
}

func (t *Target) Out() []reflect.Type {
	res := make([]reflect.Type, t.T.NumOut())
	for i := range res {
		res[i] = t.T.Out(i)
	}
	return res
}

// As converts a boxed value back, nil being the zero value.
func As[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func TypeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// ---------------------------------------------------------------- original functions

// Plan tells what original functions do besides logging.
type Plan struct {
	Recurse  int // how often the original calls itself (through its symbol) with the same arguments
	Panic    any // the original panics with this value
	DeepUse  int // bytes of stack the original consumes below itself
	GC       bool
	OnlyOnce bool
}

var CurPlan Plan

type State struct {
	T       *Target
	Recurse bool
	h       uint64
}

// Enter is called at the beginning of every (non-leaf) original function.
func Enter(name string, args ...any) (s State) {
	t := byName[name]
	return enter(t, args)
}

// EnterP is Enter with pointers to the parameters (so that they escape).
func EnterP(name string, args ...any) State {
	vals := make([]any, len(args))
	for i, a := range args {
		vals[i] = reflect.ValueOf(a).Elem().Interface()
	}
	return enter(byName[name], vals)
}

// EnterG is Enter for generic functions; types are zero values of the type arguments.
func EnterG(name string, types []any, args ...any) State {
	return enter(byName[GName(name, types)], args)
}

// GName is the name of an instantiation.
func GName(name string, types []any) string {
	s := name + "["
	for _, t := range types {
		s += reflect.TypeOf(t).String() + ","
	}
	return s + "]"
}

// InGo runs f on a fresh goroutine and passes its panic on.
func InGo(f func()) {
	done := make(chan any)
	go func() {
		var res any
		ok := false
		defer func() {
			if !ok {
				res = recover()
			}
			done <- res
		}()
		f()
		ok = true
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

// Probe, when set, is called by every original instead of anything else.
var Probe func()

func enter(t *Target, args []any) (s State) {
	if Probe != nil {
		Probe()
		return State{T: t}
	}
	in := t.In()
	st, lo := DigestArgs(in, args)
	Emit(Event{Kind: EvOrig, Target: t.ID, Strict: st, Loose: lo})
	s = State{T: t, h: lo}
	if Quiet {
		return
	}
	if CurPlan.DeepUse > 0 {
		useStack(CurPlan.DeepUse)
	}
	if CurPlan.GC {
		forceGC()
	}
	if CurPlan.Recurse > 0 {
		CurPlan.Recurse--
		s.Recurse = true
		return
	}
	if CurPlan.Panic != nil {
		p := CurPlan.Panic
		panic(p)
	}
	return
}

var ForceGC func()

func forceGC() {
	if ForceGC != nil {
		ForceGC()
	}
}

//go:noinline
func useStack(n int) byte {
	var buf [1024]byte
	for i := range buf {
		buf[i] = byte(n)
	}
	if n > len(buf) {
		buf[0] += useStack(n - len(buf))
	}
	return buf[n&1023] ^ buf[7]
}

func UseStack(n int) { useStack(n) }

// Deferred logs that a deferred function of an original ran.
func Deferred(name string) { Emit(Event{Kind: EvDefer, Target: byName[name].ID}) }

// Ret gives the i-th result of the call.
func (s State) Ret(i int) any { return OrigResult(s.T, i, s.h) }

// OrigResult is the i-th result the original gives for arguments with the given loose digest.
func OrigResult(t *Target, i int, h uint64) any {
	p := Pool(t.T.Out(i))
	return p[mix(h, uint64(t.ID)*31+uint64(i))%uint64(len(p))]
}

// HookResult is the i-th result a hook gives.
func HookResult(t reflect.Type, salt uint64, i int, h uint64) any {
	p := Pool(t)
	return p[mix(mix(h, salt), uint64(i)+977)%uint64(len(p))]
}

func Mix(a, b uint64) uint64 { return mix(a, b) }

func mix(a, b uint64) uint64 {
	x := a ^ (b*0x9E3779B97F4A7C15 + 0x7F4A7C15)
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

// ---------------------------------------------------------------- pools of values

var pools = map[reflect.Type][]any{}

// PoolSeed is set before any pool is used.
var PoolSeed int64

const poolSize = 5

func strHash(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Pool returns the result values of a type.
func Pool(t reflect.Type) []any {
	if p, ok := pools[t]; ok {
		return p
	}
	r := rand.New(rand.NewSource(PoolSeed ^ int64(strHash(t.String()))))
	p := make([]any, poolSize)
	for i := range p {
		p[i] = GenAny(t, r)
	}
	pools[t] = p
	return p
}

// InitPools creates all pools ahead of concurrent use.
func InitPools() {
	for _, t := range Targets {
		for i := 0; i < t.T.NumOut(); i++ {
			Pool(t.T.Out(i))
		}
		for i := 0; i < t.T.NumIn(); i++ {
			Pool(t.T.In(i))
		}
	}
}

var OrigRuns atomic.Int64

// Note counts runs of hand-written originals.
func Note(string) error { OrigRuns.Add(1); return nil }

func SeqOrig(a int) (int, string, *int) { OrigRuns.Add(1); return -1, "", nil }

// ---------------------------------------------------------------- value generation

var fnPool = []func(int) int{
	func(a int) int { return a + 1 }, func(a int) int { return a * 2 }, func(a int) int { return -a },
}

var errPool = []error{fmt.Errorf("e1"), fmt.Errorf("e2"), &PErr{3}, VErr{4}, (*PErr)(nil)}

type PErr struct{ N int }

func (e *PErr) Error() string {
	if e == nil {
		return "perr nil"
	}
	return fmt.Sprint("perr", e.N)
}

type VErr struct{ N int }

func (e VErr) Error() string  { return fmt.Sprint("verr", e.N) }
func (e VErr) String() string { return fmt.Sprint("verr", e.N) }

var anyTypes = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(1.5), reflect.TypeOf([]int{}), reflect.TypeOf(VErr{}),
	reflect.TypeOf(&PErr{}), reflect.TypeOf([2]int64{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(func(int) int { return 0 }),
}

var (
	errType      = reflect.TypeOf((*error)(nil)).Elem()
	stringerType = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
)

// GenAny generates a boxed value of static type t (nil for nil interfaces).
func GenAny(t reflect.Type, r *rand.Rand) any {
	v := Gen(t, r, 0)
	if t.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		return v.Elem().Interface()
	}
	return v.Interface()
}

func genInt(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return math.MaxInt64
	case 3:
		return math.MinInt64
	default:
		return int64(r.Uint64())
	}
}

func Gen(t reflect.Type, r *rand.Rand, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := genInt(r)
		if s := uint(64 - t.Bits()); s > 0 {
			x = x << s >> s
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := uint64(genInt(r))
		if s := uint(64 - t.Bits()); s > 0 {
			x = x << s >> s
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, math.Copysign(0, -1), math.Inf(1), math.NaN(), 1.25, float64(int32(r.Uint32()))}[r.Intn(6)])
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(int16(r.Uint32())), float64(int16(r.Uint32()))))
	case reflect.String:
		b := make([]byte, r.Intn(12))
		r.Read(b)
		v.SetString(string(b))
	case reflect.Slice:
		if r.Intn(5) == 0 {
			break
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(t, n, n+r.Intn(3))
		for i := 0; i < n; i++ {
			s.Index(i).Set(Gen(t.Elem(), r, depth+1))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(Gen(t.Elem(), r, depth+1))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				v.Field(i).Set(Gen(t.Field(i).Type, r, depth+1))
			}
		}
	case reflect.Ptr:
		if depth > 3 || r.Intn(5) == 0 {
			break
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(Gen(t.Elem(), r, depth+1))
		if p.Type() != t {
			p = p.Convert(t)
		}
		v.Set(p)
	case reflect.Map:
		if r.Intn(5) == 0 {
			break
		}
		m := reflect.MakeMap(t)
		for i := r.Intn(3); i > 0; i-- {
			k := Gen(t.Key(), r, depth+1)
			if k.Kind() == reflect.Float64 && math.IsNaN(k.Float()) {
				continue
			}
			m.SetMapIndex(k, Gen(t.Elem(), r, depth+1))
		}
		v.Set(m)
	case reflect.Chan:
		if r.Intn(4) > 0 {
			v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), r.Intn(3)).Convert(t))
		}
	case reflect.Func:
		if r.Intn(4) == 0 {
			break
		}
		if f := reflect.ValueOf(fnPool[r.Intn(len(fnPool))]); f.Type().ConvertibleTo(t) {
			v.Set(f.Convert(t))
			break
		}
		v.Set(reflect.MakeFunc(t, func(a []reflect.Value) []reflect.Value {
			out := []reflect.Value{}
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, reflect.Zero(t.Out(i)))
			}
			return out
		}))
	case reflect.UnsafePointer:
		if r.Intn(3) > 0 {
			x := new([4]uint64)
			x[0] = r.Uint64()
			v.SetPointer(unsafe.Pointer(x))
		}
	case reflect.Interface:
		switch {
		case r.Intn(5) == 0:
		case t == errType:
			v.Set(reflect.ValueOf(errPool[r.Intn(len(errPool))]))
		case t == stringerType:
			v.Set(reflect.ValueOf(VErr{r.Intn(100)}))
		case t.NumMethod() == 0:
			if depth > 3 {
				break
			}
			v.Set(Gen(anyTypes[r.Intn(len(anyTypes))], r, depth+1))
		default:
			for _, c := range ImplPool {
				if c.Implements(t) {
					v.Set(Gen(c, r, depth+1))
					break
				}
			}
		}
	}
	return v
}

// ImplPool holds types used for non-empty interfaces.
var ImplPool []reflect.Type

// ---------------------------------------------------------------- digests

var funcNames sync.Map

// funcName identifies code in every build of the program.
func funcName(pc uintptr) uint64 {
	if h, ok := funcNames.Load(pc); ok {
		return h.(uint64)
	}
	n := "?"
	if f := runtime.FuncForPC(pc); f != nil {
		n = f.Name()
	}
	h := strHash(n)
	funcNames.Store(pc, h)
	return h
}

type digester struct {
	strict, loose uint64
	depth         int
}

func (d *digester) both(x uint64)  { d.strict = mix(d.strict, x); d.loose = mix(d.loose, x) }
func (d *digester) ident(x uint64) { d.strict = mix(d.strict, x) }

// DigestArgs digests boxed values of the given static types.
func DigestArgs(types []reflect.Type, vals []any) (strict, loose uint64) {
	d := digester{}
	for i, t := range types {
		d.boxed(t, vals[i])
	}
	return d.strict, d.loose
}

// DigestVals digests values as passed to a MakeFunc function.
func DigestVals(vals []reflect.Value) (strict, loose uint64) {
	d := digester{}
	for _, v := range vals {
		d.value(v)
	}
	return d.strict, d.loose
}

func (d *digester) boxed(t reflect.Type, v any) {
	if t.Kind() == reflect.Interface {
		d.depth++
		defer func() { d.depth-- }()
		d.both(uint64(reflect.Interface) + 0x1000)
		if v == nil {
			d.both(0x11)
			return
		}
		d.both(strHash(reflect.TypeOf(v).String()))
		d.value(reflect.ValueOf(v))
		return
	}
	if v == nil {
		d.value(reflect.Zero(t))
		return
	}
	d.value(reflect.ValueOf(v))
}

func (d *digester) value(v reflect.Value) {
	if d.depth > 6 {
		d.both(0x77)
		return
	}
	d.depth++
	defer func() { d.depth-- }()
	k := v.Kind()
	d.both(uint64(k) + 0x1000)
	switch k {
	case reflect.Bool:
		if v.Bool() {
			d.both(1)
		} else {
			d.both(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.both(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.both(v.Uint())
	case reflect.Float32, reflect.Float64:
		d.both(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		c := v.Complex()
		d.both(math.Float64bits(real(c)))
		d.both(math.Float64bits(imag(c)))
	case reflect.String:
		d.both(uint64(v.Len()))
		d.both(strHash(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			d.both(0x22)
			return
		}
		d.both(uint64(v.Len()))
		d.ident(uint64(v.Pointer()))
		d.ident(uint64(v.Cap()))
		for i := 0; i < v.Len(); i++ {
			d.value(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.value(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name != "_" {
				d.value(v.Field(i))
			}
		}
	case reflect.Ptr:
		if v.IsNil() {
			d.both(0x33)
			return
		}
		d.ident(uint64(v.Pointer()))
		d.value(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			d.both(0x44)
			return
		}
		d.ident(uint64(v.Pointer()))
		hs := []uint64{}
		it := v.MapRange()
		for it.Next() {
			s := digester{depth: d.depth}
			s.value(it.Key())
			s.value(it.Value())
			hs = append(hs, s.loose)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		for _, h := range hs {
			d.both(h)
		}
	case reflect.Chan, reflect.UnsafePointer:
		if v.Pointer() == 0 {
			d.both(0x55)
			return
		}
		d.both(0x56)
		d.ident(uint64(v.Pointer()))
		if k == reflect.Chan {
			d.both(uint64(v.Cap()))
		}
	case reflect.Func:
		if v.IsNil() {
			d.both(0x66)
			return
		}
		d.both(0x67)
		d.ident(uint64(v.Pointer())) // code address
		d.both(funcName(v.Pointer()))
	case reflect.Interface:
		if v.IsNil() {
			d.both(0x11)
			return
		}
		d.both(strHash(v.Elem().Type().String()))
		d.value(v.Elem())
	}
}
