package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zoo"
	"github.com/bytedance/mockey/verifh/zrt"
)

var addresses = regexp.MustCompile(`0x[0-9a-f]+|0xc[0-9a-f]+`)

func containsAll(s string, subs ...string) bool {
	for _, x := range subs {
		if !strings.Contains(s, x) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- requests that cannot be honoured

// funcWith makes a function of the given type that must never run
func (e *Eng) funcWith(in, out []reflect.Type, variadic bool) any {
	return reflect.MakeFunc(reflect.FuncOf(in, out, variadic), func([]reflect.Value) []reflect.Value {
		panic("a function of a rejected request ran")
	}).Interface()
}

var (
	strangeT = reflect.TypeOf(strange{})
	boolT    = reflect.TypeOf(true)
	giT      = reflect.TypeOf(mockey.GenericInfo(0))
)

// badFunc gives a hook (bool results: condition) that does not fit t, and what is wrong with it
func (e *Eng) badFunc(t *zrt.Target, cond, origin bool) (any, string) {
	in, out := t.In(), t.Out()
	v := t.T.IsVariadic()
	if cond {
		out = []reflect.Type{boolT}
	}
	for {
		switch e.R.Intn(10) {
		case 0: // another parameter type
			if len(in) == 0 || (v && len(in) == 1) {
				continue
			}
			i := e.R.Intn(len(in))
			if v && i == len(in)-1 || t.Recv && i == 0 {
				continue
			}
			in[i] = e.otherType(in[i], func(u reflect.Type) bool { return u == in[i] || u == giT })
			return e.funcWith(in, out, v), "parameter of another type"
		case 1: // one more
			if v {
				in = append([]reflect.Type{strangeT}, in...)
			} else {
				in = append(in, strangeT)
			}
			return e.funcWith(in, out, v), "one parameter more"
		case 2: // two fewer
			if len(in) < 2 || (v && len(in) < 3) {
				continue
			}
			return e.funcWith(in[2:], out, v), "two parameters fewer"
		case 3:
			if !v {
				continue
			}
			return e.funcWith(in, out, false), "slice instead of variadic"
		case 4:
			if v || len(in) == 0 || in[len(in)-1].Kind() != reflect.Slice {
				continue
			}
			return e.funcWith(in, out, true), "variadic instead of slice"
		case 5:
			if len(out) == 0 {
				out = []reflect.Type{strangeT}
				return e.funcWith(in, out, v), "a result more"
			}
			i := e.R.Intn(len(out))
			fits := func(u reflect.Type) bool { return u.AssignableTo(out[i]) }
			if cond {
				fits = func(u reflect.Type) bool { return u.Kind() == reflect.Bool }
			} else if origin {
				fits = func(u reflect.Type) bool { return out[i].AssignableTo(u) }
			}
			if fits(strangeT) {
				continue
			}
			out[i] = e.otherType(out[i], fits)
			return e.funcWith(in, out, v), "result of another type"
		case 6:
			if len(out) == 0 {
				continue
			}
			return e.funcWith(in, out[1:], v), "a result fewer"
		case 7:
			if cond || !e.F.Gaps {
				return 42, "no function"
			}
			continue
		case 9:
			if cond {
				return e.funcWith(in, append(out, boolT), v), "two results"
			}
		case 8:
			if t.Generic || origin {
				continue
			}
			return e.funcWith(append([]reflect.Type{giT}, in...), out, v), "GenericInfo for a function that is not generic"
		}
	}
}

type request struct {
	what string
	f    func()
	want []string
}

func (e *Eng) opInvalid() {
	t := e.targets[e.R.Intn(len(e.targets))]
	var rq request
	m := e.pickMock()
	if m != nil && len(m.Conds) == 1 && e.R.Intn(2) == 0 && (e.owner(m.T) == nil || e.owner(m.T) == m) {
		// reconfigure a built mock with something that does not fit
		switch e.R.Intn(3) {
		case 0:
			f, why := e.badFunc(m.T, true, false)
			rq = request{fmt.Sprintf("mock%d.When: %s", m.ID, why), func() { m.M.When(f) }, nil}
		case 1:
			f, why := e.badFunc(m.T, false, false)
			rq = request{fmt.Sprintf("mock%d.To: %s", m.ID, why), func() { m.M.To(f) }, nil}
		case 2:
			if e.R.Intn(4) == 0 {
				rq = request{fmt.Sprintf("mock%d.Origin: no pointer", m.ID), func() { m.M.Origin(func() {}) }, []string{"is not a pointer"}}
			} else if e.R.Intn(4) == 0 {
				rq = request{fmt.Sprintf("mock%d.Origin: pointer to something else", m.ID), func() { m.M.Origin(new(int)) }, []string{"must be a function pointer"}}
			} else {
				f, why := e.badFunc(m.T, false, true)
				if _, ok := f.(int); ok {
					return
				}
				p := reflect.New(reflect.TypeOf(f))
				rq = request{fmt.Sprintf("mock%d.Origin: %s", m.ID, why), func() { m.M.Origin(p.Interface()) }, nil}
			}
		}
	} else {
		dummy := &Mock{ID: -1, T: t}
		b := mockey.Mock(t.Fn)
		if t.Generic {
			b = mockey.MockGeneric(t.Fn)
		}
		okTo := e.funcWith(t.In(), t.Out(), t.T.IsVariadic())
		okWhen := e.funcWith(t.In(), []reflect.Type{boolT}, t.T.IsVariadic())
		_ = dummy
		switch e.R.Intn(14) {
		case 0:
			x := []any{1, "f", struct{}{}, &t.Fn, []int{1}}[e.R.Intn(5)]
			rq = request{fmt.Sprintf("Mock(%T)", x), func() { mockey.Mock(x).Return().Build() }, []string{"is not a function"}}
		case 1:
			x := []any{1, "f", struct{}{}, t.Fn, []int{1}}[e.R.Intn(5)]
			rq = request{fmt.Sprintf("MockValue(%T)", x), func() { mockey.MockValue(x).To(x) }, []string{"is not a pointer"}}
		case 2:
			rq = request{"When twice", func() { b.When(okWhen).When(okWhen) }, []string{"re-set builder when"}}
		case 3:
			rq = request{"To twice", func() { b.To(okTo).To(okTo) }, []string{"re-set builder hook"}}
		case 4:
			rq = request{"Return after To", func() { b.To(okTo).Return(e.randRets(t, e.R)...) }, []string{"re-set builder hook"}}
		case 5:
			o := reflect.New(t.T).Interface()
			rq = request{"Origin twice", func() { b.Origin(o).Origin(o) }, []string{"re-set builder origin"}}
		case 6:
			f, why := e.badFunc(t, true, false)
			rq = request{"When: " + why, func() { b.When(f).To(okTo).Build() }, nil}
		case 7, 8:
			f, why := e.badFunc(t, false, false)
			rq = request{"To: " + why, func() { b.To(f).Build() }, nil}
		case 9:
			f, why := e.badFunc(t, false, true)
			if _, ok := f.(int); ok {
				return
			}
			p := reflect.New(reflect.TypeOf(f))
			rq = request{"Origin: " + why, func() { b.Origin(p.Interface()).Build() }, nil}
		case 10:
			n := -e.R.Intn(3)
			rq = request{"Times", func() { mockey.Sequence(1).Times(n) }, []string{"should more than 0"}}
		case 11:
			i := e.R.Intn(len(zoo.Tiny))
			rq = request{fmt.Sprintf("too short %d", i), func() { mockey.Mock(zoo.Tiny[i]).To(zoo.Tiny[i]).Build() }, []string{"too short"}}
		case 12:
			if e.owner(t) == nil {
				return
			}
			p := e.owner(t)
			rq = request{"re-mock", func() { b.To(okTo).Build() }, []string{"re-mock", p.where}}
		case 13:
			e.badReturn(t, b)
			return
		}
	}
	e.tr("request for %s that cannot be honoured: %s", t.Name, rq.what)
	pv, _ := guarded(rq.f)
	if pv == nil {
		e.fail("accepted", "%s: %s was accepted", t.Name, rq.what)
	}
	if s := fmt.Sprint(pv); !containsAll(s, rq.want...) {
		e.fail("message", "%s: %s panics with %q, which does not contain %q", t.Name, rq.what, s, rq.want)
	}
	e.rep.Event("%s: rejected with %s", rq.what, addresses.ReplaceAllString(portable(pv), "ADDR"))
	e.rep.Count("rejected requests", 1)
	e.rep.Distinct("reject " + strings.SplitN(rq.what, ".", 2)[0] + rq.what)
	// no effect
	e.checkCounters()
	if m != nil {
		e.callTarget(m.T)
	}
	e.callTarget(t)
}

// badReturn: values that do not fit the results panic in the mocked call
func (e *Eng) badReturn(t *zrt.Target, b *mockey.MockBuilder) {
	if e.owner(t) != nil {
		return
	}
	rets := e.randRets(t, e.R)
	if len(rets) == 0 || e.R.Intn(2) == 0 {
		rets = append(rets, 5)
		if e.R.Intn(2) == 0 && len(rets) > 1 {
			rets = rets[:len(rets)-2]
		}
	} else {
		i := e.R.Intn(len(rets))
		if t.T.Out(i).Kind() == reflect.Interface && strangeT.Implements(t.T.Out(i)) {
			return
		}
		u := e.otherType(t.T.Out(i), func(u reflect.Type) bool { return u.Kind() == reflect.Interface || u.ConvertibleTo(t.T.Out(i)) })
		rets[i] = reflect.Zero(u).Interface()
	}
	var ret any = nil
	seq := e.R.Intn(4) == 0
	e.tr("mock %s to return %d values that do not fit (sequence=%v)", t.Name, len(rets), seq)
	var m *mockey.Mocker
	e.must("Build", func() {
		if seq {
			ret = mockey.Sequence(rets...)
			m = b.Return(ret).Build()
		} else {
			m = b.Return(rets...).Build()
		}
	})
	args := e.randArgs(t)
	zrt.Log = nil
	if len(rets) == 1 && !seq {
		if _, ok := rets[0].(mockey.SequenceOpt); ok {
			return
		}
	}
	kind := 0
	pv, _ := guarded(func() { t.Call(kind, args) })
	if pv == nil || !(strings.Contains(fmt.Sprint(pv), "Return")) {
		e.fail("bad-return", "calling %s mocked to return values that do not fit: panic %v", t.Name, pv)
	}
	if len(zrt.Log) > 0 {
		e.fail("bad-return", "calling %s mocked to return values that do not fit ran %s", t.Name, showEvents(zrt.Log))
	}
	if m.Times() != 1 || m.MockTimes() != 1 {
		e.fail("bad-return", "counters %d/%d after one call that panicked", m.Times(), m.MockTimes())
	}
	e.must("UnPatch", func() { m.UnPatch() })
	e.rep.Count("calls with results that do not fit", 1)
	e.callTarget(t)
}
