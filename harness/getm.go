package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/gm"
)

func init() { workloads["getm14"] = getMethods }

// getMethods looks every generated method and function field up and compares calls of what GetMethod returns with direct calls,
// unmocked and mocked.
func getMethods(rep *Report) {
	r := rand.New(rand.NewSource(*fSeed))
	for round := *fFrom; more(rep, round); round++ {
		order := r.Perm(len(gm.Cases))
		for _, ci := range order {
			c := gm.Cases[ci]
			rep.Case("GetMethod(%s, %.80q) %s", reflect.TypeOf(c.Inst), c.Name, c.Shape)
			if msg := getCase(rep, r, c); msg != "" {
				rep.Violation("getmethod", fmt.Sprintf("GetMethod(%s, %q) (%s): %s", reflect.TypeOf(c.Inst), c.Name, c.Shape, msg), nil)
				return
			}
			rep.Distinct(c.Shape)
		}
	}
}

func getCase(rep *Report, r *rand.Rand, c gm.Case) string {
	var f any
	pv, st := guarded(func() { f = mockey.GetMethod(c.Inst, c.Name) })
	panicked := st != ""
	if c.Missing {
		if !panicked {
			return fmt.Sprintf("returned %T although there is no such method", f)
		}
		if s := fmt.Sprint(pv); !strings.Contains(s, c.Name) || !strings.Contains(s, "method") {
			return "panicked with " + s
		}
		rep.Count("missing names", 1)
		return deprecated(c, nil, nil, gm.R{})
	}
	if panicked {
		return fmt.Sprintf("panicked with %v", pv)
	}
	inner := c.Inner
	if inner == nil {
		inner = c.Direct
	}
	msg := ""
	try := func(what string, call func() gm.R, want gm.R, runs int) {
		if call == nil || msg != "" {
			return
		}
		n := gm.Runs
		var got gm.R
		if pv, p := guarded(func() { got = call() }); p != "" {
			msg = fmt.Sprintf("%s panicked with %v", what, pv)
		} else if got != want {
			msg = fmt.Sprintf("%s gave %+v, want %+v", what, got, want)
		} else if gm.Runs-n != runs {
			msg = fmt.Sprintf("%s ran %d original bodies, want %d", what, gm.Runs-n, runs)
		}
	}
	want := inner()
	if want.ID != c.ID {
		return fmt.Sprintf("the generated case is wrong: body %d ran, want %d", want.ID, c.ID)
	}
	viaFunc := func() gm.R { return c.Func(f) }
	try("calling the function returned", viaFunc, want, 1)
	if msg != "" {
		return msg
	}
	if g := mockey.GetMethod(c.Inst, c.Name); reflect.ValueOf(g).Pointer() != reflect.ValueOf(f).Pointer() {
		return "two lookups returned different functions"
	}
	if s := deprecated(c, f, viaFunc, want); s != "" {
		return s
	}
	hookID := -1 - r.Intn(1000)
	b := mockey.Mock(f)
	if r.Intn(2) == 0 {
		b.To(c.Hook(hookID))
	} else {
		b.Return(gm.R{ID: hookID})
	}
	m := b.Build()
	defer m.UnPatch()
	hw := gm.R{ID: hookID}
	try("the mocked method called on the instance", c.Direct, hw, 0)
	try("the mocked method called on its receiver", inner, hw, 0)
	try("the mocked method called through an interface", c.Via, hw, 0)
	try("the mocked function", viaFunc, hw, 0)
	calls := m.MockTimes()
	rep.Count("calls intercepted", calls)
	for k := 0; k < 4 && msg == ""; k++ {
		o := gm.Cases[r.Intn(len(gm.Cases))]
		if o.Missing || o.ID == c.ID {
			continue
		}
		in := o.Inner
		if in == nil {
			in = o.Direct
		}
		n := gm.Runs
		if got := in(); got.ID != o.ID || gm.Runs-n != 1 {
			msg = fmt.Sprintf("while it is mocked %s.%s gave %+v, want body %d", o.Type, o.Name, got, o.ID)
		}
		rep.Count("calls of other methods", 1)
	}
	if msg == "" && m.MockTimes() != calls {
		msg = "calls of other methods were counted"
	}
	m.UnPatch()
	try("the method after release", inner, want, 1)
	try("the function after release", viaFunc, want, 1)
	rep.Count("methods and fields", 1)
	return msg
}

// deprecated checks the two older lookups: they find the exported methods only
func deprecated(c gm.Case, f any, viaFunc func() gm.R, want gm.R) string {
	rm, reachable := reflect.TypeOf(c.Inst).MethodByName(c.Name)
	method := !c.Missing && !c.Field && c.Name[0] >= 'A' && c.Name[0] <= 'Z'
	for _, l := range []struct {
		what string
		get  func(any, string) any
		has  bool
	}{{"GetNestedMethod", mockey.GetNestedMethod, method}, {"GetPrivateMethod", mockey.GetPrivateMethod, reachable}} {
		if v := reflect.ValueOf(c.Inst); v.Kind() == reflect.Ptr && v.IsNil() && l.what == "GetNestedMethod" {
			continue // looks at the value the pointer points to
		}
		var g any
		pv, st := guarded(func() { g = l.get(c.Inst, c.Name) })
		if !l.has {
			if st == "" {
				return fmt.Sprintf("%s returned %T although there is no such exported method", l.what, g)
			}
			if s := fmt.Sprint(pv); !strings.Contains(s, c.Name) || !strings.Contains(s, "method") {
				return l.what + " panicked with " + s
			}
			continue
		}
		if st != "" {
			return fmt.Sprintf("%s panicked with %v", l.what, pv)
		}
		switch {
		case l.what == "GetNestedMethod":
			if reflect.ValueOf(g).Pointer() != reflect.ValueOf(f).Pointer() || reflect.TypeOf(g) != reflect.TypeOf(f) {
				return "GetNestedMethod found another function"
			}
		case reflect.TypeOf(g) != rm.Func.Type():
			return fmt.Sprintf("GetPrivateMethod returned %T, want %v", g, rm.Func.Type())
		case reflect.TypeOf(g) == reflect.TypeOf(f) && viaFunc != nil:
			var got gm.R
			if pv, st := guarded(func() { got = c.Func(g) }); st != "" {
				return fmt.Sprintf("what GetPrivateMethod returned panicked with %v", pv)
			} else if got != want {
				return fmt.Sprintf("what GetPrivateMethod returned gave %+v, want %+v", got, want)
			}
		}
	}
	return ""
}
