package main

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zrt"
)

// ---------------------------------------------------------------- variables

// varGroup is a variable in guarded memory, the places of it that are mocked, and the model's copy of it.
type varGroup struct {
	id     int
	t      reflect.Type
	real   reflect.Value // of the variable, addressable
	shadow reflect.Value
	mem    reflect.Value // the guarded struct
	places []place
	active []*VarMock // in the order of activation
}

type place struct {
	path string
	real reflect.Value
	shad reflect.Value
}

type VarMock struct {
	id     int
	g      *varGroup
	p      int
	m      *mockey.MockerVar
	hook   any
	hasTo  bool
	saved  reflect.Value
	active bool
	scope  *Scope
	where  string
}

var guardType = reflect.TypeOf([4]uint64{})

func (e *Eng) newVarGroup() *varGroup {
	types := []reflect.Type{}
	for _, t := range zrt.Targets {
		types = append(types, t.In()...)
	}
	t := types[e.R.Intn(len(types))]
	if e.R.Intn(3) == 0 {
		t = reflect.ArrayOf(1+e.R.Intn(3), t)
	}
	st := reflect.StructOf([]reflect.StructField{
		{Name: "G1", Type: guardType}, {Name: "B1", Type: reflect.TypeOf(byte(0))}, {Name: "V", Type: t}, {Name: "B2", Type: reflect.TypeOf(byte(0))}, {Name: "G2", Type: guardType},
	})
	g := &varGroup{id: len(e.varGrp), t: t, mem: reflect.New(st).Elem(), shadow: reflect.New(t).Elem()}
	for i := 0; i < 4; i++ {
		g.mem.Field(0).Index(i).SetUint(0xA5A5A5A5A5A5A5A5)
		g.mem.Field(4).Index(i).SetUint(0x5A5A5A5A5A5A5A5A)
	}
	g.mem.Field(1).SetUint(0xC3)
	g.mem.Field(3).SetUint(0x3C)
	g.real = g.mem.Field(2)
	g.real.Set(zrt.Gen(t, e.R, 0))
	g.shadow.Set(g.real)
	var walk func(path string, r, s reflect.Value, d int)
	walk = func(path string, r, s reflect.Value, d int) {
		g.places = append(g.places, place{path, r, s})
		if d > 2 || len(g.places) > 12 {
			return
		}
		switch r.Kind() {
		case reflect.Struct:
			for i := 0; i < r.NumField(); i++ {
				f := r.Type().Field(i)
				if f.Name != "_" && f.Type.Size() > 0 {
					rf := reflect.NewAt(f.Type, unsafe.Pointer(r.Field(i).UnsafeAddr())).Elem()
					sf := reflect.NewAt(f.Type, unsafe.Pointer(s.Field(i).UnsafeAddr())).Elem()
					walk(path+"."+f.Name, rf, sf, d+1)
				}
			}
		case reflect.Array:
			for i := 0; i < r.Len() && r.Type().Elem().Size() > 0; i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), r.Index(i), s.Index(i), d+1)
			}
		}
	}
	walk("v", g.real, g.shadow, 0)
	e.varGrp = append(e.varGrp, g)
	e.rep.Distinct("var " + t.String())
	return g
}

func (v *VarMock) place() *place { return &v.g.places[v.p] }

func (v *VarMock) String() string {
	return fmt.Sprintf("varmock%d of group %d %s (%s)", v.id, v.g.id, v.place().path, v.place().real.Type())
}

// overlapping tells whether other active mocks share memory with the place without being the same variable
func (g *varGroup) overlapping(p int, except *VarMock) bool {
	for _, o := range g.active {
		if o != except && o.p != p && g.overlap(o.p, p) {
			return true
		}
	}
	return false
}

func (g *varGroup) overlap(a, b int) bool {
	x, y := g.places[a].real, g.places[b].real
	xa, ya := x.UnsafeAddr(), y.UnsafeAddr()
	return xa < ya+y.Type().Size() && ya < xa+x.Type().Size() || xa == ya
}

func (e *Eng) varOwner(v *VarMock) *VarMock {
	for _, o := range e.cur().vars {
		if o.g == v.g && o.p == v.p {
			return o
		}
	}
	return nil
}

// modelActivate and modelRelease follow the specification on the shadow copy
func (e *Eng) varActivate(v *VarMock) {
	pl := v.place()
	v.saved = reflect.New(pl.shad.Type()).Elem()
	v.saved.Set(pl.shad)
	if v.hook == nil {
		pl.shad.Set(reflect.Zero(pl.shad.Type()))
	} else {
		pl.shad.Set(reflect.ValueOf(v.hook))
	}
	v.active = true
	v.scope = e.cur()
	v.scope.vars = append(v.scope.vars, v)
	v.g.active = append(v.g.active, v)
	e.rep.Max("stacked mocks of one variable", len(v.g.active))
}

func (e *Eng) varRelease(v *VarMock) {
	if !v.active {
		return
	}
	v.active = false
	above := (*VarMock)(nil)
	del := func(l []*VarMock) []*VarMock {
		for i := range l {
			if l[i] == v {
				return append(append([]*VarMock{}, l[:i]...), l[i+1:]...)
			}
		}
		return l
	}
	seen := false
	for _, o := range v.g.active {
		if o == v {
			seen = true
		} else if seen && o.p == v.p && above == nil {
			above = o
		}
	}
	if above != nil {
		above.saved = v.saved
	} else {
		v.place().shad.Set(v.saved)
	}
	v.scope.vars = del(v.scope.vars)
	v.g.active = del(v.g.active)
	v.scope = nil
}

func (e *Eng) releaseVars(s *Scope) {
	for len(s.vars) > 0 {
		e.varRelease(s.vars[len(s.vars)-1])
	}
}

// mayTouch: mocks of different, overlapping places are only released newest first
func (v *VarMock) mayRelease() bool {
	if !v.active {
		return true
	}
	return !v.g.overlapping(v.p, v) || v.g.active[len(v.g.active)-1] == v
}

// sameKey: a different place at the same address cannot be told apart within a scope
func (e *Eng) sameKey(v *VarMock) bool {
	for _, o := range e.cur().vars {
		if o != v && o.g == v.g && o.p != v.p && o.place().real.UnsafeAddr() == v.place().real.UnsafeAddr() {
			return true
		}
	}
	return false
}

func (e *Eng) randVarValue(t reflect.Type) any {
	if e.R.Intn(6) == 0 {
		return nil
	}
	v := zrt.GenAny(t, e.R)
	if e.R.Intn(5) == 0 && t.Kind() == reflect.Interface && v != nil {
		return v
	}
	return v
}

func (e *Eng) opVar() {
	if len(e.varGrp) == 0 || (len(e.varGrp) < 3 && e.R.Intn(4) == 0) {
		e.newVarGroup()
	}
	g := e.varGrp[e.R.Intn(len(e.varGrp))]
	k := e.R.Intn(10)
	if len(e.vars) == 0 || (k < 3 && len(e.vars) < 14) {
		p := e.R.Intn(len(g.places))
		v := &VarMock{id: len(e.vars), g: g, p: p}
		ptr := reflect.NewAt(g.places[p].real.Type(), unsafe.Pointer(g.places[p].real.UnsafeAddr()))
		e.must("MockValue", func() { v.m = mockey.MockValue(ptr.Interface()) })
		e.vars = append(e.vars, v)
		e.tr("MockValue %v", v)
		e.varTo(v)
		return
	}
	v := e.vars[e.R.Intn(len(e.vars))]
	switch {
	case k < 5:
		e.varTo(v)
	case k < 7:
		if !v.mayRelease() {
			return
		}
		e.tr("unpatch %v (active=%v)", v, v.active)
		e.must("UnPatch of a variable", func() { v.m.UnPatch() })
		e.varRelease(v)
	case k < 9:
		if !v.hasTo || e.sameKey(v) {
			return
		}
		o := e.varOwner(v)
		e.tr("patch %v (active=%v)", v, v.active)
		if !v.active && o != nil {
			pv, _ := guarded(func() { v.m.Patch() })
			e.wantVarRemock(pv, o)
			return
		}
		var loc string
		e.must("Patch of a variable", func() { loc = here(); v.m.Patch() })
		if !v.active {
			v.where = loc
			e.varActivate(v)
		}
	default: // the program assigns to the variable
		p := &g.places[e.R.Intn(len(g.places))]
		x := zrt.Gen(p.real.Type(), e.R, 0)
		e.tr("assign to group %d %s", g.id, p.path)
		p.real.Set(x)
		p.shad.Set(x)
	}
}

func (e *Eng) wantVarRemock(pv any, prev *VarMock) {
	if pv == nil {
		e.fail("remock-accepted", "mocking %v again in the same scope was accepted", prev)
	}
	if s := fmt.Sprint(pv); !containsAll(s, "re-mock", prev.where) {
		e.fail("remock-message", "re-mock panic %q does not name the previous mock at %s", s, prev.where)
	}
	e.rep.Count("rejected re-mocks", 1)
}

func (e *Eng) varTo(v *VarMock) {
	if e.sameKey(v) || !v.mayRelease() {
		return
	}
	o := e.varOwner(v)
	x := e.randVarValue(v.place().real.Type())
	if e.F.Invalid > 0 && e.R.Intn(8) == 0 {
		e.varBadTo(v)
		return
	}
	e.tr("To %v (active=%v) <- %s", v, v.active, desc(x))
	if o != nil && o != v {
		pv, _ := guarded(func() { v.m.To(x) })
		e.wantVarRemock(pv, o)
		return
	}
	var loc string
	e.must("To of a variable", func() { loc = here(); v.m.To(x) })
	e.rep.Count("variables mocked", 1)
	v.where = loc
	v.hook = x
	v.hasTo = true
	e.varRelease(v)
	e.varActivate(v)
}

type strange struct{ a, b int8 }

func (e *Eng) varBadTo(v *VarMock) {
	t := v.place().real.Type()
	if t.Kind() == reflect.Interface && t.NumMethod() == 0 {
		return
	}
	u := e.otherType(t, func(u reflect.Type) bool { return u.Kind() == reflect.Interface || u.AssignableTo(t) })
	e.tr("To %v with a value of the wrong type %v", v, u)
	x := zrt.Gen(u, e.R, 0).Interface()
	pv, _ := guarded(func() { v.m.To(x) })
	if pv == nil || !containsAll(fmt.Sprint(pv), "not match target type") {
		e.fail("bad-value-accepted", "%v took a value of type %v: panic %v", v, u, pv)
	}
	e.rep.Distinct(fmt.Sprintf("value of type %v for a variable of kind %v", u, t.Kind()))
	e.rep.Count("rejected requests", 1)
}

// checkVars compares all variables with the model
func (e *Eng) checkVars() {
	for _, g := range e.varGrp {
		rs, rl := zrt.DigestVals([]reflect.Value{g.real})
		ss, sl := zrt.DigestVals([]reflect.Value{g.shadow})
		e.rep.Event("variables %d: %x", g.id, rl)
		if rs != ss || rl != sl {
			for _, p := range g.places {
				a, _ := zrt.DigestVals([]reflect.Value{p.real})
				b, _ := zrt.DigestVals([]reflect.Value{p.shad})
				if a != b {
					e.fail("variable", "group %d %s (%s) is %v, want %v", g.id, p.path, p.real.Type(), showVal(p.real), showVal(p.shad))
				}
			}
			e.fail("variable", "group %d (%s) is %v, want %v", g.id, g.t, showVal(g.real), showVal(g.shadow))
		}
		for i := 0; i < 4; i++ {
			if g.mem.Field(0).Index(i).Uint() != 0xA5A5A5A5A5A5A5A5 || g.mem.Field(4).Index(i).Uint() != 0x5A5A5A5A5A5A5A5A {
				e.fail("guard", "memory around a variable of type %s changed", g.t)
			}
		}
		if g.mem.Field(1).Uint() != 0xC3 || g.mem.Field(3).Uint() != 0x3C {
			e.fail("guard", "memory next to a variable of type %s changed", g.t)
		}
		e.rep.Count("comparisons of variables", 1)
	}
}

func showVal(v reflect.Value) string {
	s := fmt.Sprintf("%.60v", v)
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}
