package gm

import "reflect"

// Types whose values contain themselves, and types with an unexported method of the name of a function field of what they embed.

type ring struct {
	*ring
	tag string
}

func (x *ring) Turn(a int) R { return run(900001, x.tag, sp(a)) }
func (x ring) Size() R       { return run(900002, x.tag, "") }
func (x *ring) turn(a int) R { return run(900003, x.tag, sp(a)) }

func rings(n int) *ring {
	first := &ring{tag: "r0"}
	last := first
	for i := 1; i < n; i++ {
		last = &ring{last, "r"}
	}
	first.ring = last
	return first
}

type linker interface{ Next() R }

// linked holds a value of itself in an interface.
type linked struct {
	linker
	tag string
}

type linkVal struct{ *linked }

func (x linkVal) Next() R { return run(900012, x.linked.tag, "") }

func newLinked() *linked {
	x := &linked{tag: "l"}
	x.linker = linkVal{x}
	return x
}

type holder struct {
	hand func(int) R
	Hand func() R
}

type deepHolder struct{ holder }

func newHolder() holder {
	return holder{hand: func(a int) R { return run(900021, "field", sp(a)) }, Hand: func() R { return run(900022, "field", "") }}
}

type covers struct {
	holder
	tag string
}

func (x covers) hand(a int) R { return run(900031, x.tag, sp(a)) }

type coversPtr struct {
	holder
	tag string
}

func (x *coversPtr) hand(a int) R { return run(900032, x.tag, sp(a)) }

type coversDeep struct {
	tag string
	deepHolder
}

func (x *coversDeep) hand(a int) R { return run(900033, x.tag, sp(a)) }

type coversNil struct {
	*holder
	tag string
}

func (x *coversNil) hand(a int) R { return run(900034, x.tag, sp(a)) }

func sp(a int) string { return string(rune('a' + a%26)) }

func init() {
	for n := 1; n < 5; n++ {
		n := n
		x := rings(n)
		Cases = append(Cases,
			Case{Name: "turn", Type: "ring", Shape: "ring/unexp", Inst: x, ID: 900003, Direct: func() R { return x.turn(n) },
				Func: func(f any) R { return f.(func(*ring, int) R)(x, n) }, Hook: func(id int) any { return func(int) R { return R{ID: id} } }, FT: reflect.TypeOf((func(int) R)(nil))},
			Case{Name: "Missing", Type: "ring", Shape: "missing", Inst: x, Missing: true},
			Case{Name: "missing", Type: "ring", Shape: "missing", Inst: *x, Missing: true})
		for _, inst := range []any{x, *x} {
			// every element of the ring has the method: that of which one runs depends on the receiver only
			Cases = append(Cases,
				Case{Name: "Turn", Type: "ring", Shape: "ring", Inst: inst, ID: 900001, Direct: func() R { return x.Turn(n) },
					Func: func(f any) R { return f.(func(*ring, int) R)(x, n) }, Hook: func(id int) any { return func(int) R { return R{ID: id} } }},
				Case{Name: "Size", Type: "ring", Shape: "ring", Inst: inst, ID: 900002, Direct: func() R { return x.Size() },
					Func: func(f any) R { return f.(func(ring) R)(*x) }, Hook: func(id int) any { return func() R { return R{ID: id} } }})
		}
	}
	l := newLinked()
	for _, inst := range []any{l, *l} {
		Cases = append(Cases,
			Case{Name: "Next", Type: "linked", Shape: "ring/interface", Inst: inst, ID: 900012, Direct: func() R { return linkVal{l}.Next() },
				Func: func(f any) R { return f.(func(linkVal) R)(linkVal{l}) }, Hook: func(id int) any { return func() R { return R{ID: id} } }},
			Case{Name: "Prev", Type: "linked", Shape: "missing", Inst: inst, Missing: true})
	}
	hook := func(id int) any { return func(int) R { return R{ID: id} } }
	a, b, c, d := covers{newHolder(), "a"}, &coversPtr{newHolder(), "b"}, &coversDeep{"c", deepHolder{newHolder()}}, &coversNil{nil, "d"}
	Cases = append(Cases,
		Case{Name: "hand", Type: "covers", Shape: "method over field", Inst: a, ID: 900031, Direct: func() R { return a.hand(4) },
			Func: func(f any) R { return f.(func(covers, int) R)(a, 4) }, Hook: hook},
		Case{Name: "hand", Type: "coversPtr", Shape: "method over field/ptr", Inst: b, ID: 900032, Direct: func() R { return b.hand(4) },
			Func: func(f any) R { return f.(func(*coversPtr, int) R)(b, 4) }, Hook: hook},
		Case{Name: "hand", Type: "coversDeep", Shape: "method over field/deep", Inst: c, ID: 900033, Direct: func() R { return c.hand(4) },
			Func: func(f any) R { return f.(func(*coversDeep, int) R)(c, 4) }, Hook: hook},
		Case{Name: "hand", Type: "coversNil", Shape: "method over field/nil", Inst: d, ID: 900034, Direct: func() R { return d.hand(4) },
			Func: func(f any) R { return f.(func(*coversNil, int) R)(d, 4) }, Hook: hook})
	// the fields themselves
	for _, inst := range []any{a, b, c} {
		Cases = append(Cases, Case{Name: "Hand", Type: "holder", Shape: "field next to method", Inst: inst, ID: 900022, Direct: func() R { return a.Hand() }, Field: true,
			Func: func(f any) R { return f.(func() R)() }, Hook: func(id int) any { return func() R { return R{ID: id} } }})
	}
}
