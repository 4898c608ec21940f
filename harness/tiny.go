package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/bytedance/mockey"
)

// Tiny functions follow each other in memory closely: what is written for one of them must not reach the next one. Histories of mocks
// of all of them, in nested scopes, are compared with a model.

func init() { workloads["tiny"] = tinyHistories }

func tiny0(p *int)  { *p = 1000 }
func tiny1(p *int)  { *p = 1001 }
func tiny2(p *int)  { *p = 1002 }
func tiny3(p *int)  { *p = 1003 }
func tiny4(p *int)  { *p += 1004 }
func tiny5(p *int)  { *p += 1005 }
func tiny6(p *int)  { *p = 1006 }
func tiny7(p *int)  { *p = 1007 }
func tiny8(p *int)  { *p = 1008; p = nil }
func tiny9(p *int)  { *p = 1009; p = nil }
func tiny10(p *int) { *p = 1010 }
func tiny11(p *int) { *p = 1011 }
func tiny12(p *int) { *p += 1012; *p -= 0 }
func tiny13(p *int) { *p = 1013 }
func tiny14(p *int) { *p = 1014 }
func tiny15(p *int) { *p = 1; *p = 1015 }
func tiny16(p *int) { *p = 1; *p = 1016 }
func tiny17(p *int) { *p = 1017 }
func tiny18(p *int) { *p = 1018 }
func tiny19(p *int) { *p = 1019 }
func tiny20(p *int) { *p = 1020 }
func tiny21(p *int) { *p = 1021 }
func tiny22(p *int) { *p = 1022 }
func tiny23(p *int) { *p = 1023 }

var tinyFns = []func(*int){tiny0, tiny1, tiny2, tiny3, tiny4, tiny5, tiny6, tiny7, tiny8, tiny9, tiny10, tiny11, tiny12, tiny13, tiny14, tiny15,
	tiny16, tiny17, tiny18, tiny19, tiny20, tiny21, tiny22, tiny23}

type tinyMock struct {
	m      *mockey.Mocker
	fn     int
	val    int // what calls get, 0: the original
	active bool
	scope  int
	order  int
}

func tinyHistories(rep *Report) {
	r := rand.New(rand.NewSource(*fSeed))
	tm := newTextMonitor()
	near := 0
	for i := 1; i < len(tinyFns); i++ {
		if d := reflect.ValueOf(tinyFns[i]).Pointer() - reflect.ValueOf(tinyFns[i-1]).Pointer(); d <= 64 {
			near++
		}
	}
	rep.Max("functions within 64 bytes after another one", near)
	for round := *fFrom; more(rep, round); round++ {
		var trace []string
		bad := ""
		var all []*tinyMock
		order := 0
		current := func(fn int) (top *tinyMock) { // the latest mock that has a hook
			for _, t := range all {
				if t.active && t.val != 0 && t.fn == fn && (top == nil || t.order > top.order) {
					top = t
				}
			}
			return
		}
		verify := func() {
			for i, f := range tinyFns {
				want := 1000 + i
				if t := current(i); t != nil {
					want = t.val
				}
				x := new(int)
				tinySink = x
				f(x)
				rep.Count("calls of tiny functions", 1)
				if *x != want && bad == "" {
					bad = fmt.Sprintf("tiny%d gives %d, want %d", i, *x, want)
				}
			}
		}
		do := func(format string, a ...any) { trace = append(trace, fmt.Sprintf(format, a...)) }
		operate := func(depth int) {
			for k := 3 + r.Intn(12); k > 0 && bad == ""; k-- {
				fn := r.Intn(len(tinyFns))
				if len(all) > 0 && r.Intn(2) == 0 { // one next to another mock
					fn = (all[r.Intn(len(all))].fn + len(tinyFns) + r.Intn(3) - 1) % len(tinyFns)
				}
				switch op := r.Intn(10); {
				case op < 5:
					taken := false
					for _, t := range all {
						taken = taken || t.active && t.fn == fn && t.scope == depth
					}
					if taken {
						continue
					}
					order++
					t := &tinyMock{fn: fn, val: 2000 + order, active: true, scope: depth, order: order}
					b := mockey.Mock(tinyFns[fn])
					if r.Intn(4) == 0 {
						t.val = 0
						do("depth %d: mock %d of tiny%d, passes through", depth, order, fn)
						b.When(func(p *int) bool { return false }).To(func(p *int) { *p = -1 })
					} else {
						v := t.val
						do("depth %d: mock %d of tiny%d", depth, order, fn)
						b.To(func(p *int) { *p = v })
					}
					t.m = b.Build()
					all = append(all, t)
				case op < 8:
					if len(all) == 0 {
						continue
					}
					t := all[r.Intn(len(all))]
					stacked := false
					for _, o := range all {
						stacked = stacked || o != t && o.active && o.fn == t.fn
					}
					if stacked {
						continue // C04's other histories do this
					}
					if t.active {
						do("depth %d: release mock %d of tiny%d", depth, t.order, t.fn)
						t.m.UnPatch()
						t.active = false
					} else {
						order++
						do("depth %d: mock %d of tiny%d again, as %d", depth, t.order, t.fn, order)
						t.m.Patch()
						t.active, t.scope, t.order = true, depth, order
					}
				case op >= 8 && r.Intn(3) == 0:
					do("depth %d: UnPatchAll", depth)
					mockey.UnPatchAll()
					for _, t := range all {
						t.active = t.active && t.scope != depth
					}
				}
				verify()
			}
		}
		deepest := 1 + r.Intn(4)
		var scope func(depth int)
		scope = func(depth int) {
			operate(depth)
			if depth < deepest { // one nested scope: its name has to be the same whenever the outer one runs
				do("scope %d begins", depth+1)
				mockey.PatchConvey("inner", func() { scope(depth + 1) })
				do("scope %d ends", depth+1)
				for _, t := range all {
					t.active = t.active && t.scope <= depth
				}
				if bad == "" {
					verify()
				}
				operate(depth)
			}
		}
		rep.Case("tiny functions, seed %d round %d", *fSeed, round)
		pv, st := guarded(func() { mockey.PatchConvey("tiny", &failer{}, func() { scope(1) }) })
		if st != "" && bad == "" {
			bad = fmt.Sprintf("panic: %v", pv)
		}
		for _, t := range all {
			t.active = false
		}
		if bad == "" {
			verify()
		}
		if bad == "" && round%8 == 0 {
			bad = tm.check(func(uintptr) bool { return false }, 0)
		}
		rep.Distinct(fmt.Sprintf("tiny %d %s", len(all), strings.Join(trace[:min(len(trace), 4)], ";")))
		if bad != "" {
			rep.Violation("tiny", bad, trace)
			return
		}
	}
}

var tinySink *int
