package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zoo"
)

func init() {
	workloads["cycles05"] = func(rep *Report) { cycles(rep, cycleKinds) }
	workloads["rejects11"] = func(rep *Report) { cycles(rep, rejectKinds) }
}

var cycleVar = map[string]int{"a": 1}

type cycleKind struct {
	name string
	f    func(i int)
}

// cycle kinds: everything they mock is released at their end
var cycleKinds = []cycleKind{
	{"return", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).Return(i, "x", nil).Build()
		zoo.SeqPlain(i)
		m.UnPatch()
	}},
	{"toggled", func(i int) {
		m := mockey.Mock((*zoo.RSmall).SeqMeth).When(func(a string) bool { return len(a) > 2 }).Return(int8(1), 2.0, nil).Build()
		for k := 0; k < 3; k++ {
			(&zoo.RSmall{}).SeqMeth("abcd"[:i%5])
			m.UnPatch()
			m.UnPatch()
			m.Patch()
			m.Patch()
		}
		m.UnPatch()
	}},
	{"generic", func(i int) {
		m := mockey.MockGeneric(zoo.SeqGen[int]).When(func(a int) bool { return a > 2 }).Return(mockey.Sequence(1, []int{}).Then(2, nil).Times(3)).Build()
		zoo.SeqGen(i)
		zoo.SeqGen("other")
		m.UnPatch()
	}},
	{"origin", func(i int) {
		var origin func(zoo.Big200, ...string) (zoo.Big200, int, error)
		m := mockey.Mock(zoo.SeqBig).Origin(&origin).To(func(a zoo.Big200, b ...string) (zoo.Big200, int, error) { return origin(a, b...) }).Build()
		zoo.SeqBig(zoo.Big200{}, "a", "b")
		m.UnPatch()
		origin(zoo.Big200{})
	}},
	{"reconfigured", func(i int) {
		m := mockey.Mock(zoo.SeqPlain2).When(func(a int) bool { return a%2 == 0 }).Return(1, "", nil).Build()
		zoo.SeqPlain2(i)
		m.When(func(a int) bool { return a%3 == 0 })
		zoo.SeqPlain2(i)
		m.To(func(a int) (int, string, *int) { return a, "to", nil })
		m.IncludeCurrentGoRoutine()
		zoo.SeqPlain2(i)
		b := m.Release()
		m = b.Return(2, "b", nil).Build()
		zoo.SeqPlain2(i)
		m.UnPatch()
	}},
	{"rejected", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).Return(i, "x", nil).Build()
		guarded(func() { mockey.Mock(zoo.SeqPlain).Return(2, "y", nil).Build() })
		guarded(func() { mockey.Mock(zoo.Tiny[1]).Return().Build() })
		guarded(func() { m.To(func(string) int { return 1 }) })
		guarded(func() { mockey.Mock(zoo.SeqPlain2).Return("too few").Build() })
		pv, _ := guarded(func() { zoo.SeqPlain2(1) })
		if pv == nil {
			panic("a return that does not fit does not panic")
		}
		mockey.UnPatchAll()
	}},
	{"panicking", func(i int) {
		mockey.Mock(zoo.SeqPlain).When(func(a int) bool { return a > 1 }).To(func(a int) (int, string, *int) { panic("hook") }).Build()
		for k := 0; k < 4; k++ {
			guarded(func() { zoo.SeqPlain(k) })
		}
		mockey.UnPatchAll()
	}},
	{"variable", func(i int) {
		m := mockey.MockValue(&cycleVar).To(map[string]int{"b": i})
		m.To(nil)
		m.UnPatch()
		m.Patch()
		mockey.UnPatchAll()
	}},
	{"unsafe", func(i int) {
		m := mockey.MockUnsafe(zoo.SeqPlain).Return(i, "x", nil).Build()
		zoo.SeqPlain(i)
		m.UnPatch()
	}},
	{"stacked", func(i int) {
		m := mockey.MockGeneric(zoo.SeqGen[*int]).Return(1, nil).Build()
		n := mockey.MockGeneric(zoo.SeqGen[*string]).Return(2, nil).Build() // shares the code of the other one
		zoo.SeqGen(&i)
		if i%2 == 0 {
			m, n = n, m
		}
		m.UnPatch()
		zoo.SeqGen(&i)
		n.UnPatch()
	}},
	{"goroutines", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).ExcludeCurrentGoRoutine().Return(i, "x", nil).Build()
		done := make(chan bool)
		go func() { zoo.SeqPlain(i); close(done) }()
		<-done
		m.UnPatch()
	}},
}

func rejected(what string, f func()) {
	if pv, _ := guarded(f); pv == nil {
		panic(what + " was not rejected")
	}
}

// kinds of requests that are rejected; nothing may be kept for them
var rejectKinds = []cycleKind{
	{"too short", func(i int) {
		rejected("mocking a function that is too short", func() { mockey.Mock(zoo.Tiny[1]).Return().Build() })
	}},
	{"re-mock", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).Return(i, "x", nil).Build()
		for k := 0; k < 3; k++ {
			rejected("a re-mock", func() { mockey.Mock(zoo.SeqPlain).When(func(int) bool { return true }).Return(2, "y", nil).Build() })
		}
		m.UnPatch()
	}},
	{"re-mock of a generic function", func(i int) {
		m := mockey.MockGeneric(zoo.SeqGen[int]).Return(1, nil).Build()
		rejected("a re-mock", func() { mockey.MockGeneric(zoo.SeqGen[int]).Return(2, nil).Build() })
		m.UnPatch()
	}},
	{"not a function", func(i int) { rejected("mocking no function", func() { mockey.Mock(i) }) }},
	{"hook", func(i int) {
		rejected("a wrong hook", func() { mockey.Mock(zoo.SeqPlain).To(func(string) (int, string, *int) { return 1, "", nil }).Build() })
	}},
	{"hook of an active mock", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).Return(i, "x", nil).Build()
		for k := 0; k < 3; k++ {
			rejected("a wrong hook", func() { m.To(func(string) (int, string, *int) { return 1, "", nil }) })
			rejected("a wrong condition", func() { m.When(func(int) int { return 1 }) })
			rejected("a wrong origin", func() { m.Origin(&i) })
		}
		if r, _, _ := zoo.SeqPlain(1); r != i {
			panic("a rejected request changed the mock")
		}
		m.UnPatch()
	}},
	{"several conditions", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).When(func(a int) bool { return a > 1 }).Return(i, "x", nil).When(func(a int) bool { return a > 0 }).Return(1, "", nil).Build()
		rejected("When of a mock with several conditions", func() { m.When(func(int) bool { return true }) })
		rejected("Return of a mock with several conditions", func() { m.Return(1, "", nil) })
		m.UnPatch()
	}},
	{"variable", func(i int) {
		m := mockey.MockValue(&cycleVar).To(map[string]int{"b": i})
		rejected("a value of another type", func() { m.To(i) })
		rejected("a re-mock of a variable", func() { mockey.MockValue(&cycleVar).To(map[string]int{"c": i}) })
		m.UnPatch()
		rejected("a value of another type", func() { m.To("x") })
		rejected("no pointer", func() { mockey.MockValue(cycleVar) })
	}},
	{"reconfigured re-mock", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).Return(i, "x", nil).Build()
		m.UnPatch()
		n := mockey.Mock(zoo.SeqPlain).Return(i, "x", nil).Build()
		rejected("a re-mock", func() { m.Patch() })
		rejected("a re-mock", func() { m.Return(3, "", nil) })
		rejected("a re-mock", func() { m.IncludeCurrentGoRoutine() })
		n.UnPatch()
	}},
	{"return values", func(i int) {
		m := mockey.Mock(zoo.SeqPlain).Return("too few").Build()
		for k := 0; k < 3; k++ {
			rejected("a return that does not fit", func() { zoo.SeqPlain(1) })
		}
		m.UnPatch()
	}},
	{"method", func(i int) {
		rejected("a method that does not exist", func() { mockey.GetMethod(&zoo.RSmall{}, "NoSuchMethod") })
		rejected("a method that does not exist", func() { mockey.GetMethod(zoo.RSmall{}, "noSuchMethod") })
	}},
}

type resources struct {
	objects, bytes, mappings, execPages, pages, goroutines, files int
}

func measure() (r resources) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	r.objects, r.bytes = int(ms.HeapObjects), int(ms.HeapAlloc)
	for _, m := range readMaps() {
		if m.file == "" {
			r.mappings++
			if m.lo>>32 != 0xc0 { // the heap of Go is measured by its own statistics
				r.pages += int(m.hi-m.lo) / 4096
			}
			if strings.Contains(m.perm, "x") {
				r.execPages += int(m.hi-m.lo) / 4096
			}
		}
	}
	r.goroutines = runtime.NumGoroutine()
	if fs, err := os.ReadDir("/proc/self/fd"); err == nil {
		r.files = len(fs)
	}
	return
}

// cycles mocks and releases again and again and looks for anything that grows with the number of cycles
func cycles(rep *Report, kinds []cycleKind) {
	n := 1500
	for i := *fFrom; more(rep, i); i++ {
		r := rand.New(rand.NewSource(*fSeed*7919 + int64(i)))
		k := kinds[i%len(kinds)]
		rep.Case("%d cycles of kind %q", n, k.name)
		run := func(c int) {
			for j := 0; j < c; j++ {
				k.f(r.Intn(100))
				rep.Count("mock and release cycles", 1)
			}
		}
		if i%3 == 2 {
			plain := run
			run = func(c int) {
				for j := 0; j < c; j += 50 {
					mockey.PatchConvey(fmt.Sprint("cycles", i), &failer{}, func() { plain(50) })
				}
			}
		}
		run(200)
		before := measure()
		run(n)
		after := measure()
		grown := func(what string, a, b, most int) {
			rep.Max("growth of "+what, b-a)
			if b-a > most {
				rep.Violation("growth", fmt.Sprintf("%d cycles of kind %q: the number of %s grew from %d to %d", n, k.name, what, a, b), nil)
			}
		}
		grown("heap objects", before.objects, after.objects, n/4)
		grown("heap bytes", before.bytes, after.bytes, 30*n)
		grown("mappings", before.mappings, after.mappings, n/10)
		grown("executable pages", before.execPages, after.execPages, 0)
		grown("anonymous pages outside of the heap", before.pages, after.pages, n/4)
		grown("goroutines", before.goroutines, after.goroutines, 20)
		grown("open files", before.files, after.files, 20)
		rep.Distinct(fmt.Sprint(k.name, i%3))
	}
}
