package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/verifh/zoo"
)

// Demonstrations of the known findings (see known_findings.txt). Each runs in its own process; it sets Known when the finding shows
// itself, or crashes.
func init() {
	for k, f := range map[string]func() string{"K1": k1, "K2": k2, "K3": k3, "K5": k5, "K6": k6, "K7": k7, "K8": k8, "K9": k9, "K10": k10, "K11": k11, "K12": k12, "K14": k14} {
		f := f
		workloads["known"+k] = func(rep *Report) {
			rep.Evals = 1
			if s := f(); s != "" {
				rep.Known = []string{s}
			}
		}
	}
}

func k1() string {
	mockey.Mock(zoo.K1Set).When(func(v int) bool { return false }).Return().Build()
	zoo.K1V = 1
	zoo.K1Set(42)
	if zoo.K1V != 42 {
		return fmt.Sprintf("after the passed-through call of func Set(v int) { g = v } g is %d", zoo.K1V)
	}
	return ""
}

func k14() string {
	mockey.Mock(zoo.K14Loop).When(func(*int) bool { return false }).Return().Build()
	n := new(int)
	*n = 3
	fltSink = n
	pv, _ := guarded(func() { zoo.K14Loop(n) })
	if pv != nil || *n != 0 {
		return fmt.Sprintf("a passed-through call of a function that begins with a loop panics with %v or leaves it early (%d of 3 rounds left)", pv, *n)
	}
	return ""
}

func k2() string {
	n := 0
	m := mockey.Mock(zoo.K2Big).When(func(int) bool { n++; return false }).Return(0).Build()
	bad := ""
	for i := 0; i < 200 && bad == ""; i++ {
		done := make(chan bool)
		before := n
		go func() {
			defer close(done)
			atDepth(i%40, i*7, func() { zoo.K2Big(i) })
		}()
		<-done
		if n != before+1 {
			bad = fmt.Sprintf("one call of a function with a large frame evaluated the condition %d times (Times %d)", n-before, m.Times())
		}
	}
	return bad
}

func k3() string {
	x := 5
	f := func(a int) int {
		for i := 0; i < a; i++ {
			x++
		}
		return a + x
	}
	mockey.Mock(f).When(func(int) bool { return false }).Return(1).Build()
	var got any
	pv, _ := guarded(func() { got = f(1) })
	if pv != nil || got != 7 {
		return fmt.Sprintf("a passed-through closure gives %v (panic %v) instead of 7", got, pv)
	}
	return ""
}

func k5() string {
	var noRecv func(int) int
	mockey.Mock((*zoo.K5T).Add).Origin(&noRecv).To(func(a int) int {
		runtime.Gosched()
		time.Sleep(time.Microsecond)
		return noRecv(a)
	}).Build()
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := &zoo.K5T{N: g * 1000}
			for i := 0; i < 300; i++ {
				if r := t.Add(i); r != g*1000+i {
					mu.Lock()
					bad = fmt.Sprintf("origin called in concurrent calls ran with the receiver of another call: %d instead of %d", r, g*1000+i)
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return bad
}

func k6() string {
	mockey.Mock(zoo.K6Inc).When(func(p *[16]int) bool { atDepth(50, 0x155, func() {}); zoo.K6Deep(200); return false }).Return(1).Build()
	bad := ""
	for i := 0; i < 50; i++ {
		done := make(chan bool)
		go func() {
			defer close(done)
			var x [16]int
			x[0], x[15] = 7, 8
			r := zoo.K6Inc(&x)
			if r != 15 || x[1] != 1 {
				bad = "a passed-through call did not change its caller's variable"
			}
		}()
		<-done
	}
	return bad
}

func k7() string {
	f := mockey.GetMethod(&zoo.K7T{}, "get")
	mockey.Mock(f).Return(9).Build()
	if r := zoo.K7Call(zoo.K7T{N: 3}); r != 9 {
		return fmt.Sprintf("a mock of GetMethod(&T{}, \"get\") (value receiver) does not intercept the direct call: %d", r)
	}
	return ""
}

// k8 is a matter of chance: about one patch in 10000 hits a goroutine in the head
func k8() string {
	for g := 0; g < 6; g++ {
		go func() {
			for {
				zoo.SeqPlain(1)
			}
		}()
	}
	end := time.Now().Add(4 * time.Second)
	n := 0
	for ; time.Now().Before(end); n++ {
		mockey.Mock(zoo.SeqPlain).Return(1, "", nil).Build().UnPatch()
	}
	fmt.Fprintln(os.Stderr, n, "patches")
	return ""
}

// k9 is a matter of chance as well: the garbage collector stops a goroutine between the two instructions of the jump of a mock
func k9() string {
	mockey.Mock(zoo.K9Small).Return(1).Build()
	for g := 0; g < 6; g++ {
		go func() {
			for {
				zoo.K9Small(1, 2)
			}
		}()
	}
	end := time.Now().Add(4 * time.Second)
	n := 0
	for ; time.Now().Before(end); n++ {
		runtime.GC()
	}
	fmt.Fprintln(os.Stderr, n, "collections")
	return ""
}

// k10: the wrapper for the pointer calls the instantiated method of the value, not the shared implementation
func k10() string {
	got := -1
	mockey.MockGeneric(zoo.K10Get).To(func(g *zoo.K10G[string], i int) int { got = i; return 1 }).Build()
	if r := zoo.K10Get(&zoo.K10G[string]{A: "x", N: [4]int{100, 101, 102, 103}}, 7); r != 1 || got != 7 {
		return fmt.Sprintf("the hook of a generic value method mocked through the pointer type got the argument %d instead of 7 (result %d)", got, r)
	}
	return ""
}

// k11: like k5, the origin of a generic function runs with the type information of the call that started last
func k11() string {
	var origin func(string, string) (string, string)
	mockey.MockGeneric(zoo.K11Gen[string]).Origin(&origin).To(func(a, b string) (string, string) {
		if a == "outer" {
			zoo.K11Gen("inner", "b")
			zoo.K11Gen(zoo.MyStr("inner"), "b")
		}
		return origin(a, b)
	}).Build()
	if _, typ := zoo.K11Gen("outer", "b"); typ != "string" {
		return "after a nested call of another instantiation the origin ran with the type argument " + typ
	}
	return ""
}

// k12: a nil pointer is not looked into, so the wrapper the compiler made for the promoted method is found
func k12() string {
	mockey.Mock(mockey.GetMethod(zoo.K12T{}, "Get")).Return(9).Build()
	if r := zoo.K12Call(zoo.K12T{K12E: &zoo.K12E{N: 3}}); r != 9 {
		return fmt.Sprintf("a mock of GetMethod(T{}, \"Get\") (promoted from an embedded pointer that is nil) does not intercept the direct call: %d", r)
	}
	return ""
}
