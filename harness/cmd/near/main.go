// near patches functions with hooks whose closures lie at chosen addresses, as a program with another memory layout has them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey/internal/monkey"
)

type violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Case string `json:"case"`
}

var rep = struct {
	Violations []violation      `json:"violations"`
	Counts     map[string]int64 `json:"counts"`
	Maxes      map[string]int64 `json:"maxes"`
	Samples    []string         `json:"samples"`
	Evals      int64            `json:"evaluations"`
	Done       bool             `json:"done"`
	Keys       []string         `json:"keys"`
}{Counts: map[string]int64{}, Maxes: map[string]int64{}}

var (
	_    = flag.String("profile", "", "")
	seed = flag.Int64("seed", 1, "")
	n    = flag.Int("n", 200, "")
	out  = flag.String("out", "", "")
	_    = flag.Int("from", 0, "")
	_    = flag.Int("scale", 0, "")
	_    = flag.String("journal", "", "")
	_    = flag.Float64("budget", 0, "")
)

var keep, keep2 any

//go:noinline
func target(a int, b *int, c string) (int, string) {
	s := 0
	for i := 0; i < a; i++ {
		s += i
	}
	*b++
	return s, c + "."
}

const noReplace = 0x100000

// mapAt maps a page at the address
func mapAt(at uintptr) bool {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, at, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|noReplace, ^uintptr(0), 0)
	if e == 0 && p != at {
		syscall.Syscall(syscall.SYS_MUNMAP, p, 4096, 0)
	}
	return e == 0 && p == at
}

func main() {
	flag.Parse()
	r := rand.New(rand.NewSource(*seed))
	entry := reflect.ValueOf(target).Pointer()
	code := func() string { return string(unsafe.Slice((*byte)(unsafe.Pointer(entry)), 64)) }
	pristine := code()
	regions := map[string]bool{}
	for i := 0; i < *n; i++ {
		var at uintptr
		switch k := r.Intn(4); {
		case k == 0: // boundaries of 2^n
			b := 24 + r.Intn(23)
			at = uintptr(1)<<b + uintptr(int64(r.Intn(5)-2)*4096)
		case k == 1:
			at = 1<<46 + uintptr(r.Int63n(1<<46))
		case k == 2: // near the target
			at = entry + uintptr(r.Int63n(1<<33)) - 1<<31
		default:
			at = uintptr(r.Int63n(1 << (20 + r.Intn(27))))
		}
		at &^= 4095
		if at < 1<<16 || at > 1<<47-1<<14 || !mapAt(at) {
			rep.Counts["addresses in use or not available"]++
			continue
		}
		add, calls := r.Intn(1000), new(int)
		hook := func(a int, b *int, c string) (int, string) { *calls++; *b += add; return a + add, c + "!" }
		keep = hook // on the heap
		// a copy of the closure at the address
		var pos uintptr
		switch r.Intn(3) {
		case 0:
			pos = at
		case 1:
			pos = at + 4096 - 24
		default:
			pos = at + uintptr(r.Intn((4096-24)/8)*8)
		}
		moved := hook
		p := *(*uintptr)(unsafe.Pointer(&hook))
		copy(unsafe.Slice((*byte)(unsafe.Pointer(pos)), 24), unsafe.Slice((*byte)(unsafe.Pointer(p)), 24))
		*(*uintptr)(unsafe.Pointer(&moved)) = pos
		rep.Evals++
		rep.Counts["hooks at chosen addresses"]++
		regions[fmt.Sprintf("%x", pos>>28)] = true
		if len(rep.Samples) < 5 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("closure at %#x, target at %#x", pos, entry))
		}
		fmt.Fprintf(os.Stderr, "closure at %#x\n", pos) // what runs when it crashes
		v := new(int)
		keep2 = v
		bad := func(format string, a ...any) {
			rep.Violations = append(rep.Violations, violation{Kind: "address", Msg: fmt.Sprintf("hook closure at %#x, target at %#x: ", pos, entry) + fmt.Sprintf(format, a...)})
		}
		var proxy func(int, *int, string) (int, string)
		patch := monkey.PatchValue(reflect.ValueOf(target), reflect.ValueOf(moved), reflect.ValueOf(&proxy), false, false)
		for k := 1; k < 4; k++ {
			*v = 0
			if x, s := target(k, v, "x"); x != k+add || s != "x!" || *calls != k || *v != add {
				bad("a call gave %d, %q, the hook ran %d times instead of %d", x, s, *calls, k)
			}
			*v = 0
			if x, s := proxy(4, v, "y"); x != 6 || s != "y." || *v != 1 || *calls != k {
				bad("the original gave %d, %q", x, s)
			}
		}
		patch.Unpatch()
		*v = 0
		if x, s := target(4, v, "y"); x != 6 || s != "y." || *v != 1 || *calls != 3 {
			bad("after the release a call gave %d, %q", x, s)
		}
		if code() != pristine {
			bad("the code is not restored")
		}
		syscall.Syscall(syscall.SYS_MUNMAP, at, 4096, 0)
		if len(rep.Violations) > 0 {
			break
		}
	}
	for k := range regions {
		rep.Keys = append(rep.Keys, "closure at "+k)
	}
	rep.Done = true
	b, _ := json.Marshal(rep)
	os.WriteFile(*out, b, 0o644)
}
