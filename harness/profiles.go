package main

import (
	"bytes"
	"reflect"
	"runtime"
	"strings"
	"unsafe"

	"github.com/bytedance/mockey/verifh/zrt"
	"golang.org/x/arch/x86/x86asm"
)

var excluded []string

func init() {
	workloads["excluded"] = func(rep *Report) { rep.Known = excluded }
}

// excludeTargets removes the functions that are subject of a known finding: originals with a frame of more than 4096
// bytes are entered with another stack check, which cannot be left out (see K2 in known_findings.txt).
func excludeTargets() {
	keep := []*zrt.Target{}
	skip := map[string]bool{}
	for _, n := range strings.Split(*fSkip, ";") {
		skip[n] = true
	}
	for _, t := range zrt.Targets {
		addr := reflect.ValueOf(t.Fn).Pointer()
		if t.Generic {
			addr = sharedEntry(t)
		}
		if skip[t.Name] {
			continue
		}
		if addr != 0 && bytes.HasPrefix(unsafe.Slice((*byte)(unsafe.Pointer(addr)), 3), []byte{0x49, 0x89, 0xe4}) {
			excluded = append(excluded, t.Name)
			continue
		}
		if concurrentWorkloads[*fProfile] && addr != 0 && earlyFrame(addr) {
			continue
		}
		keep = append(keep, t)
	}
	zrt.Targets = keep
}

// concurrentWorkloads run mocked functions and the garbage collector at the same time. They leave out the functions of known finding K9:
// those that set up their frame in the first 10 bytes, so that their stack cannot be read at the second instruction of the jump.
var concurrentWorkloads = map[string]bool{"conc06": true, "conc08": true, "gc15": true, "stw17": true}

func earlyFrame(addr uintptr) bool {
	code := unsafe.Slice((*byte)(unsafe.Pointer(addr)), 64)
	for pos := 0; pos < 10; {
		in, err := x86asm.Decode(code[pos:], 64)
		if err != nil {
			return true
		}
		if in.Op == x86asm.PUSH || (in.Op == x86asm.SUB || in.Op == x86asm.ADD) && in.Args[0] == x86asm.RSP {
			return true
		}
		pos += in.Len
	}
	return false
}

// sharedEntry calls an (unmocked) generic function to learn where its shared implementation starts.
func sharedEntry(t *zrt.Target) (res uintptr) {
	zrt.Probe = func() {
		var pcs [8]uintptr
		fr := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs[:])])
		for {
			f, more := fr.Next()
			if strings.Contains(f.Function, "/verifh/zoo.") {
				res = f.Entry
				break
			}
			if !more {
				break
			}
		}
	}
	defer func() { zrt.Probe = nil }()
	in := []any{}
	for _, ty := range t.In() {
		v := reflect.Zero(ty)
		if ty.Kind() == reflect.Pointer && t.Recv && len(in) == 0 {
			v = reflect.New(ty.Elem())
		}
		if ty.Kind() == reflect.Interface {
			in = append(in, nil)
		} else {
			in = append(in, v.Interface())
		}
	}
	guarded(func() { t.Call(0, in) })
	return
}

func noGeneric(t *zrt.Target) bool   { return !t.Generic }
func onlyGeneric(t *zrt.Target) bool { return t.Generic }
func hasResults(t *zrt.Target) bool  { return t.T.NumOut() > 0 }

var profiles = map[string]Features{
	// dispatch: several conditions, all forms of hooks and returns, one mock per target mostly
	"C01": {Nest: true, Ops: 30, MaxMocks: 5, MultiCond: true, When: true, Return: true, Panics: true, Call: 10, NewMock: 3, Lifecycle: 2, Subset: 4, Targets: noGeneric},
	// transparency: conditions that do not match, filters of other goroutines, missing hooks, recursion, stack depth
	"C02":    {Nest: true, Ops: 25, MaxMocks: 5, MultiCond: true, When: true, NoMatch: true, Filter: true, Panics: true, Recurse: true, Deep: true, Call: 12, NewMock: 3, Lifecycle: 2, Subset: 4},
	"C03":    {Nest: true, Ops: 6, MaxMocks: 12, Scopes: 3, MultiCond: true, When: true, Return: true, Origin: 15, Call: 6, NewMock: 5, Lifecycle: 2, Reconf: 2, Vars: 4, Stack: true, Subset: 4, Abnormal: true, TextEvery: 0},
	"C04":    {Nest: true, Ops: 40, MaxMocks: 8, Scopes: 1, When: true, Return: true, Origin: 20, Filter: true, Call: 4, NewMock: 2, Lifecycle: 10, Vars: 2, Stack: true, Subset: 3, VerifyEach: 3},
	"C05":    {Ops: 20, MaxMocks: 10, Scopes: 1, When: true, Return: true, Origin: 20, Call: 2, NewMock: 5, Lifecycle: 6, Reconf: 2, Stack: true, Subset: 8, TextEvery: 2, Abnormal: true, Unsafe: true},
	"C06":    {Nest: true, Ops: 30, MaxMocks: 5, Scopes: 1, MultiCond: true, When: true, Return: true, Seq: true, Origin: 30, Filter: true, Panics: true, Recurse: true, Call: 10, NewMock: 3, Lifecycle: 4, Reconf: 3, Stack: true, Subset: 3, Counters: true},
	"C07":    {Ops: 40, MaxMocks: 4, Scopes: 1, MultiCond: true, When: true, Return: true, Seq: true, SeqOnly: true, Call: 14, NewMock: 2, Lifecycle: 2, Reconf: 2, Subset: 2, Targets: hasResults},
	"C08":    {Ops: 30, MaxMocks: 5, When: true, Return: true, Filter: true, FilterAll: true, Deep: true, Call: 10, NewMock: 3, Lifecycle: 2, Reconf: 3, Subset: 3, Origin: 10},
	"C09":    {Nest: true, Ops: 30, MaxMocks: 5, Scopes: 1, MultiCond: true, When: true, Origin: 100, Panics: true, Recurse: true, Deep: true, Call: 12, NewMock: 3, Lifecycle: 3, Reconf: 1, Stack: true, Subset: 3, AfterRelease: true},
	"C10":    {Nest: true, Ops: 40, MaxMocks: 5, Scopes: 2, MultiCond: true, When: true, Return: true, Seq: true, Origin: 40, Filter: true, Call: 5, NewMock: 2, Lifecycle: 3, Reconf: 10, Stack: true, Subset: 3, Counters: true, VerifyEach: 3},
	"C11":    {Nest: true, Ops: 30, MaxMocks: 6, Scopes: 2, MultiCond: true, When: true, Return: true, Seq: true, Origin: 30, Filter: true, Call: 3, NewMock: 3, Lifecycle: 4, Reconf: 3, Invalid: 8, Vars: 2, Stack: true, Subset: 3, Counters: true, VerifyEach: 4, TextEvery: 8},
	"C12":    {Ops: 40, Scopes: 3, Call: 1, Vars: 20, Lifecycle: 1, MaxMocks: 3, NewMock: 1, Return: true, Subset: 2, Abnormal: true},
	"C13":    {Nest: true, Ops: 30, MaxMocks: 6, Scopes: 1, MultiCond: true, When: true, Return: true, Seq: true, Origin: 40, Filter: true, Panics: true, Recurse: true, Deep: true, Call: 12, NewMock: 4, Lifecycle: 3, Reconf: 2, Stack: true, Subset: 5, Targets: onlyGeneric, Counters: true},
	"C15":    {Nest: true, Ops: 20, MaxMocks: 5, Scopes: 1, MultiCond: true, When: true, Return: true, Seq: true, Origin: 50, Filter: true, Panics: true, Recurse: true, Deep: true, GC: 4, Call: 12, NewMock: 3, Lifecycle: 3, Reconf: 2, Vars: 2, Stack: true, Subset: 4},
	"C20out": {Ops: 25, MaxMocks: 6, MultiCond: true, When: true, Return: true, Seq: true, Origin: 30, Filter: true, Panics: true, Recurse: true, Deep: true, Call: 10, NewMock: 4, Lifecycle: 4, Reconf: 3, Invalid: 2, Vars: 3, Stack: true, Subset: 4, Counters: true},
	"C20":    {Nest: true, Ops: 25, MaxMocks: 6, Scopes: 2, MultiCond: true, When: true, Return: true, Seq: true, Origin: 30, Filter: true, Panics: true, Recurse: true, Deep: true, Call: 10, NewMock: 4, Lifecycle: 4, Reconf: 3, Invalid: 2, Vars: 3, Stack: true, Subset: 4, Abnormal: true, Counters: true},
}
