package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/bytedance/mockey/verifh/winfake"
	"unsafe"
)

// ---------------------------------------------------------------- machine code and mappings

type mapping struct {
	lo, hi uintptr
	perm   string
	file   string
}

func readMaps() (res []mapping) {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		a := strings.SplitN(f[0], "-", 2)
		lo, _ := strconv.ParseUint(a[0], 16, 64)
		hi, _ := strconv.ParseUint(a[1], 16, 64)
		m := mapping{uintptr(lo), uintptr(hi), f[1], ""}
		if len(f) > 5 {
			m.file = f[5]
		}
		res = append(res, m)
	}
	return
}

type textMonitor struct {
	exe   string
	text  []mapping // executable mappings of the program
	files []mapping // all file mappings at the start
	base  [][]byte
	anonX int // executable anonymous pages at the start
	scan  int64
}

func bytesAt(lo, hi uintptr) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(lo)), int(hi-lo))
}

func merge(ms []mapping) (res []mapping) {
	for _, m := range ms {
		if n := len(res); n > 0 && res[n-1].hi == m.lo && res[n-1].perm == m.perm && res[n-1].file == m.file {
			res[n-1].hi = m.hi
			continue
		}
		res = append(res, m)
	}
	return
}

func newTextMonitor() *textMonitor {
	t := &textMonitor{}
	t.exe, _ = os.Executable()
	for _, m := range merge(readMaps()) {
		if m.file != "" && !strings.HasPrefix(m.file, "[") {
			t.files = append(t.files, m)
		}
		if m.file == t.exe && strings.Contains(m.perm, "x") {
			t.text = append(t.text, m)
			t.base = append(t.base, append([]byte{}, bytesAt(m.lo, m.hi)...))
		}
		if m.file == "" && strings.Contains(m.perm, "x") {
			t.anonX += int(m.hi-m.lo) / 4096
		}
	}
	return t
}

// check compares the code with the pristine code. allowed tells whether code at an address may differ, pages is the number of
// pages the active mocks may have.
func (t *textMonitor) check(allowed func(pc uintptr) bool, pages int) string {
	diffs := 0
	for i, m := range t.text {
		now, was := bytesAt(m.lo, m.hi), t.base[i]
		t.scan += int64(len(now))
		for off := 0; off < len(now); off += 4096 {
			if bytes.Equal(now[off:off+4096], was[off:off+4096]) {
				continue
			}
			for j := off; j < off+4096; j++ {
				if now[j] != was[j] {
					diffs++
					if pc := m.lo + uintptr(j); !allowed(pc) {
						f := runtime.FuncForPC(pc)
						name, o := "?", uintptr(0)
						if f != nil {
							name, o = f.Name(), pc-f.Entry()
						}
						return fmt.Sprintf("machine code of %s+%d changed from %#x to %#x", name, o, was[j], now[j])
					}
				}
			}
		}
	}
	ms := readMaps()
	windows := winfake.Counts()["VirtualProtect"] > 0 // there the protection is not restored
	for _, want := range t.files {
		for _, m := range ms {
			if m.lo < want.hi && m.hi > want.lo && m.perm != want.perm && !(windows && m.perm == "rwxp") {
				return fmt.Sprintf("mapping %#x-%#x of %s has permissions %s instead of %s", m.lo, m.hi, want.file, m.perm, want.perm)
			}
		}
	}
	anon := 0
	for _, m := range ms {
		if m.file == "" && strings.Contains(m.perm, "x") {
			if strings.Contains(m.perm, "w") && !windows {
				return fmt.Sprintf("mapping %#x-%#x is writable and executable", m.lo, m.hi)
			}
			anon += int(m.hi-m.lo) / 4096
		}
	}
	if anon-t.anonX > pages {
		return fmt.Sprintf("%d executable pages exist besides the program, %d mocks are active", anon-t.anonX, pages)
	}
	return ""
}

// lastName is the unqualified name of a function, without type arguments
func lastName(n string) string {
	for {
		i := strings.IndexByte(n, '[')
		if i < 0 {
			break
		}
		j := strings.LastIndexByte(n, ']')
		if j < i {
			break
		}
		n = n[:i] + n[j+1:]
	}
	return n[strings.LastIndexByte(n, '.')+1:]
}

const entryBytes = 32

// allowedText: machine code may differ at the entries of mocked functions, for generics at one entry per shape
func (e *Eng) allowedText() func(pc uintptr) bool {
	entries := map[uintptr]bool{}
	gens := map[string]int{}
	for _, ms := range e.stack {
		for i, m := range ms {
			if !m.T.Generic {
				entries[reflect.ValueOf(m.T.Fn).Pointer()] = true
			} else if i == 0 {
				gens[m.T.Name[:strings.IndexByte(m.T.Name, '[')]]++
			}
		}
	}
	seen := map[uintptr]bool{}
	return func(pc uintptr) bool {
		f := runtime.FuncForPC(pc)
		if f == nil || pc-f.Entry() >= entryBytes {
			return false
		}
		if entries[f.Entry()] || seen[f.Entry()] {
			return true
		}
		n := lastName(f.Name())
		if gens[n] > 0 && strings.Contains(f.Name(), "[") {
			gens[n]--
			seen[f.Entry()] = true
			return true
		}
		return false
	}
}

func (e *Eng) checkText() {
	if e.F.TextEvery == 0 {
		return
	}
	n := 0
	for _, ms := range e.stack {
		n += len(ms)
	}
	e.rep.Count("comparisons of the whole machine code", 1)
	if s := e.text.check(e.allowedText(), n); s != "" {
		e.fail("code", "%s (%d mocks active)", s, n)
	}
	// an active mock changes at least the entry of its target
	for _, ms := range e.stack {
		if len(ms) > 0 && !ms[0].T.Generic {
			pc := reflect.ValueOf(ms[0].T.Fn).Pointer()
			if e.text.pristine(pc, 12) {
				e.fail("code", "%s is mocked but its code is unchanged", ms[0].T.Name)
			}
		}
	}
}

func (t *textMonitor) pristine(pc uintptr, n int) bool {
	for i, m := range t.text {
		if pc >= m.lo && pc < m.hi {
			o := int(pc - m.lo)
			return bytes.Equal(bytesAt(pc, pc+uintptr(n)), t.base[i][o:o+n])
		}
	}
	return false
}
