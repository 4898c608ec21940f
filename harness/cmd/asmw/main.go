//go:build verifasmw

// asmw interprets the assembly routines of the library as they are linked into programs for several platforms: the routine that
// writes code (mem.write) and the one that tells the current goroutine (tool.getG). Pages, their protections, system calls and the
// C functions of macOS are modelled here.
package main

import (
	"debug/elf"
	"debug/macho"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/arch/x86/x86asm"
)

var (
	fSeed = flag.Int64("seed", 1, "")
	fN    = flag.Int("n", 1, "")
	fMem  = flag.String("mem", "/repo/internal/monkey/mem", "sources of the package mem")
	fOut  = flag.String("out", "", "")
	_     = flag.String("profile", "", "")
	_     = flag.Int("from", 0, "")
	_     = flag.Int("scale", 0, "")
	_     = flag.String("journal", "", "")
	_     = flag.Float64("budget", 0, "")
)

type violation struct {
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
	Case  string   `json:"case"`
}

var rep = struct {
	Violations []violation      `json:"violations"`
	Counts     map[string]int64 `json:"counts"`
	Maxes      map[string]int64 `json:"maxes"`
	Samples    []string         `json:"samples"`
	Evals      int64            `json:"evaluations"`
	Done       bool             `json:"done"`
	Keys       []string         `json:"keys"`
	Known      []string         `json:"known"`
}{Counts: map[string]int64{}, Maxes: map[string]int64{}}

var keys, seen = map[string]bool{}, map[string]bool{}

// ---------------------------------------------------------------- programs

type program struct {
	name, os, arch string
	base           uint64 // of text
	text           []byte
	write, writeTo uint64
	getg, getgTo   uint64
	memmove        map[uint64]bool
	stub           func(a uint64) string
	params         map[string]int // places of the parameters of write
}

// signature finds the parameters of the assembly routine in the Go sources; nil if they are not the known ones.
func signature(dir, goos string) map[string]int {
	src, err := os.ReadFile(filepath.Join(dir, "write_"+goos+".go"))
	if err != nil {
		return nil
	}
	f, err := parser.ParseFile(token.NewFileSet(), "write.go", src, 0)
	if err != nil {
		return nil
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "write" || fd.Body != nil {
			continue
		}
		res, n := map[string]int{}, 0
		for _, fl := range fd.Type.Params.List {
			t, ok := fl.Type.(*ast.Ident)
			if !ok || t.Name != "int" && t.Name != "uintptr" {
				return nil
			}
			for _, id := range fl.Names {
				res[id.Name] = n
				n++
			}
		}
		for _, k := range []string{"target", "data", "len", "page", "pageSize", "oriProt"} {
			if _, ok := res[k]; !ok || n != 6 {
				return nil
			}
		}
		return res
	}
	return nil
}

func (p *program) symbol(name string, addr, end uint64) {
	name = strings.TrimPrefix(name, "_")
	switch name {
	case "github.com/bytedance/mockey/internal/monkey/mem.write.abi0", "github.com/bytedance/mockey/internal/monkey/mem.write":
		if p.write == 0 || strings.HasSuffix(name, ".abi0") {
			p.write, p.writeTo = addr, end
		}
	case "github.com/bytedance/mockey/internal/tool.getG.abi0", "github.com/bytedance/mockey/internal/tool.getG":
		if p.getg == 0 || strings.HasSuffix(name, ".abi0") {
			p.getg, p.getgTo = addr, end
		}
	case "runtime.memmove.abi0", "runtime.memmove":
		p.memmove[addr] = true
	}
}

func load(path string) *program {
	f := strings.Split(filepath.Base(path), "-")
	p := &program{name: f[1] + "/" + f[2], os: f[1], arch: f[2], memmove: map[uint64]bool{}, stub: func(uint64) string { return "" }}
	if p.os == "darwin" {
		m, err := macho.Open(path)
		if err != nil {
			panic(err)
		}
		s := m.Section("__text")
		p.text, _ = s.Data()
		p.base = s.Addr
		var addrs []uint64
		for _, y := range m.Symtab.Syms {
			addrs = append(addrs, y.Value)
		}
		for _, y := range m.Symtab.Syms {
			if y.Sect == 0 {
				continue
			}
			end := s.Addr + s.Size
			for _, a := range addrs {
				if a > y.Value && a < end {
					end = a
				}
				if strings.Contains(y.Name, "mockey/internal") || strings.Contains(y.Name, "memmove") {
					continue
				}
				break
			}
			p.symbol(y.Name, y.Value, end)
		}
		if st := m.Section("__symbol_stub1"); st != nil && m.Dysymtab != nil {
			size := map[string]uint64{"amd64": 6, "arm64": 12}[p.arch]
			p.stub = func(a uint64) string {
				i := (a - st.Addr) / size
				if a < st.Addr || a >= st.Addr+st.Size || (a-st.Addr)%size != 0 || i >= uint64(len(m.Dysymtab.IndirectSyms)) {
					return ""
				}
				return strings.TrimPrefix(m.Symtab.Syms[m.Dysymtab.IndirectSyms[i]].Name, "_")
			}
		}
	} else {
		e, err := elf.Open(path)
		if err != nil {
			panic(err)
		}
		s := e.Section(".text")
		p.text, _ = s.Data()
		p.base = s.Addr
		syms, err := e.Symbols()
		if err != nil {
			panic(err)
		}
		for _, y := range syms {
			if elf.ST_TYPE(y.Info) == elf.STT_FUNC {
				p.symbol(y.Name, y.Value, y.Value+y.Size)
			}
		}
	}
	return p
}

// ---------------------------------------------------------------- the machine

type machine struct {
	p     *program
	r     *rand.Rand
	stack map[uint64]uint64 // aligned words
	log   []string
	trace []uint64 // addresses executed while the page may not be executable

	// the page model
	pageSize uint64
	prot     map[uint64]int // protection of pages that were changed
	copied   bool
	copyErr  string
	fails    []bool // which of the requests for a protection fail
	reqs     int
	task     uint64
	failed   uint64 // result of the last request that failed
	lastOK   bool
	args     struct{ target, data, n, page, pageSize, ori uint64 }
}

// unknown: the interpreter cannot tell what the code does
type unknown string

func (u unknown) Error() string { return string(u) }

func (m *machine) logf(f string, a ...any) { m.log = append(m.log, fmt.Sprintf(f, a...)) }

func (m *machine) protect(addr, size uint64, prot int) uint64 {
	i := m.reqs
	m.reqs++
	if i < len(m.fails) && m.fails[i] {
		m.lastOK = false
		m.failed = uint64(1 + m.r.Intn(100))
		if m.p.os == "linux" {
			m.failed = -m.failed
		}
		m.logf("protect %#x+%#x %d: fails with %d", addr, size, prot, int64(m.failed))
		return m.failed
	}
	m.logf("protect %#x+%#x %d", addr, size, prot)
	m.lastOK = true
	for a := addr &^ (m.pageSize - 1); a < addr+size; a += m.pageSize {
		m.prot[a] = prot
	}
	return 0
}

func (m *machine) syscall(nr uint64, a [3]uint64) (uint64, error) {
	want := map[string]uint64{"linux/amd64": 10, "linux/arm64": 226, "darwin/amd64": 0x2000000 + 74, "darwin/arm64": 74}[m.p.name]
	if m.p.name == "darwin/arm64" {
		nr &= 0xffffff // the class in the upper bits is not looked at
	}
	if nr != want {
		return 0, fmt.Errorf("system call %#x", nr)
	}
	if a[0]%m.pageSize != 0 {
		return 0, fmt.Errorf("protection of the unaligned address %#x", a[0])
	}
	return m.protect(a[0], a[1], int(a[2])), nil
}

func (m *machine) memmove(dst, src, n uint64) error {
	m.logf("copy %#x <- %#x, %d", dst, src, n)
	if dst != m.args.target || src != m.args.data || n != m.args.n {
		return fmt.Errorf("copies %d bytes from %#x to %#x", n, src, dst)
	}
	for a := dst &^ (m.pageSize - 1); a < dst+n; a += m.pageSize {
		if pr, ok := m.prot[a]; !ok || pr&3 != 3 {
			return fmt.Errorf("copies to page %#x, which is not writable", a)
		}
	}
	m.copied = true
	return nil
}

func (m *machine) cfunc(name string, a [5]uint64) (uint64, error) {
	switch name {
	case "mach_task_self":
		m.logf("mach_task_self")
		return m.task, nil
	case "mach_vm_protect": // task, address, size, set maximum, protection
		if a[0] != m.task || a[3] != 0 {
			return 0, fmt.Errorf("mach_vm_protect of task %#x, set maximum %d", a[0], a[3])
		}
		return m.protect(a[1], a[2], int(a[4])), nil
	}
	return 0, unknownf("calls %q", name)
}

func (m *machine) load(a uint64) (uint64, error) {
	v, ok := m.stack[a]
	if !ok {
		return 0, fmt.Errorf("reads from %#x", a)
	}
	return v, nil
}

func (m *machine) store(a, v uint64) error {
	if _, ok := m.stack[a]; !ok {
		return fmt.Errorf("writes to %#x", a)
	}
	m.stack[a] = v
	return nil
}

// exec notes that the code at a runs: all pages that were made non-executable must not contain it
func (m *machine) exec(a uint64) {
	if len(m.prot) > 0 && !m.restored() {
		m.trace = append(m.trace, a)
	}
}

func (m *machine) restored() bool {
	for _, p := range m.prot {
		if p&4 == 0 {
			return false
		}
	}
	return true
}

func unknownf(f string, a ...any) error { return unknown(fmt.Sprintf(f, a...)) }

const retAddr = 0x7fff00000000

// runARM runs the code at start until it returns.
func (m *machine) runARM(start, end uint64, x *[32]uint64) error {
	pc := start
	var eq, lt bool
	for steps := 0; steps < 200000; steps++ {
		if pc == retAddr {
			return nil
		}
		if pc < start || pc >= end {
			return fmt.Errorf("jumps to %#x", pc)
		}
		m.exec(pc)
		w := binary.LittleEndian.Uint32(m.p.text[pc-m.p.base:])
		rd, rn := w&31, w>>5&31
		get := func(r uint32) uint64 {
			if r == 31 {
				return 0
			}
			return x[r]
		}
		set := func(r uint32, v uint64) {
			if r != 31 {
				x[r] = v
			}
		}
		sext := func(v uint32, bits uint) uint64 { return uint64(int64(uint64(v)<<(64-bits)) >> (64 - bits)) }
		next := pc + 4
		clobber := func(regs ...int) {
			for _, r := range regs {
				x[r] = m.r.Uint64()
			}
		}
		var err error
		switch {
		case w>>23 == 0b110100101: // movz
			set(rd, uint64(w>>5&0xffff)<<(16*(w>>21&3)))
		case w>>23 == 0b100100101: // movn
			set(rd, ^(uint64(w>>5&0xffff) << (16 * (w >> 21 & 3))))
		case w>>23 == 0b111100101: // movk
			s := 16 * (w >> 21 & 3)
			set(rd, get(rd)&^(0xffff<<s)|uint64(w>>5&0xffff)<<s)
		case w>>22 == 0b1011001001: // orr immediate, 64 bit element
			if w>>22&1 == 1 {
				imms, immr := w>>10&63, w>>16&63
				v := uint64(1)<<(imms+1) - 1
				if imms == 63 {
					return unknownf("instruction %#08x", w)
				}
				v = v>>immr | v<<(64-immr)
				v |= get(rn)
				x[rd] = v
			}
		case w>>21 == 0b10101010000 && w>>10&63 == 0: // orr register
			set(rd, get(rn)|get(w>>16&31))
		case w>>23 == 0b100100010 || w>>23 == 0b110100010: // add, sub immediate
			v := uint64(w >> 10 & 0xfff)
			if w>>22&1 == 1 {
				v <<= 12
			}
			if w>>30&1 == 1 {
				v = -v
			}
			x[rd] = x[rn] + v
		case w>>23 == 0b111100010 && rd == 31: // cmp immediate
			v := uint64(w >> 10 & 0xfff)
			if w>>22&1 == 1 {
				v <<= 12
			}
			a := x[rn]
			eq, lt = a == v, int64(a) < int64(v)
		case w>>21 == 0b11101011000 && rd == 31 && w>>10&63 == 0: // cmp register
			a, b := get(rn), get(w>>16&31)
			eq, lt = a == b, int64(a) < int64(b)
		case w>>24 == 0b01010100 && w>>4&1 == 0: // b.cond
			var t bool
			switch w & 15 {
			case 0:
				t = eq
			case 1:
				t = !eq
			case 10:
				t = !lt
			case 11:
				t = lt
			case 12:
				t = !lt && !eq
			case 13:
				t = lt || eq
			default:
				return unknownf("condition %d", w&15)
			}
			if t {
				next = pc + sext(w>>5&0x7ffff, 19)*4
			}
		case w>>25 == 0b1011010: // cbz, cbnz
			if (get(rd) == 0) == (w>>24&1 == 0) {
				next = pc + sext(w>>5&0x7ffff, 19)*4
			}
		case w>>22 == 0b1111100101: // ldr
			var v uint64
			v, err = m.load(x[rn] + uint64(w>>10&0xfff)*8)
			set(rd, v)
		case w>>22 == 0b1111100100: // str
			err = m.store(x[rn]+uint64(w>>10&0xfff)*8, get(rd))
		case w>>22 == 0b1111100000 && w>>21&1 == 0 || w>>22 == 0b1111100001 && w>>21&1 == 0: // str, ldr: pre, post, unscaled
			off := sext(w>>12&0x1ff, 9)
			a := x[rn]
			mode := w >> 10 & 3
			if mode == 2 {
				return unknownf("instruction %#08x", w)
			}
			if mode != 1 {
				a += off
			}
			if w>>22&1 == 1 {
				var v uint64
				v, err = m.load(a)
				set(rd, v)
			} else {
				err = m.store(a, get(rd))
			}
			if mode != 0 {
				x[rn] += off
			}
		case w>>25 == 0b1010100 && w>>30 == 2: // stp, ldp
			off := sext(w>>15&0x7f, 7) * 8
			a := x[rn]
			mode := w >> 23 & 3
			if mode == 0 {
				return unknownf("instruction %#08x", w)
			}
			if mode != 1 {
				a += off
			}
			if w>>22&1 == 1 {
				var v1, v2 uint64
				var e2 error
				v1, err = m.load(a)
				v2, e2 = m.load(a + 8)
				if err == nil {
					err = e2
				}
				set(rd, v1)
				set(w>>10&31, v2)
			} else {
				err = m.store(a, get(rd))
				if e := m.store(a+8, get(w>>10&31)); err == nil {
					err = e
				}
			}
			if mode != 2 {
				x[rn] += off
			}
		case w == 0xd503201f || w == 0x1f2003d5: // nop, and a floating point instruction
		case w>>26 == 0b000101: // b
			next = pc + sext(w&0x3ffffff, 26)*4
		case w&0xffe0001f == 0xd4000001: // svc
			imm := uint64(w >> 5 & 0xffff)
			nr := x[8]
			if m.p.os == "darwin" {
				nr = x[16]
				if imm != 0x80 {
					return fmt.Errorf("svc %#x", imm)
				}
			} else if imm != 0 {
				return fmt.Errorf("svc %#x", imm)
			}
			x[0], err = m.syscall(nr, [3]uint64{x[0], x[1], x[2]})
			if m.p.os == "darwin" {
				clobber(1, 16, 17)
			}
		case w>>26 == 0b100101: // bl
			to := pc + sext(w&0x3ffffff, 26)*4
			sp := x[31]
			if sp%16 != 0 {
				return fmt.Errorf("calls with the stack pointer at %#x", sp)
			}
			if m.p.memmove[to] {
				a, e1 := m.load(sp + 8)
				b, e2 := m.load(sp + 16)
				n, e3 := m.load(sp + 24)
				if e := errors.Join(e1, e2, e3); e != nil {
					return e
				}
				err = m.memmove(a, b, n)
				clobber(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27)
			} else {
				name := m.p.stub(to)
				var v uint64
				v, err = m.cfunc(name, [5]uint64{x[0], x[1], x[2], x[3], x[4]})
				clobber(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17)
				x[0] = v
			}
			x[30] = pc + 4
		case w&0xfffffc1f == 0xd65f0000: // ret
			next = get(rn)
		default:
			return unknownf("instruction %#08x at +%#x", w, pc-start)
		}
		if err != nil {
			return err
		}
		pc = next
	}
	return fmt.Errorf("does not return")
}

// registers of the x86 interpreter in the order AX CX DX BX SP BP SI DI R8-R15
func (m *machine) runX86(start, end uint64, x *[16]uint64) error {
	pc := start
	var eq, lt bool
	for steps := 0; steps < 200000; steps++ {
		if pc == retAddr {
			return nil
		}
		if pc < start || pc >= end {
			return fmt.Errorf("jumps to %#x", pc)
		}
		m.exec(pc)
		in, err := x86asm.Decode(m.p.text[pc-m.p.base:], 64)
		if err != nil {
			return unknownf("instruction at +%#x: %v", pc-start, err)
		}
		bad := unknownf("instruction %v at +%#x", in, pc-start)
		next := pc + uint64(in.Len)
		addr := func(mm x86asm.Mem) (uint64, bool) {
			if mm.Segment != 0 || mm.Index != 0 || mm.Base < x86asm.RAX || mm.Base > x86asm.R15 {
				return 0, false
			}
			return x[mm.Base-x86asm.RAX] + uint64(mm.Disp), true
		}
		reg := func(r x86asm.Reg) (i int, mask uint64, ok bool) {
			if r >= x86asm.RAX && r <= x86asm.R15 {
				return int(r - x86asm.RAX), ^uint64(0), true
			}
			if r >= x86asm.EAX && r <= x86asm.R15L {
				return int(r - x86asm.EAX), 0xffffffff, true
			}
			return 0, 0, false
		}
		val := func(a x86asm.Arg) (uint64, error) {
			switch a := a.(type) {
			case x86asm.Imm:
				return uint64(a), nil
			case x86asm.Reg:
				if i, mask, ok := reg(a); ok {
					return x[i] & mask, nil
				}
			case x86asm.Mem:
				if p, ok := addr(a); ok && in.MemBytes == 8 {
					return m.load(p)
				}
			}
			return 0, bad
		}
		put := func(a x86asm.Arg, v uint64) error {
			switch a := a.(type) {
			case x86asm.Reg:
				if i, mask, ok := reg(a); ok {
					x[i] = v & mask
					return nil
				}
			case x86asm.Mem:
				if p, ok := addr(a); ok && in.MemBytes == 8 {
					return m.store(p, v)
				}
			}
			return bad
		}
		clobber := func(regs ...int) {
			for _, r := range regs {
				x[r] = m.r.Uint64()
			}
		}
		jump := func(t bool) error {
			rel, ok := in.Args[0].(x86asm.Rel)
			if !ok {
				return bad
			}
			if t {
				next = next + uint64(int64(rel))
			}
			return nil
		}
		switch in.Op {
		case x86asm.NOP:
		case x86asm.MOV:
			var v uint64
			if v, err = val(in.Args[1]); err == nil {
				err = put(in.Args[0], v)
			}
		case x86asm.LEA:
			mm, ok := in.Args[1].(x86asm.Mem)
			if !ok {
				return bad
			}
			a, ok := addr(mm)
			if !ok {
				return bad
			}
			err = put(in.Args[0], a)
		case x86asm.ADD, x86asm.SUB, x86asm.XOR, x86asm.CMP, x86asm.TEST:
			a, e1 := val(in.Args[0])
			b, e2 := val(in.Args[1])
			if err = errors.Join(e1, e2); err != nil {
				break
			}
			switch in.Op {
			case x86asm.CMP:
				eq, lt = a == b, int64(a) < int64(b)
				if in.DataSize == 32 {
					lt = int32(a) < int32(b)
				}
			case x86asm.TEST:
				eq, lt = a&b == 0, int64(a&b) < 0
			case x86asm.ADD:
				err = put(in.Args[0], a+b)
			case x86asm.SUB:
				err = put(in.Args[0], a-b)
			case x86asm.XOR:
				err = put(in.Args[0], a^b)
			}
		case x86asm.PUSH:
			var v uint64
			if v, err = val(in.Args[0]); err == nil {
				x[4] -= 8
				err = m.store(x[4], v)
			}
		case x86asm.POP:
			var v uint64
			if v, err = m.load(x[4]); err == nil {
				x[4] += 8
				err = put(in.Args[0], v)
			}
		case x86asm.JMP:
			err = jump(true)
		case x86asm.JE:
			err = jump(eq)
		case x86asm.JNE:
			err = jump(!eq)
		case x86asm.JL:
			err = jump(lt)
		case x86asm.JGE:
			err = jump(!lt)
		case x86asm.SYSCALL:
			x[0], err = m.syscall(x[0], [3]uint64{x[7], x[6], x[2]})
			clobber(1, 11)
			if m.p.os == "darwin" {
				clobber(2)
			}
		case x86asm.CALL:
			rel, ok := in.Args[0].(x86asm.Rel)
			if !ok {
				return bad
			}
			to := next + uint64(int64(rel))
			sp := x[4]
			if m.p.memmove[to] {
				a, e1 := m.load(sp)
				b, e2 := m.load(sp + 8)
				n, e3 := m.load(sp + 16)
				if e := errors.Join(e1, e2, e3); e != nil {
					return e
				}
				err = m.memmove(a, b, n)
				clobber(0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 15)
			} else {
				var v uint64
				v, err = m.cfunc(m.p.stub(to), [5]uint64{x[7], x[6], x[2], x[1], x[8]})
				clobber(1, 2, 6, 7, 8, 9, 10, 11)
				x[0] = v
			}
		case x86asm.RET:
			if next, err = m.load(x[4]); err == nil {
				x[4] += 8
			}
		default:
			return bad
		}
		if err != nil {
			return err
		}
		pc = next
	}
	return fmt.Errorf("does not return")
}

// ---------------------------------------------------------------- the oracle

func (p *program) checkWrite(r *rand.Rand) {
	rep.Evals++
	m := &machine{p: p, r: r, stack: map[uint64]uint64{}, prot: map[uint64]int{}, task: r.Uint64()}
	m.pageSize = []uint64{4096, 16384, 65536}[r.Intn(3)]
	if p.arch == "amd64" {
		m.pageSize = 4096
	} else if p.os == "darwin" {
		m.pageSize = 16384
	}
	a := &m.args
	a.page = r.Uint64() >> uint(8+r.Intn(30)) &^ (m.pageSize - 1)
	a.pageSize = m.pageSize
	off := uint64(r.Intn(int(m.pageSize)))
	a.target = a.page + off
	a.n = 1 + uint64(r.Intn(int(min(m.pageSize-off, 200))))
	a.data = r.Uint64()
	a.ori = []uint64{5, 5, 5, 7, 1, 4}[r.Intn(6)]
	for i := 0; i < 4; i++ {
		m.fails = append(m.fails, r.Intn(4) == 0)
	}
	bottom := r.Uint64()>>20&^15 + 0x10000
	sp := bottom + 1024
	for x := bottom; x < sp+256; x += 8 {
		m.stack[x] = r.Uint64()
	}
	args := make([]uint64, 6)
	for name, v := range map[string]uint64{"target": a.target, "data": a.data, "len": a.n, "page": a.page, "pageSize": a.pageSize, "oriProt": a.ori} {
		args[p.params[name]] = v
	}
	arg := sp + 8 // the return address (amd64) or the place of the link register (arm64) comes first
	for i, v := range args {
		m.stack[arg+uint64(i)*8] = v
	}
	above := map[uint64]uint64{}
	for x := arg; x < sp+256; x += 8 {
		above[x] = m.stack[x]
	}
	desc := fmt.Sprintf("%s: write(target %#x, data %#x, len %d, page %#x, pageSize %d, oriProt %d)", p.name, a.target, a.data, a.n, a.page, a.pageSize, a.ori)
	fail := func(kind, f string, v ...any) {
		if len(rep.Violations) < 10 {
			rep.Violations = append(rep.Violations, violation{Kind: kind, Msg: desc + ": " + fmt.Sprintf(f, v...), Trace: m.log})
		}
	}
	var err error
	if p.arch == "arm64" {
		var x [32]uint64
		for i := range x {
			x[i] = r.Uint64()
		}
		x[31], x[30] = sp, retAddr
		before := x
		err = m.runARM(p.write, p.writeTo, &x)
		if err == nil {
			for _, i := range []int{18, 28, 29, 31} {
				if x[i] != before[i] {
					fail("registers", "changes register %d from %#x to %#x", i, before[i], x[i])
				}
			}
		}
	} else {
		var x [16]uint64
		for i := range x {
			x[i] = r.Uint64()
		}
		x[4] = sp
		m.stack[sp] = retAddr
		before := x
		err = m.runX86(p.write, p.writeTo, &x)
		if err == nil {
			if x[4] != sp+8 || x[5] != before[5] {
				fail("registers", "returns with SP %#x instead of %#x and BP %#x instead of %#x", x[4], sp+8, x[5], before[5])
			}
		}
	}
	if u := unknown(""); errors.As(err, &u) {
		rep.Counts["calls of write with "+p.name+" code that is not interpreted"]++
		return
	}
	if err != nil {
		fail("execution", "%v", err)
		return
	}
	for x := arg; x < sp+256; x += 8 {
		if x != arg+48 && m.stack[x] != above[x] {
			fail("stack", "changes the caller's stack at +%d", x-arg)
		}
	}
	res := m.stack[arg+48]
	key := fmt.Sprint(p.name, " ", m.reqs, m.copied, res == 0, m.fails[:m.reqs], m.pageSize)
	keys[key] = true
	rep.Counts["calls of write"]++
	writable := len(m.prot) > 0
	switch {
	case m.reqs == 0:
		fail("protocol", "never asks for a protection")
	case !writable && m.copied:
		fail("protocol", "copies although the page is not writable")
	case writable && !m.copied:
		fail("protocol", "does not copy although the page is writable")
	case !writable && res == 0:
		fail("result", "reports success although it could not make the page writable")
	case !writable && res != m.failed:
		fail("result", "reports %d instead of the error %d", int64(res), int64(m.failed))
	case m.copied && m.lastOK && res != 0:
		fail("result", "reports %d although everything succeeded", int64(res))
	case m.copied && !m.lastOK && res == 0:
		fail("result", "reports success although the protection could not be restored")
	}
	if m.copied {
		rep.Counts["copies"]++
	}
	if m.copied && m.lastOK {
		for pg, pr := range m.prot {
			if uint64(pr) != a.ori {
				fail("protection", "leaves page %#x with protection %d instead of %d", pg, pr, a.ori)
			}
			if pg != a.page {
				fail("protection", "changes page %#x", pg)
			}
		}
	}
	if len(m.trace) > 0 && m.copied && m.lastOK && a.ori&4 != 0 {
		// while the page cannot be executed only code runs that lies in pages without any other function
		for _, pc := range m.trace {
			if pg := pc &^ (m.pageSize - 1); pg < p.write || pg+m.pageSize > p.writeTo {
				msg := fmt.Sprintf("the code at +%#x runs while a page of %d bytes is not executable, but such a page also contains other functions, whose page it could be", pc-p.write, m.pageSize)
				if m.pageSize > 4096 { // known finding K13
					seen["K13: "+p.name+": "+msg] = true
					rep.Counts["layouts of known finding K13"]++
				} else {
					fail("layout", "%s", msg)
				}
				break
			}
		}
		rep.Counts["instructions run while the page is not executable"] += int64(len(m.trace))
	}
	if len(rep.Samples) < 8 && r.Intn(50) == 0 {
		rep.Samples = append(rep.Samples, desc+": "+strings.Join(m.log, "; ")+fmt.Sprintf("; result %d", int64(res)))
	}
}

func (p *program) checkGetG(r *rand.Rand) {
	rep.Evals++
	m := &machine{p: p, r: r, stack: map[uint64]uint64{}}
	sp := r.Uint64()>>20&^15 + 0x10000
	for x := sp - 256; x < sp+64; x += 8 {
		m.stack[x] = r.Uint64()
	}
	var x [32]uint64
	for i := range x {
		x[i] = r.Uint64()
	}
	x[31], x[30] = sp, retAddr
	before := x
	desc := p.name + ": getG()"
	err := m.runARM(p.getg, p.getgTo, &x)
	msg := ""
	u := unknown("")
	switch {
	case errors.As(err, &u):
		rep.Counts["calls of getG with "+p.name+" code that is not interpreted"]++
		return
	case err != nil:
		msg = err.Error()
	case m.stack[sp+8] != before[28]:
		msg = fmt.Sprintf("returns %#x instead of the goroutine %#x", m.stack[sp+8], before[28])
	case x[28] != before[28] || x[29] != before[29] || x[31] != before[31] || x[18] != before[18]:
		msg = "changes a register that belongs to the caller"
	}
	if msg != "" && len(rep.Violations) < 10 {
		rep.Violations = append(rep.Violations, violation{Kind: "getg", Msg: desc + ": " + msg})
	}
	rep.Counts["calls of getG"]++
}

func main() {
	flag.Parse()
	defer func() {
		for k := range keys {
			rep.Keys = append(rep.Keys, k)
		}
		for k := range seen {
			rep.Known = append(rep.Known, k)
		}
		sort.Strings(rep.Known)
		rep.Done = true
		if r := recover(); r != nil {
			rep.Violations = append(rep.Violations, violation{Kind: "panic", Msg: fmt.Sprint(r)})
			rep.Done = false
		}
		b, _ := json.Marshal(rep)
		os.WriteFile(*fOut, b, 0o644)
	}()
	r := rand.New(rand.NewSource(*fSeed))
	for _, path := range flag.Args() {
		p := load(path)
		p.params = signature(*fMem, p.os)
		for i := 0; i < *fN*300; i++ {
			if p.write != 0 && p.params != nil && len(p.memmove) > 0 {
				p.checkWrite(r)
			}
			if p.arch == "arm64" && p.getg != 0 {
				p.checkGetG(r)
			}
		}
		rep.Counts["programs"]++
	}
}
