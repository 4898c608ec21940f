package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
)

func init() { workloads["asm18"] = machineCode }

// ---------------------------------------------------------------- generating machine code

const (
	rAX = iota
	rCX
	rDX
	rBX
	rSP
	rBP
	rSI
	rDI
	r8
	r9
	r10
	r11
	r12
	r13
)

// asmGen builds a function without position-dependent instructions in its head
type asmGen struct {
	r       *rand.Rand
	b       []byte
	defined []int // registers with a known value
	fdef    []int // the same for XMM registers
	flags   bool  // CF, ZF and SF are known
	pushed  []int // 8 byte slots on the stack; number of bytes for each
	mem     bool  // AX points to [64]uint64
	retAt   int
	classes map[string]bool
	rare    bool // instructions are used that a disassembler may not know
	rareIn  bool // there is one in the head
}

func (g *asmGen) reg() int { // one with a value
	return g.defined[g.r.Intn(len(g.defined))]
}

func (g *asmGen) dst() int { // one to overwrite entirely
	for {
		d := []int{rAX, rBX, rCX, rDI, rSI, r8, r9, r10, r11, rDX, r12, r13}[g.r.Intn(12)]
		if g.mem && d == rAX {
			continue
		}
		return d
	}
}

func (g *asmGen) rw() int { // one to modify
	for {
		if d := g.reg(); !(g.mem && d == rAX) {
			return d
		}
	}
}

func (g *asmGen) define(d int) {
	for _, x := range g.defined {
		if x == d {
			return
		}
	}
	g.defined = append(g.defined, d)
}

func (g *asmGen) put(class string, b ...byte) {
	g.b = append(g.b, b...)
	if len(g.b)-len(b) < 12 {
		g.classes[class] = true
	}
}

func rex(w bool, r, x, b int) byte {
	v := byte(0x40)
	if w {
		v |= 8
	}
	return v | byte(r>>3)<<2 | byte(x>>3)<<1 | byte(b>>3)
}

func mod(m, r, rm int) byte { return byte(m<<6 | r&7<<3 | rm&7) }

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

// regop emits [prefix] REX op modrm for two registers
func (g *asmGen) regop(class string, wide bool, op []byte, reg, rm int) {
	b := []byte{}
	if wide || reg > 7 || rm > 7 || class == "setcc" {
		b = append(b, rex(wide, reg, 0, rm))
	}
	b = append(b, op...)
	g.put(class, append(b, mod(3, reg, rm))...)
}

var nops = [][]byte{{0x90}, {0x66, 0x90}, {0x0f, 0x1f, 0x00}, {0x0f, 0x1f, 0x40, 0}, {0x0f, 0x1f, 0x44, 0, 0}, {0x66, 0x0f, 0x1f, 0x44, 0, 0},
	{0x0f, 0x1f, 0x80, 0, 0, 0, 0}, {0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0}, {0x66, 0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0}}

// inst appends one instruction without control flow
func (g *asmGen) inst() {
	r := g.r
	if g.rare && r.Intn(6) == 0 {
		g.rareInst()
		return
	}
	switch r.Intn(21) {
	case 0:
		d := g.dst()
		g.put("mov r,imm64", append([]byte{rex(true, 0, 0, d), byte(0xb8 + d&7)}, le64(r.Uint64())...)...)
		g.define(d)
	case 1:
		d := g.dst()
		b := []byte{}
		if d > 7 {
			b = append(b, 0x41)
		}
		g.put("mov r,imm32", append(append(b, byte(0xb8+d&7)), le32(r.Uint32())...)...)
		g.define(d)
	case 2:
		d := g.dst()
		g.put("mov r,simm32", append([]byte{rex(true, 0, 0, d), 0xc7, mod(3, 0, d)}, le32(r.Uint32())...)...)
		g.define(d)
	case 3, 4:
		ops := []byte{0x01, 0x09, 0x21, 0x29, 0x31, 0x39, 0x85, 0x11, 0x19}
		op := ops[r.Intn(len(ops))]
		if (op == 0x11 || op == 0x19) && !g.flags {
			op = 0x01
		}
		g.regop("alu r,r", r.Intn(4) > 0, []byte{op}, g.reg(), g.rw())
		g.flags = true
	case 5:
		s, d := g.reg(), g.dst()
		g.regop("mov r,r", r.Intn(4) > 0, []byte{0x89}, s, d)
		g.define(d)
	case 6:
		n := []int{0, 1, 4, 5, 6, 7}[r.Intn(6)]
		d := g.rw()
		if r.Intn(2) == 0 {
			g.put("alu r,imm8", rex(true, 0, 0, d), 0x83, mod(3, n, d), byte(r.Intn(256)))
		} else {
			g.put("alu r,imm32", append([]byte{rex(true, 0, 0, d), 0x81, mod(3, n, d)}, le32(r.Uint32())...)...)
		}
		g.flags = true
	case 7:
		d := g.dst()
		b, x := g.reg(), g.reg()
		sib := byte(r.Intn(4)<<6 | x&7<<3 | b&7)
		if r.Intn(2) == 0 {
			g.put("lea disp8", rex(true, d, x, b), 0x8d, mod(1, d, 4), sib, byte(r.Intn(256)))
		} else {
			g.put("lea disp32", append([]byte{rex(true, d, x, b), 0x8d, mod(2, d, 4), sib}, le32(r.Uint32())...)...)
		}
		g.define(d)
	case 8:
		d := g.rw()
		g.put("shift", rex(true, 0, 0, d), 0xc1, mod(3, []int{0, 1, 4, 5, 7}[r.Intn(5)], d), byte(1+r.Intn(60)))
		g.flags = false
	case 9:
		d := g.rw()
		if r.Intn(2) == 0 {
			g.regop("imul", true, []byte{0x0f, 0xaf}, d, g.reg())
		} else {
			s := g.reg()
			g.put("imul imm32", append([]byte{rex(true, d, 0, s), 0x69, mod(3, d, s)}, le32(r.Uint32())...)...)
		}
		g.flags = false
	case 10:
		d := g.rw()
		g.put("bswap", rex(true, 0, 0, d), 0x0f, byte(0xc8+d&7))
	case 11:
		if g.flags {
			g.regop("setcc", false, []byte{0x0f, byte(0x90 + []int{2, 3, 4, 5, 6, 7, 8, 9}[r.Intn(8)])}, 0, g.rw())
		}
	case 12:
		if g.flags {
			g.regop("cmov", true, []byte{0x0f, byte(0x40 + []int{2, 3, 4, 5, 6, 7, 8, 9}[r.Intn(8)])}, g.rw(), g.reg())
		}
	case 13:
		g.put("nop", nops[r.Intn(len(nops))]...)
	case 14:
		if r.Intn(2) == 0 || len(g.fdef) == 0 {
			x, s := r.Intn(15), g.reg()
			g.put("movq x,r", 0x66, rex(true, x, 0, s), 0x0f, 0x6e, mod(3, x, s))
			g.fdefine(x)
		} else {
			x, d := g.fdef[r.Intn(len(g.fdef))], g.dst()
			g.put("movq r,x", 0x66, rex(true, x, 0, d), 0x0f, 0x7e, mod(3, x, d))
			g.define(d)
		}
	case 15:
		if len(g.fdef) == 0 {
			return
		}
		d, s := g.fdef[r.Intn(len(g.fdef))], g.fdef[r.Intn(len(g.fdef))]
		switch r.Intn(3) {
		case 0:
			g.put("sse arithmetic", 0xf2, rex(false, d, 0, s), 0x0f, []byte{0x58, 0x59, 0x5c}[r.Intn(3)], mod(3, d, s))
		case 1:
			g.put("pxor", 0x66, rex(false, d, 0, s), 0x0f, 0xef, mod(3, d, s))
		default:
			g.put("movaps", rex(false, d, 0, s), 0x0f, 0x28, mod(3, d, s))
		}
	case 16:
		if len(g.pushed) < 8 {
			s := g.reg()
			if s > 7 {
				g.put("push", 0x41, byte(0x50+s&7))
			} else {
				g.put("push", byte(0x50+s))
			}
			g.pushed = append(g.pushed, 0)
		}
	case 17:
		if n := len(g.pushed); n > 0 && g.pushed[n-1] == 0 {
			g.pop()
		} else if n < 8 { // a frame: everything in it is written first
			size := 8 * (1 + r.Intn(6))
			g.put("sub rsp", 0x48, 0x83, 0xec, byte(size))
			for o := 0; o < size; o += 8 {
				s := g.reg()
				g.put("store to stack", rex(true, s, 0, 0), 0x89, mod(1, s, 4), 0x24, byte(o))
			}
			d := g.dst()
			g.put("load from stack", rex(true, d, 0, 0), 0x8b, mod(1, d, 4), 0x24, byte(8*r.Intn(size/8)))
			g.define(d)
			g.pushed = append(g.pushed, size)
			g.flags = false
		}
	case 18:
		d := g.rw()
		switch r.Intn(4) {
		case 0:
			g.put("not", rex(true, 0, 0, d), 0xf7, mod(3, 2, d))
		case 1:
			g.put("neg", rex(true, 0, 0, d), 0xf7, mod(3, 3, d))
			g.flags = true
		case 2:
			g.regop("movzx", true, []byte{0x0f, []byte{0xb6, 0xb7, 0xbe, 0xbf}[r.Intn(4)]}, d, g.reg())
		default:
			g.regop("movsxd", true, []byte{0x63}, d, g.reg())
		}
	case 19:
		a, b := g.rw(), g.rw()
		g.regop("xchg", true, []byte{0x87}, a, b)
	case 20:
		if !g.mem {
			return
		}
		o := byte(8 * r.Intn(16))
		switch r.Intn(5) {
		case 0:
			s := g.reg()
			g.put("store", rex(true, s, 0, rAX), 0x89, mod(1, s, rAX), o)
		case 1:
			d := g.dst()
			g.put("load", rex(true, d, 0, rAX), 0x8b, mod(1, d, rAX), o)
			g.define(d)
		case 2:
			s := g.reg()
			g.put("add to memory", rex(true, s, 0, rAX), 0x01, mod(2, s, rAX), o, 1, 0, 0)
			g.flags = true
		case 3:
			s := g.reg()
			g.put("lock xadd", 0xf0, rex(true, s, 0, rAX), 0x0f, 0xc1, mod(1, s, rAX), o)
			g.flags = true
			if s == rAX {
				panic("xadd of the pointer")
			}
		default:
			g.put("mov m,imm32", append([]byte{0x48, 0xc7, mod(1, 0, rAX), o}, le32(r.Uint32())...)...)
		}
	}
}

// vex emits a three-byte VEX instruction
func (g *asmGen) vex(class string, m, pp int, w bool, op byte, reg, v, rm int, imm ...byte) {
	b1 := byte(m)
	if reg < 8 {
		b1 |= 0x80
	}
	b1 |= 0x40
	if rm < 8 {
		b1 |= 0x20
	}
	b2 := byte(pp) | byte(^v&15)<<3
	if w {
		b2 |= 0x80
	}
	g.put(class, append([]byte{0xc4, b1, b2, op, mod(3, reg, rm)}, imm...)...)
}

// rareInst appends an instruction that code of other compilers, assembly or a later Go may contain
func (g *asmGen) rareInst() {
	r := g.r
	if len(g.b) < 12 {
		g.rareIn = true
	}
	switch r.Intn(10) {
	case 0:
		g.put("endbr64", 0xf3, 0x0f, 0x1e, 0xfa)
	case 1:
		g.put("pause", 0xf3, 0x90)
	case 2:
		g.put("fence", 0x0f, 0xae, []byte{0xe8, 0xf0, 0xf8}[r.Intn(3)])
	case 3:
		s, d := g.reg(), g.dst()
		op := []byte{0xb8, 0xbc, 0xbd}[r.Intn(3)]
		if op == 0xb8 || cpuHas("abm") && cpuHas("bmi1") {
			g.put("popcnt, tzcnt, lzcnt", 0xf3, rex(true, d, 0, s), 0x0f, op, mod(3, d, s))
			g.define(d)
			g.flags = false
		}
	case 4:
		s, d := g.reg(), g.rw()
		g.put("crc32", 0xf2, rex(true, d, 0, s), 0x0f, 0x38, 0xf1, mod(3, d, s))
	case 5:
		if cpuHas("bmi1") {
			a, b, d := g.reg(), g.reg(), g.dst()
			g.vex("andn", 2, 0, true, 0xf2, d, a, b)
			g.define(d)
			g.flags = false
		}
	case 6:
		if cpuHas("bmi2") {
			a, d := g.reg(), g.dst()
			g.vex("rorx", 3, 3, true, 0xf0, d, 0, a, byte(r.Intn(64)))
			g.define(d)
		}
	case 7:
		if cpuHas("bmi2") {
			a, b, d := g.reg(), g.reg(), g.dst()
			g.vex("shlx", 2, 1, true, 0xf7, d, a, b)
			g.define(d)
		}
	case 8:
		if len(g.fdef) > 0 && cpuHas("avx") {
			a, b, d := g.fdef[r.Intn(len(g.fdef))], g.fdef[r.Intn(len(g.fdef))], r.Intn(15)
			g.vex("vpxor", 1, 1, false, 0xef, d, a, b)
			g.fdefine(d)
		}
	case 9:
		if g.mem && cpuHas("movbe") {
			d := g.dst()
			g.put("movbe", rex(true, d, 0, rAX), 0x0f, 0x38, 0xf0, mod(1, d, rAX), byte(8*r.Intn(16)))
			g.define(d)
		}
	}
}

var cpuFlags = func() string {
	b, _ := os.ReadFile("/proc/cpuinfo")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "flags") {
			return l + " "
		}
	}
	return ""
}()

func cpuHas(f string) bool { return strings.Contains(cpuFlags, " "+f+" ") }

func (g *asmGen) fdefine(x int) {
	for _, y := range g.fdef {
		if x == y {
			return
		}
	}
	g.fdef = append(g.fdef, x)
}

func (g *asmGen) pop() {
	n := len(g.pushed)
	if s := g.pushed[n-1]; s > 0 {
		g.put("add rsp", 0x48, 0x83, 0xc4, byte(s))
		g.flags = false
	} else {
		d := g.dst()
		if d > 7 {
			g.put("pop", 0x41, byte(0x58+d&7))
		} else {
			g.put("pop", byte(0x58+d))
		}
		g.define(d)
	}
	g.pushed = g.pushed[:n-1]
}

// gen makes a function; the first return comes at minLen bytes or later
func genAsm(r *rand.Rand, mem bool, minLen, tail int) *asmGen {
	g := &asmGen{r: r, mem: mem, fdef: []int{0, 1, 2, 3}, classes: map[string]bool{}}
	g.rare = cpuHas("sse4_2") && r.Intn(4) == 0
	g.defined = []int{rAX, rBX, rCX, rDI, rSI, r8, r9, r10, r11}
	if mem {
		g.defined = []int{rBX, rCX}
		g.fdef = nil
	}
	cut := -1
	for n := 0; len(g.b) < minLen || n < tail; {
		at := len(g.b)
		if at >= 12 && cut < 0 {
			cut = at
		}
		if at >= 12 {
			n++
			switch r.Intn(12) {
			case 0: // a conditional jump over an instruction
				if g.flags {
					h := *g
					h.b = nil
					h.pushed = append([]int{1, 1, 1, 1, 1, 1, 1, 1}[:0:0], make([]int, 8)...) // no change of the stack
					for i := range h.pushed {
						h.pushed[i] = 8
					}
					d := g.rw()
					h.put("skipped", rex(true, 0, 0, d), 0x81, mod(3, 0, d), 1, 2, 3, 4)
					g.put("jcc", byte(0x72+r.Intn(8)), byte(len(h.b)))
					g.b = append(g.b, h.b...)
					g.flags = true
					continue
				}
			case 1: // a loop that ends at an instruction after the head
				c := g.dst()
				cnt := byte(2 + r.Intn(6))
				g.put("loop", append([]byte{rex(true, 0, 0, c), 0xc7, mod(3, 0, c)}, le32(uint32(cnt))...)...)
				g.define(c)
				d := g.rw()
				if d == c {
					g.flags = false
					continue
				}
				body := []byte{rex(true, 0, 0, d), 0x69, mod(3, d, d), 7, 3, 0, 0}
				body[0] = rex(true, d, 0, d)
				body = append(body, rex(true, 0, 0, c), 0x83, mod(3, 5, c), 1) // sub c, 1
				g.put("loop", body...)
				g.put("loop", 0x75, byte(-(len(body) + 2)))
				g.flags = true
				continue
			}
		}
		g.inst()
	}
	for len(g.pushed) > 0 {
		g.pop()
	}
	g.retAt = len(g.b)
	g.b = append(g.b, 0xc3)
	return g
}

// ---------------------------------------------------------------- placing it

type asmFn func(a, b, c, d, e, f, g, h, i uint64, x, y, z, w float64) (uint64, uint64, uint64, uint64, uint64, uint64, uint64, uint64, uint64, float64, float64, float64, float64)
type asmMem func(p *[64]uint64, a, b uint64) (q *[64]uint64, c, d uint64)

const pageSize = 4096

type region struct {
	base uintptr
	size int
}

func (g region) bytes() []byte { return unsafe.Slice((*byte)(unsafe.Pointer(g.base)), g.size) }

func mapRegion(r *rand.Rand, pages int) (region, bool) {
	near := reflect.ValueOf(machineCode).Pointer() &^ (pageSize - 1)
	hints := []uintptr{0x10000, 0x7fff0000, 0x80000000 - 0x2000, 0xfffff000, 0xffffe000, 0x100000000, near + 64<<20, near - 2<<20, near + 1<<31, near + 5<<30,
		0x3fff_ffff_e000, 0x7e00_0000_0000, 0x5555_5555_5000, 0xaaaa_aaa0_000, 0}
	h := hints[r.Intn(len(hints))]
	if h != 0 {
		h += uintptr(r.Intn(64)) * pageSize
	}
	const fixedNoreplace = 0x100000
	fl := syscall.MAP_PRIVATE | syscall.MAP_ANON
	if h != 0 {
		fl |= fixedNoreplace
	}
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, h, uintptr(pages*pageSize), syscall.PROT_READ|syscall.PROT_WRITE, uintptr(fl), ^uintptr(0), 0)
	if e != 0 || (h != 0 && p != h) {
		if e == 0 {
			syscall.Syscall(syscall.SYS_MUNMAP, p, uintptr(pages*pageSize), 0)
		}
		return region{}, false
	}
	g := region{p, pages * pageSize}
	b := g.bytes()
	for i := range b {
		b[i] = 0xcc
	}
	return g, true
}

func (g region) protect() {
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, g.base, uintptr(g.size), syscall.PROT_READ|syscall.PROT_EXEC); e != 0 {
		panic(e)
	}
}

func (g region) unmap() { syscall.Syscall(syscall.SYS_MUNMAP, g.base, uintptr(g.size), 0) }

// perms returns the protections of the pages of the region as /proc/self/maps tells
func (g region) perms() string {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return "?"
	}
	res := []string{}
	for p := g.base; p < g.base+uintptr(g.size); p += pageSize {
		res = append(res, permsAt(string(b), p))
	}
	return strings.Join(res, " ")
}

func permsAt(maps string, p uintptr) string {
	for _, l := range strings.Split(maps, "\n") {
		var lo, hi uintptr
		var pr string
		if n, _ := fmt.Sscanf(l, "%x-%x %s", &lo, &hi, &pr); n == 3 && lo <= p && p < hi {
			return pr
		}
	}
	return "-"
}

func fnAt[F any](addr uintptr) F {
	p := new(uintptr)
	*p = addr
	return *(*F)(unsafe.Pointer(&p))
}

type asmRes struct {
	i [9]uint64
	f [4]uint64
	m [64]uint64
}

func callAsm(addr uintptr, mem bool, in asmRes) (out asmRes) {
	if mem {
		p := new([64]uint64)
		*p = in.m
		q, c, d := fnAt[asmMem](addr)(p, in.i[1], in.i[2])
		out.m = *p
		out.i[0], out.i[1] = c, d
		if q != p {
			out.i[2] = 1
		}
		return
	}
	fl := math.Float64frombits
	i := in.i
	o := &out.i
	var f [4]float64
	o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], f[0], f[1], f[2], f[3] = fnAt[asmFn](addr)(i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8],
		fl(in.f[0]), fl(in.f[1]), fl(in.f[2]), fl(in.f[3]))
	for k := range f {
		out.f[k] = math.Float64bits(f[k])
	}
	return
}

func randAsmIn(r *rand.Rand) (in asmRes) {
	for k := range in.i {
		in.i[k] = r.Uint64() >> []int{0, 0, 32, 60}[r.Intn(4)]
	}
	for k := range in.f {
		in.f[k] = math.Float64bits(r.NormFloat64() * math.Pow(2, float64(r.Intn(80)-40)))
	}
	for k := range in.m {
		in.m[k] = r.Uint64()
	}
	return
}

// ---------------------------------------------------------------- the workload

func machineCode(rep *Report) {
	for i := *fFrom; more(rep, i); i++ {
		r := rand.New(rand.NewSource(*fSeed*3000017 + int64(i)))
		rep.Case("%s seed=%d function=%d", *fProfile, *fSeed, i)
		if msg := asmRound(rep, r); msg != "" {
			rep.Violation("machine-code", msg, nil)
			return
		}
	}
}

func asmRound(rep *Report, r *rand.Rand) string {
	const pages = 3
	reg, ok := mapRegion(r, pages)
	if !ok {
		return ""
	}
	defer reg.unmap()
	twinReg, ok := mapRegion(rand.New(rand.NewSource(r.Int63())), pages)
	for !ok {
		twinReg, ok = mapRegion(rand.New(rand.NewSource(r.Int63())), pages)
	}
	defer twinReg.unmap()
	mem := r.Intn(3) == 0
	short := r.Intn(6) == 0
	var g *asmGen
	if short {
		for {
			g = genAsm(r, mem, r.Intn(12), 0)
			if g.retAt < 12 {
				break
			}
		}
		switch r.Intn(3) {
		case 0:
			g.b = append(g.b[:g.retAt], 0xf3, 0xc3)
		case 1:
			g.b = append(g.b[:g.retAt], 0xc2, 0, 0)
		}
	} else {
		g = genAsm(r, mem, 12, r.Intn(20))
	}
	// where in the region
	off := 0
	switch r.Intn(6) {
	case 0, 1, 2: // the head crosses a page boundary
		off = pageSize - 1 - r.Intn(13)
	case 3: // the first bytes of a page
		off = pageSize + r.Intn(2)*pageSize
	case 4:
		off = r.Intn(2*pageSize - 700)
	case 5: // the very end of the mapping
		off = pages*pageSize - len(g.b)
		if short {
			off -= 16
		}
	}
	if off < 0 || off+len(g.b) > pages*pageSize {
		off = 100
	}
	copy(reg.bytes()[off:], g.b)
	toff := r.Intn(pageSize)
	copy(twinReg.bytes()[toff:], g.b)
	reg.protect()
	twinReg.protect()
	addr, twin := reg.base+uintptr(off), twinReg.base+uintptr(toff)
	pristine := append([]byte{}, reg.bytes()...)
	where := fmt.Sprintf("function at %#x (page offset %#x, mem %v): % x", addr, addr&0xfff, mem, g.b)
	sameCode := func() string {
		for i, b := range reg.bytes() {
			if b != pristine[i] {
				return fmt.Sprintf("byte at %+d is %02x instead of %02x", i-off, b, pristine[i])
			}
		}
		return ""
	}
	rx := strings.TrimSuffix(strings.Repeat("r-xp ", pages), " ")
	state := func(when string) string {
		if p := reg.perms(); p != rx {
			return fmt.Sprintf("%s the protections of its pages are %s; %s", when, p, where)
		}
		return ""
	}
	orig := func(when string, n int) string {
		for ; n > 0; n-- {
			in := randAsmIn(r)
			var got asmRes
			if pv, _ := guarded(func() { got = callAsm(addr, mem, in) }); pv != nil {
				return fmt.Sprintf("%s a call panicked with %v; %s", when, pv, where)
			}
			if want := callAsm(twin, mem, in); got != want {
				return fmt.Sprintf("%s it gives %x, want %x; %s", when, got.i, want.i, where)
			}
			rep.Count("calls compared with the pristine copy", 1)
		}
		return ""
	}
	if s := orig("unmocked", 2); s != "" {
		return s
	}
	target := any(fnAt[asmFn](addr))
	if mem {
		target = fnAt[asmMem](addr)
	}
	hooked := 0
	var hook, never any
	const key = 0x9e3779b97f4a7c15
	if mem {
		hook = func(p *[64]uint64, a, b uint64) (*[64]uint64, uint64, uint64) {
			hooked++
			p[0] ^= key
			return p, a ^ key, b + key
		}
		never = func(p *[64]uint64, a, b uint64) bool { return false }
	} else {
		hook = func(a, b, c, d, e, f, g, h, i uint64, x, y, z, w float64) (uint64, uint64, uint64, uint64, uint64, uint64, uint64, uint64, uint64, float64, float64, float64, float64) {
			hooked++
			return a ^ key, b, c, d, e ^ key, f, g, h + i, i, y, x, w, -z
		}
		never = func(a, b, c, d, e, f, g, h, i uint64, x, y, z, w float64) bool { return false }
	}
	hookRes := func(in asmRes) (out asmRes) {
		if mem {
			out.m = in.m
			out.m[0] ^= key
			out.i[0], out.i[1] = in.i[1]^key, in.i[2]+key
			return
		}
		out = in
		out.m = [64]uint64{}
		out.i[0] ^= key
		out.i[4] ^= key
		out.i[7] += in.i[8]
		out.f = [4]uint64{in.f[1], in.f[0], in.f[3], in.f[2] ^ 1<<63}
		return
	}
	intercepted := func(when string, n int) string {
		for ; n > 0; n-- {
			in := randAsmIn(r)
			h := hooked
			var got asmRes
			if pv, _ := guarded(func() { got = callAsm(addr, mem, in) }); pv != nil {
				return fmt.Sprintf("%s a call panicked with %v; %s", when, pv, where)
			}
			if want := hookRes(in); got != want || hooked != h+1 {
				return fmt.Sprintf("%s a call gives %x (hook ran %d times), want %x; %s", when, got.i, hooked-h, want.i, where)
			}
			rep.Count("calls intercepted", 1)
		}
		return ""
	}
	crossing := ""
	if off&(pageSize-1) > pageSize-12 {
		crossing = " crossing"
	}
	if short {
		pv, _ := guarded(func() { mockey.Mock(target).To(hook).Build() })
		if pv == nil || !g.rareIn && !strings.Contains(fmt.Sprint(pv), "too short") {
			return fmt.Sprintf("a function returning after %d bytes was not rejected as too short: %v; %s", g.retAt, pv, where)
		}
		if s := sameCode(); s != "" {
			return "the rejection changed code: " + s + "; " + where
		}
		if s := state("after the rejection") + orig("after the rejection", 2); s != "" {
			return s
		}
		rep.Count("rejections", 1)
		var m *mockey.Mocker
		if pv, _ := guarded(func() { m = mockey.Mock(target, mockey.OptUnsafe).To(hook).Build() }); pv != nil {
			if _, ok := pv.(runtime.Error); ok || !g.rareIn {
				return fmt.Sprintf("with the unsafe option: %v; %s", pv, where)
			}
			return sameCode()
		}
		if s := state("mocked unsafely") + intercepted("mocked unsafely", 3); s != "" {
			return s
		}
		m.UnPatch()
		if s := sameCode(); s != "" {
			return "after the release " + s + "; " + where
		}
		if s := state("after the release") + orig("after the release", 2); s != "" {
			return s
		}
		rep.Distinct(fmt.Sprintf("short %d%s", g.retAt, crossing))
		return ""
	}
	cycles := 1 + r.Intn(3)
	for c := 0; c < cycles; c++ {
		b := mockey.Mock(target)
		mode := r.Intn(3)
		var oFn asmFn
		var oMem asmMem
		switch mode {
		case 0:
			b.To(hook)
		case 1:
			b.When(never).To(hook)
		case 2:
			if mem {
				b.To(func(p *[64]uint64, a, b uint64) (*[64]uint64, uint64, uint64) { hooked++; return oMem(p, a, b) }).Origin(&oMem)
			} else {
				b.To(func(a, b, c, d, e, f, g, h, i uint64, x, y, z, w float64) (uint64, uint64, uint64, uint64, uint64, uint64, uint64, uint64, uint64, float64, float64, float64, float64) {
					hooked++
					return oFn(a, b, c, d, e, f, g, h, i, x, y, z, w)
				}).Origin(&oFn)
			}
		}
		var m *mockey.Mocker
		if pv, _ := guarded(func() { m = b.Build() }); pv != nil {
			if _, ok := pv.(runtime.Error); ok || !g.rareIn {
				return fmt.Sprintf("mocking it panicked with %v; %s", pv, where)
			}
			// it may say that it does not know an instruction, but nothing may be changed then
			if s := sameCode(); s != "" {
				return fmt.Sprintf("the rejection (%v) changed code: %s; %s", pv, s, where)
			}
			if s := state("after the rejection") + orig("after the rejection", 2); s != "" {
				return s
			}
			rep.Count("rejections because of unknown instructions", 1)
			return ""
		}
		if s := state("while it is mocked"); s != "" {
			return s
		}
		// only whole instructions of the head may differ
		first, last := -1, -1
		for i, b := range reg.bytes() {
			if b != pristine[i] {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		if first < off || last >= off+12 {
			return fmt.Sprintf("mocking it changed the bytes %+d to %+d; %s", first-off, last-off, where)
		}
		n := 3
		s := ""
		switch mode {
		case 0:
			s = intercepted("mocked", n)
		case 1:
			h := hooked
			s = orig("passing through", n)
			if s == "" && hooked != h {
				s = "a passed-through call ran the hook; " + where
			}
		case 2:
			h := hooked
			s = orig("calling Origin", n)
			if s == "" && hooked != h+n {
				s = fmt.Sprintf("%d calls ran the hook %d times; %s", n, hooked-h, where)
			}
		}
		if s != "" {
			return s
		}
		if m.Times() != n {
			return fmt.Sprintf("%d calls were counted as %d; %s", n, m.Times(), where)
		}
		m.UnPatch()
		if !bytes.Equal(reg.bytes(), pristine) {
			return "after the release " + sameCode() + "; " + where
		}
		if s := state("after the release") + orig("after the release", 1); s != "" {
			return s
		}
	}
	keys := ""
	for k := range g.classes {
		rep.Distinct("instruction in the head: " + k + crossing)
		keys += k
	}
	rep.Distinct(fmt.Sprintf("ret at %d%s off %x region %x", g.retAt, crossing, off&0xfff, reg.base>>30))
	rep.Count("functions", 1)
	if crossing != "" {
		rep.Count("functions whose head crosses a page boundary", 1)
	}
	return ""
}
