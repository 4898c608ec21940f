//go:build verifarm

// arm drives the 64-bit ARM code of the library on this machine: the package inst is built with its ARM sources (through an
// overlay), the code it generates is run by a small interpreter and the code it searches is mapped at chosen addresses.
package main

import (
	"debug/elf"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"golang.org/x/arch/arm64/arm64asm"

	"github.com/bytedance/mockey/internal/monkey/inst"
)

var (
	fSeed = flag.Int64("seed", 1, "")
	fN    = flag.Int("n", 1, "")
	fOut  = flag.String("out", "", "")
	_     = flag.String("profile", "", "")
	_     = flag.Int("from", 0, "")
	_     = flag.Int("scale", 0, "")
	_     = flag.String("journal", "", "")
	_     = flag.Float64("budget", 0, "")
	fElf  = flag.String("elf", "", "ARM program whose generic wrappers are searched")
)

type violation struct {
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
	Case  string   `json:"case"`
}

var rep = struct {
	Violations []violation      `json:"violations"`
	Counts     map[string]int64 `json:"counts"`
	Maxes      map[string]int64 `json:"maxes"`
	Samples    []string         `json:"samples"`
	Evals      int64            `json:"evaluations"`
	Done       bool             `json:"done"`
	Keys       []string         `json:"keys"`
}{Counts: map[string]int64{}, Maxes: map[string]int64{}}

var keys = map[string]bool{}

func fail(kind, format string, a ...any) {
	if len(rep.Violations) < 10 {
		rep.Violations = append(rep.Violations, violation{Kind: kind, Msg: fmt.Sprintf(format, a...)})
	}
}

func sample(format string, a ...any) {
	if len(rep.Samples) < 8 {
		rep.Samples = append(rep.Samples, fmt.Sprintf(format, a...))
	}
}

// ---------------------------------------------------------------- interpreter

type cpu struct {
	x     [32]uint64 // 31 is the stack pointer
	pc    uint64
	mem   map[uint64]uint64
	wrote map[int]bool
	read  []uint64
}

func sext(v uint64, bits uint) int64 { return int64(v<<(64-bits)) >> (64 - bits) }

// run interprets code until it leaves the code, whose first byte is at base.
func (c *cpu) run(code []byte, base uint64) error {
	c.pc = base
	for steps := 0; ; steps++ {
		if c.pc < base || c.pc >= base+uint64(len(code)) {
			return nil
		}
		if steps > 100 {
			return fmt.Errorf("does not leave the code")
		}
		off := c.pc - base
		if off+4 > uint64(len(code)) {
			return fmt.Errorf("incomplete instruction")
		}
		w := binary.LittleEndian.Uint32(code[off:])
		get := func(r uint32) uint64 { // 31: zero
			if r == 31 {
				return 0
			}
			return c.x[r]
		}
		set := func(r uint32, v uint64) {
			if r != 31 {
				c.x[r] = v
				c.wrote[int(r)] = true
			}
		}
		rd, rn := w&31, w>>5&31
		next := c.pc + 4
		switch {
		case w>>23&0xff == 0b10100101 && w>>31 == 1: // movz
			set(rd, uint64(w>>5&0xffff)<<(16*(w>>21&3)))
		case w>>23&0xff == 0b00100101 && w>>31 == 1: // movn
			set(rd, ^(uint64(w>>5&0xffff) << (16 * (w >> 21 & 3))))
		case w>>23&0xff == 0b11100101 && w>>31 == 1: // movk
			s := 16 * (w >> 21 & 3)
			set(rd, get(rd)&^(0xffff<<s)|uint64(w>>5&0xffff)<<s)
		case w>>24&0x9f == 0x90: // adrp
			set(rd, c.pc&^0xfff+uint64(sext(uint64(w>>5&0x7ffff)<<2|uint64(w>>29&3), 21)<<12))
		case w>>24&0x9f == 0x10: // adr
			set(rd, c.pc+uint64(sext(uint64(w>>5&0x7ffff)<<2|uint64(w>>29&3), 21)))
		case w>>22 == 0b1111100101: // ldr x, [xn, #imm]
			a := c.x[rn] + uint64(w>>10&0xfff)*8
			c.read = append(c.read, a)
			v, ok := c.mem[a]
			if !ok {
				return fmt.Errorf("reads from %#x", a)
			}
			set(rd, v)
		case w>>24 == 0x58: // ldr x, label
			a := c.pc + uint64(sext(uint64(w>>5&0x7ffff), 19)*4)
			if a < base || a+8 > base+uint64(len(code)) {
				return fmt.Errorf("reads from %#x", a)
			}
			set(rd, binary.LittleEndian.Uint64(code[a-base:]))
		case w>>22 == 0b1001000100 && rd != 31 && rn != 31: // add x, xn, #imm
			set(rd, c.x[rn]+uint64(w>>10&0xfff))
		case w>>21 == 0b10101010000 && w>>10&63 == 0: // orr (mov)
			set(rd, get(rn)|get(w>>16&31))
		case w == 0xd503201f: // nop
		case w>>26 == 0b000101: // b
			next = c.pc + uint64(sext(uint64(w&0x3ffffff), 26)*4)
		case w&0xfffffc1f == 0xd61f0000: // br
			next = get(rn)
		default:
			return fmt.Errorf("instruction %#08x at +%d", w, off)
		}
		c.pc = next
	}
}

// registers a branch inserted at a function's entry may change: the closure context and the scratch registers
func scratch(r int) bool { return r == 16 || r == 17 || r >= 19 && r <= 26 }

func (c *cpu) init(r *rand.Rand) {
	for i := range c.x {
		c.x[i] = r.Uint64()
	}
	c.mem = map[uint64]uint64{}
	c.wrote = map[int]bool{}
	c.read = nil
}

func checkBranches(r *rand.Rand, to uint64) {
	rep.Evals++
	var c cpu
	base := r.Uint64() &^ 3
	c.init(r)
	code := inst.BranchInto(uintptr(to))
	fn := r.Uint64() &^ 3
	for fn >= base && fn < base+64 {
		fn = r.Uint64() &^ 3
	}
	c.mem[to] = fn
	before := c.x
	if err := c.run(code, base); err != nil {
		fail("branch", "BranchInto(%#x): %v in % x", to, err, code)
		return
	}
	if c.pc != fn {
		fail("branch", "BranchInto(%#x) ends at %#x instead of %#x: % x", to, c.pc, fn, code)
	}
	if c.x[26] != to {
		fail("branch", "BranchInto(%#x) leaves %#x in the closure context register: % x", to, c.x[26], code)
	}
	for i := range c.x {
		if c.x[i] != before[i] && !scratch(i) {
			fail("branch", "BranchInto(%#x) changes x%d: % x", to, i, code)
		}
	}
	if len(code)%4 != 0 {
		fail("branch", "BranchInto(%#x) has %d bytes", to, len(code))
	}
	long := make([]byte, len(code)+r.Intn(200)+1)
	if n := inst.Disassemble(long, len(code), true); n < len(code) || n%4 != 0 {
		fail("boundary", "%d bytes have to be saved but Disassemble says %d", len(code), n)
	}
	// the branch back
	dest := to &^ 3
	for dest >= base && dest < base+64 {
		dest = r.Uint64() &^ 3
	}
	c.init(r)
	before = c.x
	code = inst.BranchTo(uintptr(dest))
	if err := c.run(code, base); err != nil {
		fail("branch", "BranchTo(%#x): %v in % x", dest, err, code)
		return
	}
	if c.pc != dest {
		fail("branch", "BranchTo(%#x) ends at %#x: % x", dest, c.pc, code)
	}
	for i := range c.x {
		if c.x[i] != before[i] && !scratch(i) {
			fail("branch", "BranchTo(%#x) changes x%d: % x", dest, i, code)
		}
	}
	if len(c.read) > 0 {
		fail("branch", "BranchTo(%#x) reads memory", dest)
	}
}

// ---------------------------------------------------------------- search for the shared implementation

const mapFixedNoreplace = 0x100000

func mmapAt(addr, size uintptr) []byte {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, size, 3, syscall.MAP_PRIVATE|syscall.MAP_ANON|mapFixedNoreplace, ^uintptr(0), 0)
	if e != 0 || p != addr {
		if e == 0 {
			syscall.Syscall(syscall.SYS_MUNMAP, p, size, 0)
		}
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), size)
}

func munmap(b []byte) {
	syscall.Syscall(syscall.SYS_MUNMAP, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0)
}

func search(addr uintptr) (res uintptr, pv any) {
	defer func() { pv = recover() }()
	return inst.GetGenericJumpAddr(addr, 10000), nil
}

func bl(from, to uint64) uint32 { return 0b100101<<26 | uint32((to-from)/4)&0x3ffffff }

var fillers = []uint32{0xd503201f, 0x8b020020, 0xf9400fe0, 0xa9007fff, 0x910043fd, 0xaa0003e1, 0xd2800020, 0xf90013e0, 0x54000061, 0xb4000040, 0x14000002, 0xf81e0ffe, 0xd10083ff, 0xf85f83fd, 0x3940001b, 0xcb020063}

// synthetic wrappers at random addresses, with calls at random distances
func checkSearch(r *rand.Rand, n int) {
	lo, hi := uint64(0x8000000), uint64(0xb0000000000)
	text := uint64(arm64asm.FakeHelpers[0].Start) // the helpers lie in this program's text
	for i := 0; i < n; i++ {
		rep.Evals++
		near := r.Intn(3) > 0
		page := (lo + r.Uint64()%(hi-lo)) &^ 0xfff
		if near {
			page = (text + uint64(r.Intn(250<<20)) - 125<<20) &^ 0xfff
		}
		if page < 0x10000 || int64(page) < 0 {
			continue
		}
		mem := mmapAt(uintptr(page), 16384)
		if mem == nil {
			continue
		}
		start := page + uint64(r.Intn(800))*4
		words := r.Intn(300) + 3
		at := r.Intn(words)
		code := unsafe.Slice((*uint32)(unsafe.Pointer(uintptr(start))), words+8)
		var want uint64
		helpers := 0
		for k := 0; k < words; k++ {
			pc := start + uint64(k)*4
			code[k] = fillers[r.Intn(len(fillers))]
			if k == at {
				var d int64
				switch r.Intn(6) {
				case 0:
					d = 4 * int64(1+r.Intn(64))
				case 1:
					d = -4 * int64(1+r.Intn(64))
				case 2:
					d = (1<<25 - 1) * 4
				case 3:
					d = -(1 << 25) * 4
				default:
					d = (r.Int63n(1<<26) - 1<<25) * 4
				}
				want = pc + uint64(d)
				if near && r.Intn(4) == 0 { // just next to a helper
					h := arm64asm.FakeHelpers[r.Intn(len(arm64asm.FakeHelpers))]
					want = []uint64{uint64(h.Start) - 4, uint64(h.End) + 4}[r.Intn(2)]
					if o := int64(want) - int64(pc); o >= 1<<27 || o < -1<<27 || inHelper(want) {
						want = pc + 400
					}
				}
				for inHelper(want) {
					want += 4
				}
				if int64(want) < 0 {
					want = pc + 8
				}
				code[k] = bl(pc, want)
			} else if near && r.Intn(20) == 0 {
				h := arm64asm.FakeHelpers[r.Intn(len(arm64asm.FakeHelpers))]
				dst := uint64(h.Start) + uint64(r.Intn(int(h.End-h.Start)/4+1))*4
				if o := int64(dst) - int64(pc); o < 1<<27 && o >= -1<<27 {
					code[k] = bl(pc, dst)
					helpers++
				}
			}
		}
		code[words] = 0xd65f03c0                       // ret
		code[words+1] = bl(start, start+uint64(words)) // the call of morestack behind it does not count
		code[words+2] = 0x17ffffff
		got, pv := search(uintptr(start))
		if pv != nil {
			fail("search", "wrapper at %#x with a call of %#x and %d helper calls: %v", start, want, helpers, pv)
		} else if uint64(got) != want {
			fail("search", "wrapper at %#x with a call of %#x at +%d and %d helper calls: found %#x", start, want, at*4, helpers, got)
		}
		keys[fmt.Sprint("search ", near, at/8, helpers, want > start)] = true
		rep.Counts["synthetic wrappers"]++
		// two or no calls cannot be resolved
		if r.Intn(4) == 0 {
			code[words] = bl(start+uint64(words)*4, start+8192)
			code[words+1] = 0xd65f03c0
			if r.Intn(2) == 0 {
				code[at], code[words] = 0xd503201f, 0xd503201f
			}
			if got, pv := search(uintptr(start)); pv == nil {
				fail("search", "wrapper at %#x with no or two calls: found %#x", start, got)
			}
		}
		munmap(mem)
	}
}

func inHelper(a uint64) bool {
	for _, h := range arm64asm.FakeHelpers {
		if a >= uint64(h.Start) && a <= uint64(h.End) {
			return true
		}
	}
	return false
}

// the wrappers of a program compiled for ARM
func checkElf(path string) {
	f, err := elf.Open(path)
	if err != nil {
		panic(err)
	}
	syms, err := f.Symbols()
	if err != nil {
		panic(err)
	}
	sec := f.Section(".text")
	text, _ := sec.Data()
	var mem []byte
	delta := uint64(0)
	for base := uint64(0x4000000); base < 0x8000000; base += 0x400000 {
		if mem = mmapAt(uintptr(base), uintptr(len(text)+16384)&^4095); mem != nil {
			delta = base - sec.Addr
			break
		}
	}
	if mem == nil {
		panic("no room for the program")
	}
	copy(mem, text)
	byAddr := map[uint64]string{}
	duff := map[string]elf.Symbol{}
	for _, s := range syms {
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			byAddr[s.Value] = s.Name
			if s.Name == "runtime.duffcopy" || s.Name == "runtime.duffzero" {
				duff[s.Name] = s
			}
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].Value < syms[j].Value })
	for _, s := range syms {
		if elf.ST_TYPE(s.Info) != elf.STT_FUNC || !strings.Contains(s.Name, "verifh/zoo.") || !strings.Contains(s.Name, "[") || strings.Contains(s.Name, "go.shape") {
			continue
		}
		// calls of the program's duffcopy and duffzero become calls of this process's ones
		var dests []string
		for o := uint64(0); o < s.Size; o += 4 {
			p := mem[s.Value-sec.Addr+o:]
			w := binary.LittleEndian.Uint32(p)
			if w == 0xd65f03c0 {
				break
			}
			if w>>26 != 0b100101 {
				continue
			}
			to := s.Value + o + uint64(sext(uint64(w&0x3ffffff), 26)*4)
			helper := false
			for i, n := range []string{"runtime.duffcopy", "runtime.duffzero"} {
				if d := duff[n]; to >= d.Value && to < d.Value+d.Size {
					h := arm64asm.FakeHelpers[i]
					off := (to - d.Value) % uint64(h.End-h.Start)
					binary.LittleEndian.PutUint32(p, bl(s.Value+o+delta, uint64(h.Start)+off&^3))
					helper = true
					rep.Counts["helper calls in compiled wrappers"]++
				}
			}
			if !helper {
				dests = append(dests, byAddr[to])
			}
		}
		if len(dests) != 1 || !strings.Contains(dests[0], "go.shape") {
			rep.Counts["other functions of generic types"]++
			continue // methods promoted by a wrapper and the like
		}
		rep.Evals++
		rep.Counts["compiled wrappers"]++
		keys["wrapper "+s.Name] = true
		got, pv := search(uintptr(s.Value + delta))
		if pv != nil {
			fail("search", "wrapper %s: %v", s.Name, pv)
		} else if n := byAddr[uint64(got)-delta]; n != dests[0] {
			fail("search", "wrapper %s: found %q instead of %s", s.Name, n, dests[0])
		}
		sample("wrapper %s calls %s", s.Name, dests[0])
	}
}

func main() {
	flag.Parse()
	defer func() {
		for k := range keys {
			rep.Keys = append(rep.Keys, k)
		}
		rep.Done = true
		if r := recover(); r != nil {
			fail("panic", "%v", r)
			rep.Done = false
		}
		b, _ := json.Marshal(rep)
		os.WriteFile(*fOut, b, 0o644)
	}()
	r := rand.New(rand.NewSource(*fSeed))
	for s := 0; s < 4; s++ {
		for v := uint64(0); v < 65536; v++ {
			checkBranches(r, v<<(16*s))
			checkBranches(r, ^(v << (16 * s)))
		}
	}
	rep.Counts["16-bit fields tried completely"] = 8
	for i := 0; i < *fN*200000; i++ {
		a := r.Uint64() >> uint(r.Intn(64))
		if i%2 == 0 {
			a &^= 7
		}
		checkBranches(r, a)
		keys[fmt.Sprintf("branch %x", a>>40)] = true
	}
	rep.Counts["addresses branched to"] = rep.Evals
	for _, h := range arm64asm.FakeHelpers {
		rep.Counts["helper range"] += int64(h.End - h.Start)
	}
	checkSearch(r, *fN*4000)
	if *fElf != "" {
		checkElf(*fElf)
	}
	sample("BranchInto(0x123456789abcdef0) = % x", inst.BranchInto(0x123456789abcdef0))
}
