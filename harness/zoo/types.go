// Package zoo holds the mock targets: the generated ones (zoo_gen.go, made for every run) and a few written by hand.
package zoo

import (
	"reflect"

	"github.com/bytedance/mockey/verifh/zrt"
)

type (
	MyInt int
	MyStr string
	MyF   float32
	MyB   bool
)

type Big200 struct {
	A [20]int64
	B string
	C [3]any
}

type Big700 struct {
	A [80]uint64
	B []byte
	C map[string]int
}

type Big2000 struct {
	A [250]int64
	B *int
}

type Big9000 struct {
	A [1124]int64
	B *int
}

type (
	G64  struct{ A [8]int64 }
	G128 struct{ A [8]string }
	G100 struct {
		A [12]int64
		B int32
	}
	GA struct {
		X int
		Y string
	}
	GB struct {
		X int
		Y string
	}
	PA struct{ X, Y int }
	PB struct{ X, Y int }
)

type Iface interface{ Who() int }

type ImplA struct{ N int }

func (i ImplA) Who() int { return i.N }

type RSmall struct {
	A int
	B string
}

type RBig struct {
	A [40]int64
	B string
	C []int
}

type (
	RInt   int16
	RMap   map[string]int
	RFunc  func(int) int
	REmpty struct{}
	RSlice []string
)

func init() { zrt.ImplPool = append(zrt.ImplPool, reflect.TypeOf(ImplA{})) }

// Tiny holds functions that are too short to be patched.
var Tiny = []any{tiny0, tiny1, (*REmpty).tiny2}

func tiny0()           {}
func tiny1(a int)      {}
func (*REmpty) tiny2() {}

// Seq holds functions whose results identify the position of a sequence. Their arguments escape, see known finding K6.
func SeqPlain(a int) (int, string, *int) { return zrt.SeqOrig(a) }

func SeqPlain2(a int) (int, string, *int) { return zrt.SeqOrig(a) }

func SeqBig(a Big200, b ...string) (Big200, int, error) {
	escape(a, b)
	return Big200{}, -1, zrt.Note("SeqBig")
}

func (r *RSmall) SeqMeth(a string) (x int8, y float64, z any) {
	escape(r, a)
	return -1, -1, zrt.Note("SeqMeth")
}

func SeqGen[T any](a T) (int, []T) {
	escape(a)
	zrt.Note("SeqGen")
	return -1, nil
}

var (
	never bool
	sink  any
)

func escape(a ...any) {
	if never {
		sink = a
	}
}

// Hold functions are held in the middle by HoldGate.
var HoldGate = func(int) {}

func Hold1(id int) int {
	HoldGate(id)
	if id < 0 { // makes the function long, see known finding K9
		escape(id)
		escape(id + 1)
		escape(id + 2)
		escape(id + 3)
	}
	return id*3 + 1
}

func Hold2(a [30]int, s ...string) (int, [20]int, string) {
	var local [100]int
	local[a[0]%100] = a[0]
	HoldGate(a[0])
	escape(s)
	return local[a[0]%100]*3 + 1, [20]int{a[1], 19: a[29]}, s[0]
}

func (r *RSmall) Hold3(id int) (string, error) {
	HoldGate(id)
	escape(r)
	return r.B, nil
}

func HoldGen[T any](id int, v T) (int, T) {
	HoldGate(id)
	escape(v)
	return id*3 + 1, v
}

// Spin is called while other functions are patched.
func Spin1(a, b uint64) uint64 {
	for i := uint64(0); i < 50; i++ {
		a = a*6364136223846793005 + b + i
	}
	return a
}

func Spin2(a, b uint64) uint64 {
	for i := uint64(0); i < 50; i++ {
		b ^= b<<13 ^ a
		b ^= b >> 7
	}
	return b
}

// subjects of known findings
var K1V int

func K1Set(v int) { K1V = v }

// K14Loop has a loop that begins in its first 12 bytes
func K14Loop(p *int) {
	for *p > 0 {
		*p--
	}
}

func K2Big(a int) int {
	var b [20000]int
	b[a%20000] = a
	escape(a)
	return b[a%20000]
}

type K5T struct{ N int }

func (t *K5T) Add(a int) int {
	escape(t)
	return t.N + a
}

//go:noinline
func K6Inc(p *[16]int) int { p[1]++; return p[0] + p[15] }

func K6Deep(n int) int {
	var b [512]byte
	b[n%512] = 1
	if n > 0 {
		return K6Deep(n-1) + int(b[3])
	}
	return 0
}

type K7T struct{ N int }

func (t K7T) get() int {
	escape(t)
	return t.N
}

type K7I interface{ get() int }

var K7Keep K7I = K7T{}

func K7Call(t K7T) int { return t.get() }

// K9Small has its frame after less than 10 bytes, see known finding K9
func K9Small(a, b int) int {
	c := a
	return c + b
}

// K10G has a method with value receiver, which is mocked through the pointer type, see known finding K10
type K10G[T any] struct {
	A T
	N [4]int
}

func (g K10G[T]) get(i int) int {
	escape(g)
	return g.N[0] + i
}

var K10Get = (*K10G[string]).get

// K11Gen tells its type argument
func K11Gen[T ~string](a T, b string) (T, string) {
	escape(a, b)
	return a, reflect.TypeOf(a).Name()
}

// K12E has a method promoted through a pointer, see known finding K12
type K12E struct{ N int }

func (e *K12E) Get() int {
	s := 0
	for i := 0; i < e.N; i++ {
		s++
	}
	return s
}

type K12T struct{ *K12E }

func K12Call(t K12T) int { return t.Get() }
