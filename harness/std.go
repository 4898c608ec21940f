package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/md5"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"math/big"
	"math/bits"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/bytedance/mockey"
	"golang.org/x/arch/x86/x86asm"
)

// Functions of the standard library as targets: compiled code nobody wrote for a test, and what users mock mostly.

func init() { workloads["std02"] = stdlib }

type stdFn struct {
	name string
	fn   any
	args func() []any // fresh arguments
}

func a(xs ...any) func() []any { return func() []any { return xs } }

var stdFns = []stdFn{
	{"strings.Split", strings.Split, a("a,b,c", ",")},
	{"strings.Join", strings.Join, a([]string{"x", "yy", "z"}, "--")},
	{"strings.Replace", strings.Replace, a("oink oink oink", "k", "ky", 2)},
	{"strings.ReplaceAll", strings.ReplaceAll, a("oink oink oink", "oink", "moo")},
	{"strings.Fields", strings.Fields, a("  foo bar  baz   ")},
	{"strings.Title", strings.Title, a("her royal highness")},
	{"strings.ToUpper", strings.ToUpper, a("grüße")},
	{"strings.TrimFunc", strings.TrimFunc, a("¡¡¡Hello!!!", unicode.IsPunct)},
	{"strings.Map", strings.Map, a(unicode.ToUpper, "rot")},
	{"strings.Index", strings.Index, a("chicken", "ken")},
	{"strings.EqualFold", strings.EqualFold, a("Go", "GO")},
	{"strings.Count", strings.Count, a("cheese", "e")},
	{"strings.Repeat", strings.Repeat, a("na", 7)},
	{"strings.SplitN", strings.SplitN, a("a,b,c,d", ",", 2)},
	{"strings.LastIndex", strings.LastIndex, a("go gopher", "go")},
	{"strings.ContainsAny", strings.ContainsAny, a("failure", "ui")},
	{"strings.NewReplacer", strings.NewReplacer, a("<", "&lt;", ">", "&gt;")},
	{"(*strings.Builder).WriteString", (*strings.Builder).WriteString, func() []any { return []any{&strings.Builder{}, "text"} }},
	{"(*strings.Reader).Read", (*strings.Reader).Read, func() []any { return []any{strings.NewReader("some data"), make([]byte, 5)} }},
	{"strconv.Itoa", strconv.Itoa, a(-45678)},
	{"strconv.Atoi", strconv.Atoi, a("12x")},
	{"strconv.ParseFloat", strconv.ParseFloat, a("3.25e-7", 64)},
	{"strconv.FormatFloat", strconv.FormatFloat, a(1.0/3, byte('g'), -1, 64)},
	{"strconv.Quote", strconv.Quote, a("\"Fran & Freddie's\t☺\"")},
	{"strconv.ParseInt", strconv.ParseInt, a("-7f", 16, 64)},
	{"strconv.FormatInt", strconv.FormatInt, a(int64(-42), 7)},
	{"strconv.AppendQuoteRune", strconv.AppendQuoteRune, a([]byte("r:"), '☺')},
	{"bytes.Split", bytes.Split, a([]byte("a b c"), []byte(" "))},
	{"bytes.Equal", bytes.Equal, a([]byte("a b c"), []byte("a b d"))},
	{"bytes.Compare", bytes.Compare, a([]byte("abc"), []byte("abd"))},
	{"bytes.IndexByte", bytes.IndexByte, a([]byte("chicken"), byte('k'))},
	{"bytes.Title", bytes.ToTitle, a([]byte("her royal"))},
	{"(*bytes.Buffer).Write", (*bytes.Buffer).Write, func() []any { return []any{bytes.NewBufferString("x"), []byte("more")} }},
	{"(*bytes.Buffer).ReadString", (*bytes.Buffer).ReadString, func() []any { return []any{bytes.NewBufferString("line\nrest"), byte('\n')} }},
	{"(*bytes.Buffer).String", (*bytes.Buffer).String, func() []any { return []any{bytes.NewBufferString("content")} }},
	{"(*bytes.Buffer).Grow", (*bytes.Buffer).Len, func() []any { return []any{bytes.NewBufferString("content")} }},
	{"math.Sqrt", math.Sqrt, a(2.0)},
	{"math.Pow", math.Pow, a(2.5, -3.25)},
	{"math.Sin", math.Sin, a(0.75)},
	{"math.Log", math.Log, a(17.0)},
	{"math.Exp", math.Exp, a(1.5)},
	{"math.Floor", math.Floor, a(-1.5)},
	{"math.Mod", math.Mod, a(7.5, 2.0)},
	{"math.Hypot", math.Hypot, a(3.0, 4.0)},
	{"math.Float64bits", math.Float64bits, a(3.5)},
	{"math.Max", math.Max, a(3.5, math.NaN())},
	{"math.Frexp", math.Frexp, a(3.5)},
	{"math.Modf", math.Modf, a(-3.75)},
	{"bits.Mul64", bits.Mul64, a(uint64(1<<63+5), uint64(1<<40+7))},
	{"bits.OnesCount64", bits.OnesCount64, a(uint64(0xf0f0f0f0f0))},
	{"bits.Div64", bits.Div64, a(uint64(3), uint64(1<<40+7), uint64(1<<50))},
	{"(*big.Int).Mul", (*big.Int).Mul, func() []any { return []any{big.NewInt(0), big.NewInt(1 << 60), big.NewInt(12345678901)} }},
	{"(*big.Int).String", (*big.Int).String, func() []any { return []any{big.NewInt(1 << 60)} }},
	{"(*big.Int).Exp", (*big.Int).Exp, func() []any { return []any{big.NewInt(0), big.NewInt(3), big.NewInt(100), big.NewInt(1000007)} }},
	{"json.Marshal", json.Marshal, a(map[string]any{"a": 1, "b": []int{1, 2}})},
	{"json.Unmarshal", json.Unmarshal, func() []any { return []any{[]byte(`{"a":[1,2,3]}`), &map[string]any{}} }},
	{"json.Valid", json.Valid, a([]byte(`{"a":`))},
	{"json.Compact", json.Compact, func() []any { return []any{&bytes.Buffer{}, []byte(`{ "a" : 1 }`)} }},
	{"base64.EncodeToString", (*base64.Encoding).EncodeToString, a(base64.StdEncoding, []byte("some data"))},
	{"base64.DecodeString", (*base64.Encoding).DecodeString, a(base64.StdEncoding, "c29tZSBk!")},
	{"hex.EncodeToString", hex.EncodeToString, a([]byte{1, 0xab, 7})},
	{"hex.DecodeString", hex.DecodeString, a("01ab7")},
	{"md5.Sum", md5.Sum, a([]byte("data"))},
	{"sha256.Sum256", sha256.Sum256, a([]byte("data"))},
	{"crc32.ChecksumIEEE", crc32.ChecksumIEEE, a([]byte("data"))},
	{"binary.PutUvarint", binary.PutUvarint, func() []any { return []any{make([]byte, 10), uint64(1 << 40)} }},
	{"binary.Uvarint", binary.Uvarint, a([]byte{0x80, 0x80, 1})},
	{"sort.Ints", sort.Ints, func() []any { return []any{[]int{5, 2, 9, 1}} }},
	{"sort.Slice", sort.Strings, func() []any { return []any{[]string{"b", "c", "a"}} }},
	{"sort.Search", sort.Search, a(100, func(i int) bool { return i >= 37 })},
	{"sort.SearchInts", sort.SearchInts, a([]int{1, 3, 5, 7}, 5)},
	{"path.Join", path.Join, a("a", "b/../c", "/d")},
	{"path.Clean", path.Clean, a("a/./b//../c")},
	{"filepath.Match", filepath.Match, a("*.go", "x.go")},
	{"filepath.Rel", filepath.Rel, a("/a", "/b/c")},
	{"filepath.Ext", filepath.Ext, a("/a/b.tar.gz")},
	{"url.Parse", url.Parse, a("https://u:p@host:8080/p/a?q=1&r=%20#frag")},
	{"url.QueryEscape", url.QueryEscape, a("a b&c=d/é")},
	{"url.ParseQuery", url.ParseQuery, a("x=1&y=2&y=3;z")},
	{"(*url.URL).String", (*url.URL).String, func() []any {
		return []any{&url.URL{Scheme: "http", Host: "h", Path: "/p q", RawQuery: "a=b"}}
	}},
	{"(url.Values).Encode", url.Values.Encode, a(url.Values{"b": {"2"}, "a": {"1", "x y"}})},
	{"http.StatusText", http.StatusText, a(404)},
	{"http.CanonicalHeaderKey", http.CanonicalHeaderKey, a("accept-encoding")},
	{"(http.Header).Get", http.Header.Get, a(http.Header{"A-B": {"c"}}, "a-b")},
	{"http.NewRequest", http.NewRequest, a("GET", "http://example.com/x", nil)},
	{"net.ParseIP", net.ParseIP, a("2001:db8::68")},
	{"net.SplitHostPort", net.SplitHostPort, a("[::1]:80")},
	{"net.ParseCIDR", net.ParseCIDR, a("192.0.2.1/24")},
	{"net.JoinHostPort", net.JoinHostPort, a("::1", "80")},
	{"regexp.Compile", regexp.Compile, a(`a(b+)`)},
	{"regexp.MatchString", regexp.MatchString, a(`^[a-z]+\[(\d+)\]$`, "adam[23]")},
	{"(*regexp.Regexp).FindAllStringSubmatch", (*regexp.Regexp).FindAllStringSubmatch, a(regexp.MustCompile(`a(x*)b`), "-axxb-ab-", -1)},
	{"time.ParseDuration", time.ParseDuration, a("1h15m30.918s")},
	{"time.Parse", time.Parse, a(time.RFC3339, "2024-02-30T15:04:05Z")},
	{"time.Date", time.Date, a(2024, time.March, 40, 25, 61, 61, 7, time.UTC)},
	{"time.Unix", time.Unix, a(int64(1700000000), int64(5))},
	{"(time.Time).Format", time.Time.Format, a(time.Unix(1700000000, 0).UTC(), time.RFC1123)},
	{"(time.Time).Add", time.Time.Add, a(time.Unix(1700000000, 0).UTC(), 25*time.Hour)},
	{"(time.Time).Sub", time.Time.Sub, a(time.Unix(1700000000, 0).UTC(), time.Unix(1600000000, 0).UTC())},
	{"(time.Duration).String", time.Duration.String, a(90*time.Minute + time.Microsecond)},
	{"(time.Duration).Hours", time.Duration.Hours, a(90 * time.Minute)},
	{"errors.New", errors.New, a("message")},
	{"errors.Is", errors.Is, a(fmt.Errorf("w: %w", io.EOF), io.EOF)},
	{"errors.Join", errors.Join, a(io.EOF, nil, io.ErrNoProgress)},
	{"errors.Unwrap", errors.Unwrap, a(fmt.Errorf("w: %w", io.EOF))},
	{"fmt.Sprint", fmt.Sprint, a("a", 1, 2, "b", nil)},
	{"fmt.Sprintf", fmt.Sprintf, a("%05d|%-6s|%+v|%x", 42, "ab", struct{ A int }{3}, "hex")},
	{"fmt.Errorf", fmt.Errorf, a("code %d: %w", 7, io.EOF)},
	{"fmt.Sscanf", fmt.Sscanf, func() []any { return []any{"5 of gophers", "%d of %s", new(int), new(string)} }},
	{"fmt.Fprintf", fmt.Fprintf, func() []any { return []any{&bytes.Buffer{}, "%v-%v", 1, true} }},
	{"io.ReadAll", io.ReadAll, func() []any { return []any{strings.NewReader("everything")} }},
	{"io.Copy", io.Copy, func() []any { return []any{&bytes.Buffer{}, strings.NewReader("everything")} }},
	{"io.ReadFull", io.ReadFull, func() []any { return []any{strings.NewReader("ever"), make([]byte, 6)} }},
	{"io.WriteString", io.WriteString, func() []any { return []any{&bytes.Buffer{}, "everything"} }},
	{"(*bufio.Reader).ReadLine", (*bufio.Reader).ReadLine, func() []any { return []any{bufio.NewReader(strings.NewReader("l1\nl2"))} }},
	{"(*bufio.Scanner).Scan", (*bufio.Scanner).Scan, func() []any { return []any{bufio.NewScanner(strings.NewReader("l1\nl2"))} }},
	{"os.Getenv", os.Getenv, a("HOME")},
	{"os.ReadFile", os.ReadFile, a("/dev/null")},
	{"os.Stat", os.Stat, a("/nonexistent/file")},
	{"os.Open", os.Open, a("/nonexistent/file")},
	{"os.ExpandEnv", os.ExpandEnv, a("x${NOPE_NOT_SET}y")},
	{"os.Expand", os.Expand, a("x${A}y$B", func(s string) string { return "<" + s + ">" })},
	{"os.Getpid", os.Getpid, a()},
	{"(*os.PathError).Error", (*os.PathError).Error, a(&os.PathError{Op: "open", Path: "/x", Err: os.ErrNotExist})},
	{"unicode.IsLetter", unicode.IsLetter, a('é')},
	{"unicode.ToLower", unicode.ToLower, a('É')},
	{"utf8.DecodeRuneInString", utf8.DecodeRuneInString, a("世界")},
	{"utf8.RuneCountInString", utf8.RuneCountInString, a("Hello, 世界")},
	{"utf8.ValidString", utf8.ValidString, a("a\xffb")},
	{"context.WithValue", context.WithValue, a(context.Background(), "k", "v")},
	{"context.Background", context.Background, a()},
	{"template.HTMLEscapeString", template.HTMLEscapeString, a("<a & b>")},
	{"(*rand.Rand).Intn", (*rand.Rand).Intn, func() []any { return []any{rand.New(rand.NewSource(7)), 1000} }},
	{"(*rand.Rand).Perm", (*rand.Rand).Perm, func() []any { return []any{rand.New(rand.NewSource(7)), 10} }},
	{"(*rand.Rand).NormFloat64", (*rand.Rand).NormFloat64, func() []any { return []any{rand.New(rand.NewSource(7))} }},
	{"reflect.DeepEqual", reflect.DeepEqual, a(map[string][]int{"a": {1}}, map[string][]int{"a": {1}})},
	{"runtime.NumCPU", runtime.NumCPU, a()},
	{"runtime.Version", runtime.Version, a()},
}

// plainHead tells whether the head of a function is position-independent, and not that of known finding K2
func plainHead(addr uintptr) bool {
	code := unsafe.Slice((*byte)(unsafe.Pointer(addr)), 64)
	if code[0] == 0x49 && code[1] == 0x89 && code[2] == 0xe4 { // K2
		return false
	}
	for pos := 0; pos < 12; {
		in, err := x86asm.Decode(code[pos:], 64)
		if err != nil || in.Op == x86asm.RET {
			return false
		}
		for _, arg := range in.Args {
			switch x := arg.(type) {
			case x86asm.Mem:
				if x.Base == x86asm.RIP {
					return false // K1
				}
			case x86asm.Rel:
				if !(pos == 4 && (in.Op == x86asm.JBE)) && in.Op != x86asm.JBE {
					return false
				}
			}
		}
		pos += in.Len
	}
	return true
}

func callStd(f stdFn, args []any) (outs []any, pv any) {
	fv := reflect.ValueOf(f.fn)
	in := []reflect.Value{}
	for i, x := range args {
		t := fv.Type().In(min(i, fv.Type().NumIn()-1))
		if fv.Type().IsVariadic() && i >= fv.Type().NumIn()-1 {
			t = fv.Type().In(fv.Type().NumIn() - 1).Elem()
		}
		v := reflect.New(t).Elem()
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
		in = append(in, v)
	}
	pv, _ = guarded(func() {
		for _, o := range fv.Call(in) {
			outs = append(outs, o.Interface())
		}
	})
	return
}

// sameStd compares results: contents, and NaN equal to NaN
func sameStd(x, y any) bool {
	if e, ok := x.(error); ok {
		g, ok := y.(error)
		return ok && reflect.TypeOf(x) == reflect.TypeOf(y) && e.Error() == g.Error()
	}
	if p, ok := x.(float64); ok {
		q, ok := y.(float64)
		return ok && math.Float64bits(p) == math.Float64bits(q)
	}
	if reflect.TypeOf(x) != nil && reflect.TypeOf(x).Kind() == reflect.Func {
		return (reflect.ValueOf(x).Pointer()) == (reflect.ValueOf(y).Pointer())
	}
	return reflect.DeepEqual(x, y)
}

func sameAll(x, y []any) bool {
	for i := range x {
		if len(y) != len(x) || !sameStd(x[i], y[i]) {
			return false
		}
	}
	return len(x) == len(y)
}

func stdlib(rep *Report) {
	r := rand.New(rand.NewSource(*fSeed))
	tm := newTextMonitor()
	for round := 0; round < *fN; round++ {
		r.Shuffle(len(stdFns), func(i, j int) { stdFns[i], stdFns[j] = stdFns[j], stdFns[i] })
		for _, f := range stdFns {
			rep.Case("std02 seed=%d round=%d %s", *fSeed, round, f.name)
			addr := reflect.ValueOf(f.fn).Pointer()
			if !plainHead(addr) {
				rep.Count("functions left out (K1, K2 or too short)", 1)
				continue
			}
			stdRound(rep, r, tm, f)
		}
	}
	rep.Count("bytes of machine code compared", int(tm.scan))
}

type stdRes struct {
	what string
	outs []any
	pv   any
	args []any
}

func stdRound(rep *Report, r *rand.Rand, tm *textMonitor, f stdFn) {
	ft := reflect.TypeOf(f.fn)
	refArgs := f.args()
	want, wantPanic := callStd(f, refArgs)
	again := f.args()
	outs2, _ := callStd(f, again)
	cmpArgs, cmpOuts := sameAll(refArgs, again), sameAll(want, outs2)
	if !cmpOuts {
		rep.Violation("harness", f.name+" gives different results without mocks", nil)
		return
	}
	check := func(what string, outs []any, pv any, args []any) bool {
		rep.Count("calls of standard library functions", 1)
		if !sameAll(want, outs) || !samePanic(wantPanic, pv) {
			rep.Violation("stdlib", fmt.Sprintf("%s %s: got %.200v panic %v, want %.200v panic %v", f.name, what, outs, pv, want, wantPanic), nil)
			return false
		}
		if cmpArgs && !sameAll(refArgs, args) {
			rep.Violation("stdlib", fmt.Sprintf("%s %s: leaves its arguments as %.200v, want %.200v", f.name, what, args, refArgs), nil)
			return false
		}
		return true
	}
	call := func() (outs []any, pv any, args []any) {
		args = f.args()
		switch r.Intn(3) {
		case 0:
			outs, pv = callStd(f, args)
		default:
			d, pad := r.Intn(60), r.Intn(700)
			done := make(chan struct{})
			go func() {
				defer close(done)
				atDepth(d, pad, func() { outs, pv = callStd(f, args) })
			}()
			<-done
		}
		return
	}
	in, out := []reflect.Type{}, []reflect.Type{}
	for i := 0; i < ft.NumIn(); i++ {
		in = append(in, ft.In(i))
	}
	zeros := []any{}
	for i := 0; i < ft.NumOut(); i++ {
		out = append(out, ft.Out(i))
		zeros = append(zeros, reflect.Zero(ft.Out(i)).Interface())
	}
	var rs []stdRes
	add := func(what string) {
		o, p, as := call()
		rs = append(rs, stdRes{what, o, p, as})
	}
	asked, hooked := 0, 0
	when := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{boolT}, ft.IsVariadic()), func([]reflect.Value) []reflect.Value {
		asked++
		return []reflect.Value{reflect.ValueOf(false)}
	}).Interface()
	org := reflect.New(ft)
	hook := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		hooked++
		if ft.IsVariadic() {
			return org.Elem().CallSlice(args)
		}
		return org.Elem().Call(args)
	}).Interface()

	pv, st := guarded(func() {
		m := mockey.Mock(f.fn).When(when).Return(zeros...).Build()
		add("passed through a condition")
		add("passed through a condition again")
		m.UnPatch()
		add("released")
		m = mockey.Mock(f.fn).Origin(org.Interface()).To(hook).Build()
		add("called as origin")
		m.ExcludeCurrentGoRoutine()
		args := f.args()
		o, p := callStd(f, args)
		rs = append(rs, stdRes{"called in an excluded goroutine", o, p, args})
		m.UnPatch()
		add("released again")
	})
	if pv != nil {
		rep.Violation("stdlib", fmt.Sprintf("mocking %s panics: %v\n%s", f.name, pv, trimStack(st)), nil)
		return
	}
	for _, x := range rs {
		if !check(x.what, x.outs, x.pv, x.args) {
			return
		}
	}
	if asked < 2 || hooked < 1 {
		rep.Violation("stdlib", fmt.Sprintf("%s: the condition ran %d times, the hook %d times", f.name, asked, hooked), nil)
		return
	}
	// a mocked call, and a look at the machine code while it is mocked and after
	var got []any
	var text1 string
	pv, st = guarded(func() {
		m := mockey.Mock(f.fn).Return(zeros...).Build()
		got, _, _ = call()
		n := m.MockTimes()
		m.UnPatch()
		if n < 1 {
			text1 = fmt.Sprintf("MockTimes is %d after a mocked call", n)
		}
	})
	if pv != nil {
		rep.Violation("stdlib", fmt.Sprintf("mocking %s panics: %v\n%s", f.name, pv, trimStack(st)), nil)
		return
	}
	if text1 == "" && !sameAll(zeros, got) {
		text1 = fmt.Sprintf("the mocked call gives %.200v, want %.200v", got, zeros)
	}
	if text1 == "" && r.Intn(10) == 0 {
		text1 = tm.check(func(uintptr) bool { return false }, 0)
	}
	if text1 != "" {
		rep.Violation("stdlib", f.name+": "+text1, nil)
		return
	}
	rep.Distinct(f.name)
}
