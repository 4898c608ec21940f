package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"sync"

	"github.com/bytedance/mockey/verifh/winfake"
)

type violation struct {
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
	Case  string   `json:"case"`
}

// Report collects what the monitors of one process saw.
type Report struct {
	mu         sync.Mutex
	Violations []violation      `json:"violations"`
	Counts     map[string]int64 `json:"counts"`
	Maxes      map[string]int64 `json:"maxes"`
	Samples    []string         `json:"samples"`
	Evals      int64            `json:"evaluations"`
	DistinctN  int              `json:"distinct"`
	Known      []string         `json:"known"` // known findings seen
	Done       bool             `json:"done"`
	Keys       []string         `json:"keys,omitempty"` // digests of the distinct cases
	distinct   map[uint64]bool
	journal    *os.File
	cur        string
	out        string
	events     *bufio.Writer // see Event
	Sentinel   int
}

// OpenEvents starts recording what is observable, without addresses, so that it can be compared between builds.
func (r *Report) OpenEvents(path string) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	r.events = bufio.NewWriterSize(f, 1<<16)
}

// Event records one observation.
func (r *Report) Event(format string, a ...any) {
	if r.events != nil {
		fmt.Fprintf(r.events, format+"\n", a...)
	}
}

// Mark prints a line of the program itself to standard output.
func (r *Report) Mark() {
	if r.events != nil {
		r.Sentinel++
		fmt.Printf("line %d\n", r.Sentinel)
	}
}

func newReport(out, journal string) *Report {
	r := &Report{Counts: map[string]int64{}, Maxes: map[string]int64{}, distinct: map[uint64]bool{}, out: out}
	if journal != "" {
		r.journal, _ = os.Create(journal)
	}
	return r
}

func (r *Report) Violation(kind, msg string, trace []string) {
	r.mu.Lock()
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, violation{kind, msg, trace, r.cur})
	}
	r.mu.Unlock()
	r.Write(false)
}

// Case starts a new case: the journal then describes only this one
func (r *Report) Case(format string, a ...any) {
	r.mu.Lock()
	r.Evals++
	r.cur = fmt.Sprintf(format, a...)
	if r.journal != nil {
		r.journal.Truncate(0)
		r.journal.Seek(0, 0)
		r.journal.WriteString(r.cur + "\n")
	}
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, r.cur)
	}
	r.mu.Unlock()
}

func (r *Report) Journal(s string) {
	if r.journal != nil {
		r.journal.WriteString(s + "\n")
	}
}

func (r *Report) Count(k string, n int) {
	r.mu.Lock()
	r.Counts[k] += int64(n)
	r.mu.Unlock()
}

func (r *Report) Max(k string, n int) {
	r.mu.Lock()
	if int64(n) > r.Maxes[k] {
		r.Maxes[k] = int64(n)
	}
	r.mu.Unlock()
}

func (r *Report) Distinct(k string) {
	h := fnv.New64a()
	h.Write([]byte(k))
	r.mu.Lock()
	r.distinct[h.Sum64()] = true
	r.mu.Unlock()
}

func (r *Report) Sample(s string) {
	r.mu.Lock()
	if len(r.Samples) < 8 {
		if len(s) > 600 {
			s = s[:600]
		}
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

func (r *Report) Write(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Done = done
	if r.events != nil {
		r.events.Flush()
	}
	r.DistinctN = len(r.distinct)
	for k, n := range winfake.Counts() {
		r.Counts["emulated "+k+" calls"] = n
	}
	if done {
		for k := range r.distinct {
			r.Keys = append(r.Keys, strconv.FormatUint(k, 36))
		}
	}
	b, _ := json.Marshal(r)
	os.WriteFile(r.out, b, 0o644)
}

// curGID returns the id the Go runtime reports for the current goroutine.
func curGID() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	b = b[:bytes.IndexByte(b, ' ')]
	id, err := strconv.ParseInt(string(b), 10, 64)
	if err != nil {
		panic(err)
	}
	return id
}
