// Package winfake stands in for the parts of Windows the library uses, so that its Windows sources can run on Linux: the functions
// of kernel32.dll work on the memory of this process with the rules of Windows.
package winfake

import (
	"fmt"
	"os"
	"sync"
	"syscall"
	"unsafe"
)

var (
	mu     sync.Mutex
	counts = map[string]int64{}
	last   syscall.Errno
	allocs = map[uintptr]uintptr{} // reserved regions
)

// Getpagesize is the page size of Windows on amd64.
func Getpagesize() int { return 4096 }

func GetLastError() error {
	if last != 0 {
		return last
	}
	return nil
}

// Counts tells how often the functions were called.
func Counts() map[string]int64 {
	mu.Lock()
	defer mu.Unlock()
	res := map[string]int64{}
	for k, n := range counts {
		res[k] = n
	}
	return res
}

type Errno = syscall.Errno

type LazyDLL struct{ name string }
type DLL = LazyDLL
type LazyProc struct{ name string }
type Proc = LazyProc

func NewLazyDLL(name string) *LazyDLL         { return &LazyDLL{name} }
func NewLazySystemDLL(name string) *LazyDLL   { return &LazyDLL{name} }
func MustLoadDLL(name string) *LazyDLL        { return &LazyDLL{name} }
func (d *LazyDLL) NewProc(n string) *LazyProc { return &LazyProc{n} }
func (d *LazyDLL) MustFindProc(n string) *LazyProc {
	return &LazyProc{n}
}
func (p *LazyProc) Addr() uintptr { panic("the address of " + p.name) }

const (
	PAGE_NOACCESS          = 1
	PAGE_READONLY          = 2
	PAGE_READWRITE         = 4
	PAGE_EXECUTE           = 0x10
	PAGE_EXECUTE_READ      = 0x20
	PAGE_EXECUTE_READWRITE = 0x40
	MEM_COMMIT             = 0x1000
	MEM_RESERVE            = 0x2000
	MEM_DECOMMIT           = 0x4000
	MEM_RELEASE            = 0x8000
)

var prots = map[uintptr]uintptr{PAGE_NOACCESS: 0, PAGE_READONLY: 1, PAGE_READWRITE: 3, PAGE_EXECUTE: 4, PAGE_EXECUTE_READ: 5, PAGE_EXECUTE_READWRITE: 7}

// Call must not allocate much nor print: it runs while code is being changed.
func (p *LazyProc) Call(a ...uintptr) (r1, r2 uintptr, lastErr error) {
	mu.Lock()
	defer mu.Unlock()
	counts[p.name]++
	var e syscall.Errno
	need := map[string]int{"VirtualProtect": 4, "VirtualAlloc": 4, "VirtualFree": 3}[p.name]
	if need == 0 || len(a) < need {
		fmt.Fprintf(os.Stderr, "windows: %s called with %d arguments\n", p.name, len(a))
		os.Exit(5)
	}
	switch p.name {
	case "VirtualProtect":
		r1, e = protect(a[0], a[1], a[2], a[3])
	case "VirtualAlloc":
		r1, e = alloc(a[0], a[1], a[2], a[3])
	case "VirtualFree":
		r1, e = release(a[0], a[1], a[2])
	}
	if e != 0 {
		last = e
	}
	return r1, 0, e
}

const invalid = syscall.Errno(22)

// VirtualProtect changes whole pages and needs a place for the old protection
func protect(addr, size, prot, old uintptr) (uintptr, syscall.Errno) {
	pr, ok := prots[prot]
	if !ok || size == 0 || old == 0 {
		return 0, invalid
	}
	from := addr &^ 4095
	to := (addr + size + 4095) &^ 4095
	if _, _, e := syscall.RawSyscall(syscall.SYS_MPROTECT, from, to-from, pr); e != 0 {
		return 0, e
	}
	*(*uint32)(unsafe.Pointer(old)) = PAGE_EXECUTE_READ
	return 1, 0
}

func alloc(addr, size, kind, prot uintptr) (uintptr, syscall.Errno) {
	pr, ok := prots[prot]
	if !ok || size == 0 || addr != 0 || kind&^(MEM_COMMIT|MEM_RESERVE) != 0 || kind == 0 {
		return 0, invalid
	}
	if kind&MEM_COMMIT == 0 {
		pr = 0
	}
	// regions begin at multiples of 64 KB
	n := (size + 0xffff) &^ 0xffff
	m, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, n+0x10000, 0, syscall.MAP_PRIVATE|syscall.MAP_ANON, ^uintptr(0), 0)
	if e != 0 {
		return 0, e
	}
	at := (m + 0xffff) &^ 0xffff
	if at > m {
		syscall.Syscall(syscall.SYS_MUNMAP, m, at-m, 0)
	}
	if end := m + n + 0x10000; end > at+n {
		syscall.Syscall(syscall.SYS_MUNMAP, at+n, end-at-n, 0)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, at, (size+4095)&^4095, pr); e != 0 {
		return 0, e
	}
	allocs[at] = n
	return at, 0
}

func release(addr, size, kind uintptr) (uintptr, syscall.Errno) {
	switch kind {
	case MEM_RELEASE: // only complete regions
		n, ok := allocs[addr]
		if !ok || size != 0 {
			return 0, invalid
		}
		delete(allocs, addr)
		syscall.Syscall(syscall.SYS_MUNMAP, addr, n, 0)
		return 1, 0
	case MEM_DECOMMIT:
		for at, n := range allocs {
			if addr >= at && addr+size <= at+n {
				if size == 0 {
					if addr != at {
						return 0, invalid
					}
					size = n
				}
				from, to := addr&^4095, (addr+size+4095)&^4095
				syscall.Syscall(syscall.SYS_MADVISE, from, to-from, 4)
				syscall.Syscall(syscall.SYS_MPROTECT, from, to-from, 0)
				return 1, 0
			}
		}
	}
	return 0, invalid
}
