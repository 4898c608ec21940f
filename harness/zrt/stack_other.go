//go:build !amd64

package zrt

// StackLeft is not known on other machines: their programs are not run.
func StackLeft() uintptr { return 1 << 20 }
