package zrt

// StackLeft is the distance of the caller's frame from the end of the stack of the goroutine.
func StackLeft() uintptr
