package zrt

import "sync/atomic"

// StackMin is what the stack check of every function leaves free below its frame: stackGuard - stackSmall of the runtime, which is
// 800, less what calling StackLeft takes.
const StackMin = 700

// LowStacks counts entries of functions with less than StackMin bytes of stack.
var LowStacks atomic.Int64

var lowName atomic.Value

// LowStack is called by a function that finds itself too close to the end of the stack.
func LowStack(name string) {
	LowStacks.Add(1)
	lowName.Store(name)
}

// LowName is a function that ran too close to the end of the stack.
func LowName() string {
	n, _ := lowName.Load().(string)
	return n
}
