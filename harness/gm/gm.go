// Package gm holds the generated types of the C14 workload.
package gm

import "reflect"

// R identifies the body that ran, its receiver and its arguments.
type R struct {
	ID   int
	Tag  string
	Args string
}

type Case struct {
	Name, Type, Shape string
	Inst              any
	ID                int           // of the body that must be found
	Direct            func() R      // the call on the instance, if it selects the same method
	Inner             func() R      // the call on the (embedded) value that has the method
	Via               func() R      // the same through an interface
	Func              func(any) R   // calls what GetMethod returned
	Hook              func(int) any // a hook for it
	FT                reflect.Type
	Field, Missing    bool
}

var Cases []Case

func ptr[X any](x X) *X { return &x }

var Runs int

func run(id int, tag, args string) R { Runs++; return R{id, tag, args} }
