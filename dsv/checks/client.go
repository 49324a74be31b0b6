package checks

import (
	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// iterClient is how a user drives the iterators.
const iterClient = `package zzdriver

import "github.com/timtadh/data-structures/types"

func Item(k interface{})                    {}
func Entry(k types.Hashable, v interface{}) {}

func Keys(it types.KIterator) {
	for k, next := it(); next != nil; k, next = next() {
		Item(k)
	}
}

func Values(it types.Iterator) {
	for v, next := it(); next != nil; v, next = next() {
		Item(v)
	}
}

func Entries(it types.KVIterator) {
	for k, v, next := it(); next != nil; k, v, next = next() {
		Entry(k, v)
	}
}
`

// client finds a function of the client code.
func (c *Ctx) client(name string) *ssa.Function {
	if c.P.Driver != nil {
		if f, ok := c.P.Driver.Members[name].(*ssa.Function); ok {
			return f
		}
	}
	panic(ai.Undecided{Msg: "client function " + name + " not loaded"})
}
