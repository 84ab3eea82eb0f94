package main

import "golang.org/x/tools/go/ssa"

// intrinsic models library functions that need more than a contract.
func (r *runner) intrinsic(x ssa.Value, key string, args []Val) (Val, bool) {
	return nil, false
}
