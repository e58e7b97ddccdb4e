// Harness of v5 and of v4: the driver builds this directory twice, for v4 from
// a copy in which the module path and V name version 4.
package main

import (
	"fmt"

	"pgregory.net/rapid"
	kit "vkit"
)

// V is the version of the language under test.
const V = 5

func main() { kit.Main() }

// register adds a sub-check under a name that tells the version.
func register[C any](name, rule string, gen func(*rapid.T) C, check func(C, *kit.X) error) {
	kit.Register(fmt.Sprintf("%s/v%d", name, V), rule, gen, check)
}
