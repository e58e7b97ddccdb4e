package main

import kit "vkit"

// The sub-checks that judge the parser generated afresh from its grammar: the
// binary they are in is linked with that parser.
func init() {
	for name, old := range map[string]string{
		"C29/tree": "C01/tree", "C29/chain": "C01/chain", "C29/mutant": "C03/mutant", "C29/soup": "C03/soup", "C29/bytes": "C03/bytes", "C29/large": "C03/large",
		"C29/string": "C02/string", "C29/number": "C02/number", "C29/ident": "C02/ident", "C29/date": "C02/date", "C29/error": "C04/error", "C29/loop": "C07/loop",
	} {
		kit.Again(name, old)
	}
}
