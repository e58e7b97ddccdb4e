package main

import (
	"testing"

	kit "vkit"
)

func FuzzSub(f *testing.F) { kit.Fuzz(f) }
