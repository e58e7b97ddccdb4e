package main

/*
#include <stddef.h>
#include <malloc.h>
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static long native_bytes(void) {
	if (__sanitizer_get_current_allocated_bytes) return (long)__sanitizer_get_current_allocated_bytes();
	struct mallinfo2 m = mallinfo2();
	return (long)(m.uordblks + m.hblkhd);
}
*/
import "C"

import (
	"fmt"
	"runtime"
)

func nativeBytes() int64 { return int64(C.native_bytes()) }

// leaks runs f repeatedly and reports growth of native memory that repeats in
// every round, with the bytes per run. Threads that the Go runtime starts also
// allocate a little native memory, so a suspicion is confirmed by many rounds.
func leaks(f func() error) (int64, error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := f(); err != nil { // warm up
		return 0, err
	}
	const reps = 4
	min := int64(-1)
	for round := 0; round < 60; round++ {
		before := nativeBytes()
		for i := 0; i < reps; i++ {
			if err := f(); err != nil {
				return 0, err
			}
		}
		grown := nativeBytes() - before
		if grown <= 0 {
			return 0, nil
		}
		if min < 0 || grown < min {
			min = grown
		}
	}
	return (min + reps - 1) / reps, nil
}

func leakErr(n int64, what string, args ...interface{}) error {
	if n <= 0 {
		return nil
	}
	return fmt.Errorf("%d bytes of native memory are lost each time: %s", n, fmt.Sprintf(what, args...))
}
