package kit

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

// Marks are what Freshen replaces: part of a name or text, and a number.
const (
	MarkText   = "q000000"
	MarkNumber = 7000000
)

// Freshen gives a text with marks a form no other i gives, of the same length.
func Freshen(s string, i int) string {
	s = strings.ReplaceAll(s, MarkText, fmt.Sprintf("q%06d", i%1000000))
	return strings.ReplaceAll(s, fmt.Sprint(MarkNumber), fmt.Sprintf("7%06d", i%1000000))
}

// LiveHeap counts the live bytes of the Go heap, and some for each goroutine and
// each open file.
func LiveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	files, _ := os.ReadDir("/proc/self/fd")
	return int64(m.HeapAlloc) + 2048*int64(runtime.NumGoroutine()+len(files))
}

// Grows runs f(0), f(1), ... and gives the bytes that each further use holds on
// to, 0 if it is less than some. What is held for the first uses (caches that
// fill up) does not count: a suspicion is confirmed after many more.
func Grows(f func(i int) error, live func() int64) (perUse int64, err error) {
	const window = 300
	const few = 16 // bytes per use: noise
	i := 0
	run := func(n int) error {
		for to := i + n; i < to; i++ {
			if err := f(i); err != nil {
				return err
			}
			Alive()
		}
		return nil
	}
	grown := func(n int) (int64, error) {
		before := live()
		if err := run(n); err != nil {
			return 0, err
		}
		return live() - before, nil
	}
	if err := run(window); err != nil {
		return 0, err
	}
	g, err := grown(window)
	if err != nil || g < few*window {
		return 0, err
	}
	if err := run(16 * window); err != nil {
		return 0, err
	}
	for k := 0; k < 2; k++ {
		if g, err = grown(4 * window); err != nil || g < few*4*window {
			return 0, err
		}
	}
	return g / (4 * window), nil
}
