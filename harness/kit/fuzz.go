package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// Fuzz lets Go's coverage-guided engine drive the generator of the sub-check
// VERIF_FUZZ_SUB: the engine mutates the choices the generator makes, guided by
// the code they reach. Failing cases and counts go to VERIF_FUZZ_OUT.
func Fuzz(f *testing.F) {
	s, dir := subs[os.Getenv("VERIF_FUZZ_SUB")], os.Getenv("VERIF_FUZZ_OUT")
	if s == nil || dir == "" {
		f.Skip("VERIF_FUZZ_SUB and VERIF_FUZZ_OUT name the sub-check and the folder for results")
	}
	rng := rand.New(rand.NewSource(1))
	for i := 0; i < 48; i++ {
		b := make([]byte, 256<<(i%5))
		rng.Read(b)
		if i%3 == 1 { // small choices: every second byte pair is zero
			for k := range b {
				if k%8 > 1 {
					b[k] = 0
				}
			}
		}
		f.Add(b)
	}
	w := &worker{sub: s.name, hashes: map[uint64]struct{}{}, labels: map[string]int{}}
	var mu sync.Mutex
	counts := filepath.Join(dir, fmt.Sprintf("count-%d.json", os.Getpid()))
	calls := 0
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		mu.Lock()
		defer mu.Unlock()
		defer func() {
			if calls++; calls%500 == 0 {
				data, _ := json.Marshal(map[string]int{"evals": w.evals, "nontrivial": w.nontriv, "distinct": len(w.hashes)})
				os.WriteFile(counts, data, 0o644)
			}
			if w.fail != nil {
				h := fnv.New64a()
				h.Write(w.fail.Case)
				data, _ := json.Marshal(w.fail)
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("fail-%016x.json", h.Sum64())), data, 0o644)
				w.fail = nil
			}
		}()
		s.run(t, w)
	}))
}
