// Package kit holds what every check shares: the evidence recorder, the
// deterministic entropy source, generators, the reference model of the paper
// cipher and snapshots of stores.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var rec = struct {
	sync.Mutex
	evals   int64
	nontriv map[uint64]struct{}
	labels  map[string]int64
	samples []string
	trivial []string
	rule    string
	extra   map[string]any
}{nontriv: map[uint64]struct{}{}, labels: map[string]int64{}, extra: map[string]any{}}

// Rule states how cases are made and what makes one non-trivial.
func Rule(format string, a ...any) {
	rec.Lock()
	defer rec.Unlock()
	rec.rule = fmt.Sprintf(format, a...)
}

// Extra adds a measured value to the evidence.
func Extra(name string, v any) {
	rec.Lock()
	defer rec.Unlock()
	rec.extra[name] = v
}

// AddExtra adds n to a measured counter of the evidence.
func AddExtra(name string, n int64) {
	rec.Lock()
	defer rec.Unlock()
	old, _ := rec.extra[name].(int64)
	rec.extra[name] = old + n
}

// Case records one evaluated case. desc identifies it (and is what a sample
// shows); two cases with the same desc count as one.
func Case(nontrivial bool, desc string, labels ...string) {
	rec.Lock()
	defer rec.Unlock()
	rec.evals++
	beat.Store(0)
	for _, l := range labels {
		if l != "" {
			rec.labels[l]++
		}
	}
	if !nontrivial {
		if len(rec.trivial) < 1 {
			rec.trivial = append(rec.trivial, clip(desc))
		}
		return
	}
	h := fnv.New64a()
	h.Write([]byte(desc))
	s := h.Sum64()
	if _, ok := rec.nontriv[s]; ok {
		return
	}
	n := len(rec.nontriv)
	if n < 4000000 {
		rec.nontriv[s] = struct{}{}
	}
	// keep samples spread over the run: cases 0, 7, 49, 343, ...
	for _, at := range []int{0, 7, 49, 343, 2401} {
		if n == at {
			rec.samples = append(rec.samples, clip(desc))
		}
	}
}

func clip(s string) string {
	r := []rune(s)
	if len(r) > 600 {
		return string(r[:600]) + fmt.Sprintf("... (%d characters)", len(r))
	}
	return s
}

type stats struct {
	Evaluations int64            `json:"evaluations"`
	Hashes      []uint64         `json:"hashes"`
	Labels      map[string]int64 `json:"labels"`
	Samples     []string         `json:"samples"`
	Rule        string           `json:"rule"`
	Extra       map[string]any   `json:"extra"`
}

func writeStats() {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		return
	}
	rec.Lock()
	defer rec.Unlock()
	st := stats{Evaluations: rec.evals, Labels: rec.labels, Samples: rec.samples, Rule: rec.rule, Extra: rec.extra}
	if len(st.Samples) == 0 {
		st.Samples = rec.trivial
	}
	for h := range rec.nontriv {
		st.Hashes = append(st.Hashes, h)
	}
	sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	b, err := json.Marshal(st)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o600); err != nil {
		panic(err)
	}
}

// Scratch is a directory of this process, removed when it ends.
var Scratch string

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough tells whether the deeper tier is asked for.
func Thorough() bool { return Tier() == "thorough" }

// CLI is the path of the command-line tool built from the tree under test.
func CLI() string { return os.Getenv("VERIF_CLI") }

// Main runs the tests with a scratch directory, a quiet stderr and no
// KRYPTO_* settings, then writes the statistics.
func Main(m *testing.M) {
	var err error
	Scratch, err = os.MkdirTemp("", "verif-run-")
	if err != nil {
		panic(err)
	}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "KRYPTO_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("HOME", Scratch)
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	os.Stdin = null
	os.Stderr = null // warnings of the library
	go watch()
	code := m.Run()
	writeStats()
	os.RemoveAll(Scratch)
	os.Exit(code)
}

var beat atomic.Int64

// hangSeconds without an evaluated case (they take milliseconds to seconds)
// is a hang of the code under test.
const hangSeconds = 240

// watch fails the run when the code under test hangs.
func watch() {
	for {
		time.Sleep(time.Second)
		if beat.Add(1) > hangSeconds {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("HANG: no case finished for %d seconds\n%s\n", hangSeconds, buf)
			writeStats()
			os.Exit(7)
		}
	}
}

// Beat tells that work goes on although no case was finished.
func Beat() { beat.Store(0) }

// Shard and Shards tell which part of an enumeration this process runs.
func Shard() (shard, shards int) {
	shard, shards = 0, 1
	fmt.Sscan(os.Getenv("VERIF_SHARD"), &shard)
	fmt.Sscan(os.Getenv("VERIF_SHARDS"), &shards)
	if shards < 1 {
		shards = 1
	}
	return
}
