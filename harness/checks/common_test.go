package checks

import (
	"fmt"
	"strings"
	"testing"
	"unicode"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func must(t rapid.TB, err error, what string) {
	if err != nil {
		t.Helper()
		t.Fatalf("%s: %v", what, err)
	}
}

// noPanic runs f and turns a panic into a failure which says what was done.
func noPanic(t rapid.TB, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			// rapid ends a case by panicking
			if s := fmt.Sprintf("%T", r); strings.Contains(s, "rapid.") {
				panic(r)
			}
			t.Fatalf("%s crashed: %v", what, r)
		}
	}()
	f()
}

// generate appends n keys of the given length to a station.
func generate(t rapid.TB, k *krypto431.Krypto431, n, length int, keepers ...string) {
	old := k.KeyLength
	k.KeyLength = length
	err := k.GenerateKeys(n, nil, keepers...)
	k.KeyLength = old
	must(t, err, "GenerateKeys")
}

// worst is the number of characters which any text may have to fit a chain of
// n keys of the given length.
func worst(g kit.Geometry, n int) int {
	c := n * ((g.Len() - g.G - 5) / 4)
	if c < 1 {
		return 1
	}
	return c
}

// keysFor is the number of keys of the geometry with which any text of n
// characters must be enciphered: comfortably more than it can use.
func keysFor(g kit.Geometry, n int) int {
	per := (g.Len() - g.G - 5) / 4
	if per < 1 {
		per = 1
	}
	return 2*((n+per-1)/per) + 2
}

// maxText is the longest text drawn for a geometry, so that there are key ids
// enough and cases stay small.
func maxText(g kit.Geometry, limit int) int {
	max := limit
	if g.G == 1 { // only 26 ids
		for max > 1 && keysFor(g, max) > 18 {
			max--
		}
	}
	for max > 1 && keysFor(g, max) > 130 {
		max = max * 3 / 4
	}
	return max
}

// drawBig draws large keys and a long text which has keys enough, and
// generates the keys.
func drawBig(t *rapid.T, k *krypto431.Krypto431, g kit.Geometry, to ...string) string {
	n := 1 << rapid.IntRange(6, 13).Draw(t, "magnitude")
	n = rapid.IntRange(n/2, n).Draw(t, "length")
	for n > 1 && keysFor(g, n) > 700 {
		n /= 2
	}
	text := kit.LongText(t, n, rapid.SampledFrom([]int{1, 2, 10, 200}).Draw(t, "runs"), "long")
	generate(t, k, keysFor(g, n), g.K, to...)
	return text
}

// lettersOnly tells whether s is A-Z only.
func lettersOnly(s string) bool {
	for _, r := range s {
		if r < 'A' || r > 'Z' {
			return false
		}
	}
	return true
}

// squeeze drops all blanks and line breaks.
func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// grouped writes s in groups of n.
func grouped(s string, n int) string {
	var b strings.Builder
	for i := 0; i < len(s); i += n {
		if i > 0 {
			b.WriteByte(' ')
		}
		e := i + n
		if e > len(s) {
			e = len(s)
		}
		b.WriteString(s[i:e])
	}
	return b.String()
}

func short(s string) string {
	r := []rune(s)
	if len(r) > 120 {
		return string(r[:120]) + fmt.Sprintf("…(%d)", len(r))
	}
	return s
}

func findKey(ks []kit.KeySnap, id string) *kit.KeySnap {
	for i := range ks {
		if ks[i].Id == id {
			return &ks[i]
		}
	}
	return nil
}

var _ = testing.Short
