package kit

import (
	"math/rand/v2"
	"strings"
	"time"
	"unicode"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
)

// Seed draws the seed of the entropy stream of a case.
func Seed(t *rapid.T) uint64 { return rapid.Uint64().Draw(t, "entropy") }

var (
	upperLetters = []rune("ABCDEFGHIJKLMNOPRSTUVWXY") // table 1
	t2Letters    = []rune("QZÅÄÖ")
	digits       = []rune("0123456789")
	punct        = []rune("?-.,:+/")
)

// Char draws a supported character of the given class.
func charOf(class int, r int) rune {
	pick := func(s []rune) rune { return s[r%len(s)] }
	switch class {
	case 0:
		return pick(upperLetters)
	case 1:
		return unicode.ToLower(pick(upperLetters))
	case 2:
		return pick(digits)
	case 3:
		return pick(punct)
	case 4:
		return ' '
	case 5:
		return pick(t2Letters)
	default:
		return unicode.ToLower(pick(t2Letters))
	}
}

// Text draws a text of min to max supported characters, in runs of a class so
// that both long stretches without and dense sequences with switches occur.
func Text(t *rapid.T, min, max int, label string) string {
	n := rapid.IntRange(min, max).Draw(t, label+"Len")
	if rapid.IntRange(0, 3).Draw(t, label+"Short") > 0 {
		n = min + (n-min)%61
	}
	style := rapid.IntRange(0, 3).Draw(t, label+"Style")
	raw := rapid.SliceOfN(rapid.Uint16(), n, n).Draw(t, label)
	out := make([]rune, 0, n)
	class := 0
	for _, x := range raw {
		v := int(x)
		switch style {
		case 0: // every character of a fresh class
			class = v % 7
		case 1: // runs
			if v%5 == 0 {
				class = (v / 5) % 7
			}
		case 2: // mostly one case with switches now and then
			if v%23 == 0 {
				class = (v / 23) % 7
			} else if class > 1 {
				class = 1
			}
		case 3: // costly characters: lower and upper case in turn, between tables
			class = []int{1, 5, 6, 0, 2}[v%5]
		}
		out = append(out, charOf(class, v/7))
	}
	return string(out)
}

// Geometry is the shape of keys.
type Geometry struct{ G, K int }

// Len is the real length of keys of this geometry.
func (g Geometry) Len() int { return (g.K + g.G - 1) / g.G * g.G }

// Geo draws a group size and key length (keys at least eight letters longer
// than a group, as chaining needs).
func Geo(t *rapid.T, maxK int) Geometry {
	g := rapid.OneOf(rapid.Just(5), rapid.IntRange(2, 12), rapid.IntRange(1, 5)).Draw(t, "groupSize")
	k := rapid.OneOf(rapid.IntRange(20, 40), rapid.IntRange(20, maxK)).Draw(t, "keyLength")
	return Geometry{g, k}
}

// Calls draws distinct call-signs, upper case.
var callPool = []string{"SA6MWA", "QJ", "VJ", "VL", "VN", "BA", "SA4LGZ", "AB/P", "K2", "ZZ9ZA", "OH0A/M", "XY"}

// Call draws one call-sign.
func Call(t *rapid.T, label string) string { return rapid.SampledFrom(callPool).Draw(t, label) }

// CallSet draws min to max distinct call-signs other than those excluded.
func CallSet(t *rapid.T, min, max int, label string, exclude ...string) []string {
	var pool []string
	for _, c := range callPool {
		skip := false
		for _, e := range exclude {
			skip = skip || e == c
		}
		if !skip {
			pool = append(pool, c)
		}
	}
	perm := rapid.Permutation(pool).Draw(t, label+"Perm")
	n := rapid.IntRange(min, max).Draw(t, label+"N")
	if n > len(perm) {
		n = len(perm)
	}
	return append([]string(nil), perm[:n]...)
}

// Mess draws a spelling of a list of call-signs: random case and separators.
func Mess(t *rapid.T, items []string, label string) string {
	var b strings.Builder
	seps := []string{",", " ", ", ", " ,", "  ", ",,", " , "}
	b.WriteString(rapid.SampledFrom([]string{"", "", " ", ","}).Draw(t, label+"Lead"))
	for i, it := range items {
		if i > 0 {
			b.WriteString(rapid.SampledFrom(seps).Draw(t, label+"Sep"))
		}
		b.WriteString(MixCase(t, it, label))
	}
	b.WriteString(rapid.SampledFrom([]string{"", "", " ", ","}).Draw(t, label+"Trail"))
	return b.String()
}

// MixCase draws a mixed-case spelling of an ASCII string.
func MixCase(t *rapid.T, s, label string) string {
	mask := rapid.Uint32().Draw(t, label+"Case")
	r := []rune(s)
	for i := range r {
		if mask>>(uint(i)%32)&1 == 1 {
			r[i] = unicode.ToLower(r[i])
		}
	}
	return string(r)
}

// StdinSafeOpts are the options of an instance of a given geometry.
func Opts(g Geometry, call string, more ...krypto431.Option) []krypto431.Option {
	o := []krypto431.Option{krypto431.WithGroupSize(g.G), krypto431.WithKeyLength(g.K), krypto431.WithCallSign(call)}
	if g.G > krypto431.DefaultKeyColumns {
		o = append(o, krypto431.WithKeyColumns(g.G))
	}
	return append(o, more...)
}

// Zones are the whole-hour offsets a date-time group can name.
func Zone(t *rapid.T, label string) *time.Location {
	h := rapid.IntRange(-12, 12).Draw(t, label)
	if h == 0 {
		return time.UTC
	}
	return time.FixedZone("", h*3600)
}

// Letters draws a string of n letters A-Z.
func Letters(t *rapid.T, n int, label string) string {
	b := rapid.SliceOfN(rapid.Uint8Range('A', 'Z'), n, n).Draw(t, label)
	return string(b)
}

// LongText makes a text of n supported characters, in runs of about run
// characters of a class, from a drawn seed.
func LongText(t *rapid.T, n, run int, label string) string {
	r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, label), 431))
	out := make([]rune, n)
	class := 0
	for i := range out {
		if r.IntN(run) == 0 {
			class = r.IntN(7)
		}
		out[i] = charOf(class, r.IntN(1000))
	}
	return string(out)
}

// BigGeo draws unusually large groups or keys.
func BigGeo(t *rapid.T) Geometry {
	g := Geometry{rapid.SampledFrom([]int{5, 5, 4, 13, 16, 17, 31, 32, 40, 64, 100}).Draw(t, "groupSize"), 0}
	g.K = rapid.OneOf(rapid.IntRange(20, 60), rapid.IntRange(200, 300), rapid.IntRange(1000, 1100), rapid.IntRange(20, 5000)).Draw(t, "keyLength")
	g.K = max(g.K, g.G+14)
	return g
}

// BulkLetters makes n letters A-Z from a drawn seed.
func BulkLetters(t *rapid.T, n int, label string) []rune {
	r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, label), 26))
	out := make([]rune, n)
	for i := range out {
		out[i] = 'A' + rune(r.IntN(26))
	}
	return out
}
