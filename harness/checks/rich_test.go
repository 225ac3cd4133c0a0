package checks

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

const thePFK = "00112233445566778899aabbccddeeff0f1e2d3c4b5a69788796a5b4c3d2e1f0"
const otherPFK = "ffeeddccbbaa99887766554433221100f0e1d2c3b4a5968778695a4b3c2d1e0f"

// anyText draws arbitrary text, any valid runes.
func anyText(t *rapid.T, max int, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+"Kind") {
	case 0:
		return ""
	case 1:
		return kit.Text(t, 1, max, label)
	case 2:
		n := rapid.IntRange(0, max).Draw(t, label+"Len")
		raw := rapid.SliceOfN(rapid.SampledFrom([]rune{'a', ' ', '\n', '\r', '\t', 0, 1, 'Å', '=', '+', '¤', '↕', '→', 0x10FFFF, 0xFFFD, 0x2028, 'é', 0x65, 0x301, 0x7F, 0x80, 0xFEFF}), n, n).Draw(t, label)
		return string(raw)
	default:
		return rapid.StringN(0, max, -1).Draw(t, label)
	}
}

// anyTime draws a time to the nanosecond in a zone of whole minutes.
func anyTime(t *rapid.T, label string) time.Time {
	switch rapid.IntRange(0, 4).Draw(t, label+"Kind") {
	case 0:
		return drawGroup(t, label).t
	case 1:
		return time.Time{}
	case 2:
		return time.Now()
	}
	s := rapid.Int64Range(-2000000000, 8000000000).Draw(t, label)
	ns := rapid.Int64Range(0, 999999999).Draw(t, label+"Nano")
	off := rapid.OneOf(rapid.Just(0), rapid.Map(rapid.IntRange(-12, 12), func(h int) int { return h * 60 }), rapid.Map(rapid.IntRange(-56, 56), func(q int) int { return q * 15 })).Draw(t, label+"Minutes")
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("", off*60)
	}
	return time.Unix(s, ns).In(loc)
}

// fewOrMany draws how many call-signs something has.
func fewOrMany(t *rapid.T, label string) int {
	if rapid.IntRange(0, 15).Draw(t, label+"Many") == 15 {
		return rapid.IntRange(5, 60).Draw(t, label)
	}
	return rapid.IntRange(0, 4).Draw(t, label)
}

// richKey draws a key of any content.
func richKey(t *rapid.T, id string) krypto431.Key {
	var k krypto431.Key
	k.Id = []rune(id)
	if rapid.IntRange(0, 7).Draw(t, "oddLetters") == 0 {
		k.Runes = []rune(anyText(t, 40, "letters"))
	} else {
		k.Runes = []rune(string(krypto431.RandomAlnumRunes(0)))
		n := rapid.IntRange(0, 120).Draw(t, "length")
		for i := 0; i < n; i++ {
			k.Runes = append(k.Runes, 'A'+rune((i*i*7+n+int(id[0])*i)%26))
		}
	}
	if rapid.IntRange(0, 39).Draw(t, "longKey") == 39 {
		k.Runes = kit.BulkLetters(t, rapid.IntRange(120, 6000).Draw(t, "longLength"), "longLetters")
	}
	for i := fewOrMany(t, "keepers"); i > 0; i-- {
		k.Keepers = append(k.Keepers, []rune(rapid.SampledFrom([]string{"QJ", "VJ", "BA", "ÅÄÖ", "OH0A/M", "qj", "A VERY LONG KEEPER INDEED", "SA6MWA"}).Draw(t, "keeper")))
	}
	k.Created.Time = anyTime(t, "created")
	k.Expires.Time = anyTime(t, "expires")
	k.Used = rapid.Bool().Draw(t, "used")
	k.Compromised = rapid.Bool().Draw(t, "compromised")
	if rapid.Bool().Draw(t, "commented") {
		k.Comment = []rune(anyText(t, 60, "comment"))
	}
	return k
}

// richMessage draws a message of any content.
func richMessage(t *rapid.T, id string) krypto431.Message {
	var m krypto431.Message
	m.Id = []rune(id)
	for i := fewOrMany(t, "recipients"); i > 0; i-- {
		m.Recipients = append(m.Recipients, []rune(rapid.SampledFrom([]string{"QJ", "VJ", "BA", "ÅÄÖ", "SA6MWA"}).Draw(t, "recipient")))
	}
	m.From = []rune(rapid.SampledFrom([]string{"", "SA6MWA", "QJ", "VJ"}).Draw(t, "from"))
	m.DTG.Time = anyTime(t, "dtg")
	m.PlainText = []rune(anyText(t, 200, "plain"))
	m.CipherText = []rune(strings.Repeat("ABCDE", rapid.IntRange(0, 20).Draw(t, "groups")))
	m.KeyId = []rune(rapid.SampledFrom([]string{"", "ABCDE", "ZZZZZ"}).Draw(t, "keyId"))
	m.Radiogram = []rune(anyText(t, 100, "radiogram"))
	if rapid.IntRange(0, 29).Draw(t, "longMessage") == 29 {
		big := func(label string) int {
			return rapid.IntRange(0, 1<<rapid.IntRange(8, 14).Draw(t, label+"Magnitude")).Draw(t, label+"Size")
		}
		m.PlainText = []rune(kit.LongText(t, big("plain"), 5, "longPlain"))
		m.CipherText = kit.BulkLetters(t, big("cipher"), "longCipher")
		m.Radiogram = []rune(kit.LongText(t, big("radiogram"), 5, "longRadiogram"))
	}
	if rapid.Bool().Draw(t, "binary") {
		m.Binary = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "bytes")
	}
	return m
}

// richStore fills an instance with anything.
func richStore(t *rapid.T, k *krypto431.Krypto431, maxKeys, maxMsgs int) {
	n := rapid.IntRange(0, maxKeys).Draw(t, "keys")
	for i := 0; i < n; i++ {
		key := richKey(t, uniqueId(i, rapid.IntRange(3, 6).Draw(t, "idLen")))
		if i > 0 && rapid.IntRange(0, 11).Draw(t, "sameLetters") == 11 {
			key.Runes = []rune(string(k.Keys[i-1].Runes))
		}
		key.SetInstance(k)
		k.Keys = append(k.Keys, key)
	}
	if maxKeys > 2 && rapid.IntRange(0, 23).Draw(t, "crowd") == 23 {
		crowd(t, k)
	}
	n = rapid.IntRange(0, maxMsgs).Draw(t, "messages")
	for i := 0; i < n; i++ {
		m := richMessage(t, fmt.Sprintf("%c%03d", "aBc9"[i%4], i))
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
}

// crowd adds many keys of plain content.
func crowd(t *rapid.T, k *krypto431.Krypto431) {
	r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "crowdSeed"), 3))
	letters := kit.BulkLetters(t, 2000, "crowdLetters")
	idLen := rapid.IntRange(3, 6).Draw(t, "crowdIds")
	base := time.Now()
	for n, i := rapid.IntRange(10, 10<<rapid.IntRange(0, 5).Draw(t, "crowdMagnitude")).Draw(t, "crowdSize"), 0; i < n; i++ {
		var key krypto431.Key
		key.Id = []rune(uniqueId(30+i, idLen))
		key.Runes = []rune(string(letters[r.IntN(1900):][:20+r.IntN(80)]))
		for _, c := range []string{"QJ", "VJ", "BA", "SA6MWA", "OH0A/M"} {
			if r.IntN(4) == 0 {
				key.Keepers = append(key.Keepers, []rune(c))
			}
		}
		key.Created.Time = base.Add(-time.Duration(r.IntN(1000)) * time.Hour).UTC()
		key.Expires.Time = base.Add(time.Duration(r.IntN(20000)-5000) * time.Hour).UTC()
		key.Used, key.Compromised = r.IntN(3) == 0, r.IntN(5) == 0
		if r.IntN(4) == 0 {
			key.Comment = []rune(fmt.Sprintf("comment %d", r.IntN(10)))
		}
		key.SetInstance(k)
		k.Keys = append(k.Keys, key)
	}
}

// uniqueId is the i-th id of n letters (n is at least 3).
func uniqueId(i, n int) string {
	b := make([]byte, n)
	for j := range b {
		b[j] = 'A' + byte(i%26)
		i /= 26
	}
	return string(b)
}

// settings draws values that Assert accepts.
func settings(t *rapid.T, k *krypto431.Krypto431, label string) {
	k.GroupSize = rapid.IntRange(1, 20).Draw(t, label+"GroupSize")
	k.KeyLength = rapid.IntRange(20, 1000).Draw(t, label+"KeyLength")
	k.Columns = rapid.IntRange(85, 300).Draw(t, label+"Columns")
	k.KeyColumns = rapid.IntRange(k.GroupSize, 100).Draw(t, label+"KeyColumns")
}

// store is a station with its own file.
func fileStation(g kit.Geometry, call, file string, more ...krypto431.Option) *krypto431.Krypto431 {
	return kit.Station(g, call, append([]krypto431.Option{krypto431.WithPersistence(file), krypto431.WithPFKString(thePFK)}, more...)...)
}

// scratch makes a directory for a case.
func scratch(label string) (dir string, done func()) {
	dir, err := os.MkdirTemp(kit.Scratch, label)
	if err != nil {
		panic(err)
	}
	return dir, func() {
		os.Chmod(dir, 0700) // where a check made it read-only
		os.RemoveAll(dir)
	}
}

// opened loads a store with the given key in a fresh instance.
func opened(file, pfk string) (*krypto431.Krypto431, error) {
	k := kit.Station(kit.Geometry{G: 5, K: 20}, "", krypto431.WithPersistence(file), krypto431.WithPFKString(pfk))
	return k, k.Load()
}

var _ = filepath.Join
