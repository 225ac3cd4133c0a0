package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// asSaved compares a loaded store with what was saved, runes exactly.
func asSaved(t rapid.TB, got, want kit.Snap, how string) {
	t.Helper()
	if d := kit.Diff(got, want); d != "" {
		t.Fatalf("%s: %s", how, d)
	}
}

// attached checks that all entries belong to the instance and print like those
// they were saved from.
func attached(t rapid.TB, k *krypto431.Krypto431, how string) {
	t.Helper()
	for i := range k.Keys {
		if k.Keys[i].GetInstance() != k {
			t.Fatalf("%s: key %d does not belong to the instance", how, i)
		}
	}
	for i := range k.Messages {
		if k.Messages[i].GetInstance() != k {
			t.Fatalf("%s: message %d does not belong to the instance", how, i)
		}
	}
}

// printed is all printable output of a store (which must be well-formed).
func printed(k *krypto431.Krypto431) (out []string) {
	for i := range k.Keys {
		out = append(out, k.Keys[i].String())
	}
	for i := range k.Messages {
		out = append(out, k.Messages[i].String(), k.Messages[i].String(100))
	}
	return
}

func TestC10(t *testing.T) {
	kit.Rule("stores of generated content (keys and messages of any attributes, arbitrary Unicode, binary, dates in any zone, any valid settings, call-sign or none) saved and loaded into fresh instances, into instances holding other entries, settings and older versions of the store, several cycles over with changes in between; stores of up to sixteen million letters; working stores whose loaded keys and messages are then used; non-trivial = the store holds entries and the loading instance is not a fresh one, or entries were used after loading")
	kit.Check(t, "contents", 12000, 80000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c10")
		defer done()
		file := filepath.Join(dir, rapid.SampledFrom([]string{"store", "a b", "åäö.krypto431", "s.txt"}).Draw(t, "name"))
		call := rapid.SampledFrom([]string{"SA6MWA", "", "ÅÄ"}).Draw(t, "call")
		k := fileStation(kit.Geometry{G: 5, K: 25}, call, file, krypto431.WithOverwritePersistenceIfExists(true))
		settings(t, k, "saved")
		richStore(t, k, 6, 4)
		if n := len(k.Messages); n > 1 && rapid.IntRange(0, 5).Draw(t, "twins") == 0 { // messages of other stations may have one id
			k.Messages[n-1].Id = append([]rune{}, k.Messages[rapid.IntRange(0, n-2).Draw(t, "twin")].Id...)
		}
		cycles := rapid.IntRange(1, 3).Draw(t, "cycles")
		var target *krypto431.Krypto431
		dirty := false
		total := 0
		for c := 0; c < cycles; c++ {
			want := kit.SnapStore(k)
			must(t, k.Save(), "Save")
			if d := kit.Diff(kit.SnapStore(k), want); d != "" {
				t.Fatalf("saving changed the store: %s", d)
			}
			total += len(want.Keys) + len(want.Msgs)
			how := "into a fresh instance"
			switch rapid.IntRange(0, 3).Draw(t, "target") {
			case 0:
				target = fileStation(kit.Geometry{G: 5, K: 25}, "", file)
			case 1:
				how = "into an instance with other data"
				dirty = true
				target = fileStation(kit.Geometry{G: 4, K: 44}, "OTHER", file)
				settings(t, target, "target")
				richStore(t, target, 6, 4)
			case 2:
				how = "into an instance with a newer or older version"
				dirty = true
				if target == nil {
					target = fileStation(kit.Geometry{G: 5, K: 25}, "XX", file)
					richStore(t, target, 3, 3)
				} else {
					for i := range target.Keys {
						target.Keys[i].Used, target.Keys[i].Compromised = true, true
						target.Keys[i].Comment = []rune("NOT SAVED")
						target.Keys[i].Keepers = append(target.Keys[i].Keepers, []rune("NOTSAVED"))
					}
					for i := range target.Messages {
						target.Messages[i].PlainText = []rune("NOT SAVED")
						target.Messages[i].Binary = []byte("NOT SAVED")
					}
				}
			case 3:
				how = "into the instance that saved it"
				dirty = true
				k.CallSign = []rune("NOTSAVED")
				k.GroupSize++
				target = k
			}
			how = fmt.Sprintf("cycle %d, %d keys and %d messages %s", c, len(want.Keys), len(want.Msgs), how)
			var err error
			noPanic(t, "Load "+how, func() { err = target.Load() })
			must(t, err, "Load "+how)
			asSaved(t, kit.SnapStore(target), want, how)
			attached(t, target, how)
			if target != k && c+1 < cycles && rapid.Bool().Draw(t, "goOn") {
				// go on with what was loaded; saving it needs no permission
				k = target
				target = nil
			}
			// change something and save again
			if len(k.Keys) > 0 {
				i := rapid.IntRange(0, len(k.Keys)-1).Draw(t, "change")
				k.Keys[i].Used, k.Keys[i].Compromised, k.Keys[i].Comment, k.Keys[i].Keepers = false, false, nil, nil
			}
			if len(k.Messages) > 0 {
				i := rapid.IntRange(0, len(k.Messages)-1).Draw(t, "changeMessage")
				k.Messages[i].Binary, k.Messages[i].KeyId, k.Messages[i].Recipients, k.Messages[i].PlainText = nil, nil, nil, nil
			}
			switch rapid.IntRange(0, 3).Draw(t, "shrink") {
			case 0:
				k.Keys, k.Messages = nil, nil
			case 1:
				if len(k.Keys) > 1 {
					k.Keys = k.Keys[1:]
				}
			}
		}
		kit.Case(total > 0 && dirty, fmt.Sprintf("call %q, %d cycles, %d entries, %d bytes of state: %s", call, cycles, total, len(fmt.Sprint(kit.SnapStore(k))), short(fmt.Sprint(kit.SnapStore(k)))), "contents")
	})
	kit.Check(t, "usable", 3600, 24000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c10")
		defer done()
		g := kit.Geo(t, 60)
		file := filepath.Join(dir, "store")
		k := fileStation(g, "SA6MWA", file)
		n := rapid.IntRange(2, 12).Draw(t, "keys")
		generate(t, k, n, g.K, "QJ")
		// send something, and receive something still enciphered
		text := kit.Text(t, 1, worst(g, 1), "text")
		sent, err := k.NewTextMessage("QJ DE SA6MWA 012345 = " + "HELLO WORLD" + " = K")
		_ = sent
		m := kit.Msg(k, text, "QJ")
		err2 := m.Encipher()
		if err2 == nil {
			m.Id = []rune("zzzz")
			k.Messages = append(k.Messages, *m)
		}
		if err != nil || err2 != nil {
			// keys may be too few or too short
			kit.Case(false, "too few keys")
			return
		}
		wantPrinted := strings.Join(printed(k), "")
		want := kit.SnapStore(k)
		must(t, k.Save(), "Save")
		r := fileStation(kit.Geometry{G: 7, K: 99}, "XX", file)
		if rapid.Bool().Draw(t, "dirty") {
			generate(t, r, 3, 99)
			r.Messages = append(r.Messages, *kit.Msg(r, "OLD"))
		}
		must(t, r.Load(), "Load")
		asSaved(t, kit.SnapStore(r), want, "working store")
		attached(t, r, "working store")
		var got string
		noPanic(t, "printing a loaded store", func() { got = strings.Join(printed(r), "") })
		if got != wantPrinted {
			t.Fatalf("a loaded store prints differently:\n%s\nbefore:\n%s", got, wantPrinted)
		}
		for i := range r.Messages {
			l := &r.Messages[i]
			plain := string(l.PlainText)
			l.PlainText = nil
			noPanic(t, "Decipher", func() { err = l.Decipher() })
			must(t, err, "deciphering a loaded message")
			if string(l.PlainText) != plain {
				t.Fatalf("a loaded message deciphers to %q, was %q", string(l.PlainText), plain)
			}
		}
		// a loaded key enciphers for the other station
		next := r.FindKey([]rune("QJ"))
		used := 0
		for i := range want.Keys {
			if want.Keys[i].Used {
				used++
			}
		}
		if (next != nil) != (used < n) {
			t.Fatalf("%d of %d keys are used but a loaded key can be found: %v", used, n, next != nil)
		}
		if next != nil {
			c := &krypto431.Message{PlainText: []rune("abc"), Recipients: kit.Runes("QJ")}
			c.SetInstance(r)
			if err := c.Encipher(); err == nil {
				d := &krypto431.Message{KeyId: c.KeyId, CipherText: c.CipherText}
				d.SetInstance(k)
				must(t, d.Decipher(), "deciphering with the keys before saving")
				if string(d.PlainText) != "abc" {
					t.Fatalf("enciphered with a loaded key, deciphered %q", string(d.PlainText))
				}
			} else if g.Len() > 30 {
				t.Fatalf("enciphering with a loaded key: %v", err)
			}
		}
		// and saving it all again loses nothing
		want = kit.SnapStore(r)
		must(t, r.Save(), "saving what was loaded")
		z, err := opened(file, thePFK)
		must(t, err, "Load")
		asSaved(t, kit.SnapStore(z), want, "saved again")
		kit.Case(true, fmt.Sprintf("G=%d K=%d %d keys, %d messages, %q", g.G, g.K, n, len(r.Messages), short(text)), "used after loading")
	})
	kit.Check(t, "huge", 64, 300, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c10")
		defer done()
		file := filepath.Join(dir, "store")
		k := fileStation(kit.Geometry{G: 5, K: 350}, "SA6MWA", file)
		// up to 16 million letters, in few or many entries
		total := 1 << rapid.IntRange(12, 23).Draw(t, "magnitude")
		total = rapid.IntRange(total, 2*total).Draw(t, "letters")
		n := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, total/20), rapid.IntRange(1, 2000)).Draw(t, "entries")
		n = min(n, total, 20000)
		asMessages := rapid.Bool().Draw(t, "messages")
		letters := kit.BulkLetters(t, total, "bulk")
		generate(t, k, 1, 20, "QJ", "VJ")
		proto := k.Keys[0]
		for i := 0; i < n; i++ {
			part := letters[i*(total/n) : (i+1)*(total/n)]
			if asMessages && i > 0 {
				m := kit.Msg(k, "", "QJ")
				m.Id = []rune(uniqueId(i, 4))
				m.PlainText, m.CipherText, m.KeyId = part[:len(part)/2], part[len(part)/2:], []rune("ABCDE")
				switch i % 4 {
				case 1:
					m.PlainText, m.Radiogram = nil, m.PlainText
				case 2:
					m.CipherText, m.Binary = nil, []byte(string(m.CipherText))
				}
				k.Messages = append(k.Messages, *m)
				continue
			}
			key := proto
			key.Id = []rune(uniqueId(i, 5))
			key.Runes = part
			key.Used = i%3 == 0
			key.Comment = []rune(fmt.Sprint("no ", i))
			k.Keys = append(k.Keys, key)
		}
		want := kit.SnapStore(k)
		must(t, k.Save(), "Save")
		r, err := opened(file, thePFK)
		what := fmt.Sprintf("%d keys and %d messages of %d letters in total", len(k.Keys), len(k.Messages), total)
		must(t, err, "loading "+what)
		asSaved(t, kit.SnapStore(r), want, what)
		attached(t, r, what)
		kit.Case(true, what, fmt.Sprintf("huge, above 2^%d letters", bitsOf(total)))
	})
	kit.Check(t, "large", 64, 300, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c10")
		defer done()
		file := filepath.Join(dir, "store")
		k := fileStation(kit.Geometry{G: 5, K: 350}, "SA6MWA", file)
		generate(t, k, rapid.IntRange(100, 700).Draw(t, "keys"), rapid.IntRange(20, 500).Draw(t, "length"), "QJ,VJ")
		n := rapid.IntRange(0, 200).Draw(t, "messages")
		for i := 0; i < n; i++ {
			m := richMessage(t, uniqueId(i, 4))
			m.PlainText = []rune(strings.Repeat("LONG TEXT Å ", i))
			k.Messages = append(k.Messages, m)
		}
		want := kit.SnapStore(k)
		must(t, k.Save(), "Save")
		r, err := opened(file, thePFK)
		must(t, err, "Load")
		asSaved(t, kit.SnapStore(r), want, "large store")
		attached(t, r, "large store")
		kit.Case(true, fmt.Sprintf("%d keys, %d messages", len(want.Keys), n), "large")
	})
}

// bitsOf is the binary logarithm, in steps of four.
func bitsOf(n int) int {
	b := 0
	for n > 1 {
		n >>= 1
		b++
	}
	return b / 4 * 4
}
