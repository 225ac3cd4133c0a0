package checks

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// groupedWell tells what is wrong with letters written in groups of g, in
// lines of at most width (0: in one line).
func groupedWell(letters, out string, g, width int) string {
	if letters == "" {
		if out != "" {
			return "something is written for no letters"
		}
		return ""
	}
	lines := []string{out}
	if width > 0 {
		lines = strings.Split(out, krypto431.LineBreak)
	}
	left := letters
	for i, l := range lines {
		n := utf8.RuneCountInString(l)
		if n == 0 {
			return fmt.Sprintf("line %d is empty", i+1)
		}
		groups := strings.Split(l, " ")
		for _, x := range groups {
			w := g
			if len(left) < g {
				w = len(left)
			}
			if w == 0 || x != left[:w] {
				return fmt.Sprintf("line %d: group %q where the letters go on %s", i+1, x, short(left))
			}
			left = left[w:]
		}
		if width > 0 {
			if n > width && len(groups) > 1 || n > width && g <= width {
				return fmt.Sprintf("line %d is %d wide", i+1, n)
			}
			if i < len(lines)-1 && n+1+g < width {
				return fmt.Sprintf("line %d is only %d wide: another group would fit", i+1, n)
			}
		}
	}
	if left != "" {
		return fmt.Sprintf("the last letters are missing: %s", short(left))
	}
	return ""
}

// judgeGroups checks both forms of a key or message.
func judgeGroups(fail func(string, ...any), of krypto431.GroupFormatter, now func() string, letters string, g, width int, what string) (lines int) {
	for _, block := range []bool{false, true} {
		name, w, f := "Groups", 0, of.Groups
		if block {
			name, w, f = "GroupsBlock", width, of.GroupsBlock
		}
		out, err := f()
		if err != nil || out == nil {
			fail("%s of %s with %d letters, group size %d, width %d fails: %v", name, what, len(letters), g, width, err)
			return
		}
		text := string(*out)
		if s := groupedWell(letters, text, g, w); s != "" {
			fail("%s of %s with the %d letters %s, group size %d, width %d is %q: %s", name, what, len(letters), short(letters), g, width, short(text), s)
			return
		}
		// what is returned is the caller's to wipe
		for i := range *out {
			(*out)[i] = 0
		}
		if now() != letters {
			fail("%s of %s with the letters %s, group size %d, width %d shares its memory or changes it: %s", name, what, short(letters), g, width, short(now()))
			return
		}
		again, err := f()
		if err != nil || string(*again) != text {
			fail("%s of %s with the letters %s, group size %d, width %d differs the second time", name, what, short(letters), g, width)
			return
		}
		lines = strings.Count(text, krypto431.LineBreak) + 1
	}
	return
}

// alphabetical are n letters no two stretches of which look the same soon.
func alphabetical(n int) string {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = 'A' + byte((x>>16)%26)
	}
	return string(b)
}

// howLong draws a number of letters, rarely a very large one.
func howLong(t *rapid.T, g int) int {
	if rapid.IntRange(0, 199).Draw(t, "long") == 199 {
		return rapid.IntRange(0, 1<<rapid.IntRange(12, 19).Draw(t, "magnitude")).Draw(t, "n")
	}
	return rapid.OneOf(rapid.IntRange(0, 2*g), rapid.IntRange(0, 3000), rapid.Map(rapid.IntRange(0, 40), func(i int) int { return i * g })).Draw(t, "n")
}

func TestC26(t *testing.T) {
	kit.Rule("(1) enumerated: every group size, every key width from the group size on and every letter count of small bounds, for keys, and for messages at every width from the least; (2) drawn: larger ones, with generated, loaded and hand-made keys and enciphered messages, under settings which the settings check accepts; both forms are taken apart line by line and group by group, and must be independent of the key's memory; non-trivial = more than one line, or an incomplete last group, or no letters")
	maxG, maxW, maxN := 7, 26, 70
	if kit.Thorough() {
		maxG, maxW, maxN = 14, 60, 190
	}
	kit.EnumSharded(t, "keys", func(t *testing.T, fail func(string, ...any)) {
		shard, shards := kit.Shard()
		n := 0
		for g := 1; g <= maxG; g++ {
			for w := g; w <= maxW; w++ {
				n++
				if n%shards != shard {
					continue
				}
				k := krypto431.New(krypto431.WithPersistence("x"), krypto431.WithGroupSize(g), krypto431.WithKeyColumns(w))
				if err := k.Assert(); err != nil {
					panic("HARNESS ERROR: " + err.Error())
				}
				for l := 0; l <= maxN; l++ {
					s := alphabetical(l)
					key := krypto431.Key{Runes: []rune(s)}
					key.SetInstance(&k)
					lines := judgeGroups(fail, &key, func() string { return string(key.Runes) }, s, g, w, "a key")
					kit.Case(lines > 1 || l%g != 0 || l == 0, fmt.Sprintf("key of %d letters in groups of %d, width %d", l, g, w), "enumerated keys")
				}
			}
		}
	})
	wide := 12
	if kit.Thorough() {
		wide = 60
	}
	kit.EnumSharded(t, "messages", func(t *testing.T, fail func(string, ...any)) {
		shard, shards := kit.Shard()
		n := 0
		for g := 1; g <= 2*maxG; g++ {
			for w := 85; w <= 85+wide; w++ {
				n++
				if n%shards != shard {
					continue
				}
				k := krypto431.New(krypto431.WithPersistence("x"), krypto431.WithGroupSize(g), krypto431.WithColumns(w))
				for l := 0; l <= 3*85; l++ {
					s := alphabetical(l)
					m := krypto431.Message{CipherText: []rune(s), PlainText: []rune("PLAIN"), Radiogram: []rune("RADIOGRAM")}
					m.SetInstance(&k)
					lines := judgeGroups(fail, &m, func() string { return string(m.CipherText) }, s, g, w, "a message")
					kit.Case(lines > 1 || l%g != 0 || l == 0, fmt.Sprintf("message of %d letters in groups of %d, width %d", l, g, w), "enumerated messages")
				}
			}
		}
	})
	kit.Check(t, "drawn", 30000, 500000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 120)).Draw(t, "g")
		kc := g + rapid.OneOf(rapid.IntRange(0, 3*g+3), rapid.IntRange(0, 400), rapid.Just(1<<40)).Draw(t, "more")
		w := rapid.OneOf(rapid.IntRange(85, 85+2*g), rapid.IntRange(85, 500), rapid.Just(1<<40)).Draw(t, "w")
		l := rapid.IntRange(20, 600).Draw(t, "keyLength")
		k := kit.Station(kit.Geometry{G: g, K: l}, "SA6MWA", krypto431.WithPersistence("x"), krypto431.WithKeyColumns(kc), krypto431.WithColumns(w))
		if err := k.Assert(); err != nil {
			panic("HARNESS ERROR: " + err.Error())
		}
		fail := func(f string, a ...any) { t.Fatalf(f, a...) }
		name := rapid.SampledFrom([]string{"made", "made", "generated", "loaded", "message", "message", "enciphered"}).Draw(t, "of")
		letters, lines := "", 0
		switch name {
		case "made", "generated", "loaded":
			if name == "made" {
				n := howLong(t, g)
				k.Keys = append(k.Keys[:0], krypto431.Key{Runes: []rune(alphabetical(n))})
				k.Keys[0].SetInstance(k)
			} else {
				must(t, k.GenerateKeys(1, nil), "generating")
				if len(k.Keys[0].Runes) < l {
					t.Fatalf("a key of %d letters where %d are wanted", len(k.Keys[0].Runes), l)
				}
			}
			if name == "loaded" {
				dir, done := scratch("c26")
				defer done()
				a := fileStation(kit.Geometry{G: g, K: l}, "SA6MWA", dir+"/s", krypto431.WithKeyColumns(kc), krypto431.WithColumns(w))
				key := k.Keys[0]
				key.SetInstance(a)
				a.Keys = append(a.Keys, key)
				must(t, a.Save(), "saving")
				b, err := opened(dir+"/s", thePFK)
				must(t, err, "opening")
				if len(b.Keys) != 1 || string(b.Keys[0].Runes) != string(key.Runes) {
					t.Fatalf("the key is not there after loading")
				}
				k = b
			}
			key := &k.Keys[0]
			letters = string(key.Runes)
			lines = judgeGroups(fail, key, func() string { return string(key.Runes) }, letters, g, kc, "a "+name+" key")
		case "message":
			n := howLong(t, g)
			m := krypto431.Message{CipherText: []rune(alphabetical(n))}
			m.SetInstance(k)
			letters = string(m.CipherText)
			lines = judgeGroups(fail, &m, func() string { return string(m.CipherText) }, letters, g, w, "a message")
		case "enciphered":
			k.KeyLength = max(l, 3*g+60)
			must(t, k.GenerateKeys(3, nil, "QJ"), "generating")
			m, err := k.NewTextMessage("QJ DE SA6MWA 012345 = " + rapid.StringMatching("[A-Za-zåäö]{1,30}").Draw(t, "text") + " = K")
			must(t, err, "enciphering")
			letters = string(m.CipherText)
			if letters == "" {
				t.Fatalf("nothing was enciphered")
			}
			lines = judgeGroups(fail, m, func() string { return string(m.CipherText) }, letters, g, w, "an enciphered message")
		}
		kit.Case(lines > 1 || len(letters)%g != 0 || letters == "", fmt.Sprintf("%s: %d letters in groups of %d, widths %d and %d: %d lines", name, len(letters), g, kc, w, lines), "drawn "+name)
	})
}
