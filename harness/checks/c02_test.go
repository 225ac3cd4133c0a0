package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// addIneligible puts keys which may not be chosen for the recipients into the
// store, some before and some after those already there.
func addIneligible(t *rapid.T, k *krypto431.Krypto431, g kit.Geometry, to []string, max int) {
	n := rapid.IntRange(0, max).Draw(t, "ineligible")
	for i := 0; i < n; i++ {
		kind := rapid.IntRange(0, 3).Draw(t, "kind")
		keepers := to
		if kind == 2 {
			keepers = []string{"FOREIGN"}
		}
		if kind == 3 && len(to) > 1 {
			keepers = to[1:]
		} else if kind == 3 {
			kind = 0
		}
		generate(t, k, 1, g.K, keepers...)
		last := len(k.Keys) - 1
		switch kind {
		case 0:
			k.Keys[last].Used = true
		case 1:
			k.Keys[last].Compromised = true
		}
		at := rapid.IntRange(0, last).Draw(t, "at")
		k.Keys[at], k.Keys[last] = k.Keys[last], k.Keys[at]
	}
}

func eligible(k *kit.KeySnap, g int, to []string) bool {
	if k.Used || k.Compromised || len([]rune(k.Id)) != g {
		return false
	}
	if len(to) == 0 {
		return len(k.Keepers) == 0
	}
	for _, r := range to {
		found := false
		for _, h := range k.Keepers {
			found = found || h == r
		}
		if !found {
			return false
		}
	}
	return true
}

func unsupportedRune(t *rapid.T) rune {
	return rapid.OneOf(
		rapid.SampledFrom([]rune{'ı', 'ſ', 'K', 'Å', '¤', '!', '=', '\n', '\t', 0, 'é', 'É', 'ü', '_', '(', '’', '漢', '🜁', 'ß', 'µ', '>', '*', '"', 0x00a0, 0xfffd, 'Ǆ', 'ǅ'}),
		rapid.Rune(),
	).Filter(func(r rune) bool { return !kit.Codable(r) }).Draw(t, "unsupported")
}

func TestC02(t *testing.T) {
	kit.Rule("stores of eligible keys for the recipients (at least twice what any text of the length can use) mixed with used, compromised and foreign ones, any supported text; and texts or stores which cannot succeed (unsupported characters at any place, empty text, too few keys, none eligible, unusable named key), followed by one that can; non-trivial = key change or ineligible keys present, or a failing attempt")
	kit.Check(t, "sufficient", 30000, 130000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geo(t, 90)
		k := kit.Station(g, "SA6MWA")
		to := kit.CallSet(t, 0, 3, "to", "SA6MWA")
		text := kit.Text(t, 1, maxText(g, 200), "text")
		n := len([]rune(text))
		generate(t, k, keysFor(g, n), g.K, to...)
		if g.G > 1 {
			addIneligible(t, k, g, to, 6)
		}
		var m *krypto431.Message
		var err error
		explicit := ""
		if rapid.IntRange(0, 3).Draw(t, "explicit") == 0 {
			var ids []string
			for _, ks := range kit.SnapKeys(k) {
				if eligible(&ks, g.G, to) {
					ids = append(ids, ks.Id)
				}
			}
			explicit = rapid.SampledFrom(ids).Draw(t, "key")
		}
		via := "Encipher"
		safe := !strings.ContainsAny(text, "=+") && strings.TrimSpace(text) != ""
		if safe && rapid.IntRange(0, 2).Draw(t, "via") == 0 {
			via = "NewTextMessage"
			args := []string{strings.Join(to, " ") + " DE SA6MWA 012345 = " + text + " = K"}
			if explicit != "" {
				args = append(args, explicit)
			}
			noPanic(t, "NewTextMessage", func() { m, err = k.NewTextMessage(args...) })
		} else {
			m = kit.Msg(k, text, to...)
			m.KeyId = []rune(explicit)
			noPanic(t, "Encipher", func() { err = m.Encipher() })
		}
		if err != nil {
			t.Fatalf("%s of %q (%d characters) to %v with %d keys of %d letters, groups of %d, fails: %v", via, text, n, to, len(k.Keys), g.Len(), g.G, err)
		}
		if len(m.CipherText) == 0 {
			t.Fatalf("no ciphertext")
		}
		used := 0
		for i := range k.Keys {
			if k.Keys[i].Used {
				used++
			}
		}
		kit.Case(len(m.CipherText) > g.Len() || used < len(k.Keys), fmt.Sprintf("%s G=%d K=%d keys=%d key=%q to=%v %q", via, g.G, g.K, len(k.Keys), explicit, to, short(text)), via, map[bool]string{true: "several keys", false: "one key"}[len(m.CipherText) > g.Len()])
	})
	kit.Check(t, "large", 384, 2400, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.BigGeo(t)
		to := kit.CallSet(t, 0, 2, "to", "SA6MWA")
		k := kit.Station(g, "SA6MWA")
		text := drawBig(t, k, g, to...)
		what := fmt.Sprintf("%d characters (%q) with %d keys of %d in groups of %d", len([]rune(text)), short(text), len(k.Keys), g.Len(), g.G)
		before := kit.SnapKeys(k)
		bad := text + string(unsupportedRune(t))
		m := kit.Msg(k, bad, to...)
		var err error
		noPanic(t, "Encipher", func() { err = m.Encipher() })
		if err == nil || len(m.CipherText) > 0 {
			t.Fatalf("%s and an unsupported character: %v, ciphertext of %d letters", what, err, len(m.CipherText))
		}
		if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
			t.Fatalf("%s and an unsupported character failed, but changed the keys: %s", what, d)
		}
		m = kit.Msg(k, text, to...)
		noPanic(t, "Encipher", func() { err = m.Encipher() })
		if err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		kit.Case(true, what, fmt.Sprintf("large: about %d keys", len(m.CipherText)/g.Len()/50*50))
	})
	kit.Check(t, "failing", 36000, 150000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geo(t, 60)
		k := kit.Station(g, "SA6MWA")
		to := kit.CallSet(t, 0, 3, "to", "SA6MWA")
		kind := rapid.SampledFrom([]string{"unsupported", "unsupported", "empty", "fewkeys", "nokeys", "foreign", "badkey", "badkey", "maybe"}).Draw(t, "kind")
		mustFail := true
		text := kit.Text(t, 1, maxText(g, 150), "text")
		n := len([]rune(text))
		nkeys := min(keysFor(g, n), 20)
		explicit := ""
		switch kind {
		case "unsupported":
			r := []rune(text)
			for i, c := 0, rapid.IntRange(1, 2).Draw(t, "bad"); i < c; i++ {
				at := rapid.IntRange(0, len(r)).Draw(t, "badAt")
				r = append(r[:at], append([]rune{unsupportedRune(t)}, r[at:]...)...)
			}
			text = string(r)
			nkeys = rapid.IntRange(0, nkeys).Draw(t, "keys")
		case "empty":
			text = ""
			nkeys = rapid.IntRange(0, 3).Draw(t, "keys")
		case "fewkeys":
			nkeys = rapid.IntRange(0, 5).Draw(t, "keys")
			for len([]rune(text)) <= nkeys*g.Len() {
				text += text + "ab"
			}
		case "nokeys":
			nkeys = 0
		case "foreign":
			nkeys = rapid.IntRange(0, 6).Draw(t, "keys")
		case "maybe":
			mustFail = false
			nkeys = rapid.IntRange(0, max(1, nkeys/2)).Draw(t, "keys")
		}
		switch kind {
		case "foreign":
			if len(to) == 0 {
				generate(t, k, nkeys, g.K, "FOREIGN")
			} else {
				generate(t, k, nkeys, g.K, rapid.SampledFrom([]string{"", "FOREIGN", strings.Join(to[1:], ",")}).Draw(t, "keepers"))
			}
		default:
			generate(t, k, nkeys, g.K, to...)
		}
		if g.G > 1 {
			addIneligible(t, k, g, to, 4)
		}
		if kind == "badkey" {
			var ids []string
			for i := range k.Keys {
				if k.Keys[i].Used || k.Keys[i].Compromised {
					ids = append(ids, string(k.Keys[i].Id))
				}
			}
			ids = append(ids, strings.Repeat("Q", g.G+1))
			if g.G > 2 { // ids of the store are hardly this
				ids = append(ids, strings.Repeat("Q", g.G))
			}
			if g.G > 1 {
				ids = append(ids, strings.Repeat("Q", g.G-1))
			}
			explicit = rapid.SampledFrom(ids).Draw(t, "key")
			if ks := findKey(kit.SnapKeys(k), explicit); ks != nil && !ks.Used && !ks.Compromised {
				mustFail = false
			}
		} else if kind != "fewkeys" && len(k.Keys) > 0 && rapid.IntRange(0, 3).Draw(t, "explicit") == 0 {
			// A usable key is named, but the message can not be enciphered.
			for i := range k.Keys {
				if !k.Keys[i].Used && !k.Keys[i].Compromised {
					explicit = string(k.Keys[i].Id)
					if kind == "foreign" || kind == "nokeys" {
						mustFail = false // naming a key overrides its keepers
					}
				}
			}
		} else if kind == "nokeys" || kind == "foreign" {
			for _, ks := range kit.SnapKeys(k) {
				if eligible(&ks, g.G, to) {
					mustFail = false
				}
			}
		}
		before := kit.SnapKeys(k)
		var m *krypto431.Message
		var err error
		via := "Encipher"
		tame := !strings.ContainsAny(text, "=+\n\r") && strings.TrimSpace(text) == text && text != "" && !strings.ContainsAny(text, "0123456789:\u0085\u2028\u2029\v\f")
		if tame && rapid.IntRange(0, 2).Draw(t, "via") == 0 {
			via = "NewTextMessage"
			args := []string{strings.Join(to, " ") + " DE SA6MWA 012345 = " + text + " = K"}
			if explicit != "" {
				args = append(args, explicit)
			}
			noPanic(t, fmt.Sprintf("NewTextMessage(%q)", args), func() { m, err = k.NewTextMessage(args...) })
			if kind == "unsupported" && err == nil {
				// parsing may drop leading or trailing blanks of any kind
				mustFail = false
				for _, r := range string(m.PlainText) {
					if !kit.Codable(r) {
						t.Fatalf("enciphered %q", string(m.PlainText))
					}
				}
			}
		} else {
			m = kit.Msg(k, text, to...)
			m.KeyId = []rune(explicit)
			noPanic(t, fmt.Sprintf("Encipher of %q", text), func() { err = m.Encipher() })
			if err != nil && len(m.CipherText) > 0 {
				t.Fatalf("Encipher of %q failed (%v) but left ciphertext %q", text, err, string(m.CipherText))
			}
		}
		if mustFail && err == nil {
			t.Fatalf("%s: %q to %v (key %q) was enciphered as %q although it can not be, keys %+v", kind, text, to, explicit, string(m.CipherText), before)
		}
		outcome := "succeeded"
		if err != nil {
			outcome = "failed"
			if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
				t.Fatalf("%s of %q to %v (key %q) failed (%v) but changed the keys: %s", via, text, to, explicit, err, d)
			}
			// nothing was consumed, so something short can still be sent
			var can bool
			for i := range before {
				can = can || eligible(&before[i], g.G, to)
			}
			if can {
				m2 := kit.Msg(k, "A", to...)
				noPanic(t, "Encipher", func() { err = m2.Encipher() })
				if err != nil {
					t.Fatalf("after the failure no message can be enciphered: %v", err)
				}
			}
		}
		kit.Case(outcome == "failed", fmt.Sprintf("%s %s %s G=%d K=%d keys=%d key=%q to=%v %q", kind, via, outcome, g.G, g.K, len(before), explicit, to, short(text)), kind+" "+outcome)
	})
	kit.Check(t, "exhaust", 1500, 6000, func(t *rapid.T) {
		// send until the store refuses: each refusal leaves it as it was
		kit.Entropy(kit.Seed(t))
		g := kit.Geo(t, 40)
		k := kit.Station(g, "SA6MWA")
		generate(t, k, rapid.IntRange(1, 8).Draw(t, "keys"), g.K)
		refused, sent := 0, 0
		for i := 0; i < 14 && refused < 3; i++ {
			text := kit.Text(t, 1, 60, "text")
			before := kit.SnapKeys(k)
			m := kit.Msg(k, text)
			var err error
			noPanic(t, "Encipher", func() { err = m.Encipher() })
			if err == nil {
				sent++
				continue
			}
			refused++
			if len(m.CipherText) > 0 {
				t.Fatalf("refused (%v) but left ciphertext %q", err, string(m.CipherText))
			}
			if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
				t.Fatalf("refusing %q (%v) changed the keys: %s", text, err, d)
			}
		}
		kit.Case(refused > 0 && sent > 0, fmt.Sprintf("exhaust G=%d K=%d keys=%d sent=%d refused=%d", g.G, g.K, len(k.Keys), sent, refused), "sent until refused")
	})
}
