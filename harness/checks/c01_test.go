package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func TestC01(t *testing.T) {
	kit.Rule("generated stores (group sizes 1-12, keys of one or several lengths with decoy keys between them), one to three texts of supported characters enciphered in turn, each deciphered by another station from shuffled copies of the keys, both directly and from its printed groups; non-trivial = text of at least two characters with a table or case switch, or chained over more than one key")
	kit.Check(t, "roundtrip", 18000, 160000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geo(t, 120)
		sender := kit.Station(g, "SA6MWA")
		to := kit.CallSet(t, 0, 3, "to", "SA6MWA")
		limit := 120
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			limit = 900
		}
		max := maxText(g, limit)
		nmsg := rapid.IntRange(1, 3).Draw(t, "messages")
		text := make([]string, nmsg)
		total := 0
		for i := range text {
			if i > 0 {
				max = maxText(g, 12)
			}
			text[i] = kit.Text(t, 1, max, "text")
			total += len([]rune(text[i]))
		}
		mixed := rapid.Bool().Draw(t, "mixedLengths")
		need := keysFor(g, total) + 2*nmsg
		if g.G == 1 {
			need = min(need, 24)
			mixed = false
		}
		for made := 0; made < need; {
			n := need - made
			length := g.K
			if mixed {
				n = rapid.IntRange(1, n).Draw(t, "batch")
				length = g.K + rapid.IntRange(0, 60).Draw(t, "longer")
			}
			keepers := append([]string{}, to...)
			if len(to) > 0 && rapid.Bool().Draw(t, "extraKeeper") {
				keepers = append(keepers, "EXTRA")
			}
			generate(t, sender, n, length, keepers...)
			made += n
			if mixed && rapid.IntRange(0, 2).Draw(t, "decoy") == 0 {
				generate(t, sender, 1, g.K, "DECOY")
			}
		}
		for i := range text {
			m := kit.Msg(sender, text[i], to...)
			if err := m.Encipher(); err != nil {
				kit.Case(false, "not enciphered", "not enciphered: "+err.Error())
				return // whether it must succeed is another property
			}
			cipher, keyid := string(m.CipherText), string(m.KeyId)
			if !lettersOnly(cipher) {
				t.Fatalf("ciphertext of %q has other characters than A-Z: %q", text[i], cipher)
			}
			if len(cipher) == 0 || len(cipher)%g.G != 0 {
				t.Fatalf("ciphertext of %q is %d letters, not whole groups of %d", text[i], len(cipher), g.G)
			}
			if string(m.PlainText) != text[i] {
				t.Fatalf("enciphering changed the text from %q to %q", text[i], string(m.PlainText))
			}
			idx := make([]int, len(sender.Keys))
			for j := range idx {
				idx[j] = j
			}
			perm := rapid.Permutation(idx).Draw(t, "order")
			rcv := kit.Receiver(g, "QJ", sender.Keys, perm)
			rcv.KeyLength = rapid.IntRange(20, 200).Draw(t, "receiverKeyLength")
			in := &krypto431.Message{CipherText: []rune(cipher), KeyId: []rune(keyid)}
			in.SetInstance(rcv)
			if err := in.Decipher(); err != nil {
				t.Fatalf("%q enciphered as %q with %s does not decipher: %v", text[i], cipher, keyid, err)
			}
			if string(in.PlainText) != text[i] {
				t.Fatalf("%q enciphered as %q deciphers to %q", text[i], cipher, string(in.PlainText))
			}
			// the same as received in groups
			rcv2 := kit.Receiver(g, "QJ", sender.Keys, perm)
			received := keyid + " " + grouped(cipher, g.G)
			switch rapid.IntRange(0, 3).Draw(t, "received") {
			case 0:
				received = strings.ToLower(received)
			case 1:
				received = strings.ReplaceAll(received, " ", "\n")
			case 2:
				received = "= " + received + " ="
			}
			in2 := &krypto431.Message{PlainText: []rune(received)}
			in2.SetInstance(rcv2)
			if err := in2.TryDecipherPlainText(); err != nil || string(in2.PlainText) != text[i] {
				t.Fatalf("%q received as %q deciphers to %q (%v)", text[i], received, string(in2.PlainText), err)
			}
			d, err := kit.ModelSheet(g.G, kit.KeyMap(kit.SnapKeys(sender))).Decipher(keyid, cipher)
			keys := "unknown"
			if err == nil {
				keys = fmt.Sprint(min(len(d.Used), 4))
			}
			kit.Case(err == nil && (len(d.Used) > 1 || len([]rune(text[i])) > 1 && len(d.Coded) > len([]rune(text[i]))),
				fmt.Sprintf("G=%d K=%d to=%v %q -> %s %s", g.G, g.K, to, short(text[i]), keyid, short(cipher)),
				"keys used (4=4 or more): "+keys)
		}
	})
	kit.Check(t, "large", 288, 3000, func(t *rapid.T) {
		// long keys, large groups, long texts, many key changes
		kit.Entropy(kit.Seed(t))
		g := kit.BigGeo(t)
		to := kit.CallSet(t, 0, 2, "to", "SA6MWA")
		sender := kit.Station(g, "SA6MWA")
		text := drawBig(t, sender, g, to...)
		m := kit.Msg(sender, text, to...)
		if err := m.Encipher(); err != nil {
			kit.Case(false, "not enciphered", "not enciphered: "+err.Error())
			return
		}
		cipher, keyid := string(m.CipherText), string(m.KeyId)
		what := fmt.Sprintf("%d characters (%q) enciphered in groups of %d with keys of %d", len([]rune(text)), short(text), g.G, g.Len())
		if !lettersOnly(cipher) || len(cipher) == 0 || len(cipher)%g.G != 0 {
			t.Fatalf("%s: the ciphertext, %d letters, is not whole groups of letters", what, len(cipher))
		}
		var perm []int
		for i := range sender.Keys {
			perm = append(perm, len(sender.Keys)-1-i)
		}
		for i := 0; i < 2; i++ {
			in := &krypto431.Message{CipherText: []rune(cipher), KeyId: []rune(keyid)}
			var err error
			if i == 0 {
				in.SetInstance(kit.Receiver(g, "QJ", sender.Keys, perm))
				err = in.Decipher()
			} else {
				in = &krypto431.Message{PlainText: []rune(keyid + " " + grouped(cipher, g.G))}
				in.SetInstance(kit.Receiver(g, "QJ", sender.Keys, perm))
				err = in.TryDecipherPlainText()
			}
			if err != nil || string(in.PlainText) != text {
				t.Fatalf("%s: deciphers to %d characters %q (%v)", what, len(in.PlainText), short(string(in.PlainText)), err)
			}
		}
		kit.Case(true, what, fmt.Sprintf("large: about %d keys", len(cipher)/g.Len()/50*50))
	})
	kit.Enum(t, "characters", func(t *testing.T, fail func(string, ...any)) {
		// every ordered pair of supported characters in both cases
		kit.Entropy(7)
		g := kit.Geometry{G: 5, K: 40}
		var all []rune
		for _, c := range kit.Supported() {
			all = append(all, c)
			if l := []rune(strings.ToLower(string(c)))[0]; l != c {
				all = append(all, l)
			}
		}
		k := kit.Station(g, "AB")
		must(t, k.GenerateKeys(1, nil), "GenerateKeys")
		r := kit.Receiver(g, "QJ", k.Keys, []int{0})
		n := int64(0)
		for _, a := range all {
			for _, b := range all {
				s := string([]rune{a, b})
				k.Keys[0].Used = false
				m := kit.Msg(k, s)
				if err := m.Encipher(); err != nil {
					fail("%q does not encipher: %v", s, err)
				}
				in := &krypto431.Message{CipherText: m.CipherText, KeyId: m.KeyId}
				in.SetInstance(r)
				if err := in.Decipher(); err != nil || string(in.PlainText) != s {
					fail("%q deciphers to %q (%v)", s, string(in.PlainText), err)
				}
				kit.Case(true, "pair "+s)
				n++
			}
		}
		kit.Extra("character_pairs_exhaustive", n)
	})
}
