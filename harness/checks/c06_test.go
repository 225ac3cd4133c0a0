package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func TestC06(t *testing.T) {
	kit.Rule("program to hand: generated texts and key geometries, the printed key sheets are parsed (groups, table, legend) and the groups deciphered by a reference implementation of the paper procedure with nothing else; hand to program: the reference coder adds superfluous switches, early key changes and padding at random; non-trivial = a switch, key change or padding is part of the coded text")
	kit.Check(t, "toHand", 12500, 80000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geo(t, 150)
		k := kit.Station(g, "SA6MWA", krypto431.WithColumns(rapid.IntRange(85, 140).Draw(t, "columns")), krypto431.WithKeyColumns(g.G+rapid.IntRange(0, 50).Draw(t, "keyColumns")))
		to := kit.CallSet(t, 0, 2, "to", "SA6MWA")
		text := kit.Text(t, 1, maxText(g, 80), "text")
		generate(t, k, min(keysFor(g, len([]rune(text))), 60), g.K, to...)
		// sheets are printed before the message is sent
		var printed string
		if rapid.Bool().Draw(t, "each") {
			for i := range k.Keys {
				printed += k.Keys[i].String() + "\n"
			}
		} else {
			printed = k.KeysAsText(kit.All)
		}
		m := kit.Msg(k, text, to...)
		if err := m.Encipher(); err != nil {
			kit.Case(false, "not enciphered: "+err.Error(), "not enciphered")
			return
		}
		var sheets []*sheet
		for _, p := range splitSheets(printed) {
			s, err := parseSheet(p)
			if err != nil {
				t.Fatalf("sheet can not be used: %v\n%s", err, p)
			}
			sheets = append(sheets, s)
		}
		h := handSheet(g.G, sheets)
		gr, err := m.Groups()
		must(t, err, "Groups")
		d, err := h.Decipher(string(m.KeyId), strings.ReplaceAll(string(*gr), " ", ""))
		if err != nil || d.Text != text {
			t.Fatalf("%q enciphered as %s %s is deciphered by hand as %q (%v)", text, string(m.KeyId), string(*gr), d.Text, err)
		}
		kit.Case(len(d.Coded) > len([]rune(text)), fmt.Sprintf("to hand G=%d K=%d %q coded %s", g.G, g.K, short(text), short(d.Coded)), fmt.Sprintf("to hand, %d keys", min(3, len(d.Used))))
	})
	kit.Check(t, "large", 240, 1500, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.BigGeo(t)
		k := kit.Station(g, "SA6MWA")
		k.KeyColumns = max(k.KeyColumns, g.G)
		text := drawBig(t, k, g)
		n := len([]rune(text))
		snap := kit.SnapKeys(k)
		what := fmt.Sprintf("%d characters (%q) in groups of %d with keys of %d", n, short(text), g.G, g.Len())
		// by hand with the printed keys
		var sheets []*sheet
		for _, p := range splitSheets(k.KeysAsText(kit.All)) {
			s, err := parseSheet(p)
			if err != nil {
				t.Fatalf("sheet can not be used: %v\n%s", err, p)
			}
			sheets = append(sheets, s)
		}
		m := kit.Msg(k, text)
		if err := m.Encipher(); err != nil {
			kit.Case(false, "not enciphered: "+err.Error(), "not enciphered")
			return
		}
		d, err := handSheet(g.G, sheets).Decipher(string(m.KeyId), string(m.CipherText))
		if err != nil || d.Text != text {
			t.Fatalf("%s: deciphered by hand as %q (%v)", what, short(d.Text), err)
		}
		// and the other way
		r := kit.Station(g, "QJ")
		r.Keys = nil
		for i := range k.Keys {
			x := kit.CloneKey(&k.Keys[i], r)
			x.Used = false
			r.Keys = append(r.Keys, x)
		}
		at := rapid.IntRange(0, len(snap)-1).Draw(t, "first")
		snap = append(append([]kit.KeySnap{}, snap[at:]...), snap[:at]...)
		c := kit.ModelSheet(g.G, kit.KeyMap(snap)).NewCoder(snap[0].Id)
		used := 1
		for _, x := range text {
			if c.Left() < g.G+6 {
				c.ChangeKey(snap[used].Id)
				used++
			}
			c.Put(x)
		}
		c.Pad()
		in := &krypto431.Message{CipherText: []rune(c.Cipher()), KeyId: []rune(snap[0].Id)}
		in.SetInstance(r)
		if len(c.Cipher())%g.G != 0 {
			return
		}
		if err := in.Decipher(); err != nil || string(in.PlainText) != text {
			t.Fatalf("%s: coded by hand with %d keys, deciphered as %d characters %q (%v)", what, used, len(in.PlainText), short(string(in.PlainText)), err)
		}
		kit.Case(true, what, fmt.Sprintf("large: about %d keys", used/50*50))
	})
	kit.Check(t, "fromHand", 30000, 200000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 1, 2, 3, 4, 7, 11}).Draw(t, "groupSize"), K: rapid.IntRange(20, 60).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "batches"); i < n; i++ {
			generate(t, k, rapid.IntRange(1, 3).Draw(t, "keys"), g.K+rapid.IntRange(0, 15).Draw(t, "longer"))
		}
		snap := kit.SnapKeys(k)
		order := rapid.Permutation(snap).Draw(t, "order")
		model := kit.ModelSheet(g.G, kit.KeyMap(snap))
		c := model.NewCoder(order[0].Id)
		order = order[1:]
		reserve := g.G + 2
		superfluous, early := 0, 0
		room := func(n int) bool { // ensures n letters and a key change fit
			for c.Left() < n+reserve {
				if len(order) == 0 {
					return false
				}
				c.ChangeKey(order[0].Id)
				order = order[1:]
			}
			return true
		}
		var sent []rune
		for _, r := range kit.Text(t, 1, 60, "text") {
			for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "extra"); i < n; i++ {
				if !room(2) {
					break
				}
				superfluous++
				switch rapid.IntRange(0, 2).Draw(t, "what") {
				case 0:
					c.Switch()
				case 1:
					c.ToggleCase()
				case 2:
					if len(order) > 0 && rapid.IntRange(0, 3).Draw(t, "early") == 0 {
						c.ChangeKey(order[0].Id)
						order = order[1:]
						early++
					}
				}
			}
			if !room(4) {
				break
			}
			c.Put(r)
			sent = append(sent, r)
		}
		if len(sent) == 0 {
			return
		}
		text := string(sent)
		c.Pad()
		for len(c.Cipher()) < g.G || rapid.IntRange(0, 5).Draw(t, "more") == 0 {
			// a whole group of Z more
			if c.Left() < g.G {
				break
			}
			for i := 0; i < g.G; i++ {
				c.Switch()
			}
		}
		cipher, keyid := c.Cipher(), snap[0].Id
		keyid = c.Used[0]
		if len(cipher) < g.G || len(cipher)%g.G != 0 {
			return
		}
		var m *krypto431.Message
		var err error
		via := rapid.SampledFrom([]string{"Decipher", "TryDecipherPlainText", "NewTextMessage"}).Draw(t, "via")
		noPanic(t, via, func() {
			switch via {
			case "Decipher":
				m = &krypto431.Message{CipherText: []rune(cipher), KeyId: []rune(keyid)}
				m.SetInstance(k)
				err = m.Decipher()
			case "TryDecipherPlainText":
				m = &krypto431.Message{PlainText: []rune(keyid + " " + grouped(cipher, g.G))}
				m.SetInstance(k)
				err = m.TryDecipherPlainText()
			case "NewTextMessage":
				m, err = k.NewTextMessage("SA6MWA DE QJ 012345 = " + keyid + " " + grouped(cipher, g.G) + " = K")
			}
		})
		if err != nil || string(m.PlainText) != text {
			t.Fatalf("%s: %q coded by hand with %v (letters per key %v) as %q is deciphered as %q (%v)", via, text, c.Used, c.Parts, cipher, string(m.PlainText), err)
		}
		d, err := model.Decipher(keyid, cipher)
		if err != nil || d.Text != text {
			t.Fatalf("HARNESS ERROR: model deciphers %q as %q (%v)", text, d.Text, err)
		}
		kit.Case(superfluous > 0 || len(c.Used) > 1, fmt.Sprintf("from hand G=%d %q coded %s keys %v", g.G, short(text), short(d.Coded), c.Used), fmt.Sprintf("from hand, %d keys", min(3, len(c.Used))), map[bool]string{true: "early key change"}[early > 0])
	})
}
