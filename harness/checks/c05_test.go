package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// hostileStore fills a store with keys of group-sized ids, some of them used,
// too short, empty or holding other characters than letters.
func hostileStore(t *rapid.T, k *krypto431.Krypto431, g kit.Geometry) {
	n := rapid.IntRange(0, 6).Draw(t, "keys")
	ids := map[string]bool{}
	for i := 0; i < n; i++ {
		id := kit.Letters(t, g.G, "id")
		if ids[id] {
			continue
		}
		ids[id] = true
		generate(t, k, 1, g.K, "QJ")
		key := &k.Keys[len(k.Keys)-1]
		key.Id = []rune(id)
		key.Used = rapid.IntRange(0, 3).Draw(t, "used") == 0
		key.Compromised = rapid.IntRange(0, 4).Draw(t, "compromised") == 0
		switch rapid.IntRange(0, 9).Draw(t, "state") {
		case 0:
			key.Runes = key.Runes[:rapid.IntRange(0, len(key.Runes)-1).Draw(t, "cut")]
		case 1:
			key.Runes[rapid.IntRange(0, len(key.Runes)-1).Draw(t, "at")] = rapid.SampledFrom([]rune{'a', '[', '@', 0, -1, 'Å', ' '}).Draw(t, "bad")
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "wiped") == 0 {
		generate(t, k, 1, g.K)
		k.Keys[len(k.Keys)-1].ZeroWipe()
	}
}

// hostileCipher draws a key id and ciphertext which deciphers to a coded text
// of the given kind, with mutations.
func hostileCipher(t *rapid.T, k *krypto431.Krypto431, g kit.Geometry) (keyid, cipher, kind string) {
	snap := kit.SnapKeys(k)
	var ids []string
	for _, s := range snap {
		if s.Id != "" {
			ids = append(ids, s.Id)
		}
	}
	if len(ids) == 0 {
		return kit.Letters(t, g.G, "keyid"), kit.Letters(t, rapid.IntRange(0, 30).Draw(t, "n"), "cipher"), "no keys"
	}
	keys := kit.KeyMap(snap)
	keyid = rapid.SampledFrom(ids).Draw(t, "keyid")
	// a coded text: characters, switches, key changes (also to missing keys),
	// anything
	kind = "coded"
	var coded strings.Builder
	coded.WriteString(kit.Letters(t, 1, "first"))
	n := rapid.IntRange(1, 40).Draw(t, "pieces")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 14).Draw(t, "piece") {
		case 0:
			coded.WriteString("Z")
		case 1:
			coded.WriteString("ZX")
		case 2, 3:
			coded.WriteString("ZY" + rapid.SampledFrom(ids).Draw(t, "next"))
			kind = "key change"
		case 4:
			if rapid.IntRange(0, 3).Draw(t, "missing") == 0 {
				coded.WriteString("ZY" + kit.Letters(t, g.G, "nextId"))
				kind = "missing key"
			}
		case 5:
			if rapid.IntRange(0, 5).Draw(t, "binary") == 0 {
				coded.WriteString("ZW")
				kind = "binary switch"
			}
		default:
			coded.WriteString(kit.Letters(t, rapid.IntRange(1, 4).Draw(t, "letters"), "letters"))
		}
	}
	// encipher with the keys as they are named on the way
	var out []byte
	key, pos := keys[keyid], 0
	table, id, inID := 0, "", false
	for _, c := range []byte(coded.String()) {
		kc := byte('A')
		if pos < len(key) {
			kc = key[pos]
		}
		if kc < 'A' || kc > 'Z' {
			kc = 'A'
		}
		pos++
		out = append(out, kit.Third(c, kc))
		switch {
		case inID:
			id += string(c)
			if len(id) == g.G {
				key, pos, table, id, inID = keys[id], 0, 0, "", false
			}
		case c == 'Z':
			table = 1 - table
		case c == 'Y' && table == 1:
			inID = true
		}
	}
	cipher = string(out)
	switch rapid.IntRange(0, 9).Draw(t, "mutation") {
	case 0:
		cipher = cipher[:rapid.IntRange(0, len(cipher)).Draw(t, "cut")]
		kind += ", cut"
	case 1:
		b := []byte(cipher)
		b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = byte(rapid.IntRange('A', 'Z').Draw(t, "to"))
		cipher = string(b)
		kind += ", one letter changed"
	case 2:
		r := []rune(cipher)
		r[rapid.IntRange(0, len(r)-1).Draw(t, "at")] = rapid.OneOf(rapid.SampledFrom([]rune{'a', '[', '@', ' ', 'Å', 0}), rapid.Rune()).Draw(t, "toAny")
		cipher = string(r)
		kind += ", other character"
	case 3:
		keyid = rapid.OneOf(rapid.StringN(0, 8, -1), rapid.Just(kit.Letters(t, g.G, "other")), rapid.Just(strings.ToLower(keyid))).Draw(t, "otherId")
		kind += ", other key id"
	case 4:
		cipher = kit.Letters(t, rapid.IntRange(0, 60).Draw(t, "n"), "random")
		kind = "random letters"
	}
	return
}

// consumed checks the keys after an attempt to decipher.
func checkConsumed(t *rapid.T, k *krypto431.Krypto431, before []kit.KeySnap, g int, keyid, cipher string, ok bool, what string) kit.Decoded {
	want := append([]kit.KeySnap{}, before...)
	d, err := kit.ModelSheet(g, kit.KeyMap(before)).Decipher(strings.ToUpper(strings.TrimSpace(keyid)), cipher)
	if ok {
		for _, id := range d.Used {
			for i := range want {
				if want[i].Id == id {
					want[i].Used = true
					break
				}
			}
		}
	}
	if diff := kit.Diff(kit.SnapKeys(k), want); diff != "" {
		t.Fatalf("%s (success: %v, named keys %v, by hand: %v) leaves the keys wrong: %s", what, ok, d.Used, err, diff)
	}
	return d
}

func TestC05(t *testing.T) {
	kit.Rule("ciphertexts made from generated coded texts with switches, key changes to present, missing, short and damaged keys and binary switches, cut, altered or random; received as ciphertext, as text (every spelling, any other text) and as radiograms; keys consumed are determined by deciphering by hand over a snapshot; non-trivial = at least one key of the store was reached before failing, several keys named, or dry-run question with answer yes")
	kit.Check(t, "decipher", 50000, 600000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 1, 2, 3}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		hostileStore(t, k, g)
		keyid, cipher, kind := hostileCipher(t, k, g)
		before := kit.SnapKeys(k)
		m := &krypto431.Message{KeyId: []rune(keyid), CipherText: []rune(cipher), PlainText: []rune(rapid.SampledFrom([]string{"", "OLD"}).Draw(t, "old"))}
		m.SetInstance(k)
		var err error
		what := fmt.Sprintf("deciphering %q with key %q", cipher, keyid)
		noPanic(t, what, func() { err = m.Decipher() })
		d := checkConsumed(t, k, before, g.G, keyid, cipher, err == nil, what)
		kit.Case(len(d.Used) > 1 || (err != nil && len(d.Used) > 0), fmt.Sprintf("%s keys=%d %s %s err=%v", kind, len(before), keyid, short(cipher), err), kind, map[bool]string{true: "deciphered", false: "refused"}[err == nil])
	})
	kit.Check(t, "chained", 960, 12000, func(t *rapid.T) {
		// many keys named one after the other
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{3, 4, 5, 8}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		n := rapid.OneOf(rapid.IntRange(2, 40), rapid.IntRange(40, 300)).Draw(t, "keys")
		must(t, k.GenerateKeys(n, nil, "QJ"), "generating")
		keys := kit.KeyMap(kit.SnapKeys(k))
		var ids []string
		for i := range k.Keys {
			ids = append(ids, string(k.Keys[i].Id))
		}
		named := rapid.IntRange(2, n).Draw(t, "named")
		broken := rapid.SampledFrom([]string{"", "", "", "end", "middle", "cut"}).Draw(t, "broken")
		at := rapid.IntRange(1, named-1).Draw(t, "at")
		order := rapid.Permutation(ids).Draw(t, "order")[:named]
		var out []byte
		for i, id := range order {
			coded := kit.Letters(t, rapid.IntRange(1, 3).Draw(t, "letters"), "text")
			coded = strings.NewReplacer("Z", "A", "Q", "B").Replace(coded)
			if i+1 < named {
				next := order[i+1]
				if i+1 == at && broken == "middle" {
					for keys[next] != "" {
						next = kit.Letters(t, g.G, "missing")
					}
				}
				coded += "ZY" + next
			} else if broken == "end" {
				coded += "ZW"
			} else if broken == "cut" {
				coded += "ZY"
			}
			for j := range coded {
				out = append(out, kit.Third(coded[j], keys[id][j]))
			}
		}
		before := kit.SnapKeys(k)
		m := &krypto431.Message{KeyId: []rune(order[0]), CipherText: []rune(string(out))}
		m.SetInstance(k)
		var err error
		what := fmt.Sprintf("deciphering a text of %d keys (%q)", named, broken)
		radiogram := rapid.Bool().Draw(t, "radiogram")
		noPanic(t, what, func() {
			if radiogram {
				m, err = k.NewTextMessage("SA6MWA DE QJ 012345 = " + order[0] + " " + string(out) + " = K")
				if err == nil && string(m.KeyId) == "" {
					err = fmt.Errorf("kept as received")
				}
				return
			}
			err = m.Decipher()
		})
		if broken == "" && err != nil || broken == "middle" && err == nil {
			t.Fatalf("%s: %v", what, err)
		}
		checkConsumed(t, k, before, g.G, order[0], string(out), err == nil, what)
		kit.Case(named > 3, fmt.Sprintf("%d of %d keys named, %q, as a radiogram: %v: %v", named, n, broken, radiogram, err), "chained", "chained "+broken)
	})
	kit.Check(t, "recognise", 35000, 400000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 1, 2, 3}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		hostileStore(t, k, g)
		keyid, cipher, kind := hostileCipher(t, k, g)
		text := keyid + " " + grouped(cipher, g.G)
		switch rapid.IntRange(0, 7).Draw(t, "form") {
		case 0:
			text = strings.ToLower(text)
		case 1:
			text = strings.ReplaceAll(text, " ", rapid.SampledFrom([]string{"\n", "\r\n", "\t", "", " = ", "=", "\u00a0"}).Draw(t, "sep"))
		case 2:
			text = kit.MixCase(t, text, "text")
		case 3:
			r := []rune(text)
			at := rapid.IntRange(0, len(r)).Draw(t, "at")
			text = string(r[:at]) + rapid.SampledFrom([]string{"=", " ", "1", "Å", ".", "-", "å", "\n", "é", "["}).Draw(t, "insert") + string(r[at:])
		case 4:
			text = keyid
		case 5:
			text = rapid.StringOfN(rapid.SampledFrom([]rune("ABCXYZabc =\n.1Å")), 0, 30, -1).Draw(t, "text")
			kind = "any text"
		}
		if strings.ContainsAny(text, "ıſ") {
			return
		}
		before := kit.SnapKeys(k)
		m := &krypto431.Message{Id: []rune("AAAA"), PlainText: []rune(text), CipherText: []rune(rapid.SampledFrom([]string{"", "OLDCI"}).Draw(t, "oldCipher")), Radiogram: []rune("radiogram"), From: []rune("QJ"), Recipients: kit.Runes("SA6MWA")}
		m.SetInstance(k)
		mb := kit.SnapMsg(m)
		// the question
		filtered, plain := "", true
		for _, r := range text {
			switch {
			case r == '=' || squeeze(string(r)) == "":
			case r >= 'A' && r <= 'Z', r >= 'a' && r <= 'z':
				filtered += strings.ToUpper(string(r))
			default:
				plain = false
			}
		}
		want := plain && len(filtered) >= 2*g.G && findKey(before, filtered[:g.G]) != nil
		var err error
		noPanic(t, fmt.Sprintf("dry run on %q", text), func() { err = m.TryDecipherPlainText(true) })
		if (err == nil) != want {
			t.Fatalf("dry run on %q with groups of %d and keys %v answers %v, want yes=%v", text, g.G, kit.KeyMap(before), err, want)
		}
		if d := kit.Diff(kit.SnapMsg(m), mb); d != "" {
			t.Fatalf("dry run on %q changed the message: %s", text, d)
		}
		if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
			t.Fatalf("dry run on %q changed the keys: %s", text, d)
		}
		noPanic(t, fmt.Sprintf("recognising %q", text), func() {
			if rapid.Bool().Draw(t, "arg") {
				err = m.TryDecipherPlainText(false)
			} else {
				err = m.TryDecipherPlainText()
			}
		})
		if err != nil {
			if d := kit.Diff(kit.SnapMsg(m), mb); d != "" {
				t.Fatalf("failing (%v) to recognise %q changed the message: %s", err, text, d)
			}
			if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
				t.Fatalf("failing (%v) to recognise %q changed the keys: %s", err, text, d)
			}
		} else {
			if !want {
				t.Fatalf("%q was taken for ciphertext: key %q cipher %q", text, string(m.KeyId), string(m.CipherText))
			}
			if string(m.KeyId) != filtered[:g.G] || string(m.CipherText) != filtered[g.G:] {
				t.Fatalf("%q was split into key %q and ciphertext %q", text, string(m.KeyId), string(m.CipherText))
			}
			checkConsumed(t, k, before, g.G, filtered[:g.G], filtered[g.G:], true, fmt.Sprintf("recognising %q", text))
		}
		kit.Case(want, fmt.Sprintf("%s %q yes=%v err=%v", kind, short(text), want, err), fmt.Sprintf("dry run yes=%v, deciphered=%v", want, err == nil))
	})
	kit.Check(t, "radiogram", 12500, 150000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 2, 3}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		hostileStore(t, k, g)
		keyid, cipher, kind := hostileCipher(t, k, g)
		radiogram := "SA6MWA DE QJ 012345 = " + keyid + " " + grouped(cipher, g.G) + " = K"
		if rapid.IntRange(0, 4).Draw(t, "mangled") == 0 {
			r := []rune(radiogram)
			at := rapid.IntRange(0, len(r)-1).Draw(t, "at")
			radiogram = string(r[:at]) + string(r[min(len(r), at+rapid.IntRange(1, 12).Draw(t, "drop")):])
		}
		before := kit.SnapKeys(k)
		var m *krypto431.Message
		var err error
		noPanic(t, fmt.Sprintf("NewTextMessage(%q)", radiogram), func() { m, err = k.NewTextMessage(radiogram) })
		if err == nil && string(m.From) != "SA6MWA" && len(m.CipherText) > 0 {
			checkConsumed(t, k, before, g.G, string(m.KeyId), string(m.CipherText), true, fmt.Sprintf("receiving %q", radiogram))
			kit.Case(true, fmt.Sprintf("%s %q deciphered", kind, short(radiogram)), "radiogram deciphered")
			return
		}
		if err == nil && string(m.From) == "SA6MWA" {
			return
		}
		if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
			t.Fatalf("receiving %q without deciphering it (%v) changed the keys: %s", radiogram, err, d)
		}
		kit.Case(err == nil, fmt.Sprintf("%s %q kept as text", kind, short(radiogram)), "radiogram not deciphered")
	})
}
