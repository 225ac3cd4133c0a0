package checks

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// randomKeys fills a store with keys of any state: ids of other lengths than
// the group, used, compromised, any keepers of a small pool.
// Half of the keepers' lists hold all of likely.
func randomKeys(t *rapid.T, k *krypto431.Krypto431, g kit.Geometry, min, max int, stubs bool, likely ...string) {
	n := rapid.IntRange(min, max).Draw(t, "keys")
	ids := map[string]bool{}
	for i := 0; i < n; i++ {
		l := g.G
		switch rapid.IntRange(0, 9).Draw(t, "idLen") {
		case 0:
			l = g.G + 1
		case 1:
			if l > 1 {
				l--
			}
		}
		id := kit.Letters(t, l, "id")
		for ids[id] {
			id = kit.Letters(t, l, "id")
		}
		ids[id] = true
		length := g.K + rapid.IntRange(0, 20).Draw(t, "longer")
		if stubs && rapid.IntRange(0, 11).Draw(t, "stub") == 0 {
			length = rapid.IntRange(1, g.K).Draw(t, "stubLength")
		}
		generate(t, k, 1, length)
		key := &k.Keys[len(k.Keys)-1]
		key.Id = []rune(id)
		key.Used = rapid.IntRange(0, 3).Draw(t, "used") == 0
		key.Compromised = rapid.IntRange(0, 4).Draw(t, "compromised") == 0
		switch rapid.IntRange(0, 5).Draw(t, "expiry") { // of no importance to the choice
		case 0:
			key.Expires.Time = time.Now().Add(-time.Duration(rapid.IntRange(0, 900).Draw(t, "days")) * 24 * time.Hour)
		case 1:
			key.Expires.Time = time.Time{}
		case 2:
			key.Expires.Time = time.Now().Add(time.Duration(rapid.IntRange(1, 900).Draw(t, "days")) * 24 * time.Hour)
		}
		key.Created.Time = key.Created.Time.Add(-time.Duration(rapid.IntRange(0, 900).Draw(t, "age")) * time.Hour)
		keepers := rapid.SliceOfN(rapid.SampledFrom([]string{"QJ", "VJ", "BA", "Q", "QJQ", "XX", "K2"}), 0, 4).Draw(t, "keepers")
		if len(likely) > 0 && rapid.Bool().Draw(t, "allOfThem") {
			keepers = rapid.Permutation(append(keepers[:len(keepers):len(keepers)], likely...)).Draw(t, "keepersOrder")
			if rapid.IntRange(0, 2).Draw(t, "allButOne") == 0 {
				keepers = keepers[1:]
			}
		}
		key.Keepers = kit.Runes(keepers...)
	}
}

func firstEligible(ks []kit.KeySnap, g int, to []string) int {
	for i := range ks {
		if eligible(&ks[i], g, to) {
			return i
		}
	}
	return -1
}

// judgeAutomatic sends a message and compares the keys it takes with those of
// the model.
func judgeAutomatic(t *rapid.T, k *krypto431.Krypto431, g kit.Geometry, to []string, history string) (label string) {
	t.Helper()
	text := kit.Text(t, 1, 50, "text")
	before := kit.SnapKeys(k)
	var m *krypto431.Message
	var err error
	via := "Encipher"
	if !strings.ContainsAny(text, "=+") && strings.TrimSpace(text) != "" && rapid.Bool().Draw(t, "radiogram") {
		via = "NewTextMessage"
		noPanic(t, via, func() { m, err = k.NewTextMessage(kit.Mess(t, to, "to") + " DE SA6MWA 012345 = " + text + " = K") })
	} else {
		m = kit.Msg(k, text, to...)
		noPanic(t, via, func() { err = m.Encipher() })
	}
	first := firstEligible(before, g.G, to)
	if first < 0 {
		if err == nil {
			t.Fatalf("message to %v was enciphered with %s although no key is suitable: %+v%s", to, string(m.KeyId), before, history)
		}
		if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
			t.Fatalf("refusing a message to %v changed the keys: %s%s", to, d, history)
		}
		kit.Case(true, fmt.Sprintf("%s to %v refused, %d keys%s", via, to, len(before), history), "refused, no key")
		return "refused"
	}
	if err != nil { // too few for the text
		kit.Case(false, fmt.Sprintf("%s to %v refused, %d keys: %v%s", via, to, len(before), err, history), "refused, out of keys")
		return "out of keys"
	}
	d, derr := kit.ModelSheet(g.G, kit.KeyMap(before)).Decipher(string(m.KeyId), string(m.CipherText))
	if derr != nil {
		t.Fatalf("ciphertext of %q can not be deciphered by hand: %v", text, derr)
	}
	now := append([]kit.KeySnap{}, before...)
	for i, id := range d.Used {
		want := firstEligible(now, g.G, to)
		if want < 0 || now[want].Id != id {
			w := "none"
			if want >= 0 {
				w = now[want].Id
			}
			t.Fatalf("part %d of the message to %v uses key %s, want %s; keys %+v%s", i+1, to, id, w, before, history)
		}
		now[want].Used = true
	}
	if d := kit.Diff(kit.SnapKeys(k), now); d != "" {
		t.Fatalf("store after the message: %s%s", d, history)
	}
	kit.Case(first > 0 || len(d.Used) > 1, fmt.Sprintf("%s to %v uses %v (keys no %d...) of %d%s", via, to, d.Used, first, len(before), history), fmt.Sprintf("enciphered with %d keys", min(len(d.Used), 3)))
	return fmt.Sprintf("%d keys", len(d.Used))
}

func TestC04(t *testing.T) {
	kit.Rule("stores of up to 12 keys with any used/compromised marks, expiry, keeper lists (duplicates and look-alikes included, up to ten of them), lengths down to a single letter and id lengths; up to seven recipients from the same pool; automatic choice through FindKey, Encipher and NewTextMessage with continuation keys, and named keys in any spelling, against a model choosing over a snapshot; non-trivial = an unsuitable key precedes the choice, several keys are chosen, or the message must be refused")
	pool := []string{"QJ", "VJ", "BA", "Q", "XX", "K2"}
	kit.Check(t, "find", 36000, 250000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 2, 3}).Draw(t, "groupSize"), K: 20}
		k := kit.Station(g, "SA6MWA")
		to := rapid.SliceOfN(rapid.SampledFrom(pool), 0, rapid.SampledFrom([]int{3, 3, 7}).Draw(t, "maxTo")).Draw(t, "to")
		randomKeys(t, k, g, 0, 12, true, to...)
		before := kit.SnapKeys(k)
		want := firstEligible(before, g.G, to)
		var got *krypto431.Key
		noPanic(t, "FindKey", func() { got = k.FindKey(kit.Runes(to...)...) })
		switch {
		case want < 0 && got != nil:
			t.Fatalf("FindKey(%v) found %s although there is no suitable key: %+v", to, string(got.Id), before)
		case want >= 0 && got == nil:
			t.Fatalf("FindKey(%v) found nothing, want %s: %+v", to, before[want].Id, before)
		case want >= 0 && kit.Diff(kit.SnapKey(got), before[want]) != "":
			t.Fatalf("FindKey(%v) found %s, want %s: %+v", to, string(got.Id), before[want].Id, before)
		}
		if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
			t.Fatalf("FindKey changed the store: %s", d)
		}
		kit.Case(want != 0 && len(before) > 0, fmt.Sprintf("FindKey(%v) among %d keys: %d", to, len(before), want), "FindKey")
	})
	kit.Check(t, "automatic", 16000, 120000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 2, 3}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		to := rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, rapid.SampledFrom([]int{2, 2, 6}).Draw(t, "maxTo"), func(s string) string { return s }).Draw(t, "to")
		randomKeys(t, k, g, 0, 12, true, to...)
		judgeAutomatic(t, k, g, to, "")
	})
	kit.Check(t, "history", 12000, 90000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 2, 3}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		dir, done := scratch("c04")
		defer done()
		k := fileStation(g, "SA6MWA", dir+"/store")
		likely := rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, 3, func(s string) string { return s }).Draw(t, "likely")
		randomKeys(t, k, g, 1, 12, true, likely...)
		var log []string
		for i := rapid.IntRange(2, 9).Draw(t, "steps"); i > 0; i-- {
			to := likely
			if rapid.IntRange(0, 3).Draw(t, "others") == 0 {
				to = rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, 2, func(s string) string { return s }).Draw(t, "to")
			}
			op := rapid.SampledFrom([]string{"send", "send", "send", "mark", "set", "delete", "generate", "exchange", "load", "keepers"}).Draw(t, "step")
			at := -1
			if len(k.Keys) > 0 {
				at = rapid.IntRange(0, len(k.Keys)-1).Draw(t, "at")
			}
			said := ""
			switch {
			case op == "send":
				said = judgeAutomatic(t, k, g, to, fmt.Sprintf(" (after %v)", log))
			case op == "generate":
				generate(t, k, 1, g.K, to...)
			case op == "load":
				must(t, k.Save(), "saving")
				must(t, k.Load(), "loading")
			case at < 0:
				continue
			case op == "mark":
				used := rapid.IntRange(0, 3).Draw(t, "markUsed") == 0
				must(t, k.MarkKeyUsed(k.Keys[at].Id, used), "MarkKeyUsed")
				said = fmt.Sprint(used)
			case op == "set":
				k.Keys[at].Used = rapid.Bool().Draw(t, "isUsed")
				k.Keys[at].Compromised = rapid.IntRange(0, 3).Draw(t, "isCompromised") == 0
			case op == "keepers":
				if rapid.Bool().Draw(t, "add") {
					k.Keys[at].AddKeeper(kit.Runes(to...)...)
				} else {
					k.Keys[at].RemoveKeeper(kit.Runes(to...)...)
				}
			case op == "delete":
				_, err := k.DeleteKey(k.Keys[at].Id)
				must(t, err, "DeleteKey")
			case op == "exchange":
				with := rapid.IntRange(0, len(k.Keys)-1).Draw(t, "with")
				k.Keys[at], k.Keys[with] = k.Keys[with], k.Keys[at]
			}
			log = append(log, fmt.Sprintf("%s %v %d %s", op, to, at, said))
		}
	})
	kit.Check(t, "named", 20000, 150000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 2, 3}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		to := rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, 2, func(s string) string { return s }).Draw(t, "to")
		randomKeys(t, k, g, 1, 10, false)
		text := kit.Letters(t, rapid.IntRange(1, 5).Draw(t, "n"), "text")
		text = strings.NewReplacer("Q", "E", "Z", "E").Replace(text)
		before := kit.SnapKeys(k)
		var ids []string
		for _, b := range before {
			ids = append(ids, b.Id, b.Id)
		}
		ids = append(ids, kit.Letters(t, g.G, "unknown"), kit.Letters(t, rapid.IntRange(1, 7).Draw(t, "ul"), "unknown"))
		id := rapid.SampledFrom(ids).Draw(t, "id")
		ks := findKey(before, id)
		ok := ks != nil && !ks.Used && !ks.Compromised && len(id) == g.G
		var m *krypto431.Message
		var err error
		via := "Message.KeyId"
		if rapid.IntRange(0, 2).Draw(t, "radiogram") > 0 {
			via = "NewTextMessage"
			spelling := rapid.SampledFrom([]string{"", " ", "\t"}).Draw(t, "lead") + kit.MixCase(t, id, "id") + rapid.SampledFrom([]string{"", " ", "\n"}).Draw(t, "trail")
			noPanic(t, fmt.Sprintf("NewTextMessage with key %q", spelling), func() {
				m, err = k.NewTextMessage(kit.Mess(t, to, "to")+" DE SA6MWA 012345 = "+text+" = K", spelling)
			})
		} else {
			m = kit.Msg(k, text, to...)
			m.KeyId = []rune(id)
			noPanic(t, "Encipher with named key", func() { err = m.Encipher() })
		}
		if ok != (err == nil) {
			t.Fatalf("%s: key %s (%+v) named for %v: got error %v", via, id, ks, to, err)
		}
		if ok {
			if string(m.KeyId) != id {
				t.Fatalf("%s: named key %s was replaced by %s", via, id, string(m.KeyId))
			}
			d, derr := kit.ModelSheet(g.G, kit.KeyMap(before)).Decipher(id, string(m.CipherText))
			if derr != nil || d.Text != text {
				t.Fatalf("%s: %q not enciphered with the named key %s: %v %q", via, text, id, derr, d.Text)
			}
		} else if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
			t.Fatalf("refusing key %s changed the store: %s", id, d)
		}
		state := "unknown id"
		if ks != nil {
			state = fmt.Sprintf("used=%v compromised=%v full=%v", ks.Used, ks.Compromised, len(id) == g.G)
		}
		kit.Case(true, fmt.Sprintf("%s key %s for %v %q: %s", via, id, to, text, state), "named key "+state)
	})
}
