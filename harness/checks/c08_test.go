package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// setOf is the sorted set of the items.
func setOf(items []string) []string {
	m := map[string]bool{}
	for _, i := range items {
		m[i] = true
	}
	var s []string
	for i := range m {
		s = append(s, i)
	}
	sort.Strings(s)
	return s
}

func without(items []string, drop string) []string {
	var s []string
	for _, i := range items {
		if i != drop {
			s = append(s, i)
		}
	}
	return s
}

var keeperPool = []string{"QJ", "VJ", "BA", "SA6MWA", "K2", "OH0A/M", "ÅÄÖ", "AB-1", "SA6MW", "SA6MWA/P", "*", "Q"}

// drawKeepers draws keeper arguments and the upper-case items they mean.
func drawKeepers(t *rapid.T, label string) (args, items []string) {
	n := rapid.IntRange(0, 3).Draw(t, label+"Args")
	for i := 0; i < n; i++ {
		it := rapid.SliceOfN(rapid.SampledFrom(keeperPool), 0, 4).Draw(t, label)
		items = append(items, it...)
		args = append(args, kit.Mess(t, it, label))
	}
	return
}

func TestC08(t *testing.T) {
	kit.Rule("generating n keys (also one by one with NewKey, and not at all) into stores that may hold keys already, for group sizes 1 to 12 (with 26 ids only up to the last one), key lengths 1 to 600, keeper arguments in any spelling with and without the station's own call-sign, and full, abbreviated, absent and invalid expiry groups; non-trivial = keys were added to a store that holds keys, or the expiry or keepers were given, or the expiry was refused")
	kit.Check(t, "generate", 60000, 400000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.OneOf(rapid.IntRange(1, 3), rapid.Just(5), rapid.IntRange(1, 12)).Draw(t, "groupSize"),
			K: rapid.OneOf(rapid.IntRange(20, 60), rapid.IntRange(1, 600)).Draw(t, "keyLength")}
		own := rapid.SampledFrom([]string{"SA6MWA", "QJ", "ÅÄÖ"}).Draw(t, "call")
		k := kit.Station(g, own)
		min, max := 0, 12
		if g.G == 1 {
			max = 26
		} else if g.G == 2 && rapid.IntRange(0, 99).Draw(t, "crowded") == 0 {
			max = 676
		}
		if g.G > 2 && g.G < 9 && rapid.IntRange(0, 299).Draw(t, "many")&0x7f == 37 {
			max, g.K = rapid.SampledFrom([]int{200, 500, 1100, 4000}).Draw(t, "crowd"), 20
			min = max * 9 / 10
			k = kit.Station(g, own)
		}
		total := rapid.IntRange(min, max).Draw(t, "total")
		n := total - rapid.IntRange(0, total).Draw(t, "there")
		for len(k.Keys) < total-n { // what is there already
			before := len(k.Keys)
			generate(t, k, total-n-before, g.K, "VJ")
			if len(k.Keys) == before {
				t.Fatalf("GenerateKeys(%d) added nothing", total-n-before)
			}
		}
		for i := range k.Keys {
			if i%3 == 0 {
				k.Keys[i].Used, k.Keys[i].Comment = true, []rune("comment")
			}
			if i%5 == 0 {
				k.Keys[i].Compromised = true
			}
		}
		msg := kit.Msg(k, "KEEP THIS", "QJ")
		msg.Id = []rune("abcd")
		k.Messages = append(k.Messages, *msg)
		before := kit.SnapStore(k)

		args, items := drawKeepers(t, "keepers")
		var expire *string
		var want group
		kind := rapid.SampledFrom([]string{"full", "none", "invalid", "now", "month"}).Draw(t, "expiry")
		t0 := time.Now()
		switch kind {
		case "full":
			want = drawGroup(t, "expiry")
		case "invalid":
			want = drawBadGroup(t, "expiry")
		case "now": // about now, as a full group
			want = nearGroup(t0.Add(time.Duration(rapid.IntRange(-3000, 3000).Draw(t, "hours"))*time.Hour), rapid.IntRange(-12, 12).Draw(t, "zone"))
		case "month": // year left out: this year
			want = drawGroup(t, "expiry")
			y := t0.UTC().Add(time.Duration(want.offset) * time.Hour).Year()
			l := want.t
			if int(l.Month()) == 2 && l.Day() == 29 {
				l = l.AddDate(0, 0, -1)
			}
			want = groupOf(y, int(l.Month()), l.Day(), l.Hour(), l.Minute(), want.offset)
			want.text = want.text[:len(want.text)-2]
		}
		if kind != "none" {
			s := want.spell(t, "expiry")
			if rapid.IntRange(0, 5).Draw(t, "blank") == 0 && s != "" {
				s = " " + s + " "
			}
			expire = &s
		}
		single := kind != "invalid" && n > 0 && rapid.IntRange(0, 3).Draw(t, "single") == 0
		var err error
		start := time.Now()
		if single {
			exp := start.Add(365 * 24 * time.Hour)
			if kind != "none" {
				exp = want.t
			}
			for i := 0; i < n; i++ {
				key := k.NewKey(exp, args...)
				if key == nil {
					t.Fatalf("NewKey returned no key")
				}
				if d := kit.Diff(kit.SnapKey(key), kit.SnapKey(&k.Keys[len(k.Keys)-1])); d != "" {
					t.Fatalf("NewKey returned another key than it added: %s", d)
				}
			}
		} else {
			noPanic(t, "GenerateKeys", func() { err = k.GenerateKeys(n, expire, args...) })
		}
		end := time.Now()
		what := fmt.Sprintf("generating %d keys of %d in groups of %d, keepers %q, expiry %s %q, %d keys there", n, g.K, g.G, args, kind, want.text, len(before.Keys))
		after := kit.SnapStore(k)
		if kind == "invalid" {
			if err == nil {
				t.Fatalf("%s was not refused", what)
			}
			if d := kit.Diff(after, before); d != "" {
				t.Fatalf("%s was refused but changed the store: %s", what, d)
			}
			kit.Case(true, what, "expiry refused")
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		if len(after.Keys) != len(before.Keys)+n {
			t.Fatalf("%s: %d keys were added", what, len(after.Keys)-len(before.Keys))
		}
		rest := after
		rest.Keys = after.Keys[:len(before.Keys):len(before.Keys)]
		if len(before.Keys) == 0 {
			rest.Keys = before.Keys
		}
		if d := kit.Diff(rest, before); d != "" {
			t.Fatalf("%s changed something else: %s", what, d)
		}
		ids := map[string]bool{}
		letters := map[string]bool{}
		for i, key := range after.Keys {
			if ids[key.Id] {
				t.Fatalf("%s: id %s is there twice", what, key.Id)
			}
			ids[key.Id] = true
			if i < len(before.Keys) {
				continue
			}
			if len(key.Id) != g.G || !lettersOnly(key.Id) {
				t.Fatalf("%s: id %q is not a group of letters", what, key.Id)
			}
			if len(key.Runes) != g.Len() || !lettersOnly(key.Runes) {
				t.Fatalf("%s: key %s has %d letters %.80q, want %d", what, key.Id, len(key.Runes), key.Runes, g.Len())
			}
			if g.Len() >= 20 && letters[key.Runes] {
				t.Fatalf("%s: two keys have the same letters", what)
			}
			letters[key.Runes] = true
			if key.Used || key.Compromised || key.Comment != "" {
				t.Fatalf("%s: a new key is marked: %+v", what, key)
			}
			k := &k.Keys[i]
			if k.Created.Time.Before(start.Add(-time.Second)) || k.Created.Time.After(end.Add(time.Second)) {
				t.Fatalf("%s: a key is dated %v, now is %v", what, k.Created.Time, end)
			}
			if kind == "none" {
				year := 365 * 24 * time.Hour
				if k.Expires.Time.Before(start.Add(year-time.Second)) || k.Expires.Time.After(end.Add(year+time.Second)) {
					t.Fatalf("%s: a key expires %v", what, k.Expires.Time)
				}
			} else if kit.Instant(k.Expires.Time) != kit.Instant(want.t) {
				// at the turn of the year the missing year may be either
				if !(kind == "month" && t0.UTC().Add(14*time.Hour).Year() != t0.UTC().Add(-14*time.Hour).Year()) {
					t.Fatalf("%s: a key expires %v, want %v", what, k.Expires.Time, want.t)
				}
			}
			wantKeepers := without(setOf(items), own)
			if d := kit.Diff(setOf(key.Keepers), wantKeepers); d != "" {
				t.Fatalf("%s (own call %s): keepers %q, want %q", what, own, key.Keepers, wantKeepers)
			}
			if k.GetInstance() == nil {
				t.Fatalf("%s: a key does not belong to the instance", what)
			}
			if s := squeezeGroups(k); s != key.Runes {
				t.Fatalf("%s: the groups of a new key are %q", what, s)
			}
		}
		if n > 0 && len(after.Keys) > 1 {
			// a key is nobody else's: what happens to one leaves the others
			i := rapid.IntRange(len(before.Keys), len(after.Keys)-1).Draw(t, "changed")
			key := &k.Keys[i]
			if len(key.Keepers) > 0 {
				key.RemoveKeeper([]rune(string(key.Keepers[0])))
			}
			key.AddKeeper([]rune("NEWKEEPER"), []rune("OTHERKEEPER"))
			key.ZeroWipe()
			now := kit.SnapStore(k)
			for j := range now.Keys {
				if j != i {
					if d := kit.Diff(now.Keys[j], after.Keys[j]); d != "" {
						t.Fatalf("%s: changing the keepers of and wiping key %s changed key %s: %s", what, after.Keys[i].Id, after.Keys[j].Id, d)
					}
				}
			}
		}
		kit.Case(n > 0 && (len(before.Keys) > 0 || len(items) > 0 || kind != "none"), what, kind, map[bool]string{true: "more than half of all ids taken"}[g.G == 1 && total > 13])
	})
	_ = unicode.ToUpper
	_ = strings.ToUpper
}

func squeezeGroups(k *krypto431.Key) string {
	g, err := k.Groups()
	if err != nil {
		return err.Error()
	}
	return squeeze(string(*g))
}
