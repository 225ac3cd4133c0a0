package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"unicode"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// callWord draws a word for a list: no commas or blanks, and characters whose
// cases go in pairs.
func callWord(t *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"QJ", "VJ", "BA", "SA6MWA", "OH0A/M", "ÅÄÖ", "Q", "QJJ", "SA6", "1", "12", "ÉÈ", "ЖЯ", "Ω", "日本", "A-B", "A_B.C", "*", "JQ", "QQ"}),
		rapid.StringOfN(rapid.SampledFrom([]rune("ABCXYZ019/-ÅÄÖÑ")), 1, 9, -1),
	).Draw(t, label)
}

// mixed draws a spelling of a word.
func mixed(t *rapid.T, s, label string) string {
	switch rapid.IntRange(0, 3).Draw(t, label+"Spelling") {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	}
	r := []rune(s)
	mask := rapid.Uint32().Draw(t, label+"Mask")
	for i := range r {
		if mask>>(uint(i)%32)&1 == 1 {
			r[i] = unicode.ToLower(r[i])
		}
	}
	return string(r)
}

// apart draws what separates two words (at least one character) or surrounds them.
func apart(t *rapid.T, min int, label string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{",", " ", ", ", ",", " "}),
		rapid.StringOfN(rapid.SampledFrom([]rune(",, \t\n")), min, 4, -1),
		rapid.StringOfN(rapid.SampledFrom([]rune(", ")), min, 3, -1),
	).Draw(t, label)
}

func strs(list [][]rune) (out []string) {
	for _, x := range list {
		out = append(out, string(x))
	}
	return
}

func runes(list []string) (out [][]rune) {
	for _, x := range list {
		out = append(out, []rune(x))
	}
	return
}

func upper(list []string) (out []string) {
	for _, x := range list {
		out = append(out, strings.ToUpper(x))
	}
	return
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(a []string) []string {
	a = append([]string(nil), a...)
	sort.Strings(a)
	return a
}

// ring is either the keepers of a key or the recipients of a message.
type ring interface {
	add(...[]rune)
	remove(...[]rune)
	has(...[]rune) bool
	list() [][]rune
	set([][]rune)
	join(string) string
}

type keyRing struct{ *krypto431.Key }

func (r keyRing) add(x ...[]rune) {
	if r.AddKeeper(x...) != r.Key {
		panic("AddKeeper does not return its key")
	}
}
func (r keyRing) remove(x ...[]rune) {
	if r.RemoveKeeper(x...) != r.Key {
		panic("RemoveKeeper does not return its key")
	}
}
func (r keyRing) has(x ...[]rune) bool { return r.ContainsKeeper(x...) }
func (r keyRing) list() [][]rune       { return r.Keepers }
func (r keyRing) set(x [][]rune)       { r.Keepers = x }
func (r keyRing) join(s string) string { return r.JoinKeepers(s) }

type msgRing struct{ *krypto431.Message }

func (r msgRing) add(x ...[]rune) {
	if r.AddRecipient(x...) != r.Message {
		panic("AddRecipient does not return its message")
	}
}
func (r msgRing) remove(x ...[]rune) {
	if r.RemoveRecipient(x...) != r.Message {
		panic("RemoveRecipient does not return its message")
	}
}
func (r msgRing) has(x ...[]rune) bool { return r.ContainsRecipient(x...) }
func (r msgRing) list() [][]rune       { return r.Recipients }
func (r msgRing) set(x [][]rune)       { r.Recipients = x }
func (r msgRing) join(s string) string { return r.JoinRecipients(s) }

func TestC27(t *testing.T) {
	kit.Rule("(1) word lists of any length in any case, spread over one or several strings with any mix of commas, blanks, tabs and line breaks before, between and after them, through every vetting function; (2) pairs of lists with duplicates, case variants, near misses (a word within another), shared words and missing or empty sides, through every matching function in every mode, against set inclusion and intersection; (3) histories of adding, removing and asking on the keepers of keys and the recipients of messages, with duplicates, several at once, other spellings, a list of the other or its own, and the caller's list overwritten afterwards, against a set; arguments must come back unchanged; non-trivial = words in more than one string or case, lists which overlap partly, or a history in which an addition was superfluous and a removal effective")
	kit.Check(t, "vetting", 640000, 6000000, func(t *rapid.T) {
		words := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return mixed(t, callWord(t, "word"), "word") }), 0, 8).Draw(t, "words")
		if rapid.IntRange(0, 199).Draw(t, "long") == 199 { // a long list
			for n := rapid.IntRange(1, 10<<rapid.IntRange(0, 7).Draw(t, "longMagnitude")).Draw(t, "longN"); n > 0; n-- {
				words = append(words, fmt.Sprint(mixed(t, "AX", "longWord"), n%200))
			}
		}
		var args []string
		cur := apart(t, 0, "lead")
		splits := 0
		for i, w := range words {
			if i > 0 {
				switch rapid.IntRange(0, 3).Draw(t, "join") {
				case 0:
					args = append(args, cur)
					cur = ""
					splits++
					if rapid.Bool().Draw(t, "spaced") {
						cur = apart(t, 0, "lead")
					}
					if rapid.IntRange(0, 5).Draw(t, "blank") == 0 {
						args = append(args, rapid.SampledFrom([]string{"", " ", ",", " ,\t"}).Draw(t, "blankString"))
					}
				default:
					cur += apart(t, 1, "sep")
				}
			}
			cur += w
		}
		cur += apart(t, 0, "trail")
		args = append(args, cur)
		if len(words) == 0 && rapid.Bool().Draw(t, "nothing") {
			args = nil
		}
		given := append([]string(nil), args...)
		caseful := false
		for _, w := range words {
			caseful = caseful || w != strings.ToUpper(w)
		}
		for name, f := range map[string]func(...string) [][]rune{"VettedKeepers": krypto431.VettedKeepers, "VettedRecipients": krypto431.VettedRecipients, "VettedCallSigns": krypto431.VettedCallSigns, "VettedKeys": krypto431.VettedKeys, "VettedMessageIds": krypto431.VettedMessageIds} {
			want := words
			if name != "VettedMessageIds" {
				want = upper(words)
			}
			got := strs(f(args...))
			if !sameList(got, want) {
				t.Fatalf("%s(%q) gives %q instead of %q", name, given, got, want)
			}
			if !sameList(args, given) {
				t.Fatalf("%s changes its arguments", name)
			}
		}
		kit.Case(splits > 0 || caseful, fmt.Sprintf("%q", given), "vetting")
	})

	kit.Check(t, "matching", 1280000, 9000000, func(t *rapid.T) {
		pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return callWord(t, "word") }), 1, 5).Draw(t, "pool")
		list := func(label string) (l []string) {
			ci := rapid.Bool().Draw(t, label+"Mixed")
			for i := rapid.IntRange(0, 5).Draw(t, label+"N"); i > 0; i-- {
				w := rapid.SampledFrom(pool).Draw(t, label)
				switch rapid.IntRange(0, 7).Draw(t, label+"Miss") {
				case 0:
					w += "X"
				case 1:
					if r := []rune(w); len(r) > 1 {
						w = string(r[:len(r)-1])
					}
				case 2:
					if r := []rune(w); len(r) > 1 {
						w = string(r[1:])
					}
				}
				if ci {
					w = mixed(t, w, label)
				}
				l = append(l, w)
			}
			return
		}
		a, b := list("needles"), list("haystack")
		in := func(x string, l []string, fold bool) bool {
			for _, y := range l {
				if x == y || fold && strings.ToUpper(x) == strings.ToUpper(y) {
					return true
				}
			}
			return false
		}
		all := func(fold bool) bool {
			if len(a) == 0 || len(b) == 0 {
				return false
			}
			for _, x := range a {
				if !in(x, b, fold) {
					return false
				}
			}
			return true
		}
		any := false
		for _, x := range a {
			any = any || in(x, b, false)
		}
		ra, rb := runes(a), runes(b)
		expect := func(what string, got, want bool) {
			if got != want {
				t.Fatalf("%s with %q and %q is %v", what, a, b, got)
			}
		}
		expect("AllNeedlesInHaystack", krypto431.AllNeedlesInHaystack(&ra, &rb), all(false))
		expect("AllNeedlesInHaystack (false)", krypto431.AllNeedlesInHaystack(&ra, &rb, false), all(false))
		expect("AllNeedlesInHaystack (true)", krypto431.AllNeedlesInHaystack(&ra, &rb, true), all(true))
		expect("AnyNeedleInHaystack", krypto431.AnyNeedleInHaystack(&ra, &rb), any)
		expect("AnyNeedleInHaystack turned around", krypto431.AnyNeedleInHaystack(&rb, &ra), any)
		for i := range ra {
			expect(fmt.Sprintf("AnyOfThem for %q", a[i]), krypto431.AnyOfThem(&rb, &ra[i]), in(a[i], b, false))
			for j := range rb {
				expect(fmt.Sprintf("EqualRunes of %q and %q", a[i], b[j]), krypto431.EqualRunes(&ra[i], &rb[j]), a[i] == b[j])
				expect(fmt.Sprintf("EqualRunesFold of %q and %q", a[i], b[j]), krypto431.EqualRunesFold(&ra[i], &rb[j]), strings.ToUpper(a[i]) == strings.ToUpper(b[j]))
			}
			x := []rune(a[i])
			expect("EqualRunes with a copy", krypto431.EqualRunes(&x, &ra[i]), true)
			expect("EqualRunesFold with a copy", krypto431.EqualRunesFold(&ra[i], &x), true)
		}
		none := []rune{}
		var nothing [][]rune
		expect("AnyOfThem for nothing", krypto431.AnyOfThem(&rb, &none) || krypto431.AnyOfThem(&rb, nil) || krypto431.AnyOfThem(nil, &none) || len(ra) > 0 && krypto431.AnyOfThem(nil, &ra[0]), false)
		expect("matching with an absent side", krypto431.AllNeedlesInHaystack(nil, &rb) || krypto431.AllNeedlesInHaystack(&ra, nil, true) || krypto431.AllNeedlesInHaystack(&nothing, &rb) || krypto431.AllNeedlesInHaystack(&ra, &nothing) || krypto431.AnyNeedleInHaystack(nil, &rb) || krypto431.AnyNeedleInHaystack(&ra, nil) || krypto431.AnyNeedleInHaystack(&nothing, &rb) || krypto431.AnyNeedleInHaystack(&ra, &nothing), false)
		// the case-insensitive ones
		key, msg := krypto431.Key{Keepers: rb}, krypto431.Message{Recipients: rb}
		if len(a) > 0 {
			expect("ContainsKeeper", key.ContainsKeeper(ra...), all(true))
			expect("ContainsRecipient", msg.ContainsRecipient(ra...), all(true))
		}
		if !sameList(strs(ra), a) || !sameList(strs(rb), b) {
			t.Fatalf("matching changes the lists %q and %q to %q and %q", a, b, strs(ra), strs(rb))
		}
		some, each := false, true
		for _, x := range a {
			some, each = some || in(x, b, true), each && in(x, b, true)
		}
		kit.Case(some && !each, fmt.Sprintf("%q among %q: all %v, all in any case %v, any %v", a, b, all(false), all(true), any), "matching")
	})

	kit.Check(t, "histories", 1280000, 9000000, func(t *rapid.T) {
		var key krypto431.Key
		var msg krypto431.Message
		rings := []ring{keyRing{&key}, msgRing{&msg}}
		model := [2][]string{} // as spelled
		pool := []string{"QJ", "VJ", "BA", "ÅÄÖ", "QJJ", "SA6MWA"}
		word := func() string { return mixed(t, rapid.SampledFrom(pool).Draw(t, "word"), "word") }
		if rapid.IntRange(0, 2).Draw(t, "start") == 0 { // a list from elsewhere, which may name someone twice
			for i := range rings {
				var l []string
				for n := rapid.IntRange(0, 5).Draw(t, "startN"); n > 0; n-- {
					l = append(l, word())
				}
				model[i] = l
				rings[i].set(runes(l))
			}
		}
		holds := func(i int, x string) bool {
			for _, y := range model[i] {
				if strings.ToUpper(x) == strings.ToUpper(y) {
					return true
				}
			}
			return false
		}
		var log []string
		superfluous, effective := 0, 0
		for n := rapid.IntRange(1, 9).Draw(t, "steps"); n > 0; n-- {
			i := rapid.IntRange(0, 1).Draw(t, "of")
			r := rings[i]
			var args []string
			var given [][]rune
			from := ""
			switch rapid.IntRange(0, 5).Draw(t, "from") {
			case 0: // the other's list, or a part of it
				from = " (the other's list)"
				l := rings[1-i].list()
				a := rapid.IntRange(0, len(l)).Draw(t, "a")
				given = l[a:rapid.IntRange(a, len(l)).Draw(t, "b")]
				args = strs(given)
			case 1: // its own
				from = " (its own list)"
				l := r.list()
				a := rapid.IntRange(0, len(l)).Draw(t, "a")
				given = l[a:rapid.IntRange(a, len(l)).Draw(t, "b")]
				args = strs(given)
			default:
				for m := rapid.IntRange(0, 4).Draw(t, "args"); m > 0; m-- {
					args = append(args, word())
				}
				given = runes(args)
				if rapid.Bool().Draw(t, "room") { // room behind the words
					for j := range given {
						given[j] = append(make([]rune, 0, 20), given[j]...)
					}
				}
			}
			op := rapid.SampledFrom([]string{"add", "add", "remove", "ask"}).Draw(t, "op")
			log = append(log, fmt.Sprintf("%s%s %q%s", op, []string{"Keeper", "Recipient"}[i], args, from))
			before := append([]string(nil), model[i]...)
			switch op {
			case "add":
				r.add(given...)
				for _, x := range args {
					if holds(i, x) {
						superfluous++
					} else {
						model[i] = append(model[i], x)
					}
				}
			case "remove":
				r.remove(given...)
				var left []string
			each:
				for _, x := range model[i] {
					for _, y := range args {
						if strings.ToUpper(x) == strings.ToUpper(y) {
							effective++
							continue each
						}
					}
					left = append(left, x)
				}
				model[i] = left
			case "ask":
				if len(args) == 0 {
					break
				}
				want := len(before) > 0
				for _, x := range args {
					want = want && holds(i, x)
				}
				if got := r.has(given...); got != want {
					t.Fatalf("%s: %v, but the list is %q", strings.Join(log, "; "), got, before)
				}
			}
			if from == "" {
				if !sameList(strs(given), args) {
					t.Fatalf("%s: the arguments are %q afterwards", strings.Join(log, "; "), strs(given))
				}
				// the caller's words are the caller's
				for j := range given {
					for x := range given[j][:cap(given[j])] {
						given[j][:cap(given[j])][x] = '!'
					}
					given[j] = []rune("OVERWRITTEN")
				}
			}
			for j, r := range rings {
				got := strs(r.list())
				if !sameList(sorted(got), sorted(model[j])) {
					t.Fatalf("%s: the list of the %s is %q instead of %q", strings.Join(log, "; "), []string{"key", "message"}[j], got, model[j])
				}
				if j := r.join("|"); j != strings.Join(got, "|") {
					t.Fatalf("%s: joined it is %q", strings.Join(log, "; "), j)
				}
			}
		}
		// overwriting one list leaves the other alone
		for _, w := range key.Keepers {
			for i := range w {
				w[i] = '#'
			}
		}
		if got := strs(msg.Recipients); !sameList(sorted(got), sorted(model[1])) {
			t.Fatalf("%s: the recipients share memory with the keepers: %q", strings.Join(log, "; "), got)
		}
		kit.Case(superfluous > 0 && effective > 0, strings.Join(log, "; "), "histories")
	})
}
