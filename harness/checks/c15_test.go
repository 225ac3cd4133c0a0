package checks

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// brokenReader fails after its text.
type brokenReader struct{ r io.Reader }

func (b brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("injected: reading failed")
	}
	return n, err
}

var radioTokens = []string{"DE", "de", "=", "==", "===", "K", "+", "[AR]", "AR", "VJ", "QJ", "SA6MWA", "AB/P", "012345", "992561", "012345Z", "012345ZDEC22", "310000ZFEB23", "012345J", "012345JJAN23", "012345AMAJ23", "012345AOKT99", "COL", "MBS", "15", "99999", "HELLO", "ABCDE", "FGHIJ", ",", "/", " ", "\n", "\r\n", "\t", "\v", "\u0085", "\u2028", "Å", "ſ", "K", "\x00", "\xff\xfe", "(", "*", "\\", "[", "]", "{", "%s", "%d", "¤", "日本", strings.Repeat("A", 300), strings.Repeat("= ", 50), strings.Repeat("DE ", 40)}

func TestC15(t *testing.T) {
	kit.Rule("radiograms built from drawn parts in each documented format (addressees, sender, date-time group full, abbreviated or absent, action addressees, instructions, group count, text, closing), with letter case, blanks and line breaks drawn, parsed and compared with the parts; arbitrary strings made of the tokens of the format, of mutated radiograms and of any characters must be parsed or refused without a crash or a change of the store; non-trivial = a radiogram with at least two of: addressees, date-time group, loose layout; or any arbitrary string that is not empty")
	kit.Check(t, "formats", 60000, 800000, func(t *rapid.T) {
		k := kit.Station(kit.Geometry{G: 5, K: 25}, rapid.SampledFrom([]string{"SA6MWA", "QJ", ""}).Draw(t, "call"))
		r := drawRadiogram(t, "", nil)
		var m *krypto431.Message
		var err error
		before := time.Now()
		noPanic(t, fmt.Sprintf("ParseRadiogram(%q)", r.text), func() { m, err = k.ParseRadiogram(r.text) })
		after := time.Now()
		what := fmt.Sprintf("%s radiogram %q", r.format, r.text)
		if err != nil {
			t.Fatalf("%s was refused: %v", what, err)
		}
		if got := kit.Strs(m.Recipients); kit.Diff(got, append([]string(nil), r.to...)) != "" && (len(got) != 0 || len(r.to) != 0) {
			t.Fatalf("%s: addressees %q instead of %q", what, got, r.to)
		}
		if string(m.From) != r.from {
			t.Fatalf("%s: sender %q instead of %q", what, string(m.From), r.from)
		}
		if !r.sameText(string(m.PlainText)) {
			t.Fatalf("%s: text %q instead of %q", what, string(m.PlainText), r.body)
		}
		if !r.sameTime(m.DTG.Time, before, after) {
			want := "now"
			if r.at != nil {
				w, _ := r.at(before)
				want = w.String()
			}
			t.Fatalf("%s: date-time group %v instead of %s", what, m.DTG.Time, want)
		}
		if len(m.KeyId) != 0 || len(m.CipherText) != 0 || len(k.Messages) != 0 {
			t.Fatalf("%s: parsing made key id %q, ciphertext %q and %d messages", what, string(m.KeyId), string(m.CipherText), len(k.Messages))
		}
		kit.Case(len(r.to) > 0 && r.dtg != "" || !r.brief, fmt.Sprintf("%s: %q", r.format, r.text), r.format, fmt.Sprintf("closing %q", strings.TrimSpace(r.closing)), fmt.Sprintf("date-time group of %d", len(r.dtg)), map[bool]string{true: "line breaks"}[r.hasBreak])
	})
	kit.Check(t, "received", 12000, 150000, func(t *rapid.T) {
		// the same, entered as a received message
		kit.Entropy(kit.Seed(t))
		k := kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA")
		if rapid.Bool().Draw(t, "withKeys") {
			generate(t, k, 2, 60, "QJ")
		}
		keys := kit.SnapKeys(k)
		r := drawRadiogram(t, "", nil)
		var m *krypto431.Message
		var err error
		before := time.Now()
		noPanic(t, fmt.Sprintf("NewTextMessage(%q)", r.text), func() {
			if rapid.Bool().Draw(t, "reader") {
				m, err = k.NewTextMessageFromReader(&bytewise{r: strings.NewReader(r.text)})
			} else {
				m, err = k.NewTextMessage(r.text)
			}
		})
		after := time.Now()
		what := fmt.Sprintf("%s radiogram %q", r.format, r.text)
		must(t, err, what)
		want := append([]string(nil), r.to...)
		if len(want) == 0 {
			want = []string{"SA6MWA"}
		}
		if len(k.Messages) != 1 {
			t.Fatalf("%s: %d messages in the store", what, len(k.Messages))
		}
		for _, m := range []*krypto431.Message{m, &k.Messages[0]} {
			if kit.Diff(kit.Strs(m.Recipients), want) != "" || string(m.From) != r.from || !r.sameText(string(m.PlainText)) || !r.sameTime(m.DTG.Time, before, after) || len(m.Id) != 4 {
				t.Fatalf("%s became %#v", what, m)
			}
		}
		if d := kit.Diff(kit.SnapKeys(k), keys); d != "" {
			t.Fatalf("%s changed keys: %s", what, d)
		}
		kit.Case(len(r.to) > 0 && r.dtg != "", "received "+r.text, "received "+r.format)
	})
	kit.Check(t, "anything", 40000, 600000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		k := kit.Station(kit.Geometry{G: 5, K: 25}, rapid.SampledFrom([]string{"SA6MWA", "QJ", ""}).Draw(t, "call"))
		generate(t, k, 2, 60, "QJ", "VJ")
		s := ""
		kind := rapid.IntRange(0, 3).Draw(t, "kind")
		switch kind {
		case 0:
			s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(radioTokens), 0, 25).Draw(t, "tokens"), rapid.SampledFrom([]string{"", " ", "\n"}).Draw(t, "separator"))
		case 1:
			s = rapid.String().Draw(t, "string")
		case 2:
			s = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))
		case 3: // a damaged radiogram
			s = drawRadiogram(t, "", nil).text
			for i := rapid.IntRange(1, 4).Draw(t, "damages"); i > 0 && len(s) > 0; i-- {
				at := rapid.IntRange(0, len(s)-1).Draw(t, "at")
				n := rapid.IntRange(0, 9).Draw(t, "n")
				if at+n > len(s) {
					n = len(s) - at
				}
				s = s[:at] + rapid.SampledFrom(append(radioTokens, "")).Draw(t, "in") + s[at+n:]
			}
		}
		store := kit.SnapStore(k)
		var m *krypto431.Message
		var err error
		how := rapid.SampledFrom([]string{"parse", "new", "reader", "broken reader", "new with key", "nothing"}).Draw(t, "how")
		noPanic(t, fmt.Sprintf("%s %q", how, s), func() {
			switch how {
			case "parse":
				m, err = k.ParseRadiogram(s)
			case "new":
				m, err = k.NewTextMessage(s)
			case "reader":
				m, err = k.NewTextMessageFromReader(strings.NewReader(s))
			case "broken reader":
				m, err = k.NewTextMessageFromReader(brokenReader{strings.NewReader(s)})
			case "new with key":
				m, err = k.NewTextMessage(s, string(k.Keys[0].Id))
			case "nothing":
				m, err = k.NewTextMessage()
			}
		})
		if (m == nil) != (err != nil) {
			t.Fatalf("%s %q gave message %v and error %v", how, s, m, err)
		}
		if (how == "broken reader" || how == "nothing") && err == nil {
			t.Fatalf("%s %q succeeded", how, s)
		}
		if err != nil || how == "parse" {
			if d := kit.Diff(kit.SnapStore(k), store); d != "" {
				t.Fatalf("%s %q (%v) changed the store: %s", how, s, err, d)
			}
		} else if len(k.Messages) != 1 {
			t.Fatalf("%s %q: %d messages", how, s, len(k.Messages))
		}
		if m != nil {
			noPanic(t, fmt.Sprintf("printing %q", s), func() { _ = m.String() })
		}
		kit.Case(s != "", fmt.Sprintf("%s %q", how, s), "any "+how, map[bool]string{true: "parsed", false: "refused"}[err == nil])
	})
}
