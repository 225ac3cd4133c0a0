package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

const trafficMark = "=TRAFFIC=EXAMPLE=\n"

// trafficOf takes the traffic text out of a printed message and compares the
// group count it states.
func trafficOf(t rapid.TB, printed string) string {
	t.Helper()
	i := strings.LastIndex(printed, trafficMark)
	if i < 0 {
		t.Fatalf("no traffic text in the printed message:\n%s", printed)
	}
	traffic := printed[i+len(trafficMark):]
	eq := strings.Index(traffic, "=")
	if eq < 0 {
		t.Fatalf("traffic without text: %q", traffic)
	}
	end := strings.LastIndex(traffic, "=")
	head := strings.Fields(traffic[:eq])
	if end == eq || len(head) == 0 {
		t.Fatalf("traffic text is not complete: %q", traffic)
	}
	n, err := strconv.Atoi(head[len(head)-1])
	if sent := strings.Fields(traffic[eq+1 : end]); err != nil || n != len(sent) {
		t.Fatalf("%d groups are sent, but the stated count is %q: %q", len(sent), head[len(head)-1], traffic)
	}
	return traffic
}

// rewrap draws another layout of the same words.
func rewrap(t *rapid.T, text string) string {
	words := strings.Fields(text)
	if len(words) == 0 {
		return text
	}
	switch rapid.IntRange(0, 4).Draw(t, "layout") {
	case 0:
		return text
	case 1:
		return strings.Join(words, " ")
	case 2:
		return strings.Join(words, "\n") + "\n"
	case 3: // some other width
		width := rapid.IntRange(1, 120).Draw(t, "width")
		nl := rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(t, "lineBreak")
		var b strings.Builder
		n := 0
		for i, w := range words {
			if i > 0 {
				if n+1+len(w) > width {
					b.WriteString(nl)
					n = 0
				} else {
					b.WriteString(" ")
					n++
				}
			}
			b.WriteString(w)
			n += len(w)
		}
		return b.String() + nl
	}
	gaps := rapid.SliceOfN(rapid.SampledFrom([]string{" ", " ", "  ", "\n", "\r\n", " \n", "\n  ", "   ", "\t", "\n\t", "\r"}), 1, 40).Draw(t, "gaps")
	var b strings.Builder
	b.WriteString(rapid.SampledFrom([]string{"", "\n", "  "}).Draw(t, "lead"))
	for i, w := range words {
		if i > 0 {
			b.WriteString(gaps[i%len(gaps)])
		}
		b.WriteString(w)
	}
	return b.String()
}

// sameMessage compares what the receiver has with what the sender has.
func sameMessage(t rapid.TB, got, sent *krypto431.Message, to []string, what string) {
	t.Helper()
	g, s := kit.SnapMsg(got), kit.SnapMsg(sent)
	type essence struct {
		Text, From, Group, KeyId, Cipher string
		To                               []string
	}
	a := essence{g.PlainText, g.From, got.DTG.String(), g.KeyId, g.CipherText, g.Recipients}
	b := essence{s.PlainText, s.From, sent.DTG.String(), s.KeyId, s.CipherText, to}
	if d := kit.Diff(a, b); d != "" {
		t.Fatalf("%s: the receiver's message differs from the sender's: %s", what, d)
	}
	if !got.DTG.Time.Equal(sent.DTG.Time.Truncate(time.Minute)) {
		t.Fatalf("%s: the receiver's time is %v, the sender's %v", what, got.DTG.Time, sent.DTG.Time)
	}
}

// otherCall draws a call-sign resembling, but not, the given one.
func otherCall(t *rapid.T, own string) string {
	for i := 0; ; i++ {
		c := ""
		switch rapid.IntRange(0, 6).Draw(t, "otherCall") {
		case 0:
			c = own + "/P"
		case 1:
			c = own + kit.Letters(t, 1, "suffix")
		case 2:
			c = own[:len(own)-1]
		case 3:
			c = own[1:]
		case 4:
			c = kit.Letters(t, 1, "prefix") + own
		case 5:
			c = own[1:] + own[:1]
		default:
			c = kit.Call(t, "other")
		}
		if c != own && c != "" && c != "DE" && strings.Trim(c, "/") != "" {
			return c
		}
		if i > 20 {
			return "SK7RN"
		}
	}
}

var stations = []string{"SA6MWA", "QJ", "VJ", "AB/P", "K2", "7S0X", "BA", "OH0A/M/QRP"}

// outgoing makes a message of the station, by radiogram or directly.
func outgoing(t *rapid.T, k *krypto431.Krypto431, text string, to []string, keyId ...string) (*krypto431.Message, error) {
	if rapid.Bool().Draw(t, "direct") {
		m := kit.Msg(k, text, to...)
		if rapid.Bool().Draw(t, "now") {
			m.DTG.Time = time.Now().In(kit.Zone(t, "zone"))
		} else {
			m.DTG.Time = drawGroup(t, "dtg").t
		}
		m.Id = k.NewUniqueMessageId()
		if len(keyId) > 0 {
			m.KeyId = []rune(keyId[0])
		}
		if err := m.Encipher(); err != nil {
			return nil, err
		}
		k.Messages = append(k.Messages, *m)
		return m, nil
	}
	dtg := ""
	switch rapid.IntRange(0, 2).Draw(t, "dtg") {
	case 1:
		dtg = drawGroup(t, "dtg").spell(t, "dtg") + " "
	case 2:
		dtg = fmt.Sprintf("%02d%02d%02d ", rapid.IntRange(1, 28).Draw(t, "day"), rapid.IntRange(0, 23).Draw(t, "hour"), rapid.IntRange(0, 59).Draw(t, "minute"))
	}
	list := strings.Join(to, rapid.SampledFrom([]string{" ", ",", ", "}).Draw(t, "comma"))
	return k.NewTextMessage(append([]string{kit.MixCase(t, list+" DE "+string(k.CallSign), "header") + " " + dtg + "= " + text + " = K"}, keyId...)...)
}

// bodyText draws a text which a radiogram can carry as it is.
func bodyText(t *rapid.T, max int, label string) string {
	s := strings.TrimRight(strings.TrimSpace(kit.Text(t, 1, max, label)), "+ ")
	for _, r := range []string{" K", " k"} {
		if strings.HasSuffix(s, r) {
			s += "."
		}
	}
	if s == "" {
		s = "TEXT"
	}
	return s
}

var trafficGroups = regexp.MustCompile(`= (.*) = K\s*$`)

func TestC16(t *testing.T) {
	kit.Rule("a sending station enciphers generated texts of all supported characters by radiogram or directly, prints the message at a drawn width, and the traffic text in it is re-wrapped (line breaks, widths, runs of blanks) and entered at a receiving station holding copies of the keys in another order; messages from the own and from resembling call-signs; traffic whose keys are missing (also only the last of a chain) or whose groups are damaged; the same with the command-line tool on two stores; non-trivial = several keys or addressees, or the layout differs from the printed one, or the message could not be deciphered at first")
	kit.Check(t, "traffic", 12500, 150000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geo(t, 150)
		own := rapid.SampledFrom(stations).Draw(t, "sender")
		call := otherCall(t, own)
		a := kit.Station(g, own, krypto431.WithColumns(rapid.IntRange(85, 140).Draw(t, "columns")))
		to := kit.CallSet(t, 0, 5, "to", own)
		if rapid.IntRange(0, 3).Draw(t, "toReceiver") == 0 && len(call) > 1 {
			to = append(to, call)
		}
		text := bodyText(t, maxText(g, 120), "text")
		generate(t, a, min(keysFor(g, len([]rune(text))), 60), g.K, to...)
		perm := rapid.Permutation(indexes(len(a.Keys))).Draw(t, "order")
		b := kit.Receiver(g, "XX", a.Keys, perm)
		b.CallSign = []rune(call)
		m, err := outgoing(t, a, text, to)
		if err != nil {
			kit.Case(false, "not enciphered: "+err.Error(), "not enciphered")
			return
		}
		if string(m.PlainText) != text {
			t.Fatalf("the text %q became %q", text, string(m.PlainText))
		}
		var printed string
		switch rapid.IntRange(0, 2).Draw(t, "print") {
		case 0:
			printed = m.String()
		case 1:
			printed = m.String(rapid.IntRange(1, 150).Draw(t, "printWidth"))
		case 2:
			printed = a.MessagesAsText(kit.AllMsgs)
		}
		traffic := trafficOf(t, printed)
		gr, err := m.Groups()
		must(t, err, "Groups")
		if x := strings.Join(strings.Fields(traffic), " "); !strings.HasSuffix(x, "= "+string(m.KeyId)+" "+string(*gr)+" = K") {
			t.Fatalf("the traffic %q does not end with the groups %s %s", x, string(m.KeyId), string(*gr))
		}
		entered := rewrap(t, traffic)
		what := fmt.Sprintf("%q sent to %v as %q", text, to, entered)
		var r *krypto431.Message
		if rapid.Bool().Draw(t, "reader") {
			r, err = b.NewTextMessageFromReader(&bytewise{r: strings.NewReader(entered)})
		} else {
			r, err = b.NewTextMessage(entered)
		}
		must(t, err, what)
		want := append([]string(nil), to...)
		if len(want) == 0 {
			want = []string{call}
		}
		if len(b.Messages) != 1 {
			t.Fatalf("%s: the receiver has %d messages", what, len(b.Messages))
		}
		sameMessage(t, r, m, want, what)
		sameMessage(t, &b.Messages[0], m, want, what)
		// the same keys are used up on both sides
		used := map[string]bool{}
		for i := range a.Keys {
			used[string(a.Keys[i].Id)] = a.Keys[i].Used
		}
		for i := range b.Keys {
			if b.Keys[i].Used != used[string(b.Keys[i].Id)] {
				t.Fatalf("%s: key %s is used: %v at the sender, %v at the receiver", what, string(b.Keys[i].Id), used[string(b.Keys[i].Id)], b.Keys[i].Used)
			}
		}
		// the receiver can pass it on
		if len(to) > 0 {
			again := trafficOf(t, r.String())
			if squeeze(again) != squeeze(traffic) {
				t.Fatalf("%s is printed by the receiver as %q", what, again)
			}
		}
		chained := 0
		for _, u := range used {
			if u {
				chained++
			}
		}
		kit.Case(chained > 1 || len(to) > 1 || entered != traffic, what, fmt.Sprintf("%d keys", min(3, chained)), fmt.Sprintf("%d addressees", len(to)), map[bool]string{true: "re-wrapped"}[entered != traffic])
	})
	kit.Enum(t, "long", func(t *testing.T, fail func(string, ...any)) {
		kit.Entropy(7)
		for _, n := range []int{950, 999, 1000, 1001, 3000, 9990, 9997, 9998, 9999, 10000, 10001, 14000} {
			g := kit.Geometry{G: 1, K: 1000}
			a := kit.Station(g, "SA6MWA")
			generate(t, a, 15, 1000, "QJ")
			b := kit.Receiver(g, "QJ", a.Keys, indexes(len(a.Keys)))
			m, err := a.NewTextMessage("QJ DE SA6MWA 012345ZJAN23 = " + strings.Repeat("X", n) + " = K")
			if err != nil {
				fail("%d letters: %v", n, err)
			}
			r, err := b.NewTextMessage(trafficOf(&failT{T: t, fail: fail}, m.String()))
			if err != nil {
				fail("%d letters: %v", n, err)
			}
			sameMessage(&failT{T: t, fail: fail}, r, m, []string{"QJ"}, fmt.Sprintf("a message of %d letters", n))
			kit.Case(true, fmt.Sprintf("a message of %d letters", n), "long")
		}
	})
	kit.Check(t, "whose", 20000, 250000, func(t *rapid.T) {
		// own messages are enciphered and only they
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: 5, K: 80}
		own := rapid.SampledFrom(stations).Draw(t, "own")
		k := kit.Station(g, own)
		generate(t, k, 4, 80)
		for i := range k.Keys {
			k.Keys[i].Keepers = kit.Runes(stations...)
		}
		from := own
		if rapid.Bool().Draw(t, "foreign") {
			from = otherCall(t, own)
		}
		text := ""
		switch rapid.IntRange(0, 2).Draw(t, "text") {
		case 0:
			text = bodyText(t, 40, "text")
		case 1: // like ciphertext, key known
			text = string(k.Keys[0].Id) + " " + grouped(kit.Letters(t, 5*rapid.IntRange(1, 5).Draw(t, "groups"), "letters"), 5)
		case 2: // like ciphertext, key not known
			text = grouped(kit.Letters(t, 5*rapid.IntRange(2, 6).Draw(t, "groups"), "letters"), 5)
		}
		to := kit.CallSet(t, 0, 2, "to", own)
		for i := range to {
			to[i] = rapid.SampledFrom(without(stations, own)).Draw(t, "to")
		}
		s := strings.Join(to, " ") + " DE " + kit.MixCase(t, from, "from") + " = " + text + " = K"
		before := kit.SnapKeys(k)
		m, err := k.NewTextMessage(s)
		what := fmt.Sprintf("%q entered at %s", s, own)
		if from == own {
			if len(to) == 0 { // keys of nobody only
				if err == nil {
					t.Fatalf("%s was enciphered with a key of others: %#v", what, m)
				}
				kit.Case(false, what, "own, refused")
				return
			}
			must(t, err, what)
			if len(m.CipherText) == 0 || string(m.PlainText) != text || string(m.From) != own || string(m.KeyId) != before[0].Id {
				t.Fatalf("%s is not enciphered: %#v", what, m)
			}
			d, err := kit.ModelSheet(g.G, kit.KeyMap(before)).Decipher(string(m.KeyId), string(m.CipherText))
			if err != nil || d.Text != text {
				t.Fatalf("%s: the ciphertext %s deciphers to %q (%v)", what, string(m.CipherText), d.Text, err)
			}
			kit.Case(true, what, "own")
			return
		}
		must(t, err, what)
		if string(m.From) != strings.ToUpper(from) {
			t.Fatalf("%s has sender %q", what, string(m.From))
		}
		received(t, k, m, before, g.G, text, what)
		kit.Case(true, what, "foreign")
	})
	kit.Check(t, "undecipherable", 25000, 300000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 4, 2, 3, 7}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		k := kit.Station(g, "SA6MWA")
		if rapid.IntRange(0, 4).Draw(t, "noKeys") > 0 {
			hostileStore(t, k, g)
		}
		keyid, cipher, kind := hostileCipher(t, k, g)
		text := keyid + " " + cipher
		if lettersOnly(cipher) {
			text = keyid + " " + grouped(cipher, g.G)
		}
		if strings.TrimSpace(text) == "" || strings.ContainsAny(text, "=+[\r\n\x00") || strings.HasSuffix(text, " K") || strings.HasSuffix(text, " ") {
			return
		}
		before := kit.SnapKeys(k)
		s := "AA BB DE QJ 012345ZFEB23 = " + text + " = K"
		entered := rewrap(t, s)
		what := fmt.Sprintf("%q", entered)
		var m *krypto431.Message
		var err error
		noPanic(t, what, func() { m, err = k.NewTextMessage(entered) })
		must(t, err, what)
		ok := received(t, k, m, before, g.G, text, what)
		if len(k.Messages) != 1 || kit.Diff(kit.SnapMsg(&k.Messages[0]), kit.SnapMsg(m)) != "" {
			t.Fatalf("%s: not kept as it was returned", what)
		}
		kit.Case(!ok, what, kind, map[bool]string{true: "deciphered", false: "kept"}[ok])
	})
	kit.Check(t, "late", 7500, 80000, func(t *rapid.T) {
		// keys turn up after the message
		kit.Entropy(kit.Seed(t))
		g := kit.Geometry{G: rapid.SampledFrom([]int{5, 3, 7}).Draw(t, "groupSize"), K: rapid.IntRange(25, 60).Draw(t, "keyLength")}
		a := kit.Station(g, "SA6MWA")
		text := bodyText(t, 60, "text")
		generate(t, a, keysFor(g, len([]rune(text))), g.K, "QJ")
		m, err := outgoing(t, a, text, []string{"QJ"})
		if err != nil {
			kit.Case(false, "not enciphered: "+err.Error(), "not enciphered")
			return
		}
		var used []int
		for i := range a.Keys {
			if a.Keys[i].Used {
				used = append(used, i)
			}
		}
		var have, miss []int
		gone := rapid.SampledFrom(used).Draw(t, "missing")
		for i := range a.Keys {
			if i == gone || rapid.IntRange(0, 9).Draw(t, "more") == 0 {
				miss = append(miss, i)
			} else {
				have = append(have, i)
			}
		}
		b := kit.Receiver(g, "QJ", a.Keys, have)
		for i := range b.Keys {
			b.Keys[i].Used = false
		}
		before := kit.SnapKeys(b)
		traffic := trafficOf(t, m.String())
		r, err := b.NewTextMessage(rewrap(t, traffic))
		what := fmt.Sprintf("%q without keys %v", traffic, miss)
		must(t, err, what)
		x := trafficGroups.FindStringSubmatch(strings.Join(strings.Fields(traffic), " "))
		if received(t, b, r, before, g.G, x[1], what) {
			t.Fatalf("%s was deciphered", what)
		}
		for _, i := range miss {
			key := kit.CloneKey(&a.Keys[i], b)
			key.Used = false
			b.Keys = append(b.Keys, key)
		}
		if rapid.Bool().Draw(t, "listed") {
			b.SummaryOfMessages(kit.AllMsgs)
		} else {
			must(t, b.Messages[0].TryDecipherPlainText(), what+", deciphered later")
		}
		sameMessage(t, &b.Messages[0], m, []string{"QJ"}, what+", deciphered later")
		for i := range b.Keys {
			id := string(b.Keys[i].Id)
			for j := range a.Keys {
				if string(a.Keys[j].Id) == id && a.Keys[j].Used != b.Keys[i].Used {
					t.Fatalf("%s, deciphered later: key %s is used: %v", what, id, b.Keys[i].Used)
				}
			}
		}
		kit.Case(true, what, fmt.Sprintf("%d keys", min(3, len(used))), map[bool]string{true: "first key missing", false: "a later key missing"}[string(a.Keys[gone].Id) == string(m.KeyId)])
	})
	kit.Check(t, "tool", 160, 1500, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c16")
		defer done()
		g := kit.Geo(t, 100)
		to := kit.CallSet(t, 1, 3, "to", "SA6MWA")
		fa, fb := filepath.Join(dir, "a"), filepath.Join(dir, "b")
		a := fileStation(g, "SA6MWA", fa)
		text := bodyText(t, maxText(g, 60), "text")
		generate(t, a, keysFor(g, len([]rune(text))), g.K, to...)
		b := fileStation(g, to[0], fb)
		for _, i := range rapid.Permutation(indexes(len(a.Keys))).Draw(t, "order") {
			b.Keys = append(b.Keys, kit.CloneKey(&a.Keys[i], b))
		}
		must(t, a.Save(), "saving")
		must(t, b.Save(), "saving")
		env := []string{"-K", thePFK, "-f"}
		radiogram := strings.Join(to, " ") + " DE sa6mwa " + drawGroup(t, "dtg").text + " = " + text + " = K\n"
		args := append(append([]string{}, env...), fa, "messages", "-n")
		out := cli(t, dir, radiogram, args...)
		if out.exit != 0 {
			kit.Case(false, "not sent: "+out.err, "not sent")
			return
		}
		sent := stored(t, fa)
		if len(sent.Msgs) != 1 {
			t.Fatalf("%q: %d messages are stored", radiogram, len(sent.Msgs))
		}
		traffic := trafficOf(t, out.out)
		got := cliOK(t, dir, rewrap(t, traffic), append(append([]string{}, env...), fb, "messages", "-n")...)
		rec := stored(t, fb)
		if len(rec.Msgs) != 1 {
			t.Fatalf("%q: %d messages are stored by the receiver", traffic, len(rec.Msgs))
		}
		s, r := sent.Msgs[0], rec.Msgs[0]
		s.Id, s.Radiogram, r.Id, r.Radiogram = "", "", "", ""
		if d := kit.Diff(r, s); d != "" || s.PlainText != text {
			t.Fatalf("%q sent as %q: the receiver's message differs: %s", radiogram, traffic, d)
		}
		if squeeze(trafficOf(t, got.out)) != squeeze(traffic) || !strings.Contains(squeeze(got.out), squeeze("=TEXT="+text)) {
			t.Fatalf("%q sent as %q is shown by the receiver as %s", radiogram, traffic, got.out)
		}
		for _, x := range sent.Keys {
			if y := findKey(rec.Keys, x.Id); y == nil || y.Used != x.Used {
				t.Fatalf("%q: key %s is used: %v at the sender, at the receiver %v", radiogram, x.Id, x.Used, y)
			}
		}
		kit.Case(true, radiogram, "tool")
	})
}

// received checks a received message against deciphering it by hand.
func received(t *rapid.T, k *krypto431.Krypto431, m *krypto431.Message, before []kit.KeySnap, g int, text, what string) bool {
	t.Helper()
	if len(m.KeyId) > 0 {
		d := checkConsumed(t, k, before, g, string(m.KeyId), string(m.CipherText), true, what)
		if string(m.PlainText) != d.Text || squeeze(strings.ToUpper(text)) != string(m.KeyId)+string(m.CipherText) {
			t.Fatalf("%s became text %q, key %q and ciphertext %q instead of %q (%v)", what, string(m.PlainText), string(m.KeyId), string(m.CipherText), d.Text, d)
		}
		return true
	}
	if len(m.CipherText) != 0 || strings.Join(strings.Fields(string(m.PlainText)), " ") != strings.Join(strings.Fields(text), " ") {
		t.Fatalf("%s is kept as text %q, key %q and ciphertext %q", what, string(m.PlainText), string(m.KeyId), string(m.CipherText))
	}
	if d := kit.Diff(kit.SnapKeys(k), before); d != "" {
		t.Fatalf("%s was not deciphered, but changed keys: %s", what, d)
	}
	// it can not be deciphered by hand either
	up := squeeze(strings.ToUpper(text))
	if lettersOnly(up) && len(up) >= 2*g {
		keys := kit.KeyMap(before)
		if _, ok := keys[up[:g]]; ok {
			if d, err := kit.ModelSheet(g, keys).Decipher(up[:g], up[g:]); err == nil && d.Text != "" && (len(up)-g)%g == 0 && distinctIds(before) {
				t.Fatalf("%s was kept as received, but deciphers to %q", what, d.Text)
			}
		}
	}
	return false
}

func distinctIds(ks []kit.KeySnap) bool {
	seen := map[string]bool{}
	for _, k := range ks {
		if seen[k.Id] || !lettersOnly(k.Runes) {
			return false
		}
		seen[k.Id] = true
	}
	return true
}

func indexes(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

var _ = os.Remove
