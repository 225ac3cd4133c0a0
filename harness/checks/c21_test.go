package checks

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// sheetKey is a key as it should come out on paper.
type sheetKey struct {
	id, letters, created, expires, comment string
	keepers                                []string
	used, compromised                      bool
}

// drawCall draws something which can be a call-sign.
func drawCall(t *rapid.T, label string) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"QJ", "VJ", "BA", "SA6MWA", "OH0A/M", "ÅÄÖ"}), rapid.StringMatching(`[A-Z0-9]{2,9}`), rapid.StringMatching(`[A-Z0-9/]{1,3}[A-Z]{15,30}`)).Draw(t, label)
}

// drawCalls draws a list of call-signs, sometimes a long one.
func drawCalls(t *rapid.T, min int, label string) (calls []string) {
	n := rapid.OneOf(rapid.IntRange(min, 3), rapid.IntRange(min, 3), rapid.IntRange(min, 30)).Draw(t, label+"N")
	for i := 0; i < n; i++ {
		calls = append(calls, drawCall(t, label))
	}
	return
}

// line draws a text of one line.
func line(t *rapid.T, max int, label string) string {
	words := rapid.SliceOfN(rapid.OneOf(rapid.StringMatching(`[A-Za-z0-9.,?:+/_*()\\%-]{1,12}`), rapid.SampledFrom([]string{"ÅÄÖ", "blå", "»x«", "КЛЮЧ", "ID", "TO:", "DE", "-", "_____", "(", `\`, "a)b", "No", "Yes"})), 0, max).Draw(t, label)
	return strings.Join(words, " ")
}

// paperKeys fills a store with keys which have their letters from the generator.
func paperKeys(t *rapid.T, k *krypto431.Krypto431, n int) (ks []sheetKey) {
	for i := 0; i < n; i++ {
		created, expires := drawGroup(t, "created"), drawGroup(t, "expires")
		keepers := drawCalls(t, 0, "keepers")
		must(t, k.GenerateKeys(1, nil), "generating")
		x := &k.Keys[len(k.Keys)-1]
		x.AddKeeper(kit.Runes(keepers...)...)
		s := sheetKey{created: created.text, expires: expires.text, keepers: kit.Strs(x.Keepers)}
		x.Created.Time = created.t.Add(time.Duration(rapid.IntRange(0, 59).Draw(t, "seconds")) * time.Second)
		x.Expires.Time = expires.t
		x.Used = rapid.Bool().Draw(t, "used")
		x.Compromised = rapid.IntRange(0, 3).Draw(t, "compromised") == 0
		if rapid.IntRange(0, 2).Draw(t, "commented") == 0 {
			x.Comment = []rune(line(t, rapid.SampledFrom([]int{6, 6, 40}).Draw(t, "commentWords"), "comment"))
		}
		if rapid.IntRange(0, 9).Draw(t, "otherLength") == 0 {
			x.Runes = []rune(manyLetters(t, 400))
		}
		if i > 0 && rapid.IntRange(0, 9).Draw(t, "sameLetters") == 9 {
			x.Runes = []rune(ks[i-1].letters)
		}
		s.id, s.letters, s.comment, s.used, s.compromised = string(x.Id), string(x.Runes), string(x.Comment), x.Used, x.Compromised
		ks = append(ks, s)
	}
	return
}

// howMany draws how many things there are, rarely very many.
func howMany(t *rapid.T, most, crowd int, label string) int {
	if rapid.IntRange(0, 99).Draw(t, label+"Crowd") >= 98 {
		return rapid.IntRange(1, crowd).Draw(t, label)
	}
	return rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(1, most)).Draw(t, label)
}

// chooseSome draws which of n items are selected.
func chooseSome(t *rapid.T, n int) (pick []bool, count int, name string) {
	pick = make([]bool, n)
	kind := rapid.SampledFrom([]string{"all", "some", "some", "some", "one", "none"}).Draw(t, "selection")
	for i := range pick {
		switch kind {
		case "all":
			pick[i] = true
		case "some":
			pick[i] = rapid.Bool().Draw(t, "pick")
		}
	}
	if kind == "one" && n > 0 {
		pick[rapid.IntRange(0, n-1).Draw(t, "which")] = true
	}
	for _, p := range pick {
		if p {
			count++
		}
	}
	return pick, count, fmt.Sprintf("%d of %d", count, n)
}

// sheetsSay compares printed key sheets with the keys which should be on them.
func sheetsSay(t rapid.TB, text string, want []sheetKey, g int, what string) {
	t.Helper()
	if i := strings.Index(text, "____"); len(want) > 0 && (i < 0 || strings.TrimSpace(text[:i]) != "") {
		t.Fatalf("%s: something comes before the first sheet: %.200q", what, text)
	}
	sheets := splitSheets(text)
	if len(sheets) != len(want) {
		t.Fatalf("%s: %d sheets instead of %d:\n%s", what, len(sheets), len(want), text)
	}
	tables := kit.ModelSheet(g, nil)
	for i, x := range sheets {
		s, err := parseSheet(x)
		if err != nil {
			t.Fatalf("%s: sheet %d of key %s: %v:\n%s", what, i, want[i].id, err, x)
		}
		w := want[i]
		bad := ""
		mark := " "
		if w.used {
			mark = "X"
		}
		switch {
		case s.id != w.id:
			bad = "key id " + s.id
		case s.letters != w.letters:
			bad = "letters " + s.letters
		case s.expires != w.expires:
			bad = "expiry " + s.expires
		case s.created != w.created:
			bad = "creation " + s.created
		case s.used != mark:
			bad = "used mark " + s.used
		case len(w.keepers) > 0 && strings.Join(s.keepers, ",") != strings.Join(w.keepers, ","):
			bad = "keepers " + strings.Join(s.keepers, ",")
		case len(w.keepers) == 0 && len(s.keepers) > 0 && strings.Join(s.keepers, ",") != "NIL" && strings.Join(s.keepers, ",") != "Anonymous":
			bad = "keepers " + strings.Join(s.keepers, ",")
		case string(s.t1) != string(tables.T1) || string(s.t2) != string(tables.T2):
			bad = "legend"
		}
		for j, gr := range s.groups {
			if len(gr) != g && (j < len(s.groups)-1 || len(gr) > g) {
				bad = "group " + gr
			}
		}
		for a := byte('A'); a <= 'Z'; a++ {
			for b := byte('A'); b <= 'Z'; b++ {
				if s.third(a, b) != kit.Third(a, b) {
					bad = fmt.Sprintf("third letter of %c%c: %c", a, b, s.third(a, b))
				}
			}
		}
		if bad != "" {
			t.Fatalf("%s: the sheet of key %+v says %s:\n%s", what, w, bad, x)
		}
	}
}

// paperMsg is a message as it should come out on paper.
type paperMsg struct {
	id, dtg, from, text, keyId, cipher string
	to                                 []string
}

// paperMessages fills a store with messages, made by the instance or by hand.
func paperMessages(t *rapid.T, k *krypto431.Krypto431, g kit.Geometry, n int) (ms []paperMsg) {
	own := string(k.CallSign)
	for i := 0; i < n; i++ {
		when := drawGroup(t, "dtg")
		made := rapid.SampledFrom([]string{"sent", "received", "received text", "by hand", "by hand"}).Draw(t, "made")
		to := drawCalls(t, 1, "to")
		for i := range to { // radiograms know ASCII only
			to[i] = strings.ReplaceAll(to[i], "ÅÄÖ", "VL")
		}
		var m *krypto431.Message
		var err error
		switch made {
		case "sent":
			generate(t, k, 1, g.K, to...)
			m, err = k.NewTextMessage(strings.Join(to, " ") + " DE " + own + " " + when.text + " = " + lettersFor(t, g) + " = K")
		case "received":
			generate(t, k, 1, g.K, own)
			key := k.Keys[len(k.Keys)-1]
			cipher := strings.Repeat("ABCDE", rapid.IntRange(0, 3).Draw(t, "groups")) + "XYZ"
			m, err = k.NewTextMessage(own + " DE " + to[0] + " " + when.text + " = " + string(key.Id) + " " + grouped(cipher, g.G) + " = K")
		case "received text":
			m, err = k.NewTextMessage(own + " DE " + to[0] + " " + when.text + " = " + strings.ReplaceAll(line(t, 30, "text"), "DE", "D") + "! = K")
		default:
			x := krypto431.Message{Id: []rune(fmt.Sprintf("%s%03d", rapid.StringMatching(`[A-Za-z0-9]`).Draw(t, "id"), i)), Recipients: kit.Runes(to...), From: []rune(rapid.SampledFrom([]string{own, "QJ", "", drawCall(t, "from")}).Draw(t, "sender"))}
			if rapid.IntRange(0, 7).Draw(t, "toNobody") == 0 {
				x.Recipients = nil
			}
			x.DTG.Time = when.t
			x.PlainText = []rune(line(t, rapid.SampledFrom([]int{4, 40, 400}).Draw(t, "size"), "text"))
			if len(ms) > 0 && rapid.IntRange(0, 9).Draw(t, "sameText") == 9 {
				x.PlainText = []rune(ms[len(ms)-1].text)
			}
			if rapid.Bool().Draw(t, "enciphered") {
				x.KeyId = []rune(kit.Letters(t, g.G, "keyId"))
				x.CipherText = []rune(manyLetters(t, 5000))
			}
			x.SetInstance(k)
			k.Messages = append(k.Messages, x)
			m = &k.Messages[len(k.Messages)-1]
		}
		if err != nil {
			continue
		}
		if len(k.Messages) != len(ms)+1 {
			panic("HARNESS ERROR: the message was not added")
		}
		m = &k.Messages[len(k.Messages)-1]
		ms = append(ms, paperMsg{id: string(m.Id), dtg: when.text, from: string(m.From), text: string(m.PlainText), keyId: string(m.KeyId), cipher: string(m.CipherText), to: kit.Strs(m.Recipients)})
	}
	return
}

// manyLetters draws up to max letters.
func manyLetters(t *rapid.T, max int) string {
	n := rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, max)).Draw(t, "howMany")
	r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "letters"), 1))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + r.IntN(26))
	}
	return string(b)
}

// lettersFor draws a text which fits a key.
func lettersFor(t *rapid.T, g kit.Geometry) string {
	return kit.Text(t, 1, maxText(g, 60), "text")
}

var (
	reMsgTo   = regexp.MustCompile(`^([0-9]{6}[A-Z]+[0-9]{2})\s+TO:\s*(\S*)\s*$`)
	reMsgFrom = regexp.MustCompile(`^ID:\s*(\S+)\s+FROM \(DE\):\s*(\S*)\s*$`)
)

// messagesSay compares printed messages with those which should be there.
func messagesSay(t rapid.TB, text string, want []paperMsg, g int, what string) {
	t.Helper()
	var parts [][]string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimRight(l, "\r")
		if sepLine.MatchString(l) {
			parts = append(parts, nil)
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if len(parts) == 0 {
			t.Fatalf("%s: %q comes before the first message", what, l)
		}
		parts[len(parts)-1] = append(parts[len(parts)-1], l)
	}
	if len(parts) != len(want) {
		t.Fatalf("%s: %d messages instead of %d:\n%s", what, len(parts), len(want), text)
	}
	for i, p := range parts {
		w := want[i]
		show := strings.Join(p, "\n")
		if len(p) < 2 {
			t.Fatalf("%s: message %s is not complete:\n%s", what, w.id, show)
		}
		a, b := reMsgTo.FindStringSubmatch(p[0]), reMsgFrom.FindStringSubmatch(p[1])
		if a == nil || b == nil {
			t.Fatalf("%s: message %+v has no proper header:\n%s", what, w, show)
		}
		to := strings.Join(w.to, ",")
		if to == "" {
			to = "NIL"
		}
		if a[1] != w.dtg || a[2] != to || b[1] != w.id || b[2] != w.from && !(w.from == "" && b[2] == "NIL") {
			t.Fatalf("%s: the header of message %+v says %q %q %q %q:\n%s", what, w, a[1:], b[1:], w.dtg, w.id, show)
		}
		sect := map[string][]string{}
		name := ""
		for _, l := range p[2:] {
			if m := regexp.MustCompile(`^=([A-Z=]+)=\s*$`).FindStringSubmatch(l); m != nil {
				name = m[1]
				if _, twice := sect[name]; twice {
					t.Fatalf("%s: message %s has two parts %s:\n%s", what, w.id, name, show)
				}
				sect[name] = []string{}
				continue
			}
			if name == "" {
				t.Fatalf("%s: message %s has %q after the header:\n%s", what, w.id, l, show)
			}
			sect[name] = append(sect[name], strings.Fields(l)...)
		}
		if got := strings.Join(sect["TEXT"], " "); got != strings.Join(strings.Fields(w.text), " ") {
			t.Fatalf("%s: the text of message %s is %q instead of %q:\n%s", what, w.id, got, w.text, show)
		}
		groups := grouped(w.cipher, g)
		if w.cipher != "" {
			groups = w.keyId + " " + groups
		}
		if got := strings.Join(sect["CIPHER"], " "); got != groups {
			t.Fatalf("%s: the ciphertext of message %s is %q instead of %q:\n%s", what, w.id, got, groups, show)
		}
		if w.cipher != "" {
			tr := trafficOf(t, strings.Join(p, "\n")+"\n")
			eq := strings.Index(tr, "=")
			head := strings.Fields(tr[:eq])
			wantHead := strings.Fields(strings.Join(w.to, " ") + " DE " + w.from + " " + w.dtg)
			if len(head) < 1 || strings.Join(head[:len(head)-1], " ") != strings.Join(wantHead, " ") {
				t.Fatalf("%s: the traffic of message %+v begins with %q:\n%s", what, w, head, show)
			}
			sent := strings.Join(strings.Fields(tr[eq+1:strings.LastIndex(tr, "=")]), " ")
			if sent != groups {
				t.Fatalf("%s: the traffic of message %s is %q instead of %q:\n%s", what, w.id, sent, groups, show)
			}
		} else if len(sect["TRAFFIC=EXAMPLE"]) > 0 {
			t.Fatalf("%s: message %s has no ciphertext, but traffic:\n%s", what, w.id, show)
		}
		for n := range sect {
			if n != "TEXT" && n != "CIPHER" && n != "TRAFFIC=EXAMPLE" {
				t.Fatalf("%s: message %s has a part %s:\n%s", what, w.id, n, show)
			}
		}
	}
}

// cells cuts a line of a listing where the header has its columns.
func cells(header, line string, names []string) ([]string, error) {
	h, l := []rune(header), []rune(line)
	var at []int
	from := 0
	for _, n := range names {
		i := strings.Index(string(h[from:]), n)
		if i < 0 {
			return nil, fmt.Errorf("header %q lacks %s", header, n)
		}
		from += utf8.RuneCountInString(string(h[from:])[:i])
		at = append(at, from)
		from += len(n)
	}
	if strings.TrimSpace(string(h[from:])) != "" || at[0] != 0 {
		return nil, fmt.Errorf("header %q has more columns", header)
	}
	var c []string
	for i := range at {
		a, b := at[i], len(l)
		if i+1 < len(at) {
			b = at[i+1]
		}
		a, b = min(a, len(l)), min(b, len(l))
		cell := string(l[a:b])
		if i+1 < len(at) && b < len(l) && b > a && l[b-1] != ' ' {
			return nil, fmt.Errorf("column %s runs into the next one: %q", names[i], line)
		}
		c = append(c, strings.TrimSpace(cell))
	}
	return c, nil
}

// cramped writes where there is not always room: success means that all is there.
func cramped(t *rapid.T, size int, write func(file string) error, file string, complete func(content, note string)) {
	t.Helper()
	if rapid.IntRange(0, 2).Draw(t, "noRoom") > 0 {
		return
	}
	limit := rapid.IntRange(0, size-1).Draw(t, "room")
	if rapid.IntRange(0, 3).Draw(t, "enough") == 0 {
		limit = size + rapid.IntRange(0, 4000).Draw(t, "more")
	}
	var err error
	fileLimit(int64(limit), func() { err = write(file) })
	if err == nil {
		content, _ := readFile(file)
		complete(content, fmt.Sprintf(" with room for %d bytes of %d, which succeeded,", limit, size))
	} else if limit >= size+2000 {
		t.Fatalf("writing %d bytes with room for %d failed: %v", size, limit, err)
	}
	os.Remove(file)
}

func TestC21(t *testing.T) {
	kit.Rule("stores of generated keys (any geometry and width, 0 to 30 keepers, dates in every zone, used, compromised and commented or not) and messages (sent, received, by hand; one line up to several pages) with generated selections, printed as text, text file (over older, longer files as well), PDF (text and positions taken out of the page streams) and listed; every output parsed and compared item by item with the model, its tables with the reference; non-trivial = at least two items selected of more, or output of more than one page")
	kit.Check(t, "keys", 8000, 80000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c21")
		defer done()
		g := kit.Geo(t, 400)
		k := kit.Station(g, "SA6MWA")
		k.Columns = rapid.OneOf(rapid.IntRange(85, 110), rapid.IntRange(85, 200)).Draw(t, "columns")
		k.KeyColumns = rapid.IntRange(g.G, max(g.G, 60)).Draw(t, "keyColumns")
		ks := paperKeys(t, k, howMany(t, 14, map[bool]int{true: 20, false: 240}[g.G < 2], "keys"))
		before := kit.SnapStore(k)
		pick, count, what := chooseSome(t, len(ks))
		var want []sheetKey
		on := map[string]bool{}
		for i := range ks {
			if pick[i] {
				want = append(want, ks[i])
				on[ks[i].id] = true
			}
		}
		filter := func(x *krypto431.Key) bool { return on[string(x.Id)] }
		what += " keys"
		// text
		text := k.KeysAsText(filter)
		sheetsSay(t, text, want, g.G, what+" as text")
		for _, x := range want {
			single := k.Keys[0]
			for i := range k.Keys {
				if string(k.Keys[i].Id) == x.id {
					single = k.Keys[i]
				}
			}
			sheetsSay(t, single.String(), []sheetKey{x}, g.G, "one key as text")
		}
		// text file
		file := filepath.Join(dir, "keys.txt")
		if rapid.Bool().Draw(t, "older") {
			os.WriteFile(file, []byte(strings.Repeat("OLDER CONTENT\n", rapid.IntRange(1, 3000).Draw(t, "olderLines"))), 0600)
		}
		old, was := readFile(file)
		err := k.KeysTextFile(filter, file)
		content, is := readFile(file)
		if count == 0 {
			if err == nil || content != old || was != is {
				t.Fatalf("text file of no keys: error %v, file exists: %v", err, is)
			}
		} else {
			must(t, err, "KeysTextFile")
			if content != text {
				sheetsSay(t, content, want, g.G, what+" in a text file")
			}
			cramped(t, len(content), func(file string) error { return k.KeysTextFile(filter, file) }, filepath.Join(dir, "short.txt"), func(content, note string) { sheetsSay(t, content, want, g.G, what+" in a text file"+note) })
		}
		// PDF
		pages := 0
		if rapid.IntRange(0, 3).Draw(t, "pdf") > 0 {
			file := filepath.Join(dir, "keys.pdf")
			if rapid.Bool().Draw(t, "olderPDF") {
				os.WriteFile(file, []byte(strings.Repeat("OLDER CONTENT\n", 30000)), 0600)
			}
			old, was := readFile(file)
			must(t, k.KeysPDF(filter, file), "KeysPDF")
			content, is := readFile(file)
			if count == 0 {
				if was != is || content != old {
					t.Fatalf("PDF of no keys: file exists: %v, now %d bytes", is, len(content))
				}
			} else {
				var out string
				out, pages, err = pdfText(content)
				if err != nil {
					t.Fatalf("%s as PDF: %v", what, err)
				}
				cramped(t, len(content), func(file string) error { return k.KeysPDF(filter, file) }, filepath.Join(dir, "short.pdf"), func(content, note string) {
					if again, _, err := pdfText(content); err != nil || again != out {
						t.Fatalf("%s as PDF%s is incomplete (%v)", what, note, err)
					}
				})
				widest := 0
				for _, l := range strings.Split(text, "\n") {
					widest = max(widest, utf8.RuneCountInString(strings.TrimRight(l, " \r")))
				}
				if widest <= 105 {
					sheetsSay(t, out, want, g.G, what+" as PDF")
				} else if squeeze(out) != squeeze(text) {
					t.Fatalf("%s as PDF, wider than a page: %q instead of %q", what, squeeze(out), squeeze(text))
				}
			}
		}
		// listing
		header, lines := k.SummaryOfKeys(filter)
		if len(lines) != len(want) {
			t.Fatalf("listing of %s has %d lines", what, len(lines))
		}
		for i, l := range lines {
			if g.G < 2 {
				break // no room for the header
			}
			if strings.ContainsAny(string(l), "\n\r") {
				t.Fatalf("a line of the listing is broken: %q", string(l))
			}
			c, err := cells(string(header), string(l), []string{"ID", "KEEPERS", "CREATED", "EXPIRES", "USED", "COMPROMISED", "COMMENT"})
			w := want[i]
			yes := map[bool]string{true: "Yes", false: "No"}
			keepers := strings.Join(w.keepers, ",")
			if keepers == "" {
				keepers = "Anonymous"
			}
			expect := []string{w.id, keepers, w.created, w.expires, yes[w.used], yes[w.compromised], w.comment}
			if err != nil || strings.Join(c, "|") != strings.Join(expect, "|") {
				t.Fatalf("listing of %s: %v\n%s\n%s\ngives %q instead of %q", what, err, string(header), string(l), c, expect)
			}
		}
		if d := kit.Diff(kit.SnapStore(k), before); d != "" {
			t.Fatalf("printing changed the store: %s", d)
		}
		kit.Case(count > 1 && count < len(ks) || pages > 1, fmt.Sprintf("%s %d/%d, %d pages", what, g.G, g.K, pages), "keys", map[bool]string{true: "several pages"}[pages > 1], map[bool]string{true: "nothing selected"}[count == 0])
	})
	kit.Check(t, "messages", 8000, 80000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c21")
		defer done()
		g := kit.Geo(t, 200)
		k := kit.Station(g, rapid.SampledFrom([]string{"SA6MWA", "QJ", "OH0A/M"}).Draw(t, "own"))
		ms := paperMessages(t, k, g, howMany(t, 20, map[bool]int{true: 20, false: 400}[g.G < 2], "messages"))
		before := kit.SnapStore(k)
		pick, count, what := chooseSome(t, len(ms))
		var want []paperMsg
		on := map[string]bool{}
		for i := range ms {
			if pick[i] {
				want = append(want, ms[i])
				on[ms[i].id] = true
			}
		}
		what += " messages"
		filter := func(x *krypto431.Message) bool { return on[string(x.Id)] }
		text := k.MessagesAsText(filter)
		messagesSay(t, text, want, g.G, what+" as text")
		if len(k.Messages) > 0 {
			i := rapid.IntRange(0, len(k.Messages)-1).Draw(t, "single")
			w := rapid.IntRange(-1, 160).Draw(t, "width")
			if w > 60 {
				messagesSay(t, k.Messages[i].String(w), []paperMsg{ms[i]}, g.G, fmt.Sprintf("one message at width %d", w))
			} else {
				messagesSay(t, k.Messages[i].String(), []paperMsg{ms[i]}, g.G, "one message")
			}
		}
		file := filepath.Join(dir, "messages.txt")
		if rapid.Bool().Draw(t, "older") {
			os.WriteFile(file, []byte(strings.Repeat("OLDER CONTENT\n", rapid.IntRange(1, 3000).Draw(t, "olderLines"))), 0600)
		}
		old, was := readFile(file)
		err := k.MessagesTextFile(filter, file)
		content, is := readFile(file)
		if count == 0 {
			if err == nil || content != old || was != is {
				t.Fatalf("text file of no messages: error %v, file exists: %v", err, is)
			}
		} else {
			must(t, err, "MessagesTextFile")
			if content != text {
				messagesSay(t, content, want, g.G, what+" in a text file")
			}
			cramped(t, len(content), func(file string) error { return k.MessagesTextFile(filter, file) }, filepath.Join(dir, "short.txt"), func(content, note string) { messagesSay(t, content, want, g.G, what+" in a text file"+note) })
		}
		pages := 0
		if rapid.IntRange(0, 3).Draw(t, "pdf") > 0 {
			file := filepath.Join(dir, "messages.pdf")
			if rapid.Bool().Draw(t, "olderPDF") {
				os.WriteFile(file, []byte(strings.Repeat("OLDER CONTENT\n", 30000)), 0600)
			}
			old, was := readFile(file)
			must(t, k.MessagesPDF(filter, file), "MessagesPDF")
			content, is := readFile(file)
			if count == 0 {
				if was != is || content != old {
					t.Fatalf("PDF of no messages: file exists: %v, now %d bytes", is, len(content))
				}
			} else {
				var out string
				out, pages, err = pdfText(content)
				if err != nil {
					t.Fatalf("%s as PDF: %v", what, err)
				}
				cramped(t, len(content), func(file string) error { return k.MessagesPDF(filter, file) }, filepath.Join(dir, "short.pdf"), func(content, note string) {
					if again, _, err := pdfText(content); err != nil || again != out {
						t.Fatalf("%s as PDF%s is incomplete (%v)", what, note, err)
					}
				})
				wide := false
				for _, m := range want {
					wide = wide || 30+max(utf8.RuneCountInString(strings.Join(m.to, ",")), utf8.RuneCountInString(m.from)) > 95
					for _, word := range strings.Fields(m.text) {
						wide = wide || utf8.RuneCountInString(word) > 90
					}
				}
				if !wide {
					messagesSay(t, out, want, g.G, what+" as PDF")
				} else {
					var all string
					for i := range k.Messages {
						if pick[i] {
							all += k.Messages[i].String(95)
						}
					}
					if squeeze(out) != squeeze(all) {
						t.Fatalf("%s as PDF, wider than a page: %q instead of %q", what, squeeze(out), squeeze(all))
					}
				}
			}
		}
		if d := kit.Diff(kit.SnapStore(k), before); d != "" {
			t.Fatalf("printing changed the store: %s", d)
		}
		header, lines := k.SummaryOfMessages(filter)
		if len(lines) != len(want) {
			t.Fatalf("listing of %s has %d lines", what, len(lines))
		}
		for i, l := range lines {
			if strings.ContainsAny(string(l), "\n\r") {
				t.Fatalf("a line of the listing is broken: %q", string(l))
			}
			c, err := cells(string(header), string(l), []string{"ID", "DTG", "TO", "DE", "DIGEST"})
			w := want[i]
			to := strings.Join(w.to, ",")
			if to == "" {
				to = "NIL"
			}
			expect := []string{w.id, w.dtg, to, w.from}
			if err != nil || strings.Join(c[:4], "|") != strings.Join(expect, "|") && !(w.from == "" && c[3] == "NIL") {
				t.Fatalf("listing of %s: %v\n%s\n%s\ngives %q instead of %q", what, err, string(header), string(l), c, expect)
			}
		}
		kit.Case(count > 1 && count < len(ms) || pages > 1, fmt.Sprintf("%s %d/%d, %d pages", what, g.G, g.K, pages), "messages", map[bool]string{true: "several pages"}[pages > 1], map[bool]string{true: "nothing selected"}[count == 0])
	})
}
