package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// traffic is a message to be sent or received by the tool.
type traffic struct {
	kind      string // send, receive, list, delete
	g         kit.Geometry
	body      string // what is to be sent or what was sent
	radiogram string
	args      []string
	content   string // the store before, as a file
	before    kit.Snap
	pdf       bool
	used      []string // keys of a received message
	file      string   // printed to as well
}

// uncovered finds cipher text of the body in some output: the letters which
// decipher with one of the keys to its beginning.
func (x *traffic) uncovered(out string) (letters string, ok bool) {
	words := strings.Fields(out)
	sheet := kit.ModelSheet(x.g.G, kit.KeyMap(x.before.Keys))
	for i := range words {
		if !lettersOnly(words[i]) || words[i] == "" {
			continue
		}
		run := ""
		for j := i; j < len(words) && len(run) < 40 && lettersOnly(words[j]); j++ {
			run += words[j]
		}
		if len(run) < 6 {
			continue
		}
		for _, start := range []int{0, x.g.G} { // with and without the key id
			if start >= len(run) {
				continue
			}
			for _, k := range x.before.Keys {
				if d, _ := sheet.Decipher(k.Id, run[start:]); len(d.Text) >= 5 && strings.HasPrefix(x.body, d.Text[:5]) {
					return run[start:], true
				}
			}
		}
	}
	return "", false
}

// shown tells whether some output reveals what must be recorded before.
func (x *traffic) shown(out string) bool {
	if x.kind == "send" {
		_, ok := x.uncovered(out)
		return ok
	}
	return strings.Contains(out, x.body[:8])
}

// recorded checks whether the store says that the message was sent, or that
// its keys are used.
func (x *traffic) recorded(file string) string {
	k, err := opened(file, thePFK)
	if err != nil {
		return "the store does not open: " + err.Error()
	}
	s := kit.SnapStore(k)
	if x.kind != "send" {
		for _, id := range x.used {
			if key := findKey(s.Keys, id); key != nil && !key.Used {
				return "key " + id + " is not used"
			}
		}
		return ""
	}
	sheet := kit.ModelSheet(x.g.G, kit.KeyMap(x.before.Keys))
	was := map[string]bool{}
	for _, m := range x.before.Msgs {
		was[m.Id] = true
	}
	for _, m := range s.Msgs {
		if was[m.Id] || m.CipherText == "" {
			continue
		}
		d, err := sheet.Decipher(m.KeyId, m.CipherText)
		if err != nil || d.Text != x.body {
			continue
		}
		for _, id := range d.Used {
			if key := findKey(s.Keys, id); key != nil && !key.Used {
				return fmt.Sprintf("key %s of message %s is not used", id, m.Id)
			}
		}
		return ""
	}
	return "the message is not recorded"
}

var endOfHelp = regexp.MustCompile(`(?m)^_{20,}`)

// drawTraffic makes a store and something for the tool to do with it.
func drawTraffic(t *rapid.T, dir string) *traffic {
	x := &traffic{g: kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 3, 4, 6}).Draw(t, "groupSize"), K: rapid.IntRange(20, 60).Draw(t, "keyLength")}}
	x.kind = rapid.SampledFrom([]string{"send", "send", "send", "receive", "receive", "list", "delete"}).Draw(t, "kind")
	file := filepath.Join(dir, "make")
	k := fileStation(x.g, "SA6MWA", file)
	n := rapid.IntRange(6, 18).Draw(t, "keys")
	generate(t, k, n, x.g.K, "QJ", "VJ")
	if rapid.Bool().Draw(t, "others") {
		addIneligible(t, k, x.g, []string{"QJ"}, 4)
	}
	words := 1 + rapid.IntRange(0, 6).Draw(t, "moreWords")
	x.body = kit.Letters(t, 9, "body")
	for i := 1; i < words; i++ {
		x.body += " " + kit.Letters(t, 6, "body")
	}
	for i := rapid.IntRange(0, 2).Draw(t, "messages"); i > 0; i-- {
		if _, err := k.NewTextMessage("QJ DE SA6MWA = OLDER = K"); err != nil {
			break
		}
	}
	mname := rapid.SampledFrom([]string{"messages", "m"}).Draw(t, "name")
	x.args = []string{mname, "-n"}
	switch x.kind {
	case "send":
		x.radiogram = rapid.SampledFrom([]string{"QJ DE SA6MWA = ", "DE SA6MWA = ", "QJ VJ DE SA6MWA 012345ZJAN23 = ", "QJ DE SA6MWA TLX 012345ZJAN23 7 = "}).Draw(t, "head")
		if strings.HasPrefix(x.radiogram, "DE") {
			generate(t, k, n, x.g.K)
		}
		x.radiogram += x.body + " = K"
	default:
		snap := kit.SnapKeys(k)
		var free []kit.KeySnap
		for _, key := range snap {
			if lettersOnly(key.Runes) && len(key.Runes) >= 20 && len(key.Id) == x.g.G {
				free = append(free, key)
			}
		}
		if len(free) < 6 {
			t.Skip("not enough keys")
		}
		c := kit.ModelSheet(x.g.G, kit.KeyMap(snap)).NewCoder(free[0].Id)
		x.used = []string{free[0].Id}
		for _, r := range x.body {
			if c.Left() < 8+x.g.G*2 {
				if len(x.used) >= len(free) {
					t.Skip("not enough keys")
				}
				id := free[len(x.used)].Id
				c.ChangeKey(id)
				x.used = append(x.used, id)
			}
			c.Put(r)
		}
		c.Pad()
		cipher := free[0].Id + " " + grouped(c.Cipher(), x.g.G)
		x.radiogram = "SA6MWA DE QJ 012345ZJAN23 = " + cipher + " = K"
		if x.kind == "list" || x.kind == "delete" {
			x.args = []string{mname, "-l"}
			if x.kind == "delete" { // asks which, of a list
				x.args = []string{mname, rapid.SampledFrom([]string{"-d", "--delete"}).Draw(t, "flag")}
				x.radiogram = rapid.SampledFrom([]string{"", x.radiogram}).Draw(t, "input")
			}
			// among others, which stay as they are
			texts := []string{cipher}
			for i := rapid.IntRange(0, 3).Draw(t, "beside"); i > 0; i-- {
				texts = append(texts, rapid.SampledFrom([]string{"PLAIN TEXT 123", strings.Repeat("Z", x.g.G) + " " + grouped(kit.Letters(t, 4*x.g.G, "unknown"), x.g.G), ""}).Draw(t, "besideText"))
			}
			for _, text := range rapid.Permutation(texts).Draw(t, "order") {
				m := kit.Msg(k, text, "SA6MWA")
				m.Id = k.NewUniqueMessageId()
				m.From = []rune("QJ")
				k.Messages = append(k.Messages, *m)
			}
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "more") {
	case 0:
		x.args = append(x.args, "-l")
	case 1:
		x.file = "print.txt"
		x.args = append(x.args, "-o", x.file)
	}
	x.before = kit.SnapStore(k)
	must(t, k.Save(), "saving")
	x.content, _ = readFile(file)
	return x
}

// attempt runs the tool on a fresh copy of the store.
func (x *traffic) attempt(t *rapid.T, dir string, what string, decide func(i int, op kit.Op) kit.Action) (*kit.Outcome, string) {
	t.Helper()
	must(t, os.Mkdir(dir, 0700), "Mkdir")
	file := filepath.Join(dir, "store")
	must(t, os.WriteFile(file, []byte(x.content), 0600), "WriteFile")
	type moment struct {
		size  int
		state string
	}
	var writes []moment
	seen, state := "", ""
	out, err := kit.Guard(append([]string{kit.CLI(), "-f", file, "-K", thePFK}, x.args...), cliEnv(dir), strings.NewReader(x.radiogram), dir, func(i int, op kit.Op) kit.Action {
		if op.Path == "stdout" {
			if now, _ := readFile(file); state == "" || now != seen {
				seen, state = now, x.recorded(file)
				if state == "" {
					state = "recorded"
				}
			}
			writes = append(writes, moment{op.Size, state})
		}
		return decide(i, op)
	})
	if err != nil {
		t.Fatalf("HARNESS ERROR: %v", err)
	}
	if out.TimedOut {
		t.Fatalf("%s: the tool hung", what)
	}
	if strings.Contains(string(out.Stderr), "goroutine ") && strings.Contains(string(out.Stderr), "panic") {
		t.Fatalf("%s: crashed: %s", what, out.Stderr)
	}
	// what had been put out when
	done := 0
	for _, w := range writes {
		done = min(done+w.size, len(out.Stdout))
		if w.state != "recorded" && x.shown(string(out.Stdout[:done])) {
			t.Fatalf("%s: %q has been put out when %s", what, out.Stdout[:done], w.state)
		}
	}
	final := x.recorded(file)
	printed := ""
	if x.file != "" {
		printed, _ = readFile(filepath.Join(dir, x.file))
	}
	for _, text := range []string{string(out.Stdout), string(out.Stderr), printed} {
		if final != "" && x.shown(text) {
			t.Fatalf("%s: %q has been put out, but in the end %s", what, text, final)
		}
	}
	if out.Exit == 0 && !out.Killed && final != "" {
		t.Fatalf("%s: success is reported, but %s (%s%s)", what, final, out.Stdout, out.Stderr)
	}
	return out, file
}

func TestC23(t *testing.T) {
	kit.Rule("messages sent (of one or several keys), received or deciphered when listing or asking which to delete (among others which can not be deciphered), by the built tool under supervision of every system call which changes files or writes to its output: at each write to the output the store on disk is opened and compared with what has been put out (cipher text found by deciphering every run of groups with every key); first undisturbed, then killed, failing or torn at generated calls (thorough: at every call), whatever was put out must be recorded; non-trivial = several keys, or a fault before the message was put out")
	kit.Check(t, "release", 2400, 9000, func(t *rapid.T) {
		dir, done := scratch("c23")
		defer done()
		kit.Entropy(kit.Seed(t))
		x := drawTraffic(t, dir)
		what := fmt.Sprintf("%s (group size %d, %d keys) %v %q", x.kind, x.g.G, len(x.before.Keys), x.args, x.radiogram)
		var names []string
		var first int = -1
		out, _ := x.attempt(t, filepath.Join(dir, "0"), what, func(i int, op kit.Op) kit.Action {
			names = append(names, op.String())
			if op.Path == "stdout" && first < 0 {
				first = i
			}
			return kit.Action{}
		})
		if out.Exit != 0 && x.kind != "delete" { // the answer is missing
			kit.Case(false, what, x.kind+" refused")
			return
		}
		if !x.shown(string(out.Stdout)) {
			t.Fatalf("%s: succeeded, but does not print the message: %s%s", what, out.Stdout, out.Stderr)
		}
		points := rapid.IntRange(2, 5).Draw(t, "points")
		every := kit.Thorough() && rapid.IntRange(0, 4).Draw(t, "every") == 0
		if every {
			points = 2 * len(names)
		}
		for n := 1; n <= points; n++ {
			f := drawFault(t, len(names))
			if every {
				f.at = (n - 1) / 2
				f.kind = []string{"kill", "error"}[n%2]
			}
			var hit kit.Op
			w := fmt.Sprintf("%s; %s of %d", what, f, len(names))
			out, file := x.attempt(t, filepath.Join(dir, fmt.Sprint(n)), w, func(i int, op kit.Op) kit.Action {
				if op.Path == "stdout" && f.kind != "kill" {
					return kit.Action{}
				}
				return f.act(i, op, &hit)
			})
			revealed := x.shown(string(out.Stdout))
			state := map[bool]string{true: "recorded", false: "not recorded"}[x.recorded(file) == ""]
			kit.Case(hit.Name != "" && !revealed || len(x.used) > 1, fmt.Sprintf("%s %s", w, hit), x.kind, f.kind+" at "+hit.Name, state, map[bool]string{true: "put out", false: "not put out"}[revealed])
			os.RemoveAll(filepath.Dir(file))
		}
	})
}

var _ = krypto431.DefaultSalt
