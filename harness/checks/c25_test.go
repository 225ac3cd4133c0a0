package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// plan is a choice of settings.
type plan struct {
	file       string
	g, l, w, c int // group size, key length, total width, key width
}

func (p plan) ok() bool {
	return p.file != "" && p.g >= 1 && p.l >= 20 && p.w >= 85 && p.c >= p.g
}

// limits counts how many of the settings are refused on their own.
func (p plan) broken() (names []string) {
	for _, x := range []struct {
		bad  bool
		name string
	}{{p.file == "", "no file"}, {p.g < 1, "group size"}, {p.l < 20, "key length"}, {p.w < 85, "width"}, {p.c < p.g, "key width"}} {
		if x.bad {
			names = append(names, x.name)
		}
	}
	return
}

// around draws a value near or far from a limit.
func around(t *rapid.T, limit int, label string) int {
	switch rapid.IntRange(0, 9).Draw(t, label+"Kind") {
	case 0, 1:
		return limit
	case 2:
		return limit - 1
	case 3:
		return limit + rapid.IntRange(-3, 3).Draw(t, label)
	case 4:
		return rapid.SampledFrom([]int{0, -1, 1, -limit, math.MinInt, math.MaxInt, math.MinInt32, math.MaxInt32, math.MaxInt32 + 1, 1 << 40, -(1 << 40), 256, 65536, 1<<32 + limit, -(1 << 32) + limit, 1 << 32, 255, 128}).Draw(t, label)
	case 5:
		return rapid.Int().Draw(t, label)
	case 6:
		return limit - rapid.IntRange(1, 300).Draw(t, label) // may wrap around
	default:
		return limit + rapid.IntRange(0, 300).Draw(t, label)
	}
}

func drawPlan(t *rapid.T) plan {
	p := plan{file: rapid.SampledFrom([]string{"store", "s", "/no/such/dir/x", " ", "ö", "a/b", "~/.k", "", "\x00"}).Draw(t, "file")}
	p.g = around(t, 1, "g")
	if rapid.Bool().Draw(t, "usualGroup") {
		p.g = rapid.IntRange(1, 30).Draw(t, "group")
	}
	p.l = around(t, 20, "l")
	p.w = around(t, 85, "w")
	p.c = around(t, p.g, "c")
	return p
}

// callText draws a text for a call-sign.
func callText(t *rapid.T) string {
	pad := func(label string) string {
		return rapid.SampledFrom([]string{"", "", "", " ", "   ", "\t", "\n", "\r\n", "\u00a0", "\u2003", "\u3000", "\v\f", "\u0085"}).Draw(t, label)
	}
	body := rapid.OneOf(
		rapid.SampledFrom([]string{"", "x", "X", "å", "Ö", "1", "/", "xy", "QJ", "qj", "sa6mwa", "Sa6Mwa/p", "åäö", "a b", "é", "ÿ", "ǆ", "ﬁ", "ß", "ßß", "日", "日本", "\u0301", "e\u0301", ".", "a ", "A\u00a0", "ñ1", "ſx", "ıı"}),
		rapid.StringOfN(rapid.SampledFrom([]rune("abcxyzABCXYZ0189/-åäöÅÄÖ éüñ")), 0, 12, -1),
		rapid.StringN(0, 6, -1),
	).Draw(t, "body")
	return pad("lead") + body + pad("trail")
}

// trimUpper is a call-sign as it is kept.
func trimUpper(s string) string {
	r := []rune(s)
	for len(r) > 0 && unicode.IsSpace(r[0]) {
		r = r[1:]
	}
	for len(r) > 0 && unicode.IsSpace(r[len(r)-1]) {
		r = r[:len(r)-1]
	}
	for i := range r {
		r[i] = unicode.ToUpper(r[i])
	}
	return string(r)
}

// filesIn lists what is below a directory with its content.
func filesIn(dir string) string {
	var all []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		text := ""
		if i.Mode().IsRegular() {
			text, _ = readFile(p)
		}
		all = append(all, fmt.Sprintf("%s %v %q", strings.TrimPrefix(p, dir), i.Mode(), text))
		return nil
	})
	sort.Strings(all)
	return strings.Join(all, "\n")
}

func TestC25(t *testing.T) {
	kit.Rule("(1) settings around and far from their limits, singly and together, set by options, in the fields and by loading, with the answer of the check compared to the five limits and the settings unchanged by it; (2) histories of call-signs of any characters with white space around them, against a model; (3) initialisations with the built tool by options and by answering questions, with accepted and refused settings, call-signs, key counts and expiries, over no store, an existing store and another's file: refused ones leave the directory as it was, byte by byte, accepted ones hold exactly the settings; non-trivial = a limit is exactly met or missed by one, a call-sign was refused while another was in force, or an initialisation was refused")
	kit.Check(t, "settings", 80000, 4000000, func(t *rapid.T) {
		p := drawPlan(t)
		var k krypto431.Krypto431
		how := rapid.SampledFrom([]string{"options", "fields", "changed"}).Draw(t, "how")
		switch how {
		case "options":
			k = krypto431.New(rapid.Permutation([]krypto431.Option{krypto431.WithPersistence(p.file), krypto431.WithGroupSize(p.g), krypto431.WithKeyLength(p.l), krypto431.WithColumns(p.w), krypto431.WithKeyColumns(p.c)}).Draw(t, "order")...)
		case "changed": // an accepted instance, then one field after the other
			k = krypto431.New(krypto431.WithPersistence(p.file))
			if err := k.Assert(); (err == nil) != (p.file != "") {
				t.Fatalf("the default settings with file name %q: %v", p.file, err)
			}
			fallthrough
		default:
			if how == "fields" {
				k = krypto431.New(krypto431.WithPersistence(p.file))
			}
			q := plan{p.file, k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns}
			for _, i := range rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "order") {
				switch i {
				case 0:
					k.GroupSize, q.g = p.g, p.g
				case 1:
					k.KeyLength, q.l = p.l, p.l
				case 2:
					k.Columns, q.w = p.w, p.w
				case 3:
					k.KeyColumns, q.c = p.c, p.c
				}
				if err := k.Assert(); (err == nil) != q.ok() {
					t.Fatalf("the settings %+v: %v", q, err)
				}
			}
		}
		if rapid.Bool().Draw(t, "called") {
			k.SetCallSign("SA6MWA")
		}
		for i := 0; i < 2; i++ {
			if err := k.Assert(); (err == nil) != p.ok() {
				t.Fatalf("the settings %+v (file name, group size, key length, total width, key width) made by %s: %v", p, how, err)
			}
		}
		if k.GroupSize != p.g || k.KeyLength != p.l || k.Columns != p.w || k.KeyColumns != p.c || k.GetPersistence() != p.file {
			t.Fatalf("checking the settings %+v changes them: %+v", p, k)
		}
		edge := p.g == 1 || p.g == 0 || p.l == 20 || p.l == 19 || p.w == 85 || p.w == 84 || p.c == p.g || p.c == p.g-1 || p.file == ""
		verdict := "accepted"
		if !p.ok() {
			verdict = fmt.Sprintf("%d refused", len(p.broken()))
		}
		kit.Case(edge, fmt.Sprintf("%+v %s", p, verdict), verdict)
	})

	kit.Check(t, "callsigns", 24000, 1200000, func(t *rapid.T) {
		inForce := ""
		var k krypto431.Krypto431
		if rapid.Bool().Draw(t, "option") {
			first := callText(t)
			k = krypto431.New(krypto431.WithCallSign(first))
			if s := trimUpper(first); utf8.RuneCountInString(s) >= 2 {
				inForce = s
			}
		} else {
			k = krypto431.New()
		}
		key := krypto431.Key{}
		key.SetInstance(&k)
		msg := krypto431.Message{}
		msg.SetInstance(&k)
		refused, history := 0, []string{}
		look := func() {
			if k.CallSignString() != inForce || string(k.GetCallSign()) != inForce || string(key.GetCallSign()) != inForce || msg.QRZString() != inForce || string(msg.QRZ()) != inForce || string(k.CallSign) != inForce {
				t.Fatalf("after %q the call-sign is %q (%q, %q, %q) instead of %q", history, k.CallSignString(), string(k.GetCallSign()), string(key.GetCallSign()), msg.QRZString(), inForce)
			}
		}
		look()
		for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
			s := callText(t)
			history = append(history, s)
			err := k.SetCallSign(s)
			want := trimUpper(s)
			if utf8.RuneCountInString(want) >= 2 {
				if err != nil {
					t.Fatalf("the call-sign %q is refused: %v", s, err)
				}
				inForce = want
			} else {
				if err == nil {
					t.Fatalf("the call-sign %q is accepted", s)
				}
				if inForce != "" {
					refused++
				}
			}
			look()
		}
		kit.Case(refused > 0, fmt.Sprintf("%q", history), fmt.Sprintf("refused over another: %v", refused > 0))
	})

	kit.Check(t, "initialise", 1600, 24000, func(t *rapid.T) {
		dir, done := scratch("c25")
		defer done()
		file := filepath.Join(dir, "store")
		there := rapid.SampledFrom([]string{"none", "none", "store", "other"}).Draw(t, "there")
		switch there {
		case "store":
			k := fileStation(kit.Geometry{G: 5, K: 25}, "QJ", file)
			must(t, k.GenerateKeys(2, nil, "VJ"), "generating")
			must(t, k.Save(), "saving")
		case "other":
			must(t, os.WriteFile(file, []byte("something else"), 0o600), "writing")
		}
		before := filesIn(dir)
		p := plan{file: file, g: 5, l: krypto431.DefaultKeyLength, w: krypto431.DefaultColumns, c: krypto431.DefaultKeyColumns}
		args := []string{"-K", thePFK}
		env := cliEnv(dir)
		if rapid.IntRange(0, 11).Draw(t, "noName") == 0 {
			p.file = ""
		}
		if p.file != "" && rapid.IntRange(0, 3).Draw(t, "byVariable") == 0 {
			env = append(env, "KRYPTO_FILE="+p.file)
		} else {
			args = append(args, rapid.SampledFrom([]string{"-f", "--file"}).Draw(t, "fileOption"), p.file)
		}
		badKey := rapid.IntRange(0, 15).Draw(t, "badKey") == 0
		if badKey {
			args[1] = rapid.SampledFrom([]string{"", "00", thePFK[1:], thePFK + "00", "zz" + thePFK[2:]}).Draw(t, "theBadKey")
		}
		args = append(args, rapid.SampledFrom([]string{"init", "initialize"}).Draw(t, "command"))
		if rapid.IntRange(0, 5).Draw(t, "converse") == 0 {
			c25Converse(t, dir, p, env, args, before, there, badKey)
			return
		}
		yes := there != "none" || rapid.Bool().Draw(t, "yes")
		if yes {
			args = append(args, "-y")
		}
		num := func(v int, names ...string) {
			name := rapid.SampledFrom(names).Draw(t, "option")
			args = append(args, name+"="+strconv.Itoa(v))
		}
		// mostly one thing wrong
		off := rapid.SampledFrom([]string{"", "", "g", "l", "w", "c", "call", "several"}).Draw(t, "off")
		value := func(limit int, is string) int {
			if off == is || off == "several" && rapid.Bool().Draw(t, is+"Too") {
				return rapid.OneOf(rapid.Just(limit-1), rapid.Just(limit-rapid.IntRange(1, 1000).Draw(t, is+"By")), rapid.SampledFrom([]int{math.MinInt, -(1 << 32) + limit, -limit - 1})).Draw(t, is)
			}
			return limit + rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 100)).Draw(t, is)
		}
		if off == "g" || off == "several" || rapid.Bool().Draw(t, "giveG") {
			p.g = value(1, "g")
			num(p.g, "-g", "--groupsize")
		}
		if off == "l" || off == "several" || rapid.Bool().Draw(t, "giveL") {
			p.l = value(20, "l")
			num(p.l, "-l", "--key-length")
		}
		if off == "w" || off == "several" || rapid.Bool().Draw(t, "giveW") {
			p.w = value(85, "w")
			num(p.w, "--columns")
		}
		if off == "c" || off == "several" || p.g > p.c || rapid.Bool().Draw(t, "giveC") {
			p.c = value(p.g, "c")
			num(p.c, "--key-columns")
		}
		call := rapid.SampledFrom([]string{"SA6MWA", "qj", " åä ", "x1"}).Draw(t, "call")
		if off == "call" || off == "several" && rapid.Bool().Draw(t, "callToo") {
			call = rapid.SampledFrom([]string{"", " ", "x", " Q ", "å", "\u00a0Z\u2003"}).Draw(t, "badCall")
		}
		args = append(args, "-c="+call)
		n := 0
		if rapid.Bool().Draw(t, "keys") {
			n = rapid.IntRange(0, 3).Draw(t, "n")
			if p.g == 1 && n > 3 || p.g > 1000 {
				n = 0
			}
			num(n, "-n", "--keys")
		}
		badExpiry := n > 0 && rapid.IntRange(0, 7).Draw(t, "badExpiry") == 0
		if badExpiry {
			args = append(args, "-x", "311200ZFEB29")
		}
		r := toolRun(t, dir, env, "", args...)
		after := filesIn(dir)
		good := p.ok() && utf8.RuneCountInString(trimUpper(call)) >= 2 && !badExpiry && !badKey
		what := fmt.Sprintf("krypto431 %q with %s at the place of the store (exit status %d: %s%s)", args, map[string]string{"none": "nothing", "store": "a store", "other": "another file"}[there], r.exit, r.out, r.err)
		edge := p.g == 1 || p.l == 20 || p.w == 85 || p.c == p.g
		kit.Case(edge || !good, fmt.Sprintf("%q over %s: %v", args[3:], there, good), "initialise over "+there, fmt.Sprintf("off %q", off))
		if !good {
			if r.exit == 0 {
				t.Fatalf("%s reports success", what)
			}
			if after != before {
				t.Fatalf("%s changes the directory\nfrom:\n%s\nto:\n%s", what, before, after)
			}
			return
		}
		if r.exit != 0 {
			t.Fatalf("%s: accepted settings are refused", what)
		}
		c25Holds(t, what, p, trimUpper(call), n)
	})
}

// c25Holds checks what was initialised.
func c25Holds(t rapid.TB, what string, p plan, call string, n int) {
	t.Helper()
	s := stored(t, p.file)
	if len(s.Keys) != n || len(s.Msgs) != 0 {
		t.Fatalf("%s: %d keys and %d messages instead of %d", what, len(s.Keys), len(s.Msgs), n)
	}
	s.Keys, s.Msgs = nil, nil
	if d := kit.Diff(s, kit.Snap{CallSign: call, GroupSize: p.g, KeyLength: p.l, Columns: p.w, KeyColumns: p.c}); d != "" {
		t.Fatalf("%s: %s", what, d)
	}
}

// c25Converse initialises by answering questions, some wrongly.
func c25Converse(t *rapid.T, dir string, p plan, env, args []string, before, there string, badKey bool) {
	var dialogs []kit.Dialog
	ask := func(prompt, answer string) {
		dialogs = append(dialogs, kit.Dialog{Ask: prompt, Answer: answer + "\r", Queries: 2})
	}
	over := func(prompt, now string, wrong []string, right string) { // an answer in the place of the one suggested
		clear := strings.Repeat("\x7f", 25)
		for _, w := range wrong {
			ask(prompt, clear+w)
		}
		ask(prompt, clear+right)
	}
	wrong := func(pool ...string) (ws []string) {
		for i := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "wrong"); i > 0; i-- {
			ws = append(ws, rapid.SampledFrom(pool).Draw(t, "wrongAnswer"))
		}
		return
	}
	call := rapid.SampledFrom([]string{"SA6MWA", "qj", "  zz", "x", "q "}).Draw(t, "call")
	ask("call-sign", call)
	n := rapid.IntRange(0, 2).Draw(t, "n")
	mistakes := 0
	w := wrong("-1", "x", "1.5", "-30")
	mistakes += len(w)
	over("number", "", w, strconv.Itoa(n))
	ask("keepers", "")
	ask("expiry", "")
	p.l = rapid.SampledFrom([]int{20, 21, 100}).Draw(t, "length")
	w = wrong("19", "0", "-20", "x", "1")
	mistakes += len(w)
	over("length", "", w, strconv.Itoa(p.l))
	p.g = rapid.SampledFrom([]int{1, 2, 5, p.c, p.c + 1}).Draw(t, "groupSize")
	w = wrong("0", "-1", "-5", "five", "-99")
	mistakes += len(w)
	over("group size", "", w, strconv.Itoa(p.g))
	good := p.ok() && utf8.RuneCountInString(trimUpper(call)) >= 2 && !badKey
	consent := true
	if good && there != "none" {
		consent = rapid.Bool().Draw(t, "overwrite")
		ask("Overwrite", map[bool]string{true: "y", false: "n"}[consent])
	}
	x, err := kit.Talk(append([]string{kit.CLI()}, args...), env, dir, dialogs, nil, 60*time.Second)
	if err != nil {
		panic("HARNESS ERROR: " + err.Error())
	}
	after := filesIn(dir)
	what := fmt.Sprintf("krypto431 %q on a terminal with the answers %+v over %s (exit status %d, %d answered: %q)", args, dialogs, there, x.Exit, x.Answered, x.Screen)
	kit.Case(mistakes > 0 || !good, fmt.Sprintf("answered %d mistakes, %+v, call-sign %q: %v", mistakes, p, call, good), "initialise by answers")
	if good && x.Answered != len(dialogs) {
		t.Fatalf("%s: not all questions were asked, or a wrong answer was taken", what)
	}
	if !good || !consent {
		if after != before {
			t.Fatalf("%s changes the directory\nfrom:\n%s\nto:\n%s", what, before, after)
		}
		if !good && x.Exit == 0 {
			t.Fatalf("%s reports success", what)
		}
		return
	}
	if x.Exit != 0 {
		t.Fatalf("%s: fails", what)
	}
	c25Holds(t, what, p, trimUpper(call), n)
}
