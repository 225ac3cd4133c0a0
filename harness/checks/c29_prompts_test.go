package checks

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	passwordvalidator "github.com/wagslane/go-password-validator"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// prompting is a question of the library for a password.
type prompting struct {
	Op, Prompt, File string
	Min              int
	Bits             float64
}

// prompted is what came of it.
type prompted struct {
	Password, Key, Error string
	Keys                 int
}

const c29env = "VERIF_C29_CHILD"

func init() {
	s := os.Getenv(c29env)
	if s == "" {
		return
	}
	var ps []prompting
	if json.Unmarshal([]byte(s), &ps) != nil {
		os.Exit(9)
	}
	var all []prompted
	for _, p := range ps {
		var r prompted
		var pw *[]byte
		var err error
		switch p.Op {
		case "ask":
			pw = krypto431.AskForPassword(p.Prompt, p.Min)
		case "confirm":
			pw, err = krypto431.AskAndConfirmPassword(p.Prompt, p.Bits)
		case "confirm length":
			pw, err = krypto431.OldAskAndConfirmPassword(p.Prompt, p.Min)
		case "load":
			k := krypto431.New(krypto431.WithPersistence(p.File), krypto431.WithInteractive(true))
			err = k.Load()
			r.Keys = len(k.Keys)
		case "save":
			k := kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA", krypto431.WithPersistence(p.File), krypto431.WithInteractive(true))
			if err = k.GenerateKeys(p.Min, nil, "QJ"); err == nil {
				err = k.Save()
			}
			r.Key = k.GetPFKString()
		}
		r.Password = "nil"
		if pw != nil {
			r.Password = hex.EncodeToString(*pw)
		}
		if err != nil {
			r.Error = err.Error()
		}
		all = append(all, r)
		js, _ := json.Marshal(all)
		if os.WriteFile("result", js, 0600) != nil {
			os.Exit(8)
		}
	}
	os.Exit(0)
}

// typed draws a password of n characters which a terminal takes as they are.
func typed(t *rapid.T, n int, label string) string {
	const some = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !\"#$%&'()*+,-./:;<=>?@[]^_`{|}~\\"
	if rapid.IntRange(0, 4).Draw(t, label+"Plain") == 0 {
		return strings.Repeat(rapid.SampledFrom([]string{"a", " ", "%", "\\"}).Draw(t, label+"Same"), n)
	}
	b := rapid.SliceOfN(rapid.SampledFrom([]byte(some)), n, n).Draw(t, label)
	return string(b)
}

// prompts lets the library ask on a terminal.
func prompts(t *testing.T) {
	self, err := os.Executable()
	must(t, err, "Executable")
	kit.Check(t, "prompts", 800, 12000, func(t *rapid.T) {
		dir, done := scratch("c29p")
		defer done()
		kit.Entropy(kit.Seed(t))
		var ps []prompting
		var want []prompted
		var opens []string // passwords of saved stores
		var ds []kit.Dialog
		var ends []int // answers after which each question is over
		var secrets []string
		answer := func(ask, text string) {
			secrets = append(secrets, text)
			ds = append(ds, hidden(ask, text))
		}
		denied := 0
		for i := rapid.IntRange(1, 3).Draw(t, "questions"); i > 0; i-- {
			p := prompting{Op: rapid.SampledFrom([]string{"ask", "confirm", "confirm length", "load", "save"}).Draw(t, "op"),
				Prompt: rapid.SampledFrom([]string{"Say: ", "Passphrase for 100% of %s? ", "Lösenord > ", "? "}).Draw(t, "prompt")}
			w := prompted{Password: "nil"}
			opened := ""
			switch p.Op {
			case "ask", "confirm length":
				p.Min = rapid.SampledFrom([]int{0, 0, 1, 5, 8, 20}).Draw(t, "min")
				for {
					n := p.Min + rapid.SampledFrom([]int{0, 0, 1, 7, 40}).Draw(t, "longer")
					if p.Min > 0 && rapid.IntRange(0, 2).Draw(t, "short") == 0 {
						denied++
						answer(p.Prompt, typed(t, max(0, p.Min-rapid.SampledFrom([]int{1, 1, 2, 20}).Draw(t, "shorter")), "tooShort"))
						continue
					}
					x := typed(t, n, "password")
					if rapid.IntRange(0, 3).Draw(t, "letters") == 0 {
						x += "åß€"
					}
					answer(p.Prompt, x)
					if p.Op == "ask" {
						w.Password = hex.EncodeToString([]byte(x))
						break
					}
					if y := another(t, x); y != x {
						denied++
						answer(p.Prompt+"(repeat)", y)
						continue
					}
					answer(p.Prompt+"(repeat)", x)
					w.Password = hex.EncodeToString([]byte(x))
					break
				}
			case "confirm", "save":
				p.Bits = rapid.SampledFrom([]float64{0, 20, 60, 60, 90}).Draw(t, "bits")
				prompt := p.Prompt
				if p.Op == "save" {
					p.Bits, prompt, p.Min = 60, "Enter encryption key: ", rapid.IntRange(1, 4).Draw(t, "keys")
					p.File = filepath.Join(dir, fmt.Sprintf("saved%d", len(ps)))
				}
				for {
					x := typed(t, rapid.SampledFrom([]int{1, 2, 4, 8, 10, 12, 16, 24}).Draw(t, "length"), "password")
					if passwordvalidator.Validate(x, p.Bits) != nil {
						if denied += 1; denied > 4 {
							x += "åß€ and More of 4711!"
						} else {
							answer(prompt, x)
							continue
						}
					}
					if passwordvalidator.Validate(x, p.Bits) != nil {
						panic("HARNESS ERROR: " + x)
					}
					answer(prompt, x)
					y := another(t, x)
					answer(prompt+"(repeat)", y)
					if y == x {
						w.Password = hex.EncodeToString([]byte(x))
						if p.Op == "save" {
							w.Password, w.Key, opened = "nil", ofPassword(x, krypto431.DefaultSalt).pfk, x
						}
						break
					}
					denied++
				}
			case "load":
				p.File = filepath.Join(dir, fmt.Sprintf("loaded%d", len(ps)))
				x := typed(t, rapid.IntRange(1, 30).Draw(t, "length"), "password")
				s := kit.Station(kit.Geometry{G: 5, K: 25}, "QJ", krypto431.WithPersistence(p.File), krypto431.WithPFKString(ofPassword(x, krypto431.DefaultSalt).pfk))
				must(t, s.GenerateKeys(rapid.IntRange(1, 4).Draw(t, "keys"), nil, "SA6MWA"), "generating")
				must(t, s.Save(), "saving")
				w.Keys = len(s.Keys)
				if y := another(t, x); y != x {
					w.Error, w.Keys, x = "an error", 0, y
					denied++
				}
				answer("Enter decryption key: ", x)
				if x == "" { // an empty password may be refused at once, which is an error too
					w.Error, w.Keys = "an error", 0
				}
			}
			ps, want, opens, ends = append(ps, p), append(want, w), append(opens, opened), append(ends, len(ds))
		}
		interrupted, at := "", len(ds)
		if rapid.IntRange(0, 3).Draw(t, "interrupted") == 0 {
			at = rapid.IntRange(0, len(ds)-1).Draw(t, "at")
			interrupted = rapid.SampledFrom([]string{"Ctrl-C", "Ctrl-C after a part", "TERM", "INT"}).Draw(t, "by")
			d := &ds[at]
			switch interrupted {
			case "Ctrl-C":
				d.Answer = "\x03"
			case "Ctrl-C after a part":
				d.Answer = strings.TrimSuffix(d.Answer, "\r") + "\x03"
			case "TERM":
				d.Answer, d.Signal = "", syscall.SIGTERM
			case "INT":
				d.Answer, d.Signal = "", syscall.SIGINT
			}
			ds = ds[:at+1]
		}
		js, _ := json.Marshal(ps)
		x, err := kit.Talk([]string{self, "-test.run=^$"}, append(cliEnv(dir), c29env+"="+string(js), "VERIF_STATS="), dir, ds, nil, 60*time.Second)
		if err != nil {
			panic("HARNESS ERROR: " + err.Error())
		}
		what := fmt.Sprintf("%+v with answers %+v, interrupted by %q (exit status %d)", ps, ds, interrupted, x.Exit)
		if x.TimedOut {
			t.Fatalf("%s: does not go on after %d of %d answers: %q", what, x.Answered, len(ds), x.Screen)
		}
		if x.Answered != len(ds) {
			t.Fatalf("%s: asked %d of %d questions: %q", what, x.Answered, len(ds), x.Screen)
		}
		if x.Visible {
			t.Fatalf("%s: shows what is typed as a password", what)
		}
		if x.Altered != "" {
			t.Fatalf("%s: leaves the terminal with other settings: %s", what, x.Altered)
		}
		for _, s := range secrets {
			if len(s) >= 5 && strings.TrimSpace(s) != "" && strings.Contains(x.Screen, s) {
				t.Fatalf("%s: the password %q is on the screen %q", what, s, x.Screen)
			}
		}
		finished := len(ps)
		if interrupted != "" {
			for finished = 0; ends[finished] <= at; finished++ {
			}
			if x.Exit == 0 {
				t.Fatalf("%s: goes on", what)
			}
		} else if x.Exit != 0 {
			t.Fatalf("%s: failed: %q", what, x.Screen)
		}
		var got []prompted
		if text, ok := readFile(filepath.Join(dir, "result")); ok {
			json.Unmarshal([]byte(text), &got)
		}
		if len(got) != finished {
			t.Fatalf("%s: %d questions were answered, %d results: %+v", what, finished, len(got), got)
		}
		for i, g := range got {
			if g.Error != "" && want[i].Error != "" {
				g.Error = want[i].Error
			}
			g.Key = strings.ToLower(g.Key)
			if kit.Diff(g, want[i]) != "" {
				t.Fatalf("%s: question %d gave %+v instead of %+v", what, i+1, g, want[i])
			}
		}
		for i, p := range opens {
			file := ps[i].File
			if p == "" {
				continue
			}
			if i >= finished {
				if _, err := os.Lstat(file); err == nil {
					t.Fatalf("%s: %s was made", what, file)
				}
				continue
			}
			s, err := opened(file, ofPassword(p, krypto431.DefaultSalt).pfk)
			must(t, err, what+", opening what was saved")
			if len(s.Keys) != ps[i].Min {
				t.Fatalf("%s: %d keys were saved", what, len(s.Keys))
			}
		}
		labels := []string{"library", "by " + interrupted}
		for _, p := range ps {
			labels = append(labels, "library "+p.Op)
		}
		kit.Case(interrupted != "" || denied > 0, fmt.Sprintf("library: %+v, %d answers, interrupted by %q", ps, len(ds), interrupted), labels...)
	})
}

// another draws what is typed where x should be, mostly that.
func another(t *rapid.T, x string) string {
	switch rapid.IntRange(0, 8).Draw(t, "repeated") {
	case 0:
		return x + "x"
	case 1:
		return x[:len(x)/2]
	case 2:
		return strings.ToUpper(x)
	}
	return x
}
