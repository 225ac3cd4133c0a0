package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	passwordvalidator "github.com/wagslane/go-password-validator"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// confidence is a store and what must not be shown or written of it.
type confidence struct {
	dir, file string
	env       []string
	opens     secret
	content   kit.Snap
	secrets   []string // passwords
	log       []string
}

func openConfidence(t *rapid.T, dir string) *confidence {
	c := &confidence{dir: dir, file: filepath.Join(dir, "store"), env: cliEnv(dir)}
	c.opens = ofPassword(aPassword, strings.ToLower(krypto431.DefaultSalt))
	kit.Entropy(kit.Seed(t))
	k := kit.Station(kit.Geometry{G: 5, K: rapid.SampledFrom([]int{25, 60, 350}).Draw(t, "length")}, "SA6MWA", krypto431.WithPersistence(c.file), krypto431.WithPFKString(c.opens.pfk))
	must(t, k.GenerateKeys(rapid.IntRange(2, 5).Draw(t, "keys"), nil, "QJ"), "generating")
	for i := rapid.IntRange(1, 3).Draw(t, "messages"); i > 0; i-- {
		m := kit.Msg(k, "HELLO "+kit.Letters(t, 12, "text"), "QJ")
		m.Id = krypto431.RandomAlnumRunes(4)
		m.DTG.Time = time.Unix(1700000000, 0).UTC()
		k.Messages = append(k.Messages, *m)
	}
	must(t, k.Save(), "saving")
	c.content = kit.SnapStore(k)
	c.secrets = []string{aPassword}
	return c
}

// another draws a password, strong enough or not.
func (c *confidence) another(t *rapid.T, strong bool) string {
	p := rapid.SampledFrom([]string{"weak", "weak", "svåg ", "\"we ", "   we", "12"}).Draw(t, "weakly") + kit.Letters(t, 4, "weak")
	if strong {
		p = rapid.SampledFrom([]string{"correct horse ", "Åska & Regn ", "\"quoted\" `pwd` $7 ", "tusen-och-EN-natt:"}).Draw(t, "password") + kit.Letters(t, 6, "rest") + " 4711!"
	}
	if strong != (passwordvalidator.Validate(p, 60) == nil) {
		panic("HARNESS ERROR: strength of " + p)
	}
	c.secrets = append(c.secrets, p)
	return p
}

// keeps tells whether something shows what it must not.
func (c *confidence) keeps(t rapid.TB, what, where, text string, pfks []string, letters bool) {
	t.Helper()
	for _, p := range c.secrets {
		if len(p) > 0 && strings.Contains(text, p) {
			t.Fatalf("%s: %s contains the password %q: %q", what, where, p, text)
		}
	}
	low := strings.ToLower(text)
	for _, p := range pfks {
		if b, _ := hex.DecodeString(p); strings.Contains(low, p) || len(b) > 0 && strings.Contains(text, string(b)) {
			t.Fatalf("%s: %s contains the storage key %s: %q", what, where, p, text)
		}
	}
	if !letters {
		return
	}
	all := squeeze(text)
	for _, k := range c.content.Keys {
		for i := 0; i+12 <= len(k.Runes); i += 12 {
			if strings.Contains(all, k.Runes[i:i+12]) {
				t.Fatalf("%s: %s contains letters of key %s: %q", what, where, k.Id, text)
			}
		}
	}
}

// keepsAll looks at all files.
func (c *confidence) keepsAll(t rapid.TB, what string, pfks []string, prints map[string]bool) {
	t.Helper()
	filepath.Walk(c.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			text, _ := readFile(p)
			c.keeps(t, what, strings.TrimPrefix(p, c.dir), text, pfks, !prints[p])
		}
		return nil
	})
}

func hidden(ask, answer string) kit.Dialog {
	return kit.Dialog{Ask: ask, Answer: answer + "\r", Hidden: true}
}
func asked(ask, answer string) kit.Dialog {
	return kit.Dialog{Ask: ask, Answer: answer + "\r", Queries: 2}
}

// confirmed draws the answers to a question for a new password.
func (c *confidence) confirmed(t *rapid.T, prompt string) (ds []kit.Dialog, password string) {
	for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "attempts"); i > 0; i-- {
		switch rapid.IntRange(0, 2).Draw(t, "attempt") {
		case 0:
			ds = append(ds, hidden(prompt, c.another(t, false)))
		case 1:
			ds = append(ds, hidden(prompt, c.another(t, true)), hidden("(repeat)", c.another(t, true)))
		case 2:
			p := c.another(t, true)
			ds = append(ds, hidden(prompt, p), hidden("(repeat)", p+"!"))
		}
	}
	password = c.another(t, true)
	return append(ds, hidden(prompt, password), hidden("(repeat)", password)), password
}

func TestC29(t *testing.T) {
	kit.Rule("(1) the built tool on a terminal: stores opened by typing the password (right, wrong, empty), key changes, storage keys derived, stores initialised (by options and by answers, over another or not), keys and messages chosen to be deleted, imports and radiograms, with denied and mistyped passwords, carried through or interrupted at any question by Ctrl-C, at once or after part of an answer, or a signal; (2) the library's questions for passwords in processes with a terminal, one or several, with passwords too short, too weak and repeated differently, for stores loaded and saved; (3) commands with passwords and storage keys as options and in variables, carried out, failing and asking for help; screen, output, error output and every file are searched for the passwords, storage keys and key letters, the settings of the terminal compared with those before, and an interrupted command leaves the directory as it was, byte by byte; non-trivial = something is typed and then interrupted, or a password is denied, or secrets are given and the command fails")
	kit.Check(t, "terminal", 1440, 16000, func(t *rapid.T) {
		dir, done := scratch("c29")
		defer done()
		c := openConfidence(t, dir)
		key := []string{"-f", c.file, "-K", c.opens.pfk}
		var args []string
		var ds []kit.Dialog
		pfks := []string{c.opens.pfk}
		prints := map[string]bool{}
		good := true
		now := c.opens // what opens the store when all is done
		shown := false // a storage key is to be printed
		random := false
		theKey := c.content.Keys[rapid.IntRange(0, len(c.content.Keys)-1).Draw(t, "key")].Id
		open := func() {
			switch rapid.IntRange(0, 5).Draw(t, "opening") {
			case 0:
				args = append([]string{}, key...)
			case 1:
				good = false
				p := c.another(t, rapid.Bool().Draw(t, "strong"))
				if rapid.IntRange(0, 3).Draw(t, "empty") == 0 {
					p = ""
				}
				args, ds = []string{"-f", c.file}, append(ds, hidden("Enter decryption key", p))
			default:
				args, ds = []string{"-f", c.file}, append(ds, hidden("Enter decryption key", aPassword))
			}
		}
		kind := rapid.SampledFrom([]string{"open", "open", "change", "change", "derive", "initialise", "initialise", "initialise by answers", "delete", "delete messages", "import", "import", "write"}).Draw(t, "kind")
		switch kind {
		case "open":
			open()
			out := filepath.Join(dir, "print."+rapid.SampledFrom([]string{"txt", "pdf"}).Draw(t, "extension"))
			prints[out] = true
			args = append(args, rapid.SampledFrom([][]string{{"keys", "-l"}, {"messages", "-l"}, {"keys", "-n", "2"}, {"k", "-d", "-y", "-i", theKey}, {"keys", "-E", filepath.Join(dir, "export")}, {"keys", "-o", out}, {"m", "-o", out}}).Draw(t, "command")...)
		case "change":
			args = []string{"pfk", "-c", c.file}
			switch rapid.IntRange(0, 3).Draw(t, "old") {
			case 0:
				args = append([]string{"-K", c.opens.pfk}, args...)
			case 1:
				good = false
				ds = append(ds, hidden("Enter decryption key", c.another(t, true)))
			default:
				ds = append(ds, hidden("Enter decryption key", aPassword))
			}
			if !good {
				break
			}
			yes := rapid.SampledFrom([]string{"y", "y", "y", "n"}).Draw(t, "consent")
			switch rapid.IntRange(0, 5).Draw(t, "new") {
			case 2:
				args = append(args, "-r")
				ds = append(ds, asked("Change encryption key", yes))
				random = yes == "y"
			case 0:
				next := strings.Repeat("5a", 31) + hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 1, 1).Draw(t, "nextKey"))
				args = append(args, "-k", next)
				ds = append(ds, asked("Change encryption key", yes))
				pfks = append(pfks, next)
				if yes == "y" {
					now = secret{pfk: next}
				}
			case 1:
				p := c.another(t, true)
				args = append(args, "-N", p)
				ds = append(ds, asked("Change encryption key", yes))
				if yes == "y" {
					now = ofPassword(p, krypto431.DefaultSalt)
				}
			default:
				more, p := c.confirmed(t, "Enter new encryption key")
				ds = append(ds, more...)
				now = ofPassword(p, krypto431.DefaultSalt)
			}
		case "derive":
			args = []string{"pfk", "-g"}
			ds, _ = c.confirmed(t, "Enter encryption key")
			shown = true
		case "initialise", "initialise by answers":
			file := filepath.Join(dir, "new store")
			over := rapid.Bool().Draw(t, "over")
			if over {
				file = c.file
			}
			args = []string{"-f", file, "init"}
			if kind == "initialise" {
				args = append(args, "-c", "SM5XX", "-n", "1")
			} else {
				ds = append(ds, asked("call-sign", "sm5xx"), asked("number", "1"), asked("keepers", "QJ"), asked("expiry", ""), asked("length", ""), asked("group size", ""))
			}
			if over {
				ds = append(ds, asked("Overwrite", "y"))
			}
			more, p := c.confirmed(t, "Enter encryption key")
			ds = append(ds, more...)
			if over {
				now = ofPassword(p, krypto431.DefaultSalt)
			}
		case "delete":
			open()
			args = append(args, "keys", "-d")
			if good {
				ds = append(ds, kit.Dialog{Ask: "Select key", Answer: " \r"})
			}
		case "delete messages":
			open()
			args = append(args, "messages", "-d")
			if good {
				ds = append(ds, kit.Dialog{Ask: "Select message", Answer: " \r"})
			}
		case "import":
			theirs := filepath.Join(dir, "theirs")
			p := c.another(t, true)
			o := kit.Station(kit.Geometry{G: 5, K: 30}, "QJ", krypto431.WithPersistence(theirs), krypto431.WithPFKString(ofPassword(p, krypto431.DefaultSalt).pfk))
			must(t, o.GenerateKeys(3, nil, "SA6MWA"), "generating")
			n := rapid.IntRange(0, min(3, len(c.content.Keys))).Draw(t, "same")
			for i := 0; i < n; i++ {
				o.Keys[i].Id = []rune(c.content.Keys[i].Id)
			}
			must(t, o.Save(), "saving theirs")
			pfks = append(pfks, ofPassword(p, krypto431.DefaultSalt).pfk)
			open()
			args = append(args, "keys", "-I", theirs)
			if !good {
				break
			}
			ds = append(ds, hidden("Enter decryption key", p))
			for i := 0; i < n; i++ {
				ds = append(ds, asked("Key ID "+c.content.Keys[i].Id+" already exist", rapid.SampledFrom([]string{"y", "n"}).Draw(t, "replace")))
			}
		case "write":
			open()
			args = append(args, "messages", "-n")
			if good {
				ds = append(ds, kit.Dialog{Ask: "radiogram", Answer: "QJ DE SA6MWA 012345 = TEST = K\r\r\r", Queries: 2})
			}
		}
		// interrupted
		interrupted := ""
		at := len(ds)
		if len(ds) > 0 && rapid.IntRange(0, 2).Draw(t, "interrupted") > 0 {
			at = rapid.IntRange(0, len(ds)-1).Draw(t, "at")
			d := &ds[at]
			ways := []string{"Ctrl-C", "Ctrl-C after a part", "Ctrl-C after a part"}
			if d.Hidden {
				ways = append(ways, "TERM", "INT")
			} else {
				ways = append(ways, "TERM", "KILL")
			}
			interrupted = rapid.SampledFrom(ways).Draw(t, "by")
			switch interrupted {
			case "Ctrl-C":
				d.Answer = "\x03"
			case "Ctrl-C after a part":
				part := rapid.SampledFrom([]string{"y", "n", "\x7f\x7f", "12", "AB"}).Draw(t, "part")
				if d.Hidden {
					part = c.another(t, rapid.Bool().Draw(t, "strong"))
				}
				d.Answer = part + "\x03"
			case "TERM", "INT", "KILL":
				d.Answer, d.Signal = "", map[string]syscall.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT, "KILL": syscall.SIGKILL}[interrupted]
			}
			ds = ds[:at+1]
		}
		before := filesIn(dir)
		var output *bytes.Buffer
		x, err := kit.Talk(append([]string{kit.CLI()}, args...), c.env, dir, ds, output, 40*time.Second)
		if err != nil {
			panic("HARNESS ERROR: " + err.Error())
		}
		what := fmt.Sprintf("krypto431 %q on a terminal with answers %+v, interrupted by %q (exit status %d)", args, ds, interrupted, x.Exit)
		if x.TimedOut {
			t.Fatalf("%s: does not go on after %d of %d answers: %q", what, x.Answered, len(ds), x.Screen)
		}
		if strings.Contains(x.Screen, "goroutine ") && strings.Contains(x.Screen, "panic") {
			t.Fatalf("%s: crashed: %s", what, x.Screen)
		}
		if x.Answered != len(ds) {
			t.Fatalf("%s: asked %d of %d questions: %q", what, x.Answered, len(ds), x.Screen)
		}
		if x.Visible {
			t.Fatalf("%s: shows what is typed as a password", what)
		}
		restored := interrupted != "KILL" && (interrupted != "TERM" || ds[at].Hidden)
		if restored && x.Altered != "" {
			t.Fatalf("%s: leaves the terminal with other settings: %s", what, x.Altered)
		}
		c.keeps(t, what, "the screen", x.Screen, pfks, true)
		if shown && interrupted == "" && len(reHexKey.FindAllString(x.Screen, -1)) != 1 {
			t.Fatalf("%s: the derived key is not printed", what)
		}
		if interrupted != "" && random && reHexKey.MatchString(strings.ReplaceAll(x.Screen, c.file, "")) {
			t.Fatalf("%s: prints a storage key: %q", what, x.Screen)
		}
		c.keepsAll(t, what, pfks, prints)
		if interrupted != "" || !good {
			if x.Exit == 0 {
				t.Fatalf("%s: reports success: %q", what, x.Screen)
			}
			if after := filesIn(dir); after != before {
				t.Fatalf("%s: changes the directory\nfrom:\n%s\nto:\n%s", what, before, after)
			}
		} else {
			if x.Exit != 0 {
				t.Fatalf("%s: fails: %q", what, x.Screen)
			}
			if random {
				m := reHexKey.FindAllString(strings.ReplaceAll(x.Screen, c.file, ""), -1)
				if len(m) != 1 {
					t.Fatalf("%s: %d keys are printed: %q", what, len(m), x.Screen)
				}
				now.pfk = strings.ToLower(m[0])
			}
			if _, err := opened(c.file, now.pfk); err != nil {
				t.Fatalf("%s: the store does not open: %v", what, err)
			}
		}
		labels := []string{kind, "by " + interrupted}
		if interrupted != "" && at >= 0 {
			labels = append(labels, map[bool]string{true: "at a password", false: "at another question"}[ds[at].Hidden])
		}
		kit.Case(interrupted != "" || len(c.secrets) > 2, fmt.Sprintf("%s, %d answers, interrupted by %q", kind, len(ds), interrupted), labels...)
	})
	prompts(t)
	kit.Check(t, "given", 3200, 40000, func(t *rapid.T) {
		dir, done := scratch("c29")
		defer done()
		c := openConfidence(t, dir)
		out := filepath.Join(dir, "print."+rapid.SampledFrom([]string{"txt", "pdf"}).Draw(t, "extension"))
		prints := map[string]bool{out: true}
		pfks := []string{c.opens.pfk}
		env := append([]string{}, c.env...)
		args := []string{"-f", c.file}
		give := func(option, variable, value string) {
			if rapid.Bool().Draw(t, "variable") {
				env = append(env, variable+"="+value)
			} else {
				args = append(args, option, value)
			}
		}
		how := rapid.SampledFrom([]string{"password", "password", "key", "key", "both", "wrong password", "wrong key", "long key", "bad key"}).Draw(t, "given")
		switch how {
		case "password":
			give("-P", "KRYPTO_PASSWORD", aPassword)
		case "key":
			give("-K", "KRYPTO_PFK", c.opens.pfk)
		case "both":
			give("-P", "KRYPTO_PASSWORD", aPassword)
			give("-K", "KRYPTO_PFK", c.opens.pfk)
		case "wrong password":
			give("-P", "KRYPTO_PASSWORD", c.another(t, true))
		case "wrong key":
			pfks = append(pfks, otherPFK)
			give("-K", "KRYPTO_PFK", otherPFK)
		case "long key":
			give("-K", "KRYPTO_PFK", c.opens.pfk+"00")
		case "bad key":
			p := c.another(t, true)
			give("-K", "KRYPTO_PFK", p)
		}
		theKey := c.content.Keys[0].Id
		commands := [][]string{{"keys", "-l"}, {"messages", "-l"}, {"keys", "-n", "2"}, {"keys", "-d", "-y", "-i", theKey}, {"keys", "-E", filepath.Join(dir, "export")}, {"keys", "-E", c.file}, {"keys", "-E", dir}, {"keys", "-o", out}, {"m", "-o", out}, {"keys", "-I", filepath.Join(dir, "absent")},
			{"keys", "-I", c.file}, {"keys", "-n", "2", "-x", "NODATE"}, {"--help"}, {"help"}, {"keys", "--help"}, {"messages", "--help"}, {"pfk", "--help"}, {"init", "--help"}, {}, {"keys"}, {"messages"}, {"pfk"}, {"keys", "-d"}, {"nonsense"}, {"keys", "--nonsense"}, {"--version"},
			{"init", "-c", "SM5XX", "-n", "2"}, {"init", "-y", "-c", "SM5XX", "-n", "2"}, {"init", "-y", "-c", "X"}, {"messages", "-n"}, {"pfk", "-c", c.file}, {"pfk", "-c", filepath.Join(dir, "absent")}, {"pfk", "-c", c.file, "-y", "-r"}, {"pfk", "-c", c.file, "-y", "-r", "-N"}, {"pfk", "-c", c.file, "-N"}, {"pfk", "-c", c.file, "-y", "-N"}, {"pfk", "-c", c.file, "-y", "-P"},
			{"pfk", "-c", c.file, "-y", "-k"}, {"pfk", "-c", c.file, "-k"}, {"pfk", "-c", dir, "-y", "-k"}, {"pfk", "-c", c.file, "-y", "-N", "a", "-s"}, {"pfk", "-g", "-r"}, {"pfk", "-G"}, {"pfk", "-g", "-G"}, {"--generate-bash-completion"}, {"keys", "--generate-bash-completion"}, {"-M", "x", "keys", "-l"}}
		command := append([]string{}, commands[rapid.IntRange(0, len(commands)-1).Draw(t, "command")]...)
		if n := len(command); n > 2 && command[0] == "pfk" {
			switch command[n-1] {
			case "-N":
				if p := c.another(t, rapid.Bool().Draw(t, "strong")); rapid.Bool().Draw(t, "newVariable") {
					command = command[:n-1]
					env = append(env, "KRYPTO_NEW_PASSWORD="+p)
				} else {
					command = append(command, p)
				}
			case "-P":
				if p := c.another(t, true); rapid.Bool().Draw(t, "oldVariable") {
					command = command[:n-1]
					env = append(env, "KRYPTO_OLD_PASSWORD="+p)
				} else {
					command = append(command, p)
				}
			case "-k":
				p := hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "next"))
				pfks = append(pfks, p)
				command = append(command, rapid.SampledFrom([]string{"", "", "00", "x"}).Draw(t, "wrongEnd"))
				command[len(command)-1] = p + command[len(command)-1]
			case "-s":
				command = append(command, rapid.SampledFrom([]string{"default", "00", "zz"}).Draw(t, "salt"))
			}
		}
		args = append(args, command...)
		stdin := ""
		if len(command) == 2 && command[1] == "-n" {
			stdin = rapid.SampledFrom([]string{"QJ DE SA6MWA 012345 = TEST = K", "NOBODY DE SA6MWA 012345 = TEST = K", "SA6MWA DE QJ 012345 = TEST = K", "RUBBISH", ""}).Draw(t, "radiogram")
		}
		r := toolRun(t, dir, env, stdin, args...)
		what := fmt.Sprintf("krypto431 %q with %q (exit status %d)", args, env[len(c.env):], r.exit)
		c.keeps(t, what, "the output", r.out, pfks, true)
		c.keeps(t, what, "the error output", r.err, pfks, true)
		c.keepsAll(t, what, pfks, prints)
		kit.Case(r.exit != 0 || strings.Contains(strings.Join(command, " "), "help"), strings.Join(command, " ")+" with "+how, "given "+how, map[bool]string{true: "fails", false: "succeeds"}[r.exit != 0])
	})
}
