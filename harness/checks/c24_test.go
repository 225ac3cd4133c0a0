package checks

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	passwordvalidator "github.com/wagslane/go-password-validator"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// secret is what opens a store: a key, or a password with a salt.
type secret struct {
	pfk, password, salt string // lower-case hex
	isPassword          bool
}

var derivations sync.Map

// ofPassword derives a key independently of the library.
func ofPassword(password, salt string) secret {
	s := secret{password: password, salt: strings.ToLower(salt), isPassword: true}
	if v, ok := derivations.Load(password + "\x00" + s.salt); ok {
		s.pfk = v.(string)
		return s
	}
	b, err := hex.DecodeString(salt)
	if err != nil {
		panic("HARNESS ERROR: " + err.Error())
	}
	s.pfk = derived([]byte(password), b)
	derivations.Store(password+"\x00"+s.salt, s.pfk)
	return s
}

var storePasswords = []string{aPassword, "hemlig", "x", "correct horse battery staple 7!", strings.Repeat("lång ", 40), "-not-an-option-7", "12345678", " leading and trailing ", "KRYPTO431 & $HOME `ls` \"q\" 'q'"}
var storeSalts = []string{strings.ToLower(krypto431.DefaultSalt), strings.ToLower(krypto431.DefaultSalt), aSalt, strings.Repeat("00", 32), strings.Repeat("fe", 100)}
var reHexKey = regexp.MustCompile(`\b[0-9a-fA-F]{64}\b`)

// drawSecret draws a new secret.
func drawSecret(t *rapid.T, label string) secret {
	if rapid.Bool().Draw(t, label+"IsPassword") {
		return ofPassword(rapid.SampledFrom(storePasswords).Draw(t, label), rapid.SampledFrom(storeSalts).Draw(t, label+"Salt"))
	}
	b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, label)
	return secret{pfk: hex.EncodeToString(b)}
}

// hexOf spells a hex string.
func hexOf(t *rapid.T, s, label string) string {
	if rapid.IntRange(0, 3).Draw(t, label+"Upper") == 0 {
		return kit.MixCase(t, strings.ToUpper(s), label)
	}
	return s
}

func TestC24(t *testing.T) {
	kit.Rule("histories of key changes of generated stores with the built tool: old key or password (global, as -P or asked for, right, wrong, with the wrong salt, invalid) and new hex key, password (with default, given, new or invalid salt), printed random key, typed passphrase (denied, mistyped, repeated), with and without consent, contradicting options, in a directory which can not be written; after each the store is opened with the new and the old secret (derived independently) and its content compared; a refused change leaves the file as it is, byte by byte; non-trivial = at least one change carried out and one refused")
	kit.Check(t, "changes", 540, 9000, func(t *rapid.T) {
		dir, done := scratch("c24")
		defer done()
		file := filepath.Join(dir, rapid.SampledFrom([]string{"store", "a store", "-store"}).Draw(t, "file"))
		now := drawSecret(t, "first")
		kit.Entropy(kit.Seed(t))
		k := kit.Station(kit.Geometry{G: 5, K: 25}, rapid.SampledFrom([]string{"SA6MWA", "ÅÄÖ", ""}).Draw(t, "call"), krypto431.WithPersistence(file), krypto431.WithPFKString(now.pfk))
		settings(t, k, "")
		richStore(t, k, 6, 4)
		must(t, k.Save(), "saving")
		fresh, err := opened(file, now.pfk)
		must(t, err, "opening")
		content := kit.SnapStore(fresh)
		changed, refused := 0, 0
		var log, labels []string
		for n := rapid.IntRange(1, 7).Draw(t, "changes"); n > 0; n-- {
			bytesBefore, _ := readFile(file)
			var global, sub []string
			var dialogs []kit.Dialog
			env := cliEnv(dir)
			good := true
			note := ""
			bad := func(why string) { good, note = false, note+" "+why }
			terminal := false
			// the old key
			globalSalt := strings.ToLower(krypto431.DefaultSalt)
			way := rapid.SampledFrom([]string{"right", "right", "right", "right", "right", "right", "wrong key", "wrong password", "wrong salt", "bad key", "none", "both"}).Draw(t, "old")
			askOld := false
			giveSalt := func(s string, variable bool) {
				globalSalt = s
				if variable {
					env = append(env, "KRYPTO_SALT="+s)
				} else {
					global = append(global, rapid.SampledFrom([]string{"-S", "--salt"}).Draw(t, "saltOption"), hexOf(t, s, "saltSpelling"))
				}
			}
			givePassword := func(p string) {
				switch rapid.IntRange(0, 4).Draw(t, "passwordAs") {
				case 0:
					global = append(global, "--password="+p)
				case 1:
					env = append(env, "KRYPTO_PASSWORD="+p)
				case 2:
					env = append(env, "KRYPTO_OLD_PASSWORD="+p)
				case 3:
					sub = append(sub, rapid.SampledFrom([]string{"-P=", "--old="}).Draw(t, "oldOption")+p)
				default:
					if p == storePasswords[7] {
						global = append(global, "--password="+p)
						return
					}
					askOld, terminal = true, true
					dialogs = append(dialogs, kit.Dialog{Ask: "Enter decryption key", Answer: p + "\r"})
				}
			}
			switch way {
			case "right":
				if now.isPassword && rapid.IntRange(0, 4).Draw(t, "byKey") > 0 {
					if now.salt != globalSalt || rapid.IntRange(0, 3).Draw(t, "stateSalt") == 0 {
						giveSalt(now.salt, rapid.Bool().Draw(t, "saltVariable"))
					}
					givePassword(now.password)
				} else {
					if rapid.IntRange(0, 3).Draw(t, "otherSalt") == 0 {
						giveSalt(rapid.SampledFrom(storeSalts).Draw(t, "aSalt"), false)
					}
					if rapid.Bool().Draw(t, "keyVariable") {
						env = append(env, "KRYPTO_PFK="+now.pfk)
					} else {
						global = append(global, rapid.SampledFrom([]string{"-K", "--pfk"}).Draw(t, "keyOption"), hexOf(t, now.pfk, "oldSpelling"))
					}
				}
			case "wrong key":
				bad("wrong old key")
				wrong := rapid.SampledFrom([]string{otherPFK, now.pfk[:62] + map[bool]string{true: "00", false: "01"}[now.pfk[62:] != "00"], strings.Repeat("00", 32)}).Draw(t, "wrong")
				global = append(global, "-K", wrong)
			case "wrong password":
				bad("wrong old password")
				givePassword("not the " + now.password)
			case "wrong salt":
				bad("wrong salt of the old password")
				giveSalt(strings.Repeat("ab", 33), false)
				givePassword(now.password)
			case "bad key":
				bad("invalid old key")
				global = append(global, "-K", rapid.SampledFrom([]string{"", now.pfk[1:], now.pfk + "00", "x" + now.pfk[1:], " " + now.pfk}).Draw(t, "badKey"))
			case "none":
				bad("no old key")
			case "both":
				bad("two old keys")
				global = append(global, "-K", now.pfk, "-P", "something else 4711")
			}
			// the new key
			newSalt := globalSalt
			saltStated := false
			if rapid.IntRange(0, 2).Draw(t, "newSalt") == 0 {
				saltStated = true
				name := rapid.SampledFrom([]string{"-s", "--new-salt"}).Draw(t, "newSaltOption")
				switch rapid.IntRange(0, 4).Draw(t, "whichSalt") {
				case 0:
					newSalt = strings.ToLower(krypto431.DefaultSalt)
					sub = append(sub, name, "default")
				case 1:
					bad("invalid new salt")
					sub = append(sub, name, rapid.SampledFrom([]string{"00", "", aSalt[2:], "Default", "zz" + aSalt, aSalt + "0", " " + aSalt}).Draw(t, "badSalt"))
				default:
					newSalt = rapid.SampledFrom(storeSalts[2:]).Draw(t, "theNewSalt")
					sub = append(sub, name, hexOf(t, newSalt, "newSaltSpelling"))
				}
			}
			var next secret
			random, consent := false, true
			kind := rapid.SampledFrom([]string{"key", "key", "password", "password", "random", "random", "typed", "bad key", "contradiction"}).Draw(t, "new")
			if kind == "typed" && !good && !terminal && way != "wrong password" && way != "wrong salt" {
				kind = "key"
			}
			switch kind {
			case "key":
				next = secret{pfk: hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "newKey"))}
				if rapid.IntRange(0, 7).Draw(t, "sameKey") == 0 {
					next = now
					next.isPassword = false
				}
				sub = append(sub, rapid.SampledFrom([]string{"-k", "--new-pfk"}).Draw(t, "newKeyOption"), hexOf(t, next.pfk, "newSpelling"))
			case "bad key":
				bad("invalid new key")
				p := strings.Repeat("5a", 32)
				sub = append(sub, "-k", rapid.SampledFrom([]string{"", "00", p[1:], p + "00", p[:63] + "g", p + " ", "password"}).Draw(t, "badNewKey"))
			case "password":
				p := rapid.SampledFrom(storePasswords).Draw(t, "newPassword")
				if good {
					next = ofPassword(p, newSalt)
				}
				if rapid.IntRange(0, 4).Draw(t, "newVariable") == 0 {
					env = append(env, "KRYPTO_NEW_PASSWORD="+p)
				} else {
					sub = append(sub, rapid.SampledFrom([]string{"-N=", "--new="}).Draw(t, "newOption")+p)
				}
			case "random":
				random = true
				sub = append(sub, rapid.SampledFrom([]string{"-r", "--random"}).Draw(t, "randomOption"))
			case "contradiction":
				bad("contradicting options")
				p := strings.Repeat("5a", 32)
				sub = append(sub, rapid.SampledFrom([][]string{{"-r", "-N", aPassword}, {"-k", p, "-N", aPassword}}).Draw(t, "both")...)
			case "typed":
				terminal = true
				p := rapid.SampledFrom([]string{aPassword, "correct horse battery staple 7!", storePasswords[4]}).Draw(t, "newPassword")
				if good {
					next = ofPassword(p, newSalt)
				}
				for i := rapid.IntRange(0, 2).Draw(t, "attempts"); i > 0; i-- {
					if rapid.Bool().Draw(t, "weak") {
						dialogs = append(dialogs, kit.Dialog{Ask: "Enter new encryption key", Answer: "weak\r"})
					} else {
						dialogs = append(dialogs, kit.Dialog{Ask: "Enter new encryption key", Answer: p + "\r"}, kit.Dialog{Ask: "(repeat)", Answer: p + "!\r"})
					}
				}
				dialogs = append(dialogs, kit.Dialog{Ask: "Enter new encryption key", Answer: p + "\r"}, kit.Dialog{Ask: "(repeat)", Answer: p + "\r"})
				if passwordvalidator.Validate(p, math.Max(60, krypto431.DefaultMinimumPasswordEntropyBits)) != nil {
					panic("HARNESS ERROR: weak password " + p)
				}
			}
			if kind != "typed" {
				switch rapid.IntRange(0, 5).Draw(t, "consent") {
				case 0: // to be asked, but there is nobody
					if !terminal {
						consent = false
						break
					}
					fallthrough
				case 1:
					terminal = true
					consent = rapid.Bool().Draw(t, "yes")
					dialogs = append(dialogs, kit.Dialog{Ask: "Change encryption key", Answer: map[bool]string{true: "y\r", false: "n\r"}[consent], Queries: 2})
				default:
					sub = append(sub, rapid.SampledFrom([]string{"-y", "--yes"}).Draw(t, "yesOption"))
				}
			}
			change := rapid.SampledFrom([]string{"-c=", "-p=", "--change="}).Draw(t, "changeOption") + file
			if rapid.Bool().Draw(t, "changeFirst") {
				sub = append([]string{change}, sub...)
			} else {
				sub = append(sub, change)
			}
			if rapid.IntRange(0, 3).Draw(t, "otherFile") == 0 { // has no meaning here
				global = append(global, "-f", filepath.Join(dir, "unrelated"))
			}
			args := append(append(append([]string{}, global...), "pfk"), sub...)
			// the file can not be written
			blocked := good && consent && rapid.IntRange(0, 5).Draw(t, "blocked") == 0
			if blocked {
				bad("read-only directory")
				must(t, os.Chmod(file, 0400), "Chmod")
				must(t, os.Chmod(dir, 0500), "Chmod")
				if os.WriteFile(filepath.Join(dir, "probe"), nil, 0600) == nil {
					panic("HARNESS ERROR: a read-only directory can be written")
				}
			}
			var r ran
			var x *kit.Talked
			if terminal {
				limit := 60 * time.Second
				if !good && !blocked { // it may ask something there is no answer for
					limit = 4 * time.Second
				}
				x, err = kit.Talk(append([]string{kit.CLI()}, args...), env, dir, dialogs, nil, limit)
				if err != nil {
					panic("HARNESS ERROR: " + err.Error())
				}
				if x.TimedOut && good {
					t.Fatalf("krypto431 %q does not go on after %d of %d answers: %q", args, x.Answered, len(dialogs), x.Screen)
				}
				r = ran{x.Exit, x.Screen, "", strings.Join(args, " ")}
			} else {
				r = toolRun(t, dir, env, "", args...)
			}
			if blocked {
				must(t, os.Chmod(dir, 0700), "Chmod")
				must(t, os.Chmod(file, 0600), "Chmod")
			}
			log = append(log, fmt.Sprintf("%s old, new %s%s (consent %v, terminal %v)", way, kind, note, consent, terminal))
			what := fmt.Sprintf("krypto431 %q (exit status %d: %s%s) after %s", args, r.exit, r.out, r.err, strings.Join(log, "; "))
			labels = append(labels, "old "+way, "new "+kind)
			if _, err := os.Lstat(filepath.Join(dir, "unrelated")); err == nil {
				t.Fatalf("%s: made another file", what)
			}
			if !good || !consent {
				refused++
				after, _ := readFile(file)
				if !good && r.exit == 0 && consent || !good && r.exit == 0 && way != "right" {
					t.Fatalf("%s: reports success", what)
				}
				if after != bytesBefore {
					t.Fatalf("%s: was refused, but the file has changed", what)
				}
				if k, err := opened(file, now.pfk); err != nil {
					t.Fatalf("%s: the old key does not open it: %v", what, err)
				} else if d := kit.Diff(kit.SnapStore(k), content); d != "" {
					t.Fatalf("%s: %s", what, d)
				}
				continue
			}
			if r.exit != 0 {
				t.Fatalf("%s: failed", what)
			}
			if terminal && x.Answered != len(dialogs) {
				t.Fatalf("%s: asked %d of %d questions", what, x.Answered, len(dialogs))
			}
			if random {
				m := reHexKey.FindAllString(strings.ReplaceAll(r.out, file, ""), -1)
				if len(m) != 1 {
					t.Fatalf("%s: %d keys are printed", what, len(m))
				}
				next = secret{pfk: strings.ToLower(m[0])}
				if next.pfk == now.pfk {
					t.Fatalf("%s: the random key is the old one", what)
				}
			}
			changed++
			k, err := opened(file, next.pfk)
			if err != nil {
				t.Fatalf("%s: the new key does not open the store: %v", what, err)
			}
			if d := kit.Diff(kit.SnapStore(k), content); d != "" {
				t.Fatalf("%s: the content has changed: %s", what, d)
			}
			if next.pfk != now.pfk {
				if _, err := opened(file, now.pfk); err == nil {
					t.Fatalf("%s: the old key still opens the store", what)
				}
			}
			// as the user would
			if rapid.IntRange(0, 3).Draw(t, "useNew") == 0 {
				args := []string{"-f", file, "-K", next.pfk}
				if next.isPassword {
					args = []string{"-f", file, "-S", next.salt, "--password=" + next.password}
				}
				if r := cli(t, dir, "", append(args, "keys", "-l")...); r.exit != 0 {
					t.Fatalf("%s: krypto431 %s fails: %s", what, r.args, r.err)
				}
			}
			if saltStated {
				labels = append(labels, "new salt")
			}
			if askOld {
				labels = append(labels, "old password typed")
			}
			now = next
		}
		kit.Case(changed > 0 && refused > 0, fmt.Sprintf("%d keys, %d messages: %s", len(content.Keys), len(content.Msgs), strings.Join(log, "; ")), labels...)
	})
}
