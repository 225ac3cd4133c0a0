package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	passwordvalidator "github.com/wagslane/go-password-validator"
	"golang.org/x/crypto/pbkdf2"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

var (
	goodPFK  = regexp.MustCompile(`\A[0-9a-fA-F]{64}\z`)
	goodSalt = regexp.MustCompile(`\A([0-9a-fA-F]{2}){32,}\z`)
)

// derived is the key which a password and salt must give.
func derived(password, salt []byte) string {
	return hex.EncodeToString(pbkdf2.Key(password, salt, 310000, 32, sha256.New))
}

func drawPassword(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 5).Draw(t, label+"Kind") {
	case 0:
		return rapid.SliceOfN(rapid.ByteRange(1, 255), 0, 200).Draw(t, label)
	case 1: // words
		return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"correct", "horse", "battery", "staple", "Åska", "0431", "!", "aaaa", "qwerty"}), 1, 9).Draw(t, label), rapid.SampledFrom([]string{"", " ", "-"}).Draw(t, label+"Sep")))
	case 2: // weak
		return []byte(strings.Repeat(rapid.SampledFrom([]string{"a", "ab", "1", "abc"}).Draw(t, label), rapid.IntRange(1, 60).Draw(t, label+"N")))
	case 3: // what reading and copying may leave at the ends
		p := rapid.StringMatching(`[ -~]{1,70}`).Draw(t, label)
		ends := []string{"", "", "\n", "\r\n", "\r", " ", "\t", "\n\n", "\x00", "\ufeff", "\u00a0", "'", "\""}
		return []byte(rapid.SampledFrom(ends).Draw(t, label+"Start") + p + rapid.SampledFrom(ends).Draw(t, label+"End"))
	default:
		return []byte(rapid.StringMatching(`[ -~]{1,70}`).Draw(t, label))
	}
}

// drawHex draws hex strings around what is valid, and others.
func drawHex(t *rapid.T, label string) string {
	n := rapid.SampledFrom([]int{0, 1, 16, 31, 32, 32, 32, 32, 33, 40, 48, 64, 100}).Draw(t, label+"Bytes")
	s := hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label))
	if rapid.Bool().Draw(t, label+"Case") {
		s = kit.MixCase(t, strings.ToUpper(s), label)
	}
	switch rapid.IntRange(0, 9).Draw(t, label+"Damage") {
	case 0:
		if len(s) > 0 {
			s = s[:len(s)-1]
		}
	case 1:
		s += rapid.SampledFrom([]string{"0", "f", " ", "\n", "00", "g", "zz"}).Draw(t, label+"More")
	case 2:
		s = rapid.SampledFrom([]string{"0x", " ", "\t", "+", "0", "g0"}).Draw(t, label+"Prefix") + s
	case 3:
		if len(s) > 0 {
			i := rapid.IntRange(0, len(s)-1).Draw(t, label+"At")
			s = s[:i] + rapid.SampledFrom([]string{"g", "G", " ", "/", ":", "@", "`", "x", "\x00", "é", "-"}).Draw(t, label+"Bad") + s[i+1:]
		}
	case 4:
		s = rapid.SampledFrom([]string{"", "default", krypto431.DefaultSalt, "deadbeef", strings.Repeat("g", 64), strings.Repeat(" ", 64)}).Draw(t, label+"Other")
	}
	return s
}

// survives counts the positions of a wiped buffer which hold what they held.
func survives(now, before []byte) int {
	n := 0
	for i := range before {
		if now[i] == before[i] {
			n++
		}
	}
	return n
}

// drawInstance draws an instance with a salt and key, and what they are.
func drawSalted(t *rapid.T) (k *krypto431.Krypto431, salt []byte, key string, kind string) {
	k = kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA")
	salt, _ = hex.DecodeString(krypto431.DefaultSalt)
	kind = rapid.SampledFrom([]string{"default", "string", "pointer", "set", "none", "short", "wiped"}).Draw(t, "salt")
	switch kind {
	case "string", "pointer", "set":
		salt = rapid.SliceOfN(rapid.Byte(), 32, 80).Draw(t, "saltBytes")
		c := append([]byte(nil), salt...)
		switch kind {
		case "string":
			krypto431.WithSaltString(hex.EncodeToString(salt))(k)
		case "pointer":
			krypto431.WithSalt(&c)(k)
		case "set":
			must(t, k.SetSaltFromString(hex.EncodeToString(salt)), "SetSaltFromString")
		}
	case "none":
		krypto431.WithSalt(nil)(k)
		salt = nil
	case "short":
		s := k.GetSalt()
		*s = (*s)[:rapid.IntRange(0, 31).Draw(t, "short")]
		salt = nil
	case "wiped":
		krypto431.WipeBytes(k.GetSalt())
		salt = nil
	}
	if rapid.Bool().Draw(t, "keyed") {
		must(t, k.SetPFKFromString(thePFK), "SetPFKFromString")
		key = thePFK
	}
	return
}

func TestC14(t *testing.T) {
	kit.Rule("generated passwords (any bytes, words, weak ones) and instances with default, given, missing and too short salts, derived plain, validated (against generated entropy limits up to the password's own) and from a string, compared with an independent PBKDF2 computation, and the buffers inspected; generated hex strings around 32 bytes (odd, upper case, prefixed, with foreign characters) against the definition; the tool's derived keys; non-trivial = a key was derived, or a value refused")
	defer krypto431.SetMinimumPasswordEntropyBits(krypto431.DefaultMinimumPasswordEntropyBits)
	kit.Check(t, "derive", 1280, 12000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		k, salt, key, kind := drawSalted(t)
		pw := drawPassword(t, "password")
		entropy := passwordvalidator.GetEntropy(string(pw))
		limit := rapid.SampledFrom([]float64{0, 30, 60, krypto431.DefaultMinimumPasswordEntropyBits, entropy, entropy + 0.001, entropy - 0.001, entropy * 2, entropy / 2, 1000}).Draw(t, "limit")
		krypto431.SetMinimumPasswordEntropyBits(limit)
		how := rapid.SampledFrom([]string{"plain", "validated", "validated", "string"}).Draw(t, "how")
		extra := rapid.IntRange(0, 20).Draw(t, "capacity")
		buf := append(make([]byte, 0, len(pw)+extra), pw...)
		backing := buf[:len(pw):len(pw)]
		saltBefore := k.GetSaltString()
		wantOK := salt != nil
		if how == "validated" && entropy < limit {
			wantOK = false
		}
		var err error
		noPanic(t, "deriving", func() {
			switch how {
			case "plain":
				err = k.DerivePFKFromPassword(&buf)
			case "validated":
				err = k.DerivePFKFromPasswordWithValidation(&buf)
			case "string":
				err = k.SetPFKFromPassword(string(pw))
			}
		})
		what := fmt.Sprintf("%s derivation from %q (entropy %.2f, limit %.2f), salt %s of %d bytes", how, pw, entropy, limit, kind, len(saltBefore)/2)
		if len(pw) == 0 && err != nil {
			wantOK = false // an empty password may be refused
		}
		if wantOK != (err == nil) {
			t.Fatalf("%s: %v", what, err)
		}
		if err == nil {
			if want := derived(pw, salt); k.GetPFKString() != want {
				t.Fatalf("%s: key %s instead of %s", what, k.GetPFKString(), want)
			}
		} else if k.GetPFKString() != key {
			t.Fatalf("%s was refused (%v) but changed the key from %q to %q", what, err, key, k.GetPFKString())
		}
		if k.GetSaltString() != saltBefore {
			t.Fatalf("%s changed the salt", what)
		}
		if how != "string" && len(pw) >= 4 {
			if n := survives(backing, pw); n > 3+len(pw)/8 || n == len(pw) {
				t.Fatalf("%s (%v): the password is still in memory: %q", what, err, backing)
			}
			if len(pw) >= 6 && bytes.Contains(buf[:cap(buf)], pw) {
				t.Fatalf("%s (%v): the password is still in memory", what, err)
			}
		}
		kit.Case(true, what, how, map[bool]string{true: "derived", false: "refused"}[err == nil], "salt "+kind)
	})
	kit.Check(t, "refuse", 8000, 100000, func(t *rapid.T) {
		// the cheap half of the above: whatever needs no derivation
		kit.Entropy(kit.Seed(t))
		k, _, key, kind := drawSalted(t)
		pw := drawPassword(t, "password")
		entropy := passwordvalidator.GetEntropy(string(pw))
		krypto431.SetMinimumPasswordEntropyBits(entropy + rapid.SampledFrom([]float64{0.0001, 1, 50}).Draw(t, "above"))
		saltBefore := k.GetSaltString()
		buf := append([]byte(nil), pw...)
		backing := buf
		var err error
		how := "validated"
		noPanic(t, "deriving", func() {
			if (kind == "none" || kind == "short" || kind == "wiped") && rapid.Bool().Draw(t, "plain") {
				how = "plain"
				err = k.DerivePFKFromPassword(&buf)
			} else {
				err = k.DerivePFKFromPasswordWithValidation(&buf)
			}
			if e := k.DerivePFKFromPassword(nil); e == nil {
				t.Fatalf("no password was accepted")
			}
			if e := k.DerivePFKFromPasswordWithValidation(nil); e == nil {
				t.Fatalf("no password was accepted")
			}
		})
		what := fmt.Sprintf("%s derivation from too weak %q (%.2f), salt %s", how, pw, entropy, kind)
		if err == nil {
			t.Fatalf("%s succeeded", what)
		}
		if k.GetPFKString() != key || k.GetSaltString() != saltBefore {
			t.Fatalf("%s: refused but changed the key or salt", what)
		}
		if len(pw) >= 4 {
			if n := survives(backing, pw); n > 3+len(pw)/8 || n == len(pw) {
				t.Fatalf("%s (%v): the password is still in memory: %q", what, err, backing)
			}
		}
		kit.Case(true, what, "refused "+how)
	})
	kit.Check(t, "hex", 40000, 600000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		k, _, _, kind := drawSalted(t)
		s := drawHex(t, "hex")
		pfk, salt := k.GetPFKString(), k.GetSaltString()
		what := rapid.SampledFrom([]string{"key", "salt", "key option", "salt option", "key pointer", "salt pointer"}).Draw(t, "what")
		var err error
		good := goodPFK.MatchString(s)
		if strings.HasPrefix(what, "salt") {
			good = goodSalt.MatchString(s)
		}
		option := strings.Contains(what, " ")
		noPanic(t, fmt.Sprintf("setting the %s to %q", what, s), func() {
			raw, e := hex.DecodeString(s)
			switch what {
			case "key":
				err = k.SetPFKFromString(s)
			case "salt":
				err = k.SetSaltFromString(s)
			case "key option":
				krypto431.WithPFKString(s)(k)
			case "salt option":
				krypto431.WithSaltString(s)(k)
			case "key pointer":
				if e == nil {
					krypto431.WithPFK(&raw)(k)
				} else {
					krypto431.WithPFK(nil)(k)
				}
			case "salt pointer":
				if e == nil {
					krypto431.WithSalt(&raw)(k)
				} else {
					krypto431.WithSalt(nil)(k)
				}
			}
		})
		if !option && good != (err == nil) {
			t.Fatalf("setting the %s to %q: %v", what, s, err)
		}
		wantPFK, wantSalt := pfk, salt
		if good && strings.HasPrefix(what, "key") {
			wantPFK = strings.ToLower(s)
		} else if good {
			wantSalt = strings.ToLower(s)
		}
		gotPFK, gotSalt := k.GetPFKString(), k.GetSaltString()
		// a refused option leaves none (documented) or the one in force
		if option && !good && strings.HasPrefix(what, "key") && gotPFK == "" {
			wantPFK = ""
		}
		if option && !good && strings.HasPrefix(what, "salt") && gotSalt == "" {
			wantSalt = ""
		}
		if gotPFK != wantPFK || gotSalt != wantSalt {
			t.Fatalf("setting the %s to %q (valid: %v, salt %s): key %q salt %q, expected %q and %q", what, s, good, kind, gotPFK, gotSalt, wantPFK, wantSalt)
		}
		kit.Case(true, fmt.Sprintf("%s %q", what, s), what, map[bool]string{true: "accepted", false: "refused"}[good])
	})
	kit.Check(t, "tool", 400, 3000, func(t *rapid.T) {
		dir, done := scratch("c14")
		defer done()
		pw := string(bytes.ReplaceAll(drawPassword(t, "password"), []byte{0}, []byte("z")))
		if rapid.Bool().Draw(t, "strong") {
			pw += "Kv7#nQ2!xW9"
		}
		entropy := passwordvalidator.GetEntropy(pw)
		limit := krypto431.DefaultMinimumPasswordEntropyBits
		var args []string
		if rapid.Bool().Draw(t, "limited") {
			limit = rapid.SampledFrom([]float64{0, 20, 60, 100, entropy - 1, entropy + 1}).Draw(t, "limit")
			if limit < 0 {
				limit = 0
			}
			args = append(args, "-M", fmt.Sprintf("%.3f", limit))
		}
		salt, _ := hex.DecodeString(krypto431.DefaultSalt)
		ok := entropy >= limit
		if entropy-limit < 0.01 && entropy-limit > -0.01 {
			return // rounding
		}
		if rapid.Bool().Draw(t, "salted") {
			s := drawHex(t, "salt")
			if strings.ContainsAny(s, "\x00") {
				return
			}
			args = append(args, "--salt="+s)
			if !goodSalt.MatchString(s) {
				ok = false
			} else {
				salt, _ = hex.DecodeString(s)
			}
		}
		args = append(args, "--password="+pw, "pfk", "-g")
		if rapid.IntRange(0, 3).Draw(t, "newSalted") == 0 {
			s := drawHex(t, "newSalt")
			if strings.ContainsAny(s, "\x00") || s == "" {
				return
			}
			args = append(args, "--new-salt="+s)
			if s == "default" {
				s = krypto431.DefaultSalt
			}
			if !goodSalt.MatchString(s) {
				ok = false
			} else {
				salt, _ = hex.DecodeString(s)
			}
		}
		r := cli(t, dir, "", args...)
		if ok && len(pw) > 0 {
			want := derived([]byte(pw), salt)
			if r.exit != 0 || strings.TrimSpace(r.out) != want {
				t.Fatalf("krypto431 %q (entropy %.2f, limit %.2f) ended with %d: %q %q, expected %s", args, entropy, limit, r.exit, r.out, r.err, want)
			}
		} else if len(pw) > 0 {
			if r.exit == 0 || strings.TrimSpace(r.out) != "" {
				t.Fatalf("krypto431 %q (entropy %.2f, limit %.2f) ended with %d: %q %q, expected a refusal", args, entropy, limit, r.exit, r.out, r.err)
			}
		}
		kit.Case(true, fmt.Sprintf("%q", args), "tool", map[bool]string{true: "derived", false: "refused"}[ok])
	})
}
