package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

type c03 struct {
	g        kit.Geometry
	k        *krypto431.Krypto431
	dir      string
	consumed map[string]string // key id: what consumed it
	log      []string
	sent     int
	received int
	parts    int
	saves    int
	last     *krypto431.Message
	n        int
	refused  int
}

func (s *c03) note(format string, a ...any) { s.log = append(s.log, fmt.Sprintf(format, a...)) }

func (s *c03) ids(t *rapid.T) []string {
	var ids []string
	for i := range s.k.Keys {
		ids = append(ids, string(s.k.Keys[i].Id))
	}
	return ids
}

// outgoing checks what a successfully enciphered message consumed.
func (s *c03) outgoing(t *rapid.T, keyid, cipher, what string) {
	d, err := kit.ModelSheet(s.g.G, kit.KeyMap(kit.SnapKeys(s.k))).Decipher(keyid, cipher)
	if err != nil {
		t.Fatalf("%s: ciphertext %q with key %s can not be deciphered by hand: %v", what, cipher, keyid, err)
	}
	for _, id := range d.Used {
		if by, ok := s.consumed[id]; ok {
			t.Fatalf("%s enciphered with key %s, which was consumed by %s\nhistory:\n%s", what, id, by, strings.Join(s.log, "\n"))
		}
		s.consumed[id] = what
		s.parts++
	}
	s.sent++
}

func (s *c03) incoming(keyid, cipher, what string) {
	d, _ := kit.ModelSheet(s.g.G, kit.KeyMap(kit.SnapKeys(s.k))).Decipher(keyid, cipher)
	for _, id := range d.Used {
		if _, ok := s.consumed[id]; !ok {
			s.consumed[id] = what
		}
	}
	s.received++
}

func (s *c03) check(t *rapid.T) {
	seen := map[string]bool{}
	for i := range s.k.Keys {
		id := string(s.k.Keys[i].Id)
		seen[id] = true
		if by, ok := s.consumed[id]; ok && !s.k.Keys[i].Used {
			t.Fatalf("key %s was consumed by %s but is not marked used\nhistory:\n%s", id, by, strings.Join(s.log, "\n"))
		}
	}
	for id := range s.consumed {
		if !seen[id] {
			t.Fatalf("key %s disappeared\nhistory:\n%s", id, strings.Join(s.log, "\n"))
		}
	}
}

var c03keepers = [][]string{nil, {"QJ"}, {"VJ"}, {"QJ", "VJ"}}

func TestC03(t *testing.T) {
	kit.Rule("histories of a station: sending with automatic or named keys (used, unknown and compromised ones included), receiving enciphered and garbled messages, enciphering again, saving and loading, export, non-overwriting import, keys expiring, extended, changing keepers, being compromised, messages deleted or deciphered again, generating and listing, over keys with overlapping keepers; what each ciphertext consumed is determined by deciphering it by hand; also two stations exchanging messages of up to a hundred parts; non-trivial = at least two messages sent and one received or reloaded, or a message of more than ten parts")
	kit.Check(t, "history", 7200, 30000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		s := &c03{consumed: map[string]string{}}
		s.g = kit.Geometry{G: rapid.SampledFrom([]int{5, 5, 3, 2, 8}).Draw(t, "groupSize"), K: rapid.IntRange(20, 40).Draw(t, "keyLength")}
		s.dir, _ = os.MkdirTemp(kit.Scratch, "c03")
		defer os.RemoveAll(s.dir)
		pfk := strings.Repeat("5a", 32)
		file := filepath.Join(s.dir, "store")
		s.k = kit.Station(s.g, "SA6MWA", krypto431.WithPersistence(file), krypto431.WithPFKString(pfk), krypto431.WithOverwritePersistenceIfExists(true))
		for _, kp := range c03keepers {
			generate(t, s.k, rapid.IntRange(0, 4).Draw(t, "keys"), s.g.K, kp...)
		}
		for i := range s.k.Keys {
			switch rapid.IntRange(0, 11).Draw(t, "state") {
			case 0:
				s.k.Keys[i].Used = true
				s.consumed[string(s.k.Keys[i].Id)] = "an earlier message"
			case 1:
				s.k.Keys[i].Compromised = true
			}
		}
		send := func(t *rapid.T) {
			to := rapid.SampledFrom(c03keepers).Draw(t, "to")
			text := kit.Text(t, 1, 40, "text")
			key := ""
			if ids := s.ids(t); rapid.IntRange(0, 2).Draw(t, "named") == 0 && len(ids) > 0 {
				key = rapid.SampledFrom(append(ids, strings.Repeat("Q", s.g.G))).Draw(t, "key")
			}
			s.n++
			what := fmt.Sprintf("message %d to %v %q (named key %q)", s.n, to, text, key)
			var m *krypto431.Message
			var err error
			if rapid.Bool().Draw(t, "radiogram") && !strings.ContainsAny(text, "=+") {
				args := []string{strings.Join(to, ",") + " DE SA6MWA 012345 = " + text + " = K"}
				if key != "" {
					args = append(args, kit.MixCase(t, key, "key"))
				}
				noPanic(t, "NewTextMessage", func() { m, err = s.k.NewTextMessage(args...) })
			} else {
				m = kit.Msg(s.k, text, to...)
				m.KeyId = []rune(key)
				noPanic(t, "Encipher", func() { err = m.Encipher() })
			}
			if err != nil {
				s.note("%s refused: %v", what, err)
				s.refused++
				return
			}
			s.note("%s enciphered with %s", what, string(m.KeyId))
			s.outgoing(t, string(m.KeyId), string(m.CipherText), what)
			s.last = m
		}
		receive := func(t *rapid.T) {
			ids := s.ids(t)
			if len(ids) == 0 {
				return
			}
			sheet := kit.ModelSheet(s.g.G, kit.KeyMap(kit.SnapKeys(s.k)))
			key := rapid.SampledFrom(ids).Draw(t, "key")
			c := sheet.NewCoder(key)
			for _, r := range kit.Text(t, 1, 30, "text") {
				if c.Left() < s.g.G+8 {
					c.ChangeKey(rapid.SampledFrom(ids).Draw(t, "nextKey"))
				}
				c.Put(r)
			}
			for len(c.Cipher())%s.g.G != 0 || len(c.Cipher()) < s.g.G {
				if c.Left() == 0 {
					break
				}
				c.Switch()
			}
			cipher := []byte(c.Cipher())
			garbled := rapid.IntRange(0, 2).Draw(t, "garbled") == 0
			if garbled {
				cipher[rapid.IntRange(0, len(cipher)-1).Draw(t, "at")] = 'A' + byte(rapid.IntRange(0, 25).Draw(t, "letter"))
			}
			s.n++
			what := fmt.Sprintf("received message %d %s %s", s.n, key, cipher)
			var m *krypto431.Message
			var err error
			if rapid.Bool().Draw(t, "radiogram") {
				text := key + " " + grouped(string(cipher), s.g.G)
				noPanic(t, "NewTextMessage", func() { m, err = s.k.NewTextMessage("SA6MWA DE QJ 012345 = " + text + " = K") })
				if err == nil && len(m.CipherText) == 0 {
					err = fmt.Errorf("not deciphered")
				}
			} else {
				m = &krypto431.Message{KeyId: []rune(key), CipherText: []rune(string(cipher))}
				m.SetInstance(s.k)
				noPanic(t, "Decipher", func() { err = m.Decipher() })
			}
			s.note("%s: %v", what, err)
			if err == nil {
				s.incoming(key, string(cipher), what)
			} else if !garbled {
				if len(cipher)%s.g.G == 0 {
					t.Fatalf("%s not deciphered: %v", what, err)
				}
			}
		}
		t.Repeat(map[string]func(*rapid.T){
			"":        func(t *rapid.T) { s.check(t) },
			"send":    send,
			"sendTwo": func(t *rapid.T) { send(t); send(t) },
			"receive": receive,
			"again": func(t *rapid.T) {
				if s.last == nil {
					return
				}
				// enciphering the same message once more
				m := s.last
				if rapid.Bool().Draw(t, "clear") {
					m.KeyId, m.CipherText = nil, nil
				} else if rapid.Bool().Draw(t, "clearCipher") {
					m.CipherText = nil
				}
				var err error
				noPanic(t, "Encipher", func() { err = m.Encipher() })
				s.note("enciphering again %q: %v", string(m.PlainText), err)
				if err == nil {
					s.outgoing(t, string(m.KeyId), string(m.CipherText), "a message enciphered again")
				}
				s.last = nil
			},
			"reload": func(t *rapid.T) {
				must(t, s.k.Save(), "Save")
				n := s.k
				if rapid.Bool().Draw(t, "fresh") {
					n = kit.Station(s.g, "XX", krypto431.WithPersistence(file), krypto431.WithPFKString(pfk))
				}
				must(t, n.Load(), "Load")
				s.k = n
				s.last = nil
				s.saves++
				s.note("saved and loaded")
			},
			"transfer": func(t *rapid.T) {
				// export some keys and import them again, later perhaps
				out := filepath.Join(s.dir, "export")
				if rapid.Bool().Draw(t, "export") {
					os.Remove(out)
					ids := map[string]bool{}
					for _, id := range s.ids(t) {
						ids[id] = rapid.Bool().Draw(t, "pick")
					}
					e := s.k.ExportKeys(func(k *krypto431.Key) bool { return ids[string(k.Id)] }, krypto431.WithPersistence(out))
					must(t, e.Save(), "saving the export")
					s.note("exported %v", ids)
				}
				if _, err := os.Stat(out); err == nil && rapid.Bool().Draw(t, "import") {
					key := []byte(strings.Repeat("Z", 32))
					_, err := s.k.ImportKeys(kit.All, krypto431.WithPersistence(out), krypto431.WithPFKString(pfk), krypto431.WithSalt(&key))
					must(t, err, "ImportKeys")
					s.note("imported")
				}
			},
			"importOther": func(t *rapid.T) {
				// keys from another station, partly with ids of ours
				o := kit.Station(s.g, "VJ", krypto431.WithPersistence(filepath.Join(s.dir, fmt.Sprint("other", s.n))), krypto431.WithPFKString(pfk))
				s.n++
				generate(t, o, 2, s.g.K, "SA6MWA,QJ")
				if len(s.k.Keys) > 0 {
					i := rapid.IntRange(0, len(s.k.Keys)-1).Draw(t, "same")
					c := kit.CloneKey(&s.k.Keys[i], o)
					c.Used, c.Compromised = false, false
					o.Keys = append(o.Keys, c)
				}
				must(t, o.Save(), "Save")
				var f string = o.GetPersistence()
				_, err := s.k.ImportKeys(kit.All, krypto431.WithPersistence(f), krypto431.WithPFKString(pfk))
				must(t, err, "ImportKeys")
				s.note("imported from another station")
			},
			"generate": func(t *rapid.T) {
				if len(s.k.Keys) < 40 {
					generate(t, s.k, rapid.IntRange(1, 3).Draw(t, "n"), s.g.K, rapid.SampledFrom(c03keepers).Draw(t, "keepers")...)
					s.note("generated")
				}
			},
			"alter": func(t *rapid.T) {
				// what else happens to keys, used or not
				if len(s.k.Keys) == 0 {
					return
				}
				key := &s.k.Keys[rapid.IntRange(0, len(s.k.Keys)-1).Draw(t, "which")]
				what := rapid.SampledFrom([]string{"expired", "expired", "extended", "given to another", "taken back", "commented", "compromised", "sound again"}).Draw(t, "how")
				switch what {
				case "expired":
					key.Expires.Time = time.Now().Add(-time.Duration(rapid.IntRange(1, 1000).Draw(t, "hours")) * time.Hour)
				case "extended":
					key.Expires.Time = time.Now().AddDate(rapid.IntRange(0, 3).Draw(t, "years"), 1, 0)
				case "given to another":
					key.AddKeeper(kit.Runes(rapid.SampledFrom([]string{"QJ", "VJ", "BA"}).Draw(t, "keeper"))...)
				case "taken back":
					key.RemoveKeeper(kit.Runes(rapid.SampledFrom([]string{"QJ", "VJ", "BA"}).Draw(t, "keeper"))...)
				case "commented":
					key.Comment = []rune(rapid.SampledFrom([]string{"", "unused", "used?"}).Draw(t, "comment"))
				case "compromised":
					key.Compromised = true
				case "sound again":
					key.Compromised = false
				}
				s.note("key %s %s", string(key.Id), what)
			},
			"deleteMessages": func(t *rapid.T) {
				if len(s.k.Messages) == 0 {
					return
				}
				var ids [][]rune
				for i := range s.k.Messages {
					if rapid.Bool().Draw(t, "pick") {
						ids = append(ids, append([]rune{}, s.k.Messages[i].Id...))
					}
				}
				_, err := s.k.DeleteMessage(ids...)
				s.last = nil
				s.note("deleted %d messages: %v", len(ids), err)
			},
			"tryAll": func(t *rapid.T) {
				for i := range s.k.Messages {
					m := &s.k.Messages[i]
					dry := rapid.Bool().Draw(t, "dry")
					var err error
					noPanic(t, "TryDecipherPlainText", func() { err = m.TryDecipherPlainText(dry) })
					if err == nil && !dry {
						s.incoming(string(m.KeyId), string(m.CipherText), "message "+string(m.Id)+" deciphered later")
						s.note("deciphered message %s", string(m.Id))
					}
				}
			},
			"list": func(t *rapid.T) {
				s.k.SummaryOfKeys(kit.All)
				s.k.SummaryOfMessages(kit.AllMsgs)
				s.k.KeysAsText(kit.All)
				s.k.MessagesAsText(kit.AllMsgs)
				s.note("listed")
			},
		})
		kit.Case(s.sent >= 2 && s.received+s.saves > 0, fmt.Sprintf("G=%d K=%d %s", s.g.G, s.g.K, short(strings.Join(s.log, "; "))),
			map[bool]string{true: "histories with key changes", false: "histories of single-key messages"}[s.parts > s.sent])
		kit.AddExtra("messages_sent", int64(s.sent))
		kit.AddExtra("messages_received", int64(s.received))
		kit.AddExtra("reloads", int64(s.saves))
		kit.AddExtra("refusals", int64(s.refused))
	})
	kit.Check(t, "long", 640, 8000, func(t *rapid.T) {
		// messages of very many parts, sent and received at two stations
		kit.Entropy(kit.Seed(t))
		a := &c03{consumed: map[string]string{}}
		a.g = kit.Geometry{G: rapid.SampledFrom([]int{3, 4, 5, 8}).Draw(t, "groupSize"), K: rapid.IntRange(20, 30).Draw(t, "keyLength")}
		a.k = kit.Station(a.g, "SA6MWA")
		n := rapid.IntRange(10, 160).Draw(t, "keys")
		generate(t, a.k, n, a.g.K, "QJ")
		for i := range a.k.Keys {
			a.k.Keys[i].Used = i%7 == 3
			a.k.Keys[i].Compromised = i%11 == 5
		}
		b := &c03{consumed: map[string]string{}, g: a.g}
		var order []int
		for i := range a.k.Keys {
			order = append(order, i)
		}
		b.k = kit.Receiver(a.g, "QJ", a.k.Keys, order)
		for i := range b.k.Keys {
			b.k.Keys[i].Keepers = krypto431.VettedKeepers("SA6MWA")
		}
		most := 0
		for i := rapid.IntRange(1, 4).Draw(t, "messages"); i > 0; i-- {
			from, to := a, b
			if rapid.IntRange(0, 2).Draw(t, "back") == 0 {
				from, to = b, a
			}
			text := strings.Repeat(kit.Letters(t, 17, "text"), rapid.IntRange(1, 1+n*a.g.K/34).Draw(t, "length"))
			what := fmt.Sprintf("message %d of %d letters of %s", len(from.log)+1, len(text), from.k.CallSignString())
			m, err := from.k.NewTextMessage(to.k.CallSignString() + " DE " + from.k.CallSignString() + " 011200 = " + text + " = K")
			from.note("%s: %v", what, err)
			if err == nil {
				parts := from.parts
				from.outgoing(t, string(m.KeyId), string(m.CipherText), what)
				most = max(most, from.parts-parts)
				if rapid.IntRange(0, 3).Draw(t, "delivered") > 0 {
					r, err := to.k.NewTextMessage(to.k.CallSignString() + " DE " + from.k.CallSignString() + " 011200 = " + string(m.KeyId) + " " + grouped(string(m.CipherText), a.g.G) + " = K")
					must(t, err, what+", received")
					if string(r.PlainText) != text {
						t.Fatalf("%s is received as %q", what, short(string(r.PlainText)))
					}
					to.incoming(string(m.KeyId), string(m.CipherText), what+", received")
					to.note("received %s", what)
				}
			}
			a.check(t)
			b.check(t)
		}
		kit.Case(most > 10, fmt.Sprintf("G=%d K=%d %d keys, parts of the longest message %d: %s", a.g.G, a.g.K, n, most, short(strings.Join(a.log, "; "))), "long", map[bool]string{true: "messages of more than 16 parts"}[most > 16])
	})
}
