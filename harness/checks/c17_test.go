package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// selection is a way of choosing keys, by content.
type selection struct {
	name string
	ids  map[string]bool
	by   func(kit.KeySnap) bool
}

func drawSelection(t *rapid.T, ids []string) selection {
	s := selection{ids: map[string]bool{}}
	switch rapid.IntRange(0, 6).Draw(t, "select") {
	case 0:
		s.name, s.by = "all", func(kit.KeySnap) bool { return true }
	case 1:
		s.name, s.by = "none", func(kit.KeySnap) bool { return false }
	case 2:
		s.name, s.by = "used", func(k kit.KeySnap) bool { return k.Used }
	case 3:
		s.name, s.by = "kept by QJ, not compromised", func(k kit.KeySnap) bool {
			for _, x := range k.Keepers {
				if x == "QJ" {
					return !k.Compromised
				}
			}
			return false
		}
	case 4:
		s.name, s.by = "with comment", func(k kit.KeySnap) bool { return k.Comment != "" }
	default:
		for _, id := range ids {
			if rapid.Bool().Draw(t, "pick") {
				s.ids[id] = true
			}
		}
		s.name, s.by = fmt.Sprintf("%d ids", len(s.ids)), func(k kit.KeySnap) bool { return s.ids[k.Id] }
	}
	return s
}

func (s selection) filter(k *krypto431.Key) bool { return s.by(kit.SnapKey(k)) }

func (s selection) of(ks []kit.KeySnap) (out []kit.KeySnap) {
	for _, k := range ks {
		if s.by(k) {
			out = append(out, k)
		}
	}
	return
}

func idsOf(ks []kit.KeySnap) (ids []string) {
	for _, k := range ks {
		ids = append(ids, k.Id)
	}
	return
}

// secretsSnap is the storage key and salt of an instance.
func secretsSnap(k *krypto431.Krypto431) string {
	p, s := "none", "none"
	if k.GetPFK() != nil {
		p = fmt.Sprintf("%x", *k.GetPFK())
	}
	if k.GetSalt() != nil {
		s = fmt.Sprintf("%x", *k.GetSalt())
	}
	return p + " " + s
}

// scribble writes over a slice and what lies behind it within its capacity.
func scribble(r []rune) {
	r = r[:cap(r)]
	for i := range r {
		r[i] = '#'
	}
}

// disturb does something destructive to an instance or its keys.
func disturb(t *rapid.T, k *krypto431.Krypto431) string {
	what := rapid.SampledFrom([]string{"wipe", "close", "wipe keys", "wipe a key", "scribble", "keepers", "mark", "delete", "replace", "generate", "encipher", "call-sign", "settings", "storage key", "truncate", "dates"}).Draw(t, "disturb")
	i := -1
	if len(k.Keys) > 0 {
		i = rapid.IntRange(0, len(k.Keys)-1).Draw(t, "which")
	}
	switch what {
	case "wipe":
		k.Wipe()
	case "close":
		k.Close()
	case "wipe keys":
		for i := range k.Keys {
			k.Keys[i].Wipe()
		}
	case "wipe a key":
		if i >= 0 {
			switch rapid.IntRange(0, 2).Draw(t, "variant") {
			case 0:
				k.Keys[i].Wipe()
			case 1:
				k.Keys[i].RandomWipe()
			case 2:
				k.Keys[i].ZeroWipe()
			}
		}
	case "scribble":
		for i := range k.Keys {
			x := &k.Keys[i]
			for _, r := range append([][]rune{x.Id, x.Runes, x.Comment}, x.Keepers...) {
				scribble(r)
			}
			all := x.Keepers[:cap(x.Keepers)]
			for j := range all {
				all[j] = []rune("#")
			}
		}
		scribble(k.CallSign)
		for _, m := range k.Messages {
			scribble(m.PlainText)
			scribble(m.CipherText)
			scribble(m.KeyId)
		}
	case "keepers":
		if i >= 0 {
			k.Keys[i].AddKeeper([]rune("NEW1"))
			k.Keys[i].AddKeeper([]rune("NEW2"))
			if len(k.Keys[i].Keepers) > 0 {
				k.Keys[i].RemoveKeeper([]rune(string(k.Keys[i].Keepers[0])))
			}
		}
	case "mark":
		for i := range k.Keys {
			k.Keys[i].Used = !k.Keys[i].Used
			k.Keys[i].Compromised = !k.Keys[i].Compromised
		}
	case "delete":
		if i >= 0 {
			k.DeleteKey(k.Keys[i].Id)
		}
	case "replace":
		if i >= 0 {
			k.Keys[i] = krypto431.Key{Id: []rune("OTHER")}
		}
	case "generate":
		k.KeyLength, k.GroupSize = 25, 5
		k.GenerateKeys(2, nil, "QJ")
	case "encipher":
		for i := range k.Keys {
			k.Keys[i].Keepers = nil
		}
		kit.Msg(k, "HELLO").Encipher()
	case "call-sign":
		k.SetCallSign("ZZ9PLURAL")
	case "settings":
		k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = 9, 99, 199, 29
	case "storage key":
		if k.GetPFK() != nil {
			krypto431.WipeBytes(k.GetPFK())
		}
		if k.GetSalt() != nil {
			krypto431.WipeBytes(k.GetSalt())
		}
	case "truncate":
		k.Keys = append(k.Keys[:0], krypto431.Key{Id: []rune("FIRST")})
	case "dates":
		for i := range k.Keys {
			k.Keys[i].Expires.Time = k.Keys[i].Expires.Time.AddDate(1, 0, 0)
		}
	}
	return what
}

func TestC17(t *testing.T) {
	kit.Rule("stores of generated content (rich keys, messages, settings, storage key and salt or none, call-sign or none) exported under generated selections and options; the export compared with the model (selected keys in order and complete, no messages, settings, key, salt), saved and opened in a fresh instance; then up to six destructive operations (wipes, closing, overwriting the memory of either up to its capacity, deleting, marking, enciphering, changing storage key) on either side, the other compared with its snapshot after each; non-trivial = at least one but not all keys selected, or a disturbance of a side while the other held keys")
	kit.Check(t, "export", 18000, 200000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c17")
		defer done()
		call := rapid.SampledFrom([]string{"SA6MWA", "", "ÅÄ", "QJ"}).Draw(t, "call")
		file := filepath.Join(dir, "own")
		opts := []krypto431.Option{krypto431.WithPersistence(file)}
		pfk := rapid.SampledFrom([]string{thePFK, thePFK, otherPFK, ""}).Draw(t, "pfk")
		if pfk != "" {
			opts = append(opts, krypto431.WithPFKString(pfk))
		}
		k := kit.Station(kit.Geometry{G: 5, K: 25}, call, opts...)
		salted := rapid.Bool().Draw(t, "salted")
		if salted {
			must(t, k.SetSaltFromString(krypto431.GenerateSalt()), "SetSaltFromString")
		}
		settings(t, k, "settings")
		richStore(t, k, 7, 2)
		saved := pfk != "" && rapid.Bool().Draw(t, "saved")
		if saved {
			must(t, k.Save(), "saving")
			must(t, k.Load(), "loading")
		}
		before, secret := kit.SnapStore(k), secretsSnap(k)
		onDisk, _ := readFile(file)
		sel := drawSelection(t, idsOf(before.Keys))
		what := fmt.Sprintf("exporting %s of %d keys", sel.name, len(before.Keys))

		var n krypto431.Krypto431
		exp := filepath.Join(dir, rapid.SampledFrom([]string{"export", "åäö b"}).Draw(t, "exportName"))
		late := rapid.Bool().Draw(t, "late")
		want := kit.Snap{Keys: sel.of(before.Keys), CallSign: before.CallSign, GroupSize: before.GroupSize, KeyLength: before.KeyLength, Columns: before.Columns, KeyColumns: before.KeyColumns}
		var more []krypto431.Option
		if !late {
			more = append(more, krypto431.WithPersistence(exp))
		}
		if rapid.IntRange(0, 5).Draw(t, "override") == 0 {
			more = append(more, krypto431.WithCallSign("SK3XX"))
			want.CallSign = "SK3XX"
		}
		noPanic(t, what, func() { n = k.ExportKeys(sel.filter, more...) })
		if d := kit.Diff(kit.SnapStore(&n), want); d != "" {
			t.Fatalf("%s gives: %s", what, d)
		}
		if s := secretsSnap(&n); s != secret {
			t.Fatalf("%s has storage key and salt %s, the store has %s", what, s, secret)
		}
		unchanged := func(how string) {
			t.Helper()
			if d := kit.Diff(kit.SnapStore(k), before); d != "" || secretsSnap(k) != secret {
				t.Fatalf("%s: %s changed the original: %s %s", what, how, d, secretsSnap(k))
			}
		}
		unchanged("exporting")
		attached(t, k, what)
		for i := range n.Keys {
			if n.Keys[i].GetInstance() == k {
				t.Fatalf("%s: the exported key %d belongs to the original", what, i)
			}
		}
		if late {
			if pfk != "" && n.GetPersistence() == "" {
				if err := n.Save(); err == nil {
					t.Fatalf("%s: saved without a file name", what)
				}
			}
			n.SetPersistence(exp)
		}
		save := func(how string) {
			t.Helper()
			err := n.Save()
			if pfk == "" {
				if err == nil {
					t.Fatalf("%s: saved without storage key", what)
				}
				return
			}
			must(t, err, what+", saving "+how)
			x, err := opened(exp, pfk)
			must(t, err, what+", loading "+how)
			if d := kit.Diff(kit.SnapStore(x), want); d != "" {
				t.Fatalf("%s, loaded %s: %s", what, how, d)
			}
			attached(t, x, what)
			if now, _ := readFile(file); now != onDisk {
				t.Fatalf("%s: saving the export changed the file of the original", what)
			}
		}
		early := rapid.Bool().Draw(t, "early")
		if early {
			save("at once")
			unchanged("saving the export")
		}
		// disturb one, look at the other
		both := len(want.Keys) > 0
		for i, times := 0, rapid.IntRange(1, 6).Draw(t, "disturbances"); i < times; i++ {
			if rapid.Bool().Draw(t, "disturbOriginal") {
				how := disturb(t, k)
				what += ", " + how + " of the original"
				if d := kit.Diff(kit.SnapStore(&n), want); d != "" || secretsSnap(&n) != secret {
					t.Fatalf("%s: the export was changed: %s %s", what, d, secretsSnap(&n))
				}
				before, secret = kit.SnapStore(k), secretsSnap(k)
				if secretsSnap(&n) != secret {
					break
				}
			} else {
				if !early && i == 0 {
					save("before being changed")
				}
				how := disturb(t, &n)
				what += ", " + how + " of the export"
				unchanged(how + " of the export")
				want = kit.SnapStore(&n)
				if secretsSnap(&n) != secret {
					break
				}
			}
		}
		kit.Case(len(want.Keys) > 0 && len(want.Keys) < len(before.Keys) || both, what, sel.name, map[bool]string{true: "stored"}[saved])
	})
	kit.Check(t, "survives", 7500, 80000, func(t *rapid.T) {
		// working keys: the export remains usable however the original ends
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c17")
		defer done()
		g := kit.Geometry{G: rapid.IntRange(3, 6).Draw(t, "groupSize"), K: 60}
		k := fileStation(g, "SA6MWA", filepath.Join(dir, "own"))
		generate(t, k, rapid.IntRange(1, 5).Draw(t, "keys"), 60, "QJ")
		b := kit.Receiver(g, "QJ", k.Keys, indexes(len(k.Keys)))
		sel := drawSelection(t, idsOf(kit.SnapKeys(k)))
		n := k.ExportKeys(sel.filter, krypto431.WithPersistence(filepath.Join(dir, "export")))
		want := kit.SnapStore(&n)
		var sheets []string
		for i := range k.Keys {
			if sel.filter(&k.Keys[i]) {
				sheets = append(sheets, k.Keys[i].String())
			}
		}
		how := ""
		for i := rapid.IntRange(1, 3).Draw(t, "disturbances"); i > 0; i-- {
			how += disturb(t, k) + ", "
		}
		what := fmt.Sprintf("%s exported, then %s", sel.name, how)
		for i := range n.Keys {
			if s := n.Keys[i].String(); s != sheets[i] {
				t.Fatalf("%s: the sheet of the exported key is\n%s\ninstead of\n%s", what, s, sheets[i])
			}
		}
		must(t, n.Save(), what+", saving the export")
		x, err := opened(filepath.Join(dir, "export"), thePFK)
		must(t, err, what+", loading the export")
		if d := kit.Diff(kit.SnapStore(x), want); d != "" {
			t.Fatalf("%s: the export loads as: %s", what, d)
		}
		if len(x.Keys) > 0 {
			m, err := x.NewTextMessage("QJ DE SA6MWA = HELLO = K")
			must(t, err, what+", sending with the export")
			r, err := b.NewTextMessage(trafficOf(t, m.String()))
			must(t, err, what+", receiving")
			if string(r.PlainText) != "HELLO" {
				t.Fatalf("%s: received %q", what, string(r.PlainText))
			}
		}
		kit.Case(len(n.Keys) > 0, what, "survives "+sel.name)
	})
}

var _ = os.Remove
