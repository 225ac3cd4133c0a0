package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// keepersAsSet gives a key with its keepers sorted, each once.
func keepersAsSet(k kit.KeySnap) kit.KeySnap {
	k.Keepers = setOf(k.Keepers)
	return k
}

// byId gives the keys by id and fails if an id is there twice.
func byId(t rapid.TB, ks []kit.KeySnap, what string) map[string]kit.KeySnap {
	t.Helper()
	m := map[string]kit.KeySnap{}
	for _, k := range ks {
		if _, ok := m[k.Id]; ok {
			t.Fatalf("%s: key id %s is in the store twice", what, k.Id)
		}
		m[k.Id] = k
	}
	return m
}

// importedKey is what a key becomes by importing.
func importedKey(k kit.KeySnap, own, exporter string) kit.KeySnap {
	var keepers []string
	for _, x := range k.Keepers {
		if x != own {
			keepers = append(keepers, x)
		}
	}
	if exporter != "" {
		keepers = append(keepers, exporter)
	}
	k.Keepers = keepers
	return keepersAsSet(k)
}

// count tells how often x is in list.
func count(list []string, x string) (n int) {
	for _, y := range list {
		if x == y {
			n++
		}
	}
	return
}

// terminalImport is an import in a process which has a terminal.
type terminalImport struct {
	Mine, Theirs                                   string
	Interactive, TheirInteractive, Over, TheirOver bool
}

const c18env = "VERIF_C18_CHILD"

func init() {
	s := os.Getenv(c18env)
	if s == "" {
		return
	}
	var w terminalImport
	if json.Unmarshal([]byte(s), &w) != nil {
		os.Exit(9)
	}
	k := krypto431.New(krypto431.WithPersistence(w.Mine), krypto431.WithPFKString(thePFK), krypto431.WithInteractive(w.Interactive), krypto431.WithOverwriteExistingKeysOnImport(w.Over))
	if k.Load() != nil {
		os.Exit(8)
	}
	n, err := k.ImportKeys(kit.All, krypto431.WithPersistence(w.Theirs), krypto431.WithPFKString(thePFK), krypto431.WithInteractive(w.TheirInteractive), krypto431.WithOverwriteExistingKeysOnImport(w.TheirOver))
	fmt.Printf("IMPORTED %d %v.\n", n, err)
	if k.Save() != nil {
		os.Exit(7)
	}
	os.Exit(0)
}

func TestC18(t *testing.T) {
	kit.Rule("two stores of generated content whose key ids overlap or not, with group sizes equal or not, the other saved with its own storage key or the importer's; importing under generated selections, with and without overwriting, with options as documented, also twice in a row and from missing, damaged, foreign or empty files and the importer's own file, and on a terminal with every question answered; result compared with a model over sets; non-trivial = some but not all keys of the other file are added, or an existing key is replaced, or the file cannot be loaded while the importer holds keys")
	kit.Check(t, "import", 12000, 200000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c18")
		defer done()
		calls := rapid.Permutation([]string{"SA6MWA", "QJ", "VJ", "BA", "ÅÄ"}).Draw(t, "calls")
		own, exporter := calls[0], calls[1]
		if rapid.IntRange(0, 9).Draw(t, "anonymous") == 0 {
			own = ""
		}
		if rapid.IntRange(0, 5).Draw(t, "anonymousExporter") == 0 {
			exporter = ""
		}
		gs := rapid.IntRange(3, 5).Draw(t, "groupSize")
		// the other file
		other := filepath.Join(dir, "other")
		theirPFK := rapid.SampledFrom([]string{thePFK, otherPFK}).Draw(t, "theirPFK")
		o := kit.Station(kit.Geometry{G: rapid.SampledFrom([]int{gs, gs, 5, 3}).Draw(t, "theirGroupSize"), K: 25}, exporter, krypto431.WithPersistence(other), krypto431.WithPFKString(theirPFK))
		richStore(t, o, 7, 2)
		// the importing store
		mine := filepath.Join(dir, "mine")
		k := kit.Station(kit.Geometry{G: gs, K: 25}, own, krypto431.WithPersistence(mine), krypto431.WithPFKString(thePFK))
		if rapid.Bool().Draw(t, "salted") {
			must(t, k.SetSaltFromString(krypto431.GenerateSalt()), "SetSaltFromString")
		}
		richStore(t, k, 7, 2)
		off := rapid.IntRange(0, 3).Draw(t, "offset")
		for i := range k.Keys { // partly the same ids
			k.Keys[i].Id = []rune(uniqueId(i+off, len(k.Keys[i].Id)))
		}
		upper := func(ks []krypto431.Key) {
			for i := range ks {
				for j, x := range ks[i].Keepers {
					ks[i].Keepers[j] = []rune(strings.ToUpper(string(x)))
				}
			}
		}
		upper(k.Keys)
		upper(o.Keys)
		stored := rapid.Bool().Draw(t, "stored")
		if stored {
			must(t, k.Save(), "saving")
			must(t, k.Load(), "loading")
		}
		must(t, o.Save(), "saving")
		theirs := kit.SnapStore(o)
		before, secret := kit.SnapStore(k), secretsSnap(k)
		onDisk, _ := readFile(mine)
		// the way of asking
		overwrite := false
		var opts []krypto431.Option
		switch rapid.IntRange(0, 3).Draw(t, "overwrite") {
		case 0:
			overwrite = true
			k.SetOverwriteExistingKeysOnImport(true)
		case 1:
			overwrite = true
			opts = append(opts, krypto431.WithOverwriteExistingKeysOnImport(true))
		}
		from := other
		damage := rapid.SampledFrom([]string{"", "", "", "", "", "", "missing", "cut", "altered", "wrong key", "no key", "empty", "directory", "own"}).Draw(t, "damage")
		if damage == "own" && !stored {
			damage = ""
		}
		content, _ := readFile(other)
		loads := true
		key := theirPFK
		switch damage {
		case "missing":
			from, loads = filepath.Join(dir, "none"), false
		case "cut":
			n := rapid.IntRange(0, len(content)-1).Draw(t, "cut")
			must(t, os.WriteFile(other, []byte(content[:n]), 0o600), "harness")
			loads = false
		case "altered":
			b := []byte(content)
			b[rapid.IntRange(4, len(b)-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			must(t, os.WriteFile(other, b, 0o600), "harness")
			loads = false
		case "wrong key":
			loads = false
			key = strings.Repeat("a5", 32)
		case "no key":
			loads = false
			key = ""
		case "empty":
			must(t, os.WriteFile(other, nil, 0o600), "harness")
			loads = false
		case "directory":
			from, loads = dir, false
		case "own":
			from, key = mine, thePFK
			theirs = before
			exporter = own
		}
		opts = append(opts, krypto431.WithPersistence(from))
		if key == thePFK && rapid.Bool().Draw(t, "ownPFK") {
			opts = append(opts, krypto431.WithPFK(k.GetPFK()))
			if k.GetSalt() != nil && rapid.Bool().Draw(t, "ownSalt") {
				opts = append(opts, krypto431.WithSalt(k.GetSalt()))
			}
		} else if key != "" {
			opts = append(opts, krypto431.WithPFKString(key))
		}
		sel := drawSelection(t, idsOf(theirs.Keys))
		what := fmt.Sprintf("%s (group size %d, keys %v) imports %s of %v from %q's file (%s), overwriting: %v", own, gs, idsOf(before.Keys), sel.name, idsOf(theirs.Keys), exporter, damage, overwrite)

		// what it should be
		want := byId(t, before.Keys, "harness")
		for id, x := range want {
			want[id] = x
		}
		added, replaced := 0, 0
		touched := map[string]bool{}
		wasKeeper := map[string]int{}
		if loads {
			for _, x := range sel.of(theirs.Keys) {
				if len([]rune(x.Id)) != gs {
					continue
				}
				if _, ok := want[x.Id]; ok {
					if !overwrite {
						continue
					}
					replaced++
				}
				want[x.Id] = importedKey(x, own, exporter)
				wasKeeper[x.Id] = count(x.Keepers, exporter)
				if own == exporter {
					wasKeeper[x.Id] = 1
				}
				touched[x.Id] = true
				added++
			}
		}
		times := 1
		if rapid.IntRange(0, 5).Draw(t, "again") == 0 {
			times = 2
		}
		dropped := times == 2 && overwrite && !k.IsOverwriteExistingKeysOnImport()
		for i := 0; i < times; i++ {
			if i == 1 && dropped {
				// overwriting was only asked for the first time
				opts = append(opts, krypto431.WithOverwriteExistingKeysOnImport(false))
				if rapid.Bool().Draw(t, "markedSince") {
					for j := range k.Keys {
						id := string(k.Keys[j].Id)
						k.Keys[j].Used = !k.Keys[j].Used
						x := want[id]
						x.Used = !x.Used
						want[id] = x
					}
				}
			}
			var n int
			var err error
			noPanic(t, what, func() { n, err = k.ImportKeys(sel.filter, opts...) })
			if (err == nil) != loads {
				t.Fatalf("%s: error %v", what, err)
			}
			if i == 1 && (!overwrite || dropped) {
				added = 0
			}
			if n != added {
				t.Fatalf("%s: says %d keys were imported, not %d", what, n, added)
			}
			got := byId(t, kit.SnapKeys(k), what)
			for id, x := range got {
				w, ok := want[id]
				if !ok {
					t.Fatalf("%s: key %s should not be there", what, id)
				}
				if touched[id] { // order of keepers is free in imported keys
					if n := count(x.Keepers, exporter); exporter != "" && n != max(1, wasKeeper[id]) {
						t.Fatalf("%s: the exporter is %d times a keeper of key %s, was %d times", what, n, id, wasKeeper[id])
					}
					dup := len(x.Keepers) != len(setOf(x.Keepers))
					x, w = keepersAsSet(x), keepersAsSet(w)
					if own == exporter || dup {
						x.Keepers, w.Keepers = setOf(without(x.Keepers, own)), setOf(without(w.Keepers, own))
					}
				}
				if d := kit.Diff(x, w); d != "" {
					t.Fatalf("%s: key %s: %s", what, id, d)
				}
				delete(got, id)
			}
			if len(want) != len(k.Keys) {
				var ids []string
				for id := range want {
					ids = append(ids, id)
				}
				sort.Strings(ids)
				t.Fatalf("%s: the keys are %v instead of %v", what, idsOf(kit.SnapKeys(k)), ids)
			}
			now := kit.SnapStore(k)
			now.Keys = before.Keys
			if d := kit.Diff(now, before); d != "" || secretsSnap(k) != secret || k.GetPersistence() != mine {
				t.Fatalf("%s: something else was changed: %s; storage key and salt %s instead of %s, file %s", what, d, secretsSnap(k), secret, k.GetPersistence())
			}
			if !loads || added == 0 {
				if d := kit.Diff(kit.SnapKeys(k), before.Keys); d != "" && i == 0 {
					t.Fatalf("%s: keys were changed: %s", what, d)
				}
			}
		}
		attached(t, k, what)
		if now, _ := readFile(mine); now != onDisk {
			t.Fatalf("%s: changed the importer's file", what)
		}
		if damage == "" {
			if now, _ := readFile(other); now != content {
				t.Fatalf("%s: changed the other file", what)
			}
		}
		// independence: of each other key and of what was passed
		if len(k.Keys) > 1 {
			i := rapid.IntRange(0, len(k.Keys)-1).Draw(t, "scribbled")
			rest := kit.SnapKeys(k)
			x := &k.Keys[i]
			for _, r := range append([][]rune{x.Id, x.Runes, x.Comment}, x.Keepers...) {
				scribble(r)
			}
			keepers := x.Keepers[:cap(x.Keepers)]
			for j := range keepers {
				keepers[j] = []rune("#")
			}
			for j, y := range kit.SnapKeys(k) {
				if j != i {
					if d := kit.Diff(y, rest[j]); d != "" {
						t.Fatalf("%s: changing key %s changed key %s: %s", what, rest[i].Id, rest[j].Id, d)
					}
				}
			}
			if string(k.CallSign) != own {
				t.Fatalf("%s: changing a key changed the call-sign", what)
			}
		}
		// the importer can go on
		must(t, k.Save(), what+", saving")
		x, err := opened(mine, thePFK)
		must(t, err, what+", loading")
		if d := kit.Diff(kit.SnapStore(x), kit.SnapStore(k)); d != "" {
			t.Fatalf("%s, saved and loaded: %s", what, d)
		}
		kit.Case(added > 0 && added < len(theirs.Keys) || replaced > 0 || !loads && len(before.Keys) > 0, what, "file "+damage, sel.name, map[bool]string{true: "replacing"}[replaced > 0], map[bool]string{true: "skipping"}[loads && added < len(sel.of(theirs.Keys))])
	})
	self, err := os.Executable()
	must(t, err, "Executable")
	kit.Check(t, "terminal", 400, 6000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c18")
		defer done()
		g := kit.Geometry{G: rapid.IntRange(3, 6).Draw(t, "groupSize"), K: 30}
		w := terminalImport{Mine: filepath.Join(dir, "mine"), Theirs: filepath.Join(dir, "theirs"), Interactive: rapid.Bool().Draw(t, "interactive"), TheirInteractive: rapid.Bool().Draw(t, "theirInteractive"),
			Over: rapid.IntRange(0, 3).Draw(t, "over") == 0, TheirOver: rapid.IntRange(0, 3).Draw(t, "theirOver") == 0}
		a, b := fileStation(g, "SA6MWA", w.Mine), fileStation(g, "QJ", w.Theirs)
		generate(t, a, rapid.IntRange(0, 4).Draw(t, "keys"), 30, "QJ", "VJ")
		generate(t, b, rapid.IntRange(1, 4).Draw(t, "theirKeys"), 30, "VJ")
		for i := range b.Keys {
			if i < len(a.Keys) && rapid.Bool().Draw(t, "same") {
				b.Keys[i].Id = append([]rune{}, a.Keys[i].Id...)
			}
		}
		must(t, a.Save(), "saving")
		must(t, b.Save(), "saving")
		want := byId(t, kit.SnapKeys(a), "harness")
		theirs := byId(t, kit.SnapKeys(b), "harness")
		if len(theirs) != len(b.Keys) {
			panic("HARNESS ERROR: same ids")
		}
		var ds []kit.Dialog
		added, same := 0, 0
		var answers []string
		for _, x := range kit.SnapKeys(b) {
			if _, ok := want[x.Id]; ok {
				same++
				if !w.Over && !w.TheirOver {
					if !w.Interactive {
						continue
					}
					answer := rapid.SampledFrom([]string{"y", "n", ""}).Draw(t, "answer")
					answers = append(answers, answer)
					ds = append(ds, kit.Dialog{Ask: "Key ID " + x.Id + " already exist", Answer: answer + "\r", Queries: 2})
					if answer != "y" {
						continue
					}
				}
			}
			want[x.Id] = importedKey(x, "SA6MWA", "QJ")
			added++
		}
		js, _ := json.Marshal(w)
		x, err := kit.Talk([]string{self}, append(cliEnv(dir), c18env+"="+string(js)), dir, ds, nil, 40*time.Second)
		if err != nil {
			panic("HARNESS ERROR: " + err.Error())
		}
		what := fmt.Sprintf("importing %v into %v on a terminal (%+v, answers %q)", idsOf(kit.SnapKeys(b)), idsOf(kit.SnapKeys(a)), w, answers)
		if x.TimedOut || x.Answered != len(ds) {
			t.Fatalf("%s: asked %d of %d questions, goes on: %v: %q", what, x.Answered, len(ds), !x.TimedOut, x.Screen)
		}
		if x.Exit != 0 || !strings.Contains(x.Screen, fmt.Sprintf("IMPORTED %d <nil>.", added)) {
			t.Fatalf("%s: %d instead of 0, imports not %d keys without an error: %q", what, x.Exit, added, x.Screen)
		}
		after, err := opened(w.Mine, thePFK)
		must(t, err, what)
		got := byId(t, kit.SnapKeys(after), what)
		for id, k := range got {
			got[id] = keepersAsSet(k)
		}
		for id, k := range want {
			want[id] = keepersAsSet(k)
		}
		if d := kit.Diff(sortMap(got), sortMap(want)); d != "" {
			t.Fatalf("%s: %s", what, d)
		}
		kit.Case(same > 0 && len(b.Keys) > 1, what, "on a terminal", map[bool]string{true: "asked"}[len(ds) > 0], map[bool]string{true: "replacing unasked"}[same > 0 && (w.Over || w.TheirOver)])
	})
	kit.Check(t, "between", 3000, 50000, func(t *rapid.T) {
		// two stations exchange keys by export and import and use them
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c18")
		defer done()
		g := kit.Geometry{G: rapid.IntRange(3, 6).Draw(t, "groupSize"), K: 60}
		a := fileStation(g, "SA6MWA", filepath.Join(dir, "a"))
		b := fileStation(g, "QJ", filepath.Join(dir, "b"))
		generate(t, a, rapid.IntRange(2, 6).Draw(t, "keys"), 60, "QJ", "VJ")
		generate(t, b, rapid.IntRange(0, 3).Draw(t, "ownKeys"), 60, "VJ")
		if rapid.Bool().Draw(t, "used") {
			_, err := a.NewTextMessage("QJ DE SA6MWA = FIRST = K")
			must(t, err, "sending")
		}
		exp := a.ExportKeys(kit.All, krypto431.WithPersistence(filepath.Join(dir, "export")))
		must(t, exp.Save(), "saving the export")
		n, err := b.ImportKeys(kit.All, krypto431.WithPersistence(filepath.Join(dir, "export")), krypto431.WithPFKString(thePFK))
		must(t, err, "importing")
		if n != len(a.Keys) {
			t.Fatalf("%d of %d keys imported", n, len(a.Keys))
		}
		send, recv, to, de := a, b, "QJ", "SA6MWA"
		if rapid.Bool().Draw(t, "back") {
			send, recv, to, de = b, a, "SA6MWA", "QJ"
		}
		text := bodyText(t, 30, "text")
		m, err := send.NewTextMessage(to + " DE " + de + " = " + text + " = K")
		if err != nil {
			kit.Case(false, "not sent: "+err.Error(), "not sent")
			return
		}
		r, err := recv.NewTextMessage(trafficOf(t, m.String()))
		must(t, err, "receiving")
		if string(r.PlainText) != text {
			t.Fatalf("%q from %s arrived as %q at %s", text, de, string(r.PlainText), to)
		}
		kit.Case(true, fmt.Sprintf("%q from %s to %s", text, de, to), "exchanged keys")
	})
}
