package checks

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// held is memory which holds a secret, with what it held.
type held struct {
	name  string
	runes []rune
	was   string // as bytes of runes or bytes
	wasR  []rune
	bytes []byte
}

func holdRunes(name string, r []rune) held {
	return held{name: name, runes: r, wasR: append([]rune(nil), r...)}
}

func holdBytes(name string, b []byte) held { return held{name: name, bytes: b, was: string(b)} }

func holdKey(k *krypto431.Key) (hs []held) {
	id := string(k.Id)
	hs = append(hs, holdRunes("letters of key "+id, k.Runes), holdRunes("id of key "+id, k.Id), holdRunes("comment of key "+id, k.Comment))
	for i := range k.Keepers {
		hs = append(hs, holdRunes(fmt.Sprintf("keeper %d of key %s", i, id), k.Keepers[i]))
	}
	return
}

func holdMsg(m *krypto431.Message) []held {
	id := string(m.Id)
	return []held{holdRunes("plaintext of message "+id, m.PlainText), holdRunes("ciphertext of message "+id, m.CipherText),
		holdRunes("radiogram of message "+id, m.Radiogram), holdRunes("key id of message "+id, m.KeyId), holdBytes("binary of message "+id, m.Binary)}
}

// ends counts, for bytes overwritten at random, how often the first and last
// are what they were.
var ends struct{ n, first, last int }

// erased tells what remains of a secret ("" if nothing does).
func (h held) erased(zero bool) string {
	if h.bytes != nil {
		run, equal := 0, 0
		for i, b := range h.bytes {
			if zero && b != 0 {
				return fmt.Sprintf("byte %d is not zero", i)
			}
			if b == h.was[i] && h.was[i] != 0 {
				run++
				equal++
			} else {
				run = 0
			}
			if run >= 4 {
				return fmt.Sprintf("bytes %d to %d are as they were", i-3, i)
			}
		}
		if len(h.bytes) >= 16 {
			if !zero {
				ends.n++
				if h.bytes[0] == h.was[0] && h.was[0] != 0 {
					ends.first++
				}
				if h.bytes[len(h.bytes)-1] == h.was[len(h.was)-1] && h.was[len(h.was)-1] != 0 {
					ends.last++
				}
			}
			if equal > 3+len(h.bytes)/8 {
				return fmt.Sprintf("%d of %d bytes are as they were", equal, len(h.bytes))
			}
		}
		return ""
	}
	equal, at := 0, 0
	for i, r := range h.runes {
		if zero && r != 0 {
			return fmt.Sprintf("character %d of %d is not zero", i, len(h.runes))
		}
		if r == h.wasR[i] && r != 0 {
			equal++
			at = i
		}
	}
	if equal > 1 || equal == 1 && len(h.runes) < 8 {
		return fmt.Sprintf("%d of %d characters are as they were, %q at %d", equal, len(h.runes), h.wasR[at], at)
	}
	return ""
}

func allErased(t rapid.TB, hs []held, zero bool, what string) {
	t.Helper()
	for _, h := range hs {
		if s := h.erased(zero); s != "" {
			t.Fatalf("%s: the memory of the %s still holds it: %s", what, h.name, s)
		}
	}
}

func emptyKey(t rapid.TB, k *krypto431.Key, what string) {
	t.Helper()
	x := kit.SnapKey(k)
	if x.Id != "" || x.Runes != "" || x.Comment != "" || strings.Join(x.Keepers, "") != "" {
		t.Fatalf("%s: the wiped key still says %q", what, x)
	}
}

func emptyMsg(t rapid.TB, m *krypto431.Message, what string) {
	t.Helper()
	x := kit.SnapMsg(m)
	if x.PlainText != "" || x.CipherText != "" || x.KeyId != "" || x.Radiogram != "" || x.Binary != "" {
		t.Fatalf("%s: the wiped message still says %q", what, x)
	}
}

// exercise calls whatever can be called on an instance, its keys and messages,
// none of which may crash.
func exercise(t *rapid.T, k *krypto431.Krypto431, key *krypto431.Key, m *krypto431.Message, dir, what string) {
	t.Helper()
	calls := []struct {
		name string
		f    func()
	}{
		{"NewTextMessage outgoing", func() { k.NewTextMessage("QJ DE SA6MWA = HELLO = K") }},
		{"NewTextMessage to nobody", func() { k.NewTextMessage("DE SA6MWA = HELLO = K") }},
		{"NewTextMessage with key", func() { k.NewTextMessage("QJ DE SA6MWA = HELLO = K", "ABCDE") }},
		{"NewTextMessage incoming", func() { k.NewTextMessage("SA6MWA DE QJ = AAAAA BBBBB CCCCC = K") }},
		{"ParseRadiogram", func() { k.ParseRadiogram("SA6MWA DE QJ = HELLO = K") }},
		{"GenerateKeys", func() { k.GenerateKeys(1, nil, "QJ") }},
		{"SummaryOfKeys", func() { k.SummaryOfKeys(kit.All) }},
		{"SummaryOfMessages", func() { k.SummaryOfMessages(kit.AllMsgs) }},
		{"KeysAsText", func() { k.KeysAsText(kit.All) }},
		{"MessagesAsText", func() { k.MessagesAsText(kit.AllMsgs) }},
		{"KeysTextFile", func() { k.KeysTextFile(kit.All, filepath.Join(dir, "k.txt")) }},
		{"MessagesTextFile", func() { k.MessagesTextFile(kit.AllMsgs, filepath.Join(dir, "m.txt")) }},
		{"FindKey", func() { k.FindKey([]rune("QJ")); k.FindKey() }},
		{"GetKey", func() { k.GetKey([]rune("ABCDE")); k.GetKey(nil) }},
		{"MarkKeyUsed", func() { k.MarkKeyUsed(nil, true) }},
		{"ContainsKeyId", func() { var r []rune; k.ContainsKeyId(&r); k.ContainsKeyId(nil) }},
		{"ContainsMessageId", func() { var r []rune; k.ContainsMessageId(&r); k.ContainsMessageId(nil) }},
		{"DeleteKey", func() { k.DeleteKey([]rune("ABCDE")); k.DeleteKeyByString("ABCDE") }},
		{"DeleteMessage", func() { k.DeleteMessage([]rune("AbCd")); k.DeleteMessageByString("AbCd") }},
		{"ExportKeys", func() {
			n := k.ExportKeys(kit.All, krypto431.WithPersistence(filepath.Join(dir, "e")))
			n.Save()
			n.Wipe()
		}},
		{"ImportKeys", func() { k.ImportKeys(kit.All, krypto431.WithPersistence(filepath.Join(dir, "none"))) }},
		{"Assert", func() { k.Assert() }},
		{"NewUniqueMessageId", func() { k.NewUniqueMessageId() }},
		{"getters", func() { k.GetPFK(); k.GetSalt(); k.GetPFKString(); k.GetSaltString(); k.GetPersistence() }},
		{"Wipe again", func() { k.Wipe() }},
		{"Close again", func() { k.Close() }},
		{"key Groups", func() { key.Groups(); key.GroupsBlock() }},
		{"key String", func() { _ = key.String(); _ = key.GoString() }},
		{"key keepers", func() {
			key.AddKeeper([]rune("VJ")).RemoveKeeper([]rune("VJ"))
			key.ContainsKeeper([]rune("VJ"))
			key.JoinKeepers(",")
		}},
		{"key validity", func() {
			key.IsExpired()
			key.IsValidOneDay()
			key.UsedString()
			key.IdString()
			key.CommentString()
			key.KeyLength()
		}},
		{"key Wipe again", func() { key.Wipe(); key.RandomWipe(); key.ZeroWipe() }},
		{"message String", func() { _ = m.String(); _ = m.String(100); _ = m.GoString() }},
		{"message Groups", func() { m.Groups(); m.GroupsBlock() }},
		{"message Encipher", func() { m.Encipher() }},
		{"message Decipher", func() { m.Decipher() }},
		{"message TryDecipherPlainText", func() { m.TryDecipherPlainText(true); m.TryDecipherPlainText() }},
		{"message EnrichWithKey", func() { m.EnrichWithKey() }},
		{"message recipients", func() {
			m.AddRecipient([]rune("VJ")).RemoveRecipient([]rune("VJ"))
			m.JoinRecipients(",")
			m.IsMyCall()
			m.QRZ()
		}},
		{"message Wipe again", func() { m.Wipe(); m.RandomWipe(); m.ZeroWipe() }},
	}
	for i := rapid.IntRange(3, 12).Draw(t, "calls"); i > 0; i-- {
		c := calls[rapid.IntRange(0, len(calls)-1).Draw(t, "call")]
		what += ", " + c.name
		noPanic(t, what, c.f)
	}
}

// maskedWord is a word of which only a masked copy is kept, to search memory
// for it without finding the copy.
type maskedWord []byte

func mask(word string) (m maskedWord) {
	for i := 0; i < len(word); i++ {
		m = append(m, word[i]^0x5A)
	}
	return
}

var scanBuffer = make([]byte, 1<<18)

// inMemory counts the places of this process's memory where the word is stored
// as runes.
func (m maskedWord) inMemory() (n int, err error) {
	maps, err := os.Open("/proc/self/maps")
	if err != nil {
		return 0, err
	}
	defer maps.Close()
	mem, err := os.Open("/proc/self/mem")
	if err != nil {
		return 0, err
	}
	defer mem.Close()
	width := 4 * len(m)
	sc := bufio.NewScanner(maps)
	for sc.Scan() {
		var from, to uint64
		var perm string
		fmt.Sscanf(sc.Text(), "%x-%x %s", &from, &to, &perm)
		if !strings.HasPrefix(perm, "rw") {
			continue
		}
		for at := from; at < to; at += uint64(len(scanBuffer) - width) {
			want := uint64(len(scanBuffer))
			if to-at < want {
				want = to - at
			}
			got, err := mem.ReadAt(scanBuffer[:want], int64(at))
			if err != nil && got == 0 {
				break
			}
			b := scanBuffer[:got]
			for i := 0; i+width <= got; i += 4 {
				if b[i] != m[0]^0x5A {
					continue
				}
				j := 0
				for ; j < len(m); j++ {
					if b[i+4*j] != m[j]^0x5A || b[i+4*j+1] != 0 || b[i+4*j+2] != 0 || b[i+4*j+3] != 0 {
						break
					}
				}
				if j == len(m) {
					n++
				}
			}
			clear(b)
		}
	}
	return n, sc.Err()
}

func TestC20(t *testing.T) {
	kit.Rule("the memory of all secrets of generated stores (generated together, rich, loaded, imported, exported keys; messages made, received, loaded) is held, then some are wiped by every entry point (wiping in the three variants, deleting in the three ways, wiping or closing the instance), also with a failing random source; the memory held must have lost them, everything else must be as it was, and calls drawn from the whole interface must not crash on what is left; rune and byte slices of any content and position in a larger array by the package's functions; text of refused messages is searched for in the memory of the process; non-trivial = a wiped item had content while another one was present")
	kit.Check(t, "items", 20000, 150000, func(t *rapid.T) {
		stream := kit.Entropy(kit.Seed(t))
		dir, done := scratch("c20")
		defer done()
		file := filepath.Join(dir, "store")
		k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", file)
		if rapid.Bool().Draw(t, "salted") {
			must(t, k.SetSaltFromString(krypto431.GenerateSalt()), "SetSaltFromString")
		}
		richStore(t, k, 4, 3)
		origin := rapid.SampledFrom([]string{"made", "loaded", "exported", "imported", "used"}).Draw(t, "origin")
		generate(t, k, rapid.IntRange(0, 4).Draw(t, "generated"), 30, "QJ", "VJ", "ZZ9ZZ")
		var apart *krypto431.Krypto431 // another instance, not to be touched
		switch origin {
		case "loaded":
			must(t, k.Save(), "saving")
			must(t, k.Load(), "loading")
		case "exported":
			n := k.ExportKeys(kit.All)
			apart = &n
			if rapid.Bool().Draw(t, "swap") {
				k, apart = apart, k
				for i := range k.Keys {
					k.Keys[i].SetInstance(k)
				}
			}
		case "imported":
			n := fileStation(kit.Geometry{G: 5, K: 25}, "VJ", filepath.Join(dir, "other"))
			generate(t, n, 3, 30, "SA6MWA", "BA")
			must(t, n.Save(), "saving")
			_, err := k.ImportKeys(kit.All, krypto431.WithPersistence(n.GetPersistence()), krypto431.WithPFK(n.GetPFK()))
			must(t, err, "importing")
			apart = n
		case "used":
			for i := rapid.IntRange(1, 3).Draw(t, "messages"); i > 0; i-- {
				k.NewTextMessage(rapid.SampledFrom([]string{"QJ DE SA6MWA = HELLO = K", "SA6MWA DE QJ = HELLO THERE = K", "VJ QJ DE SA6MWA 012345ZJAN23 = 12345 ABC = K"}).Draw(t, "radiogram"))
			}
		}
		var apartWas kit.Snap
		apartSecret := ""
		if apart != nil {
			apartWas, apartSecret = kit.SnapStore(apart), secretsSnap(apart)
		}
		without := rapid.SampledFrom([]string{"", "", "", "", "no storage key", "no salt", "neither storage key nor salt", "no file", "no call-sign"}).Draw(t, "without")
		if strings.Contains(without, "storage key") {
			krypto431.WithPFK(nil)(k)
		}
		if strings.Contains(without, "salt") {
			krypto431.WithSalt(nil)(k)
		}
		switch without {
		case "no file":
			k.SetPersistence("")
		case "no call-sign":
			k.CallSign = nil
		}
		before, secret := kit.SnapStore(k), secretsSnap(k)
		entry := rapid.SampledFrom([]string{"key", "key", "key", "message", "message", "instance"}).Draw(t, "entry")
		variant := rapid.IntRange(0, 5).Draw(t, "variant")
		fails := rapid.IntRange(0, 4).Draw(t, "sourceFails") == 0
		what := fmt.Sprintf("%s store of %d keys and %d messages, source fails: %v%s", origin, len(k.Keys), len(k.Messages), fails, map[bool]string{true: ", " + without}[without != ""])
		var key *krypto431.Key = &krypto431.Key{}
		var msg *krypto431.Message = &krypto431.Message{}
		key.SetInstance(k)
		msg.SetInstance(k)
		full := false
		switch entry {
		case "key":
			if len(k.Keys) == 0 {
				return
			}
			i := rapid.IntRange(0, len(k.Keys)-1).Draw(t, "which")
			if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
				field := []*[]rune{&k.Keys[i].Runes, &k.Keys[i].Runes, &k.Keys[i].Comment}[rapid.IntRange(0, 2).Draw(t, "longField")]
				*field = kit.BulkLetters(t, rapid.IntRange(1000, 2000<<rapid.IntRange(0, 6).Draw(t, "longMagnitude")).Draw(t, "longSize"), "longText")
				before = kit.SnapStore(k)
			}
			hs := holdKey(&k.Keys[i])
			id := string(k.Keys[i].Id)
			line := ""
			if variant == 5 {
				_, lines := k.SummaryOfKeys(kit.All)
				line = string(lines[i])
				if len(id) > k.GroupSize {
					line = id // listings have room for ids of the group size
				}
			}
			what += ", key " + id + " by " + []string{"Wipe", "RandomWipe", "ZeroWipe", "DeleteKey", "DeleteKeyByString", "DeleteKeysBySummaryString"}[variant]
			copied := k.Keys[i] // the same memory
			stream.Fail = fails
			noPanic(t, what, func() {
				switch variant {
				case 0:
					k.Keys[i].Wipe()
				case 1:
					k.Keys[i].RandomWipe()
				case 2:
					k.Keys[i].ZeroWipe()
				case 3:
					k.DeleteKey([]rune(id))
				case 4:
					k.DeleteKeyByString(id)
				case 5:
					k.DeleteKeysBySummaryString(line)
				}
			})
			stream.Fail = false
			allErased(t, hs, variant == 2, what)
			now := kit.SnapStore(k)
			if variant < 3 {
				emptyKey(t, &k.Keys[i], what)
				now.Keys = append(append([]kit.KeySnap{}, now.Keys[:i]...), now.Keys[i+1:]...)
				key = &k.Keys[i]
			} else {
				key = &copied
			}
			rest := append(append([]kit.KeySnap{}, before.Keys[:i]...), before.Keys[i+1:]...)
			if variant >= 3 { // deleting may change the order
				was := byId(t, rest, what)
				for _, x := range now.Keys {
					w, ok := was[x.Id]
					if d := kit.Diff(x, w); d != "" || !ok {
						t.Fatalf("%s changed key %q: %s", what, x.Id, d)
					}
				}
				if len(now.Keys) != len(rest) {
					t.Fatalf("%s leaves %d keys", what, len(now.Keys))
				}
				rest = now.Keys
			}
			want := before
			want.Keys = rest
			if len(rest) == 0 {
				want.Keys, now.Keys = nil, nil
			}
			if d := kit.Diff(now, want); d != "" || secretsSnap(k) != secret {
				t.Fatalf("%s changed something else: %s", what, d)
			}
			full = len(hs[0].runes) > 0 && len(rest) > 0
		case "message":
			if len(k.Messages) == 0 {
				return
			}
			i := rapid.IntRange(0, len(k.Messages)-1).Draw(t, "which")
			id := string(k.Messages[i].Id)
			what += ", message " + id + " by " + []string{"Wipe", "RandomWipe", "ZeroWipe", "DeleteMessage", "DeleteMessageByString", "DeleteMessagesBySummaryString"}[variant]
			line := ""
			if variant == 5 {
				_, lines := k.SummaryOfMessages(kit.AllMsgs)
				line = string(lines[i])
				before = kit.SnapStore(k)
			}
			if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
				field := []*[]rune{&k.Messages[i].PlainText, &k.Messages[i].CipherText, &k.Messages[i].Radiogram}[rapid.IntRange(0, 2).Draw(t, "longField")]
				*field = kit.BulkLetters(t, rapid.IntRange(1000, 2000<<rapid.IntRange(0, 6).Draw(t, "longMagnitude")).Draw(t, "longSize"), "longText")
				before = kit.SnapStore(k)
			}
			hs := holdMsg(&k.Messages[i])
			copied := k.Messages[i]
			stream.Fail = fails
			noPanic(t, what, func() {
				switch variant {
				case 0:
					k.Messages[i].Wipe()
				case 1:
					k.Messages[i].RandomWipe()
				case 2:
					k.Messages[i].ZeroWipe()
				case 3:
					k.DeleteMessage([]rune(id))
				case 4:
					k.DeleteMessageByString(id)
				case 5:
					k.DeleteMessagesBySummaryString(line)
				}
			})
			stream.Fail = false
			allErased(t, hs, variant == 2, what)
			now := kit.SnapStore(k)
			if variant < 3 {
				emptyMsg(t, &k.Messages[i], what)
				now.Msgs = append(append([]kit.MsgSnap{}, now.Msgs[:i]...), now.Msgs[i+1:]...)
				msg = &k.Messages[i]
			} else {
				msg = &copied
			}
			rest := append(append([]kit.MsgSnap{}, before.Msgs[:i]...), before.Msgs[i+1:]...)
			if variant >= 3 {
				was := map[string]kit.MsgSnap{}
				for _, x := range rest {
					was[x.Id] = x
				}
				for _, x := range now.Msgs {
					w, ok := was[x.Id]
					if d := kit.Diff(x, w); d != "" || !ok {
						t.Fatalf("%s changed message %q: %s", what, x.Id, d)
					}
				}
				if len(now.Msgs) != len(rest) {
					t.Fatalf("%s leaves %d messages", what, len(now.Msgs))
				}
				rest = now.Msgs
			}
			want := before
			want.Msgs = rest
			if len(rest) == 0 {
				want.Msgs, now.Msgs = nil, nil
			}
			if d := kit.Diff(now, want); d != "" || secretsSnap(k) != secret {
				t.Fatalf("%s changed something else: %s", what, d)
			}
			full = len(hs[0].runes) > 0 && len(rest) > 0
		case "instance":
			var hs []held
			for i := range k.Keys {
				hs = append(hs, holdKey(&k.Keys[i])...)
			}
			for i := range k.Messages {
				hs = append(hs, holdMsg(&k.Messages[i])...)
			}
			if k.GetPFK() != nil {
				hs = append(hs, holdBytes("storage key", *k.GetPFK()))
			}
			if k.GetSalt() != nil {
				hs = append(hs, holdBytes("salt", *k.GetSalt()))
			}
			if len(k.Keys) > 0 {
				key = &k.Keys[0]
			}
			if len(k.Messages) > 0 {
				msg = &k.Messages[0]
			}
			content, exists := readFile(file)
			stream.Fail = fails
			if variant%2 == 0 {
				what += ", Wipe"
				noPanic(t, what, k.Wipe)
			} else {
				what += ", Close"
				noPanic(t, what, k.Close)
			}
			stream.Fail = false
			allErased(t, hs, false, what)
			if len(k.Keys) != 0 || len(k.Messages) != 0 || k.GetPFKString() != "" {
				t.Fatalf("%s: %d keys and %d messages remain, storage key %q", what, len(k.Keys), len(k.Messages), k.GetPFKString())
			}
			full = len(k.Keys)+len(hs) > 0
			k.SetInteractive(false)
			noPanic(t, what+", Save", func() {
				if err := k.Save(); err == nil {
					t.Fatalf("%s: a wiped instance can be saved", what)
				}
			})
			noPanic(t, what+", Load", func() {
				if err := k.Load(); err == nil {
					t.Fatalf("%s: a wiped instance loads without key", what)
				}
			})
			if now, is := readFile(file); now != content || is != exists {
				t.Fatalf("%s: saving the wiped instance changed the file", what)
			}
		}
		if apart != nil {
			if d := kit.Diff(kit.SnapStore(apart), apartWas); d != "" || secretsSnap(apart) != apartSecret {
				t.Fatalf("%s changed another instance: %s", what, d)
			}
		}
		others := kit.SnapMsgs(k)
		exercise(t, k, key, msg, dir, what)
		_ = others
		kit.Case(full, what, entry, "origin "+origin, map[bool]string{true: "failing source"}[fails])
	})
	kit.Check(t, "slices", 24000, 200000, func(t *rapid.T) {
		stream := kit.Entropy(kit.Seed(t))
		fails := rapid.IntRange(0, 3).Draw(t, "sourceFails") == 0
		n := rapid.IntRange(0, 60).Draw(t, "n")
		from := rapid.IntRange(0, n).Draw(t, "from")
		to := rapid.IntRange(from, n).Draw(t, "to")
		variant := rapid.IntRange(0, 5).Draw(t, "variant")
		what := fmt.Sprintf("%s of [%d:%d] of %d, source fails: %v", []string{"Wipe", "RandomWipe", "ZeroWipe", "WipeBytes", "RandomWipeBytes", "ZeroWipeBytes"}[variant], from, to, n, fails)
		stream.Fail = fails
		var err error
		if variant < 3 {
			all := rapid.SliceOfN(rapid.Int32Range(1, 0x10FFFF), n, n).Draw(t, "runes")
			was := append([]rune(nil), all...)
			s := all[from:to]
			h := holdRunes("slice", s)
			switch variant {
			case 0:
				err = krypto431.Wipe(&s)
			case 1:
				err = krypto431.RandomWipe(&s)
			case 2:
				err = krypto431.ZeroWipe(&s)
			}
			allErased(t, []held{h}, variant == 2, what)
			if string(all[:from]) != string(was[:from]) || string(all[to:]) != string(was[to:]) {
				t.Fatalf("%s changed its neighbours: %q instead of %q", what, all, was)
			}
			if len(s) != 0 {
				t.Fatalf("%s leaves %q", what, s)
			}
		} else {
			all := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes")
			was := string(all)
			s := all[from:to]
			h := holdBytes("slice", s)
			switch variant {
			case 3:
				err = krypto431.WipeBytes(&s)
			case 4:
				err = krypto431.RandomWipeBytes(&s)
			case 5:
				err = krypto431.ZeroWipeBytes(&s)
			}
			allErased(t, []held{h}, variant == 5, what)
			if string(all[:from]) != was[:from] || string(all[to:]) != was[to:] {
				t.Fatalf("%s changed its neighbours", what)
			}
			if len(s) != 0 {
				t.Fatalf("%s leaves %q", what, s)
			}
		}
		if !fails {
			must(t, err, what)
		}
		kit.Case(from > 0 && to < n && to > from, fmt.Sprintf("%s %d", what, kit.Seed(t)), fmt.Sprintf("slice variant %d", variant))
	})
	kit.Enum(t, "nil", func(t *testing.T, fail func(string, ...any)) {
		for i, f := range []func(*[]rune) error{krypto431.Wipe, krypto431.RandomWipe, krypto431.ZeroWipe} {
			if f(nil) == nil {
				fail("rune wipe %d of nothing gives no error", i)
			}
		}
		for i, f := range []func(*[]byte) error{krypto431.WipeBytes, krypto431.RandomWipeBytes, krypto431.ZeroWipeBytes} {
			if f(nil) == nil {
				fail("byte wipe %d of nothing gives no error", i)
			}
		}
		kit.Case(true, "nil slices", "nil")
	})
	kit.Check(t, "refused", 960, 5000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		k := kit.Station(kit.Geometry{G: 5, K: 40}, "SA6MWA")
		word := kit.Letters(t, 12, "word")
		how := rapid.SampledFrom([]string{"no key", "unsupported character", "unsupported character at the end", "out of keys", "no such key", "used key", "short key id", "none of it"}).Draw(t, "how")
		body := word
		args := []string{}
		keys := 2
		switch how {
		case "no key":
			keys = 0
		case "unsupported character":
			body = "%" + word
		case "unsupported character at the end":
			body = word + strings.Repeat("X", rapid.IntRange(0, 60).Draw(t, "more")) + " %."
			keys = 4
		case "out of keys":
			body = word + strings.Repeat("X", rapid.IntRange(30, 200).Draw(t, "more"))
			keys = 1
		case "no such key":
			args = append(args, "ZZZZZ")
		case "short key id":
			args = append(args, "ZZ")
		}
		generate(t, k, keys, 40, "QJ")
		if how == "used key" {
			k.Keys[1].Used = true
			args = append(args, string(k.Keys[1].Id))
		}
		generate(t, k, rapid.IntRange(0, 6).Draw(t, "otherKeys"), 40, "XX")
		for i := rapid.SampledFrom([]int{0, 0, 1, 3, 12, 40}).Draw(t, "otherMessages"); i > 0; i-- {
			o := kit.Msg(k, "ANOTHER TEXT", "QJ")
			o.Id = krypto431.RandomAlnumRunes(4)
			k.Messages = append(k.Messages, *o)
		}
		s := "QJ DE SA6MWA = " + body + " = K"
		m := mask(word)
		word = ""
		_, err := k.NewTextMessage(append([]string{s}, args...)...)
		if err == nil && how != "none of it" {
			kit.Case(false, "accepted "+s, "accepted")
			return
		}
		n, serr := m.inMemory()
		if serr != nil {
			kit.Case(false, "memory can not be read", "memory can not be read")
			return
		}
		if how == "none of it" {
			// the search works: the accepted message is found
			if n == 0 {
				panic("HARNESS ERROR: the text of an accepted message is not found in memory")
			}
			kit.Case(false, s, "accepted message found")
			return
		}
		if n > 0 {
			t.Fatalf("%q was refused (%v), but its text is still in memory in %d places", s, err, n)
		}
		kit.Case(true, s, "refused: "+how)
	})
	if ends.n > 200 && (ends.first > ends.n/12+5 || ends.last > ends.n/12+5) {
		t.Errorf("of %d byte slices wiped at random, the first byte was as before in %d, the last in %d", ends.n, ends.first, ends.last)
	}
}
