package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// c19 is a store and what it should hold.
type c19 struct {
	k     *krypto431.Krypto431
	file  string
	keys  map[string]kit.KeySnap
	msgs  map[string]kit.MsgSnap
	lines map[string]string // listing lines of keys, some stale
	mline map[string]string // the same of messages
	gone  []string          // ids deleted before
	log   []string
	seed  uint64
}

func (s *c19) compare(t rapid.TB, after string) {
	t.Helper()
	history := strings.Join(s.log, "; ")
	keys := byId(t, kit.SnapKeys(s.k), history)
	for id, x := range keys {
		w, ok := s.keys[id]
		if !ok {
			t.Fatalf("%s: unexpected key %s", history, id)
		}
		if d := kit.Diff(x, w); d != "" {
			t.Fatalf("%s: key %s: %s", history, id, d)
		}
	}
	for id := range s.keys {
		if _, ok := keys[id]; !ok {
			t.Fatalf("%s: key %s is gone", history, id)
		}
	}
	msgs := map[string]bool{}
	for _, x := range kit.SnapMsgs(s.k) {
		w, ok := s.msgs[x.Id]
		if !ok || msgs[x.Id] {
			t.Fatalf("%s: unexpected message %s", history, x.Id)
		}
		msgs[x.Id] = true
		if d := kit.Diff(x, w); d != "" {
			t.Fatalf("%s: message %s: %s", history, x.Id, d)
		}
	}
	for id := range s.msgs {
		if !msgs[id] {
			t.Fatalf("%s: message %s is gone", history, id)
		}
	}
	attached(t, s.k, history)
}

func sortedKeys[V any](m map[string]V) []string {
	var ids []string
	for id := range m {
		ids = append(ids, id)
	}
	return setOf(ids)
}

// pick draws ids, of those present, of those deleted, and others resembling.
func (s *c19) pick(t *rapid.T, present []string) (ids []string) {
	most := 4
	if rapid.IntRange(0, 9).Draw(t, "manyIds") == 9 {
		most = 60
	}
	for i, n := 0, rapid.IntRange(0, most).Draw(t, "ids"); i < n; i++ {
		id := ""
		switch rapid.IntRange(0, 7).Draw(t, "id") {
		case 0:
			id = kit.Letters(t, rapid.IntRange(2, 6).Draw(t, "absentLen"), "absent")
		case 1:
			if len(s.gone) > 0 {
				id = rapid.SampledFrom(s.gone).Draw(t, "gone")
			}
		case 2:
			if len(present) > 0 { // a part or an extension of one
				id = rapid.SampledFrom(present).Draw(t, "resembled")
				if rapid.Bool().Draw(t, "shorter") {
					id = id[:len(id)-1]
				} else {
					id += "A"
				}
			}
		default:
			if len(present) > 0 {
				id = rapid.SampledFrom(present).Draw(t, "present")
			}
		}
		if id != "" {
			ids = append(ids, id)
		}
	}
	return
}

// args spells ids as arguments.
func spelled(t *rapid.T, ids []string, fold bool) (args []string) {
	for len(ids) > 0 {
		n := rapid.IntRange(1, len(ids)).Draw(t, "inOne")
		if fold {
			args = append(args, kit.Mess(t, ids[:n], "list"))
		} else {
			args = append(args, rapid.SampledFrom([]string{"", " ", ","}).Draw(t, "lead")+strings.Join(ids[:n], rapid.SampledFrom([]string{",", " ", ", ", " ,  "}).Draw(t, "separator"))+rapid.SampledFrom([]string{"", " ", ","}).Draw(t, "trail"))
		}
		ids = ids[n:]
	}
	return
}

func (s *c19) deleteKeys(t *rapid.T) {
	ids := s.pick(t, sortedKeys(s.keys))
	var n int
	var err error
	how := ""
	switch rapid.IntRange(0, 2).Draw(t, "how") {
	case 0:
		var rs [][]rune
		for _, id := range ids {
			rs = append(rs, []rune(kit.MixCase(t, id, "spelling")))
		}
		how = fmt.Sprintf("DeleteKey(%s)", kit.Strs(rs))
		s.log = append(s.log, how)
		noPanic(t, strings.Join(s.log, "; "), func() { n, err = s.k.DeleteKey(rs...) })
	case 1:
		args := spelled(t, ids, true)
		how = fmt.Sprintf("DeleteKeyByString(%q)", args)
		s.log = append(s.log, how)
		noPanic(t, strings.Join(s.log, "; "), func() { n, err = s.k.DeleteKeyByString(args...) })
	case 2:
		_, lines := s.k.SummaryOfKeys(kit.All)
		for _, l := range lines {
			id, _, _ := strings.Cut(string(l), " ")
			s.lines[id] = string(l)
		}
		var args, known []string
		for _, id := range ids {
			if l, ok := s.lines[id]; ok {
				args, known = append(args, l), append(known, id)
			}
		}
		ids = known
		how = fmt.Sprintf("DeleteKeysBySummaryString(%q)", args)
		s.log = append(s.log, how)
		noPanic(t, strings.Join(s.log, "; "), func() { n, err = s.k.DeleteKeysBySummaryString(args...) })
	}
	must(t, err, strings.Join(s.log, "; "))
	want := 0
	for _, id := range ids {
		if _, ok := s.keys[id]; ok {
			delete(s.keys, id)
			s.gone = append(s.gone, id)
			want++
		}
	}
	if n != want {
		t.Fatalf("%s: reports %d deleted keys, not %d", strings.Join(s.log, "; "), n, want)
	}
	s.compare(t, how)
}

func (s *c19) deleteMessages(t *rapid.T) {
	present := sortedKeys(s.msgs)
	ids := s.pick(t, present)
	for i := range ids { // another case is another id
		if rapid.IntRange(0, 4).Draw(t, "otherCase") == 0 {
			ids[i] = kit.MixCase(t, strings.ToUpper(ids[i]), "messageId")
		}
	}
	var n int
	var err error
	how := ""
	switch rapid.IntRange(0, 2).Draw(t, "how") {
	case 0:
		how = fmt.Sprintf("DeleteMessage(%q)", ids)
		s.log = append(s.log, how)
		noPanic(t, strings.Join(s.log, "; "), func() { n, err = s.k.DeleteMessage(kit.Runes(ids...)...) })
	case 1:
		args := spelled(t, ids, false)
		how = fmt.Sprintf("DeleteMessageByString(%q)", args)
		s.log = append(s.log, how)
		noPanic(t, strings.Join(s.log, "; "), func() { n, err = s.k.DeleteMessageByString(args...) })
	case 2:
		_, lines := s.k.SummaryOfMessages(kit.AllMsgs)
		s.resync() // messages may have been recognised
		for _, l := range lines {
			id, _, _ := strings.Cut(string(l), " ")
			s.mline[id] = string(l)
		}
		var args, known []string
		for _, id := range ids {
			if l, ok := s.mline[id]; ok {
				args, known = append(args, l), append(known, id)
			}
		}
		ids = known
		how = fmt.Sprintf("DeleteMessagesBySummaryString(%q)", args)
		s.log = append(s.log, how)
		noPanic(t, strings.Join(s.log, "; "), func() { n, err = s.k.DeleteMessagesBySummaryString(args...) })
	}
	must(t, err, strings.Join(s.log, "; "))
	want := 0
	for _, id := range ids {
		if _, ok := s.msgs[id]; ok {
			delete(s.msgs, id)
			s.gone = append(s.gone, id)
			want++
		}
	}
	if n != want {
		t.Fatalf("%s: reports %d deleted messages, not %d", strings.Join(s.log, "; "), n, want)
	}
	s.compare(t, how)
}

// resync takes over changed contents of entries, not which there are.
func (s *c19) resync() {
	for _, x := range kit.SnapKeys(s.k) {
		if _, ok := s.keys[x.Id]; ok {
			s.keys[x.Id] = x
		}
	}
	for _, x := range kit.SnapMsgs(s.k) {
		if _, ok := s.msgs[x.Id]; ok {
			s.msgs[x.Id] = x
		}
	}
}

func (s *c19) lookUp(t *rapid.T) {
	history := strings.Join(s.log, "; ")
	ids := append(s.pick(t, sortedKeys(s.keys)), s.pick(t, sortedKeys(s.msgs))...)
	ids = append(ids, "")
	if len(s.msgs) > 0 {
		ids = append(ids, kit.MixCase(t, rapid.SampledFrom(sortedKeys(s.msgs)).Draw(t, "other"), "otherCase"))
	}
	for _, id := range ids {
		r := []rune(id)
		if id == strings.ToUpper(id) {
			w, is := s.keys[id]
			folded := []rune(kit.MixCase(t, id, "asked"))
			if got := s.k.ContainsKeyId(&folded); got != is {
				t.Fatalf("%s: ContainsKeyId(%q) says %v", history, id, got)
			}
			key, err := s.k.GetKey([]rune(kit.MixCase(t, id, "spelling")))
			if (err == nil) != is {
				t.Fatalf("%s: GetKey(%q) gives %v, %v", history, id, key, err)
			}
			if is && kit.Diff(kit.SnapKey(key), w) != "" {
				t.Fatalf("%s: GetKey(%q) gives %v", history, id, kit.SnapKey(key))
			}
			if is && rapid.Bool().Draw(t, "mark") {
				used := rapid.Bool().Draw(t, "used")
				must(t, s.k.MarkKeyUsed(r, used), history+" MarkKeyUsed")
				w.Used = used
				s.keys[id] = w
				s.log = append(s.log, fmt.Sprintf("MarkKeyUsed(%s, %v)", id, used))
			}
			if !is {
				if err := s.k.MarkKeyUsed(r, true); err == nil {
					t.Fatalf("%s: MarkKeyUsed(%q) of no key succeeds", history, id)
				}
			}
		}
		_, is := s.msgs[id]
		if got := s.k.ContainsMessageId(&r); got != is {
			t.Fatalf("%s: ContainsMessageId(%q) says %v", history, id, got)
		}
	}
	s.compare(t, "look-ups")
}

func (s *c19) newMessage(t *rapid.T) {
	kind := rapid.SampledFrom([]string{"received", "parsed", "id", "sent"}).Draw(t, "newMessage")
	switch rapid.IntRange(0, 2).Draw(t, "entropy") {
	case 0: // the random source repeats itself
		kit.Entropy(s.seed)
		kind += " (repeating source)"
	case 1:
		s.seed = kit.Seed(t)
		kit.Entropy(s.seed)
	}
	s.log = append(s.log, "new message "+kind)
	history := strings.Join(s.log, "; ")
	var id string
	switch strings.Fields(kind)[0] {
	case "received":
		m, err := s.k.NewTextMessage("SA6MWA DE VJ = GOOD DAY 123 = K")
		must(t, err, history)
		id = string(m.Id)
		s.msgs2(t, m)
	case "sent":
		m, err := s.k.NewTextMessage("SK9ZZ DE SA6MWA = GOOD DAY 123 = K")
		if err != nil {
			s.compare(t, "refused message")
			return
		}
		s.resync()
		id = string(m.Id)
		s.msgs2(t, m)
	case "parsed":
		m, err := s.k.ParseRadiogram("SA6MWA DE VJ = GOOD DAY 123 = K")
		must(t, err, history)
		id = string(m.Id)
		if _, ok := s.msgs[id]; ok {
			t.Fatalf("%s: the id %s was taken", history, id)
		}
	case "id":
		id = string(s.k.NewUniqueMessageId())
		if _, ok := s.msgs[id]; ok {
			t.Fatalf("%s: the id %s was taken", history, id)
		}
		m := kit.Msg(s.k, "BY HAND", "QJ")
		m.Id = []rune(id)
		s.k.Messages = append(s.k.Messages, *m)
		s.msgs2(t, m)
	}
	if len(id) != 4 || strings.Trim(id, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") != "" {
		t.Fatalf("%s: message id %q", history, id)
	}
	s.compare(t, "new message")
}

func (s *c19) msgs2(t *rapid.T, m *krypto431.Message) {
	x := kit.SnapMsg(m)
	if _, ok := s.msgs[x.Id]; ok {
		t.Fatalf("%s: the id %s was taken", strings.Join(s.log, "; "), x.Id)
	}
	s.msgs[x.Id] = x
}

func (s *c19) newKeys(t *rapid.T) {
	n := rapid.IntRange(1, 3).Draw(t, "newKeys")
	s.log = append(s.log, fmt.Sprintf("%d new keys", n))
	must(t, s.k.GenerateKeys(n, nil, rapid.SampledFrom([]string{"", "QJ", "SK9ZZ"}).Draw(t, "keeper")), strings.Join(s.log, "; "))
	if len(s.k.Keys) != len(s.keys)+n {
		t.Fatalf("%s: %d keys instead of %d", strings.Join(s.log, "; "), len(s.k.Keys), len(s.keys)+n)
	}
	for _, x := range kit.SnapKeys(s.k) {
		if _, ok := s.keys[x.Id]; !ok {
			s.keys[x.Id] = x
		}
	}
	s.compare(t, "new keys")
}

func (s *c19) reload(t *rapid.T) {
	s.log = append(s.log, "save and load")
	history := strings.Join(s.log, "; ")
	must(t, s.k.Save(), history)
	must(t, s.k.Load(), history)
	s.compare(t, "reload")
}

func TestC19(t *testing.T) {
	kit.Rule("histories of deleting keys and messages (by id, by lists in any spelling, by current and outdated listing lines, with repeated, absent and resembling ids), looking up, marking, adding keys and messages (also with a random source that repeats itself), saving and loading, on stores of generated content with ids that are prefixes of each other or differ in letter case only; compared with a map after every step; non-trivial = at least two deletions took place")
	kit.Check(t, "histories", 48000, 400000, func(t *rapid.T) {
		seed := kit.Seed(t)
		kit.Entropy(seed)
		dir, done := scratch("c19")
		defer done()
		k := fileStation(kit.Geometry{G: rapid.IntRange(2, 5).Draw(t, "groupSize"), K: 25}, "SA6MWA", filepath.Join(dir, "store"))
		richStore(t, k, 8, 6)
		if rapid.IntRange(0, 15).Draw(t, "manyMessages") == 15 {
			for i, n := 0, rapid.IntRange(5, 150).Draw(t, "moreMessages"); i < n; i++ {
				m := kit.Msg(k, fmt.Sprintf("MESSAGE %d", i), "QJ")
				m.Id = []rune(fmt.Sprintf("%c%03d", "dEf"[i%3], i))
				m.DTG.Time = time.Now()
				k.Messages = append(k.Messages, *m)
			}
		}
		for i := range k.Messages { // ids in other cases
			if rapid.IntRange(0, 2).Draw(t, "twin") == 0 {
				other := kit.MixCase(t, strings.ToUpper(string(k.Messages[i].Id)), "twin")
				r := []rune(other)
				if !k.ContainsMessageId(&r) {
					k.Messages[i].Id = r
				}
			}
		}
		s := &c19{k: k, seed: seed, keys: map[string]kit.KeySnap{}, msgs: map[string]kit.MsgSnap{}, lines: map[string]string{}, mline: map[string]string{}}
		for _, x := range kit.SnapKeys(k) {
			s.keys[x.Id] = x
		}
		for _, x := range kit.SnapMsgs(k) {
			s.msgs[x.Id] = x
		}
		s.log = append(s.log, fmt.Sprintf("keys %v, messages %v", sortedKeys(s.keys), sortedKeys(s.msgs)))
		for i := rapid.IntRange(1, 12).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 9).Draw(t, "step") {
			case 0, 1, 2:
				s.deleteKeys(t)
			case 3, 4, 5:
				s.deleteMessages(t)
			case 6:
				s.lookUp(t)
			case 7:
				s.newMessage(t)
			case 8:
				s.newKeys(t)
			case 9:
				s.reload(t)
			}
		}
		s.lookUp(t)
		kit.Case(len(s.gone) > 1, strings.Join(s.log, "; "), fmt.Sprintf("%d deletions", min(9, len(s.gone))))
	})
	kit.Check(t, "ids", 6000, 60000, func(t *rapid.T) {
		// ids stay unique however the random source repeats itself
		seed := kit.Seed(t)
		k := kit.Station(kit.Geometry{G: 3, K: 25}, "SA6MWA")
		seen := map[string]bool{}
		n := rapid.IntRange(2, 40).Draw(t, "n")
		for i := 0; i < n; i++ {
			if i%2 == 0 || rapid.Bool().Draw(t, "again") {
				kit.Entropy(seed)
			}
			m, err := k.NewTextMessage("SA6MWA DE VJ = GOOD DAY = K")
			must(t, err, "NewTextMessage")
			id := string(m.Id)
			if seen[id] || len(id) != 4 || len(k.Messages) != i+1 {
				t.Fatalf("message %d has id %q, which was taken: %v", i, id, seen[id])
			}
			seen[id] = true
		}
		kit.Case(n > 2, fmt.Sprintf("%d messages, source %d", n, seed), "repeating source")
	})
}
