package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// shop is a store used through the command-line tool only.
type shop struct {
	dir, file string
	pfk       string // opens the store
	access    []string
	env       []string
	how       string
	log       []string
}

var derivedKeys sync.Map

// keyOf derives the storage key of a password.
func keyOf(t rapid.TB, password, salt string) string {
	if v, ok := derivedKeys.Load(password + "\x00" + salt); ok {
		return v.(string)
	}
	k := kit.Station(kit.Geometry{G: 5, K: 20}, "")
	must(t, k.SetSaltFromString(salt), "salt")
	must(t, k.SetPFKFromPassword(password), "password")
	s := k.GetPFKString()
	derivedKeys.Store(password+"\x00"+salt, s)
	return s
}

const aSalt = "a0a1a2a3a4a5a6a7a8a9aaabacadaeafb0b1b2b3b4b5b6b7b8b9babbbcbdbebf"
const aPassword = "Sju sjösjuka sjömän, 7 7 7"

// openShop draws how the store is opened.
func openShop(t *rapid.T, dir string) *shop {
	s := &shop{dir: dir, file: filepath.Join(dir, rapid.SampledFrom([]string{"store", "a store", ".krypto431", "s.txt"}).Draw(t, "file"))}
	s.env = cliEnv(dir)
	s.how = rapid.SampledFrom([]string{"key", "key", "key", "key", "key", "key", "key", "key variable", "key and salt", "password", "password and salt", "variables"}).Draw(t, "access")
	fileOpt := []string{rapid.SampledFrom([]string{"-f", "--file"}).Draw(t, "fileOption"), s.file}
	s.pfk = thePFK
	switch s.how {
	case "key":
		s.access = []string{"-K", thePFK}
	case "key variable":
		s.env = append(s.env, "KRYPTO_PFK="+thePFK)
	case "key and salt":
		s.access = []string{"--pfk", thePFK, "-S", aSalt}
	case "password":
		s.access = []string{"-P", aPassword}
		s.pfk = keyOf(t, aPassword, krypto431.DefaultSalt)
	case "password and salt":
		s.access = []string{"--salt", aSalt, "--password", aPassword}
		s.pfk = keyOf(t, aPassword, aSalt)
	case "variables":
		s.env = append(s.env, "KRYPTO_SALT="+aSalt, "KRYPTO_PASSWORD="+aPassword, "KRYPTO_FILE="+s.file)
		s.pfk = keyOf(t, aPassword, aSalt)
		fileOpt = nil
	}
	if rapid.Bool().Draw(t, "fileFirst") {
		s.access = append(fileOpt, s.access...)
	} else {
		s.access = append(s.access, fileOpt...)
	}
	return s
}

// toolRun runs the tool with an environment.
func toolRun(t rapid.TB, dir string, env []string, stdin string, args ...string) ran {
	t.Helper()
	cmd := exec.Command(kit.CLI(), args...)
	cmd.Dir, cmd.Env, cmd.Stdin = dir, env, strings.NewReader(stdin)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	timer := time.AfterFunc(120*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err := cmd.Run()
	timer.Stop()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) && !strings.Contains(err.Error(), "broken pipe") {
		panic("HARNESS ERROR: running the tool: " + err.Error())
	}
	r := ran{cmd.ProcessState.ExitCode(), out.String(), er.String(), strings.Join(args, " ")}
	if strings.Contains(r.err, "goroutine ") && strings.Contains(r.err, "panic") || r.exit == 2 && strings.Contains(r.err, "fatal error") {
		t.Fatalf("krypto431 %s crashed:\n%s", r.args, r.err)
	}
	return r
}

func (s *shop) run(t rapid.TB, stdin string, args ...string) ran {
	t.Helper()
	s.log = append(s.log, strings.Join(args, " "))
	return toolRun(t, s.dir, s.env, stdin, append(append([]string{}, s.access...), args...)...)
}

// talk runs it on a terminal.
func (s *shop) talk(t rapid.TB, dialogs []kit.Dialog, args ...string) (ran, *kit.Talked) {
	t.Helper()
	s.log = append(s.log, "(terminal) "+strings.Join(args, " "))
	x, err := kit.Talk(append(append([]string{kit.CLI()}, s.access...), args...), s.env, s.dir, dialogs, nil, 40*time.Second)
	if err != nil {
		panic("HARNESS ERROR: " + err.Error())
	}
	if x.TimedOut {
		t.Fatalf("krypto431 %v does not go on after %d of %d answers (%+v):\n%s\n%q", args, x.Answered, len(dialogs), dialogs, s.history(), x.Screen)
	}
	if strings.Contains(x.Screen, "goroutine ") && strings.Contains(x.Screen, "panic") {
		t.Fatalf("krypto431 %v crashed:\n%s", args, x.Screen)
	}
	return ran{x.Exit, x.Screen, "", strings.Join(args, " ")}, x
}

func (s *shop) ok(t rapid.TB, r ran) {
	t.Helper()
	if r.exit != 0 {
		t.Fatalf("krypto431 %s failed (%d): %s%s\nafter %s", r.args, r.exit, r.out, r.err, s.history())
	}
}

func (s *shop) history() string { return strings.Join(s.log, "; ") }

func (s *shop) open(t rapid.TB) *krypto431.Krypto431 {
	t.Helper()
	k, err := opened(s.file, s.pfk)
	if err != nil {
		t.Fatalf("the store does not open after %s: %v", s.history(), err)
	}
	return k
}

func (s *shop) now(t rapid.TB) kit.Snap {
	t.Helper()
	return kit.SnapStore(s.open(t))
}

// same expects the store to be as before.
func (s *shop) same(t rapid.TB, before kit.Snap, r ran) {
	t.Helper()
	if d := kit.Diff(s.now(t), before); d != "" {
		t.Fatalf("krypto431 %s (exit status %d, %s) changed the store: %s", r.args, r.exit, r.err, d)
	}
}

// fails expects a non-zero exit status and the store to be as before.
func (s *shop) fails(t rapid.TB, before kit.Snap, r ran) {
	t.Helper()
	if r.exit == 0 {
		t.Fatalf("krypto431 %s reports success: %s%s", r.args, r.out, r.err)
	}
	s.same(t, before, r)
}

func moment(s string) time.Time {
	var sec, ns int64
	var off int
	if _, err := fmt.Sscanf(s, "%d.%d%d", &sec, &ns, &off); err != nil {
		panic("HARNESS ERROR: " + s + err.Error())
	}
	return time.Unix(sec, ns).In(time.FixedZone("", off))
}

func dtgText(instant string) string {
	at := moment(instant)
	_, off := at.Zone()
	return nearGroup(at, off/3600).text
}

func asSheetKey(k kit.KeySnap) sheetKey {
	return sheetKey{id: k.Id, letters: k.Runes, created: dtgText(k.Created), expires: dtgText(k.Expires), comment: k.Comment, keepers: k.Keepers, used: k.Used, compromised: k.Compromised}
}

func asPaperMsg(m kit.MsgSnap) paperMsg {
	return paperMsg{id: m.Id, dtg: dtgText(m.DTG), from: m.From, text: m.PlainText, keyId: m.KeyId, cipher: m.CipherText, to: m.Recipients}
}

func contains(list []string, x string) bool {
	for _, s := range list {
		if s == x {
			return true
		}
	}
	return false
}

// within tells whether all (or any) of the wanted are in the list.
func within(want, list []string, any bool) bool {
	for _, w := range want {
		if contains(list, w) == any {
			return any
		}
	}
	return !any
}

// listOption spells a list option: several times, or separated.
func listOption(t *rapid.T, names []string, items []string, mix bool, label string) (args []string) {
	name := rapid.SampledFrom(names).Draw(t, label+"Option") // one form only
	for i := 0; i < len(items); {
		n := rapid.IntRange(1, len(items)-i).Draw(t, label+"Together")
		s := strings.Join(items[i:i+n], rapid.SampledFrom([]string{",", " ", ", ", " ,", ",,"}).Draw(t, label+"Sep"))
		if mix {
			s = kit.MixCase(t, s, label)
		}
		if strings.HasPrefix(name, "--") && rapid.Bool().Draw(t, label+"Equals") {
			args = append(args, name+"="+s)
		} else {
			args = append(args, name, s)
		}
		i += n
	}
	return
}

// keySelection draws options which select keys and what they mean.
func keySelection(t *rapid.T, have []kit.KeySnap) (args []string, match func(kit.KeySnap, time.Time) bool) {
	flag := func(names ...string) { args = append(args, rapid.SampledFrom(names).Draw(t, "spelling")) }
	var ids, keepers []string
	var all, or, invalid, compromised, used, unused, expired, valid bool
	days := 0
	chance := func(n int, label string) bool { return rapid.IntRange(0, n).Draw(t, label) == 0 }
	if chance(3, "ids") {
		for i := rapid.IntRange(1, 3).Draw(t, "someIds"); i > 0; i-- {
			if len(have) > 0 && !chance(4, "foreignId") {
				ids = append(ids, have[rapid.IntRange(0, len(have)-1).Draw(t, "id")].Id)
			} else {
				ids = append(ids, "QQQQQ")
			}
		}
		args = append(args, listOption(t, []string{"-i", "--id"}, ids, true, "id")...)
	}
	if chance(2, "keepers") {
		keepers = rapid.Permutation([]string{"QJ", "VJ", "BA", "ZZ9ZA"}).Draw(t, "keeperList")[:rapid.IntRange(1, 3).Draw(t, "keeperCount")]
		if len(have) > 0 && rapid.Bool().Draw(t, "realKeepers") {
			if k := have[rapid.IntRange(0, len(have)-1).Draw(t, "like")]; len(k.Keepers) > 0 {
				keepers = k.Keepers[:rapid.IntRange(1, len(k.Keepers)).Draw(t, "keeperCount")]
			}
		}
		for _, k := range keepers {
			if strings.ContainsAny(k, " ,") {
				panic("HARNESS ERROR: keeper with blanks")
			}
		}
		args = append(args, listOption(t, []string{"-k", "--keepers"}, keepers, true, "keeper")...)
		if rapid.Bool().Draw(t, "or") {
			or = true
			flag("--or")
		}
	}
	if chance(6, "all") {
		all = true
		flag("--all")
	}
	if chance(4, "invalid") {
		invalid = true
		flag("--invalid")
	}
	if chance(5, "compromised") {
		compromised = true
		flag("--compromised", "-C")
	}
	if chance(5, "used") {
		used = true
		flag("--used", "-u")
	} else if chance(3, "unused") {
		unused = true
		flag("--unused", "-U")
	}
	if chance(5, "expired") {
		expired = true
		flag("--expired")
	}
	if chance(4, "valid") {
		valid = true
		days = rapid.SampledFrom([]int{0, 1, 2, 30, 365, 364, 366, -1, 10000}).Draw(t, "days")
		args = append(args, fmt.Sprintf("--valid=%d", days))
	}
	return args, func(k kit.KeySnap, now time.Time) bool {
		if all {
			return true
		}
		if len(ids) > 0 {
			return contains(ids, k.Id)
		}
		exp := moment(k.Expires)
		gone := !exp.After(now)
		switch {
		case len(keepers) > 0 && !within(keepers, k.Keepers, or),
			invalid && !(k.Compromised || gone),
			compromised && !k.Compromised,
			used && !k.Used,
			unused && k.Used,
			expired && !gone,
			valid && (k.Compromised || !exp.After(now.Add(time.Duration(days)*24*time.Hour))):
			return false
		}
		return true
	}
}

// messageSelection is the like for messages.
func messageSelection(t *rapid.T, have []kit.MsgSnap) (args []string, match func(kit.MsgSnap) bool) {
	var ids, to, from []string
	var all, or bool
	chance := func(n int, label string) bool { return rapid.IntRange(0, n).Draw(t, label) == 0 }
	if chance(3, "ids") {
		for i := rapid.IntRange(1, 3).Draw(t, "someIds"); i > 0; i-- {
			id := "QQQQ"
			if len(have) > 0 && !chance(4, "foreignId") {
				id = have[rapid.IntRange(0, len(have)-1).Draw(t, "id")].Id
				if chance(4, "otherCase") {
					id = kit.MixCase(t, id, "idCase")
				}
			}
			ids = append(ids, id)
		}
		args = append(args, listOption(t, []string{"-i", "--id"}, ids, false, "id")...)
	}
	if chance(1, "to") {
		to = rapid.Permutation([]string{"QJ", "VJ", "BA", "SA6MWA"}).Draw(t, "toList")[:rapid.IntRange(1, 3).Draw(t, "toCount")]
		if len(have) > 0 && rapid.Bool().Draw(t, "realTo") {
			if m := have[rapid.IntRange(0, len(have)-1).Draw(t, "like")]; len(m.Recipients) > 0 {
				to = m.Recipients[:rapid.IntRange(1, len(m.Recipients)).Draw(t, "toCount")]
			}
		}
		args = append(args, listOption(t, []string{"-t", "--to"}, to, true, "to")...)
		if rapid.Bool().Draw(t, "or") {
			or = true
			args = append(args, "--or")
		}
	}
	if chance(2, "from") {
		from = rapid.Permutation([]string{"QJ", "VJ", "BA", "SA6MWA"}).Draw(t, "fromList")[:rapid.IntRange(1, 2).Draw(t, "fromCount")]
		args = append(args, listOption(t, []string{"-f", "--from"}, from, true, "from")...)
	}
	if chance(6, "all") {
		all = true
		args = append(args, "--all")
	}
	return args, func(m kit.MsgSnap) bool {
		switch {
		case all:
			return true
		case len(ids) > 0:
			return contains(ids, m.Id)
		case len(to) > 0 && !within(to, m.Recipients, or), len(from) > 0 && !contains(from, m.From):
			return false
		}
		return true
	}
}

// selected are the keys which match, if that is certain between two moments.
func selected(have []kit.KeySnap, match func(kit.KeySnap, time.Time) bool, t0, t1 time.Time) (s []kit.KeySnap, certain bool) {
	certain = true
	for _, k := range have {
		a, b := match(k, t0), match(k, t1)
		certain = certain && a == b
		if a {
			s = append(s, k)
		}
	}
	return
}

// listing compares printed lines of a listing with what is expected: at 0 the
// file, the keeper and the numbers, then the header.
func listing(t rapid.TB, s *shop, st kit.Snap, r ran, names []string, want [][]string) {
	t.Helper()
	if len(want) == 0 {
		if strings.TrimSpace(r.out) != "" {
			t.Fatalf("krypto431 %s lists something, but nothing is selected: %s", r.args, r.out)
		}
		return
	}
	lines := strings.Split(strings.TrimRight(r.out, "\n"), "\n")
	at := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "ID") && strings.Contains(l, names[len(names)-1]) {
			at = i
			break
		}
	}
	if at < 0 || len(lines)-at-1 != len(want) {
		t.Fatalf("krypto431 %s lists %d lines instead of %d:\n%s", r.args, len(lines)-at-1, len(want), r.out)
	}
	head := strings.Join(lines[:at], "\n")
	for _, x := range []string{s.file, "=" + st.CallSign + " ", fmt.Sprintf("KEYS=%d", len(st.Keys)), fmt.Sprintf("MESSAGES=%d", len(st.Msgs))} {
		if !strings.Contains(head+" ", x) {
			t.Fatalf("krypto431 %s: the head %q lacks %q", r.args, head, x)
		}
	}
	for i, w := range want {
		c, err := cells(lines[at], lines[at+1+i], names)
		if err != nil || len(c) < len(w) || strings.Join(c[:len(w)], "|") != strings.Join(w, "|") {
			t.Fatalf("krypto431 %s lists (line %d) %q instead of %q (%v):\n%s", r.args, i, c, w, err, r.out)
		}
	}
}

func keyCells(ks []kit.KeySnap) (rows [][]string) {
	yes := map[bool]string{true: "Yes", false: "No"}
	for _, k := range ks {
		keepers := strings.Join(k.Keepers, ",")
		if keepers == "" {
			keepers = "Anonymous"
		}
		rows = append(rows, []string{k.Id, keepers, dtgText(k.Created), dtgText(k.Expires), yes[k.Used], yes[k.Compromised], k.Comment})
	}
	return
}

func messageCells(ms []kit.MsgSnap) (rows [][]string) {
	for _, m := range ms {
		to, from := strings.Join(m.Recipients, ","), m.From
		if to == "" {
			to = "NIL"
		}
		if from == "" {
			from = "NIL"
		}
		rows = append(rows, []string{m.Id, dtgText(m.DTG), to, from})
	}
	return
}

// fill adds generated keys and messages to the store, as other tools or times
// would have left them there.
func (s *shop) fill(t *rapid.T) {
	k := kit.Station(kit.Geometry{G: 5, K: 20}, "", krypto431.WithPersistence(s.file), krypto431.WithPFKString(s.pfk))
	must(t, k.Load(), "loading to add content")
	calls := []string{"QJ", "VJ", "BA", "ÅÄÖ", "OH0A/M"}
	for i := rapid.IntRange(0, 9).Draw(t, "moreKeys"); i > 0; i-- {
		must(t, k.GenerateKeys(1, nil), "generating")
		x := &k.Keys[len(k.Keys)-1]
		x.AddKeeper(kit.Runes(rapid.Permutation(calls).Draw(t, "keepers")[:rapid.IntRange(0, 3).Draw(t, "keeperCount")]...)...)
		off := time.FixedZone("", 3600*rapid.IntRange(-12, 12).Draw(t, "zone"))
		switch rapid.IntRange(0, 3).Draw(t, "expiry") {
		case 0:
			x.Expires.Time = drawGroup(t, "expires").t
		case 1: // near what options ask for
			days := rapid.SampledFrom([]int{-1, 0, 0, 1, 2, 30, 364, 365, 366}).Draw(t, "expiryDays")
			x.Expires.Time = time.Now().Add(time.Duration(days)*24*time.Hour + time.Duration(rapid.SampledFrom([]int{-12, -2, -1, 1, 2, 12, 24}).Draw(t, "expiryHours"))*time.Hour).Truncate(time.Second).In(off)
		case 2:
			x.Expires.Time = time.Now().Add(time.Duration(rapid.SampledFrom([]int{-300, -120, 300, 600}).Draw(t, "expirySeconds")) * time.Second).Truncate(time.Second).In(off)
		}
		x.Created.Time = drawGroup(t, "created").t
		x.Used = rapid.IntRange(0, 2).Draw(t, "isUsed") == 0
		x.Compromised = rapid.IntRange(0, 3).Draw(t, "isCompromised") == 0
		if rapid.IntRange(0, 3).Draw(t, "commented") == 0 {
			x.Comment = []rune(line(t, 3, "comment"))
		}
	}
	for i := rapid.IntRange(0, 6).Draw(t, "moreMessages"); i > 0; i-- {
		x := krypto431.Message{Id: k.NewUniqueMessageId(), Recipients: kit.Runes(rapid.Permutation([]string{"QJ", "VJ", "BA", "SA6MWA"}).Draw(t, "to")[:rapid.IntRange(0, 3).Draw(t, "toCount")]...), From: []rune(rapid.SampledFrom([]string{"SA6MWA", "QJ", "VJ", "BA"}).Draw(t, "from"))}
		x.DTG.Time = drawGroup(t, "dtg").t
		x.PlainText = []rune("1) " + line(t, 8, "text"))
		if rapid.Bool().Draw(t, "enciphered") {
			x.KeyId = []rune(kit.Letters(t, k.GroupSize, "keyId"))
			x.CipherText = []rune(manyLetters(t, 200))
		}
		x.SetInstance(k)
		k.Messages = append(k.Messages, x)
	}
	must(t, k.Save(), "saving added content")
	s.log = append(s.log, fmt.Sprintf("(now %d keys and %d messages)", len(k.Keys), len(k.Messages)))
	k.Close()
}

// initialise draws an init command; it returns whether there is a store.
func (s *shop) initialise(t *rapid.T, exists, onTerminal bool) bool {
	var before kit.Snap
	if exists {
		before = s.now(t)
	}
	args := []string{rapid.SampledFrom([]string{"initialize", "init"}).Draw(t, "initName")}
	want := kit.Snap{CallSign: "SA6MWA", GroupSize: krypto431.DefaultGroupSize, KeyLength: krypto431.DefaultKeyLength, Columns: krypto431.DefaultColumns, KeyColumns: krypto431.DefaultKeyColumns}
	valid := true
	num := func(names []string, label string, v int) {
		args = append(args, rapid.SampledFrom(names).Draw(t, label+"Option"), strconv.Itoa(v))
	}
	chance := func(n int, label string) bool { return rapid.IntRange(0, n).Draw(t, label) == 0 }
	call := rapid.SampledFrom([]string{"SA6MWA", "SA6MWA", "sa6mwa", " Sa6mwa ", "QJ", "åä", "SA6MWA/P", "X", " ", ""}).Draw(t, "call")
	want.CallSign = strings.ToUpper(strings.TrimSpace(call))
	valid = utf8.RuneCountInString(want.CallSign) >= 2
	args = append(args, rapid.SampledFrom([]string{"-c", "--call"}).Draw(t, "callOption"), call)
	want.GroupSize = rapid.SampledFrom([]int{5, 5, 2, 3, 4, 6, 8}).Draw(t, "groupSize")
	if want.GroupSize != 5 || chance(2, "stateGroupSize") {
		num([]string{"-g", "--groupsize"}, "g", want.GroupSize)
	}
	if chance(1, "keyLength") {
		want.KeyLength = rapid.SampledFrom([]int{20, 21, 25, 40, 100, 200, 19, 0, -5}).Draw(t, "length")
		valid = valid && want.KeyLength >= 20
		num([]string{"-l", "--key-length"}, "l", want.KeyLength)
	}
	if chance(3, "keyColumns") {
		want.KeyColumns = want.GroupSize + rapid.SampledFrom([]int{0, 1, 20, 30, -1}).Draw(t, "keyWidth")
		valid = valid && want.KeyColumns >= want.GroupSize
		num([]string{"--key-columns"}, "kc", want.KeyColumns)
	}
	if chance(3, "columns") {
		want.Columns = rapid.SampledFrom([]int{85, 86, 100, 200, 84, 0}).Draw(t, "width")
		valid = valid && want.Columns >= 85
		num([]string{"--columns"}, "w", want.Columns)
	}
	n := rapid.SampledFrom([]int{0, 0, 1, 2, 5, -1}).Draw(t, "n")
	if n != 0 || chance(2, "stateN") {
		num([]string{"-n", "--keys"}, "n", n)
	}
	n = max(n, 0)
	var expire *group
	if chance(3, "expire") {
		g := drawGroup(t, "expire")
		if chance(3, "badExpire") {
			g = drawBadGroup(t, "expire")
		}
		text := g.text
		if g.valid {
			text = g.spell(t, "expire")
		}
		args = append(args, rapid.SampledFrom([]string{"-x", "--expire"}).Draw(t, "expireOption"), text)
		if text != "" { // empty is the default
			expire = &g
			valid = valid && (g.valid || n == 0)
		}
	}
	var keepers []string
	if chance(1, "keepers") {
		keepers = rapid.Permutation([]string{"QJ", "VJ", "BA", "SA6MWA", "ÅÄÖ"}).Draw(t, "keeperList")[:rapid.IntRange(1, 3).Draw(t, "keeperCount")]
		args = append(args, listOption(t, []string{"-k", "--keepers"}, keepers, true, "keeper")...)
		keepers = without(keepers, want.CallSign)
	}
	yes := !exists && rapid.Bool().Draw(t, "yes") || exists && rapid.IntRange(0, 2).Draw(t, "yes") > 0
	if yes {
		args = append(args, rapid.SampledFrom([]string{"-y", "--yes"}).Draw(t, "yesOption"))
	}
	t0 := time.Now()
	var r ran
	if onTerminal && exists && !yes {
		answer := rapid.SampledFrom([]string{"y", "n", ""}).Draw(t, "overwrite")
		var x *kit.Talked
		r, x = s.talk(t, []kit.Dialog{{Ask: "Overwrite", Answer: answer + "\r", Queries: 2}}, args...)
		if valid && x.Answered != 1 {
			t.Fatalf("krypto431 %s did not ask before overwriting the store: %s", r.args, x.Screen)
		}
		yes = answer == "y"
		if valid && !yes {
			s.same(t, before, r)
			return true
		}
	} else {
		r = s.run(t, "", args...)
	}
	if !valid || exists && !yes {
		if r.exit == 0 {
			t.Fatalf("krypto431 %s reports success (store there before: %v): %s%s", r.args, exists, r.out, r.err)
		}
		if exists {
			s.same(t, before, r)
		} else if _, err := os.Lstat(s.file); err == nil {
			t.Fatalf("krypto431 %s failed (%s), but made a store", r.args, r.err)
		}
		return exists
	}
	s.ok(t, r)
	got := s.now(t)
	s.newKeys(t, kit.Snap{}, got, n, expire, keepers, want, t0, r)
	got.Keys = nil
	if d := kit.Diff(got, want); d != "" {
		t.Fatalf("krypto431 %s makes a store which differs: %s", r.args, d)
	}
	return true
}

// newKeys expects n keys to have been added to those before.
func (s *shop) newKeys(t rapid.TB, before, after kit.Snap, n int, expire *group, keepers []string, settings kit.Snap, t0 time.Time, r ran) {
	t.Helper()
	if len(after.Keys) != len(before.Keys)+n {
		t.Fatalf("krypto431 %s: %d keys instead of %d and %d new", r.args, len(after.Keys), len(before.Keys), n)
	}
	if len(before.Keys) > 0 {
		if d := kit.Diff(after.Keys[:len(before.Keys)], before.Keys); d != "" {
			t.Fatalf("krypto431 %s changed other keys: %s", r.args, d)
		}
	}
	byId(t, after.Keys, "krypto431 "+r.args)
	g := kit.Geometry{G: settings.GroupSize, K: settings.KeyLength}
	for _, k := range after.Keys[len(before.Keys):] {
		made := moment(k.Created)
		bad := ""
		switch {
		case utf8.RuneCountInString(k.Id) != g.G || !lettersOnly(k.Id):
			bad = "id"
		case len(k.Runes) != g.Len() || !lettersOnly(k.Runes):
			bad = fmt.Sprintf("%d letters", len(k.Runes))
		case k.Used || k.Compromised || k.Comment != "":
			bad = "state"
		case strings.Join(setOf(k.Keepers), ",") != strings.Join(setOf(keepers), ",") || len(k.Keepers) != len(setOf(keepers)):
			bad = "keepers " + strings.Join(k.Keepers, ",") + " instead of " + strings.Join(keepers, ",")
		case expire != nil && !moment(k.Expires).Equal(expire.t):
			bad = "expiry " + dtgText(k.Expires) + " instead of " + expire.text
		case expire == nil && !moment(k.Expires).After(made):
			bad = "expiry " + dtgText(k.Expires)
		case made.Before(t0.Add(-2*time.Second)) || made.After(time.Now().Add(2*time.Second)):
			bad = "creation " + dtgText(k.Created)
		}
		if bad != "" {
			t.Fatalf("krypto431 %s made a key with unexpected %s: %+v", r.args, bad, k)
		}
	}
}

// output draws a file name and type for print-outs.
func (s *shop) output(t *rapid.T, number int) (args []string, file, kind string) {
	ext := rapid.SampledFrom([]string{".txt", ".TXT", ".pdf", ".PDF", "", ".out"}).Draw(t, "extension")
	file = filepath.Join(s.dir, fmt.Sprintf("print%d%s", number, ext))
	args = []string{rapid.SampledFrom([]string{"-o", "--output"}).Draw(t, "outputOption"), file}
	kind = "pdf"
	if strings.EqualFold(ext, ".txt") {
		kind = "txt"
	}
	return
}

// printed compares an output file.
func readPrint(t rapid.TB, r ran, file, kind string, check func(text, what string)) {
	t.Helper()
	content, ok := readFile(file)
	if !ok {
		t.Fatalf("krypto431 %s made no file", r.args)
	}
	if kind == "txt" {
		check(content, "krypto431 "+r.args)
		return
	}
	text, _, err := pdfText(content)
	if err != nil {
		t.Fatalf("krypto431 %s made a bad PDF: %v", r.args, err)
	}
	check(text, "krypto431 "+r.args)
}

// narrow tells whether messages fit the width of a PDF page.
func narrow(ms []kit.MsgSnap) bool {
	for _, m := range ms {
		if 30+max(utf8.RuneCountInString(strings.Join(m.Recipients, ",")), utf8.RuneCountInString(m.From)) > 95 {
			return false
		}
		for _, w := range strings.Fields(m.PlainText) {
			if utf8.RuneCountInString(w) > 90 {
				return false
			}
		}
	}
	return true
}

// keysMatching gives the keys with the ids.
func keysMatching(ks []kit.KeySnap, in bool, ids []string) (out []kit.KeySnap) {
	for _, k := range ks {
		if contains(ids, k.Id) == in {
			out = append(out, k)
		}
	}
	return
}

// sameKeys compares keys in any order.
func sameKeys(t rapid.TB, got, want []kit.KeySnap, what string) {
	t.Helper()
	a, b := sortKeys(got), sortKeys(want)
	if d := kit.Diff(a, b); d != "" {
		t.Fatalf("%s: %s", what, d)
	}
}

func sortKeys(ks []kit.KeySnap) []kit.KeySnap {
	s := append([]kit.KeySnap{}, ks...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Id < s[j].Id })
	return s
}

func sortMsgs(ms []kit.MsgSnap) []kit.MsgSnap {
	s := append([]kit.MsgSnap{}, ms...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Id < s[j].Id })
	return s
}

// pickSome draws ids, some of which may not be there.
func pickSome(t *rapid.T, ids []string, foreign string) (some []string) {
	for i := rapid.IntRange(1, 3).Draw(t, "howMany"); i > 0; i-- {
		if len(ids) > 0 && rapid.IntRange(0, 4).Draw(t, "there") > 0 {
			some = append(some, ids[rapid.IntRange(0, len(ids)-1).Draw(t, "which")])
		} else {
			some = append(some, foreign)
		}
	}
	return
}

// choose is what is typed to choose options of a list.
func choose(t *rapid.T, n int) (typed string, chosen []int) {
	switch rapid.IntRange(0, 4).Draw(t, "choice") {
	case 0:
		typed = "\x1b[C" // all
		for i := 0; i < n; i++ {
			chosen = append(chosen, i)
		}
	case 1: // none
	default:
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(t, "choose") {
				typed += " "
				chosen = append(chosen, i)
			}
			typed += "\x1b[B"
		}
	}
	return typed + "\r", chosen
}

// dialogue compares what becomes of a delete command on a terminal.
func indexSet(n int, at []int) map[int]bool {
	m := map[int]bool{}
	for _, i := range at {
		m[i] = true
	}
	return m
}

// keysIds are the ids of keys.
func keysIds(ks []kit.KeySnap) (ids []string) {
	for _, k := range ks {
		ids = append(ids, k.Id)
	}
	return
}

func msgIds(ms []kit.MsgSnap) (ids []string) {
	for _, m := range ms {
		ids = append(ids, m.Id)
	}
	return
}

// one draws and checks one command on an existing store; it returns its kind.
func (s *shop) one(t *rapid.T, number int) string {
	before := s.now(t)
	g := kit.Geometry{G: before.GroupSize, K: before.KeyLength}
	name := rapid.SampledFrom([]string{"keys", "k"}).Draw(t, "name")
	kind := rapid.SampledFrom([]string{"generate", "generate", "delete", "delete", "list", "list", "list", "list", "print", "print", "export", "export", "import", "import",
		"send", "send", "send", "receive", "list messages", "list messages", "print messages", "delete messages", "failure", "failure", "failure", "blocked", "several", "several",
		"choose keys", "choose messages", "enter message", "fill", "fill", "initialise"}).Draw(t, "command")
	mname := rapid.SampledFrom([]string{"messages", "m", "msg"}).Draw(t, "messagesName")
	opt := func(names ...string) string { return rapid.SampledFrom(names).Draw(t, "option") }
	otherwise := func(after kit.Snap, r ran, keysToo bool) { // nothing else changed
		t.Helper()
		a, b := after, before
		a.Msgs, b.Msgs = nil, nil
		if keysToo {
			a.Keys, b.Keys = nil, nil
		}
		if d := kit.Diff(a, b); d != "" {
			t.Fatalf("krypto431 %s changed more: %s", r.args, d)
		}
	}
	switch kind {
	case "fill":
		s.fill(t)
	case "initialise":
		s.initialise(t, true, rapid.IntRange(0, 3).Draw(t, "terminal") == 0)
	case "generate":
		n := rapid.SampledFrom([]int{1, 1, 2, 3, 7, 0, -2}).Draw(t, "n")
		args := []string{name, opt("-n", "--new"), strconv.Itoa(n)}
		var expire *group
		fail := false
		if rapid.IntRange(0, 2).Draw(t, "expires") == 0 {
			x := drawGroup(t, "expire")
			text := x.spell(t, "expire")
			if rapid.IntRange(0, 3).Draw(t, "badExpire") == 0 {
				x = drawBadGroup(t, "expire")
				text = x.text
				fail = n > 0
			}
			expire = &x
			args = append(args, opt("-x", "--expire"), text)
		}
		var keepers []string
		if rapid.IntRange(0, 3).Draw(t, "kept") > 0 {
			keepers = rapid.Permutation([]string{"QJ", "VJ", "BA", "SA6MWA", "ÅÄÖ", "OH0A/M"}).Draw(t, "keeperList")[:rapid.IntRange(1, 4).Draw(t, "keeperCount")]
			args = append(args, listOption(t, []string{"-k", "--keepers"}, keepers, true, "keeper")...)
			keepers = without(keepers, before.CallSign)
		}
		t0 := time.Now()
		r := s.run(t, "", args...)
		if fail {
			s.fails(t, before, r)
			return "bad expiry"
		}
		if n <= 0 && expire != nil && !expire.valid {
			s.same(t, before, r)
			break
		}
		s.ok(t, r)
		after := s.now(t)
		s.newKeys(t, before, after, max(n, 0), expire, keepers, before, t0, r)
		after.Keys = before.Keys
		if d := kit.Diff(after, before); d != "" {
			t.Fatalf("krypto431 %s changed more: %s", r.args, d)
		}
	case "delete":
		some := pickSome(t, keysIds(before.Keys), strings.Repeat("Q", g.G+1))
		args := []string{name, opt("-d", "--delete"), opt("-y", "--yes")}
		if rapid.IntRange(0, 3).Draw(t, "together") == 0 {
			args = []string{name, "-dy"}
		}
		r := s.run(t, "", append(args, listOption(t, []string{"-i", "--id"}, some, true, "id")...)...)
		s.ok(t, r)
		after := s.now(t)
		sameKeys(t, after.Keys, keysMatching(before.Keys, false, some), fmt.Sprintf("krypto431 %s of %v", r.args, keysIds(before.Keys)))
		otherwise(after, r, true)
		if d := kit.Diff(after.Msgs, before.Msgs); d != "" {
			t.Fatalf("krypto431 %s changed messages: %s", r.args, d)
		}
	case "delete messages":
		some := pickSome(t, msgIds(before.Msgs), "QQQQQ")
		if rapid.IntRange(0, 4).Draw(t, "otherCase") == 0 {
			some[0] = kit.MixCase(t, some[0], "idCase")
		}
		r := s.run(t, "", append([]string{mname, opt("-d", "--delete"), opt("-y", "--yes")}, listOption(t, []string{"-i", "--id"}, some, false, "id")...)...)
		s.ok(t, r)
		after := s.now(t)
		var left []kit.MsgSnap
		for _, m := range before.Msgs {
			if !contains(some, m.Id) {
				left = append(left, m)
			}
		}
		if d := kit.Diff(sortMsgs(after.Msgs), sortMsgs(left)); d != "" {
			t.Fatalf("krypto431 %s of %v: %s", r.args, msgIds(before.Msgs), d)
		}
		otherwise(after, r, false)
	case "list":
		sel, match := keySelection(t, before.Keys)
		t0 := time.Now()
		r := s.run(t, "", append([]string{name, opt("-l", "--list")}, sel...)...)
		s.ok(t, r)
		if want, certain := selected(before.Keys, match, t0, time.Now()); certain {
			listing(t, s, before, r, []string{"ID", "KEEPERS", "CREATED", "EXPIRES", "USED", "COMPROMISED", "COMMENT"}, keyCells(want))
			kind += some(len(want), len(before.Keys))
		}
		s.same(t, before, r)
	case "list messages":
		sel, match := messageSelection(t, before.Msgs)
		r := s.run(t, "", append([]string{mname, opt("-l", "--list")}, sel...)...)
		s.ok(t, r)
		var want []kit.MsgSnap
		for _, m := range before.Msgs {
			if match(m) {
				want = append(want, m)
			}
		}
		listing(t, s, before, r, []string{"ID", "DTG", "TO", "DE", "DIGEST"}, messageCells(want))
		s.same(t, before, r)
		kind += some(len(want), len(before.Msgs))
	case "print":
		sel, match := keySelection(t, before.Keys)
		out, file, typ := s.output(t, number)
		if rapid.IntRange(0, 3).Draw(t, "typed") == 0 {
			typ = rapid.SampledFrom([]string{"txt", "pdf", "text"}).Draw(t, "type")
			out = append(out, opt("-t", "--type"), typ)
			if typ == "text" {
				typ = "txt"
			}
		}
		t0 := time.Now()
		r := s.run(t, "", append(append([]string{name}, out...), sel...)...)
		if want, certain := selected(before.Keys, match, t0, time.Now()); certain {
			kind += some(len(want), len(before.Keys))
			if len(want) == 0 {
				if _, err := os.Lstat(file); err == nil {
					t.Fatalf("krypto431 %s made a file of no keys", r.args)
				}
			} else {
				s.ok(t, r)
				readPrint(t, r, file, typ, func(text, what string) {
					var w []sheetKey
					for _, k := range want {
						w = append(w, asSheetKey(k))
					}
					if typ == "pdf" && before.Columns > 100 {
						for _, k := range want {
							if !strings.Contains(squeeze(text), k.Id) {
								t.Fatalf("%s: key %s is missing", what, k.Id)
							}
						}
						return
					}
					sheetsSay(t, text, w, g.G, what)
				})
			}
		}
		s.same(t, before, r)
	case "print messages":
		sel, match := messageSelection(t, before.Msgs)
		out, file, typ := s.output(t, number)
		if rapid.IntRange(0, 3).Draw(t, "typed") == 0 {
			typ = rapid.SampledFrom([]string{"txt", "pdf", "text"}).Draw(t, "type")
			out = append(out, "--type", typ)
			if typ == "text" {
				typ = "txt"
			}
		}
		r := s.run(t, "", append(append([]string{mname}, out...), sel...)...)
		var want []kit.MsgSnap
		for _, m := range before.Msgs {
			if match(m) {
				want = append(want, m)
			}
		}
		kind += some(len(want), len(before.Msgs))
		if len(want) == 0 {
			if _, err := os.Lstat(file); err == nil {
				t.Fatalf("krypto431 %s made a file of no messages", r.args)
			}
		} else {
			s.ok(t, r)
			readPrint(t, r, file, typ, func(text, what string) {
				var w []paperMsg
				for _, m := range want {
					w = append(w, asPaperMsg(m))
				}
				if typ == "txt" || narrow(want) {
					messagesSay(t, text, w, g.G, what)
				}
			})
		}
		s.same(t, before, r)
	case "export":
		sel, match := keySelection(t, before.Keys)
		file := filepath.Join(s.dir, fmt.Sprintf("export%d", rapid.IntRange(0, 1).Draw(t, "exportFile")))
		_, there := readFile(file)
		yes := there && rapid.Bool().Draw(t, "yes") || rapid.IntRange(0, 2).Draw(t, "yesAnyway") == 0
		args := append([]string{name, opt("-E", "--export"), file}, sel...)
		if yes {
			args = append(args, opt("-y", "--yes"))
		}
		old, _ := readFile(file)
		t0 := time.Now()
		r := s.run(t, "", args...)
		if there && !yes {
			if content, _ := readFile(file); r.exit == 0 || content != old {
				t.Fatalf("krypto431 %s: exit status %d, and the file there has changed: %v", r.args, r.exit, content != old)
			}
			s.same(t, before, r)
			return "export refused"
		}
		s.ok(t, r)
		want, certain := selected(before.Keys, match, t0, time.Now())
		e, err := opened(file, s.pfk)
		if err != nil {
			t.Fatalf("krypto431 %s: the export does not open: %v", r.args, err)
		}
		got := kit.SnapStore(e)
		if certain {
			if d := kit.Diff(got.Keys, want); d != "" {
				t.Fatalf("krypto431 %s exports other keys: %s", r.args, d)
			}
			kind += some(len(want), len(before.Keys))
		}
		if len(got.Msgs) != 0 || got.CallSign != before.CallSign || got.GroupSize != before.GroupSize || got.KeyLength != before.KeyLength {
			t.Fatalf("krypto431 %s exports %+v", r.args, got)
		}
		s.same(t, before, r)
	case "import":
		s.doImport(t, before, number, name)
	case "send", "enter message":
		to := rapid.Permutation([]string{"QJ", "VJ", "BA", "OH0A/M"}).Draw(t, "to")[:rapid.IntRange(0, 2).Draw(t, "toCount")]
		if len(before.Keys) > 0 && rapid.Bool().Draw(t, "keptBy") {
			if k := before.Keys[rapid.IntRange(0, len(before.Keys)-1).Draw(t, "like")]; !contains(k.Keepers, "ÅÄÖ") {
				to = k.Keepers
			}
		}
		body := squeeze(kit.Text(t, 1, maxText(g, 30), "text"))
		body = strings.Trim(strings.ReplaceAll(strings.ReplaceAll(body, "+", "-"), "=", ""), "-/., ")
		if body == "" || strings.EqualFold(body, "K") || strings.EqualFold(body, "AR") {
			body = "TEST"
		}
		x := drawGroup(t, "dtg")
		from := before.CallSign
		for _, r := range from {
			if r > 127 {
				return "no ASCII call-sign"
			}
		}
		radiogram := strings.Join(to, " ") + " DE " + from + " " + x.text + " = " + body + " = K"
		if len(to) == 0 {
			radiogram = "DE " + from + " " + x.text + " = " + body + " = K"
		}
		var r ran
		if kind == "send" {
			r = s.run(t, radiogram, mname, opt("-n", "--new"))
		} else {
			if strings.ContainsAny(radiogram, "ÅÄÖåäö") {
				return "not typed"
			}
			r, _ = s.talk(t, []kit.Dialog{{Ask: "radiogram", Answer: radiogram + "\r\r\r", Queries: 2}}, mname, opt("-n", "--new"))
		}
		could := 0
		for i := range before.Keys {
			if eligible(&before.Keys[i], g.G, to) {
				could++
			}
		}
		if r.exit != 0 {
			s.same(t, before, r)
			if could > 0 && utf8.RuneCountInString(body) <= 2 && g.K >= 20 && g.G <= 5 {
				t.Fatalf("krypto431 %s < %q failed with %d keys to use: %s", r.args, radiogram, could, r.err)
			}
			return kind + " refused"
		}
		if could == 0 {
			t.Fatalf("krypto431 %s < %q succeeded without a key to use: %s%s", r.args, radiogram, r.out, r.err)
		}
		k := s.open(t)
		after := kit.SnapStore(k)
		if len(after.Msgs) != len(before.Msgs)+1 {
			t.Fatalf("krypto431 %s < %q: %d messages instead of %d and one (%s)", r.args, radiogram, len(after.Msgs), len(before.Msgs), r.err)
		}
		m := after.Msgs[len(after.Msgs)-1]
		d := checkConsumed(t, k, before.Keys, g.G, m.KeyId, m.CipherText, true, "krypto431 "+r.args+" < "+radiogram)
		if d.Text != m.PlainText || m.CipherText == "" || strings.Join(m.Recipients, ",") != strings.Join(to, ",") || m.From != from || !moment(m.DTG).Equal(x.t) ||
			squeeze(m.PlainText) != body && squeeze(m.PlainText) != strings.ToUpper(body) {
			t.Fatalf("krypto431 %s < %q: message %+v deciphers to %q", r.args, radiogram, m, d.Text)
		}
		s.added(t, before, after, r)
		text := r.out
		if i := strings.Index(text, "____"); i >= 0 { // the help text comes first on a terminal
			text = text[i:]
		}
		if kind != "send" {
			if i := strings.LastIndex(text, "ID:"); i >= 0 && !strings.Contains(text[i:], m.Id) {
				t.Fatalf("krypto431 %s < %q prints another message: %s", r.args, radiogram, r.out)
			}
		} else {
			messagesSay(t, r.out, []paperMsg{asPaperMsg(m)}, g.G, "krypto431 "+r.args)
		}
	case "receive":
		from := rapid.SampledFrom([]string{"QJ", "VJ", "BA"}).Filter(func(c string) bool { return c != before.CallSign }).Draw(t, "from")
		own := before.CallSign
		for _, r := range own {
			if r > 127 {
				return "no ASCII call-sign"
			}
		}
		x := drawGroup(t, "dtg")
		body := "HELLO " + kit.Letters(t, 4, "word") + " 123"
		var plain string
		if len(before.Keys) > 0 && rapid.IntRange(0, 3).Draw(t, "enciphered") > 0 {
			key := before.Keys[rapid.IntRange(0, len(before.Keys)-1).Draw(t, "key")]
			plain = body
			c := kit.ModelSheet(g.G, kit.KeyMap(before.Keys)).NewCoder(key.Id)
			if len(key.Runes) < g.G+2*len(body)+16 || !lettersOnly(key.Runes) {
				return "too long for the key"
			}
			for _, x := range body {
				c.Put(x)
			}
			c.Pad()
			body = key.Id + " " + grouped(c.Cipher(), g.G)
		}
		radiogram := own + " DE " + from + " " + x.text + " = " + body + " = K"
		r := s.run(t, radiogram, mname, opt("-n", "--new"))
		s.ok(t, r)
		k := s.open(t)
		after := kit.SnapStore(k)
		if len(after.Msgs) != len(before.Msgs)+1 {
			t.Fatalf("krypto431 %s < %q: %d messages instead of %d and one (%s)", r.args, radiogram, len(after.Msgs), len(before.Msgs), r.err)
		}
		m := after.Msgs[len(after.Msgs)-1]
		if plain != "" && m.PlainText != plain {
			t.Fatalf("krypto431 %s < %q: received %q instead of %q (%s)", r.args, radiogram, m.PlainText, plain, r.err)
		}
		received(t, k, &k.Messages[len(k.Messages)-1], before.Keys, g.G, body, "krypto431 "+r.args+" < "+radiogram)
		if strings.Join(m.Recipients, ",") != own || m.From != from || !moment(m.DTG).Equal(x.t) {
			t.Fatalf("krypto431 %s < %q: received %+v", r.args, radiogram, m)
		}
		s.added(t, before, after, r)
		messagesSay(t, r.out, []paperMsg{asPaperMsg(m)}, g.G, "krypto431 "+r.args)
		if plain != "" {
			kind += " cipher"
		}
	case "blocked":
		return s.blocked(t, before, name, mname, number)
	case "failure":
		return "failure: " + s.failure(t, before, name, mname)
	case "several":
		if rapid.IntRange(0, 3).Draw(t, "ofMessages") == 0 {
			s.severalMessages(t, before, mname)
		} else {
			s.several(t, before, number, name)
		}
	case "choose keys":
		sel, match := keySelection(t, before.Keys)
		t0 := time.Now()
		first, certain := selected(before.Keys, match, t0, t0.Add(time.Minute))
		if !certain {
			return "uncertain"
		}
		typed, chosen := choose(t, len(first))
		var dialogs []kit.Dialog
		if len(first) > 0 {
			dialogs = []kit.Dialog{{Ask: "Select key", Answer: typed}}
		}
		r, x := s.talk(t, dialogs, append([]string{name, opt("-d", "--delete")}, sel...)...)
		s.ok(t, r)
		if x.Answered != len(dialogs) {
			t.Fatalf("krypto431 %s did not ask which of %d keys to delete: %s", r.args, len(first), x.Screen)
		}
		var gone []string
		on := indexSet(len(first), chosen)
		for i, k := range first {
			if on[i] {
				gone = append(gone, k.Id)
			}
		}
		after := s.now(t)
		sameKeys(t, after.Keys, keysMatching(before.Keys, false, gone), fmt.Sprintf("krypto431 %s choosing %v of %v", r.args, gone, keysIds(first)))
		otherwise(after, r, true)
		if d := kit.Diff(after.Msgs, before.Msgs); d != "" {
			t.Fatalf("krypto431 %s changed messages: %s", r.args, d)
		}
	case "choose messages":
		sel, match := messageSelection(t, before.Msgs)
		var first []kit.MsgSnap
		for _, m := range before.Msgs {
			if match(m) {
				first = append(first, m)
			}
		}
		typed, chosen := choose(t, len(first))
		var dialogs []kit.Dialog
		if len(first) > 0 {
			dialogs = []kit.Dialog{{Ask: "Select message", Answer: typed}}
		}
		r, x := s.talk(t, dialogs, append([]string{mname, opt("-d", "--delete")}, sel...)...)
		s.ok(t, r)
		if x.Answered != len(dialogs) {
			t.Fatalf("krypto431 %s did not ask which of %d messages to delete: %s", r.args, len(first), x.Screen)
		}
		on := indexSet(len(first), chosen)
		gone := map[string]bool{}
		for i, m := range first {
			gone[m.Id] = on[i]
		}
		var left []kit.MsgSnap
		for _, m := range before.Msgs {
			if !gone[m.Id] {
				left = append(left, m)
			}
		}
		after := s.now(t)
		if d := kit.Diff(sortMsgs(after.Msgs), sortMsgs(left)); d != "" {
			t.Fatalf("krypto431 %s choosing %v of %v: %s", r.args, chosen, msgIds(first), d)
		}
		otherwise(after, r, false)
	}
	return kind
}

func some(n, of int) string {
	switch {
	case n == 0:
		return " none"
	case n == of:
		return " all"
	}
	return " some"
}

// added expects that only one message was added and keys marked used.
func (s *shop) added(t rapid.TB, before, after kit.Snap, r ran) {
	t.Helper()
	after.Msgs = after.Msgs[:len(before.Msgs)]
	if len(before.Msgs) == 0 {
		after.Msgs = nil
	}
	after.Keys = before.Keys // compared elsewhere
	if d := kit.Diff(after, before); d != "" {
		t.Fatalf("krypto431 %s changed more: %s", r.args, d)
	}
}

// several draws a command with several tasks.
func (s *shop) several(t *rapid.T, before kit.Snap, number int, name string) {
	args := []string{name}
	var gone []string
	n := 0
	del, list, export := rapid.Bool().Draw(t, "doDelete"), rapid.Bool().Draw(t, "doList"), rapid.Bool().Draw(t, "doExport")
	if del {
		gone = pickSome(t, keysIds(before.Keys), strings.Repeat("Q", before.GroupSize+1))
		args = append(args, "-d", "-y")
		args = append(args, listOption(t, []string{"-i", "--id"}, gone, true, "id")...)
	}
	if rapid.Bool().Draw(t, "doGenerate") || !del {
		n = rapid.IntRange(1, 3).Draw(t, "n")
		args = append(args, "-n", strconv.Itoa(n))
	}
	all := false
	if !del && rapid.Bool().Draw(t, "all") || del && (list || export) {
		all = true
		args = append(args, "--all")
	}
	file := filepath.Join(s.dir, fmt.Sprintf("more%d", number))
	if list {
		args = append(args, "-l")
	}
	if export {
		args = append(args, "-E", file)
	}
	_ = all // without other options all are selected as well
	t0 := time.Now()
	r := s.run(t, "", args...)
	s.ok(t, r)
	after := s.now(t)
	left := keysMatching(before.Keys, false, gone)
	if len(after.Keys) != len(left)+n {
		t.Fatalf("krypto431 %s on %d keys (%d to delete): %d keys are left", r.args, len(before.Keys), len(before.Keys)-len(left), len(after.Keys))
	}
	sameKeys(t, after.Keys[:len(left)], left, "krypto431 "+r.args)
	mid := before
	mid.Keys = after.Keys[:len(left)]
	s.newKeys(t, mid, after, n, nil, nil, before, t0, r)
	if list {
		listing(t, s, after, r, []string{"ID", "KEEPERS", "CREATED", "EXPIRES", "USED", "COMPROMISED", "COMMENT"}, keyCells(after.Keys))
	}
	if export {
		e, err := opened(file, s.pfk)
		must(t, err, "krypto431 "+r.args+": opening the export")
		if d := kit.Diff(kit.SnapStore(e).Keys, after.Keys); d != "" {
			t.Fatalf("krypto431 %s exports other keys: %s", r.args, d)
		}
	}
	after.Keys = before.Keys
	if d := kit.Diff(after, before); d != "" {
		t.Fatalf("krypto431 %s changed more: %s", r.args, d)
	}
}

// severalMessages draws a command which deletes, receives and lists.
func (s *shop) severalMessages(t *rapid.T, before kit.Snap, name string) {
	for _, c := range before.CallSign {
		if c > 127 {
			return
		}
	}
	var gone []string
	args := []string{name, "-n"}
	if rapid.IntRange(0, 2).Draw(t, "doDelete") > 0 {
		gone = pickSome(t, msgIds(before.Msgs), "QQQQQ")
		args = append(append(args, "-d", "-y"), listOption(t, []string{"-i", "--id"}, gone, false, "id")...)
	}
	r := s.run(t, before.CallSign+" DE ZZ9ZA = 1) RECEIVED = K", args...)
	s.ok(t, r)
	after := s.now(t)
	var left []kit.MsgSnap
	for _, m := range before.Msgs {
		if !contains(gone, m.Id) {
			left = append(left, m)
		}
	}
	if n := len(after.Msgs); n != len(left)+1 || after.Msgs[n-1].PlainText != "1) RECEIVED" || after.Msgs[n-1].From != "ZZ9ZA" {
		t.Fatalf("krypto431 %s: %d messages instead of %d and the new one", r.args, n, len(left))
	}
	messagesSay(t, r.out, []paperMsg{asPaperMsg(after.Msgs[len(left)])}, before.GroupSize, "krypto431 "+r.args)
	after.Msgs = after.Msgs[:len(left)]
	if d := kit.Diff(sortMsgs(after.Msgs), sortMsgs(left)); d != "" {
		t.Fatalf("krypto431 %s: %s", r.args, d)
	}
	after.Msgs = before.Msgs
	if d := kit.Diff(after, before); d != "" {
		t.Fatalf("krypto431 %s changed more: %s", r.args, d)
	}
}

// doImport draws an import from a file of another station, whose password is
// asked for.
func (s *shop) doImport(t *rapid.T, before kit.Snap, number int, name string) {
	file := filepath.Join(s.dir, fmt.Sprintf("theirs%d", number))
	exporter := rapid.SampledFrom([]string{"QJ", "VJ", "ZZ9ZA"}).Filter(func(c string) bool { return c != before.CallSign }).Draw(t, "exporter")
	o := kit.Station(kit.Geometry{G: rapid.SampledFrom([]int{before.GroupSize, before.GroupSize, before.GroupSize, 5}).Draw(t, "theirGroupSize"), K: 25}, exporter, krypto431.WithPersistence(file), krypto431.WithPFKString(keyOf(t, aPassword, krypto431.DefaultSalt)))
	for i := rapid.IntRange(0, 4).Draw(t, "theirKeys"); i > 0; i-- {
		must(t, o.GenerateKeys(1, nil), "generating")
		x := &o.Keys[len(o.Keys)-1]
		x.AddKeeper(kit.Runes(rapid.Permutation([]string{"QJ", "VJ", "BA", before.CallSign}).Draw(t, "keepers")[:rapid.IntRange(0, 3).Draw(t, "keeperCount")]...)...)
		x.Used = rapid.IntRange(0, 2).Draw(t, "isUsed") == 0
		x.Compromised = rapid.IntRange(0, 3).Draw(t, "isCompromised") == 0
		if rapid.IntRange(0, 2).Draw(t, "near") == 0 {
			x.Expires.Time = time.Now().Add(time.Duration(rapid.SampledFrom([]int{-24, -1, 1, 23, 25}).Draw(t, "expiryHours")) * time.Hour)
		}
		if len(before.Keys) > 0 && rapid.IntRange(0, 2).Draw(t, "sameId") == 0 {
			id := before.Keys[rapid.IntRange(0, len(before.Keys)-1).Draw(t, "like")].Id
			if findKey(kit.SnapKeys(o), id) == nil {
				x.Id = []rune(id)
			}
		}
	}
	must(t, o.Save(), "saving the other file")
	theirs := kit.SnapStore(o)
	o.Close()
	sel, match := keySelection(t, theirs.Keys)
	wrong := rapid.IntRange(0, 4).Draw(t, "wrongPassword") == 0
	password := aPassword
	if wrong {
		password = "another " + aPassword
	}
	now := time.Now()
	want, certain := selected(theirs.Keys, match, now, now.Add(time.Minute))
	if !certain {
		return
	}
	// the store must not be opened by variables meant for the other file
	access, env := s.access, s.env
	dialogs := []kit.Dialog{{Ask: "Enter decryption key", Answer: password + "\r"}}
	replaced := map[string]bool{}
	asked := 0
	if !wrong {
		for _, k := range want {
			if len(k.Id) == before.GroupSize && findKey(before.Keys, k.Id) != nil {
				answer := rapid.SampledFrom([]string{"y", "n"}).Draw(t, "replace")
				replaced[k.Id] = answer == "y"
				asked++
				dialogs = append(dialogs, kit.Dialog{Ask: "Key ID " + k.Id + " already exist", Answer: answer + "\r", Queries: 2})
			}
		}
	}
	r, x := s.talk(t, dialogs, append([]string{name, rapid.SampledFrom([]string{"-I", "--import"}).Draw(t, "option"), file}, sel...)...)
	s.access, s.env = access, env
	if wrong {
		if r.exit == 0 {
			t.Fatalf("krypto431 %s succeeds with a wrong password: %s", r.args, x.Screen)
		}
		s.same(t, before, r)
		return
	}
	s.ok(t, r)
	if x.Answered != 1+asked {
		t.Fatalf("krypto431 %s asked %d of %d questions: %s", r.args, x.Answered, 1+asked, x.Screen)
	}
	expect := map[string]kit.KeySnap{}
	for _, k := range before.Keys {
		expect[k.Id] = keepersAsSet(k)
	}
	for _, k := range want {
		if len(k.Id) != before.GroupSize {
			continue
		}
		if old, ok := expect[k.Id]; ok && !replaced[k.Id] {
			_ = old
			continue
		}
		expect[k.Id] = importedKey(k, before.CallSign, exporter)
	}
	after := s.now(t)
	got := byId(t, after.Keys, "krypto431 "+r.args)
	for id, k := range got {
		got[id] = keepersAsSet(k)
	}
	if d := kit.Diff(sortMap(got), sortMap(expect)); d != "" {
		t.Fatalf("krypto431 %s of %v into %v: %s", r.args, keysIds(theirs.Keys), keysIds(before.Keys), d)
	}
	after.Keys = before.Keys
	if d := kit.Diff(after, before); d != "" {
		t.Fatalf("krypto431 %s changed more: %s", r.args, d)
	}
}

func sortMap(m map[string]kit.KeySnap) (ks []kit.KeySnap) {
	for _, k := range m {
		ks = append(ks, k)
	}
	return sortKeys(ks)
}

// failure draws a command which can not succeed.
func (s *shop) failure(t *rapid.T, before kit.Snap, name, mname string) string {
	kind := rapid.SampledFrom([]string{"wrong key", "bad key", "wrong password", "bad salt", "missing store", "unknown option", "bad number", "bad expiry", "bad type", "no directory",
		"import missing", "import damaged", "empty output", "empty export", "empty import", "both keys", "bad radiogram", "no keys for it", "export to directory", "output to directory", "bad valid", "init without call", "no text"}).Draw(t, "failure")
	access := s.access
	defer func() { s.access = access }()
	task := [][]string{{name, "-n", "2"}, {name, "-l"}, {name, "-d", "-y", "-i", "QQQQQ"}, {mname, "-l"}, {name, "-o", filepath.Join(s.dir, "not.txt")}, {name, "-E", filepath.Join(s.dir, "not")}, {mname, "-n"}}
	args := task[rapid.IntRange(0, len(task)-1).Draw(t, "task")]
	stdin := "DE " + before.CallSign + " = HELLO THERE = K"
	file := []string{"-f", s.file}
	env := s.env
	clean := cliEnv(s.dir)
	with := func(access ...string) ran {
		s.log = append(s.log, "("+kind+") "+strings.Join(args, " "))
		return toolRun(t, s.dir, clean, stdin, append(append(append([]string{}, access...), file...), args...)...)
	}
	var r ran
	switch kind {
	case "wrong key":
		r = with("-K", otherPFK)
	case "bad key":
		r = with("-K", rapid.SampledFrom([]string{"", "00", thePFK + "00", thePFK[1:], "x" + thePFK[1:], "password"}).Draw(t, "badKey"))
	case "wrong password":
		r = with("-P", "not "+aPassword)
	case "bad salt":
		r = with("-K", s.pfk, "-S", rapid.SampledFrom([]string{"", "00", "zz" + aSalt[2:], aSalt[2:]}).Draw(t, "badSalt"))
	case "both keys":
		r = with("-K", s.pfk, "-P", aPassword)
	case "missing store":
		file = []string{"-f", filepath.Join(s.dir, "nothing")}
		r = with("-K", s.pfk)
		if _, err := os.Lstat(filepath.Join(s.dir, "nothing")); err == nil {
			t.Fatalf("krypto431 %s made a store", r.args)
		}
	case "unknown option":
		args = append(args, "--everything")
		r = with("-K", s.pfk)
	case "bad number":
		args = []string{name, "-n", rapid.SampledFrom([]string{"abc", "", "1.5", "99999999999999999999"}).Draw(t, "badNumber")}
		r = with("-K", s.pfk)
	case "bad valid":
		args = []string{name, "-l", "--valid", rapid.SampledFrom([]string{"abc", "", "1.5"}).Draw(t, "badNumber")}
		r = with("-K", s.pfk)
	case "bad expiry":
		args = []string{name, "-n", "2", "-x", drawBadGroup(t, "expire").text}
		r = with("-K", s.pfk)
	case "bad type":
		args = []string{rapid.SampledFrom([]string{name, mname}).Draw(t, "of"), "-o", filepath.Join(s.dir, "not.txt"), "--type", rapid.SampledFrom([]string{"html", "", "ps"}).Draw(t, "badType")}
		r = with("-K", s.pfk)
	case "no directory":
		if len(before.Keys) == 0 {
			return "nothing to print"
		}
		args = []string{name, rapid.SampledFrom([]string{"-o", "-E"}).Draw(t, "of"), filepath.Join(s.dir, "none", rapid.SampledFrom([]string{"x.txt", "x.pdf"}).Draw(t, "to"))}
		r = with("-K", s.pfk)
	case "export to directory", "output to directory":
		if len(before.Keys) == 0 {
			return "nothing to print"
		}
		d := filepath.Join(s.dir, "directory.txt")
		os.Mkdir(d, 0700)
		args = []string{name, "-o", d}
		if kind == "export to directory" {
			args = []string{name, "-E", d, "-y"}
		}
		r = with("-K", s.pfk)
	case "import missing", "import damaged":
		f := filepath.Join(s.dir, "absent")
		if kind == "import damaged" {
			f = filepath.Join(s.dir, "damaged")
			os.WriteFile(f, []byte(manyLetters(t, 300)), 0600)
		}
		args = []string{name, "-I", f}
		r = with("-K", s.pfk)
	case "empty output", "empty export", "empty import":
		o := map[string]string{"empty output": "-o", "empty export": "-E", "empty import": "-I"}[kind]
		args = []string{name, o, ""}
		r = with("-K", s.pfk)
	case "bad radiogram":
		args = []string{mname, "-n"}
		stdin = rapid.SampledFrom([]string{"", "HELLO", "DE", "QJ DE = ", "\n\n", "="}).Draw(t, "badRadiogram")
		r = with("-K", s.pfk)
	case "no keys for it":
		args = []string{mname, "-n"}
		stdin = "NOBODY1 DE " + before.CallSign + " = HELLO THERE = K"
		for _, c := range before.CallSign {
			if c > 127 {
				return "no ASCII call-sign"
			}
		}
		r = with("-K", s.pfk)
	case "no text":
		args = []string{mname, "-n"}
		for _, c := range before.CallSign {
			if c > 127 {
				return "no ASCII call-sign"
			}
		}
		stdin = "DE " + before.CallSign + " = ¤¤¤¤¤¤ = K"
		r = with("-K", s.pfk)
	case "init without call":
		args = []string{"init", "-y", "-n", "3"}
		r = with("-K", s.pfk)
	}
	s.env = env
	s.fails(t, before, r)
	if r.out != "" && strings.Contains(r.out, "=CIPHER=") {
		t.Fatalf("krypto431 %s failed, but printed a message: %s", r.args, r.out)
	}
	return kind
}

// blocked draws a command whose result can not be written.
func (s *shop) blocked(t *rapid.T, before kit.Snap, name, mname string, number int) string {
	kind := rapid.SampledFrom([]string{"generate", "delete", "delete messages", "receive", "import", "import", "initialise", "export", "export over", "print", "print messages", "two tasks", "full print", "full print", "full print messages", "full export"}).Draw(t, "blockedCommand")
	stdin := ""
	var args []string
	var dialogs []kit.Dialog
	target := filepath.Join(s.dir, fmt.Sprintf("blocked%d", number))
	old := ""
	gone := func() []string { // at least one which is there
		return listOption(t, []string{"-i", "--id"}, append([]string{before.Keys[rapid.IntRange(0, len(before.Keys)-1).Draw(t, "which")].Id}, "QQQQQQQQQ"), true, "id")
	}
	switch kind {
	case "generate":
		args = []string{name, "-n", "2"}
	case "delete", "two tasks":
		if len(before.Keys) == 0 {
			return "blocked: no keys"
		}
		args = append([]string{name, "-d", "-y"}, gone()...)
		if kind == "two tasks" {
			args = append(args, "-n", "1")
		}
	case "delete messages":
		if len(before.Msgs) == 0 {
			return "blocked: no messages"
		}
		args = []string{mname, "-d", "-y", "-i", before.Msgs[rapid.IntRange(0, len(before.Msgs)-1).Draw(t, "which")].Id}
	case "receive":
		for _, c := range before.CallSign {
			if c > 127 {
				return "blocked: no ASCII call-sign"
			}
		}
		args = []string{mname, "-n"}
		stdin = "SA6MWA DE QJ 012345ZJAN23 = " + rapid.SampledFrom([]string{"QQQQQ QQQQQ QQQQQ", "ABCDE FGHIJ"}).Draw(t, "unreadable") + " = K"
	case "import":
		theirs := filepath.Join(s.dir, fmt.Sprintf("theirs%d", number))
		o := kit.Station(kit.Geometry{G: before.GroupSize, K: 25}, "QJ", krypto431.WithPersistence(theirs), krypto431.WithPFKString(keyOf(t, aPassword, krypto431.DefaultSalt)))
		for {
			must(t, o.GenerateKeys(1, nil), "generating")
			if findKey(before.Keys, string(o.Keys[len(o.Keys)-1].Id)) == nil {
				break
			}
			o.Keys = o.Keys[:0]
		}
		must(t, o.Save(), "saving the other file")
		o.Close()
		args = []string{name, "-I", theirs}
		dialogs = []kit.Dialog{{Ask: "Enter decryption key", Answer: aPassword + "\r"}}
	case "initialise":
		args = []string{"init", "-y", "-c", "NEW", "-n", strconv.Itoa(rapid.IntRange(0, 2).Draw(t, "n"))}
	case "export", "export over":
		if len(before.Keys) == 0 {
			return "blocked: no keys"
		}
		args = []string{name, "-E", target}
		if kind == "export over" {
			args = append(args, "-y")
			old = "an older export"
		}
	case "print", "print messages":
		if kind == "print" && len(before.Keys) == 0 || kind == "print messages" && len(before.Msgs) == 0 {
			return "blocked: nothing to print"
		}
		target += rapid.SampledFrom([]string{".txt", ".pdf"}).Draw(t, "extension")
		args = []string{map[string]string{"print": name, "print messages": mname}[kind], "-o", target}
		if rapid.Bool().Draw(t, "over") {
			old = "an older print"
		}
	}
	if strings.HasPrefix(kind, "full ") { // the disk is
		if os.Getuid() == 0 {
			return "blocked: not as root"
		}
		if kind == "full print messages" && len(before.Msgs) == 0 || kind != "full print messages" && len(before.Keys) == 0 {
			return "blocked: nothing to print"
		}
		target += rapid.SampledFrom([]string{".txt", ".pdf"}).Draw(t, "extension")
		must(t, os.Symlink("/dev/full", target), "Symlink")
		args = map[string][]string{"full print": {name, "-o", target}, "full print messages": {mname, "-o", target}, "full export": {name, "-E", target, "-y"}}[kind]
		s.fails(t, before, s.run(t, "", args...))
		return "blocked: " + kind
	}
	if old != "" {
		must(t, os.WriteFile(target, []byte(old), 0400), "WriteFile")
	}
	info, err := os.Stat(s.file)
	must(t, err, "Stat")
	must(t, os.Chmod(s.file, 0400), "Chmod")
	must(t, os.Chmod(s.dir, 0500), "Chmod")
	var r ran
	func() {
		defer func() {
			os.Chmod(s.dir, 0700)
			os.Chmod(s.file, info.Mode().Perm())
		}()
		if os.WriteFile(filepath.Join(s.dir, "probe"), nil, 0600) == nil {
			panic("HARNESS ERROR: a read-only directory can be written")
		}
		if dialogs != nil {
			r, _ = s.talk(t, dialogs, args...)
		} else {
			r = s.run(t, stdin, args...)
		}
	}()
	s.fails(t, before, r)
	if data, there := readFile(target); there != (old != "") || data != old {
		t.Fatalf("krypto431 %s in a directory which can not be written: wrote %q", r.args, data)
	}
	return "blocked: " + kind
}

// converse initialises a store by answering questions.
func (s *shop) converse(t *rapid.T) bool {
	var dialogs []kit.Dialog
	want := kit.Snap{CallSign: "SA6MWA", GroupSize: krypto431.DefaultGroupSize, KeyLength: krypto431.DefaultKeyLength, Columns: krypto431.DefaultColumns, KeyColumns: krypto431.DefaultKeyColumns}
	ask := func(prompt, answer string) {
		dialogs = append(dialogs, kit.Dialog{Ask: prompt, Answer: answer + "\r", Queries: 2})
	}
	ask("call-sign", rapid.SampledFrom([]string{"SA6MWA", "sa6mwa"}).Draw(t, "call"))
	n := rapid.IntRange(0, 3).Draw(t, "n")
	ask("number", strings.TrimSpace(rapid.SampledFrom([]string{"%d", " %d"}).Draw(t, "form")[0:0]+strconv.Itoa(n)))
	keepers := rapid.Permutation([]string{"QJ", "VJ", "BA", "SA6MWA"}).Draw(t, "keepers")[:rapid.IntRange(0, 3).Draw(t, "keeperCount")]
	ask("keepers", kit.MixCase(t, strings.Join(keepers, rapid.SampledFrom([]string{",", " ", ", "}).Draw(t, "sep")), "keepers"))
	x := drawGroup(t, "expire")
	expire := &x
	valid := true
	switch rapid.IntRange(0, 3).Draw(t, "expiry") {
	case 0:
		expire = nil
		ask("expiry", "")
	case 1:
		ask("expiry", "NODATE")
		valid = n == 0
		x.valid = false
	default:
		ask("expiry", x.text)
	}
	if rapid.Bool().Draw(t, "ownLength") {
		want.KeyLength = rapid.IntRange(20, 120).Draw(t, "length")
		ask("length", "\x15"+strings.Repeat("\x7f", 4)+strconv.Itoa(want.KeyLength))
	} else {
		ask("length", "")
	}
	if rapid.Bool().Draw(t, "ownGroup") {
		want.GroupSize = rapid.IntRange(2, 8).Draw(t, "groupSize")
		ask("group size", strconv.Itoa(want.GroupSize))
	} else {
		ask("group size", "")
	}
	t0 := time.Now()
	r, talked := s.talk(t, dialogs, "init")
	if talked.Answered != len(dialogs) {
		t.Fatalf("krypto431 init asked %d of %d questions: %s", talked.Answered, len(dialogs), talked.Screen)
	}
	if !valid {
		if _, err := os.Lstat(s.file); r.exit == 0 || err == nil {
			t.Fatalf("krypto431 init with an invalid expiry: exit status %d, a store is there: %v", r.exit, err == nil)
		}
		return false
	}
	s.ok(t, r)
	got := s.now(t)
	s.newKeys(t, kit.Snap{}, got, n, expire, without(keepers, "SA6MWA"), want, t0, r)
	got.Keys = nil
	if d := kit.Diff(got, want); d != "" {
		t.Fatalf("krypto431 init on a terminal (%+v) makes a store which differs: %s", dialogs, d)
	}
	return true
}

func TestC22(t *testing.T) {
	kit.Rule("histories of commands of the built tool over a store opened by key, password, salt or variables: initialise, generate, delete, choose, list, print, export, import, send, receive, several tasks at once and failing commands, with generated options in every spelling, on a pipe and on a terminal, mixed with generated content (used, compromised, commented keys, expiries around the limits asked for); after every command the store on disk, the output and the exit status are compared with what a model makes of the store before; non-trivial = some but not all items are selected at least once, and a message was sent or keys were deleted or imported")
	kit.Check(t, "histories", 900, 24000, func(t *rapid.T) {
		dir, done := scratch("c22")
		defer done()
		s := openShop(t, dir)
		kinds := map[string]int{}
		exists := false
		for i := 0; !exists && i < 4; i++ {
			if rapid.IntRange(0, 11).Draw(t, "converse") == 0 {
				exists = s.converse(t)
				kinds["initialise by answers"]++
			} else {
				exists = s.initialise(t, false, false)
			}
			kinds["initialise"]++
		}
		if !exists {
			kit.Case(false, s.history(), "no store")
			return
		}
		if rapid.IntRange(0, 3).Draw(t, "filled") > 0 {
			s.fill(t)
		}
		for i := rapid.IntRange(4, 14).Draw(t, "commands"); i > 0; i-- {
			kinds[s.one(t, i)]++
		}
		partly, changed := false, false
		labels := []string{"access: " + s.how}
		for k := range kinds {
			labels = append(labels, k)
			partly = partly || strings.HasSuffix(k, " some")
			changed = changed || k == "send" || k == "delete" || k == "import" || k == "receive cipher"
		}
		kit.Case(partly && changed, s.history(), labels...)
	})
}
