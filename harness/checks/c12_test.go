package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

const c12env = "VERIF_C12_CHILD"

// c12child is a save in a process of its own.
type c12child struct {
	File     string
	Seed     uint64
	Load     bool // the existing store first
	Force    bool
	Keys     int
	Messages int
	Length   int
	Comment  int
	Cancel   bool // drop the loaded keys, so that the new store is smaller
}

// fill makes the new content.
func (c c12child) fill(k *krypto431.Krypto431) {
	if c.Cancel {
		k.Keys = k.Keys[:0]
		k.Messages = k.Messages[:0]
	}
	for i := 0; i < c.Keys; i++ {
		key := krypto431.Key{Id: []rune(uniqueId(i+1000, 5)), Runes: krypto431.RandomAlnumRunes(c.Length), Comment: krypto431.RandomAlnumRunes(c.Comment)}
		key.Used = i%2 == 0
		key.SetInstance(k)
		k.Keys = append(k.Keys, key)
	}
	for i := 0; i < c.Messages; i++ {
		m := kit.Msg(k, string(krypto431.RandomAlnumRunes(c.Length)), "QJ")
		m.Id = krypto431.RandomAlnumRunes(4)
		k.Messages = append(k.Messages, *m)
	}
}

func init() {
	s := os.Getenv(c12env)
	if s == "" {
		return
	}
	var c c12child
	if json.Unmarshal([]byte(s), &c) != nil {
		os.Exit(9)
	}
	kit.Entropy(c.Seed)
	k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", c.File, krypto431.WithOverwritePersistenceIfExists(c.Force))
	if c.Load {
		if err := k.Load(); err != nil {
			fmt.Println("LOAD FAILED", err)
			os.Exit(3)
		}
	}
	c.fill(k)
	b, _ := json.Marshal(kit.SnapStore(k))
	fmt.Printf("%s\n", b)
	if err := k.Save(); err != nil {
		fmt.Println("FAILED", err)
		os.Exit(4)
	}
	fmt.Println("SAVED")
	os.Exit(0)
}

// fileLimit runs f while files cannot grow beyond n bytes.
func fileLimit(n int64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic("HARNESS ERROR: " + err.Error())
	}
	now := old
	now.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &now); err != nil {
		panic("HARNESS ERROR: " + err.Error())
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// place is where a store is to be saved: what is there before.
type place struct {
	kind  string // absent, regular, symlink, relative symlink, dangling
	file  string // given as persistence
	data  string // what was there
	there bool
}

var placeKinds = []string{"absent", "regular", "regular", "symlink", "relative symlink", "subdirectory", "read-only file", "hard link"}

// makePlace prepares it with an old store.
func makePlace(t rapid.TB, dir, kind string, seed uint64, keys, length int) place {
	t.Helper()
	p := place{kind: kind, file: filepath.Join(dir, "store")}
	if kind == "absent" {
		return p
	}
	target := p.file
	switch kind {
	case "symlink", "relative symlink":
		must(t, os.MkdirAll(filepath.Join(dir, "elsewhere"), 0700), "Mkdir")
		target = filepath.Join(dir, "elsewhere", "real")
		to := target
		if kind == "relative symlink" {
			to = filepath.Join("elsewhere", "real")
		}
		must(t, os.Symlink(to, p.file), "Symlink")
	case "subdirectory":
		must(t, os.MkdirAll(filepath.Join(dir, "sub dir"), 0700), "Mkdir")
		p.file = filepath.Join(dir, "sub dir", "store")
		target = p.file
	}
	kit.Entropy(seed)
	k := fileStation(kit.Geometry{G: 5, K: 25}, "OLD", target)
	c12child{Keys: keys, Length: length, Messages: keys / 3, Comment: 3}.fill(k)
	must(t, k.Save(), "Save of the old store")
	switch kind {
	case "read-only file":
		must(t, os.Chmod(target, 0400), "Chmod")
	case "hard link":
		must(t, os.Link(target, filepath.Join(dir, "backup")), "Link")
	}
	p.data, p.there = readFile(p.file)
	if !p.there {
		panic("HARNESS ERROR: no old store")
	}
	return p
}

// oldOrNew fails unless the place holds its old content or the complete new
// store; it tells which.
func (p place) oldOrNew(t rapid.TB, what string, want func(kit.Snap) string) (isNew bool) {
	t.Helper()
	data, there := readFile(p.file)
	if there == p.there && data == p.data {
		return false
	}
	if !there {
		t.Fatalf("%s: the store is gone", what)
	}
	k, err := opened(p.file, thePFK)
	if err != nil {
		t.Fatalf("%s: the store (%d bytes, it had %d) does not open: %v", what, len(data), len(p.data), err)
	}
	if d := want(kit.SnapStore(k)); d != "" {
		t.Fatalf("%s: the store is neither the old nor the new one: %s", what, d)
	}
	return true
}

// syncTrace follows which files have data that is not yet on disk.
type syncTrace struct {
	dirty map[string]bool
	fault bool // a write, sync or close of a file was made to fail
}

func (s *syncTrace) note(op kit.Op) {
	switch op.Name {
	case "write":
		if op.Path != "stdout" {
			s.dirty[op.Path] = true
		}
	case "sync":
		if op.Path == "" {
			s.dirty = map[string]bool{}
		}
		delete(s.dirty, op.Path)
	case "open":
		if op.Flags&(syscall.O_SYNC|syscall.O_DSYNC) != 0 {
			s.dirty[op.Path+"\x00sync"] = false
		}
	case "rename":
		if s.dirty[op.Path] {
			s.dirty[op.To] = true
		}
		delete(s.dirty, op.Path)
	case "unlink":
		delete(s.dirty, op.Path)
	}
}

// faults which an operation can meet.
type fault struct {
	at     int
	kind   string // kill, error, torn kill, torn error, errors (from there on)
	errno  syscall.Errno
	permil int
}

func (f fault) String() string {
	switch f.kind {
	case "kill":
		return fmt.Sprintf("killed before operation %d", f.at)
	case "error":
		return fmt.Sprintf("operation %d fails with %q", f.at, f.errno.Error())
	case "errors":
		return fmt.Sprintf("all operations from %d fail with %q", f.at, f.errno.Error())
	case "torn kill":
		return fmt.Sprintf("killed within operation %d (%d‰)", f.at, f.permil)
	}
	return fmt.Sprintf("operation %d is done in part (%d‰), then %q", f.at, f.permil, f.errno.Error())
}

// act decides about operation i.
func (f fault) act(i int, op kit.Op, hit *kit.Op) kit.Action {
	if i < f.at || (i > f.at && f.kind != "errors" && !(f.kind == "torn error" && i == f.at+1)) {
		return kit.Action{}
	}
	if i == f.at {
		*hit = op
	}
	part := 0
	if op.Name == "write" && op.Size > 1 {
		part = 1 + f.permil*(op.Size-1)/1000
		if part >= op.Size {
			part = op.Size - 1
		}
	}
	switch f.kind {
	case "kill":
		return kit.Action{Kill: true}
	case "torn kill":
		return kit.Action{Kill: true, Torn: part}
	case "error":
		return kit.Action{Errno: f.errno}
	case "errors":
		if op.Name == "unlink" || op.Name == "close" {
			return kit.Action{}
		}
		return kit.Action{Errno: f.errno}
	case "torn error":
		if i == f.at {
			return kit.Action{Torn: part}
		}
		return kit.Action{Errno: f.errno}
	}
	return kit.Action{}
}

func drawFault(t *rapid.T, ops int) fault {
	f := fault{at: rapid.IntRange(0, ops-1).Draw(t, "at"), kind: rapid.SampledFrom([]string{"kill", "kill", "kill", "error", "error", "errors", "torn kill", "torn error"}).Draw(t, "fault")}
	f.errno = rapid.SampledFrom([]syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}).Draw(t, "errno")
	f.permil = rapid.IntRange(0, 999).Draw(t, "part")
	return f
}

func TestC12(t *testing.T) {
	kit.Rule("saves of generated stores over generated places (no file, a store, links, read-only), in processes which stop at every system call that changes files: killed there, within a write, or failing there with no space, input/output error or quota exceeded, at generated calls (thorough: all); saves with the file size limited to every number of bytes; the command-line tool likewise; several saves in a row at one place, most of them disturbed or with another save in the middle; saves over files not loaded, with overwriting enabled or not, and without a usable key; non-trivial = a fault happened or a file was in the way")
	self, err := os.Executable()
	must(t, err, "Executable")
	if _, err := kit.Guard([]string{"/bin/true"}, []string{"A=b"}, nil, kit.Scratch, func(int, kit.Op) kit.Action { return kit.Action{} }); err != nil {
		t.Fatalf("HARNESS ERROR: system calls cannot be supervised: %v", err)
	}
	kit.Check(t, "points", 840, 6000, func(t *rapid.T) {
		dir, done := scratch("c12")
		defer done()
		c := c12child{Seed: kit.Seed(t), Load: rapid.Bool().Draw(t, "load"), Keys: rapid.IntRange(0, 12).Draw(t, "keys"), Messages: rapid.IntRange(0, 3).Draw(t, "messages"),
			Length: rapid.IntRange(0, 200).Draw(t, "length"), Comment: rapid.IntRange(0, 20).Draw(t, "comment"), Cancel: rapid.Bool().Draw(t, "cancel")}
		kind := rapid.SampledFrom(placeKinds).Draw(t, "place")
		oldKeys, oldLen := rapid.IntRange(0, 20).Draw(t, "oldKeys"), rapid.IntRange(0, 200).Draw(t, "oldLength")
		if kind == "absent" {
			c.Load = false
		}
		c.Force = !c.Load
		points := 6
		run := func(n int, decide func(int, kit.Op) kit.Action) (place, *kit.Outcome, func(kit.Snap) string) {
			d := filepath.Join(dir, fmt.Sprint(n))
			must(t, os.Mkdir(d, 0700), "Mkdir")
			p := makePlace(t, d, kind, c.Seed+7, oldKeys, oldLen)
			c.File = p.file
			// what will be saved
			kit.Entropy(c.Seed)
			k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", p.file)
			if c.Load {
				must(t, k.Load(), "Load")
			}
			c.fill(k)
			snap := kit.SnapStore(k)
			b, _ := json.Marshal(c)
			out, err := kit.Guard([]string{self}, append(cliEnv(d), c12env+"="+string(b)), nil, d, decide)
			if err != nil {
				t.Fatalf("HARNESS ERROR: %v", err)
			}
			return p, out, func(got kit.Snap) string { return kit.Diff(got, snap) }
		}
		// undisturbed
		var names []string
		tr := &syncTrace{dirty: map[string]bool{}}
		var fileOps []int
		p, out, want := run(0, func(i int, op kit.Op) kit.Action {
			names = append(names, op.String())
			tr.note(op)
			if op.Path != "stdout" {
				fileOps = append(fileOps, i)
			}
			return kit.Action{}
		})
		if !strings.Contains(string(out.Stdout), "SAVED") || out.Exit != 0 {
			t.Fatalf("a save over %s (loaded: %v) failed: %s%s", kind, c.Load, out.Stdout[max(0, len(out.Stdout)-200):], out.Stderr)
		}
		if isNew := p.oldOrNew(t, "saved", want); !isNew {
			t.Fatalf("a save reported success and wrote nothing")
		}
		for f, d := range tr.dirty {
			if d && !strings.Contains(f, "\x00") {
				if _, ok := tr.dirty[f+"\x00sync"]; !ok {
					t.Fatalf("a save over %s reported success without ensuring that %s is on disk: %v", kind, filepath.Base(f), names)
				}
			}
		}
		desc := fmt.Sprintf("over %s (%d bytes, loaded %v) to %d keys and %d messages, %d operations", kind, len(p.data), c.Load, c.Keys, c.Messages, len(names))
		if len(fileOps) == 0 {
			t.Fatalf("HARNESS ERROR: no file operation seen")
		}
		for n := 1; n <= points; n++ {
			f := drawFault(t, len(fileOps))
			f.at = fileOps[f.at]
			var hit kit.Op
			p, out, want := run(n, func(i int, op kit.Op) kit.Action {
				if op.Path == "stdout" {
					return kit.Action{}
				}
				return f.act(i, op, &hit)
			})
			what := fmt.Sprintf("%s; %s: %s", desc, f, hit)
			if out.TimedOut {
				t.Fatalf("%s: the process hung", what)
			}
			saved := strings.Contains(string(out.Stdout), "\nSAVED")
			isNew := p.oldOrNew(t, what, want)
			if saved && !isNew {
				t.Fatalf("%s: the save reported success but the old store is there", what)
			}
			failing := f.kind == "error" || f.kind == "errors"
			if saved && failing && (hit.Name == "write" || hit.Name == "sync" && !isDir(hit.Path)) {
				t.Fatalf("%s: the save reported success although that failed", what)
			}
			if strings.Contains(string(out.Stderr), "panic:") {
				t.Fatalf("%s: crashed: %s", what, out.Stderr)
			}
			kit.Case(hit.Name != "", what, f.kind+" at "+hit.Name, map[bool]string{true: "new store there", false: "old store there"}[isNew], kind)
		}
	})
	kit.EnumSharded(t, "every call", func(t *testing.T, fail func(string, ...any)) {
		rep := &failT{T: t, fail: fail}
		shard, shards := kit.Shard()
		dir, done := scratch("c12")
		defer done()
		n := 0
		run := func(kind string, c c12child, f *fault) (place, *kit.Outcome, func(kit.Snap) string, []string, kit.Op) {
			n++
			d := filepath.Join(dir, fmt.Sprint(n))
			must(rep, os.Mkdir(d, 0700), "Mkdir")
			p := makePlace(rep, d, kind, 77, 9, 90)
			c.File, c.Load, c.Force = p.file, kind != "absent", kind == "absent"
			kit.Entropy(c.Seed)
			k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", p.file)
			if c.Load {
				must(rep, k.Load(), "Load")
			}
			c.fill(k)
			snap := kit.SnapStore(k)
			b, _ := json.Marshal(c)
			var names []string
			var hit kit.Op
			out, err := kit.Guard([]string{self}, append(cliEnv(d), c12env+"="+string(b)), nil, d, func(i int, op kit.Op) kit.Action {
				names = append(names, op.String())
				if op.Path == "stdout" || f == nil {
					return kit.Action{}
				}
				return f.act(i, op, &hit)
			})
			if err != nil {
				fail("HARNESS ERROR: %v", err)
			}
			return p, out, func(got kit.Snap) string { return kit.Diff(got, snap) }, names, hit
		}
		count := 0
		for _, kind := range []string{"absent", "regular", "symlink"} {
			c := c12child{Seed: 5, Keys: 5, Messages: 1, Length: 60}
			_, out, _, names, _ := run(kind, c, nil)
			if out.Exit != 0 {
				fail("a save over %s failed: %s", kind, out.Stderr)
			}
			for i := range names {
				for j, fk := range []string{"kill", "error", "torn kill"} {
					if (i*3+j)%shards != shard {
						continue
					}
					f := fault{i, fk, syscall.ENOSPC, 400}
					p, out, want, _, hit := run(kind, c, &f)
					what := fmt.Sprintf("saving over %s, %s: %s", kind, f, hit)
					isNew := p.oldOrNew(rep, what, want)
					if strings.Contains(string(out.Stdout), "\nSAVED") && !isNew {
						fail("%s: the save reported success but the old store is there", what)
					}
					kit.Case(hit.Name != "", "enumerated: "+what, "enumerated "+fk)
					count++
				}
			}
		}
		kit.AddExtra("enumerated_faults", int64(count))
	})
	kit.Check(t, "bytes", 12, 160, func(t *rapid.T) {
		// a limited file size, every number of bytes
		dir, done := scratch("c12")
		defer done()
		kind := rapid.SampledFrom(placeKinds).Draw(t, "place")
		seed := kit.Seed(t)
		c := c12child{Keys: rapid.IntRange(0, 5).Draw(t, "keys"), Messages: rapid.IntRange(0, 2).Draw(t, "messages"), Length: rapid.IntRange(0, 60).Draw(t, "length"), Cancel: rapid.Bool().Draw(t, "cancel")}
		p := makePlace(t, dir, kind, seed, 3, 40)
		kit.Entropy(seed + 1)
		mk := func() *krypto431.Krypto431 {
			k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", p.file, krypto431.WithOverwritePersistenceIfExists(true))
			if kind != "absent" {
				must(t, k.Load(), "Load")
			}
			return k
		}
		k := mk()
		c.fill(k)
		want := kit.SnapStore(k)
		diff := func(got kit.Snap) string { return kit.Diff(got, want) }
		limit, okAt := 0, -1
		step := 1
		if !kit.Thorough() {
			step = rapid.IntRange(1, 5).Draw(t, "step")
		}
		for ; limit < 100000; limit += step {
			var err error
			fileLimit(int64(limit), func() { noPanic(t, "Save", func() { err = k.Save() }) })
			what := fmt.Sprintf("saving over %s with files limited to %d bytes (%v)", kind, limit, err)
			isNew := p.oldOrNew(t, what, diff)
			kit.Case(true, fmt.Sprintf("%d keys and %d messages, %x: %s", c.Keys, c.Messages, seed, what), "limited file size")
			if err == nil {
				if !isNew {
					t.Fatalf("%s: reported success", what)
				}
				okAt = limit
				break
			}
			if kit.Diff(kit.SnapStore(k), want) != "" {
				t.Fatalf("%s: changed the instance", what)
			}
		}
		if okAt < 0 {
			t.Fatalf("saving over %s never succeeded", kind)
		}
	})
	kit.Check(t, "again", 300, 4000, func(t *rapid.T) {
		// saves one after another at the same place, most of them disturbed; what
		// they leave behind must not spoil the next one
		dir, done := scratch("c12")
		defer done()
		kind := rapid.SampledFrom(placeKinds).Draw(t, "place")
		seed := kit.Seed(t)
		p := makePlace(t, dir, kind, seed, rapid.IntRange(0, 10).Draw(t, "oldKeys"), 100)
		child := func(n int) (c c12child, want kit.Snap) {
			c = c12child{File: p.file, Seed: seed + uint64(n), Keys: rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 40)).Draw(t, "keys"), Length: rapid.IntRange(0, 200).Draw(t, "length"),
				Cancel: rapid.Bool().Draw(t, "cancel"), Load: p.there}
			c.Force = !c.Load
			kit.Entropy(c.Seed)
			k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", p.file)
			if c.Load {
				must(t, k.Load(), "Load")
			}
			c.fill(k)
			return c, kit.SnapStore(k)
		}
		start := func(c c12child, decide func(int, kit.Op) kit.Action) *kit.Outcome {
			b, _ := json.Marshal(c)
			out, err := kit.Guard([]string{self}, append(cliEnv(dir), c12env+"="+string(b)), nil, dir, decide)
			if err != nil {
				t.Fatalf("HARNESS ERROR: %v", err)
			}
			return out
		}
		var log []string
		faults := 0
		n := rapid.IntRange(2, 5).Draw(t, "saves")
		for i := 1; i <= n; i++ {
			c, want := child(i)
			f := drawFault(t, 14)
			how := rapid.SampledFrom([]string{"fault", "fault", "meanwhile", "undisturbed"}).Draw(t, "how")
			if i == n {
				how = "undisturbed"
			}
			var hit kit.Op
			var c2 c12child
			var want2 kit.Snap
			var out2 *kit.Outcome
			if how == "meanwhile" {
				c2, want2 = child(1000 + i)
				c2.Force = true
			}
			seen := -1
			out := start(c, func(j int, op kit.Op) kit.Action {
				if op.Path == "stdout" {
					return kit.Action{}
				}
				seen++
				switch how {
				case "fault":
					return f.act(seen, op, &hit)
				case "meanwhile":
					if seen == f.at {
						hit = op
						out2 = start(c2, func(int, kit.Op) kit.Action { return kit.Action{} })
					}
				}
				return kit.Action{}
			})
			what := fmt.Sprintf("%d. save over %s (%d bytes) of %d keys of %d, ", i, kind, len(p.data), c.Keys, c.Length)
			if how == "fault" {
				what += f.String() + ": " + hit.String()
			} else {
				what += how
			}
			if how == "meanwhile" {
				what += fmt.Sprintf(" another save of %d keys of %d at operation %d: %s", c2.Keys, c2.Length, f.at, hit)
			}
			log = append(log, what)
			what = strings.Join(log, "\n")
			if out.TimedOut {
				t.Fatalf("%s: the process hung", what)
			}
			saved := strings.Contains(string(out.Stdout), "\nSAVED")
			isNew := p.oldOrNew(t, what, func(got kit.Snap) string {
				d := kit.Diff(got, want)
				if d != "" && out2 != nil && kit.Diff(got, want2) == "" {
					return ""
				}
				return d
			})
			if how != "fault" && !(saved && isNew) && out2 == nil {
				t.Fatalf("%s: was not saved: %s%s", what, out.Stdout[max(0, len(out.Stdout)-200):], out.Stderr)
			}
			if saved && !isNew {
				t.Fatalf("%s: the save reported success but the old store is there", what)
			}
			p.data, p.there = readFile(p.file)
			if hit.Name != "" {
				faults++
			}
		}
		kit.Case(faults > 0, strings.Join(log, "; "), fmt.Sprintf("saves in a row: %d, disturbed: %d", n, faults))
	})
	kit.Check(t, "tool", 195, 2000, func(t *rapid.T) {
		dir, done := scratch("c12")
		defer done()
		kind := rapid.SampledFrom([]string{"regular", "regular", "symlink", "read-only file"}).Draw(t, "place")
		op := rapid.SampledFrom([]string{"generate", "delete", "export", "export over", "message", "pfk", "init over", "init", "import"}).Draw(t, "command")
		seed := kit.Seed(t)
		if op == "init" {
			kind = "absent"
		}
		prep := func(n int) (d string, p place, args []string, stdin, file string, old kit.Snap) {
			d = filepath.Join(dir, fmt.Sprint(n))
			must(t, os.Mkdir(d, 0700), "Mkdir")
			p = makePlace(t, d, kind, seed, 4, 80)
			file = p.file
			if kind != "absent" {
				// give the store keys which can be used
				k, err := opened(p.file, thePFK)
				must(t, err, "Load")
				kit.Entropy(seed + 3)
				k.SetCallSign("SA6MWA")
				k.GroupSize, k.KeyLength = 5, 80
				k.Keys = k.Keys[:0]
				generate(t, k, 3, 80, "QJ")
				must(t, k.Save(), "Save")
				p.data, p.there = readFile(p.file)
				old = stored(t, p.file)
			}
			args = []string{"-f", p.file, "-K", thePFK}
			switch op {
			case "generate":
				args = append(args, "keys", "-n", "2", "-k", "VJ")
			case "delete":
				args = append(args, "keys", "-d", "-y", "-i", old.Keys[1].Id)
			case "export", "export over":
				file = filepath.Join(d, "export")
				args = append(args, "keys", "--all", "-E", file)
				if op == "export over" {
					kit.Entropy(seed + 5)
					o := fileStation(kit.Geometry{G: 5, K: 25}, "QJ", file)
					generate(t, o, 2, 25)
					must(t, o.Save(), "Save")
					args = append(args, "-y")
				}
			case "message":
				args = append(args, "messages", "-n")
				stdin = "QJ DE SA6MWA 012345 = HELLO = K\n"
			case "pfk":
				args = append(args, "pfk", "-c", p.file, "-k", thePFK, "-y")
			case "init", "init over":
				args = append(args, "init", "-y", "-c", "NEW", "-n", "3", "-l", "40", "-k", "QJ")
			case "import":
				// no terminal for its password: fails and changes nothing
				args = append(args, "keys", "-I", filepath.Join(d, "nothing"))
			}
			if file != p.file {
				p = place{kind: op, file: file}
				p.data, p.there = readFile(file)
			}
			return
		}
		// what the command makes of the store
		want := func(old kit.Snap) func(kit.Snap) string {
			return func(got kit.Snap) string {
				w := old
				switch op {
				case "generate":
					if len(got.Keys) != len(old.Keys)+2 {
						return fmt.Sprintf("%d keys", len(got.Keys))
					}
					got.Keys = got.Keys[:len(old.Keys)]
				case "delete":
					if len(got.Keys) != len(old.Keys)-1 || findKey(got.Keys, old.Keys[1].Id) != nil {
						return fmt.Sprintf("%d keys", len(got.Keys))
					}
					w.Keys, got.Keys = nil, nil
				case "export", "export over":
					w.Msgs = nil
				case "message":
					if len(got.Msgs) != len(old.Msgs)+1 {
						return fmt.Sprintf("%d messages", len(got.Msgs))
					}
					used := 0
					for _, k := range got.Keys {
						if k.Used {
							used++
						}
					}
					if used != 1 {
						return fmt.Sprintf("%d used keys", used)
					}
					got.Msgs = got.Msgs[:len(old.Msgs)]
					w.Keys, got.Keys = nil, nil
				case "init", "init over":
					if len(got.Keys) != 3 || len(got.Msgs) != 0 || got.CallSign != "NEW" || got.KeyLength != 40 {
						return fmt.Sprintf("%d keys, %d messages, call-sign %s", len(got.Keys), len(got.Msgs), got.CallSign)
					}
					return ""
				}
				return kit.Diff(got, w)
			}
		}
		cmdline := func(args []string) []string { return append([]string{kit.CLI()}, args...) }
		var fileOps []int
		d, p, args, stdin, _, old := prep(0)
		out, err := kit.Guard(cmdline(args), cliEnv(d), strings.NewReader(stdin), d, func(i int, op kit.Op) kit.Action {
			if op.Path != "stdout" {
				fileOps = append(fileOps, i)
			}
			return kit.Action{}
		})
		if err != nil {
			t.Fatalf("HARNESS ERROR: %v", err)
		}
		if (out.Exit == 0) != (op != "import") {
			t.Fatalf("krypto431 %v ended with %d: %s", args, out.Exit, out.Stderr)
		}
		if isNew := p.oldOrNew(t, op, want(old)); isNew != (op != "import") {
			t.Fatalf("krypto431 %v wrote: %v", args, isNew)
		}
		if len(fileOps) == 0 {
			kit.Case(false, "nothing written")
			return
		}
		for n := 1; n <= 3; n++ {
			f := drawFault(t, len(fileOps))
			f.at = fileOps[f.at]
			d, p, args, stdin, _, old := prep(n)
			var hit kit.Op
			out, err := kit.Guard(cmdline(args), cliEnv(d), strings.NewReader(stdin), d, func(i int, op kit.Op) kit.Action {
				if op.Path == "stdout" {
					return kit.Action{}
				}
				return f.act(i, op, &hit)
			})
			if err != nil {
				t.Fatalf("HARNESS ERROR: %v", err)
			}
			what := fmt.Sprintf("krypto431 %s over %s, %s: %s", op, kind, f, hit)
			isNew := p.oldOrNew(t, what, want(old))
			if out.Exit == 0 && !isNew {
				t.Fatalf("%s: reported success but the old store is there", what)
			}
			kit.Case(hit.Name != "", fmt.Sprintf("%s (%x)", what, seed), "tool: "+op, f.kind+" at "+hit.Name)
		}
	})
	kit.Check(t, "refused", 3900, 60000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c12")
		defer done()
		kind := rapid.SampledFrom(placeKinds[1:]).Draw(t, "place")
		p := makePlace(t, dir, kind, kit.Seed(t), 2, 20)
		if rapid.IntRange(0, 5).Draw(t, "junk") == 0 && kind != "read-only file" {
			must(t, os.WriteFile(p.file, []byte(rapid.SampledFrom([]string{"", "not a store"}).Draw(t, "content")), 0600), "WriteFile")
			p.data, p.there = readFile(p.file)
			kind += " that is no store"
		}
		junk := strings.HasSuffix(kind, "no store")
		why := rapid.SampledFrom([]string{"fresh", "loaded another", "failed load", "export", "imported from it", "repeated", "no key", "wiped", "closed", "no key loaded", "wiped key",
			"enabled", "loaded", "interactive", "name changed back", "missing parent", "directory", "full device", "no name", "loaded another enabled", "saved as another", "home"}).Draw(t, "why")
		force := false
		other := filepath.Join(dir, "other")
		mk := func(file string, opts ...krypto431.Option) *krypto431.Krypto431 {
			k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", file, opts...)
			return k
		}
		o := mk(other)
		generate(t, o, 2, 25, "QJ")
		must(t, o.Save(), "Save")
		var k *krypto431.Krypto431
		save, refused := true, true
		switch why {
		case "fresh":
			k = mk(p.file)
			generate(t, k, 1, 25)
		case "interactive": // but there is no terminal
			k = mk(p.file, krypto431.WithInteractive(true))
		case "loaded another", "name changed back", "loaded another enabled":
			k = mk(other)
			if why == "loaded another enabled" {
				k = mk(other, krypto431.WithOverwritePersistenceIfExists(true))
				refused = false
			}
			must(t, k.Load(), "Load")
			k.SetPersistence(p.file)
			if why == "name changed back" {
				// to what it loaded: allowed
				k.SetPersistence(other)
				save = false
				must(t, k.Save(), "Save of what was loaded")
			}
		case "failed load":
			k = mk(p.file)
			if !junk {
				must(t, k.SetPFKFromString(otherPFK), "SetPFKFromString")
			}
			var err error
			noPanic(t, "Load", func() { err = k.Load() })
			if err == nil {
				t.Fatalf("a store opened with another key")
			}
			if rapid.Bool().Draw(t, "rightKey") {
				must(t, k.SetPFKFromString(thePFK), "SetPFKFromString")
			}
		case "export":
			var src *krypto431.Krypto431
			if junk {
				src = o
			} else {
				src = mk(p.file)
				must(t, src.Load(), "Load")
			}
			e := src.ExportKeys(kit.All, krypto431.WithPersistence(p.file))
			k = &e
		case "imported from it":
			k = mk(other)
			must(t, k.Load(), "Load")
			noPanic(t, "ImportKeys", func() {
				k.ImportKeys(kit.All, krypto431.WithPersistence(p.file), krypto431.WithPFKString(thePFK))
			})
			k.SetPersistence(p.file)
		case "repeated":
			// first to a new file, then to the existing one
			k = mk(filepath.Join(dir, "new"))
			must(t, k.Save(), "Save")
			k.SetPersistence(p.file)
		case "saved as another":
			if junk {
				return
			}
			k = mk(p.file)
			must(t, k.Load(), "Load")
			k.SetPersistence(other)
			before, _ := readFile(other)
			if err := k.Save(); err == nil {
				t.Fatalf("a store was saved over another one which was not loaded")
			}
			if after, _ := readFile(other); after != before {
				t.Fatalf("a refused save changed the other store")
			}
			save = false
		case "no key", "no key loaded", "wiped", "closed", "wiped key":
			force = rapid.Bool().Draw(t, "force")
			k = mk(p.file, krypto431.WithOverwritePersistenceIfExists(force))
			if !junk {
				must(t, k.Load(), "Load")
			}
			switch why {
			case "no key", "no key loaded":
				fresh := krypto431.New(kit.Opts(kit.Geometry{G: 5, K: 25}, "SA6MWA", krypto431.WithPersistence(p.file), krypto431.WithOverwritePersistenceIfExists(force))...)
				k = &fresh
				if rapid.Bool().Draw(t, "badKey") {
					krypto431.WithPFKString(rapid.SampledFrom([]string{"", "zz", thePFK[2:], thePFK + "00"}).Draw(t, "bad"))(k)
				}
			case "wiped":
				k.Wipe()
				k.SetPersistence(p.file)
			case "closed":
				k.Close()
				k.SetPersistence(p.file)
			case "wiped key":
				krypto431.WipeBytes(k.GetPFK())
			}
			generate2 := rapid.Bool().Draw(t, "withKeys")
			if generate2 && k.GroupSize > 0 {
				noPanic(t, "GenerateKeys", func() { k.GenerateKeys(1, nil) })
			}
		case "enabled":
			k = mk(p.file, krypto431.WithOverwritePersistenceIfExists(true))
			generate(t, k, 1, 25)
			refused = false
		case "loaded":
			if junk {
				return
			}
			k = mk(p.file)
			must(t, k.Load(), "Load")
			generate(t, k, 1, 25)
			refused = false
		case "home":
			if junk || kind != "regular" {
				return
			}
			rel, err := filepath.Rel(os.Getenv("HOME"), p.file)
			must(t, err, "Rel")
			k = mk("~/" + rel)
			if rapid.Bool().Draw(t, "loadedHome") {
				must(t, k.Load(), "Load")
				refused = false
			}
		case "missing parent":
			k = mk(filepath.Join(dir, "missing", "store"))
		case "directory":
			k = mk(dir, krypto431.WithOverwritePersistenceIfExists(true))
		case "full device":
			// only where nothing can be done to the device itself
			if i, err := os.Stat("/dev/full"); os.Geteuid() == 0 || err != nil || i.Mode()&os.ModeCharDevice == 0 {
				return
			}
			k = mk("/dev/full", krypto431.WithOverwritePersistenceIfExists(true))
			generate(t, k, rapid.IntRange(0, 30).Draw(t, "n"), 50)
		case "no name":
			k = mk("")
		}
		if save {
			want := kit.SnapStore(k)
			var err error
			noPanic(t, "Save", func() { err = k.Save() })
			if refused && err == nil {
				t.Fatalf("%s (%s): Save reported success", why, kind)
			}
			if !refused {
				must(t, err, "Save "+why)
				if d := kit.Diff(stored(t, p.file), want); d != "" {
					t.Fatalf("%s (%s): saved %s", why, kind, d)
				}
			}
		}
		if refused {
			if data, there := readFile(p.file); data != p.data || there != p.there {
				t.Fatalf("%s: a refused save changed the existing %s from %d to %d bytes", why, kind, len(p.data), len(data))
			}
		}
		if _, err := os.Stat(filepath.Join(dir, "missing")); err == nil {
			t.Fatalf("a directory was created")
		}
		kit.Case(why != "no name", fmt.Sprintf("%s over %s (%d bytes): refused %v", why, kind, len(p.data), refused), why)
	})
	var _ = sort.Strings
}

func isDir(p string) bool {
	i, err := os.Stat(p)
	return err == nil && i.IsDir()
}
