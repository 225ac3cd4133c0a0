package checks

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

var umasks = []int{0, 0, 0, 022, 002, 077, 0777, 0177, 0200, 07, 0133}

// modes lists files below dir and which are open to others than their owner.
func modes(dir string) (files map[string]fs.FileMode, open []string) {
	files = map[string]fs.FileMode{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		i, err := os.Lstat(p)
		if err != nil || i.Mode()&fs.ModeSymlink != 0 {
			return nil
		}
		files[p] = i.Mode()
		if i.Mode().Perm()&077 != 0 {
			open = append(open, fmt.Sprintf("%s %v", p, i.Mode()))
		}
		return nil
	})
	return
}

func fileName(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"store", "keys.txt", "keys.pdf", "a.TXT", "b.PDF", "c.krypto431", ".hidden", "no ext", "åäö.txt", "x.txt.pdf", "-dash", "krypto431", "messages", "public.html", "x~", "a.b.c", "tmp.bak", "x.gz", strings.Repeat("n", 120) + ".txt"}).Draw(t, label)
}

// writeOp makes a file with the library.
type writeOp struct {
	Op, File string
	Umask    int
	Seed     uint64
	Keys     int
	Messages int
	Limit    int64 // of the file size, -1: none
	Link     bool
	// what the content is like
	Group, Length int
	Call          string
	Keepers       string
	Text          int // length
	Cipher        bool
	Used          bool
}

var writeOps = []string{"save", "save", "save again", "export", "keys text", "messages text", "keys pdf", "messages pdf"}

func (w writeOp) store(dir string) *krypto431.Krypto431 {
	kit.Entropy(w.Seed)
	k := fileStation(kit.Geometry{G: w.Group, K: w.Length}, w.Call, filepath.Join(dir, w.File))
	if w.Keys > 0 {
		k.GenerateKeys(w.Keys, nil, w.Keepers)
	}
	for i := range k.Keys {
		k.Keys[i].Used = w.Used
		k.Keys[i].Compromised = w.Used && i%2 == 0
		k.Keys[i].Comment = []rune(strings.Repeat("C", w.Text%9))
	}
	for i := 0; i < w.Messages; i++ {
		m := kit.Msg(k, strings.Repeat("TEXT OF A MESSAGE ", 1+w.Text/18)[:w.Text], w.Keepers)
		if w.Cipher {
			m.KeyId = []rune(strings.Repeat("K", w.Group))
			m.CipherText = []rune(strings.Repeat("ABCDEFGHIJKLM", 1+w.Text/13)[:(w.Text/w.Group)*w.Group])
		}
		m.Id = krypto431.RandomAlnumRunes(4)
		m.DTG.Time = time.Unix(1700000000, 0).UTC()
		k.Messages = append(k.Messages, *m)
	}
	return k
}

// run carries it out in dir.
func (w writeOp) run(dir string) (err error) {
	k := w.store(dir)
	file := filepath.Join(dir, w.File)
	if w.Link {
		os.Symlink(filepath.Join(dir, "target of link"), file)
	}
	old := syscall.Umask(w.Umask)
	defer syscall.Umask(old)
	do := func() {
		switch w.Op {
		case "save":
			err = k.Save()
		case "save again":
			if err = k.Save(); err == nil {
				if err = k.Load(); err == nil {
					k.GenerateKeys(1, nil)
					err = k.Save()
				}
			}
		case "export":
			e := k.ExportKeys(kit.All, krypto431.WithPersistence(file))
			err = e.Save()
		case "keys text":
			err = k.KeysTextFile(kit.All, file)
		case "messages text":
			err = k.MessagesTextFile(kit.AllMsgs, file)
		case "keys pdf":
			err = k.KeysPDF(kit.All, file)
		case "messages pdf":
			err = k.MessagesPDF(kit.AllMsgs, file)
		}
	}
	if w.Limit >= 0 {
		fileLimit(w.Limit, do)
	} else {
		do()
	}
	return err
}

const c13env = "VERIF_C13_CHILD"

func init() {
	s := os.Getenv(c13env)
	if s == "" {
		return
	}
	var w writeOp
	if json.Unmarshal([]byte(s), &w) != nil {
		os.Exit(9)
	}
	if err := w.run(os.Getenv("VERIF_C13_DIR")); err != nil {
		fmt.Println("FAILED", err)
		os.Exit(4)
	}
	os.Exit(0)
}

func TestC13(t *testing.T) {
	kit.Rule("every operation of the library and the tool that writes a file (saves, repeated saves, exports, key and message print-outs as text and PDF) under generated umasks, names, extensions and contents, also when writing fails part-way and through dangling links; the mode of every file it made is checked afterwards and, in supervised processes, at every system call in between; non-trivial = a file was made under a umask that leaves others access")
	drawOp := func(t *rapid.T, limit bool) writeOp {
		w := writeOp{Op: rapid.SampledFrom(writeOps).Draw(t, "op"), File: fileName(t, "file"), Umask: rapid.SampledFrom(umasks).Draw(t, "umask"), Seed: kit.Seed(t),
			Keys: rapid.IntRange(0, 5).Draw(t, "keys"), Messages: rapid.IntRange(0, 3).Draw(t, "messages"), Limit: -1, Link: rapid.IntRange(0, 7).Draw(t, "link") == 0}
		w.Group, w.Length = rapid.IntRange(2, 7).Draw(t, "group"), rapid.IntRange(20, 60).Draw(t, "length")
		w.Call = rapid.SampledFrom([]string{"SA6MWA", "QJ", "SA6MWA/P", "VERYLONGCALLSIGN"}).Draw(t, "call")
		w.Keepers = rapid.SampledFrom([]string{"", "QJ", "QJ", "QJ VJ", "SM5AA,SM5BB,SM5CC,SM5DD"}).Draw(t, "keepers")
		w.Text, w.Cipher, w.Used = rapid.IntRange(1, 80).Draw(t, "text"), rapid.Bool().Draw(t, "cipher"), rapid.Bool().Draw(t, "used")
		if rapid.IntRange(0, 24).Draw(t, "large") == 0 { // as anything may depend on how much there is to write
			w.Keys, w.Messages, w.Length = 1<<rapid.IntRange(0, 7).Draw(t, "largeKeys"), 1<<rapid.IntRange(0, 5).Draw(t, "largeMessages"), 20+1<<rapid.IntRange(0, 10).Draw(t, "largeLength")
			w.Text = 1 << rapid.IntRange(0, 12).Draw(t, "largeText")
		}
		if limit && rapid.IntRange(0, 3).Draw(t, "limited") == 0 {
			w.Limit = int64(rapid.IntRange(0, 2500).Draw(t, "limit"))
		}
		if w.Umask&0600 != 0 && os.Getuid() != 0 {
			w.Umask &^= 0600
		}
		return w
	}
	report := func(w writeOp) string {
		return fmt.Sprintf("%s to %q with umask %04o (%d keys of %d letters, %d messages of %d characters, limit %d, link %v, call %s, keepers %q)", w.Op, w.File, w.Umask, w.Keys, w.Length, w.Messages, w.Text, w.Limit, w.Link, w.Call, w.Keepers)
	}
	check := func(t rapid.TB, dir, what string) map[string]fs.FileMode {
		t.Helper()
		files, open := modes(dir)
		if len(open) > 0 {
			t.Fatalf("%s made files open to others: %v", what, open)
		}
		return files
	}
	kit.Check(t, "library", 14400, 60000, func(t *rapid.T) {
		dir, done := scratch("c13")
		defer done()
		w := drawOp(t, true)
		var err error
		noPanic(t, report(w), func() { err = w.run(dir) })
		files := check(t, dir, report(w))
		empty := (w.Op == "keys text" || w.Op == "keys pdf") && w.Keys == 0 || (w.Op == "messages text" || w.Op == "messages pdf") && w.Messages == 0
		if !empty && w.Limit < 0 {
			must(t, err, report(w))
			if len(files) == 0 {
				t.Fatalf("%s made no file", report(w))
			}
		}
		kit.Case(len(files) > 0 && w.Umask&077 != 077, report(w)+fmt.Sprintf(" seed %x", w.Seed), w.Op, map[bool]string{true: "failed part-way"}[err != nil && !empty], fmt.Sprintf("umask %04o", w.Umask))
	})
	self, err := os.Executable()
	must(t, err, "Executable")
	kit.Check(t, "meanwhile", 1280, 5000, func(t *rapid.T) {
		dir, done := scratch("c13")
		defer done()
		w := drawOp(t, false)
		b, _ := json.Marshal(w)
		var bad string
		ops := 0
		out, err := kit.Guard([]string{self}, append(cliEnv(dir), c13env+"="+string(b), "VERIF_C13_DIR="+dir), nil, dir, func(i int, op kit.Op) kit.Action {
			ops++
			if _, open := modes(dir); len(open) > 0 && bad == "" {
				bad = fmt.Sprintf("before operation %d (%s): %v", i, op, open)
			}
			return kit.Action{}
		})
		if err != nil {
			t.Fatalf("HARNESS ERROR: %v", err)
		}
		if bad != "" {
			t.Fatalf("%s: files open to others %s", report(w), bad)
		}
		files := check(t, dir, report(w))
		if strings.Contains(string(out.Stderr), "panic") {
			t.Fatalf("%s crashed: %s", report(w), out.Stderr)
		}
		kit.Case(len(files) > 0 && ops > 0 && w.Umask&077 != 077, "supervised: "+report(w)+fmt.Sprintf(" seed %x", w.Seed), "supervised "+w.Op)
	})
	kit.Check(t, "tool", 1120, 5000, func(t *rapid.T) {
		dir, done := scratch("c13")
		defer done()
		umask := rapid.SampledFrom([]int{0, 0, 022, 002, 077, 07}).Draw(t, "umask")
		old := syscall.Umask(umask)
		defer syscall.Umask(old)
		file := fileName(t, "store")
		if strings.HasPrefix(file, "-") {
			file = "./" + file
		}
		var ran []string
		run := func(stdin string, args ...string) {
			args = append([]string{"-f", file, "-K", thePFK}, args...)
			var bad string
			out, err := kit.Guard(append([]string{kit.CLI()}, args...), cliEnv(dir), strings.NewReader(stdin), dir, func(i int, op kit.Op) kit.Action {
				if _, open := modes(dir); len(open) > 0 && bad == "" {
					bad = fmt.Sprintf("before operation %d (%s): %v", i, op, open)
				}
				return kit.Action{}
			})
			if err != nil {
				t.Fatalf("HARNESS ERROR: %v", err)
			}
			ran = append(ran, strings.Join(args[4:], " "))
			if bad != "" {
				t.Fatalf("krypto431 %v with umask %04o: files open to others %s", args, umask, bad)
			}
			check(t, dir, fmt.Sprintf("krypto431 %v with umask %04o", args, umask))
			if out.Exit != 0 {
				t.Fatalf("krypto431 %v failed: %s", args, out.Stderr)
			}
		}
		run("", "init", "-y", "-c", "SA6MWA", "-n", "3", "-l", "40", "-k", "QJ")
		run("QJ DE SA6MWA 012345 = HELLO = K\n", "messages", "-n")
		for i := rapid.IntRange(1, 4).Draw(t, "commands"); i > 0; i-- {
			name := fmt.Sprint(i) + fileName(t, "file")
			switch rapid.IntRange(0, 4).Draw(t, "command") {
			case 0:
				run("", "keys", "-n", "2")
			case 1:
				run("", "keys", "-E", name)
			case 2:
				args := []string{"keys", "--all", "-o", name}
				if rapid.Bool().Draw(t, "typed") {
					args = append(args, "-t", rapid.SampledFrom([]string{"txt", "pdf", "text", "PDF", "TXT"}).Draw(t, "type"))
				}
				run("", args...)
			case 3:
				args := []string{"messages", "--all", "-o", name}
				if rapid.Bool().Draw(t, "typed") {
					args = append(args, "--type", rapid.SampledFrom([]string{"txt", "pdf", "text", "PDF", "TXT"}).Draw(t, "type"))
				}
				run("", args...)
			case 4:
				run("", "pfk", "-c", file, "-k", thePFK, "-y")
			}
		}
		kit.Case(umask&077 != 077, fmt.Sprintf("umask %04o, store %q: %s", umask, file, strings.Join(ran, "; ")), "tool")
	})
}
