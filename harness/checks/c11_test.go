package checks

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unicode/utf16"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// records cuts a store file into its encrypted records (length, then nonce
// and sealed data); nil if it is not made of such.
func records(file []byte) (recs [][]byte) {
	for len(file) > 0 {
		if len(file) < 4 {
			return nil
		}
		n := int(binary.LittleEndian.Uint32(file))
		if n < 24 || n > len(file)-4 {
			return nil
		}
		recs = append(recs, file[:4+n])
		file = file[4+n:]
	}
	return
}

// splice is a damaged or composed file and what it may load as.
type splice struct {
	what string
	data []byte
}

// victim is a loading instance with data of its own.
func victim(t rapid.TB, file string) *krypto431.Krypto431 {
	v := fileStation(kit.Geometry{G: 4, K: 33}, "VICTIM", file)
	generate(t, v, 2, 33, "QJ")
	m := kit.Msg(v, "THE MESSAGE OF THE LOADING INSTANCE", "QJ")
	m.Id = []rune("vict")
	v.Messages = append(v.Messages, *m)
	return v
}

// refusedOrSame loads data into an instance holding other data: an error and
// nothing changed, or exactly one of the stores allowed.
func refusedOrSame(t rapid.TB, file, what string, data []byte, allowed ...kit.Snap) bool {
	t.Helper()
	if err := os.WriteFile(file, data, 0o600); err != nil {
		panic(err)
	}
	v := victim(t, file)
	before := kit.SnapStore(v)
	pfk, salt := v.GetPFKString(), v.GetSaltString()
	var err error
	noPanic(t, "loading a file with "+what, func() { err = v.Load() })
	if v.GetPFKString() != pfk || v.GetSaltString() != salt {
		t.Fatalf("loading a file with %s changed the storage key or salt", what)
	}
	after := kit.SnapStore(v)
	if err != nil {
		if d := kit.Diff(after, before); d != "" {
			t.Fatalf("loading a file with %s failed (%v) but changed the instance: %s", what, err, d)
		}
		return false
	}
	d := ""
	for _, a := range allowed {
		if d = kit.Diff(after, a); d == "" {
			return true
		}
	}
	t.Fatalf("loading a file with %s succeeded with something else than what was saved: %s", what, d)
	return false
}

func secretStore(t *rapid.T, file, call string, marker string) *krypto431.Krypto431 {
	k := fileStation(kit.Geometry{G: 5, K: 60}, call, file, krypto431.WithOverwritePersistenceIfExists(true))
	generate(t, k, rapid.IntRange(1, 5).Draw(t, "keys"), 60, "KEEPER1,KEEPER2")
	for i := range k.Keys {
		if rapid.Bool().Draw(t, "comment") {
			k.Keys[i].Comment = []rune("COMMENT " + marker)
		}
	}
	n := rapid.IntRange(0, 3).Draw(t, "messages")
	for i := 0; i < n; i++ {
		m := kit.Msg(k, strings.Repeat("PLAINTEXT "+marker+" ", rapid.IntRange(1, 6).Draw(t, "length")), "QJ")
		m.Id = []rune(fmt.Sprintf("id%02d", i))
		m.Radiogram = []rune("RADIOGRAM " + marker)
		m.Binary = []byte("BINARY " + marker)
		k.Messages = append(k.Messages, *m)
	}
	return k
}

// secrets are the texts that must not be found in a file.
func secrets(k *krypto431.Krypto431) (s []string) {
	for i := range k.Keys {
		r := string(k.Keys[i].Runes)
		s = append(s, r[:12], r[len(r)-12:])
	}
	for i := range k.Messages {
		s = append(s, string(k.Messages[i].Radiogram), string(k.Messages[i].Binary))
		if p := string(k.Messages[i].PlainText); len(p) > 10 {
			s = append(s, p[:10])
		}
	}
	return append(s, "KEEPER1", "PLAINTEXT", "CallSign", "Keepers", "Krypto431", string(k.CallSign)+"SECRET")
}

// conceals fails if a file shows any of the secrets, the storage key, or
// structure.
func conceals(t rapid.TB, file []byte, k *krypto431.Krypto431) {
	t.Helper()
	views := map[string][]byte{"the file": file}
	var base64ish []byte
	for _, c := range file {
		base64ish = append(base64ish, c^0x20)
	}
	views["the file with flipped case"] = base64ish
	for i := 0; i+3 <= len(file); i++ {
		if file[i] == 0x1f && file[i+1] == 0x8b && file[i+2] == 8 {
			if z, err := gzip.NewReader(bytes.NewReader(file[i:])); err == nil {
				b, _ := io.ReadAll(z)
				views[fmt.Sprintf("the compressed data at %d", i)] = b
			}
		}
	}
	if recs := records(file); recs != nil {
		// records without their head, in case they are not sealed
		var body []byte
		for _, r := range recs {
			body = append(body, r[28:]...)
		}
		for _, skip := range []int{0, 10, 16, 26} {
			if len(body) > skip {
				b, _ := io.ReadAll(io.LimitReader(flate.NewReader(bytes.NewReader(body[skip:])), 1<<20))
				views[fmt.Sprintf("the inflated records (%d)", skip)] = b
			}
		}
	}
	sec := secrets(k)
	key, _ := hex.DecodeString(k.GetPFKString())
	for name, v := range views {
		low := bytes.ToLower(v)
		for _, s := range sec {
			u := utf16.Encode([]rune(s))
			var be, le, be32 []byte
			for _, c := range u {
				be = append(be, byte(c>>8), byte(c))
				le = append(le, byte(c), byte(c>>8))
				be32 = append(be32, 0, 0, byte(c>>8), byte(c))
			}
			for _, enc := range [][]byte{[]byte(s), be, le, be32, []byte(hex.EncodeToString([]byte(s)))} {
				if bytes.Contains(low, bytes.ToLower(enc)) {
					t.Fatalf("%s shows %q", name, s)
				}
			}
		}
		if bytes.Contains(v, key) || bytes.Contains(low, []byte(k.GetPFKString())) || bytes.Contains(v, key[:16]) || bytes.Contains(v, key[16:]) {
			t.Fatalf("%s shows the storage key", name)
		}
	}
}

// grams is every run of n bytes of a file.
func grams(file []byte, n int) map[string]int {
	m := map[string]int{}
	for i := 0; i+n <= len(file); i++ {
		m[string(file[i:i+n])] = i
	}
	return m
}

// commonRun finds n bytes which both files have.
func commonRun(a, b []byte, n int) int {
	m := grams(a, n)
	for i := 0; i+n <= len(b); i++ {
		if _, ok := m[string(b[i:i+n])]; ok {
			return i
		}
	}
	return -1
}

func TestC11(t *testing.T) {
	kit.Rule("store files of generated content with damage of every kind: every bit position and every truncation point of a small store (enumerated), generated byte changes, insertions and deletions, records dropped, repeated, exchanged, reversed and replaced by records of another or an older store saved with the same key, wrong keys (each single bit, other keys, shortened); every file searched for what was stored, for the key and for repeated material within and across saves; non-trivial = the damage changed the file or the key")
	kit.EnumSharded(t, "bits", func(t *testing.T, fail func(string, ...any)) {
		shard, shards := kit.Shard()
		dir, done := scratch("c11")
		defer done()
		file := filepath.Join(dir, "store")
		kit.Entropy(11)
		k := fileStation(kit.Geometry{G: 5, K: 20}, "SA6MWA", file)
		generate(t, k, 2, 20, "QJ")
		m := kit.Msg(k, "TEXT", "QJ")
		k.Messages = append(k.Messages, *m)
		must(t, k.Save(), "Save")
		want := kit.SnapStore(k)
		data, err := os.ReadFile(file)
		must(t, err, "ReadFile")
		bad := filepath.Join(dir, "bad")
		n := 0
		rep := &failT{T: t, fail: fail}
		step := 8
		if kit.Thorough() {
			step = 1
		}
		for i := shard; i < len(data); i += shards {
			for b := i / shards % step; b < 8; b += step {
				d := append([]byte(nil), data...)
				d[i] ^= 1 << b
				refusedOrSame(rep, bad, fmt.Sprintf("bit %d of byte %d of %d flipped", b, i, len(data)), d, want)
				kit.Case(true, fmt.Sprintf("bit %d of byte %d of %d flipped", b, i, len(data)), "single bit")
				n++
			}
			if refusedOrSame(rep, bad, fmt.Sprintf("the first %d of %d bytes only", i, len(data)), data[:i], want) {
				_ = n // what was saved came out complete
			}
			kit.Case(true, fmt.Sprintf("truncated to %d of %d", i, len(data)), "truncation")
			n++
		}
		kit.AddExtra("enumerated_damages", int64(n))
		// every single-bit-wrong key
		key, _ := hex.DecodeString(thePFK)
		for i := shard; i < 256; i += shards {
			w := append([]byte(nil), key...)
			w[i/8] ^= 1 << (i % 8)
			v := victim(rep, file)
			must(t, v.SetPFKFromString(hex.EncodeToString(w)), "SetPFKFromString")
			before := kit.SnapStore(v)
			if err := v.Load(); err == nil {
				fail("a store opened with a key that differs in bit %d", i)
			}
			if d := kit.Diff(kit.SnapStore(v), before); d != "" {
				fail("a wrong key (bit %d) changed the loading instance: %s", i, d)
			}
			kit.Case(true, fmt.Sprintf("key with bit %d flipped", i), "wrong key")
		}
	})
	kit.Check(t, "damage", 18000, 250000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c11")
		defer done()
		file := filepath.Join(dir, "store")
		k := secretStore(t, file, "SA6MWA", "ALPHA")
		must(t, k.Save(), "Save")
		a, err := os.ReadFile(file)
		must(t, err, "ReadFile")
		want := []kit.Snap{kit.SnapStore(k)}
		// the other store: an older or newer version or an independent one
		var b []byte
		if rapid.Bool().Draw(t, "version") {
			k.Keys[0].Used = true
			if len(k.Messages) > 0 {
				k.Messages = k.Messages[:len(k.Messages)-1]
			}
			must(t, k.Save(), "Save")
		} else {
			o := secretStore(t, file, "QJ", "BRAVO")
			must(t, o.Save(), "Save")
			k = o
		}
		b, err = os.ReadFile(file)
		must(t, err, "ReadFile")
		other := kit.SnapStore(k)
		ra, rb := records(a), records(b)
		if ra == nil || rb == nil {
			// another format: cut it in equal parts
			cut := func(x []byte) (r [][]byte) {
				for len(x) > 0 {
					n := 64
					if n > len(x) {
						n = len(x)
					}
					r = append(r, x[:n])
					x = x[n:]
				}
				return
			}
			ra, rb = cut(a), cut(b)
		}
		pick := func(label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }
		var d []byte
		what := ""
		recs := append([][]byte(nil), ra...)
		join := func() []byte { return bytes.Join(recs, nil) }
		kind := rapid.SampledFrom([]string{"bytes", "bytes", "truncate", "append", "insert", "delete", "drop", "repeat", "exchange", "reverse", "replace", "replace", "mix", "concat", "head", "tail", "length", "empty", "rotate", "nonce"}).Draw(t, "kind")
		switch kind {
		case "bytes":
			d = append([]byte(nil), a...)
			for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
				at := pick("at", len(d))
				x := byte(rapid.IntRange(1, 255).Draw(t, "xor"))
				d[at] ^= x
				what += fmt.Sprintf("byte %d of %d changed by %#x, ", at, len(d), x)
			}
		case "truncate":
			n := pick("at", len(a))
			d, what = a[:n], fmt.Sprintf("%d of %d bytes", n, len(a))
		case "append":
			junk := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "junk")
			if rapid.Bool().Draw(t, "zeros") {
				junk = make([]byte, len(junk))
			}
			d, what = append(append([]byte(nil), a...), junk...), fmt.Sprintf("%d bytes appended", len(junk))
		case "insert":
			at := pick("at", len(a)+1)
			junk := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "junk")
			d = append(append(append([]byte(nil), a[:at]...), junk...), a[at:]...)
			what = fmt.Sprintf("%d bytes inserted at %d", len(junk), at)
		case "delete":
			at := pick("at", len(a))
			n := rapid.IntRange(1, 40).Draw(t, "n")
			if at+n > len(a) {
				n = len(a) - at
			}
			d = append(append([]byte(nil), a[:at]...), a[at+n:]...)
			what = fmt.Sprintf("%d bytes at %d removed", n, at)
		case "drop":
			i := pick("i", len(recs))
			n := rapid.IntRange(1, 2).Draw(t, "n")
			if i+n > len(recs) {
				n = 1
			}
			recs = append(recs[:i:i], recs[i+n:]...)
			d, what = join(), fmt.Sprintf("records %d-%d of %d removed", i, i+n-1, len(ra))
		case "repeat":
			i, j := pick("i", len(recs)), pick("j", len(recs)+1)
			recs = append(recs[:j:j], append([][]byte{ra[i]}, recs[j:]...)...)
			d, what = join(), fmt.Sprintf("record %d of %d repeated at %d", i, len(ra), j)
		case "exchange":
			i, j := pick("i", len(recs)), pick("j", len(recs))
			recs[i], recs[j] = recs[j], recs[i]
			d, what = join(), fmt.Sprintf("records %d and %d of %d exchanged", i, j, len(ra))
		case "reverse", "rotate":
			if kind == "reverse" {
				for i, j := 0, len(recs)-1; i < j; i, j = i+1, j-1 {
					recs[i], recs[j] = recs[j], recs[i]
				}
			} else {
				i := pick("i", len(recs))
				recs = append(append([][]byte(nil), recs[i:]...), recs[:i]...)
			}
			d, what = join(), kind+"d records"
		case "replace":
			i, j := pick("i", len(recs)), pick("j", len(rb))
			if rapid.Bool().Draw(t, "same") {
				j = i % len(rb)
			}
			recs[i] = rb[j]
			d, what = join(), fmt.Sprintf("record %d of %d replaced by record %d of another store", i, len(ra), j)
			want = append(want, other)
		case "mix":
			i, j := pick("i", len(ra)+1), pick("j", len(rb)+1)
			recs = append(append([][]byte(nil), ra[:i]...), rb[j:]...)
			d, what = join(), fmt.Sprintf("the first %d records of one store and another's from %d", i, j)
			want = append(want, other)
		case "concat":
			d, what = append(append([]byte(nil), a...), b...), "another store appended"
		case "head": // the other's records after ours
			n := rapid.IntRange(1, len(rb)).Draw(t, "n")
			d, what = append(append([]byte(nil), a...), bytes.Join(rb[:n], nil)...), fmt.Sprintf("%d records of another store appended", n)
		case "tail":
			n := rapid.IntRange(1, len(rb)).Draw(t, "n")
			d, what = append(bytes.Join(rb[:n], nil), a...), fmt.Sprintf("%d records of another store before", n)
			want = append(want, other)
		case "length":
			i := pick("i", len(recs))
			r := append([]byte(nil), recs[i]...)
			v := rapid.SampledFrom([]uint32{0, 1, 23, 24, 39, 40, 41, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "length")
			if len(r) >= 4 {
				binary.LittleEndian.PutUint32(r, v)
			}
			recs[i] = r
			d, what = join(), fmt.Sprintf("the length of record %d set to %d", i, v)
		case "empty":
			d, what = rapid.SampledFrom([][]byte{{}, make([]byte, 4), make([]byte, 100), []byte("\x1f\x8b\x08"), []byte("hello")}).Draw(t, "data"), "nothing of the store"
		case "nonce":
			i, j := pick("i", len(recs)), pick("j", len(recs))
			if len(recs[i]) > 28 && len(recs[j]) > 28 {
				r := append([]byte(nil), recs[i]...)
				copy(r[4:28], recs[j][4:28])
				recs[i] = r
			}
			d, what = join(), fmt.Sprintf("record %d with the nonce of record %d", i, j)
		}
		bad := filepath.Join(dir, "bad")
		same := bytes.Equal(d, a) || bytes.Equal(d, b)
		loaded := refusedOrSame(t, bad, what, d, want...)
		if bytes.Equal(d, a) && !loaded {
			t.Fatalf("an undamaged store did not load (%s)", what)
		}
		kit.Case(!same, fmt.Sprintf("%s: %s (stores of %d and %d bytes)", kind, what, len(a), len(b)), kind,
			map[bool]string{true: "harmless: what was saved came out"}[loaded && !same])
	})
	kit.Check(t, "keys", 5000, 60000, func(t *rapid.T) {
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c11")
		defer done()
		file := filepath.Join(dir, "store")
		k := secretStore(t, file, "SA6MWA", "ALPHA")
		key := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "key")
		must(t, k.SetPFKFromString(hex.EncodeToString(key)), "SetPFKFromString")
		must(t, k.Save(), "Save")
		want := kit.SnapStore(k)
		wrong := append([]byte(nil), key...)
		kind := rapid.SampledFrom([]string{"bits", "other", "half", "reversed", "zero", "shifted", "salt"}).Draw(t, "kind")
		switch kind {
		case "bits":
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				b := rapid.IntRange(0, 255).Draw(t, "bit")
				wrong[b/8] ^= 1 << (b % 8)
			}
		case "other":
			wrong = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "wrong")
		case "half":
			copy(wrong[16:], wrong[:16])
		case "reversed":
			for i := range wrong {
				wrong[i] = key[31-i]
			}
		case "zero":
			wrong = make([]byte, 32)
		case "shifted":
			copy(wrong, key[1:])
		case "salt":
			wrong, _ = hex.DecodeString(krypto431.DefaultSalt)
			wrong = wrong[:32]
		}
		v := victim(t, file)
		// the salt plays no part
		v.SetSaltFromString(strings.Repeat("ab", 32))
		must(t, v.SetPFKFromString(hex.EncodeToString(wrong)), "SetPFKFromString")
		before := kit.SnapStore(v)
		var err error
		noPanic(t, "Load", func() { err = v.Load() })
		if bytes.Equal(wrong, key) {
			must(t, err, "Load with the right key")
		} else {
			if err == nil {
				t.Fatalf("a store saved with key %x opened with key %x", key, wrong)
			}
			if d := kit.Diff(kit.SnapStore(v), before); d != "" {
				t.Fatalf("loading with a wrong key changed the instance: %s", d)
			}
		}
		must(t, v.SetPFKFromString(hex.EncodeToString(key)), "SetPFKFromString")
		must(t, v.Load(), "Load with the right key")
		if d := kit.Diff(kit.SnapStore(v), want); d != "" {
			t.Fatalf("loaded with the right key: %s", d)
		}
		kit.Case(!bytes.Equal(wrong, key), fmt.Sprintf("key %x opened with %x", key, wrong), "wrong key "+kind)
	})
	kit.Check(t, "conceal", 3000, 40000, func(t *rapid.T) {
		if rapid.Bool().Draw(t, "real") {
			kit.RealEntropy()
		} else {
			kit.Entropy(kit.Seed(t))
		}
		defer kit.RealEntropy()
		dir, done := scratch("c11")
		defer done()
		file := filepath.Join(dir, "store")
		k := secretStore(t, file, "SA6MWA", "ALPHA")
		if rapid.Bool().Draw(t, "empty") {
			k.Keys, k.Messages = nil, nil
		}
		var saves [][]byte
		nonces := map[string]string{}
		for i := rapid.IntRange(2, 4).Draw(t, "saves"); i > 0; i-- {
			inst := k
			if rapid.Bool().Draw(t, "reload") && len(saves) > 0 {
				r, err := opened(file, thePFK)
				must(t, err, "Load")
				inst = r
			}
			must(t, inst.Save(), "Save")
			data, err := os.ReadFile(file)
			must(t, err, "ReadFile")
			conceals(t, data, inst)
			for j, s := range saves {
				if at := commonRun(s, data, 12); at >= 0 {
					t.Fatalf("save %d repeats 12 bytes of save %d at %d of %d", len(saves), j, at, len(data))
				}
			}
			if g := grams(data, 12); len(g) != len(data)-11 {
				t.Fatalf("a file repeats 12 bytes within itself")
			}
			for j, r := range records(data) {
				n := string(r[4:28])
				if o, ok := nonces[n]; ok {
					t.Fatalf("record %d of save %d has the nonce of record %s", j, len(saves), o)
				}
				nonces[n] = fmt.Sprintf("%d of save %d", j, len(saves))
			}
			saves = append(saves, data)
		}
		kit.Case(true, fmt.Sprintf("%d saves of %d keys and %d messages, %d bytes, %d records", len(saves), len(k.Keys), len(k.Messages), len(saves[0]), len(nonces)), "identical content saved again")
	})
	kit.Check(t, "random", 48, 400, func(t *rapid.T) {
		// a large file looks random
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c11")
		defer done()
		file := filepath.Join(dir, "store")
		k := fileStation(kit.Geometry{G: 5, K: 350}, "SA6MWA", file)
		for i := 0; i < 300; i++ {
			key := krypto431.Key{Id: []rune(uniqueId(i, 5)), Runes: []rune(strings.Repeat("ABCDE", 70))}
			if rapid.Bool().Draw(t, "comment") {
				key.Comment = []rune(strings.Repeat("x", i))
			}
			k.Keys = append(k.Keys, key)
		}
		generate(t, k, 250, 350)
		must(t, k.Save(), "Save")
		data, err := os.ReadFile(file)
		must(t, err, "ReadFile")
		var body []byte
		recs := records(data)
		for _, r := range recs {
			body = append(body, r[4:]...)
		}
		if recs == nil {
			body = data
		}
		counts := make([]int, 256)
		for _, b := range body {
			counts[b]++
		}
		if x := chi(counts, len(body)); len(body) > 5000 && unlikely(x, 255) {
			t.Fatalf("the %d encrypted bytes are not uniform: chi-square %.0f", len(body), x)
		}
		var z bytes.Buffer
		w, _ := flate.NewWriter(&z, 9)
		w.Write(body)
		w.Close()
		if float64(z.Len()) < 0.98*float64(len(body)) {
			t.Fatalf("%d encrypted bytes can be compressed to %d", len(body), z.Len())
		}
		kit.Case(true, fmt.Sprintf("%d bytes in %d records %x", len(body), len(recs), kit.Seed(t)), "looks random")
	})
	_ = math.Pi
}

// failT makes failures of an enumeration go through its reporter.
type failT struct {
	*testing.T
	fail func(string, ...any)
}

func (f *failT) Fatalf(format string, a ...any) { f.fail(format, a...) }
