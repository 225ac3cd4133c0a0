package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"github.com/sa6mwa/krypto431/crand"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// draw is something the library makes from random material.
type draw struct {
	Op string
	N  int
}

var drawOps = []string{"keys", "newkey", "messageid", "alnum", "pfk", "salt", "radiogram", "intn", "read", "readrunes", "uint64", "longkey"}

// bits is the entropy which a draw has, at least.
func (d draw) bits() float64 {
	switch d.Op {
	case "keys":
		return float64(d.N) * 25 * math.Log2(26)
	case "longkey":
		return float64(d.N*d.N) * 5 * math.Log2(26)
	case "newkey":
		return 25 * math.Log2(26)
	case "messageid", "radiogram":
		return 4 * math.Log2(62)
	case "alnum":
		return float64(d.N) * math.Log2(62)
	case "pfk", "salt":
		return 256
	case "intn":
		return math.Log2(float64(d.N + 1))
	case "read":
		return float64(d.N) * 8
	case "readrunes":
		return float64(d.N) * 32
	case "uint64":
		return 64
	}
	return 0
}

// run makes it and prints what was made.
func (d draw) run(k *krypto431.Krypto431) string {
	switch d.Op {
	case "keys":
		old := len(k.Keys)
		if err := k.GenerateKeys(d.N, nil, "QJ"); err != nil {
			return "error"
		}
		s := ""
		for i := old; i < len(k.Keys); i++ {
			s += string(k.Keys[i].Id) + " " + string(k.Keys[i].Runes) + "\n"
		}
		return s
	case "longkey":
		defer func(l int) { k.KeyLength = l }(k.KeyLength)
		k.KeyLength = 5 * d.N * d.N
		key := k.NewKey(time.Now())
		return string(key.Id) + " " + string(key.Runes)
	case "newkey":
		key := k.NewKey(time.Now(), "VJ")
		return string(key.Id) + " " + string(key.Runes)
	case "messageid":
		return string(k.NewUniqueMessageId())
	case "alnum":
		return string(krypto431.RandomAlnumRunes(d.N))
	case "pfk":
		return krypto431.GeneratePFK()
	case "salt":
		return krypto431.GenerateSalt()
	case "radiogram":
		m, err := k.NewTextMessage("SA6MWA DE QJ 012345 = HELLO = K")
		if err != nil {
			return "error"
		}
		return string(m.Id)
	case "intn":
		return fmt.Sprint(crand.Intn(d.N + 1))
	case "read":
		b := make([]byte, d.N)
		if n, err := crand.Read(b); err != nil || n != d.N {
			return "error"
		}
		return fmt.Sprintf("%x", b)
	case "readrunes":
		r := make([]rune, d.N)
		if n, err := crand.ReadRunes(r); err != nil || n != d.N {
			return "error"
		}
		return fmt.Sprint(r)
	case "uint64":
		return fmt.Sprint(crand.Uint64())
	}
	return "?"
}

// bytewise hands out another reader's bytes in short reads.
type bytewise struct {
	r io.Reader
	n int
}

func (b *bytewise) Read(p []byte) (int, error) {
	b.n++
	m := 1 + b.n%3
	if len(p) > m {
		p = p[:m]
	}
	return b.r.Read(p)
}

// failing hands out left bytes of a stream and then fails.
type failing struct {
	r    io.Reader
	left int
	kind int
}

func (f *failing) Read(p []byte) (int, error) {
	if f.left <= 0 {
		if f.kind == 1 {
			return 0, io.EOF
		}
		return 0, errors.New("injected: random source failed")
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	f.left -= n
	return n, err
}

// c09child is what a child process makes with a failing source (it may end
// the process, so it gets one).
type c09child struct {
	Seed uint64
	Left int
	Kind int
	Op   draw
	Pre  int
}

const c09env = "VERIF_C09_CHILD"

func init() {
	s := os.Getenv(c09env)
	if s == "" {
		return
	}
	var c c09child
	if json.Unmarshal([]byte(s), &c) != nil {
		os.Exit(9)
	}
	k := kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA")
	kit.Entropy(1)
	k.GenerateKeys(c.Pre, nil)
	kit.SetEntropy(&failing{r: kit.NewStream(c.Seed), left: c.Left, kind: c.Kind})
	out := "crashed"
	func() {
		defer func() { recover() }()
		out = c.Op.run(k)
	}()
	fmt.Printf("RESULT %q\n", out)
	for i := range k.Keys {
		fmt.Printf("KEY %s %s\n", string(k.Keys[i].Id), string(k.Keys[i].Runes))
	}
	fmt.Printf("MESSAGES %d\n", len(k.Messages))
	os.Exit(0)
}

// unlikely tells whether a chi-square sum is beyond any chance (z of 9 is a
// probability below 1e-18).
func unlikely(x float64, df int) bool {
	f := float64(df)
	z := (math.Cbrt(x/f) - (1 - 2/(9*f))) / math.Sqrt(2/(9*f))
	return z > 9 || z < -9
}

func chi(counts []int, total int) float64 {
	e := float64(total) / float64(len(counts))
	s := 0.0
	for _, c := range counts {
		s += (float64(c) - e) * (float64(c) - e) / e
	}
	return s
}

// uniform fails unless the symbols look drawn uniformly from the alphabet and
// independently of their neighbours up to some lags.
func uniform(t rapid.TB, what string, syms []int, alphabet int, period int) {
	t.Helper()
	n := len(syms)
	for _, p := range []int{1, period} {
		counts := make([][]int, p)
		for i := range counts {
			counts[i] = make([]int, alphabet)
		}
		totals := make([]int, p)
		for i, s := range syms {
			if s < 0 || s >= alphabet {
				t.Fatalf("%s: symbol %d outside the alphabet of %d", what, s, alphabet)
			}
			counts[i%p][s]++
			totals[i%p]++
		}
		for i := range counts {
			if totals[i] >= 5*alphabet {
				if x := chi(counts[i], totals[i]); unlikely(x, alphabet-1) {
					t.Fatalf("%s: not uniform (position %d of %d: chi-square %.0f with %d degrees of freedom, %d draws: %v)", what, i, p, x, alphabet-1, totals[i], counts[i])
				}
			}
		}
	}
	for _, lag := range []int{1, 2, 3, 4, 5, 7, 8, period} {
		if lag <= 0 || n < 5*alphabet*alphabet+lag {
			continue
		}
		pairs := make([]int, alphabet*alphabet)
		for i := lag; i < n; i++ {
			pairs[syms[i-lag]*alphabet+syms[i]]++
		}
		if x := chi(pairs, n-lag); unlikely(x, len(pairs)-1) {
			t.Fatalf("%s: draws %d apart depend on each other (chi-square %.0f with %d degrees of freedom)", what, lag, x, len(pairs)-1)
		}
	}
	// the rate of any symbol following the same one tells of repeated material
	for lag := 1; lag <= 2*period+8; lag++ {
		if n < lag+1000 {
			break
		}
		same := 0
		for i := lag; i < n; i++ {
			if syms[i] == syms[i-lag] {
				same++
			}
		}
		p := 1 / float64(alphabet)
		m := float64(n - lag)
		if z := (float64(same) - m*p) / math.Sqrt(m*p*(1-p)); z > 9 || z < -9 {
			t.Fatalf("%s: %d of %d draws equal the one %d before, expected %.0f", what, same, n-lag, lag, m*p)
		}
	}
}

func TestC09(t *testing.T) {
	kit.Rule("draws of every kind (keys, ids, message ids, salts, storage keys, numbers, buffers) from generated entropy streams: the same stream gives the same material whatever the time and history, other streams other material, short reads change nothing, at least the entropy of the material is consumed, and flipping consumed bits of the stream changes what is made; failing streams at generated positions in child processes; chi-square tests of uniformity and independence (false alarms below 1e-15 each) of large samples; goroutines drawing at once never share material; every case is non-trivial")
	kit.Check(t, "stream", 15000, 150000, func(t *rapid.T) {
		defer kit.RealEntropy()
		n := rapid.IntRange(1, 6).Draw(t, "draws")
		var ds []draw
		for i := 0; i < n; i++ {
			ds = append(ds, draw{rapid.SampledFrom(drawOps).Draw(t, "op"), rapid.IntRange(1, 40).Draw(t, "n")})
		}
		seed := kit.Seed(t)
		mk := func() *krypto431.Krypto431 {
			k := kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA")
			return k
		}
		all := func(k *krypto431.Krypto431) (out []string) {
			noPanic(t, "drawing", func() {
				for _, d := range ds {
					out = append(out, d.run(k))
				}
			})
			return
		}
		// first run, counting
		st := kit.Entropy(seed)
		k := mk()
		var first []string
		noPanic(t, "drawing", func() {
			for _, d := range ds {
				before := st.Read_
				out := d.run(k)
				first = append(first, out)
				if got := float64(st.Read_-before) * 8; got+0.5 < d.bits() {
					t.Fatalf("%v was made of %.0f bits of the random source, it needs %.0f", d, got, d.bits())
				}
			}
		})
		// something else happens in between
		if rapid.Bool().Draw(t, "between") {
			kit.Entropy(seed ^ 0x1234)
			draw{rapid.SampledFrom(drawOps).Draw(t, "opBetween"), rapid.IntRange(1, 9).Draw(t, "nBetween")}.run(mk())
		}
		st = kit.NewStream(seed)
		how := "again"
		if rapid.Bool().Draw(t, "short") {
			kit.SetEntropy(&bytewise{r: st})
			how = "in short reads"
		} else {
			kit.SetEntropy(st)
		}
		if second := all(mk()); kit.Diff(second, first) != "" {
			t.Fatalf("%v from the same random source %s: %s", ds, how, kit.Diff(second, first))
		}
		// another stream
		kit.Entropy(seed + 1)
		third := all(mk())
		for i, d := range ds {
			if d.bits() >= 64 && third[i] == first[i] {
				t.Fatalf("%v does not depend on the random source: %q", d, first[i])
			}
		}
		kit.Case(true, fmt.Sprintf("%v from stream %x %s", ds, seed, how), how)
	})
	kit.Check(t, "bits", 3600, 40000, func(t *rapid.T) {
		// Storage keys and salts: every part of their full entropy counts.
		defer kit.RealEntropy()
		op := rapid.SampledFrom([]string{"pfk", "salt"}).Draw(t, "op")
		seed := kit.Seed(t)
		st := kit.Entropy(seed)
		first := draw{op, 1}.run(nil)
		used := int(st.Read_)
		changed := 0
		seen := map[string]bool{first: true}
		for i := 0; i < used; i++ {
			kit.SetEntropy(&flip{r: kit.NewStream(seed), at: i, mask: byte(rapid.IntRange(1, 255).Draw(t, "mask"))})
			s := draw{op, 1}.run(nil)
			if !seen[s] {
				changed++
			}
			seen[s] = true
		}
		if changed < 32 {
			t.Fatalf("%s depends on %d bytes of the random source only", op, changed)
		}
		if b := len(first); b < 64 {
			t.Fatalf("%s %q is short", op, first)
		}
		kit.Case(true, fmt.Sprintf("flipping each of %d bytes of stream %x for a %s", used, seed, op), "bit flips")
	})
	kit.Check(t, "failing", 720, 6000, func(t *rapid.T) {
		defer kit.RealEntropy()
		c := c09child{Seed: kit.Seed(t), Kind: rapid.IntRange(0, 1).Draw(t, "kind"), Pre: rapid.IntRange(0, 3).Draw(t, "pre"),
			Op: draw{rapid.SampledFrom([]string{"keys", "keys", "newkey", "messageid", "alnum", "pfk", "salt"}).Draw(t, "op"), rapid.IntRange(1, 5).Draw(t, "n")}}
		// what a working source gives
		kit.Entropy(1)
		k := kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA")
		must(t, k.GenerateKeys(c.Pre, nil), "GenerateKeys")
		st := kit.Entropy(c.Seed)
		c.Op.run(k)
		var keys []string
		for i := range k.Keys {
			keys = append(keys, string(k.Keys[i].Id)+" "+string(k.Keys[i].Runes))
		}
		total := int(st.Read_)
		c.Left = rapid.IntRange(0, total-1).Draw(t, "left")
		kit.RealEntropy()
		js, _ := json.Marshal(c)
		cmd := exec.Command(os.Args[0], "-test.run=^$")
		cmd.Env = append(os.Environ(), c09env+"="+string(js), "VERIF_STATS=")
		out, err := cmd.Output()
		what := fmt.Sprintf("%+v (of %d bytes)", c, total)
		if err != nil {
			if _, ok := err.(*exec.ExitError); !ok {
				panic(err)
			}
			kit.Case(true, what, "process ended")
			return
		}
		var got []string
		result, msgs := "", ""
		for _, l := range strings.Split(string(out), "\n") {
			switch {
			case strings.HasPrefix(l, "KEY "):
				got = append(got, l[4:])
			case strings.HasPrefix(l, "RESULT "):
				fmt.Sscanf(l[7:], "%q", &result)
			case strings.HasPrefix(l, "MESSAGES "):
				msgs = l[9:]
			}
		}
		if len(got) >= len(keys) && (c.Op.Op == "keys" || c.Op.Op == "newkey") {
			t.Fatalf("%s: all keys were made although the random source failed: %q", what, got)
		}
		if len(got) < c.Pre {
			t.Fatalf("%s: lost keys: %q", what, got)
		}
		for i := range got { // those made before it failed are as ever
			if got[i] != keys[i] {
				t.Fatalf("%s: key %d was made as %q by a failing random source, %q by a working one", what, i, got[i], keys[i])
			}
		}
		if result != "crashed" && result != "error" && result != "" {
			t.Fatalf("%s: made %q although the random source failed", what, result)
		}
		if msgs != "0" {
			t.Fatalf("%s: a message was added although the random source failed", what)
		}
		kit.Case(true, what, "failing source")
	})
	kit.Check(t, "uniform", 720, 4000, func(t *rapid.T) {
		// the operating system's source or streams
		if rapid.Bool().Draw(t, "real") {
			kit.RealEntropy()
		} else {
			kit.Entropy(kit.Seed(t))
		}
		defer kit.RealEntropy()
		kind := rapid.SampledFrom([]string{"letters", "letters", "longkey", "ids", "messageids", "alnum", "pfk", "salt", "intn", "int31n", "int63n", "perm", "float"}).Draw(t, "kind")
		label := kind
		switch kind {
		case "letters":
			g := kit.Geometry{G: rapid.SampledFrom([]int{5, 4, 7}).Draw(t, "groupSize"), K: rapid.IntRange(100, 350).Draw(t, "keyLength")}
			k := kit.Station(g, "SA6MWA")
			must(t, k.GenerateKeys(60000/g.K, nil), "GenerateKeys")
			var s []int
			for i := range k.Keys {
				for _, r := range k.Keys[i].Runes {
					s = append(s, int(r-'A'))
				}
			}
			uniform(t, "letters of keys", s, 26, g.Len())
			label = fmt.Sprintf("%d letters of keys of %d", len(s), g.Len())
		case "longkey":
			k := kit.Station(kit.Geometry{G: 5, K: rapid.IntRange(1000, 300000).Draw(t, "keyLength")}, "SA6MWA")
			var s []int
			for len(s) < 100000 {
				for _, r := range k.NewKey(time.Now()).Runes {
					s = append(s, int(r-'A'))
				}
				k.Keys = nil
			}
			uniform(t, "letters of a long key", s, 26, min(k.KeyLength, 500))
			label = fmt.Sprintf("%d letters of keys of %d", len(s), k.KeyLength)
		case "ids":
			var s []int
			for len(s) < 24000 {
				k := kit.Station(kit.Geometry{G: 6, K: 20}, "SA6MWA")
				must(t, k.GenerateKeys(200, nil), "GenerateKeys")
				for i := range k.Keys {
					for _, r := range k.Keys[i].Id {
						s = append(s, int(r-'A'))
					}
				}
			}
			uniform(t, "letters of key ids", s, 26, 6)
		case "messageids", "alnum":
			n := 4
			k := kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA")
			if kind == "alnum" {
				n = rapid.IntRange(1, 9).Draw(t, "n")
			}
			var s []int
			for len(s) < 30000 {
				var id []rune
				if kind == "alnum" {
					id = krypto431.RandomAlnumRunes(n)
				} else {
					id = k.NewUniqueMessageId()
				}
				if len(id) != n {
					t.Fatalf("an id of %d instead of %d characters: %q", len(id), n, string(id))
				}
				for _, r := range id {
					i := strings.IndexRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", r)
					s = append(s, i)
				}
			}
			uniform(t, "alphanumeric ids", s, 62, n)
		case "pfk", "salt":
			var s []int
			for len(s) < 96000 {
				h := draw{kind, 1}.run(nil)
				for _, r := range h {
					s = append(s, strings.IndexRune("0123456789abcdef", r))
				}
			}
			uniform(t, "hex digits of "+kind, s, 16, 64)
		case "intn", "int31n", "int63n":
			n := rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(1, 1<<30), rapid.SampledFrom([]int{1 << 30, 1<<31 - 1, 3 << 29, 26, 62, 2, 1 << 16})).Draw(t, "n")
			buckets := n
			if buckets > 64 {
				buckets = 64
			}
			var s []int
			for i := 0; i < 30000; i++ {
				v := int64(0)
				switch kind {
				case "intn":
					v = int64(crand.Intn(n))
				case "int31n":
					v = int64(crand.Int31n(int32(n)))
				default:
					v = crand.Int63n(int64(n))
				}
				if v < 0 || v >= int64(n) {
					t.Fatalf("%s(%d) gave %d", kind, n, v)
				}
				s = append(s, int(v*int64(buckets)/int64(n)))
			}
			if buckets > 1 && (n <= 64 || n > 1<<16) {
				uniform(t, fmt.Sprintf("%s(%d)", kind, n), s, buckets, 1)
			}
			label = fmt.Sprintf("%s(%d)", kind, n)
		case "perm":
			n := rapid.IntRange(1, 8).Draw(t, "n")
			var s []int
			for i := 0; i < 8000; i++ {
				p := crand.Perm(n)
				if len(p) != n || len(setOfInts(p)) != n {
					t.Fatalf("Perm(%d) gave %v", n, p)
				}
				s = append(s, p[i%n])
			}
			if n > 1 {
				uniform(t, fmt.Sprintf("Perm(%d)", n), s, n, 1)
			}
		case "float":
			var s []int
			for i := 0; i < 30000; i++ {
				f := crand.Float64()
				if f < 0 || f >= 1 {
					t.Fatalf("Float64 gave %v", f)
				}
				s = append(s, int(f*64))
			}
			uniform(t, "Float64", s, 64, 1)
		}
		kit.Case(true, fmt.Sprint(label, " ", kit.Seed(t)), kind)
	})
	kit.Check(t, "concurrent", 180, 1500, func(t *rapid.T) {
		real := rapid.IntRange(0, 3).Draw(t, "real") == 0
		seed := kit.Seed(t)
		var st *kit.Stream
		if real {
			kit.RealEntropy()
		} else {
			st = kit.Entropy(seed)
		}
		defer kit.RealEntropy()
		workers := rapid.IntRange(2, 16).Draw(t, "goroutines")
		kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"uint64", "pfk", "read", "keys", "salt", "alnum", "readrunes", "int63"}), workers, workers).Draw(t, "kinds")
		rounds := rapid.IntRange(50, 300).Draw(t, "rounds")
		words := make([][]string, workers)
		crashed := make([]any, workers)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() { crashed[w] = recover() }()
				k := kit.Station(kit.Geometry{G: 5, K: 25}, "SA6MWA")
				<-gate
				for i := 0; i < rounds; i++ {
					switch kinds[w] {
					case "uint64":
						words[w] = append(words[w], fmt.Sprintf("%016x", crand.Uint64()))
					case "int63":
						words[w] = append(words[w], fmt.Sprintf("63:%016x", crand.Int63()))
					case "pfk", "salt":
						h := draw{kinds[w], 1}.run(nil)
						for j := 0; j+16 <= len(h); j += 16 {
							words[w] = append(words[w], h[j:j+16])
						}
					case "read":
						b := make([]byte, 24)
						crand.Read(b)
						for j := 0; j < 24; j += 8 {
							words[w] = append(words[w], fmt.Sprintf("%x", b[j:j+8]))
						}
					case "readrunes":
						r := make([]rune, 4)
						crand.ReadRunes(r)
						words[w] = append(words[w], fmt.Sprint("r", r[:2]), fmt.Sprint("r", r[2:]))
					case "keys":
						k.Keys = k.Keys[:0]
						k.GenerateKeys(1, nil)
						words[w] = append(words[w], string(k.Keys[0].Runes))
					case "alnum":
						words[w] = append(words[w], string(krypto431.RandomAlnumRunes(12)))
					}
				}
			}(w)
		}
		close(gate)
		wg.Wait()
		seen := map[string]int{}
		n := 0
		for w := range words {
			if crashed[w] != nil {
				t.Fatalf("drawing at once crashed: %v", crashed[w])
			}
			for _, s := range words[w] {
				n++
				if o, ok := seen[s]; ok {
					t.Fatalf("goroutines %d (%s) and %d (%s) got the same random material %s", o, kinds[o], w, kinds[w], s)
				}
				seen[s] = w
			}
		}
		if st != nil && st.Read_ < int64(n)*7 {
			t.Fatalf("%d pieces of random material were made of %d bytes of the random source", n, st.Read_)
		}
		kit.Case(true, fmt.Sprintf("%d goroutines %v, %d pieces, %x", workers, kinds, n, seed), "concurrent")
		kit.AddExtra("pieces_drawn_concurrently", int64(n))
	})
}

func setOfInts(s []int) map[int]bool {
	m := map[int]bool{}
	for _, i := range s {
		m[i] = true
	}
	return m
}

// flip changes one byte of a stream.
type flip struct {
	r    io.Reader
	at   int
	mask byte
}

func (f *flip) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if f.at >= 0 && f.at < n {
		p[f.at] ^= f.mask
	}
	f.at -= n
	return n, err
}
