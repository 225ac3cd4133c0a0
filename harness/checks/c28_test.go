package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

var places = []string{"UTC", "Europe/Stockholm", "America/New_York", "Asia/Tokyo", "Pacific/Auckland", "Etc/GMT+12", "Asia/Kolkata", "America/St_Johns"}

// changing is a place whose clocks are put back or forward at given hours from
// now (whole hours from UTC, as date-time groups have).
func changing(t *rapid.T, label string) (name string, data []byte) {
	now := time.Now().Truncate(time.Hour).Unix()
	n := rapid.IntRange(1, 4).Draw(t, label+"Changes")
	at := rapid.OneOf(rapid.IntRange(-30*24, 30*24), rapid.IntRange(-30, 30)).Draw(t, label+"First")
	hours := []int{rapid.IntRange(-11, 11).Draw(t, label+"Hours")}
	when := []int64{}
	for i := 0; i < n; i++ {
		when = append(when, now+int64(at)*3600)
		last := hours[len(hours)-1]
		h := last + rapid.SampledFrom([]int{-1, 1, -1, 1, 2, -2}).Draw(t, label+"Change")
		if h < -12 || h > 12 {
			h = last
		}
		hours = append(hours, h)
		name += fmt.Sprintf(" %+d until %+dh", last, at)
		at += rapid.OneOf(rapid.IntRange(3, 40), rapid.IntRange(3, 365*24)).Draw(t, label+"Next")
	}
	name = "a place with UTC" + name + fmt.Sprintf(" then %+d", hours[n])
	b := bytes.NewBufferString("TZif")
	b.Write(make([]byte, 16))
	for _, c := range []int{0, 0, 0, n, n + 1, 4 * (n + 1)} {
		binary.Write(b, binary.BigEndian, uint32(c))
	}
	for _, w := range when {
		binary.Write(b, binary.BigEndian, int32(w))
	}
	for i := range when {
		b.WriteByte(byte(i + 1))
	}
	for i, h := range hours {
		binary.Write(b, binary.BigEndian, int32(h*3600))
		b.Write([]byte{byte(i % 2), byte(4 * i)})
	}
	for i := range hours {
		b.WriteString([]string{"STD\x00", "DST\x00"}[i%2])
	}
	return name, b.Bytes()
}

// somewhere makes the computer believe to be in another time zone.
func somewhere(t *rapid.T, label string) (name string) {
	if rapid.IntRange(0, 2).Draw(t, label+"Changing") == 2 {
		name, data := changing(t, label)
		loc, err := time.LoadLocationFromTZData("Changing", data)
		if err != nil {
			panic("HARNESS ERROR: " + err.Error())
		}
		time.Local = loc
		return name
	}
	name = rapid.SampledFrom(places).Draw(t, label)
	loc, err := time.LoadLocation(name)
	if err != nil {
		h := rapid.IntRange(-12, 12).Draw(t, label+"Hours")
		name, loc = fmt.Sprintf("UTC%+d", h), time.FixedZone("HERE", h*3600)
	}
	time.Local = loc
	return
}

// period draws a duration.
func period(t *rapid.T, label string) time.Duration {
	switch rapid.IntRange(0, 9).Draw(t, label+"Kind") {
	case 0:
		return 0
	case 1:
		return rapid.SampledFrom([]time.Duration{1, -1, time.Second, time.Hour, -time.Hour, 24 * time.Hour, 30 * 24 * time.Hour, 31 * 24 * time.Hour, 28 * 24 * time.Hour, 365 * 24 * time.Hour, 366 * 24 * time.Hour, math.MaxInt64, math.MinInt64, -24 * time.Hour}).Draw(t, label)
	case 2, 3:
		return time.Duration(rapid.IntRange(0, 800).Draw(t, label+"Days")) * 24 * time.Hour
	case 4:
		return -time.Duration(rapid.Int64Range(0, 1e18).Draw(t, label))
	case 5:
		return time.Duration(rapid.Int64().Draw(t, label))
	default:
		return time.Duration(rapid.Int64Range(0, 1e17).Draw(t, label))
	}
}

// later tells whether at lies later than d from now, counted in seconds and
// nanoseconds apart so that nothing overflows.
func later(at, now time.Time, d time.Duration) bool {
	as, an := at.Unix(), int64(at.Nanosecond())
	ns, nn := now.Unix(), int64(now.Nanosecond())
	ns += int64(d / time.Second)
	nn += int64(d % time.Second)
	for nn < 0 {
		nn += 1e9
		ns--
	}
	for nn >= 1e9 {
		nn -= 1e9
		ns++
	}
	return as > ns || as == ns && an > nn
}

// judgeValidity asks a key everything about its validity; what depends on
// the moment between the questions is left open.
func judgeValidity(t rapid.TB, k *krypto431.Key, expires time.Time, d time.Duration, what string) (judged int) {
	t.Helper()
	day := 24 * time.Hour
	for _, q := range []struct {
		name string
		ask  func() bool
		d    time.Duration
		not  bool
	}{
		{"IsExpired", k.IsExpired, 0, true},
		{fmt.Sprintf("IsValid(%v)", d), func() bool { return k.IsValid(d) }, d, false},
		{"IsValid(0)", func() bool { return k.IsValid(0) }, 0, false},
		{"IsValidOneDay", k.IsValidOneDay, day, false},
		{"IsValidOneMonth", k.IsValidOneMonth, 30 * day, false},
		{"IsValidOneYear", k.IsValidOneYear, 365 * day, false},
	} {
		// wall clock readings, as expiry dates are
		t0 := time.Now().Round(0)
		got := q.ask()
		t1 := time.Now().Round(0)
		// room for clocks that differ by a little
		a, b := later(expires, t0.Add(-2*time.Millisecond), q.d), later(expires, t1.Add(2*time.Millisecond), q.d)
		if a != b {
			continue
		}
		judged++
		if got != (a != q.not) {
			t.Fatalf("%s: %s of a key which expires %v is %v at %v", what, q.name, expires, got, t0)
		}
	}
	return
}

// theSheet is the only key sheet in a text.
func theSheet(t rapid.TB, text, what string) *sheet {
	t.Helper()
	sheets := splitSheets(text)
	if len(sheets) != 1 {
		t.Fatalf("%s: %d sheets:\n%s", what, len(sheets), text)
	}
	s, err := parseSheet(sheets[0])
	if err != nil {
		t.Fatalf("%s: %v:\n%s", what, err, text)
	}
	return s
}

var keyColumnNames = []string{"ID", "KEEPERS", "CREATED", "EXPIRES", "USED", "COMPROMISED", "COMMENT"}

func TestC28(t *testing.T) {
	kit.Rule("(1) keys expiring at any moment (nanoseconds to centuries from now, on either side of now and of now plus the period asked for, in any zone, where the local clocks may be put back or forward meanwhile) asked for every kind of validity and any period, against arithmetic in seconds; (2) keys generated with date-time groups in every zone and spelling by the library, living in changing local time zones, through histories of saving, loading, exporting, importing and editing of other parts; after each step the printed group on the sheet and in the listing is the one given, the moment is that of the group and the validity follows; (3) the same with the built tool run under various time zones, with --expired, --valid and --invalid selections; non-trivial = the expiry lies within a day of a limit asked for, or the key went through at least two steps in different local time zones")
	here := time.Local
	defer func() { time.Local = here }()
	kit.Check(t, "predicates", 800000, 60000000, func(t *rapid.T) {
		defer func() { time.Local = here }()
		place := somewhere(t, "place")
		d := period(t, "period")
		now := time.Now()
		base := now
		switch rapid.IntRange(0, 5).Draw(t, "limit") {
		case 0:
			base = now.Add(24 * time.Hour)
		case 1:
			base = now.Add(30 * 24 * time.Hour)
		case 2:
			base = now.Add(365 * 24 * time.Hour)
		case 3:
			if d > -1e18 && d < 1e18 {
				base = now.Add(d)
			}
		}
		off := time.Duration(0)
		near := true
		switch rapid.IntRange(0, 4).Draw(t, "distance") {
		case 0:
			off = time.Duration(rapid.Int64Range(20e6, 5e9).Draw(t, "off"))
		case 1, 2:
			off = time.Duration(rapid.Int64Range(1e9, 26*3600e9).Draw(t, "off"))
		default:
			near = false
			off = time.Duration(rapid.Int64Range(1e9, 5e18).Draw(t, "off"))
		}
		if rapid.Bool().Draw(t, "before") {
			off = -off
		}
		at := base.Add(off)
		zone := rapid.IntRange(-12, 14).Draw(t, "zone")
		switch rapid.IntRange(0, 5).Draw(t, "zoneKind") {
		case 0:
			at = at.UTC()
		case 1: // keeps the monotonic clock
		case 2:
			at = at.Local()
		default:
			at = at.In(time.FixedZone("", zone*3600))
		}
		if rapid.IntRange(0, 30).Draw(t, "extreme") == 0 {
			near = false
			at = rapid.SampledFrom([]time.Time{{}, time.Unix(0, 0), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC)}).Draw(t, "far")
		}
		var k krypto431.Key
		k.Expires.Time = at
		k.Used, k.Compromised = rapid.Bool().Draw(t, "used"), rapid.Bool().Draw(t, "compromised")
		k.Created.Time = now.Add(time.Duration(rapid.Int64Range(-1e18, 1e18).Draw(t, "created")))
		n := judgeValidity(t, &k, at, d, "in "+place)
		kit.Case(near && n > 0, fmt.Sprintf("expiry %v from %v from now, zone %+d in %s, period %v: %d answers", off, base.Sub(now), zone, place, d, n), "predicates")
	})

	// groupFor draws a group, mostly near a limit from now.
	groupFor := func(t *rapid.T) (g group, near bool) {
		if rapid.IntRange(0, 2).Draw(t, "anytime") == 0 {
			return drawGroup(t, "expiry"), false
		}
		at := time.Now().Add(rapid.SampledFrom([]time.Duration{0, 24 * time.Hour, 30 * 24 * time.Hour, 365 * 24 * time.Hour, 48 * time.Hour}).Draw(t, "limit"))
		m := rapid.OneOf(rapid.IntRange(2, 14*60), rapid.IntRange(-14*60, -1)).Draw(t, "minutes")
		return nearGroup(at.Add(time.Duration(m)*time.Minute), rapid.IntRange(-12, 12).Draw(t, "zone")), true
	}
	kit.Check(t, "travels", 9600, 120000, func(t *rapid.T) {
		defer func() { time.Local = here }()
		kit.Entropy(kit.Seed(t))
		dir, done := scratch("c28")
		defer done()
		place := somewhere(t, "place")
		g, near := groupFor(t)
		file := filepath.Join(dir, "store")
		k := fileStation(kit.Geometry{G: 5, K: 25}, "SA6MWA", file)
		text := g.spell(t, "expiry")
		n := rapid.IntRange(1, 3).Draw(t, "keys")
		must(t, k.GenerateKeys(n, &text, "QJ"), "generating keys expiring "+text)
		if len(k.Keys) != n {
			t.Fatalf("%d keys instead of %d", len(k.Keys), n)
		}
		log := []string{fmt.Sprintf("generated with %s in %s", text, place)}
		moves := 0
		d := period(t, "period")
		look := func() {
			what := strings.Join(log, ", ")
			if len(k.Keys) != n {
				t.Fatalf("%s: %d keys instead of %d", what, len(k.Keys), n)
			}
			head, lines := k.SummaryOfKeys(kit.All)
			if len(lines) != n {
				t.Fatalf("%s: %d keys are listed", what, len(lines))
			}
			for i := range k.Keys {
				x := &k.Keys[i]
				if !x.Expires.Time.Equal(g.t) {
					t.Fatalf("%s: expires %v instead of %v", what, x.Expires.Time, g.t)
				}
				if s := x.Expires.String(); s != g.text {
					t.Fatalf("%s: the expiry is written %s instead of %s", what, s, g.text)
				}
				c, err := cells(string(head), string(lines[i]), keyColumnNames)
				if err != nil || len(c) < 4 || c[3] != g.text {
					t.Fatalf("%s: the listing has %q instead of %s (%v)", what, c, g.text, err)
				}
				if s := theSheet(t, x.String(), what); s.expires != g.text {
					t.Fatalf("%s: the sheet has %q instead of %s", what, s.expires, g.text)
				}
				judgeValidity(t, x, g.t, d, what)
			}
		}
		look()
		for steps := rapid.IntRange(1, 4).Draw(t, "steps"); steps > 0; steps-- {
			step := rapid.SampledFrom([]string{"save and load", "save and load", "export", "import", "import over", "use"}).Draw(t, "step")
			before := place
			place = somewhere(t, "place")
			if place != before {
				moves++
			}
			log = append(log, step+" in "+place)
			switch step {
			case "save and load":
				must(t, k.Save(), "saving")
				place = somewhere(t, "place")
				log = append(log, "loaded in "+place)
				l, err := opened(k.GetPersistence(), thePFK)
				must(t, err, "loading")
				k = l
			case "export":
				to := filepath.Join(dir, fmt.Sprintf("export%d", steps))
				e := k.ExportKeys(kit.All, krypto431.WithPersistence(to))
				must(t, e.Save(), "saving the export")
				l, err := opened(to, thePFK)
				must(t, err, "loading")
				k = l
			case "import", "import over":
				to := filepath.Join(dir, fmt.Sprintf("shared%d", steps))
				e := k.ExportKeys(kit.All, krypto431.WithPersistence(to))
				must(t, e.Save(), "saving the export")
				l := fileStation(kit.Geometry{G: 5, K: 25}, "QJ", filepath.Join(dir, fmt.Sprintf("mine%d", steps)))
				opts := []krypto431.Option{krypto431.WithPersistence(to), krypto431.WithPFKString(thePFK)}
				if step == "import over" {
					for i := range k.Keys { // the same keys, expiring otherwise
						c := k.Keys[i]
						c.Id = append([]rune{}, c.Id...)
						c.Runes = append([]rune{}, c.Runes...)
						c.Expires.Time = g.t.Add(time.Duration(i-1) * time.Hour)
						c.SetInstance(l)
						l.Keys = append(l.Keys, c)
					}
					l.SetOverwriteExistingKeysOnImport(true)
				}
				m, err := l.ImportKeys(kit.All, opts...)
				must(t, err, "importing")
				if m != n {
					t.Fatalf("%s: %d keys imported instead of %d", strings.Join(log, ", "), m, n)
				}
				k = l
			case "use":
				x := &k.Keys[rapid.IntRange(0, n-1).Draw(t, "which")]
				x.Used = !x.Used
				x.Compromised = rapid.Bool().Draw(t, "compromised")
				x.Comment = []rune("used 010203ZJAN04")
				x.AddKeeper([]rune("VJ"))
			}
			look()
		}
		kit.Case(near || moves > 1, strings.Join(log, ", "), "travels")
	})

	kit.Check(t, "tool", 960, 16000, func(t *rapid.T) {
		dir, done := scratch("c28")
		defer done()
		file := filepath.Join(dir, "store")
		run := func(args ...string) ran {
			env := cliEnv(dir)
			for i := range env {
				if strings.HasPrefix(env[i], "TZ=") {
					env[i] = "TZ=" + rapid.SampledFrom(places).Draw(t, "tz")
					if rapid.Bool().Draw(t, "tzChanging") {
						_, data := changing(t, "tz")
						if err := os.WriteFile(filepath.Join(dir, "zone"), data, 0644); err != nil {
							panic("HARNESS ERROR: " + err.Error())
						}
						env[i] = "TZ=" + filepath.Join(dir, "zone")
					}
				}
			}
			r := toolRun(t, dir, env, "", append([]string{"-f", file, "-K", thePFK}, args...)...)
			if r.exit != 0 {
				t.Fatalf("krypto431 %s fails: %s", r.args, r.err)
			}
			return r
		}
		g, near := groupFor(t)
		text := g.spell(t, "expiry")
		if rapid.Bool().Draw(t, "atInit") {
			run("init", "-y", "-c", "SA6MWA", "-l", "20", "-n", "1", "-x", text)
		} else {
			run("init", "-y", "-c", "SA6MWA", "-l", "20")
			run("keys", "-n", "1", "-x", text)
		}
		if rapid.Bool().Draw(t, "exported") {
			run("keys", "--export", filepath.Join(dir, "other"), "--all")
			file = filepath.Join(dir, "other")
		}
		s := stored(t, file)
		if len(s.Keys) != 1 {
			t.Fatalf("%d keys in the store", len(s.Keys))
		}
		if m := moment(s.Keys[0].Expires); !m.Equal(g.t) || dtgText(s.Keys[0].Expires) != g.text {
			t.Fatalf("a key generated with %s expires %v", text, m)
		}
		r := run("keys", "-l", "--all")
		if !strings.Contains(r.out, " "+g.text+" ") {
			t.Fatalf("krypto431 %s does not show the expiry %s:\n%s", r.args, g.text, r.out)
		}
		sheets := filepath.Join(dir, "sheets.txt")
		r = run("keys", "--all", "-o", sheets)
		printed, _ := readFile(sheets)
		if s := theSheet(t, printed, r.args); s.expires != g.text {
			t.Fatalf("krypto431 %s: the sheet has %q instead of %s", r.args, s.expires, g.text)
		}
		days := rapid.SampledFrom([]int{0, 1, 2, 30, 365}).Draw(t, "days")
		for name, d := range map[string]time.Duration{"--expired": 0, "--invalid": 0, fmt.Sprintf("--valid=%d", days): time.Duration(days) * 24 * time.Hour} {
			t0 := time.Now()
			r := run("keys", "-l", name)
			a, b := later(g.t, t0.Add(-2*time.Millisecond), d), later(g.t, time.Now().Add(2*time.Millisecond), d)
			if a != b {
				continue
			}
			want := a == strings.HasPrefix(name, "--valid")
			if got := strings.Contains(r.out, g.text); got != want {
				t.Fatalf("krypto431 %s lists a key which expires %s: %v", r.args, g.text, got)
			}
		}
		kit.Case(near, text, "tool")
	})
}
