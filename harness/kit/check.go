package kit

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// Check runs prop on quick (or, in the thorough tier, thorough) generated
// cases, divided over the shards of this run.
func Check(t *testing.T, name string, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		t.Helper()
		n := quick
		if Thorough() {
			n = thorough
		}
		_, shards := Shard()
		n = (n + shards - 1) / shards
		// A replay file belongs to one property.
		if ff := os.Getenv("VERIF_FAILFILE"); ff != "" {
			base := filepath.Base(ff)
			want := strings.Map(func(r rune) rune {
				if r == '/' {
					return '_'
				}
				return r
			}, t.Name())
			if !strings.HasPrefix(base, want+"-") {
				t.Skip("replay of another property")
			}
			flag.Set("rapid.failfile", ff)
			n = 1
		}
		if err := flag.Set("rapid.checks", fmt.Sprint(n)); err != nil {
			t.Fatal(err)
		}
		rapid.Check(t, prop)
	})
}

// Enum runs an enumeration (not generated by rapid) in the first process of
// the run only: fn is called with a reporting function that fails the test and
// records what failed.
func Enum(t *testing.T, name string, fn func(t *testing.T, fail func(format string, a ...any))) {
	t.Helper()
	if shard, _ := Shard(); shard != 0 {
		return
	}
	EnumSharded(t, name, fn)
}

// EnumSharded is Enum in every process; fn divides the work by Shard itself.
func EnumSharded(t *testing.T, name string, fn func(t *testing.T, fail func(format string, a ...any))) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		if os.Getenv("VERIF_FAILFILE") != "" && !strings.HasPrefix(filepath.Base(os.Getenv("VERIF_FAILFILE")), "enum-") {
			t.Skip("replay of another property")
		}
		fail := func(format string, a ...any) {
			t.Helper()
			msg := fmt.Sprintf(format, a...)
			dir := os.Getenv("VERIF_REPLAY_DIR")
			if dir != "" {
				f := filepath.Join(dir, fmt.Sprintf("enum-%s.txt", strings.ReplaceAll(t.Name(), "/", "_")))
				os.WriteFile(f, []byte(t.Name()+"\n"+msg+"\n"), 0o600)
			}
			t.Fatalf("%s", msg)
		}
		defer func() {
			if r := recover(); r != nil {
				fail("panic: %v\n%s", r, debug.Stack())
			}
		}()
		fn(t, fail)
	})
}
