package checks

import (
	"bytes"
	"errors"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// ran is how a run of the command-line tool ended.
type ran struct {
	exit     int
	out, err string
	args     string
}

func cliEnv(dir string) []string {
	return []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "TZ=UTC", "GOMAXPROCS=2", "TMPDIR=" + dir}
}

// cli runs the tool in dir.
func cli(t rapid.TB, dir, stdin string, args ...string) ran {
	t.Helper()
	cmd := exec.Command(kit.CLI(), args...)
	cmd.Dir = dir
	cmd.Env = cliEnv(dir)
	cmd.Stdin = strings.NewReader(stdin)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	timer := time.AfterFunc(120*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err := cmd.Run()
	timer.Stop()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic("HARNESS ERROR: running the tool: " + err.Error())
	}
	r := ran{cmd.ProcessState.ExitCode(), out.String(), er.String(), strings.Join(args, " ")}
	if strings.Contains(r.err, "goroutine ") && strings.Contains(r.err, "panic") || r.exit == 2 && strings.Contains(r.err, "fatal error") {
		t.Fatalf("krypto431 %s crashed:\n%s", r.args, r.err)
	}
	return r
}

// ok runs it and expects it to succeed.
func cliOK(t rapid.TB, dir, stdin string, args ...string) ran {
	t.Helper()
	r := cli(t, dir, stdin, args...)
	if r.exit != 0 {
		t.Fatalf("krypto431 %s failed (%d): %s%s", r.args, r.exit, r.out, r.err)
	}
	return r
}

// stored opens a store read-only and copies its content.
func stored(t rapid.TB, file string) kit.Snap {
	t.Helper()
	k, err := opened(file, thePFK)
	if err != nil {
		t.Fatalf("the store %s does not open: %v", file, err)
	}
	return kit.SnapStore(k)
}

func readFile(file string) (string, bool) {
	b, err := os.ReadFile(file)
	return string(b), err == nil
}

var _ = krypto431.DefaultSalt
