package kit

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Dialog answers a program which asks on a terminal: when a prompt containing
// Ask appears (after what was answered before) and the program has asked
// Queries times for the position of the cursor, Answer is typed. Hidden waits
// until the terminal does not show what is typed, Signal is sent instead of an
// answer.
type Dialog struct {
	Ask, Answer string
	Queries     int
	Hidden      bool
	Signal      syscall.Signal
}

// Talked is how a run on a terminal ended.
type Talked struct {
	Exit     int
	Screen   string // all that was written to the terminal
	Answered int    // prompts answered
	TimedOut bool
	Visible  bool   // a hidden answer was typed although the terminal shows it
	Altered  string // how the settings of the terminal differ from before
}

func ioctl(fd uintptr, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

// unread tells whether there is input the program has not read.
func unread(slave *os.File) bool {
	fd := struct {
		fd              int32
		events, revents int16
	}{int32(slave.Fd()), 1, 0} // POLLIN
	now := syscall.Timespec{}
	n, _, e := syscall.Syscall6(syscall.SYS_PPOLL, uintptr(unsafe.Pointer(&fd)), 1, uintptr(unsafe.Pointer(&now)), 0, 0, 0)
	return e == 0 && n > 0 && fd.revents&1 != 0
}

// settings returns those of a terminal.
func settings(f *os.File) (x syscall.Termios) {
	if err := ioctl(f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&x))); err != nil {
		panic("HARNESS ERROR: settings of the terminal: " + err.Error())
	}
	return
}

// openPTY makes a pseudo-terminal of a generous size.
func openPTY() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	var unlock int32
	if err = ioctl(master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err == nil {
		err = ioctl(master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock)))
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	slave, err = os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	size := [4]uint16{200, 400, 0, 0}
	ioctl(slave.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&size)))
	return
}

// Talk runs a program with standard input and error on a terminal (and output,
// unless stdout is given) and answers what it asks.
func Talk(argv, env []string, dir string, dialogs []Dialog, stdout *bytes.Buffer, limit time.Duration) (*Talked, error) {
	master, slave, err := openPTY()
	if err != nil {
		return nil, err
	}
	defer master.Close()
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env, cmd.Dir = append(append([]string{}, env...), "TERM=xterm"), dir
	cmd.Stdin, cmd.Stderr, cmd.Stdout = slave, slave, slave
	if stdout != nil {
		cmd.Stdout = stdout
	}
	before := settings(slave)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := cmd.Start(); err != nil {
		slave.Close()
		return nil, err
	}
	res := &Talked{}
	var mu sync.Mutex
	var screen bytes.Buffer
	done := make(chan struct{})
	go func() {
		defer close(done)
		from := 0 // where the next prompt is looked for
		buf := make([]byte, 65536)
		queries := 0
		for {
			n, err := master.Read(buf)
			mu.Lock()
			screen.Write(buf[:n])
			all := screen.String()
			mu.Unlock()
			for strings.Count(all, "\x1b[6n") > queries {
				queries++
				master.Write([]byte("\x1b[1;1R")) // where the cursor is
			}
			for res.Answered < len(dialogs) {
				d := dialogs[res.Answered]
				i := strings.Index(all[from:], d.Ask)
				if i < 0 || strings.Count(all[from+i:], "\x1b[6n") < d.Queries {
					break
				}
				from = len(all)
				res.Answered++
				time.Sleep(15 * time.Millisecond) // the program sets the terminal up
				// A program which reads where the cursor is loses what it happens to
				// read beyond it.
				for i := 0; i < 10000 && unread(slave); i++ {
					time.Sleep(time.Millisecond)
				}
				if d.Hidden {
					for i := 0; i < 2000 && settings(slave).Lflag&syscall.ECHO != 0; i++ {
						time.Sleep(time.Millisecond)
					}
					res.Visible = res.Visible || settings(slave).Lflag&syscall.ECHO != 0
				}
				if d.Signal != 0 {
					cmd.Process.Signal(d.Signal)
				}
				for _, key := range strokes(d.Answer) {
					master.Write([]byte(key)) // an arrow key comes at once
				}
			}
			if err != nil {
				return
			}
		}
	}()
	timer := time.AfterFunc(limit, func() {
		res.TimedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	cmd.Wait()
	timer.Stop()
	if after := settings(slave); after != before {
		res.Altered = fmt.Sprintf("from %+v to %+v", before, after)
	}
	slave.Close()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
	mu.Lock()
	res.Screen = screen.String()
	mu.Unlock()
	if cmd.ProcessState == nil {
		return nil, fmt.Errorf("no state")
	}
	res.Exit = cmd.ProcessState.ExitCode()
	return res, nil
}

// strokes divides what is typed into keys.
func strokes(s string) (keys []string) {
	for _, r := range s {
		if n := len(keys); n > 0 && (keys[n-1] == "\x1b" || keys[n-1] == "\x1b[") {
			keys[n-1] += string(r)
			continue
		}
		keys = append(keys, string(r))
	}
	return
}
