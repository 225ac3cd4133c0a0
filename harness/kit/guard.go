package kit

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// A guarded process stops before each system call that changes files and asks
// its supervisor (this process) what to do: go on, fail with an error, carry
// out a part of a write, or die there.  It uses seccomp user notification,
// which needs no privilege.

// Op is a system call a guarded process is about to make.
type Op struct {
	Name  string // open, write, sync, rename, unlink, truncate, chmod, close, link, other
	Path  string // the file, as far as known
	To    string // rename's target
	Fd    int
	Flags int
	Size  int
	pid   int
	addr  uint64
}

func (o Op) String() string {
	s := o.Name + " " + filepath.Base(o.Path)
	if o.To != "" {
		s += " to " + filepath.Base(o.To)
	}
	if o.Name == "write" {
		s += fmt.Sprintf(" (%d bytes)", o.Size)
	}
	return s
}

// Data is what a write is about to write.
func (o Op) Data() []byte {
	if o.Name != "write" || o.addr == 0 {
		return nil
	}
	b := make([]byte, o.Size)
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", o.pid))
	if err != nil {
		return nil
	}
	defer f.Close()
	n, _ := f.ReadAt(b, int64(o.addr))
	return b[:n]
}

// Action is what a guarded process is to do instead.
type Action struct {
	Kill  bool
	Errno syscall.Errno // fail with this
	Torn  int           // >0: let only that many bytes of a write happen first
}

// Outcome is how a guarded process ended.
type Outcome struct {
	Exit           int // -1 if killed
	Stdout, Stderr []byte
	Killed         bool // by an Action
	Ops            int  // operations offered to decide
	TimedOut       bool
}

const (
	guardEnv         = "VERIF_GUARD_EXEC"
	seccompModeFilt  = 1
	flagNewListener  = 1 << 3
	flagWaitKillable = 1 << 5
	retUserNotif     = 0x7fc00000
	retAllow         = 0x7fff0000
	respContinue     = 1
	ioctlRecv        = 0xc0502100
	ioctlSend        = 0xc0182101
	sysSeccomp       = 317
	sysPidfdOpen     = 434
	sysPidfdGetfd    = 438
	prSetNoNewPrivs  = 38
)

var guarded = map[int]string{
	syscall.SYS_OPEN: "open", syscall.SYS_OPENAT: "open", syscall.SYS_CREAT: "open", 437: "open",
	syscall.SYS_WRITE: "write", syscall.SYS_PWRITE64: "write", syscall.SYS_WRITEV: "write", syscall.SYS_PWRITEV: "write",
	syscall.SYS_SENDFILE: "write", 326: "write", syscall.SYS_SPLICE: "write",
	syscall.SYS_FSYNC: "sync", syscall.SYS_FDATASYNC: "sync", syscall.SYS_SYNC: "sync", 306: "sync",
	syscall.SYS_RENAME: "rename", syscall.SYS_RENAMEAT: "rename", 316: "rename",
	syscall.SYS_UNLINK: "unlink", syscall.SYS_UNLINKAT: "unlink",
	syscall.SYS_TRUNCATE: "truncate", syscall.SYS_FTRUNCATE: "truncate", syscall.SYS_FALLOCATE: "other",
	syscall.SYS_CHMOD: "chmod", syscall.SYS_FCHMOD: "chmod", syscall.SYS_FCHMODAT: "chmod",
	syscall.SYS_LINK: "link", syscall.SYS_LINKAT: "link", syscall.SYS_SYMLINK: "link", syscall.SYS_SYMLINKAT: "link",
	syscall.SYS_CLOSE: "close",
}

type sockFilter struct {
	Code   uint16
	Jt, Jf uint8
	K      uint32
}

type sockFprog struct {
	Len    uint16
	Filter *sockFilter
}

// In a guarded process-to-be: install the filter, hand the listener over and
// become the program.
func init() {
	target := os.Getenv(guardEnv)
	if target == "" {
		return
	}
	os.Unsetenv(guardEnv)
	runtime.LockOSThread()
	die := func(what string, err error) {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: guard: %s: %v\n", what, err)
		os.Exit(97)
	}
	prog := []sockFilter{{0x20, 0, 0, 0}} // load nr
	var nrs []int
	for nr := range guarded {
		nrs = append(nrs, nr)
	}
	for i, nr := range nrs {
		prog = append(prog, sockFilter{0x15, uint8(len(nrs) - i), 0, uint32(nr)})
	}
	prog = append(prog, sockFilter{0x06, 0, 0, retAllow}, sockFilter{0x06, 0, 0, retUserNotif})
	fp := sockFprog{uint16(len(prog)), &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, prSetNoNewPrivs, 1, 0, 0, 0, 0); e != 0 {
		die("no_new_privs", e)
	}
	argv := os.Args
	env := os.Environ()
	fd, _, e := syscall.RawSyscall(sysSeccomp, seccompModeFilt, flagNewListener|flagWaitKillable, uintptr(unsafe.Pointer(&fp)))
	if e != 0 {
		die("seccomp", e)
	}
	// from here on this thread must make no guarded call before the listener is
	// with the supervisor
	if err := syscall.Sendmsg(3, []byte{1}, syscall.UnixRights(int(fd)), nil, 0); err != nil {
		os.Exit(98)
	}
	syscall.CloseOnExec(3)
	syscall.CloseOnExec(int(fd))
	err := syscall.Exec(target, argv, env)
	die("exec", err)
}

// Guard runs a program and asks decide before each operation on a file in or
// below dir and each write to its output (Path "stdout"); argv[0] is the path.
func Guard(argv, env []string, stdin io.Reader, dir string, decide func(i int, op Op) Action) (*Outcome, error) {
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	defer syscall.Close(sp[0])
	theirs := os.NewFile(uintptr(sp[1]), "guard")
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	var stdout, stderr bytes.Buffer
	cmd := exec.Command(self)
	cmd.Args = argv
	cmd.Env = append(append([]string(nil), env...), guardEnv+"="+argv[0])
	cmd.Dir = dir
	cmd.Stdin = stdin
	cmd.Stdout = &stdout
	cmd.Stderr = &stderr
	cmd.ExtraFiles = []*os.File{theirs}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		theirs.Close()
		return nil, err
	}
	theirs.Close()
	pid := cmd.Process.Pid
	timer := time.AfterFunc(60*time.Second, func() { syscall.Kill(-pid, syscall.SIGKILL) })
	defer timer.Stop()
	one := make([]byte, 1)
	oob := make([]byte, 64)
	n, oobn, _, _, err := syscall.Recvmsg(sp[0], one, oob, syscall.MSG_CMSG_CLOEXEC)
	out := &Outcome{}
	if err != nil || n == 0 || oobn == 0 {
		cmd.Wait()
		return nil, fmt.Errorf("no listener: %v %s", err, stderr.String())
	}
	cm, err := syscall.ParseSocketControlMessage(oob[:oobn])
	if err != nil || len(cm) == 0 {
		return nil, fmt.Errorf("control message: %v", err)
	}
	fds, err := syscall.ParseUnixRights(&cm[0])
	if err != nil || len(fds) == 0 {
		return nil, fmt.Errorf("rights: %v", err)
	}
	listener := fds[0]
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		supervise(listener, pid, dir, out, decide)
	}()
	err = cmd.Wait()
	timedOut := !timer.Stop()
	wg.Wait()
	syscall.Close(listener)
	out.Stdout, out.Stderr = stdout.Bytes(), stderr.Bytes()
	out.TimedOut = timedOut
	if cmd.ProcessState != nil {
		out.Exit = cmd.ProcessState.ExitCode()
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		return out, err
	}
	if out.Exit == 97 || out.Exit == 98 {
		return out, fmt.Errorf("guard: %s", stderr.String())
	}
	return out, nil
}

type pollFd struct {
	Fd      int32
	Events  int16
	Revents int16
}

func supervise(listener, pid int, dir string, out *Outcome, decide func(int, Op) Action) {
	real, err := filepath.EvalSymlinks(dir)
	if err != nil {
		real = dir
	}
	inside := func(p string) bool {
		return p != "" && (strings.HasPrefix(p, real+"/") || strings.HasPrefix(p, dir+"/") || p == real || p == dir)
	}
	for {
		p := pollFd{int32(listener), 1, 0}
		_, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, 100)
		if e == syscall.EINTR {
			continue
		}
		if p.Revents&0x10 != 0 { // hung up: nobody is guarded any more
			return
		}
		if p.Revents&1 == 0 {
			if syscall.Kill(pid, 0) != nil {
				return
			}
			continue
		}
		var buf [80]byte
		_, _, e = syscall.Syscall(syscall.SYS_IOCTL, uintptr(listener), ioctlRecv, uintptr(unsafe.Pointer(&buf)))
		if e != 0 {
			continue
		}
		le := binary.LittleEndian
		id := le.Uint64(buf[0:])
		tid := int(le.Uint32(buf[8:]))
		nr := int(le.Uint32(buf[16:]))
		var args [6]uint64
		for i := range args {
			args[i] = le.Uint64(buf[32+8*i:])
		}
		op, relevant := describe(nr, tid, args, inside)
		var act Action
		if relevant {
			act = decide(out.Ops, op)
			out.Ops++
		}
		var resp [24]byte
		le.PutUint64(resp[0:], id)
		if act.Torn > 0 && op.Name == "write" {
			torn(pid, op, act.Torn)
		}
		switch {
		case act.Kill:
			out.Killed = true
			syscall.Kill(pid, syscall.SIGKILL)
			continue
		case act.Errno != 0:
			le.PutUint32(resp[16:], uint32(-int32(act.Errno)))
		case act.Torn > 0 && op.Name == "write":
			le.PutUint64(resp[8:], uint64(act.Torn))
		default:
			le.PutUint32(resp[20:], respContinue)
		}
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(listener), ioctlSend, uintptr(unsafe.Pointer(&resp)))
	}
}

func readString(pid int, addr uint64) string {
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", pid))
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, 0, 256)
	for len(b) < 4096 {
		var c [64]byte
		n, _ := f.ReadAt(c[:], int64(addr)+int64(len(b)))
		if n == 0 {
			return ""
		}
		if i := bytes.IndexByte(c[:n], 0); i >= 0 {
			return string(append(b, c[:i]...))
		}
		b = append(b, c[:n]...)
	}
	return string(b)
}

func describe(nr, tid int, args [6]uint64, inside func(string) bool) (Op, bool) {
	op := Op{Name: guarded[nr], pid: tid, Fd: -1}
	at := func(dirfd uint64, p string) string {
		if p == "" || filepath.IsAbs(p) {
			return p
		}
		base := fmt.Sprintf("/proc/%d/cwd", tid)
		if int32(dirfd) >= 0 {
			base = fmt.Sprintf("/proc/%d/fd/%d", tid, int32(dirfd))
		}
		d, _ := os.Readlink(base)
		return filepath.Join(d, p)
	}
	fd := func(n uint64) string {
		op.Fd = int(int32(n))
		s, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(n)))
		return strings.TrimSuffix(s, " (deleted)")
	}
	const here = uint64(0xffffff9c)
	switch nr {
	case syscall.SYS_OPEN:
		op.Path, op.Flags = at(here, readString(tid, args[0])), int(args[1])
	case syscall.SYS_CREAT:
		op.Path, op.Flags = at(here, readString(tid, args[0])), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC
	case syscall.SYS_OPENAT:
		op.Path, op.Flags = at(args[0], readString(tid, args[1])), int(args[2])
	case 437:
		op.Path, op.Flags = at(args[0], readString(tid, args[1])), syscall.O_CREAT|syscall.O_WRONLY
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		op.Path, op.addr, op.Size = fd(args[0]), args[1], int(args[2])
	case syscall.SYS_WRITEV, syscall.SYS_PWRITEV, syscall.SYS_SENDFILE, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, 306, syscall.SYS_FTRUNCATE, syscall.SYS_FALLOCATE, syscall.SYS_FCHMOD, syscall.SYS_CLOSE:
		op.Path = fd(args[0])
	case 326, syscall.SYS_SPLICE: // copy_file_range
		op.Path = fd(args[2])
	case syscall.SYS_SYNC:
		return op, true
	case syscall.SYS_RENAME, syscall.SYS_LINK:
		op.Path, op.To = at(here, readString(tid, args[0])), at(here, readString(tid, args[1]))
	case syscall.SYS_SYMLINK:
		op.Path = at(here, readString(tid, args[1]))
	case syscall.SYS_RENAMEAT, 316, syscall.SYS_LINKAT:
		op.Path, op.To = at(args[0], readString(tid, args[1])), at(args[2], readString(tid, args[3]))
	case syscall.SYS_SYMLINKAT:
		op.Path = at(args[1], readString(tid, args[2]))
	case syscall.SYS_UNLINK, syscall.SYS_TRUNCATE, syscall.SYS_CHMOD:
		op.Path = at(here, readString(tid, args[0]))
	case syscall.SYS_UNLINKAT, syscall.SYS_FCHMODAT:
		op.Path = at(args[0], readString(tid, args[1]))
	}
	if op.Name == "write" && op.Fd == 1 {
		op.Path = "stdout"
		return op, true
	}
	if op.Name == "open" && op.Flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) == 0 {
		return op, false
	}
	return op, inside(op.Path) || inside(op.To)
}

// torn carries out the first n bytes of a write for a guarded process.
func torn(pid int, op Op, n int) bool {
	data := op.Data()
	if len(data) < n {
		return false
	}
	pfd, _, e := syscall.Syscall(sysPidfdOpen, uintptr(pid), 0, 0)
	if e != 0 {
		return false
	}
	defer syscall.Close(int(pfd))
	fd, _, e := syscall.Syscall(sysPidfdGetfd, pfd, uintptr(op.Fd), 0)
	if e != 0 {
		return false
	}
	defer syscall.Close(int(fd))
	m, err := syscall.Write(int(fd), data[:n])
	return err == nil && m == n
}
