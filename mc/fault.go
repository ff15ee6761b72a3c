package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// The command under test runs under a seccomp filter that reports its read and write calls
// to this process, which decides what they do: the bytes of its input are handed out, and the bytes
// of its output taken, by the checker, with a fault at the chosen byte.

// A fault is an error given once, or from then on, to the call that reaches a byte of a source (0, 1, ...) or the output (-1).
type fault struct {
	where int
	at    int
	errno syscall.Errno
	once  bool
}

// A plan is what to do to one run.
type plan struct {
	rchunk, wchunk int // > 0: the most bytes one call gives or takes
	faults         []fault
}

func (p *plan) String() string {
	s := fmt.Sprintf("%d %d", p.rchunk, p.wchunk)
	for _, f := range p.faults {
		s += fmt.Sprintf(" %d:%d:%d:%v", f.where, f.at, int(f.errno), f.once)
	}
	return s
}

func parsePlan(s string) (p *plan) {
	p = &plan{}
	fs := strings.Fields(s)
	p.rchunk, _ = strconv.Atoi(fs[0])
	p.wchunk, _ = strconv.Atoi(fs[1])
	for _, f := range fs[2:] {
		q := strings.Split(f, ":")
		var n [3]int
		for i := range n {
			n[i], _ = strconv.Atoi(q[i])
		}
		p.faults = append(p.faults, fault{n[0], n[1], syscall.Errno(n[2]), q[3] == "true"})
	}
	return p
}

// vresult is the outcome of a run under a plan.
type vresult struct {
	jresult
	hit   []bool // faults given
	other bool   // it used other calls on its files: the plan did not cover them
	reads int
}

const (
	sysSeccomp   = 317
	sysVMRead    = 310
	sysVMWrite   = 311
	notifRecv    = 0xc0502100
	notifSend    = 0xc0182101
	notifContine = 1
)

type notif struct {
	id    uint64
	pid   uint32
	flags uint32
	nr    int32
	arch  uint32
	ip    uint64
	args  [6]uint64
}

type notifResp struct {
	id    uint64
	val   int64
	err   int32
	flags uint32
}

// sandbox is the first thing run in the process that becomes the command:
// mc sandbox LIMIT NOTIFY BIN ARG...
// LIMIT is the largest file it may write (-1: any); NOTIFY tells to report calls by a listener sent over descriptor 3.
func sandbox(args []string) {
	runtime.LockOSThread()
	fail := func(what string, err error) {
		fmt.Fprintf(os.Stderr, "mc: sandbox: %s: %v\n", what, err)
		os.Exit(3)
	}
	if n, _ := strconv.Atoi(args[0]); n >= 0 {
		lim := syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			fail("setrlimit", err)
		}
	}
	if args[1] == "notify" {
		fd, err := listen()
		if err != nil {
			fail("seccomp", err)
		}
		if err := syscall.Sendmsg(3, []byte{0}, syscall.UnixRights(fd), nil, 0); err != nil {
			fail("sendmsg", err)
		}
		syscall.CloseOnExec(3)
	}
	err := syscall.Exec(args[2], args[2:], append(os.Environ(), "GODEBUG=asyncpreemptoff=1"))
	fail("exec", err)
}

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

func listen() (int, error) {
	const (
		ld  = 0x20
		jeq = 0x15
		ret = 0x06
	)
	calls := []uint32{0 /* read */, 1 /* write */, 17 /* pread64 */, 18, 19 /* readv */, 20, 40 /* sendfile */, 275 /* splice */, 295, 296, 326 /* copy_file_range */, 327, 328}
	prog := []sockFilter{{ld, 0, 0, 0}}
	for i, c := range calls {
		prog = append(prog, sockFilter{jeq, uint8(len(calls) - i), 0, c})
	}
	prog = append(prog, sockFilter{ret, 0, 0, 0x7fff0000}, sockFilter{ret, 0, 0, 0x7fc00000})
	fp := struct {
		n uint16
		p *sockFilter
	}{uint16(len(prog)), &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38 /* PR_SET_NO_NEW_PRIVS */, 1, 0, 0, 0, 0); e != 0 {
		return -1, e
	}
	for _, flags := range []uintptr{1<<3 | 1<<5, 1 << 3} {
		fd, _, e := syscall.RawSyscall(sysSeccomp, 1, flags, uintptr(unsafe.Pointer(&fp)))
		if e == 0 {
			return int(fd), nil
		}
		if e != syscall.EINVAL {
			return -1, e
		}
	}
	return -1, syscall.EINVAL
}

var errNoNotify = errors.New("system calls cannot be intercepted here")

// under runs the command as planned. The error is about the machinery, never about the command.
func (j *jworker) under(r *jrun, p *plan) (res vresult, err error) {
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return res, err
	}
	theirs := os.NewFile(uintptr(sp[1]), "theirs")
	args := j.args(r)
	cmd := exec.Command(os.Args[0], append([]string{"sandbox", "-1", "notify", j.bin}, args...)...)
	cmd.Dir = j.dir
	cmd.ExtraFiles = []*os.File{theirs}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is about the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		theirs.Close()
		syscall.Close(sp[0])
		return res, err
	}
	theirs.Close()
	t := time.AfterFunc(jpathLimit, func() {
		res.hang = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	defer t.Stop()
	lfd, err := recvFD(sp[0])
	syscall.Close(sp[0])
	if err != nil {
		cmd.Wait()
		return res, fmt.Errorf("%w: %s", errNoNotify, eb.String())
	}
	s := supervisor{j: j, r: r, p: p, lfd: lfd, off: make([]int, len(r.files)+1)}
	s.hit = make([]bool, len(p.faults))
	s.serve()
	syscall.Close(lfd)
	cmd.Wait()
	res.out, res.err, res.code = s.out, eb.Bytes(), exitCode(cmd)
	res.hit, res.other, res.reads = s.hit, s.other, s.reads
	return res, s.err
}

func recvFD(sock int) (int, error) {
	buf, oob := make([]byte, 1), make([]byte, 64)
	for {
		_, n, _, _, err := syscall.Recvmsg(sock, buf, oob, syscall.MSG_CMSG_CLOEXEC)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return -1, err
		}
		ms, err := syscall.ParseSocketControlMessage(oob[:n])
		if err != nil || len(ms) == 0 {
			return -1, errors.New("no descriptor received")
		}
		fds, err := syscall.ParseUnixRights(&ms[0])
		if err != nil || len(fds) != 1 {
			return -1, errors.New("no descriptor received")
		}
		return fds[0], nil
	}
}

type supervisor struct {
	j     *jworker
	r     *jrun
	p     *plan
	lfd   int
	off   []int // bytes given of each source
	out   []byte
	hit   []bool
	other bool
	reads int
	err   error
}

type pollfd struct {
	fd              int32
	events, revents int16
}

func (s *supervisor) serve() {
	for {
		pf := pollfd{fd: int32(s.lfd), events: 1}
		_, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&pf)), 1, ^uintptr(0))
		if e == syscall.EINTR {
			continue
		}
		if pf.revents&1 == 0 {
			return // the last process has gone
		}
		var n notif
		_, _, e = syscall.Syscall(syscall.SYS_IOCTL, uintptr(s.lfd), notifRecv, uintptr(unsafe.Pointer(&n)))
		if e != 0 {
			continue
		}
		resp := notifResp{id: n.id}
		val, errno, handled := s.call(&n)
		switch {
		case !handled:
			resp.flags = notifContine
		case errno != 0:
			resp.err = -int32(errno)
		default:
			resp.val = int64(val)
		}
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(s.lfd), notifSend, uintptr(unsafe.Pointer(&resp)))
	}
}

// source tells which source a descriptor of the process is, or -1.
func (s *supervisor) source(n *notif, fd int) int {
	if len(s.r.files) == 0 {
		if fd == 0 {
			return 0
		}
		return -1
	}
	if fd <= 2 {
		return -1
	}
	l, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", n.pid, fd))
	if err != nil || filepath.Dir(l) != s.j.dir || !strings.HasPrefix(filepath.Base(l), "in") {
		return -1
	}
	i, err := strconv.Atoi(filepath.Base(l)[2:])
	if err != nil || i >= len(s.r.files) || s.r.files[i].special != "" {
		return -1
	}
	return i
}

// next gives how many of want bytes at offset off may be passed before a fault, and the fault if there are none.
func (s *supervisor) next(where, off, want int) (int, syscall.Errno) {
	for i, f := range s.p.faults {
		if f.where != where || f.once && s.hit[i] {
			continue
		}
		if off >= f.at {
			s.hit[i] = true
			return 0, f.errno
		}
		if off+want > f.at {
			want = f.at - off
		}
	}
	return want, 0
}

func (s *supervisor) call(n *notif) (val int, errno syscall.Errno, handled bool) {
	fd := int(int32(n.args[0]))
	want := int(n.args[2])
	switch n.nr {
	case 0:
		src := s.source(n, fd)
		if src < 0 {
			return 0, 0, false
		}
		s.reads++
		data := s.r.stdin
		if len(s.r.files) > 0 {
			data = s.r.files[src].data
		}
		off := s.off[src]
		// a fault past the end is not reached; one at the end comes instead of the end
		if want > s.p.rchunk && s.p.rchunk > 0 {
			want = s.p.rchunk
		}
		if rest := len(data) - off; want > rest && rest > 0 {
			want = rest
		}
		want, errno = s.next(src, off, want)
		if errno != 0 {
			return 0, errno, true
		}
		if rest := len(data) - off; want > rest {
			want = rest
		}
		if want > 0 && !vm(sysVMWrite, n.pid, data[off:off+want], n.args[1]) {
			s.err = errors.New("cannot write into the process")
			return 0, syscall.EIO, true
		}
		s.off[src] += want
		return want, 0, true
	case 1:
		if fd != 1 {
			return 0, 0, false
		}
		if want > s.p.wchunk && s.p.wchunk > 0 {
			want = s.p.wchunk
		}
		want, errno = s.next(-1, len(s.out), want)
		if errno != 0 {
			return 0, errno, true
		}
		b := make([]byte, want)
		if want > 0 && !vm(sysVMRead, n.pid, b, n.args[1]) {
			s.err = errors.New("cannot read from the process")
			return 0, syscall.EIO, true
		}
		s.out = append(s.out, b...)
		return want, 0, true
	}
	fds := []int{fd}
	if n.nr == 40 || n.nr == 275 || n.nr == 326 {
		fds = append(fds, int(int32(n.args[1])), int(int32(n.args[2])))
	}
	for _, fd := range fds {
		if fd == 1 || s.source(n, fd) >= 0 {
			s.other = true
		}
	}
	return 0, 0, false
}

// vm copies between b and the memory of a process.
func vm(call uintptr, pid uint32, b []byte, addr uint64) bool {
	type iovec struct {
		base uintptr
		n    uint64
	}
	l := iovec{uintptr(unsafe.Pointer(&b[0])), uint64(len(b))}
	r := iovec{uintptr(addr), uint64(len(b))}
	n, _, e := syscall.Syscall6(call, uintptr(pid), uintptr(unsafe.Pointer(&l)), 1, uintptr(unsafe.Pointer(&r)), 1, 0)
	runtime.KeepAlive(b)
	return e == 0 && int(n) == len(b)
}
