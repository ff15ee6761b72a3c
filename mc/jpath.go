package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/ref"
)

// buildJpath builds the command from the implementation's tree.
func buildJpath(dir string) (string, error) {
	bin := filepath.Join(dir, "jpath")
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	tmp := fmt.Sprintf("%s.%d", bin, os.Getpid())
	cmd := exec.Command("go", "build", "-mod=readonly", "-o", tmp, "./cmd/jpath")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, os.Rename(tmp, bin)
}

// input is a file (or standard input) given to jpath.
type input struct {
	data    []byte
	special string // "missing" or "dir": a file that cannot be opened, or read
}

// jrun is one run of jpath: with no files, stdin is read.
type jrun struct {
	path  string
	lines bool
	stdin []byte
	files []input
	flags []string // besides
	cut   int      // > 0: standard input is a pipe, and arrives in two parts
}

type jresult struct {
	out, err []byte
	code     int
	hang     bool
}

// panicked tells whether the run ended in a crash of the Go runtime.
func (r *jresult) panicked() string {
	for _, p := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		if i := bytes.Index(r.err, []byte(p)); i >= 0 && (i == 0 || r.err[i-1] == '\n') && bytes.Contains(r.err[i:], []byte("\ngoroutine ")) {
			return "jpath crashes: " + firstLine(string(r.err[i:]))
		}
	}
	return ""
}

// expected is what a run should do.
type expected struct {
	trees, eager []*ref.Tree
	ok           bool
	why          string
}

// stop is an error that ends a run.
type stop string

func (r *jrun) expect() (e expected) {
	p, err := ref.ParsePath(r.path)
	if err != nil {
		e.why = "the path is not valid"
		return e
	}
	value := func(v interface{}) string {
		t, err := ref.Eval(p, v, ref.Quirks{})
		if err != nil {
			return "evaluation error"
		}
		q, _ := ref.Eval(p, v, ref.Quirks{Eager: true})
		e.trees = append(e.trees, t)
		e.eager = append(e.eager, q)
		return ""
	}
	ins := r.files
	if len(ins) == 0 {
		ins = []input{{data: r.stdin}}
	}
	for _, in := range ins {
		if in.special != "" {
			e.why = in.special
			return e
		}
		if r.lines {
			ls := bytes.Split(in.data, []byte("\n"))
			if len(ls[len(ls)-1]) == 0 {
				ls = ls[:len(ls)-1]
			}
			for _, l := range ls {
				var v interface{}
				if json.Unmarshal(l, &v) != nil {
					e.why = "a line is not a JSON value"
					return e
				}
				if e.why = value(v); e.why != "" {
					return e
				}
			}
			continue
		}
		dec := json.NewDecoder(bytes.NewReader(in.data))
		for {
			var v interface{}
			err := dec.Decode(&v)
			if errors.Is(err, io.EOF) {
				break
			}
			if err != nil {
				e.why = "the input is not a sequence of JSON values"
				return e
			}
			if e.why = value(v); e.why != "" {
				return e
			}
		}
	}
	e.ok = true
	return e
}

// lists splits an output into the JSON lists it should consist of; whole tells whether it ends with one.
func lists(out []byte, lines bool) (ls [][]byte, whole bool, bad string) {
	for len(out) > 0 {
		var l []byte
		if lines {
			i := bytes.IndexByte(out, '\n')
			if i < 0 {
				return ls, false, ""
			}
			l, out = out[:i], out[i+1:]
			if !json.Valid(l) {
				return ls, true, fmt.Sprintf("an output line is not JSON: %.100q", l)
			}
		} else {
			dec := json.NewDecoder(bytes.NewReader(out))
			var m json.RawMessage
			if err := dec.Decode(&m); err != nil {
				if errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF) {
					return ls, false, ""
				}
				return ls, true, fmt.Sprintf("the output is not JSON: %.100q", out)
			}
			n := int(dec.InputOffset())
			l, out = out[:n], out[n:]
			if len(out) == 0 {
				return ls, false, ""
			}
			if out[0] != '\n' {
				return ls, true, "no newline after a result list"
			}
			out = out[1:]
			var c, want bytes.Buffer
			if json.Compact(&c, l) != nil || json.Indent(&want, c.Bytes(), "", "\t") != nil || !bytes.Equal(want.Bytes(), l) {
				return ls, true, fmt.Sprintf("a result list is not indented: %.200q", l)
			}
		}
		ls = append(ls, l)
	}
	return ls, true, ""
}

// matches checks the lists printed against the ones due.
func (e *expected) matches(ls [][]byte) string {
	if len(ls) > len(e.trees) {
		return fmt.Sprintf("%d result lists for %d values", len(ls), len(e.trees))
	}
	for i, l := range ls {
		var v interface{}
		if err := json.Unmarshal(l, &v); err != nil {
			return "output: " + err.Error()
		}
		a, ok := v.([]interface{})
		if !ok {
			return fmt.Sprintf("output %d is not a list: %.100q", i+1, l)
		}
		if !e.trees[i].Admits(a) && (e.eager[i] == nil || !e.eager[i].Admits(a)) {
			return fmt.Sprintf("result %d is %s, expected %s", i+1, show(a), show(e.trees[i].Leaves()))
		}
	}
	return ""
}

// verdict compares what jpath did with what it should have done.
func (e *expected) verdict(r jresult, lines bool) string {
	if r.hang {
		return "jpath does not end"
	}
	if p := r.panicked(); p != "" {
		return p
	}
	ls, whole, bad := lists(r.out, lines)
	switch {
	case e.ok && r.code != 0:
		return fmt.Sprintf("exit status %d (%.200q), though nothing went wrong", r.code, r.err)
	case !e.ok && r.code == 0:
		return "exit status 0, though " + e.why
	case !e.ok && len(bytes.TrimSpace(r.err)) == 0:
		return "no message, though " + e.why
	case bad != "":
		return bad
	case !whole:
		return fmt.Sprintf("the output ends within a result list: ...%.100q", r.out[max0(len(r.out)-100):])
	case len(ls) < len(e.trees):
		return fmt.Sprintf("%d result lists for %d values", len(ls), len(e.trees))
	}
	return e.matches(ls)
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// jworker runs jpath in a scratch directory.
type jworker struct {
	bin, dir string
}

func newJworker(bin string) *jworker {
	dir, err := os.MkdirTemp("", "mc-jpath-")
	if err != nil {
		fatal(err)
	}
	return &jworker{bin, dir}
}

func (j *jworker) close() { os.RemoveAll(j.dir) }

func (j *jworker) args(r *jrun) []string {
	var args []string
	if r.lines {
		args = append(args, "-l")
	}
	args = append(args, r.flags...)
	args = append(args, r.path)
	for i, in := range r.files {
		name := filepath.Join(j.dir, fmt.Sprintf("in%d", i))
		os.RemoveAll(name)
		switch in.special {
		case "missing":
		case "dir":
			os.Mkdir(name, 0o755)
		default:
			if err := os.WriteFile(name, in.data, 0o644); err != nil {
				fatal(err)
			}
		}
		args = append(args, name)
	}
	return args
}

const jpathLimit = 60 * time.Second

func (j *jworker) run(r *jrun) jresult {
	cmd := exec.Command(j.bin, j.args(r)...)
	cmd.Dir = j.dir
	cmd.Stdin = bytes.NewReader(r.stdin)
	if len(r.files) > 0 || len(r.stdin) == 0 {
		cmd.Stdin = nil
	}
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if r.cut > 0 {
		rd, wr, err := os.Pipe()
		if err != nil {
			fatal(err)
		}
		cmd.Stdin = rd
		go feed(rd, wr, r.stdin[:r.cut], r.stdin[r.cut:])
		defer rd.Close()
	}
	hang := wait(cmd)
	return jresult{ob.Bytes(), eb.Bytes(), exitCode(cmd), hang}
}

// feed writes the parts, each when the one before has been taken (or the reader is gone, or seems stuck).
func feed(rd, wr *os.File, parts ...[]byte) {
	defer wr.Close()
	for _, p := range parts {
		if _, err := wr.Write(p); err != nil {
			return
		}
		for t := time.Now(); time.Since(t) < time.Second; time.Sleep(20 * time.Microsecond) {
			var n int32
			rc, err := rd.SyscallConn()
			if err == nil {
				err = rc.Control(func(fd uintptr) {
					syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541b /* FIONREAD */, uintptr(unsafe.Pointer(&n)))
				})
			}
			if err != nil || n == 0 {
				break
			}
		}
	}
}

func wait(cmd *exec.Cmd) (hang bool) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	t := time.AfterFunc(jpathLimit, func() {
		hang = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	cmd.Wait()
	t.Stop()
	return hang
}

func exitCode(cmd *exec.Cmd) int {
	if cmd.ProcessState == nil {
		return -1
	}
	return cmd.ProcessState.ExitCode()
}

// A run is written in a case as: path, mode, then each input ("-" + data for standard input, "=" + data, "missing", "dir").
func (r *jrun) encode() Case {
	mode := ""
	if r.lines {
		mode = "-l"
	}
	k := Case{Kind: "jpath", N: r.cut, Ops: []Text{Text(r.path), Text(strings.TrimSpace(mode + " " + strings.Join(r.flags, " ")))}}
	if len(r.files) == 0 {
		k.Ops = append(k.Ops, Text("-"+string(r.stdin)))
	}
	for _, f := range r.files {
		if f.special != "" {
			k.Ops = append(k.Ops, Text(f.special))
		} else {
			k.Ops = append(k.Ops, Text("="+string(f.data)))
		}
	}
	return k
}

func decodeRun(k *Case) *jrun {
	r := &jrun{path: string(k.Ops[0]), cut: k.N}
	for _, f := range strings.Fields(string(k.Ops[1])) {
		if f == "-l" {
			r.lines = true
		} else {
			r.flags = append(r.flags, f)
		}
	}
	for _, o := range k.Ops[2:] {
		s := string(o)
		switch {
		case strings.HasPrefix(s, "-"):
			r.stdin = []byte(s[1:])
		case strings.HasPrefix(s, "="):
			r.files = append(r.files, input{data: []byte(s[1:])})
		default:
			r.files = append(r.files, input{special: s})
		}
	}
	return r
}

// jreplay gives a worker for one replayed case.
func jreplay(f func(j *jworker) string) string {
	dir := os.Getenv("MC_DRV")
	if dir == "" {
		var err error
		if dir, err = os.MkdirTemp("", "mc-jp-"); err != nil {
			fatal(err)
		}
		defer os.RemoveAll(dir)
	}
	bin, err := buildJpath(dir)
	if err != nil {
		fatal(err)
	}
	j := newJworker(bin)
	defer j.close()
	return f(j)
}

// jparallel runs f for all i in [0, n), each worker with a scratch directory.
func (c *Ctx) jparallel(bin string, n int, f func(w *Worker, j *jworker, i int)) {
	js := make(chan *jworker, c.nw)
	for i := 0; i < c.nw; i++ {
		js <- newJworker(bin)
	}
	c.Parallel(n, func(w *Worker, i int) {
		j := <-js
		f(w, j, i)
		js <- j
	})
	close(js)
	for j := range js {
		j.close()
	}
}
