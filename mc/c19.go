package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// early counts the values that have reached the command whole when its input fails at byte at of source src,
// and so have a result before the fault (or less, if the run ends on an error of its own before).
func (r *jrun) early(src, at int) int {
	q := *r
	q.files = nil
	for i := 0; i < src; i++ {
		q.files = append(q.files, r.files[i])
	}
	data := r.stdin
	if len(r.files) > 0 {
		data = r.files[src].data
	}
	if at > len(data) {
		at = len(data)
	}
	data = data[:at]
	if r.lines {
		data = data[:bytes.LastIndexByte(data, '\n')+1]
	} else {
		dec := json.NewDecoder(bytes.NewReader(data))
		end := 0
		for {
			var v json.RawMessage
			if dec.Decode(&v) != nil {
				break
			}
			// a number may go on
			if n := int(dec.InputOffset()); n < len(data) || !strings.ContainsAny(string(data[n-1:n]), "0123456789") {
				end = n
			}
		}
		data = data[:end]
	}
	q.files = append(q.files, input{data: data})
	e := q.expect()
	return len(e.trees)
}

// written counts the whole lists in the first n bytes of the output.
func written(out []byte, lines bool, n int) int {
	if n > len(out) {
		n = len(out)
	}
	ls, _, _ := lists(out[:n], lines)
	return len(ls)
}

// cleanRun is the behaviour without faults, found right by the model.
type cleanRun struct {
	e   expected
	out []byte
	bad string
}

func (j *jworker) clean(r *jrun) *cleanRun {
	e := r.expect()
	res := j.run(r)
	c := &cleanRun{e: e, out: res.out}
	if m := e.verdict(res, r.lines); m != "" {
		c.bad = "with no fault: " + m
	}
	return c
}

// faultVerdict decides a run with faults.
func faultVerdict(r *jrun, c *cleanRun, p *plan, res vresult) string {
	if res.hang {
		return "jpath does not end"
	}
	if m := res.panicked(); m != "" {
		return m
	}
	if !bytes.HasPrefix(c.out, res.out) {
		return fmt.Sprintf("the output is not a prefix of the right one: %.200q", res.out)
	}
	due := len(c.e.trees)
	any, pipe := false, false
	for i, f := range p.faults {
		if !res.hit[i] {
			continue
		}
		any = true
		n := 0
		if f.where < 0 {
			n = written(c.out, r.lines, f.at)
			pipe = pipe || f.errno == syscall.EPIPE
		} else {
			n = r.early(f.where, f.at)
		}
		if n < due {
			due = n
		}
	}
	if res.code == 0 {
		switch {
		case !c.e.ok:
			return "exit status 0, though " + c.e.why
		case !bytes.Equal(c.out, res.out):
			return fmt.Sprintf("exit status 0, with %d of %d bytes of output", len(res.out), len(c.out))
		}
		return ""
	}
	switch {
	case !any && c.e.ok:
		return fmt.Sprintf("exit status %d (%.200q), though nothing went wrong", res.code, res.err)
	case len(bytes.TrimSpace(res.err)) == 0 && !(pipe && res.code < 0):
		return "it fails with no message"
	}
	if ls, _, _ := lists(res.out, r.lines); len(ls) < due {
		return fmt.Sprintf("%d result lists, but %d values were read, and their results could be written, before the fault", len(ls), due)
	}
	return ""
}

func (j *jworker) planned(r *jrun, c *cleanRun, p *plan) string {
	if c.bad != "" {
		return c.bad
	}
	res, err := j.under(r, p)
	if errors.Is(err, errNoNotify) {
		return ""
	}
	if err != nil {
		fatal(err)
	}
	if res.other {
		return "" // not covered
	}
	return faultVerdict(r, c, p, res)
}

// devices are real outputs and inputs that fail.
var c19Devices = []string{"full", "readonly", "shut", "limit", "late", "slow", "reset", "noerr", "closederr"}

// device runs r with the named arrangement; n is the byte concerned.
func (j *jworker) device(r *jrun, c *cleanRun, name string, n int) (msg string) {
	if c.bad != "" {
		return c.bad
	}
	limit := -1
	args := j.args(r)
	var in, out, eout *os.File
	open := func(name string, flag int) *os.File {
		f, err := os.OpenFile(name, flag, 0o600)
		if err != nil {
			fatal(err)
		}
		return f
	}
	var closing []*os.File
	defer func() {
		for _, f := range closing {
			f.Close()
		}
	}()
	var eb, ob bytes.Buffer
	var drain func()
	p := &plan{}
	file := j.dir + "/out"
	os.Remove(file)
	file2 := false
	fail := func(at int, e syscall.Errno) { p.faults = append(p.faults, fault{-1, at, e, false}) }
	switch name {
	case "full":
		out = open("/dev/full", os.O_WRONLY)
		fail(0, syscall.ENOSPC)
	case "readonly":
		out = open("/dev/null", os.O_RDONLY)
		fail(0, syscall.EBADF)
	case "shut": // a pipe with no reader
		rd, wr, err := os.Pipe()
		if err != nil {
			fatal(err)
		}
		rd.Close()
		out = wr
		fail(0, syscall.EPIPE)
	case "limit":
		limit = n
		out = open(file, os.O_CREATE|os.O_RDWR|os.O_TRUNC)
		file2 = true
		fail(n, syscall.EFBIG)
	case "late", "slow":
		// a small pipe whose reader goes away after n bytes, or reads n bytes at a time, of a pipe that does not block
		rd, wr, err := os.Pipe()
		if err != nil {
			fatal(err)
		}
		sz, _, e := syscall.Syscall(syscall.SYS_FCNTL, wr.Fd(), 1031 /* F_SETPIPE_SZ */, 4096)
		if e != 0 {
			sz = 1 << 16
		}
		out = wr
		syscall.SetNonblock(int(rd.Fd()), false)
		syscall.SetNonblock(int(wr.Fd()), name == "slow")
		if name == "late" {
			fail(n+int(sz), syscall.EPIPE) // at the latest
		}
		drain = func() {
			b := make([]byte, n)
			for {
				m, err := rd.Read(b)
				ob.Write(b[:m])
				if err != nil || name == "late" && ob.Len() >= n {
					break
				}
				b = b[:n]
				if name == "late" {
					b = b[:n-ob.Len()]
				}
			}
			rd.Close()
		}
		if n == 0 {
			drain = func() { rd.Close() }
		}
	case "reset": // standard input fails after n bytes
		sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			fatal(err)
		}
		syscall.Write(sp[1], []byte("x"))
		for b := r.stdin[:n]; len(b) > 0; {
			m, err := syscall.Write(sp[0], b)
			if err != nil {
				fatal(err)
			}
			b = b[m:]
		}
		syscall.Close(sp[0])
		in = os.NewFile(uintptr(sp[1]), "in")
		p.faults = append(p.faults, fault{0, n, syscall.ECONNRESET, false})
	case "noerr":
		eout = open("/dev/full", os.O_WRONLY)
	case "closederr":
		rd, wr, err := os.Pipe()
		if err != nil {
			fatal(err)
		}
		rd.Close()
		eout = wr
	}
	cmd := exec.Command(os.Args[0], append([]string{"sandbox", strconv.Itoa(limit), "-", j.bin}, args...)...)
	cmd.Dir = j.dir
	switch {
	case in != nil:
		cmd.Stdin = in
		closing = append(closing, in)
	case len(r.files) == 0 && len(r.stdin) > 0:
		cmd.Stdin = bytes.NewReader(r.stdin)
	}
	cmd.Stdout = &ob
	if out != nil {
		cmd.Stdout = out
	}
	cmd.Stderr = &eb
	if eout != nil {
		cmd.Stderr = eout
		closing = append(closing, eout)
	}
	var wg sync.WaitGroup
	if drain != nil {
		// the reader sees the end only when our copy of the writer is gone
		wg.Add(1)
		go func() { defer wg.Done(); drain() }()
	}
	hang := waitStarted(cmd, func() {
		if drain != nil {
			out.Close()
		}
	})
	if out != nil {
		out.Close()
	}
	wg.Wait()
	res := vresult{jresult: jresult{ob.Bytes(), eb.Bytes(), exitCode(cmd), hang}}
	if file2 {
		b, err := os.ReadFile(file)
		if err != nil {
			fatal(err)
		}
		res.out = b
	}
	for _, f := range p.faults {
		// the fault is met if the output gets there
		res.hit = append(res.hit, f.where >= 0 || len(c.out) > f.at)
	}
	switch name {
	case "noerr", "closederr":
		if !c.e.ok && res.code == 0 {
			return "exit status 0, though " + c.e.why
		}
		if c.e.ok && res.code != 0 {
			return fmt.Sprintf("exit status %d, though nothing went wrong", res.code)
		}
		if !bytes.Equal(res.out, c.out) {
			return fmt.Sprintf("the output is not the right one: %.200q", res.out)
		}
		return ""
	case "late":
		// what the reader took; the pipe may have held the rest
		if !bytes.HasPrefix(c.out, res.out) {
			return fmt.Sprintf("the output is not a prefix of the right one: %.200q", res.out)
		}
		if m := res.panicked(); m != "" {
			return m
		}
		if (res.hit[0] || !c.e.ok) && res.code == 0 {
			return fmt.Sprintf("exit status 0, though the reader left after %d of %d bytes", n, len(c.out))
		}
		return ""
	}
	if name == "slow" && c.e.ok && (res.code != 0 || !bytes.Equal(c.out, res.out)) {
		return fmt.Sprintf("exit status %d (%.100q) and %d of %d bytes of output, though the reader was only slow", res.code, res.err, len(res.out), len(c.out))
	}
	if m := faultVerdict(r, c, p, res); m != "" {
		return m
	}
	if name == "limit" && len(c.out) > n && len(res.out) < n && written(c.out, r.lines, n) > written(res.out, r.lines, len(res.out)) {
		return fmt.Sprintf("%d bytes of output, though %d could be written", len(res.out), n)
	}
	return ""
}

func waitStarted(cmd *exec.Cmd, started func()) (hang bool) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	started()
	t := time.AfterFunc(jpathLimit, func() {
		hang = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	cmd.Wait()
	t.Stop()
	return hang
}

// the values of the runs: of each kind of JSON, on one line or more, some with an error
var c19Items = []string{`[1,"x"]`, `12`, `-3.5e2`, `"a\"<é"`, `{"a":{"b":[]}}`, `true`, "[\n1]", `}`, `{"l":[1,{"a":2}]}`}

type c19Job struct {
	base int
	plan *plan
	dev  string
	n    int
}

// c19Bases gives the runs faults are put into, small ones first.
func c19Bases(thorough bool) (small, medium, big []*jrun) {
	two := func(path string, l []string, lines bool, cut []int) *jrun {
		return divide(jrun{path: path, lines: lines}, l, "\n", true, cut)
	}
	for _, lines := range []bool{false, true} {
		for _, a := range c19Items {
			small = append(small, two("$", []string{a}, lines, nil))
			for _, b := range c19Items {
				small = append(small, two("$", []string{a, b}, lines, nil))
			}
		}
		// several files, an error in the middle, no final newline, blanks
		for _, l := range [][]string{
			{`{"l":[[1,"x"],[1]]}`, `{"l":[[1],[0,1]]}`, `{"l":[[1]]}`},
			{`{"l":[[1,"x"],[1]]}`, `{"l":[[1],7]}`, `{"l":[[1]]}`},
			{`{"l":[[1,"x"]]}`, `{"l":[[1],[1]]}`, `{"l":`},
			{`12`, `34`, `56`},
		} {
			for _, cut := range [][]int{nil, {}, {1}, {2}, {1, 2}, {0, 3}} {
				medium = append(medium, two("$.l[?(1 in @)]", l, lines, cut))
				r := divide(jrun{path: "$", lines: lines}, l, "\n", false, cut)
				medium = append(medium, r)
			}
		}
		for _, fs := range [][]input{
			{{data: []byte("[1]\n12\n")}, {special: "missing"}, {data: []byte("[2]\n")}},
			{{data: []byte("[1]\n12\n")}, {special: "dir"}, {data: []byte("[2]\n")}},
		} {
			medium = append(medium, &jrun{path: "$", lines: lines, files: fs})
		}
		// outputs and inputs past the buffers
		var many, wide strings.Builder
		for i := 0; i < 1500; i++ {
			fmt.Fprintf(&many, "%d\n", i*7)
		}
		for i := 0; i < 1500; i++ {
			fmt.Fprintf(&wide, "%d,", i)
		}
		x := []byte(many.String())
		y := []byte("[" + wide.String() + "0]\n\"" + strings.Repeat("s", 5000) + "\"\n[1]\n")
		big = append(big,
			&jrun{path: "$", lines: lines, stdin: x},
			&jrun{path: "$", lines: lines, stdin: y},
			&jrun{path: "$", lines: lines, files: []input{{data: x[:len(x)/4]}, {data: y}, {data: x}}},
			&jrun{path: "$.*", lines: lines, stdin: append(append([]byte{}, y...), "}\n"...)},
			&jrun{path: "$.length", lines: lines, stdin: append(append([]byte{}, y...), x...)},
		)
	}
	return
}

func (r *jrun) sources() [][]byte {
	if len(r.files) == 0 {
		return [][]byte{r.stdin}
	}
	var s [][]byte
	for _, f := range r.files {
		s = append(s, f.data)
	}
	return s
}

func c19(c *Ctx) {
	bin, err := buildJpath(drvDir(os.TempDir()))
	if err != nil {
		fatal(err)
	}
	small, medium, big := c19Bases(c.thorough)
	bases := append(append(append([]*jrun{}, small...), medium...), big...)
	clean := make([]*cleanRun, len(bases))
	c.jparallel(bin, len(bases), func(w *Worker, j *jworker, i int) {
		w.slot.begin('l', jtext(bases[i].encode()), "")
		clean[i] = j.clean(bases[i])
		w.slot.clear()
		w.traces++
		if clean[i].bad != "" {
			k := bases[i].encode()
			k.Name = "none"
			k.Msg = clean[i].bad
			c.Violation(k)
		}
	})
	if c.Late() {
		return
	}
	notify := true
	{
		j := newJworker(bin)
		if _, err := j.under(bases[0], &plan{}); errors.Is(err, errNoNotify) {
			notify = false
			c.Bound("system calls cannot be intercepted here (%v): faults by real devices only", err)
			c.partial.Store(true)
		} else if err != nil {
			fatal(err)
		}
		j.close()
	}
	var jobs []c19Job
	counts := map[string]int{}
	virt := func(what string, b int, p plan) {
		for _, f := range p.faults {
			if f.errno == syscall.EINTR && !f.once {
				return // to try again for ever is right
			}
		}
		if notify {
			jobs = append(jobs, c19Job{base: b, plan: &p})
			counts[what]++
		}
	}
	bytesOf := func(n int) []int { // of a big text
		if c.thorough && n < 20000 {
			return upto(0, n)
		}
		var s []int
		for i := 0; i <= n; i++ {
			if m := i % 512; i < 3 || i > n-3 || m < 2 || m > 510 || i%1024 == 100 {
				s = append(s, i)
			}
		}
		return s
	}
	inErr := []syscall.Errno{syscall.EIO}
	outErr := []syscall.Errno{syscall.ENOSPC}
	if c.thorough {
		inErr = []syscall.Errno{syscall.EIO, syscall.EINTR, syscall.ECONNRESET, syscall.EAGAIN, syscall.EINVAL}
		outErr = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EINTR, syscall.EPIPE, syscall.EAGAIN, syscall.EINVAL}
	}
	// every byte, small
	for b, r := range bases {
		isBig := b >= len(small)+len(medium)
		span := func(n int) []int {
			if isBig {
				return bytesOf(n)
			}
			return upto(0, n)
		}
		for _, ch := range [][2]int{{1, 0}, {0, 1}, {1, 1}, {2, 3}, {3, 2}, {7, 0}, {0, 7}} {
			if isBig && ch != [2]int{7, 0} && ch != [2]int{0, 7} {
				continue
			}
			virt("short reads or writes", b, plan{rchunk: ch[0], wchunk: ch[1]})
		}
		for s, data := range r.sources() {
			if len(r.files) > 0 && r.files[s].special != "" {
				continue
			}
			for _, n := range span(len(data)) {
				for ei, e := range inErr {
					virt("read fails at a byte", b, plan{faults: []fault{{s, n, e, false}}})
					if !isBig || c.thorough && ei == 0 {
						virt("one read fails at a byte", b, plan{faults: []fault{{s, n, e, true}}})
					}
				}
				if !isBig && (c.thorough || b >= len(small)) {
					virt("read fails at a byte, byte by byte", b, plan{rchunk: 1, faults: []fault{{s, n, syscall.EIO, false}}})
				}
			}
		}
		for _, n := range span(len(clean[b].out)) {
			if m := n % 4096; isBig && !c.thorough && m > 1 && m < 4095 && n < len(clean[b].out)-3 && n%1024 != 100 {
				continue
			}
			for ei, e := range outErr {
				virt("write fails at a byte", b, plan{faults: []fault{{-1, n, e, false}}})
				if !isBig || c.thorough && ei == 0 || n%4096 < 2 || n%4096 > 4094 {
					virt("one write fails at a byte", b, plan{faults: []fault{{-1, n, e, true}}})
				}
			}
			if !isBig && (c.thorough || b >= len(small)) {
				virt("write fails at a byte, byte by byte", b, plan{wchunk: 1, faults: []fault{{-1, n, syscall.ENOSPC, true}}})
			}
		}
	}
	// a read and a write fault: every pair of bytes
	for b, r := range bases {
		if b >= len(small)+len(medium) || len(r.files) > 0 {
			break
		}
		if !c.thorough && (b*2 < len(small) || b%11 != 0) {
			continue
		}
		for i := 0; i <= len(r.stdin); i++ {
			for o := 0; o <= len(clean[b].out); o++ {
				virt("a read and a write fail", b, plan{faults: []fault{{0, i, syscall.EIO, false}, {-1, o, syscall.EIO, (i+o)%2 == 0}}})
			}
		}
	}
	// another errno for each, in the quick run
	if !c.thorough {
		for _, b := range []int{1, len(small) / 2, len(small), len(small) + len(medium)/2} {
			for n := 0; n <= 24; n++ {
				for _, once := range []bool{false, true} {
					for _, e := range []syscall.Errno{syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.EIO} {
						virt("other errors", b, plan{faults: []fault{{0, n, e, once}}})
						virt("other errors", b, plan{faults: []fault{{-1, n, e, once}}})
					}
				}
			}
		}
	}
	dev := func(name string, b, n int) {
		jobs = append(jobs, c19Job{base: b, dev: name, n: n})
		counts["device "+name]++
	}
	for b, r := range bases {
		isBig := b >= len(small)+len(medium)
		for _, d := range []string{"full", "readonly", "shut", "noerr", "closederr"} {
			dev(d, b, 0)
		}
		out := clean[b].out
		if b >= len(small) || !notify {
			for n := 0; n <= len(out); n++ {
				if m := n % 4096; !isBig || m < 2 || m > 4094 || n%1024 == 0 {
					dev("limit", b, n)
				}
			}
			if len(r.files) == 0 {
				for n := 0; n <= len(r.stdin); n++ {
					if m := n % 512; !isBig || m < 2 || m > 510 {
						dev("reset", b, n)
					}
				}
			}
		}
		if isBig {
			for _, n := range []int{0, 1, 100, 4095, 4096, 4097, 8192, len(out) - 1} {
				if n < len(out) {
					dev("late", b, n)
				}
				if n > 0 {
					dev("slow", b, n)
				}
			}
		}
	}
	// the input cut at every byte: another run, decided by the model
	type cutJob struct{ b, s, n int }
	var cutJobs []cutJob
	for b, r := range bases {
		for s, data := range r.sources() {
			if len(r.files) > 0 && r.files[s].special != "" {
				continue
			}
			for n := 0; n < len(data); n++ {
				if m := n % 512; b < len(small)+len(medium) || m < 2 || m > 510 {
					cutJobs = append(cutJobs, cutJob{b, s, n})
				}
			}
		}
	}
	counts["input cut at a byte"] = len(cutJobs)
	var names []string
	for n := range counts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.Bound("%s: %d runs", n, counts[n])
	}
	c.Bound("%d runs without faults: all of 1 and 2 of %d items in both modes, up to 3 files, ends in error, and %d of up to 3 files with inputs and outputs past the buffers", len(bases), len(c19Items), len(big))
	c.jparallel(bin, len(cutJobs), func(w *Worker, j *jworker, i int) {
		cj := cutJobs[i]
		r := *bases[cj.b]
		if len(r.files) > 0 {
			r.files = append([]input{}, r.files...)
			r.files[cj.s].data = r.files[cj.s].data[:cj.n]
		} else {
			r.stdin = r.stdin[:cj.n]
		}
		k := r.encode()
		w.slot.begin('l', jtext(k), "")
		e := r.expect()
		msg := e.verdict(j.run(&r), r.lines)
		w.slot.clear()
		w.traces++
		if !e.ok {
			w.nontriv++
		}
		if msg != "" {
			k.Name = "none"
			k.Msg = "input cut at a byte: " + msg
			c.Violation(k)
		}
	})
	c.jparallel(bin, len(jobs), func(w *Worker, j *jworker, i int) {
		jb := jobs[i]
		r := bases[jb.base]
		k := r.encode()
		if jb.plan != nil {
			k.Name = "plan " + jb.plan.String()
		} else {
			k.Name, k.N = "device "+jb.dev, jb.n
		}
		w.slot.begin('l', jtext(k), "")
		var msg string
		if jb.plan != nil {
			msg = j.planned(r, clean[jb.base], jb.plan)
		} else {
			msg = j.device(r, clean[jb.base], jb.dev, jb.n)
		}
		w.slot.clear()
		w.traces++
		w.nontriv++
		w.states[hashString(jtext(k))] = struct{}{}
		if msg != "" {
			if jb.plan != nil {
				k.Msg = msg + " (faults " + jb.plan.String() + ")"
			} else {
				k.Msg = fmt.Sprintf("%s (%s at byte %d)", msg, jb.dev, jb.n)
			}
			c.Violation(k)
		}
	})
	k := bases[len(small)].encode()
	if len(jobs) > 0 && jobs[len(jobs)/2].plan != nil {
		k = bases[jobs[len(jobs)/2].base].encode()
		k.Name = "plan " + jobs[len(jobs)/2].plan.String()
	}
	c.Sample(k)
}

func init() {
	register(&Check{ID: "C19", Level: "fault_enumeration", Run: c19, Replay: func(k *Case) string {
		return jreplay(func(j *jworker) string {
			name, n := k.Name, k.N
			q := *k
			q.N = 0
			r := decodeRun(&q)
			c := j.clean(r)
			switch {
			case strings.HasPrefix(name, "plan "):
				return j.planned(r, c, parsePlan(name[5:]))
			case strings.HasPrefix(name, "device "):
				return j.device(r, c, name[7:], n)
			}
			return c.bad
		})
	},
		Rule:        "each run of a bounded set is repeated with one or two faults at each byte of its inputs and its output, handed out by intercepting the read and write calls of the command built from the current tree, or by real devices that fail; its exit status, message and output are compared with the ones of the model and of the run without faults; runs in which a fault was arranged are nontrivial",
		Assumptions: []string{"a standard output that is not open is replaced by /dev/null by the Go runtime, and out of reach", "data a pipe has accepted has reached standard output"}})
}
