package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc/scen"
)

// drivers are the programs that run concurrent scenarios.
type drivers struct {
	dir     string
	inst    string // instrumented; "" if that is not possible
	native  string // as it is, with the race detector
	instErr string
	stats   instrumented
}

func goBuild(args ...string) error {
	cmd := exec.Command("go", append([]string{"build", "-race"}, args...)...)
	cmd.Dir = filepath.Join(verifDir(), "mc")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// buildDrivers builds them in dir, unless they are there.
func buildDrivers(dir string) (*drivers, error) {
	d := &drivers{dir: dir, inst: filepath.Join(dir, "drv"), native: filepath.Join(dir, "drvn")}
	if _, err := os.Stat(d.native); err == nil {
		if _, err := os.Stat(d.inst); err != nil {
			d.inst = ""
		}
		return d, nil
	}
	src := filepath.Join(dir, "inst")
	os.MkdirAll(src, 0o755)
	modfile := func(name, repo string) string {
		f := filepath.Join(dir, name)
		os.WriteFile(f, []byte("module verif/mc\n\ngo 1.20\n\nrequire "+repoModule+" v0.0.0\n\nreplace "+repoModule+" => "+repo+"\n"), 0o644)
		return f
	}
	st, err := instrument(src)
	d.stats = st
	if err == nil {
		err = goBuild("-tags", "vsinst", "-modfile", modfile("inst.mod", src), "-o", d.inst, "./drv")
	}
	if err != nil {
		d.instErr = err.Error()
		d.inst = ""
	}
	if err := goBuild("-modfile", modfile("native.mod", repoDir()), "-o", d.native, "./drv"); err != nil {
		return nil, err
	}
	return d, nil
}

func drvDir(dir string) string {
	if s := os.Getenv("MC_DRV"); s != "" {
		return s
	}
	return dir
}

const drvQuiet = 60 * time.Second // longest silence of a driver

// run runs scenarios on several processes. A scenario that a process does not survive has a result with a message.
func (d *drivers) run(mode string, ss []*scen.Scenario, procs, max int, limit time.Duration, until time.Time, each func(r *scen.Result)) (harness error) {
	file := filepath.Join(d.dir, fmt.Sprintf("scen-%s-%d.json", mode, time.Now().UnixNano()))
	b, _ := json.Marshal(ss)
	if err := os.WriteFile(file, b, 0o644); err != nil {
		return err
	}
	defer os.Remove(file)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			// after a crash, go on with the scenario that follows
			for from := k; from < len(ss) && time.Now().Before(until); {
				last, err, bad := d.process(mode, file, from, procs, max, limit, until, func(r *scen.Result) {
					mu.Lock()
					defer mu.Unlock()
					each(r)
				})
				if bad != nil {
					mu.Lock()
					each(bad)
					mu.Unlock()
				}
				if err != nil {
					mu.Lock()
					harness = err
					mu.Unlock()
					return
				}
				if bad == nil {
					return
				}
				from = last + procs
			}
		}(k)
	}
	wg.Wait()
	return harness
}

func (d *drivers) process(mode, file string, from, procs, max int, limit time.Duration, until time.Time, each func(r *scen.Result)) (last int, err error, bad *scen.Result) {
	bin := d.inst
	if mode == "native" {
		bin = d.native
	}
	cmd := exec.Command(bin, mode, file, strconv.Itoa(from), strconv.Itoa(procs), strconv.Itoa(max), strconv.Itoa(int(limit/time.Millisecond)))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOTRACEBACK=all")
	var eb tail
	cmd.Stderr = &eb
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return 0, err, nil
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return 0, err, nil
	}
	lines := make(chan *scen.Result, 64)
	go func() {
		defer close(lines)
		sc := bufio.NewScanner(pipe)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			r := new(scen.Result)
			if json.Unmarshal(sc.Bytes(), r) == nil {
				lines <- r
			}
		}
	}()
	busy := false
	kill := func(sig syscall.Signal) { syscall.Kill(-cmd.Process.Pid, sig) }
	end := time.NewTimer(time.Until(until))
	defer end.Stop()
	for {
		quiet := time.NewTimer(drvQuiet + limit)
		select {
		case r := <-lines:
			quiet.Stop()
			if r == nil {
				err := cmd.Wait()
				if err == nil {
					return last, nil, nil
				}
				s := eb.String()
				if !busy || strings.HasPrefix(s, "drv:") {
					return last, fmt.Errorf("driver: %v: %s", err, s), nil
				}
				return last, nil, &scen.Result{I: last, Msg: "the process crashed: " + crashLine(s)}
			}
			last = r.I
			busy = r.Start
			if !r.Start {
				if r.Msg == "data race" {
					r.Msg += ": " + raceSummary(eb.String())
				}
				each(r)
			}
		case <-quiet.C:
			kill(syscall.SIGKILL)
			for range lines {
			}
			cmd.Wait()
			return last, nil, &scen.Result{I: last, Msg: "no result: the calls do not end"}
		case <-end.C:
			quiet.Stop()
			kill(syscall.SIGKILL)
			for range lines {
			}
			cmd.Wait()
			return last, nil, nil
		}
	}
}

// raceSummary gives the functions involved in the first race reported.
func raceSummary(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	var fs []string
	for _, l := range strings.Split(s[i:], "\n") {
		if strings.Contains(l, repoModule) && strings.HasSuffix(strings.TrimSpace(l), ")") {
			fs = append(fs, strings.TrimSpace(strings.ReplaceAll(l, repoModule, "")))
			if len(fs) == 4 {
				break
			}
		}
	}
	return strings.Join(fs, " / ")
}

func schedCase(ss []*scen.Scenario, mode string, r *scen.Result) Case {
	b, _ := json.Marshal(ss[r.I])
	return Case{Kind: "sched", Name: mode, Ops: []Text{Text(b)}, Sched: r.Sched, Msg: r.Msg + " [" + clipS(r.Trace) + "]"}
}

func replaySched(k *Case) string {
	dir := os.Getenv("MC_DRV")
	if dir == "" {
		var err error
		dir, err = os.MkdirTemp("", "mc-drv-")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(dir)
	}
	d, err := buildDrivers(dir)
	if err != nil {
		fatal(err)
	}
	var s scen.Scenario
	if err := json.Unmarshal([]byte(k.Ops[0]), &s); err != nil {
		fatal(err)
	}
	ss := []*scen.Scenario{&s}
	mode, max := k.Name, 3000
	msg := ""
	if mode != "native" {
		if d.inst == "" {
			return ""
		}
		if len(k.Sched) > 0 {
			f := filepath.Join(d.dir, fmt.Sprintf("replay-%d.json", os.Getpid()))
			b, _ := json.Marshal(ss)
			os.WriteFile(f, b, 0o644)
			defer os.Remove(f)
			ch, _ := json.Marshal(k.Sched)
			cmd := exec.Command(d.inst, "replay", f, "0", "1", "1", "1000", string(ch))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
			var ob, eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &ob, &eb
			if err := cmd.Run(); err != nil {
				return "the process crashed: " + crashLine(eb.String())
			}
			var r scen.Result
			json.Unmarshal(ob.Bytes(), &r)
			return r.Msg
		}
	}
	if err := d.run(mode, ss, 1, max, 20*time.Second, time.Now().Add(60*time.Second), func(r *scen.Result) { msg = r.Msg }); err != nil {
		fatal(err)
	}
	return msg
}

// scenarios explores (or runs) the scenarios and records what was found.
func (c *Ctx) scenarios(d *drivers, what, mode string, ss []*scen.Scenario, procs, max int, limit time.Duration) {
	if len(ss) == 0 || c.Enough() {
		return
	}
	if mode != "native" && d.inst == "" {
		return
	}
	if mode == "native" && c.nviol > 0 {
		return // known already, and repeatable
	}
	t0 := time.Now()
	execs, capped, done, gos, most := 0, 0, 0, 0, 0
	err := d.run(mode, ss, procs, max, limit, c.deadline, func(r *scen.Result) {
		done++
		if r.Err != "" {
			c.mu.Lock()
			if d.instErr == "" {
				d.instErr = r.Err
			}
			c.mu.Unlock()
			c.partial.Store(true)
		}
		execs += r.Execs
		if r.Capped {
			capped++
		}
		if r.Gos > gos {
			gos = r.Gos
		}
		if r.Execs > most {
			most = r.Execs
		}
		c.mu.Lock()
		c.trans += r.Steps
		c.traces += r.Execs
		c.nodes += r.Nodes
		if r.Execs > 1 {
			c.nontrivial += r.Execs
		}
		c.counts[mode+" executions"] += r.Execs
		c.counts[mode+" scenarios"]++
		c.counts[mode+" redundant executions cut"] += r.Pruned
		c.outcomes[hashString(fmt.Sprint(what, r.I%997, r.Outcomes))] = struct{}{}
		c.mu.Unlock()
		if r.Msg != "" {
			c.Violation(schedCase(ss, mode, r))
		}
	})
	if err != nil {
		fatal(err)
	}
	if capped > 0 || done < len(ss) {
		c.partial.Store(true)
	}
	word := "every interleaving (up to commutation) of"
	switch mode {
	case "full":
		word = "every interleaving (up to commutation of operations on different objects) of"
	case "native":
		word = "free runs under the race detector of"
	}
	c.Bound("%s: %s %d of %d scenarios: %d executions, at most %d in one, up to %d goroutines; %d scenarios capped (%.1fs)", what, word, done, len(ss), execs, most, gos, capped, time.Since(t0).Seconds())
}
