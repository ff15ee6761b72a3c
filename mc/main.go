// Command mc model-checks forsyth/jsonpath.
//
//	mc run CXX       run the check (as a supervised child) and report
//	mc replay FILE   decide the single case in FILE
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// result is what a child reports to its parent.
type result struct {
	Violations []Case
	NViol      int
	Known      map[string]int
	Counts     map[string]int
	Samples    []interface{}
	Bounds     []string
	Capped     bool
	States     int
	Trans      int
	Traces     int
	Nontrivial int
	Outcomes   int
	Wall       float64
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run CXX | mc replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		parent(os.Args[2])
	case "child":
		child(os.Args[2], os.Args[3])
	case "replay":
		replay(os.Args[2])
	case "sandbox":
		sandbox(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

// limits on one run, well inside the caller's
func budget() time.Duration {
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			return d
		}
	}
	if tier() == "thorough" {
		return 700 * time.Second
	}
	return 240 * time.Second
}

func child(id, dir string) {
	debug.SetGCPercent(300)
	ch := checks[id]
	c := newCtx(ch, tier() == "thorough", seed())
	t0 := time.Now()
	c.deadline = t0.Add(budget())
	c.found = filepath.Join(dir, "found.json")
	var err error
	c.slots, err = openSlots(filepath.Join(dir, "slots"))
	if err != nil {
		fatal(err)
	}
	ch.Run(c)
	r := result{Violations: c.violations, NViol: c.nviol, Known: c.known, Counts: c.counts, Samples: c.samples,
		Bounds: c.bounds, Capped: c.capped.Load() || c.partial.Load(), States: len(c.states) + c.nodes, Trans: c.trans, Traces: c.traces,
		Nontrivial: c.nontrivial, Outcomes: len(c.outcomes), Wall: time.Since(t0).Seconds()}
	b, err := json.Marshal(r)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "mc:", err)
	os.Exit(3)
}

// replay decides one case: exit 0 if the property holds on it, 1 if not.
func replay(file string) {
	debug.SetGCPercent(300)
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var k Case
	if err := json.Unmarshal(b, &k); err != nil {
		fatal(err)
	}
	msg := decide(&k)
	if msg == "" {
		fmt.Println("holds")
		return
	}
	fmt.Println("violated:", msg)
	os.Exit(1)
}

func decide(k *Case) string {
	if k.Kind == "eval" || k.Kind == "compile" {
		return replayEval(k)
	}
	return checks[k.Check].Replay(k)
}

// timeLeft is how long this process may still take: the caller gives up on it at 900 s.
func timeLeft() time.Duration { return 850*time.Second - time.Since(started) }

const (
	hangAge    = 40 * time.Second
	hangReplay = 90 * time.Second

	childMem  = 16 << 30 // more memory than this is more than any check needs
	replayMem = 8 << 30
)

// resident returns the size in memory of a process and all its descendants.
func resident(pid int) int64 {
	type proc struct {
		parent int
		rss    int64
	}
	procs := map[int]proc{}
	names, _ := filepath.Glob("/proc/[0-9]*/stat")
	for _, f := range names {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		n, _ := strconv.Atoi(strings.Split(f, "/")[2])
		s := string(b)
		fields := strings.Fields(s[strings.LastIndexByte(s, ')')+1:]) // from the state, field 3
		if len(fields) < 22 {
			continue
		}
		var p proc
		p.parent, _ = strconv.Atoi(fields[1])
		pages, _ := strconv.ParseInt(fields[21], 10, 64)
		p.rss = pages * int64(os.Getpagesize())
		procs[n] = p
	}
	var total int64
	for n, p := range procs {
		for q, depth := n, 0; q > 1 && depth < 20; q, depth = procs[q].parent, depth+1 {
			if q == pid {
				total += p.rss
				break
			}
		}
	}
	return total
}

var maxMem int64 // seen in a child

// runChild runs the check once in a child process.
func runChild(id, dir string) (r *result, stderr string, suspects []Case, hung bool) {
	slots, err := openSlots(filepath.Join(dir, "slots"))
	if err != nil {
		fatal(err)
	}
	os.Remove(filepath.Join(dir, "result.json"))
	os.Remove(filepath.Join(dir, "found.json"))
	cmd := exec.Command(os.Args[0], "child", id, dir)
	var eb tail
	cmd.Stderr = &eb
	cmd.Stdout = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(300 * time.Millisecond)
	defer tick.Stop()
	big := false
	hard := time.After(budget() + 110*time.Second)
	var werr error
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-hard:
			hung = true
		case <-tick.C:
			for i := 0; i < nSlots; i++ {
				if _, _, _, age, busy := slots.slot(i).read(); busy && age > hangAge {
					hung = true
				}
			}
			if m := resident(cmd.Process.Pid); m > childMem {
				big, hung = true, true
			} else if m > maxMem {
				maxMem = m
			}
		}
		if hung {
			// suspects are the cases that have been running for long
			for i := 0; i < nSlots; i++ {
				if k, a, b, age, busy := slots.slot(i).read(); busy && (age > hangAge/2 || big && age > time.Second) {
					suspects = append(suspects, slotCase(id, k, a, b))
				}
			}
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			if big {
				return nil, "killed: too much memory", suspects, true
			}
			return nil, "killed: no progress", suspects, true
		}
	}
	if werr == nil {
		b, err := os.ReadFile(filepath.Join(dir, "result.json"))
		if err == nil {
			r = new(result)
			if json.Unmarshal(b, r) == nil {
				return r, "", nil, false
			}
		}
	}
	for i := 0; i < nSlots; i++ {
		if k, a, b, _, busy := slots.slot(i).read(); busy {
			suspects = append(suspects, slotCase(id, k, a, b))
		}
	}
	return nil, fmt.Sprint(werr, ": ", eb.String()), suspects, false
}

// tail keeps the beginning of what is written to it
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 8192 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

func slotCase(id string, kind byte, a, b string) Case {
	switch kind {
	case 'c':
		return Case{Check: id, Kind: "compile", Path: Text(a)}
	case 'e':
		return Case{Check: id, Kind: "eval", Path: Text(a), Doc: Text(b)}
	}
	var k Case
	json.Unmarshal([]byte(a), &k)
	k.Check = id
	return k
}

// solo runs one case in its own process.
func solo(k Case, dir string) (violated bool, msg string) {
	file := filepath.Join(dir, "solo.json")
	b, _ := json.Marshal(k)
	os.WriteFile(file, b, 0o644)
	cmd := exec.Command(os.Args[0], "replay", file)
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	late := time.After(hangReplay)
again:
	select {
	case <-tick.C:
		if resident(cmd.Process.Pid) > replayMem {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			return true, fmt.Sprintf("no result, having used %d GB of memory", replayMem>>30)
		}
		goto again
	case err := <-done:
		if err == nil {
			return false, ""
		}
		s := out.String()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 && strings.Contains(s, "violated:") {
			return true, firstLine(s[strings.Index(s, "violated:")+len("violated: "):])
		}
		return true, "the process crashed: " + firstLine(s)
	case <-late:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return true, "no result after " + hangReplay.String()
	}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func parent(id string) {
	t0 := time.Now()
	ch := checks[id]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "mc: no check", id)
		os.Exit(2)
	}
	vd := verifDir()
	out := filepath.Join(vd, "out")
	os.MkdirAll(out, 0o755)
	old, _ := filepath.Glob(filepath.Join(out, id+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("MC_DRV", dir) // for the children
	r, stderr, suspects, hung := runChild(id, dir)
	var extra []Case
	if r == nil {
		// the child died: find the case that kills it
		fmt.Fprintf(os.Stderr, "mc: %s: the exploring process ended: %s\n", id, firstLine(stderr))
		var found []Case // violations before that
		if b, err := os.ReadFile(filepath.Join(dir, "found.json")); err == nil && json.Unmarshal(b, &found) == nil {
			extra = found
		}
		for _, k := range suspects {
			if len(extra) > 0 && (hung || len(extra) >= 5) || timeLeft() < hangReplay+30*time.Second {
				break // one is enough
			}
			if bad, msg := solo(k, dir); bad {
				k.Msg = msg
				extra = append(extra, k)
			}
		}
		r = &result{Known: map[string]int{}, Counts: map[string]int{}, Capped: true, Samples: []interface{}{}}
		if len(extra) == 0 {
			// not one case alone: is it reproducible as a whole?
			if b := (timeLeft() - 130*time.Second).Round(time.Second); b < budget() {
				if b < 0 {
					b = 0
				}
				os.Setenv("MC_BUDGET", b.String())
			}
			r2, stderr2, suspects2, hung2 := runChild(id, dir)
			if r2 != nil {
				r = r2
				r.Capped = true
			} else if !hung2 && !hung && implCrash(stderr) && implCrash(stderr2) {
				k := Case{Check: id, Kind: "run", Msg: "the exploring process crashes in the implementation: " + crashLine(stderr2)}
				if len(suspects2) > 0 {
					k.Path, k.Doc = suspects2[0].Path, suspects2[0].Doc
				}
				extra = append(extra, k)
			} else {
				os.RemoveAll(dir)
				fmt.Fprintln(os.Stderr, "mc: no answer:\n", stderr2)
				os.Exit(3)
			}
		}
	}
	viols := append(extra, r.Violations...)
	if os.Getenv("MC_MEM") != "" {
		fmt.Fprintf(os.Stderr, "mc: %s: %d MB\n", id, maxMem>>20)
	}
	writeEvidence(ch, r, len(extra)+r.NViol, time.Since(t0).Seconds())
	for _, f := range readFindings() {
		if f.Property == id && r.Known[f.Key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", id, f.Text, r.Known[f.Key])
		}
	}
	fmt.Printf("%s: states=%d transitions=%d traces=%d outcomes=%d violations=%d wall=%.1fs capped=%v\n",
		id, r.States, r.Trans, r.Traces, r.Outcomes, len(extra)+r.NViol, time.Since(t0).Seconds(), r.Capped)
	for i, k := range viols {
		if i >= 5 {
			break
		}
		file := filepath.Join(out, fmt.Sprintf("%s-%d.json", id, i+1))
		again, runs := 0, 0
		if k.Kind != "run" {
			for n := 0; n < 5 && timeLeft() > hangReplay+20*time.Second; n++ {
				t := time.Now()
				if bad, _ := solo(k, dir); bad {
					again++
				}
				runs++
				if time.Since(t) > 10*time.Second {
					break
				}
			}
		}
		b, _ := json.MarshalIndent(k, "", "\t")
		os.WriteFile(file, b, 0o644)
		os.WriteFile(strings.TrimSuffix(file, ".json")+"_test.go.txt", []byte(goTest(k)), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		fmt.Printf("  %s path=%q doc=%q %s: %s (again alone: %d of %d)\n", k.Kind, clipS(string(k.Path)), clipS(string(k.Doc)), k.Name, clipS(k.Msg), again, runs)
	}
	os.RemoveAll(dir)
	if len(viols) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func clipS(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// implCrash reports whether a crash trace goes through the implementation rather than only the harness.
func implCrash(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "mc: ") { // said by fatal
			return false
		}
	}
	return strings.Contains(s, "github.com/forsyth/jsonpath") || strings.Contains(s, "fatal error:")
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") {
			return l
		}
	}
	return firstLine(s)
}

func goTest(k Case) string {
	if k.Kind != "eval" || strings.HasPrefix(string(k.Doc), "#") {
		b, _ := json.Marshal(k)
		return "// replay with: /verif/bin/mc replay <the .json file beside this one>\n// " + string(b) + "\n"
	}
	return fmt.Sprintf(`package jsonpath_test

import (
	"encoding/json"
	"testing"

	"github.com/forsyth/jsonpath"
)

// %s
func TestReplay(t *testing.T) {
	var doc interface{}
	if err := json.Unmarshal([]byte(%q), &doc); err != nil {
		t.Fatal(err)
	}
	p, err := jsonpath.Compile(%q)
	if err != nil {
		t.Fatal(err)
	}
	got, err := p.Eval(doc)
	t.Fatalf("wrong result: %%v %%v", got, err)
}
`, strings.ReplaceAll(k.Msg, "\n", " "), string(k.Doc), string(k.Path))
}

func writeEvidence(ch *Check, r *result, nviol int, wall float64) {
	cov := map[string]interface{}{
		"samples":           r.Samples,
		"exhaustive":        !r.Capped,
		"bounds":            r.Bounds,
		"distinct_outcomes": r.Outcomes,
		"counts":            r.Counts,
		"known_findings":    r.Known,
	}
	if ch.Level == "fault_enumeration" {
		cov["evaluations"] = r.Traces
		cov["distinct_nontrivial"] = r.Nontrivial
		cov["rule"] = ch.Rule
	} else {
		cov["states"] = r.States
		cov["transitions"] = r.Trans
		cov["traces_validated_against_impl"] = r.Traces
		cov["nontrivial_traces"] = r.Nontrivial
		cov["rule"] = ch.Rule
	}
	ev := map[string]interface{}{
		"property": ch.ID, "tier": tier(), "seed": seed(), "level": ch.Level, "coverage": cov,
		"assumptions": ch.Assumptions, "wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, ch.ID+".json"), append(b, '\n'), 0o644)
}
