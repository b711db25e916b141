package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Native builds and runs the harnesses against the real compiled code.
type Native struct {
	dir     string
	overlay string
	bin     string
	once    sync.Once
	err     error
	ronce   sync.Once
	rbin    string
	rerr    error
	n       int
	conce   sync.Once
	allowed []int
	crot    int
	mu      sync.Mutex
}

func (n *Native) build() error {
	n.once.Do(func() {
		n.bin = filepath.Join(n.dir, "native")
		n.err = goBuild(n.overlay, n.bin, false)
	})
	return n.err
}

func (n *Native) buildRace() error {
	n.ronce.Do(func() {
		n.rbin = filepath.Join(n.dir, "native-race")
		n.rerr = goBuild(n.overlay, n.rbin, true)
	})
	return n.rerr
}

func goBuild(overlay, out string, race bool) error {
	args := []string{"build", "-overlay", overlay, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./vph/cmd")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	var e bytes.Buffer
	cmd.Stderr = &e
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v: %s", err, e.String())
	}
	return nil
}

func (n *Native) exec(bin, harness string, inputs map[string]string, obs bool, cpus int, timeout time.Duration) (code int, out string, timedOut bool) {
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.dir, fmt.Sprintf("in%d.json", n.n))
	n.mu.Unlock()
	b, _ := json.Marshal(inputs)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	args := []string{"-harness", harness, "-inputs", f, "-tier", tier}
	if obs {
		args = append(args, "-obs")
	}
	if l := n.cpuList(cpus); l != "" {
		args = append([]string{"-c", l, bin}, args...)
		bin = "taskset"
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB")
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	err := cmd.Run()
	if ctx.Err() != nil {
		return -1, tail(o.String()), true
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), o.String(), false
		}
		return -2, err.Error(), false
	}
	return 0, o.String(), false
}

// cpuList names cpus processors this process may use, a different choice on every call; "" when it cannot.
func (n *Native) cpuList(cpus int) string {
	if cpus <= 0 {
		return ""
	}
	n.conce.Do(func() {
		if _, err := exec.LookPath("taskset"); err != nil {
			return
		}
		b, _ := os.ReadFile("/proc/self/status")
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "Cpus_allowed_list:") {
				continue
			}
			for _, r := range strings.Split(strings.TrimSpace(l[len("Cpus_allowed_list:"):]), ",") {
				lo, hi, ok := strings.Cut(r, "-")
				if !ok {
					hi = lo
				}
				a, e1 := strconv.Atoi(lo)
				z, e2 := strconv.Atoi(hi)
				for e1 == nil && e2 == nil && a <= z {
					n.allowed = append(n.allowed, a)
					a++
				}
			}
		}
		if len(n.allowed) == 0 || exec.Command("taskset", "-c", strconv.Itoa(n.allowed[0]), "true").Run() != nil {
			n.allowed = nil
		}
	})
	if len(n.allowed) < cpus {
		return ""
	}
	n.mu.Lock()
	n.crot++
	at := n.crot
	n.mu.Unlock()
	var l []string
	for i := 0; i < cpus; i++ {
		l = append(l, strconv.Itoa(n.allowed[(at+i)%len(n.allowed)]))
	}
	return strings.Join(l, ",")
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}

// replay runs a counterexample natively and decides whether the real code shows the violation.
func (n *Native) replay(ce *Counterexample) bool {
	if err := n.build(); err != nil {
		ce.Native = "build failed: " + err.Error()
		return false
	}
	runs := 1
	bin := n.bin
	to := 20 * time.Second
	if ce.Kind == "race" {
		if err := n.buildRace(); err != nil {
			ce.Native = "race build failed: " + err.Error()
			return false
		}
		bin = n.rbin
		runs = 12
	} else if ce.newest || hasSched(ce.Path) {
		runs = 40
	}
	if ce.CPUs > 0 && n.cpuList(ce.CPUs) != "" {
		runs *= 2
	}
	for i := 0; i < runs; i++ {
		// alternately with the number of processors of the symbolic path and with all of them
		cpus := ce.CPUs
		if i%2 == 1 {
			cpus = 0
		}
		code, out, timed := n.exec(bin, ce.Harness, ce.Inputs, false, cpus, to)
		switch {
		case timed:
			ce.Native = "did not terminate within " + to.String()
			if ce.Kind == "steps" || ce.Kind == "depth" || ce.Kind == "deadlock" {
				return true
			}
		case code == 3 || code == 2 || code == 66:
			ce.Native = fmt.Sprintf("exit %d: %s", code, tail(out))
			return true
		default:
			ce.Native = fmt.Sprintf("exit %d: %s", code, tail(out))
		}
	}
	return false
}

func hasSched(ds []Decision) bool {
	for _, d := range ds {
		switch d.Val {
		case "sched", "preempt", "select", "map":
			return true
		}
	}
	return false
}

func (ex *Explorer) validator() {
	for j := range ex.valCh {
		ex.validate(j)
		ex.valWg.Done()
	}
}

// validate compares a symbolic path with a native run on a model of the path.
func (ex *Explorer) validate(j *valJob) {
	if err := ex.nat.build(); err != nil {
		ex.mu.Lock()
		j.h.Notes["native build failed: "+tail(err.Error())]++
		ex.mu.Unlock()
		return
	}
	code, out, timed := ex.nat.exec(ex.nat.bin, j.h.Name, j.inputs, true, j.cpus, 20*time.Second)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	j.h.Sampled++
	if code == 4 {
		return
	}
	if timed || code != 0 {
		j.h.Mismatch = append(j.h.Mismatch, fmt.Sprintf("native exit %d timeout=%v inputs=%v: %s", code, timed, j.inputs, tail(out)))
		return
	}
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VP-OBS ") {
			got = append(got, l[7:])
		}
	}
	if len(j.vals) > 0 {
		for i, o := range j.obs {
			want, ok := j.vals[i]
			if !ok || i >= len(got) {
				continue
			}
			k := strings.LastIndexByte(got[i], '=')
			if got[i][:k] != o.msg {
				j.h.Mismatch = append(j.h.Mismatch, fmt.Sprintf("observation %d is %q natively, %q symbolically, inputs=%v", i, got[i][:k], o.msg, j.inputs))
				return
			}
			f, _ := strconv.ParseFloat(got[i][k+1:], 64)
			if f == want || f != f && want != want {
				continue
			}
			if math.Abs(f-want) > 1e-5*math.Max(1, math.Max(math.Abs(f), math.Abs(want))) {
				j.h.Mismatch = append(j.h.Mismatch, fmt.Sprintf("%s: native %v symbolic %v inputs=%v", o.msg, f, want, j.inputs))
				return
			}
		}
	}
	j.h.Validated++
	if len(j.h.SampleOut) < 2 {
		j.h.SampleOut = append(j.h.SampleOut, map[string]any{"harness": j.h.Name, "inputs": j.inputs, "observations_compared": len(j.vals)})
	}
}
