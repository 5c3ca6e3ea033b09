// Monitors for C20 and C21: jobs run by the execution supervisor against what their
// processes really did, and the agent managing them
package jobs

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/providers/execution"
	"github.com/choria-io/go-choria/submission"
)

type sub struct {
	subject string
	payload string
	at      time.Time
}

// recorder stands in for the submission spool
type recorder struct {
	mu       sync.Mutex
	msgs     []sub
	rejected int
	onSubmit func(subject string, payload []byte) error
}

func (r *recorder) NewMessage() *submission.Message {
	return &submission.Message{ID: "x", Created: time.Now(), MaxTries: 500, TTL: 60, Sender: "x"}
}

func (r *recorder) Submit(m *submission.Message) error {
	if r.onSubmit != nil {
		if err := r.onSubmit(m.Subject, m.Payload); err != nil {
			r.mu.Lock()
			r.rejected++
			r.mu.Unlock()
			return err
		}
	}
	r.mu.Lock()
	r.msgs = append(r.msgs, sub{m.Subject, string(m.Payload), time.Now()})
	r.mu.Unlock()
	return nil
}

func (r *recorder) all() []sub {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]sub{}, r.msgs...)
}

func hexid(r *rand.Rand) string { return fmt.Sprintf("%08x%08x", r.Uint32(), r.Uint32()) }

// genOutput makes segments of output of a command
func genOutput(r *rand.Rand) []byte {
	switch r.Intn(9) {
	case 0:
		return bytes.Repeat([]byte("x"), 60000+r.Intn(200000)) // a line longer than any buffer
	case 1:
		b := make([]byte, r.Intn(5000))
		r.Read(b)
		return b
	case 2:
		return []byte("no newline at the end")
	case 3:
		return []byte("windows\r\nlines\r\n\r\n")
	case 4:
		return []byte("\n\n\n")
	case 5:
		return nil
	}
	b := &bytes.Buffer{}
	for i := r.Intn(300); i >= 0; i-- {
		fmt.Fprintf(b, "line %d %s\n", i, strings.Repeat("y", r.Intn(80)))
	}
	return b.Bytes()
}

type jobSpec struct {
	dir    string
	script string
	stdout []byte
	stderr []byte
	exit   int
	signal int
	desc   string
}

// genJob writes a script that produces known output and ends in a known way
func genJob(t *testing.T, r *rand.Rand) *jobSpec {
	j := &jobSpec{dir: t.TempDir()}
	b := &strings.Builder{}
	fmt.Fprintf(b, "echo $$ > %s/pid.tmp; mv %s/pid.tmp %s/pid\n", j.dir, j.dir, j.dir)
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		out := genOutput(r)
		f := filepath.Join(j.dir, fmt.Sprintf("seg%d", i))
		os.WriteFile(f, out, 0600)
		if r.Intn(3) == 0 {
			fmt.Fprintf(b, "cat %s >&2\n", f)
			j.stderr = append(j.stderr, out...)
		} else {
			fmt.Fprintf(b, "cat %s\n", f)
			j.stdout = append(j.stdout, out...)
		}
		if r.Intn(3) == 0 {
			fmt.Fprintf(b, "sleep 0.0%d\n", r.Intn(9))
		}
	}
	if r.Intn(10) == 0 {
		b.WriteString("sleep 1.2\n") // publishes periodically
	}
	fmt.Fprintf(b, "touch %s/done\n", j.dir)
	switch r.Intn(4) {
	case 0:
		j.signal = verifkit.Pick(r, []int{9, 15, 10})
		fmt.Fprintf(b, "kill -%d $$\nsleep 30\n", j.signal)
	case 1:
		j.exit = 1 + r.Intn(255)
		fmt.Fprintf(b, "exit %d\n", j.exit)
	default:
		b.WriteString("exit 0\n")
	}
	j.script = filepath.Join(j.dir, "script.sh")
	os.WriteFile(j.script, []byte(b.String()), 0700)
	j.desc = fmt.Sprintf("%d segments, %d and %d bytes of output, exit %d signal %d", n, len(j.stdout), len(j.stderr), j.exit, j.signal)
	return j
}

func diff(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(b []byte) []byte {
		b = b[i:]
		if len(b) > 60 {
			b = b[:60]
		}
		return b
	}
	return fmt.Sprintf("%d bytes, expected %d, first difference at %d: got %q expected %q", len(got), len(want), i, cut(got), cut(want))
}

// TestC20Lifecycle runs jobs and compares their records with what they did
func TestC20Lifecycle(t *testing.T) {
	v := verifkit.New(t, "C20", "records, captured output and published messages of a job agree with what its process wrote and how it ended")
	v.Require("jobs completed", 20)
	v.Require("jobs killed", 4)
	v.Require("published bytes", 10000)
	n := verifkit.N(60, 1200)
	var wg sync.WaitGroup
	slots := make(chan struct{}, 8)
	spool := t.TempDir()
	for c := 0; c < n; c++ {
		r := verifkit.Rand(fmt.Sprintf("job %d", c))
		spec := genJob(t, r)
		wg.Add(1)
		slots <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-slots }()
			runJob(v, r, spool, spec)
		}()
	}
	wg.Wait()
}

func runJob(v *verifkit.Rec, r *rand.Rand, spool string, j *jobSpec) {
	id, reqid := hexid(r), hexid(r)
	publish := r.Intn(3) > 0
	failOutput := publish && r.Intn(4) == 0
	heartbeat := time.Duration(verifkit.Pick(r, []int{0, 0, 20, 50})) * time.Millisecond
	desc := fmt.Sprintf("%s publish=%v failing=%v heartbeat=%v", j.desc, publish, failOutput, heartbeat)
	p, err := execution.New("choria=rip", "app", "run", reqid, "n.example.net", id, "/bin/sh", []string{j.script}, map[string]string{"X": "1"})
	if err != nil {
		v.Violation("new", "%v", err)
		return
	}
	if _, err = p.CreateSpool(spool); err != nil {
		v.Violation("create spool", "%v", err)
		return
	}
	if _, err = p.CreateSpool(spool); !errors.Is(err, execution.ErrDuplicateJob) {
		v.Violation("duplicate accepted", "%v", err)
	}
	p, err = execution.Load(spool, id)
	if err != nil {
		v.Violation("load", "job that was saved can not be loaded: %v", err)
		return
	}
	if started, err := p.HasStarted(); started || err != nil || p.IsRunning() {
		v.Violation("started before it was", "%v %v running %v", started, err, p.IsRunning())
	}

	rec := &recorder{}
	var pidSeen int
	// whoever signals a job reads its pid whenever it is there
	pids := map[string]bool{}
	watched, starting := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(watched)
		for {
			if b, err := os.ReadFile(filepath.Join(spool, id, "pid")); err == nil {
				pids[string(b)] = true
			}
			select {
			case <-starting:
				return
			default:
			}
		}
	}()
	stop := sync.OnceFunc(func() { close(starting); <-watched })
	defer stop()
	rec.onSubmit = func(subject string, payload []byte) error {
		if strings.HasSuffix(subject, ".spec") {
			if _, err := os.Stat(filepath.Join(j.dir, "pid")); err == nil {
				v.Violation("ran before it was recorded", "%s", desc)
			}
			lp, err := execution.Load(spool, id)
			if err != nil || lp.StartTime.IsZero() || lp.PidFile == "" || lp.StdoutFile == "" || lp.StderrFile == "" {
				v.Violation("not recorded before it runs", "%v %s", err, verifkit.J(lp))
			}
		}
		if strings.HasSuffix(subject, ".pid") {
			stop()
			lp, err := execution.Load(spool, id)
			if err != nil {
				v.Violation("load", "%v", err)
				return nil
			}
			pidSeen, err = lp.ParsePid()
			started, _ := lp.HasStarted()
			// it is not reaped before this returns, so it must look alive
			if err != nil || !started || !lp.IsRunning() || string(payload) != strconv.Itoa(pidSeen) {
				v.Violation("running job not seen as running", "pid %d err %v started %v running %v published %q: %s", pidSeen, err, started, lp.IsRunning(), payload, desc)
			}
		}
		if failOutput && strings.Contains(subject, ".out.") {
			if _, err := os.Stat(filepath.Join(j.dir, "done")); err != nil {
				return errors.New("simulated full spool")
			}
		}
		return nil
	}
	before := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	ok := v.Within(100*time.Second, "StartSupervised", func() {
		err = p.StartSupervised(ctx, spool, rec, heartbeat, publish, vfake.Log())
	})
	if !ok {
		return
	}
	after := time.Now()
	if err != nil {
		v.Violation("supervisor failed", "%v: %s", err, desc)
		return
	}
	v.Check(errors.Is(p.StartSupervised(ctx, spool, rec, 0, false, vfake.Log()), execution.ErrAlreadyStarted), "started twice", "%s", desc)

	lp, err := execution.Load(spool, id)
	if err != nil {
		v.Violation("load", "completed job can not be loaded: %v", err)
		return
	}
	v.Case(true, desc)
	pd, _ := os.ReadFile(filepath.Join(j.dir, "pid"))
	real, _ := strconv.Atoi(strings.TrimSpace(string(pd)))
	pid, err := lp.ParsePid()
	stop()
	for s := range pids {
		v.Check(strings.HasPrefix(strconv.Itoa(real), s), "wrong pid", "the pid file held %q while starting process %d: %s", s, real, desc)
	}
	v.Check(err == nil && pid == real && pidSeen == real, "wrong pid", "recorded %d (%v) published %d real %d: %s", pid, err, pidSeen, real, desc)
	v.Check(!lp.StartTime.Before(before.Add(-time.Second)) && !lp.TerminateTime.After(after.Add(time.Second)) && !lp.TerminateTime.Before(lp.StartTime) && !lp.TerminateTime.IsZero(), "wrong times", "started %v ended %v, ran between %v and %v", lp.StartTime, lp.TerminateTime, before, after)
	v.Check(!lp.IsRunning(), "completed job seen as running", "%s", desc)
	v.Check(lp.Signal(syscall.Signal(0)) != nil, "completed job can be signalled", "%s", desc)
	v.Check(lp.Caller == "choria=rip" && lp.Agent == "app" && lp.Action == "run" && lp.RequestID == reqid && lp.Identity == "n.example.net" && lp.ID == id && lp.Command == "/bin/sh" && len(lp.Args) == 1 && lp.Args[0] == j.script && lp.Environment["X"] == "1", "record changed", "%s", verifkit.J(lp))
	code, err := lp.ParseExitCode()
	if j.signal > 0 {
		v.Count("jobs killed", 1)
		v.Check(errors.Is(err, execution.ErrProcessFailed), "killed job not reported as failed", "code %d err %v: %s", code, err, desc)
	} else {
		v.Count("jobs completed", 1)
		v.Check(err == nil && code == j.exit, "wrong exit code", "code %d err %v: %s", code, err, desc)
	}
	out, err := lp.Stdout()
	v.Check(err == nil && bytes.Equal(out, j.stdout), "stdout differs", "%v %s: %s", err, diff(j.stdout, out), desc)
	errOut, err := lp.Stderr()
	v.Check(err == nil && bytes.Equal(errOut, j.stderr), "stderr differs", "%v %s: %s", err, diff(j.stderr, errOut), desc)

	// the messages
	msgs := rec.all()
	prefix := fmt.Sprintf("choria.executor.%s.%s.", reqid, id)
	pubOut := map[string][]byte{}
	var seq []string
	for _, m := range msgs {
		if !strings.HasPrefix(m.subject, prefix) {
			v.Violation("wrong subject", "%s", m.subject)
			continue
		}
		k := m.subject[len(prefix):]
		if strings.HasPrefix(k, "out.") {
			pubOut[k] = append(pubOut[k], m.payload...)
		}
		seq = append(seq, k)
	}
	v.Check(len(seq) >= 3 && seq[0] == "spec" && seq[len(seq)-1] == "exit", "messages out of order", "%v: %s", seq, desc)
	counts := map[string]int{}
	for _, k := range seq {
		counts[k]++
	}
	v.Check(counts["spec"] == 1 && counts["pid"] == 1 && counts["exit"] == 1, "messages repeated or missing", "%v: %s", counts, desc)
	if heartbeat == 0 {
		v.Check(counts["hb"] == 0, "unexpected heartbeat", "%v", counts)
	}
	v.Count("heartbeats", counts["hb"])
	exitFile, _ := os.ReadFile(filepath.Join(spool, id, "exit"))
	var ec, fe execution.ExitCode
	last := msgs[len(msgs)-1]
	e1, e2 := json.Unmarshal([]byte(last.payload), &ec), json.Unmarshal(exitFile, &fe)
	v.Check(j.signal == 0 || ec.Code != 0 && ec.Error != "", "killed job not reported as failed", "%s: %s", last.payload, desc)
	v.Check(e1 == nil && e2 == nil && ec == fe, "exit message differs from record", "%s %s", last.payload, exitFile)
	if !publish {
		v.Check(len(pubOut) == 0, "output published unasked", "%v", seq)
		return
	}
	for k, want := range map[string][]byte{"out.stdout": j.stdout, "out.stderr": j.stderr} {
		v.Check(bytes.Equal(pubOut[k], want), "published output differs", "%s %s: %s", k, diff(want, pubOut[k]), desc)
		v.Count("published bytes", len(want))
	}
	if failOutput {
		v.Count("output messages refused by the spool", rec.rejected)
	}
}

// TestC20Environment checks that arguments and environment reach the command as given
func TestC20Environment(t *testing.T) {
	v := verifkit.New(t, "C20", "a command receives exactly the arguments and environment of its job")
	r := verifkit.Rand("environment")
	words := []string{"", " ", "a b", "'", `"`, "$HOME", "`id`", "ü", "日本", "\n", "a\nb", "\t", "*", "--x=y", "-n", "%s", "\\", "a=b", strings.Repeat("z", 20000), "<>&", "\u2028"}
	spool := t.TempDir()
	for c := 0; c < verifkit.N(40, 400); c++ {
		var args []string
		for i := r.Intn(6); i > 0; i-- {
			args = append(args, verifkit.Pick(r, words))
		}
		env := map[string]string{}
		for i := r.Intn(5); i > 0; i-- {
			env[verifkit.Pick(r, []string{"A", "B", "LONG_NAME", "x", "PATH", "HOME"})] = verifkit.Pick(r, words)
		}
		if r.Intn(4) == 0 {
			env = nil
		}
		if c%4 < 2 {
			env = map[string]string{"B": "x", "PATH": []string{"", "/nowhere", " ", ""}[c/4%4]}
		}
		wantEnv := map[string]string{"PATH": os.Getenv("PATH")}
		for k, x := range env {
			wantEnv[k] = x
		}
		cmd, cargs := "/usr/bin/printf", append([]string{"%s\\0", "start"}, args...)
		if c%2 == 0 {
			cmd, cargs = "/usr/bin/env", []string{"-0"}
		}
		p, err := execution.New("c", "a", "b", "r", "i", hexid(r), cmd, cargs, env)
		if err != nil {
			v.Violation("new", "%v", err)
			continue
		}
		if _, err = p.CreateSpool(spool); err != nil {
			v.Violation("create spool", "%v", err)
			continue
		}
		p, err = execution.Load(spool, p.ID)
		if err != nil {
			v.Violation("load", "%v", err)
			continue
		}
		if err = p.StartSupervised(context.Background(), spool, &recorder{}, 0, c%3 == 0, vfake.Log()); err != nil {
			v.Violation("supervisor failed", "%v", err)
			continue
		}
		out, _ := p.Stdout()
		got := strings.Split(strings.TrimSuffix(string(out), "\x00"), "\x00")
		v.Case(true, fmt.Sprintf("%s %q %v", cmd, args, env))
		if c%2 == 0 {
			sort.Strings(got)
			var want []string
			for k, x := range wantEnv {
				want = append(want, k+"="+x)
			}
			sort.Strings(want)
			v.Check(verifkit.J(got) == verifkit.J(want), "environment differs", "got %q want %q", got, want)
			continue
		}
		want := append([]string{"start"}, args...)
		v.Check(verifkit.J(got) == verifkit.J(want), "arguments differ", "got %q want %q", got, want)
	}
}

// child is a process of ours standing in for whatever has a pid
type child struct {
	cmd  *exec.Cmd
	done chan struct{}
}

func newChild() (*child, error) {
	c := &child{cmd: exec.Command("/bin/sleep", "300"), done: make(chan struct{})}
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { c.cmd.Wait(); close(c.done) }()
	return c, nil
}

func (c *child) pid() int { return c.cmd.Process.Pid }

func (c *child) alive() bool {
	select {
	case <-c.done:
		return false
	default:
		return true
	}
}

func (c *child) dies() bool {
	select {
	case <-c.done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

func (c *child) kill() { c.cmd.Process.Kill(); <-c.done }

// TestC20Control signals running jobs from elsewhere and cancels their supervisor
func TestC20Control(t *testing.T) {
	v := verifkit.New(t, "C20", "signals reach the job, its end is recorded, a completed job is not confused with another process using its pid")
	v.Require("signals sent", 8)
	var wg sync.WaitGroup
	for c := 0; c < verifkit.N(16, 120); c++ {
		r := verifkit.Rand(fmt.Sprintf("control %d", c))
		dir, spool := t.TempDir(), t.TempDir()
		wg.Add(1)
		go func() {
			defer wg.Done()
			how := verifkit.Pick(r, []string{"term", "kill", "trap", "cancel", "ignored"})
			script := "touch $D/ready\nfor i in 1 2 3 4 5 6 7 8 9 10 11 12; do sleep 5 & wait $!; done\n"
			switch how {
			case "trap":
				script = "trap 'echo got it; exit 7' TERM\n" + script
			case "ignored":
				script = "trap 'echo usr; exit 3' USR1; trap '' TERM\n" + script
			}
			f := filepath.Join(dir, "s.sh")
			os.WriteFile(f, []byte(strings.ReplaceAll(script, "$D", dir)), 0700)
			p, err := execution.New("c", "a", "b", "r", "i", hexid(r), "/bin/sh", []string{f}, nil)
			if err != nil {
				v.Violation("new", "%v", err)
				return
			}
			p.CreateSpool(spool)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan error, 1)
			rec := &recorder{}
			go func() { done <- p.StartSupervised(ctx, spool, rec, 10*time.Millisecond, r.Intn(2) == 0, vfake.Log()) }()
			if !verifkit.Eventually(30*time.Second, func() bool { _, err := os.Stat(filepath.Join(dir, "ready")); return err == nil }) {
				v.Inconclusive("job did not start")
				return
			}
			if !verifkit.Eventually(30*time.Second, func() bool { lp, err := execution.Load(spool, p.ID); return err == nil && lp.IsRunning() }) {
				v.Violation("running job not seen as running", "%s", how)
				return
			}
			lp, _ := execution.Load(spool, p.ID)
			if _, err := lp.ParseExitCode(); err == nil {
				v.Violation("exit code before exit", "%s", how)
			}
			pid, _ := lp.ParsePid()
			code, failed := 0, false
			switch how {
			case "term":
				err, failed = lp.Signal(syscall.SIGTERM), true
			case "kill":
				err, failed = lp.Signal(syscall.SIGKILL), true
			case "trap":
				err, code = lp.Signal(syscall.SIGTERM), 7
			case "ignored":
				if err = lp.Signal(syscall.SIGTERM); err == nil {
					time.Sleep(100 * time.Millisecond)
					v.Check(lp.IsRunning(), "job that ignores a signal seen as ended", "")
					err, code = lp.Signal(syscall.SIGUSR1), 3
				}
			case "cancel":
				cancel()
				failed = true
			}
			v.Check(err == nil, "signal failed", "%s %v", how, err)
			v.Count("signals sent", 1)
			select {
			case err = <-done:
			case <-time.After(50 * time.Second):
				syscall.Kill(pid, syscall.SIGKILL)
				v.Inconclusive("supervisor still busy after the job was signalled: %s", how)
				return
			}
			v.Check(err == nil, "supervisor failed", "%s %v", how, err)
			lp, err = execution.Load(spool, p.ID)
			if err != nil {
				v.Violation("load", "%v", err)
				return
			}
			got, err := lp.ParseExitCode()
			if failed {
				v.Check(errors.Is(err, execution.ErrProcessFailed), "killed job not reported as failed", "%s code %d err %v", how, got, err)
			} else {
				v.Check(err == nil && got == code, "wrong exit code", "%s code %d err %v", how, got, err)
			}
			v.Check(!lp.IsRunning() && !lp.TerminateTime.IsZero(), "completed job seen as running", "%s", how)
			hb := 0
			for _, m := range rec.all() {
				if strings.HasSuffix(m.subject, ".hb") {
					hb++
				}
			}
			v.Count("heartbeats", hb)
			v.Case(true, fmt.Sprintf("%d %s", c, how))

			// another process gets the pid
			o, err := newChild()
			if err != nil {
				v.Inconclusive("%v", err)
				return
			}
			defer o.kill()
			os.WriteFile(lp.PidFile, []byte(strconv.Itoa(o.pid())), 0600)
			lp, _ = execution.Load(spool, p.ID)
			v.Check(!lp.IsRunning(), "other process taken for the job", "%s", how)
			serr := lp.Signal(syscall.SIGTERM)
			time.Sleep(50 * time.Millisecond)
			v.Check(serr != nil && o.alive(), "other process signalled", "%s: %v", how, serr)
			l, err := execution.List(spool, &execution.ListQuery{Running: true})
			v.Check(err == nil && len(l) == 0, "other process taken for the job", "listed as running: %d %v", len(l), err)
		}()
	}
	wg.Wait()
}

// TestC20List compares listings of a spool with its jobs
func TestC20List(t *testing.T) {
	v := verifkit.New(t, "C20", "a listing holds exactly the jobs that match every given filter, whatever else is in the spool")
	v.Require("jobs listed", 200)
	v.Require("jobs not listed", 200)
	running, err := newChild()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer running.kill()
	ended, err := newChild()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	ended.kill()
	base := time.Date(2024, 5, 1, 12, 0, 0, 0, time.UTC)
	for c := 0; c < verifkit.N(60, 600); c++ {
		r := verifkit.Rand(fmt.Sprintf("list %d", c))
		spool := t.TempDir()
		type job struct {
			p     *execution.Process
			state string
		}
		jobs := map[string]job{}
		pick := func(o ...string) string { return verifkit.Pick(r, o) }
		for i := r.Intn(12); i > 0; i-- {
			p, err := execution.New(pick("choria=a", "choria=b"), pick("app", "ops"), pick("run", "stop"), pick("r1", "r2", "r3"), pick("n1", "n2"), hexid(r), pick("/bin/x", "/bin/y"), nil, nil)
			if err != nil {
				v.Violation("new", "%v", err)
				continue
			}
			p.Created = base.Add(time.Duration(r.Intn(10)) * time.Hour)
			state := pick("new", "running", "ended", "gone")
			if state != "new" {
				p.PidFile = filepath.Join(spool, p.ID, "pid")
				p.StartTime = p.Created
				if state == "ended" {
					p.TerminateTime = p.Created.Add(time.Hour)
				}
			}
			if _, err = p.CreateSpool(spool); err != nil {
				v.Violation("create spool", "%v", err)
				continue
			}
			switch state {
			case "running":
				os.WriteFile(p.PidFile, []byte(strconv.Itoa(running.pid())), 0600)
			case "ended", "gone":
				os.WriteFile(p.PidFile, []byte(strconv.Itoa(ended.pid())), 0600)
			}
			jobs[p.ID] = job{p, state}
		}
		// things that are no jobs
		os.WriteFile(filepath.Join(spool, "file"), []byte("x"), 0600)
		os.WriteFile(filepath.Join(spool, "spec.json"), []byte(`{"id":"x","agent":"app","caller":"choria=a"}`), 0600)
		os.Mkdir(filepath.Join(spool, "empty"), 0700)
		os.MkdirAll(filepath.Join(spool, "broken"), 0700)
		os.WriteFile(filepath.Join(spool, "broken", "spec.json"), []byte(pick("", "x", `{"agent":1}`, "\xff")), 0600)
		os.MkdirAll(filepath.Join(spool, "deep", "deeper"), 0700)
		os.WriteFile(filepath.Join(spool, "deep", "deeper", "spec.json"), []byte(`{"id":"deeper","agent":"app"}`), 0600)

		for q := 0; q < 20; q++ {
			lq := &execution.ListQuery{}
			maybe := func() bool { return r.Intn(5) == 0 }
			if maybe() {
				lq.Action = pick("run", "stop", "x")
			}
			if maybe() {
				lq.Agent = pick("app", "ops", "ap")
			}
			if maybe() {
				lq.Caller = pick("choria=a", "choria=b", "choria=")
			}
			if maybe() {
				lq.Command = pick("/bin/x", "/bin/y", "x")
			}
			if maybe() {
				lq.Identity = pick("n1", "n2")
			}
			if maybe() {
				lq.RequestID = pick("r1", "r2", "r9")
			}
			if maybe() {
				lq.Since = base.Add(time.Duration(r.Intn(20))*30*time.Minute + 15*time.Minute)
			}
			if maybe() {
				lq.Before = base.Add(time.Duration(r.Intn(20))*30*time.Minute + 15*time.Minute)
			}
			lq.Running, lq.Completed = maybe(), maybe()
			empty := *lq == execution.ListQuery{}
			var want []string
			for id, j := range jobs {
				p := j.p
				if empty ||
					(lq.Action != "" && lq.Action != p.Action) || (lq.Agent != "" && lq.Agent != p.Agent) || (lq.Caller != "" && lq.Caller != p.Caller) ||
					(lq.Command != "" && lq.Command != p.Command) || (lq.Identity != "" && lq.Identity != p.Identity) || (lq.RequestID != "" && lq.RequestID != p.RequestID) ||
					(!lq.Since.IsZero() && !p.Created.After(lq.Since)) || (!lq.Before.IsZero() && !p.Created.Before(lq.Before)) ||
					(lq.Running && j.state != "running") || (lq.Completed && j.state != "ended" && j.state != "gone") {
					v.Count("jobs not listed", 1)
					continue
				}
				want = append(want, id)
				v.Count("jobs listed", 1)
			}
			sort.Strings(want)
			var got []string
			var res []*execution.Process
			var err error
			if !v.NoPanic("list", verifkit.J(lq), func() { res, err = execution.List(spool, lq) }) {
				continue
			}
			for _, p := range res {
				got = append(got, p.ID)
				if j, ok := jobs[p.ID]; ok && verifkit.J(j.p) != verifkit.J(p) {
					v.Violation("listed job differs from its record", "%s %s", verifkit.J(p), verifkit.J(j.p))
				}
			}
			sort.Strings(got)
			v.Check(err == nil && strings.Join(got, ",") == strings.Join(want, ","), "listing differs", "%v query %s: got %v want %v", err, verifkit.J(lq), got, want)
			v.Case(len(want) > 0, fmt.Sprintf("%d %s", c, verifkit.J(lq)))
		}
	}
}

// TestHelperC20Supervisor supervises a job in a process of its own
func TestHelperC20Supervisor(t *testing.T) {
	spool := os.Getenv("VERIF_C20_SPOOL")
	if spool == "" {
		t.Skip("only runs as a helper")
	}
	p, err := execution.Load(spool, os.Getenv("VERIF_C20_ID"))
	if err != nil {
		t.Fatal(err)
	}
	rec := &recorder{onSubmit: func(s string, _ []byte) error { fmt.Println("C20 " + s); return nil }}
	if err = p.StartSupervised(context.Background(), spool, rec, 0, true, vfake.Log()); err != nil {
		t.Fatal(err)
	}
}

// TestC20SupervisorCrash kills the supervisor at various moments
func TestC20SupervisorCrash(t *testing.T) {
	v := verifkit.New(t, "C20", "after the supervisor was killed at any moment the job can be loaded and its status is that of its process")
	exe, err := os.Executable()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	for c := 0; c < verifkit.N(8, 80); c++ {
		r := verifkit.Rand(fmt.Sprintf("crash %d", c))
		spool, dir := t.TempDir(), t.TempDir()
		f := filepath.Join(dir, "s.sh")
		os.WriteFile(f, []byte(fmt.Sprintf("echo $$ > %s/pid.tmp; mv %s/pid.tmp %s/pid; exec sleep 300\n", dir, dir, dir)), 0700)
		p, err := execution.New("c", "a", "b", "r", "i", hexid(r), "/bin/sh", []string{f}, nil)
		if err != nil {
			v.Violation("new", "%v", err)
			continue
		}
		p.CreateSpool(spool)
		cmd := exec.Command(exe, "-test.run", "^TestHelperC20Supervisor$", "-test.v")
		cmd.Env = append(os.Environ(), "VERIF_C20_SPOOL="+spool, "VERIF_C20_ID="+p.ID)
		out, err := cmd.StdoutPipe()
		if err != nil || cmd.Start() != nil {
			v.Inconclusive("helper did not start")
			return
		}
		when := verifkit.Pick(r, []string{".spec", ".pid", ".pid"})
		wd := time.AfterFunc(time.Minute, func() { cmd.Process.Kill() })
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			if strings.HasPrefix(sc.Text(), "C20 ") && strings.HasSuffix(sc.Text(), when) {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				cmd.Process.Kill()
			}
		}
		wd.Stop()
		cmd.Wait()
		time.Sleep(50 * time.Millisecond)
		lp, err := execution.Load(spool, p.ID)
		if err != nil {
			v.Violation("load", "job can not be loaded after its supervisor was killed: %v", err)
			continue
		}
		started, serr := lp.HasStarted()
		pd, _ := os.ReadFile(filepath.Join(dir, "pid"))
		real, _ := strconv.Atoi(strings.TrimSpace(string(pd)))
		pid, perr := lp.ParsePid()
		if real == 0 && pid > 1 {
			real = pid // killed before the script wrote it
		}
		v.Case(true, fmt.Sprintf("%d killed around %s started %v", c, when, started))
		if started && perr == nil {
			v.Check(pid == real && serr == nil, "wrong pid", "%d real %d %v", pid, real, serr)
			v.Check(lp.IsRunning(), "running job not seen as running", "after its supervisor was killed")
			if pid == real {
				v.Check(lp.Signal(syscall.SIGKILL) == nil, "signal failed", "after the supervisor was killed")
				gone := verifkit.Eventually(20*time.Second, func() bool { return !aliveNotZombie(real) })
				if gone {
					v.Count("orphaned jobs signalled", 1)
				} else {
					v.Inconclusive("process %d did not end", real)
				}
			}
		} else if real > 1 {
			syscall.Kill(real, syscall.SIGKILL)
		}
	}
}

func aliveNotZombie(pid int) bool {
	d, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	i := bytes.LastIndexByte(d, ')')
	return i > 0 && len(d) > i+2 && d[i+2] != 'Z'
}
