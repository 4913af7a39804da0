package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	ros "os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(ros.Stderr, "simcheck: "+f+"\n", a...)
	ros.Exit(2)
}

func main() {
	if len(ros.Args) < 2 {
		fatal("usage: simcheck check|worker|minimise|replay|show ...")
	}

	cmd := ros.Args[1]
	fl := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	tier := fl.String("tier", "quick", "quick or thorough")
	seed := fl.Uint64("seed", 1, "seed")
	k := fl.Int("k", 0, "worker number")
	n := fl.Int("n", 8, "workers")
	only := fl.Int("only", -1, "single case")
	secs := fl.Float64("secs", 0, "time budget")
	verif := fl.String("verif", "/verif", "framework directory")
	file := fl.String("file", "", "replay file")
	verbose := fl.Bool("v", false, "verbose")

	_ = fl.Parse(ros.Args[2:])

	get := func() *property {
		p := props[*prop]
		if p == nil {
			fatal("unknown property %q", *prop)
		}

		return p
	}

	if cmd != "check" {
		// One processor: the simulator decides who runs, and libraries start no helpers.
		runtime.GOMAXPROCS(1)

		// Runaway recursion has to end here and not with the memory of the machine.
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	}

	switch cmd {
	case "check":
		check(get(), *tier, *seed, *n, *secs, *verif)
	case "worker":
		worker(get(), *seed, *k, *n, *only, time.Now().Add(time.Duration(*secs*float64(time.Second))), *tier == "thorough")
	case "minimise":
		minimiseFile(*file, *secs)
	case "replay":
		f := *file
		if f == "" {
			f = fl.Arg(0)
		}

		replay(f, *verbose)
	case "survey":
		survey(get(), *seed, *k, *n, time.Now().Add(time.Duration(*secs*float64(time.Second))), *tier == "thorough")
	case "case":
		x := &ctx{prop: get(), thorough: *tier == "thorough"}
		x.st.init()
		c := x.makeCase(*seed, *only)
		writeJSON(*file, &replayFile{Property: *prop, Class: "?", Case: c})
	case "det":
		determinism(get(), *seed, *k, *n)
	default:
		fatal("unknown command %q", cmd)
	}
}

// replayFile is a reported violation.
type replayFile struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Hash     uint64 `json:"hash"`
	Original uint64 `json:"originalSeed"`
	Case     *Case  `json:"case"`
	Note     string `json:"note,omitempty"`
}

func readReplay(f string) *replayFile {
	b, err := ros.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}

	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fatal("%s: %v", f, err)
	}

	return rf
}

func writeJSON(f string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}

	if err := ros.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		fatal("%v", err)
	}

	if err := ros.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

// replay executes a replay file: exit 1 when the violation happens again.
func replay(f string, verbose bool) {
	rf := readReplay(f)
	p := props[rf.Property]

	if p == nil {
		fatal("unknown property %q", rf.Property)
	}

	if rf.Class == "crash" && ros.Getenv("VSIM_CHILD") == "" {
		replayCrash(f)

		return
	}

	x := &ctx{prop: p}
	x.st.init()

	vi := x.safeCheck(rf.Case)

	cleanScratch()

	if verbose {
		fmt.Println("args:", strings.Join(rf.Case.Args(), " "))

		for i := range rf.Case.In {
			fmt.Printf("--- %s\n%s\n", rf.Case.In[i].Name, clip(string(rf.Case.In[i].Plain())))
		}

		if x.last != nil {
			fmt.Printf("--- end=%s exit=%d steps=%d fired=%v %s\n", x.last.Out.End, x.last.Out.Exit, x.last.Out.Steps, x.last.Out.Fired, x.last.Out.Message)
			if x.last.Out.Stack != "" {
				fmt.Println(x.last.Out.Stack)
			}

			fmt.Printf("--- stdout\n%s--- stderr\n%s", x.last.Out.Stdout, x.last.Out.Stderr)

			for _, n := range sortedKeys(x.last.FS.Files) {
				fmt.Printf("--- file %s (%d bytes)\n", n, len(x.last.FS.Files[n].Data))

				if !strings.Contains(n, "in") {
					fmt.Println(clip(string(x.last.FS.Files[n].Data)))
				}
			}
		}
	}

	if x.trouble != "" {
		fatal("%s", x.trouble)
	}

	if vi == nil {
		fmt.Println("replay: no violation")

		return
	}

	h := uint64(0)
	if x.last != nil {
		h = x.last.Out.Hash
	}

	fmt.Printf("replay: property=%s class=%s hash=%d %s\n", rf.Property, vi.class, h, vi.msg)

	if vi.class != rf.Class {
		fmt.Println("replay: another class than recorded:", rf.Class)
		ros.Exit(4)
	}

	ros.Exit(1)
}

type workerEnd struct {
	k     int
	start int
	err   error
	stats *stats
	viol  *message
	trbl  string
	tail  string

	pending *Case
}

func runWorker(self string, args []string, env []string, stopCh <-chan struct{}) workerEnd {
	cmd := exec.Command(self, args...)
	cmd.Env = env

	var errb bytes.Buffer

	cmd.Stderr = &errb

	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return workerEnd{err: err}
	}

	if err := cmd.Start(); err != nil {
		return workerEnd{err: err}
	}

	done := make(chan struct{})

	go func() {
		select {
		case <-stopCh:
			_ = cmd.Process.Kill()
		case <-done:
		}
	}()

	res := workerEnd{start: -1}
	sc := bufio.NewReaderSize(pipe, 1<<20)

	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 0 {
			var m message
			if jerr := json.Unmarshal(line, &m); jerr == nil {
				switch {
				case m.Start != nil:
					res.start = *m.Start
				case m.Stats != nil:
					res.stats = m.Stats
				case m.Case != nil && m.Class == "":
					res.pending = m.Case
				case m.Case != nil:
					mm := m
					res.viol = &mm
				case m.Trouble != "":
					res.trbl = m.Trouble
				}
			}
		}

		if err != nil {
			break
		}

		if res.viol != nil {
			break
		}
	}

	if res.viol != nil {
		_ = cmd.Process.Kill()
	}

	err = cmd.Wait()

	close(done)

	res.err = err

	b := errb.Bytes()
	if len(b) > 3000 {
		b = append(append([]byte{}, b[:1500]...), b[len(b)-1500:]...)
	}

	res.tail = string(b)

	return res
}

func check(p *property, tier string, seed uint64, n int, secs float64, verif string) {
	start := time.Now()
	self, err := ros.Executable()

	if err != nil {
		fatal("%v", err)
	}

	if secs == 0 {
		secs = 30

		if tier == "thorough" {
			secs = 600
		}
	}

	scratchRoot, err := ros.MkdirTemp("", "vsimchk")
	if err != nil {
		fatal("%v", err)
	}

	defer ros.RemoveAll(scratchRoot)

	env := append(ros.Environ(), "GOMAXPROCS=1", "GOGC=200", "GOMEMLIMIT=2000MiB", "VSIM_SCRATCH="+scratchRoot)
	exit := func(code int) {
		_ = ros.RemoveAll(scratchRoot)
		ros.Exit(code)
	}

	st := &stats{}
	st.init()

	// Known findings and cases that failed in the past.
	known := knownCases(verif, p.id)

	var found *message

	for _, kc := range known {
		out, code := runSelf(self, env, "replay", "-file", kc)

		switch {
		case code == 0:
		case code == 1 || code == 4:
			rf := readReplay(kc)
			if strings.Contains(kc, "/known/") && code == 1 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, rf.Note)

				continue
			}

			if found == nil {
				found = &message{Class: field1(out, "class="), Msg: strings.TrimSpace(out), Case: rf.Case}
			}
		default:
			if p.crash && code != 2 {
				continue
			}

			fmt.Fprintf(ros.Stderr, "simcheck: case %s: exit %d\n%s\n", kc, code, out)
			exit(2)
		}
	}

	var (
		mu      sync.Mutex
		wg      sync.WaitGroup
		stopCh  = make(chan struct{})
		once    sync.Once
		trouble string
		crashes []int
		skipped []int
		stopAll = func() { once.Do(func() { close(stopCh) }) }
	)

	deadline := start.Add(time.Duration(secs * float64(time.Second)))

	if found == nil {
		for k := 0; k < n; k++ {
			wg.Add(1)

			go func(k int) {
				defer wg.Done()

				from := k

				for {
					left := time.Until(deadline).Seconds()
					if left < 0.5 {
						return
					}

					args := []string{"worker", "-prop", p.id, "-tier", tier, "-seed", strconv.FormatUint(seed, 10),
						"-k", strconv.Itoa(from), "-n", strconv.Itoa(n), "-secs", fmt.Sprintf("%.2f", left)}
					e := runWorker(self, args, env, stopCh)

					select {
					case <-stopCh:
						return
					default:
					}

					mu.Lock()

					if e.stats != nil {
						st.merge(e.stats)
					}

					if e.viol != nil {
						if found == nil {
							found = e.viol
						}

						mu.Unlock()
						stopAll()

						return
					}

					if e.trbl != "" {
						if trouble == "" {
							trouble = e.trbl
						}

						mu.Unlock()
						stopAll()

						return
					}

					if e.err == nil && e.stats != nil {
						mu.Unlock()

						return
					}

					// The process died.
					if e.start < 0 {
						trouble = fmt.Sprintf("worker %d did not start: %v %s", k, e.err, e.tail)
						mu.Unlock()
						stopAll()

						return
					}

					idx := e.start
					mu.Unlock()

					only := []string{"worker", "-prop", p.id, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-only", strconv.Itoa(idx), "-secs", "200"}
					e2 := runWorker(self, only, env, stopCh)

					mu.Lock()

					switch {
					case e2.viol != nil:
						found = e2.viol
						mu.Unlock()
						stopAll()

						return
					case e2.err == nil || strings.Contains(e2.tail, "watchdog:") || strings.Contains(e.tail, "watchdog:") || !crashText(e2.tail):
						trouble = fmt.Sprintf("case %d: %v %s / %v %s", idx, e.err, e.tail, e2.err, e2.tail)
						mu.Unlock()
						stopAll()

						return
					case harnessPanic(e2.tail) && len(skipped) < 20:
						skipped = append(skipped, idx)
						from = idx + n

						fmt.Fprintf(ros.Stderr, "simcheck: case %d is skipped, harness failed: %s\n", idx, firstLine(e2.tail))
						mu.Unlock()
					case harnessPanic(e2.tail):
						trouble = fmt.Sprintf("case %d: harness failed: %s", idx, e2.tail)
						mu.Unlock()
						stopAll()

						return
					case p.crash:
						crashes = append(crashes, idx)
						from = idx + n
						mu.Unlock()
					default:
						found = &message{Class: "crash", Msg: "the process crashed: " + firstLine(e2.tail), Case: e2.pending}
						mu.Unlock()
						stopAll()

						return
					}
				}
			}(k)
		}

		wg.Wait()
	}

	if trouble != "" && found == nil {
		fmt.Fprintln(ros.Stderr, "simcheck:", trouble)
		exit(2)
	}

	violations := 0
	code := 0

	if found != nil {
		violations = 1
		code = 1
		path := reportViolation(self, env, verif, p, tier, seed, found)

		if path == "" {
			exit(2)
		}
	}

	evidence(p, tier, seed, st, time.Since(start), violations, verif, n, len(known), crashes)

	if code == 0 {
		fmt.Printf("property=%s held: %d cases, %d simulated runs, %d distinct interleavings, %.0f s simulated, %.1f s\n",
			p.id, st.Cases, st.Runs, len(st.Inter), float64(st.SimNS)/1e9, time.Since(start).Seconds())
	}

	exit(code)
}

func crashText(s string) bool {
	return strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine ") || strings.Contains(s, "panic:")
}

// harnessPanic tells a defect of the harness from a crash of the code under simulation.
func harnessPanic(s string) bool {
	if !strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
		return false
	}

	_, stack, ok := strings.Cut(s, "goroutine ")
	if !ok {
		return false
	}

	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "main."):
			return true
		case strings.HasPrefix(l, "github.com/vearutop/flatjsonl"):
			return false
		}
	}

	return false
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") {
			return l
		}
	}

	return clip(s)
}

func field1(s, k string) string {
	i := strings.Index(s, k)
	if i < 0 {
		return ""
	}

	s = s[i+len(k):]
	if j := strings.IndexAny(s, " \n"); j >= 0 {
		s = s[:j]
	}

	return s
}

func runSelf(self string, env []string, args ...string) (string, int) {
	cmd := exec.Command(self, args...)
	cmd.Env = env
	b, err := cmd.CombinedOutput()

	if err == nil {
		return string(b), 0
	}

	if ee, ok := err.(*exec.ExitError); ok { //nolint
		return string(b), ee.ExitCode()
	}

	return string(b) + err.Error(), 2
}

// replayCrash runs a case that may end the process.
func replayCrash(f string) {
	self, err := ros.Executable()
	if err != nil {
		fatal("%v", err)
	}

	out, code := runSelf(self, append(ros.Environ(), "VSIM_CHILD=1", "GOMAXPROCS=1"), "replay", "-file", f)

	switch {
	case code != 0 && code != 1 && code != 4 && crashText(out):
		fmt.Printf("replay: property=%s class=crash the process crashed: %s\n", readReplay(f).Property, firstLine(out))
		ros.Exit(1)
	default:
		fmt.Print(out)
		ros.Exit(code)
	}
}

// knownCases lists replay files of known findings and of repaired defects.
func knownCases(verif, id string) []string {
	var res []string

	for _, d := range []string{"known", "corpus"} {
		m, _ := filepath.Glob(filepath.Join(verif, d, id+"-*.json"))
		sort.Strings(m)
		res = append(res, m...)
	}

	return res
}

// reportViolation minimises, confirms in a fresh process and prints the violation.
func reportViolation(self string, env []string, verif string, p *property, tier string, seed uint64, m *message) string {
	if m.Case == nil {
		fmt.Fprintf(ros.Stderr, "simcheck: violation without a case: %s %s\n", m.Class, m.Msg)

		return ""
	}

	dir := filepath.Join(verif, "replay")
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.id, sanitise(m.Class), m.Case.Index))
	rf := &replayFile{Property: p.id, Class: m.Class, Message: m.Msg, Original: m.Case.Seed, Case: m.Case}

	if m.Class == "crash" {
		writeJSON(path, rf)

		if out, code := runSelf(self, env, "replay", "-file", path); code != 1 || !strings.Contains(out, " class=crash ") {
			fmt.Fprintf(ros.Stderr, "simcheck: crash does not replay: %d %s\n", code, clip(out))

			return ""
		}

		fmt.Printf("violation: %s\n", m.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)

		return path
	}

	writeJSON(path, rf)

	tmp := path + ".min"

	env2 := env

	if _, code := runSelf(self, env2, "minimise", "-file", path, "-secs", "45"); code == 0 {
		if _, err := ros.Stat(tmp); err == nil {
			if _, code := runSelf(self, env2, "replay", "-file", tmp); code == 1 {
				_ = ros.Rename(tmp, path)
			}
		}
	}

	_ = ros.Remove(tmp)

	out, code := runSelf(self, env2, "replay", "-file", path)
	if code != 1 {
		fmt.Fprintf(ros.Stderr, "simcheck: violation %s (%s) does not replay: exit %d %s\n", m.Class, m.Msg, code, out)

		return ""
	}

	fmt.Print(out)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)

	return path
}

func sanitise(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' {
			return r
		}

		return '_'
	}, s)
}

// determinism runs cases several times and prints their hashes.
func determinism(p *property, seed uint64, from, n int) {
	x := &ctx{prop: p}
	x.st.init()

	for i := from; i < from+n; i++ {
		c := x.makeCase(seed, i)
		vi := x.safeCheck(c)
		h := uint64(0)

		if x.last != nil {
			h = x.last.Out.Hash
		}

		fmt.Println(p.id, i, h, vi != nil)
	}

	cleanScratch()
}

// survey goes on after violations and lists them: a development aid.
func survey(p *property, seed uint64, k, n int, deadline time.Time, thorough bool) {
	x := &ctx{prop: p, thorough: thorough}
	x.st.init()

	for i := k; time.Now().Before(deadline); i += n {
		if ros.Getenv("VSIM_TRACE") != "" {
			fmt.Printf("#at\t%d\t\t\n", i)
		}

		c := x.makeCase(seed, i)
		vi := x.safeCheck(c)

		if vi != nil {
			fmt.Printf("%s\t%d\t%s\t%s\n", vi.class, i, c.Shape, strings.ReplaceAll(vi.msg, "\n", "~"))
		}

		if x.trouble != "" {
			fmt.Printf("TROUBLE\t%d\t%s\t%s\n", i, c.Shape, strings.ReplaceAll(x.trouble, "\n", "~"))
		}

		x.st.Cases++
	}

	fmt.Printf("#cases\t%d\t\t\n", x.st.Cases)
	cleanScratch()

	if f := ros.Getenv("VSIM_COV"); f != "" {
		var b strings.Builder

		for i, s := range siteNames {
			if s != "" {
				fmt.Fprintf(&b, "%d\t%s\n", simrt.Cov[i], s)
			}
		}

		_ = ros.WriteFile(fmt.Sprintf("%s.%s.%d", f, p.id, k), []byte(b.String()), 0o600)
	}
}
