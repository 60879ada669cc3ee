// vmon: runtime monitors for gmnlisp.
//
//	vmon check PROP            parent: spawns workers, collects observations, writes evidence
//	vmon worker PROP ...       child: runs a slice of the cases, journaling the current one
//	vmon replay FILE           reruns the single case of a replay file
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one property: a deterministic list of cases and the monitor deciding each.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // number of cases, quick tier
	Thorough int
	Run      func(*Case)
	NoLimit  bool // the address space is not limited
	// Need lists counters that must be non-zero for the run to count as an observation.
	Need []string
	// Assume lists assumptions recorded in the evidence.
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Failure is one observed violation.
type Failure struct {
	Prop  string `json:"property"`
	Seed  int64  `json:"seed"`
	Tier  string `json:"tier"`
	Idx   int    `json:"case"`
	Kind  string `json:"kind"`
	Sig   string `json:"sig"`
	Input string `json:"input"`
	Want  string `json:"want"`
	Got   string `json:"got"`
}

// Case is what a property's Run sees.
type Case struct {
	Prop  *Prop
	Seed  int64
	Tier  string
	Idx   int
	R     *Rng
	Dir   string // scratch directory of this worker
	w     *workerState
	nfail int
	// suffix of global variables, when several cases run in one process at the same time
	suffix string
}

type workerState struct {
	evals    int64
	counters map[string]int64
	hashes   map[uint64]struct{}
	samples  []string
	out      *bufio.Writer
	fails    int
	note     *os.File
}

// Eval counts one execution of the real code that the monitor decided.
func (c *Case) Eval() { c.w.evals++ }

// Count adds to a named observation counter.
func (c *Case) Count(name string, n int) { c.w.counters[name] += int64(n) }

// Note keeps the text being run beside the journal, so that an abort can be reported with its input.
func (c *Case) Note(src string) {
	if c.w.note != nil {
		if len(src) > 4000 {
			src = src[:4000]
		}
		c.w.note.Truncate(0)
		c.w.note.WriteAt([]byte(src), 0)
	}
}

// Distinct records a distinct non-trivial case by its key.
func (c *Case) Distinct(key string) { c.w.hashes[hashString(key)] = struct{}{} }

func (c *Case) Sample(s string) {
	if len(c.w.samples) < 2 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.w.samples = append(c.w.samples, s)
	}
}

// Fail reports a violation. sig identifies the failing input (for the known-findings file).
func (c *Case) Fail(kind, input, want, got string) {
	c.nfail++
	c.w.fails++
	if c.nfail > 3 || c.w.fails > 40 {
		return
	}
	f := Failure{Prop: c.Prop.ID, Seed: c.Seed, Tier: c.Tier, Idx: c.Idx, Kind: kind,
		Sig: kind + " :: " + input, Input: input, Want: want, Got: got}
	b, _ := json.Marshal(map[string]any{"t": "fail", "f": f})
	c.w.out.Write(b)
	c.w.out.WriteByte('\n')
	c.w.out.Flush()
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func envSeed() int64 {
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return n
	}
	return 1
}

func nCases(p *Prop, tier string) int {
	if v := os.Getenv("VMON_CASES"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	if tier == "thorough" {
		return p.Thorough
	}
	return p.Quick
}

const maxStack = 256 << 20

func runOne(p *Prop, seed int64, tier string, idx int, dir string, ws *workerState) {
	runOneAs(p, seed, tier, idx, dir, ws, "")
}

func runOneAs(p *Prop, seed int64, tier string, idx int, dir string, ws *workerState, suffix string) {
	c := &Case{Prop: p, Seed: seed, Tier: tier, Idx: idx, R: newRng(seed, p.ID, idx), Dir: dir, w: ws, suffix: suffix}
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessBug); ok {
				fmt.Fprintf(os.Stderr, "HARNESS BUG prop=%s case=%d: %v\n%s\n", p.ID, idx, h.msg, debug.Stack())
				os.Exit(3)
			}
			st := string(debug.Stack())
			// either the interpreter panicked outside a guarded evaluation, or it returned something
			// a monitor could not digest: neither happens on a tree where the properties hold
			c.Fail("panic", fmt.Sprintf("case %d (outside a guarded evaluation)", idx), "no panic", fmt.Sprint(r)+"\n"+firstLines(st, 30))
		}
	}()
	p.Run(c)
}

type harnessBug struct{ msg string }

func bug(format string, a ...any) { panic(harnessBug{fmt.Sprintf(format, a...)}) }

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// worker PROP seed tier from stride total journal hashfile dir
func workerMain(args []string) {
	p := props[args[0]]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	tier := args[2]
	from, _ := strconv.Atoi(args[3])
	stride, _ := strconv.Atoi(args[4])
	total, _ := strconv.Atoi(args[5])
	journal, err := os.OpenFile(args[6], os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	dir := args[8]
	debug.SetMaxStack(maxStack)
	runtime.GOMAXPROCS(2)
	go func(parent int) { // no worker outlives its check
		for os.Getppid() == parent {
			time.Sleep(time.Second)
		}
		os.Exit(3)
	}(os.Getppid())
	lim := uint64(3 << 30)
	if !p.NoLimit {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	ws := &workerState{counters: map[string]int64{}, hashes: map[uint64]struct{}{}, out: bufio.NewWriter(os.NewFile(3, "report"))}
	if stride > total { // a confirmation run of one case
		ws.note, _ = os.Create(args[6] + ".note")
	}
	var buf [8]byte
	for i := from; i < total; i += stride {
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		journal.WriteAt(buf[:], 0)
		runOne(p, seed, tier, i, dir, ws)
		if ws.fails > 200 {
			break
		}
		if _, err := os.Stat(filepath.Join(filepath.Dir(args[6]), "stop")); err == nil {
			break // the verdict is settled
		}
	}
	binary.LittleEndian.PutUint64(buf[:], 0)
	journal.WriteAt(buf[:], 0)
	hf, err := os.OpenFile(args[7], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	if err == nil {
		bw := bufio.NewWriter(hf)
		for h := range ws.hashes {
			binary.LittleEndian.PutUint64(buf[:], h)
			bw.Write(buf[:])
		}
		bw.Flush()
		hf.Close()
	}
	b, _ := json.Marshal(map[string]any{"t": "done", "evals": ws.evals, "counters": ws.counters, "samples": ws.samples})
	ws.out.Write(b)
	ws.out.WriteByte('\n')
	ws.out.Flush()
}

type report struct {
	T        string           `json:"t"`
	F        Failure          `json:"f"`
	Evals    int64            `json:"evals"`
	Counters map[string]int64 `json:"counters"`
	Samples  []string         `json:"samples"`
}

// settleSeconds is how long a check goes on after a violation that is not a known one.
const settleSeconds = 45

type collector struct {
	mu           sync.Mutex
	fails        []Failure
	evals        int64
	counters     map[string]int64
	samples      []string
	crashes      int
	confirmed    int
	inconclusive []string
	harness      []string
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func readJournal(path string) int {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b)) - 1
}

const caseCPULimit = 60.0   // CPU seconds spent in one case (cases take milliseconds): non-termination
const caseWallLimit = 200.0 // wall seconds in one case without the CPU limit: inconclusive (blocked)

// spawn runs one worker over [from, total) with stride; returns (crashed case or -1, how, stderr tail).
func spawn(p *Prop, seed int64, tier string, from, stride, total int, tmp string, id string, col *collector) (int, string, string) {
	journal := filepath.Join(tmp, "journal-"+id)
	os.Remove(journal)
	hashf := filepath.Join(tmp, "hash-"+id)
	dir := filepath.Join(tmp, "scratch-"+id)
	os.MkdirAll(dir, 0o700)
	errf, _ := os.Create(filepath.Join(tmp, "stderr-"+id))
	defer errf.Close()
	pr, pw, _ := os.Pipe()
	cmd := exec.Command(os.Args[0], "worker", p.ID, strconv.FormatInt(seed, 10), tier,
		strconv.Itoa(from), strconv.Itoa(stride), strconv.Itoa(total), journal, hashf, dir)
	cmd.Stderr = errf
	cmd.Stdout = errf
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "VMON_BIN="+os.Args[0])
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		col.mu.Lock()
		col.harness = append(col.harness, err.Error())
		col.mu.Unlock()
		return -1, "", ""
	}
	pw.Close()
	done := make(chan struct{})
	killed := make(chan string, 1)
	go func() {
		last, lastCPU, lastT := -2, 0.0, time.Now()
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				cur := readJournal(journal)
				cpu := cpuSeconds(cmd.Process.Pid)
				if cur != last {
					last, lastCPU, lastT = cur, cpu, time.Now()
				} else if cpu-lastCPU > caseCPULimit {
					killed <- "cpu"
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				} else if time.Since(lastT).Seconds() > caseWallLimit {
					killed <- "wall"
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				}
			}
		}
	}()
	sawDone := false
	sc := bufio.NewScanner(pr)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		var r report
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		col.mu.Lock()
		if r.T == "fail" {
			col.fails = append(col.fails, r.F)
		} else if r.T == "done" {
			sawDone = true
			col.evals += r.Evals
			for k, v := range r.Counters {
				col.counters[k] += v
			}
			col.samples = append(col.samples, r.Samples...)
		}
		col.mu.Unlock()
	}
	err := cmd.Wait()
	close(done)
	pr.Close()
	os.RemoveAll(dir)
	if err == nil && sawDone {
		return -1, "", ""
	}
	how := "crash"
	select {
	case how = <-killed:
	default:
	}
	b, _ := os.ReadFile(filepath.Join(tmp, "stderr-"+id))
	if len(b) > 6000 {
		// the fatal message is at the start of the runtime's dump; println noise may precede it
		if i := bytes.LastIndex(b, []byte("fatal error:")); i >= 0 {
			b = b[i:]
		} else if i := bytes.LastIndex(b, []byte("HARNESS")); i >= 0 {
			b = b[i:]
		} else if i := bytes.LastIndex(b, []byte("panic:")); i >= 0 {
			b = b[i:]
		}
		if len(b) > 6000 {
			b = b[:6000]
		}
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		how = "harness"
	}
	return readJournal(journal), how, string(b)
}

// stop is true once a crash has been confirmed: the verdict is settled.
func (col *collector) stop() bool {
	col.mu.Lock()
	defer col.mu.Unlock()
	return col.confirmed > 0
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(root string) []known {
	var ks []known
	f, err := os.Open(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var k known
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func checkMain(id string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	root := os.Getenv("VMON_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed, tier := envSeed(), envTier()
	total := nCases(p, tier)
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw > total {
		nw = total
	}
	ks := loadKnown(root)
	isKnown := func(f Failure) *known {
		for i := range ks {
			if ks[i].Status == "known" && ks[i].Property == f.Prop && ks[i].Sig == f.Sig {
				return &ks[i]
			}
		}
		return nil
	}
	col := &collector{counters: map[string]int64{}}
	// Cases that fail can be slow: some time after the first violation the workers are told to stop.
	settled := make(chan struct{})
	defer close(settled)
	go func() {
		for n := 0; n < settleSeconds; {
			select {
			case <-settled:
				return
			case <-time.After(time.Second):
			}
			col.mu.Lock()
			for i := range col.fails {
				if isKnown(col.fails[i]) == nil {
					n++
					break
				}
			}
			col.mu.Unlock()
		}
		os.WriteFile(filepath.Join(tmp, "stop"), nil, 0o600)
	}()
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := k
			for crashes := 0; from < total && crashes < 3 && !col.stop(); crashes++ {
				at, how, msg := spawn(p, seed, tier, from, nw, total, tmp, strconv.Itoa(k), col)
				if how == "" {
					return
				}
				if how == "harness" || at < 0 {
					col.mu.Lock()
					col.harness = append(col.harness, fmt.Sprintf("worker %d at case %d (%s): %s", k, at, how, msg))
					col.mu.Unlock()
					return
				}
				// confirm in a process of its own
				sub := &collector{counters: map[string]int64{}}
				at2, how2, msg2 := spawn(p, seed, tier, at, total+1, total, tmp, fmt.Sprintf("%d-confirm", k), sub)
				col.mu.Lock()
				col.crashes++
				col.fails = append(col.fails, sub.fails...)
				if at2 == at && how2 != "" && how2 != "harness" {
					col.confirmed++
				}
				input := fmt.Sprintf("case %d", at)
				if b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("journal-%d-confirm.note", k))); err == nil && len(b) > 0 {
					input = string(b)
				}
				if at2 == at && how2 == "crash" {
					col.fails = append(col.fails, Failure{Prop: id, Seed: seed, Tier: tier, Idx: at, Kind: "process-abort",
						Sig: "process-abort :: " + input, Input: input, Want: "the process survives", Got: msg2})
				} else if at2 == at && how2 == "wall" && how == "wall" {
					col.fails = append(col.fails, Failure{Prop: id, Seed: seed, Tier: tier, Idx: at, Kind: "blocked",
						Sig: "blocked :: " + input, Input: input, Want: "the evaluation ends", Got: fmt.Sprintf("blocked without using the CPU for %v seconds, twice", caseWallLimit)})
				} else if at2 == at && how2 == "cpu" && how == "cpu" {
					col.fails = append(col.fails, Failure{Prop: id, Seed: seed, Tier: tier, Idx: at, Kind: "non-termination",
						Sig: "non-termination :: " + input, Input: input, Want: "bounded work", Got: fmt.Sprintf("still running after %v CPU seconds, twice", caseCPULimit)})
				} else {
					col.inconclusive = append(col.inconclusive, fmt.Sprintf("case %d: first %s, then %s: %s", at, how, how2, firstLines(msg, 5)))
				}
				col.mu.Unlock()
				from = at + nw
			}
		}(k)
	}
	wg.Wait()

	// distinct
	distinct := map[uint64]struct{}{}
	fs, _ := filepath.Glob(filepath.Join(tmp, "hash-*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(b); i += 8 {
			distinct[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	sort.Slice(col.fails, func(i, j int) bool { return col.fails[i].Idx < col.fails[j].Idx })
	var fresh []Failure
	knownHit := map[string]*known{}
	for _, f := range col.fails {
		if k := isKnown(f); k != nil {
			knownHit[k.Sig] = k
		} else {
			fresh = append(fresh, f)
		}
	}
	for _, k := range ks {
		if k.Property == id && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	samples := []any{}
	sort.Strings(col.samples)
	for i, s := range col.samples {
		if i < 6 {
			samples = append(samples, s)
		}
	}
	cov := map[string]any{
		"evaluations":         col.evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"cases":               total,
		"observed":            col.counters,
		"workers":             nw,
		"known_findings_seen": len(knownHit),
	}
	if len(col.inconclusive) > 0 {
		cov["inconclusive"] = col.inconclusive
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": append([]string{"held on the executions observed in this run; nothing is claimed about programs never run"}, p.Assume...),
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644)

	if len(fresh) > 0 {
		os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
		path := filepath.Join(root, "evidence", "replay", id+".json")
		n := len(fresh)
		if n > 20 {
			n = 20
		}
		b, _ := json.MarshalIndent(fresh[:n], "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		for i, f := range fresh {
			if i >= 5 {
				break
			}
			fmt.Printf("case %d [%s]\n  input: %s\n  want:  %s\n  got:   %s\n", f.Idx, f.Kind, clip(f.Input, 1500), clip(f.Want, 800), clip(f.Got, 800))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if len(col.harness) > 0 {
		for _, h := range col.harness {
			fmt.Fprintln(os.Stderr, "harness error:", h)
		}
		return 2
	}
	if len(col.inconclusive) > 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", strings.Join(col.inconclusive, "; "))
		return 2
	}
	if col.evals == 0 || len(distinct) == 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing observed")
		return 2
	}
	for _, n := range p.Need {
		if col.counters[n] == 0 {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE: no %q observed\n", n)
			return 2
		}
	}
	fmt.Printf("OK property=%s cases=%d evaluations=%d distinct=%d wall=%.1fs\n", id, total, col.evals, len(distinct), time.Since(start).Seconds())
	keys := make([]string, 0, len(col.counters))
	for k := range col.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  observed %s=%d\n", k, col.counters[k])
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var fs []Failure
	if json.Unmarshal(b, &fs) != nil || len(fs) == 0 {
		fmt.Fprintln(os.Stderr, "bad replay file")
		return 2
	}
	p := props[fs[0].Prop]
	dir, _ := os.MkdirTemp("", "vmon-replay-")
	defer os.RemoveAll(dir)
	debug.SetMaxStack(maxStack)
	seen := map[int]bool{}
	rc := 0
	for _, f := range fs {
		if seen[f.Idx] {
			continue
		}
		seen[f.Idx] = true
		ws := &workerState{counters: map[string]int64{}, hashes: map[uint64]struct{}{}, out: bufio.NewWriter(os.Stdout)}
		fmt.Printf("== replay %s case %d seed %d\n", p.ID, f.Idx, f.Seed)
		runOne(p, f.Seed, f.Tier, f.Idx, dir, ws)
		if ws.fails > 0 {
			rc = 1
		}
	}
	return rc
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vmon check|worker|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2]))
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "one": // vmon one PROP IDX
		p := props[os.Args[2]]
		idx, _ := strconv.Atoi(os.Args[3])
		dir, _ := os.MkdirTemp("", "vmon-one-")
		defer os.RemoveAll(dir)
		ws := &workerState{counters: map[string]int64{}, hashes: map[uint64]struct{}{}, out: bufio.NewWriter(os.Stdout)}
		runOne(p, envSeed(), envTier(), idx, dir, ws)
		fmt.Println("fails:", ws.fails, "counters:", ws.counters)
		for _, s := range ws.samples {
			fmt.Println("sample:", s)
		}
	default:
		if f, ok := extraModes[os.Args[1]]; ok {
			os.Exit(f(os.Args[2:]))
		}
		os.Exit(2)
	}
}

var extraModes = map[string]func([]string) int{}
