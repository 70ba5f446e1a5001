package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is the panic value by which a monitor reports a broken property.
type Violation struct{ Msg string }

// skipCase discards a case that falls outside a property's domain.
type skipCase struct{ why string }

// Ctx is handed to every case.
type Ctx struct {
	R        *Rng
	Prop     string
	Idx      int
	Seed     uint64
	Thorough bool
	trace    []string
	sum      *Summary
}

// Logf records a step of the case for the replay file.
func (c *Ctx) Logf(format string, a ...any) {
	if len(c.trace) < 400 {
		c.trace = append(c.trace, cut(fmt.Sprintf(format, a...), 2000))
	}
}

// Failf reports a violation.
func (c *Ctx) Failf(format string, a ...any) { panic(Violation{fmt.Sprintf(format, a...)}) }

// Check evaluates one oracle.
func (c *Ctx) Check(ok bool, format string, a ...any) {
	c.sum.Checks++
	if !ok {
		panic(Violation{fmt.Sprintf(format, a...)})
	}
}

// EqTT compares two truth tables.
func (c *Ctx) EqTT(got, want TT, format string, a ...any) {
	c.sum.Checks++
	if d, diff := got.FirstDiff(want); diff {
		panic(Violation{fmt.Sprintf(format, a...) + fmt.Sprintf(": differs under assignment %0*b (bit i = variable i), got %v, want %v", want.n, d, got.Get(d), want.Get(d))})
	}
}

func (c *Ctx) Obs(name string, n int) { c.sum.Obs[name] += int64(n) }
func (c *Ctx) Skip(why string)        { panic(skipCase{why}) }

// NT marks the case as non-trivial with an identity for distinctness.
func (c *Ctx) NT(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.sum.seen[h.Sum64()] = true
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.sum.Samples) < 2 {
		c.sum.Samples = append(c.sum.Samples, fmt.Sprintf("case %d: ", c.Idx)+cut(fmt.Sprintf(format, a...), 600))
	}
}

// Summary is what one worker reports.
type Summary struct {
	Cases   int64
	Skipped int64
	Checks  int64
	Obs     map[string]int64
	Samples []string
	Seen    []uint64
	seen    map[uint64]bool
	MaxCase float64
	MaxIdx  int
}

// PropDef is one registered check.
type PropDef struct {
	ID       string
	Level    string
	Quick    int
	Thorough int
	Rule     string
	Need     []string
	Assume   []string
	CPU      float64 // per-case CPU budget in seconds, default 60
	Run      func(*Ctx)
	Final    func(obs map[string]int64) string // optional whole-run oracle
}

var props = map[string]*PropDef{}

func register(p *PropDef) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.CPU == 0 {
		p.CPU = 60
	}
	props[p.ID] = p
}

// Probe is a dedicated deterministic check of one specific behaviour: either a
// regression guard for a repaired defect or the witness of a known finding.
type Probe struct {
	ID   string
	Prop string
	Run  func(c *Ctx)
}

var probes []*Probe

func probe(id, prop string, run func(c *Ctx)) { probes = append(probes, &Probe{id, prop, run}) }

type failRec struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     int      `json:"case"`
	Probe    string   `json:"probe,omitempty"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Stack    string   `json:"stack,omitempty"`
}

var curCase atomic.Int64
var caseStartCPU atomic.Int64
var caseStartWall atomic.Int64

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func protect(c *Ctx, run func(*Ctx)) (fail *failRec, skipped string) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case skipCase:
				skipped = x.why + " "
				return
			case Violation:
				fail = &failRec{Message: x.Msg}
			default:
				fail = &failRec{Message: fmt.Sprintf("panic: %v", x)}
			}
			fail.Stack = cut(string(debug.Stack()), 6000)
			fail.Trace = c.trace
		}
	}()
	run(c)
	return
}

func newCtx(prop string, seed uint64, idx int, thorough bool, sum *Summary) *Ctx {
	return &Ctx{R: NewRng(seed, prop, idx), Prop: prop, Idx: idx, Seed: seed, Thorough: thorough, sum: sum}
}

func newSummary() *Summary { return &Summary{Obs: map[string]int64{}, seen: map[uint64]bool{}} }

// worker runs cases idx = start, start+stride, ... < total.
func worker(p *PropDef, thorough bool, seed uint64, start, stride, total int, out string) int {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	cur, err := os.OpenFile(out+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sum := newSummary()
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	emit := func(fr *failRec) {
		fr.Property, fr.Tier, fr.Seed = p.ID, tier, seed
		fh, _ := os.OpenFile(out+".fail", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		b, _ := json.Marshal(fr)
		fh.Write(append(b, '\n'))
		fh.Close()
	}
	var emitMu sync.Mutex
	curCase.Store(-1)
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(200 * time.Millisecond)
			id := curCase.Load()
			if id < 0 {
				continue
			}
			used := float64(cpuNow()-caseStartCPU.Load()) / 1e9
			if used > p.CPU && curCase.Load() == id {
				emitMu.Lock()
				emit(&failRec{Case: int(id), Message: fmt.Sprintf("case did not terminate within %.0f s of CPU time", p.CPU)})
				os.Exit(67)
			}
			metrics.Read(sample)
			if sample[0].Value.Uint64() > 3<<30 {
				emitMu.Lock()
				emit(&failRec{Case: int(id), Message: "case needs more than 3 GB of live heap"})
				os.Exit(67)
			}
			if time.Now().UnixNano()-caseStartWall.Load() > int64(600e9) {
				os.Exit(69) // starved or blocked: the parent re-runs it alone
			}
		}
	}()
	keep := 1
	if v, err := strconv.Atoi(os.Getenv("LNG_KEEP")); err == nil {
		keep = v
	}
	fails := 0
	var b8 [8]byte
	for i := start; i < total; i += stride {
		binary.LittleEndian.PutUint64(b8[:], uint64(i))
		cur.WriteAt(b8[:], 0)
		c := newCtx(p.ID, seed, i, thorough, sum)
		t0 := cpuNow()
		caseStartCPU.Store(t0)
		caseStartWall.Store(time.Now().UnixNano())
		curCase.Store(int64(i))
		fr, skipped := protect(c, p.Run)
		curCase.Store(-1)
		if d := float64(cpuNow()-t0) / 1e9; d > sum.MaxCase {
			sum.MaxCase, sum.MaxIdx = d, i
		}
		sum.Cases++
		if skipped != "" {
			sum.Skipped++
			sum.Obs["skipped: "+skipped]++
		}
		if fr != nil {
			fr.Case = i
			emitMu.Lock()
			emit(fr)
			emitMu.Unlock()
			fails++
			if fails >= keep {
				break
			}
		}
	}
	for h := range sum.seen {
		sum.Seen = append(sum.Seen, h)
	}
	b, _ := json.Marshal(sum)
	os.WriteFile(out+".json", b, 0o644)
	if fails > 0 {
		return 1
	}
	return 0
}

type runOpts struct {
	verif    string
	thorough bool
	seed     uint64
}

func findKnown(verif string) map[string]map[string]any {
	out := map[string]map[string]any{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return out
	}
	var doc struct {
		Findings []map[string]any `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, x := range doc.Findings {
		id, _ := x["id"].(string)
		out[id] = x
	}
	return out
}

func spawn(args []string, stderr *bytes.Buffer) *exec.Cmd {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stderr = stderr
	cmd.Stdout = os.Stdout
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66 history_size=4")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

func readFails(path string) []*failRec {
	fh, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer fh.Close()
	var out []*failRec
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r failRec
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			out = append(out, &r)
		}
	}
	return out
}

func tierName(t bool) string {
	if t {
		return "thorough"
	}
	return "quick"
}

// runSet runs all cases of a property in worker processes.
func runSet(p *PropDef, o runOpts, scratch string) (*Summary, []*failRec, error) {
	total := p.Quick
	if o.thorough {
		total = p.Thorough
	}
	if v, err := strconv.Atoi(os.Getenv("LNG_CASES")); err == nil {
		total = v
	}
	nw := 8
	if v, err := strconv.Atoi(os.Getenv("LNG_WORKERS")); err == nil {
		nw = v
	}
	if nw > total {
		nw = total
	}
	merged := newSummary()
	var mu sync.Mutex
	var fails []*failRec
	var errs []error
	var cmds []*exec.Cmd
	stop := false
	keep := os.Getenv("LNG_KEEP") != ""
	addSum := func(path string) bool {
		b, err := os.ReadFile(path)
		if err != nil {
			return false
		}
		var s Summary
		if json.Unmarshal(b, &s) != nil {
			return false
		}
		merged.Cases += s.Cases
		merged.Skipped += s.Skipped
		merged.Checks += s.Checks
		for k, v := range s.Obs {
			merged.Obs[k] += v
		}
		for _, h := range s.Seen {
			merged.seen[h] = true
		}
		if len(merged.Samples) < 6 {
			merged.Samples = append(merged.Samples, s.Samples...)
		}
		if s.MaxCase > merged.MaxCase {
			merged.MaxCase, merged.MaxIdx = s.MaxCase, s.MaxIdx
		}
		return true
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			start := w
			for attempt := 0; ; attempt++ {
				out := filepath.Join(scratch, fmt.Sprintf("w%d_%d", w, attempt))
				var se bytes.Buffer
				cmd := spawn([]string{"worker", p.ID, tierName(o.thorough), fmt.Sprint(o.seed), fmt.Sprint(start), fmt.Sprint(nw), fmt.Sprint(total), out}, &se)
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				if err := cmd.Start(); err != nil {
					errs = append(errs, err)
					mu.Unlock()
					return
				}
				cmds = append(cmds, cmd)
				mu.Unlock()
				err := cmd.Wait()
				mu.Lock()
				fr := readFails(out + ".fail")
				okSum := addSum(out + ".json")
				fails = append(fails, fr...)
				if len(fr) > 0 && !keep && !stop {
					stop = true
					for _, c := range cmds {
						if c != cmd && c.Process != nil {
							c.Process.Kill()
						}
					}
				}
				wasStop := stop
				mu.Unlock()
				if wasStop && !keep {
					return
				}
				if err == nil || (okSum && len(fr) > 0) {
					return
				}
				b, _ := os.ReadFile(out + ".cur")
				idx := start
				if len(b) == 8 {
					idx = int(binary.LittleEndian.Uint64(b))
				}
				if len(fr) == 0 {
					// the process died: attribute it to the case it was in by re-running that case alone
					f2, died := runAlone(p, o, idx, scratch)
					mu.Lock()
					if f2 != nil {
						fails = append(fails, f2)
					} else if died {
						fails = append(fails, &failRec{Property: p.ID, Tier: tierName(o.thorough), Seed: o.seed, Case: idx, Message: "process crashed: " + cut(se.String(), 3000)})
					} else {
						fmt.Fprintf(os.Stderr, "note: worker died in case %d (%v) but the case alone runs through; continuing\n", idx, err)
					}
					if len(fails) > 0 && !keep && !stop {
						stop = true
						for _, c := range cmds {
							if c.Process != nil {
								c.Process.Kill()
							}
						}
					}
					wasStop = stop
					mu.Unlock()
					if wasStop && !keep {
						return
					}
				}
				start = idx + nw
				if start >= total {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	if len(errs) > 0 {
		return merged, fails, errs[0]
	}
	return merged, fails, nil
}

func runAlone(p *PropDef, o runOpts, idx int, scratch string) (*failRec, bool) {
	out := filepath.Join(scratch, fmt.Sprintf("alone_%d", idx))
	var se bytes.Buffer
	cmd := spawn([]string{"worker", p.ID, tierName(o.thorough), fmt.Sprint(o.seed), fmt.Sprint(idx), "1", fmt.Sprint(idx + 1), out}, &se)
	err := cmd.Run()
	if fr := readFails(out + ".fail"); len(fr) > 0 {
		return fr[0], true
	}
	if err != nil {
		return &failRec{Property: p.ID, Tier: tierName(o.thorough), Seed: o.seed, Case: idx, Message: "process crashed: " + err.Error() + ": " + cut(se.String(), 3000)}, true
	}
	return nil, false
}

// runProbes returns failures by probe id.
func runProbes(p *PropDef, o runOpts, scratch string) map[string]*failRec {
	res := map[string]*failRec{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan int, 8)
	for _, pr := range probes {
		if pr.Prop != p.ID {
			continue
		}
		wg.Add(1)
		go func(pr *Probe) {
			defer wg.Done()
			sem <- 1
			defer func() { <-sem }()
			out := filepath.Join(scratch, "probe_"+pr.ID)
			var se bytes.Buffer
			cmd := spawn([]string{"probe", pr.ID, tierName(o.thorough), fmt.Sprint(o.seed), out}, &se)
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			if fr := readFails(out + ".fail"); len(fr) > 0 {
				res[pr.ID] = fr[0]
			} else if err != nil {
				res[pr.ID] = &failRec{Property: p.ID, Probe: pr.ID, Tier: tierName(o.thorough), Seed: o.seed, Message: "process crashed: " + err.Error() + ": " + cut(se.String(), 2000)}
			} else {
				res[pr.ID] = nil
			}
		}(pr)
	}
	wg.Wait()
	return res
}

func doProbe(id string, thorough bool, seed uint64, out string) int {
	debug.SetMaxStack(256 << 20)
	for _, pr := range probes {
		if pr.ID != id {
			continue
		}
		go func() {
			for {
				time.Sleep(100 * time.Millisecond)
				if float64(cpuNow())/1e9 > 30 {
					b, _ := json.Marshal(&failRec{Property: pr.Prop, Probe: id, Message: "probe did not terminate within 30 s of CPU time"})
					os.WriteFile(out+".fail", append(b, '\n'), 0o644)
					os.Exit(1)
				}
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					b, _ := json.Marshal(&failRec{Property: pr.Prop, Probe: id, Message: "probe needs more than 3 GB of heap"})
					os.WriteFile(out+".fail", append(b, '\n'), 0o644)
					os.Exit(1)
				}
			}
		}()
		c := newCtx("probe"+id, seed, 0, thorough, newSummary())
		fr, _ := protect(c, pr.Run)
		if fr != nil {
			fr.Property, fr.Probe, fr.Tier, fr.Seed = pr.Prop, id, tierName(thorough), seed
			b, _ := json.Marshal(fr)
			os.WriteFile(out+".fail", append(b, '\n'), 0o644)
			return 1
		}
		return 0
	}
	return 2
}

func runMain(id string, o runOpts) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "lngcheck_"+id+"_")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	known := findKnown(o.verif)
	pres := runProbes(p, o, scratch)
	var viol []*failRec
	var pids []string
	for pid := range pres {
		pids = append(pids, pid)
	}
	sort.Strings(pids)
	nKnown := 0
	for _, pid := range pids {
		fr := pres[pid]
		if fr == nil {
			continue
		}
		k := known[pid]
		if k != nil && k["status"] == "open" && k["property"] == id {
			nKnown++
			fmt.Printf("KNOWN-FINDING: property=%s %s: %v [observed: %s]\n", id, pid, k["what"], cut(strings.ReplaceAll(fr.Message, "\n", " "), 200))
			continue
		}
		fr.Message = "probe " + pid + ": " + fr.Message
		viol = append(viol, fr)
	}
	var sum *Summary
	if len(viol) == 0 || os.Getenv("LNG_KEEP") != "" {
		var fails []*failRec
		sum, fails, err = runSet(p, o, scratch)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		viol = append(viol, fails...)
	} else {
		sum = newSummary()
	}
	tier := tierName(o.thorough)
	if len(viol) == 0 && p.Final != nil {
		if msg := p.Final(sum.Obs); msg != "" {
			viol = append(viol, &failRec{Property: id, Tier: tier, Seed: o.seed, Case: -1, Message: msg})
		}
	}
	obs := map[string]any{}
	for k, v := range sum.Obs {
		obs[k] = v
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(o.seed), "level": p.Level,
		"coverage": map[string]any{
			"evaluations": sum.Cases - sum.Skipped, "distinct_nontrivial": len(sum.seen), "rule": p.Rule,
			"oracle_comparisons": sum.Checks, "skipped_cases": sum.Skipped, "observed": obs,
			"samples": sum.Samples, "probes_run": len(pres), "known_findings_reproduced": nKnown,
			"max_case_cpu_s": sum.MaxCase, "max_case": sum.MaxIdx,
		},
		"assumptions": append([]string{"oracle is the harness's own truth-table / CDCL reference semantics over public API observations", "holds on the executions run, nothing beyond"}, p.Assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(viol) > 0 {
		rd := filepath.Join(o.verif, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		for i, v := range viol {
			path := filepath.Join(rd, fmt.Sprintf("%s_%s_%d.json", id, tier, i))
			vb, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, vb, 0o644)
			fmt.Printf("%s case %d %s: %s\n", id, v.Case, v.Probe, cut(v.Message, 1500))
			if os.Getenv("LNG_TRACE") != "" {
				for _, t := range v.Trace {
					fmt.Println("    ", t)
				}
				fmt.Println(v.Stack)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		return 1
	}
	for _, n := range p.Need {
		if sum.Obs[n] == 0 {
			fmt.Printf("INCONCLUSIVE property=%s: nothing observed for %q\n", id, n)
			return 2
		}
	}
	if sum.Cases == 0 || sum.Checks == 0 {
		fmt.Printf("INCONCLUSIVE property=%s: nothing observed\n", id)
		return 2
	}
	fmt.Printf("%s held: %d cases (%d skipped), %d distinct non-trivial, %d oracle comparisons, %.1f s, slowest case %d %.2f s CPU\n", id, sum.Cases, sum.Skipped, len(sum.seen), sum.Checks, time.Since(t0).Seconds(), sum.MaxIdx, sum.MaxCase)
	var ks []string
	for k := range sum.Obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  observed %-45s %d\n", k, sum.Obs[k])
	}
	return 0
}

func replay(o runOpts, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var fr failRec
	if err := json.Unmarshal(b, &fr); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c *Ctx
	var run func(*Ctx)
	if fr.Probe != "" {
		for _, pr := range probes {
			if pr.ID == fr.Probe {
				run = pr.Run
			}
		}
		c = newCtx("probe"+fr.Probe, fr.Seed, 0, fr.Tier == "thorough", newSummary())
	} else {
		p := props[fr.Property]
		run = p.Run
		c = newCtx(fr.Property, fr.Seed, fr.Case, fr.Tier == "thorough", newSummary())
	}
	debug.SetMaxStack(256 << 20)
	got, _ := protect(c, run)
	if got == nil {
		fmt.Println("replay: the property held")
		return 0
	}
	for _, t := range got.Trace {
		fmt.Println("   ", t)
	}
	fmt.Println(got.Message)
	fmt.Println(got.Stack)
	fmt.Printf("VIOLATION property=%s replay=%s\n", fr.Property, path)
	return 1
}

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: lngcheck run PROP TIER | replay FILE | case PROP TIER SEED IDX | list")
		os.Exit(2)
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	verif := os.Getenv("LNG_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	switch a[0] {
	case "run":
		os.Exit(runMain(a[1], runOpts{verif, a[2] == "thorough", seed}))
	case "worker":
		s, _ := strconv.ParseUint(a[3], 10, 64)
		st, _ := strconv.Atoi(a[4])
		sd, _ := strconv.Atoi(a[5])
		to, _ := strconv.Atoi(a[6])
		os.Exit(worker(props[a[1]], a[2] == "thorough", s, st, sd, to, a[7]))
	case "probe":
		s, _ := strconv.ParseUint(a[3], 10, 64)
		os.Exit(doProbe(a[1], a[2] == "thorough", s, a[4]))
	case "replay":
		os.Exit(replay(runOpts{verif, false, seed}, a[1]))
	case "case":
		s, _ := strconv.ParseUint(a[3], 10, 64)
		i, _ := strconv.Atoi(a[4])
		c := newCtx(a[1], s, i, a[2] == "thorough", newSummary())
		t0 := cpuNow()
		fr, sk := protect(c, props[a[1]].Run)
		for _, t := range c.trace {
			fmt.Println("   ", t)
		}
		if fr != nil {
			fmt.Println(fr.Message)
			fmt.Println(fr.Stack)
			os.Exit(1)
		}
		fmt.Println("ok", sk, float64(cpuNow()-t0)/1e9, c.sum.Obs)
	case "selftest":
		os.Exit(selftest())
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	}
}
