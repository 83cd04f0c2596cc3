package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	fProp    = flag.String("property", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fVerif   = flag.String("verif", "/verif", "directory for evidence and replays")
	fShards  = flag.Int("shards", 0, "worker processes")
	fWorker  = flag.Bool("worker", false, "internal: run one shard")
	fShard   = flag.Int("shard", 0, "internal")
	fOut     = flag.String("out", "", "internal: directory of reports")
	fRaceBin = flag.String("race-bin", "", "binary built with the race detector")
	fRace    = flag.Bool("race-stage", false, "internal: run only the race families")
	fReplay  = flag.String("replay", "", "replay file")
	fFamily  = flag.String("family", "", "only this family")
	fScale   = flag.Float64("scale", 1, "scale the number of cases")
	fDump    = flag.Int("dump", 0, "print that many generated cases per family and exit")
)

type failure struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Kind     string          `json:"kind"` // case, crash, history
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Original json.RawMessage `json:"original,omitempty"`
	Index    int             `json:"index"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Scale    float64         `json:"scale"`
	Shrinks  int             `json:"shrink_tries"`
}

type famReport struct {
	Evals   int            `json:"evals"`
	Labels  map[string]int `json:"labels"`
	Hashes  []byte         `json:"hashes"`
	Samples []string       `json:"samples"`
}

type report struct {
	Fams    map[string]*famReport `json:"fams"`
	Failure *failure              `json:"failure"`
	Done    bool                  `json:"done"`
	Capped  bool                  `json:"capped"`
}

var (
	caseTicks  atomic.Int64
	scratchDir string
)

// scratch returns a fresh directory for one case; it is removed with the worker's directory.
var scratchN int

func scratch() string {
	scratchN++
	d := filepath.Join(scratchDir, fmt.Sprintf("c%d", scratchN))
	if err := os.MkdirAll(d, 0o755); err != nil {
		bug("scratch: %v", err)
	}
	return d
}

func setupWorkerProcess() {
	debug.SetMaxStack(256 << 20)
	debug.SetTraceback("single")
	base := os.Getenv("WCHECK_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "w")
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		os.Exit(9)
	}
	scratchDir = d
	tmp := filepath.Join(d, "tmp")
	os.Mkdir(tmp, 0o755)
	os.Setenv("TMPDIR", tmp)
	os.Chdir(d)
	silenceLogs()
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		n := 0
		for {
			time.Sleep(100 * time.Millisecond)
			n++
			if caseTicks.Add(1) > 900 {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG: the case made no progress in 900 ticks of 100 ms\n%s\n", buf)
				os.Exit(7)
			}
			if n%5 == 0 {
				metrics.Read(sample)
				if sample[0].Value.Uint64() > 3<<30 {
					fmt.Fprintf(os.Stderr, "MEMORY: heap over 3 GiB\n")
					os.Exit(8)
				}
			}
		}
	}()
}

func cleanupWorker() { os.RemoveAll(scratchDir) }

// boosts are the cases of a property per nominal one; cases of the others are cheaper.
var boosts = map[string]int{"L02": 3, "M02": 3, "B06": 4, "Q04": 5, "Q05": 5, "B03": 30, "B05": 5, "L04": 30, "S01": 30, "S02": 30, "S03": 30, "R04": 6, "L01": 6, "M01": 5}

// turns are the cases after which a fresh process takes over.
var turns = map[string]int{"B01": 3000, "B02": 3000, "B04": 1500, "B05": 2000, "B08": 2500}

func tierCount(prop string, f *Family) int {
	boost, ok := boosts[prop]
	if !ok {
		boost = 10
	}
	n := f.Quick * boost * 2
	if *fTier == "thorough" {
		k := f.Factor
		if k == 0 {
			k = 30
		}
		n *= k
	}
	n = int(float64(n) * *fScale)
	if n < 1 {
		n = 1
	}
	return n
}

func wallCap() time.Duration {
	if *fTier == "thorough" {
		return 25 * time.Minute
	}
	return 4 * time.Minute
}

func runWorker(p *Property) {
	setupWorkerProcess()
	defer cleanupWorker()
	rep := &report{Fams: map[string]*famReport{}}
	repPath := filepath.Join(*fOut, fmt.Sprintf("report-%v-%d.json", *fRace, *fShard))
	save := func() {
		b := mustJSON(rep)
		if err := os.WriteFile(repPath+".tmp", b, 0o644); err != nil {
			bug("report: %v", err)
		}
		os.Rename(repPath+".tmp", repPath)
	}
	prog, err := os.Create(filepath.Join(*fOut, fmt.Sprintf("progress-%v-%d", *fRace, *fShard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n%s\n", r, debug.Stack())
			os.Exit(9)
		}
	}()
	start := time.Now()
	for fi, f := range p.Families {
		if f.Race != *fRace || (*fFamily != "" && f.Name != *fFamily) {
			continue
		}
		fr := &famReport{Labels: map[string]int{}}
		rep.Fams[f.Name] = fr
		hashes := map[uint64]struct{}{}
		n := tierCount(p.ID, f)
		for i := *fShard; i < n; i += *fShards {
			if time.Since(start) > wallCap() {
				rep.Capped = true
				break
			}
			prog.WriteAt([]byte(fmt.Sprintf("%8d %12d\n", fi, i)), 0)
			caseTicks.Store(0)
			t := newT(caseSeed(*fSeed, p.ID, f.Name, i))
			c := f.Gen(t)
			o := newObs()
			err := f.runCase(c, o)
			fr.Evals++
			for k, v := range o.labels {
				fr.Labels[k] += v
			}
			if o.nt || err != nil {
				b := mustJSON(c)
				h := hashCase(b)
				if _, dup := hashes[h]; !dup {
					hashes[h] = struct{}{}
					if len(fr.Samples) < 2 && len(b) < 1500 {
						fr.Samples = append(fr.Samples, string(b))
					}
				}
			}
			if scratchN%64 == 0 && scratchN > 0 {
				cleanScratch()
			}
			if err != nil {
				orig := mustJSON(c)
				rep.Failure = &failure{Property: p.ID, Family: f.Name, Kind: "case", Message: err.Error(),
					Case: orig, Original: orig, Index: i, Seed: *fSeed, Tier: *fTier, Shard: *fShard, Shards: *fShards, Scale: *fScale}
				fr.Hashes = hashes2b(hashes)
				save()
				if !f.NoShrink {
					mc, merr, tries := f.shrink(t.rec, err, 1500, 25*time.Second)
					rep.Failure.Case = mustJSON(mc)
					rep.Failure.Message = merr.Error()
					rep.Failure.Shrinks = tries
					save()
				}
				return
			}
		}
		fr.Hashes = hashes2b(hashes)
	}
	rep.Done = true
	save()
}

func cleanScratch() {
	ents, _ := os.ReadDir(scratchDir)
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), "c") {
			os.RemoveAll(filepath.Join(scratchDir, e.Name()))
		}
	}
}

// --- replay ---

func loadFailure(path string) *failure {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	var fl failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	return &fl
}

func runReplay(path string) {
	fl := loadFailure(path)
	p := properties[fl.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", fl.Property)
		os.Exit(9)
	}
	if fl.Kind == "history" {
		// the whole prefix of the shard is the reproduction
		*fProp, *fTier, *fSeed, *fShard, *fShards, *fScale = fl.Property, fl.Tier, fl.Seed, fl.Shard, fl.Shards, fl.Scale
		d, _ := os.MkdirTemp("", "replay")
		*fOut = d
		runWorker(p)
		b, _ := os.ReadFile(filepath.Join(d, fmt.Sprintf("report-false-%d.json", fl.Shard)))
		os.RemoveAll(d)
		var rep report
		json.Unmarshal(b, &rep)
		if rep.Failure != nil {
			fmt.Fprintf(os.Stdout, "FAILS: %s\n", rep.Failure.Message)
			os.Exit(1)
		}
		os.Exit(0)
	}
	f := p.family(fl.Family)
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown family", fl.Family)
		os.Exit(9)
	}
	c, err := f.Decode(fl.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	stdout := os.Stdout
	setupWorkerProcess()
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", r)
			cleanupWorker()
			os.Exit(9)
		}
	}()
	n := max(1, f.Repeat)
	for i := 0; i < n; i++ {
		caseTicks.Store(0)
		if err := f.runCase(c, newObs()); err != nil {
			cleanupWorker()
			fmt.Fprintf(stdout, "FAILS: %v\n", err)
			os.Exit(1)
		}
	}
	cleanupWorker()
	fmt.Fprintln(stdout, "PASSES")
	os.Exit(0)
}

// --- supervisor ---

type procResult struct {
	code   int // exit code, -1 signalled
	sig    syscall.Signal
	stderr string
	stdout string
}

func runProc(bin string, timeout time.Duration, stop <-chan struct{}, args ...string) procResult {
	cmd := exec.Command(bin, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limitWriter{b: &errb, n: 1 << 18}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return procResult{code: 9, stderr: err.Error()}
	}
	done := make(chan struct{})
	killed := make(chan string, 1)
	go func() {
		select {
		case <-done:
		case <-time.After(timeout):
			killed <- "timeout"
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		case <-stop:
			killed <- "stopped"
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	}()
	err := cmd.Wait()
	close(done)
	r := procResult{stderr: errb.String(), stdout: out.String()}
	select {
	case why := <-killed:
		r.code = 100
		if why == "stopped" {
			r.code = 101
		}
		return r
	default:
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				r.code, r.sig = -1, ws.Signal()
			} else {
				r.code = ws.ExitStatus()
			}
		} else {
			r.code = 9
		}
	}
	return r
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

var supervisorTmp string

func fatalCheck(format string, a ...any) {
	if supervisorTmp != "" {
		os.RemoveAll(supervisorTmp)
	}
	fmt.Printf("CHECK-ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// crashed says whether a process ended in a way that is a verdict about the code.
func crashed(r procResult) bool {
	switch r.code {
	case 2: // Go runtime: panic in a goroutine or fatal error
		return strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "fatal error:")
	case 7, 8, 66:
		return true
	case -1:
		return r.sig == syscall.SIGSEGV || r.sig == syscall.SIGABRT || r.sig == syscall.SIGBUS
	}
	return false
}

func crashMessage(r procResult) string {
	for _, mark := range []string{"fatal error:", "WARNING: DATA RACE", "HANG:", "MEMORY:", "panic:"} {
		if i := strings.Index(r.stderr, mark); i >= 0 {
			return "process died: " + tail(r.stderr[i:], 2500)
		}
	}
	return fmt.Sprintf("process died (exit %d, signal %v): %s", r.code, r.sig, tail(r.stderr, 2000))
}

func supervise(p *Property) {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatalCheck("%v", err)
	}
	shards := *fShards
	if shards == 0 {
		shards = min(8, runtime.NumCPU())
	}
	tmp, err := os.MkdirTemp("/dev/shm", "wcheck-"+p.ID+"-") // the cases create many small files
	if err != nil {
		tmp, err = os.MkdirTemp("", "wcheck-"+p.ID+"-")
	}
	if err != nil {
		fatalCheck("%v", err)
	}
	defer os.RemoveAll(tmp)
	supervisorTmp = tmp
	os.Setenv("WCHECK_SCRATCH", tmp)
	os.Chmod(tmp, 0o755)

	type stage struct {
		race bool
		bin  string
		n    int
	}
	stages := []stage{}
	hasPlain, hasRace := false, false
	for _, f := range p.Families {
		if f.Race {
			hasRace = true
		} else {
			hasPlain = true
		}
	}
	parallel := shards
	if hasPlain {
		// reflect.StructOf, the validator and the codecs keep every type they have seen for ever, and slow
		// down with them: fresh processes take turns where types are generated
		if per := turns[p.ID]; per > 0 && *fShards == 0 {
			total := 0
			for _, f := range p.Families {
				total += tierCount(p.ID, f)
			}
			shards *= 1 + total/(per*shards)
		}
		stages = append(stages, stage{false, self, shards})
	}
	if hasRace {
		if *fRaceBin == "" {
			fatalCheck("no race build given")
		}
		stages = append(stages, stage{true, *fRaceBin, min(2, parallel)})
	}
	timeout := wallCap() + 5*time.Minute
	args := func(st stage, shard int) []string {
		return []string{"-worker", "-property", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-shard", fmt.Sprint(shard),
			"-shards", fmt.Sprint(st.n), "-out", tmp, "-family", *fFamily, "-scale", fmt.Sprint(*fScale), fmt.Sprintf("-race-stage=%v", st.race)}
	}
	ev := newEvidence(p)
	finish := func(fl *failure) {
		os.RemoveAll(tmp)
		viol := 0
		if fl != nil {
			viol = 1
		}
		ev.write(p, time.Since(start).Seconds(), viol)
		printKnown(p)
		if fl == nil {
			fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, *fTier, *fSeed, ev.evals(), ev.distinct(), time.Since(start).Seconds())
			os.Exit(0)
		}
		dir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(fl, "", " ")
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, hashCase(fl.Case)))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatalCheck("cannot write the replay file: %v", err)
		}
		fmt.Printf("family %s, case %s\n%s\n", fl.Family, tail(string(fl.Case), 3000), tail(fl.Message, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.Exit(1)
	}

	replayOnce := func(bin string, fl *failure, c json.RawMessage) procResult {
		g := *fl
		g.Case = c
		b, _ := json.Marshal(&g)
		path := filepath.Join(tmp, "confirm.json")
		os.WriteFile(path, b, 0o644)
		return runProc(bin, 6*time.Minute, nil, "-replay", path)
	}

	for _, st := range stages {
		results := make([]procResult, st.n)
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var once sync.Once
		slots := make(chan struct{}, parallel)
		for s := 0; s < st.n; s++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				slots <- struct{}{}
				defer func() { <-slots }()
				select {
				case <-stop:
					results[s].code = 101
					return
				default:
				}
				results[s] = runProc(st.bin, timeout, stop, args(st, s)...)
				if results[s].code != 0 && results[s].code != 101 {
					once.Do(func() { close(stop) })
				} else if rep := readReport(tmp, st.race, s); rep != nil && rep.Failure != nil {
					once.Do(func() { close(stop) })
				}
			}()
		}
		wg.Wait()
		var fails []*failure
		for s := 0; s < st.n; s++ {
			rep := readReport(tmp, st.race, s)
			if rep != nil {
				ev.add(rep)
				if rep.Failure != nil {
					fails = append(fails, rep.Failure)
				}
			}
		}
		sort.Slice(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		// failures reported by workers
		for _, fl := range fails {
			r := replayOnce(st.bin, fl, fl.Case)
			if r.code == 1 || crashed(r) {
				if r.code == 1 {
					fl.Message = strings.TrimPrefix(r.stdout, "FAILS: ")
				}
				finish(fl)
			}
			if len(fl.Original) > 0 {
				r = replayOnce(st.bin, fl, fl.Original)
				if r.code == 1 || crashed(r) {
					fl.Case = fl.Original
					finish(fl)
				}
			}
			// needs the history of the process: run the same shard again
			r = runProc(st.bin, timeout, nil, args(st, fl.Shard)...)
			if rep := readReport(tmp, st.race, fl.Shard); r.code == 0 && rep != nil && rep.Failure != nil &&
				rep.Failure.Family == fl.Family && rep.Failure.Index == fl.Index {
				fl.Kind = "history"
				fl.Case = fl.Original
				fl.Message = "depends on the earlier cases of the run: " + fl.Message
				finish(fl)
			}
			fatalCheck("failure of family %s case %d did not reproduce: %s", fl.Family, fl.Index, tail(fl.Message, 1500))
		}
		// workers that died
		for s := 0; s < st.n; s++ {
			r := results[s]
			if r.code == 0 || r.code == 101 {
				continue
			}
			if !crashed(r) {
				fatalCheck("worker %d ended with %d (%v): %s", s, r.code, r.sig, tail(r.stderr, 3000))
			}
			var fi, idx int
			b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("progress-%v-%d", st.race, s)))
			if _, err := fmt.Sscan(string(b), &fi, &idx); err != nil {
				fatalCheck("worker %d died before its first case: %s", s, tail(r.stderr, 2000))
			}
			f := p.Families[fi]
			c := mustJSON(f.Gen(newT(caseSeed(*fSeed, p.ID, f.Name, idx))))
			fl := &failure{Property: p.ID, Family: f.Name, Kind: "crash", Case: c, Index: idx, Seed: *fSeed, Tier: *fTier,
				Shard: s, Shards: st.n, Scale: *fScale, Message: crashMessage(r)}
			if r.code == 66 { // the race detector reports no race that did not happen
				finish(fl)
			}
			for try := 0; try < 3; try++ {
				rr := replayOnce(st.bin, fl, c)
				if rr.code == 1 || crashed(rr) {
					finish(fl)
				}
			}
			rr := runProc(st.bin, timeout, nil, args(st, s)...)
			if crashed(rr) {
				fl.Message = "depends on the earlier cases of the run: " + fl.Message
				finish(fl)
			}
			fatalCheck("worker %d died in family %s case %d, not reproduced: %s", s, f.Name, idx, fl.Message)
		}
	}
	finish(nil)
}

func readReport(dir string, race bool, shard int) *report {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("report-%v-%d.json", race, shard)))
	if err != nil {
		return nil
	}
	var rep report
	if json.Unmarshal(b, &rep) != nil {
		return nil
	}
	return &rep
}

// --- evidence ---

type evidence struct {
	fams   map[string]*famReport
	hashes map[string]map[[8]byte]struct{}
	capped bool
}

func newEvidence(p *Property) *evidence {
	return &evidence{fams: map[string]*famReport{}, hashes: map[string]map[[8]byte]struct{}{}}
}

func (e *evidence) add(rep *report) {
	e.capped = e.capped || rep.Capped
	for name, fr := range rep.Fams {
		g := e.fams[name]
		if g == nil {
			g = &famReport{Labels: map[string]int{}}
			e.fams[name] = g
			e.hashes[name] = map[[8]byte]struct{}{}
		}
		g.Evals += fr.Evals
		for k, v := range fr.Labels {
			g.Labels[k] += v
		}
		if len(g.Samples) < 3 {
			g.Samples = append(g.Samples, fr.Samples...)
		}
		for i := 0; i+8 <= len(fr.Hashes); i += 8 {
			e.hashes[name][[8]byte(fr.Hashes[i:i+8])] = struct{}{}
		}
	}
}

func (e *evidence) evals() (n int) {
	for _, f := range e.fams {
		n += f.Evals
	}
	return
}

func (e *evidence) distinct() (n int) {
	for _, h := range e.hashes {
		n += len(h)
	}
	return
}

func (e *evidence) write(p *Property, wall float64, violations int) {
	rule := ""
	famOut := map[string]any{}
	samples := []any{}
	for _, f := range p.Families {
		fr := e.fams[f.Name]
		if fr == nil {
			continue
		}
		rule += fmt.Sprintf("[%s] %s. ", f.Name, f.Rule)
		famOut[f.Name] = map[string]any{"evaluations": fr.Evals, "distinct_nontrivial": len(e.hashes[f.Name]), "classes": fr.Labels}
		for i, s := range fr.Samples {
			if i >= 3 {
				break
			}
			var v any
			if json.Unmarshal([]byte(s), &v) == nil {
				samples = append(samples, map[string]any{"family": f.Name, "case": v})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none: the cases of this run were too large to print or none was non-trivial")
	}
	out := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": e.evals(), "distinct_nontrivial": e.distinct(), "rule": rule, "samples": samples,
			"families": famOut, "stopped_by_time_cap": e.capped,
		},
		"wall_s": wall, "violations": violations,
	}
	if len(p.Assume) > 0 {
		out["assumptions"] = p.Assume
	}
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		fatalCheck("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644); err != nil {
		fatalCheck("evidence: %v", err)
	}
}

func main() {
	flag.Parse()
	if *fReplay != "" {
		runReplay(*fReplay)
		return
	}
	p := properties[*fProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	if *fDump > 0 {
		for _, f := range p.Families {
			if *fFamily != "" && f.Name != *fFamily {
				continue
			}
			for i := 0; i < *fDump; i++ {
				fmt.Printf("%s %s\n", f.Name, mustJSON(f.Gen(newT(caseSeed(*fSeed, p.ID, f.Name, i)))))
			}
		}
		return
	}
	if *fWorker {
		runWorker(p)
		return
	}
	supervise(p)
}
