package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/li18ngo"

	"simrt"
)

type Draws struct {
	Scn, Flt, Env, Sch []uint32
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string         `json:"property"`
	Seed      uint64         `json:"seed"`
	Tier      string         `json:"tier"`
	Sig       string         `json:"class"`
	Violation string         `json:"violation"`
	Hash      string         `json:"execution_hash"`
	Draws     Draws          `json:"draws"`
	Original  [4]int         `json:"draws_before_minimising"`
	Scenario  []string       `json:"scenario"`
	History   []string       `json:"history"`
	Schedule  []string       `json:"schedule_trace"`
	Faults    map[string]int `json:"faults"`
	BySeed    bool           `json:"by_seed,omitempty"` // execute the seed, not the draws
	Before    []uint64       `json:"seeds_before,omitempty"`
	Fatal     string         `json:"fatal,omitempty"`
	Race      bool           `json:"race,omitempty"` // needs the variant with the race detector
	Cold      bool           `json:"cold,omitempty"` // without warming up
}

// Found is a failing seed as a worker reports it.
type Found struct {
	Index  int
	Seed   uint64
	Replay Replay
}

// Batch is what a worker process reports.
type Batch struct {
	Runs, NonTriv             int
	Steps                     int64
	SimTime                   int64
	Switches, Preempts        int64
	Faults, Cover, Ops, Strat map[string]int
	Hashes                    []uint64
	Found                     []Found
	Known                     map[string]int
	KnownMsg                  map[string]string
	Wall                      float64
	Capped                    bool
}

func runSeed(seed uint64, idx int) uint64 {
	x := seed*0x9E3779B97F4A7C15 + uint64(idx)*0xD1B54A32D192ED03 + 0x2545F4914F6CDD1D
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

func streams(seed uint64) (a, b, c, d *simrt.Stream) {
	return simrt.NewStream("scn", seed), simrt.NewStream("flt", seed^0x1111), simrt.NewStream("env", seed^0x2222), simrt.NewStream("sch", seed^0x3333)
}

// oracleAt names the function which gave up.
func oracleAt() string {
	pc := make([]uintptr, 24)
	fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, "main.") {
			return fmt.Sprintf("%s:%d", f.Function, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// exec judges one run. What the oracle can't make sense of at all isn't what is
// due either.
func (p *Prop) exec(r *Run) (f *Fail) {
	defer func() {
		if x := recover(); x != nil {
			f = failf("oracle", "the behaviour observed can't be interpreted: %v [%s]", x, oracleAt())
		}
	}()
	f = p.Exec(r)
	if x := raceFail(); p.RaceOnly || f == nil {
		f = x
	}
	return f
}

func execSeed(p *Prop, seed uint64) (*Run, *Fail) {
	a, b, c, d := streams(seed)
	r := newRun(p, seed, a, b, c, d)
	f := p.exec(r)
	return r, f
}

func execDraws(p *Prop, seed uint64, d Draws, trace bool) (*Run, *Fail) {
	r := newRun(p, seed, simrt.ReplayStream("scn", d.Scn), simrt.ReplayStream("flt", d.Flt), simrt.ReplayStream("env", d.Env), simrt.ReplayStream("sch", d.Sch))
	r.Trace = trace
	f := p.exec(r)
	return r, f
}

func (r *Run) draws() Draws {
	return Draws{r.Scn.Rec, r.Flt.Rec, r.Env.Rec, r.Sch.Rec}
}

func worker(p *Prop, seed uint64, k, n, from, total int, capS float64) *Batch {
	b := &Batch{Faults: map[string]int{}, Cover: map[string]int{}, Ops: map[string]int{}, Strat: map[string]int{}, Known: map[string]int{}, KnownMsg: map[string]string{}}
	hs := map[uint64]struct{}{}
	t0 := time.Now()
	pr := newProgress(progressFile)
	for i := from + k; i < from+total; i += n {
		if time.Since(t0).Seconds() > capS {
			b.Capped = true
			break
		}
		sd := runSeed(seed, i)
		pr.at(i)
		r, f := execSeed(p, sd)
		b.Runs++
		b.Steps += int64(r.Steps)
		b.SimTime += r.Time
		b.Switches += int64(r.Switches)
		b.Preempts += int64(r.Preempts)
		b.Strat[r.Strat.String()]++
		if r.NonTriv {
			b.NonTriv++
		}
		for x, c := range r.Faults {
			b.Faults[x] += c
		}
		for x, c := range r.Cover {
			b.Cover[x] += c
		}
		for x, c := range r.Ops {
			b.Ops[x] += c
		}
		h := r.Hash
		for _, d := range r.Desc {
			h ^= hash(d)
		}
		if r.NonTriv {
			hs[h] = struct{}{}
		}
		if f == nil {
			continue
		}
		if id := known(p.ID, f, r); id != "" {
			b.Known[id]++
			if b.KnownMsg[id] == "" {
				b.KnownMsg[id] = f.Msg
			}
			continue
		}
		pr.at(-1)
		rep := minimise(p, sd, r, f)
		b.Found = append(b.Found, Found{i, sd, rep})
		break
	}
	for h := range hs {
		b.Hashes = append(b.Hashes, h)
	}
	b.Wall = time.Since(t0).Seconds()
	return b
}

func main() {
	debug.SetGCPercent(400)
	var (
		prop     = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "seed")
		work     = flag.Int("worker", -1, "worker index")
		nw       = flag.Int("workers", 8, "workers")
		runs     = flag.Int("runs", 0, "runs (0: the tier's)")
		capS     = flag.Float64("cap", 0, "wall clock cap in seconds")
		root     = flag.String("root", ".", "/verif")
		replay   = flag.String("replay", "", "replay file")
		one      = flag.Uint64("one", 0, "run one seed and print it")
		idx      = flag.Int("index", -1, "run one index and print it")
		hashes   = flag.Bool("hashes", false, "print the execution hash of every run")
		selftest = flag.Bool("selftest", false, "check that runs are repeatable")
		survey   = flag.Bool("survey", false, "count the classes of failure")
		kf       = flag.String("known", "", "known findings file")
		prog     = flag.String("progress", "", "file to note the current run in")
		rewrite  = flag.Bool("rewrite", false, "with -replay: note what happens in the file")
		info     = flag.String("build", "", "build description")
		from     = flag.Int("from", 0, "first run")
		warm     = flag.Bool("warm", false, "do nothing but warm up")
		coldly   = flag.Bool("cold", false, "don't warm up")
		racebin  = flag.String("racebin", "", "the variant with the race detector")
	)
	flag.Parse()
	raceInit()
	// a client of this library selects its language once, before it navigates
	if err := li18ngo.Use(func(o *li18ngo.UseOptions) {
		o.From.Sources = li18ngo.TranslationFiles{
			locale.SourceID: li18ngo.TranslationSource{Name: "agenor"},
		}
	}); err != nil {
		fmt.Fprintln(os.Stderr, "language:", err)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	progressFile = *prog
	cold = *coldly
	loadKnown(*kf)
	if *replay != "" {
		os.Exit(doReplay(*replay, *rewrite))
	}
	if *warm {
		go frugal(func() string { return "warming up uses up the memory" }, 5)
		warmup()
		os.Exit(0)
	}
	single := *one != 0 || *idx >= 0 || *hashes || *selftest || *survey
	if single || *work >= 0 {
		warmup()
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(3)
	}
	total := p.Quick
	if *tier == "thorough" {
		total = p.Thorough
	}
	if simrt.Race && p.RaceQuick > 0 {
		total = p.RaceQuick
		if *tier == "thorough" {
			total = p.RaceThorough
		}
	}
	if *runs > 0 {
		total = *runs
	}
	if *capS == 0 {
		*capS = 60
		if *tier == "thorough" {
			*capS = 840
		}
	}
	switch {
	case *one != 0 || *idx >= 0:
		sd := *one
		if *idx >= 0 {
			sd = runSeed(*seed, *idx)
		}
		r, f := execSeed(p, sd)
		r2, f2 := execDraws(p, sd, r.draws(), true)
		show(r2, f2)
		if (f == nil) != (f2 == nil) || r.Hash != r2.Hash {
			fmt.Println("NOT DETERMINISTIC", r.Hash, r2.Hash)
		}
	case *hashes:
		runtime.GOMAXPROCS(1)
		for i := 0; i < total; i++ {
			r, f := execSeed(p, runSeed(*seed, i))
			msg := ""
			if f != nil {
				msg = f.Msg
			}
			fmt.Printf("%d %016x %d %d %s\n", i, r.Hash, r.Steps, r.Time, msg)
		}
	case *selftest:
		// every run twice, in different orders: nothing may carry over
		hs := make([]uint64, total)
		for i := range hs {
			r, _ := execSeed(p, runSeed(*seed, i))
			hs[i] = r.Hash
		}
		bad := 0
		for i := total - 1; i >= 0; i-- {
			r, _ := execSeed(p, runSeed(*seed, i))
			r2, _ := execDraws(p, runSeed(*seed, i), r.draws(), true)
			if r.Hash != hs[i] || r2.Hash != hs[i] {
				bad++
				if bad < 5 {
					fmt.Println("differs:", i)
				}
			}
		}
		fmt.Printf("%s: %d of %d runs differ when repeated\n", p.ID, bad, total)
	case *survey:
		doSurvey(p, *seed, total, *capS)
	case *work >= 0:
		runtime.GOMAXPROCS(2)
		b := worker(p, *seed, *work, *nw, *from, total, *capS)
		_ = json.NewEncoder(os.Stdout).Encode(b)
	default:
		os.Exit(orchestrate(p, *tier, *seed, *nw, total, *capS, *root, *kf, *info, *racebin))
	}
}

func doSurvey(p *Prop, seed uint64, total int, capS float64) {
	runtime.GOMAXPROCS(2)
	type ent struct {
		n   int
		idx []int
		msg string
	}
	m := map[string]*ent{}
	t0 := time.Now()
	nt, i := 0, 0
	cov := map[string]int{}
	flt := map[string]int{}
	for ; i < total && time.Since(t0).Seconds() < capS; i++ {
		r, f := execSeed(p, runSeed(seed, i))
		if r.NonTriv {
			nt++
		}
		for k, n := range r.Cover {
			cov[k] += n
		}
		for k, n := range r.Faults {
			flt[k] += n
		}
		if f != nil {
			e := m[f.Sig]
			if e == nil {
				e = &ent{msg: f.Msg}
				m[f.Sig] = e
			}
			e.n++
			if len(f.Msg) < len(e.msg) {
				e.msg = f.Msg
				e.idx = append([]int{i}, e.idx...)
			}
			if len(e.idx) < 5 {
				e.idx = append(e.idx, i)
			}
		}
	}
	fmt.Printf("%d runs, %d non-trivial, %.1fs (%.0f/s)\n", i, nt, time.Since(t0).Seconds(), float64(i)/time.Since(t0).Seconds())
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%6d %s %v\n       %s\n", m[k].n, k, m[k].idx, clip(m[k].msg, 400))
	}
	fmt.Println("faults", flt)
	fmt.Println("cover", len(cov), clip(fmt.Sprint(cov), 1500))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func show(r *Run, f *Fail) {
	fmt.Println("strategy:", r.Strat, "steps:", r.Steps, "time:", dur(r.Time), "nontrivial:", r.NonTriv, "faults:", r.Faults)
	for _, d := range r.Desc {
		fmt.Println(" ", d)
	}
	for _, s := range r.Sessions {
		fmt.Printf("session %s run=%v resume=%q err=%v escaped=%v %s\n", s.Spec.Label, s.Spec.Run, s.Spec.From, s.Err, s.Escaped, s.EscStack)
		for _, l := range s.log(400) {
			fmt.Println("   ", l)
		}
	}
	if f != nil {
		fmt.Println("FAIL", f.Sig, f.Msg)
	} else {
		fmt.Println("ok")
	}
}

// progress notes which run is being executed, so that a run which takes the
// process down, or never ends, can be named.
type progress struct {
	f   *os.File
	cur atomic.Int64
	t   atomic.Int64
}

var progressFile string

const stuckAfter = 40 * time.Second

func newProgress(file string) *progress {
	p := &progress{}
	p.cur.Store(-1)
	if file == "" {
		return p
	}
	f, err := os.Create(file)
	if err != nil {
		return p
	}
	p.f = f
	go frugal(func() string { return fmt.Sprintf("run %d uses up the memory", p.cur.Load()) }, 5)
	go func() {
		for {
			time.Sleep(time.Second)
			if c := p.cur.Load(); c >= 0 && time.Now().UnixNano()-p.t.Load() > int64(stuckAfter) {
				fmt.Fprintf(os.Stderr, "run %d makes no progress\n", c)
				os.Exit(5)
			}
		}
	}()
	return p
}

func (p *progress) at(i int) {
	p.t.Store(time.Now().UnixNano())
	p.cur.Store(int64(i))
	if p.f != nil {
		_, _ = p.f.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
	}
}

// cold processes don't warm up, because that alone takes them down.
var cold bool

// warms says whether a process gets through warming up.
func warms(bin string) bool {
	cmd := exec.Command(bin, "-warm")
	if cmd.Start() != nil {
		return false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return err == nil
	case <-time.After(stuckAfter):
		_ = cmd.Process.Kill()
		return false
	}
}

// tooMuch memory is more than ten times what any worker needs.
const tooMuch = 2 << 30

// frugal ends the process when it uses far too much memory, whilst there is
// still some left.
func frugal(say func() string, code int) {
	m := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(m)
		if m[0].Value.Uint64()-m[1].Value.Uint64() > tooMuch {
			fmt.Fprintln(os.Stderr, say())
			os.Exit(code)
		}
	}
}

// warmup performs a few runs, so that whatever the first use of the library
// sets up in the process is the same for a search and for a replay.
func warmup() {
	if cold {
		return
	}
	for _, id := range []string{"C01", "C02"} {
		for i := uint64(0); i < 4; i++ {
			execSeed(props[id], 0xABCD+i)
		}
	}
	raceFail()
}

func doReplay(file string, rewrite bool) int {
	runtime.GOMAXPROCS(2)
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[rep.Property]
	if p == nil {
		return 3
	}
	abs, _ := filepath.Abs(file)
	cold = rep.Cold
	warmup()
	for _, sd := range rep.Before {
		execSeed(p, sd)
	}
	if rep.Fatal != "" {
		// this run takes the process down, or never ends
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, abs)
		go frugal(func() string {
			fmt.Println("REPLAY: violation reproduced, identical=true (the memory is used up)")
			return "the memory is used up"
		}, 1)
		go func() {
			time.Sleep(stuckAfter)
			fmt.Println("REPLAY: violation reproduced, identical=true (no progress)")
			os.Exit(1)
		}()
	}
	if rep.Race && !simrt.Race {
		fmt.Fprintln(os.Stderr, "this replay needs the variant built with the race detector")
		return 3
	}
	var r *Run
	var f *Fail
	// the execution is the same each time, but what the race detector still
	// remembers of it isn't
	for try := 0; try == 0 || rep.Race && try < 30 && (f == nil || f.Msg != rep.Violation); try++ {
		if rep.BySeed {
			sa, sb, sc, sd := streams(rep.Seed)
			r = newRun(p, rep.Seed, sa, sb, sc, sd)
			r.Trace = true
			f = p.exec(r)
		} else {
			r, f = execDraws(p, rep.Seed, rep.Draws, true)
		}
	}
	show(r, f)
	h := fmt.Sprintf("%016x", r.Hash)
	if f == nil {
		fmt.Println("REPLAY: no violation")
		return 0
	}
	same := h == rep.Hash && f.Msg == rep.Violation
	if rewrite {
		rep.describe(r, f)
		b, _ := json.MarshalIndent(&rep, "", " ")
		if err := os.WriteFile(file, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("REPLAY: violation reproduced, identical=%v hash=%s\n", same, h)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, abs)
	return 1
}
