package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"simrt"
)

// minimise shrinks the draws of a failing run while the same class of failure
// remains: tails are cut, blocks zeroed or removed, values lowered.
func minimise(p *Prop, seed uint64, r0 *Run, f0 *Fail) Replay {
	best := r0.draws()
	orig := [4]int{len(best.Scn), len(best.Flt), len(best.Env), len(best.Sch)}
	deadline := time.Now().Add(25 * time.Second)
	tries := 0
	fails := func(d Draws) (Draws, bool) {
		if tries > 4000 || time.Now().After(deadline) {
			return d, false
		}
		tries++
		r, f := execDraws(p, seed, d, false)
		for i := 0; i < 3 && f == nil && simrt.Race; i++ {
			r, f = execDraws(p, seed, d, false)
		}
		if f == nil || f.Sig != f0.Sig || known(p.ID, f, r) != "" {
			return d, false
		}
		return d, true
	}
	get := func(d *Draws, i int) *[]uint32 {
		return []*[]uint32{&d.Scn, &d.Flt, &d.Env, &d.Sch}[i]
	}
	with := func(i int, v []uint32) Draws {
		d := best
		*get(&d, i) = v
		return d
	}
	for round := 0; round < 3; round++ {
		changed := false
		for _, i := range []int{3, 2, 1, 0} {
			cur := *get(&best, i)
			// drop the tail
			for n := 0; n < len(cur); {
				if _, ok := fails(with(i, cur[:n])); ok {
					cur = cur[:n:n]
					best = with(i, cur)
					changed = true
					break
				}
				if n == 0 {
					n = 1
				} else {
					n *= 2
				}
			}
			// zero and remove blocks
			for size := len(cur); size >= 1; size /= 2 {
				for at := 0; at < len(cur); at += size {
					end := min(at+size, len(cur))
					if i != 3 && size <= 8 {
						v := append(append([]uint32{}, cur[:at]...), cur[end:]...)
						if _, ok := fails(with(i, v)); ok {
							cur = v
							best = with(i, cur)
							changed = true
							continue
						}
					}
					zero := true
					for _, x := range cur[at:end] {
						zero = zero && x == 0
					}
					if zero {
						continue
					}
					v := append([]uint32{}, cur...)
					for j := at; j < end; j++ {
						v[j] = 0
					}
					if _, ok := fails(with(i, v)); ok {
						cur = v
						best = with(i, cur)
						changed = true
					}
				}
			}
			if i == 0 && round > 0 {
				for j := range cur {
					for cur[j] > 1 {
						v := append([]uint32{}, cur...)
						v[j] /= 2
						if _, ok := fails(with(i, v)); !ok {
							break
						}
						cur = v
						best = with(i, cur)
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// drop trailing zeros, which a replay supplies anyway
	for i := 0; i < 4; i++ {
		v := *get(&best, i)
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		*get(&best, i) = v
	}
	r, f := execDraws(p, seed, best, true)
	for i := 0; i < 30 && f == nil && simrt.Race; i++ {
		r, f = execDraws(p, seed, best, true)
	}
	if f == nil { // cannot happen, keep the original
		best = r0.draws()
		r, f = execDraws(p, seed, best, true)
		if f == nil {
			f = f0
		}
	}
	rep := Replay{Property: p.ID, Seed: seed, Draws: best, Original: orig, Race: simrt.Race, Cold: cold}
	rep.describe(r, f)
	return rep
}

// describe notes what happened in the replay.
func (rep *Replay) describe(r *Run, f *Fail) {
	rep.Sig, rep.Violation, rep.Hash = f.Sig, f.Msg, fmt.Sprintf("%016x", r.Hash)
	rep.Scenario = append([]string{"strategy: " + r.Strat.String()}, r.Desc...)
	rep.Faults = r.Faults
	rep.History = nil
	for _, s := range r.Sessions {
		rep.History = append(rep.History, fmt.Sprintf("session %s concurrent=%v resume=%q returned=%v", s.Spec.Label, s.Spec.Run, s.Spec.From, s.Err))
		rep.History = append(rep.History, s.log(300)...)
	}
	rep.Schedule = r.TraceLog
	if len(rep.Schedule) > 2000 {
		rep.Schedule = rep.Schedule[:2000]
	}
}

// KnownFinding is a recorded defect that is not repaired.
type KnownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Class    string `json:"class"`
	Contains string `json:"contains"` // text the violation must contain
	What     string `json:"what"`
	Fixed    string `json:"fixed"` // commit, for repaired ones: suppresses nothing
}

var knownList []KnownFinding

func loadKnown(file string) {
	if file == "" {
		return
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k KnownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Fixed == "" {
			knownList = append(knownList, k)
		}
	}
}

func known(prop string, f *Fail, r *Run) string {
	for _, k := range knownList {
		if k.Property == prop && k.Class == f.Sig && strings.Contains(f.Msg, k.Contains) {
			return k.ID
		}
	}
	return ""
}

// phase has worker processes perform a number of runs.
func phase(p *Prop, tier string, seed uint64, nw, from, total int, capS float64, kf, bin string, race bool) ([]*Batch, error) {
	batches := make([]*Batch, nw)
	errs := make([]error, nw)
	tmp, err := os.MkdirTemp("", "agenor-prog.")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			prog := filepath.Join(tmp, fmt.Sprint(k))
			cmd := exec.Command(bin, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(k), "-workers", fmt.Sprint(nw), "-from", fmt.Sprint(from), "-runs", fmt.Sprint(total), "-cap", fmt.Sprint(capS), "-known", kf, "-progress", prog, fmt.Sprintf("-cold=%v", cold))
			var out, er bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &er
			err := cmd.Run()
			var b Batch
			if e := json.Unmarshal(out.Bytes(), &b); e != nil {
				if fb := fatal(p, seed, k, prog, bin, err, er.String(), tmp, race); fb != nil {
					batches[k] = fb
					return
				}
				errs[k] = fmt.Errorf("worker %d: %v: %s", k, err, tailOf(er.String(), 3000))
				return
			}
			batches[k] = &b
		}()
	}
	wg.Wait()
	return batches, errors.Join(errs...)
}

// raceFrom is where the runs with the race detector start.
const raceFrom = 1 << 30

func orchestrate(p *Prop, tier string, seed uint64, nw, total int, capS float64, root, kf, info, racebin string) int {
	t0 := time.Now()
	self, _ := os.Executable()
	first := 0
	cold = !warms(self)
	if simrt.Race {
		first = raceFrom
	}
	batches, err := phase(p, tier, seed, nw, first, total, capS, kf, self, simrt.Race)
	bad := false
	for _, b := range batches {
		bad = bad || b != nil && len(b.Found) > 0
	}
	raceRuns := 0
	if err == nil && !bad && racebin != "" {
		n := p.RaceQuick
		if tier == "thorough" {
			n = p.RaceThorough
		}
		var more []*Batch
		more, err = phase(p, tier, seed, nw, raceFrom, n, capS, kf, racebin, true)
		for _, b := range more {
			if b != nil {
				raceRuns += b.Runs
			}
		}
		batches = append(batches, more...)
		total += n
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		if !bad {
			return 3
		}
	}
	all := &Batch{Faults: map[string]int{}, Cover: map[string]int{}, Ops: map[string]int{}, Strat: map[string]int{}, Known: map[string]int{}, KnownMsg: map[string]string{}}
	hs := map[uint64]struct{}{}
	for _, b := range batches {
		if b == nil {
			continue
		}
		all.Runs += b.Runs
		all.NonTriv += b.NonTriv
		all.Steps += b.Steps
		all.SimTime += b.SimTime
		all.Switches += b.Switches
		all.Preempts += b.Preempts
		all.Capped = all.Capped || b.Capped
		for _, m := range []struct{ d, s map[string]int }{{all.Faults, b.Faults}, {all.Cover, b.Cover}, {all.Ops, b.Ops}, {all.Strat, b.Strat}, {all.Known, b.Known}} {
			for k, n := range m.s {
				m.d[k] += n
			}
		}
		for k, v := range b.KnownMsg {
			all.KnownMsg[k] = v
		}
		for _, h := range b.Hashes {
			hs[h] = struct{}{}
		}
		all.Found = append(all.Found, b.Found...)
	}
	sort.Slice(all.Found, func(i, j int) bool { return all.Found[i].Index < all.Found[j].Index })
	violations := 0
	var replayFile string
	if len(all.Found) > 0 {
		violations = 1
		f := all.Found[0]
		f.Replay.Tier = tier
		dir := filepath.Join(root, "replays")
		_ = os.MkdirAll(dir, 0o755)
		replayFile = filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, f.Seed))
		bin := self
		if f.Replay.Race && !simrt.Race {
			bin = racebin
		}
		exact := store(&f, p, seed, nw, bin, kf, replayFile)
		fmt.Printf("violation of %s (class %s), found by run %d, seed %016x:\n  %s\n", p.ID, f.Replay.Sig, f.Index, f.Seed, f.Replay.Violation)
		for _, l := range f.Replay.Scenario {
			fmt.Println("  |", clip(l, 600))
		}
		fmt.Printf("  minimised draws %d/%d/%d/%d (scenario/faults/timing/schedule) from %v; replay reproduces exactly: %v\n",
			len(f.Replay.Draws.Scn), len(f.Replay.Draws.Flt), len(f.Replay.Draws.Env), len(f.Replay.Draws.Sch), f.Replay.Original, exact)
		fmt.Printf("  replay with: %s -replay %s\n", "bash /verif/check.sh", replayFile)
	}
	for _, id := range sortedKeys(all.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs): %s\n", p.ID, id, all.Known[id], clip(all.KnownMsg[id], 300))
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(p, tier, seed, all, len(hs), wall, replayFile, root, info, total, raceRuns)
	fmt.Printf("%s %s: %d runs (%d non-trivial, %d distinct), %.0f simulated seconds, %d steps, faults %v, %.1fs wall\n",
		p.ID, tier, all.Runs, all.NonTriv, len(hs), float64(all.SimTime)/1e9, all.Steps, all.Faults, wall)
	if violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayFile)
		return 1
	}
	if all.NonTriv == 0 {
		fmt.Fprintln(os.Stderr, "no run was non-trivial: the check decided nothing")
		return 3
	}
	return 0
}

// fatal looks into a worker which ended without a report: a run that takes the
// process down again, in a process of its own, is a violation.
func fatal(p *Prop, seed uint64, k int, prog, self string, err error, stderr, tmp string, race bool) *Batch {
	pb, e := os.ReadFile(prog)
	if e != nil {
		return nil
	}
	var i int
	if _, e := fmt.Sscan(string(pb), &i); e != nil || i < 0 {
		return nil
	}
	sd := runSeed(seed, i)
	what := "the process is taken down: " + fatalLine(stderr)
	if strings.Contains(stderr, "makes no progress") {
		what = fmt.Sprintf("the code runs on for more than %s without doing anything", stuckAfter)
	}
	if strings.Contains(stderr, "uses up the memory") {
		what = fmt.Sprintf("the code uses more than %d MB of memory", tooMuch>>20)
	}
	rep := Replay{Property: p.ID, Seed: sd, BySeed: true, Race: race, Cold: cold, Fatal: what, Sig: "fatal", Violation: what}
	file := filepath.Join(tmp, fmt.Sprintf("f%d.json", k))
	b, _ := json.Marshal(&rep)
	_ = os.WriteFile(file, b, 0o644)
	out, e := exec.Command(self, "-replay", file).CombinedOutput()
	if e == nil || bytes.Contains(out, []byte("REPLAY: no violation")) {
		return nil
	}
	rep.Scenario = strings.Split(tailOf(stderr, 1500), "\n")
	return &Batch{Runs: i%raceFrom/8 + 1, NonTriv: 1, Found: []Found{{i, sd, rep}}}
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") {
			return l
		}
	}
	return tailOf(s, 200)
}

// store writes the replay file and makes sure that it reproduces the violation
// exactly in a fresh process. When the violation depends on what the process
// did earlier, the runs which came before become part of the replay.
func store(f *Found, p *Prop, seed uint64, nw int, self, kf, file string) bool {
	write := func(r *Replay) {
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(file, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	try := func(extra ...string) bool {
		out, _ := exec.Command(self, append([]string{"-replay", file, "-known", kf}, extra...)...).Output()
		if len(extra) > 0 {
			return bytes.Contains(out, []byte("violation reproduced"))
		}
		return bytes.Contains(out, []byte("identical=true"))
	}
	write(&f.Replay)
	if f.Replay.Fatal != "" {
		return true
	}
	if try() {
		return true
	}
	var before []uint64
	for i := f.Index/raceFrom*raceFrom + f.Index%raceFrom%nw; i < f.Index; i += nw {
		before = append(before, runSeed(seed, i))
	}
	for m := 0; ; m = m*4 + 1 {
		m = min(m, len(before))
		r := f.Replay
		r.BySeed, r.Draws, r.Seed = true, Draws{}, f.Seed
		r.Before = before[len(before)-m:]
		write(&r)
		if try("-rewrite") && try() {
			return true
		}
		if m == len(before) {
			break
		}
	}
	write(&f.Replay)
	return false
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
