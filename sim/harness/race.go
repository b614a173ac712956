package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"simrt"
)

// The variant built with the race detector looks for accesses to memory which
// nothing orders. The simulator still decides every interleaving; what the
// detector knows of the order of events comes from the simulated primitives.

var raceLog string // where the detector writes its reports
var raceSeen int   // reports so far
var raceAt int64   // how much of the log has been read

// raceInit makes sure that the detector reports to a file of ours. The
// detector takes its options at start up, so the process is started again.
func raceInit() {
	if !simrt.Race {
		return
	}
	if dir := os.Getenv("AGENOR_SIM_RACE"); dir != "" {
		raceLog = filepath.Join(dir, fmt.Sprintf("race.%d", os.Getpid()))
		return
	}
	dir, err := os.MkdirTemp("", "agenor-race.")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.Env = append(os.Environ(), "AGENOR_SIM_RACE="+dir,
		"GORACE=log_path="+filepath.Join(dir, "race")+" halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	err = cmd.Run()
	_ = os.RemoveAll(dir)
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 {
			os.Exit(x.ExitCode())
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.Exit(0)
}

var (
	raceFrame  = regexp.MustCompile(`(?m)^  (\S.*)\(\)\n\s+(\S+)`)
	raceSystem = regexp.MustCompile(`/src/(agenor|pants|nefilim)/|/m/client/`)
	raceGoroot = runtime.GOROOT() + "/" //nolint // the tool chain it was built with
)

// raceTop is the first frame of an access outside the standard library.
func raceTop(stack string) (fn, at string) {
	for _, m := range raceFrame.FindAllStringSubmatch(stack, -1) {
		if strings.HasPrefix(m[2], raceGoroot) || strings.HasPrefix(m[1], "runtime.") ||
			strings.HasPrefix(m[1], "simrt.MapKeys") || strings.HasPrefix(m[1], "simrt.RangeMap") {
			continue
		}
		if !raceSystem.MatchString(m[2]) {
			return "", ""
		}
		at = m[2]
		for _, x := range []string{"/src/", "/m/"} {
			if i := strings.LastIndex(at, x); i >= 0 {
				at = at[i+len(x):]
				break
			}
		}
		return m[1], at
	}
	return "", ""
}

// raceFail is what the detector reported since it was last asked.
func raceFail() *Fail {
	if !simrt.Race || simrt.RaceErrors() == raceSeen {
		return nil
	}
	raceSeen = simrt.RaceErrors()
	b, err := os.ReadFile(raceLog)
	if err != nil {
		return nil
	}
	news := string(b[raceAt:])
	raceAt = int64(len(b))
	type race struct{ sig, msg string }
	var all []race
	for _, rep := range strings.Split(news, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var fns, what []string
		for i, part := range strings.Split(strings.TrimSpace(rep), "\n\n") {
			if i == 2 {
				break
			}
			fn, at := raceTop(part)
			if fn == "" {
				break
			}
			kind := "read"
			if strings.Contains(strings.ToLower(part), "write at") || strings.Contains(strings.ToLower(part), "write by") {
				kind = "write"
			}
			fns = append(fns, shortFn(fn))
			what = append(what, fmt.Sprintf("%s by %s (%s)", kind, fn, at))
		}
		if len(fns) < 2 {
			continue
		}
		sort.Strings(fns)
		sort.Strings(what)
		all = append(all, race{"race:" + strings.Join(fns, "|"), "the same memory is accessed without anything ordering the accesses: " + strings.Join(what, ", ")})
	}
	if len(all) == 0 {
		return nil
	}
	sort.Slice(all, func(i, j int) bool { return all[i].msg < all[j].msg })
	return failf(all[0].sig, "%s", all[0].msg)
}

func shortFn(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}
