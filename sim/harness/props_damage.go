package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"simrt"
)

// Damaged resume files: C10.

func init() {
	register(&Prop{ID: "C10", Quick: 300000, Thorough: 15000000, Exec: c10,
		Rule: "a session is resumed from a file that is damaged"})
}

// incomplete says why data is not a complete description of a session, as far
// as this can be told without a checksum. It is empty when it might be one.
func incomplete(data []byte) string {
	if !json.Valid(data) {
		return "it is not JSON"
	}
	var top map[string]json.RawMessage
	if json.Unmarshal(data, &top) != nil || top == nil {
		return "it is not an object"
	}
	sect := func(k string) map[string]json.RawMessage {
		var m map[string]json.RawMessage
		for have, raw := range top {
			if strings.EqualFold(have, k) {
				m = nil
				_ = json.Unmarshal(raw, &m)
				if m != nil {
					return m
				}
			}
		}
		return nil
	}
	act := sect("Active")
	if act == nil {
		return "it has no state"
	}
	if sect("JO") == nil {
		return "it has no options"
	}
	for _, k := range []string{"Tree", "CurrentPath"} {
		var v string
		for have, raw := range act {
			if strings.EqualFold(have, k) {
				_ = json.Unmarshal(raw, &v)
			}
		}
		if v == "" {
			return "it has no " + k
		}
	}
	var sub uint
	for have, raw := range act {
		if strings.EqualFold(have, "Subscription") {
			_ = json.Unmarshal(raw, &sub)
		}
	}
	if sub == 0 || sub > 4 {
		return "it has no subscription"
	}
	return ""
}

// places lists the paths of all values in a JSON document.
func places(v any, at []string, out *[][]string) {
	*out = append(*out, append([]string{}, at...))
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			places(x[k], append(at, k), out)
		}
	case []any:
		for i, k := range x {
			places(k, append(at, fmt.Sprint(i)), out)
		}
	}
}

// graft replaces, or without a value removes, what is at a place.
func graft(v any, at []string, del bool, by any) any {
	if len(at) == 0 {
		return by
	}
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	if len(at) == 1 && del {
		delete(m, at[0])
		return m
	}
	m[at[0]] = graft(m[at[0]], at[1:], del, by)
	return m
}

func pluck(v any, at []string) any {
	for _, k := range at {
		m, _ := v.(map[string]any)
		v = m[k]
	}
	return v
}

func typeName(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "bool"
	case float64:
		return "number"
	case string:
		return "string"
	case []any:
		return "list"
	}
	return "object"
}

// damage spoils a resume file. It returns what was done, and why the file must
// be refused if it must.
func (r *Run) damage(dest string) (what, must string) {
	node := r.FS.Lookup(dest)
	if node == nil || node.Dir {
		return "missing", "it is missing"
	}
	d := append([]byte{}, node.Data...)
	n := len(d)
	at := func() int { return r.Flt.Intn(max(1, n)) }
	bad := ""
	switch k := r.Flt.Weighted(2, 1, 4, 1, 5, 2, 5, 2, 3, 3, 10, 3, 2); k {
	case 0:
		r.FS.Delete(dest)
		return "missing", "it is missing"
	case 1:
		r.FS.Delete(dest)
		r.FS.Put(dest, true, nil)
		return "directory", "it is a directory"
	case 2:
		err := []error{syscall.EIO, syscall.EACCES, syscall.EINTR, syscall.ESTALE}[r.Flt.Intn(4)]
		short := 0
		if r.Flt.Chance(60) {
			short = 1 + r.Flt.Intn(n+1)
		}
		r.Inject = func(op, name string, _ int) (v vosVerdict, ok bool) {
			if name == path.Clean(dest) && (op == "read" || op == "open") {
				r.Faults["read-error"]++
				return vosVerdict{Err: err, Short: short}, true
			}
			return v, false
		}
		return fmt.Sprintf("unreadable (%v after %d bytes)", err, short), "it cannot be read"
	case 3:
		what, d = "empty", nil
	case 4:
		c := at()
		what, d = fmt.Sprintf("truncated at %d", c), d[:c]
	case 5:
		a := at()
		b := a + 1 + r.Flt.Intn(n-a)
		for i := a; i < b; i++ {
			d[i] = 0
		}
		what = fmt.Sprintf("zeros at %d-%d", a, b)
	case 6:
		what = "bits"
		for i := 1 + r.Flt.Intn(3); i > 0; i-- {
			a := at()
			b := r.Flt.Intn(8)
			d[a] ^= 1 << b
			what += fmt.Sprintf(" %d.%d", a, b)
		}
	case 7:
		a := at()
		what = fmt.Sprintf("garbage at %d", a)
		for i := a; i < min(n, a+64); i++ {
			d[i] = byte(r.Flt.Intn(256))
		}
	case 8:
		// written over a longer file
		a := at()
		what = fmt.Sprintf("followed by what was at %d", a)
		d = append(d, d[a:]...)
	case 9:
		lines := strings.SplitAfter(string(d), "\n")
		a := r.Flt.Intn(len(lines))
		b := min(len(lines), a+1+r.Flt.Intn(6))
		what = fmt.Sprintf("without lines %d-%d", a, b)
		d = []byte(strings.Join(append(append([]string{}, lines[:a]...), lines[b:]...), ""))
	case 10, 11:
		var v, orig any
		_ = json.Unmarshal(d, &orig)
		if json.Unmarshal(d, &v) != nil {
			return "torn", "it is not JSON"
		}
		what = "values"
		for i := 1 + r.Flt.Intn(2); i > 0; i-- {
			var all [][]string
			places(v, nil, &all)
			p := all[r.Flt.Intn(len(all))]
			if k == 11 {
				// the sections that matter the most
				p = [][]string{{}, {"JO"}, {"Active"}, {"Active", "Metrics"}, {"Active", "Tree"}, {"Active", "CurrentPath"},
					{"Active", "Subscription"}, {"Active", "Metrics", "1"}, {"JO", "Filter"}, {"JO", "Behaviours"}}[r.Flt.Intn(10)]
			}
			var by any
			del := false
			switch j := r.Flt.Intn(12); j {
			case 0, 1:
				del = len(p) > 0
			case 2:
			default:
				by = []any{float64(0), -1.0, 1e30, "", "x", true, []any{}, 6.0, 77.0}[j-3]
			}
			v = graft(v, p, del, by)
			what += fmt.Sprintf(" %s=%v", strings.Join(p, "."), by)
			if del {
				what += "(removed)"
			}
			bad = "" // the value before may have been replaced
			if old := pluck(orig, p); len(p) > 0 && old != nil && by != nil && typeName(pluck(v, p)) == typeName(by) {
				if typeName(by) != typeName(old) {
					bad = fmt.Sprintf("%s is a %s", strings.Join(p, "."), typeName(by))
				} else if by == -1.0 && unsigned(p) || by == 1e30 {
					bad = fmt.Sprintf("%s is %v", strings.Join(p, "."), by)
				}
			}
		}
		d, _ = json.MarshalIndent(v, "", "  ")
	case 12:
		what = "replaced"
		d = []byte([]string{"null", "{}", "[]", "42", `"saved"`, "true", " ", "\n", `{"Active":null,"JO":null}`, `{"JO":{}}`, `{"Active":{}}`, `{"Active":{},"JO":{}}`,
			"\xff\xfe", "<html></html>", "{\"Active\":[],\"JO\":[]}", "nul"}[r.Flt.Intn(16)])
		what += fmt.Sprintf(" by %q", d)
	}
	if string(d) == string(node.Data) && bad == "" {
		return "", ""
	}
	node.Data = d
	node.Size = int64(len(d))
	if must = incomplete(d); must == "" {
		must = bad
	}
	return what, must
}

// unsigned says that a number in a resume file can't be negative.
func unsigned(p []string) bool {
	switch p[len(p)-1] {
	case "Depth":
		return p[0] == "JO"
	case "Subscription", "Hibernation", "T", "Counter", "no-of-files", "no-of-directories", "no-of-workers":
		return true
	}
	return false
}

func c10(r *Run) *Fail {
	conc := r.Scn.Chance(40)
	r.strategy(conc)
	w := r.world(worldOpt{Max: 12, Rel: 25})
	o := genOpts(r.Scn, chainFeat)
	m := w.clear(o)
	n := pickStep(r.Scn, m.steps())
	if n == nil {
		return nil
	}
	first := r.session(&Spec{Label: "crash", W: w, O: o, Acts: map[string]Act{n.Rel: {Kind: panics[r.Flt.Intn(len(panics))]}}})
	torn := r.Flt.Chance(20)
	if torn {
		short := r.Flt.Intn(2600)
		nth := r.Flt.Intn(3)
		seen := 0
		r.Inject = func(op, name string, _ int) (v vosVerdict, ok bool) {
			if op != "write" || !under(name, "/home/user") {
				return v, false
			}
			if seen++; seen-1 == nth {
				r.Faults["kill"]++
				return vosVerdict{Kill: true, Short: short}, true
			}
			return v, false
		}
	}
	out := r.sim(func() {
		first.run()
		settle(2e9)
	})
	r.Inject = nil
	dest, what, must := "", "", ""
	if out.Kind == "killed" {
		files := r.FS.Files("/home/user")
		if len(files) != 1 {
			return nil
		}
		r.FS.Dead = false
		dest, what = files[0], "torn"
		must = incomplete(r.FS.Lookup(dest).Data)
	} else {
		if f := ended(out, "walk to be resumed", r.Last); f != nil {
			return f
		}
		var ok bool
		if dest, ok = first.saved(); first.Escaped != nil || !ok {
			return nil // C09
		}
		what, must = r.damage(dest)
	}
	if what == "" {
		return nil
	}
	r.Faults["damage:"+strings.Fields(what)[0]]++
	oo := *o
	k := r.Scn.Intn(2)
	sp := &Spec{W: w, O: &oo, From: dest, Strategy: strategies[k]}
	if conc {
		var doc struct {
			JO struct {
				Concurrency struct {
					NoW float64 `json:"no-of-workers"`
				}
			}
		}
		if node := r.FS.Lookup(dest); node != nil {
			_ = json.Unmarshal(node.Data, &doc)
		}
		if doc.JO.Concurrency.NoW < 64 {
			sp.Run = true
			genNoW(r.Scn, &oo)
		}
	}
	if r.Scn.Chance(25) {
		sp.Composite = 1 + r.Scn.Intn(2)
	}
	r.note("options: %v run=%v strategy=%v composite=%d resume file: %s; must be refused as %q", o, sp.Run, []string{"fastward", "spawn"}[k], sp.Composite, what, must)
	r.NonTriv = true
	r.Cover[fmt.Sprintf("%s run=%v refusable=%v", strings.Fields(what)[0], sp.Run, must != "")]++
	before := r.writes()
	s := r.session(sp)
	var left []string
	out = r.sim(func() {
		s.run()
		settle(20e9)
		left = simrt.Active().LiveSystem()
	})
	if f := ended(out, "resume from a damaged file ("+what+")", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return failf("panic-escapes", "resuming from a damaged file (%s) panics: %v [%s]", what, s.Escaped, s.EscStack)
	}
	if sp.Run && !s.Waited {
		return failf("hang", "resuming from a damaged file (%s): the wait group is not released", what)
	}
	if len(left) > 0 {
		return failf("leak", "resuming from a damaged file (%s) leaves behind %v", what, left)
	}
	if s.MetPanic != nil {
		return failf("result", "reading the metrics after resuming from a damaged file (%s) panics: %v", what, s.MetPanic)
	}
	if must == "" {
		return nil
	}
	if s.Err == nil {
		return failf("accepted", "a damaged file (%s) is accepted although %s (%d callbacks)", what, must, len(s.Visits))
	}
	if len(s.Visits) > 0 || s.count("begin") > 0 || s.count("descend") > 0 {
		return failf("visits", "resuming from a damaged file (%s) visits %d nodes although %s", what, len(s.Visits), must)
	}
	if r.writes() != before {
		return failf("writes", "resuming from a damaged file (%s) writes to storage", what)
	}
	return nil
}
