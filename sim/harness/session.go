package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path"
	"runtime/debug"
	"strings"
	"syscall"
	stdtime "time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	nef "github.com/snivilised/nefilim"

	"simmain/client"
	"simrt"
	simctx "simstd/context"
	simsync "simstd/sync"
	"simstd/vos"
)

// Act is what a callback does for a node.
type Act struct {
	Kind   string // "" ok, err, skipdir, skipall, panic
	Dur    int64
	Yields int
}

// Cancel says when the context is cancelled.
type Cancel struct {
	Kind string // before, visit, time, deadline
	N    int
	At   int64
}

// FaultSpec is a fault handler.
type FaultSpec struct {
	Swallow bool // handler answers nil
	Other   bool // handler answers a different error
}

// Spec describes one session.
type Spec struct {
	Label    string
	W        *World
	O        *Opts
	Run      bool
	From     string // resume file
	Strategy enums.ResumeStrategy
	At       *MNode // resume point, when resuming
	Before   *Session
	MaxDur   int64
	DurSalt  string
	Acts     map[string]Act
	ActFn    func(v *Visit) (Act, bool)
	Within   func(v *Visit) // what else the callback does
	Cancel   Cancel
	Skip     func(rel string, dir bool, err error) (enums.SkipTraversal, error)
	Fault    *FaultSpec
	NoEvents bool
	Slow     int64 // duration of event handlers
	Forest   func(string) *core.Forest
	Extra    []pref.Option
	// requests that are wrong on purpose
	Mutate    func(u *pref.Using, r *pref.Relic)
	Prep      *pref.Options // options object to reuse
	Capture   *(*pref.Options)
	Composite int // build through a composite instead
	GivenWG   *simsync.WaitGroup
	Given     []pref.Option // instead of those made of O
	Reuse     int           // chance of a Preview
	Preview   int           // reuse the options: 1 of a walk, 2 of a session of the same kind, 3 which were prepared
	Wrong     int           // 1: the other kind of facade, 2: none
}

// Visit is one callback.
type Visit struct {
	Rel      string
	Path     string
	Dir      bool
	Ext      core.Extension
	Entry    fs.DirEntry
	Info     fs.FileInfo
	NodeErr  error
	Children []string
	Parent   *core.Node
	Node     *core.Node
	Start    int // step
	End      int // step, 0 = never
	T0, T1   int64
	G        int
	Ret      error
	Panicked bool
	Before   int  // number of visits started before this one
	Over     bool // the context had ended when it began
}

// Event is anything observed, in order.
type Event struct {
	Kind string
	Rel  string
	V    *Visit
	Step int
	T    int64
	Err  error
	Note string
}

// Output is one item received from the output channel.
type Output struct {
	Rel    string
	Err    error
	JobErr error
	Step   int
	Nil    bool
}

// Sunk is a filter handed to the client.
type Sunk struct {
	pref.FilterReply
	Before int // number of visits started before
}

// Session is the record of one session.
type Session struct {
	runaway       bool
	Spec          *Spec
	Visits        []*Visit
	Events        []Event
	Err           error
	Result        core.TraverseResult
	EndRes        core.TraverseResult
	Escaped       any // panic that came out of Navigate
	EscStack      string
	NavDone       bool
	NavStart      int
	NavEnd        int
	T0, T1        int64
	WG            *simsync.WaitGroup
	Waited        bool
	WaitEnd       int
	Live          int // callbacks in progress
	MaxLive       int
	Cancelled     bool
	CancelStep    int
	CancelVisits  int // visits started at the time of cancellation
	CancelT       int64
	Outs          []Output
	Sinks         []Sunk
	OutOpen       bool // On was called
	OutClosed     bool
	OutClosedStep int
	Discovered    int // selected nodes announced by descend
	MaxAhead      int
	Met           map[enums.Metric]uint
	cancelFn      func()
	MetPanic      any
	EndMet        map[enums.Metric]uint
	ctx           simctx.Context
	custom        error
	ear           *ear
	prepared      *pref.Options
	preview       *Session
	wrap          bool
	linger        int64 // between setting it up and navigating
	addons        []age.Addon
	Loaded        []core.ActiveState // what the add-on was told
}

// addon is told what state a session resumes with.
type addon struct{ s *Session }

func (a *addon) OnLoad(active *core.ActiveState) {
	st := *active
	st.Metrics = core.Metrics{}
	for k, m := range active.Metrics {
		c := *m
		st.Metrics[k] = &c
	}
	a.s.Loaded = append(a.s.Loaded, st)
}

func (s *Session) bring(which int) {
	switch which {
	case 1:
		s.addons = []age.Addon{&addon{s}}
	case 2:
		s.addons = []age.Addon{nil, "an add-on of no consequence", &addon{s}, &addon{s}}
	case 3:
		s.addons = []age.Addon{42, struct{}{}}
	}
}

// ear is the session on whose behalf the client's handlers listen, which
// changes when options are used again for another one.
type ear struct{ s *Session }

type clientErr struct{ rel string }

func (e *clientErr) Error() string { return "client error at " + e.rel }

type clientPanic struct{ rel string }

func (e *clientPanic) Error() string { return "client panic at " + e.rel }

var watched = []enums.Metric{
	enums.MetricNoFilesInvoked, enums.MetricNoFilesFilteredOut,
	enums.MetricNoDirectoriesInvoked, enums.MetricNoDirectoriesFilteredOut,
	enums.MetricNoChildFilesFound, enums.MetricNoChildFilesFilteredOut,
}

func (s *Session) ev(kind, rel string) *Event {
	if len(s.Events) >= tooMany && !s.runaway && simrt.InSim() {
		s.runaway = true
		simrt.Abort("runaway", fmt.Sprintf("%d events so far, the last of them at %q", len(s.Events), clip(s.Events[len(s.Events)-1].Rel, 200)))
	}
	s.Events = append(s.Events, Event{Kind: kind, Rel: rel, Step: simrt.StepNo(), T: simrt.NowNanos()})
	return &s.Events[len(s.Events)-1]
}

// tooMany events in a session mean that it won't come to an end: no tree has
// as much as a tenth of that.
const tooMany = 20000

func (s *Session) act(v *Visit) Act {
	sp := s.Spec
	if sp.ActFn != nil {
		if a, ok := sp.ActFn(v); ok {
			return a
		}
	}
	a := sp.Acts[v.Rel]
	if a.Dur == 0 && sp.MaxDur > 0 {
		a.Dur = int64(hash(sp.DurSalt, v.Rel) % uint64(sp.MaxDur+1))
	}
	return a
}

// handler is the client's callback.
func (s *Session) handler(servant core.Servant) error {
	n := servant.Node()
	if simrt.Race {
		client.Mark(n)
		defer client.Look(n)
	}
	v := &Visit{
		Path: n.Path, Rel: relOf(s.Spec.W.Arg, n.Path), Dir: n.IsDirectory(), Ext: n.Extension, Entry: n.Entry, Info: n.Info,
		NodeErr: n.Error, Parent: n.Parent, Node: n, Start: simrt.StepNo(), T0: simrt.NowNanos(),
	}
	if g := simrt.Current(); g != nil {
		v.G = g.ID
	}
	for _, c := range n.Children {
		v.Children = append(v.Children, c.Name())
	}
	if s.ctx != nil {
		v.Over = s.ctx.Err() != nil
	}
	v.Before = len(s.Visits)
	s.Visits = append(s.Visits, v)
	e := s.ev("cb", v.Rel)
	e.V = v
	s.Live++
	if s.Live > s.MaxLive {
		s.MaxLive = s.Live
	}
	defer func() {
		s.Live--
		v.End = simrt.StepNo()
		v.T1 = simrt.NowNanos()
		s.ev("cbend", v.Rel).V = v
	}()
	if s.Spec.Within != nil {
		s.Spec.Within(v)
	}
	a := s.act(v)
	for i := 0; i < a.Yields; i++ {
		simrt.Gosched()
	}
	if a.Dur > 0 {
		simrt.Sleep(a.Dur)
	}
	if c := s.Spec.Cancel; c.Kind == "visit" && v.Before == c.N {
		s.cancel()
	}
	switch a.Kind {
	case "err":
		v.Ret = &clientErr{v.Rel}
		if s.custom != nil {
			v.Ret = s.custom
		}
	case "skipdir":
		v.Ret = fs.SkipDir
	case "skipall":
		v.Ret = fs.SkipAll
	case "panic":
		v.Panicked = true
		panic(&clientPanic{v.Rel})
	case "panicstr":
		v.Panicked = true
		panic("client panic at " + v.Rel)
	case "panicskip": // an error that is also a directive
		v.Panicked = true
		panic([]error{fs.SkipDir, fs.SkipAll, fmt.Errorf("at %q: %w", v.Rel, fs.SkipDir), simctx.Canceled}[hash("panicskip", v.Rel)%4])
	case "panicnil":
		v.Panicked = true
		panic(nil) //nolint // it is a runtime.PanicNilError
	case "panicobj":
		v.Panicked = true
		panic([]string{"client panic", v.Rel})
	case "panicrt":
		v.Panicked = true
		var m map[string]int
		m[v.Rel] = 1 //nolint // deliberate runtime error
	}
	if s.wrap && (v.Ret == fs.SkipDir || v.Ret == fs.SkipAll) {
		v.Ret = fmt.Errorf("directive: %w", v.Ret)
	}
	return v.Ret
}

func (s *Session) cancel() {
	if s.Cancelled {
		return
	}
	// the cancellation is only in effect once the call has returned
	s.Cancelled = true
	s.CancelStep = math.MaxInt
	s.ev("cancel", "")
	if s.cancelFn != nil {
		s.cancelFn()
	}
	s.CancelStep = simrt.StepNo()
	s.CancelVisits = len(s.Visits)
	s.CancelT = simrt.NowNanos()
}

func (s *Session) selected(n *core.Node) bool {
	switch s.Spec.O.Sub {
	case enums.SubscribeUniversal:
		return true
	case enums.SubscribeFiles:
		return !n.IsDirectory()
	}
	return n.IsDirectory()
}

func (e *ear) eventOptions() []pref.Option {
	node := func(kind string) life.NodeHandler {
		return func(n *core.Node) {
			s := e.s
			if simrt.Race {
				client.Look(n)
			}
			s.ev(kind, relOf(s.Spec.W.Arg, n.Path))
			if s.Spec.Slow > 0 {
				simrt.Sleep(s.Spec.Slow)
			}
			if kind == "descend" && s.selected(n) {
				s.Discovered++
				if a := s.Discovered - len(s.Visits); a > s.MaxAhead {
					s.MaxAhead = a
				}
			}
		}
	}
	hib := func(kind string) life.HibernateHandler {
		return func(d string) { e.s.ev(kind, "").Note = d }
	}
	return []pref.Option{
		pref.WithOnBegin(func(b *life.BeginState) { s := e.s; s.ev("begin", relOf(s.Spec.W.Arg, b.Tree)).Note = b.Tree }),
		pref.WithOnEnd(func(r core.TraverseResult) {
			s := e.s
			s.ev("end", "")
			s.EndRes = r
			s.EndMet = s.countAll(r)
		}),
		pref.WithOnDescend(node("descend")),
		pref.WithOnAscend(node("ascend")),
		pref.WithOnWake(hib("wake")),
		pref.WithOnSleep(hib("sleep")),
	}
}

func (s *Session) countAll(r core.TraverseResult) map[enums.Metric]uint {
	m := map[enums.Metric]uint{}
	if r == nil {
		return m
	}
	defer func() {
		if x := recover(); x != nil {
			s.MetPanic = x
		}
	}()
	if simrt.Race && (s.WG == nil || s.Waited) {
		client.Count(r, watched...)
	}
	rep := r.Metrics()
	if rep == nil {
		return m
	}
	for _, k := range watched {
		m[k] = uint(rep.Count(k))
	}
	return m
}

func (s *Session) options() []pref.Option {
	sp, e := s.Spec, s.ear
	var out [][]pref.Option
	o := *sp.O
	o.sink = func(rep pref.FilterReply) { e.s.Sinks = append(e.s.Sinks, Sunk{rep, len(e.s.Visits)}) }
	if sp.From == "" {
		out = append(each(o.saved(sp.W.Arg)), o.unsaved(sp.W.Arg, false))
	} else {
		out = append(out, o.unsaved(sp.W.Arg, true))
	}
	if !sp.NoEvents {
		out = append(out, e.eventOptions())
	}
	if sp.Skip != nil {
		out = append(out, []pref.Option{pref.WithSkipHandler(pref.Asker(func(n *core.Node, _ core.DirectoryContents, err error) (enums.SkipTraversal, error) {
			s := e.s
			if s.Spec.Skip == nil {
				return enums.SkipNoneTraversal, nil
			}
			rel := relOf(sp.W.Arg, n.Path)
			if err != nil || n.IsDirectory() {
				s.ev("ask", rel).Err = err
			}
			return sp.Skip(rel, n.IsDirectory(), err)
		}))})
	}
	if f := sp.Fault; f != nil {
		out = append(out, []pref.Option{pref.WithFaultHandler(pref.Accepter(func(nf *pref.NavigationFault) error {
			v := e.s.ev("fault", relOf(sp.W.Arg, nf.Path))
			v.Err = nf.Err
			v.Note = nf.Path
			switch f := e.s.Spec.Fault; {
			case f == nil:
			case f.Swallow:
				return nil
			case f.Other:
				return errHandler
			}
			return nf.Err
		}))})
	}
	if o := sp.O.Out; o != nil && sp.Run {
		out = append(out, []pref.Option{pref.WithOutput(&pref.OutputOptions{
			Size: o.Size, CheckCloseInterval: stdtime.Duration(o.Interval), TimeoutOnSend: stdtime.Duration(o.Timeout),
			On: func(ch core.OutputStream) {
				s := e.s
				s.OutOpen = true
				s.ev("outopen", "")
				simrt.GoHarness("consumer", func() { s.consume(ch) })
			},
		})})
	}
	if sp.Capture != nil {
		out = append(out, []pref.Option{func(po *pref.Options) error { *sp.Capture = po; return nil }})
	}
	return append(o.mixed(out), sp.Extra...)
}

var errWrapped = fmt.Errorf("client: %w", fs.ErrPermission)

var errHandler = errors.New("the fault handler's own error")

func (s *Session) consume(ch core.OutputStream) {
	o := s.Spec.O.Out
	for i := 0; ; i++ {
		switch o.Consumer {
		case "never":
			return
		case "stops":
			if i >= o.StopAt {
				return
			}
		case "slow":
			simrt.Sleep(o.Slow)
		case "pause":
			if i == o.StopAt {
				simrt.Sleep(o.Slow)
			}
		}
		j, ok := simrt.Recv2((<-chan jobOutput)(ch))
		if !ok {
			s.OutClosed = true
			s.OutClosedStep = simrt.StepNo()
			s.ev("outclosed", "")
			return
		}
		out := Output{JobErr: j.Error, Step: simrt.StepNo()}
		if j.Payload == nil || j.Payload.Servant == nil {
			out.Nil = true
		} else {
			if simrt.Race {
				client.Look(j.Payload.Servant.Node())
			}
			out.Rel = relOf(s.Spec.W.Arg, j.Payload.Servant.Node().Path)
			out.Err = j.Payload.Error
		}
		s.Outs = append(s.Outs, out)
		s.ev("out", out.Rel)
	}
}

func (sp *Spec) forest() func(string) *core.Forest {
	if sp.Forest != nil {
		return sp.Forest
	}
	if !sp.W.Rel && sp.W.Listing == "" {
		return nil // the default file systems
	}
	return func(string) *core.Forest {
		return &core.Forest{T: sp.W.traversal(), R: tfs.New()}
	}
}

func (w *World) traversal() tfs.TraversalFS {
	if w.Rel {
		return tfs.NewFS(nef.Rel{Root: w.FSRoot})
	}
	return tfs.New()
}

// spelling is how the client specifies the tree.
func (w *World) spelling() string {
	if w.Spelt != "" {
		return w.Spelt
	}
	return w.Arg
}

// wire connects the world to the simulated disk.
func (w *World) mount(f *vos.FS) {
	if w.Linked && f.Lookup(w.Base) == nil {
		f.Put(w.Base, false, nil).MakeLink(f.Put("/vol"+w.Base, true, nil))
	}
	w.Tree.put(f, w.Base)
	if w.Listing != "" {
		next := f.Order
		f.Order = func(dir string, ents []fs.DirEntry) {
			rel := relOf(w.Base, dir)
			if strings.HasPrefix(rel, "!") {
				if next != nil {
					next(dir, ents)
				}
				return
			}
			for i := 1; i < len(ents); i++ { // insertion sort, small lists
				for j := i; j > 0 && w.listed(rel, ents[j].Name(), ents[j-1].Name()); j-- {
					ents[j], ents[j-1] = ents[j-1], ents[j]
				}
			}
		}
	}
}

// verdict answers for operations on the world's own nodes.
func (w *World) verdict(op, name string) (vos.Verdict, bool) {
	rel := relOf(w.Base, name)
	if strings.HasPrefix(rel, "!") {
		return vos.Verdict{}, false
	}
	switch op {
	case "readdir":
		if n, ok := w.ReadFail[rel]; ok {
			return vos.Verdict{Err: kindOf(errRead, rel), Short: n}, true
		}
	case "info":
		if w.InfoFail[rel] {
			return vos.Verdict{Err: kindOf(errInfo, rel)}, true
		}
	}
	return vos.Verdict{}, true
}

// kinds are what failures may look like to those who care.
var kinds = []error{nil, fs.ErrPermission, fs.ErrNotExist, syscall.EIO, io.EOF, io.ErrUnexpectedEOF, fs.ErrClosed, os.ErrDeadlineExceeded,
	syscall.EINTR, syscall.ENAMETOOLONG, fs.ErrInvalid, simctx.Canceled, errors.ErrUnsupported}

type kindErr struct{ err, kind error }

func (e *kindErr) Error() string   { return e.err.Error() + ": " + e.kind.Error() }
func (e *kindErr) Unwrap() []error { return []error{e.err, e.kind} }

func kindOf(err error, where string) error {
	if k := kinds[hash("kind", where)%uint64(len(kinds))]; k != nil {
		return &kindErr{err, k}
	}
	return err
}

var (
	errRead = errors.New("injected: cannot list")
	errInfo = errors.New("injected: no details")
)

// newSession prepares a record; start runs it on the calling goroutine.
func newSession(sp *Spec) *Session {
	s := &Session{Spec: sp}
	s.ear = &ear{s}
	if sp.Run {
		s.WG = sp.GivenWG
		if s.WG == nil {
			s.WG = &simsync.WaitGroup{}
		}
	}
	return s
}

func (s *Session) build() age.Navigator {
	sp := s.Spec
	head := pref.Head{Handler: s.handler}
	if f := sp.forest(); f != nil {
		head.GetForest = f
	}
	var fac pref.Facade
	prime := sp.From == ""
	u := &pref.Using{Head: head, Subscription: sp.O.Sub, Tree: sp.W.spelling(), O: sp.Prep}
	if s.prepared != nil {
		u.O = s.prepared
	}
	r := &pref.Relic{Head: head, From: sp.From, Strategy: sp.Strategy}
	if sp.Mutate != nil {
		sp.Mutate(u, r)
	}
	if prime != (sp.Wrong == 1) {
		fac = u
	} else {
		fac = r
	}
	if sp.Wrong == 2 {
		fac = nil
	}
	var set []pref.Option
	if s.prepared == nil {
		set = s.options()
	}
	if sp.Given != nil {
		set = sp.Given
	}
	if sp.Composite > 0 {
		switch {
		case sp.Composite == 1:
			return age.Hydra(!sp.Run, prime, s.WG)(fac, set...)
		case sp.Composite == 2 && sp.Run:
			return age.Hare(prime, s.WG)(fac, set...)
		case sp.Composite == 2:
			return age.Tortoise(prime)(fac, set...)
		case sp.Composite == 3 && prime:
			return age.Goldfish(!sp.Run, s.WG)(fac, set...)
		}
	}
	var nf age.NavigatorFactory
	if sp.Run {
		nf = age.Run(s.WG)
	} else {
		nf = age.Walk()
	}
	if prime {
		return nf.Configure(s.addons...).Extent(age.Prime(fac, set...))
	}
	return nf.Configure(s.addons...).Extent(age.Resume(fac, set...))
}

// run performs the session on the calling simulated goroutine: it returns when
// navigation has returned and, for a concurrent one, its wait group was
// released.
func (s *Session) run() {
	sp := s.Spec
	s.prepare()
	ctx := simctx.Background()
	var cancel simctx.CancelFunc
	switch sp.Cancel.Kind {
	case "":
	case "deadline":
		ctx, cancel = simctx.WithTimeout(ctx, stdtime.Duration(sp.Cancel.At))
		defer cancel()
	default:
		ctx, cancel = simctx.WithCancel(ctx)
		s.cancelFn = cancel
		defer func() { s.cancelFn = nil }()
		switch sp.Cancel.Kind {
		case "before":
			s.cancel()
		case "time":
			simrt.GoHarness("canceller", func() {
				simrt.Sleep(sp.Cancel.At)
				s.cancel()
			})
		}
	}
	if sp.Cancel.Kind != "" {
		s.ctx = ctx
	}
	s.NavStart = simrt.StepNo()
	s.T0 = simrt.NowNanos()
	s.navigate(ctx)
	s.NavEnd = simrt.StepNo()
	s.T1 = simrt.NowNanos()
	s.ev("navdone", "").Err = s.Err
	s.NavDone = true
	if sp.Cancel.Kind == "deadline" && ctx.Err() != nil && !s.Cancelled {
		s.Cancelled = true
	}
	if s.WG != nil && sp.GivenWG == nil {
		s.wait()
	}
}

// prepare obtains the options which the session is to use verbatim.
func (s *Session) prepare() {
	sp := s.Spec
	switch {
	case sp.Preview == 0 || sp.From != "":
	case sp.Preview == 3:
		o := pref.DefaultOptions()
		for _, f := range s.options() {
			if f != nil {
				s.Err = errors.Join(s.Err, f(o))
			}
		}
		s.prepared = o
	default:
		q := *sp
		q.Preview, q.Composite, q.Acts, q.ActFn, q.Within, q.Cancel, q.Skip, q.Fault = 0, 0, nil, nil, nil, Cancel{}, nil, nil
		q.Run = sp.Run && sp.Preview == 2
		q.GivenWG, q.MaxDur, q.Slow = nil, 0, 0
		p := newSession(&q)
		// the preview's own set, made for the session to come
		var got *pref.Options
		s.ear.s = p
		q.Given = append(s.options(), func(o *pref.Options) error { got = o; return nil })
		p.run()
		s.ear.s = s
		s.prepared = got
		s.preview = p
	}
}

func (s *Session) wait() {
	s.WG.Wait()
	s.Waited = true
	if s.Spec.Cancel.Kind == "deadline" && s.ctx.Err() != nil {
		s.Cancelled = true
	}
	s.WaitEnd = simrt.StepNo()
	s.ev("waited", "")
	s.Met = s.countAll(s.Result)
}

func (s *Session) navigate(ctx simctx.Context) {
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				s.Escaped = r
				s.EscStack = trimStack(debug.Stack())
				s.Met = map[enums.Metric]uint{}
			}
		}
	}()
	nav := s.build()
	if s.linger > 0 {
		// clients may set up a traversal ahead of time
		simrt.Sleep(s.linger)
		s.NavStart = simrt.StepNo()
		s.T0 = simrt.NowNanos()
	}
	s.Result, s.Err = nav.Navigate(ctx)
	normal = true
	s.Met = s.countAll(s.Result)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "agenor") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			f := l[:strings.LastIndex(l, "(")]
			loc := ""
			if i+1 < len(lines) {
				loc = strings.TrimSpace(lines[i+1])
				if j := strings.Index(loc, " +"); j > 0 {
					loc = loc[:j]
				}
			}
			out = append(out, path.Base(f)+" "+path.Base(loc))
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (s *Session) order() []string {
	out := make([]string, len(s.Visits))
	for i, v := range s.Visits {
		out[i] = v.Rel
	}
	return out
}

func (s *Session) count(kind string) int {
	n := 0
	for i := range s.Events {
		if s.Events[i].Kind == kind {
			n++
		}
	}
	return n
}

func (s *Session) find(kind string) *Event {
	for i := range s.Events {
		if s.Events[i].Kind == kind {
			return &s.Events[i]
		}
	}
	return nil
}

// log is the session's history for a report.
func (s *Session) log(max int) []string {
	var out []string
	for i := range s.Events {
		e := &s.Events[i]
		l := fmt.Sprintf("step %d t=%s %s", e.Step, dur(e.T), e.Kind)
		if e.Kind == "cb" || e.Kind == "cbend" || e.Kind == "descend" || e.Kind == "ascend" || e.Kind == "ask" || e.Kind == "fault" || e.Kind == "out" || e.Kind == "begin" {
			l += fmt.Sprintf(" %q", e.Rel)
		}
		if e.V != nil {
			l += fmt.Sprintf(" g%d", e.V.G)
			if e.Kind == "cbend" {
				if e.V.Panicked {
					l += " panics"
				} else if e.V.Ret != nil {
					l += " returns " + e.V.Ret.Error()
				}
			}
		}
		if e.Err != nil {
			l += " err=" + e.Err.Error()
		}
		if e.Note != "" {
			l += " (" + e.Note + ")"
		}
		out = append(out, l)
	}
	if len(out) > max {
		out = append(out[:max:max], fmt.Sprintf("... %d more", len(out)-max))
	}
	return out
}

func dur(n int64) string { return stdtime.Duration(n).String() }
