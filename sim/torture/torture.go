// Package torture uses the language.
package torture

import (
	"cmp"
	"context"
	"errors"
	"fmt"
	"iter"
	"maps"
	mr "math/rand"
	"math/rand/v2"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type num interface{ ~int | ~float64 }

type box[T any] struct {
	ch chan T
	mu sync.RWMutex
	v  []T
}

func newBox[T any](n int) *box[T] { return &box[T]{ch: make(chan T, n)} }

func (b *box[T]) put(v T) { b.ch <- v }
func (b *box[T]) get() (v T, ok bool) {
	v, ok = <-b.ch
	return
}
func (b *box[T]) all() iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		b.mu.RLock()
		defer b.mu.RUnlock()
		for i, v := range b.v {
			if !yield(i, v) {
				return
			}
		}
	}
}

func sum[T num](in <-chan T) (out T) {
	for v := range in {
		out += v
	}
	return
}

func gen(ctx context.Context, n int) <-chan int {
	out := make(chan int)
	go func() {
		defer close(out)
		for i := range n {
			select {
			case out <- i:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out
}

func merge[T any](cs ...<-chan T) <-chan T {
	out := make(chan T)
	var wg sync.WaitGroup
	wg.Add(len(cs))
	for _, c := range cs {
		go func() {
			defer wg.Done()
			for v := range c {
				out <- v
			}
		}()
	}
	go func() { wg.Wait(); close(out) }()
	return out
}

type req struct {
	n   int
	ret chan<- int
}

type sem chan struct{}

func (s sem) acquire() { s <- struct{}{} }
func (s sem) release() { <-s }

type set map[string]struct{}

type state struct {
	sync.Mutex
	m map[string][]int
}

type embed struct {
	*sync.Cond
	sync.Once
	ready bool
}

type key struct{}

var table = map[string]func(int) int{
	"a": func(i int) int { return i + 1 },
	"b": func(i int) int { return i * 2 },
}

var lazy = sync.OnceValue(func() int { return 7 })

func Run() string {
	var out []string
	add := func(a ...any) { out = append(out, strings.TrimSpace(fmt.Sprintln(a...))) }
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, 5))
	add(sum(gen(ctx, 10)), ctx.Value(key{}))
	add(sum(merge(gen(ctx, 5), gen(ctx, 6), gen(ctx, 7))))
	b := newBox[string](2)
	b.put("x")
	b.put("y")
	close(b.ch)
	for v, ok := b.get(); ok; v, ok = b.get() {
		b.v = append(b.v, v)
	}
	for i, v := range b.all() {
		if i > 0 {
			break
		}
		add(i, v, len(b.ch), cap(b.ch))
	}
	// channel of requests with answers
	reqs := make(chan req)
	go func() {
		for r := range reqs {
			r.ret <- r.n * r.n
		}
	}()
	ret := make(chan int, 1)
	reqs <- req{4, ret}
	add(<-ret)
	close(reqs)
	// semaphore, atomics
	s := make(sem, 3)
	var n atomic.Int64
	var m int32
	var wg sync.WaitGroup
	for range 20 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.acquire()
			defer s.release()
			n.Add(2)
			atomic.AddInt32(&m, 1)
		}()
	}
	wg.Wait()
	add(n.Load(), m, len(s))
	// labelled loops with select
	tick := make(chan int)
	quit := make(chan struct{})
	go func() {
		for i := 0; i < 3; i++ {
			tick <- i
		}
		close(quit)
	}()
	total := 0
loop:
	for {
		select {
		case v, ok := <-tick:
			if !ok {
				continue loop
			}
			switch {
			case v == 1:
				continue loop
			}
			total += v
		case <-quit:
			break loop
		case <-time.After(time.Hour):
			add("late")
		}
	}
	add(total)
	// select with an assignment to things already declared, and a default
	arr := [3]int{}
	buf := make(chan int, 3)
	buf <- 8
	var ok bool
	select {
	case arr[1], ok = <-buf:
	default:
	}
	select {
	case arr[2] = <-buf:
	default:
		add("empty")
	}
	add(arr, ok)
	var none chan int
	select {
	case <-none:
	case none <- 1:
	default:
		add("nil")
	}
	// conditions, once
	e := &embed{Cond: sync.NewCond(&sync.Mutex{})}
	go func() {
		e.L.Lock()
		e.ready = true
		e.L.Unlock()
		e.Broadcast()
	}()
	e.L.Lock()
	for !e.ready {
		e.Wait()
	}
	e.L.Unlock()
	e.Do(func() { add("once") })
	e.Do(func() { add("twice") })
	add(lazy(), lazy())
	// maps
	st := state{m: map[string][]int{}}
	for i, k := range []string{"p", "q", "p"} {
		st.Lock()
		st.m[k] = append(st.m[k], i)
		st.Unlock()
	}
	keys := slices.Sorted(maps.Keys(st.m))
	add(keys, len(st.m))
	names := set{}
	for k := range st.m {
		names[k] = struct{}{}
		delete(st.m, k)
	}
	add(len(names), len(st.m))
	var fs []string
	for k, f := range table {
		fs = append(fs, fmt.Sprint(k, f(10)))
	}
	sort.Strings(fs)
	add(fs)
	for k := range maps.Keys(table) {
		_ = k
	}
	clear(names)
	add(len(names), min(3, 1, 2), max(1, 5))
	c2 := maps.Clone(table)
	maps.DeleteFunc(c2, func(k string, _ func(int) int) bool { return k == "a" })
	add(len(c2))
	var sm sync.Map
	sm.Store("k", 1)
	v, loaded := sm.LoadOrStore("k", 2)
	add(v, loaded)
	sm.Range(func(k, v any) bool { add(k, v); return true })
	pool := sync.Pool{New: func() any { return new(int) }}
	p := pool.Get().(*int)
	*p = 3
	pool.Put(p)
	// errors, causes, timers
	c3, stop := context.WithCancelCause(ctx)
	stop(errors.New("why"))
	<-c3.Done()
	add(c3.Err(), context.Cause(c3))
	fired := make(chan bool)
	t := time.AfterFunc(time.Millisecond, func() { fired <- true })
	add(<-fired, t.Stop())
	tk := time.NewTicker(time.Millisecond)
	<-tk.C
	tk.Stop()
	c4, c := context.WithTimeout(ctx, time.Millisecond)
	defer c()
	<-c4.Done()
	add(errors.Is(c4.Err(), context.DeadlineExceeded))
	undo := context.AfterFunc(ctx, func() { close(fired) })
	cancel()
	<-fired
	add(undo())
	// panics, recover, goexit, defer order
	func() {
		defer func() { add("recovered", recover()) }()
		defer func() {
			defer func() { add("inner", recover()) }()
			panic("second")
		}()
		panic("first")
	}()
	func() {
		defer func() { add(recover()) }()
		var ch chan int = make(chan int)
		close(ch)
		close(ch)
	}()
	func() {
		defer func() { add(recover()) }()
		ch := make(chan<- int, 1)
		close(ch)
		ch <- 1
	}()
	// method values, generic function values, closures started as goroutines
	done := make(chan struct{})
	f := newBox[int](1).put
	go f(1)
	go func(f func(...any), a ...any) { f(a...); close(done) }(func(a ...any) { add(a...) }, 1, "z")
	<-done
	pull, end := iter.Pull(slices.Values([]int{4, 5}))
	x, _ := pull()
	y, _ := pull()
	_, more := pull()
	end()
	add(x, y, more)
	// arrays, maps and structures of channels, comparison, type switches, any
	var chans [2]chan int
	for i := range chans {
		chans[i] = make(chan int, 1)
		chans[i] <- i
	}
	add(<-chans[0]+<-chans[1], chans[0] == chans[1])
	byName := map[string]chan error{"e": make(chan error, 1)}
	byName["e"] <- nil
	add(<-byName["e"])
	var any1 any = chans[0]
	switch ch := any1.(type) {
	case <-chan int:
		add("receive")
	case chan int:
		ch <- 9
		add("both", <-ch)
	}
	if ch, ok := any1.(chan int); ok {
		add(cap(ch))
	}
	cc := make(chan chan int, 1)
	cc <- chans[1]
	go func() { (<-cc) <- 6 }()
	add(<-chans[1])
	ff := func(ctx context.Context) <-chan struct{} { return ctx.Done() }
	<-ff(ctx)
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, os.Interrupt)
	signal.Stop(sigs)
	gen2 := func(n int) iter.Seq[int] {
		return func(yield func(int) bool) {
			for i := range n {
				if !yield(i) {
					return
				}
			}
		}
	}
	odd := 0
outer:
	for i := range gen2(10) {
		for j := range gen2(i) {
			if j > 3 {
				continue outer
			}
			if i > 7 {
				break outer
			}
			odd += j
		}
	}
	add(odd)
	add(slices.SortedFunc(gen2(3), func(a, b int) int { return cmp.Compare(b, a) }))
	if abs, err := filepath.Abs("/q/../r"); err == nil {
		add(abs)
	}
	rw := &sync.RWMutex{}
	l := rw.RLocker()
	l.Lock()
	add(rw.TryLock(), rw.TryRLock())
	rw.RUnlock()
	l.Unlock()
	var ptr atomic.Pointer[state]
	ptr.CompareAndSwap(nil, &st)
	add(ptr.Load() == &st)
	var av atomic.Value
	av.Store("v")
	add(av.Load())
	goto last
last:
	until := time.Now().Add(time.Millisecond)
	for time.Until(until) > 0 {
		time.Sleep(time.Millisecond)
	}
	var once sync.Once
	for range 3 {
		once.Do(func() { add("o") })
	}
	errs := make(chan error, 2)
	go func() { defer close(errs); errs <- errors.Join(os.ErrNotExist, nil) }()
	for err := range errs {
		add(errors.Is(err, os.ErrNotExist))
	}
	cl := make(chan int)
	go close(cl)
	<-cl
	lab := make(chan int, 4)
	for i := range 4 {
		lab <- i
	}
	close(lab)
	cnt := 0
lab1:
	for v := range lab {
		for {
			if v == 1 {
				continue lab1
			}
			if v == 3 {
				break lab1
			}
			cnt += v
			break
		}
	}
lab2:
	for k, v := range map[string]int{"a": 1, "b": 2} {
		switch k {
		case "a":
			continue lab2
		}
		cnt += v
		for {
			break lab2
		}
	}
	var kk string
	for kk = range map[string]int{"z": 1} {
	}
	for range lab {
	}
	var vv int
	var okk bool
	vv, okk = <-lab
	add(cnt, kk, vv, okk)
	if v, ok := <-lab; !ok {
		add(v)
	}
	switch v, ok := <-lab; {
	case ok:
	default:
		add("sw", v)
	}
	var _, okv = <-lab
	add(okv)
	fx := func(v int, ok bool) string { return fmt.Sprint(v, ok) }
	_ = fx
	func() {
		lk := struct {
			sync.Mutex
			n int
		}{}
		lk.Lock()
		defer lk.Unlock()
		lk.n++
		add(lk.n)
	}()
	tm := time.NewTimer(time.Hour)
	if !tm.Stop() {
		<-tm.C
	}
	tm.Reset(time.Microsecond)
	<-tm.C
	ret2 := func() (c chan int, err error) {
		defer func() {
			if err == nil {
				close(c)
			}
		}()
		return make(chan int), nil
	}
	rc, _ := ret2()
	<-rc
	type pair struct {
		a, b chan struct{}
	}
	pp := &pair{make(chan struct{}), make(chan struct{})}
	go func() { defer close(pp.b); <-pp.a }()
	close(pp.a)
	<-pp.b
	for i, c := range []chan struct{}{pp.a, pp.b} {
		select {
		case _, ok := <-c:
			add(i, ok)
		}
	}
	var selOnce sync.Once
	res := make(chan string)
	for _, name := range []string{"a", "b", "c"} {
		go func(name string) {
			selOnce.Do(func() { res <- "first" })
		}(name)
	}
	add(<-res)
	add(rand.IntN(1), rand.N(time.Duration(1)), rand.New(rand.NewPCG(1, 2)).IntN(100), mr.Intn(1), mr.New(mr.NewSource(1)).Intn(100))
	out = append(out, further()...)
	return strings.Join(out, "|")
}

type vfunc func(chan<- string)

func (f vfunc) visit(c chan<- string) { f(c) }

func further() (out []string) {
	add := func(v ...any) { out = append(out, fmt.Sprint(v...)) }
	var wg2 sync.WaitGroup
	var cnt atomic.Int64
	for i := range 3 {
		wg2.Go(func() {
			defer cnt.Add(1)
			runtime.Gosched()
			if i == 1 {
				runtime.Goexit()
			}
			cnt.Add(10)
		})
	}
	wg2.Wait()
	add(cnt.Load())
	once := sync.OnceFunc(func() { cnt.Add(100) })
	both := sync.OnceValues(func() (int, error) { cnt.Add(1000); return 7, errors.New("seven") })
	for range 3 {
		wg2.Go(once)
		wg2.Go(func() { _, _ = both() })
	}
	wg2.Wait()
	v7, e7 := both()
	add(cnt.Load(), v7, e7)
	cctx, ccancel := context.WithCancelCause(context.WithValue(context.Background(), key{}, 5))
	wctx := context.WithoutCancel(cctx)
	dctx, dcancel := context.WithTimeoutCause(cctx, time.Hour, errors.New("late"))
	ccancel(errors.New("because"))
	<-dctx.Done()
	add(wctx.Err(), wctx.Value(key{}), dctx.Err(), context.Cause(dctx), context.Cause(wctx))
	dcancel()
	tctx, tcancel := context.WithTimeoutCause(wctx, time.Millisecond, errors.New("too late"))
	<-tctx.Done()
	add(tctx.Err(), context.Cause(tctx), errors.Is(tctx.Err(), os.ErrDeadlineExceeded))
	tcancel()
	tick := time.Tick(time.Millisecond)
	<-tick
	<-tick
	var sm sync.Map
	sm.Store("a", 1)
	old, had := sm.Swap("a", 2)
	add(old, had, sm.CompareAndSwap("a", 2, 3), sm.CompareAndDelete("a", 2))
	sm.Range(func(k, v any) bool { add(k, v); return true })
	sm.Clear()
	_, had = sm.Load("a")
	add(had)
	results := make([]chan int, 3)
	for i := range results {
		results[i] = make(chan int, 1)
		go func() { results[i] <- i * i }()
	}
	for _, c := range results {
		add(<-c)
	}
	sem := make(chan struct{}, 2)
	var most, now atomic.Int32
	for range 5 {
		wg2.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg2.Done() }()
			n := now.Add(1)
			for {
				m := most.Load()
				if n <= m || most.CompareAndSwap(m, n) {
					break
				}
			}
			runtime.Gosched()
			now.Add(-1)
		}()
	}
	wg2.Wait()
	add(most.Load() <= 2, len(sem), cap(sem))
	func() {
		defer func() { add(recover() != nil) }()
		var nc chan int
		close(nc)
	}()
	func() {
		defer func() { add(recover()) }()
		defer func() { panic(fmt.Sprint("again ", recover())) }()
		panic("once")
	}()
	var mu2 sync.Mutex
	cond := sync.NewCond(&mu2)
	ready := 0
	for range 3 {
		wg2.Go(func() {
			mu2.Lock()
			defer mu2.Unlock()
			for ready == 0 {
				cond.Wait()
			}
			ready++
		})
	}
	mu2.Lock()
	ready = 1
	mu2.Unlock()
	cond.Broadcast()
	wg2.Wait()
	add(ready)
	var ptr atomic.Pointer[box[int]]
	add(ptr.CompareAndSwap(nil, newBox[int](1)), ptr.Load() != nil, ptr.Swap(nil) != nil)
	type visitor interface{ visit(chan<- string) }
	vs := []visitor{vfunc(func(c chan<- string) { c <- "v1" }), vfunc(func(c chan<- string) { c <- "v2" })}
	vc := make(chan string)
	go func() {
		for _, v := range vs {
			v.visit(vc)
		}
		close(vc)
	}()
	add(slices.Sorted(func(yield func(string) bool) {
		for x := range vc {
			if !yield(x) {
				return
			}
		}
	}))
	add(reflect.ValueOf(map[string]int{"q": 1}).MapIndex(reflect.ValueOf("q")).Int())
	return out
}
