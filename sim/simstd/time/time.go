// Package time replaces the standard one inside the simulation; the clock is
// the simulator's.
package time

import (
	"simrt"
	gt "time"
)

type (
	Time       = gt.Time
	Duration   = gt.Duration
	Month      = gt.Month
	Weekday    = gt.Weekday
	Location   = gt.Location
	ParseError = gt.ParseError
)

const (
	Nanosecond  = gt.Nanosecond
	Microsecond = gt.Microsecond
	Millisecond = gt.Millisecond
	Second      = gt.Second
	Minute      = gt.Minute
	Hour        = gt.Hour

	Layout      = gt.Layout
	ANSIC       = gt.ANSIC
	UnixDate    = gt.UnixDate
	RubyDate    = gt.RubyDate
	RFC822      = gt.RFC822
	RFC822Z     = gt.RFC822Z
	RFC850      = gt.RFC850
	RFC1123     = gt.RFC1123
	RFC1123Z    = gt.RFC1123Z
	RFC3339     = gt.RFC3339
	RFC3339Nano = gt.RFC3339Nano
	Kitchen     = gt.Kitchen
	Stamp       = gt.Stamp
	StampMilli  = gt.StampMilli
	StampMicro  = gt.StampMicro
	StampNano   = gt.StampNano
	DateTime    = gt.DateTime
	DateOnly    = gt.DateOnly
	TimeOnly    = gt.TimeOnly

	January   = gt.January
	February  = gt.February
	March     = gt.March
	April     = gt.April
	May       = gt.May
	June      = gt.June
	July      = gt.July
	August    = gt.August
	September = gt.September
	October   = gt.October
	November  = gt.November
	December  = gt.December

	Sunday    = gt.Sunday
	Monday    = gt.Monday
	Tuesday   = gt.Tuesday
	Wednesday = gt.Wednesday
	Thursday  = gt.Thursday
	Friday    = gt.Friday
	Saturday  = gt.Saturday
)

var (
	UTC                    = gt.UTC
	Local                  = gt.UTC
	Date                   = gt.Date
	Unix                   = gt.Unix
	UnixMilli              = gt.UnixMilli
	UnixMicro              = gt.UnixMicro
	Parse                  = gt.Parse
	ParseInLocation        = gt.ParseInLocation
	ParseDuration          = gt.ParseDuration
	FixedZone              = gt.FixedZone
	LoadLocation           = gt.LoadLocation
	LoadLocationFromTZData = gt.LoadLocationFromTZData
)

// Base is the wall clock reading at simulated time zero.
const Base = 1735689600 // 2025-01-01T00:00:00Z

func at(ns int64) Time {
	b := int64(Base * 1e9)
	if s := simrt.Active(); s != nil && s.Epoch() != 0 {
		b = s.Epoch() // nanoseconds
	}
	return gt.Unix(b/1e9, b%1e9+ns).UTC()
}

func Now() Time {
	simrt.Yield("now")
	return at(simrt.NowNanos())
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { simrt.Sleep(int64(d)) }

type Timer struct {
	C  <-chan Time
	c  chan Time
	t  *simrt.Timer
	fn func()
}

func (t *Timer) start(d Duration) {
	if t.fn != nil {
		fn := t.fn
		t.t = simrt.AddTimer(int64(d), func() { simrt.SpawnFromTimer("time.AfterFunc", fn) })
		return
	}
	c := t.c
	t.t = simrt.AddTimer(int64(d), func() { simrt.TrySendNow(c, at(simrt.NowNanos())) })
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	simrt.Yield("timer")
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{fn: f}
	simrt.Yield("timer")
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	simrt.Yield("timer")
	active := simrt.StopTimer(t.t)
	if t.c != nil && len(t.c) > 0 {
		simrt.DrainNow(t.c)
		active = true
	}
	return active
}

func (t *Timer) Reset(d Duration) bool {
	active := t.Stop()
	t.start(d)
	return active
}

type Ticker struct {
	C       <-chan Time
	c       chan Time
	t       *simrt.Timer
	d       Duration
	stopped bool
}

func (t *Ticker) arm() {
	t.t = simrt.AddTimer(int64(t.d), func() {
		if t.stopped {
			return
		}
		simrt.TrySendNow(t.c, at(simrt.NowNanos()))
		t.arm()
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	simrt.Yield("ticker")
	t.arm()
	return t
}

func (t *Ticker) Stop() {
	simrt.Yield("ticker")
	t.stopped = true
	simrt.StopTimer(t.t)
	simrt.DrainNow(t.c)
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.stopped = false
	t.d = d
	t.arm()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
