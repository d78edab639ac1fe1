// Package simtime stands in for package time inside the instrumented library: the clock is the
// simulator's, timers are tasks of the simulation, and nothing waits for real time.
package simtime

import (
	"time"
	"verifsim/simrt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January, February, March, April, May, June                     = time.January, time.February, time.March, time.April, time.May, time.June
	July, August, September, October, November, December           = time.July, time.August, time.September, time.October, time.November, time.December
	Sunday, Monday, Tuesday, Wednesday, Thursday, Friday, Saturday = time.Sunday, time.Monday, time.Tuesday, time.Wednesday, time.Thursday, time.Friday, time.Saturday

	Layout, ANSIC, UnixDate, RubyDate          = time.Layout, time.ANSIC, time.UnixDate, time.RubyDate
	RFC822, RFC822Z, RFC850, RFC1123, RFC1123Z = time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z
	RFC3339, RFC3339Nano, Kitchen              = time.RFC3339, time.RFC3339Nano, time.Kitchen
	Stamp, StampMilli, StampMicro, StampNano   = time.Stamp, time.StampMilli, time.StampMicro, time.StampNano
	DateTime, DateOnly, TimeOnly               = time.DateTime, time.DateOnly, time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.UTC // one time zone, whatever the machine's
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Unix(s, ns int64) Time                       { return time.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time                     { return time.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time                     { return time.UnixMicro(us).UTC() }
func Parse(layout, value string) (Time, error)    { return time.Parse(layout, value) }
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func FixedZone(name string, off int) *Location    { return time.FixedZone(name, off) }
func ParseInLocation(layout, value string, l *Location) (Time, error) {
	return time.ParseInLocation(layout, value, l)
}
func LoadLocationFromTZData(name string, data []byte) (*Location, error) {
	return time.LoadLocationFromTZData(name, data)
}

var base = time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC)

// Now is the simulated wall clock; every statement executed takes 100 ns of it.
func Now() Time {
	simrt.Point()
	return base.Add(Duration(simrt.Clock()))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if d <= 0 {
		simrt.Point()
		return
	}
	simrt.Sleep(int64(d))
}

// Timer as in package time.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	a *simrt.Alarm
}

func (t *Timer) start(d Duration) {
	t.a = simrt.SetAlarm(int64(d), func() {
		if t.f != nil {
			simrt.Spawn(t.f)
		} else {
			simrt.Offer(t.c, base.Add(Duration(simrt.Clock())))
		}
	})
}

func (t *Timer) Stop() bool {
	was := t.a.Cancel()
	if t.c != nil {
		simrt.Select(true, simrt.CaseRecv[Time](t.c))
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	c := simrt.MakeChan(make(chan Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker as in package time.
type Ticker struct {
	C <-chan Time
	c chan Time
	a *simrt.Alarm
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t.a = simrt.SetAlarm(int64(d), func() {
		simrt.Offer(t.c, base.Add(Duration(simrt.Clock())))
		t.start(d)
	})
}

func (t *Ticker) Stop()            { t.a.Cancel() }
func (t *Ticker) Reset(d Duration) { t.Stop(); t.start(d) }

func NewTicker(d Duration) *Ticker {
	c := simrt.MakeChan(make(chan Time, 1))
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
