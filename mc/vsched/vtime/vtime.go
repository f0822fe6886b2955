// Package vtime mirrors the parts of package time a library uses, with the
// clock, sleeping and timers under vsched.
package vtime

import (
	"time"

	"verif/mc/vsched"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
)

var (
	UTC             = time.UTC
	Local           = time.Local
	Date            = time.Date
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	LoadLocation    = time.LoadLocation
	FixedZone       = time.FixedZone
)

func Now() Time {
	if n, ok := vsched.NowNano(); ok {
		return time.Unix(0, n)
	}
	return time.Now()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { vsched.Sleep(d) }

type Timer struct {
	C <-chan Time
	v *vsched.VTimer
}

func NewTimer(d Duration) *Timer {
	v, c := vsched.NewVTimer(d, nil, false)
	return &Timer{C: c, v: v}
}

func AfterFunc(d Duration, f func()) *Timer {
	v, _ := vsched.NewVTimer(d, f, false)
	return &Timer{v: v}
}

func (t *Timer) Stop() bool            { return t.v.Stop() }
func (t *Timer) Reset(d Duration) bool { return t.v.Reset(d) }

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan Time
	v *vsched.VTimer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	v, c := vsched.NewVTimer(d, nil, true)
	return &Ticker{C: c, v: v}
}
func (t *Ticker) Stop()            { t.v.Stop() }
func (t *Ticker) Reset(d Duration) { t.v.Reset(d) }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
