package zznet

import "time"

// Clock is the time as the code under test sees it.
var Clock func() time.Time

// TimeNow stands for time.Now.
func TimeNow() time.Time {
	if Clock != nil {
		return Clock()
	}
	return time.Now()
}

// TimeSince stands for time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil stands for time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Inits are the initialisation functions of a program that is configured by
// the harness before it starts.
var Inits []func()

// Init runs them.
func Init() {
	for _, f := range Inits {
		f()
	}
}
