// Package cpu is a stand-in: the harness says what there is to measure.
package cpu

import (
	"context"
	"time"
)

type TimesStat struct {
	CPU       string  `json:"cpu"`
	User      float64 `json:"user"`
	System    float64 `json:"system"`
	Idle      float64 `json:"idle"`
	Nice      float64 `json:"nice"`
	Iowait    float64 `json:"iowait"`
	Irq       float64 `json:"irq"`
	Softirq   float64 `json:"softirq"`
	Steal     float64 `json:"steal"`
	Guest     float64 `json:"guest"`
	GuestNice float64 `json:"guestNice"`
}

var ClocksPerSec = float64(100)

// SimTimes and SimPercent answer in place of the system.
var (
	SimTimes   func(percpu bool) ([]TimesStat, error)
	SimPercent func(percpu bool) ([]float64, error)
)

func (c TimesStat) Total() float64 {
	return c.User + c.System + c.Nice + c.Iowait + c.Irq + c.Softirq + c.Steal + c.Idle
}

func Counts(bool) (int, error)                             { return 4, nil }
func CountsWithContext(context.Context, bool) (int, error) { return 4, nil }

func Times(percpu bool) ([]TimesStat, error) {
	if SimTimes == nil {
		return []TimesStat{{CPU: "cpu-total"}}, nil
	}
	return SimTimes(percpu)
}

func TimesWithContext(_ context.Context, percpu bool) ([]TimesStat, error) { return Times(percpu) }

func Percent(interval time.Duration, percpu bool) ([]float64, error) {
	if interval > 0 {
		time.Sleep(interval)
	}
	if SimPercent == nil {
		return []float64{0}, nil
	}
	return SimPercent(percpu)
}

func PercentWithContext(_ context.Context, interval time.Duration, percpu bool) ([]float64, error) {
	return Percent(interval, percpu)
}
