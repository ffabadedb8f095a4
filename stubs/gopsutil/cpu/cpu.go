// Package cpu stands in for the readings of the operating system.
package cpu

import (
	"context"
	"errors"
)

type TimesStat struct {
	CPU       string  `json:"cpu"`
	User      float64 `json:"user"`
	System    float64 `json:"system"`
	Idle      float64 `json:"idle"`
	Nice      float64 `json:"nice"`
	Iowait    float64 `json:"iowait"`
	Irq       float64 `json:"irq"`
	Softirq   float64 `json:"softirq"`
	Steal     float64 `json:"steal"`
	Guest     float64 `json:"guest"`
	GuestNice float64 `json:"guestNice"`
}

// Hook provides the readings.
var Hook func(percpu bool) ([]TimesStat, error)

func Times(percpu bool) ([]TimesStat, error) {
	if Hook == nil {
		return nil, errors.New("no readings")
	}
	return Hook(percpu)
}

func TimesWithContext(_ context.Context, percpu bool) ([]TimesStat, error) { return Times(percpu) }
