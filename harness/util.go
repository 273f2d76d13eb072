package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"
)

// Script is one run against the real code.
type Script struct {
	ID     string          `json:"id"`
	Driver string          `json:"driver"`
	P      map[string]any  `json:"p"`
	Rules  []*Rule         `json:"rules"`
	Raw    json.RawMessage `json:"-"`
}

func harnessFail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+f+"\n", a...)
	os.Exit(3)
}

func (s *Script) num(k string, def int) int {
	if v, ok := s.P[k]; ok && v != nil {
		return int(toI64(v))
	}
	return def
}
func (s *Script) str(k, def string) string {
	if v, ok := s.P[k].(string); ok {
		return v
	}
	return def
}
func (s *Script) flag(k string) bool {
	v, _ := s.P[k].(bool)
	return v
}
func (s *Script) list(k string) []any {
	v, _ := s.P[k].([]any)
	return v
}

// waitFor polls until f holds or the time is over.
func waitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// bounded runs f and reports whether it came back in time.
func bounded(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() {
		f()
		close(ch)
	}()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

// hung records that a call did not come back and ends the run.
func hung(m M) {
	m["ev"] = "Hang"
	rec.Ev(m)
	rec.Seal()
	if os.Getenv("VH_STACKS") != "" {
		panic("stacks")
	}
	os.Exit(0)
}
