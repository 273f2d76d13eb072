package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// Recorder writes one event per line, unbuffered, under one lock: the order of
// the lines is the order of the events.
type Recorder struct {
	mu  sync.Mutex
	f   *os.File
	off bool
	n   int
}

var rec *Recorder

func norm(x any) any {
	switch v := x.(type) {
	case nil:
		return nullMark
	case bool:
		return v
	case string:
		return asciiOnly(v)
	case int:
		return normInt(int64(v))
	case int8:
		return int64(v)
	case int16:
		return int64(v)
	case uint16:
		return int64(v)
	case int32:
		return normInt(int64(v))
	case uint32:
		return normInt(int64(v))
	case int64:
		return normInt(v)
	case uint8:
		return int64(v)
	case float64:
		return normInt(int64(v))
	case []byte:
		return bstr(v)
	case M:
		r := M{}
		for k, e := range v {
			r[k] = norm(e)
		}
		return r
	case []any:
		r := make([]any, len(v))
		for i := range v {
			r[i] = norm(v[i])
		}
		return r
	case []M:
		r := make([]any, len(v))
		for i := range v {
			r[i] = norm(v[i])
		}
		return r
	case []string:
		r := make([]any, len(v))
		for i := range v {
			r[i] = norm(v[i])
		}
		return r
	case []int32:
		r := make([]any, len(v))
		for i := range v {
			r[i] = norm(v[i])
		}
		return r
	case []int64:
		r := make([]any, len(v))
		for i := range v {
			r[i] = norm(v[i])
		}
		return r
	case []int:
		r := make([]any, len(v))
		for i := range v {
			r[i] = norm(v[i])
		}
		return r
	}
	panic(fmt.Sprintf("norm %T", x))
}

// TLC's integers are 32 bits wide: anything bigger travels as a string.
func normInt(v int64) any {
	if v > math.MaxInt32 || v < -math.MaxInt32 {
		return fmt.Sprintf("i:%d", v)
	}
	return v
}

func asciiOnly(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c > 0x7e {
			return "x:" + fmt.Sprintf("%x", s)
		}
	}
	if len(s) > 200 {
		return bstr([]byte(s))
	}
	return s
}

func (r *Recorder) Ev(m M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evLocked(m)
}

func (r *Recorder) evLocked(m M) {
	if r.off || r.n >= 40000 { // what comes before says enough
		return
	}
	r.n++
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(norm(m)); err != nil {
		panic(err)
	}
	r.f.Write(b.Bytes())
}

// Seal stops recording; later events are dropped.
func (r *Recorder) Seal() {
	r.mu.Lock()
	if !r.off {
		fmt.Fprintf(os.Stderr, "LAG %d\n", lagMax.Load())
	}
	r.off = true
	r.mu.Unlock()
}

// lagMax is the longest time, in ms, this process was kept from running: on a
// machine that stalls, a time-out says nothing about the code.
var lagMax atomic.Int64

func watchLag() {
	for last := time.Now(); ; {
		time.Sleep(5 * time.Millisecond)
		now := time.Now()
		if d := now.Sub(last).Milliseconds() - 5; d > lagMax.Load() {
			lagMax.Store(d)
		}
		last = now
	}
}
