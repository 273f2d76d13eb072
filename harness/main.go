package main

import (
	"encoding/json"
	"io"
	"os"
	"time"

	healer "github.com/childe/healer"
	"github.com/go-logr/logr"
)

var drivers = map[string]func(*Script){}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "one" {
		harnessFail("usage: vh one < script")
	}
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		harnessFail("stdin: %v", err)
	}
	var s Script
	if err := json.Unmarshal(b, &s); err != nil {
		harnessFail("script: %v", err)
	}
	s.Raw = b
	rec = &Recorder{f: os.Stdout}
	if os.Getenv("VH_LOG") == "" {
		healer.SetLogger(logr.Discard())
	}
	d := drivers[s.Driver]
	if d == nil {
		harnessFail("no driver %q", s.Driver)
	}
	if s.P == nil {
		s.P = map[string]any{}
	}
	go watchLag()
	limit := time.Duration(s.num("limit_ms", 60000)) * time.Millisecond
	go func() {
		time.Sleep(limit)
		hung(M{"in": "script", "what": "script"}) // something in the script never came to an end
	}()
	d(&s)
	rec.Seal()
	os.Exit(0)
}
