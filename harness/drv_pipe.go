package main

// Driver "pipe": runs the healer commands that read standard input into a
// topic, or print a topic, against the fake cluster.  Bears on T03.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() { drivers["pipe"] = runPipe }

const pipeTopic = "pipe.t-1"

type pipeRec struct {
	v, k     string
	val, key []byte
}

type pipe struct {
	c       *Cluster
	t       *Topic
	mu      sync.Mutex
	recs    map[string]pipeRec // "p/o"
	ids     map[string]string  // value -> "p/o", where a value tells
	refuse  int                // refuse this produce request of the run (0: none)
	nprod   int
	fetched atomic.Bool
	last    atomic.Int64 // when something last came out or was appended
}

// lineBytes is what a token of the script stands for.
func lineBytes(tok string) []byte {
	switch tok {
	case "$empty":
		return []byte{}
	case "$bin":
		return []byte{0, 255, 254, 'x', 9, 128, 'y', 1}
	case "$utf":
		return []byte("grüße 世界 \U0001f600")
	case "$long":
		return bytes.Repeat([]byte("0123456789"), 6000)
	case "$huge":
		return bytes.Repeat([]byte("h"), 70000)
	case "$cr":
		return []byte("in\rside")
	}
	return []byte(tok)
}

func (t *pipe) append(p int, d map[string]any) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	pt := t.t.Parts[p]
	b := &Batch{Magic: int(toI64(d["m"])), Codec: int(toI64(d["c"])), Base: pt.HW + toI64(d["gap"])}
	off := b.Base
	keys := asList(d["keys"])
	t.mu.Lock()
	for i, x := range asList(d["recs"]) {
		id := fmt.Sprintf("%d/%d", p, off)
		r := pipeRec{v: x.(string), k: "null"}
		switch x {
		case "null":
		case "empty":
			r.val = []byte{}
		default:
			r.v = fmt.Sprintf("%s.%d.%d", x, p, off)
			r.val = []byte(r.v)
			switch x {
			case "bin":
				r.val = append([]byte{0xff, 0, 0xfe, '%', 's', ':'}, r.val...)
			case "utf":
				r.val = append([]byte("grüße: 世界 "), r.val...)
			case "long":
				r.val = append(bytes.Repeat([]byte("long"), 3000), r.val...)
			}
			t.ids[string(r.val)] = id
		}
		switch keys[i] {
		case "k":
			r.k = "k" + id
			r.key = []byte(r.k)
		case "kempty":
			r.k, r.key = "empty", []byte{}
		}
		t.recs[id] = r
		b.Recs = append(b.Recs, Rec{Off: off, Ts: 1700000000000 + off, Key: r.key, Val: r.val})
		rec.Ev(M{"ev": "Append", "p": p, "o": off, "v": r.v, "k": r.k})
		off++
	}
	t.mu.Unlock()
	b.Last = off - 1
	t.c.appendLocked(t.t, p, b)
	t.last.Store(time.Now().UnixNano())
}

func runPipe(s *Script) {
	cli := os.Getenv("HEALER_CLI")
	if cli == "" {
		harnessFail("HEALER_CLI is not set")
	}
	t := &pipe{c: NewCluster(0), recs: map[string]pipeRec{}, ids: map[string]string{}}
	c := t.c
	c.AddNode(1)
	c.AddNode(2)
	c.controller = 1
	var leaders []int32
	for _, x := range s.list("parts") {
		leaders = append(leaders, int32(toI64(x.(map[string]any)["leader"])))
	}
	t.t = c.AddTopic(pipeTopic, leaders)
	for i, x := range s.list("parts") {
		d := x.(map[string]any)
		t.t.Parts[i].Start, t.t.Parts[i].HW = toI64(d["start"]), toI64(d["start"])
		for _, y := range asList(d["batches"]) {
			t.append(i, y.(map[string]any))
		}
	}
	c.group("g1").Coord = 2
	c.respond = func(q *Req, s *sconn, errc int16) (M, bool, bool) {
		if q.Name != "Produce" {
			return nil, false, false
		}
		t.mu.Lock()
		t.nprod++
		refuse := t.nprod == t.refuse
		t.mu.Unlock()
		if refuse {
			rec.Ev(M{"ev": "Refuse"})
			b, _ := c.produce(q, 2)
			return b, true, true
		}
		for _, tx := range q.Body["topics"].([]any) {
			for _, px := range tx.(M)["partitions"].([]any) {
				pm := px.(M)
				p := c.part(tx.(M)["name"].(string), int32(toI64(pm["index"])))
				if p == nil || p.Leader != q.Node {
					continue
				}
				raw, _ := pm["records"].([]byte)
				for _, d := range decodeBatches(raw) {
					if len(d.Problems) > 0 {
						rec.Ev(M{"ev": "Made", "p": pm["index"], "key": "?", "v": "? " + d.Problems[0]})
					}
					for _, r := range d.Recs {
						k, v := "null", t.token(r.Val)
						if r.Key != nil {
							k = "some"
						}
						rec.Ev(M{"ev": "Made", "p": pm["index"], "key": k, "v": v})
					}
				}
			}
		}
		return nil, false, false
	}
	c.onReq = func(q *Req) {
		if q.Name == "Produce" || q.Name == "Fetch" {
			rec.Ev(M{"ev": "Req", "api": q.Name, "client": q.Client})
		}
		if q.Name == "LeaveGroup" {
			rec.Ev(M{"ev": "Leave"})
		}
		if q.Name == "Fetch" {
			t.fetched.Store(true)
		}
	}
	c.onResp = func(q *Req, b M, _ []byte, _ string) {
		switch q.Name {
		case "ListOffsets":
			for i, tx := range b["topics"].([]any) {
				in := q.Body["topics"].([]any)[i].(M)["partitions"].([]any)
				for j, px := range tx.(M)["partitions"].([]any) {
					if p := px.(M); toI64(p["error"]) == 0 {
						rec.Ev(M{"ev": "Told", "p": p["index"], "ts": in[j].(M)["timestamp"], "off": p["offset"]})
					}
				}
			}
		case "OffsetFetch":
			for _, tx := range b["topics"].([]any) {
				for _, px := range tx.(M)["partitions"].([]any) {
					if p := px.(M); toI64(p["error"]) == 0 {
						rec.Ev(M{"ev": "Resumed", "p": p["index"], "off": p["offset"]})
					}
				}
			}
		}
	}
	c.onCommit = func(q *Req, name string, p int32, off int64, code int16) {
		if code == 0 {
			rec.Ev(M{"ev": "Commit", "g": q.Body["group"], "p": p, "off": off})
		}
	}
	for _, x := range s.list("steps") {
		t.run(cli, x.(map[string]any))
	}
	rec.Ev(M{"ev": "End"})
	rec.Seal()
}

func (t *pipe) token(b []byte) string {
	if b == nil {
		return "?null"
	}
	for _, k := range []string{"$empty", "$bin", "$utf", "$long", "$huge", "$cr"} {
		if bytes.Equal(b, lineBytes(k)) {
			return k
		}
	}
	if len(b) < 20 && !bytes.HasPrefix(b, []byte("$")) {
		return strconv.QuoteToASCII(string(b))[1 : len(strconv.QuoteToASCII(string(b)))-1]
	}
	return fmt.Sprintf("?%d bytes", len(b))
}

func (t *pipe) run(cli string, st map[string]any) {
	cmd := st["cmd"].(string)
	bad, group := st["bad"].(string), st["group"].(string)
	producing := strings.HasSuffix(cmd, "producer")
	p := int(toI64(st["p"]))
	from, stop, max := toI64(st["from"]), toI64(st["stop"]), toI64(st["max"])
	pt := t.t.Parts[p]
	t.c.mu.Lock()
	if from >= 0 {
		if from += pt.Start; from > pt.HW {
			from = pt.HW
		}
	}
	if stop > 0 {
		stop += pt.Start
	}
	t.c.mu.Unlock()
	topic := pipeTopic
	boot := t.c.Addr(1) + "," + t.c.Addr(2)
	conf := map[string]any{"retry.backoff.ms": 20, "fetch.max.wait.ms": 50}
	if producing {
		conf = map[string]any{}
		if v := toI64(st["cnt"]); v > 0 {
			conf["message.max.count"] = v
		}
		if v := toI64(st["fl"]); v > 0 {
			conf["flush.interval.ms"] = v
		}
		if v := st["codec"].(string); v != "" {
			conf["compress.type"] = v
		}
		if v := toI64(st["acks"]); v != 9 {
			conf["acks"] = v
		}
	} else {
		if from == -2 {
			conf["from.beginning"] = true
		}
		if group != "" {
			conf["auto.commit.interval.ms"] = 40
			conf["session.timeout.ms"] = 6000
		}
	}
	cj, _ := json.Marshal(conf)
	args := []string{cmd}
	flag := ""
	switch bad {
	case "cfg":
		cj = []byte(st["badcfg"].(string))
	case "notopic":
		topic = ""
	case "unknown":
		topic = "no-such-topic"
	case "nobroker":
		boot = "127.0.0.1:1"
	case "part":
		p = 9
	case "flag":
		flag = "--max-messages=1.5"
		if producing {
			flag = "--partition=x"
		}
	case "nogroup":
		group = ""
	}
	args = append(args, "-b", boot)
	if topic != "" {
		args = append(args, "-t", topic)
	}
	if string(cj) != "{}" {
		args = append(args, "--config", string(cj))
	}
	client := st["client"].(string)
	if client != "" {
		args = append(args, "-c", client)
	}
	ps := asList(st["ps"])
	asg := ps
	switch cmd {
	case "simple-producer":
		args = append(args, fmt.Sprintf("--partition=%d", p))
	case "simple-consumer":
		args = append(args, fmt.Sprintf("--partition=%d", p), fmt.Sprintf("--offset=%d", from))
		if stop > 0 {
			args = append(args, fmt.Sprintf("--stopoffset=%d", stop))
		}
		if st["fmt"] == "nooff" {
			args = append(args, "--printoffset=false")
		}
	case "console-consumer":
		if len(ps) > 0 {
			l := []string{}
			for _, x := range ps {
				l = append(l, fmt.Sprint(toI64(x)))
			}
			args = append(args, "--partitions="+strings.Join(l, ","))
		}
	case "group-consumer":
		if group != "" {
			args = append(args, "-g", group)
		}
	}
	if len(asg) == 0 {
		for i := range t.t.Parts {
			asg = append(asg, i)
		}
	}
	if !producing {
		if max >= 0 {
			args = append(args, fmt.Sprintf("--max-messages=%d", max))
		}
		if st["fmt"] == "json" {
			args = append(args, "--json")
		}
	}
	if flag != "" {
		args = append(args, flag)
	}
	lines := asList(st["lines"])
	t.mu.Lock()
	t.nprod, t.refuse = 0, int(toI64(st["refuse"]))
	t.mu.Unlock()
	t.fetched.Store(false)
	rec.Ev(M{"ev": "Run", "cmd": cmd, "p": p, "ps": asg, "from": from, "stop": stop, "max": max, "bad": bad != "", "lines": lines,
		"client": client, "group": st["group"]})

	x := exec.Command(cli, args...)
	x.Env = append(os.Environ(), "GOTRACEBACK=all")
	var errb bytes.Buffer
	x.Stderr = &errb
	in, _ := x.StdinPipe()
	out, err := x.StdoutPipe()
	if err != nil {
		harnessFail("pipe: %v", err)
	}
	if err := x.Start(); err != nil {
		harnessFail("start: %v", err)
	}
	t.last.Store(time.Now().UnixNano())
	go func() { // standard input, in pieces
		for i, l := range lines {
			in.Write(lineBytes(l.(string)))
			if i+1 < len(lines) || st["nonl"] != true || len(lineBytes(l.(string))) == 0 {
				io.WriteString(in, "\n")
			}
			if ms := toI64(st["slow"]); ms > 0 {
				time.Sleep(time.Duration(ms) * time.Millisecond)
			}
		}
		in.Close()
	}()
	grown := make(chan struct{})
	go func() { // the log grows under its eyes
		defer close(grown)
		g := asList(st["grow"])
		if len(g) == 0 || bad != "" {
			return
		}
		waitFor(3*time.Second, func() bool { return t.fetched.Load() })
		for _, y := range g {
			time.Sleep(20 * time.Millisecond)
			t.append(int(toI64(y.([]any)[0])), y.([]any)[1].(map[string]any))
		}
	}()
	var stray []string
	read := make(chan struct{})
	go func() {
		defer close(read)
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			line, err := r.ReadBytes('\n')
			if len(line) > 0 && line[len(line)-1] == '\n' {
				t.last.Store(time.Now().UnixNano())
				if e := t.line(cmd, st["fmt"].(string), p, line[:len(line)-1]); e != nil {
					rec.Ev(e)
				} else {
					stray = append(stray, string(line))
				}
			} else if len(line) > 0 {
				stray = append(stray, string(line))
			}
			if err != nil {
				return
			}
		}
	}()
	done := make(chan struct{})
	var werr error
	go func() { <-read; werr = x.Wait(); close(done) }()
	quiet, killed := 700*time.Millisecond, false
	deadline := time.Now().Add(25 * time.Second)
	for waiting := true; waiting; {
		select {
		case <-done:
			waiting = false
		case <-time.After(20 * time.Millisecond):
			idle := time.Since(time.Unix(0, t.last.Load()))
			select {
			case <-grown:
			default:
				idle = 0
			}
			lag := time.Duration(lagMax.Load()) * time.Millisecond
			switch {
			case killed && time.Now().After(deadline):
				x.Process.Kill()
				hung(M{"what": cmd + " after a signal"})
			case killed:
			case !producing && bad == "" && idle > quiet+4*lag && (t.fetched.Load() || idle > 10*time.Second):
				killed = true
				deadline = time.Now().Add(10 * time.Second)
				if cmd == "group-consumer" {
					rec.Ev(M{"ev": "Quiet"})
					rec.Ev(M{"ev": "Int"})
					x.Process.Signal(syscall.SIGINT)
				} else {
					rec.Ev(M{"ev": "Quiet"})
					x.Process.Kill()
				}
			case time.Now().After(deadline):
				x.Process.Kill()
				hung(M{"what": cmd})
			}
		}
	}
	if strings.Contains(errb.String(), "\ngoroutine ") {
		if os.Getenv("VH_LOG") != "" {
			os.Stderr.Write(errb.Bytes())
		}
		rec.Ev(M{"ev": "Crash", "msg": firstLine(errb.String())})
		rec.Seal()
		os.Exit(0)
	}
	if os.Getenv("VH_LOG") != "" {
		fmt.Fprintf(os.Stderr, "%v\n%v\n%s", args, werr, errb.String())
	}
	<-grown
	time.Sleep(2 * time.Millisecond)
	if werr == nil || killed {
		for _, l := range stray {
			rec.Ev(M{"ev": "Stray", "text": l})
		}
	}
	if !killed || cmd == "group-consumer" {
		rec.Ev(M{"ev": "Exit", "ok": werr == nil})
	}
}

// line reads back one line of output.
func (t *pipe) line(cmd, format string, p int, b []byte) M {
	t.mu.Lock()
	defer t.mu.Unlock()
	find := func(p int, o int64, val []byte, isNull, told bool) string {
		id := fmt.Sprintf("%d/%d", p, o)
		r, ok := t.recs[id]
		if ok && told {
			if bytes.Equal(r.val, val) && (r.val == nil) == isNull {
				return r.v
			}
		} else if ok && bytes.Equal(r.val, val) {
			return r.v
		}
		return fmt.Sprintf("?%d bytes", len(val))
	}
	if format == "json" {
		type msg struct {
			Offset     *int64
			Key, Value []byte
		}
		var m msg
		var f struct {
			TopicName   string
			PartitionID *int
			Error       any
			Message     *msg
		}
		if cmd == "simple-consumer" {
			if json.Unmarshal(b, &m) != nil || m.Offset == nil {
				return nil
			}
		} else {
			if json.Unmarshal(b, &f) != nil || f.Message == nil || f.PartitionID == nil || f.TopicName != pipeTopic || f.Message.Offset == nil {
				return nil
			}
			m, p = *f.Message, *f.PartitionID
		}
		k := "null"
		if m.Key != nil {
			if k = string(m.Key); k == "" {
				k = "empty"
			}
		}
		return M{"ev": "Out", "p": p, "o": *m.Offset, "v": find(p, *m.Offset, m.Value, m.Value == nil, true), "k": k}
	}
	if cmd == "simple-consumer" && format == "nooff" {
		id, ok := t.ids[string(b)]
		if !ok {
			return nil
		}
		return M{"ev": "Out", "p": p, "o": -9, "v": t.recs[id].v, "k": "-"}
	}
	rest := b
	if cmd == "group-consumer" {
		pre := []byte(pipeTopic + ":")
		if !bytes.HasPrefix(rest, pre) {
			return nil
		}
		rest = rest[len(pre):]
		i := bytes.IndexByte(rest, ':')
		if i < 0 {
			return nil
		}
		n, err := strconv.Atoi(string(rest[:i]))
		if err != nil {
			return nil
		}
		p, rest = n, rest[i+1:]
	}
	i := bytes.Index(rest, []byte(": "))
	if i < 0 {
		return nil
	}
	o, err := strconv.ParseInt(string(rest[:i]), 10, 64)
	if err != nil {
		return nil
	}
	val := rest[i+2:]
	if cmd == "console-consumer" {
		id, ok := t.ids[string(val)]
		if !ok {
			return nil
		}
		fmt.Sscanf(id, "%d/", &p)
		return M{"ev": "Out", "p": p, "o": o, "v": t.recs[id].v, "k": "-"}
	}
	return M{"ev": "Out", "p": p, "o": o, "v": find(p, o, val, false, false), "k": "-"}
}
