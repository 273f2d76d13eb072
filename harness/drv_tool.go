package main

// Driver "tool": runs the built healer command (HEALER_CLI) against the fake
// cluster and reads back what it asked, committed and printed.  Bears on T01.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() { drivers["tool"] = runTool }

const toolTime = int64(1700000000000) // script times count from here
const toolFar = int64(5000000000)     // offsets of "far" topics count from here

type tool struct {
	c    *Cluster
	s    *Script
	far  map[string]bool
	grp  []map[string]any
	down map[int32]bool
}

func (t *tool) ts(x any) int64 {
	if v := toI64(x); v < 0 {
		return v
	} else {
		return toolTime + v
	}
}

func (t *tool) off(topic string, x any) int64 {
	if t.far[topic] {
		return toI64(x) + toolFar
	}
	return toI64(x)
}

// cliAssignment encodes the partitions a member has, by topic.
func cliAssignment(l []any) []byte {
	if len(l) == 0 {
		return nil
	}
	w := &wr{}
	w.i16(0)
	w.i32(int32(len(l)))
	for _, x := range l {
		a := x.(map[string]any)
		name := a["t"].(string)
		w.i16(int16(len(name)))
		w.b = append(w.b, name...)
		ps := asList(a["ps"])
		w.i32(int32(len(ps)))
		for _, p := range ps {
			w.i32(int32(toI64(p)))
		}
	}
	w.i32(0)
	return w.b
}

func (t *tool) respond(q *Req, s *sconn, errc int16) (M, bool, bool) {
	switch q.Name {
	case "ListOffsets":
		b := t.c.listOffsets(q, errc)
		for i, tx := range b["topics"].([]any) {
			in := q.Body["topics"].([]any)[i].(M)["partitions"].([]any)
			for j, px := range tx.(M)["partitions"].([]any) {
				p, ts := px.(M), toI64(in[j].(M)["timestamp"])
				if ts >= 0 && toI64(p["error"]) == 0 && toI64(p["offset"]) >= 0 {
					p["timestamp"] = ts + 7*toI64(p["index"])
				}
				if q.Ver == 0 && toI64(p["offset"]) < 0 {
					p["old_offsets"] = []int64{}
				}
			}
		}
		return b, true, true
	case "ListGroups":
		l := []any{}
		for _, g := range t.grp {
			if g["listed"] == true && t.c.group(g["g"].(string)).Coord == q.Node {
				l = append(l, M{"group": g["g"], "protocol_type": "consumer"})
			}
		}
		return M{"throttle": 0, "error": errc, "groups": l}, true, true
	case "DescribeGroups":
		l := []any{}
		for _, x := range asList(q.Body["groups"]) {
			d := M{"error": errc, "group": x, "state": "Dead", "protocol_type": "", "protocol": "", "members": []any{}}
			for _, g := range t.grp {
				if g["g"] == x && errc == 0 {
					ms := []any{}
					for _, y := range asList(g["members"]) {
						m := y.(map[string]any)
						ms = append(ms, M{"member": m["m"], "client_id": "c", "client_host": "/127.0.0.1", "metadata": []byte{}, "assignment": cliAssignment(asList(m["a"]))})
					}
					d["state"], d["protocol_type"], d["members"] = "Stable", "consumer", ms
				}
			}
			l = append(l, d)
		}
		return M{"throttle": 0, "groups": l}, true, true
	}
	return nil, false, false
}

func runTool(s *Script) {
	cli := os.Getenv("HEALER_CLI")
	if cli == "" {
		harnessFail("HEALER_CLI is not set")
	}
	t := &tool{c: NewCluster(0), s: s, far: map[string]bool{}, down: map[int32]bool{}}
	c := t.c
	for _, x := range s.list("nodes") {
		c.AddNode(int32(toI64(x)))
	}
	c.controller = int32(toI64(s.list("nodes")[0]))
	c.rules = s.Rules
	if m := s.P["max"]; m != nil {
		for _, a := range c.apis {
			if v, ok := m.(map[string]any)[schemas[int16(toI64(a["key"]))].name]; ok {
				a["max"] = toI64(v)
			}
		}
	}
	for _, x := range s.list("topics") {
		d := x.(map[string]any)
		name := d["t"].(string)
		t.far[name] = d["far"] == true
		var leaders []int32
		for _, y := range asList(d["parts"]) {
			leaders = append(leaders, int32(toI64(y.(map[string]any)["leader"])))
		}
		tp := c.AddTopic(name, leaders)
		tp.ByTime = map[string]int64{}
		for i, y := range asList(d["parts"]) {
			p := y.(map[string]any)
			tp.Parts[i].Start, tp.Parts[i].HW = t.off(name, p["start"]), t.off(name, p["end"])
			for k, o := range asList(p["at"]) {
				if toI64(o) >= 0 {
					tp.ByTime[fmt.Sprintf("%d:%d", i, toolTime+int64(k))] = t.off(name, o)
				}
			}
			rec.Ev(M{"ev": "Part", "t": name, "p": i, "n": leaders[i]})
		}
	}
	for _, x := range s.list("groups") {
		g := x.(map[string]any)
		name := g["g"].(string)
		t.grp = append(t.grp, g)
		c.group(name).Coord = int32(toI64(g["n"]))
		rec.Ev(M{"ev": "Coord", "g": name, "n": g["n"]})
		for _, y := range asList(g["commits"]) {
			o := y.(map[string]any)
			c.commitStore[fmt.Sprintf("%s/%s/%d", name, o["t"], toI64(o["p"]))] = t.off(o["t"].(string), o["off"])
		}
		for _, y := range asList(g["members"]) {
			m := y.(map[string]any)
			for _, z := range asList(m["a"]) {
				a := z.(map[string]any)
				for _, p := range asList(a["ps"]) {
					rec.Ev(M{"ev": "Owns", "g": name, "t": a["t"], "p": p, "m": m["m"]})
				}
			}
		}
	}
	c.respond = t.respond
	c.onRule = func(q *Req, r *Rule) { rec.Ev(M{"ev": "Fault", "what": r.Act + " " + q.Name}) }
	c.onReq = func(q *Req) {
		switch q.Name {
		case "ListOffsets":
			t.each(q.Body, func(name string, p M) {
				rec.Ev(M{"ev": "Ask", "n": q.Node, "t": name, "p": p["index"], "ts": p["timestamp"]})
			})
		case "OffsetFetch":
			rec.Ev(M{"ev": "FetchAsk", "n": q.Node, "g": q.Body["group"]})
		case "OffsetCommit":
			rows := []any{}
			t.each(q.Body, func(name string, p M) {
				rows = append(rows, M{"t": name, "p": p["index"], "off": p["offset"]})
			})
			rec.Ev(M{"ev": "Put", "n": q.Node, "g": q.Body["group"], "rows": rows})
		}
	}
	c.onResp = func(q *Req, b M, _ []byte, _ string) {
		fault := func(code any) {
			if toI64(code) != 0 {
				rec.Ev(M{"ev": "Fault", "what": fmt.Sprintf("%s %d", q.Name, toI64(code))})
			}
		}
		switch q.Name {
		case "ListOffsets":
			t.each(b, func(name string, p M) {
				ts := any(p["timestamp"])
				if q.Ver == 0 {
					ts = 0
				}
				rec.Ev(M{"ev": "Told", "n": q.Node, "t": name, "p": p["index"], "off": p["offset"], "ts": ts, "code": p["error"]})
				fault(p["error"])
			})
		case "OffsetFetch":
			t.each(b, func(name string, p M) {
				rec.Ev(M{"ev": "Fetched", "n": q.Node, "g": q.Body["group"], "t": name, "p": p["index"], "off": p["offset"], "code": p["error"]})
				fault(p["error"])
			})
		case "OffsetCommit":
			code := int64(0)
			t.each(b, func(_ string, p M) {
				if toI64(p["error"]) != 0 {
					code = toI64(p["error"])
				}
			})
			rec.Ev(M{"ev": "PutAns", "code": code})
			fault(code)
		case "FindCoordinator", "ListGroups":
			fault(b["error"])
		case "DescribeGroups":
			for _, g := range b["groups"].([]any) {
				fault(g.(M)["error"])
			}
		case "Metadata":
			if q.Body["topics"] == nil || len(asList(q.Body["topics"])) == 0 {
				break
			}
			for _, tx := range b["topics"].([]any) {
				fault(tx.(M)["error"])
				for _, p := range tx.(M)["partitions"].([]any) {
					fault(p.(M)["error"])
				}
			}
		}
	}
	for _, x := range s.list("steps") {
		t.step(cli, x.(map[string]any))
	}
	rec.Ev(M{"ev": "End"})
	rec.Seal()
}

func (t *tool) each(body M, f func(string, M)) {
	for _, tx := range body["topics"].([]any) {
		for _, p := range tx.(M)["partitions"].([]any) {
			if m, ok := p.(M); ok {
				f(tx.(M)["name"].(string), m)
			}
		}
	}
}

func (t *tool) step(cli string, st map[string]any) {
	c := t.c
	switch st["op"] {
	case "lead":
		name, id, n := st["t"].(string), int32(toI64(st["p"])), int32(toI64(st["n"]))
		c.mu.Lock()
		p := c.part(name, id)
		if p != nil {
			p.Leader = n
		}
		c.mu.Unlock()
		if p != nil {
			rec.Ev(M{"ev": "Part", "t": name, "p": id, "n": n})
		}
	case "move":
		c.mu.Lock()
		c.group(st["g"].(string)).Coord = int32(toI64(st["n"]))
		c.mu.Unlock()
		rec.Ev(M{"ev": "Coord", "g": st["g"], "n": st["n"]})
	case "append":
		c.mu.Lock()
		if p := c.part(st["t"].(string), int32(toI64(st["p"]))); p != nil {
			p.HW += toI64(st["k"])
		}
		c.mu.Unlock()
	case "down":
		n := int32(toI64(st["n"]))
		t.down[n] = true
		c.SetDown(n, false)
	case "up":
		n := int32(toI64(st["n"]))
		if t.down[n] {
			delete(t.down, n)
			c.SetUp(n)
		}
	case "run":
		t.run(cli, st)
	}
}

func (t *tool) run(cli string, st map[string]any) {
	cmd, topic := st["cmd"].(string), st["t"].(string)
	ps := asList(st["ps"])
	ts := t.ts(st["ts"])
	var boot []string
	for _, x := range asList(st["boot"]) {
		boot = append(boot, t.c.Addr(int32(toI64(x))))
	}
	args := []string{cmd, "-b", strings.Join(boot, ",")}
	if topic != "" {
		args = append(args, "-t", topic)
	}
	groups := asList(st["groups"])
	switch cmd {
	case "get-offsets":
		if !(ts == -1 && st["bare"] == true) {
			args = append(args, fmt.Sprintf("--timestamp=%d", ts))
		}
	case "get-pending":
		if g := st["g"].(string); g != "" {
			args = append(args, "-g", g)
		}
		if st["total"] == true {
			args = append(args, "--total")
		}
		if st["bare"] == true {
			args = append(args, "--header=false")
		}
	case "reset-offset":
		args = append(args, "-g", st["g"].(string), fmt.Sprintf("--timestamp=%d", ts))
		if st["all"] != true {
			l := []string{}
			for _, p := range ps {
				l = append(l, fmt.Sprint(toI64(p)))
			}
			args = append(args, "-p", strings.Join(l, ","))
		}
	}
	rec.Ev(M{"ev": "Run", "cmd": cmd, "t": topic, "groups": groups, "ts": ts, "ps": ps, "all": st["all"] == true, "total": st["total"] == true,
		"fault": len(t.down) > 0})
	x := exec.Command(cli, args...)
	var out, errb bytes.Buffer
	x.Stdout, x.Stderr = &out, &errb
	x.Env = append(os.Environ(), "GOTRACEBACK=all")
	if err := x.Start(); err != nil {
		harnessFail("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- x.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(40 * time.Second):
		x.Process.Kill()
		hung(M{"what": cmd})
	}
	if strings.Contains(errb.String(), "\ngoroutine ") || strings.Contains(out.String(), "Recovered in") {
		if os.Getenv("VH_LOG") != "" {
			os.Stderr.Write(errb.Bytes())
		}
		rec.Ev(M{"ev": "Crash", "msg": firstLine(errb.String() + out.String())})
		rec.Seal()
		os.Exit(0)
	}
	if os.Getenv("VH_LOG") != "" {
		fmt.Fprintf(os.Stderr, "%v\n%s%s", args, out.String(), errb.String())
	}
	time.Sleep(2 * time.Millisecond)
	for _, line := range t.lines(cmd, out.String(), st) {
		if err != nil && line["kind"] == "other" {
			continue
		}
		rec.Ev(line)
	}
	rec.Ev(M{"ev": "Exit", "ok": err == nil})
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic") || strings.Contains(l, "fatal") || strings.Contains(l, "Recovered") {
			return l
		}
	}
	return "crash"
}

// lines reads the tool's output back.  Rows may come in any order; a total is
// printed after its rows.
func (t *tool) lines(cmd, out string, st map[string]any) (l []M) {
	num := func(s string) (any, bool) {
		v, err := strconv.ParseInt(s, 10, 64)
		return v, err == nil
	}
	for _, line := range strings.Split(out, "\n") {
		if strings.TrimSpace(line) == "" || strings.HasPrefix(line, "timestamp ") || strings.HasPrefix(line, "Usage") {
			continue
		}
		bad := M{"ev": "Line", "kind": "other", "text": line}
		f := strings.Fields(line)
		switch {
		case cmd == "get-offsets" && strings.Count(line, ":") >= 2 && len(f) == 2:
			a := strings.Split(f[0], ":")
			p, ok1 := num(a[len(a)-2])
			ts, ok2 := num(a[len(a)-1])
			o, ok3 := num(f[1])
			if ok1 && ok2 && ok3 {
				l = append(l, M{"ev": "Line", "kind": "offset", "t": strings.Join(a[:len(a)-2], ":"), "p": p, "ts": ts, "off": o})
				continue
			}
			l = append(l, bad)
		case cmd == "get-pending" && f[0] == "TOTAL" && len(f) == 6:
			e, ok1 := num(f[3])
			co, ok2 := num(f[4])
			la, ok3 := num(f[5])
			if ok1 && ok2 && ok3 {
				l = append(l, M{"ev": "Line", "kind": "total", "t": f[1], "g": f[2], "end": e, "com": co, "lag": la})
				continue
			}
			l = append(l, bad)
		case cmd == "get-pending" && (len(f) == 7 || len(f) == 8):
			m := ""
			if len(f) == 8 {
				m = f[7]
			}
			p, ok1 := num(f[3])
			e, ok2 := num(f[4])
			co, ok3 := num(f[5])
			la, ok4 := num(f[6])
			if ok1 && ok2 && ok3 && ok4 {
				l = append(l, M{"ev": "Line", "kind": "pending", "t": f[1], "g": f[2], "p": p, "end": e, "com": co, "lag": la, "m": m})
				continue
			}
			l = append(l, bad)
		case cmd == "reset-offset":
			// whatever it says
		default:
			l = append(l, bad)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i]["kind"] != "total" && l[j]["kind"] == "total" })
	return l
}
