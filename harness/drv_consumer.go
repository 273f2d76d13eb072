package main

// Driver "consumer": one SimpleConsumer, or a Consumer over several partitions,
// against a log that grows, is trimmed and moves between leaders.  Bears on
// C01..C07.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["consumer"] = drvConsumer }

// logGen builds batches with contents that depend only on the script.
type logGen struct {
	obase int64
	next  map[string]int64
	tag   int
}

func fill(n int, seed int64) []byte {
	b := make([]byte, n)
	x := uint64(seed)*2654435761 + 12345
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
	return b
}

func genField(class int, seed int64) []byte {
	switch class {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte(fmt.Sprintf("v%d", seed%1000))
	case 3:
		return fill(1, seed)
	case 4:
		return fill(300, seed)
	case 5:
		return []byte(strings.Repeat("ab", 2000))
	case 6:
		return fill(70000, seed)
	}
	return fill(int(seed%60), seed)
}

// batch turns {m,c,n,gap,hole,kind,k,v,h,la,st,dt} into a stored batch.
func (g *logGen) batch(p string, d map[string]any) *Batch {
	num := func(k string) int { return int(toI64(orZero(d[k]))) }
	b := &Batch{Magic: num("m"), Codec: num("c"), Style: num("st")}
	kind, _ := d["kind"].(string)
	b.Txn = b.Magic == 2 && d["txn"] == true
	b.Base = g.next[p] + int64(num("gap"))
	n := num("n")
	off := b.Base
	if d["la"] == true && b.Magic == 2 || (d["la"] == true && b.Magic == 1 && b.Codec != 0) {
		b.LogAppend = true
		b.MaxTs = 1700000099000 + b.Base
	}
	for i := 0; i < n; i++ {
		if num("hole") > 0 && i > 0 && (i+num("hole"))%3 == 0 {
			off++
		}
		g.tag++
		seed := int64(g.tag)*31 + off
		r := Rec{Off: off, Ts: 1700000000000 + int64(num("dt"))*int64(i) + int64(g.tag)%7}
		if num("dt") == 9 && i%2 == 1 {
			r.Ts -= 5000 // time stamps need not be ordered
		}
		switch num("dt") {
		case 77: // set by the producer, so they may be anything
			r.Ts += 5000000000 * int64(i)
		case 78:
			r.Ts = -1
		case 79:
			r.Ts += (1 << 40) * int64(1-2*(i%2))
		case 80:
			r.Ts = int64(i)
		}
		kc, vc := num("k"), num("v")
		r.Key = genField((kc+i*(kc%2))%8, seed)
		r.Val = genField((vc+i*(vc%2))%8, seed+7)
		if b.Magic == 2 {
			for j := 0; j < (num("h")+i)%3 && num("h") > 0; j++ {
				r.Hdrs = append(r.Hdrs, Hdr{fmt.Sprintf("h%d", j), genField((num("h")+j)%5, seed+int64(j))})
			}
		}
		b.Recs = append(b.Recs, r)
		off++
	}
	b.Last = off - 1
	switch kind {
	case "empty": // all records compacted away
		b.Recs = nil
	case "control":
		b.Control = true
		b.Recs = b.Recs[:1]
		b.Last = b.Base
		b.Recs[0].Key = []byte{0, 0, 0, 1}
		b.Recs[0].Val = []byte{0, 0, 0, 0, 0, 0}
		b.Recs[0].Hdrs = nil
		b.Codec = 0
	default:
		if b.Magic == 2 {
			b.Last += int64(num("tail"))
		}
	}
	g.next[p] = b.Last + 1
	return b
}

func orZero(x any) any {
	if x == nil {
		return 0
	}
	return x
}

func tsOf(b *Batch, r Rec) int64 {
	if b.LogAppend {
		return b.MaxTs
	}
	if b.Magic == 0 {
		return 0
	}
	return r.Ts
}

func digest(ts int64, key, val []byte, hdrs []Hdr) string {
	s := fmt.Sprintf("%d|%s|%s|", ts, bstr(key), bstr(val))
	for _, h := range hdrs {
		s += h.K + "=" + bstr(h.V) + ";"
	}
	return s
}

func digestMsg(m *healer.Message) string {
	var l []Hdr
	for _, h := range m.Headers {
		l = append(l, Hdr{h.Key, h.Value})
	}
	return digest(int64(m.Timestamp), m.Key, m.Value, l)
}

func pname(i int32) string { return fmt.Sprintf("p%d", i) }

type consRun struct {
	s     *Script
	c     *Cluster
	ts    []*Topic
	g     *logGen
	gate  sync.Mutex
	group string
	last  map[string]int64 // last delivered offset
	asked map[string]*Req  // last fetch
	mu    sync.Mutex
	nDel  int
	more  atomic.Bool // the last records are on their way
}

// The partitions of the run are p0, p1 ...; with two topics they alternate.
func (r *consRun) topicOf(i int) string { return r.ts[i%len(r.ts)].Name }
func (r *consRun) part(i int) *Part     { return r.ts[i%len(r.ts)].Parts[i/len(r.ts)] }
func (r *consRun) pname(topic string, id int32) string {
	for k, t := range r.ts {
		if t.Name == topic {
			return pname(id*int32(len(r.ts)) + int32(k))
		}
	}
	return "?" + topic
}

func (r *consRun) rel(o int64) int64 {
	if o < 0 {
		return o
	}
	if o < r.g.obase { // a position nobody asked for: keep it visible
		return -1000 - o%1000
	}
	return o - r.g.obase
}

func (r *consRun) store(p int, b *Batch) {
	pn := pname(int32(p))
	var recs []any
	if !b.Control {
		for _, x := range b.Recs {
			recs = append(recs, M{"off": r.rel(x.Off), "d": digest(tsOf(b, x), x.Key, x.Val, x.Hdrs)})
		}
	}
	r.c.mu.Lock()
	if recs == nil {
		recs = []any{}
	}
	rec.Ev(M{"ev": "Store", "p": pn, "recs": recs, "hi": r.rel(b.Last + 1)})
	r.c.appendLocked(r.ts[p%len(r.ts)], p/len(r.ts), b)
	r.c.mu.Unlock()
}

func eachPart(body M, list string, f func(topic string, pm M)) {
	tl, _ := body[list].([]any)
	for _, tx := range tl {
		t := tx.(M)
		pl, _ := t["partitions"].([]any)
		for _, px := range pl {
			if pm, ok := px.(M); ok {
				f(t["name"].(string), pm)
			} else {
				f(t["name"].(string), M{"index": px})
			}
		}
	}
}

func (r *consRun) hook() {
	c := r.c
	c.onReq = func(q *Req) {
		switch q.Name {
		case "Fetch":
			eachPart(q.Body, "topics", func(t string, pm M) {
				r.asked[r.pn(t, pm)] = q
				rec.Ev(M{"ev": "Fetch", "p": r.pn(t, pm), "off": r.rel(toI64(pm["offset"])), "maxb": pm["max_bytes"], "node": q.Node})
			})
		case "ListOffsets":
			eachPart(q.Body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "ListReq", "p": r.pn(t, pm), "ts": pm["timestamp"]})
			})
		case "OffsetFetch":
			eachPart(q.Body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "OffReq", "p": r.pn(t, pm), "mine": q.Body["group"] == r.group})
			})
		case "OffsetCommit":
			eachPart(q.Body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "Commit", "p": r.pn(t, pm), "off": r.rel(toI64(pm["offset"])), "mine": q.Body["group"] == r.group})
			})
		}
	}
	c.onResp = func(q *Req, body M, frame []byte, act string) {
		full := !strings.HasPrefix(act, "cut")
		switch q.Name {
		case "Fetch":
			eachPart(body, "responses", func(t string, pm M) {
				if r.asked[r.pn(t, pm)] != q {
					return // the client has given this request up and sent another
				}
				rec.Ev(M{"ev": "FetchResp", "p": r.pn(t, pm), "code": pm["error"], "full": full})
			})
		case "ListOffsets":
			eachPart(body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "ListResp", "p": r.pn(t, pm), "code": pm["error"], "off": r.rel(toI64(pm["offset"])), "full": full})
			})
		case "OffsetFetch":
			eachPart(body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "OffResp", "p": r.pn(t, pm), "code": pm["error"], "off": r.rel(toI64(pm["offset"])), "full": full})
			})
		}
	}
}

func (r *consRun) pn(t string, pm M) string {
	return r.pname(t, int32(toI64(pm["index"])))
}

func (r *consRun) deliver(m *healer.FullMessage) {
	if m.Error != nil || m.Message == nil {
		rec.Ev(M{"ev": "DeliverErr"})
		return
	}
	pn := r.pname(m.TopicName, m.PartitionID)
	rec.Ev(M{"ev": "Deliver", "p": pn, "off": r.rel(m.Message.Offset), "d": digestMsg(m.Message)})
	r.mu.Lock()
	r.last[pn] = m.Message.Offset
	r.nDel++
	r.mu.Unlock()
}

// committed is what the coordinator holds, -1 for nothing.
func (r *consRun) committed(p int32) int64 {
	r.c.mu.Lock()
	defer r.c.mu.Unlock()
	o, ok := r.c.commitStore[fmt.Sprintf("%s/%s/%d", r.group, r.topicOf(int(p)), r.part(int(p)).ID)]
	if !ok {
		return -1
	}
	return r.rel(o)
}

func drvConsumer(s *Script) {
	nparts := s.num("parts", 1)
	c := NewCluster(s.num("nodes", 2))
	r := &consRun{s: s, c: c, last: map[string]int64{}, asked: map[string]*Req{}, g: &logGen{next: map[string]int64{}}}
	if s.flag("big") {
		r.g.obase = 7000000000
	}
	nt := s.num("topics", 1)
	leaders := make([][]int32, nt)
	for i := 0; i < nparts; i++ {
		leaders[i%nt] = append(leaders[i%nt], int32(i%len(c.nodes)+1))
	}
	for k, name := range []string{"topic-a", "topic-b"}[:nt] {
		r.ts = append(r.ts, c.AddTopic(name, leaders[k]))
	}
	if s.flag("zero") {
		c.idShift = -1
	}
	c.notLeader = int16(s.num("notleader", 6))
	c.aborted = s.num("aborted", 0)
	if x := s.num("fetchver", -1); x >= 0 {
		for _, a := range c.apis {
			if toI64(a["key"]) == 1 {
				a["max"] = int64(x)
			}
		}
	}
	c.checkEpoch = true
	c.fetchTrunc = s.flag("trunc")
	c.fetchCap = s.num("cap_batches", 0)
	c.fetchSeg = s.num("seg", 0)
	tmo := s.num("timeout", 400)
	wait := s.num("wait", 60)
	for _, x := range s.Rules {
		if x.Act == "late" {
			x.Arg = tmo + wait + 150
		}
	}
	start := s.num("start", -2)
	if s.flag("group") {
		r.group = "grp"
		c.group("grp").Coord = int32(s.num("coord", 1))
	}
	// the log as it is when the consumer starts
	lo := s.num("lo", 0)
	for i := 0; i < nparts; i++ {
		r.g.next[pname(int32(i))] = r.g.obase + int64(lo)
		r.part(i).Start = r.g.obase + int64(lo)
		r.part(i).HW = r.g.obase + int64(lo)
		rec.Ev(M{"ev": "Trim", "p": pname(int32(i)), "lo": lo})
	}
	for i, bx := range s.list("log") {
		r.store(i%nparts, r.g.batch(pname(int32(i%nparts)), bx.(map[string]any)))
	}
	if cm := s.num("committed", -1); cm >= 0 {
		for i := 0; i < nparts; i++ {
			c.commitStore[fmt.Sprintf("grp/%s/%d", r.topicOf(i), r.part(i).ID)] = r.g.obase + int64(cm)
		}
	}
	r.hook()
	c.mu.Lock()
	c.rules = s.Rules
	c.mu.Unlock()

	cfg := healer.DefaultConsumerConfig()
	cfg.BootstrapServers = c.Bootstrap()
	cfg.GroupID = r.group
	cfg.ClientID = "v"
	cfg.Net.TimeoutMS = tmo
	cfg.Net.ConnectTimeoutMS = 2000
	cfg.RetryBackOffMS = 20
	cfg.FetchMaxWaitMS = int32(wait)
	cfg.SessionTimeoutMS = int32(2 * tmo)
	cfg.FetchMaxBytes = int32(s.num("maxbytes", 1<<20))
	multi := s.str("mode", "simple") == "multi"
	cfg.FromBeginning = start == -2
	if !multi { // a simple consumer is told by Consume where to start
		cfg.FromBeginning = s.flag("begin")
	}
	// the partitions that are to be consumed
	mine := map[string]bool{}
	assign := map[string][]int{}
	for i := 0; i < nparts; i++ {
		mine[pname(int32(i))] = true
	}
	if a := s.list("assign"); len(a) > 0 {
		mine = map[string]bool{}
		for _, x := range a {
			i := int(toI64(x))
			mine[pname(int32(i))] = true
			assign[r.topicOf(i)] = append(assign[r.topicOf(i)], int(r.part(i).ID))
		}
	}
	if k := s.num("stale", 0); k > 0 && len(c.nodes) > 1 {
		for i := 0; i < nparts; i++ {
			c.Move(r.part(i), k)
		}
	}
	cfg.AutoCommit = s.flag("auto")
	cfg.AutoCommitIntervalMS = s.num("interval", 40)
	cfg.OffsetsStorage = 1

	ch := make(chan *healer.FullMessage, s.num("chan", 0))
	slack := 25*time.Second + 10*time.Duration(tmo)*time.Millisecond
	var consume func()
	var stop func()
	var commits []func()
	consumeRet := make(chan struct{})
	rec.Ev(M{"ev": "Begin"})
	// faults may hit the very first requests: creating the consumer is retried
	create := func() error {
		if multi {
			var names []string
			for _, t := range r.ts {
				names = append(names, t.Name)
			}
			if s.flag("later") {
				names = names[:0]
			}
			x, err := healer.NewConsumer(cfg, names...)
			if err != nil {
				return err
			}
			if len(assign) > 0 {
				x.Assign(assign)
			} else if s.flag("later") {
				for _, t := range r.ts {
					names = append(names, t.Name)
				}
				x.Subscribe(names...)
			}
			consume = func() { x.Consume(ch) }
			stop = func() { x.AwaitClose(60 * time.Second) }
			return nil
		}
		x, err := healer.NewSimpleConsumer(r.topicOf(0), 0, cfg)
		if err != nil {
			return err
		}
		st := int64(start)
		if st >= 0 {
			st += r.g.obase
		}
		consume = func() { x.Consume(st, ch) }
		stop = x.Stop
		commits = append(commits, x.CommitOffset)
		return nil
	}
	ok := false
	for i := 0; i < 10 && !ok; i++ {
		if !bounded(slack, func() { ok = create() == nil }) {
			hung(M{"in": "create"})
		}
	}
	if !ok {
		rec.Ev(M{"ev": "NoHandle"})
		return
	}
	go func() {
		consume()
		close(consumeRet)
	}()
	appStop := make(chan struct{})
	slow := time.Duration(s.num("slow", 0)) * time.Microsecond
	appDone := make(chan struct{})
	go func() { // the application
		defer close(appDone)
		for {
			select {
			case <-appStop:
				return
			default:
			}
			r.gate.Lock()
			select {
			case m := <-ch:
				r.deliver(m)
				if slow > 0 && r.more.Load() {
					time.Sleep(slow)
				}
			case <-time.After(3 * time.Millisecond):
			}
			r.gate.Unlock()
		}
	}()
	fin := map[string]int64{}
	for _, ox := range s.list("ops") {
		op := ox.(map[string]any)
		arg := int(toI64(orZero(op["arg"])))
		p := int(toI64(orZero(op["p"]))) % nparts
		switch op["op"] {
		case "append":
			r.store(p, r.g.batch(pname(int32(p)), op["b"].(map[string]any)))
		case "trim": // retention: the log now starts arg percent further
			c.mu.Lock()
			pt := r.part(p)
			nlo := pt.Start + (pt.HW-pt.Start)*int64(arg)/100
			pt.Start = nlo
			var l []*Batch
			for _, b := range pt.Batches {
				if b.Last >= nlo {
					l = append(l, b)
				}
			}
			pt.Batches = l
			rec.Ev(M{"ev": "Trim", "p": pname(int32(p)), "lo": r.rel(nlo)})
			c.mu.Unlock()
		case "move":
			c.mu.Lock()
			pt := r.part(p)
			c.Move(pt, arg)
			rec.Ev(M{"ev": "Env", "op": "move"})
			c.mu.Unlock()
			c.Wake()
		case "epoch": // a topic made anew counts its leaders from the beginning
			c.mu.Lock()
			r.part(p).Epoch = 0
			rec.Ev(M{"ev": "Env", "op": "epoch"})
			c.mu.Unlock()
		case "coord":
			c.mu.Lock()
			g := c.group("grp")
			g.Coord = g.Coord%int32(len(c.nodes)) + 1
			rec.Ev(M{"ev": "Env", "op": "coord"})
			c.mu.Unlock()
		case "kill": // a node goes down; its partitions get another leader
			rec.Ev(M{"ev": "Env", "op": "kill"})
			n := int32(arg%len(c.nodes) + 1)
			c.SetDown(n, true)
			c.mu.Lock()
			for i := 0; i < nparts; i++ {
				pt := r.part(i)
				if pt.Leader == n {
					pt.Leader = n%int32(len(c.nodes)) + 1
					pt.Epoch++
				}
			}
			if g := c.group("grp"); g.Coord == n {
				g.Coord = n%int32(len(c.nodes)) + 1
			}
			c.mu.Unlock()
		case "down":
			rec.Ev(M{"ev": "Env", "op": "down"})
			c.SetDown(int32(arg%len(c.nodes)+1), arg%2 == 0)
		case "up":
			for i := range c.nodes {
				c.SetUp(i)
			}
			rec.Ev(M{"ev": "Env", "op": "up"})
		case "drop", "rst":
			rec.Ev(M{"ev": "Env", "op": op["op"]})
			c.DropConns(0, op["op"] == "rst")
		case "pause":
			r.gate.Lock()
			rec.Ev(M{"ev": "Pause"})
			time.Sleep(time.Duration(arg) * time.Millisecond)
			rec.Ev(M{"ev": "Resume"})
			r.gate.Unlock()
		case "commit":
			var wg sync.WaitGroup
			for _, f := range commits {
				for i := 0; i < 2; i++ {
					wg.Add(1)
					go func(f func()) { defer wg.Done(); f() }(f)
				}
			}
			if !bounded(slack, wg.Wait) {
				hung(M{"in": "commit"})
			}
		case "take": // wait for some deliveries
			r.mu.Lock()
			n := r.nDel + arg
			r.mu.Unlock()
			waitFor(300*time.Millisecond, func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.nDel >= n })
		case "sleep":
			time.Sleep(time.Duration(arg) * time.Millisecond)
		}
	}
	fair := false
	if s.flag("drain") {
		c.mu.Lock()
		c.rules = nil
		c.mu.Unlock()
		for i := range c.nodes {
			c.SetUp(i)
		}
		rec.Ev(M{"ev": "Healthy"})
		select {
		case <-consumeRet:
		case <-time.After(slack):
			hung(M{"in": "consume"})
		}
		// everyone has to be past the lookups before the last batch arrives
		// for a reader of "latest" to be sure to see it
		time.Sleep(30 * time.Millisecond)
		for k := 0; k < nparts; k++ {
			b := r.g.batch(pname(int32(k)), map[string]any{"m": 2, "n": 1, "k": 2, "v": 2})
			if s.num("fetchver", -1) == 0 {
				b = r.g.batch(pname(int32(k)), map[string]any{"m": 0, "n": 1, "k": 2, "v": 2})
			}
			if mine[pname(int32(k))] {
				fin[pname(int32(k))] = b.Last
			}
			r.store(k, b)
		}
		waitFor(12*time.Second, func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			for k, v := range fin {
				if l, ok := r.last[k]; !ok || l < v {
					return false
				}
			}
			return true
		})
		rec.Ev(M{"ev": "End"})
		fair = true
		if r.group != "" && cfg.AutoCommit {
			waitFor(5*time.Second, func() bool {
				for i := 0; i < nparts; i++ {
					if !mine[pname(int32(i))] {
						continue
					}
					if r.committed(int32(i)) < r.rel(fin[pname(int32(i))])+1 {
						return false
					}
				}
				return true
			})
			for i := 0; i < nparts; i++ {
				if !mine[pname(int32(i))] {
					continue
				}
				rec.Ev(M{"ev": "Settled", "p": pname(int32(i)), "c": r.committed(int32(i))})
			}
		}
		// a little more before the stop, not yet committed
		if s.flag("more") {
			r.more.Store(true)
			for k := 0; k < nparts; k++ {
				m := 2
				if s.num("fetchver", -1) == 0 {
					m = 0
				}
				r.store(k, r.g.batch(pname(int32(k)), map[string]any{"m": m, "n": s.num("moren", 3), "k": 2, "v": 2}))
			}
			time.Sleep(time.Duration(s.num("moresleep", 5)) * time.Millisecond)
		}
	}
	paused := s.flag("stoppaused")
	if paused {
		r.gate.Lock()
		rec.Ev(M{"ev": "Pause"})
		time.Sleep(15 * time.Millisecond)
	}
	rec.Ev(M{"ev": "Stop"})
	if !bounded(slack, stop) {
		hung(M{"in": "stop"})
	}
	rec.Ev(M{"ev": "Stopped"})
	if paused {
		rec.Ev(M{"ev": "Resume"})
		r.gate.Unlock()
	}
	select {
	case <-consumeRet:
	case <-time.After(slack):
		hung(M{"in": "consume"})
	}
	close(appStop)
	<-appDone
	for done := false; !done; { // what the channel still holds was handed over before
		select {
		case m := <-ch:
			r.deliver(m)
		default:
			done = true
		}
	}
	var ks []string
	for i := 0; i < nparts; i++ {
		ks = append(ks, pname(int32(i)))
	}
	sort.Strings(ks)
	for i := range ks {
		if !mine[pname(int32(i))] {
			continue
		}
		rec.Ev(M{"ev": "Final", "p": pname(int32(i)), "c": r.committed(int32(i)), "fair": fair})
	}
	time.Sleep(15 * time.Millisecond)
	rec.Ev(M{"ev": "Quiet"})
	end := time.Now().Add(time.Duration(s.num("quiet", 60)) * time.Millisecond)
	for time.Now().Before(end) {
		select {
		case m := <-ch:
			r.deliver(m)
		case <-time.After(5 * time.Millisecond):
		}
	}
	rec.Ev(M{"ev": "Done"})
}
