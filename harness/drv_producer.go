package main

// Driver "producer": a SimpleProducer or a Producer with concurrent callers,
// against brokers that fail, move leadership and go down.  Bears on P01..P04.

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["producer"] = drvProducer }

// murmur2 is the hash with seed 0, written from its definition.
func murmur2(b []byte) uint32 {
	const m, r = 0x5bd1e995, 24
	h := uint32(len(b))
	for len(b) >= 4 {
		k := binary.LittleEndian.Uint32(b) * m
		k ^= k >> r
		h = h*m ^ k*m
		b = b[4:]
	}
	switch len(b) {
	case 3:
		h ^= uint32(b[2]) << 16
		fallthrough
	case 2:
		h ^= uint32(b[1]) << 8
		fallthrough
	case 1:
		h = (h ^ uint32(b[0])) * m
	}
	h ^= h >> 13
	h *= m
	h ^= h >> 15
	return h
}

func kvDigest(k, v []byte) string {
	return bstr(k) + "|" + bstr(v)
}

type adder interface {
	AddMessage(key, value []byte) error
	Close()
}

var errCodecs = map[string]int{"none": 0, "gzip": 1, "snappy": 2, "lz4": 3}

func drvProducer(s *Script) {
	nparts := s.num("parts", 1)
	c := NewCluster(s.num("nodes", 2))
	topic := s.str("topic", "topic-a")
	if s.flag("longtopic") {
		topic = ""
		for len(topic) < 200 {
			topic += "abcdefghij"
		}
	}
	var leaders []int32
	for i := 0; i < nparts; i++ {
		leaders = append(leaders, int32((i*s.num("spread", 1))%len(c.nodes)+1))
	}
	if s.flag("zero") {
		c.idShift = -1
	}
	t := c.AddTopic(topic, leaders)
	c.AddTopic("topic-b", []int32{1})
	if x := s.num("prodver", -1); x >= 0 {
		for _, a := range c.apis {
			if toI64(a["key"]) == 0 {
				a["max"] = int64(x)
			}
		}
	}
	simple := s.str("mode", "simple") == "simple"
	only := s.num("only", 0)
	tmo := s.num("timeout", 300)
	for _, x := range s.Rules {
		if x.Act == "late" {
			x.Arg = tmo + 150
		}
	}
	var metaOK int64
	produced := int64(0)
	c.onReq = func(q *Req) {
		if q.Name != "Produce" {
			return
		}
		atomic.AddInt64(&produced, 1)
		ev := M{"ev": "Produce", "n": q.Node, "p": -1, "recs": []any{}, "bad": []any{}, "cnt": 0, "last": 0, "base": 0, "deltas": []any{}, "attr": 0,
			"acks": q.Body["acks"], "tmo": q.Body["timeout"], "mine": true}
		var bad []any
		if q.DecErr != "" {
			bad = append(bad, "request: "+q.DecErr)
		}
		if q.Body["transactional_id"] != nil {
			bad = append(bad, "transactional id")
		}
		n := 0
		recs, deltas := []any{}, []any{}
		tl, _ := q.Body["topics"].([]any)
		for _, tx := range tl {
			tm := tx.(M)
			if tm["name"] != topic {
				ev["mine"] = false
			}
			pl, _ := tm["partitions"].([]any)
			for _, px := range pl {
				pm := px.(M)
				n++
				ev["p"] = pm["index"]
				raw, _ := pm["records"].([]byte)
				bl := decodeBatches(raw)
				if len(bl) != 1 {
					bad = append(bad, fmt.Sprintf("%d batches", len(bl)))
				}
				for _, b := range bl {
					for _, x := range b.Problems {
						bad = append(bad, x)
					}
					ev["cnt"], ev["last"], ev["base"], ev["attr"] = b.Count, b.LastDelta, b.Base, b.Attr
					for i, x := range b.Recs {
						recs = append(recs, kvDigest(x.Key, x.Val))
						deltas = append(deltas, b.Deltas[i])
						if d := time.Now().UnixMilli() - x.Ts; d > 120000 || d < -120000 {
							bad = append(bad, "timestamp")
						}
						if len(x.Hdrs) > 0 {
							bad = append(bad, "headers")
						}
					}
				}
			}
		}
		if n != 1 {
			bad = append(bad, fmt.Sprintf("%d partitions", n))
		}
		ev["recs"], ev["deltas"] = recs, deltas
		if bad != nil {
			ev["bad"] = bad
		}
		rec.Ev(ev)
	}
	partOf := func(q *Req) any {
		var p any = -1
		eachPart(q.Body, "topics", func(_ string, pm M) { p = pm["index"] })
		return p
	}
	c.onRule = func(q *Req, r *Rule) {
		if q.Name == "Produce" {
			switch r.Act {
			case "drop", "rst", "stall", "late", "cut", "cutstall", "cutrst":
				rec.Ev(M{"ev": "Lost", "p": partOf(q)})
			case "thenclose": // the next request will find the connection gone
				rec.Ev(M{"ev": "Trouble"})
			}
		}
	}
	c.onResp = func(q *Req, body M, frame []byte, act string) {
		switch q.Name {
		case "Produce":
			if act == "" || act == "seg" || act == "thenclose" || act == "err" {
				eachPart(body, "responses", func(_ string, pm M) {
					rec.Ev(M{"ev": "Answer", "p": pm["index"], "code": pm["error"]})
				})
			}
		case "Metadata":
			if l, ok := q.Body["topics"].([]any); ok && len(l) == 1 && act == "" {
				atomic.AddInt64(&metaOK, 1)
			}
		}
	}
	for i := range t.Parts {
		rec.Ev(M{"ev": "Leader", "p": i, "n": t.Parts[i].Leader})
	}
	trouble := func() { rec.Ev(M{"ev": "Trouble"}) }
	for _, x := range s.list("badparts") {
		trouble()
		p := t.Parts[int(toI64(x))%nparts]
		if nparts > 1 && p.ID != 0 {
			p.Err, p.Leader = 5, -1
		}
	}
	if s.flag("trouble") {
		trouble()
	}
	c.mu.Lock()
	c.rules = s.Rules
	c.mu.Unlock()

	cfg := healer.DefaultProducerConfig()
	cfg.BootstrapServers = c.Bootstrap()
	cfg.ClientID = s.str("client", "v")
	cfg.Net.TimeoutMS = tmo
	cfg.Net.ConnectTimeoutMS = 2000
	cfg.Acks = int16(s.num("acks", -1))
	cfg.CompressionType = s.str("codec", "none")
	cfg.MessageMaxCount = s.num("max", 3)
	interval := s.num("interval", 100000)
	cfg.FlushIntervalMS = interval
	cfg.MetadataMaxAgeMS = s.num("age", 100000)
	cfg.RequestTimeoutMS = int32(s.num("reqtmo", 1500))
	cfg.RetryBackOffMS = 20
	slack := 20*time.Second + 20*time.Duration(tmo)*time.Millisecond

	rec.Ev(M{"ev": "Begin"})
	var a adder
	var sp *healer.SimpleProducer
	create := func() error {
		if simple {
			x, err := healer.NewSimpleProducer(context.Background(), topic, int32(only), cfg)
			a, sp = x, x
			return err
		}
		x, err := healer.NewProducer(topic, cfg)
		a = x
		return err
	}
	ok := false
	for i := 0; i < 10 && !ok; i++ {
		if !bounded(slack, func() { ok = create() == nil }) {
			hung(M{"in": "create"})
		}
	}
	if !ok {
		rec.Ev(M{"ev": "NoHandle"})
		return
	}

	var seq int64
	verdict := func(err error) string {
		if err == nil {
			return "ok"
		}
		if errors.Is(err, healer.ErrProducerClosed) {
			return "closed"
		}
		return "err"
	}
	uniq := s.flag("uniq")
	add := func(cn string, kbuf, vbuf []byte, op map[string]any) {
		n := atomic.AddInt64(&seq, 1)
		num := func(k string) int { return int(toI64(orZero(op[k]))) }
		var key, val []byte
		switch num("kc") {
		case -1:
		case 100:
			key = []byte(fmt.Sprintf("key-%d", num("k")))
		default:
			key = genField(num("kc"), int64(num("k")))
		}
		val = genField(num("vc"), int64(num("k"))*7+n)
		if uniq {
			val = append([]byte(fmt.Sprintf("%s.%d:", cn, n)), val...)
		}
		d := kvDigest(key, val)
		h := murmur2(key)
		// the caller's own buffers, used again for the next message
		k2, v2 := key, val
		if key != nil && len(key) <= len(kbuf) {
			k2 = kbuf[:copy(kbuf, key)]
		}
		if val != nil && len(val) <= len(vbuf) {
			v2 = vbuf[:copy(vbuf, val)]
		}
		rec.Ev(M{"ev": "Add", "c": cn, "d": d, "keyed": key != nil, "hh": h >> 16, "hl": h & 0xffff})
		err := a.AddMessage(k2, v2)
		rec.Ev(M{"ev": "Ret", "c": cn, "r": verdict(err)})
		for i := range k2 {
			k2[i] = 0xEE
		}
		for i := range v2 {
			v2[i] = 0xEE
		}
	}
	var wg sync.WaitGroup
	run := func(cn string, ops []any) {
		defer wg.Done()
		kbuf, vbuf := make([]byte, 4096), make([]byte, 4096)
		for _, ox := range ops {
			op := ox.(map[string]any)
			arg := int(toI64(orZero(op["arg"])))
			switch op["op"] {
			case "add":
				add(cn, kbuf, vbuf, op)
			case "flush":
				if sp != nil {
					rec.Ev(M{"ev": "Flush", "c": cn})
					err := sp.Flush()
					rec.Ev(M{"ev": "FlushRet", "c": cn, "r": verdict(err)})
				}
			case "close":
				rec.Ev(M{"ev": "Close", "c": cn})
				a.Close()
				rec.Ev(M{"ev": "CloseRet", "c": cn})
			case "sleep":
				time.Sleep(time.Duration(arg) * time.Millisecond)
			case "move":
				trouble()
				c.mu.Lock()
				p := t.Parts[arg%nparts]
				if p.Leader > 0 {
					p.Leader = p.Leader%int32(len(c.nodes)) + 1
					p.Epoch++
				}
				rec.Ev(M{"ev": "Leader", "p": p.ID, "n": p.Leader})
				c.mu.Unlock()
			case "refresh": // every refresh under way is through, and a whole one after it
				n := atomic.LoadInt64(&metaOK)
				if waitFor(8*time.Second, func() bool { return atomic.LoadInt64(&metaOK) >= n+9 }) {
					rec.Ev(M{"ev": "Refreshed"})
					rec.Ev(M{"ev": "Calm"})
				} else {
					rec.Ev(M{"ev": "Env", "op": "norefresh"})
				}
			case "drop":
				trouble()
				c.DropConns(0, arg%2 == 1)
			case "down":
				trouble()
				c.SetDown(int32(arg%len(c.nodes)+1), arg%2 == 1)
			case "up":
				for i := range c.nodes {
					c.SetUp(i)
				}
			}
		}
	}
	for i, x := range s.list("threads") {
		wg.Add(1)
		go run(fmt.Sprintf("c%d", i), x.([]any))
	}
	if !bounded(slack+30*time.Second, wg.Wait) {
		in := "add"
		if s.flag("closes") {
			in = "close"
		}
		hung(M{"in": in})
	}
	// afterwards, in order
	wg.Add(1)
	if !bounded(slack, func() { run("z", s.list("after")) }) {
		hung(M{"in": "add"})
	}
	settle := func(d time.Duration) {
		last, at := int64(-1), time.Now()
		for time.Since(at) < d {
			if n := atomic.LoadInt64(&produced); n != last {
				last, at = n, time.Now()
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	if interval < 1000 {
		// the timer gets all the time it needs
		settle(time.Duration(interval)*time.Millisecond + 300*time.Millisecond)
		rec.Ev(M{"ev": "End"})
	}
	if !s.flag("noclose") {
		wg.Add(1)
		if !bounded(slack, func() { run("z", []any{map[string]any{"op": "close"}}) }) {
			hung(M{"in": "close"})
		}
		if cfg.Acks == 0 { // nothing tells when a request has arrived
			settle(300 * time.Millisecond)
		}
		rec.Ev(M{"ev": "End"})
		time.Sleep(30 * time.Millisecond)
		rec.Ev(M{"ev": "Closed"})
		for i := 0; i < s.num("later", 2); i++ {
			wg.Add(1)
			if !bounded(slack, func() {
				run("z", []any{map[string]any{"op": "add", "kc": []any{-1, 100, 3}[i%3], "k": i, "vc": 2}, map[string]any{"op": "flush"}})
			}) {
				hung(M{"in": "add"})
			}
		}
		time.Sleep(time.Duration(s.num("quiet", 20)) * time.Millisecond)
		rec.Ev(M{"ev": "End"})
	}
	rec.Ev(M{"ev": "Done"})
}
