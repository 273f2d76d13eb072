package main

// Driver "config": clients of every kind, each with a configuration of its own
// given as a map or a struct, side by side in one process; every client has a
// cluster of its own, so every request is known to be its.  Bears on K01.

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["config"] = drvConfig }

type kclient struct {
	name, kind string
	c          *Cluster
	t          *Topic
	opts       map[string]any

	mu      sync.Mutex
	stall   string // the next request of this kind is left unanswered
	stalled chan struct{}
	counts  map[string]int
	recs    int
	failN   int // coordinator lookups to be refused
	lastBad time.Time

	given any // the configuration handed over
	was   any

	prod  adder
	stop  func()
	bs    *healer.Brokers
	write chan struct{}
	off   int64
}

func (k *kclient) n(api string) int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.counts[api]
}

func (k *kclient) onReq(q *Req) {
	k.mu.Lock()
	k.counts[q.Name]++
	k.mu.Unlock()
	num := func(f string) any {
		if v, ok := q.Body[f]; ok && v != nil {
			return v
		}
		return -9
	}
	ev := M{"ev": "Req", "c": k.name, "api": q.Name, "client": q.Client, "group": "-", "session": -9, "wait": -9, "min": -9, "max": -9, "pmax": -9,
		"acks": -9, "tmo": -9, "codec": -9, "cnt": 0, "mech": "-", "auth": "-", "ts": "-"}
	switch q.Name {
	case "FindCoordinator":
		ev["group"] = q.Body["key"]
		if ev["group"] == nil {
			ev["group"] = q.Body["group"]
		}
	case "JoinGroup":
		ev["group"], ev["session"] = q.Body["group"], num("session_timeout")
	case "SyncGroup", "Heartbeat", "LeaveGroup", "OffsetCommit", "OffsetFetch":
		ev["group"] = q.Body["group"]
	case "Fetch":
		ev["wait"], ev["min"], ev["max"] = num("max_wait"), num("min_bytes"), num("max_bytes")
		for _, t := range listOf(q.Body["topics"]) {
			for _, p := range listOf(t.(M)["partitions"]) {
				ev["pmax"] = p.(M)["max_bytes"]
			}
		}
	case "ListOffsets":
		for _, t := range listOf(q.Body["topics"]) {
			for _, p := range listOf(t.(M)["partitions"]) {
				ev["ts"] = fmt.Sprint(p.(M)["timestamp"])
			}
		}
	case "Produce":
		ev["acks"], ev["tmo"] = num("acks"), num("timeout")
		for _, t := range listOf(q.Body["topics"]) {
			for _, p := range listOf(t.(M)["partitions"]) {
				raw, _ := p.(M)["records"].([]byte)
				for _, b := range decodeBatches(raw) {
					ev["codec"], ev["cnt"] = int(b.Attr)&7, len(b.Recs)
					k.mu.Lock()
					k.recs += len(b.Recs)
					k.mu.Unlock()
				}
			}
		}
	case "SaslHandshake":
		ev["mech"] = q.Body["mechanism"]
	case "SaslAuthenticate":
		a, _ := q.Body["auth"].([]byte)
		ev["auth"] = strings.ReplaceAll(string(a), "\x00", "|")
	}
	rec.Ev(ev)
}

func listOf(x any) []any {
	l, _ := x.([]any)
	return l
}

func (k *kclient) respond(q *Req, s *sconn, _ int16) (M, bool, bool) {
	k.mu.Lock()
	if k.stall == q.Name && q.Name != "" {
		k.stall = ""
		done := k.stalled
		k.mu.Unlock()
		t0 := time.Now()
		select {
		case <-s.dead:
			rec.Ev(M{"ev": "GaveUp", "c": k.name, "api": q.Name, "ms": int(time.Since(t0).Milliseconds()), "lag": int(lagMax.Load())})
		case <-time.After(9 * time.Second):
			rec.Ev(M{"ev": "GaveUp", "c": k.name, "api": q.Name, "ms": 9000, "lag": int(lagMax.Load())})
		case <-k.c.done:
		}
		close(done)
		return nil, false, true
	}
	if q.Name == "FindCoordinator" && k.failN > 0 {
		k.failN--
		now := time.Now()
		if !k.lastBad.IsZero() {
			rec.Ev(M{"ev": "Retry", "c": k.name, "ms": int(now.Sub(k.lastBad).Milliseconds()), "lag": int(lagMax.Load())})
		}
		k.mu.Unlock()
		k.mu.Lock()
		k.lastBad = time.Now()
		k.mu.Unlock()
		return M{"error": 15, "node_id": -1, "host": "", "port": -1}, true, true
	}
	k.mu.Unlock()
	if q.Name == "ListGroups" {
		return M{"throttle": 0, "error": 0, "groups": []any{}}, true, true
	}
	return nil, false, false
}

// nest turns dotted names of the nested parts into nested maps.
func nest(o map[string]any, conv func(any) any) map[string]any {
	r := map[string]any{}
	for k, v := range o {
		done := false
		for _, part := range []string{"net", "sasl"} {
			if strings.HasPrefix(k, part+".") {
				m, _ := r[part].(map[string]any)
				if m == nil {
					m = map[string]any{}
					r[part] = m
				}
				m[strings.TrimPrefix(k, part+".")] = conv(v)
				done = true
			}
		}
		if !done {
			r[k] = conv(v)
		}
	}
	return r
}

func native(v any) any {
	if f, ok := v.(float64); ok {
		return int(f)
	}
	return v
}

func asText(v any) any {
	switch x := v.(type) {
	case float64:
		return fmt.Sprint(int64(x))
	case bool:
		return fmt.Sprint(x)
	}
	return v
}

// setFields fills a struct through the names of its json tags.
func setFields(v reflect.Value, o map[string]any) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		name := strings.Split(t.Field(i).Tag.Get("json"), ",")[0]
		f := v.Field(i)
		if f.Kind() == reflect.Struct {
			if m, ok := o[name].(map[string]any); ok {
				setFields(f, m)
			}
			continue
		}
		x, ok := o[name]
		if !ok {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(fmt.Sprint(x))
		case reflect.Bool:
			f.SetBool(x == true)
		case reflect.Slice:
			var l []int
			for _, y := range listOf(x) {
				l = append(l, int(toI64(y)))
			}
			f.Set(reflect.ValueOf(l))
		default:
			f.SetInt(toI64(x))
		}
	}
}

func (k *kclient) config(form string) any {
	o := map[string]any{"bootstrap.servers": k.c.Bootstrap()}
	for n, v := range k.opts {
		if n == "eachapi" { // timeouts of single apis: [api, ms]
			l := make([]any, 68)
			for i := range l {
				l[i] = float64(0)
			}
			for _, x := range listOf(v) {
				p := listOf(x)
				l[toI64(p[0])] = p[1]
			}
			n, v = "net.timeout.ms.for.eachapi", l
		}
		if n == "shortapi" {
			n, v = "net.timeout.ms.for.eachapi", []any{v}
		}
		if v == "$none" {
			delete(o, n)
			continue
		}
		o[n] = v
	}
	switch form {
	case "map":
		return nest(o, native)
	case "str":
		return nest(o, asText)
	case "json":
		b, _ := json.Marshal(nest(o, func(v any) any { return v }))
		var m map[string]interface{}
		json.Unmarshal(b, &m)
		return m
	case "int":
		return 7
	case "nil":
		return nil
	case "list":
		return []string{"bootstrap.servers", k.c.Bootstrap()}
	}
	m := nest(o, func(v any) any { return v })
	if k.kind == "producer" || k.kind == "sproducer" {
		cfg := healer.DefaultProducerConfig()
		setFields(reflect.ValueOf(&cfg).Elem(), m)
		if o["bootstrap.servers"] == nil {
			cfg.BootstrapServers = ""
		}
		if form == "ptr" {
			return &cfg
		}
		return cfg
	}
	if k.kind == "brokers" {
		cfg := healer.DefaultBrokerConfig()
		setFields(reflect.ValueOf(cfg).Elem(), m)
		return cfg
	}
	cfg := healer.DefaultConsumerConfig()
	setFields(reflect.ValueOf(&cfg).Elem(), m)
	if form == "ptr" {
		return &cfg
	}
	return cfg
}

// freeze is a deep copy.
func freeze(v any) any {
	switch x := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[k] = freeze(e)
		}
		return r
	case []any:
		r := make([]any, len(x))
		for i := range x {
			r[i] = freeze(x[i])
		}
		return r
	case healer.ConsumerConfig:
		x.Net.TimeoutMSForEachAPI = append([]int{}, x.Net.TimeoutMSForEachAPI...)
		return x
	case healer.ProducerConfig:
		x.Net.TimeoutMSForEachAPI = append([]int{}, x.Net.TimeoutMSForEachAPI...)
		return x
	case *healer.BrokerConfig:
		y := *x
		y.Net.TimeoutMSForEachAPI = append([]int{}, y.Net.TimeoutMSForEachAPI...)
		return y
	}
	return v
}

func (k *kclient) same() bool {
	return reflect.DeepEqual(freeze(k.given), k.was)
}

func (k *kclient) create(st map[string]any) {
	form := st["form"].(string)
	k.given = k.config(form)
	k.was = freeze(k.given)
	if f, ok := st["fail"]; ok {
		k.failN = int(toI64(f))
	}
	garbage := false
	for _, v := range k.opts {
		garbage = garbage || v == "abc" || v == "12x"
	}
	rec.Ev(M{"ev": "New", "c": k.name, "kind": k.kind, "form": form, "opts": k.opts, "garbage": garbage})
	var err error
	if !bounded(15*time.Second, func() { err = k.open() }) {
		hung(M{"what": "new", "c": k.name})
	}
	rec.Ev(M{"ev": "NewRet", "c": k.name, "ok": err == nil})
	if err != nil && st["bad"] != true {
		rec.Ev(M{"ev": "Note", "c": k.name, "err": fmt.Sprint(err)})
	}
	rec.Ev(M{"ev": "Same", "c": k.name, "same": k.same()})
}

func (k *kclient) open() error {
	ch := make(chan *healer.FullMessage, 10)
	drain := func() {
		for range ch {
		}
	}
	switch k.kind {
	case "simple":
		s, err := healer.NewSimpleConsumer("topic-a", 0, k.given)
		if err != nil {
			return err
		}
		go drain()
		if _, err := s.Consume(-2, ch); err != nil {
			return err
		}
		k.stop = s.Stop
	case "group":
		g, err := healer.NewGroupConsumer("topic-a", k.given)
		if err != nil {
			return err
		}
		go drain()
		if _, err := g.Consume(ch); err != nil {
			return err
		}
		k.stop = g.Close
	case "consumer":
		m, err := healer.NewConsumer(k.given, "topic-a")
		if err != nil {
			return err
		}
		go drain()
		if _, err := m.Consume(ch); err != nil {
			return err
		}
		k.stop = func() { m.AwaitClose(10 * time.Second) }
	case "producer":
		p, err := healer.NewProducer("topic-a", k.given)
		if err != nil {
			return err
		}
		k.prod, k.stop = p, p.Close
	case "sproducer":
		p, err := healer.NewSimpleProducer(context.Background(), "topic-a", 0, k.given)
		if err != nil {
			return err
		}
		k.prod, k.stop = p, p.Close
	case "brokers":
		b, err := healer.NewBrokersWithConfig(k.c.Bootstrap(), k.given.(*healer.BrokerConfig))
		if err != nil {
			return err
		}
		k.bs, k.stop = b, b.Close
	}
	return nil
}

func (k *kclient) append1() {
	b := &Batch{Magic: 2, Base: k.off, Last: k.off, Recs: []Rec{{Off: k.off, Key: []byte("k"), Val: []byte("v")}}}
	k.off++
	k.c.Append(k.t, 0, b)
}

func drvConfig(s *Script) {
	cl := map[string]*kclient{}
	var order []*kclient
	for _, x := range s.list("steps") {
		st := x.(map[string]any)
		name, _ := st["c"].(string)
		k := cl[name]
		switch st["op"] {
		case "new":
			if k != nil {
				continue
			}
			k = &kclient{name: name, kind: st["kind"].(string), c: NewCluster(1), counts: map[string]int{}, opts: map[string]any{}, write: make(chan struct{})}
			if o, ok := st["opts"].(map[string]any); ok {
				k.opts = o
			}
			k.t = k.c.AddTopic("topic-a", []int32{1})
			k.append1()
			k.append1()
			k.c.onReq, k.c.respond = k.onReq, k.respond
			cl[name] = k
			order = append(order, k)
			k.create(st)
			if k.stop != nil && (k.kind == "simple" || k.kind == "group" || k.kind == "consumer") {
				go func() {
					for {
						select {
						case <-k.write:
							return
						case <-time.After(40 * time.Millisecond):
							k.append1()
						}
					}
				}()
			}
		case "send":
			if k == nil || k.prod == nil {
				continue
			}
			n := int(toI64(st["n"]))
			k.mu.Lock()
			base := k.recs
			k.mu.Unlock()
			rec.Ev(M{"ev": "Send", "c": name, "n": n})
			var last atomic.Value
			if !bounded(20*time.Second, func() {
				for i := 0; i < n; i++ {
					k.prod.AddMessage(nil, []byte(fmt.Sprint("m", i)))
				}
				last.Store(time.Now())
			}) {
				hung(M{"what": "send", "c": name})
			}
			t0 := last.Load().(time.Time)
			waitFor(5*time.Second, func() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.recs >= base+n })
			k.mu.Lock()
			got := k.recs - base
			k.mu.Unlock()
			rec.Ev(M{"ev": "Sent", "c": name, "n": n, "got": got, "ms": int(time.Since(t0).Milliseconds()), "lag": int(lagMax.Load())})
		case "drip":
			if k == nil || k.prod == nil {
				continue
			}
			before, n := k.n("Produce"), 0
			k.mu.Lock()
			base := k.recs
			k.mu.Unlock()
			t0 := time.Now()
			for time.Since(t0) < time.Duration(toI64(st["ms"]))*time.Millisecond {
				k.prod.AddMessage(nil, []byte(fmt.Sprint("d", n)))
				n++
				time.Sleep(10 * time.Millisecond)
			}
			rec.Ev(M{"ev": "Drip", "c": name, "n": n, "reqs": k.n("Produce") - before, "ms": int(time.Since(t0).Milliseconds()), "lag": int(lagMax.Load())})
			// the rest of it belongs to this step
			waitFor(5*time.Second, func() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.recs >= base+n })
		case "watch":
			type cnt struct{ m, h, o int }
			was := map[string]cnt{}
			t0 := time.Now()
			for _, k := range order {
				was[k.name] = cnt{k.n("Metadata"), k.n("Heartbeat"), k.n("OffsetCommit")}
			}
			time.Sleep(time.Duration(toI64(st["ms"])) * time.Millisecond)
			for _, k := range order {
				if k.stop == nil {
					continue
				}
				w := was[k.name]
				rec.Ev(M{"ev": "Watch", "c": k.name, "ms": int(time.Since(t0).Milliseconds()), "meta": k.n("Metadata") - w.m, "hb": k.n("Heartbeat") - w.h,
					"commit": k.n("OffsetCommit") - w.o, "lag": int(lagMax.Load())})
			}
		case "stall":
			if k == nil || k.stop == nil {
				continue
			}
			api := st["api"].(string)
			done := make(chan struct{})
			k.mu.Lock()
			k.stall, k.stalled = api, done
			k.mu.Unlock()
			if k.prod != nil && api == "Produce" {
				go k.prod.AddMessage(nil, []byte("stall"))
			}
			if k.bs != nil {
				go func() {
					if api == "ListGroups" {
						if b, err := k.bs.GetBroker(1); err == nil {
							b.RequestListGroups("v")
						}
					} else {
						k.bs.RequestMetaData("v", []string{"topic-a"})
					}
				}()
			}
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				k.mu.Lock()
				k.stall = ""
				k.mu.Unlock()
				rec.Ev(M{"ev": "NoStall", "c": name, "api": api})
			}
			time.Sleep(300 * time.Millisecond)
		case "close":
			if k == nil || k.stop == nil {
				continue
			}
			close(k.write)
			f := k.stop
			k.stop, k.prod, k.bs = nil, nil, nil
			rec.Ev(M{"ev": "Closing", "c": name})
			if !bounded(15*time.Second, f) {
				hung(M{"what": "close", "c": name})
			}
			rec.Ev(M{"ev": "Same", "c": name, "same": k.same()})
		case "sleep":
			time.Sleep(time.Duration(toI64(st["ms"])) * time.Millisecond)
		}
	}
	for _, k := range order {
		rec.Ev(M{"ev": "Same", "c": k.name, "same": k.same()})
	}
	rec.Ev(M{"ev": "End"})
	rec.Seal()
}
