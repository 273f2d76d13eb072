package main

import (
	"context"
	"fmt"
	"net"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	healer "github.com/childe/healer"
)

// Handles are made, used and closed; at every moment at which none is left the
// sockets to the brokers that this process still holds are counted.

func init() { drivers["release"] = release }

// held counts the sockets of this process whose other end is a broker, also
// the ones that the broker has closed already.
func held(ports map[int]bool) int { return heldBy("self", ports) }

func heldBy(pid string, ports map[int]bool) int {
	mine := map[string]bool{}
	es, err := os.ReadDir("/proc/" + pid + "/fd")
	if err != nil {
		harnessFail("fds: %v", err)
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/" + pid + "/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			mine[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	n := 0
	ip := net.ParseIP(loopback).To4()
	v4 := fmt.Sprintf("%02X%02X%02X%02X", ip[3], ip[2], ip[1], ip[0])
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n")[1:] {
			w := strings.Fields(line)
			if len(w) < 10 || !mine[w[9]] {
				continue
			}
			i := strings.LastIndex(w[2], ":")
			port, err := strconv.ParseInt(w[2][i+1:], 16, 32)
			if err == nil && strings.HasSuffix(w[2][:i], v4) && ports[int(port)] {
				n++
			}
		}
	}
	return n
}

type rhandle struct {
	name, kind string
	use        func(M)
	close      func()
	consumed   chan struct{} // closed when Consume has come back
}

type releaseRun struct {
	s     *Script
	c     *Cluster
	ports map[int]bool
	open  map[string]*rhandle
	names int
}

func (r *releaseRun) net(timeout *int, connect *int) {
	*timeout, *connect = r.s.num("timeout", 400), 2000
}

func (r *releaseRun) sasl(c *healer.SaslConfig) {
	if r.s.flag("sasl") {
		c.Mechanism, c.User, c.Password = "PLAIN", "u", "p"
	}
}

func (r *releaseRun) consumerConfig(group bool) healer.ConsumerConfig {
	cfg := healer.DefaultConsumerConfig()
	cfg.BootstrapServers = r.boot()
	cfg.ClientID = "v"
	if group {
		cfg.GroupID = "grp"
	}
	r.net(&cfg.Net.TimeoutMS, &cfg.Net.ConnectTimeoutMS)
	r.sasl(&cfg.Sasl)
	cfg.RetryBackOffMS = 20
	cfg.FetchMaxWaitMS = int32(r.s.num("wait", 30))
	cfg.SessionTimeoutMS = 600
	cfg.MetadataMaxAgeMS = r.s.num("age", 60)
	cfg.FromBeginning = true
	cfg.AutoCommit = r.s.flag("auto")
	cfg.AutoCommitIntervalMS = 30
	cfg.OffsetsStorage = 1
	return cfg
}

func (r *releaseRun) producerConfig() healer.ProducerConfig {
	cfg := healer.DefaultProducerConfig()
	cfg.BootstrapServers = r.boot()
	cfg.ClientID = "v"
	r.net(&cfg.Net.TimeoutMS, &cfg.Net.ConnectTimeoutMS)
	r.sasl(&cfg.Sasl)
	cfg.Acks = int16(r.s.num("acks", 1))
	cfg.MessageMaxCount = r.s.num("max", 3)
	cfg.FlushIntervalMS = r.s.num("flush", 40)
	cfg.MetadataMaxAgeMS = r.s.num("age", 60)
	cfg.RequestTimeoutMS = 300
	cfg.RetryBackOffMS = 20
	return cfg
}

func (r *releaseRun) boot() string {
	b := r.c.Bootstrap()
	if r.s.flag("alias") { // another name for the same brokers
		b = strings.ReplaceAll(b, loopback, "[::ffff:"+loopback+"]")
	}
	return b
}

// drain takes messages until stop is closed.
func drain(ch <-chan *healer.FullMessage, got chan struct{}, stop chan struct{}) {
	for {
		select {
		case <-ch:
			select {
			case got <- struct{}{}:
			default:
			}
		case <-stop:
			return
		}
	}
}

func (r *releaseRun) make(kind string) (*rhandle, error) {
	h := &rhandle{kind: kind}
	topic := "topic-a"
	sleepy := func(args M) { time.Sleep(time.Duration(toI64(args["ms"])) * time.Millisecond) }
	switch kind {
	case "client":
		x, err := healer.NewClient(r.boot(), "v")
		if err != nil {
			return nil, err
		}
		h.close = x.Close
		h.use = func(a M) {
			switch toI64(a["what"]) {
			case 0:
				x.ListGroups()
			case 1:
				x.DescribeConfigs("broker", fmt.Sprint(toI64(a["n"])), []string{"x"})
			case 2:
				x.CreateTopic("new", 1, 1, 100)
			case 3:
				x.DeleteGroups([]string{"grp", "other"})
			case 4:
				x.DescribeLogDirs([]string{topic})
			case 5:
				x.DeleteTopics([]string{"new"}, 100)
			}
		}
	case "brokers":
		bc := healer.DefaultBrokerConfig()
		r.net(&bc.Net.TimeoutMS, &bc.Net.ConnectTimeoutMS)
		r.sasl(&bc.Sasl)
		x, err := healer.NewBrokersWithConfig(r.boot(), bc)
		if err != nil {
			return nil, err
		}
		h.close = x.Close
		h.use = func(a M) {
			switch toI64(a["what"]) {
			case 0:
				x.RequestOffsets("v", topic, int32(toI64(a["p"])), -1, 1)
			case 1:
				x.FindCoordinator("v", "grp")
			case 2:
				x.GetController()
			case 3:
				x.GetBroker(int32(toI64(a["n"])))
			case 4:
				x.GetBroker(77)
			case 5:
				x.RequestMetaData("v", []string{topic})
			}
		}
	case "simpleproducer", "producer":
		cfg := r.producerConfig()
		var add func(k, v []byte) error
		var flush func() error
		if kind == "producer" {
			x, err := healer.NewProducer(topic, cfg)
			if err != nil {
				return nil, err
			}
			add, flush, h.close = x.AddMessage, x.Flush, x.Close
		} else {
			x, err := healer.NewSimpleProducer(context.Background(), topic, int32(r.s.num("part", 0)), cfg)
			if err != nil {
				return nil, err
			}
			add, flush, h.close = x.AddMessage, x.Flush, x.Close
		}
		n := 0
		h.use = func(a M) {
			for i := 0; i < int(toI64(a["k"])); i++ {
				var key []byte
				if a["key"] == true {
					n++
					key = []byte(fmt.Sprintf("k%d", n))
				}
				add(key, []byte("value"))
			}
			if a["flush"] == true {
				flush()
			}
			sleepy(a)
		}
	case "simpleconsumer", "consumer", "group":
		ch := make(chan *healer.FullMessage, r.s.num("chan", 0))
		got, stop := make(chan struct{}, 1), make(chan struct{})
		var begin func()
		var end func()
		switch kind {
		case "simpleconsumer":
			x, err := healer.NewSimpleConsumer(topic, int32(r.s.num("part", 0)), r.consumerConfig(r.s.flag("grouped")))
			if err != nil {
				return nil, err
			}
			begin, end = func() { x.Consume(-2, ch) }, x.Stop
		case "consumer":
			x, err := healer.NewConsumer(r.consumerConfig(r.s.flag("grouped")), topic)
			if err != nil {
				return nil, err
			}
			begin, end = func() { x.Consume(ch) }, func() { x.AwaitClose(60 * time.Second) }
		default:
			x, err := healer.NewGroupConsumer(topic, r.consumerConfig(true))
			if err != nil {
				return nil, err
			}
			begin, end = func() { x.Consume(ch) }, x.Close
		}
		began := false
		h.consumed = make(chan struct{})
		go drain(ch, got, stop)
		h.use = func(a M) {
			if !began {
				began = true
				go func() { begin(); close(h.consumed) }()
			}
			select {
			case <-got:
			case <-time.After(time.Duration(toI64(a["ms"])) * time.Millisecond):
			}
		}
		h.close = func() {
			end()
			close(stop)
			if began {
				select {
				case <-h.consumed:
				case <-time.After(15 * time.Second):
				}
			}
		}
	default:
		harnessFail("handle %q", kind)
	}
	return h, nil
}

// rest: nobody is left, so nothing may be held
func (r *releaseRun) rest() {
	if len(r.open) > 0 {
		return
	}
	n := 0
	waitFor(3*time.Second+3*time.Duration(lagMax.Load()), func() bool { n = held(r.ports); return n == 0 })
	rec.Ev(M{"ev": "Rest", "held": n})
}

func release(s *Script) {
	debug.SetGCPercent(-1) // what nobody closes is not closed by the collector either
	debug.SetMemoryLimit(400 << 20)
	r := &releaseRun{s: s, ports: map[int]bool{}, open: map[string]*rhandle{}}
	c := NewCluster(s.num("nodes", 2))
	r.c = c
	for _, n := range c.nodes {
		r.ports[n.Port] = true
	}
	var leaders []int32
	for _, x := range s.list("leaders") {
		leaders = append(leaders, int32(toI64(x)))
	}
	t := c.AddTopic("topic-a", leaders)
	for i, p := range t.Parts {
		for k := 0; k < s.num("stored", 5); k++ {
			c.Append(t, i, &Batch{Magic: 2, Base: p.HW, Last: p.HW, Recs: []Rec{{Off: p.HW, Key: []byte("k"), Val: []byte("v")}}})
		}
	}
	c.group("grp").Coord = int32(s.num("coord", 1))
	var lastOpen atomic.Int64
	lastOpen.Store(time.Now().UnixNano())
	c.onConn = func(ev string, node int32, conn int) {
		if ev == "Open" {
			lastOpen.Store(time.Now().UnixNano())
			rec.Ev(M{"ev": "Open", "n": node})
		}
	}
	c.respond = func(q *Req, _ *sconn, errc int16) (M, bool, bool) {
		if k := s.num("empty", 0); q.Name == "Metadata" && k > 0 && q.Ordinal == k { // it knows nothing yet
			return M{}, true, true
		}
		switch q.Name {
		case "ListGroups", "DescribeConfigs", "CreateTopics", "DeleteTopics", "DeleteGroups", "DescribeLogDirs":
			return M{}, true, true
		}
		return nil, false, false
	}
	c.mu.Lock()
	c.rules = s.Rules
	c.mu.Unlock()
	for _, x := range s.list("ops") {
		o := x.(M)
		a, _ := o["a"].(M)
		switch o["op"].(string) {
		case "make":
			name := o["h"].(string)
			rec.Ev(M{"ev": "Make", "h": name, "kind": o["kind"]})
			var h *rhandle
			var err error
			if !bounded(12*time.Second, func() { h, err = r.make(o["kind"].(string)) }) {
				// it waits for a broker that is never coming: nothing was ever handed out
				rec.Ev(M{"ev": "Stuck"})
				return
			}
			rec.Ev(M{"ev": "Made", "h": name, "ok": err == nil})
			if err != nil {
				r.rest()
				continue
			}
			r.open[name] = h
		case "use":
			if h := r.open[o["h"].(string)]; h != nil {
				if !bounded(25*time.Second, func() { h.use(a) }) {
					rec.Ev(M{"ev": "Stuck"})
					return
				}
			}
		case "close":
			name := o["h"].(string)
			h := r.open[name]
			if h == nil {
				continue
			}
			times := 1
			if o["twice"] == true && h.kind != "simpleconsumer" && h.kind != "consumer" && h.kind != "group" {
				times = 2
			}
			for ; times > 0; times-- {
				if !bounded(40*time.Second, h.close) {
					rec.Ev(M{"ev": "Stuck"})
					return
				}
			}
			delete(r.open, name)
			rec.Ev(M{"ev": "Shut", "h": name})
			r.rest()
		case "move":
			c.mu.Lock()
			for i, p := range t.Parts {
				if a["all"] == true || i == int(toI64(a["i"]))%len(t.Parts) {
					if a["all"] == true { // away from where it is
						p.Leader = p.Leader%int32(len(c.nodes)) + 1
					} else {
						p.Leader = int32(toI64(a["n"]))
					}
					p.Epoch++
				}
			}
			c.mu.Unlock()
			c.Wake()
		case "coord":
			c.mu.Lock()
			c.group("grp").Coord = int32(toI64(a["n"]))
			c.mu.Unlock()
		case "drop":
			c.DropConns(int32(toI64(a["n"])), a["rst"] == true)
		case "down":
			c.SetDown(int32(toI64(a["n"])), true)
		case "up":
			c.SetUp(int32(toI64(a["n"])))
		case "wait":
			time.Sleep(time.Duration(toI64(a["ms"])) * time.Millisecond)
		}
	}
	// nobody comes back later: what was still on its way comes to an end
	if len(r.open) == 0 {
		calm := waitFor(6*time.Second+3*time.Duration(lagMax.Load()), func() bool {
			return time.Since(time.Unix(0, lastOpen.Load())) > time.Duration(s.num("after", 300))*time.Millisecond
		})
		n := 0
		waitFor(3*time.Second+3*time.Duration(lagMax.Load()), func() bool { n = held(r.ports); return n == 0 })
		rec.Ev(M{"ev": "Still", "held": n, "calm": calm})
	}
	rec.Ev(M{"ev": "End"})
	c.Close()
}
