package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["lookup"] = runLookup }

type lookup struct {
	c    *Cluster
	mu   sync.Mutex
	mode map[int32]string
	list []int32
	b    *healer.Brokers
	cfg  *healer.BrokerConfig
}

func (l *lookup) modeOf(n int32) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.mode[n]
}

func (l *lookup) respond(q *Req, s *sconn, _ int16) (M, bool, bool) {
	m := l.modeOf(q.Node)
	lookupAPI := q.Name == "Metadata" || q.Name == "FindCoordinator"
	stall := func() (M, bool, bool) { <-s.dead; return nil, false, true }
	drop := func() (M, bool, bool) { l.c.closeConn(s, q.Ordinal%2 == 0); return nil, false, true }
	switch {
	case m == "silent", m == "mute" && lookupAPI:
		return stall()
	case m == "closing", m == "drop" && lookupAPI:
		return drop()
	case m == "empty" && q.Name == "Metadata":
		return M{"brokers": []any{}, "cluster_id": nil, "controller_id": -1, "topics": []any{}}, true, true
	case (m == "empty" || m == "nocoord") && q.Name == "FindCoordinator":
		return M{"error": 15, "node_id": -1, "host": "", "port": -1}, true, true
	}
	if q.Name == "ListGroups" {
		return M{"throttle": 0, "error": 0, "groups": []any{}}, true, true
	}
	return nil, false, false
}

func runLookup(s *Script) {
	l := &lookup{mode: map[int32]string{}}
	c := NewCluster(0)
	l.c = c
	for _, x := range s.list("nodes") {
		id := int32(toI64(x))
		c.AddNode(id)
		l.mode[id] = "up"
	}
	c.controller = int32(s.num("ctl", 1))
	for _, x := range s.list("listed") {
		l.list = append(l.list, int32(toI64(x)))
	}
	c.brokersInMeta = func(int32) []int32 { return l.list }
	for i, x := range s.list("topics") {
		t := x.(map[string]any)
		tp := c.AddTopic(t["t"].(string), []int32{l.list[i%len(l.list)]})
		tp.Err = int16(toI64(t["code"]))
		tp.Parts[0].Err = int16(toI64(t["pcode"]))
	}
	for _, x := range s.list("groups") {
		g := x.(map[string]any)
		c.group(g["g"].(string)).Coord = int32(toI64(g["n"]))
	}
	c.onReq = func(q *Req) { rec.Ev(M{"ev": "Req", "n": q.Node, "api": q.Name}) }
	c.onResp = func(q *Req, body M, _ []byte, _ string) {
		e := M{"ev": "Ans", "n": q.Node, "api": q.Name, "code": 0, "node": 0, "ctl": 0, "brokers": []int64{}}
		switch q.Name {
		case "Metadata":
			bs := []int64{}
			for _, b := range body["brokers"].([]any) {
				bs = append(bs, toI64(b.(M)["node_id"]))
			}
			e["brokers"], e["ctl"] = bs, toI64(body["controller_id"])
			for _, t := range body["topics"].([]any) {
				code := toI64(t.(M)["error"])
				for _, p := range t.(M)["partitions"].([]any) {
					if code == 0 {
						code = toI64(p.(M)["error"])
					}
				}
				if code != 0 {
					e["code"] = code
					break
				}
			}
		case "FindCoordinator":
			e["code"], e["node"] = toI64(body["error"]), toI64(body["node_id"])
		case "ListGroups":
		default:
			return
		}
		rec.Ev(e)
	}
	c.respond = l.respond
	tmo := s.num("timeout", 700)
	l.cfg = healer.DefaultBrokerConfig()
	l.cfg.Net.ConnectTimeoutMS = tmo
	l.cfg.Net.TimeoutMS = tmo

	for _, x := range s.list("steps") {
		st := x.(map[string]any)
		l.step(st)
	}
	rec.Ev(M{"ev": "End"})
	rec.Seal()
}

func (l *lookup) step(st map[string]any) {
	switch st["op"] {
	case "mode":
		id, m := int32(toI64(st["n"])), st["m"].(string)
		l.mu.Lock()
		was := l.mode[id]
		l.mode[id] = m
		l.mu.Unlock()
		if m == "down" && was != "down" {
			l.c.SetDown(id, false)
			time.Sleep(5 * time.Millisecond)
		}
		if m != "down" && was == "down" {
			l.c.SetUp(id)
		}
		rec.Ev(M{"ev": "Mode", "n": id, "m": m, "cut": m == "down"})
	case "cut":
		id := int32(toI64(st["n"]))
		l.c.DropNode(id, st["rst"] == true)
		time.Sleep(5 * time.Millisecond)
		rec.Ev(M{"ev": "Cut", "n": id})
	case "list":
		var q []int32
		for _, x := range st["nodes"].([]any) {
			q = append(q, int32(toI64(x)))
		}
		l.c.mu.Lock()
		l.list = q
		l.c.mu.Unlock()
		rec.Ev(M{"ev": "Listed", "nodes": q})
	case "setctl":
		id := int32(toI64(st["n"]))
		l.c.mu.Lock()
		l.c.controller = id
		l.c.mu.Unlock()
		rec.Ev(M{"ev": "Ctl", "n": id})
	case "boot":
		if l.b != nil {
			l.b.Close()
			l.b = nil
			time.Sleep(20 * time.Millisecond)
		}
		var as []string
		var ids []int32
		for i, x := range st["addrs"].([]any) {
			id := int32(toI64(x))
			ids = append(ids, id)
			a := l.c.Addr(id)
			if st["alias"] == true && i%2 == 0 {
				a = strings.Replace(a, loopback, "[::ffff:"+loopback+"]", 1)
			}
			as = append(as, a)
		}
		rec.Ev(M{"ev": "Boot", "addrs": ids})
		var err error
		l.call("boot", func() { l.b, err = healer.NewBrokersWithConfig(strings.Join(as, ","), l.cfg) })
		rec.Ev(M{"ev": "BootRet", "ok": err == nil})
		if err != nil {
			l.b = nil
		}
	case "par":
		var wg sync.WaitGroup
		for i, x := range st["ops"].([]any) {
			wg.Add(1)
			go func(i int, o map[string]any) {
				defer wg.Done()
				l.one(fmt.Sprint("c", i), o)
			}(i, x.(map[string]any))
		}
		wg.Wait()
	default:
		l.one("c", st)
	}
}

func (l *lookup) call(what string, f func()) {
	if !bounded(25*time.Second, func() {
		f()
	}) {
		hung(M{"what": what})
	}
}

func kcode(err error) int {
	var k healer.KafkaError
	if errors.As(err, &k) {
		return int(k)
	}
	return 0
}

func (l *lookup) nodeAt(addr string) int32 {
	for id := range l.mode {
		if l.c.Addr(id) == addr {
			return id
		}
	}
	return -1
}

func (l *lookup) one(c string, o map[string]any) {
	if l.b == nil {
		return
	}
	op := o["op"].(string)
	id := int64(0)
	if op == "get" {
		id = toI64(o["id"])
	}
	rec.Ev(M{"ev": "Call", "c": c, "op": op, "id": id})
	ret := M{"ev": "Ret", "c": c, "node": 0, "code": 0}
	switch op {
	case "meta":
		ts := []string{}
		for _, t := range o["topics"].([]any) {
			ts = append(ts, t.(string))
		}
		l.call(op, func() {
			_, err := l.b.RequestMetaData("v", ts)
			ret["ok"], ret["code"] = err == nil, kcode(err)
		})
	case "coord":
		l.call(op, func() {
			r, err := l.b.FindCoordinator("v", o["g"].(string))
			ret["ok"] = err == nil
			if err == nil {
				ret["node"] = r.Coordinator.NodeID
			}
		})
	case "any":
		l.call(op, func() {
			_, err := l.b.Request(healer.NewListGroupsRequest("v"))
			ret["ok"] = err == nil
		})
	case "ctl":
		l.call(op, func() {
			br, err := l.b.GetController()
			ret["ok"] = err == nil
			if err == nil {
				ret["node"] = l.nodeAt(br.GetAddress())
			}
		})
	case "get":
		var br *healer.Broker
		l.call(op, func() {
			var err error
			if o["fresh"] == true {
				br, err = l.b.NewBroker(int32(id))
			} else {
				br, err = l.b.GetBroker(int32(id))
			}
			ret["ok"] = err == nil
		})
		if ret["ok"] == true && c == "c" {
			rec.Ev(ret)
			rec.Ev(M{"ev": "Call", "c": c, "op": "use", "id": id})
			ret = M{"ev": "Ret", "c": c, "node": 0, "code": 0, "ok": true}
			l.call("use", func() { br.RequestListGroups("v") })
			if o["fresh"] == true {
				br.Close()
			}
		}
	}
	rec.Ev(ret)
}
