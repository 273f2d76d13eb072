package main

// Driver "conn": several callers share one broker handle; the server injects
// faults.  Bears on B01, B02, B04.

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["conn"] = drvConn }

func connTag(q *Req) int {
	s := ""
	switch q.Name {
	case "FindCoordinator":
		s, _ = q.Body["key"].(string)
	case "Metadata":
		if l, ok := q.Body["topics"].([]any); ok && len(l) == 1 {
			s, _ = l[0].(string)
		}
	case "OffsetFetch":
		s, _ = q.Body["group"].(string)
	}
	if len(s) < 2 {
		return 0
	}
	n, err := strconv.Atoi(s[1:])
	if err != nil {
		return 0
	}
	return n
}

func padOf(tag int) int { return (tag * 7) % 5 * 40 }

func drvConn(s *Script) {
	c := NewCluster(1)
	sasl := s.flag("sasl")
	user, pass := s.str("user", "user-x"), s.str("pass", "pass-y")
	if pass == "long" {
		pass = strings.Repeat("p4", 700)
	}
	if user == "wide" {
		user = "usér-ü"
	}
	tmo := s.num("timeout", 300)
	c.rules = s.Rules
	for _, r := range c.rules {
		if r.Act == "late" {
			r.Arg = tmo + 200
		}
	}
	if x := s.num("apimax", -1); x >= 0 {
		for _, a := range c.apis {
			if toI64(a["max"]) > int64(x) {
				a["max"] = int64(x)
			}
		}
	}
	c.onConn = func(ev string, node int32, conn int) { rec.Ev(M{"ev": ev, "c": conn}) }
	c.onReq = func(q *Req) {
		m := M{"ev": "Req", "c": q.Conn, "api": q.Name, "ver": q.Ver, "dec": q.DecErr == "", "k": connTag(q), "cred": false}
		if q.Name == "SaslAuthenticate" {
			a, _ := q.Body["auth"].([]byte)
			m["cred"] = string(a) == "\x00"+user+"\x00"+pass
		}
		if q.Name == "SaslHandshake" {
			m["cred"] = q.Body["mechanism"] == "PLAIN" || q.Body["mechanism"] == "plain"
		}
		rec.Ev(m)
	}
	c.onRule = func(q *Req, r *Rule) {
		switch r.Act {
		case "seg":
		case "late":
			if r.Arg >= tmo {
				rec.Ev(M{"ev": "Fault", "c": q.Conn, "kind": r.Act})
			}
		case "err": // an error code in the answer is an answer
			if q.Name == "SaslHandshake" || q.Name == "SaslAuthenticate" || q.Name == "ApiVersions" {
				rec.Ev(M{"ev": "Fault", "c": q.Conn, "kind": r.Act})
			}
		default:
			rec.Ev(M{"ev": "Fault", "c": q.Conn, "kind": r.Act})
		}
	}
	c.onResp = func(q *Req, body M, frame []byte, act string) {
		full := act != "cut" && act != "cutstall" && act != "cutrst"
		code := int64(0)
		if e, ok := body["error"]; ok {
			code = toI64(e)
		}
		rec.Ev(M{"ev": "Resp", "c": q.Conn, "api": q.Name, "code": code, "k": connTag(q), "full": full})
	}
	c.respond = func(q *Req, cn *sconn, errc int16) (M, bool, bool) {
		k := connTag(q)
		if k == 0 {
			return nil, false, false
		}
		switch q.Name {
		case "FindCoordinator":
			return M{"error": errc, "node_id": k, "host": fmt.Sprintf("h%d", k), "port": k}, true, true
		case "Metadata":
			var pl []any
			for i := 0; i <= padOf(k); i++ {
				pl = append(pl, M{"error": 0, "index": i, "leader": k, "leader_epoch": 1, "replicas": []int32{int32(k), int32(i)}, "isr": []int32{int32(k)}, "offline": []int32{}})
			}
			return M{"brokers": []any{M{"node_id": k, "host": fmt.Sprintf("h%d", k), "port": k}}, "cluster_id": "c", "controller_id": k,
				"topics": []any{M{"error": errc, "name": fmt.Sprintf("t%d", k), "is_internal": false, "partitions": pl}}}, true, true
		case "OffsetFetch":
			return M{"topics": []any{M{"name": fmt.Sprintf("t%d", k), "partitions": []any{M{"index": k, "offset": k, "metadata": fmt.Sprintf("m%d", k), "error": errc}}}}}, true, true
		}
		return nil, false, false
	}

	bc := healer.DefaultBrokerConfig()
	bc.Net.TimeoutMS = tmo
	bc.Net.ConnectTimeoutMS = 3000
	if sasl {
		bc.Sasl = healer.SaslConfig{Mechanism: s.str("mech", "plain"), User: user, Password: pass}
	}
	slack := time.Duration(12000+8*tmo) * time.Millisecond

	var b *healer.Broker
	var bmu sync.Mutex
	newHandle := func(k int) bool {
		rec.Ev(M{"ev": "Call", "k": k, "op": "new"})
		var err error
		var nb *healer.Broker
		if !bounded(slack, func() { nb, err = healer.NewBroker(c.Addr(1), 1, bc) }) {
			hung(M{"k": k})
		}
		if err != nil {
			rec.Ev(M{"ev": "RetErr", "k": k, "err": cut(err.Error(), 100)})
			return false
		}
		rec.Ev(M{"ev": "RetOk", "k": k, "v": k, "new": true})
		b = nb
		return true
	}
	for i := 0; b == nil && i < 12; i++ {
		newHandle(1000 + i)
	}
	if b == nil {
		rec.Ev(M{"ev": "NoHandle"})
		return
	}
	call := func(op string, k int) bool {
		rec.Ev(M{"ev": "Call", "k": k, "op": op})
		var resp healer.Response
		var err error
		var v int
		ok := bounded(slack, func() {
			switch op {
			case "find":
				resp, err = b.RequestAndGet(healer.NewFindCoordinatorRequest("v", fmt.Sprintf("g%d", k)))
				if err == nil {
					r, is := resp.(healer.FindCoordinatorResponse)
					v = -1
					if is && r.Coordinator.Host == fmt.Sprintf("h%d", r.Coordinator.NodeID) && r.Coordinator.Port == r.Coordinator.NodeID && r.ErrorCode == 0 {
						v = int(r.Coordinator.NodeID)
					}
				}
			case "meta":
				resp, err = b.RequestAndGet(healer.NewMetadataRequest("v", []string{fmt.Sprintf("t%d", k)}))
				if err == nil {
					r, is := resp.(healer.MetadataResponse)
					v = -1
					if is {
						v = metaVal(r)
					}
				}
			case "off":
				q := healer.NewOffsetFetchRequest(1, "v", fmt.Sprintf("g%d", k))
				q.AddPartiton(fmt.Sprintf("t%d", k), int32(k))
				resp, err = b.RequestAndGet(q)
				if err == nil {
					r, is := resp.(healer.OffsetFetchResponse)
					v = -1
					if is && len(r.Topics) == 1 && len(r.Topics[0].Partitions) == 1 {
						p := r.Topics[0].Partitions[0]
						if p.Offset == int64(p.PartitionID) && r.Topics[0].Topic == fmt.Sprintf("t%d", p.PartitionID) {
							v = int(p.PartitionID)
						}
					}
				}
			}
		})
		if !ok {
			hung(M{"k": k})
		}
		if err != nil {
			var ke healer.KafkaError
			if errors.As(err, &ke) && strings.HasPrefix(op, "") && int(ke) == 88 {
				rec.Ev(M{"ev": "RetCode", "k": k})
				return true
			}
			rec.Ev(M{"ev": "RetErr", "k": k, "err": cut(err.Error(), 100)})
			return false
		}
		rec.Ev(M{"ev": "RetOk", "k": k, "v": v, "new": false})
		return true
	}
	var wg sync.WaitGroup
	for ci, cx := range s.list("callers") {
		wg.Add(1)
		go func(ci int, ops []any) {
			defer wg.Done()
			for i, o := range ops {
				k := (ci+1)*100 + i + 1
				switch op := o.(string); op {
				case "find", "meta", "off":
					call(op, k)
				case "drop", "rst":
					c.mu.Lock()
					var l []*sconn
					for x := range c.nodes[1].conns {
						select {
						case <-x.dead:
						default:
							l = append(l, x)
						}
					}
					if len(l) > 0 {
						rec.Ev(M{"ev": "Fault", "c": 0, "kind": op})
					}
					c.mu.Unlock()
					for _, x := range l {
						c.closeConn(x, op == "rst")
					}
					time.Sleep(3 * time.Millisecond)
				case "down":
					bmu.Lock()
					rec.Ev(M{"ev": "Down"})
					c.SetDown(1, false)
					bmu.Unlock()
				case "up":
					bmu.Lock()
					c.SetUp(1)
					rec.Ev(M{"ev": "Up"})
					bmu.Unlock()
				case "close":
					b.Close()
				case "sleep":
					time.Sleep(time.Duration(tmo) * time.Millisecond)
				}
			}
		}(ci, cx.([]any))
	}
	wg.Wait()
	c.SetUp(1)
	rec.Ev(M{"ev": "Up"})
	c.mu.Lock()
	c.rules = nil
	c.mu.Unlock()
	time.Sleep(time.Duration(s.num("settle", 0)) * time.Millisecond)
	rec.Ev(M{"ev": "Healthy"})
	// the broker is healthy now: everything still wrong must surface within the
	// number of faults injected, then calls succeed
	ok := 0
	for i := 0; i < 16 && ok < 2; i++ {
		if call("find", 9000+i) {
			ok++
		}
	}
	rec.Ev(M{"ev": "End"})
}

func cut(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return '?'
		}
		return r
	}, s)
}

func metaVal(r healer.MetadataResponse) int {
	if len(r.TopicMetadatas) != 1 || len(r.Brokers) != 1 {
		return -1
	}
	t := r.TopicMetadatas[0]
	k := int(r.ControllerID)
	if t.TopicName != fmt.Sprintf("t%d", k) || len(t.PartitionMetadatas) != padOf(k)+1 || int(r.Brokers[0].NodeID) != k {
		return -1
	}
	for i, p := range t.PartitionMetadatas {
		if int(p.PartitionID) != i || int(p.Leader) != k || len(p.Replicas) != 2 || int(p.Replicas[1]) != i {
			return -1
		}
	}
	return k
}
