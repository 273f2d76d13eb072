package main

// Driver "group": one or several GroupConsumers of one group, against the
// coordinator of the fake cluster.  Bears on G01..G05.

import (
	"fmt"
	"sort"
	"sync"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["group"] = drvGroup }

type gmember struct {
	name  string
	topic string
	gc    *healer.GroupConsumer
	ch    chan *healer.FullMessage
	gate  sync.Mutex
	ret   chan struct{} // Consume came back
	stop  chan struct{} // the application ends
	done  chan struct{}
	state string // "" running closed muted
}

type groupRun struct {
	s      *Script
	c      *Cluster
	g      *Group
	topics map[string]*Topic
	mem    map[string]*gmember
	order  []string
	mu     sync.Mutex
	del    map[string]map[int64]bool
	nDel   int
	reqN   map[*Req]int
	nReq   int
	slack  time.Duration
	close_ time.Duration
	due    map[string]int64 // what had to be delivered, when the run drained
}

func tpName(t string, p any) string { return fmt.Sprintf("%s/%d", t, toI64(p)) }

func (r *groupRun) known(q *Req) bool { return r.mem[q.Client] != nil }

func (r *groupRun) hook() {
	c := r.c
	c.tagOf = func(q *Req) string { return q.Client }
	c.onReq = func(q *Req) {
		if !r.known(q) {
			return
		}
		m := q.Client
		r.nReq++
		n := r.nReq
		r.reqN[q] = n
		mine := q.Body["group"] == "grp"
		switch q.Name {
		case "JoinGroup":
			subs := []string{}
			names := []string{}
			for _, px := range q.Body["protocols"].([]any) {
				pm := px.(M)
				names = append(names, pm["name"].(string))
				b, _ := pm["metadata"].([]byte)
				subs = subscribed(b)
			}
			rec.Ev(M{"ev": "JoinReq", "m": m, "r": n, "mid": q.Body["member"], "subs": subs, "protos": names,
				"mine": mine && q.Body["protocol_type"] == "consumer"})
		case "SyncGroup":
			asg := []any{}
			ok := true
			for _, ax := range q.Body["assignments"].([]any) {
				a := ax.(M)
				b, _ := a["assignment"].([]byte)
				l, fine := assigned(b)
				ok = ok && fine
				asg = append(asg, M{"id": a["member"], "tps": l})
			}
			rec.Ev(M{"ev": "SyncReq", "m": m, "r": n, "mid": q.Body["member"], "gen": q.Body["generation"], "asg": asg, "mine": mine && ok})
		case "Heartbeat":
			rec.Ev(M{"ev": "HB", "m": m, "r": n, "mid": q.Body["member"], "gen": q.Body["generation"], "mine": mine})
		case "LeaveGroup":
			rec.Ev(M{"ev": "Leave", "m": m, "mid": q.Body["member"], "mine": mine})
		case "Fetch":
			eachPart(q.Body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "Fetch", "m": m, "tp": tpName(t, pm["index"]), "off": pm["offset"]})
			})
		case "OffsetFetch":
			eachPart(q.Body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "OffReq", "m": m, "tp": tpName(t, pm["index"]), "mine": mine})
			})
		case "ListOffsets":
			eachPart(q.Body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "ListReq", "m": m, "tp": tpName(t, pm["index"]), "ts": pm["timestamp"]})
			})
		case "OffsetCommit":
			eachPart(q.Body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "Commit", "m": m, "tp": tpName(t, pm["index"]), "off": pm["offset"], "mine": mine,
					"mid": q.Body["member"], "gen": q.Body["generation"]})
			})
		}
	}
	c.onResp = func(q *Req, body M, frame []byte, act string) {
		if !r.known(q) {
			return
		}
		m := q.Client
		n := r.reqN[q]
		delete(r.reqN, q)
		full := act == "" || act == "err" || act == "seg"
		switch q.Name {
		case "JoinGroup":
			var l []any
			if x, ok := body["members"].([]any); ok {
				for _, y := range x {
					mm := y.(M)
					b, _ := mm["metadata"].([]byte)
					l = append(l, M{"id": mm["member"], "subs": subscribed(b)})
				}
			}
			if l == nil {
				l = []any{}
			}
			rec.Ev(M{"ev": "JoinResp", "m": m, "r": n, "code": body["error"], "full": full, "mid": body["member"],
				"gen": body["generation"], "leads": body["leader"] == body["member"], "members": l})
		case "SyncGroup":
			b, _ := body["assignment"].([]byte)
			l, _ := assigned(b)
			tps := []string{}
			for _, x := range l {
				tps = append(tps, tpName(x.(M)["t"].(string), x.(M)["p"]))
			}
			rec.Ev(M{"ev": "SyncResp", "m": m, "r": n, "code": body["error"], "full": full, "tps": tps})
		case "Heartbeat":
			rec.Ev(M{"ev": "HBResp", "m": m, "r": n, "code": body["error"], "full": full})
		case "LeaveGroup":
			rec.Ev(M{"ev": "LeaveResp", "m": m, "code": body["error"]})
		case "Metadata":
			if !full {
				return
			}
			l := []any{}
			for _, tx := range body["topics"].([]any) {
				t := tx.(M)
				ps := []int32{}
				if pl, ok := t["partitions"].([]any); ok {
					for _, px := range pl {
						ps = append(ps, int32(toI64(px.(M)["index"])))
					}
				}
				l = append(l, M{"t": t["name"], "ps": ps})
			}
			rec.Ev(M{"ev": "Meta", "m": m, "topics": l})
		case "OffsetFetch":
			eachPart(body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "OffResp", "m": m, "tp": tpName(t, pm["index"]), "code": pm["error"], "off": pm["offset"]})
			})
		case "ListOffsets":
			eachPart(body, "topics", func(t string, pm M) {
				rec.Ev(M{"ev": "ListResp", "m": m, "tp": tpName(t, pm["index"]), "code": pm["error"], "off": pm["offset"]})
			})
		}
	}
	c.onCommit = func(q *Req, topic string, part int32, off int64, code int16) {
		if r.known(q) {
			rec.Ev(M{"ev": "CommitResp", "m": q.Client, "tp": tpName(topic, part), "off": off, "code": code})
		}
	}
	c.onGroup = func(ev M) {
		rec.Ev(M{"ev": "Expire", "mid": ev["member"]})
	}
}

func (r *groupRun) deliver(m *gmember, x *healer.FullMessage) {
	if x.Error != nil || x.Message == nil {
		rec.Ev(M{"ev": "DeliverErr", "m": m.name})
		return
	}
	tp := tpName(x.TopicName, x.PartitionID)
	rec.Ev(M{"ev": "Deliver", "m": m.name, "tp": tp, "off": x.Message.Offset,
		"right": string(x.Message.Value) == fmt.Sprintf("%s@%d", tp, x.Message.Offset)})
	r.mu.Lock()
	if r.del[tp] == nil {
		r.del[tp] = map[int64]bool{}
	}
	r.del[tp][x.Message.Offset] = true
	r.nDel++
	r.mu.Unlock()
}

// put stores n records in a partition.
func (r *groupRun) put(t *Topic, i int, n int) {
	c := r.c
	c.mu.Lock()
	defer c.mu.Unlock()
	p := t.Parts[i]
	tp := tpName(t.Name, p.ID)
	b := &Batch{Magic: 2, Base: p.HW, Last: p.HW + int64(n) - 1}
	for k := 0; k < n; k++ {
		o := p.HW + int64(k)
		b.Recs = append(b.Recs, Rec{Off: o, Ts: 1700000000000 + o, Key: []byte("k"), Val: []byte(fmt.Sprintf("%s@%d", tp, o))})
	}
	rec.Ev(M{"ev": "Store", "tp": tp, "hi": b.Last + 1})
	c.appendLocked(t, i, b)
}

func (r *groupRun) start(m *gmember) {
	s := r.s
	cfg := healer.DefaultConsumerConfig()
	cfg.BootstrapServers = r.c.Bootstrap()
	cfg.GroupID = "grp"
	cfg.ClientID = m.name
	cfg.Net.TimeoutMS = s.num("timeout", 300)
	cfg.Net.ConnectTimeoutMS = 2000
	cfg.RetryBackOffMS = 20
	cfg.FetchMaxWaitMS = int32(s.num("wait", 30))
	cfg.SessionTimeoutMS = int32(s.num("session", 600))
	cfg.MetadataMaxAgeMS = s.num("metaage", 100000)
	cfg.FromBeginning = s.flag("begin")
	cfg.AutoCommit = s.flag("auto")
	cfg.AutoCommitIntervalMS = s.num("interval", 40)
	cfg.OffsetsStorage = 1
	ok := false
	for i := 0; i < 20 && !ok; i++ {
		if !bounded(r.slack, func() {
			x, err := healer.NewGroupConsumer(m.topic, cfg)
			if err == nil {
				m.gc, ok = x, true
			}
		}) {
			hung(M{"in": "create"})
		}
		if !ok {
			time.Sleep(20 * time.Millisecond)
		}
	}
	if !ok { // no broker answers at the moment: this member never comes to life
		m.state = "closed"
		return
	}
	m.ch = make(chan *healer.FullMessage, s.num("chan", 0))
	m.ret, m.stop, m.done = make(chan struct{}), make(chan struct{}), make(chan struct{})
	m.state = "running"
	rec.Ev(M{"ev": "Begin", "m": m.name})
	go func() {
		m.gc.Consume(m.ch)
		close(m.ret)
	}()
	go func() {
		defer close(m.done)
		for {
			select {
			case <-m.stop:
				return
			default:
			}
			m.gate.Lock()
			select {
			case x := <-m.ch:
				r.deliver(m, x)
			case <-time.After(3 * time.Millisecond):
			}
			m.gate.Unlock()
		}
	}()
}

// settled: every running member is in the current generation, and the
// coordinator accepted a heartbeat of each in it.
func (r *groupRun) settled() bool {
	r.c.mu.Lock()
	defer r.c.mu.Unlock()
	return r.settledLocked()
}

// afresh forgets the heartbeats accepted so far.
func (r *groupRun) afresh() {
	r.c.mu.Lock()
	r.g.okBeat = nil
	r.c.mu.Unlock()
}

func (r *groupRun) settledLocked() bool {
	g := r.g
	if g.State != "Stable" {
		return false
	}
	n := 0
	for _, m := range r.mem {
		if m.state != "running" {
			continue
		}
		n++
		if b, ok := g.okBeat[m.name]; !ok || b != g.Gen {
			return false
		}
	}
	return n == len(g.members)
}

// close closes a member and watches it for a while.
func (r *groupRun) close(m *gmember, fair bool, twice bool) {
	if m.state != "running" {
		return
	}
	m.state = "closing"
	rec.Ev(M{"ev": "Stop", "m": m.name, "fair": fair})
	n := 1
	if twice {
		n = 2
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); m.gc.AwaitClose(r.close_) }()
	}
	if !bounded(r.slack, wg.Wait) {
		hung(M{"in": "close", "m": m.name})
	}
	rec.Ev(M{"ev": "Stopped", "m": m.name})
	if twice {
		if !bounded(r.slack, func() { m.gc.Close() }) {
			hung(M{"in": "close", "m": m.name})
		}
	}
	select {
	case <-m.ret:
	case <-time.After(r.slack):
		hung(M{"in": "consume", "m": m.name})
	}
	close(m.stop)
	<-m.done
	for end := false; !end; {
		select {
		case x := <-m.ch:
			r.deliver(m, x)
		default:
			end = true
		}
	}
	r.c.mu.Lock()
	in := false
	for _, x := range r.g.members {
		if x.clientID == m.name {
			in = true
		}
	}
	rec.Ev(M{"ev": "Gone", "m": m.name, "in": in})
	r.c.mu.Unlock()
	m.state = "closed"
	go func() { // whatever still comes is recorded
		for x := range m.ch {
			r.deliver(m, x)
		}
	}()
	go func() {
		time.Sleep(25 * time.Millisecond)
		r.c.mu.Lock()
		rec.Ev(M{"ev": "Quiet", "m": m.name})
		r.c.mu.Unlock()
	}()
}

func drvGroup(s *Script) {
	c := NewCluster(s.num("nodes", 2))
	r := &groupRun{s: s, c: c, topics: map[string]*Topic{}, mem: map[string]*gmember{},
		del: map[string]map[int64]bool{}, reqN: map[*Req]int{}}
	tmo := s.num("timeout", 300)
	r.slack = 40*time.Second + 10*time.Duration(tmo)*time.Millisecond
	r.close_ = time.Duration(s.num("closewait", 4000)) * time.Millisecond
	c.checkEpoch = true
	if s.flag("zero") {
		c.idShift = -1
	}
	c.joinDelay = time.Duration(s.num("joindelay", 20)) * time.Millisecond
	ids := func(x any) []int32 {
		var l []int32
		for _, v := range x.([]any) {
			l = append(l, int32(toI64(v)))
		}
		return l
	}
	var tnames []string
	for _, tx := range s.list("topics") {
		t := tx.(map[string]any)
		ps := ids(t["ps"])
		var leaders []int32
		for i := range ps {
			leaders = append(leaders, int32(i%len(c.nodes)+1))
		}
		topic := c.AddTopic(t["t"].(string), leaders)
		for i, p := range ps {
			topic.Parts[i].ID = p
			rec.Ev(M{"ev": "Store", "tp": tpName(topic.Name, p), "hi": 0})
		}
		r.topics[topic.Name] = topic
		tnames = append(tnames, topic.Name)
		if e, ok := t["err"]; ok && toI64(e) != 0 {
			topic.Parts[0].Err = int16(toI64(e))
		}
	}
	sort.Strings(tnames)
	c.shuffleMeta = s.flag("shuffle")
	r.g = c.group("grp")
	g := r.g
	g.Coord = int32(s.num("coord", 1))
	g.shuffle = s.flag("shuffle")
	g.virtLeads = s.flag("virtleads")
	g.plan = s.list("plan")
	g.planTopic = tnames[0]
	g.holdJoin = time.Duration(s.num("holdjoin", 0)) * time.Millisecond
	g.holdSync = time.Duration(s.num("holdsync", 0)) * time.Millisecond
	for _, vx := range s.list("virt") {
		v := vx.(map[string]any)
		var subs []string
		for _, t := range v["subs"].([]any) {
			subs = append(subs, t.(string))
		}
		var meta []byte
		switch v["kind"] {
		case "empty": // a member that said nothing
			meta = []byte{}
		case "null":
			meta = subscription(0, subs, nil, false)
		case "v1":
			meta = subscription(1, subs, []byte{}, true)
		case "v3":
			meta = subscription(3, subs, []byte("some user data"), true)
		default:
			meta = subscription(0, subs, []byte{}, false)
		}
		g.virt = append(g.virt, virtMember{v["id"].(string), meta})
	}
	for _, mx := range s.list("members") {
		m := mx.(map[string]any)
		gm := &gmember{name: m["m"].(string), topic: m["topic"].(string)}
		r.mem[gm.name] = gm
		r.order = append(r.order, gm.name)
	}
	if cm := s.num("committed", -1); cm >= 0 {
		for _, t := range r.topics {
			for _, p := range t.Parts {
				c.commitStore[fmt.Sprintf("grp/%s/%d", t.Name, p.ID)] = int64(cm)
				rec.Ev(M{"ev": "CommitResp", "m": "-", "tp": tpName(t.Name, p.ID), "off": cm, "code": 0})
			}
		}
	}
	for _, name := range tnames {
		t := r.topics[name]
		for i := range t.Parts {
			if n := s.num("first", 3); n > 0 {
				r.put(t, i, n)
			}
		}
	}
	r.hook()
	c.mu.Lock()
	for _, x := range s.Rules {
		if x.Act == "late" {
			x.Arg = tmo + 150
			if x.Api == "JoinGroup" {
				x.Arg = 250
			}
		}
	}
	c.rules = s.Rules
	c.mu.Unlock()
	at := func(arg int) *gmember { return r.mem[r.order[arg%len(r.order)]] }
	for _, ox := range s.list("ops") {
		op := ox.(map[string]any)
		arg := int(toI64(orZero(op["arg"])))
		switch op["op"] {
		case "start":
			if m := at(arg); m.state == "" {
				r.start(m)
			}
		case "settle":
			waitFor(time.Duration(3*s.num("session", 600))*time.Millisecond, r.settled)
		case "put":
			t := r.topics[tnames[arg%len(tnames)]]
			r.put(t, (arg/2)%len(t.Parts), 1+arg%3)
		case "close":
			r.close(at(arg), false, arg%3 == 0)
		case "fairclose":
			fair := false
			if len(s.Rules) == 0 || !s.flag("keeprules") {
				c.mu.Lock()
				c.rules = nil
				c.mu.Unlock()
				for i := range c.nodes {
					c.SetUp(i)
				}
				r.afresh()
				fair = waitFor(8*time.Second, r.settled)
			}
			r.close(at(arg), fair, false)
		case "mute": // the process dies, or is cut off
			m := at(arg)
			if m.state == "running" {
				c.mu.Lock()
				c.mute[m.name] = true
				rec.Ev(M{"ev": "Mute", "m": m.name})
				m.state = "muted"
				c.mu.Unlock()
				c.DropClient(m.name)
			}
		case "expire": // the coordinator drops a member
			c.mu.Lock()
			for id, m := range g.members {
				if m.clientID == at(arg).name {
					g.remove(id)
					g.note("Expire", id, 0)
					g.rebalance()
					break
				}
			}
			c.mu.Unlock()
		case "rebalance":
			c.mu.Lock()
			if g.State == "Stable" {
				g.rebalance()
			}
			c.mu.Unlock()
		case "regen": // the coordinator counts on without the members
			c.mu.Lock()
			if g.State == "Stable" {
				g.Gen++
				g.okBeat = nil
			}
			c.mu.Unlock()
		case "grow":
			c.mu.Lock()
			t := r.topics[tnames[0]]
			p := &Part{ID: int32(20 + len(t.Parts)), Leader: 1, Epoch: 1, Replicas: []int32{1}, Isr: []int32{1}}
			t.Parts = append(t.Parts, p)
			rec.Ev(M{"ev": "Store", "tp": tpName(t.Name, p.ID), "hi": 0})
			c.mu.Unlock()
		case "move":
			c.mu.Lock()
			for _, name := range tnames {
				for _, pt := range r.topics[name].Parts {
					pt.Leader = pt.Leader%int32(len(c.nodes)) + 1
					pt.Epoch++
				}
			}
			c.mu.Unlock()
			c.Wake()
		case "coord", "coordlose":
			c.MoveCoordinator("grp", g.Coord%int32(len(c.nodes))+1, op["op"] == "coordlose")
		case "kill":
			n := g.Coord
			if arg%2 == 0 {
				n = int32(arg%len(c.nodes) + 1)
			}
			c.SetDown(n, arg%3 == 0)
			other := n%int32(len(c.nodes)) + 1
			if g.Coord == n {
				c.MoveCoordinator("grp", other, false)
			}
			c.mu.Lock()
			for _, name := range tnames {
				for _, pt := range r.topics[name].Parts {
					if pt.Leader == n {
						pt.Leader = other
						pt.Epoch++
					}
				}
			}
			c.mu.Unlock()
		case "down": // nobody takes over
			c.SetDown(g.Coord, arg%2 == 0)
		case "up":
			for i := range c.nodes {
				c.SetUp(i)
			}
		case "drop", "rst":
			c.DropConns(0, op["op"] == "rst")
		case "pause":
			m := at(arg)
			m.gate.Lock()
			time.Sleep(time.Duration(10+arg%7*20) * time.Millisecond)
			m.gate.Unlock()
		case "commit":
			if m := at(arg); m.state == "running" {
				if !bounded(r.slack, m.gc.CommitOffset) {
					hung(M{"in": "commit", "m": m.name})
				}
			}
		case "take":
			r.mu.Lock()
			n := r.nDel + arg
			r.mu.Unlock()
			waitFor(400*time.Millisecond, func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.nDel >= n })
		case "sleep":
			time.Sleep(time.Duration(arg) * time.Millisecond)
		}
	}
	live := []string{}
	for _, n := range r.order {
		if r.mem[n].state == "running" {
			live = append(live, n)
		}
	}
	if s.flag("drain") && len(live) > 0 {
		c.mu.Lock()
		c.rules = nil
		g.holdJoin, g.holdSync = 0, 0
		c.mu.Unlock()
		for i := range c.nodes {
			c.SetUp(i)
		}
		for _, n := range live {
			select {
			case <-r.mem[n].ret:
			case <-time.After(r.slack):
				hung(M{"in": "consume", "m": n})
			}
		}
		r.afresh()
		waitFor(15*time.Second, r.settled)
		covered := map[string]bool{} // what the live members subscribe to
		for _, n := range live {
			covered[r.mem[n].topic] = true
		}
		due := map[string]int64{}
		for _, name := range tnames {
			t := r.topics[name]
			for i, p := range t.Parts {
				r.put(t, i, 1)
				if p.ID >= 20 && (s.num("metaage", 100000) > 1000 || !s.flag("begin")) { // grown, and nobody looks again
					continue
				}
				if covered[name] && !g.virtLeads && len(g.virt) == 0 {
					due[tpName(name, p.ID)] = p.HW
				}
			}
		}
		if s.flag("begin") || s.num("committed", -1) >= 0 {
			lo := s.num("committed", 0)
			if lo < 0 {
				lo = 0
			}
			waitFor(15*time.Second, func() bool {
				r.mu.Lock()
				defer r.mu.Unlock()
				for tp, hi := range due {
					for o := int64(lo); o < hi; o++ {
						if !r.del[tp][o] {
							return false
						}
					}
				}
				return r.settled()
			})
			r.due = due
		} else {
			waitFor(15*time.Second, r.settled)
			due = nil
		}
		ended := false
		var l []any
		var ks []string
		for k := range due {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l = append(l, k)
		}
		if l == nil {
			l = []any{}
		}
		waitFor(15*time.Second, func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			if !r.settledLocked() {
				return false
			}
			rec.Ev(M{"ev": "End", "due": l, "lo": max(0, s.num("committed", 0)), "live": live, "gen": g.Gen, "settled": true})
			ended = true
			return true
		})
		if !ended {
			rec.Ev(M{"ev": "End", "due": l, "lo": max(0, s.num("committed", 0)), "live": live, "gen": 0, "settled": false})
		}
	}
	if fc := s.list("failcommits"); len(fc) > 0 && r.due != nil && s.flag("auto") && len(live) > 0 {
		c.mu.Lock()
		for _, x := range fc {
			c.failCommits = append(c.failCommits, int16(toI64(x)))
		}
		c.mu.Unlock()
		for _, name := range tnames {
			t := r.topics[name]
			for i, p := range t.Parts {
				if _, ok := r.due[tpName(name, p.ID)]; ok {
					r.put(t, i, 1)
				}
			}
		}
		held := func(emit bool) bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			for _, name := range tnames {
				for _, p := range r.topics[name].Parts {
					tp := tpName(name, p.ID)
					if _, ok := r.due[tp]; !ok {
						continue
					}
					o, ok := c.commitStore[fmt.Sprintf("grp/%s/%d", name, p.ID)]
					if !ok {
						o = -1
					}
					if emit {
						rec.Ev(M{"ev": "Held", "tp": tp, "c": o})
					} else if o < p.HW {
						return false
					}
				}
			}
			return true
		}
		waitFor(12*time.Second, func() bool { return held(false) })
		held(true)
	}
	// the rest is closed, one after another
	for _, n := range r.order {
		m := r.mem[n]
		if m.state == "running" {
			fair := s.flag("drain") && waitFor(8*time.Second, r.settled)
			r.close(m, fair, false)
		}
	}
	time.Sleep(time.Duration(s.num("quiet", 60)+30) * time.Millisecond)
	rec.Ev(M{"ev": "Done"})
}
