package main

// A fake Kafka cluster on the loopback interface.

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Rule injects a fault on the N-th request (from 1; 0 = every) that matches.
type Rule struct {
	Api  string `json:"api"`
	Node int32  `json:"node"` // 0 = any
	N    int    `json:"n"`    // ordinal; 0 = all
	Upto int    `json:"upto"` // if >0: N..Upto
	Act  string `json:"act"`
	Arg  int    `json:"arg"`
	Tag  string `json:"tag"` // optional: matches q tag
	hits int
}

type Part struct {
	ID                  int32
	Leader              int32
	Epoch               int32
	Err                 int16
	Replicas            []int32
	Isr                 []int32
	Batches             []*Batch
	Start               int64 // log start offset
	HW                  int64 // high watermark = log end
	WasLeader, WasEpoch int32 // what stale metadata says
}

type Topic struct {
	Name     string
	Err      int16
	Internal bool
	Parts    []*Part
	ByTime   map[string]int64 // "<partition>:<timestamp>" -> offset
}

type Node struct {
	ID    int32
	Addr  string
	Host  string
	Port  int
	ln    net.Listener
	up    bool
	conns map[*sconn]bool
	reqN  map[string]int
}

type sconn struct {
	id     int
	node   *Node
	c      net.Conn
	dead   chan struct{}
	once   sync.Once
	frames chan []byte
	sasl   int
	client string
}

func (s *sconn) kill() { s.once.Do(func() { close(s.dead) }) }

type Cluster struct {
	mu         sync.Mutex
	nodes      map[int32]*Node
	controller int32
	clusterID  any
	topics     map[string]*Topic
	groups     map[string]*Group
	rules      []*Rule
	apiN       map[string]int
	apis       []M // advertised versions
	apisByNode map[int32][]M
	dataCh     chan struct{} // closed and replaced when data arrives
	connN      int32
	closed     bool
	done       chan struct{}

	checkEpoch bool // refuse fetches with a stale leader epoch
	fetchTrunc bool // cut record sets exactly at max_bytes
	fetchCap   int  // at most this many batches per response (0: unlimited)
	fetchSeg   int  // write fetch responses in segments

	wrap func(node int32, conn int, k net.Conn) net.Conn // what is spoken on a connection; nil: refused

	onReq  func(q *Req)
	onResp func(q *Req, body M, frame []byte, act string)
	onConn func(ev string, node int32, conn int)
	tagOf  func(q *Req) string
	// respond overrides the handler
	respond       func(q *Req, cn *sconn, errc int16) (M, bool, bool) // body, answered, handled
	onRule        func(q *Req, r *Rule)
	hold          map[string]chan struct{}
	joinDelay     time.Duration
	commitStore   map[string]int64 // "group/topic/part" -> offset
	zkStore       map[string]int64
	onCommit      func(q *Req, topic string, part int32, off int64, code int16)
	onGroup       func(ev M)
	refuseFrac    int
	brokersInMeta func(nd int32) []int32
	metaTopicErr  map[string]int16
	saslBad       bool
	mute          map[string]bool // clients that are cut off
	shuffleMeta   bool            // partitions are listed in another order every time
	idShift       int32           // added to the node numbers on the wire
	notLeader     int16           // what a node answers that does not lead the partition
	staleMeta     int             // so many metadata answers are out of date
	failCommits   []int16         // what the next commits are answered
	aborted       int             // so many entries in the list of aborted transactions
}

func NewCluster(n int) *Cluster {
	c := &Cluster{
		nodes: map[int32]*Node{}, topics: map[string]*Topic{}, groups: map[string]*Group{},
		apiN: map[string]int{}, dataCh: make(chan struct{}), done: make(chan struct{}),
		notLeader: 6, clusterID: "vcluster", hold: map[string]chan struct{}{}, joinDelay: 20 * time.Millisecond,
		commitStore: map[string]int64{}, zkStore: map[string]int64{}, apisByNode: map[int32][]M{}, mute: map[string]bool{},
	}
	for i := 1; i <= n; i++ {
		c.AddNode(int32(i))
	}
	c.controller = 1
	c.apis = defaultApis()
	return c
}

func defaultApis() []M {
	var l []M
	var ks []int
	for k := range schemas {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		s := schemas[int16(k)]
		l = append(l, M{"key": int64(k), "min": int64(0), "max": int64(s.maxV)})
	}
	return l
}

// loopback is an address of this process alone: runs go on side by side, and
// the port of a broker that is down must not be taken by another run's broker.
var loopback = func() string {
	p := os.Getpid()
	a := fmt.Sprintf("127.%d.%d.%d", 1+p/62500%250, p/250%250, 1+p%250)
	ln, err := net.Listen("tcp", a+":0")
	if err != nil {
		return "127.0.0.1"
	}
	ln.Close()
	return a
}()

func (c *Cluster) AddNode(id int32) *Node {
	ln, err := net.Listen("tcp", loopback+":0")
	if err != nil {
		harnessFail("listen: %v", err)
	}
	n := &Node{ID: id, ln: ln, Host: loopback, Port: ln.Addr().(*net.TCPAddr).Port, Addr: ln.Addr().String(), up: true, conns: map[*sconn]bool{}, reqN: map[string]int{}}
	c.mu.Lock()
	c.nodes[id] = n
	c.mu.Unlock()
	go c.accept(n, ln)
	return n
}

func (c *Cluster) accept(n *Node, ln net.Listener) {
	for {
		k, err := ln.Accept()
		if err != nil {
			return
		}
		s := &sconn{id: int(atomic.AddInt32(&c.connN, 1)), node: n, c: k, dead: make(chan struct{}), frames: make(chan []byte, 1024)}
		c.mu.Lock()
		if !n.up {
			c.mu.Unlock()
			k.Close()
			continue
		}
		n.conns[s] = true
		if c.onConn != nil {
			c.onConn("Open", n.ID, s.id)
		}
		c.mu.Unlock()
		if c.wrap == nil {
			go c.reader(s)
			go c.serve(s)
			continue
		}
		go func() {
			w := c.wrap(n.ID, s.id, k)
			if w == nil {
				k.Close()
				s.kill()
				c.mu.Lock()
				delete(n.conns, s)
				c.mu.Unlock()
				return
			}
			c.mu.Lock()
			s.c = w
			c.mu.Unlock()
			go c.reader(s)
			go c.serve(s)
		}()
	}
}

func (c *Cluster) reader(s *sconn) {
	defer func() {
		close(s.frames)
		s.kill()
	}()
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(s.c, h); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(h)
		if n > 200<<20 {
			c.mu.Lock()
			if c.onReq != nil {
				c.onReq(&Req{Node: s.node.ID, Conn: s.id, Name: "?", DecErr: fmt.Sprintf("frame length %d", n), Body: M{}})
			}
			c.mu.Unlock()
			return
		}
		b := make([]byte, n)
		if m, err := io.ReadFull(s.c, b); err != nil {
			if m > 0 || true {
				c.mu.Lock()
				if c.onReq != nil && !c.closed {
					// a request whose size field announces more than was sent
					select {
					case <-s.dead:
					default:
						q := decodeReq(b[:m])
						q.Node, q.Conn = s.node.ID, s.id
						q.DecErr = fmt.Sprintf("frame announces %d bytes, connection ended after %d", n, m)
						c.onReq(q)
					}
				}
				c.mu.Unlock()
			}
			return
		}
		s.frames <- b
	}
}

func (c *Cluster) closeConn(s *sconn, rst bool) {
	s.kill()
	if rst {
		if t, ok := s.c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	}
	s.c.Close()
}

func (c *Cluster) serve(s *sconn) {
	defer func() {
		s.c.Close()
		c.mu.Lock()
		delete(s.node.conns, s)
		if c.onConn != nil && !c.closed {
			c.onConn("Close", s.node.ID, s.id)
		}
		c.mu.Unlock()
	}()
	for b := range s.frames {
		q := decodeReq(b)
		q.Node, q.Conn = s.node.ID, s.id
		c.mu.Lock()
		if !s.node.up || c.closed || c.mute[q.Client] {
			c.mu.Unlock()
			return
		}
		if q.Client != "" && s.client == "" && q.Name != "ApiVersions" {
			s.client = q.Client
		}
		c.apiN[q.Name]++
		s.node.reqN[q.Name]++
		q.Ordinal = c.apiN[q.Name]
		q.NodeOrd = s.node.reqN[q.Name]
		if c.onReq != nil {
			c.onReq(q)
		}
		rule := c.match(q)
		if rule != nil && c.onRule != nil {
			c.onRule(q, rule)
		}
		c.mu.Unlock()
		if schemas[q.Key] == nil || q.Body == nil {
			return
		}
		// a client that asks without end is slowed down, so that the record stays small
		if q.Ordinal > 4000 {
			time.Sleep(20 * time.Millisecond)
		} else if q.Ordinal > 1500 {
			time.Sleep(4 * time.Millisecond)
		}
		var errc int16
		act, arg := "", 0
		if rule != nil {
			act, arg = rule.Act, rule.Arg
		}
		switch act {
		case "err":
			errc = int16(arg)
		case "drop":
			c.closeConn(s, false)
			return
		case "rst":
			c.closeConn(s, true)
			return
		case "stall":
			<-s.dead
			return
		case "nodedown":
			c.SetDown(s.node.ID, true)
			return
		}
		var body M
		ok := false
		// a commit takes effect when it arrives, not when it is answered
		first := q.Name == "OffsetCommit"
		if first {
			body, ok = c.dispatch(q, s, errc)
		}
		if act == "late" {
			select {
			case <-time.After(time.Duration(arg) * time.Millisecond):
			case <-c.done:
				return
			}
		}
		if !first {
			body, ok = c.dispatch(q, s, errc)
		}
		if !ok {
			return
		}
		if body == nil { // no answer for this request (acks=0)
			continue
		}
		frame := encodeResp(q, body)
		c.mu.Lock()
		if c.onResp != nil {
			c.onResp(q, body, frame, act)
		}
		c.mu.Unlock()
		switch act {
		case "cut":
			n := arg
			if n < 0 { // percentage
				n = len(frame) * (-n) / 100
			}
			if n >= len(frame) {
				n = len(frame) - 1
			}
			s.c.Write(frame[:n])
			c.closeConn(s, false)
			return
		case "cutstall":
			n := arg
			if n < 0 {
				n = len(frame) * (-n) / 100
			}
			if n >= len(frame) {
				n = len(frame) - 1
			}
			s.c.Write(frame[:n])
			<-s.dead
			return
		case "cutrst":
			n := arg
			if n < 0 {
				n = len(frame) * (-n) / 100
			}
			if n >= len(frame) {
				n = len(frame) - 1
			}
			s.c.Write(frame[:n])
			time.Sleep(5 * time.Millisecond)
			c.closeConn(s, true)
			return
		case "seg":
			c.writeSeg(s, frame, arg)
		case "thenclose":
			s.c.Write(frame)
			c.closeConn(s, false)
			return
		default:
			if q.Name == "Fetch" && c.fetchSeg > 0 {
				c.writeSeg(s, frame, c.fetchSeg)
			} else if _, err := s.c.Write(frame); err != nil {
				return
			}
		}
	}
}

func (c *Cluster) writeSeg(s *sconn, frame []byte, n int) {
	if n <= 0 {
		n = 1
	}
	if t, ok := s.c.(*net.TCPConn); ok {
		t.SetNoDelay(true)
	}
	i := 0
	for len(frame) > 0 {
		k := n
		if i > 60 { // keep long frames quick
			k = 997
		}
		if i > 120 {
			k = len(frame)
		}
		if k > len(frame) {
			k = len(frame)
		}
		if _, err := s.c.Write(frame[:k]); err != nil {
			return
		}
		frame = frame[k:]
		i++
		if i < 8 { // let the reader see the first pieces one by one
			time.Sleep(3 * time.Millisecond)
		} else {
			time.Sleep(300 * time.Microsecond)
		}
	}
}

func (c *Cluster) match(q *Req) *Rule {
	for _, r := range c.rules {
		if r.Api != q.Name && r.Api != "*" {
			continue
		}
		if r.Api == "*" && q.Name == "ApiVersions" {
			continue
		}
		if r.Node != 0 && r.Node != q.Node {
			continue
		}
		if r.Tag != "" && (c.tagOf == nil || c.tagOf(q) != r.Tag) {
			continue
		}
		r.hits++
		up := r.Upto
		if up == 0 {
			up = r.N
		}
		if r.N == 0 || (r.hits >= r.N && r.hits <= up) {
			return r
		}
	}
	return nil
}

// SetDown closes a node's listener and all its connections; SetUp re-opens it
// on the same port.
func (c *Cluster) SetDown(id int32, rst bool) {
	c.mu.Lock()
	n := c.nodes[id]
	if !n.up {
		c.mu.Unlock()
		return
	}
	n.up = false
	n.ln.Close()
	var l []*sconn
	for s := range n.conns {
		l = append(l, s)
	}
	c.mu.Unlock()
	for _, s := range l {
		c.closeConn(s, rst)
	}
}

func (c *Cluster) SetUp(id int32) {
	c.mu.Lock()
	n := c.nodes[id]
	if n.up {
		c.mu.Unlock()
		return
	}
	var ln net.Listener
	var err error
	for i := 0; i < 200; i++ {
		ln, err = net.Listen("tcp", n.Addr)
		if err == nil {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if err != nil {
		c.mu.Unlock()
		harnessFail("relisten %s: %v", n.Addr, err)
	}
	n.ln = ln
	n.up = true
	c.mu.Unlock()
	go c.accept(n, ln)
}

// DropConns closes every connection of a node (0: all nodes).
func (c *Cluster) DropConns(id int32, rst bool) int {
	return c.drop(func(n *Node) bool { return id == 0 || n.ID == id }, rst)
}

// DropNode closes every connection of one node, which may have the id 0.
func (c *Cluster) DropNode(id int32, rst bool) int {
	return c.drop(func(n *Node) bool { return n.ID == id }, rst)
}

func (c *Cluster) drop(of func(*Node) bool, rst bool) int {
	c.mu.Lock()
	var l []*sconn
	for _, n := range c.nodes {
		if !of(n) {
			continue
		}
		for s := range n.conns {
			l = append(l, s)
		}
	}
	c.mu.Unlock()
	for _, s := range l {
		c.closeConn(s, rst)
	}
	return len(l)
}

// DropClient closes the connections of one client.
func (c *Cluster) DropClient(name string) {
	c.mu.Lock()
	var l []*sconn
	for _, n := range c.nodes {
		for s := range n.conns {
			if s.client == name {
				l = append(l, s)
			}
		}
	}
	c.mu.Unlock()
	for _, s := range l {
		c.closeConn(s, true)
	}
}

func (c *Cluster) Addr(id int32) string { return c.nodes[id].Addr }

func (c *Cluster) Bootstrap() string {
	var ids []int
	for i := range c.nodes {
		ids = append(ids, int(i))
	}
	sort.Ints(ids)
	s := ""
	for _, i := range ids {
		if s != "" {
			s += ","
		}
		s += c.nodes[int32(i)].Addr
	}
	return s
}

func (c *Cluster) AddTopic(name string, leaders []int32) *Topic {
	t := &Topic{Name: name, ByTime: map[string]int64{}}
	for i, l := range leaders {
		t.Parts = append(t.Parts, &Part{ID: int32(i), Leader: l, Epoch: 1, Replicas: []int32{l}, Isr: []int32{l}})
	}
	c.mu.Lock()
	c.topics[name] = t
	c.mu.Unlock()
	return t
}

func (c *Cluster) Append(t *Topic, p int, b *Batch) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.appendLocked(t, p, b)
}

func (c *Cluster) appendLocked(t *Topic, p int, b *Batch) {
	if b.Raw == nil {
		b.encode()
	}
	pt := t.Parts[p]
	pt.Batches = append(pt.Batches, b)
	pt.HW = b.Last + 1
	close(c.dataCh)
	c.dataCh = make(chan struct{})
}

func (c *Cluster) Wake() {
	c.mu.Lock()
	close(c.dataCh)
	c.dataCh = make(chan struct{})
	c.mu.Unlock()
}

func (c *Cluster) part(topic string, id int32) *Part {
	t := c.topics[topic]
	if t == nil {
		return nil
	}
	for _, p := range t.Parts {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (c *Cluster) dispatch(q *Req, s *sconn, errc int16) (M, bool) {
	if c.respond != nil {
		if b, ok, handled := c.respond(q, s, errc); handled {
			return b, ok
		}
	}
	switch q.Name {
	case "ApiVersions":
		c.mu.Lock()
		defer c.mu.Unlock()
		a := c.apis
		if x, ok := c.apisByNode[q.Node]; ok {
			a = x
		}
		return M{"error": errc, "apis": a}, true
	case "SaslHandshake":
		return M{"error": errc, "mechanisms": []any{"PLAIN"}}, true
	case "SaslAuthenticate":
		m := M{"error": errc, "auth": []byte{}}
		if errc != 0 {
			m["message"] = "auth failed"
		}
		return m, true
	case "Metadata":
		return c.metadata(q, errc), true
	case "FindCoordinator":
		return c.findCoordinator(q, errc), true
	case "Fetch":
		return c.fetch(q, s, errc)
	case "ListOffsets":
		return c.listOffsets(q, errc), true
	case "OffsetFetch":
		return c.offsetFetch(q, errc), true
	case "OffsetCommit":
		return c.offsetCommit(q, errc), true
	case "JoinGroup":
		return c.joinGroup(q, s, errc)
	case "SyncGroup":
		return c.syncGroup(q, s, errc)
	case "Heartbeat":
		return c.heartbeat(q, errc), true
	case "LeaveGroup":
		return c.leaveGroup(q, errc), true
	case "Produce":
		return c.produce(q, errc)
	}
	harnessFail("no handler for %s", q.Name)
	return nil, false
}

// wid is the number of a node as the clients see it.
func (c *Cluster) wid(id int32) int32 {
	if id < 0 {
		return id
	}
	return id + c.idShift
}

func (c *Cluster) wids(l []int32) []int32 {
	if c.idShift == 0 {
		return l
	}
	o := []int32{}
	for _, i := range l {
		o = append(o, c.wid(i))
	}
	return o
}

// Move gives a partition another leader.
func (c *Cluster) Move(p *Part, stale int) {
	p.WasLeader, p.WasEpoch = p.Leader, p.Epoch
	p.Leader = p.Leader%int32(len(c.nodes)) + 1
	p.Epoch++
	if stale > c.staleMeta {
		c.staleMeta = stale
	}
}

func (c *Cluster) brokerList(node int32) []any {
	var ids []int
	if c.brokersInMeta != nil {
		for _, i := range c.brokersInMeta(node) {
			ids = append(ids, int(i))
		}
	} else {
		for i := range c.nodes {
			ids = append(ids, int(i))
		}
		sort.Ints(ids)
	}
	var l []any
	for _, i := range ids {
		n := c.nodes[int32(i)]
		l = append(l, M{"node_id": c.wid(n.ID), "host": n.Host, "port": n.Port, "rack": nil})
	}
	return l
}

func (c *Cluster) metadata(q *Req, errc int16) M {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := M{"brokers": c.brokerList(q.Node), "cluster_id": c.clusterID, "controller_id": c.wid(c.controller)}
	stale := c.staleMeta > 0
	if stale {
		c.staleMeta--
	}
	var names []string
	req := q.Body["topics"]
	if req == nil || (q.Ver == 0 && len(req.([]any)) == 0) {
		for n := range c.topics {
			names = append(names, n)
		}
		sort.Strings(names)
	} else {
		for _, x := range req.([]any) {
			names = append(names, x.(string))
		}
	}
	var tl []any
	for _, n := range names {
		t := c.topics[n]
		if errc != 0 {
			tl = append(tl, M{"error": errc, "name": n, "partitions": []any{}})
			continue
		}
		if t == nil {
			tl = append(tl, M{"error": 3, "name": n, "partitions": []any{}})
			continue
		}
		var pl []any
		for _, p := range t.Parts {
			e := p.Err
			if p.Leader == -1 && e == 0 {
				e = 5
			}
			leader, epoch := p.Leader, p.Epoch
			if stale && p.WasLeader > 0 && leader > 0 {
				leader, epoch = p.WasLeader, p.WasEpoch
			}
			pl = append(pl, M{"error": e, "index": p.ID, "leader": c.wid(leader), "leader_epoch": epoch, "replicas": c.wids(p.Replicas), "isr": c.wids(p.Isr), "offline": []int32{}})
		}
		if c.shuffleMeta && len(pl) > 1 {
			k := q.Ordinal % len(pl)
			pl = append(append([]any{}, pl[k:]...), pl[:k]...)
		}
		tl = append(tl, M{"error": t.Err, "name": n, "is_internal": t.Internal, "partitions": pl})
	}
	m["topics"] = tl
	return m
}

func (c *Cluster) findCoordinator(q *Req, errc int16) M {
	c.mu.Lock()
	defer c.mu.Unlock()
	if errc != 0 {
		return M{"error": errc, "node_id": -1, "host": "", "port": -1}
	}
	if q.Body["key"].(string) == "" { // INVALID_GROUP_ID
		return M{"error": 24, "node_id": -1, "host": "", "port": -1}
	}
	g := c.group(q.Body["key"].(string))
	if g.Coord == -1 {
		return M{"error": 15, "node_id": -1, "host": "", "port": -1}
	}
	n := c.nodes[g.Coord]
	return M{"error": 0, "node_id": c.wid(n.ID), "host": n.Host, "port": n.Port}
}

// fetchData returns the bytes for one partition and what is in them.
func (c *Cluster) fetchData(p *Part, off int64, max int64, ver int) (raw []byte) {
	n := 0
	for _, b := range p.Batches {
		if b.Last < off {
			continue
		}
		if ver >= 3 && len(raw) == 0 { // the first batch is always returned whole
			raw = append(raw, b.Raw...)
		} else if c.fetchTrunc {
			room := int(max) - len(raw)
			if room <= 0 {
				break
			}
			if len(b.Raw) > room {
				raw = append(raw, b.Raw[:room]...)
				break
			}
			raw = append(raw, b.Raw...)
		} else {
			if len(raw) > 0 && len(raw)+len(b.Raw) > int(max) {
				break
			}
			raw = append(raw, b.Raw...)
		}
		n++
		if c.fetchCap > 0 && n >= c.fetchCap {
			break
		}
	}
	return raw
}

func (c *Cluster) fetch(q *Req, s *sconn, errc int16) (M, bool) {
	wait := time.Duration(toI64(q.Body["max_wait"])) * time.Millisecond
	if wait < 0 || wait > 30*time.Second {
		wait = 30 * time.Second
	}
	deadline := time.Now().Add(wait)
	for {
		c.mu.Lock()
		ch := c.dataCh
		any_ := false
		var rl []any
		for _, tx := range q.Body["topics"].([]any) {
			t := tx.(M)
			var pl []any
			for _, px := range t["partitions"].([]any) {
				pm := px.(M)
				id := int32(toI64(pm["index"]))
				off := toI64(pm["offset"])
				r := M{"index": id, "error": 0, "high_watermark": -1, "last_stable_offset": -1, "log_start_offset": -1, "aborted": nil, "records": []byte{}}
				p := c.part(t["name"].(string), id)
				switch {
				case errc != 0:
					r["error"] = errc
					any_ = true
				case p == nil:
					r["error"] = 3
					any_ = true
				case p.Leader != q.Node:
					r["error"] = c.notLeader
					any_ = true
				case q.Ver >= 9 && c.checkEpoch && toI64(pm["leader_epoch"]) >= 0 && int32(toI64(pm["leader_epoch"])) < p.Epoch:
					r["error"] = 74
					any_ = true
				case q.Ver >= 9 && c.checkEpoch && int32(toI64(pm["leader_epoch"])) > p.Epoch:
					r["error"] = 75
					any_ = true
				case off < p.Start || off > p.HW:
					r["error"] = 1
					any_ = true
				default:
					r["high_watermark"], r["last_stable_offset"], r["log_start_offset"] = p.HW, p.HW, p.Start
					d := c.fetchData(p, off, toI64(pm["max_bytes"]), int(q.Ver))
					if len(d) > 0 {
						any_ = true
					}
					r["records"] = d
					if c.aborted > 0 {
						var al []any
						for i := 0; i < c.aborted; i++ {
							al = append(al, M{"producer_id": int64(i + 1), "first_offset": p.Start + int64(i)})
						}
						r["aborted"] = al
					}
				}
				pl = append(pl, r)
			}
			rl = append(rl, M{"name": t["name"], "partitions": pl})
		}
		c.mu.Unlock()
		left := time.Until(deadline)
		if any_ || left <= 0 {
			return M{"responses": rl}, true
		}
		select {
		case <-ch:
		case <-time.After(left):
		case <-s.dead:
			return nil, false
		case <-c.done:
			return nil, false
		}
	}
}

func (c *Cluster) listOffsets(q *Req, errc int16) M {
	c.mu.Lock()
	defer c.mu.Unlock()
	var rl []any
	for _, tx := range q.Body["topics"].([]any) {
		t := tx.(M)
		var pl []any
		for _, px := range t["partitions"].([]any) {
			pm := px.(M)
			id := int32(toI64(pm["index"]))
			p := c.part(t["name"].(string), id)
			code, off := errc, int64(-1)
			switch {
			case errc != 0:
			case p == nil:
				code = 3
			case p.Leader != q.Node:
				code = c.notLeader
			default:
				switch ts := toI64(pm["timestamp"]); ts {
				case -1:
					off = p.HW
				case -2:
					off = p.Start
				default:
					if o, ok := c.topics[t["name"].(string)].ByTime[fmt.Sprintf("%d:%d", id, ts)]; ok {
						off = o
					}
				}
			}
			r := M{"index": id, "error": code, "timestamp": -1, "offset": off}
			if code == 0 {
				r["old_offsets"] = []int64{off}
			}
			pl = append(pl, r)
		}
		rl = append(rl, M{"name": t["name"], "partitions": pl})
	}
	return M{"topics": rl}
}

func (c *Cluster) store(ver int) map[string]int64 {
	if ver == 0 {
		return c.zkStore
	}
	return c.commitStore
}

func (c *Cluster) offsetFetch(q *Req, errc int16) M {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(q.Body["group"].(string))
	code := errc
	if code == 0 && q.Ver > 0 && g.Coord != q.Node {
		code = 16
	}
	var rl []any
	for _, tx := range q.Body["topics"].([]any) {
		t := tx.(M)
		var pl []any
		for _, px := range t["partitions"].([]any) {
			off := int64(-1)
			if code == 0 {
				if o, ok := c.store(q.Ver)[fmt.Sprintf("%s/%s/%d", g.ID, t["name"], toI64(px))]; ok {
					off = o
				}
			}
			pl = append(pl, M{"index": px, "offset": off, "metadata": "", "error": code})
		}
		rl = append(rl, M{"name": t["name"], "partitions": pl})
	}
	return M{"topics": rl}
}

func (c *Cluster) offsetCommit(q *Req, errc int16) M {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(q.Body["group"].(string))
	code := errc
	if code == 0 && q.Ver > 0 {
		code = g.checkCommit(q)
	}
	if code == 0 && len(c.failCommits) > 0 {
		code, c.failCommits = c.failCommits[0], c.failCommits[1:]
	}
	var rl []any
	for _, tx := range q.Body["topics"].([]any) {
		t := tx.(M)
		var pl []any
		for _, px := range t["partitions"].([]any) {
			pm := px.(M)
			if code == 0 {
				c.store(q.Ver)[fmt.Sprintf("%s/%s/%d", g.ID, t["name"], toI64(pm["index"]))] = toI64(pm["offset"])
			}
			if c.onCommit != nil {
				c.onCommit(q, t["name"].(string), int32(toI64(pm["index"])), toI64(pm["offset"]), code)
			}
			pl = append(pl, M{"index": pm["index"], "error": code})
		}
		rl = append(rl, M{"name": t["name"], "partitions": pl})
	}
	return M{"topics": rl}
}

func (c *Cluster) produce(q *Req, errc int16) (M, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var rl []any
	for _, tx := range q.Body["topics"].([]any) {
		t := tx.(M)
		var pl []any
		for _, px := range t["partitions"].([]any) {
			pm := px.(M)
			id := int32(toI64(pm["index"]))
			p := c.part(t["name"].(string), id)
			code, off := errc, int64(-1)
			switch {
			case errc != 0:
			case p == nil:
				code = 3
			case p.Leader != q.Node:
				code = 6
			default:
				off = p.HW
				raw, _ := pm["records"].([]byte)
				for _, d := range decodeBatches(raw) {
					p.HW += int64(len(d.Recs))
				}
			}
			pl = append(pl, M{"index": id, "error": code, "base_offset": off, "log_append_time": -1, "log_start_offset": 0})
		}
		rl = append(rl, M{"name": t["name"], "partitions": pl})
	}
	if toI64(q.Body["acks"]) == 0 {
		return nil, true
	}
	return M{"responses": rl}, true
}

func (c *Cluster) Close() {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return
	}
	c.closed = true
	close(c.done)
	for _, g := range c.groups {
		g.stopTimers()
	}
	c.mu.Unlock()
	for _, n := range c.nodes {
		n.ln.Close()
	}
	c.DropConns(0, false)
}
