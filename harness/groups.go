package main

// The group coordinator of the fake cluster.

import (
	"fmt"
	"time"
)

type member struct {
	id       string
	meta     []byte
	session  time.Duration
	timer    *time.Timer
	joinCh   chan M
	syncCh   chan M
	joined   bool // in the current join round
	assign   []byte
	clientID string
}

type Group struct {
	c            *Cluster
	ID           string
	Coord        int32
	State        string // Empty Preparing Completing Stable
	Gen          int32
	order        []string
	members      map[string]*member
	Leader       string
	nextID       int
	jt           *time.Timer
	round        int
	protocolType string
	dead         bool

	virt      []virtMember // members that exist only in the coordinator's answers
	virtLeads bool         // one of them leads the group
	plan      []any        // what the leader among them assigns: a list of partitions per generation
	planTopic string
	shuffle   bool // the members are listed in another order every time
	holdJoin  time.Duration
	holdSync  time.Duration
	okBeat    map[string]int32 // generation of the last accepted heartbeat
}

// virtMember is a member of a group with its subscription.
type virtMember struct {
	ID   string
	Meta []byte
}

// subscription encodes what a consumer says when it joins.
func subscription(version int, topics []string, user []byte, trail bool) []byte {
	w := &wr{}
	w.i16(int16(version))
	w.i32(int32(len(topics)))
	for _, t := range topics {
		w.i16(int16(len(t)))
		w.b = append(w.b, []byte(t)...)
	}
	if user == nil {
		w.i32(-1)
	} else {
		w.i32(int32(len(user)))
		w.b = append(w.b, user...)
	}
	if trail && version > 0 { // owned partitions: none
		w.i32(0)
	}
	return w.b
}

// subscribed reads a subscription.
func subscribed(b []byte) []string {
	l := []string{}
	r := &rd{b: b}
	if _, err := r.i16(); err != nil {
		return l
	}
	n, err := r.i32()
	if err != nil {
		return l
	}
	for i := 0; i < int(n); i++ {
		k, err := r.i16()
		if err != nil {
			return l
		}
		x, err := r.need(int(k))
		if err != nil {
			return l
		}
		l = append(l, string(x))
	}
	return l
}

// assignment encodes partitions of one topic for a member.
func assignment(topic string, ps []int32) []byte {
	w := &wr{}
	w.i16(0)
	w.i32(1)
	w.i16(int16(len(topic)))
	w.b = append(w.b, []byte(topic)...)
	w.i32(int32(len(ps)))
	for _, p := range ps {
		w.i32(p)
	}
	w.i32(-1)
	return w.b
}

// assigned reads an assignment.
func assigned(b []byte) (l []any, ok bool) {
	l = []any{}
	if len(b) == 0 {
		return l, true
	}
	r := &rd{b: b}
	if _, err := r.i16(); err != nil {
		return l, false
	}
	n, err := r.i32()
	for i := 0; i < int(n) && err == nil; i++ {
		k, err := r.i16()
		if err != nil {
			return l, false
		}
		t, err := r.need(int(k))
		if err != nil {
			return l, false
		}
		c, err := r.i32()
		for j := 0; j < int(c) && err == nil; j++ {
			var p int32
			p, err = r.i32()
			l = append(l, M{"t": string(t), "p": p})
		}
		if err != nil {
			return l, false
		}
	}
	if err != nil {
		return l, false
	}
	return l, true
}

func (c *Cluster) group(id string) *Group {
	g := c.groups[id]
	if g == nil {
		g = &Group{c: c, ID: id, Coord: 1, State: "Empty", members: map[string]*member{}}
		c.groups[id] = g
	}
	return g
}

func (g *Group) stopTimers() {
	if g.jt != nil {
		g.jt.Stop()
	}
	for _, m := range g.members {
		if m.timer != nil {
			m.timer.Stop()
		}
	}
}

func (g *Group) note(ev string, mid string, code int16) {
	if g.c.onGroup != nil {
		g.c.onGroup(M{"ev": ev, "group": g.ID, "member": mid, "gen": g.Gen, "state": g.State, "code": code})
	}
}

func (g *Group) touch(m *member) {
	if m.timer != nil {
		m.timer.Stop()
	}
	if m.session <= 0 {
		return
	}
	m.timer = time.AfterFunc(m.session, func() {
		g.c.mu.Lock()
		defer g.c.mu.Unlock()
		if g.members[m.id] != m || g.c.closed {
			return
		}
		if m.joinCh != nil || m.syncCh != nil { // waiting members do not expire
			g.touch(m)
			return
		}
		g.remove(m.id)
		g.note("Expire", m.id, 0)
		g.rebalance()
	})
}

func (g *Group) remove(id string) {
	m := g.members[id]
	if m == nil {
		return
	}
	if m.timer != nil {
		m.timer.Stop()
	}
	delete(g.members, id)
	for i, x := range g.order {
		if x == id {
			g.order = append(append([]string{}, g.order[:i]...), g.order[i+1:]...)
			break
		}
	}
	if m.joinCh != nil {
		m.joinCh <- M{"error": 25, "generation": -1, "protocol": "", "leader": "", "member": id}
		m.joinCh = nil
	}
	if m.syncCh != nil {
		m.syncCh <- M{"error": 25, "assignment": []byte{}}
		m.syncCh = nil
	}
}

// rebalance moves the group to Preparing and completes when everybody joined.
func (g *Group) rebalance() {
	if g.State == "Preparing" {
		g.maybeComplete(false)
		return
	}
	if len(g.members) == 0 {
		g.State = "Empty"
		g.Gen++
		return
	}
	first := g.State == "Empty"
	if g.State == "Completing" {
		for _, m := range g.members {
			if m.syncCh != nil {
				m.syncCh <- M{"error": 27, "assignment": []byte{}}
				m.syncCh = nil
			}
		}
	}
	g.State = "Preparing"
	g.round++
	for _, m := range g.members {
		m.joined = m.joinCh != nil
	}
	round := g.round
	var wait time.Duration = 0
	for _, m := range g.members {
		if m.session > wait {
			wait = m.session
		}
	}
	if first {
		wait = g.c.joinDelay
	}
	if g.jt != nil {
		g.jt.Stop()
	}
	g.jt = time.AfterFunc(wait, func() {
		g.c.mu.Lock()
		defer g.c.mu.Unlock()
		if g.round == round && g.State == "Preparing" && !g.c.closed {
			g.maybeComplete(true)
		}
	})
	if !first {
		g.maybeComplete(false)
	}
}

func (g *Group) maybeComplete(force bool) {
	if g.State != "Preparing" {
		return
	}
	if len(g.members) == 0 {
		g.State = "Empty"
		g.Gen++
		return
	}
	if !force {
		if g.Gen == 0 { // the initial delay runs
			return
		}
		for _, m := range g.members {
			if m.joinCh == nil {
				return
			}
		}
	} else {
		for _, id := range append([]string{}, g.order...) {
			if g.members[id].joinCh == nil {
				g.remove(id)
				g.note("Expire", id, 0)
			}
		}
		if len(g.members) == 0 {
			g.State = "Empty"
			g.Gen++
			return
		}
	}
	g.Gen++
	g.State = "Completing"
	if g.members[g.Leader] == nil {
		g.Leader = g.order[0]
	}
	var all []any
	for _, id := range g.order {
		all = append(all, M{"member": id, "metadata": g.members[id].meta})
	}
	for _, v := range g.virt {
		all = append(all, M{"member": v.ID, "metadata": v.Meta})
	}
	if g.virtLeads {
		g.Leader = g.virt[0].ID
	}
	if g.shuffle {
		k := len(all)
		for i := range all {
			j := (i*7 + int(g.Gen)*3 + i*int(g.Gen)) % k
			all[i], all[j] = all[j], all[i]
		}
	}
	for _, id := range g.order {
		m := g.members[id]
		r := M{"error": 0, "generation": g.Gen, "protocol": "range", "leader": g.Leader, "member": id}
		if id == g.Leader {
			r["members"] = all
		}
		m.assign = []byte{}
		if g.virtLeads {
			var ps []int32
			if len(g.plan) > 0 {
				for _, x := range g.plan[int(g.Gen)%len(g.plan)].([]any) {
					ps = append(ps, int32(toI64(x)))
				}
			}
			if len(ps) > 0 || g.Gen%2 == 0 {
				m.assign = assignment(g.planTopic, ps)
			}
		}
		m.joinCh <- r
		m.joinCh = nil
		g.touch(m)
	}
	if g.virtLeads {
		g.State = "Stable"
	}
}

func (c *Cluster) joinGroup(q *Req, s *sconn, errc int16) (M, bool) {
	fail := func(code int16) M {
		return M{"error": code, "generation": -1, "protocol": "", "leader": "", "member": q.Body["member"]}
	}
	c.mu.Lock()
	g := c.group(q.Body["group"].(string))
	mid := q.Body["member"].(string)
	if errc != 0 {
		if errc == 25 {
			g.remove(mid)
			g.rebalance()
		}
		c.mu.Unlock()
		return fail(errc), true
	}
	if g.Coord != q.Node {
		c.mu.Unlock()
		return fail(16), true
	}
	var m *member
	if mid == "" {
		g.nextID++
		mid = fmt.Sprintf("%s-m%d", q.Client, g.nextID)
		m = &member{id: mid}
		g.members[mid] = m
		g.order = append(g.order, mid)
	} else if m = g.members[mid]; m == nil {
		c.mu.Unlock()
		return fail(25), true
	}
	m.clientID = q.Client
	m.session = time.Duration(toI64(q.Body["session_timeout"])) * time.Millisecond
	ps := q.Body["protocols"].([]any)
	if len(ps) > 0 {
		m.meta, _ = ps[0].(M)["metadata"].([]byte)
	}
	ch := make(chan M, 1)
	if m.joinCh != nil { // a second join of the same member replaces the first
		m.joinCh <- fail(27)
	}
	m.joinCh = ch
	m.joined = true
	g.touch(m)
	if g.State == "Preparing" {
		g.maybeComplete(false)
	} else {
		g.rebalance()
	}
	c.mu.Unlock()
	if g.holdJoin > 0 {
		select {
		case <-time.After(g.holdJoin):
		case <-s.dead:
		case <-c.done:
		}
	}
	select {
	case r := <-ch:
		return r, true
	case <-s.dead:
		// the member stays until its session expires
		c.mu.Lock()
		if m.joinCh == ch {
			m.joinCh = nil
		}
		c.mu.Unlock()
		return nil, false
	case <-c.done:
		return nil, false
	}
}

func (c *Cluster) syncGroup(q *Req, s *sconn, errc int16) (M, bool) {
	c.mu.Lock()
	g := c.group(q.Body["group"].(string))
	mid := q.Body["member"].(string)
	m := g.members[mid]
	code := errc
	if errc == 25 {
		g.remove(mid)
		g.rebalance()
	}
	switch {
	case code != 0:
	case g.Coord != q.Node:
		code = 16
	case m == nil:
		code = 25
	case int32(toI64(q.Body["generation"])) != g.Gen:
		code = 22
	case g.State == "Preparing":
		code = 27
	}
	if code != 0 {
		c.mu.Unlock()
		return M{"error": code, "assignment": []byte{}}, true
	}
	g.touch(m)
	if g.State == "Stable" {
		a := m.assign
		c.mu.Unlock()
		return M{"error": 0, "assignment": a}, true
	}
	ch := make(chan M, 1)
	m.syncCh = ch
	if mid == g.Leader {
		for _, ax := range q.Body["assignments"].([]any) {
			a := ax.(M)
			if x := g.members[a["member"].(string)]; x != nil {
				x.assign, _ = a["assignment"].([]byte)
			}
		}
		g.State = "Stable"
		for _, x := range g.members {
			if x.syncCh != nil {
				x.syncCh <- M{"error": 0, "assignment": x.assign}
				x.syncCh = nil
			}
			g.touch(x)
		}
	}
	hold := g.holdSync
	c.mu.Unlock()
	if hold > 0 {
		select {
		case <-time.After(hold):
		case <-s.dead:
		case <-c.done:
		}
	}
	select {
	case r := <-ch:
		return r, true
	case <-s.dead:
		c.mu.Lock()
		if m.syncCh == ch {
			m.syncCh = nil
		}
		c.mu.Unlock()
		return nil, false
	case <-c.done:
		return nil, false
	}
}

func (c *Cluster) heartbeat(q *Req, errc int16) M {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(q.Body["group"].(string))
	mid := q.Body["member"].(string)
	m := g.members[mid]
	if errc != 0 {
		if errc == 25 && m != nil {
			g.remove(mid)
			g.note("Expire", mid, 0)
			g.rebalance()
		}
		if errc == 27 && g.State == "Stable" {
			g.rebalance()
		}
		return M{"error": errc}
	}
	code := int16(0)
	switch {
	case g.Coord != q.Node:
		code = 16
	case m == nil:
		code = 25
	case int32(toI64(q.Body["generation"])) != g.Gen:
		code = 22
	case g.State == "Preparing":
		code = 27
		g.touch(m)
	case g.State == "Completing":
		g.touch(m)
	default:
		g.touch(m)
		if g.okBeat == nil {
			g.okBeat = map[string]int32{}
		}
		g.okBeat[m.clientID] = g.Gen
	}
	return M{"error": code}
}

func (c *Cluster) leaveGroup(q *Req, errc int16) M {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(q.Body["group"].(string))
	mid := q.Body["member"].(string)
	if errc != 0 {
		return M{"error": errc}
	}
	if g.Coord != q.Node {
		return M{"error": 16}
	}
	if g.members[mid] == nil {
		return M{"error": 25}
	}
	g.remove(mid)
	g.rebalance()
	return M{"error": 0}
}

func (g *Group) checkCommit(q *Req) int16 {
	gen := int32(-1)
	mid := ""
	if x, ok := q.Body["generation"]; ok {
		gen = int32(toI64(x))
		mid = q.Body["member"].(string)
	}
	if g.Coord != q.Node {
		return 16
	}
	if gen < 0 && len(g.members) == 0 {
		return 0
	}
	m := g.members[mid]
	if m == nil {
		return 25
	}
	if gen != g.Gen {
		return 22
	}
	if g.State == "Completing" {
		return 27
	}
	g.touch(m)
	return 0
}

// MoveCoordinator moves a group (with its state) to another node.
func (c *Cluster) MoveCoordinator(gid string, to int32, loseMembers bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(gid)
	g.Coord = to
	if loseMembers {
		for _, id := range append([]string{}, g.order...) {
			g.remove(id)
			g.note("Expire", id, 0)
		}
		g.State = "Empty"
		g.Gen++
	}
}
