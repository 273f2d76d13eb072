package main

// Driver "admin": the administrative and lookup calls of Client, Brokers and
// Broker, against a cluster that answers what the script says.  Every request
// is decoded by the independent codec, every answer encoded by it, and the
// values the caller gets are recorded in the protocol's own terms.
// Bears on B03, M02, M03, M04.

import (
	"context"
	"encoding"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["admin"] = drvAdmin }

// expand turns the generator's tokens into values.
func expand(x any) any {
	switch v := x.(type) {
	case string:
		switch {
		case v == "$null":
			return nil
		case v == "$long":
			return strings.Repeat("abcdefghij", 30)
		case v == "$edge": // one byte more than a one-byte varint can tell
			return strings.Repeat("e", 127)
		case v == "$huge":
			return strings.Repeat("0123456789", 2000)
		case v == "$utf":
			return "тема-é-日本"
		case v == "$sp":
			return " a\tb,c=d*\"\\ "
		case strings.HasPrefix(v, "$hex:"):
			b, err := hex.DecodeString(v[5:])
			if err != nil {
				harnessFail("%v", err)
			}
			return b
		case strings.HasPrefix(v, "$asg:"): // t:0,1
			f := strings.Split(v[5:], ":")
			var ps []int32
			for _, y := range strings.Split(f[1], ",") {
				if y != "" {
					n, _ := strconv.Atoi(y)
					ps = append(ps, int32(n))
				}
			}
			return assignment(f[0], ps)
		case strings.HasPrefix(v, "#"):
			n, err := strconv.ParseInt(v[1:], 10, 64)
			if err != nil {
				harnessFail("%v", err)
			}
			return n
		}
		return v
	case float64:
		return int64(v)
	case []any:
		r := make([]any, len(v))
		for i := range v {
			r[i] = expand(v[i])
		}
		return r
	case M:
		r := M{}
		for k, e := range v {
			r[k] = expand(e)
		}
		return r
	}
	return x
}

// leafs makes every leaf a string, so that any two values can be compared.
func leafs(x any) any {
	switch v := x.(type) {
	case M:
		r := M{}
		for k, e := range v {
			r[k] = leafs(e)
		}
		return r
	case []any:
		r := make([]any, len(v))
		for i := range v {
			r[i] = leafs(v[i])
		}
		return r
	case string:
		return v
	case []byte:
		return bstr(v)
	case nil:
		return nullMark
	}
	return fmt.Sprint(x)
}

// nulls marks null lists as the specification does.
func nulls(fs []*field, b M) M {
	r := M{}
	for k, v := range b {
		r[k] = v
	}
	for _, f := range fs {
		v, ok := r[f.name]
		if !ok || !f.arr {
			continue
		}
		if v == nil {
			if f.typ == "struct" {
				r[f.name] = []any{M{"null": nil}}
			} else {
				r[f.name] = []any{nil}
			}
		} else if f.typ == "struct" {
			l := []any{}
			for _, e := range v.([]any) {
				l = append(l, nulls(f.sub, e.(M)))
			}
			r[f.name] = l
		}
	}
	return r
}

// canon is a body as its encoding in this version carries it.
func canon(q *Req, fs []*field, body M) M {
	flex := q.Ver >= schemas[q.Key].flexFrom
	w := &wr{}
	encFields(w, fs, body, q.Ver, flex)
	m, err := decFields(&rd{b: w.b}, fs, q.Ver, flex)
	if err != nil {
		harnessFail("canon %s: %v", q.Name, err)
	}
	return m
}

func codesIn(x any, l []any) []any {
	switch v := x.(type) {
	case M:
		for k, e := range v {
			if k == "error" {
				if toI64(e) != 0 {
					l = append(l, e)
				}
			} else {
				l = codesIn(e, l)
			}
		}
	case []any:
		for _, e := range v {
			l = codesIn(e, l)
		}
	}
	return l
}

func sptr(x any) *string {
	if x == nil {
		return nil
	}
	s := x.(string)
	return &s
}
func pstr(s *string) any {
	if s == nil {
		return nil
	}
	return *s
}
func i32s(x any) []int32 {
	if x == nil {
		return nil
	}
	r := []int32{}
	for _, e := range x.([]any) {
		r = append(r, int32(toI64(e)))
	}
	return r
}
func strs(x any) []string {
	if x == nil {
		return nil
	}
	r := []string{}
	for _, e := range x.([]any) {
		r = append(r, e.(string))
	}
	return r
}

// orNil asks for everything when nothing is named.
func orNil(l []string) []string {
	if len(l) == 0 {
		return nil
	}
	return l
}

// ilist never is null.
func ilist(l []int32) []any {
	r := []any{}
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

func u8(x any) uint8 { return uint8(toI64(x)) }

// The codes of ACL enumerations reach the client the way a user gives them: by
// Kafka's name, by number, or (codes Kafka has no name for) as they are.
var aclNames = map[string][]string{
	"resource":   {"UNKNOWN", "ANY", "TOPIC", "GROUP", "CLUSTER", "TRANSACTIONAL_ID", "DELEGATION_TOKEN", "USER"},
	"pattern":    {"UNKNOWN", "ANY", "MATCH", "LITERAL", "PREFIXED"},
	"operation":  {"UNKNOWN", "ANY", "ALL", "READ", "WRITE", "CREATE", "DELETE", "ALTER", "DESCRIBE", "CLUSTER_ACTION", "DESCRIBE_CONFIGS", "ALTER_CONFIGS", "IDEMPOTENT_WRITE"},
	"permission": {"UNKNOWN", "ANY", "DENY", "ALLOW"},
}
var aclTurn int

func aclText(kind string, x any, to encoding.TextUnmarshaler) bool {
	v, names := toI64(x), aclNames[kind]
	if v < 0 || v >= int64(len(names)) {
		return false
	}
	aclTurn++
	text := names[v]
	switch aclTurn % 3 {
	case 1:
		text = strings.ToLower(text)
	case 2:
		if !(kind == "resource" && v == 4) {
			text = fmt.Sprint(v)
		}
	}
	return to.UnmarshalText([]byte(text)) == nil
}
func aclResource(x any) (v healer.AclsResourceType) {
	if !aclText("resource", x, &v) {
		v = healer.AclsResourceType(u8(x))
	}
	return
}
func aclPattern(x any) (v healer.AclsPatternType) {
	if !aclText("pattern", x, &v) {
		v = healer.AclsPatternType(u8(x))
	}
	return
}
func aclOperation(x any) (v healer.AclsOperation) {
	if !aclText("operation", x, &v) {
		v = healer.AclsOperation(u8(x))
	}
	return
}
func aclPermission(x any) (v healer.AclsPermissionType) {
	if !aclText("permission", x, &v) {
		v = healer.AclsPermissionType(u8(x))
	}
	return
}

type admin struct {
	s      *Script
	c      *Cluster
	cl     *healer.Client
	bs     *healer.Brokers
	mu     sync.Mutex
	call   M
	ranges map[int]map[int16]M // connection -> what it was told
	keep   map[string]*healer.ListGroupsRequest
}

// lookups may go to any broker at any time.
var lookups = map[string]bool{"ApiVersions": true, "Metadata": true, "FindCoordinator": true, "SaslHandshake": true, "SaslAuthenticate": true}

func (a *admin) respond(q *Req, _ *sconn, errc int16) (M, bool, bool) {
	a.mu.Lock()
	call := a.call
	a.mu.Unlock()
	if q.Name == "ApiVersions" {
		return nil, false, false
	}
	if call == nil {
		if lookups[q.Name] {
			return nil, false, false
		}
		return M{}, true, true
	}
	switch q.Name {
	case "Metadata", "Produce", "Fetch", "JoinGroup", "SyncGroup", "Heartbeat", "LeaveGroup":
		return nil, false, false
	case "FindCoordinator":
		return nil, false, false
	case "ListOffsets":
		b := a.c.listOffsets(q, errc)
		for _, x := range asList(call["perr"]) {
			e := x.(M)
			for _, t := range b["topics"].([]any) {
				for _, p := range t.(M)["partitions"].([]any) {
					if toI64(p.(M)["index"]) == toI64(e["p"]) {
						p.(M)["error"] = e["code"]
						if toI64(e["code"]) != 0 {
							p.(M)["offset"] = int64(-1)
						}
					}
				}
			}
		}
		for _, t := range b["topics"].([]any) {
			for _, p := range t.(M)["partitions"].([]any) {
				if l := asList(call["more"]); q.Ver == 0 && len(l) > 0 {
					p.(M)["old_offsets"] = l
				}
				if x, ok := call["stamp"]; ok {
					p.(M)["timestamp"] = x
				}
			}
		}
		return b, true, true
	case "OffsetFetch":
		if call["op"] != "Pending" {
			break
		}
		ts := []any{}
		for _, x := range asList(q.Body["topics"]) {
			ps := []any{}
			for _, p := range asList(x.(M)["partitions"]) {
				r := M{"index": p, "offset": int64(-1), "metadata": "", "error": int64(0)}
				for _, y := range asList(call["com"]) {
					if toI64(y.(M)["p"]) == toI64(p) {
						r["offset"], r["error"] = y.(M)["off"], y.(M)["code"]
					}
				}
				ps = append(ps, r)
			}
			ts = append(ts, M{"name": x.(M)["name"], "partitions": ps})
		}
		return M{"topics": ts}, true, true
	case "DeleteGroups":
		var l []any
		for _, n := range q.Body["names"].([]any) {
			code := int64(0)
			for _, x := range asList(call["codes"]) {
				if x.(M)["group"] == n {
					code = toI64(x.(M)["code"])
				}
			}
			l = append(l, M{"group": n, "error": code})
		}
		return M{"throttle": call["throttle"], "results": l}, true, true
	}
	for _, x := range asList(call["ans"]) {
		if n := toI64(x.(M)["node"]); n == 0 || int32(n) == q.Node {
			return x.(M)["body"].(M), true, true
		}
	}
	return a.empty(q), true, true
}

// empty is an answer without anything in it.
func (a *admin) empty(q *Req) M { return M{} }

func (a *admin) apis(v any) []M {
	l := defaultApis()
	for _, x := range asList(v) {
		r := x.(M)
		for _, d := range l {
			if schemas[int16(toI64(d["key"]))].name == r["api"] {
				d["min"], d["max"] = toI64(r["lo"]), toI64(r["hi"])
			}
		}
	}
	// a broker may name apis the client has never heard of
	return append(l, M{"key": int64(71), "min": int64(0), "max": int64(3)})
}

func (a *admin) layout() {
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	m := M{"ev": "Layout", "ctl": a.c.controller}
	var ns, ts, gs []any
	for id := range a.c.nodes {
		ns = append(ns, id)
	}
	for _, t := range a.c.topics {
		ps := []any{}
		for _, p := range t.Parts {
			ps = append(ps, M{"p": fmt.Sprint(p.ID), "leader": p.Leader, "reps": ilist(p.Replicas)})
		}
		ts = append(ts, M{"t": t.Name, "parts": ps})
	}
	for _, g := range a.c.groups {
		gs = append(gs, M{"g": g.ID, "n": g.Coord})
	}
	if gs == nil {
		gs = []any{}
	}
	if ts == nil {
		ts = []any{}
	}
	m["nodes"], m["topics"], m["groups"] = ns, ts, gs
	rec.Ev(m)
}

func drvAdmin(s *Script) {
	for k, v := range s.P {
		s.P[k] = expand(v)
	}
	c := NewCluster(0)
	a := &admin{s: s, c: c, ranges: map[int]map[int16]M{}, keep: map[string]*healer.ListGroupsRequest{}}
	for _, x := range s.list("ids") {
		c.AddNode(int32(toI64(x)))
	}
	c.controller = int32(s.num("ctl", 1))
	c.clusterID = s.P["clusterid"]
	tagJunk = s.flag("tagged")
	for _, x := range s.list("topics") {
		tm := x.(M)
		t := c.AddTopic(tm["t"].(string), nil)
		if e, ok := tm["err"]; ok {
			t.Err = int16(toI64(e))
		}
		t.Internal, _ = tm["internal"].(bool)
		for _, y := range asList(tm["parts"]) {
			pm := y.(M)
			p := &Part{ID: int32(toI64(pm["p"])), Leader: int32(toI64(pm["leader"])), Epoch: 3, Replicas: i32s(pm["reps"]), Isr: i32s(pm["isr"]),
				Start: toI64(pm["start"]), HW: toI64(pm["end"])}
			t.Parts = append(t.Parts, p)
			t.ByTime[fmt.Sprintf("%d:%d", p.ID, int64(1700000000000))] = p.Start + 1
		}
	}
	for _, x := range s.list("groups") {
		c.group(x.(M)["g"].(string)).Coord = int32(toI64(x.(M)["n"]))
	}
	for _, x := range s.list("apis") {
		c.apisByNode[int32(toI64(x.(M)["node"]))] = a.apis(x.(M)["apis"])
	}
	c.respond = a.respond
	c.onReq = func(q *Req) {
		if q.Name == "ApiVersions" {
			return
		}
		lo, hi := int64(0), int64(0)
		a.mu.Lock()
		if r := a.ranges[q.Conn][q.Key]; r != nil {
			lo, hi = toI64(r["min"]), toI64(r["max"])
		}
		a.mu.Unlock()
		body := M{}
		if q.Name != "Produce" && q.Name != "Fetch" && schemas[q.Key] != nil {
			body = nulls(schemas[q.Key].req, q.Body)
		}
		rec.Ev(M{"ev": "Req", "n": q.Node, "api": q.Name, "ver": q.Ver, "lo": lo, "hi": hi, "ok": q.DecErr == "", "why": q.DecErr, "body": leafs(body)})
	}
	c.onRule = func(q *Req, r *Rule) {
		switch r.Act {
		case "drop", "rst", "stall", "cut", "cutrst", "cutstall":
			rec.Ev(M{"ev": "Lost", "n": q.Node, "api": q.Name})
		}
	}
	c.onResp = func(q *Req, body M, _ []byte, act string) {
		if q.Name == "ApiVersions" {
			m := map[int16]M{}
			for _, x := range asList(body["apis"]) {
				m[int16(toI64(x.(M)["key"]))] = x.(M)
			}
			a.mu.Lock()
			a.ranges[q.Conn] = m
			a.mu.Unlock()
			return
		}
		if strings.HasPrefix(act, "cut") || q.Name == "Fetch" || q.Name == "Produce" {
			return
		}
		b := canon(q, schemas[q.Key].resp, body)
		if q.Name == "DescribeGroups" {
			for _, g := range b["groups"].([]any) {
				for _, m := range g.(M)["members"].([]any) {
					mm := m.(M)
					mm["parsed"] = []any{}
					if g.(M)["protocol_type"] == "consumer" {
						l, _ := assigned(mm["assignment"].([]byte))
						sortTP(l)
						mm["parsed"] = l
					}
				}
			}
		}
		codes := codesIn(b, nil)
		if codes == nil {
			codes = []any{}
		}
		rec.Ev(M{"ev": "Ans", "n": q.Node, "api": q.Name, "ver": q.Ver, "body": leafs(b), "codes": codes})
	}
	c.mu.Lock()
	c.rules = s.Rules
	c.mu.Unlock()
	a.layout()

	front := s.str("front", "")
	var api *apiServer
	if front == "api" {
		api = a.startAPI()
	}
	var err error
	if front == "" && !bounded(20*time.Second, func() {
		if a.cl, err = healer.NewClient(c.Bootstrap(), s.str("client", "v")); err == nil {
			a.bs, err = healer.NewBrokers(c.Bootstrap())
		}
	}) {
		hung(M{"in": "create"})
	}
	if err != nil {
		rec.Ev(M{"ev": "NoHandle", "err": err.Error()})
		return
	}
	for _, x := range s.list("calls") {
		call := x.(M)
		op := call["op"].(string)
		args, _ := call["a"].(M)
		if args == nil {
			args = M{}
		}
		switch op {
		case "apis": // the broker comes back with other versions
			n := int32(toI64(args["node"]))
			c.mu.Lock()
			c.apisByNode[n] = a.apis(args["apis"])
			c.mu.Unlock()
			c.DropNode(n, true)
			for i := 0; i < 5; i++ { // until both handles have noticed
				time.Sleep(5 * time.Millisecond)
				_, e1 := a.raw(int64(n), healer.NewFindCoordinatorRequest("v", "warm"))
				_, e2 := a.cl.DescribeConfigs("broker", fmt.Sprint(n), []string{"warm"})
				if e1 == nil && e2 == nil {
					break
				}
			}
			continue
		case "move":
			c.mu.Lock()
			if t := c.topics[args["t"].(string)]; t != nil && len(t.Parts) > 0 {
				t.Parts[int(toI64(args["i"]))%len(t.Parts)].Leader = int32(toI64(args["n"]))
			}
			c.mu.Unlock()
			a.layout()
			continue
		case "ctl": // another broker is in control, and the handles learn about it
			c.mu.Lock()
			c.controller = int32(toI64(args["n"]))
			c.mu.Unlock()
			a.layout()
			if front == "" {
				var e error
				if !bounded(20*time.Second, func() {
					a.cl.RefreshMetadata()
					a.bs.Close()
					a.bs, e = healer.NewBrokers(c.Bootstrap())
				}) {
					hung(M{"in": "refresh"})
				}
				if e != nil {
					rec.Ev(M{"ev": "NoHandle", "err": e.Error()})
					return
				}
			}
			continue
		case "coord":
			c.mu.Lock()
			c.group(args["g"].(string)).Coord = int32(toI64(args["n"]))
			c.mu.Unlock()
			a.layout()
			continue
		}
		a.mu.Lock()
		a.call = call
		a.mu.Unlock()
		if front != "" {
			auth, _ := call["auth"].(string)
			bad, _ := call["bad"].(bool)
			method := ""
			if front == "api" && op != "Second" {
				method, _, _, _ = a.apiReq(op, args, isAlt(call))
			}
			rec.Ev(M{"ev": "Call", "op": op, "a": leafs(args), "auth": auth, "bad": bad, "method": method})
			var o outcome
			if op == "Second" {
				o = a.second()
			} else if front == "cli" {
				o = a.cli(op, args, call)
			} else {
				o = a.ask(api, op, args, call)
			}
			ev := M{"ev": "Ret", "op": op, "err": o.err, "code": 0, "status": o.status, "msg": o.msg, "said": o.said, "read": o.val != nil, "val": M{}}
			if o.val != nil {
				ev["val"] = leafs(o.val)
			}
			rec.Ev(ev)
			a.mu.Lock()
			a.call = nil
			a.mu.Unlock()
			if api != nil && s.flag("release") { // the answer is given, nothing is left of the request
				ports := map[int]bool{}
				for _, n := range c.nodes {
					ports[n.Port] = true
				}
				k := 0
				waitFor(2*time.Second+3*time.Duration(lagMax.Load()), func() bool { k = heldBy(fmt.Sprint(api.cmd.Process.Pid), ports); return k == 0 })
				rec.Ev(M{"ev": "Rest", "held": k})
			}
			continue
		}
		rec.Ev(M{"ev": "Call", "op": op, "a": leafs(args)})
		var val any
		var cerr error
		if !bounded(20*time.Second, func() { val, cerr = a.do(op, args) }) {
			hung(M{"in": op})
		}
		ev := M{"ev": "Ret", "op": op, "err": cerr != nil, "code": 0, "msg": "", "val": leafs(val)}
		if cerr != nil {
			var k healer.KafkaError
			if errors.As(cerr, &k) {
				ev["code"] = int16(k)
			}
			ev["msg"] = cerr.Error()
		}
		if val == nil {
			ev["val"] = M{}
		}
		rec.Ev(ev)
		a.mu.Lock()
		a.call = nil
		a.mu.Unlock()
	}
	rec.Ev(M{"ev": "End"})
	c.Close()
}

func sortTP(l []any) {
	sort.Slice(l, func(i, j int) bool {
		x, y := l[i].(M), l[j].(M)
		if x["t"] != y["t"] {
			return x["t"].(string) < y["t"].(string)
		}
		return toI64(x["p"]) < toI64(y["p"])
	})
}

func (a *admin) raw(node any, r healer.Request) (healer.Response, error) {
	b, err := a.bs.GetBroker(int32(toI64(node)))
	if err != nil {
		return nil, err
	}
	return b.RequestAndGet(r)
}

func num32(x any) int32 { return int32(toI64(x)) }

func (a *admin) do(op string, g M) (any, error) {
	id := a.s.str("client", "v")
	flag := func(k string) bool { b, _ := g[k].(bool); return b }
	str := func(k string) string { x, _ := g[k].(string); return x }
	each := func(k string, f func(M)) {
		for _, x := range asList(g[k]) {
			f(x.(M))
		}
	}
	switch op {
	case "ListGroups":
		r, err := a.cl.ListGroups()
		l := []any{}
		for n, gs := range r {
			l = append(l, M{"n": n, "groups": groupsVal(gs)})
		}
		return l, err
	case "RawListGroups", "AskListGroups":
		q := a.keep["k"]
		if q == nil || !flag("reuse") {
			q = healer.NewListGroupsRequest(id)
			a.keep["k"] = q
		}
		if g["states"] != nil {
			q.SetStatesFilter(strs(g["states"]))
			q.SetTypesFilter(strs(g["types"]))
		}
		var r healer.Response
		var err error
		if op == "AskListGroups" {
			r, err = a.bs.Request(q)
		} else {
			r, err = a.raw(g["node"], q)
		}
		if x, ok := r.(*healer.ListGroupsResponse); ok && x != nil {
			return M{"throttle": x.ThrottleTimeMS, "error": int16(x.ErrorCode), "groups": groupsVal(x.Groups)}, err
		}
		return nil, err
	case "DescribeLogDirs":
		r, err := a.cl.DescribeLogDirs(orNil(strs(g["topics"])))
		l := []any{}
		for n, x := range r {
			ds := []any{}
			for _, d := range x.Results {
				ts := []any{}
				for _, t := range d.Topics {
					ps := []any{}
					for _, p := range t.Partitions {
						ps = append(ps, M{"index": p.PartitionID, "size": p.Size, "offset_lag": p.OffsetLag, "is_future": p.IsFutureKey})
					}
					ts = append(ts, M{"name": t.TopicName, "partitions": ps})
				}
				ds = append(ds, M{"error": d.ErrorCode, "log_dir": d.LogDir, "topics": ts})
			}
			l = append(l, M{"n": n, "throttle": x.ThrottleTimeMS, "results": ds})
		}
		return l, err
	case "DeleteTopics":
		r, err := a.cl.DeleteTopics(strs(g["names"]), num32(g["timeout"]))
		l := []any{}
		for _, x := range r.Results {
			l = append(l, M{"name": x.TopicName, "error": x.ErrorCode})
		}
		return M{"responses": l}, err
	case "CreateTopic":
		r, err := a.cl.CreateTopic(str("name"), num32(g["num"]), int16(toI64(g["repl"])), uint32(toI64(g["timeout"])))
		return createTopicsVal(r), err
	case "CreateTopics":
		r, err := a.cl.CreateTopics(strs(g["names"]), num32(g["num"]), int16(toI64(g["repl"])), uint32(toI64(g["timeout"])))
		return createTopicsVal(r), err
	case "RawCreateTopics":
		q := healer.NewCreateTopicsRequest(id, uint32(toI64(g["timeout"])))
		var err error
		each("topics", func(t M) {
			if e := q.AddTopic(t["name"].(string), num32(t["num"]), int16(toI64(t["repl"]))); e != nil && err == nil {
				err = e
			}
			for _, x := range asList(t["assign"]) {
				if e := q.AddReplicaAssignment(t["name"].(string), num32(x.(M)["p"]), i32s(x.(M)["reps"])); e != nil && err == nil {
					err = e
				}
			}
			for _, x := range asList(t["configs"]) {
				k := q.CreateTopicRequests[len(q.CreateTopicRequests)-1]
				k.ConfigEntries = append(k.ConfigEntries, &healer.ConfigEntry{ConfigName: x.(M)["k"].(string), ConfigValue: x.(M)["v"].(string)})
			}
		})
		if err != nil {
			return nil, err
		}
		r, err := a.raw(g["node"], q)
		if x, ok := r.(healer.CreateTopicsResponse); ok {
			return createTopicsVal(x), err
		}
		return nil, err
	case "CreatePartitions":
		var r healer.CreatePartitionsResponse
		var err error
		if g["assign"] == nil {
			r, err = a.cl.CreatePartitions(str("name"), num32(g["count"]), uint32(toI64(g["timeout"])), flag("validate"))
		} else {
			as := [][]int32{}
			for _, x := range asList(g["assign"]) {
				as = append(as, i32s(x))
			}
			r, err = a.cl.CreatePartitionsWithAssignments(str("name"), num32(g["count"]), as, uint32(toI64(g["timeout"])), flag("validate"))
		}
		return createPartitionsVal(r), err
	case "RawCreatePartitions":
		q := healer.NewCreatePartitionsRequest(id, uint32(toI64(g["timeout"])), flag("validate"))
		each("topics", func(t M) {
			var as [][]int32
			if t["assign"] != nil {
				as = [][]int32{}
				for _, x := range asList(t["assign"]) {
					as = append(as, i32s(x))
				}
			}
			q.AddTopic(t["name"].(string), num32(t["count"]), as)
		})
		r, err := a.raw(g["node"], &q)
		if x, ok := r.(healer.CreatePartitionsResponse); ok {
			return createPartitionsVal(x), err
		}
		return nil, err
	case "DeleteGroups":
		r, err := a.cl.DeleteGroups(strs(g["groups"]))
		return deleteGroupsVal(r), err
	case "RawDeleteGroups":
		r, err := a.raw(g["node"], healer.NewDeleteGroupsRequest(id, strs(g["groups"])))
		if x, ok := r.(healer.DeleteGroupsResponse); ok {
			return deleteGroupsVal(x), err
		}
		return nil, err
	case "DescribeAcls":
		r, err := a.cl.DescribeAcls(healer.DescribeAclsRequestBody{ResourceType: aclResource(g["resource_type"]), ResourceName: sptr(g["resource_name"]),
			PatternType: aclPattern(g["pattern_type"]), Principal: sptr(g["principal"]), Host: sptr(g["host"]),
			Operation: aclOperation(g["operation"]), PermissionType: aclPermission(g["permission"])})
		l := []any{}
		for _, x := range r.Resources {
			as := []any{}
			for _, y := range x.Acls {
				as = append(as, M{"principal": y.Principal, "host": y.Host, "operation": int8(y.Operation), "permission": int8(y.PermissionType)})
			}
			l = append(l, M{"resource_type": int8(x.ResourceType), "resource_name": x.ResourceName, "pattern_type": int8(x.PatternType), "acls": as})
		}
		return M{"throttle": r.ThrottleTimeMs, "error": r.ErrorCode, "message": pstr(r.ErrorMessage), "resources": l}, err
	case "CreateAcls":
		var cs []healer.AclCreation
		each("creations", func(x M) {
			cs = append(cs, healer.AclCreation{ResourceType: aclResource(x["resource_type"]), ResourceName: x["resource_name"].(string),
				PatternType: aclPattern(x["pattern_type"]), Principal: x["principal"].(string), Host: x["host"].(string),
				Operation: aclOperation(x["operation"]), PermissionType: aclPermission(x["permission"])})
		})
		r, err := a.cl.CreateAcls(cs)
		if r == nil {
			return nil, err
		}
		l := []any{}
		for _, x := range r.Results {
			l = append(l, M{"error": int16(x.ErrorCode), "message": pstr(x.ErrorMessage)})
		}
		return M{"results": l}, err
	case "DeleteAcls":
		var fs []*healer.DeleteAclsFilter
		each("filters", func(x M) {
			fs = append(fs, &healer.DeleteAclsFilter{ResourceType: aclResource(x["resource_type"]), ResourceName: sptr(x["resource_name"]),
				PatternType: aclPattern(x["pattern_type"]), Principal: sptr(x["principal"]), Host: sptr(x["host"]),
				Operation: aclOperation(x["operation"]), PermissionType: aclPermission(x["permission"])})
		})
		r, err := a.cl.DeleteAcls(fs)
		if r == nil {
			return nil, err
		}
		l := []any{}
		for _, x := range r.FilterResults {
			as := []any{}
			for _, y := range x.MatchingAcls {
				as = append(as, M{"error": y.ErrorCode, "message": pstr(y.ErrorMessage), "resource_type": int8(y.ResourceType), "resource_name": y.ResourceName,
					"pattern_type": int8(y.PatternType), "principal": y.Principal, "host": y.Host, "operation": int8(y.Operation), "permission": int8(y.PermissionType)})
			}
			l = append(l, M{"error": x.ErrorCode, "message": pstr(x.ErrorMessage), "acls": as})
		}
		return M{"throttle": r.ThrottleTimeMs, "results": l}, err
	case "DescribeConfigs":
		r, err := a.cl.DescribeConfigs(str("type"), str("name"), strs(g["keys"]))
		return describeConfigsVal(r), err
	case "RawDescribeConfigs":
		var rs []*healer.DescribeConfigsRequestResource
		each("resources", func(x M) {
			rs = append(rs, &healer.DescribeConfigsRequestResource{ResourceType: u8(x["type"]), ResourceName: x["name"].(string), ConfigNames: strs(x["keys"])})
		})
		r, err := a.raw(g["node"], healer.NewDescribeConfigsRequest(id, rs))
		if x, ok := r.(healer.DescribeConfigsResponse); ok {
			return describeConfigsVal(x), err
		}
		return nil, err
	case "AlterConfigs":
		q := healer.NewAlterConfigsRequest(id)
		q.SetValidateOnly(flag("validate"))
		var err error
		each("entries", func(x M) {
			if e := q.AddConfig(u8(x["type"]), x["name"].(string), x["k"].(string), x["v"].(string)); e != nil && err == nil {
				err = e
			}
		})
		if err != nil {
			return nil, err
		}
		r, err := a.raw(g["node"], &q)
		if x, ok := r.(healer.AlterConfigsResponse); ok {
			l := []any{}
			for _, y := range x.Resources {
				l = append(l, M{"error": y.ErrorCode, "message": y.ErrorMessage, "type": int8(y.ResourceType), "name": y.ResourceName})
			}
			return M{"throttle": x.ThrottleTimeMS, "responses": l}, err
		}
		return nil, err
	case "IncrementalAlterConfigs":
		q := healer.NewIncrementalAlterConfigsRequest(id)
		q.SetValidateOnly(flag("validate"))
		var err error
		each("entries", func(x M) {
			if e := q.AddConfig(u8(x["type"]), x["name"].(string), x["k"].(string), x["v"].(string)); e != nil && err == nil {
				err = e
			}
		})
		if err != nil {
			return nil, err
		}
		r, err := a.raw(g["node"], &q)
		if x, ok := r.(healer.IncrementalAlterConfigsResponse); ok {
			l := []any{}
			for _, y := range x.Resources {
				l = append(l, M{"error": y.ErrorCode, "message": y.ErrorMessage, "type": int8(y.ResourceType), "name": y.ResourceName})
			}
			return M{"throttle": x.ThrottleTimeMs, "responses": l}, err
		}
		return nil, err
	case "ListPartitionReassignments":
		q := healer.NewListPartitionReassignmentsRequest(id, num32(g["timeout"]))
		each("tps", func(x M) { q.AddTP(x["t"].(string), num32(x["p"])) })
		r, err := a.cl.ListPartitionReassignments(q)
		if r == nil {
			return nil, err
		}
		ts := []any{}
		for _, t := range r.Topics {
			ps := []any{}
			for _, p := range t.Partitions {
				ps = append(ps, M{"index": p.Pid, "replicas": ilist(p.Replicas), "adding": ilist(p.AddingReplicas), "removing": ilist(p.RemovingReplicas)})
			}
			ts = append(ts, M{"name": t.Name, "partitions": ps})
		}
		return M{"throttle": r.ThrottleTimeMS, "error": r.ErrorCode, "message": pstr(r.ErrorMessage), "topics": ts}, err
	case "AlterPartitionReassignments":
		q := healer.NewAlterPartitionReassignmentsRequest(num32(g["timeout"]))
		each("tps", func(x M) { q.AddAssignment(x["t"].(string), num32(x["p"]), i32s(x["reps"])) })
		r, err := a.bs.AlterPartitionReassignments(&q)
		if r == nil {
			return nil, err
		}
		ts := []any{}
		for _, t := range r.Responses {
			ps := []any{}
			for _, p := range t.Partitions {
				ps = append(ps, M{"index": p.PartitionID, "error": p.ErrorCode, "message": pstr(p.ErrorMsg)})
			}
			ts = append(ts, M{"name": t.Name, "partitions": ps})
		}
		return M{"throttle": r.ThrottleTimeMs, "error": r.ErrorCode, "message": pstr(r.ErrorMsg), "responses": ts}, err
	case "ElectLeaders":
		q := healer.NewElectLeadersRequest(num32(g["timeout"]))
		each("tps", func(x M) { q.Add(x["t"].(string), num32(x["p"])) })
		r, err := a.bs.ElectLeaders(&q)
		if r == nil {
			return nil, err
		}
		ts := []any{}
		for _, t := range r.ReplicaElectionResults {
			ps := []any{}
			for _, p := range t.PartitionResults {
				ps = append(ps, M{"index": p.PartitionID, "error": p.ErrorCode, "message": p.ErrorMessage})
			}
			ts = append(ts, M{"topic": t.Topic, "partitions": ps})
		}
		return M{"throttle": r.ThrottleTimeMS, "results": ts}, err
	case "DescribeGroups":
		r, err := a.raw(g["node"], healer.NewDescribeGroupsRequest(id, strs(g["groups"])))
		if x, ok := r.(healer.DescribeGroupsResponse); ok {
			l := []any{}
			for _, y := range x.Groups {
				ms := []any{}
				for _, m := range y.Members {
					md, as := m.MemberMetadata, m.RawMemberAssignment
					if md == nil {
						md = []byte{}
					}
					if as == nil {
						as = []byte{}
					}
					ps := []any{}
					if m.MemberAssignment != nil {
						for _, pa := range m.MemberAssignment.PartitionAssignments {
							for _, p := range pa.Partitions {
								ps = append(ps, M{"t": pa.Topic, "p": p})
							}
						}
					}
					sortTP(ps)
					ms = append(ms, M{"member": m.MemberID, "client_id": m.ClientID, "client_host": m.ClientHost, "metadata": md, "assignment": as, "parsed": ps})
				}
				l = append(l, M{"error": y.ErrorCode, "group": y.GroupID, "state": y.State, "protocol_type": y.ProtocolType, "protocol": y.Protocol, "members": ms})
			}
			return M{"groups": l}, err
		}
		return nil, err
	case "Offsets":
		r, err := a.bs.RequestOffsets(id, str("topic"), num32(g["pid"]), toI64(g["time"]), uint32(toI64(g["n"])))
		l := []any{}
		for _, x := range r {
			for t, ps := range x.TopicPartitionOffsets {
				for _, p := range ps {
					old := []any{}
					for _, o := range p.OldStyleOffsets {
						old = append(old, o)
					}
					l = append(l, M{"name": t, "index": p.Partition, "error": p.ErrorCode, "timestamp": p.Timestamp, "offset": p.Offset, "old_offsets": old})
				}
			}
		}
		return l, err
	case "Meta":
		r, err := a.bs.RequestMetaData(id, orNil(strs(g["topics"])))
		bl, tl := []any{}, []any{}
		for _, b := range r.Brokers {
			bl = append(bl, M{"node_id": b.NodeID, "host": b.Host, "port": b.Port, "rack": b.Rack})
		}
		for _, t := range r.TopicMetadatas {
			pl := []any{}
			for _, p := range t.PartitionMetadatas {
				pl = append(pl, M{"error": p.PartitionErrorCode, "index": p.PartitionID, "leader": p.Leader, "leader_epoch": p.LeaderEpoch,
					"replicas": ilist(p.Replicas), "isr": ilist(p.Isr), "offline": ilist(p.OfflineReplicas)})
			}
			tl = append(tl, M{"error": t.TopicErrorCode, "name": t.TopicName, "is_internal": t.IsInternal, "partitions": pl})
		}
		return M{"throttle": r.ThrottleTimeMs, "brokers": bl, "cluster_id": r.ClusterID, "controller_id": r.ControllerID, "topics": tl}, err
	case "FindCoordinator":
		r, err := a.bs.FindCoordinator(id, str("group"))
		return M{"error": r.ErrorCode, "node_id": r.Coordinator.NodeID, "host": r.Coordinator.Host, "port": r.Coordinator.Port}, err
	case "OffsetCommit":
		q := healer.NewOffsetCommitRequest(0, id, str("group"))
		q.SetGenerationID(num32(g["generation"]))
		q.SetMemberID(str("member"))
		q.SetRetentionTime(toI64(g["retention"]))
		each("tps", func(x M) { q.AddPartiton(x["t"].(string), num32(x["p"]), toI64(x["offset"]), x["metadata"].(string)) })
		r, err := a.raw(g["node"], q)
		if x, ok := r.(healer.OffsetCommitResponse); ok {
			ts := []any{}
			for _, t := range x.Topics {
				ps := []any{}
				for _, p := range t.Partitions {
					ps = append(ps, M{"index": p.PartitionID, "error": p.ErrorCode})
				}
				ts = append(ts, M{"name": t.Topic, "partitions": ps})
			}
			return M{"topics": ts}, err
		}
		return nil, err
	case "OffsetFetch":
		q := healer.NewOffsetFetchRequest(0, id, str("group"))
		each("tps", func(x M) { q.AddPartiton(x["t"].(string), num32(x["p"])) })
		r, err := a.raw(g["node"], q)
		if x, ok := r.(healer.OffsetFetchResponse); ok {
			ts := []any{}
			for _, t := range x.Topics {
				ps := []any{}
				for _, p := range t.Partitions {
					ps = append(ps, M{"index": p.PartitionID, "offset": p.Offset, "metadata": p.Metadata, "error": p.ErrorCode})
				}
				ts = append(ts, M{"name": t.Topic, "partitions": ps})
			}
			return M{"topics": ts}, err
		}
		return nil, err
	case "Consume":
		return a.consume(g)
	case "Produce":
		return a.produce(g)
	}
	harnessFail("no op %q", op)
	return nil, nil
}

func groupsVal(gs []*healer.Group) []any {
	l := []any{}
	for _, x := range gs {
		l = append(l, M{"group": x.GroupID, "protocol_type": x.ProtocolType, "group_state": x.GroupState, "group_type": x.GroupType})
	}
	return l
}

func createTopicsVal(r healer.CreateTopicsResponse) M {
	l := []any{}
	for _, x := range r.TopicErrors {
		l = append(l, M{"name": x.Topic, "error": x.ErrorCode})
	}
	return M{"topics": l}
}

func createPartitionsVal(r healer.CreatePartitionsResponse) M {
	l := []any{}
	for _, x := range r.Results {
		l = append(l, M{"name": x.TopicName, "error": x.ErrorCode, "message": pstr(x.ErrorMessage)})
	}
	return M{"throttle": r.ThrottleTimeMS, "results": l}
}

func deleteGroupsVal(r healer.DeleteGroupsResponse) M {
	l := []any{}
	for _, x := range r.Results {
		l = append(l, M{"group": x.GroupID, "error": x.ErrorCode})
	}
	return M{"throttle": r.ThrottleTimeMs, "results": l}
}

func describeConfigsVal(r healer.DescribeConfigsResponse) M {
	l := []any{}
	for _, x := range r.Resources {
		cs := []any{}
		for _, y := range x.ConfigEntries {
			cs = append(cs, M{"name": y.ConfigName, "value": y.ConfigValue, "read_only": y.ReadOnly, "is_default": y.IsDefault, "is_sensitive": y.IsSensitive})
		}
		l = append(l, M{"error": x.ErrorCode, "message": x.ErrorMessage, "type": int8(x.ResourceType), "name": x.ResourceName, "configs": cs})
	}
	return M{"throttle": r.ThrottleTimeMS, "results": l}
}

// consume reads n records of the script's log through a SimpleConsumer.
func (a *admin) consume(g M) (any, error) {
	topic := g["topic"].(string)
	t := a.c.topics[topic]
	p := a.c.part(topic, num32(g["pid"]))
	if t == nil || p == nil {
		return nil, fmt.Errorf("no such partition")
	}
	n := int(toI64(g["n"]))
	a.c.mu.Lock()
	want := []any{}
	for i := 0; i < n; i++ {
		b := &Batch{Base: p.HW, Last: p.HW, Magic: 2, Recs: []Rec{{Off: p.HW, Ts: 1700000000000 + int64(i), Key: []byte(fmt.Sprintf("k%d", i)), Val: []byte(fmt.Sprintf("v%d-%d", p.HW, i))}}}
		if g["magic"] != nil {
			b.Magic = int(toI64(g["magic"]))
		}
		want = append(want, fmt.Sprintf("%d:%s", p.HW, b.Recs[0].Val))
		a.c.appendLocked(t, int(indexOf(t, p)), b)
	}
	from := p.HW - int64(n)
	a.c.mu.Unlock()
	rec.Ev(M{"ev": "Stored", "want": want})
	cfg := healer.DefaultConsumerConfig()
	cfg.BootstrapServers = a.c.Bootstrap()
	cfg.ClientID = "v"
	cfg.FetchMaxWaitMS = 20
	cfg.RetryBackOffMS = 20
	sc, err := healer.NewSimpleConsumer(topic, p.ID, cfg)
	if err != nil {
		return nil, err
	}
	ch := make(chan *healer.FullMessage, 10)
	if _, err = sc.Consume(from, ch); err != nil {
		return nil, err
	}
	got := []any{}
	tm := time.After(8 * time.Second)
	for len(got) < n {
		select {
		case m := <-ch:
			if m.Error != nil {
				err = m.Error
				continue
			}
			got = append(got, fmt.Sprintf("%d:%s", m.Message.Offset, m.Message.Value))
		case <-tm:
			if err == nil {
				err = errors.New("nothing came")
			}
			return M{"recs": got}, err
		}
	}
	go sc.Stop()
	return M{"recs": got}, nil
}

func indexOf(t *Topic, p *Part) int {
	for i := range t.Parts {
		if t.Parts[i] == p {
			return i
		}
	}
	return -1
}

// produce sends n records through a SimpleProducer; what the broker stored is
// the value.
func (a *admin) produce(g M) (any, error) {
	topic := g["topic"].(string)
	cfg := healer.DefaultProducerConfig()
	cfg.BootstrapServers = a.c.Bootstrap()
	cfg.ClientID = "v"
	cfg.MessageMaxCount = 100
	cfg.FlushIntervalMS = 100000
	sp, err := healer.NewSimpleProducer(context.Background(), topic, num32(g["pid"]), cfg)
	if err != nil {
		return nil, err
	}
	var got []any
	var mu sync.Mutex
	old := a.c.onResp
	a.c.mu.Lock()
	a.c.onResp = func(q *Req, body M, f []byte, act string) {
		if q.Name == "Produce" {
			eachPart(q.Body, "topics", func(_ string, pm M) {
				raw, _ := pm["records"].([]byte)
				for _, d := range decodeBatches(raw) {
					for _, x := range d.Problems {
						mu.Lock()
						got = append(got, "problem "+x)
						mu.Unlock()
					}
					for _, x := range d.Recs {
						mu.Lock()
						got = append(got, string(x.Key)+"="+string(x.Val))
						mu.Unlock()
					}
				}
			})
		}
		old(q, body, f, act)
	}
	a.c.mu.Unlock()
	want := []any{}
	for i := 0; i < int(toI64(g["n"])); i++ {
		k, v := fmt.Sprintf("k%d", i), fmt.Sprintf("v%d", i)
		want = append(want, k+"="+v)
		if e := sp.AddMessage([]byte(k), []byte(v)); e != nil && err == nil {
			err = e
		}
	}
	rec.Ev(M{"ev": "Stored", "want": want})
	if e := sp.Flush(); e != nil && err == nil {
		err = e
	}
	sp.Close()
	mu.Lock()
	defer mu.Unlock()
	if got == nil {
		got = []any{}
	}
	return M{"recs": got}, err
}
