package main

// The front ends of the administrative calls: the healer command (HEALER_CLI)
// and the HTTP interface it serves.  A call of the admin driver is given to one
// of them and what it shows is read back in the protocol's own terms.
// Bears on T02, H01, H02.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// jf says which protocol field a field of the shown JSON is.
type jf struct {
	json, name string
	sub        []jf
	kind       string // "", "acl:resource", ..., "bytes", "nums"
}

var (
	jName  = jf{json: "topic_name", name: "name"}
	jErr   = jf{json: "error_code", name: "error"}
	jMsg   = jf{json: "error_message", name: "message"}
	jThr   = jf{json: "throttle_time_ms", name: "throttle"}
	jGroup = []jf{{json: "GroupID", name: "group"}, {json: "ProtocolType", name: "protocol_type"}, {json: "GroupState", name: "group_state"}, {json: "GroupType", name: "group_type"}}
	jAcl   = []jf{{json: "Principal", name: "principal"}, {json: "Host", name: "host"}, {json: "Operation", name: "operation", kind: "acl:operation"}, {json: "PermissionType", name: "permission", kind: "acl:permission"}}
	jRes   = []jf{{json: "ResourceType", name: "resource_type", kind: "acl:resource"}, {json: "ResourceName", name: "resource_name"}, {json: "PatternType", name: "pattern_type", kind: "acl:pattern"}}
	jE     = jf{json: "ErrorCode", name: "error"}
	jM     = jf{json: "ErrorMessage", name: "message"}
	jLog   = []jf{{json: "throttle_time_ms", name: "throttle"}, {json: "results", name: "results", sub: []jf{jErr, {json: "log_dir", name: "log_dir"},
		{json: "topics", name: "topics", sub: []jf{{json: "topic", name: "name"}, {json: "partitions", name: "partitions", sub: []jf{{json: "partition_id", name: "index"},
			{json: "size", name: "size"}, {json: "offset_lag", name: "offset_lag"}, {json: "is_future_key", name: "is_future"}}}}}}}}
	jOff     = []jf{{json: "Partition", name: "index"}, jE, {json: "OldStyleOffsets", name: "old_offsets", kind: "nums"}, {json: "Timestamp", name: "timestamp"}, {json: "Offset", name: "offset"}}
	jPending = []jf{{json: "partition", name: "index"}, {json: "offset", name: "end"}, {json: "committed", name: "com"}, {json: "lag", name: "lag"}}
	jDesc    = []jf{jE, {json: "GroupID", name: "group"}, {json: "State", name: "state"}, {json: "ProtocolType", name: "protocol_type"}, {json: "Protocol", name: "protocol"},
		{json: "Members", name: "members", sub: []jf{{json: "MemberID", name: "member"}, {json: "ClientID", name: "client_id"}, {json: "ClientHost", name: "client_host"},
			{json: "MemberMetadata", name: "metadata", kind: "bytes"}, {json: "MemberAssignment", name: "parsed", kind: "assigned"}}}}
)

func cat(l ...[]jf) (r []jf) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

var jOne = map[string][]jf{
	"DeleteTopics":     {{json: "results", name: "responses", sub: []jf{jName, jErr}}},
	"CreateTopic":      {{json: "TopicErrors", name: "topics", sub: []jf{{json: "Topic", name: "name"}, jE}}},
	"RawCreateTopics":  {{json: "TopicErrors", name: "topics", sub: []jf{{json: "Topic", name: "name"}, jE}}},
	"CreatePartitions": {jThr, {json: "results", name: "results", sub: []jf{jName, jErr, jMsg}}},
	"DeleteGroups":     {jThr, {json: "results", name: "results", sub: []jf{{json: "group_id", name: "group"}, jErr}}},
	"DescribeAcls":     {{json: "ThrottleTimeMs", name: "throttle"}, jE, jM, {json: "Resources", name: "resources", sub: cat(jRes, []jf{{json: "Acls", name: "acls", sub: jAcl}})}},
	"CreateAcls":       {{json: "Results", name: "results", sub: []jf{jE, jM}}},
	"DeleteAcls":       {{json: "ThrottleTimeMs", name: "throttle"}, {json: "FilterResults", name: "results", sub: []jf{jE, jM, {json: "MatchingAcls", name: "acls", sub: cat([]jf{jE, jM}, jRes, jAcl)}}}},
	"DescribeConfigs": {{json: "ThrottleTimeMS", name: "throttle"}, {json: "Resources", name: "results", sub: []jf{jE, jM, {json: "ResourceType", name: "type"}, {json: "ResourceName", name: "name"},
		{json: "ConfigEntries", name: "configs", sub: []jf{{json: "ConfigName", name: "name"}, {json: "ConfigValue", name: "value"}, {json: "ReadOnly", name: "read_only"}, {json: "IsDefault", name: "is_default"}, {json: "IsSensitive", name: "is_sensitive"}}}}}},
	"IncrementalAlterConfigs": {jThr, {json: "resources", name: "responses", sub: []jf{jErr, jMsg, {json: "resource_type", name: "type"}, {json: "resource_name", name: "name"}}}},
	"ListPartitionReassignments": {jThr, jErr, jMsg, {json: "topics", name: "topics", sub: []jf{{json: "name", name: "name"}, {json: "partitions", name: "partitions", sub: []jf{{json: "partition", name: "index"},
		{json: "replicas", name: "replicas", kind: "nums"}, {json: "adding_replicas", name: "adding", kind: "nums"}, {json: "removing_replicas", name: "removing", kind: "nums"}}}}}},
	"AlterPartitionReassignments": {jThr, jErr, {json: "error_msg", name: "message"}, {json: "responses", name: "responses", sub: []jf{{json: "name", name: "name"},
		{json: "partitions", name: "partitions", sub: []jf{{json: "partition_id", name: "index"}, jErr, {json: "error_msg", name: "message"}}}}}},
	"ElectLeaders": {jThr, {json: "replica_election_results", name: "results", sub: []jf{{json: "topic", name: "topic"},
		{json: "partition_result", name: "partitions", sub: []jf{{json: "partition_id", name: "index"}, jErr, jMsg}}}}},
	"Meta": {{json: "ThrottleTimeMs", name: "throttle"}, {json: "Brokers", name: "brokers", sub: []jf{{json: "NodeID", name: "node_id"}, {json: "Host", name: "host"}, {json: "Port", name: "port"}, {json: "Rack", name: "rack"}}},
		{json: "ClusterID", name: "cluster_id"}, {json: "ControllerID", name: "controller_id"},
		{json: "TopicMetadatas", name: "topics", sub: []jf{{json: "TopicErrorCode", name: "error"}, {json: "TopicName", name: "name"}, {json: "IsInternal", name: "is_internal"},
			{json: "PartitionMetadatas", name: "partitions", sub: []jf{{json: "PartitionErrorCode", name: "error"}, {json: "PartitionID", name: "index"}, {json: "Leader", name: "leader"}, {json: "LeaderEpoch", name: "leader_epoch"},
				{json: "Replicas", name: "replicas", kind: "nums"}, {json: "Isr", name: "isr", kind: "nums"}, {json: "OfflineReplicas", name: "offline", kind: "nums"}}}}}},
}

func init() { jOne["RawDescribeConfigs"] = jOne["DescribeConfigs"] }

type badJSON string

func jObj(fs []jf, x any) M {
	m, ok := x.(map[string]any)
	if !ok {
		panic(badJSON(fmt.Sprintf("an object was expected, not %v", x)))
	}
	r := M{}
	for _, f := range fs {
		v, ok := m[f.json]
		if !ok {
			panic(badJSON("no field " + f.json))
		}
		switch {
		case f.sub != nil:
			r[f.name] = jList(f.sub, v)
		case f.kind == "nums":
			l := []any{}
			l = append(l, asList(v)...)
			r[f.name] = l
		case f.kind == "bytes":
			s, _ := v.(string)
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				panic(badJSON(err.Error()))
			}
			if b == nil {
				b = []byte{}
			}
			r[f.name] = b
		case f.kind == "assigned":
			ps := []any{}
			if a, ok := v.(map[string]any); ok {
				for _, y := range asList(a["PartitionAssignments"]) {
					pa := y.(map[string]any)
					for _, p := range asList(pa["Partitions"]) {
						n, _ := p.(json.Number).Int64()
						ps = append(ps, M{"t": pa["Topic"], "p": n})
					}
				}
			}
			sortTP(ps)
			r[f.name] = ps
		case strings.HasPrefix(f.kind, "acl:"):
			r[f.name] = "?" + fmt.Sprint(v)
			for i, n := range aclNames[f.kind[4:]] {
				if n == v || n == "CLUSTER" && v == "BROKER" {
					r[f.name] = i
				}
			}
		default:
			r[f.name] = v
		}
	}
	return r
}

func jList(fs []jf, x any) []any {
	r := []any{}
	if x == nil {
		return r
	}
	l, ok := x.([]any)
	if !ok {
		panic(badJSON(fmt.Sprintf("a list was expected, not %v", x)))
	}
	for _, e := range l {
		r = append(r, jObj(fs, e))
	}
	return r
}

// shown reads what a front end showed for a call.
func shown(op string, text []byte, topic string) (val any, err error) {
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(badJSON); ok {
				err = fmt.Errorf("%s", string(b))
				return
			}
			panic(x)
		}
	}()
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if rest, _ := io.ReadAll(io.MultiReader(d.Buffered(), bytes.NewReader(nil))); strings.TrimSpace(string(rest)) != "" {
		return nil, fmt.Errorf("more than one answer")
	}
	switch op {
	case "ListGroups", "DescribeLogDirs":
		m, ok := x.(map[string]any)
		if !ok && x != nil {
			return nil, fmt.Errorf("an object was expected")
		}
		l := []any{}
		for n, v := range m {
			if op == "ListGroups" {
				l = append(l, M{"n": n, "groups": jList(jGroup, v)})
			} else {
				o := jObj(jLog, v)
				o["n"] = n
				l = append(l, o)
			}
		}
		return l, nil
	case "DescribeGroups":
		return M{"groups": jList(jDesc, x)}, nil
	case "Offsets":
		l := jList(jOff, x)
		for _, y := range l {
			y.(M)["name"] = topic
		}
		return l, nil
	case "Pending":
		l := jList(jPending, x)
		for _, y := range l {
			com, _ := strconv.ParseInt(fmt.Sprint(y.(M)["com"]), 10, 64)
			lag, _ := strconv.ParseInt(fmt.Sprint(y.(M)["lag"]), 10, 64)
			y.(M)["back"] = com + lag // TLC cannot add 64-bit numbers
		}
		return l, nil
	}
	return jObj(jOne[op], x), nil
}

// spawn starts a process that ends with this one.
func spawn(x *exec.Cmd) error {
	x.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	errc := make(chan error)
	go func() { // the thread that starts it has to stay
		runtime.LockOSThread()
		errc <- x.Start()
		select {}
	}()
	return <-errc
}

func aclFlag(kind string, x any) string {
	if s, ok := x.(string); ok {
		return s
	}
	v, names := toI64(x), aclNames[kind]
	if v < 0 || v >= int64(len(names)) {
		return fmt.Sprint(v)
	}
	aclTurn++
	switch aclTurn % 4 {
	case 0:
		return strings.ToLower(names[v])
	case 1:
		if !(kind == "resource" && v == 4) {
			return fmt.Sprint(v)
		}
	case 2:
		if kind == "operation" { // as the command's help has it
			return strings.ToLower(strings.ReplaceAll(names[v], "_", ""))
		}
	}
	return names[v]
}

func join(x any, sep string) string {
	l := []string{}
	for _, y := range asList(x) {
		l = append(l, fmt.Sprint(y))
	}
	return strings.Join(l, sep)
}

func tpJSON(g M, reps bool) string {
	l := []any{}
	for _, x := range asList(g["tps"]) {
		m := x.(M)
		o := map[string]any{"topic": m["t"], "partition": m["p"]}
		if reps {
			o["replicas"] = m["reps"]
		}
		l = append(l, o)
	}
	b, _ := json.Marshal(l)
	return string(b)
}

func assignText(x any) string {
	l := []string{}
	for _, y := range asList(x) {
		if m, ok := y.(M); ok {
			y = m["reps"]
		}
		if s, ok := y.(string); ok {
			l = append(l, s)
		} else {
			l = append(l, join(y, ":"))
		}
	}
	return strings.Join(l, ",")
}

// cliArgs is the command line of a call.
func (a *admin) cliArgs(op string, g M) []string {
	str := func(k string) string { x, _ := g[k].(string); return x }
	num := func(k string) string { return fmt.Sprint(g[k]) }
	acl := func(cmd string, m M, nullable bool) []string {
		l := []string{cmd, "--resourcetype", aclFlag("resource", m["resource_type"]), "--patterntype", aclFlag("pattern", m["pattern_type"]),
			"--operation", aclFlag("operation", m["operation"]), "--permissiontype", aclFlag("permission", m["permission"])}
		for _, k := range [][2]string{{"resource", "resource_name"}, {"principal", "principal"}, {"host", "host"}} {
			if m[k[1]] != nil {
				l = append(l, "--"+k[0]+"="+m[k[1]].(string))
			}
		}
		return l
	}
	switch op {
	case "ListGroups":
		return []string{"list-groups"}
	case "DescribeLogDirs":
		if len(asList(g["topics"])) == 0 {
			return []string{"describe-logdirs"}
		}
		return []string{"describe-logdirs", "-t", join(g["topics"], ",")}
	case "DeleteTopics":
		return []string{"delete-topics", "--topics", join(g["names"], ",")}
	case "CreateTopic":
		l := []string{"create-topic", "-t", str("name"), "--timeout", num("timeout")}
		if num("num") != "-1" {
			l = append(l, "--partitions="+num("num"))
		}
		if num("repl") != "-1" {
			l = append(l, "--replication-factor="+num("repl"))
		}
		return l
	case "RawCreateTopics":
		t := asList(g["topics"])[0].(M)
		return []string{"create-topic", "-t", t["name"].(string), "--timeout", num("timeout"), "--replica-assignment", assignText(t["assign"])}
	case "CreatePartitions":
		l := []string{"create-partitions", "-t", str("name"), "--count=" + num("count"), "--timeout=" + num("timeout"), "--validate-only=" + num("validate")}
		if g["assign"] != nil {
			t := assignText(g["assign"])
			if alt, _ := a.call["alt"].(bool); alt { // nothing between commas is nothing
				t = strings.ReplaceAll(t, ",", ",,") + ","
			}
			l = append(l, "--assignments", t)
		}
		return l
	case "DescribeAcls":
		return acl("describe-acls", g, true)
	case "CreateAcls":
		return acl("create-acls", asList(g["creations"])[0].(M), false)
	case "DeleteAcls":
		return acl("delete-acls", asList(g["filters"])[0].(M), true)
	case "DescribeConfigs":
		l := []string{"describe-configs", "--resource-type", str("type"), "--resource-name", str("name")}
		for _, k := range asList(g["keys"]) {
			l = append(l, "--keys="+k.(string))
		}
		return l
	case "IncrementalAlterConfigs":
		e := asList(g["entries"])[0].(M)
		return []string{"alter-configs", "--resource-type", e["tname"].(string), "--resource-name", e["name"].(string), "--config-name=" + e["k"].(string), "--config-value=" + e["v"].(string)}
	case "DescribeGroups":
		return []string{"describe-groups", "-g", asList(g["groups"])[0].(string)}
	case "DeleteGroups":
		return []string{"delete-groups", "-g", join(g["groups"], ",")}
	case "ListPartitionReassignments", "ElectLeaders":
		cmd := "list-partition-reassignments"
		if op == "ElectLeaders" {
			cmd = "elect-leaders"
		}
		l := []string{cmd, "--timeout.ms=" + num("timeout")}
		if len(asList(g["tps"])) > 0 {
			l = append(l, "--data", tpJSON(g, false))
		}
		return l
	case "AlterPartitionReassignments":
		return []string{"alter-partition-reassignments", "--timeout.ms=" + num("timeout"), "-r", tpJSON(g, true)}
	case "Meta":
		if len(asList(g["topics"])) == 0 {
			return []string{"get-metadata"}
		}
		return []string{"get-metadata", "-t", join(g["topics"], ",")}
	}
	harnessFail("no command for %s", op)
	return nil
}

// outcome of a call on a front end
type outcome struct {
	err    bool
	status int
	msg    string
	val    any
	said   bool // something was shown
}

// cli runs the command and reads its output.
func (a *admin) cli(op string, g M, call M) outcome {
	args := a.cliArgs(op, g)
	if l, ok := call["argv"]; ok { // a command line that makes no sense
		args = append(args, strs(l)...)
	}
	args = append(args, "-b", a.c.Bootstrap())
	if id := a.s.str("client", "healer"); id != "healer" {
		args = append(args, "--client="+id)
	}
	x := exec.Command(os.Getenv("HEALER_CLI"), args...)
	var out, errb bytes.Buffer
	x.Stdout, x.Stderr = &out, &errb
	if err := spawn(x); err != nil {
		harnessFail("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- x.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		x.Process.Kill()
		hung(M{"what": op})
	}
	if os.Getenv("VH_LOG") != "" {
		fmt.Fprintf(os.Stderr, "%q\n%s%s\n", args, out.String(), errb.String())
	}
	if strings.Contains(errb.String(), "\ngoroutine ") {
		rec.Ev(M{"ev": "Crash", "msg": firstLine(errb.String())})
		rec.Seal()
		os.Exit(0)
	}
	if err != nil {
		return outcome{err: true, msg: lastLine(errb.String())}
	}
	if op == "CreatePartitions" {
		return outcome{said: strings.TrimSpace(out.String()) != ""}
	}
	text := out.Bytes()
	if len(bytes.TrimSpace(text)) == 0 { // some commands show their result in the log
		for l := errb.String(); ; {
			i := strings.Index(l, "] {")
			if i < 0 {
				break
			}
			l = l[i+2:]
			var raw json.RawMessage
			if json.NewDecoder(strings.NewReader(l)).Decode(&raw) == nil {
				if v, perr := shown(op, raw, ""); perr == nil {
					return outcome{val: v, said: true}
				}
			}
		}
		return outcome{}
	}
	v, perr := shown(op, text, "")
	if perr != nil {
		return outcome{said: true, msg: perr.Error()}
	}
	return outcome{val: v, said: true}
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	for _, x := range l {
		if strings.HasPrefix(x, "Error:") {
			return x
		}
	}
	return l[len(l)-1]
}

type apiServer struct {
	base string
	mu   sync.Mutex
	log  bytes.Buffer
	cmd  *exec.Cmd
	dead chan struct{}
}

func (s *apiServer) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if os.Getenv("VH_LOG") != "" {
		os.Stderr.Write(b)
	}
	return s.log.Write(b)
}

func (s *apiServer) logged() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.log.String()
}

func (a *admin) apiArgs(port string) []string {
	args := []string{"api", "-a", loopback, "-p", port}
	if u := a.s.str("auth", ""); u != "" {
		args = append(args, "--auth="+u)
	}
	if a.s.flag("getallowed") {
		args = append(args, "--get-allowed")
	}
	if a.s.flag("cors") {
		args = append(args, "--cors")
	}
	return args
}

func (a *admin) startAPI() *apiServer {
	s := &apiServer{base: "http://" + loopback + ":9999", dead: make(chan struct{})}
	s.cmd = exec.Command(os.Getenv("HEALER_CLI"), a.apiArgs("9999")...)
	s.cmd.Stdout, s.cmd.Stderr = s, s
	s.cmd.Env = append(os.Environ(), "GOGC=off", "GOMEMLIMIT=400MiB") // what nobody closes is not closed by the collector either
	if err := spawn(s.cmd); err != nil {
		harnessFail("start: %v", err)
	}
	go func() { s.cmd.Wait(); close(s.dead) }()
	up := waitFor(20*time.Second, func() bool {
		select {
		case <-s.dead:
			return true
		default:
		}
		r, err := http.Get(s.base + "/health")
		if err != nil {
			return false
		}
		r.Body.Close()
		return true
	})
	select {
	case <-s.dead:
		rec.Ev(M{"ev": "NoHandle", "err": lastLine(s.logged())})
		rec.Seal()
		os.Exit(0)
	default:
	}
	if !up {
		hung(M{"in": "api"})
	}
	return s
}

// apiReq is the HTTP request of a call: method, path, query, body.
func (a *admin) apiReq(op string, g M, alt bool) (string, string, url.Values, string) {
	str := func(k string) string { x, _ := g[k].(string); return x }
	esc := url.PathEscape
	q := url.Values{}
	q.Set("bootstrap", a.c.Bootstrap())
	if t, ok := g["timeout"]; ok {
		q.Set("timeout", fmt.Sprint(t))
	}
	acl := func(m M) M {
		o := M{}
		for k, v := range map[string]string{"ResourceName": "resource_name", "Principal": "principal", "Host": "host"} {
			if m[v] != nil || !alt {
				o[k] = m[v]
			}
		}
		o["ResourceType"] = aclFlag("resource", m["resource_type"])
		o["PatternType"] = aclFlag("pattern", m["pattern_type"])
		o["Operation"] = aclFlag("operation", m["operation"])
		o["PermissionType"] = aclFlag("permission", m["permission"])
		return o
	}
	js := func(x any) string { b, _ := json.Marshal(x); return string(b) }
	switch op {
	case "Meta":
		for _, t := range asList(g["topics"]) {
			q.Add("topics", t.(string))
		}
		return "GET", "/metadata", q, ""
	case "Offsets":
		q.Set("timestamp", fmt.Sprint(g["time"]))
		return "GET", "/topic/" + esc(str("topic")) + "/offsets", q, ""
	case "DescribeLogDirs":
		if l := asList(g["topics"]); len(l) == 1 && alt {
			return "GET", "/topic/" + esc(l[0].(string)) + "/logdirs", q, ""
		}
		if len(asList(g["topics"])) == 0 {
			return "POST", "/describe-logdirs", q, "{}"
		}
		return "POST", "/describe-logdirs", q, js(M{"topics": g["topics"]})
	case "RawDescribeConfigs":
		r := asList(g["resources"])[0].(M)
		return "GET", "/topic/" + esc(r["name"].(string)) + "/config/" + esc(asList(r["keys"])[0].(string)), q, ""
	case "DescribeConfigs":
		if alt && str("type") == "topic" && esc(str("name")) == str("name") {
			return "GET", "/topic/" + esc(str("name")) + "/configs", q, ""
		}
		return "GET", "/configs/" + str("type") + "/" + esc(str("name")), q, ""
	case "IncrementalAlterConfigs":
		e := asList(g["entries"])[0].(M)
		return "POST", "/topic/" + esc(e["name"].(string)) + "/config/" + esc(e["k"].(string)) + "/" + esc(e["v"].(string)), q, ""
	case "ListGroups":
		return "GET", "/groups", q, ""
	case "DescribeGroups":
		return "GET", "/group/" + esc(asList(g["groups"])[0].(string)), q, ""
	case "Pending":
		return "GET", "/group/" + esc(str("group")) + "/pending/" + esc(str("topic")), q, ""
	case "AlterPartitionReassignments":
		return "POST", "/alter-partition-reassignments", q, tpJSON(g, true)
	case "ElectLeaders":
		return "POST", "/elect-leaders", q, tpJSON(g, false)
	case "ListPartitionReassignments":
		if alt && len(asList(g["tps"])) == 0 {
			return "POST", "/list-partition-reassignments", q, ""
		}
		return "POST", "/list-partition-reassignments", q, tpJSON(g, false)
	case "CreatePartitions":
		q.Del("timeout")
		return "POST", "/create-partitions", q, js(M{"topic": g["name"], "count": g["count"], "timeout": g["timeout"]})
	case "DescribeAcls":
		return "POST", "/describe-acls", q, js(acl(g))
	case "CreateAcls", "DeleteAcls":
		l := []any{}
		for _, x := range append(append([]any{}, asList(g["creations"])...), asList(g["filters"])...) {
			l = append(l, acl(x.(M)))
		}
		if op == "CreateAcls" {
			return "POST", "/create-acls", q, js(l)
		}
		return "DELETE", "/delete-acls", q, js(l)
	case "Path":
		return str("method"), str("path"), q, ""
	}
	harnessFail("no path for %s", op)
	return "", "", nil, ""
}

// isAlt: the call takes the other of two ways to ask the same.
func isAlt(call M) bool {
	alt, _ := call["alt"].(bool)
	return alt && call["body"] == nil
}

// ask sends a call to the HTTP interface.
func (a *admin) ask(s *apiServer, op string, g M, call M) outcome {
	alt := isAlt(call)
	method, path, q, body := a.apiReq(op, g, alt)
	if b, ok := call["body"].(string); ok {
		body = b
	}
	if m, ok := call["query"].(M); ok {
		for k, v := range m {
			if v == nil {
				q.Del(k)
			} else {
				q.Set(k, fmt.Sprint(v))
			}
		}
	}
	r, err := http.NewRequest(method, s.base+path+"?"+q.Encode(), strings.NewReader(body))
	if err != nil {
		harnessFail("%v", err)
	}
	if body == "" {
		r.Body, r.ContentLength = http.NoBody, 0
	} else {
		r.Header.Set("Content-Type", "application/json")
	}
	if h, ok := call["header"].(string); ok && h != "" {
		r.Header.Set("Authorization", authHeader(h))
	}
	before := len(s.logged())
	cl := &http.Client{Timeout: 30 * time.Second, CheckRedirect: func(req *http.Request, via []*http.Request) error {
		if h := via[0].Header.Get("Authorization"); h != "" {
			req.Header.Set("Authorization", h)
		}
		return nil
	}}
	resp, err := cl.Do(r)
	if err != nil {
		if strings.Contains(err.Error(), "Timeout") {
			hung(M{"what": op})
		}
		rec.Ev(M{"ev": "Crash", "msg": err.Error()})
		rec.Seal()
		os.Exit(0)
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		rec.Ev(M{"ev": "Crash", "msg": err.Error()})
	}
	if os.Getenv("VH_LOG") != "" {
		fmt.Fprintf(os.Stderr, "%s %s %s -> %d %s\n", method, r.URL, body, resp.StatusCode, b)
	}
	if strings.Contains(s.logged()[before:], "panic recovered") {
		rec.Ev(M{"ev": "Crash", "msg": "panic recovered in " + path})
		rec.Seal()
		os.Exit(0)
	}
	o := outcome{status: resp.StatusCode, err: resp.StatusCode != 200, said: len(b) > 0}
	if o.err {
		o.msg = string(b)
		return o
	}
	if op == "Path" {
		return o
	}
	v, perr := shown(op, b, fmt.Sprint(g["topic"]))
	if perr != nil {
		o.msg = perr.Error()
	} else {
		o.val = v
	}
	return o
}

// authHeader builds the Authorization header a script asks for: "basic user:pw"
// encodes, everything else is sent as it is.
func authHeader(h string) string {
	if strings.HasPrefix(h, "basic ") {
		return "Basic " + base64.StdEncoding.EncodeToString([]byte(h[6:]))
	}
	return h
}

// second starts another server where the first one listens.
func (a *admin) second() outcome {
	x := exec.Command(os.Getenv("HEALER_CLI"), a.apiArgs("9999")...)
	if err := spawn(x); err != nil {
		harnessFail("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- x.Wait() }()
	select {
	case err := <-done:
		return outcome{err: err != nil}
	case <-time.After(20 * time.Second):
		x.Process.Kill()
		hung(M{"what": "second"})
	}
	return outcome{}
}
