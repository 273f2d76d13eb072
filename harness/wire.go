package main

// An independent, schema-driven codec for the part of the Kafka protocol that
// healer speaks.  Nothing in here uses healer's own encoders or decoders.

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// M is a decoded protocol structure.
type M = map[string]any

const nullMark = "<null>"

type field struct {
	name     string
	typ      string // bool int8 int16 int32 int64 string nstring bytes nbytes, or struct (array of)
	arr      bool   // [] in front
	nullable bool   // array may be null
	min, max int
	sub      []*field
}

type schema struct {
	name     string
	key      int16
	flexFrom int // first flexible version, or 99
	maxV     int
	req      []*field
	resp     []*field
}

var schemas = map[int16]*schema{}
var schemaByName = map[string]*schema{}

func inRange(f *field, v int) bool { return v >= f.min && v <= f.max }

// parse DSL
func init() {
	var cur *schema
	var stack [][]*field // not used
	_ = stack
	type frame struct {
		indent int
		list   *[]*field
	}
	var frames []frame
	for ln, line := range strings.Split(schemaText, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		indent := len(line) - len(strings.TrimLeft(line, " "))
		tok := strings.Fields(line)
		if tok[0] == "api" {
			k, _ := strconv.Atoi(tok[2])
			mv, _ := strconv.Atoi(tok[3])
			fl, _ := strconv.Atoi(tok[4])
			cur = &schema{name: tok[1], key: int16(k), maxV: mv, flexFrom: fl}
			schemas[cur.key] = cur
			schemaByName[cur.name] = cur
			continue
		}
		if tok[0] == "req" {
			frames = []frame{{indent, &cur.req}}
			continue
		}
		if tok[0] == "resp" {
			frames = []frame{{indent, &cur.resp}}
			continue
		}
		for len(frames) > 1 && frames[len(frames)-1].indent >= indent {
			frames = frames[:len(frames)-1]
		}
		f := &field{name: tok[0], min: 0, max: 99}
		t := tok[1]
		if strings.HasPrefix(t, "n[]") {
			f.arr, f.nullable = true, true
			t = t[3:]
		} else if strings.HasPrefix(t, "[]") {
			f.arr = true
			t = t[2:]
		}
		f.typ = t
		if len(tok) > 2 {
			r := tok[2]
			if strings.HasSuffix(r, "+") {
				f.min, _ = strconv.Atoi(r[:len(r)-1])
			} else if i := strings.Index(r, "-"); i >= 0 {
				f.min, _ = strconv.Atoi(r[:i])
				f.max, _ = strconv.Atoi(r[i+1:])
			} else {
				panic(fmt.Sprintf("schema line %d: %q", ln, line))
			}
		}
		l := frames[len(frames)-1].list
		*l = append(*l, f)
		if f.typ == "struct" {
			frames = append(frames, frame{indent, &f.sub})
		}
	}
}

var errShort = errors.New("short")

type rd struct {
	b   []byte
	off int
}

func (r *rd) need(n int) ([]byte, error) {
	if n < 0 || r.off+n > len(r.b) {
		return nil, errShort
	}
	x := r.b[r.off : r.off+n]
	r.off += n
	return x, nil
}
func (r *rd) i8() (int8, error) {
	x, err := r.need(1)
	if err != nil {
		return 0, err
	}
	return int8(x[0]), nil
}
func (r *rd) i16() (int16, error) {
	x, err := r.need(2)
	if err != nil {
		return 0, err
	}
	return int16(binary.BigEndian.Uint16(x)), nil
}
func (r *rd) i32() (int32, error) {
	x, err := r.need(4)
	if err != nil {
		return 0, err
	}
	return int32(binary.BigEndian.Uint32(x)), nil
}
func (r *rd) i64() (int64, error) {
	x, err := r.need(8)
	if err != nil {
		return 0, err
	}
	return int64(binary.BigEndian.Uint64(x)), nil
}
func (r *rd) uvarint() (uint64, error) {
	v, n := binary.Uvarint(r.b[r.off:])
	if n <= 0 {
		return 0, errShort
	}
	r.off += n
	return v, nil
}
func (r *rd) varint() (int64, error) {
	v, n := binary.Varint(r.b[r.off:])
	if n <= 0 {
		return 0, errShort
	}
	r.off += n
	return v, nil
}

func (r *rd) tags() error {
	n, err := r.uvarint()
	if err != nil {
		return err
	}
	for i := uint64(0); i < n; i++ {
		if _, err := r.uvarint(); err != nil {
			return err
		}
		l, err := r.uvarint()
		if err != nil {
			return err
		}
		if l > uint64(len(r.b)) {
			return errShort
		}
		if _, err := r.need(int(l)); err != nil {
			return err
		}
	}
	return nil
}

func (r *rd) length(flex bool, short bool) (int, error) {
	if flex {
		v, err := r.uvarint()
		if err != nil {
			return 0, err
		}
		if v > 1<<31 {
			return 0, errShort
		}
		return int(v) - 1, nil
	}
	if short {
		v, err := r.i16()
		return int(v), err
	}
	v, err := r.i32()
	return int(v), err
}

func decPrim(r *rd, typ string, flex bool) (any, error) {
	switch typ {
	case "bool":
		v, err := r.i8()
		if err == nil && v != 0 && v != 1 {
			return nil, fmt.Errorf("bad bool %d", v)
		}
		return v != 0, err
	case "int8":
		v, err := r.i8()
		return int64(v), err
	case "int16":
		v, err := r.i16()
		return int64(v), err
	case "int32":
		v, err := r.i32()
		return int64(v), err
	case "int64":
		return r.i64()
	case "string", "nstring":
		n, err := r.length(flex, true)
		if err != nil {
			return nil, err
		}
		if n == -1 && typ == "nstring" {
			return nil, nil
		}
		x, err := r.need(n)
		if err != nil {
			return nil, err
		}
		return string(x), nil
	case "bytes", "nbytes":
		n, err := r.length(flex, false)
		if err != nil {
			return nil, err
		}
		if n == -1 && typ == "nbytes" {
			return nil, nil
		}
		x, err := r.need(n)
		if err != nil {
			return nil, err
		}
		return append([]byte{}, x...), nil
	}
	panic("bad type " + typ)
}

func decFields(r *rd, fs []*field, v int, flex bool) (M, error) {
	m := M{}
	for _, f := range fs {
		if !inRange(f, v) {
			continue
		}
		if f.arr {
			n, err := r.length(flex, false)
			if err != nil {
				return m, fmt.Errorf("%s: %w", f.name, err)
			}
			if n == -1 && f.nullable {
				m[f.name] = nil
				continue
			}
			if n < 0 || n > len(r.b) {
				return m, fmt.Errorf("%s: bad array length %d", f.name, n)
			}
			l := make([]any, 0, n)
			for i := 0; i < n; i++ {
				if f.typ == "struct" {
					s, err := decFields(r, f.sub, v, flex)
					if err != nil {
						return m, fmt.Errorf("%s[%d].%w", f.name, i, err)
					}
					l = append(l, s)
				} else {
					s, err := decPrim(r, f.typ, flex)
					if err != nil {
						return m, fmt.Errorf("%s[%d]: %w", f.name, i, err)
					}
					l = append(l, s)
				}
			}
			m[f.name] = l
		} else {
			x, err := decPrim(r, f.typ, flex)
			if err != nil {
				return m, fmt.Errorf("%s: %w", f.name, err)
			}
			m[f.name] = x
		}
	}
	if flex {
		if err := r.tags(); err != nil {
			return m, fmt.Errorf("tags: %w", err)
		}
	}
	return m, nil
}

type wr struct{ b []byte }

func (w *wr) i8(v int8)   { w.b = append(w.b, byte(v)) }
func (w *wr) i16(v int16) { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *wr) i32(v int32) { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *wr) i64(v int64) { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *wr) uv(v uint64) { w.b = binary.AppendUvarint(w.b, v) }
func (w *wr) vi(v int64)  { w.b = binary.AppendVarint(w.b, v) }

func toI64(x any) int64 {
	switch v := x.(type) {
	case nil:
		return 0
	case int:
		return int64(v)
	case int8:
		return int64(v)
	case int16:
		return int64(v)
	case int32:
		return int64(v)
	case int64:
		return v
	case float64:
		return int64(v)
	case string:
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	panic(fmt.Sprintf("toI64 %T", x))
}

func (w *wr) length(n int, flex, short bool) {
	if flex {
		w.uv(uint64(n + 1))
	} else if short {
		w.i16(int16(n))
	} else {
		w.i32(int32(n))
	}
}

func encPrim(w *wr, typ string, x any, flex bool) {
	switch typ {
	case "bool":
		if b, _ := x.(bool); b {
			w.i8(1)
		} else {
			w.i8(0)
		}
	case "int8":
		w.i8(int8(toI64(x)))
	case "int16":
		w.i16(int16(toI64(x)))
	case "int32":
		w.i32(int32(toI64(x)))
	case "int64":
		w.i64(toI64(x))
	case "string", "nstring":
		if x == nil {
			if typ == "nstring" {
				w.length(-1, flex, true)
			} else {
				w.length(0, flex, true)
			}
			return
		}
		s := x.(string)
		if typ == "nstring" && s == nullMark {
			w.length(-1, flex, true)
			return
		}
		w.length(len(s), flex, true)
		w.b = append(w.b, s...)
	case "bytes", "nbytes":
		if x == nil {
			if typ == "nbytes" {
				w.length(-1, flex, false)
			} else {
				w.length(0, flex, false)
			}
			return
		}
		var s []byte
		switch v := x.(type) {
		case []byte:
			s = v
		case string:
			if v == nullMark && typ == "nbytes" {
				w.length(-1, flex, false)
				return
			}
			s, _ = hex.DecodeString(v)
		}
		w.length(len(s), flex, false)
		w.b = append(w.b, s...)
	default:
		panic("bad type " + typ)
	}
}

func asList(x any) []any {
	switch v := x.(type) {
	case nil:
		return nil
	case []any:
		return v
	case []M:
		r := make([]any, len(v))
		for i := range v {
			r[i] = v[i]
		}
		return r
	case []int32:
		r := make([]any, len(v))
		for i := range v {
			r[i] = v[i]
		}
		return r
	case []string:
		r := make([]any, len(v))
		for i := range v {
			r[i] = v[i]
		}
		return r
	case []int64:
		r := make([]any, len(v))
		for i := range v {
			r[i] = v[i]
		}
		return r
	}
	panic(fmt.Sprintf("asList %T", x))
}

func encFields(w *wr, fs []*field, m M, v int, flex bool) {
	for _, f := range fs {
		if !inRange(f, v) {
			continue
		}
		x, ok := m[f.name]
		if f.arr {
			if f.nullable && ok && (x == nil || x == nullMark) {
				w.length(-1, flex, false)
				continue
			}
			l := asList(x)
			w.length(len(l), flex, false)
			for _, e := range l {
				if f.typ == "struct" {
					encFields(w, f.sub, e.(M), v, flex)
				} else {
					encPrim(w, f.typ, e, flex)
				}
			}
		} else {
			encPrim(w, f.typ, x, flex)
		}
	}
	if flex {
		endTags(w)
	}
}

// tagJunk makes every flexible structure end with a tagged field no client
// knows.
var tagJunk bool

func endTags(w *wr) {
	if !tagJunk {
		w.uv(0)
		return
	}
	w.uv(1)
	w.uv(5)
	w.uv(3)
	w.b = append(w.b, 0xfe, 0, 0x7f)
}

// Req is a decoded request.
type Req struct {
	Key      int16
	Name     string
	Ver      int
	Corr     int32
	Client   string
	Body     M
	DecErr   string // "" when the bytes are an exact encoding
	Raw      []byte // without the 4 byte size
	Node     int32
	Conn     int
	Ordinal  int // n-th request of this api seen by the cluster, from 1
	NodeOrd  int
	TrailLen int
}

func decodeReq(raw []byte) *Req {
	q := &Req{Raw: raw, Body: M{}}
	r := &rd{b: raw}
	var err error
	k, err := r.i16()
	if err != nil {
		q.DecErr = "header: " + err.Error()
		return q
	}
	v, err := r.i16()
	if err != nil {
		q.DecErr = "header: " + err.Error()
		return q
	}
	q.Key, q.Ver = k, int(v)
	c, err := r.i32()
	if err != nil {
		q.DecErr = "header: " + err.Error()
		return q
	}
	q.Corr = c
	s := schemas[k]
	if s == nil {
		q.DecErr = fmt.Sprintf("unknown api %d", k)
		return q
	}
	q.Name = s.name
	if q.Ver < 0 || q.Ver > s.maxV {
		q.DecErr = fmt.Sprintf("unknown version %d", q.Ver)
		return q
	}
	flex := q.Ver >= s.flexFrom
	id, err := decPrim(r, "nstring", false)
	if err != nil {
		q.DecErr = "header: " + err.Error()
		return q
	}
	q.Client, _ = id.(string)
	if flex {
		if err := r.tags(); err != nil {
			q.DecErr = "header tags: " + err.Error()
			return q
		}
	}
	q.Body, err = decFields(r, s.req, q.Ver, flex)
	if err != nil {
		q.DecErr = err.Error()
		return q
	}
	if r.off != len(raw) {
		q.TrailLen = len(raw) - r.off
		q.DecErr = fmt.Sprintf("%d trailing bytes", q.TrailLen)
	}
	return q
}

// encodeResp returns the whole frame, size included.
func encodeResp(q *Req, body M) []byte {
	s := schemas[q.Key]
	flex := q.Ver >= s.flexFrom
	w := &wr{b: make([]byte, 4)}
	w.i32(q.Corr)
	if flex && q.Key != 18 {
		endTags(w)
	}
	encFields(w, s.resp, body, q.Ver, flex)
	binary.BigEndian.PutUint32(w.b, uint32(len(w.b)-4))
	return w.b
}

const schemaText = `
api Produce 0 9 9
 req
  transactional_id nstring 3+
  acks int16
  timeout int32
  topics []struct
   name string
   partitions []struct
    index int32
    records nbytes
 resp
  responses []struct
   name string
   partitions []struct
    index int32
    error int16
    base_offset int64
    log_append_time int64 2+
    log_start_offset int64 5+
    record_errors []struct 8+
     batch_index int32
     message nstring
    message nstring 8+
  throttle int32 1+
api Fetch 1 11 12
 req
  replica_id int32
  max_wait int32
  min_bytes int32
  max_bytes int32 3+
  isolation int8 4+
  session_id int32 7+
  session_epoch int32 7+
  topics []struct
   name string
   partitions []struct
    index int32
    leader_epoch int32 9+
    offset int64
    log_start_offset int64 5+
    max_bytes int32
  forgotten []struct 7+
   name string
   partitions []int32
  rack string 11+
 resp
  throttle int32 1+
  error int16 7+
  session_id int32 7+
  responses []struct
   name string
   partitions []struct
    index int32
    error int16
    high_watermark int64
    last_stable_offset int64 4+
    log_start_offset int64 5+
    aborted n[]struct 4+
     producer_id int64
     first_offset int64
    preferred int32 11+
    records nbytes
api ListOffsets 2 1 6
 req
  replica_id int32
  topics []struct
   name string
   partitions []struct
    index int32
    timestamp int64
    max_num_offsets int32 0-0
 resp
  topics []struct
   name string
   partitions []struct
    index int32
    error int16
    old_offsets []int64 0-0
    timestamp int64 1+
    offset int64 1+
api Metadata 3 7 9
 req
  topics n[]string
  allow_auto bool 4+
 resp
  throttle int32 3+
  brokers []struct
   node_id int32
   host string
   port int32
   rack nstring 1+
  cluster_id nstring 2+
  controller_id int32 1+
  topics []struct
   error int16
   name string
   is_internal bool 1+
   partitions []struct
    error int16
    index int32
    leader int32
    leader_epoch int32 7+
    replicas []int32
    isr []int32
    offline []int32 5+
api OffsetCommit 8 4 8
 req
  group string
  generation int32 1+
  member string 1+
  retention int64 2-4
  topics []struct
   name string
   partitions []struct
    index int32
    offset int64
    timestamp int64 1-1
    metadata nstring
 resp
  throttle int32 3+
  topics []struct
   name string
   partitions []struct
    index int32
    error int16
api OffsetFetch 9 1 6
 req
  group string
  topics []struct
   name string
   partitions []int32
 resp
  topics []struct
   name string
   partitions []struct
    index int32
    offset int64
    metadata nstring
    error int16
api FindCoordinator 10 0 3
 req
  key string
 resp
  error int16
  node_id int32
  host string
  port int32
api JoinGroup 11 0 6
 req
  group string
  session_timeout int32
  member string
  protocol_type string
  protocols []struct
   name string
   metadata bytes
 resp
  error int16
  generation int32
  protocol string
  leader string
  member string
  members []struct
   member string
   metadata bytes
api Heartbeat 12 0 4
 req
  group string
  generation int32
  member string
 resp
  error int16
api LeaveGroup 13 0 4
 req
  group string
  member string
 resp
  error int16
api SyncGroup 14 0 4
 req
  group string
  generation int32
  member string
  assignments []struct
   member string
   assignment bytes
 resp
  error int16
  assignment bytes
api DescribeGroups 15 0 5
 req
  groups []string
 resp
  groups []struct
   error int16
   group string
   state string
   protocol_type string
   protocol string
   members []struct
    member string
    client_id string
    client_host string
    metadata bytes
    assignment bytes
api ListGroups 16 5 3
 req
  states_filter []string 4+
  types_filter []string 5+
 resp
  throttle int32 1+
  error int16
  groups []struct
   group string
   protocol_type string
   group_state string 4+
   group_type string 5+
api SaslHandshake 17 1 99
 req
  mechanism string
 resp
  error int16
  mechanisms []string
api ApiVersions 18 0 3
 req
 resp
  error int16
  apis []struct
   key int16
   min int16
   max int16
api CreateTopics 19 0 5
 req
  topics []struct
   name string
   num_partitions int32
   replication int16
   assignments []struct
    partition int32
    brokers []int32
   configs []struct
    name string
    value nstring
  timeout int32
 resp
  topics []struct
   name string
   error int16
api DeleteTopics 20 0 4
 req
  names []string
  timeout int32
 resp
  responses []struct
   name string
   error int16
api DescribeAcls 29 2 2
 req
  resource_type int8
  resource_name nstring
  pattern_type int8 1+
  principal nstring
  host nstring
  operation int8
  permission int8
 resp
  throttle int32
  error int16
  message nstring
  resources []struct
   resource_type int8
   resource_name string
   pattern_type int8 1+
   acls []struct
    principal string
    host string
    operation int8
    permission int8
api CreateAcls 30 3 2
 req
  creations []struct
   resource_type int8
   resource_name string
   pattern_type int8 1+
   principal string
   host string
   operation int8
   permission int8
 resp
  throttle int32
  results []struct
   error int16
   message nstring
api DeleteAcls 31 3 2
 req
  filters []struct
   resource_type int8
   resource_name nstring
   pattern_type int8 1+
   principal nstring
   host nstring
   operation int8
   permission int8
 resp
  throttle int32
  results []struct
   error int16
   message nstring
   acls []struct
    error int16
    message nstring
    resource_type int8
    resource_name string
    pattern_type int8 1+
    principal string
    host string
    operation int8
    permission int8
api DescribeConfigs 32 0 4
 req
  resources []struct
   type int8
   name string
   keys n[]string
 resp
  throttle int32
  results []struct
   error int16
   message nstring
   type int8
   name string
   configs []struct
    name string
    value nstring
    read_only bool
    is_default bool
    is_sensitive bool
api AlterConfigs 33 0 2
 req
  resources []struct
   type int8
   name string
   configs []struct
    name string
    value nstring
  validate_only bool
 resp
  throttle int32
  responses []struct
   error int16
   message nstring
   type int8
   name string
api DescribeLogDirs 35 0 2
 req
  topics n[]struct
   name string
   partitions []int32
 resp
  throttle int32
  results []struct
   error int16
   log_dir string
   topics []struct
    name string
    partitions []struct
     index int32
     size int64
     offset_lag int64
     is_future bool
api SaslAuthenticate 36 0 2
 req
  auth bytes
 resp
  error int16
  message nstring
  auth bytes
api CreatePartitions 37 3 2
 req
  topics []struct
   name string
   count int32
   assignments n[]struct
    brokers []int32
  timeout int32
  validate_only bool
 resp
  throttle int32
  results []struct
   name string
   error int16
   message nstring
api DeleteGroups 42 0 2
 req
  names []string
 resp
  throttle int32
  results []struct
   group string
   error int16
api ElectLeaders 43 0 2
 req
  topics n[]struct
   topic string
   partitions []int32
  timeout int32
 resp
  throttle int32
  results []struct
   topic string
   partitions []struct
    index int32
    error int16
    message nstring
api IncrementalAlterConfigs 44 0 1
 req
  resources []struct
   type int8
   name string
   configs []struct
    name string
    operation int8
    value nstring
  validate_only bool
 resp
  throttle int32
  responses []struct
   error int16
   message nstring
   type int8
   name string
api AlterPartitionReassignments 45 0 0
 req
  timeout int32
  topics []struct
   name string
   partitions []struct
    index int32
    replicas n[]int32
 resp
  throttle int32
  error int16
  message nstring
  responses []struct
   name string
   partitions []struct
    index int32
    error int16
    message nstring
api ListPartitionReassignments 46 0 0
 req
  timeout int32
  topics n[]struct
   name string
   partitions []int32
 resp
  throttle int32
  error int16
  message nstring
  topics []struct
   name string
   partitions []struct
    index int32
    replicas []int32
    adding []int32
    removing []int32
`
