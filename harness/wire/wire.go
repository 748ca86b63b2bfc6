// Package wire is an independent implementation of the parts of the Kafka
// protocol the mock serves, written from the protocol description and sharing
// no code with the mock. Responses are parsed strictly: every byte must be
// accounted for.
package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// API keys.
const (
	Fetch           = 1
	ListOffsets     = 2
	Metadata        = 3
	OffsetCommit    = 8
	OffsetFetch     = 9
	FindCoordinator = 10
	JoinGroup       = 11
	Heartbeat       = 12
	LeaveGroup      = 13
	SyncGroup       = 14
	ApiVersions     = 18
)

// Version of each served API that this package speaks.
var Version = map[int16]int16{
	Fetch: 2, ListOffsets: 1, Metadata: 1, OffsetCommit: 2, OffsetFetch: 1,
	FindCoordinator: 0, JoinGroup: 1, Heartbeat: 0, LeaveGroup: 0, SyncGroup: 0, ApiVersions: 0,
}

// Enc appends Kafka primitives.
type Enc struct{ B []byte }

func (e *Enc) I8(v int8)   { e.B = append(e.B, byte(v)) }
func (e *Enc) I16(v int16) { e.B = binary.BigEndian.AppendUint16(e.B, uint16(v)) }
func (e *Enc) I32(v int32) { e.B = binary.BigEndian.AppendUint32(e.B, uint32(v)) }
func (e *Enc) I64(v int64) { e.B = binary.BigEndian.AppendUint64(e.B, uint64(v)) }
func (e *Enc) Str(s string) {
	if len(s) > 32767 {
		panic("string too long for the protocol")
	}
	e.I16(int16(len(s)))
	e.B = append(e.B, s...)
}
func (e *Enc) NStr(s *string) {
	if s == nil {
		e.I16(-1)
	} else {
		e.Str(*s)
	}
}

// Bytes writes nil as null.
func (e *Enc) Bytes(b []byte) {
	if b == nil {
		e.I32(-1)
		return
	}
	e.I32(int32(len(b)))
	e.B = append(e.B, b...)
}

// Arr writes an array length; null for a nil slice.
func arr[T any](e *Enc, a []T, f func(T)) {
	if a == nil {
		e.I32(-1)
		return
	}
	e.I32(int32(len(a)))
	for _, x := range a {
		f(x)
	}
}

// Dec reads Kafka primitives; the first error sticks.
type Dec struct {
	B   []byte
	Off int
	Err error
}

func (d *Dec) take(n int, what string) []byte {
	if d.Err != nil {
		return nil
	}
	if n < 0 || d.Off+n > len(d.B) {
		d.Err = fmt.Errorf("%s needs %d bytes at offset %d of %d", what, n, d.Off, len(d.B))
		return nil
	}
	b := d.B[d.Off : d.Off+n]
	d.Off += n
	return b
}
func (d *Dec) I8() int8 {
	if b := d.take(1, "int8"); b != nil {
		return int8(b[0])
	}
	return 0
}
func (d *Dec) Bool() bool {
	v := d.I8()
	if v != 0 && v != 1 && d.Err == nil {
		d.Err = fmt.Errorf("boolean %d at offset %d", v, d.Off-1)
	}
	return v != 0
}
func (d *Dec) I16() int16 {
	if b := d.take(2, "int16"); b != nil {
		return int16(binary.BigEndian.Uint16(b))
	}
	return 0
}
func (d *Dec) I32() int32 {
	if b := d.take(4, "int32"); b != nil {
		return int32(binary.BigEndian.Uint32(b))
	}
	return 0
}
func (d *Dec) I64() int64 {
	if b := d.take(8, "int64"); b != nil {
		return int64(binary.BigEndian.Uint64(b))
	}
	return 0
}
func (d *Dec) NStr() *string {
	n := d.I16()
	if d.Err != nil {
		return nil
	}
	if n == -1 {
		return nil
	}
	b := d.take(int(n), "string")
	s := string(b)
	return &s
}
func (d *Dec) Str() string {
	p := d.NStr()
	if p == nil {
		if d.Err == nil {
			d.Err = fmt.Errorf("null string before offset %d", d.Off)
		}
		return ""
	}
	return *p
}
func (d *Dec) NBytes() []byte {
	n := d.I32()
	if d.Err != nil || n == -1 {
		return nil
	}
	b := d.take(int(n), "bytes")
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// Arr reads an array (a null array is an error unless nullable).
func Arr[T any](d *Dec, what string, f func() T) []T {
	n := d.I32()
	if d.Err != nil {
		return nil
	}
	if n < 0 {
		d.Err = fmt.Errorf("array %s has length %d", what, n)
		return nil
	}
	if int(n) > len(d.B)-d.Off {
		d.Err = fmt.Errorf("array %s claims %d entries in %d bytes", what, n, len(d.B)-d.Off)
		return nil
	}
	a := make([]T, 0, n)
	for i := 0; i < int(n); i++ {
		a = append(a, f())
		if d.Err != nil {
			d.Err = fmt.Errorf("%s[%d]: %w", what, i, d.Err)
			return nil
		}
	}
	return a
}

func (d *Dec) end() error {
	if d.Err != nil {
		return d.Err
	}
	if d.Off != len(d.B) {
		return fmt.Errorf("%d surplus bytes after the response", len(d.B)-d.Off)
	}
	return nil
}

// ---- requests

type FetchPart struct {
	Part int32
	Off  int64
	Max  int32
}
type FetchTopic struct {
	Topic string
	Parts []FetchPart
}
type FetchReq struct {
	Replica, WaitMs, MinBytes int32
	Topics                    []FetchTopic
}
type ListPart struct {
	Part int32
	Ts   int64
}
type ListTopic struct {
	Topic string
	Parts []ListPart
}
type ListReq struct {
	Replica int32
	Topics  []ListTopic
}
type MetaReq struct{ Topics []string } // nil: null, all topics
type CommitPart struct {
	Part int32
	Off  int64
	Meta *string
}
type CommitTopic struct {
	Topic string
	Parts []CommitPart
}
type CommitReq struct {
	Group     string
	Gen       int32
	Member    string
	Retention int64
	Topics    []CommitTopic
}
type OFetchTopic struct {
	Topic string
	Parts []int32
}
type OFetchReq struct {
	Group  string
	Topics []OFetchTopic
}
type CoordReq struct{ Key string }
type Proto struct {
	Name string
	Meta Blob
}
type JoinReq struct {
	Group              string
	Session, Rebalance int32
	Member, Type       string
	Protos             []Proto
}
type SyncReq struct {
	Group  string
	Gen    int32
	Member string
}
type HeartbeatReq struct {
	Group  string
	Gen    int32
	Member string
}
type LeaveReq struct{ Group, Member string }

// Blob stands for N pseudo-random bytes (N == -1: null).
type Blob struct {
	N    int
	Seed uint32
}

func (b Blob) Bytes() []byte {
	if b.N < 0 {
		return nil
	}
	out := make([]byte, b.N)
	x := uint64(b.Seed)*0x9E3779B97F4A7C15 + 0x1234567
	for i := range out {
		if i%8 == 0 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
		}
		out[i] = byte(x >> (8 * (uint(i) % 8)))
	}
	return out
}

// Req is one request: exactly one of the pointers is set, except ApiVersions.
type Req struct {
	Corr   int32
	Client *string `json:",omitempty"`

	Fetch     *FetchReq     `json:",omitempty"`
	List      *ListReq      `json:",omitempty"`
	Meta      *MetaReq      `json:",omitempty"`
	Commit    *CommitReq    `json:",omitempty"`
	OFetch    *OFetchReq    `json:",omitempty"`
	Coord     *CoordReq     `json:",omitempty"`
	Join      *JoinReq      `json:",omitempty"`
	Sync      *SyncReq      `json:",omitempty"`
	Heartbeat *HeartbeatReq `json:",omitempty"`
	Leave     *LeaveReq     `json:",omitempty"`
	ApiV      bool          `json:",omitempty"`
}

// Key is the API key of the request.
func (r *Req) Key() int16 {
	switch {
	case r.Fetch != nil:
		return Fetch
	case r.List != nil:
		return ListOffsets
	case r.Meta != nil:
		return Metadata
	case r.Commit != nil:
		return OffsetCommit
	case r.OFetch != nil:
		return OffsetFetch
	case r.Coord != nil:
		return FindCoordinator
	case r.Join != nil:
		return JoinGroup
	case r.Sync != nil:
		return SyncGroup
	case r.Heartbeat != nil:
		return Heartbeat
	case r.Leave != nil:
		return LeaveGroup
	case r.ApiV:
		return ApiVersions
	}
	panic("empty request")
}

// Name of the API.
func (r *Req) Name() string { return KeyName(r.Key()) }

// KeyName names an API key.
func KeyName(k int16) string {
	return map[int16]string{Fetch: "fetch", ListOffsets: "list-offsets", Metadata: "metadata", OffsetCommit: "commit",
		OffsetFetch: "offset-fetch", FindCoordinator: "coordinator", JoinGroup: "join", Heartbeat: "heartbeat",
		LeaveGroup: "leave", SyncGroup: "sync", ApiVersions: "api-versions"}[k]
}

// Encode is the complete request with its length prefix.
func (r *Req) Encode() []byte {
	k := r.Key()
	return Frame(k, Version[k], r.Corr, r.Client, r.Body())
}

// Frame puts the length prefix and the request header before a body.
func Frame(key, version int16, corr int32, client *string, body []byte) []byte {
	var e Enc
	e.I32(0)
	e.I16(key)
	e.I16(version)
	e.I32(corr)
	e.NStr(client)
	e.B = append(e.B, body...)
	binary.BigEndian.PutUint32(e.B, uint32(len(e.B)-4))
	return e.B
}

// Body encodes the request without header.
func (r *Req) Body() []byte {
	e := &Enc{}
	switch {
	case r.Fetch != nil:
		q := r.Fetch
		e.I32(q.Replica)
		e.I32(q.WaitMs)
		e.I32(q.MinBytes)
		arr(e, q.Topics, func(t FetchTopic) {
			e.Str(t.Topic)
			arr(e, t.Parts, func(p FetchPart) { e.I32(p.Part); e.I64(p.Off); e.I32(p.Max) })
		})
	case r.List != nil:
		e.I32(r.List.Replica)
		arr(e, r.List.Topics, func(t ListTopic) {
			e.Str(t.Topic)
			arr(e, t.Parts, func(p ListPart) { e.I32(p.Part); e.I64(p.Ts) })
		})
	case r.Meta != nil:
		arr(e, r.Meta.Topics, func(t string) { e.Str(t) })
	case r.Commit != nil:
		q := r.Commit
		e.Str(q.Group)
		e.I32(q.Gen)
		e.Str(q.Member)
		e.I64(q.Retention)
		arr(e, q.Topics, func(t CommitTopic) {
			e.Str(t.Topic)
			arr(e, t.Parts, func(p CommitPart) { e.I32(p.Part); e.I64(p.Off); e.NStr(p.Meta) })
		})
	case r.OFetch != nil:
		e.Str(r.OFetch.Group)
		arr(e, r.OFetch.Topics, func(t OFetchTopic) {
			e.Str(t.Topic)
			arr(e, t.Parts, func(p int32) { e.I32(p) })
		})
	case r.Coord != nil:
		e.Str(r.Coord.Key)
	case r.Join != nil:
		q := r.Join
		e.Str(q.Group)
		e.I32(q.Session)
		e.I32(q.Rebalance)
		e.Str(q.Member)
		e.Str(q.Type)
		arr(e, q.Protos, func(p Proto) { e.Str(p.Name); e.Bytes(p.Meta.Bytes()) })
	case r.Sync != nil:
		e.Str(r.Sync.Group)
		e.I32(r.Sync.Gen)
		e.Str(r.Sync.Member)
		e.I32(0) // no assignments: the mock is the leader
	case r.Heartbeat != nil:
		e.Str(r.Heartbeat.Group)
		e.I32(r.Heartbeat.Gen)
		e.Str(r.Heartbeat.Member)
	case r.Leave != nil:
		e.Str(r.Leave.Group)
		e.Str(r.Leave.Member)
	case r.ApiV:
	default:
		panic("empty request")
	}
	return e.B
}

// ---- responses

type Msg struct {
	Off     int64
	Size    int32
	Crc     uint32
	Magic   int8
	Attr    int8
	Ts      int64
	Key     []byte
	Value   []byte
	Encoded int    // bytes on the wire, with offset and size fields
	Body    []byte `json:"-"` // what the checksum covers
}
type FetchRespPart struct {
	Part int32
	Err  int16
	HWM  int64
	Set  []byte `json:"-"`
}
type FetchRespTopic struct {
	Topic string
	Parts []FetchRespPart
}
type FetchResp struct {
	Throttle int32
	Topics   []FetchRespTopic
}
type ListRespPart struct {
	Part int32
	Err  int16
	Ts   int64
	Off  int64
}
type ListRespTopic struct {
	Topic string
	Parts []ListRespPart
}
type ListResp struct{ Topics []ListRespTopic }
type Broker struct {
	Node int32
	Host string
	Port int32
	Rack *string
}
type MetaPart struct {
	Err      int16
	Part     int32
	Leader   int32
	Replicas []int32
	Isr      []int32
}
type MetaTopic struct {
	Err      int16
	Name     string
	Internal bool
	Parts    []MetaPart
}
type MetaResp struct {
	Brokers    []Broker
	Controller int32
	Topics     []MetaTopic
}
type CommitRespPart struct {
	Part int32
	Err  int16
}
type CommitRespTopic struct {
	Topic string
	Parts []CommitRespPart
}
type CommitResp struct{ Topics []CommitRespTopic }
type OFetchRespPart struct {
	Part int32
	Off  int64
	Meta *string
	Err  int16
}
type OFetchRespTopic struct {
	Topic string
	Parts []OFetchRespPart
}
type OFetchResp struct{ Topics []OFetchRespTopic }
type CoordResp struct {
	Err  int16
	Node int32
	Host string
	Port int32
}
type Member struct {
	ID   string
	Meta []byte
}
type JoinResp struct {
	Err     int16
	Gen     int32
	Proto   string
	Leader  string
	Member  string
	Members []Member
}
type SyncResp struct {
	Err        int16
	Assignment []byte
}
type ErrResp struct{ Err int16 }
type ApiKey struct{ Key, Min, Max int16 }
type ApiVResp struct {
	Err  int16
	Keys []ApiKey
}

// Decode parses a response body (after the correlation id) for the request.
func (r *Req) Decode(body []byte) (any, error) { return DecodeResp(r.Key(), body) }

// DecodeResp parses a response body of the API's version above.
func DecodeResp(key int16, body []byte) (any, error) {
	d := &Dec{B: body}
	i32s := func(what string) []int32 { return Arr(d, what, d.I32) }
	var out any
	switch key {
	case Fetch:
		r := &FetchResp{Throttle: d.I32()}
		r.Topics = Arr(d, "topics", func() (t FetchRespTopic) {
			t.Topic = d.Str()
			t.Parts = Arr(d, "partitions", func() (p FetchRespPart) {
				p.Part = d.I32()
				p.Err = d.I16()
				p.HWM = d.I64()
				n := d.I32()
				if d.Err == nil && n < 0 {
					if n != -1 {
						d.Err = fmt.Errorf("message set size %d", n)
					}
					return
				}
				p.Set = append([]byte{}, d.take(int(n), "message set")...)
				return
			})
			return
		})
		out = r
	case ListOffsets:
		r := &ListResp{}
		r.Topics = Arr(d, "topics", func() (t ListRespTopic) {
			t.Topic = d.Str()
			t.Parts = Arr(d, "partitions", func() ListRespPart {
				return ListRespPart{Part: d.I32(), Err: d.I16(), Ts: d.I64(), Off: d.I64()}
			})
			return
		})
		out = r
	case Metadata:
		r := &MetaResp{}
		r.Brokers = Arr(d, "brokers", func() Broker {
			return Broker{Node: d.I32(), Host: d.Str(), Port: d.I32(), Rack: d.NStr()}
		})
		r.Controller = d.I32()
		r.Topics = Arr(d, "topics", func() (t MetaTopic) {
			t.Err = d.I16()
			t.Name = d.Str()
			t.Internal = d.Bool()
			t.Parts = Arr(d, "partitions", func() MetaPart {
				return MetaPart{Err: d.I16(), Part: d.I32(), Leader: d.I32(), Replicas: i32s("replicas"), Isr: i32s("isr")}
			})
			return
		})
		out = r
	case OffsetCommit:
		r := &CommitResp{}
		r.Topics = Arr(d, "topics", func() (t CommitRespTopic) {
			t.Topic = d.Str()
			t.Parts = Arr(d, "partitions", func() CommitRespPart { return CommitRespPart{Part: d.I32(), Err: d.I16()} })
			return
		})
		out = r
	case OffsetFetch:
		r := &OFetchResp{}
		r.Topics = Arr(d, "topics", func() (t OFetchRespTopic) {
			t.Topic = d.Str()
			t.Parts = Arr(d, "partitions", func() OFetchRespPart {
				return OFetchRespPart{Part: d.I32(), Off: d.I64(), Meta: d.NStr(), Err: d.I16()}
			})
			return
		})
		out = r
	case FindCoordinator:
		out = &CoordResp{Err: d.I16(), Node: d.I32(), Host: d.Str(), Port: d.I32()}
	case JoinGroup:
		r := &JoinResp{Err: d.I16(), Gen: d.I32(), Proto: d.Str(), Leader: d.Str(), Member: d.Str()}
		r.Members = Arr(d, "members", func() Member { return Member{ID: d.Str(), Meta: d.NBytes()} })
		out = r
	case SyncGroup:
		out = &SyncResp{Err: d.I16(), Assignment: d.NBytes()}
	case Heartbeat, LeaveGroup:
		out = &ErrResp{Err: d.I16()}
	case ApiVersions:
		r := &ApiVResp{Err: d.I16()}
		r.Keys = Arr(d, "api keys", func() ApiKey { return ApiKey{Key: d.I16(), Min: d.I16(), Max: d.I16()} })
		out = r
	default:
		return nil, fmt.Errorf("no schema for API key %d", key)
	}
	if err := d.end(); err != nil {
		return nil, fmt.Errorf("%s response does not parse: %w", KeyName(key), err)
	}
	return out, nil
}

// Messages reads a v1 message set by the lengths of keys and values, not
// looking at the size fields and checksums (that is Strict's business).
func Messages(set []byte) ([]Msg, error) {
	d := &Dec{B: set}
	var out []Msg
	for d.Off < len(d.B) {
		start := d.Off
		var m Msg
		m.Off = d.I64()
		m.Size = d.I32()
		m.Crc = uint32(d.I32())
		m.Magic = d.I8()
		m.Attr = d.I8()
		m.Ts = d.I64()
		m.Key = d.NBytes()
		m.Value = d.NBytes()
		if d.Err != nil {
			return out, fmt.Errorf("message %d of the set at byte %d: %w", len(out), start, d.Err)
		}
		m.Encoded = d.Off - start
		m.Body = set[start+16 : d.Off]
		out = append(out, m)
	}
	return out, nil
}

// Assignment of a consumer group member.
type Assignment struct {
	Version int16
	Topics  []AssignTopic
	User    []byte
}
type AssignTopic struct {
	Topic string
	Parts []int32
}

// ParseAssignment parses a consumer protocol assignment.
func ParseAssignment(b []byte) (*Assignment, error) {
	if b == nil {
		return nil, errors.New("null assignment")
	}
	d := &Dec{B: b}
	a := &Assignment{Version: d.I16()}
	a.Topics = Arr(d, "topics", func() (t AssignTopic) {
		t.Topic = d.Str()
		t.Parts = Arr(d, "partitions", d.I32)
		return
	})
	a.User = d.NBytes()
	if err := d.end(); err != nil {
		return nil, fmt.Errorf("assignment does not parse: %w", err)
	}
	return a, nil
}
