package bb

// Generators of arbitrary valid requests and the stores they are sent to.

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"kmverif/ctl"
	"kmverif/wire"

	"pgregory.net/rapid"
)

// Store is what a mock holds at the beginning of a case.
type Store struct {
	Slots []Slot
	Recs  [][]ctl.Rec // parallel to Slots; nil: created empty
}

func genStore(minSlots, maxSlots, maxVal int, extOnly bool) *rapid.Generator[Store] {
	return rapid.Custom(func(t *rapid.T) Store {
		st := Store{Slots: genSlots(minSlots, maxSlots).Draw(t, "slots")}
		for range st.Slots {
			var recs []ctl.Rec
			if rapid.IntRange(0, 2).Draw(t, "filled") > 0 {
				recs = genRecs(maxVal).Draw(t, "recs")
			}
			if extOnly {
				for i := range recs {
					if !recs[i].Ext {
						recs[i].Ext, recs[i].Ms = true, int64(1000+i)
					}
				}
			}
			st.Recs = append(st.Recs, recs)
		}
		return st
	})
}

func (w *World) fill(st Store) error {
	for i, s := range st.Slots {
		if len(st.Recs[i]) == 0 {
			if err := w.create(s); err != nil {
				return err
			}
		} else if err := w.post(s, st.Recs[i]); err != nil {
			return err
		}
	}
	return nil
}

// RSpec is a request; Grow adds that many entries to its list, Huge one entry
// of that many bytes (to a join), and Pad lengthens the client id until the
// encoded size is a multiple of Pad.
type RSpec struct {
	R    wire.Req
	Grow int `json:",omitempty"`
	Huge int `json:",omitempty"`
	Pad  int `json:",omitempty"`
}

func (s RSpec) req() *wire.Req {
	r := s.grown()
	if s.Huge > 0 && r.Join != nil {
		q := *r.Join
		q.Protos = append(append([]wire.Proto{}, q.Protos...), wire.Proto{Name: "huge", Meta: wire.Blob{N: s.Huge, Seed: uint32(s.Huge)}})
		r.Join = &q
	}
	varyReq(r) // once, and before the padding
	if s.Pad > 0 {
		c := ""
		if r.Client != nil {
			c = *r.Client
		}
		r.Client = &c
		if n := (s.Pad - len(r.Encode())%s.Pad) % s.Pad; len(c)+n <= 32767 {
			c += strings.Repeat("z", n)
		}
	}
	return r
}

func (s RSpec) grown() *wire.Req {
	r := s.R
	for i := 0; i < s.Grow; i++ {
		p := int32(i + 1000)
		switch {
		case r.Fetch != nil:
			if i == 0 {
				q := *r.Fetch
				q.Topics = append([]wire.FetchTopic{}, q.Topics...)
				q.Topics = append(q.Topics, wire.FetchTopic{Topic: "filler"})
				r.Fetch = &q
			}
			ts := r.Fetch.Topics
			ts[len(ts)-1].Parts = append(ts[len(ts)-1].Parts, wire.FetchPart{Part: p, Off: int64(i), Max: 1000})
		case r.List != nil:
			if i == 0 {
				q := *r.List
				q.Topics = append(append([]wire.ListTopic{}, q.Topics...), wire.ListTopic{Topic: "filler"})
				r.List = &q
			}
			ts := r.List.Topics
			ts[len(ts)-1].Parts = append(ts[len(ts)-1].Parts, wire.ListPart{Part: p, Ts: int64(i) - 2})
		case r.Meta != nil:
			if i == 0 {
				r.Meta = &wire.MetaReq{Topics: append([]string{}, r.Meta.Topics...)}
			}
			r.Meta.Topics = append(r.Meta.Topics, fmt.Sprintf("filler-%d", i))
		case r.Commit != nil:
			if i == 0 {
				q := *r.Commit
				q.Topics = append([]wire.CommitTopic{}, q.Topics...)
				r.Commit = &q
			}
			m := strings.Repeat("m", i%50)
			r.Commit.Topics = append(r.Commit.Topics, wire.CommitTopic{Topic: fmt.Sprintf("filler-%d", i), Parts: []wire.CommitPart{{Part: p, Off: int64(i), Meta: &m}}})
		case r.OFetch != nil:
			if i == 0 {
				q := *r.OFetch
				q.Topics = append(append([]wire.OFetchTopic{}, q.Topics...), wire.OFetchTopic{Topic: "filler"})
				r.OFetch = &q
			}
			ts := r.OFetch.Topics
			ts[len(ts)-1].Parts = append(ts[len(ts)-1].Parts, p)
		case r.Join != nil:
			if i == 0 {
				q := *r.Join
				q.Protos = append([]wire.Proto{}, q.Protos...)
				r.Join = &q
			}
			r.Join.Protos = append(r.Join.Protos, wire.Proto{Name: fmt.Sprintf("p%d", i), Meta: wire.Blob{N: i % 100, Seed: uint32(i)}})
		}
	}
	return &r
}

// names of any length, of this case's topics mostly
func genTopic(slots []Slot) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 11).Draw(t, "topic kind") {
		case 0:
			return "unknown"
		case 1:
			return genName.Draw(t, "name")
		}
		return rapid.SampledFrom(slots).Draw(t, "slot").Topic
	})
}

var genName = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "name kind") {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", rapid.SampledFrom([]int{1, 2, 127, 128, 255, 256, 4000, 4070, 4090, 4096, 8192, 16384, 32766, 32767}).Draw(t, "len"))
	case 2:
		return "\x00\xff\xfe"
	}
	return rapid.SampledFrom(append(groupPool[:9:9], "consumer", "range", "me", "1")).Draw(t, "pool")
})

func pick32(t *rapid.T, label string, vs ...int32) int32 {
	vs = append(vs, 0, 1, -1, math.MaxInt32, math.MinInt32)
	return rapid.SampledFrom(vs).Draw(t, label)
}

// genReq draws a valid request. groups limits the groups it may commit to;
// fetch waits are bounded by maxWait ms (longer ones only when data is sure to
// be there, see spare).
func genReq(slots []Slot, groups []string, maxWait int, extreme bool) *rapid.Generator[RSpec] {
	return rapid.Custom(func(t *rapid.T) RSpec {
		var s RSpec
		r := &s.R
		r.Corr = int32(rapid.Uint32().Draw(t, "corr"))
		if rapid.IntRange(0, 2).Draw(t, "client") > 0 {
			var c string
			if extreme {
				c = genName.Draw(t, "client id")
			} else {
				c = rapid.SampledFrom([]string{"", "c", "client", strings.Repeat("y", 300)}).Draw(t, "client id")
			}
			r.Client = &c
		}
		name := func(label string) string {
			if extreme {
				return genName.Draw(t, label)
			}
			return rapid.SampledFrom(groupPool).Draw(t, label)
		}
		group := func() string { return rapid.SampledFrom(groups).Draw(t, "group") }
		topic := genTopic(slots)
		part := func(tp string) int32 {
			if rapid.IntRange(0, 7).Draw(t, "odd partition") == 0 {
				return pick32(t, "partition", 3, 1000)
			}
			var ps []int32
			for _, x := range slots {
				if x.Topic == tp {
					ps = append(ps, x.Part)
				}
			}
			if len(ps) == 0 {
				ps = []int32{0, 1, 2}
			}
			return rapid.SampledFrom(ps).Draw(t, "partition")
		}
		ntopics := rapid.IntRange(0, 4).Draw(t, "topics")
		nparts := func() int { return rapid.IntRange(0, 4).Draw(t, "partitions") }
		off := func() int64 {
			if extreme && rapid.IntRange(0, 5).Draw(t, "odd offset") == 0 {
				return rapid.SampledFrom([]int64{-1, -2, math.MaxInt64, math.MinInt64, 1 << 31, 1 << 32, 1<<31 - 1}).Draw(t, "offset")
			}
			return int64(rapid.IntRange(0, 8).Draw(t, "offset"))
		}
		switch rapid.IntRange(0, 14).Draw(t, "api") {
		case 0, 1, 2, 3:
			q := &wire.FetchReq{Replica: -1, MinBytes: 1, Topics: []wire.FetchTopic{}, WaitMs: int32(rapid.SampledFrom([]int{0, 0, 0, 0, 1, maxWait}).Draw(t, "wait"))}
			if extreme {
				q.Replica, q.MinBytes = pick32(t, "replica"), pick32(t, "min bytes")
				if rapid.IntRange(0, 5).Draw(t, "negative wait") == 0 {
					q.WaitMs = rapid.SampledFrom([]int32{-1, math.MinInt32}).Draw(t, "wait")
				}
			}
			for i := 0; i < ntopics; i++ {
				ft := wire.FetchTopic{Topic: topic.Draw(t, "topic"), Parts: []wire.FetchPart{}}
				for j, n := 0, nparts(); j < n; j++ {
					max := int32(1 << 20)
					if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
						max = pick32(t, "max", 100, 1000, 35)
					}
					ft.Parts = append(ft.Parts, wire.FetchPart{Part: part(ft.Topic), Off: off(), Max: max})
				}
				q.Topics = append(q.Topics, ft)
			}
			r.Fetch = q
		case 4:
			q := &wire.ListReq{Replica: -1, Topics: []wire.ListTopic{}}
			for i := 0; i < ntopics; i++ {
				lt := wire.ListTopic{Topic: topic.Draw(t, "topic"), Parts: []wire.ListPart{}}
				for j, n := 0, nparts(); j < n; j++ {
					lt.Parts = append(lt.Parts, wire.ListPart{Part: part(lt.Topic), Ts: rapid.SampledFrom([]int64{-1, -2, 0, 1000, 1001, 1700000000000, math.MaxInt64}).Draw(t, "ts")})
				}
				q.Topics = append(q.Topics, lt)
			}
			r.List = q
		case 5, 6:
			q := &wire.MetaReq{Topics: []string{}}
			if rapid.IntRange(0, 4).Draw(t, "null") == 0 {
				q.Topics = nil
			} else {
				for i := 0; i < ntopics; i++ {
					q.Topics = append(q.Topics, topic.Draw(t, "topic"))
				}
			}
			r.Meta = q
		case 7, 8:
			q := &wire.CommitReq{Group: group(), Gen: pick32(t, "generation"), Member: name("member"), Retention: -1, Topics: []wire.CommitTopic{}}
			if extreme {
				q.Retention = rapid.SampledFrom([]int64{-1, 0, math.MaxInt64, math.MinInt64}).Draw(t, "retention")
			}
			for i := 0; i < ntopics; i++ {
				ct := wire.CommitTopic{Topic: topic.Draw(t, "topic"), Parts: []wire.CommitPart{}}
				for j, n := 0, nparts(); j < n; j++ {
					p := wire.CommitPart{Part: part(ct.Topic), Off: off()}
					if rapid.IntRange(0, 2).Draw(t, "metadata") > 0 {
						m := name("metadata")
						p.Meta = &m
					}
					ct.Parts = append(ct.Parts, p)
				}
				q.Topics = append(q.Topics, ct)
			}
			r.Commit = q
		case 9, 10:
			q := &wire.OFetchReq{Group: group(), Topics: []wire.OFetchTopic{}}
			for i := 0; i < ntopics; i++ {
				ot := wire.OFetchTopic{Topic: topic.Draw(t, "topic"), Parts: []int32{}}
				for j, n := 0, nparts(); j < n; j++ {
					ot.Parts = append(ot.Parts, part(ot.Topic))
				}
				q.Topics = append(q.Topics, ot)
			}
			r.OFetch = q
		case 11:
			r.Coord = &wire.CoordReq{Key: name("key")}
		case 12:
			q := &wire.JoinReq{Group: name("group"), Session: pick32(t, "session", 30000), Rebalance: pick32(t, "rebalance", 30000), Member: name("member"), Type: name("type"), Protos: []wire.Proto{}}
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "protocols"); i < n; i++ {
				b := wire.Blob{N: rapid.IntRange(0, 200).Draw(t, "metadata"), Seed: uint32(i)}
				if extreme && rapid.IntRange(0, 9).Draw(t, "large") == 0 {
					b.N = rapid.SampledFrom([]int{4096, 8192, 65536, 300000}).Draw(t, "metadata")
				}
				q.Protos = append(q.Protos, wire.Proto{Name: name("protocol"), Meta: b})
			}
			r.Join = q
		case 13:
			switch rapid.IntRange(0, 2).Draw(t, "group api") {
			case 0:
				r.Sync = &wire.SyncReq{Group: name("group"), Gen: pick32(t, "generation"), Member: name("member")}
			case 1:
				r.Heartbeat = &wire.HeartbeatReq{Group: name("group"), Gen: pick32(t, "generation"), Member: name("member")}
			default:
				r.Leave = &wire.LeaveReq{Group: name("group"), Member: name("member")}
			}
		default:
			r.ApiV = true
		}
		if rapid.IntRange(0, 9).Draw(t, "grown") == 0 {
			s.Grow = rapid.SampledFrom([]int{10, 100, 253, 300, 340, 500, 1000, 3000}).Draw(t, "grow")
			if rapid.IntRange(0, 31).Draw(t, "far grown") == 27 && r.Commit == nil {
				s.Grow = 70000
			}
			if r.Meta != nil && r.Meta.Topics == nil {
				s.Grow = 0
			}
		}
		if r.Join != nil && rapid.IntRange(0, 15).Draw(t, "huge") == 11 {
			s.Huge = rapid.SampledFrom([]int{1 << 20, 1<<20 + 100, 3000000, 9000000}).Draw(t, "size")
		}
		if rapid.IntRange(0, 7).Draw(t, "padded") == 0 {
			s.Pad = rapid.SampledFrom([]int{512, 1024, 2048, 4096, 8192, 8192, 8192, 8192, 16384, 32768}).Draw(t, "pad")
		}
		return s
	})
}

// fits says whether any fetch entry surely brings a record.
func (w *World) fits(q *wire.FetchReq) bool {
	for _, t := range q.Topics {
		for _, p := range t.Parts {
			log := w.mod.Parts[Slot{t.Topic, p.Part}]
			if p.Off >= 0 && p.Off < int64(len(log)) && int64(log[p.Off].size()) <= int64(p.Max) {
				return true
			}
		}
	}
	return false
}

// canon makes answers of two mocks comparable: the port, and the order of
// lists whose order nobody specified, are taken out.
func canon(key int16, body []byte) (string, error) {
	v, err := wire.DecodeResp(key, body)
	if err != nil {
		return "", err
	}
	switch f := v.(type) {
	case *wire.MetaResp:
		for i := range f.Brokers {
			f.Brokers[i].Port = 0
		}
		for i := range f.Topics {
			ps := f.Topics[i].Parts
			sort.SliceStable(ps, func(a, b int) bool { return ps[a].Part < ps[b].Part })
		}
		sort.SliceStable(f.Topics, func(a, b int) bool { return f.Topics[a].Name < f.Topics[b].Name })
	case *wire.CoordResp:
		f.Port = 0
	case *wire.OFetchResp:
		var flat []string
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				flat = append(flat, fmt.Sprintf("%s/%d=%d,%d", t.Topic, p.Part, p.Off, p.Err))
			}
		}
		sort.Strings(flat)
		return fmt.Sprint(flat), nil
	case *wire.ListResp:
		for i := range f.Topics {
			for j := range f.Topics[i].Parts {
				f.Topics[i].Parts[j].Ts = 0 // "latest" may carry the time of the request
			}
		}
	case *wire.SyncResp:
		a, err := wire.ParseAssignment(f.Assignment)
		if err != nil {
			return "", err
		}
		for i := range a.Topics {
			ps := a.Topics[i].Parts
			sort.Slice(ps, func(x, y int) bool { return ps[x] < ps[y] })
		}
		sort.Slice(a.Topics, func(x, y int) bool { return a.Topics[x].Topic < a.Topics[y].Topic })
		return fmt.Sprintf("%d %+v", f.Err, *a), nil
	case *wire.FetchResp:
		var b strings.Builder
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				fmt.Fprintf(&b, "%q/%d err %d hwm %d set %x\n", t.Topic, p.Part, p.Err, p.HWM, p.Set)
			}
		}
		return b.String(), nil
	}
	b, err := json.Marshal(v)
	return string(b), err
}
