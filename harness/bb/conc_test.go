package bb

// C16: concurrent use.

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
)

type concCase struct {
	Slots   []Slot
	Pre     int       // bits: slots that exist from the start
	Burst   int       // partitions that come into being by all goroutines posting to each, one after the other
	Duel    *concDuel `json:",omitempty"`
	Fresh   bool      // a fresh process, in which several mocks are made at once
	Threads [][]concCall
	Clients []concClient

	// instead: what C11, C12 and C20 do, watched by the race detector
	Life  *lifeCase  `json:",omitempty"`
	Leave *leaveCase `json:",omitempty"`
	Multi *multiCase `json:",omitempty"`
}

// concDuel: in every round, all connections commit their value for each of many
// partitions for a new group in one request, or fetch the offsets, all at once.
type concDuel struct {
	Parts   int
	Rounds  int
	Values  []int64
	Readers int
	Delays  []int // us that the readers start later, in turn
}

// concCall is what a goroutine of the process does with the mock.
type concCall struct {
	Kind  string // post create setoff new pause
	Slot  int
	N     int   `json:",omitempty"` // records
	Size  int   `json:",omitempty"`
	Ext   bool  `json:",omitempty"`
	Pause int   `json:",omitempty"` // us between records
	Group int   `json:",omitempty"`
	Val   int64 `json:",omitempty"`
}

// concClient is a connection that repeats its requests until the goroutines
// are done.
type concClient struct {
	Steps     []concReq
	Reconnect bool
}

type concReq struct {
	Kind  string // fetch list commit ofetch sync meta other
	Slots []int
	Max   int32 `json:",omitempty"`
	Wait  int32 `json:",omitempty"`
	Ts    int64 `json:",omitempty"`
	Group int   `json:",omitempty"`
	Val   int64 `json:",omitempty"`
	Climb bool  `json:",omitempty"` // commit: a larger value every round
	Zero  bool  `json:",omitempty"` // fetch from the beginning
}

type span struct{ s, e int64 }

// what clients saw
type sawFetch struct {
	span
	slot int
	from int64
	max  int32
	part wire.FetchRespPart
	msgs []wire.Msg
}
type sawList struct {
	span
	slot int
	ask  int64
	part wire.ListRespPart
}
type sawErr struct { // an answer that says whether something exists
	span
	slot   int
	exists bool
	what   string
}
type sawSet struct {
	span
	have map[Slot]int
	what string
}

type concRun struct {
	*World
	c  concCase
	mu sync.Mutex

	fetches []sawFetch
	lists   []sawList
	errs    []sawErr
	sets    []sawSet
	offs    map[ckey][]porcupine.Operation
	nops    int
	apis    string
}

type offIn struct {
	kind string // commit set get
	v    int64
}

var offModel = porcupine.Model{
	Init: func() any { return int64(0) },
	Step: func(state, in, out any) (bool, any) {
		st, i := state.(int64), in.(offIn)
		switch i.kind {
		case "commit":
			if i.v > st {
				return true, i.v
			}
			return true, st
		case "set":
			return true, i.v
		}
		return out.(int64) == st, st
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%v=%v", in, out) },
}

func (r *concRun) off(client int, k ckey, sp span, in offIn, out int64) {
	r.offs[k] = append(r.offs[k], porcupine.Operation{ClientId: client, Input: in, Call: sp.s, Output: out, Return: sp.e})
}

func concGroup(i int) string { return fmt.Sprintf("g%d", i%2) }

// client repeats its steps until done is closed, and once more.
func (r *concRun) client(id int, cl concClient, done chan struct{}) error {
	conn, err := wire.Dial(r.port, ansWait)
	if err != nil {
		return r.exchangeErr("connecting", err)
	}
	defer func() { conn.Close() }()
	pos := make([]int64, len(r.c.Slots))
	last := false
	for round := 0; round < 40 && !last; round++ {
		select {
		case <-done:
			last = true
		default:
		}
		if cl.Reconnect && round > 0 {
			conn.Close()
			if conn, err = wire.Dial(r.port, ansWait); err != nil {
				return r.exchangeErr("connecting", err)
			}
		}
		for k, st := range cl.Steps {
			if st.Climb {
				st.Val += int64(round) * 3
			}
			q, ask := r.request(st, pos)
			q.Corr = int32(round*1000 + k)
			raw := q.Encode()
			var sp span
			sp.s = ctl.Mono()
			if err := conn.Send(raw); err != nil {
				return r.exchangeErr(q.Name(), err)
			}
			corr, body, err := conn.Recv(ansWait)
			sp.e = ctl.Mono()
			if err != nil {
				return r.exchangeErr(q.Name(), err)
			}
			if corr != q.Corr {
				return fmt.Errorf("%s: correlation id %d answered with %d", q.Name(), q.Corr, corr)
			}
			resp, err := q.Decode(body)
			if err != nil {
				return err
			}
			if err := r.saw(id, st, q, ask, sp, resp, pos); err != nil {
				return err
			}
		}
	}
	return nil
}

// request makes the request; ask is the order of the slots in it.
func (r *concRun) request(st concReq, pos []int64) (*wire.Req, []int) {
	var ask []int
	seen := map[int]bool{}
	for _, i := range st.Slots {
		if i %= len(r.c.Slots); !seen[i] {
			seen[i] = true
			ask = append(ask, i)
		}
	}
	sort.SliceStable(ask, func(a, b int) bool { return r.c.Slots[ask[a]].Topic < r.c.Slots[ask[b]].Topic })
	q := &wire.Req{}
	switch st.Kind {
	case "fetch":
		f := &wire.FetchReq{Replica: -1, MinBytes: 1, WaitMs: st.Wait, Topics: []wire.FetchTopic{}}
		for _, i := range ask {
			s := r.c.Slots[i]
			if n := len(f.Topics); n == 0 || f.Topics[n-1].Topic != s.Topic {
				f.Topics = append(f.Topics, wire.FetchTopic{Topic: s.Topic})
			}
			t := &f.Topics[len(f.Topics)-1]
			from := pos[i]
			if st.Zero {
				from = 0
			}
			t.Parts = append(t.Parts, wire.FetchPart{Part: s.Part, Off: from, Max: st.Max})
		}
		q.Fetch = f
	case "list":
		f := &wire.ListReq{Replica: -1, Topics: []wire.ListTopic{}}
		for _, i := range ask {
			s := r.c.Slots[i]
			if n := len(f.Topics); n == 0 || f.Topics[n-1].Topic != s.Topic {
				f.Topics = append(f.Topics, wire.ListTopic{Topic: s.Topic})
			}
			t := &f.Topics[len(f.Topics)-1]
			t.Parts = append(t.Parts, wire.ListPart{Part: s.Part, Ts: st.Ts})
		}
		q.List = f
	case "commit":
		f := &wire.CommitReq{Group: concGroup(st.Group), Gen: 1, Member: "1", Retention: -1, Topics: []wire.CommitTopic{}}
		for _, i := range ask {
			s := r.c.Slots[i]
			if n := len(f.Topics); n == 0 || f.Topics[n-1].Topic != s.Topic {
				f.Topics = append(f.Topics, wire.CommitTopic{Topic: s.Topic})
			}
			t := &f.Topics[len(f.Topics)-1]
			t.Parts = append(t.Parts, wire.CommitPart{Part: s.Part, Off: st.Val})
		}
		q.Commit = f
	case "ofetch":
		f := &wire.OFetchReq{Group: concGroup(st.Group), Topics: []wire.OFetchTopic{}}
		for _, i := range ask {
			s := r.c.Slots[i]
			if n := len(f.Topics); n == 0 || f.Topics[n-1].Topic != s.Topic {
				f.Topics = append(f.Topics, wire.OFetchTopic{Topic: s.Topic})
			}
			t := &f.Topics[len(f.Topics)-1]
			t.Parts = append(t.Parts, s.Part)
		}
		q.OFetch = f
	case "sync":
		q.Sync = &wire.SyncReq{Group: "g0", Gen: 1, Member: "1"}
	case "other":
		ask = nil
		switch (st.Val + int64(st.Group)) % 5 {
		case 0:
			q.Coord = &wire.CoordReq{Key: "g0"}
		case 1:
			q.Join = &wire.JoinReq{Group: "g0", Session: 1000, Rebalance: 1000, Type: "consumer", Protos: []wire.Proto{{Name: "range"}}}
		case 2:
			q.Heartbeat = &wire.HeartbeatReq{Group: "g0", Gen: 1, Member: "1"}
		default:
			q.ApiV = true
		}
	default:
		q.Meta = &wire.MetaReq{}
	}
	varyReq(q)
	return q, ask
}

func (r *concRun) saw(id int, st concReq, q *wire.Req, ask []int, sp span, resp any, pos []int64) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nops++
	n := 0
	next := func(topic string, part int32) (int, error) {
		if n >= len(ask) {
			return 0, fmt.Errorf("%s: more entries than asked for", q.Name())
		}
		i := ask[n]
		n++
		if s := r.c.Slots[i]; s.Topic != topic || s.Part != part {
			return 0, fmt.Errorf("%s: entry for %q/%d where %v was asked for", q.Name(), topic, part, s)
		}
		return i, nil
	}
	switch f := resp.(type) {
	case *wire.FetchResp:
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				i, err := next(t.Topic, p.Part)
				if err != nil {
					return err
				}
				s := r.c.Slots[i]
				r.errs = append(r.errs, sawErr{sp, i, p.Err == 0, "fetch"})
				if p.Err != 0 && p.Err != 3 {
					return fmt.Errorf("fetch of %v: error %d", s, p.Err)
				}
				msgs, err := wire.Messages(p.Set)
				if err != nil {
					return fmt.Errorf("%v: %w", s, err)
				}
				from := pos[i]
				if st.Zero {
					from = 0
				}
				if p.Err == 0 {
					r.fetches = append(r.fetches, sawFetch{sp, i, from, st.Max, p, msgs})
					if !st.Zero {
						pos[i] += int64(len(msgs))
					}
				} else if len(msgs) > 0 {
					return fmt.Errorf("fetch of %v: error %d with records", s, p.Err)
				}
			}
		}
	case *wire.ListResp:
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				i, err := next(t.Topic, p.Part)
				if err != nil {
					return err
				}
				r.errs = append(r.errs, sawErr{sp, i, p.Err == 0, "offset listing"})
				if p.Err == 0 {
					r.lists = append(r.lists, sawList{sp, i, st.Ts, p})
				} else if p.Err != 3 {
					return fmt.Errorf("offset listing of %v: error %d", r.c.Slots[i], p.Err)
				}
			}
		}
	case *wire.CommitResp:
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				i, err := next(t.Topic, p.Part)
				if err != nil {
					return err
				}
				r.errs = append(r.errs, sawErr{sp, i, p.Err == 0, "commit"})
				if p.Err == 0 {
					r.off(id, ckey{r.c.Slots[i], concGroup(st.Group)}, sp, offIn{"commit", st.Val}, 0)
				} else if p.Err != 3 {
					return fmt.Errorf("commit of %v: error %d", r.c.Slots[i], p.Err)
				}
			}
		}
	case *wire.OFetchResp:
		have := map[Slot]int64{}
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				s := Slot{t.Topic, p.Part}
				if _, ok := have[s]; ok || p.Err != 0 {
					return fmt.Errorf("offset fetch: entry for %v twice or with error %d", s, p.Err)
				}
				have[s] = p.Off
			}
		}
		for _, i := range ask {
			s := r.c.Slots[i]
			v, ok := have[s]
			delete(have, s)
			r.errs = append(r.errs, sawErr{sp, i, ok, "offset fetch"})
			if ok {
				r.off(id, ckey{s, concGroup(st.Group)}, sp, offIn{kind: "get"}, v)
			}
		}
		if len(have) > 0 {
			return fmt.Errorf("offset fetch: entries not asked for: %v", have)
		}
		return nil
	case *wire.ApiVResp:
		l, err := apiList(f)
		if err != nil {
			return err
		}
		if r.apis == "" {
			r.apis = fmt.Sprint(l)
		}
		if r.apis != fmt.Sprint(l) {
			return fmt.Errorf("the API list is %v, before it was %s", l, r.apis)
		}
	case *wire.CoordResp:
		if int(f.Port) != r.port || f.Err != 0 {
			return fmt.Errorf("coordinator at port %d with error %d, this mock is at %d", f.Port, f.Err, r.port)
		}
	case *wire.MetaResp:
		ss := sawSet{span: sp, have: map[Slot]int{}, what: "metadata"}
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				ss.have[Slot{t.Name, p.Part}]++
			}
		}
		r.sets = append(r.sets, ss)
		return nil
	case *wire.SyncResp:
		if f.Err != 0 {
			return fmt.Errorf("sync: error %d", f.Err)
		}
		a, err := wire.ParseAssignment(f.Assignment)
		if err != nil {
			return err
		}
		ss := sawSet{span: sp, have: map[Slot]int{}, what: "assignment"}
		for _, t := range a.Topics {
			for _, p := range t.Parts {
				ss.have[Slot{t.Topic, p}]++
			}
		}
		r.sets = append(r.sets, ss)
		return nil
	}
	if n != len(ask) {
		return fmt.Errorf("%s: %d entries answered, %d asked for", q.Name(), n, len(ask))
	}
	return nil
}

// cpost is one post.
type cpost struct {
	span
	MRec
	thread int
	at     int // offset in the final log, -1: not there
}

// runWatched runs a case of another property. Only a data race (or the end of
// the process) is a violation of this one.
func runWatched(c concCase) (err error) {
	allRace = true
	defer func() { allRace = false }()
	other := pbt.NewCtx()
	switch {
	case c.Life != nil:
		err = runLife(*c.Life, other)
	case c.Leave != nil:
		err = runLeave(*c.Leave, other)
	default:
		err = runMulti(*c.Multi, other)
	}
	var cr *ctl.Crash
	var he *pbt.HarnessError
	if errors.As(err, &cr) || errors.As(err, &he) {
		return err
	}
	return nil
}

func runConc(c concCase, ctx *pbt.Ctx) error {
	if c.Life != nil || c.Leave != nil || c.Multi != nil {
		ctx.Class("lifecycle calls, vanishing clients or several mocks under the race detector")
		return runWatched(c)
	}
	if c.Fresh {
		if s := servers[true]; s != nil {
			s.Kill()
			delete(servers, true)
		}
		s, err := server(true)
		if err != nil {
			return err
		}
		cmd := ctl.Cmd{Op: "par"}
		for i := 0; i < 4; i++ {
			mockSeq++
			cmd.Threads = append(cmd.Threads, []ctl.Cmd{{Op: "new", M: mockSeq, Port: 9}})
		}
		if _, err := s.Call(cmd, ansWait); err != nil {
			return err
		}
		ctx.Class("several mocks made at once in a new process")
	}
	w, err := newMock(true, true)
	if err != nil {
		return err
	}
	defer w.close()
	// spell the burst out
	base := len(c.Slots)
	c.Slots = append([]Slot{}, c.Slots...)
	for k := 0; k < c.Burst; k++ {
		c.Slots = append(c.Slots, Slot{fmt.Sprintf("burst%d", k/2), int32(k % 2)})
	}
	threads := c.Threads
	c.Threads = nil
	for th, calls := range threads {
		var all []concCall
		for k := 0; k < c.Burst; k++ {
			kind := "post"
			if (th+k)%4 == 3 {
				kind = "create"
			}
			all = append(all, concCall{Kind: kind, Slot: base + k, N: 1})
		}
		for _, k := range calls {
			k.Slot %= base
			all = append(all, k)
		}
		c.Threads = append(c.Threads, all)
	}
	r := &concRun{World: w, c: c, offs: map[ckey][]porcupine.Operation{}}

	// existence: the earliest begin and the earliest end of a call that creates
	born := make([]span, len(c.Slots))
	for i := range born {
		born[i] = span{1 << 62, 1 << 62}
	}
	pre := func(i int) bool { return i < base && c.Pre>>uint(i)&1 == 1 }
	for i, s := range c.Slots {
		if pre(i) {
			born[i] = span{-1, -1}
			if err := w.create(s); err != nil {
				return err
			}
		}
	}
	// the goroutines' calls
	type callRef struct{ th, i int }
	var posts = make([][]*cpost, len(c.Slots))
	par := ctl.Cmd{Op: "par"}
	seq := uint32(0)
	for th, calls := range c.Threads {
		var cs []ctl.Cmd
		for _, k := range calls {
			i := k.Slot % len(c.Slots)
			s := c.Slots[i]
			cmd := ctl.Cmd{Op: k.Kind, M: w.m, Mono: true, Topic: s.Topic, Part: int(s.Part), PauseUs: k.Pause}
			switch k.Kind {
			case "post":
				for j := 0; j < k.N; j++ {
					seq++
					rec := ctl.Rec{Key: wire.Blob{N: int(seq%4) * 3, Seed: seq}, Value: wire.Blob{N: 12 + int(seq*7)%(k.Size+1), Seed: seq}}
					if k.Ext {
						rec.Ext, rec.Ms = true, int64(k.Size)+int64(j%5)*10
					}
					cmd.Recs = append(cmd.Recs, rec)
				}
			case "create":
				cmd.Topics = []string{s.Topic}
			case "setoff":
				if !pre(i) {
					cmd.Op = "sleep" // whether it finds the partition would be open
					break
				}
				cmd.Group, cmd.Off = concGroup(k.Group), k.Val
			case "new":
				mockSeq++
				cmd.M, cmd.Port = mockSeq, 9
			case "pause":
				cmd.Op = "sleep"
			}
			cs = append(cs, cmd)
		}
		par.Threads = append(par.Threads, cs)
		_ = th
	}
	done := make(chan struct{})
	errs := make(chan error, len(c.Clients))
	for id, cl := range c.Clients {
		id, cl := id, cl
		go func() {
			err := r.client(id, cl, done)
			if err != nil {
				err = fmt.Errorf("client %d: %w", id, err)
			}
			errs <- err
		}()
	}
	rep, err := w.s.Call(par, 30*time.Second)
	close(done)
	var first error
	if errors.Is(err, ctl.ErrCall) {
		first = pbt.Timeoutf("posting, creating and setting offsets did not finish in 30s")
	} else {
		first = err
	}
	for range c.Clients {
		e := <-errs
		var cr *ctl.Crash
		if e != nil && (first == nil || errors.As(e, &cr)) {
			first = e
		}
	}
	if first != nil {
		return first
	}
	if err := w.s.WhyDead(0); err != nil && !w.s.Alive() {
		return err
	}

	// what the goroutines did
	ids := map[string]*cpost{}
	for th, calls := range par.Threads {
		for j, cmd := range calls {
			rp := rep.Threads[th][j]
			if rp.Panic != "" {
				return fmt.Errorf("call %s panics: %s", cmd.Op, rp.Panic)
			}
			i := c.Threads[th][j].Slot % len(c.Slots)
			switch cmd.Op {
			case "post":
				for k, rec := range cmd.Recs {
					p := &cpost{span: span{rp.S[k], rp.E[k]}, MRec: MRec{Key: rec.Key.Bytes(), Value: rec.Value.Bytes(), Lo: rp.T0[k], Hi: rp.T1[k]}, thread: th, at: -1}
					if rec.Ext {
						p.Lo, p.Hi = rec.Ms, rec.Ms
					}
					posts[i] = append(posts[i], p)
					id := string(p.Value)
					if ids[id] != nil {
						return pbt.Harnessf("two records with one value")
					}
					ids[id] = p
					born[i].s = min(born[i].s, p.s)
					born[i].e = min(born[i].e, p.e)
				}
			case "create":
				born[i].s = min(born[i].s, rp.S[0])
				born[i].e = min(born[i].e, rp.E[0])
			case "setoff":
				r.off(100+th, ckey{c.Slots[i], cmd.Group}, span{rp.S[0], rp.E[0]}, offIn{"set", cmd.Off}, 0)
			}
		}
	}

	// the final logs
	final := make([][]wire.Msg, len(c.Slots))
	for i, s := range c.Slots {
		if born[i].e == 1<<62 {
			continue
		}
		for int64(len(final[i])) < int64(len(posts[i]))+1 {
			from := int64(len(final[i]))
			resp, err := w.do(0, fetchReq(0, s, from, 64<<20))
			if err != nil {
				return err
			}
			f := resp.(*wire.FetchResp)
			if len(f.Topics) != 1 || len(f.Topics[0].Parts) != 1 || f.Topics[0].Parts[0].Err != 0 {
				return fmt.Errorf("%v: final fetch from %d: %+v", s, from, f.Topics)
			}
			msgs, err := wire.Messages(f.Topics[0].Parts[0].Set)
			if err != nil {
				return err
			}
			if len(msgs) == 0 {
				break
			}
			final[i] = append(final[i], msgs...)
		}
		latestS := int64(-1 << 62)
		for o, m := range final[i] {
			p := ids[string(m.Value)]
			if m.Off != int64(o) {
				return fmt.Errorf("%v: record %d of the final log has offset %d", s, o, m.Off)
			}
			if p == nil || !sameBytes(p.Key, m.Key) || m.Ts < p.Lo || m.Ts > p.Hi {
				return fmt.Errorf("%v offset %d: not a posted record", s, o)
			}
			if p.at >= 0 {
				return fmt.Errorf("%v: the record at offset %d is at offset %d again", s, p.at, o)
			}
			p.at = o
			if p.e < latestS {
				return fmt.Errorf("%v: the record at offset %d was posted before one at a smaller offset was begun (goroutine %d)", s, o, p.thread)
			}
			latestS = max(latestS, p.s)
		}
		for _, p := range posts[i] {
			if p.at < 0 {
				return fmt.Errorf("%v: a record posted by goroutine %d is not in the final log of %d records, %d were posted", s, p.thread, len(final[i]), len(posts[i]))
			}
			if string(ids[string(p.Value)].Value) != string(p.Value) {
				return pbt.Harnessf("mixed up")
			}
		}
		if len(final[i]) != len(posts[i]) {
			return fmt.Errorf("%v: %d records posted, %d in the final log", s, len(posts[i]), len(final[i]))
		}
	}

	// how many records there may have been
	bounds := func(i int, sp span) (lo, hi int64) {
		hi = int64(len(posts[i]))
		for _, p := range posts[i] {
			if p.e < sp.s && int64(p.at)+1 > lo {
				lo = int64(p.at) + 1
			}
			if p.s > sp.e && int64(p.at) < hi {
				hi = int64(p.at)
			}
		}
		return
	}
	type read struct {
		span
		n    int64
		what string
	}
	reads := make([][]read, len(c.Slots))
	grew := false
	for _, f := range r.fetches {
		s := c.Slots[f.slot]
		lo, hi := bounds(f.slot, f.span)
		if f.part.HWM < lo || f.part.HWM > hi {
			return fmt.Errorf("%v: a fetch reports high watermark %d when there were %d to %d records", s, f.part.HWM, lo, hi)
		}
		reads[f.slot] = append(reads[f.slot], read{f.span, f.part.HWM, "high watermark"})
		grew = grew || f.part.HWM > 0 && f.part.HWM < int64(len(final[f.slot]))
		size := 0
		for k, m := range f.msgs {
			o := f.from + int64(k)
			if o >= int64(len(final[f.slot])) {
				return fmt.Errorf("%v: a fetch brought a record at offset %d, the final log has %d", s, o, len(final[f.slot]))
			}
			w := final[f.slot][o]
			if m.Off != o || m.Ts != w.Ts || !sameBytes(m.Key, w.Key) || !sameBytes(m.Value, w.Value) {
				return fmt.Errorf("%v: a fetch from offset %d brought at position %d (offset %d) another record than the final log has at %d", s, f.from, k, m.Off, o)
			}
			size += 34 + len(m.Key) + len(m.Value)
		}
		end := f.from + int64(len(f.msgs))
		if len(f.msgs) > 0 {
			if end > hi {
				return fmt.Errorf("%v: a fetch brought the record at offset %d before it was posted", s, end-1)
			}
			if end > f.part.HWM {
				return fmt.Errorf("%v: a fetch brought records up to offset %d and reports high watermark %d", s, end-1, f.part.HWM)
			}
		}
		if end < lo {
			m := final[f.slot][end]
			if size+34+len(m.Key)+len(m.Value) <= int(f.max) {
				return fmt.Errorf("%v: a fetch from offset %d stopped at %d though %d records were there and the next fits", s, f.from, end, lo)
			}
		}
	}
	for _, l := range r.lists {
		s := c.Slots[l.slot]
		lo, hi := bounds(l.slot, l.span)
		switch {
		case l.ask == -2:
			if l.part.Off != 0 {
				return fmt.Errorf("%v: earliest offset %d", s, l.part.Off)
			}
		case l.ask == -1:
			if l.part.Off < lo || l.part.Off > hi {
				return fmt.Errorf("%v: latest offset %d when there were %d to %d records", s, l.part.Off, lo, hi)
			}
			reads[l.slot] = append(reads[l.slot], read{l.span, l.part.Off, "latest offset"})
		default:
			at := int64(-1)
			for o, m := range final[l.slot] {
				if m.Ts >= l.ask {
					at = int64(o)
					break
				}
			}
			if at >= 0 && l.part.Off == at && l.part.Ts == final[l.slot][at].Ts && at < hi {
				break
			}
			// none yet: the end
			if l.part.Off < lo || l.part.Off > hi || at >= 0 && l.part.Off > at {
				return fmt.Errorf("%v: listing by time %d says offset %d (timestamp %d) when there were %d to %d records; in the final log it is %d", s, l.ask, l.part.Off, l.part.Ts, lo, hi, at)
			}
		}
	}
	for i, rs := range reads {
		// no read that began after another had ended may see less
		byEnd := append([]read{}, rs...)
		sort.Slice(byEnd, func(a, b int) bool { return byEnd[a].e < byEnd[b].e })
		sort.Slice(rs, func(a, b int) bool { return rs[a].s < rs[b].s })
		best, j := read{n: -1}, 0
		for _, x := range rs {
			for j < len(byEnd) && byEnd[j].e < x.s {
				if byEnd[j].n > best.n {
					best = byEnd[j]
				}
				j++
			}
			if x.n < best.n {
				return fmt.Errorf("%v: %s %d after %s %d was answered", c.Slots[i], x.what, x.n, best.what, best.n)
			}
		}
	}
	for _, e := range r.errs {
		if e.exists && born[e.slot].s > e.e {
			return fmt.Errorf("%s: %v exists before it was created", e.what, c.Slots[e.slot])
		}
		if !e.exists && born[e.slot].e < e.s {
			return fmt.Errorf("%s: %v does not exist though it was created before", e.what, c.Slots[e.slot])
		}
	}
	for _, ss := range r.sets {
		for i, s := range c.Slots {
			n := ss.have[s]
			delete(ss.have, s)
			if n > 1 || n == 1 && born[i].s > ss.e || n == 0 && born[i].e < ss.s {
				return fmt.Errorf("%s lists %v %d times (created before: %v)", ss.what, s, n, born[i].e < ss.s)
			}
		}
		for s := range ss.have {
			return fmt.Errorf("%s lists %v, which nobody created", ss.what, s)
		}
	}
	keys := make([]ckey, 0, len(r.offs))
	for k := range r.offs {
		keys = append(keys, k)
	}
	for _, k := range keys {
		ops := r.offs[k]
		switch porcupine.CheckOperationsTimeout(offModel, ops, 3*time.Second) {
		case porcupine.Illegal:
			return fmt.Errorf("group %s, %v: no sequential order explains the commits and the offsets read: %s", k.group, k.Slot, describe(ops))
		case porcupine.Unknown:
			ctx.Class("linearizability left open")
		default:
			ctx.Class("offset histories linearized")
		}
	}
	if c.Duel != nil {
		if err := r.duel(*c.Duel); err != nil {
			return err
		}
		ctx.NonTrivial()
		ctx.Class("commits to many partitions at once")
	}
	if grew {
		ctx.NonTrivial()
		ctx.Class("read a partition while it grew")
	}
	ctx.ClassIf(c.Burst > 0 && len(c.Threads) > 1, "several goroutines bring partitions into being")
	ctx.ClassIf(len(r.sets) > 0, "assignments or metadata while it grew")
	return nil
}

func (r *concRun) duel(d concDuel) error {
	var parts []int32
	for p := 0; p < d.Parts; p++ {
		parts = append(parts, int32(p))
		if _, err := r.call(ctl.Cmd{Op: "create", Topics: []string{"duel"}, Part: p}); err != nil {
			return err
		}
	}
	n := len(d.Values) + d.Readers
	for i := 1; i <= n; i++ {
		if _, err := r.conn(i); err != nil {
			return err
		}
	}
	top := int64(0)
	for _, v := range d.Values {
		top = max(top, v)
	}
	ok := func(v int64) bool {
		for _, x := range d.Values {
			if x == v {
				return true
			}
		}
		return v == 0
	}
	fetch := func(group string, conn *wire.Conn) (map[int32]int64, error) {
		q := &wire.Req{Corr: 3, OFetch: &wire.OFetchReq{Group: group, Topics: []wire.OFetchTopic{{Topic: "duel", Parts: parts}}}}
		if err := conn.Send(q.Encode()); err != nil {
			return nil, r.exchangeErr(q.Name(), err)
		}
		_, body, err := conn.Recv(ansWait)
		if err != nil {
			return nil, r.exchangeErr(q.Name(), err)
		}
		resp, err := q.Decode(body)
		if err != nil {
			return nil, err
		}
		have := map[int32]int64{}
		for _, t := range resp.(*wire.OFetchResp).Topics {
			for _, p := range t.Parts {
				have[p.Part] = p.Off
			}
		}
		if len(have) != len(parts) {
			return nil, fmt.Errorf("offset fetch of %d partitions answered with %d", len(parts), len(have))
		}
		return have, nil
	}
	for round := 0; round < d.Rounds; round++ {
		group := fmt.Sprintf("duel%d", round)
		errs := make(chan error, n)
		gate := make(chan struct{})
		for i := 0; i < n; i++ {
			i, conn := i, r.conns[i+1]
			go func() {
				if i >= len(d.Values) {
					<-gate
					if len(d.Delays) > 0 { // a sleep is too coarse
						until := ctl.Mono() + int64(d.Delays[(round+i)%len(d.Delays)])*1000
						for ctl.Mono() < until {
						}
					}
					have, err := fetch(group, conn)
					for p, v := range have {
						if !ok(v) {
							err = fmt.Errorf("offset %d for partition %d, while %v are being committed", v, p, d.Values)
						}
					}
					errs <- err
					return
				}
				f := &wire.CommitReq{Group: group, Gen: 1, Member: "1", Retention: -1, Topics: []wire.CommitTopic{{Topic: "duel"}}}
				for _, p := range parts {
					f.Topics[0].Parts = append(f.Topics[0].Parts, wire.CommitPart{Part: p, Off: d.Values[i]})
				}
				q := &wire.Req{Corr: 5, Commit: f}
				raw := q.Encode()
				<-gate
				if err := conn.Send(raw); err != nil {
					errs <- r.exchangeErr(q.Name(), err)
					return
				}
				_, body, err := conn.Recv(ansWait)
				if err != nil {
					errs <- r.exchangeErr(q.Name(), err)
					return
				}
				_, err = q.Decode(body)
				errs <- err
			}()
		}
		close(gate)
		var first error
		for i := 0; i < n; i++ {
			if err := <-errs; err != nil && first == nil {
				first = err
			}
		}
		if first != nil {
			return first
		}
		have, err := fetch(group, r.conns[1])
		if err != nil {
			return err
		}
		for p, v := range have {
			if v != top {
				return fmt.Errorf("%v were committed for partition %d at once, the committed offset is %d", d.Values, p, v)
			}
		}
	}
	return nil
}

func describe(ops []porcupine.Operation) string {
	sort.Slice(ops, func(a, b int) bool { return ops[a].Call < ops[b].Call })
	s, base := "", ops[0].Call
	for i, o := range ops {
		if i == 60 {
			return s + " ..."
		}
		in := o.Input.(offIn)
		s += fmt.Sprintf(" [%d-%d us %s %d", (o.Call-base)/1000, (o.Return-base)/1000, in.kind, in.v)
		if in.kind == "get" {
			s = fmt.Sprintf("%s= %d", s[:len(s)-1], o.Output)
		}
		s += "]"
	}
	return s
}

func genConc(t *rapid.T) concCase {
	c := concCase{Slots: genSlots(1, 5).Draw(t, "slots")}
	if rapid.IntRange(0, 31).Draw(t, "watched") == 13 {
		switch rapid.IntRange(0, 2).Draw(t, "what") {
		case 0:
			l := genLife(t)
			c.Life = &l
		case 1:
			l := genLeave(t)
			c.Leave = &l
		default:
			m := genMulti(t)
			c.Multi = &m
		}
		return c
	}
	c.Pre = rapid.IntRange(0, 31).Draw(t, "pre")
	if rapid.Bool().Draw(t, "all exist") {
		c.Pre = 31
	}
	c.Fresh = rapid.IntRange(0, 29).Draw(t, "fresh") == 29
	most := 4
	if rapid.Bool().Draw(t, "one slot") {
		most = 0
	}
	slot := func(t *rapid.T) int { return rapid.IntRange(0, most).Draw(t, "slot") }
	call := rapid.Custom(func(t *rapid.T) concCall {
		k := concCall{Kind: rapid.SampledFrom([]string{"post", "post", "post", "create", "setoff", "setoff", "pause", "new"}).Draw(t, "kind"), Slot: slot(t)}
		switch k.Kind {
		case "post":
			k.N = rapid.IntRange(1, 30).Draw(t, "n")
			k.Size = rapid.SampledFrom([]int{0, 20, 100, 1000}).Draw(t, "size")
			k.Ext = rapid.Bool().Draw(t, "ext")
			k.Pause = rapid.SampledFrom([]int{0, 0, 1, 50, 200}).Draw(t, "pause")
		case "setoff":
			k.Group, k.Val = rapid.IntRange(0, 1).Draw(t, "group"), int64(rapid.IntRange(0, 20).Draw(t, "val"))
		case "pause":
			k.Pause = rapid.IntRange(0, 800).Draw(t, "us")
		}
		return k
	})
	c.Threads = rapid.SliceOfN(rapid.SliceOfN(call, 1, 8), 1, 5).Draw(t, "threads")
	if rapid.IntRange(0, 3).Draw(t, "burst") == 0 {
		c.Burst = rapid.IntRange(1, 60).Draw(t, "burst size")
	}
	if rapid.IntRange(0, 5).Draw(t, "duel") == 0 {
		c.Duel = &concDuel{Parts: rapid.SampledFrom([]int{3, 50, 200}).Draw(t, "parts"), Rounds: rapid.IntRange(1, 10).Draw(t, "rounds"), Readers: rapid.IntRange(0, 2).Draw(t, "readers"),
			Values: rapid.SliceOfN(rapid.Int64Range(1, 30), 1, 4).Draw(t, "values")}
		if c.Duel.Readers > 0 {
			c.Duel.Delays = rapid.SliceOfN(rapid.IntRange(0, c.Duel.Parts*20), 0, 10).Draw(t, "delays")
		}
	}
	step := rapid.Custom(func(t *rapid.T) concReq {
		q := concReq{Kind: rapid.SampledFrom([]string{"fetch", "fetch", "fetch", "list", "list", "commit", "commit", "ofetch", "ofetch", "sync", "meta", "other"}).Draw(t, "kind")}
		q.Slots = rapid.SliceOfN(rapid.Custom(slot), 1, 4).Draw(t, "slots")
		switch q.Kind {
		case "fetch":
			q.Max = rapid.SampledFrom([]int32{1 << 20, 1 << 20, 300, 100}).Draw(t, "max")
			q.Wait = rapid.SampledFrom([]int32{0, 0, 1, 5}).Draw(t, "wait")
			q.Zero = rapid.IntRange(0, 2).Draw(t, "zero") == 0
		case "list":
			q.Ts = rapid.SampledFrom([]int64{-1, -1, -2, 0, 10, 40, 100, 1040, 1700000000000}).Draw(t, "ts")
		case "commit", "ofetch", "other":
			q.Climb = q.Kind == "commit" && rapid.Bool().Draw(t, "climb")
			q.Group, q.Val = rapid.IntRange(0, 1).Draw(t, "group"), int64(rapid.IntRange(0, 20).Draw(t, "val"))
		}
		return q
	})
	c.Clients = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) concClient {
		return concClient{Steps: rapid.SliceOfN(step, 1, 6).Draw(t, "steps"), Reconnect: rapid.IntRange(0, 5).Draw(t, "reconnect") == 0}
	}), 1, 6).Draw(t, "clients")
	return c
}

func TestC16(t *testing.T) {
	pbt.Check(t, pbt.Prop[concCase]{
		ID:    "C16",
		Rule:  "A case is 1-5 goroutines of the process that post, create, set offsets and make further mocks, and 1-6 connections that repeat 1-6 requests (fetch, list, commit, offset fetch, sync, metadata) meanwhile, against a mock built with the race detector; every call and answer is timed with one clock, and the history must be explained by some sequential order (posts and reads by their positions in the final log, offsets by a linearizability check); some cases are lifecycle histories, vanishing clients or several mocks as generated for C12, C11 and C20, judged by the race detector alone; non-trivial if a fetch saw a partition that grew afterwards.",
		Gen:   genConc,
		Run:   runConc,
		Fresh: fresh,
		Vary:  setVary,
	})
}
