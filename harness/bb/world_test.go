package bb

import (
	"errors"
	"fmt"
	"strconv"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"
)

// How long an answer that should come at once may take before the case is run
// again (and, if it is late again, counts).
const ansWait = 10 * time.Second

// allRace: use the race-built child also for what does not ask for it.
var allRace bool

var servers = map[bool]*ctl.Server{}

func server(race bool) (*ctl.Server, error) {
	if s := servers[race]; s != nil && s.Alive() {
		return s, nil
	}
	s, err := ctl.Spawn(race)
	if err != nil {
		return nil, err
	}
	servers[race] = s
	return s, nil
}

// fresh gets rid of the children.
func fresh() {
	for k, s := range servers {
		s.Kill()
		delete(servers, k)
	}
}

// World is one mock in the child, the client connections to it and the
// reference model of what it should hold.
type World struct {
	s     *ctl.Server
	m     int
	port  int
	conns map[int]*wire.Conn
	corr  int32
	mod   *Model
}

var mockSeq int

// newMock makes a mock on a free port; start says whether to start it and wait
// until it listens.
func newMock(race, start bool) (*World, error) { return newMockOn(race, start, false, false) }

// high: on a port with a large number; shared: on a lane shared with others.
func newMockOn(race, start, shared, high bool) (*World, error) {
	for try := 0; ; try++ {
		s, err := server(race || allRace)
		if err != nil {
			return nil, err
		}
		pick := ctl.Port
		if high {
			pick = ctl.HighPort
		}
		port, err := pick()
		if err != nil {
			return nil, err
		}
		mockSeq++
		w := &World{s: s, m: mockSeq, port: port, conns: map[int]*wire.Conn{}, mod: newModel(), corr: int32(mockSeq * 7)}
		if _, err = w.call(ctl.Cmd{Op: "new", Port: port, Shared: shared, Log: vary%2 == 1}); err == nil && start {
			if err = w.start(); err == nil {
				_, err = w.conn(0)
			}
		}
		if err == nil {
			return w, nil
		}
		if errors.Is(err, ctl.PortTaken) && try < 5 {
			continue // somebody else took the port in between
		}
		return nil, err
	}
}

// callErr turns the result of a control call into a verdict: the call must
// return and must not panic.
func (w *World) call(c ctl.Cmd) (ctl.Reply, error) { return w.callT(c, ansWait) }

func (w *World) callT(c ctl.Cmd, d time.Duration) (ctl.Reply, error) {
	c.M = w.m
	r, err := w.s.Call(c, d)
	if errors.Is(err, ctl.ErrCall) {
		return r, pbt.Timeoutf("call %s on the mock did not return within %v", c.Op, d)
	}
	if err != nil {
		return r, err
	}
	if r.Panic != "" {
		return r, fmt.Errorf("call %s on the mock panicked: %s", c.Op, r.Panic)
	}
	return r, nil
}

func (w *World) start() error {
	_, err := w.call(ctl.Cmd{Op: "start"})
	return err
}

// conn is connection i, dialled when first used.
func (w *World) conn(i int) (*wire.Conn, error) {
	if c := w.conns[i]; c != nil {
		return c, nil
	}
	c, err := wire.Dial(w.port, ansWait)
	if err != nil {
		if d := w.s.WhyDead(500 * time.Millisecond); d != nil {
			return nil, d
		}
		return nil, pbt.Timeoutf("cannot connect to the mock: %v", err)
	}
	w.conns[i] = c
	return c, nil
}

func (w *World) closeConn(i int) {
	if c := w.conns[i]; c != nil {
		c.Close()
		delete(w.conns, i)
	}
}

func (w *World) closeConns() {
	for i := range w.conns {
		w.closeConn(i)
	}
}

// close ends the case: whatever does not stop in time is thrown away with the
// child.
func (w *World) close() {
	w.closeConns()
	if !w.s.Alive() {
		return
	}
	if _, err := w.callT(ctl.Cmd{Op: "stopwait"}, 5*time.Second); err != nil {
		if w.s.Alive() {
			w.s.Kill()
		}
		return
	}
	w.callT(ctl.Cmd{Op: "drop"}, 5*time.Second)
}

// verdict on a failed exchange.
func (w *World) exchangeErr(what string, err error) error {
	if d := w.s.WhyDead(300 * time.Millisecond); d != nil {
		return fmt.Errorf("%s: %w", what, d)
	}
	if errors.Is(err, wire.ErrTimeout) {
		return pbt.Timeoutf("%s: %v", what, err)
	}
	return fmt.Errorf("%s: %w", what, err)
}

// do sends one request on connection i and returns the parsed answer.
func (w *World) do(i int, r *wire.Req) (any, error) { return w.doT(i, r, ansWait) }

func (w *World) doT(i int, r *wire.Req, d time.Duration) (any, error) {
	c, err := w.conn(i)
	if err != nil {
		return nil, err
	}
	w.corr++
	r.Corr = w.corr
	varyReq(r)
	what := fmt.Sprintf("%s request", r.Name())
	if err := c.Send(r.Encode()); err != nil {
		return nil, w.exchangeErr(what, err)
	}
	corr, body, err := c.Recv(d)
	if err != nil {
		return nil, w.exchangeErr(what, err)
	}
	if corr != r.Corr {
		return nil, fmt.Errorf("%s: correlation id %d answered with %d", what, r.Corr, corr)
	}
	resp, err := r.Decode(body)
	if err != nil {
		return nil, err
	}
	return resp, nil
}

// noise runs a request whose answer is another property's business; only the
// death of the process is reported.
func (w *World) noise(i int, r *wire.Req) error {
	_, err := w.doT(i, r, 3*time.Second)
	if err == nil {
		return nil
	}
	var cr *ctl.Crash
	var he *pbt.HarnessError
	if errors.As(err, &cr) || errors.As(err, &he) || !w.s.Alive() {
		return err
	}
	w.closeConn(i)
	return nil
}

// ---- the reference model

// MRec is a posted record; its timestamp lies in [Lo, Hi].
type MRec struct {
	Key, Value []byte
	Lo, Hi     int64
}

func (r *MRec) size() int { return 34 + len(r.Key) + len(r.Value) }

// Slot names a partition.
type Slot struct {
	Topic string
	Part  int32
}

func (s Slot) String() string {
	t := s.Topic
	if len(t) > 20 {
		t = t[:17] + "..."
	}
	return strconv.Quote(t) + "/" + strconv.Itoa(int(s.Part))
}

type ckey struct {
	Slot
	group string
}

// Model is what the mock should hold.
type Model struct {
	Parts   map[Slot][]MRec
	Commits map[ckey]int64
}

func newModel() *Model { return &Model{Parts: map[Slot][]MRec{}, Commits: map[ckey]int64{}} }

func (m *Model) exists(s Slot) bool { _, ok := m.Parts[s]; return ok }
func (m *Model) create(s Slot) {
	if !m.exists(s) {
		m.Parts[s] = nil
	}
}
func (m *Model) topics() map[string]map[int32]bool {
	t := map[string]map[int32]bool{}
	for s := range m.Parts {
		if t[s.Topic] == nil {
			t[s.Topic] = map[int32]bool{}
		}
		t[s.Topic][s.Part] = true
	}
	return t
}
func (m *Model) post(s Slot, recs []ctl.Rec, r ctl.Reply) {
	m.create(s)
	for i, rec := range recs {
		mr := MRec{Key: rec.Key.Bytes(), Value: rec.Value.Bytes()}
		if rec.Ext {
			mr.Lo = rec.Ms
			mr.Hi = rec.Ms
		} else {
			mr.Lo, mr.Hi = r.T0[i], r.T1[i]
		}
		m.Parts[s] = append(m.Parts[s], mr)
	}
}
func (m *Model) commit(group string, s Slot, off int64) {
	if !m.exists(s) {
		return
	}
	k := ckey{s, group}
	if off > m.Commits[k] {
		m.Commits[k] = off
	}
}
func (m *Model) setoff(group string, s Slot, off int64) {
	if m.exists(s) {
		m.Commits[ckey{s, group}] = off
	}
}

// ---- operations on both

func (w *World) create(slots ...Slot) error {
	// one call per partition number: several topics go in one call
	byPart := map[int32][]string{}
	var order []int32
	for _, s := range slots {
		if _, ok := byPart[s.Part]; !ok {
			order = append(order, s.Part)
		}
		byPart[s.Part] = append(byPart[s.Part], s.Topic)
		w.mod.create(s)
	}
	for _, p := range order {
		if _, err := w.call(ctl.Cmd{Op: "create", Topics: byPart[p], Part: int(p)}); err != nil {
			return err
		}
	}
	return nil
}

func (w *World) post(s Slot, recs []ctl.Rec) error {
	r, err := w.call(ctl.Cmd{Op: "post", Topic: s.Topic, Part: int(s.Part), Recs: recs})
	if err != nil {
		return err
	}
	w.mod.post(s, recs, r)
	return nil
}

func (w *World) setoff(group string, s Slot, off int64) error {
	_, err := w.call(ctl.Cmd{Op: "setoff", Topic: s.Topic, Part: int(s.Part), Group: group, Off: off})
	w.mod.setoff(group, s, off)
	return err
}

func (w *World) commitReq(group string, s Slot, off int64) *wire.Req {
	return &wire.Req{Commit: &wire.CommitReq{Group: group, Gen: 1, Member: "1", Retention: -1,
		Topics: []wire.CommitTopic{{Topic: s.Topic, Parts: []wire.CommitPart{{Part: s.Part, Off: off}}}}}}
}

func (w *World) restart() error {
	w.closeConns()
	_, err := w.call(ctl.Cmd{Op: "restart"})
	return err
}

// ---- checks on fetched records

func showBytes(b []byte) string {
	if b == nil {
		return "null"
	}
	if len(b) > 12 {
		return fmt.Sprintf("%x...(%d bytes)", b[:12], len(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}

func sameBytes(a, b []byte) bool { return (a == nil) == (b == nil) && string(a) == string(b) }

// checkRun: msgs must be the records of the log from offset `from` on.
func checkRun(s Slot, log []MRec, from int64, msgs []wire.Msg) error {
	for i, m := range msgs {
		want := from + int64(i)
		if m.Off != want {
			return fmt.Errorf("%v: record %d of the answer to a fetch from offset %d has offset %d, not %d", s, i, from, m.Off, want)
		}
		if want >= int64(len(log)) {
			return fmt.Errorf("%v: a record at offset %d, but only %d were posted", s, want, len(log))
		}
		r := &log[want]
		if !sameBytes(m.Key, r.Key) {
			return fmt.Errorf("%v offset %d: key %s, posted %s", s, want, showBytes(m.Key), showBytes(r.Key))
		}
		if !sameBytes(m.Value, r.Value) {
			return fmt.Errorf("%v offset %d: value %s, posted %s", s, want, showBytes(m.Value), showBytes(r.Value))
		}
		if m.Ts < r.Lo || m.Ts > r.Hi {
			return fmt.Errorf("%v offset %d: timestamp %d, posted with %d..%d", s, want, m.Ts, r.Lo, r.Hi)
		}
	}
	return nil
}

// ---- complete looks at a mock

// judgeSlot consumes a partition and compares it with the model.
func (w *World) judgeSlot(conn int, s Slot) error {
	log := w.mod.Parts[s]
	for from := int64(0); ; {
		resp, err := w.do(conn, fetchReq(0, s, from, 64<<20))
		if err != nil {
			return fmt.Errorf("%v: %w", s, err)
		}
		f := resp.(*wire.FetchResp)
		if len(f.Topics) != 1 || len(f.Topics[0].Parts) != 1 || f.Topics[0].Topic != s.Topic || f.Topics[0].Parts[0].Part != s.Part {
			return fmt.Errorf("%v: fetch of this one partition is answered with %d topics", s, len(f.Topics))
		}
		p := f.Topics[0].Parts[0]
		if p.Err != 0 {
			return fmt.Errorf("%v: fetch from offset %d of %d records fails with error %d", s, from, len(log), p.Err)
		}
		msgs, err := wire.Messages(p.Set)
		if err != nil {
			return fmt.Errorf("%v: %w", s, err)
		}
		if err := checkRun(s, log, from, msgs); err != nil {
			return err
		}
		if from += int64(len(msgs)); from >= int64(len(log)) {
			return nil
		}
		if len(msgs) == 0 {
			return fmt.Errorf("%v: fetch from offset %d of %d records brings nothing", s, from, len(log))
		}
	}
}

// judgeOffsets compares the committed offsets of a group with the model.
func (w *World) judgeOffsets(conn int, group string) error {
	q := &wire.OFetchReq{Group: group, Topics: []wire.OFetchTopic{}}
	want := map[Slot]int64{}
	for _, s := range sortedSlots(w.mod) {
		if n := len(q.Topics); n == 0 || q.Topics[n-1].Topic != s.Topic {
			q.Topics = append(q.Topics, wire.OFetchTopic{Topic: s.Topic})
		}
		t := &q.Topics[len(q.Topics)-1]
		t.Parts = append(t.Parts, s.Part)
		want[s] = w.mod.Commits[ckey{s, group}]
	}
	resp, err := w.do(conn, &wire.Req{OFetch: q})
	if err != nil {
		return err
	}
	for _, t := range resp.(*wire.OFetchResp).Topics {
		for _, p := range t.Parts {
			s := Slot{t.Topic, p.Part}
			v, ok := want[s]
			if !ok || p.Off != v || p.Err != 0 {
				return fmt.Errorf("group %q: offset %d (error %d) for %v, committed %d", group, p.Off, p.Err, s, v)
			}
			delete(want, s)
		}
	}
	if len(want) > 0 {
		return fmt.Errorf("group %q: no offsets for %v", group, want)
	}
	return nil
}

// judgeMeta compares the metadata of all topics, and the coordinator.
func (w *World) judgeMeta(conn int) error {
	resp, err := w.do(conn, &wire.Req{Meta: &wire.MetaReq{}})
	if err != nil {
		return err
	}
	f := resp.(*wire.MetaResp)
	if len(f.Brokers) != 1 || int(f.Brokers[0].Port) != w.port || f.Brokers[0].Host != "localhost" {
		return fmt.Errorf("brokers %+v, this mock is at port %d", f.Brokers, w.port)
	}
	have := w.mod.topics()
	n := 0
	for _, t := range f.Topics {
		for _, p := range t.Parts {
			if !have[t.Name][p.Part] {
				return fmt.Errorf("metadata names %q/%d, which was not created here", t.Name, p.Part)
			}
			n++
		}
	}
	if n != len(w.mod.Parts) {
		return fmt.Errorf("metadata names %d partitions, %d were created", n, len(w.mod.Parts))
	}
	c, err := w.do(conn, &wire.Req{Coord: &wire.CoordReq{Key: "g"}})
	if err != nil {
		return err
	}
	if k := c.(*wire.CoordResp); int(k.Port) != w.port {
		return fmt.Errorf("coordinator at port %d, this mock is at port %d", k.Port, w.port)
	}
	return nil
}

// crowd asks the mock over several connections at once while other mocks are
// made in its process, and returns the lists of APIs answered.
func (w *World) crowd(conns, news int) ([]*wire.ApiVResp, error) {
	par := ctl.Cmd{Op: "par"}
	drop := ctl.Cmd{Op: "par", Threads: [][]ctl.Cmd{nil}}
	for i := 0; i < 3; i++ {
		var cs []ctl.Cmd
		for j := 0; j < news; j++ {
			mockSeq++
			cs = append(cs, ctl.Cmd{Op: "new", M: mockSeq, Port: 9 + j})
			drop.Threads[0] = append(drop.Threads[0], ctl.Cmd{Op: "drop", M: mockSeq})
		}
		par.Threads = append(par.Threads, cs)
	}
	reqs := []*wire.Req{{ApiV: true}, {Coord: &wire.CoordReq{Key: "g"}}, {Meta: &wire.MetaReq{Topics: []string{}}},
		{Heartbeat: &wire.HeartbeatReq{Group: "g", Member: "1"}}, {ApiV: true}}
	const rounds = 4
	var cs []*wire.Conn
	defer func() {
		for _, c := range cs {
			c.Close()
		}
	}()
	for i := 0; i < conns; i++ {
		c, err := wire.Dial(w.port, ansWait)
		if err != nil {
			return nil, w.exchangeErr("connecting", err)
		}
		cs = append(cs, c)
	}
	type out struct {
		lists []*wire.ApiVResp
		err   error
	}
	outs := make(chan out, conns)
	for _, c := range cs {
		c := c
		go func() {
			var o out
			defer func() { outs <- o }()
			for r := 0; r < rounds; r++ {
				var stream []byte
				for k, q := range reqs {
					x := *q
					x.Corr = int32(k)
					stream = append(stream, x.Encode()...)
				}
				if err := c.Send(stream); err != nil {
					o.err = w.exchangeErr("sending", err)
					return
				}
				for k, q := range reqs {
					corr, body, err := c.Recv(ansWait)
					if err != nil {
						o.err = w.exchangeErr(q.Name(), err)
						return
					}
					if corr != int32(k) {
						o.err = fmt.Errorf("request %d answered with correlation id %d", k, corr)
						return
					}
					resp, err := q.Decode(body)
					if err != nil {
						o.err = err
						return
					}
					switch f := resp.(type) {
					case *wire.ApiVResp:
						o.lists = append(o.lists, f)
					case *wire.CoordResp:
						if int(f.Port) != w.port {
							o.err = fmt.Errorf("coordinator at port %d, this mock is at port %d", f.Port, w.port)
							return
						}
					case *wire.MetaResp:
						if len(f.Brokers) != 1 || int(f.Brokers[0].Port) != w.port {
							o.err = fmt.Errorf("brokers %+v, this mock is at port %d", f.Brokers, w.port)
							return
						}
					}
				}
			}
		}()
	}
	_, err := w.s.Call(par, ansWait)
	var lists []*wire.ApiVResp
	for range cs {
		o := <-outs
		lists = append(lists, o.lists...)
		if o.err != nil {
			err = o.err
		}
	}
	if errors.Is(err, ctl.ErrCall) {
		err = pbt.Timeoutf("making mocks did not return within %v", ansWait)
	}
	if err != nil {
		return nil, err
	}
	_, err = w.s.Call(drop, ansWait)
	return lists, err
}

// judgeList compares earliest and latest offsets of all partitions.
func (w *World) judgeList(conn int) error {
	q := &wire.ListReq{Replica: -1, Topics: []wire.ListTopic{}}
	slots := sortedSlots(w.mod)
	for _, s := range slots {
		if n := len(q.Topics); n == 0 || q.Topics[n-1].Topic != s.Topic {
			q.Topics = append(q.Topics, wire.ListTopic{Topic: s.Topic})
		}
		t := &q.Topics[len(q.Topics)-1]
		t.Parts = append(t.Parts, wire.ListPart{Part: s.Part, Ts: -1})
	}
	resp, err := w.do(conn, &wire.Req{List: q})
	if err != nil {
		return err
	}
	i := 0
	for _, t := range resp.(*wire.ListResp).Topics {
		for _, p := range t.Parts {
			if i >= len(slots) || slots[i] != (Slot{t.Topic, p.Part}) {
				return fmt.Errorf("listing of %v answered with %q/%d at %d", slots, t.Topic, p.Part, i)
			}
			if p.Err != 0 || p.Off != int64(len(w.mod.Parts[slots[i]])) {
				return fmt.Errorf("latest offset of %v: %d (error %d), %d records were posted", slots[i], p.Off, p.Err, len(w.mod.Parts[slots[i]]))
			}
			i++
		}
	}
	if i != len(slots) {
		return fmt.Errorf("listing of %d partitions answered with %d", len(slots), i)
	}
	return nil
}

// judgeAssignment joins a group and compares what is assigned with the model.
func (w *World) judgeAssignment(conn int, group string) error {
	resp, err := w.do(conn, &wire.Req{Join: &wire.JoinReq{Group: group, Session: 30000, Rebalance: 30000, Type: "consumer", Protos: []wire.Proto{{Name: "range"}}}})
	if err != nil {
		return err
	}
	j := resp.(*wire.JoinResp)
	if j.Err != 0 {
		return fmt.Errorf("join of %q answered with error %d", group, j.Err)
	}
	if resp, err = w.do(conn, &wire.Req{Sync: &wire.SyncReq{Group: group, Gen: j.Gen, Member: j.Member}}); err != nil {
		return err
	}
	f := resp.(*wire.SyncResp)
	if f.Err != 0 {
		return fmt.Errorf("sync of %q answered with error %d", group, f.Err)
	}
	_, _, err = w.mod.checkAssignment(f.Assignment)
	return err
}

// checkAssignment: every partition once; it returns their number and that of
// the topics.
func (m *Model) checkAssignment(b []byte) (parts, topics int, err error) {
	a, err := wire.ParseAssignment(b)
	if err != nil {
		return 0, 0, err
	}
	have := m.topics()
	seen := map[Slot]bool{}
	tseen := map[string]bool{}
	for _, t := range a.Topics {
		if have[t.Topic] == nil {
			return 0, 0, fmt.Errorf("assigned topic %q does not exist", t.Topic)
		}
		if tseen[t.Topic] {
			return 0, 0, fmt.Errorf("topic %q assigned twice", t.Topic)
		}
		tseen[t.Topic] = true
		for _, p := range t.Parts {
			s := Slot{t.Topic, p}
			if !m.exists(s) {
				return 0, 0, fmt.Errorf("assigned partition %v does not exist", s)
			}
			if seen[s] {
				return 0, 0, fmt.Errorf("partition %v assigned twice", s)
			}
			seen[s] = true
		}
	}
	if len(seen) != len(m.Parts) {
		return 0, 0, fmt.Errorf("%d of %d partitions assigned", len(seen), len(m.Parts))
	}
	return len(seen), len(tseen), nil
}

// judgeAll compares everything.
func (w *World) judgeAll(conn int, groups ...string) error {
	for _, s := range sortedSlots(w.mod) {
		if err := w.judgeSlot(conn, s); err != nil {
			return err
		}
	}
	for _, g := range groups {
		if err := w.judgeOffsets(conn, g); err != nil {
			return err
		}
		if err := w.judgeAssignment(conn, g); err != nil {
			return err
		}
	}
	if err := w.judgeList(conn); err != nil {
		return err
	}
	return w.judgeMeta(conn)
}

// commitOne commits and judges the answer.
func (w *World) commitOne(conn int, group string, s Slot, off int64) error {
	w.mod.commit(group, s, off)
	resp, err := w.do(conn, w.commitReq(group, s, off))
	if err != nil {
		return err
	}
	f := resp.(*wire.CommitResp)
	want := int16(0)
	if !w.mod.exists(s) {
		want = 3
	}
	if len(f.Topics) != 1 || len(f.Topics[0].Parts) != 1 || f.Topics[0].Parts[0].Err != want {
		return fmt.Errorf("commit of %v answered with %+v", s, f.Topics)
	}
	return nil
}
