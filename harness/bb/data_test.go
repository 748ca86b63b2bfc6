package bb

// The properties of what the mock stores and answers (C01-C03, C05-C09): one
// vocabulary of operations, one model, and for each property the operations it
// is about, judged, with all the others as noise.

import (
	"context"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"sort"
	"sync"
	"testing"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"

	kafka "github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/protocol"
	"pgregory.net/rapid"
)

// Entry of a fetch or other multi-partition request; Slot < 0 names something
// that does not exist.
type Entry struct {
	Slot int
	Off  OffSpec
	Max  MaxSpec
	Ts   TsSpec `json:",omitempty"`
	Val  int64  `json:",omitempty"` // offset to commit
	Meta *string
}

// TsSpec is a point in time for an offset listing.
type TsSpec struct {
	Special int64 `json:",omitempty"` // -1, -2
	Rec     int   `json:",omitempty"` // relative to the timestamp of this record (mod log length)
	D       int64 `json:",omitempty"`
	Abs     bool  `json:",omitempty"`
}

// Op is one step of a history.
type Op struct {
	Kind    string
	Slot    int       `json:",omitempty"`
	Slots   []int     `json:",omitempty"`
	Recs    []ctl.Rec `json:",omitempty"`
	Entries []Entry   `json:",omitempty"`
	Off     OffSpec   `json:",omitempty"`
	Max     MaxSpec   `json:",omitempty"`
	Wait    int32     `json:",omitempty"`
	Conn    int       `json:",omitempty"`
	Group   string    `json:",omitempty"`
	Val     int64     `json:",omitempty"`
	Null    bool      `json:",omitempty"`
	Str     string    `json:",omitempty"`
	Blob    wire.Blob `json:",omitempty"`
	N       int       `json:",omitempty"`
	Rep     bool      `json:",omitempty"` // name partitions and topics repeatedly
}

// Hist is a case.
type Hist struct {
	High  bool // the mock's port
	Slots []Slot
	Init  []int // slots created at the beginning
	Ops   []Op
}

type histRun struct {
	*World
	h    Hist
	prop string
	ctx  *pbt.Ctx
	last map[Slot]ctl.Rec // posted last
}

func (r *histRun) slot(i int) Slot {
	if i < 0 {
		// something that does not exist: vary between unknown topic and
		// unknown partition of a known topic
		base := r.h.Slots[(-i)%len(r.h.Slots)]
		for n := int32(0); ; n++ {
			s := Slot{Topic: base.Topic, Part: int32(-i)%7 + n*3}
			if i%2 == 0 {
				s.Topic = fmt.Sprintf("%s-%d", "unknown", -i)
			}
			if i%5 == 0 {
				s.Part = -1 - n
			}
			known := r.mod.exists(s)
			for _, x := range r.h.Slots {
				known = known || x == s
			}
			if !known {
				return s
			}
		}
	}
	return r.h.Slots[i%len(r.h.Slots)]
}

// grouped turns entries into request topics: consecutive entries of one topic
// share it; a second occurrence of a partition or a separated occurrence of a
// topic is left out.
func (r *histRun) grouped(es []Entry) [][]Entry {
	var out [][]Entry
	seen := map[Slot]bool{}
	at := map[string]int{}
	for _, e := range es {
		s := r.slot(e.Slot)
		if seen[s] {
			continue
		}
		seen[s] = true
		if i, ok := at[s.Topic]; ok {
			out[i] = append(out[i], e)
			continue
		}
		at[s.Topic] = len(out)
		out = append(out, []Entry{e})
	}
	return out
}

// request is what a fetch, list or commit names: its entries grouped, or, if
// the operation says so, just as they come, all of them several times.
func (r *histRun) request(op Op) [][]Entry {
	if !op.Rep {
		return r.grouped(op.Entries)
	}
	var out [][]Entry
	topic := ""
	for n := 0; n < max(op.N, 1); n++ {
		for _, e := range op.Entries {
			if s := r.slot(e.Slot); len(out) > 0 && s.Topic == topic {
				out[len(out)-1] = append(out[len(out)-1], e)
			} else {
				out = append(out, []Entry{e})
				topic = s.Topic
			}
		}
	}
	r.ctx.ClassIf(len(op.Entries) > 0 && op.N > 1, "entries named repeatedly")
	return out
}

func runHist(prop string) func(h Hist, ctx *pbt.Ctx) error {
	return func(h Hist, ctx *pbt.Ctx) error {
		w, err := newMockOn(false, true, false, h.High)
		if err != nil {
			return err
		}
		defer w.close()
		r := &histRun{World: w, h: h, prop: prop, ctx: ctx, last: map[Slot]ctl.Rec{}}
		for _, i := range h.Init {
			if err := r.create(r.slot(i)); err != nil {
				return fmt.Errorf("initial create: %w", err)
			}
		}
		for i, op := range h.Ops {
			if err := r.exec(op); err != nil {
				return fmt.Errorf("step %d (%s): %w", i, op.Kind, err)
			}
		}
		return r.final()
	}
}

func (r *histRun) exec(op Op) error {
	switch op.Kind {
	case "create":
		var ss []Slot
		for _, i := range op.Slots {
			ss = append(ss, r.slot(i))
		}
		return r.create(ss...)
	case "post":
		if len(op.Recs) > 0 {
			r.last[r.slot(op.Slot)] = op.Recs[len(op.Recs)-1]
		}
		return r.post(r.slot(op.Slot), op.Recs)
	case "again": // what was posted last
		rec, ok := r.last[r.slot(op.Slot)]
		if !ok {
			return nil
		}
		r.ctx.Class("same record again")
		recs := make([]ctl.Rec, max(op.N, 1))
		for i := range recs {
			recs[i] = rec
		}
		return r.post(r.slot(op.Slot), recs)
	case "many":
		return r.many(op)
	case "all":
		return r.all(op)
	case "groups":
		return r.groups(op)
	case "bulk":
		r.ctx.Class("bulk post")
		r.ctx.ClassIf(op.Blob.N > 0, "bulk post of megabytes")
		r.ctx.ClassIf(op.N > 65000, "bulk post of over 65000 records")
		return r.post(r.slot(op.Slot), bulkRecs(op.N, max(op.Blob.N, 0), uint32(op.Val)))
	case "setoff":
		return r.setoff(op.Group, r.slot(op.Slot), op.Val)
	case "restart":
		r.ctx.Class("restart")
		return r.restart()
	case "pause": // nothing happens for a while
		r.ctx.Class(fmt.Sprintf("nothing for %d s", op.N/1000))
		time.Sleep(time.Duration(op.N) * time.Millisecond)
		return nil
	case "reconnect":
		r.closeConn(op.Conn)
		return nil
	case "consume":
		return r.consume(op)
	case "fetch":
		return r.fetch(op)
	case "late":
		return r.late(op)
	case "storm":
		return r.storm(op)
	case "kgofetch":
		return r.kgoFetch(op)
	case "list":
		return r.list(op)
	case "commit":
		return r.commit(op)
	case "ofetch":
		return r.ofetch(op)
	case "meta":
		return r.meta(op)
	case "coord":
		return r.coord(op)
	case "join", "sync", "heartbeat", "leave", "session":
		return r.group(op)
	}
	return pbt.Harnessf("unknown op %s", op.Kind)
}

// many creates many topics with many partitions, and posts to some of them.
func (r *histRun) many(op Op) error {
	var slots []Slot
	for i := 0; i < op.N; i++ {
		for p := int64(0); p < op.Val; p++ {
			slots = append(slots, Slot{fmt.Sprintf("%s%d", op.Str, i), int32(p) + int32(op.Blob.N)})
		}
	}
	if err := r.create(slots...); err != nil {
		return err
	}
	for i, step := 0, 1+len(slots)/60; i < len(slots); i += step {
		if err := r.post(slots[i], bulkRecs(1+i%3, 0, op.Blob.Seed+uint32(i))); err != nil {
			return err
		}
	}
	r.ctx.Class("many topics and partitions")
	return r.all(op)
}

// all asks for everything that exists at once.
func (r *histRun) all(op Op) error {
	slots := sortedSlots(r.mod)
	if op.Null {
		for i, j := 0, len(slots)-1; i < j; i, j = i+1, j-1 {
			slots[i], slots[j] = slots[j], slots[i]
		}
	}
	if len(slots) > 4000 {
		slots = slots[:4000]
	}
	switch r.prop {
	case "C02", "C03", "C05":
		q := &wire.FetchReq{Replica: -1, MinBytes: 1, Topics: []wire.FetchTopic{}}
		for _, s := range slots {
			if n := len(q.Topics); n == 0 || q.Topics[n-1].Topic != s.Topic {
				q.Topics = append(q.Topics, wire.FetchTopic{Topic: s.Topic})
			}
			t := &q.Topics[len(q.Topics)-1]
			t.Parts = append(t.Parts, wire.FetchPart{Part: s.Part, Max: 3000})
		}
		resp, err := r.do(op.Conn, &wire.Req{Fetch: q})
		if err != nil {
			return err
		}
		_, _, err = r.judgeFetch(q, resp.(*wire.FetchResp))
		return err
	case "C06":
		return r.judgeList(op.Conn)
	case "C07":
		g := op.Group
		q := &wire.CommitReq{Group: g, Gen: 1, Member: "1", Retention: -1, Topics: []wire.CommitTopic{}}
		for i, s := range slots {
			if n := len(q.Topics); n == 0 || q.Topics[n-1].Topic != s.Topic {
				q.Topics = append(q.Topics, wire.CommitTopic{Topic: s.Topic})
			}
			t := &q.Topics[len(q.Topics)-1]
			v := int64(i)%97 + op.Val
			t.Parts = append(t.Parts, wire.CommitPart{Part: s.Part, Off: v})
			r.mod.commit(g, s, v)
		}
		resp, err := r.do(op.Conn, &wire.Req{Commit: q})
		if err != nil {
			return err
		}
		n := 0
		for _, t := range resp.(*wire.CommitResp).Topics {
			for _, p := range t.Parts {
				if n >= len(slots) || slots[n] != (Slot{t.Topic, p.Part}) || p.Err != 0 {
					return fmt.Errorf("commit of %d partitions: entry %d is %q/%d with error %d", len(slots), n, t.Topic, p.Part, p.Err)
				}
				n++
			}
		}
		if n != len(slots) {
			return fmt.Errorf("commit of %d partitions answered with %d", len(slots), n)
		}
		return r.judgeOffsets(op.Conn, g)
	case "C08":
		names := map[string]bool{}
		q := &wire.MetaReq{Topics: []string{}}
		for _, s := range slots {
			if !names[s.Topic] {
				names[s.Topic] = true
				q.Topics = append(q.Topics, s.Topic)
			}
		}
		if err := r.judgeTopics(op.Conn, q); err != nil {
			return err
		}
		return r.judgeTopics(op.Conn, &wire.MetaReq{})
	case "C09":
		return r.judgeAssignment(op.Conn, op.Group)
	}
	return nil
}

// groups: one commit of each of many groups.
func (r *histRun) groups(op Op) error {
	s := r.slot(op.Slot)
	name := func(i int) string { return fmt.Sprintf("%s%d", op.Str, i) }
	op.N = min(op.N, 1+60000/(1+len(r.mod.Parts)))
	for i := 0; i < op.N; i++ {
		var err error
		if i%5 == 4 {
			err = r.setoff(name(i), s, op.Val+int64(i))
		} else {
			err = r.commitOne(op.Conn, name(i), s, op.Val+int64(i))
		}
		if err != nil {
			return err
		}
	}
	r.ctx.Class("many groups")
	for i := 0; i < op.N; i++ {
		if err := r.judgeOffsets(op.Conn, name(i)); err != nil {
			return fmt.Errorf("%d. of %d groups: %w", i+1, op.N, err)
		}
	}
	return nil
}

// final: the closing look at everything.
func (r *histRun) final() error {
	switch r.prop {
	case "C01":
		for _, s := range sortedSlots(r.mod) {
			if err := r.consumeSlot(s, 0, bigMax, 0, 0); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
		}
	case "C07":
		groups := map[string]bool{}
		for k := range r.mod.Commits {
			groups[k.group] = true
		}
		for _, op := range r.h.Ops {
			if op.Kind == "ofetch" || op.Kind == "commit" || op.Kind == "setoff" {
				groups[op.Group] = true
			}
		}
		all := []Entry{}
		for i := range r.h.Slots {
			all = append(all, Entry{Slot: i})
		}
		for g := range groups {
			if err := r.ofetch(Op{Group: g, Entries: all}); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
		}
		for _, s := range sortedSlots(r.mod) {
			if err := r.consumeSlot(s, 0, bigMax, 0, 0); err != nil {
				return fmt.Errorf("records at the end: %w", err)
			}
		}
	}
	return nil
}

func sortedSlots(m *Model) []Slot {
	var ss []Slot
	for s := range m.Parts {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool {
		if ss[i].Topic != ss[j].Topic {
			return ss[i].Topic < ss[j].Topic
		}
		return ss[i].Part < ss[j].Part
	})
	return ss
}

// ---- consuming (C01)

func fetchReq(wait int32, s Slot, off int64, max int32) *wire.Req {
	return &wire.Req{Fetch: &wire.FetchReq{Replica: -1, WaitMs: wait, MinBytes: 1,
		Topics: []wire.FetchTopic{{Topic: s.Topic, Parts: []wire.FetchPart{{Part: s.Part, Off: off, Max: max}}}}}}
}

func (r *histRun) consume(op Op) error {
	s := r.slot(op.Slot)
	if !r.mod.exists(s) {
		return nil
	}
	if r.prop != "C01" {
		return r.noise(op.Conn, fetchReq(0, s, op.Off.resolve(len(r.mod.Parts[s])), op.Max.resolve(r.mod.Parts[s], 0)))
	}
	return r.consumeSlot(s, op.Off.resolve(len(r.mod.Parts[s])), op.Max, op.Conn, op.Wait)
}

// consumeSlot follows the offsets to the end of the log.
func (r *histRun) consumeSlot(s Slot, from int64, max MaxSpec, conn int, wait int32) error {
	log := r.mod.Parts[s]
	start := from
	for trips := 0; from < int64(len(log)); trips++ {
		limit := int64(max.resolve(log, from))
		rest := int64(0)
		for _, x := range log[from:] {
			rest += int64(x.size())
		}
		if limit < rest/50 { // no more than some 50 round trips
			limit = rest / 50
		}
		if limit < int64(log[from].size()) {
			limit = int64(log[from].size())
		}
		resp, err := r.do(conn, fetchReq(wait, s, from, int32(limit)))
		if err != nil {
			return err
		}
		f := resp.(*wire.FetchResp)
		if len(f.Topics) != 1 || len(f.Topics[0].Parts) != 1 || f.Topics[0].Topic != s.Topic || f.Topics[0].Parts[0].Part != s.Part {
			return fmt.Errorf("%v: fetch of this one partition is answered with %d topics", s, len(f.Topics))
		}
		p := f.Topics[0].Parts[0]
		if p.Err != 0 {
			return fmt.Errorf("%v: fetch from offset %d of %d records fails with error %d", s, from, len(log), p.Err)
		}
		msgs, err := wire.Messages(p.Set)
		if err != nil {
			return fmt.Errorf("%v: fetch from offset %d: %w", s, from, err)
		}
		if err := checkRun(s, log, from, msgs); err != nil {
			return err
		}
		if len(msgs) == 0 {
			return fmt.Errorf("%v: fetch from offset %d of %d records with limit %d brings nothing (next record: %d bytes)", s, from, len(log), limit, log[from].size())
		}
		from += int64(len(msgs))
	}
	if int64(len(log))-start > 0 {
		r.ctx.Class("consumed partition")
		r.ctx.ClassIf(start > 0, "consumed from the middle")
		if len(log)-int(start) >= 2 {
			r.ctx.NonTrivial()
		}
	}
	return nil
}

// ---- multi-partition fetches (C02, C03, C05)

// fetchOf is the fetch an operation describes.
func (r *histRun) fetchOf(op Op) *wire.FetchReq {
	g := r.request(op)
	q := &wire.FetchReq{Replica: -1, WaitMs: op.Wait, MinBytes: 1, Topics: []wire.FetchTopic{}}
	for _, es := range g {
		t := wire.FetchTopic{Topic: r.slot(es[0].Slot).Topic, Parts: []wire.FetchPart{}}
		for _, e := range es {
			s := r.slot(e.Slot)
			log := r.mod.Parts[s]
			off := e.Off.resolve(len(log))
			t.Parts = append(t.Parts, wire.FetchPart{Part: s.Part, Off: off, Max: e.Max.resolve(log, off)})
		}
		q.Topics = append(q.Topics, t)
	}
	return q
}

// sameEntries compares the names in the answer with those asked and returns
// the partitions answered, in order.
func sameEntries(q *wire.FetchReq, f *wire.FetchResp) error {
	if len(f.Topics) != len(q.Topics) {
		return fmt.Errorf("%d topics asked, %d answered", len(q.Topics), len(f.Topics))
	}
	for i, qt := range q.Topics {
		ft := f.Topics[i]
		if ft.Topic != qt.Topic {
			return fmt.Errorf("topic %d of the answer is %q, asked %q", i, ft.Topic, qt.Topic)
		}
		if len(ft.Parts) != len(qt.Parts) {
			return fmt.Errorf("topic %q: %d partitions asked, %d answered", qt.Topic, len(qt.Parts), len(ft.Parts))
		}
		for j, qp := range qt.Parts {
			if fp := ft.Parts[j]; fp.Part != qp.Part {
				return fmt.Errorf("topic %q: partition %d of the answer is %d, asked %d", qt.Topic, j, fp.Part, qp.Part)
			}
		}
	}
	return nil
}

// late posts a record that a fetch waits for; what comes and when is C04's
// business, but what comes must fit the log, and the watermarks what comes.
func (r *histRun) late(op Op) error {
	s := r.slot(op.Slot)
	if !r.mod.exists(s) {
		return nil
	}
	for i := range op.Entries {
		op.Entries[i].Off = OffSpec{End: true}
		op.Entries[i].Max = bigMax
	}
	op.Entries = append(op.Entries, Entry{Slot: op.Slot, Off: OffSpec{End: true}, Max: bigMax})
	q := r.fetchOf(op)
	q.WaitMs = 4000
	before := map[Slot]int{}
	for k, v := range r.mod.Parts {
		before[k] = len(v)
	}
	type answer struct {
		resp any
		err  error
	}
	got := make(chan answer, 1)
	go func() {
		resp, err := r.do(op.Conn, &wire.Req{Fetch: q})
		got <- answer{resp, err}
	}()
	time.Sleep(time.Duration(op.N) * time.Millisecond)
	perr := r.post(s, op.Recs)
	a := <-got
	if a.err != nil {
		return a.err
	}
	if perr != nil {
		return perr
	}
	f := a.resp.(*wire.FetchResp)
	if err := sameEntries(q, f); err != nil {
		return err
	}
	for i, qt := range q.Topics {
		for j, qp := range qt.Parts {
			s := Slot{qt.Topic, qp.Part}
			p := f.Topics[i].Parts[j]
			if !r.mod.exists(s) {
				if p.Err != 3 || len(p.Set) != 0 {
					return fmt.Errorf("%v does not exist, but its entry has error %d and %d bytes", s, p.Err, len(p.Set))
				}
				continue
			}
			msgs, err := wire.Messages(p.Set)
			if err != nil {
				return fmt.Errorf("%v: %w", s, err)
			}
			if p.Err != 0 {
				return fmt.Errorf("%v: error %d", s, p.Err)
			}
			if err := checkRun(s, r.mod.Parts[s], qp.Off, msgs); err != nil {
				return err
			}
			lo := int64(before[s])
			if n := len(msgs); n > 0 {
				lo = msgs[n-1].Off + 1
				r.ctx.Class("posted during the wait")
			}
			if hi := int64(len(r.mod.Parts[s])); p.HWM < lo || p.HWM > hi {
				return fmt.Errorf("%v: high watermark %d, the log end was between %d and %d", s, p.HWM, lo, hi)
			}
		}
	}
	return nil
}

// storm sends the same fetch over several connections at once.
func (r *histRun) storm(op Op) error {
	q := r.fetchOf(op)
	req := &wire.Req{Fetch: q, Corr: 77}
	varyReq(req)
	b := req.Encode()
	const rounds = 3
	var sent sync.WaitGroup
	gate := make(chan struct{})
	n := 2 + op.N%4
	errs := make([]error, n)
	bodies := make([][][]byte, n)
	for i := 0; i < n; i++ {
		i := i
		c, err := r.conn(10 + i)
		if err != nil {
			return err
		}
		sent.Add(1)
		go func() {
			defer sent.Done()
			<-gate
			for k := 0; k < rounds && errs[i] == nil; k++ {
				if errs[i] = c.Send(b); errs[i] != nil {
					return
				}
				corr, body, err := c.Recv(ansWait)
				if err == nil && corr != 77 {
					err = fmt.Errorf("correlation id %d", corr)
				}
				errs[i] = err
				bodies[i] = append(bodies[i], body)
			}
		}()
	}
	close(gate)
	sent.Wait()
	for i := range errs {
		if errs[i] != nil {
			return r.exchangeErr("one of several fetches at once", errs[i])
		}
		for _, body := range bodies[i] {
			resp, err := (&wire.Req{Fetch: q}).Decode(body)
			if err != nil {
				return err
			}
			if _, _, err := r.judgeFetch(q, resp.(*wire.FetchResp)); err != nil {
				return fmt.Errorf("one of %d fetches at once: %w", n, err)
			}
		}
	}
	r.ctx.Class("fetches at once")
	return nil
}

func (r *histRun) fetch(op Op) error {
	q := r.fetchOf(op)
	if r.prop != "C02" && r.prop != "C03" && r.prop != "C05" {
		return r.noise(op.Conn, &wire.Req{Fetch: q})
	}
	resp, err := r.do(op.Conn, &wire.Req{Fetch: q})
	if err != nil {
		return err
	}
	entries, withData, err := r.judgeFetch(q, resp.(*wire.FetchResp))
	if err != nil {
		return err
	}
	switch r.prop {
	case "C02":
		r.ctx.ClassIf(entries >= 2, "several entries")
		r.ctx.ClassIf(len(q.Topics) >= 2, "several topics")
		if entries >= 2 && withData >= 1 {
			r.ctx.NonTrivial()
		}
	}
	return nil
}

func (r *histRun) judgeFetch(q *wire.FetchReq, f *wire.FetchResp) (entries, withData int, err error) {
	if err := sameEntries(q, f); err != nil {
		return 0, 0, err
	}
	for i, qt := range q.Topics {
		for j, qp := range qt.Parts {
			n, err := r.fetchEntry(Slot{qt.Topic, qp.Part}, qp, f.Topics[i].Parts[j])
			if err != nil {
				return 0, 0, err
			}
			entries++
			if n > 0 {
				withData++
			}
		}
	}
	return
}

// fetchEntry judges one partition of an answer.
func (r *histRun) fetchEntry(s Slot, q wire.FetchPart, p wire.FetchRespPart) (int, error) {
	log := r.mod.Parts[s]
	known := r.mod.exists(s)
	if r.prop == "C05" {
		msgs, err := strictSet(p.Set)
		if err != nil {
			return 0, fmt.Errorf("%v: fetch from offset %d: %w", s, q.Off, err)
		}
		for _, m := range msgs {
			r.ctx.Class("message")
			r.ctx.ClassIf(m.Key == nil || m.Value == nil, "null key or value")
			if i := m.Off; i >= 0 && i < int64(len(log)) {
				// null keys and values have length -1
				if (m.Key == nil) != (log[i].Key == nil) || (m.Value == nil) != (log[i].Value == nil) {
					return 0, fmt.Errorf("%v offset %d: key %s value %s, posted key %s value %s", s, i, showBytes(m.Key), showBytes(m.Value), showBytes(log[i].Key), showBytes(log[i].Value))
				}
			}
		}
		if len(msgs) >= 1 {
			r.ctx.NonTrivial()
		}
		return len(msgs), nil
	}
	msgs, err := wire.Messages(p.Set)
	if err != nil {
		return 0, fmt.Errorf("%v: fetch from offset %d: %w", s, q.Off, err)
	}
	switch {
	case !known:
		r.ctx.Class("unknown entry")
		if r.prop == "C02" && p.Err != 3 {
			return 0, fmt.Errorf("%v does not exist, but its entry has error %d, not 3", s, p.Err)
		}
		if r.prop == "C02" && len(msgs) != 0 {
			return 0, fmt.Errorf("%v does not exist, but its entry has %d records", s, len(msgs))
		}
		return 0, nil
	case q.Off < 0:
		r.ctx.Class("negative offset")
		if r.prop == "C02" && p.Err != 1 {
			return 0, fmt.Errorf("%v: fetch from offset %d has error %d, not 1", s, q.Off, p.Err)
		}
		if r.prop == "C02" && len(msgs) != 0 {
			return 0, fmt.Errorf("%v: fetch from offset %d has %d records", s, q.Off, len(msgs))
		}
		return 0, nil
	}
	if r.prop == "C02" {
		if p.Err != 0 {
			return 0, fmt.Errorf("%v: fetch from offset %d of %d records has error %d", s, q.Off, len(log), p.Err)
		}
		if p.HWM != int64(len(log)) {
			return 0, fmt.Errorf("%v: fetch from offset %d has high watermark %d, the log end is %d", s, q.Off, p.HWM, len(log))
		}
		r.ctx.ClassIf(q.Off >= int64(len(log)), "at or past the end")
	}
	if err := checkRun(s, log, q.Off, msgs); err != nil {
		return 0, err
	}
	size, fit := int64(0), 0
	for i := q.Off; i < int64(len(log)); i++ {
		if size+int64(log[i].size()) > int64(q.Max) {
			break
		}
		size += int64(log[i].size())
		fit++
	}
	switch r.prop {
	case "C02":
		if fit > 0 && len(msgs) == 0 {
			return 0, fmt.Errorf("%v: fetch from offset %d of %d records with limit %d brings nothing", s, q.Off, len(log), q.Max)
		}
	case "C03":
		if len(p.Set) > 0 && int64(len(p.Set)) > int64(q.Max) {
			return 0, fmt.Errorf("%v: message set of %d bytes, limit %d", s, len(p.Set), q.Max)
		}
		if len(msgs) != fit {
			return 0, fmt.Errorf("%v: fetch from offset %d with limit %d brings %d records in %d bytes, %d records in %d bytes fit", s, q.Off, q.Max, len(msgs), len(p.Set), fit, size)
		}
		if q.Off < int64(len(log)) {
			cut := q.Off+int64(fit) < int64(len(log))
			r.ctx.ClassIf(size > 50<<20, "over 50 MB brought")
			r.ctx.ClassIf(fit == 0, "first record does not fit")
			r.ctx.ClassIf(cut && fit > 0, "limit cuts the log")
			r.ctx.ClassIf(fit > 0 && size == int64(q.Max), "limit met exactly")
			if cut || size == int64(q.Max) {
				r.ctx.NonTrivial()
			}
		}
	}
	return len(msgs), nil
}

// strictSet parses a message set by its size fields, as a client that trusts
// nothing does.
func strictSet(set []byte) ([]wire.Msg, error) {
	var out []wire.Msg
	d := &wire.Dec{B: set}
	for d.Off < len(set) {
		start := d.Off
		at := fmt.Sprintf("message %d (byte %d of the set)", len(out), start)
		var m wire.Msg
		m.Off = d.I64()
		m.Size = d.I32()
		if d.Err != nil {
			return nil, fmt.Errorf("%s: %w", at, d.Err)
		}
		end := d.Off + int(m.Size)
		if m.Size < 22 || end > len(set) {
			return nil, fmt.Errorf("%s: size field %d, %d bytes left", at, m.Size, len(set)-d.Off)
		}
		b := &wire.Dec{B: set[:end], Off: d.Off}
		m.Crc = uint32(b.I32())
		body := set[b.Off:end]
		if got := crc32.ChecksumIEEE(body); got != m.Crc {
			return nil, fmt.Errorf("%s: checksum field %08x, CRC-32 of the body %08x", at, m.Crc, got)
		}
		m.Magic = b.I8()
		m.Attr = b.I8()
		m.Ts = b.I64()
		for _, what := range []*[]byte{&m.Key, &m.Value} {
			*what = b.NBytes()
		}
		if b.Err != nil {
			return nil, fmt.Errorf("%s: %w", at, b.Err)
		}
		if b.Off != end {
			return nil, fmt.Errorf("%s: size field %d, but the message takes %d bytes", at, m.Size, b.Off-d.Off)
		}
		if m.Magic != 1 {
			return nil, fmt.Errorf("%s: magic byte %d", at, m.Magic)
		}
		if m.Attr != 0 {
			return nil, fmt.Errorf("%s: attributes %#x (not: uncompressed, create time)", at, m.Attr)
		}
		m.Encoded = end - start
		d.Off = end
		out = append(out, m)
	}
	return out, nil
}

// kgoFetch reads with kafka-go's Client, which verifies sizes and checksums.
func (r *histRun) kgoFetch(op Op) error {
	s := r.slot(op.Slot)
	if !r.mod.exists(s) {
		return nil
	}
	log := r.mod.Parts[s]
	from := op.Off.resolve(len(log))
	if from >= int64(len(log)) {
		return nil
	}
	if r.prop != "C05" {
		return nil
	}
	size := int64(0)
	for _, x := range log {
		size += int64(x.size())
	}
	rt := &singleConn{port: r.port}
	defer rt.close()
	client := &kafka.Client{Addr: kafka.TCP(fmt.Sprintf("127.0.0.1:%d", r.port)), Transport: rt, Timeout: ansWait}
	ctx, cancel := context.WithTimeout(context.Background(), ansWait)
	defer cancel()
	resp, err := client.Fetch(ctx, &kafka.FetchRequest{Topic: s.Topic, Partition: int(s.Part), Offset: from, MinBytes: 1, MaxBytes: size, MaxWait: 0})
	if err != nil {
		return r.exchangeErr("kafka-go Client.Fetch", err)
	}
	if resp.Error != nil {
		return fmt.Errorf("kafka-go Client.Fetch of %v from %d: %v", s, from, resp.Error)
	}
	n := 0
	for {
		rec, err := resp.Records.ReadRecord()
		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Errorf("kafka-go Client.Fetch of %v from %d: record %d: %w", s, from, n, err)
		}
		off := from + int64(n)
		if off >= int64(len(log)) || rec.Offset != off {
			return fmt.Errorf("kafka-go Client.Fetch of %v from %d: record %d has offset %d", s, from, n, rec.Offset)
		}
		n++
	}
	if n != len(log)-int(from) {
		return fmt.Errorf("kafka-go Client.Fetch of %v accepts %d records from offset %d, the log has %d", s, n, from, len(log))
	}
	r.ctx.Class("kafka-go client accepted the set")
	return nil
}

// singleConn is the transport of a kafka-go Client that talks to the mock
// directly, on one connection, without metadata and version discovery.
type singleConn struct {
	port int
	pc   *protocol.Conn
}

func (s *singleConn) RoundTrip(ctx context.Context, _ net.Addr, req kafka.Request) (kafka.Response, error) {
	if s.pc == nil {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.port))
		if err != nil {
			return nil, err
		}
		s.pc = protocol.NewConn(c, "check")
		v := map[protocol.ApiKey]int16{}
		for k, n := range wire.Version {
			v[protocol.ApiKey(k)] = n
		}
		s.pc.SetVersions(v)
	}
	if d, ok := ctx.Deadline(); ok {
		s.pc.SetDeadline(d)
	}
	return s.pc.RoundTrip(req)
}

func (s *singleConn) close() {
	if s.pc != nil {
		s.pc.Close()
	}
}

// ---- offset listing (C06)

func (t TsSpec) resolve(log []MRec) int64 {
	if t.Special < 0 {
		return t.Special
	}
	if t.Abs || len(log) == 0 {
		if t.D < 0 {
			return -t.D
		}
		return t.D
	}
	v := log[t.Rec%len(log)].Lo + t.D
	if v < 0 {
		v = 0
	}
	return v
}

func (r *histRun) list(op Op) error {
	q := &wire.ListReq{Replica: -1, Topics: []wire.ListTopic{}}
	for _, es := range r.request(op) {
		t := wire.ListTopic{Topic: r.slot(es[0].Slot).Topic, Parts: []wire.ListPart{}}
		for _, e := range es {
			s := r.slot(e.Slot)
			t.Parts = append(t.Parts, wire.ListPart{Part: s.Part, Ts: e.Ts.resolve(r.mod.Parts[s])})
		}
		q.Topics = append(q.Topics, t)
	}
	if r.prop != "C06" {
		return r.noise(op.Conn, &wire.Req{List: q})
	}
	resp, err := r.do(op.Conn, &wire.Req{List: q})
	if err != nil {
		return err
	}
	f := resp.(*wire.ListResp)
	if len(f.Topics) != len(q.Topics) {
		return fmt.Errorf("%d topics asked, %d answered", len(q.Topics), len(f.Topics))
	}
	for i, qt := range q.Topics {
		ft := f.Topics[i]
		if ft.Topic != qt.Topic || len(ft.Parts) != len(qt.Parts) {
			return fmt.Errorf("topic %d of the answer is %q with %d partitions, asked %q with %d", i, ft.Topic, len(ft.Parts), qt.Topic, len(qt.Parts))
		}
		for j, qp := range qt.Parts {
			s := Slot{qt.Topic, qp.Part}
			if ft.Parts[j].Part != qp.Part {
				return fmt.Errorf("topic %q: partition %d of the answer is %d, asked %d", qt.Topic, j, ft.Parts[j].Part, qp.Part)
			}
			if err := r.listEntry(s, qp.Ts, ft.Parts[j]); err != nil {
				return err
			}
		}
	}
	return nil
}

func (r *histRun) listEntry(s Slot, ts int64, p wire.ListRespPart) error {
	if !r.mod.exists(s) {
		r.ctx.Class("unknown entry")
		if p.Err != 3 {
			return fmt.Errorf("%v does not exist, but its entry has error %d, not 3", s, p.Err)
		}
		return nil
	}
	log := r.mod.Parts[s]
	if p.Err != 0 {
		return fmt.Errorf("%v at time %d: error %d", s, ts, p.Err)
	}
	switch ts {
	case -1:
		r.ctx.Class("latest")
		if p.Off != int64(len(log)) {
			return fmt.Errorf("%v: latest offset %d, the log end is %d", s, p.Off, len(log))
		}
		return nil
	case -2:
		r.ctx.Class("earliest")
		if p.Off != 0 {
			return fmt.Errorf("%v: earliest offset %d", s, p.Off)
		}
		return nil
	}
	// by time; records posted in the simple form have a timestamp between two
	// clock readings, so the answer is only known to lie in a range
	lo := int64(len(log)) // smallest offset that may qualify
	hi := int64(len(log)) // smallest offset that surely qualifies
	for i := len(log) - 1; i >= 0; i-- {
		if log[i].Hi >= ts {
			lo = int64(i)
		}
		if log[i].Lo >= ts {
			hi = int64(i)
		}
	}
	if p.Off < lo || p.Off > hi {
		return fmt.Errorf("%v: offset %d for time %d, the first record at or after it is at offset %d (of %d)", s, p.Off, ts, hi, len(log))
	}
	if p.Off < int64(len(log)) {
		m := log[p.Off]
		if p.Ts < m.Lo || p.Ts > m.Hi || p.Ts < ts {
			return fmt.Errorf("%v: time %d gives offset %d with timestamp %d, that record's timestamp is %d", s, ts, p.Off, p.Ts, m.Lo)
		}
		r.ctx.Class("by time, found")
		r.ctx.ClassIf(p.Off > 0, "by time, not the first record")
		if p.Off > 0 {
			r.ctx.NonTrivial()
		}
	} else {
		r.ctx.Class("by time, none")
	}
	return nil
}

// ---- committed offsets (C07)

func (r *histRun) commit(op Op) error {
	q := &wire.CommitReq{Group: op.Group, Gen: 1, Member: "1", Retention: -1, Topics: []wire.CommitTopic{}}
	for _, es := range r.request(op) {
		t := wire.CommitTopic{Topic: r.slot(es[0].Slot).Topic, Parts: []wire.CommitPart{}}
		for _, e := range es {
			s := r.slot(e.Slot)
			t.Parts = append(t.Parts, wire.CommitPart{Part: s.Part, Off: e.Val, Meta: e.Meta})
			r.ctx.ClassIf(r.mod.exists(s) && e.Val < r.mod.Commits[ckey{s, op.Group}], "commit backwards")
			r.mod.commit(op.Group, s, e.Val)
		}
		q.Topics = append(q.Topics, t)
	}
	if r.prop != "C07" {
		return r.noise(op.Conn, &wire.Req{Commit: q})
	}
	resp, err := r.do(op.Conn, &wire.Req{Commit: q})
	if err != nil {
		return err
	}
	f := resp.(*wire.CommitResp)
	if len(f.Topics) != len(q.Topics) {
		return fmt.Errorf("%d topics committed, %d answered", len(q.Topics), len(f.Topics))
	}
	for i, qt := range q.Topics {
		ft := f.Topics[i]
		if ft.Topic != qt.Topic || len(ft.Parts) != len(qt.Parts) {
			return fmt.Errorf("topic %d of the answer is %q with %d partitions, committed %q with %d", i, ft.Topic, len(ft.Parts), qt.Topic, len(qt.Parts))
		}
		for j, qp := range qt.Parts {
			s := Slot{qt.Topic, qp.Part}
			want := int16(0)
			if !r.mod.exists(s) {
				want = 3
				r.ctx.Class("commit to unknown")
			}
			if p := ft.Parts[j]; p.Part != qp.Part || p.Err != want {
				return fmt.Errorf("commit of %v is answered with partition %d error %d, expected error %d", s, p.Part, p.Err, want)
			}
		}
	}
	return nil
}

func (r *histRun) ofetch(op Op) error {
	q := &wire.OFetchReq{Group: op.Group, Topics: []wire.OFetchTopic{}}
	want := map[Slot]int64{}
	for _, es := range r.grouped(op.Entries) {
		t := wire.OFetchTopic{Topic: r.slot(es[0].Slot).Topic, Parts: []int32{}}
		for _, e := range es {
			s := r.slot(e.Slot)
			t.Parts = append(t.Parts, s.Part)
			if r.mod.exists(s) {
				want[s] = r.mod.Commits[ckey{s, op.Group}]
			} else {
				r.ctx.Class("offset fetch of unknown")
			}
		}
		q.Topics = append(q.Topics, t)
	}
	if r.prop != "C07" {
		return r.noise(op.Conn, &wire.Req{OFetch: q})
	}
	resp, err := r.do(op.Conn, &wire.Req{OFetch: q})
	if err != nil {
		return err
	}
	nz := 0
	for _, t := range resp.(*wire.OFetchResp).Topics {
		for _, p := range t.Parts {
			s := Slot{t.Topic, p.Part}
			v, ok := want[s]
			if !ok {
				return fmt.Errorf("group %q: an offset for %v, which does not exist or was answered already", op.Group, s)
			}
			delete(want, s)
			if p.Err != 0 {
				return fmt.Errorf("group %q: error %d for %v", op.Group, p.Err, s)
			}
			if p.Off != v {
				return fmt.Errorf("group %q: committed offset %d for %v, expected %d", op.Group, p.Off, s, v)
			}
			if v != 0 {
				nz++
			}
		}
	}
	for s := range want {
		return fmt.Errorf("group %q: no offset for %v", op.Group, s)
	}
	if nz > 0 {
		r.ctx.Class("committed offset read back")
		if len(r.mod.Commits) >= 2 {
			r.ctx.NonTrivial()
		}
	}
	return nil
}

// ---- metadata and coordinator (C08)

func (r *histRun) meta(op Op) error {
	q := &wire.MetaReq{}
	if !op.Null {
		q.Topics = []string{}
		seen := map[string]bool{}
		for _, i := range op.Slots {
			if t := r.slot(i).Topic; !seen[t] {
				seen[t] = true
				q.Topics = append(q.Topics, t)
			}
		}
	}
	if r.prop != "C08" {
		return r.noise(op.Conn, &wire.Req{Meta: q})
	}
	return r.judgeTopics(op.Conn, q)
}

// judgeTopics asks for metadata; Topics nil: of all.
func (r *histRun) judgeTopics(conn int, q *wire.MetaReq) error {
	resp, err := r.do(conn, &wire.Req{Meta: q})
	if err != nil {
		return err
	}
	f := resp.(*wire.MetaResp)
	if len(f.Brokers) != 1 || f.Brokers[0].Host != "localhost" || int(f.Brokers[0].Port) != r.port {
		return fmt.Errorf("brokers %+v, expected one at localhost:%d", f.Brokers, r.port)
	}
	node := f.Brokers[0].Node
	if f.Controller != node {
		return fmt.Errorf("controller %d is not the broker %d", f.Controller, node)
	}
	have := r.mod.topics()
	if q.Topics == nil {
		r.ctx.Class("all topics")
		seen := map[string]bool{}
		for _, t := range f.Topics {
			if have[t.Name] == nil {
				return fmt.Errorf("metadata of all topics names %q, which does not exist", t.Name)
			}
			if seen[t.Name] {
				return fmt.Errorf("metadata of all topics names %q twice", t.Name)
			}
			seen[t.Name] = true
		}
		if len(seen) != len(have) {
			return fmt.Errorf("metadata of all topics names %d of %d", len(seen), len(have))
		}
	} else {
		if len(f.Topics) != len(q.Topics) {
			return fmt.Errorf("%d topics asked, %d answered", len(q.Topics), len(f.Topics))
		}
		for i, t := range f.Topics {
			if t.Name != q.Topics[i] {
				return fmt.Errorf("topic %d of the answer is %q, asked %q", i, t.Name, q.Topics[i])
			}
		}
	}
	for _, t := range f.Topics {
		ps := have[t.Name]
		if ps == nil {
			r.ctx.Class("unknown topic")
			if t.Err != 3 || len(t.Parts) != 0 {
				return fmt.Errorf("topic %q does not exist, answered with error %d and %d partitions", t.Name, t.Err, len(t.Parts))
			}
			continue
		}
		if t.Err != 0 {
			return fmt.Errorf("topic %q: error %d", t.Name, t.Err)
		}
		seen := map[int32]bool{}
		for _, p := range t.Parts {
			if !ps[p.Part] || seen[p.Part] {
				return fmt.Errorf("topic %q: partition %d listed, existing: %v", t.Name, p.Part, keys(ps))
			}
			seen[p.Part] = true
			if p.Err != 0 || p.Leader != node {
				return fmt.Errorf("topic %q partition %d: error %d, leader %d (broker %d)", t.Name, p.Part, p.Err, p.Leader, node)
			}
			for _, n := range append(append([]int32{}, p.Replicas...), p.Isr...) {
				if n != node {
					return fmt.Errorf("topic %q partition %d: replica %d is not the broker %d", t.Name, p.Part, n, node)
				}
			}
		}
		if len(seen) != len(ps) {
			return fmt.Errorf("topic %q: partitions %v listed, existing: %v", t.Name, keys(seen), keys(ps))
		}
		r.ctx.ClassIf(len(ps) >= 2, "topic with several partitions")
		r.ctx.NonTrivial()
	}
	return nil
}

func keys(m map[int32]bool) []int32 {
	var a []int32
	for k := range m {
		a = append(a, k)
	}
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	return a
}

func (r *histRun) coord(op Op) error {
	q := &wire.Req{Coord: &wire.CoordReq{Key: op.Group}}
	if r.prop != "C08" {
		return r.noise(op.Conn, q)
	}
	resp, err := r.do(op.Conn, q)
	if err != nil {
		return err
	}
	c := resp.(*wire.CoordResp)
	if c.Err != 0 || c.Host != "localhost" || int(c.Port) != r.port {
		return fmt.Errorf("coordinator of %q: %+v, expected localhost:%d", op.Group, *c, r.port)
	}
	meta, err := r.do(op.Conn, &wire.Req{Meta: &wire.MetaReq{Topics: []string{}}})
	if err != nil {
		return err
	}
	if b := meta.(*wire.MetaResp).Brokers; len(b) != 1 || b[0].Node != c.Node {
		return fmt.Errorf("coordinator is node %d, brokers are %+v", c.Node, b)
	}
	r.ctx.Class("coordinator")
	return nil
}

// ---- group membership (C09)

func (r *histRun) group(op Op) error {
	judge := r.prop == "C09"
	member := op.Str
	reqs := []*wire.Req{}
	join := &wire.Req{Join: &wire.JoinReq{Group: op.Group, Session: 30000, Rebalance: 30000, Member: member, Type: "consumer", Protos: []wire.Proto{}}}
	for i := 0; i < op.N; i++ {
		join.Join.Protos = append(join.Join.Protos, wire.Proto{Name: []string{"range", "roundrobin", "sticky", "x"}[i%4], Meta: wire.Blob{N: max(op.Blob.N, 0), Seed: op.Blob.Seed + uint32(i)}})
	}
	sync := &wire.Req{Sync: &wire.SyncReq{Group: op.Group, Gen: int32(op.Val), Member: member}}
	hb := &wire.Req{Heartbeat: &wire.HeartbeatReq{Group: op.Group, Gen: int32(op.Val), Member: member}}
	leave := &wire.Req{Leave: &wire.LeaveReq{Group: op.Group, Member: member}}
	switch op.Kind {
	case "join":
		reqs = append(reqs, join)
	case "sync":
		reqs = append(reqs, sync)
	case "heartbeat":
		reqs = append(reqs, hb)
	case "leave":
		reqs = append(reqs, leave)
	case "session":
		reqs = append(reqs, join, sync, hb, sync, leave)
	}
	for _, q := range reqs {
		if !judge {
			if err := r.noise(op.Conn, q); err != nil {
				return err
			}
			continue
		}
		resp, err := r.do(op.Conn, q)
		if err != nil {
			return err
		}
		switch f := resp.(type) {
		case *wire.JoinResp:
			r.ctx.Class("join")
			if f.Err != 0 {
				return fmt.Errorf("join of %q answered with error %d", op.Group, f.Err)
			}
			if f.Member == "" {
				return fmt.Errorf("join of %q gives no member id", op.Group)
			}
			if f.Leader == f.Member {
				return fmt.Errorf("join of %q: member %q is told it is the leader", op.Group, f.Member)
			}
			if op.Kind == "session" { // the client goes on with what it was given
				sync.Sync.Member, sync.Sync.Gen = f.Member, f.Gen
				hb.Heartbeat.Member, hb.Heartbeat.Gen = f.Member, f.Gen
				leave.Leave.Member = f.Member
			}
		case *wire.SyncResp:
			if f.Err != 0 {
				return fmt.Errorf("sync of %q answered with error %d", op.Group, f.Err)
			}
			if err := r.checkAssignment(f.Assignment); err != nil {
				return err
			}
		case *wire.ErrResp:
			r.ctx.Class(q.Name())
			if f.Err != 0 {
				return fmt.Errorf("%s of %q answered with error %d", q.Name(), op.Group, f.Err)
			}
		}
	}
	return nil
}

func (r *histRun) checkAssignment(b []byte) error {
	parts, topics, err := r.mod.checkAssignment(b)
	if err != nil {
		return err
	}
	if parts >= 2 {
		r.ctx.NonTrivial()
	}
	r.ctx.ClassIf(topics >= 2, "assignment of several topics")
	r.ctx.ClassIf(parts == 0, "empty assignment")
	return nil
}

// ---- generators

var commitEdges = []int64{0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1, 1<<53 + 1}

func genCommitVal(t *rapid.T) int64 {
	if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
		return rapid.SampledFrom(commitEdges).Draw(t, "val")
	}
	return int64(rapid.IntRange(0, 20).Draw(t, "val"))
}

const maxVal = 40000

func genOp(prop string, nslots int, groups []string) *rapid.Generator[Op] {
	genGroup := func(t *rapid.T) string { return rapid.SampledFrom(groups).Draw(t, "group") }
	// how often each kind comes up: own operations first
	weights := map[string]map[string]int{
		"C01": {"again": 2, "post": 8, "consume": 8, "create": 3, "commit": 1, "setoff": 1, "list": 1, "fetch": 1, "reconnect": 1, "session": 1, "meta": 1, "restart": 1},
		"C02": {"late": 1, "storm": 1, "again": 1, "post": 6, "fetch": 10, "create": 3, "reconnect": 1, "commit": 1},
		"C03": {"storm": 1, "again": 1, "post": 6, "fetch": 10, "create": 1, "reconnect": 1},
		"C05": {"storm": 2, "again": 1, "post": 6, "fetch": 8, "kgofetch": 2, "create": 1},
		"C06": {"again": 1, "post": 6, "list": 12, "create": 2, "commit": 1, "consume": 1, "reconnect": 1, "restart": 1},
		"C07": {"post": 3, "commit": 12, "ofetch": 10, "setoff": 4, "create": 3, "consume": 2, "reconnect": 1, "session": 1, "restart": 1, "list": 1},
		"C08": {"post": 3, "create": 8, "meta": 12, "coord": 4, "setoff": 1, "commit": 1, "reconnect": 1, "session": 1, "fetch": 1, "restart": 1},
		"C09": {"post": 3, "create": 8, "session": 8, "join": 3, "sync": 8, "heartbeat": 3, "leave": 3, "meta": 1, "reconnect": 1, "commit": 1, "fetch": 1, "restart": 1},
	}[prop]
	var kinds []string
	for k := range weights {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	var table []string
	for _, k := range kinds {
		for i := 0; i < weights[k]; i++ {
			table = append(table, k)
		}
	}
	return rapid.Custom(func(t *rapid.T) Op {
		op := Op{Kind: rapid.SampledFrom(table).Draw(t, "kind")}
		slot := func() int { return rapid.IntRange(0, nslots-1).Draw(t, "slot") }
		any := func() int {
			if rapid.IntRange(0, 7).Draw(t, "unknown") == 0 {
				return -1 - rapid.IntRange(0, 9).Draw(t, "which")
			}
			return slot()
		}
		conn := func() { op.Conn = rapid.IntRange(0, 2).Draw(t, "conn") }
		entries := func(max int, f func(e *Entry)) {
			n := rapid.IntRange(0, max).Draw(t, "entries")
			for i := 0; i < n; i++ {
				e := Entry{Slot: any()}
				f(&e)
				op.Entries = append(op.Entries, e)
			}
		}
		repeat := func() {
			switch k := rapid.IntRange(0, 19).Draw(t, "repeat"); {
			case k == 19:
				op.Rep, op.N = true, rapid.IntRange(5, 120).Draw(t, "times")
			case k >= 15:
				op.Rep, op.N = true, rapid.IntRange(1, 3).Draw(t, "times")
			}
			for i := range op.Entries { // whole logs at most a few times
				if op.Rep && op.N > 3 && op.Kind == "fetch" && op.Entries[i].Max == bigMax {
					op.Entries[i].Max = MaxSpec{Recs: 3}
				}
			}
		}
		switch op.Kind {
		case "create":
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
				op.Slots = append(op.Slots, slot())
			}
		case "post":
			op.Slot = slot()
			op.Recs = genRecs(maxVal).Draw(t, "recs")
		case "again":
			op.Slot, op.N = slot(), rapid.IntRange(1, 3).Draw(t, "times")
		case "setoff":
			op.Slot, op.Group = any(), genGroup(t)
			op.Val = genCommitVal(t)
		case "restart":
			if rapid.IntRange(0, 3).Draw(t, "really") != 0 {
				op.Kind = "reconnect"
			}
			conn()
		case "reconnect":
			conn()
		case "consume", "kgofetch":
			conn()
			op.Slot, op.Off, op.Max = slot(), genOff().Draw(t, "off"), genMax().Draw(t, "max")
			op.Wait = int32(rapid.SampledFrom([]int{0, 0, 0, 1, 100, 10000}).Draw(t, "wait"))
		case "late":
			conn()
			op.Slot, op.N = slot(), rapid.SampledFrom([]int{0, 1, 5, 30}).Draw(t, "delay")
			op.Recs = []ctl.Rec{genRec(300).Draw(t, "rec")}
			entries(3, func(e *Entry) {})
		case "storm", "fetch":
			conn()
			if op.Kind == "storm" {
				op.N = rapid.IntRange(0, 3).Draw(t, "connections")
			}
			op.Wait = int32(rapid.SampledFrom([]int{0, 0, 0, 1, 5}).Draw(t, "wait"))
			entries(7, func(e *Entry) {
				e.Off, e.Max = genOff().Draw(t, "off"), bigMax
				if prop == "C03" {
					e.Max = genMax().Draw(t, "max")
				} else if prop == "C05" && rapid.Bool().Draw(t, "limited") {
					e.Max = genMax().Draw(t, "max")
				} else if prop == "C02" && rapid.IntRange(0, 4).Draw(t, "limited") == 0 {
					e.Max = genMax().Draw(t, "max")
				}
				if prop == "C02" && rapid.IntRange(0, 7).Draw(t, "odd") == 0 {
					e.Off = OffSpec{Abs: true, D: rapid.SampledFrom([]int64{-1, -2, -5, -1 << 31, -1 << 63, 1000000, 1 << 31, 1 << 32, 1<<63 - 1}).Draw(t, "odd off")}
				}
			})
			if op.Kind == "fetch" {
				repeat()
			}
		case "list":
			conn()
			entries(6, func(e *Entry) {
				switch rapid.IntRange(0, 5).Draw(t, "ts kind") {
				case 0:
					e.Ts = TsSpec{Special: -1}
				case 1:
					e.Ts = TsSpec{Special: -2}
				case 2:
					e.Ts = TsSpec{Abs: true, D: rapid.SampledFrom(append(tsEdges[:len(tsEdges):len(tsEdges)], 1<<63-1, 1<<62)).Draw(t, "abs")}
				default:
					rec := 12
					if rapid.IntRange(0, 5).Draw(t, "far") == 0 {
						rec = 40000
					}
					e.Ts = TsSpec{Rec: rapid.IntRange(0, rec).Draw(t, "rec"), D: int64(rapid.IntRange(-1, 1).Draw(t, "d"))}
				}
			})
			repeat()
		case "commit":
			conn()
			op.Group = genGroup(t)
			entries(5, func(e *Entry) {
				e.Val = genCommitVal(t)
				if rapid.IntRange(0, 2).Draw(t, "meta") == 0 {
					m := rapid.SampledFrom([]string{"", "m", "metadata"}).Draw(t, "meta")
					e.Meta = &m
				}
			})
			repeat()
		case "ofetch":
			conn()
			op.Group = genGroup(t)
			entries(6, func(e *Entry) {})
		case "meta":
			conn()
			op.Null = rapid.IntRange(0, 3).Draw(t, "null") == 0
			if !op.Null {
				for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
					op.Slots = append(op.Slots, any())
				}
			}
		case "coord":
			conn()
			op.Group = genGroup(t)
		case "session", "join", "sync", "heartbeat", "leave":
			conn()
			op.Group = genGroup(t)
			op.Str = rapid.SampledFrom([]string{"", "1", "me", "you", "member-ü"}).Draw(t, "member")
			op.N = rapid.IntRange(0, 4).Draw(t, "protocols")
			op.Blob = wire.Blob{N: rapid.IntRange(0, 300).Draw(t, "meta"), Seed: 1}
			op.Val = int64(rapid.SampledFrom([]int{0, 1, 5, -1, 1<<31 - 1}).Draw(t, "generation"))
		}
		return op
	})
}

func genHist(prop string, maxOps int) func(t *rapid.T) Hist {
	return func(t *rapid.T) Hist {
		if prop == "C03" && rapid.IntRange(0, 19).Draw(t, "huge") == 11 && rapid.IntRange(0, 5).Draw(t, "huge too") == 3 {
			return genHuge(t)
		}
		min := 1
		if prop == "C02" || prop == "C09" || prop == "C08" {
			min = 2
		}
		h := Hist{Slots: genSlots(min, 8).Draw(t, "slots"), High: rapid.Bool().Draw(t, "high port")}
		for i := range h.Slots {
			if rapid.IntRange(0, 3).Draw(t, "init") > 0 {
				h.Init = append(h.Init, i)
			}
		}
		groups := rapid.SliceOfNDistinct(rapid.SampledFrom(groupPool), 1, 3, rapid.ID[string]).Draw(t, "groups")
		if prop != "C08" && prop != "C09" {
			for _, i := range h.Init {
				if rapid.IntRange(0, 2).Draw(t, "prefill") > 0 {
					h.Ops = append(h.Ops, Op{Kind: "post", Slot: i, Recs: genRecs(maxVal).Draw(t, "recs")})
				}
			}
		}
		more := rapid.SliceOfN(genOp(prop, len(h.Slots), groups), 1, maxOps).Draw(t, "ops")
		if rapid.IntRange(0, 2).Draw(t, "long") > 0 {
			more = append(more, rapid.SliceOfN(genOp(prop, len(h.Slots), groups), 1, maxOps).Draw(t, "ops2")...)
		}
		h.Ops = append(h.Ops, more...)
		if prop != "C01" && rapid.IntRange(0, 47).Draw(t, "many") == 31 {
			shape := rapid.SampledFrom([][2]int{{1, 20}, {1, 70}, {1, 130}, {1, 300}, {1, 1100}, {20, 3}, {70, 2}, {130, 1}, {300, 1}, {1100, 1}, {33, 33}}).Draw(t, "shape")
			op := Op{Kind: "many", Str: rapid.SampledFrom([]string{"many", "t", "M"}).Draw(t, "prefix"), N: shape[0], Val: int64(shape[1]), Group: rapid.SampledFrom(groups).Draw(t, "group"),
				Blob: wire.Blob{N: rapid.SampledFrom([]int{0, 0, 1, 100, 65000}).Draw(t, "first"), Seed: uint32(rapid.IntRange(0, 1<<16).Draw(t, "seed"))}, Null: rapid.Bool().Draw(t, "backwards")}
			at := rapid.IntRange(0, len(h.Ops)).Draw(t, "at")
			h.Ops = append(h.Ops[:at:at], append([]Op{op}, h.Ops[at:]...)...)
			h.Ops = append(h.Ops, Op{Kind: "all", Group: op.Group, Val: 50, Null: !op.Null, Conn: 1})
		}
		if prop == "C07" && rapid.IntRange(0, 47).Draw(t, "many groups") == 31 {
			at := rapid.IntRange(0, len(h.Ops)).Draw(t, "at")
			op := Op{Kind: "groups", N: rapid.SampledFrom([]int{12, 40, 70, 140, 300, 1100}).Draw(t, "n"), Str: "group-", Slot: rapid.IntRange(0, len(h.Slots)-1).Draw(t, "slot"), Val: int64(rapid.IntRange(0, 9).Draw(t, "val"))}
			h.Ops = append(h.Ops[:at:at], append([]Op{op}, h.Ops[at:]...)...)
		}
		if p := genPause(t, prop, len(h.Slots), groups); p != nil {
			at := rapid.IntRange(0, len(h.Ops)).Draw(t, "at")
			h.Ops = append(h.Ops[:at:at], append(p, h.Ops[at:]...)...)
		}
		often := map[string]int{"C01": 24, "C08": 200, "C09": 200}[prop]
		if often == 0 {
			often = 60
		}
		for rapid.IntRange(0, often).Draw(t, "bulk") == often { // a long log
			at := rapid.IntRange(0, len(h.Ops)).Draw(t, "at")
			op := Op{Kind: "bulk", Slot: rapid.IntRange(0, len(h.Slots)-1).Draw(t, "slot"), N: genBulk(t), Val: int64(rapid.IntRange(0, 1<<16).Draw(t, "seed"))}
			heavy, max := 11, 8<<20
			if prop == "C01" {
				heavy, max = 4, 40<<20
			}
			if rapid.IntRange(0, heavy).Draw(t, "heavy") == heavy {
				op.N, op.Blob.N = genHeavy(t, max)
			}
			h.Ops = append(h.Ops[:at:at], append([]Op{op}, h.Ops[at:]...)...)
		}
		return h
	}
}

// genPause: what is stored or was promised stays while nothing happens.
func genPause(t *rapid.T, prop string, nslots int, groups []string) (ops []Op) {
	of := map[string]int{"C01": 127, "C02": 255, "C06": 255, "C07": 255, "C08": 255, "C09": 255}[prop]
	if of == 0 || rapid.IntRange(0, of).Draw(t, "pause") != of*3/5 {
		return nil
	}
	group := rapid.SampledFrom(groups).Draw(t, "group")
	var after []Op
	switch prop {
	case "C07":
		for i := 0; i < nslots; i++ {
			ops = append(ops, Op{Kind: "commit", Group: group, Entries: []Entry{{Slot: i, Val: int64(rapid.IntRange(1, 99).Draw(t, "offset"))}}})
			after = append(after, Op{Kind: "ofetch", Group: group, Entries: []Entry{{Slot: i}}})
		}
	case "C09":
		member := rapid.SampledFrom([]string{"", "1", "me"}).Draw(t, "member")
		ops = []Op{{Kind: "join", Group: group, Str: member, N: 1}, {Kind: "sync", Group: group, Str: "1"}}
		beat := Op{Kind: "heartbeat", Group: group, Str: "1"}
		if rapid.Bool().Draw(t, "beat") {
			ops = append(ops, beat)
		}
		after = []Op{beat, {Kind: "sync", Group: group, Str: "1"}, beat, {Kind: "leave", Group: group, Str: "1"}}
	}
	ops = append(ops, Op{Kind: "pause", N: rapid.SampledFrom([]int{1150, 2300, 1150, 3400, 6500, 1150}).Draw(t, "ms")})
	return append(ops, after...)
}

// genHuge: logs of tens of megabytes, fetched with limits about as large.
func genHuge(t *rapid.T) Hist {
	h := Hist{Slots: []Slot{{"huge", 0}, {"huge", 7}, {"other", 0}}[:rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "slots")], High: true}
	total := rapid.SampledFrom([]int{53, 66, 18, 34, 72, 11}).Draw(t, "total") << 20 / len(h.Slots)
	var es []Entry
	for i := range h.Slots {
		h.Init = append(h.Init, i)
		size := rapid.SampledFrom([]int{300000, 1000000, 1049000, 5000000, 17000000}).Draw(t, "size")
		h.Ops = append(h.Ops, Op{Kind: "bulk", Slot: i, N: (total + size - 1) / size, Blob: wire.Blob{N: size}, Val: int64(i)})
		max := rapid.SampledFrom([]MaxSpec{{Abs: true, Delta: 1<<31 - 1}, bigMax, {Recs: 1000, Delta: -1}, {Recs: 1000}, {Abs: true, Delta: 50 << 20}, {Recs: 40}}).Draw(t, "max")
		es = append(es, Entry{Slot: i, Off: OffSpec{D: int64(rapid.IntRange(0, 3).Draw(t, "off"))}, Max: max})
	}
	return Hist{Slots: h.Slots, High: h.High, Init: h.Init, Ops: append(h.Ops, Op{Kind: "fetch", Entries: es})}
}

func checkHist(t *testing.T, prop, rule string, maxOps int) {
	pbt.Check(t, pbt.Prop[Hist]{ID: prop, Rule: rule, Gen: genHist(prop, maxOps), Run: runHist(prop), Fresh: fresh, Vary: setVary})
}

func TestC01(t *testing.T) {
	checkHist(t, "C01", "A case is a history of 1-30 operations (post one or many records, create, consume from an offset with a limit and follow the offsets, commit, set offset, list, join, metadata, reconnect, restart) over 1-8 topic partitions on one mock, ending with every partition consumed from 0 and compared record by record with the reference log; non-trivial if some consumption returned at least two records.", 30)
}
func TestC02(t *testing.T) {
	checkHist(t, "C02", "A case is a history of 1-30 operations over 2-8 topic partitions whose fetches name 0-7 existing or unknown partitions with offsets inside, at and past the end, or negative; every entry is compared with the reference log; rarely the history has up to 1100 topics or partitions, all named in one request; non-trivial if some fetch had at least two entries and brought records.", 30)
}
func TestC03(t *testing.T) {
	checkHist(t, "C03", "A case is a history of posts and fetches whose byte limits are drawn around the exact sizes of the next records (-1, 0, +1), zero, negative and extreme; rarely the history has up to 1100 topics or partitions, all named in one request, or logs of up to 72 MB; the records returned must be exactly the longest run that fits; non-trivial if a limit cut a log or was met exactly.", 24)
}
func TestC05(t *testing.T) {
	checkHist(t, "C05", "A case is a history of posts and fetches; every message set returned is parsed by its size fields with CRC-32 IEEE recomputed, and some fetches are repeated through kafka-go's verifying Client; rarely the history has up to 1100 topics or partitions, all named in one request; non-trivial if a message was parsed.", 24)
}
func TestC06(t *testing.T) {
	checkHist(t, "C06", "A case is a history of posts (with colliding, unordered, negative and extreme timestamps) and offset listings (earliest, latest, times at, just before and just after record timestamps) compared with the reference log; rarely the history has up to 1100 topics or partitions, all named in one request; non-trivial if a by-time listing had to pass over a record.", 30)
}
func TestC07(t *testing.T) {
	checkHist(t, "C07", "A case is a history of commits, direct sets and offset fetches of up to 11 groups over 1-8 partitions, mixed with posts, creates, reconnects and restarts (rarely with up to 1100 topics, partitions or groups), compared with a reference map; non-trivial if a non-zero committed offset was read back while at least two offsets were stored.", 40)
}
func TestC08(t *testing.T) {
	checkHist(t, "C08", "A case is a history of creates, posts and metadata (listed, unknown, null, empty) or coordinator requests compared with the reference store; rarely the history has up to 1100 topics or partitions, all named in one request; non-trivial if the metadata of an existing topic was compared.", 30)
}
func TestC09(t *testing.T) {
	checkHist(t, "C09", "A case is a history of creates, posts, joins, syncs, heartbeats and leaves with any group, member and protocols; each assignment must list every partition of the reference store exactly once; rarely the history has up to 1100 topics or partitions, all named in one request; non-trivial if an assignment of at least two partitions was compared.", 30)
}
