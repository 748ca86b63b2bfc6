package bb

// C04: fetches that wait.

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"

	"pgregory.net/rapid"
)

type waitEntry struct {
	Slot  int // negative: does not exist
	Ahead int // offset relative to the end of the log at the time of the request
	Max   MaxSpec
}

type waiter struct {
	Start   int // ms
	Entries []waitEntry
	Ms      int32
	Min     int32 // MinBytes
	Behind  int   // requests pipelined behind the fetch
}

type waitEvent struct {
	At   int // ms
	Kind string
	Slot int
	Rec  ctl.Rec
	N    int
}

type waitCase struct {
	Store   Store
	Before  string `json:",omitempty"` // what was done to the mock before: restart, finish restart, stop start
	Waiters []waiter
	Events  []waitEvent
	Crowd   int    `json:",omitempty"` // so many more like the first
	End     string // post, finish, cancel (the lane), stop, restart, leave: what happens to those still waiting
	EndAt   int    // ms after the last event
	Duel    *duel  `json:",omitempty"` // before that
}

// duel: fetches for the next record of a partition, again and again, each at
// nearly the same moment as the post of that record.
type duel struct {
	Rounds, Conns int
	Entries       int   // partitions in each fetch; the post goes to any of them
	Us            []int // by how much the post comes after the requests (or before)
	Ends          int   `json:",omitempty"` // so many rounds against a finish or stop instead
}

func (r *waitRun) duel(d *duel) error {
	var conns []*wire.Conn
	defer func() {
		for _, c := range conns {
			c.Close()
		}
	}()
	for i := 0; i < d.Conns; i++ {
		c, err := wire.Dial(r.port, ansWait)
		if err != nil {
			return r.exchangeErr("connecting", err)
		}
		conns = append(conns, c)
	}
	var slots []Slot
	for i := 0; i < d.Entries; i++ {
		slots = append(slots, Slot{"duel", int32(i)})
	}
	if err := r.create(slots...); err != nil {
		return err
	}
	spin := func(us int) {
		for b := time.Now(); time.Since(b) < time.Duration(us)*time.Microsecond; {
		}
	}
	for round := 0; round < d.Rounds; round++ {
		q := &wire.FetchReq{Replica: -1, WaitMs: 4000, MinBytes: 1, Topics: []wire.FetchTopic{{Topic: "duel"}}}
		for _, s := range slots {
			q.Topics[0].Parts = append(q.Topics[0].Parts, wire.FetchPart{Part: s.Part, Off: int64(len(r.mod.Parts[s])), Max: 1 << 20})
		}
		req := &wire.Req{Fetch: q, Corr: int32(round)}
		raw := req.Encode()
		us := d.Us[round%len(d.Us)]
		type res struct {
			took time.Duration
			err  error
		}
		done := make(chan res, len(conns))
		for _, c := range conns {
			go func() {
				spin(-us)
				b := time.Now()
				err := c.Send(raw)
				if err == nil {
					var body []byte
					var resp any
					var corr int32
					if corr, body, err = c.Recv(ansWait); err == nil && corr != req.Corr {
						err = fmt.Errorf("correlation id %d", corr)
					}
					if err == nil {
						if resp, err = req.Decode(body); err == nil {
							n := 0
							for _, t := range resp.(*wire.FetchResp).Topics {
								for _, p := range t.Parts {
									n += len(p.Set)
								}
							}
							if n == 0 && time.Since(b) < 4*time.Second {
								err = fmt.Errorf("answered without records after %v", time.Since(b))
							}
						}
					}
				}
				done <- res{time.Since(b), err}
			}()
		}
		spin(us)
		s := slots[round*7%len(slots)]
		b := time.Now()
		if err := r.post(s, []ctl.Rec{{Value: wire.Blob{N: 3, Seed: uint32(round)}, Ext: true, Ms: 4}}); err != nil {
			return err
		}
		posted := time.Since(b)
		for range conns {
			if a := <-done; a.err != nil {
				return r.exchangeErr(fmt.Sprintf("round %d of a fetch against a post", round), a.err)
			} else if a.took > posted+r.lag.slack() {
				return pbt.Latef("round %d: a fetch for a record posted at the same time took %v", round, a.took)
			}
		}
	}
	r.ctx.Class("fetches at the moment of the post")
	for round := 0; round < d.Ends; round++ {
		q := &wire.FetchReq{Replica: -1, WaitMs: 20000, MinBytes: 1, Topics: []wire.FetchTopic{{Topic: "duel"}}}
		for _, s := range slots {
			q.Topics[0].Parts = append(q.Topics[0].Parts, wire.FetchPart{Part: s.Part, Off: int64(len(r.mod.Parts[s])), Max: 1 << 20})
		}
		raw := (&wire.Req{Fetch: q, Corr: int32(round)}).Encode()
		us := d.Us[round%len(d.Us)]
		var ends []*wire.Conn
		for i := 0; i < d.Conns; i++ {
			c, err := wire.Dial(r.port, ansWait)
			if err != nil {
				return r.exchangeErr("connecting", err)
			}
			ends = append(ends, c)
		}
		var wg sync.WaitGroup
		for _, c := range ends {
			wg.Add(1)
			go func() {
				defer wg.Done()
				spin(-us)
				if c.Send(raw) == nil {
					c.Recv(30 * time.Second) // answered, or closed if the request came too late
				}
				c.Close()
			}()
		}
		spin(us)
		r.closeConns()
		b := time.Now()
		ops := []string{"stopwait", "start"}
		if round%2 == 0 {
			ops = []string{"finish", "stopwait", "start"}
		}
		var failed error
		for _, op := range ops {
			if op == "start" {
				wg.Wait()
				failed = r.start()
			} else {
				_, failed = r.callT(ctl.Cmd{Op: op}, 30*time.Second)
			}
			if failed != nil {
				break
			}
		}
		for _, c := range ends {
			c.Close()
		}
		wg.Wait()
		if failed != nil {
			return failed
		}
		// connections that wait for requests, and writes, are given a second
		if took := time.Since(b); took > 3*time.Second+r.lag.slack() {
			return pbt.Latef("round %d of fetches against %s: took %v", round, ops[0], took)
		}
		if _, err := r.conn(0); err != nil {
			return err
		}
	}
	r.ctx.ClassIf(d.Ends > 0, "fetches at the moment of the finish")
	return nil
}

// lag is how late this process itself is woken up.
type lag struct {
	max  atomic.Int64
	stop chan struct{}
}

func startLag() *lag {
	l := &lag{stop: make(chan struct{})}
	go func() {
		for {
			t := time.Now()
			select {
			case <-l.stop:
				return
			case <-time.After(5 * time.Millisecond):
			}
			if d := int64(time.Since(t) - 5*time.Millisecond); d > l.max.Load() {
				l.max.Store(d)
			}
		}
	}()
	return l
}

// slack is how late an answer may be that should come at once.
func (l *lag) slack() time.Duration {
	return 600*time.Millisecond + 4*time.Duration(l.max.Load())
}

type waiting struct {
	waiter
	req    *wire.Req
	conn   *wire.Conn
	slots  [][]Slot // per request topic
	errs   bool     // all entries are answered with an error, or there is none
	sent   time.Time
	max    time.Duration // the wait asked for
	satB   time.Time     // begin and end of what satisfied it
	satE   time.Time
	endB   time.Time // begin of the finish
	endE   time.Time
	got    time.Time
	resp   *wire.FetchResp
	err    error
	done   chan struct{}
	behind []time.Time
}

type waitRun struct {
	*World
	c    waitCase
	ctx  *pbt.Ctx
	ws   []*waiting
	lag  *lag
	sent int
}

// sat says whether the model has something for the fetch.
func (r *waitRun) sat(q *waiting) bool {
	for _, t := range q.req.Fetch.Topics {
		for _, p := range t.Parts {
			log := r.mod.Parts[Slot{t.Topic, p.Part}]
			if p.Off >= 0 && p.Off < int64(len(log)) && log[p.Off].size() <= int(p.Max) {
				return true
			}
		}
	}
	return false
}

func (r *waitRun) launch(w waiter) error {
	q := &waiting{waiter: w, done: make(chan struct{}), max: time.Duration(w.Ms) * time.Millisecond}
	if q.max < 0 {
		q.max = 0
	}
	f := &wire.FetchReq{Replica: -1, WaitMs: w.Ms, MinBytes: w.Min, Topics: []wire.FetchTopic{}}
	seen := map[Slot]bool{}
	at := map[string]int{}
	q.errs = true
	for _, e := range w.Entries {
		s := r.c.Store.Slots[max(e.Slot, -e.Slot)%len(r.c.Store.Slots)]
		if e.Slot < 0 {
			s.Topic += "-none"
		} else {
			q.errs = false
		}
		if seen[s] {
			continue
		}
		seen[s] = true
		log := r.mod.Parts[s]
		off := int64(len(log) + e.Ahead)
		if off < 0 {
			off = 0
		}
		max := e.Max.resolve(log, off)
		if off >= int64(len(log)) && !e.Max.Abs {
			max = 1 << 20
		}
		i, ok := at[s.Topic]
		if !ok {
			i = len(f.Topics)
			at[s.Topic] = i
			f.Topics = append(f.Topics, wire.FetchTopic{Topic: s.Topic})
		}
		f.Topics[i].Parts = append(f.Topics[i].Parts, wire.FetchPart{Part: s.Part, Off: off, Max: max})
	}
	r.corr++
	q.req = &wire.Req{Fetch: f, Corr: r.corr}
	varyReq(q.req)
	stream := q.req.Encode()
	for i := 0; i < w.Behind; i++ {
		stream = append(stream, (&wire.Req{ApiV: true, Corr: q.req.Corr + int32(i) + 1}).Encode()...)
		r.corr++
	}
	var err error
	if q.conn, err = wire.Dial(r.port, ansWait); err != nil {
		return r.exchangeErr("connecting", err)
	}
	r.ws = append(r.ws, q)
	q.sent = time.Now()
	if r.sat(q) {
		q.satB, q.satE = q.sent, q.sent
	}
	if err := q.conn.Send(stream); err != nil {
		return r.exchangeErr("sending", err)
	}
	go func() {
		defer close(q.done)
		corr, body, err := q.conn.Recv(q.max + ansWait + 5*time.Second)
		q.got = time.Now()
		if err == nil && corr != q.req.Corr {
			err = fmt.Errorf("correlation id %d", corr)
		}
		if err == nil {
			var resp any
			if resp, err = q.req.Decode(body); err == nil {
				q.resp = resp.(*wire.FetchResp)
			}
		}
		for i := 0; err == nil && i < q.Behind; i++ {
			if corr, _, err = q.conn.Recv(ansWait); err == nil {
				q.behind = append(q.behind, time.Now())
				if corr != q.req.Corr+int32(i)+1 {
					err = fmt.Errorf("request %d behind the fetch: correlation id %d", i, corr)
				}
			}
			if err != nil && q.resp != nil && !q.endB.IsZero() {
				err = nil // what was behind the fetch may be lost to the stop
				break
			}
		}
		q.err = err
	}()
	return nil
}

func (q *waiting) isDone() bool {
	select {
	case <-q.done:
		return true
	default:
		return false
	}
}

// settle notes what an event that began at b has satisfied.
func (r *waitRun) noteSat(b time.Time) {
	e := time.Now()
	for _, q := range r.ws {
		if q.satB.IsZero() && r.sat(q) {
			q.satB, q.satE = b, e
		}
	}
}

func (r *waitRun) event(ev waitEvent) error {
	s := r.c.Store.Slots[ev.Slot%len(r.c.Store.Slots)]
	b := time.Now()
	switch ev.Kind {
	case "post":
		recs := []ctl.Rec{}
		for i := 0; i <= ev.N%3; i++ {
			recs = append(recs, ev.Rec)
		}
		if err := r.post(s, recs); err != nil {
			return err
		}
		r.noteSat(b)
		return nil
	case "create":
		return r.create(s)
	case "setoff":
		return r.setoff("g", s, 3)
	case "meta":
		if err := r.judgeMeta(0); err != nil {
			return err
		}
	case "fetch":
		if err := r.judgeSlot(0, s); err != nil {
			return err
		}
	case "commit":
		if err := r.commitOne(0, "g", s, int64(ev.N)); err != nil {
			return err
		}
	case "connect":
		r.closeConn(0)
		if _, err := r.conn(0); err != nil {
			return err
		}
		if _, err := r.do(0, &wire.Req{ApiV: true}); err != nil {
			return err
		}
	}
	if d := time.Since(b); d > r.lag.slack() {
		return pbt.Latef("%s on another connection took %v while %d fetches wait", ev.Kind, d, len(r.ws))
	}
	return nil
}

func runWait(c waitCase, ctx *pbt.Ctx) error {
	w, err := newMock(false, true)
	if err != nil {
		return err
	}
	defer w.close()
	if err := w.fill(c.Store); err != nil {
		return err
	}
	switch c.Before {
	case "finish restart":
		if _, err = w.call(ctl.Cmd{Op: "finish"}); err != nil {
			return err
		}
		fallthrough
	case "restart":
		w.closeConns()
		_, err = w.call(ctl.Cmd{Op: "restart"})
	case "stop start":
		w.closeConns()
		if _, err = w.call(ctl.Cmd{Op: "stopwait"}); err == nil {
			if err = w.start(); err == nil {
				_, err = w.conn(0)
			}
		}
	}
	if err != nil {
		return err
	}
	r := &waitRun{World: w, c: c, ctx: ctx, lag: startLag()}
	defer close(r.lag.stop)
	defer func() {
		for _, q := range r.ws {
			q.conn.Close()
			<-q.done
		}
	}()
	if c.Duel != nil {
		if err := r.duel(c.Duel); err != nil {
			return err
		}
	}
	// waiters and events in order of time
	t0 := time.Now()
	for i := 0; i < c.Crowd; i++ {
		if err := r.launch(c.Waiters[0]); err != nil {
			return err
		}
	}
	ctx.ClassIf(c.Crowd > 0, "crowd")
	ctx.ClassIf(c.EndAt > 1000, fmt.Sprintf("nothing for %d s", c.EndAt/1000))
	t0 = time.Now()
	wi, ei := 0, 0
	last := 0
	for wi < len(c.Waiters) || ei < len(c.Events) {
		if ei == len(c.Events) || wi < len(c.Waiters) && c.Waiters[wi].Start <= c.Events[ei].At {
			last = c.Waiters[wi].Start
			time.Sleep(time.Until(t0.Add(time.Duration(last) * time.Millisecond)))
			if err := r.launch(c.Waiters[wi]); err != nil {
				return err
			}
			wi++
			continue
		}
		ev := c.Events[ei]
		last = ev.At
		time.Sleep(time.Until(t0.Add(time.Duration(last) * time.Millisecond)))
		if err := r.event(ev); err != nil {
			return fmt.Errorf("event %d (%s, %d ms): %w", ei, ev.Kind, ev.At, err)
		}
		ei++
	}
	// those that wait long are brought to an end
	long := false
	for _, q := range r.ws {
		long = long || q.satB.IsZero() && q.max > 3*time.Second
	}
	if long || c.End != "post" && c.End != "leave" {
		// the requests must be there for certain
		time.Sleep(time.Duration(c.EndAt) * time.Millisecond)
		for _, q := range r.ws {
			if d := 150*time.Millisecond - time.Since(q.sent); d > 0 {
				time.Sleep(d)
			}
		}
		b := time.Now()
		switch c.End {
		case "finish", "cancel", "stop", "restart":
			for _, q := range r.ws {
				if !q.isDone() {
					q.endB = b
				}
			}
			op := c.End
			if op == "stop" {
				op = "stopwait"
			}
			r.closeConns()
			if _, err := r.call(ctl.Cmd{Op: op}); err != nil {
				return err
			}
			for _, q := range r.ws {
				if !q.endB.IsZero() {
					q.endE = time.Now()
				}
			}
		case "leave":
			for _, q := range r.ws {
				if q.satB.IsZero() && q.max > 3*time.Second {
					if q.isDone() {
						continue // judged below
					}
					q.conn.Close()
					<-q.done
					q.err = nil
					q.resp = nil
				}
			}
		default: // post everywhere
			for round := 0; round < 12; round++ {
				for _, s := range c.Store.Slots {
					b := time.Now()
					if err := r.post(s, []ctl.Rec{{Value: wire.Blob{N: 2, Seed: 5}, Ext: true, Ms: 4}}); err != nil {
						return err
					}
					r.noteSat(b)
				}
			}
			for _, q := range r.ws { // a limit too small for anything, or nothing that exists
				if q.satB.IsZero() && q.max > 3*time.Second && !q.isDone() {
					q.conn.Close()
					<-q.done
					q.err, q.resp = nil, nil
				}
			}
		}
	}
	for i, q := range r.ws {
		<-q.done
		if err := r.judge(q); err != nil {
			return fmt.Errorf("fetch %d (wait %d ms, sent at %d ms): %w", i, q.Ms, q.sent.Sub(t0).Milliseconds(), err)
		}
	}
	return nil
}

func (r *waitRun) judge(q *waiting) error {
	if q.err == nil && q.resp == nil {
		return nil // left
	}
	if q.err != nil {
		if !q.endB.IsZero() && errors.Is(q.err, wire.ErrClosed) && r.s.WhyDead(100*time.Millisecond) == nil {
			return pbt.Latef("dropped without an answer by %s: %v", r.c.End, q.err)
		}
		return r.exchangeErr("waiting", q.err)
	}
	// the answer itself
	n := 0
	recs := 0
	if len(q.resp.Topics) != len(q.req.Fetch.Topics) {
		return fmt.Errorf("answered with %d topics, asked for %d", len(q.resp.Topics), len(q.req.Fetch.Topics))
	}
	for i, t := range q.req.Fetch.Topics {
		rt := q.resp.Topics[i]
		if rt.Topic != t.Topic || len(rt.Parts) != len(t.Parts) {
			return fmt.Errorf("topic %d answered with %q and %d partitions", i, rt.Topic, len(rt.Parts))
		}
		for j, p := range t.Parts {
			s := Slot{t.Topic, p.Part}
			rp := rt.Parts[j]
			if rp.Part != p.Part {
				return fmt.Errorf("%v answered with partition %d", s, rp.Part)
			}
			if r.mod.exists(s) != (rp.Err == 0) {
				return fmt.Errorf("%v: error %d", s, rp.Err)
			}
			msgs, err := wire.Messages(rp.Set)
			if err != nil {
				return fmt.Errorf("%v: %w", s, err)
			}
			if err := checkRun(s, r.mod.Parts[s], p.Off, msgs); err != nil {
				return err
			}
			recs += len(msgs)
			n++
		}
	}
	late := func(since time.Time, what string) error {
		if d := q.got.Sub(since); d > r.lag.slack() {
			return pbt.Latef("answered %v after %s", d, what)
		}
		return nil
	}
	took := q.got.Sub(q.sent)
	ended := !q.endB.IsZero()
	expiry := q.sent.Add(q.max)
	r.ctx.ClassIf(q.Behind > 0, "requests pipelined behind")
	if recs > 0 {
		if q.satB.IsZero() {
			return fmt.Errorf("answered with %d records when there was nothing to return", recs)
		}
		if q.got.Before(q.satB) {
			return fmt.Errorf("answered with %d records before they were posted", recs)
		}
		r.ctx.NonTrivial()
		if q.satB == q.sent {
			r.ctx.Class("answered at once")
			return late(q.sent, "it was sent though there was something to return")
		}
		r.ctx.Class("answered on a post")
		return late(q.satE, "what it waited for was posted")
	}
	// without records
	if q.satE == q.sent && !q.satB.IsZero() {
		return fmt.Errorf("answered after %v without records though there was something to return from the start", took)
	}
	early := took < q.max
	if ended && !q.got.Before(q.endB) {
		if q.satB.IsZero() || q.satB.After(expiry) {
			r.ctx.NonTrivial()
			r.ctx.Class("ended by " + r.c.End)
			return late(q.endE, r.c.End)
		}
		// satisfied before the end, but perhaps only just
		if q.endB.Sub(q.satE) > r.lag.slack() {
			return pbt.Latef("not answered within %v of the post it waited for, but by %s", q.endB.Sub(q.satE), r.c.End)
		}
		return nil
	}
	if early {
		return fmt.Errorf("answered without records after %v, %v were asked for", took, q.max)
	}
	if !q.satE.IsZero() && expiry.Sub(q.satE) > r.lag.slack() {
		return pbt.Latef("answered without records %v after what it waited for was posted", q.got.Sub(q.satE))
	}
	r.ctx.NonTrivial()
	r.ctx.Class("waited to the end")
	r.ctx.ClassIf(q.errs, "waited to the end with nothing that exists")
	return late(expiry, "its wait time")
}

func genWait(t *rapid.T) waitCase {
	c := waitCase{Store: genStore(1, 4, 300, false).Draw(t, "store")}
	n := len(c.Store.Slots)
	entry := rapid.Custom(func(t *rapid.T) waitEntry {
		e := waitEntry{Slot: rapid.IntRange(0, n-1).Draw(t, "slot")}
		if rapid.IntRange(0, 11).Draw(t, "unknown") == 0 {
			e.Slot = -1 - e.Slot
		}
		switch rapid.IntRange(0, 9).Draw(t, "where") {
		case 0:
			e.Ahead = -rapid.IntRange(1, 3).Draw(t, "back")
		case 1, 2:
			e.Ahead = rapid.IntRange(1, 3).Draw(t, "ahead")
		}
		e.Max = bigMax
		if rapid.IntRange(0, 3).Draw(t, "limited") == 0 {
			e.Max = genMax().Draw(t, "max")
		}
		return e
	})
	c.Before = rapid.SampledFrom([]string{"", "", "", "", "", "restart", "finish restart", "stop start"}).Draw(t, "before")
	least := 1
	if rapid.IntRange(0, 5).Draw(t, "may be empty") == 0 {
		least = 0
	}
	at := 0
	for i, k := 0, rapid.IntRange(1, 6).Draw(t, "waiters"); i < k; i++ {
		at += rapid.SampledFrom([]int{0, 0, 1, 10, 40}).Draw(t, "gap")
		c.Waiters = append(c.Waiters, waiter{Start: at, Entries: rapid.SliceOfN(entry, least, 4).Draw(t, "entries"),
			Ms:     rapid.SampledFrom([]int32{0, 1, 5, 20, 50, 100, 100, 250, 30000, 30000, 30000, 1<<31 - 1, -1, -1 << 31, 700}).Draw(t, "wait"),
			Min:    rapid.SampledFrom([]int32{0, 1, 1, 1000000, -1}).Draw(t, "min"),
			Behind: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "behind")})
	}
	at = 0
	for i, k := 0, rapid.IntRange(0, 6).Draw(t, "events"); i < k; i++ {
		at += rapid.SampledFrom([]int{0, 5, 15, 30, 60, 110}).Draw(t, "gap")
		ev := waitEvent{At: at, Kind: rapid.SampledFrom([]string{"post", "post", "post", "create", "setoff", "meta", "fetch", "commit", "connect"}).Draw(t, "kind"), Slot: rapid.IntRange(0, n-1).Draw(t, "slot")}
		switch ev.Kind {
		case "post":
			ev.Rec = genRec(300).Draw(t, "rec")
			ev.N = rapid.IntRange(0, 2).Draw(t, "n")
		case "commit":
			ev.N = rapid.IntRange(0, 9).Draw(t, "val")
		}
		c.Events = append(c.Events, ev)
	}
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		// a few fetches that wait for seconds
		c.Waiters = c.Waiters[:min(3, len(c.Waiters))]
		for i := range c.Waiters {
			c.Waiters[i].Ms = rapid.SampledFrom([]int32{901, 1300, 1750, 2500, 3333, 30000}).Draw(t, "long wait")
		}
		at := 0
		for i := range c.Events {
			at += rapid.SampledFrom([]int{0, 250, 500, 900, 1400}).Draw(t, "long gap")
			if at > 4000 {
				c.Events = c.Events[:i]
				break
			}
			c.Events[i].At = at
		}
	}
	if rapid.IntRange(0, 23).Draw(t, "crowded") == 17 {
		c.Crowd = rapid.IntRange(8, 60).Draw(t, "crowd")
		c.Waiters[0].Ms, c.Waiters[0].Behind = rapid.SampledFrom([]int32{250, 30000, 1<<31 - 1}).Draw(t, "crowd wait"), 0
	}
	c.End = rapid.SampledFrom([]string{"post", "post", "leave", "leave", "finish", "stop", "restart", "cancel"}).Draw(t, "end")
	c.EndAt = rapid.SampledFrom([]int{0, 0, 20, 60}).Draw(t, "end at")
	if rapid.IntRange(0, 47).Draw(t, "patient") == 31 {
		// waits of many seconds
		waits, end := []int32{5100, 7700, 5100, 30000, 1<<31 - 1}, 8000
		switch rapid.IntRange(0, 7).Draw(t, "how patient") {
		case 2, 3:
			waits, end = []int32{15200, 10300, 20100, 1<<31 - 1}, 20400
		case 5:
			waits, end = []int32{30900, 45000, 30100, 1<<31 - 1}, 31200
		}
		for i := range c.Waiters {
			c.Waiters[i].Ms = rapid.SampledFrom(waits).Draw(t, "patience")
		}
		c.EndAt = end
	}
	if rapid.IntRange(0, 11).Draw(t, "duel") == 7 {
		c.Duel = &duel{Rounds: rapid.IntRange(20, 60).Draw(t, "rounds"), Conns: rapid.IntRange(2, 8).Draw(t, "conns"), Entries: rapid.SampledFrom([]int{1, 2, 1, 5, 30}).Draw(t, "partitions"),
			Us: rapid.SliceOfN(rapid.IntRange(-250, 250), 1, 40).Draw(t, "delays")}
		c.Duel.Ends = rapid.SampledFrom([]int{0, 8, 0, 0}).Draw(t, "ends")
	}
	return c
}

func TestC04(t *testing.T) {
	pbt.Check(t, pbt.Prop[waitCase]{
		ID:    "C04",
		Rule:  "A case is 1-6 fetches (sometimes up to 60 more) on their own connections (1-4 partitions each at, before or after the end of the log, waits from negative to 2^31-1 ms, byte limits around record sizes, requests pipelined behind), sometimes 20-60 rounds of fetches sent within a quarter of a millisecond of the post they wait for, and a timeline of posts and requests of others, ended by a post, finish, cancellation of the mock's lane, stop, restart or the clients leaving; for each fetch the moment when it has something to return is computed from the model: it must not be answered before that, its wait time or the finish, nor (within 0.6 s plus four times the measured scheduling delay, three times in a row) much after; non-trivial if a fetch waited to the end, was answered by records or by a finish.",
		Gen:   genWait,
		Run:   runWait,
		Fresh: fresh,
		Vary:  setVary,
	})
}
