package bb

// The properties of connections: C10 (framing and order), C19 (every valid
// request is answered).

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"

	"pgregory.net/rapid"
)

// Cut is one piece of a byte stream: N bytes, then a pause.
type Cut struct {
	N  int
	Ms int `json:",omitempty"`
}

// sendCut writes the stream in pieces; what the cuts leave goes in one piece.
func sendCut(c *wire.Conn, stream []byte, cuts []Cut) error {
	for _, k := range cuts {
		n := k.N
		if n > len(stream) {
			n = len(stream)
		}
		if n > 0 {
			if err := c.Send(stream[:n]); err != nil {
				return err
			}
			stream = stream[n:]
		}
		if k.Ms > 0 && len(stream) > 0 {
			time.Sleep(time.Duration(k.Ms) * time.Millisecond)
		}
	}
	if len(stream) > 0 {
		return c.Send(stream)
	}
	return nil
}

// ---- C10

type streamCase struct {
	Store    Store
	Reqs     []RSpec
	Cuts     []Cut
	Times    int   `json:",omitempty"` // all of it so many times more
	Lazy     *Lazy `json:",omitempty"` // the client takes its time to read
	Idle     *Idle `json:",omitempty"` // before that: many connections that pause
	Marathon int   `json:",omitempty"` // before that: so many small requests on one connection
}

// Idle: Conns connections, in different states, on which nothing happens for Ms.
type Idle struct{ Conns, Ms int }

func (d *Idle) run(w *World, reqs []RSpec) error {
	slot := Slot{"idle", 0}
	if err := w.create(slot); err != nil {
		return err
	}
	used := func(c *wire.Conn, r *wire.Req) error {
		if err := c.Send(r.Encode()); err != nil {
			return w.exchangeErr("sending", err)
		}
		corr, body, err := c.Recv(ansWait)
		if err == nil && corr != r.Corr {
			err = fmt.Errorf("correlation id %d, not %d", corr, r.Corr)
		}
		if err == nil {
			_, err = r.Decode(body)
		}
		if err != nil {
			return w.exchangeErr(r.Name(), err)
		}
		return nil
	}
	type one struct {
		c    *wire.Conn
		r    *wire.Req
		rest []byte
	}
	var all []*one
	defer func() {
		for _, o := range all {
			o.c.Close()
		}
	}()
	for i := 0; i < d.Conns; i++ {
		c, err := wire.Dial(w.port, ansWait)
		if err != nil {
			return w.exchangeErr(fmt.Sprintf("connecting a %d. client", i+1), err)
		}
		r := &wire.Req{ApiV: true, Corr: int32(i)}
		if s := reqs[i%len(reqs)]; s.Grow <= 10 && s.Huge == 0 {
			s.Pad = 0
			r = s.req()
		}
		o := &one{c, r, nil}
		all = append(all, o)
		if i%5 >= 3 {
			if err := used(c, r); err != nil {
				return err
			}
		}
		e := r.Encode()
		switch i % 5 {
		case 1, 3: // in the middle of a request
			k := 1 + i*7%(len(e)-1)
			if err := c.Send(e[:k]); err != nil {
				return w.exchangeErr("sending", err)
			}
			o.rest = e[k:]
		case 2:
			o.r, o.rest = fetchReq(600000, slot, 0, 1000), []byte{}
			if err := c.Send(o.r.Encode()); err != nil {
				return w.exchangeErr("sending", err)
			}
		}
	}
	time.Sleep(time.Duration(d.Ms) * time.Millisecond)
	if err := w.post(slot, []ctl.Rec{{Value: wire.Blob{N: 5}}}); err != nil {
		return err
	}
	for i, o := range all {
		what := fmt.Sprintf("after %d ms without traffic on %d connections, %d", d.Ms, d.Conns, i)
		if o.rest != nil {
			if err := o.c.Send(o.rest); err != nil {
				return w.exchangeErr(what+": sending", err)
			}
			if corr, _, err := o.c.Recv(ansWait); err != nil || corr != o.r.Corr {
				return w.exchangeErr(what, fmt.Errorf("%s in two parts: correlation id %d: %w", o.r.Name(), corr, err))
			}
		}
		if err := used(o.c, &wire.Req{ApiV: true, Corr: 99}); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	return w.judgeAll(0)
}

// marathon: n small requests on one connection, each answered like its like
// among the first.
func marathon(w *World, n int) error {
	slot := Slot{"marathon", 0}
	if err := w.post(slot, []ctl.Rec{{Value: wire.Blob{N: 9}}}); err != nil {
		return err
	}
	kinds := []*wire.Req{
		{ApiV: true},
		{Heartbeat: &wire.HeartbeatReq{Group: "g", Gen: 1, Member: "1"}},
		fetchReq(0, slot, 0, 1000),
		{Coord: &wire.CoordReq{Key: "g"}},
		{OFetch: &wire.OFetchReq{Group: "g", Topics: []wire.OFetchTopic{{Topic: slot.Topic, Parts: []int32{0}}}}},
		{Meta: &wire.MetaReq{Topics: []string{slot.Topic}}},
		{Leave: &wire.LeaveReq{Group: "g", Member: "1"}},
	}
	c, err := wire.Dial(w.port, ansWait)
	if err != nil {
		return w.exchangeErr("connecting", err)
	}
	defer c.Close()
	corr := func(i int) int32 { return int32(i*65537 + 7) }
	sent := make(chan error, 1)
	go func() {
		var buf []byte
		for i := 0; i < n; i++ {
			r := *kinds[i%len(kinds)]
			r.Corr = corr(i)
			buf = append(buf, r.Encode()...)
			if len(buf) > 5000 || i == n-1 {
				if err := c.Send(buf); err != nil {
					sent <- err
					return
				}
				buf = buf[:0]
			}
		}
		sent <- nil
	}()
	first := make([]string, len(kinds))
	for i := 0; i < n; i++ {
		got, body, err := c.Recv(ansWait)
		if err != nil {
			return w.exchangeErr(fmt.Sprintf("request %d of %d on one connection (%s)", i, n, kinds[i%len(kinds)].Name()), err)
		}
		if got != corr(i) {
			return fmt.Errorf("request %d of %d on one connection: correlation id %d, not %d", i, n, got, corr(i))
		}
		k := i % len(kinds)
		if i < len(kinds) {
			if _, err := kinds[k].Decode(body); err != nil {
				return fmt.Errorf("%s: %w", kinds[k].Name(), err)
			}
			first[k] = string(body)
		} else if first[k] != string(body) {
			return fmt.Errorf("request %d of %d on one connection (%s) is answered with %.200q, the first one with %.200q", i, n, kinds[k].Name(), body, first[k])
		}
	}
	if err := <-sent; err != nil {
		return w.exchangeErr("sending", err)
	}
	return nil
}

// Lazy: large answers (Big fetches of MBs before the rest) are left unread for
// Ms, and then read in pieces with pauses.
type Lazy struct {
	Ms, Big int
	Drip    bool `json:",omitempty"`
}

func genCuts(t *rapid.T, long bool) []Cut {
	cuts := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Cut {
		var c Cut
		switch rapid.IntRange(0, 5).Draw(t, "cut kind") {
		case 0:
			c.N = rapid.IntRange(1, 8).Draw(t, "n")
		case 1:
			c.N = rapid.SampledFrom([]int{4, 8, 12, 14, 4095, 4096, 4097, 8191, 8192, 8193, 16384}).Draw(t, "n")
		default:
			c.N = rapid.IntRange(1, 120).Draw(t, "n")
		}
		c.Ms = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 5}).Draw(t, "ms")
		return c
	}), 0, 25).Draw(t, "cuts")
	if long && len(cuts) > 0 && rapid.IntRange(0, 39).Draw(t, "long pause") == 0 {
		cuts[rapid.IntRange(0, len(cuts)-1).Draw(t, "at")].Ms = 1150 // longer than any poll of the server's
	}
	return cuts
}

func runStream(c streamCase, ctx *pbt.Ctx) error {
	a, err := newMock(false, true)
	if err != nil {
		return err
	}
	defer a.close()
	b, err := newMock(false, true)
	if err != nil {
		return err
	}
	defer b.close()
	for _, w := range []*World{a, b} {
		if err := w.fill(c.Store); err != nil {
			return err
		}
	}
	if c.Idle != nil {
		ctx.Class(fmt.Sprintf("connections idle for %d s", c.Idle.Ms/1000))
		ctx.ClassIf(c.Idle.Conns > 100, "over 100 connections")
		w, err := newMock(false, true)
		if err != nil {
			return err
		}
		defer w.close()
		if err := w.fill(c.Store); err != nil {
			return err
		}
		if err := c.Idle.run(w, c.Reqs); err != nil {
			return err
		}
	}
	if c.Marathon > 0 {
		ctx.Class(fmt.Sprintf("over %d requests on a connection", c.Marathon/10000*10000))
		w, err := newMock(false, true)
		if err != nil {
			return err
		}
		defer w.close()
		if err := marathon(w, c.Marathon); err != nil {
			return err
		}
	}
	type seg struct { // sent when this many answers are there
		after int
		bytes []byte
	}
	segs := []seg{{}}
	var reqs []*wire.Req
	cuts := c.Cuts
	maxSize := 0
	specs := c.Reqs
	for i := 0; i < c.Times && i*len(c.Reqs) < 2000; i++ {
		specs = append(specs[:len(specs):len(specs)], c.Reqs...)
	}
	if c.Lazy != nil {
		var recs []ctl.Rec
		for i := 0; i < 6; i++ {
			recs = append(recs, ctl.Rec{Value: wire.Blob{N: 1000000, Seed: uint32(i)}, Ext: true, Ms: 5})
		}
		for _, w := range []*World{a, b} {
			if err := w.post(bigSlot, recs); err != nil {
				return err
			}
		}
		var big []RSpec
		for i := 0; i < c.Lazy.Big; i++ {
			big = append(big, RSpec{R: *fetchReq(0, bigSlot, int64(i%3), 64<<20)})
		}
		specs = append(big, specs...)
		ctx.Class("reader that takes its time")
	}
	for i, s := range specs {
		r := s.req()
		if i >= len(c.Reqs) {
			r.Corr += int32(i)
			if r.Fetch != nil { // no more waiting in the repetitions
				q := *r.Fetch
				q.WaitMs = 0
				r.Fetch = &q
			}
		}
		reqs = append(reqs, r)
		e := r.Encode()
		if len(e) > maxSize {
			maxSize = len(e)
		}
		if c.Times > 0 || c.Lazy != nil {
			s.Pad = 0 // no waiting in between
		}
		if s.Pad > 0 && len(segs[len(segs)-1].bytes) > 0 {
			segs = append(segs, seg{after: len(reqs) - 1})
		}
		segs[len(segs)-1].bytes = append(segs[len(segs)-1].bytes, e...)
		if s.Pad > 0 {
			segs = append(segs, seg{after: len(reqs)})
			ctx.Class(fmt.Sprintf("request of a multiple of %d bytes, answer awaited", s.Pad))
		}
	}
	ping := &wire.Req{ApiV: true, Corr: 0x5EED}
	reqs = append(reqs, ping)
	segs[len(segs)-1].bytes = append(segs[len(segs)-1].bytes, ping.Encode()...)
	ctx.ClassIf(maxSize > 1<<20, "request over 1 MB")
	ctx.ClassIf(maxSize > 4096, "request over 4 KB")
	ctx.ClassIf(maxSize > 60000, "request over 60 KB")
	ctx.ClassIf(len(reqs) > 100, "over 100 requests")
	ctx.ClassIf(len(cuts) == 0, "all requests in one piece")
	for _, k := range cuts {
		ctx.ClassIf(k.Ms > 1000, "pause over 1 s")
	}
	if len(c.Reqs) >= 2 && (len(cuts) >= 1 || len(c.Reqs) >= 3) {
		ctx.NonTrivial()
	}

	conn, err := a.conn(0)
	if err != nil {
		return err
	}
	var wg sync.WaitGroup
	var sendErr error
	wg.Add(1)
	answers := make(chan struct{}, len(reqs))
	gone := make(chan struct{})
	go func() {
		defer wg.Done()
		n := 0
		for i, s := range segs {
			for ; n < s.after; n++ {
				select {
				case <-answers:
				case <-gone:
					return
				}
			}
			if sendErr = sendCut(conn, s.bytes, cuts); sendErr != nil {
				return
			}
			if i == 0 {
				cuts = nil // the others in one piece each
			}
		}
	}()
	type answer struct {
		corr int32
		body []byte
	}
	var got []answer
	var recvErr error
	if c.Lazy != nil {
		time.Sleep(time.Duration(c.Lazy.Ms) * time.Millisecond)
	}
	for i := range reqs {
		if c.Lazy != nil && c.Lazy.Drip && i < c.Lazy.Big {
			if err := conn.Drip(3, 40*time.Millisecond, ansWait); err != nil {
				recvErr = err
				conn.Close()
				close(gone)
				break
			}
		}
		corr, body, err := conn.Recv(ansWait)
		if err != nil {
			recvErr = err
			conn.Close() // ends the sender
			close(gone)
			break
		}
		got = append(got, answer{corr, body})
		answers <- struct{}{}
	}
	wg.Wait()
	if recvErr != nil {
		return a.exchangeErr(fmt.Sprintf("answer %d of %d (%s)", len(got), len(reqs), reqs[len(got)].Name()), recvErr)
	}
	if sendErr != nil {
		return a.exchangeErr("sending", sendErr)
	}
	bc, err := b.conn(0)
	if err != nil {
		return err
	}
	for i, r := range reqs {
		g := got[i]
		if g.corr != r.Corr {
			return fmt.Errorf("answer %d has correlation id %d, request %d (%s) has %d", i, g.corr, i, r.Name(), r.Corr)
		}
		if err := bc.Send(r.Encode()); err != nil {
			return b.exchangeErr("request "+r.Name()+" alone", err)
		}
		corr, body, err := bc.Recv(ansWait)
		if err != nil {
			return b.exchangeErr(fmt.Sprintf("request %d (%s, %d bytes) alone", i, r.Name(), len(r.Encode())), err)
		}
		if corr != r.Corr {
			return fmt.Errorf("request %d (%s) alone: correlation id %d answered with %d", i, r.Name(), r.Corr, corr)
		}
		x, err := canon(r.Key(), g.body)
		if err != nil {
			return fmt.Errorf("answer %d: %w", i, err)
		}
		y, err := canon(r.Key(), body)
		if err != nil {
			return fmt.Errorf("request %d alone: %w", i, err)
		}
		if x != y {
			k := 0
			for k < len(x) && k < len(y) && x[k] == y[k] {
				k++
			}
			if k > 60 {
				x, y = x[k-60:], y[k-60:]
			}
			return fmt.Errorf("request %d (%s): answer in the stream ...%.300s, alone ...%.300s", i, r.Name(), x, y)
		}
	}
	if len(conn.Rest()) > 0 {
		return fmt.Errorf("%d surplus bytes after the last answer", len(conn.Rest()))
	}
	return nil
}

func TestC10(t *testing.T) {
	pbt.Check(t, pbt.Prop[streamCase]{
		ID:   "C10",
		Rule: "A case is a store and 1-12 requests of all served APIs (sizes from minimal to hundreds of KB), sent to one mock as one byte stream cut into arbitrary pieces with pauses (none, some ms, over a second) - sometimes the list many times over (thousands of requests in one stream), sometimes after tens of thousands of others on a connection, sometimes behind answers of MBs that the client is slow to read -, and to an identical second mock one at a time; every answer must come once, in order, with its correlation id, and be the same from both; now and then up to 270 connections in all states are left without traffic for up to 10 s first, and must serve on; non-trivial with at least two requests and a cut, or three pipelined.",
		Gen: func(t *rapid.T) streamCase {
			c := streamCase{Store: genStore(1, 5, 20000, true).Draw(t, "store")}
			groups := rapid.SliceOfNDistinct(rapid.SampledFrom(groupPool), 1, 2, rapid.ID[string]).Draw(t, "groups")
			c.Reqs = rapid.SliceOfN(genReq(c.Store.Slots, groups, 15, rapid.IntRange(0, 3).Draw(t, "extreme") == 0), 1, 12).Draw(t, "requests")
			if rapid.IntRange(0, 3).Draw(t, "pieces") > 0 {
				c.Cuts = genCuts(t, true)
			}
			small := true
			for _, r := range c.Reqs {
				small = small && r.Grow <= 10 && r.Huge == 0
			}
			if rapid.IntRange(0, 63).Draw(t, "idle conns") == 43 {
				c.Idle = &Idle{Conns: rapid.SampledFrom([]int{5, 5, 20, 70, 140, 270}).Draw(t, "conns"), Ms: rapid.SampledFrom([]int{0, 0, 1150, 2300, 3400, 5300, 10400}).Draw(t, "ms")}
			}
			switch k := rapid.IntRange(0, 31).Draw(t, "further"); {
			case k == 27:
				c.Lazy = &Lazy{Ms: rapid.SampledFrom([]int{0, 60, 300, 1150, 2300}).Draw(t, "idle"), Big: rapid.IntRange(1, 4).Draw(t, "big"), Drip: rapid.Bool().Draw(t, "drip")}
			case k >= 29 && small:
				c.Times = rapid.SampledFrom([]int{10, 30, 100, 300}).Draw(t, "times")
			case k == 22:
				c.Marathon = rapid.SampledFrom([]int{33001, 5001, 66001, 70001}).Draw(t, "marathon")
			}
			return c
		},
		Run:   runStream,
		Fresh: fresh,
		Vary:  setVary,
	})
}

// ---- C19

type reqCase struct {
	Store Store
	Steps []reqStep
}

type reqStep struct {
	RSpec
	Conn int
	Long bool `json:",omitempty"` // the longest wait, if data is sure to be there
}

func runReqs(c reqCase, ctx *pbt.Ctx) error {
	w, err := newMock(false, true)
	if err != nil {
		return err
	}
	defer w.close()
	if err := w.fill(c.Store); err != nil {
		return err
	}
	used := map[int]bool{}
	for i, s := range c.Steps {
		r := s.req()
		if s.Long && r.Fetch != nil && w.fits(r.Fetch) {
			q := *r.Fetch
			q.WaitMs = 1<<31 - 1
			r.Fetch = &q
			ctx.Class("fetch with the longest wait")
		}
		e := r.Encode()
		what := fmt.Sprintf("request %d (%s, %d bytes)", i, r.Name(), len(e))
		conn, err := w.conn(s.Conn)
		if err != nil {
			return err
		}
		if err := conn.Send(e); err != nil {
			return w.exchangeErr(what, err)
		}
		corr, body, err := conn.Recv(ansWait)
		if err != nil {
			return w.exchangeErr(what, err)
		}
		if corr != r.Corr {
			return fmt.Errorf("%s: correlation id %d answered with %d", what, r.Corr, corr)
		}
		resp, err := r.Decode(body)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := wellFormed(resp); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		used[s.Conn] = true
		ctx.Class(r.Name())
		ctx.ClassIf(len(e) > 4096, "request over 4 KB")
		ctx.ClassIf(len(body) > 1<<20, "response over 1 MB")
		ctx.ClassIf(r.Client == nil, "null client id")
	}
	if len(c.Steps) >= 2 {
		ctx.NonTrivial()
	}
	for i := range used {
		if _, err := w.do(i, &wire.Req{ApiV: true}); err != nil {
			return fmt.Errorf("connection %d afterwards: %w", i, err)
		}
		if n := len(w.conns[i].Rest()); n > 0 {
			return fmt.Errorf("connection %d: %d surplus bytes", i, n)
		}
	}
	return nil
}

// wellFormed looks into the opaque parts of an answer.
func wellFormed(resp any) error {
	switch f := resp.(type) {
	case *wire.FetchResp:
		for _, t := range f.Topics {
			for _, p := range t.Parts {
				if _, err := strictSet(p.Set); err != nil {
					return fmt.Errorf("message set of %q/%d: %w", t.Topic, p.Part, err)
				}
			}
		}
	case *wire.SyncResp:
		if _, err := wire.ParseAssignment(f.Assignment); err != nil {
			return err
		}
	}
	return nil
}

func TestC19(t *testing.T) {
	pbt.Check(t, pbt.Prop[reqCase]{
		ID:   "C19",
		Rule: "A case is a store and 1-15 schema-conforming requests of all served APIs with null, empty, repeated, very long (32767-byte strings, thousands of entries, 300 KB byte fields) and extreme numeric fields, on 1-3 connections; each must be answered with its correlation id and a body that a strict independent parser consumes exactly; non-trivial with at least two requests.",
		Gen: func(t *rapid.T) reqCase {
			maxVal := 30000
			if rapid.IntRange(0, 19).Draw(t, "huge records") == 0 {
				maxVal = 1500000
			}
			c := reqCase{Store: genStore(1, 6, maxVal, false).Draw(t, "store")}
			if maxVal > 1000000 {
				c.Store.Recs[0] = append(c.Store.Recs[0], []ctl.Rec{{Key: wire.Blob{N: 100000}, Value: wire.Blob{N: maxVal}}}...)
			}
			groups := []string{genName.Draw(t, "group"), "g"}
			step := rapid.Custom(func(t *rapid.T) reqStep {
				s := reqStep{RSpec: genReq(c.Store.Slots, groups, 10, true).Draw(t, "request"), Conn: rapid.IntRange(0, 2).Draw(t, "conn")}
				s.Long = rapid.IntRange(0, 3).Draw(t, "long wait") == 0
				return s
			})
			c.Steps = rapid.SliceOfN(step, 1, 15).Draw(t, "steps")
			return c
		},
		Run:   runReqs,
		Fresh: fresh,
		Vary:  setVary,
	})
}
