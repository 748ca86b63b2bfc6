package bb

// C22: what a mock has served it does not keep.

import (
	"fmt"
	"testing"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"

	"pgregory.net/rapid"
)

// memCase: one kind of traffic, repeated.
type memCase struct {
	Store Store
	Kind  string // serve, clients, cycle, api, waits, mocks
	Reqs  []RSpec
	N     int
	Conns int    `json:",omitempty"`
	End   string `json:",omitempty"` // clients: how they leave
	Fresh bool   // other client ids, members and unknown names every time
}

func (w *World) slotAt(c memCase, i int) Slot { return c.Store.Slots[i%len(c.Store.Slots)] }

// renew gives the request names that were not used before.
func renew(r *wire.Req, slots map[string]bool, i int) {
	s := fmt.Sprintf("-%d", i)
	c := "c" + s
	r.Client = &c
	r.Corr = int32(i)
	name := func(t string) string {
		if slots[t] {
			return t
		}
		return "unknown" + s
	}
	switch {
	case r.Fetch != nil:
		q := *r.Fetch
		q.Topics = append([]wire.FetchTopic{}, q.Topics...)
		for k := range q.Topics {
			q.Topics[k].Topic = name(q.Topics[k].Topic)
		}
		r.Fetch = &q
	case r.List != nil:
		q := *r.List
		q.Topics = append([]wire.ListTopic{}, q.Topics...)
		for k := range q.Topics {
			q.Topics[k].Topic = name(q.Topics[k].Topic)
		}
		r.List = &q
	case r.Meta != nil:
		q := *r.Meta
		if q.Topics != nil {
			q.Topics = append([]string{}, q.Topics...)
		}
		for k := range q.Topics {
			q.Topics[k] = name(q.Topics[k])
		}
		r.Meta = &q
	case r.Commit != nil:
		q := *r.Commit
		q.Topics = append([]wire.CommitTopic{}, q.Topics...)
		for k := range q.Topics {
			q.Topics[k].Topic = name(q.Topics[k].Topic)
			ps := append([]wire.CommitPart{}, q.Topics[k].Parts...)
			for j := range ps {
				ps[j].Off += int64(i)
			}
			q.Topics[k].Parts = ps
		}
		q.Member, q.Gen = "m"+s, int32(i)
		r.Commit = &q
	case r.OFetch != nil:
		q := *r.OFetch
		q.Topics = append([]wire.OFetchTopic{}, q.Topics...)
		for k := range q.Topics {
			q.Topics[k].Topic = name(q.Topics[k].Topic)
		}
		r.OFetch = &q
	case r.Join != nil:
		q := *r.Join
		q.Member = "m" + s
		r.Join = &q
	case r.Sync != nil:
		q := *r.Sync
		q.Member, q.Gen = "m"+s, int32(i)
		r.Sync = &q
	case r.Heartbeat != nil:
		q := *r.Heartbeat
		q.Member, q.Gen = "m"+s, int32(i)
		r.Heartbeat = &q
	case r.Leave != nil:
		q := *r.Leave
		q.Member = "m" + s
		r.Leave = &q
	}
}

func runMem(c memCase, ctx *pbt.Ctx) error {
	w, err := newMock(false, true)
	if err != nil {
		return err
	}
	defer w.close()
	if err := w.fill(c.Store); err != nil {
		return err
	}
	known := map[string]bool{}
	for _, s := range c.Store.Slots {
		known[s.Topic] = true
	}
	seq := 0
	next := func() *wire.Req {
		r := c.Reqs[seq%len(c.Reqs)].req()
		r.Corr = int32(seq)
		if r.Fetch != nil && r.Fetch.WaitMs > 0 {
			q := *r.Fetch
			q.WaitMs = 0
			r.Fetch = &q
		}
		if c.Fresh {
			renew(r, known, seq)
		}
		seq++
		return r
	}
	// how much a round of requests moves
	bytes := 1
	for range c.Reqs {
		r := next()
		k, err := w.conn(0)
		if err != nil {
			return err
		}
		e := r.Encode()
		if err := k.Send(e); err != nil {
			return w.exchangeErr("sending", err)
		}
		_, body, err := k.Recv(ansWait)
		if err != nil {
			return w.exchangeErr(r.Name(), err)
		}
		bytes += len(e) + len(body)
	}
	n := min(c.N, 20+len(c.Reqs)*(8<<20)/bytes)
	ctx.Class(c.Kind)

	serve := func() error {
		for i := 0; i < c.Conns; i++ {
			k, err := w.conn(i)
			if err != nil {
				return err
			}
			var rs []*wire.Req
			for j := 0; j < n/c.Conns+1; j++ {
				rs = append(rs, next())
			}
			sent := make(chan error, 1)
			go func() {
				for len(rs) > 0 { // some at a time
					m := min(len(rs), 50)
					var out []byte
					for _, r := range rs[:m] {
						out = append(out, r.Encode()...)
					}
					rs = rs[m:]
					if err := k.Send(out); err != nil {
						sent <- err
						return
					}
				}
				sent <- nil
			}()
			for j, all := 0, len(rs); j < all; j++ {
				if _, _, err := k.Recv(ansWait); err != nil {
					return w.exchangeErr(fmt.Sprintf("answer %d of %d", j+1, all), err)
				}
			}
			if err := <-sent; err != nil {
				return w.exchangeErr("sending", err)
			}
		}
		return nil
	}
	clients := func() error {
		for i := 0; i < n; i++ {
			k, err := wire.Dial(w.port, ansWait)
			if err != nil {
				return w.exchangeErr("connecting", err)
			}
			e := next().Encode()
			end := c.End
			if end == "part" {
				e, end = e[:1+i%(len(e)-1)], "fin"
				if err := k.Send(e); err != nil {
					return w.exchangeErr("sending", err)
				}
			} else if end != "silent" {
				if err := k.Send(e); err != nil {
					return w.exchangeErr("sending", err)
				}
				if _, _, err := k.Recv(ansWait); err != nil {
					return w.exchangeErr("a client's request", err)
				}
			}
			if end == "rst" {
				k.Reset()
			} else {
				k.Close()
			}
		}
		return nil
	}
	cycle := func() error {
		w.closeConns()
		for i := 0; i < n; i++ {
			ops := []string{"restart"}
			switch c.End {
			case "stop":
				ops = []string{"stopwait", "start"}
			case "finish":
				ops = []string{"finish", "restart"}
			}
			for _, op := range ops {
				if _, err := w.call(ctl.Cmd{Op: op}); err != nil {
					return err
				}
			}
			if i%50 == 49 || i == n-1 {
				k, err := wire.Dial(w.port, ansWait)
				if err != nil {
					return w.exchangeErr("connecting", err)
				}
				if err := k.Send(next().Encode()); err != nil {
					return w.exchangeErr("sending", err)
				}
				if _, _, err := k.Recv(ansWait); err != nil {
					return w.exchangeErr("the request after a restart", err)
				}
				k.Close()
			}
		}
		return nil
	}
	api := func() error { // what is there already
		for i := 0; i < n; i += 50 {
			cs := make([]ctl.Cmd, 50)
			for j := range cs {
				s := c.Store.Slots[j%len(c.Store.Slots)]
				if j%3 == 0 {
					cs[j] = ctl.Cmd{Op: "setoff", M: w.m, Topic: s.Topic, Part: int(s.Part), Group: "g", Off: int64(i)}
				} else {
					cs[j] = ctl.Cmd{Op: "create", M: w.m, Topics: []string{s.Topic}, Part: int(s.Part)}
				}
			}
			if _, err := w.call(ctl.Cmd{Op: "par", Threads: [][]ctl.Cmd{cs}}); err != nil {
				return err
			}
		}
		return nil
	}
	waits := func() error { // nothing comes
		for i := 0; i < c.Conns*15; i++ {
			k, err := w.conn(i)
			if err != nil {
				return err
			}
			for j := 0; j < 12; j++ {
				r := fetchReq(int32(1+(i+j)%30), w.slotAt(c, i), 1<<40, 1000)
				seq++
				r.Corr = int32(seq)
				if len(c.Reqs)%2 == 0 {
					r.Fetch.Topics = append(r.Fetch.Topics, fetchReq(0, w.slotAt(c, i+1), 1<<40, 1000).Fetch.Topics...)
				}
				if err := k.Send(r.Encode()); err != nil {
					return w.exchangeErr("sending", err)
				}
			}
		}
		for i := 0; i < c.Conns*15; i++ {
			for j := 0; j < 12 && (i%4 > 0 || c.End != "leave"); j++ {
				if _, _, err := w.conns[i].Recv(ansWait); err != nil {
					return w.exchangeErr("a fetch that has to wait", err)
				}
			}
		}
		return nil
	}
	mocks := func() error { // other mocks come and go
		for i := 0; i < n; i++ {
			o, err := newMockOn(false, i%4 > 0, true, false)
			if err != nil {
				return err
			}
			if err := o.create(c.Store.Slots...); err != nil {
				return err
			}
			if i%4 > 0 {
				if _, err := o.do(0, &wire.Req{ApiV: true}); err != nil {
					return err
				}
			}
			o.close()
		}
		return nil
	}
	if c.Kind == "waits" {
		n = c.Conns * 180
	}
	phase := map[string]func() error{"serve": serve, "clients": clients, "cycle": cycle, "api": api, "waits": waits, "mocks": mocks}[c.Kind]
	measure := func() (ctl.Reply, error) {
		w.closeConns()
		if err := w.settle("clients leaving", func(r ctl.Reply) string {
			if r.Sockets > 1 {
				return fmt.Sprintf("%d sockets without clients", r.Sockets)
			}
			return ""
		}); err != nil {
			return ctl.Reply{}, err
		}
		time.Sleep(5 * time.Millisecond)
		return w.call(ctl.Cmd{Op: "heap"})
	}
	var at [4]ctl.Reply
	for i := range at {
		if err := phase(); err != nil {
			return err
		}
		if at[i], err = measure(); err != nil {
			return err
		}
	}
	bytesUp, objsUp := int64(1<<62), int64(1<<62)
	for i := 1; i < len(at); i++ {
		bytesUp = min(bytesUp, at[i].Heap-at[i-1].Heap)
		objsUp = min(objsUp, at[i].Objects-at[i-1].Objects)
	}
	ctx.ClassIf(c.Fresh, "new names every time")
	ctx.NonTrivial()
	margin := int64(16 << 10)
	if c.Kind == "waits" { // many goroutines at once, whose number settles late
		margin = 60 << 10
	}
	if objsUp > int64(60+n/2) || bytesUp > margin+int64(2*n) {
		var hist string
		for _, r := range at {
			hist += fmt.Sprintf(" %d bytes in %d objects;", r.Heap, r.Objects)
		}
		return pbt.Timeoutf("four times %d of %s %s, after each the clients are gone and garbage is collected, and the process holds%s that is at least %d bytes or %d objects more each time", n, c.Kind, c.End, hist, bytesUp, objsUp)
	}
	return nil
}

func TestC22(t *testing.T) {
	pbt.Check(t, pbt.Prop[memCase]{
		ID:   "C22",
		Rule: "A case is a store and one kind of traffic - any requests (thousands, with the same or always new client ids, member ids and unknown names), clients that come and go in any way, waits that end without data, restarts, repeated creations and direct offsets, or other mocks made, used and stopped -, repeated four times; after each time the clients are gone, garbage is collected and the memory in use is counted; it is a violation if it grew each time by half an object or two bytes per repetition (and a margin), twice on fresh processes; every case is non-trivial.",
		Gen: func(t *rapid.T) memCase {
			c := memCase{Store: genStore(1, 3, 2000, true).Draw(t, "store"), Kind: rapid.SampledFrom([]string{"serve", "serve", "serve", "clients", "cycle", "api", "waits", "mocks"}).Draw(t, "kind"), Fresh: rapid.Bool().Draw(t, "fresh")}
			rq := genReq(c.Store.Slots, []string{"g"}, 0, false)
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "reqs"); i < n; i++ {
				c.Reqs = append(c.Reqs, rq.Draw(t, "request"))
			}
			c.Conns = rapid.IntRange(1, 3).Draw(t, "conns")
			switch c.Kind {
			case "serve", "api":
				c.N = 8000
			case "clients":
				c.N = 200
				c.End = rapid.SampledFrom([]string{"fin", "rst", "part", "silent"}).Draw(t, "end")
			case "cycle":
				c.N = 150
				c.End = rapid.SampledFrom([]string{"", "stop", "finish"}).Draw(t, "end")
			}
			switch c.Kind {
			case "waits":
				c.End = rapid.SampledFrom([]string{"", "leave"}).Draw(t, "end")
			case "mocks":
				c.N = 150
			}
			return c
		},
		Run:   runMem,
		Fresh: fresh,
		Vary:  setVary,
	})
}
