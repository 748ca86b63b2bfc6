package bb

// The properties of a mock's life and of its clients' coming and going: C11,
// C12, C17, C20, C21.

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"

	"pgregory.net/rapid"
)

// Leaver is a client that goes away.
type Leaver struct {
	Reqs  []RSpec
	Part  int    // bytes of one more request, mod its length
	Next  RSpec  // that request
	Block int    `json:",omitempty"` // a fetch with nothing to return, waiting this many ms, comes before the partial request
	Big   int    `json:",omitempty"` // this many fetches of everything come before the partial request
	Read  int    // answers to read before leaving (-1: all that can be expected)
	End   string // fin, rst, half
	Start int    // ms
	Delay int    // ms before leaving
	Cuts  []Cut
}

var emptySlot = Slot{"nothing-here", 77}
var bigSlot = Slot{"big", 0}
var smallSlot = Slot{"small", 0}

// run acts. Only what the property promises to the leaver itself is judged:
// the answers it reads, and after a half-close all answers and an orderly end.
func (l Leaver) run(w *World, ctx *pbt.Ctx) error {
	time.Sleep(time.Duration(l.Start) * time.Millisecond)
	conn, err := wire.Dial(w.port, ansWait)
	if err != nil {
		return w.exchangeErr("connecting", err)
	}
	defer conn.Close()
	var reqs []*wire.Req
	var stream []byte
	for _, s := range l.Reqs {
		reqs = append(reqs, s.req())
	}
	if l.Block > 0 {
		f := fetchReq(int32(l.Block), emptySlot, 0, 1000)
		f.Corr = 4711
		reqs = append(reqs, f)
	}
	for i := 0; i < l.Big; i++ {
		f := fetchReq(0, bigSlot, 0, 64<<20)
		f.Corr = int32(i)
		reqs = append(reqs, f)
	}
	for _, r := range reqs {
		stream = append(stream, r.Encode()...)
	}
	if e := l.Next.req().Encode(); l.Part > 0 {
		stream = append(stream, e[:l.Part%len(e)]...)
	}
	read := l.Read
	if read < 0 || read > len(reqs) {
		read = len(reqs)
	}
	if l.End == "half" {
		read = len(reqs)
	}
	if l.End != "half" && l.Block > 1000 && read > len(l.Reqs) {
		read = len(l.Reqs)
	}
	var wg sync.WaitGroup
	var sendErr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		sendErr = sendCut(conn, stream, l.Cuts)
		if sendErr == nil && l.End == "half" {
			sendErr = conn.C.CloseWrite()
		}
	}()
	defer wg.Wait()
	for i := 0; i < read; i++ {
		corr, body, err := conn.Recv(ansWait)
		if err == nil && corr != reqs[i].Corr {
			err = fmt.Errorf("correlation id %d", corr)
		}
		if err == nil {
			_, err = reqs[i].Decode(body)
		}
		if err != nil {
			conn.Close()
			return w.exchangeErr(fmt.Sprintf("answer %d of %d (%s)", i, read, reqs[i].Name()), err)
		}
	}
	if read == len(reqs) && l.Big > 0 || l.Big == 0 {
		wg.Wait() // otherwise it may be stuck until we leave
		if sendErr != nil {
			return w.exchangeErr("sending", sendErr)
		}
	}
	time.Sleep(time.Duration(l.Delay) * time.Millisecond)
	switch l.End {
	case "half":
		ctx.Class("half-closed")
		extra, err := conn.ExpectEOF(ansWait)
		if err != nil {
			return w.exchangeErr("the end of the connection after a half-close and all answers", err)
		}
		if len(extra) > 0 {
			return fmt.Errorf("%d surplus bytes after the last answer", len(extra))
		}
	case "rst":
		ctx.Class("reset")
		conn.Reset()
	default:
		ctx.Class("closed")
		conn.Close()
	}
	ctx.ClassIf(l.Part > 0, "left inside a request")
	ctx.ClassIf(l.Block > 0 && l.End != "half", "left while a fetch was blocked")
	ctx.ClassIf(l.Big > 0 && read < len(reqs), "left large answers unread")
	return nil
}

func genLeaver(slots []Slot, maxBlock int) *rapid.Generator[Leaver] {
	return rapid.Custom(func(t *rapid.T) Leaver {
		var l Leaver
		groups := []string{"leaver"}
		rq := genReq(slots, groups, 10, false)
		l.Reqs = rapid.SliceOfN(rq, 0, 4).Draw(t, "requests")
		l.Next = rq.Draw(t, "next")
		if rapid.Bool().Draw(t, "partial") {
			l.Part = rapid.OneOf(rapid.IntRange(1, 16), rapid.IntRange(1, 400)).Draw(t, "part")
		}
		l.End = rapid.SampledFrom([]string{"fin", "fin", "rst", "rst", "half"}).Draw(t, "end")
		switch rapid.IntRange(0, 5).Draw(t, "special") {
		case 0:
			l.Block = rapid.SampledFrom([]int{1, 30, 150}).Draw(t, "block")
			if l.End != "half" {
				l.Block = rapid.SampledFrom([]int{30, 200, maxBlock}).Draw(t, "block")
			}
		case 1:
			l.Big = rapid.IntRange(1, 6).Draw(t, "big")
		}
		l.Read = rapid.SampledFrom([]int{-1, -1, 0, 0, 1, 2}).Draw(t, "read")
		l.Start = rapid.SampledFrom([]int{0, 0, 0, 3, 15}).Draw(t, "start")
		l.Delay = rapid.SampledFrom([]int{0, 0, 1, 10, 40}).Draw(t, "delay")
		if rapid.IntRange(0, 3).Draw(t, "pieces") == 0 {
			l.Cuts = genCuts(t, false)
		}
		return l
	})
}

// ---- C11

type leaveCase struct {
	Store   Store
	Big     int // bytes of a record of the big partition, 0: none
	Leavers []Leaver
	Steps   []byStep
}

// byStep is what a healthy client does meanwhile.
type byStep struct {
	Kind string // post, commit, look, meta, reconnect
	Slot int
	Rec  ctl.Rec
	Val  int64
	Ms   int
}

func genByStep(n int) *rapid.Generator[byStep] {
	return rapid.Custom(func(t *rapid.T) byStep {
		s := byStep{Kind: rapid.SampledFrom([]string{"post", "post", "commit", "look", "meta", "reconnect"}).Draw(t, "kind"), Slot: rapid.IntRange(0, n-1).Draw(t, "slot"), Ms: rapid.SampledFrom([]int{0, 0, 1, 5, 20}).Draw(t, "ms")}
		switch s.Kind {
		case "post":
			s.Rec = genRec(300).Draw(t, "rec")
		case "commit":
			s.Val = int64(rapid.IntRange(0, 30).Draw(t, "val"))
		}
		return s
	})
}

func (w *World) by(s byStep, slots []Slot) error {
	time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	slot := slots[s.Slot%len(slots)]
	switch s.Kind {
	case "post":
		if err := w.post(slot, []ctl.Rec{s.Rec}); err != nil {
			return err
		}
		return w.judgeSlot(0, slot)
	case "commit":
		if err := w.commitOne(0, "by", slot, s.Val); err != nil {
			return err
		}
		return w.judgeOffsets(0, "by")
	case "look":
		return w.judgeSlot(0, slot)
	case "meta":
		return w.judgeMeta(0)
	case "reconnect":
		w.closeConn(0)
		_, err := w.conn(0)
		return err
	}
	return pbt.Harnessf("unknown step %s", s.Kind)
}

func runLeave(c leaveCase, ctx *pbt.Ctx) error {
	w, err := newMock(false, true)
	if err != nil {
		return err
	}
	defer w.close()
	if err := w.fill(c.Store); err != nil {
		return err
	}
	if err := w.create(emptySlot); err != nil {
		return err
	}
	if c.Big > 0 {
		recs := []ctl.Rec{}
		for i := 0; i < 6; i++ {
			recs = append(recs, ctl.Rec{Value: wire.Blob{N: c.Big, Seed: uint32(i)}, Ext: true, Ms: 5})
		}
		if err := w.post(bigSlot, recs); err != nil {
			return err
		}
	}
	errs := make(chan error, len(c.Leavers))
	for i, l := range c.Leavers {
		i, l := i, l
		go func() {
			err := l.run(w, ctx)
			if err != nil {
				err = fmt.Errorf("client %d, which leaves (%s): %w", i, l.End, err)
			}
			errs <- err
		}()
	}
	var first error
	for i, s := range c.Steps {
		if err := w.by(s, c.Store.Slots); err != nil {
			first = fmt.Errorf("the healthy client's step %d (%s): %w", i, s.Kind, err)
			break
		}
	}
	for range c.Leavers {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	if first != nil {
		return first
	}
	if len(c.Leavers) > 0 {
		ctx.NonTrivial()
	}
	time.Sleep(2 * time.Millisecond)
	if err := w.judgeAll(0, "by"); err != nil {
		return fmt.Errorf("the healthy client at the end: %w", err)
	}
	if err := w.judgeAll(1, "by"); err != nil {
		return fmt.Errorf("a new client at the end: %w", err)
	}
	return nil
}

func genLeave(t *rapid.T) leaveCase {
	c := leaveCase{Store: genStore(1, 4, 2000, false).Draw(t, "store")}
	c.Leavers = rapid.SliceOfN(genLeaver(c.Store.Slots, 20000), 1, 5).Draw(t, "leavers")
	for _, l := range c.Leavers {
		if l.Big > 0 && c.Big == 0 {
			c.Big = rapid.SampledFrom([]int{100000, 500000, 1200000}).Draw(t, "big")
		}
	}
	c.Steps = rapid.SliceOfN(genByStep(len(c.Store.Slots)), 0, 8).Draw(t, "steps")
	return c
}

func TestC11(t *testing.T) {
	pbt.Check(t, pbt.Prop[leaveCase]{
		ID:    "C11",
		Rule:  "A case is a store, 1-5 clients that send 0-4 requests, possibly a blocked fetch, fetches of large answers they do not read, or part of a request, and leave by FIN, RST or half-close at that byte, and a healthy client that works alongside and whose every answer is compared with the model, as is everything a new client sees at the end; non-trivial if a client left.",
		Gen:   genLeave,
		Run:   runLeave,
		Fresh: fresh,
		Vary:  setVary,
	})
}

// ---- C12

type lifeOp struct {
	Kind string
	Slot int     `json:",omitempty"`
	Rec  ctl.Rec `json:",omitempty"`
	Val  int64   `json:",omitempty"`
	N    int     `json:",omitempty"`
	Ms   int     `json:",omitempty"`
}

type lifeCase struct {
	Store Store
	Ops   []lifeOp
}

type hanger struct {
	kind string
	c    *wire.Conn
	corr int32
}

type lifeRun struct {
	*World
	slots    []Slot
	running  bool // start was called and the mock has not terminated
	finished bool // finish was called since the start
	ever     bool
	stopping bool // stop was called since the start
	wait     *ctl.Pending
	hang     []*hanger
	ctx      *pbt.Ctx
	busy     []func()
}

// closed: the server has closed the connection - already, unless there is so
// much unread that the end of it cannot have been sent.
func (r *lifeRun) closed(c *wire.Conn, full bool, what string) error {
	t := time.Now()
	if _, err := c.ExpectEOF(3 * time.Second); err != nil {
		return r.exchangeErr(what, err)
	}
	if d := time.Since(t); d > 150*time.Millisecond && !full {
		return pbt.Latef("%s for %v more", what, d)
	}
	return nil
}

// terminated: what must be true once waiting has returned.
func (r *lifeRun) terminated() error {
	r.running, r.stopping, r.finished = false, false, false
	for _, f := range r.busy {
		f()
	}
	r.busy = nil
	if !ctl.Free(r.port) {
		return fmt.Errorf("the mock has terminated, but port %d is not free", r.port)
	}
	for _, h := range r.hang {
		if err := r.closed(h.c, h.kind == "unread", "the mock has terminated, but the connection of a client ("+h.kind+") is open"); err != nil {
			return err
		}
		h.c.Close()
		r.ctx.Class("closed by termination: " + h.kind)
	}
	r.hang = nil
	for i, c := range r.conns {
		if err := r.closed(c, false, "the mock has terminated, but a connection is open"); err != nil {
			return err
		}
		c.Close()
		delete(r.conns, i)
	}
	return nil
}

func (r *lifeRun) dial() (*wire.Conn, error) {
	c, err := wire.Dial(r.port, ansWait)
	if err != nil {
		return nil, r.exchangeErr("connecting", err)
	}
	return c, nil
}

func (r *lifeRun) exec(op lifeOp) error {
	serving := r.running && !r.stopping && !r.finished
	slot := r.slots[op.Slot%len(r.slots)]
	switch op.Kind {
	case "start":
		if r.running {
			if r.stopping {
				return nil // may or may not have terminated yet
			}
			c := ctl.Cmd{Op: "start", M: r.m}
			rep, err := r.s.Call(c, ansWait)
			if errors.Is(err, ctl.ErrCall) {
				return pbt.Timeoutf("a second start did not return within %v", ansWait)
			}
			if err != nil {
				return err
			}
			if rep.Panic == "" {
				return fmt.Errorf("a second start while running does not panic")
			}
			r.ctx.Class("second start")
			return nil
		}
		r.running, r.ever = true, true
		if err := r.start(); err != nil {
			return err
		}
		r.ctx.Class("start")
	case "stop":
		if _, err := r.call(ctl.Cmd{Op: "stop"}); err != nil {
			return err
		}
		if r.running {
			r.stopping = true
		}
	case "stops":
		c := ctl.Cmd{Op: "par"}
		for i := 0; i < 2+op.N%5; i++ {
			c.Threads = append(c.Threads, []ctl.Cmd{{Op: "stop", M: r.m}})
		}
		rep, err := r.call(c)
		if err != nil {
			return err
		}
		for _, t := range rep.Threads {
			if t[0].Panic != "" {
				return fmt.Errorf("one of several concurrent stops panics: %s", t[0].Panic)
			}
		}
		if r.running {
			r.stopping = true
			r.ctx.Class("concurrent stops")
		}
	case "race":
		if r.running || r.wait != nil {
			return nil
		}
		for k := 0; k < 12; k++ {
			if err := r.startRace(1+op.N%3, op.N*12+k); err != nil {
				return err
			}
		}
		r.ever = true
	case "wait":
		if r.running && !r.stopping {
			return nil
		}
		if r.wait != nil {
			return nil
		}
		if _, err := r.call(ctl.Cmd{Op: "wait"}); err != nil {
			return err
		}
		if r.running {
			return r.terminated()
		}
	case "waiter":
		// waits from before the stop; collected by the next stop
		if !serving || r.wait != nil {
			return nil
		}
		p, err := r.s.Async(ctl.Cmd{Op: "wait", M: r.m})
		if err != nil {
			return err
		}
		if _, err := p.Wait(15 * time.Millisecond); !errors.Is(err, ctl.ErrCall) {
			if err != nil {
				return err
			}
			return fmt.Errorf("waiting for termination returns while the mock runs")
		}
		r.wait = p
	case "stopwait":
		if r.wait != nil {
			if _, err := r.wait.Wait(0); !errors.Is(err, ctl.ErrCall) && !r.stopping {
				if err != nil {
					return err
				}
				return fmt.Errorf("waiting for termination returned while the mock runs")
			}
			r.ctx.Class("waiter from before the stop")
		}
		if _, err := r.call(ctl.Cmd{Op: "stop"}); err != nil {
			return err
		}
		if p := r.wait; p != nil {
			r.wait = nil
			rep, err := p.Wait(ansWait)
			if errors.Is(err, ctl.ErrCall) {
				return pbt.Timeoutf("waiting for termination did not return within %v of the stop", ansWait)
			}
			if err != nil {
				return err
			}
			if rep.Panic != "" {
				return fmt.Errorf("waiting for termination panics: %s", rep.Panic)
			}
		} else if _, err := r.call(ctl.Cmd{Op: "wait"}); err != nil {
			return err
		}
		if r.running {
			r.ctx.Class("stop and wait")
			return r.terminated()
		}
	case "stopwaits": // several stop it and wait, some only wait
		if r.wait != nil || !r.running {
			return nil
		}
		c := ctl.Cmd{Op: "par"}
		for i := 0; i < 2+op.N%6; i++ {
			th := []ctl.Cmd{{Op: "spin", N: op.N * (i + 3) % 11 * 40}}
			if i == 0 || (op.N>>uint(i))&1 == 0 {
				th = append(th, ctl.Cmd{Op: "stop", M: r.m})
			}
			c.Threads = append(c.Threads, append(th, ctl.Cmd{Op: "wait", M: r.m}))
		}
		rep, err := r.call(c)
		if err != nil {
			return err
		}
		for _, t := range rep.Threads {
			for _, x := range t {
				if x.Panic != "" {
					return fmt.Errorf("one of several concurrent stops and waits panics: %s", x.Panic)
				}
			}
		}
		r.ctx.Class("concurrent stops and waits")
		return r.terminated()
	case "finish":
		if !r.ever {
			return nil
		}
		if _, err := r.call(ctl.Cmd{Op: "finish"}); err != nil {
			return err
		}
		if r.running {
			r.finished = true
			r.ctx.Class("finish")
		}
	case "restart":
		if r.wait != nil {
			return nil // waiting while another starts again has no defined end
		}
		was := r.running
		again := ctl.Cmd{Op: "restart", M: r.m, Port: r.port, Probe: op.N > 0, Procs: op.N - 1}
		var rep ctl.Reply
		var err error
		if op.Val == 0 {
			if rep, err = r.call(again); err != nil {
				return err
			}
		} else { // while others post
			par := ctl.Cmd{Op: "par", Threads: [][]ctl.Cmd{{again}}}
			for i := 0; i < int(op.Val); i++ {
				recs := make([]ctl.Rec, 40)
				for j := range recs {
					recs[j] = ctl.Rec{Value: wire.Blob{N: 6, Seed: uint32(i*100 + j)}}
				}
				s := r.slots[i%len(r.slots)]
				if i >= len(r.slots) {
					s.Part = int32(1000 + i)
				}
				par.Threads = append(par.Threads, []ctl.Cmd{{Op: "post", M: r.m, Topic: s.Topic, Part: int(s.Part), Recs: recs, PauseUs: 20}})
			}
			all, err := r.call(par)
			if err != nil {
				return err
			}
			rep = all.Threads[0][0]
			for i, t := range all.Threads {
				if t[0].Panic != "" {
					return fmt.Errorf("%s panics: %s", par.Threads[i][0].Op, t[0].Panic)
				}
				if c := par.Threads[i][0]; i > 0 {
					r.mod.post(Slot{c.Topic, int32(c.Part)}, c.Recs, t[0])
				}
			}
			r.ctx.Class("posts during a restart")
		}
		if rep.Refused != "" {
			return fmt.Errorf("a client that connects right after a restart is refused: %s", rep.Refused)
		}
		if was {
			// the port is in use again, the old connections are gone
			for _, f := range r.busy {
				f()
			}
			r.busy = nil
			for _, h := range r.hang {
				if err := r.closed(h.c, h.kind == "unread", "restarted, but the connection of a client ("+h.kind+") is open"); err != nil {
					return err
				}
				h.c.Close()
				r.ctx.Class("closed by restart: " + h.kind)
			}
			r.hang = nil
			for i, c := range r.conns {
				if err := r.closed(c, false, "restarted, but a connection is open"); err != nil {
					return err
				}
				c.Close()
				delete(r.conns, i)
			}
		}
		r.running, r.stopping, r.finished, r.ever = true, false, false, true
		r.ctx.Class("restart")
	case "post":
		return r.post(slot, []ctl.Rec{op.Rec})
	case "create":
		return r.create(slot)
	case "setoff":
		return r.setoff("life", slot, op.Val)
	case "look":
		if serving {
			r.ctx.Class("looked at everything")
			r.ctx.NonTrivial()
			return r.judgeAll(0, "life")
		}
	case "commit":
		if serving {
			return r.commitOne(0, "life", slot, op.Val)
		}
	case "idle", "used", "blocked", "partial", "unread", "busy":
		if !serving || len(r.hang) >= 6 {
			return nil
		}
		c, err := r.dial()
		if err != nil {
			return err
		}
		h := &hanger{kind: op.Kind, c: c}
		switch op.Kind {
		case "used":
			q := &wire.Req{ApiV: true, Corr: 9}
			if err := c.Send(q.Encode()); err != nil {
				return r.exchangeErr("sending", err)
			}
			if _, _, err := c.Recv(ansWait); err != nil {
				return r.exchangeErr("request", err)
			}
		case "blocked":
			if err := c.Send(fetchReq(600000, emptySlot, 0, 100).Encode()); err != nil {
				return r.exchangeErr("sending", err)
			}
		case "partial":
			e := (&wire.Req{Meta: &wire.MetaReq{Topics: []string{"abc"}}}).Encode()
			if err := c.Send(e[:1+op.N%(len(e)-1)]); err != nil {
				return r.exchangeErr("sending", err)
			}
		case "unread":
			// more than the socket buffers hold
			for i := 0; i < 8; i++ {
				if err := c.Send(fetchReq(0, bigSlot, 0, 64<<20).Encode()); err != nil {
					return r.exchangeErr("sending", err)
				}
			}
		case "busy":
			stop := make(chan struct{})
			done := make(chan struct{})
			go func() {
				defer close(done)
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					q := fetchReq(int32(i%3), r.slots[i%len(r.slots)], int64(i%4), 1000)
					if c.Send(q.Encode()) != nil {
						return
					}
					if _, _, err := c.Recv(ansWait); err != nil {
						return
					}
				}
			}()
			r.busy = append(r.busy, func() { close(stop); <-done })
		}
		r.hang = append(r.hang, h)
	case "late":
		// the listener is there until the stop, whether or not anyone is served
		if !r.running || !r.finished || r.stopping || len(r.hang) >= 9 {
			return nil
		}
		c, err := wire.Dial(r.port, time.Second)
		if err != nil {
			return nil
		}
		if op.N > 0 {
			c.Send((&wire.Req{ApiV: true, Corr: 9}).Encode())
		}
		r.hang = append(r.hang, &hanger{kind: "late", c: c})
	case "sleep":
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
	default:
		return pbt.Harnessf("unknown op %s", op.Kind)
	}
	return nil
}

// startRace starts the mock while others ask it to stop. Whichever came first,
// it either serves or terminates, and can be stopped in any case.
func (r *lifeRun) startRace(stops, spin int) error {
	par := ctl.Cmd{Op: "par", Threads: [][]ctl.Cmd{{{Op: "spin", N: spin % 7 * 40}, {Op: "start", M: r.m}}}}
	for i := 0; i < stops; i++ {
		par.Threads = append(par.Threads, []ctl.Cmd{{Op: "spin", N: (spin*5 + i*3) % 11 * 40}, {Op: "stop", M: r.m}})
	}
	rep, err := r.call(par)
	if err != nil {
		return err
	}
	for _, t := range rep.Threads {
		if t[1].Panic != "" {
			return fmt.Errorf("a stop during a start panics: %s", t[1].Panic)
		}
	}
	served := false
	if c, err := wire.Dial(r.port, 5*time.Millisecond); err == nil { // else: not yet, or not any more
		err = c.Send((&wire.Req{ApiV: true, Corr: 3}).Encode())
		if err == nil {
			_, _, err = c.Recv(ansWait)
		}
		c.Close()
		if err != nil {
			return r.exchangeErr("a stop during a start has returned, and the mock accepts a client but", err)
		}
		served = true
	}
	r.ctx.ClassIf(served, "stop during start came before it")
	r.ctx.ClassIf(!served, "stop during start ended it")
	if _, err := r.call(ctl.Cmd{Op: "stopwait"}); err != nil {
		return fmt.Errorf("after a stop during a start: %w", err)
	}
	if !ctl.Free(r.port) {
		return fmt.Errorf("the mock has terminated, but port %d is not free", r.port)
	}
	return nil
}

func runLife(c lifeCase, ctx *pbt.Ctx) error {
	w, err := newMock(false, false)
	if err != nil {
		return err
	}
	r := &lifeRun{World: w, slots: c.Store.Slots, ctx: ctx}
	defer func() {
		for _, h := range r.hang {
			h.c.Close()
		}
		for _, f := range r.busy {
			f()
		}
		w.close()
	}()
	if err := w.fill(c.Store); err != nil {
		return err
	}
	if err := w.create(emptySlot); err != nil {
		return err
	}
	for _, op := range c.Ops {
		if op.Kind == "unread" {
			recs := []ctl.Rec{}
			for i := 0; i < 8; i++ {
				recs = append(recs, ctl.Rec{Value: wire.Blob{N: 1000000, Seed: uint32(i)}, Ext: true, Ms: 5})
			}
			if err := w.post(bigSlot, recs); err != nil {
				return err
			}
			break
		}
	}
	ops := append(append([]lifeOp{}, c.Ops...), lifeOp{Kind: "stopwait"}, lifeOp{Kind: "start"}, lifeOp{Kind: "look"}, lifeOp{Kind: "stopwait"})
	for i, op := range ops {
		if err := r.exec(op); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, op.Kind, err)
		}
	}
	return nil
}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{Store: genStore(1, 4, 500, false).Draw(t, "store")}
	down := []string{"race", "start", "start", "start", "restart", "stop", "stops", "stopwait", "wait", "finish", "post", "create", "setoff"}
	up := []string{"look", "look", "commit", "post", "create", "setoff", "start", "waiter", "sleep",
		"idle", "used", "blocked", "partial", "unread", "busy", "used", "blocked", "partial", "unread", "busy",
		"stop", "stops", "stopwait", "stopwait", "stopwaits", "finish", "restart", "restart"}
	running, stopping := false, false
	for n, ends := rapid.IntRange(2, 20).Draw(t, "n"), 0; len(c.Ops) < n && ends < 4; {
		pool := down
		if stopping {
			pool = []string{"stop", "stops", "wait", "wait", "stopwait", "stopwaits", "restart", "finish", "post", "start", "late", "late"}
		} else if running {
			pool = up
		}
		op := lifeOp{Kind: rapid.SampledFrom(pool).Draw(t, "kind"), Slot: rapid.IntRange(0, 5).Draw(t, "slot")}
		switch op.Kind {
		case "start":
			running = running || !stopping
		case "stop", "stops", "finish":
			stopping = running
		case "wait", "stopwait", "stopwaits":
			if running {
				ends++
			}
			running, stopping = false, false
		case "restart":
			if running {
				ends++
			}
			running, stopping = true, false
			op.N = rapid.IntRange(0, 3).Draw(t, "connect")
			if rapid.IntRange(0, 3).Draw(t, "posts") == 0 {
				op.Val = int64(rapid.IntRange(1, 3).Draw(t, "posters"))
			}
		case "post":
			op.Rec = genRec(300).Draw(t, "rec")
		case "setoff", "commit":
			op.Val = int64(rapid.IntRange(0, 30).Draw(t, "val"))
		}
		switch op.Kind {
		case "stops", "partial", "race", "late", "stopwaits":
			op.N = rapid.IntRange(0, 30).Draw(t, "n")
		case "sleep":
			op.Ms = rapid.SampledFrom([]int{1, 5, 25}).Draw(t, "ms")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func TestC12(t *testing.T) {
	pbt.Check(t, pbt.Prop[lifeCase]{
		ID:    "C12",
		Rule:  "A case is a sequence of 2-20 lifecycle calls (start, second start, stop, concurrent stops, wait, concurrent stops and waits, waiting from before the stop, finish, restart) with posts, commits and clients that are idle, blocked in a fetch, in the middle of a request, not reading large answers, or busy; calls must return in time, termination must free the port and close every client, and after a new start everything stored must be as the model says; non-trivial if the store was compared after some start.",
		Gen:   genLife,
		Run:   runLife,
		Fresh: fresh,
		Vary:  setVary,
	})
}

// ---- C20

type multiOp struct {
	lifeOp
	M int
}

type multiCase struct {
	Slots []Slot
	N     int
	Ops   []multiOp
}

type pendingFetch struct {
	conn  *wire.Conn
	sent  time.Time
	wait  time.Duration
	open  bool // nothing has happened yet that may end it early
	world *World
}

func runMulti(c multiCase, ctx *pbt.Ctx) error {
	var ws []*World
	up := make([]bool, c.N)
	defer func() {
		for _, w := range ws {
			w.close()
		}
	}()
	for i := 0; i < c.N; i++ {
		w, err := newMockOn(false, true, true, i%2 == 1)
		if err != nil {
			return err
		}
		if i > 0 && w.s != ws[0].s {
			return pbt.Harnessf("mocks in different processes")
		}
		ws = append(ws, w)
		up[i] = true
		if err := w.create(emptySlot); err != nil {
			return err
		}
	}
	var pend []*pendingFetch
	touch := func(w *World) { // w's fetches may end early from here on
		for _, p := range pend {
			if p.world == w {
				p.open = false
			}
		}
	}
	for k, op := range c.Ops {
		i := op.M % c.N
		w := ws[i]
		slot := c.Slots[op.Slot%len(c.Slots)]
		fail := func(err error) error {
			if err == nil {
				return nil
			}
			return fmt.Errorf("step %d (%s on mock %d): %w", k, op.Kind, i, err)
		}
		var err error
		switch op.Kind {
		case "post":
			err = w.post(slot, []ctl.Rec{op.Rec})
		case "create":
			err = w.create(slot)
		case "setoff":
			err = w.setoff("g", slot, op.Val)
		case "commit":
			if up[i] {
				err = w.commitOne(0, "g", slot, op.Val)
			}
		case "look":
			if up[i] {
				err = w.judgeAll(0, "g")
			}
		case "stop":
			touch(w)
			w.closeConns()
			_, err = w.call(ctl.Cmd{Op: "stopwait"})
			up[i] = false
		case "start":
			if !up[i] {
				if err = w.start(); err == nil {
					up[i] = true
					_, err = w.conn(0)
				}
			}
		case "restart":
			touch(w)
			err = w.restart()
			up[i] = true
		case "finish":
			if up[i] {
				touch(w)
				if _, err = w.call(ctl.Cmd{Op: "finish"}); err == nil {
					err = w.restart()
				}
			}
		case "all":
			err = lookAtOnce(c, k, ws, up, op.Rec)
			ctx.Class("several asked at once")
		case "crowd":
			if up[i] {
				_, err = w.crowd(2, op.Slot)
				ctx.Class("others made while it answers")
			}
		case "block":
			if up[i] && len(pend) < 4 {
				var conn *wire.Conn
				if conn, err = wire.Dial(w.port, ansWait); err == nil {
					p := &pendingFetch{conn: conn, sent: time.Now(), wait: time.Duration(op.Ms) * time.Millisecond, open: true, world: w}
					if err = conn.Send(fetchReq(int32(op.Ms), emptySlot, 0, 100).Encode()); err == nil {
						pend = append(pend, p)
					}
				}
			}
		}
		if err != nil {
			return fail(err)
		}
	}
	for _, p := range pend {
		if p.open {
			_, body, err := p.conn.Recv(p.wait + ansWait)
			if err != nil {
				return p.world.exchangeErr(fmt.Sprintf("a fetch that waits on a mock nothing was done to (port %d)", p.world.port), err)
			}
			if d := time.Since(p.sent); d < p.wait {
				return fmt.Errorf("a fetch that waits %v on a mock nothing was done to is answered after %v", p.wait, d)
			}
			if _, err := wire.DecodeResp(wire.Fetch, body); err != nil {
				return err
			}
			ctx.Class("fetch waited undisturbed")
		}
		p.conn.Close()
	}
	n := 0
	for i, w := range ws {
		if up[i] {
			n++
			if err := w.judgeAll(0, "g"); err != nil {
				return fmt.Errorf("mock %d at the end: %w", i, err)
			}
		}
	}
	if n >= 2 {
		ctx.NonTrivial()
	}
	ctx.ClassIf(n >= 2, "several mocks compared at the end")
	return nil
}

// lookAtOnce posts a record to each mock and looks at all of them, at the same
// time.
func lookAtOnce(c multiCase, k int, ws []*World, up []bool, rec ctl.Rec) error {
	par := ctl.Cmd{Op: "par"}
	for i, w := range ws {
		s := c.Slots[(k+i)%len(c.Slots)]
		var cs []ctl.Cmd
		for j := 0; j < 4; j++ {
			x := rec
			x.Value = wire.Blob{N: 3 + 17*i + j, Seed: uint32(100*k + 10*i + j)}
			cs = append(cs, ctl.Cmd{Op: "post", M: w.m, Topic: s.Topic, Part: int(s.Part), Recs: []ctl.Rec{x}})
		}
		par.Threads = append(par.Threads, cs)
	}
	r, err := ws[0].s.Call(par, ansWait)
	if errors.Is(err, ctl.ErrCall) {
		return pbt.Timeoutf("posting to several mocks did not return within %v", ansWait)
	}
	if err != nil {
		return err
	}
	for i, w := range ws {
		for j, cm := range par.Threads[i] {
			if p := r.Threads[i][j].Panic; p != "" {
				return fmt.Errorf("posting to several mocks at once panicked: %s", p)
			}
			w.mod.post(Slot{cm.Topic, int32(cm.Part)}, cm.Recs, r.Threads[i][j])
		}
	}
	gate := make(chan struct{})
	errs := make(chan error, len(ws))
	n := 0
	for i, w := range ws {
		if !up[i] {
			continue
		}
		if _, err := w.conn(0); err != nil {
			return err
		}
		n++
		i, w := i, w
		go func() {
			<-gate
			var err error
			for round := 0; round < 3 && err == nil; round++ {
				err = w.judgeAll(0, "g")
			}
			if err != nil {
				err = fmt.Errorf("mock %d while others answer too: %w", i, err)
			}
			errs <- err
		}()
	}
	close(gate)
	for ; n > 0; n-- {
		if e := <-errs; e != nil && err == nil {
			err = e
		}
	}
	return err
}

func genMulti(t *rapid.T) multiCase {
	kinds := []string{"post", "post", "post", "create", "create", "setoff", "commit", "commit", "look", "look", "stop", "start", "start", "restart", "finish", "block", "crowd", "all"}
	c := multiCase{N: rapid.IntRange(2, 4).Draw(t, "mocks"), Slots: genSlots(1, 4).Draw(t, "slots")}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) multiOp {
		op := multiOp{M: rapid.IntRange(0, 3).Draw(t, "mock")}
		op.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
		op.Slot = rapid.IntRange(0, 3).Draw(t, "slot")
		switch op.Kind {
		case "post", "all":
			op.Rec = genRec(300).Draw(t, "rec")
		case "setoff", "commit":
			op.Val = int64(rapid.IntRange(0, 30).Draw(t, "val"))
		case "block":
			op.Ms = rapid.SampledFrom([]int{30, 100, 250}).Draw(t, "ms")
		}
		return op
	}), 4, 30).Draw(t, "ops")
	return c
}

func TestC20(t *testing.T) {
	pbt.Check(t, pbt.Prop[multiCase]{
		ID:    "C20",
		Rule:  "A case is 2-4 mocks in one process (on one shared lane) and 4-30 operations (post, create, set offset, commit, stop, start, restart, finish, a waiting fetch, a complete look, posts to and looks at all of them at once) on random ones with the same topic, partition and group names; each mock is compared with its own model; non-trivial if at least two mocks were compared at the end.",
		Gen:   genMulti,
		Run:   runMulti,
		Fresh: fresh,
		Vary:  setVary,
	})
}

// ---- C21

type leakOp struct {
	Kind string // open, ask, long, leave, restart
	C    int
	End  string `json:",omitempty"`
	R    RSpec
	Part int `json:",omitempty"`
}

type leakCase struct {
	Slots []Slot
	Stay  int
	Ops   []leakOp
	Stop  bool // some clients are still there at the stop
	Late  int  `json:",omitempty"` // with Stop: so many come after requests were finished
}

func (w *World) stats() (ctl.Reply, error) { return w.call(ctl.Cmd{Op: "stats"}) }

// settle polls until the numbers are right.
func (w *World) settle(what string, ok func(ctl.Reply) string) error {
	deadline := time.Now().Add(4 * time.Second)
	for {
		st, err := w.stats()
		if err != nil {
			return err
		}
		bad := ok(st)
		if bad == "" {
			return nil
		}
		if time.Now().After(deadline) {
			return pbt.Timeoutf("%s: %s; stacks:\n%.1500s", what, bad, st.Stacks)
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func runLeak(c leakCase, ctx *pbt.Ctx) error {
	w, err := newMock(false, true)
	if err != nil {
		return err
	}
	defer w.close()
	if _, err := w.call(ctl.Cmd{Op: "gcoff"}); err != nil {
		return err
	}
	if err := w.create(append([]Slot{emptySlot}, c.Slots...)...); err != nil {
		return err
	}
	if err := w.post(bigSlot, []ctl.Rec{{Value: wire.Blob{N: 3000000}}}); err != nil {
		return err
	}
	if err := w.post(smallSlot, []ctl.Rec{{Value: wire.Blob{N: 3}}}); err != nil {
		return err
	}
	// the ones that stay
	for i := 1; i < c.Stay; i++ {
		if _, err := w.conn(i); err != nil {
			return err
		}
	}
	ping := func() error {
		for i := range w.conns {
			if _, err := w.do(i, &wire.Req{ApiV: true}); err != nil {
				return fmt.Errorf("a client that stays: %w", err)
			}
		}
		return nil
	}
	if c.Stay == 0 {
		w.closeConns()
	}
	if err := ping(); err != nil {
		return err
	}
	var base ctl.Reply
	err = w.settle("before", func(r ctl.Reply) string {
		if r.Sockets != c.Stay+1 {
			return fmt.Sprintf("%d sockets with %d clients and the listener", r.Sockets, c.Stay)
		}
		base = r
		return ""
	})
	if err != nil {
		return err
	}
	// let goroutines of the ones just gone end before counting
	time.Sleep(5 * time.Millisecond)
	if base, err = w.stats(); err != nil {
		return err
	}

	open := map[int]*wire.Conn{}
	blocked := 0
	leave := func(i int, end string) {
		conn := open[i]
		delete(open, i)
		if end == "rst" {
			conn.Reset()
		} else if end == "half" {
			conn.C.CloseWrite()
			conn.ExpectEOF(ansWait)
			conn.Close()
		} else {
			conn.Close()
		}
	}
	for k, op := range c.Ops {
		if op.Kind == "restart" {
			if op.Part%2 == 0 { // else the mock is to close them
				for i := range open {
					leave(i, "fin")
				}
				w.closeConns()
			}
			if _, err := w.call(ctl.Cmd{Op: []string{"restart", "finish"}[op.Part/2%2]}); err != nil {
				return err
			}
			if op.Part/2%2 == 1 {
				if _, err := w.call(ctl.Cmd{Op: "restart"}); err != nil {
					return err
				}
			}
			for i := range open {
				open[i].Close()
				delete(open, i)
			}
			w.closeConns()
			for i := 0; i < c.Stay; i++ {
				if _, err := w.conn(i); err != nil {
					return err
				}
			}
			if err := ping(); err != nil {
				return fmt.Errorf("step %d, after a restart: %w", k, err)
			}
			if err := w.settle("after a restart", func(r ctl.Reply) string {
				switch {
				case r.Sockets != base.Sockets:
					return fmt.Sprintf("%d sockets with %d clients connected, expected %d", r.Sockets, c.Stay, base.Sockets)
				case r.Goroutines > base.Goroutines:
					return fmt.Sprintf("%d goroutines of the mock, %d before", r.Goroutines, base.Goroutines)
				case r.Clients >= 0 && r.Clients != c.Stay:
					return fmt.Sprintf("%d clients tracked, %d connected", r.Clients, c.Stay)
				}
				return ""
			}); err != nil {
				return err
			}
			ctx.Class("restart")
			ctx.NonTrivial()
			continue
		}
		conn := open[op.C]
		if conn == nil {
			if conn, err = wire.Dial(w.port, ansWait); err != nil {
				return w.exchangeErr("connecting", err)
			}
			open[op.C] = conn
		}
		switch op.Kind {
		case "open":
		case "ask":
			r := op.R.req()
			if err := conn.Send(r.Encode()); err != nil {
				return w.exchangeErr("sending", err)
			}
			if _, _, err := conn.Recv(ansWait); err != nil {
				return w.exchangeErr(fmt.Sprintf("step %d: %s", k, r.Name()), err)
			}
		case "long":
			if err := conn.Send(fetchReq(600000, smallSlot, 0, 1000).Encode()); err != nil {
				return w.exchangeErr("sending", err)
			}
			if _, _, err := conn.Recv(ansWait); err != nil {
				return w.exchangeErr(fmt.Sprintf("step %d: fetch of what is there", k), err)
			}
			ctx.Class("long wait, answered at once")
		case "leave":
			ctx.Class("left by " + op.End)
			switch op.End {
			case "part":
				e := op.R.req().Encode()
				conn.Send(e[:1+op.Part%(len(e)-1)])
				leave(op.C, "fin")
			case "unread":
				for i := 0; i < 4; i++ {
					conn.Send(fetchReq(0, bigSlot, 0, 64<<20).Encode())
				}
				time.Sleep(time.Duration(op.Part%20) * time.Millisecond)
				leave(op.C, []string{"fin", "rst"}[op.Part%2])
			case "blocked":
				blocked++
				conn.Send(fetchReq(int32(20+op.Part%200), emptySlot, 0, 100).Encode())
				time.Sleep(time.Duration(op.Part%10) * time.Millisecond)
				leave(op.C, []string{"fin", "rst", "half"}[op.Part%3])
			default:
				leave(op.C, op.End)
			}
			ctx.NonTrivial()
		}
	}
	stay := len(open)
	if !c.Stop {
		for i := range open {
			leave(i, "fin")
		}
		stay = 0
	}
	// still there: Stay + stay
	for i, conn := range open {
		if err := conn.Send((&wire.Req{ApiV: true}).Encode()); err == nil {
			_, _, err = conn.Recv(ansWait)
			if err != nil {
				return w.exchangeErr(fmt.Sprintf("client %d, still connected", i), err)
			}
		}
	}
	if err := ping(); err != nil {
		return err
	}
	if err := w.settle("after clients left a running mock", func(r ctl.Reply) string {
		switch {
		case r.Sockets != base.Sockets+stay:
			return fmt.Sprintf("%d sockets with %d clients connected, expected %d", r.Sockets, c.Stay+stay, base.Sockets+stay)
		case stay == 0 && r.Goroutines > base.Goroutines:
			return fmt.Sprintf("%d goroutines of the mock, %d before the clients came", r.Goroutines, base.Goroutines)
		case r.Clients >= 0 && r.Clients != c.Stay+stay:
			return fmt.Sprintf("%d clients tracked, %d connected", r.Clients, c.Stay+stay)
		}
		return ""
	}); err != nil {
		return err
	}
	if err := ping(); err != nil {
		return err
	}
	if c.Stop {
		ctx.ClassIf(c.Stay+stay > 0, "stopped with clients connected")
		if c.Late > 0 {
			ctx.Class("clients after requests were finished")
			if _, err := w.call(ctl.Cmd{Op: []string{"finish", "cancel"}[len(c.Ops)%2]}); err != nil {
				return err
			}
			for i := 0; i < c.Late; i++ {
				conn, err := wire.Dial(w.port, time.Second)
				if err != nil {
					continue
				}
				if i%2 == 1 {
					conn.Send((&wire.Req{ApiV: true}).Encode())
				}
				open[100+i] = conn
			}
		}
	} else {
		w.closeConns() // saves the second that idle clients cost
	}
	if _, err := w.call(ctl.Cmd{Op: "stopwait"}); err != nil {
		return err
	}
	err = w.settle("after termination", func(r ctl.Reply) string {
		switch {
		case r.Sockets != 0:
			return fmt.Sprintf("%d sockets", r.Sockets)
		case r.Goroutines != 0:
			return fmt.Sprintf("%d goroutines of the mock", r.Goroutines)
		case r.Clients > 0:
			return fmt.Sprintf("%d clients tracked", r.Clients)
		}
		return ""
	})
	for _, conn := range open {
		conn.Close()
	}
	return err
}

func TestC21(t *testing.T) {
	pbt.Check(t, pbt.Prop[leakCase]{
		ID:   "C21",
		Rule: "A case is 0-3 clients that stay and 6-30 steps in which up to 5 others connect, ask and leave in any order (close, reset, half-close, inside a request, with a blocked fetch, with large answers unread), with restarts in between; the process' sockets, its goroutines in the mock and the tracked clients must come back to what they were, and to none after termination (garbage collection is off, so nothing is released by accident); non-trivial if a client left.",
		Gen: func(t *rapid.T) leakCase {
			c := leakCase{Slots: genSlots(1, 3).Draw(t, "slots"), Stay: rapid.IntRange(0, 3).Draw(t, "stay"), Stop: rapid.IntRange(0, 9).Draw(t, "stop") == 9}
			if c.Stop {
				c.Late = rapid.IntRange(0, 3).Draw(t, "late")
			}
			rq := genReq(c.Slots, []string{"g"}, 5, false)
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) leakOp {
				op := leakOp{Kind: rapid.SampledFrom([]string{"open", "ask", "ask", "leave", "leave", "long"}).Draw(t, "kind"), C: rapid.IntRange(0, 4).Draw(t, "client")}
				if rapid.IntRange(0, 63).Draw(t, "restart") == 39 {
					op.Kind = "restart"
				}
				switch op.Kind {
				case "restart":
					op.Part = rapid.IntRange(0, 3).Draw(t, "how")
				case "ask":
					op.R = rq.Draw(t, "request")
				case "leave":
					op.End = rapid.SampledFrom([]string{"fin", "fin", "rst", "half", "part", "unread", "blocked"}).Draw(t, "end")
					op.Part = rapid.IntRange(0, 200).Draw(t, "part")
					if op.End == "part" {
						op.R = rq.Draw(t, "request")
					} else {
						op.R = RSpec{R: wire.Req{ApiV: true}}
					}
				}
				if op.R.R == (wire.Req{}) {
					op.R.R.ApiV = true
				}
				return op
			}), 6, 30).Draw(t, "ops")
			return c
		},
		Run:   runLeak,
		Fresh: fresh,
		Vary:  setVary,
	})
}

// ---- C17

type apiStep struct {
	Kind  string // ask, restart, stopstart, new, history, list
	M     int
	R     RSpec
	Rec   ctl.Rec
	Conns int
}

type apiCase struct {
	Store Store
	N     int
	Fresh bool
	Steps []apiStep
	// at the end, a request for something that is not listed
	Odd       bool
	Key, Ver  int
	Body      RSpec
	Blob      wire.Blob
	KnownBody bool
	Cold      int `json:",omitempty"` // so many made and started at once before, in a new process
}

// apis asks for the list and judges its form.
func (w *World) apis(conn int) (map[[2]int16]bool, error) {
	resp, err := w.do(conn, &wire.Req{ApiV: true})
	if err != nil {
		return nil, err
	}
	return apiList(resp.(*wire.ApiVResp))
}

func apiList(f *wire.ApiVResp) (map[[2]int16]bool, error) {
	if f.Err != 0 {
		return nil, fmt.Errorf("api-versions: error %d", f.Err)
	}
	listed := map[[2]int16]bool{}
	for i, k := range f.Keys {
		if i > 0 && k.Key <= f.Keys[i-1].Key {
			return nil, fmt.Errorf("api-versions: key %d after key %d", k.Key, f.Keys[i-1].Key)
		}
		if k.Max < k.Min || k.Min < 0 {
			return nil, fmt.Errorf("api-versions: key %d from version %d to %d", k.Key, k.Min, k.Max)
		}
		for v := k.Min; v <= k.Max; v++ {
			listed[[2]int16{k.Key, v}] = true
		}
	}
	return listed, nil
}

func minimal(key int16) *wire.Req {
	q := &wire.Req{}
	switch key {
	case wire.Fetch:
		q.Fetch = &wire.FetchReq{Replica: -1, Topics: []wire.FetchTopic{}}
	case wire.ListOffsets:
		q.List = &wire.ListReq{Replica: -1, Topics: []wire.ListTopic{}}
	case wire.Metadata:
		q.Meta = &wire.MetaReq{}
	case wire.OffsetCommit:
		q.Commit = &wire.CommitReq{Group: "g", Topics: []wire.CommitTopic{}}
	case wire.OffsetFetch:
		q.OFetch = &wire.OFetchReq{Group: "g", Topics: []wire.OFetchTopic{}}
	case wire.FindCoordinator:
		q.Coord = &wire.CoordReq{Key: "g"}
	case wire.JoinGroup:
		q.Join = &wire.JoinReq{Group: "g", Type: "consumer", Protos: []wire.Proto{{Name: "range"}}}
	case wire.Heartbeat:
		q.Heartbeat = &wire.HeartbeatReq{Group: "g", Member: "1"}
	case wire.LeaveGroup:
		q.Leave = &wire.LeaveReq{Group: "g", Member: "1"}
	case wire.SyncGroup:
		q.Sync = &wire.SyncReq{Group: "g", Member: "1"}
	case wire.ApiVersions:
		q.ApiV = true
	default:
		return nil
	}
	return q
}

// coldStart makes and starts n mocks at once in a new process, and asks each for
// its list.
func coldStart(n int) (lists []map[[2]int16]bool, err error) {
	fresh()
	s, err := server(false)
	if err != nil {
		return nil, err
	}
	var ws []*World
	par := ctl.Cmd{Op: "par"}
	for i := 0; i < n; i++ {
		port, err := ctl.Port()
		if err != nil {
			return nil, err
		}
		mockSeq++
		ws = append(ws, &World{s: s, m: mockSeq, port: port, conns: map[int]*wire.Conn{}, mod: newModel()})
		par.Threads = append(par.Threads, []ctl.Cmd{{Op: "new", M: mockSeq, Port: port}, {Op: "start", M: mockSeq}})
	}
	defer func() {
		for _, w := range ws {
			w.close()
		}
	}()
	rep, err := s.Call(par, ansWait)
	if errors.Is(err, ctl.PortTaken) {
		return nil, pbt.Harnessf("a port was taken in between")
	}
	if errors.Is(err, ctl.ErrCall) {
		return nil, pbt.Timeoutf("making and starting mocks did not return within %v", ansWait)
	}
	if err != nil {
		return nil, err
	}
	for _, t := range rep.Threads {
		for _, x := range t {
			if x.Panic != "" {
				return nil, fmt.Errorf("one of several mocks made at once panics: %s", x.Panic)
			}
		}
	}
	for _, w := range ws {
		l, err := w.apis(0)
		if err != nil {
			return nil, err
		}
		lists = append(lists, l)
	}
	return lists, nil
}

func runApis(c apiCase, ctx *pbt.Ctx) error {
	if c.Fresh || c.Odd {
		fresh()
	}
	var ws []*World
	defer func() {
		for _, w := range ws {
			w.close()
		}
	}()
	var first []map[[2]int16]bool
	if c.Cold > 0 {
		var err error
		if first, err = coldStart(c.Cold); err != nil {
			return err
		}
		ctx.Class("several mocks made and started at once in a new process")
	}
	for i := 0; i < c.N; i++ {
		w, err := newMock(false, true)
		if err != nil {
			return err
		}
		ws = append(ws, w)
	}
	if err := ws[0].fill(c.Store); err != nil {
		return err
	}
	var listed map[[2]int16]bool
	same := func(l map[[2]int16]bool) error {
		if listed != nil && fmt.Sprint(l) != fmt.Sprint(listed) {
			return fmt.Errorf("api-versions lists %v, before it was %v", l, listed)
		}
		listed = l
		return nil
	}
	for _, l := range first {
		if err := same(l); err != nil {
			return fmt.Errorf("the first of several mocks made at once: %w", err)
		}
	}
	look := func(w *World, conn int, deep bool) error {
		l, err := w.apis(conn)
		if err != nil {
			return err
		}
		if err := same(l); err != nil {
			return err
		}
		if !deep {
			return nil
		}
		for k, v := range wire.Version {
			if !l[[2]int16{k, v}] {
				// then it must not be served; tried at the end of another case
				ctx.Class("known API not listed")
			}
		}
		for kv := range l {
			q := minimal(kv[0])
			if q != nil && wire.Version[kv[0]] == kv[1] {
				if _, err := w.do(conn, q); err != nil {
					return fmt.Errorf("listed %s v%d: %w", wire.KeyName(kv[0]), kv[1], err)
				}
				continue
			}
			// listed, but beyond what the harness speaks: it must at least be answered
			var body []byte
			if q != nil {
				body = q.Body()
			}
			cn, err := w.conn(conn)
			if err != nil {
				return err
			}
			if err := cn.Send(wire.Frame(kv[0], kv[1], 77, nil, body)); err != nil {
				return w.exchangeErr("sending", err)
			}
			if _, _, err := cn.Recv(ansWait); err != nil {
				return w.exchangeErr(fmt.Sprintf("API %d v%d is listed", kv[0], kv[1]), err)
			}
		}
		return nil
	}
	for i, s := range c.Steps {
		w := ws[s.M%c.N]
		var err error
		switch s.Kind {
		case "ask":
			_, err = w.do(0, s.R.req())
		case "restart":
			if err = w.restart(); err == nil {
				_, err = w.conn(0)
			}
		case "stopstart":
			w.closeConns()
			if _, err = w.call(ctl.Cmd{Op: "stopwait"}); err == nil {
				if err = w.start(); err == nil {
					_, err = w.conn(0)
				}
			}
		case "new":
			var x *World
			if len(ws) < 6 {
				if x, err = newMock(false, s.Conns%2 == 0); err == nil {
					ws = append(ws, x)
				}
			}
		case "post":
			err = w.post(c.Store.Slots[0], []ctl.Rec{s.Rec})
		case "list":
			err = look(w, s.Conns, s.Conns%2 == 0)
			ctx.NonTrivial()
		case "lists":
			var lists []*wire.ApiVResp
			lists, err = w.crowd(3, s.Conns%3)
			for _, f := range lists {
				var l map[[2]int16]bool
				if l, err = apiList(f); err == nil {
					err = same(l)
				}
				if err != nil {
					break
				}
			}
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, s.Kind, err)
		}
	}
	for i, w := range ws {
		if i >= c.N {
			break
		}
		if err := look(w, 0, i == 0); err != nil {
			return fmt.Errorf("mock %d at the end: %w", i, err)
		}
	}
	if !c.Odd {
		return nil
	}
	key, ver := int16(c.Key), int16(c.Ver)
	if listed[[2]int16{key, ver}] {
		return nil
	}
	w := ws[0]
	cn, err := wire.Dial(w.port, ansWait)
	if err != nil {
		return w.exchangeErr("connecting", err)
	}
	defer cn.Close()
	body := c.Blob.Bytes()
	if c.KnownBody {
		if q := minimal(key); q != nil {
			body = q.Body()
		}
		if q := c.Body.req(); q.Key() == key {
			body = q.Body()
		}
	}
	if err := cn.Send(wire.Frame(key, ver, 4242, nil, body)); err != nil {
		return pbt.Harnessf("sending: %v", err)
	}
	extra, _ := cn.ExpectEOF(60 * time.Millisecond)
	if len(extra) > 0 {
		return fmt.Errorf("API %d version %d is not listed, but a request for it gets an answer (%d bytes)", key, ver, len(extra))
	}
	ctx.NonTrivial()
	ctx.Class("request for an API or version that is not listed")
	fresh()
	return nil
}

func TestC17(t *testing.T) {
	pbt.Check(t, pbt.Prop[apiCase]{
		ID:   "C17",
		Rule: "A case is 1-3 mocks in one process (often a new one, sometimes after several were made and started in it at once) and 1-8 steps (requests, restarts, further mocks, concurrent api-versions requests); every api-versions answer must list ascending distinct keys and always the same ones, each listed key and version must answer a valid request in its format, and at the end a request for a key or version not listed (other versions of served keys, known other keys, any) on a process of its own must not be answered; non-trivial if a list was compared after some history or an unlisted request was sent.",
		Gen: func(t *rapid.T) apiCase {
			c := apiCase{Store: genStore(1, 3, 200, false).Draw(t, "store"), N: rapid.IntRange(1, 3).Draw(t, "mocks"), Fresh: rapid.IntRange(0, 9).Draw(t, "fresh") == 0}
			if rapid.IntRange(0, 23).Draw(t, "cold") == 17 {
				c.Cold = rapid.IntRange(2, 5).Draw(t, "at once")
			}
			rq := genReq(c.Store.Slots, []string{"g"}, 3, false)
			c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) apiStep {
				s := apiStep{Kind: rapid.SampledFrom([]string{"ask", "ask", "ask", "restart", "stopstart", "new", "post", "list", "list", "lists"}).Draw(t, "kind"), M: rapid.IntRange(0, 2).Draw(t, "mock"), Conns: rapid.IntRange(0, 5).Draw(t, "conn")}
				s.R = RSpec{R: wire.Req{ApiV: true}}
				switch s.Kind {
				case "ask":
					s.R = rq.Draw(t, "request")
				case "post":
					s.Rec = genRec(100).Draw(t, "rec")
				}
				return s
			}), 1, 8).Draw(t, "steps")
			c.Body = rq.Draw(t, "body")
			if c.Odd = rapid.Bool().Draw(t, "odd"); c.Odd {
				c.KnownBody = rapid.Bool().Draw(t, "known body")
				c.Blob = genBlob(200).Draw(t, "blob")
				switch rapid.IntRange(0, 3).Draw(t, "what") {
				case 0:
					c.Key = rapid.IntRange(0, 75).Draw(t, "key")
					c.Ver = rapid.IntRange(0, 14).Draw(t, "version")
				case 3:
					c.Key = rapid.IntRange(-32768, 32767).Draw(t, "key")
					c.Ver = rapid.IntRange(-32768, 32767).Draw(t, "version")
				default:
					c.Key = int(c.Body.R.Key())
					c.Ver = rapid.IntRange(-1, 9).Draw(t, "version")
				}
			}
			return c
		},
		Run:   runApis,
		Fresh: fresh,
		Vary:  setVary,
	})
}
