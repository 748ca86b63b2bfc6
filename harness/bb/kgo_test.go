package bb

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"testing"
	"time"

	"kmverif/ctl"
	"kmverif/pbt"
	"kmverif/wire"

	"github.com/segmentio/kafka-go"
	"pgregory.net/rapid"
)

// C18: the mock seen by kafka-go, an independent implementation of the client
// side: group consumers, connections and the request client.

type kPost struct {
	Slot    int
	Recs    []ctl.Rec
	PauseUs int `json:",omitempty"`
}

type kRead struct {
	Group    int
	Topics   int   // how many topics are asked for (the mock assigns all, kafka-go leaves the others alone)
	MaxBytes int   // at least the largest record
	WaitMs   int   // MaxWait
	CommitMs int   // 0: commits are synchronous
	Queue    int   // QueueCapacity
	BeatMs   int   `json:",omitempty"`
	Part     int   // tenths of the records to read; 10: all, also those posted meanwhile
	Commit   []int // cyclic, per message: 0 no, 1 yes, 2 together with the ones left out before
	Auto     bool  `json:",omitempty"` // ReadMessage, which commits itself
}

type kStep struct {
	Kind    string
	Reads   []kRead `json:",omitempty"`
	Posts   []kPost `json:",omitempty"`
	Restart bool    `json:",omitempty"` // read: restart the mock while they consume
	AfterMs int     `json:",omitempty"`
	Finish  bool    `json:",omitempty"` // read: finish requests before the consumers close
	Slot    int     `json:",omitempty"`
	Group   int     `json:",omitempty"`
	Off     OffSpec `json:",omitempty"`
	Max     int     `json:",omitempty"`
	T       int64   `json:",omitempty"`
}

type kCase struct {
	Store   Store
	Shared  bool `json:",omitempty"`
	Steps   []kStep
	NGroups int
	High    bool // the mock's port
}

var kGroups = []string{"g", "kafka-mock", "g2"}

const kWait = 25 * time.Second

func (w *World) addr() string { return fmt.Sprintf("localhost:%d", w.port) }

// kErr judges an error of kafka-go.
func (w *World) kErr(what string, err error) error {
	if d := w.s.WhyDead(300 * time.Millisecond); d != nil {
		return fmt.Errorf("%s: %w", what, d)
	}
	var ne interface{ Timeout() bool }
	var ke kafka.Error
	if errors.Is(err, context.DeadlineExceeded) || (errors.As(err, &ne) && ne.Timeout() && !errors.As(err, &ke)) {
		return pbt.Timeoutf("%s: %v", what, err)
	}
	return fmt.Errorf("%s: kafka-go fails with %w", what, err)
}

// kLog is where kafka-go's logs go while debugging.
func kLog(p string) kafka.Logger {
	if os.Getenv("KM_KLOG") == "" {
		return nil
	}
	return kafka.LoggerFunc(func(f string, a ...any) {
		fmt.Printf(time.Now().Format("05.000 ")+p+" "+f+"\n", a...)
	})
}

func kTime(ms int64) time.Time {
	if ms <= 0 {
		return time.Time{}
	}
	return time.UnixMilli(ms)
}

// kMsg compares a message with the posted record.
func kMsg(s Slot, log []MRec, m *kafka.Message) error {
	if m.Offset < 0 || m.Offset >= int64(len(log)) {
		return fmt.Errorf("%v: kafka-go reads offset %d, %d records were posted", s, m.Offset, len(log))
	}
	r := &log[m.Offset]
	if !bytes.Equal(m.Key, r.Key) || !bytes.Equal(m.Value, r.Value) {
		return fmt.Errorf("%v offset %d: kafka-go reads key %s value %s, posted %s %s", s, m.Offset, showBytes(m.Key), showBytes(m.Value), showBytes(r.Key), showBytes(r.Value))
	}
	if r.Lo <= 0 && m.Time.IsZero() {
		// kafka-go's reader shows these as no time
	} else if ms := m.Time.UnixMilli(); ms < r.Lo || ms > r.Hi || m.Time.Nanosecond()%1e6 != 0 {
		return fmt.Errorf("%v offset %d: kafka-go reads time %d ms, posted with %d..%d", s, m.Offset, ms, r.Lo, r.Hi)
	}
	if len(m.Headers) != 0 {
		return fmt.Errorf("%v offset %d: kafka-go reads headers", s, m.Offset)
	}
	return nil
}

func sub(logs map[Slot][]MRec, topics []string) map[Slot][]MRec {
	out := map[Slot][]MRec{}
	for s, log := range logs {
		for _, t := range topics {
			if t == s.Topic {
				out[s] = log
			}
		}
	}
	return out
}

// runRead runs the consumers of one step to their ends.
func (w *World) runRead(st *kStep, slots []Slot, ctx *pbt.Ctx) error {
	// what will have been posted in the end; the posts of the step are made by
	// one goroutine, in order
	var mu sync.Mutex // guards the model while the posts run
	final := map[Slot]int{}
	for s, log := range w.mod.Parts {
		final[s] = len(log)
	}
	pend := map[Slot][]MRec{}
	for _, p := range st.Posts {
		s := slots[p.Slot%len(slots)]
		final[s] += len(p.Recs)
		for _, r := range p.Recs {
			mr := MRec{Key: r.Key.Bytes(), Value: r.Value.Bytes(), Lo: r.Ms, Hi: r.Ms}
			if !r.Ext {
				mr.Lo, mr.Hi = time.Now().UnixMilli(), 1<<62
			}
			pend[s] = append(pend[s], mr)
		}
	}
	start := map[Slot]int64{}
	logs := map[Slot][]MRec{}
	for s, log := range w.mod.Parts {
		start[s] = int64(len(log))
		logs[s] = append(append([]MRec(nil), log...), pend[s]...)
	}
	maxSize := 0
	for _, log := range logs {
		for i := range log {
			if n := log[i].size(); n > maxSize {
				maxSize = n
			}
		}
	}

	type done struct {
		err   error
		sync  bool
		hi    map[Slot]int64 // the largest committed
		close func() error
	}
	res := make([]done, len(st.Reads))
	// how far the consumers of a group have got together: one that joins when
	// another has committed does not get what lies before
	together := map[ckey]int64{}
	var wg sync.WaitGroup
	var topics []string
	for _, s := range slots {
		dup := false
		for _, t := range topics {
			dup = dup || t == s.Topic
		}
		if !dup {
			topics = append(topics, s.Topic)
		}
	}
	for i := range st.Reads {
		i := i
		rd := st.Reads[i]
		// a commit that fails would take the message with it
		d := &res[i]
		d.sync = rd.CommitMs == 0
		d.hi = map[Slot]int64{}
		group := kGroups[rd.Group]
		base := map[Slot]int64{}
		// it only takes the topics it asked for
		ask := topics[:1+rd.Topics%len(topics)]
		logs := sub(logs, ask)
		for s := range logs {
			base[s] = w.mod.Commits[ckey{s, group}]
		}
		// several readers of one group may see each other's commits
		alone := true
		for j := range st.Reads {
			alone = alone && (j == i || st.Reads[j].Group != rd.Group)
		}
		rd.Auto = rd.Auto && !st.Restart && alone
		max := rd.MaxBytes
		if max < maxSize {
			max = maxSize
		}
		r := kafka.NewReader(kafka.ReaderConfig{
			Brokers: []string{w.addr()}, GroupID: group, GroupTopics: ask,
			MinBytes: 1, MaxBytes: max, MaxWait: time.Duration(rd.WaitMs) * time.Millisecond, ReadBatchTimeout: 5 * time.Second,
			CommitInterval: time.Duration(rd.CommitMs) * time.Millisecond, QueueCapacity: rd.Queue,
			HeartbeatInterval: time.Duration(rd.BeatMs) * time.Millisecond,
			ReadBackoffMin:    2 * time.Millisecond, ReadBackoffMax: 20 * time.Millisecond,
			JoinGroupBackoff: 50 * time.Millisecond, MaxAttempts: 50,
			Logger: kLog(fmt.Sprint("r", i)), ErrorLogger: kLog(fmt.Sprint("r", i)),
		})
		d.close = func() error {
			ch := make(chan error, 1)
			go func() { ch <- r.Close() }()
			select {
			case err := <-ch:
				return err
			case <-time.After(kWait):
				return context.DeadlineExceeded
			}
		}
		avail := 0
		for s := range logs {
			n := int64(len(logs[s]))
			if rd.Part < 10 {
				n = start[s]
			}
			if n > base[s] {
				avail += int(n - base[s])
			}
		}
		want := avail
		if rd.Part < 10 {
			want = avail * rd.Part / 10
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, cancel := context.WithTimeout(context.Background(), kWait)
			defer cancel()
			next := map[Slot]int64{}
			hwm := map[Slot]int64{}
			commits := map[Slot]map[int64]bool{} // what had been committed when
			// open partitions: those with something left to read
			left := func() int {
				n := 0
				for s := range logs {
					at, ok := next[s]
					if !ok {
						at = base[s]
					}
					if !alone {
						mu.Lock()
						if t := together[ckey{s, group}]; t > at {
							at = t
						}
						mu.Unlock()
					}
					if at < int64(len(logs[s])) {
						n++
					}
				}
				return n
			}
			var held []kafka.Message
			for n := 0; ; n++ {
				if rd.Part < 10 && n >= want || (rd.Part >= 10 || !alone) && left() == 0 {
					break
				}
				var m kafka.Message
				var err error
				if rd.Auto {
					m, err = r.ReadMessage(c)
				} else {
					c1, cancel := c, context.CancelFunc(func() {})
					if !alone {
						c1, cancel = context.WithTimeout(c, 200*time.Millisecond)
					}
					m, err = r.FetchMessage(c1)
					cancel()
					if err != nil && c1.Err() != nil && c.Err() == nil {
						n--
						continue
					}
				}
				if err != nil && st.Restart && c.Err() == nil && w.s.Alive() {
					// the mock is away for a moment
					n--
					time.Sleep(20 * time.Millisecond)
					continue
				}
				if err != nil {
					d.err = w.kErr(fmt.Sprintf("reader %d of group %q after %d of %d messages", i, group, n, want), err)
					return
				}
				s := Slot{m.Topic, int32(m.Partition)}
				log, ok := logs[s]
				if !ok {
					d.err = fmt.Errorf("reader %d gets a message of %v, which it should not", i, s)
					return
				}
				if err := kMsg(s, log, &m); err != nil {
					d.err = fmt.Errorf("reader %d: %w", i, err)
					return
				}
				exp, seen := next[s]
				if !seen {
					exp = base[s]
				}
				if m.Offset != exp {
					// a consumer that had to join again resumes at what is committed
					again := (st.Restart || rd.BeatMs > 0) && (commits[s][m.Offset] || m.Offset == base[s])
					// another one of the group may have committed meanwhile
					other := !alone && m.Offset > base[s]
					if !again && !other {
						d.err = fmt.Errorf("reader %d of group %q, %v: offset %d after %d (committed at first: %d)", i, group, s, m.Offset, exp-1, base[s])
						return
					}
				}
				next[s] = m.Offset + 1
				mu.Lock()
				if k := (ckey{s, group}); next[s] > together[k] {
					together[k] = next[s]
				}
				mu.Unlock()
				if m.HighWaterMark <= m.Offset || m.HighWaterMark < start[s] || m.HighWaterMark > int64(len(log)) || (m.HighWaterMark < hwm[s] && !st.Restart) {
					d.err = fmt.Errorf("reader %d, %v offset %d: high watermark %d with %d..%d records posted (was %d)", i, s, m.Offset, m.HighWaterMark, start[s], len(log), hwm[s])
					return
				}
				hwm[s] = m.HighWaterMark
				var now []kafka.Message
				if rd.Auto {
					now = []kafka.Message{m}
				} else {
					switch rd.Commit[n%len(rd.Commit)] {
					case 1:
						now = []kafka.Message{m}
					case 2:
						now = append(held, m)
						held = nil
					default:
						held = append(held, m)
					}
					if len(now) > 0 {
						if err := r.CommitMessages(c, now...); err != nil {
							if st.Restart {
								// it may have been made before the connection went
								d.sync = false
							} else {
								d.err = w.kErr(fmt.Sprintf("reader %d of group %q: commit", i, group), err)
								return
							}
						}
					}
				}
				for _, m := range now {
					s := Slot{m.Topic, int32(m.Partition)}
					if m.Offset+1 > d.hi[s] {
						d.hi[s] = m.Offset + 1
					}
					if commits[s] == nil {
						commits[s] = map[int64]bool{}
					}
					commits[s][m.Offset+1] = true
				}
			}
		}()
	}
	// the posts, and the restart
	postErr := make(chan error, 1)
	go func() {
		if st.AfterMs > 0 {
			time.Sleep(time.Duration(st.AfterMs) * time.Millisecond)
		}
		for _, p := range st.Posts {
			s := slots[p.Slot%len(slots)]
			r, err := w.call(ctl.Cmd{Op: "post", Topic: s.Topic, Part: int(s.Part), Recs: p.Recs, PauseUs: p.PauseUs})
			if err != nil {
				postErr <- err
				return
			}
			mu.Lock()
			w.mod.post(s, p.Recs, r)
			mu.Unlock()
		}
		if st.Restart {
			if _, err := w.callT(ctl.Cmd{Op: "restart"}, kWait); err != nil {
				postErr <- err
				return
			}
		}
		postErr <- nil
	}()
	perr := <-postErr
	wg.Wait()
	err := perr
	for i := range res {
		if err == nil {
			err = res[i].err
		}
	}
	if st.Finish && err == nil {
		_, err = w.call(ctl.Cmd{Op: "finish"})
	}
	for i := range res {
		if e := res[i].close(); e != nil && err == nil {
			err = w.kErr(fmt.Sprintf("reader %d: close", i), e)
		}
	}
	if err != nil {
		return err
	}
	// what is committed now
	lo := map[ckey]int64{}
	hi := map[ckey]int64{}
	for i, rd := range st.Reads {
		for s, v := range res[i].hi {
			k := ckey{s, kGroups[rd.Group]}
			if v > hi[k] {
				hi[k] = v
			}
			// a commit was acknowledged, or is flushed by an undisturbed close
			if (res[i].sync || (!st.Restart && !st.Finish)) && v > lo[k] {
				lo[k] = v
			}
		}
	}
	if st.Finish {
		// it accepts no more requests
		if err := w.restart(); err != nil {
			return err
		}
	}
	w.closeConns()
	for k, v := range hi {
		if v > w.mod.Commits[k] {
			resp, err := w.do(0, &wire.Req{OFetch: &wire.OFetchReq{Group: k.group, Topics: []wire.OFetchTopic{{Topic: k.Topic, Parts: []int32{k.Part}}}}})
			if err != nil {
				return err
			}
			f := resp.(*wire.OFetchResp)
			if len(f.Topics) != 1 || len(f.Topics[0].Parts) != 1 {
				return fmt.Errorf("group %q: no single offset for %v", k.group, k.Slot)
			}
			got := f.Topics[0].Parts[0].Off
			low := lo[k]
			if m := w.mod.Commits[k]; m > low {
				low = m
			}
			if got < low || got > v {
				return fmt.Errorf("group %q, %v: offset %d after the consumers have gone, they committed %d (acknowledged: %d)", k.group, k.Slot, got, v, low)
			}
			w.mod.Commits[k] = got
		}
	}
	return nil
}

// kConn compares what kafka-go's Conn sees of one partition.
func (w *World) kConn(st *kStep, s Slot) error {
	log := w.mod.Parts[s]
	ctx, cancel := context.WithTimeout(context.Background(), kWait)
	defer cancel()
	c, err := kafka.DialLeader(ctx, "tcp", w.addr(), s.Topic, int(s.Part))
	if err != nil {
		return w.kErr("DialLeader", err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(kWait))
	ps, err := c.ReadPartitions(s.Topic)
	if err != nil {
		return w.kErr("ReadPartitions", err)
	}
	have := w.mod.topics()
	if len(ps) != len(have[s.Topic]) {
		return fmt.Errorf("kafka-go sees %d partitions of %q, created were %d", len(ps), s.Topic, len(have[s.Topic]))
	}
	for _, p := range ps {
		if p.Topic != s.Topic || !have[s.Topic][int32(p.ID)] || p.Leader.Port != w.port || p.Error != nil {
			return fmt.Errorf("kafka-go sees partition %+v", p)
		}
	}
	all, err := c.ReadPartitions([]string{}...)
	if err != nil {
		return w.kErr("ReadPartitions", err)
	}
	if len(all) != len(have[s.Topic]) && len(all) != len(w.mod.Parts) {
		return fmt.Errorf("kafka-go sees %d partitions, created were %d", len(all), len(w.mod.Parts))
	}
	b, err := c.Controller()
	if err != nil {
		return w.kErr("Controller", err)
	}
	if b.Port != w.port || b.Host != "localhost" {
		return fmt.Errorf("kafka-go sees controller %+v, the port is %d", b, w.port)
	}
	bs, err := c.Brokers()
	if err != nil {
		return w.kErr("Brokers", err)
	}
	if len(bs) != 1 || bs[0] != b {
		return fmt.Errorf("kafka-go sees brokers %+v, controller %+v", bs, b)
	}
	first, last, err := c.ReadOffsets()
	if err != nil {
		return w.kErr("ReadOffsets", err)
	}
	if first != 0 || last != int64(len(log)) {
		return fmt.Errorf("%v: kafka-go reads offsets %d, %d of %d records", s, first, last, len(log))
	}
	if st.T > 0 {
		off, err := c.ReadOffset(time.UnixMilli(st.T))
		if err != nil {
			return w.kErr("ReadOffset", err)
		}
		lo, hi := -1, len(log) // the first that surely is, that may be
		for i := len(log) - 1; i >= 0; i-- {
			if log[i].Lo >= st.T {
				hi = i
			}
			if log[i].Hi >= st.T {
				lo = i
			}
		}
		if lo < 0 {
			lo = len(log)
		}
		if off < int64(lo) || off > int64(hi) {
			return fmt.Errorf("%v: kafka-go reads offset %d for time %d, it is %d..%d", s, off, st.T, lo, hi)
		}
	}
	from := st.Off.resolve(len(log))
	at, err := c.Seek(from, kafka.SeekAbsolute)
	if err != nil || at != from {
		return w.kErr(fmt.Sprintf("Seek(%d) gives %d", from, at), err)
	}
	max := st.Max
	for i := range log {
		if n := log[i].size(); n > max {
			max = n
		}
	}
	if max == 0 {
		max = 1
	}
	for at < int64(len(log)) {
		batch := c.ReadBatchWith(kafka.ReadBatchConfig{MinBytes: 1, MaxBytes: max, MaxWait: 2 * time.Second})
		if batch.HighWaterMark() != int64(len(log)) {
			batch.Close()
			return fmt.Errorf("%v: kafka-go sees high watermark %d of %d records", s, batch.HighWaterMark(), len(log))
		}
		n := 0
		for {
			m, err := batch.ReadMessage()
			if err != nil {
				if !errors.Is(err, io.EOF) {
					batch.Close()
					return w.kErr(fmt.Sprintf("%v: batch at %d", s, at), err)
				}
				break
			}
			if m.Offset != at {
				return fmt.Errorf("%v: kafka-go's batch has offset %d, not %d", s, m.Offset, at)
			}
			if err := kMsg(s, log, &m); err != nil {
				return err
			}
			at++
			n++
		}
		if err := batch.Close(); err != nil && !errors.Is(err, io.EOF) {
			return w.kErr("closing a batch", err)
		}
		if n == 0 {
			return fmt.Errorf("%v: kafka-go gets an empty batch at %d of %d records, limit %d", s, at, len(log), max)
		}
	}
	if st.Max%3 == 0 {
		batch := c.ReadBatchWith(kafka.ReadBatchConfig{MinBytes: 1, MaxBytes: max, MaxWait: 30 * time.Millisecond})
		if m, err := batch.ReadMessage(); err == nil {
			batch.Close()
			return fmt.Errorf("%v: kafka-go reads offset %d at the end %d", s, m.Offset, len(log))
		}
		batch.Close()
	}
	return nil
}

// kClient compares what the request client sees.
func (w *World) kClient(st *kStep, slots []Slot) error {
	ctx, cancel := context.WithTimeout(context.Background(), kWait)
	defer cancel()
	tr := &kafka.Transport{}
	defer tr.CloseIdleConnections()
	cl := &kafka.Client{Addr: kafka.TCP(w.addr()), Timeout: kWait, Transport: tr}
	have := w.mod.topics()
	s := slots[st.Slot%len(slots)]
	log := w.mod.Parts[s]
	group := kGroups[st.Group]

	md, err := cl.Metadata(ctx, &kafka.MetadataRequest{Topics: []string{s.Topic}})
	if err != nil {
		return w.kErr("Metadata", err)
	}
	if len(md.Topics) != 1 || md.Topics[0].Name != s.Topic || md.Topics[0].Error != nil || len(md.Topics[0].Partitions) != len(have[s.Topic]) {
		return fmt.Errorf("kafka-go's metadata of %q: %+v", s.Topic, md.Topics)
	}
	for _, p := range md.Topics[0].Partitions {
		if !have[s.Topic][int32(p.ID)] || p.Leader.Port != w.port {
			return fmt.Errorf("kafka-go's metadata of %q: %+v", s.Topic, p)
		}
	}
	fc, err := cl.FindCoordinator(ctx, &kafka.FindCoordinatorRequest{Key: group, KeyType: kafka.CoordinatorKeyTypeConsumer})
	if err != nil {
		return w.kErr("FindCoordinator", err)
	}
	if fc.Error != nil || fc.Coordinator == nil || fc.Coordinator.Port != w.port {
		return fmt.Errorf("kafka-go finds coordinator %+v, the port is %d", fc, w.port)
	}
	// commit, then read back
	off := st.Off.resolve(len(log))
	if off > 0 {
		oc, err := cl.OffsetCommit(ctx, &kafka.OffsetCommitRequest{GroupID: group, GenerationID: 0, MemberID: "1", Topics: map[string][]kafka.OffsetCommit{s.Topic: {{Partition: int(s.Part), Offset: off}}}})
		if err != nil {
			return w.kErr("OffsetCommit", err)
		}
		for _, p := range oc.Topics[s.Topic] {
			if p.Error != nil || p.Partition != int(s.Part) {
				return fmt.Errorf("kafka-go's commit of %v: %+v", s, p)
			}
		}
		w.mod.commit(group, s, off)
	}
	q := map[string][]int{}
	for t, ps := range have {
		for p := range ps {
			q[t] = append(q[t], int(p))
		}
	}
	of, err := cl.OffsetFetch(ctx, &kafka.OffsetFetchRequest{GroupID: group, Topics: q})
	if err != nil {
		return w.kErr("OffsetFetch", err)
	}
	n := 0
	for t, ps := range of.Topics {
		for _, p := range ps {
			n++
			if v := w.mod.Commits[ckey{Slot{t, int32(p.Partition)}, group}]; p.Error != nil || p.CommittedOffset != v {
				return fmt.Errorf("kafka-go's offset of group %q for %q/%d: %+v, committed was %d", group, t, p.Partition, p, v)
			}
		}
	}
	if n != len(w.mod.Parts) {
		return fmt.Errorf("kafka-go gets %d offsets for %d partitions", n, len(w.mod.Parts))
	}
	lo, err := cl.ListOffsets(ctx, &kafka.ListOffsetsRequest{Topics: map[string][]kafka.OffsetRequest{s.Topic: {kafka.FirstOffsetOf(int(s.Part)), kafka.LastOffsetOf(int(s.Part))}}})
	if err != nil {
		return w.kErr("ListOffsets", err)
	}
	if ps := lo.Topics[s.Topic]; len(ps) != 1 || ps[0].Error != nil || ps[0].FirstOffset != 0 || ps[0].LastOffset != int64(len(log)) {
		return fmt.Errorf("kafka-go lists %+v for %v with %d records", ps, s, len(log))
	}
	from := off
	max := st.Max
	for i := range log {
		if n := log[i].size(); n > max {
			max = n
		}
	}
	if from < int64(len(log)) {
		f, err := cl.Fetch(ctx, &kafka.FetchRequest{Topic: s.Topic, Partition: int(s.Part), Offset: from, MinBytes: 1, MaxBytes: int64(max), MaxWait: time.Second})
		if err != nil {
			return w.kErr("Fetch", err)
		}
		if f.Error != nil || f.HighWatermark != int64(len(log)) || f.Topic != s.Topic || f.Partition != int(s.Part) {
			return fmt.Errorf("kafka-go fetches %v: error %v, high watermark %d of %d", s, f.Error, f.HighWatermark, len(log))
		}
		n := 0
		for ; ; n++ {
			r, err := f.Records.ReadRecord()
			if err != nil {
				if errors.Is(err, io.EOF) {
					break
				}
				return w.kErr(fmt.Sprintf("%v: records at %d", s, from+int64(n)), err)
			}
			m := kafka.Message{Offset: r.Offset, Time: r.Time}
			if r.Key != nil {
				m.Key, _ = io.ReadAll(r.Key)
			}
			if r.Value != nil {
				m.Value, _ = io.ReadAll(r.Value)
			}
			if r.Offset != from+int64(n) {
				return fmt.Errorf("%v: kafka-go's record %d from %d has offset %d", s, n, from, r.Offset)
			}
			if err := kMsg(s, log, &m); err != nil {
				return err
			}
		}
		if n == 0 {
			return fmt.Errorf("%v: kafka-go fetches nothing at %d of %d, limit %d", s, from, len(log), max)
		}
	}
	hb, err := cl.Heartbeat(ctx, &kafka.HeartbeatRequest{GroupID: group, MemberID: "1"})
	if err != nil {
		return w.kErr("Heartbeat", err)
	}
	if hb.Error != nil {
		return fmt.Errorf("kafka-go's heartbeat: %v", hb.Error)
	}
	return nil
}

func runKgo(c kCase, ctx *pbt.Ctx) error {
	w, err := newMockOn(false, true, false, c.High)
	if err != nil {
		return err
	}
	defer w.close()
	if err := w.fill(c.Store); err != nil {
		return err
	}
	for i := range c.Steps {
		st := &c.Steps[i]
		slots := c.Store.Slots
		s := slots[st.Slot%len(slots)]
		var err error
		switch st.Kind {
		case "read":
			err = w.runRead(st, slots, ctx)
			ctx.NonTrivial()
			ctx.Class("consumers")
			ctx.ClassIf(st.Restart, "restart while consuming")
			ctx.ClassIf(len(st.Posts) > 0, "posts while consuming")
			ctx.ClassIf(len(st.Reads) > 1, "several consumers")
		case "post":
			for _, p := range st.Posts {
				if err == nil {
					err = w.post(slots[p.Slot%len(slots)], p.Recs)
				}
			}
		case "setoff":
			err = w.setoff(kGroups[st.Group], s, st.Off.resolve(len(w.mod.Parts[s])))
		case "commit":
			err = w.commitOne(0, kGroups[st.Group], s, st.Off.resolve(len(w.mod.Parts[s])))
		case "restart":
			err = w.restart()
		case "stopstart":
			w.closeConns()
			if _, err = w.call(ctl.Cmd{Op: "stopwait"}); err == nil {
				err = w.start()
				if err == nil {
					_, err = w.conn(0)
				}
			}
		case "conn":
			err = w.kConn(st, s)
			ctx.Class("connection calls")
		case "client":
			err = w.kClient(st, slots)
			ctx.Class("client calls")
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, st.Kind, err)
		}
	}
	return w.judgeAll(0, kGroups[:c.NGroups]...)
}

func genPosts(nslots, max int) *rapid.Generator[[]kPost] {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) kPost {
		return kPost{Slot: rapid.IntRange(0, nslots-1).Draw(t, "slot"), Recs: genRecs(max).Draw(t, "recs"), PauseUs: rapid.SampledFrom([]int{0, 0, 100, 2000}).Draw(t, "pause")}
	}), 1, 4)
}

func TestC18(t *testing.T) {
	pbt.Check(t, pbt.Prop[kCase]{
		ID:   "C18",
		Rule: "A case is a store and 1-6 steps: kafka-go group consumers (1-3 at once, of 1-3 groups, any fetch limit, queue, commit mode and pattern) reading part or all of what is there and what is posted meanwhile, possibly with a restart under them, then closed; posts, direct offsets, raw commits, restarts; kafka-go connection calls and client calls; all compared with the model; non-trivial if consumers ran.",
		Gen: func(t *rapid.T) kCase {
			c := kCase{Store: genStore(1, 4, 3000, false).Draw(t, "store"), NGroups: rapid.IntRange(1, 3).Draw(t, "groups"), High: rapid.Bool().Draw(t, "high port")}
			n := len(c.Store.Slots)
			c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) kStep {
				st := kStep{Kind: rapid.SampledFrom([]string{"read", "read", "read", "read", "post", "setoff", "setoff", "commit", "restart", "stopstart", "conn", "client"}).Draw(t, "kind")}
				st.Slot = rapid.IntRange(0, n-1).Draw(t, "slot")
				st.Group = rapid.IntRange(0, c.NGroups-1).Draw(t, "group")
				st.Off = genOff().Draw(t, "off")
				for st.Off.Abs || (st.Off.End && st.Off.D < 0) {
					st.Off = OffSpec{}
				}
				st.Max = rapid.SampledFrom([]int{1, 100, 1000, 3000, 1 << 20}).Draw(t, "max")
				switch st.Kind {
				case "read":
					st.Reads = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) kRead {
						return kRead{
							Group:    rapid.IntRange(0, c.NGroups-1).Draw(t, "group"),
							Topics:   rapid.IntRange(0, 3).Draw(t, "topics"),
							MaxBytes: rapid.SampledFrom([]int{1, 100, 1024, 5000, 1 << 20, 10e6}).Draw(t, "max"),
							WaitMs:   rapid.SampledFrom([]int{10, 30, 100}).Draw(t, "wait"),
							CommitMs: rapid.SampledFrom([]int{0, 0, 1, 10, 1000}).Draw(t, "commit interval"),
							Queue:    rapid.SampledFrom([]int{1, 2, 10, 100}).Draw(t, "queue"),
							BeatMs:   rapid.SampledFrom([]int{0, 0, 5, 20}).Draw(t, "heartbeat"),
							Part:     rapid.SampledFrom([]int{0, 1, 3, 5, 8, 10, 10, 10}).Draw(t, "part"),
							Commit:   rapid.SliceOfN(rapid.IntRange(0, 2), 1, 5).Draw(t, "commits"),
							Auto:     rapid.IntRange(0, 4).Draw(t, "auto") == 0,
						}
					}), 1, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "readers")).Draw(t, "reads")
					if rapid.Bool().Draw(t, "posting") {
						st.Posts = genPosts(n, 3000).Draw(t, "posts")
					}
					st.Restart = rapid.IntRange(0, 4).Draw(t, "restart") == 0
					st.Finish = rapid.IntRange(0, 2).Draw(t, "finish") == 0
					st.AfterMs = rapid.SampledFrom([]int{0, 1, 5, 20, 60}).Draw(t, "after")
				case "post":
					st.Posts = genPosts(n, 3000).Draw(t, "posts")
				case "conn":
					st.T = int64(rapid.SampledFrom([]int{0, 1, 5, 20, 40, 1700000000000, 1700000000010, 2000000000000}).Draw(t, "time"))
				}
				return st
			}), 1, 6).Draw(t, "steps")
			return c
		},
		Run:   runKgo,
		Fresh: fresh,
		Vary:  setVary,
	})
}
