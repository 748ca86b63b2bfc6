package bb

import (
	"hash/fnv"
	"math"
	"strings"

	"kmverif/wire"
)

// What the properties say nothing about must not matter: fields of requests
// that are left at their usual values are changed by a number drawn with the
// case. The same request is always changed the same way within a case.
var vary uint32

func setVary(v uint32) { vary = v }

type picker struct{ x uint64 }

func (p *picker) n(n int) int {
	// splitmix64
	p.x += 0x9e3779b97f4a7c15
	z := p.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) % uint64(n))
}

func pick[T any](p *picker, xs ...T) T { return xs[p.n(len(xs))] }

func varyReq(r *wire.Req) {
	if vary == 0 {
		return
	}
	h := fnv.New64a()
	corr := r.Corr
	r.Corr = 0
	h.Write(r.Encode())
	r.Corr = corr
	p := &picker{h.Sum64() ^ uint64(vary)*0x100000001b3}
	if r.Client == nil && p.n(3) == 0 {
		c := pick(p, "", "c", "client 1", strings.Repeat("y", 300))
		r.Client = &c
	}
	member := func() string { return pick(p, "", "1", "1", "m", "me", "you", "2") }
	gen := func() int32 { return pick[int32](p, -1, -1, 0, 1, 1, 2, 7, math.MaxInt32, math.MinInt32) }
	switch { // the request may be part of the case: change copies
	case r.Fetch != nil:
		q := *r.Fetch
		r.Fetch = &q
		if r.Fetch.Replica == -1 && p.n(2) == 0 {
			r.Fetch.Replica = pick[int32](p, 0, 1, 7, 100, -2, math.MaxInt32)
		}
		if r.Fetch.MinBytes == 1 && p.n(2) == 0 {
			r.Fetch.MinBytes = pick[int32](p, 1, 1, 0, -1, 100, 1000000, math.MaxInt32)
		}
	case r.List != nil:
		q := *r.List
		r.List = &q
		if r.List.Replica == -1 && p.n(2) == 0 {
			r.List.Replica = pick[int32](p, 0, 1, 7, 100, -2, math.MaxInt32)
		}
	case r.Commit != nil:
		q := *r.Commit
		r.Commit = &q
		if c := r.Commit; c.Gen == 1 && c.Member == "1" && c.Retention == -1 && p.n(3) > 0 {
			c.Gen, c.Member = gen(), member()
			if p.n(3) == 0 {
				c.Gen, c.Member = -1, "" // without membership
			}
			c.Retention = pick[int64](p, -1, -1, 0, 1, 1000, math.MaxInt64, -2)
		}
	case r.Join != nil:
		q := *r.Join
		r.Join = &q
		if j := r.Join; j.Session == 30000 && j.Rebalance == 30000 && p.n(2) == 0 {
			j.Session = pick[int32](p, 0, 1, 5999, 6000, 300001, -1, math.MaxInt32)
			j.Rebalance = pick[int32](p, 0, 1, 60000, -1, math.MaxInt32)
		}
	}
}
