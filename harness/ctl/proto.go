// Package ctl runs the mock in a child process (cmd/kmserver) and controls it
// with JSON lines, so that a crash of the mock is an observation and not the
// end of the check.
package ctl

import (
	"time"

	"kmverif/wire"
)

// Rec is one record to post.
type Rec struct {
	Key, Value wire.Blob
	Ext        bool  `json:",omitempty"` // ExtendedPost with a timestamp
	Ms         int64 `json:",omitempty"`
	Ns         int32 `json:",omitempty"` // 0..999999, on top of Ms
	Zone       int   `json:",omitempty"` // minutes east
	Headers    int   `json:",omitempty"` // number of headers
}

// Time of an extended record.
func (r Rec) Time() time.Time {
	t := time.UnixMilli(r.Ms).Add(time.Duration(r.Ns)).UTC()
	if r.Zone != 0 {
		t = t.In(time.FixedZone("z", r.Zone*60))
	}
	return t
}

// Cmd is one command to the child.
type Cmd struct {
	ID    int    `json:",omitempty"`
	Op    string // new start stop wait finish restart cancel create post setoff par stats heap gcoff drop
	M     int    `json:",omitempty"` // which mock
	Port  int    `json:",omitempty"`
	Topic string `json:",omitempty"`
	// Topics of create
	Topics  []string `json:",omitempty"`
	Part    int      `json:",omitempty"`
	Group   string   `json:",omitempty"`
	Off     int64    `json:",omitempty"`
	Recs    []Rec    `json:",omitempty"`
	PauseUs int      `json:",omitempty"` // between records
	Shared  bool     `json:",omitempty"` // new: on the lane all such mocks share
	Log     bool     `json:",omitempty"` // new: on a lane that writes a log
	Probe   bool     `json:",omitempty"` // restart: connect as soon as it has returned
	Procs   int      `json:",omitempty"` // restart: with this GOMAXPROCS
	N       int      `json:",omitempty"` // spin: how long
	Mono    bool     `json:",omitempty"` // report S and E
	Threads [][]Cmd  `json:",omitempty"`
}

// Reply of the child.
type Reply struct {
	ID      int
	Panic   string  `json:",omitempty"` // the call panicked
	T0      []int64 `json:",omitempty"` // ms before and after each post
	T1      []int64 `json:",omitempty"`
	Refused string  `json:",omitempty"` // the connection failed
	S, E    []int64 `json:",omitempty"` // Mono before and after the call, or each of its posts
	// stats
	Goroutines int       `json:",omitempty"` // goroutines running the mock's code
	Sockets    int       `json:",omitempty"`
	Clients    int       `json:",omitempty"` // -1: unknown
	Stacks     string    `json:",omitempty"`
	Heap       int64     `json:",omitempty"` // heap: bytes and objects in use
	Objects    int64     `json:",omitempty"`
	Threads    [][]Reply `json:",omitempty"`
}
