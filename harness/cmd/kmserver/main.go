// kmserver hosts mocks for the checks; see kmverif/ctl.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jimsnab/go-lane"
	kafkamock "github.com/jimsnab/kafka-mock-go"

	"kmverif/ctl"
)

var (
	mu      sync.Mutex
	mocks   = map[int]*kafkamock.KafkaMock{}
	cancels = map[int]context.CancelFunc{}
	outMu   sync.Mutex
	out     = bufio.NewWriter(os.Stdout)

	statMu  sync.Mutex
	statBuf = make([]byte, 8<<20)

	shared = lane.NewNullLane(context.Background())
)

func get(m int) *kafkamock.KafkaMock {
	mu.Lock()
	defer mu.Unlock()
	km := mocks[m]
	if km == nil {
		panic(fmt.Sprintf("kmserver: no mock %d", m))
	}
	return km
}

var spun atomic.Int64

func run(c *ctl.Cmd) (r ctl.Reply) {
	r.ID = c.ID
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprintf("%v", p)
			if strings.HasPrefix(r.Panic, "kmserver:") {
				panic(p)
			}
		}
	}()
	if c.Mono && c.Op != "post" {
		r.S = []int64{ctl.Mono()}
		defer func() { r.E = []int64{ctl.Mono()} }()
	}
	switch c.Op {
	case "new":
		l := shared
		var cancel context.CancelFunc
		if !c.Shared {
			var ctx context.Context
			ctx, cancel = context.WithCancel(context.Background())
			if c.Log {
				l = lane.NewLogLane(ctx) // formats every message
			} else {
				l = lane.NewNullLane(ctx)
			}
		}
		km := kafkamock.NewKafkaMock(l, uint(c.Port))
		mu.Lock()
		mocks[c.M] = km
		cancels[c.M] = cancel
		mu.Unlock()
	case "cancel":
		mu.Lock()
		f := cancels[c.M]
		mu.Unlock()
		f()
	case "drop":
		mu.Lock()
		delete(mocks, c.M)
		delete(cancels, c.M)
		mu.Unlock()
	case "start":
		get(c.M).Start()
	case "stop":
		get(c.M).RequestStop()
	case "wait":
		get(c.M).WaitForTermination()
	case "stopwait":
		km := get(c.M)
		km.RequestStop()
		km.WaitForTermination()
	case "finish":
		get(c.M).FinishRequests()
	case "restart":
		km := get(c.M)
		if c.Procs > 0 {
			old := runtime.GOMAXPROCS(c.Procs)
			defer runtime.GOMAXPROCS(old)
		}
		km.Restart()
		if c.Probe {
			k, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", c.Port))
			if err != nil {
				r.Refused = err.Error()
			} else {
				k.Close()
			}
		}
	case "create":
		get(c.M).CreatePartitionTopics(c.Topics, c.Part)
	case "setoff":
		get(c.M).SetConsumerGroupOffset(c.Topic, c.Part, c.Group, c.Off)
	case "post":
		km := get(c.M)
		for i, rec := range c.Recs {
			if i > 0 && c.PauseUs > 0 {
				time.Sleep(time.Duration(c.PauseUs) * time.Microsecond)
			}
			k, v := rec.Key.Bytes(), rec.Value.Bytes()
			if c.Mono {
				r.S = append(r.S, ctl.Mono())
			}
			r.T0 = append(r.T0, time.Now().UnixMilli())
			if rec.Ext {
				var h map[string][]byte
				for j := 0; j < rec.Headers; j++ {
					if h == nil {
						h = map[string][]byte{}
					}
					h[fmt.Sprintf("h%d", j)] = []byte{byte(j)}
				}
				km.ExtendedPost(c.Topic, c.Part, k, v, h, rec.Time())
			} else {
				km.SimplePost(c.Topic, c.Part, k, v)
			}
			r.T1 = append(r.T1, time.Now().UnixMilli())
			if c.Mono {
				r.E = append(r.E, ctl.Mono())
			}
		}
	case "sleep":
		time.Sleep(time.Duration(c.PauseUs) * time.Microsecond)
	case "spin":
		for i := 0; i < c.N; i++ {
			spun.Add(1)
		}
	case "par":
		r.Threads = make([][]ctl.Reply, len(c.Threads))
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range c.Threads {
			i := i
			r.Threads[i] = make([]ctl.Reply, len(c.Threads[i]))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for j := range c.Threads[i] {
					r.Threads[i][j] = run(&c.Threads[i][j])
				}
			}()
		}
		close(gate)
		wg.Wait()
	case "gcoff":
		// from here on nothing is released by a finalizer
		runtime.GC()
		runtime.GC()
		debug.SetGCPercent(-1)
	case "heap":
		for i := 0; i < 3; i++ {
			runtime.GC()
			time.Sleep(time.Millisecond) // for finalizers
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		r.Heap, r.Objects = int64(ms.HeapAlloc), int64(ms.HeapObjects)
	case "stats":
		stats(c, &r)
	default:
		panic("kmserver: unknown op " + c.Op)
	}
	return
}

func stats(c *ctl.Cmd, r *ctl.Reply) {
	statMu.Lock()
	defer statMu.Unlock()
	buf := statBuf[:runtime.Stack(statBuf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "jimsnab/kafka-mock-go") {
			r.Goroutines++
			if r.Goroutines <= 3 {
				r.Stacks += g + "\n\n"
			}
		}
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if t, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(t, "socket:") {
			r.Sockets++
		}
	}
	r.Clients = -1
	mu.Lock()
	km := mocks[c.M]
	mu.Unlock()
	if km != nil {
		f := reflect.ValueOf(km).Elem().FieldByName("clients")
		if f.IsValid() && f.Kind() == reflect.Map {
			r.Clients = f.Len()
		}
	}
}

func main() {
	debug.SetMemoryLimit(3 << 30)
	log.SetOutput(io.Discard) // of the lanes that write a log
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		c := &ctl.Cmd{}
		if err := json.Unmarshal(line, c); err != nil {
			panic("kmserver: " + err.Error())
		}
		go func() {
			r := run(c)
			b, _ := json.Marshal(r)
			outMu.Lock()
			out.Write(append(b, '\n'))
			out.Flush()
			outMu.Unlock()
		}()
	}
}
