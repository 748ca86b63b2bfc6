package ctl

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"kmverif/pbt"
)

// Server is a running child.
type Server struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	mu      sync.Mutex
	nextID  int
	waiting map[int]chan Reply
	stderr  tail
	dead    chan struct{}
	killed  bool
	waitErr error
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 256<<10 - len(t.buf); room > 0 { // the head says what happened first
		if len(p) > room {
			t.buf = append(t.buf, p[:room]...)
		} else {
			t.buf = append(t.buf, p...)
		}
	}
	return len(p), nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

// Spawn starts the child named by $KMSERVER (or $KMSERVER_RACE).
func Spawn(race bool) (*Server, error) {
	name := "KMSERVER"
	if race {
		name = "KMSERVER_RACE"
	}
	bin := os.Getenv(name)
	if bin == "" {
		return nil, pbt.Harnessf("%s is not set", name)
	}
	s := &Server{waiting: map[int]chan Reply{}, dead: make(chan struct{})}
	s.cmd = exec.Command(bin)
	s.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single")
	s.cmd.Stderr = &s.stderr
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, pbt.Harnessf("%v", err)
	}
	s.in = in
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, pbt.Harnessf("%v", err)
	}
	if err := s.cmd.Start(); err != nil {
		return nil, pbt.Harnessf("%v", err)
	}
	go func() {
		r := bufio.NewReaderSize(outp, 1<<20)
		for {
			line, err := r.ReadBytes('\n')
			if err != nil {
				break
			}
			var rep Reply
			if json.Unmarshal(line, &rep) != nil {
				continue
			}
			s.mu.Lock()
			ch := s.waiting[rep.ID]
			delete(s.waiting, rep.ID)
			s.mu.Unlock()
			if ch != nil {
				ch <- rep
			}
		}
		s.waitErr = s.cmd.Wait()
		close(s.dead)
	}()
	return s, nil
}

// Kill ends the child.
func (s *Server) Kill() {
	s.mu.Lock()
	s.killed = true
	s.mu.Unlock()
	s.cmd.Process.Kill()
	<-s.dead
}

// Alive says whether the child runs.
func (s *Server) Alive() bool {
	select {
	case <-s.dead:
		return false
	default:
		return true
	}
}

// Crash is the death of the child by a fault of the code under test.
type Crash struct {
	Text string
	Race bool
}

func (e *Crash) Error() string {
	return "the process hosting the mock died: " + e.Text
}

// ErrCall is a call that did not return in time.
var ErrCall = errors.New("call did not return in time")

// PortTaken is the mock failing to listen because the port is in use.
var PortTaken = errors.New("port in use")

// WhyDead describes the death of the child: a *Crash or a harness error. It
// waits a little for a death that is just happening; nil if the child lives.
func (s *Server) WhyDead(wait time.Duration) error {
	select {
	case <-s.dead:
	case <-time.After(wait):
		return nil
	}
	text := s.stderr.String()
	if s.killed {
		return pbt.Harnessf("child was killed by the harness")
	}
	if strings.Contains(text, "WARNING: DATA RACE") {
		return &Crash{Text: clip(text[strings.Index(text, "WARNING: DATA RACE"):], 3000), Race: true}
	}
	for _, mark := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(text, mark); i >= 0 {
			what := text[i:]
			if strings.HasPrefix(what, "panic: kmserver:") {
				return pbt.Harnessf("%s", clip(what, 2000))
			}
			if strings.Contains(what, "address already in use") {
				return PortTaken
			}
			if strings.Contains(what, "out of memory") || strings.Contains(what, "cannot allocate memory") {
				return pbt.Harnessf("child ran out of memory: %s", clip(what, 500))
			}
			return &Crash{Text: clip(what, 1800)}
		}
	}
	return pbt.Harnessf("child ended: %v: %s", s.waitErr, clip(text, 2000))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Pending is a call under way.
type Pending struct {
	s  *Server
	ch chan Reply
	op string
}

// Async sends a command.
func (s *Server) Async(c Cmd) (*Pending, error) {
	s.mu.Lock()
	s.nextID++
	c.ID = s.nextID
	ch := make(chan Reply, 1)
	s.waiting[c.ID] = ch
	s.mu.Unlock()
	b, err := json.Marshal(c)
	if err != nil {
		return nil, pbt.Harnessf("%v", err)
	}
	s.mu.Lock()
	_, err = s.in.Write(append(b, '\n'))
	s.mu.Unlock()
	if err != nil {
		if d := s.WhyDead(2 * time.Second); d != nil {
			return nil, d
		}
		return nil, pbt.Harnessf("cannot write to the child: %v", err)
	}
	return &Pending{s: s, ch: ch, op: c.Op}, nil
}

// Wait for the reply. The reply of a call that panicked is not an error here.
func (p *Pending) Wait(d time.Duration) (Reply, error) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case r := <-p.ch:
		p.ch <- r // may be asked for again
		return r, nil
	case <-p.s.dead:
		select {
		case r := <-p.ch:
			p.ch <- r
			return r, nil
		default:
		}
		return Reply{}, p.s.WhyDead(0)
	case <-t.C:
		return Reply{}, fmt.Errorf("%s: %w", p.op, ErrCall)
	}
}

// Call sends a command and waits for its reply.
func (s *Server) Call(c Cmd, d time.Duration) (Reply, error) {
	p, err := s.Async(c)
	if err != nil {
		return Reply{}, err
	}
	return p.Wait(d)
}

var portMu sync.Mutex
var portNext = -1

// HighPort finds a free port in this shard's range of large numbers.
func HighPort() (int, error) {
	shard, _ := strconv.Atoi(os.Getenv("VP_SHARD"))
	return portIn(61000+(shard%24)*180, 180)
}

// Port finds a free port in this shard's range.
func Port() (int, error) {
	shard, _ := strconv.Atoi(os.Getenv("VP_SHARD"))
	return portIn(20000+(shard%24)*500, 500)
}

func portIn(base, n int) (int, error) {
	portMu.Lock()
	defer portMu.Unlock()
	if portNext < 0 {
		portNext = os.Getpid() * 37 % 500
	}
	for i := 0; i < n; i++ {
		p := base + portNext%n
		portNext = (portNext + 1) % 9000 // a multiple of both sizes
		if p == 21001 || p == 21100 {    // used by the repository's own tests
			continue
		}
		if Free(p) {
			return p, nil
		}
	}
	return 0, pbt.Harnessf("no free port in %d..%d", base, base+n-1)
}

// Free says whether a port can be listened on.
func Free(p int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
	if err != nil {
		return false
	}
	l.Close()
	return true
}
