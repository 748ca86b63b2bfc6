package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"
)

// Conn is a raw client connection.
type Conn struct {
	C   *net.TCPConn
	buf []byte
}

// NewConn wraps a TCP connection.
func NewConn(c net.Conn) *Conn {
	t := c.(*net.TCPConn)
	t.SetNoDelay(true)
	return &Conn{C: t}
}

// Dial connects to a mock on this machine, retrying until it listens.
func Dial(port int, wait time.Duration) (*Conn, error) {
	deadline := time.Now().Add(wait)
	for {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), wait)
		if err == nil {
			// a connection to an unused local port can meet itself
			if c.LocalAddr().String() != c.RemoteAddr().String() {
				return NewConn(c), nil
			}
			c.Close()
			err = errors.New("connected to itself")
		}
		if time.Now().After(deadline) {
			return nil, err
		}
		time.Sleep(time.Millisecond)
	}
}

// Send writes all bytes.
func (c *Conn) Send(b []byte) error {
	c.C.SetWriteDeadline(time.Now().Add(30 * time.Second))
	_, err := c.C.Write(b)
	return err
}

// ErrTimeout: no complete response in time.
var ErrTimeout = errors.New("no complete response in time")

// ErrClosed: the server closed the connection.
var ErrClosed = errors.New("connection closed by the server")

// Recv reads one length-prefixed response.
func (c *Conn) Recv(wait time.Duration) (corr int32, body []byte, err error) {
	c.C.SetReadDeadline(time.Now().Add(wait))
	defer c.C.SetReadDeadline(time.Time{})
	if err = c.fill(8); err != nil {
		return
	}
	n := int(int32(binary.BigEndian.Uint32(c.buf)))
	if n < 4 {
		err = fmt.Errorf("response length prefix is %d", n)
		return
	}
	corr = int32(binary.BigEndian.Uint32(c.buf[4:]))
	if err = c.fill(4 + n); err != nil {
		return
	}
	body = append([]byte{}, c.buf[8:4+n]...)
	c.buf = c.buf[4+n:]
	return
}

func (c *Conn) fill(n int) error {
	if len(c.buf) >= n {
		return nil
	}
	tmp := make([]byte, 64<<10)
	for len(c.buf) < n {
		k, err := c.C.Read(tmp)
		c.buf = append(c.buf, tmp[:k]...)
		if len(c.buf) >= n {
			return nil
		}
		if err != nil {
			if errors.Is(err, os.ErrDeadlineExceeded) {
				return fmt.Errorf("%w (have %d of %d bytes)", ErrTimeout, len(c.buf), n)
			}
			return fmt.Errorf("%w (have %d of %d bytes; %v)", ErrClosed, len(c.buf), n, err)
		}
	}
	return nil
}

// ExpectEOF waits for the server to close, returning any bytes it sent before.
func (c *Conn) ExpectEOF(wait time.Duration) (extra []byte, err error) {
	c.C.SetReadDeadline(time.Now().Add(wait))
	defer c.C.SetReadDeadline(time.Time{})
	extra = append(extra, c.buf...)
	c.buf = nil
	tmp := make([]byte, 64<<10)
	for {
		k, err := c.C.Read(tmp)
		extra = append(extra, tmp[:k]...)
		if err == nil {
			continue
		}
		if errors.Is(err, os.ErrDeadlineExceeded) {
			return extra, ErrTimeout
		}
		if errors.Is(err, io.EOF) {
			return extra, nil
		}
		return extra, nil // reset: closed as well
	}
}

// Drip reads a little of what there is, with pauses, and keeps it.
func (c *Conn) Drip(times int, pause, wait time.Duration) error {
	tmp := make([]byte, 40000)
	for i := 0; i < times; i++ {
		c.C.SetReadDeadline(time.Now().Add(wait))
		k, err := c.C.Read(tmp)
		c.C.SetReadDeadline(time.Time{})
		c.buf = append(c.buf, tmp[:k]...)
		if err != nil {
			if errors.Is(err, os.ErrDeadlineExceeded) {
				return ErrTimeout
			}
			return ErrClosed
		}
		time.Sleep(pause)
	}
	return nil
}

// Quiet checks that nothing arrives for a while.
func (c *Conn) Quiet(d time.Duration) error {
	if len(c.buf) > 0 {
		return fmt.Errorf("%d surplus bytes from the server", len(c.buf))
	}
	c.C.SetReadDeadline(time.Now().Add(d))
	defer c.C.SetReadDeadline(time.Time{})
	tmp := make([]byte, 4096)
	k, err := c.C.Read(tmp)
	if k > 0 {
		return fmt.Errorf("%d surplus bytes from the server", k)
	}
	if errors.Is(err, os.ErrDeadlineExceeded) {
		return nil
	}
	return fmt.Errorf("%w (%v)", ErrClosed, err)
}

// Reset closes the connection so that the peer sees a reset.
func (c *Conn) Reset() {
	c.C.SetLinger(0)
	c.C.Close()
}

// Close closes the connection.
func (c *Conn) Close() { c.C.Close() }

// Rest is what was received beyond the last response.
func (c *Conn) Rest() []byte { return c.buf }
