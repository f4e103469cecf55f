// Package vnet stands in for listening and dialling of package net: connections are pairs of byte queues in memory
// that the explorer schedules.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vrt"
)

// N is the network of the current run.
type N struct {
	listeners map[string]*listener
	Dialed    []string
	Listened  []string
	Conns     []*Conn // the dialling ends
	Cap       int     // how much a direction holds before writers wait (0: any amount)
	Chunk     int     // how much a read returns at most (0: all there is)
	Ops       int     // operations so far
	At        int     // Do is called before this operation
	Do        func()
}

var cur *N

// Reset starts a new network.
func Reset() *N {
	cur = &N{listeners: map[string]*listener{}}
	return cur
}

func op() {
	cur.Ops++
	if cur.Ops == cur.At {
		cur.Do()
	}
}

func port(addr string) string { return addr[strings.LastIndex(addr, ":")+1:] }

type listener struct {
	n      *N
	key    string
	queue  []*Conn
	closed bool
}

func (l *listener) Accept() (net.Conn, error) {
	op()
	vrt.Block("Accept", func() bool { return l.closed || len(l.queue) > 0 })
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}

func (l *listener) Close() error {
	op()
	vrt.P("listener.Close")
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	delete(l.n.listeners, l.key)
	for _, c := range l.queue {
		c.other.eof = true
	}
	return nil
}

func (l *listener) Addr() net.Addr { return addr(l.key) }

type addr string

func (addr) Network() string  { return "tcp" }
func (a addr) String() string { return string(a) }

// Conn is one end of a connection.
type Conn struct {
	n       *N
	Name    string
	By      string // the thread that has dialled
	other   *Conn
	in      []byte
	eof     bool // the other end will send no more
	reset   bool // the network has failed
	Closed  int
	reading bool
	Got     int // bytes read
}

func (c *Conn) Read(p []byte) (int, error) {
	op()
	if c.reading {
		vrt.Fail("two-readers", "two reads of a connection at the same time")
	}
	c.reading = true
	vrt.Block("net.Read "+c.Name, func() bool { return c.Closed > 0 || c.reset || len(c.in) > 0 || c.eof })
	c.reading = false
	switch {
	case c.Closed > 0:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	case c.reset:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: errReset}
	case len(c.in) == 0:
		return 0, io.EOF
	}
	n := len(c.in)
	if c.n.Chunk > 0 && n > c.n.Chunk {
		n = c.n.Chunk
	}
	n = copy(p, c.in[:n])
	c.in = c.in[n:]
	c.Got += n
	return n, nil
}

var (
	errReset = errors.New("connection reset by peer")
	errPipe  = errors.New("broken pipe")
)

func (c *Conn) Write(p []byte) (n int, err error) {
	op()
	o := c.other
	for {
		vrt.Block("net.Write "+c.Name, func() bool {
			return c.Closed > 0 || c.reset || o.Closed > 0 || c.n.Cap == 0 || len(o.in) < c.n.Cap
		})
		switch {
		case c.Closed > 0:
			return n, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		case c.reset:
			return n, &net.OpError{Op: "write", Net: "tcp", Err: errReset}
		case o.Closed > 0:
			return n, &net.OpError{Op: "write", Net: "tcp", Err: errPipe}
		}
		k := len(p)
		if c.n.Cap > 0 && k > c.n.Cap-len(o.in) {
			k = c.n.Cap - len(o.in)
		}
		o.in = append(o.in, p[:k]...)
		n += k
		p = p[k:]
		if len(p) == 0 {
			return n, nil
		}
	}
}

func (c *Conn) Close() error {
	op()
	vrt.P("net.Close " + c.Name)
	c.Closed++
	c.other.eof = true
	if c.Closed > 1 {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	return nil
}

// Fail makes the network fail: both ends get errors, and what is on its way is lost.
func (c *Conn) Fail() {
	vrt.P("network")
	c.reset, c.other.reset = true, true
	c.in, c.other.in = nil, nil
}

// Other is the accepted end.
func (c *Conn) Other() *Conn { return c.other }

func (c *Conn) LocalAddr() net.Addr                { return addr(c.Name) }
func (c *Conn) RemoteAddr() net.Addr               { return addr(c.other.Name) }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct {
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (*ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	op()
	vrt.P("listen")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	key := network + " " + port(address)
	if cur.listeners[key] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("address already in use")}
	}
	l := &listener{n: cur, key: key}
	cur.listeners[key] = l
	cur.Listened = append(cur.Listened, network+" "+address)
	return l, nil
}

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	LocalAddr       net.Addr
}

func (*Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	op()
	vrt.P("dial")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	cur.Dialed = append(cur.Dialed, network+" "+address)
	l := cur.listeners[network+" "+port(address)]
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	}
	n := len(cur.Conns)
	a, b := &Conn{n: cur, Name: fmt.Sprint("client ", n)}, &Conn{n: cur, Name: fmt.Sprint("server ", n)}
	a.other, b.other = b, a
	a.By = vrt.ThreadName()
	cur.Conns = append(cur.Conns, a)
	l.queue = append(l.queue, b)
	return a, nil
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func Listen(network, address string) (net.Listener, error) {
	return (&ListenConfig{}).Listen(context.Background(), network, address)
}

func Dial(network, address string) (net.Conn, error) { return (&Dialer{}).Dial(network, address) }

func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return (&Dialer{}).Dial(network, address)
}
