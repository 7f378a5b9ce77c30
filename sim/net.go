//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The simulated network. Everything here runs cooperatively on one processor
// (the runtime of the simulation has one P and no preemption), so there are
// no locks: a lock held by a machine that crashes would stay held.

const window = 256 << 10

type Net struct {
	w         *World
	rng       *rand.Rand
	listeners map[string]*simListener
	conns     map[*simConn]bool
	order     []*simConn
	nextPort  int
	latUs     int64
	jitUs     int64
	blocked   map[[2]string]string // "hold", "refuse" or "cut", by ordered machine pair
	slow      map[[2]string]int64  // extra latency, us
	busy      map[string]int       // by node: status with which its peers are turned away
	stats     map[string]int64
	connSeq   int
}

func newNet(w *World) *Net {
	return &Net{w: w, rng: rand.New(rand.NewPCG(w.plan.Seed, 77)), listeners: map[string]*simListener{},
		conns: map[*simConn]bool{}, nextPort: 30000, blocked: map[[2]string]string{}, slow: map[[2]string]int64{}, busy: map[string]int{},
		stats: map[string]int64{}, latUs: w.plan.LatUs, jitUs: w.plan.JitUs}
}

// afterSim runs f on a goroutine of the infrastructure.
func afterSim(d time.Duration, f func()) {
	o := runtime.SimSetNode(0)
	time.AfterFunc(d, f)
	runtime.SimSetNode(o)
}

func goSim(f func()) {
	o := runtime.SimSetNode(0)
	go f()
	runtime.SimSetNode(o)
}

func opErr(op string, local, remote net.Addr, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: local, Addr: remote, Err: err}
}

type simListener struct {
	n      *Net
	addr   *net.TCPAddr
	host   *Machine
	inc    int // incarnation (runtime node) it belongs to
	queue  []*simConn
	notify chan struct{}
	closed bool
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, opErr("accept", l.addr, nil, net.ErrClosed)
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			c.inc = l.inc
			return c, nil
		}
		<-l.notify
	}
}

func (l *simListener) wake() {
	select {
	case l.notify <- struct{}{}:
	default:
	}
}

func (l *simListener) Close() error {
	if l.closed {
		return opErr("close", l.addr, nil, net.ErrClosed)
	}
	l.closed = true
	delete(l.n.listeners, l.addr.String())
	for _, c := range l.queue {
		c.abort(syscall.ECONNRESET, true)
	}
	l.queue = nil
	l.wake()
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

func (n *Net) listenOn(m *Machine, inc, port int) (*simListener, error) {
	a := &net.TCPAddr{IP: ipOf(m.ip), Port: port}
	if _, ok := n.listeners[a.String()]; ok {
		return nil, opErr("listen", nil, a, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &simListener{n: n, addr: a, host: m, inc: inc, notify: make(chan struct{}, 1)}
	n.listeners[a.String()] = l
	return l, nil
}

func (n *Net) listenHook(network, address string) (net.Listener, error) {
	inc := runtime.SimNode()
	m := n.w.machineOf(inc)
	if m == nil {
		return nil, fmt.Errorf("sim: listen on %s outside a machine", address)
	}
	host, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("listen", nil, nil, err)
	}
	port, err := strconv.Atoi(ps)
	if err != nil {
		return nil, opErr("listen", nil, nil, err)
	}
	if port < 0 || port > 65535 {
		return nil, opErr("listen", nil, nil, &net.AddrError{Err: "invalid port", Addr: ps})
	}
	switch host {
	case "", "0.0.0.0", "::", m.ip:
	default:
		if net.ParseIP(host) == nil {
			return nil, opErr("listen", nil, nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
		}
		return nil, opErr("listen", nil, nil, os.NewSyscallError("bind", syscall.EADDRNOTAVAIL))
	}
	for _, x := range n.w.windows {
		if x.f.Kind == "port" && x.f.A == m.name && int(x.f.Arg) == port && n.w.now() >= x.from && n.w.now() < x.to {
			n.w.faults["port-in-use"]++
			return nil, opErr("listen", nil, &net.TCPAddr{IP: ipOf(m.ip), Port: port}, os.NewSyscallError("bind", syscall.EADDRINUSE))
		}
	}
	l, err := n.listenOn(m, inc, port)
	if err != nil {
		return nil, err
	}
	n.w.logf("net listen %s %s", m.name, l.addr)
	return l, nil
}

func (n *Net) latency(a, b string) time.Duration {
	d := n.latUs
	if n.jitUs > 0 {
		d += n.rng.Int64N(n.jitUs)
	}
	if x := n.slow[pair(a, b)]; x > 0 {
		d += n.rng.Int64N(x) + x/2
	}
	return time.Duration(d) * time.Microsecond
}

func pair(a, b string) [2]string {
	if a > b {
		a, b = b, a
	}
	return [2]string{a, b}
}

// dialHook is net.Dialer.DialContext.
func (n *Net) dialHook(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
	inc := runtime.SimNode()
	m := n.w.machineOf(inc)
	if m == nil {
		m = n.w.infra
	}
	return n.dial(ctx, m, inc, address)
}

func (n *Net) dial(ctx context.Context, m *Machine, inc int, address string) (net.Conn, error) {
	for i := range n.w.plan.Config.Upstreams {
		// names of origins, and origins behind one address
		u := &n.w.plan.Config.Upstreams[i]
		if u.Host != "" && (address == u.Host || address == u.Host+":80") {
			address = fmt.Sprintf("10.0.2.%d:8000", u.Origin+1)
			break
		}
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("dial", nil, nil, err)
	}
	dst := n.w.lookup(m, host)
	if m.node != nil && (strings.HasPrefix(host, "10.0.7.") || dst != nil && dst.node != nil && port != "6067") {
		// machines of the service that do not serve the api, or other ports of those that do
		n.w.violate("C12", "foreign-peer", "%s contacts %s, which does not serve the API of the cluster", m.name, address)
	}
	if dst == nil {
		return nil, opErr("dial", nil, nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
	}
	p, _ := strconv.Atoi(port)
	raddr := &net.TCPAddr{IP: ipOf(dst.ip), Port: p}
	// SYN, SYN-ACK
	rtt := n.latency(m.name, dst.name) + n.latency(m.name, dst.name)
	tm := time.NewTimer(rtt)
	select {
	case <-tm.C:
	case <-ctx.Done():
		tm.Stop()
		return nil, opErr("dial", nil, raddr, ctxErr(ctx))
	}
	for {
		mode := n.blocked[pair(m.name, dst.name)]
		if mode == "refuse" {
			n.stats["refused"]++
			return nil, opErr("dial", nil, raddr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
		if (mode == "" || mode == "cut") && !dst.off {
			break
		}
		// SYN lost: retransmitted until the caller gives up.
		n.stats["syn-lost"]++
		tm := time.NewTimer(500 * time.Millisecond)
		select {
		case <-tm.C:
		case <-ctx.Done():
			tm.Stop()
			return nil, opErr("dial", nil, raddr, ctxErr(ctx))
		}
	}
	l := n.listeners[raddr.String()]
	if l == nil || l.closed || len(l.queue) > 1024 {
		n.stats["refused"]++
		return nil, opErr("dial", nil, raddr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nextPort++
	laddr := &net.TCPAddr{IP: ipOf(m.ip), Port: n.nextPort}
	c := &simConn{n: n, local: laddr, remote: raddr, m: m, inc: inc}
	s := &simConn{n: n, local: raddr, remote: laddr, m: dst, inc: l.inc}
	c.peer, s.peer = s, c
	for _, x := range []*simConn{c, s} {
		x.rd = make(chan struct{}, 1)
		x.wr = make(chan struct{}, 1)
		n.connSeq++
		x.id = n.connSeq
		n.conns[x] = true
		n.order = append(n.order, x)
	}
	n.stats["conns"]++
	if code := n.busy[dst.name]; code > 0 && p == 6067 && m.node != nil {
		// what stands in front of the node answers in its place
		n.w.faults[fmt.Sprintf("peer-answers-%d", code)]++
		goSim(func() { turnAway(s, code) })
		return c, nil
	}
	l.queue = append(l.queue, s)
	l.wake()
	return c, nil
}

// turnAway answers one request with the status and closes the connection.
func turnAway(s *simConn, code int) {
	defer s.Close()
	br := bufio.NewReader(s)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	io.Copy(io.Discard, req.Body)
	fmt.Fprintf(s, "HTTP/1.1 %d %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", code, http.StatusText(code))
}

func ctxErr(ctx context.Context) error {
	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
		return os.ErrDeadlineExceeded
	}
	return ctx.Err()
}

type simConn struct {
	n             *Net
	id            int
	m             *Machine
	inc           int
	local, remote *net.TCPAddr
	peer          *simConn

	// receive side
	buf      []byte
	eof      bool
	rerr     error
	inflight int // bytes sent to us, not yet delivered
	last     time.Time
	pend     []func() // in flight
	held     []func() // deliveries held back by a partition
	rd       chan struct{}
	rdl      time.Time

	// send side
	wr     chan struct{}
	wdl    time.Time
	werr   error
	closed bool
	fin    bool
	gone   bool // its machine lost power: nobody was told
}

func poke(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

func (c *simConn) drop() {
	if c.n.conns[c] {
		delete(c.n.conns, c)
	}
}

// deliver schedules f as the arrival at c of something its peer sent.
func (c *simConn) deliver(f func()) {
	d := c.n.latency(c.m.name, c.peer.m.name)
	now := time.Now()
	at := now.Add(d)
	if at.Before(c.last) {
		at = c.last
	}
	c.last = at
	// Bytes of a connection never overtake each other, whatever order the
	// timers are run in: an arrival is the arrival of the oldest in flight.
	c.pend = append(c.pend, f)
	afterSim(at.Sub(now), func() {
		g := c.pend[0]
		c.pend = c.pend[1:]
		c.arrive(g)
	})
}

func (c *simConn) arrive(f func()) {
	if !c.m.off && !c.peer.m.off && len(c.held) == 0 && c.n.blocked[pair(c.m.name, c.peer.m.name)] == "cut" {
		// What is sent is lost, and so is the connection.
		c.n.stats["cut"]++
		c.abort(syscall.ECONNRESET, false)
		c.peer.abort(syscall.ECONNRESET, false)
		return
	}
	if len(c.held) > 0 || c.n.blocked[pair(c.m.name, c.peer.m.name)] != "" || c.m.off || c.peer.m.off {
		c.n.stats["held"]++
		c.held = append(c.held, f)
		return
	}
	f()
}

func (c *simConn) flushHeld() {
	h := c.held
	c.held = nil
	for _, f := range h {
		f()
	}
}

func timeoutOrWait(ch chan struct{}, dl time.Time) bool {
	if dl.IsZero() {
		<-ch
		return true
	}
	d := time.Until(dl)
	if d <= 0 {
		return false
	}
	t := time.NewTimer(d)
	select {
	case <-ch:
		t.Stop()
		return true
	case <-t.C:
		return true // looked at again by the caller
	}
}

func (c *simConn) Read(b []byte) (int, error) {
	for {
		if c.closed {
			return 0, opErr("read", c.local, c.remote, net.ErrClosed)
		}
		if !c.rdl.IsZero() && time.Until(c.rdl) <= 0 {
			return 0, opErr("read", c.local, c.remote, os.ErrDeadlineExceeded)
		}
		if len(c.buf) > 0 {
			n := copy(b, c.buf)
			if n > 1 && c.n.w.shortReads && c.n.rng.IntN(8) == 0 {
				n = 1 + c.n.rng.IntN(n)
				c.n.stats["short-read"]++
			}
			c.buf = c.buf[n:]
			if len(c.buf) == 0 {
				c.buf = nil
			}
			poke(c.peer.wr)
			return n, nil
		}
		if c.rerr != nil {
			return 0, opErr("read", c.local, c.remote, c.rerr)
		}
		if c.eof {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		timeoutOrWait(c.rd, c.rdl)
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	total := 0
	if c.remote.Port == 6067 && c.m.node != nil && c.werr == nil && !c.closed {
		c.n.w.notePeer(c, b)
	}
	for {
		if c.closed || c.fin {
			return total, opErr("write", c.local, c.remote, net.ErrClosed)
		}
		if !c.wdl.IsZero() && time.Until(c.wdl) <= 0 {
			return total, opErr("write", c.local, c.remote, os.ErrDeadlineExceeded)
		}
		if c.werr != nil {
			return total, opErr("write", c.local, c.remote, c.werr)
		}
		if len(b) == 0 {
			return total, nil
		}
		room := window - (c.peer.inflight + len(c.peer.buf))
		if room <= 0 {
			c.n.stats["write-blocked"]++
			timeoutOrWait(c.wr, c.wdl)
			continue
		}
		k := min(len(b), room)
		seg := append([]byte(nil), b[:k]...)
		b = b[k:]
		total += k
		p := c.peer
		p.inflight += k
		p.deliver(func() {
			p.inflight -= k
			if p.closed || p.gone {
				// data for a closed or forgotten socket: answered with RST
				if c.werr == nil {
					c.werr = os.NewSyscallError("write", syscall.EPIPE)
					if c.rerr == nil && !c.eof {
						c.rerr = os.NewSyscallError("read", syscall.ECONNRESET)
					}
					poke(c.rd)
					poke(c.wr)
				}
				return
			}
			if p.rerr != nil || p.eof {
				return
			}
			p.buf = append(p.buf, seg...)
			poke(p.rd)
		})
	}
}

func (c *simConn) Close() error {
	if c.closed {
		return opErr("close", c.local, c.remote, net.ErrClosed)
	}
	c.closed = true
	c.drop()
	poke(c.rd)
	poke(c.wr)
	if !c.fin {
		c.fin = true
		c.sendFin()
	}
	c.buf = nil
	return nil
}

func (c *simConn) sendFin() {
	p := c.peer
	p.deliver(func() {
		p.eof = true
		poke(p.rd)
	})
}

// CloseWrite half-closes the connection.
func (c *simConn) CloseWrite() error {
	if !c.fin {
		c.fin = true
		c.sendFin()
	}
	return nil
}

// abort kills this end; the peer sees a reset (or nothing, if !tell).
func (c *simConn) abort(errno syscall.Errno, tell bool) {
	if c.rerr == nil {
		c.rerr = os.NewSyscallError("read", errno)
	}
	if c.werr == nil {
		c.werr = os.NewSyscallError("write", errno)
	}
	c.buf = nil
	poke(c.rd)
	poke(c.wr)
	c.drop()
	if !tell {
		c.gone = true
	}
	if tell {
		p := c.peer
		p.deliver(func() {
			if p.rerr == nil {
				p.rerr = os.NewSyscallError("read", errno)
			}
			if p.werr == nil {
				p.werr = os.NewSyscallError("write", errno)
			}
			p.buf = nil
			poke(p.rd)
			poke(p.wr)
			p.drop()
		})
	}
}

// SyscallConn lets connection pools look at whether the connection is still
// alive, as they do with sockets: a read from it would block if it is.
func (c *simConn) SyscallConn() (syscall.RawConn, error) {
	if c.closed {
		return nil, opErr("raw", c.local, c.remote, net.ErrClosed)
	}
	return rawConn{c}, nil
}

type rawConn struct{ c *simConn }

var quietPipe [2]int

func init() {
	if err := syscall.Pipe2(quietPipe[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC); err != nil {
		panic(err)
	}
}

func (r rawConn) Read(f func(fd uintptr) bool) error {
	fd := quietPipe[0] // EAGAIN
	if r.c.eof || r.c.rerr != nil || r.c.werr != nil || len(r.c.buf) > 0 {
		fd = -1 // EBADF
	}
	f(uintptr(fd))
	return nil
}
func (r rawConn) Write(f func(fd uintptr) bool) error { return syscall.ENOSYS }
func (r rawConn) Control(f func(fd uintptr)) error    { return syscall.ENOSYS }

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }
func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c.local, c.remote, net.ErrClosed)
	}
	c.rdl = t
	poke(c.rd)
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c.local, c.remote, net.ErrClosed)
	}
	c.wdl = t
	poke(c.wr)
	return nil
}

// each runs f on the live connections between two machines (b may be "*").
func (n *Net) each(a, b string, f func(*simConn)) {
	for _, c := range n.order {
		if !n.conns[c] {
			continue
		}
		if (c.m.name == a || a == "*") && (b == "*" || c.peer.m.name == b) {
			f(c)
		}
	}
	if len(n.order) > 4096 {
		var o []*simConn
		for _, c := range n.order {
			if n.conns[c] {
				o = append(o, c)
			}
		}
		n.order = o
	}
}

func (n *Net) block(a, b, mode string) {
	n.blocked[pair(a, b)] = mode
	if mode == "refuse" {
		n.each(a, b, func(c *simConn) { c.abort(syscall.ECONNRESET, false); c.peer.abort(syscall.ECONNRESET, false) })
	}
}

func (n *Net) unblock(a, b string) {
	delete(n.blocked, pair(a, b))
	for _, c := range n.order {
		if pair(c.m.name, c.peer.m.name) == pair(a, b) {
			c.flushHeld()
		}
	}
}

func (n *Net) flushMachine(name string) {
	for _, c := range n.order {
		if c.m.name == name || c.peer.m.name == name {
			if n.blocked[pair(c.m.name, c.peer.m.name)] == "" {
				c.flushHeld()
			}
		}
	}
}

func hostOnly(s string) string {
	if i := strings.LastIndexByte(s, ':'); i >= 0 {
		return s[:i]
	}
	return s
}

// notePeer records the requests the machines send each other.
func (w *World) notePeer(c *simConn, b []byte) {
	i := bytes.Index(b, []byte(" HTTP/1.1\r\n"))
	if i < 0 {
		return
	}
	f := strings.Fields(string(b[:i]))
	if len(f) == 2 {
		w.peers = append(w.peers, peerReq{w.now(), c.m.node.idx, c.peer.m.name, f[0], f[1]})
		w.logf("%s -> peer %s %s %s", c.m.name, c.peer.m.name, f[0], f[1])
	}
}

func ipOf(s string) net.IP {
	ip := net.ParseIP(s)
	if v4 := ip.To4(); v4 != nil {
		return v4
	}
	return ip
}
