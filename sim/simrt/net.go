package simrt

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
)

// Pipe is one direction of a TCP connection: a reliable byte stream.
type Pipe struct {
	Name     string
	key      uint64
	Src, Dst *Node
	from, to *TCPConn
	flight   []byte // sent, not yet arrived
	ready    []byte // arrived, not yet read
	finSent  bool
	rstSent  bool
	eof      bool  // reader sees EOF once ready is drained
	err      error // reader sees this error
	hole     bool  // peer machine gone: nothing arrives any more
	sink     bool  // receiver gone: written data disappears
	werr     error // writer sees this error
	goneMsg  error // to be delivered to the writer
	since    int
	ord      int
	stall    int
	rd, wr   Waiter
	// egress side
	raw    []byte // bytes not yet forming a frame (tap and filters)
	broken bool   // stream not framed as expected: pass bytes through
	Sent   int64
	Recv   int64
	fend   int64 // end offset of the last framed byte sent
	cons   int64 // bytes the receiving program has read
	rq     []sentFrame
}

type sentFrame struct {
	end   int64
	frame []byte
}

func (p *Pipe) pending() bool {
	if p.hole {
		return false
	}
	if p.goneMsg != nil {
		return true
	}
	if p.Dst.Dead {
		return false
	}
	return len(p.flight) > 0 || (p.finSent && !p.eof) || (p.rstSent && p.err == nil)
}

func (p *Pipe) deliverable() bool { return p.pending() }

// deliver moves some bytes (or the end of the stream) to the receiver.
func (p *Pipe) deliver() int {
	s := cur
	if p.goneMsg != nil {
		p.werr, p.goneMsg = p.goneMsg, nil
		p.wr.Wake()
		return 0
	}
	if len(p.flight) > 0 {
		k := len(p.flight)
		switch s.Strat.Seg {
		case 1:
			if s.aux.Intn(3) == 0 {
				k = 1 + s.aux.Intn(k)
			}
		case 2:
			if s.aux.Intn(2) == 0 {
				k = 1 + s.aux.Intn(min(k, 7))
			} else {
				k = 1 + s.aux.Intn(k)
			}
		}
		if k < len(p.flight) {
			s.Count["short-delivery"]++
		}
		p.ready = append(p.ready, p.flight[:k]...)
		p.flight = p.flight[k:]
		if len(p.flight) == 0 {
			p.flight = nil
		}
		p.Recv += int64(k)
		p.since = s.Step
		p.rd.Wake()
		return k
	}
	if p.rstSent && p.err == nil {
		p.err = syscall.ECONNRESET
		p.ready = nil
	} else {
		p.eof = true
	}
	p.rd.Wake()
	return 0
}

func (p *Pipe) push(b []byte) {
	if p.sink || p.hole || len(b) == 0 {
		return
	}
	if len(p.flight) == 0 {
		p.since = cur.Step
	}
	p.flight = append(p.flight, b...)
	p.Sent += int64(len(b))
	cur.Bytes += int64(len(b))
}

// write accepts bytes from the sender's program.
func (p *Pipe) write(b []byte) {
	s := cur
	if p.broken {
		p.push(b)
		return
	}
	filt := p.Src.Filter
	if filt == nil {
		p.push(b)
	}
	p.raw = append(p.raw, b...)
	for len(p.raw) >= 4 {
		n := int(uint32(p.raw[0])<<24 | uint32(p.raw[1])<<16 | uint32(p.raw[2])<<8 | uint32(p.raw[3]))
		if n > 1<<26 {
			p.broken = true
			if filt != nil {
				p.push(p.raw)
			}
			p.raw = nil
			return
		}
		if len(p.raw) < 4+n {
			break
		}
		fr := append([]byte(nil), p.raw[4:4+n]...)
		p.raw = p.raw[4+n:]
		if filt == nil {
			p.tap(fr)
			continue
		}
		if s.OnRaw != nil {
			s.OnRaw(p, fr)
		}
		for _, o := range filt(p, fr) {
			s.Inject(p, o)
		}
	}
}

// consumed reports frames the receiving program has read completely.
func (p *Pipe) consumed(k int) {
	p.cons += int64(k)
	for len(p.rq) > 0 && p.rq[0].end <= p.cons {
		f := p.rq[0].frame
		p.rq = p.rq[1:]
		if cur.OnRecv != nil {
			cur.OnRecv(p, f)
		}
	}
}

func (p *Pipe) tap(frame []byte) {
	cur.Frames++
	p.fend += int64(4 + len(frame))
	if cur.OnRecv != nil {
		p.rq = append(p.rq, sentFrame{p.fend, frame})
	}
	if cur.OnFrame != nil {
		cur.OnFrame(p, frame)
	}
}

// Inject puts one frame on the wire behind everything sent so far.
func (s *Sim) Inject(p *Pipe, frame []byte) {
	p.tap(frame)
	n := len(frame)
	p.push(append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, frame...))
}

// InjectRaw puts arbitrary bytes on the wire.
func (s *Sim) InjectRaw(p *Pipe, b []byte) {
	p.fend += int64(len(b))
	p.push(b)
}

// Pipes lists the pipes from src (nil: any) to dst (nil: any).
func (s *Sim) Pipes(src, dst *Node) []*Pipe {
	var r []*Pipe
	for _, p := range s.links {
		if (src == nil || p.Src == src) && (dst == nil || p.Dst == dst) {
			r = append(r, p)
		}
	}
	return r
}

// InFlight is the number of bytes that were sent but not read yet.
func (p *Pipe) InFlight() int { return len(p.flight) + len(p.ready) }

// Gone reports whether the stream ended at one of its ends.
func (p *Pipe) Gone() bool { return p.finSent || p.rstSent || p.sink || p.hole }

// Reset breaks the connection the pipe belongs to, as the peer sees it.
func (p *Pipe) Reset() {
	p.rstSent = true
	p.flight = nil
	p.since = cur.Step
	if q := p.back(); q != nil {
		q.sink = true
		q.flight, q.ready = nil, nil
		q.goneMsg = syscall.ECONNRESET
		q.since = cur.Step
		if !q.Dst.Dead {
			q.err = syscall.ECONNRESET
			q.rd.Wake()
		}
	}
	p.werr = syscall.EPIPE
	p.wr.Wake()
}

func (p *Pipe) back() *Pipe {
	if p.to != nil && len(p.to.outs) == 1 && p.from != nil && p.from.in == p.to.outs[0] {
		return p.to.outs[0]
	}
	return nil
}

// Listener is a listening socket.
type Listener struct {
	node   *Node
	addr   string
	queue  []*TCPConn
	closed bool
	w      Waiter
}

// TCPConn is a simulated connection; outs has several pipes if several
// processes share the peer's address (a peer that runs two copies of itself).
type TCPConn struct {
	node       *Node
	in         *Pipe
	outs       []*Pipe
	closed     bool
	laddr      string
	raddr      string
	rdl, wdl   int64
	rdlT, wdlT *Timer
}

// Op records a network error in the way package net does.
func opErr(op, addr string, err error) error {
	var a net.Addr
	if t, e := net.ResolveTCPAddr("tcp4", addr); e == nil {
		a = t
	}
	if errno, ok := err.(syscall.Errno); ok {
		err = os.NewSyscallError(op, errno)
	}
	return &net.OpError{Op: op, Net: "tcp4", Addr: a, Err: err}
}

func (s *Sim) key(n *Node, host string, port int) string {
	if host == "" || host == "0.0.0.0" || host == "127.0.0.1" || host == "localhost" || host == "<nil>" || host == "::" {
		host = n.IP
	}
	return host + ":" + strconv.Itoa(port)
}

// Listen opens a listening socket of the calling node.
func Listen(host string, port int) (*Listener, error) {
	s, n := cur, CurNode()
	k := s.key(n, host, port)
	for _, l := range s.listeners[k] {
		if l.node == n || !(l.node.Twin || n.Twin) {
			return nil, opErr("listen", k, syscall.EADDRINUSE)
		}
	}
	l := &Listener{node: n, addr: k}
	s.listeners[k] = append(s.listeners[k], l)
	return l, nil
}

// FailAccept makes the node's next k accepts fail: it has no file
// descriptors left for a while.
func (s *Sim) FailAccept(n *Node, k int) {
	n.acceptErr += k
	for _, ls := range s.listeners {
		for _, l := range ls {
			if l.node == n {
				l.w.Wake()
			}
		}
	}
}

// Addr is the address listened on.
func (l *Listener) Addr() string { return l.addr }

// Accept waits for the next connection.
func (l *Listener) Accept() (*TCPConn, error) {
	for {
		if l.closed {
			return nil, opErr("accept", l.addr, net.ErrClosed)
		}
		if l.node.acceptErr > 0 {
			l.node.acceptErr--
			cur.Count["accept-failed"]++
			return nil, opErr("accept", l.addr, os.NewSyscallError("accept4", syscall.EMFILE))
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.w.Wait()
	}
}

// Close stops listening.
func (l *Listener) Close() error {
	if l.closed {
		return opErr("close", l.addr, net.ErrClosed)
	}
	l.closed = true
	s := cur
	ls := s.listeners[l.addr]
	for i, x := range ls {
		if x == l {
			s.listeners[l.addr] = append(append([]*Listener(nil), ls[:i]...), ls[i+1:]...)
			break
		}
	}
	for _, c := range l.queue {
		c.abort()
	}
	l.queue = nil
	l.w.Wake()
	return nil
}

func (s *Sim) newPipe(src, dst *Node) *Pipe {
	k := src.Name + ">" + dst.Name
	s.spawnSeq["pipe "+k]++
	name := k
	if c := s.spawnSeq["pipe "+k]; c > 1 {
		name = fmt.Sprintf("%s#%d", k, c)
	}
	p := &Pipe{Name: name, key: HashStr(name), Src: src, Dst: dst, since: s.Step}
	s.links = append(s.links, p)
	return p
}

// Dial opens a connection from the calling node.
func Dial(host string, port int) (*TCPConn, error) {
	s, n := cur, CurNode()
	k := s.key(n, host, port)
	ls := s.listeners[k]
	if s.DialFail != nil {
		if err := s.DialFail(n, k); err != nil {
			s.Count["dial-error"]++
			return nil, opErr("dial", k, err)
		}
	}
	if len(ls) == 0 {
		s.Count["dial-refused"]++
		return nil, opErr("dial", k, syscall.ECONNREFUSED)
	}
	return s.open(n, k, ls), nil
}

// OpenIdle lets node n open a connection to what node q listens on, send raw
// and leave it at that.
func (s *Sim) OpenIdle(n, q *Node, raw []byte) bool {
	for _, ls := range s.listeners {
		for _, l := range ls {
			if l.node != q {
				continue
			}
			c := s.open(n, l.addr, []*Listener{l})
			s.InjectRaw(c.outs[0], raw)
			return true
		}
	}
	return false
}

func (s *Sim) open(n *Node, k string, ls []*Listener) *TCPConn {
	s.spawnSeq["port "+n.IP]++
	c := &TCPConn{node: n, raddr: k, laddr: n.IP + ":" + strconv.Itoa(30000+s.spawnSeq["port "+n.IP])}
	for i, l := range ls {
		r := &TCPConn{node: l.node, laddr: k, raddr: c.laddr}
		fw, bw := s.newPipe(n, l.node), s.newPipe(l.node, n)
		fw.from, fw.to, bw.from, bw.to = c, r, r, c
		c.outs = append(c.outs, fw)
		r.in = fw
		r.outs = []*Pipe{bw}
		if i == 0 {
			c.in = bw
		}
		l.queue = append(l.queue, r)
		l.w.Wake()
	}
	return c
}

// Read reads what has arrived.
func (c *TCPConn) Read(b []byte) (int, error) {
	s := cur
	for {
		if c.closed {
			return 0, opErr("read", c.raddr, net.ErrClosed)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in.ready) > 0 {
			k := min(len(b), len(c.in.ready))
			if s.Strat.Seg == 2 && k > 1 && s.aux.Intn(4) == 0 {
				k = 1 + s.aux.Intn(k)
				s.Count["short-read"]++
			}
			copy(b, c.in.ready[:k])
			c.in.ready = c.in.ready[k:]
			c.in.consumed(k)
			if len(c.in.ready) == 0 {
				c.in.ready = nil
			}
			c.in.wr.Wake()
			return k, nil
		}
		if c.in.err != nil {
			return 0, opErr("read", c.raddr, c.in.err)
		}
		if c.in.eof {
			return 0, io.EOF
		}
		if c.rdl != 0 && ClockNs() >= c.rdl {
			return 0, opErr("read", c.raddr, os.ErrDeadlineExceeded)
		}
		c.in.rd.Wait()
	}
}

// Write sends b.
func (c *TCPConn) Write(b []byte) (int, error) {
	s := cur
	n := c.node
	if c.closed {
		return 0, opErr("write", c.raddr, net.ErrClosed)
	}
	for {
		if e := c.outs[0].werr; e != nil {
			return 0, opErr("write", c.raddr, e)
		}
		if c.wdl != 0 && ClockNs() >= c.wdl {
			return 0, opErr("write", c.raddr, os.ErrDeadlineExceeded)
		}
		w, gone := s.Window, false
		if d := c.outs[0].Dst; d.Dead {
			gone = d.Mode != CrashHang
			if w == 0 {
				w = 1 << 16
			}
		}
		if w == 0 || c.outs[0].InFlight() < w || gone {
			break
		}
		s.Count["backpressure"]++
		c.outs[0].wr.Wait()
	}
	n.Writes++
	if n.killAt.write > 0 && n.Writes >= n.killAt.write {
		k := s.aux.Intn(len(b) + 1)
		for _, p := range c.outs {
			p.write(b[:k])
		}
		s.Count["crash-in-write"]++
		s.Kill(n)
		for {
			Block()
		}
	}
	for _, p := range c.outs {
		p.write(b)
	}
	return len(b), nil
}

// Close closes the connection.
func (c *TCPConn) Close() error {
	if c.closed {
		return opErr("close", c.raddr, net.ErrClosed)
	}
	c.closed = true
	c.shut(c.in != nil && c.in.InFlight() > 0)
	return nil
}

// CloseWrite ends the outgoing stream.
func (c *TCPConn) CloseWrite() error {
	for _, p := range c.outs {
		p.finSent = true
		p.since = cur.Step
		p.werr = syscall.EPIPE
	}
	return nil
}

func (c *TCPConn) abort() { c.closed = true; c.shut(true) }

func (c *TCPConn) shut(rst bool) {
	s := cur
	for _, p := range c.outs {
		if p.finSent || p.rstSent {
			continue
		}
		if rst {
			p.rstSent = true
		} else {
			p.finSent = true
		}
		p.werr = net.ErrClosed
		p.since = s.Step
		p.wr.Wake()
	}
	if c.in != nil {
		p := c.in
		p.sink = true
		p.flight, p.ready = nil, nil
		p.rd.Wake()
		if !p.Src.Dead && p.werr == nil && !p.hole {
			p.goneMsg = syscall.ECONNRESET
			p.since = s.Step
		}
	}
}

// LocalAddr and RemoteAddr are "ip:port" strings.
func (c *TCPConn) Addrs() (local, remote string) { return c.laddr, c.raddr }

// SetDeadlines sets absolute deadlines in the node's clock (0: none, -1: keep).
func (c *TCPConn) SetDeadlines(r, w int64) {
	if r >= 0 {
		c.rdl = r
		c.rdlT.Stop()
		c.in.rd.Wake()
		if r > 0 {
			c.rdlT = AfterNs(r-ClockNs(), func() { c.in.rd.Wake() })
		}
	}
	if w >= 0 {
		c.wdl = w
		c.wdlT.Stop()
		c.outs[0].wr.Wake()
		if w > 0 {
			c.wdlT = AfterNs(w-ClockNs(), func() { c.outs[0].wr.Wake() })
		}
	}
}

// CrashMode says what a crash looks like to the peers.
type CrashMode int

const (
	CrashFIN  CrashMode = iota // the kernel closes the sockets in an orderly way
	CrashRST                   // peers see a reset; data in flight may be lost
	CrashHole                  // the machine is gone: silence
	CrashHang                  // the process hangs: nothing is read any more, the buffers fill up
)

// closeAll ends all connections of a process that died.
func (s *Sim) closeAll(n *Node, k ExitKind) {
	for a, ls := range s.listeners {
		var keep []*Listener
		for _, l := range ls {
			if l.node != n {
				keep = append(keep, l)
			}
		}
		if len(keep) != len(ls) {
			s.listeners[a] = keep
		}
	}
	if n.Mode == CrashHang && k == ExitKilled {
		return
	}
	for _, p := range s.links {
		if p.Src == n && !p.finSent && !p.rstSent && !p.hole {
			switch n.Mode {
			case CrashFIN:
				p.finSent = true
			case CrashRST:
				if len(p.flight) > 0 {
					p.flight = p.flight[:s.aux.Intn(len(p.flight)+1)]
				}
				p.rstSent = true
			case CrashHole:
				if k == ExitKilled && len(p.flight) > 0 {
					// what had left the machine still arrives
					p.ready = append(p.ready, p.flight[:s.aux.Intn(len(p.flight)+1)]...)
					p.rd.Wake()
				}
				p.flight = nil
				p.hole = true
			}
			p.since = s.Step
		}
		if p.Dst == n {
			p.sink = true
			p.flight, p.ready = nil, nil
			if n.Mode != CrashHole && !p.Src.Dead && p.werr == nil {
				p.goneMsg = syscall.ECONNRESET
				p.since = s.Step
			}
			p.wr.Wake()
		}
	}
}
