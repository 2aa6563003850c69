package main

import (
	"fmt"
	"strconv"
	"time"

	stime "github.com/DyCAPSTeam/DyCAPS/internal/verifsim/shim/time"
	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"verif.local/simrt"
)

// The links and the dispatcher under load: every process queues a script of
// messages, every process reads. The reference is a list per stream: what a
// sender queued is what a reader gets, once and in this order.

// tkey is a message type with an instance id.
type tkey struct{ typ, id string }

// stream is what one task of a sender queues for one receiver.
type stream struct {
	src, dst *Proc
	no       uint32
	sent     []string // canonical messages in the order of queueing
	keys     []int
	read     int // how many of them the receiving program read from the link
	got      int // raw mode: how many of them were handed over
	next     []int
}

type trun struct {
	w       *World
	keys    []tkey
	dead    []bool // nobody ever asks for it
	raw     bool
	streams map[string]*stream
	list    []*stream
	readers int
	sending int
	done    bool
	recv    map[*Proc]chan *protobuf.Message
	ready   map[*Proc]bool
	gotN    int
	big     int // bytes of very long messages
	stop    map[*Proc]int
}

func (t *trun) stream(src, dst *Proc, no uint32) *stream {
	k := dst.Name + "<" + strconv.Itoa(int(no))
	s := t.streams[k]
	if s == nil {
		s = &stream{src: src, dst: dst, no: no, next: make([]int, len(t.keys))}
		t.streams[k] = s
		t.list = append(t.list, s)
	}
	return s
}

var tsizes = []int{0, 0, 1, 2, 3, 4, 5, 16, 100, 127, 128, 129, 255, 256, 257, 1000, 1460, 4095, 4096, 4097, 16383, 16384, 65535, 65536, 65537, 100000}

// message draws the payload; the stream number is the sender, so that the
// first stream of member 0 may send a frame of no bytes at all.
func (t *trun) message(rnd *simrt.Rand, no uint32, k int, serial int, max int) *protobuf.Message {
	n := tsizes[rnd.Intn(len(tsizes))]
	if n > max {
		n = rnd.Intn(max + 1)
	}
	if rnd.Intn(40) == 0 && max > 100000 {
		n = []int{1 << 20, 1<<20 + 1, 3 << 20, 3 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 4097}[rnd.Intn(7)]
		if t.big += n; t.big > 20<<20 {
			n = 70000
		}
	}
	m := &protobuf.Message{Type: t.keys[k].typ, Sender: no}
	if t.keys[k].id != "" {
		m.Id = []byte(t.keys[k].id)
	}
	if n > 0 {
		m.Data = make([]byte, n)
		switch rnd.Intn(3) {
		case 0:
			rnd.Bytes(m.Data)
		case 1: // looks like frames
			for i := range m.Data {
				m.Data[i] = []byte{0, 0, 0, byte(serial)}[i%4]
			}
		}
		for i := 0; i < 4 && i < n; i++ {
			m.Data[n-1-i] = byte(serial >> (8 * uint(i)))
		}
	}
	return m
}

func runTransport(sp *Spec) *Result {
	w := newWorld(sp)
	rnd := simrt.NewRand(sp.Seed ^ 0x7ea5)
	w.S.MaxTime = 1 << 61
	t := &trun{w: w, streams: map[string]*stream{}, raw: sp.opt("raw") == 1, recv: map[*Proc]chan *protobuf.Message{}, ready: map[*Proc]bool{}, stop: map[*Proc]int{}}
	c := w.addCom(0)
	var next *Com
	if sp.opt("next") == 1 {
		next = w.addCom(1)
		w.makeParties(next, nil)
	}
	w.makeParties(c, next)
	if sp.opt("client") == 1 {
		w.makeClient(c)
	}
	types := []string{"Echo", "VSSReady", "Value", "A", "AB", ""}
	ids := []string{"", "1", "B1", "11", "ProactivizeAndShareDist_1,", "\xff\x00\x80", "\x00"}
	for i := 0; i < sp.opt("keys"); i++ {
		k := tkey{types[rnd.Intn(len(types))], ids[rnd.Intn(len(ids))]}
		dup := false
		for _, x := range t.keys {
			dup = dup || x == k
		}
		if dup {
			continue
		}
		t.keys = append(t.keys, k)
		t.dead = append(t.dead, !t.raw && len(t.keys) > 1 && rnd.Chance(0.35))
	}
	w.recvTap = append(w.recvTap, func(src, dst *Proc, m *protobuf.Message) {
		if s := t.streams[dst.Name+"<"+strconv.Itoa(int(m.Sender))]; s != nil && s.src == src {
			s.read++
		}
	})
	w.markFaulty()
	// start-up: everybody listens, then connects, each in its own time
	late := sp.opt("late")
	for _, p := range w.procs() {
		p := p
		listenAt, dialAt := int64(0), int64(0)
		if late > 0 {
			listenAt, dialAt = int64(rnd.Intn(late))*1e6, int64(rnd.Intn(late))*1e6
		}
		w.S.Go(p.N, "main", func() { t.process(p, listenAt, dialAt, rnd.U64()) })
	}
	w.base = w.S.Step
	w.applyFaults()
	w.applyTimed()
	w.openConns()
	ok := w.run(func() bool { return w.S.Step%16 == 0 && t.complete() }, sp.Max) || t.complete()
	w.R.Done = ok
	if ok {
		w.settle(200)
	}
	dead := w.judgeExits("C13", "C14")
	if !ok && !dead {
		t.missing()
	}
	return w.finish()
}

// process is one program: it listens, connects, reads and sends.
func (t *trun) process(p *Proc, listenAt, dialAt int64, seed uint64) {
	w, sp := t.w, t.w.Sp
	rnd := simrt.NewRand(seed)
	if p.Com != nil {
		if listenAt > 0 {
			stime.Sleep(time.Duration(listenAt))
		}
		if t.raw {
			t.recv[p] = core.MakeReceiveChannel(p.Com.Port[p.Slot])
			r := rnd.U64()
			w.S.Go(p.N, "reader", func() { t.readRaw(p, r) })
		} else {
			p.P.InitReceiveChannel()
			t.startReaders(p, rnd)
		}
	}
	t.ready[p] = true
	if dialAt > 0 {
		stime.Sleep(time.Duration(dialAt))
	}
	p.P.InitSendChannel()
	if p.Com != nil && p.Com.K == 0 && len(w.Coms) > 1 {
		p.P.InitSendToNextChannel()
	}
	tasks := 1 + rnd.Intn(2)
	t.sending += tasks
	base := uint32(0)
	for i, q := range w.procs() {
		if q == p {
			base = uint32(2 * i)
		}
	}
	for i := 0; i < tasks; i++ {
		no := base + uint32(i)
		r := simrt.NewRand(rnd.U64())
		w.S.Go(p.N, "sender", func() {
			t.send(p, no, r, sp.opt("msgs"))
			t.sending--
		})
	}
	t.stop[p] = 1
}

func (t *trun) queue(p *Proc, m *protobuf.Message, k int, dst ...*Proc) {
	for _, q := range dst {
		s := t.stream(p, q, m.Sender)
		s.sent = append(s.sent, string(canon(m)))
		s.keys = append(s.keys, k)
	}
}

// send queues the script of one task.
func (t *trun) send(p *Proc, no uint32, rnd *simrt.Rand, msgs int) {
	w, sp := t.w, t.w.Sp
	c := w.Coms[0]
	if p.Com != nil {
		c = p.Com
	}
	flood := sp.opt("flood")
	for i := 0; i < msgs; i++ {
		k := rnd.Intn(len(t.keys))
		m := t.message(rnd, no, k, i, sp.opt("size"))
		x := rnd.Intn(6)
		if len(m.Data) > 100000 {
			x = 5 // to one member only
		}
		if p.Com != nil && p.Com.K == 0 && len(w.Coms) > 1 && rnd.Chance(0.4) {
			if x < 2 {
				t.queue(p, m, k, w.Coms[1].Procs...)
				p.P.BroadcastToNextCommittee(m)
			} else {
				d := rnd.Intn(c.N)
				t.queue(p, m, k, w.Coms[1].Procs[d])
				p.P.SendToNextCommittee(m, uint32(d))
			}
			continue
		}
		switch {
		case x < 2:
			t.queue(p, m, k, c.Procs...)
			p.P.Broadcast(m)
		case x == 2:
			d := rnd.Intn(c.N)
			var to []*Proc
			for _, q := range c.Procs {
				if q.Slot != d {
					to = append(to, q)
				}
			}
			t.queue(p, m, k, to...)
			p.P.BroadcastExclude(m, uint32(d))
		default:
			d := rnd.Intn(c.N)
			n := 1
			if flood > 0 && rnd.Intn(msgs) < sp.opt("bursts") {
				n = 1 + rnd.Intn(flood)
				m.Data = nil
			}
			for ; n > 0; n-- {
				t.queue(p, m, k, c.Procs[d])
				p.P.Send(m, uint32(d))
				if flood > 0 {
					m = proto.Clone(m).(*protobuf.Message)
					m.Data = []byte{byte(n), byte(n >> 8), byte(i)}
				}
			}
		}
		if rnd.Intn(20) == 0 {
			stime.Sleep(time.Duration(rnd.Intn(300)) * time.Millisecond)
		}
	}
}

func (t *trun) readRaw(p *Proc, seed uint64) {
	rnd := simrt.NewRand(seed)
	for {
		m := <-t.recv[p]
		t.deliveredRaw(p, m)
		if rnd.Intn(30) == 0 {
			stime.Sleep(time.Duration(rnd.Intn(500)) * time.Millisecond)
		}
	}
}

func (t *trun) deliveredRaw(p *Proc, m *protobuf.Message) {
	w := t.w
	t.gotN++
	s := t.streams[p.Name+"<"+strconv.Itoa(int(m.Sender))]
	b := string(canon(m))
	if s == nil || s.got >= len(s.sent) || s.sent[s.got] != b {
		if w.Sp.opt("junk") == 1 {
			return // a faulty member may have made it up
		}
		w.viol("C13", t.judge(s, b, 0, -1), "%s got %s, which is not the next message of stream %d%s", p.Name, tdesc(m), m.Sender, t.expect(s, -1))
		if s == nil {
			return
		}
	}
	s.got++
}

func (t *trun) expect(s *stream, k int) string {
	if s == nil {
		return " (nobody sends it to this member)"
	}
	i := s.got
	if k >= 0 {
		i = t.nth(s, k, s.next[k])
	}
	if i < 0 || i >= len(s.sent) {
		return sprint(" (%s; all %d were already delivered)", s.src.Name, len(s.sent))
	}
	var m protobuf.Message
	proto.Unmarshal([]byte(s.sent[i]), &m)
	return sprint(" (%s; the next one, number %d of %d, is %s)", s.src.Name, i, len(s.sent), tdesc(&m))
}

func tdesc(m *protobuf.Message) string {
	return fmt.Sprintf("%q %q from %d with %d bytes (%08x)", m.Type, m.Id, m.Sender, len(m.Data), simrt.HashStr(string(m.Data))&0xffffffff)
}

// judge names what is wrong with an unexpected message.
func (t *trun) judge(s *stream, b string, n, k int) string {
	if s == nil {
		return "stray"
	}
	at := -1
	for i, x := range s.sent {
		if x == b && (k < 0 || s.keys[i] == k) {
			at = i
		}
	}
	switch {
	case at < 0:
		return "altered"
	case k < 0 && at < s.got || k >= 0 && at < t.nth(s, k, s.next[k]):
		return "duplicate-or-late"
	}
	return "lost-or-early"
}

// nth is the position of the n-th message of key k in the stream.
func (t *trun) nth(s *stream, k, n int) int {
	for i, x := range s.keys {
		if x == k {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return len(s.sent)
}

// startReaders lets tasks ask for the messages of the keys, early or late.
func (t *trun) startReaders(p *Proc, rnd *simrt.Rand) {
	w := t.w
	span := w.Sp.opt("span")
	for k := range t.keys {
		if t.dead[k] {
			continue
		}
		k := k
		d := 0
		if rnd.Chance(0.6) {
			d = rnd.Intn(span + 1)
		}
		r := rnd.U64()
		two := rnd.Chance(0.3)
		w.delay(p, d, "reader", func() {
			if two { // one part of the program stops reading, later another one goes on
				t.read(p, k, true, r)
				w.delay(p, int(r%uint64(span)), "reader", func() { t.read(p, k, false, r+1) })
				return
			}
			t.read(p, k, false, r)
		})
	}
}

func (t *trun) read(p *Proc, k int, part bool, seed uint64) {
	rnd := simrt.NewRand(seed)
	key := t.keys[k]
	again := rnd.Chance(0.5)
	count := 1 << 30
	if part { // takes a few and leaves the rest to the other reader
		count = 1 + rnd.Intn(20)
	}
	ch := p.P.GetMessage(key.typ, []byte(key.id))
	for ; count > 0; count-- {
		m := <-ch
		t.delivered(p, k, m)
		if again {
			ch = p.P.GetMessage(key.typ, []byte(key.id))
		}
		if rnd.Intn(30) == 0 {
			stime.Sleep(time.Duration(rnd.Intn(500)) * time.Millisecond)
		}
	}
}

func (t *trun) delivered(p *Proc, k int, m *protobuf.Message) {
	w := t.w
	t.gotN++
	key := t.keys[k]
	if m.Type != key.typ || string(m.Id) != key.id {
		w.viol("C14", "foreign", "%s asked for %q %q and got %s", p.Name, key.typ, key.id, tdesc(m))
		return
	}
	s := t.streams[p.Name+"<"+strconv.Itoa(int(m.Sender))]
	b := string(canon(m))
	i := -1
	if s != nil {
		i = t.nth(s, k, s.next[k])
	}
	if s == nil || i >= len(s.sent) || s.sent[i] != b {
		if w.Sp.opt("junk") == 1 {
			return // a faulty member may have made it up
		}
		w.viol("C14", t.judge(s, b, i, k), "%s asked for %q %q and got %s, which is not the next one of stream %d%s", p.Name, key.typ, key.id, tdesc(m), m.Sender, t.expect(s, k))
		if s == nil {
			return
		}
	}
	s.next[k]++
}

// want is how much of the stream has to arrive: everything honest members
// queue, and what was read completely from the others.
func (t *trun) want(s *stream) int {
	if !s.dst.honest() {
		return 0
	}
	if s.src.honest() {
		return len(s.sent)
	}
	if t.w.Sp.opt("junk") == 1 {
		return 0
	}
	if s.read < len(s.sent) {
		return s.read
	}
	return len(s.sent)
}

func (t *trun) open(s *stream) int {
	n := t.want(s)
	if t.raw {
		return n - s.got
	}
	open := 0
	cnt := make([]int, len(t.keys))
	for i := 0; i < n; i++ {
		cnt[s.keys[i]]++
	}
	for k := range t.keys {
		if !t.dead[k] && cnt[k] > s.next[k] {
			open += cnt[k] - s.next[k]
		}
	}
	return open
}

func (t *trun) complete() bool {
	w := t.w
	for _, p := range w.procs() {
		if p.honest() && t.stop[p] == 0 {
			return false
		}
	}
	for _, p := range w.procs() {
		if p.N.Dead && p.honest() {
			return true
		}
	}
	if t.sending > t.deadSenders() {
		return false
	}
	for _, s := range t.list {
		if t.open(s) > 0 {
			return false
		}
	}
	return true
}

// deadSenders is an upper bound for the tasks that will never finish.
func (t *trun) deadSenders() int {
	n := 0
	for _, p := range t.w.procs() {
		if !p.honest() {
			n += 2
		}
	}
	return n
}

func (t *trun) missing() {
	w := t.w
	prop := "C14"
	if t.raw {
		prop = "C13"
	}
	for _, s := range t.list {
		if n := t.open(s); n > 0 {
			d := sprint("%d of %d messages that %s queued for %s never arrived", n, len(s.sent), s.src.Name, s.dst.Name)
			if !t.raw {
				for k, key := range t.keys {
					if i := t.nth(s, k, s.next[k]); !t.dead[k] && i < t.want(s) {
						d += sprint("; the first one for %q %q is number %d", key.typ, key.id, i)
						break
					}
				}
			}
			w.viol(prop, "lost", "%s (%s)", d, w.stuckInfo([]*Proc{s.src, s.dst}))
			if w.crash {
				w.viol("C15", "lost", "%s", d)
			}
			return
		}
	}
	for _, p := range w.procs() {
		if p.honest() && t.stop[p] == 0 {
			w.viol(prop, "stuck", "%s could not open its connections: %s", p.Name, w.stuckInfo([]*Proc{p}))
			return
		}
	}
	w.viol(prop, "stuck", "%d senders are still blocked: %s", t.sending, w.stuckInfo(w.procs()))
}

func (g *gen) transportSpec() {
	sp := g.sp
	sp.Scen = "transport"
	sp.F = 1
	sp.Crypto = 1
	sp.Opt = map[string]int{}
	o := sp.Opt
	raw := 0.25
	if sp.Prop == "C13" {
		raw = 0.8
	}
	if g.Chance(raw) {
		o["raw"] = 1
	}
	o["msgs"] = []int{5, 20, 60, 200}[g.Intn(4)]
	o["keys"] = 1 + g.Intn(8)
	o["size"] = []int{0, 8, 300, 5000, 100000, 100001}[g.Intn(6)]
	if o["size"] > 5000 && o["msgs"] > 20 {
		o["msgs"] = 20
	}
	o["span"] = []int{10, 300, 3000, 20000}[g.Intn(4)]
	if g.Chance(0.35) {
		o["next"] = 1
	}
	if g.Chance(0.3) {
		o["client"] = 1
	}
	if g.Chance(0.5) {
		o["flood"] = []int{20, 40, 40, 100, 1500, 4000}[g.Intn(6)]
		o["bursts"] = 2
		if o["flood"] < 100 {
			o["bursts"] = []int{2, 10, 30}[g.Intn(3)]
		}
	}
	if g.Chance(0.4) {
		o["late"] = []int{50, 1500, 5000}[g.Intn(3)]
	}
	span := 400 + o["msgs"]*100
	sp.Strat = g.strategy(span)
	if g.Chance(0.6) {
		sp.Strat.HotRate = []float64{0.1, 0.2, 0.4}[g.Intn(3)]
		sp.Strat.HotSalt = g.U64() % 1000
	}
	sp.Max = 600000 + o["msgs"]*8*2500 + o["flood"]*8*200
	if sp.Strat.Seg == 2 {
		sp.Max *= 2
	}
	g.benign(span, 1+o["next"])
	if g.Chance(0.3) {
		sp.Window = []int{1, 16, 600, 4096}[g.Intn(4)]
		sp.Max *= 2
	}
	faulty := 0.3
	if sp.Prop == "C15" || sp.Prop == "C16" {
		faulty = 1
	}
	if g.Chance(faulty) {
		used := map[string]bool{}
		m := g.member(0, used)
		switch {
		case sp.Prop != "C16" && g.Chance(0.6):
			sp.Faults = append(sp.Faults, g.crashFault(m, 40*o["msgs"], 4*o["msgs"]))
		case sp.Prop != "C16" && g.Chance(0.4):
			sp.Faults = append(sp.Faults, Fault{Kind: "reset", Node: m, Step: g.Intn(span)})
		case sp.Prop != "C16" && g.Chance(0.7):
			sp.Faults = append(sp.Faults, Fault{Kind: "connflood", Node: m, Step: g.Intn([]int{30, 200, span}[g.Intn(3)]), Len: 1 + g.Intn(6), Mask: g.U64()})
		default:
			o["junk"] = 1
			sp.Faults = append(sp.Faults, g.byzFault(m, []string{"Echo", "Value", "A"}, []string{"drop", "dup", "junkdata", "junktype", "junkframe", "emptyframe", "cut", "hugelen", "flood"}))
		}
	}
}
