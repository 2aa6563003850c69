package main

import (
	"fmt"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/party"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber/share"
	"google.golang.org/protobuf/proto"
	"verif.local/simrt"
)

// Proc is one process of the simulated deployment.
type Proc struct {
	Name  string
	Slot  int
	Com   *Com
	N     *simrt.Node
	P     *party.HonestParty
	Phase string
	Done  bool
	init  int // completed set-up tasks
	snap  map[string]any
	twin  *Proc
}

func (p *Proc) honest() bool { return !p.N.Faulty }

// Com is a committee.
type Com struct {
	K     int
	N, F  int
	IP    []string
	Port  []string
	SK    []*share.PriShare
	PK    *share.PubPoly
	Procs []*Proc   // first process of each slot
	All   []*Proc   // with twins
	slot  [][]*Proc // by slot
}

// World is one simulated deployment.
type World struct {
	S       *simrt.Sim
	Sp      *Spec
	R       *Result
	Coms    []*Com
	Client  *Proc
	Cl      *party.Client
	Secret  bls.Fr
	byName  map[string]*Proc
	byNode  map[*simrt.Node]*Proc
	base    int
	order   uint64
	seen    map[string]bool
	rawTap  []func(src, dst *Proc, m *protobuf.Message)
	sendTap []func(src, dst *Proc, m *protobuf.Message) // frames leaving a process (after filters)
	recvTap []func(src, dst *Proc, m *protobuf.Message) // frames read by a process
	byzAny  bool
	crash   bool
	colRand *simrt.Rand // randomness colluders share
	rbc     *rbcRun
	mvba    *mvbaRun
}

type keys struct {
	sk []*share.PriShare
	pk *share.PubPoly
}

var keyCache = map[string]*keys{}
var ctlRand = simrt.NewRand(1)

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) {
	if n := simrt.CurNode(); n != nil {
		n.Drawn += len(b)
		return n.Rnd().Read(b)
	}
	return ctlRand.Read(b)
}

func keyFor(N, F int, label string) *keys {
	k := keyCache[label]
	if k == nil {
		ctlRand = simrt.NewRand(simrt.HashStr(label))
		sk, pk := party.SigKeyGen(uint32(N), uint32(2*F+1))
		k = &keys{sk, pk}
		keyCache[label] = k
	}
	return k
}

func newWorld(sp *Spec) *World {
	ctlRand = simrt.NewRand(sp.Crypto*1000003 + uint64(sp.F))
	s := simrt.New(sp.Seed, sp.Strat)
	if sp.F >= 4 {
		s.SpinMax = 20000 // decoding with many wrong shards takes long
	}
	s.Window = sp.Window
	s.MaxSteps = 1 << 60
	s.MaxTime = 3600e9
	if sp.UseDevs {
		s.UseFIFO = true
		s.Replay = map[int]string{}
		for _, d := range sp.Devs {
			s.Replay[d.Step] = d.Ent
		}
	}
	s.Record = true
	w := &World{S: s, Sp: sp, R: &Result{Counts: s.Count}, byName: map[string]*Proc{}, byNode: map[*simrt.Node]*Proc{},
		seen: map[string]bool{}, colRand: simrt.NewRand(sp.Seed ^ 0xc011)}
	if traceOn {
		s.OnLog = func(n *simrt.Node, l string) { trace("%d %s: %s", s.Step, n.Name, strings.TrimSpace(l)) }
		w.recvTap = append(w.recvTap, func(src, dst *Proc, m *protobuf.Message) {
			trace("%d %s>%s %s %q s%d %d %08x", s.Step, src.Name, dst.Name, m.Type, m.Id, m.Sender, len(m.Data), simrt.HashStr(string(m.Data))&0xffffffff)
		})
	}
	s.OnRaw = func(p *simrt.Pipe, f []byte) { w.tap(w.rawTap, p, f, false) }
	s.OnFrame = func(p *simrt.Pipe, f []byte) { w.tap(w.sendTap, p, f, false) }
	s.OnRecv = func(p *simrt.Pipe, f []byte) { w.tap(w.recvTap, p, f, true) }
	return w
}

func (w *World) tap(l []func(src, dst *Proc, m *protobuf.Message), p *simrt.Pipe, f []byte, recv bool) {
	src, dst := w.byNode[p.Src], w.byNode[p.Dst]
	if src == nil || dst == nil {
		return
	}
	if len(l) == 0 && !recv {
		return
	}
	var m protobuf.Message
	if proto.Unmarshal(f, &m) != nil {
		return
	}
	if recv && dst.honest() {
		w.order = simrt.Mix(w.order ^ simrt.HashStr(src.Name+dst.Name+m.Type))
	}
	for _, t := range l {
		t(src, dst, &m)
	}
}

func (w *World) viol(prop, kind, f string, a ...any) {
	k := prop + "/" + kind
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.R.Viol = append(w.R.Viol, Viol{prop, kind, fmt.Sprintf(f, a...)})
}

// addNode registers a process.
func (w *World) addNode(name, ip string, slot int, c *Com) *Proc {
	p := &Proc{Name: name, Slot: slot, Com: c, N: w.S.AddNode(name, ip, w.Sp.Crypto), snap: map[string]any{}}
	w.byName[name] = p
	w.byNode[p.N] = p
	return p
}

// twinSlots are the members that run two copies of themselves.
func (w *World) twinOf(name string) *Fault {
	for i := range w.Sp.Faults {
		if f := &w.Sp.Faults[i]; f.Kind == "twin" && f.Node == name {
			return f
		}
	}
	return nil
}

// addCom creates committee k. next is the address list of its successor.
func (w *World) addCom(k int) *Com {
	N, F := w.Sp.N(), w.Sp.F
	c := &Com{K: k, N: N, F: F, slot: make([][]*Proc, N)}
	for i := 0; i < N; i++ {
		c.IP = append(c.IP, fmt.Sprintf("10.0.%d.%d", k, i+1))
		c.Port = append(c.Port, fmt.Sprint(10000+1000*k+i))
	}
	key := keyFor(N, F, fmt.Sprintf("key-%d-%d-%d", F, w.Sp.Crypto, k))
	c.SK, c.PK = key.sk, key.pk
	for i := 0; i < N; i++ {
		name := fmt.Sprintf("k%d.%d", k, i)
		p := w.addNode(name, c.IP[i], i, c)
		c.Procs = append(c.Procs, p)
		c.All = append(c.All, p)
		c.slot[i] = append(c.slot[i], p)
		if f := w.twinOf(name); f != nil {
			q := w.addNode(name+"b", c.IP[i], i, c)
			p.twin, q.twin = q, p
			p.N.Twin, q.N.Twin = true, true
			p.N.Faulty, q.N.Faulty = true, true
			c.All = append(c.All, q)
			c.slot[i] = append(c.slot[i], q)
			w.byzAny = true
		}
	}
	w.Coms = append(w.Coms, c)
	return c
}

// makeParties creates the party objects of committee c; next may be nil.
func (w *World) makeParties(c, next *Com) {
	for _, p := range c.All {
		var ni, np []string
		if next != nil {
			ni, np = next.IP, next.Port
		}
		p.P = party.NewHonestParty(uint32(c.K), uint32(c.N), uint32(c.F), uint32(p.Slot), c.IP, c.Port, ni, np, c.PK, c.SK[p.Slot])
	}
}

func (w *World) makeClient(c *Com) {
	p := w.addNode("cl", "10.0.99.1", -1, nil)
	w.Client = p
	w.Cl = new(party.Client)
	r := simrt.NewRand(w.Sp.Crypto ^ 0x5ec7e7)
	var b [32]byte
	r.Bytes(b[:])
	b[31] &= 0x3f
	w.Secret = big2fr(le2big(b[:]))
	w.Cl.SetSecret(w.Secret)
	w.Cl.HonestParty = party.NewHonestParty(0, uint32(c.N), uint32(c.F), 0x7fffffff, c.IP, c.Port, c.IP, c.Port, nil, nil)
	p.P = w.Cl.HonestParty
}

func (w *World) procs() []*Proc {
	var r []*Proc
	for _, n := range w.S.Nodes {
		if p := w.byNode[n]; p != nil {
			r = append(r, p)
		}
	}
	return r
}

func (w *World) runInit(name string, f func(p *Proc)) bool {
	ps := w.procs()
	for _, p := range ps {
		p := p
		if p.N.Dead {
			continue
		}
		p.init = 0
		w.S.Go(p.N, name, func() { f(p); p.init = 1 })
	}
	return w.S.Run(func() bool {
		for _, p := range ps {
			if !p.N.Dead && p.init == 0 {
				return false
			}
		}
		return true
	})
}

// connect opens all sockets: receivers first, then senders, as the node
// programs do.
func (w *World) connect() bool {
	w.markFaulty()
	if !w.runInit("recv", func(p *Proc) {
		if p.Com != nil {
			p.P.InitReceiveChannel()
		}
	}) {
		return false
	}
	w.applyFaults()
	w.openConns()
	if !w.runInit("send", func(p *Proc) {
		p.P.InitSendChannel()
		if p.Com != nil && (w.Sp.One || p.Com.K+1 < len(w.Coms)) {
			p.P.InitSendToNextChannel()
		}
	}) {
		return false
	}
	w.base = w.S.Step
	w.applyTimed()
	return true
}

func faultyKind(k string) bool {
	switch k {
	case "crash", "absent", "restart", "byz", "twin", "reset", "connflood", "conns":
		return true
	}
	return false
}

func (w *World) markFaulty() {
	for i := range w.Sp.Faults {
		f := &w.Sp.Faults[i]
		if faultyKind(f.Kind) {
			if p := w.byName[f.Node]; p != nil {
				p.N.Faulty = true
			}
			switch f.Kind {
			case "byz", "twin":
				w.byzAny = true
			default:
				w.crash = true
			}
		}
	}
}

func (w *World) applyFaults() {
	for i := range w.Sp.Faults {
		f := &w.Sp.Faults[i]
		p := w.byName[f.Node]
		if p == nil {
			continue
		}
		switch f.Kind {
		case "absent":
			p.N.Mode = simrt.CrashMode(f.Mode)
			w.S.Count["absent"]++
			w.S.Kill(p.N)
		case "crash":
			p.N.Mode = simrt.CrashMode(f.Mode)
			p.N.KillAt(f.Step, f.Write)
		case "byz", "twin":
			b := newByz(w, p, f, 0)
			p.N.Filter = b.filter
			if p.twin != nil {
				c := newByz(w, p.twin, f, 1)
				p.twin.N.Filter = c.filter
			}
		}
	}
}

// openConns lets faulty members open more connections than they need: some say
// nothing, some stop within a header or a message, some send garbage.
func (w *World) openConns() {
	for i := range w.Sp.Faults {
		f := &w.Sp.Faults[i]
		p := w.byName[f.Node]
		if f.Kind != "conns" || p == nil {
			continue
		}
		rnd := simrt.NewRand(f.Seed)
		for _, q := range w.procs() {
			q := q
			if q == p || q.twin == p || q.Com == nil || f.Mask>>uint(q.Slot&63)&1 == 0 {
				continue
			}
			tries := 0
			var try func()
			try = func() {
				if p.N.Dead || q.N.Dead {
					return
				}
				for n := 0; n < f.Len; n++ {
					raw := [][]byte{nil, {0}, {0, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 9, 10, 3}, {0, 0, 0, 5, 255, 255, 255, 255, 255}, {255, 255, 255, 255, 1}, {0, 255, 255, 255, 1}}[rnd.Intn(8)]
					if !w.S.OpenIdle(p.N, q.N, raw) {
						if tries++; tries < 50 {
							w.S.At(w.S.Step+200, try)
						}
						return
					}
					w.S.Count["idle-connections"]++
				}
			}
			try()
		}
	}
}

// applyTimed arms the faults that are given by step (relative to the end of
// the connection phase).
func (w *World) applyTimed() {
	for i := range w.Sp.Faults {
		f := &w.Sp.Faults[i]
		p := w.byName[f.Node]
		at := w.base + f.Step
		switch f.Kind {
		case "pause":
			if p == nil {
				continue
			}
			w.S.At(at, func() {
				w.S.Count["pause"]++
				w.S.Pause(p.N, at+f.Len)
				if f.Ms > 0 {
					w.S.Count["pause-long"]++
					w.S.PauseTime(p.N, w.S.Now+int64(f.Ms)*1e6)
				}
			})
		case "link":
			w.S.At(at, func() {
				w.S.Count["link-stall"]++
				w.S.LinkStall[f.Node+">"+f.Peer] = at + f.Len
				w.hold(f, f.Node+">"+f.Peer)
			})
		case "part":
			// the members whose bit is set are cut off from the others
			w.S.At(at, func() {
				w.S.Count["partition"]++
				for _, a := range w.procs() {
					for _, b := range w.procs() {
						if w.side(a, f) != w.side(b, f) {
							w.S.LinkStall[a.Name+">"+b.Name] = at + f.Len
							w.hold(f, a.Name+">"+b.Name)
						}
					}
				}
			})
		case "typestall":
			// what follows a message of the type on its link waits for a while
			f, n, held := f, 0, map[string]bool{}
			w.sendTap = append(w.sendTap, func(src, dst *Proc, m *protobuf.Message) {
				if len(f.Rules) == 0 || src != p && f.Node != "" || f.Mask>>uint(dst.Slot&63)&1 == 0 || w.S.Step > w.base+f.Step || n > 200 {
					return
				}
				for _, t := range f.Rules[0].Types {
					if t == m.Type {
						n++
						w.S.Count["type-stall"]++
						l := src.Name + ">" + dst.Name
						w.S.LinkStall[l] = w.S.Step + f.Len
						if !held[l] {
							held[l] = true
							w.hold(f, l)
						}
					}
				}
			})
		case "reset":
			if p == nil {
				continue
			}
			w.S.At(at, func() {
				q := w.byName[f.Peer]
				var dst *simrt.Node
				if q != nil {
					dst = q.N
				}
				for _, x := range w.S.Pipes(p.N, dst) {
					w.S.Count["reset"]++
					x.Reset()
				}
			})
		case "connflood":
			// the member opens connections until others have no file
			// descriptors left for more
			w.S.At(at, func() {
				for _, q := range w.procs() {
					if q != p && f.Mask>>uint(q.Slot&63)&1 == 1 && !q.N.Dead {
						w.S.Count["connection-flood"]++
						w.S.FailAccept(q.N, f.Len)
					}
				}
			})
		case "slowcpu":
			if p == nil {
				continue
			}
			n := 0
			var next func()
			next = func() {
				w.S.Pause(p.N, w.S.Step+f.Len)
				if n++; n < 200 {
					w.S.At(w.S.Step+f.Len+1+f.Write, next)
				}
			}
			w.S.Count["slow-node"]++
			w.S.At(at, next)
		case "skew":
			if p == nil {
				continue
			}
			w.S.At(at, func() { w.S.Count["clock-jump"]++; p.N.Skew += int64(f.Mode) * 1e6 })
		}
	}
}

// hold delays a link for a while of simulated time.
func (w *World) hold(f *Fault, link string) {
	if f.Ms > 0 {
		w.S.Count["long-delay"]++
		w.S.HoldLink(link, w.S.Now+int64(f.Ms)*1e6)
	}
}

func (w *World) side(p *Proc, f *Fault) bool {
	if p.Com == nil {
		return false
	}
	return f.Mask>>(uint(p.Com.K*16+p.Slot)%64)&1 == 1
}

// run drives the world until stop; if the step budget is used up the faults
// end and a fair schedule gets another budget. It reports whether stop was reached.
func (w *World) run(stop func() bool, budget int) bool {
	s := w.S
	s.MaxSteps = s.Step + budget
	s.OutOfSteps = false
	if s.Run(stop) {
		return true
	}
	if s.OutOfSteps {
		s.Count["fair-tail"]++
		s.OutOfSteps = false
		s.Strat.Kind, s.Strat.StallP, s.Strat.SlowP, s.Strat.Seg = "fifo", 0, 0, 0
		s.MaxSteps = s.Step + 2*budget
		if s.Run(stop) {
			return true
		}
	}
	return false
}

// settle lets what is left run for a while (a crash after the goal was
// reached is still a crash).
func (w *World) settle(steps int) {
	w.S.MaxSteps = w.S.Step + steps
	w.S.MaxTime = w.S.Now + 30e9
	w.S.OutOfSteps = false
	w.S.Run(nil)
}

func (w *World) finish() *Result {
	s := w.S
	r := w.R
	r.Digest = fmt.Sprintf("%016x", s.Digest)
	r.Order = fmt.Sprintf("%016x", w.order)
	r.Steps = s.Step
	r.SimNs = s.Now
	r.Frames = s.Frames
	r.devs = s.Devs
	s.Count["choices"] += s.Choices
	s.Count["hot-yields"] += s.Hot
	return r
}

// judgeExits reports honest processes that ended.
func (w *World) judgeExits(props ...string) bool {
	bad := false
	for _, p := range w.procs() {
		if p.N.Dead && p.honest() {
			bad = true
			d := fmt.Sprintf("honest process %s ended: %s: %s at %s", p.Name, p.N.Exit, short(p.N.Msg, 200), strings.Join(head(p.N.Stack, 4), " < "))
			if w.byzAny {
				w.viol("C16", "exit", "%s", d)
			}
			if w.crash {
				w.viol("C15", "exit", "%s", d)
			}
			for _, x := range props {
				w.viol(x, "exit", "%s", d)
			}
		}
	}
	return bad
}

func (w *World) stuckInfo(ps []*Proc) string {
	var b []string
	for _, p := range ps {
		if !p.Done && p.honest() {
			b = append(b, fmt.Sprintf("%s in %s [%s]", p.Name, p.Phase, short(strings.Join(w.S.Blocked(p.N), "; "), 400)))
		}
	}
	how := "nothing more can happen"
	if w.S.OutOfSteps {
		how = "no completion within the step bound"
	}
	if w.S.OutOfTime {
		how = "no completion within the time bound"
	}
	if w.S.StuckSpin {
		how = "only busy-waiting is left"
	}
	if traceOn {
		for _, p := range ps {
			trace("%s %s %s", p.Name, p.Phase, strings.Join(w.S.Blocked(p.N), "\n    "))
		}
	}
	return how + ": " + short(strings.Join(b, " | "), 1500)
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
