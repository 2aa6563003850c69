package main

import (
	"bytes"
	"crypto/sha256"
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	"github.com/klauspost/reedsolomon"
	"google.golang.org/protobuf/proto"
	"verif.local/simrt"
)

// Reliable broadcast: several concurrent instances in one committee.

type bcast struct {
	id    string
	from  int               // slot of the broadcaster
	msg   *protobuf.Message // what it broadcasts (its twin: msg2)
	msg2  *protobuf.Message
	out   map[*Proc][]byte
	props [][]byte // payloads the broadcaster put into proposals
}

type rbcRun struct {
	w    *World
	inst []*bcast
}

func canon(m *protobuf.Message) []byte {
	d, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	return d
}

func (r *rbcRun) find(id []byte) *bcast {
	for _, b := range r.inst {
		if b.id == string(id) {
			return b
		}
	}
	return nil
}

// delay runs f as a task of p after the given number of steps.
func (w *World) delay(p *Proc, steps int, name string, f func()) {
	if steps <= 0 {
		w.S.Go(p.N, name, f)
		return
	}
	w.S.At(w.S.Step+steps, func() {
		if !p.N.Dead {
			w.S.Go(p.N, name, f)
		}
	})
}

func rbcMessage(rnd *simrt.Rand, id string, from, size int, salt byte) *protobuf.Message {
	d := make([]byte, size)
	rnd.Bytes(d)
	switch rnd.Intn(4) {
	case 0: // low entropy and zeros at the end
		for i := range d {
			d[i] = 0
		}
	case 1:
		for i := size / 2; i < size; i++ {
			d[i] = 0
		}
	}
	if size > 0 {
		d[0] = salt
	}
	return &protobuf.Message{Type: []string{"Commit", "NewCommit", "Test"}[rnd.Intn(3)], Sender: uint32(from), Id: []byte(id), Data: d}
}

func runRBC(sp *Spec) *Result {
	w := newWorld(sp)
	c := w.addCom(0)
	w.makeParties(c, nil)
	r := &rbcRun{w: w}
	rnd := simrt.NewRand(sp.Seed ^ 0xbca57)
	n := sp.opt("inst")
	if n < 1 {
		n = 1
	}
	base := []string{"abc", "P_1,", "ProactivizeAndShareDist_2,"}[rnd.Intn(3)]
	maxs := sp.opt("size")
	for i := 0; i < n; i++ {
		from := rnd.Intn(sp.N())
		if i == 0 {
			from = sp.opt("from")
		}
		b := &bcast{id: base + strconv.Itoa(i+1), from: from, out: map[*Proc][]byte{}}
		size := rnd.Intn(maxs + 1)
		switch rnd.Intn(6) {
		case 0:
			size = rnd.Intn(4)
		case 1:
			size = 2 * sp.F * (1 + rnd.Intn(20))
		}
		if maxs > 50000 && rnd.Chance(0.4) {
			size = []int{65533, 65535, 65536, 65537, 2*65535 + 1, 2*65536 + 1}[rnd.Intn(6)] - []int{0, 0, 10, 30, 60}[rnd.Intn(5)]
		}
		b.msg = rbcMessage(rnd, b.id, from, size, 1)
		b.msg2 = rbcMessage(rnd, b.id, from, rnd.Intn(maxs+1), 2)
		if rnd.Chance(0.3) {
			b.msg2 = proto.Clone(b.msg).(*protobuf.Message)
			b.msg2.Data = append(b.msg2.Data, 0)
		}
		r.inst = append(r.inst, b)
	}
	w.rbc = r
	w.sendTap = append(w.sendTap, func(src, dst *Proc, m *protobuf.Message) {
		if m.Type != "RBCPropose" {
			return
		}
		if b := r.find(m.Id); b != nil && src.Slot == b.from && len(b.props) < 256 {
			b.props = append(b.props, m.Data)
		}
	})
	if !w.connect() {
		for _, x := range []string{"C07"} {
			w.viol(x, "connect", "not all members could open their connections: %s", w.stuckInfo(w.procs()))
		}
		w.judgeExits("C07")
		return w.finish()
	}
	span := sp.opt("span")
	for _, p := range c.All {
		if p.N.Dead {
			continue
		}
		p := p
		for _, b := range r.inst {
			b := b
			d := 0
			if rnd.Chance(0.4) {
				d = rnd.Intn(span + 1)
			}
			w.delay(p, d, "rbc", func() {
				m := p.P.RBCReceive([]byte(b.id), uint32(b.from))
				if m != nil {
					b.out[p] = canon(m)
				} else {
					b.out[p] = []byte("nil")
				}
			})
		}
	}
	for _, b := range r.inst {
		b := b
		d := 0
		if rnd.Chance(0.3) {
			d = rnd.Intn(span + 1)
		}
		for half, p := range c.slot[b.from] {
			p, half := p, half
			if p.N.Dead {
				continue
			}
			w.delay(p, d, "send", func() {
				m := b.msg
				if half == 1 {
					m = b.msg2
				}
				if p.N.Faulty && sp.opt("exclude") > 0 {
					p.P.RBCSendExclude(m, []byte(b.id), uint32(rnd.Intn(sp.N())))
					return
				}
				p.P.RBCSend(m, []byte(b.id))
			})
		}
	}
	// everything an honest broadcaster sent is delivered everywhere; nothing
	// more happens at the end
	goal := func() bool {
		for _, b := range r.inst {
			if c.slot[b.from][0].honest() || len(b.out) > 0 {
				for _, p := range c.All {
					if p.honest() && b.out[p] == nil {
						return p.N.Dead
					}
				}
			}
		}
		for _, b := range r.inst {
			if len(b.out) == 0 { // may still start
				return w.S.Step > w.base+4*span+200*sp.N()*sp.N()
			}
		}
		return true
	}
	ok := w.run(goal, sp.Max)
	w.R.Done = ok
	// an instance of a faulty broadcaster may get going late: what is delivered
	// somewhere must then have its time to be delivered everywhere
	for n := 0; ok && n < 4; n++ {
		w.settle(800 * sp.N())
		if goal() {
			break
		}
		w.S.Count["late-instance"]++
		w.S.MaxTime = w.S.Now + 3600e9
		w.S.OutOfTime = false
		ok = w.run(goal, sp.Max)
		w.R.Done = ok
	}
	dead := w.judgeExits("C07", "C06")
	for _, b := range r.inst {
		honest := c.slot[b.from][0].honest()
		var first *Proc
		var missing []string
		for _, p := range c.All {
			if !p.honest() {
				continue
			}
			o := b.out[p]
			if o == nil {
				if !p.N.Dead {
					missing = append(missing, p.Name)
				}
				continue
			}
			if first == nil {
				first = p
			} else if !bytes.Equal(b.out[first], o) {
				w.viol("C06", "disagree", "instance %s of %d: %s delivered %x but %s delivered %x", b.id, b.from, first.Name, short(string(b.out[first]), 40), p.Name, short(string(o), 40))
			}
			if honest {
				if !bytes.Equal(o, canon(b.msg)) {
					w.viol("C07", "changed", "instance %s: honest %d broadcast %x (%d bytes), %s delivered %x (%d bytes)", b.id, b.from, short(string(canon(b.msg)), 40), len(canon(b.msg)), p.Name, short(string(o), 40), len(o))
				}
			} else {
				sent := false
				for _, d := range b.props {
					var x protobuf.Message
					proto.Unmarshal(d, &x)
					if bytes.Equal(canon(&x), o) {
						sent = true
					}
				}
				if !sent {
					w.viol("C07", "never-sent", "instance %s: %s delivered %x, which faulty %d never proposed", b.id, p.Name, short(string(o), 40), b.from)
				}
			}
		}
		if len(missing) > 0 && !dead {
			if first != nil {
				w.viol("C06", "partial", "instance %s of %d: %s delivered but %v never do: %s", b.id, b.from, first.Name, missing, w.blocked(missing))
			}
			if honest {
				w.viol("C07", "stuck", "instance %s: the message of honest %d is never delivered by %v: %s", b.id, b.from, missing, w.blocked(missing))
			}
		}
	}
	return w.finish()
}

func (w *World) blocked(names []string) string {
	var l []*Proc
	for _, n := range names {
		if p := w.byName[n]; p != nil {
			l = append(l, p)
		}
	}
	return w.stuckInfo(l)
}

// evilRBC is the message all colluders pretend was broadcast in an instance.
func (b *byz) evilRBC(id []byte, extra int) (hash []byte, shards [][]byte) {
	N, F := b.w.Sp.N(), b.w.Sp.F
	d := canon(&protobuf.Message{Type: "Evil", Id: id, Data: bytes.Repeat([]byte{7}, 30+extra)})
	h := sha256.Sum256(d)
	enc, err := reedsolomon.New(N-(F+1), F+1)
	if err != nil {
		return nil, nil
	}
	shards, err = enc.Split(d)
	if err != nil || enc.Encode(shards) != nil {
		return nil, nil
	}
	return append(h[:], utils.IntToBytes(len(d))...), shards
}

// strategicRBC misbehaves in the reliable broadcast.
func (b *byz) strategicRBC(r *Rule, m *protobuf.Message, dst *Proc, rnd *simrt.Rand) [][]byte {
	m = proto.Clone(m).(*protobuf.Message)
	frame := enc(m)
	switch m.Type {
	case "RBCPropose":
		switch r.Arg % 6 {
		case 0, 1: // one message to some members, another one to the others
			if (b.f.Seed>>uint(dst.Slot))&1 == 0 {
				return [][]byte{frame}
			}
			var in protobuf.Message
			proto.Unmarshal(m.Data, &in)
			in.Data = append(append([]byte(nil), in.Data...), 0)
			m.Data = canon(&in)
			if r.Arg%6 == 1 {
				return [][]byte{enc(m), frame}
			}
			return [][]byte{enc(m)}
		case 2: // only to some
			if (b.f.Seed>>uint(dst.Slot))&1 == 0 {
				return [][]byte{frame}
			}
			return nil
		case 3: // proposes the colluders' message
			if (b.f.Seed>>uint(dst.Slot))&1 == 0 {
				return [][]byte{frame}
			}
			m.Data = canon(&protobuf.Message{Type: "Evil", Id: m.Id, Data: bytes.Repeat([]byte{7}, 30)})
			return [][]byte{enc(m)}
		default: // proposes in the other instances, too
			out := [][]byte{frame}
			for _, x := range b.w.rbcInstances() {
				m.Id = []byte(x)
				if rnd.Intn(2) == 0 {
					m.Data = canon(&protobuf.Message{Type: "Evil", Id: m.Id, Data: bytes.Repeat([]byte{7}, 30)})
				}
				out = append(out, enc(m))
			}
			return out
		}
	case "RBCEcho":
		var x protobuf.RBCEcho
		if proto.Unmarshal(m.Data, &x) != nil {
			return nil
		}
		x.Hash, x.M = b.fake(r, m.Id, dst.Slot, x.Hash, x.M, rnd)
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	case "RBCReady":
		var x protobuf.RBCReady
		if proto.Unmarshal(m.Data, &x) != nil {
			return nil
		}
		x.Hash, x.M = b.fake(r, m.Id, b.p.Slot, x.Hash, x.M, rnd)
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	}
	return nil
}

// fake is a wrong pair of hash and shard.
func (b *byz) fake(r *Rule, id []byte, slot int, hash, m []byte, rnd *simrt.Rand) ([]byte, []byte) {
	m = append([]byte(nil), m...)
	hash = append([]byte(nil), hash...)
	switch r.Arg % 7 {
	case 0: // wrong shard, same for everybody
		if len(m) > 0 {
			m[0] ^= 0x55
		}
	case 1: // the colluders' message
		if h, s := b.evilRBC(id, 0); h != nil {
			return h, s[slot]
		}
	case 2: // another length
		if len(hash) > 3 {
			hash[len(hash)-1]++
		}
	case 3: // shard of another length
		m = append(m, 0)
	case 4: // different lies to different members
		if len(m) > 0 {
			m[rnd.Intn(len(m))] ^= byte(1 + rnd.Intn(255))
		}
	case 5:
		m = nil
	case 6: // the right message, but the length is that of the padded one
		if len(hash) > 3 {
			n := utils.BytesToInt(hash[len(hash)-4:])
			hash = append(hash[:len(hash)-4], utils.IntToBytes(n-1)...)
		}
	}
	return hash, m
}

func (w *World) rbcInstances() []string {
	var l []string
	if w.rbc != nil {
		for _, b := range w.rbc.inst {
			l = append(l, b.id)
		}
	}
	return l
}

// rbcEarly lets colluders send echoes and readies nobody asked for.
func (b *byz) rbcEarly(m *protobuf.Message, dst *Proc, rnd *simrt.Rand) [][]byte {
	var out [][]byte
	for _, id := range b.w.rbcInstances() {
		h, s := b.evilRBC([]byte(id), 0)
		if h == nil {
			continue
		}
		if rnd.Intn(3) > 0 {
			d, _ := proto.Marshal(&protobuf.RBCEcho{Hash: h, M: s[dst.Slot]})
			out = append(out, enc(&protobuf.Message{Type: "RBCEcho", Sender: uint32(b.p.Slot), Id: []byte(id), Data: d}))
		}
		if rnd.Intn(3) > 0 {
			d, _ := proto.Marshal(&protobuf.RBCReady{Hash: h, M: s[b.p.Slot]})
			out = append(out, enc(&protobuf.Message{Type: "RBCReady", Sender: uint32(b.p.Slot), Id: []byte(id), Data: d}))
		}
	}
	return out
}

var typesRBC = []string{"RBCPropose", "RBCEcho", "RBCReady"}
var actsRBC = []string{"drop", "dup", "dup", "hold", "replay", "swap", "mut", "mut", "mutdup", "junkdata", "nodata", "junkid", "badsender", "flood", "inject",
	"strat", "strat", "strat", "strat", "strat", "rbcearly"}

func (g *gen) rbcSpec() {
	sp := g.sp
	sp.Scen = "rbc"
	sp.F = []int{1, 1, 1, 1, 2, 2, 2, 3}[g.Intn(8)]
	short := g.Chance(0.02)
	if deepRuns && g.Chance(0.2) {
		sp.F = 4 + g.Intn(3)
	} else if short {
		sp.F = 5
	}
	sp.Crypto = 1
	N := sp.N()
	inst := []int{1, 1, 1, 2, 3, 5}[g.Intn(6)]
	span := inst * N * N * 8
	sp.Opt = map[string]int{"inst": inst, "from": g.Intn(N), "span": span, "size": []int{20, 100, 400, 5000, 5000, 70000, 150000}[g.Intn(7)]}
	if sp.F > 3 {
		// many members: short messages
		if inst > 2 {
			inst = 2
			span = inst * N * N * 8
		}
		sp.Opt["inst"], sp.Opt["span"], sp.Opt["size"] = inst, span, []int{20, 100, 400}[g.Intn(3)]
	}
	sp.Strat = g.strategy(span)
	sp.Max = 4000*N*N + 40*span
	g.benign(span, 1)
	if size := sp.Opt["size"]; size > 5000 {
		if sp.Window == 600 {
			sp.Window = 4096
		}
		win := sp.Window
		if win == 0 {
			win = 65536
		}
		sp.Max += inst * N * N * 20 * (1 + size/win)
	}
	if deepRuns && sp.F >= 4 {
		sp.Max *= 5 // the decoder's search for wrong shards takes many steps
	}
	g.typeStalls(typesRBC, span)
	used := map[string]bool{}
	types := append([]string(nil), typesRBC...)
	byzBcast := 0.45
	if sp.Prop == "C07" {
		byzBcast = 0.15
	}
	for n := 0; n < sp.F; n++ {
		x := g.Float()
		if x > 0.93 {
			continue
		}
		m := ""
		if n == 0 && g.Chance(byzBcast) {
			m = sprint("k0.%d", sp.opt("from"))
			used[m] = true
		} else {
			m = g.member(0, used)
		}
		switch {
		case x < 0.12:
			sp.Faults = append(sp.Faults, g.crashFault(m, 20*N, 3*N*inst))
		case x < 0.3:
			sp.Faults = append(sp.Faults, g.twinFault(m, types, actsRBC))
		default:
			f := g.byzFault(m, types, actsRBC)
			sp.Faults = append(sp.Faults, f)
			if g.Chance(0.15) {
				sp.Opt["exclude"] = 1
			}
		}
	}
	if short && len(sp.Faults) > 0 && sp.F == 5 {
		// a broadcaster that sends next to nothing
		from := sprint("k0.%d", sp.opt("from"))
		var keep []Fault
		for _, f := range sp.Faults {
			if f.Node != from {
				keep = append(keep, f)
			}
		}
		if len(keep) >= sp.F {
			keep = keep[:sp.F-1]
		}
		sp.Faults = append(keep, Fault{Kind: "byz", Node: from, Seed: g.U64() % 100000, Rules: []Rule{{Types: []string{"RBCPropose"}, Act: "junkdata"}}})
	} else if g.Chance(0.4) {
		// all colluders do the same
		r := Rule{Act: "strat", Arg: g.Intn(8)}
		for i := range sp.Faults {
			if sp.Faults[i].Kind == "byz" {
				sp.Faults[i].Rules = []Rule{r}
				if g.Chance(0.5) {
					sp.Faults[i].Rules = []Rule{{Act: "rbcearly", To: 1}, r}
				}
			}
		}
	}
}
