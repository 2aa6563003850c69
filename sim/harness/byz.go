package main

import (
	"bytes"
	"math/big"
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/sign/tbls"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"verif.local/simrt"
)

// byz is the misbehaviour of one process: it runs the real program, but what
// leaves it passes through the rules of its fault.
type byz struct {
	w      *World
	p      *Proc
	f      *Fault
	half   int // which of two twins
	rnd    []*simrt.Rand
	cnt    []int
	hist   map[string][]*protobuf.Message // by type, in sending order
	last   map[string]*protobuf.Message   // by type/id/dst
	held   []heldFrame
	points [][]byte
	scal   [][]byte
	ids    map[string][][]byte // known ids by type
	cut    map[*simrt.Pipe]bool
	evil   map[string][]byte         // by instance: what was proposed instead of the program's own value
	shares map[string]map[int][]byte // the signature shares the others gave for it
}

// onEcho carries a forged proposal through both rounds of its broadcast; the
// program itself cannot, it waits for echoes of what it proposed.
func (b *byz) onEcho(src *Proc, m *protobuf.Message) {
	val := b.evil[string(m.Id)]
	if val == nil || len(m.Id) == 0 || src.Com != b.p.Com || src.Slot < 0 || b.p.N.Dead {
		return
	}
	var e protobuf.Echo
	if proto.Unmarshal(m.Data, &e) != nil {
		return
	}
	sch := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	sm := echoMsg(m.Id, val)
	if sch.VerifyPartial(b.p.P.SigPK, sm, e.Sigshare) != nil {
		return
	}
	got := b.shares[string(m.Id)]
	if got == nil {
		got = map[int][]byte{}
		own, err := sch.Sign(b.p.P.SigSK, sm)
		if err != nil {
			return
		}
		got[b.p.Slot] = own
		b.shares[string(m.Id)] = got
	}
	got[src.Slot] = e.Sigshare
	need := 2*b.w.Sp.F + 1
	if len(got) != need {
		return
	}
	var sigs [][]byte
	for i := 0; i < b.w.Sp.N(); i++ {
		if got[i] != nil {
			sigs = append(sigs, got[i])
		}
	}
	got[-1] = nil // once
	cert, err := sch.Recover(b.p.P.SigPK, sm, sigs, need, b.w.Sp.N())
	if err != nil {
		return
	}
	last := len(m.Id) - 1
	out := &protobuf.Message{Sender: uint32(b.p.Slot)}
	if m.Id[last] == 1 {
		out.Type = "Value"
		out.Id = append(append([]byte(nil), m.Id[:last]...), 2)
		out.Data, _ = proto.Marshal(&protobuf.Value{Value: val, Validation: cert})
		b.evil[string(out.Id)] = val
	} else if last > 4 {
		out.Type = "Finish"
		out.Id = append([]byte(nil), m.Id[:last-4]...)
		out.Data, _ = proto.Marshal(&protobuf.Finish{Value: val, Sig: cert})
	}
	f := enc(out)
	b.w.S.Count["byz-forged-"+out.Type]++
	b.w.S.At(b.w.S.Step+1, func() {
		if b.p.N.Dead {
			return
		}
		for _, q := range b.p.Com.All {
			for _, p := range b.w.S.Pipes(b.p.N, q.N) {
				b.w.S.Inject(p, f)
			}
		}
	})
}

type heldFrame struct {
	left  int
	p     *simrt.Pipe
	frame []byte
}

func newByz(w *World, p *Proc, f *Fault, half int) *byz {
	b := &byz{w: w, p: p, f: f, half: half, hist: map[string][]*protobuf.Message{}, last: map[string]*protobuf.Message{},
		ids: map[string][][]byte{}, cut: map[*simrt.Pipe]bool{}}
	for i := range f.Rules {
		b.rnd = append(b.rnd, simrt.NewRand(f.Seed^w.Sp.Seed^uint64(i*7919+half*104729)))
	}
	b.cnt = make([]int, len(f.Rules))
	b.points = append(b.points, ptBytes(&bls.GenG1), ptBytes(&bls.ZeroG1))
	one := make([]byte, 32)
	one[0] = 1
	b.scal = append(b.scal, make([]byte, 32), one, bytes.Repeat([]byte{0xff}, 32))
	if w.mvba != nil && f.Mode != 0 && f.Kind == "byz" {
		w.mvba.poster = append(w.mvba.poster, b)
	}
	// a misbehaving member also knows what others sent it
	w.recvTap = append(w.recvTap, func(src, dst *Proc, m *protobuf.Message) {
		if dst == p {
			b.learn(m)
			if m.Type == "Echo" && len(b.evil) > 0 {
				b.onEcho(src, m)
			}
		}
	})
	return b
}

func ptBytes(p *bls.G1Point) []byte { return bls.ToCompressedG1(p) }

var msgTypes = []string{"VSSSend", "Prepare", "ShareReduce", "RBCPropose", "RBCEcho", "RBCReady", "Reshare", "Recover", "ShareDist", "Success",
	"Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote"}

func payload(t string) proto.Message {
	switch t {
	case "VSSSend":
		return new(protobuf.VSSSend)
	case "Prepare":
		return new(protobuf.Prepare)
	case "ShareReduce":
		return new(protobuf.ShareReduce)
	case "RBCPropose":
		return new(protobuf.Message)
	case "RBCEcho":
		return new(protobuf.RBCEcho)
	case "RBCReady":
		return new(protobuf.RBCReady)
	case "Reshare":
		return new(protobuf.Reshare)
	case "Recover":
		return new(protobuf.Recover)
	case "ShareDist":
		return new(protobuf.ShareDist)
	case "Success":
		return new(protobuf.Success)
	case "Value":
		return new(protobuf.Value)
	case "Echo":
		return new(protobuf.Echo)
	case "Finish":
		return new(protobuf.Finish)
	case "Done":
		return new(protobuf.Done)
	case "Halt":
		return new(protobuf.Halt)
	case "PreVote":
		return new(protobuf.PreVote)
	case "Vote":
		return new(protobuf.Vote)
	case "Commit":
		return new(protobuf.Commit)
	case "MVBAIN":
		return new(protobuf.MVBAIN)
	}
	return nil
}

func (b *byz) learn(m *protobuf.Message) {
	h := b.hist[m.Type]
	if len(h) < 64 {
		b.hist[m.Type] = append(h, m)
	}
	for _, x := range b.ids[m.Type] {
		if bytes.Equal(x, m.Id) {
			return
		}
	}
	b.ids[m.Type] = append(b.ids[m.Type], m.Id)
}

func (r *Rule) matches(b *byz, m *protobuf.Message, dst *Proc) bool {
	if len(r.Types) > 0 {
		ok := false
		for _, t := range r.Types {
			if t == m.Type {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	if r.Dst != 0 && (dst.Slot < 0 || r.Dst>>uint(dst.Slot)&1 == 0) {
		return false
	}
	if r.Com != 0 && b.p.Com != nil && dst.Com != nil {
		if (r.Com == 1) != (b.p.Com == dst.Com) {
			return false
		}
	}
	return true
}

// filter rewrites one outgoing frame.
func (b *byz) filter(p *simrt.Pipe, frame []byte) [][]byte {
	s := b.w.S
	dst := b.w.byNode[p.Dst]
	if b.cut[p] || dst == nil {
		return nil
	}
	// twins talk to disjoint parts of the world
	if b.p.twin != nil {
		side := 0
		if b.f.Mask>>uint(dst.Slot&63)&1 == 1 {
			side = 1
		}
		if dst.Com != b.p.Com {
			side = b.half // to other committees both speak
		}
		if dst.Slot == b.p.Slot && dst.Com == b.p.Com {
			if dst != b.p {
				return nil
			}
		} else if side != b.half && b.f.Mode&1 == 0 {
			s.Count["twin-drop"]++
			return nil
		}
	}
	var m protobuf.Message
	if proto.Unmarshal(frame, &m) != nil {
		return [][]byte{frame}
	}
	orig := proto.Clone(&m).(*protobuf.Message)
	b.learn(orig)
	out := [][]byte{frame}
	for i := range b.f.Rules {
		r := &b.f.Rules[i]
		if !r.matches(b, orig, dst) {
			continue
		}
		b.cnt[i]++
		if b.cnt[i]-1 < r.From || (r.To > 0 && b.cnt[i]-1 >= r.To) {
			continue
		}
		if r.P > 0 && !b.rnd[i].Chance(r.P) {
			continue
		}
		s.Count["byz-"+r.Act]++
		out = b.apply(i, r, orig, p, dst, out)
		break
	}
	b.last[m.Type+"/"+string(m.Id)+"/"+strconv.Itoa(dst.Slot)] = orig
	// release what was held back long enough
	var keep []heldFrame
	for _, h := range b.held {
		h.left--
		if h.left <= 0 {
			if h.p == p {
				out = append(out, h.frame)
			} else {
				s.Inject(h.p, h.frame)
			}
		} else {
			keep = append(keep, h)
		}
	}
	b.held = keep
	return out
}

func enc(m *protobuf.Message) []byte { d, _ := proto.Marshal(m); return d }

func (b *byz) apply(i int, r *Rule, m *protobuf.Message, p *simrt.Pipe, dst *Proc, out [][]byte) [][]byte {
	rnd := b.rnd[i]
	m = proto.Clone(m).(*protobuf.Message)
	switch r.Act {
	case "drop":
		return nil
	case "dup":
		n := r.Arg
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			out = append(out, out[0])
		}
		return out
	case "hold":
		b.held = append(b.held, heldFrame{1 + rnd.Intn(r.Arg+1), p, out[0]})
		return nil
	case "replay": // an earlier message of the type instead
		h := b.hist[m.Type]
		x := proto.Clone(h[rnd.Intn(len(h))]).(*protobuf.Message)
		x.Sender = m.Sender
		if r.Arg == 1 {
			x.Id = m.Id
		}
		if r.Arg == 2 {
			return append(out, enc(x))
		}
		return [][]byte{enc(x)}
	case "swap": // what was meant for somebody else
		n := 0
		for k := 0; k < b.w.Sp.N(); k++ {
			x := b.last[m.Type+"/"+string(m.Id)+"/"+strconv.Itoa((dst.Slot+1+k)%b.w.Sp.N())]
			if x != nil {
				if n == r.Arg%3 {
					return [][]byte{enc(x)}
				}
				n++
			}
		}
		return out
	case "mut":
		n := r.Arg
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			b.mutate(m, rnd)
		}
		return [][]byte{enc(m)}
	case "mutdup": // the correct message and a mutated one, in either order
		o := out[0]
		b.mutate(m, rnd)
		if r.Arg&1 == 0 {
			return [][]byte{enc(m), o}
		}
		return [][]byte{o, enc(m)}
	case "junkdata":
		d := make([]byte, []int{rnd.Intn(80), rnd.Intn(20)}[rnd.Intn(2)])
		rnd.Bytes(d)
		m.Data = d
		return [][]byte{enc(m)}
	case "nodata":
		m.Data = nil
		return [][]byte{enc(m)}
	case "junktype":
		if r.Arg == 1 {
			m.Type = "NoSuchType"
		} else {
			m.Type = msgTypes[rnd.Intn(len(msgTypes))]
		}
		return [][]byte{enc(m), out[0]}
	case "junkid":
		switch rnd.Intn(4) {
		case 0:
			m.Id = nil
		case 1:
			m.Id = append(append([]byte(nil), m.Id...), 'x')
		case 2:
			x := make([]byte, 6)
			rnd.Bytes(x)
			m.Id = x
		default:
			all := b.ids[m.Type]
			m.Id = all[rnd.Intn(len(all))]
		}
		return [][]byte{enc(m), out[0]}
	case "badsender":
		n := uint32(b.w.Sp.N())
		m.Sender = []uint32{n, n + 1, 0x7fffffff, 0xffffffff, 2 * n}[rnd.Intn(5)]
		if r.Arg == 1 {
			return [][]byte{enc(m), out[0]}
		}
		return [][]byte{enc(m)}
	case "junkframe":
		d := make([]byte, 1+rnd.Intn(40))
		rnd.Bytes(d)
		d[0] = 0xff // not a valid tag
		return [][]byte{d, out[0]}
	case "emptyframe":
		return [][]byte{{}, out[0]}
	case "cut": // a truncated frame, then silence or a reset
		o := out[0]
		n := len(o)
		hd := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		raw := append(hd, o...)
		b.w.S.InjectRaw(p, raw[:rnd.Intn(len(raw))])
		b.cut[p] = true
		if r.Arg == 1 {
			p.Reset()
		}
		return nil
	case "hugelen":
		hd := []byte{0xff, 0xff, 0xff, 0xff}
		if r.Arg == 1 {
			hd = []byte{0x10, 0, 0, 0}
		}
		if r.Arg == 2 {
			hd = []byte{0x80, 0, 0, 0}
		}
		b.w.S.InjectRaw(p, append(hd, out[0]...))
		b.cut[p] = true
		return nil
	case "inject": // forged messages of other types, built from what was seen
		n := 1 + rnd.Intn(r.Arg+1)
		for k := 0; k < n; k++ {
			if x := b.forge(rnd); x != nil {
				out = append(out, enc(x))
			}
		}
		return out
	case "flood": // many messages of one type and instance
		t := msgTypes[rnd.Intn(len(msgTypes))]
		if len(b.hist[t]) > 0 {
			x := proto.Clone(b.hist[t][rnd.Intn(len(b.hist[t]))]).(*protobuf.Message)
			x.Sender = uint32(b.p.Slot)
			if rnd.Intn(2) == 0 {
				b.mutate(x, rnd)
			}
			n := b.w.Sp.N()
			for k := 0; k < n*n+3+rnd.Intn(8); k++ {
				out = append(out, enc(x))
			}
		}
		return out
	case "strat":
		if b.w.Sp.Scen == "rbc" {
			if r.Arg == 7 {
				x := *r
				x.Arg = rnd.Intn(7)
				r = &x
			}
			return b.strategicRBC(r, m, dst, rnd)
		}
		if b.w.Sp.Scen == "vss" {
			return b.strategicVSS(r, m, dst, rnd, out)
		}
		if b.w.Sp.Scen == "mvba" {
			return b.strategicMVBA(r, m, dst, rnd)
		}
		if x := b.strategic(r, m, dst, rnd); x != nil {
			return x
		}
		return out
	case "mvbaearly":
		if b.w.mvba == nil {
			return out
		}
		return append(b.mvbaEarly(m, dst, rnd), out...)
	case "rbcearly":
		return append(b.rbcEarly(m, dst, rnd), out...)
	}
	return out
}

func (b *byz) forge(rnd *simrt.Rand) *protobuf.Message {
	for try := 0; try < 8; try++ {
		t := msgTypes[rnd.Intn(len(msgTypes))]
		h := b.hist[t]
		if len(h) == 0 {
			continue
		}
		x := proto.Clone(h[rnd.Intn(len(h))]).(*protobuf.Message)
		x.Sender = uint32(b.p.Slot)
		if ids := b.ids[t]; len(ids) > 0 {
			x.Id = ids[rnd.Intn(len(ids))]
		}
		for k := rnd.Intn(3); k > 0; k-- {
			b.mutate(x, rnd)
		}
		return x
	}
	return nil
}

// mutate changes one field of the message's payload.
func (b *byz) mutate(m *protobuf.Message, rnd *simrt.Rand) {
	m.Data = b.mutBytes(m.Type, m.Data, rnd)
}

func (b *byz) mutBytes(t string, data []byte, rnd *simrt.Rand) []byte {
	x := payload(t)
	if x == nil || proto.Unmarshal(data, x) != nil {
		return b.mutLeaf(data, rnd)
	}
	if t == "RBCPropose" {
		in := x.(*protobuf.Message)
		switch rnd.Intn(8) {
		case 0:
			in.Type = "NoSuchType"
		case 1:
			in.Data = nil
		case 2:
			d := make([]byte, rnd.Intn(60))
			rnd.Bytes(d)
			in.Data = d
		case 3:
			return nil
		default:
			if in.Type == "Commit" {
				in.Data = b.mutBytes("Commit", in.Data, rnd)
			} else {
				in.Data = b.mutLeaf(in.Data, rnd)
			}
		}
	} else {
		b.mutProto(x.ProtoReflect(), rnd)
	}
	d, _ := proto.Marshal(x)
	return d
}

type leaf struct {
	get func() protoreflect.Value
	set func(protoreflect.Value)
	fd  protoreflect.FieldDescriptor
	l   protoreflect.List // structural operation on a list
	val bool
}

func leaves(m protoreflect.Message, acc []leaf) []leaf {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch {
		case fd.IsList():
			l := m.Mutable(fd).List()
			acc = append(acc, leaf{fd: fd, l: l})
			for k := 0; k < l.Len(); k++ {
				k := k
				if fd.Kind() == protoreflect.MessageKind {
					acc = leaves(l.Get(k).Message(), acc)
				} else {
					acc = append(acc, leaf{get: func() protoreflect.Value { return l.Get(k) }, set: func(v protoreflect.Value) { l.Set(k, v) }, fd: fd, val: true})
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			fd := fd
			acc = append(acc, leaf{fd: fd, set: func(protoreflect.Value) { m.Clear(fd) }})
			if m.Has(fd) {
				acc = leaves(m.Mutable(fd).Message(), acc)
			}
		default:
			fd := fd
			acc = append(acc, leaf{get: func() protoreflect.Value { return m.Get(fd) }, set: func(v protoreflect.Value) { m.Set(fd, v) }, fd: fd, val: true})
		}
	}
	return acc
}

func (b *byz) mutProto(m protoreflect.Message, rnd *simrt.Rand) {
	ls := leaves(m, nil)
	if len(ls) == 0 {
		return
	}
	l := ls[rnd.Intn(len(ls))]
	switch {
	case l.l != nil:
		n := l.l.Len()
		switch rnd.Intn(5) {
		case 0:
			l.l.Truncate(0)
		case 1:
			if n > 0 {
				l.l.Truncate(n - 1)
			}
		case 2:
			if n > 0 {
				l.l.Append(l.l.Get(rnd.Intn(n)))
			}
		case 3:
			if n > 1 {
				i, j := rnd.Intn(n), rnd.Intn(n)
				x, y := l.l.Get(i), l.l.Get(j)
				if l.fd.Kind() == protoreflect.MessageKind {
					x = protoreflect.ValueOfMessage(proto.Clone(x.Message().Interface()).ProtoReflect())
					y = protoreflect.ValueOfMessage(proto.Clone(y.Message().Interface()).ProtoReflect())
				}
				l.l.Set(i, y)
				l.l.Set(j, x)
			}
		case 4:
			if n > 0 {
				l.l.Truncate(rnd.Intn(n))
			}
		}
	case !l.val:
		l.set(protoreflect.Value{})
	default:
		switch l.fd.Kind() {
		case protoreflect.BytesKind:
			l.set(protoreflect.ValueOfBytes(b.mutLeaf(l.get().Bytes(), rnd)))
		case protoreflect.Uint32Kind:
			v := uint32(l.get().Uint())
			n := uint32(b.w.Sp.N())
			l.set(protoreflect.ValueOfUint32([]uint32{0, v + 1, v - 1, n, n + 1, 0xffffffff, 1, 1 + uint32(rnd.Intn(int(n)))}[rnd.Intn(8)]))
		case protoreflect.BoolKind:
			l.set(protoreflect.ValueOfBool(!l.get().Bool()))
		case protoreflect.StringKind:
			l.set(protoreflect.ValueOfString(l.get().String() + "x"))
		}
	}
}

func (b *byz) mutLeaf(v []byte, rnd *simrt.Rand) []byte {
	v = append([]byte(nil), v...)
	switch k := rnd.Intn(10); {
	case k == 0:
		return nil
	case k == 1 && len(v) > 0:
		return v[:rnd.Intn(len(v))]
	case k == 2:
		e := make([]byte, 1+rnd.Intn(8))
		rnd.Bytes(e)
		return append(v, e...)
	case k == 3:
		rnd.Bytes(v)
		return v
	case k <= 6 && len(v) == 48:
		return append([]byte(nil), b.points[rnd.Intn(len(b.points))]...)
	case k <= 6 && len(v) == 32:
		if rnd.Intn(2) == 0 {
			return append([]byte(nil), b.scal[rnd.Intn(len(b.scal))]...)
		}
		v[0]++
		return v
	}
	if len(v) > 0 {
		v[rnd.Intn(len(v))] ^= 1 << uint(rnd.Intn(8))
	}
	return v
}

// shift adds c to a scalar field and c*G to a point.
func shiftScalar(v []byte, c int64) []byte {
	return big2le(new(big.Int).Add(le2big(v), big.NewInt(c)))
}

func shiftPoint(v []byte, c int64) []byte {
	p, err := bls.FromCompressedG1(v)
	if err != nil {
		return v
	}
	var f bls.Fr
	f = big2fr(big.NewInt(c))
	var g, r bls.G1Point
	bls.MulG1(&g, &bls.GenG1, &f)
	bls.AddG1(&r, p, &g)
	return bls.ToCompressedG1(&r)
}

// strategic misbehaviour: messages that are wrong in a way that only the
// intended check notices. Arg selects the kind.
func (b *byz) strategic(r *Rule, m *protobuf.Message, dst *Proc, rnd *simrt.Rand) [][]byte {
	N, F := b.w.Sp.N(), b.w.Sp.F
	const c = 5
	switch m.Type {
	case "ShareReduce":
		// a consistent share of another polynomial, the same for all colluders
		q := b.colPoly("sr"+strconv.Itoa(dst.Slot)+string(m.Id), F+1)
		var x protobuf.ShareReduce
		x.C, x.V, x.W = b.open(q, int64(b.p.Slot+1))
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	case "Prepare":
		var x protobuf.Prepare
		proto.Unmarshal(m.Data, &x)
		for i := 1; i < len(x.Commitments); i++ {
			if r.Arg&1 == 0 || i == 1 {
				x.Commitments[i] = shiftPoint(x.Commitments[i], c)
			}
		}
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	case "RBCPropose":
		var in protobuf.Message
		if proto.Unmarshal(m.Data, &in) != nil {
			return nil
		}
		switch in.Type {
		case "Commit":
			var x protobuf.Commit
			if proto.Unmarshal(in.Data, &x) != nil {
				return nil
			}
			at := int(b.f.Seed) % (2*F + 1)
			for i, pc := range x.Pi {
				switch r.Arg {
				case 3: // inconsistent in one place only
					if i != 0 {
						continue
					}
				case 6:
					if i != len(x.Pi)-1 {
						continue
					}
				case 5, 7:
					if i != at {
						continue
					}
				}
				pc.CBj = shiftPoint(pc.CBj, c)
				switch r.Arg {
				case 0, 4, 5: // a consistent sharing of c instead of 0
					pc.GFj = shiftPoint(pc.GFj, c)
				case 1: // Z(0) is not 0
					pc.CZj = shiftPoint(pc.CZj, c)
				}
			}
			in.Data, _ = proto.Marshal(&x)
		default:
			in.Data = shiftPoint(in.Data, c)
		}
		m.Data, _ = proto.Marshal(&in)
		return [][]byte{enc(m)}
	case "Reshare":
		var x protobuf.Reshare
		if proto.Unmarshal(m.Data, &x) != nil {
			return nil
		}
		// the positions are those of the inconsistent commitments above
		at := int(b.f.Seed) % (2*F + 1)
		for i := range x.Qk {
			wrong := true
			switch r.Arg {
			case 2:
				wrong = i < F
			case 3:
				wrong = i == 0
			case 4:
				wrong = i == dst.Slot
			case 5, 7:
				wrong = i == at
			case 6:
				wrong = i == len(x.Qk)-1
			}
			if wrong {
				x.Qk[i] = shiftScalar(x.Qk[i], c)
			}
		}
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	case "Recover":
		var x protobuf.Recover
		if proto.Unmarshal(m.Data, &x) != nil {
			return nil
		}
		switch r.Arg % 3 {
		case 0:
			x.V = shiftScalar(x.V, c)
		case 1:
			x.Index = uint32(1 + rnd.Intn(N))
		case 2:
			sig, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(b.p.P.SigSK, []byte("other"))
			x.SigShare = sig
		}
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	case "ShareDist":
		var x protobuf.ShareDist
		if proto.Unmarshal(m.Data, &x) != nil {
			return nil
		}
		x.B = shiftScalar(x.B, c)
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	case "Value":
		var x protobuf.Value
		if proto.Unmarshal(m.Data, &x) != nil {
			return nil
		}
		x.Value = b.otherValue(x.Value, r.Arg, rnd)
		m.Data, _ = proto.Marshal(&x)
		if b.w.Sp.Scen == "epoch" && r.Dst == 0 && r.P == 0 {
			if b.evil == nil {
				b.evil = map[string][]byte{}
				b.shares = map[string]map[int][]byte{}
			}
			if b.evil[string(m.Id)] == nil {
				b.evil[string(m.Id)] = x.Value
			}
		}
		return [][]byte{enc(m)}
	case "PreVote":
		// a No with the own share, whatever is known
		var x protobuf.PreVote
		proto.Unmarshal(m.Data, &x)
		id := m.Id
		sm := append([]byte{0}, id...)
		sig, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(b.p.P.SigSK, sm)
		x = protobuf.PreVote{Vote: false, Sig: sig}
		m.Data, _ = proto.Marshal(&x)
		return [][]byte{enc(m)}
	}
	return nil
}

// otherValue is a proposal different from v; for the contributor sets of a
// handoff it is one that must not be accepted.
func (b *byz) otherValue(v []byte, arg int, rnd *simrt.Rand) []byte {
	if b.w.Sp.Scen != "epoch" {
		return append([]byte("evil-"), v...)
	}
	var x protobuf.MVBAIN
	if proto.Unmarshal(v, &x) != nil || len(x.J) == 0 || len(x.Sig) != len(x.J) || len(x.Sig[0]) == 0 {
		return append([]byte("evil-"), v...)
	}
	n := uint32(b.w.Sp.N())
	last := len(x.J) - 1
	at := int(b.f.Seed) % len(x.J)
	if at >= len(x.Sig) {
		at = 0
	}
	switch arg % 8 {
	case 0: // one member twice
		o := (at + 1) % len(x.Sig)
		x.J[at], x.Sig[at] = x.J[o], x.Sig[o]
	case 1: // nobody
		x.J[at] = n + 1
	case 2: // member 0 does not exist
		x.J[at] = 0
	case 3: // too few
		x.J, x.Sig = x.J[:last], x.Sig[:last]
	case 4: // somebody else, without a signature for it
		x.J[at] = x.J[at]%n + 1
	case 5:
		x.Sig[at] = append([]byte(nil), x.Sig[at]...)
		x.Sig[at][rnd.Intn(len(x.Sig[at]))] ^= 1
	case 6:
		x.Sig = x.Sig[:last]
	case 7:
		x.J, x.Sig = nil, nil
	}
	d, _ := proto.Marshal(&x)
	return d
}

// colPoly is a polynomial all colluders know.
func (b *byz) colPoly(label string, n int) []bls.Fr {
	r := simrt.NewRand(b.w.Sp.Crypto ^ simrt.HashStr(label))
	q := make([]bls.Fr, n)
	for i := range q {
		var x [32]byte
		r.Bytes(x[:])
		x[31] &= 0x3f
		q[i] = big2fr(le2big(x[:]))
	}
	return q
}

// open commits to q and opens it at x.
func (b *byz) open(q []bls.Fr, x int64) (C, V, W []byte) {
	k := b.p.P.KZG
	cm := k.CommitToPoly(q)
	v := big2fr(toPoly(q).at(x))
	w := k.ComputeProofSingle(q, big2fr(big.NewInt(x)))
	vb := bls.FrTo32(&v)
	return bls.ToCompressedG1(cm), vb[:], bls.ToCompressedG1(w)
}
