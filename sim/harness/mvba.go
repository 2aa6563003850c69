package main

import (
	"bytes"
	"errors"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/internal/party"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	sbls "github.com/drand/kyber/sign/bls"
	"github.com/drand/kyber/sign/tbls"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"
	"verif.local/simrt"
)

// Byzantine agreement: one or two concurrent instances in one committee.

type mshare struct {
	slot int
	sig  string
}

// minst is one agreement instance.
type minst struct {
	id     string
	in     map[*Proc][]byte // inputs
	out    map[*Proc][]byte
	values map[string]bool           // every value on the wire or put in
	byzVal map[string]bool           // values in proposals of faulty members
	vals   map[string][]string       // values in proposals by proposer and round
	echo   map[string]map[int]string // PB instance -> honest member -> its share
	finish map[string]map[*Proc]map[int]bool
	dones  map[string]map[*Proc]map[int]bool
	coin   map[string]map[int]bool // round -> members whose valid coin share was sent to somebody
	lead   map[string]map[*Proc]int
}

type mvbaRun struct {
	w      *World
	c      *Com
	inst   []*minst
	know   map[string]map[int][]byte // message -> signature shares colluders have
	said   map[string][]byte         // names of what colluders may want signed -> message
	sent   map[string]bool
	plan   map[string]int
	poster []*byz
}

// signatures of the committee, computed from its secret
var sigMemo = map[string][]byte{}

func (c *Com) label() string { return sprint("%p", c.PK) }

var suite = kyberbls.NewBLS12381Suite()

func (c *Com) share(slot int, msg []byte) []byte {
	k := sprint("%s/%d/%s", c.label(), slot, msg)
	if s := sigMemo[k]; s != nil {
		return s
	}
	s, _ := tbls.NewThresholdSchemeOnG1(suite).Sign(c.SK[slot], msg)
	sigMemo[k] = s
	return s
}

// group is the signature 2F+1 members produce.
func (c *Com) group(msg []byte) []byte {
	k := c.label() + "/g/" + string(msg)
	if s := sigMemo[k]; s != nil {
		return s
	}
	if len(sigMemo) > 20000 {
		sigMemo = map[string][]byte{}
	}
	x, err := share.RecoverSecret(suite.G1(), c.SK, 2*c.F+1, c.N)
	if err != nil {
		fail("no secret: %v", err)
	}
	s, _ := sbls.NewSchemeOnG1(suite).Sign(x, msg)
	sigMemo[k] = s
	return s
}

func cat(parts ...[]byte) []byte { return bytes.Join(parts, nil) }

func u32(x int) []byte { return utils.Uint32ToBytes(uint32(x)) }

func echoMsg(pb []byte, value []byte) []byte {
	h := sha3.Sum512(value)
	return cat([]byte("Echo"), pb, h[:])
}

func (r *mvbaRun) of(id []byte) *minst {
	for _, x := range r.inst {
		if strings.HasPrefix(string(id), x.id) {
			return x
		}
	}
	return nil
}

// leader of round IDr as the committee's coin gives it.
func (r *mvbaRun) leader(IDr []byte) int {
	g := r.c.group(cat([]byte("Done"), IDr))
	return int(utils.BytesToUint32(g) % uint32(r.c.N))
}

func okValue(v []byte) error {
	if !bytes.HasPrefix(v, []byte("ok")) {
		return errors.New("not a valid value")
	}
	return nil
}

func runMVBA(sp *Spec) *Result {
	w := newWorld(sp)
	c := w.addCom(0)
	w.makeParties(c, nil)
	r := &mvbaRun{w: w, c: c, know: map[string]map[int][]byte{}, said: map[string][]byte{}, sent: map[string]bool{}, plan: map[string]int{}}
	w.mvba = r
	w.markFaulty()
	rnd := simrt.NewRand(sp.Seed ^ 0xa64ee)
	var ids []string
	for i := 0; i < 8*(1+3*sp.opt("byzlead2")); i++ {
		ids = append(ids, sprint("MVBA_%02d", i))
	}
	n := sp.opt("inst")
	if n < 1 {
		n = 1
	}
	pred := sp.opt("nopred") == 0
	for i := 0; i < n; i++ {
		x := &minst{in: map[*Proc][]byte{}, out: map[*Proc][]byte{}, values: map[string]bool{}, vals: map[string][]string{}, byzVal: map[string]bool{}, echo: map[string]map[int]string{},
			finish: map[string]map[*Proc]map[int]bool{}, dones: map[string]map[*Proc]map[int]bool{}, coin: map[string]map[int]bool{}, lead: map[string]map[*Proc]int{}}
		k := rnd.Intn(len(ids))
		if sp.opt("byzlead") > 0 {
			// an instance whose first leader is faulty
			for j := range ids {
				q := (k + j) % len(ids)
				if c.slot[r.leader(cat([]byte(ids[q]), u32(0)))][0].N.Faulty &&
					(sp.opt("byzlead2") == 0 || c.slot[r.leader(cat([]byte(ids[q]), u32(1)))][0].N.Faulty) {
					k = q
					break
				}
			}
		}
		x.id = ids[k]
		ids = append(ids[:k:k], ids[k+1:]...)
		for _, p := range c.All {
			v := sprint("ok-%d", p.Slot)
			if sp.opt("same") > 0 {
				v = "ok"
			}
			if p.twin != nil && len(c.slot[p.Slot]) > 1 && c.slot[p.Slot][1] == p {
				v += "b"
			}
			if rnd.Chance(0.1) && sp.opt("same") == 0 {
				v = "ok-" + strings.Repeat(v, 60)
			}
			x.in[p] = []byte(v)
			x.values[v] = true
		}
		for s := 0; s < c.N; s++ {
			x.values[sprint("ok-evil-%d", s)] = true
		}
		r.inst = append(r.inst, x)
	}
	w.sendTap = append(w.sendTap, r.onSend)
	w.recvTap = append(w.recvTap, r.onRecv)
	if !w.connect() {
		w.viol("C09", "connect", "not all members could open their connections: %s", w.stuckInfo(w.procs()))
		w.judgeExits("C09")
		return w.finish()
	}
	span := sp.opt("span")
	for _, p := range c.All {
		if p.N.Dead {
			continue
		}
		p := p
		for _, x := range r.inst {
			x := x
			d := 0
			if rnd.Chance(0.4) {
				d = rnd.Intn(span + 1)
			}
			w.delay(p, d, "mvba", func() {
				var o []byte
				if pred {
					o = party.MainProcess(p.P, []byte(x.id), x.in[p], nil, okValue)
				} else {
					o = party.MainProcess(p.P, []byte(x.id), x.in[p], nil)
				}
				x.out[p] = append([]byte{}, o...)
				trace("%d %s outputs %q", w.S.Step, p.Name, o)
			})
		}
	}
	goal := func() bool {
		for _, x := range r.inst {
			for _, p := range c.All {
				if p.honest() && x.out[p] == nil {
					return p.N.Dead
				}
			}
		}
		return true
	}
	ok := w.run(goal, sp.Max)
	w.R.Done = ok
	if ok {
		w.settle(600 * sp.N())
	}
	dead := w.judgeExits("C09", "C12")
	for _, x := range r.inst {
		var first *Proc
		var missing []string
		for _, p := range c.All {
			if !p.honest() {
				continue
			}
			o := x.out[p]
			if o == nil {
				if !p.N.Dead {
					missing = append(missing, p.Name)
				}
				continue
			}
			if first == nil {
				first = p
			} else if !bytes.Equal(x.out[first], o) {
				w.viol("C08", "disagree", "instance %s: %s outputs %q but %s outputs %q", x.id, first.Name, short(string(x.out[first]), 40), p.Name, short(string(o), 40))
			}
			prop := x.byzVal[string(o)]
			for q, v := range x.in {
				if q.honest() && bytes.Equal(v, o) {
					prop = true
				}
			}
			if !prop {
				w.viol("C10", "not-proposed", "instance %s: %s outputs %q, which nobody proposed", x.id, p.Name, short(string(o), 60))
			}
			if pred && okValue(o) != nil {
				w.viol("C10", "invalid", "instance %s: %s outputs %q, which does not satisfy the validity predicate", x.id, p.Name, short(string(o), 60))
			}
		}
		if len(missing) > 0 && !dead {
			w.viol("C09", "stuck", "instance %s: %v never output: %s", x.id, missing, w.blocked(missing))
		}
		rounds := map[string]bool{}
		for k := range x.coin {
			rounds[k] = true
		}
		if len(rounds) > 1 {
			w.S.Count["second-round"]++
		}
		if len(rounds) > 2 {
			w.S.Count["third-round"]++
		}
	}
	return w.finish()
}

// pbOf splits a provable-broadcast id.
func (x *minst) pbOf(id []byte) (IDr []byte, j, phase int, ok bool) {
	n := len(x.id)
	if len(id) != n+9 {
		return nil, 0, 0, false
	}
	return id[:n+4], int(utils.BytesToUint32(id[n+4 : n+8])), int(id[n+8]), true
}

// cand are the values that may be signed in a provable broadcast.
func (x *minst) cand(pb []byte) []string {
	if len(pb) == 0 {
		return nil
	}
	return x.vals[string(pb[:len(pb)-1])]
}

// holders counts the honest members that signed value in the instance.
func (r *mvbaRun) holders(x *minst, pb, value []byte) int {
	n := 0
	for slot, s := range x.echo[string(pb)] {
		if s == string(r.c.share(slot, echoMsg(pb, value))) {
			n++
		}
	}
	return n
}

// released records that honest p signed something in a provable-broadcast instance.
func (r *mvbaRun) released(x *minst, p *Proc, pb []byte, sig string, how string) {
	m := x.echo[string(pb)]
	if m == nil {
		m = map[int]string{}
		x.echo[string(pb)] = m
	}
	if o, had := m[p.Slot]; had {
		if o != sig {
			r.w.viol("C11", "two-shares", "%s signs two values in broadcast %q phase %d (the second one in its %s)", p.Name, pb[:len(pb)-1], pb[len(pb)-1], how)
		}
		return
	}
	var value []byte
	found := false
	for _, v := range x.cand(pb) {
		if sig == string(r.c.share(p.Slot, echoMsg(pb, []byte(v)))) {
			value, found = []byte(v), true
			break
		}
	}
	m[p.Slot] = sig
	if !found {
		r.w.viol("C11", "unknown-share", "%s sends a share in its %s for broadcast %q phase %d that signs none of the values on the wire", p.Name, how, pb[:len(pb)-1], pb[len(pb)-1])
		return
	}
	if pb[len(pb)-1] == 2 {
		pb1 := append(append([]byte(nil), pb[:len(pb)-1]...), 1)
		if n := r.holders(x, pb1, value); n+r.faulty() < 2*r.c.F+1 {
			r.w.viol("C11", "phase2", "%s signs %q in the second phase of %q (in its %s) although only %d honest members signed it in the first", p.Name, short(string(value), 30), pb[:len(pb)-1], how, n)
		}
	}
}

// bothWays notes that honest p gave a share towards the leader's value being
// decided in the round ("yes": its second broadcast, or a yes vote) or towards
// leaving the round without it ("no"). With F members that do both, and F
// misbehaving ones, the two ways are open at once.
func (r *mvbaRun) bothWays(x *minst, p *Proc, IDr []byte, how string) {
	k := sprint("%s/%s/", p.Name, IDr)
	r.sent[k+how] = true
	if r.sent[k+"yes"] && r.sent[k+"no"] {
		r.w.viol("C08", "both-ways", "%s signs both for deciding the leader's value and for leaving round %q without it (%s last)", p.Name, IDr, how)
	}
}

// justified checks that the value honest p endorses in a later round can have a
// justification: the leader's proof of an earlier round for that value, or
// unlock proofs of all of them, and unlock proofs of the rounds since.
func (r *mvbaRun) justified(x *minst, p *Proc, IDr, pb []byte) {
	var value []byte
	found := false
	for _, v := range x.cand(pb) {
		if x.echo[string(pb)][p.Slot] == string(r.c.share(p.Slot, echoMsg(pb, []byte(v)))) {
			value, found = []byte(v), true
			break
		}
	}
	if !found {
		return // reported as such
	}
	id := IDr[:len(IDr)-4]
	for s := int(utils.BytesToUint32(IDr[len(IDr)-4:])) - 1; s >= 0; s-- {
		IDs := cat(id, u32(s))
		if r.holders(x, cat(IDs, u32(r.leader(IDs)), []byte{1}), value)+r.faulty() >= 2*r.c.F+1 {
			r.w.S.Count["echo-justified-lock"]++
			return
		}
		n := r.faulty()
		for _, q := range r.c.All {
			if q.honest() && r.sent[sprint("%s/%s/no", q.Name, IDs)] {
				n++
			}
		}
		if n < 2*r.c.F+1 {
			r.w.viol("C08", "unjustified", "%s endorses %q in round %q although no leader of an earlier round had 2F+1 signatures on it and only %d members left round %d", p.Name, short(string(value), 30), IDr, n, s)
			return
		}
	}
	r.w.S.Count["echo-justified-unlock"]++
}

func (r *mvbaRun) faulty() int {
	n := 0
	for _, s := range r.c.slot {
		if s[0].N.Faulty {
			n++
		}
	}
	return n
}

func (r *mvbaRun) cert(x *minst, p *Proc, sig []byte, what string, msgs ...[]byte) bool {
	for _, m := range msgs {
		if bytes.Equal(sig, r.c.group(m)) {
			return true
		}
	}
	r.w.viol("C11", "bad-certificate", "honest %s sends a %s in instance %s whose certificate 2F+1 members did not sign (%d bytes)", p.Name, what, x.id, len(sig))
	return false
}

// leads notes which leader an honest member acts on.
func (r *mvbaRun) leads(x *minst, p *Proc, IDr []byte, what string, l int) {
	if len(x.coin[string(IDr)]) < r.c.F+1 {
		r.w.viol("C12", "early-leader", "%s sends %s in %q although only %d members have released a coin share", p.Name, what, IDr, len(x.coin[string(IDr)]))
	}
	if l < 0 {
		return
	}
	m := x.lead[string(IDr)]
	if m == nil {
		m = map[*Proc]int{}
		x.lead[string(IDr)] = m
	}
	m[p] = l
	for q, k := range m {
		if k != l {
			r.w.viol("C12", "leaders-differ", "round %q: %s acts on leader %d, %s on %d", IDr, p.Name, l, q.Name, k)
		}
	}
}

// certified finds the proposer whose certificate sig is.
func (r *mvbaRun) certified(x *minst, p *Proc, IDr, value, sig []byte, phase int, what string) int {
	l := r.leader(IDr)
	for k := 0; k < r.c.N; k++ {
		j := (l + k) % r.c.N
		if bytes.Equal(sig, r.c.group(echoMsg(cat(IDr, u32(j), []byte{byte(phase)}), value))) {
			return j
		}
	}
	r.cert(x, p, sig, what)
	return -1
}

func (r *mvbaRun) onSend(src, dst *Proc, m *protobuf.Message) {
	x := r.of(m.Id)
	if x == nil {
		return
	}
	if m.Type == "Done" {
		var d protobuf.Done
		if proto.Unmarshal(m.Data, &d) == nil && bytes.Equal(d.CoinShare, r.c.share(src.Slot, cat([]byte("Done"), m.Id))) {
			if x.coin[string(m.Id)] == nil {
				x.coin[string(m.Id)] = map[int]bool{}
			}
			x.coin[string(m.Id)][src.Slot] = true
		}
	}
	if m.Type == "Value" {
		var v protobuf.Value
		proto.Unmarshal(m.Data, &v) // like the receivers, with what can be decoded
		{
			x.values[string(v.Value)] = true
			if len(m.Id) > 0 {
				k := string(m.Id[:len(m.Id)-1])
				had := false
				for _, o := range x.vals[k] {
					had = had || o == string(v.Value)
				}
				if !had {
					x.vals[k] = append(x.vals[k], string(v.Value))
				}
			}
			if !src.honest() {
				x.byzVal[string(v.Value)] = true
			}
		}
	}
	if !src.honest() {
		return
	}
	switch m.Type {
	case "Value":
		var v protobuf.Value
		proto.Unmarshal(m.Data, &v)
		IDr, j, ph, ok := x.pbOf(m.Id)
		if !ok {
			return
		}
		if ph == 1 && IDr[len(IDr)-1] > 0 {
			for q := range x.out {
				if q.honest() && q != src {
					r.w.S.Count["proposal-after-decision"]++
				}
			}
		}
		if ph == 2 {
			r.cert(x, src, v.Validation, "second-phase proposal", echoMsg(cat(IDr, u32(j), []byte{1}), v.Value))
		}
	case "Echo":
		var e protobuf.Echo
		proto.Unmarshal(m.Data, &e)
		if IDr, j, ph, ok := x.pbOf(m.Id); ok {
			r.released(x, src, m.Id, string(e.Sigshare), "echo")
			if ph == 1 && IDr[len(IDr)-1] > 0 {
				r.justified(x, src, IDr, m.Id)
			}
			if ph == 2 && j == r.leader(IDr) {
				r.bothWays(x, src, IDr, "yes")
			}
		}
	case "Finish":
		var f protobuf.Finish
		proto.Unmarshal(m.Data, &f)
		r.cert(x, src, f.Sig, "finish", echoMsg(cat(m.Id, u32(src.Slot), []byte{2}), f.Value))
	case "Done":
		if f, d := len(x.finish[string(m.Id)][src]), len(x.dones[string(m.Id)][src]); f < 2*r.c.F+1 && d < r.c.F+1 {
			r.w.viol("C12", "early-share", "%s releases its coin share of %q after %d finished broadcasts and %d coin shares", src.Name, m.Id, f, d)
		}
	case "PreVote":
		var v protobuf.PreVote
		proto.Unmarshal(m.Data, &v)
		l := -1
		if v.Vote {
			l = r.certified(x, src, m.Id, v.Value, v.Sig, 1, "pre-vote")
			r.sent["yes"+src.Name+string(m.Id)] = true
		}
		r.leads(x, src, m.Id, "a pre-vote", l)
	case "Vote":
		var v protobuf.Vote
		proto.Unmarshal(m.Data, &v)
		l := -1
		if v.Vote {
			l = r.certified(x, src, m.Id, v.Value, v.Sig, 1, "vote")
			if l >= 0 {
				r.released(x, src, cat(m.Id, u32(l), []byte{2}), string(v.Sigshare), "vote")
				r.bothWays(x, src, m.Id, "yes")
			}
		} else {
			r.cert(x, src, v.Sig, "vote", cat([]byte{0}, m.Id))
			r.bothWays(x, src, m.Id, "no")
			if r.sent["yes"+src.Name+string(m.Id)] {
				r.w.S.Count["no-vote-after-yes"]++
			}
		}
		r.leads(x, src, m.Id, "a vote", l)
	case "Halt":
		var h protobuf.Halt
		proto.Unmarshal(m.Data, &h)
		l := r.certified(x, src, m.Id, h.Value, h.Sig, 2, "halt")
		r.leads(x, src, m.Id, "a halt", l)
	}
}

func (r *mvbaRun) onRecv(src, dst *Proc, m *protobuf.Message) {
	x := r.of(m.Id)
	if x == nil {
		return
	}
	if !dst.honest() {
		r.collect(x, src, m)
		return
	}
	var to map[string]map[*Proc]map[int]bool
	switch m.Type {
	case "Finish":
		var f protobuf.Finish
		if proto.Unmarshal(m.Data, &f) != nil || !bytes.Equal(f.Sig, r.c.group(echoMsg(cat(m.Id, u32(src.Slot), []byte{2}), f.Value))) {
			return
		}
		to = x.finish
	case "Done":
		var d protobuf.Done
		if proto.Unmarshal(m.Data, &d) != nil || !bytes.Equal(d.CoinShare, r.c.share(src.Slot, cat([]byte("Done"), m.Id))) {
			return
		}
		to = x.dones
	default:
		return
	}
	if to[string(m.Id)] == nil {
		to[string(m.Id)] = map[*Proc]map[int]bool{}
	}
	t := to[string(m.Id)]
	if t[dst] == nil {
		t[dst] = map[int]bool{}
	}
	t[dst][src.Slot] = true
}

// ---- the adversary ----

// collect gathers the signature shares colluders receive.
func (r *mvbaRun) collect(x *minst, src *Proc, m *protobuf.Message) {
	note := func(msg, sig []byte) {
		k := string(msg)
		if r.know[k] == nil {
			r.know[k] = map[int][]byte{}
		}
		if bytes.Equal(sig, r.c.share(src.Slot, msg)) {
			r.know[k][src.Slot] = sig
		}
	}
	switch m.Type {
	case "Echo":
		var e protobuf.Echo
		if proto.Unmarshal(m.Data, &e) != nil {
			return
		}
		for _, v := range x.cand(m.Id) {
			if bytes.Equal(e.Sigshare, r.c.share(src.Slot, echoMsg(m.Id, []byte(v)))) {
				note(echoMsg(m.Id, []byte(v)), e.Sigshare)
				break
			}
		}
	case "PreVote":
		var v protobuf.PreVote
		if proto.Unmarshal(m.Data, &v) == nil && !v.Vote {
			note(cat([]byte{0}, m.Id), v.Sig)
		}
	case "Vote":
		var v protobuf.Vote
		if proto.Unmarshal(m.Data, &v) != nil {
			return
		}
		if v.Vote {
			note(echoMsg(cat(m.Id, u32(r.leader(m.Id)), []byte{2}), v.Value), v.Sigshare)
		} else {
			note(cat([]byte("Unlock"), m.Id), v.Sigshare)
		}
	}
	for _, b := range r.poster {
		b.mvbaAct(x, m.Id)
	}
}

// can is the certificate on msg if the colluders can make it.
func (r *mvbaRun) can(msg []byte) []byte {
	n := r.faulty()
	for slot := range r.know[string(msg)] {
		if !r.c.slot[slot][0].N.Faulty {
			n++
		}
	}
	if n >= 2*r.c.F+1 {
		return r.c.group(msg)
	}
	return nil
}

// post sends a forged message to the members in mask after some steps.
func (b *byz) post(x *minst, typ string, id []byte, pl proto.Message, mask uint64, key string) {
	r := b.w.mvba
	key = sprint("%s/%d/%s", b.p.Name, b.half, key)
	if r.sent[key] {
		return
	}
	r.sent[key] = true
	d, _ := proto.Marshal(pl)
	f := enc(&protobuf.Message{Type: typ, Sender: uint32(b.p.Slot), Id: id, Data: d})
	b.w.S.Count["byz-forged-"+typ]++
	lag := 0
	if b.f.Seed%3 == 0 {
		lag = int(simrt.Mix(b.f.Seed^simrt.HashStr(key)) % uint64(b.w.Sp.opt("span")+1))
	}
	b.w.S.At(b.w.S.Step+1+lag, func() {
		if b.p.N.Dead {
			return
		}
		for _, q := range r.c.All {
			if mask>>uint(q.Slot)&1 == 1 && !q.N.Faulty {
				for _, p := range b.w.S.Pipes(b.p.N, q.N) {
					b.w.S.Inject(p, f)
				}
			}
		}
	})
}

// mvbaAct uses what the colluders know in the round or instance id belongs to.
func (b *byz) mvbaAct(x *minst, id []byte) {
	r := b.w.mvba
	if len(id) < len(x.id)+4 || b.p.N.Dead {
		return
	}
	IDr := id[:len(x.id)+4]
	all := uint64(1)<<uint(r.c.N) - 1
	mask := simrt.Mix(b.f.Seed) & all
	if mask == 0 || mask == all {
		mask = 1 << uint(b.f.Seed%uint64(r.c.N))
	}
	div := b.f.Mode == 3
	if div {
		mask = b.f.Mask >> 16 & all
	}
	lead := r.leader(IDr)
	for j := 0; j < r.c.N; j++ {
		if !r.c.slot[j][0].N.Faulty && j != lead && !(div && b.weak() == 2) {
			continue
		}
		for _, v := range x.vals[string(cat(IDr, u32(j)))] {
			val := []byte(v)
			pb := cat(IDr, u32(j))
			c1 := r.can(echoMsg(append(append([]byte(nil), pb...), 1), val))
			c2 := r.can(echoMsg(append(append([]byte(nil), pb...), 2), val))
			if div && b.weak() != 0 {
				if IDr[len(IDr)-1] != 0 {
					continue
				}
				switch {
				case b.weak() == 1 && j == lead && c1 != nil:
					b.post(x, "Halt", IDr, &protobuf.Halt{Value: val, Sig: c1}, mask, "halt"+string(IDr))
				case b.weak() == 2 && j != lead && c2 != nil:
					b.post(x, "Halt", IDr, &protobuf.Halt{Value: val, Sig: c2}, mask, "halt"+string(IDr))
				case b.weak() == 3 && j == lead && c1 != nil:
					// a Yes that nobody who saw the second phase gave
					b.post(x, "Vote", IDr, &protobuf.Vote{Vote: true, Value: val, Sig: r.c.share(b.p.Slot, echoMsg(append(append([]byte(nil), pb...), 1), val)), Sigshare: r.c.share(b.p.Slot, echoMsg(append(append([]byte(nil), pb...), 2), val))}, mask, "yes"+string(pb)+v)
				}
				continue
			}
			if div {
				if c1 != nil && j == lead {
					b.post(x, "Vote", IDr, &protobuf.Vote{Vote: true, Value: val, Sig: c1, Sigshare: r.c.share(b.p.Slot, echoMsg(append(append([]byte(nil), pb...), 2), val))}, mask, "yes"+string(pb)+v)
				}
				if c2 != nil && j == lead {
					b.post(x, "Halt", IDr, &protobuf.Halt{Value: val, Sig: c2}, mask, "halt"+string(pb)+v)
				}
				continue
			}
			if c1 != nil && j == lead && b.f.Seed>>10&7 == 0 {
				b.post(x, "Halt", IDr, &protobuf.Halt{Value: val, Sig: c1}, mask, "halt"+string(pb)+v)
			}
			if c2 != nil && j == b.p.Slot && b.f.Seed>>13&3 == 0 {
				b.post(x, "Halt", IDr, &protobuf.Halt{Value: val, Sig: c2}, mask, "halt"+string(pb)+v)
			}
			if j == b.p.Slot && c1 != nil {
				if ss := x.in[b.p]; !bytes.Equal(ss, val) {
					// a certificate for something else than the program proposed
					b.post(x, "Value", append(append([]byte(nil), pb...), 2), &protobuf.Value{Value: val, Validation: c1}, [2]uint64{mask, all}[b.f.Seed>>3&1], "v2"+string(pb)+v)
				}
			}
			if c2 != nil && j == b.p.Slot && b.f.Seed>>4&1 == 1 {
				b.post(x, "Finish", IDr, &protobuf.Finish{Value: val, Sig: c2}, [2]uint64{mask, all}[b.f.Seed>>5&1], "fin"+string(pb)+v)
			}
			if c2 != nil && j == lead && b.f.Seed>>6&3 != 0 {
				b.post(x, "Halt", IDr, &protobuf.Halt{Value: val, Sig: c2}, mask, "halt"+string(pb)+v)
			}
		}
	}
	no := cat([]byte{0}, IDr)
	if c := r.can(no); c != nil && (div || b.f.Seed>>8&1 == 1) {
		sm := cat([]byte("Unlock"), IDr)
		if div {
			b.post(x, "Vote", IDr, &protobuf.Vote{Sig: c, Sigshare: r.c.share(b.p.Slot, sm)}, ^mask&all, "no"+string(IDr))
			return
		}
		b.post(x, "Vote", IDr, &protobuf.Vote{Sig: c, Sigshare: r.c.share(b.p.Slot, sm)}, [2]uint64{^mask & all, all}[b.f.Seed>>9&1], "no"+string(IDr))
	}
}

// strategicMVBA misbehaves in the agreement.
func (b *byz) strategicMVBA(rl *Rule, m *protobuf.Message, dst *Proc, rnd *simrt.Rand) [][]byte {
	r := b.w.mvba
	frame := enc(m)
	x := r.of(m.Id)
	if x == nil {
		return [][]byte{frame}
	}
	out := func(pl proto.Message) []byte {
		m.Data, _ = proto.Marshal(pl)
		return enc(m)
	}
	if b.f.Mode == 3 {
		return b.divide(x, m, frame, dst)
	}
	inMask := simrt.Mix(b.f.Seed)>>uint(dst.Slot)&1 == 1
	alt := []byte(sprint("ok-evil-%d", b.p.Slot))
	mine := func(msg []byte) []byte { return r.c.share(b.p.Slot, msg) }
	a := rl.Arg
	switch m.Type {
	case "Value":
		var v protobuf.Value
		proto.Unmarshal(m.Data, &v)
		IDr, _, ph, ok := x.pbOf(m.Id)
		if !ok {
			break
		}
		if ph == 1 {
			switch a % 8 {
			case 0, 1: // two values
				if inMask {
					v.Value = alt
				}
				return [][]byte{out(&v)}
			case 2: // both to everybody
				w := protobuf.Value{Value: alt, Validation: v.Validation}
				return [][]byte{frame, out(&w)}
			case 3:
				v.Value = append([]byte("evil-"), v.Value...)
				return [][]byte{out(&v)}
			case 4:
				v.Value = alt
				return [][]byte{out(&v)}
			case 5:
				if IDr[len(IDr)-1] > 0 { // unjustified in a later round
					v.Value = alt
					if rnd.Intn(2) == 0 {
						v.Validation = nil
					}
					return [][]byte{out(&v)}
				}
			}
			break
		}
		switch a % 8 {
		case 0, 1, 5, 7: // few members get to know the certificate
			if inMask {
				return [][]byte{frame}
			}
			return nil
		case 2:
			v.Value = alt
			return [][]byte{out(&v)}
		case 3, 4: // signatures on something else
			id := append(append([]byte(nil), m.Id[:len(m.Id)-1]...), byte(1+rnd.Intn(2)))
			if c := r.can(echoMsg(id, v.Value)); c != nil && id[len(id)-1] == 2 {
				v.Validation = c
			} else {
				v.Validation = mine(echoMsg(id, v.Value))
			}
			return [][]byte{out(&v), frame}
		}
	case "Echo":
		IDr, j, ph, ok := x.pbOf(m.Id)
		if !ok {
			break
		}
		switch a % 8 {
		case 0: // a share on something else
			return [][]byte{out(&protobuf.Echo{Sigshare: mine(echoMsg(cat(IDr, u32(j), []byte{byte(3 - ph)}), alt))})}
		case 1: // the share of another index
			var e protobuf.Echo
			proto.Unmarshal(m.Data, &e)
			if len(e.Sigshare) > 2 {
				e.Sigshare = append([]byte(nil), e.Sigshare...)
				e.Sigshare[1] = byte((b.p.Slot + 1) % r.c.N)
			}
			return [][]byte{out(&e)}
		case 2, 5:
			return [][]byte{frame, frame, frame}
		case 3:
			return nil
		}
	case "Finish":
		var f protobuf.Finish
		proto.Unmarshal(m.Data, &f)
		switch a % 8 {
		case 0, 1, 7:
			if inMask {
				return [][]byte{frame}
			}
			return nil
		case 2:
			return [][]byte{frame, frame, frame, frame}
		case 3: // the finish of somebody else
			for _, h := range b.hist["Finish"] {
				if bytes.Equal(h.Id, m.Id) && h.Sender != m.Sender {
					m.Data = h.Data
					return [][]byte{enc(m)}
				}
			}
		case 4:
			f.Value = alt
			return [][]byte{out(&f)}
		}
	case "Done":
		switch a % 8 {
		case 0, 1:
			if !inMask {
				return nil
			}
		case 2:
			return [][]byte{frame, frame, frame}
		case 3:
			return [][]byte{out(&protobuf.Done{CoinShare: mine(cat([]byte("Done"), m.Id, []byte("x")))})}
		case 4:
			s := append([]byte(nil), mine(cat([]byte("Done"), m.Id))...)
			s[1] = byte((b.p.Slot + 1) % r.c.N)
			return [][]byte{out(&protobuf.Done{CoinShare: s})}
		}
	case "PreVote":
		var v protobuf.PreVote
		proto.Unmarshal(m.Data, &v)
		no := &protobuf.PreVote{Sig: mine(cat([]byte{0}, m.Id))}
		switch a % 8 {
		case 0, 1, 5:
			return [][]byte{out(no)}
		case 2:
			if inMask {
				return [][]byte{out(no)}
			}
		case 3: // a certificate of somebody else's broadcast
			for _, h := range b.hist["PreVote"] {
				var y protobuf.PreVote
				if proto.Unmarshal(h.Data, &y) == nil && y.Vote && !bytes.Equal(h.Id, m.Id) {
					return [][]byte{out(&y), out(no)}
				}
			}
			return [][]byte{out(&protobuf.PreVote{Vote: true, Value: alt, Sig: mine(echoMsg(cat(m.Id, u32(r.leader(m.Id)), []byte{1}), alt))})}
		case 4:
			v.Vote, v.Value = true, alt
			return [][]byte{out(&v)}
		case 6:
			if c := r.can(echoMsg(cat(m.Id, u32(r.leader(m.Id)), []byte{1}), alt)); c != nil {
				return [][]byte{out(&protobuf.PreVote{Vote: true, Value: alt, Sig: c})}
			}
			return [][]byte{frame, out(no)}
		}
	case "Vote":
		var v protobuf.Vote
		proto.Unmarshal(m.Data, &v)
		switch a % 8 {
		case 0, 1, 5: // No whenever that can be justified
			if c := r.can(cat([]byte{0}, m.Id)); c != nil && (a%8 == 0 || inMask) {
				return [][]byte{out(&protobuf.Vote{Sig: c, Sigshare: mine(cat([]byte("Unlock"), m.Id))})}
			}
		case 2: // a share that belongs to something else
			v.Sigshare = mine(append([]byte("x"), m.Id...))
			return [][]byte{out(&v)}
		case 3:
			v.Sigshare = append([]byte(nil), v.Sigshare...)
			if len(v.Sigshare) > 2 {
				v.Sigshare[1] = byte((b.p.Slot + 1) % r.c.N)
			}
			return [][]byte{out(&v)}
		case 4:
			return [][]byte{out(&protobuf.Vote{Vote: true, Value: alt, Sig: mine(alt), Sigshare: mine(echoMsg(cat(m.Id, u32(r.leader(m.Id)), []byte{2}), alt))})}
		case 6: // No without justification
			return [][]byte{out(&protobuf.Vote{Sig: mine(cat([]byte{0}, m.Id)), Sigshare: mine(cat([]byte("Unlock"), m.Id))}), frame}
		case 7:
			return nil
		}
	case "Halt":
		var h protobuf.Halt
		proto.Unmarshal(m.Data, &h)
		switch a % 8 {
		case 0, 1, 5:
			if inMask {
				return [][]byte{frame}
			}
			return nil
		case 2:
			h.Value = alt
			return [][]byte{out(&h)}
		case 7:
			return nil
		}
	}
	return [][]byte{frame}
}

// weak selects runs in which the colluders decide a few members' round on a
// certificate that must not be enough.
func (b *byz) weak() int {
	if b.f.Seed%7 < 4 || b.f.Seed>>3&3 == 1 {
		return 0
	}
	return int(b.f.Seed%7) - 3
}

// divide is the strategy of a leader that wants one group of members (the
// high half of the mask) to decide while the others go on: few (the low half)
// get to know its first certificate.
func (b *byz) divide(x *minst, m *protobuf.Message, frame []byte, dst *Proc) [][]byte {
	r := b.w.mvba
	A := b.f.Mask>>uint(dst.Slot)&1 == 1
	B := b.f.Mask>>uint(16+dst.Slot)&1 == 1
	switch m.Type {
	case "Value":
		IDr, j, ph, ok := x.pbOf(m.Id)
		if !ok || j != b.p.Slot {
			break
		}
		if j == r.leader(IDr) && IDr[len(IDr)-1] == 0 {
			if ph == 1 || A && b.weak() == 0 || dst.N.Faulty {
				break
			}
			return nil
		}
		// a second round in which nobody gets a lock, and a proposal in the third that ignores the first
		forget := b.f.Seed>>3&3 == 1
		if forget && j == r.leader(IDr) && IDr[len(IDr)-1] == 1 && ph == 2 {
			return nil
		}
		if IDr[len(IDr)-1] > 0 && ph == 1 && (b.f.Seed&1 == 1 || forget && IDr[len(IDr)-1] > 1) {
			// something else, with the justification its program has or none
			var v protobuf.Value
			proto.Unmarshal(m.Data, &v)
			v.Value = []byte(sprint("ok-evil-%d", b.p.Slot))
			how := b.f.Seed >> 1 & 3
			if forget && IDr[len(IDr)-1] > 1 {
				how = 1
				b.w.S.Count["forgetful-proposal"]++
			}
			switch how {
			case 0:
				v.Validation = nil
			case 1:
				// that the last round was left, and no more
				if c := r.can(cat([]byte("Unlock"), IDr[:len(IDr)-4], u32(int(utils.BytesToUint32(IDr[len(IDr)-4:]))-1))); c != nil {
					v.Validation = c
				}
			}
			m.Data, _ = proto.Marshal(&v)
			return [][]byte{enc(m)}
		}
	case "Finish":
		if m.Id[len(m.Id)-1] == 0 && r.leader(m.Id) == b.p.Slot && !B {
			return nil
		}
	case "PreVote":
		if m.Id[len(m.Id)-1] == 0 {
			m.Data, _ = proto.Marshal(&protobuf.PreVote{Sig: r.c.share(b.p.Slot, cat([]byte{0}, m.Id))})
			return [][]byte{enc(m)}
		}
	case "Vote", "Halt":
		if m.Id[len(m.Id)-1] == 0 && !dst.N.Faulty {
			return nil // what it votes is forged
		}
	}
	return [][]byte{frame}
}

// mvbaEarly lets a colluder speak before its turn.
func (b *byz) mvbaEarly(m *protobuf.Message, dst *Proc, rnd *simrt.Rand) [][]byte {
	r := b.w.mvba
	x := r.of(m.Id)
	if x == nil || len(m.Id) < len(x.id)+4 {
		return nil
	}
	var out [][]byte
	add := func(t string, id []byte, pl proto.Message) {
		d, _ := proto.Marshal(pl)
		out = append(out, enc(&protobuf.Message{Type: t, Sender: uint32(b.p.Slot), Id: id, Data: d}))
	}
	alt := []byte(sprint("ok-evil-%d", b.p.Slot))
	for k := 0; k < 2; k++ {
		IDr := append([]byte(nil), m.Id[:len(x.id)+4]...)
		IDr[len(IDr)-1] += byte(k)
		l := r.leader(IDr)
		mine := func(msg []byte) []byte { return r.c.share(b.p.Slot, msg) }
		if rnd.Intn(2) == 0 {
			add("Done", IDr, &protobuf.Done{CoinShare: mine(cat([]byte("Done"), IDr))})
		}
		if rnd.Intn(2) == 0 {
			add("PreVote", IDr, &protobuf.PreVote{Sig: mine(cat([]byte{0}, IDr))})
		}
		if rnd.Intn(3) == 0 {
			id1, id2 := cat(IDr, u32(b.p.Slot), []byte{1}), cat(IDr, u32(b.p.Slot), []byte{2})
			c1 := r.can(echoMsg(id1, x.in[b.p]))
			if c1 == nil {
				c1 = mine(echoMsg(id1, alt))
			}
			add("Finish", IDr, &protobuf.Finish{Value: x.in[b.p], Sig: c1})
			if rnd.Intn(2) == 0 {
				add("Value", id2, &protobuf.Value{Value: alt, Validation: mine(echoMsg(id1, alt))})
			}
		}
		if rnd.Intn(3) == 0 {
			c := r.can(echoMsg(cat(IDr, u32(l), []byte{1}), alt))
			if c == nil {
				c = mine(echoMsg(cat(IDr, u32(l), []byte{2}), alt))
			}
			add("Halt", IDr, &protobuf.Halt{Value: alt, Sig: c})
		}
		if rnd.Intn(3) == 0 {
			add("Vote", IDr, &protobuf.Vote{Sig: mine(cat([]byte{0}, IDr)), Sigshare: mine(cat([]byte("Unlock"), IDr))})
		}
		if rnd.Intn(4) == 0 { // a proposal in the name of somebody else
			add("Value", cat(IDr, u32(rnd.Intn(r.c.N)), []byte{1}), &protobuf.Value{Value: alt})
		}
		// the finish of one instance or round in another one
		for _, h := range b.hist["Finish"] {
			if !bytes.Equal(h.Id, IDr) && rnd.Intn(2) == 0 {
				out = append(out, enc(&protobuf.Message{Type: []string{"Finish", "Halt"}[rnd.Intn(2)], Sender: uint32(b.p.Slot), Id: IDr, Data: h.Data}))
				break
			}
		}
	}
	return out
}

var typesMVBA = []string{"Value", "Echo", "Finish", "Done", "PreVote", "Vote", "Halt"}
var actsMVBA = []string{"drop", "dup", "dup", "hold", "replay", "swap", "mut", "mutdup", "junkdata", "nodata", "junkid", "badsender", "flood", "inject",
	"strat", "strat", "strat", "strat", "strat", "strat", "mvbaearly", "mvbaearly"}

func (g *gen) mvbaSpec() {
	sp := g.sp
	sp.Scen = "mvba"
	sp.F = []int{1, 1, 1, 1, 1, 1, 1, 2}[g.Intn(8)]
	if deepRuns {
		sp.F = []int{1, 1, 1, 1, 1, 1, 2, 2, 2, 3}[g.Intn(10)]
	}
	sp.Crypto = 1
	N := sp.N()
	inst := []int{1, 1, 1, 2}[g.Intn(4)]
	span := inst * N * N * N * 12
	sp.Opt = map[string]int{"inst": inst, "span": span}
	if g.Chance(0.15) {
		sp.Opt["nopred"] = 1
	}
	if g.Chance(0.1) {
		sp.Opt["same"] = 1
	}
	if g.Chance(0.6) {
		sp.Opt["byzlead"] = 1
	}
	sp.Strat = g.strategy(span)
	sp.Max = 3000*N*N*N + 40*span
	g.benign(span, 1)
	// what a member sends to itself is also a message
	for n := []int{0, 0, 1, 1, 2}[g.Intn(5)]; n > 0; n-- {
		a := sprint("k0.%d", g.Intn(N))
		f := Fault{Kind: "typestall", Node: a, Step: 3 * span, Len: g.in(span/8, 2*span), Mask: g.U64()}
		if g.Chance(0.6) {
			f.Mask = 1 << uint(int(a[len(a)-1]-'0'))
		}
		f.Rules = []Rule{{Types: []string{typesMVBA[g.Intn(len(typesMVBA))]}}}
		sp.Faults = append(sp.Faults, f)
	}
	g.typeStalls(typesMVBA, span)
	used := map[string]bool{}
	if g.Chance(0.3) {
		// divided votes: the first leader is faulty, few members get to know its
		// certificate, and it is uncertain who hears of it in time
		sp.Opt["byzlead"] = 1
		if g.Chance(0.4) {
			sp.Opt["byzlead2"] = 1
		}
		delete(sp.Opt, "same")
		perm := g.Perm(N)
		a, b := uint64(0), uint64(0)
		for k := 0; k < sp.F; k++ {
			a |= 1 << uint(perm[k])
			b |= 1 << uint(perm[N-1-k])
		}
		if g.Chance(0.2) {
			a |= g.U64() & g.U64() & (1<<uint(N) - 1)
		}
		seed := g.U64() % 1000000
		bad := uint64(0)
		for n := 0; n < sp.F; n++ {
			bad |= 1 << uint(perm[sp.F+n])
			f := Fault{Kind: "byz", Node: sprint("k0.%d", perm[sp.F+n]), Seed: seed, Mode: 1}
			if g.Chance(0.7) || sp.Opt["byzlead2"] == 1 && seed>>3&3 == 1 {
				f.Mode, f.Mask = 3, a|b<<16
				f.Rules = []Rule{{Act: "strat"}}
			} else {
				for _, t := range []string{"Value", "PreVote", "Vote", "Halt"} {
					f.Rules = append(f.Rules, Rule{Types: []string{t}, Act: "strat", Arg: []int{0, 0, 0, 1, 5, 7}[g.Intn(6)]})
				}
			}
			sp.Faults = append(sp.Faults, f)
		}
		forget := sp.Opt["byzlead2"] == 1 && seed>>3&3 == 1
		stall := func(who int, mask uint64, ts ...string) {
			f := Fault{Kind: "typestall", Node: sprint("k0.%d", who), Step: 3 * span, Len: g.in(span/8, 3*span), Mask: mask &^ bad}
			if g.Chance(0.2) && !forget {
				f.Mask &= g.U64()
			}
			f.Rules = []Rule{{Types: ts}}
			sp.Faults = append(sp.Faults, f)
		}
		all := uint64(1)<<uint(N) - 1
		for k := 0; k < N; k++ {
			switch {
			case a>>uint(k)&1 == 1 && (g.Chance(0.7) || forget): // the Yes comes late, except to the chosen
				stall(k, all&^b, "PreVote")
			case b>>uint(k)&1 == 1 && (g.Chance(0.7) || forget): // the chosen are slow to tell
				stall(k, all&^(1<<uint(k)), "Vote", "Halt")
				if g.Chance(0.6) || forget {
					// the colluders' programs do not stop at the decision either
					sp.Faults[len(sp.Faults)-1].Mask |= bad
				}
				if g.Chance(0.6) || forget {
					sp.Faults[len(sp.Faults)-1].Len += 3 * span
				}
			case g.Chance(0.3):
				stall(k, b, "PreVote")
			}
		}
		for n := g.Intn(3); n > 0; n-- {
			f := Fault{Kind: "typestall", Step: 3 * span, Len: g.in(span/20, span), Mask: g.U64()}
			if g.Chance(0.8) {
				f.Node = sprint("k0.%d", g.Intn(N))
			}
			f.Rules = []Rule{{Types: []string{[]string{"PreVote", "PreVote", "Vote", "Halt"}[g.Intn(4)]}}}
			sp.Faults = append(sp.Faults, f)
		}
		return
	}
	for n := 0; n < sp.F; n++ {
		x := g.Float()
		if x > 0.95 {
			continue
		}
		m := g.member(0, used)
		switch {
		case x < 0.15:
			sp.Faults = append(sp.Faults, g.crashFault(m, 40*N, 6*N*inst))
		case x < 0.25:
			sp.Faults = append(sp.Faults, g.twinFault(m, typesMVBA, actsMVBA))
		case x < 0.45:
			sp.Faults = append(sp.Faults, g.byzFault(m, typesMVBA, actsMVBA))
		case x < 0.55 || sp.Prop == "C09" && x < 0.7:
			// no lie, but each kind of help for few members only
			f := Fault{Kind: "byz", Node: m, Seed: g.U64() % 1000000}
			all := uint64(1)<<uint(N) - 1
			if sp.Prop == "C09" && g.Chance(0.3) {
				// what the faulty one withholds from a member, only a member that
				// was away until the others had decided can supply
				v := g.Intn(N)
				f.Rules = []Rule{{Types: []string{g.one("Done", "Done", "Vote", "PreVote", "Finish")}, Act: "drop", Dst: 1 << uint(v)}}
				sp.Faults = append(sp.Faults, f)
				for k, n := g.Intn(N), 0; n < N; k, n = (k+1)%N, n+1 {
					if k != v && m != sprint("k0.%d", k) {
						sp.Faults = append(sp.Faults, Fault{Kind: "pause", Node: sprint("k0.%d", k), Step: g.Intn(span), Len: 3 * span})
						if g.Chance(0.7) {
							sp.Strat.SlowP, sp.Strat.SlowLen = []float64{0.1, 0.3, 0.5}[g.Intn(3)], []int{200, span / 2, span}[g.Intn(3)]
							sp.Strat.SlowSalt = g.U64()
						}
						break
					}
				}
				continue
			}
			for _, t := range typesMVBA {
				if g.Chance(0.55) {
					mask := all &^ (1 << uint(g.Intn(N)))
					if g.Chance(0.3) {
						mask &= g.U64()
					}
					if mask != 0 {
						f.Rules = append(f.Rules, Rule{Types: []string{t}, Act: "drop", Dst: mask})
					}
				}
			}
			sp.Faults = append(sp.Faults, f)
		default:
			// a strategy: one line of behaviour per type of message
			f := Fault{Kind: "byz", Node: m, Seed: g.U64() % 1000000}
			if g.Chance(0.35) {
				f.Rules = append(f.Rules, Rule{Types: []string{"Value"}, Act: "mvbaearly", To: 1 + g.Intn(8)})
			}
			for _, t := range typesMVBA {
				if g.Chance(0.6) {
					f.Rules = append(f.Rules, Rule{Types: []string{t}, Act: "strat", Arg: g.Intn(8)})
				}
			}
			f.Mode = 1 // forges what the colluders can sign
			sp.Faults = append(sp.Faults, f)
		}
	}
}
