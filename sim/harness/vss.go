package main

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/party"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"verif.local/simrt"
)

// Sharing with an honest or a cheating dealer. The reference checks a dealing
// with the trapdoor of the test setup, by multiplication in G1 only.

var tau, _ = new(big.Int).SetString("46015081477078601964787943834255776126696019968430095991502055467779756761969", 10)

type vssRun struct {
	w     *World
	id    string
	grid  grid
	sent  map[*Proc]*protobuf.VSSSend // what the dealer's program dealt (before it is tampered with)
	dealt map[*Proc]*protobuf.VSSSend // the first dealing the member read; nil payload: not decodable
	got   map[*Proc]bool
	clean map[*Proc]bool // the frame is as the program made it
	back  map[*Proc]bool // VSSShareReceive returned
	init  map[*Proc]string
}

func vssState(p *Proc) string {
	s := ""
	for _, x := range p.P.VFull() {
		s += fr2big(&x).String() + ","
	}
	for _, x := range p.P.VProof() {
		s += string(bls.ToCompressedG1(&x))
	}
	if w, at, ok := p.P.VWitness(); ok {
		for i := range w {
			s += string(bls.ToCompressedG1(&w[i]))
		}
		for i := range at {
			s += fr2big(&at[i]).String() + ","
		}
	}
	return s
}

func mulG(p *bls.G1Point, k *big.Int) bls.G1Point {
	f := big2fr(k)
	var r bls.G1Point
	bls.MulG1(&r, p, &f)
	return r
}

func addG(a, b bls.G1Point) bls.G1Point {
	var r bls.G1Point
	bls.AddG1(&r, &a, &b)
	return r
}

// opens: C commits to a polynomial with value y at x, as w shows.
func opens(C, w bls.G1Point, x, y *big.Int) bool {
	l := addG(C, mulG(&bls.GenG1, new(big.Int).Neg(y)))
	r := mulG(&w, new(big.Int).Sub(tau, x))
	return eqPt(l, r)
}

func point(v []byte) (bls.G1Point, bool) {
	p, err := bls.FromCompressedG1(v)
	if err != nil {
		return bls.G1Point{}, false
	}
	return *p, true
}

// flaw says why the dealing is invalid for the member with index i (1..N), "" if it is valid.
func flaw(x *protobuf.VSSSend, F int, i int64) string {
	if x == nil {
		return "it is not decodable"
	}
	if x.Pi == nil || len(x.Pi.PiContents) < 2*F+2 || len(x.BijList) < 2*F+2 || len(x.WBijList) < 2*F+2 {
		return "entries are missing"
	}
	gs, ok := point(x.Pi.Gs)
	if !ok {
		return "g^s is no point"
	}
	var xs []int64
	for j := 1; j <= 2*F+1; j++ {
		xs = append(xs, int64(j))
	}
	sum := bls.ZeroG1
	for j := 1; j <= 2*F+1; j++ {
		c := x.Pi.PiContents[j]
		cb, ok1 := point(c.GetCBj())
		cz, ok2 := point(c.GetCZj())
		wz, ok3 := point(c.GetWZ0())
		gf, ok4 := point(c.GetGFj())
		w, ok5 := point(x.WBijList[j])
		if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 {
			return sprint("a point of column %d is malformed", j)
		}
		var b [32]byte
		copy(b[:], x.BijList[j])
		v := le2big(b[:])
		if v.Cmp(modR) >= 0 {
			return sprint("value %d is no field element", j)
		}
		unit := make([]*big.Int, len(xs))
		for k := range unit {
			unit[k] = new(big.Int)
		}
		unit[j-1] = big.NewInt(1)
		sum = addG(sum, mulG(&gf, lagrange(xs, unit, 0)))
		if !eqPt(cb, addG(cz, gf)) {
			return sprint("CB is not CZ times g^F at %d", j)
		}
		if !opens(cz, wz, new(big.Int), new(big.Int)) {
			return sprint("Z(0) is not shown to be 0 at %d", j)
		}
		if !opens(cb, w, big.NewInt(i), v) {
			return sprint("value %d is not the committed one", j)
		}
	}
	if !eqPt(sum, gs) {
		return "the commitments are not to the published g^s"
	}
	return ""
}

func runVSS(sp *Spec) *Result {
	w := newWorld(sp)
	c := w.addCom(0)
	w.makeParties(c, nil)
	w.makeClient(c)
	N, F := sp.N(), sp.F
	rnd := simrt.NewRand(sp.Seed ^ 0x7550)
	r := &vssRun{w: w, id: []string{"vssshare", "vssshare", "1", ""}[rnd.Intn(4)], sent: map[*Proc]*protobuf.VSSSend{}, dealt: map[*Proc]*protobuf.VSSSend{},
		got: map[*Proc]bool{}, clean: map[*Proc]bool{}, back: map[*Proc]bool{}, init: map[*Proc]string{}}
	setup := w.Cl.KZG.SecretG1
	if len(setup) < 2 || !eqPt(setup[1], mulG(&bls.GenG1, tau)) {
		tau = nil // another setup: without its trapdoor nothing can be judged
	}
	raw := map[*Proc][]byte{}
	w.rawTap = append(w.rawTap, func(src, dst *Proc, m *protobuf.Message) {
		if src == w.Client && m.Type == "VSSSend" && string(m.Id) == r.id && raw[dst] == nil {
			raw[dst] = m.Data
			x := new(protobuf.VSSSend)
			if proto.Unmarshal(m.Data, x) == nil {
				r.sent[dst] = x
			}
		}
	})
	w.recvTap = append(w.recvTap, func(src, dst *Proc, m *protobuf.Message) {
		if src == w.Client && m.Type == "VSSSend" && string(m.Id) == r.id && m.Sender == 0x7fffffff && !r.got[dst] {
			r.got[dst] = true
			r.clean[dst] = string(raw[dst]) == string(m.Data)
			x := new(protobuf.VSSSend)
			if proto.Unmarshal(m.Data, x) == nil {
				r.dealt[dst] = x
			}
		}
	})
	if !w.connect() {
		w.viol("C04", "connect", "not all members could open their connections: %s", w.stuckInfo(w.procs()))
		w.judgeExits("C04")
		return w.finish()
	}
	span := sp.opt("span")
	at := func(p float64) int {
		if rnd.Chance(p) {
			return rnd.Intn(span + 1)
		}
		return 0
	}
	for _, p := range c.All {
		if p.N.Dead {
			continue
		}
		p := p
		r.init[p] = vssState(p)
		w.delay(p, at(0.4), "vss", func() {
			p.Phase = "VSS"
			p.P.VSSShareReceive([]byte(r.id))
			r.back[p] = true
			p.Done = true
		})
		// a member that deals as well; its messages carry its own sender id
		if !p.honest() && sp.opt("other") > 0 {
			f := p.N.Filter
			slot := p.Slot
			p.N.Filter = func(l *simrt.Pipe, frame []byte) [][]byte {
				var m protobuf.Message
				if proto.Unmarshal(frame, &m) == nil && m.Sender == 0x7fffffff {
					m.Sender = []uint32{uint32(slot), uint32(slot), uint32(N), 0xffffffff, 0x80000000}[sp.opt("other")%5]
					frame = enc(&m)
				}
				if f != nil {
					return f(l, frame)
				}
				return [][]byte{frame}
			}
			w.delay(p, at(0.5), "dealer", func() {
				cl := &party.Client{HonestParty: p.P}
				cl.SetSecret(big2fr(big.NewInt(4711)))
				w.S.Count["other-dealer"]++
				cl.Share([]byte(r.id))
			})
		}
	}
	if sp.opt("two") > 0 {
		w.delay(w.Client, at(0.5), "dealer2", func() {
			cl := &party.Client{HonestParty: w.Cl.HonestParty}
			cl.SetSecret(big2fr(big.NewInt(99)))
			cl.Share([]byte(r.id + "2"))
		})
	}
	w.delay(w.Client, at(0.5), "dealer", func() {
		w.Client.Phase = "Share"
		w.Cl.Share([]byte(r.id))
		w.Client.Done = true
	})
	stop := func() bool {
		for _, p := range c.All {
			if p.honest() && !r.back[p] {
				return p.N.Dead
			}
		}
		return true
	}
	ok := w.run(stop, sp.Max)
	w.R.Done = ok || !w.Client.honest()
	if ok {
		w.settle(400 * N)
	}
	dead := w.judgeExits("C04")
	if !ok && !dead && w.Client.honest() {
		w.viol("C04", "stuck", "a member never finished receiving the honest dealer's sharing: %s", w.stuckInfo(w.procs()))
	}
	if w.Client.honest() {
		// the reference: the bivariate polynomial through what was dealt
		e := &epochRun{w: w, deal: map[int][]*big.Int{}}
		for p, x := range r.sent {
			if x == nil || len(x.BijList) < 2*F+2 {
				continue
			}
			var v []*big.Int
			for _, b := range x.BijList[1 : 2*F+2] {
				v = append(v, le2big(b))
			}
			e.deal[p.Slot+1] = v
		}
		g, bad := e.dealt()
		if bad != "" {
			w.viol("C04", "dealing", "%s", bad)
		} else if g != nil {
			if g[0][0].Cmp(fr2big(&w.Secret)) != 0 {
				w.viol("C04", "dealing", "the honest dealer's sharing is not one of its secret")
			}
			e.vss = r.back
			for _, p := range c.All {
				if r.back[p] {
					e.snapVSS(p)
				}
			}
			e.judgeVSS(g)
		}
		return w.finish()
	}
	if tau == nil {
		return w.finish()
	}
	for _, p := range c.All {
		if !p.honest() || r.init[p] == "" {
			continue
		}
		adopted := vssState(p) != r.init[p]
		if !r.got[p] {
			if adopted {
				w.viol("C04", "adopted", "%s adopted shares although the dealer sent it none", p.Name)
			}
			continue
		}
		x := r.dealt[p]
		why := flaw(x, F, int64(p.Slot+1))
		switch {
		case why != "":
			w.S.Count["invalid-dealings"]++
			if adopted {
				w.viol("C04", "adopted", "%s adopted from a dealing although %s", p.Name, why)
			}
		case adopted:
			w.S.Count["valid-dealings"]++
			full := toPoly(p.P.VFull())
			com := p.P.VCommit()
			for j := 1; j <= 2*F+1; j++ {
				var b [32]byte
				copy(b[:], x.BijList[j])
				cb, _ := point(x.Pi.PiContents[j].GetCBj())
				if full.at(int64(j)).Cmp(le2big(b[:])) != 0 || j >= len(com) || !eqPt(com[j], cb) {
					w.viol("C04", "mixed", "%s adopted something else than what the dealer sent it (column %d)", p.Name, j)
					break
				}
			}
		case r.back[p] && r.clean[p]:
			w.viol("C04", "rejected", "%s did not adopt an unmodified dealing", p.Name)
		}
	}
	return w.finish()
}

// strategicVSS: dealings that are wrong in one respect only.
func (b *byz) strategicVSS(r *Rule, m *protobuf.Message, dst *Proc, rnd *simrt.Rand, out [][]byte) [][]byte {
	if m.Type != "VSSSend" {
		return out
	}
	F := b.w.Sp.F
	var x protobuf.VSSSend
	if proto.Unmarshal(m.Data, &x) != nil || x.Pi == nil || len(x.Pi.PiContents) < 2*F+2 || len(x.BijList) < 2*F+2 || len(x.WBijList) < 2*F+2 {
		return out
	}
	pi := x.Pi.PiContents
	k := 1 + rnd.Intn(2*F+1)
	if rnd.Chance(0.3) {
		k = 2*F + 1
	}
	l := 1 + (k+rnd.Intn(2*F))%(2*F+1)
	c := int64(1 + rnd.Intn(5))
	i := int64(dst.Slot + 1)
	lam := func(j int) *big.Int {
		var xs []int64
		unit := make([]*big.Int, 2*F+1)
		for q := range unit {
			xs = append(xs, int64(q+1))
			unit[q] = new(big.Int)
		}
		unit[j-1] = big.NewInt(1)
		return lagrange(xs, unit, 0)
	}
	// v += c*s*G
	sh := func(v []byte, c int64, s *big.Int) []byte {
		p, ok := point(v)
		if !ok {
			return v
		}
		q := addG(p, mulG(&bls.GenG1, new(big.Int).Mul(big.NewInt(c), s)))
		return bls.ToCompressedG1(&q)
	}
	one := big.NewInt(1)
	col := func(j int, c int64) { // another value in column j, consistent but for g^s
		pi[j].GFj = sh(pi[j].GFj, c, one)
		pi[j].CBj = sh(pi[j].CBj, c, one)
		x.BijList[j] = shiftScalar(x.BijList[j], c)
	}
	a := r.Arg
	if a > 17 {
		a = rnd.Intn(18)
	}
	switch a {
	case 0:
		x.Pi.Gs = sh(x.Pi.Gs, c, one)
	case 1:
		col(k, c)
	case 2: // a valid dealing of another secret
		col(k, c)
		x.Pi.Gs = sh(x.Pi.Gs, c, lam(k))
	case 3: // Z(0) is not 0, everything else fits
		pi[k].CZj = sh(pi[k].CZj, c, one)
		pi[k].GFj = sh(pi[k].GFj, -c, one)
		x.Pi.Gs = sh(x.Pi.Gs, -c, lam(k))
	case 4: // CB is not CZ times g^F, the values fit CB
		pi[k].CBj = sh(pi[k].CBj, c, one)
		x.BijList[k] = shiftScalar(x.BijList[k], c)
	case 5:
		x.BijList[k] = shiftScalar(x.BijList[k], c)
	case 6:
		x.WBijList[k] = sh(x.WBijList[k], c, one)
	case 7: // somebody else's values
		o := b.w.Coms[0].Procs[rnd.Intn(b.w.Sp.N())]
		if y := b.last["VSSSend/"+string(m.Id)+"/"+sprint("%d", o.Slot)]; y != nil {
			var z protobuf.VSSSend
			if proto.Unmarshal(y.Data, &z) == nil {
				x.BijList, x.WBijList = z.BijList, z.WBijList
			}
		} else {
			x.BijList[k], x.BijList[l] = x.BijList[l], x.BijList[k]
		}
	case 8:
		x.BijList[k], x.BijList[l] = x.BijList[l], x.BijList[k]
		x.WBijList[k], x.WBijList[l] = x.WBijList[l], x.WBijList[k]
	case 9:
		pi[k].WZ0 = sh(pi[k].WZ0, c, one)
	case 10: // valid: another Z
		pi[k].CZj = sh(pi[k].CZj, c, tau10)
		pi[k].CBj = sh(pi[k].CBj, c, tau10)
		pi[k].WZ0 = sh(pi[k].WZ0, c, one)
		x.BijList[k] = shiftScalar(x.BijList[k], c*i)
		x.WBijList[k] = sh(x.WBijList[k], c, one)
	case 11: // as 3, in two columns so that g^s stays
		lk, ll := lam(k), lam(l)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(ll, modR), modR)
		d := new(big.Int).Mul(lk, inv)
		d.Neg(d)
		pi[k].CZj, pi[k].GFj = sh(pi[k].CZj, c, one), sh(pi[k].GFj, -c, one)
		pi[l].CZj, pi[l].GFj = sh(pi[l].CZj, c, d), sh(pi[l].GFj, -c, d)
	case 12: // errors that cancel out in sums
		x.BijList[k], x.BijList[l] = shiftScalar(x.BijList[k], c), shiftScalar(x.BijList[l], -c)
	case 13:
		pi[k].CZj, pi[k].GFj = sh(pi[k].CZj, c, one), sh(pi[k].GFj, -c, one)
		pi[l].CZj, pi[l].GFj = sh(pi[l].CZj, -c, one), sh(pi[l].GFj, c, one)
		x.Pi.Gs = sh(sh(x.Pi.Gs, -c, lam(k)), c, lam(l))
	case 14:
		pi[k].CBj, x.BijList[k] = sh(pi[k].CBj, c, one), shiftScalar(x.BijList[k], c)
		pi[l].CBj, x.BijList[l] = sh(pi[l].CBj, -c, one), shiftScalar(x.BijList[l], -c)
	case 15: // the columns from k on are missing
		switch rnd.Intn(4) {
		case 0:
			x.BijList = x.BijList[:k]
		case 1:
			x.WBijList = x.WBijList[:k]
		case 2:
			x.Pi.PiContents = pi[:k]
		default:
			x.BijList[k] = nil
		}
	case 16: // a scalar that is not reduced
		v := new(big.Int).Add(le2big(x.BijList[k]), modR)
		if v.BitLen() <= 256 {
			d := v.Bytes()
			le := make([]byte, 32)
			for q := range d {
				le[len(d)-1-q] = d[q]
			}
			x.BijList[k] = le
		}
	case 17: // column k is all zero
		z := bls.ToCompressedG1(&bls.ZeroG1)
		pi[k].CBj, pi[k].CZj, pi[k].WZ0, pi[k].GFj = z, z, z, z
		x.BijList[k], x.WBijList[k] = make([]byte, 32), z
	}
	m.Data, _ = proto.Marshal(&x)
	switch rnd.Intn(8) {
	case 0:
		return [][]byte{enc(m), out[0]}
	case 1:
		return [][]byte{out[0], enc(m)}
	}
	return [][]byte{enc(m)}
}

var tau10 = new(big.Int).Set(tau)

func (g *gen) vssSpec() {
	sp := g.sp
	sp.Scen = "vss"
	sp.F = []int{1, 1, 1, 2, 2, 3}[g.Intn(6)]
	sp.Crypto = 1 + g.U64()%3
	N := sp.N()
	span := 40 * N
	sp.Opt = map[string]int{"span": []int{1, span, 4 * span}[g.Intn(3)]}
	sp.Strat = g.strategy(span)
	sp.Max = 4000 * N
	g.benign(span, 1)
	used := map[string]bool{}
	if g.Chance(0.75) {
		f := Fault{Kind: "byz", Node: "cl", Seed: g.U64() % 100000}
		for n := 1 + g.Intn(3); n > 0; n-- {
			r := Rule{Types: []string{"VSSSend"}, Act: "strat", Arg: g.Intn(22)}
			if g.Chance(0.3) {
				r = Rule{Types: []string{"VSSSend"}, Act: g.one("mut", "mut", "mutdup", "swap", "dup", "drop", "junkdata", "nodata", "badsender", "junkid", "cut"), Arg: g.Intn(3)}
			}
			if g.Chance(0.6) {
				r.Dst = g.U64()&(1<<uint(N)-1) | 1<<uint(g.Intn(N))
			}
			f.Rules = append(f.Rules, r)
		}
		sp.Faults = append(sp.Faults, f)
	}
	for n := 0; n < sp.F; n++ {
		if !g.Chance(0.5) {
			continue
		}
		m := g.member(0, used)
		if g.Chance(0.25) {
			sp.Faults = append(sp.Faults, g.crashFault(m, 5*N, 10))
			continue
		}
		f := Fault{Kind: "byz", Node: m, Seed: g.U64() % 100000}
		if g.Chance(0.3) {
			f.Rules = []Rule{g.rule([]string{"VSSSend"}, []string{"mut", "dup", "drop", "junkid", "flood"})}
		}
		sp.Faults = append(sp.Faults, f)
		sp.Opt["other"] = 1 + g.Intn(5)
	}
	if g.Chance(0.15) {
		sp.Opt["two"] = 1
	}
}
