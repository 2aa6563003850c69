package main

import (
	"bytes"
	"math/big"
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	kyberbls "github.com/drand/kyber-bls12381"
	sbls "github.com/drand/kyber/sign/bls"
	"google.golang.org/protobuf/proto"
)

// esnap is what a member held around one handoff.
type esnap struct {
	prepared bool
	prep     []bls.G1Point // commitments after the transfer
	reduced0 bool
	red0     poly // B(x,i) after share reduction
	done     bool
	red      poly // B'(x,i)
	full     poly // B'(i,y)
	com      []bls.G1Point
	wit      []bls.G1Point
	at       []bls.Fr
	hasWit   bool
}

type epochRun struct {
	w      *World
	E      int
	es     map[*Proc][]*esnap
	deal   map[int][]*big.Int     // member index (1..N) -> B(i,j), j=1..2F+1, as sent by the dealer
	qs     []map[int][][]*big.Int // per handoff: contributor -> variants of flattened Q_j(k,m)
	jsets  []map[string][]uint32  // per handoff: contributor sets seen as agreement outcomes of honest members
	jsigs  []map[string]*protobuf.MVBAIN
	vss    map[*Proc]bool
	qpart  []map[*Proc]map[int]*protobuf.Reshare
	recs   []map[uint32]map[*Proc]bool // per handoff: index -> honest members that sent Recover messages for it
	secret *secrecy
}

// backed: the signature is one of the committee on "j is a verified contributor".
func (r *epochRun) backed(e int, j uint32, sig []byte) bool {
	s := strconv.FormatUint(uint64(j), 10)
	for _, m := range []string{s, string(eid(idPro, e)) + "," + s} {
		if sbls.NewSchemeOnG1(kyberbls.NewBLS12381Suite()).Verify(r.newCom(e).PK.Commit(), []byte(m), sig) == nil {
			return true
		}
	}
	return false
}

func runEpoch(sp *Spec) *Result {
	w := newWorld(sp)
	E := sp.Epochs
	if E == 0 {
		E = 1
	}
	r := &epochRun{w: w, E: E, es: map[*Proc][]*esnap{}, deal: map[int][]*big.Int{}, vss: map[*Proc]bool{}}
	for e := 0; e < E; e++ {
		r.qs = append(r.qs, map[int][][]*big.Int{})
		r.jsets = append(r.jsets, map[string][]uint32{})
		r.jsigs = append(r.jsigs, map[string]*protobuf.MVBAIN{})
		r.qpart = append(r.qpart, map[*Proc]map[int]*protobuf.Reshare{})
		r.recs = append(r.recs, map[uint32]map[*Proc]bool{})
	}
	if sp.One {
		w.addCom(0)
	} else {
		for k := 0; k <= E; k++ {
			w.addCom(k)
		}
	}
	for k, c := range w.Coms {
		next := c
		if !sp.One {
			next = nil
			if k+1 < len(w.Coms) {
				next = w.Coms[k+1]
			}
		}
		w.makeParties(c, next)
	}
	w.makeClient(w.Coms[0])
	for _, p := range w.procs() {
		for e := 0; e < E; e++ {
			r.es[p] = append(r.es[p], &esnap{})
		}
	}
	w.sendTap = append(w.sendTap, r.onSend)
	w.rawTap = append(w.rawTap, r.onRaw)
	if sp.Prop == "C18" {
		r.secret = newSecrecy(r)
	}
	if !w.connect() {
		for _, x := range []string{"C02", "C15"} {
			w.viol(x, "connect", "not all members could open their connections: %s", w.stuckInfo(w.procs()))
		}
		w.judgeExits("C02")
		return w.finish()
	}
	for _, p := range w.procs() {
		p := p
		if p.N.Dead {
			continue
		}
		switch {
		case p == w.Client:
			w.S.Go(p.N, "main", func() {
				p.Phase = "Share"
				w.Cl.Share([]byte("vssshare"))
				p.Done = true
			})
		default:
			w.S.Go(p.N, "main", func() { r.main(p) })
		}
	}
	// faults of the last committee end the obligation of its faulty members only
	target := w.Coms[len(w.Coms)-1]
	stop := func() bool {
		for _, p := range target.All {
			if p.honest() && !p.Done {
				return p.N.Dead
			}
		}
		return true
	}
	budget := sp.Max
	if budget == 0 {
		n := sp.N()
		budget = 6000 * n * n * E
	}
	ok := w.run(stop, budget)
	all := true
	for _, p := range target.All {
		if p.honest() && !p.Done {
			all = false
		}
	}
	w.R.Done = all
	if !all {
		info := w.stuckInfo(append(append([]*Proc(nil), target.All...), r.before()...))
		dead := w.judgeExits("C02")
		if !dead || ok {
			w.viol("C02", "stuck", "%s", info)
			if w.crash && !w.byzAny {
				w.viol("C15", "stuck", "%s", info)
			}
			for _, p := range w.procs() {
				if p.honest() && (p.Phase == "PrepareReceive0" || p.Phase == "ShareReduceReceive0") {
					w.viol("C05", "stuck", "%s", info)
				}
			}
			if r.firstDone() {
				w.viol("C17", "stuck", "the handoff following a completed one does not complete: %s", info)
			}
			if r.vssStuck() {
				w.viol("C04", "stuck", "a member never finished receiving the honest dealer's sharing: %s", info)
			}
		}
	} else {
		w.settle(3000 + 500*sp.N())
	}
	w.judgeExits("C02")
	r.judge()
	return w.finish()
}

func (r *epochRun) before() []*Proc {
	var l []*Proc
	for _, c := range r.w.Coms[:len(r.w.Coms)-1] {
		l = append(l, c.All...)
	}
	return l
}

// firstDone: some handoff was completed by all honest members, a later one was not.
func (r *epochRun) firstDone() bool {
	if r.E < 2 {
		return false
	}
	c := r.newCom(0)
	for _, p := range c.All {
		if p.honest() && !r.es[p][0].done {
			return false
		}
	}
	return true
}

func (r *epochRun) vssStuck() bool {
	for _, p := range r.w.Coms[0].All {
		if p.honest() && p.Phase == "VSS" && r.w.Client.Done {
			return true
		}
	}
	return false
}

func (r *epochRun) oldCom(e int) *Com {
	if r.w.Sp.One {
		return r.w.Coms[0]
	}
	return r.w.Coms[e]
}

func (r *epochRun) newCom(e int) *Com {
	if r.w.Sp.One {
		return r.w.Coms[0]
	}
	return r.w.Coms[e+1]
}

func eid(base string, e int) []byte {
	if e == 0 {
		return []byte(base)
	}
	return []byte(base + strconv.Itoa(e))
}

const (
	idReduce = "shareReduce"
	idPro    = "ProactivizeAndShareDist"
)

func (r *epochRun) main(p *Proc) {
	k := p.Com.K
	if k == 0 {
		p.Phase = "VSS"
		p.P.VSSShareReceive([]byte("vssshare"))
		r.vss[p] = true
		r.snapVSS(p)
	}
	if r.w.Sp.One {
		for e := 0; e < r.E; e++ {
			r.send(p, e, 0)
			r.recv(p, e, 0)
			r.send(p, e, 1)
			r.recv(p, e, 1)
			r.refresh(p, e)
		}
	} else {
		if k > 0 {
			r.recv(p, k-1, 0)
			r.recv(p, k-1, 1)
			r.refresh(p, k-1)
		}
		if k < r.E {
			r.send(p, k, 0)
			r.send(p, k, 1)
		}
	}
	p.Phase = "done"
	p.Done = true
}

func (r *epochRun) snapVSS(p *Proc) {
	p.snap["vssfull"] = toPoly(p.P.VFull())
	p.snap["vsscom"] = p.P.VCommit()
	w, at, ok := p.P.VWitness()
	if ok {
		p.snap["vsswit"] = append([]bls.G1Point(nil), w...)
		p.snap["vssat"] = append([]bls.Fr(nil), at...)
	}
}

func (r *epochRun) send(p *Proc, e, part int) {
	if part == 0 {
		p.Phase = "PrepareSend" + strconv.Itoa(e)
		p.P.PrepareSend(eid(idReduce, e))
		return
	}
	p.Phase = "ShareReduceSend" + strconv.Itoa(e)
	p.P.ShareReduceSend(eid(idReduce, e))
}

func (r *epochRun) recv(p *Proc, e, part int) {
	s := r.es[p][e]
	if part == 0 {
		p.Phase = "PrepareReceive" + strconv.Itoa(e)
		p.P.PrepareReceive(eid(idReduce, e))
		s.prep, s.prepared = p.P.VCommit(), true
		return
	}
	p.Phase = "ShareReduceReceive" + strconv.Itoa(e)
	p.P.ShareReduceReceive(eid(idReduce, e))
	s.red0, s.reduced0 = toPoly(p.P.VReduced()), true
}

func (r *epochRun) refresh(p *Proc, e int) {
	s := r.es[p][e]
	p.Phase = "Proactivize" + strconv.Itoa(e)
	p.P.ProactivizeAndShareDist(eid(idPro, e))
	s.red, s.full = toPoly(p.P.VReduced()), toPoly(p.P.VFull())
	s.com = p.P.VCommit()
	w, at, ok := p.P.VWitness()
	if ok {
		s.wit, s.at, s.hasWit = append([]bls.G1Point(nil), w...), append([]bls.Fr(nil), at...), true
	}
	s.done = true
}

func (r *epochRun) epochOf(id []byte, base string) int {
	for e := 0; e < r.E; e++ {
		if bytes.Equal(id, eid(base, e)) {
			return e
		}
	}
	return -1
}

func (r *epochRun) onRaw(src, dst *Proc, m *protobuf.Message) {
	if m.Type == "Reshare" {
		r.noteReshare(src, dst, m)
	}
}

// noteReshare records Q_j(k,m) as contributor j's program computed it.
func (r *epochRun) noteReshare(src, dst *Proc, m *protobuf.Message) {
	e := r.epochOf(m.Id, idPro)
	if e < 0 {
		return
	}
	q := r.qpart[e][src]
	if q == nil {
		q = map[int]*protobuf.Reshare{}
		r.qpart[e][src] = q
	}
	if q[dst.Slot+1] == nil {
		var x protobuf.Reshare
		if proto.Unmarshal(m.Data, &x) == nil {
			q[dst.Slot+1] = &x
		}
	}
}

func (r *epochRun) onSend(src, dst *Proc, m *protobuf.Message) {
	w := r.w
	switch m.Type {
	case "VSSSend":
		if src != w.Client {
			return
		}
		var x protobuf.VSSSend
		if proto.Unmarshal(m.Data, &x) != nil || len(x.BijList) < 2*w.Sp.F+2 {
			return
		}
		if r.deal[dst.Slot+1] == nil {
			var v []*big.Int
			for j := 1; j <= 2*w.Sp.F+1; j++ {
				v = append(v, le2big(x.BijList[j]))
			}
			r.deal[dst.Slot+1] = v
		}
	case "Reshare":
		if src.honest() || src.N.Filter == nil {
			r.noteReshare(src, dst, m)
		}
	case "Recover":
		if e := r.epochOf(m.Id, idPro); e >= 0 && src.honest() {
			var x protobuf.Recover
			if proto.Unmarshal(m.Data, &x) == nil {
				if r.recs[e][x.Index] == nil {
					r.recs[e][x.Index] = map[*Proc]bool{}
				}
				r.recs[e][x.Index][src] = true
			}
		}
	case "Halt":
		if !src.honest() {
			return
		}
		for e := 0; e < r.E; e++ {
			b := eid(idPro, e)
			if len(m.Id) == len(b)+4 && bytes.HasPrefix(m.Id, b) {
				var h protobuf.Halt
				if proto.Unmarshal(m.Data, &h) != nil {
					continue
				}
				var x protobuf.MVBAIN
				if proto.Unmarshal(h.Value, &x) != nil {
					w.viol("C10", "undecodable", "%s decided on a value that is not a contributor set in handoff %d", src.Name, e)
					continue
				}
				r.jsets[e][string(h.Value)] = x.J
				r.jsigs[e][string(h.Value)] = &x
			}
		}
	}
}

// grid is a bivariate polynomial: grid[a][b] is the coefficient of x^a y^b.
type grid []poly

func (g grid) atY(y int64) poly { // B(x,y)
	r := make(poly, len(g))
	for a := range g {
		r[a] = g[a].at(y)
	}
	return r
}

func (g grid) atX(x int64) poly { // B(x,.)
	n := len(g[0])
	r := make(poly, n)
	for b := 0; b < n; b++ {
		col := make(poly, len(g))
		for a := range g {
			col[a] = g[a][b]
		}
		r[b] = col.at(x)
	}
	return r
}

// dealt is the polynomial the dealer shared, from what it sent.
func (r *epochRun) dealt() (grid, string) {
	F, N := r.w.Sp.F, r.w.Sp.N()
	var xs []int64
	for i := 1; i <= N && len(xs) < F+1; i++ {
		if r.deal[i] != nil {
			xs = append(xs, int64(i))
		}
	}
	if len(xs) < F+1 {
		return nil, ""
	}
	// for every j the polynomial B(x,j)
	var ys []int64
	cols := make([]poly, 0)
	for j := 0; j < 2*F+1; j++ {
		var v []*big.Int
		for _, x := range xs {
			v = append(v, r.deal[int(x)][j])
		}
		cols = append(cols, interp(xs, v))
		ys = append(ys, int64(j+1))
	}
	for i := 1; i <= N; i++ {
		if r.deal[i] == nil {
			continue
		}
		for j := range cols {
			if cols[j].at(int64(i)).Cmp(r.deal[i][j]) != 0 {
				return nil, sprint("the dealer's values for member %d do not lie on the degree-%d polynomials of the others", i, F)
			}
		}
	}
	g := make(grid, F+1)
	for a := range g {
		var v []*big.Int
		for j := range cols {
			v = append(v, cols[j][a])
		}
		g[a] = interp(ys, v)
	}
	return g, ""
}

// gridOf interpolates the sharing held by the members whose snapshots are
// given; it reports the first disagreement.
func gridOf(F int, slots []int64, red []poly) (grid, string) {
	if len(slots) < 2*F+1 {
		return nil, ""
	}
	for i, p := range red {
		if len(p) > F+1 {
			if !append(poly(nil), p[F+1:]...).zero() {
				return nil, sprint("member %d's reduced share has degree above %d", slots[i], F)
			}
		}
	}
	g := make(grid, F+1)
	for a := range g {
		var v []*big.Int
		for i := 0; i < 2*F+1; i++ {
			v = append(v, coef(red[i], a))
		}
		g[a] = interp(slots[:2*F+1], v)
	}
	for i := range red {
		if !g.atY(slots[i]).eq(red[i]) {
			return nil, sprint("member %d's reduced share does not agree with those of members %v", slots[i], slots[:2*F+1])
		}
	}
	return g, ""
}

func coef(p poly, a int) *big.Int {
	if a < len(p) {
		return p[a]
	}
	return new(big.Int)
}

func (r *epochRun) commit(p poly) bls.G1Point {
	f := make([]bls.Fr, r.w.Sp.F+1)
	for i := range f {
		f[i] = big2fr(coef(p, i))
	}
	return *r.w.Cl.KZG.CommitToPoly(f)
}

// quotient is (p - p(i)) / (x - i).
func quotient(p poly, i int64) poly {
	q := make(poly, len(p))
	for k := range q {
		q[k] = new(big.Int)
	}
	c := new(big.Int)
	for k := len(p) - 1; k >= 1; k-- {
		c.Mul(c, big.NewInt(i))
		c.Add(c, p[k])
		c.Mod(c, modR)
		q[k-1].Set(c)
	}
	return q
}

func (r *epochRun) witnessOf(g grid, i, j int64) bls.G1Point {
	return r.commit(quotient(g.atY(j), i))
}

func ptHex(p bls.G1Point) string { return sprint("%x", bls.ToCompressedG1(&p)[:8]) }

func eqPt(a, b bls.G1Point) bool { return bytes.Equal(bls.ToCompressedG1(&a), bls.ToCompressedG1(&b)) }

func (r *epochRun) judge() {
	w := r.w
	F := w.Sp.F
	secret := fr2big(&w.Secret)
	old, bad := r.dealt()
	if bad != "" {
		w.viol("C04", "dealing", "%s", bad)
		w.viol("C01", "dealing", "%s", bad)
		return
	}
	if old == nil {
		return
	}
	if old[0][0].Cmp(secret) != 0 {
		w.viol("C04", "dealing", "the honest dealer's sharing is not one of its secret")
		w.viol("C01", "dealing", "the honest dealer's sharing is not one of its secret")
		return
	}
	r.judgeVSS(old)
	for e := 0; e < r.E; e++ {
		c := r.newCom(e)
		r.judgeSets(e)
		var slots []int64
		var reds []poly
		var hs []*Proc
		for _, p := range c.All {
			if !p.honest() {
				continue
			}
			s := r.es[p][e]
			if s.prepared {
				for j := 1; j <= 2*F+1; j++ {
					if j >= len(s.prep) || !eqPt(s.prep[j], r.commit(old.atY(int64(j)))) {
						w.viol("C05", "commitments", "handoff %d: %s adopted commitments that differ at %d from those of the honest old members", e, p.Name, j)
					}
				}
			}
			if s.reduced0 && !s.red0.eq(old.atY(int64(p.Slot+1))) {
				w.viol("C05", "reduced", "handoff %d: %s obtained a reduced share that is not B(x,%d)", e, p.Name, p.Slot+1)
			}
			if s.done {
				slots = append(slots, int64(p.Slot+1))
				reds = append(reds, s.red)
				hs = append(hs, p)
			}
		}
		if len(hs) == 0 {
			return
		}
		// pairwise agreement, whatever number completed
		for _, p := range hs {
			sp := r.es[p][e]
			if len(sp.full) > 2*F+1 && !append(poly(nil), sp.full[2*F+1:]...).zero() {
				w.viol("C01", "degree", "handoff %d: %s's full share has degree above %d", e, p.Name, 2*F)
			}
			for _, q := range hs {
				sq := r.es[q][e]
				if sp.red.at(int64(q.Slot+1)).Cmp(sq.full.at(int64(p.Slot+1))) != 0 {
					w.viol("C01", "disagree", "handoff %d: the reduced share of %s and the full share of %s disagree on B(%d,%d)", e, p.Name, q.Name, q.Slot+1, p.Slot+1)
				}
			}
		}
		if len(hs) >= F+1 {
			var xs []int64
			var ys []*big.Int
			for _, p := range hs[len(hs)-F-1:] {
				xs = append(xs, int64(p.Slot+1))
				ys = append(ys, r.es[p][e].full.at(0))
			}
			if lagrange(xs, ys, 0).Cmp(secret) != 0 {
				w.viol("C01", "secret", "handoff %d: the full shares of members %v reconstruct another secret", e, xs)
				if e > 0 {
					w.viol("C17", "secret", "after handoff %d the full shares of members %v reconstruct another secret", e, xs)
				}
			}
		}
		r.judgeRefresh(e, old, hs)
		g, bad := gridOf(F, slots, reds)
		if bad != "" {
			w.viol("C01", "disagree", "handoff %d: %s", e, bad)
			return
		}
		if g == nil {
			return
		}
		if g[0][0].Cmp(secret) != 0 {
			w.viol("C01", "secret", "handoff %d: the reduced shares of members %v reconstruct another secret", e, slots)
			if e > 0 {
				w.viol("C17", "secret", "after handoff %d the reduced shares of members %v reconstruct another secret", e, slots)
			}
		}
		for _, p := range hs {
			s := r.es[p][e]
			if !g.atX(int64(p.Slot + 1)).eq(s.full) {
				w.viol("C01", "disagree", "handoff %d: the full share of %s does not agree with the reduced shares of members %v", e, p.Name, slots)
				continue
			}
			for j := 1; j <= 2*F+1; j++ {
				if j >= len(s.com) || !eqPt(s.com[j], r.commit(g.atY(int64(j)))) {
					w.viol("C17", "commitments", "after handoff %d %s's commitment %d is not one to the refreshed sharing", e, p.Name, j)
					break
				}
			}
			if s.hasWit {
				r.judgeWitness("C17", sprint("after handoff %d", e), p, g, s.full, s.wit, s.at)
			}
		}
		if r.secret != nil {
			r.secret.epoch(e, old, g)
		}
		old = g
	}
	if r.secret != nil {
		r.secret.judge()
	}
}

// judgeWitness: 2F+1 distinct positions with the witnesses of the full share there.
func (r *epochRun) judgeWitness(prop, when string, p *Proc, g grid, full poly, wit []bls.G1Point, at []bls.Fr) {
	F := r.w.Sp.F
	if len(wit) < 2*F+1 || len(at) < 2*F+1 {
		r.w.viol(prop, "witness", "%s %s holds %d witnesses, not %d", when, p.Name, len(wit), 2*F+1)
		return
	}
	seen := map[int64]bool{}
	for k := 0; k < 2*F+1; k++ {
		pos := fr2big(&at[k])
		if !pos.IsInt64() || pos.Int64() < 1 || pos.Int64() > int64(r.w.Sp.N()) || seen[pos.Int64()] {
			r.w.viol(prop, "witness", "%s %s's witness %d is for position %s", when, p.Name, k, pos)
			return
		}
		j := pos.Int64()
		seen[j] = true
		if !eqPt(wit[k], r.witnessOf(g, int64(p.Slot+1), j)) {
			r.w.viol(prop, "witness", "%s %s's witness for position %d does not verify its full share", when, p.Name, j)
			return
		}
	}
}

func (r *epochRun) judgeVSS(g grid) {
	w := r.w
	F := w.Sp.F
	for _, p := range w.Coms[0].All {
		if !p.honest() || !r.vss[p] {
			continue
		}
		full := p.snap["vssfull"].(poly)
		if !full.eq(g.atX(int64(p.Slot + 1))) {
			w.viol("C04", "share", "%s did not adopt its share of the honest dealer's sharing", p.Name)
			continue
		}
		com := p.snap["vsscom"].([]bls.G1Point)
		for j := 1; j <= 2*F+1; j++ {
			if !eqPt(com[j], r.commit(g.atY(int64(j)))) {
				w.viol("C04", "commitments", "%s's commitment %d is not that of the honest dealer", p.Name, j)
			}
		}
		if wit, ok := p.snap["vsswit"]; ok {
			r.judgeWitness("C04", "after sharing", p, g, full, wit.([]bls.G1Point), p.snap["vssat"].([]bls.Fr))
		}
	}
}

// judgeSets judges the outcomes of the agreement that honest members announced,
// whether or not the handoff completed.
func (r *epochRun) judgeSets(e int) {
	w := r.w
	F, N := w.Sp.F, w.Sp.N()
	if len(r.jsets[e]) > 1 {
		var all []string
		for _, k := range sortedKeys(r.jsets[e]) {
			all = append(all, sprint("%v", r.jsets[e][k]))
		}
		w.viol("C03", "outcomes", "handoff %d: honest members announce different contributor sets: %v", e, all)
	}
	for _, k := range sortedKeys(r.jsigs[e]) {
		x := r.jsigs[e][k]
		seen := map[uint32]bool{}
		for i, j := range x.J {
			switch {
			case j < 1 || j > uint32(N):
				w.viol("C10", "nobody", "handoff %d: the agreed contributor set %v contains nobody's index", e, x.J)
			case seen[j]:
				w.viol("C10", "twice", "handoff %d: the agreed contributor set %v contains a member twice", e, x.J)
			case len(r.recs[e][j]) < F+1:
				w.viol("C10", "unbacked", "handoff %d: contributor %d of the agreed set %v was vouched for by %d honest members only", e, j, x.J, len(r.recs[e][j]))
			case i >= len(x.Sig) || !r.backed(e, j, x.Sig[i]):
				w.viol("C10", "unsigned", "handoff %d: contributor %d of the agreed set %v is not backed by 2F+1 signatures", e, j, x.J)
			}
			seen[j] = true
		}
		if len(seen) < F+1 {
			w.viol("C10", "few", "handoff %d: the agreed contributor set %v has fewer than F+1 members", e, x.J)
			w.viol("C03", "few", "handoff %d: the agreed contributor set %v has fewer than F+1 members", e, x.J)
		}
	}
}

// judgeRefresh looks for one contributor set that explains the change of all
// honest members' shares.
func (r *epochRun) judgeRefresh(e int, old grid, hs []*Proc) {
	w := r.w
	F, N := w.Sp.F, w.Sp.N()
	// contributors' polynomials
	type cand struct {
		slot int
		q    []poly // Q_j(x,k), k = 0..N
	}
	var cands []cand
	for _, p := range r.newCom(e).All {
		part := r.qpart[e][p]
		if part == nil {
			continue
		}
		var xs []int64
		for k := 1; k <= N && len(xs) < F+1; k++ {
			if x := part[k]; x != nil && len(x.Qk) >= 2*F+1 {
				xs = append(xs, int64(k))
			}
		}
		if len(xs) < F+1 {
			continue
		}
		g := make(grid, F+1)
		cols := make([]poly, 2*F+1)
		var ys []int64
		for m := 0; m < 2*F+1; m++ {
			var v []*big.Int
			for _, x := range xs {
				v = append(v, le2big(part[int(x)].Qk[m]))
			}
			cols[m] = interp(xs, v)
			ys = append(ys, int64(m+1))
		}
		for a := range g {
			var v []*big.Int
			for m := range cols {
				v = append(v, coef(cols[m], a))
			}
			g[a] = interp(ys, v)
		}
		c := cand{slot: p.Slot + 1}
		for k := 0; k <= N; k++ {
			c.q = append(c.q, g.atY(int64(k)))
		}
		if p.honest() && g[0][0].Sign() != 0 {
			w.viol("C03", "nonzero", "handoff %d: honest %s contributes a sharing of something other than zero", e, p.Name)
		}
		cands = append(cands, c)
	}
	if len(cands) > 12 {
		return
	}
	d := make([]poly, len(hs))
	for i, p := range hs {
		d[i] = r.es[p][e].red.add(old.atY(int64(p.Slot+1)), -1)
	}
	found := false
	for mask := 1; mask < 1<<uint(len(cands)) && !found; mask++ {
		ok := true
		slots := map[int]bool{}
		for c := range cands {
			if mask>>uint(c)&1 == 1 {
				if slots[cands[c].slot] {
					ok = false
				}
				slots[cands[c].slot] = true
			}
		}
		if !ok || len(slots) < F+1 {
			continue
		}
		for i, p := range hs {
			// compare one coefficient first
			t := new(big.Int)
			for c := range cands {
				if mask>>uint(c)&1 == 1 {
					t.Add(t, cands[c].q[p.Slot+1][0])
				}
			}
			if t.Mod(t, modR).Cmp(coef(d[i], 0)) != 0 {
				ok = false
				break
			}
			sum := poly{}
			for c := range cands {
				if mask>>uint(c)&1 == 1 {
					sum = sum.add(cands[c].q[p.Slot+1], 1)
				}
			}
			if !sum.eq(d[i]) {
				ok = false
				break
			}
		}
		if ok {
			found = true
			w.S.Count["refresh-explained"]++
			if len(r.jsets[e]) == 1 {
				for _, j := range r.jsets[e] {
					want := map[int]bool{}
					for _, x := range j {
						want[int(x)] = true
					}
					same := len(want) == len(slots)
					for x := range want {
						same = same && slots[x]
					}
					if !same {
						w.viol("C03", "set", "handoff %d: the agreed contributors are %v but the shares changed by the sum of those of %v", e, j, slots)
					}
				}
			}
		}
	}
	if !found {
		for i, p := range hs {
			if d[i].zero() {
				w.viol("C03", "unchanged", "handoff %d: the share of %s did not change", e, p.Name)
			}
		}
		// a committed contribution whose polynomial no real program computed
		// can only come from a misbehaving member that forged a consistent one
		w.viol("C03", "unexplained", "handoff %d: no set of at least F+1 members' contributions explains the change of the honest members' shares (completed: %d)", e, len(hs))
	}
}
