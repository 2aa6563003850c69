package main

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"verif.local/simrt"
)

// secrecy judges what corrupted members learn. Every secret of the run is a
// vector of unknown coefficients (the shared polynomial and the honest
// contributors' zero-sharings); every value that appears on the network is
// recognised as a linear function of it.
type secrecy struct {
	r      *epochRun
	frames []secFrame
	bad    map[*Proc]bool
	old    grid
	fresh  grid
}

type secFrame struct {
	src, dst *Proc
	typ      string
	data     []byte
}

func newSecrecy(r *epochRun) *secrecy {
	s := &secrecy{r: r, bad: map[*Proc]bool{}}
	w := r.w
	w.markFaulty()
	rnd := simrt.NewRand(w.Sp.Seed ^ 0x5ec)
	same := rnd.Chance(0.5) // the same indices in both committees, if nobody misbehaves
	for k, c := range w.Coms {
		n := 0
		if k > 0 && same {
			ok := true
			for _, p := range c.Procs {
				ok = ok && (p.honest() || s.bad[w.Coms[0].Procs[p.Slot]])
			}
			// (a faulty old member may be an honest new one: it is corrupted then)
			for _, p := range c.Procs {
				if ok && s.bad[w.Coms[0].Procs[p.Slot]] {
					s.bad[p] = true
					n++
				}
			}
			if ok {
				continue
			}
		}
		for _, p := range c.Procs {
			if !p.honest() {
				s.bad[p] = true
				n++
			}
		}
		for _, i := range rnd.Perm(c.N) {
			if n < c.F && !s.bad[c.Procs[i]] {
				s.bad[c.Procs[i]] = true
				n++
			}
		}
	}
	w.sendTap = append(w.sendTap, func(src, dst *Proc, m *protobuf.Message) {
		if src != dst {
			s.frames = append(s.frames, secFrame{src, dst, m.Type, m.Data})
		}
	})
	return s
}

func (s *secrecy) epoch(e int, old, fresh grid) {
	if e == 0 {
		s.old, s.fresh = old, fresh
	}
}

type secret struct {
	name string
	vec  poly
	ok   func(dst *Proc) bool // may dst see it
}

func (s *secrecy) judge() {
	if s.old == nil || s.fresh == nil || s.r.w.Sp.One {
		return
	}
	w := s.r.w
	F, N := w.Sp.F, w.Sp.N()
	nb := (F + 1) * (2*F + 1)
	newC := s.r.newCom(0)
	// honest contributors' polynomials
	type contrib struct {
		slot int
		g    grid
		base int
		p    *Proc
	}
	var qs []contrib
	base := nb
	for _, p := range newC.Procs {
		if s.bad[p] || !p.honest() {
			continue
		}
		part := s.r.qpart[0][p]
		var xs []int64
		for k := 1; k <= N && len(xs) < F+1; k++ {
			if x := part[k]; x != nil && len(x.Qk) >= 2*F+1 {
				xs = append(xs, int64(k))
			}
		}
		if len(xs) < F+1 {
			continue
		}
		cols := make([]poly, 2*F+1)
		var ys []int64
		for m := range cols {
			var v []*big.Int
			for _, x := range xs {
				v = append(v, le2big(part[int(x)].Qk[m]))
			}
			cols[m] = interp(xs, v)
			ys = append(ys, int64(m+1))
		}
		g := make(grid, F+1)
		for a := range g {
			var v []*big.Int
			for m := range cols {
				v = append(v, coef(cols[m], a))
			}
			g[a] = interp(ys, v)
		}
		qs = append(qs, contrib{p.Slot + 1, g, base, p})
		base += nb
	}
	dim := base
	// which contributors were used: the unique explanation of the change
	used := map[int]bool{}
	for _, j := range s.r.jsets[0] {
		for _, x := range j {
			used[int(x)] = true
		}
	}
	vec := func(b int, x, y int64) poly {
		v := make(poly, dim)
		for i := range v {
			v[i] = new(big.Int)
		}
		px := big.NewInt(1)
		for a := 0; a <= F; a++ {
			py := new(big.Int).Set(px)
			for c := 0; c <= 2*F; c++ {
				v[b+a*(2*F+1)+c].Set(py)
				py = new(big.Int).Mul(py, big.NewInt(y))
				py.Mod(py, modR)
			}
			px = new(big.Int).Mul(px, big.NewInt(x))
			px.Mod(px, modR)
		}
		return v
	}
	vecNew := func(x, y int64) poly {
		v := vec(0, x, y)
		for _, q := range qs {
			if used[q.slot] {
				v = v.add(vec(q.base, x, y), 1)
			}
		}
		return v
	}
	table := map[string]*secret{}
	put := func(val *big.Int, sec *secret) {
		if val.BitLen() < 64 {
			return
		}
		le := big2le(val)
		be := make([]byte, 32)
		for i := range le {
			be[31-i] = le[i]
		}
		for _, k := range []string{string(le), string(be)} {
			if table[k] == nil {
				table[k] = sec
			}
		}
	}
	oldC := s.r.oldCom(0)
	for a := int64(0); a <= int64(N); a++ {
		for b := int64(0); b <= int64(N); b++ {
			a, b := a, b
			put(s.old.atY(b).at(a), &secret{sprint("B(%d,%d)", a, b), vec(0, a, b), func(d *Proc) bool {
				return a >= 1 && b >= 1 && ((d.Com == oldC && int64(d.Slot+1) == a) || (d.Com == newC && int64(d.Slot+1) == b))
			}})
			put(s.fresh.atY(b).at(a), &secret{sprint("B'(%d,%d)", a, b), vecNew(a, b), func(d *Proc) bool {
				return a >= 1 && b >= 1 && d.Com == newC && (int64(d.Slot+1) == a || int64(d.Slot+1) == b)
			}})
			for _, q := range qs {
				q := q
				put(q.g.atY(b).at(a), &secret{sprint("Q%d(%d,%d)", q.slot, a, b), vec(q.base, a, b), func(d *Proc) bool {
					return a >= 1 && b >= 1 && d.Com == newC && (int64(d.Slot+1) == a || int64(d.Slot+1) == b)
				}})
			}
		}
	}
	no := func(*Proc) bool { return false }
	unit := func(i int) poly {
		v := make(poly, dim)
		for k := range v {
			v[k] = new(big.Int)
		}
		v[i].SetInt64(1)
		return v
	}
	for a := 0; a <= F; a++ {
		for c := 0; c <= 2*F; c++ {
			put(coef(s.old[a], c), &secret{sprint("coefficient x^%d y^%d of B", a, c), unit(a*(2*F+1) + c), no})
			for _, q := range qs {
				put(coef(q.g[a], c), &secret{sprint("coefficient x^%d y^%d of Q%d", a, c, q.slot), unit(q.base + a*(2*F+1) + c), no})
			}
		}
	}
	// what hides the shares has to be random: coefficients that are not, are
	// the same or related in every execution
	seen := map[string]string{}
	random := func(who string, g grid, n *simrt.Node, need int) {
		for a := 0; a <= F; a++ {
			for c := 0; c <= 2*F; c++ {
				if a+c == 0 {
					continue // the secret, or zero
				}
				v := coef(g[a], c)
				if v.Sign() == 0 {
					w.viol("C18", "not-random", "coefficient x^%d y^%d of the polynomial of %s is zero", a, c, who)
				} else if o := seen[v.String()]; o != "" {
					w.viol("C18", "not-random", "coefficient x^%d y^%d of the polynomial of %s is that of %s again", a, c, who, o)
				}
				seen[v.String()] = who
			}
		}
		// nor may one of the rows that were chosen be another one's copy
		for a := 0; a <= F; a++ {
			for y := int64(1); y <= int64(2*F+1); y++ {
				v := g[a].at(y)
				if v.Sign() == 0 {
					w.viol("C18", "not-random", "coefficient x^%d of the row y=%d of %s is zero", a, y, who)
				} else if o := seen[v.String()]; o != "" {
					w.viol("C18", "not-random", "coefficient x^%d of the row y=%d of %s is that of %s again", a, y, who, o)
				}
				seen[v.String()] = who
			}
		}
		if n.Drawn < 32*need {
			w.viol("C18", "not-random", "%s took %d bytes of randomness for %d secret coefficients", who, n.Drawn, need)
		}
	}
	if p := w.Client; p != nil && p.honest() {
		random("the dealer", s.old, p.N, nb-1)
	}
	for _, q := range qs {
		random(q.p.Name, q.g, q.p.N, nb-1)
	}
	know, less := newSpan(dim), newSpan(dim)
	for _, q := range qs {
		know.add(vec(q.base, 0, 0)) // publicly known to be zero
		less.add(vec(q.base, 0, 0))
	}
	hits := 0
	for _, f := range s.frames {
		for o := 0; o+32 <= len(f.data); o++ {
			sec := table[string(f.data[o:o+32])]
			if sec == nil {
				continue
			}
			hits++
			if !sec.ok(f.dst) && f.src.honest() {
				w.viol("C18", "misdirected", "%s sent %s to %s in a %s message", f.src.Name, sec.name, f.dst.Name, f.typ)
			}
			if s.bad[f.dst] {
				know.add(sec.vec)
				if f.typ != "Reshare" {
					less.add(sec.vec)
				}
			}
		}
	}
	w.S.Count["secret-values-on-wire"] += hits
	var names []string
	for _, p := range w.procs() {
		if s.bad[p] {
			names = append(names, p.Name)
		}
	}
	// The rows Q_j(i,y) of all contributions together with B'(i,y) give a new
	// member the old share B(i,y); this known weakness has kinds of its own.
	aligned := true
	for _, p := range newC.Procs {
		if s.bad[p] && !s.bad[oldC.Procs[p.Slot]] {
			aligned = false
		}
	}
	if aligned {
		w.S.Count["secrecy-aligned"]++
	}
	kind := func(k string, v poly) string {
		if !aligned && !less.has(v) {
			return k + "-by-rows"
		}
		return k
	}
	if v := vec(0, 0, 0); know.has(v) {
		w.viol("C18", kind("secret", v), "what members %v received determines the secret", names)
	}
	for _, p := range newC.Procs {
		if v := vecNew(int64(p.Slot+1), 0); !s.bad[p] && know.has(v) {
			w.viol("C18", kind("share", v), "what members %v received determines the refreshed share of %s", names, p.Name)
		}
	}
}
