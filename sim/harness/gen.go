package main

import "verif.local/simrt"

// Generators: seed -> Spec.

type gen struct {
	*simrt.Rand
	sp *Spec
}

func (g *gen) in(a, b int) int { return a + g.Intn(b-a+1) }

func (g *gen) one(v ...string) string { return v[g.Intn(len(v))] }

// strategy draws a schedule; span is the typical number of steps of a run.
func (g *gen) strategy(span int) simrt.Strategy {
	var st simrt.Strategy
	switch k := g.Intn(20); {
	case k < 8:
		st.Kind = "random"
		st.NetW = []float64{0.05, 0.3, 1, 1, 4, 20}[g.Intn(6)]
	case k < 13:
		st.Kind = "pct"
		st.Changes = 1 + g.Intn(12)
		st.Horizon = span
	case k < 17:
		st.Kind = "burst"
		st.StallLen = []int{3, 20, 100, 400}[g.Intn(4)]
	default:
		st.Kind = "fifo"
	}
	if g.Chance(0.35) && st.Kind != "pct" {
		st.StallP = []float64{0.002, 0.01, 0.05}[g.Intn(3)]
		st.StallLen = []int{20, 200, span}[g.Intn(3)]
	}
	if g.Chance(0.25) && st.Kind != "pct" {
		st.SlowP = []float64{0.05, 0.15, 0.4}[g.Intn(3)]
		st.SlowLen = []int{30, 200, span / 2, span}[g.Intn(4)]
		st.SlowSalt = g.U64() % 100000
	}
	if g.Chance(0.45) {
		st.HotRate = []float64{0.01, 0.03, 0.1, 0.3}[g.Intn(4)]
		st.HotSalt = g.U64() % 1000
	}
	switch g.Intn(6) {
	case 0:
		st.Seg = 1
	case 1:
		st.Seg = 2
	}
	st.Cost = []int64{2000, 20000, 200000}[g.Intn(3)]
	return st
}

// member draws a member of committee k that is not yet used.
func (g *gen) member(k int, used map[string]bool) string {
	for {
		n := sprint("k%d.%d", k, g.Intn(g.sp.N()))
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

// benign adds faults that are not charged to anybody: delays, partitions
// that heal, slow processes.
func (g *gen) benign(span, coms int) {
	n := []int{0, 0, 1, 1, 2, 4}[g.Intn(6)]
	for ; n > 0; n-- {
		k := g.Intn(coms)
		a := sprint("k%d.%d", k, g.Intn(g.sp.N()))
		switch g.Intn(5) {
		case 0:
			g.sp.Faults = append(g.sp.Faults, Fault{Kind: "pause", Node: a, Step: g.Intn(span), Len: 1 + g.Intn(2*span)})
		case 1, 2:
			k2 := k
			if k2+1 < coms && g.Chance(0.4) {
				k2++
			}
			b := sprint("k%d.%d", k2, g.Intn(g.sp.N()))
			g.sp.Faults = append(g.sp.Faults, Fault{Kind: "link", Node: a, Peer: b, Step: g.Intn(span), Len: 1 + g.Intn(3*span)})
		case 3:
			g.sp.Faults = append(g.sp.Faults, Fault{Kind: "part", Step: g.Intn(span), Len: 1 + g.Intn(span), Mask: g.U64()})
		case 4:
			g.sp.Faults = append(g.sp.Faults, Fault{Kind: "slowcpu", Node: a, Step: g.Intn(span), Len: 1 + g.Intn(60), Write: 1 + g.Intn(5)})
		}
	}
	g.long(0.2)
	if g.Chance(0.15) {
		g.sp.Window = []int{600, 4096, 65536}[g.Intn(3)]
	}
}

// long makes some of the delays last for seconds or minutes of simulated time
// (the others are over as soon as nothing else can happen).
func (g *gen) long(p float64) {
	if g.sp.Scen == "node" {
		return // the programs wait for each other by the clock
	}
	for i := range g.sp.Faults {
		f := &g.sp.Faults[i]
		switch f.Kind {
		case "pause", "link", "part", "typestall":
			if f.Ms == 0 && g.Chance(p) {
				f.Ms = []int{1500, 6000, 25000, 70000, 200000}[g.Intn(5)]
			}
		}
	}
}

// typeStalls delays messages of some types on some links.
func (g *gen) typeStalls(types []string, span int) {
	for n := []int{0, 0, 1, 2, 3}[g.Intn(5)]; n > 0; n-- {
		f := Fault{Kind: "typestall", Step: g.in(span/4, 3*span), Len: g.in(span/8, 2*span), Mask: g.U64()}
		if g.Chance(0.6) {
			f.Node = sprint("k0.%d", g.Intn(g.sp.N()))
			if g.sp.Scen == "epoch" && !g.sp.One {
				f.Node = sprint("k%d.%d", 1+g.Intn(g.sp.Epochs), g.Intn(g.sp.N()))
			}
		}
		f.Rules = []Rule{{Types: []string{types[g.Intn(len(types))]}}}
		g.sp.Faults = append(g.sp.Faults, f)
	}
	g.long(0.3)
}

func (g *gen) crashFault(node string, steps, writes int) Fault {
	f := Fault{Kind: "crash", Node: node, Mode: g.Intn(4)}
	switch g.Intn(8) {
	case 0:
		f.Kind = "absent"
	case 1, 2, 3:
		f.Step = 1 + g.Intn(steps)
	default:
		f.Write = 1 + g.Intn(writes)
	}
	return f
}

var actsWire = []string{"drop", "dup", "hold", "replay", "swap", "mut", "mut", "mut", "mutdup", "junkdata", "nodata", "junktype", "junkid", "badsender",
	"junkframe", "emptyframe", "cut", "hugelen", "inject", "flood"}
var actsProto = []string{"drop", "drop", "dup", "dup", "hold", "replay", "swap", "mut", "mut", "mutdup", "strat", "strat", "strat", "inject"}

func (g *gen) rule(types, acts []string) Rule {
	r := Rule{Act: acts[g.Intn(len(acts))]}
	for n := []int{1, 1, 1, 2, 0}[g.Intn(5)]; n > 0; n-- {
		r.Types = append(r.Types, types[g.Intn(len(types))])
	}
	if g.Chance(0.5) {
		r.Dst = g.U64() & (1<<uint(g.sp.N()) - 1)
		if r.Dst == 0 {
			r.Dst = 1
		}
	}
	switch g.Intn(4) {
	case 0:
		r.From = g.Intn(12)
	case 1:
		r.To = 1 + g.Intn(4)
	case 2:
		r.P = 0.3
	}
	switch r.Act {
	case "dup":
		r.Arg = []int{1, 1, 2, 5}[g.Intn(4)]
	case "hold":
		r.Arg = []int{2, 10, 40}[g.Intn(3)]
	case "mut":
		r.Arg = 1 + g.Intn(2)
	case "inject":
		r.Arg = g.Intn(6)
	case "flood":
		r.To = 1 + g.Intn(3)
		r.P = 0
	case "cut", "hugelen", "replay", "swap", "mutdup", "junktype", "badsender":
		r.Arg = g.Intn(3)
	case "strat":
		r.Arg = g.Intn(8)
		if g.Chance(0.6) {
			r.From, r.To, r.P, r.Dst = 0, 0, 0, 0
		}
	}
	return r
}

func (g *gen) byzFault(node string, types, acts []string) Fault {
	f := Fault{Kind: "byz", Node: node, Seed: g.U64() % 100000}
	for n := 1 + g.Intn(3); n > 0; n-- {
		f.Rules = append(f.Rules, g.rule(types, acts))
	}
	return f
}

func (g *gen) twinFault(node string, types, acts []string) Fault {
	f := Fault{Kind: "twin", Node: node, Seed: g.U64() % 100000, Mask: g.U64() & (1<<uint(g.sp.N()) - 1)}
	if g.Chance(0.2) {
		f.Mode = 1 // both copies talk to everybody
	}
	for n := []int{0, 0, 1, 2}[g.Intn(4)]; n > 0; n-- {
		f.Rules = append(f.Rules, g.rule(types, acts))
	}
	return f
}

var typesOld = []string{"Prepare", "ShareReduce"}
var typesNew = []string{"RBCPropose", "RBCEcho", "RBCReady", "Reshare", "Recover", "ShareDist", "Success", "Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote"}

var typesHandoff = []string{"RBCPropose", "RBCPropose", "Reshare", "Reshare", "Recover", "Recover", "ShareDist", "ShareDist", "RBCEcho", "RBCReady", "Value"}

func (g *gen) epochSpec() {
	sp := g.sp
	sp.Scen = "epoch"
	sp.F = 1
	if g.Chance(0.12) {
		sp.F = 2
	}
	if deepRuns {
		sp.F = []int{1, 1, 1, 1, 1, 1, 2, 2, 2, 3}[g.Intn(10)]
		if sp.F == 3 && g.Chance(0.5) {
			sp.F = 4
		}
	}
	sp.Epochs = 1
	switch sp.Prop {
	case "C17":
		sp.Epochs = 2
		if sp.F == 1 && g.Chance(0.2) {
			sp.Epochs = 3
		}
		sp.One = g.Chance(0.35)
	case "C01", "C02", "C03", "C10":
		if g.Chance(0.12) {
			sp.One = true
			if g.Chance(0.3) {
				sp.Epochs = 2
			}
		}
	}
	if sp.F > 1 && sp.Epochs > 1 {
		sp.F = 1
	}
	sp.Crypto = 1 + g.U64()%2
	span := 2500 * sp.F * sp.F * sp.F * sp.Epochs
	sp.Strat = g.strategy(span)
	coms := sp.Epochs + 1
	if sp.One {
		coms = 1
	}
	g.benign(span, coms)
	if g.Chance(0.3) {
		g.typeStalls(typesNew, span)
	}
	steps, writes := 60*sp.F*sp.F, 60*sp.F*sp.F
	byz, crash := 0.6, 0.25
	types, acts := typesNew, actsProto
	typesO := typesOld
	switch sp.Prop {
	case "C15":
		byz, crash = 0, 0.95
	case "C16":
		byz, crash = 0.97, 0.03
		acts = actsWire
		typesO = []string{"Prepare", "ShareReduce"}
	case "C05":
		byz = 0.7
		acts = append(append([]string(nil), actsProto...), "swap", "dup", "replay", "mutdup", "flood")
	case "C04":
		byz, crash = 0.3, 0.3
	case "C01", "C03", "C17", "C10":
		byz, crash = 0.65, 0.2
		types = typesHandoff
	case "C18":
		byz, crash = 0.2, 0.1
	}
	if sp.Prop == "C10" {
		types = []string{"Value", "Value", "Recover", "Finish", "Halt", "PreVote", "Vote"}
	}
	for k := 0; k < coms; k++ {
		used := map[string]bool{}
		for n := 0; n < sp.F; n++ {
			x := g.Float()
			m := ""
			if x < byz+crash {
				m = g.member(k, used)
			}
			last := k == coms-1
			t := types
			if k == 0 && !sp.One {
				t = typesO
			} else if !last {
				t = append(append([]string(nil), types...), typesO...)
			}
			switch {
			case x < byz*0.15 && k > 0:
				sp.Faults = append(sp.Faults, g.twinFault(m, t, acts))
			case x < byz:
				sp.Faults = append(sp.Faults, g.byzFault(m, t, acts))
			case x < byz+crash:
				if sp.Prop == "C15" && g.Chance(0.2) {
					sp.Faults = append(sp.Faults, Fault{Kind: "reset", Node: m, Step: g.Intn(span)})
				} else {
					sp.Faults = append(sp.Faults, g.crashFault(m, steps, writes))
				}
			}
		}
	}
	if pr := map[string]float64{"C10": 0.5, "C03": 0.08, "C01": 0.04}[sp.Prop]; pr > 0 && g.Chance(pr) {
		// a member that proposes a contributor set that must not be accepted
		r := Rule{Act: "strat", Types: []string{"Value"}, Arg: g.Intn(8)}
		for i := range sp.Faults {
			if sp.Faults[i].Kind == "byz" {
				sp.Faults[i].Rules = []Rule{r}
			}
		}
	} else if g.Chance(0.3) && len(sp.Faults) > 0 && sp.Prop != "C15" {
		// focused runs: all of one kind of attack at once
		r := g.rule(types, []string{"strat"})
		r.Types = nil
		for i := range sp.Faults {
			if sp.Faults[i].Kind == "byz" {
				sp.Faults[i].Rules = []Rule{r}
			}
		}
	}
}
