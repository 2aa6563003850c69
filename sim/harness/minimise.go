package main

import (
	"time"

	"verif.local/simrt"
)

// minimise reduces the faults and the schedule of a failing execution while
// the violation of the same kind remains. First the fault list, then the
// schedule: the execution is replayed as a list of deviations from the
// first-in-first-out order, which is then thinned out.
func minimise(sp *Spec, prop, kind string, limit time.Duration) map[string]any {
	t0 := time.Now()
	tries := 0
	best := sp.clone()
	var res *Result
	fails := func(x *Spec) bool {
		if time.Since(t0) > limit {
			return false
		}
		tries++
		r := execute(x.clone())
		for _, v := range r.of(prop) {
			if v.Kind == kind {
				res = r
				return true
			}
		}
		return false
	}
	if !fails(best) {
		return map[string]any{"spec": sp, "ok": false, "tries": tries}
	}
	bestRes := res
	try := func(f func(x *Spec)) bool {
		x := best.clone()
		f(x)
		if fails(x) {
			best, bestRes = x, res
			return true
		}
		return false
	}
	reduceFaults := func() {
		for again := true; again; {
			again = false
			for i := 0; i < len(best.Faults); {
				if try(func(x *Spec) { x.Faults = append(x.Faults[:i:i], x.Faults[i+1:]...) }) {
					again = true
					continue
				}
				for j := 0; j < len(best.Faults[i].Rules); {
					if try(func(x *Spec) {
						f := &x.Faults[i]
						f.Rules = append(f.Rules[:j:j], f.Rules[j+1:]...)
					}) {
						again = true
						continue
					}
					for k := 0; k < len(best.Faults[i].Rules[j].Types) && len(best.Faults[i].Rules[j].Types) > 1; {
						if !try(func(x *Spec) {
							r := &x.Faults[i].Rules[j]
							r.Types = append(r.Types[:k:k], r.Types[k+1:]...)
						}) {
							k++
						}
					}
					j++
				}
				if ops := best.Faults[i].Ops; len(ops) > 0 {
					for j := 0; j < len(best.Faults[i].Ops); {
						if !try(func(x *Spec) {
							f := &x.Faults[i]
							f.Ops = append(f.Ops[:j:j], f.Ops[j+1:]...)
						}) {
							j++
						}
					}
				}
				i++
			}
		}
	}
	reduceFaults()
	// simpler schedules
	if best.Window != 0 {
		try(func(x *Spec) { x.Window = 0 })
	}
	if best.Epochs > 1 {
		try(func(x *Spec) { x.Epochs-- })
	}
	if best.F > 1 {
		try(func(x *Spec) { x.F = 1 })
	}
	try(func(x *Spec) { x.Strat.Seg = 0 })
	try(func(x *Spec) { x.Strat.StallP = 0 })
	try(func(x *Spec) { x.Strat.SlowP = 0 })
	try(func(x *Spec) { x.Strat.HotRate = 0 })
	if !best.UseDevs && try(func(x *Spec) { x.Strat = simrt.Strategy{Kind: "fifo", Cost: x.Strat.Cost} }) {
		reduceFaults()
	}
	// the schedule as deviations from the first-in-first-out order
	devs := bestRes.devs
	if try(func(x *Spec) {
		x.UseDevs, x.Devs = true, devs
	}) {
		n := 2
		for len(best.Devs) > 0 && time.Since(t0) < limit {
			d := best.Devs
			chunk := (len(d) + n - 1) / n
			hit := false
			for at := 0; at < len(d); at += chunk {
				end := at + chunk
				if end > len(d) {
					end = len(d)
				}
				if try(func(x *Spec) {
					x.Devs = append(append([]simrt.Deviation(nil), d[:at]...), d[end:]...)
				}) {
					hit = true
					break
				}
			}
			if hit {
				if n > 2 {
					n--
				}
				continue
			}
			if chunk == 1 {
				break
			}
			n *= 2
			if n > len(d) {
				n = len(d)
			}
		}
		reduceFaults()
	}
	var v Viol
	for _, x := range bestRes.of(prop) {
		if x.Kind == kind {
			v = x
		}
	}
	return map[string]any{"ok": true, "spec": best, "viol": v, "digest": bestRes.Digest, "steps": bestRes.Steps, "tries": tries}
}
