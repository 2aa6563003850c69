package main

import (
	"bufio"
	"crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt"
)

var scenarios = map[string]func(*Spec) *Result{
	"epoch": runEpoch,
	"rbc":   runRBC,
	"mvba":  runMVBA,

	"transport": runTransport,
	"vss":       runVSS,
	"node":      runNode,
}

// props maps a property to the generator of its executions.
var props = map[string]func(g *gen){}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C15", "C16", "C17", "C18"} {
		props[p] = (*gen).epochSpec
	}
	for p, x := range map[string]float64{"C15": 0.3, "C16": 0.15} {
		x := x
		props[p] = func(g *gen) {
			if g.Chance(x) {
				g.transportSpec()
			} else if g.sp.Prop == "C15" && g.Chance(0.25) {
				g.nodeSpec()
			} else if g.sp.Prop == "C16" && g.Chance(0.25) {
				// parts of the protocol with all members, much cheaper
				if g.Chance(0.6) {
					g.mvbaSpec()
				} else {
					g.rbcSpec()
				}
			} else {
				g.epochSpec()
			}
		}
	}
	props["C02"] = func(g *gen) {
		if g.Chance(0.12) {
			g.nodeSpec()
		} else {
			g.epochSpec()
		}
	}
	props["C04"] = func(g *gen) {
		if g.Chance(0.9) {
			g.vssSpec()
		} else {
			g.epochSpec()
		}
	}
	for _, p := range []string{"C08", "C09", "C11", "C12"} {
		props[p] = (*gen).mvbaSpec
	}
	props["C10"] = func(g *gen) {
		if g.Chance(0.5) {
			g.epochSpec()
		} else {
			g.mvbaSpec()
		}
	}
	props["C13"], props["C14"] = (*gen).transportSpec, (*gen).transportSpec
	props["C19"], props["C20"] = (*gen).nodeSpec, (*gen).nodeSpec
	props["C06"], props["C07"] = (*gen).rbcSpec, (*gen).rbcSpec
}

func makeSpec(prop string, seed uint64, idx int) *Spec {
	s := simrt.Mix(simrt.Mix(seed^simrt.HashStr(prop)) + uint64(idx))
	sp := &Spec{Prop: prop, Seed: s >> 12, F: 1, Crypto: 1}
	g := &gen{simrt.NewRand(s), sp}
	props[prop](g)
	g.conns()
	return sp
}

// conns gives one of the faulty members further connections.
func (g *gen) conns() {
	rate := 0.05
	if g.sp.Scen == "node" {
		return
	} else if g.sp.Prop == "C15" {
		rate = 0.15
	}
	var faulty []string
	for _, f := range g.sp.Faults {
		if faultyKind(f.Kind) && f.Kind != "twin" && f.Kind != "absent" {
			faulty = append(faulty, f.Node)
		}
	}
	if len(faulty) == 0 || !g.Chance(rate) {
		return
	}
	f := Fault{Kind: "conns", Node: faulty[g.Intn(len(faulty))], Len: []int{1, 3, 12, 80, 140}[g.Intn(5)], Mask: g.U64(), Seed: g.U64()}
	if f.Len > 12 {
		f.Mask = 1 << uint(g.Intn(3*g.sp.F+1))
	}
	g.sp.Faults = append(g.sp.Faults, f)
}

var runs int

// execute performs one execution.
func execute(sp *Spec) (r *Result) {
	f := scenarios[sp.Scen]
	if f == nil {
		fail("unknown scenario %q", sp.Scen)
	}
	r = f(sp)
	flushTrace()
	if c := simrt.Cur(); c != nil {
		c.End()
	}
	runs++
	if runs%4 == 0 || sp.opt("size") > 100000 {
		runtime.GC()
	}
	return r
}

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func loadSpec(name string) *Spec {
	b, err := os.ReadFile(name)
	if err != nil {
		fail("%v", err)
	}
	var sp Spec
	var wrap struct {
		Spec *Spec `json:"spec"`
	}
	if json.Unmarshal(b, &wrap) == nil && wrap.Spec != nil {
		return wrap.Spec
	}
	if err := json.Unmarshal(b, &sp); err != nil {
		fail("%v", err)
	}
	return &sp
}

type summary struct {
	Sum    bool           `json:"sum"`
	Runs   int            `json:"runs"`
	SimNs  int64          `json:"simns"`
	Steps  int            `json:"steps"`
	Frames int            `json:"frames"`
	Done   int            `json:"done"`
	Counts map[string]int `json:"counts"`
	With   map[string]int `json:"with"` // runs with at least one
	Orders []string       `json:"orders"`
	Digest []string       `json:"digests"`
	Nontr  []string       `json:"nontrivial"`
	Sample []any          `json:"samples"`
	Wall   float64        `json:"wall"`
	Scen   map[string]int `json:"scen"`
	Kinds  map[string]int `json:"kinds,omitempty"`
}

// reexec makes sure the Go runtime runs the way the simulator needs it.
func reexec() {
	want := map[string]string{"GOMAXPROCS": "1", "GOGC": "off", "GODEBUG": "asyncpreemptoff=1"}
	ok := true
	for k, v := range want {
		if os.Getenv(k) != v {
			ok = false
			os.Setenv(k, v)
		}
	}
	if ok {
		return
	}
	exe, err := os.Executable()
	if err == nil {
		err = syscall.Exec(exe, os.Args, os.Environ())
	}
	fail("exec: %v", err)
}

// deepRuns makes the generator choose large committees more often.
var deepRuns bool

func main() {
	reexec()
	rand.Reader = cryptoReader{}
	debug.SetMaxStack(1 << 26)
	if len(os.Args) < 2 {
		fail("usage: sim run|worker|gen|min ...")
	}
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "base seed")
	from := fs.Int("from", 0, "first run")
	stride := fs.Int("stride", 1, "stride")
	count := fs.Int("count", 1<<30, "number of runs")
	secs := fs.Float64("seconds", 60, "time")
	spec := fs.String("spec", "", "spec file")
	kind := fs.String("kind", "", "violation kind")
	verbose := fs.Bool("v", false, "verbose")
	maxv := fs.Int("maxv", 3, "distinct violations before stopping")
	allv := fs.Bool("allv", false, "report violations of all properties")
	prof := fs.String("prof", "", "write a CPU profile")
	known := fs.String("known", "", "kinds not to report, comma separated")
	fs.BoolVar(&deepRuns, "deep", false, "more of the large committees")
	fs.Parse(os.Args[2:])
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	emit := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			fail("%v", err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	switch os.Args[1] {
	case "gen":
		emit(makeSpec(*prop, *seed, *from))
	case "run":
		traceOn = *verbose
		sp := loadSpec(*spec)
		r := execute(sp)
		emit(r)
		if *verbose {
			for _, v := range r.Viol {
				fmt.Fprintln(os.Stderr, v.Prop, v.Kind, v.Detail)
			}
		}
	case "min":
		sp := loadSpec(*spec)
		emit(minimise(sp, *prop, *kind, time.Duration(*secs*1e9)))
	case "worker":
		if *prof != "" {
			f, _ := os.Create(*prof)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		skip := map[string]bool{}
		for _, k := range strings.Split(*known, ",") {
			skip[k] = true
		}
		t0 := time.Now()
		sum := summary{Sum: true, Counts: map[string]int{}, With: map[string]int{}, Scen: map[string]int{}, Kinds: map[string]int{}}
		orders, digests, nontr := map[string]bool{}, map[string]bool{}, map[string]bool{}
		kinds := map[string]bool{}
		for i := *from; sum.Runs < *count && time.Since(t0).Seconds() < *secs; i += *stride {
			sp := makeSpec(*prop, *seed, i)
			t1 := time.Now()
			if *verbose {
				b, _ := json.Marshal(sp)
				fmt.Fprintln(os.Stderr, i, string(b))
			}
			r := execute(sp)
			if *verbose {
				fmt.Fprintln(os.Stderr, i, "took", time.Since(t1), "steps", r.Steps, "done", r.Done, len(r.Viol))
			}
			sum.Runs++
			sum.SimNs += r.SimNs
			sum.Steps += r.Steps
			sum.Frames += r.Frames
			sum.Scen[sprint("%s F=%d", sp.Scen, sp.F)]++
			if r.Done {
				sum.Done++
			}
			for k, v := range r.Counts {
				sum.Counts[k] += v
				if v > 0 {
					sum.With[k]++
				}
			}
			orders[r.Order] = true
			digests[r.Digest] = true
			if r.Frames > 0 && (r.Counts["choices"] > 0 || len(sp.Faults) > 0) || r.NonTriv {
				nontr[r.Digest] = true
			}
			if len(sum.Sample) < 2 {
				sum.Sample = append(sum.Sample, map[string]any{"run": i, "spec": sp, "steps": r.Steps, "messages": r.Frames, "simulated_ms": r.SimNs / 1e6, "digest": r.Digest, "goal_reached": r.Done})
			}
			vs := r.of(*prop)
			if *allv {
				vs = r.Viol
			}
			for _, v := range vs {
				sum.Kinds[v.Prop+"/"+v.Kind]++
				if skip[v.Kind] || kinds[v.Prop+v.Kind] {
					continue
				}
				kinds[v.Prop+v.Kind] = true
				emit(map[string]any{"idx": i, "spec": sp, "viol": v, "digest": r.Digest})
			}
			if len(kinds) >= *maxv {
				break
			}
		}
		sum.Orders, sum.Digest, sum.Nontr = sortedKeys(orders), sortedKeys(digests), sortedKeys(nontr)
		sum.Wall = time.Since(t0).Seconds()
		emit(sum)
	default:
		fail("unknown mode %s", os.Args[1])
	}
}
