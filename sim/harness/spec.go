package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"verif.local/simrt"
)

// Rule says what a misbehaving member does to some of the frames it sends.
type Rule struct {
	Types []string `json:"t,omitempty"`   // message types; empty: all
	Dst   uint64   `json:"dst,omitempty"` // bit mask of destination slots; 0: all
	Com   int      `json:"com,omitempty"` // 1: own committee only, 2: next committee only
	From  int      `json:"from,omitempty"`
	To    int      `json:"to,omitempty"` // applies to the From-th up to the To-th matching frame; 0: no bound
	P     float64  `json:"p,omitempty"`  // probability; 0: always
	Act   string   `json:"act"`
	Arg   int      `json:"arg,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	Kind  string   `json:"k"`
	Node  string   `json:"n,omitempty"`
	Peer  string   `json:"p,omitempty"`
	Step  int      `json:"step,omitempty"`
	Len   int      `json:"len,omitempty"`
	Ms    int      `json:"ms,omitempty"` // how long it lasts at least, in simulated time
	Write int      `json:"write,omitempty"`
	Mode  int      `json:"mode,omitempty"`
	Seed  uint64   `json:"seed,omitempty"`
	Mask  uint64   `json:"mask,omitempty"`
	Rules []Rule   `json:"rules,omitempty"`
	Ops   []string `json:"ops,omitempty"`
}

// Spec is one execution, completely determined.
type Spec struct {
	Prop    string            `json:"prop"`
	Scen    string            `json:"scen"`
	Seed    uint64            `json:"seed"`
	F       int               `json:"f"`
	Crypto  uint64            `json:"crypto"`
	Strat   simrt.Strategy    `json:"strat"`
	Faults  []Fault           `json:"faults"`
	Epochs  int               `json:"epochs,omitempty"`
	One     bool              `json:"one,omitempty"`
	Window  int               `json:"window,omitempty"`
	Max     int               `json:"max,omitempty"`
	Opt     map[string]int    `json:"opt,omitempty"`
	UseDevs bool              `json:"usedevs,omitempty"`
	Devs    []simrt.Deviation `json:"devs,omitempty"`
}

func (sp *Spec) N() int { return 3*sp.F + 1 }

func (sp *Spec) clone() *Spec {
	b, _ := json.Marshal(sp)
	var c Spec
	json.Unmarshal(b, &c)
	return &c
}

func (sp *Spec) opt(k string) int { return sp.Opt[k] }

// Viol is one violation of a property.
type Viol struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// Result is what one execution showed.
type Result struct {
	Viol    []Viol         `json:"viol,omitempty"`
	Digest  string         `json:"digest"`
	Order   string         `json:"order"`
	Steps   int            `json:"steps"`
	SimNs   int64          `json:"simns"`
	Frames  int            `json:"frames"`
	Counts  map[string]int `json:"counts"`
	Done    bool           `json:"done"`
	NonTriv bool           `json:"-"` // worth counting although no message was exchanged
	Log     []string       `json:"log,omitempty"`
	devs    []simrt.Deviation
}

func (r *Result) of(prop string) []Viol {
	var v []Viol
	for _, x := range r.Viol {
		if x.Prop == prop {
			v = append(v, x)
		}
	}
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func sprint(f string, a ...any) string { return fmt.Sprintf(f, a...) }
