// Package simrt is the deterministic simulator: it owns the choice of which
// task runs, the clock, the network, the disks and the faults. The code under
// test runs on real goroutines of the real Go runtime, one at a time; the
// (overlaid) runtime hands every decision about them to Sim.Run.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
)

// Site is a source position at which a scheduling point was inserted.
type Site struct {
	File string
	Line int
	Kind string
}

var hot [NumSites + 1]bool
var loopN int
var cur *Sim      // the running simulation
var stepYield int // 0 none, 1 hot statement, 2 loop

const loopQuota = 300

// Y is called before every statement of the instrumented packages.
func Y(site int) {
	if hot[site] {
		if id, _ := rtSelf(); id != 0 {
			stepYield = 1
			cur.Hot++
			rtYield()
		}
	}
}

// L is called at the head of every loop iteration of the instrumented packages.
func L(site int) {
	loopN++
	if loopN > loopQuota || hot[site] {
		if id, _ := rtSelf(); id != 0 {
			if loopN > loopQuota {
				stepYield = 2
			} else {
				stepYield = 1
				cur.Hot++
			}
			loopN = 0
			rtYield()
			return
		}
		loopN = 0
	}
}

// Task is one goroutine of the code under test.
type Task struct {
	g     uintptr
	ID    uint64
	Node  int32
	pc    uintptr
	state int // 1 runnable, 2 blocked, 0 gone
	spins int
	since int // step at which it became runnable
	steps int
	stall int // not before this step
	slow  int // 1: of a slow kind, 2: not
}

// Fn names the function the task was started with.
func (t *Task) Fn() string {
	f := runtime.FuncForPC(t.pc)
	if f == nil {
		return "?"
	}
	n := f.Name()
	return n[strings.LastIndex(n, "/")+1:]
}

// ExitKind says how a node's process ended.
type ExitKind int

const (
	Running ExitKind = iota
	ExitReturn
	ExitFatal  // log.Fatal*
	ExitOS     // os.Exit
	ExitPanic  // unrecovered panic
	ExitThrow  // fatal error of the runtime
	ExitKilled // crash injected by the simulator
)

func (k ExitKind) String() string {
	return [...]string{"running", "return", "log.Fatal", "os.Exit", "panic", "fatal error", "killed"}[k]
}

// Node is one simulated process.
type Node struct {
	ID        int32
	Name      string
	IP        string
	Faulty    bool // may misbehave: not judged
	Dead      bool
	Exit      ExitKind
	Msg       string
	Stack     []string
	AtStep    int
	Steps     int
	Writes    int // network writes so far
	Skew      int64
	Args      []string
	Flags     any
	FS        *FS
	Log       []string
	Stdout    int
	LogOut    any
	rnd       *Rand
	Drawn     int                       // bytes of randomness the process asked for
	killAt    struct{ step, write int } // 0: never
	pause     int                       // paused until this step
	pauseT    int64                     // and until this simulated time
	mains     int
	acceptErr int
	OnExit    func()
	Filter    func(p *Pipe, frame []byte) [][]byte // rewrites outgoing frames (misbehaving nodes)
	Twin      bool                                 // one of several processes behind one address
	Mode      CrashMode
}

// Rnd is the node's stream of "cryptographic" randomness.
func (n *Node) Rnd() *Rand { return n.rnd }

// Strategy selects how the next event is chosen.
type Strategy struct {
	Kind     string  `json:"kind"`           // fifo, random, pct, burst
	HotRate  float64 `json:"hot,omitempty"`  // share of sites that are scheduling points
	HotSalt  uint64  `json:"salt,omitempty"` // which sites
	NetW     float64 `json:"netw,omitempty"` // weight of a deliverable link against a task
	Changes  int     `json:"changes,omitempty"`
	Horizon  int     `json:"horizon,omitempty"` // steps over which pct change points are spread
	StallP   float64 `json:"stallp,omitempty"`  // chance per step to stall a random entity
	StallLen int     `json:"stalllen,omitempty"`
	SlowP    float64 `json:"slowp,omitempty"`    // share of the kinds of tasks that are slow
	SlowLen  int     `json:"slowlen,omitempty"`  // for up to this many steps each time they could go on
	SlowSalt uint64  `json:"slowsalt,omitempty"` // which kinds; even: at all nodes alike
	Seg      int     `json:"seg,omitempty"`      // 0 whole writes, 1 random, 2 tiny
	Cost     int64   `json:"cost,omitempty"`     // mean simulated ns per step
}

// Deviation is a recorded choice other than the first candidate.
type Deviation struct {
	Step int    `json:"s"`
	Ent  string `json:"e"`
}

// Sim is one simulated execution.
type Sim struct {
	Seed     uint64
	Strat    Strategy
	Now      int64
	Step     int
	MaxSteps int
	Hot      int
	Nodes    []*Node
	rng      *Rand // scheduling and fault choices
	aux      *Rand // segmentation and timing choices

	tasks     map[uintptr]*Task
	runq      []*Task
	links     []*Pipe // all pipes
	aged      []*Pipe // the same by age
	ready     []*Pipe
	late      []*timer
	idleJumps int // timers waited for since bytes were delivered
	listeners map[string][]*Listener
	timers    []*timer
	holds     []int64 // ends of the holds that are given by time
	tseq      int
	spawnSeq  map[string]int

	Replay   map[int]string // forced choices (replay mode) or nil
	UseFIFO  bool           // replay mode: unforced choices take the first candidate
	Record   bool
	OnLog    func(n *Node, s string)
	Devs     []Deviation
	Choices  int
	Digest   uint64
	Trace    func(string)
	OnFrame  func(p *Pipe, frame []byte) // tap on complete frames leaving a node
	OnRaw    func(p *Pipe, frame []byte) // the same before a misbehaving node's filter
	OnRecv   func(p *Pipe, frame []byte) // a complete frame was read by the receiving program
	Count    map[string]int
	pct      map[string]uint64
	changeAt map[int]bool
	burst    int32
	burstN   int
	low      uint64

	StuckSpin  bool
	SpinMax    int // steps a task may only loop, with nothing else enabled (0: 200)
	spinSteps  int
	heapSteps  int
	noStall    bool
	OutOfSteps bool
	MaxTime    int64 // simulated ns after which Run gives up
	OutOfTime  bool
	AfterStep  func()
	LinkStall  map[string]int   // "src>dst": not delivered before this step
	LinkUntil  map[string]int64 // "src>dst": not delivered before this simulated time
	LinkHold   func(src, dst *Node) bool
	Frames     int
	Bytes      int64
	pending    []pend
	TimerJumps int
	Window     int // bytes a connection buffers before writes block; 0 unlimited
	DialFail   func(n *Node, addr string) error
}

type pend struct {
	step int
	f    func()
}

// New prepares a simulation; the calling goroutine becomes its controller.
func New(seed uint64, st Strategy) *Sim {
	if st.Cost == 0 {
		st.Cost = 20000
	}
	if st.NetW == 0 {
		st.NetW = 1
	}
	s := &Sim{Seed: seed, Strat: st, rng: NewRand(seed), aux: NewRand(seed ^ 0xabcdef), tasks: map[uintptr]*Task{},
		listeners: map[string][]*Listener{}, spawnSeq: map[string]int{}, Count: map[string]int{},
		MaxSteps: 400000, pct: map[string]uint64{}, LinkStall: map[string]int{}, LinkUntil: map[string]int64{}, burst: -1}
	cur = s
	rtInit(seed)
	rtSetNow(0)
	for i := range hot {
		hot[i] = false
		if st.HotRate > 0 {
			hot[i] = float64(Mix(st.HotSalt^Mix(uint64(i)+77))>>11)/(1<<53) < st.HotRate
		}
	}
	if st.Kind == "pct" {
		s.changeAt = map[int]bool{}
		h := st.Horizon
		if h == 0 {
			h = 3000
		}
		for i := 0; i < st.Changes; i++ {
			s.changeAt[s.rng.Intn(h)] = true
		}
	}
	return s
}

// Cur returns the running simulation.
func Cur() *Sim { return cur }

// HotOnly makes exactly the named files' sites (file:line or file) hot.
func HotOnly(match func(Site) bool) {
	for i := range SiteTable {
		hot[i] = match(SiteTable[i])
	}
}

// AddNode creates a process; its randomness depends only on its name and cryptoSeed.
func (s *Sim) AddNode(name, ip string, cryptoSeed uint64) *Node {
	n := &Node{ID: int32(len(s.Nodes)), Name: name, IP: ip, rnd: NewRand(cryptoSeed ^ HashStr(name))}
	s.Nodes = append(s.Nodes, n)
	return n
}

// CurNode is the process the calling task belongs to, or nil outside tasks.
func CurNode() *Node {
	id, nd := rtSelf()
	if id == 0 || cur == nil {
		return nil
	}
	return cur.Nodes[nd]
}

// Go starts a task of node n. Only the controller may call it.
func (s *Sim) Go(n *Node, name string, f func()) {
	k := n.Name + "/" + name
	s.spawnSeq[k]++
	id := HashStr(fmt.Sprintf("%s#%d", k, s.spawnSeq[k]))
	rtSpawn(id, n.ID)
	go f()
	rtSpawn(0, 0)
	s.drain()
}

// GoMain starts a task whose return means the process ended normally.
func (s *Sim) GoMain(n *Node, f func()) {
	s.Go(n, "main", func() {
		f()
		s.exit(n, ExitReturn, "", nil)
	})
}

func (s *Sim) drain() {
	for {
		g, id, nd, pc := rtPop()
		if g == 0 {
			return
		}
		t := s.tasks[g]
		if t == nil || t.ID != id {
			t = &Task{g: g, ID: id, Node: nd, pc: pc}
			s.tasks[g] = t
		}
		t.state = 1
		t.since = s.Step
		if s.Nodes[nd].Dead {
			continue
		}
		if s.Strat.SlowP > 0 && !s.UseFIFO && s.isSlow(t) {
			t.stall = s.Step + 1 + s.rng.Intn(1+s.Strat.SlowLen)
			s.Count["slow-task"]++
		}
		s.runq = append(s.runq, t)
	}
}

// isSlow tells whether a task is of a kind the strategy makes slow: all the
// tasks started with one function, at one node or at all of them.
func (s *Sim) isSlow(t *Task) bool {
	if t.slow == 0 {
		k := HashStr(t.Fn()) ^ Mix(s.Strat.SlowSalt)
		if s.Strat.SlowSalt%2 == 1 {
			k ^= Mix(uint64(t.Node) + 1)
		}
		t.slow = 2
		if float64(Mix(k)>>11)/(1<<53) < s.Strat.SlowP {
			t.slow = 1
		}
	}
	return t.slow == 1
}

// exit marks a process as ended; its tasks never run again.
func (s *Sim) exit(n *Node, k ExitKind, msg string, stack []string) {
	if n.Dead {
		return
	}
	n.Dead, n.Exit, n.Msg, n.Stack, n.AtStep = true, k, msg, stack, s.Step
	s.closeAll(n, k)
	for i := 0; i < len(s.runq); {
		if s.runq[i].Node == n.ID {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			continue
		}
		i++
	}
	if n.OnExit != nil {
		n.OnExit()
	}
}

// Kill crashes a process at once.
func (s *Sim) Kill(n *Node) {
	if !n.Dead {
		s.Count["crash"]++
		s.exit(n, ExitKilled, "killed by the simulator", nil)
	}
}

// KillAt arms a crash after the node's k-th task step or w-th network write (0: unused).
func (n *Node) KillAt(step, write int) { n.killAt.step, n.killAt.write = step, write }

// Pause keeps a node from running before the given step.
func (s *Sim) Pause(n *Node, until int) { n.pause = until }

// PauseTime stops the node until a moment of simulated time.
func (s *Sim) PauseTime(n *Node, until int64) {
	n.pauseT = until
	s.holds = append(s.holds, until)
}

// HoldLink delivers nothing from src to dst before a moment of simulated time.
func (s *Sim) HoldLink(name string, until int64) {
	if s.LinkUntil[name] < until {
		s.LinkUntil[name] = until
	}
	s.holds = append(s.holds, until)
}

// At runs f in the controller once the given step is reached.
func (s *Sim) At(step int, f func()) {
	s.pending = append(s.pending, pend{step, f})
	sort.SliceStable(s.pending, func(i, j int) bool { return s.pending[i].step < s.pending[j].step })
}

// Die ends the calling task's process (log.Fatal, os.Exit).
func Die(k ExitKind, msg string) {
	n := CurNode()
	if n == nil {
		panic("simrt: " + k.String() + " outside the simulation: " + msg)
	}
	pcs := make([]uintptr, 32)
	pcs = pcs[:runtime.Callers(3, pcs)]
	cur.exit(n, k, msg, frames(pcs))
	for {
		Block()
	}
}

// Block parks the calling task until Wake is called on the returned waiter... it never is.
func Block() { <-make(chan struct{}) }

func frames(pcs []uintptr) []string {
	var r []string
	fr := runtime.CallersFrames(pcs)
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.HasPrefix(f.Function, "runtime.") {
			fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
			file := f.File[strings.LastIndex(f.File, "/")+1:]
			r = append(r, fmt.Sprintf("%s (%s:%d)", fn, file, f.Line))
		}
		if !more || len(r) > 12 {
			return r
		}
	}
}

type entity struct {
	kind int // 0 task, 1 pipe, 2 timer
	t    *Task
	p    *Pipe
	tm   *timer
	age  int
}

func (e *entity) name() string {
	switch e.kind {
	case 0:
		return fmt.Sprintf("t%x", e.t.ID)
	case 1:
		return e.p.Name
	}
	return fmt.Sprintf("T%x.%d", e.tm.owner, e.tm.seq)
}

func (e *entity) key() uint64 {
	switch e.kind {
	case 0:
		return e.t.ID
	case 1:
		return e.p.key
	}
	return e.tm.owner + uint64(e.tm.seq)
}

// byAge keeps the links ordered by the time of their first waiting bytes.
// Few change between two steps.
func (s *Sim) byAge() []*Pipe {
	if len(s.aged) != len(s.links) {
		s.aged = append(s.aged[:0], s.links...)
		for i, p := range s.links {
			p.ord = i
		}
	}
	l := s.aged
	for i := 1; i < len(l); i++ {
		p := l[i]
		j := i
		for ; j > 0 && (p.since < l[j-1].since || p.since == l[j-1].since && p.ord < l[j-1].ord); j-- {
			l[j] = l[j-1]
		}
		l[j] = p
	}
	return l
}

// candidates lists everything that can happen next, oldest first.
func (s *Sim) candidates(buf []entity, all bool) []entity {
	buf = buf[:0]
	late := s.late[:0] // timers
	for _, t := range s.timers {
		if t.when <= s.Now {
			i := len(late)
			late = append(late, t)
			for ; i > 0 && late[i-1].since > t.since; i-- {
				late[i] = late[i-1]
			}
			late[i] = t
		}
	}
	s.late = late
	links := s.ready[:0]
	for _, p := range s.byAge() {
		if s.canDeliver(p, all) {
			links = append(links, p)
		}
	}
	s.ready = links
	li, ti := 0, 0
	// those older than a
	flush := func(a int) {
		for {
			l := li < len(links) && links[li].since < a
			t := ti < len(late) && late[ti].since < a
			switch {
			case l && (!t || links[li].since <= late[ti].since):
				buf = append(buf, entity{kind: 1, p: links[li], age: links[li].since})
				li++
			case t:
				buf = append(buf, entity{kind: 2, tm: late[ti], age: late[ti].since})
				ti++
			default:
				return
			}
		}
	}
	for _, t := range s.runq {
		n := s.Nodes[t.Node]
		if n.pauseT > s.Now {
			continue
		}
		if !all && (n.pause > s.Step || (t.stall > s.Step && !s.noStall)) {
			continue
		}
		if t.spins > 5 && !all {
			continue
		}
		flush(t.since)
		buf = append(buf, entity{kind: 0, t: t, age: t.since})
	}
	flush(1 << 62)
	return buf
}

func (s *Sim) canDeliver(p *Pipe, all bool) bool {
	if !p.deliverable() || len(s.holds) > 0 && s.LinkUntil[p.Name] > s.Now {
		return false
	}
	return all || !(p.stall > s.Step && !s.noStall || len(s.LinkStall) > 0 && s.LinkStall[p.Name] > s.Step ||
		s.LinkHold != nil && s.LinkHold(p.Src, p.Dst))
}

func (s *Sim) pick(c []entity) int {
	if s.UseFIFO {
		if w, ok := s.Replay[s.Step]; ok {
			for i := range c {
				if c[i].name() == w {
					return i
				}
			}
		}
		return 0
	}
	if len(c) == 1 {
		return 0
	}
	s.Choices++
	switch s.Strat.Kind {
	case "fifo":
		return 0
	case "random":
		tot := 0.0
		for i := range c {
			if c[i].kind == 1 {
				tot += s.Strat.NetW
			} else {
				tot++
			}
		}
		x := s.rng.Float() * tot
		for i := range c {
			w := 1.0
			if c[i].kind == 1 {
				w = s.Strat.NetW
			}
			if x < w {
				return i
			}
			x -= w
		}
		return len(c) - 1
	case "pct":
		best, bi := uint64(0), 0
		for i := range c {
			pr := s.prio(&c[i])
			if i == 0 || pr > best {
				best, bi = pr, i
			}
		}
		if s.changeAt[s.Step] {
			s.low++
			s.pct[c[bi].name()] = 1<<20 - s.low
		}
		return bi
	case "burst":
		// stay with one node for a while: others are slow meanwhile
		var same []int
		for i := range c {
			if c[i].node() == s.burst {
				same = append(same, i)
			}
		}
		if len(same) == 0 || s.burstN <= 0 {
			i := s.rng.Intn(len(c))
			s.burst = c[i].node()
			s.burstN = 1 + s.rng.Intn(1+s.Strat.StallLen)
			return i
		}
		s.burstN--
		return same[s.rng.Intn(len(same))]
	}
	return 0
}

func (e *entity) node() int32 {
	switch e.kind {
	case 0:
		return e.t.Node
	case 1:
		return e.p.Dst.ID
	}
	return e.tm.node
}

func (s *Sim) prio(e *entity) uint64 {
	if len(s.pct) > 0 {
		if p, ok := s.pct[e.name()]; ok {
			return p
		}
	}
	h := Mix(e.key() ^ s.Seed)
	return h>>1 + 1<<21
}

// Run drives the simulation until stop returns true, nothing can happen any
// more, or the step budget is exhausted. It reports whether stop was reached.
func (s *Sim) Run(stop func() bool) bool {
	var buf, all []entity
	for {
		s.drain()
		if stop != nil && stop() {
			return true
		}
		if s.Step >= s.MaxSteps {
			s.OutOfSteps = true
			return false
		}
		if s.MaxTime > 0 && s.Now > s.MaxTime {
			s.OutOfTime = true
			return false
		}
		for len(s.pending) > 0 && s.pending[0].step <= s.Step {
			f := s.pending[0].f
			s.pending = s.pending[1:]
			f()
			s.drain()
		}
		buf = s.candidates(buf, false)
		if len(buf) == 0 {
			// anything held back? then release it rather than deadlock
			if !s.idle(&buf) {
				return stop != nil && stop()
			}
			if len(buf) == 0 {
				continue
			}
		}
		if s.Strat.StallP > 0 && !s.UseFIFO && len(buf) > 1 && s.rng.Chance(s.Strat.StallP) {
			e := &buf[s.rng.Intn(len(buf))]
			d := s.Step + 1 + s.rng.Intn(1+s.Strat.StallLen)
			switch e.kind {
			case 0:
				e.t.stall = d
			case 1:
				e.p.stall = d
			}
			s.Count["stall"]++
			buf = s.candidates(buf, false)
			if len(buf) == 0 {
				buf = s.candidates(buf, true)
			}
		}
		i := s.pick(buf)
		e := buf[i]
		if s.Record {
			s.noStall = true
			all = s.candidates(all, false)
			s.noStall = false
			if len(all) == 0 || all[0].name() != e.name() {
				s.Devs = append(s.Devs, Deviation{s.Step, e.name()})
			}
		}
		s.exec(e)
		s.Step++
		s.Now += s.Strat.Cost/2 + int64(s.aux.U64()%uint64(s.Strat.Cost))
		rtSetNow(s.Now)
		if s.AfterStep != nil {
			s.AfterStep()
		}
	}
}

// idle is called when no candidate is enabled. It lets time pass to the next
// timer or to the end of a stall; false means the system is quiescent.
func (s *Sim) idle(buf *[]entity) bool {
	*buf = s.candidates(*buf, true)
	nonspin := (*buf)[:0:0]
	for _, e := range *buf {
		if e.kind != 0 || e.t.spins <= 5 {
			nonspin = append(nonspin, e)
		}
	}
	if len(nonspin) > 0 {
		// the stalls are over
		s.Count["stall-release"]++
		*buf = nonspin
		return true
	}
	// spinning tasks get a turn now and then; they may be waiting for time
	var spin []entity
	min := 1 << 30
	for _, e := range *buf {
		if e.t.spins < min {
			min = e.t.spins
		}
	}
	w := int64(-1)
	for _, t := range s.timers {
		if w < 0 || t.when < w {
			w = t.when
		}
	}
	for _, h := range s.holds {
		if h > s.Now && (w < 0 || h < w) {
			w = h
		}
	}
	if s.idleJumps++; s.idleJumps > 100 && len(s.pending) > 0 {
		// somebody tries again and again; what is to happen at a later step
		// must not wait for that
		s.idleJumps = 0
		s.Step = s.pending[0].step
		*buf = (*buf)[:0]
		return true
	}
	if w >= 0 {
		if w > s.Now {
			s.Now = w
			s.TimerJumps++
			rtSetNow(s.Now)
		}
		*buf = s.candidates(*buf, false)
		return true
	}
	if len(s.pending) > 0 {
		s.Step = s.pending[0].step
		*buf = (*buf)[:0]
		return true
	}
	max := s.SpinMax
	if max == 0 {
		max = 200
	}
	for _, e := range *buf {
		if e.t.spins < max {
			spin = append(spin, e)
		}
	}
	if len(spin) == 0 {
		s.StuckSpin = len(*buf) > 0
		return false
	}
	*buf = spin
	return true
}

// heapSample and heapLimit: the collector runs only when it is told to (GOGC=off), between executions, and
// inside one that has allocated more than heapLimit bytes since the last collection.
var (
	heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	heapLimit  = uint64(1 << 30)
)

func collectIfLarge() {
	metrics.Read(heapSample)
	if heapSample[0].Value.Uint64() < heapLimit {
		return
	}
	runtime.GC()
	metrics.Read(heapSample)
	heapLimit = heapSample[0].Value.Uint64() + 1<<30
}

func (s *Sim) exec(e entity) {
	switch e.kind {
	case 0:
		t := e.t
		for i, x := range s.runq {
			if x == t {
				s.runq = append(s.runq[:i], s.runq[i+1:]...)
				break
			}
		}
		n := s.Nodes[t.Node]
		n.Steps++
		t.steps++
		if s.heapSteps++; s.heapSteps%256 == 0 {
			collectIfLarge()
		}
		loopN, stepYield = 0, 0
		st := rtStep(t.g)
		t.state = st
		if s.Trace != nil {
			s.Trace(fmt.Sprintf("%d %s task %x %s -> %d %s", s.Step, n.Name, t.ID, t.Fn(), st, rtWaitReason(t.g)))
		}
		s.Digest = Mix(s.Digest ^ t.ID ^ uint64(st)<<56)
		switch {
		case st == 0:
			delete(s.tasks, t.g)
		case st == 1 && stepYield == 2:
			t.spins++
			if s.spinSteps++; s.spinSteps%2000 == 0 {
				runtime.GC() // a long computation
			}
		default:
			t.spins = 0
		}
		if g, kind, msg, pcs := rtPanicked(); g != 0 {
			k := ExitPanic
			if kind == 2 {
				k = ExitThrow
			}
			s.exit(n, k, msg, frames(append([]uintptr(nil), pcs...)))
		}
		s.drain()
		if stepYield != 2 {
			// progress was made: spinners may find their condition true now
			for _, x := range s.runq {
				if x.spins > 5 {
					x.spins = 5
				}
			}
		}
		if n.killAt.step > 0 && n.Steps >= n.killAt.step {
			s.Kill(n)
		}
	case 1:
		s.idleJumps = 0
		k := e.p.deliver()
		s.Digest = Mix(s.Digest ^ e.p.key ^ uint64(k))
		if s.Trace != nil {
			s.Trace(fmt.Sprintf("%d net %s %d bytes", s.Step, e.p.Name, k))
		}
		for _, x := range s.runq {
			if x.spins > 5 {
				x.spins = 5
			}
		}
	case 2:
		for i, x := range s.timers {
			if x == e.tm {
				s.timers = append(s.timers[:i], s.timers[i+1:]...)
				break
			}
		}
		s.Digest = Mix(s.Digest ^ e.tm.owner)
		if s.Trace != nil {
			s.Trace(fmt.Sprintf("%d timer", s.Step))
		}
		e.tm.fire()
	}
}

// End discards the simulation's tasks.
func (s *Sim) End() int {
	n := rtKillAll()
	s.tasks = nil
	s.runq = nil
	s.links, s.aged, s.ready, s.late = nil, nil, nil, nil
	s.listeners = nil
	s.timers = nil
	cur = nil
	return n
}

// Blocked describes the tasks of a node that are still there (for reports).
func (s *Sim) Blocked(n *Node) []string {
	m := map[string]int{}
	for _, t := range s.tasks {
		if t.Node == n.ID && t.state != 0 {
			w := rtWaitReason(t.g)
			if t.state == 1 {
				w = "runnable"
				if t.spins > 0 {
					w = "spinning"
				}
			}
			m[t.Fn()+": "+w]++
		}
	}
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%s x%d", k, v))
	}
	sort.Strings(r)
	return r
}

// Waiter is a set of tasks blocked on one condition of the simulated world.
type Waiter struct{ ch []chan struct{} }

// Wait blocks the calling task until the next Wake.
func (w *Waiter) Wait() {
	c := make(chan struct{})
	w.ch = append(w.ch, c)
	<-c
}

// Wake makes all waiting tasks runnable.
func (w *Waiter) Wake() {
	for _, c := range w.ch {
		close(c)
	}
	w.ch = nil
}
