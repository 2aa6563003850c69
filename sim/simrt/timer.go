package simrt

type timer struct {
	when  int64
	seq   int
	owner uint64
	node  int32
	since int
	f     func()
	dead  bool
}

func (t *timer) fire() {
	if !t.dead {
		t.dead = true
		if t.node >= 0 && cur.Nodes[t.node].Dead {
			return
		}
		t.f()
	}
}

// Timer is a handle for a pending timer.
type Timer struct{ t *timer }

// AfterNs calls f in the controller once the calling node's clock advanced by d.
func AfterNs(d int64, f func()) *Timer {
	s := cur
	id, nd := rtSelf()
	if id == 0 {
		nd = -1
	}
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{when: s.Now + d, seq: s.tseq, owner: id, node: nd, since: s.Step, f: f}
	s.timers = append(s.timers, t)
	return &Timer{t}
}

// Stop cancels the timer; it reports whether it was still pending.
func (t *Timer) Stop() bool {
	if t == nil || t.t.dead {
		return false
	}
	t.t.dead = true
	s := cur
	for i, x := range s.timers {
		if x == t.t {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			break
		}
	}
	return true
}

// SpawnAs starts f as a task of the given node from the controller.
func SpawnAs(nd int32, f func()) {
	cur.Go(cur.Nodes[nd], "timerfunc", f)
}

// ClockNs is the calling node's wall clock.
func ClockNs() int64 {
	s := cur
	if s == nil {
		return 0
	}
	n := CurNode()
	if n == nil {
		return s.Now
	}
	return s.Now + n.Skew
}

// Epoch is the real-world time at which every simulation starts.
const Epoch int64 = 1700000000_000000000

// NodeIndex is the number of the calling task's node, or -1.
func NodeIndex() int32 {
	id, nd := rtSelf()
	if id == 0 {
		return -1
	}
	return nd
}

// YieldNow gives other tasks a turn.
func YieldNow() {
	if id, _ := rtSelf(); id != 0 {
		stepYield = 2
		rtYield()
	}
}

// AddLog keeps the last lines of a node's log.
func (n *Node) AddLog(s string) {
	if len(s) > 300 {
		s = s[:300]
	}
	n.Log = append(n.Log, s)
	if cur != nil && cur.OnLog != nil {
		cur.OnLog(n, s)
	}
	if len(n.Log) > 400 {
		n.Log = append([]string(nil), n.Log[200:]...)
	}
}
