package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"syscall"

	nodemain "github.com/DyCAPSTeam/DyCAPS/internal/verifsim/nodemain/dycaps"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/party"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/pairing"
	"github.com/drand/kyber/share"
	"github.com/drand/kyber/sign/tbls"
	"verif.local/simrt"
)

// The deployed programs: cmd/DyCAPs as setup, old member, new member, member
// of the only committee and client, each a process with its own command line,
// disk and start time.

var keyFiles = []string{"coefficients", "coefficients_new"}

type nodeRun struct {
	w     *World
	roles map[*Proc]string
	ep    *epochRun
	// what the committees' keys may be: per committee, marshalled public polynomials
	allowed  [2]map[string]int // -> generation
	setupOK  bool
	damaged  map[*Proc]bool // its files were damaged or could not be read
	suite    pairing.Suite
	started  int
	lastKeys [2]*keys
}

func pubBytes(p *share.PubPoly) string {
	if p == nil {
		return ""
	}
	_, cs := p.Info()
	var b bytes.Buffer
	for _, c := range cs {
		x, err := c.MarshalBinary()
		if err != nil {
			return "?"
		}
		b.Write(x)
	}
	return b.String()
}

// setupNode runs the setup program on the given disk.
func (r *nodeRun) setupNode(gen int, fs *simrt.FS) *simrt.Node {
	w := r.w
	n := w.S.AddNode("setup", "10.0.98.1", w.Sp.Crypto+uint64(gen)*7919)
	n.FS = fs
	n.Args = []string{"-n", fmt.Sprint(w.Sp.N()), "-f", fmt.Sprint(w.Sp.F), "-op1", "1"}
	w.S.GoMain(n, nodemain.Main)
	w.S.Run(func() bool { return n.Dead })
	return n
}

// keysOn loads committee k's keys from a disk as the programs do; nil if the
// program ends instead.
func (r *nodeRun) keysOn(k int, fs *simrt.FS) *keys {
	w := r.w
	n := w.S.AddNode("ref", "10.0.98.2", 1)
	n.FS = &simrt.FS{Files: fs.Files}
	var ks *keys
	w.S.GoMain(n, func() {
		f := party.SigKeyGenFix
		if k == 1 {
			f = party.SigKeyGenFix_New
		}
		sk, pk := f(uint32(w.Sp.N()), uint32(2*w.Sp.F+1))
		ks = &keys{sk, pk}
	})
	w.S.Run(func() bool { return n.Dead })
	return ks
}

func okExit(n *simrt.Node) bool {
	return n.Exit == simrt.ExitReturn || n.Exit == simrt.ExitOS && n.Msg == "exit status 0"
}

func diskErr(mode int) error {
	return []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EROFS, syscall.EACCES}[mode%5]
}

// armDisk installs the disk faults of the setup machine.
func (r *nodeRun) armDisk(fs *simrt.FS) {
	nop, cnt := 0, map[string]int{}
	fs.Fault = func(op, name string, size int) (int, error) {
		cnt[op]++
		for i := range r.w.Sp.Faults {
			f := &r.w.Sp.Faults[i]
			if f.Kind == "setupdisk" && f.Ops[0] == op && cnt[op] == f.Step {
				n := 0
				if size > 0 && op == "write" {
					n = f.Len % size
				}
				return n, diskErr(f.Mode)
			}
		}
		return size, nil
	}
	fs.Crash = func(op, name string, size int) (int, bool) {
		nop++
		for i := range r.w.Sp.Faults {
			f := &r.w.Sp.Faults[i]
			if f.Kind == "setupcrash" && nop == f.Step {
				if size > 0 {
					return f.Len % (size + 1), true
				}
				return 0, true
			}
		}
		return size, false
	}
	for i := range r.w.Sp.Faults {
		if f := &r.w.Sp.Faults[i]; f.Kind == "diskfull" {
			used := 0
			for _, n := range fs.Names() {
				b, _ := fs.Get(n)
				used += len(b)
			}
			fs.Cap = used + 1 + f.Len
		}
	}
}

func (r *nodeRun) hasFault(kind string) *Fault {
	for i := range r.w.Sp.Faults {
		if r.w.Sp.Faults[i].Kind == kind {
			return &r.w.Sp.Faults[i]
		}
	}
	return nil
}

// damage is what an interrupted or failed copy leaves of a file.
func damage(f *Fault, b, old []byte) ([]byte, bool) {
	b = append([]byte(nil), b...)
	n := len(b)
	at := 0
	if n > 0 {
		at = f.Len % n
	}
	switch f.Mode {
	case 0:
		return nil, false // never arrived
	case 1:
		return []byte{}, true
	case 2:
		return b[:at], true
	case 3: // size set, data after a point never written
		for i := at; i < n; i++ {
			b[i] = 0
		}
	case 4: // one block lost
		for i := at; i < n && i < at+f.Step; i++ {
			b[i] = 0
		}
	case 5: // overwritten in place, interrupted: the rest is an earlier file's
		if len(old) < n {
			old = append(append([]byte(nil), old...), make([]byte, n-len(old))...)
		}
		return append(b[:at:at], old[at:]...), true
	case 6: // rubbish in one block
		x := simrt.NewRand(f.Seed)
		for i := at; i < n && i < at+f.Step; i++ {
			b[i] = byte(x.U64())
		}
	case 7: // one bit
		if n > 0 {
			b[at] ^= 1 << (f.Seed % 8)
		}
	case 8: // a block repeated: the file is longer than it was
		return append(b[:at:at], b[maxi(0, at-f.Step):]...), true
	case 9: // a block missing in the middle
		return append(b[:at:at], b[mini(n, at+f.Step):]...), true
	}
	return b, true
}

func (r *nodeRun) recordName(p *Proc) string {
	switch r.roles[p] {
	case "oldCommittee", "currentCommitee":
		return fmt.Sprintf("metadata/logold%d", p.Slot)
	case "onlyOneCommittee":
		return fmt.Sprintf("metadata/log%d", p.Slot)
	}
	return fmt.Sprintf("metadata/lognew%d", p.Slot)
}

func runNode(sp *Spec) *Result {
	w := newWorld(sp)
	w.S.MaxTime = 19000e9
	r := &nodeRun{w: w, roles: map[*Proc]string{}, damaged: map[*Proc]bool{}, suite: kyberbls.NewBLS12381Suite()}
	rnd := simrt.NewRand(sp.Seed ^ 0x90de)
	defer func() { party.VOnParty = nil }()
	party.VOnParty = nil
	for k := range r.allowed {
		r.allowed[k] = map[string]int{}
	}

	// what an undisturbed setup yields
	var prev *simrt.FS
	good := simrt.NewFS()
	if n := r.setupNode(1, good); !okExit(n) {
		w.viol("C20", "setup-fails", "setup ends with %s: %s although nothing failed", n.Exit, short(n.Msg, 200))
		w.viol("C19", "setup-fails", "setup ends with %s: %s although nothing failed", n.Exit, short(n.Msg, 200))
		return w.finish()
	}
	disk := simrt.NewFS()
	gens := []*simrt.FS{nil, good}
	if r.hasFault("regen") != nil {
		prev = simrt.NewFS()
		r.setupNode(0, prev)
		gens[0] = prev
		for _, f := range keyFiles {
			if b, ok := prev.Get(f); ok {
				disk.Put(f, b)
			}
		}
		w.S.Count["setup-rerun"]++
	}
	// the setup that counts
	r.armDisk(disk)
	sn := r.setupNode(1, disk)
	disk.Fault, disk.Crash, disk.Cap = nil, nil, 0
	r.setupOK = okExit(sn)
	power := r.hasFault("power") != nil
	if f := r.hasFault("setupcrash"); f != nil && sn.Exit == simrt.ExitKilled && f.Mode == 1 {
		power = true
	}
	faulty := false
	for _, k := range []string{"setupdisk", "setupcrash", "diskfull"} {
		faulty = faulty || r.hasFault(k) != nil
	}
	if !r.setupOK && !faulty {
		w.viol("C20", "setup-fails", "setup ends with %s: %s although nothing failed", sn.Exit, short(sn.Msg, 200))
	}
	for k := range r.allowed {
		for g, fs := range gens {
			if fs == nil || g == 0 && r.setupOK && !power {
				continue
			}
			ks := r.keysOn(k, fs)
			if ks == nil {
				w.viol("C20", "unreadable", "the files a successful setup wrote cannot be read back")
				return w.finish()
			}
			r.allowed[k][pubBytes(ks.pk)] = g
			r.lastKeys[k] = ks
		}
		if r.setupOK && !power && faulty {
			if ks := r.keysOn(k, disk); ks == nil || pubBytes(ks.pk) != pubBytes(r.lastKeys[k].pk) {
				w.viol("C20", "setup-silent", "setup ended without an error, but file %s is not the one it was to write", keyFiles[k])
			}
		}
	}
	for b := range r.allowed[0] {
		if _, both := r.allowed[1][b]; both {
			w.viol("C20", "one-key", "the programs of the two committees derive one and the same threshold key from a setup's two files")
		}
	}
	if power {
		w.S.Count["power-failure"]++
		disk.PowerFail(rnd)
	}

	// the programs
	r.ep = &epochRun{w: w, E: 1, es: map[*Proc][]*esnap{}, deal: map[int][]*big.Int{}, vss: map[*Proc]bool{},
		qs: []map[int][][]*big.Int{{}}, jsets: []map[string][]uint32{{}}, jsigs: []map[string]*protobuf.MVBAIN{{}},
		qpart: []map[*Proc]map[int]*protobuf.Reshare{{}}, recs: []map[uint32]map[*Proc]bool{{}}}
	one := sp.One
	coms := []*Com{w.addCom(0)}
	if !one {
		coms = append(coms, w.addCom(1))
	}
	for k, c := range coms {
		c.PK, c.SK = r.lastKeys[k].pk, r.lastKeys[k].sk
	}
	cl := w.addNode("cl", "10.0.99.1", -1, nil)
	w.Client = cl
	w.Cl = &party.Client{HonestParty: party.NewHonestParty(0, uint32(sp.N()), uint32(sp.F), 0x7fffffff, nil, nil, nil, nil, nil, nil)} // for the oracle
	for _, p := range w.procs() {
		r.ep.es[p] = []*esnap{{}}
		switch {
		case p == cl:
			r.roles[p] = "client"
		case one:
			r.roles[p] = "onlyOneCommittee"
		case p.Com.K == 0:
			r.roles[p] = "oldCommittee"
			if sp.opt("script") == 1 {
				r.roles[p] = "currentCommitee"
			}
		default:
			r.roles[p] = "newCommittee"
			if sp.opt("script") == 1 {
				r.roles[p] = "newCommitee"
			}
		}
	}
	w.sendTap = append(w.sendTap, r.ep.onSend)
	w.rawTap = append(w.rawTap, r.ep.onRaw)
	lists := map[string][]byte{}
	for k, c := range coms {
		s := []string{"", "Next"}[k]
		nl := "\n"
		lists["list/ipList"+s] = []byte(strings.Join(c.IP, nl) + nl)
		lists["list/portList"+s] = []byte(strings.Join(c.Port, nl) + nl)
	}
	if one {
		lists["list/ipListNext"], lists["list/portListNext"] = lists["list/ipList"], lists["list/portList"]
	}
	for n, b := range lists {
		disk.Put(n, b)
	}
	party.VOnParty = func(p *party.HonestParty) {
		n := simrt.CurNode()
		if q := w.byNode[n]; q != nil && q.P == nil {
			q.P = p
			q.Phase = "started"
		}
	}
	for _, p := range w.procs() {
		p := p
		p.Phase = "not started"
		id := p.Slot
		if p == cl {
			id = 12345
		}
		p.N.Args = []string{"-n", fmt.Sprint(sp.N()), "-f", fmt.Sprint(sp.F), "-op1", "2", "-op2", r.roles[p], "-id", fmt.Sprint(id), "-mp", "metadata", "-lp", "list"}
		if sp.opt("t1") > 0 {
			p.N.Args = append(p.N.Args, "-t1", fmt.Sprint(sp.opt("t1")), "-t2", fmt.Sprint(sp.opt("t2")), "-t3", fmt.Sprint(sp.opt("t3")))
		}
		if sp.opt("own") == 1 {
			fs := simrt.NewFS()
			for n, b := range lists {
				fs.Put(n, b)
			}
			for _, n := range keyFiles {
				b, ok := disk.Get(n)
				for i := range sp.Faults {
					if f := &sp.Faults[i]; f.Kind == "copy" && f.Node == p.Name && f.Ops[0] == n && ok {
						var old []byte
						if prev != nil {
							old, _ = prev.Get(n)
						}
						w.S.Count["copy-damaged"]++
						r.damaged[p] = true
						b, ok = damage(f, b, old)
						if len(old) > 0 && bytes.Equal(b, old) {
							// an intact file of an earlier setup is no damaged one: that
							// member would be started from another setup
							b, ok = nil, false
						}
					}
				}
				if ok {
					fs.Put(n, b)
				}
			}
			p.N.FS = fs
		} else {
			p.N.FS = disk
		}
		for i := range sp.Faults {
			if f := &sp.Faults[i]; f.Kind == "readerr" && f.Node == p.Name && sp.opt("own") == 1 {
				cnt := 0
				p.N.FS.Fault = func(op, name string, size int) (int, error) {
					if op == f.Ops[0] && strings.Contains(name, "coeff") {
						if cnt++; cnt == f.Step {
							r.damaged[p] = true
							return 0, diskErr(f.Mode)
						}
					}
					return size, nil
				}
			}
		}
		at := int64(0)
		if x := sp.opt("skewms"); x > 0 {
			at = int64(rnd.Intn(x)) * 1e6
		}
		simrt.AfterNs(at, func() {
			if p.N.Dead {
				return
			}
			p.Phase = "running"
			r.started++
			w.S.GoMain(p.N, nodemain.Main)
		})
	}
	w.base = w.S.Step
	w.markFaulty()
	w.applyFaults()
	for i := range sp.Faults {
		if f := &sp.Faults[i]; f.Kind == "restart" && w.byName[f.Node] != nil {
			r.restart(w.byName[f.Node], f)
		}
	}
	w.applyTimed()
	if sp.opt("boot") == 1 {
		r.boot()
	} else {
		r.epoch()
	}
	return w.finish()
}

// restart has a program crash and be started again; it has nothing but its files.
func (r *nodeRun) restart(p *Proc, f *Fault) {
	w := r.w
	p.N.Mode = simrt.CrashMode(f.Mode)
	p.N.KillAt(f.Step, f.Write)
	p.N.OnExit = func() {
		old := p.N
		w.S.At(w.S.Step+1+f.Len, func() {
			w.S.Count["restart"]++
			n := w.S.AddNode(p.Name+"'", old.IP, w.Sp.Crypto)
			n.Args, n.FS, n.Faulty = old.Args, old.FS, true
			w.byNode[n] = p
			p.N, p.P, p.Phase = n, nil, "running again"
			w.S.GoMain(n, nodemain.Main)
		})
	}
}

// boot lets every program start until it has its keys or ended.
func (r *nodeRun) boot() {
	w := r.w
	up := func() bool {
		for _, p := range w.procs() {
			if !p.N.Dead && p.P == nil {
				return false
			}
		}
		return true
	}
	w.R.Done = w.run(up, 3000*w.Sp.N())
	w.R.NonTriv = true
	r.judgeKeys()
}

// judgeKeys: every member runs with the key of the setup, or ended with an error.
func (r *nodeRun) judgeKeys() {
	w := r.w
	N, F := w.Sp.N(), w.Sp.F
	ref := map[int]string{}
	refp := map[int]*Proc{}
	for _, p := range w.procs() {
		if p == w.Client || !p.honest() {
			continue
		}
		k := p.Com.K
		if p.P == nil {
			switch {
			case !p.N.Dead:
				w.viol("C20", "stuck", "%s neither started nor ended: %s", p.Name, w.stuckInfo([]*Proc{p}))
			case okExit(p.N):
				w.viol("C20", "silent", "%s (%s) ended without an error and without running", p.Name, r.roles[p])
			case !r.damaged[p] && r.setupOK && r.hasFault("power") == nil:
				w.viol("C20", "refused", "%s refused to start from undamaged files: %s: %s at %s", p.Name, p.N.Exit, short(p.N.Msg, 200), strings.Join(head(p.N.Stack, 4), " < "))
			default:
				w.S.Count["refused-to-start"]++
			}
			continue
		}
		pk, sk := p.P.VKeys()
		b := pubBytes(pk)
		if _, ok := r.allowed[k][b]; !ok || sk == nil {
			w.viol("C20", "other-key", "%s runs with a threshold key that no setup generated", p.Name)
			continue
		}
		if r.damaged[p] {
			w.S.Count["ran-with-true-key-from-damaged-files"]++
		}
		if ref[k] == "" {
			ref[k], refp[k] = b, p
		} else if ref[k] != b {
			w.viol("C20", "keys-differ", "%s and %s run with different threshold keys", refp[k].Name, p.Name)
		}
		v := pk.Eval(sk.I)
		if sk.I != p.Slot || !r.suite.G2().Point().Mul(sk.V, nil).Equal(v.V) {
			w.viol("C20", "share", "%s's secret share is not the one of member %d under the common key", p.Name, p.Slot)
		}
	}
	// any 2F+1 members sign
	rnd := simrt.NewRand(w.Sp.Seed ^ 0x516)
	for _, c := range w.Coms {
		var ps []*Proc
		for _, p := range c.Procs {
			if p.P != nil && p.honest() {
				ps = append(ps, p)
			}
		}
		if len(ps) < 2*F+1 {
			continue
		}
		for i := len(ps) - 1; i > 0; i-- {
			j := rnd.Intn(i + 1)
			ps[i], ps[j] = ps[j], ps[i]
		}
		sch := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
		msg := []byte("any 2F+1 members")
		var sigs [][]byte
		pk, _ := ps[0].P.VKeys()
		for _, p := range ps[:2*F+1] {
			_, sk := p.P.VKeys()
			s, err := sch.Sign(sk, msg)
			if err != nil {
				w.viol("C20", "signature", "%s cannot sign: %v", p.Name, err)
				continue
			}
			sigs = append(sigs, s)
		}
		s, err := sch.Recover(pk, msg, sigs, 2*F+1, N)
		if err == nil {
			err = sch.VerifyRecovered(pk.Commit(), msg, s)
		}
		if err != nil {
			var l []string
			for _, p := range ps[:2*F+1] {
				l = append(l, p.Name)
			}
			w.viol("C20", "signature", "the members %v do not produce a valid signature: %v", l, err)
		}
		w.S.Count["threshold-signatures"]++
	}
}

// epoch lets the programs run a whole handoff.
func (r *nodeRun) epoch() {
	w := r.w
	done := func() bool {
		all := true
		for _, p := range w.procs() {
			if p == w.Client || !p.honest() {
				continue
			}
			if !p.Done {
				if p.N.Dead {
					return true
				}
				if b, ok := p.N.FS.Get(r.recordName(p)); ok && len(b) > 0 {
					p.Done = true
					r.snap(p)
				} else {
					all = false
				}
			}
		}
		return all
	}
	n := w.Sp.N()
	budget := w.Sp.Max
	if budget == 0 {
		budget = 8000 * n * n
	}
	w.run(done, budget)
	all := true
	for _, p := range w.procs() {
		if p != w.Client && !p.Done && p.honest() {
			all = false
		}
	}
	w.R.Done = all
	if !all {
		info := w.stuckInfo(w.procs())
		dead := false
		for _, p := range w.procs() {
			if p.N.Dead && p.honest() {
				dead = true
				if okExit(p.N) {
					w.viol("C19", "silent", "the program of %s (%s) ended without an error before it was done", p.Name, r.roles[p])
				}
			}
		}
		w.judgeExits("C19")
		if !dead {
			w.viol("C19", "stuck", "%s", info)
			w.viol("C02", "stuck", "%s", info)
		}
	} else {
		now := w.S.Now
		w.settle(2000)
		w.judgeExits("C19")
		w.S.Now = now // the programs' final sleep is not worth counting
		for _, p := range w.procs() {
			if p != w.Client && p.honest() {
				r.snap(p)
			}
		}
	}
	// the sharing the new members hold
	g, bad := r.ep.dealt()
	if bad != "" {
		w.viol("C19", "dealing", "%s", bad)
	} else if g != nil {
		w.Secret = big2fr(g[0][0])
		r.ep.judge()
		for _, v := range append([]Viol(nil), w.R.Viol...) {
			switch v.Prop {
			case "C01", "C17", "C03":
				w.viol("C19", v.Prop+"-"+v.Kind, "%s", v.Detail)
			}
		}
	}
	r.judgeKeys()
}

func (r *nodeRun) snap(p *Proc) {
	if p.P == nil || !(p.Com.K == 1 || r.w.Sp.One) {
		return
	}
	s := r.ep.es[p][0]
	s.red, s.full = toPoly(p.P.VReduced()), toPoly(p.P.VFull())
	s.com = p.P.VCommit()
	if w, at, ok := p.P.VWitness(); ok {
		s.wit, s.at, s.hasWit = append([]bls.G1Point(nil), w...), append([]bls.Fr(nil), at...), true
	}
	s.done = true
}

func (g *gen) nodeSpec() {
	sp := g.sp
	sp.Scen = "node"
	sp.F = 1
	sp.Crypto = 1 + g.U64()%4
	sp.Opt = map[string]int{}
	if g.Chance(0.7) {
		sp.Opt["own"] = 1
	}
	N := sp.N()
	if sp.Prop == "C20" {
		sp.F = []int{1, 1, 1, 2, 2, 3}[g.Intn(6)]
		N = sp.N()
		sp.Opt["boot"] = 1
		sp.Crypto = 1 + g.U64()%1000
		sp.Strat = g.strategy(40 * N)
		sp.Strat.Cost = 20000
		if g.Chance(0.3) {
			sp.One = true
		}
		if g.Chance(0.5) {
			sp.Faults = append(sp.Faults, Fault{Kind: "regen"})
		}
		if g.Chance(0.6) {
			switch g.Intn(4) {
			case 0:
				sp.Faults = append(sp.Faults, Fault{Kind: "setupdisk", Ops: []string{g.one("open", "write", "write", "close", "sync", "rename")}, Step: 1 + g.Intn(3), Len: g.Intn(5000), Mode: g.Intn(5)})
			case 1:
				sp.Faults = append(sp.Faults, Fault{Kind: "setupcrash", Step: 1 + g.Intn(8), Len: g.Intn(5000), Mode: g.Intn(2)})
			case 2:
				sp.Faults = append(sp.Faults, Fault{Kind: "diskfull", Len: g.Intn(400)})
			case 3:
				sp.Faults = append(sp.Faults, Fault{Kind: "power"})
			}
		}
		if g.Chance(0.7) {
			sp.Opt["own"] = 1
			for n := 1 + g.Intn(2*sp.F+1); n > 0; n-- {
				k := g.Intn(2)
				if sp.One {
					k = 0
				}
				m := sprint("k%d.%d", k, g.Intn(N))
				f := Fault{Kind: "copy", Node: m, Ops: []string{keyFiles[g.Intn(2)]}, Mode: g.Intn(10), Len: g.Intn(100000), Step: []int{1, 8, 32, 64, 512}[g.Intn(5)], Seed: g.U64() % 100000}
				if g.Chance(0.6) {
					f.Ops[0] = keyFiles[k] // the file its own key comes from
				}
				if g.Chance(0.15) {
					f = Fault{Kind: "readerr", Node: m, Ops: []string{g.one("open", "read")}, Step: 1 + g.Intn(4), Mode: 0}
				}
				sp.Faults = append(sp.Faults, f)
			}
		}
		return
	}
	if g.Chance(0.12) {
		sp.F = 2
	}
	if deepRuns {
		sp.F = []int{1, 1, 1, 1, 1, 1, 2, 2, 2, 3}[g.Intn(10)]
	}
	if g.Chance(0.3) {
		sp.One = true
	} else if g.Chance(0.25) {
		sp.Opt["script"] = 1
	}
	if g.Chance(0.5) {
		t := 1 + g.Intn(30)
		sp.Opt["t1"] = t
		sp.Opt["t2"] = t + g.Intn(20)
		sp.Opt["t3"] = sp.Opt["t2"] + g.Intn(20)
	}
	t := 10
	if x := sp.opt("t1"); x > 0 {
		t = x
	}
	span := 4000 * sp.F * sp.F * sp.F
	sp.Strat = g.strategy(span)
	sp.Strat.Cost = []int64{1000, 20000, 200000, 1000000}[g.Intn(4)]
	if g.Chance(0.8) {
		sp.Opt["skewms"] = 1 + g.Intn(t*1000)
	}
	coms := 2
	if sp.One {
		coms = 1
	}
	g.benign(span, coms)
	crash := 0.4
	if sp.Prop != "C19" {
		crash = 0.9
	}
	for k := 0; k < coms; k++ {
		used := map[string]bool{}
		for n := 0; n < sp.F; n++ {
			if !g.Chance(crash) {
				continue
			}
			f := g.crashFault(g.member(k, used), 250*sp.F*sp.F, 60*sp.F*sp.F)
			if f.Kind == "crash" && g.Chance(0.6) {
				f.Kind, f.Len = "restart", g.Intn([]int{10, 300, span}[g.Intn(3)])
			}
			sp.Faults = append(sp.Faults, f)
		}
	}
	if g.Chance(0.3) {
		for n := 1 + g.Intn(3); n > 0; n-- {
			sp.Faults = append(sp.Faults, Fault{Kind: "skew", Node: sprint("k%d.%d", g.Intn(coms), g.Intn(sp.N())), Step: g.Intn(span), Mode: g.Intn(2000000) - 1000000})
		}
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
