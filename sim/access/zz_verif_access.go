package party

import (
	"reflect"
	"sync"
	"unsafe"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/drand/kyber/share"
)

// Read access to the state the oracles judge. Only names that the package's
// own tests use are referred to directly; the others are looked up by
// reflection, so that a renamed field does not break the build.

// VReduced is B(x,i).
func (p *HonestParty) VReduced() []bls.Fr { return p.reducedShare }

// VFull is B(i,y).
func (p *HonestParty) VFull() []bls.Fr { return p.fullShare }

// VSetShares installs shares (for scenarios that start after a handoff).
func (p *HonestParty) VSetShares(reduced, full []bls.Fr) { p.reducedShare, p.fullShare = reduced, full }

// VSecret is the client's secret.
func (c *Client) VSecret() bls.Fr { return c.s }

func vfield(p any, name string) reflect.Value {
	v := reflect.ValueOf(p).Elem().FieldByName(name)
	if !v.IsValid() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// VWitness returns the witnesses and the positions they belong to; ok is
// false if the fields no longer exist.
func (p *HonestParty) VWitness() (w []bls.G1Point, at []bls.Fr, ok bool) {
	a, b := vfield(p, "witness"), vfield(p, "witnessIndexes")
	if !a.IsValid() || !b.IsValid() {
		return nil, nil, false
	}
	w, ok1 := a.Interface().([]bls.G1Point)
	at, ok2 := b.Interface().([]bls.Fr)
	return w, at, ok1 && ok2
}

// VDispatch is the map from message type to id to channel, or nil.
func (p *HonestParty) VDispatch() *sync.Map {
	v := vfield(p, "dispatchChannels")
	if !v.IsValid() {
		return nil
	}
	m, _ := v.Interface().(*sync.Map)
	return m
}

// VCommit returns the commitment to B(x,j), j = 1..2F+1, the party holds.
func (p *HonestParty) VCommit() []bls.G1Point {
	var r []bls.G1Point
	for _, c := range p.Proof.PiContents {
		r = append(r, c.CBj)
	}
	return r
}

// VSetNext gives a party the addresses of the committee that follows it.
func (p *HonestParty) VSetNext(ip, port []string) bool {
	a, b := vfield(p, "ipListNext"), vfield(p, "portListNext")
	if !a.IsValid() || !b.IsValid() {
		return false
	}
	a.Set(reflect.ValueOf(ip))
	b.Set(reflect.ValueOf(port))
	return true
}

// VProof lists every point of the commitment data the party holds.
func (p *HonestParty) VProof() []bls.G1Point {
	r := []bls.G1Point{p.Proof.Gs}
	for i := range p.Proof.PiContents {
		v := reflect.ValueOf(&p.Proof.PiContents[i]).Elem()
		for k := 0; k < v.NumField(); k++ {
			f := reflect.NewAt(v.Field(k).Type(), unsafe.Pointer(v.Field(k).UnsafeAddr())).Elem()
			if x, ok := f.Interface().(bls.G1Point); ok {
				r = append(r, x)
			}
		}
	}
	return r
}

// VOnParty sees every party object that is created.
var VOnParty func(*HonestParty)

// NewHonestParty creates a party with the real constructor.
func NewHonestParty(e uint32, N uint32, F uint32, pid uint32, ipList []string, portList []string, ipListNext []string, portListNext []string, sigPK *share.PubPoly, sigSK *share.PriShare) *HonestParty {
	p := verifNewHonestParty(e, N, F, pid, ipList, portList, ipListNext, portListNext, sigPK, sigSK)
	if VOnParty != nil {
		VOnParty(p)
	}
	return p
}

// VKeys is the party's threshold signature key material.
func (p *HonestParty) VKeys() (*share.PubPoly, *share.PriShare) { return p.SigPK, p.SigSK }
