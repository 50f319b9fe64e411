//go:build go1.24

package main

import (
	"net/netip"
	"sort"
)

// hev is one operation on a register (a peer of a swarm, or the connection id of an address) with the interval in
// which it took effect.
type hev[T any] struct {
	call, ret int64 // event numbers
	lo, hi    int64 // virtual time bounds of its time stamp
	present   bool
	maybe     bool // it may have had no effect
	v         T
}

// pass is a trim pass known to have run between two events, reading the clock no earlier than at.
type pass struct{ from, to, at int64 }

type hist[T any] struct{ evs []*hev[T] }

const inf = int64(1) << 62

// at gives the values the register may have had at some instant of [c,r]; rAt is the virtual time of r.
func (h *hist[T]) at(c, r, rAt int64, own *hev[T], exp int64, passes []pass) (vals []*hev[T], absent bool) {
	var last int64 = -1 // latest call among the certain events that ended before c
	for _, e := range h.evs {
		if !e.maybe && (e.ret < c || e == own) && e.call > last {
			last = e.call
		}
	}
	if last < 0 {
		absent = true // the initial state
	}
	for _, e := range h.evs {
		if e.call >= r && e != own {
			continue
		}
		if e.ret < last {
			continue
		}
		if !e.present {
			absent = true
			continue
		}
		if exp > 0 && rAt-e.lo > exp && e != own {
			absent = true
			gone := false
			for _, p := range passes {
				if p.to < c && e.ret < p.from && p.at-e.hi >= exp+1e9 {
					gone = true
				}
			}
			if gone {
				continue
			}
		}
		vals = append(vals, e)
	}
	return
}

// settle drops everything that can no longer matter after event c.
func (h *hist[T]) settle(c int64, exp int64, passes []pass) {
	vals, absent := h.at(c, c+1, 0, nil, 0, nil)
	var out []*hev[T]
	out = append(out, vals...)
	if absent {
		if len(vals) == 0 {
			out = nil
		} else {
			for _, e := range h.evs {
				if !e.present {
					out = append(out, e)
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].call < out[j].call })
	h.evs = out
}

// PS is the state of a member.
type PS struct {
	AP       netip.AddrPort
	Complete bool
}

type hashID = [20]byte

// Model of the peer database.
type Model struct {
	sw     map[hashID]map[hashID]*hist[PS]
	ids    map[netip.AddrPort]*hist[uint64]
	exp    int64 // peer expiry, ns; 0: never
	cexp   int64
	passes []pass
	cpass  []pass
}

func newModel() *Model {
	return &Model{sw: map[hashID]map[hashID]*hist[PS]{}, ids: map[netip.AddrPort]*hist[uint64]{}}
}

func (m *Model) add(h, p hashID, e *hev[PS]) {
	s := m.sw[h]
	if s == nil {
		s = map[hashID]*hist[PS]{}
		m.sw[h] = s
	}
	k := s[p]
	if k == nil {
		k = &hist[PS]{}
		s[p] = k
	}
	k.evs = append(k.evs, e)
}

func (m *Model) addID(a netip.AddrPort, e *hev[uint64]) {
	k := m.ids[a]
	if k == nil {
		k = &hist[uint64]{}
		m.ids[a] = k
	}
	k.evs = append(k.evs, e)
}

// member is what a peer of a swarm may have been during an interval.
type member struct {
	id     hashID
	vals   []*hev[PS]
	absent bool
}

func (m *Model) members(h hashID, c, r, rAt int64, ownPeer *hashID, own *hev[PS]) []member {
	var out []member
	for id, k := range m.sw[h] {
		var o *hev[PS]
		if ownPeer != nil && id == *ownPeer {
			o = own
		}
		vals, abs := k.at(c, r, rAt, o, m.exp, m.passes)
		if len(vals) > 0 {
			out = append(out, member{id, vals, abs})
		}
	}
	sort.Slice(out, func(i, j int) bool { return string(out[i].id[:]) < string(out[j].id[:]) })
	return out
}

// bounds of the seeder and leecher counts.
func bounds(ms []member) (sLo, sHi, lLo, lHi int64) {
	for _, x := range ms {
		s, l := false, false
		for _, v := range x.vals {
			if v.v.Complete {
				s = true
			} else {
				l = true
			}
		}
		if s {
			sHi++
			if !l && !x.absent {
				sLo++
			}
		}
		if l {
			lHi++
			if !s && !x.absent {
				lLo++
			}
		}
	}
	return
}

// countsFit tells whether s seeders and l leechers can have been counted at one instant.
func countsFit(ms []member, s, l int64) bool {
	sLo, sHi, lLo, lHi := bounds(ms)
	lo, hi := sizeBounds(ms)
	return s >= sLo && s <= sHi && l >= lLo && l <= lHi && s+l >= lo && s+l <= hi
}

// size bounds of the membership.
func sizeBounds(ms []member) (lo, hi int64) {
	for _, x := range ms {
		hi++
		if !x.absent {
			lo++
		}
	}
	return
}

// settleAll forgets history before a quiescent point.
func (m *Model) settleAll(c int64) {
	for h, s := range m.sw {
		for id, k := range s {
			k.settle(c, 0, nil)
			if len(k.evs) == 0 {
				delete(s, id)
			}
		}
		if len(s) == 0 {
			delete(m.sw, h)
		}
	}
	for a, k := range m.ids {
		k.settle(c, 0, nil)
		if len(k.evs) == 0 {
			delete(m.ids, a)
		}
	}
}
