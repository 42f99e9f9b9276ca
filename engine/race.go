package engine

import "fmt"

const maxThreads = 6

type vclock [maxThreads]uint32

func (v *vclock) join(o *vclock) {
	for i := range v {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
}

// cell is what is known about the accesses to one byte.
type cell struct {
	wc uint32 // clock of the last write
	wt int8
	wa bool   // it was atomic
	rc vclock // clocks of the last plain reads
	ac vclock // clocks of the last atomic reads
}

// raceState is the happens-before bookkeeping of one path, active while more
// than one goroutine runs.
type raceState struct {
	vc    []vclock
	sync  map[uint64]*vclock
	mem   map[uint64]*cell
	atom  bool // accesses are atomic
	quiet int  // accesses are the engine's own
}

func (st *State) raceSpawn() {
	if !st.lim.Race {
		return
	}
	if st.race == nil {
		st.race = &raceState{sync: map[uint64]*vclock{}, mem: map[uint64]*cell{}}
		st.race.vc = append(st.race.vc, vclock{0: 1})
	}
	r := st.race
	if len(r.vc) >= maxThreads {
		st.end(endUnsupported, "too many goroutines for race detection")
	}
	n := r.vc[st.th.id]
	n[len(r.vc)] = 1
	r.vc = append(r.vc, n)
	r.vc[st.th.id][st.th.id]++
}

func (st *State) acquire(p uint64) {
	if r := st.race; r != nil {
		if c := r.sync[p]; c != nil {
			r.vc[st.th.id].join(c)
		}
	}
}

func (st *State) release(p uint64) {
	if r := st.race; r != nil {
		c := r.sync[p]
		if c == nil {
			c = &vclock{}
			r.sync[p] = c
		}
		v := &r.vc[st.th.id]
		c.join(v)
		v[st.th.id]++
	}
}

// raceAccess checks one access against all unordered earlier ones.
func (st *State) raceAccess(o *Obj, off uint64, n int, write bool) {
	r := st.race
	if r.quiet > 0 || o.RO {
		return
	}
	t := st.th.id
	v := &r.vc[t]
	for i := 0; i < n; i++ {
		a := o.Base + off + uint64(i)
		c := r.mem[a]
		if c == nil {
			c = &cell{wt: -1}
			r.mem[a] = c
		}
		if c.wt >= 0 && int(c.wt) != t && c.wc > v[c.wt] && !(r.atom && c.wa) {
			st.raceFault(o, off, write, "write")
		}
		if write {
			for j := range c.rc {
				if j != t && c.rc[j] > v[j] {
					st.raceFault(o, off, write, "read")
				}
				if j != t && !r.atom && c.ac[j] > v[j] {
					st.raceFault(o, off, write, "atomic read")
				}
			}
			c.wt, c.wc, c.wa = int8(t), v[t], r.atom
		} else if r.atom {
			c.ac[t] = v[t]
		} else {
			c.rc[t] = v[t]
		}
	}
}

func (st *State) raceFault(o *Obj, off uint64, write bool, other string) {
	what := "read"
	if write {
		what = "write"
	}
	msg := fmt.Sprintf("data race: %s unordered with an earlier %s of the same memory", what, other)
	st.violate("race", msg)
	panic(&pathEnd{endViolation, msg})
}

// atomically runs f with its accesses treated as atomic.
func (st *State) atomically(f func()) {
	if st.race == nil {
		f()
		return
	}
	old := st.race.atom
	st.race.atom = true
	f()
	st.race.atom = old
}

func (st *State) quietly(f func()) {
	if st.race == nil {
		f()
		return
	}
	st.race.quiet++
	f()
	st.race.quiet--
}

// raceMap checks an access to a map as a whole.
func (st *State) raceMap(a uint64, write bool) {
	if st.race == nil {
		return
	}
	if o := st.find(a); o != nil {
		st.raceAccess(o, a-o.Base, 1, write)
	}
}
