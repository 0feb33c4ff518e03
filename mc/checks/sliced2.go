package checks

import (
	"fmt"

	"github.com/arl/go-detour/detour"

	"verif/mc/hx"
)

// ---- C11: mesh changes between the updates of a sliced search

func init() {
	hx.Register(&hx.Check{
		ID: "C11", Level: "model_checking",
		Rule:        "every world x every (start, goal) pair x with/without any-angle shortcuts x every pair of tile operations (remove, re-add with the old reference, re-add with a new one) inserted before any two update calls or before finalisation of a sliced search in single steps; oracle: corridor elements and their connections existed at some time during the search, removal of the start or goal before an update means failure, and operations on tiles the search never meets change nothing; non-trivial: the search takes at least one update after the first operation",
		Assumptions: []string{"mesh operations happen between calls (the library is not synchronised)"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			for _, w := range slicedWorlds(th) {
				w := w
				n := w.npolys() * w.npolys() * 2
				out = append(out, hx.Space{Name: w.name, N: int64(n), Batch: 1, Bound: "every pair of tile operations at every pair of points of the search",
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						s, t := d.Next(w.npolys()), d.Next(w.npolys())
						opt := uint32(0)
						if d.Next(2) == 1 {
							opt = detour.FindPathAnyAngle
						}
						w.run(e, s, t, opt)
					}})
			}
			return out
		},
	})
}

type slicedW struct {
	name string
	mk   func() *qmesh
	np   int
	two  bool
}

func (w *slicedW) npolys() int {
	if w.np == 0 {
		w.np = len(w.mk().polys)
	}
	return w.np
}

func slicedWorlds(th bool) []*slicedW {
	mkGrid := func(W, H int, til tiling, st []int, areas []uint8, spare int) func() *qmesh {
		return func() *qmesh {
			g := newGrid(W, H)
			g.TW, g.TH = til.tw, til.th
			for k := range areas {
				g.cells[k].area = areas[k]
			}
			if st == nil {
				st = make([]int, W*H)
			}
			ts := stateTiles(g, st, 0)
			return buildQN(g, ts, nil, len(ts)+spare)
		}
	}
	ws := []*slicedW{
		{name: "row5x1", mk: mkGrid(5, 1, tiling{1, 1}, nil, nil, 0), two: true},
		{name: "row6x1-tiles2", mk: mkGrid(6, 1, tiling{2, 1}, nil, nil, 1), two: true},
		{name: "grid3x2-tiles1", mk: mkGrid(3, 2, tiling{1, 1}, nil, []uint8{0, 1, 0, 0, 0, 2}, 1), two: true},
		{name: "grid4x2-tiles2x2", mk: mkGrid(4, 2, tiling{2, 2}, nil, []uint8{0, 1, 0, 0, 0, 2, 0, 0}, 0), two: true},
		{name: "ring3x3-tiles1", mk: mkGrid(3, 3, tiling{1, 1}, []int{0, 0, 0, 0, 1, 0, 0, 0, 0}, nil, 0), two: false},
	}
	if th {
		ws[4].two = true
		ws = append(ws,
			&slicedW{name: "grid4x3-tiles2x1", mk: mkGrid(4, 3, tiling{2, 1}, nil, []uint8{0, 1, 0, 0, 0, 2, 0, 0, 1, 0, 0, 0}, 1), two: true},
			&slicedW{name: "grid3x3-tiles1", mk: mkGrid(3, 3, tiling{1, 1}, nil, []uint8{0, 1, 0, 0, 0, 2, 0, 0, 1}, 1), two: true},
		)
	}
	return ws
}

// operations: tile*3 + kind (0 remove, 1 add with the old reference, 2 add
// with a new reference)
func (w *slicedW) run(e *hx.Env, s, t int, opt uint32) {
	// reference run
	m0 := w.mk()
	q0 := newQuery(m0.nav, 128)
	filter := areaFilter()
	sp, ep := m0.inner(s, 0, 0.8), m0.inner(t, 2, 0.7)
	ref := runSliced(e, q0, m0.polys[s].ref, m0.polys[t].ref, sp, ep, filter, opt, nil, 64)
	met := map[int]bool{}
	q0.InitSlicedFindPath(m0.polys[s].ref, m0.polys[t].ref, sp, ep, filter, opt)
	q0.UpdateSlicedFindPath(bigIter, nil)
	for _, n := range readPool(m0, q0) {
		met[m0.polys[n.poly].tile] = true
	}
	N := ref.iters
	nops := len(m0.defs) * 3
	for p1 := 0; p1 <= N+1; p1++ {
		for o1 := 0; o1 < nops; o1 += 3 { // the first operation that does something is a removal
			w.history(e, s, t, opt, ref, met, []int{p1}, []int{o1})
			if !w.two {
				continue
			}
			for p2 := p1; p2 <= N+1; p2++ {
				for o2 := 0; o2 < nops; o2++ {
					if o2/3 == o1/3 == (o2%3 == 0) {
						continue // remove twice, or add what is loaded
					}
					w.history(e, s, t, opt, ref, met, []int{p1, p2}, []int{o1, o2})
				}
			}
		}
	}
}

func (w *slicedW) history(e *hx.Env, s, t int, opt uint32, ref *slicedRun, met map[int]bool, points, ops []int) {
	for mode := 0; mode < 2; mode++ {
		w.history1(e, s, t, opt, ref, met, points, ops, mode)
	}
}

func (w *slicedW) history1(e *hx.Env, s, t int, opt uint32, ref *slicedRun, met map[int]bool, points, ops []int, mode int) {
	m := w.mk()
	q := newQuery(m.nav, 128)
	filter := areaFilter()
	sp, ep := m.inner(s, 0, 0.8), m.inner(t, 2, 0.7)
	sref, tref := m.polys[s].ref, m.polys[t].ref
	// everything that existed: references ever valid, by polygon
	ever := map[detour.PolyRef]int{}
	for r, k := range m.idx {
		ever[r] = k
	}
	desc := func() string {
		return fmt.Sprintf("sliced(%d -> %d, options %d), operations %v before updates %v, finalisation %d", s, t, opt, ops, points, mode)
	}
	e.Note("%s %s", w.name, desc())
	touched := false
	apply := func(op int) {
		k := op / 3
		if met[k] {
			touched = true
		}
		if op%3 == 0 {
			if _, st := m.nav.RemoveTile(m.trefs[k]); detour.StatusFailed(st) {
				e.Failf("remove", "%s: RemoveTile: %x", desc(), uint32(st))
			}
			return
		}
		last := m.trefs[k]
		if op%3 == 2 {
			last = 0
		}
		st, r := m.nav.AddTile(m.defs[k].data(), last)
		if detour.StatusFailed(st) {
			e.Failf("add", "%s: AddTile: %x", desc(), uint32(st))
		}
		for i := range m.polys {
			if m.polys[i].tile == k {
				old := m.polys[i].ref
				m.polys[i].ref = detour.PolyRef(r) | (old & (detour.PolyRef(1)<<polyBitsOf(m.nav) - 1))
				m.idx[m.polys[i].ref] = i
				ever[m.polys[i].ref] = i
			}
		}
		m.trefs[k] = r
	}
	valid := func(r detour.PolyRef) bool { return m.nav.IsValidPolyRef(r) }
	e.Eval(1)
	st := q.InitSlicedFindPath(sref, tref, sp, ep, filter, opt)
	e.Step(1)
	k, next := 0, 0
	failed := false
	for ; ; k++ {
		for next < len(ops) && points[next] == k {
			apply(ops[next])
			next++
		}
		if !detour.StatusInProgress(st) || k > len(ref.path)*40+200 {
			if next >= len(ops) {
				break
			}
			if k > 1000 {
				break
			}
			continue
		}
		gone := !valid(sref) || !valid(tref)
		st = q.UpdateSlicedFindPath(1, nil)
		e.Step(1)
		if gone {
			if !detour.StatusFailed(st) {
				e.Failf("gone", "%s: start or goal removed, update reports %x", desc(), uint32(st))
			}
			e.Outcome("start or goal gone")
		}
		if detour.StatusFailed(st) {
			failed = true
		}
	}
	path := make([]detour.PolyRef, 64)
	var n int
	var fst detour.Status
	if mode == 0 {
		n, fst = q.FinalizeSlicedFindPath(path, 64)
	} else {
		n, fst = q.FinalizeSlicedFindPathPartial(ref.path, len(ref.path), path, 64)
	}
	e.Step(1)
	path = path[:n]
	what := func() string {
		return fmt.Sprintf("%s: %x %x (without operations %x %x)", desc(), path, uint32(fst), ref.path, uint32(ref.st))
	}
	e.State(hx.H(s, t, opt, path, uint32(fst)))
	if failed {
		if !detour.StatusFailed(fst) || n != 0 {
			e.Failf("failed-final", "%s: an update failed, finalisation does not", what())
		}
		e.Outcome("failed")
		if !touched {
			e.Failf("spurious", "%s: fails though the search never meets the changed tiles", what())
		}
		e.Trace()
		return
	}
	if detour.StatusFailed(fst) {
		// permitted only if something the search needs is gone
		if !touched {
			e.Failf("spurious", "%s: fails though the search never meets the changed tiles", what())
		}
		e.Outcome("failed at the end")
		e.Trace()
		return
	}
	if n < 1 || path[0] != sref {
		e.Failf("start", "%s: does not start at the start polygon", what())
	}
	for i := range path {
		p, ok := ever[path[i]]
		if !ok {
			e.Failf("never", "%s: element %d never existed", what(), i)
		}
		if i > 0 && !m.connected(ever[path[i-1]], p) {
			e.Failf("gap", "%s: elements %d and %d were never connected", what(), i-1, i)
		}
	}
	partial := detour.StatusDetail(fst, uint32(detour.PartialResult))
	if mode == 0 && !partial && path[n-1] != tref && ever[path[n-1]] != t {
		e.Failf("complete", "%s: no partial flag but the goal is not reached", what())
	}
	if !touched && (fmt.Sprint(path) != fmt.Sprint(ref.path) || fst != ref.st) {
		e.Failf("changed", "%s: the search never meets the changed tiles", what())
	}
	e.Outcome("touched %v partial %v", touched, partial)
	e.Trace()
}

func polyBitsOf(nav *detour.NavMesh) uint {
	// the polygon index occupies the low bits: the reference of tile 0
	// generation 1 polygon 0 has its lowest set bit above them
	bits := uint(0)
	for mp := uint32(1); mp < nav.Params.MaxPolys; mp <<= 1 {
		bits++
	}
	return bits
}
