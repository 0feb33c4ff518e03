package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C08: FindPath corridors and completeness

func init() {
	hx.Register(&hx.Check{
		ID: "C08", Level: "model_checking",
		Rule: "every world of each family x every (start, goal) polygon pair x two placements of the positions, on the real FindPath; oracle: adjacency and breadth-first reachability computed from the world description alone; non-trivial: at least two polygons",
		Assumptions: []string{
			"the reference adjacency (shared edges inside a tile, overlapping border edges across tiles) is right",
		},
		Spaces: func(th bool) []hx.Space { return append(c08Spaces(th), c08Args(), largeSpace(th), combSpace()) },
	})
}

func pathFamilies(th bool) []qfamily {
	fs := []qfamily{
		gridFamily(3, 3, []int{csFull, csAbsent, csForbid}, tiling{3, 3}, false, 0),
		gridFamily(3, 3, []int{csFull, csAbsent, csNoFlag}, tiling{1, 1}, false, 0),
		gridFamily(3, 2, []int{csFull, csAbsent, csForbid, csDiag1, csDiag2}, tiling{2, 1}, true, 2),
		gridFamily(2, 2, []int{csFull, csAbsent, csForbid, csNoFlag, csDiag1, csDiag2}, tiling{2, 2}, false, 1),
		mixedFamily(2, false),
		mixedFamily(2, true),
	}
	if th {
		fs = append(fs,
			gridFamily(4, 3, []int{csFull, csAbsent, csForbid}, tiling{2, 2}, false, 0),
			gridFamily(4, 4, []int{csFull, csAbsent}, tiling{4, 4}, false, 0),
			gridFamily(4, 4, []int{csFull, csAbsent}, tiling{1, 2}, false, 2),
			gridFamily(3, 3, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 2}, false, 2),
			mixedFamily(3, false), mixedFamily(3, true))
	}
	return fs
}

func c08Spaces(th bool) []hx.Space {
	var out []hx.Space
	for _, f := range pathFamilies(th) {
		f := f
		out = append(out, hx.Space{Name: f.name, N: f.n, Bound: f.bound + ", every start/goal pair", Run: func(e *hx.Env, i int64) {
			m := f.mk(i)
			if m == nil || len(m.polys) == 0 {
				return
			}
			if e.Verbose() {
				e.Log("%s", m.describe())
			}
			q := newQuery(m.nav, 256)
			filter := stdFilter()
			for s := range m.polys {
				reach := m.reach(s, func(k int) bool { return accepted(&m.polys[k]) })
				for t := range m.polys {
					for v := 0; v < 2; v++ {
						sp, ep := m.center(s), m.center(t)
						if v == 1 {
							if s == t || len(m.polys) > 12 {
								continue
							}
							sp, ep = m.inner(s, s, 0.3), m.inner(t, t+2, 0.3)
						}
						checkPath(e, m, q, filter, s, t, sp, ep, reach)
					}
				}
			}
			if len(m.polys) > 1 && e.WantSample() {
				e.Sample("%s case %d: %d polygons, %d tiles", f.name, i, len(m.polys), len(m.defs))
			}
		}})
	}
	return out
}

func checkPath(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, filter detour.QueryFilter, s, t int, sp, ep d3.Vec3, reach []int) {
	path := make([]detour.PolyRef, len(m.polys)*4+8)
	const mark = 0xdeadbeef
	for i := range path {
		path[i] = mark
	}
	n, st := q.FindPath(m.polys[s].ref, m.polys[t].ref, sp, ep, filter, path)
	e.Step(1)
	e.Eval(1)
	e.State(hx.H(m.names(path[:max(0, min(n, len(path)))]), uint32(st)))
	what := func() string {
		return fmt.Sprintf("FindPath(%d -> %d) = %v, %x", s, t, m.names(path[:max(0, min(n, len(path)))]), uint32(st))
	}
	e.Log("%s", what())
	if detour.StatusFailed(st) || !detour.StatusSucceed(st) || n < 1 || n > len(path) {
		e.Failf("failed", "%s: no result for valid arguments", what())
	}
	for i := n; i < len(path); i++ {
		if path[i] != mark {
			e.Failf("overrun", "%s: wrote element %d beyond the result", what(), i)
		}
	}
	if uint32(st)&^uint32(detour.Success|detour.PartialResult) != 0 {
		e.Failf("flags", "%s: unexpected status details (enough nodes and space)", what())
	}
	if path[0] != m.polys[s].ref {
		e.Failf("start", "%s: does not start at the start polygon", what())
	}
	for i := 1; i < n; i++ {
		k, ok := m.idx[path[i]]
		if !ok {
			e.Failf("unknown", "%s: element %d is no polygon", what(), i)
		}
		p := m.idx[path[i-1]]
		if !m.connected(p, k) {
			e.Failf("gap", "%s: %d and %d are not connected", what(), p, k)
		}
		if !accepted(&m.polys[k]) {
			e.Failf("filter", "%s: %d is rejected by the filter", what(), k)
		}
	}
	last := m.idx[path[n-1]]
	partial := detour.StatusDetail(st, uint32(detour.PartialResult))
	if reach[t] >= 0 {
		if last != t || partial {
			e.Failf("incomplete", "%s: the goal is reachable in %d steps", what(), reach[t])
		}
		e.Outcome("complete")
		if n-1 < reach[t] {
			e.Failf("tooshort", "%s: shorter than the shortest corridor (%d)", what(), reach[t])
		}
	} else {
		if !partial || last == t {
			e.Failf("notpartial", "%s: the goal is not reachable", what())
		}
		e.Outcome("partial")
		// the last polygon is the one nearest to the goal among the reachable
		// ones, measured from the edge it is entered through
		lo, hi := entryDist(m, s, last, sp, ep, reach)
		_ = hi
		for k := range m.polys {
			if reach[k] < 0 {
				continue
			}
			_, khi := entryDist(m, s, k, sp, ep, reach)
			if lo > khi+1e-3 {
				e.Failf("notnearest", "%s: reachable polygon %d is nearer to the goal than the last one (%g < %g)", what(), k, khi, lo)
			}
		}
	}
	e.Trace()
}

// entryDist is the range of distances to ep of the portal midpoints through
// which k can be entered.
func entryDist(m *qmesh, s, k int, sp, ep d3.Vec3, reach []int) (lo, hi float64) {
	lo, hi = math.Inf(1), 0
	if k == s { // the start, or entered again through another tile side
		lo = dist3(sp, ep)
		hi = lo
	}
	for i := range m.polys {
		if reach[i] < 0 {
			continue
		}
		for _, o := range m.polys[i].out {
			if o.to != k {
				continue
			}
			mid := []float32{float32(o.left[0]+o.right[0]) / 2, float32(o.left[1]+o.right[1]) / 2, float32(o.left[2]+o.right[2]) / 2}
			d := dist3(mid, ep)
			lo, hi = math.Min(lo, d-0.02), math.Max(hi, d+0.02)
		}
	}
	return
}

func c08Args() hx.Space {
	// each argument valid or in one of its invalid forms
	dims := []int{6, 6, 3, 3, 2, 3}
	return hx.Space{Name: "arguments", N: hx.Prod(dims...), Bound: "every combination of valid and invalid arguments", Run: func(e *hx.Env, i int64) {
		d := hx.NewDec(i)
		f := gridFamily(2, 2, []int{csFull}, tiling{1, 1}, false, 0)
		m := f.mk(0)
		// a stale reference: remove and re-add the last tile
		stale := m.polys[3].ref
		m.nav.RemoveTile(m.trefs[3])
		_, tr := m.nav.AddTile(m.defs[3].data(), 0)
		m.polys[3].ref = detour.PolyRef(tr)
		m.idx[m.polys[3].ref] = 3
		var salt, it, ip uint32
		m.nav.DecodePolyID(m.polys[0].ref, &salt, &it, &ip)
		ref := func(k int, good detour.PolyRef) (detour.PolyRef, bool) {
			switch k {
			case 0:
				return good, true
			case 1:
				return 0, false
			case 2:
				return stale, false
			case 3:
				return m.polys[0].ref + 1, false // no such polygon
			case 4:
				return 0xffffffff, false
			}
			return m.polys[0].ref &^ detour.PolyRef(0) & 0x3, false // index bits only
		}
		q := newQuery(m.nav, 64)
		s, ok1 := ref(d.Next(dims[0]), m.polys[0].ref)
		t, ok2 := ref(d.Next(dims[1]), m.polys[3].ref)
		vec := func(k int, v d3.Vec3) (d3.Vec3, bool) {
			switch k {
			case 1:
				return v[:2], false
			case 2:
				return nil, false
			}
			return v, true
		}
		sp, ok3 := vec(d.Next(dims[2]), m.center(0))
		ep, ok4 := vec(d.Next(dims[3]), m.center(3))
		var filter detour.QueryFilter = stdFilter()
		ok5 := true
		if d.Next(dims[4]) == 1 {
			filter, ok5 = nil, false
		}
		path, ok6 := make([]detour.PolyRef, 8), true
		switch d.Next(dims[5]) {
		case 1:
			path, ok6 = nil, false
		case 2:
			path, ok6 = path[:0], false
		}
		var n int
		var st detour.Status
		if p := try(func() { n, st = q.FindPath(s, t, sp, ep, filter, path) }); p != nil {
			e.Failf("args-panic", "FindPath with invalid arguments (case %d) panics: %v", i, p)
		}
		e.Step(1)
		good := ok1 && ok2 && ok3 && ok4 && ok5 && ok6
		if good {
			if st != detour.Success || n != 3 {
				e.Failf("args-good", "FindPath with valid arguments: %d, %x", n, uint32(st))
			}
		} else if st != detour.Failure|detour.InvalidParam || n != 0 {
			e.Failf("args", "FindPath with invalid arguments (case %d): %d, %x", i, n, uint32(st))
		}
		e.Outcome("valid %v", good)
		e.State(hx.H(i))
		e.Trace()
	}}
}
