package checks

import (
	"fmt"
	"math"
	"sort"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C10: sliced searches

func init() {
	hx.Register(&hx.Check{
		ID: "C10", Level: "model_checking",
		Rule: "every world of each family x every (start, goal) pair x with/without any-angle shortcuts x every division of the search into update calls (all compositions of the iteration count up to the bound, all uniform and all two-part divisions beyond it, with zero-budget calls interleaved) on the real sliced search, compared with the same search in one call and with FindPath; plus finalisation towards an existing corridor after every number of iterations; non-trivial: the search takes at least two iterations",
		Assumptions: []string{
			"agreement with FindPath is required where the sliced search makes the same expansions: one tile, no any-angle shortcuts, no three mutually adjacent polygons",
		},
		Spaces: func(th bool) []hx.Space {
			fs := []qfamily{
				gridFamily(3, 3, []int{csFull, csAbsent}, tiling{3, 3}, false, 0),
				gridFamily(3, 2, []int{csFull, csAbsent, csForbid}, tiling{1, 1}, false, 2),
				gridFamily(2, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 2}, false, 1),
				areaFamily(3, 2, tiling{3, 2}, 2),
				areaFamily(3, 3, tiling{3, 3}, 2),
				areaFamily(4, 2, tiling{2, 2}, 2),
				gridFamily(3, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 1}, false, 2),
				scaled(3, 2, []int{csFull, csAbsent, csDiag1}, tiling{3, 2}, 0.04),
				scaled(3, 2, []int{csFull, csAbsent, csDiag1}, tiling{2, 1}, 37),
			}
			if th {
				fs = append(fs,
					gridFamily(4, 3, []int{csFull, csAbsent}, tiling{4, 3}, false, 0),
					gridFamily(4, 3, []int{csFull, csAbsent}, tiling{1, 2}, false, 2),
					areaFamily(3, 3, tiling{3, 3}, 3),
					areaFamily(3, 3, tiling{1, 1}, 2),
					areaFamily(4, 3, tiling{4, 3}, 2),
					mixedFamily(2, false), mixedFamily(2, true))
			}
			var out []hx.Space
			for _, f := range fs {
				f := f
				lim := 6
				if th {
					lim = 9
				}
				out = append(out, hx.Space{Name: f.name, N: f.n, Bound: f.bound + fmt.Sprintf(", every pair, all compositions up to %d iterations", lim), Run: func(e *hx.Env, i int64) {
					m := f.mk(i)
					if m == nil || len(m.polys) == 0 {
						return
					}
					if e.Verbose() {
						e.Log("%s", m.describe())
					}
					slicedWorld(e, m, lim)
				}})
			}
			return out
		},
	})
}

// areaFamily: full grid, every assignment of n areas (costs 1, 5, 2).
func areaFamily(w, h int, til tiling, n int) qfamily {
	return qfamily{
		name:  fmt.Sprintf("areas%dx%d-n%d-tile%dx%d", w, h, n, til.tw, til.th),
		bound: fmt.Sprintf("all %d^%d area assignments to a %dx%d grid with tiles %dx%d", n, w*h, w, h, til.tw, til.th),
		n:     hx.Pow(n, w*h),
		mk: func(i int64) *qmesh {
			d := hx.NewDec(i)
			g := newGrid(w, h)
			g.TW, g.TH = til.tw, til.th
			for k := range g.cells {
				g.cells[k].area = uint8(d.Next(n))
			}
			return buildQ(g, stateTiles(g, make([]int, w*h), 0), nil)
		},
	}
}

func areaFilter() *detour.StandardQueryFilter {
	f := stdFilter()
	f.SetAreaCost(1, 5)
	f.SetAreaCost(2, 2)
	return f
}

// triangleFree: no three mutually adjacent polygons.
func (m *qmesh) triangleFree() bool {
	for a := range m.polys {
		for _, o := range m.polys[a].out {
			for _, p := range m.polys[o.to].out {
				if p.to != a && m.connected(p.to, a) {
					return false
				}
			}
		}
	}
	return true
}

type slicedRun struct {
	iters int
	upd   detour.Status // status of the last update
	n     int
	st    detour.Status
	path  []detour.PolyRef
}

func (r *slicedRun) String() string {
	return fmt.Sprintf("iters %d update status %x path %x status %x", r.iters, uint32(r.upd), r.path, uint32(r.st))
}

const bigIter = 1 << 20

// runSliced performs a sliced search with the given budgets, then unlimited.
func runSliced(e *hx.Env, q *detour.NavMeshQuery, s, t detour.PolyRef, sp, ep d3.Vec3, filter detour.QueryFilter, opt uint32, budgets []int, maxPath int) *slicedRun {
	r := &slicedRun{}
	st := q.InitSlicedFindPath(s, t, sp, ep, filter, opt)
	r.upd = st
	if s == t {
		if st != detour.Success {
			e.Failf("init-same", "InitSlicedFindPath with start == goal: %x", uint32(st))
		}
	} else if st != detour.InProgress {
		e.Failf("init", "InitSlicedFindPath: %x", uint32(st))
	}
	for k := 0; k <= len(budgets)+1; k++ {
		b := bigIter
		if k < len(budgets) {
			b = budgets[k]
		}
		was := r.upd
		done := 0
		r.upd = q.UpdateSlicedFindPath(b, &done)
		e.Step(1)
		if !detour.StatusInProgress(was) {
			done = 0
		}
		if done < 0 || done > b {
			e.Failf("iterations", "an update with budget %d reports %d iterations", b, done)
		}
		r.iters += done
		if detour.StatusInProgress(r.upd) {
			if done != b {
				e.Failf("lazy", "an update with budget %d did %d iterations and is still in progress", b, done)
			}
			if b == bigIter {
				e.Failf("endless", "still in progress after %d iterations", b)
			}
		} else if !detour.StatusSucceed(r.upd) {
			e.Failf("update", "update reports %x", uint32(r.upd))
		}
	}
	path := make([]detour.PolyRef, maxPath)
	r.n, r.st = q.FinalizeSlicedFindPath(path, maxPath)
	e.Step(1)
	r.path = path[:r.n]
	return r
}

// checkCorridor judges a corridor from s: connected, accepted; returns the
// last polygon.
func checkCorridor(e *hx.Env, m *qmesh, key string, path []detour.PolyRef, s int, what func() string) int {
	if len(path) == 0 || path[0] != m.polys[s].ref {
		e.Failf(key+"-start", "%s: does not start at the start polygon", what())
	}
	last := s
	for i := 1; i < len(path); i++ {
		k, ok := m.idx[path[i]]
		if !ok {
			e.Failf(key+"-unknown", "%s: element %d (%x) is no polygon", what(), i, uint32(path[i]))
		}
		if !m.connected(last, k) {
			e.Failf(key+"-gap", "%s: %d and %d are not connected", what(), last, k)
		}
		if !accepted(&m.polys[k]) {
			e.Failf(key+"-filter", "%s: %d is rejected by the filter", what(), k)
		}
		last = k
	}
	return last
}

func slicedWorld(e *hx.Env, m *qmesh, lim int) {
	q := newQuery(m.nav, 256)
	filter := areaFilter()
	comparable := len(m.defs) == 1 && m.triangleFree()
	for s := range m.polys {
		reach := m.reach(s, func(k int) bool { return accepted(&m.polys[k]) })
		for t := range m.polys {
			sp, ep := m.inner(s, t, 0.7), m.inner(t, s+1, 0.6)
			for _, opt := range []uint32{0, detour.FindPathAnyAngle} {
				sr, tr := m.polys[s].ref, m.polys[t].ref
				maxPath := 4*len(m.polys) + 8
				ref := runSliced(e, q, sr, tr, sp, ep, filter, opt, nil, maxPath)
				what := func() string {
					return fmt.Sprintf("sliced(%d -> %d, options %d): %v (polygons %v)", s, t, opt, ref, m.names(ref.path))
				}
				e.Log("%s", what())
				e.Eval(1)
				last := checkCorridor(e, m, fmt.Sprintf("opt%d", opt), ref.path, s, what)
				partial := detour.StatusDetail(ref.st, uint32(detour.PartialResult))
				if ref.st&^(detour.Success|detour.PartialResult) != 0 || ref.st&detour.Success == 0 {
					e.Failf("status", "%s: unexpected status", what())
				}
				if reach[t] >= 0 && (last != t || partial) {
					e.Failf("incomplete", "%s: the goal is reachable", what())
				}
				if reach[t] < 0 && !partial {
					e.Failf("notpartial", "%s: the goal is not reachable", what())
				}
				e.Outcome("opt %d partial %v", opt, partial)
				e.State(hx.H(m.names(ref.path), ref.iters))
				if opt == 0 && comparable {
					p := make([]detour.PolyRef, maxPath)
					n, st := q.FindPath(sr, tr, sp, ep, filter, p)
					e.Step(1)
					if st != ref.st || fmt.Sprint(p[:n]) != fmt.Sprint(ref.path) {
						e.Failf("findpath", "%s: FindPath gives %v %x", what(), m.names(p[:n]), uint32(st))
					}
				}
				e.Trace()
				if s == t || ref.iters < 2 {
					continue
				}
				if opt != 0 {
					shortcutCosts(e, m, q, s, t, sp, ep, filter, what)
				}
				same := func(budgets []int) {
					r := runSliced(e, q, sr, tr, sp, ep, filter, opt, budgets, maxPath)
					e.Eval(1)
					if r.iters != ref.iters || r.st != ref.st || r.upd != ref.upd || fmt.Sprint(r.path) != fmt.Sprint(ref.path) {
						e.Failf("slicing", "%s: with update budgets %v: %v", what(), budgets, r)
					}
					e.Trace()
				}
				N := ref.iters
				if N <= lim {
					for _, c := range compositions(N) {
						same(c)
					}
					if N <= 5 {
						// a zero-budget update before every part
						for _, c := range compositions(N) {
							var z []int
							for _, x := range c {
								z = append(z, 0, x)
							}
							same(append(z, 0))
						}
					}
				} else {
					for k := 1; k <= N; k++ {
						var c []int
						for r := 0; r < N+k; r += k {
							c = append(c, k)
						}
						same(c)
						same([]int{k, 0, N - k})
					}
				}
				// finalisation in progress and towards an existing corridor
				for k := 0; k <= N; k++ {
					for mode := 0; mode < 4; mode++ {
						finalizeAfter(e, m, q, s, t, sp, ep, filter, opt, k, mode, ref, what)
					}
				}
			}
		}
	}
}

func finalizeAfter(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, s, t int, sp, ep d3.Vec3, filter detour.QueryFilter, opt uint32, k, mode int, ref *slicedRun, what0 func() string) {
	maxPath := 4*len(m.polys) + 8
	st := q.InitSlicedFindPath(m.polys[s].ref, m.polys[t].ref, sp, ep, filter, opt)
	st = q.UpdateSlicedFindPath(k, nil)
	e.Step(2)
	visited := map[detour.PolyRef]bool{}
	for _, n := range readPool(m, q) {
		visited[n.id] = true
	}
	path := make([]detour.PolyRef, maxPath)
	var n int
	var fst detour.Status
	var existing []detour.PolyRef
	switch mode {
	case 0:
		n, fst = q.FinalizeSlicedFindPath(path, maxPath)
	case 1: // the whole corridor of the complete search
		existing = ref.path
	case 2: // a corridor that the search may not have seen: a polygon far from the start
		existing = []detour.PolyRef{m.polys[len(m.polys)-1].ref}
	case 3: // backwards corridor: furthest = start
		for i := len(ref.path) - 1; i >= 0; i-- {
			existing = append(existing, ref.path[i])
		}
	}
	if mode > 0 {
		n, fst = q.FinalizeSlicedFindPathPartial(existing, len(existing), path, maxPath)
	}
	e.Step(1)
	e.Eval(1)
	path = path[:n]
	what := func() string {
		return fmt.Sprintf("%s; finalized after %d iterations (mode %d, update status %x): %v %x", what0(), k, mode, uint32(st), m.names(path), uint32(fst))
	}
	last := checkCorridor(e, m, fmt.Sprintf("final%d-opt%d", mode, opt), path, s, what)
	if !detour.StatusSucceed(fst) {
		e.Failf("final-failed", "%s", what())
	}
	partial := detour.StatusDetail(fst, uint32(detour.PartialResult))
	if mode == 0 {
		if partial != (last != t) {
			e.Failf("final-partial", "%s: partial flag", what())
		}
		if !visited[m.polys[last].ref] {
			e.Failf("final-unvisited", "%s: ends at a polygon the search has not met", what())
		}
	} else {
		furthest := -1
		for i := len(existing) - 1; i >= 0; i-- {
			if visited[existing[i]] {
				furthest = m.idx[existing[i]]
				break
			}
		}
		if furthest >= 0 && last != furthest {
			e.Failf("final-furthest", "%s: the furthest visited polygon of the given corridor %v is %d", what(), m.names(existing), furthest)
		}
		if furthest < 0 && !partial {
			e.Failf("final-nothing", "%s: nothing of the given corridor was visited, partial flag expected", what())
		}
	}
	e.Trace()
}

// shortcutCosts compares the costs recorded by an any-angle search with the
// costs of the straight segments between each node and its parent.
func shortcutCosts(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, s, t int, sp, ep d3.Vec3, filter *detour.StandardQueryFilter, what func() string) {
	q.InitSlicedFindPath(m.polys[s].ref, m.polys[t].ref, sp, ep, filter, detour.FindPathAnyAngle)
	q.UpdateSlicedFindPath(bigIter, nil)
	e.Step(2)
	nodes := readPool(m, q)
	goal := 1e30
	for i := range nodes {
		if nodes[i].poly == t && nodes[i].total < goal {
			goal = nodes[i].total
		}
	}
	for i := range nodes {
		v := &nodes[i]
		if v.parent < 0 {
			continue
		}
		u := &nodes[v.parent]
		if u.total > goal-1e-4*(1+goal) {
			continue
		}
		want, ok := 0.0, true
		if m.connected(u.poly, v.poly) {
			want = dist3(u.pos, v.pos) * float64(filter.AreaCost(int32(m.polys[u.poly].area)))
			e.Outcome("direct step")
		} else {
			want, ok = segmentCost(m, u.pos, v.pos, filter)
			if !ok {
				e.Outcome("ambiguous shortcut")
				continue
			}
			e.Outcome("shortcut")
		}
		if v.poly == t {
			want += dist3(v.pos, ep) * float64(filter.AreaCost(int32(m.polys[t].area)))
		}
		got := v.cost - u.cost
		if m.connected(u.poly, v.poly) && got < want {
			// an adjacent parent may also be seen through a third polygon
			if w2, ok := segmentCost(m, u.pos, v.pos, filter); ok {
				if v.poly == t {
					w2 += dist3(v.pos, ep) * float64(filter.AreaCost(int32(m.polys[t].area)))
				}
				want = w2
			} else {
				continue
			}
		}
		if d := got - want; d > 1e-3*(1+want) || d < -1e-3*(1+want) {
			e.Failf("anyangle-cost", "%s: polygon %d costs %g more than its parent %d; the straight segment %v %v costs %g", what(), v.poly, got, u.poly, u.pos, v.pos, want)
		}
	}
}

// segmentCost integrates the area costs along a segment, the heights at the
// borders being those of the edges it leaves through; false if it leaves the
// mesh or runs along an edge or through a corner.
func segmentCost(m *qmesh, a, b []float32, filter *detour.StandardQueryFilter) (float64, bool) {
	type part struct {
		k      int
		t0, t1 float64
		y      float64
	}
	ax, az, bx, bz := float64(a[0]), float64(a[2]), float64(b[0]), float64(b[2])
	var parts []part
	for k := range m.polys {
		v := m.polys[k].v
		area := 0.0
		for i := range v {
			w := v[(i+1)%len(v)]
			area += v[i][0]*w[2] - w[0]*v[i][2]
		}
		t0, t1, exit, touch := 0.0, 1.0, -1, false
		for i := range v {
			w := v[(i+1)%len(v)]
			l := math.Hypot(w[0]-v[i][0], w[2]-v[i][2])
			side := func(x, z float64) float64 {
				s := ((w[0]-v[i][0])*(z-v[i][2]) - (w[2]-v[i][2])*(x-v[i][0])) / l
				if area < 0 {
					s = -s
				}
				return s
			}
			d0, d1 := side(ax, az), side(bx, bz)
			const eps = 1e-4
			switch {
			case math.Abs(d0) < eps && math.Abs(d1) < eps:
				touch = true
			case d0 < d1:
				if t := d0 / (d0 - d1); d0 < 0 && t > t0 {
					t0 = t
				} else if d1 < 0 {
					t0 = 2
				}
			default:
				if d0 < 0 {
					t1 = -1
				} else if t := d0 / (d0 - d1); d1 < 0 && t < t1 {
					t1, exit = t, i
				}
			}
		}
		if t1-t0 < 1e-7 {
			continue
		}
		if touch {
			return 0, false
		}
		p := part{k, t0, t1, 0}
		if exit >= 0 {
			u, w := v[exit], v[(exit+1)%len(v)]
			x, z := ax+(bx-ax)*t1, az+(bz-az)*t1
			l := math.Hypot(w[0]-u[0], w[2]-u[2])
			f := math.Hypot(x-u[0], z-u[2]) / l
			if f < 1e-4 || f > 1-1e-4 {
				return 0, false
			}
			p.y = u[1] + (w[1]-u[1])*f
		}
		parts = append(parts, p)
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].t0 < parts[j].t0 })
	sum, at, y := 0.0, 0.0, float64(a[1])
	for i, p := range parts {
		if math.Abs(p.t0-at) > 1e-5 {
			return 0, false
		}
		if i == len(parts)-1 {
			if p.t1 < 1-1e-5 {
				return 0, false
			}
			p.t1, p.y = 1, float64(b[1])
		}
		sum += math.Hypot(math.Hypot(bx-ax, bz-az)*(p.t1-p.t0), p.y-y) * float64(filter.AreaCost(int32(m.polys[p.k].area)))
		at, y = p.t1, p.y
	}
	if len(parts) == 0 || math.Abs(at-1) > 1e-5 {
		return 0, false
	}
	return sum, true
}
