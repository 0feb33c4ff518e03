package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C14: raycasts

func init() {
	hx.Register(&hx.Check{
		ID: "C14", Level: "model_checking",
		Rule: "every mesh of each family x every start polygon and position x every target position (in every polygon, on and beyond the border) x {costs, fresh or dirty hit record, previous polygon, every path buffer size} on the real Raycast/Raycast2; oracle: exact walk of the segment through the polygons in float64 with portals computed from the tile definitions; each call of the cost function compared with that walk; non-trivial: at least one polygon",
		Assumptions: []string{
			"a ray within 1/1000 of a vertex (1/50 of the end of a border portal, which is quantised) may take either side there: for those the visited polygons are only checked for being connected, accepted and touched by the segment",
		},
		Spaces: func(th bool) []hx.Space { return c14Spaces(th) },
	})
}

func c14Spaces(th bool) []hx.Space {
	var out []hx.Space
	for _, f := range rayFamilies(th) {
		f := f
		out = append(out, hx.Space{Name: f.name, N: f.n, Bound: f.bound + ", every ray of the position lattice", Run: func(e *hx.Env, i int64) {
			m := f.mk(i)
			if m == nil || len(m.polys) == 0 {
				return
			}
			if e.Verbose() {
				e.Log("%s", m.describe())
			}
			for k := range m.polys {
				m.polys[k].area = uint8(1 + k%3)
				var tile *detour.MeshTile
				var poly *detour.Poly
				m.nav.TileAndPolyByRefUnsafe(m.polys[k].ref, &tile, &poly)
				poly.SetArea(m.polys[k].area)
			}
			q := newQuery(m.nav, 16)
			// targets: in all polygons, and around the mesh
			lo, hi := [2]float64{math.Inf(1), math.Inf(1)}, [2]float64{math.Inf(-1), math.Inf(-1)}
			var targets []d3.Vec3
			for t := range m.polys {
				targets = append(targets, m.center(t), m.inner(t, 1, 0.21))
				for _, v := range m.polys[t].v {
					lo[0], hi[0] = math.Min(lo[0], v[0]), math.Max(hi[0], v[0])
					lo[1], hi[1] = math.Min(lo[1], v[2]), math.Max(hi[1], v[2])
				}
			}
			for x := -1; x <= 3; x++ {
				for z := -1; z <= 3; z++ {
					if x >= 0 && x < 3 && z >= 0 && z < 3 {
						continue
					}
					targets = append(targets, d3.Vec3{float32(lo[0] + (hi[0]-lo[0])*(float64(x)+0.37)/2.7), 1, float32(lo[1] + (hi[1]-lo[1])*(float64(z)+0.41)/2.7)})
				}
			}
			for s := range m.polys {
				for v, sp := range []d3.Vec3{m.inner(s, 0, 0.37), m.inner(s, 2, 0.83)} {
					for t, ep := range targets {
						checkRay(e, m, q, s, sp, ep, (v+t)%7)
					}
				}
			}
		}})
	}
	out = append(out, longRays())
	return out
}

func rayFamilies(th bool) []qfamily {
	if th {
		return []qfamily{
			gridFamily(3, 3, []int{csFull, csAbsent, csForbid}, tiling{3, 3}, false, 0),
			gridFamily(3, 3, []int{csFull, csAbsent, csNoFlag}, tiling{1, 1}, false, 0),
			gridFamily(3, 2, []int{csFull, csAbsent, csForbid, csDiag1, csDiag2}, tiling{2, 1}, true, 2),
			gridFamily(2, 2, []int{csFull, csAbsent, csForbid, csNoFlag, csDiag1, csDiag2}, tiling{2, 2}, false, 1),
			gridFamily(4, 3, []int{csFull, csAbsent}, tiling{2, 2}, false, 0),
			gridFamily(3, 3, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 2}, false, 2),
			mixedFamily(2, false), mixedFamily(2, true), mixedFamily(3, false),
			scaled(3, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{3, 2}, 0.04),
			scaled(3, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 1}, 37),
		}
	}
	return []qfamily{
		gridFamily(3, 3, []int{csFull, csAbsent, csForbid}, tiling{3, 3}, false, 0),
		gridFamily(3, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 1}, true, 2),
		gridFamily(2, 2, []int{csFull, csAbsent, csForbid, csNoFlag, csDiag1, csDiag2}, tiling{1, 1}, false, 1),
		mixedFamily(2, false),
		mixedFamily(2, true),
		scaled(3, 2, []int{csFull, csAbsent, csDiag1}, tiling{3, 2}, 0.04),
		scaled(2, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 2}, 37),
		scaled(3, 2, []int{csFull, csAbsent}, tiling{2, 1}, 37),
	}
}

// rayWalk is the exact walk of a ray.
type rayWalk struct {
	path    []int
	exits   [][3]float64 // point at which each polygon is left (height of the edge)
	t       float64      // hit parameter, +Inf: none
	edge    int          // edge hit, -1: none
	generic bool
}

func (m *qmesh) walkRay(s int, a, b p2, ok func(int) bool) rayWalk {
	w := rayWalk{t: math.Inf(1), edge: -1, generic: true}
	k := s
	for {
		w.path = append(w.path, k)
		if len(w.path) > 4*len(m.polys) {
			w.generic = false
			return w
		}
		v := m.polys[k].v
		// leave through the first edge line crossed outwards
		te, ee := math.Inf(1), -1
		for i := range v {
			c, d := p2{v[i][0], v[i][2]}, p2{v[(i+1)%len(v)][0], v[(i+1)%len(v)][2]}
			// vertices run such that the inside has cross2(c, d, p) < 0 (see center)
			ctr := m.center(k)
			in := cross2(c, d, p2{float64(ctr[0]), float64(ctr[2])})
			ca, cb := cross2(c, d, a), cross2(c, d, b)
			if in < 0 {
				ca, cb = -ca, -cb
			}
			if cb < 0 && ca > cb {
				if t := ca / (ca - cb); t < te {
					te, ee = t, i
				}
			}
		}
		if te > 1 || ee < 0 {
			if ee >= 0 && te < 1+1e-4 {
				w.generic = false
			}
			// close to the outline counts as not generic, too
			for i := range v {
				if distSeg(b, p2{v[i][0], v[i][2]}, p2{v[(i+1)%len(v)][0], v[(i+1)%len(v)][2]}) < 1e-3 {
					w.generic = false
				}
			}
			return w
		}
		x := p2{a.x + (b.x-a.x)*te, a.z + (b.z-a.z)*te}
		c, d := v[ee], v[(ee+1)%len(v)]
		if x.dist(b) < 1e-3 || x.dist(p2{c[0], c[2]}) < 1e-3 || x.dist(p2{d[0], d[2]}) < 1e-3 {
			w.generic = false
		}
		f := x.dist(p2{c[0], c[2]}) / p2{c[0], c[2]}.dist(p2{d[0], d[2]})
		w.exits = append(w.exits, [3]float64{x.x, c[1] + (d[1]-c[1])*f, x.z})
		next := -1
		for _, o := range m.polys[k].out {
			if o.edge != ee || !ok(o.to) {
				continue
			}
			l, r := p2{o.left[0], o.left[2]}, p2{o.right[0], o.right[2]}
			if distSeg(x, l, r) < 1e-6 {
				next = o.to
			}
			if o.cross && (x.dist(l) < 0.02 || x.dist(r) < 0.02) {
				w.generic = false
			}
		}
		if next < 0 {
			w.t, w.edge = te, ee
			return w
		}
		k = next
	}
}

type costCall struct {
	pa, pb          d3.Vec3
	prev, cur, next detour.PolyRef
}

// rayFilter accepts like stdFilter and records all cost calls.
type rayFilter struct {
	m     *qmesh
	calls []costCall
}

func (f *rayFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	return poly.Flags&1 != 0 && poly.Flags&2 == 0
}

func (f *rayFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	f.calls = append(f.calls, costCall{d3.NewVec3From(pa), d3.NewVec3From(pb), prevRef, curRef, nextRef})
	return pa.Dist(pb) * float32(curPoly.Area())
}

func (f *rayFilter) String() string { return "" }

func checkRay(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, s int, sp, ep d3.Vec3, variant int) {
	ok := func(k int) bool { return accepted(&m.polys[k]) }
	w := m.walkRay(s, toP2(sp), toP2(ep), ok)
	size := 64
	if len(m.polys) > 300 {
		size += len(m.polys)
	}
	path := make([]detour.PolyRef, size)
	hit := detour.RaycastHit{Path: path, MaxPath: size - 4}
	dirty := variant&1 != 0
	if dirty {
		hit.T, hit.PathCost, hit.PathCount, hit.HitEdgeIndex, hit.HitNormal = 0.93, 17, 9, 3, d3.Vec3{1, 2, 3}
	}
	opt := 0
	if variant&2 != 0 {
		opt = detour.RaycastUseCosts
	}
	var prev detour.PolyRef
	if variant&4 != 0 {
		prev = m.polys[(s+1)%len(m.polys)].ref
	}
	f := &rayFilter{m: m}
	st := q.Raycast(m.polys[s].ref, sp, ep, f, opt, &hit, prev)
	e.Step(1)
	e.Eval(1)
	what := func() string {
		return fmt.Sprintf("raycast %v -> %v from polygon %d (dirty record %v, options %d): t %g edge %d normal %v path %v cost %g status %x; expected %+v", sp, ep, s, dirty, opt, hit.T, hit.HitEdgeIndex, hit.HitNormal, m.names(path[:max(0, min(size, hit.PathCount))]), hit.PathCost, uint32(st), w)
	}
	e.Log("%s", what())
	if st != detour.Success || hit.PathCount < 1 || hit.PathCount > size-4 {
		e.Failf("status", "%s", what())
	}
	got := m.names(path[:hit.PathCount])
	for _, g := range got {
		if g < 0 {
			e.Failf("foreign", "%s: unknown polygon", what())
		}
	}
	for i := hit.PathCount; i < size; i++ {
		if path[i] != 0 {
			e.Failf("overrun", "%s: element %d of the path written", what(), i)
		}
	}
	lost := false
	noHit := hit.T == math.MaxFloat32
	if !noHit && !(hit.T >= 0 && hit.T <= 1.0001) {
		e.Failf("t", "%s", what())
	}
	// every visited polygon is touched by the segment, reached by a
	// connection, and accepted
	for i, g := range got {
		if i == 0 {
			if g != s {
				e.Failf("first", "%s", what())
			}
			continue
		}
		if !m.connected(got[i-1], g) || !ok(g) {
			e.Failf("path", "%s: step %d", what(), i)
		}
		touched := false
		v := m.polys[g].v
		for k := range v {
			if segSegDist(toP2(sp), toP2(ep), p2{v[k][0], v[k][2]}, p2{v[(k+1)%len(v)][0], v[(k+1)%len(v)][2]}) < 0.01 {
				touched = true
			}
		}
		if !touched {
			e.Failf("touch", "%s: polygon %d is not touched", what(), g)
		}
	}
	last := got[len(got)-1]
	lv := m.polys[last].v
	if noHit {
		if hit.HitEdgeIndex != -1 {
			e.Failf("no-hit-edge", "%s", what())
		}
		if hit.HitNormal[0] != 0 || hit.HitNormal[1] != 0 || hit.HitNormal[2] != 0 {
			e.Failf("no-hit-normal", "%s", what())
		}
		if toP2(ep).dist(m.clampTo(last, toP2(ep))) > 1e-3 {
			e.Failf("end", "%s: end is not in the last polygon", what())
		}
	} else if !w.generic && hit.HitNormal[0] == 0 && hit.HitNormal[2] == 0 {
		// taken for the wrong one of two quantised portals that meet here
		lost = true
		e.Outcome("lost between two border portals")
	} else {
		if hit.HitEdgeIndex < 0 || hit.HitEdgeIndex >= len(lv) {
			e.Failf("edge", "%s", what())
		}
		c, d := lv[hit.HitEdgeIndex], lv[(hit.HitEdgeIndex+1)%len(lv)]
		c2, d2 := p2{c[0], c[2]}, p2{d[0], d[2]}
		x := p2{float64(sp[0]) + float64(ep[0]-sp[0])*float64(hit.T), float64(sp[2]) + float64(ep[2]-sp[2])*float64(hit.T)}
		if distSeg(x, c2, d2) > 2e-3 {
			e.Failf("hit-point", "%s: %v is not on the edge hit", what(), x)
		}
		// horizontal unit normal of the edge, towards the inside
		n := p2{float64(hit.HitNormal[0]), float64(hit.HitNormal[2])}
		dir := p2{(d2.x - c2.x) / c2.dist(d2), (d2.z - c2.z) / c2.dist(d2)}
		if hit.HitNormal[1] != 0 || math.Abs(math.Hypot(n.x, n.z)-1) > 1e-3 || math.Abs(n.x*dir.x+n.z*dir.z) > 1e-3 {
			e.Failf("normal", "%s: not a unit normal of the edge", what())
		}
		ctr := m.center(last)
		if n.x*(float64(ctr[0])-c2.x)+n.z*(float64(ctr[2])-c2.z) < 0 {
			e.Failf("normal-side", "%s: normal does not face the inside", what())
		}
		// the wall is real: no open connection strictly around the point
		for _, o := range m.polys[last].out {
			if o.edge != hit.HitEdgeIndex || !ok(o.to) {
				continue
			}
			l, r := p2{o.left[0], o.left[2]}, p2{o.right[0], o.right[2]}
			if distSeg(x, l, r) < 1e-4 && x.dist(l) > 0.03 && x.dist(r) > 0.03 {
				e.Failf("open", "%s: the edge is open towards polygon %d at the hit", what(), o.to)
			}
		}
	}
	if w.generic {
		if fmt.Sprint(got) != fmt.Sprint(w.path) {
			e.Failf("walk", "%s", what())
		}
		if math.IsInf(w.t, 1) != noHit || !noHit && (math.Abs(w.t-float64(hit.T)) > 1e-3 || hit.HitEdgeIndex != w.edge) {
			e.Failf("hit", "%s", what())
		}
	} else {
		e.Outcome("grazing")
	}
	if noHit {
		e.Outcome("reached after %d polygons", min(len(got), 4))
	} else {
		e.Outcome("wall after %d polygons", min(len(got), 4))
	}
	// costs
	if opt == 0 {
		if len(f.calls) != 0 || hit.PathCost != 0 {
			e.Failf("cost-off", "%s: costs computed without the option", what())
		}
	} else {
		sum := 0.0
		if len(f.calls) != len(got) {
			e.Failf("cost-calls", "%s: %d cost calls for %d polygons", what(), len(f.calls), len(got))
		}
		from := sp
		pr := prev
		for i, c := range f.calls {
			sum += dist3(c.pa, c.pb) * float64(m.polys[got[i]].area)
			if c.prev != pr || c.cur != path[i] {
				e.Failf("cost-refs", "%s: call %d was for %x/%x", what(), i, uint32(c.prev), uint32(c.cur))
			}
			next := detour.PolyRef(0)
			if i+1 < len(got) {
				next = path[i+1]
			} else if noHit {
				next = path[i]
			}
			if c.next != next && !(lost && i+1 == len(got)) {
				e.Failf("cost-next", "%s: call %d named next %x", what(), i, uint32(c.next))
			}
			if dist3(c.pa, from) > 1e-3 {
				e.Failf("cost-from", "%s: call %d starts at %v instead of %v", what(), i, c.pa, from)
			}
			if w.generic && i < len(w.exits) {
				x := w.exits[i]
				if dist3(c.pb, []float32{float32(x[0]), float32(x[1]), float32(x[2])}) > 5e-3 {
					e.Failf("cost-to", "%s: call %d ends at %v instead of %v", what(), i, c.pb, x)
				}
			}
			if i == len(got)-1 && noHit && dist3(c.pb, ep) != 0 {
				e.Failf("cost-end", "%s: last cost call ends at %v", what(), c.pb)
			}
			from = c.pb
			pr = c.cur
		}
		if math.Abs(sum-float64(hit.PathCost)) > 1e-3*(1+sum) {
			e.Failf("cost", "%s: sum is %g", what(), sum)
		}
		e.Outcome("with costs")
	}
	// smaller path buffers, and the other entry point
	if variant%3 == 0 {
		for n := 0; n <= len(got); n += 1 + (len(got)-n)/40 {
			p := make([]detour.PolyRef, size)
			nrm := d3.Vec3{7, 7, 7}
			cnt, t, st2 := q.Raycast2(m.polys[s].ref, sp, ep, f, nrm, p, n)
			e.Step(1)
			want := detour.Status(detour.Success)
			if n < len(got) {
				want |= detour.BufferTooSmall
			}
			if st2 != want || cnt != n || t != hit.T || nrm.Dist(hit.HitNormal) != 0 {
				e.Failf("raycast2", "%s: Raycast2 with room for %d: count %d t %g normal %v status %x", what(), n, cnt, t, nrm, uint32(st2))
			}
			for i := range p {
				if i < n && p[i] != path[i] || i >= n && p[i] != 0 {
					e.Failf("raycast2-path", "%s: Raycast2 with room for %d: path %v", what(), n, m.names(p[:8]))
				}
			}
		}
	}
	if variant == 1 && size == 64 {
		for _, bad := range []detour.PolyRef{0, 0xffffffff, m.polys[s].ref + 64} {
			h := detour.RaycastHit{Path: make([]detour.PolyRef, 4), MaxPath: 4, PathCount: 3, T: 0.3}
			if m.nav.IsValidPolyRef(bad) {
				continue
			}
			if st := q.Raycast(bad, sp, ep, f, 0, &h, 0); st != detour.Failure|detour.InvalidParam || h.PathCount != 0 || h.T != 0 {
				e.Failf("invalid", "raycast from %x: %x, count %d t %g", uint32(bad), uint32(st), h.PathCount, h.T)
			}
			if bad != 0 {
				if st := q.Raycast(m.polys[s].ref, sp, ep, f, 0, &h, bad); st != detour.Failure|detour.InvalidParam {
					e.Failf("invalid", "raycast with previous %x: %x", uint32(bad), uint32(st))
				}
			}
		}
	}
	e.State(hx.H(fmt.Sprint(got), hit.HitEdgeIndex, noHit, opt))
	e.Trace()
}
