package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C13: straight paths

func init() {
	hx.Register(&hx.Check{
		ID: "C13", Level: "model_checking",
		Rule: "every self-avoiding corridor of each mesh x every pair of lattice positions (inside, on edges, on corners and outside of the end polygons) x every crossing option on the real FindStraightPath; oracle: the shortest path through the sequence of portals found by dynamic programming over all portal end points (independent of the funnel algorithm), geometry of every returned point, flag and reference; non-trivial: at least two polygons",
		Assumptions: []string{
			"points closer than 1/1000 count as equal (2/100 where portals are quantised to 1/255 of an edge)",
		},
		Spaces: func(th bool) []hx.Space { return c13Spaces(th) },
	})
}

// straightMesh is one mesh of C13 with its corridors.
type straightMesh struct {
	name  string
	mk    func() *qmesh
	eps   float64
	lats  int // positions per polygon: see latPos
	nocap int // longest corridor
}

func c13Meshes(th bool) []straightMesh {
	grid := func(w, h int, til tiling, st []int, heights int) func() *qmesh {
		return func() *qmesh {
			g := newGrid(w, h)
			g.TW, g.TH = til.tw, til.th
			for k := range g.cells {
				g.cells[k].area = []uint8{1, 33, 32, 0}[(k+k/w)%4]
			}
			if st == nil {
				st = make([]int, w*h)
			}
			return buildQ(g, stateTiles(g, st, heights), nil)
		}
	}
	D, E := csDiag1, csDiag2
	ms := []straightMesh{
		{"grid3x3", grid(3, 3, tiling{3, 3}, nil, 0), 1e-3, 6, 9},
		{"grid3x2-tiled-slope", grid(3, 2, tiling{1, 1}, nil, 2), 1e-3, 9, 6},
		{"diag3x2", grid(3, 2, tiling{3, 2}, []int{D, E, D, E, 0, D}, 2), 1e-3, 6, 8},
		{"mixed", func() *qmesh { return mixedFamily(3, false).mk(5 + 24*(7+24*3)) }, 0.02, 6, 8},
		{"mixed-vertical", func() *qmesh { return mixedFamily(3, true).mk(3 + 24*(15+24*9)) }, 0.02, 6, 8},
	}
	if th {
		ms = append(ms,
			straightMesh{"grid4x3", grid(4, 3, tiling{2, 3}, nil, 0), 1e-3, 5, 9},
			straightMesh{"grid3x3-fine", grid(3, 3, tiling{3, 3}, nil, 0), 1e-3, 13, 7},
			straightMesh{"diag3x3", grid(3, 3, tiling{3, 3}, []int{D, E, D, E, D, E, 0, D, E}, 2), 1e-3, 6, 8},
			straightMesh{"diag2x3-tiled", grid(2, 3, tiling{1, 1}, []int{D, E, D, E, D, E}, 1), 1e-3, 9, 9},
			straightMesh{"mixed2", func() *qmesh { return mixedFamily(3, false).mk(21 + 24*(4+24*12)) }, 0.02, 9, 8},
		)
	}
	return ms
}

// corridors lists all self-avoiding corridors of up to n polygons.
func (m *qmesh) corridors(n int) [][]int {
	var out [][]int
	var cur []int
	used := make([]bool, len(m.polys))
	var rec func(k int)
	rec = func(k int) {
		cur = append(cur, k)
		used[k] = true
		out = append(out, append([]int(nil), cur...))
		if len(cur) < n {
			for _, o := range m.polys[k].out {
				if !used[o.to] {
					rec(o.to)
				}
			}
		}
		used[k] = false
		cur = cur[:len(cur)-1]
	}
	for k := range m.polys {
		rec(k)
	}
	return out
}

// latPos is lattice position j for polygon i.
func (m *qmesh) latPos(i, j int) d3.Vec3 {
	switch j {
	case 0:
		return m.center(i)
	case 1:
		return m.inner(i, 0, 0.3)
	case 2:
		return m.inner(i, 2, 0.45)
	case 3: // middle of edge 1
		v := m.polys[i].v
		a, b := v[1], v[2]
		return d3.Vec3{float32((a[0] + b[0]) / 2), float32((a[1] + b[1]) / 2), float32((a[2] + b[2]) / 2)}
	case 4: // outside
		p := m.inner(i, 1, -0.6)
		return p
	case 5: // a corner
		return m.inner(i, 1, 0)
	case 6:
		return m.inner(i, 1, 0.7)
	case 7:
		return m.inner(i, 3, -0.2)
	case 8:
		return m.inner(i, 2, 0)
	}
	return m.inner(i, j, 0.15*float64(j-8))
}

// byPortal are positions in the first polygon of the corridor next to the ends
// of its first portal, a little (0.02 and 0.08) away from its line.
func (m *qmesh) byPortal(c []int) (out []d3.Vec3) {
	if len(c) < 2 {
		return nil
	}
	o, _ := m.portal(c[0], c[1])
	ctr := m.center(c[0])
	l, r := p2{o.left[0], o.left[2]}, p2{o.right[0], o.right[2]}
	n := l.dist(r)
	ux, uz := (r.x-l.x)/n, (r.z-l.z)/n
	sgn := 1.0
	if cross2(l, r, toP2(ctr)) < 0 {
		sgn = -1
	}
	for _, end := range []p2{l, r} {
		for _, along := range []float64{-0.3, -0.05, 0.05, 0.3} {
			for _, off := range []float64{0.02, 0.08} {
				p := p2{end.x + along*ux - sgn*off*uz, end.z + along*uz + sgn*off*ux}
				if m.clampTo(c[0], p) == p {
					out = append(out, d3.Vec3{float32(p.x), ctr[1], float32(p.z)})
				}
			}
		}
	}
	return
}

func c13Spaces(th bool) []hx.Space {
	var out []hx.Space
	for _, sm := range c13Meshes(th) {
		sm := sm
		m := sm.mk()
		if m == nil {
			panic("no mesh")
		}
		cs := m.corridors(sm.nocap)
		var q *detour.NavMeshQuery
		out = append(out, hx.Space{Name: sm.name, N: int64(len(cs)), Bound: fmt.Sprintf("%d polygons, all %d corridors of up to %d polygons, %d x %d positions, 3 options", len(m.polys), len(cs), sm.nocap, sm.lats, sm.lats),
			Run: func(e *hx.Env, i int64) {
				if q == nil {
					q = newQuery(m.nav, 64)
				}
				c := cs[i]
				for a := 0; a < sm.lats; a++ {
					for b := 0; b < sm.lats; b++ {
						checkStraight(e, m, q, c, m.latPos(c[0], a), m.latPos(c[len(c)-1], b), sm.eps)
					}
				}
				for _, s := range m.byPortal(c) {
					checkStraight(e, m, q, c, s, m.latPos(c[len(c)-1], 0), sm.eps)
				}
				if len(c) > 2 {
					brokenCorridor(e, m, q, c)
				}
			}})
	}
	// whole families of meshes
	D, E := csDiag1, csDiag2
	type fam struct {
		f         qfamily
		eps       float64
		nocap, ps int
	}
	fams := []fam{
		{mixedFamily(2, false), 0.02, 6, 5},
		{mixedFamily(2, true), 0.02, 6, 5},
		{gridFamily(3, 2, []int{csFull, csAbsent, D, E}, tiling{2, 1}, false, 2), 1e-3, 5, 3},
		{scaled(3, 2, []int{csFull, csAbsent, D}, tiling{2, 1}, 37), 0.02, 5, 3},
		{scaled(3, 2, []int{csFull, csAbsent, D}, tiling{3, 2}, 0.125), 1e-3, 5, 3},
	}
	if th {
		fams = append(fams,
			fam{mixedFamily(3, false), 0.02, 6, 3},
			fam{mixedFamily(3, true), 0.02, 6, 3},
			fam{gridFamily(3, 3, []int{csFull, csAbsent, D, E}, tiling{2, 2}, false, 1), 1e-3, 4, 2},
			fam{gridFamily(3, 3, []int{csFull, csAbsent}, tiling{3, 3}, true, 2), 1e-3, 9, 9},
		)
	}
	for _, f := range fams {
		f := f
		out = append(out, hx.Space{Name: f.f.name, N: f.f.n, Bound: f.f.bound + fmt.Sprintf(", all corridors of up to %d polygons, %d x %d positions, 3 options", f.nocap, f.ps, f.ps),
			Run: func(e *hx.Env, i int64) {
				m := f.f.mk(i)
				if m == nil || len(m.polys) == 0 {
					return
				}
				q := newQuery(m.nav, 16)
				for _, c := range m.corridors(f.nocap) {
					for a := 0; a < f.ps; a++ {
						for b := 0; b < f.ps; b++ {
							checkStraight(e, m, q, c, m.latPos(c[0], a), m.latPos(c[len(c)-1], b), f.eps)
						}
					}
					for _, s := range m.byPortal(c) {
						checkStraight(e, m, q, c, s, m.latPos(c[len(c)-1], 0), f.eps)
						checkStraight(e, m, q, c, s, m.latPos(c[len(c)-1], 2), f.eps)
					}
				}
			}})
	}
	out = append(out, longCorridors())
	// the listed finding: a border portal ending a quantisation step beyond
	// the line of the next portal
	out = append(out, hx.Space{Name: "quantised-corner", N: 1, Bound: "one input, the known finding",
		Run: func(e *hx.Env, i int64) {
			m := mixedFamily(2, true).mk(1)
			c := []int{2, 0, 1}
			checkStraightL(e, m, newQuery(m.nav, 16), c, m.center(2), m.latPos(1, 4), 0.02, true)
		}})
	return out
}

type p2 struct{ x, z float64 }

func toP2(v []float32) p2 { return p2{float64(v[0]), float64(v[2])} }

func (a p2) dist(b p2) float64 { return math.Hypot(a.x-b.x, a.z-b.z) }

func cross2(a, b, c p2) float64 { return (b.x-a.x)*(c.z-a.z) - (b.z-a.z)*(c.x-a.x) }

func distSeg(p, a, b p2) float64 {
	dx, dz := b.x-a.x, b.z-a.z
	l := dx*dx + dz*dz
	t := 0.0
	if l > 0 {
		t = ((p.x-a.x)*dx + (p.z-a.z)*dz) / l
		t = math.Max(0, math.Min(1, t))
	}
	return p.dist(p2{a.x + t*dx, a.z + t*dz})
}

// segSegDist is the distance between two segments.
func segSegDist(a, b, c, d p2) float64 {
	d1, d2 := cross2(a, b, c), cross2(a, b, d)
	d3, d4 := cross2(c, d, a), cross2(c, d, b)
	if ((d1 > 0) != (d2 > 0)) && ((d3 > 0) != (d4 > 0)) && d1 != 0 && d2 != 0 && d3 != 0 && d4 != 0 {
		return 0
	}
	return math.Min(math.Min(distSeg(c, a, b), distSeg(d, a, b)), math.Min(distSeg(a, c, d), distSeg(b, c, d)))
}

// clampTo is the point of polygon i nearest to p (in the plane).
func (m *qmesh) clampTo(i int, p p2) p2 {
	v := m.polys[i].v
	inside := true
	best, bp := math.Inf(1), p
	sign := 0.0
	for k := range v {
		a := p2{v[k][0], v[k][2]}
		n := v[(k+1)%len(v)]
		b := p2{n[0], n[2]}
		c := cross2(a, b, p)
		if sign == 0 {
			sign = c
		}
		if c*sign < 0 {
			inside = false
		}
		dx, dz := b.x-a.x, b.z-a.z
		t := ((p.x-a.x)*dx + (p.z-a.z)*dz) / (dx*dx + dz*dz)
		t = math.Max(0, math.Min(1, t))
		o := p2{a.x + t*dx, a.z + t*dz}
		if d := p.dist(o); d < best {
			best, bp = d, o
		}
	}
	if inside {
		return p
	}
	return bp
}

type portal2 struct{ l, r p2 }

func (m *qmesh) portal(a, b int) (qportal, bool) {
	for _, o := range m.polys[a].out {
		if o.to == b {
			return o, true
		}
	}
	return qportal{}, false
}

// shortestThrough is the length of the shortest path from s to t crossing the
// portals in order.
func shortestThrough(s, t p2, ps []portal2, eps float64) float64 {
	type node struct {
		p p2
		k int // portal index; -1 start; len(ps) end
	}
	nodes := []node{{s, -1}}
	for k, p := range ps {
		nodes = append(nodes, node{p.l, k}, node{p.r, k})
	}
	nodes = append(nodes, node{t, len(ps)})
	d := make([]float64, len(nodes))
	for i := range d {
		d[i] = math.Inf(1)
	}
	d[0] = 0
	for i := range nodes {
		if math.IsInf(d[i], 1) {
			continue
		}
	next:
		for j := i + 1; j < len(nodes); j++ {
			if nodes[j].k <= nodes[i].k {
				continue
			}
			for k := nodes[i].k + 1; k < nodes[j].k; k++ {
				if segSegDist(nodes[i].p, nodes[j].p, ps[k].l, ps[k].r) > eps {
					continue next
				}
			}
			if v := d[i] + nodes[i].p.dist(nodes[j].p); v < d[j] {
				d[j] = v
			}
		}
	}
	return d[len(nodes)-1]
}

func checkStraight(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, c []int, sp, ep d3.Vec3, eps float64) {
	checkStraightL(e, m, q, c, sp, ep, eps, false)
}

func checkStraightL(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, c []int, sp, ep d3.Vec3, eps float64, listed bool) {
	path := make([]detour.PolyRef, len(c))
	for i, k := range c {
		path[i] = m.polys[k].ref
	}
	var ps []portal2
	var areaCh []bool
	for i := 0; i+1 < len(c); i++ {
		o, _ := m.portal(c[i], c[i+1])
		ps = append(ps, portal2{p2{o.left[0], o.left[2]}, p2{o.right[0], o.right[2]}})
		areaCh = append(areaCh, m.polys[c[i]].area != m.polys[c[i+1]].area)
	}
	s2, t2 := m.clampTo(c[0], toP2(sp)), m.clampTo(c[len(c)-1], toP2(ep))
	best := shortestThrough(s2, t2, ps, 1e-6)
	delicate := false
	if eps > 0.01 {
		// the end of a border portal, which is quantised, lies on the line
		// of another portal: it may come out on either side of it
		for i, p := range ps {
			if m.polys[c[i]].tile == m.polys[c[i+1]].tile {
				continue
			}
			for j, o := range ps {
				if i == j {
					continue
				}
				l := 2 * eps * o.l.dist(o.r)
				if math.Abs(cross2(o.l, o.r, p.l)) < l || math.Abs(cross2(o.l, o.r, p.r)) < l {
					delicate = true
				}
			}
		}
	}
	var base []p2
	for opt := int32(0); opt < 3; opt++ {
		pts := make([]d3.Vec3, 40)
		for i := range pts {
			pts[i] = d3.NewVec3()
		}
		flags := make([]uint8, 40)
		refs := make([]detour.PolyRef, 40)
		n, st := q.FindStraightPath(sp, ep, path, pts, flags, refs, opt)
		e.Step(1)
		e.Eval(1)
		what := func() string {
			return fmt.Sprintf("straight path %v -> %v along %v (options %d): %v flags %v refs %v status %x; shortest %g", sp, ep, c, opt, pts[:max(0, n)], flags[:max(0, n)], m.names(refs[:max(0, n)]), uint32(st), best)
		}
		e.Log("%s", what())
		if st != detour.Success || n < 1 || n > 38 {
			e.Failf("failed", "%s", what())
		}
		P := make([]p2, n)
		length := 0.0
		for i := range P {
			P[i] = toP2(pts[i])
			if i > 0 {
				length += P[i].dist(P[i-1])
			}
		}
		if P[0].dist(s2) > eps || P[n-1].dist(t2) > eps {
			e.Failf("ends", "%s: does not lead from %v to %v", what(), s2, t2)
		}
		if math.Abs(length-best) > eps*float64(2+len(ps)) {
			if listed {
				e.Soft(fmt.Sprintf("overshoot %v->%v along %v", sp, ep, c), "%s: length %g", what(), length)
				return
			}
			if !delicate {
				e.Failf("length", "%s: length %g", what(), length)
			}
			e.Outcome("length not judged next to quantised portal")
		}
		// assign every portal to a segment, in order: the polyline crosses
		// all portals in order
		k := 0
		for i := 0; i+1 < n || i == 0; i++ {
			j := i + 1
			if j >= n {
				j = i
			}
			for k < len(ps) && segSegDist(P[i], P[j], ps[k].l, ps[k].r) <= eps {
				k++
			}
		}
		if k < len(ps) {
			e.Failf("leaves", "%s: does not pass portal %d (%v)", what(), k, ps[k])
		}
		degenerate := s2.dist(t2) < eps && n == 1
		if flags[n-1] != detour.StraightPathEnd || refs[n-1] != 0 {
			e.Failf("end-flag", "%s", what())
		}
		atCorner := false
		for _, p := range ps {
			if p.l.dist(s2) < 2*eps || p.r.dist(s2) < 2*eps || distSeg(s2, p.l, p.r) < 2*eps {
				atCorner = true
			}
		}
		if !degenerate && !atCorner && (flags[0] != detour.StraightPathStart || refs[0] != path[0]) {
			e.Failf("start-flag", "%s", what())
		}
		for i := 0; i+1 < n; i++ {
			if i > 0 || atCorner {
				if flags[i] != 0 && !(i == 0 && flags[i] == detour.StraightPathStart) {
					e.Failf("flag", "%s: point %d", what(), i)
				}
			}
			if i == 0 {
				continue
			}
			corner, crossing, refOK := false, false, false
			for k, p := range ps {
				on := false
				if p.l.dist(P[i]) < eps || p.r.dist(P[i]) < eps {
					corner, on = true, true
				} else if distSeg(P[i], p.l, p.r) < eps {
					on = true
					if opt == int32(detour.StraightPathAllCrossings) || opt == int32(detour.StraightPathAreaCrossings) && areaCh[k] {
						crossing = true
					}
				}
				if on && refs[i] == path[k+1] {
					refOK = true
				}
			}
			if !corner && !crossing {
				e.Failf("point", "%s: point %d is neither a corner nor a requested crossing", what(), i)
			}
			if !refOK {
				e.Failf("ref", "%s: point %d does not carry the polygon entered there", what(), i)
			}
			if P[i].dist(P[i-1]) == 0 {
				e.Failf("duplicate", "%s: points %d and %d coincide", what(), i-1, i)
			}
		}
		switch opt {
		case 0:
			base = P
		default:
			// same shape: every base point appears, in order
			j := 0
			for _, b := range base {
				for j < n && P[j].dist(b) > eps {
					j++
				}
				if j == n {
					e.Failf("shape", "%s: misses %v of the plain straight path %v", what(), b, base)
				}
			}
			// every requested portal carries a point
			for k, p := range ps {
				if opt == int32(detour.StraightPathAreaCrossings) && !areaCh[k] {
					continue
				}
				on := false
				for i := range P {
					if distSeg(P[i], p.l, p.r) < 1.5*eps {
						on = true
					}
				}
				if !on {
					e.Failf("crossing", "%s: no point on portal %d (%v)", what(), k, p)
				}
			}
		}
		// heights of corner points come from the mesh
		for i := 1; i+1 < n; i++ {
			ok := false
			for _, k := range c {
				v := m.polys[k].v
				for x := range v {
					a, b := v[x], v[(x+1)%len(v)]
					pa, pb := p2{a[0], a[2]}, p2{b[0], b[2]}
					if distSeg(P[i], pa, pb) < 1.5*eps {
						t := pa.dist(P[i]) / pa.dist(pb)
						if math.Abs(a[1]+(b[1]-a[1])*t-float64(pts[i][1])) < 0.02 {
							ok = true
						}
					}
				}
			}
			if !ok {
				e.Failf("height", "%s: height of point %d", what(), i)
			}
		}
		e.State(hx.H(n, flags[:n], m.names(refs[:n]), opt))
		if n > 2 {
			e.Outcome("option %d bends", opt)
		} else {
			e.Outcome("option %d straight", opt)
		}
		e.Trace()
	}
}

// brokenCorridor: corridors with an element that does not exist or is not
// connected end there, flagged partial; broken ends are invalid.
func brokenCorridor(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, c []int) {
	for at := 0; at < len(c); at++ {
		for _, bad := range []detour.PolyRef{0, 0xffffffff, m.polys[c[at]].ref ^ 1<<31} {
			path := make([]detour.PolyRef, len(c))
			for i, k := range c {
				path[i] = m.polys[k].ref
			}
			path[at] = bad
			pts := make([]d3.Vec3, 40)
			for i := range pts {
				pts[i] = d3.NewVec3()
			}
			flags, refs := make([]uint8, 40), make([]detour.PolyRef, 40)
			var n int
			var st detour.Status
			opt := int32(at % 3)
			if p := try(func() {
				n, st = q.FindStraightPath(m.center(c[0]), m.center(c[len(c)-1]), path, pts, flags, refs, opt)
			}); p != nil {
				e.Failf("broken-panic", "corridor %v with element %d replaced by %x: %v", c, at, uint32(bad), p)
			}
			e.Step(1)
			e.Eval(1)
			if at == 0 || at == len(c)-1 {
				if st != detour.Failure|detour.InvalidParam || n != 0 {
					e.Failf("broken-end", "corridor %v with end %d replaced by %x: %d %x", c, at, uint32(bad), n, uint32(st))
				}
				continue
			}
			if st != detour.Success|detour.PartialResult || n < 1 {
				e.Failf("broken", "corridor %v with element %d replaced by %x: %d %x", c, at, uint32(bad), n, uint32(st))
			}
			last := m.clampTo(c[at-1], toP2(m.center(c[len(c)-1])))
			if toP2(pts[n-1]).dist(last) > 0.02 {
				e.Failf("broken-clamp", "corridor %v with element %d replaced by %x ends at %v, nearest point of the last valid polygon is %v", c, at, uint32(bad), pts[n-1], last)
			}
			e.Trace()
		}
	}
}
