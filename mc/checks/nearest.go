package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C15: nearest polygon and closest points

func init() {
	hx.Register(&hx.Check{
		ID: "C15", Level: "model_checking",
		Rule: "every mesh of each family (grids with holes and rejected cells, several floors and tile layers, polygon counts around the batch size, curved detail surfaces; with and without bounding volume tree) x every centre of a lattice over, around, above and below the mesh x every search box on the real FindNearestPoly, ClosestPointOnPoly and ClosestPointOnPolyBoundary; oracle: brute force over all polygons, closest points and surface heights computed in float64 from the tile definitions; non-trivial: at least one polygon",
		Assumptions: []string{
			"bounds are compared up to the quantisation of the bounding volume tree (two cells) for what may be found, exactly (1/1000) for what must be found",
			"for centres within 1/1000 of a polygon's outline both answers about being over it are accepted",
		},
		Spaces: func(th bool) []hx.Space { return c15Spaces(th) },
	})
}

// surface is the triangulated surface of a polygon in world coordinates.
func (m *qmesh) surface(i int) [][3][3]float64 {
	p := &m.polys[i]
	d := m.defs[p.tile]
	j := i
	for k := 0; k < p.tile; k++ {
		j -= len(m.defs[k].polys)
	}
	def := &d.polys[j]
	pts := append([][3]float64(nil), p.v...)
	var out [][3][3]float64
	if def.tris == nil || d.noDetail {
		for k := 2; k < len(p.v); k++ {
			out = append(out, [3][3]float64{pts[0], pts[k-1], pts[k]})
		}
		return out
	}
	for _, v := range def.dv {
		pts = append(pts, [3]float64{float64(d.bmin[0] + v[0]*d.cs), float64(d.bmin[1] + v[1]*d.ch), float64(d.bmin[2] + v[2]*d.cs)})
	}
	for _, t := range def.tris {
		out = append(out, [3][3]float64{pts[t[0]], pts[t[1]], pts[t[2]]})
	}
	return out
}

// heights are the surface heights at a point (several next to folds).
func heights(tris [][3][3]float64, p p2) []float64 {
	var out []float64
	for _, t := range tris {
		a, b, c := p2{t[0][0], t[0][2]}, p2{t[1][0], t[1][2]}, p2{t[2][0], t[2][2]}
		den := cross2(a, b, c)
		if den == 0 {
			continue
		}
		u, v, w := cross2(b, c, p)/den, cross2(c, a, p)/den, cross2(a, b, p)/den
		if u >= -2e-3 && v >= -2e-3 && w >= -2e-3 {
			out = append(out, u*t[0][1]+v*t[1][1]+w*t[2][1])
		}
	}
	return out
}

// polyFacts describes where a position is with respect to a polygon.
type polyFacts struct {
	near  p2 // closest point in the plane
	hs    []float64
	over  int // 1 yes, 0 no, -1 on the outline
	dLow  float64
	dHigh float64
}

func (m *qmesh) facts(i int, tris [][3][3]float64, p d3.Vec3, climb float64) polyFacts {
	f := polyFacts{}
	c := toP2(p)
	f.near = m.clampTo(i, c)
	f.hs = heights(tris, f.near)
	v := m.polys[i].v
	border := math.Inf(1)
	for k := range v {
		border = math.Min(border, distSeg(c, p2{v[k][0], v[k][2]}, p2{v[(k+1)%len(v)][0], v[(k+1)%len(v)][2]}))
	}
	switch {
	case border < 1e-3:
		f.over = -1
	case f.near == c:
		f.over = 1
	}
	f.dLow, f.dHigh = math.Inf(1), 0
	add := func(d float64) {
		f.dLow, f.dHigh = math.Min(f.dLow, d), math.Max(f.dHigh, d)
	}
	for _, h := range f.hs {
		dy := math.Abs(float64(p[1]) - h)
		if f.over != 0 {
			x := math.Max(0, dy-climb)
			add(x * x)
		}
		if f.over != 1 {
			x := c.dist(f.near)
			add(x*x + dy*dy)
		}
	}
	return f
}

type nearMesh struct {
	name  string
	bound string
	n     int64
	mk    func(i int64) *qmesh
	cs    float64 // cell size of the tree, 0: none
	bad   bool    // no boxes, only closest points
}

func nearFamilies(th bool) []nearMesh {
	D, E := csDiag1, csDiag2
	var out []nearMesh
	add := func(f qfamily, cs float64) {
		out = append(out, nearMesh{f.name, f.bound, f.n, f.mk, cs, false})
	}
	cs := float64(newGrid(1, 1).cs)
	named := func(f qfamily, n string) qfamily { f.name += n; return f }
	add(gridFamily(3, 2, []int{csFull, csAbsent, csForbid}, tiling{2, 1}, false, 2), cs)
	add(named(gridFamily(3, 2, []int{csFull, csAbsent, csForbid}, tiling{3, 2}, true, 2), "-nobv"), 0)
	add(gridFamily(2, 2, []int{csFull, csAbsent, D, E}, tiling{2, 2}, false, 1), cs)
	add(scaled(3, 2, []int{csFull, csAbsent, D}, tiling{2, 1}, 0.0625), 0.0625)
	add(scaled(2, 2, []int{csFull, csAbsent, D, E}, tiling{1, 1}, 37), 37)
	out = append(out, floorsFamily(th), batchFamily(th), detailFamily(), layersFamily(), farFamily())
	if th {
		add(gridFamily(3, 3, []int{csFull, csAbsent, csForbid}, tiling{2, 2}, false, 2), cs)
		add(named(gridFamily(3, 3, []int{csFull, csAbsent, csForbid}, tiling{1, 2}, true, 1), "-nobv"), 0)
		add(gridFamily(3, 2, []int{csFull, csAbsent, D, E}, tiling{2, 2}, false, 2), cs)
		add(mixedFamily(2, false), cs)
		add(mixedFamily(2, true), cs)
	}
	return out
}

// floorsFamily: two tile columns with polygons on several floors, in one tile
// or in tile layers.
func floorsFamily(th bool) nearMesh {
	// every cell of 2x1 tiles of 4x4 voxels holds any subset of floors at
	// heights 0, 3, 9 (in voxels); layered: each floor in a tile layer
	return nearMesh{name: "floors", bound: "2x1 tiles, any subset of three floors in each, as polygons of one tile or as tile layers, with and without tree", n: 8 * 8 * 4, cs: float64(newGrid(1, 1).cs),
		mk: func(i int64) *qmesh {
			d := hx.NewDec(i)
			a, b := d.Next(8), d.Next(8)
			layered, noBV := d.Next(2) == 1, d.Next(2) == 1
			g := newGrid(2, 1)
			g.TW, g.TH, g.S = 1, 1, 4
			var defs []*tileDef
			for tx, set := range []int{a, b} {
				mkTile := func(layer int) *tileDef {
					t := &tileDef{x: tx, layer: layer, w: 4, h: 4, cs: g.cs, ch: g.ch, climb: g.climb, noBV: noBV}
					t.bmin = [3]float32{g.orig[0] + float32(tx)*g.cellSize(), g.orig[1], g.orig[2]}
					return t
				}
				t := mkTile(0)
				for k, y := range []int{0, 3, 9} {
					if set>>uint(k)&1 == 0 {
						continue
					}
					if layered {
						t = mkTile(k)
					}
					t.polys = append(t.polys, quad(0, 0, 4, 4-k, y, 1, 1))
					if layered {
						defs = append(defs, t)
					}
				}
				if !layered && len(t.polys) > 0 {
					defs = append(defs, t)
				}
			}
			if len(defs) == 0 {
				return nil
			}
			return buildQ(g, defs, nil)
		}}
}

// batchFamily: rows of n polygons.
func batchFamily(th bool) nearMesh {
	ns := []int{1, 2, 31, 32, 33, 63, 64, 65, 96, 97, 128}
	return nearMesh{name: "batches", bound: fmt.Sprintf("one tile of n polygons, n in %v, with and without tree", ns), n: int64(len(ns)) * 2, cs: float64(newGrid(1, 1).cs),
		mk: func(i int64) *qmesh {
			g := newGrid(1, 1)
			g.TW, g.TH, g.S, g.maxP = 1, 1, 128, 128
			t := &tileDef{w: 128, h: 128, cs: g.cs, ch: g.ch, climb: g.climb, noBV: i%2 == 1, bmin: g.orig}
			for k := 0; k < ns[i/2]; k++ {
				// scattered, not adjacent, varied heights
				x, z := (k*5)%16, (k*5)/16%16
				t.polys = append(t.polys, quad(x*8+1, z*8+1, x*8+4+k%3, z*8+5, k%4, 1, 1))
			}
			return buildQ(g, []*tileDef{t}, nil)
		}}
}

// detailFamily: two quads with inner and edge detail vertices.
func detailFamily() nearMesh {
	hts := []float32{-2, 0, 1.5, 6}
	n := int64(len(hts) * len(hts) * len(hts) * 2)
	return nearMesh{name: "detail", bound: fmt.Sprintf("two polygons of one tile, an inner and an edge detail vertex each, heights in %v, with and without tree", hts), n: n, cs: float64(newGrid(1, 1).cs),
		mk: func(i int64) *qmesh {
			d := hx.NewDec(i)
			h1, h2, h3 := hts[d.Next(4)], hts[d.Next(4)], hts[d.Next(4)]
			g := newGrid(1, 1)
			g.TW, g.TH, g.S = 1, 1, 16
			t := &tileDef{w: 16, h: 16, cs: g.cs, ch: g.ch, climb: g.climb, noBV: d.Next(2) == 1, bmin: g.orig}
			a := quad(0, 0, 8, 16, 4, 1, 1)
			// corners 0..3, edge vertex 4 on the edge 2-3, inner vertex 5
			a.dv = [][3]float32{{8, 4 + h1, 8}, {3, 4 + h2, 5}}
			a.tris = [][3]uint8{{0, 1, 5}, {1, 2, 5}, {2, 4, 5}, {4, 3, 5}, {3, 0, 5}}
			b := quad(8, 0, 16, 16, 4, 2, 1)
			b.dv = [][3]float32{{8, 4 + h1, 8}, {12, 4 + h3, 11}}
			b.tris = [][3]uint8{{0, 4, 5}, {4, 1, 5}, {1, 2, 5}, {2, 3, 5}, {3, 0, 5}}
			t.polys = []polyDef{a, b}
			return buildQ(g, []*tileDef{t}, nil)
		}}
}

// layersFamily: many tile layers at one position.
func layersFamily() nearMesh {
	ns := []int{3, 5, 9, 17, 31, 32}
	return nearMesh{name: "layers", bound: fmt.Sprintf("n tile layers at one position, n in %v, loaded upwards or downwards, with and without tree", ns), n: int64(len(ns)) * 4, cs: float64(newGrid(1, 1).cs),
		mk: func(i int64) *qmesh {
			d := hx.NewDec(i)
			n := ns[d.Next(len(ns))]
			down, noBV := d.Next(2) == 1, d.Next(2) == 1
			g := newGrid(1, 1)
			g.TW, g.TH, g.S = 1, 1, 4
			var defs []*tileDef
			for k := 0; k < n; k++ {
				y := k
				if down {
					y = n - 1 - k
				}
				t := &tileDef{layer: y, w: 4, h: 4, cs: g.cs, ch: g.ch, climb: g.climb, noBV: noBV}
				t.bmin = [3]float32{g.orig[0], g.orig[1] + float32(y)*6*g.ch, g.orig[2]}
				t.polys = append(t.polys, quad(0, 0, 4, 4-y%2, y%3, 1, 1))
				defs = append(defs, t)
			}
			return buildQ(g, defs, nil)
		}}
}

// farFamily: polygons at the far ends of what 16 bit coordinates hold.
func farFamily() nearMesh {
	at := []int{0, 32765, 32768, 43690, 65530}
	n := int64(len(at) * len(at) * 2 * 2)
	return nearMesh{name: "far", bound: fmt.Sprintf("one tile, polygons at coordinates in %v of x, z and y, with and without tree and detail meshes", at), n: n, cs: 1. / 64,
		mk: func(i int64) *qmesh {
			d := hx.NewDec(i)
			x, z := at[d.Next(len(at))], at[d.Next(len(at))]
			noBV, noDetail := d.Next(2) == 1, d.Next(2) == 1
			g := newGrid(1, 1)
			g.TW, g.TH, g.S, g.cs, g.ch, g.orig = 1, 1, 65534, 1./64, 1./64, [3]float32{}
			t := &tileDef{w: 65534, h: 65534, cs: g.cs, ch: g.ch, climb: g.climb, noBV: noBV, noDetail: noDetail}
			t.polys = []polyDef{quad(x, z, x+4, z+3, (x+z)/2, 1, 1), quad(32000, 300, 32004, 304, 65000, 2, 1), quad(300, 32000, 304, 32003, 5, 1, 1)}
			return buildQ(g, []*tileDef{t}, nil)
		}}
}

func c15Spaces(th bool) []hx.Space {
	var out []hx.Space
	for _, f := range nearFamilies(th) {
		f := f
		out = append(out, hx.Space{Name: f.name, N: f.n, Bound: f.bound + "; every centre of the lattice, every box", Run: func(e *hx.Env, i int64) {
			m := f.mk(i)
			if m == nil || len(m.polys) == 0 {
				return
			}
			if e.Verbose() {
				e.Log("%s", m.describe())
			}
			before := snapshot(m.nav)
			q := newQuery(m.nav, 16)
			var tris [][][3][3]float64
			var bounds [][2][3]float64
			lo, hi := [3]float64{1e9, 1e9, 1e9}, [3]float64{-1e9, -1e9, -1e9}
			for k := range m.polys {
				ts := m.surface(k)
				tris = append(tris, ts)
				b := [2][3]float64{{1e9, 1e9, 1e9}, {-1e9, -1e9, -1e9}}
				grow := func(v [3]float64) {
					for c := range v {
						b[0][c], b[1][c] = math.Min(b[0][c], v[c]), math.Max(b[1][c], v[c])
					}
				}
				for _, v := range m.polys[k].v {
					grow(v)
				}
				if !m.defs[m.polys[k].tile].noBV {
					for _, t := range ts {
						for _, v := range t {
							grow(v)
						}
					}
				}
				for c := range lo {
					lo[c], hi[c] = math.Min(lo[c], b[0][c]), math.Max(hi[c], b[1][c])
				}
				bounds = append(bounds, b)
			}
			var centres []d3.Vec3
			nx := 7
			if len(m.polys) > 20 {
				nx = 11
			}
			far := f.name == "far" // single precision does not tell the closest point on small polygons far away
			for x := 0; x < nx && !far; x++ {
				for z := 0; z < nx; z++ {
					for _, y := range []float64{lo[1] - 4, lo[1] + 0.1, (lo[1] + hi[1]) / 2, hi[1] + 0.3, hi[1] + 1.1, hi[1] + 30} {
						fx, fz := float64(x)/float64(nx-2)*1.13-0.13, float64(z)/float64(nx-2)*1.17-0.11
						centres = append(centres, d3.Vec3{float32(lo[0] + (hi[0]-lo[0])*fx), float32(y), float32(lo[2] + (hi[2]-lo[2])*fz)})
					}
				}
			}
			// exact positions: corners, edges
			for k := range m.polys {
				if k > 7 {
					break
				}
				for j := 3; j < 9; j++ {
					c := m.latPos(k, j)
					centres = append(centres, c)
					if far {
						centres = append(centres, d3.Vec3{c[0] + 0.7, c[1] - 0.3, c[2] - 1.3}, d3.Vec3{c[0] - 0.2, c[1] + 2, c[2] + 0.1})
					}
				}
				v := m.polys[k].v[0]
				centres = append(centres, d3.Vec3{float32(v[0]), float32(v[1]), float32(v[2])})
			}
			for t := range m.defs {
				o := m.defs[t].bmin
				centres = append(centres, d3.Vec3{o[0], o[1], o[2]}, d3.Vec3{o[0] + 0.3, o[1] + 0.2, o[2] + 0.4})
			}
			var fs []polyFacts
			for _, c := range centres {
				fs = fs[:0]
				for k := range m.polys {
					fk := m.facts(k, tris[k], c, float64(m.defs[m.polys[k].tile].climb))
					fs = append(fs, fk)
					if len(m.polys) < 20 && !(far && toP2(c).dist(fk.near) > 20) {
						checkClosest(e, m, q, k, c, fk)
					}
				}
				for _, ext := range []d3.Vec3{{0.05, 0.05, 0.05}, {1, 1, 1}, {2.3, 0.4, 2.3}, {0.3, 6, 0.3}, {40, 40, 40}} {
					checkNearest(e, m, q, c, ext, fs, bounds)
				}
			}
			// boxes without any extent around points of the mesh
			for k := range m.polys {
				if !accepted(&m.polys[k]) {
					continue
				}
				for _, v := range m.polys[k].v {
					for _, ext := range []d3.Vec3{{0, 0, 0}, {1, 0, 1}, {0, 1, 0}} {
						c := d3.Vec3{float32(v[0]), float32(v[1]), float32(v[2])}
						if b := m.defs[m.polys[k].tile].bmax(); c[0] >= b[0] || c[2] >= b[2] {
							continue // in the next tile
						}
						st, ref, pt := q.FindNearestPoly(c, ext, stdFilter())
						e.Step(1)
						e.Eval(1)
						n, known := m.idx[ref]
						if st != detour.Success || !known || !accepted(&m.polys[n]) || math.Abs(float64(pt[0]-c[0]))+math.Abs(float64(pt[2]-c[2])) > 2e-3 {
							e.Failf("touching", "the box %v around the vertex %v of polygon %d: %x at %v status %x", ext, c, k, uint32(ref), pt, uint32(st))
						}
					}
				}
			}
			if string(before) != string(snapshot(m.nav)) {
				e.Failf("modified", "queries changed the mesh")
			}
		}})
	}
	sizes := []int{20, 90, 120}
	if th {
		sizes = append(sizes, 75, 105, 127)
	}
	out = append(out, hx.Space{Name: "large", N: int64(len(sizes)) * 2, Batch: 1, Bound: fmt.Sprintf("one tile of n x n polygons of varied heights, n in %v, with and without detail vertices, every polygon", sizes),
		Run: func(e *hx.Env, i int64) {
			n := sizes[i/2]
			g := newGrid(n, n)
			g.TW, g.TH, g.S, g.maxP = n, n, 1, n*n
			t := &tileDef{w: n, h: n, cs: g.cs, ch: g.ch, climb: g.climb, noDetail: i%2 == 0, bmin: g.orig}
			for z := 0; z < n; z++ {
				for x := 0; x < n; x++ {
					y := (x*3 + z*7) % 23
					q := quad(x, z, x+1, z+1, y, 1, 1)
					q.v[2][1]++
					if i%2 == 1 {
						q.dv = [][3]float32{{float32(x) + .4, float32(y) + 2, float32(z) + .6}}
						q.tris = [][3]uint8{{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}
					}
					t.polys = append(t.polys, q)
				}
			}
			m := buildQ(g, []*tileDef{t}, nil)
			q := newQuery(m.nav, 16)
			for k := range m.polys {
				ts := m.surface(k)
				for _, c := range []d3.Vec3{m.center(k), m.inner(k, 2, -0.7)} {
					checkClosest(e, m, q, k, c, m.facts(k, ts, c, 0))
				}
			}
			e.State(hx.H(n, i))
			e.Trace()
		}})
	out = append(out, hx.Space{Name: "in-tile", N: 1, Bound: "one input of NavMesh.FindNearestPolyInTile, the known finding",
		Run: func(e *hx.Env, i int64) {
			m := gridFamily(3, 2, []int{csFull}, tiling{3, 2}, false, 0).mk(0)
			pt := d3.NewVec3()
			c := m.center(4)
			var ref detour.PolyRef
			p := try(func() {
				ref = m.nav.FindNearestPolyInTile(&m.nav.Tiles[0], c, d3.Vec3{0.1, 1, 0.1}, pt)
			})
			e.Step(1)
			e.Eval(1)
			e.State(hx.H(ref))
			if p != nil || ref != m.polys[4].ref || pt.Dist(c) > 1e-3 {
				e.Soft("FindNearestPolyInTile/centre of cell 4 of a 3x2 grid", "polygon %x at %v (panic %v) instead of polygon %x at %v", uint32(ref), pt, p, uint32(m.polys[4].ref), c)
			}
		}})
	return out
}

func checkClosest(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, k int, c d3.Vec3, f polyFacts) {
	cl, over := d3.Vec3{9, 9, 9}, false
	if f.over == 0 {
		over = true // must be cleared
	}
	st := q.ClosestPointOnPoly(m.polys[k].ref, c, cl, &over)
	e.Step(1)
	e.Eval(1)
	what := func() string {
		return fmt.Sprintf("closest point to %v on polygon %d %v: %v over %v status %x; expected %+v", c, k, m.polys[k].v, cl, over, uint32(st), f)
	}
	if st != detour.Success {
		e.Failf("closest-status", "%s", what())
	}
	if toP2(cl).dist(f.near) > 2e-3 {
		e.Failf("closest", "%s", what())
	}
	if f.over >= 0 && over != (f.over == 1) {
		e.Failf("over", "%s", what())
	}
	ok := false
	for _, h := range f.hs {
		if math.Abs(h-float64(cl[1])) < 5e-3 {
			ok = true
		}
	}
	if !ok {
		e.Failf("closest-height", "%s", what())
	}
	cl2 := d3.NewVec3()
	if st := q.ClosestPointOnPoly(m.polys[k].ref, c, cl2, nil); st != detour.Success || cl2.Dist(cl) != 0 {
		e.Failf("closest-nil", "%s; without the flag: %v %x", what(), cl2, uint32(st))
	}
	st = q.ClosestPointOnPolyBoundary(m.polys[k].ref, c, cl2)
	if st != detour.Success || toP2(cl2).dist(f.near) > 2e-3 {
		e.Failf("boundary", "%s; boundary: %v %x", what(), cl2, uint32(st))
	}
	if f.over == 1 && cl2.Dist(c) != 0 {
		e.Failf("boundary-inside", "%s; boundary: %v, should be the position", what(), cl2)
	}
	if f.over == 0 {
		// height of the outline
		v := m.polys[k].v
		ok := false
		for x := range v {
			a, b := v[x], v[(x+1)%len(v)]
			pa, pb := p2{a[0], a[2]}, p2{b[0], b[2]}
			if distSeg(f.near, pa, pb) < 2e-3 && math.Abs(a[1]+(b[1]-a[1])*pa.dist(f.near)/pa.dist(pb)-float64(cl2[1])) < 1e-2 {
				ok = true
			}
		}
		if !ok {
			e.Failf("boundary-height", "%s; boundary: %v", what(), cl2)
		}
	}
}

func checkNearest(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, c, ext d3.Vec3, fs []polyFacts, bounds [][2][3]float64) {
	st, ref, pt := q.FindNearestPoly(c, ext, stdFilter())
	e.Step(1)
	e.Eval(1)
	k, known := m.idx[ref]
	what := func() string {
		return fmt.Sprintf("nearest polygon to %v within %v: %d (%x) %v status %x", c, ext, k, uint32(ref), pt, uint32(st))
	}
	if st != detour.Success {
		e.Failf("status", "%s", what())
	}
	best, must, may := math.Inf(1), -1, 0
	touch := func(i int, slack float64) bool {
		for a := 0; a < 3; a++ {
			if float64(c[a]-ext[a]) > bounds[i][1][a]+slack || float64(c[a]+ext[a]) < bounds[i][0][a]-slack {
				return false
			}
		}
		return true
	}
	slack := func(i int) float64 {
		if d := m.defs[m.polys[i].tile]; !d.noBV {
			return 2.01*float64(d.cs) + 1e-3
		}
		return 1e-3
	}
	for i := range m.polys {
		if !accepted(&m.polys[i]) {
			continue
		}
		if touch(i, -1e-3) && fs[i].dHigh < best {
			best, must = fs[i].dHigh, i
		}
		if touch(i, slack(i)) {
			may++
		}
	}
	if ref == 0 {
		if pt != nil {
			e.Failf("point", "%s: a point without a polygon", what())
		}
		if must >= 0 {
			e.Failf("missed", "%s: polygon %d (bounds %v) is in the box", what(), must, bounds[must])
		}
		e.Outcome("none")
		return
	}
	if !known || !accepted(&m.polys[k]) {
		e.Failf("foreign", "%s: not an accepted polygon", what())
	}
	if !touch(k, slack(k)) {
		e.Failf("outside", "%s: the bounds %v of that polygon are not in the box", what(), bounds[k])
	}
	f := fs[k]
	ok := false
	for _, h := range f.hs {
		if math.Abs(h-float64(pt[1])) < 5e-3 {
			ok = true
		}
	}
	if toP2(pt).dist(f.near) > 2e-3 || !ok {
		e.Failf("closest", "%s: closest point is %v at %v", what(), f.near, f.hs)
	}
	if f.dLow > best+1e-3*(1+best) {
		e.Failf("not-nearest", "%s: polygon %d is at %g, the one returned at %g", what(), must, best, f.dLow)
	}
	if f.over == 1 {
		e.Outcome("over")
	} else {
		e.Outcome("beside")
	}
	e.State(hx.H(ref, may, f.over))
	e.Trace()
}
