package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// A qmesh is a loaded navigation mesh together with an independent geometric
// description of its polygons and portals, computed from the tile definitions
// only.

type v2 struct{ x, z float64 }

type qportal struct {
	to          int
	edge        int
	left, right [3]float64 // end points as seen when leaving through the edge
	cross       bool       // across a tile border
	side        int        // 0..3 outward side for cross portals (x+ z+ x- z-)
}

type qpoly struct {
	ref   detour.PolyRef
	tile  int
	v     [][3]float64
	area  uint8
	flags uint16
	out   []qportal
}

type qmesh struct {
	nav   *detour.NavMesh
	defs  []*tileDef
	polys []qpoly
	idx   map[detour.PolyRef]int
	trefs []detour.TileRef
}

// buildQ loads the tiles in the given order (nil: as listed) and computes the
// description.
func buildQ(g *gridWorld, defs []*tileDef, order []int) *qmesh {
	return buildQN(g, defs, order, len(defs))
}

func buildQN(g *gridWorld, defs []*tileDef, order []int, maxTiles int) *qmesh {
	if maxTiles < 1 {
		maxTiles = 1
	}
	m := &qmesh{nav: &detour.NavMesh{}, defs: defs, idx: map[detour.PolyRef]int{}}
	if st := m.nav.Init(g.navParams(maxTiles)); detour.StatusFailed(st) {
		panic(fmt.Sprintf("Init: %x", uint32(st)))
	}
	m.trefs = make([]detour.TileRef, len(defs))
	for k := range defs {
		i := k
		if order != nil {
			i = order[k]
		}
		// every other tile gets one of the last generations: references use all their bits
		var last detour.TileRef
		if k%2 == 1 {
			last = highRef(m.nav, uint32(k))
		}
		st, ref := m.nav.AddTile(defs[i].data(), last)
		if detour.StatusFailed(st) {
			panic(fmt.Sprintf("AddTile: %x", uint32(st)))
		}
		m.trefs[i] = ref
	}
	for i, d := range defs {
		for j := range d.polys {
			p := qpoly{ref: detour.PolyRef(m.trefs[i]) | detour.PolyRef(j), tile: i, area: d.polys[j].area, flags: d.polys[j].flags}
			for k := range d.polys[j].v {
				w := d.vertW(j, k)
				p.v = append(p.v, [3]float64{float64(w[0]), float64(w[1]), float64(w[2])})
			}
			m.idx[p.ref] = len(m.polys)
			m.polys = append(m.polys, p)
		}
	}
	m.computePortals()
	return m
}

// highRef is the reference of a slot in one of its last generations.
func highRef(nav *detour.NavMesh, slot uint32) detour.TileRef {
	bits := func(n uint32) (b uint32) {
		for 1<<b < n {
			b++
		}
		return
	}
	pb, tb := bits(nav.Params.MaxPolys), bits(nav.Params.MaxTiles)
	sb := 32 - pb - tb
	if sb > 31 {
		sb = 31
	}
	salt := uint32(1)<<sb - 3 - slot%64
	return detour.TileRef(salt<<(pb+tb) | slot<<pb)
}

func (m *qmesh) computePortals() {
	base := make([]int, len(m.defs))
	n := 0
	for i, d := range m.defs {
		base[i] = n
		n += len(d.polys)
	}
	type border struct {
		poly, edge int
		a, b       [3]float64
	}
	borders := map[[2]int][4][]border{}
	for i, d := range m.defs {
		nei := d.neis()
		for j := range d.polys {
			p := &m.polys[base[i]+j]
			for k := range d.polys[j].v {
				a, b := p.v[k], p.v[(k+1)%len(p.v)]
				w := nei[j][k]
				switch {
				case w == 0xffff:
				case w < 0x8000:
					p.out = append(p.out, qportal{to: base[i] + int(w), edge: k, left: a, right: b})
				default:
					// the word names the voxel side: 0 x-, 1 z+, 2 x+, 3 z-
					side := [4]int{2, 1, 0, 3}[w&3]
					key := [2]int{d.x, d.y}
					bs := borders[key]
					bs[side] = append(bs[side], border{base[i] + j, k, a, b})
					borders[key] = bs
				}
			}
		}
	}
	step := [4][2]int{{1, 0}, {0, 1}, {-1, 0}, {0, -1}}
	for key, bs := range borders {
		for side := 0; side < 4; side++ {
			ob, ok := borders[[2]int{key[0] + step[side][0], key[1] + step[side][1]}]
			if !ok {
				continue
			}
			ax := 2 // varying axis
			if side&1 == 1 {
				ax = 0
			}
			for _, e := range bs[side] {
				for _, o := range ob[(side+2)%4] {
					lo := math.Max(math.Min(e.a[ax], e.b[ax]), math.Min(o.a[ax], o.b[ax]))
					hi := math.Min(math.Max(e.a[ax], e.b[ax]), math.Max(o.a[ax], o.b[ax]))
					if hi-lo < 0.05 {
						continue
					}
					at := func(t float64) [3]float64 {
						f := (t - e.a[ax]) / (e.b[ax] - e.a[ax])
						var r [3]float64
						for c := range r {
							r[c] = e.a[c] + (e.b[c]-e.a[c])*f
						}
						return r
					}
					l, r := at(lo), at(hi)
					if e.a[ax] > e.b[ax] {
						l, r = r, l
					}
					p := &m.polys[e.poly]
					p.out = append(p.out, qportal{to: o.poly, edge: e.edge, left: l, right: r, cross: true, side: side})
				}
			}
		}
	}
}

func (m *qmesh) center(i int) d3.Vec3 {
	var s [3]float64
	p := &m.polys[i]
	for _, v := range p.v {
		for c := range s {
			s[c] += v[c] / float64(len(p.v))
		}
	}
	return d3.Vec3{float32(s[0]), float32(s[1]), float32(s[2])}
}

// inner is a point at fraction f from vertex k to the centre of polygon i.
func (m *qmesh) inner(i, k int, f float64) d3.Vec3 {
	c := m.center(i)
	v := m.polys[i].v[k%len(m.polys[i].v)]
	r := d3.NewVec3()
	for j := range r {
		r[j] = float32(v[j] + (float64(c[j])-v[j])*f)
	}
	return r
}

func (m *qmesh) connected(a, b int) bool {
	for _, o := range m.polys[a].out {
		if o.to == b {
			return true
		}
	}
	return false
}

// reach is the set of polygons reachable from s through accepted ones; -1
// outside, else the number of steps.
func (m *qmesh) reach(s int, ok func(int) bool) []int {
	d := make([]int, len(m.polys))
	for i := range d {
		d[i] = -1
	}
	d[s] = 0
	q := []int{s}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		for _, o := range m.polys[c].out {
			if d[o.to] < 0 && ok(o.to) {
				d[o.to] = d[c] + 1
				q = append(q, o.to)
			}
		}
	}
	return d
}

// names turns references into polygon indices for messages.
func (m *qmesh) names(path []detour.PolyRef) []int {
	out := make([]int, len(path))
	for i, r := range path {
		if k, ok := m.idx[r]; ok {
			out[i] = k
		} else {
			out[i] = -1
		}
	}
	return out
}

func (m *qmesh) describe() string {
	s := ""
	for i := range m.polys {
		p := &m.polys[i]
		s += fmt.Sprintf("poly %d ref %x tile %d area %d flags %x verts %v ->", i, uint32(p.ref), p.tile, p.area, p.flags, p.v)
		for _, o := range p.out {
			s += fmt.Sprintf(" %d", o.to)
		}
		s += "\n"
	}
	return s
}

func dist3(a, b []float32) float64 {
	x, y, z := float64(a[0])-float64(b[0]), float64(a[1])-float64(b[1]), float64(a[2])-float64(b[2])
	return math.Sqrt(x*x + y*y + z*z)
}

// acceptAll-style filter by polygon flags: bit 0 walkable, bit 1 forbidden.
func stdFilter() *detour.StandardQueryFilter {
	f := detour.NewStandardQueryFilter()
	f.SetIncludeFlags(1)
	f.SetExcludeFlags(2)
	return f
}

func accepted(p *qpoly) bool { return p.flags&1 != 0 && p.flags&2 == 0 }

// ---- world families

// qfamily is a finite family of meshes.
type qfamily struct {
	name  string
	bound string
	n     int64
	mk    func(i int64) *qmesh // nil: no polygons
}

// cell states of grid families
const (
	csFull   = iota // accepted
	csAbsent        // no polygon
	csForbid        // polygon rejected by the filter (exclude flag)
	csNoFlag        // polygon without include flag
	csDiag1         // two triangles
	csDiag2
)

// tiling of a grid
type tiling struct{ tw, th int }

// scaled is the family with voxels of another size than half a unit.
func scaled(w, h int, states []int, til tiling, cs float32) qfamily {
	f := gridFamily(w, h, states, til, false, 0)
	f.name += fmt.Sprintf("-cs%g", cs)
	f.bound += fmt.Sprintf(", cells of %g units", 2*cs)
	f.mk = func(i int64) *qmesh {
		d := hx.NewDec(i)
		g := newGrid(w, h)
		g.TW, g.TH, g.cs = til.tw, til.th, cs
		st := make([]int, w*h)
		for k := range st {
			st[k] = states[d.Next(len(states))]
		}
		return buildQ(g, stateTiles(g, st, 0), nil)
	}
	return f
}

func gridFamily(w, h int, states []int, til tiling, noBV bool, heights int) qfamily {
	name := fmt.Sprintf("grid%dx%d-states%d-tile%dx%d", w, h, len(states), til.tw, til.th)
	if heights > 0 {
		name += fmt.Sprintf("-h%d", heights)
	}
	return qfamily{
		name:  name,
		bound: fmt.Sprintf("all %d^%d assignments of cell states to a %dx%d grid, tiles of %dx%d cells", len(states), w*h, w, h, til.tw, til.th),
		n:     hx.Pow(len(states), w*h),
		mk: func(i int64) *qmesh {
			d := hx.NewDec(i)
			g := newGrid(w, h)
			g.TW, g.TH, g.noBV = til.tw, til.th, noBV
			st := make([]int, w*h)
			for k := range st {
				st[k] = states[d.Next(len(states))]
			}
			return buildQ(g, stateTiles(g, st, heights), nil)
		},
	}
}

// vertex heights of the height variants (in voxels), consistent across tiles.
func vertHeight(kind, x, z int) int {
	switch kind {
	case 1:
		return x
	case 2:
		return (x*x + 2*z) % 5
	}
	return 0
}

// stateTiles makes the tile definitions of a grid with a state per cell.
func stateTiles(g *gridWorld, st []int, heights int) []*tileDef {
	var out []*tileDef
	for ty := 0; ty*g.TH < g.H; ty++ {
		for tx := 0; tx*g.TW < g.W; tx++ {
			t := &tileDef{x: tx, y: ty, w: g.TW * g.S, h: g.TH * g.S, cs: g.cs, ch: g.ch, climb: g.climb, noBV: g.noBV, noDetail: g.noDet}
			t.bmin = [3]float32{g.orig[0] + float32(tx*g.TW)*g.cellSize(), g.orig[1], g.orig[2] + float32(ty*g.TH)*g.cellSize()}
			for z := 0; z < g.TH; z++ {
				for x := 0; x < g.TW; x++ {
					gx, gz := tx*g.TW+x, ty*g.TH+z
					if gx >= g.W || gz >= g.H {
						continue
					}
					hv := func(dx, dz int) int { return vertHeight(heights, gx+dx, gz+dz) }
					S := g.S
					q := polyDef{v: [][3]int{{x * S, hv(0, 0), z * S}, {x * S, hv(0, 1), (z + 1) * S}, {(x + 1) * S, hv(1, 1), (z + 1) * S}, {(x + 1) * S, hv(1, 0), z * S}}, flags: 1, area: g.at(gx, gz).area}
					s := st[gz*g.W+gx]
					switch s {
					case csAbsent:
						continue
					case csForbid:
						q.flags = 3
					case csNoFlag:
						q.flags = 4
					case csDiag1:
						a, b := q, q
						a.v = [][3]int{q.v[0], q.v[1], q.v[2]}
						b.v = [][3]int{q.v[0], q.v[2], q.v[3]}
						t.polys = append(t.polys, a, b)
						continue
					case csDiag2:
						a, b := q, q
						a.v = [][3]int{q.v[0], q.v[1], q.v[3]}
						b.v = [][3]int{q.v[1], q.v[2], q.v[3]}
						t.polys = append(t.polys, a, b)
						continue
					}
					t.polys = append(t.polys, q)
				}
			}
			if len(t.polys) > 0 {
				out = append(out, t)
			}
		}
	}
	return out
}

// compositions of n as lists of parts.
func compositions(n int) [][]int {
	var out [][]int
	for m := 0; m < 1<<uint(n-1); m++ {
		var c []int
		k := 1
		for b := 0; b < n-1; b++ {
			if m&(1<<uint(b)) != 0 {
				c = append(c, k)
				k = 1
			} else {
				k++
			}
		}
		out = append(out, append(c, k))
	}
	return out
}

// mixedFamily: a row of tiles, each cut into strips across the shared borders
// by a composition of 4 units, with one strip per tile optionally missing, so
// that border edges overlap in every partial way.
func mixedFamily(ntiles int, vertical bool) qfamily {
	comps := compositions(4)
	// strip missing: 0 none, k = strip k-1 (if it exists)
	per := len(comps) * 3
	return qfamily{
		name:  fmt.Sprintf("mixed%d-v%v", ntiles, vertical),
		bound: fmt.Sprintf("all rows of %d tiles, each cut into strips by any composition of 4, none/first/second strip missing", ntiles),
		n:     hx.Pow(per, ntiles),
		mk: func(i int64) *qmesh {
			d := hx.NewDec(i)
			g := newGrid(ntiles, 1)
			g.TW, g.TH, g.S = 1, 1, 8
			if vertical {
				g = newGrid(1, ntiles)
				g.TW, g.TH, g.S = 1, 1, 8
			}
			var defs []*tileDef
			for k := 0; k < ntiles; k++ {
				c := comps[d.Next(len(comps))]
				miss := d.Next(3) - 1
				tx, ty := k, 0
				if vertical {
					tx, ty = 0, k
				}
				t := &tileDef{x: tx, y: ty, w: 8, h: 8, cs: g.cs, ch: g.ch, climb: g.climb}
				t.bmin = [3]float32{g.orig[0] + float32(tx)*g.cellSize(), g.orig[1], g.orig[2] + float32(ty)*g.cellSize()}
				o := 0
				for s, n := range c {
					if s != miss {
						var q polyDef
						if vertical {
							q = quad(o*2, 0, (o+n)*2, 8, 0, 0, 1)
						} else {
							q = quad(0, o*2, 8, (o+n)*2, 0, 0, 1)
						}
						t.polys = append(t.polys, q)
					}
					o += n
				}
				if len(t.polys) > 0 {
					defs = append(defs, t)
				}
			}
			if len(defs) == 0 {
				return nil
			}
			return buildQ(g, defs, nil)
		},
	}
}
