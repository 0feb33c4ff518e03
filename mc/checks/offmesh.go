package checks

import (
	"fmt"
	"math"
	"sort"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C16: off-mesh connections

func init() {
	hx.Register(&hx.Check{
		ID: "C16", Level: "model_checking",
		Rule: "every placement of an off-mesh connection (start and end on lattices inside, next to, above and away from the polygons; end in the own tile or any of the eight neighbours) x direction x radius x load order x bounding volume tree on the real AddTile, FindPath, sliced search, FindStraightPath, Raycast and FindNearestPoly; also reloading the landing or the starting tile; oracle: brute force landing polygons and the link structure, corridors and way points that follow; non-trivial: the connection is stored",
		Assumptions: []string{
			"placements for which two polygons are equally near, or the nearest one in the search box is out of reach, are not judged (counted)",
		},
		Spaces: func(th bool) []hx.Space { return c16Spaces(th) },
	})
}

// offWorld is a 3x3 tile world with two separate polygons per tile.
func offWorld(centre, noBV bool) (*gridWorld, []*tileDef) {
	g := newGrid(3, 3)
	g.TW, g.TH, g.S, g.climb = 1, 1, 16, 0.6
	var defs []*tileDef
	for ty := 0; ty < 3; ty++ {
		for tx := 0; tx < 3; tx++ {
			t := &tileDef{x: tx, y: ty, w: 16, h: 16, cs: g.cs, ch: g.ch, climb: g.climb, noBV: noBV}
			t.bmin = [3]float32{g.orig[0] + float32(tx)*g.cellSize(), g.orig[1], g.orig[2] + float32(ty)*g.cellSize()}
			t.polys = append(t.polys, quad(1, 1, 6, 13, 8+tx, 1, 1), quad(9, 1, 14, 13, 8+2*ty, 2, 1))
			defs = append(defs, t)
		}
	}
	return g, defs
}

// landing finds the polygon of tile t nearest to p: index, closest point, and
// whether the outcome is clear.
func (m *qmesh) landing(t int, p [3]float32, rad float32) (k int, at d3.Vec3, clear bool) {
	climb := float64(m.defs[t].climb)
	k = -1
	best, second := math.Inf(1), math.Inf(1)
	c := d3.Vec3{p[0], p[1], p[2]}
	clear = true
	for i := range m.polys {
		if m.polys[i].tile != t {
			continue
		}
		lo, hi := [3]float64{1e9, 1e9, 1e9}, [3]float64{-1e9, -1e9, -1e9}
		for _, v := range m.polys[i].v {
			for a := range v {
				lo[a], hi[a] = math.Min(lo[a], v[a]), math.Max(hi[a], v[a])
			}
		}
		ext := [3]float64{float64(rad), climb, float64(rad)}
		in, maybe := true, true
		for a := range lo {
			x := float64(p[a])
			s := 2.01 * float64(m.defs[t].cs)
			if m.defs[t].noBV {
				s = 1e-3 // polygons' own bounds are compared
			}
			in = in && x-ext[a] <= hi[a]-1e-3 && x+ext[a] >= lo[a]+1e-3
			maybe = maybe && x-ext[a] <= hi[a]+s && x+ext[a] >= lo[a]-s
		}
		f := m.facts(i, m.surface(i), c, climb)
		if !in {
			if maybe && math.Hypot(f.near.x-float64(p[0]), f.near.z-float64(p[2])) <= float64(rad)+1e-3 {
				clear = false // only the quantisation decides
			}
			if !maybe {
				continue
			}
		}
		if f.over < 0 {
			clear = false
		}
		switch d := f.dLow; {
		case d < best:
			best, second = d, best
			k = -1
			at = d3.Vec3{float32(f.near.x), float32(f.hs[0]), float32(f.near.z)}
			if r := math.Hypot(f.near.x-float64(p[0]), f.near.z-float64(p[2])); in && r < float64(rad)-1e-3 {
				k = i
			} else if r < float64(rad)+1e-3 {
				clear = false
			}
		case d < second:
			second = d
		}
	}
	if second-best < 1e-3 {
		clear = false
	}
	return
}

func c16Spaces(th bool) []hx.Space {
	// positions relative to a polygon: fraction of x, z and height offset
	starts := [][3]float32{{0.5, 0.5, 0}, {0.9, 0.2, 0.4}, {1.05, 0.4, -0.3}, {1.2, 0.6, 0}, {1.28, 0.97, 0.2}, {0.4, 0.6, 3}, {0.5, 1.08, 0}, {-0.07, 0.3, 0}, {0.5, 0.5, 0.8}}
	ends := [][3]float32{{0.5, 0.5, 0}, {0.2, 0.8, -0.4}, {-0.06, 0.4, 0.3}, {0.6, 1.06, 0}, {1.3, 0.5, 0}, {0.4, 0.6, 4}, {0.4, 0.6, 1}, {0.6, 0.4, -1.8}}
	if th {
		starts = append(starts, [3]float32{0.05, 0.05, 0.5}, [3]float32{0.7, -0.05, 0.1}, [3]float32{0.3, 0.3, -0.5}, [3]float32{1.5, 0.5, 0})
		ends = append(ends, [3]float32{-0.05, -0.03, 0}, [3]float32{0.9, 0.9, 0.5}, [3]float32{-0.15, 0.5, 0}, [3]float32{0.5, 1.15, 0.1}, [3]float32{1.1, 1.1, 0})
	}
	rads := []float32{0.15, 0.6}
	ns, ne := len(starts), len(ends)
	out := []hx.Space{{Name: "placements", N: int64(ns * ne * 9 * 2 * 2 * len(rads) * 2 * 3), Bound: fmt.Sprintf("3x3 tiles of two polygons, one connection: %d starts x %d ends x 9 tiles x 2 polygons x directions x %d radii x tree x 3 load orders", ns, ne, len(rads)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s, en := starts[d.Next(ns)], ends[d.Next(ne)]
			target, tp := d.Next(9), d.Next(2)
			bidir := d.Next(2)
			rad := rads[d.Next(len(rads))]
			noBV := d.Next(2) == 1
			order := [][]int{nil, {4, 8, 7, 6, 5, 3, 2, 1, 0}, {8, 0, 7, 1, 6, 2, 5, 3, 4}}[d.Next(3)]
			g, defs := offWorld(true, noBV)
			at := func(t, k int, f [3]float32) [3]float32 {
				v := defs[t].polys[k].v
				lo, hi := defs[t].vertW(k, 0), defs[t].vertW(k, 2)
				_ = v
				return [3]float32{lo[0] + (hi[0]-lo[0])*f[0], lo[1] + f[2], lo[2] + (hi[2]-lo[2])*f[1]}
			}
			if target == 4 && tp == 0 {
				return // would land where it starts
			}
			o := offDef{a: at(4, 0, s), b: at(target, tp, en), rad: rad, flags: 4 | 1, area: 5, bidir: uint8(bidir), id: 0x81000000 + uint32(i%100)*0x10101}
			defs[4].offs = []offDef{o}
			m := buildQ(g, defs, order)
			checkOffMesh(e, m, 4, []offDef{o}, i)
		}}}
	pairs := [][2]int{{0, 1}, {1, 0}, {0, 0}, {2, 5}, {4, 3}, {3, 4}}
	out = append(out, bigOffMesh())
	out = append(out, hx.Space{Name: "several", N: int64(9 * 9 * 9 * 8 * 2), Bound: "three connections of the centre tile, every combination of target tiles and directions, 2 load orders",
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			t := []int{d.Next(9), d.Next(9), d.Next(9)}
			dirs := d.Next(8)
			var order []int
			if d.Next(2) == 1 {
				order = []int{4, 8, 7, 6, 5, 3, 2, 1, 0}
			}
			g, defs := offWorld(true, i%3 == 0)
			var offs []offDef
			for k := range t {
				p := pairs[(int(i)+k)%len(pairs)]
				tp := 1
				if t[k] != 4 {
					tp = k % 2
				}
				lo, hi := defs[4].vertW(0, 0), defs[4].vertW(0, 2)
				tl, tu := defs[t[k]].vertW(tp, 0), defs[t[k]].vertW(tp, 2)
				f := float32(k)*0.3 + 0.2
				o := offDef{a: [3]float32{lo[0] + (hi[0]-lo[0])*f, lo[1], lo[2] + (hi[2]-lo[2])*f},
					b:   [3]float32{tl[0] + (tu[0]-tl[0])*(1-f), tl[1], tl[2] + (tu[2]-tl[2])*f},
					rad: 0.4, flags: uint16(1 | 4<<uint(k)), area: uint8(5 + k), bidir: uint8(dirs >> uint(k) & 1), id: uint32(900+p[0]) * 0x3010101}
				offs = append(offs, o)
			}
			defs[4].offs = offs
			m := buildQ(g, defs, order)
			checkOffMesh(e, m, 4, offs, i)
		}})
	out = append(out, hx.Space{Name: "shortcut", N: 16 * 16 * 2 * 4, Bound: "4x4 grid with a wall, a connection between any two cells, both directions, two area costs, all walks",
		Run: func(e *hx.Env, i int64) { offShortcut(e, i) }})
	return out
}

func checkOffMesh(e *hx.Env, m *qmesh, ct int, offs []offDef, i int64) {
	d := m.defs[ct]
	var tile *detour.MeshTile
	tile = m.nav.TileByRef(m.trefs[ct])
	// which connections are stored
	type con struct {
		o       offDef
		ref     detour.PolyRef
		from    int
		to      int
		v0, v1  d3.Vec3
		unclear bool
	}
	var cons []con
	bmax := d.bmax()
	hlo, hhi := math.Inf(1), math.Inf(-1)
	for k := range d.polys {
		for j := range d.polys[k].v {
			y := float64(d.vertW(k, j)[1])
			hlo, hhi = math.Min(hlo, y), math.Max(hhi, y)
		}
	}
	for _, o := range offs {
		inside := o.a[0] >= d.bmin[0] && o.a[0] < bmax[0] && o.a[2] >= d.bmin[2] && o.a[2] < bmax[2]
		if !inside || float64(o.a[1]) < hlo-float64(d.climb) || float64(o.a[1]) > hhi+float64(d.climb) {
			continue
		}
		c := con{o: o, from: -1, to: -1}
		k, at, clear := m.landing(ct, o.a, o.rad)
		if !clear {
			c.unclear = true
		}
		c.v0 = d3.Vec3{o.a[0], o.a[1], o.a[2]}
		c.v1 = d3.Vec3{o.b[0], o.b[1], o.b[2]}
		if k >= 0 {
			c.from, c.v0 = k, at
			// tile of the end
			tx, ty := 0, 0
			if o.b[0] >= bmax[0] {
				tx = 1
			} else if o.b[0] < d.bmin[0] {
				tx = -1
			}
			if o.b[2] >= bmax[2] {
				ty = 1
			} else if o.b[2] < d.bmin[2] {
				ty = -1
			}
			for t := range m.defs {
				if m.defs[t].x == d.x+tx && m.defs[t].y == d.y+ty {
					k2, at2, clear2 := m.landing(t, o.b, o.rad)
					if !clear2 {
						c.unclear = true
					}
					if k2 >= 0 {
						c.to, c.v1 = k2, at2
					}
				}
			}
		}
		c.ref = detour.PolyRef(m.trefs[ct]) | detour.PolyRef(len(d.polys)+len(cons))
		cons = append(cons, c)
	}
	e.Step(len(m.defs))
	e.Eval(1)
	e.Assert(int(tile.Header.OffMeshConCount) == len(cons), "stored", "connections %+v: %d are stored, expected %d", offs, tile.Header.OffMeshConCount, len(cons))
	for _, c := range cons {
		if c.unclear {
			e.Outcome("not judged: landing not clear")
			return
		}
	}
	desc := func() string {
		s := ""
		for _, c := range cons {
			s += fmt.Sprintf("connection %v -> %v radius %g both ways %d, expected from polygon %d to %d; ", c.o.a, c.o.b, c.o.rad, c.o.bidir, c.from, c.to)
		}
		return s
	}
	e.Log("%s\n%s", desc(), m.describe())
	q := newQuery(m.nav, 64)
	check := func() {
		want := map[detour.PolyRef][]detour.PolyRef{}
		ends := map[string]bool{} // from, to, edge, side
		for i, c := range cons {
			want[c.ref] = nil
			if c.from >= 0 {
				f := m.polys[c.from].ref
				want[c.ref] = append(want[c.ref], f)
				want[f] = append(want[f], c.ref)
				ends[fmt.Sprintf("%x>%x 0 ff", uint32(c.ref), uint32(f))] = true
				ends[fmt.Sprintf("%x>%x ff ff", uint32(f), uint32(c.ref))] = true
				if c.to >= 0 {
					t := m.polys[c.to].ref
					want[c.ref] = append(want[c.ref], t)
					side, back := sideTowards(d, m.defs[m.polys[c.to].tile])
					ends[fmt.Sprintf("%x>%x 1 %x", uint32(c.ref), uint32(t), side)] = true
					if c.o.bidir != 0 {
						want[t] = append(want[t], c.ref)
						ends[fmt.Sprintf("%x>%x ff %x", uint32(t), uint32(c.ref), back)] = true
					}
				}
			}
			var tl *detour.MeshTile
			var p *detour.Poly
			if st := m.nav.TileAndPolyByRef(c.ref, &tl, &p); detour.StatusFailed(st) {
				e.Failf("ref", "%s: reference %x is not valid", desc(), uint32(c.ref))
			}
			oc := &tl.OffMeshCons[i]
			if p.Area() != c.o.area || p.Flags != c.o.flags || p.Type() != 1 || p.VertCount != 2 || oc.UserID != c.o.id || oc.Rad != c.o.rad || (oc.Flags != 0) != (c.o.bidir != 0) {
				e.Failf("attributes", "%s: connection %d has area %d flags %x type %d id %d radius %g", desc(), i, p.Area(), p.Flags, p.Type(), oc.UserID, oc.Rad)
			}
			a, b := tl.Verts[int(p.Verts[0])*3:int(p.Verts[0])*3+3], tl.Verts[int(p.Verts[1])*3:int(p.Verts[1])*3+3]
			if dist3(a, c.v0) > 5e-3 || dist3(b, c.v1) > 5e-3 {
				e.Failf("ends", "%s: connection %d goes from %v to %v, expected %v to %v", desc(), i, a, b, c.v0, c.v1)
			}
		}
		for i := range m.polys {
			r := m.polys[i].ref
			if _, ok := want[r]; !ok {
				want[r] = nil
			}
		}
		for r := range want {
			var tl *detour.MeshTile
			var p *detour.Poly
			if detour.StatusFailed(m.nav.TileAndPolyByRef(r, &tl, &p)) {
				continue
			}
			n := 0
			for l := p.FirstLink; l != 0xffffffff && n < 64; l = tl.Links[l].Next {
				n++
				lk := &tl.Links[l]
				if k := fmt.Sprintf("%x>%x %x %x", uint32(r), uint32(lk.Ref), lk.Edge, lk.Side); !ends[k] {
					e.Failf("link-side", "%s: link %s (from>to edge side) is not among the expected %v", desc(), k, ends)
				}
			}
		}
		for r, w := range want {
			got := linksOf(m.nav, r)
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			if fmt.Sprint(got) != fmt.Sprint(w) {
				e.Failf("links", "%s: polygon %x is linked to %x, expected %x", desc(), uint32(r), got, w)
			}
		}
	}
	check()
	linked := 0
	for _, c := range cons {
		if c.from >= 0 && c.to >= 0 {
			linked++
		}
	}
	e.Outcome("%d stored %d linked", len(cons), linked)
	f := detour.NewStandardQueryFilter()
	walk := func(from, to int, sp, ep d3.Vec3, f *detour.StandardQueryFilter) ([]detour.PolyRef, detour.Status) {
		path := make([]detour.PolyRef, 16)
		n, st := q.FindPath(m.polys[from].ref, m.polys[to].ref, sp, ep, f, path)
		e.Step(1)
		e.Eval(1)
		p2 := make([]detour.PolyRef, 16)
		if st0 := q.InitSlicedFindPath(m.polys[from].ref, m.polys[to].ref, sp, ep, f, 0); !detour.StatusFailed(st0) {
			for detour.StatusInProgress(q.UpdateSlicedFindPath(2, nil)) {
			}
			n2, st2 := q.FinalizeSlicedFindPath(p2, 16)
			if fmt.Sprint(p2[:n2]) != fmt.Sprint(path[:n]) || st2 != st {
				e.Failf("sliced", "%s: sliced search from %d to %d gives %x %x, one-shot %x %x", desc(), from, to, p2[:n2], uint32(st2), path[:n], uint32(st))
			}
		} else {
			e.Failf("sliced", "%s: sliced search does not start: %x", desc(), uint32(st0))
		}
		return path[:n], st
	}
	for ci, c := range cons {
		if c.from < 0 || c.to < 0 || c.from == c.to {
			continue
		}
		only := f
		if len(cons) > 1 {
			only = detour.NewStandardQueryFilter()
			ex := uint16(0)
			for _, o := range cons {
				if o.ref != c.ref {
					ex |= o.o.flags &^ 1
				}
			}
			only.SetExcludeFlags(ex)
		}
		only.SetAreaCost(int32(c.o.area), 3)
		A, B := m.polys[c.from].ref, m.polys[c.to].ref
		sp, ep := m.inner(c.from, 1, 0.43), m.inner(c.to, 3, 0.31)
		for dir := 0; dir < 2; dir++ {
			from, to, s, t, v0, v1 := c.from, c.to, sp, ep, c.v0, c.v1
			want := []detour.PolyRef{A, c.ref, B}
			if dir == 1 {
				from, to, s, t, v0, v1 = to, from, ep, sp, c.v1, c.v0
				want = []detour.PolyRef{B, c.ref, A}
			}
			path, st := walk(from, to, s, t, only)
			if dir == 1 && c.o.bidir == 0 {
				if st != detour.Success|detour.PartialResult || len(path) != 1 {
					e.Failf("one-way", "%s: path against connection %d: %x status %x", desc(), ci, path, uint32(st))
				}
				continue
			}
			if st != detour.Success || fmt.Sprint(path) != fmt.Sprint(want) {
				e.Failf("path", "%s: path from %d to %d: %x status %x, expected %x", desc(), from, to, path, uint32(st), want)
			}
			cost := 0.0
			for _, n := range nodesOf(q, want[2]) {
				cost = math.Max(cost, float64(n.Cost))
			}
			wc := dist3(s, v0) + 3*dist3(v0, v1) + dist3(v1, t)
			if math.Abs(cost-wc) > 1e-2*(1+wc) {
				e.Failf("cost", "%s: path from %d to %d costs %g, expected %g", desc(), from, to, cost, wc)
			}
			for opt := int32(0); opt < 3; opt++ {
				pts := make([]d3.Vec3, 10)
				for k := range pts {
					pts[k] = d3.NewVec3()
				}
				fl, refs := make([]uint8, 10), make([]detour.PolyRef, 10)
				n, st := q.FindStraightPath(s, t, path, pts, fl, refs, opt)
				e.Step(1)
				wp := []d3.Vec3{s, v0, v1, t}
				wf := []uint8{detour.StraightPathStart, detour.StraightPathOffMeshConnection, 0, detour.StraightPathEnd}
				wr := []detour.PolyRef{want[0], c.ref, want[2], 0}
				ok := st == detour.Success && n == 4 && string(fl[:n]) == string(wf) && fmt.Sprint(refs[:n]) == fmt.Sprint(wr)
				for k := 0; ok && k < n; k++ {
					// heights of the ends are those of the polygons
					ok = toP2(pts[k]).dist(toP2(wp[k])) < 5e-3 && math.Abs(float64(pts[k][1]-wp[k][1])) < 1e-2
				}
				if !ok {
					e.Failf("straight", "%s: straight path from %d to %d (options %d): %v flags %v refs %x status %x, expected %v %v %x", desc(), from, to, opt, pts[:n], fl[:n], refs[:n], uint32(st), wp, wf, wr)
				}
			}
			// the filter can keep agents off
			no := detour.NewStandardQueryFilter()
			no.SetExcludeFlags(0xffff &^ 1)
			if path, st := walk(from, to, s, t, no); st != detour.Success|detour.PartialResult || len(path) != 1 {
				e.Failf("filtered", "%s: path with the connection excluded: %x status %x", desc(), path, uint32(st))
			}
			// rays do not use connections
			hit := detour.RaycastHit{Path: make([]detour.PolyRef, 8), MaxPath: 8}
			if st := q.Raycast(m.polys[from].ref, s, t, f, 0, &hit, 0); st != detour.Success || hit.PathCount != 1 || hit.T > 1 {
				e.Failf("ray", "%s: ray from %v to %v: %x t %g status %x", desc(), s, t, hit.Path[:hit.PathCount], hit.T, uint32(st))
			}
			// nor are they found as the nearest polygon
			mid := v0.Add(v1).Scale(0.5)
			if st, r, _ := q.FindNearestPoly(mid, d3.Vec3{50, 50, 50}, f); st != detour.Success || r == 0 || r == c.ref {
				e.Failf("nearest", "%s: nearest polygon to %v: %x status %x", desc(), mid, uint32(r), uint32(st))
			} else if _, ok := m.idx[r]; !ok {
				e.Failf("nearest", "%s: nearest polygon to %v: %x", desc(), mid, uint32(r))
			}
			over, cl := true, d3.NewVec3()
			if st := q.ClosestPointOnPoly(c.ref, mid, cl, &over); st != detour.Success || over || dist3(cl, mid) > 1e-2 {
				e.Failf("closest", "%s: closest point to the middle %v: %v over %v status %x", desc(), mid, cl, over, uint32(st))
			}
		}
		e.Trace()
	}
	// reload the landing tiles and the starting tile: same connections
	if i%5 == 0 {
		reload := func(t int) {
			_, st := m.nav.RemoveTile(m.trefs[t])
			e.Step(1)
			if detour.StatusFailed(st) {
				e.Failf("remove", "%s: RemoveTile %x", desc(), uint32(st))
			}
			if t != ct {
				for _, c := range cons {
					if c.to >= 0 && m.polys[c.to].tile == t {
						for _, r := range linksOf(m.nav, c.ref) {
							if r != m.polys[c.from].ref {
								e.Failf("stale", "%s: connection still linked to %x after its tile is gone", desc(), uint32(r))
							}
						}
					}
				}
			}
			st, ref := m.nav.AddTile(m.defs[t].data(), m.trefs[t])
			if detour.StatusFailed(st) {
				e.Failf("readd", "%s: AddTile %x", desc(), uint32(st))
			}
			if ref != m.trefs[t] {
				e.Failf("readd-ref", "%s: tile comes back as %x instead of %x", desc(), uint32(ref), uint32(m.trefs[t]))
			}
			check()
		}
		for _, c := range cons {
			if c.to >= 0 && m.polys[c.to].tile != ct {
				reload(m.polys[c.to].tile)
			}
		}
		reload(ct)
	}
	e.State(hx.H(desc()))
	e.Trace()
}

// sideTowards is the side of tile a on which b lies, and the other way round;
// 0xff within a tile.
func sideTowards(a, b *tileDef) (int, int) {
	for s, d := range [8][2]int{{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}} {
		if b.x-a.x == d[0] && b.y-a.y == d[1] {
			return s, (s + 4) % 8
		}
	}
	return 0xff, 0xff
}

func nodesOf(q *detour.NavMeshQuery, ref detour.PolyRef) []*detour.Node {
	ns := make([]*detour.Node, 8)
	n := q.NodePool().FindNodes(ref, ns, 8)
	return ns[:n]
}

// offShortcut: a connection inside a walkable grid is used exactly if it pays.
func offShortcut(e *hx.Env, i int64) {
	d := hx.NewDec(i)
	a, b := d.Next(16), d.Next(16)
	bidir := d.Next(2)
	kind := d.Next(4)
	if a == b {
		return
	}
	g := newGrid(4, 4)
	g.S = 4
	if kind&1 == 1 {
		g.TW, g.TH = 2, 2
	}
	area := []float32{1, 6}[kind>>1]
	// wall of missing cells: a comb
	for _, c := range []int{4, 5, 6, 13, 14, 15} {
		g.cells[c].present = false
	}
	if !g.cells[a].present || !g.cells[b].present {
		return
	}
	ca, cb := g.center(a), g.center(b)
	o := offDef{a: [3]float32{ca[0], ca[1], ca[2]}, b: [3]float32{cb[0], cb[1], cb[2]}, rad: 0.3, flags: 3, area: 9, bidir: uint8(bidir), id: 5}
	g.offs = []offDef{o}
	m := g.build()
	var off detour.PolyRef
	ta := (a%4)/g.TW + (a/4)/g.TH*(4/g.TW)
	tb := (b%4)/g.TW + (b/4)/g.TH*(4/g.TW)
	_ = tb
	for i := range m.nav.Tiles {
		t := &m.nav.Tiles[i]
		if t.Header != nil && t.Header.OffMeshConCount > 0 {
			off = detour.PolyRef(m.nav.TileRef(t)) | detour.PolyRef(t.Header.OffMeshBase)
		}
	}
	e.Assert(off != 0, "stored", "connection from cell %d (tile %d) to %d is not stored", a, ta, b)
	q := newQuery(m.nav, 128)
	f := detour.NewStandardQueryFilter()
	f.SetAreaCost(9, area)
	fNo := detour.NewStandardQueryFilter()
	fNo.SetExcludeFlags(2)
	plain := func(s, t int, sp, ep d3.Vec3) (float64, bool) {
		path := make([]detour.PolyRef, 32)
		n, st := q.FindPath(m.ref[s], m.ref[t], sp, ep, fNo, path)
		e.Step(1)
		if st != detour.Success || n == 0 || path[n-1] != m.ref[t] {
			return math.Inf(1), false
		}
		best := math.Inf(1)
		for _, nd := range nodesOf(q, m.ref[t]) {
			if c := float64(nd.Cost); c < best && (c > 0 || s == t) {
				best = c
			}
		}
		return best, true
	}
	for s := range m.ref {
		for t := range m.ref {
			if m.ref[s] == 0 || m.ref[t] == 0 {
				continue
			}
			sp, ep := g.pos(s%4, s/4, 0.4, 0.6), g.pos(t%4, t/4, 0.7, 0.3)
			e.Eval(1)
			path := make([]detour.PolyRef, 32)
			n, st := q.FindPath(m.ref[s], m.ref[t], sp, ep, f, path)
			e.Step(1)
			used := false
			for k := 0; k < n; k++ {
				if path[k] == off {
					used = true
					if k == 0 || k == n-1 {
						e.Failf("endpoint", "path %x ends at the connection", path[:n])
					}
					fw := path[k-1] == m.ref[a] && path[k+1] == m.ref[b]
					bw := path[k-1] == m.ref[b] && path[k+1] == m.ref[a] && bidir != 0
					if !fw && !bw {
						e.Failf("direction", "path %x from %d to %d goes through the connection %d -> %d (both ways %d) between %x and %x", path[:n], s, t, a, b, bidir, uint32(path[k-1]), uint32(path[k+1]))
					}
				}
			}
			if st != detour.Success {
				e.Failf("status", "path from %d to %d: status %x", s, t, uint32(st))
			}
			if used {
				// the straight path tells where to leave the ground
				for opt := int32(0); opt < 3; opt++ {
					pts := make([]d3.Vec3, 40)
					for k := range pts {
						pts[k] = d3.NewVec3()
					}
					fl, refs := make([]uint8, 40), make([]detour.PolyRef, 40)
					np, st := q.FindStraightPath(sp, ep, path[:n], pts, fl, refs, opt)
					e.Step(1)
					marks, bad := 0, st != detour.Success
					for k := 0; k < np; k++ {
						if (fl[k]&detour.StraightPathOffMeshConnection != 0) != (refs[k] == off) {
							bad = true
						}
						if refs[k] == off {
							marks++
							bad = bad || math.Min(toP2(pts[k]).dist(toP2(ca)), toP2(pts[k]).dist(toP2(cb))) > 1e-2
						}
					}
					if bad || marks != 1 {
						e.Failf("marks", "straight path (options %d) from %v to %v along %x, connection %x: %v flags %v refs %x status %x", opt, sp, ep, path[:n], uint32(off), pts[:np], fl[:np], refs[:np], uint32(st))
					}
				}
			}
			if s == t {
				continue
			}
			// what walking costs, and what the connection costs
			walk, _ := plain(s, t, sp, ep)
			via := math.Inf(1)
			leg := func(x, y int, px, py d3.Vec3) {
				c1, ok1 := 0.0, true
				if s != x {
					c1, ok1 = plain(s, x, sp, px)
				} else {
					c1 = dist3(sp, px)
				}
				c2, ok2 := 0.0, true
				if t != y {
					c2, ok2 = plain(y, t, py, ep)
				} else {
					c2 = dist3(py, ep)
				}
				if ok1 && ok2 {
					via = math.Min(via, c1+float64(area)*dist3(px, py)+c2)
				}
			}
			leg(a, b, ca, cb)
			if bidir != 0 {
				leg(b, a, cb, ca)
			}
			switch {
			case via < 0.7*walk-0.5 && !used:
				e.Failf("unused", "path from %d to %d does not use the connection %d -> %d: walking costs %g, the connection %g", s, t, a, b, walk, via)
			case walk < 0.7*via-0.5 && used:
				e.Failf("overused", "path from %d to %d uses the connection %d -> %d: walking costs %g, the connection %g", s, t, a, b, walk, via)
			}
			if used {
				e.Outcome("shortcut used")
			} else {
				e.Outcome("shortcut not used")
			}
			e.State(hx.H(i, s, t, used))
			e.Trace()
		}
	}
}
