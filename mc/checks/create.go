package checks

import (
	"bytes"
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"

	"verif/mc/hx"
)

func loadSingle(data []byte) (*detour.NavMesh, detour.Status) {
	nav := &detour.NavMesh{}
	st := nav.InitForSingleTile(data, 0)
	return nav, st
}

// checkTile compares a loaded tile with the parameters it was created from.
func checkTile(e *hx.Env, t *detour.MeshTile, p *detour.NavMeshCreateParams) {
	h := t.Header
	nvp := int(p.Nvp)
	// expected off-mesh connections: those starting in the tile
	type con struct {
		i    int
		side uint8
	}
	var cons []con
	hmin, hmax := float32(math.MaxFloat32), float32(-math.MaxFloat32)
	if len(p.DetailVerts) > 0 {
		for i := 1; i < len(p.DetailVerts); i += 3 {
			hmin = float32(math.Min(float64(hmin), float64(p.DetailVerts[i])))
			hmax = float32(math.Max(float64(hmax), float64(p.DetailVerts[i])))
		}
	} else {
		for i := 1; i < len(p.Verts); i += 3 {
			y := p.BMin[1] + float32(p.Verts[i])*p.Ch
			hmin = float32(math.Min(float64(hmin), float64(y)))
			hmax = float32(math.Max(float64(hmax), float64(y)))
		}
	}
	side := func(v []float32) uint8 {
		dx, dz := 0, 0
		if v[0] >= p.BMax[0] {
			dx = 1
		} else if v[0] < p.BMin[0] {
			dx = -1
		}
		if v[2] >= p.BMax[2] {
			dz = 1
		} else if v[2] < p.BMin[2] {
			dz = -1
		}
		return map[[2]int]uint8{{0, 0}: 0xff, {1, 0}: 0, {1, 1}: 1, {0, 1}: 2, {-1, 1}: 3, {-1, 0}: 4, {-1, -1}: 5, {0, -1}: 6, {1, -1}: 7}[[2]int{dx, dz}]
	}
	for i := 0; i < int(p.OffMeshConCount); i++ {
		a, b := p.OffMeshConVerts[i*6:i*6+3], p.OffMeshConVerts[i*6+3:i*6+6]
		if side(a) == 0xff && a[1] >= hmin-p.WalkableClimb && a[1] <= hmax+p.WalkableClimb {
			cons = append(cons, con{i, side(b)})
		}
	}
	np, nc := int(p.PolyCount), len(cons)
	e.Assert(h.X == p.TileX && h.Y == p.TileY && h.Layer == p.TileLayer && h.UserID == p.UserID, "header-id", "header %+v", *h)
	e.Assert(h.BMin == p.BMin && h.BMax == p.BMax && h.WalkableHeight == p.WalkableHeight && h.WalkableRadius == p.WalkableRadius && h.WalkableClimb == p.WalkableClimb, "header-dims", "header %+v", *h)
	e.Assert(int(h.PolyCount) == np+nc && len(t.Polys) == np+nc, "poly-count", "%d polygons, want %d+%d", h.PolyCount, np, nc)
	e.Assert(int(h.VertCount) == int(p.VertCount)+2*nc, "vert-count", "%d vertices, want %d+2*%d", h.VertCount, p.VertCount, nc)
	e.Assert(int(h.OffMeshConCount) == nc && int(h.OffMeshBase) == np, "off-count", "%d connections from %d, want %d from %d", h.OffMeshConCount, h.OffMeshBase, nc, np)
	for i := 0; i < int(p.VertCount); i++ {
		for k, c := range []float32{p.Cs, p.Ch, p.Cs} {
			want := p.BMin[k] + float32(p.Verts[i*3+k])*c
			if !near(t.Verts[i*3+k], want, 1e-4) {
				e.Failf("vertex", "vertex %d is %v, want coordinate %d = %v", i, t.Verts[i*3:i*3+3], k, want)
			}
		}
	}
	edges, portals := 0, 0
	for i := 0; i < np; i++ {
		q := &t.Polys[i]
		row := p.Polys[i*2*nvp:]
		nv := 0
		for nv < nvp && row[nv] != 0xffff {
			nv++
		}
		edges += nv
		if int(q.VertCount) != nv || q.Flags != p.PolyFlags[i] || q.Area() != p.PolyAreas[i] || q.Type() != 0 {
			e.Failf("poly", "polygon %d: %d vertices flags %x area %d type %d, want %d %x %d 0", i, q.VertCount, q.Flags, q.Area(), q.Type(), nv, p.PolyFlags[i], p.PolyAreas[i])
		}
		for j := 0; j < nv; j++ {
			want := uint16(0)
			switch w := row[nvp+j]; {
			case w&0x8000 == 0:
				want = w + 1
			case w&0xf == 0:
				want = extFlag | 4
			case w&0xf == 1:
				want = extFlag | 2
			case w&0xf == 2:
				want = extFlag | 0
			case w&0xf == 3:
				want = extFlag | 6
			}
			if want&extFlag != 0 {
				portals++
			}
			if q.Verts[j] != row[j] || q.Neis[j] != want {
				e.Failf("poly-edge", "polygon %d edge %d: vertex %d neighbour %x, want %d %x (input word %x)", i, j, q.Verts[j], q.Neis[j], row[j], want, row[nvp+j])
			}
		}
	}
	room := edges + 2*portals
	for _, c := range cons {
		room += 2
		if c.side == 0xff {
			room += 2
		}
	}
	e.Assert(int(h.MaxLinkCount) >= room, "link-room", "%d links for %d edges, %d of them portals, and %d connections", h.MaxLinkCount, edges, portals, nc)
	e.Assert(int(h.MaxLinkCount) >= edges && len(t.Links) == int(h.MaxLinkCount), "links", "%d links for %d edges", h.MaxLinkCount, edges)
	// detail surface
	e.Assert(int(h.DetailMeshCount) == np && len(t.DetailMeshes) == np, "detail-count", "%d detail meshes", h.DetailMeshCount)
	tri := 0
	for i := 0; i < np; i++ {
		d := &t.DetailMeshes[i]
		q := &t.Polys[i]
		nv := int(q.VertCount)
		pos := func(k uint8) []float32 {
			if int(k) < nv {
				return t.Verts[int(q.Verts[k])*3 : int(q.Verts[k])*3+3]
			}
			o := (int(d.VertBase) + int(k) - nv) * 3
			if int(k)-nv >= int(d.VertCount) || o+3 > len(t.DetailVerts) {
				e.Failf("detail-index", "polygon %d: detail vertex index %d of %d+%d", i, k, nv, d.VertCount)
			}
			return t.DetailVerts[o : o+3]
		}
		if len(p.DetailMeshes) > 0 {
			vb, nt, tb := int(p.DetailMeshes[i*4]), int(p.DetailMeshes[i*4+3]), int(p.DetailMeshes[i*4+2])
			e.Assert(int(d.TriCount) == nt && int(d.VertCount) == int(p.DetailMeshes[i*4+1])-nv, "detail", "polygon %d: %d triangles %d extra vertices", i, d.TriCount, d.VertCount)
			for k := 0; k < nt; k++ {
				for c := 0; c < 4; c++ {
					got := t.DetailTris[(int(d.TriBase)+k)*4+c]
					want := p.DetailTris[(tb+k)*4+c]
					e.Assert(got == want, "detail-tri", "polygon %d triangle %d component %d is %d, want %d", i, k, c, got, want)
					if c < 3 {
						w := p.DetailVerts[(vb+int(want))*3 : (vb+int(want))*3+3]
						if !near3(pos(got), w, 1e-4) {
							e.Failf("detail-vert", "polygon %d triangle %d corner %d at %v, want %v", i, k, c, pos(got), w)
						}
					}
				}
			}
			tri += nt
		} else {
			e.Assert(int(d.TriCount) == nv-2 && d.VertCount == 0, "fan", "polygon %d: %d triangles for %d vertices", i, d.TriCount, nv)
			for k := 0; k < nv-2; k++ {
				tr := t.DetailTris[(int(d.TriBase)+k)*4:]
				e.Assert(tr[0] == 0 && int(tr[1]) == k+1 && int(tr[2]) == k+2, "fan", "polygon %d triangle %d is %v", i, k, tr[:3])
				// edges on the outline of the polygon
				fl := uint8(1 << 2)
				if k == 0 {
					fl |= 1
				}
				if k == nv-3 {
					fl |= 1 << 4
				}
				e.Assert(tr[3] == fl, "fan-flags", "polygon %d (%d vertices) triangle %d has edge flags %x, want %x", i, nv, k, tr[3], fl)
			}
			tri += nv - 2
		}
	}
	e.Assert(int(h.DetailTriCount) == tri, "detail-total", "%d detail triangles, want %d", h.DetailTriCount, tri)
	// bounding volumes
	if !p.BuildBvTree {
		e.Assert(h.BvNodeCount == 0 && t.BvTree == nil, "bv-off", "bounding volume tree present though not requested")
	} else {
		checkBV(e, t, p)
	}
	// connections
	for k, c := range cons {
		o := &t.OffMeshCons[k]
		q := &t.Polys[np+k]
		i := c.i
		for x := 0; x < 6; x++ {
			e.Assert(o.Pos[x] == p.OffMeshConVerts[i*6+x], "off-pos", "connection %d end points %v, want %v", k, o.Pos, p.OffMeshConVerts[i*6:i*6+6])
		}
		e.Assert(int(o.Poly) == np+k && o.Rad == p.OffMeshConRad[i] && o.UserID == p.OffMeshConUserID[i] && o.Side == c.side && (o.Flags&1 != 0) == (p.OffMeshConDir[i] != 0),
			"off", "connection %d (input %d): %+v, want side %d", k, i, *o, c.side)
		e.Assert(q.VertCount == 2 && q.Type() == 1 && q.Flags == p.OffMeshConFlags[i] && q.Area() == p.OffMeshConAreas[i] && int(q.Verts[0]) == int(p.VertCount)+2*k && int(q.Verts[1]) == int(p.VertCount)+2*k+1,
			"off-poly", "polygon of connection %d: %+v", k, *q)
	}
	e.Outcome("%d connections kept", nc)
}

func checkBV(e *hx.Env, t *detour.MeshTile, p *detour.NavMeshCreateParams) {
	np := int(p.PolyCount)
	n := int(t.Header.BvNodeCount)
	e.Assert(n >= 2*np-1 && len(t.BvTree) == n, "bv-size", "%d nodes for %d polygons", n, np)
	e.Assert(near(t.Header.BvQuantFactor*p.Cs, 1, 1e-5), "bv-quant", "quantisation %v for cell size %v", t.Header.BvQuantFactor, p.Cs)
	seen := make([]int, np)
	var walk func(i, end int, depth int) int
	// returns the index after the subtree at i
	walk = func(i, end, depth int) int {
		if i >= end {
			e.Failf("bv-struct", "tree runs past its end")
		}
		nd := &t.BvTree[i]
		if nd.I >= 0 {
			k := int(nd.I)
			e.Assert(k < np, "bv-leaf", "leaf for polygon %d of %d", k, np)
			seen[k]++
			// the quantised box holds the polygon's surface
			q := &t.Polys[k]
			d := &t.DetailMeshes[k]
			var least, most [3]float32
			first := true
			check := func(v []float32) {
				for c := 0; c < 3; c++ {
					x := (v[c] - t.Header.BMin[c]) / p.Cs
					if first || x < least[c] {
						least[c] = x
					}
					if first || x > most[c] {
						most[c] = x
					}
					lo, hi := float32(nd.BMin[c]), float32(nd.BMax[c])+1
					if x < lo-1e-3 || x > hi+1e-3 {
						e.Failf("bv-bounds", "polygon %d: vertex %v outside its node %v (coordinate %d is %v cells)", k, v, *nd, c, x)
					}
				}
				first = false
			}
			for j := 0; j < int(q.VertCount); j++ {
				check(t.Verts[int(q.Verts[j])*3 : int(q.Verts[j])*3+3])
			}
			for j := 0; j < int(d.VertCount); j++ {
				o := (int(d.VertBase) + j) * 3
				check(t.DetailVerts[o : o+3])
			}
			for c := range least {
				if float32(nd.BMin[c]) < least[c]-1.01 || float32(nd.BMax[c]) > most[c]+1.01 {
					e.Failf("bv-loose", "polygon %d spans %v to %v cells, its node %v", k, least, most, *nd)
				}
			}
			return i + 1
		}
		esc := i + int(-nd.I)
		e.Assert(esc <= end, "bv-escape", "node %d escapes to %d beyond %d", i, esc, end)
		j := i + 1
		for j < esc {
			c := &t.BvTree[j]
			for k := 0; k < 3; k++ {
				e.Assert(c.BMin[k] >= nd.BMin[k] && c.BMax[k] <= nd.BMax[k], "bv-nesting", "node %d %v does not contain node %d %v", i, *nd, j, *c)
			}
			j = walk(j, esc, depth+1)
		}
		return esc
	}
	end := walk(0, 2*np-1, 0)
	e.Assert(end == 2*np-1, "bv-root", "the root covers %d of %d nodes", end, 2*np-1)
	for k, c := range seen {
		e.Assert(c == 1, "bv-leaves", "polygon %d has %d leaves", k, c)
	}
}

func tightNvp(p *detour.NavMeshCreateParams, nvp int) bool {
	old := int(p.Nvp)
	if nvp == old {
		return true
	}
	var out []uint16
	for i := 0; i < int(p.PolyCount); i++ {
		row := p.Polys[i*2*old : (i+1)*2*old]
		if row[nvp] != 0xffff {
			return false
		}
		out = append(out, row[:nvp]...)
		out = append(out, row[old:old+nvp]...)
	}
	p.Polys, p.Nvp = out, int32(nvp)
	return true
}

func createAndCheck(e *hx.Env, p *detour.NavMeshCreateParams) *detour.NavMesh {
	e.Step(1)
	data, err := detour.CreateNavMeshData(p)
	if err != nil {
		e.Failf("create-error", "valid input rejected: %v", err)
	}
	nav, st := loadSingle(data)
	if detour.StatusFailed(st) {
		e.Failf("load", "created data does not load: %x", uint32(st))
	}
	t := nav.TileAt(p.TileX, p.TileY, p.TileLayer)
	if t == nil || t.Header == nil {
		e.Failf("load", "created tile not found at its position")
	}
	checkTile(e, t, p)
	e.State(hx.HB(data))
	e.Trace()
	return nav
}

// denseTile is a big tile with detail surfaces of every size and connections.
func denseTile(i int64) *tileDef {
	d := hx.NewDec(i)
	step, rev, w := []int{1, 7}[d.Next(2)], d.Next(2) == 1, []int{40, 32, 17, 9}[d.Next(4)]
	g := newGrid(w, w)
	g.S = 2
	g.maxP = 4096
	t := g.tile(0, 0)
	for k := range t.polys {
		c := &t.polys[k]
		nd := (k * step) % 252
		if rev {
			nd = 251 - nd
		}
		for j := 0; j < nd; j++ {
			c.dv = append(c.dv, [3]float32{float32(c.v[0][0]) + float32(j)/130, 1 + float32(k)/64, float32(c.v[0][2]) + float32(k%97)/50})
		}
		nt := 1 + (k*step*3)%255
		for j := 0; j < nt; j++ {
			n := len(c.v) + nd
			c.tris = append(c.tris, [3]uint8{uint8((j + k) % n), uint8((j*3 + k/7) % n), uint8((j*5 + 2) % n)})
		}
	}
	at := func(k int) [3]float32 {
		c := g.center(k)
		return [3]float32{c[0], c[1], c[2]}
	}
	n := w * w
	t.offs = []offDef{
		{a: at(0), b: at(n - 1), rad: .25, flags: 3, area: 9, id: 1 << 20, bidir: 1},
		{a: at(n / 2), b: at(1), rad: .3, flags: 5, area: 8, id: 1<<32 - 1},
		{a: at(n - 2), b: [3]float32{-50, 1, 2}, rad: .35, flags: 7, area: 7, id: 77, bidir: 1},
	}
	return t
}

const nDense = 2 * 2 * 4

func init() {
	hx.Register(&hx.Check{
		ID: "C07", Level: "model_checking",
		Rule: "every polygon subset of several partitions x option combination, every neighbour word, every placement of connection end points on a lattice, every invalid parameter; the loaded tile is compared field by field with the input; distinct by produced bytes",
		Spaces: func(thorough bool) []hx.Space {
			var out []hx.Space
			g := newGrid(2, 2)
			g.TW, g.TH, g.S = 1, 1, 6
			out = append(out, hx.Space{Name: "rich", N: 15 * 32 * 4, Bound: "every non-empty subset of a 4-polygon partition x tree x detail x connections x polygon width 3..6",
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					sub, bits, nvp := d.Next(15)+1, d.Next(32), 3+d.Next(4)
					t := richTile(g, 1, 0, bits)
					t.x, t.y, t.layer = 5, -3, 2
					var ps []polyDef
					for k := range t.polys {
						if sub&(1<<uint(k)) != 0 {
							ps = append(ps, t.polys[k])
						}
					}
					t.polys = ps
					p := t.params()
					if !tightNvp(p, nvp) {
						e.Skip("polygons need more vertices")
					}
					createAndCheck(e, p)
					// same polygons with the option toggled: same content
					p2 := t.params()
					p2.BuildBvTree = !p2.BuildBvTree
					createAndCheck(e, p2)
				}})
			side := 3
			if thorough {
				side = 4
			}
			out = append(out, hx.Space{Name: "grid", N: hx.Pow(2, side*side) * 4, Bound: fmt.Sprintf("every subset of %dx%d cells with varied heights and areas x tree x detail", side, side),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					opt := d.Next(4)
					g := newGrid(side, side)
					g.noBV, g.noDet = opt&1 != 0, opt&2 != 0
					for k := range g.cells {
						g.cells[k].present = d.Next(2) == 1
						g.cells[k].area = uint8(k * 7 % 64)
						g.cells[k].flags = uint16(k*4097 + 1)
						g.cells[k].y = k * k % 11
					}
					t := g.tile(0, 0)
					if t == nil {
						e.Skip("no polygons")
					}
					createAndCheck(e, t.params())
					if e.WantSample() {
						e.Sample("grid subset %x options %d: tile equals its input", i>>2, opt)
					}
				}})
			words := []uint16{0, 1, 2, 0x7fff, 0x8000, 0x8001, 0x8002, 0x8003, 0x800f, 0xffff}
			out = append(out, hx.Space{Name: "neighbour-words", N: hx.Pow(len(words), 4) * 2, Bound: "every neighbour word on every edge of a quad",
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					g := newGrid(3, 1)
					t := g.tile(0, 0)
					p := t.params()
					pol := 1
					if d.Next(2) == 1 {
						pol = 2
					}
					ext := false
					for j := 0; j < 4; j++ {
						w := words[d.Next(len(words))]
						if w == 0x7fff {
							ext = true
						}
						p.Polys[pol*12+6+j] = w
					}
					if ext {
						// not a polygon of this mesh: only the stored word is checked
						data, err := detour.CreateNavMeshData(p)
						e.Step(1)
						e.Assert(err == nil && len(data) > 0, "create-error", "rejected: %v", err)
						e.State(hx.HB(data))
						e.Trace()
						return
					}
					createAndCheck(e, p)
				}})
			// connection end points on a lattice around the tile
			xs := []float32{-1, 0, 1.5, 3, 4}
			ys := []float32{-5, -.5, 0, .5, 5}
			nl := len(xs) * len(ys) * len(xs)
			out = append(out, hx.Space{Name: "connections", N: int64(nl*nl) * 2, Bound: fmt.Sprintf("start and end points on a %d point lattice on, in and around the tile, with a second fixed connection, with and without detail", nl),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					g := newGrid(1, 1)
					g.S, g.cs = 6, .5
					g.noDet = d.Next(2) == 1
					g.climb = 1
					t := g.tile(0, 0)
					pt := func() [3]float32 {
						return [3]float32{g.orig[0] + xs[d.Next(len(xs))], g.orig[1] + ys[d.Next(len(ys))], g.orig[2] + xs[d.Next(len(xs))]}
					}
					a, b := pt(), pt()
					in := [3]float32{g.orig[0] + 1, g.orig[1], g.orig[2] + 1}
					outp := [3]float32{g.orig[0] - 1, g.orig[1], g.orig[2] + 1}
					t.offs = []offDef{
						{a: outp, b: in, rad: 9, flags: 1, area: 1, id: 1},
						{a: a, b: b, rad: .5, flags: 7, area: 33, bidir: uint8(i & 1), id: 2},
						{a: in, b: outp, rad: .25, flags: 9, area: 63, bidir: uint8(^i & 1), id: 3},
					}
					createAndCheck(e, t.params())
				}})
			// the extreme vertex at every place
			out = append(out, hx.Space{Name: "extremes", N: 6 * 8 * 2 * 2 * 4 * 8, Bound: "a polygon of 3 to 6 vertices and a square one in either order, the vertices starting anywhere, each vertex in turn the highest or lowest, with and without detail and tree, connections starting just within and beyond reach of it",
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					rot, who, up, second, nv, opt := d.Next(6), d.Next(8), d.Next(2) == 1, d.Next(2) == 1, 3+d.Next(4), d.Next(8)
					if rot >= nv || who >= nv+2 {
						return
					}
					ring := [][2]int{{3, 0}, {1, 2}, {0, 5}, {3, 8}, {6, 7}, {7, 3}}[:nv]
					poly := polyDef{area: 3, flags: 1}
					for k := 0; k < nv; k++ {
						v := ring[(k+rot)%nv]
						poly.v = append(poly.v, [3]int{v[0], 20, v[1]})
					}
					other := quad(9, 1, 12, 4, 20, 4, 1)
					y := 8
					if up {
						y = 31
					}
					if who < nv {
						poly.v[who][1] = y
					} else {
						other.v[(who-nv)*2+rot%2][1] = y
					}
					t := &tileDef{w: 13, h: 9, cs: .5, ch: .25, climb: .6, noDetail: opt&1 == 1, noBV: opt&2 == 2, bmin: [3]float32{-3, 1, 2}}
					t.polys = []polyDef{poly, other}
					if second {
						t.polys = []polyDef{other, poly}
					}
					reach := float32(y)*.25 + 1 + .6
					sign := float32(1)
					if !up {
						reach, sign = float32(y)*.25+1-.6, -1
					}
					in, out := [3]float32{-2, reach - sign*.05, 4}, [3]float32{-2, reach + sign*.05, 4}
					far := [3]float32{-20, 3, 3}
					t.offs = []offDef{
						{a: out, b: in, rad: .5, flags: 3, area: 9, id: 4},
						{a: in, b: far, rad: .4, flags: 5, area: 8, id: 3, bidir: 1},
						{a: in, b: out, rad: .3, flags: 7, area: 7, id: 2},
					}
					if opt&4 == 4 {
						t.offs = append(t.offs[1:], t.offs[0])
					}
					createAndCheck(e, t.params())
				}})
			// every field, every bit of its value
			vals := append([]uint32{0, 1<<32 - 1, 0x7fffffff, 0xffff, 0xff}, 0x12345678)
			for b := 0; b < 32; b++ {
				vals = append(vals, 1<<uint(b))
			}
			fields := []func(p *detour.NavMeshCreateParams, v uint32){
				func(p *detour.NavMeshCreateParams, v uint32) { p.UserID = v },
				func(p *detour.NavMeshCreateParams, v uint32) { p.TileX = int32(v) },
				func(p *detour.NavMeshCreateParams, v uint32) { p.TileY = int32(v) },
				func(p *detour.NavMeshCreateParams, v uint32) { p.TileLayer = int32(v) },
				func(p *detour.NavMeshCreateParams, v uint32) { p.OffMeshConUserID[1] = v },
				func(p *detour.NavMeshCreateParams, v uint32) { p.OffMeshConUserID[2] = v },
				func(p *detour.NavMeshCreateParams, v uint32) { p.OffMeshConFlags[1] = uint16(v ^ v>>16) },
				func(p *detour.NavMeshCreateParams, v uint32) { p.OffMeshConAreas[1] = uint8(v^v>>16) & 63 },
				func(p *detour.NavMeshCreateParams, v uint32) { p.PolyFlags[1] = uint16(v ^ v>>16) },
				func(p *detour.NavMeshCreateParams, v uint32) { p.PolyAreas[2] = uint8(v^v>>16) & 63 },
				func(p *detour.NavMeshCreateParams, v uint32) { p.WalkableHeight = float32(v) / 256 },
				func(p *detour.NavMeshCreateParams, v uint32) { p.WalkableRadius = float32(v) / 256 },
				func(p *detour.NavMeshCreateParams, v uint32) { p.OffMeshConRad[1] = 1 + float32(v)/256 },
			}
			out = append(out, hx.Space{Name: "values", N: int64(len(vals) * len(vals) * len(fields)), Bound: "every pair of values, among them every single bit, of every field of a tile and of one of its connections",
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					f, v, v2 := d.Next(len(fields)), vals[d.Next(len(vals))], vals[d.Next(len(vals))]
					g := newGrid(3, 1)
					t := g.tile(0, 0)
					at := func(x float32) [3]float32 { return [3]float32{g.orig[0] + x, g.orig[1], g.orig[2] + .5} }
					for k := 0; k < 3; k++ {
						t.offs = append(t.offs, offDef{a: at(.2 + float32(k)), b: at(1.8 - float32(k)/2), rad: .3, flags: 3, area: 5, id: 7, bidir: uint8(k & 1)})
					}
					p := t.params()
					fields[f](p, v)
					fields[(f+1)%len(fields)](p, v2)
					p.PolyFlags[0], p.PolyAreas[0] = 1, 9
					createAndCheck(e, p)
				}})
			// sizes around the 16 bit limits
			sizes := []int{40, 80, 105, 120, 150, 180}
			if thorough {
				sizes = append(sizes, 200, 220, 250)
			}
			out = append(out, hx.Space{Name: "large", N: int64(len(sizes)) * 3, Batch: 1, Bound: "square tiles of up to 181x181 (thorough: 251x251) vertices, with and without detail vertices",
				Run: func(e *hx.Env, i int64) {
					n := sizes[int(i)%len(sizes)]
					g := newGrid(n, n)
					g.S = 1
					g.maxP = n * n
					g.noDet = i/int64(len(sizes)) == 1
					t := g.tile(0, 0)
					if i/int64(len(sizes)) == 2 {
						for k := range t.polys {
							c := &t.polys[k]
							c.dv = [][3]float32{{float32(c.v[0][0]) + .5, 1, float32(c.v[0][2]) + .5}}
							c.tris = [][3]uint8{{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}
						}
					}
					nav := createAndCheck(e, t.params())
					// and the connections are those of the grid
					base := nav.TileRef(&nav.Tiles[0])
					for _, c := range []int{0, n - 1, n * n / 2, n*n - 1, n*(n-1) - 1} {
						want := map[detour.PolyRef]bool{}
						for _, k := range g.neighbours(c, nil) {
							want[detour.PolyRef(base)|detour.PolyRef(k)] = true
						}
						got := map[detour.PolyRef]bool{}
						for _, r := range linksOf(nav, detour.PolyRef(base)|detour.PolyRef(c)) {
							got[r] = true
						}
						e.Assert(fmt.Sprint(want) == fmt.Sprint(got), "large-links", "cell %d of %dx%d: links %v, want %v", c, n, n, got, want)
						ctr := g.center(c)
						cl := make([]float32, 3)
						over := false
						q := newQuery(nav, 16)
						q.ClosestPointOnPoly(detour.PolyRef(base)|detour.PolyRef(c), ctr, cl, &over)
						e.Assert(over && near3([]float32{cl[0], ctr[1], cl[2]}, ctr, 1e-3), "large-closest", "cell %d of %dx%d: centre %v is not over its polygon (closest %v)", c, n, n, ctr, cl)
					}
				}})
			// vertices over the whole range of their numbers
			out = append(out, hx.Space{Name: "wide", N: 4 * 4 * 4, Bound: "grids whose cells are 1000 to 21844 voxels wide, at heights up to 65535, with and without detail and tree",
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					g := newGrid(3, 3)
					g.S = []int{1000, 10922, 16000, 21844}[d.Next(4)]
					opt, y := d.Next(4), []int{0, 1, 32767, 65535}[d.Next(4)]
					t := g.tile(0, 0)
					for k := range t.polys {
						for j := range t.polys[k].v {
							if v := &t.polys[k].v[j]; (v[0]/g.S+v[2]/g.S)%2 == 1 {
								v[1] = y
							}
						}
					}
					t.noDetail, t.noBV = opt&1 == 1, opt&2 == 2
					createAndCheck(e, t.params())
				}})
			// detail surfaces of every size, with connections, in big tiles
			out = append(out, hx.Space{Name: "dense", N: nDense, Batch: 1, Bound: "up to 1600 polygons whose detail surfaces have 0 to 251 own vertices and 1 to 255 triangles, no two alike, three connections, saved and loaded",
				Run: func(e *hx.Env, i int64) {
					t := denseTile(i)
					p := t.params()
					nav := createAndCheck(e, p)
					var buf bytes.Buffer
					if err := nav.ToWriter(&buf); err != nil {
						e.Failf("save", "ToWriter: %v", err)
					}
					e.Assert(buf.Len() == int(nav.Size()), "save-size", "%d bytes written, Size() is %d", buf.Len(), nav.Size())
					back, err := detour.Decode(bytes.NewReader(buf.Bytes()))
					if err != nil {
						e.Failf("reload", "Decode: %v", err)
					}
					checkTile(e, back.TileAt(p.TileX, p.TileY, p.TileLayer), p)
					e.Step(2)
				}})
			bad := []func(p *detour.NavMeshCreateParams){
				func(p *detour.NavMeshCreateParams) { p.Nvp = 7 },
				func(p *detour.NavMeshCreateParams) { p.Nvp = 100 },
				func(p *detour.NavMeshCreateParams) { p.VertCount = 0xffff },
				func(p *detour.NavMeshCreateParams) { p.VertCount = 1 << 20 },
				func(p *detour.NavMeshCreateParams) { p.VertCount = 0 },
				func(p *detour.NavMeshCreateParams) { p.Verts = nil },
				func(p *detour.NavMeshCreateParams) { p.PolyCount = 0 },
				func(p *detour.NavMeshCreateParams) { p.Polys = nil },
			}
			out = append(out, hx.Space{Name: "invalid", N: 1 << uint(len(bad)), Bound: "every combination of invalid parameters",
				Run: func(e *hx.Env, i int64) {
					p := newGrid(2, 2).tile(0, 0).params()
					for k, f := range bad {
						if i&(1<<uint(k)) != 0 {
							f(p)
						}
					}
					e.Step(1)
					data, err := detour.CreateNavMeshData(p)
					e.State(hx.H("invalid", i, err))
					e.Assert((err != nil) == (i != 0), "invalid", "invalid combination %b: error %v", i, err)
					e.Assert(i == 0 || data == nil, "invalid-data", "data returned with an error")
					e.Trace()
				}})
			// single tile set-up: flags do not matter, foreign data is refused
			out = append(out, hx.Space{Name: "single", N: 64, Bound: "InitForSingleTile with every small flags value",
				Run: func(e *hx.Env, i int64) {
					g := newGrid(3, 2)
					data := g.tile(0, 0).data()
					nav := &detour.NavMesh{}
					e.Step(1)
					st := nav.InitForSingleTile(data, int(i))
					e.Assert(detour.StatusSucceed(st), "single", "InitForSingleTile(flags %d) = %x", i, uint32(st))
					t := nav.TileAt(0, 0, 0)
					e.Assert(t != nil && nav.TileRef(t) != 0 && nav.IsValidPolyRef(detour.PolyRef(nav.TileRef(t))), "single-ref", "flags %d: tile reference %x", i, uint32(nav.TileRef(t)))
					n2 := &detour.NavMesh{}
					st = n2.InitForSingleTile(corrupt(data, int(i%8), 0x40), 0)
					e.Assert(detour.StatusFailed(st), "single-bad", "foreign data accepted: %x", uint32(st))
					e.State(hx.H("single", i))
					e.Trace()
				}})
			return out
		},
	})
}
