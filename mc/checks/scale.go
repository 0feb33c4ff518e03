package checks

// Sizes beyond what the families reach: tables of thousands of tiles, tiles of
// more than a thousand polygons, corridors and rays through thousands.

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// tableSizes are slots, polygon bits, and tiles to load.
var tableSizes = [][3]int{{1 << 11, 4, 1 << 11}, {1 << 12, 512, 3000}, {1 << 14, 2, 1 << 14}}

// tinyTile is the tile at a position of a table, one polygon with connections
// to all sides.
func tinyTile(g *gridWorld, x, z int) []byte {
	t := &tileDef{x: x, y: z, w: 2, h: 2, cs: g.cs, ch: g.ch, climb: g.climb, noDetail: true, userID: uint32(z*1000 + x)}
	t.bmin = [3]float32{g.orig[0] + float32(x)*g.cellSize(), g.orig[1], g.orig[2] + float32(z)*g.cellSize()}
	t.polys = []polyDef{quad(0, 0, 2, 2, 0, 0, 1)}
	return t.data()
}

type bigTable struct {
	g    *gridWorld
	nav  *detour.NavMesh
	side int
	pos  [][2]int // by index
	refs []detour.TileRef
	ever map[detour.TileRef]int
}

// newTable loads n tiles in one of three orders.
func newTable(e *hx.Env, size [3]int, order int) *bigTable {
	n := size[2]
	b := &bigTable{nav: &detour.NavMesh{}, side: int(math.Ceil(math.Sqrt(float64(n)))), refs: make([]detour.TileRef, n), ever: map[detour.TileRef]int{}}
	b.g = newGrid(1, 1)
	b.g.TW, b.g.TH = 1, 1
	p := b.g.navParams(1)
	p.MaxTiles, p.MaxPolys = uint32(size[0]), uint32(size[1])
	if st := b.nav.Init(p); detour.StatusFailed(st) {
		e.Failf("table-init", "Init with %d tiles of %d polygons: %x", size[0], size[1], uint32(st))
	}
	for k := 0; k < n; k++ {
		b.pos = append(b.pos, [2]int{k%b.side - 7, k/b.side - 11})
	}
	for j := 0; j < n; j++ {
		k := j
		switch order {
		case 1:
			k = n - 1 - j
		case 2:
			k = j * 1009 % n
		}
		b.add(e, k)
	}
	return b
}

func (b *bigTable) add(e *hx.Env, k int) {
	st, ref := b.nav.AddTile(tinyTile(b.g, b.pos[k][0], b.pos[k][1]), 0)
	e.Step(1)
	if detour.StatusFailed(st) || ref == 0 {
		e.Failf("table-add", "adding tile %d of %d at %v: status %x", k, len(b.pos), b.pos[k], uint32(st))
	}
	if o, ok := b.ever[ref]; ok {
		e.Failf("table-unique", "tile %d has reference %x, handed out before for tile %d", k, uint32(ref), o)
	}
	b.refs[k], b.ever[ref] = ref, k
}

// check compares every lookup of every tile and reference with the model.
func (b *bigTable) check(e *hx.Env) {
	loaded := 0
	for k, p := range b.pos {
		x, z := int32(p[0]), int32(p[1])
		t := b.nav.TileAt(x, z, 0)
		ref := b.nav.TileRefAt(x, z, 0)
		e.Step(1)
		if ref != b.refs[k] || (t != nil) != (ref != 0) {
			e.Failf("table-at", "at %v: reference %x, expected %x", p, uint32(ref), uint32(b.refs[k]))
		}
		if t == nil {
			continue
		}
		loaded++
		if t.Header.X != x || t.Header.Y != z || t.Header.UserID != uint32((p[1])*1000+p[0]) {
			e.Failf("table-tile", "at %v: the tile of (%d,%d), user id %d", p, t.Header.X, t.Header.Y, t.Header.UserID)
		}
		if b.nav.TileRef(t) != ref {
			e.Failf("table-ref", "tile at %v: TileRef %x, TileRefAt %x", p, uint32(b.nav.TileRef(t)), uint32(ref))
		}
		// links: to the four neighbours that are there
		var got, want []string
		for l := t.Polys[0].FirstLink; l != null32 && len(got) < 10; l = t.Links[l].Next {
			got = append(got, fmt.Sprintf("%x", uint32(t.Links[l].Ref)))
		}
		for _, d := range [4][2]int{{-1, 0}, {1, 0}, {0, -1}, {0, 1}} {
			q := [2]int{p[0] + 7 + d[0], p[1] + 11 + d[1]}
			if q[0] < 0 || q[0] >= b.side || q[1] < 0 || q[1]*b.side+q[0] >= len(b.pos) {
				continue
			}
			if r := b.refs[q[1]*b.side+q[0]]; r != 0 {
				want = append(want, fmt.Sprintf("%x", uint32(r)))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if !eqStrings(got, want) {
			e.Failf("table-links", "tile at %v has links to %v, its neighbours are %v", p, got, want)
		}
	}
	for ref, k := range b.ever {
		live := b.refs[k] == ref
		t := b.nav.TileByRef(ref)
		if (t != nil) != live {
			e.Failf("table-byref", "TileByRef(%x) of tile %d: found %v, loaded under it %v", uint32(ref), k, t != nil, live)
		}
		if t != nil && (int(t.Header.X) != b.pos[k][0] || int(t.Header.Y) != b.pos[k][1]) {
			e.Failf("table-byref", "TileByRef(%x) is the tile at (%d,%d), expected %v", uint32(ref), t.Header.X, t.Header.Y, b.pos[k])
		}
		if v := b.nav.IsValidPolyRef(detour.PolyRef(ref)); v != live {
			e.Failf("table-valid", "IsValidPolyRef(%x) of tile %d: %v, loaded under it %v", uint32(ref), k, v, live)
		}
		var tile *detour.MeshTile
		var poly *detour.Poly
		if st := b.nav.TileAndPolyByRef(detour.PolyRef(ref), &tile, &poly); detour.StatusSucceed(st) != live || live && tile != t {
			e.Failf("table-polyref", "TileAndPolyByRef(%x) of tile %d: status %x, loaded under it %v", uint32(ref), k, uint32(st), live)
		}
	}
	e.Eval(1)
	e.State(hx.H(len(b.pos), loaded, len(b.ever)))
}

func (b *bigTable) remove(e *hx.Env, k int) {
	_, st := b.nav.RemoveTile(b.refs[k])
	e.Step(1)
	if detour.StatusFailed(st) {
		e.Failf("table-remove", "removing tile %d (%x): status %x", k, uint32(b.refs[k]), uint32(st))
	}
	b.refs[k] = 0
}

func (b *bigTable) query(e *hx.Env) {
	q := newQuery(b.nav, 4096)
	for k := 0; k < len(b.pos); k += 211 {
		p := b.pos[k]
		c := d3.NewVec3XYZ(b.g.orig[0]+(float32(p[0])+0.4)*b.g.cellSize(), b.g.orig[1], b.g.orig[2]+(float32(p[1])+0.6)*b.g.cellSize())
		_, ref, _ := q.FindNearestPoly(c, d3.NewVec3XYZ(0.1, 1, 0.1), stdFilter())
		e.Step(1)
		if ref != detour.PolyRef(b.refs[k]) {
			e.Failf("table-nearest", "FindNearestPoly in tile %d gives %x, expected %x", k, uint32(ref), uint32(b.refs[k]))
		}
	}
}

func bigTables() hx.Space {
	return hx.Space{Name: "big tables", N: int64(len(tableSizes) * 3), Batch: 1, Bound: fmt.Sprintf("tables of {slots, polygons, tiles} %v filled in three orders; every third tile removed, all others, all added again; every lookup of every tile and reference after each phase", tableSizes),
		Run: func(e *hx.Env, i int64) {
			b := newTable(e, tableSizes[i%int64(len(tableSizes))], int(i)/len(tableSizes))
			b.check(e)
			b.query(e)
			for r := 0; r < 3; r++ {
				for k := r; k < len(b.pos); k += 3 {
					if k%3 == 0 || r == 2 {
						b.remove(e, k)
					}
				}
				if r != 1 {
					b.check(e)
				}
			}
			b.query(e)
			for k := range b.pos {
				if b.refs[k] == 0 {
					b.add(e, k)
				}
			}
			b.check(e)
			b.query(e)
			e.Trace()
		}}
}

func savedTables() hx.Space {
	return hx.Space{Name: "big tables", N: int64(len(tableSizes)), Batch: 1, Bound: fmt.Sprintf("tables of {slots, polygons, tiles} %v, every fifth tile removed", tableSizes),
		Run: func(e *hx.Env, i int64) {
			b := newTable(e, tableSizes[i], 2)
			for k := 0; k < len(b.pos); k += 5 {
				b.remove(e, k)
			}
			raw := writeMesh(e, b.nav)
			e.Assert(int(b.nav.Size()) == len(raw), "size", "Size()=%d, %d bytes written", b.nav.Size(), len(raw))
			nav, err := detour.Decode(bytes.NewReader(raw))
			if err != nil {
				e.Failf("decode", "saved mesh of %d tiles does not load: %v", len(b.pos), err)
			}
			compareMeshes(e, b.nav, nav)
			e.Assert(len(raw) == len(writeMesh(e, nav)), "size2", "saving the loaded mesh gives another number of bytes")
			c := *b
			c.nav = nav
			// generations of empty slots are not saved
			c.ever = map[detour.TileRef]int{}
			for k, r := range c.refs {
				if r != 0 {
					c.ever[r] = k
				}
			}
			c.check(e)
			c.query(e)
			e.Trace()
		}}
}

// bigTiles are fields of tiles of more than a thousand polygons with borders
// of hundreds of edges.
func bigTiles() hx.Space {
	sizes := [][4]int{{300, 8, 300, 4}, {8, 300, 4, 300}, {120, 60, 60, 60}, {100, 100, 50, 50}, {64, 64, 32, 64}}
	return hx.Space{Name: "big tiles", N: int64(len(sizes) * 3), Batch: 1, Bound: fmt.Sprintf("fields of {cells, tile cells} %v, open, with pillars, with corridors; all tiles loaded, each removed and added again; links against the geometry", sizes),
		Run: func(e *hx.Env, i int64) {
			s := sizes[i%int64(len(sizes))]
			g := newGrid(s[0], s[1])
			g.TW, g.TH, g.maxP, g.noDet = s[2], s[3], 4096, true
			for z := 0; z < g.H; z++ {
				for x := 0; x < g.W; x++ {
					switch int(i) / len(sizes) {
					case 1:
						g.at(x, z).present = x%2 == 0 || z%2 == 0
					case 2:
						g.at(x, z).present = z%2 == 0 || x%16 == 3
					}
				}
			}
			m := g.build()
			judge := func(gone int) {
				for c, ref := range m.ref {
					if ref == 0 {
						continue
					}
					at := (c/g.W)/g.TH*1000 + c%g.W/g.TW
					if at == gone {
						continue
					}
					var tile *detour.MeshTile
					var poly *detour.Poly
					if st := m.nav.TileAndPolyByRef(ref, &tile, &poly); detour.StatusFailed(st) {
						e.Failf("big-ref", "field %v, cell %d: reference %x, status %x", s, c, uint32(ref), uint32(st))
					}
					var got, want []int
					for l := poly.FirstLink; l != null32 && len(got) < 20; l = tile.Links[l].Next {
						o, ok := m.cell[tile.Links[l].Ref]
						if !ok {
							e.Failf("big-links", "field %v, cell %d has a link to %x, which is no polygon", s, c, uint32(tile.Links[l].Ref))
						}
						got = append(got, o)
					}
					for _, o := range g.neighbours(c, nil) {
						if (o/g.W)/g.TH*1000+o%g.W/g.TW != gone {
							want = append(want, o)
						}
					}
					sort.Ints(got)
					sort.Ints(want)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						e.Failf("big-links", "field %v (tile %d gone), cell %d has links to cells %v, its neighbours are %v", s, gone, c, got, want)
					}
				}
				e.Eval(1)
			}
			judge(-1)
			if w := mutualLinks(m.nav); w != "" {
				e.Failf("big-mutual", "field %v: %s", s, w)
			}
			for ty := 0; ty*g.TH < g.H; ty++ {
				for tx := 0; tx*g.TW < g.W; tx++ {
					ref := m.nav.TileRefAt(int32(tx), int32(ty), 0)
					data, st := m.nav.RemoveTile(ref)
					e.Step(2)
					if detour.StatusFailed(st) {
						e.Failf("big-remove", "field %v: removing tile (%d,%d): %x", s, tx, ty, uint32(st))
					}
					judge(ty*1000 + tx)
					st, ref = m.nav.AddTile(data, 0)
					if detour.StatusFailed(st) {
						e.Failf("big-add", "field %v: adding tile (%d,%d) again: %x", s, tx, ty, uint32(st))
					}
					m.mapTile(tx, ty, ref)
					judge(-1)
				}
			}
			for k := range m.nav.Tiles {
				t := &m.nav.Tiles[k]
				if t.Header == nil {
					continue
				}
				used, free := 0, 0
				for p := range t.Polys {
					for l := t.Polys[p].FirstLink; l != null32; l = t.Links[l].Next {
						used++
					}
				}
				for l := t.LinksFreeList; l != null32 && free <= len(t.Links); l = t.Links[l].Next {
					free++
				}
				if used+free != len(t.Links) {
					e.Failf("big-pool", "field %v: %d links used and %d free of %d", s, used, free, len(t.Links))
				}
			}
			e.Trace()
			e.State(hx.H(i, "big tiles"))
		}}
}

// longRays cross up to thousands of polygons.
func longRays() hx.Space {
	sizes := [][2]int{{1500, 2}, {2, 1500}, {500, 6}, {60, 60}}
	return hx.Space{Name: "long rays", N: int64(len(sizes) * 2), Batch: 1, Bound: fmt.Sprintf("open fields of %v cells and with pillars at the far end: rays between positions at all ends and around", sizes),
		Run: func(e *hx.Env, i int64) {
			s := sizes[i%int64(len(sizes))]
			g := newGrid(s[0], s[1])
			g.TW, g.TH, g.maxP, g.noDet = min(s[0], 64), min(s[1], 64), 4096, true
			if i >= int64(len(sizes)) {
				g.at(g.W-2, g.H-2).present = false
				g.at(g.W*3/4, 0).present = false
				g.at(0, g.H*3/4).present = false
			}
			m := buildQ(g, g.tiles(), nil)
			for k := range m.polys {
				m.polys[k].area = uint8(1 + k%3)
				var tile *detour.MeshTile
				var poly *detour.Poly
				m.nav.TileAndPolyByRefUnsafe(m.polys[k].ref, &tile, &poly)
				poly.SetArea(m.polys[k].area)
			}
			q := newQuery(m.nav, 16)
			at := map[[2]int]int{}
			for k := range m.polys {
				c := m.center(k)
				at[[2]int{int((c[0] - g.orig[0]) / g.cellSize()), int((c[2] - g.orig[2]) / g.cellSize())}] = k
			}
			var starts [][2]int
			for _, p := range [][2]int{{1, 1}, {g.W - 1, g.H - 1}, {g.W - 1, 0}, {0, g.H - 1}, {g.W / 2, g.H / 2}} {
				if _, ok := at[p]; ok {
					starts = append(starts, p)
				}
			}
			for v, sc := range starts {
				k := at[sc]
				sp := g.pos(sc[0], sc[1], 0.37, 0.43)
				for t, ec := range append([][2]int{{-3, 0}, {g.W + 2, g.H / 2}, {g.W / 3, g.H + 1}, {g.W, -2}}, starts...) {
					ep := g.pos(ec[0], ec[1], 0.61, 0.58)
					checkRay(e, m, q, k, sp, ep, (v+t)%7)
				}
			}
			e.Trace()
			e.State(hx.H(i, "long rays"))
		}}
}

// longCorridors are serpentines: the straight path has two corners at every turn.
func longCorridors() hx.Space {
	sizes := []int{40, 70, 100}
	return hx.Space{Name: "long corridors", N: int64(len(sizes) * 2), Batch: 1, Bound: fmt.Sprintf("corridors winding through fields of %v^2 cells, forwards and backwards, 3 options", sizes),
		Run: func(e *hx.Env, i int64) {
			n := sizes[i%int64(len(sizes))]
			g := largeGrid(n, 1)
			g.at(n-1, n-1).present = (n-1)%2 == 0
			m := g.build()
			var cells []int
			var want []d3.Vec3 // corners
			rows := (n + 1) / 2
			for r := 0; r < rows; r++ {
				z := 2 * r
				for k := 0; k < n; k++ {
					x := k
					if r%2 == 1 {
						x = n - 1 - k
					}
					cells = append(cells, z*n+x)
				}
				if r+1 < rows {
					x := (n - 1) * ((r + 1) % 2)
					cells = append(cells, (z+1)*n+x)
					fx := float32(0)
					if x == 0 {
						fx = 1
					}
					want = append(want, g.pos(x, z+1, fx, 0), g.pos(x, z+1, fx, 1))
				}
			}
			if i >= int64(len(sizes)) {
				for a, b := 0, len(cells)-1; a < b; a, b = a+1, b-1 {
					cells[a], cells[b] = cells[b], cells[a]
				}
				for a, b := 0, len(want)-1; a < b; a, b = a+1, b-1 {
					want[a], want[b] = want[b], want[a]
				}
			}
			var path []detour.PolyRef
			for k, c := range cells {
				if m.ref[c] == 0 || k > 0 && !g.adjacent(cells[k-1], c) {
					e.Failf("long-harness", "the corridor is broken at %d", k)
				}
				path = append(path, m.ref[c])
				var tile *detour.MeshTile
				var poly *detour.Poly
				m.nav.TileAndPolyByRefUnsafe(m.ref[c], &tile, &poly)
				poly.SetArea(uint8(k / 7 % 5))
			}
			sp, ep := g.center(cells[0]), g.center(cells[len(cells)-1])
			want = append(append([]d3.Vec3{sp}, want...), ep)
			q := newQuery(m.nav, 16)
			for opt := int32(0); opt < 3; opt++ {
				size := 2*len(path) + 50
				pts := make([]d3.Vec3, size)
				for k := range pts {
					pts[k] = d3.NewVec3()
				}
				fl, refs := make([]uint8, size), make([]detour.PolyRef, size)
				cnt, st := q.FindStraightPath(sp, ep, path, pts, fl, refs, opt)
				e.Step(1)
				e.Eval(1)
				name := fmt.Sprintf("corridor of %d polygons in %d^2 cells, options %d", len(path), n, opt)
				if st != detour.Success || cnt < 2 || cnt > size {
					e.Failf("long-status", "%s: %d points, status %x", name, cnt, uint32(st))
				}
				total, short := 0.0, 0.0
				for k := 1; k < cnt; k++ {
					total += dist3(pts[k-1], pts[k])
				}
				for k := 1; k < len(want); k++ {
					short += dist3(want[k-1], want[k])
				}
				if math.Abs(total-short) > 1e-3*float64(len(want))+0.01 {
					e.Failf("long-length", "%s: length %g, the shortest is %g", name, total, short)
				}
				// the corners come in order, and nothing else without options
				j := 0
				for k := 0; k < cnt && j < len(want); k++ {
					if dist3(pts[k], want[j]) < 0.01 {
						j++
					}
				}
				if j < len(want) {
					e.Failf("long-corner", "%s: corner %d (%v) is missing", name, j, want[j])
				}
				if opt == 0 && cnt != len(want) {
					e.Failf("long-count", "%s: %d points, there are %d corners", name, cnt, len(want))
				}
				// a point on every portal asked for, polygons in corridor order
				k := 0
				for c := 0; c+1 < len(cells) && opt > 0; c++ {
					if opt == 1 && c/7%5 == (c+1)/7%5 {
						continue
					}
					a, b := cells[c], cells[c+1]
					ca, cb := g.center(a), g.center(b)
					mid := p2{float64(ca[0]+cb[0]) / 2, float64(ca[2]+cb[2]) / 2}
					h := float64(g.cellSize()) / 2
					l, r := p2{mid.x - h, mid.z}, p2{mid.x + h, mid.z}
					if a/n == b/n {
						l, r = p2{mid.x, mid.z - h}, p2{mid.x, mid.z + h}
					}
					for k < cnt && distSeg(toP2(pts[k]), l, r) > 0.01 {
						k++
					}
					if k == cnt {
						e.Failf("long-crossing", "%s: no point on the portal between elements %d and %d", name, c, c+1)
					}
				}
				on := 0
				for k := 0; k < cnt-1; k++ {
					for on < len(path) && path[on] != refs[k] {
						on++
					}
					if on == len(path) {
						e.Failf("long-refs", "%s: point %d has polygon %x, which is not in the rest of the corridor", name, k, uint32(refs[k]))
					}
				}
				if fl[0] != 1 || fl[cnt-1] != 2 || refs[0] != path[0] || refs[cnt-1] != 0 {
					e.Failf("long-ends", "%s: flags %d..%d, polygons %x..%x", name, fl[0], fl[cnt-1], uint32(refs[0]), uint32(refs[cnt-1]))
				}
			}
			// broken far behind: as far as it is whole
			for _, at := range []int{len(path) / 2, len(path) - 2} {
				broken := append([]detour.PolyRef{}, path...)
				broken[at] ^= 1 << 31
				if m.nav.IsValidPolyRef(broken[at]) {
					continue
				}
				pts := make([]d3.Vec3, len(path)+50)
				for k := range pts {
					pts[k] = d3.NewVec3()
				}
				cnt, st := q.FindStraightPath(sp, ep, broken, pts, make([]uint8, len(pts)), make([]detour.PolyRef, len(pts)), 0)
				e.Step(1)
				if st != detour.Success|detour.PartialResult || cnt < 2 {
					e.Failf("long-broken", "corridor of %d polygons, element %d invalid: %d points, status %x", len(path), at, cnt, uint32(st))
				}
				c, h := g.center(cells[at-1]), float64(g.cellSize())/2
				x := math.Max(-h, math.Min(h, float64(ep[0]-c[0]))) + float64(c[0])
				z := math.Max(-h, math.Min(h, float64(ep[2]-c[2]))) + float64(c[2])
				if toP2(pts[cnt-1]).dist(p2{x, z}) > 0.02 {
					e.Failf("long-broken", "corridor of %d polygons, element %d invalid: ends at %v, the nearest point of the last valid polygon is %v", len(path), at, pts[cnt-1], p2{x, z})
				}
			}
			e.Trace()
			e.State(hx.H(i, "long corridors"))
		}}
}

// bigOffMesh are connections between tiles of well over a thousand polygons.
func bigOffMesh() hx.Space {
	const n, cons = 40, 90
	return hx.Space{Name: "big tiles", N: 12, Batch: 1, Bound: fmt.Sprintf("three tiles of %d polygons, %d connections from the middle one into each of them, with and without tree, both directions or one, in three load orders", n*n, cons),
		Run: func(e *hx.Env, i int64) {
			g := newGrid(3*n, n)
			g.TW, g.TH, g.maxP, g.noDet, g.noBV = n, n, 2048, true, i%2 == 1
			bidir := uint8(i / 2 % 2)
			ts := g.tiles()
			from, to := make([]int, cons), make([]int, cons)
			for k := 0; k < cons; k++ {
				a := k*17 + 5
				b := n*n - 1 - k*13
				from[k], to[k] = (a/n)*g.W+n+a%n, (b/n)*g.W+k%3*n+b%n
				p, q := g.center(from[k]), g.center(to[k])
				ts[1].offs = append(ts[1].offs, offDef{a: [3]float32{p[0], p[1], p[2]}, b: [3]float32{q[0], q[1], q[2]}, rad: 0.3, flags: 1, bidir: bidir, id: uint32(9000 + k)})
			}
			m := &gridMesh{g: g, nav: &detour.NavMesh{}, ref: make([]detour.PolyRef, g.W*g.H), cell: map[detour.PolyRef]int{}}
			if st := m.nav.Init(g.navParams(len(ts))); detour.StatusFailed(st) {
				e.Failf("harness", "Init: %x", uint32(st))
			}
			var refs [3]detour.TileRef
			for _, k := range [][]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}}[i/4] {
				st, ref := m.nav.AddTile(ts[k].data(), 0)
				e.Step(1)
				if detour.StatusFailed(st) {
					e.Failf("big-add", "AddTile: %x", uint32(st))
				}
				m.mapTile(ts[k].x, ts[k].y, ref)
				refs[k] = ref
			}
			links := func(ref detour.PolyRef) map[detour.PolyRef]int {
				var tile *detour.MeshTile
				var poly *detour.Poly
				if st := m.nav.TileAndPolyByRef(ref, &tile, &poly); detour.StatusFailed(st) {
					e.Failf("big-ref", "polygon %x: status %x", uint32(ref), uint32(st))
				}
				out := map[detour.PolyRef]int{}
				for l, c := poly.FirstLink, 0; l != null32 && c < 50; l, c = tile.Links[l].Next, c+1 {
					out[tile.Links[l].Ref]++
				}
				return out
			}
			q := newQuery(m.nav, 8192)
			judge := func(gone int) {
				for k := 0; k < cons; k++ {
					con := detour.PolyRef(refs[1]) | detour.PolyRef(n*n+k)
					s, t := m.ref[from[k]], m.ref[to[k]]
					l := links(con)
					there := k%3 != gone
					if l[s] != 1 || there && l[t] != 1 || len(l) != 1+b2i(there) {
						e.Failf("big-links", "connection %d from cell %d to %d (tile %d gone: %v) has links %v, expected %x and %x", k, from[k], to[k], gone, !there, l, uint32(s), uint32(t))
					}
					if links(s)[con] != 1 {
						e.Failf("big-start", "the start polygon of connection %d has no link to it", k)
					}
					if there && links(t)[con] != int(bidir) {
						e.Failf("big-end", "the landing polygon of connection %d (both ways: %v) has %d links to it", k, bidir, links(t)[con])
					}
					var tile *detour.MeshTile
					var poly *detour.Poly
					m.nav.TileAndPolyByRefUnsafe(con, &tile, &poly)
					if oc := tile.OffMeshCons[k]; oc.UserID != uint32(9000+k) || int(oc.Poly) != n*n+k {
						e.Failf("big-con", "connection %d: %+v", k, oc)
					}
					e.Eval(1)
				}
			}
			judge(-1)
			for _, k := range []int{0, 2} {
				data, st := m.nav.RemoveTile(refs[k])
				if detour.StatusFailed(st) {
					e.Failf("big-remove", "RemoveTile: %x", uint32(st))
				}
				judge(k)
				st, ref := m.nav.AddTile(data, 0)
				if detour.StatusFailed(st) {
					e.Failf("big-add", "AddTile: %x", uint32(st))
				}
				m.mapTile(ts[k].x, ts[k].y, ref)
				refs[k] = ref
				judge(-1)
				e.Step(2)
			}
			for k := 0; k < cons; k += 11 {
				p := make([]detour.PolyRef, 300)
				cnt, st := q.FindPath(m.ref[from[k]], m.ref[to[k]], g.center(from[k]), g.center(to[k]), stdFilter(), p)
				e.Step(1)
				if st != detour.Success || cnt < 2 || p[0] != m.ref[from[k]] || p[cnt-1] != m.ref[to[k]] {
					e.Failf("big-path", "path along connection %d: %d polygons, status %x", k, cnt, uint32(st))
				}
			}
			e.Trace()
			e.State(hx.H(i, "big off-mesh"))
		}}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// savedConnections are tiles of hundreds of connections.
func savedConnections() hx.Space {
	counts := []int{1, 63, 128, 255, 256, 257, 300, 700}
	return hx.Space{Name: "connections", N: int64(len(counts)), Batch: 1, Bound: fmt.Sprintf("a tile with %v connections", counts),
		Run: func(e *hx.Env, i int64) {
			g := newGrid(32, 32)
			g.maxP, g.noDet = 4096, true
			t := g.tile(0, 0)
			for k := 0; k < counts[i]; k++ {
				p, q := g.center(k), g.center(1023-k)
				t.offs = append(t.offs, offDef{a: [3]float32{p[0], p[1], p[2]}, b: [3]float32{q[0], q[1], q[2]}, rad: 0.1 + float32(k)/1000, flags: uint16(k*41 + 1), area: uint8(k % 64), bidir: uint8(k % 2), id: uint32(k) * 0x01234567})
			}
			nav, st := loadSingle(t.data())
			e.Assert(detour.StatusSucceed(st), "connections", "InitForSingleTile: %x", uint32(st))
			raw := writeMesh(e, nav)
			e.Assert(int(nav.Size()) == len(raw), "size", "Size()=%d, %d bytes written", nav.Size(), len(raw))
			nav2, err := detour.Decode(bytes.NewReader(raw))
			e.Step(1)
			if err != nil {
				e.Failf("decode", "saved mesh does not load: %v", err)
			}
			compareMeshes(e, nav, nav2)
			for k, c := range nav2.Tiles[0].OffMeshCons {
				if c.UserID != uint32(k)*0x01234567 || int(c.Poly) != 1024+k {
					e.Failf("connection", "connection %d after loading: %+v", k, c)
				}
			}
			e.State(hx.HB(raw))
			e.Trace()
		}}
}

// bigPool fills node pools of thousands of nodes.
func bigPool() hx.Space {
	sizes := []int32{1500, 4096, 20000, 65535}
	strides := []uint32{1, 0x101, 0x10000, 0x9e3779b1}
	return hx.Space{Name: "big pools", N: int64(len(sizes) * len(strides)), Batch: 1, Bound: fmt.Sprintf("pools of %v nodes filled twice with references at distances of %x, two states each; every lookup, every chain", sizes, strides),
		Run: func(e *hx.Env, i int64) {
			c, stride := sizes[i%int64(len(sizes))], strides[int(i)/len(sizes)]
			np := newQuery(poolNav, c).NodePool()
			for round := uint32(0); round < 2; round++ {
				nodes := make([]*detour.Node, c)
				ref := func(k int32) (detour.PolyRef, uint8) {
					return detour.PolyRef(1 + round*77 + uint32(k/2)*stride), uint8(k % 2)
				}
				for k := range nodes {
					r, s := ref(int32(k))
					nodes[k] = np.Node(r, s)
					if nodes[k] == nil || nodes[k].ID != r || nodes[k].State != s {
						e.Failf("big-pool-node", "pool of %d, node %d: %+v", c, k, nodes[k])
					}
					nodes[k].Total = float32(k)
					e.Step(1)
				}
				if np.Node(0xfffffff0, 3) != nil {
					e.Failf("big-pool-over", "a full pool of %d hands out a node", c)
				}
				if np.NodeCount() != c {
					e.Failf("big-pool-count", "NodeCount %d of %d", np.NodeCount(), c)
				}
				for k, n := range nodes {
					r, s := ref(int32(k))
					out := make([]*detour.Node, 4)
					if n.Total != float32(k) || np.FindNode(r, s) != n || np.Node(r, s) != n || np.NodeAtIdx(int32(np.NodeIdx(n))) != n {
						e.Failf("big-pool-find", "pool of %d: node %d (%x,%d) is not found as it was", c, k, uint32(r), s)
					}
					want := 2
					if k|1 == int(c) {
						want = 1
					}
					if g := np.FindNodes(r, out, 4); int(g) != want {
						e.Failf("big-pool-findnodes", "pool of %d: %d nodes of %x", c, g, uint32(r))
					}
				}
				seen := 0
				for b := int32(0); b < np.HashSize(); b++ {
					for k := np.First(b); k != 0xffff && seen <= int(c); k = np.Next(int32(k)) {
						seen++
					}
				}
				if seen != int(c) {
					e.Failf("big-pool-chains", "the chains of a pool of %d hold %d nodes", c, seen)
				}
				np.Clear()
				r, s := ref(c / 2)
				if np.NodeCount() != 0 || np.FindNode(r, s) != nil {
					e.Failf("big-pool-clear", "a cleared pool of %d still has nodes", c)
				}
				e.Eval(1)
			}
			e.Trace()
			e.State(hx.H(i, "big pool"))
		}}
}

// savedReferences are tiles of every kind of generation.
func savedReferences() hx.Space {
	const maxA, maxB = 4, 18
	return hx.Space{Name: "references", N: (maxA - 1) * maxB, Batch: 1, Bound: fmt.Sprintf("meshes of 2^a slots of 2^b polygons, a in 2..%d, b in 1..%d, four tiles: every single bit of the generation, every other bit, all bits", maxA, maxB),
		Run: func(e *hx.Env, i int64) {
			a, b := 2+int(i)%(maxA-1), 1+int(i)/(maxA-1)
			bits := 32 - a - b
			all := uint32(1)<<bits - 1
			salts := []uint32{all, all - 1}
			for k := 0; k < bits; k++ {
				salts = append(salts, 1<<k, all^1<<k)
			}
			g := newGrid(1, 1)
			g.TW, g.TH = 1, 1
			for j := range salts {
				nav := &detour.NavMesh{}
				p := g.navParams(1)
				p.MaxTiles, p.MaxPolys = 1<<a, 1<<b
				e.Assert(detour.StatusSucceed(nav.Init(p)), "references-init", "Init with 2^%d tiles of 2^%d polygons", a, b)
				var refs []detour.TileRef
				for k := 0; k < 4; k++ {
					ref := detour.TileRef(salts[(j+k*7)%len(salts)]<<(a+b) | uint32(k)<<b)
					st, got := nav.AddTile(tinyTile(g, k%2, k/2), ref)
					e.Step(1)
					if detour.StatusFailed(st) || got != ref {
						e.Failf("references-add", "AddTile under %x: status %x, reference %x", uint32(ref), uint32(st), uint32(got))
					}
					refs = append(refs, ref)
				}
				raw := writeMesh(e, nav)
				nav2, err := detour.Decode(bytes.NewReader(raw))
				e.Step(1)
				if err != nil {
					e.Failf("decode", "saved mesh with references %x does not load: %v", refs, err)
				}
				compareMeshes(e, nav, nav2)
				for k, ref := range refs {
					if t := nav2.TileByRef(ref); t == nil || t.Header.UserID != uint32(k/2*1000+k%2) {
						e.Failf("reference", "tile %x is not found in the loaded mesh", uint32(ref))
					}
				}
				e.Assert(bytes.Equal(raw, writeMesh(e, nav2)), "references-again", "saving the loaded mesh gives other bytes")
				e.Eval(1)
				e.State(hx.HB(raw))
			}
			e.Trace()
		}}
}

// denseGeometry builds tiles of floors made of up to hundreds of thousands of
// triangles, which must not differ from those of the same floor made of two.
func denseGeometry() hx.Space {
	sides := []int{1, 8, 60, 200, 256, 270, 330}
	sizes := []float32{16, 40, 64}
	return hx.Space{Name: "dense geometry", N: int64(len(sides) * len(sizes)), Batch: 1, Bound: fmt.Sprintf("a floor of 40x40 cells made of n x n squares of two triangles, n in %v, tile sizes %v", sides, sizes),
		Run: func(e *hx.Env, i int64) {
			n, ts := sides[int(i)%len(sides)], sizes[int(i)/len(sides)]
			doc := func(n int) string {
				var sb strings.Builder
				for z := 0; z <= n; z++ {
					for x := 0; x <= n; x++ {
						fmt.Fprintf(&sb, "v %g 0.1 %g\n", float32(x)*12/float32(n), float32(z)*12/float32(n))
					}
				}
				for z := 0; z < n; z++ {
					for x := 0; x < n; x++ {
						a := z*(n+1) + x + 1
						fmt.Fprintf(&sb, "f %d %d %d\nf %d %d %d\n", a, a+n+1, a+1, a+1, a+n+1, a+n+2)
					}
				}
				return sb.String()
			}
			build := func(n int) *detour.NavMesh {
				b := tilemesh.New(recast.NewBuildContext(false))
				set := baseSettings(0.3, 0.2)
				set.TileSize = ts
				b.SetSettings(set)
				var nav *detour.NavMesh
				quiet(func() {
					if err := b.LoadGeometry(strings.NewReader(doc(n))); err != nil {
						e.Failf("dense-load", "a floor of %d triangles: %v", 2*n*n, err)
					}
					ok := false
					if nav, ok = b.Build(); !ok || nav == nil {
						e.Failf("dense-build", "a floor of %d triangles, tiles of %v cells: the build fails", 2*n*n, ts)
					}
				})
				e.Step(1)
				return nav
			}
			one := build(1)
			want := tileSet(one)
			got := tileSet(build(n))
			e.Eval(len(want))
			if len(want) == 0 {
				e.Failf("dense-empty", "a floor gives no tile")
			}
			if !slices.Equal(got, want) {
				e.Failf("dense", "a floor of %d triangles gives tiles %v of %v cells, of two triangles %v", 2*n*n, got, ts, want)
			}
			e.State(hx.H(got))
			e.Trace()
		}}
}
