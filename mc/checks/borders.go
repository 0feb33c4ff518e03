package checks

import (
	"fmt"
	"math"
	"sort"
	"sync"

	"github.com/arl/go-detour/detour"

	"verif/mc/hx"
)

// ---- C19: connections across tile borders

func init() {
	hx.Register(&hx.Check{
		ID: "C19", Level: "model_checking",
		Rule: "every pair of border edges with end points and heights from a lattice (all slopes), on every pair of sides, in both load orders, with tiles shifted against each other by less and by more than the tolerance; every pair of borders made of up to three stacked or adjacent polygons; every arrangement of layers at one position and of their neighbours in every load order; oracle: float64 overlap of the edges as segments of a common line; compared are the complete link lists of all polygons; non-trivial: at least one pair of facing edges",
		Assumptions: []string{
			"pairs whose overlap or height difference lies within rounding of the limit (overlap 0.02, twice the climb height) are not judged",
			"an edge has at most 4 connections into one tile (of more, any four are accepted) and a polygon has one edge on a border; all tiles have the same climb height",
		},
		Spaces: c19Spaces,
	})
}

const borderS = 4 // tile size in voxels

var sideWord = map[int]uint16{4: 0x8000, 2: 0x8001, 0: 0x8002, 6: 0x8003}

// bEdge is a polygon with one border edge: along the border from a to b, at
// heights ya and yb, lying on the border of the given side (or, with at >= 0,
// on a line inside the tile).
type bEdge struct {
	side, a, b, ya, yb int
	rot                int
	at                 int
	tri                bool
}

// poly is the polygon, and the index of its border edge.
func (d bEdge) poly() (polyDef, int) {
	const depth = 2
	lo, hi := 0, depth
	if d.side == 0 || d.side == 2 {
		lo, hi = borderS-depth, borderS
		if d.at >= 0 {
			lo, hi = d.at-1, d.at
		}
	} else if d.at >= 0 {
		lo, hi = d.at, d.at+1
	}
	mk := func(across, along int) [3]int {
		y := d.ya
		if along == d.b {
			y = d.yb
		}
		if d.side == 0 || d.side == 4 {
			return [3]int{across, y, along}
		}
		return [3]int{along, y, across}
	}
	border, inner := hi, lo
	if d.side == 4 || d.side == 6 {
		border, inner = lo, hi
	}
	// vertex order of quad(): (x0,z0) (x0,z1) (x1,z1) (x1,z0)
	var v [][3]int
	switch d.side {
	case 0:
		v = [][3]int{mk(border, d.b), mk(border, d.a), mk(inner, d.a), mk(inner, d.b)}
	case 4:
		v = [][3]int{mk(border, d.a), mk(border, d.b), mk(inner, d.b), mk(inner, d.a)}
	case 2:
		v = [][3]int{mk(border, d.a), mk(border, d.b), mk(inner, d.b), mk(inner, d.a)}
	case 6:
		v = [][3]int{mk(border, d.b), mk(border, d.a), mk(inner, d.a), mk(inner, d.b)}
	}
	if d.tri {
		v = v[:3]
	}
	n := len(v)
	r := d.rot % n
	out := append(append([][3]int{}, v[r:]...), v[:r]...)
	return polyDef{v: out, flags: 1}, (n - r) % n
}

// bTile is a tile made of border polygons.
type bTile struct {
	x, y, layer int
	shift       [3]float32
	edges       []bEdge
	climb       float32 // 0: 0.6
}

func (b *bTile) def() *tileDef {
	const cs, ch = 0.5, 0.25
	t := &tileDef{x: b.x, y: b.y, layer: b.layer, w: borderS, h: borderS, cs: cs, ch: ch, climb: 0.6}
	if b.climb != 0 {
		t.climb = b.climb
	}
	for i, o := range [3]float32{-3, 1, 2} {
		t.bmin[i] = o + b.shift[i]
	}
	t.bmin[0] += float32(b.x) * borderS * cs
	t.bmin[2] += float32(b.y) * borderS * cs
	for _, e := range b.edges {
		p, _ := e.poly()
		t.polys = append(t.polys, p)
	}
	return t
}

// data makes the tile data; the neighbour words are set from the edges (the
// edges of a polygon that are not its border edge are walls).
func (b *bTile) data() []byte {
	t := b.def()
	p := t.params()
	const nvp = 6
	for i, e := range b.edges {
		pd, k := e.poly()
		for j := range pd.v {
			p.Polys[i*2*nvp+nvp+j] = 0xffff
			if j == k {
				p.Polys[i*2*nvp+nvp+j] = sideWord[e.side]
			}
		}
	}
	d, err := detour.CreateNavMeshData(p)
	if err != nil {
		panic(err)
	}
	return d
}

type bLink struct {
	ref        detour.PolyRef
	edge, side int
	min, max   float64 // fractions along the edge, from its first vertex
}

// segment of an edge in float64: position along the border and height at both
// ends (ordered), position across, and whether it runs backwards.
func (b *bTile) segment(i int) (across float64, lo, hi [2]float64, backwards bool) {
	t := b.def()
	p, k := b.edges[i].poly()
	v := func(j int) (float64, float64, float64) {
		w := p.v[j%len(p.v)]
		x, y, z := float64(t.bmin[0])+float64(w[0])*0.5, float64(t.bmin[1])+float64(w[1])*0.25, float64(t.bmin[2])+float64(w[2])*0.5
		if s := b.edges[i].side; s == 0 || s == 4 {
			return x, z, y
		}
		return z, x, y
	}
	ac, a, ya := v(k)
	_, c, yc := v(k + 1)
	if a < c {
		return ac, [2]float64{a, ya}, [2]float64{c, yc}, false
	}
	return ac, [2]float64{c, yc}, [2]float64{a, ya}, true
}

// borderLink is what the statement says about edge i of b and edge j of o:
// 1 connected, 0 not, -1 not judged.
func borderLink(b *bTile, i int, o *bTile, j int) (int, float64, float64) {
	s := b.edges[i].side
	if (s+4)%8 != o.edges[j].side {
		return 0, 0, 0
	}
	// facing tiles: the same position or the neighbour in that direction
	dx, dy := 0, 0
	switch s {
	case 0:
		dx = 1
	case 4:
		dx = -1
	case 2:
		dy = 1
	case 6:
		dy = -1
	}
	if !(o.x == b.x && o.y == b.y) && !(o.x == b.x+dx && o.y == b.y+dy) {
		return 0, 0, 0
	}
	ac, lo, hi, back := b.segment(i)
	oc, olo, ohi, _ := o.segment(j)
	if d := math.Abs(ac - oc); d > 0.011 {
		return 0, 0, 0
	} else if d > 0.009 {
		return -1, 0, 0
	}
	l, h := math.Max(lo[0], olo[0]), math.Min(hi[0], ohi[0])
	if h-l < 0.019 {
		return 0, 0, 0
	}
	if h-l < 0.021 {
		return -1, 0, 0
	}
	at := func(p, q [2]float64, x float64) float64 {
		return p[1] + (q[1]-p[1])*(x-p[0])/(q[0]-p[0])
	}
	gap := func(x float64) float64 { return at(olo, ohi, x) - at(lo, hi, x) }
	near := func(l, h float64) float64 {
		g0, g1 := gap(l), gap(h)
		if g0*g1 <= 0 {
			return 0
		}
		return math.Min(math.Abs(g0), math.Abs(g1))
	}
	// the ends are drawn in by the tolerance
	full, in := near(l, h), near(l+0.01, h-0.01)
	reach := 2 * float64(b.def().climb)
	res := 0
	if in <= reach {
		res = 1
	}
	if math.Abs(in-reach) < 0.01 || (full <= reach) != (in <= reach) {
		return -1, 0, 0
	}
	f0, f1 := (l-lo[0])/(hi[0]-lo[0]), (h-lo[0])/(hi[0]-lo[0])
	if back {
		f0, f1 = 1-f1, 1-f0
	}
	return res, f0, f1
}

// checkBorders compares all links of a mesh holding the tiles with the oracle.
func checkBorders(e *hx.Env, tiles []*bTile, refs []detour.TileRef, nav *detour.NavMesh, how string) (links int) {
	for ti, b := range tiles {
		for i := range b.edges {
			ref := detour.PolyRef(refs[ti]) | detour.PolyRef(i)
			var t *detour.MeshTile
			var p *detour.Poly
			nav.TileAndPolyByRefUnsafe(ref, &t, &p)
			got := map[detour.PolyRef]detour.Link{}
			n := 0
			for l := p.FirstLink; l != null32; l = t.Links[l].Next {
				if _, dup := got[t.Links[l].Ref]; dup {
					e.Failf("twice", "%s: two connections from %s to %s", how, describeB(b, i), refName(nav, t.Links[l].Ref))
				}
				got[t.Links[l].Ref] = t.Links[l]
				if n++; n > 100 {
					e.Failf("endless", "%s: endless link list", how)
				}
			}
			_, k := b.edges[i].poly()
			for tj, o := range tiles {
				if tj == ti {
					continue
				}
				// beyond four neighbours in one tile, any four of them
				cand, conn, crowded := 0, 0, false
				for j := range o.edges {
					if w, _, _ := borderLink(b, i, o, j); w != 0 {
						cand++
						if w < 0 {
							cand += 100
						}
						if _, have := got[detour.PolyRef(refs[tj])|detour.PolyRef(j)]; have {
							conn++
						}
					}
				}
				if cand > 4 && cand < 100 {
					crowded = true
					if conn != 4 {
						e.Failf("crowded", "%s: %s faces %d polygons of one tile and is connected to %d of them", how, describeB(b, i), cand, conn)
					}
				}
				for j := range o.edges {
					want, f0, f1 := borderLink(b, i, o, j)
					oref := detour.PolyRef(refs[tj]) | detour.PolyRef(j)
					l, have := got[oref]
					delete(got, oref)
					if want < 0 {
						continue
					}
					if crowded && want == 1 && !have {
						continue
					}
					if have != (want == 1) {
						e.Failf("connected", "%s: %s to %s: connected %v, want %v", how, describeB(b, i), describeB(o, j), have, want == 1)
					}
					if !have {
						continue
					}
					links++
					if int(l.Edge) != k || int(l.Side) != b.edges[i].side {
						e.Failf("edge", "%s: connection from %s to %s is on edge %d side %d, want edge %d side %d", how, describeB(b, i), describeB(o, j), l.Edge, l.Side, k, b.edges[i].side)
					}
					g0, g1 := float64(l.BMin)/255, float64(l.BMax)/255
					const tol = 1.0/255 + 1e-4
					if math.Abs(g0-f0) > tol || math.Abs(g1-f1) > tol {
						e.Failf("portal", "%s: connection from %s to %s covers %.4f..%.4f of the edge, want %.4f..%.4f", how, describeB(b, i), describeB(o, j), g0, g1, f0, f1)
					}
				}
			}
			for r := range got {
				e.Failf("extra", "%s: %s is connected to %s", how, describeB(b, i), refName(nav, r))
			}
		}
	}
	return links
}

func describeB(b *bTile, i int) string {
	d := b.edges[i]
	return fmt.Sprintf("tile (%d,%d,%d) shift %v polygon %d (side %d, %d..%d, heights %d..%d, at %d)", b.x, b.y, b.layer, b.shift, i, d.side, d.a, d.b, d.ya, d.yb, d.at)
}

func borderMesh(tiles []*bTile, data [][]byte, order []int) (*detour.NavMesh, []detour.TileRef) {
	nav := &detour.NavMesh{}
	p := &detour.NavMeshParams{Orig: [3]float32{-3, 1, 2}, TileWidth: borderS * 0.5, TileHeight: borderS * 0.5, MaxTiles: uint32(len(tiles)), MaxPolys: 8}
	if st := nav.Init(p); detour.StatusFailed(st) {
		panic("Init")
	}
	refs := make([]detour.TileRef, len(tiles))
	for _, k := range order {
		if len(data[k]) == 0 {
			continue
		}
		st, r := nav.AddTile(data[k], 0)
		if detour.StatusFailed(st) {
			panic(fmt.Sprintf("AddTile %x", uint32(st)))
		}
		refs[k] = r
	}
	return nav, refs
}

// tileCache keeps tile data by description.
var tileCache sync.Map

func (b *bTile) cached() []byte {
	k := fmt.Sprintf("%v", *b)
	if d, ok := tileCache.Load(k); ok {
		return d.([]byte)
	}
	d := b.data()
	tileCache.Store(k, d)
	return d
}

func facing(side int) (dx, dy int) {
	switch side {
	case 0:
		return 1, 0
	case 4:
		return -1, 0
	case 2:
		return 0, 1
	}
	return 0, -1
}

var borderSides = [4]int{0, 2, 4, 6}

func c19Spaces(th bool) []hx.Space {
	var out []hx.Space
	heights := []int{0, 4, 5, 9}
	if th {
		heights = []int{0, 1, 4, 5, 6, 9}
	}
	var segs [][4]int
	for a := 0; a < borderS; a++ {
		for b := a + 1; b <= borderS; b++ {
			for _, y0 := range heights {
				for _, y1 := range heights {
					segs = append(segs, [4]int{a, b, y0, y1})
				}
			}
		}
	}
	// shifts of the second tile, along and across the border
	shifts := [][2]float32{{0, 0}, {0.005, 0}, {-0.25, 0}, {0.04, 0}, {-0.04, 0.005}, {0, 0.02}}
	if th {
		shifts = append(shifts, [2]float32{-0.005, -0.005}, [2]float32{0.015, 0}, [2]float32{0.5, -0.02}, [2]float32{0.73, 0})
	}
	out = append(out, hx.Space{
		Name: "pair of edges", N: hx.Prod(4, 2, len(shifts), len(segs), 2),
		Bound: fmt.Sprintf("%d x %d edges on a lattice of %d points and %d heights, 4 sides, 2 load orders, %d shifts, 2 climb heights", len(segs), len(segs), borderS+1, len(heights), len(shifts)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s, o, sh, sa := borderSides[d.Next(4)], d.Next(2), shifts[d.Next(len(shifts))], d.Next(len(segs))
			dx, dy := facing(s)
			a := &bTile{x: 1, y: 1, edges: []bEdge{{side: s, a: segs[sa][0], b: segs[sa][1], ya: segs[sa][2], yb: segs[sa][3], rot: sa, at: -1, tri: sa%3 == 1}}}
			order := []int{0, 1}
			if o == 1 {
				order = []int{1, 0}
			}
			climb := []float32{0.6, 0.1}[d.Next(2)]
			a.climb = climb
			ad := a.data()
			for k, g := range segs {
				b := &bTile{x: 1 + dx, y: 1 + dy, climb: climb, edges: []bEdge{{side: (s + 4) % 8, a: g[0], b: g[1], ya: g[2], yb: g[3], rot: k, at: -1, tri: k%3 == 2}}}
				if dx != 0 {
					b.shift = [3]float32{sh[1], 0, sh[0]}
				} else {
					b.shift = [3]float32{sh[0], 0, sh[1]}
				}
				bt := []*bTile{a, b}
				nav, refs := borderMesh(bt, [][]byte{ad, b.cached()}, order)
				n := checkBorders(e, bt, refs, nav, "pair")
				e.Eval(1)
				e.Step(2)
				e.State(hx.H(i, k))
				if n > 0 {
					e.Trace()
				}
				e.Outcome("%d connections", n)
				if e.WantSample() {
					e.Sample("%s and %s: %d connections", describeB(a, 0), describeB(b, 0), n)
				}
			}
		},
	})
	// low and high climb heights, up to those of towers
	climbs := []float32{0.01, 0.13, 2, 3.7, 15, 1000}
	out = append(out, hx.Space{
		Name: "climb heights", N: hx.Prod(4, 2, len(climbs), 4, 4, 4, 4),
		Bound: fmt.Sprintf("two edges along the whole border, each end at one of 4 heights around twice the climb height, for climb heights %v, 4 sides, 2 load orders", climbs),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s, order, climb := borderSides[d.Next(4)], []int{0, 1}, climbs[0]
			if d.Next(2) == 1 {
				order = []int{1, 0}
			}
			climb = climbs[d.Next(len(climbs))]
			k := int(2 * climb / 0.25)
			hs := [4]int{0, k, k + 1, 2*k + 3}
			dx, dy := facing(s)
			a := &bTile{x: 1, y: 1, climb: climb, edges: []bEdge{{side: s, a: 0, b: borderS, ya: hs[d.Next(4)], yb: hs[d.Next(4)], at: -1}}}
			b := &bTile{x: 1 + dx, y: 1 + dy, climb: climb, edges: []bEdge{{side: (s + 4) % 8, a: 0, b: borderS, ya: hs[d.Next(4)], yb: hs[d.Next(4)], rot: 1, at: -1}}}
			bt := []*bTile{a, b}
			nav, refs := borderMesh(bt, [][]byte{a.data(), b.data()}, order)
			n := checkBorders(e, bt, refs, nav, fmt.Sprintf("climb height %g", climb))
			e.Eval(1)
			e.Step(2)
			e.State(hx.H("climb", i))
			if n > 0 {
				e.Trace()
			}
			e.Outcome("%d connections", n)
		},
	})
	// edges on sides that do not face each other
	out = append(out, hx.Space{
		Name: "sides", N: hx.Prod(4, 4, 9, 2, 10),
		Bound: "level edges of every extent on every pair of sides of two tiles at every relative position within one, both load orders",
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s, t, pos, o, ex := borderSides[d.Next(4)], borderSides[d.Next(4)], d.Next(9), d.Next(2), d.Next(10)
			var ext [][2]int
			for a := 0; a < borderS; a++ {
				for b := a + 1; b <= borderS; b++ {
					ext = append(ext, [2]int{a, b})
				}
			}
			a := &bTile{x: 1, y: 1, edges: []bEdge{{side: s, a: ext[ex][0], b: ext[ex][1], rot: ex, at: -1}}}
			for k, x := range ext {
				b := &bTile{x: pos % 3, y: pos / 3, edges: []bEdge{{side: t, a: x[0], b: x[1], rot: k, at: -1}}}
				if pos == 4 {
					b.layer = 1
				}
				bt := []*bTile{a, b}
				order := []int{0, 1}
				if o == 1 {
					order = []int{1, 0}
				}
				nav, refs := borderMesh(bt, [][]byte{a.cached(), b.cached()}, order)
				n := checkBorders(e, bt, refs, nav, "sides")
				e.Eval(1)
				e.Step(2)
				e.State(hx.H(i, k))
				e.Outcome("%d connections", n)
			}
		},
	})
	// borders of several polygons
	cols := []int{0, 1, 2, 3, 4} // absent, low, middle, high, low and high
	ys := [][]int{nil, {0}, {4}, {9}, {0, 9}}
	cutsA, cutsB := []int{0, 1, 3, 4}, []int{0, 2, 3, 4}
	nc := 1
	for range cutsA[1:] {
		nc *= len(cols)
	}
	mk := func(side, code int, cuts []int, rev bool) *bTile {
		b := &bTile{x: 1, y: 1}
		for k := 0; k+1 < len(cuts); k++ {
			for _, y := range ys[code%len(cols)] {
				b.edges = append(b.edges, bEdge{side: side, a: cuts[k], b: cuts[k+1], ya: y, yb: y, rot: k, at: -1})
			}
			code /= len(cols)
		}
		if rev {
			sort.SliceStable(b.edges, func(i, j int) bool { return b.edges[i].a > b.edges[j].a })
		}
		return b
	}
	out = append(out, hx.Space{
		Name: "borders of several polygons", N: hx.Prod(4, 2, nc),
		Bound: "three segments a side, each empty, at one of three heights, or two polygons above each other; 4 sides, 2 load orders",
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s, o, ca := borderSides[d.Next(4)], d.Next(2), d.Next(nc)
			dx, dy := facing(s)
			a := mk(s, ca, cutsA, false)
			if len(a.edges) == 0 {
				return
			}
			order := []int{0, 1}
			if o == 1 {
				order = []int{1, 0}
			}
			for cb := 1; cb < nc; cb++ {
				b := mk((s+4)%8, cb, cutsB, cb%2 == 1)
				b.x, b.y = 1+dx, 1+dy
				bt := []*bTile{a, b}
				nav, refs := borderMesh(bt, [][]byte{a.cached(), b.cached()}, order)
				n := checkBorders(e, bt, refs, nav, "several")
				e.Eval(1)
				e.Step(2)
				if n > 1 {
					e.Trace()
				}
				e.State(hx.H(i, cb))
				e.Outcome("%d connections", n)
			}
		},
	})
	// one long edge with up to four neighbours
	lv := []int{-1, 0, 3, 4, 9}
	out = append(out, hx.Space{
		Name: "four neighbours", N: hx.Prod(4, 2, int(hx.Pow(len(lv), borderS)), 2),
		Bound: "one edge along the whole border, level or sloped, facing four unit edges, each absent or at one of 4 heights, in both orders; 4 sides, 2 load orders",
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s, o := borderSides[d.Next(4)], d.Next(2)
			dx, dy := facing(s)
			b := &bTile{x: 1 + dx, y: 1 + dy}
			for k := 0; k < borderS; k++ {
				if y := lv[d.Next(len(lv))]; y >= 0 {
					b.edges = append(b.edges, bEdge{side: (s + 4) % 8, a: k, b: k + 1, ya: y, yb: y, rot: k, at: -1})
				}
			}
			if len(b.edges) == 0 {
				return
			}
			if d.Next(2) == 1 {
				sort.SliceStable(b.edges, func(i, j int) bool { return b.edges[i].a > b.edges[j].a })
			}
			for _, yy := range [][2]int{{0, 0}, {0, 4}, {9, 0}} {
				a := &bTile{x: 1, y: 1, edges: []bEdge{{side: s, a: 0, b: borderS, ya: yy[0], yb: yy[1], rot: yy[1], at: -1}}}
				bt := []*bTile{a, b}
				nav, refs := borderMesh(bt, [][]byte{a.cached(), b.cached()}, [][]int{{0, 1}, {1, 0}}[o])
				n := checkBorders(e, bt, refs, nav, "four")
				e.Eval(1)
				e.Step(2)
				if n > 1 {
					e.Trace()
				}
				e.State(hx.H(i, yy))
				e.Outcome("%d connections", n)
			}
		},
	})
	// more neighbours than an edge can have
	mh := [][]int{nil, {0}, {4}, {0, 4}, {4, 0}}
	out = append(out, hx.Space{
		Name: "many neighbours", N: hx.Prod(4, 2, int(hx.Pow(len(mh), borderS)), 2),
		Bound: "one edge along the whole border facing up to eight polygons (four unit segments, two heights, both orders); 4 sides, 2 load orders, level and sloped",
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s, o := borderSides[d.Next(4)], d.Next(2)
			dx, dy := facing(s)
			b := &bTile{x: 1 + dx, y: 1 + dy}
			for k := 0; k < borderS; k++ {
				for _, y := range mh[d.Next(len(mh))] {
					b.edges = append(b.edges, bEdge{side: (s + 4) % 8, a: k, b: k + 1, ya: y, yb: y, rot: k, at: -1})
				}
			}
			if len(b.edges) == 0 {
				return
			}
			if d.Next(2) == 1 {
				sort.SliceStable(b.edges, func(i, j int) bool { return b.edges[i].a > b.edges[j].a })
			}
			for _, yy := range [][2]int{{0, 0}, {4, 0}, {9, 9}} {
				a := &bTile{x: 1, y: 1, edges: []bEdge{{side: s, a: 0, b: borderS, ya: yy[0], yb: yy[1], rot: yy[1], at: -1}}}
				bt := []*bTile{a, b}
				nav, refs := borderMesh(bt, [][]byte{a.cached(), b.cached()}, [][]int{{0, 1}, {1, 0}}[o])
				n := checkBorders(e, bt, refs, nav, "many")
				e.Eval(1)
				e.Step(2)
				if n > 1 {
					e.Trace()
				}
				e.State(hx.H(i, yy))
				e.Outcome("%d connections", n)
			}
		},
	})
	// layers: two at one position that meet on a line inside, next to two of the
	// neighbouring tile
	lh := []int{-1, 0, 4, 9}
	np := hx.Pow(len(lh), 5)
	orders := permutations(5)
	out = append(out, hx.Space{
		Name: "layers", N: np * 4,
		Bound: "three layers at one position (two meeting on a line inside the tile, two reaching the border) and two at the facing one, each absent or at one of 3 heights, 4 sides, every load order",
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			s := borderSides[d.Next(4)]
			dx, dy := facing(s)
			line := 2
			all := []*bTile{
				{x: 1, y: 1, layer: 0, edges: []bEdge{{side: s, a: 0, b: 4, at: line}}},
				{x: 1, y: 1, layer: 1, edges: []bEdge{{side: (s + 4) % 8, a: 1, b: 3, at: line}}},
				{x: 1, y: 1, layer: 2, edges: []bEdge{{side: s, a: 1, b: 4, at: -1}}},
				{x: 1 + dx, y: 1 + dy, layer: 0, edges: []bEdge{{side: (s + 4) % 8, a: 0, b: 2, at: -1}}},
				{x: 1 + dx, y: 1 + dy, layer: 1, edges: []bEdge{{side: (s + 4) % 8, a: 2, b: 4, at: -1}}},
			}
			var bt []*bTile
			for _, b := range all {
				h := lh[d.Next(len(lh))]
				if h < 0 {
					continue
				}
				b.edges[0].ya, b.edges[0].yb = h, h
				bt = append(bt, b)
			}
			if len(bt) < 2 {
				return
			}
			data := make([][]byte, len(bt))
			for k, b := range bt {
				data[k] = b.cached()
			}
			for _, ord := range orders {
				var o []int
				skip := false
				// permutations that differ only in absent tiles are the same
				last := len(bt)
				for _, k := range ord {
					if k < len(bt) {
						o = append(o, k)
					} else {
						if k != last {
							skip = true
						}
						last++
					}
				}
				for k := len(bt); k < 5; k++ {
					if ord[k] != k {
						skip = true
					}
				}
				if skip {
					continue
				}
				nav, refs := borderMesh(bt, data, o)
				n := checkBorders(e, bt, refs, nav, fmt.Sprintf("layers, order %v", o))
				e.Eval(1)
				e.Step(len(bt))
				if n > 1 {
					e.Trace()
				}
				e.State(hx.H(i, fmt.Sprint(o)))
				e.Outcome("%d connections", n)
			}
		},
	})
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append([]int{}, p[:k]...)
			q = append(q, n-1)
			q = append(q, p[k:]...)
			out = append(out, q)
		}
	}
	return out
}
