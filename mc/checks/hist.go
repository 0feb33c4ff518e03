package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- tile worlds for the history checks (C01, C02, C03)

// tileWorld is a set of tiles that can be added to and removed from a mesh.
type tileWorld struct {
	name     string
	defs     []*tileDef
	maxTiles int
	maxPolys int
	grid     *gridWorld // for the parameters

	once   sync.Once
	data   [][]byte
	conn   map[int][]string
	judged map[int]bool
	mu     sync.Mutex
}

func (w *tileWorld) init() {
	w.once.Do(func() {
		for _, d := range w.defs {
			w.data = append(w.data, d.data())
		}
		w.conn = map[int][]string{}
	})
}

func (w *tileWorld) params() *detour.NavMeshParams {
	p := &detour.NavMeshParams{Orig: w.grid.orig, TileWidth: float32(w.grid.TW) * w.grid.cellSize(), TileHeight: float32(w.grid.TH) * w.grid.cellSize()}
	p.MaxTiles, p.MaxPolys = uint32(w.maxTiles), uint32(w.maxPolys)
	return p
}

func (w *tileWorld) newMesh() *detour.NavMesh {
	w.init()
	m := &detour.NavMesh{}
	if st := m.Init(w.params()); detour.StatusFailed(st) {
		panic(fmt.Sprintf("Init: %x", uint32(st)))
	}
	return m
}

// fresh is the connectivity of a mesh freshly built from the tiles in set.
func (w *tileWorld) fresh(set int) []string {
	if c, ok := w.conn[set]; ok {
		return c
	}
	m := w.newMesh()
	for k := range w.defs {
		if set&(1<<uint(k)) != 0 {
			if st, _ := m.AddTile(w.data[k], 0); detour.StatusFailed(st) {
				panic(fmt.Sprintf("AddTile: %x", uint32(st)))
			}
		}
	}
	c := connectivity(m)
	w.conn[set] = c
	return c
}

// splitGrid makes tiles of different inner subdivisions, so that border edges
// of neighbours overlap partially, 1:2, 2:1, 1:1 and with gaps.
func splitGrid(nx, nz int) (*gridWorld, []*tileDef) {
	g := newGrid(nx, nz)
	g.TW, g.TH, g.S = 1, 1, 6
	var defs []*tileDef
	k := 0
	for z := 0; z < nz; z++ {
		for x := 0; x < nx; x++ {
			t := g.tile(x, z)
			t.polys = nil
			S := g.S
			switch k % 4 {
			case 0: // four quads
				t.polys = append(t.polys, quad(0, 0, 3, 3, 0, 0, 1), quad(3, 0, S, 3, 0, 0, 1), quad(0, 3, 3, S, 0, 0, 1), quad(3, 3, S, S, 1, 0, 1))
			case 1: // one quad
				t.polys = append(t.polys, quad(0, 0, S, S, 0, 1, 1))
			case 2: // three strips, the middle one higher
				t.polys = append(t.polys, quad(0, 0, 2, S, 0, 0, 1), quad(2, 0, 4, S, 1, 2, 1), quad(4, 0, S, S, 0, 0, 1))
			case 3: // partial coverage: triangle and a separate small quad
				t.polys = append(t.polys, polyDef{v: [][3]int{{0, 0, 0}, {0, 0, S}, {3, 0, S}}, flags: 1}, quad(4, 1, S, 5, 0, 0, 3))
			}
			t.offs = nil
			defs = append(defs, t)
			k++
		}
	}
	return g, defs
}

func worlds(thorough bool) []*tileWorld {
	var out []*tileWorld
	// different subdivisions, 2x2
	g, d := splitGrid(2, 2)
	out = append(out, &tileWorld{name: "split2x2", grid: g, defs: d, maxTiles: 4, maxPolys: 64})
	// 3x2 with one free slot more, two lookup buckets
	g, d = splitGrid(3, 2)
	out = append(out, &tileWorld{name: "split3x2", grid: g, defs: d, maxTiles: 8, maxPolys: 16})
	// layers: two layers at (0,0), three at (1,0), overlapping heights
	g, d = splitGrid(2, 1)
	var l []*tileDef
	for i, y := range []int{0, 8} {
		t := *d[0]
		t.layer = i
		t.polys = []polyDef{quad(0, 0, 6, 3, y, 0, 1), quad(0, 3, 6, 6, y+1, 0, 1)}
		l = append(l, &t)
	}
	for i, y := range []int{0, 9, 4} {
		t := *d[1]
		t.layer = i
		t.polys = []polyDef{quad(0, 0, 6, 6, y, 0, 1)}
		if i == 2 { // a ramp joining the layers
			t.polys = []polyDef{{v: [][3]int{{0, 8, 0}, {0, 0, 6}, {6, 0, 6}, {6, 8, 0}}, flags: 1}}
		}
		l = append(l, &t)
	}
	out = append(out, &tileWorld{name: "layers", grid: g, defs: l, maxTiles: 5, maxPolys: 8})
	// same-position layers that meet on the shared tile border
	g, d = splitGrid(1, 1)
	var sp []*tileDef
	{
		t := *d[0]
		t.layer = 0
		t.polys = []polyDef{quad(0, 0, 6, 3, 0, 0, 1)}
		sp = append(sp, &t)
		u := *d[0]
		u.layer = 1
		u.polys = []polyDef{quad(0, 3, 6, 6, 0, 0, 1)}
		sp = append(sp, &u)
		v := *d[0]
		v.x = 1
		v.bmin[0] += 6 * g.cs
		v.polys = []polyDef{quad(0, 1, 6, 5, 0, 0, 1)}
		sp = append(sp, &v)
		w := *d[0]
		w.x = -1
		w.bmin[0] -= 6 * g.cs
		w.polys = []polyDef{quad(0, 0, 6, 6, 0, 0, 1)}
		sp = append(sp, &w)
	}
	out = append(out, &tileWorld{name: "shared-position", grid: g, defs: sp, maxTiles: 4, maxPolys: 4})
	// layers of one position that meet inside of it, next to another tile
	g, d = splitGrid(2, 1)
	var il []*tileDef
	for i := 0; i < 3; i++ {
		t := *d[0]
		t.layer = i
		switch i {
		case 0:
			t.polys = []polyDef{quad(0, 0, 6, 3, 0, 0, 1)}
			t.nw = [][]uint16{{0xffff, 0x8001, 0x8002, 0xffff}}
		case 1:
			t.polys = []polyDef{quad(0, 3, 4, 6, 1, 0, 1)}
			t.nw = [][]uint16{{0xffff, 0xffff, 0x8002, 0x8003}}
		case 2:
			t.polys = []polyDef{quad(4, 3, 6, 6, 2, 0, 1)}
			t.nw = [][]uint16{{0x8000, 0xffff, 0x8002, 0x8003}}
		}
		il = append(il, &t)
	}
	il = append(il, d[1])
	out = append(out, &tileWorld{name: "inner-layers", grid: g, defs: il, maxTiles: 4, maxPolys: 4})
	// one polygon between four on either side: as many as an edge can have
	g, d = splitGrid(3, 1)
	strips := []polyDef{quad(0, 5, 6, 6, 0, 0, 1), quad(0, 0, 6, 1, 1, 0, 1), quad(0, 1, 6, 3, 0, 0, 1), quad(0, 3, 6, 5, 2, 0, 1)}
	d[0].polys, d[2].polys = strips, strips
	d[1].polys = []polyDef{quad(0, 0, 6, 6, 0, 0, 1)}
	out = append(out, &tileWorld{name: "strips", grid: g, defs: d, maxTiles: 3, maxPolys: 8})
	// off-mesh connections into every neighbour, in one tile and across
	g, d = splitGrid(2, 2)
	for _, t := range d {
		t.polys = []polyDef{quad(0, 0, 6, 3, 0, 0, 1), quad(0, 3, 6, 6, 0, 0, 1)}
	}
	at := func(x, z float32) [3]float32 { return [3]float32{g.orig[0] + x*3, g.orig[1], g.orig[2] + z*3} }
	cons := []offDef{
		{a: at(.5, .2), b: at(.5, .8), rad: .3, flags: 1, id: 1},             // inside tile 0
		{a: at(.7, .3), b: at(1.4, .3), rad: .3, flags: 1, bidir: 1, id: 2},  // 0 -> 1
		{a: at(.3, .7), b: at(.3, 1.4), rad: .3, flags: 1, id: 3},            // 0 -> 2
		{a: at(.8, .8), b: at(1.3, 1.3), rad: .3, flags: 1, bidir: 1, id: 4}, // 0 -> 3 (diagonal)
		{a: at(1.3, 1.6), b: at(.4, 1.6), rad: .3, flags: 1, bidir: 1, id: 5},
		{a: at(1.6, .7), b: at(.6, 1.2), rad: .3, flags: 1, id: 6},
		{a: at(1.2, .5), b: at(1.2, -.5), rad: .3, flags: 1, id: 7}, // leads nowhere
	}
	for _, t := range d {
		t.offs = cons
	}
	out = append(out, &tileWorld{name: "offmesh", grid: g, defs: d, maxTiles: 4, maxPolys: 16})
	if thorough {
		g, d = splitGrid(3, 3)
		out = append(out, &tileWorld{name: "split3x3", grid: g, defs: d, maxTiles: 16, maxPolys: 16})
	}
	return out
}

// crowdedWorld has a tile of 64 polygons and 240 inner links between tiles with twice as many
// polygons along the common edges, so that chains of links run through the whole storage.
func crowdedWorld() *tileWorld {
	g, _ := splitGrid(3, 2)
	g.S = 16
	var defs []*tileDef
	for _, at := range [][2]int{{1, 0}, {0, 0}, {2, 0}, {1, 1}} {
		t := g.tile(at[0], at[1])
		t.polys, t.offs = nil, nil
		for a := 0; a < g.S; a++ {
			switch {
			case at == [2]int{1, 0} && a%2 == 0:
				for x := 0; x < g.S; x += 2 {
					t.polys = append(t.polys, quad(x, a, x+2, a+2, 0, 0, 1))
				}
			case at == [2]int{1, 1}:
				t.polys = append(t.polys, quad(a, 0, a+1, g.S, a%3, 0, 1))
			case at != [2]int{1, 0}:
				t.polys = append(t.polys, quad(0, a, g.S, a+1, a%3, 0, 1))
			}
		}
		defs = append(defs, t)
	}
	return &tileWorld{name: "crowded", grid: g, defs: defs, maxTiles: 4, maxPolys: 64}
}

// farWorld has positions and layers that are equal in their low bytes or half words.
func farWorld() *tileWorld {
	g, d := splitGrid(1, 1)
	var defs []*tileDef
	for i, p := range [][3]int{{0, 0, 0}, {0, 0, 256}, {0, 0, 65536}, {256, 0, 0}, {-65536, 65536, 1}, {0, -256, 1 << 30}} {
		t := *d[0]
		t.x, t.y, t.layer = p[0], p[1], p[2]
		t.userID = uint32(5000 + i)
		t.polys = []polyDef{quad(0, 0, 6, 6, 0, 0, 1)}
		t.nw = [][]uint16{{0xffff, 0xffff, 0xffff, 0xffff}}
		defs = append(defs, &t)
	}
	return &tileWorld{name: "far", grid: g, defs: defs, maxTiles: 6, maxPolys: 4}
}

// history is a sequence of operations; operation o on tile o%K:
// kind 0 toggles the tile (add when absent, remove when present), kind 1 does
// the same but adds under the tile's last reference when it has one.
func decodeOps(i int64, alphabet int) []int {
	// sequences of all lengths >= 1, shortest first
	n := 1
	for c := int64(alphabet); i >= c; c *= int64(alphabet) {
		i -= c
		n++
	}
	ops := make([]int, n)
	d := hx.NewDec(i)
	for k := range ops {
		ops[k] = d.Next(alphabet)
	}
	return ops
}

func countOps(alphabet, depth int) int64 {
	var n, c int64 = 0, 1
	for i := 0; i < depth; i++ {
		c *= int64(alphabet)
		n += c
	}
	return n
}

func (w *tileWorld) bitKey(set int) string {
	var s []string
	for k := range w.defs {
		if set&(1<<uint(k)) != 0 {
			s = append(s, fmt.Sprint(k))
		}
	}
	return strings.Join(s, "")
}

// groundLink says from the description whether edge i of polygon p of tile t is
// connected to edge j of polygon q of tile o: 1 yes, 0 no, -1 too close to a
// limit.
func groundLink(t *tileDef, n uint16, p polyDef, i int, o *tileDef, on uint16, q polyDef, j int) int {
	if n&0x8000 == 0 || on&0x8000 == 0 || n == 0xffff || on == 0xffff || n&3 != (on+2)&3 {
		return 0
	}
	dx, dy := [4]int{-1, 0, 1, 0}[n&3], [4]int{0, 1, 0, -1}[n&3]
	if (t.x != o.x || t.y != o.y) && (t.x+dx != o.x || t.y+dy != o.y) {
		return 0
	}
	along, across := 2, 0
	if n&1 == 1 {
		along, across = 0, 2
	}
	end := func(t *tileDef, p polyDef, i int) (a, b, ya, yb, c float64) {
		v, w := p.v[i], p.v[(i+1)%len(p.v)]
		cs, ch := float64(t.cs), float64(t.ch)
		a, b = float64(t.bmin[along])+float64(v[along])*cs, float64(t.bmin[along])+float64(w[along])*cs
		ya, yb = float64(t.bmin[1])+float64(v[1])*ch, float64(t.bmin[1])+float64(w[1])*ch
		c = float64(t.bmin[across]) + float64(v[across])*cs
		if a > b {
			a, b, ya, yb = b, a, yb, ya
		}
		return
	}
	a, b, ya, yb, c := end(t, p, i)
	oa, ob, oya, oyb, oc := end(o, q, j)
	if math.Abs(c-oc) > 0.1 {
		return 0
	}
	lo, hi := math.Max(a, oa), math.Min(b, ob)
	if hi-lo < 1e-3 {
		return 0
	}
	if hi-lo < 0.05 {
		return -1
	}
	gap := func(x float64) float64 {
		return oya + (oyb-oya)*(x-oa)/(ob-oa) - ya - (yb-ya)*(x-a)/(b-a)
	}
	g0, g1, reach := gap(lo), gap(hi), 2*float64(t.climb)
	m := math.Min(math.Abs(g0), math.Abs(g1))
	if g0*g1 <= 0 {
		m = 0
	}
	switch {
	case m < reach-0.05:
		return 1
	case m > reach+0.05:
		return 0
	}
	return -1
}

// wrongGround compares the connections between ordinary polygons with what
// follows from the description of the loaded tiles.
func (w *tileWorld) wrongGround(nav *detour.NavMesh, set int) string {
	name := func(t *tileDef, i int) string { return fmt.Sprintf("%d,%d,%d:%d", t.x, t.y, t.layer, i) }
	var in []*tileDef
	for k, t := range w.defs {
		if set&(1<<uint(k)) != 0 {
			in = append(in, t)
		}
	}
	for _, t := range in {
		mt := nav.TileAt(int32(t.x), int32(t.y), int32(t.layer))
		if mt == nil {
			return fmt.Sprintf("tile %d,%d,%d is missing", t.x, t.y, t.layer)
		}
		tn := t.neis()
		for i, p := range t.polys {
			got := map[string]int{}
			for l := mt.Polys[i].FirstLink; l != null32; l = mt.Links[l].Next {
				if mt.Links[l].Edge != 0xff {
					got[fmt.Sprintf("%s over edge %d", refName(nav, mt.Links[l].Ref), mt.Links[l].Edge)]++
				}
			}
			for ei, n := range tn[i] {
				if n&0x8000 == 0 {
					k := fmt.Sprintf("%s over edge %d", name(t, int(n)), ei)
					if got[k] != 1 {
						return fmt.Sprintf("%s is connected %d times to %s", name(t, i), got[k], k)
					}
					delete(got, k)
					continue
				}
				if n == 0xffff {
					continue
				}
				for _, o := range in {
					if o == t || o.x < t.x-1 || o.x > t.x+1 || o.y < t.y-1 || o.y > t.y+1 {
						continue
					}
					onw := o.neis()
					for j, q := range o.polys {
						want := 0
						for ej, on := range onw[j] {
							if r := groundLink(t, n, p, ei, o, on, q, ej); r != 0 && want != 1 {
								want = r
							}
						}
						k := fmt.Sprintf("%s over edge %d", name(o, j), ei)
						if want >= 0 && got[k] != want {
							return fmt.Sprintf("%s is connected %d times to %s, want %d", name(t, i), got[k], k, want)
						}
						delete(got, k)
					}
				}
			}
			for k := range got {
				return fmt.Sprintf("%s is connected to %s, but they have no edge in common", name(t, i), k)
			}
		}
	}
	return ""
}

func mutualLinks(nav *detour.NavMesh) string {
	for i := range nav.Tiles {
		t := &nav.Tiles[i]
		if t.Header == nil {
			continue
		}
		base := nav.TileRef(t)
		for ip := range t.Polys {
			p := &t.Polys[ip]
			if p.Type() != 0 {
				continue
			}
			self := detour.PolyRef(base) | detour.PolyRef(ip)
			for l := p.FirstLink; l != null32; l = t.Links[l].Next {
				r := t.Links[l].Ref
				if !nav.IsValidPolyRef(r) {
					return fmt.Sprintf("%s linked to invalid reference %x", refName(nav, self), uint32(r))
				}
				var ot *detour.MeshTile
				var op *detour.Poly
				nav.TileAndPolyByRefUnsafe(r, &ot, &op)
				if op.Type() != 0 {
					continue
				}
				back := false
				for _, x := range linksOf(nav, r) {
					back = back || x == self
				}
				if !back {
					return fmt.Sprintf("%s is linked to %s but not the other way round", refName(nav, self), refName(nav, r))
				}
			}
		}
	}
	return ""
}

func init() {
	hx.Register(&hx.Check{
		ID: "C01", Level: "model_checking",
		Rule:        "every sequence of add/remove operations up to the depth over the tiles of each world; a case is non-trivial when at least one tile is loaded at the end; the whole link structure is compared with that of a mesh freshly built from the same tile set",
		Assumptions: []string{"a tile's link storage (MaxLinkCount, fixed at creation) suffices for the connections of the worlds"},
		Spaces: func(thorough bool) []hx.Space {
			var out []hx.Space
			for _, w := range append(worlds(thorough), crowdedWorld()) {
				w := w
				K := len(w.defs)
				depth := map[int]int{3: 8, 4: 8, 5: 7, 6: 6, 9: 6}[K]
				if w.name == "crowded" {
					depth = 5
				}
				if thorough {
					depth++
				}
				out = append(out, hx.Space{Name: "toggle/" + w.name, N: countOps(K, depth), Bound: fmt.Sprintf("%d tiles, all toggle sequences of length <= %d", K, depth),
					Run: func(e *hx.Env, i int64) { runToggle(e, w, decodeOps(i, K)) }})
				if K <= 6 {
					np := factorial(K)
					out = append(out, hx.Space{Name: "orders/" + w.name, N: int64(np) * int64(np), Bound: "every load order followed by every removal order, compared after each step",
						Run: func(e *hx.Env, i int64) {
							ops := append(permutation(K, int(i)%np), permutation(K, int(i)/np)...)
							nav := w.newMesh()
							refs := make([]detour.TileRef, K)
							set := 0
							for s, k := range ops {
								set = w.toggle(e, nav, refs, set, k)
								if s >= K || int(i)/np == 0 {
									w.compare(e, nav, set)
								}
							}
							e.Trace()
						}})
				}
			}
			// many cycles on the same slots: storage must not leak
			for _, w := range worlds(false) {
				w := w
				K := len(w.defs)
				out = append(out, hx.Space{Name: "cycles/" + w.name, N: int64(K * K), Bound: "load all, then 300 remove/add cycles of a pair of tiles",
					Run: func(e *hx.Env, i int64) {
						nav := w.newMesh()
						refs := make([]detour.TileRef, K)
						set := 0
						for k := 0; k < K; k++ {
							set = w.toggle(e, nav, refs, set, k)
						}
						a, b := int(i)%K, int(i)/K
						for c := 0; c < 300; c++ {
							set = w.toggle(e, nav, refs, set, a)
							set = w.toggle(e, nav, refs, set, b)
							if c%50 < 2 {
								w.compare(e, nav, set)
							}
						}
						e.Trace()
					}})
			}
			// many layers at one position
			sizes := []int{2, 4, 8, 16, 30}
			out = append(out, bigTiles())
			out = append(out, hx.Space{Name: "towers", N: int64(len(sizes)) * 4 * 61 * 2, Batch: 8, Bound: fmt.Sprintf("%v layers at one position and at the next (one more at the first), each touching its counterpart only; four load orders, two removal orders, every tile removed and added again", sizes),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					n, ord, k, back := sizes[d.Next(len(sizes))], d.Next(4), d.Next(61), d.Next(2)
					K := 2*n + 1
					if k >= K {
						return
					}
					w := towerWorld(n)
					nav := w.newMesh()
					refs := make([]detour.TileRef, K)
					set := 0
					var order []int
					for j := 0; j < K; j++ {
						o := j
						switch ord {
						case 1:
							o = K - 1 - j
						case 2: // alternating
							o = j/2 + j%2*(n+1)
						case 3: // from the middle
							o = (j*7 + 3) % K
							if K%7 == 0 {
								o = j
							}
						}
						order = append(order, o)
					}
					for _, o := range order {
						set = w.toggle(e, nav, refs, set, o)
					}
					judge := func() {
						if m := w.wrongGround(nav, set); m != "" {
							e.Failf("towers", "%d layers (order %d), without {%s}: %s", n, ord, w.bitKey(1<<uint(K)-1&^set), m)
						}
						if m := mutualLinks(nav); m != "" {
							e.Failf("towers", "%d layers (order %d), without {%s}: %s", n, ord, w.bitKey(1<<uint(K)-1&^set), m)
						}
						for _, s := range connectivity(nav) {
							if strings.Contains(s, "dangling") || strings.Contains(s, "endless") || strings.Contains(s, "free of") {
								e.Failf("towers", "%d layers (order %d): %s", n, ord, s)
							}
						}
					}
					judge()
					set = w.toggle(e, nav, refs, set, k)
					judge()
					other := (k + n + 1) % K
					if back == 1 {
						set = w.toggle(e, nav, refs, set, other)
						judge()
						set = w.toggle(e, nav, refs, set, other)
					}
					set = w.toggle(e, nav, refs, set, k)
					judge()
					e.State(hx.H("tower", n, ord, k, back))
					e.Trace()
				}})
			return out
		},
	})
}

// towerWorld has n+1 layers at (0,0) and n at (1,0), 3 units apart.
func towerWorld(n int) *tileWorld {
	g := newGrid(2, 1)
	g.TW, g.TH = 1, 1
	w := &tileWorld{name: fmt.Sprint("tower", n), grid: g, maxTiles: 2*n + 1, maxPolys: 1}
	for k := 0; k < 2*n+1; k++ {
		x := 0
		l := k
		if k > n {
			x, l = 1, k-n-1
		}
		t := g.tile(x, 0)
		t.layer = l
		t.ymax = 400
		t.polys = []polyDef{quad(0, 0, g.S, g.S, 12*l, 0, 1)}
		w.defs = append(w.defs, t)
	}
	return w
}

func (w *tileWorld) toggle(e *hx.Env, nav *detour.NavMesh, refs []detour.TileRef, set, k int) int {
	e.Step(1)
	if set&(1<<uint(k)) == 0 {
		st, r := nav.AddTile(w.data[k], 0)
		e.Log("add tile %d -> %x ref %x", k, uint32(st), uint32(r))
		e.Assert(detour.StatusSucceed(st) && r != 0, "add-status", "adding tile %d to {%s} gives status %x ref %x", k, w.bitKey(set), uint32(st), uint32(r))
		refs[k] = r
		return set | 1<<uint(k)
	}
	data, st := nav.RemoveTile(refs[k])
	e.Log("remove tile %d -> %x", k, uint32(st))
	e.Assert(detour.StatusSucceed(st), "remove-status", "removing tile %d from {%s} gives status %x", k, w.bitKey(set), uint32(st))
	e.Assert(bytes.Equal(data, w.data[k]), "remove-data", "removing tile %d returns other data than was added", k)
	return set &^ (1 << uint(k))
}

func (w *tileWorld) compare(e *hx.Env, nav *detour.NavMesh, set int) {
	got, want := connectivity(nav), w.fresh(set)
	if !eqStrings(got, want) {
		e.Failf("connectivity/"+w.name, "tiles {%s}: connectivity differs from a fresh mesh:\n%s", w.bitKey(set), diffStrings(want, got))
	}
	for _, s := range got {
		if strings.Contains(s, "dangling") || strings.Contains(s, "badpoly") || strings.Contains(s, "endless") || strings.Contains(s, "free of") {
			e.Failf("dangling/"+w.name, "tiles {%s}: %s", w.bitKey(set), s)
		}
	}
	// equal to the fresh mesh: the description has to be asked once per set
	if !w.judged[set] {
		if m := w.wrongGround(nav, set); m != "" {
			e.Failf("ground/"+w.name, "tiles {%s}: %s", w.bitKey(set), m)
		}
		if w.judged == nil {
			w.judged = map[int]bool{}
		}
		w.judged[set] = true
	}
	if m := mutualLinks(nav); m != "" {
		e.Failf("mutual/"+w.name, "tiles {%s}: %s", w.bitKey(set), m)
	}
	h := hx.NewHash()
	h.S(w.name)
	h.I(set)
	for i := range nav.Tiles {
		t := &nav.Tiles[i]
		if t.Header != nil {
			h.I(i*1000 + int(t.Header.X)*10 + int(t.Header.Y)*100 + int(t.Header.Layer))
			for l := range t.Links {
				h.U(uint64(t.Links[l].Next))
			}
		}
		h.I(tileIndexOf(nav, t.Next))
	}
	e.State(uint64(h))
	e.Outcome("%d links", len(got))
}

func runToggle(e *hx.Env, w *tileWorld, ops []int) {
	nav := w.newMesh()
	refs := make([]detour.TileRef, len(w.defs))
	set := 0
	for _, k := range ops {
		set = w.toggle(e, nav, refs, set, k)
	}
	w.compare(e, nav, set)
	e.Trace()
	if e.WantSample() {
		e.Sample("%s: toggle %v -> loaded {%s}, %d links as in a fresh mesh", w.name, ops, w.bitKey(set), len(w.fresh(set)))
	}
}

// ---- C02

type loadRec struct {
	k     int // tile
	ref   detour.TileRef
	polys int
}

type refModel struct {
	w     *tileWorld
	nav   *detour.NavMesh
	live  []int // per tile: index into loads, or -1
	loads []loadRec
	last  []detour.TileRef // last reference of each tile
}

func slotOf(nav *detour.NavMesh, r detour.TileRef) (slot, salt, ip uint32) {
	nav.DecodePolyID(detour.PolyRef(r), &salt, &slot, &ip)
	return
}

func (m *refModel) add(e *hx.Env, k int, withLast bool) bool {
	ref := detour.TileRef(0)
	if withLast {
		ref = m.last[k]
		if ref == 0 {
			return false
		}
		slot, _, _ := slotOf(m.nav, ref)
		for _, l := range m.live {
			if l >= 0 {
				if s, _, _ := slotOf(m.nav, m.loads[l].ref); s == slot {
					return false // slot in use: C03's business
				}
			}
		}
	}
	e.Step(1)
	st, r := m.nav.AddTile(m.w.data[k], ref)
	e.Log("add tile %d last %x -> %x ref %x", k, uint32(ref), uint32(st), uint32(r))
	e.Assert(detour.StatusSucceed(st), "add-status", "adding tile %d (last reference %x) gives status %x", k, uint32(ref), uint32(st))
	e.Assert(r != 0, "zero-ref", "tile %d got reference zero", k)
	if ref != 0 {
		e.Assert(r == ref, "lastref", "tile %d re-added under %x got %x", k, uint32(ref), uint32(r))
		// the generation of the slot is set back: forget later generations
		slot, salt, _ := slotOf(m.nav, r)
		var keep []loadRec
		for i := range m.live {
			m.live[i] = -1 - m.live[i] // mark, remap below
		}
		remap := map[int]int{}
		for i, l := range m.loads {
			s, sa, _ := slotOf(m.nav, l.ref)
			if s == slot && sa >= salt {
				continue
			}
			remap[i] = len(keep)
			keep = append(keep, l)
		}
		for i := range m.live {
			old := -1 - m.live[i]
			if old < 0 {
				m.live[i] = -1
			} else {
				m.live[i] = remap[old]
			}
		}
		m.loads = keep
	} else {
		for i, l := range m.loads {
			e.Assert(l.ref != r, "ref-reuse", "tile %d got reference %x, which was load %d (tile %d)", k, uint32(r), i, l.k)
		}
	}
	m.live[k] = len(m.loads)
	m.loads = append(m.loads, loadRec{k, r, int(polysOf(m.w.data[k]))})
	m.last[k] = r
	return true
}

func polysOf(data []byte) int32 {
	// header: magic version x y layer userid polycount
	return int32(uint32(data[24]) | uint32(data[25])<<8 | uint32(data[26])<<16 | uint32(data[27])<<24)
}

func (m *refModel) remove(e *hx.Env, k int) {
	e.Step(1)
	_, st := m.nav.RemoveTile(m.loads[m.live[k]].ref)
	e.Log("remove tile %d -> %x", k, uint32(st))
	e.Assert(detour.StatusSucceed(st), "remove-status", "removing tile %d gives status %x", k, uint32(st))
	m.live[k] = -1
}

func (m *refModel) check(e *hx.Env) {
	nav := m.nav
	isLive := map[detour.TileRef]int{}
	for k, l := range m.live {
		if l >= 0 {
			isLive[m.loads[l].ref] = k
		}
	}
	for i, l := range m.loads {
		d := m.w.defs[l.k]
		live := m.live[l.k] == i
		t := nav.TileByRef(l.ref)
		if live {
			if t == nil || t.Header == nil || int(t.Header.X) != d.x || int(t.Header.Y) != d.y || int(t.Header.Layer) != d.layer || t.Header.UserID != d.userID {
				e.Failf("live-tileref", "reference %x of loaded tile %d does not resolve to it", uint32(l.ref), l.k)
			}
			e.Assert(nav.TileRef(t) == l.ref, "tileref", "TileRef of tile %d is %x, was %x", l.k, uint32(nav.TileRef(t)), uint32(l.ref))
		} else if t != nil {
			e.Failf("dead-tileref", "reference %x of removed tile %d still resolves", uint32(l.ref), l.k)
		}
		for ip := 0; ip < l.polys+2; ip++ {
			r := detour.PolyRef(l.ref) | detour.PolyRef(ip)
			want := live && ip < l.polys
			if got := nav.IsValidPolyRef(r); got != want {
				e.Failf("polyref-valid", "IsValidPolyRef(load %d tile %d poly %d)=%v, want %v", i, l.k, ip, got, want)
			}
			var pt *detour.MeshTile
			var pp *detour.Poly
			st := nav.TileAndPolyByRef(r, &pt, &pp)
			if want {
				if detour.StatusFailed(st) || pt != t || pp != &t.Polys[ip] {
					e.Failf("polyref-resolve", "TileAndPolyByRef(load %d tile %d poly %d) fails or gives another polygon", i, l.k, ip)
				}
			} else if !detour.StatusFailed(st) {
				e.Failf("polyref-resolve", "TileAndPolyByRef(dead or out of range poly %d of load %d tile %d) succeeds", ip, i, l.k)
			}
		}
	}
	// lookups by position
	seen := map[[2]int]bool{}
	for _, d := range m.w.defs {
		for _, o := range [][2]int{{0, 0}, {1, 0}, {-1, -1}, {0, 7}} {
			seen[[2]int{d.x + o[0], d.y + o[1]}] = true
		}
	}
	for pos := range seen {
		want := map[detour.TileRef]bool{}
		for k, l := range m.live {
			if l >= 0 && m.w.defs[k].x == pos[0] && m.w.defs[k].y == pos[1] {
				want[m.loads[l].ref] = true
			}
		}
		tiles := make([]*detour.MeshTile, 8)
		n := nav.TilesAt(int32(pos[0]), int32(pos[1]), tiles, 8)
		got := map[detour.TileRef]bool{}
		for j := 0; j < int(n); j++ {
			got[nav.TileRef(tiles[j])] = true
		}
		e.Assert(len(got) == int(n), "tilesat", "TilesAt%v lists a tile twice", pos)
		e.Assert(fmt.Sprint(got) == fmt.Sprint(want), "tilesat", "TilesAt%v = %v, want %v", pos, got, want)
		layers := []int{-1, 0, 1, 2, 3}
		for _, d := range m.w.defs {
			if d.layer > 3 {
				layers = append(layers, d.layer-1, d.layer)
			}
		}
		for _, layer := range layers {
			var wr detour.TileRef
			for k, l := range m.live {
				if l >= 0 && m.w.defs[k].x == pos[0] && m.w.defs[k].y == pos[1] && m.w.defs[k].layer == layer {
					wr = m.loads[l].ref
				}
			}
			t := nav.TileAt(int32(pos[0]), int32(pos[1]), int32(layer))
			e.Assert(nav.TileRef(t) == wr, "tileat", "TileAt(%v,%d) = %x, want %x", pos, layer, uint32(nav.TileRef(t)), uint32(wr))
			r := nav.TileRefAt(int32(pos[0]), int32(pos[1]), int32(layer))
			e.Assert(r == wr, "tilerefat", "TileRefAt(%v,%d) = %x, want %x", pos, layer, uint32(r), uint32(wr))
		}
	}
	e.Assert(nav.TileByRef(0) == nil && !nav.IsValidPolyRef(0), "zero", "reference zero resolves")
	h := hx.NewHash()
	h.S(m.w.name)
	for i := range nav.Tiles {
		h.U(uint64(nav.Tiles[i].Salt))
		if nav.Tiles[i].Header != nil {
			h.I(int(nav.Tiles[i].Header.X)*16 + int(nav.Tiles[i].Header.Y)*4 + int(nav.Tiles[i].Header.Layer) + 1)
		}
		h.I(tileIndexOf(nav, nav.Tiles[i].Next))
	}
	e.State(uint64(h))
}

// fill takes every slot that is left, and frees it again.
func (m *refModel) fill(e *hx.Env) {
	for _, r := range m.w.fillSlots(e, m.nav) {
		for i, l := range m.loads {
			e.Assert(l.ref != r, "ref-reuse", "another tile got reference %x, which was load %d (tile %d)", uint32(r), i, l.k)
		}
	}
	m.check(e)
}

// fillSlots takes every free slot of a mesh with tiles far away from the
// others, and frees them again.
func (w *tileWorld) fillSlots(e *hx.Env, nav *detour.NavMesh) (refs []detour.TileRef) {
	used := map[uint32]bool{}
	for i := range nav.Tiles {
		if nav.Tiles[i].Header != nil {
			used[uint32(i)] = true
		}
	}
	free := w.maxTiles - len(used)
	for k := 0; k <= free; k++ {
		data := append([]byte(nil), w.data[0]...)
		binary.LittleEndian.PutUint32(data[8:], uint32(1000+3*k))
		st, r := nav.AddTile(data, 0)
		e.Step(1)
		if k == free {
			e.Assert(detour.StatusFailed(st), "fill", "a tile can be added to a full mesh")
			break
		}
		slot, _, _ := slotOf(nav, r)
		e.Assert(detour.StatusSucceed(st) && r != 0, "fill", "only %d of %d free slots can be used: status %x", k, free, uint32(st))
		e.Assert(!used[slot], "fill", "slot %d is used twice", slot)
		used[slot] = true
		refs = append(refs, r)
	}
	for _, r := range refs {
		_, st := nav.RemoveTile(r)
		e.Assert(detour.StatusSucceed(st), "fill", "reference %x cannot be removed: status %x", uint32(r), uint32(st))
	}
	return refs
}

// refQueries calls every query that takes references with live, stale and
// made-up ones: it is refused exactly if one of them names nothing.
func refQueries(e *hx.Env, w *tileWorld, ops []int) {
	m := &refModel{w: w, nav: w.newMesh(), live: make([]int, len(w.defs)), last: make([]detour.TileRef, len(w.defs))}
	for k := range m.live {
		m.live[k] = -1
	}
	for _, k := range ops {
		if m.live[k] >= 0 {
			m.remove(e, k)
		} else {
			m.add(e, k, false)
		}
	}
	type cand struct {
		ref  detour.PolyRef
		pos  d3.Vec3
		live bool
		con  bool
	}
	cands := []cand{{pos: d3.NewVec3XYZ(0, 0, 0)}}
	for i, l := range m.loads {
		d := w.defs[l.k]
		for _, ip := range []int{0, len(d.polys) - 1, l.polys} {
			c := cand{ref: detour.PolyRef(l.ref) | detour.PolyRef(ip), pos: d3.NewVec3XYZ(0, 0, 0), live: m.live[l.k] == i && ip < l.polys}
			if ip < len(d.polys) {
				for j := range d.polys[ip].v {
					v := d.vertW(ip, j)
					for a := range c.pos {
						c.pos[a] += v[a] / float32(len(d.polys[ip].v))
					}
				}
			} else {
				c.con = true
			}
			cands = append(cands, c)
		}
		if i == len(m.loads)-1 {
			// of a generation and a slot that never were
			p := w.params()
			pb, tb := uint(0), uint(0)
			for 1<<pb < p.MaxPolys {
				pb++
			}
			for 1<<tb < p.MaxTiles {
				tb++
			}
			cands = append(cands, cand{ref: detour.PolyRef(l.ref) + 7<<(pb+tb), pos: d3.NewVec3XYZ(0, 0, 0)})
			if len(w.defs) < 1<<tb {
				cands = append(cands, cand{ref: detour.PolyRef(l.ref)&^(1<<(pb+tb)-1) | (1<<tb-1)<<pb, pos: d3.NewVec3XYZ(0, 0, 0)})
			}
		}
	}
	st, q := detour.NewNavMeshQuery(m.nav, 64)
	if detour.StatusFailed(st) {
		e.Failf("query", "NewNavMeshQuery: %x", uint32(st))
	}
	const refused = detour.Failure | detour.InvalidParam
	filter := detour.NewStandardQueryFilter()
	judge := func(what string, a, b *cand, st detour.Status, ok bool) {
		e.Step(1)
		if ok == (st == refused) || ok && detour.StatusFailed(st) {
			e.Failf("query-"+what, "ops %v: %s of %x (valid: %v) and %x (valid: %v) gives %x", ops, what, uint32(a.ref), a.live, uint32(b.ref), b.live, uint32(st))
		}
		e.Outcome("%s accepted %v", what, ok)
	}
	path := make([]detour.PolyRef, 32)
	pt := d3.NewVec3()
	for ia := range cands {
		a := &cands[ia]
		var over bool
		judge("ClosestPointOnPoly", a, a, q.ClosestPointOnPoly(a.ref, a.pos, pt, &over), a.live)
		if !a.con || !a.live {
			judge("ClosestPointOnPolyBoundary", a, a, q.ClosestPointOnPolyBoundary(a.ref, a.pos, pt), a.live)
		}
		if q.IsValidPolyRef(a.ref, filter) != a.live {
			e.Failf("query-IsValidPolyRef", "ops %v: reference %x valid for the query: %v", ops, uint32(a.ref), !a.live)
		}
		if a.con && a.live {
			continue
		}
		sv := make([]d3.Vec3, 8)
		for k := range sv {
			sv[k] = d3.NewVec3()
		}
		_, st := q.FindStraightPath(a.pos, a.pos, []detour.PolyRef{a.ref}, sv, make([]uint8, 8), make([]detour.PolyRef, 8), 0)
		judge("FindStraightPath", a, a, st, a.live)
		for ib := range cands {
			b := &cands[ib]
			if b.con && b.live {
				continue
			}
			e.Eval(1)
			ok := a.live && b.live
			n, st := q.FindPath(a.ref, b.ref, a.pos, b.pos, filter, path)
			judge("FindPath", a, b, st, ok)
			for _, r := range path[:n] {
				if !m.nav.IsValidPolyRef(r) || !ok {
					e.Failf("query-path", "ops %v: FindPath of %x and %x gives %x", ops, uint32(a.ref), uint32(b.ref), path[:n])
				}
			}
			for _, opt := range []uint32{0, detour.FindPathAnyAngle} {
				st = q.InitSlicedFindPath(a.ref, b.ref, a.pos, b.pos, filter, opt)
				judge("InitSlicedFindPath", a, b, st, ok)
				ust := q.UpdateSlicedFindPath(1000, nil)
				c, fst := q.FinalizeSlicedFindPath(path, len(path))
				e.Step(2)
				if ok != detour.StatusSucceed(ust) || ok != detour.StatusSucceed(fst) || ok != (c > 0) {
					e.Failf("query-sliced", "ops %v: a sliced query of %x (valid: %v) and %x (valid: %v) goes on: update %x, result %x of %d polygons", ops, uint32(a.ref), a.live, uint32(b.ref), b.live, uint32(ust), uint32(fst), c)
				}
			}
			var hit detour.RaycastHit
			hit.Path, hit.MaxPath = path, len(path)
			judge("Raycast", a, b, q.Raycast(a.ref, a.pos, b.pos, filter, 0, &hit, b.ref), a.live && (b.live || b.ref == 0))
			e.State(hx.H(w.name, a.ref, b.ref, a.live, b.live))
		}
	}
	e.Trace()
}

func init() {
	hx.Register(&hx.Check{
		ID: "C02", Level: "model_checking",
		Rule:        "every sequence of toggle / toggle-under-last-reference operations up to the depth; a reference model (load -> slot, generation) predicts every lookup of every reference ever handed out; then all slots that are left are taken and freed again: each is there once",
		Assumptions: []string{"re-adding a tile under its former reference sets the slot's generation back, so references of later generations of that slot are not tracked any more"},
		Spaces: func(thorough bool) []hx.Space {
			var out []hx.Space
			for _, w := range append(worlds(thorough), farWorld()) {
				if strings.HasPrefix(w.name, "offmesh") {
					continue
				}
				for _, mode := range []string{"plain", "lastref"} {
					w, mode := w, mode
					K := len(w.defs)
					A := K
					depth := map[int]int{3: 7, 4: 7, 5: 6, 6: 5, 9: 5}[K]
					if mode == "lastref" {
						A = 2 * K
						depth = map[int]int{4: 5, 5: 4, 6: 4, 9: 4}[K]
					}
					if thorough {
						depth++
					}
					out = append(out, hx.Space{Name: mode + "/" + w.name, N: countOps(A, depth), Bound: fmt.Sprintf("%d tiles, sequences of length <= %d, alphabet %d", K, depth, A),
						Run: func(e *hx.Env, i int64) {
							m := &refModel{w: w, nav: w.newMesh(), live: make([]int, K), last: make([]detour.TileRef, K)}
							for k := range m.live {
								m.live[k] = -1
							}
							ops := decodeOps(i, A)
							for _, o := range ops {
								k := o % K
								if m.live[k] >= 0 {
									m.remove(e, k)
								} else if !m.add(e, k, o >= K) {
									e.Skip("requested slot in use or no former reference")
								}
							}
							m.check(e)
							m.fill(e)
							e.Trace()
							if e.WantSample() {
								e.Sample("%s ops %v: %d loads, all references resolve as in the model", w.name, ops, len(m.loads))
							}
						}})
				}
			}
			for _, w := range worlds(false)[:2] {
				w := w
				depth := 5
				if thorough {
					depth = 6
				}
				out = append(out, hx.Space{Name: "queries/" + w.name, N: countOps(len(w.defs), depth), Batch: 1,
					Bound: fmt.Sprintf("sequences of up to %d toggles of %d tiles, then every query with every pair of references ever handed out or made up", depth, len(w.defs)),
					Run:   func(e *hx.Env, i int64) { refQueries(e, w, decodeOps(i, len(w.defs))) }})
			}
			// generation wrap-around for every allowed split of the bits
			type cfg struct{ tiles, polys int }
			var cfgs []cfg
			for tb := 0; tb <= 6; tb += 2 {
				for pb := 1; tb+pb <= 24; pb++ {
					if tb+pb >= 16 || pb%4 == 0 || thorough {
						cfgs = append(cfgs, cfg{1 << uint(tb), 1 << uint(pb)})
					}
				}
			}
			ws := worlds(false)
			base := ws[0]
			out = append(out, bigTables())
			out = append(out, hx.Space{Name: "wrap", N: int64(len(cfgs)), Bound: "600 reloads of one slot for each split of the reference bits, against every reference handed out before, and 70000 for every fourth, against those 2^k-1, 2^k and 2^k+1 reloads ago", Batch: 1,
				Run: func(e *hx.Env, i int64) {
					c := cfgs[i]
					if c.polys < 4 {
						e.Skip("too few polygons for the tile")
					}
					base.init()
					nav := &detour.NavMesh{}
					p := base.params()
					p.MaxTiles, p.MaxPolys = uint32(c.tiles), uint32(c.polys)
					st := nav.Init(p)
					e.Assert(detour.StatusSucceed(st), "wrap-init", "Init(%+v) = %x", c, uint32(st))
					tb, pb := 0, 0
					for 1<<uint(tb) < c.tiles {
						tb++
					}
					for 1<<uint(pb) < c.polys {
						pb++
					}
					period := int64(1)<<uint(32-tb-pb) - 1
					if 32-tb-pb > 31 {
						period = 1<<31 - 1
					}
					var hist []detour.TileRef
					loads := 600
					if i%4 == 0 {
						loads = 70000
					}
					stale := func(n, back int) {
						if back > len(hist) || int64(back) >= period {
							return
						}
						old := hist[len(hist)-back]
						var tile *detour.MeshTile
						var poly *detour.Poly
						if nav.TileByRef(old) != nil || nav.IsValidPolyRef(detour.PolyRef(old)) || nav.IsValidPolyRef(detour.PolyRef(old)|3) ||
							!detour.StatusFailed(nav.TileAndPolyByRef(detour.PolyRef(old)|3, &tile, &poly)) {
							e.Failf("wrap-stale", "%+v: reference of load %d resolves during load %d", c, n-back, n)
						}
					}
					for n := 0; n < loads; n++ {
						e.Step(2)
						st, r := nav.AddTile(base.data[0], 0)
						e.Assert(detour.StatusSucceed(st) && r != 0, "wrap-add", "%+v: load %d gives %x ref %x", c, n, uint32(st), uint32(r))
						e.Assert(nav.IsValidPolyRef(detour.PolyRef(r)|3), "wrap-valid", "%+v: load %d: polygon reference invalid", c, n)
						slot, salt, ip := slotOf(nav, r)
						e.Assert(slot == 0 && ip == 0 && salt != 0 && int64(salt) <= period, "wrap-salt", "%+v: load %d decodes to slot %d generation %d poly %d", c, n, slot, salt, ip)
						for back := 1; back <= len(hist) && int64(back) < period && back <= 600; back++ {
							if hist[len(hist)-back] == r {
								e.Failf("wrap-reuse", "%+v: reference %x reused after %d loads", c, uint32(r), back)
							}
							if loads == 600 {
								stale(n, back)
							}
						}
						for k := 2; k < 1<<17; k *= 2 {
							stale(n, k-1)
							stale(n, k)
							stale(n, k+1)
						}
						_, st = nav.RemoveTile(r)
						e.Assert(detour.StatusSucceed(st), "wrap-remove", "%+v: remove %d gives %x", c, n, uint32(st))
						if n%7 == 3 {
							st, again := nav.AddTile(base.data[0], r)
							e.Assert(detour.StatusSucceed(st) && again == r && nav.IsValidPolyRef(detour.PolyRef(r)|3), "wrap-restore", "%+v: load %d added again under %x gives %x ref %x", c, n, uint32(r), uint32(st), uint32(again))
							_, st = nav.RemoveTile(r)
							e.Assert(detour.StatusSucceed(st), "wrap-remove", "%+v: second remove %d gives %x", c, n, uint32(st))
						}
						hist = append(hist, r)
						e.State(hx.H("wrap", c, r))
					}
					e.Trace()
				}})
			return out
		},
	})
}

// ---- C03

func corrupt(data []byte, off int, v byte) []byte {
	b := append([]byte(nil), data...)
	b[off] ^= v
	return b
}

func init() {
	hx.Register(&hx.Check{
		ID: "C03", Level: "model_checking",
		Rule: "in every state reached by every toggle history up to the depth, every refusable operation is tried on the real mesh; it must return a failure status and leave a byte-wise snapshot of the mesh unchanged; and the whole parameter grid of Init and NewNavMeshQuery",
		Spaces: func(thorough bool) []hx.Space {
			var out []hx.Space
			for _, w := range worlds(false) {
				w := w
				K := len(w.defs)
				depth := map[int]int{3: 6, 4: 6, 5: 5, 6: 4}[K]
				if thorough {
					depth++
				}
				out = append(out, hx.Space{Name: "refused/" + w.name, N: countOps(K, depth), Bound: fmt.Sprintf("all toggle sequences of length <= %d, then each refused operation", depth),
					Run: func(e *hx.Env, i int64) { runRefused(e, w, decodeOps(i, K), false) }})
				// one slot less than tiles: the mesh can be full
				tw := &tileWorld{name: w.name + "-tight", grid: w.grid, defs: w.defs, maxTiles: K - 1, maxPolys: w.maxPolys}
				out = append(out, hx.Space{Name: "full/" + w.name, N: countOps(K, depth), Bound: fmt.Sprintf("%d slots for %d tiles, sequences of length <= %d", K-1, K, depth),
					Run: func(e *hx.Env, i int64) { runRefused(e, tw, decodeOps(i, K), true) }})
			}
			out = append(out, hx.Space{Name: "incomplete", N: 32, Batch: 1, Bound: "tiles with every combination of tree, detail meshes, detail vertices and connections, cut after every byte, and every count in the header one too high, into an empty mesh, next to another tile and as a single tile",
				Run: func(e *hx.Env, i int64) {
					g := newGrid(2, 2)
					g.TW, g.TH, g.S = 1, 1, 6
					whole := richTile(g, 0, 0, int(i)).data()
					var bad [][]byte
					for cut := 0; cut < len(whole); cut++ {
						bad = append(bad, whole[:cut:cut])
					}
					for field := 24; field <= 52; field += 4 {
						big := append([]byte(nil), whole...)
						binary.LittleEndian.PutUint32(big[field:], binary.LittleEndian.Uint32(big[field:])+1)
						if field == 24 && binary.LittleEndian.Uint32(big[24:]) > 16 {
							continue
						}
						bad = append(bad, big)
					}
					for neighbour := 0; neighbour < 2; neighbour++ {
						w := &tileWorld{name: "rich", grid: g, maxTiles: 4, maxPolys: 16}
						nav := w.newMesh()
						if neighbour == 1 {
							st, _ := nav.AddTile(richTile(g, 1, 0, int(i)).data(), 0)
							e.Assert(detour.StatusSucceed(st), "add", "AddTile: %x", uint32(st))
						}
						before := snapshot(nav)
						for k, b := range bad {
							e.Note("tile %d, incomplete data %d (%d of %d bytes), neighbour %d", i, k, len(b), len(whole), neighbour)
							st, ref := nav.AddTile(b, 0)
							e.Step(1)
							e.Eval(1)
							if !detour.StatusFailed(st) || ref != 0 {
								e.Failf("incomplete", "tile %d: %d of %d bytes (case %d) are accepted: %x %x", i, len(b), len(whole), k, uint32(st), uint32(ref))
							}
							one := &detour.NavMesh{}
							if st := one.InitForSingleTile(b, 0); !detour.StatusFailed(st) {
								e.Failf("incomplete-single", "tile %d: %d of %d bytes (case %d) make a mesh: %x", i, len(b), len(whole), k, uint32(st))
							}
						}
						if !bytes.Equal(before, snapshot(nav)) {
							e.Failf("incomplete-change", "tile %d: refused data changed the mesh", i)
						}
						st, _ := nav.AddTile(whole, 0)
						e.Assert(detour.StatusSucceed(st), "complete", "the whole tile is refused: %x", uint32(st))
						e.State(hx.H(i, neighbour, len(whole)))
						e.Trace()
					}
				}})
			ts := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 100, 128, 1024, 1025}
			var ps []int
			for b := 0; b <= 31; b++ {
				ps = append(ps, 1<<uint(b))
				if b > 1 {
					ps = append(ps, 1<<uint(b)-1)
				}
				if b > 0 && b < 31 {
					ps = append(ps, 1<<uint(b)+1)
				}
			}
			out = append(out, hx.Space{Name: "init", N: int64(len(ts) * len(ps)), Bound: "grid of MaxTiles x MaxPolys",
				Run: func(e *hx.Env, i int64) {
					t, p := ts[int(i)%len(ts)], ps[int(i)/len(ts)]
					lg := func(v int) int {
						b := 0
						for 1<<uint(b) < v {
							b++
						}
						return b
					}
					fail := 32-lg(t)-lg(p) < 8
					nav := &detour.NavMesh{}
					e.Step(1)
					st := nav.Init(&detour.NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: uint32(t), MaxPolys: uint32(p)})
					e.State(hx.H("init", t, p, st))
					e.Outcome("init failed %v", fail)
					e.Assert(detour.StatusFailed(st) == fail, "init", "Init(MaxTiles %d, MaxPolys %d) = %x, should fail: %v", t, p, uint32(st), fail)
					e.Trace()
				}})
			nodes := []int32{-70000, -1, 0, 65536, 65537, 100000, 1 << 24, 1<<31 - 1}
			for n := int32(1); n <= 130; n++ {
				nodes = append(nodes, n)
			}
			nodes = append(nodes, 1000, 4095, 65534, 65535)
			out = append(out, hx.Space{Name: "query", N: int64(len(nodes)), Bound: "NewNavMeshQuery node limits around every boundary",
				Run: func(e *hx.Env, i int64) {
					n := nodes[i]
					m := newGrid(3, 1).build()
					e.Note("NewNavMeshQuery(%d)", n)
					st, q := detour.NewNavMeshQuery(m.nav, n)
					e.Step(1)
					ok := n > 0 && n <= 65535
					e.State(hx.H("query", n, st))
					e.Outcome("accepted %v", ok)
					e.Assert(detour.StatusFailed(st) == !ok, "query-limit", "NewNavMeshQuery(maxNodes %d) = %x, within limits: %v", n, uint32(st), ok)
					if ok {
						path := make([]detour.PolyRef, 8)
						c, fst := q.FindPath(m.ref[0], m.ref[0], m.g.center(0), m.g.center(0), detour.NewStandardQueryFilter(), path)
						e.Assert(detour.StatusSucceed(fst) && c == 1 && path[0] == m.ref[0], "query-use", "query with %d nodes: trivial path gives %x", n, uint32(fst))
						c, fst = q.FindPath(m.ref[0], m.ref[2], m.g.center(0), m.g.center(2), detour.NewStandardQueryFilter(), path)
						if n >= 3 {
							e.Assert(detour.StatusSucceed(fst) && !detour.StatusDetail(fst, detour.PartialResult) && c == 3, "query-use", "query with %d nodes: path of 3 polygons gives %x, %d polygons", n, uint32(fst), c)
						}
						e.Assert(q.NodePool().MaxNodes() == n, "query-nodes", "node pool has %d nodes, asked %d", q.NodePool().MaxNodes(), n)
					}
					e.Trace()
				}})
			return out
		},
	})
}

func runRefused(e *hx.Env, w *tileWorld, ops []int, tight bool) {
	nav := w.newMesh()
	K := len(w.defs)
	refs := make([]detour.TileRef, K)
	var dead []detour.TileRef
	set := 0
	n := 0
	refuse := func(what string, add bool, data []byte, ref detour.TileRef) {
		before := snapshot(nav)
		e.Step(1)
		e.Note("ops %v loaded {%s}: %s", ops, w.bitKey(set), what)
		var st detour.Status
		var r detour.TileRef
		if add {
			st, r = nav.AddTile(data, ref)
		} else {
			var d []byte
			d, st = nav.RemoveTile(ref)
			if detour.StatusFailed(st) && d != nil {
				e.Failf("refused-data/"+what, "%s returns data", what)
			}
		}
		e.Outcome(what)
		if !detour.StatusFailed(st) || detour.StatusSucceed(st) {
			e.Failf("refused-status/"+what, "loaded {%s}: %s is not refused: status %x ref %x", w.bitKey(set), what, uint32(st), uint32(r))
		}
		if r != 0 {
			e.Failf("refused-ref/"+what, "loaded {%s}: %s returns reference %x", w.bitKey(set), what, uint32(r))
		}
		if !bytes.Equal(before, snapshot(nav)) {
			e.Failf("refused-change/"+what, "loaded {%s}: refused %s changed the mesh", w.bitKey(set), what)
		}
	}
	for _, k := range ops {
		if set&(1<<uint(k)) == 0 {
			if n == w.maxTiles {
				e.Skip("history needs more slots")
			}
			n++
		} else {
			n--
			dead = append(dead, refs[k])
		}
		set = w.toggle(e, nav, refs, set, k)
	}
	for k := 0; k < K; k++ {
		if set&(1<<uint(k)) != 0 {
			refuse("occupied position", true, w.data[k], 0)
			if len(dead) > 0 {
				refuse("occupied position with former reference", true, w.data[k], dead[0])
			}
			for j := 0; j < K; j++ {
				if set&(1<<uint(j)) == 0 {
					refuse("requested slot in use", true, w.data[j], refs[k])
					slot, _, _ := slotOf(nav, refs[k])
					for n, r := range dead {
						if s, _, _ := slotOf(nav, r); s == slot && r != refs[k] && n < 3 {
							refuse("requested slot in use under another reference", true, w.data[j], r)
						}
					}
				}
			}
		} else {
			if n == w.maxTiles {
				refuse("no free slot", true, w.data[k], 0)
			}
			for off := 0; off < 4; off++ {
				refuse("bad magic", true, corrupt(w.data[k], off, 1), 0)
				refuse("bad version", true, corrupt(w.data[k], 4+off, 1), 0)
			}
			// incomplete data, and headers that announce more than there is
			whole := w.data[k]
			for cut := 0; cut < len(whole); cut++ {
				if len(ops) > 1 && cut != 0 && cut != 99 && cut != 100 && cut != len(whole)-1 {
					continue
				}
				refuse("incomplete data", true, whole[:cut:cut], 0)
			}
			for field := 24; field <= 52 && len(ops) <= 2; field += 4 {
				for _, d := range []uint32{0x80000000, 0xffffffff, 0x7fffffff} {
					big := append([]byte(nil), whole...)
					binary.LittleEndian.PutUint32(big[field:], d)
					refuse("header announcing more than there is", true, big, 0)
				}
			}
			// references whose slot number is outside the mesh
			pb, tb := 0, 0
			for 1<<uint(pb) < w.maxPolys {
				pb++
			}
			for 1<<uint(tb) < w.maxTiles {
				tb++
			}
			// more polygons than a reference can name
			for _, d := range []int{1, 2, 1 << uint(30-pb)} {
				big := append([]byte(nil), w.data[k]...)
				binary.LittleEndian.PutUint32(big[24:], uint32(d<<uint(pb)))
				if d == 1 {
					big[24]++
				}
				refuse("too many polygons", true, big, 0)
			}
			for s := w.maxTiles; s < 1<<uint(tb); s++ {
				refuse("requested slot outside", true, w.data[k], detour.TileRef(1<<uint(tb+pb)|s<<uint(pb)))
				refuse("remove outside", false, nil, detour.TileRef(1<<uint(tb+pb)|s<<uint(pb)))
			}
		}
	}
	refuse("remove zero", false, nil, 0)
	live := map[detour.TileRef]bool{}
	for k := 0; k < K; k++ {
		if set&(1<<uint(k)) != 0 {
			live[refs[k]] = true
		}
	}
	for _, r := range dead {
		if !live[r] {
			refuse("remove stale", false, nil, r)
		}
	}
	// a free slot under its current generation
	for i := range nav.Tiles {
		if nav.Tiles[i].Header == nil {
			refuse("remove free slot", false, nil, nav.TileRef(&nav.Tiles[i]))
		}
	}
	w.compare(e, nav, set)
	e.Trace()
	if e.WantSample() {
		e.Sample("%s ops %v loaded {%s}: all refused operations fail and change nothing", w.name, ops, w.bitKey(set))
	}
}
