package checks

import (
	"fmt"
	"os"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C34: tiled builds

// quiet runs f with the standard output turned off.
func quiet(f func()) {
	old := os.Stdout
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
		defer func() { os.Stdout = old; n.Close() }()
	}
	f()
}

func (w *bworld) tiledBuilder(e *hx.Env) *tilemesh.TileMesh {
	b := tilemesh.New(recast.NewBuildContext(false))
	b.SetSettings(w.settings())
	if err := b.LoadGeometry(strings.NewReader(w.obj())); err != nil {
		e.Failf("load", "%v: the geometry is refused: %v", w, err)
	}
	w.volumes(b.InputGeom())
	return b
}

func (w *bworld) buildTiled(e *hx.Env) (*tilemesh.TileMesh, *detour.NavMesh) {
	b := w.tiledBuilder(e)
	var nav *detour.NavMesh
	ok := false
	if msg := try(func() { nav, ok = b.Build() }); msg != nil {
		e.Failf("panic", "%v: the tiled Build crashes: %v", w, msg)
	}
	if !ok || nav == nil {
		e.Failf("nomesh", "%v: the tiled build fails", w)
	}
	return b, nav
}

// tileSet describes the loaded tiles: their data and where they are.
func tileSet(nav *detour.NavMesh) (out []string) {
	for i := range nav.Tiles {
		t := &nav.Tiles[i]
		if t.Header == nil {
			continue
		}
		h := hx.NewHash()
		h.S(string(t.Data))
		out = append(out, fmt.Sprintf("tile %d,%d,%d %d bytes %x", t.Header.X, t.Header.Y, t.Header.Layer, len(t.Data), uint64(h)))
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return
}

// tilePos is a position inside tile k (its middle, or close to a corner).
func (w *bworld) tilePos(k, where int) d3.Vec3 {
	tw, _ := w.tileCount()
	ts := float64(w.set.TileSize)
	f := [][2]float64{{0.5, 0.5}, {0.02, 0.02}, {0.98, 0.97}}[where]
	return w.pos((float64(k%tw)+f[0])*ts, 0, (float64(k/tw)+f[1])*ts)
}

func (w *bworld) tileCount() (int, int) {
	ts := int(w.set.TileSize)
	return (w.W() + ts - 1) / ts, (w.H() + ts - 1) / ts
}

// tileHistories runs every history of tile builds, tile removals, full builds
// and changes of the input (pairs of worlds) up to a depth.
func tileHistories(name string, mk func() [][2]*bworld, depth int) hx.Space {
	ws := mk()
	tw, th := ws[0][0].tileCount()
	n := tw * th
	alphabet := 2*n + 2
	per := hx.Pow(alphabet, depth)
	type cache struct {
		data  [2]map[[2]int32][]byte // tile data of a full build of either world
		fresh map[int][]string       // per state of all tiles (base 3)
	}
	caches := make([]*cache, len(ws))
	return hx.Space{Name: name, N: int64(len(ws)) * per * 2, Batch: 16,
		Bound: fmt.Sprintf("every history of %d tile builds, tile removals, full builds and changes of the input on the %d tiles of %d pairs of worlds (all shorter ones as prefixes), starting from a full build and from an empty mesh", depth, n, len(ws)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			wi := d.Next(len(ws))
			empty := d.Next(2) == 1
			pair := ws[wi]
			w := pair[0]
			c := caches[wi]
			if c == nil {
				c = &cache{fresh: map[int][]string{}}
				for v := range pair {
					c.data[v] = map[[2]int32][]byte{}
					_, nav := pair[v].buildTiled(e)
					for k := range nav.Tiles {
						if h := nav.Tiles[k].Header; h != nil {
							c.data[v][[2]int32{h.X, h.Y}] = append([]byte(nil), nav.Tiles[k].Data...)
						}
					}
				}
				caches[wi] = c
			}
			state := make([]int, n) // 0: not loaded, else 1 + world
			code := func() (k int) {
				for _, s := range state {
					k = k*3 + s
				}
				return
			}
			want := func() []string {
				if s, ok := c.fresh[code()]; ok {
					return s
				}
				_, ref := w.buildTiled(e)
				var nav detour.NavMesh
				prm := ref.Params
				if st := nav.Init(&prm); detour.StatusFailed(st) {
					e.Failf("init", "%v: Init fails", w)
				}
				for k, s := range state {
					if s == 0 {
						continue
					}
					if data := c.data[s-1][[2]int32{int32(k % tw), int32(k / tw)}]; data != nil {
						if st, _ := nav.AddTile(append([]byte(nil), data...), 0); detour.StatusFailed(st) {
							e.Failf("add", "%v: AddTile fails", w)
						}
					}
				}
				s := append(append(tileSet(&nav), connectivity(&nav)...), " ")
				c.fresh[code()] = s
				return s
			}
			b, nav := w.buildTiled(e)
			cur := 0
			for k := range state {
				state[k] = 1
			}
			var log []string
			if empty {
				for k := 0; k < n; k++ {
					b.RemoveTile(w.tilePos(k, 0))
					state[k] = 0
				}
				log = append(log, "remove all")
			}
			for s := 0; s < depth; s++ {
				op := d.Next(alphabet)
				k := op / 2
				where := (s + k) % 3
				what := ""
				quiet(func() {
					if msg := try(func() {
						switch {
						case op == 2*n:
							what = "change the input"
							cur = 1 - cur
							b.SetSettings(pair[cur].settings())
							if err := b.LoadGeometry(strings.NewReader(pair[cur].obj())); err != nil {
								e.Failf("load", "%v: the geometry is refused: %v", pair[cur], err)
							}
							pair[cur].volumes(b.InputGeom())
						case op == 2*n+1:
							what = "full build"
							m, ok := b.Build()
							if !ok || m == nil {
								e.Failf("nomesh", "%v: after %v: the full build fails", w, log)
							}
							nav = m
							for k := range state {
								state[k] = 1 + cur
							}
						case op%2 == 0:
							what = fmt.Sprintf("build tile %d", k)
							b.BuildTile(w.tilePos(k, where))
							state[k] = 1 + cur
						default:
							what = fmt.Sprintf("remove tile %d", k)
							b.RemoveTile(w.tilePos(k, where))
							state[k] = 0
						}
					}); msg != nil {
						e.Failf("panic", "%v (and %v): after %v: %s crashes: %v", w, pair[1], log, what, msg)
					}
				})
				log = append(log, what)
				e.Step(1)
				if s < depth-1 && !lastOps(i, alphabet, len(ws)*2, s, depth) {
					continue // judged by the history that goes on with the first operation
				}
				e.Eval(1)
				got := append(append(tileSet(nav), connectivity(nav)...), " ")
				if exp := want(); !eqStrings(got, exp) {
					e.Failf("history", "%v (and %v): after a full build, %v: the mesh differs from one with freshly built tiles %v: %s", w, pair[1], log, state, diffStrings(got, exp))
				}
				h := hx.NewHash()
				for _, s := range got {
					h.S(s)
				}
				e.State(uint64(h))
			}
			for k := 0; k < n; k++ {
				x, z := b.TilePos(w.tilePos(k, k%3))
				if int(x) != k%tw || int(z) != k/tw {
					e.Failf("tilepos", "%v: TilePos of a point in tile %d,%d is %d,%d", w, k%tw, k/tw, x, z)
				}
			}
			cnt := 0
			for _, s := range state {
				if s != 0 {
					cnt++
				}
			}
			e.Outcome("tiles present at the end: %d", cnt)
			e.Trace()
		}}
}

// lastOps tells if all operations after step s are the first of the alphabet,
// so that every prefix is judged in exactly one history.
func lastOps(i int64, alphabet, skip, s, depth int) bool {
	i /= int64(skip)
	for k := 0; k <= s; k++ {
		i /= int64(alphabet)
	}
	return i == 0
}

// tiledVersusSolo builds a world in tiles and in one go.
func (w *bworld) tiledVersusSolo(e *hx.Env, sizes []int) {
	for _, ts := range sizes {
		w.set.TileSize = float32(ts)
		w.tiled = true
		b, nav := w.buildTiled(e)
		some := false
		tw, th := w.tileCount()
		for k := 0; k < tw*th; k++ {
			for where := 0; where < 3; where++ {
				p := w.tilePos(k, where)
				x, y := b.TilePos(p)
				nx, ny := nav.CalcTileLoc(p)
				if int(x) != k%tw || int(y) != k/tw || nx != x || ny != y {
					e.Failf("tilepos", "%v: the place %v in tile %d,%d is in tile %d,%d for the builder, %d,%d for the mesh", w, p, k%tw, k/tw, x, y, nx, ny)
				}
			}
		}
		for i := range nav.Tiles {
			t := &nav.Tiles[i]
			if t.Header == nil {
				continue
			}
			some = true
			h := t.Header
			if h.X < 0 || h.Y < 0 || int(h.X) >= tw || int(h.Y) >= th {
				e.Failf("tile", "%v: there is a tile at %d,%d", w, h.X, h.Y)
			}
			lo, hi := w.pos(float64(int(h.X)*ts), -0.5, float64(int(h.Y)*ts)), w.pos(float64((int(h.X)+1)*ts), 0, float64((int(h.Y)+1)*ts))
			for k := 0; k < int(h.VertCount); k++ {
				v := t.Verts[3*k:]
				eps := float32(1e-3)
				if v[0] < lo[0]-eps || v[2] < lo[2]-eps || v[0] > hi[0]+eps || v[2] > hi[2]+eps {
					e.Failf("bounds", "%v: tile %d,%d has the vertex %v, outside of its area %v-%v", w, h.X, h.Y, v[:3], lo, hi)
				}
			}
			if !near3(h.BMin[:], []float32{lo[0], h.BMin[1], lo[2]}, 1e-3) || !near3(h.BMax[:], []float32{hi[0], h.BMax[1], hi[2]}, 1e-3) {
				e.Failf("bounds", "%v: tile %d,%d has bounds %v-%v instead of %v-%v", w, h.X, h.Y, h.BMin, h.BMax, lo, hi)
			}
		}
		if !some {
			g := w.graph(false, 0)
			for i := range g.ok {
				if g.ok[i] && g.size[g.comp[i]] > 8 {
					e.Failf("nomesh", "%v: no tiles although there is something to walk on", w)
				}
			}
			e.Outcome("nothing to walk on")
			continue
		}
		if msg := mutualLinks(nav); msg != "" {
			e.Failf("links", "%v: %s", w, msg)
		}
		w.judgeMesh(e, nav, " built in tiles")
		h := hx.NewHash()
		for _, s := range tileSet(nav) {
			h.S(s)
		}
		e.State(uint64(h))
		e.Outcome("%dx%d tiles", tw, th)
		if e.WantSample() {
			e.Sample("%v: tiles %v", w, tileSet(nav))
		}
	}
}

func tiledFamilies(th bool) []bfamily {
	std := bagent{10, 4, 1, 40}
	tri := func(s *recast.BuildSettings) { s.VertsPerPoly, s.EdgeMaxError, s.DetailSampleDist = 3, 0.8, 2 }
	out := []bfamily{
		{name: "levels", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bFloor3, bFloor6, bRamp}, agent: std},
		{name: "walls", w: 2, h: 2, B: 12, kinds: []int{bFloor0, bWall, bDoor, bNarrow, bWallZ, bHole}, agent: std, orig: [3]float32{-7.5, 3, 11}},
		{name: "storeys", w: 2, h: 2, B: 12, kinds: []int{bFloor0, bLow, bBridge, bFloor18, bSteep, bWater}, agent: bagent{10, 4, 1, 55}, set: tri},
		{name: "areas", w: 3, h: 1, B: 12, kinds: []int{bFloor0, bWater, bRoad, bGrass, bGate, bJump, bOdd, bFord, bFlood, bUnder}, agent: std, orig: [3]float32{-7.5, 0.3, 11}},
		{name: "many triangles", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bMosaic, bCliff, bSlope, bJump}, agent: std},
		{name: "row", w: 4, h: 1, B: 12, kinds: []int{bFloor0, bFloor3, bFloor6, bRamp, bWallZ, bWater}, agent: std, cs: 0.25, ch: 0.15},
		{name: "wide agent", w: 2, h: 1, B: 16, kinds: []int{bHole, bFloor0, bFloor3, bDoor, bNarrow, bPillar, bWallZ, bWater}, agent: bagent{8, 3, 2, 40}, cs: 0.25, ch: 0.15},
	}
	if th {
		out = append(out,
			bfamily{name: "levels 3x2", w: 3, h: 2, B: 12, kinds: []int{bHole, bFloor0, bFloor3, bFloor6, bRamp}, agent: std},
			bfamily{name: "storeys 3x2", w: 3, h: 2, B: 12, kinds: []int{bFloor0, bLow, bBridge, bFloor18, bSteep}, agent: std, set: tri},
			bfamily{name: "areas 2x2", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bWater, bRoad, bGrass, bGate, bJump, bOdd, bFord, bFlood, bUnder}, agent: bagent{9, 4, 2, 55}},
			bfamily{name: "mixed", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bFloor3, bFloor6, bLow, bBridge, bFloor18, bWall, bDoor, bRamp, bSteep, bWater}, agent: bagent{5, 6, 0, 40}},
		)
	}
	return out
}

func init() {
	hx.Register(&hx.Check{
		ID: "C34", Level: "model_checking",
		Rule:        "tiled builds of every block world of several families with several tile sizes, judged by the same voxel oracles as the one-shot builds; every history of single-tile builds and removals on several worlds, compared (tile data, all links) with a fresh full build without the removed tiles; non-trivial: at least one walkable place",
		Assumptions: []string{"places whose state depends on rounding by a voxel are not judged", "tile positions inside the world"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			sizes := []int{8, 13, 16, 24}
			if th {
				sizes = []int{8, 11, 13, 14, 16, 20, 24, 40}
			}
			for _, f := range tiledFamilies(th) {
				f := f
				out = append(out, hx.Space{Name: f.name, N: f.count(), Batch: 4, Bound: fmt.Sprintf("%s, tile sizes %v", f.bound(), sizes), Run: func(e *hx.Env, i int64) {
					f.world(i).tiledVersusSolo(e, sizes)
					e.Trace()
				}})
			}
			mk := func(ts float32, kinds ...[2][]int) func() [][2]*bworld {
				return func() (ws [][2]*bworld) {
					for n, k := range kinds {
						var p [2]*bworld
						for v := range p {
							w := &bworld{w: 2, h: 2, B: 12, kinds: k[v], agent: bagent{10, 4, 1, 40}, set: baseSettings(0.3, 0.2)}
							w.set.TileSize = ts
							if v == 1 && n%2 == 1 { // the settings change, too
								w.set.VertsPerPoly, w.set.DetailSampleDist, w.set.EdgeMaxError = 3, 0, 0.5
								w.agent = bagent{9, 2, 2, 50}
							}
							p[v] = w
						}
						ws = append(ws, p)
					}
					return
				}
			}
			four := mk(14,
				[2][]int{{bFloor0, bFloor0, bFloor0, bFloor0}, {bFloor3, bHole, bFloor0, bPillar}},
				[2][]int{{bFloor0, bFloor3, bRamp, bBridge}, {bFloor0, bFloor3, bRamp, bBridge}},
				[2][]int{{bHole, bFloor3, bFloor0, bWall}, {bWater, bFloor6, bHole, bDoor}})
			nine := mk(10, [2][]int{{bFloor0, bFloor3, bFloor0, bPillar}, {bWater, bFloor0, bFloor0, bHole}})
			depth := 3
			if th {
				depth = 4
			}
			out = append(out, tileHistories("histories of 4 tiles", four, depth), tileHistories("histories of 9 tiles", nine, depth-1), denseGeometry())
			return out
		},
	})
}
