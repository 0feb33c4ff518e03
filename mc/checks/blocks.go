package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- block worlds: input geometry for whole builds, and what an agent can
// reach in them, decided from their definition

// kinds of blocks
const (
	bHole = iota
	bFloor0
	bFloor3 // a step above floor0
	bFloor6 // a step above floor3, two steps above floor0
	bLow    // floor0 under a ceiling that is too low; the ceiling is level with floor6
	bBridge // floor0 with a floor18 above it
	bFloor18
	bWall   // floor0, divided by a wall along x
	bDoor   // a wall with a gap the agent fits through
	bNarrow // a wall with a gap that is too narrow
	bRamp   // rises along x from 0 to 6
	bSteep  // rises along x from 0 to 18
	bWater  // floor0 marked as water
	bWallZ  // floor0, divided by a wall along z
	bPillar // floor0 with a pillar in its middle
	bRoad   // floor0 marked as road, grass, a door and a jump
	bGrass
	bGate
	bJump
	bOdd    // floor0 marked with a type that has no meaning
	bFord   // floor0 marked as water, the near half of it marked as road afterwards
	bFlood  // floor0 of which the near half is marked as road, and all of it as water afterwards
	bUnder  // a bridge over water
	bMosaic // floor0 made of many triangles
	bCliff  // steep, made of many triangles
	bSlope  // a ramp made of many triangles
)

var blockNames = []string{"hole", "floor0", "floor3", "floor6", "low", "bridge", "floor18", "wall", "door", "narrow", "ramp", "steep", "water", "wallz", "pillar", "road", "grass", "gate", "jump", "odd", "ford", "flood", "water under a bridge", "tiled floor", "cliff", "tiled ramp"}

const (
	bMargin = 2 // empty voxels around the world
	bHigh   = 18
)

type bagent struct {
	height, climb, radius int     // in voxels
	slope                 float32 // degrees
}

func (a bagent) String() string {
	return fmt.Sprintf("agent of height %d climb %d radius %d slope %v", a.height, a.climb, a.radius, a.slope)
}

type bworld struct {
	w, h  int // blocks
	B     int // voxels per block
	kinds []int
	agent bagent
	set   recast.BuildSettings
	orig  [3]float32
	tiled bool // it is judged as a tiled build
}

func (w *bworld) String() string {
	var s []string
	for _, k := range w.kinds {
		s = append(s, blockNames[k])
	}
	return fmt.Sprintf("%dx%d blocks of %d voxels [%s], %v, cell %v/%v, region sizes %v/%v, edge length %v, edge error %v, %v vertices, detail %v/%v, tile size %v", w.w, w.h, w.B, strings.Join(s, " "), w.agent, w.set.CellSize, w.set.CellHeight, w.set.RegionMinSize, w.set.RegionMergeSize, w.set.EdgeMaxLen, w.set.EdgeMaxError, w.set.VertsPerPoly, w.set.DetailSampleDist, w.set.DetailSampleMaxError, w.set.TileSize)
}

// settings gives the build settings for the agent.
func (w *bworld) settings() recast.BuildSettings {
	s := w.set
	s.AgentHeight = (float32(w.agent.height) - 0.5) * s.CellHeight
	s.AgentMaxClimb = (float32(w.agent.climb) + 0.5) * s.CellHeight
	s.AgentRadius = (float32(w.agent.radius) - 0.5) * s.CellSize
	if w.agent.radius == 0 {
		s.AgentRadius = 0
	}
	s.AgentMaxSlope = w.agent.slope
	return s
}

func baseSettings(cs, ch float32) recast.BuildSettings {
	s := solomesh.DefaultSettings()
	s.CellSize, s.CellHeight = cs, ch
	s.RegionMinSize = 0
	s.TileSize = 16
	return s
}

func (w *bworld) W() int { return w.w*w.B + 2*bMargin }
func (w *bworld) H() int { return w.h*w.B + 2*bMargin }

// pos is the world position of a point in voxels; heights are those of the
// surface of a floor at that level.
func (w *bworld) pos(x, y, z float64) d3.Vec3 {
	return d3.Vec3{w.orig[0] + float32(x)*w.set.CellSize, w.orig[1] + float32(y+0.5)*w.set.CellHeight, w.orig[2] + float32(z)*w.set.CellSize}
}

func (w *bworld) narrow() int { return 2 * w.agent.radius }
func (w *bworld) door() int   { return 2*w.agent.radius + 4 }

// obj is the geometry as an OBJ document.
func (w *bworld) obj() string {
	var sb strings.Builder
	n := 0
	vert := func(x, y, z float64) {
		p := w.pos(x, y, z)
		fmt.Fprintf(&sb, "v %.5f %.5f %.5f\n", p[0], p[1], p[2])
		n++
	}
	// a quad, counted so that it faces up for x0<x1, z0<z1
	quad := func(a, b, c, d [3]float64) {
		for _, p := range [][3]float64{a, b, c, d} {
			vert(p[0], p[1], p[2])
		}
		fmt.Fprintf(&sb, "f %d %d %d\nf %d %d %d\n", n-3, n-2, n-1, n-3, n-1, n)
	}
	flat := func(x0, z0, x1, z1, y0, y1 float64) {
		quad([3]float64{x0, y0, z0}, [3]float64{x0, y0, z1}, [3]float64{x1, y1, z1}, [3]float64{x1, y1, z0})
	}
	// anchors fix the bounds, so that voxels are where they are meant to be
	W, H := float64(w.W()), float64(w.H())
	vert(0, -0.5, 0)
	vert(0.2, -0.5, 0)
	vert(0, 0.3, 0)
	fmt.Fprintf(&sb, "f 1 2 3\n")
	vert(W, -0.5, H)
	vert(W-0.2, -0.5, H)
	vert(W, 40, H)
	fmt.Fprintf(&sb, "f 4 5 6\n")
	for i, k := range w.kinds {
		x0, z0 := float64(bMargin+i%w.w*w.B), float64(bMargin+i/w.w*w.B)
		x1, z1 := x0+float64(w.B), z0+float64(w.B)
		in := 0.25
		floor := func(y float64) { flat(x0+in, z0+in, x1-in, z1-in, y, y) }
		mid := float64(w.B/2) + 0.5
		wallX := func(a, b float64) {
			if b > a {
				quad([3]float64{a, 0, z0 + mid}, [3]float64{b, 0, z0 + mid}, [3]float64{b, 14, z0 + mid}, [3]float64{a, 14, z0 + mid})
			}
		}
		gap := func(g int) {
			a := float64((w.B - g) / 2)
			wallX(x0+in, x0+a-in)
			wallX(x0+a+float64(g)+in, x1-in)
		}
		switch k {
		case bFloor0, bWater, bRoad, bGrass, bGate, bJump, bOdd, bFord, bFlood:
			floor(0)
		case bFloor3:
			floor(3)
		case bFloor6:
			floor(6)
		case bFloor18:
			floor(bHigh)
		case bLow:
			floor(0)
			floor(6)
		case bMosaic, bCliff, bSlope:
			rise := map[int]float64{bMosaic: 0, bCliff: bHigh, bSlope: 6}[k]
			n := float64(w.B)
			size := (x1 - x0 - 2*in) / n
			for a := 0.0; a < n; a++ {
				for b := 0.0; b < n; b++ {
					flat(x0+in+b*size, z0+in+a*size, x0+in+(b+1)*size, z0+in+(a+1)*size, rise*b/n, rise*(b+1)/n)
				}
			}
		case bBridge, bUnder:
			floor(0)
			floor(bHigh)
		case bWall:
			floor(0)
			wallX(x0+in, x1-in)
		case bDoor:
			floor(0)
			gap(w.door())
		case bNarrow:
			floor(0)
			gap(w.narrow())
		case bWallZ:
			floor(0)
			quad([3]float64{x0 + mid, 0, z0 + in}, [3]float64{x0 + mid, 0, z1 - in}, [3]float64{x0 + mid, 14, z1 - in}, [3]float64{x0 + mid, 14, z0 + in})
		case bPillar:
			floor(0)
			a, b := mid-0.3, mid+0.3
			quad([3]float64{x0 + a, 0, z0 + mid}, [3]float64{x0 + b, 0, z0 + mid}, [3]float64{x0 + b, 14, z0 + mid}, [3]float64{x0 + a, 14, z0 + mid})
		case bRamp:
			flat(x0+in, z0+in, x1-in, z1-in, 0, 6)
		case bSteep:
			flat(x0+in, z0+in, x1-in, z1-in, 0, bHigh)
		}
	}
	return sb.String()
}

// mark is a volume over a part of a block, at its lowest level.
type bmark struct {
	area int
	half bool // only the near half
}

// marks lists the volumes of a block, in their order.
func marks(kind int) []bmark {
	switch kind {
	case bWater, bUnder:
		return []bmark{{sample.PolyAreaWater, false}}
	case bRoad:
		return []bmark{{sample.PolyAreaRoad, false}}
	case bGrass:
		return []bmark{{sample.PolyAreaGrass, false}}
	case bGate:
		return []bmark{{sample.PolyAreaDoor, false}}
	case bJump:
		return []bmark{{sample.PolyAreaJump, false}}
	case bOdd:
		return []bmark{{42, false}}
	case bFord:
		return []bmark{{sample.PolyAreaWater, false}, {sample.PolyAreaRoad, true}}
	case bFlood:
		return []bmark{{sample.PolyAreaRoad, true}, {sample.PolyAreaWater, false}}
	}
	return nil
}

// areaFlags is what the flags of a polygon say about its area.
func areaFlags(area int) uint16 {
	switch area {
	case sample.PolyAreaGround, sample.PolyAreaGrass, sample.PolyAreaRoad:
		return sample.PolyFlagsWalk
	case sample.PolyAreaWater:
		return sample.PolyFlagsSwim
	case sample.PolyAreaDoor:
		return sample.PolyFlagsWalk | sample.PolyFlagsDoor
	}
	return 0
}

// volumes marks the areas in the geometry.
func (w *bworld) volumes(g *recast.InputGeom) {
	for i, k := range w.kinds {
		for _, m := range marks(k) {
			x0, z0 := float64(bMargin+i%w.w*w.B), float64(bMargin+i/w.w*w.B)
			x1, z1 := x0+float64(w.B), z0+float64(w.B)
			if m.half {
				z1 = z0 + float64(w.B/2)
			}
			var v []float32
			for _, p := range [][2]float64{{x0, z0}, {x0, z1}, {x1, z1}, {x1, z0}} {
				v = append(v, w.pos(p[0], 0, p[1])...)
			}
			g.AddConvexVolume(v, w.orig[1]-1, w.orig[1]+1, uint8(m.area))
		}
	}
}

// ---- the definition of what is walkable

type bcell struct {
	top, bottom int
	floor       bool // may be stood on, as far as its slope is concerned
	ramp        bool
	area        int
}

// columns lists the surfaces in every voxel column, from below.
func (w *bworld) columns() [][]bcell {
	out := make([][]bcell, w.W()*w.H())
	for i, k := range w.kinds {
		for dz := 0; dz < w.B; dz++ {
			for dx := 0; dx < w.B; dx++ {
				c := &out[bMargin+i%w.w*w.B+dx+(bMargin+i/w.w*w.B+dz)*w.W()]
				fl := func(y int) {
					cell := bcell{top: y, bottom: y, floor: true}
					for _, m := range marks(k) {
						if y == 0 && (!m.half || dz < w.B/2) {
							cell.area = m.area
						}
					}
					*c = append(*c, cell)
				}
				wall := func() { *c = append(*c, bcell{top: 14, bottom: 0}) }
				inGap := func(g int) bool { a := (w.B - g) / 2; return dx >= a && dx < a+g }
				switch k {
				case bFloor0, bWater, bRoad, bGrass, bGate, bJump, bOdd, bFord, bFlood, bMosaic:
					fl(0)
				case bFloor3:
					fl(3)
				case bFloor6:
					fl(6)
				case bFloor18:
					fl(bHigh)
				case bLow:
					fl(0)
					fl(6)
				case bBridge, bUnder:
					fl(0)
					fl(bHigh)
				case bWall, bDoor, bNarrow:
					if dz == w.B/2 && (k == bWall || k == bDoor && !inGap(w.door()) || k == bNarrow && !inGap(w.narrow())) {
						wall()
					} else {
						fl(0)
					}
				case bWallZ:
					if dx == w.B/2 {
						wall()
					} else {
						fl(0)
					}
				case bPillar:
					if dx == w.B/2 && dz == w.B/2 {
						wall()
					} else {
						fl(0)
					}
				case bRamp, bSteep, bCliff, bSlope:
					rise, run := 6.0, float64(w.B)-0.5
					if k == bSteep || k == bCliff {
						rise = bHigh
					}
					at := func(x float64) float64 { return 0.5 + rise*math.Max(0, math.Min(1, (x-0.25)/run)) }
					angle := math.Atan2(rise*float64(w.set.CellHeight), run*float64(w.set.CellSize)) * 180 / math.Pi
					*c = append(*c, bcell{top: int(math.Floor(at(float64(dx + 1)))), bottom: int(math.Floor(at(float64(dx)))), floor: angle <= float64(w.agent.slope), ramp: true})
				}
			}
		}
	}
	return out
}

type bgraph struct {
	w     *bworld
	cols  [][]bcell
	start []int // index of the first cell of a column
	cells []bcell
	at    [][2]int
	ok    []bool
	adj   [][4]int // neighbour per direction, or -1
	comp  []int
	size  map[int]int
}

// graph is the voxel graph of what the agent can use. The lower graph leaves
// out everything that rounding might take away, the upper graph leaves in
// everything that rounding might add. Only areas with one of the flags count
// (all areas if there are none).
func (w *bworld) graph(upper bool, include uint16) *bgraph {
	g := &bgraph{w: w, cols: w.columns()}
	W, H := w.W(), w.H()
	g.start = make([]int, W*H+1)
	for k, c := range g.cols {
		g.start[k] = len(g.cells)
		for range c {
			g.at = append(g.at, [2]int{k % W, k / W})
		}
		g.cells = append(g.cells, c...)
	}
	g.start[W*H] = len(g.cells)
	n := len(g.cells)
	ceil := make([]int, n)
	g.ok = make([]bool, n)
	slack := 1
	if upper {
		slack = -1
	}
	for k := range g.cols {
		for i := g.start[k]; i < g.start[k+1]; i++ {
			ceil[i] = 1 << 20
			if i+1 < g.start[k+1] {
				ceil[i] = g.cells[i+1].bottom
			}
			g.ok[i] = g.cells[i].floor && ceil[i]-g.cells[i].top-1 >= w.agent.height+slack
		}
	}
	link := func(i, j int) bool {
		a, b := g.cells[i], g.cells[j]
		s := 0
		if a.ramp || b.ramp {
			s = slack
		}
		if abs(a.top-b.top) > w.agent.climb-s {
			return false
		}
		return min(ceil[i], ceil[j])-max(a.top, b.top)-1 >= w.agent.height+slack
	}
	compute := func() {
		g.adj = make([][4]int, n)
		for i := range g.adj {
			for d := 0; d < 4; d++ {
				g.adj[i][d] = -1
				if !g.ok[i] {
					continue
				}
				x, z := g.at[i][0]+[4]int{-1, 0, 1, 0}[d], g.at[i][1]+[4]int{0, 1, 0, -1}[d]
				if x < 0 || z < 0 || x >= W || z >= H {
					continue
				}
				for j := g.start[x+z*W]; j < g.start[x+z*W+1]; j++ {
					if g.ok[j] && link(i, j) {
						g.adj[i][d] = j
					}
				}
			}
		}
	}
	compute()
	rounds := w.agent.radius
	if !upper {
		rounds++
	}
	for r := 0; r < rounds; r++ {
		keep := make([]bool, n)
		for i := range keep {
			keep[i] = g.ok[i]
			for d := 0; d < 4 && keep[i]; d++ {
				j := g.adj[i][d]
				keep[i] = j >= 0 && (upper || g.adj[j][(d+1)%4] >= 0 && g.adj[j][(d+3)%4] >= 0)
			}
		}
		g.ok = keep
		compute()
	}
	if include != 0 {
		for i := range g.ok {
			g.ok[i] = g.ok[i] && areaFlags(g.cells[i].area)&include != 0
		}
		compute()
	}
	if w.tiled && !upper {
		// a tile may lose what is narrower than 3 voxels in it
		ts := int(w.set.TileSize)
		keep := make([]bool, n)
		step := func(i, d int) int {
			if i < 0 || g.adj[i][d] < 0 {
				return -1
			}
			j := g.adj[i][d]
			if g.at[i][0]/ts != g.at[j][0]/ts || g.at[i][1]/ts != g.at[j][1]/ts || g.cells[i].area != g.cells[j].area {
				return -1
			}
			return j
		}
		for i := range keep {
			block := []int{i}
			for d := 0; d < 4; d++ {
				j := step(i, d)
				block = append(block, j, step(j, (d+1)%4))
			}
			whole := g.ok[i]
			for _, j := range block {
				whole = whole && j >= 0
			}
			if whole {
				for _, j := range block {
					keep[j] = true
				}
			}
		}
		g.ok = keep
		compute()
	}
	// the loader connects the borders of tiles over twice the climb height, and
	// the outlines may be off by the error limit
	across := func(i int) (out []int) {
		if !w.tiled || !upper {
			return nil
		}
		ts := int(w.set.TileSize)
		for d := 0; d < 4; d++ {
			dx, dz := [4]int{-1, 0, 1, 0}[d], [4]int{0, 1, 0, -1}[d]
			x, z := g.at[i][0]+dx, g.at[i][1]+dz
			if x < 0 || z < 0 || x >= W || z >= H || x/ts == g.at[i][0]/ts && z/ts == g.at[i][1]/ts {
				continue
			}
			for o := -2; o <= 2; o++ {
				x, z := x+o*abs(dz), z+o*abs(dx)
				if x < 0 || z < 0 || x >= W || z >= H {
					continue
				}
				for j := g.start[x+z*W]; j < g.start[x+z*W+1]; j++ {
					if g.ok[j] && abs(g.cells[i].top-g.cells[j].top) <= 2*w.agent.climb+3 {
						out = append(out, j)
					}
				}
			}
		}
		return out
	}
	g.comp = make([]int, n)
	g.size = map[int]int{}
	for i := range g.comp {
		g.comp[i] = -1
	}
	for i := range g.comp {
		if !g.ok[i] || g.comp[i] >= 0 {
			continue
		}
		q := []int{i}
		g.comp[i] = i
		for len(q) > 0 {
			j := q[len(q)-1]
			q = q[:len(q)-1]
			g.size[i]++
			for _, k := range append(across(j), g.adj[j][:]...) {
				if k >= 0 && g.comp[k] < 0 {
					g.comp[k] = i
					q = append(q, k)
				}
			}
		}
	}
	return g
}

// near tells if a usable cell lies within d voxels of (x,z) (in voxels), at a
// height between lo and hi.
func (g *bgraph) near(x, z, d float64, lo, hi int) bool {
	W, H := g.w.W(), g.w.H()
	for cz := int(math.Floor(z - d)); cz <= int(math.Floor(z+d)); cz++ {
		for cx := int(math.Floor(x - d)); cx <= int(math.Floor(x+d)); cx++ {
			if cx < 0 || cz < 0 || cx >= W || cz >= H {
				continue
			}
			dx := math.Max(0, math.Max(float64(cx)-x, x-float64(cx+1)))
			dz := math.Max(0, math.Max(float64(cz)-z, z-float64(cz+1)))
			if math.Hypot(dx, dz) > d {
				continue
			}
			for i := g.start[cx+cz*W]; i < g.start[cx+cz*W+1]; i++ {
				if g.ok[i] && lo <= g.cells[i].top && g.cells[i].top <= hi {
					return true
				}
			}
		}
	}
	return false
}

// cell is the surface at a height in a column.
func (g *bgraph) cell(x, z, y int) int {
	k := x + z*g.w.W()
	for i := g.start[k]; i < g.start[k+1]; i++ {
		if abs(g.cells[i].top-y) <= 1 {
			return i
		}
	}
	return -1
}

type bplace struct {
	x, z int // voxel
	y    int
	low  int // cell in the lower graph, or -1
	up   int
	poly detour.PolyRef
	pt   d3.Vec3
}

// places are the points of interest: block centres (next to a wall that goes
// through the centre), on every level.
func (w *bworld) places() []bplace {
	var out []bplace
	for i, k := range w.kinds {
		x, z := bMargin+i%w.w*w.B+w.B/2, bMargin+i/w.w*w.B+w.B/2
		q := w.B / 4
		add := func(x, z, y int) { out = append(out, bplace{x: x, z: z, y: y, low: -1, up: -1}) }
		switch k {
		case bHole:
			add(x, z, 0)
		case bFloor0, bWater, bRoad, bGrass, bGate, bJump, bOdd, bMosaic:
			add(x, z, 0)
		case bFloor3:
			add(x, z, 3)
		case bFloor6:
			add(x, z, 6)
		case bFloor18:
			add(x, z, bHigh)
		case bLow:
			add(x, z, 0)
			add(x, z, 6)
		case bBridge, bUnder:
			add(x, z, 0)
			add(x, z, bHigh)
		case bWall, bDoor, bNarrow, bFord, bFlood:
			add(x, z-q, 0)
			add(x, z+q, 0)
		case bWallZ:
			add(x-q, z, 0)
			add(x+q, z, 0)
		case bPillar:
			add(x-q, z, 0)
			add(x+q, z+q, 0)
		case bRamp, bSlope:
			add(x, z, 3)
		case bSteep, bCliff:
			add(x, z, 9)
		}
	}
	return out
}

// judgeMesh checks reachability and paths in a mesh built from the world.
func (w *bworld) judgeMesh(e *hx.Env, nav *detour.NavMesh, how string) {
	all := uint16(sample.PolyFlagsAll)
	filter := detour.NewStandardQueryFilter()
	w.judgeWith(e, nav, how, filter, w.graph(false, all), w.graph(true, all))
	seen := map[int]bool{sample.PolyAreaGround: true}
	for _, k := range w.kinds {
		for _, m := range marks(k) {
			seen[m.area] = true
		}
	}
	if len(seen) == 1 {
		return
	}
	w.judgeAreas(e, nav, how, seen)
	for _, f := range []struct {
		flags uint16
		area  int
		name  string
	}{{sample.PolyFlagsWalk, sample.PolyAreaWater, ", walking only"}, {sample.PolyFlagsSwim, sample.PolyAreaWater, ", swimming only"}, {sample.PolyFlagsDoor, sample.PolyAreaDoor, ", doors only"}} {
		if !seen[f.area] {
			continue
		}
		filter := detour.NewStandardQueryFilter()
		filter.SetIncludeFlags(f.flags)
		w.judgeWith(e, nav, how+f.name, filter, w.graph(false, f.flags), w.graph(true, f.flags))
	}
}

// everyPoly is a filter that lets everything pass.
type everyPoly struct{}

func (everyPoly) PassFilter(detour.PolyRef, *detour.MeshTile, *detour.Poly) bool { return true }
func (everyPoly) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly, curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly, nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	return pa.Dist(pb)
}

// judgeAreas checks the area types and flags of the polygons.
func (w *bworld) judgeAreas(e *hx.Env, nav *detour.NavMesh, how string, seen map[int]bool) {
	for i := range nav.Tiles {
		t := &nav.Tiles[i]
		if t.Header == nil {
			continue
		}
		for k := range t.Polys[:t.Header.PolyCount] {
			p := &t.Polys[k]
			if a := int(p.Area()); !seen[a] || p.Flags != areaFlags(a) {
				e.Failf("flags", "%v%s: a polygon has the area type %d and the flags %x", w, how, a, p.Flags)
			}
		}
	}
	_, q := detour.NewNavMeshQuery(nav, 64)
	g := w.graph(false, 0)
	cs, ch := w.set.CellSize, w.set.CellHeight
	for _, p := range w.places() {
		c := g.cell(p.x, p.z, p.y)
		if c < 0 || !g.ok[c] || w.set.RegionMinSize > 0 {
			continue
		}
		pos := w.pos(float64(p.x)+0.5, float64(p.y)+0.5, float64(p.z)+0.5)
		st, ref, _ := q.FindNearestPoly(pos, d3.Vec3{cs * 0.5, ch * 3.2, cs * 0.5}, everyPoly{})
		e.Eval(1)
		if detour.StatusFailed(st) || ref == 0 {
			e.Failf("missing", "%v%s: there is no polygon at the place (%d,%d) level %d", w, how, p.x, p.z, p.y)
		}
		var tile *detour.MeshTile
		var poly *detour.Poly
		if st := nav.TileAndPolyByRef(ref, &tile, &poly); detour.StatusFailed(st) {
			e.Failf("ref", "%v%s: invalid reference %x", w, how, ref)
		}
		e.Outcome("area type %d", poly.Area())
		if int(poly.Area()) != g.cells[c].area {
			e.Failf("area", "%v%s: the polygon at the place (%d,%d) level %d has the area type %d instead of %d", w, how, p.x, p.z, p.y, poly.Area(), g.cells[c].area)
		}
	}
}

func (w *bworld) judgeWith(e *hx.Env, nav *detour.NavMesh, how string, filter detour.QueryFilter, lower, upper *bgraph) {
	_, q := detour.NewNavMeshQuery(nav, 2048)
	pl := w.places()
	cs, ch := float64(w.set.CellSize), float64(w.set.CellHeight)
	// small islands may be dropped
	minSize := 0
	if w.set.RegionMinSize > 0 {
		minSize = int(w.set.RegionMinSize*w.set.RegionMinSize) + 1
	}
	for k := range pl {
		p := &pl[k]
		if i := lower.cell(p.x, p.z, p.y); i >= 0 && lower.ok[i] && lower.size[lower.comp[i]] >= minSize {
			p.low = i
		}
		if i := upper.cell(p.x, p.z, p.y); i >= 0 && upper.ok[i] {
			p.up = i
		}
		pos := w.pos(float64(p.x)+0.5, float64(p.y)+0.5, float64(p.z)+0.5)
		st, ref, pt := q.FindNearestPoly(pos, d3.Vec3{float32(cs) * 0.5, float32(ch) * 3.2, float32(cs) * 0.5}, filter)
		e.Eval(1)
		if detour.StatusFailed(st) {
			ref = 0
		} else if ref != 0 && p.low < 0 && math.Hypot(float64(pt[0]-pos[0]), float64(pt[2]-pos[2])) > cs || ref != 0 && p.low < 0 && math.Abs(float64(pt[1]-pos[1])) > 4*ch {
			ref = 0 // only the bounds of the polygon come near
		}
		p.poly = ref
		p.pt = append(d3.Vec3{}, pt...)
		switch {
		case p.low >= 0 && ref == 0:
			e.Failf("missing", "%v%s: there is no polygon at the walkable place (%d,%d) level %d", w, how, p.x, p.z, p.y)
		case ref != 0 && !upper.near(float64(p.x)+0.5, float64(p.z)+0.5, float64(w.set.EdgeMaxError)+1, p.y-5, p.y+5):
			e.Failf("extra", "%v%s: there is a polygon at (%d,%d) level %d (nearest point %v to %v), where there is nothing to walk on", w, how, p.x, p.z, p.y, pt, pos)
		}
		if p.low >= 0 {
			e.Outcome("walkable place")
			if math.Hypot(float64(pt[0]-pos[0]), float64(pt[2]-pos[2])) > 0.01*cs {
				e.Failf("offset", "%v%s: the nearest point to the place (%d,%d) level %d is not above or below it: %v for %v", w, how, p.x, p.z, p.y, pt, pos)
			}
		} else if p.up < 0 {
			e.Outcome("place to avoid")
		}
	}
	path := make([]detour.PolyRef, 1024)
	for a := range pl {
		for b := range pl {
			if a == b || pl[a].low < 0 || pl[b].low < 0 {
				continue
			}
			A, B := &pl[a], &pl[b]
			n, st := q.FindPath(A.poly, B.poly, A.pt, B.pt, filter, path)
			e.Eval(1)
			e.Step(1)
			name := func() string {
				return fmt.Sprintf("%v%s: from (%d,%d) level %d to (%d,%d) level %d", w, how, A.x, A.z, A.y, B.x, B.z, B.y)
			}
			if detour.StatusFailed(st) || n == 0 {
				e.Failf("nopath", "%s: FindPath gives %d polygons, status %x", name(), n, uint32(st))
			}
			reached := path[n-1] == B.poly && !detour.StatusDetail(st, detour.PartialResult)
			switch {
			case lower.comp[A.low] == lower.comp[B.low] && !reached:
				e.Failf("unreached", "%s: no complete path, though the places are connected", name())
			case A.up >= 0 && B.up >= 0 && upper.comp[A.up] != upper.comp[B.up] && reached:
				e.Failf("reached", "%s: a complete path, though the places are not connected", name())
			}
			e.Outcome("reached: %v", reached)
			if !reached || b < a {
				continue
			}
			sp := make([]d3.Vec3, 256)
			for i := range sp {
				sp[i] = d3.NewVec3()
			}
			np, st := q.FindStraightPath(A.pt, B.pt, path[:n], sp, nil, nil, 0)
			if detour.StatusFailed(st) || np < 1 {
				e.Failf("straight", "%s: no straight path, status %x", name(), uint32(st))
			}
			for i := 0; i < np-1; i++ {
				u, v := sp[i], sp[i+1]
				steps := 1 + int(math.Hypot(float64(u[0]-v[0]), float64(u[2]-v[2]))/cs*2)
				for s := 0; s <= steps; s++ {
					f := float64(s) / float64(steps)
					x := (float64(u[0]) + f*float64(v[0]-u[0]) - float64(w.orig[0])) / cs
					z := (float64(u[2]) + f*float64(v[2]-u[2]) - float64(w.orig[2])) / cs
					if !upper.near(x, z, float64(w.set.EdgeMaxError)+0.3, -100, 100) {
						e.Failf("off", "%s: the straight path leaves the floor at voxel (%.2f,%.2f): %v", name(), x, z, sp[:np])
					}
				}
			}
		}
	}
}

func (w *bworld) buildSolo(e *hx.Env) *detour.NavMesh {
	b := solomesh.New(recast.NewBuildContext(false))
	b.SetSettings(w.settings())
	if err := b.LoadGeometry(strings.NewReader(w.obj())); err != nil {
		e.Failf("load", "%v: the geometry is refused: %v", w, err)
	}
	w.volumes(b.InputGeom())
	var nav *detour.NavMesh
	ok := false
	if msg := try(func() { nav, ok = b.Build() }); msg != nil {
		e.Failf("panic", "%v: Build crashes: %v", w, msg)
	}
	if !ok {
		return nil
	}
	return nav
}

// checkSolo builds a world in one go and judges it.
func (w *bworld) checkSolo(e *hx.Env) {
	nav := w.buildSolo(e)
	if nav == nil {
		g := w.graph(false, 0)
		for i := range g.ok {
			if g.ok[i] && g.size[g.comp[i]] > int(w.set.RegionMinSize*w.set.RegionMinSize)+8 {
				e.Failf("nomesh", "%v: the build fails although there is something to walk on", w)
			}
		}
		e.Outcome("nothing to walk on")
		return
	}
	w.judgeMesh(e, nav, "")
	e.State(hx.HB(nav.Tiles[0].Data))
	if e.WantSample() {
		e.Sample("%v: %d polygons", w, nav.Tiles[0].Header.PolyCount)
	}
}

type bfamily struct {
	name  string
	w, h  int
	B     int
	kinds []int
	agent bagent
	set   func(s *recast.BuildSettings)
	orig  [3]float32
	cs    float32
	ch    float32
}

func (f bfamily) count() int64 { return hx.Pow(len(f.kinds), f.w*f.h) }

func (f bfamily) world(i int64) *bworld {
	d := hx.NewDec(i)
	w := &bworld{w: f.w, h: f.h, B: f.B, agent: f.agent, orig: f.orig}
	cs, ch := f.cs, f.ch
	if cs == 0 {
		cs, ch = 0.3, 0.2
	}
	w.set = baseSettings(cs, ch)
	if f.set != nil {
		f.set(&w.set)
	}
	for k := 0; k < f.w*f.h; k++ {
		w.kinds = append(w.kinds, f.kinds[d.Next(len(f.kinds))])
	}
	return w
}

func (f bfamily) bound() string {
	var s []string
	for _, k := range f.kinds {
		s = append(s, blockNames[k])
	}
	return fmt.Sprintf("all worlds of %dx%d blocks out of {%s}, %v", f.w, f.h, strings.Join(s, ", "), f.agent)
}

// soloFamilies are the worlds for whole builds.
func soloFamilies(th bool) []bfamily {
	std := bagent{10, 4, 1, 40}
	fine := func(s *recast.BuildSettings) { s.RegionMergeSize, s.EdgeMaxLen, s.DetailSampleDist = 0, 0, 2 }
	nodetail := func(s *recast.BuildSettings) { s.DetailSampleDist = 0 }
	tri := func(s *recast.BuildSettings) { s.VertsPerPoly, s.RegionMinSize, s.EdgeMaxError = 3, 8, 0.8 }
	out := []bfamily{
		{name: "levels", w: 3, h: 2, B: 12, kinds: []int{bHole, bFloor0, bFloor3, bFloor6, bRamp}, agent: std},
		{name: "walls", w: 3, h: 2, B: 12, kinds: []int{bFloor0, bWall, bDoor, bNarrow, bWallZ}, agent: std, orig: [3]float32{-7.5, 3, 11}, set: nodetail},
		{name: "storeys", w: 3, h: 2, B: 12, kinds: []int{bFloor0, bLow, bBridge, bFloor18, bSteep}, agent: bagent{10, 4, 1, 55}, set: fine},
		{name: "mixed", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bFloor3, bFloor6, bLow, bBridge, bFloor18, bWall, bDoor, bRamp, bSteep, bWater}, agent: std, set: tri},
		{name: "wide agent", w: 2, h: 2, B: 16, kinds: []int{bHole, bFloor0, bFloor3, bDoor, bNarrow, bPillar, bWallZ, bWater}, agent: bagent{8, 3, 2, 40}, cs: 0.25, ch: 0.15},
		{name: "thin agent", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bFloor6, bLow, bWall, bPillar, bRamp, bWater}, agent: bagent{5, 6, 0, 40}, set: fine},
		{name: "areas", w: 3, h: 1, B: 12, kinds: []int{bFloor0, bWater, bRoad, bGrass, bGate, bJump, bOdd, bFord, bFlood, bUnder}, agent: std, orig: [3]float32{-7.5, 0.3, 11}},
		{name: "many triangles", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bMosaic, bCliff, bSlope, bJump}, agent: std, set: nodetail},
		{name: "row", w: 5, h: 1, B: 12, kinds: []int{bFloor0, bFloor3, bFloor6, bRamp, bWallZ, bWater}, agent: std, set: tri},
	}
	if th {
		out = append(out,
			bfamily{name: "levels 3x3", w: 3, h: 3, B: 12, kinds: []int{bHole, bFloor0, bFloor3, bFloor6}, agent: std},
			bfamily{name: "walls 3x3", w: 3, h: 3, B: 12, kinds: []int{bFloor0, bWall, bWallZ, bHole}, agent: std},
			bfamily{name: "mixed wide", w: 2, h: 2, B: 16, kinds: []int{bHole, bFloor0, bFloor3, bFloor6, bLow, bBridge, bFloor18, bWall, bDoor, bNarrow, bRamp, bSteep, bWater, bWallZ, bPillar}, agent: bagent{9, 4, 2, 55}},
			bfamily{name: "areas 2x2", w: 2, h: 2, B: 12, kinds: []int{bHole, bFloor0, bWater, bRoad, bGrass, bGate, bJump, bOdd, bFord, bFlood, bUnder}, agent: bagent{9, 4, 2, 55}, set: fine},
			bfamily{name: "storeys 40", w: 3, h: 2, B: 12, kinds: []int{bFloor0, bLow, bBridge, bFloor18, bSteep, bRamp}, agent: std, set: tri},
		)
	}
	return out
}

func init() {
	hx.Register(&hx.Check{
		ID: "C33", Level: "model_checking",
		Rule:        "whole one-shot builds of every block world of several families (floors at several levels, holes, low ceilings, bridges, walls, doors, gaps, ramps, pillars, water volumes), for agents of several sizes and several settings; oracle: voxel graphs derived from the definition of the world, one that leaves out whatever rounding may take away, one that leaves in whatever rounding may add: every place in the first has a polygon, no place outside the second, two places connected in the first have a complete path, two not connected in the second have none; straight paths stay over floor; volumes of every area type, overlapping ones and ones under a bridge: area type and flags of the polygon at every place, reachability under filters for walking, swimming and doors; floors and slopes of more triangles than fit a chunk; non-trivial: at least one walkable place",
		Assumptions: []string{"places whose state depends on rounding by a voxel are not judged", "monotone partitioning, the only one the builder supports"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			for _, f := range soloFamilies(th) {
				f := f
				out = append(out, hx.Space{Name: f.name, N: f.count(), Batch: 8, Bound: f.bound(), Run: func(e *hx.Env, i int64) {
					f.world(i).checkSolo(e)
					e.Trace()
				}})
			}
			return out
		},
	})
}
