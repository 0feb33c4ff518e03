package checks

import (
	"fmt"
	"math"
	"slices"
	"sort"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C24: erosion

// buildCHF compacts a field of columns.
func buildCHF(w, h int, f []column, height, climb int) *recast.CompactHeightfield {
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(theCtx, int32(height), int32(climb), newHF(w, h, f), chf)
	return chf
}

// conn is the span reached from span i of cell (x,z) in direction d, or -1.
func conn(chf *recast.CompactHeightfield, x, z, i, d int) (nx, nz, ni int) {
	c := int(recast.GetCon(&chf.Spans[i], int32(d)))
	if c == 0x3f {
		return 0, 0, -1
	}
	nx, nz = x+[4]int{-1, 0, 1, 0}[d], z+[4]int{0, 1, 0, -1}[d]
	return nx, nz, int(chf.Cells[nx+nz*int(chf.Width)].Index) + c
}

// spanCells lists the cell of every span.
func spanCells(chf *recast.CompactHeightfield) (xs, zs []int) {
	xs, zs = make([]int, chf.SpanCount), make([]int, chf.SpanCount)
	for k := range chf.Cells {
		c := chf.Cells[k]
		for i := int(c.Index); i < int(c.Index)+int(c.Count); i++ {
			xs[i], zs[i] = k%int(chf.Width), k/int(chf.Width)
		}
	}
	return
}

// borderDistance is the chamfer distance (2 along an axis, 3 diagonally,
// moving along connections) of every span to the nearest obstruction.
func borderDistance(chf *recast.CompactHeightfield) []int {
	xs, zs := spanCells(chf)
	n := int(chf.SpanCount)
	const inf = 1 << 30
	dist := make([]int, n)
	var buckets [][]int
	push := func(i, d int) {
		for len(buckets) <= d {
			buckets = append(buckets, nil)
		}
		buckets[d] = append(buckets[d], i)
	}
	for i := 0; i < n; i++ {
		dist[i] = inf
		free := chf.Areas[i] != 0
		for d := 0; d < 4 && free; d++ {
			_, _, j := conn(chf, xs[i], zs[i], i, d)
			free = j >= 0 && chf.Areas[j] != 0
		}
		if !free {
			dist[i] = 0
			push(i, 0)
		}
	}
	for d := 0; d < len(buckets); d++ {
		for k := 0; k < len(buckets[d]); k++ {
			i := buckets[d][k]
			if dist[i] != d {
				continue
			}
			for dir := 0; dir < 4; dir++ {
				nx, nz, j := conn(chf, xs[i], zs[i], i, dir)
				if j < 0 {
					continue
				}
				if dist[j] > d+2 {
					dist[j] = d + 2
					push(j, d+2)
				}
				for _, d2 := range [2]int{(dir + 1) % 4, (dir + 3) % 4} {
					if _, _, l := conn(chf, nx, nz, j, d2); l >= 0 && dist[l] > d+3 {
						dist[l] = d + 3
						push(l, d+3)
					}
				}
			}
		}
	}
	return dist
}

func checkErode(e *hx.Env, chf *recast.CompactHeightfield, radius int, dist []int, where func() string) {
	areas := append([]uint8(nil), chf.Areas...)
	spans := append([]recast.CompactSpan(nil), chf.Spans...)
	if !recast.ErodeWalkableArea(theCtx, int32(radius), chf) {
		e.Failf("refused", "%s: refused", where())
	}
	e.Step(1)
	e.Eval(1)
	gone := 0
	for i := range areas {
		want := areas[i]
		if dist[i] < 2*radius {
			want = 0
		}
		if want != areas[i] {
			gone++
		}
		if chf.Areas[i] != want {
			xs, zs := spanCells(chf)
			e.Failf("erode", "%s, radius %d: span %d in cell (%d,%d), area %d, at distance %d/2 from the nearest obstruction, gets area %d", where(), radius, i, xs[i], zs[i], areas[i], dist[i], chf.Areas[i])
		}
		if chf.Spans[i] != spans[i] {
			e.Failf("span", "%s, radius %d: span %d changed", where(), radius, i)
		}
	}
	e.Outcome("radius %d removed some: %v", radius, gone > 0)
	e.State(hx.HB(chf.Areas))
	copy(chf.Areas, areas)
}

func init() {
	hx.Register(&hx.Check{
		ID: "C24", Level: "model_checking",
		Rule:        "every pattern of obstructions on small open grids (with a walkable surround, so that distances above 1 occur), every two-level pattern on a small grid, and open fields up to 300 cells wide with obstructions at every position of a line, each with every radius up to 4 (large fields: up to 140); oracle: shortest chamfer distance over the connections to any obstruction; non-trivial: some but not all walkable spans are removed",
		Assumptions: []string{"distance is the library's chamfer metric: 2 per axis step and 3 per diagonal step along span connections; the radius is 2 per cell"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			w, h, pad := 4, 4, 1
			if th {
				w, h, pad = 5, 4, 2
			}
			out = append(out, hx.Space{Name: "patterns", N: 1 << uint(w*h), Batch: 512, Bound: fmt.Sprintf("all 2^%d obstruction patterns on %dx%d cells inside a walkable border of %d, left out or marked after compaction, radius 1..4", w*h, w, h, pad),
				Run: func(e *hx.Env, i int64) {
					W, H := w+2*pad, h+2*pad
					f := make([]column, W*H)
					for z := 0; z < H; z++ {
						for x := 0; x < W; x++ {
							a := uint8(63)
							px, pz := x-pad, z-pad
							if px >= 0 && pz >= 0 && px < w && pz < h && i>>uint(px+pz*w)&1 == 1 {
								a = 0
							}
							f[x+z*W] = column{{0, 1, a}}
						}
					}
					chf := buildCHF(W, H, f, 2, 1)
					d := borderDistance(chf)
					for r := 1; r <= 4; r++ {
						checkErode(e, chf, r, d, func() string { return fmt.Sprintf("pattern %x on %dx%d", i, w, h) })
					}
					// the same cells marked after compaction: their spans exist
					for k := range f {
						f[k] = column{{0, 1, uint8(1 + k%63)}}
						if k%5 == 2 {
							f[k] = append(f[k], span{4 + k%200, 300, 0})
						}
					}
					chf = buildCHF(W, H, f, 2, 1)
					for k := 0; k < w*h; k++ {
						if i>>uint(k)&1 == 1 {
							chf.Areas[pad+k%w+(pad+k/w)*W] = 0
						}
					}
					d = borderDistance(chf)
					for r := 1; r <= 3; r++ {
						checkErode(e, chf, r, d, func() string { return fmt.Sprintf("pattern %x on %dx%d, marked after compaction", i, w, h) })
					}
					e.Trace()
				}})
			// big obstacles: cells of 3x3 from a 4x4 (thorough 5x4) pattern
			out = append(out, hx.Space{Name: "blocks", N: 1 << 12, Batch: 64, Bound: "all 2^12 patterns of 3x3 (and 4x2) blocks on a 4x3 grid of blocks, radius 1..6",
				Run: func(e *hx.Env, i int64) {
					for _, b := range [2][2]int{{3, 3}, {4, 2}} {
						W, H := 4*b[0]+4, 3*b[1]+4
						f := make([]column, W*H)
						for z := 0; z < H; z++ {
							for x := 0; x < W; x++ {
								y := 0
								bx, bz := (x-2)/b[0], (z-2)/b[1]
								if x >= 2 && z >= 2 && bx < 4 && bz < 3 && i>>uint(bx+bz*4)&1 == 1 {
									y = 5
								}
								f[x+z*W] = column{{0, 1 + y, 63}}
							}
						}
						chf := buildCHF(W, H, f, 2, 1)
						d := borderDistance(chf)
						for r := 1; r <= 6; r++ {
							checkErode(e, chf, r, d, func() string { return fmt.Sprintf("blocks %x of %v", i, b) })
						}
					}
					e.Trace()
				}})
			// two levels with holes in either
			cell := []column{{{0, 1, 63}}, {{0, 1, 63}, {5, 6, 63}}, {{5, 6, 7}}, {{0, 1, 0}, {5, 6, 63}}, {{0, 3, 63}}}
			kc := len(cell)
			n := 6
			if th {
				n = 8
			}
			out = append(out, hx.Space{Name: "levels", N: hx.Pow(kc, n), Batch: 128, Bound: fmt.Sprintf("all fields of %d blocks from %d column kinds, surrounded by a two-level floor", n, kc),
				Run: func(e *hx.Env, i int64) {
					bw := n / 2
					W, H := bw*2+2, 6
					f := make([]column, W*H)
					var blk []column
					d := hx.NewDec(i)
					for k := 0; k < n; k++ {
						blk = append(blk, cell[d.Next(kc)])
					}
					for z := 0; z < H; z++ {
						for x := 0; x < W; x++ {
							f[x+z*W] = column{{0, 1, 63}, {5, 6, 63}}
							bx, bz := (x-1)/2, (z-1)/2
							if x >= 1 && z >= 1 && bx < bw && bz < 2 {
								f[x+z*W] = blk[bx+bz*bw]
							}
						}
					}
					chf := buildCHF(W, H, f, 2, 2)
					dd := borderDistance(chf)
					for r := 1; r <= 3; r++ {
						checkErode(e, chf, r, dd, func() string { return fmt.Sprintf("levels %d %v", i, blk) })
					}
					e.Trace()
				}})
			sizes := []int{100, 128, 200, 256, 257, 300}
			if th {
				sizes = append(sizes, 520, 700)
			}
			out = append(out, hx.Space{Name: "open fields", N: int64(len(sizes) * 4), Batch: 1, Bound: fmt.Sprintf("square fields of %v cells without and with an obstruction near a corner, an edge and the centre; radius 1, 2, 60, 126, 127, 128, 140, 200, 254", sizes),
				Run: func(e *hx.Env, i int64) {
					W := sizes[int(i)%len(sizes)]
					kind := int(i) / len(sizes)
					f := make([]column, W*W)
					for k := range f {
						f[k] = column{{0, 1, 63}}
					}
					switch kind {
					case 1:
						f[W+1][0].area = 0
					case 2:
						f[W*(W/2)+2][0].area = 0
					case 3:
						f[W*(W/2)+W/2][0].area = 0
					}
					chf := buildCHF(W, W, f, 2, 1)
					d := borderDistance(chf)
					for _, r := range []int{1, 2, 60, 126, 127, 128, 140, 200, 254} {
						checkErode(e, chf, r, d, func() string { return fmt.Sprintf("open field of %d, obstruction %d", W, kind) })
					}
					e.Trace()
				}})
			return out
		},
	})
}

// ---- C25: area volumes

func init() {
	hx.Register(&hx.Check{
		ID: "C25", Level: "model_checking",
		Rule:        "every convex polygon with 3 to 6 vertices from a lattice around a field (both windings, every starting vertex through the enumeration of vertex cycles), several height ranges; polygons with up to 32 (48) vertices, repeated and collinear ones; floors up to the greatest height; on a two-level field with unwalkable cells, directly and through the volume list of the input geometry with every short add/delete history; oracle: exact point-in-polygon test of the cell centres; centres on an edge and floors within one voxel of a height limit are not judged; non-trivial: at least one span is marked",
		Assumptions: []string{"deleting a volume moves the last one into its place (order of application after a deletion is not judged beyond that)"},
		Spaces: func(th bool) []hx.Space {
			polys := convexLattice(th)
			var out []hx.Space
			ranges := [][2]float32{{0, 100}, {0.9, 1.1}, {-50, -20}, {3, 20}, {5.9, 6.3}, {-1, 3}}
			out = append(out, hx.Space{Name: "polygons", N: int64(len(polys)), Batch: 16, Bound: fmt.Sprintf("%d polygons, %d height ranges, 3 fields", len(polys), len(ranges)),
				Run: func(e *hx.Env, i int64) {
					for kind := 0; kind < 3; kind++ {
						chf := volumeField(kind)
						for _, r := range ranges {
							checkVolume(e, chf, polys[i], r, 5)
							checkVolume(e, chf, polys[i], r, 0)
						}
					}
					e.Trace()
				}})
			out = append(out, volumeHistories(th), fullVolumeList(), manyVertices(th), tallVolumes())
			return out
		},
	})
}

// roundPolygon is a convex polygon with n vertices (even) made from the
// shortest primitive edge vectors, with its lower left corner at the origin.
func roundPolygon(n, scale int) [][2]int {
	type vec struct{ x, z int }
	gcd := func(a, b int) int {
		for b != 0 {
			a, b = b, a%b
		}
		return a
	}
	var vs []vec
	for l := 1; len(vs) < n; l++ {
		for x := -l; x <= l; x++ {
			for z := -l; z <= l; z++ {
				if x*x+z*z > l*l || x*x+z*z <= (l-1)*(l-1) || gcd(absInt(x), absInt(z)) != 1 || z < 0 || z == 0 && x < 0 || len(vs) >= n {
					continue
				}
				vs = append(vs, vec{x, z}, vec{-x, -z})
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool {
		return math.Atan2(float64(vs[i].z), float64(vs[i].x)) < math.Atan2(float64(vs[j].z), float64(vs[j].x))
	})
	var out [][2]int
	x, z, mx, mz := 0, 0, 0, 0
	for _, v := range vs {
		x, z = x+v.x*scale, z+v.z*scale
		mx, mz = min(mx, x), min(mz, z)
		out = append(out, [2]int{x, z})
	}
	for i := range out {
		out[i][0] -= mx
		out[i][1] -= mz
	}
	return out
}

// manyVertices: polygons with many, repeated and collinear vertices.
func manyVertices(th bool) hx.Space {
	ns := []int{4, 8, 12, 14, 16, 24, 32}
	if th {
		ns = []int{4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 28, 32, 40, 48}
	}
	return hx.Space{Name: "many vertices", N: int64(len(ns) * 4 * 3), Batch: 1, Bound: fmt.Sprintf("polygons with %v vertices, at 4 places, both windings, every starting vertex; as they are, with a vertex repeated, with a collinear vertex inserted", ns),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			n, place, kind := ns[d.Next(len(ns))], d.Next(4), d.Next(3)
			chf := plainField(16, 15)
			q := roundPolygon(n, 2)
			off := [4][2]int{{1, 1}, {-9, 3}, {7, -11}, {29, 25}}[place]
			for k := range q {
				q[k] = [2]int{2*q[k][0] + off[0], 2*q[k][1] + off[1]}
			}
			for extra := 0; extra < n; extra++ {
				p := append([][2]int{}, q...)
				if kind > 0 {
					a, b := q[extra], q[(extra+1)%n]
					m := a
					if kind == 2 {
						m = [2]int{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2}
					}
					p = append(append(append([][2]int{}, q[:extra+1]...), m), q[extra+1:]...)
				} else if extra > 0 {
					break
				}
				for w := 0; w < 2; w++ {
					for s := range p {
						r := append(append([][2]int{}, p[s:]...), p[:s]...)
						checkVolume(e, chf, r, [2]float32{-1, 4}, 5)
						if kind > 0 && s > extra {
							break
						}
					}
					for a, b := 0, len(p)-1; a < b; a, b = a+1, b-1 {
						p[a], p[b] = p[b], p[a]
					}
				}
			}
			e.Trace()
		}}
}

// plainField is a flat field at the place of volumeField.
func plainField(W, H int) *recast.CompactHeightfield {
	f := make([]column, W*H)
	for k := range f {
		f[k] = column{{0, 1 + k%5, uint8(1 + k%62)}}
	}
	hf := newHF(W, H, f)
	hf.Cs, hf.Ch = 0.5, 0.5
	hf.BMin = volumeOrig
	hf.BMax = [3]float32{volumeOrig[0] + float32(W)*0.5, 50, volumeOrig[2] + float32(H)*0.5}
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(theCtx, 2, 1, hf, chf)
	return chf
}

// tallVolumes: floors and volumes up to the greatest height.
func tallVolumes() hx.Space {
	ys := []int{1, 2, 100, 127, 128, 129, 255, 256, 257, 300, 513, 4000, 32767, 32769, 65530}
	field := func() *recast.CompactHeightfield {
		f := make([]column, len(ys)*2)
		for k := range f {
			y := ys[k%len(ys)]
			f[k] = column{{0, y, 63}}
			if k >= len(ys) && y < 65000 {
				// different ceilings
				f[k] = append(f[k], span{y + 3 + k%7, y + 12, 0})
			}
		}
		hf := newHF(len(ys), 2, f)
		hf.Cs, hf.Ch = 0.5, 0.5
		hf.BMin = volumeOrig
		hf.BMax = [3]float32{volumeOrig[0] + float32(len(ys))*0.5, 40000, volumeOrig[2] + 1}
		chf := &recast.CompactHeightfield{}
		recast.BuildCompactHeightfield(theCtx, 2, 1, hf, chf)
		return chf
	}
	q := [][2]int{{-1, -1}, {len(ys)*4 + 1, -1}, {len(ys)*4 + 1, 9}, {-1, 9}}
	return hx.Space{Name: "tall", N: int64(len(ys) * len(ys)), Batch: 16, Bound: fmt.Sprintf("floors at heights %v, every height range between two of them (at and half a voxel off the floors)", ys),
		Run: func(e *hx.Env, i int64) {
			a, b := ys[int(i)%len(ys)], ys[int(i)/len(ys)]
			chf := field()
			for _, o := range [][2]float32{{0, 0}, {-0.75, 0.75}, {0.75, -0.75}, {-0.25, 0.25}, {0.25, -0.25}} {
				checkVolume(e, chf, q, [2]float32{float32(a)*0.5 + o[0], float32(b)*0.5 + o[1]}, 5)
			}
			e.Trace()
		}}
}

// convexLattice lists convex polygons over a lattice, in units of a quarter
// cell, as cycles of vertices (both windings, all starts for triangles).
func convexLattice(th bool) [][][2]int {
	coords := []int{-6, 0, 3, 8, 13, 18, 30}
	if th {
		coords = []int{-6, -1, 0, 3, 5, 8, 11, 13, 16, 18, 30}
	}
	var pts [][2]int
	for _, z := range coords {
		for _, x := range coords {
			pts = append(pts, [2]int{x, z})
		}
	}
	cross := func(a, b, c [2]int) int {
		return (b[0]-a[0])*(c[1]-b[1]) - (b[1]-a[1])*(c[0]-b[0])
	}
	var out [][][2]int
	// triangles: all ordered triples
	for a := range pts {
		for b := range pts {
			for c := range pts {
				if cross(pts[a], pts[b], pts[c]) != 0 {
					out = append(out, [][2]int{pts[a], pts[b], pts[c]})
				}
			}
		}
	}
	// 4 to 6 vertices over a coarser lattice: strictly convex cycles
	co := []int{-6, 3, 13, 30}
	if th {
		co = []int{-6, 3, 8, 13, 30}
	}
	pts = nil
	for _, z := range co {
		for _, x := range co {
			pts = append(pts, [2]int{x, z})
		}
	}
	for n := 4; n <= 6; n++ {
		var rec func(c []int)
		rec = func(c []int) {
			if len(c) == n {
				for k := range c {
					if cross(pts[c[k]], pts[c[(k+1)%n]], pts[c[(k+2)%n]]) <= 0 {
						return
					}
				}
				// one full turn only
				q := make([][2]int, n)
				for k := range c {
					q[k] = pts[c[k]]
				}
				if !simpleConvex(q) {
					return
				}
				out = append(out, q)
				rq := make([][2]int, n)
				for k := range q {
					rq[k] = q[n-1-k]
				}
				out = append(out, rq)
				return
			}
			for k := range pts {
				if k <= c[0] {
					continue // canonical start: lowest index
				}
				if len(c) >= 2 && cross(pts[c[len(c)-2]], pts[c[len(c)-1]], pts[k]) <= 0 {
					continue
				}
				rec(append(append([]int{}, c...), k))
			}
		}
		for s := range pts {
			rec([]int{s})
		}
	}
	return out
}

// simpleConvex: every vertex is left of every edge.
func simpleConvex(q [][2]int) bool {
	n := len(q)
	for i := range q {
		a, b := q[i], q[(i+1)%n]
		for j := range q {
			if (b[0]-a[0])*(q[j][1]-a[1])-(b[1]-a[1])*(q[j][0]-a[0]) < 0 {
				return false
			}
		}
	}
	return true
}

// inPoly4: 1 inside, 0 on the border, -1 outside, in quarter cells.
func inPoly4(q [][2]int, x, z int) int {
	pos, neg := false, false
	for i := range q {
		a, b := q[i], q[(i+1)%len(q)]
		c := (b[0]-a[0])*(z-a[1]) - (b[1]-a[1])*(x-a[0])
		if c > 0 {
			pos = true
		} else if c < 0 {
			neg = true
		} else if x >= min(a[0], b[0]) && x <= max(a[0], b[0]) && z >= min(a[1], b[1]) && z <= max(a[1], b[1]) {
			return 0
		}
	}
	if pos && neg {
		return -1
	}
	return 1
}

var volumeOrig = [3]float32{-2, 0, 3}

func volumeField(kind int) *recast.CompactHeightfield {
	const W, H = 5, 4
	f := make([]column, W*H)
	for k := range f {
		switch {
		case kind == 0:
			f[k] = column{{0, 1, 63}}
		case kind == 1:
			f[k] = column{{0, 4, 63}, {10, 12, 63}}
			if k%3 == 0 {
				f[k][0].area = 0
			}
		case k%4 == 1:
			f[k] = nil
		default:
			f[k] = column{{0, 1 + k, uint8(1 + k%3)}}
		}
	}
	hf := newHF(W, H, f)
	hf.Cs, hf.Ch = 0.5, 0.5
	hf.BMin = volumeOrig
	hf.BMax = [3]float32{volumeOrig[0] + W*0.5, 50, volumeOrig[2] + H*0.5}
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(theCtx, 2, 1, hf, chf)
	return chf
}

func volumeVerts(q [][2]int) []float32 {
	var v []float32
	for i, p := range q {
		v = append(v, volumeOrig[0]+float32(p[0])*0.125, float32(i*7-3), volumeOrig[2]+float32(p[1])*0.125)
	}
	return v
}

// volumeJudge compares the areas with what marking q should give.
func volumeJudge(e *hx.Env, chf *recast.CompactHeightfield, before []uint8, q [][2]int, r [2]float32, area uint8, where func() string) int {
	xs, zs := spanCells(chf)
	n := 0
	for i := range before {
		got := chf.Areas[i]
		if before[i] == 0 {
			if got != 0 {
				e.Failf("unwalkable", "%s: unwalkable span %d of cell (%d,%d) gets area %d", where(), i, xs[i], zs[i], got)
			}
			continue
		}
		side := inPoly4(q, xs[i]*4+2, zs[i]*4+2)
		y := volumeOrig[1] + float32(chf.Spans[i].Y)*0.5
		in := side > 0 && y >= r[0] && y <= r[1]
		unsure := side == 0 && y >= r[0]-0.5 && y <= r[1]+0.5 ||
			side > 0 && !in && y >= r[0]-0.5 && y <= r[1]+0.5 ||
			in && (y <= r[0]+0.5 && y < r[0] || y > r[1])
		if in {
			n++
		}
		want := before[i]
		if in {
			want = area
		}
		if got != want && !(unsure && got == area) {
			e.Failf("area", "%s: span %d of cell (%d,%d) at height %v has area %d instead of %d (was %d)", where(), i, xs[i], zs[i], y, got, want, before[i])
		}
	}
	return n
}

func checkVolume(e *hx.Env, chf *recast.CompactHeightfield, q [][2]int, r [2]float32, area uint8) {
	before := append([]uint8(nil), chf.Areas...)
	v := volumeVerts(q)
	recast.MarkConvexPolyArea(theCtx, v, int32(len(q)), r[0], r[1], area, chf)
	e.Step(1)
	e.Eval(1)
	n := volumeJudge(e, chf, before, q, r, area, func() string { return fmt.Sprintf("polygon %v (quarter cells), heights %v, area %d", q, r, area) })
	e.Outcome("%d vertices, marked %v", len(q), n > 0)
	e.State(hx.HB(chf.Areas))
	copy(chf.Areas, before)
}

// fullVolumeList: the volume list around its capacity of 256.
func fullVolumeList() hx.Space {
	counts := []int{1, 2, 64, 127, 128, 129, 200, 254, 255, 256, 257, 300}
	return hx.Space{Name: "full volume list", N: hx.Prod(len(counts), 5, 3), Batch: 1, Bound: fmt.Sprintf("%v volumes are added, one of them is deleted (none, the first, second, one in the middle, the last), up to 2 more are added", counts),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			n, del, more := counts[d.Next(len(counts))], d.Next(5), d.Next(3)
			ig := &recast.InputGeom{}
			var model []int
			next := 0
			add := func() {
				next++
				x := float32(next)
				ig.AddConvexVolume([]float32{x, 0, 1, x + 1, 0, 1, x + 1, 0, 2, x, 0, float32(next % 7)}, x, 2*x, uint8(next%64))
				if len(model) < 256 {
					model = append(model, next)
				}
				e.Step(1)
			}
			for k := 0; k < n; k++ {
				add()
			}
			if del > 0 {
				j := []int{0, 1, len(model) / 2, len(model) - 1}[del-1]
				if j < len(model) {
					ig.DeleteConvexVolume(j)
					model[j] = model[len(model)-1]
					model = model[:len(model)-1]
				}
			}
			for k := 0; k < more; k++ {
				add()
			}
			what := fmt.Sprintf("%d volumes, deletion %d, %d more", n, del, more)
			vs := ig.ConvexVolumes()
			e.Eval(len(model))
			for k, id := range model {
				if k >= int(ig.ConvexVolumesCount()) || k >= len(vs) {
					e.Failf("capacity", "%s: only %d volumes are there instead of %d", what, ig.ConvexVolumesCount(), len(model))
				}
				v := vs[k]
				x := float32(id)
				want := []float32{x, 0, 1, x + 1, 0, 1, x + 1, 0, 2, x, 0, float32(id % 7)}
				if v.NVerts != 4 || v.HMin != x || v.HMax != 2*x || v.Area != int32(id%64) || !slices.Equal(v.Verts[:12], want) {
					e.Failf("volume", "%s: volume %d is %+v instead of the one added as number %d", what, k, v, id)
				}
			}
			if next <= 256 && int(ig.ConvexVolumesCount()) != len(model) {
				e.Failf("count", "%s: %d volumes are there instead of %d", what, ig.ConvexVolumesCount(), len(model))
			}
			e.Outcome("%d volumes", len(model))
			e.Trace()
		}}
}

// volumeHistories: the volume list of the input geometry.
func volumeHistories(th bool) hx.Space {
	shapes := [][][2]int{
		{{-6, -6}, {9, -6}, {9, 9}, {-6, 9}},
		{{5, 5}, {21, 5}, {21, 18}, {12, 21}, {5, 18}},
		{{8, 1}, {19, 9}, {3, 15}},
		{{0, 7}, {4, 1}, {13, 1}, {17, 7}, {13, 13}, {4, 13}},
		{{1, 1}, {3, 0}, {6, 0}, {9, 1}, {11, 3}, {12, 6}, {12, 9}, {11, 11}, {9, 12}, {6, 12}, {2, 10}, {0, 5}},
		{{1, 1}, {3, 0}, {6, 0}, {9, 1}, {11, 3}, {12, 6}, {12, 9}, {11, 11}, {9, 12}, {6, 12}, {2, 10}, {0, 5}, {0, 4}},
		nil,
	}
	// a square with a vertex at every quarter of a cell
	for k := 0; k < 60; k++ {
		t := k % 15
		shapes[6] = append(shapes[6], [][2]int{{t - 6, -6}, {9, t - 6}, {9 - t, 9}, {-6, 9 - t}}[k/15])
	}
	nops := len(shapes) + 3 // add shape k / delete 0..2
	depth := 4
	if th {
		depth = 5
	}
	return hx.Space{Name: "volume list", N: hx.Pow(nops, depth), Batch: 64, Bound: fmt.Sprintf("all histories of %d operations (add one of %d shapes, delete the first, second or third volume)", depth, len(shapes)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			ig := &recast.InputGeom{}
			type vol struct {
				shape int
				area  uint8
			}
			var model []vol
			for k := 0; k < depth; k++ {
				op := d.Next(nops)
				if op < len(shapes) {
					a := uint8(1 + k)
					ig.AddConvexVolume(volumeVerts(shapes[op]), float32(k)-1, float32(3+k), a)
					model = append(model, vol{op, a})
				} else {
					j := op - len(shapes)
					if j >= len(model) {
						return
					}
					ig.DeleteConvexVolume(j)
					model[j] = model[len(model)-1]
					model = model[:len(model)-1]
				}
				e.Step(1)
			}
			if int(ig.ConvexVolumesCount()) != len(model) {
				e.Failf("count", "%d volumes instead of %v", ig.ConvexVolumesCount(), model)
			}
			chf := volumeField(0)
			vs := ig.ConvexVolumes()
			for k, m := range model {
				// as the builders apply it
				before := append([]uint8(nil), chf.Areas...)
				v := vs[k]
				if v.NVerts != int32(len(shapes[m.shape])) {
					e.Failf("vertices", "volume %d of history %d has %d vertices instead of %d", k, i, v.NVerts, len(shapes[m.shape]))
				}
				if v.HMin != float32(m.area)-2 || v.HMax != float32(2+m.area) || v.Area != int32(m.area) {
					e.Failf("vertices", "volume %d of history %d has heights %v..%v and area %v instead of %v", k, i, v.HMin, v.HMax, v.Area, m)
				}
				recast.MarkConvexPolyArea(theCtx, v.Verts[:], v.NVerts, v.HMin, v.HMax, uint8(v.Area), chf)
				volumeJudge(e, chf, before, shapes[m.shape], [2]float32{float32(m.area) - 2, float32(2 + m.area)}, m.area, func() string { return fmt.Sprintf("history %d, volume %d %v", i, k, m) })
			}
			e.Outcome("%d volumes", len(model))
			e.Trace()
		}}
}
