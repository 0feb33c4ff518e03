package checks

import (
	"fmt"
	"math"
	"sort"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C38: planar geometry helpers

type ipt struct{ x, z int }

func (p ipt) vec(y int) d3.Vec3 { return d3.Vec3{float32(p.x), float32(y), float32(p.z)} }

func icross(a, b, c ipt) int { return (b.x-a.x)*(c.z-a.z) - (b.z-a.z)*(c.x-a.x) }

// planarPolys are strictly convex polygons on a lattice in the vertex order of
// navigation mesh polygons (cross2 of consecutive vertices negative), in every
// rotation of their vertices.
func planarPolys(n, maxv int) [][]ipt {
	var pts []ipt
	for x := 0; x < n; x++ {
		for z := 0; z < n; z++ {
			pts = append(pts, ipt{2 * x, 2 * z})
		}
	}
	var out [][]ipt
	var rec func(p []ipt)
	rec = func(p []ipt) {
		if len(p) >= 3 && icross(p[len(p)-2], p[len(p)-1], p[0]) < 0 && icross(p[len(p)-1], p[0], p[1]) < 0 {
			out = append(out, append([]ipt(nil), p...))
		}
		if len(p) == maxv {
			return
		}
	next:
		for _, q := range pts {
			if len(p) >= 2 {
				if icross(p[len(p)-2], p[len(p)-1], q) >= 0 {
					continue
				}
				// convex so far: all on the inner side of every edge
				for i := 0; i+1 < len(p); i++ {
					if icross(p[i], p[i+1], q) >= 0 {
						continue next
					}
				}
			} else if len(p) == 1 && q == p[0] {
				continue
			}
			rec(append(p, q))
		}
	}
	for _, q := range pts {
		rec([]ipt{q})
	}
	return out
}

// clipSeg is the part of the segment inside the closed polygon, found by
// cutting the segment at the lines of all edges and trying the middle of each
// piece; ok is false when the segment does not enter the inside.
func clipSeg(poly []ipt, p, q ipt) (t0, t1 float64, ok bool) {
	ts := []float64{0, 1}
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		d := (b.x-a.x)*(q.z-p.z) - (b.z-a.z)*(q.x-p.x)
		if d != 0 {
			if t := float64(-icross(a, b, p)) / float64(d); t > 0 && t < 1 {
				ts = append(ts, t)
			}
		}
	}
	sort.Float64s(ts)
	in := func(t float64) bool {
		x, z := float64(p.x)+t*float64(q.x-p.x), float64(p.z)+t*float64(q.z-p.z)
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			if float64(b.x-a.x)*(z-float64(a.z))-float64(b.z-a.z)*(x-float64(a.x)) > 1e-9 {
				return false
			}
		}
		return true
	}
	for i := 0; i+1 < len(ts); i++ {
		if ts[i+1]-ts[i] > 1e-9 && in((ts[i]+ts[i+1])/2) {
			if !ok {
				t0, ok = ts[i], true
			}
			t1 = ts[i+1]
		}
	}
	return
}

// touches tells whether the segment meets the outline without entering, or
// runs along an edge; such segments are not judged.
func touches(poly []ipt, p, q ipt) bool {
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		ca, cb := icross(p, q, a), icross(p, q, b)
		if ca == 0 && cb == 0 {
			return true
		}
	}
	return false
}

func checkSegPoly(e *hx.Env, poly []ipt, p, q ipt) {
	verts := make([]float32, 0, 3*len(poly)+3)
	for i, v := range poly {
		verts = append(verts, float32(v.x), float32(7*i-3), float32(v.z))
	}
	verts = append(verts, 1, 99, 1) // not part of the polygon
	e.Step(1)
	e.Eval(1)
	t0, t1, s0, s1, hit := detour.IntersectSegmentPoly2D(p.vec(5), q.vec(-4), verts, len(poly))
	if p == q || touches(poly, p, q) {
		return
	}
	w0, w1, in := clipSeg(poly, p, q)
	if !in {
		// may touch a corner or end on the outline
		for _, v := range poly {
			if icross(p, q, v) == 0 {
				return
			}
		}
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			if icross(a, b, p) == 0 || icross(a, b, q) == 0 {
				return
			}
		}
		if hit {
			e.Failf("segment-outside", "segment %v-%v does not meet polygon %v, but the result is (%v, %v)", p, q, poly, t0, t1)
		}
		return
	}
	if !hit {
		e.Failf("segment-missed", "segment %v-%v crosses polygon %v from %v to %v, but is not found", p, q, poly, w0, w1)
	}
	if math.Abs(float64(t0)-w0) > 1e-5 || math.Abs(float64(t1)-w1) > 1e-5 {
		e.Failf("segment-range", "segment %v-%v is inside polygon %v from %v to %v, not from %v to %v", p, q, poly, w0, w1, t0, t1)
	}
	edge := func(what string, s int, t float64, end ipt) {
		if s < -1 || s >= len(poly) {
			e.Failf("segment-edge", "segment %v-%v, polygon %v: %s edge %d", p, q, poly, what, s)
		}
		onEnd := (what == "entered" && t == 0) || (what == "left" && t == 1)
		strict, onLine := true, false
		for i := range poly {
			if c := icross(poly[i], poly[(i+1)%len(poly)], end); c >= 0 {
				strict = false
				onLine = onLine || c == 0
			}
		}
		if onEnd && strict && s != -1 {
			e.Failf("segment-edge", "segment %v-%v, polygon %v: end inside, but %s over edge %d", p, q, poly, what, s)
		}
		if !onEnd && s == -1 {
			e.Failf("segment-edge", "segment %v-%v, polygon %v: %s at %v over no edge", p, q, poly, what, t)
		}
		if s >= 0 {
			a, b := poly[s], poly[(s+1)%len(poly)]
			x, z := float64(p.x)+t*float64(q.x-p.x), float64(p.z)+t*float64(q.z-p.z)
			l := math.Hypot(float64(b.x-a.x), float64(b.z-a.z))
			if d := (float64(b.x-a.x)*(z-float64(a.z)) - float64(b.z-a.z)*(x-float64(a.x))) / l; math.Abs(d) > 1e-5 {
				e.Failf("segment-edge", "segment %v-%v, polygon %v: %s at %v, which is not on edge %d", p, q, poly, what, t, s)
			}
			d := (b.x-a.x)*(q.z-p.z) - (b.z-a.z)*(q.x-p.x)
			if (what == "entered") != (d < 0) {
				e.Failf("segment-edge", "segment %v-%v, polygon %v: edge %d is not %s", p, q, poly, s, what)
			}
		}
	}
	edge("entered", s0, w0, p)
	edge("left", s1, w1, q)
}

func init() {
	hx.Register(&hx.Check{
		ID: "C38", Level: "exploration",
		Rule:        "every strictly convex polygon of 3 and 4 (thorough: 5) lattice vertices in every rotation x every segment between points of a finer and larger lattice; every pair of segments; every pair of boxes with limits from a small set in each dimension, in floats and quantised; every polygon's centre; every place on a lattice around grids of several origins and tile sizes; oracle: exact integer orientation, cutting the segment at all edges and testing the pieces, interval overlap in each dimension; segments along an edge or only touching are not judged; non-trivial: every case",
		Assumptions: []string{"segments that run along an edge or only touch the outline are not judged"},
		Spaces: func(th bool) []hx.Space {
			maxv, m := 4, 8
			if th {
				maxv, m = 5, 10
			}
			polys := planarPolys(3, maxv)
			var pts []ipt
			for x := -2; x < m-1; x++ {
				for z := -2; z < m-1; z++ {
					pts = append(pts, ipt{x, z})
				}
			}
			lim := []int{0, 1, 2, 5}
			var iv [][2]int
			for i := range lim {
				for j := i; j < len(lim); j++ {
					iv = append(iv, [2]int{lim[i], lim[j]})
				}
			}
			ni := len(iv)
			return []hx.Space{
				{Name: "segments and polygons", N: int64(len(polys)), Batch: 4, Bound: fmt.Sprintf("%d polygons x %d^2 segments", len(polys), len(pts)),
					Run: func(e *hx.Env, i int64) {
						e.Note("polygon %v", polys[i])
						for _, p := range pts {
							for _, q := range pts {
								checkSegPoly(e, polys[i], p, q)
							}
						}
						var idx []uint16
						verts := []float32{100, 100, 100}
						sx, sy, sz := 0, 0, 0
						for k, v := range polys[i] {
							idx = append(idx, uint16(k+1))
							verts = append(verts, float32(v.x), float32(3*k), float32(v.z))
							sx, sy, sz = sx+v.x, sy+3*k, sz+v.z
						}
						c := detour.CalcPolyCenter(append(idx, 0), int32(len(idx)), verts)
						n := float64(len(idx))
						if math.Abs(float64(c[0])-float64(sx)/n) > 1e-5 || math.Abs(float64(c[1])-float64(sy)/n) > 1e-5 || math.Abs(float64(c[2])-float64(sz)/n) > 1e-5 {
							e.Failf("centre", "centre of %v is %v", polys[i], c)
						}
						e.State(hx.H(polys[i]))
						e.Outcome("%d vertices", len(idx))
						e.Trace()
					}},
				{Name: "pairs of segments", N: int64(len(pts)), Batch: 1, Bound: fmt.Sprintf("all segments from %d points to each other with segments from a 3x3 lattice", len(pts)),
					Run: func(e *hx.Env, i int64) {
						p := pts[i]
						e.Note("segments from %v", p)
						for _, q := range pts {
							for k := 0; k < 81; k++ {
								a, b := ipt{k % 3 * 2, k / 3 % 3 * 2}, ipt{k / 9 % 3 * 2, k / 27 * 2}
								e.Step(2)
								e.Eval(1)
								if g := detour.TriArea2D(p.vec(1), q.vec(9), a.vec(-3)); float64(g) != float64(-icross(p, q, a)) {
									e.Failf("area", "TriArea2D(%v, %v, %v) = %v, want %d", p, q, a, g, -icross(p, q, a))
								}
								hit, s, t := detour.IntersectSegSeg2D(p.vec(1), q.vec(2), a.vec(3), b.vec(4))
								d := (q.x-p.x)*(b.z-a.z) - (q.z-p.z)*(b.x-a.x)
								if d == 0 {
									if hit {
										e.Failf("parallel", "parallel segments %v-%v and %v-%v intersect", p, q, a, b)
									}
									continue
								}
								ws := float64((a.x-p.x)*(b.z-a.z)-(a.z-p.z)*(b.x-a.x)) / float64(d)
								wt := float64((a.x-p.x)*(q.z-p.z)-(a.z-p.z)*(q.x-p.x)) / float64(d)
								if ws >= 0 && ws <= 1 && wt >= 0 && wt <= 1 && !hit {
									e.Failf("intersection-missed", "segments %v-%v and %v-%v intersect", p, q, a, b)
								}
								if hit && (math.Abs(float64(s)-ws) > 1e-5 || math.Abs(float64(t)-wt) > 1e-5) {
									e.Failf("intersection", "segments %v-%v and %v-%v intersect at (%v, %v), not (%v, %v)", p, q, a, b, ws, wt, s, t)
								}
							}
						}
						e.State(hx.H(p))
						e.Trace()
					}},
				{Name: "boxes", N: int64(ni * ni), Batch: 4, Bound: fmt.Sprintf("all pairs of boxes with %d intervals in each dimension, and the same shifted below zero", ni),
					Run: func(e *hx.Env, i int64) {
						a0, b0 := iv[int(i)%ni], iv[int(i)/ni]
						ov := func(a, b [2]int) bool { return a[0] <= b[1] && b[0] <= a[1] }
						for k := 0; k < ni*ni*ni*ni; k++ {
							a1, b1, a2, b2 := iv[k%ni], iv[k/ni%ni], iv[k/ni/ni%ni], iv[k/ni/ni/ni]
							want := ov(a0, b0) && ov(a1, b1) && ov(a2, b2)
							e.Step(2)
							for _, sh := range []float32{0, -3.5} {
								f := func(x, y, z int) []float32 { return []float32{float32(x) + sh, float32(y) + sh, float32(z) + sh} }
								if g := detour.OverlapBounds(f(a0[0], a1[0], a2[0]), f(a0[1], a1[1], a2[1]), f(b0[0], b1[0], b2[0]), f(b0[1], b1[1], b2[1])); g != want {
									e.Failf("boxes", "boxes %v %v %v and %v %v %v: %v", a0, a1, a2, b0, b1, b2, g)
								}
							}
							for _, m := range []int{1, 13107} {
								u := func(x, y, z int) []uint16 { return []uint16{uint16(x * m), uint16(y * m), uint16(z * m)} }
								if g := detour.OverlapQuantBounds(u(a0[0], a1[0], a2[0]), u(a0[1], a1[1], a2[1]), u(b0[0], b1[0], b2[0]), u(b0[1], b1[1], b2[1])); g != want {
									e.Failf("quantised boxes", "boxes %v %v %v and %v %v %v times %d: %v", a0, a1, a2, b0, b1, b2, m, g)
								}
							}
						}
						e.State(hx.H("box", i))
						e.Outcome("overlap %v", ov(a0, b0))
						e.Trace()
					}},
				{Name: "tile locations", N: 5 * 5 * 4 * 4, Batch: 4, Bound: "origins and tile sizes from small sets of multiples of 1/4, every position in multiples of 1/4 up to 20 units around the origin",
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						or := [5]int{0, -3, 10, 401, -1027} // quarters
						sz := [4]int{4, 1, 6, 50}
						o := [2]int{or[d.Next(5)], or[d.Next(5)]}
						t := [2]int{sz[d.Next(4)], sz[d.Next(4)]}
						var nav detour.NavMesh
						st := nav.Init(&detour.NavMeshParams{
							Orig:      [3]float32{float32(o[0]) / 4, 77, float32(o[1]) / 4},
							TileWidth: float32(t[0]) / 4, TileHeight: float32(t[1]) / 4, MaxTiles: 4, MaxPolys: 16})
						if detour.StatusFailed(st) {
							e.Failf("init", "Init fails: %x", uint32(st))
						}
						fl := func(v, s int) int32 {
							k := v / s
							for k*s > v {
								k--
							}
							return int32(k)
						}
						for x := -80; x <= 80; x++ {
							for z := -80; z <= 80; z++ {
								e.Step(1)
								gx, gz := nav.CalcTileLoc(d3.Vec3{float32(o[0]+x) / 4, float32(x - z), float32(o[1]+z) / 4})
								if gx != fl(x, t[0]) || gz != fl(z, t[1]) {
									e.Failf("location", "origin %v, tile size %v: the place (%d,%d) from the origin is in tile %d,%d (all in quarters)", o, t, x, z, gx, gz)
								}
							}
						}
						e.Eval(161 * 161)
						e.State(hx.H("loc", o, t))
						e.Trace()
					}},
			}
		},
	})
}
