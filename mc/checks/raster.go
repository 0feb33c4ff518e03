package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C21: rasterisation covers exactly the cells a triangle touches

type pt3 [3]float64

// clipBox clips a convex polygon to a rectangle in the xz plane.
func clipBox(p []pt3, x0, z0, x1, z1 float64, bufs *[2][]pt3) []pt3 {
	cut := func(in, out []pt3, ax int, lim float64, keepLess bool) []pt3 {
		out = out[:0]
		n := len(in)
		for i := 0; i < n; i++ {
			a, b := in[(i+n-1)%n], in[i]
			da, db := lim-a[ax], lim-b[ax]
			if !keepLess {
				da, db = -da, -db
			}
			if (da < 0) != (db < 0) {
				t := da / (da - db)
				var q pt3
				for c := range q {
					q[c] = a[c] + (b[c]-a[c])*t
				}
				q[ax] = lim
				out = append(out, q)
			}
			if db >= 0 {
				out = append(out, b)
			}
		}
		return out
	}
	cur := p
	k := 0
	for _, c := range [4]struct {
		ax   int
		lim  float64
		less bool
	}{{0, x0, false}, {0, x1, true}, {2, z0, false}, {2, z1, true}} {
		bufs[k] = cut(cur, bufs[k], c.ax, c.lim, c.less)
		cur = bufs[k]
		k = 1 - k
		if len(cur) == 0 {
			return nil
		}
	}
	return cur
}

func yRange(p []pt3) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, v := range p {
		lo = math.Min(lo, v[1])
		hi = math.Max(hi, v[1])
	}
	return
}

// rasterField describes a field in world units.
type rasterField struct {
	name   string
	orig   [3]float32
	cs, ch float32
	w, h   int
	top    float32 // height of the bounds in world units
}

func (f *rasterField) make() *recast.Heightfield {
	bmax := []float32{f.orig[0] + float32(f.w)*f.cs, f.orig[1] + f.top, f.orig[2] + float32(f.h)*f.cs}
	return recast.NewHeightfield(int32(f.w), int32(f.h), f.orig[:], bmax, f.cs, f.ch)
}

// expect is what a column may contain after rasterising one triangle.
type rasterExpect struct {
	must, may        bool
	minLo, minHi     int
	maxLo, maxHi     int
	loExact, hiExact float64
}

// expectCell computes the specification for one cell. t is in world units
// relative to the field's origin.
func (f *rasterField) expectCell(t []pt3, x, z int, bufs *[2][]pt3) (r rasterExpect) {
	const d = 2e-4
	cs, ch, by := float64(f.cs), float64(f.ch), float64(f.top)
	x0, z0 := float64(x)*cs, float64(z)*cs
	g := clipBox(t, x0-d, z0-d, x0+cs+d, z0+cs+d, bufs)
	if g == nil {
		return
	}
	glo, ghi := yRange(g)
	if ghi < -d || glo > by+d {
		return
	}
	r.may = true
	lo, hi := glo, ghi // innermost interval that must be covered
	s := clipBox(t, x0+d, z0+d, x0+cs-d, z0+cs-d, bufs)
	if s != nil {
		lo, hi = yRange(s)
		if hi >= d && lo <= by-d {
			r.must = true
		}
	}
	r.loExact, r.hiExact = lo, hi
	clamp := func(v float64) float64 { return math.Max(0, math.Min(by, v)) }
	e := 1e-3 + 2e-6*math.Max(math.Abs(hi), math.Abs(ghi))/ch
	r.minLo = int(math.Floor(clamp(glo)/ch - e))
	r.minHi = int(math.Floor(clamp(lo)/ch + e))
	r.maxLo = int(math.Ceil(clamp(hi)/ch - e))
	r.maxHi = int(math.Ceil(clamp(ghi)/ch + e))
	if s == nil {
		// only touched: any part of it will do
		r.minHi, r.maxLo = r.maxHi, r.minLo
	}
	if r.minLo < 0 {
		r.minLo = 0
	}
	return
}

func checkRaster(e *hx.Env, f *rasterField, hf *recast.Heightfield, v [3][3]float32, area uint8, bufs *[2][]pt3) {
	for k := range hf.Spans {
		hf.Spans[k] = nil
	}
	if !recast.RasterizeTriangle(theCtx, v[0][:], v[1][:], v[2][:], area, hf, 1) {
		e.Failf("refused", "triangle %v refused", v)
	}
	e.Step(1)
	e.Eval(1)
	var t [3]pt3
	for i := range v {
		for c := range v[i] {
			t[i][c] = float64(v[i][c]) - float64(f.orig[c])
		}
	}
	n := 0
	for z := 0; z < f.h; z++ {
		for x := 0; x < f.w; x++ {
			s := hf.Spans[x+z*f.w]
			r := f.expectCell(t[:], x, z, bufs)
			if s == nil {
				if r.must {
					e.Failf("missed", "field %s: triangle %v overlaps cell (%d,%d) at heights %v..%v, but nothing is marked there", f.name, v, x, z, r.loExact, r.hiExact)
				}
				continue
			}
			n++
			if !r.may {
				e.Failf("outside", "field %s: triangle %v does not touch cell (%d,%d), but %v is marked there", f.name, v, x, z, readColumn(hf, x, z))
			}
			got := readSpan(s)
			if nextSpan(s) != nil || got.area != area {
				e.Failf("spans", "field %s: triangle %v leaves %v in cell (%d,%d)", f.name, v, readColumn(hf, x, z), x, z)
			}
			// at least one cell high
			if got.max <= got.min || got.min < r.minLo || got.min > r.minHi || got.max < r.maxLo || got.max > r.maxHi && got.max != got.min+1 {
				e.Failf("height", "field %s: triangle %v covers heights %v..%v of cell (%d,%d), but cells %d..%d are marked (expected %d..%d to %d..%d)", f.name, v, r.loExact, r.hiExact, x, z, got.min, got.max, r.minLo, r.minHi, r.maxLo, r.maxHi)
			}
		}
	}
	e.Outcome("%d cells", n)
	if e.WantSample() {
		e.Sample("field %s triangle %v: %d cells marked", f.name, v, n)
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C21", Level: "exploration",
		Rule:        "every ordered triple of vertices from a lattice around and beyond the field (so every vertex order, every degenerate triangle and every position relative to cell borders of the lattice); oracle: the exact intersection of the triangle with each column; cells that are only touched within 2e-4 are not judged; tall fields; pairs of triangles, and lists of up to 70000, through the three entry points are compared with rasterising them one by one; non-trivial: the triangle marks at least one cell",
		Assumptions: []string{"heights within 1e-3 of a cell limit may round either way"},
		Spaces: func(th bool) []hx.Space {
			fa := &rasterField{"3x3 cells of 1", [3]float32{0, 0, 0}, 1, 1, 3, 3, 3}
			fb := &rasterField{"3x2 cells of 0.5x0.25 at (-3,1,2)", [3]float32{-3, 1, 2}, 0.5, 0.25, 3, 2, 1}
			fc := &rasterField{"2x3 cells of 0.3x0.2 at (0.1,-7,5)", [3]float32{0.1, -7, 5}, 0.3, 0.2, 2, 3, 1}
			xs := []float32{-1.5, -0.5, 0, 0.75, 1, 2.25, 3.5}
			ys := []float32{-0.6, 0.5, 2.3}
			if th {
				xs = []float32{-2, -0.5, 0, 0.25, 0.75, 1, 1.5, 2, 2.25, 3, 3.5}
				ys = []float32{-0.6, 0, 1.5, 3.3}
			}
			mk2 := func(f *rasterField, xs, zs, ys []float32) hx.Space {
				nv := len(xs) * len(zs) * len(ys)
				vert := func(k int) (v [3]float32) {
					d := hx.NewDec(int64(k))
					v[0] = f.orig[0] + xs[d.Next(len(xs))]*f.cs
					v[2] = f.orig[2] + zs[d.Next(len(zs))]*f.cs
					v[1] = f.orig[1] + ys[d.Next(len(ys))]*f.ch
					return
				}
				vs := make([][3]float32, nv)
				for k := range vs {
					vs[k] = vert(k)
				}
				return hx.Space{Name: f.name, N: int64(nv) * int64(nv), Batch: 16,
					Bound: fmt.Sprintf("all ordered triples of %d lattice vertices", nv),
					Run: func(e *hx.Env, i int64) {
						a, b := int(i)%nv, int(i)/nv
						hf := f.make()
						var bufs [2][]pt3
						for c := 0; c < nv; c++ {
							checkRaster(e, f, hf, [3][3]float32{vs[a], vs[b], vs[c]}, 63, &bufs)
						}
						e.Trace()
					}}
			}
			mk := func(f *rasterField, xs, ys []float32) hx.Space { return mk2(f, xs, xs, ys) }
			small := []float32{-0.5, 0, 0.75, 1.5, 2, 3.5}
			out := []hx.Space{mk(fa, xs, ys)}
			if th {
				out = append(out, mk(fb, xs, []float32{-0.6, 1.25, 6.5}), mk(fc, xs, []float32{-0.6, 1.25, 7.5}))
			} else {
				out = append(out, mk(fb, small, []float32{-0.6, 1.25, 6.5}), mk(fc, small, []float32{-0.6, 1.25, 7.5}))
			}
			// tall fields
			fd := &rasterField{"2x2 cells of 1x1, 60000 high", [3]float32{0, 0, 0}, 1, 1, 2, 2, 60000}
			fe := &rasterField{"2x1 cells of 0.5x0.25 at (1,-900,2), 16000 cells high", [3]float32{1, -900, 2}, 0.5, 0.25, 2, 1, 4000}
			tx := []float32{-0.5, 0.25, 0.75, 1.5}
			ty := []float32{-700, 0.5, 300.5, 9000.25, 33000.5, 62000}
			if th {
				tx = append(tx, 1, 2.5)
			}
			out = append(out, mk(fd, tx, ty), mk(fe, tx, []float32{-700, 0.5, 300.5, 9000.25, 17000.5}))
			// wide fields
			long, short := []float32{-20.5, 0.25, 130.25, 255.5, 270}, []float32{-1.5, 0.25, 2.75}
			if th {
				long, short = append(long, 128, 299.75), append(short, 1)
			}
			ff := &rasterField{"260x2 cells of 1", [3]float32{0, 0, 0}, 1, 1, 260, 2, 40}
			fg := &rasterField{"2x260 cells of 0.5x0.25 at (-30,4,7)", [3]float32{-30, 4, 7}, 0.5, 0.25, 2, 260, 10}
			out = append(out, mk2(ff, long, short, []float32{0.5, 20.25}), mk2(fg, short, long, []float32{0.5, 20.25}))
			out = append(out, rasterEntry(fa), rasterMany(fa))
			return out
		},
	})
}

// rasterEntry compares the entry points with one another.
func rasterEntry(f *rasterField) hx.Space {
	vs := [][3]float32{{-0.5, 0.5, 0.25}, {0, 0, 0}, {1.5, 2.2, 0.75}, {2.25, 1, 2.5}, {3.5, 0.5, 1}, {0.5, 1.5, 3}, {1, 3.4, 1}}
	var tris [][3]int32
	for a := range vs {
		for b := range vs {
			for c := range vs {
				tris = append(tris, [3]int32{int32(a), int32(b), int32(c)})
			}
		}
	}
	var flat []float32
	for _, v := range vs {
		flat = append(flat, v[:]...)
	}
	return hx.Space{Name: "entry points", N: int64(len(tris)), Batch: 4, Bound: "all pairs of triangles over 7 vertices, areas 0/63, thresholds 0..2, indexed and non-indexed",
		Run: func(e *hx.Env, i int64) {
			t1 := tris[i]
			for _, t2 := range tris {
				for ar := 0; ar < 3; ar++ {
					areas := []uint8{[]uint8{0, 63, 63}[ar], []uint8{63, 0, 63}[ar]}
					thr := int32(ar)
					a, b, c := f.make(), f.make(), f.make()
					for k, t := range [][3]int32{t1, t2} {
						recast.RasterizeTriangle(theCtx, vs[t[0]][:], vs[t[1]][:], vs[t[2]][:], areas[k], a, thr)
					}
					idx := append(append([]int32{}, t1[:]...), t2[:]...)
					recast.RasterizeTriangles(theCtx, flat, int32(len(vs)), idx, areas, 2, b, thr)
					var soup []float32
					for _, k := range idx {
						soup = append(soup, vs[k][:]...)
					}
					recast.RasterizeTriangles2(theCtx, soup, areas, 2, c, thr)
					for k := 0; k < f.w*f.h; k++ {
						x, z := k%f.w, k/f.w
						ca, cb, cc := readColumn(a, x, z), readColumn(b, x, z), readColumn(c, x, z)
						if !ca.equal(cb) || !ca.equal(cc) {
							e.Failf("entry", "triangles %v %v of %v: one by one %v, indexed %v, non-indexed %v in cell (%d,%d)", t1, t2, vs, ca, cb, cc, x, z)
						}
					}
					e.Eval(1)
					e.Step(4)
				}
			}
			e.Trace()
		}}
}

// rasterMany rasterises long lists of triangles at once.
func rasterMany(f *rasterField) hx.Space {
	counts := []int{0, 1, 2, 100, 127, 128, 129, 255, 256, 257, 258, 1000, 4095, 4097, 32767, 32769, 65535, 65537, 70000}
	return hx.Space{Name: "long lists", N: int64(len(counts) * 2), Batch: 1, Bound: fmt.Sprintf("lists of %v triangles with their own vertices, in two orders, indexed and non-indexed", counts),
		Run: func(e *hx.Env, i int64) {
			n := counts[int(i)%len(counts)]
			var soup []float32
			var idx []int32
			var areas []uint8
			one := f.make()
			for k := 0; k < n; k++ {
				j := k
				if int(i) >= len(counts) {
					j = n - 1 - k
				}
				// a small triangle inside one cell; the last of each cell
				// decides, as they grow
				c := j % (f.w * f.h)
				x, z := float32(c%f.w)+0.25, float32(c/f.w)+0.25
				y := float32(j) * 2.75 / float32(n)
				v := []float32{x, y, z, x + 0.5, y, z, x, y, z + 0.5}
				a := uint8(j * 7 % 64)
				soup = append(soup, v...)
				idx = append(idx, int32(3*k), int32(3*k+1), int32(3*k+2))
				areas = append(areas, a)
				recast.RasterizeTriangle(theCtx, v[0:3], v[3:6], v[6:9], a, one, 1)
			}
			b, c := f.make(), f.make()
			if !recast.RasterizeTriangles(theCtx, soup, int32(3*n), idx, areas, int32(n), b, 1) || !recast.RasterizeTriangles2(theCtx, soup, areas, int32(n), c, 1) {
				e.Failf("refused", "a list of %d triangles is refused", n)
			}
			for k := 0; k < f.w*f.h; k++ {
				x, z := k%f.w, k/f.w
				ca, cb, cc := readColumn(one, x, z), readColumn(b, x, z), readColumn(c, x, z)
				if !ca.equal(cb) || !ca.equal(cc) {
					e.Failf("entry", "%d triangles (order %d): one by one %v, indexed %v, non-indexed %v in cell (%d,%d)", n, int(i)/len(counts), ca, cb, cc, x, z)
				}
				if (len(ca) == 0) != (k >= n) {
					e.Failf("missed", "%d triangles leave %v in cell (%d,%d)", n, ca, x, z)
				}
			}
			e.Eval(1)
			e.Step(3 * n)
			e.Trace()
		}}
}
