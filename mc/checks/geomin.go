package checks

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C30: slope classification and grid set-up

func init() {
	hx.Register(&hx.Check{
		ID: "C30", Level: "exploration",
		Rule:        "every ordered triple of vertices of a lattice (all non-degenerate triangles in both orientations) with every slope limit, on arrays of previous marks; every list of up to 4 vertices over a small coordinate set for the bounds; every extent and cell size over a fine lattice for the grid size; oracle: exact slope from integer normals, minimum and maximum, round half up; angles within 1e-4 of the limit are not judged; non-trivial: triangle not degenerate",
		Assumptions: []string{"degenerate triangles have no slope and are not judged"},
		Spaces: func(th bool) []hx.Space {
			cs := []int{-2, 0, 1, 3}
			if th {
				cs = []int{-3, -1, 0, 1, 2, 5}
			}
			n := len(cs) * len(cs) * len(cs)
			pt := func(k int) [3]int {
				return [3]int{cs[k%len(cs)], cs[k/len(cs)%len(cs)], cs[k/len(cs)/len(cs)]}
			}
			slopes := []float32{0, 1, 20, 30, 44, 45, 46, 60, 75, 89}
			return []hx.Space{
				{Name: "triangles", N: int64(n) * int64(n), Batch: 32, Bound: fmt.Sprintf("all ordered triples of %d lattice vertices, slopes %v", n, slopes),
					Run: func(e *hx.Env, i int64) {
						checkSlopes(e, pt(int(i)%n), pt(int(i)/n), n, pt, slopes)
					}},
				{Name: "bounds", N: 4 * 256, Batch: 8, Bound: "all lists of 1 to 4 vertices over {-1.5, 0, 2, 7}^3",
					Run: func(e *hx.Env, i int64) { checkBounds(e, int(i)) }},
				{Name: "grid", N: 7, Batch: 1, Bound: "all extents of 0..40 units in steps of 1/16 for 7 cell sizes",
					Run: func(e *hx.Env, i int64) { checkGridSize(e, []float32{0.25, 0.3, 0.5, 0.75, 1, 1.5, 2}[i]) }},
				largeGeometry(),
			}
		},
	})
}

func checkSlopes(e *hx.Env, a, b [3]int, n int, pt func(int) [3]int, slopes []float32) {
	var verts []float32
	var tris []int32
	var ang []float64
	add := func(v [3]int) int32 {
		verts = append(verts, float32(v[0]), float32(v[1]), float32(v[2]))
		return int32(len(verts)/3 - 1)
	}
	ia, ib := add(a), add(b)
	for k := 0; k < n; k++ {
		c := pt(k)
		u := [3]int{b[0] - a[0], b[1] - a[1], b[2] - a[2]}
		v := [3]int{c[0] - a[0], c[1] - a[1], c[2] - a[2]}
		nx, ny, nz := u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]
		if nx == 0 && ny == 0 && nz == 0 {
			continue
		}
		tris = append(tris, ia, ib, add(c))
		ang = append(ang, math.Atan2(math.Sqrt(float64(nx*nx+nz*nz)), float64(ny))*180/math.Pi)
	}
	nt := len(ang)
	if nt == 0 {
		e.Skip("all degenerate")
	}
	for _, sl := range slopes {
		for prev := 0; prev < 3; prev++ {
			areas := make([]uint8, nt+1)
			for k := range areas {
				areas[k] = []uint8{0, 7, 63}[(prev+k)%3]
			}
			mark := append([]uint8(nil), areas...)
			recast.MarkWalkableTriangles(theCtx, sl, verts, int32(len(verts)/3), tris, int32(nt), mark)
			clr := append([]uint8(nil), areas...)
			recast.ClearUnwalkableTriangles(theCtx, sl, verts, int32(len(verts)/3), tris, int32(nt), clr)
			e.Step(2)
			e.Eval(nt)
			for k := range areas {
				wm, wc := areas[k], areas[k]
				if k < nt {
					if math.Abs(ang[k]-float64(sl)) < 0.05 {
						if mark[k] != wm && mark[k] != 63 || clr[k] != wc && clr[k] != 0 {
							e.Failf("mark", "triangle %v %v %v gets %d and %d", a, b, tris[k*3:k*3+3], mark[k], clr[k])
						}
						if (mark[k] == 63) == (clr[k] == 0) && areas[k] == 7 {
							e.Failf("mark", "triangle %v %v %v, slope limit %v: marked %d but cleared to %d", a, b, verts[tris[k*3+2]*3:tris[k*3+2]*3+3], sl, mark[k], clr[k])
						}
						continue
					}
					if ang[k] < float64(sl) {
						wm = 63
					} else {
						wc = 0
					}
				}
				if mark[k] != wm || clr[k] != wc {
					var c []float32
					if k < nt {
						c = verts[tris[k*3+2]*3 : tris[k*3+2]*3+3]
					}
					e.Failf("mark", "triangle %d %v %v %v, slope limit %v, area %d: marked %d instead of %d, cleared %d instead of %d", k, a, b, c, sl, areas[k], mark[k], wm, clr[k], wc)
				}
			}
		}
	}
	e.Outcome("%d triangles", nt/16*16)
	e.Trace()
}

func checkBounds(e *hx.Env, i int) {
	cs := []float32{-1.5, 0, 2, 7}
	nv := i/256 + 1
	// two vertices are enumerated completely, further ones derived
	k := i % 256
	for k2 := 0; k2 < 64; k2++ {
		var verts []float32
		for j := 0; j < nv; j++ {
			v := k % 64
			switch j {
			case 1:
				v = k2
			case 2:
				v = (k/64*21 + k2*5 + 3) % 64
			case 3:
				v = (k*7 + k2*3 + k/64) % 64
			}
			verts = append(verts, cs[v%4], cs[v/4%4], cs[v/16])
		}
		lo, hi := append([]float32(nil), verts[:3]...), append([]float32(nil), verts[:3]...)
		for j := range verts {
			lo[j%3] = float32(math.Min(float64(lo[j%3]), float64(verts[j])))
			hi[j%3] = float32(math.Max(float64(hi[j%3]), float64(verts[j])))
		}
		in := append([]float32(nil), verts...)
		in = append(in, 99, -99, 99) // not part of the list
		bmin, bmax := []float32{5, 5, 5}, []float32{-5, -5, -5}
		recast.CalcBounds(in, int32(nv), bmin, bmax)
		for c := 0; c < 3; c++ {
			if bmin[c] != lo[c] || bmax[c] != hi[c] {
				e.Failf("bounds", "vertices %v: bounds %v %v instead of %v %v", verts, bmin, bmax, lo, hi)
			}
		}
		for j := range verts {
			if in[j] != verts[j] {
				e.Failf("bounds", "vertices changed")
			}
		}
		e.Eval(1)
		e.Step(1)
	}
	e.Trace()
}

func checkGridSize(e *hx.Env, cs float32) {
	for a := 0; a <= 640; a++ {
		for b := 0; b <= 640; b += 1 + a%7 {
			w0, h0 := float32(a)/16, float32(b)/16
			for _, o := range []float32{0, -3.5, 100.25} {
				w, h := recast.CalcGridSize([]float32{o, 1, -o}, []float32{o + w0, 9, -o + h0}, cs)
				for k, x := range [2]float64{float64(w0), float64(h0)} {
					got := []int32{w, h}[k]
					r := x / float64(cs)
					if d := math.Abs(float64(got) - r); d > 0.5+1e-3 {
						e.Failf("grid", "extent %v with cells of %v at %v is %d cells", x, cs, o, got)
					}
					if f := r - math.Floor(r); f == 0.5 && cs != 0.3 && float64(got) != math.Ceil(r) {
						e.Failf("grid", "extent %v with cells of %v at %v is %d cells instead of %v", x, cs, o, got, math.Ceil(r))
					}
				}
				e.Eval(1)
				e.Step(1)
			}
		}
	}
	e.Trace()
}

// ---- C31: the chunked triangle mesh

func init() {
	hx.Register(&hx.Check{
		ID: "C31", Level: "exploration",
		Rule:        "triangle sets of every size around the chunk limit (and multiples) in several layouts (grids, lines, overlapping stacks, mixed sizes), loaded as OBJ geometry; every lattice rectangle over and beyond the set, with result lists of every length from 0 to more than needed; oracle: overlap of the triangles' bounds with the rectangle; non-trivial: some but not all chunks overlap",
		Assumptions: []string{"the library builds chunks of at most 256 triangles"},
		Spaces: func(th bool) []hx.Space {
			sizes := []int{1, 2, 3, 255, 256, 257, 511, 512, 513, 767, 769, 1023, 1025, 1300, 2049, 20000}
			if th {
				sizes = nil
				for n := 1; n < 40; n++ {
					sizes = append(sizes, n, 250+n, 500+n, 760+n, 1010+n, 2030+n)
				}
				sizes = append(sizes, 4096, 5000, 10000)
			}
			const layouts = 6
			return []hx.Space{{Name: "rectangles", N: int64(len(sizes) * layouts), Batch: 1, Bound: fmt.Sprintf("%d set sizes up to %d, %d layouts, all lattice rectangles", len(sizes), sizes[len(sizes)-1], layouts),
				Run: func(e *hx.Env, i int64) { checkChunks(e, sizes[int(i)/layouts], int(i)%layouts) }}}
		},
	})
}

func chunkTriangles(n, layout int) (verts [][3]float32, tris [][3]int) {
	for k := 0; k < n; k++ {
		var x, z, s float32
		s = 0.5
		switch layout {
		case 0: // grid
			w := int(math.Sqrt(float64(n))) + 1
			x, z = float32(k%w), float32(k/w)
		case 1: // line along x, reversed
			x, z = float32(n-k)*40/float32(n), 3
		case 2: // line along z, interleaved
			x, z = 5, float32((k*7)%n)*40/float32(n)
		case 3: // all on top of each other, growing
			x, z, s = 10, 10, 0.25+float32(k%50)*0.25
		case 4: // diagonal
			x, z = float32(k%41), float32(40-k%41)
			s = float32(1 + k%3)
		case 5: // a few far away ones
			x, z = float32(k%7), float32(k%5)
			if k%97 == 0 {
				x, z = 38, 37
			}
		}
		b := len(verts)
		verts = append(verts, [3]float32{x, float32(k % 3), z}, [3]float32{x + s, 1, z}, [3]float32{x, 2, z + s})
		if k%2 == 0 {
			tris = append(tris, [3]int{b, b + 2, b + 1})
		} else {
			tris = append(tris, [3]int{b + 1, b + 2, b})
		}
	}
	return
}

func objText(verts [][3]float32, tris [][3]int) string {
	var sb strings.Builder
	for _, v := range verts {
		fmt.Fprintf(&sb, "v %v %v %v\n", v[0], v[1], v[2])
	}
	for _, t := range tris {
		fmt.Fprintf(&sb, "f %d %d %d\n", t[0]+1, t[1]+1, t[2]+1)
	}
	return sb.String()
}

func checkChunks(e *hx.Env, n, layout int) {
	verts, tris := chunkTriangles(n, layout)
	ig := &recast.InputGeom{}
	if err := ig.LoadOBJMesh(strings.NewReader(objText(verts, tris))); err != nil {
		e.Failf("load", "%d triangles, layout %d: %v", n, layout, err)
	}
	cm := ig.ChunkyMesh()
	where := fmt.Sprintf("%d triangles, layout %d", n, layout)
	// every triangle once, in chunks within the limit
	count := map[[3]int]int{}
	leaf := map[int32][][3]int{}
	total, most := 0, int32(0)
	for i := int32(0); i < cm.Nnodes; i++ {
		nd := &cm.Nodes[i]
		if nd.I < 0 {
			continue
		}
		if nd.N < 1 || nd.N > 256 {
			e.Failf("size", "%s: chunk %d has %d triangles", where, i, nd.N)
		}
		if nd.N > most {
			most = nd.N
		}
		for k := nd.I; k < nd.I+nd.N; k++ {
			t := [3]int{int(cm.Tris[k*3]), int(cm.Tris[k*3+1]), int(cm.Tris[k*3+2])}
			count[t]++
			leaf[i] = append(leaf[i], t)
			total++
		}
	}
	if total != n || int(cm.Ntris) != n || cm.MaxTrisPerChunk != most {
		e.Failf("count", "%s: %d triangles in chunks, Ntris %d, MaxTrisPerChunk %d (largest %d)", where, total, cm.Ntris, cm.MaxTrisPerChunk, most)
	}
	type box struct{ x0, z0, x1, z1 float32 }
	bb := func(t [3]int) box {
		r := box{verts[t[0]][0], verts[t[0]][2], verts[t[0]][0], verts[t[0]][2]}
		for _, k := range t[1:] {
			v := verts[k]
			r.x0, r.x1 = min(r.x0, v[0]), max(r.x1, v[0])
			r.z0, r.z1 = min(r.z0, v[2]), max(r.z1, v[2])
		}
		return r
	}
	for _, t := range tris {
		if count[t] != 1 {
			e.Failf("once", "%s: triangle %v is stored %d times", where, t, count[t])
		}
	}
	// chunk bounds from their triangles
	lb := map[int32]box{}
	for i, ts := range leaf {
		r := bb(ts[0])
		for _, t := range ts[1:] {
			b := bb(t)
			r = box{min(r.x0, b.x0), min(r.z0, b.z0), max(r.x1, b.x1), max(r.z1, b.z1)}
		}
		lb[i] = r
	}
	lat := []float32{-2, 0, 0.5, 3, 7, 10, 10.25, 20, 36, 38, 39.5, 41, 60}
	partial := 0
	for _, x0 := range lat {
		for _, x1 := range lat {
			if x1 < x0 {
				continue
			}
			for _, z0 := range lat {
				for _, z1 := range lat {
					if z1 < z0 {
						continue
					}
					want := map[int32]bool{}
					for i, b := range lb {
						if b.x0 <= x1 && b.x1 >= x0 && b.z0 <= z1 && b.z1 >= z0 {
							want[i] = true
						}
					}
					if len(want) > 0 && len(want) < len(lb) {
						partial++
					}
					ids := make([]int32, len(lb)+3)
					for k := range ids {
						ids[k] = -7
					}
					got := cm.ChunksOverlappingRect([2]float32{x0, z0}, [2]float32{x1, z1}, ids)
					if got != len(want) {
						e.Failf("rect", "%s: rectangle (%v,%v)-(%v,%v) gives %d chunks instead of %d", where, x0, z0, x1, z1, got, len(want))
					}
					for k := 0; k < got; k++ {
						if !want[ids[k]] {
							e.Failf("rect", "%s: rectangle (%v,%v)-(%v,%v) gives chunk %d (twice, or it does not overlap)", where, x0, z0, x1, z1, ids[k])
						}
						delete(want, ids[k])
					}
					for k := got; k < len(ids); k++ {
						if ids[k] != -7 {
							e.Failf("rect", "%s: entry %d of the result list written", where, k)
						}
					}
					// too small lists
					for l := 0; l < got && l < 4; l++ {
						small := make([]int32, l+1)
						small[l] = -7
						n2 := cm.ChunksOverlappingRect([2]float32{x0, z0}, [2]float32{x1, z1}, small[:l])
						if n2 != l || small[l] != -7 {
							e.Failf("small", "%s: list of %d: %d returned", where, l, n2)
						}
						for k := 0; k < l; k++ {
							if small[k] != ids[k] {
								e.Failf("small", "%s: list of %d is not the beginning of the result", where, l)
							}
						}
						e.Step(1)
					}
					e.Eval(1)
					e.Step(1)
				}
			}
		}
	}
	e.Outcome("%d chunks, partial overlaps %v", len(lb), partial > 0)
	e.State(hx.H(where))
	e.Trace()
}

// ---- C32: OBJ geometry

// objLine is a line of the small OBJ language with its meaning.
type objLine struct {
	text string
	v    *[3]float64
	f    []int // 1-based vertex indices
	bad  bool
}

var objLines = []objLine{
	{text: "v 1 2 3", v: &[3]float64{1, 2, 3}},
	{text: "v -0.5 1e1 .25", v: &[3]float64{-0.5, 10, 0.25}},
	{text: "v 4 0 -1 1.0", v: &[3]float64{4, 0, -1}},
	{text: "f 1 2 3", f: []int{1, 2, 3}},
	{text: "f 3/1 1/2/3 2//4 4", f: []int{3, 1, 2, 4}},
	{text: "f 1 2 3 4 5", f: []int{1, 2, 3, 4, 5}},
	{text: "f 6 5 4 3 2 1", f: []int{6, 5, 4, 3, 2, 1}},
	{text: "# comment"},
	{text: "vn 0 1 0"},
	{text: "vt 0.5 0.5"},
	{text: "usemtl f 1 2 3"},
	{text: ""},
	{text: "v 1 x 3", bad: true},
	{text: "f 1 b 3", bad: true},
	{text: "v 1 2 3 4 5", bad: true},
	{text: "f 0 1 2", bad: true},
	{text: "f -9 1 2", bad: true},
	{text: "f 1 2 77", bad: true},
}

type objModel struct {
	verts [][3]float64
	tris  [][3]int
	bad   bool
}

// objMeaning is the specification of a document; invalid references are
// judged at the end of the document (later vertices do not count).
func objMeaning(lines []objLine) (m objModel) {
	for _, l := range lines {
		if l.bad {
			m.bad = true
			return
		}
		if l.v != nil {
			m.verts = append(m.verts, *l.v)
		}
		if l.f != nil {
			for _, k := range l.f {
				if k > len(m.verts) {
					m.bad = true
					return
				}
			}
			for k := 2; k < len(l.f); k++ {
				m.tris = append(m.tris, [3]int{l.f[0] - 1, l.f[k-1] - 1, l.f[k] - 1})
			}
		}
	}
	return
}

func judgeOBJ(e *hx.Env, text string, m objModel, ml *recast.MeshLoaderOBJ, where string) {
	if int(ml.VertCount()) != len(m.verts) || int(ml.TriCount()) != len(m.tris) || len(ml.Verts()) != 3*len(m.verts) || len(ml.Tris()) != 3*len(m.tris) || len(ml.Normals()) != len(ml.Tris()) {
		e.Failf("count", "%s %q: %d vertices and %d triangles instead of %d and %d", where, text, ml.VertCount(), ml.TriCount(), len(m.verts), len(m.tris))
	}
	for k, v := range m.verts {
		for c := range v {
			if ml.Verts()[3*k+c] != float32(v[c]) {
				e.Failf("vertex", "%s %q: vertex %d is %v instead of %v", where, text, k, ml.Verts()[3*k:3*k+3], v)
			}
		}
	}
	for k, t := range m.tris {
		for c := range t {
			if int(ml.Tris()[3*k+c]) != t[c] {
				e.Failf("triangle", "%s %q: triangle %d is %v instead of %v", where, text, k, ml.Tris()[3*k:3*k+3], t)
			}
		}
		a, b, c := m.verts[t[0]], m.verts[t[1]], m.verts[t[2]]
		var u, v, n [3]float64
		for j := range u {
			u[j], v[j] = b[j]-a[j], c[j]-a[j]
		}
		n = [3]float64{u[1]*v[2] - u[2]*v[1], u[2]*v[0] - u[0]*v[2], u[0]*v[1] - u[1]*v[0]}
		l := math.Sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2])
		for j := range n {
			if l > 0 {
				n[j] /= l
			}
			if g := float64(ml.Normals()[3*k+j]); math.Abs(g-n[j]) > 1e-5 {
				e.Failf("normal", "%s %q: normal of triangle %d is %v instead of %v", where, text, k, ml.Normals()[3*k:3*k+3], n)
			}
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C32", Level: "fault_enumeration",
		Rule:        "every document of up to 4 (5) lines over an alphabet of 18 line kinds after a common head of vertices; for a set of documents every truncation point, every position of a reader failure, every uniform read size and every single split, with io.EOF together with or after the data; oracle: an independent reading of the lines; malformed documents, failing readers and documents without geometry must give an error, never a crash; non-trivial: the document has a face",
		Assumptions: []string{"fields are separated by single blanks"},
		Spaces: func(th bool) []hx.Space {
			n := 4
			if th {
				n = 5
			}
			k := len(objLines)
			return []hx.Space{
				{Name: "documents", N: hx.Pow(k, n) * 3, Batch: 512, Bound: fmt.Sprintf("all documents of %d lines over %d line kinds after 0, 3 or 6 vertices", n, k),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						var ls []objLine
						for j := d.Next(3) * 3; j > 0; j-- {
							ls = append(ls, objLine{text: fmt.Sprintf("v %d %d %d", j, j*j%5, 7-j*j*j%6), v: &[3]float64{float64(j), float64(j * j % 5), float64(7 - j*j*j%6)}})
						}
						for j := 0; j < n; j++ {
							ls = append(ls, objLines[d.Next(k)])
						}
						checkOBJ(e, ls)
					}},
				{Name: "readers", N: int64(len(objDocs)), Batch: 1, Bound: "every truncation, failure position, uniform read size and single split of the documents",
					Run: func(e *hx.Env, i int64) { checkOBJReaders(e, objDocs[i]) }},
				largeOBJ(),
			}
		},
	})
}

func checkOBJ(e *hx.Env, ls []objLine) {
	var t []string
	for _, l := range ls {
		t = append(t, l.text)
	}
	text := strings.Join(t, "\n")
	m := objMeaning(ls)
	ml := recast.NewMeshLoaderOBJ()
	var err error
	if p := try(func() { err = ml.Load(strings.NewReader(text)) }); p != nil {
		e.Failf("panic", "loading %q crashes: %v", text, p)
	}
	e.Step(1)
	if m.bad {
		e.Outcome("malformed")
		if err == nil {
			e.Failf("malformed", "loading %q gives no error", text)
		}
	} else {
		if err != nil {
			e.Failf("refused", "loading %q fails: %v", text, err)
		}
		judgeOBJ(e, text, m, ml, "document")
		// a loader that has loaded another document before
		again := recast.NewMeshLoaderOBJ()
		for _, doc := range []string{otherOBJ, text} {
			if p := try(func() { err = again.Load(strings.NewReader(doc)) }); p != nil || err != nil {
				e.Failf("again", "loading %q after another document: %v %v", doc, p, err)
			}
			e.Step(1)
		}
		judgeOBJ(e, text, m, again, "document loaded after another")
		e.Outcome("well formed, triangles: %v", len(m.tris) > 0)
	}
	// as input geometry
	ig := &recast.InputGeom{}
	if p := try(func() { err = ig.LoadOBJMesh(strings.NewReader(text)) }); p != nil {
		e.Failf("panic", "loading geometry %q crashes: %v", text, p)
	}
	e.Step(1)
	if m.bad || len(m.tris) == 0 {
		if err == nil {
			e.Failf("empty", "loading geometry %q gives no error", text)
		}
		return
	}
	if err != nil {
		e.Failf("refused", "loading geometry %q fails: %v", text, err)
	}
	judgeOBJ(e, text, m, ig.Mesh(), "geometry")
	for c := 0; c < 3; c++ {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, v := range m.verts {
			lo, hi = math.Min(lo, v[c]), math.Max(hi, v[c])
		}
		if ig.MeshBoundsMin()[c] != float32(lo) || ig.MeshBoundsMax()[c] != float32(hi) || ig.NavMeshBoundsMin()[c] != float32(lo) || ig.NavMeshBoundsMax()[c] != float32(hi) {
			e.Failf("bounds", "geometry %q: bounds %v %v", text, ig.MeshBoundsMin(), ig.MeshBoundsMax())
		}
	}
	e.Trace()
}

var objDocs = []string{
	"v 0 0 0\nv 1 0 0\nv 0 0 1\nv 1 0 1\nf 1 3 2\nf 2 3 4\n",
	"# two quads\n\nv 0 0 0\nv 1 0.5 0\nv 0 0 -1.25e0\nv 1 0 1\nvn 0 1 0\nf 1//1 3//1 4//1 2//1\nf 4 3 2 1",
	"o a\nv -10 2 3\nv 10 2 3\nv 0 5 -3\nf 1 2 3\nv 9 9 9\nf 4 1 2\n# end",
}

var errInjected = errors.New("injected")

// splitReader delivers data in pieces, then the error; withData returns the
// error together with the last piece.
type splitReader struct {
	data     string
	cuts     func(pos int) int // size of the next read
	pos      int
	err      error
	withData bool
}

func (r *splitReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, r.err
	}
	n := min(r.cuts(r.pos), len(p), len(r.data)-r.pos)
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.withData && r.pos >= len(r.data) {
		return n, r.err
	}
	return n, nil
}

const otherOBJ = "v 0 0 0\nv 0 0 1\nv 1 0 0\nv 1 0 1\nv 2 0 5\nf 1 2 3\nf 3 2 4 5\n"

func checkOBJReaders(e *hx.Env, doc string) {
	load := func(r io.Reader) (string, error) {
		ml := recast.NewMeshLoaderOBJ()
		var err error
		if p := try(func() { err = ml.Load(r) }); p != nil {
			return fmt.Sprintf("crash: %v", p), fmt.Errorf("crash: %v", p)
		}
		e.Step(1)
		e.Eval(1)
		return fmt.Sprint(ml.Verts(), ml.Tris(), ml.Normals()), err
	}
	want, err := load(strings.NewReader(doc))
	if err != nil {
		e.Failf("refused", "%q: %v", doc, err)
	}
	whole := func(int) int { return len(doc) }
	judge := func(r *splitReader, what string) {
		got, err := load(r)
		if err != nil || got != want {
			e.Failf("splitting", "%q with %s: %v, %s instead of %s", doc, what, err, got, want)
		}
	}
	for _, wd := range []bool{false, true} {
		for n := 1; n <= len(doc)+1; n++ {
			n := n
			judge(&splitReader{data: doc, cuts: func(int) int { return n }, err: io.EOF, withData: wd}, fmt.Sprintf("reads of %d", n))
			judge(&splitReader{data: doc, cuts: func(p int) int {
				if p < n {
					return n - p
				}
				return len(doc)
			}, err: io.EOF, withData: wd}, fmt.Sprintf("a split at %d", n))
		}
		for n := 0; n <= len(doc); n++ {
			// the reader fails after n bytes
			if got, err := load(&splitReader{data: doc[:n], cuts: whole, err: errInjected, withData: wd}); err == nil {
				e.Failf("failure", "%q: reader failing after %d bytes gives no error but %s", doc, n, got)
			} else if strings.HasPrefix(err.Error(), "crash") {
				e.Failf("panic", "%q: reader failing after %d bytes: %v", doc, n, err)
			}
			// the document ends after n bytes: an error or the document
			// that is there, never a crash
			if got, err := load(&splitReader{data: doc[:n], cuts: whole, err: io.EOF, withData: wd}); err != nil && strings.HasPrefix(err.Error(), "crash") {
				e.Failf("panic", "%q cut after %d bytes: %s", doc, n, got)
			}
		}
	}
	e.State(hx.H(doc))
	e.Trace()
}

// largeGeometry marks and bounds lists of thousands of triangles, and sizes
// grids of up to a million cells.
func largeGeometry() hx.Space {
	counts := []int{255, 256, 257, 5000, 22000, 70000}
	return hx.Space{Name: "large", N: int64(len(counts)), Batch: 1, Bound: fmt.Sprintf("lists of %v triangles, with vertices of their own or shared, the extreme vertex at every 64th of the list; grids of up to 2^20 cells a side", counts),
		Run: func(e *hx.Env, i int64) {
			n := counts[i]
			for shared := 0; shared < 2; shared++ {
				var verts []float32
				var tris []int32
				want := make([]uint8, n)
				if shared == 1 {
					// a flat, a steep and an upside down triangle at the end of many vertices
					verts = make([]float32, 3*n)
					verts = append(verts, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 5, 1)
				}
				for k := 0; k < n; k++ {
					kind := (k*k/7 + k) % 3
					b := int32(len(verts) / 3)
					if shared == 1 {
						b = int32(n)
						switch kind {
						case 0:
							tris = append(tris, b, b+1, b+2)
						case 1:
							tris = append(tris, b, b+3, b+2)
						case 2:
							tris = append(tris, b, b+2, b+1)
						}
					} else {
						x := float32(k)
						verts = append(verts, x, 0, 0, x, 0, 1, x+1, 0, 0)
						if kind == 1 {
							verts[3*b+4] = 5
						}
						tris = append(tris, b, b+1, b+2)
						if kind == 2 {
							tris[3*k+1], tris[3*k+2] = b+2, b+1
						}
					}
					if kind == 0 {
						want[k] = 63
					}
				}
				mark := make([]uint8, n)
				recast.MarkWalkableTriangles(theCtx, 45, verts, int32(len(verts)/3), tris, int32(n), mark)
				clr := make([]uint8, n)
				for k := range clr {
					clr[k] = 63
				}
				recast.ClearUnwalkableTriangles(theCtx, 45, verts, int32(len(verts)/3), tris, int32(n), clr)
				e.Step(2)
				for k := range want {
					if mark[k] != want[k] || clr[k] != want[k] {
						e.Failf("mark-large", "triangle %d of %d: marked %d, cleared to %d instead of %d", k, n, mark[k], clr[k], want[k])
					}
				}
				e.Eval(2 * n)
			}
			// the extreme vertex anywhere
			for at := 0; at < n; at += max(1, n/64) {
				verts := make([]float32, 3*n)
				verts[3*at+at%3] = 7
				if at > 0 {
					verts[3*(at-1)+(at+1)%3] = -4
				}
				var lo, hi [3]float32
				hi[at%3] = 7
				if at > 0 {
					lo[(at+1)%3] = -4
				}
				if n == 1 {
					lo = hi
				}
				bmin, bmax := make([]float32, 3), make([]float32, 3)
				recast.CalcBounds(verts, int32(n), bmin, bmax)
				e.Step(1)
				for c := range lo {
					if bmin[c] != lo[c] || bmax[c] != hi[c] {
						e.Failf("bounds-large", "%d vertices, the extreme one is vertex %d: bounds %v %v", n, at, bmin, bmax)
					}
				}
				e.Eval(1)
			}
			for k := uint(0); k <= 20; k++ {
				for _, off := range []int{-1, 0, 1} {
					w := 1<<k + off
					for _, cs := range []float32{0.125, 0.5, 2} {
						gw, gh := recast.CalcGridSize([]float32{0, 0, 0}, []float32{float32(w) * cs, 1, 3 * cs}, cs)
						gw2, gh2 := recast.CalcGridSize([]float32{0, 0, 0}, []float32{3 * cs, 1, float32(w) * cs}, cs)
						e.Step(2)
						if gw != int32(w) || gh != 3 || gw2 != 3 || gh2 != int32(w) {
							e.Failf("grid-large", "%d cells of %v by 3 are %dx%d and %dx%d", w, cs, gw, gh, gw2, gh2)
						}
					}
				}
			}
			e.State(hx.H("large", n))
			e.Trace()
		}}
}

// largeOBJ loads documents of thousands of vertices and faces of hundreds.
func largeOBJ() hx.Space {
	type size struct{ verts, faces, corners int }
	sizes := []size{{300, 300, 3}, {300, 5, 200}, {1000, 3, 1000}, {5000, 9000, 4}, {70000, 1000, 7}, {70000, 70000, 3}}
	for c := 7; c <= 40; c++ {
		sizes = append(sizes, size{c + c%3, 2, c})
	}
	return hx.Space{Name: "large", N: int64(len(sizes) * 2), Batch: 1, Bound: fmt.Sprintf("documents of {vertices, faces, corners} %v, vertices before or between the faces", sizes),
		Run: func(e *hx.Env, i int64) {
			z := sizes[i/2]
			mixed := i%2 == 1
			var ls []objLine
			vert := func(k int) {
				v := [3]float64{float64(k % 977), float64(k*7%31) / 4, float64(k / 977)}
				ls = append(ls, objLine{text: fmt.Sprintf("v %g %g %g", v[0], v[1], v[2]), v: &v})
			}
			nv := z.verts
			if mixed {
				nv = z.corners
			}
			for k := 0; k < nv; k++ {
				vert(k)
			}
			for f := 0; f < z.faces; f++ {
				text, ids := "f", []int(nil)
				for c := 0; c < z.corners; c++ {
					k := (nv-1-f*31-c)%nv + 1
					if k < 1 {
						k += nv
					}
					text += fmt.Sprintf(" %d", k)
					ids = append(ids, k)
				}
				ls = append(ls, objLine{text: text, f: ids})
				if mixed && nv < z.verts {
					vert(nv)
					nv++
				}
			}
			t := make([]string, len(ls))
			for k, l := range ls {
				t[k] = l.text
			}
			text := strings.Join(t, "\n")
			m := objMeaning(ls)
			ml := recast.NewMeshLoaderOBJ()
			err := ml.Load(strings.NewReader(text))
			if err != nil {
				e.Failf("large-refused", "%v: %v", z, err)
			}
			name := text[:min(40, len(text))]
			judgeOBJ(e, name, m, ml, "large document")
			ig := &recast.InputGeom{}
			if err := ig.LoadOBJMesh(strings.NewReader(text)); err != nil {
				e.Failf("large-refused", "geometry %v: %v", z, err)
			}
			judgeOBJ(e, name, m, ig.Mesh(), "large geometry")
			e.Step(2)
			e.Eval(len(m.tris))
			e.State(hx.H(i, "obj"))
			e.Trace()
		}}
}
