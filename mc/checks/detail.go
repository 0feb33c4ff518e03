package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C29: the detail mesh

type dset struct {
	dist, err float32
}

type dvert struct {
	x, y, z float64 // in world units, relative to the field's origin
}

func segDistXZ(p, a, b dvert) float64 {
	dx, dz := b.x-a.x, b.z-a.z
	t := 0.0
	if l := dx*dx + dz*dz; l > 0 {
		t = math.Max(0, math.Min(1, ((p.x-a.x)*dx+(p.z-a.z)*dz)/l))
	}
	return math.Hypot(p.x-a.x-t*dx, p.z-a.z-t*dz)
}

func segDist3(p, a, b dvert) float64 {
	dx, dy, dz := b.x-a.x, b.y-a.y, b.z-a.z
	t := 0.0
	if l := dx*dx + dy*dy + dz*dz; l > 0 {
		t = math.Max(0, math.Min(1, ((p.x-a.x)*dx+(p.y-a.y)*dy+(p.z-a.z)*dz)/l))
	}
	return math.Sqrt(sq(p.x-a.x-t*dx) + sq(p.y-a.y-t*dy) + sq(p.z-a.z-t*dz))
}

func sq(a float64) float64 { return a * a }

func cross2f(a, b, c dvert) float64 {
	return (b.x-a.x)*(c.z-a.z) - (b.z-a.z)*(c.x-a.x)
}

// insideDist is the distance of p from the outline, positive inside.
func insideDist(poly []dvert, p dvert) float64 {
	in := false
	d := math.Inf(1)
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		if (a.z > p.z) != (b.z > p.z) && p.x < a.x+(b.x-a.x)*(p.z-a.z)/(b.z-a.z) {
			in = !in
		}
		d = math.Min(d, segDistXZ(p, a, b))
	}
	if in {
		return d
	}
	return -d
}

// checkDetail judges the detail mesh of a polygon mesh. exact is the height
// of the only span of a cell, if the field has one level and no missing cells
// (else nil).
func checkDetail(e *hx.Env, chf *recast.CompactHeightfield, m *recast.PolyMesh, s dset, exact func(x, z int) int, where func() string) {
	var d *recast.PolyMeshDetail
	ok := false
	what := func() string {
		return fmt.Sprintf("%s, contour error %v, %d vertices per polygon, sample distance %v, sample error %v", where(), m.MaxEdgeError, m.Nvp, s.dist, s.err)
	}
	if msg := try(func() { d, ok = recast.BuildPolyMeshDetail(theCtx, m, chf, s.dist, s.err) }); msg != nil {
		e.Failf("panic", "%s: BuildPolyMeshDetail crashes: %v", what(), msg)
	}
	e.Step(1)
	e.Eval(1)
	if !ok || d == nil {
		e.Failf("refused", "%s: refused", what())
	}
	polys, msg := readPolys(m)
	if msg != "" {
		e.Skip("malformed polygon mesh")
	}
	if int(d.NMeshes) != len(polys) || len(d.Meshes) < 4*len(polys) || len(d.Verts) < 3*int(d.NVerts) || len(d.Tris) < 4*int(d.NTris) {
		e.Failf("counts", "%s: %d sub-meshes for %d polygons, %d vertices in %d, %d triangles in %d", what(), d.NMeshes, len(polys), d.NVerts, len(d.Verts), d.NTris, len(d.Tris))
	}
	cs, ch := float64(m.Cs), float64(m.Ch)
	const eps = 1e-3
	tol := eps * math.Max(cs, ch)
	vb, tb := 0, 0
	radius := 1
	if r := int(math.Ceil(float64(m.MaxEdgeError))); r > radius {
		radius = r
	}
	dist, serr := float64(s.dist), float64(s.err)
	type key struct{ a, b int }
	edges := map[key][][]dvert{} // samples of each edge, from the lower vertex
	W, H, B := int(chf.Width), int(chf.Height), int(m.BorderSize)
	clamp := func(x, n int) int {
		if x < 0 {
			return 0
		}
		if x > n-1 {
			return n - 1
		}
		return x
	}
	// patch finds the heights known around a polygon: its region's cells and
	// what is connected to them there (nil if not known, or with several levels)
	single := exact == nil
	for _, c := range chf.Cells {
		single = single && c.Count <= 1
	}
	var pd []int
	var px, pz, pw, ph int
	patch := func(reg int, v []int) {
		pd = nil
		if !single || reg == 0 {
			return
		}
		x0, z0, x1, z1 := W, H, 0, 0
		for _, w := range v {
			x, z := int(m.Verts[3*w]), int(m.Verts[3*w+2])
			x0, x1, z0, z1 = min(x0, x), max(x1, x), min(z0, z), max(z1, z)
		}
		px, pz, pw, ph = max(0, x0-1), max(0, z0-1), min(W, x1+1), min(H, z1+1)
		pw, ph = pw-px, ph-pz
		data := make([]int, pw*ph)
		var q []int
		at := func(x, z int) (int, bool) {
			c := chf.Cells[x+px+B+(z+pz+B)*W]
			return int(c.Index), c.Count > 0
		}
		for k := range data {
			data[k] = -1
			if i, ok := at(k%pw, k/pw); ok && int(chf.Spans[i].Reg) == reg {
				data[k] = int(chf.Spans[i].Y)
				q = append(q, k)
			}
		}
		if len(q) == 0 {
			return
		}
		for len(q) > 0 {
			k := q[0]
			q = q[1:]
			i, _ := at(k%pw, k/pw)
			for dir, o := range [4][2]int{{-1, 0}, {0, 1}, {1, 0}, {0, -1}} {
				x, z := k%pw+o[0], k/pw+o[1]
				if recast.GetCon(&chf.Spans[i], int32(dir)) == 0x3f || x < 0 || z < 0 || x >= pw || z >= ph || data[x+z*pw] >= 0 {
					continue
				}
				j, _ := at(x, z)
				data[x+z*pw] = int(chf.Spans[j].Y)
				q = append(q, x+z*pw)
			}
		}
		pd = data
	}
	// allowed tells if y may be the sampled height at (x,z)
	allowed := func(reg int, x, y, z float64) bool {
		if pd != nil {
			cx, cz := clamp(int(math.Floor(x/cs+0.01))-px, pw), clamp(int(math.Floor(z/cs+0.01))-pz, ph)
			for r := 0; r <= radius; r++ {
				found := false
				for dz := -r; dz <= r; dz++ {
					for dx := -r; dx <= r; dx++ {
						if x, z := cx+dx, cz+dz; max(dx, -dx, dz, -dz) == r && x >= 0 && z >= 0 && x < pw && z < ph && pd[x+z*pw] >= 0 {
							found = true
							if math.Abs(y-float64(pd[x+z*pw])*ch) < tol {
								return true
							}
						}
					}
				}
				if found {
					return false
				}
			}
		}
		cx, cz := clamp(int(math.Floor(x/cs+0.01)), W-B), clamp(int(math.Floor(z/cs+0.01)), H-B)
		if exact != nil {
			return math.Abs(y-float64(exact(cx, cz))*ch) < tol
		}
		near := func(cx, cz int, own bool) (found, ok bool) {
			cx, cz = cx+B, cz+B
			if cx < 0 || cz < 0 || cx >= W || cz >= H {
				return
			}
			c := chf.Cells[cx+cz*W]
			for i := int(c.Index); i < int(c.Index)+int(c.Count); i++ {
				if own && int(chf.Spans[i].Reg) != reg {
					continue
				}
				found = true
				ok = ok || math.Abs(y-float64(chf.Spans[i].Y)*ch) < tol
			}
			return
		}
		if reg != 0 {
			if found, ok := near(cx, cz, true); found {
				return ok
			}
		}
		for dz := -radius - 1; dz <= radius+1; dz++ {
			for dx := -radius - 1; dx <= radius+1; dx++ {
				if _, ok := near(cx+dx, cz+dz, false); ok {
					return true
				}
			}
		}
		return false
	}
	h := hx.NewHash()
	for i, p := range polys {
		r := d.Meshes[i*4 : i*4+4]
		if int(r[0]) != vb || int(r[2]) != tb || r[1] < int32(len(p.v)) || r[3] < 1 || r[1] > 127 || r[3] > 255 || int(r[0]+r[1]) > int(d.NVerts) || int(r[2]+r[3]) > int(d.NTris) {
			e.Failf("ranges", "%s: sub-mesh %d is %v, expected to start at vertex %d, triangle %d and have at least the %d vertices of the polygon", what(), i, r, vb, tb, len(p.v))
		}
		nv, nt := int(r[1]), int(r[3])
		patch(p.reg, p.v)
		v := make([]dvert, nv)
		for k := range v {
			q := d.Verts[3*(vb+k):]
			v[k] = dvert{float64(q[0] - m.BMin[0]), float64(q[1]-m.BMin[1]) - float64(chf.Ch), float64(q[2] - m.BMin[2])}
			h.F(q[0])
			h.F(q[1])
			h.F(q[2])
		}
		tris := d.Tris[4*tb : 4*(tb+nt)]
		vb, tb = vb+nv, tb+nt
		n := len(p.v)
		geo := v[:n]
		show := func() string {
			return fmt.Sprintf("\n polygon %d (%d vertices, region %d) vertices %.3f triangles %v", i, n, p.reg, v, tris)
		}
		for k, w := range p.v {
			x, y, z := float64(m.Verts[3*w])*cs, float64(m.Verts[3*w+1])*ch, float64(m.Verts[3*w+2])*cs
			if math.Abs(x-v[k].x) > tol || math.Abs(y-v[k].y) > tol || math.Abs(z-v[k].z) > tol {
				e.Failf("own", "%s: vertex %d is not the polygon's (%v,%v,%v)%s", what(), k, x, y, z, show())
			}
		}
		// is the polygon itself sound?
		var raw []rawVert
		for _, w := range p.v {
			raw = append(raw, rawVert{int(m.Verts[3*w]), 0, int(m.Verts[3*w+2]), 0})
		}
		sound := area2Of(raw) > 0
		collinear := false
		for k := range raw {
			o := orient(raw[k], raw[(k+1)%n], raw[(k+2)%n])
			sound = sound && o <= 0
			collinear = collinear || o == 0
		}
		if !sound {
			e.Outcome("unsound polygon")
		}
		minExt := math.Inf(1)
		for k := range geo {
			far := 0.0
			for l := range geo {
				if l != k && l != (k+1)%n {
					far = math.Max(far, segDistXZ(geo[l], geo[k], geo[(k+1)%n]))
				}
			}
			minExt = math.Min(minExt, far)
		}
		// vertices on the edges
		on := make([]map[int]bool, nv) // edges a vertex lies on, or may lie on (not surely: false)
		for k := range v {
			on[k] = map[int]bool{}
			for l := 0; l < n; l++ {
				if dd := segDistXZ(v[k], geo[l], geo[(l+1)%n]); dd < 0.0011 {
					on[k][l] = dd < 0.0009
				}
			}
		}
		if s.dist == 0 && nv != n {
			e.Failf("extra", "%s: sampling is off but there are extra vertices%s", what(), show())
		}
		inner := 0
		for k := n; k < nv; k++ {
			y := v[k].y
			if len(on[k]) == 0 {
				inner++
				if sound && insideDist(geo, v[k]) < math.Min(dist/2, math.Sqrt(dist/2))-0.2*cs {
					e.Failf("outside", "%s: vertex %d is too close to the outline%s", what(), k, show())
				}
				gx, gz := math.Round(v[k].x/dist)*dist, math.Round(v[k].z/dist)*dist
				if math.Abs(gx-v[k].x) > 0.11*cs || math.Abs(gz-v[k].z) > 0.11*cs {
					e.Failf("offgrid", "%s: vertex %d is not at a sample point%s", what(), k, show())
				}
				if !allowed(p.reg, gx, y, gz) {
					e.Failf("height", "%s: vertex %d does not have the height of the surface%s", what(), k, show())
				}
				if minExt < 2*dist-tol {
					e.Failf("sliver", "%s: a polygon thinner than two samples got an inner vertex%s", what(), show())
				}
				continue
			}
			if !sound {
				continue
			}
			if !allowed(p.reg, v[k].x, y, v[k].z) {
				e.Failf("height", "%s: vertex %d on the outline does not have the height of the surface%s", what(), k, show())
			}
		}
		if nv > n {
			e.Outcome("edge vertices: %v, inner: %v", nv-n > inner, inner > 0)
		}
		full := nv >= 126
		// samples on each edge
		if s.dist > 0 && !full && sound {
			for l := 0; l < n; l++ {
				a, b := geo[l], geo[(l+1)%n]
				ia, ib := p.v[l], p.v[(l+1)%n]
				flip := ia > ib
				if flip {
					a, b = b, a
				}
				length := math.Hypot(b.x-a.x, b.z-a.z)
				f := length / dist
				if math.Abs(f-math.Round(f)) < 1e-4 && math.Abs(f-math.Round(f)) != 0 {
					f = math.Round(f) // rounding decides; accept both below
				}
				nn := 1 + int(math.Floor(f))
				at := func(p dvert) float64 {
					return ((p.x-a.x)*(b.x-a.x) + (p.z-a.z)*(b.z-a.z)) / (length * length)
				}
				var mine []dvert
				blur := false // a vertex next to a sharp corner may be on either edge
				for k := n; k < nv; k++ {
					if _, ok := on[k][l]; ok {
						mine = append(mine, v[k])
						blur = blur || len(on[k]) > 1
					}
				}
				if blur {
					continue
				}
				for x := range mine {
					for y := x; y > 0 && at(mine[y]) < at(mine[y-1]); y-- {
						mine[y], mine[y-1] = mine[y-1], mine[y]
					}
				}
				lo, hi := ia, ib
				if flip {
					lo, hi = ib, ia
				}
				edges[key{lo, hi}] = append(edges[key{lo, hi}], mine)
				if exact == nil || !sound || collinear || nn >= 32 {
					continue
				}
				// the surface at the samples
				good := false
				bad := ""
				for _, nn := range []int{nn, nn + 1, nn - 1} {
					if nn != 1+int(math.Floor(f)) && math.Abs(f-math.Round(f)) > 1e-4 || nn < 1 {
						continue
					}
					pts := make([]dvert, nn+1)
					for k := range pts {
						u := float64(k) / float64(nn)
						x, z := a.x+(b.x-a.x)*u, a.z+(b.z-a.z)*u
						pts[k] = dvert{x, ch * float64(exact(clamp(int(math.Floor(x/cs+0.01)), W-B), clamp(int(math.Floor(z/cs+0.01)), H-B))), z}
					}
					chain := append(append([]dvert{pts[0]}, mine...), pts[nn])
					why := ""
					used := 0
					straight := true
					for k := 1; k < nn; k++ {
						c := 0
						hit := false
						for c < len(chain)-2 && at(chain[c+1]) < at(pts[k])-1e-5 {
							c++
						}
						for _, q := range mine {
							hit = hit || math.Abs(at(q)-at(pts[k])) < 1e-4
						}
						if hit {
							used++
						} else if dd := segDist3(pts[k], chain[c], chain[c+1]); dd > serr+tol {
							why = fmt.Sprintf("the sample (%.3f,%.3f,%.3f) is %v off the edge", pts[k].x, pts[k].y, pts[k].z, dd)
						}
						if segDist3(pts[k], pts[0], pts[nn]) > serr-tol {
							straight = false
						}
					}
					if used != len(mine) {
						why = fmt.Sprintf("%d of the %d vertices on the edge are samples", used, len(mine))
					} else if straight && len(mine) > 0 {
						why = "the vertices on the edge are not needed"
					}
					if why == "" {
						good = true
						break
					}
					bad = why
				}
				if !good {
					e.Failf("edge", "%s: edge %d: %s%s", what(), l, bad, show())
				}
			}
		}
		// triangles
		sum := 0.0
		for k := 0; k < nt; k++ {
			t := tris[4*k : 4*k+4]
			for c := 0; c < 3; c++ {
				if int(t[c]) >= nv {
					e.Failf("index", "%s: triangle %d has vertex %d of %d%s", what(), k, t[c], nv, show())
				}
			}
			if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
				e.Failf("degenerate", "%s: triangle %d repeats a vertex%s", what(), k, show())
			}
			a := -cross2f(v[t[0]], v[t[1]], v[t[2]])
			if sound && a < -tol {
				e.Failf("orientation", "%s: triangle %d faces down%s", what(), k, show())
			}
			sum += a
			want, maybe := 0, 0
			for c := 0; c < 3; c++ {
				for l, sure := range on[t[c]] {
					if sure2, ok := on[t[(c+1)%3]][l]; ok {
						maybe |= 1 << uint(2*c)
						if sure && sure2 {
							want |= 1 << uint(2*c)
						}
					}
				}
			}
			if a < tol*tol && sound {
				e.Outcome("flat triangle")
			}
			if got := int(t[3]); got&want != want || got&^maybe != 0 {
				e.Failf("flags", "%s: triangle %d has flags %#x instead of %#x%s", what(), k, t[3], want, show())
			}
			h.I(int(t[0]))
			h.I(int(t[1]))
			h.I(int(t[2]))
		}
		if !sound {
			continue
		}
		if want := float64(area2Of(raw)) * cs * cs; math.Abs(sum-want) > 4*tol*math.Max(1, want) {
			e.Failf("area", "%s: the triangles have %v times the area of the polygon%s", what(), sum/want, show())
		}
		lo, hi := [2]int{1 << 30, 1 << 30}, [2]int{}
		for _, q := range raw {
			lo[0], lo[1] = min(lo[0], q.x), min(lo[1], q.z)
			hi[0], hi[1] = max(hi[0], q.x), max(hi[1], q.z)
		}
		for z := lo[1]; z < hi[1]; z++ {
			for x := lo[0]; x < hi[0]; x++ {
				for _, o := range sampleOffsets {
					q := dvert{(float64(x) + float64(o[0])/64 + 1e-3) * cs, 0, (float64(z) + float64(o[1])/64) * cs}
					if insideDist(geo, q) < 0.01*cs {
						continue
					}
					count, close := 0, false
					for k := 0; k < nt && !close; k++ {
						t := tris[4*k : 4*k+4]
						tri := []dvert{v[t[0]], v[t[1]], v[t[2]]}
						dd := insideDist(tri, q)
						close = math.Abs(dd) < 1e-3*cs
						if dd > 0 {
							count++
						}
					}
					if !close && count != 1 {
						e.Failf("cover", "%s: the point (%v,%v) is in %d triangles%s", what(), q.x, q.z, count, show())
					}
				}
			}
		}
		// the error at the inner samples
		if s.dist == 0 || full || exact == nil || minExt < 2*dist+tol {
			continue
		}
		var bx0, bx1, bz0, bz1 = geo[0].x, geo[0].x, geo[0].z, geo[0].z
		for _, q := range geo {
			bx0, bx1, bz0, bz1 = math.Min(bx0, q.x), math.Max(bx1, q.x), math.Min(bz0, q.z), math.Max(bz1, q.z)
		}
		for gz := math.Floor(bz0 / dist); gz*dist <= bz1; gz++ {
			for gx := math.Floor(bx0 / dist); gx*dist <= bx1; gx++ {
				q := dvert{gx * dist, 0, gz * dist}
				if insideDist(geo, q) < math.Max(dist/2, math.Sqrt(dist/2))+tol {
					continue
				}
				q.y = ch * float64(exact(clamp(int(math.Floor(q.x/cs+0.01)), W-B), clamp(int(math.Floor(q.z/cs+0.01)), H-B)))
				// the sample is taken up to 0.1 cells away on either axis: allow for
				// the steepest triangle
				best := math.Inf(1)
				for k := 0; k < nt; k++ {
					t := tris[4*k : 4*k+4]
					a, b, c := v[t[0]], v[t[1]], v[t[2]]
					if insideDist([]dvert{a, b, c}, q) < -0.15*cs {
						continue
					}
					ar := cross2f(a, b, c)
					if ar > -1e-6 {
						continue
					}
					// plane y = a.y + gx*(x-a.x) + gz*(z-a.z)
					px := ((b.y-a.y)*(c.z-a.z) - (c.y-a.y)*(b.z-a.z)) / ar
					pz := ((b.x-a.x)*(c.y-a.y) - (c.x-a.x)*(b.y-a.y)) / ar
					y := a.y + px*(q.x-a.x) + pz*(q.z-a.z)
					best = math.Min(best, math.Abs(y-q.y)-0.1*cs*(math.Abs(px)+math.Abs(pz)))
				}
				if best > serr+tol {
					e.Failf("error", "%s: the surface is at least %v off the sample (%v,%v,%v)%s", what(), best, q.x, q.y, q.z, show())
				}
			}
		}
	}
	if vb != int(d.NVerts) || tb != int(d.NTris) {
		e.Failf("counts", "%s: %d vertices and %d triangles, but the sub-meshes have %d and %d", what(), d.NVerts, d.NTris, vb, tb)
	}
	if exact != nil {
		for k, l := range edges {
			for x := 1; x < len(l); x++ {
				same := len(l[0]) == len(l[x])
				for y := 0; same && y < len(l[0]); y++ {
					a, b := l[0][y], l[x][y]
					same = math.Abs(a.x-b.x) < tol && math.Abs(a.y-b.y) < tol && math.Abs(a.z-b.z) < tol
				}
				if !same {
					e.Failf("seam", "%s: the edge between vertices %d and %d has samples %.3f on one side and %.3f on the other", what(), k.a, k.b, l[0], l[x])
				}
				if len(l[0]) > 0 {
					e.Outcome("samples on a shared edge")
				}
			}
		}
	}
	e.State(uint64(h))
	if e.WantSample() {
		e.Sample("%s: %d sub-meshes, %d vertices, %d triangles", what(), d.NMeshes, d.NVerts, d.NTris)
	}
}

// detailsOf builds the detail meshes of a field for all settings.
func detailsOf(e *hx.Env, chf *recast.CompactHeightfield, errs []float32, nvps []int, sets []dset, exact func(x, z int) int, where func() string) {
	for _, ce := range errs {
		cset := &recast.ContourSet{}
		if !recast.BuildContours(theCtx, chf, ce, 0, cset, 1) {
			continue
		}
		for _, nvp := range nvps {
			var m *recast.PolyMesh
			ok := false
			if try(func() { m, ok = recast.BuildPolyMesh(theCtx, cset, int32(nvp)) }) != nil || !ok {
				continue
			}
			for _, s := range sets {
				checkDetail(e, chf, m, s, exact, where)
			}
		}
	}
}

// scale gives a field cells of another size and another origin.
func scale(chf *recast.CompactHeightfield, cs, ch float32) *recast.CompactHeightfield {
	chf.Cs, chf.Ch = cs, ch
	chf.BMin = [3]float32{-3, 1, 2}
	chf.BMax = [3]float32{-3 + cs*float32(chf.Width), 1 + 20*ch, 2 + cs*float32(chf.Height)}
	return chf
}

func init() {
	hx.Register(&hx.Check{
		ID: "C29", Level: "model_checking",
		Rule:        "polygon meshes of all labellings of small grids (flat, stepped; with and without border), of full fields with every height profile along each axis and every pair of bumps, of fields with missing cells and of multi-level fields, each with several sampling distances (including none), sample errors, contour errors and polygon sizes, in two cell sizes; oracle: ranges, own vertices first, coverage (area, orientation, points in general position in exactly one triangle), edge flags recomputed, every added vertex is a sample point with the height of the surface there, samples of shared edges equal on both sides, error at all edge and inner samples within the limit",
		Assumptions: []string{"polygons that contours crossing themselves lead to are not judged for coverage", "error limits are judged on fields with one level and no missing cells, on polygons without collinear vertices at the outline, at least two samples wide inside, with less than 126 vertices and 32 samples per edge", "samples are moved by up to a tenth of a cell; the error is judged with that slack"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			one := func(l int) uint8 { return 63 }
			sets := []dset{{0, 0.5}, {1, 0}, {1, 0.6}, {2, 1}, {0.5, 0.3}, {3, 1}}
			small := []dset{{0, 1}, {1.8, 0.3}, {0.6, 0.2}, {0.9, 0.05}}
			nvps := []int{3, 6}
			if th {
				nvps = []int{3, 4, 6}
			}
			step := func(x, z int) int { return (x + 2*z) % 3 }
			type pat struct{ w, h, k, border int }
			pats := []pat{{4, 3, 2, 0}, {3, 3, 2, 1}, {3, 2, 3, 1}}
			if th {
				pats = []pat{{4, 4, 2, 0}, {4, 3, 2, 1}, {3, 3, 3, 1}}
			}
			for _, p := range pats {
				p := p
				out = append(out, hx.Space{Name: fmt.Sprintf("labels %dx%d/%d/%d", p.w, p.h, p.k, p.border), N: hx.Pow(p.k, p.w*p.h), Batch: 32,
					Bound: fmt.Sprintf("all %d^%d labellings of a %dx%d grid, border %d, flat and stepped, %d samplings", p.k, p.w*p.h, p.w, p.h, p.border, len(sets)),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						lab := make([]int, p.w*p.h)
						for k := range lab {
							lab[k] = d.Next(p.k)
						}
						for k, hf := range []func(x, z int) int{nil, step} {
							chf := labelled(p.w, p.h, p.border, lab, one, hf)
							exact := func(x, z int) int { return int(chf.Spans[chf.Cells[x+p.border+(z+p.border)*int(chf.Width)].Index].Y) }
							detailsOf(e, chf, []float32{0, 1.3}, nvps, sets, exact, func() string {
								return fmt.Sprintf("labels %v, %d wide, border %d, stepped %v", lab, p.w, p.border, k == 1)
							})
						}
						e.Trace()
					}})
			}
			// profiles: the height is a sum of one profile per axis
			n := 5
			if th {
				n = 6
			}
			for _, cell := range [][2]float32{{1, 1}, {0.3, 0.2}} {
				cell := cell
				ss := sets
				if cell[0] != 1 {
					ss = small
				}
				out = append(out, hx.Space{Name: fmt.Sprintf("profiles %d cell %v", n, cell[0]), N: hx.Pow(3, 2*n), Batch: 64,
					Bound: fmt.Sprintf("a field of %dx%d cells of size %v whose heights are the sum of any two profiles of %d steps in 0..2", n, n, cell[0], n),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						fx, fz := make([]int, n), make([]int, n)
						for k := range fx {
							fx[k], fz[k] = d.Next(3), d.Next(3)
						}
						lab := make([]int, n*n)
						for k := range lab {
							lab[k] = 1
						}
						hs := func(x, z int) int { return fx[x] + fz[z] }
						chf := scale(labelled(n, n, 0, lab, one, hs), cell[0], cell[1])
						detailsOf(e, chf, []float32{1}, nvps[:1], ss, func(x, z int) int { return 1 + hs(x, z) }, func() string {
							return fmt.Sprintf("profiles %v %v", fx, fz)
						})
						e.Trace()
					}})
			}
			// bumps: two cells raised or lowered, in a larger field split in two
			bw := 6
			if th {
				bw = 8
			}
			for split := 0; split < 3; split++ {
				split := split
				out = append(out, hx.Space{Name: fmt.Sprintf("bumps %d split %d", bw, split), N: hx.Prod(bw*bw, bw*bw, 4), Batch: 16,
					Bound: fmt.Sprintf("a field of %dx%d cells (split %d ways) with any two cells raised or lowered", bw, bw, split),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						a, b := d.Next(bw*bw), d.Next(bw*bw)
						k := d.Next(4)
						if a > b || a == b && k > 1 {
							return
						}
						lab := make([]int, bw*bw)
						hs := make([]int, bw*bw)
						for c := range lab {
							lab[c] = 1
							hs[c] = 2
							if split == 1 && c%bw > c/bw {
								lab[c] = 2
							}
							if split == 2 && c%bw >= 3 {
								lab[c] = 2
							}
						}
						hs[a] = 4 * (k & 1)
						hs[b] = 4 * (k >> 1)
						if a == b {
							hs[a] = 4 * k
						} else if k == 1 || k == 2 {
							if dx, dz := a%bw-b%bw, a/bw-b/bw; dx*dx+dz*dz == 1 {
								return // not connected
							}
						}
						at := func(x, z int) int { return hs[x+z*bw] }
						chf := labelled(bw, bw, 0, lab, one, at)
						detailsOf(e, chf, []float32{1}, []int{6}, sets, func(x, z int) int { return 1 + at(x, z) }, func() string {
							return fmt.Sprintf("cells %d and %d raised or lowered (%d), split %d", a, b, k, split)
						})
						e.Trace()
					}})
			}
			// missing cells
			mw, mh := 4, 3
			if th {
				mw = 5
			}
			out = append(out, hx.Space{Name: fmt.Sprintf("missing %dx%d", mw, mh), N: 1 << uint(mw*mh), Batch: 32, Bound: fmt.Sprintf("the monotone regions of all 2^%d patterns of missing cells", mw*mh),
				Run: func(e *hx.Env, i int64) {
					f := make([]column, mw*mh)
					for k := range f {
						if i>>uint(k)&1 == 1 {
							f[k] = column{{0, 1 + step(k%mw, k/mw), 63}}
						}
					}
					chf := buildCHF(mw, mh, f, 3, 2)
					recast.BuildRegionsMonotone(theCtx, chf, 0, 0, 0)
					detailsOf(e, chf, []float32{0, 1.3}, nvps, sets, nil, func() string { return fmt.Sprintf("cells %x of %dx%d", i, mw, mh) })
					e.Trace()
				}})
			// outlines drawn across places with no surface
			by := 4
			if th {
				by = 5
			}
			bayN, b2 := 6*by*by, 8
			if th {
				b2 = bayN
			}
			out = append(out, hx.Space{Name: "bays", N: hx.Prod(bayN, b2), Batch: 8, Bound: fmt.Sprintf("fields of 11x%d cells with any bay and another up to %d cells wide and deep, stepped, contour errors 1.3 to 5", 2*by+2, by),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					w, h := 11, 2*by+2
					f := make([]column, w*h)
					for k := range f {
						f[k] = column{{0, 1 + step(k%w, k/w), 63}}
					}
					for s := 0; s < 2; s++ {
						var x0, bw, bd int
						if s == 1 && b2 == 8 {
							x0, bw, bd = 2+3*d.Next(2), 1+2*d.Next(2), 1+2*d.Next(2)
						} else {
							x0, bw, bd = 1+d.Next(6), 1+d.Next(by), 1+d.Next(by)
						}
						for x := x0; x < x0+bw && x < w; x++ {
							for z := 0; z < bd; z++ {
								if s == 0 {
									f[x+z*w] = nil
								} else {
									f[x+(h-1-z)*w] = nil
								}
							}
						}
					}
					chf := buildCHF(w, h, f, 3, 2)
					for k := range chf.Spans {
						chf.Spans[k].Reg = 1
					}
					chf.MaxRegions = 1
					detailsOf(e, chf, []float32{1.3, 2.5, 5}, nvps[len(nvps)-1:], []dset{{1, 0}, {2, 0.3}}, nil, func() string { return fmt.Sprintf("bays %d", i) })
					e.Trace()
				}})
			// large polygons with rough surfaces
			rsz := [][2]int{{40, 6}, {6, 40}, {33, 33}, {70, 4}}
			if th {
				rsz = append(rsz, [2]int{100, 30}, [2]int{14, 90}, [2]int{64, 64})
			}
			rough := []func(x, z int) int{
				func(x, z int) int { return x % 2 },
				func(x, z int) int { return (x*x + 3*z*z + x*z) % 3 },
				func(x, z int) int { return min(x%12, 12-x%12) + min(z%10, 10-z%10) },
				func(x, z int) int { return 2 * x },
				func(x, z int) int { return 60000 - x - z },
				func(x, z int) int { return min(1, x%5*(z%7)) },
			}
			rsets := []dset{{0, 1}, {1, 0}, {1, 0.6}, {2, 0.3}, {0.5, 0.3}, {6, 1}}
			rk := len(largeLabels(1, 1))
			out = append(out, hx.Space{Name: "rough", N: int64(len(rsz) * rk * len(rough) * 2), Batch: 1, Bound: fmt.Sprintf("fields of %v cells with %d patterns of regions and %d surfaces, with and without a border, %d samplings", rsz, rk, len(rough), len(rsets)),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					border, kind, surf, sz := d.Next(2), d.Next(rk), d.Next(len(rough)), rsz[d.Next(len(rsz))]
					chf := labelled(sz[0], sz[1], border, largeLabels(sz[0], sz[1])[kind], one, rough[surf])
					exact := func(x, z int) int { return int(chf.Spans[chf.Cells[x+border+(z+border)*int(chf.Width)].Index].Y) }
					detailsOf(e, chf, []float32{1}, []int{6}, rsets, exact, func() string {
						return fmt.Sprintf("pattern %d with surface %d on %dx%d cells, border %d", kind, surf, sz[0], sz[1], border)
					})
					e.Trace()
				}})
			vsz := [][2]int{{188, 188}}
			if th {
				vsz = append(vsz, [2]int{299, 299}, [2]int{35, 1400})
			}
			out = append(out, hx.Space{Name: "vast", N: int64(len(vsz) * 2), Batch: 1, Bound: fmt.Sprintf("fields of %v cells full of separate L-shaped regions of three cells: meshes with more than 2^16/3 vertices, with and without a border", vsz),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					border, sz := d.Next(2), vsz[d.Next(len(vsz))]
					hs := func(x, z int) int { return x%3 + z%3 }
					chf := labelled(sz[0], sz[1], border, trominoes(sz[0], sz[1]), one, hs)
					exact := func(x, z int) int { return int(chf.Spans[chf.Cells[x+border+(z+border)*int(chf.Width)].Index].Y) }
					detailsOf(e, chf, []float32{0}, []int{6}, []dset{{0, 1}, {0.5, 0.3}}, exact, func() string {
						return fmt.Sprintf("L-shaped regions on %dx%d cells, border %d", sz[0], sz[1], border)
					})
					e.Trace()
				}})
			lv := []column{{{0, 1, 63}}, {{0, 1, 63}, {4, 5, 63}}, {{0, 2, 63}, {5, 6, 63}}, {{0, 3, 63}}, {{0, 4, 63}}, {{0, 1, 63}, {3, 4, 63}, {6, 7, 63}}}
			type dim struct{ w, h, k int }
			dims := []dim{{3, 2, 6}, {3, 3, 3}}
			if th {
				dims = []dim{{4, 2, 5}, {3, 3, 4}}
			}
			for _, m := range dims {
				m := m
				out = append(out, hx.Space{Name: fmt.Sprintf("levels %dx%d/%d", m.w, m.h, m.k), N: hx.Pow(m.k, m.w*m.h), Batch: 32,
					Bound: fmt.Sprintf("the monotone regions of all fields of %dx%d columns of %d kinds", m.w, m.h, m.k),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						f := make([]column, m.w*m.h)
						for k := range f {
							f[k] = lv[d.Next(m.k)]
						}
						chf := buildCHF(m.w, m.h, f, 2, 1)
						recast.BuildRegionsMonotone(theCtx, chf, 0, 0, 3)
						detailsOf(e, chf, []float32{0, 1.3}, nvps[:1], sets[:5], nil, func() string { return fmt.Sprintf("columns %v, %d wide", f, m.w) })
						e.Trace()
					}})
			}
			return out
		},
	})
}
