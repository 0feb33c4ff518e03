package checks

import (
	"fmt"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C28: the polygon mesh

// samplePoints are points in general position, in units of 1/64 cell.
var sampleOffsets = [][2]int{{21, 11}, {45, 53}, {7, 39}, {58, 19}, {31, 33}}

// windingAt is the winding number of a polygon (integer vertices) around the
// point (px, pz)/64; on is set if the point is on an edge.
func windingAt(poly []rawVert, px, pz int) (w int, on bool) {
	for i, a := range poly {
		b := poly[(i+1)%len(poly)]
		ax, az, bx, bz := 64*a.x, 64*a.z, 64*b.x, 64*b.z
		s := (bx-ax)*(pz-az) - (px-ax)*(bz-az)
		if s == 0 && min(ax, bx) <= px && px <= max(ax, bx) && min(az, bz) <= pz && pz <= max(az, bz) {
			return 0, true
		}
		if (az > pz) == (bz > pz) {
			continue
		}
		if bz > az && s < 0 {
			w++
		} else if bz < az && s > 0 {
			w--
		}
	}
	return w, false
}

func boxOf(p []rawVert) [4]int {
	b := [4]int{p[0].x, p[0].z, p[0].x, p[0].z}
	for _, v := range p {
		b = [4]int{min(b[0], v.x), min(b[1], v.z), max(b[2], v.x), max(b[3], v.z)}
	}
	return b
}

// inBox tells if a box overlaps cell (x,z).
func inBox(b [4]int, x, z int) bool {
	return b[0] <= x && x < b[2] && b[1] <= z && z < b[3]
}

// rowsOf lists the boxes that overlap each row.
func rowsOf(bs [][4]int, H int) [][]int {
	out := make([][]int, H)
	for i, b := range bs {
		for z := max(0, b[1]); z < min(H, b[3]); z++ {
			out[z] = append(out[z], i)
		}
	}
	return out
}

func area2Of(p []rawVert) (a int) {
	for i, v := range p {
		u := p[(i+len(p)-1)%len(p)]
		a += v.x*u.z - u.x*v.z
	}
	return
}

// properContour tells if a contour is a polygon without crossings (it may
// touch itself), wound the right way.
func properContour(p []rawVert) bool {
	if len(p) < 3 || area2Of(p) <= 0 {
		return false
	}
	n := len(p)
	for i := range p {
		a, b := p[i], p[(i+1)%n]
		if a.x == b.x && a.z == b.z {
			return false
		}
		for j := i + 1; j < n; j++ {
			c, d := p[j], p[(j+1)%n]
			if properCross(a, b, c, d) {
				return false
			}
		}
	}
	return true
}

// touching tells if a vertex of the contour lies on another of its edges or
// at another vertex.
func touching(p []rawVert) bool {
	n := len(p)
	for i, v := range p {
		for j := range p {
			a, b := p[j], p[(j+1)%n]
			if j == i || (j+1)%n == i {
				if j != i || orient(a, b, p[(i+n-1)%n]) != 0 {
					continue
				}
				// spike: the previous vertex lies along the next edge
				u := p[(i+n-1)%n]
				if (u.x-v.x)*(b.x-v.x)+(u.z-v.z)*(b.z-v.z) > 0 {
					return true
				}
				continue
			}
			if orient(a, b, v) == 0 && min(a.x, b.x) <= v.x && v.x <= max(a.x, b.x) && min(a.z, b.z) <= v.z && v.z <= max(a.z, b.z) {
				return true
			}
		}
	}
	return false
}

type pmPoly struct {
	v    []int
	nei  []int
	reg  int
	area int
}

func readPolys(m *recast.PolyMesh) ([]pmPoly, string) {
	var out []pmPoly
	nvp := int(m.Nvp)
	if int(m.NPolys)*nvp*2 > len(m.Polys) || int(m.NPolys) > len(m.Regs) || int(m.NPolys) > len(m.Areas) || int(m.NVerts)*3 > len(m.Verts) {
		return nil, "the counts exceed the data"
	}
	for i := 0; i < int(m.NPolys); i++ {
		p := m.Polys[i*nvp*2 : (i+1)*nvp*2]
		q := pmPoly{reg: int(m.Regs[i]), area: int(m.Areas[i])}
		end := false
		for k := 0; k < nvp; k++ {
			if p[k] == 0xffff {
				end = true
				if p[nvp+k] != 0xffff {
					return nil, fmt.Sprintf("polygon %d has a neighbour without an edge", i)
				}
				continue
			}
			if end {
				return nil, fmt.Sprintf("polygon %d has vertices after its end", i)
			}
			if int(p[k]) >= int(m.NVerts) {
				return nil, fmt.Sprintf("polygon %d has vertex %d of %d", i, p[k], m.NVerts)
			}
			q.v = append(q.v, int(p[k]))
			q.nei = append(q.nei, int(p[nvp+k]))
		}
		if len(q.v) < 3 {
			return nil, fmt.Sprintf("polygon %d has %d vertices", i, len(q.v))
		}
		out = append(out, q)
	}
	return out, ""
}

func checkPolyMesh(e *hx.Env, chf *recast.CompactHeightfield, cset *recast.ContourSet, nvp int, where func() string) *recast.PolyMesh {
	what := func() string {
		s := ""
		for k := 0; k < int(cset.NConts); k++ {
			if len(s) > 4000 {
				s += " ..."
				break
			}
			c := cset.Conts[k]
			s += fmt.Sprintf("\n region %d area %d: %s", c.Reg, c.Area, contourLoops(toRaw(c.Verts, int(c.NVerts))))
		}
		return fmt.Sprintf("%s, error %v, %d vertices per polygon, contours %s", where(), cset.MaxError, nvp, s)
	}
	var m *recast.PolyMesh
	ok := false
	if msg := try(func() { m, ok = recast.BuildPolyMesh(theCtx, cset, int32(nvp)) }); msg != nil {
		e.Failf("panic", "%s: BuildPolyMesh crashes: %v", what(), msg)
	}
	e.Step(1)
	e.Eval(1)
	if !ok || m == nil {
		e.Failf("refused", "%s: refused", what())
	}
	if m.Cs != cset.Cs || m.Ch != cset.Ch || m.BMin != cset.BMin || m.BMax != cset.BMax || m.BorderSize != cset.BorderSize || m.MaxEdgeError != cset.MaxError || int(m.Nvp) != nvp || len(m.Flags) != int(m.NPolys) || m.NPolys > m.MaxPolys {
		e.Failf("fields", "%s: fields %v %v %v %v %v %v %v, %d flags, %d polygons of %d", what(), m.Cs, m.Ch, m.BMin, m.BMax, m.BorderSize, m.MaxEdgeError, m.Nvp, len(m.Flags), m.NPolys, m.MaxPolys)
	}
	polys, msg := readPolys(m)
	if msg != "" {
		e.Failf("format", "%s: %s", what(), msg)
	}
	verts := make([]rawVert, m.NVerts)
	for i := range verts {
		verts[i] = rawVert{int(m.Verts[i*3]), int(m.Verts[i*3+1]), int(m.Verts[i*3+2]), 0}
	}
	show := func() string {
		s := ""
		for i, p := range polys {
			if len(s) > 4000 {
				s += " ..."
				break
			}
			s += fmt.Sprintf("\n polygon %d region %d area %d:", i, p.reg, p.area)
			for k := range p.v {
				s += fmt.Sprintf(" (%d,%d,%d)>%x", verts[p.v[k]].x, verts[p.v[k]].y, verts[p.v[k]].z, p.nei[k])
			}
		}
		return s
	}
	at := map[[2]int][]int{}
	for i := range verts {
		k := [2]int{verts[i].x, verts[i].z}
		at[k] = append(at[k], i)
		for _, j := range at[k][:len(at[k])-1] {
			if abs(verts[i].y-verts[j].y) <= 2 {
				e.Failf("duplicate", "%s: vertices %d and %d are both at (%d,%d), heights %d and %d", what(), j, i, verts[i].x, verts[i].z, verts[j].y, verts[i].y)
			}
		}
	}
	// contours
	type contour struct {
		reg, area int
		v         []rawVert
	}
	var conts []contour
	good := map[int]bool{} // all contours of the region are proper
	multi := map[int]int{}
	removed := false
	allGood := true
	for k := 0; k < int(cset.NConts); k++ {
		c := &cset.Conts[k]
		if c.NVerts == 0 {
			continue
		}
		v := toRaw(c.Verts, int(c.NVerts))
		for _, p := range v {
			removed = removed || p.r&rcBorderVertex != 0
		}
		g := properContour(v) && !touching(v)
		if old, seen := good[int(c.Reg)]; seen {
			g = g && old
		}
		good[int(c.Reg)] = g
		multi[int(c.Reg)]++
		allGood = allGood && g
		conts = append(conts, contour{int(c.Reg), int(c.Area), v})
	}
	for _, c := range conts {
		if multi[c.reg] > 1 {
			good[c.reg] = false // a hole that could not be merged
			allGood = false
		}
	}
	if removed {
		// next to a region without a contour a removed vertex takes a
		// corner away
		for i := range chf.Spans {
			r := int(chf.Spans[i].Reg)
			if r != 0 && r&regBorder == 0 && multi[r] == 0 {
				allGood = false
			}
		}
	}
	if !allGood {
		e.Outcome("some contours cross themselves")
	}
	regArea := map[int]int{}
	for _, c := range conts {
		regArea[c.reg] = c.area
	}
	W, H := int(cset.Width), int(cset.Height)
	poly := func(p pmPoly) []rawVert {
		out := make([]rawVert, len(p.v))
		for i, k := range p.v {
			out[i] = verts[k]
		}
		return out
	}
	geo := make([][]rawVert, len(polys))
	for i, p := range polys {
		geo[i] = poly(p)
		if p.reg != 0 { // several regions
			a, known := regArea[p.reg]
			if !known || a != p.area {
				e.Failf("region", "%s: polygon %d has region %d and area %d%s", what(), i, p.reg, p.area, show())
			}
		} else if !removed {
			e.Failf("region", "%s: polygon %d belongs to several regions but no vertex was removed%s", what(), i, show())
		}
		if p.reg != 0 && !good[p.reg] || (p.reg == 0 || removed) && !allGood {
			continue
		}
		n := len(p.v)
		for k := range p.v {
			for l := 0; l < k; l++ {
				if p.v[k] == p.v[l] {
					e.Failf("repeat", "%s: polygon %d repeats a vertex%s", what(), i, show())
				}
			}
			if o := orient(geo[i][k], geo[i][(k+1)%n], geo[i][(k+2)%n]); o > 0 {
				e.Failf("convex", "%s: polygon %d is not convex%s", what(), i, show())
			}
		}
		if area2Of(geo[i]) <= 0 {
			e.Failf("flat", "%s: polygon %d has no area%s", what(), i, show())
		}
	}
	// coverage
	cbox, gbox := make([][4]int, len(conts)), make([][4]int, len(geo))
	for i := range conts {
		cbox[i] = boxOf(conts[i].v)
	}
	for i := range geo {
		gbox[i] = boxOf(geo[i])
	}
	crow, grow := rowsOf(cbox, H), rowsOf(gbox, H)
	for z := 0; z < H; z++ {
		for x := 0; x < W; x++ {
			for _, o := range sampleOffsets {
				px, pz := x*64+o[0], z*64+o[1]
				want, got := map[int]int{}, map[int]int{}
				skip := false
				key := func(reg, area int) int {
					if removed {
						return -area // regions of removed vertices merge
					}
					return reg
				}
				for _, i := range crow[z] {
					c := conts[i]
					if !inBox(cbox[i], x, z) {
						continue
					}
					w, on := windingAt(c.v, px, pz)
					skip = skip || on
					want[key(c.reg, c.area)] += w
				}
				for _, i := range grow[z] {
					p := polys[i]
					if !inBox(gbox[i], x, z) {
						continue
					}
					w, on := windingAt(geo[i], px, pz)
					skip = skip || on
					got[key(p.reg, p.area)] += w
				}
				if skip {
					continue
				}
				for k := range got {
					if _, ok := want[k]; !ok {
						want[k] = 0
					}
				}
				for k, w := range want {
					if removed && !allGood || !removed && !good[k] {
						continue
					}
					if w < 0 || got[k] < 0 {
						w, got[k] = -w, -got[k]
					}
					if got[k] != w {
						e.Failf("cover", "%s: the point (%v,%v) is in %d polygons of region (or minus area) %d, and %d times in its contour%s", what(), float64(px)/64, float64(pz)/64, got[k], k, w, show())
					}
				}
			}
		}
	}
	// neighbours
	type edge struct{ a, b int }
	owners := map[edge][][2]int{}
	for i, p := range polys {
		for k := range p.v {
			ed := edge{p.v[k], p.v[(k+1)%len(p.v)]}
			owners[ed] = append(owners[ed], [2]int{i, k})
		}
	}
	for i, p := range polys {
		for k, nb := range p.nei {
			a, b := p.v[k], p.v[(k+1)%len(p.v)]
			same, opp := owners[edge{a, b}], owners[edge{b, a}]
			if len(same) > 1 || len(opp) > 1 || len(opp) == 1 && opp[0][0] == i {
				e.Outcome("edge with more than two polygons")
				if nb != 0xffff && nb&0x8000 == 0 {
					if nb >= len(polys) {
						e.Failf("neighbour", "%s: polygon %d has neighbour %d%s", what(), i, nb, show())
					}
				}
				continue
			}
			want := 0xffff
			if len(opp) == 1 {
				want = opp[0][0]
				e.Outcome("shared edge")
			} else if B := int(cset.BorderSize); B > 0 {
				va, vb := verts[a], verts[b]
				switch {
				case va.x == 0 && vb.x == 0:
					want = 0x8000
				case va.z == H && vb.z == H:
					want = 0x8001
				case va.x == W && vb.x == W:
					want = 0x8002
				case va.z == 0 && vb.z == 0:
					want = 0x8003
				}
				if want != 0xffff {
					e.Outcome("border edge")
				}
			}
			if nb != want {
				e.Failf("neighbour", "%s: edge %d of polygon %d has neighbour %#x instead of %#x%s", what(), k, i, nb, want, show())
			}
		}
	}
	// no two polygons of a contour are left that could be one
	for i, p := range polys {
		for k, nb := range p.nei {
			if nvp == 3 || removed || nb <= i || nb >= len(polys) || polys[nb].reg != p.reg || p.reg == 0 || !good[p.reg] {
				continue
			}
			a, b := p.v[k], p.v[(k+1)%len(p.v)]
			q := polys[nb]
			n, l := len(p.v), len(q.v)
			if n+l-2 > nvp {
				continue
			}
			for m := range q.v {
				if q.v[m] != b || q.v[(m+1)%l] != a {
					continue
				}
				if orient(verts[p.v[(k+n-1)%n]], verts[a], verts[q.v[(m+2)%l]]) < 0 && orient(verts[q.v[(m+l-1)%l]], verts[b], verts[p.v[(k+2)%n]]) < 0 {
					e.Failf("apart", "%s: polygons %d and %d could be one%s", what(), i, nb, show())
				}
			}
		}
	}
	// vertices that were to be removed
	if removed && allGood {
		checkRemoved(e, cset, polys, verts, what, show)
	}
	e.Outcome("%d polygons, removed vertices: %v", min(len(polys), 5), removed)
	e.State(hx.H(m.Polys[:int(m.NPolys)*nvp*2]))
	return m
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// checkRemoved: vertices marked for removal only remain where removing them
// is not possible, all others do.
func checkRemoved(e *hx.Env, cset *recast.ContourSet, polys []pmPoly, verts []rawVert, what, show func() string) {
	keep, marked := map[[2]int]bool{}, map[[2]int]bool{}
	// vertices in the order in which they are looked at
	var order [][2]int
	height := map[[2]int][2]int{}
	for k := 0; k < int(cset.NConts); k++ {
		c := &cset.Conts[k]
		if c.NVerts < 3 {
			continue
		}
		for _, p := range toRaw(c.Verts, int(c.NVerts)) {
			at := [2]int{p.x, p.z}
			if h, ok := height[at]; !ok {
				order = append(order, at)
				height[at] = [2]int{p.y, p.y}
			} else {
				height[at] = [2]int{min(h[0], p.y), max(h[1], p.y)}
			}
			if p.r&rcBorderVertex != 0 {
				marked[[2]int{p.x, p.z}] = true
			} else {
				keep[[2]int{p.x, p.z}] = true
			}
		}
	}
	have := map[[2]int]int{}
	for i, v := range verts {
		have[[2]int{v.x, v.z}] = i
	}
	for k := range keep {
		if _, ok := have[k]; !ok && !marked[k] {
			e.Failf("lost", "%s: the contour vertex (%d,%d) is gone%s", what(), k[0], k[1], show())
		}
	}
	// the mesh did not change any more after the last vertex was removed
	settled := true
	for n := len(order) - 1; n >= 0; n-- {
		k := order[n]
		if !marked[k] {
			continue
		}
		i, ok := have[k]
		if !ok {
			settled = false
			e.Outcome("border vertex removed")
			continue
		}
		remaining := 0
		open := map[int]int{}
		for _, p := range polys {
			n := len(p.v)
			touched := false
			for j := range p.v {
				if p.v[j] == i {
					touched = true
					open[p.v[(j+1)%n]]++
					open[p.v[(j+n-1)%n]]++
				}
			}
			if touched {
				remaining += n - 2
			}
		}
		no := 0
		for _, c := range open {
			if c < 2 {
				no++
			}
		}
		if h := height[k]; remaining > 2 && no <= 2 && settled && h[1]-h[0] <= 2 {
			e.Failf("kept", "%s: the border vertex (%d,%d) is not removed%s", what(), k[0], k[1], show())
		}
		e.Outcome("border vertex that cannot be removed")
	}
}

func meshesOf(e *hx.Env, chf *recast.CompactHeightfield, sets []contourSet, nvps []int, where func() string) {
	for _, s := range sets {
		cset := &recast.ContourSet{}
		if !recast.BuildContours(theCtx, chf, s.err, int32(s.edge), cset, int32(s.flags)) {
			continue
		}
		for _, nvp := range nvps {
			checkPolyMesh(e, chf, cset, nvp, func() string { return fmt.Sprintf("%s, edge length %d", where(), s.edge) })
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C28", Level: "model_checking",
		Rule:        "the contours of every labelling of small grids with up to 3 labels (one or several areas, flat and stepped, with and without a border), of every pattern of holes in a ring and of 2x2 blocks, of monotone regions, of pairs of obstacles in a room, of large patterned fields, and of multi-level fields, with several error and edge length limits, each with 3 to 6 vertices per polygon; oracle: exact integer geometry (convexity, coverage at five points in general position of every cell compared with the winding of the contours, neighbours recomputed from shared edges, border sides, duplicate and removed vertices); non-trivial: at least one polygon",
		Assumptions: []string{"contours that cross themselves (simplification may do that) are not judged for coverage and convexity", "coverage is not judged where a vertex on the tile border is removed next to a region that has no contour (a single cell)", "the sides of an edge shared by more than two polygons are not judged"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			one := func(l int) uint8 { return 63 }
			multi := func(l int) uint8 { return []uint8{0, 63, 5, 7}[l] }
			step := func(x, z int) int { return (x + 2*z) % 3 }
			sets := []contourSet{{0, 0, 1}, {1.3, 0, 1}, {0, 2, 1}}
			nvps := []int{3, 4, 6}
			if th {
				sets = append(sets, contourSet{0.8, 1, 3}, contourSet{1.3, 12, 1})
				nvps = []int{3, 4, 5, 6, 8}
			}
			type pat struct{ w, h, k, border int }
			pats := []pat{{4, 3, 2, 0}, {4, 4, 2, 0}, {4, 3, 2, 1}, {3, 3, 3, 0}, {3, 3, 3, 1}}
			if th {
				pats = []pat{{4, 4, 2, 0}, {4, 4, 2, 1}, {4, 3, 3, 0}, {3, 4, 3, 1}, {3, 3, 4, 1}}
			}
			for _, p := range pats {
				p := p
				out = append(out, hx.Space{Name: fmt.Sprintf("labels %dx%d/%d/%d", p.w, p.h, p.k, p.border), N: hx.Pow(p.k, p.w*p.h), Batch: 32,
					Bound: fmt.Sprintf("all %d^%d labellings of a %dx%d grid, border %d, %d contour settings, vertices per polygon %v", p.k, p.w*p.h, p.w, p.h, p.border, len(sets), nvps),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						lab := make([]int, p.w*p.h)
						for k := range lab {
							lab[k] = d.Next(p.k)
						}
						meshesOf(e, labelled(p.w, p.h, p.border, lab, multi, nil), sets, nvps, func() string { return fmt.Sprintf("labels %v, %d wide, border %d, several areas", lab, p.w, p.border) })
						meshesOf(e, labelled(p.w, p.h, p.border, lab, one, step), sets, nvps, func() string {
							return fmt.Sprintf("labels %v, %d wide, border %d, one area, stepped", lab, p.w, p.border)
						})
						e.Trace()
					}})
			}
			hw, hh := 4, 3
			if th {
				hw, hh = 5, 3
			}
			out = append(out, hx.Space{Name: "holes", N: 1 << uint(hw*hh), Batch: 16, Bound: fmt.Sprintf("all 2^%d patterns of holes in a ring around %dx%d cells", hw*hh, hw, hh),
				Run: func(e *hx.Env, i int64) {
					W, H := hw+2, hh+2
					for other := 0; other < 2; other++ {
						lab := make([]int, W*H)
						for k := range lab {
							lab[k] = 1
							if x, z := k%W-1, k/W-1; x >= 0 && z >= 0 && x < hw && z < hh && i>>uint(x+z*hw)&1 == 1 {
								lab[k] = 2 * other
							}
						}
						meshesOf(e, labelled(W, H, 0, lab, multi, nil), sets[:2], nvps, func() string { return fmt.Sprintf("labels %v, %d wide", lab, W) })
					}
					e.Trace()
				}})
			out = append(out, hx.Space{Name: "monotone", N: 1 << 12, Batch: 8, Bound: "the monotone regions of all 2^12 patterns of 2x2 blocks on a 4x3 grid of blocks, with and without a border, minimum and merge sizes (0,0), (4,20)",
				Run: func(e *hx.Env, i int64) {
					for border := 0; border <= 2; border += 2 {
						W, H := 8+2*border, 6+2*border
						f := make([]column, W*H)
						for k := range f {
							f[k] = column{{0, 1 + (k%W+k/W)%2, 63}}
							x, z := k%W-border, k/W-border
							if x >= 0 && z >= 0 && x < 8 && z < 6 && i>>uint(x/2+z/2*4)&1 == 1 {
								f[k] = nil
							}
						}
						for _, s := range [2][2]int{{0, 0}, {4, 20}} {
							chf := buildCHF(W, H, f, 3, 2)
							recast.BuildRegionsMonotone(theCtx, chf, int32(border), int32(s[0]), int32(s[1]))
							meshesOf(e, chf, sets, nvps, func() string { return fmt.Sprintf("blocks %x, border %d, sizes %v", i, border, s) })
						}
					}
					e.Trace()
				}})
			out = append(out, obstaclesSpace(th, func(e *hx.Env, W, H int, lab []int) {
				meshesOf(e, labelled(W, H, 0, lab, multi, nil), sets[:2], []int{6}, func() string { return fmt.Sprintf("labels %v, %d wide", lab, W) })
			}))
			lsz := [][2]int{{300, 5}, {5, 300}, {36, 28}}
			if th {
				lsz = append(lsz, [2]int{700, 3}, [2]int{50, 44})
			}
			lkinds := len(largeLabels(1, 1))
			out = append(out, hx.Space{Name: "large", N: int64(len(lsz) * lkinds * 2), Batch: 1, Bound: fmt.Sprintf("fields of %v cells with %d patterns (thousands of single cells or blocks, stripes, combs, mazes), flat, with and without a border", lsz, lkinds),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					sz, kind, border := lsz[d.Next(len(lsz))], d.Next(lkinds), d.Next(2)
					lab := largeLabels(sz[0], sz[1])[kind]
					meshesOf(e, labelled(sz[0], sz[1], border, lab, multi, nil), []contourSet{{0, 0, 1}, {1.3, 12, 1}}, []int{4, 6}, func() string {
						return fmt.Sprintf("pattern %d on %dx%d cells, border %d", kind, sz[0], sz[1], border)
					})
					e.Trace()
				}})
			vsz := [][2]int{{188, 188}}
			if th {
				vsz = append(vsz, [2]int{299, 299}, [2]int{35, 1400})
			}
			out = append(out, hx.Space{Name: "far holes", N: farRooms, Batch: 2, Bound: "any of 60 large rectangular holes and one of 4 small ones in a room of 360x270 cells",
				Run: func(e *hx.Env, i int64) {
					W, H, lab := farRoom(i)
					meshesOf(e, labelled(W, H, 0, lab, one, nil), []contourSet{{0, 0, 1}}, []int{6}, func() string { return fmt.Sprintf("room %d", i) })
					e.Trace()
				}})
			out = append(out, hx.Space{Name: "vast", N: int64(len(vsz) * 2), Batch: 1, Bound: fmt.Sprintf("fields of %v cells full of separate L-shaped regions of three cells: meshes with more than 2^16/3 vertices, with and without a border", vsz),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					sz, border := vsz[d.Next(len(vsz))], d.Next(2)
					meshesOf(e, labelled(sz[0], sz[1], border, trominoes(sz[0], sz[1]), one, nil), []contourSet{{0, 0, 1}}, []int{6}, func() string {
						return fmt.Sprintf("L-shaped regions on %dx%d cells, border %d", sz[0], sz[1], border)
					})
					e.Trace()
				}})
			ssz := [][2]int{{20, 1440}}
			if th {
				ssz = append(ssz, [2]int{30, 960})
			}
			out = append(out, hx.Space{Name: "strips", N: int64(len(ssz) * 2), Batch: 1, Bound: fmt.Sprintf("fields of %v cells of strips with zigzag borders: meshes of triangles with more than 2^16 edges, with and without a border", ssz),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					sz, border := ssz[d.Next(len(ssz))], d.Next(2)
					lab := make([]int, sz[0]*sz[1])
					for k := range lab {
						x, z := k%sz[0], k/sz[0]
						lab[k] = 1 + (z+x%2)/2%2
					}
					meshesOf(e, labelled(sz[0], sz[1], border, lab, multi, nil), []contourSet{{0, 0, 1}}, []int{3}, func() string {
						return fmt.Sprintf("zigzag strips on %dx%d cells, border %d", sz[0], sz[1], border)
					})
					e.Trace()
				}})
			lv := []column{{{0, 1, 63}}, {{0, 1, 63}, {4, 5, 63}}, {{0, 2, 63}, {5, 6, 63}}, {{0, 3, 63}}, {{0, 4, 63}}, {{0, 1, 63}, {3, 4, 63}, {6, 7, 63}}}
			type dim struct{ w, h, k int }
			dims := []dim{{3, 2, 6}, {3, 3, 3}}
			if th {
				dims = []dim{{4, 2, 5}, {2, 4, 5}, {3, 3, 4}}
			}
			for _, m := range dims {
				m := m
				out = append(out, hx.Space{Name: fmt.Sprintf("levels %dx%d/%d", m.w, m.h, m.k), N: hx.Pow(m.k, m.w*m.h), Batch: 32,
					Bound: fmt.Sprintf("the monotone regions of all fields of %dx%d columns of %d kinds", m.w, m.h, m.k),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						f := make([]column, m.w*m.h)
						for k := range f {
							f[k] = lv[d.Next(m.k)]
						}
						chf := buildCHF(m.w, m.h, f, 2, 1)
						recast.BuildRegionsMonotone(theCtx, chf, 0, 0, 3)
						meshesOf(e, chf, sets[:2], nvps[:2], func() string { return fmt.Sprintf("columns %v, %d wide", f, m.w) })
						e.Trace()
					}})
			}
			return out
		},
	})
}

// trominoes fills a field with separate L-shaped regions of three cells.
func trominoes(W, H int) []int {
	out := make([]int, W*H)
	for i := range out {
		if x, z := i%W%3, i/W%3; x < 2 && z < 2 && x+z < 2 {
			out[i] = 1
		}
	}
	return out
}

// largeLabels lists patterns for fields of any size.
func largeLabels(W, H int) [][]int {
	kinds := []func(x, z int) int{
		func(x, z int) int { return 1 },
		func(x, z int) int { return (x/2 + z/2) % 2 },                 // blocks that touch diagonally
		func(x, z int) int { return 1 + (x/2+z/3)%3 },                 // adjacent blocks of different areas
		func(x, z int) int { return min(1, x%3) * min(1, z%3) },       // separate blocks
		func(x, z int) int { return min(1, max(x%3, z%3)) },           // separate holes
		func(x, z int) int { return 1 + x/2%2 },                       // stripes
		func(x, z int) int { return 1 + z/2%2 },                       //
		func(x, z int) int { return min(1, max(x%4/2, 1-min(1, z))) }, // combs
		func(x, z int) int { return min(1, max(z%4/2, 1-min(1, x))) }, //
		func(x, z int) int { // a long winding corridor
			if x%4 < 2 || x%8 < 4 && z >= H-2 || x%8 >= 4 && z < 2 {
				return 1
			}
			return 0
		},
	}
	out := make([][]int, len(kinds))
	for k, f := range kinds {
		out[k] = make([]int, W*H)
		for i := range out[k] {
			out[k][i] = f(i%W, i/W)
		}
	}
	return out
}

// obstaclesSpace enumerates pairs of rectangular obstacles in a room.
func obstaclesSpace(th bool, judge func(e *hx.Env, W, H int, lab []int)) hx.Space {
	W, H := 6, 5
	if th {
		W, H = 8, 6
	}
	type rect struct{ x0, z0, x1, z1 int }
	var rs []rect
	for x0 := 0; x0 < W; x0++ {
		for x1 := x0 + 1; x1 <= W; x1++ {
			for z0 := 0; z0 < H; z0++ {
				for z1 := z0 + 1; z1 <= H; z1++ {
					rs = append(rs, rect{x0, z0, x1, z1})
				}
			}
		}
	}
	return hx.Space{Name: fmt.Sprintf("obstacles %dx%d", W, H), N: hx.Pow(len(rs), 2), Batch: 512,
		Bound: fmt.Sprintf("all pairs of rectangular obstacles out of the %d in a room of %dx%d cells", len(rs), W, H),
		Run: func(e *hx.Env, i int64) {
			a, b := int(i)%len(rs), int(i)/len(rs)
			if b < a {
				return
			}
			lab := make([]int, W*H)
			for k := range lab {
				lab[k] = 1
			}
			for _, r := range [2]rect{rs[a], rs[b]} {
				for z := r.z0; z < r.z1; z++ {
					for x := r.x0; x < r.x1; x++ {
						lab[x+z*W] = 0
					}
				}
			}
			judge(e, W, H, lab)
			e.Trace()
		}}
}
