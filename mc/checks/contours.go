package checks

import (
	"fmt"
	"sort"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C27: contours

const (
	rcBorderVertex = 0x10000
	rcAreaBorder   = 0x20000
	rcRegMask      = 0xffff
)

// rawVert is a vertex of a raw contour: the end of a boundary edge, with the
// region (and marks) across that edge.
type rawVert struct{ x, y, z, r int }

// rawLoop is one boundary loop of a region, in the direction of the library.
type rawLoop struct {
	reg   int
	area  uint8
	v     []rawVert
	cells int // number of distinct spans met
	area2 int // twice the signed area (positive for outlines)
}

// traceLoops walks all boundary loops of all regions.
func traceLoops(chf *recast.CompactHeightfield) []rawLoop {
	xs, zs := spanCells(chf)
	var out []rawLoop
	done := map[[2]int]bool{}
	across := func(i, d int) int {
		if _, _, j := conn(chf, xs[i], zs[i], i, d); j >= 0 {
			return j
		}
		return -1
	}
	regOf := func(j int) int {
		if j < 0 {
			return 0
		}
		return int(chf.Spans[j].Reg)
	}
	for i := range xs {
		r := regOf(i)
		if r == 0 || r&regBorder != 0 {
			continue
		}
		for d := 0; d < 4; d++ {
			if regOf(across(i, d)) == r || done[[2]int{i, d}] {
				continue
			}
			l := rawLoop{reg: r, area: chf.Areas[i]}
			met := map[int]bool{}
			ci, cd := i, d
			for !done[[2]int{ci, cd}] {
				done[[2]int{ci, cd}] = true
				met[ci] = true
				l.v = append(l.v, cornerOf(chf, xs, zs, ci, cd, across))
				cd = (cd + 1) % 4
				for regOf(across(ci, cd)) == r {
					ci = across(ci, cd)
					cd = (cd + 3) % 4
				}
			}
			l.cells = len(met)
			for k, v := range l.v {
				p := l.v[(k+len(l.v)-1)%len(l.v)]
				l.area2 += v.x*p.z - p.x*v.z
			}
			out = append(out, l)
		}
	}
	return out
}

// cornerOf is the vertex at the end of side d of span i.
func cornerOf(chf *recast.CompactHeightfield, xs, zs []int, i, d int, across func(i, d int) int) rawVert {
	v := rawVert{x: xs[i], z: zs[i]}
	switch d {
	case 0:
		v.z++
	case 1:
		v.x++
		v.z++
	case 2:
		v.x++
	}
	dp := (d + 1) % 4
	a := across(i, d)
	c := across(i, dp)
	b := -1
	if a >= 0 {
		b = across(a, dp)
	}
	if c >= 0 {
		if k := across(c, d); k >= 0 {
			b = k
		}
	}
	if a >= 0 {
		if k := across(a, dp); k >= 0 && k != b {
			v.y = max(v.y, int(chf.Spans[k].Y))
		}
	}
	quad := [4]int{i, a, b, c}
	type code struct {
		reg  int
		area uint8
	}
	var q [4]code
	for k, j := range quad {
		if j >= 0 {
			q[k] = code{int(chf.Spans[j].Reg), chf.Areas[j]}
			v.y = max(v.y, int(chf.Spans[j].Y))
		}
	}
	// two equal border cells in a row next to two inner cells of one area
	for k := 0; k < 4; k++ {
		e1, e2, i1, i2 := q[k], q[(k+1)%4], q[(k+2)%4], q[(k+3)%4]
		zero := false
		for _, c := range q {
			zero = zero || c == code{}
		}
		if e1 == e2 && e1.reg&regBorder != 0 && (i1.reg|i2.reg)&regBorder == 0 && i1.area == i2.area && !zero {
			v.r |= rcBorderVertex
		}
	}
	if a >= 0 {
		v.r |= int(chf.Spans[a].Reg)
		if chf.Areas[a] != chf.Areas[i] {
			v.r |= rcAreaBorder
		}
	}
	return v
}

func toRaw(v []int32, n int) []rawVert {
	out := make([]rawVert, n)
	for i := range out {
		out[i] = rawVert{int(v[i*4]), int(v[i*4+1]), int(v[i*4+2]), int(v[i*4+3])}
	}
	return out
}

func sameLoop(a, b []rawVert) bool {
	if len(a) != len(b) {
		return false
	}
	for s := range b {
		ok := true
		for i := range a {
			if a[i] != b[(i+s)%len(b)] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func segDist2(px, pz, ax, az, bx, bz int) float64 {
	dx, dz := float64(bx-ax), float64(bz-az)
	t := 0.0
	if d := dx*dx + dz*dz; d > 0 {
		t = (float64(px-ax)*dx + float64(pz-az)*dz) / d
	}
	if t < 0 {
		t = 0
	} else if t > 1 {
		t = 1
	}
	ex, ez := float64(ax)+t*dx-float64(px), float64(az)+t*dz-float64(pz)
	return ex*ex + ez*ez
}

const contourEps = 1e-4

// matchSimplified finds raw indices of the simplified vertices in cyclic
// order such that judge accepts them; the last reason for rejection
// otherwise. Where the raw form passes a point twice, one vertex may stand
// for both passages (the part between them is left out): it then has an
// incoming and an outgoing index.
func matchSimplified(raw, simp []rawVert, judge func(in, out []int) string) string {
	n := len(raw)
	reason := "its vertices are not raw vertices in their order"
	at := func(j, k int) bool { return raw[j].x == simp[k].x && raw[j].z == simp[k].z }
	in, out := make([]int, len(simp)), make([]int, len(simp))
	budget := 5000
	var rec func(k, from, left int) bool
	rec = func(k, from, left int) bool {
		if budget--; budget < 0 {
			return false
		}
		if k == len(simp) {
			s := judge(in, out)
			if s != "" {
				reason = s
			}
			return s == ""
		}
		for d := 0; d < left; d++ {
			j := (from + d) % n
			if !at(j, k) {
				continue
			}
			for d2 := d; d2 < left; d2++ {
				o := (from + d2) % n
				if !at(o, k) || raw[o].y != simp[k].y {
					continue
				}
				in[k], out[k] = j, o
				if rec(k+1, (o+1)%n, left-d2-1) {
					return true
				}
			}
		}
		return false
	}
	for s := 0; s < n; s++ {
		if !at(s, 0) {
			continue
		}
		if rec(0, s, n) {
			return ""
		}
	}
	return reason
}

// judgeSimplified judges the simplified form of a contour against its raw
// form.
func judgeSimplified(raw, simp []rawVert, maxErr float64, maxEdge, flags int) string {
	n := len(raw)
	conns := false
	for _, v := range raw {
		conns = conns || v.r&rcRegMask != 0
	}
	return matchSimplified(raw, simp, func(inc, idx []int) string {
		in := map[int]bool{}
		for k := range idx {
			in[idx[k]], in[inc[k]] = true, true
			for j := inc[k]; j != idx[k]; j = (j + 1) % n {
				in[j] = true // left out
			}
		}
		if conns {
			for k := range raw {
				a, b := raw[k], raw[(k+1)%n]
				if (a.r&(rcRegMask|rcAreaBorder)) != (b.r&(rcRegMask|rcAreaBorder)) && !in[k] {
					return fmt.Sprintf("the region across changes at (%d,%d), which is not a vertex", a.x, a.z)
				}
			}
		}
		extra := 0
		for k, j := range idx {
			j2 := inc[(k+1)%len(idx)]
			a, b := raw[j], raw[j2]
			nx := raw[(j+1)%n]
			want := nx.r&(rcRegMask|rcAreaBorder) | a.r&rcBorderVertex
			if simp[k].r != want {
				return fmt.Sprintf("the edge from (%d,%d) to (%d,%d) names %#x instead of %#x", a.x, a.z, b.x, b.z, simp[k].r, want)
			}
			steps := (j2 - j + n) % n
			wall := nx.r&rcRegMask == 0
			// splitting long edges afterwards may move them off the raw form
			if (wall || nx.r&rcAreaBorder != 0) && (maxEdge == 0 || maxEdge >= 12) {
				for s := 1; s < steps; s++ {
					p := raw[(j+s)%n]
					if d := segDist2(p.x, p.z, a.x, a.z, b.x, b.z); d > maxErr*maxErr+contourEps {
						return fmt.Sprintf("the edge from (%d,%d) to (%d,%d) passes raw vertex (%d,%d) at distance² %v", a.x, a.z, b.x, b.z, p.x, p.z, d)
					}
				}
			}
			if maxEdge > 0 && steps > 1 && (wall && flags&1 != 0 || nx.r&rcAreaBorder != 0 && flags&2 != 0) {
				if dx, dz := b.x-a.x, b.z-a.z; dx*dx+dz*dz > maxEdge*maxEdge {
					return fmt.Sprintf("the edge from (%d,%d) to (%d,%d) is longer than %d", a.x, a.z, b.x, b.z, maxEdge)
				}
			}
			// vertices that nothing asks for
			pv := raw[j]
			if pv.r&(rcRegMask|rcAreaBorder) == nx.r&(rcRegMask|rcAreaBorder) {
				extra++
			}
		}
		if maxErr >= 50 && maxEdge == 0 && extra > 2 {
			return fmt.Sprintf("%d vertices are not asked for by the error limit", extra)
		}
		return ""
	})
}

// mustExist tells if a loop cannot be dropped by simplification.
func mustExist(l rawLoop, maxErr float64) bool {
	if l.cells <= 1 {
		return false
	}
	n := len(l.v)
	var man []int
	conns := false
	pos := map[[2]int]bool{}
	for k := range l.v {
		conns = conns || l.v[k].r&rcRegMask != 0
		if (l.v[k].r^l.v[(k+1)%n].r)&(rcRegMask|rcAreaBorder) != 0 {
			man = append(man, k)
			pos[[2]int{l.v[k].x, l.v[k].z}] = true
		}
	}
	if conns && len(pos) >= 3 {
		return true
	}
	if conns && len(pos) != len(man) {
		return false // pinched
	}
	if !conns || len(man) == 0 {
		ll, ur := 0, 0
		for k, v := range l.v {
			if v.x < l.v[ll].x || v.x == l.v[ll].x && v.z < l.v[ll].z {
				ll = k
			}
			if v.x > l.v[ur].x || v.x == l.v[ur].x && v.z > l.v[ur].z {
				ur = k
			}
		}
		man = []int{ll, ur}
	}
	if len(man) < 2 {
		return false
	}
	for k, a := range man {
		b := man[(k+1)%len(man)]
		nx := l.v[(a+1)%n]
		if nx.r&rcRegMask != 0 && nx.r&rcAreaBorder == 0 {
			continue
		}
		for s := 1; s < (b-a+n)%n; s++ {
			p := l.v[(a+s)%n]
			if segDist2(p.x, p.z, l.v[a].x, l.v[a].z, l.v[b].x, l.v[b].z) > maxErr*maxErr+contourEps {
				return true
			}
		}
	}
	return false
}

func sgn(a int) int {
	switch {
	case a < 0:
		return -1
	case a > 0:
		return 1
	}
	return 0
}

func orient(a, b, c rawVert) int {
	return (b.x-a.x)*(c.z-a.z) - (c.x-a.x)*(b.z-a.z)
}

// properCross tells if the open segments ab and cd cross at one point.
func properCross(a, b, c, d rawVert) bool {
	return sgn(orient(a, b, c))*sgn(orient(a, b, d)) < 0 && sgn(orient(c, d, a))*sgn(orient(c, d, b)) < 0
}

// winding2 is the winding number of the polygon around the point (px/2,
// pz/2), which must not be on it.
func winding2(poly []rawVert, px, pz int) int {
	w := 0
	for i, a := range poly {
		b := poly[(i+1)%len(poly)]
		az, bz := 2*a.z, 2*b.z
		if (az > pz) == (bz > pz) {
			continue
		}
		// side of the point with respect to ab
		s := 2*(b.x-a.x)*(pz-az) - (px-2*a.x)*(bz-az)
		if bz > az && s < 0 {
			w++
		} else if bz < az && s > 0 {
			w--
		}
	}
	return w
}

func contourLoops(v []rawVert) string {
	s := ""
	for _, p := range v {
		s += fmt.Sprintf("(%d,%d,%d:%x)", p.x, p.y, p.z, p.r)
	}
	return s
}

// checkContours builds the contours of chf and judges them.
func checkContours(e *hx.Env, chf *recast.CompactHeightfield, loops []rawLoop, maxErr float32, maxEdge, flags int, where func() string) *recast.ContourSet {
	what := func() string {
		reg := make([]int, chf.SpanCount)
		for i := range reg {
			reg[i] = int(chf.Spans[i].Reg)
		}
		return fmt.Sprintf("%s, error %v, edge length %d, flags %d, regions %s", where(), maxErr, maxEdge, flags, showRegions(chf, reg))
	}
	cset := &recast.ContourSet{}
	ok := false
	if msg := try(func() {
		ok = recast.BuildContours(theCtx, chf, maxErr, int32(maxEdge), cset, int32(flags))
	}); msg != nil {
		e.Failf("panic", "%s: BuildContours crashes: %v", what(), msg)
	}
	if !ok {
		e.Failf("refused", "%s: refused", what())
	}
	e.Step(1)
	e.Eval(1)
	B := int(chf.BorderSize)
	if int(cset.Width) != int(chf.Width)-2*B || int(cset.Height) != int(chf.Height)-2*B || int(cset.BorderSize) != B || cset.Cs != chf.Cs || cset.Ch != chf.Ch || cset.MaxError != maxErr {
		e.Failf("fields", "%s: width %d height %d border %d cs %v ch %v error %v", what(), cset.Width, cset.Height, cset.BorderSize, cset.Cs, cset.Ch, cset.MaxError)
	}
	for k := 0; k < 3; k++ {
		pad := float32(B) * chf.Cs
		if k == 1 {
			pad = 0
		}
		if cset.BMin[k] != chf.BMin[k]+pad || cset.BMax[k] != chf.BMax[k]-pad {
			e.Failf("bounds", "%s: bounds %v %v", what(), cset.BMin, cset.BMax)
		}
	}
	if int(cset.NConts) > len(cset.Conts) {
		e.Failf("count", "%s: %d contours in a list of %d", what(), cset.NConts, len(cset.Conts))
	}
	byReg := map[int][]*rawLoop{}
	for k := range loops {
		l := &loops[k]
		byReg[l.reg] = append(byReg[l.reg], l)
	}
	used := map[*rawLoop]bool{}
	type edge struct{ ax, ay, az, bx, by, bz int }
	shared := map[[2]int]map[edge]bool{}
	merged := map[int]*recast.Contour{}
	simple := map[*rawLoop][]rawVert{}
	for k := 0; k < int(cset.NConts); k++ {
		c := &cset.Conts[k]
		if len(c.Verts) != int(c.NVerts)*4 || len(c.RVerts) != int(c.NRVerts)*4 {
			e.Failf("count", "%s: contour %d has %d and %d numbers for %d and %d vertices", what(), k, len(c.Verts), len(c.RVerts), c.NVerts, c.NRVerts)
		}
		raw := toRaw(c.RVerts, int(c.NRVerts))
		for i := range raw {
			raw[i].x += B
			raw[i].z += B
		}
		var l *rawLoop
		for _, m := range byReg[int(c.Reg)] {
			if !used[m] && sameLoop(raw, m.v) {
				l = m
				break
			}
		}
		if l == nil {
			s := ""
			for _, m := range byReg[int(c.Reg)] {
				s += "\n  " + contourLoops(m.v)
			}
			e.Failf("raw", "%s: the raw contour of region %d is not one of its boundaries\n  %s\ninstead of one of%s", what(), c.Reg, contourLoops(raw), s)
		}
		used[l] = true
		if c.Area != l.area {
			e.Failf("area", "%s: the contour of region %d has area %d instead of %d", what(), c.Reg, c.Area, l.area)
		}
		if c.NVerts == 0 {
			if l.area2 > 0 || len(byReg[int(c.Reg)]) == 1 {
				e.Failf("empty", "%s: the outline of region %d has no vertices", what(), c.Reg)
			}
			continue
		}
		simp := toRaw(c.Verts, int(c.NVerts))
		for i := range simp {
			simp[i].x += B
			simp[i].z += B
		}
		simple[l] = simp
		if int(c.NVerts) < 3 {
			e.Failf("short", "%s: the contour of region %d has %d vertices", what(), c.Reg, c.NVerts)
		}
		if len(byReg[int(c.Reg)]) > 1 {
			merged[int(c.Reg)] = c
			continue // judged below
		}
		if s := judgeSimplified(raw, simp, float64(maxErr), maxEdge, flags); s != "" {
			e.Failf("simplified", "%s: contour of region %d: %s\nraw %s\nsimplified %s", what(), c.Reg, s, contourLoops(raw), contourLoops(simp))
		}
		for i, a := range simp {
			b := simp[(i+1)%len(simp)]
			if o := a.r & rcRegMask; o != 0 && o&regBorder == 0 {
				p, q := a, b
				if p.x > q.x || p.x == q.x && p.z > q.z {
					p, q = q, p
				}
				key := [2]int{l.reg, o}
				if shared[key] == nil {
					shared[key] = map[edge]bool{}
				}
				if int(chf.SpanCount) > len(chf.Cells) {
					// several levels: the cells around a corner may be
					// seen differently from different sides
					p.y, q.y = 0, 0
				}
				shared[key][edge{p.x, p.y, p.z, q.x, q.y, q.z}] = true
			}
		}
	}
	for k := range loops {
		l := &loops[k]
		if !used[l] && mustExist(*l, float64(maxErr)) {
			e.Failf("missing", "%s: region %d has no contour for its boundary %s", what(), l.reg, contourLoops(l.v))
		}
	}
	// two sides of a border
	pinched := pinchedVerts(loops)
	for key, es := range shared {
		os := shared[[2]int{key[1], key[0]}]
		if len(byReg[key[1]]) != 1 || !used[byReg[key[1]][0]] {
			continue
		}
		for s := range es {
			if pinched[[2]int{s.ax, s.az}] || pinched[[2]int{s.bx, s.bz}] || pinchBetween(byReg[key[0]][0].v, byReg[key[1]][0].v, pinched) {
				e.Outcome("border at a pinched vertex")
				continue
			}
			if !os[s] {
				e.Failf("sides", "%s: regions %d and %d do not agree about their border: (%d,%d,%d)-(%d,%d,%d) is only on one side", what(), key[0], key[1], s.ax, s.ay, s.az, s.bx, s.by, s.bz)
			}
			e.Outcome("shared border")
		}
	}
	// regions with holes
	for r, ls := range byReg {
		if len(ls) == 1 {
			continue
		}
		checkHoles(e, chf, cset, r, ls, used, simple, maxErr, maxEdge, what)
	}
	e.Outcome("contours %d", min(int(cset.NConts), 6))
	return cset
}

// pinchedVerts are the vertices where a region touches itself or another
// diagonally.
func pinchedVerts(loops []rawLoop) map[[2]int]bool {
	n := map[[3]int]int{}
	out := map[[2]int]bool{}
	for _, l := range loops {
		for _, v := range l.v {
			k := [3]int{l.reg, v.x, v.z}
			if n[k]++; n[k] > 1 {
				out[[2]int{v.x, v.z}] = true
			}
		}
	}
	return out
}

func pinchBetween(a, b []rawVert, p map[[2]int]bool) bool {
	in := map[[2]int]bool{}
	for _, v := range a {
		in[[2]int{v.x, v.z}] = true
	}
	for _, v := range b {
		if k := [2]int{v.x, v.z}; in[k] && p[k] {
			return true
		}
	}
	return false
}

// checkHoles judges the outline of a region that has holes.
func checkHoles(e *hx.Env, chf *recast.CompactHeightfield, cset *recast.ContourSet, r int, ls []*rawLoop, used map[*rawLoop]bool, simple map[*rawLoop][]rawVert, maxErr float32, maxEdge int, what func() string) {
	var out *rawLoop
	for _, l := range ls {
		if l.area2 > 0 {
			if out != nil {
				return // several outlines: not a region
			}
			out = l
		}
	}
	if out == nil || simple[out] == nil {
		return
	}
	outline := simple[out]
	for _, l := range ls {
		if l != out && l.area2 != 0 && simple[l] != nil && maxErr == 0 {
			e.Failf("unmerged", "%s: the hole %s of region %d is not merged into the outline", what(), contourLoops(l.v), r)
		}
	}
	e.Outcome("region with %d holes", min(len(ls)-1, 4))
	if maxErr != 0 {
		return
	}
	// with no error allowed, and only walls around, the outline encloses
	// exactly the cells of the region
	xs, zs := spanCells(chf)
	for _, l := range ls {
		for _, v := range l.v {
			if v.r&rcRegMask != 0 && v.r&rcAreaBorder == 0 {
				return
			}
		}
	}
	inside := map[[2]int]bool{}
	for i := range xs {
		if int(chf.Spans[i].Reg) == r {
			inside[[2]int{xs[i], zs[i]}] = true
		}
	}
	for i := range xs {
		w := winding2(outline, 2*xs[i]+1, 2*zs[i]+1)
		if inside[[2]int{xs[i], zs[i]}] != (w != 0) || w > 1 || w < -1 {
			e.Failf("hole", "%s: the outline of region %d winds %d times around cell (%d,%d): %s", what(), r, w, xs[i], zs[i], contourLoops(outline))
		}
	}
	// its edges do not cross each other
	for i := range outline {
		for j := i + 1; j < len(outline); j++ {
			a, b := outline[i], outline[(i+1)%len(outline)]
			c, d := outline[j], outline[(j+1)%len(outline)]
			if properCross(a, b, c, d) {
				e.Failf("crossing", "%s: edges (%d,%d)-(%d,%d) and (%d,%d)-(%d,%d) of the outline of region %d cross: %s", what(), a.x, a.z, b.x, b.z, c.x, c.z, d.x, d.z, r, contourLoops(outline))
			}
		}
	}
}

type contourSet struct {
	err   float32
	edge  int
	flags int
}

// judgeField judges the contours of a field for all settings.
func judgeField(e *hx.Env, chf *recast.CompactHeightfield, sets []contourSet, where func() string) {
	loops := traceLoops(chf)
	for _, s := range sets {
		cset := checkContours(e, chf, loops, s.err, s.edge, s.flags, where)
		h := hx.NewHash()
		for k := 0; k < int(cset.NConts); k++ {
			for _, v := range cset.Conts[k].Verts {
				h.I(int(v))
			}
		}
		e.State(uint64(h))
		if e.WantSample() {
			e.Sample("%s, error %v: %d contours", where(), s.err, cset.NConts)
		}
	}
}

// farRoom is a room of 4x3 blocks of 90 cells with two rectangular holes, each
// a rectangle of blocks less 5 or 9 cells on every side.
func farRoom(i int64) (W, H int, lab []int) {
	const B = 90
	W, H = 4*B, 3*B
	lab = make([]int, W*H)
	for k := range lab {
		lab[k] = 1
	}
	d := hx.NewDec(i)
	for j := 0; j < 2; j++ {
		xs, zs := [2]int{1, 2}, [2]int{1, 2}
		if j == 0 {
			xs, zs = farSpans(4, d.Next(10)), farSpans(3, d.Next(6))
		} else {
			k := d.Next(4)
			xs[0], zs[0] = xs[0]+k%2, zs[0]+k/2
			xs[1], zs[1] = 2+k%2, 2+k/2
		}
		in := 5 + 4*j
		for z := zs[0]*B + in; z < zs[1]*B-in; z++ {
			for x := xs[0]*B + in; x < xs[1]*B-in; x++ {
				lab[x+z*W] = 0
			}
		}
	}
	return
}

const farRooms = 240

// farSpans is the k-th nonempty range of 0..n.
func farSpans(n, k int) [2]int {
	for a := 0; a < n; a++ {
		for b := a + 1; b <= n; b++ {
			if k == 0 {
				return [2]int{a, b}
			}
			k--
		}
	}
	panic("no such range")
}

// labelled makes a flat field whose regions are the connected parts of equal
// labels (0: not walkable); area gives the area type of a label.
func labelled(w, h, border int, label []int, area func(l int) uint8, heights func(x, z int) int) *recast.CompactHeightfield {
	W, H := w+2*border, h+2*border
	f := make([]column, W*H)
	for z := 0; z < H; z++ {
		for x := 0; x < W; x++ {
			y := 1
			if heights != nil {
				y += heights(x, z)
			}
			f[x+z*W] = column{{0, y, 63}}
		}
	}
	chf := buildCHF(W, H, f, 3, 2)
	u := newUF(w * h)
	for z := 0; z < h; z++ {
		for x := 0; x < w; x++ {
			k := x + z*w
			if x > 0 && label[k] == label[k-1] {
				u.join(k, k-1)
			}
			if z > 0 && label[k] == label[k-w] {
				u.join(k, k-w)
			}
		}
	}
	ids := map[int]int{}
	var roots []int
	for k := range label {
		if label[k] != 0 {
			r := u.find(k)
			if _, ok := ids[r]; !ok {
				ids[r] = 0
				roots = append(roots, r)
			}
		}
	}
	sort.Ints(roots)
	for i, r := range roots {
		ids[r] = i + 1
	}
	for z := 0; z < H; z++ {
		for x := 0; x < W; x++ {
			i := int(chf.Cells[x+z*W].Index)
			px, pz := x-border, z-border
			switch {
			case px >= 0 && pz >= 0 && px < w && pz < h:
				k := px + pz*w
				if label[k] == 0 {
					chf.Areas[i] = 0
				} else {
					chf.Areas[i] = area(label[k])
					chf.Spans[i].Reg = uint16(ids[u.find(k)])
				}
			default:
				b := 1
				switch {
				case z >= H-border:
					b = 4
				case z < border:
					b = 3
				case x >= W-border:
					b = 2
				}
				chf.Spans[i].Reg = uint16(regBorder | b)
			}
		}
	}
	chf.MaxRegions = uint16(len(roots))
	chf.BorderSize = int32(border)
	return chf
}

func init() {
	hx.Register(&hx.Check{
		ID: "C27", Level: "model_checking",
		Rule:        "every labelling of small grids with up to 3 labels (connected parts of a label are regions, with one or several area types, flat and stepped, with and without a border of marked cells), every pattern of holes in a ring, pairs and triples of obstacles in a room, holes that hide the nearest corners, large patterned fields, and the monotone regions of multi-level fields, each with several error and edge length limits; oracle: boundary loops walked independently (vertices, heights, regions across, marks); the simplified contour is matched against its raw contour (mandatory vertices, deviation, edge length, labels), the two sides of each border agree, outlines with merged holes enclose exactly the region; non-trivial: at least one contour",
		Assumptions: []string{"the error limit is not judged together with a limit on edge lengths that splits edges: a split may move an edge off its raw form", "borders between two regions of the same area are not subject to the error limit (they are straight between the points where the neighbour changes)", "a boundary whose simplification has less than three vertices, or of a single cell, has no contour", "boundaries that enclose no cells (slits between two levels) are not holes", "agreement of two sides is not judged at vertices where a region touches itself diagonally"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			sets := []contourSet{{0, 0, 1}, {1.3, 0, 1}, {0, 2, 1}, {100, 0, 3}, {0, 1, 3}, {0.8, 2, 2}, {1.3, 12, 1}}
			one := func(l int) uint8 { return 63 }
			multi := func(l int) uint8 { return []uint8{0, 63, 5, 7}[l] }
			step := func(x, z int) int { return (x + 2*z) % 3 }
			type pat struct{ w, h, k, border int }
			pats := []pat{{4, 3, 2, 0}, {4, 4, 2, 0}, {3, 3, 3, 0}, {3, 3, 3, 1}, {3, 2, 4, 1}}
			if th {
				pats = []pat{{5, 4, 2, 0}, {4, 4, 2, 1}, {4, 3, 3, 0}, {3, 4, 3, 1}, {4, 2, 4, 1}, {3, 3, 4, 0}}
			}
			for _, p := range pats {
				p := p
				out = append(out, hx.Space{Name: fmt.Sprintf("labels %dx%d/%d/%d", p.w, p.h, p.k, p.border), N: hx.Pow(p.k, p.w*p.h), Batch: 128,
					Bound: fmt.Sprintf("all %d^%d labellings of a %dx%d grid, border %d, one and several areas, flat and stepped, %d settings", p.k, p.w*p.h, p.w, p.h, p.border, len(sets)),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						lab := make([]int, p.w*p.h)
						for k := range lab {
							lab[k] = d.Next(p.k)
						}
						judgeField(e, labelled(p.w, p.h, p.border, lab, multi, nil), sets, func() string { return fmt.Sprintf("labels %v, %d wide, border %d, several areas", lab, p.w, p.border) })
						judgeField(e, labelled(p.w, p.h, p.border, lab, one, step), sets, func() string {
							return fmt.Sprintf("labels %v, %d wide, border %d, one area, stepped", lab, p.w, p.border)
						})
						e.Trace()
					}})
			}
			hw, hh := 4, 3
			if th {
				hw, hh = 5, 4
			}
			out = append(out, hx.Space{Name: "holes", N: 1 << uint(hw*hh), Batch: 64, Bound: fmt.Sprintf("all 2^%d patterns of holes in a ring around %dx%d cells; the holes empty or another region", hw*hh, hw, hh),
				Run: func(e *hx.Env, i int64) {
					W, H := hw+2, hh+2
					for other := 0; other < 2; other++ {
						lab := make([]int, W*H)
						for k := range lab {
							lab[k] = 1
							if x, z := k%W-1, k/W-1; x >= 0 && z >= 0 && x < hw && z < hh && i>>uint(x+z*hw)&1 == 1 {
								lab[k] = 2 * other
							}
						}
						judgeField(e, labelled(W, H, 0, lab, multi, nil), sets[:5], func() string { return fmt.Sprintf("labels %v, %d wide", lab, W) })
					}
					e.Trace()
				}})
			fw := 3
			if th {
				fw = 4
			}
			out = append(out, hx.Space{Name: "filled holes", N: hx.Pow(4, fw*2), Batch: 64, Bound: fmt.Sprintf("all 4^%d ways to fill %dx2 cells inside a ring with three other labels or nothing", fw*2, fw),
				Run: func(e *hx.Env, i int64) {
					W, H := fw+2, 4
					d := hx.NewDec(i)
					lab := make([]int, W*H)
					for k := range lab {
						lab[k] = 4
						if x, z := k%W-1, k/W-1; x >= 0 && z >= 0 && x < fw && z < 2 {
							lab[k] = d.Next(4)
						}
					}
					judgeField(e, labelled(W, H, 0, lab, func(l int) uint8 { return uint8(63 - l%2) }, nil), sets[:5], func() string { return fmt.Sprintf("labels %v, %d wide", lab, W) })
					e.Trace()
				}})
			// holes in larger patterns: 2 cells wide
			out = append(out, hx.Space{Name: "wide holes", N: 1 << 12, Batch: 32, Bound: "all 2^12 patterns of holes from 2x2 blocks on a 4x3 grid of blocks",
				Run: func(e *hx.Env, i int64) {
					W, H := 10, 8
					lab := make([]int, W*H)
					for k := range lab {
						lab[k] = 1
						if x, z := k%W-1, k/W-1; x >= 0 && z >= 0 && x < 8 && z < 6 && i>>uint(x/2+z/2*4)&1 == 1 {
							lab[k] = 0
						}
					}
					judgeField(e, labelled(W, H, 0, lab, multi, step), []contourSet{{0, 0, 1}, {1, 0, 1}, {0, 3, 1}}, func() string { return fmt.Sprintf("labels %v, %d wide", lab, W) })
					e.Trace()
				}})
			out = append(out, hx.Space{Name: "many holes", N: 24, Batch: 1, Bound: "1..24 separate holes in one region",
				Run: func(e *hx.Env, i int64) {
					W, H := 26, 10
					for size := 1; size <= 2; size++ {
						lab := make([]int, W*H)
						for k := range lab {
							lab[k] = 1
							x, z := k%W-1, k/W-1
							if x < 0 || z < 0 {
								continue
							}
							if x%3 < size && z%3 < size && x < 24 && z/3 < 3 && x/3+8*(z/3) <= int(i) {
								lab[k] = 0
							}
						}
						judgeField(e, labelled(W, H, 0, lab, multi, nil), []contourSet{{0, 0, 1}, {1, 0, 1}}, func() string { return fmt.Sprintf("%d holes of size %d", i+1, size) })
					}
					e.Trace()
				}})
			// obstacles that stand free or touch the outside (peninsulas)
			type rect struct{ x0, z0, x1, z1 int }
			rects := func(w, h int, thin bool) []rect {
				var out []rect
				for x0 := 0; x0 < w; x0++ {
					for x1 := x0 + 1; x1 <= w; x1++ {
						for z0 := 0; z0 < h; z0++ {
							for z1 := z0 + 1; z1 <= h; z1++ {
								if !thin || x1 == x0+1 || z1 == z0+1 {
									out = append(out, rect{x0, z0, x1, z1})
								}
							}
						}
					}
				}
				return out
			}
			bars := func(name string, W, H, n int, thin bool) hx.Space {
				rs := rects(W, H, thin)
				kind := "rectangles"
				if thin {
					kind = "bars one cell thick"
				}
				return hx.Space{Name: fmt.Sprintf("%s %dx%d", name, W, H), N: hx.Pow(len(rs), n), Batch: 4096,
					Bound: fmt.Sprintf("all sets of %d %s out of the %d in a room of %dx%d cells", n, kind, len(rs), W, H),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						lab := make([]int, W*H)
						for k := range lab {
							lab[k] = 1
						}
						last := 0
						for b := 0; b < n; b++ {
							k := d.Next(len(rs))
							if k < last {
								return // another order of the same
							}
							last = k
							for z := rs[k].z0; z < rs[k].z1; z++ {
								for x := rs[k].x0; x < rs[k].x1; x++ {
									lab[x+z*W] = 0
								}
							}
						}
						judgeField(e, labelled(W, H, 0, lab, multi, nil), []contourSet{{0, 0, 1}}, func() string { return fmt.Sprintf("labels %v, %d wide", lab, W) })
						e.Trace()
					}}
			}
			if th {
				out = append(out, bars("obstacles", 9, 7, 2, false), bars("bars", 6, 6, 3, true))
			} else {
				out = append(out, bars("obstacles", 8, 6, 2, false), bars("bars", 5, 4, 3, true))
			}
			// a hole that hides the nearest part of the outline from its
			// leftmost vertex
			pw, ph := 16, 11
			if th {
				pw, ph = 18, 13
			}
			out = append(out, hx.Space{Name: "corners", N: int64(pw * ph * pw * ph * 8 * 4), Batch: 4096,
				Bound: fmt.Sprintf("a room of %dx%d cells with a free angled hole (4 kinds), a block of any size in one lower corner and one in the other, all 8 symmetries", pw, ph),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					kind, sym := d.Next(4), d.Next(8)
					a, b, c, f := d.Next(pw), d.Next(ph), d.Next(pw), d.Next(ph)
					if f > b || a+c >= pw || (b == 0) != (a == 0) || (f == 0) != (c == 0) || b > 0 && f == b && c > a {
						return
					}
					m := make([]int, pw*ph)
					for k := range m {
						x, z := k%pw, k/pw
						m[k] = 1
						hx, hz := x-pw/2, z-(ph-3)
						in := hx == 0 && hz == 0 || hx == 1 && hz <= 0 && hz >= -2
						switch kind {
						case 1:
							in = hx == 0 && hz == 0 || hx == 1 && hz == -2
						case 2:
							in = hx == 0 && hz == 0 || hx == 1 && hz == -2 || hx == 2 && hz <= 0 && hz >= -2
						case 3:
							in = hx == 0 && hz == 0 || hx >= 1 && hx <= 3 && hz == -1
						}
						if in || x < a && z < b || x >= pw-c && z < f {
							m[k] = 0
						}
					}
					W, H := pw, ph
					if sym&1 != 0 {
						W, H = ph, pw
					}
					lab := make([]int, W*H)
					for k := range m {
						x, z := k%pw, k/pw
						if sym&1 != 0 {
							x, z = z, x
						}
						if sym&2 != 0 {
							x = W - 1 - x
						}
						if sym&4 != 0 {
							z = H - 1 - z
						}
						lab[x+z*W] = m[k]
					}
					judgeField(e, labelled(W, H, 0, lab, multi, nil), []contourSet{{0, 0, 1}}, func() string { return fmt.Sprintf("labels %v, %d wide", lab, W) })
					e.Trace()
				}})
			lsz := [][2]int{{300, 5}, {5, 300}, {70, 50}}
			if th {
				lsz = append(lsz, [2]int{700, 3}, [2]int{130, 110})
			}
			lkinds := len(largeLabels(1, 1))
			out = append(out, hx.Space{Name: "large", N: int64(len(lsz) * lkinds * 2), Batch: 1, Bound: fmt.Sprintf("fields of %v cells with %d patterns (thousands of single cells or blocks, stripes, combs, mazes), with and without a border", lsz, lkinds),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					sz, kind, border := lsz[d.Next(len(lsz))], d.Next(lkinds), d.Next(2)
					lab := largeLabels(sz[0], sz[1])[kind]
					judgeField(e, labelled(sz[0], sz[1], border, lab, multi, nil), []contourSet{{0, 0, 1}, {1.3, 12, 1}, {0, 100, 3}, {0, 257, 3}}, func() string {
						return fmt.Sprintf("pattern %d on %dx%d cells, border %d", kind, sz[0], sz[1], border)
					})
					e.Trace()
				}})
			out = append(out, hx.Space{Name: "corridor", N: 2, Batch: 1, Bound: "a winding corridor on 190x190 cells, an outline of almost 20000 edges, plain and with 94 steps",
				Run: func(e *hx.Env, i int64) {
					const L = 190
					lab := largeLabels(L, L)[9]
					var hs func(x, z int) int
					if i == 1 {
						hs = func(x, z int) int { return z / 2 % 3 }
					}
					judgeField(e, labelled(L, L, 0, lab, multi, hs), []contourSet{{1.3, 12, 1}, {0, 0, 1}}, func() string { return fmt.Sprintf("corridor %d", i) })
					e.Trace()
				}})
			out = append(out, hx.Space{Name: "far holes", N: farRooms, Batch: 2, Bound: "any of 60 large rectangular holes and one of 4 small ones in a room of 360x270 cells",
				Run: func(e *hx.Env, i int64) {
					W, H, lab := farRoom(i)
					judgeField(e, labelled(W, H, 0, lab, multi, nil), []contourSet{{0, 0, 1}}, func() string { return fmt.Sprintf("room %d", i) })
					e.Trace()
				}})
			lv := []column{{{0, 1, 63}}, {{0, 1, 63}, {4, 5, 63}}, {{0, 2, 63}, {5, 6, 63}}, {{0, 3, 63}}, {{0, 4, 63}}, {{0, 1, 63}, {3, 4, 63}, {6, 7, 63}}}
			type dim struct{ w, h, k int }
			dims := []dim{{3, 2, 6}, {3, 3, 3}}
			if th {
				dims = []dim{{4, 2, 6}, {2, 4, 5}, {3, 3, 4}}
			}
			for _, m := range dims {
				m := m
				out = append(out, hx.Space{Name: fmt.Sprintf("levels %dx%d/%d", m.w, m.h, m.k), N: hx.Pow(m.k, m.w*m.h), Batch: 64,
					Bound: fmt.Sprintf("the monotone regions of all fields of %dx%d columns of %d kinds", m.w, m.h, m.k),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						f := make([]column, m.w*m.h)
						for k := range f {
							f[k] = lv[d.Next(m.k)]
						}
						chf := buildCHF(m.w, m.h, f, 2, 1)
						recast.BuildRegionsMonotone(theCtx, chf, 0, 0, 3)
						judgeField(e, chf, sets[:4], func() string { return fmt.Sprintf("columns %v, %d wide", f, m.w) })
						e.Trace()
					}})
			}
			return out
		},
	})
}
