package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"

	"verif/mc/hx"
)

// Searches over thousands of polygons: node indices, hash chains, the heap and
// the path buffers all get values that small worlds never reach.

// largeGrid cuts the pattern out of an n x n field. The last cell is always there.
func largeGrid(n, pattern int) *gridWorld {
	g := newGrid(n, n)
	g.TW, g.TH, g.maxP = 32, 32, 1024
	g.noDet = true
	cut := func(x, z int) {
		if x != n-1 || z != n-1 {
			g.at(x, z).present = false
		}
	}
	for z := 0; z < n; z++ {
		for x := 0; x < n; x++ {
			switch pattern {
			case 1: // one long corridor
				if z%2 == 1 && x != (n-1)*((z/2+1)%2) {
					cut(x, z)
				}
			case 2: // the last cell is an island
				if x+z >= 2*n-4 && x+z < 2*n-2 {
					cut(x, z)
				}
			case 3: // dead ends
				if z%2 == 1 && x > 0 {
					cut(x, z)
				}
			case 4: // pillars
				if x%2 == 1 && z%2 == 1 {
					cut(x, z)
				}
			case 5: // a wall with a hole far off
				if x == n/2 && z != 0 {
					cut(x, z)
				}
			}
		}
	}
	return g
}

func largeSpace(th bool) hx.Space {
	sizes := []int{65, 70, 100, 190, 258}
	return hx.Space{Name: "large", N: int64(len(sizes) * 6 * 3), Batch: 1,
		Bound: fmt.Sprintf("fields of %v^2 polygons, open, with a single corridor, an unreachable goal, dead ends, pillars, a wall; three pairs of positions; path buffers that suffice, fit, are one short, and short; the search in one go and in slices", sizes),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			n, pattern, pair := sizes[d.Next(len(sizes))], d.Next(6), d.Next(3)
			if n == 258 && pattern != 1 {
				e.Skip("more nodes than a query may have")
			}
			g := largeGrid(n, pattern)
			m := g.build()
			e.Step(1)
			s, t := 0, n*n-1
			switch {
			case pair == 1 && pattern == 2:
				s = n - 1
			case pair == 1:
				s, t = t, s
			case pair == 2:
				s = (n/2&^1)*n + n/2&^1
				if m.ref[s] == 0 {
					s--
				}
			}
			checkLarge(e, m, s, t, fmt.Sprintf("%dx%d, pattern %d, cell %d to %d", n, n, pattern, s, t))
		}}
}

func checkLarge(e *hx.Env, m *gridMesh, s, t int, name string) {
	g := m.g
	reach := g.reach(s, nil)
	e.Step(1)
	q := newQuery(m.nav, 65535)
	filter := stdFilter()
	sp, ep := g.center(s), g.center(t)
	dist := func(c int) float64 { return dist3(g.center(c), ep) }
	var cells, near int = 0, s
	for c, r := range reach {
		if r >= 0 {
			cells++
			if dist(c) < dist(near) {
				near = c
			}
		}
	}
	var full []detour.PolyRef
	judge := func(kind string, path []detour.PolyRef, st detour.Status) {
		e.Step(1)
		e.Eval(1)
		if detour.StatusFailed(st) || !detour.StatusSucceed(st) || len(path) == 0 {
			e.Failf("large-failed", "%s: %s: %d polygons, status %x", name, kind, len(path), uint32(st))
		}
		on := map[int]bool{}
		last := -1
		for k, r := range path {
			c, ok := m.cell[r]
			switch {
			case !ok:
				e.Failf("large-unknown", "%s: %s: element %d of %d is no polygon", name, kind, k, len(path))
			case k == 0 && c != s:
				e.Failf("large-start", "%s: %s: begins with cell %d", name, kind, c)
			case k > 0 && !g.adjacent(last, c):
				e.Failf("large-gap", "%s: %s: cells %d and %d (elements %d, %d) are not connected", name, kind, last, c, k-1, k)
			case on[c]:
				e.Failf("large-loop", "%s: %s: cell %d comes twice", name, kind, c)
			}
			on[c], last = true, c
		}
		partial := detour.StatusDetail(st, uint32(detour.PartialResult))
		if reach[t] >= 0 {
			if last != t || partial {
				e.Failf("large-incomplete", "%s: %s: ends at cell %d (status %x) although the goal is reachable", name, kind, last, uint32(st))
			}
			if len(path)-1 < reach[t] {
				e.Failf("large-short", "%s: %s: %d polygons, at least %d are needed", name, kind, len(path), reach[t]+1)
			}
		} else {
			if !partial {
				e.Failf("large-partial", "%s: %s: status %x although the goal is not reachable", name, kind, uint32(st))
			}
			if dist(last) > dist(near)+float64(g.cellSize())*1.01 {
				e.Failf("large-nearest", "%s: %s: ends at cell %d, %g away, cell %d is %g away", name, kind, last, dist(last), near, dist(near))
			}
		}
		if st&(detour.OutOfNodes|detour.BufferTooSmall) != 0 {
			e.Failf("large-details", "%s: %s: status %x with enough nodes and space", name, kind, uint32(st))
		}
	}
	find := func(size int) ([]detour.PolyRef, detour.Status) {
		buf := make([]detour.PolyRef, size)
		k, st := q.FindPath(m.ref[s], m.ref[t], sp, ep, filter, buf)
		e.Step(1)
		if k > size {
			e.Failf("large-count", "%s: FindPath claims %d polygons in a buffer of %d", name, k, size)
		}
		return buf[:k], st
	}
	var st detour.Status
	full, st = find(cells + 8)
	judge("FindPath", full, st)
	if reach[t] < 0 && int(q.NodePool().NodeCount()) < cells {
		e.Failf("large-explored", "%s: the goal was not found among %d of %d reachable polygons", name, q.NodePool().NodeCount(), cells)
	}
	// in an open field no route is shorter than one along the axes through edge midpoints
	for _, size := range []int{len(full), len(full) - 1, len(full)/2 + 1, 4096, 1} {
		if size < 1 || size > len(full) {
			continue
		}
		p, pst := find(size)
		if size == len(full) {
			judge("FindPath into a buffer that fits", p, pst)
		} else if len(p) != size || pst&detour.BufferTooSmall == 0 {
			e.Failf("large-buffer", "%s: %d of %d polygons in a buffer of %d, status %x", name, len(p), len(full), size, uint32(pst))
		}
		for k := range p {
			if p[k] != full[k] {
				e.Failf("large-buffer", "%s: in a buffer of %d, element %d differs from the whole path", name, size, k)
			}
		}
	}
	for _, slice := range []int{1 << 30, 1000} {
		st := q.InitSlicedFindPath(m.ref[s], m.ref[t], sp, ep, filter, 0)
		for detour.StatusInProgress(st) {
			st = q.UpdateSlicedFindPath(slice, nil)
			e.Step(1)
		}
		buf := make([]detour.PolyRef, cells+8)
		k, fst := q.FinalizeSlicedFindPath(buf, len(buf))
		judge(fmt.Sprintf("slices of %d", slice), buf[:k], fst|st&detour.PartialResult)
		st = q.InitSlicedFindPath(m.ref[s], m.ref[t], sp, ep, filter, 0)
		for detour.StatusInProgress(st) {
			st = q.UpdateSlicedFindPath(slice, nil)
			e.Step(1)
		}
		k, fst = q.FinalizeSlicedFindPathPartial(full, len(full), buf, len(buf))
		if reach[t] < 0 {
			fst |= detour.PartialResult
		}
		judge(fmt.Sprintf("slices of %d, finished towards the whole path", slice), buf[:k], fst)
	}
	// what the search cost must be what its path costs
	np := q.NodePool()
	if c := np.NodeCount(); int(c) > 65535 {
		e.Failf("large-nodes", "%s: %d nodes", name, c)
	}
	seen := map[uint64]bool{}
	for k := int32(1); k <= np.NodeCount(); k++ {
		nd := np.NodeAtIdx(k)
		if np.NodeIdx(nd) != uint32(k) {
			e.Failf("large-index", "%s: node %d of %d says it is number %d", name, k, np.NodeCount(), np.NodeIdx(nd))
		}
		key := uint64(nd.ID)<<8 | uint64(nd.State)
		if seen[key] {
			e.Failf("large-dup", "%s: two nodes for polygon %x", name, uint32(nd.ID))
		}
		seen[key] = true
		if int(nd.PIdx) > int(np.NodeCount()) || nd.PIdx == uint32(k) {
			e.Failf("large-parent", "%s: node %d has parent %d", name, k, nd.PIdx)
		}
		if math.IsNaN(float64(nd.Cost)) || nd.Cost < 0 {
			e.Failf("large-cost", "%s: node %d costs %g", name, k, nd.Cost)
		}
	}
	e.State(hx.H("large", name, len(full)))
	e.Outcome("reachable %v", reach[t] >= 0)
	e.Trace()
}

// combSpace are corridors with dead ends at both sides: each adds to the nodes
// that wait, which the goal behind one of them has to outlast.
func combSpace() hx.Space {
	lens := []int{300, 1200, 4200}
	const depth = 5
	return hx.Space{Name: "combs", N: int64(len(lens) * 4), Batch: 1, Bound: fmt.Sprintf("corridors of %v polygons with dead ends of five polygons on both sides of every other one, the goal in the first, the last, and one in the middle, or not reachable", lens),
		Run: func(e *hx.Env, i int64) {
			n := lens[i%int64(len(lens))]
			g := newGrid(n, 2*depth+1)
			g.TW, g.TH, g.maxP = 64, 2*depth+1, 1024
			g.noDet = true
			for x := 1; x < n-3; x += 2 {
				for z := 0; z < g.H; z++ {
					g.at(x, z).present = z == depth
				}
			}
			end := g.H*n - 1 // behind the last corner
			s, t := depth*n+n-4, end
			switch i / int64(len(lens)) {
			case 0:
				t = 0
			case 1:
				s, t = depth*n, end-3
			case 2:
				s, t = 0, 2*depth*n+n/4*2
			case 3: // cut off
				s = depth * n
				for z := 0; z < g.H; z++ {
					g.at(n-3, z).present = false
				}
			}
			if !g.cells[s].present {
				s--
			}
			if !g.cells[t].present {
				t--
			}
			m := g.build()
			e.Step(1)
			checkLarge(e, m, s, t, fmt.Sprintf("comb of %d, cell %d to %d", n, s, t))
		}}
}
