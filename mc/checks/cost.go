package checks

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C09: route choice follows the filter's costs

func init() {
	hx.Register(&hx.Check{
		ID: "C09", Level: "model_checking",
		Rule: "every assignment of areas to the polygons of each family x every cost table x every (start, goal) pair on the real FindPath; oracle: the returned corridor costs what the filter says, the search tree left in the node pool satisfies the optimality (Bellman) equations of the world's portal graph under that filter, and (worlds of one tile) an independent Dijkstra over that graph gives the same optimum; plus every filter/polygon modification history up to the bound against freshly configured filters; non-trivial: goal reachable",
		Assumptions: []string{
			"a polygon is taken at the middle of the edge through which the search first reached it (Detour's definition of its search graph)",
			"area costs are at least 1, as the QueryFilter documentation requires",
		},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			out = append(out, costSpace("single3x3", 3, 3, tiling{3, 3}, []int{csFull}, 3, 0, th))
			out = append(out, costSpace("slope3x3", 3, 3, tiling{3, 3}, []int{csFull}, 2, 2, th))
			out = append(out, costSpace("tiled3x3", 3, 3, tiling{1, 1}, []int{csFull}, 2, 0, th))
			out = append(out, costSpace("tiled3x2", 3, 2, tiling{2, 1}, []int{csFull, csDiag1}, 2, 1, th))
			out = append(out, costSpace("diag2x2", 2, 2, tiling{2, 2}, []int{csFull, csDiag1, csDiag2, csAbsent}, 2, 2, th))
			if th {
				out = append(out, costSpace("single4x3", 4, 3, tiling{4, 3}, []int{csFull, csAbsent}, 2, 0, th))
				out = append(out, costSpace("tiled4x3", 4, 3, tiling{2, 2}, []int{csFull}, 3, 0, th))
				out = append(out, costSpace("diag3x2", 3, 2, tiling{3, 2}, []int{csFull, csDiag1, csDiag2}, 3, 2, th))
				out = append(out, costSpace("diag3x3", 3, 3, tiling{3, 3}, []int{csDiag1, csDiag2}, 2, 2, th))
			}
			out = append(out, spySpace("spy-single3x3", 3, 3, tiling{3, 3}, []int{csFull, csDiag1, csAbsent}, th))
			out = append(out, spySpace("spy-tiled3x2", 3, 2, tiling{1, 1}, []int{csFull, csDiag1, csDiag2, csAbsent}, th))
			out = append(out, spySpace("spy-tiled3x3", 3, 3, tiling{2, 1}, []int{csFull, csAbsent}, th))
			out = append(out, costFields())
			return append(out, filterHistories(th), filterBits())
		},
	})
}

var costAreas = []uint8{0, 5, 63}
var costTables = [][3]float32{{1, 1, 1}, {1, 2, 5}, {4, 1, 1.5}, {1, 1.25, 40}}

func costSpace(name string, w, h int, til tiling, states []int, nareas, heights int, th bool) hx.Space {
	ns := len(states) * nareas
	tables := costTables[1:]
	if th {
		tables = costTables
	}
	return hx.Space{Name: name, N: hx.Pow(ns, w*h),
		Bound: fmt.Sprintf("all %d^%d assignments of %d shapes and %d areas to a %dx%d grid with tiles %dx%d, %d cost tables, every start/goal pair", ns, w*h, len(states), nareas, w, h, til.tw, til.th, len(tables)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			g := newGrid(w, h)
			g.TW, g.TH = til.tw, til.th
			st := make([]int, w*h)
			for k := range st {
				st[k] = states[d.Next(len(states))]
				g.cells[k].area = costAreas[d.Next(nareas)]
			}
			m := buildQ(g, stateTiles(g, st, heights), nil)
			if len(m.polys) == 0 {
				return
			}
			single := til.tw == w && til.th == h
			q := newQuery(m.nav, 256)
			for ti, tab := range tables {
				filter := stdFilter()
				for k, a := range costAreas {
					filter.SetAreaCost(int32(a), tab[k])
				}
				costOf := func(cur, _ int) float64 {
					for k := range costAreas {
						if costAreas[k] == m.polys[cur].area {
							return float64(tab[k])
						}
					}
					return 1
				}
				for s := range m.polys {
					for t := range m.polys {
						if s != t {
							checkCost(e, m, q, filter, costOf, s, t, m.inner(s, ti, 0.8), m.inner(t, ti+1, 0.6), single)
						}
					}
				}
			}
		}}
}

// costFields searches fields of hundreds of polygons, where the open list is long and the
// cost of open nodes improves often.
func costFields() hx.Space {
	const n = 26
	patterns := []func(x, z int) int{
		func(x, z int) int { return (x*x + 3*z*z + x*z) % 7 % 3 },
		func(x, z int) int { return (x ^ z) % 3 },
		func(x, z int) int { return (x*7 + z*5 + x*z*3) % 11 % 3 },
		func(x, z int) int { return b2(z%4 == 2) * (1 + b2(x%9 != 4)) },
		func(x, z int) int { return b2((x-13)*(x-13)+(z-13)*(z-13) < 90) * 2 },
		func(x, z int) int { return (x/5 + z/5) % 3 },
		func(x, z int) int { return (x*31 + z*17 + (x*z)%13) % 5 % 3 },
		func(x, z int) int { return b2(x%3 == 1) + b2(z%3 == 1) },
	}
	tables := [][3]float32{{1, 2, 5}, {1, 10, 40}, {7, 1, 3}, {1, 1.1, 1.3}}
	ends := [][2]int{{0, n*n - 1}, {n - 1, n*n - n}, {n*13 + 13, 3}, {n*4 + 20, n*22 + 2}, {n * 12, n*12 + n - 1}, {12, n*n - 13}}
	tiles := []tiling{{n, n}, {13, 7}}
	return hx.Space{Name: "fields", N: int64(len(patterns) * len(tables) * len(tiles)), Batch: 1,
		Bound: fmt.Sprintf("fields of %dx%d polygons in one tile and in many, %d patterns of areas, %d cost tables, %d pairs of positions both ways", n, n, len(patterns), len(tables), len(ends)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			pat, tab, til := patterns[d.Next(len(patterns))], tables[d.Next(len(tables))], tiles[d.Next(len(tiles))]
			g := newGrid(n, n)
			g.TW, g.TH, g.maxP = til.tw, til.th, 1024
			st := make([]int, n*n)
			for k := range st {
				st[k] = csFull
				g.cells[k].area = costAreas[pat(k%n, k/n)]
			}
			m := buildQ(g, stateTiles(g, st, 0), nil)
			e.Step(1)
			at := map[int]int{}
			for k := range m.polys {
				c := m.center(k)
				at[int((c[2]-g.orig[2])/g.cellSize())*n+int((c[0]-g.orig[0])/g.cellSize())] = k
			}
			q := newQuery(m.nav, 4096)
			filter := stdFilter()
			for k, a := range costAreas {
				filter.SetAreaCost(int32(a), tab[k])
			}
			costOf := func(cur, _ int) float64 {
				for k := range costAreas {
					if costAreas[k] == m.polys[cur].area {
						return float64(tab[k])
					}
				}
				return 1
			}
			for k := range ends {
				for way := 0; way < 2; way++ {
					s, t := at[ends[k][way]], at[ends[k][1-way]]
					checkCost(e, m, q, filter, costOf, s, t, m.inner(s, k, 0.8), m.inner(t, k+1, 0.6), til.tw == n)
				}
			}
		}}
}

func b2(b bool) int {
	if b {
		return 1
	}
	return 0
}

type snode struct {
	poly        int
	state       uint8
	pos         []float32
	cost, total float64
	parent      int
	id          detour.PolyRef
}

func readPool(m *qmesh, q *detour.NavMeshQuery) []snode {
	np := q.NodePool()
	out := make([]snode, np.NodeCount())
	for i := range out {
		n := np.NodeAtIdx(int32(i + 1))
		k, ok := m.idx[n.ID]
		if !ok {
			k = -1
		}
		out[i] = snode{poly: k, state: n.State, pos: n.Pos, cost: float64(n.Cost), total: float64(n.Total), parent: int(n.PIdx) - 1, id: n.ID}
	}
	return out
}

func checkCost(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, filter detour.QueryFilter, costOf func(cur, next int) float64, s, t int, sp, ep d3.Vec3, single bool) {
	path := make([]detour.PolyRef, len(m.polys)*4+8)
	n, st := q.FindPath(m.polys[s].ref, m.polys[t].ref, sp, ep, filter, path)
	e.Step(1)
	e.Eval(1)
	path = path[:n]
	if st != detour.Success {
		e.Outcome("no complete path")
		return // C08 judges that
	}
	what := func() string {
		return fmt.Sprintf("FindPath(%d -> %d) = %v", s, t, m.names(path))
	}
	e.Log("%s", what())
	e.State(hx.H(m.names(path)))
	nodes := readPool(m, q)
	type key struct {
		poly  int
		state uint8
	}
	byKey := map[key]int{}
	startN, goalN := -1, -1
	for i := range nodes {
		nd := &nodes[i]
		if nd.poly < 0 {
			e.Failf("pool-ref", "%s: node %d has reference %x", what(), i, uint32(nd.id))
		}
		if _, dup := byKey[key{nd.poly, nd.state}]; dup {
			e.Failf("pool-dup", "%s: two nodes for polygon %d state %d", what(), nd.poly, nd.state)
		}
		byKey[key{nd.poly, nd.state}] = i
		if nd.poly == t && (goalN < 0 || nd.total < nodes[goalN].total) {
			goalN = i
		}
	}
	startN = byKey[key{s, 0}]
	if goalN < 0 {
		e.Failf("nogoal", "%s: no node for the goal", what())
	}
	for i := range nodes {
		// of equally good ones, the goal's node is the one returned
		if nodes[i].poly != t || nodes[i].total != nodes[goalN].total {
			continue
		}
		k, j := i, n-1
		for k >= 0 && j >= 0 && nodes[k].poly == m.idx[path[j]] {
			k, j = nodes[k].parent, j-1
		}
		if k < 0 && j < 0 {
			goalN = i
		}
	}
	eps := func(x float64) float64 { return 1e-4 * (1 + math.Abs(x)) }
	goal := nodes[goalN].total
	stepCost := func(u, v *snode) float64 {
		c := dist3(u.pos, v.pos) * costOf(u.poly, v.poly)
		if v.poly == t {
			c += dist3(v.pos, ep) * costOf(t, -1)
		}
		return c
	}
	hof := func(v *snode) float64 {
		if v.poly == t {
			return 0
		}
		return dist3(v.pos, ep) * 0.999
	}
	if !near3(nodes[startN].pos, sp, 1e-5) || nodes[startN].cost != 0 || nodes[startN].parent != -1 {
		e.Failf("start", "%s: start node at %v, cost %g", what(), nodes[startN].pos, nodes[startN].cost)
	}
	for i := range nodes {
		v := &nodes[i]
		if i != startN {
			// position: middle of a portal into the polygon
			ok := false
			for k := range m.polys {
				for _, o := range m.polys[k].out {
					if o.to == v.poly && portalState(o) == v.state &&
						math.Abs(float64(v.pos[0])-(o.left[0]+o.right[0])/2)+math.Abs(float64(v.pos[1])-(o.left[1]+o.right[1])/2)+math.Abs(float64(v.pos[2])-(o.left[2]+o.right[2])/2) < 0.03 {
						ok = true
					}
				}
			}
			if !ok {
				e.Failf("midpoint", "%s: node of polygon %d (state %d) lies at %v, not in the middle of an edge leading into it", what(), v.poly, v.state, v.pos)
			}
			if v.parent < 0 || v.parent >= len(nodes) {
				e.Failf("parent", "%s: node of polygon %d has no parent", what(), v.poly)
			}
			u := &nodes[v.parent]
			if u.total < goal-eps(goal) && math.Abs(u.cost+stepCost(u, v)-v.cost) > eps(v.cost) {
				e.Failf("cost", "%s: polygon %d reached from %d (cost %g) costs %g, not %g", what(), v.poly, u.poly, u.cost, v.cost, u.cost+stepCost(u, v))
			}
			if math.Abs(v.cost+hof(v)-v.total) > eps(v.total) {
				e.Failf("total", "%s: polygon %d: total %g is not cost %g + heuristic %g", what(), v.poly, v.total, v.cost, hof(v))
			}
		}
		// relaxation of everything cheaper than the goal
		if v.total < goal-eps(goal) && v.poly != t {
			par := -1
			if v.parent >= 0 {
				par = nodes[v.parent].poly
			}
			for _, o := range m.polys[v.poly].out {
				if o.to == par || !accepted(&m.polys[o.to]) {
					continue
				}
				wi, ok := byKey[key{o.to, portalState(o)}]
				if !ok {
					e.Failf("unexpanded", "%s: polygon %d (total %g, goal %g) was not expanded to %d", what(), v.poly, v.total, goal, o.to)
				}
				w := &nodes[wi]
				if c := v.cost + stepCost(v, w) + hof(w); w.total > c+eps(c) {
					e.Failf("suboptimal", "%s: polygon %d costs %g but %g through %d", what(), w.poly, w.total, c, v.poly)
				}
			}
		}
	}
	// the corridor is the chain of parents of the goal
	chain := []int{}
	for k := goalN; k >= 0; k = nodes[k].parent {
		chain = append(chain, nodes[k].poly)
		if len(chain) > len(nodes) {
			e.Failf("cycle", "%s: parents form a cycle", what())
		}
	}
	if len(chain) != n {
		e.Failf("chain", "%s: the cheapest chain has %d polygons", what(), len(chain))
	}
	for k := range chain {
		if chain[k] != m.idx[path[n-1-k]] {
			e.Failf("chain", "%s: the cheapest chain is (reversed) %v", what(), chain)
		}
	}
	// recompute the cost along the corridor from scratch
	sum := 0.0
	for k := goalN; nodes[k].parent >= 0; k = nodes[k].parent {
		sum += dist3(nodes[nodes[k].parent].pos, nodes[k].pos) * costOf(nodes[nodes[k].parent].poly, nodes[k].poly)
	}
	sum += dist3(nodes[goalN].pos, ep) * costOf(t, -1)
	if math.Abs(sum-nodes[goalN].cost) > eps(sum) {
		e.Failf("sum", "%s: cost of the corridor is %g, the goal's is %g", what(), sum, nodes[goalN].cost)
	}
	if single {
		// Dijkstra (Bellman-Ford) over the polygons the search met
		dist := make([]float64, len(nodes))
		for i := range dist {
			dist[i] = math.Inf(1)
		}
		dist[startN] = 0
		for changed := true; changed; {
			changed = false
			for i := range nodes {
				if math.IsInf(dist[i], 1) || nodes[i].poly == t {
					continue
				}
				for _, o := range m.polys[nodes[i].poly].out {
					w, ok := byKey[key{o.to, 0}]
					if !ok || !accepted(&m.polys[o.to]) {
						continue
					}
					if c := dist[i] + stepCost(&nodes[i], &nodes[w]); c < dist[w]-1e-9 {
						dist[w] = c
						changed = true
					}
				}
			}
		}
		if math.Abs(dist[goalN]-sum) > eps(sum) {
			e.Failf("dijkstra", "%s: costs %g, the cheapest route costs %g", what(), sum, dist[goalN])
		}
	}
	e.Outcome("complete")
	e.Trace()
}

// A spyFilter is a user's filter: its costs depend on the polygon crossed and
// on the one entered next, it refuses some polygons, and it checks everything
// it is told.
type spyFilter struct {
	e       *hx.Env
	m       *qmesh
	what    func() string
	s, t    int
	linked  bool // consecutive polygons of a call are neighbours
	rejects func(k int) bool
	costOf  func(cur, next int) float64
	calls   int
}

func (f *spyFilter) id(role string, ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) int {
	if ref == 0 {
		// (rays leave the tile and polygon of an absent reference unspecified)
		if f.linked && (tile != nil || poly != nil) {
			f.e.Failf("spy-"+role, "%s: the filter is told of no %s polygon, with a tile or polygon", f.what(), role)
		}
		return -1
	}
	k, ok := f.m.idx[ref]
	if !ok {
		f.e.Failf("spy-"+role, "%s: the filter is told of a %s polygon %x", f.what(), role, uint32(ref))
	}
	p := &f.m.polys[k]
	if tile == nil || poly == nil || tile != f.m.nav.TileByRef(f.m.trefs[p.tile]) || poly != &tile.Polys[uint32(ref)-uint32(f.m.trefs[p.tile])] {
		f.e.Failf("spy-"+role, "%s: the filter is told of the %s polygon %d with another polygon's tile or data (nil: %v %v)", f.what(), role, k, tile == nil, poly == nil)
	}
	return k
}

func (f *spyFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	f.calls++
	k := f.id("candidate", ref, tile, poly)
	if k < 0 {
		f.e.Failf("spy-candidate", "%s: the filter is asked about no polygon", f.what())
	}
	return !f.rejects(k)
}

func (f *spyFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly, curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly, nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	f.calls++
	prev := f.id("previous", prevRef, prevTile, prevPoly)
	cur := f.id("current", curRef, curTile, curPoly)
	next := f.id("next", nextRef, nextTile, nextPoly)
	if cur < 0 {
		f.e.Failf("spy-current", "%s: the filter is asked for the cost of crossing no polygon", f.what())
	}
	lk := func(a, b int) bool {
		for _, o := range f.m.polys[a].out {
			if o.to == b {
				return true
			}
		}
		return false
	}
	if f.linked {
		switch {
		case prev < 0 && cur != f.s:
			f.e.Failf("spy-prev", "%s: polygon %d is said to come first", f.what(), cur)
		case prev >= 0 && !lk(prev, cur):
			f.e.Failf("spy-prev", "%s: polygon %d is said to come after %d", f.what(), cur, prev)
		case next < 0 && cur != f.t:
			f.e.Failf("spy-next", "%s: polygon %d is said to be the last", f.what(), cur)
		case next >= 0 && !lk(cur, next):
			f.e.Failf("spy-next", "%s: polygon %d is said to come after %d", f.what(), next, cur)
		}
	} else {
		if next >= 0 && next != cur && !lk(cur, next) {
			f.e.Failf("spy-next", "%s: polygon %d is said to come after %d", f.what(), next, cur)
		}
	}
	return float32(dist3(pa, pb) * f.costOf(cur, next))
}

// spySpace runs the path queries with a user's filter.
func spySpace(name string, w, h int, til tiling, states []int, th bool) hx.Space {
	ns := len(states)
	nf := 3
	return hx.Space{Name: name, N: hx.Pow(ns, w*h) * int64(nf),
		Bound: fmt.Sprintf("all %d^%d shapes of a %dx%d grid with tiles %dx%d, %d cost functions of the polygon crossed and the polygon entered, every start/goal pair, FindPath, sliced queries with and without shortcuts, rays with costs", ns, w*h, w, h, til.tw, til.th, nf),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			fn := d.Next(nf)
			g := newGrid(w, h)
			g.TW, g.TH = til.tw, til.th
			st := make([]int, w*h)
			for k := range st {
				st[k] = states[d.Next(ns)]
			}
			m := buildQ(g, stateTiles(g, st, fn), nil)
			if len(m.polys) < 2 {
				return
			}
			single := til.tw == w && til.th == h
			f := &spyFilter{e: e, m: m}
			f.rejects = func(k int) bool { return fn == 2 && k%5 == 3 }
			f.costOf = func(cur, next int) float64 {
				switch fn {
				case 0:
					return 1 + float64((cur*3+next*5+7)%4)*0.75
				case 1:
					// entering polygons of odd number is dear
					return 1 + float64((next+1)%2)*3
				}
				return 1 + float64(cur%3)
			}
			for k := range m.polys {
				if f.rejects(k) {
					// what the reference model of the check goes by
					m.polys[k].flags = 0
				}
			}
			q := newQuery(m.nav, 256)
			var name string
			for s := range m.polys {
				for t := range m.polys {
					if s == t || f.rejects(s) || f.rejects(t) {
						continue
					}
					sp, ep := m.inner(s, fn, 0.8), m.inner(t, fn+1, 0.6)
					f.s, f.t = s, t
					f.what = func() string { return fmt.Sprintf("%s %d -> %d", name, s, t) }
					name, f.linked = "FindPath", true
					checkCost(e, m, q, f, f.costOf, s, t, sp, ep, single)
					for _, opt := range []uint32{0, detour.FindPathAnyAngle} {
						name, f.linked = fmt.Sprintf("sliced FindPath, options %d,", opt), opt == 0
						runSliced(e, q, m.polys[s].ref, m.polys[t].ref, sp, ep, f, opt, []int{1000}, 4*len(m.polys)+8)
						e.Step(1)
					}
					name, f.linked = "Raycast with costs", false
					for _, prev := range []detour.PolyRef{0, m.polys[t].ref} {
						var hit detour.RaycastHit
						hit.Path = make([]detour.PolyRef, len(m.polys)+8)
						hit.MaxPath = len(hit.Path)
						q.Raycast(m.polys[s].ref, sp, ep, f, detour.RaycastUseCosts, &hit, prev)
						e.Step(1)
					}
				}
			}
			if f.calls > 0 {
				e.Eval(f.calls)
			}
		}}
}

// portalState is the node state of a polygon entered through a portal: the
// search keeps one node per tile side crossed.
func portalState(o qportal) uint8 {
	if o.cross {
		return uint8(o.side)
	}
	return 0
}

// ---- filter modification histories

// filterBits tries every set of flags against filters of no, one and all flags,
// and every area against a filter that gives each its own cost.
func filterBits() hx.Space {
	return hx.Space{Name: "filter-bits", N: 65536, Batch: 1024, Bound: "every set of 16 flags against included and excluded flags of none, one and all; every area's cost",
		Run: func(e *hx.Env, i int64) {
			f := detour.NewStandardQueryFilter()
			p := &detour.Poly{Flags: uint16(i)}
			set := func(k int) uint16 {
				switch k {
				case 16:
					return 0
				case 17:
					return 0xffff
				}
				return 1 << uint(k)
			}
			for k := 0; k < 18; k++ {
				for l := 0; l < 18; l++ {
					f.SetIncludeFlags(set(k))
					f.SetExcludeFlags(set(l))
					if want := uint16(i)&set(k) != 0 && uint16(i)&set(l) == 0; f.PassFilter(1, nil, p) != want {
						e.Failf("pass", "flags %04x, included %04x, excluded %04x: accepted %v", i, set(k), set(l), !want)
					}
				}
			}
			if i < 64 {
				for a := int32(0); a < 64; a++ {
					f.SetAreaCost(a, 1+float32(a)/8)
				}
				p.SetArea(uint8(i))
				pa, pb := []float32{1, 2, 3}, []float32{4, 2, 7}
				if c := f.Cost(pa, pb, 0, nil, nil, 1, nil, p, 0, nil, nil); c != 5*(1+float32(i)/8) {
					e.Failf("cost", "five units over area %d cost %g", i, c)
				}
			}
			e.Eval(18 * 18)
			e.Trace()
		}}
}

func filterHistories(th bool) hx.Space {
	const nops = 16
	depth := 4
	if th {
		depth = 5
	}
	return hx.Space{Name: "filter-histories", N: hx.Pow(nops, depth), Bound: fmt.Sprintf("every sequence of %d modifications (%d kinds) of two filters and of polygon areas/flags, a query after each", depth, nops),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			g := newGrid(3, 2)
			g.cells[1].area = 5
			g.cells[4].area = 63
			g.cells[4].flags = 0x8001
			m := buildQ(g, stateTiles(g, make([]int, 6), 0), nil)
			m.polys[4].flags = 0x8001
			tile := m.nav.TileByRef(m.trefs[0])
			tile.Polys[4].Flags = 0x8001
			q := newQuery(m.nav, 64)
			type fstate struct {
				cost [64]float32
				inc  uint16
				exc  uint16
			}
			var fs [2]*detour.StandardQueryFilter
			var ms [2]fstate
			for k := range fs {
				fs[k] = detour.NewStandardQueryFilter()
				for a := range ms[k].cost {
					ms[k].cost[a] = 1
				}
				ms[k].inc, ms[k].exc = 0xffff, 0
			}
			for step := 0; step < depth; step++ {
				op := d.Next(nops)
				k := op % 2
				switch op / 2 {
				case 0:
					fs[k].SetAreaCost(5, 4)
					ms[k].cost[5] = 4
				case 1:
					fs[k].SetAreaCost(63, 7)
					ms[k].cost[63] = 7
				case 2:
					fs[k].SetAreaCost(0, 2)
					ms[k].cost[0] = 2
				case 3:
					fs[k].SetIncludeFlags(1)
					ms[k].inc = 1
				case 4:
					fs[k].SetIncludeFlags(0x8000)
					ms[k].inc = 0x8000
				case 5:
					fs[k].SetExcludeFlags(0x8000)
					ms[k].exc = 0x8000
				case 6:
					fs[k].SetExcludeFlags(0)
					ms[k].exc = 0
				case 7:
					if k == 0 {
						tile.Polys[1].SetArea(63)
						m.polys[1].area = 63
					} else {
						tile.Polys[1].Flags ^= 0x8000
						m.polys[1].flags ^= 0x8000
					}
				}
				e.Log("step %d op %d", step, op)
				for k := range fs {
					if fs[k].IncludeFlags() != ms[k].inc || fs[k].ExcludeFlags() != ms[k].exc {
						e.Failf("flags", "filter %d after step %d: flags %x %x, set %x %x", k, step, fs[k].IncludeFlags(), fs[k].ExcludeFlags(), ms[k].inc, ms[k].exc)
					}
					for a := range ms[k].cost {
						if fs[k].AreaCost(int32(a)) != ms[k].cost[a] {
							e.Failf("areacost", "filter %d after step %d: cost of area %d is %g, set %g", k, step, a, fs[k].AreaCost(int32(a)), ms[k].cost[a])
						}
					}
					for p := range m.polys {
						want := m.polys[p].flags&ms[k].inc != 0 && m.polys[p].flags&ms[k].exc == 0
						if fs[k].PassFilter(m.polys[p].ref, tile, &tile.Polys[p]) != want {
							e.Failf("pass", "filter %d after step %d: polygon %d accepted: %v", k, step, p, !want)
						}
						if q.IsValidPolyRef(m.polys[p].ref, fs[k]) != want {
							e.Failf("valid", "filter %d after step %d: polygon %d valid for the query: %v", k, step, p, !want)
						}
						if q.IsValidPolyRef(m.polys[p].ref+1<<20, fs[k]) || q.IsValidPolyRef(0, fs[k]) {
							e.Failf("valid", "a reference of nothing is valid for the query")
						}
					}
					// the query with this filter equals one with a filter
					// made for the purpose and another query object
					fresh := detour.NewStandardQueryFilter()
					for a := range ms[k].cost {
						fresh.SetAreaCost(int32(a), ms[k].cost[a])
					}
					fresh.SetIncludeFlags(ms[k].inc)
					fresh.SetExcludeFlags(ms[k].exc)
					q2 := newQuery(m.nav, 64)
					pa, pb := make([]detour.PolyRef, 16), make([]detour.PolyRef, 16)
					n1, s1 := q.FindPath(m.polys[0].ref, m.polys[2].ref, m.center(0), m.center(2), fs[k], pa)
					n2, s2 := q2.FindPath(m.polys[0].ref, m.polys[2].ref, m.center(0), m.center(2), fresh, pb)
					e.Step(2)
					if n1 != n2 || s1 != s2 || fmt.Sprint(pa[:n1]) != fmt.Sprint(pb[:n2]) {
						e.Failf("effect", "filter %d after step %d: %v %x, with a fresh filter %v %x", k, step, m.names(pa[:n1]), uint32(s1), m.names(pb[:n2]), uint32(s2))
					}
					// cheapest of the two routes 0-1-2 and 0-3-4-5-2
					ok := func(p int) bool {
						return m.polys[p].flags&ms[k].inc != 0 && m.polys[p].flags&ms[k].exc == 0
					}
					c := func(p int) float64 { return float64(ms[k].cost[m.polys[p].area]) }
					up := ok(1) && ok(2)
					down := ok(3) && ok(4) && ok(5) && ok(2)
					// cell size 1: the midpoints make the legs below (the goal is entered
					// where the search first reached it, which may lengthen the last leg)
					r2 := math.Sqrt(0.5)
					upC := 0.5*c(0) + c(1) + 0.5*c(2)
					downC := 0.5*c(0) + r2*c(3) + c(4) + r2*c(5) + 0.5*c(2)
					var want []int
					switch {
					case up && (!down || upC+0.6*c(1) < downC-0.2):
						want = []int{0, 1, 2}
					case down && (!up || downC+0.4*c(5) < upC-0.2):
						want = []int{0, 3, 4, 5, 2}
					}
					if want != nil && fmt.Sprint(m.names(pa[:n1])) != fmt.Sprint(want) {
						e.Failf("route", "filter %d after step %d: route %v, cheapest is %v (%g against %g)", k, step, m.names(pa[:n1]), want, upC, downC)
					}
					e.State(hx.H(ms[k], m.names(pa[:n1])))
					e.Trace()
				}
			}
		}}
}
