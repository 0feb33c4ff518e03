package checks

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C17: independence of queries

func init() {
	hx.Register(&hx.Check{
		ID: "C17", Level: "model_checking",
		Rule: "sequences: every sequence of query operations up to the bound on one query object of every world, the result of each operation compared with a fresh query object's, earlier results re-read at the end, arguments and mesh compared with copies; interleavings: every pair of operations on two query objects over one mesh, on the code instrumented with a scheduling point before every statement, every schedule with one preemption (thread A to point k, B to its end, A to its end; every k, both orders) and, where it is small enough, every schedule with two; results compared with each operation alone; non-trivial: both operations have scheduling points",
		Assumptions: []string{
			"a sliced search in progress is one operation: queries that are documented to disturb it are not run in between",
			"interleavings at statement granularity of the packages of this repository; memory-model effects below that are not explored",
		},
		Spaces: c17Spaces,
	})
}

// qargs are the arguments shared by the operations of a world.
type qargs struct {
	m      *qmesh
	a, b   int
	sp, ep d3.Vec3
	f, f2  *detour.StandardQueryFilter
	path   []detour.PolyRef // a corridor from a to b
}

// qres is the result of an operation; it keeps the slices it was given.
type qres struct {
	nums []interface{}
	refs [][]detour.PolyRef
	vecs []d3.Vec3
	byt  [][]byte
}

func (r *qres) add(v ...interface{}) { r.nums = append(r.nums, v...) }

func (r *qres) String() string {
	var b strings.Builder
	fmt.Fprint(&b, r.nums...)
	for _, x := range r.refs {
		fmt.Fprintf(&b, " %x", x)
	}
	for _, x := range r.vecs {
		fmt.Fprintf(&b, " %x", []float32(x))
	}
	for _, x := range r.byt {
		fmt.Fprintf(&b, " %x", x)
	}
	return b.String()
}

type qop struct {
	name string
	run  func(x *qargs, q *detour.NavMeshQuery, r *qres)
}

func vcopy(v d3.Vec3) d3.Vec3 { return d3.NewVec3XYZ(v[0], v[1], v[2]) }

func qops() []qop {
	path := func(f2, rev bool, capacity int) func(x *qargs, q *detour.NavMeshQuery, r *qres) {
		return func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			p := make([]detour.PolyRef, capacity)
			f := x.f
			if f2 {
				f = x.f2
			}
			a, b, sp, ep := x.a, x.b, x.sp, x.ep
			if rev {
				a, b, sp, ep = b, a, ep, sp
			}
			n, st := q.FindPath(x.m.polys[a].ref, x.m.polys[b].ref, sp, ep, f, p)
			r.add(n, uint32(st))
			r.refs = append(r.refs, p)
		}
	}
	sliced := func(opt uint32, iters []int, partial, final bool) func(x *qargs, q *detour.NavMeshQuery, r *qres) {
		return func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			st := q.InitSlicedFindPath(x.m.polys[x.a].ref, x.m.polys[x.b].ref, x.sp, x.ep, x.f, opt)
			r.add(uint32(st))
			for _, n := range iters {
				var done int
				st = q.UpdateSlicedFindPath(n, &done)
				r.add(uint32(st), done)
			}
			if !final {
				return
			}
			p := make([]detour.PolyRef, 32)
			var n int
			if partial {
				n, st = q.FinalizeSlicedFindPathPartial(x.path, len(x.path), p, len(p))
			} else {
				n, st = q.FinalizeSlicedFindPath(p, len(p))
			}
			r.add(n, uint32(st))
			r.refs = append(r.refs, p)
		}
	}
	straight := func(opt int32, capacity int) func(x *qargs, q *detour.NavMeshQuery, r *qres) {
		return func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			sp := make([]d3.Vec3, capacity)
			for i := range sp {
				sp[i] = d3.NewVec3()
			}
			fl, rf := make([]uint8, capacity), make([]detour.PolyRef, capacity)
			n, st := q.FindStraightPath(x.sp, x.ep, x.path, sp, fl, rf, opt)
			r.add(n, uint32(st))
			r.vecs = append(r.vecs, sp...)
			r.byt = append(r.byt, fl)
			r.refs = append(r.refs, rf)
		}
	}
	nearest := func(ext d3.Vec3, lift float32, far bool) func(x *qargs, q *detour.NavMeshQuery, r *qres) {
		return func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			c := vcopy(x.sp)
			if far {
				c = vcopy(x.ep)
			}
			c[0] -= 0.3
			c[1] += lift
			keep := vcopy(c)
			st, ref, pt := q.FindNearestPoly(c, ext, x.f)
			r.add(uint32(st), uint32(ref), fmt.Sprint(c) == fmt.Sprint(keep))
			if pt != nil {
				r.vecs = append(r.vecs, pt)
			}
		}
	}
	ray := func(opt int, overshoot float32, prev bool) func(x *qargs, q *detour.NavMeshQuery, r *qres) {
		return func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			h := &detour.RaycastHit{Path: make([]detour.PolyRef, 16), MaxPath: 16, HitNormal: d3.NewVec3()}
			ep := vcopy(x.ep)
			for k := range ep {
				ep[k] += (ep[k] - x.sp[k]) * overshoot
			}
			var pr detour.PolyRef
			if prev {
				pr = x.m.polys[x.b].ref
			}
			st := q.Raycast(x.m.polys[x.a].ref, x.sp, ep, x.f, opt, h, pr)
			r.add(uint32(st), h.T, h.HitEdgeIndex, h.PathCount, h.PathCost)
			r.refs = append(r.refs, h.Path)
			r.vecs = append(r.vecs, h.HitNormal)
		}
	}
	closest := func(boundary, end bool, dx float32) func(x *qargs, q *detour.NavMeshQuery, r *qres) {
		return func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			k, p := x.a, vcopy(x.sp)
			if end {
				k = x.b
			}
			p[0] += dx
			p[1] += 0.4
			c := d3.NewVec3()
			if boundary {
				st := q.ClosestPointOnPolyBoundary(x.m.polys[k].ref, p, c)
				r.add(uint32(st))
			} else {
				var over bool
				st := q.ClosestPointOnPoly(x.m.polys[k].ref, p, c, &over)
				r.add(uint32(st), over)
			}
			r.vecs = append(r.vecs, c)
		}
	}
	return []qop{
		{"FindPath", path(false, false, 32)},
		{"FindPath back", path(false, true, 32)},
		{"FindPath other costs", path(true, false, 32)},
		{"FindPath short buffer", path(false, false, 2)},
		{"FindPath invalid", func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			n, st := q.FindPath(x.m.polys[x.a].ref, 0, x.sp, x.ep, x.f, make([]detour.PolyRef, 4))
			r.add(n, uint32(st))
		}},
		{"sliced", sliced(0, []int{1, 2, 1000}, false, true)},
		{"sliced any angle", sliced(detour.FindPathAnyAngle, []int{1000}, false, true)},
		{"sliced partial", sliced(0, []int{2}, true, true)},
		{"sliced left unfinished", sliced(0, []int{1}, false, false)},
		{"sliced cut off", sliced(detour.FindPathAnyAngle, []int{1, 1}, false, true)},
		{"straight", straight(0, 16)},
		{"straight all crossings", straight(2, 16)},
		{"straight short buffer", straight(1, 2)},
		{"nearest", nearest(d3.Vec3{2, 4, 2}, 0.3, false)},
		{"nearest far", nearest(d3.Vec3{0.4, 4, 0.4}, 0, true)},
		{"nearest nothing", nearest(d3.Vec3{0.1, 0.1, 0.1}, 40, false)},
		{"raycast", ray(detour.RaycastUseCosts, 0, false)},
		{"raycast beyond", ray(0, 3, true)},
		{"closest", closest(false, false, 0.1)},
		{"closest other", closest(false, true, 0.1)},
		{"boundary", closest(true, true, -0.2)},
		{"valid", func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			r.add(q.IsValidPolyRef(x.m.polys[x.a].ref, x.f), q.IsValidPolyRef(x.m.polys[x.a].ref+1<<20, x.f), q.IsValidPolyRef(0, x.f))
			r.add(q.AttachedNavMesh() == x.m.nav, x.m.nav.IsValidPolyRef(x.m.polys[x.b].ref))
		}},
		{"mesh", func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			tx, ty := x.m.nav.CalcTileLoc(x.ep)
			tiles := make([]*detour.MeshTile, 4)
			n := x.m.nav.TilesAt(tx, ty, tiles, 4)
			r.add(tx, ty, n)
			for _, t := range tiles[:n] {
				c := d3.NewVec3()
				ref := x.m.nav.FindNearestPolyInTile(t, x.ep, d3.Vec3{3, 3, 3}, c)
				r.add(uint32(ref), uint32(x.m.nav.TileRef(t)))
				r.vecs = append(r.vecs, c)
			}
		}},
		{"new query", func(x *qargs, q *detour.NavMeshQuery, r *qres) {
			st, q2 := detour.NewNavMeshQuery(x.m.nav, 8)
			p := make([]detour.PolyRef, 16)
			n, st2 := q2.FindPath(x.m.polys[x.a].ref, x.m.polys[x.b].ref, x.sp, x.ep, x.f, p)
			r.add(uint32(st), n, uint32(st2))
			r.refs = append(r.refs, p)
		}},
	}
}

// frozen is a textual copy of everything an operation must not change.
func (x *qargs) frozen() string {
	return fmt.Sprint(x.sp, x.ep, x.path, *x.f, *x.f2)
}

func newArgs(m *qmesh, a, b int) *qargs {
	x := &qargs{m: m, a: a, b: b, f: stdFilter(), f2: areaFilter()}
	x.sp, x.ep = m.inner(a, b, 0.7), m.inner(b, a+1, 0.6)
	q := newQuery(m.nav, 256)
	p := make([]detour.PolyRef, 64)
	n, _ := q.FindPath(m.polys[a].ref, m.polys[b].ref, x.sp, x.ep, x.f, p)
	x.path = p[:n]
	if n == 0 {
		x.path = []detour.PolyRef{m.polys[a].ref}
	}
	return x
}

func runOp(o *qop, x *qargs, q *detour.NavMeshQuery) *qres {
	r := &qres{}
	if p := try(func() { o.run(x, q, r) }); p != nil {
		r.add("panic", fmt.Sprint(p))
	}
	return r
}

func c17Spaces(th bool) []hx.Space {
	ops := qops()
	var out []hx.Space
	fams := []qfamily{
		gridFamily(2, 2, []int{csFull, csAbsent, csForbid, csDiag1}, tiling{1, 2}, false, 1),
		gridFamily(3, 2, []int{csFull, csAbsent}, tiling{2, 1}, true, 2),
		areaFamily(3, 2, tiling{3, 2}, 2),
	}
	if th {
		fams = append(fams,
			gridFamily(3, 3, []int{csFull, csAbsent}, tiling{2, 2}, false, 2),
			gridFamily(2, 2, []int{csFull, csAbsent, csForbid, csNoFlag, csDiag1, csDiag2}, tiling{2, 2}, false, 1),
			areaFamily(4, 2, tiling{2, 2}, 2), mixedFamily(2, false), mixedFamily(2, true))
	}
	for _, f := range fams {
		f := f
		out = append(out, hx.Space{Name: "sequences " + f.name, N: f.n, Bound: f.bound + fmt.Sprintf(", the most distant pair and one other, every pair of %d operations on one query object", len(ops)), Run: func(e *hx.Env, i int64) {
			m := f.mk(i)
			if m == nil || len(m.polys) == 0 {
				return
			}
			n := len(m.polys)
			xs := []*qargs{newArgs(m, 0, n-1), newArgs(m, n/2, (n/2+1)%n)}
			sequences(e, m, xs, ops, 2, i)
		}})
	}
	depth := 3
	if th {
		depth = 4
	}
	deep := deepWorlds(th)
	out = append(out, hx.Space{Name: "long sequences", N: int64(len(deep) * len(ops)), Bound: fmt.Sprintf("%d worlds, every sequence of %d of %d operations on one query object", len(deep), depth, len(ops)), Run: func(e *hx.Env, i int64) {
		m := deep[int(i)%len(deep)]()
		sequencesFrom(e, m, []*qargs{newArgs(m, 0, len(m.polys)-1)}, ops, depth, int(i)/len(deep), i)
	}})
	out = append(out, bigSequences(th))
	// interleavings
	np := len(ops) * len(ops)
	two := int64(20_000)
	if th {
		two = 400_000
	}
	out = append(out, hx.Space{Name: "interleavings", N: int64(len(deep) * np), Batch: 1, Bound: fmt.Sprintf("%d worlds, every ordered pair of %d operations on two query objects, every schedule with one preemption at statement granularity; with two where there are at most %d", len(deep), len(ops), two), Run: func(e *hx.Env, i int64) {
		d := hx.NewDec(i)
		w, a, b := d.Next(len(deep)), d.Next(len(ops)), d.Next(len(ops))
		interleavings(e, deep[w](), ops[a], ops[b], two, i)
	}})
	return out
}

// bigSequences runs searches over thousands of polygons, one after the other
// on one query object with a pool that holds them all, or part of them.
func bigSequences(th bool) hx.Space {
	pools := []int32{700, 4096, 65535}
	n := 70
	type bop struct {
		name string
		run  func(m *gridMesh, q *detour.NavMeshQuery, r *qres)
	}
	var ops []bop
	for _, pair := range [][2]int{{0, n*n - 1}, {n*n - 1, 0}, {0, n - 1}, {34*n + 34, 34*n + 40}} {
		s, t := pair[0], pair[1]
		ops = append(ops, bop{fmt.Sprintf("FindPath %d-%d", s, t), func(m *gridMesh, q *detour.NavMeshQuery, r *qres) {
			p := make([]detour.PolyRef, 6000)
			k, st := q.FindPath(m.ref[s], m.ref[t], m.g.center(s), m.g.center(t), stdFilter(), p)
			r.add(k, uint32(st))
			r.refs = append(r.refs, p)
		}}, bop{fmt.Sprintf("sliced %d-%d", s, t), func(m *gridMesh, q *detour.NavMeshQuery, r *qres) {
			r.add(uint32(q.InitSlicedFindPath(m.ref[s], m.ref[t], m.g.center(s), m.g.center(t), stdFilter(), 0)))
			for st, k := detour.Status(detour.InProgress), 0; detour.StatusInProgress(st) && k < 100; k++ {
				var done int
				st = q.UpdateSlicedFindPath(1000, &done)
				r.add(uint32(st), done)
			}
			p := make([]detour.PolyRef, 6000)
			k, st := q.FinalizeSlicedFindPath(p, len(p))
			r.add(k, uint32(st))
			r.refs = append(r.refs, p)
		}})
	}
	ops = append(ops, bop{"nearest", func(m *gridMesh, q *detour.NavMeshQuery, r *qres) {
		st, ref, pt := q.FindNearestPoly(m.g.center(n*n-1), d3.NewVec3XYZ(1, 2, 1), stdFilter())
		r.add(uint32(st), uint64(ref))
		if pt != nil {
			r.vecs = append(r.vecs, pt)
		}
	}})
	np := len(ops) * len(ops)
	return hx.Space{Name: "large", N: int64(len(pools) * 6), Batch: 1, Bound: fmt.Sprintf("fields of %d^2 polygons of six patterns, node pools of %v, every ordered pair of %d operations on one query object", n, pools, len(ops)), Run: func(e *hx.Env, i int64) {
		d := hx.NewDec(i)
		pool, pattern := pools[d.Next(len(pools))], d.Next(6)
		m := largeGrid(n, pattern).build()
		for s := range m.ref {
			if m.ref[s] == 0 && s > 0 {
				m.ref[s] = m.ref[s-1]
			}
		}
		want := make([]string, len(ops))
		for k, o := range ops {
			r := &qres{}
			o.run(m, newQuery(m.nav, pool), r)
			want[k] = r.String()
		}
		for c := 0; c < np; c++ {
			a, b := c/len(ops), c%len(ops)
			q := newQuery(m.nav, pool)
			for j, k := range []int{a, b} {
				r := &qres{}
				ops[k].run(m, q, r)
				if r.String() != want[k] {
					e.Failf("history", "field of %d^2, pattern %d, %d nodes: %s, number %d of [%s, %s] on one query object, differs from the same on a fresh one: %.300s\n%.300s", n, pattern, pool, ops[k].name, j, ops[a].name, ops[b].name, r.String(), want[k])
				}
				e.Step(1)
			}
			e.Eval(1)
			e.Trace()
			e.State(hx.H(i, c, "big"))
		}
	}}
}

// deepWorlds are small meshes with everything in them.
func deepWorlds(th bool) []func() *qmesh {
	var out []func() *qmesh
	add := func(f qfamily, i int64) { out = append(out, func() *qmesh { return f.mk(i) }) }
	// one tile of two triangles and a quad; two tiles; off-mesh connection
	add(gridFamily(2, 1, []int{csFull, csDiag1}, tiling{2, 1}, false, 1), 2)
	add(gridFamily(2, 2, []int{csFull, csAbsent, csDiag1}, tiling{1, 2}, false, 2), 2)
	out = append(out, func() *qmesh {
		g := newGrid(3, 1)
		g.TW = 2
		ts := stateTiles(g, []int{csFull, csAbsent, csFull}, 0)
		a, b := g.pos(0, 0, 0.5, 0.5), g.pos(2, 0, 0.5, 0.5)
		ts[0].offs = []offDef{{a: [3]float32{a[0], a[1], a[2]}, b: [3]float32{b[0], b[1], b[2]}, rad: 0.4, flags: 1, bidir: 1}}
		return buildQ(g, ts, nil)
	})
	if th {
		add(areaFamily(3, 2, tiling{3, 2}, 2), 13)
		add(mixedFamily(2, false), 40)
		add(mixedFamily(2, true), 77)
	}
	return out
}

func sequences(e *hx.Env, m *qmesh, xs []*qargs, ops []qop, depth int, id int64) {
	for first := range ops {
		sequencesFrom(e, m, xs, ops, depth, first, id)
	}
}

// sequencesFrom runs every sequence of depth operations that starts with the
// given one; the last operations run on all of xs, the earlier ones on xs[0].
func sequencesFrom(e *hx.Env, m *qmesh, xs []*qargs, ops []qop, depth, first int, id int64) {
	snap := snapshot(m.nav)
	frozen := make([]string, len(xs))
	want := make([][]string, len(xs))
	for k, x := range xs {
		frozen[k] = x.frozen()
		for o := range ops {
			want[k] = append(want[k], runOp(&ops[o], x, newQuery(m.nav, 64)).String())
		}
	}
	n := int(hx.Pow(len(ops), depth-1))
	for c := 0; c < n; c++ {
		for k, x := range xs {
			q := newQuery(m.nav, 64)
			seq := []int{first}
			for j, d := 0, c; j < depth-1; j++ {
				seq = append(seq, d%len(ops))
				d /= len(ops)
			}
			var rs []*qres
			var txt []string
			for j, o := range seq {
				y := xs[0]
				if j == len(seq)-1 {
					y = x
				}
				r := runOp(&ops[o], y, q)
				rs = append(rs, r)
				s := r.String()
				txt = append(txt, s)
				w := want[0][o]
				if j == len(seq)-1 {
					w = want[k][o]
				}
				if s != w {
					e.Failf("history", "after %s, %s gives\n%s\na fresh query object gives\n%s\n%s", opNames(ops, seq[:j]), ops[o].name, s, w, m.describe())
				}
			}
			for j, r := range rs {
				if r.String() != txt[j] {
					e.Failf("result-changed", "the result of %s (number %d of %s) changed afterwards\n%s", ops[seq[j]].name, j, opNames(ops, seq), m.describe())
				}
			}
			e.Eval(1)
			e.Trace()
			e.Step(len(seq))
			e.State(hx.H(id, first, c, k))
			if e.WantSample() {
				e.Sample("%s: same as on fresh query objects", opNames(ops, seq))
			}
		}
		if c%97 == 0 || c == n-1 {
			if !bytes.Equal(snap, snapshot(m.nav)) {
				e.Failf("mesh-changed", "the mesh was changed by a sequence starting with %s", ops[first].name)
			}
		}
	}
	for k, x := range xs {
		if x.frozen() != frozen[k] {
			e.Failf("arguments", "a sequence starting with %s changed its arguments: %s, were %s", ops[first].name, x.frozen(), frozen[k])
		}
	}
}

func opNames(ops []qop, seq []int) string {
	var s []string
	for _, o := range seq {
		s = append(s, ops[o].name)
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func interleavings(e *hx.Env, m *qmesh, a, b qop, two int64, id int64) {
	if setPoint == nil {
		panic("built without scheduling points")
	}
	x := newArgs(m, 0, len(m.polys)-1)
	y := newArgs(m, len(m.polys)-1, len(m.polys)/2)
	y.f, y.f2 = x.f, x.f2 // filters are shared
	snap := snapshot(m.nav)
	wa, wb := runOp(&a, x, newQuery(m.nav, 64)).String(), runOp(&b, y, newQuery(m.nav, 64)).String()
	qa, qb := newQuery(m.nav, 64), newQuery(m.nav, 64)
	na := countPoints(func() { runOp(&a, x, qa) })
	nb := countPoints(func() { runOp(&b, y, qb) })
	if na == 0 || nb == 0 {
		e.Outcome("no scheduling points")
		return
	}
	wait := time.Second
	run := func(segs []int) {
		// query objects are made before the schedule starts
		qa, qb := newQuery(m.nav, 64), newQuery(m.nav, 64)
		var ra, rb *qres
		e.Log("%s with %s, switching after %v", a.name, b.name, segs)
		_, ok := interleave(segs, wait, func() { ra = runOp(&a, x, qa) }, func() { rb = runOp(&b, y, qb) })
		if !ok {
			wait = 2 * time.Millisecond
			e.Outcome("one waits for the other")
		}
		e.Step(1)
		e.Eval(1)
		if s := ra.String(); s != wa {
			e.Failf("schedule", "%s, interrupted by %s on another query object (switches after %v of %d and %d statements), gives\n%s\nalone\n%s\n%s", a.name, b.name, segs, na, nb, s, wa, m.describe())
		}
		if s := rb.String(); s != wb {
			e.Failf("schedule", "%s, running within %s on another query object (switches after %v of %d and %d statements), gives\n%s\nalone\n%s\n%s", b.name, a.name, segs, na, nb, s, wb, m.describe())
		}
	}
	for k := 0; k <= na; k++ {
		run([]int{k})
		e.State(hx.H(id, k))
		if k%64 == 0 && !bytes.Equal(snap, snapshot(m.nav)) {
			e.Failf("mesh-changed", "%s interrupted by %s changed the mesh", a.name, b.name)
		}
	}
	e.Trace()
	if int64(na)*int64(nb) <= two {
		for k := 1; k < na; k++ {
			for l := 1; l < nb; l++ {
				run([]int{k, l})
				e.State(hx.H(id, k, l))
			}
		}
		e.Outcome("all schedules with two preemptions")
	} else {
		e.Outcome("all schedules with one preemption")
	}
	if !bytes.Equal(snap, snapshot(m.nav)) {
		e.Failf("mesh-changed", "%s interrupted by %s changed the mesh", a.name, b.name)
	}
	if e.WantSample() {
		e.Sample("%s (%d points) with %s (%d points): all schedules agree", a.name, na, b.name, nb)
	}
}
