package checks

import (
	"fmt"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/mc/hx"
)

// ---- C12: small result buffers

func init() {
	hx.Register(&hx.Check{
		ID: "C12", Level: "model_checking",
		Rule: "every world of each family x every (start, goal) pair x every buffer length from 1 to beyond the full result, for FindPath, sliced searches (both finalisations, with/without any-angle shortcuts), FindStraightPath (each option) and Raycast; oracle: the result with ample space; non-trivial: the full result has at least two elements",
		Spaces: func(th bool) []hx.Space {
			fs := []qfamily{
				gridFamily(3, 2, []int{csFull, csAbsent}, tiling{3, 2}, false, 0),
				gridFamily(3, 2, []int{csFull, csAbsent}, tiling{1, 1}, false, 2),
				gridFamily(3, 3, []int{csFull, csAbsent}, tiling{3, 3}, false, 0),
				gridFamily(2, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 2}, false, 1),
				areaFamily(3, 3, tiling{3, 3}, 2),
			}
			if th {
				fs = append(fs,
					gridFamily(4, 3, []int{csFull, csAbsent}, tiling{2, 3}, false, 0),
					gridFamily(3, 3, []int{csFull, csAbsent, csDiag1}, tiling{3, 3}, false, 0),
					areaFamily(4, 3, tiling{4, 3}, 2),
					mixedFamily(2, false), mixedFamily(2, true))
			}
			var out []hx.Space
			for _, f := range fs {
				f := f
				out = append(out, hx.Space{Name: f.name, N: f.n, Bound: f.bound + ", every pair, every buffer length", Run: func(e *hx.Env, i int64) {
					m := f.mk(i)
					if m == nil || len(m.polys) < 2 {
						return
					}
					q := newQuery(m.nav, 256)
					for s := range m.polys {
						for t := range m.polys {
							bufferPair(e, m, q, s, t)
						}
					}
				}})
			}
			return out
		},
	})
}

const refMark = detour.PolyRef(0xdeadbeef)

func markedRefs(n int) []detour.PolyRef {
	b := make([]detour.PolyRef, n)
	for i := range b {
		b[i] = refMark
	}
	return b
}

func bufferPair(e *hx.Env, m *qmesh, q *detour.NavMeshQuery, s, t int) {
	const slack = 3 // elements of the slice behind the allowed ones
	filter := areaFilter()
	sp, ep := m.inner(s, t, 0.7), m.inner(t, s+1, 0.6)
	sr, tr := m.polys[s].ref, m.polys[t].ref
	small := uint32(detour.BufferTooSmall)
	// judge compares a limited result with the full one
	judge := func(key string, k, n int, st detour.Status, got []detour.PolyRef, full []detour.PolyRef, fst detour.Status, exactFlag bool) {
		e.Eval(1)
		e.State(hx.H(key, k, m.names(full)))
		what := func() string {
			return fmt.Sprintf("%s %d -> %d with room for %d: %d %v %x; full result %v %x", key, s, t, k, n, m.names(got[:max(0, min(n, len(got)))]), uint32(st), m.names(full), uint32(fst))
		}
		if n < 0 || n > k {
			e.Failf(key+"-count", "%s", what())
		}
		for i := k; i < len(got); i++ {
			if got[i] != refMark {
				e.Failf(key+"-overrun", "%s: wrote beyond", what())
			}
		}
		want := len(full)
		if k < want {
			want = k
		}
		if n != want {
			e.Failf(key+"-length", "%s", what())
		}
		for i := 0; i < n; i++ {
			if got[i] != full[i] {
				e.Failf(key+"-prefix", "%s", what())
			}
		}
		flag := detour.StatusDetail(st, small)
		if k < len(full) && !flag {
			e.Failf(key+"-silent", "%s: no too-small flag", what())
		}
		if (k > len(full) || k == len(full) && !exactFlag) && flag {
			e.Failf(key+"-flag", "%s: needless too-small flag", what())
		}
		if st&^(detour.BufferTooSmall) != fst {
			if !(k < len(full) && st&^detour.BufferTooSmall&^detour.PartialResult == fst&^detour.PartialResult) {
				e.Failf(key+"-status", "%s: other status bits differ", what())
			}
		}
		e.Outcome("%s short %v", key, k < len(full))
		e.Trace()
	}
	guard := func(key string, k int, f func()) {
		if p := try(f); p != nil {
			e.Failf(key+"-panic", "%s %d -> %d with room for %d panics: %v", key, s, t, k, p)
		}
	}

	full := make([]detour.PolyRef, 128)
	n, fst := q.FindPath(sr, tr, sp, ep, filter, full)
	e.Step(1)
	full = full[:n]
	for k := 1; k <= n+1; k++ {
		b := markedRefs(k)
		var c int
		var st detour.Status
		guard("findpath", k, func() { c, st = q.FindPath(sr, tr, sp, ep, filter, b) })
		e.Step(1)
		judge("findpath", k, c, st, b, full, fst, false)
	}

	for _, opt := range []uint32{0, detour.FindPathAnyAngle} {
		for mode := 0; mode < 2; mode++ {
			fin := func(b []detour.PolyRef, k int) (int, detour.Status) {
				q.InitSlicedFindPath(sr, tr, sp, ep, filter, opt)
				q.UpdateSlicedFindPath(bigIter, nil)
				e.Step(3)
				if mode == 0 {
					return q.FinalizeSlicedFindPath(b, k)
				}
				return q.FinalizeSlicedFindPathPartial(full, len(full), b, k)
			}
			key := fmt.Sprintf("sliced-opt%d-final%d", opt, mode)
			sfull := make([]detour.PolyRef, 128)
			sn, sst := fin(sfull, 128)
			sfull = sfull[:sn]
			for k := 1; k <= sn+1; k++ {
				b := markedRefs(k + slack)
				var c int
				var st detour.Status
				guard(key, k, func() { c, st = fin(b, k) })
				judge(key, k, c, st, b, sfull, sst, true)
				b = markedRefs(k)
				guard(key, k, func() { c, st = fin(b, k) })
				judge(key, k, c, st, b, sfull, sst, true)
			}
		}
	}

	// raycast
	var hit detour.RaycastHit
	hit.Path, hit.MaxPath = make([]detour.PolyRef, 64), 64
	rst := q.Raycast(sr, sp, ep, filter, 0, &hit, 0)
	e.Step(1)
	rfull := hit.Path[:hit.PathCount]
	for k := 0; k <= len(rfull)+1; k++ {
		b := markedRefs(k + slack)
		h := detour.RaycastHit{Path: b, MaxPath: k}
		var st detour.Status
		guard("raycast", k, func() { st = q.Raycast(sr, sp, ep, filter, 0, &h, 0) })
		e.Step(1)
		judge("raycast", k, h.PathCount, st, b, rfull, rst, false)
		if h.T != hit.T || h.HitEdgeIndex != hit.HitEdgeIndex {
			e.Failf("raycast-hit", "raycast %d -> %d with room for %d: hit %g edge %d, with ample room %g edge %d", s, t, k, h.T, h.HitEdgeIndex, hit.T, hit.HitEdgeIndex)
		}
		nrm := d3.NewVec3()
		b = markedRefs(k)
		var c int
		var tt float32
		guard("raycast2", k, func() { c, tt, st = q.Raycast2(sr, sp, ep, filter, nrm, b, k) })
		e.Step(1)
		judge("raycast2", k, c, st, b, rfull, rst, false)
		if tt != hit.T {
			e.Failf("raycast-hit", "raycast2 %d -> %d with room for %d: hit %g, with ample room %g", s, t, k, tt, hit.T)
		}
	}

	// straight path
	for opt := int32(0); opt < 3; opt++ {
		type sres struct {
			pts   []d3.Vec3
			flags []uint8
			refs  []detour.PolyRef
		}
		mk := func(k int) *sres {
			r := &sres{make([]d3.Vec3, k), make([]uint8, k), markedRefs(k)}
			for i := range r.pts {
				r.pts[i] = d3.Vec3{-1e9, -1e9, -1e9}
				r.flags[i] = 0xee
			}
			return r
		}
		fr := mk(64)
		fn, fst := q.FindStraightPath(sp, ep, full, fr.pts, fr.flags, fr.refs, opt)
		e.Step(1)
		if detour.StatusFailed(fst) {
			e.Failf("straight-failed", "straight path %d -> %d: %x", s, t, uint32(fst))
		}
		for k := 1; k <= fn+1; k++ {
			for variant := 0; variant < 2; variant++ {
				r := mk(k)
				fl, rf := r.flags, r.refs
				if variant == 1 {
					fl, rf = nil, nil
				}
				var c int
				var st detour.Status
				guard("straight", k, func() { c, st = q.FindStraightPath(sp, ep, full, r.pts, fl, rf, opt) })
				e.Step(1)
				e.Eval(1)
				what := func() string {
					return fmt.Sprintf("straight path along %v options %d with room for %d: %d %v %v %x %x; full %v %v %x %x", m.names(full), opt, k, c, r.pts[:max(0, min(c, k))], r.flags, r.refs, uint32(st), fr.pts[:fn], fr.flags[:fn], fr.refs[:fn], uint32(fst))
				}
				want := fn
				if k < fn {
					want = k
				}
				if c != want {
					e.Failf("straight-length", "%s", what())
				}
				for i := 0; i < c; i++ {
					if !near3(r.pts[i], fr.pts[i], 0) {
						e.Failf("straight-prefix", "%s", what())
					}
					if variant == 0 && i < c-1 && (r.flags[i] != fr.flags[i] || r.refs[i] != fr.refs[i]) {
						e.Failf("straight-meta", "%s", what())
					}
				}
				if variant == 0 && k > fn && fn > 0 && (r.flags[fn-1] != fr.flags[fn-1] || r.refs[fn-1] != fr.refs[fn-1]) {
					e.Failf("straight-meta", "%s", what())
				}
				flag := detour.StatusDetail(st, small)
				if !detour.StatusSucceed(st) || k < fn && !flag || k > fn && flag {
					e.Failf("straight-flag", "%s", what())
				}
				e.Outcome("straight short %v", k < fn)
				e.Trace()
			}
		}
	}
}

// ---- C18: node budgets and the node pool

func init() {
	hx.Register(&hx.Check{
		ID: "C18", Level: "model_checking",
		Rule: "every world of each family x every (start, goal) pair x every node budget from 1 to one more than the unlimited search uses, one-shot and sliced (with/without any-angle shortcuts), against the unlimited search; every sequence of node pool operations up to the bound over colliding references, against a map; non-trivial: the budget is below the need",
		Spaces: func(th bool) []hx.Space {
			fs := []qfamily{
				gridFamily(3, 2, []int{csFull, csAbsent, csForbid}, tiling{3, 2}, false, 0),
				gridFamily(3, 2, []int{csFull, csAbsent}, tiling{1, 1}, false, 2),
				gridFamily(3, 3, []int{csFull, csAbsent}, tiling{3, 3}, false, 0),
				gridFamily(2, 2, []int{csFull, csAbsent, csDiag1, csDiag2}, tiling{2, 2}, false, 1),
				areaFamily(3, 3, tiling{1, 1}, 2),
			}
			if th {
				fs = append(fs,
					gridFamily(4, 3, []int{csFull, csAbsent}, tiling{2, 3}, false, 0),
					gridFamily(3, 3, []int{csFull, csAbsent, csDiag1}, tiling{3, 3}, false, 0),
					areaFamily(4, 3, tiling{4, 3}, 2))
			}
			var out []hx.Space
			for _, f := range fs {
				f := f
				out = append(out, hx.Space{Name: f.name, N: f.n, Bound: f.bound + ", every pair, every budget", Run: func(e *hx.Env, i int64) {
					m := f.mk(i)
					if m == nil || len(m.polys) < 2 {
						return
					}
					budgetWorld(e, m)
				}})
			}
			out = append(out, poolSpace(th), bigPool())
			return out
		},
	})
}

func budgetWorld(e *hx.Env, m *qmesh) {
	filter := areaFilter()
	queries := map[int32]*detour.NavMeshQuery{}
	get := func(b int32) *detour.NavMeshQuery {
		if queries[b] == nil {
			queries[b] = newQuery(m.nav, b)
		}
		return queries[b]
	}
	const full = 256
	for s := range m.polys {
		for t := range m.polys {
			if s == t {
				continue
			}
			sp, ep := m.inner(s, t, 0.7), m.inner(t, s+1, 0.6)
			sr, tr := m.polys[s].ref, m.polys[t].ref
			for kind := 0; kind < 3; kind++ { // FindPath, sliced, sliced any-angle
				search := func(q *detour.NavMeshQuery) (path []detour.PolyRef, st detour.Status) {
					buf := make([]detour.PolyRef, 128)
					var n int
					e.Eval(1)
					if kind == 0 {
						n, st = q.FindPath(sr, tr, sp, ep, filter, buf)
						e.Step(1)
					} else {
						opt := uint32(0)
						if kind == 2 {
							opt = detour.FindPathAnyAngle
						}
						q.InitSlicedFindPath(sr, tr, sp, ep, filter, opt)
						us := detour.Status(detour.InProgress)
						for i := 0; i < 1000 && detour.StatusInProgress(us); i++ {
							us = q.UpdateSlicedFindPath(3, nil)
							e.Step(1)
						}
						if detour.StatusInProgress(us) {
							e.Failf("endless", "sliced search %d -> %d does not end", s, t)
						}
						cnt := q.NodePool().NodeCount()
						n, st = q.FinalizeSlicedFindPath(buf, len(buf))
						_ = cnt
					}
					return buf[:n], st
				}
				fp, fst := search(get(full))
				need := get(full).NodePool().NodeCount()
				for b := int32(1); b <= need+1; b++ {
					q := get(b)
					path, st := search(q)
					used := q.NodePool().NodeCount()
					what := func() string {
						return fmt.Sprintf("kind %d, %d -> %d with %d nodes: %v %x, %d used; unlimited: %v %x, %d used", kind, s, t, b, m.names(path), uint32(st), used, m.names(fp), uint32(fst), need)
					}
					e.State(hx.H(kind, b, m.names(path), uint32(st)))
					if used > b || q.NodePool().MaxNodes() != b {
						e.Failf("nodes", "%s (limit %d)", what(), q.NodePool().MaxNodes())
					}
					if !detour.StatusSucceed(st) {
						e.Failf("failed", "%s", what())
					}
					last := checkCorridor(e, m, fmt.Sprintf("k%d", kind), path, s, what)
					out := detour.StatusDetail(st, uint32(detour.OutOfNodes))
					partial := detour.StatusDetail(st, uint32(detour.PartialResult))
					if partial != (last != t) {
						e.Failf("partial", "%s", what())
					}
					if b >= need {
						if out || st != fst || fmt.Sprint(path) != fmt.Sprint(fp) {
							e.Failf("enough", "%s: enough nodes, yet a different result", what())
						}
					} else if !out {
						e.Failf("silent", "%s: not reported out of nodes", what())
					}
					// a repetition gives the same
					if b <= 3 {
						p2, st2 := search(q)
						if st2 != st || fmt.Sprint(p2) != fmt.Sprint(path) {
							e.Failf("repeat", "%s: repeated: %v %x", what(), m.names(p2), uint32(st2))
						}
					}
					e.Outcome("kind %d out-of-nodes %v partial %v", kind, out, partial)
					e.Trace()
				}
			}
		}
	}
}

// poolSpace: sequences of node pool operations against a map.
func poolSpace(th bool) hx.Space {
	depth := 6
	if th {
		depth = 7
	}
	// references: several per bucket of small pools
	refs := []detour.PolyRef{0x100, 0x101, 0x4100, 0xffffffff}
	nops := 2*len(refs) + 1
	caps := []int32{1, 3, 4, 9}
	return hx.Space{Name: "pool", N: hx.Pow(nops, depth) * int64(len(caps)), Bound: fmt.Sprintf("every sequence of %d operations (allocate one of %d references in 2 states, clear) on pools of %v nodes", depth, len(refs), caps),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			c := caps[d.Next(len(caps))]
			nav := poolNav
			np := newQuery(nav, c).NodePool()
			type key struct {
				r detour.PolyRef
				s uint8
			}
			model := map[key]*detour.Node{}
			var order []key
			for k := 0; k < depth; k++ {
				op := d.Next(nops)
				e.Step(1)
				if op == nops-1 {
					np.Clear()
					model = map[key]*detour.Node{}
					order = nil
				} else {
					kk := key{refs[op/2], uint8(op % 2 * 3)}
					n := np.Node(kk.r, kk.s)
					if old, ok := model[kk]; ok {
						if n != old {
							e.Failf("pool-same", "operation %d: Node(%x,%d) gives another node than before", k, uint32(kk.r), kk.s)
						}
						if n.Cost != float32(op) || n.Total != 7 {
							e.Failf("pool-content", "operation %d: node content lost", k)
						}
					} else if len(order) >= int(c) {
						if n != nil {
							e.Failf("pool-over", "operation %d: a full pool of %d hands out a node", k, c)
						}
					} else {
						if n == nil {
							e.Failf("pool-nil", "operation %d: no node though %d of %d are used", k, len(order), c)
						}
						if n.ID != kk.r || n.State != kk.s || n.Flags != 0 || n.PIdx != 0 || n.Cost != 0 || n.Total != 0 {
							e.Failf("pool-init", "operation %d: new node not initialised: %+v", k, *n)
						}
						for _, o := range model {
							if o == n {
								e.Failf("pool-alias", "operation %d: node handed out twice", k)
							}
						}
						n.Cost, n.Total, n.PIdx, n.Flags = float32(op), 7, 5, 3
						model[kk] = n
						order = append(order, kk)
					}
				}
				if int(np.NodeCount()) != len(order) {
					e.Failf("pool-count", "operation %d: NodeCount %d, allocated %d", k, np.NodeCount(), len(order))
				}
				for _, r := range refs {
					cnt := 0
					for _, s := range []uint8{0, 3} {
						got := np.FindNode(r, s)
						if got != model[key{r, s}] {
							e.Failf("pool-find", "operation %d: FindNode(%x,%d) = %p, expected %p", k, uint32(r), s, got, model[key{r, s}])
						}
						if got != nil {
							cnt++
							if np.NodeAtIdx(int32(np.NodeIdx(got))) != got || np.NodeIdx(got) == 0 {
								e.Failf("pool-index", "operation %d: index of a node does not lead back to it", k)
							}
						}
					}
					for lim := 0; lim <= 3; lim++ {
						out := make([]*detour.Node, 3)
						w := cnt
						if w > lim {
							w = lim
						}
						if g := np.FindNodes(r, out, int32(lim)); int(g) != w {
							e.Failf("pool-findnodes", "operation %d: FindNodes(%x) with limit %d finds %d of %d", k, uint32(r), lim, g, cnt)
						}
						for j := 0; j < w; j++ {
							if out[j] == nil || out[j].ID != r || out[j] != model[key{r, out[j].State}] || j > 0 && out[j] == out[j-1] {
								e.Failf("pool-findnodes", "operation %d: FindNodes(%x) element %d is wrong", k, uint32(r), j)
							}
						}
					}
				}
				if np.FindNode(0x777, 0) != nil || np.NodeIdx(nil) != 0 || np.NodeAtIdx(0) != nil {
					e.Failf("pool-absent", "operation %d: a reference never allocated is found", k)
				}
				h := hx.NewHash()
				h.I(int(c))
				for _, o := range order {
					h.U(uint64(o.r)<<8 | uint64(o.s))
				}
				e.State(uint64(h))
			}
			e.Trace()
		}}
}

var poolNav = newGrid(1, 1).build().nav
