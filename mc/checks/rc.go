package checks

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// Access to the heightfield's span lists. The fields of recast.Span are found
// by their types (two heights, an area id, a pointer to the next span).

var spanOff struct{ min, max, area, next uintptr }

func init() {
	t := reflect.TypeOf(recast.Span{})
	n := 0
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		switch f.Type.Kind() {
		case reflect.Uint16:
			if n == 0 {
				spanOff.min = f.Offset
			} else {
				spanOff.max = f.Offset
			}
			n++
		case reflect.Uint8:
			spanOff.area = f.Offset
		case reflect.Ptr:
			spanOff.next = f.Offset
		}
	}
}

// span is an interval of solid cells.
type span struct {
	min, max int
	area     uint8
}

func readSpan(s *recast.Span) span {
	p := unsafe.Pointer(s)
	return span{
		int(*(*uint16)(unsafe.Pointer(uintptr(p) + spanOff.min))),
		int(*(*uint16)(unsafe.Pointer(uintptr(p) + spanOff.max))),
		*(*uint8)(unsafe.Pointer(uintptr(p) + spanOff.area)),
	}
}

func nextSpan(s *recast.Span) *recast.Span {
	return *(**recast.Span)(unsafe.Pointer(uintptr(unsafe.Pointer(s)) + spanOff.next))
}

func newSpan(v span, next *recast.Span) *recast.Span {
	s := &recast.Span{}
	setSpan(s, v, next)
	return s
}

func setSpan(s *recast.Span, v span, next *recast.Span) {
	p := unsafe.Pointer(s)
	*(*uint16)(unsafe.Pointer(uintptr(p) + spanOff.min)) = uint16(v.min)
	*(*uint16)(unsafe.Pointer(uintptr(p) + spanOff.max)) = uint16(v.max)
	*(*uint8)(unsafe.Pointer(uintptr(p) + spanOff.area)) = v.area
	*(**recast.Span)(unsafe.Pointer(uintptr(p) + spanOff.next)) = next
}

// column is the content of one heightfield column, bottom to top.
type column []span

func (c column) equal(o column) bool {
	if len(c) != len(o) {
		return false
	}
	for i := range c {
		if c[i] != o[i] {
			return false
		}
	}
	return true
}

func (c column) clone() column { return append(column(nil), c...) }

// readColumn returns the spans of column x, z.
func readColumn(hf *recast.Heightfield, x, z int) column {
	var c column
	n := 0
	for s := hf.Spans[int32(x)+int32(z)*hf.Width]; s != nil; s = nextSpan(s) {
		c = append(c, readSpan(s))
		if n++; n > 100000 {
			return append(c, span{-1, -1, 0})
		}
	}
	return c
}

// newHF makes a heightfield with the given columns (row by row).
func newHF(w, h int, cols []column) *recast.Heightfield {
	hf := recast.NewHeightfield(int32(w), int32(h), []float32{0, 0, 0}, []float32{float32(w), 100, float32(h)}, 1, 1)
	fillHF(hf, cols)
	return hf
}

func fillHF(hf *recast.Heightfield, cols []column) {
	n := 0
	for _, c := range cols {
		n += len(c)
	}
	arena := make([]recast.Span, n)
	n = 0
	for k, c := range cols {
		hf.Spans[k] = nil
		for i := range c {
			var nx *recast.Span
			if i+1 < len(c) {
				nx = &arena[n+1]
			}
			setSpan(&arena[n], c[i], nx)
			if i == 0 {
				hf.Spans[k] = &arena[n]
			}
			n++
		}
	}
}

func rcCtx() *recast.BuildContext { return recast.NewBuildContext(false) }

// allColumns enumerates the columns of at most max non-touching spans with
// limits in 0..H and areas from the list.
func allColumns(H, max int, areas []uint8) []column {
	var out []column
	var rec func(c column, from int)
	rec = func(c column, from int) {
		out = append(out, c.clone())
		if len(c) == max {
			return
		}
		for a := from; a < H; a++ {
			for b := a + 1; b <= H; b++ {
				for _, ar := range areas {
					rec(append(c.clone(), span{a, b, ar}), b+1)
				}
			}
		}
	}
	rec(nil, 0)
	return out
}

// ---- C20: the heightfield is the union of its spans

// modelAdd is the specification of an insertion.
func modelAdd(c column, s span, thr int) column {
	var out column
	i := 0
	for i < len(c) && c[i].max < s.min {
		out = append(out, c[i])
		i++
	}
	for i < len(c) && c[i].min <= s.max {
		if c[i].min < s.min {
			s.min = c[i].min
		}
		if c[i].max > s.max {
			s.max = c[i].max
		}
		d := s.max - c[i].max
		if d <= thr && c[i].area > s.area {
			s.area = c[i].area
		}
		i++
	}
	out = append(out, s)
	return append(out, c[i:]...)
}

// addOne inserts a span into column (x, z) by rasterising a vertical
// triangle inside the column.
func addOne(hf *recast.Heightfield, x, z int, s span, thr int) bool {
	X, Z := float32(x), float32(z)
	a := []float32{X + 0.25, float32(s.min), Z + 0.25}
	b := []float32{X + 0.75, float32(s.max), Z + 0.25}
	c := []float32{X + 0.25, float32(s.max), Z + 0.75}
	return recast.RasterizeTriangle(theCtx, a, b, c, s.area, hf, int32(thr))
}

var theCtx = rcCtx()

type spanState struct {
	col  column
	from int
	op   span
}

func colKey(c column) string {
	b := make([]byte, 0, len(c)*5)
	for _, s := range c {
		b = append(b, byte(s.min), byte(s.min>>8), byte(s.max), byte(s.max>>8), s.area)
	}
	return string(b)
}

func init() {
	hx.Register(&hx.Check{
		ID: "C20", Level: "model_checking",
		Rule:        "breadth first closure of the states of one column under every insertion of an interval with limits in 0..H and an area from the domain, for each merge threshold: every transition of every reachable state is executed on the real code (the state is rebuilt by replaying the insertions that first reached it) and compared with the interval union specification; plus insertion sequences over several columns and through several span pools; non-trivial: the insertion merges at least one span",
		Assumptions: []string{"insertions are made by rasterising a triangle that lies within one column"},
		Spaces: func(th bool) []hx.Space {
			H, areas := 6, []uint8{0, 1, 63}
			if th {
				H, areas = 7, []uint8{0, 1, 2, 63}
			}
			thrs := []int{0, 1, 2, 3, 100}
			var ops []span
			for a := 0; a < H; a++ {
				for b := a + 1; b <= H; b++ {
					for _, ar := range areas {
						ops = append(ops, span{a, b, ar})
					}
				}
			}
			// tall fields
			lim := []int{0, 1, 100, 229, 356, 9000, 40000}
			tthrs := []int{0, 1, 127, 128, 129, 255, 256, 257, 8999, 31000, 39999}
			tareas := []uint8{0, 63}
			if th {
				lim = []int{0, 1, 100, 229, 356, 9000, 40000, 65534}
				tareas = []uint8{0, 5, 63}
			}
			var tops []span
			for a := range lim {
				for b := a + 1; b < len(lim); b++ {
					for _, ar := range tareas {
						tops = append(tops, span{lim[a], lim[b], ar})
					}
				}
			}
			return []hx.Space{
				{Name: "tall", N: int64(len(tthrs) * len(tareas)), Batch: 1,
					Bound: fmt.Sprintf("all reachable states of a column with limits in %v, areas %v, thresholds %v", lim, tareas, tthrs),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						thr := tthrs[d.Next(len(tthrs))]
						spanClosure(e, tops, tareas[d.Next(len(tareas))], thr)
					}},
				{Name: "closure", N: int64(len(thrs) * len(areas)), Batch: 1,
					Bound: fmt.Sprintf("all reachable states of a column with limits in 0..%d, areas %v", H, areas),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						thr := thrs[d.Next(len(thrs))]
						// transitions are partitioned by the area of the
						// inserted span; states are the same
						spanClosure(e, ops, areas[d.Next(len(areas))], thr)
					}},
				{Name: "sequences", N: int64(len(ops)) * int64(len(thrs)), Batch: 4,
					Bound: "all sequences of three insertions, alternating columns, checked after each",
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						spanSequences(e, ops, ops[d.Next(len(ops))], thrs[d.Next(len(thrs))])
					}},
				{Name: "pools", N: 12, Batch: 1, Bound: "fields of up to 10000 spans with merges in between (several span pools)",
					Run: func(e *hx.Env, i int64) { spanPools(e, int(i)) }},
			}
		},
	})
}

func spanClosure(e *hx.Env, ops []span, area uint8, thr int) {
	states := []spanState{{nil, -1, span{}}}
	seen := map[string]bool{"": true}
	hf := newHF(1, 1, []column{nil})
	hf.BMax[1] = 65535
	build := func(k int) {
		var seq []span
		for k > 0 {
			seq = append(seq, states[k].op)
			k = states[k].from
		}
		*hf = *newHF(1, 1, []column{nil})
		hf.BMax[1] = 65535
		for j := len(seq) - 1; j >= 0; j-- {
			addOne(hf, 0, 0, seq[j], thr)
		}
	}
	for k := 0; k < len(states); k++ {
		st := states[k].col
		for _, op := range ops {
			want := modelAdd(st, op, thr)
			if key := colKey(want); !seen[key] {
				seen[key] = true
				states = append(states, spanState{want, k, op})
			}
			if op.area != area {
				continue
			}
			// the real column in this state
			fillHF(hf, []column{st})
			if k%64 == 0 {
				build(k)
				if got := readColumn(hf, 0, 0); !got.equal(st) {
					e.Failf("union", "threshold %d: replaying the insertions leading to %v gives %v", thr, st, got)
				}
			}
			if !addOne(hf, 0, 0, op, thr) {
				e.Failf("refused", "insertion of %v refused", op)
			}
			got := readColumn(hf, 0, 0)
			if !got.equal(want) {
				e.Failf("union", "threshold %d: column %v plus %v gives %v instead of %v", thr, st, op, got, want)
			}
			e.Eval(1)
			e.Step(1)
			if len(want) < len(st)+1 {
				e.Outcome("merged %d", len(st)+1-len(want))
			} else {
				e.Outcome("inserted")
			}
			if e.WantSample() {
				e.Sample("threshold %d: %v + %v = %v", thr, st, op, got)
			}
		}
		e.State(hx.H(thr, st))
	}
	e.Trace()
	e.Outcome("closures reached a fixed point")
}

func spanSequences(e *hx.Env, ops []span, first span, thr int) {
	for _, o2 := range ops {
		for _, o3 := range ops {
			for cols := 0; cols < 2; cols++ {
				hf := newHF(2, 1, []column{nil, nil})
				var model [2]column
				for j, op := range []span{first, o2, o3} {
					x := 0
					if cols == 1 && j == 1 {
						x = 1
					}
					if !addOne(hf, x, 0, op, thr) {
						e.Failf("refused", "insertion of %v refused", op)
					}
					model[x] = modelAdd(model[x], op, thr)
					for k := 0; k < 2; k++ {
						if got := readColumn(hf, k, 0); !got.equal(model[k]) {
							e.Failf("union", "threshold %d, insertions %v %v %v (second in column %d): column %d is %v after insertion %d instead of %v", thr, first, o2, o3, cols, k, got, j, model[k])
						}
					}
				}
				e.Eval(1)
				e.Step(3)
			}
		}
	}
	e.Trace()
}

func spanPools(e *hx.Env, kind int) {
	W := []int{50, 100, 7}[kind%3]
	hf := newHF(W, W, make([]column, W*W))
	model := make([]column, W*W)
	thr := kind / 3
	n := 0
	for round := 0; round < 6; round++ {
		for k := 0; k < W*W; k++ {
			lo := (k*7 + round*13) % 40
			s := span{lo, lo + 1 + (k+round)%5, uint8((k / 3) % 4)}
			if round == 4 {
				s = span{0, 60, 63} // merges the whole column, releasing spans
			}
			if !addOne(hf, k%W, k/W, s, thr) {
				e.Failf("refused", "insertion of %v refused", s)
			}
			model[k] = modelAdd(model[k], s, thr)
			n++
		}
		for k := range model {
			if got := readColumn(hf, k%W, k/W); !got.equal(model[k]) {
				e.Failf("pools", "field of %dx%d, round %d: column %d is %v instead of %v", W, W, round, k, got, model[k])
			}
		}
	}
	e.Eval(n)
	e.Step(n)
	e.Trace()
}
