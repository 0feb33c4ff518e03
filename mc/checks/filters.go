package checks

import (
	"fmt"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C22: span filters

const ceilNone = 0xffff

func absInt(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// openAbove is the open interval above span i of c.
func openAbove(c column, i int) (bot, top int) {
	bot, top = c[i].max, ceilNone
	if i+1 < len(c) {
		top = c[i+1].min
	}
	return
}

// specLowHanging: a span becomes walkable if the span below was walkable
// before and its top is within climb.
func specLowHanging(c column, climb int) column {
	out := c.clone()
	for i := 1; i < len(c); i++ {
		if c[i].area == 0 && c[i-1].area != 0 && absInt(c[i].max-c[i-1].max) <= climb {
			out[i].area = c[i-1].area
		}
	}
	return out
}

func specLowHeight(c column, height int) column {
	out := c.clone()
	for i := range c {
		if bot, top := openAbove(c, i); top-bot <= height {
			out[i].area = 0
		}
	}
	return out
}

// specLedge gives the areas of column 0 of cols after the ledge filter; the
// neighbours are the other columns (nil pointer: outside of the field).
func specLedge(c column, neis [4]*column, height, climb int) column {
	out := c.clone()
	for i := range c {
		if c[i].area == 0 {
			continue
		}
		bot, top := openAbove(c, i)
		drop := 0 // deepest reachable neighbour relative to bot; <0 down
		ledge := false
		lo, hi := bot, bot
		for _, n := range neis {
			if n == nil {
				ledge = true
				continue
			}
			gap := func(nb, nt int) bool {
				a, b := bot, top
				if nb > a {
					a = nb
				}
				if nt < b {
					b = nt
				}
				return b-a > height
			}
			// below the lowest span: a bottomless gap, entered at -climb
			nt := ceilNone
			if len(*n) > 0 {
				nt = (*n)[0].min
			}
			if gap(-climb, nt) && -climb-bot < drop {
				drop = -climb - bot
			}
			for k := range *n {
				nb, nt := openAbove(*n, k)
				if !gap(nb, nt) {
					continue
				}
				if nb-bot < drop {
					drop = nb - bot
				}
				if absInt(nb-bot) <= climb {
					if nb < lo {
						lo = nb
					}
					if nb > hi {
						hi = nb
					}
				}
			}
		}
		// outside of the field there is a floor at -climb
		if ledge && -climb-bot < drop {
			drop = -climb - bot
		}
		if drop < -climb || hi-lo > climb {
			out[i].area = 0
		}
	}
	return out
}

func init() {
	hx.Register(&hx.Check{
		ID: "C22", Level: "model_checking",
		Rule:        "the low hanging obstacle and low height filters on every column of up to 4 (5) spans with limits in a small range, every area and parameter; the ledge filter on every cross of a centre column and four neighbour columns from enumerated column sets, and on every 2x2 field, for every height and climb; the same with columns up to the greatest height; each filter's result is compared with the specification on every span, and everything but area marks must be unchanged; non-trivial: the filter changes at least one span",
		Assumptions: []string{"a position outside of the field counts as a floor at height -climb"},
		Spaces: func(th bool) []hx.Space {
			H, n := 8, 4
			if th {
				H, n = 10, 5
			}
			cols := allColumns(H, n, []uint8{0, 63, 5})
			var out []hx.Space
			out = append(out, hx.Space{Name: "columns", N: int64(len(cols)), Batch: 256,
				Bound: fmt.Sprintf("all %d columns of at most %d spans with limits in 0..%d and areas 0, 5, 63; climbs and heights 0..%d", len(cols), n, H, H),
				Run: func(e *hx.Env, i int64) {
					c := cols[i]
					for p := 0; p <= H; p++ {
						hf := newHF(1, 1, []column{c})
						recast.FilterLowHangingWalkableObstacles(theCtx, int32(p), hf)
						judgeFilter(e, "low hanging obstacle", p, 0, c, readColumn(hf, 0, 0), specLowHanging(c, p))
						fillHF(hf, []column{c})
						recast.FilterWalkableLowHeightSpans(theCtx, int32(p), hf)
						judgeFilter(e, "low height", p, 0, c, readColumn(hf, 0, 0), specLowHeight(c, p))
						e.Step(2)
						e.Eval(2)
					}
					e.Trace()
				}})
			// extreme heights
			out = append(out, hx.Space{Name: "extreme", N: 1, Bound: "columns near the greatest height",
				Run: func(e *hx.Env, i int64) {
					for _, c := range []column{{{0, 65535, 63}}, {{0, 65530, 63}}, {{0, 1, 63}, {65534, 65535, 0}}, {{0, 1, 63}, {300, 301, 63}}, {{65000, 65533, 63}, {65534, 65535, 63}}} {
						for _, p := range []int{0, 1, 2, 5, 6, 255, 256, 65534, 65535} {
							hf := newHF(1, 1, []column{c})
							recast.FilterLowHangingWalkableObstacles(theCtx, int32(p), hf)
							judgeFilter(e, "low hanging obstacle", p, 0, c, readColumn(hf, 0, 0), specLowHanging(c, p))
							fillHF(hf, []column{c})
							recast.FilterWalkableLowHeightSpans(theCtx, int32(p), hf)
							judgeFilter(e, "low height", p, 0, c, readColumn(hf, 0, 0), specLowHeight(c, p))
							recast.FilterLedgeSpans(theCtx, 2, int32(p), newHF(1, 1, []column{c}))
							e.Eval(3)
							e.Step(3)
						}
					}
				}})
			// cross: centre and four neighbours
			centre := []column{{{0, 1, 63}}, {{0, 3, 63}}, {{0, 5, 7}}, {{0, 2, 63}, {5, 6, 63}}, {{0, 3, 63}, {6, 7, 0}}, {{0, 1, 0}, {3, 4, 63}}, {{0, 8, 63}}, {{0, 1, 63}, {4, 5, 63}, {8, 9, 63}}}
			nei := []column{nil, {{0, 1, 63}}, {{0, 2, 0}}, {{0, 3, 63}}, {{0, 4, 63}}, {{0, 5, 63}}, {{0, 7, 63}}, {{0, 1, 63}, {3, 4, 63}}, {{3, 5, 63}}, {{0, 2, 63}, {6, 7, 0}}}
			if th {
				nei = append(nei, column{{0, 6, 63}}, column{{0, 9, 63}}, column{{0, 1, 63}, {5, 6, 63}}, column{{2, 3, 63}}, column{{0, 1, 63}, {3, 4, 63}, {7, 8, 0}}, column{{5, 6, 63}})
			}
			hs, cs := []int{1, 2, 3}, []int{0, 1, 2, 4}
			nn := len(nei)
			out = append(out, hx.Space{Name: "crosses", N: int64(len(centre)) * hx.Pow(nn, 3), Batch: 64,
				Bound: fmt.Sprintf("all crosses of %d centre columns and %d^4 neighbour columns, heights %v, climbs %v", len(centre), nn, hs, cs),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					c := centre[d.Next(len(centre))]
					f := make([]column, 9)
					f[4] = c
					f[1], f[3], f[5] = nei[d.Next(nn)], nei[d.Next(nn)], nei[d.Next(nn)]
					for k := 0; k < nn; k++ {
						f[7] = nei[k]
						for _, h := range hs {
							for _, cl := range cs {
								checkLedge(e, 3, 3, f, h, cl)
							}
						}
					}
					e.Trace()
				}})
			// tall fields
			tc := []column{{{0, 300, 63}}, {{0, 5000, 63}}, {{0, 40000, 7}}, {{0, 300, 63}, {700, 5000, 63}, {60000, 60010, 63}}, {{0, 1, 63}, {257, 258, 0}, {513, 514, 63}}}
			tn := []column{nil, {{0, 1, 63}}, {{0, 44, 63}}, {{0, 200, 0}}, {{0, 400, 63}}, {{0, 556, 63}}, {{0, 4700, 63}}, {{0, 5128, 63}}, {{0, 39000, 63}}, {{0, 45000, 63}}, {{0, 1, 63}, {600, 4900, 63}}, {{0, 65535, 63}}}
			ths, tcs := []int{1, 255, 256, 300, 4500}, []int{0, 99, 127, 128, 255, 256, 300, 4800, 6000}
			if th {
				tn = append(tn, column{{0, 300, 63}, {556, 557, 63}}, column{{0, 33000, 63}}, column{{300, 301, 63}, {40000, 40001, 63}})
			}
			nt := len(tn)
			out = append(out, hx.Space{Name: "tall crosses", N: int64(len(tc)) * hx.Pow(nt, 3), Batch: 64,
				Bound: fmt.Sprintf("all crosses of %d centre columns and %d^4 neighbour columns up to the greatest height (the third and fourth not in descending order), heights %v, climbs %v", len(tc), nt, ths, tcs),
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					f := make([]column, 9)
					f[4] = tc[d.Next(len(tc))]
					a, b, c := d.Next(nt), d.Next(nt), d.Next(nt)
					f[1], f[3], f[5] = tn[a], tn[b], tn[c]
					for k := c; k < nt; k++ {
						f[7] = tn[k]
						for _, h := range ths {
							for _, cl := range tcs {
								checkLedge(e, 3, 3, f, h, cl)
							}
						}
					}
					e.Trace()
				}})
			tl := []int{0, 1, 2, 129, 257, 258, 300, 9000, 65534, 65535}
			tcols := [][]column{{nil}}
			for n := 0; n < 3; n++ {
				var next []column
				for _, c := range tcols[n] {
					for a := range tl {
						if len(c) > 0 && tl[a] <= c[len(c)-1].max {
							continue
						}
						for b := a + 1; b < len(tl); b++ {
							for _, ar := range []uint8{0, 63} {
								next = append(next, append(c.clone(), span{tl[a], tl[b], ar}))
							}
						}
					}
				}
				tcols = append(tcols, next)
			}
			var tall []column
			for _, c := range tcols {
				tall = append(tall, c...)
			}
			out = append(out, hx.Space{Name: "tall columns", N: int64(len(tall)), Batch: 64,
				Bound: fmt.Sprintf("all %d columns of at most 3 spans with limits in %v and areas 0, 63; climbs and heights in the same list and their differences", len(tall), tl),
				Run: func(e *hx.Env, i int64) {
					c := tall[i]
					for _, p := range []int{0, 1, 2, 42, 43, 127, 128, 129, 255, 256, 257, 298, 8700, 8743, 56534, 65534, 65535} {
						hf := newHF(1, 1, []column{c})
						recast.FilterLowHangingWalkableObstacles(theCtx, int32(p), hf)
						judgeFilter(e, "low hanging obstacle", p, 0, c, readColumn(hf, 0, 0), specLowHanging(c, p))
						fillHF(hf, []column{c})
						recast.FilterWalkableLowHeightSpans(theCtx, int32(p), hf)
						judgeFilter(e, "low height", p, 0, c, readColumn(hf, 0, 0), specLowHeight(c, p))
						e.Step(2)
						e.Eval(2)
					}
					e.Trace()
				}})
			out = append(out, largeFilters())
			// all small fields
			two := allColumns(4, 2, []uint8{0, 63})
			if th {
				two = allColumns(5, 2, []uint8{0, 63})
			}
			out = append(out, hx.Space{Name: "pairs", N: int64(len(two)) * int64(len(two)), Batch: 16,
				Bound: fmt.Sprintf("every pair of %d columns inside a ring of every common floor height", len(two)),
				Run: func(e *hx.Env, i int64) {
					a, b := two[int(i)%len(two)], two[int(i)/len(two)]
					for fl := 0; fl <= 4; fl += 2 {
						ring := column{{0, fl + 1, 63}}
						f := []column{ring, ring, ring, ring, ring, a, b, ring, ring, ring, ring, ring}
						for _, h := range hs {
							for _, cl := range cs {
								checkLedge(e, 4, 3, f, h, cl)
							}
						}
					}
					e.Trace()
				}})
			return out
		},
	})
}

func judgeFilter(e *hx.Env, what string, p, q int, in, got, want column) {
	if !got.equal(want) {
		e.Failf(what, "%s filter (%d, %d): column %v becomes %v instead of %v", what, p, q, in, got, want)
	}
	e.State(hx.HB([]byte(colKey(got))))
	if !want.equal(in) {
		e.Outcome("%s changed", what)
	} else {
		e.Outcome("%s unchanged", what)
	}
}

func checkLedge(e *hx.Env, w, h int, f []column, height, climb int) {
	hf := newHF(w, h, f)
	recast.FilterLedgeSpans(theCtx, int32(height), int32(climb), hf)
	e.Step(1)
	e.Eval(1)
	for z := 0; z < h; z++ {
		for x := 0; x < w; x++ {
			var neis [4]*column
			for d, o := range [4][2]int{{-1, 0}, {0, 1}, {1, 0}, {0, -1}} {
				if nx, nz := x+o[0], z+o[1]; nx >= 0 && nz >= 0 && nx < w && nz < h {
					neis[d] = &f[nx+nz*w]
				}
			}
			want := specLedge(f[x+z*w], neis, height, climb)
			if got := readColumn(hf, x, z); !got.equal(want) {
				e.Failf("ledge", "ledge filter, height %d climb %d, field %dx%d %v: column (%d,%d) becomes %v instead of %v", height, climb, w, h, fieldText(f), x, z, got, want)
			}
			if x > 0 && z > 0 && x < w-1 && z < h-1 {
				e.State(hx.HB([]byte(colKey(want))))
				if want.equal(f[x+z*w]) {
					e.Outcome("ledge unchanged")
				} else {
					e.Outcome("ledge changed")
				}
			}
		}
	}
}

// ---- C23: the compact heightfield

func init() {
	hx.Register(&hx.Check{
		ID: "C23", Level: "model_checking",
		Rule:        "every pair of neighbouring columns with up to 3 spans with limits in a small range and areas from {0, 5, 63}, in both axis directions, for every height and climb; full 2x2 fields; columns of up to 70 layers; gaps around the representable height; oracle: open spans, clearance, area and connections computed from the columns; non-trivial: at least one connection",
		Assumptions: []string{"connection indices 0..62 are representable; spans above that layer are not judged as connection targets"},
		Spaces: func(th bool) []hx.Space {
			H := 5
			if th {
				H = 7
			}
			cols := allColumns(H, 3, []uint8{0, 63})
			hs, cs := []int{0, 1, 2, 3}, []int{0, 1, 2, 3}
			var out []hx.Space
			out = append(out, hx.Space{Name: "pairs", N: int64(len(cols)), Batch: 4, Bound: fmt.Sprintf("all ordered pairs of %d columns", len(cols)),
				Run: func(e *hx.Env, i int64) {
					for _, b := range cols {
						for _, h := range hs {
							for _, c := range cs {
								checkCompact(e, 2, 1, []column{cols[i], b}, h, c)
							}
						}
						checkCompact(e, 1, 2, []column{cols[i], b}, 2, 1)
					}
					e.Trace()
				}})
			sm := []column{nil, {{0, 1, 63}}, {{0, 2, 5}}, {{1, 3, 63}}, {{0, 1, 63}, {4, 5, 5}}, {{0, 1, 0}, {3, 4, 63}}, {{0, 1, 63}, {3, 4, 0}, {6, 7, 63}}}
			k := len(sm)
			out = append(out, hx.Space{Name: "fields", N: hx.Pow(k, 4) * 9, Batch: 64, Bound: "all 2x2 and 3x2 fields over a set of columns",
				Run: func(e *hx.Env, i int64) {
					d := hx.NewDec(i)
					f := []column{sm[d.Next(k)], sm[d.Next(k)], sm[d.Next(k)], sm[d.Next(k)]}
					h, c := d.Next(3)+1, d.Next(3)
					checkCompact(e, 2, 2, f, h, c)
					checkCompact(e, 3, 2, []column{f[0], f[1], f[2], f[3], f[1], f[0]}, h, c)
					e.Trace()
				}})
			out = append(out, hx.Space{Name: "layers", N: 75 * 3, Batch: 4, Bound: "columns of 0..74 layers next to columns of 0..74 layers, and tall gaps",
				Run: func(e *hx.Env, i int64) {
					n, kind := int(i)%75, int(i)/75
					mk := func(n, off int) column {
						var c column
						for j := 0; j < n; j++ {
							c = append(c, span{j*6 + off, j*6 + off + 2, 63})
						}
						return c
					}
					for m := 0; m < 75; m += 1 + 36*(1-min(kind, 1)) {
						checkCompact(e, 2, 1, []column{mk(n, 0), mk(m, kind)}, 2, 1)
					}
					// clearances around the limit of the height field
					for g := 250; g < 260; g++ {
						a := column{{0, 1, 63}, {1 + g, 2 + g, 63}}
						b := column{{0, 1 + n%3, 63}, {g + kind, g + 3 + kind, 0}}
						for _, h := range []int{1, 250, 254, 255, 256} {
							checkCompact(e, 2, 1, []column{a, b}, h, 1)
						}
					}
					top := column{{0, 65535 - n, 63}}
					checkCompact(e, 2, 1, []column{top, {{0, 65535 - n - kind, 63}}}, 2, 1)
					e.Trace()
				}})
			out = append(out, largeCompact())
			return out
		},
	})
}

type openSpan struct {
	y, h int
	area uint8
}

func openSpans(c column) []openSpan {
	var out []openSpan
	for i := range c {
		if c[i].area == 0 {
			continue
		}
		bot, top := openAbove(c, i)
		h := top - bot
		if h > 255 {
			h = 255
		}
		out = append(out, openSpan{bot, h, c[i].area})
	}
	return out
}

func checkCompact(e *hx.Env, w, h int, f []column, height, climb int) {
	hf := newHF(w, h, f)
	chf := &recast.CompactHeightfield{}
	if !recast.BuildCompactHeightfield(theCtx, int32(height), int32(climb), hf, chf) {
		e.Failf("refused", "refused for %v", fieldText(f))
	}
	e.Step(1)
	e.Eval(1)
	where := func() string {
		return fmt.Sprintf("height %d climb %d field %dx%d %v", height, climb, w, h, fieldText(f))
	}
	if int(chf.Width) != w || int(chf.Height) != h || chf.WalkableHeight != int32(height) || chf.WalkableClimb != int32(climb) || chf.Cs != hf.Cs || chf.Ch != hf.Ch || chf.BMin != hf.BMin || len(chf.Cells) != w*h {
		e.Failf("header", "%s: wrong header", where())
	}
	want := make([][]openSpan, len(f))
	n := 0
	for k := range f {
		want[k] = openSpans(f[k])
		n += len(want[k])
		c := chf.Cells[k]
		if int(c.Count) != len(want[k]) {
			e.Failf("count", "%s: cell %d has %d open spans instead of %d", where(), k, c.Count, len(want[k]))
		}
		for j, o := range want[k] {
			s := chf.Spans[int(c.Index)+j]
			if int(s.Y) != o.y || int(s.H) != o.h || chf.Areas[int(c.Index)+j] != o.area {
				e.Failf("span", "%s: open span %d of cell %d is y %d h %d area %d instead of %v", where(), j, k, s.Y, s.H, chf.Areas[int(c.Index)+j], o)
			}
			if s.Reg != 0 {
				e.Failf("span", "%s: open span %d of cell %d is in a region", where(), j, k)
			}
		}
	}
	if int(chf.SpanCount) != n || len(chf.Spans) < n {
		e.Failf("count", "%s: %d spans instead of %d", where(), chf.SpanCount, n)
	}
	links := 0
	for z := 0; z < h; z++ {
		for x := 0; x < w; x++ {
			for j, o := range want[x+z*w] {
				s := &chf.Spans[int(chf.Cells[x+z*w].Index)+j]
				for d, of := range [4][2]int{{-1, 0}, {0, 1}, {1, 0}, {0, -1}} {
					got := int(recast.GetCon(s, int32(d)))
					nx, nz := x+of[0], z+of[1]
					exp := 0x3f
					high := false
					if nx >= 0 && nz >= 0 && nx < w && nz < h {
						for k, p := range want[nx+nz*w] {
							bot, top := max(o.y, p.y), min(o.y+o.h, p.y+p.h)
							if top-bot >= height && absInt(o.y-p.y) <= climb {
								if k > 62 {
									high = true
									break
								}
								exp = k
								break
							}
						}
					}
					if got != exp && !high {
						e.Failf("connection", "%s: span %d of cell (%d,%d) is connected to %d in direction %d instead of %d", where(), j, x, z, got, d, exp)
					}
					if exp != 0x3f {
						links++
						// mutual, unless a lower span of this column is
						// also in reach from there
						back := int(recast.GetCon(&chf.Spans[int(chf.Cells[nx+nz*w].Index)+exp], int32((d+2)%4)))
						if back != j && height > 0 && climb < height && j < 63 {
							e.Failf("mutual", "%s: span %d of cell (%d,%d) leads to span %d in direction %d, which leads back to %d", where(), j, x, z, exp, d, back)
						}
					}
				}
			}
		}
	}
	if links > 0 {
		e.Outcome("connected")
	} else {
		e.Outcome("not connected")
	}
	var hh hx.Hash
	hh = hx.NewHash()
	for i := range chf.Spans[:n] {
		hh.U(uint64(chf.Spans[i].Con))
		hh.I(int(chf.Spans[i].Y))
	}
	e.State(uint64(hh))
}

func fieldText(f []column) string {
	if len(f) > 64 {
		return fmt.Sprintf("of %d columns", len(f))
	}
	return fmt.Sprint(f)
}

// largeFields are fields whose sides and numbers of spans pass the limits of
// small integers; their columns follow patterns.
var largeFields = [][2]int{{300, 7}, {7, 300}, {270, 260}, {1100, 3}, {3, 1100}, {33000, 2}, {2, 33000}}

func largeField(w, h, kind int) []column {
	f := make([]column, w*h)
	for z := 0; z < h; z++ {
		for x := 0; x < w; x++ {
			var c column
			switch kind {
			case 0: // steps in both directions, with gaps
				if (x*5+z*3)%17 != 0 {
					c = column{{0, 1 + x%3 + z%2, 63}}
				}
			case 1: // two floors
				c = column{{0, 1 + (x+z)%2, uint8(1 + (x/256+z/256)%60)}, {6 + x%2, 8 + z%3, 63}}
			case 2: // obstacles lying low and ceilings
				c = column{{0, 2, 63}, {2 + (x+z)%3, 3 + (x+z)%3, uint8((x * z) % 2)}, {9, 10 + x%4, 5}}
				if (x+z)%3 == 0 {
					c = column{{0, 3, 63}, {9, 10 + x%4, 5}}
				}
			}
			f[x+z*w] = c
		}
	}
	return f
}

func largeFilters() hx.Space {
	return hx.Space{Name: "large fields", N: int64(len(largeFields) * 3), Batch: 1, Bound: fmt.Sprintf("fields of %v columns with 3 patterns, all three filters", largeFields),
		Run: func(e *hx.Env, i int64) {
			w, h := largeFields[i/3][0], largeFields[i/3][1]
			f := largeField(w, h, int(i%3))
			for _, p := range []int{1, 3} {
				hf := newHF(w, h, f)
				recast.FilterLowHangingWalkableObstacles(theCtx, int32(p), hf)
				hf2 := newHF(w, h, f)
				recast.FilterWalkableLowHeightSpans(theCtx, int32(p), hf2)
				e.Step(2)
				for z := 0; z < h; z++ {
					for x := 0; x < w; x++ {
						c := f[x+z*w]
						judgeFilter(e, "low hanging obstacle", p, 0, c, readColumn(hf, x, z), specLowHanging(c, p))
						judgeFilter(e, "low height", p, 0, c, readColumn(hf2, x, z), specLowHeight(c, p))
					}
				}
				e.Eval(2 * w * h)
				checkLedge(e, w, h, f, 2, p)
			}
			e.Trace()
		}}
}

func largeCompact() hx.Space {
	return hx.Space{Name: "large fields", N: int64(len(largeFields) * 3), Batch: 1, Bound: fmt.Sprintf("fields of %v columns with 3 patterns", largeFields),
		Run: func(e *hx.Env, i int64) {
			w, h := largeFields[i/3][0], largeFields[i/3][1]
			for _, c := range []int{1, 3} {
				checkCompact(e, w, h, largeField(w, h, int(i%3)), 2, c)
			}
			e.Trace()
		}}
}
