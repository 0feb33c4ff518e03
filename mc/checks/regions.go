package checks

import (
	"fmt"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C26: regions

type uf []int

func newUF(n int) uf {
	u := make(uf, n)
	for i := range u {
		u[i] = i
	}
	return u
}

func (u uf) find(i int) int {
	for u[i] != i {
		u[i] = u[u[i]]
		i = u[i]
	}
	return i
}

func (u uf) join(a, b int) { u[u.find(a)] = u.find(b) }

const regBorder = 0x8000

// borderCell tells if a cell is in the border of a field.
func borderCell(w, h, x, z, b int) bool { return x < b || z < b || x >= w-b || z >= h-b }

// checkRegions builds the regions of chf and judges them.
func checkRegions(e *hx.Env, chf *recast.CompactHeightfield, border, minArea, merge int, flat bool, where func() string) {
	n := int(chf.SpanCount)
	w, h := int(chf.Width), int(chf.Height)
	areas := append([]uint8(nil), chf.Areas...)
	spans := append([]recast.CompactSpan(nil), chf.Spans...)
	what := func() string {
		return fmt.Sprintf("%s, border %d, minimum %d, merge %d", where(), border, minArea, merge)
	}
	ok := false
	if msg := try(func() { ok = recast.BuildRegionsMonotone(theCtx, chf, int32(border), int32(minArea), int32(merge)) }); msg != nil {
		e.Failf("panic", "%s: BuildRegionsMonotone crashes: %v", what(), msg)
	}
	if !ok {
		e.Failf("refused", "%s: refused", what())
	}
	e.Step(1)
	e.Eval(1)
	xs, zs := spanCells(chf)
	reg := make([]int, n)
	for i := range reg {
		reg[i] = int(chf.Spans[i].Reg)
		s := chf.Spans[i]
		s.Reg = spans[i].Reg
		if s != spans[i] || chf.Areas[i] != areas[i] {
			e.Failf("changed", "%s: span %d changed in more than its region", what(), i)
		}
	}
	show := func() string { return showRegions(chf, reg) }
	if border > 0 && int(chf.BorderSize) != border {
		e.Failf("border", "%s: the border size of the field is %d", what(), chf.BorderSize)
	}
	max := int(chf.MaxRegions)
	comp := newUF(n)
	within := newUF(n)
	touches := make([]bool, n)
	for i := 0; i < n; i++ {
		r := reg[i]
		b := borderCell(w, h, xs[i], zs[i], border)
		switch {
		case areas[i] == 0:
			if r != 0 {
				e.Failf("null", "%s: unwalkable span %d in cell (%d,%d) is in region %#x\n%s", what(), i, xs[i], zs[i], r, show())
			}
			continue
		case b:
			if r&regBorder == 0 {
				e.Failf("border", "%s: border span %d in cell (%d,%d) is not marked as border: %#x\n%s", what(), i, xs[i], zs[i], r, show())
			}
			continue
		case r&regBorder != 0 || r > max:
			e.Failf("id", "%s: span %d in cell (%d,%d) is in region %#x, beyond the maximum %d\n%s", what(), i, xs[i], zs[i], r, max, show())
		}
		for d := 0; d < 4; d++ {
			nx, nz, j := conn(chf, xs[i], zs[i], i, d)
			if j < 0 || areas[j] == 0 {
				continue
			}
			if borderCell(w, h, nx, nz, border) {
				touches[i] = true
				continue
			}
			comp.join(i, j)
			if reg[j] == r {
				within.join(i, j)
			}
		}
	}
	size := make([]int, n)
	tb := make([]bool, n)
	for i := 0; i < n; i++ {
		if areas[i] != 0 && !borderCell(w, h, xs[i], zs[i], border) {
			size[comp.find(i)]++
			if touches[i] {
				tb[comp.find(i)] = true
			}
		}
	}
	first := map[int]int{}
	sizes := map[int]int{}
	inCol := map[[3]int]bool{}
	kept, dropped := 0, 0
	for i := 0; i < n; i++ {
		if areas[i] == 0 || borderCell(w, h, xs[i], zs[i], border) {
			continue
		}
		c := comp.find(i)
		r := reg[i]
		if small := size[c] < minArea && !tb[c]; small != (r == 0) {
			if small {
				e.Failf("isolated", "%s: the part of %d spans around cell (%d,%d) is smaller than the minimum but stays in region %d\n%s", what(), size[c], xs[i], zs[i], r, show())
			}
			e.Failf("lost", "%s: span %d in cell (%d,%d), of a part of %d spans (at a border: %v), has no region\n%s", what(), i, xs[i], zs[i], size[c], tb[c], show())
		}
		if r == 0 {
			dropped++
			continue
		}
		kept++
		sizes[r]++
		if f, ok := first[r]; !ok {
			first[r] = i
		} else {
			if areas[f] != areas[i] {
				e.Failf("area", "%s: region %d has areas %d and %d\n%s", what(), r, areas[f], areas[i], show())
			}
			if within.find(f) != within.find(i) {
				e.Failf("apart", "%s: region %d is in several pieces, at cells (%d,%d) and (%d,%d)\n%s", what(), r, xs[f], zs[f], xs[i], zs[i], show())
			}
		}
		k := [3]int{r, xs[i], zs[i]}
		if inCol[k] {
			e.Failf("stacked", "%s: region %d is twice in cell (%d,%d)\n%s", what(), r, xs[i], zs[i], show())
		}
		inCol[k] = true
	}
	if flat {
		checkMerged(e, chf, reg, first, sizes, xs, zs, merge, what, show)
	}
	e.State(hx.H(reg))
	e.Outcome("regions %d, dropped some: %v", min(len(first), 6), dropped > 0)
	if e.WantSample() {
		e.Sample("%s: %s", what(), show())
	}
	_ = kept
	copy(chf.Spans, spans)
	chf.MaxRegions, chf.BorderSize = 0, 0
}

func showRegions(chf *recast.CompactHeightfield, reg []int) string {
	s := ""
	w := int(chf.Width)
	for k := range chf.Cells {
		if k%w == 0 && k > 0 {
			s += "/ "
		}
		c := chf.Cells[k]
		for i := int(c.Index); i < int(c.Index)+int(c.Count); i++ {
			if i > int(c.Index) {
				s += "+"
			}
			if reg[i]&regBorder != 0 {
				s += "b"
			}
			s += fmt.Sprint(reg[i] &^ regBorder)
		}
		if c.Count == 0 {
			s += "-"
		}
		s += " "
	}
	return s
}

// outline lists the regions met when walking once around the outline that
// passes side d of span i, without immediate repetitions.
func outline(chf *recast.CompactHeightfield, reg, xs, zs []int, i, d int, edges *int) []int {
	other := func(i, d int) int {
		if _, _, j := conn(chf, xs[i], zs[i], i, d); j >= 0 {
			return reg[j]
		}
		return 0
	}
	var out []int
	si, sd := i, d
	for {
		if o := other(i, d); len(out) == 0 || out[len(out)-1] != o {
			out = append(out, o)
		}
		*edges++
		d = (d + 1) % 4
		for other(i, d) == reg[i] {
			_, _, i = conn(chf, xs[i], zs[i], i, d)
			d = (d + 3) % 4
		}
		if i == si && d == sd {
			break
		}
	}
	for len(out) > 1 && out[0] == out[len(out)-1] {
		out = out[:len(out)-1]
	}
	return out
}

// checkMerged checks that no region remains that should have been merged
// with a neighbour.
func checkMerged(e *hx.Env, chf *recast.CompactHeightfield, reg []int, first, sizes map[int]int, xs, zs []int, merge int, what, show func() string) {
	walls := map[int]int{}
	for i := range reg {
		if reg[i] == 0 || reg[i]&regBorder != 0 {
			continue
		}
		for d := 0; d < 4; d++ {
			if _, _, j := conn(chf, xs[i], zs[i], i, d); j < 0 || reg[j] != reg[i] {
				walls[reg[i]]++
			}
		}
	}
	lines := map[int][]int{}
	for r, i := range first {
		// the first span of a region in cell order is on its outer outline
		d := -1
		for k := 0; k < 4 && d < 0; k++ {
			if _, _, j := conn(chf, xs[i], zs[i], i, k); j < 0 || reg[j] != r {
				d = k
			}
		}
		n := 0
		lines[r] = outline(chf, reg, xs, zs, i, d, &n)
		if n != walls[r] {
			e.Failf("hole", "%s: region %d has more than one outline\n%s", what(), r, show())
		}
	}
	count := func(l []int, r int) (n int) {
		for _, v := range l {
			if v == r {
				n++
			}
		}
		return
	}
	for r, l := range lines {
		if sizes[r] > merge && count(l, 0) > 0 {
			continue
		}
		best, clear := 0, false
		for _, s := range l {
			if s == 0 || s&regBorder != 0 || chf.Areas[first[s]] != chf.Areas[first[r]] || count(l, s) > 1 || count(lines[s], r) > 1 {
				continue
			}
			if best == 0 || sizes[s] < sizes[best] {
				best, clear = s, true
			}
			if sizes[s] == sizes[best] && count(lines[s], r) == 0 {
				clear = false // enclosed regions stay
			}
		}
		if best != 0 && clear {
			e.Failf("unmerged", "%s: region %d of %d spans shares a single border with region %d but is not merged with it\n%s", what(), r, sizes[r], best, show())
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C26", Level: "model_checking",
		Rule:        "every pattern of walkable and unwalkable cells and of area types on small grids (on the bare grid and inside a larger field), every field of multi-level columns on small grids, and fields with thousands of regions, each with several border sizes, minimum and merge sizes; oracle: connected components over span connections, one area and one span per column in each region, connectivity of each region, ids, border marks, and (single level) no mergeable region left; non-trivial: a part is dropped or several regions remain",
		Assumptions: []string{"climb is less than the walkable height, so that connections are mutual", "monotone partitioning (watershed partitioning is not implemented)"},
		Spaces: func(th bool) []hx.Space {
			var out []hx.Space
			type pat struct{ w, h, k int }
			pats := []pat{{4, 4, 2}, {5, 3, 2}, {3, 5, 2}, {3, 3, 3}, {4, 2, 4}}
			if th {
				pats = []pat{{5, 4, 2}, {4, 5, 2}, {4, 3, 3}, {3, 4, 3}, {5, 2, 4}, {2, 5, 4}}
			}
			ar := []uint8{0, 63, 31, 30}
			sets := [][3]int{{0, 0, 0}, {0, 3, 4}, {0, 5, 100}, {1, 2, 3}, {1, 0, 100}, {0, 0, 2}, {2, 2, 2}}
			for _, p := range pats {
				p := p
				out = append(out, hx.Space{Name: fmt.Sprintf("flat %dx%d/%d", p.w, p.h, p.k), N: hx.Pow(p.k, p.w*p.h), Batch: 512,
					Bound: fmt.Sprintf("all %d^%d patterns of area types on a %dx%d grid, and inside a border ring, %d settings", p.k, p.w*p.h, p.w, p.h, len(sets)),
					Run: func(e *hx.Env, i int64) {
						for ring := 0; ring < 2; ring++ {
							W, H := p.w+2*ring, p.h+2*ring
							f := make([]column, W*H)
							for k := range f {
								f[k] = column{{0, 1, 63}}
							}
							chf := buildCHF(W, H, f, 2, 1)
							d := hx.NewDec(i)
							for z := 0; z < p.h; z++ {
								for x := 0; x < p.w; x++ {
									chf.Areas[x+ring+(z+ring)*W] = ar[d.Next(p.k)]
								}
							}
							for _, s := range sets {
								if ring == 1 && s[0] == 0 {
									continue
								}
								checkRegions(e, chf, s[0], s[1], s[2], true, func() string { return fmt.Sprintf("areas %v, %d wide", chf.Areas, W) })
							}
						}
						e.Trace()
					}})
			}
			out = append(out, hx.Space{Name: "periodic", N: 1 << 16, Batch: 256, Bound: "all 2^16 patterns on 4x4 cells, repeated three times in each direction, 5 settings",
				Run: func(e *hx.Env, i int64) {
					const W = 12
					f := make([]column, W*W)
					for k := range f {
						f[k] = column{{0, 1, 63}}
					}
					chf := buildCHF(W, W, f, 2, 1)
					for k := range f {
						if i>>uint(k%W%4+k/W%4*4)&1 == 0 {
							chf.Areas[k] = 0
						}
					}
					for _, s := range [][3]int{{0, 0, 2}, {0, 0, 6}, {0, 4, 15}, {0, 9, 200}, {1, 3, 30}} {
						checkRegions(e, chf, s[0], s[1], s[2], true, func() string { return fmt.Sprintf("pattern %04x", i) })
					}
					e.Trace()
				}})
			// holes left out of the compact field (no span at all)
			out = append(out, hx.Space{Name: "larger", N: 1 << 12, Batch: 64, Bound: "all 2^12 patterns of 2x2 blocks (present or absent) on a 4x3 grid of blocks in a ring, 9 settings",
				Run: func(e *hx.Env, i int64) {
					W, H := 10, 8
					f := make([]column, W*H)
					for z := 0; z < H; z++ {
						for x := 0; x < W; x++ {
							bx, bz := (x-1)/2, (z-1)/2
							if x >= 1 && z >= 1 && bx < 4 && bz < 3 && i>>uint(bx+bz*4)&1 == 1 {
								continue
							}
							f[x+z*W] = column{{0, 1, 63}}
						}
					}
					chf := buildCHF(W, H, f, 2, 1)
					for _, s := range [][3]int{{0, 0, 0}, {0, 8, 20}, {0, 30, 100}, {1, 5, 12}, {2, 6, 12}, {3, 2, 100}, {4, 2, 1}, {9, 1, 1}, {40, 1, 1}} {
						checkRegions(e, chf, s[0], s[1], s[2], true, func() string { return fmt.Sprintf("blocks %x", i) })
					}
					e.Trace()
				}})
			sizes := [][2]int{{300, 5}, {5, 300}, {64, 40}, {130, 128}, {520, 5}}
			if th {
				sizes = append(sizes, [2]int{600, 7}, [2]int{7, 600}, [2]int{260, 257}, [2]int{1, 1000}, [2]int{1000, 1}, [2]int{181, 180})
			}
			lsets := [][3]int{{0, 0, 0}, {0, 2, 3}, {0, 3, 300}, {0, 300, 100000}, {2, 2, 20}, {0, 100000, 2}, {17, 2, 20}}
			kinds := 10
			out = append(out, hx.Space{Name: "many regions", N: int64(len(sizes) * kinds), Batch: 1, Bound: fmt.Sprintf("fields of %v cells with %d patterns (thousands of single cells, stripes, combs, area types by cell, by row and by column), %d settings", sizes, kinds, len(lsets)),
				Run: func(e *hx.Env, i int64) {
					W, H := sizes[int(i)%len(sizes)][0], sizes[int(i)%len(sizes)][1]
					kind := int(i) / len(sizes)
					f := make([]column, W*H)
					for k := range f {
						f[k] = column{{0, 1, 63}}
					}
					chf := buildCHF(W, H, f, 2, 1)
					for k := range chf.Areas {
						x, z := k%W, k/W
						a := 63
						switch kind {
						case 1: // single cells
							if x%2 == 1 || z%2 == 1 {
								a = 0
							}
						case 2: // stripes
							a = 63 * (x % 2)
						case 3:
							a = 63 * (z % 2)
						case 4: // combs
							if x%2 == 1 && z > 0 {
								a = 0
							}
						case 5:
							if x%2 == 1 && z < H-1 {
								a = 0
							}
						case 6: // area types
							a = 1 + (x+z*3)%7
						case 7:
							a = 1 + x%62
						case 8:
							if x%3 == 2 || z%3 == 2 {
								a = 5
							}
						case 9: // long stretches side by side
							if z%2 == 1 && x%264 >= 256 {
								a = 0
							}
						}
						chf.Areas[k] = uint8(a)
					}
					for _, s := range lsets {
						checkRegions(e, chf, s[0], s[1], s[2], W*H < 5000, func() string { return fmt.Sprintf("pattern %d on %dx%d cells", kind, W, H) })
					}
					e.Trace()
				}})
			lv := []column{{{0, 1, 63}}, {{0, 1, 63}, {4, 5, 63}}, {{0, 2, 63}, {5, 6, 63}}, {{0, 3, 63}}, {{0, 4, 63}}, {{0, 5, 63}}, {{0, 1, 63}, {3, 4, 63}, {6, 7, 63}}}
			type dim struct{ w, h, k int }
			dims := []dim{{3, 2, 7}, {2, 3, 7}, {4, 2, 4}, {3, 3, 4}}
			if th {
				dims = []dim{{3, 2, 7}, {2, 3, 7}, {4, 2, 6}, {3, 3, 5}, {7, 1, 7}}
			}
			for _, m := range dims {
				m := m
				out = append(out, hx.Space{Name: fmt.Sprintf("levels %dx%d/%d", m.w, m.h, m.k), N: hx.Pow(m.k, m.w*m.h), Batch: 256,
					Bound: fmt.Sprintf("all fields of %dx%d columns of %d kinds with up to three levels, 4 settings", m.w, m.h, m.k),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						f := make([]column, m.w*m.h)
						for k := range f {
							f[k] = lv[d.Next(m.k)]
						}
						chf := buildCHF(m.w, m.h, f, 2, 1)
						for _, s := range [][3]int{{0, 0, 0}, {0, 3, 3}, {0, 0, 100}, {1, 2, 3}} {
							checkRegions(e, chf, s[0], s[1], s[2], false, func() string { return fmt.Sprintf("columns %v, %d wide", f, m.w) })
						}
						e.Trace()
					}})
			}
			return out
		},
	})
}
