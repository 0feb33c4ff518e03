package checks

import (
	"fmt"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C37: packed fields keep their values apart

func init() {
	hx.Register(&hx.Check{
		ID: "C37", Level: "model_checking",
		Rule:        "explicit state exploration of each packed word: every field set to every value from every previous content of the word (neighbour connections: all contents of two directions times a set of contents of the others; polygon area and type: all 256 contents), references composed from every allowed split of their bits with all extreme and single-bit field values, statuses from every combination of outcome and details; after each step all fields are read back; non-trivial: every case",
		Assumptions: []string{"the bits of a reference are as Init documents: at least 8 generation bits, 31 at most"},
		Spaces: func(th bool) []hx.Space {
			return []hx.Space{
				{Name: "connections", N: 64 * 64, Batch: 64, Bound: "all contents of two directions x 4 contents of the others x every direction x every value, with further bits of the word set or clear; then every second setting",
					Run: func(e *hx.Env, i int64) { checkCon(e, int(i%64), int(i/64), th) }},
				{Name: "area and type", N: 256, Batch: 8, Bound: "all contents x all areas 0..63 x all types 0..3, in both orders",
					Run: func(e *hx.Env, i int64) { checkAreaType(e, uint8(i)) }},
				{Name: "references", N: 25 * 25, Batch: 4, Bound: "every split of the reference bits x extreme and single-bit values of every field",
					Run: func(e *hx.Env, i int64) { checkRefBits(e, int(i%25), int(i/25)) }},
				{Name: "status", N: 8, Batch: 1, Bound: "every combination of outcome bits and the 7 detail flags",
					Run: func(e *hx.Env, i int64) { checkStatusBits(e, uint32(i)) }},
				{Name: "directions", N: 1, Bound: "all directions",
					Run: func(e *hx.Env, i int64) {
						for d := int32(-8); d < 8; d++ {
							x, y := recast.GetDirOffsetX(d), recast.GetDirOffsetY(d)
							want := [4][2]int32{{-1, 0}, {0, 1}, {1, 0}, {0, -1}}[d&3]
							if x != want[0] || y != want[1] {
								e.Failf("direction", "direction %d is (%d,%d)", d, x, y)
							}
							if d >= 0 && d < 4 && recast.GetDirForOffset(x, y) != d {
								e.Failf("direction", "offset (%d,%d) is direction %d instead of %d", x, y, recast.GetDirForOffset(x, y), d)
							}
							e.Eval(1)
							e.Step(3)
						}
					}},
			}
		},
	})
}

func checkCon(e *hx.Env, a, b int, th bool) {
	others := []uint32{0, 0x3f, 0x15, 0x2a}
	if th {
		others = append(others, 1, 0x3e, 0x20, 0x1f)
	}
	for d1 := 0; d1 < 4; d1++ {
		d2 := (d1 + 1 + (a+b)%3) % 4
		for _, o := range others {
			var v [4]int
			for d := range v {
				v[d] = int(o)
			}
			v[d1], v[d2] = a, b
			con := uint32(0)
			for d := range v {
				con |= uint32(v[d]) << uint(6*d)
			}
			for val := 0; val < 64; val++ {
				for dir := 0; dir < 4; dir++ {
					s := recast.CompactSpan{Y: 0x1234, Reg: 0x8001, Con: con, H: 77}
					recast.SetCon(&s, int32(dir), int32(val))
					for d := range v {
						want := v[d]
						if d == dir {
							want = val
						}
						if got := int(recast.GetCon(&s, int32(d))); got != want {
							e.Failf("connection", "connections %v: after setting direction %d to %d, direction %d is %d instead of %d", v, dir, val, d, got, want)
						}
					}
					if s.Y != 0x1234 || s.Reg != 0x8001 || s.H != 77 {
						e.Failf("span", "setting a connection changes the span: %+v", s)
					}
				}
			}
			e.Eval(256)
			e.Step(256)
		}
	}
	e.State(hx.H(a, b))
	e.Trace()
}

func checkAreaType(e *hx.Env, w uint8) {
	for area := 0; area < 64; area++ {
		for typ := 0; typ < 4; typ++ {
			mk := func() detour.Poly {
				return detour.Poly{AreaAndType: w, FirstLink: 0x01020304, Flags: 0xa5a5, VertCount: 6}
			}
			p := mk()
			t0, a0 := p.Type(), p.Area()
			p.SetArea(uint8(area))
			if int(p.Area()) != area || p.Type() != t0 {
				e.Failf("area", "content %#x: after SetArea(%d) area %d type %d (type was %d)", w, area, p.Area(), p.Type(), t0)
			}
			p.SetType(uint8(typ))
			if int(p.Area()) != area || int(p.Type()) != typ {
				e.Failf("area", "content %#x: after SetArea(%d), SetType(%d) area %d type %d", w, area, typ, p.Area(), p.Type())
			}
			p = mk()
			p.SetType(uint8(typ))
			if int(p.Type()) != typ || p.Area() != a0 {
				e.Failf("area", "content %#x: after SetType(%d) area %d type %d (area was %d)", w, typ, p.Area(), p.Type(), a0)
			}
			p.SetArea(uint8(area))
			if int(p.Area()) != area || int(p.Type()) != typ {
				e.Failf("area", "content %#x: after SetType(%d), SetArea(%d) area %d type %d", w, typ, area, p.Area(), p.Type())
			}
			if p.FirstLink != 0x01020304 || p.Flags != 0xa5a5 || p.VertCount != 6 {
				e.Failf("area", "other fields of the polygon change: %+v", p)
			}
			e.Eval(1)
			e.Step(4)
		}
	}
	e.State(uint64(w))
	e.Trace()
}

func checkRefBits(e *hx.Env, tb, pb int) {
	salt := 32 - tb - pb
	if salt < 8 {
		e.Skip("too few generation bits")
	}
	if salt > 31 {
		salt = 31
	}
	if tb > 20 {
		e.Skip("too many tiles to allocate")
	}
	nav := &detour.NavMesh{}
	if st := nav.Init(&detour.NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: 1 << uint(tb), MaxPolys: 1 << uint(pb)}); detour.StatusFailed(st) {
		e.Failf("init", "2^%d tiles of 2^%d polygons refused", tb, pb)
	}
	vals := func(bits int) []uint32 {
		out := []uint32{0}
		if bits == 0 {
			return out
		}
		m := uint32(1)<<uint(bits) - 1
		for k := 0; k < bits; k++ {
			out = append(out, 1<<uint(k), m^1<<uint(k))
		}
		out = append(out, m, m&0x55555555, m&0xaaaaaaaa)
		return out
	}
	seen := map[detour.PolyRef][3]uint32{}
	for _, it := range vals(tb) {
		tile := &nav.Tiles[it]
		for _, s := range vals(salt) {
			if s == 0 {
				continue
			}
			tile.Salt = s
			base := nav.TileRef(tile)
			for _, ip := range vals(pb) {
				ref := detour.PolyRef(base) | detour.PolyRef(ip)
				var gs, gt, gp uint32
				nav.DecodePolyID(ref, &gs, &gt, &gp)
				if gs != s || gt != it || gp != ip {
					e.Failf("decode", "2^%d tiles, 2^%d polygons: generation %d tile %d polygon %d is composed to %#x, which decodes to %d %d %d", tb, pb, s, it, ip, uint32(ref), gs, gt, gp)
				}
				k := [3]uint32{s, it, ip}
				if o, ok := seen[ref]; ok && o != k {
					e.Failf("unique", "2^%d tiles, 2^%d polygons: %v and %v are both %#x", tb, pb, o, k, uint32(ref))
				}
				seen[ref] = k
				if ref == 0 {
					e.Failf("null", "generation %d tile %d polygon %d has the null reference", s, it, ip)
				}
				e.Eval(1)
				e.Step(2)
			}
		}
		tile.Salt = 1
	}
	e.State(hx.H(tb, pb))
	e.Trace()
}

func checkStatusBits(e *hx.Env, hi uint32) {
	details := []uint32{detour.WrongMagic, detour.WrongVersion, detour.OutOfMemory, detour.InvalidParam, detour.BufferTooSmall, detour.OutOfNodes, detour.PartialResult}
	for m := 0; m < 1<<7; m++ {
		var st detour.Status
		if hi&1 != 0 {
			st |= detour.Failure
		}
		if hi&2 != 0 {
			st |= detour.Success
		}
		if hi&4 != 0 {
			st |= detour.InProgress
		}
		for k, d := range details {
			if m>>uint(k)&1 == 1 {
				st |= detour.Status(d)
			}
		}
		if detour.StatusFailed(st) != (hi&1 != 0) || detour.StatusSucceed(st) != (hi&2 != 0) || detour.StatusInProgress(st) != (hi&4 != 0) {
			e.Failf("outcome", "status %#x: failed %v, succeeded %v, in progress %v", uint32(st), detour.StatusFailed(st), detour.StatusSucceed(st), detour.StatusInProgress(st))
		}
		for k, d := range details {
			if detour.StatusDetail(st, d) != (m>>uint(k)&1 == 1) {
				e.Failf("detail", "status %#x: detail %#x is %v", uint32(st), d, detour.StatusDetail(st, d))
			}
		}
		// the text tells the outcomes apart
		txt := st.Error()
		switch hi {
		case 1:
			if txt == "" || strings.Contains(txt, "success") || strings.Contains(txt, "in progress") {
				e.Failf("text", "failure status %#x reads %q", uint32(st), txt)
			}
		case 2:
			if !strings.Contains(txt, "success") {
				e.Failf("text", "success status %#x reads %q", uint32(st), txt)
			}
		case 4:
			if !strings.Contains(txt, "progress") {
				e.Failf("text", fmt.Sprintf("in progress status %#x reads %q", uint32(st), txt))
			}
		}
		e.Eval(1)
		e.Step(11)
		e.State(hx.H("s", uint32(st)))
	}
	e.Trace()
}
