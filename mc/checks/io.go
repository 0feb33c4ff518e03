package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/arl/go-detour/detour"

	"verif/mc/hx"
)

// ---- mesh family for the input/output checks

// richTile makes a tile whose every data section is non-trivial, depending on
// the option bits.
func richTile(g *gridWorld, x, z, bits int) *tileDef {
	t := g.tile(x, z)
	S := g.S
	t.polys = []polyDef{
		{v: [][3]int{{0, 0, 0}, {0, 0, 3}, {2, 1, 3}, {3, 1, 0}}, area: uint8(3 + x), flags: uint16(1 + bits)},
		{v: [][3]int{{0, 0, 3}, {0, 0, S}, {2, 0, S}, {2, 1, 3}}, area: 63, flags: 0xffff},
		{v: [][3]int{{2, 1, 3}, {2, 0, S}, {S, 2, S}}, area: 0, flags: 3},
		{v: [][3]int{{2, 1, 3}, {S, 2, S}, {S, 2, 4}, {S, 1, 2}, {S, 1, 0}, {3, 1, 0}}, area: 7, flags: 2},
	}
	t.noBV = bits&1 != 0
	t.noDetail = bits&2 != 0
	if bits&4 != 0 {
		// detail vertices inside polygons 0 and 3
		t.polys[0].dv = [][3]float32{{1, 1, 1}}
		t.polys[0].tris = [][3]uint8{{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}
		t.polys[3].dv = [][3]float32{{4, 2, 2}, {5, 2, 3}}
		t.polys[3].tris = [][3]uint8{{0, 1, 7}, {1, 2, 7}, {2, 3, 7}, {3, 6, 7}, {3, 4, 6}, {4, 5, 6}, {5, 0, 6}, {0, 7, 6}}
	}
	sz := g.cellSize()
	at := func(fx, fz float32) [3]float32 {
		return [3]float32{t.bmin[0] + fx*sz, t.bmin[1] + .25, t.bmin[2] + fz*sz}
	}
	n := bits >> 3 & 3
	for i := 0; i < n; i++ {
		f := float32(i) * .1
		o := offDef{a: at(.2+f, .2+f), b: at(.8-f, .9), rad: .3 + f, flags: uint16(5 + i), area: uint8(9 + i), bidir: uint8(i & 1), id: uint32(70+i) * 0x3010101}
		if i == 1 {
			o.b = at(1.2, .5) // into the next tile
		}
		if i == 2 {
			o.bidir = 1
			o.b = at(.3, 1.3)
		}
		t.offs = append(t.offs, o)
	}
	t.userID = uint32(0xf0000000) + uint32(bits*16+x*4+z)
	return t
}

func ioWorlds(thorough bool) []*tileWorld {
	ws := worlds(thorough)
	nb := 32
	for b := 0; b < nb; b++ {
		g := newGrid(2, 2)
		g.TW, g.TH, g.S = 1, 1, 6
		w := &tileWorld{name: fmt.Sprintf("rich%02d", b), grid: g, maxTiles: 5, maxPolys: 16}
		for k := 0; k < 4; k++ {
			bits := b
			if k%2 == 1 {
				bits = (b*7 + 5) % 32
			}
			t := richTile(g, k%2, k/2, bits)
			t.layer = k * 3 % 4
			w.defs = append(w.defs, t)
		}
		ws = append(ws, w)
	}
	return ws
}

type plainTile struct {
	Header       detour.MeshHeader
	Polys        []detour.Poly
	Verts        []float32
	DetailMeshes []detour.PolyDetail
	DetailVerts  []float32
	DetailTris   []uint8
	BvTree       []detour.BvNode
	OffMeshCons  []detour.OffMeshConnection
}

// tileText renders the content of a tile without the link bookkeeping.
func tileText(t *detour.MeshTile) string {
	p := plainTile{Header: *t.Header, Verts: t.Verts, DetailMeshes: t.DetailMeshes, DetailVerts: t.DetailVerts, DetailTris: t.DetailTris, BvTree: t.BvTree, OffMeshCons: t.OffMeshCons}
	for _, q := range t.Polys {
		q.FirstLink = 0
		p.Polys = append(p.Polys, q)
	}
	return strings.ReplaceAll(fmt.Sprintf("%+v", p), " ", " ")
}

// compareMeshes checks that b is the mesh a after a save/load round trip.
func compareMeshes(e *hx.Env, a, b *detour.NavMesh) {
	e.Assert(a.Params == b.Params, "params", "parameters differ: %+v / %+v", a.Params, b.Params)
	e.Assert(vecStr(a.Orig) == vecStr(b.Orig) && a.TileWidth == b.TileWidth && a.TileHeight == b.TileHeight && a.MaxTiles == b.MaxTiles, "params", "mesh fields differ")
	for i := range a.Tiles {
		ta, tb := &a.Tiles[i], &b.Tiles[i]
		if (ta.Header == nil) != (tb.Header == nil) {
			e.Failf("tile-presence", "slot %d: loaded %v before, %v after", i, ta.Header != nil, tb.Header != nil)
		}
		if ta.Header == nil {
			continue
		}
		e.Assert(a.TileRef(ta) == b.TileRef(tb), "tile-ref", "slot %d: reference %x before, %x after", i, uint32(a.TileRef(ta)), uint32(b.TileRef(tb)))
		if x, y := tileText(ta), tileText(tb); x != y {
			k := 0
			for k < len(x) && k < len(y) && x[k] == y[k] {
				k++
			}
			lo := k - 200
			if lo < 0 {
				lo = 0
			}
			cut := func(s string) string {
				hi := k + 120
				if hi > len(s) {
					hi = len(s)
				}
				return s[lo:hi]
			}
			e.Failf("tile-content", "slot %d differs:\n%s\n%s", i, cut(x), cut(y))
		}
		if (ta.BvTree == nil) != (tb.BvTree == nil) {
			e.Failf("tile-bv", "slot %d: bounding volume tree presence differs", i)
		}
	}
	if x, y := connectivity(a), connectivity(b); !eqStrings(x, y) {
		e.Failf("connectivity", "connectivity differs:\n%s", diffStrings(x, y))
	}
}

// queryFingerprint runs a fixed set of queries.
func queryFingerprint(e *hx.Env, nav *detour.NavMesh) string {
	var b strings.Builder
	q := newQuery(nav, 64)
	f := detour.NewStandardQueryFilter()
	var pts [][]float32
	var refs []detour.PolyRef
	ext := []float32{1, 3, 1}
	for x := float32(0); x < 3; x++ {
		for z := float32(0); z < 3; z++ {
			p := []float32{nav.Orig[0] + (x+.3)*nav.TileWidth*.7, nav.Orig[1] + .2, nav.Orig[2] + (z+.3)*nav.TileHeight*.7}
			e.Step(1)
			st, r, np := q.FindNearestPoly(p, ext, f)
			fmt.Fprintf(&b, "%x %s %v|", uint32(st), refName(nav, r), np)
			if r != 0 {
				pts = append(pts, np)
				refs = append(refs, r)
			}
		}
	}
	path := make([]detour.PolyRef, 32)
	for i := range refs {
		for j := range refs {
			e.Step(1)
			n, st := q.FindPath(refs[i], refs[j], pts[i], pts[j], f, path)
			fmt.Fprintf(&b, "%x", uint32(st))
			for _, r := range path[:n] {
				b.WriteString(" " + refName(nav, r))
			}
		}
	}
	return b.String()
}

func writeMesh(e *hx.Env, nav *detour.NavMesh) []byte {
	var b bytes.Buffer
	e.Step(1)
	if err := nav.ToWriter(&b); err != nil {
		e.Failf("write-error", "ToWriter fails on a healthy writer: %v", err)
	}
	return b.Bytes()
}

func init() {
	hx.Register(&hx.Check{
		ID: "C04", Level: "model_checking",
		Rule: "every toggle history up to the depth over every tile content family, then save / load / compare everything / save again; the loaded mesh is then given every missing tile and every free slot is used; non-trivial when tiles are loaded",
		Spaces: func(thorough bool) []hx.Space {
			var out []hx.Space
			for _, w := range ioWorlds(thorough) {
				w := w
				K := len(w.defs)
				depth := map[int]int{4: 4, 5: 4, 6: 3, 9: 3}[K]
				if strings.HasPrefix(w.name, "rich") {
					depth = 4
				}
				if thorough {
					depth++
				}
				out = append(out, hx.Space{Name: w.name, N: countOps(K, depth) + 1, Bound: fmt.Sprintf("%d tiles, toggle sequences of length <= %d", K, depth),
					Run: func(e *hx.Env, i int64) {
						nav := w.newMesh()
						refs := make([]detour.TileRef, K)
						set := 0
						var ops []int
						if i > 0 {
							ops = decodeOps(i-1, K)
						}
						for _, k := range ops {
							set = w.toggle(e, nav, refs, set, k)
						}
						before := snapshot(nav)
						raw := writeMesh(e, nav)
						e.Assert(bytes.Equal(before, snapshot(nav)), "write-modifies", "saving changed the mesh")
						e.Assert(bytes.Equal(raw, writeMesh(e, nav)), "write-stable", "saving twice gives different bytes")
						e.Assert(int(nav.Size()) == len(raw), "size", "Size()=%d, %d bytes written", nav.Size(), len(raw))
						e.Step(1)
						nav2, err := detour.Decode(bytes.NewReader(raw))
						if err != nil || nav2 == nil {
							e.Failf("decode", "saved mesh {%s} does not load: %v", w.bitKey(set), err)
						}
						compareMeshes(e, nav, nav2)
						raw2 := writeMesh(e, nav2)
						nav3, err := detour.Decode(bytes.NewReader(raw2))
						if err != nil {
							e.Failf("decode2", "re-saved mesh does not load: %v", err)
						}
						e.Assert(bytes.Equal(raw2, writeMesh(e, nav3)), "fixpoint", "saving the loaded mesh is not stable")
						e.Assert(len(raw2) == len(raw), "size2", "saving the loaded mesh gives %d bytes, was %d", len(raw2), len(raw))
						if inSlotOrder(ops) {
							e.Assert(bytes.Equal(raw, raw2), "bytes", "saving the loaded mesh gives other bytes than the original")
						}
						// (load order decides ties between equally good answers)
						if inSlotOrder(ops) {
							x, y := queryFingerprint(e, nav), queryFingerprint(e, nav2)
							e.Assert(x == y, "queries", "queries differ after loading:\n%s\n%s", x, y)
						}
						// the loaded mesh goes on like the original
						if strings.HasPrefix(w.name, "rich") {
							nav3 = nav2
						}
						w.fillSlots(e, nav3)
						full := set
						for k := 0; k < K; k++ {
							if full&(1<<uint(k)) == 0 {
								full = w.toggle(e, nav3, refs, full, k)
							}
						}
						w.compare(e, nav3, full)
						for k := K - 1; k >= 0; k-- {
							_, st := nav3.RemoveTile(refs[k])
							e.Assert(detour.StatusSucceed(st), "remove-status", "removing tile %d from the loaded mesh gives status %x", k, uint32(st))
							if k > 0 {
								w.compare(e, nav3, 1<<uint(k)-1)
							}
						}
						w.fillSlots(e, nav3)
						if set != 0 {
							e.State(hx.HB(raw))
						}
						e.Outcome("%d bytes", len(raw)/1000*1000)
						e.Trace()
						if e.WantSample() {
							e.Sample("%s ops %v: %d bytes, loads back identical", w.name, ops, len(raw))
						}
					}})
			}
			out = append(out, hx.Space{Name: "dense", N: nDense, Batch: 1, Bound: "tiles of up to 1600 polygons whose detail surfaces have 0 to 251 own vertices and 1 to 255 triangles, three connections",
				Run: func(e *hx.Env, i int64) {
					nav, st := loadSingle(denseTile(i).data())
					e.Assert(detour.StatusSucceed(st), "dense", "InitForSingleTile: %x", uint32(st))
					raw := writeMesh(e, nav)
					e.Assert(int(nav.Size()) == len(raw), "size", "Size()=%d, %d bytes written", nav.Size(), len(raw))
					nav2, err := detour.Decode(bytes.NewReader(raw))
					e.Step(1)
					if err != nil {
						e.Failf("decode", "saved mesh does not load: %v", err)
					}
					compareMeshes(e, nav, nav2)
					e.Assert(bytes.Equal(raw, writeMesh(e, nav2)), "bytes", "saving the loaded mesh gives other bytes than the original")
					e.State(hx.HB(raw))
					e.Trace()
				}})
			out = append(out, valueSpace(), savedTables(), savedConnections(), savedReferences())
			return out
		},
	})
}

// leaf is one number of a tile that loading takes over as it is.
type leaf struct {
	path string
	v    reflect.Value
}

// leaves lists the numbers of a tile that do not say how to read the rest of
// it or what is connected to what.
func leaves(t *detour.MeshTile) []leaf {
	var out []leaf
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					walk(path+"."+f.Name, v.Field(i))
				}
			}
		case reflect.Array, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		default:
			out = append(out, leaf{path, v})
		}
	}
	h := reflect.ValueOf(t.Header).Elem()
	for _, f := range []string{"X", "Y", "Layer", "UserID", "WalkableHeight", "WalkableRadius", "WalkableClimb"} {
		walk("Header."+f, h.FieldByName(f))
	}
	for i := range t.Polys {
		p := reflect.ValueOf(&t.Polys[i]).Elem()
		for _, f := range []string{"Flags", "AreaAndType"} {
			walk(fmt.Sprintf("Polys[%d].%s", i, f), p.FieldByName(f))
		}
	}
	if len(t.OffMeshCons) == 0 {
		// (loading fits connections to the surface)
		walk("Verts", reflect.ValueOf(t.Verts))
		walk("DetailMeshes", reflect.ValueOf(t.DetailMeshes))
		walk("DetailTris", reflect.ValueOf(t.DetailTris))
		walk("BvTree", reflect.ValueOf(t.BvTree))
		walk("Header.BMin", h.FieldByName("BMin"))
		walk("Header.BMax", h.FieldByName("BMax"))
		walk("Header.BvQuantFactor", h.FieldByName("BvQuantFactor"))
	}
	walk("DetailVerts", reflect.ValueOf(t.DetailVerts))
	for i := range t.OffMeshCons {
		p := reflect.ValueOf(&t.OffMeshCons[i]).Elem()
		for _, f := range []string{"Pos", "Rad", "Flags", "Side", "UserID"} {
			walk(fmt.Sprintf("OffMeshCons[%d].%s", i, f), p.FieldByName(f))
		}
	}
	return out
}

func (l leaf) bits() uint64 {
	switch l.v.Kind() {
	case reflect.Float32:
		return uint64(math.Float32bits(float32(l.v.Float())))
	case reflect.Int32:
		return uint64(uint32(l.v.Int()))
	}
	return l.v.Uint()
}

// valueSpace saves and loads tiles with every value of one bit, and some of
// many, in every number they hold.
func valueSpace() hx.Space {
	patterns := []uint32{0, 0xffffffff, 0x7f7fffff, 0x80000000, 0x12345678, 0x3f800001}
	for b := 0; b < 32; b++ {
		patterns = append(patterns, 1<<uint(b), 0x3f000000^1<<uint(b))
	}
	return hx.Space{Name: "values", N: int64(4 * len(patterns)), Batch: 1,
		Bound: fmt.Sprintf("four tiles (tree and detail surface, connections) x every number in them x %d bit patterns", len(patterns)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			kind, pat := d.Next(4), patterns[d.Next(len(patterns))]
			g := newGrid(1, 1)
			g.TW, g.TH, g.S = 1, 1, 6
			td := richTile(g, 0, 0, []int{4, 3, 4 | 24, 3 | 24}[kind])
			nav, st := loadSingle(td.data())
			e.Assert(detour.StatusSucceed(st), "single", "InitForSingleTile: %x", uint32(st))
			t := &nav.Tiles[0]
			ls := leaves(t)
			for k := range ls {
				l := ls[k]
				old := reflect.ValueOf(l.v.Interface())
				switch l.v.Kind() {
				case reflect.Float32:
					f := math.Float32frombits(pat)
					if f != f {
						continue
					}
					l.v.SetFloat(float64(f))
				case reflect.Int32:
					l.v.SetInt(int64(int32(pat)))
				default:
					x := uint64(pat) & (1<<uint(l.v.Type().Bits()) - 1)
					if strings.HasSuffix(l.path, "AreaAndType") {
						x = x&63 | old.Uint()&^63
					}
					l.v.SetUint(x)
				}
				raw := writeMesh(e, nav)
				e.Step(1)
				e.Eval(1)
				back, err := detour.Decode(bytes.NewReader(raw))
				if err != nil {
					e.Failf("value-decode", "tile with %s = %v does not load: %v", l.path, l.v.Interface(), err)
				}
				var bt *detour.MeshTile
				for j := range back.Tiles {
					if back.Tiles[j].Header != nil {
						bt = &back.Tiles[j]
					}
				}
				if bt == nil {
					e.Failf("value-tile", "tile with %s = %v is not there after loading", l.path, l.v.Interface())
				}
				bl := leaves(bt)
				e.Assert(len(bl) == len(ls), "value-count", "tile with %s = %v has %d numbers, %d after loading", l.path, l.v.Interface(), len(ls), len(bl))
				for j := range bl {
					if bl[j].bits() != ls[j].bits() {
						e.Failf("value", "tile with %s = %v: %s is %v before, %v after", l.path, l.v.Interface(), ls[j].path, ls[j].v.Interface(), bl[j].v.Interface())
					}
				}
				e.Assert(kind >= 2 || bytes.Equal(raw, writeMesh(e, back)), "value-bytes", "tile with %s = %v: saving the loaded mesh gives other bytes", l.path, l.v.Interface())
				l.v.Set(old)
			}
			e.State(hx.H("values", i))
			e.Trace()
		}}
}

// inSlotOrder: only additions (so slots are in load order).
func inSlotOrder(ops []int) bool {
	seen := map[int]bool{}
	for _, k := range ops {
		if seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

// ---- C05: reader faults

// scriptReader delivers data according to a plan.
type scriptReader struct {
	data    []byte
	pos     int
	chunk   func(pos, want int) int // bytes to deliver at pos
	failAt  int                     // -1: never; error once pos reaches it
	failErr error
	withErr bool // return the final error together with the last bytes
	zeroAt  int  // deliver (0, nil) once when pos reaches it; -1 never
	reads   int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	if r.reads++; r.reads > 1<<20 {
		panic("reader called endlessly")
	}
	end, err := len(r.data), io.EOF
	if r.failAt >= 0 && r.failAt < end {
		end, err = r.failAt, r.failErr
	}
	if r.pos >= end {
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.zeroAt == r.pos {
		r.zeroAt = -1
		return 0, nil
	}
	n := len(p)
	if r.chunk != nil {
		if c := r.chunk(r.pos, n); c < n {
			n = c
		}
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	if n < 1 {
		n = 1
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.withErr && r.pos == end {
		return n, err
	}
	return n, nil
}

var errScript = errors.New("scripted reader error")

type ioCase struct {
	name string
	w    *tileWorld
	set  int
	raw  []byte
	ref  *detour.NavMesh
	snap []byte
}

func ioCases(thorough bool) []*ioCase {
	var out []*ioCase
	ws := ioWorlds(false)
	var pick []int
	for _, n := range []string{"offmesh", "rich28", "rich31", "rich03", "layers"} {
		for k := range ws {
			if ws[k].name == n {
				pick = append(pick, k)
			}
		}
	}
	if thorough {
		pick = nil
		for k := range ws {
			pick = append(pick, k)
		}
	}
	for _, k := range pick {
		w := ws[k]
		for _, set := range []int{1<<uint(len(w.defs)) - 1, 1, 6, 0} {
			out = append(out, &ioCase{name: fmt.Sprintf("%s/%x", w.name, set), w: w, set: set})
		}
	}
	return out
}

func (c *ioCase) load() {
	if c.raw != nil {
		return
	}
	nav := c.w.newMesh()
	for k := len(c.w.defs) - 1; k >= 0; k-- {
		if c.set&(1<<uint(k)) != 0 {
			if st, _ := nav.AddTile(c.w.data[k], 0); detour.StatusFailed(st) {
				panic("AddTile")
			}
		}
	}
	var b bytes.Buffer
	if err := nav.ToWriter(&b); err != nil {
		panic(err)
	}
	c.raw = b.Bytes()
	ref, err := detour.Decode(bytes.NewReader(c.raw))
	if err != nil {
		panic(err)
	}
	c.ref = ref
	c.snap = snapshot(ref)
}

func (c *ioCase) size() int {
	c.load()
	return len(c.raw)
}

func (c *ioCase) decode(e *hx.Env, key string, r *scriptReader, wantOK bool, what string) {
	e.Eval(1)
	e.Step(1)
	e.Note("%s %s", c.name, what)
	nav, err := detour.Decode(r)
	e.State(hx.H(c.name, key, r.pos, r.reads, err != nil, wantOK))
	if !wantOK {
		if err == nil {
			e.Failf(key, "%s: %s: no error", c.name, what)
		}
		if nav != nil {
			e.Failf(key+"-mesh", "%s: %s: a mesh is returned along with the error", c.name, what)
		}
		e.Outcome(key + " error")
		return
	}
	if err != nil {
		e.Failf(key, "%s: %s: error %v", c.name, what, err)
	}
	if !bytes.Equal(snapshot(nav), c.snap) {
		e.Failf(key+"-differs", "%s: %s: the mesh differs from that of an undivided read", c.name, what)
	}
	e.Outcome(key + " same mesh")
}

func init() {
	hx.Register(&hx.Check{
		ID: "C05", Level: "fault_enumeration",
		Rule: "every delivery plan of the reader: chunk sizes, one split at every byte, data together with io.EOF, an empty read at every byte, and truncation or an error at every byte; distinct = distinct (mesh, plan kind, bytes consumed, reads, outcome)",
		Spaces: func(thorough bool) []hx.Space {
			var out []hx.Space
			for _, c := range ioCases(thorough) {
				c := c
				size := c.size()
				out = append(out, hx.Space{Name: c.name, N: int64(size + 1), Bound: fmt.Sprintf("%d byte stream; split, cut, error and empty read at every offset; chunk size = offset+1", size),
					Run: func(e *hx.Env, i int64) {
						off := int(i)
						full := func() *scriptReader { return &scriptReader{data: c.raw, failAt: -1, zeroAt: -1} }
						// chunk size off+1
						r := full()
						r.chunk = func(pos, want int) int { return off + 1 }
						c.decode(e, "chunks", r, true, fmt.Sprintf("chunks of %d bytes", off+1))
						// a single split at off
						r = full()
						r.chunk = func(pos, want int) int {
							if pos < off {
								return off - pos
							}
							return want
						}
						c.decode(e, "split", r, true, fmt.Sprintf("split at byte %d", off))
						r.withErr = true
						r = full()
						r.withErr = true
						r.chunk = func(pos, want int) int {
							if pos < off {
								return off - pos
							}
							return want
						}
						c.decode(e, "split-eof", r, true, fmt.Sprintf("split at byte %d, last bytes together with EOF", off))
						r = full()
						r.zeroAt = off
						r.chunk = func(pos, want int) int {
							if pos < off {
								return off - pos
							}
							return want
						}
						c.decode(e, "empty-read", r, true, fmt.Sprintf("an empty read at byte %d", off))
						if off < size {
							for _, we := range []bool{false, true} {
								r = &scriptReader{data: c.raw[:off], failAt: -1, zeroAt: -1, withErr: we}
								c.decode(e, "truncated", r, false, fmt.Sprintf("truncated to %d bytes (EOF with data %v)", off, we))
								r = full()
								r.failAt, r.failErr, r.withErr = off, errScript, we
								c.decode(e, "error", r, false, fmt.Sprintf("error at byte %d (with data %v)", off, we))
								r = full()
								r.failAt, r.failErr, r.withErr = off, errScript, we
								r.chunk = func(pos, want int) int { return 3 }
								c.decode(e, "error", r, false, fmt.Sprintf("error at byte %d, chunks of 3", off))
							}
						} else {
							// trailing bytes after the mesh are not consumed as mesh
							r = &scriptReader{data: append(append([]byte(nil), c.raw...), 1, 2, 3, 4, 5, 6, 7, 8, 9), failAt: -1, zeroAt: -1}
							c.decode(e, "trailing", r, true, "trailing bytes")
						}
						e.Trace()
						if e.WantSample() {
							e.Sample("%s offset %d of %d: same mesh or error for every plan", c.name, off, size)
						}
					}})
			}
			// wrong magic / version / limits in the file header
			cs := ioCases(false)
			out = append(out, hx.Space{Name: "header", N: 8 * 255, Bound: "every byte value xor in the magic and version words",
				Run: func(e *hx.Env, i int64) {
					c := cs[0]
					c.load()
					raw := append([]byte(nil), c.raw...)
					raw[i%8] ^= byte(1 + i/8)
					c.decode(e, "header", &scriptReader{data: raw, failAt: -1, zeroAt: -1}, false, fmt.Sprintf("header byte %d changed", i%8))
				}})
			// tiles that are no tiles, incomplete, or there twice
			all := ioCases(thorough)
			out = append(out, hx.Space{Name: "records", N: int64(len(all)), Batch: 1, Bound: "for each tile of each stream: every byte value xor in its magic and version words, data sizes shortened by 1 to 40 and negative ones, counts raised, the tile a second time in each place; one tile more announced",
				Run: func(e *hx.Env, i int64) {
					c := all[i]
					c.load()
					refuse := func(raw []byte, format string, a ...any) {
						c.decode(e, "record", &scriptReader{data: raw, failAt: -1, zeroAt: -1}, false, fmt.Sprintf(format, a...))
					}
					var recs [][]byte
					var starts []int
					for off := 40; off < len(c.raw); {
						n := 8 + int(binary.LittleEndian.Uint32(c.raw[off+4:]))
						recs, starts = append(recs, c.raw[off:off+n]), append(starts, off)
						off += n
					}
					if n := int(binary.LittleEndian.Uint32(c.raw[8:])); n != len(recs) {
						e.Failf("record-count", "%s: %d tiles announced, %d there", c.name, n, len(recs))
					}
					more := append([]byte(nil), c.raw...)
					binary.LittleEndian.PutUint32(more[8:], uint32(len(recs)+1))
					refuse(more, "one more tile announced")
					for k, off := range starts {
						for b := 0; b < 8; b++ {
							for x := 1; x < 256; x++ {
								raw := append([]byte(nil), c.raw...)
								raw[off+8+b] ^= byte(x)
								refuse(raw, "byte %d of tile %d changed", b, k)
							}
						}
						for cut := 1; cut <= 40; cut++ {
							raw := append([]byte(nil), c.raw[:off]...)
							raw = append(raw, recs[k][:len(recs[k])-cut]...)
							raw = append(raw, c.raw[off+len(recs[k]):]...)
							binary.LittleEndian.PutUint32(raw[off+4:], uint32(len(recs[k])-8-cut))
							refuse(raw, "tile %d shortened by %d", k, cut)
						}
						for _, v := range []uint32{1 << 31, 1<<32 - 1, 1, 99} {
							raw := append([]byte(nil), c.raw...)
							binary.LittleEndian.PutUint32(raw[off+4:], v)
							refuse(raw, "size of tile %d is %d", k, int32(v))
						}
						for _, f := range []int{24, 28, 32, 36, 40, 44, 48, 52} {
							raw := append([]byte(nil), c.raw...)
							at := off + 8 + f
							n := binary.LittleEndian.Uint32(raw[at:])
							binary.LittleEndian.PutUint32(raw[at:], n+1)
							refuse(raw, "count at %d of tile %d raised", f, k)
						}
						for j := k; j < len(starts); j++ {
							at := starts[j] + len(recs[j])
							raw := append([]byte(nil), more[:at]...)
							raw = append(raw, recs[k]...)
							raw = append(raw, c.raw[at:]...)
							refuse(raw, "tile %d again after tile %d", k, j)
						}
					}
					e.Trace()
				}})
			return out
		},
	})
}

// ---- C06: writer faults

type scriptWriter struct {
	buf    []byte
	failAt int // byte offset at which the write fails; -1 never
	call   int // call number that fails outright; -1 never
	calls  int
	sticky bool // keep failing afterwards
	failed bool
}

var errWrite = errors.New("scripted writer error")

func (w *scriptWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed && w.sticky {
		return 0, errWrite
	}
	if w.call >= 0 && w.calls-1 == w.call {
		w.failed = true
		return 0, errWrite
	}
	if w.failAt >= 0 && !w.failed && len(w.buf)+len(p) > w.failAt {
		n := w.failAt - len(w.buf)
		w.buf = append(w.buf, p[:n]...)
		w.failed = true
		return n, errWrite
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func openFDs() map[string]bool {
	out := map[string]bool{}
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil {
			out[d.Name()+" "+l] = true
		}
	}
	return out
}

func init() {
	hx.Register(&hx.Check{
		ID: "C06", Level: "fault_enumeration",
		Rule: "a writer failing at every byte offset and at every call, recovering or not afterwards, for every mesh of the family; files that can not be created, full devices, existing files; distinct = distinct (mesh, fault, bytes delivered)",
		Spaces: func(thorough bool) []hx.Space {
			var out []hx.Space
			for _, c := range ioCases(thorough) {
				c := c
				size := c.size()
				out = append(out, hx.Space{Name: c.name, N: int64(size + 2), Bound: fmt.Sprintf("%d byte stream; failure at every byte, with and without recovery", size),
					Run: func(e *hx.Env, i int64) {
						for _, sticky := range []bool{false, true} {
							w := &scriptWriter{failAt: int(i), call: -1, sticky: sticky}
							e.Eval(1)
							e.Step(1)
							err := c.ref.ToWriter(w)
							e.State(hx.H(c.name, i, sticky, len(w.buf), err != nil))
							if int(i) >= size {
								e.Assert(err == nil, "write-ok", "%s: healthy writer, error %v", c.name, err)
								e.Assert(bytes.Equal(w.buf, c.raw), "write-bytes", "%s: written bytes differ", c.name)
								e.Outcome("complete")
							} else {
								e.Assert(err != nil, "write-error", "%s: write failing at byte %d (later writes fail: %v) is not reported", c.name, i, sticky)
								e.Assert(len(w.buf) >= int(i) && bytes.Equal(w.buf[:i], c.raw[:i]), "write-prefix", "%s: delivered bytes differ", c.name)
								e.Outcome("error reported")
							}
						}
						w := &scriptWriter{failAt: -1, call: int(i)}
						if err := c.ref.ToWriter(w); w.failed {
							e.Assert(err != nil, "call-error", "%s: failing write call %d is not reported", c.name, i)
						}
						if i%64 == 0 {
							e.Assert(bytes.Equal(snapshot(c.ref), c.snap), "write-modifies", "%s: saving modified the mesh", c.name)
						}
						e.Trace()
						if e.WantSample() {
							e.Sample("%s: writer failing at byte %d of %d: error reported, mesh unchanged", c.name, i, size)
						}
					}})
			}
			cs := ioCases(false)
			out = append(out, hx.Space{Name: "files", N: int64(len(cs) * 7), Bound: "file scenarios: new, existing longer, existing shorter, missing directory, directory in the way, full device, empty name", Batch: 1,
				Run: func(e *hx.Env, i int64) {
					c := cs[int(i)%len(cs)]
					c.load()
					dir, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "c06")
					if err != nil {
						panic(err)
					}
					defer os.RemoveAll(dir)
					fn := filepath.Join(dir, "mesh.bin")
					scen := int(i) / len(cs)
					wantErr := false
					switch scen {
					case 1:
						os.WriteFile(fn, bytes.Repeat([]byte{7}, len(c.raw)+1000), 0o644)
					case 2:
						os.WriteFile(fn, []byte("short"), 0o644)
					case 3:
						fn, wantErr = filepath.Join(dir, "no", "such", "dir", "mesh.bin"), true
					case 4:
						os.Mkdir(fn, 0o755)
						wantErr = true
					case 5:
						fn, wantErr = "/dev/full", true
					case 6:
						fn, wantErr = "", true
					}
					e.Eval(1)
					e.Step(1)
					e.State(hx.H("files", i))
					before := openFDs()
					err = c.ref.SaveToFile(fn)
					after := openFDs()
					for k := range after {
						if !before[k] && (strings.Contains(k, dir) || strings.Contains(k, "/dev/full")) {
							e.Failf("fd-leak", "SaveToFile leaves the file open: %s", k)
						}
					}
					e.Assert((err != nil) == wantErr, "file-error", "scenario %d: error %v, want error %v", scen, err, wantErr)
					if !wantErr {
						got, rerr := os.ReadFile(fn)
						e.Assert(rerr == nil && bytes.Equal(got, c.raw), "file-bytes", "scenario %d: the file has %d bytes, want exactly the %d of the mesh", scen, len(got), len(c.raw))
						var size [4]byte
						binary.LittleEndian.PutUint32(size[:], uint32(len(got)))
						e.Assert(int(c.ref.Size()) == len(got), "file-size", "Size()=%d, file %d", c.ref.Size(), len(got))
					}
					e.Assert(bytes.Equal(snapshot(c.ref), c.snap), "write-modifies", "saving modified the mesh")
					e.Outcome("file scenario %d", scen)
				}})
			return out
		},
	})
}
