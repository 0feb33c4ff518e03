package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// Synthetic navigation meshes. Everything here builds the *input* of the code
// under test (CreateNavMeshData parameters); nothing is taken from it.

const (
	null32  = 0xffffffff
	extFlag = 0x8000
)

// polyDef is a convex polygon in voxel coordinates relative to its tile, in
// the vertex order Recast produces: (x0,z0) (x0,z1) (x1,z1) (x1,z0).
type polyDef struct {
	v     [][3]int
	area  uint8
	flags uint16
	// dv are additional detail vertices (world coordinates relative to the
	// tile, in voxels); tris index v then dv. nil: triangle fan.
	dv   [][3]float32
	tris [][3]uint8
}

type offDef struct {
	a, b  [3]float32
	rad   float32
	flags uint16
	area  uint8
	bidir uint8
	id    uint32
}

type tileDef struct {
	x, y, layer int
	userID      uint32
	w, h        int // size in voxels
	polys       []polyDef
	offs        []offDef
	bmin        [3]float32
	ymax        float32 // height of the bounds (world units above bmin[1]); 0: 20
	cs, ch      float32
	climb       float32
	noBV        bool
	noDetail    bool
	nw          [][]uint16 // neighbour words, computed when nil
}

func quad(x0, z0, x1, z1, y int, area uint8, flags uint16) polyDef {
	return polyDef{v: [][3]int{{x0, y, z0}, {x0, y, z1}, {x1, y, z1}, {x1, y, z0}}, area: area, flags: flags}
}

func (t *tileDef) bmax() [3]float32 {
	ym := t.ymax
	if ym == 0 {
		ym = 20
	}
	return [3]float32{t.bmin[0] + float32(t.w)*t.cs, t.bmin[1] + ym, t.bmin[2] + float32(t.h)*t.cs}
}

// neis computes the neighbour words of every polygon of the tile: interior
// adjacency through shared edges, portals on the tile bounds.
func (t *tileDef) neis() [][]uint16 {
	if t.nw != nil {
		return t.nw
	}
	type edge struct{ a, b [3]int }
	own := map[edge]int{}
	for i, p := range t.polys {
		for j := range p.v {
			own[edge{p.v[j], p.v[(j+1)%len(p.v)]}] = i
		}
	}
	out := make([][]uint16, len(t.polys))
	for i, p := range t.polys {
		out[i] = make([]uint16, len(p.v))
		for j := range p.v {
			a, b := p.v[j], p.v[(j+1)%len(p.v)]
			n := uint16(0xffff)
			if k, ok := own[edge{b, a}]; ok && k != i {
				n = uint16(k)
			} else if a[0] == 0 && b[0] == 0 {
				n = 0x8000
			} else if a[2] == t.h && b[2] == t.h {
				n = 0x8001
			} else if a[0] == t.w && b[0] == t.w {
				n = 0x8002
			} else if a[2] == 0 && b[2] == 0 {
				n = 0x8003
			}
			out[i][j] = n
		}
	}
	return out
}

func (t *tileDef) params() *detour.NavMeshCreateParams {
	const nvp = 6
	p := &detour.NavMeshCreateParams{Nvp: nvp}
	vidx := map[[3]int]uint16{}
	vert := func(v [3]int) uint16 {
		if i, ok := vidx[v]; ok {
			return i
		}
		i := uint16(len(vidx))
		vidx[v] = i
		p.Verts = append(p.Verts, uint16(v[0]), uint16(v[1]), uint16(v[2]))
		return i
	}
	neis := t.neis()
	for i, d := range t.polys {
		row := make([]uint16, 2*nvp)
		for j := range row {
			row[j] = 0xffff
		}
		for j, v := range d.v {
			row[j] = vert(v)
			row[nvp+j] = neis[i][j]
		}
		p.Polys = append(p.Polys, row...)
		p.PolyFlags = append(p.PolyFlags, d.flags)
		p.PolyAreas = append(p.PolyAreas, d.area)
		if !t.noDetail {
			vb := int32(len(p.DetailVerts) / 3)
			for _, v := range d.v {
				p.DetailVerts = append(p.DetailVerts, t.bmin[0]+float32(v[0])*t.cs, t.bmin[1]+float32(v[1])*t.ch, t.bmin[2]+float32(v[2])*t.cs)
			}
			for _, v := range d.dv {
				p.DetailVerts = append(p.DetailVerts, t.bmin[0]+v[0]*t.cs, t.bmin[1]+v[1]*t.ch, t.bmin[2]+v[2]*t.cs)
			}
			tb := int32(len(p.DetailTris) / 4)
			if d.tris == nil {
				for j := 2; j < len(d.v); j++ {
					fl := uint8(1 << 2)
					if j == 2 {
						fl |= 1
					}
					if j == len(d.v)-1 {
						fl |= 1 << 4
					}
					p.DetailTris = append(p.DetailTris, 0, uint8(j-1), uint8(j), fl)
				}
			} else {
				for _, tr := range d.tris {
					p.DetailTris = append(p.DetailTris, tr[0], tr[1], tr[2], 0)
				}
			}
			nt := int32(len(p.DetailTris)/4) - tb
			p.DetailMeshes = append(p.DetailMeshes, vb, int32(len(d.v)+len(d.dv)), tb, nt)
		}
	}
	p.VertCount = int32(len(vidx))
	p.PolyCount = int32(len(t.polys))
	p.DetailVertsCount = int32(len(p.DetailVerts) / 3)
	p.DetailTriCount = int32(len(p.DetailTris) / 4)
	for _, o := range t.offs {
		p.OffMeshConVerts = append(p.OffMeshConVerts, o.a[0], o.a[1], o.a[2], o.b[0], o.b[1], o.b[2])
		p.OffMeshConRad = append(p.OffMeshConRad, o.rad)
		p.OffMeshConFlags = append(p.OffMeshConFlags, o.flags)
		p.OffMeshConAreas = append(p.OffMeshConAreas, o.area)
		p.OffMeshConDir = append(p.OffMeshConDir, o.bidir)
		p.OffMeshConUserID = append(p.OffMeshConUserID, o.id)
	}
	p.OffMeshConCount = int32(len(t.offs))
	p.UserID = t.userID
	p.TileX, p.TileY, p.TileLayer = int32(t.x), int32(t.y), int32(t.layer)
	p.BMin, p.BMax = t.bmin, t.bmax()
	p.WalkableHeight, p.WalkableRadius, p.WalkableClimb = 2, 0.5, t.climb
	p.Cs, p.Ch = t.cs, t.ch
	p.BuildBvTree = !t.noBV
	return p
}

func (t *tileDef) data() []byte {
	b, err := detour.CreateNavMeshData(t.params())
	if err != nil {
		panic(fmt.Sprintf("CreateNavMeshData: %v", err))
	}
	return b
}

// vertW is polygon vertex j of polygon i in world coordinates.
func (t *tileDef) vertW(i, j int) [3]float32 {
	v := t.polys[i].v[j]
	return [3]float32{t.bmin[0] + float32(v[0])*t.cs, t.bmin[1] + float32(v[1])*t.ch, t.bmin[2] + float32(v[2])*t.cs}
}

// ---- grid worlds

type cell struct {
	present bool
	area    uint8
	flags   uint16
	y       int
}

// gridWorld is a W x H array of square cells, each cell one polygon, cut into
// tiles of TW x TH cells.
type gridWorld struct {
	W, H   int
	cells  []cell // W*H, index z*W+x
	TW, TH int
	S      int // voxels per cell
	orig   [3]float32
	cs, ch float32
	climb  float32
	noBV   bool
	noDet  bool
	offs   []offDef // given to every tile (the tile keeps those starting in it)
	max    int      // max tiles (0: number of tiles)
	maxP   int
}

func newGrid(w, h int) *gridWorld {
	g := &gridWorld{W: w, H: h, TW: w, TH: h, S: 2, cs: 0.5, ch: 0.25, climb: 0.6, orig: [3]float32{-3, 1, 2}}
	g.cells = make([]cell, w*h)
	for i := range g.cells {
		g.cells[i] = cell{present: true, flags: 1}
	}
	return g
}

func (g *gridWorld) at(x, z int) *cell { return &g.cells[z*g.W+x] }

func (g *gridWorld) cellSize() float32 { return float32(g.S) * g.cs }

// tiles returns the non-empty tile definitions, by tile row.
func (g *gridWorld) tiles() []*tileDef {
	var out []*tileDef
	for ty := 0; ty*g.TH < g.H; ty++ {
		for tx := 0; tx*g.TW < g.W; tx++ {
			if t := g.tile(tx, ty); t != nil {
				out = append(out, t)
			}
		}
	}
	return out
}

func (g *gridWorld) tile(tx, ty int) *tileDef {
	t := &tileDef{x: tx, y: ty, w: g.TW * g.S, h: g.TH * g.S, cs: g.cs, ch: g.ch, climb: g.climb, noBV: g.noBV, noDetail: g.noDet}
	t.bmin = [3]float32{g.orig[0] + float32(tx*g.TW)*g.cellSize(), g.orig[1], g.orig[2] + float32(ty*g.TH)*g.cellSize()}
	t.userID = uint32(1000 + ty*100 + tx)
	t.offs = g.offs
	for z := 0; z < g.TH; z++ {
		for x := 0; x < g.TW; x++ {
			gx, gz := tx*g.TW+x, ty*g.TH+z
			if gx >= g.W || gz >= g.H {
				continue
			}
			c := g.at(gx, gz)
			if !c.present {
				continue
			}
			t.polys = append(t.polys, quad(x*g.S, z*g.S, (x+1)*g.S, (z+1)*g.S, c.y, c.area, c.flags))
		}
	}
	if len(t.polys) == 0 {
		return nil
	}
	return t
}

func (g *gridWorld) navParams(ntiles int) *detour.NavMeshParams {
	p := &detour.NavMeshParams{Orig: g.orig, TileWidth: float32(g.TW) * g.cellSize(), TileHeight: float32(g.TH) * g.cellSize()}
	p.MaxTiles = uint32(ntiles)
	if g.max > 0 {
		p.MaxTiles = uint32(g.max)
	}
	p.MaxPolys = 1 << 14
	if p.MaxTiles > 256 {
		p.MaxPolys = 64
	}
	if g.maxP > 0 {
		p.MaxPolys = uint32(g.maxP)
	}
	return p
}

// gridMesh is a loaded grid world with the mapping between cells and polygons.
type gridMesh struct {
	g    *gridWorld
	nav  *detour.NavMesh
	ref  []detour.PolyRef // per cell; 0: absent
	cell map[detour.PolyRef]int
}

func (g *gridWorld) build() *gridMesh {
	ts := g.tiles()
	n := len(ts)
	if n == 0 {
		n = 1
	}
	m := &gridMesh{g: g, nav: &detour.NavMesh{}, ref: make([]detour.PolyRef, g.W*g.H), cell: map[detour.PolyRef]int{}}
	if st := m.nav.Init(g.navParams(n)); detour.StatusFailed(st) {
		panic(fmt.Sprintf("Init: %x", uint32(st)))
	}
	for _, t := range ts {
		st, ref := m.nav.AddTile(t.data(), 0)
		if detour.StatusFailed(st) {
			panic(fmt.Sprintf("AddTile: %x", uint32(st)))
		}
		m.mapTile(t.x, t.y, ref)
	}
	return m
}

func (m *gridMesh) mapTile(tx, ty int, ref detour.TileRef) {
	g := m.g
	ip := 0
	for z := 0; z < g.TH; z++ {
		for x := 0; x < g.TW; x++ {
			gx, gz := tx*g.TW+x, ty*g.TH+z
			if gx >= g.W || gz >= g.H || !g.at(gx, gz).present {
				continue
			}
			r := detour.PolyRef(ref) | detour.PolyRef(ip)
			m.ref[gz*g.W+gx] = r
			m.cell[r] = gz*g.W + gx
			ip++
		}
	}
}

// pos is the point at fraction (fx,fz) of cell (x,z).
func (g *gridWorld) pos(x, z int, fx, fz float32) d3.Vec3 {
	y := float32(0)
	if x >= 0 && z >= 0 && x < g.W && z < g.H {
		y = float32(g.at(x, z).y) * g.ch
	}
	return d3.Vec3{g.orig[0] + (float32(x)+fx)*g.cellSize(), g.orig[1] + y, g.orig[2] + (float32(z)+fz)*g.cellSize()}
}

func (g *gridWorld) center(c int) d3.Vec3 { return g.pos(c%g.W, c/g.W, 0.5, 0.5) }

// neighbours of a cell: cells sharing an edge with compatible heights.
func (g *gridWorld) neighbours(c int, ok func(int) bool) []int {
	var out []int
	x, z := c%g.W, c/g.W
	for _, d := range [4][2]int{{-1, 0}, {0, 1}, {1, 0}, {0, -1}} {
		nx, nz := x+d[0], z+d[1]
		if nx < 0 || nz < 0 || nx >= g.W || nz >= g.H {
			continue
		}
		n := nz*g.W + nx
		if g.cells[n].present && (ok == nil || ok(n)) {
			out = append(out, n)
		}
	}
	return out
}

func (g *gridWorld) adjacent(a, b int) bool {
	for _, n := range g.neighbours(a, nil) {
		if n == b {
			return true
		}
	}
	return false
}

// reach computes BFS distances from s over cells accepted by ok.
func (g *gridWorld) reach(s int, ok func(int) bool) []int {
	d := make([]int, len(g.cells))
	for i := range d {
		d[i] = -1
	}
	d[s] = 0
	q := []int{s}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		for _, n := range g.neighbours(c, ok) {
			if d[n] < 0 {
				d[n] = d[c] + 1
				q = append(q, n)
			}
		}
	}
	return d
}

// ---- observation of meshes

// neighboursOf lists the references poly is linked to, sorted.
func linksOf(nav *detour.NavMesh, ref detour.PolyRef) []detour.PolyRef {
	var t *detour.MeshTile
	var p *detour.Poly
	nav.TileAndPolyByRefUnsafe(ref, &t, &p)
	var out []detour.PolyRef
	n := 0
	for l := p.FirstLink; l != null32; l = t.Links[l].Next {
		out = append(out, t.Links[l].Ref)
		if n++; n > 10000 {
			panic("endless link list")
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// refName gives a load-history independent name to a polygon reference.
func refName(nav *detour.NavMesh, ref detour.PolyRef) string {
	if ref == 0 {
		return "0"
	}
	var salt, it, ip uint32
	nav.DecodePolyID(ref, &salt, &it, &ip)
	if int(it) >= len(nav.Tiles) || nav.Tiles[it].Header == nil || nav.Tiles[it].Salt != salt {
		return fmt.Sprintf("dangling(%x)", uint32(ref))
	}
	h := nav.Tiles[it].Header
	if ip >= uint32(h.PolyCount) {
		return fmt.Sprintf("badpoly(%x)", uint32(ref))
	}
	return fmt.Sprintf("%d,%d,%d:%d", h.X, h.Y, h.Layer, ip)
}

// connectivity describes all links of all loaded tiles by position, in a form
// that does not depend on salts, slots or link order.
func connectivity(nav *detour.NavMesh) []string {
	var out []string
	for i := range nav.Tiles {
		t := &nav.Tiles[i]
		if t.Header == nil {
			continue
		}
		h := t.Header
		used := 0
		for ip := range t.Polys {
			p := &t.Polys[ip]
			n := 0
			for l := p.FirstLink; l != null32; l = t.Links[l].Next {
				k := &t.Links[l]
				out = append(out, fmt.Sprintf("%d,%d,%d:%d -> %s edge %d side %d [%d,%d]", h.X, h.Y, h.Layer, ip, refName(nav, k.Ref), k.Edge, k.Side, k.BMin, k.BMax))
				used++
				if n++; n > len(t.Links) {
					out = append(out, fmt.Sprintf("%d,%d,%d:%d endless links", h.X, h.Y, h.Layer, ip))
					break
				}
			}
		}
		free := 0
		for l := t.LinksFreeList; l != null32; l = t.Links[l].Next {
			if free++; free > len(t.Links) {
				break
			}
		}
		if used+free != len(t.Links) {
			out = append(out, fmt.Sprintf("%d,%d,%d: %d links used, %d free of %d", h.X, h.Y, h.Layer, used, free, len(t.Links)))
		}
	}
	sort.Strings(out)
	return out
}

// snapshot is a deep textual/binary image of everything observable in a mesh.
func snapshot(nav *detour.NavMesh) []byte {
	var b bytes.Buffer
	w := func(v interface{}) { binary.Write(&b, binary.LittleEndian, v) }
	fmt.Fprintf(&b, "%v %v %v %v %v %v %v|", nav.Params, nav.Orig, nav.TileWidth, nav.TileHeight, nav.MaxTiles, nav.TileLUTSize, nav.TileLUTMask)
	for i := range nav.Tiles {
		t := &nav.Tiles[i]
		fmt.Fprintf(&b, "T%d salt %d flags %d size %d free %d next %d|", i, t.Salt, t.Flags, t.DataSize, t.LinksFreeList, tileIndexOf(nav, t.Next))
		if t.Header == nil {
			continue
		}
		w(*t.Header)
		w(t.Polys)
		w(t.Verts)
		w(t.Links)
		w(t.DetailMeshes)
		w(t.DetailVerts)
		w(t.DetailTris)
		w(t.BvTree)
		for _, o := range t.OffMeshCons {
			w(o)
		}
		b.Write(t.Data)
	}
	return b.Bytes()
}

func tileIndexOf(nav *detour.NavMesh, t *detour.MeshTile) int {
	for i := range nav.Tiles {
		if &nav.Tiles[i] == t {
			return i
		}
	}
	return -1
}

func diffStrings(a, b []string) string {
	am, bm := map[string]int{}, map[string]int{}
	for _, s := range a {
		am[s]++
	}
	for _, s := range b {
		bm[s]++
	}
	out := ""
	for _, s := range a {
		if am[s] > bm[s] {
			out += "- " + s + "\n"
			am[s]--
		}
	}
	for _, s := range b {
		if bm[s] > am[s] {
			out += "+ " + s + "\n"
			bm[s]--
		}
	}
	if len(out) > 1500 {
		out = out[:1500]
	}
	return out
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// try calls f and returns the panic value, if any.
func try(f func()) (err interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case interface{ HxSignal() }:
				panic(r)
			}
			err = r
		}
	}()
	f()
	return nil
}

func newQuery(nav *detour.NavMesh, nodes int32) *detour.NavMeshQuery {
	st, q := detour.NewNavMeshQuery(nav, nodes)
	if detour.StatusFailed(st) || q == nil {
		panic(fmt.Sprintf("NewNavMeshQuery: %x", uint32(st)))
	}
	return q
}

func vecStr(v []float32) string {
	if len(v) < 3 {
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("(%g %g %g)", v[0], v[1], v[2])
}

func near(a, b, eps float32) bool { return float32(math.Abs(float64(a-b))) <= eps }

func near3(a, b []float32, eps float32) bool {
	return near(a[0], b[0], eps) && near(a[1], b[1], eps) && near(a[2], b[2], eps)
}

// permutations of 0..n-1 by index.
func permutation(n int, k int) []int {
	items := make([]int, n)
	for i := range items {
		items[i] = i
	}
	out := make([]int, 0, n)
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	for i := n - 1; i >= 0; i-- {
		j := 0
		if f > 0 {
			j = k / f
			k %= f
		}
		out = append(out, items[j])
		items = append(items[:j], items[j+1:]...)
		if i > 0 {
			f /= i
		}
	}
	return out
}

func factorial(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}
