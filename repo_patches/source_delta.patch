From c35b73483565d83f29ae1cc2cc082b910ca02450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/51] fix: AddTile reports a missing slot instead of ending
 the program

---
 detour/mesh.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 82ac9ca..f6e1b57 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -4,7 +4,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"log"
 	"math"
 	"os"
 	"unsafe"
@@ -336,7 +335,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-			log.Fatalln("tileIndex >= m.m_maxTiles", tileIndex, m.MaxTiles)
 			return Failure | OutOfMemory, 0
 		}
 		// Try to find the specific tile id from the free list.
@@ -349,7 +347,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		}
 		// Could not find the correct location.
 		if tile != target {
-			log.Fatalln("couldn't find the correct tile location")
 			return Failure | OutOfMemory, 0
 		}
 		// Remove from freelist
@@ -365,7 +362,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Make sure we could allocate a tile.
 	if tile == nil {
-		log.Fatalln("couldn't allocate tile")
 		return Failure | OutOfMemory, 0
 	}
 
-- 
2.43.0


From 32e068dfbb10cfe2d1fcb4455f8f047143a2f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 02/51] fix: RemoveTile refuses references to free slots
 instead of crashing

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index f6e1b57..2122c32 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -456,7 +456,7 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 		return data, Failure | InvalidParam
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return data, Failure | InvalidParam
 	}
 	if tile.Data != nil {
-- 
2.43.0


From 59dbf32387565c9dff22885a5cfc899d30a4566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 03/51] fix: NewNavMeshQuery accepts every node limit within
 its bounds and refuses the others

---
 detour/query.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 1dd9e18..9e1d918 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -109,7 +109,7 @@ func newQueryData() queryData {
 // functions are used.
 // This function can be used multiple times.
 func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
-	if maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
+	if maxNodes <= 0 || maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
 		return Failure | InvalidParam, nil
 	}
 
@@ -120,7 +120,11 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 		if q.nodePool != nil {
 			q.nodePool = nil
 		}
-		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32(maxNodes/4))))
+		hashSize := int32(math32.NextPow2(uint32(maxNodes / 4)))
+		if hashSize == 0 {
+			hashSize = 1
+		}
+		q.nodePool = newNodePool(maxNodes, hashSize)
 		if q.nodePool == nil {
 			return Failure | OutOfMemory, nil
 		}
-- 
2.43.0


From 38b0144c6d71df74d3456b8c55bd1eca279b9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 04/51] fix: store flags and side of off-mesh connections in
 their own record

---
 detour/tile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/tile.go b/detour/tile.go
index 31dcf75..9a57d2c 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -191,8 +191,8 @@ func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
 		o.Pos[5] = math.Float32frombits(little.Uint32(src[off+20:]))
 		o.Rad = math.Float32frombits(little.Uint32(src[off+24:]))
 		o.Poly = little.Uint16(src[off+28:])
-		o.Flags = src[30]
-		o.Side = src[31]
+		o.Flags = src[off+30]
+		o.Side = src[off+31]
 		o.UserID = little.Uint32(src[off+32:])
 		off += 36
 	}
@@ -286,8 +286,8 @@ func serializeTileData(dst []byte,
 		little.PutUint32(dst[off+20:], uint32(math.Float32bits(o.Pos[5])))
 		little.PutUint32(dst[off+24:], uint32(math.Float32bits(o.Rad)))
 		little.PutUint16(dst[off+28:], o.Poly)
-		dst[30] = o.Flags
-		dst[31] = o.Side
+		dst[off+30] = o.Flags
+		dst[off+31] = o.Side
 		little.PutUint32(dst[off+32:], o.UserID)
 		off += 36
 	}
-- 
2.43.0


From 5edfb6321d70e7e5c2d667855a89e08bc14f321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 05/51] fix: link off-mesh connections to the polygons nearest
 to their end points

---
 detour/mesh.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 2122c32..a4252fb 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -802,7 +802,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 		// Find polygon to connect to.
 		p = con.Pos[0:3] // First vertex
 		nearestPt := make([]float32, 3)
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.offMeshLandingPoly(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
@@ -846,6 +846,21 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 	}
 }
 
+// anyPoly is a filter that accepts every polygon.
+type anyPoly struct{ QueryFilter }
+
+func (anyPoly) PassFilter(PolyRef, *MeshTile, *Poly) bool { return true }
+
+// offMeshLandingPoly finds the polygon of a tile nearest to an end point of an
+// off-mesh connection, among the polygons touching the search box.
+func (m *NavMesh) offMeshLandingPoly(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
+	q := NavMeshQuery{nav: m}
+	nearest := newFindNearestPolyQuery(&q, center)
+	q.queryPolygonsInTile(tile, center.Sub(extents), center.Add(extents), anyPoly{}, nearest)
+	nearestPt.Assign(nearest.nearestPoint)
+	return nearest.nearestRef
+}
+
 // FindNearestPolyInTile finds the nearest polygon within a tile.
 func (m *NavMesh) FindNearestPolyInTile(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
 	bmin := center.Sub(extents)
@@ -1164,7 +1179,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		// Find polygon to connect to.
 		p := targetCon.Pos[3:6]
 		nearestPt := d3.NewVec3()
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.offMeshLandingPoly(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
-- 
2.43.0


From ff6b7a005160561a44cc62f39fb829d2c84d1adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 06/51] fix: nearest polygon search skips off-mesh connections
 in tiles without a bounding volume tree

---
 detour/query.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 9e1d918..a5886d3 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1311,8 +1311,6 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			p := &tile.Polys[i]
 			// Do not return off-mesh connection polygons.
 			if p.Type() == polyTypeOffMeshConnection {
-
-				log.Fatalf("do return off-mesh connection polygons")
 				continue
 			}
 			// Must pass filter
-- 
2.43.0


From 49c1fc4dce7538af2d802335c75876212c22b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 07/51] fix: Init refuses limits whose reference bits do not
 fit in a reference

---
 detour/mesh.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index a4252fb..9e42e8f 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -266,6 +266,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 	// Init ID generator values.
 	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxTiles)))
 	m.polyBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxPolys)))
+	if m.tileBits+m.polyBits > 32 {
+		return Status(Failure | InvalidParam)
+	}
 	// Only allow 31 salt bits, since the salt mask is calculated using 32bit uint and it will overflow.
 	if 31 < 32-m.tileBits-m.polyBits {
 		m.saltBits = 31
-- 
2.43.0


From 7cbb0d102128242ecd19a808ebc93674b6e6eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 08/51] fix: index vertices of large tiles without 16 bit
 overflow

---
 detour/mesh.go          | 24 +++++++++++++-----------
 detour/navmeshcreate.go | 18 +++++++++---------
 detour/poly.go          |  2 +-
 detour/query.go         | 26 +++++++++++++-------------
 4 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 9e42e8f..6059fe3 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -814,7 +814,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 			continue
 		}
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = tile.Verts[poly.Verts[0]*3 : poly.Verts[0]*3+3]
+		var v d3.Vec3 = tile.Verts[int(poly.Verts[0])*3 : int(poly.Verts[0])*3+3]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -988,12 +988,14 @@ func (m *NavMesh) queryPolygonsInTile(
 			continue
 		}
 		// Calc polygon bounds.
-		v := tile.Verts[p.Verts[0]*3 : 3]
+		vidx := int(p.Verts[0]) * 3
+		v := tile.Verts[vidx : vidx+3]
 		d3.Vec3(bmin[:]).Assign(v)
 		d3.Vec3(bmax[:]).Assign(v)
 		var j uint8
 		for j = 1; j < p.VertCount; j++ {
-			v = tile.Verts[p.Verts[j]*3 : 3]
+			vidx = int(p.Verts[j]) * 3
+			v = tile.Verts[vidx : vidx+3]
 			d3.Vec3Min(bmin[:], v)
 			d3.Vec3Max(bmax[:], v)
 		}
@@ -1037,8 +1039,8 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		v0 = tile.Verts[poly.Verts[0]*3 : 3]
-		v1 = tile.Verts[poly.Verts[1]*3 : 3]
+		v0 = tile.Verts[int(poly.Verts[0])*3:]
+		v1 = tile.Verts[int(poly.Verts[1])*3:]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
 		u = d0 / (d0 + d1)
@@ -1060,7 +1062,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1193,7 +1195,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		}
 
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = target.Verts[targetPoly.Verts[1]*3:]
+		var v d3.Vec3 = target.Verts[int(targetPoly.Verts[1])*3:]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1290,8 +1292,8 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			}
 
 			// Create new links
-			va := tile.Verts[poly.Verts[j]*3:]
-			vb := tile.Verts[poly.Verts[(j+1)%int32(nv)]*3:]
+			va := tile.Verts[int(poly.Verts[j])*3:]
+			vb := tile.Verts[int(poly.Verts[(j+1)%int32(nv)])*3:]
 			nei := make([]PolyRef, 4)
 			neia := make([]float32, 4*2)
 			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
@@ -1370,9 +1372,9 @@ func (m *NavMesh) findConnectingPolys(
 				continue
 			}
 
-			idx := poly.Verts[j] * 3
+			idx := int(poly.Verts[j]) * 3
 			vc := tile.Verts[idx : idx+3]
-			idx = poly.Verts[(j+1)%nv] * 3
+			idx = int(poly.Verts[(j+1)%nv]) * 3
 			vd := tile.Verts[idx : idx+3]
 			bpos := slabCoord(vc, side)
 
diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5512bd1..8e2e03c 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -291,9 +291,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 		} else {
 			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
-			it.BMin[0] = params.Verts[p[0]*3+0]
-			it.BMin[1] = params.Verts[p[0]*3+1]
-			it.BMin[2] = params.Verts[p[0]*3+2]
+			it.BMin[0] = params.Verts[int(p[0])*3+0]
+			it.BMin[1] = params.Verts[int(p[0])*3+1]
+			it.BMin[2] = params.Verts[int(p[0])*3+2]
 
 			it.BMax[0] = it.BMin[0]
 			it.BMax[1] = it.BMin[1]
@@ -303,9 +303,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				if p[j] == meshNullIdx {
 					break
 				}
-				x := params.Verts[p[j]*3+0]
-				y := params.Verts[p[j]*3+1]
-				z := params.Verts[p[j]*3+2]
+				x := params.Verts[int(p[j])*3+0]
+				y := params.Verts[int(p[j])*3+1]
+				z := params.Verts[int(p[j])*3+2]
 
 				if x < it.BMin[0] {
 					it.BMin[0] = x
@@ -831,13 +831,13 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// The nav polygon vertices are stored as the first vertices on each mesh.
 	// We compress the mesh data by skipping them and using the navmesh coordinates.
 	if params.DetailMeshes != nil && len(params.DetailMeshes) > 0 {
-		var vbase uint16
+		var vbase uint32
 		for i2 := int32(0); i2 < params.PolyCount; i2++ {
 			dtl := &navDMeshes[i2]
 			vb := params.DetailMeshes[i2*4+0]
 			ndv := params.DetailMeshes[i2*4+1]
 			nv := int32(navPolys[i2].VertCount)
-			dtl.VertBase = uint32(vbase)
+			dtl.VertBase = vbase
 			dtl.VertCount = uint8(ndv - nv)
 			dtl.TriBase = uint32(params.DetailMeshes[i2*4+2])
 			dtl.TriCount = uint8(params.DetailMeshes[i2*4+3])
@@ -845,7 +845,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			if ndv-nv != 0 {
 				start, length := int32(vb+nv)*3, 3*int32(ndv-nv)
 				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
-				vbase += uint16(ndv - nv)
+				vbase += uint32(ndv - nv)
 			}
 		}
 		// Store triangles.
diff --git a/detour/poly.go b/detour/poly.go
index 86c4026..eba0917 100644
--- a/detour/poly.go
+++ b/detour/poly.go
@@ -59,7 +59,7 @@ func CalcPolyCenter(idx []uint16, nidx int32, verts []float32) d3.Vec3 {
 	tc := d3.NewVec3()
 	var j int32
 	for j = 0; j < nidx; j++ {
-		start := idx[j] * 3
+		start := int(idx[j]) * 3
 		v := verts[start : start+3]
 		tc[0] += v[0]
 		tc[1] += v[1]
diff --git a/detour/query.go b/detour/query.go
index a5886d3..187622e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -834,7 +834,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if fromTile.Links[i].Ref == to {
 				// TODO: AR, repass here and test
 				v := fromTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, fromTile.Verts[vidx:vidx+3])
 				copy(right, fromTile.Verts[vidx:vidx+3])
 				return Success
@@ -848,7 +848,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
@@ -862,9 +862,9 @@ func (q *NavMeshQuery) portalPoints8(
 	v1 := fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount]
 
 	// TODO: AR TO BE TESTED!
-	v0idx := v0 * 3
+	v0idx := int(v0) * 3
 	copy(left, fromTile.Verts[v0idx:v0idx+3])
-	v1idx := v1 * 3
+	v1idx := int(v1) * 3
 	copy(right, fromTile.Verts[v1idx:v1idx+3])
 
 	// If the link is at tile boundary, clamp the vertices to
@@ -962,9 +962,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		vidx := poly.Verts[0] * 3
+		vidx := int(poly.Verts[0]) * 3
 		v0 = tile.Verts[vidx : vidx+3]
-		vidx = poly.Verts[1] * 3
+		vidx = int(poly.Verts[1]) * 3
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
@@ -987,7 +987,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1069,7 +1069,7 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 		nv    int32
 	)
 	for i := uint8(0); i < poly.VertCount; i++ {
-		copy(verts[nv*3:nv*3+3], tile.Verts[poly.Verts[i]*3:poly.Verts[i]*3+3])
+		copy(verts[nv*3:nv*3+3], tile.Verts[int(poly.Verts[i])*3:int(poly.Verts[i])*3+3])
 		nv++
 	}
 
@@ -1319,12 +1319,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 				continue
 			}
 			// Calc polygon bounds.
-			vidx := p.Verts[0] * 3
+			vidx := int(p.Verts[0]) * 3
 			v := tile.Verts[vidx : vidx+3]
 			bmin.Assign(v)
 			bmax.Assign(v)
 			for j := uint8(1); j < p.VertCount; j++ {
-				vidx = p.Verts[j] * 3
+				vidx = int(p.Verts[j]) * 3
 				v = tile.Verts[vidx : vidx+3]
 				d3.Vec3Min(bmin, v)
 				d3.Vec3Max(bmax, v)
@@ -1488,7 +1488,7 @@ func (q *NavMeshQuery) Raycast(
 		// Collect vertices.
 		var nv int
 		for i := 0; i < int(poly.VertCount); i++ {
-			copy(verts[nv*3:], tile.Verts[poly.Verts[i]*3:3+poly.Verts[i]*3])
+			copy(verts[nv*3:], tile.Verts[int(poly.Verts[i])*3:3+int(poly.Verts[i])*3])
 			nv++
 		}
 
@@ -1573,8 +1573,8 @@ func (q *NavMeshQuery) Raycast(
 			// Check for partial edge links.
 			v0 := poly.Verts[link.Edge]
 			v1 := poly.Verts[(link.Edge+1)%poly.VertCount]
-			left := tile.Verts[v0*3 : 3+v0*3]
-			right := tile.Verts[v1*3 : 3+v1*3]
+			left := tile.Verts[int(v0)*3 : 3+int(v0)*3]
+			right := tile.Verts[int(v1)*3 : 3+int(v1)*3]
 
 			// Check that the intersection lies inside the link portal.
 			if link.Side == 0 || link.Side == 4 {
-- 
2.43.0


From 12f52e1d5e3f854ec10f0e27a059d44f89536243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 09/51] fix: CreateNavMeshData works without bounding volume
 tree and without detail mesh

---
 detour/navmeshcreate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 8e2e03c..61dcb59 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -289,7 +289,6 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
-			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[int(p[0])*3+0]
 			it.BMin[1] = params.Verts[int(p[0])*3+1]
@@ -719,7 +718,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	navDMeshes := make([]PolyDetail, params.PolyCount)
 	navDVerts := make([]float32, 3*uniqueDetailVertCount)
 	navDTris := make([]uint8, 4*detailTriCount)
-	navBvtree := make([]BvNode, params.PolyCount*2)
+	var navBvtree []BvNode
+	if params.BuildBvTree {
+		navBvtree = make([]BvNode, params.PolyCount*2)
+	}
 	offMeshCons := make([]OffMeshConnection, storedOffMeshConCount)
 
 	// Fill header
-- 
2.43.0


From dbc262794ea6401d8169a59b9f34b9624796fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 10/51] fix: Decode reads whole tiles however the reader splits
 them

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 6059fe3..0893fd3 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -110,7 +110,7 @@ func Decode(r io.Reader) (*NavMesh, error) {
 		if data == nil {
 			break
 		}
-		_, err = r.Read(data)
+		_, err = io.ReadFull(r, data)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 118f225a2fa87dff553cac908f74dd0086d0b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 11/51] fix: SaveToFile closes the file

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 0893fd3..2902afe 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -129,7 +129,11 @@ func (m *NavMesh) SaveToFile(fn string) error {
 		return err
 	}
 
-	return m.ToWriter(f)
+	err = m.ToWriter(f)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ToWriter writes binary navigation mesh to io.Writer.
-- 
2.43.0


From b1e2551f82babddc3b73c94cc11002b83c039f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 12/51] fix: InitForSingleTile does not take the tile flags for
 a tile reference

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 2902afe..c5f6fe0 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -234,7 +234,7 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 		return status
 	}
 
-	status, _ = m.AddTile(data, TileRef(flags))
+	status, _ = m.AddTile(data, 0)
 	return status
 }
 
-- 
2.43.0


From 1aad03bd0c4f4d66eb93bcd5fb5260c94054e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 13/51] fix: sliced path finalization fails when a shortcut
 does not exist anymore

---
 detour/query.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 187622e..6a6f7d3 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2094,8 +2094,15 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				var (
 					normal [3]float32
 					m      int
+					t      float32
 				)
-				m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				m, t, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				if t < 1.0 || !q.nav.IsValidPolyRef(next.ID) {
+					// The shortcut does not exist anymore, the navmesh
+					// changed during the sliced query, fail.
+					q.query = queryData{}
+					return 0, Failure
+				}
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
@@ -2209,8 +2216,15 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				var (
 					normal [3]float32
 					m      int
+					t      float32
 				)
-				m, _, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				m, t, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				if t < 1.0 || !q.nav.IsValidPolyRef(next.ID) {
+					// The shortcut does not exist anymore, the navmesh
+					// changed during the sliced query, fail.
+					q.query = queryData{}
+					return 0, Failure
+				}
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
-- 
2.43.0


From b021e40110c5d9c421727dcdd2a1167b366bdba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 14/51] fix: sliced path finalization does not write beyond the
 path buffer

---
 detour/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 6a6f7d3..7050695 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2108,6 +2108,10 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
+				if n >= maxPath {
+					// no space left for the next node
+					status |= BufferTooSmall
+				}
 			} else {
 				path[n] = node.ID
 				n++
@@ -2230,6 +2234,10 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
+				if n >= maxPath {
+					// no space left for the next node
+					status |= BufferTooSmall
+				}
 			} else {
 				path[n] = node[0].ID
 				n++
-- 
2.43.0


From 863b9c213a08fbc57feb92161233da76c9cc361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 15/51] fix: straight path turns around the nearest end of a
 portal seen edge-on

---
 detour/query.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 7050695..17915d4 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -526,7 +526,11 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Right vertex.
 			if TriArea2D(portalApex, portalRight, right) <= 0.0 {
-				if portalApex.Approx(portalRight) || TriArea2D(portalApex, portalLeft, right) > 0.0 {
+				// When both ends of the portal lie on the same ray from the
+				// apex, the path turns around the nearest one.
+				crossedArea := TriArea2D(portalApex, portalLeft, right)
+				if portalApex.Approx(portalRight) || crossedArea > 0.0 ||
+					(crossedArea == 0.0 && portalApex.Dist2DSqr(right) < portalApex.Dist2DSqr(portalLeft)) {
 					portalRight.Assign(right)
 					if i+1 < len(path) {
 						rightPolyRef = path[i+1]
@@ -581,7 +585,9 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Left vertex.
 			if TriArea2D(portalApex, portalLeft, left) >= 0.0 {
-				if portalApex.Approx(portalLeft) || TriArea2D(portalApex, portalRight, left) < 0.0 {
+				crossedArea := TriArea2D(portalApex, portalRight, left)
+				if portalApex.Approx(portalLeft) || crossedArea < 0.0 ||
+					(crossedArea == 0.0 && portalApex.Dist2DSqr(left) < portalApex.Dist2DSqr(portalRight)) {
 					portalLeft.Assign(left)
 					if i+1 < len(path) {
 						leftPolyRef = path[i+1]
-- 
2.43.0


From d75e79c624d2882e4a6a1571b56ad49f2a5ec218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 16/51] fix: Raycast resets the hit record

---
 detour/query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 17915d4..c8ff4c1 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1448,6 +1448,10 @@ func (q *NavMeshQuery) Raycast(
 	hit *RaycastHit,
 	prevRef PolyRef) (st Status) {
 
+	hit.T = 0
+	hit.PathCount = 0
+	hit.PathCost = 0
+
 	// Validate input
 	if startRef == 0 || !q.nav.IsValidPolyRef(startRef) {
 		st = Failure | InvalidParam
-- 
2.43.0


From 80d94e8de7c9c613b9801ef681267d1966cebb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 17/51] fix: nearest polygon search does not clamp the search
 box to the tile

---
 detour/query.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index c8ff4c1..ae4b3ba 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1249,7 +1249,7 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		var (
 			node            *BvNode
 			nodeIdx, endIdx int32
-			tbmin, tbmax    d3.Vec3
+			tbmin           d3.Vec3
 			qfac            float32
 		)
 
@@ -1257,26 +1257,24 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		endIdx = tile.Header.BvNodeCount
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
-		tbmax = d3.NewVec3From(tile.Header.BMax[:])
 		qfac = tile.Header.BvQuantFactor
 
 		// Calculate quantized box
 		var bmin, bmax [3]uint16
 
-		// Clamp query box to world box.
-		minx := f32.Clamp(qmin[0], tbmin[0], tbmax[0]) - tbmin[0]
-		miny := f32.Clamp(qmin[1], tbmin[1], tbmax[1]) - tbmin[1]
-		minz := f32.Clamp(qmin[2], tbmin[2], tbmax[2]) - tbmin[2]
-		maxx := f32.Clamp(qmax[0], tbmin[0], tbmax[0]) - tbmin[0]
-		maxy := f32.Clamp(qmax[1], tbmin[1], tbmax[1]) - tbmin[1]
-		maxz := f32.Clamp(qmax[2], tbmin[2], tbmax[2]) - tbmin[2]
-		// Quantize
-		bmin[0] = uint16(qfac*minx) & 0xfffe
-		bmin[1] = uint16(qfac*miny) & 0xfffe
-		bmin[2] = uint16(qfac*minz) & 0xfffe
-		bmax[0] = uint16(qfac*maxx+1) | 1
-		bmax[1] = uint16(qfac*maxy+1) | 1
-		bmax[2] = uint16(qfac*maxz+1) | 1
+		// No polygon lies outside of the tile on its lower sides.
+		if qmax[0] < tbmin[0] || qmax[1] < tbmin[1] || qmax[2] < tbmin[2] {
+			return
+		}
+
+		// Quantize the query box, clamped to what quantized bounds can hold.
+		quantize := func(v float32) uint16 {
+			return uint16(f32.Clamp(qfac*v, 0, 0xfffe))
+		}
+		for i := range bmin {
+			bmin[i] = quantize(qmin[i]-tbmin[i]) & 0xfffe
+			bmax[i] = quantize(qmax[i]-tbmin[i]+1/qfac) | 1
+		}
 
 		// Traverse tree
 		base := q.nav.polyRefBase(tile)
-- 
2.43.0


From 780ad4af97a35348d8a535b593bae2b7adbc0900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 18/51] fix: nearest polygon search ignores the unused bounding
 volume tree node

---
 detour/query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index ae4b3ba..841edae 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1255,6 +1255,10 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 
 		nodeIdx = 0
 		endIdx = tile.Header.BvNodeCount
+		// A tree with n leaves has 2n-1 nodes, the others are not part of it.
+		if used := 2*tile.Header.OffMeshBase - 1; used < endIdx {
+			endIdx = used
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		qfac = tile.Header.BvQuantFactor
-- 
2.43.0


From 0fc0177bbc44933f473750288691e74ac59a939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 19/51] fix: AddTile refuses tiles with more polygons than
 references can tell apart

---
 detour/mesh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index c5f6fe0..3248aa7 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -325,6 +325,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | WrongVersion, 0
 	}
 
+	// Make sure references can tell all polygons of the tile apart.
+	if int64(hdr.PolyCount) > int64(1)<<m.polyBits {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
 		return Failure, 0
-- 
2.43.0


From 9cdc3c8b823d40a5cfc3d2da992b97b8ca137504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 20/51] fix: closest point on polygons of large tiles without
 16 bit overflow

---
 detour/mesh.go  | 2 +-
 detour/query.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 3248aa7..0f35332 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1111,7 +1111,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		)
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				vidx := poly.Verts[t[k]] * 3
+				vidx := int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[vidx : vidx+3]
 			} else {
 				vidx := (pd.VertBase + uint32(t[k]-poly.VertCount)) * 3
diff --git a/detour/query.go b/detour/query.go
index 841edae..21ea2b8 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1033,7 +1033,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var k int
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				idx = int(poly.Verts[t[k]] * 3)
+				idx = int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[idx : idx+3]
 			} else {
 				idx = int((pd.VertBase + uint32(t[k]-poly.VertCount)) * 3)
-- 
2.43.0


From 5a44dff47a304b443c2c3e968df87ff11b0fe711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 21/51] fix: paths enter off-mesh connections at the
 connection's own end point

---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 21ea2b8..e422b55 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -854,7 +854,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := int(fromPoly.Verts[v]) * 3
+				vidx := int(toPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
-- 
2.43.0


From 3b3bef208c3f076f1e02046b7f20d7460db9d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 22/51] fix: rasterisation does not mark border cells for the
 part of a triangle outside the field

---
 recast/rasterization.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/recast/rasterization.go b/recast/rasterization.go
index ff6f20c..938c6de 100644
--- a/recast/rasterization.go
+++ b/recast/rasterization.go
@@ -152,9 +152,11 @@ func rasterizeTri(v0, v1, v2 []float32,
 	}
 
 	// Calculate the footprint of the triangle on the grid's y-axis
-	y0 := int32((tmin[2] - bmin[2]) * ics)
+	y0 := int32(math32.Floor((tmin[2] - bmin[2]) * ics))
 	y1 := int32((tmax[2] - bmin[2]) * ics)
-	y0 = int32Clamp(y0, 0, h-1)
+	// Start at -1 rather than 0 if needed, so that the part of the polygon in
+	// front of the first row is cut off.
+	y0 = int32Clamp(y0, -1, h-1)
 	y1 = int32Clamp(y1, 0, h-1)
 
 	// Clip the triangle into all grid cells it touches.
@@ -177,7 +179,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 		cz := bmin[2] + float32(y)*cs
 		nvrow, nvIn = dividePoly(in, nvIn, inrow, p1, cz+cs, 2)
 		in, p1 = p1, in
-		if nvrow < 3 {
+		if nvrow < 3 || y < 0 {
 			continue
 		}
 
@@ -191,9 +193,9 @@ func rasterizeTri(v0, v1, v2 []float32,
 				maxX = inrow[i*3]
 			}
 		}
-		x0 := int32((minX - bmin[0]) * ics)
+		x0 := int32(math32.Floor((minX - bmin[0]) * ics))
 		x1 := int32((maxX - bmin[0]) * ics)
-		x0 = int32Clamp(x0, 0, w-1)
+		x0 = int32Clamp(x0, -1, w-1)
 		x1 = int32Clamp(x1, 0, w-1)
 
 		var nv, nv2 int32
@@ -204,7 +206,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 			cx := bmin[0] + float32(x)*cs
 			nv, nv2 = dividePoly(inrow, nv2, p1, p2, cx+cs, 0)
 			inrow, p2 = p2, inrow
-			if nv < 3 {
+			if nv < 3 || x < 0 {
 				continue
 			}
 
-- 
2.43.0


From 24d677f7f3c7ef3e6eda3b2b64b48a8cf979e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 23/51] fix: erosion distances do not wrap around in large open
 areas

---
 recast/area.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 8f2b833..3a59f49 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -30,11 +30,11 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 	ctx.StartTimer(TimerErodeArea)
 	defer ctx.StopTimer(TimerErodeArea)
 
-	dist := make([]uint8, chf.SpanCount)
+	dist := make([]uint16, chf.SpanCount)
 
 	// Init distance.
 	for i := range dist {
-		dist[i] = 0xff
+		dist[i] = 0xffff
 	}
 
 	// Mark boundary cells.
@@ -67,7 +67,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	var nd uint8
+	var nd uint16
 
 	// Pass 1
 	for y := int32(0); y < h; y++ {
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -182,7 +182,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint8(radius * 2)
+	thr := uint16(radius * 2)
 	for i := int32(0); i < chf.SpanCount; i++ {
 		if dist[i] < thr {
 			chf.Areas[i] = nullArea
-- 
2.43.0


From e422a56a2872ac99fe15dc653590d7e6bce254bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 24/51] fix: MarkConvexPolyArea takes all vertices into the
 polygon's bounds

---
 recast/area.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/area.go b/recast/area.go
index 3a59f49..63c637f 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -222,7 +222,7 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
-	for i := int32(1); i*3 < nverts; i++ {
+	for i := int32(1); i < nverts; i++ {
 		v := verts[i*3:]
 		d3.Vec3Min(bmin[:], v)
 		d3.Vec3Max(bmax[:], v)
-- 
2.43.0


From 65880c77399cd41a95c56eae4883179352da5413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 25/51] fix: AddConvexVolume counts vertices, not coordinates

---
 recast/inputgeom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index eec5939..bb5277e 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -219,7 +219,7 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	copy(vol.Verts[:], verts)
 	vol.HMin = minh
 	vol.HMax = maxh
-	vol.NVerts = int32(len(verts))
+	vol.NVerts = int32(len(verts) / 3)
 	vol.Area = int32(area)
 }
 
-- 
2.43.0


From 5d5b1285694edefc1177b95aac7594868581bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 26/51] fix: SetCon replaces a connection that is set already

---
 recast/recast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/recast.go b/recast/recast.go
index dd10b7c..6d6fd86 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -238,7 +238,7 @@ func init() {
 func SetCon(s *CompactSpan, dir, i int32) {
 	shift := uint32(uint32(dir * 6))
 	con := uint32(s.Con)
-	s.Con = (con ^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
+	s.Con = (con &^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
 }
 
 // GetCon gets neighbor connection data for the specified direction.
-- 
2.43.0


From bc5bf872d35ef8805ba596e993c11986ac9c845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 27/51] fix: status in progress with details does not read as
 success

---
 detour/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/status.go b/detour/status.go
index 70e8fd5..75d9aa8 100644
--- a/detour/status.go
+++ b/detour/status.go
@@ -42,7 +42,7 @@ func (s Status) Error() string {
 			return fmt.Sprintf("unspecified error 0x%x", uint32(s))
 		}
 	}
-	if s == InProgress {
+	if s&InProgress != 0 {
 		return "in progress"
 	}
 	return "success"
-- 
2.43.0


From a0c8b4694667fcb21f3a673a8fd09860cbd6441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 28/51] fix: report OBJ faces referencing undefined vertices as
 an error

---
 recast/meshloaderobj.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/recast/meshloaderobj.go b/recast/meshloaderobj.go
index 2a1909e..d4d6ade 100644
--- a/recast/meshloaderobj.go
+++ b/recast/meshloaderobj.go
@@ -1,6 +1,7 @@
 package recast
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/arl/gobj"
@@ -23,12 +24,23 @@ func NewMeshLoaderOBJ() *MeshLoaderOBJ {
 	}
 }
 
+// decodeOBJ decodes an OBJ document. gobj panics on faces that reference
+// vertices which have not been defined: report those as an error.
+func decodeOBJ(r io.Reader) (obj *gobj.OBJFile, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			obj, err = nil, fmt.Errorf("malformed OBJ: %v", rec)
+		}
+	}()
+	return gobj.Decode(r)
+}
+
 func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	var (
 		obj *gobj.OBJFile
 		err error
 	)
-	obj, err = gobj.Decode(r)
+	obj, err = decodeOBJ(r)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fc347b9505299e8eddfcd96afcaebc166caac134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 29/51] fix: LoadOBJMesh on a document without geometry returns
 an error

---
 recast/inputgeom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index bb5277e..e0a15be 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -103,6 +103,10 @@ func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
 		return err
 	}
 
+	if ig.mesh.VertCount() == 0 || ig.mesh.TriCount() == 0 {
+		return fmt.Errorf("mesh has no geometry")
+	}
+
 	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
 
 	ig.chunkyMesh = new(ChunkyTriMesh)
-- 
2.43.0


From f84edebf5907f13f157a9330aec62f0a95fb9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 30/51] fix: BuildRegionsMonotone crashed on rows with many
 disjoint spans

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index dbeebdd..a5e05e5 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -102,6 +102,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				if previd == 0 {
 					previd = rid
 					rid++
+					if int(previd) >= len(sweeps) {
+						// a row may hold more spans than there are columns
+						sweeps = append(sweeps, make([]sweepSpan, len(sweeps)+1)...)
+					}
 					sweeps[previd].rid = previd
 					sweeps[previd].ns = 0
 					sweeps[previd].nei = 0
-- 
2.43.0


From 04fe08b880056fbdf3cda7d5a0945d05fa5c32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 31/51] fix: BuildContours panicked when a field has more
 contours than regions

---
 recast/contour.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/recast/contour.go b/recast/contour.go
index c5e07f5..6121a7b 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -303,7 +303,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 				// Create contour.
 				if len(simplified)/4 >= 3 {
 					if cset.NConts >= maxContours {
-						panic("ENTERING")
 						// Allocate more contours.
 						// This happens when a region has holes.
 						oldMax := maxContours
-- 
2.43.0


From 79e1a898c5e3744f6f6411f527fb15ce67dec648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 32/51] fix: merge the holes of a region into its outline

The winding of contours was kept in unsigned bytes, so that holes were never
recognised; and single cell holes were rounded to no area at all.
---
 recast/contour.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index 6121a7b..04a0b79 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -140,7 +140,7 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 
 			// Sort potential diagonals by distance, we want to make the connection as short as possible.
 			//qsort(diags, ndiags, sizeof(rcPotentialDiagonal), compareDiagDist);
-			sort.Sort(compareDiagDist(diags))
+			sort.Sort(compareDiagDist(diags[:ndiags]))
 
 			// Find a diagonal that is not intersecting the outline not the remaining holes.
 			index = -1
@@ -355,13 +355,13 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 	// Merge holes if needed.
 	if cset.NConts > 0 {
 		// Calculate winding of all polygons.
-		winding := make([]uint8, cset.NConts)
+		winding := make([]int8, cset.NConts)
 		var nholes int32
 		for i := int32(0); i < cset.NConts; i++ {
 			cont := &cset.Conts[i]
 			// If the contour is wound backwards, it is a hole.
 			if calcAreaOfPolygon2D(cont.Verts, cont.NVerts) < 0 {
-				winding[i] = 0xff
+				winding[i] = -1
 			} else {
 				winding[i] = 1
 			}
@@ -371,7 +371,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 		}
 
 		if nholes > 0 {
-			panic("UNTESTED")
 			// Collect outline contour and holes contours per region.
 			// We assume that there is one outline and multiple holes.
 			nregions := chf.MaxRegions + 1
@@ -393,7 +392,7 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 			index := int32(0)
 			for i := uint16(0); i < nregions; i++ {
 				if regions[i].nholes > 0 {
-					regions[i].holes = holes[index:]
+					regions[i].holes = holes[index : index+regions[i].nholes]
 					index += regions[i].nholes
 					regions[i].nholes = 0
 				}
@@ -756,6 +755,8 @@ func simplifyContour(points, simplified *[]int32,
 	}
 }
 
+// calcAreaOfPolygon2D returns the signed area of a polygon, rounded away from
+// zero so that its sign, the winding, is never lost.
 func calcAreaOfPolygon2D(verts []int32, nverts int32) int32 {
 	var area, i int32
 	for j := nverts - 1; i < nverts; i++ {
@@ -764,6 +765,9 @@ func calcAreaOfPolygon2D(verts []int32, nverts int32) int32 {
 		area += vi[0]*vj[2] - vj[0]*vi[2]
 		j = i
 	}
+	if area < 0 {
+		return (area - 1) / 2
+	}
 	return (area + 1) / 2
 }
 
-- 
2.43.0


From bb6775d183a75d60386b8e5df303515a8ce2e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 33/51] fix: keep tile border vertices between two areas

cornerHeight combines region and area codes, but dropped the area bits.
---
 recast/contour.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index 04a0b79..62dda01 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -11,11 +11,11 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 	ch = int32(s.Y)
 	dirp := (dir + 1) & 0x3
 
-	regs := [4]uint16{0, 0, 0, 0}
+	regs := [4]uint32{0, 0, 0, 0}
 
 	// Combine region and area codes in order to prevent
 	// border vertices which are in between two areas to be removed.
-	regs[0] = uint16(uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16))
+	regs[0] = uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16)
 
 	if GetCon(s, dir) != notConnected {
 		ax := x + GetDirOffsetX(dir)
@@ -23,13 +23,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dir)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[1] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[1] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dirp) != notConnected {
 			ax2 := ax + GetDirOffsetX(dirp)
 			ay2 := ay + GetDirOffsetY(dirp)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dirp)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 	if GetCon(s, dirp) != notConnected {
@@ -38,13 +38,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dirp)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[3] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[3] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dir) != notConnected {
 			ax2 := ax + GetDirOffsetX(dir)
 			ay2 := ay + GetDirOffsetY(dir)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dir)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 
@@ -57,9 +57,9 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 
 		// The vertex is a border vertex there are two same exterior cells in a row,
 		// followed by two interior cells and none of the regions are out of bounds.
-		twoSameExts := (regs[a]&regs[b]&borderReg) != 0 && regs[a] == regs[b]
-		twoInts := ((regs[c] | regs[d]) & borderReg) == 0
-		intsSameArea := (uint32(regs[c]) >> 16) == (uint32(regs[d]) >> 16)
+		twoSameExts := (regs[a]&regs[b]&uint32(borderReg)) != 0 && regs[a] == regs[b]
+		twoInts := ((regs[c] | regs[d]) & uint32(borderReg)) == 0
+		intsSameArea := (regs[c] >> 16) == (regs[d] >> 16)
 		noZeros := regs[a] != 0 && regs[b] != 0 && regs[c] != 0 && regs[d] != 0
 		if twoSameExts && twoInts && intsSameArea && noZeros {
 			isBorderVertex = true
-- 
2.43.0


From 0424badeaa09eb87a623f2a0325ee40d3f76f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 34/51] fix: canRemoveVertex looked at the wrong polygon edges

The trailing index was advanced after the leading one, so that edges were
compared with themselves and removable tile border vertices were kept.
---
 recast/mesh.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 1596911..c16bedf 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -496,8 +496,7 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 		nv := countPolyVerts(p, nvp)
 
 		// Collect edges which touches the removed vertex.
-		var j int32
-		for k := nv - 1; j < nv; k = j {
+		for j, k := int32(0), nv-1; j < nv; k, j = j, j+1 {
 			if p[j] == rem || p[k] == rem {
 				// Arrange edge so that a=rem.
 				a, b := p[j], p[k]
@@ -524,7 +523,6 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 					nedges++
 				}
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From edde62aa36a9e774b1802d07c2c9d2d803a81490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 35/51] fix: polygon mesh vertices were not shared with
 slightly higher ones

The height difference of two vertices wrapped around when negative.
---
 recast/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index c16bedf..4115bca 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -112,7 +112,7 @@ func addVertex(x, y, z uint16, verts []uint16, firstVert, nextVert []int32, nv *
 
 	for i != -1 {
 		v := verts[i*3:]
-		if v[0] == x && (iAbs(int32(v[1]-y)) <= 2) && v[2] == z {
+		if v[0] == x && (iAbs(int32(v[1])-int32(y)) <= 2) && v[2] == z {
 			return uint16(i)
 		}
 		i = nextVert[i] // next
-- 
2.43.0


From 42542310100e09ed63a9d4ac4088a2f66fb0c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 36/51] fix: detail meshes without sampling crashed on an empty
 hull

---
 recast/meshdetail.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 5ed97ef..4673251 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -924,6 +924,12 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 			}
 			j = i
 		}
+	} else {
+		// No sampling: the hull is the polygon itself.
+		for i := int32(0); i < nin; i++ {
+			hull[i] = i
+		}
+		nhull = nin
 	}
 
 	// If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From 3e9f8d585274c84a3201df1a9eb637203fb6ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 37/51] fix: detail meshes with dangling faces crashed the
 build

---
 recast/meshdetail.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 4673251..4d5ca16 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -701,7 +701,6 @@ func delaunayHull(ctx *BuildContext, npts int32, pts []float32,
 		t := (*tris)[i*4:]
 		if t[0] == -1 || t[1] == -1 || t[2] == -1 {
 			ctx.Warningf("delaunayHull: Removing dangling face %d [%d,%d,%d].", i, t[0], t[1], t[2])
-			panic("untested")
 			// TODO: simplify
 			t[0] = (*tris)[len(*tris)-4]
 			t[1] = (*tris)[len(*tris)-3]
@@ -1039,9 +1038,7 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 
 	ntris := len(*tris) / 4
 	if ntris > MAX_TRIS {
-		panic("untested")
-		//tris.resize(MAX_TRIS*4);
-		*tris = make([]int32, MAX_TRIS*4)
+		*tris = (*tris)[:MAX_TRIS*4]
 		ctx.Errorf("rcBuildPolyMeshDetail: Shrinking triangle count from %d to max %d.", ntris, MAX_TRIS)
 	}
 
-- 
2.43.0


From 83f24964c83b23acad714899503c42b35086b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 38/51] fix: detail triangles overlapped when samples were
 nearly cocircular

---
 recast/meshdetail.go | 54 ++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 4d5ca16..cbd4df3 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -552,25 +552,12 @@ func overlapEdges(pts []float32, edges []int32, nedges, s1, t1 int32) bool {
 	return false
 }
 
-func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32, nedges *int32, maxEdges int32, nfaces *int32, e int32) {
+// bestFacetPoint returns the point on the left of the edge s-t which forms the
+// triangle with the smallest circumcircle, or npts if there is none. If visible
+// is set, points whose edges to s or t would overlap an edge are not considered.
+func bestFacetPoint(pts []float32, npts int32, edges []int32, nedges, s, t int32, visible bool) int32 {
 	const EPS float32 = 1e-5
 
-	edge := edges[e*4:]
-
-	// Cache s and t.
-	var s, t int32
-	if edge[2] == EV_UNDEF {
-		s = edge[0]
-		t = edge[1]
-	} else if edge[3] == EV_UNDEF {
-		s = edge[1]
-		t = edge[0]
-	} else {
-		// Edge already completed.
-		return
-	}
-
-	// Find best point on left of edge.
 	pt := npts
 	var c [3]float32
 	r := float32(-1)
@@ -579,6 +566,9 @@ func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32,
 			continue
 		}
 		if vcross2(pts[s*3:], pts[t*3:], pts[u*3:]) > EPS {
+			if visible && (overlapEdges(pts, edges, nedges, s, u) || overlapEdges(pts, edges, nedges, t, u)) {
+				continue
+			}
 			if r < 0 {
 				// The circle is not updated yet, do it now.
 				pt = u
@@ -597,10 +587,10 @@ func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32,
 			} else {
 				// Inside epsilon circum circle, do extra tests to make sure the edge is valid.
 				// s-u and t-u cannot overlap with s-pt nor t-pt if they exists.
-				if overlapEdges(pts, edges, *nedges, s, u) {
+				if overlapEdges(pts, edges, nedges, s, u) {
 					continue
 				}
-				if overlapEdges(pts, edges, *nedges, t, u) {
+				if overlapEdges(pts, edges, nedges, t, u) {
 					continue
 				}
 				// Edge is valid.
@@ -609,6 +599,32 @@ func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32,
 			}
 		}
 	}
+	return pt
+}
+
+func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32, nedges *int32, maxEdges int32, nfaces *int32, e int32) {
+	edge := edges[e*4:]
+
+	// Cache s and t.
+	var s, t int32
+	if edge[2] == EV_UNDEF {
+		s = edge[0]
+		t = edge[1]
+	} else if edge[3] == EV_UNDEF {
+		s = edge[1]
+		t = edge[0]
+	} else {
+		// Edge already completed.
+		return
+	}
+
+	// Find best point on left of edge.
+	pt := bestFacetPoint(pts, npts, edges, *nedges, s, t, false)
+	if pt < npts && (overlapEdges(pts, edges, *nedges, s, pt) || overlapEdges(pts, edges, *nedges, t, pt)) {
+		// Nearly cocircular points were connected differently from the other
+		// side, only consider the points that can still be reached.
+		pt = bestFacetPoint(pts, npts, edges, *nedges, s, t, true)
+	}
 
 	// Add new triangle or update edge info if s-t is on hull.
 	if pt < npts {
-- 
2.43.0


From 7774af41676152de4e3fa2e5ad41ca552d7eb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 39/51] fix: degenerate detail triangles hid samples that
 exceed the error limit

---
 recast/meshdetail.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index cbd4df3..f9204fd 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -100,8 +100,14 @@ func distPtTri(p, a, b, c []float32) float32 {
 	dot11 := vdot2(v1[:], v1[:])
 	dot12 := vdot2(v1[:], v2[:])
 
+	// A point cannot be inside a degenerate triangle.
+	denom := dot00*dot11 - dot01*dot01
+	if denom <= 1e-6*dot00*dot11 {
+		return math.MaxFloat32
+	}
+
 	// Compute barycentric coordinates
-	invDenom := float32(1.0 / (dot00*dot11 - dot01*dot01))
+	invDenom := float32(1.0 / denom)
 	u := (dot11*dot02 - dot01*dot12) * invDenom
 	v := (dot00*dot12 - dot01*dot02) * invDenom
 
-- 
2.43.0


From f4a661fb70556a86f09566640a3a44a7f64c99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 40/51] fix: an exhausted standard input is not a confirmation
 (index out of range)

---
 cmd/recast/cmd/utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/recast/cmd/utils.go b/cmd/recast/cmd/utils.go
index ac367c9..22702d2 100644
--- a/cmd/recast/cmd/utils.go
+++ b/cmd/recast/cmd/utils.go
@@ -29,8 +29,12 @@ func askForConfirmation(msg string) bool {
 	defaultInput := byte('N')
 
 	for {
-		input, _ := reader.ReadString('\n')
-		c := string([]byte(input)[0])[0]
+		input, err := reader.ReadString('\n')
+		if err != nil && len(input) == 0 {
+			// no more input, that is not a yes
+			return false
+		}
+		c := input[0]
 		if c == 10 {
 			// ENTER
 			c = defaultInput
-- 
2.43.0


From 2756294cb43cab3616d388cd8ae74258cac89b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 41/51] fix: infos called every navmesh 'solo'

---
 cmd/recast/cmd/infos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/recast/cmd/infos.go b/cmd/recast/cmd/infos.go
index b1cd4e6..80096b5 100644
--- a/cmd/recast/cmd/infos.go
+++ b/cmd/recast/cmd/infos.go
@@ -50,5 +50,5 @@ func doInfos(cmd *cobra.Command, args []string) {
 	buf, err = json.MarshalIndent(navmesh.Params, "", "  ")
 	check(err)
 	fmt.Printf("successfully loaded '%v'\n", binMesh)
-	fmt.Printf("'%v' navmesh infos:\n%s", typeVal, string(buf))
+	fmt.Printf("navmesh infos:\n%s", string(buf))
 }
-- 
2.43.0


From c88719e3df7bebc4c2d9c62d5aada71cfb3beb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 42/51] fix: builds with settings left at zero fail instead of
 crashing

---
 sample/solomesh/builder.go | 4 ++++
 sample/tilemesh/builder.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index 37ab521..32867db 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -54,6 +54,10 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 		// TODO: error "no vertices and triangles"
 		return nil, false
 	}
+	if !(sm.settings.CellSize > 0) || !(sm.settings.CellHeight > 0) || !(sm.settings.VertsPerPoly >= 3) {
+		sm.ctx.Errorf("SoloMesh.Build: invalid cell size, cell height or number of vertices per polygon")
+		return nil, false
+	}
 
 	bmin := sm.geom.NavMeshBoundsMin()
 	bmax := sm.geom.NavMeshBoundsMax()
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index eae53f1..2a0f8d2 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -76,6 +76,10 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		// TODO: error "no vertices and triangles"
 		return nil, false
 	}
+	if !(tm.settings.CellSize > 0) || !(tm.settings.CellHeight > 0) || !(tm.settings.VertsPerPoly >= 3) || !(tm.settings.TileSize >= 1) {
+		tm.ctx.Errorf("TileMesh.Build: invalid cell size, cell height, tile size or number of vertices per polygon")
+		return nil, false
+	}
 
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
-- 
2.43.0


From 621e33eef42079e7c6cd7c2849427eb5831056b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 43/51] fix: AddTile ended the program on incomplete tile data

---
 detour/mesh.go    | 15 +++++++++++++++
 detour/structs.go | 27 +++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 0f35332..d8d6007 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -106,6 +106,10 @@ func Decode(r io.Reader) (*NavMesh, error) {
 			break
 		}
 
+		if tileHdr.DataSize < 0 {
+			return nil, fmt.Errorf("wrong size of tile %d: %d", i, tileHdr.DataSize)
+		}
+
 		data := make([]byte, tileHdr.DataSize)
 		if data == nil {
 			break
@@ -212,6 +216,9 @@ func (m *NavMesh) Size() int32 {
 //	see CreateNavMeshData
 func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 	var header MeshHeader
+	if len(data) < header.size() {
+		return Failure | InvalidParam
+	}
 	header.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -315,6 +322,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 // see CreateNavMeshData, removeTileBvTree
 func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	var hdr MeshHeader
+	if len(data) < hdr.size() {
+		return Failure | InvalidParam, 0
+	}
 	hdr.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -325,6 +335,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | WrongVersion, 0
 	}
 
+	// Make sure the data holds everything the header announces.
+	if size := hdr.tileDataSize(); size < 0 || size > int64(len(data)) {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure references can tell all polygons of the tile apart.
 	if int64(hdr.PolyCount) > int64(1)<<m.polyBits {
 		return Failure | InvalidParam, 0
diff --git a/detour/structs.go b/detour/structs.go
index a5bfd7d..b11d9b8 100644
--- a/detour/structs.go
+++ b/detour/structs.go
@@ -111,6 +111,33 @@ func (s *MeshHeader) size() int {
 	return 100
 }
 
+// tileDataSize returns the size of the data of a tile with this header, header
+// included, or -1 if the header can not be that of a tile.
+func (s *MeshHeader) tileDataSize() int64 {
+	size := int64(s.size())
+	for _, part := range []struct {
+		count, size int32
+	}{
+		{s.VertCount, 3 * 4},
+		{s.PolyCount, 32},
+		{s.MaxLinkCount, 12},
+		{s.DetailMeshCount, 12},
+		{s.DetailVertCount, 3 * 4},
+		{s.DetailTriCount, 4},
+		{s.BvNodeCount, 16},
+		{s.OffMeshConCount, 36},
+	} {
+		if part.count < 0 {
+			return -1
+		}
+		size += int64(part.count) * int64(part.size)
+	}
+	if s.MaxLinkCount == 0 {
+		return -1
+	}
+	return size
+}
+
 func (s *MeshHeader) serialize(dst []byte) {
 	if len(dst) < s.size() {
 		panic("undersized buffer for MeshHeader")
-- 
2.43.0


From 7ad38e17f70dbd1a1ec36b320fee82210e395855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 44/51] fix: report -1 for timers that are disabled or never
 ran

---
 recast/buildcontext.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/recast/buildcontext.go b/recast/buildcontext.go
index 84b1920..6b49147 100644
--- a/recast/buildcontext.go
+++ b/recast/buildcontext.go
@@ -23,6 +23,7 @@ const maxMessages = 1000
 type BuildContext struct {
 	startTime [maxTimers]time.Time
 	accTime   [maxTimers]time.Duration
+	timed     [maxTimers]bool // timers having an accumulated time
 
 	messages    [maxMessages]string
 	numMessages int
@@ -66,6 +67,7 @@ func (ctx *BuildContext) ResetTimers() {
 	if ctx.timerEnabled {
 		for i := 0; i < maxTimers; i++ {
 			ctx.accTime[i] = time.Duration(0)
+			ctx.timed[i] = false
 		}
 	}
 }
@@ -149,11 +151,8 @@ func (ctx *BuildContext) StartTimer(label TimerLabel) {
 func (ctx *BuildContext) StopTimer(label TimerLabel) {
 	if ctx.timerEnabled {
 		deltaTime := time.Since(ctx.startTime[label])
-		if ctx.accTime[label] == 0 {
-			ctx.accTime[label] = deltaTime
-		} else {
-			ctx.accTime[label] += deltaTime
-		}
+		ctx.accTime[label] += deltaTime
+		ctx.timed[label] = true
 	}
 }
 
@@ -163,8 +162,8 @@ func (ctx *BuildContext) StopTimer(label TimerLabel) {
 // Returns the accumulated time of the timer, or -1 if timers are disabled or
 // the timer has never been started.
 func (ctx *BuildContext) AccumulatedTime(label TimerLabel) time.Duration {
-	if ctx.timerEnabled {
+	if ctx.timerEnabled && ctx.timed[label] {
 		return ctx.accTime[label]
 	}
-	return time.Duration(0)
+	return time.Duration(-1)
 }
-- 
2.43.0


From a92aa2b73936d5be8065e041f9026b12bd0ca75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:32 +0000
Subject: [PATCH 45/51] fix: test a hole's merge diagonal against the edges of
 its own end point

---
 recast/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/contour.go b/recast/contour.go
index 62dda01..248d518 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -146,7 +146,7 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 			index = -1
 			for j := int32(0); j < ndiags; j++ {
 				pt := outline.Verts[diags[j].vert*4:]
-				intersect := intersectSegCountour(pt, corner, diags[i].vert, outline.NVerts, outline.Verts)
+				intersect := intersectSegCountour(pt, corner, diags[j].vert, outline.NVerts, outline.Verts)
 				for k := i; k < region.nholes && !intersect; k++ {
 					intersect = intersect || intersectSegCountour(pt, corner, -1, region.holes[k].contour.NVerts, region.holes[k].contour.Verts)
 				}
-- 
2.43.0


From 5108dd065274196a4c37245edbe35a2298674f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 46/51] fix: vertex offsets wrapped in polygon meshes with more
 than 21845 vertices

---
 recast/mesh.go       |  8 ++++----
 recast/meshdetail.go | 14 +++++++-------
 recast/polymesh.go   |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 4115bca..08ccff1 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -395,22 +395,22 @@ func getPolyMergeValue(pa, pb []uint16,
 	va = pa[(*ea+na-1)%na]
 	vb = pa[*ea]
 	vc = pb[(*eb+2)%nb]
-	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
+	if !uleft(verts[int(va)*3:], verts[int(vb)*3:], verts[int(vc)*3:]) {
 		return -1
 	}
 
 	va = pb[(*eb+nb-1)%nb]
 	vb = pb[*eb]
 	vc = pa[(*ea+2)%na]
-	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
+	if !uleft(verts[int(va)*3:], verts[int(vb)*3:], verts[int(vc)*3:]) {
 		return -1
 	}
 
 	va = pa[*ea]
 	vb = pa[(*ea+1)%na]
 
-	dx := int32(verts[va*3+0]) - int32(verts[vb*3+0])
-	dy := int32(verts[va*3+2]) - int32(verts[vb*3+2])
+	dx := int32(verts[int(va)*3+0]) - int32(verts[int(vb)*3+0])
+	dy := int32(verts[int(va)*3+2]) - int32(verts[int(vb)*3+2])
 
 	return dx*dx + dy*dy
 }
diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index f9204fd..60a13b0 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -393,7 +393,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int(p[j])*3:]
 			*xmin = iMin(*xmin, int32(v[0]))
 			*xmax = iMax(*xmax, int32(v[0]))
 			*ymin = iMin(*ymin, int32(v[2]))
@@ -434,7 +434,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int(p[j])*3:]
 			poly[j*3+0] = float32(v[0]) * cs
 			poly[j*3+1] = float32(v[1]) * ch
 			poly[j*3+2] = float32(v[2]) * cs
@@ -1088,9 +1088,9 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	)
 	for j := int32(0); j < npoly && dmin > 0; j++ {
 		for k := int32(0); k < 9 && dmin > 0; k++ {
-			ax := int32(verts[poly[j]*3+0]) + bsOffset[k*2+0]
-			ay := int32(verts[poly[j]*3+1])
-			az := int32(verts[poly[j]*3+2]) + bsOffset[k*2+1]
+			ax := int32(verts[int(poly[j])*3+0]) + bsOffset[k*2+0]
+			ay := int32(verts[int(poly[j])*3+1])
+			az := int32(verts[int(poly[j])*3+2]) + bsOffset[k*2+1]
 			if ax < hp.xmin || ax >= hp.xmin+hp.width ||
 				az < hp.ymin || az >= hp.ymin+hp.height {
 				continue
@@ -1116,8 +1116,8 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	// Find center of the polygon
 	var pcx, pcy int32
 	for j := int32(0); j < npoly; j++ {
-		pcx += int32(verts[poly[j]*3+0])
-		pcy += int32(verts[poly[j]*3+2])
+		pcx += int32(verts[int(poly[j])*3+0])
+		pcy += int32(verts[int(poly[j])*3+2])
 	}
 	pcx /= npoly
 	pcy /= npoly
diff --git a/recast/polymesh.go b/recast/polymesh.go
index 2ae38e1..22239ac 100644
--- a/recast/polymesh.go
+++ b/recast/polymesh.go
@@ -282,8 +282,8 @@ func BuildPolyMesh(ctx *BuildContext, cset *ContourSet, nvp int32) (*PolyMesh, b
 				if nj >= nvp || p[nj] == meshNullIdx {
 					nj = 0
 				}
-				va := mesh.Verts[p[j]*3:]
-				vb := mesh.Verts[p[nj]*3:]
+				va := mesh.Verts[int(p[j])*3:]
+				vb := mesh.Verts[int(p[nj])*3:]
 
 				if int32(va[0]) == 0 && int32(vb[0]) == 0 {
 					p[nvp+j] = 0x8000 | 0
-- 
2.43.0


From 8e61ec4556f2efa8dee91b35053a1c99a4395b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 47/51] fix: detail triangles of long polygons overlapped or
 left samples out

---
 recast/meshdetail.go | 79 ++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 47 deletions(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 60a13b0..d0ccce8 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -61,32 +61,6 @@ func vcross2(p1, p2, p3 []float32) float32 {
 	return u1*v2 - v1*u2
 }
 
-// TODO: should use d3.Vec3 instead of plain slices
-func circumCircle(p1, p2, p3 []float32, c []float32) (r float32, ret bool) {
-	const EPS float32 = 1e-6
-	// Calculate the circle relative to p1, to avoid some precision issues.
-	var v1, v2, v3 [3]float32
-	d3.Vec3Sub(v2[:], p2, p1)
-	d3.Vec3Sub(v3[:], p3, p1)
-
-	cp := vcross2(v1[:], v2[:], v3[:])
-	if math32.Abs(cp) > EPS {
-		v1Sq := vdot2(v1[:], v1[:])
-		v2Sq := vdot2(v2[:], v2[:])
-		v3Sq := vdot2(v3[:], v3[:])
-		c[0] = (v1Sq*(v2[2]-v3[2]) + v2Sq*(v3[2]-v1[2]) + v3Sq*(v1[2]-v2[2])) / (2 * cp)
-		c[1] = 0
-		c[2] = (v1Sq*(v3[0]-v2[0]) + v2Sq*(v1[0]-v3[0]) + v3Sq*(v2[0]-v1[0])) / (2 * cp)
-		r = vdist2(c, v1[:])
-		d3.Vec3Add(c, c, p1)
-		return r, true
-	}
-
-	copy(c, p1[:])
-	r = 0
-	return r, false
-}
-
 func distPtTri(p, a, b, c []float32) float32 {
 	var v0, v1, v2 [3]float32
 
@@ -530,12 +504,22 @@ func updateLeftFace(e []int32, s, t, f int32) {
 	}
 }
 
+// cross2 is vcross2 in double precision: collinear samples on an edge are only
+// told apart reliably if the sign does not depend on rounding.
+func cross2(p1, p2, p3 []float32) float64 {
+	u1 := float64(p2[0]) - float64(p1[0])
+	v1 := float64(p2[2]) - float64(p1[2])
+	u2 := float64(p3[0]) - float64(p1[0])
+	v2 := float64(p3[2]) - float64(p1[2])
+	return u1*v2 - v1*u2
+}
+
 func overlapSegSeg2d(a, b, c, d []float32) bool {
-	a1 := vcross2(a, b, d)
-	a2 := vcross2(a, b, c)
+	a1 := cross2(a, b, d)
+	a2 := cross2(a, b, c)
 	if a1*a2 < 0.0 {
-		a3 := vcross2(c, d, a)
-		a4 := a3 + a2 - a1
+		a3 := cross2(c, d, a)
+		a4 := cross2(c, d, b)
 		if a3*a4 < 0.0 {
 			return true
 		}
@@ -558,6 +542,17 @@ func overlapEdges(pts []float32, edges []int32, nedges, s1, t1 int32) bool {
 	return false
 }
 
+// inCircle is positive if d is inside of the circle through a, b and c (in the
+// order that makes vcross2 positive), zero if it is on the circle and negative
+// if it is outside. The points are single precision, so double precision leaves
+// next to nothing to rounding.
+func inCircle(a, b, c, d []float32) float64 {
+	ax, az := float64(a[0])-float64(d[0]), float64(a[2])-float64(d[2])
+	bx, bz := float64(b[0])-float64(d[0]), float64(b[2])-float64(d[2])
+	cx, cz := float64(c[0])-float64(d[0]), float64(c[2])-float64(d[2])
+	return (ax*ax+az*az)*(bx*cz-cx*bz) - (bx*bx+bz*bz)*(ax*cz-cx*az) + (cx*cx+cz*cz)*(ax*bz-bx*az)
+}
+
 // bestFacetPoint returns the point on the left of the edge s-t which forms the
 // triangle with the smallest circumcircle, or npts if there is none. If visible
 // is set, points whose edges to s or t would overlap an edge are not considered.
@@ -565,8 +560,6 @@ func bestFacetPoint(pts []float32, npts int32, edges []int32, nedges, s, t int32
 	const EPS float32 = 1e-5
 
 	pt := npts
-	var c [3]float32
-	r := float32(-1)
 	for u := int32(0); u < npts; u++ {
 		if u == s || u == t {
 			continue
@@ -575,23 +568,17 @@ func bestFacetPoint(pts []float32, npts int32, edges []int32, nedges, s, t int32
 			if visible && (overlapEdges(pts, edges, nedges, s, u) || overlapEdges(pts, edges, nedges, t, u)) {
 				continue
 			}
-			if r < 0 {
-				// The circle is not updated yet, do it now.
+			if pt == npts {
 				pt = u
-				r, _ = circumCircle(pts[s*3:], pts[t*3:], pts[u*3:], c[:])
 				continue
 			}
-			d := vdist2(c[:], pts[u*3:])
-			tol := float32(0.001)
-			if d > r*(1+tol) {
+			d := inCircle(pts[s*3:], pts[t*3:], pts[pt*3:], pts[u*3:])
+			if d < 0 {
 				// Outside current circumcircle, skip.
 				continue
-			} else if d < r*(1-tol) {
-				// Inside safe circumcircle, update circle.
-				pt = u
-				r, _ = circumCircle(pts[s*3:], pts[t*3:], pts[u*3:], c[:])
-			} else {
-				// Inside epsilon circum circle, do extra tests to make sure the edge is valid.
+			}
+			if d == 0 {
+				// On the circumcircle, do extra tests to make sure the edge is valid.
 				// s-u and t-u cannot overlap with s-pt nor t-pt if they exists.
 				if overlapEdges(pts, edges, nedges, s, u) {
 					continue
@@ -599,10 +586,8 @@ func bestFacetPoint(pts []float32, npts int32, edges []int32, nedges, s, t int32
 				if overlapEdges(pts, edges, nedges, t, u) {
 					continue
 				}
-				// Edge is valid.
-				pt = u
-				r, _ = circumCircle(pts[s*3:], pts[t*3:], pts[u*3:], c[:])
 			}
+			pt = u
 		}
 	}
 	return pt
-- 
2.43.0


From 6f9f5932f9f9795dfb30504627d5d1fb8bc5e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:10 +0000
Subject: [PATCH 48/51] fix: neighbours were lost in polygon meshes with more
 than 65534 edges

---
 recast/mesh.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 08ccff1..07811ca 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -11,7 +11,8 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	// http://www.terathon.com/code/edges.php
 
 	maxEdgeCount := npolys * vertsPerPoly
-	firstEdge := make([]uint16, nverts+maxEdgeCount)
+	// There may be more than 0xffff edges, even if there are fewer vertices.
+	firstEdge := make([]int32, nverts+maxEdgeCount)
 	nextEdge := firstEdge[nverts:]
 	var edgeCount int32
 
@@ -21,7 +22,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	}
 
 	for i := int32(0); i < nverts; i++ {
-		firstEdge[i] = meshNullIdx
+		firstEdge[i] = -1
 	}
 
 	for i := int32(0); i < npolys; i++ {
@@ -48,7 +49,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				edge.polyEdge[1] = 0
 				// Insert edge
 				nextEdge[edgeCount] = firstEdge[v0]
-				firstEdge[v0] = uint16(edgeCount)
+				firstEdge[v0] = edgeCount
 				edgeCount++
 			}
 		}
@@ -68,7 +69,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				v1 = t[j+1]
 			}
 			if v0 > v1 {
-				for e := uint16(firstEdge[v1]); e != meshNullIdx; e = nextEdge[e] {
+				for e := firstEdge[v1]; e != -1; e = nextEdge[e] {
 					edge := edges[e]
 					if edge.vert[1] == v0 && edge.poly[0] == edge.poly[1] {
 						edge.poly[1] = uint16(i)
-- 
2.43.0


From 93951bab473b441ded50ad30803b0c0106073f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:56 +0000
Subject: [PATCH 49/51] fix: MeshLoaderOBJ.Load kept the triangles of the
 document loaded before

---
 recast/meshloaderobj.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recast/meshloaderobj.go b/recast/meshloaderobj.go
index d4d6ade..0af8d93 100644
--- a/recast/meshloaderobj.go
+++ b/recast/meshloaderobj.go
@@ -57,7 +57,8 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	}
 	vertcount := int32(len(verts))
 
-	// add polygons
+	// add polygons, in place of those loaded before
+	mlo.tris = make([]int32, 0, len(mlo.tris))
 	for _, p := range obj.Polys() {
 		for i := 2; i < len(p); i++ {
 			a := p[0]
-- 
2.43.0


From 215a46cefd6d354d61e508b8eb56f7260346acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:45 +0000
Subject: [PATCH 50/51] fix: AddConvexVolume cut volumes of more than 12
 points, which crashed the build

---
 recast/inputgeom.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index e0a15be..10031d0 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -8,11 +8,10 @@ import (
 const (
 	maxOffMeshConnections = 256
 	maxVolumes            = 256
-	maxConvexVolPts       = 12
 )
 
 type ConvexVolume struct {
-	Verts      [maxConvexVolPts * 3]float32
+	Verts      []float32
 	HMin, HMax float32
 	NVerts     int32
 	Area       int32
@@ -220,7 +219,7 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	}
 	vol := &ig.volumes[ig.volumeCount]
 	ig.volumeCount++
-	copy(vol.Verts[:], verts)
+	vol.Verts = append([]float32(nil), verts...)
 	vol.HMin = minh
 	vol.HMax = maxh
 	vol.NVerts = int32(len(verts) / 3)
-- 
2.43.0


From 555dce92e5fbbc248b707ec722142ffc7a9d41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:43 +0000
Subject: [PATCH 51/51] fix: tiled builds dropped the geometry behind the first
 512 chunks of a tile

---
 sample/tilemesh/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 2a0f8d2..c72f0cd 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -288,8 +288,8 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tbmin[1] = tm.cfg.BMin[2]
 	tbmax[0] = tm.cfg.BMax[0]
 	tbmax[1] = tm.cfg.BMax[2]
-	var cid [512]int32 // TODO: Make grow when returning too many items.
-	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid[:])
+	cid := make([]int32, chunkyMesh.Nnodes) // room for every chunk
+	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
 		return nil
 	}
-- 
2.43.0

